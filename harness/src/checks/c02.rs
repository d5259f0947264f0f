//! C02: reading in a body reproduces the source exactly.

use std::io::{self, Read};

use body_image::{BodyError, BodyImage};

use crate::engine::*;
use crate::util::*;
use crate::{bail, ensure, tr};

pub struct C02;

const K: &str = "read-in";

#[derive(Clone, Debug)]
pub struct Cfg {
    pub n: usize, pub est: u64, pub ram: u64, pub max: u64, pub bram: usize, pub bfs: usize,
    pub menu: &'static [usize], // sizes in which the source delivers; 0 stands for "as much as fits"
    pub free: usize,            // number of deliveries that are chosen (then as much as fits)
    pub faults: bool,
    pub storm: usize,           // interruptions before every delivery
}

/// Source whose every delivery is chosen
pub struct Scripted<'a> {
    pub data: &'a [u8], pub pos: usize, pub menu: &'a [usize], pub free: usize,
    pub faults: bool, pub intr_left: usize, pub failed: Option<io::ErrorKind>, pub reads: usize,
    pub storm: usize, pub streak: usize,
}

const KINDS: [io::ErrorKind; 3] = [io::ErrorKind::Other, io::ErrorKind::WouldBlock, io::ErrorKind::UnexpectedEof];

impl<'a> Read for Scripted<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if self.streak < self.storm {
            self.streak += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.streak = 0;
        let left = self.data.len() - self.pos;
        let fit = left.min(buf.len());
        let m = self.menu.len();
        let extra = if self.faults && self.failed.is_none() { 1 + KINDS.len() } else { 0 };
        let sel = if self.free > 0 {
            self.free -= 1;
            let intr = if self.intr_left > 0 { 1 } else { 0 };
            let c = choose(m + if extra > 0 { intr + KINDS.len() } else { 0 });
            if c >= m && intr == 0 { c + 1 } else { c }
        } else { 0 };
        if sel < m {
            let want = if self.menu[sel] == 0 { fit } else { self.menu[sel].min(fit) };
            buf[..want].copy_from_slice(&self.data[self.pos..self.pos + want]);
            self.pos += want;
            tr!("source read({}) -> {}", buf.len(), want);
            return Ok(want);
        }
        if sel == m {
            self.intr_left -= 1;
            tr!("source read({}) -> Interrupted", buf.len());
            return Err(io::ErrorKind::Interrupted.into());
        }
        let k = KINDS[sel - m - 1];
        self.failed = Some(k);
        tr!("source read({}) -> {:?}", buf.len(), k);
        Err(io::Error::new(k, "injected source failure"))
    }
}

pub fn cfgs(t: Tier) -> Vec<Cfg> {
    let mut v = vec![];
    const M1: &[usize] = &[0, 1];
    const M3: &[usize] = &[0, 1, 3];
    // small scale: everything about boundaries of tiny buffers and limits
    for n in t.pick(vec![0usize, 1, 4, 7], vec![0, 1, 2, 4, 7, 9]) {
        for ram in [0u64, 4, 6, 100] {
            for est in [0, 5, 1000] {
                for (bram, bfs) in [(1, 1), (3, 2), (64, 64)] {
                    v.push(Cfg { n, est, ram, max: 1 << 20, bram, bfs, menu: M1, free: t.pick(5, 8), faults: true, storm: 0 });
                }
            }
        }
    }
    // around the 1 KiB free space rule, and growing of buffers
    const B: &[usize] = &[0, 1000, 1024, 1];
    for n in [1023usize, 2048, 2049, 4100, 9000] {
        for ram in [0u64, 1024, 2048, 4096, 100_000] {
            for (bram, bfs) in [(1024, 1024), (1025, 100), (2048, 512), (4000, 8192), (64, 64)] {
                for est in t.pick(vec![0u64, 3000], vec![0, 2048, 3000, 1 << 40]) {
                    v.push(Cfg { n, est, ram, max: 1 << 20, bram, bfs, menu: B, free: t.pick(3, 5), faults: t == Tier::Thorough, storm: 0 });
                }
            }
        }
    }
    // without limits, estimates as may be claimed by anyone
    for n in [0usize, 5, 9000] {
        for (ram, max) in [(u64::MAX, u64::MAX), (1 << 62, u64::MAX), (1 << 40, 1 << 41), (100, u64::MAX)] {
            for est in [1u64 << 32, 1 << 40, 1 << 47, 1 << 53, (1 << 58) - 1, 1 << 62, u64::MAX - 1, u64::MAX] {
                v.push(Cfg { n, est, ram, max, bram: 8192, bfs: 8192, menu: M1, free: 2, faults: true, storm: 0 });
            }
        }
    }
    // failures with part of a buffer filled
    const P: &[usize] = &[0, 1000, 1];
    for n in [1001usize, 2500, 4100] {
        for ram in [0u64, 1500, 3000, 100_000] {
            for (bram, bfs) in [(4000, 512), (2100, 4096), (8192, 65536)] {
                v.push(Cfg { n, est: 0, ram, max: 1 << 20, bram, bfs, menu: P, free: t.pick(4, 5), faults: true, storm: 0 });
            }
        }
    }
    // larger sources and buffers
    const L: &[usize] = &[0, 8191, 10_001, 1];
    for n in t.pick(vec![8193usize, 16_385, 20_000, 65_537, 70_001, 200_000], vec![8191, 8192, 8193, 8200, 16_384, 16_385, 20_000, 65_536, 65_537, 70_001, 131_073, 200_000]) {
        for ram in [0u64, 9000, 100_000, 1 << 20] {
            for (bram, bfs) in [(8192, 65_536), (20_000, 100_000), (100_000, 9000), (16_384, 131_072)] {
                for est in [0u64, n as u64] {
                    v.push(Cfg { n, est, ram, max: 1 << 20, bram, bfs, menu: L, free: 2, faults: false, storm: 0 });
                }
            }
        }
    }
    for n in [3usize, 6] {
        for ram in [0, 2, 5, 6, 100] {
            v.push(Cfg { n, est: 0, ram, max: 1 << 20, bram: 2, bfs: 2, menu: M3, free: t.pick(7, 9), faults: false, storm: 0 });
        }
    }
    // many interruptions, many small portions
    for n in [1usize, 5, 300, 3000] {
        for ram in [0u64, 4, 1000, 100_000] {
            for (bram, bfs) in [(1, 1), (64, 64), (1024, 2000)] {
                for (menu, storm) in [(&[0usize][..], 9), (&[1], 0), (&[1], 9), (&[3], 40)] {
                    v.push(Cfg { n, est: 0, ram, max: 1 << 20, bram, bfs, menu, free: usize::MAX, faults: false, storm });
                }
            }
        }
    }
    v
}

impl Check for C02 {
    fn id(&self) -> &'static str { "C02" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("BodyImage::read_from on {} combinations of source length, length estimate, RAM limit and buffer sizes, with every sequence of the first deliveries (portion sizes, interruptions, failures of three kinds at any point; or up to 40 interruptions before every delivery of 1, 3 or all bytes); result compared with the source bytes by every way of reading, or the error with the injected one", cfgs(t).len())
    }
    fn configs(&self, t: Tier) -> usize { cfgs(t).len() }
    fn describe(&self, t: Tier, c: usize) -> String { format!("{:?}", cfgs(t)[c]) }
    fn run(&self, t: Tier, c: usize) -> Res {
        let cfg = CACHE.get(t, cfgs)[c].clone();
        let tmp = dir("t");
        let tn = tune(cfg.ram, cfg.max, cfg.bram, cfg.bfs, &tmp);
        let data = pattern(7, cfg.n);
        let mut s = Scripted { data: &data, pos: 0, menu: cfg.menu, free: cfg.free, faults: cfg.faults,
                               intr_left: 2, failed: None, reads: 0, storm: cfg.storm, streak: 0 };
        let r = BodyImage::read_from(&mut s, cfg.est, &tn);
        match (r, s.failed) {
            (Ok(b), None) => {
                check_image(K, &b, &data)?;
                observe((state_of(&b), s.reads));
            }
            (Ok(_), Some(k)) => bail!(K, "source failed with {:?} but a body was returned", k),
            (Err(BodyError::Io(e)), Some(k)) => {
                ensure!(e.kind() == k, K, "error is {:?}, source failed with {:?}", e, k);
                observe((k as u8, s.reads));
            }
            (Err(e), Some(k)) => bail!(K, "error is {:?}, source failed with {:?}", e, k),
            (Err(e), None) => bail!(K, "failed without cause: {}", e),
        }
        Ok(())
    }
}

/// Configuration lists are made once per process
pub struct Cache<T: 'static>(std::sync::OnceLock<(Tier, Vec<T>)>);
impl<T> Cache<T> {
    pub const fn new() -> Cache<T> { Cache(std::sync::OnceLock::new()) }
    pub fn get(&'static self, t: Tier, f: fn(Tier) -> Vec<T>) -> &'static [T] {
        let x = self.0.get_or_init(|| (t, f(t)));
        assert!(x.0 == t);
        &x.1
    }
}
static CACHE: Cache<Cfg> = Cache::new();
