//! C06: file faults while buffering a body are reported, never corrupt it.
//! C07: temporary files are private and leave nothing behind.

use std::io::Read;
use std::path::Path;

use body_image::{BodyError, BodyImage, BodyReader, BodySink};
use body_image_futio::{AsyncBodyImage, FutioTuner, StreamWrapper, UniBodyBuf};
use bytes::{Buf, Bytes};
use futures_core::Stream;

use crate::aio::Task;
use crate::engine::*;
use crate::fault::Faults;
use crate::sys;
use crate::util::*;
use crate::{bail, ensure, tr};

use super::c02::Cache;

pub struct C06;
pub struct C07;

#[derive(Clone, Debug)]
enum Scene {
    /// operations on a sink, then on the image
    Ops { fs: bool, depth: usize, image: usize, sizes: &'static [usize] },
    /// read_from: source length, estimate, ram limit, buffers
    Read { n: usize, est: u64, ram: u64, max: u64, bram: usize, bfs: usize },
    /// an existing file, range
    FromFile { a: u64, b: u64, whole: bool },
}

#[derive(Clone, Debug)]
struct Cfg { scene: Scene, faults: usize, no_tmpfile: bool,
    /// The temporary directory is given relative to the working directory
    rel: bool,
    /// At every read and write
    storm: sys::Storm }

/// `faults`: how many faults are placed with the short and the long histories
fn scenes(t: Tier, short: usize, long: usize) -> Vec<Cfg> {
    let mut v = vec![];
    let mut add = |scene, faults| v.push(Cfg { scene, faults, no_tmpfile: false, rel: false, storm: sys::CALM });
    const S: &[usize] = &[3, 5];
    const S1: &[usize] = &[3];
    const L: &[usize] = &[9000, 1];
    for fs in [true, false] {
        add(Scene::Ops { fs, depth: 3, image: 1, sizes: S1 }, short);
        add(Scene::Ops { fs, depth: t.pick(4, 5), image: 1, sizes: S }, long);
        add(Scene::Ops { fs, depth: 2, image: 2, sizes: S1 }, long);
        add(Scene::Ops { fs, depth: t.pick(2, 3), image: 1, sizes: L }, long);
    }
    for n in [0usize, 1, 7, 12] {
        for (est, ram) in [(0u64, 0u64), (0, 5), (0, 100), (50, 5)] {
            for (bram, bfs) in [(4, 3), (64, 64)] {
                add(Scene::Read { n, est, ram, max: 1000, bram, bfs }, short);
            }
        }
        add(Scene::Read { n, est: 0, ram: 2, max: 6, bram: 2, bfs: 2 }, short);
        add(Scene::Read { n, est: 9, ram: 2, max: 6, bram: 2, bfs: 2 }, short);
    }
    for (a, b) in [(0u64, 12u64), (0, 5), (4, 9)] {
        add(Scene::FromFile { a, b, whole: a == 0 }, short);
        if a == 0 { add(Scene::FromFile { a, b, whole: false }, short); }
    }
    v
}

fn cfgs6(t: Tier) -> Vec<Cfg> {
    let mut v = scenes(t, t.pick(2, 3), t.pick(1, 2));
    let mut all = scenes(t, 0, 0);
    for (ram, bram, bfs) in [(0, 64, 512), (1000, 1024, 700), (4000, 1500, 64)] {
        all.push(Cfg { scene: Scene::Read { n: 3000, est: 0, ram, max: 4000, bram, bfs }, ..all[0].clone() });
    }
    for c in all.iter().filter(|c| !matches!(c.scene, Scene::Ops { sizes: [9000, ..], .. })) { for storm in sys::STORMS { v.push(Cfg { storm, ..c.clone() }); } }
    v
}
fn cfgs7(t: Tier) -> Vec<Cfg> {
    let mut v = vec![];
    for c in scenes(t, 1, t.pick(0, 1)) {
        for no_tmpfile in [false, true] {
            v.push(Cfg { no_tmpfile, ..c.clone() });
            if matches!(c.scene, Scene::Read { .. } | Scene::Ops { depth: 3, .. }) { v.push(Cfg { no_tmpfile, rel: true, faults: 0, ..c.clone() }); }
        }
    }
    v
}

static CACHE6: Cache<Cfg> = Cache::new();
static CACHE7: Cache<Cfg> = Cache::new();

const K: &str = "fault";

/// Called after each operation on temporary files
type Hook<'a> = &'a mut dyn FnMut(&mut Faults) -> Res;

fn scene(cfg: &Cfg, tmp: &Path, hook: Hook<'_>) -> Res { sys::with_storm(cfg.storm, || scene_in(cfg, tmp, hook)) }

fn scene_in(cfg: &Cfg, tmp: &Path, hook: Hook<'_>) -> Res {
    let mut fl = Faults::new(cfg.faults);
    fl.no_tmpfile = cfg.no_tmpfile;
    match cfg.scene {
        Scene::Ops { fs, depth, image, sizes } => ops(&mut fl, fs, depth, image, sizes, tmp, hook),
        Scene::Read { n, est, ram, max, bram, bfs } => {
            let tn = tune(ram, max, bram, bfs, tmp);
            let data = pattern(3, n);
            let mut src = &data[..];
            let r = sys::with_handler(&mut fl, || BodyImage::read_from(&mut src, est, &tn));
            hook(&mut fl)?;
            match r {
                Ok(b) => {
                    ensure!(n as u64 <= max, K, "accepted over-long body");
                    check_image(K, &b, &data)?;
                    observe((1, state_of(&b)));
                    drop(b);
                    hook(&mut fl)
                }
                Err(BodyError::BodyTooLong(_)) if n as u64 > max => { observe(2); Ok(()) }
                Err(e) => {
                    ensure!(fl.errors > 0, K, "failed without a failing call ({} short, {} interrupted): {}", fl.shorts, fl.intrs, e);
                    observe(3);
                    Ok(())
                }
            }
        }
        Scene::FromFile { a, b, whole } => {
            let data = pattern(0, 12);
            let f = file_with(&data);
            sys::track(fd_of(&f));
            let img = unsafe {
                if whole { BodyImage::from_file(f, b) }
                else { BodyImage::from_read_slice(olio::fs::rc::ReadSlice::new(std::sync::Arc::new(f), a, b)) }
            };
            image_ops(&mut fl, img, &data[a as usize..b as usize], 2, hook)
        }
    }
}

fn ops(fl: &mut Faults, fs: bool, depth: usize, image: usize, sizes: &[usize], tmp: &Path, hook: Hook<'_>) -> Res {
    let mut model: Vec<u8> = vec![];
    let mut s = if fs {
        let e0 = fl.errors;
        let r = sys::with_handler(fl, || BodySink::with_fs(tmp));
        hook(fl)?;
        match r {
            Ok(s) => s,
            Err(e) => {
                ensure!(fl.errors > e0, K, "with_fs failed without a failing call: {}", e);
                observe(0);
                return Ok(());
            }
        }
    } else { BodySink::empty() };
    let mut left = depth;
    let mut ram = !fs;
    let mut written = 0;
    loop {
        ensure!(s.len() == model.len() as u64, K, "sink len() is {} expected {}", s.len(), model.len());
        ensure!(s.is_ram() == ram, K, "sink is_ram() is {} expected {}", s.is_ram(), ram);
        ensure!(s.is_empty() == model.is_empty(), K, "sink is_empty() wrong");
        observe((s.len(), ram));
        if left == 0 { break; }
        left -= 1;
        let c = choose(2 + 2 * sizes.len());
        let e0 = fl.errors;
        match c {
            0 => break,
            1 => {
                tr!("write_back");
                let r = sys::with_handler(fl, || s.write_back(tmp).map(|_| ()));
                match r {
                    Ok(()) => ram = false,
                    Err(e) => {
                        ensure!(fl.errors > e0, K, "write_back failed without a failing call: {}", e);
                        ensure!(ram, K, "write_back of a file body failed");
                        tr!("  failed");
                        model.clear();
                    }
                }
            }
            c => {
                let i = (c - 2) / 2;
                // bytes differ from those of a failed append
                let d = pattern(written, sizes[i]);
                written += sizes[i];
                tr!("append {}", d.len());
                let r = if c % 2 == 0 { sys::with_handler(fl, || s.push(d.clone())) }
                        else { sys::with_handler(fl, || s.write_all(&d)) };
                match r {
                    Ok(()) => model.extend_from_slice(&d),
                    Err(e) => {
                        ensure!(fl.errors > e0, K, "append failed without a failing call: {}", e);
                        ensure!(!ram, K, "append to RAM failed");
                        tr!("  failed");
                    }
                }
            }
        }
        hook(fl)?;
    }
    tr!("prepare");
    let e0 = fl.errors;
    let r = sys::with_handler(fl, || s.prepare());
    hook(fl)?;
    match r {
        Ok(img) => image_ops(fl, img, &model, image, hook),
        Err(e) => {
            ensure!(fl.errors > e0, K, "prepare failed without a failing call: {}", e);
            observe(9);
            Ok(())
        }
    }
}

fn image_ops(fl: &mut Faults, mut img: BodyImage, model: &[u8], depth: usize, hook: Hook<'_>) -> Res {
    let mut keep: Vec<BodyImage> = vec![];
    for i in 0..depth {
        let e0 = fl.errors;
        match choose(7) {
            0 => break,
            1 => {
                tr!("mem_map");
                match sys::with_handler(fl, || img.mem_map().map(|_| ())) {
                    Ok(()) => ensure!(img.is_mem_map() || img.is_ram(), K, "not mapped"),
                    Err(e) => ensure!(fl.errors > e0 && !img.is_mem_map(), K, "mem_map failed without a failing call: {}", e),
                }
            }
            2 => {
                tr!("read");
                let mut v = vec![];
                let r = sys::with_handler(fl, || img.reader().read_to_end(&mut v));
                match r {
                    Ok(_) => ensure!(v == model, K, "read: {}", first_diff(&v, model)),
                    Err(e) => ensure!(fl.errors > e0 && model.starts_with(&v), K, "read failed with {} after {}", e, hx(&v)),
                }
            }
            3 => {
                tr!("write_to");
                let mut v = vec![];
                let r = sys::with_handler(fl, || img.write_to(&mut v));
                match r {
                    Ok(n) => ensure!(v == model && n == model.len() as u64, K, "write_to {}: {}", n, first_diff(&v, model)),
                    Err(e) => ensure!(fl.errors > e0 && model.starts_with(&v), K, "write_to failed with {} after {}", e, hx(&v)),
                }
            }
            4 => { tr!("clone"); keep.push(img.clone()); }
            5 => {
                tr!("reader over drop");
                // a detached reader outlives the body
                let c = img.clone();
                if let BodyReader::FileSlice(mut r) = c.reader() {
                    drop(c);
                    let mut b = [0u8; 2];
                    let x = sys::with_handler(fl, || r.read(&mut b));
                    if let Ok(n) = x { ensure!(model.starts_with(&b[..n]), K, "detached reader"); }
                    observe(n_of(&x));
                }
            }
            _ => {
                tr!("stream");
                let tn = FutioTuner::new().set_image(tune(1, 1000, 4, if model.len() > 100 { 4096 } else { 4 }, crate::engine::scratch())).finish();
                let task = Task::new();
                let mut st: AsyncBodyImage<UniBodyBuf> = StreamWrapper::new(img.clone(), tn);
                let mut v = vec![];
                let mut err = false;
                for _ in 0..model.len() + 2 {
                    let p = sys::with_handler(fl, || std::pin::Pin::new(&mut st).poll_next(&mut task.cx()));
                    match p {
                        std::task::Poll::Ready(Some(Ok(b))) => v.extend_from_slice(b.chunk()),
                        std::task::Poll::Ready(None) => break,
                        std::task::Poll::Ready(Some(Err(_))) => { err = true; break; }
                        std::task::Poll::Pending => bail!(K, "direct stream pending"),
                    }
                }
                if err { ensure!(fl.errors > e0 && model.starts_with(&v), K, "stream failed without a failing call"); }
                else { ensure!(v == model, K, "stream: {}", first_diff(&v, model)); }
            }
        }
        observe((i, state_of(&img)));
        hook(fl)?;
    }
    // Faults are over
    check_image(K, &img, model)?;
    drop(img);
    hook(fl)?;
    for k in &keep { check_image(K, k, model)?; }
    drop(keep);
    observe((fl.errors, fl.shorts, fl.intrs));
    hook(fl)
}

fn n_of(r: &std::io::Result<usize>) -> i64 { match r { Ok(n) => *n as i64, Err(_) => -1 } }

const _: fn(Bytes) -> usize = |b| b.remaining();

impl Check for C06 {
    fn id(&self) -> &'static str { "C06" }
    fn level(&self) -> &'static str { "fault_enumeration" }
    fn rule(&self, t: Tier) -> String {
        format!("{} scenarios (all short sequences of sink and image operations, read_from, bodies over existing files); at every file system call made by the code under test an error, a short count (1, half, all but one) or an interruption is injected, for all placements of up to {} faults (short histories; one less for longer ones); also with every read and write interrupted up to 40 times and of at most 1 or 3 bytes; the model is a byte vector with the documented effect of failures; distinct: differing sequence of observations", cfgs6(t).len(), t.pick(2, 3))
    }
    fn configs(&self, t: Tier) -> usize { CACHE6.get(t, cfgs6).len() }
    fn describe(&self, t: Tier, c: usize) -> String { format!("{:?}", CACHE6.get(t, cfgs6)[c]) }
    fn run(&self, t: Tier, c: usize) -> Res {
        let cfg = &CACHE6.get(t, cfgs6)[c];
        let tmp = dir("t");
        scene(cfg, &tmp, &mut |_| Ok(()))
    }
}

fn fd_count() -> usize { std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0) }

fn maps_of(p: &Path) -> usize {
    let s = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let p = p.to_string_lossy();
    s.lines().filter(|l| l.contains(&*p)).count()
}

/// The same directory, by way of the working directory
fn relative(p: &Path) -> std::path::PathBuf {
    let cwd = std::env::current_dir().expect("working directory");
    let mut r = std::path::PathBuf::new();
    for _ in cwd.components().skip(1) { r.push(".."); }
    r.join(p.strip_prefix("/").unwrap_or(p))
}

/// If a name opened, which may be gone by now, is in a directory
fn within(p: &str, d: &Path) -> bool {
    let p = Path::new(p);
    let c = std::fs::canonicalize(p).or_else(|_| std::fs::canonicalize(p.parent().unwrap_or(p)));
    c.is_ok_and(|c| c.starts_with(std::fs::canonicalize(d).unwrap_or_default()))
}

impl Check for C07 {
    fn id(&self) -> &'static str { "C07" }
    fn level(&self) -> &'static str { "fault_enumeration" }
    fn rule(&self, t: Tier) -> String {
        format!("{} scenarios (as C06, with and without support for unnamed files in the file system, the directory given absolute or relative), with all placements of up to one fault (longer histories: {}); after every operation the temporary directory must hold no name, every file opened must be in it, and at the end no file descriptor or memory mapping may be left", cfgs7(t).len(), t.pick(0, 1))
    }
    fn configs(&self, t: Tier) -> usize { CACHE7.get(t, cfgs7).len() }
    fn describe(&self, t: Tier, c: usize) -> String { format!("{:?}", CACHE7.get(t, cfgs7)[c]) }
    fn run(&self, t: Tier, c: usize) -> Res {
        const K: &str = "leftover";
        let cfg = &CACHE7.get(t, cfgs7)[c];
        let tmp = dir("t7");
        let fds = fd_count();
        let maps = maps_of(scratch());
        let tstr = tmp.to_string_lossy().into_owned();
        let mut n = 0;
        let given = if cfg.rel { relative(&tmp) } else { tmp.clone() };
        let r = scene(cfg, &given, &mut |fl| {
            for p in &fl.opened {
                ensure!(p.starts_with(&tstr) || cfg.rel && within(p, &tmp), K, "opened {} outside of the temporary directory", p);
            }
            n += 1;
            let names: Vec<String> = std::fs::read_dir(&tmp).map(|d| d.filter_map(|e| e.ok())
                .map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
            ensure!(names.is_empty(), K, "after operation {} the temporary directory has {} named files", n, names.len());
            Ok(())
        });
        for e in std::fs::read_dir(&tmp).into_iter().flatten().flatten() { std::fs::remove_file(e.path()).ok(); }
        r?;
        let f2 = fd_count();
        ensure!(f2 == fds, K, "{} file descriptors before, {} after", fds, f2);
        let m2 = maps_of(scratch());
        ensure!(m2 == maps, K, "{} mapped files before, {} after", maps, m2);
        Ok(())
    }
}
