//! C30: writing out a body delivers exactly its bytes, or reports a failure.

use std::io::{self, Write};
use std::sync::Arc;

use body_image::{BodyError, BodyImage};
use olio::fs::rc::ReadSlice;

use crate::engine::*;
use crate::sys;
use crate::util::*;
use crate::{bail, ensure, tr};

use super::c02::Cache;

pub struct C30;
const K: &str = "write-out";

const KINDS: [io::ErrorKind; 5] = [io::ErrorKind::Other, io::ErrorKind::WouldBlock, io::ErrorKind::BrokenPipe, io::ErrorKind::UnexpectedEof, io::ErrorKind::WriteZero];

struct Nothing;
impl sys::Handler for Nothing {}

/// Destination whose every reply is chosen
struct Dest { got: Vec<u8>, free: usize, intr: usize, failed: Option<io::ErrorKind>, calls: usize, storm: sys::Storm, streak: u32 }

impl Write for Dest {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if b.is_empty() { return Ok(0); }
        if self.streak < self.storm.0 {
            self.streak += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.streak = 0;
        let mut n = if self.storm.1 > 0 { b.len().min(self.storm.1) } else { b.len() };
        if self.free > 0 && self.failed.is_none() {
            self.free -= 1;
            let mut part = vec![b.len()];
            for p in [1, b.len() / 2, b.len() - 1] { if p > 0 && !part.contains(&p) { part.push(p); } }
            let intr = (self.intr > 0) as usize;
            let c = choose(part.len() + 1 + KINDS.len() + intr);
            if c < part.len() { n = part[c]; }
            else if c == part.len() {
                tr!("  write({}) -> 0", b.len());
                self.failed = Some(io::ErrorKind::WriteZero);
                return Ok(0);
            } else if c <= part.len() + KINDS.len() {
                let k = KINDS[c - part.len() - 1];
                tr!("  write({}) -> {:?}", b.len(), k);
                self.failed = Some(k);
                return Err(io::Error::new(k, "injected"));
            } else {
                tr!("  write({}) -> interrupted", b.len());
                self.intr -= 1;
                return Err(io::ErrorKind::Interrupted.into());
            }
        }
        tr!("  write({}) -> {}", b.len(), n);
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

#[derive(Clone, Debug)]
struct F { make: Make, len: usize, free: usize, times: usize,
           /// Of a file which has only this many of the bytes
           cut: Option<usize>,
           /// Other contents
           fill: usize,
           /// At every write, and read of the body's file
           storm: sys::Storm }

fn cfgs(t: Tier) -> Vec<F> {
    let mut v = vec![];
    for make in MAKES {
        for len in [0, 1, 2, 3, 5, 8] { v.push(F { make, len, free: t.pick(4, 5), times: 1, cut: None, fill: 0, storm: sys::CALM }); }
        for len in [4, 7] { v.push(F { make, len, free: t.pick(2, 3), times: 2, cut: None, fill: 0, storm: sys::CALM }); }
        for len in [8192, 8193, 20_000, 70_000] { v.push(F { make, len, free: t.pick(3, 4), times: 1, cut: None, fill: 0, storm: sys::CALM }); }
    }
    for make in MAKES { for fill in 1..=FILLS.len() { for len in [9, 300, 8192, 20_000] { v.push(F { make, len, free: t.pick(1, 2), times: 1, cut: None, fill, storm: sys::CALM }); } } }
    for make in [Make::File, Make::Slice] {
        for len in [1, 2, 3, 5] { for cut in 0..len { v.push(F { make, len, free: t.pick(2, 3), times: 1, cut: Some(cut), fill: 0, storm: sys::CALM }); } }
        for cut in [0, 1, 8191, 8192, 8193, 19_999] { v.push(F { make, len: 20_000, free: t.pick(2, 3), times: 1, cut: Some(cut), fill: 0, storm: sys::CALM }); }
    }
    for make in MAKES { for len in [1, 9, 300, 20_000] { for storm in sys::STORMS { v.push(F { make, len, free: 0, times: 1, cut: None, fill: 0, storm }); } } }
    v
}
static CACHE: Cache<F> = Cache::new();

/// A body of a file which ends early: this has to be noticed.
fn run_cut(f: &F, cut: usize) -> Res {
    let data = pattern(5, f.len);
    let body = match f.make {
        Make::File => unsafe { BodyImage::from_file(file_with(&data[..cut]), f.len as u64) },
        _ => {
            let file = file_with(&[b"before..", &data[..cut]].concat());
            unsafe { BodyImage::from_read_slice(ReadSlice::new(Arc::new(file), 8, 8 + f.len as u64)) }
        }
    };
    let mut d = Dest { got: vec![], free: f.free, intr: 1, failed: None, calls: 0, storm: sys::CALM, streak: 0 };
    let r = body.write_to(&mut d);
    tr!("  -> {:?}", r.as_ref().map_err(|e| e.to_string()));
    observe((d.calls, d.got.len(), r.is_ok()));
    ensure!(data[..cut].starts_with(&d.got), K, "written: {}", first_diff(&d.got, &data));
    ensure!(r.is_err(), K, "{} of {} bytes written without an error, as the file has no more", d.got.len(), data.len());
    Ok(())
}

fn run(f: &F) -> Res {
    if let Some(cut) = f.cut { return run_cut(f, cut); }
    let data = with_fill(f.fill, || pattern(5, f.len));
    let body = match make_body(f.make, &data) { Ok(b) => b, Err(e) => bail!(K, "making a body: {}", e) };
    for _ in 0..f.times {
        let mut d = Dest { got: vec![], free: f.free, intr: 2, failed: None, calls: 0, storm: f.storm, streak: 0 };
        // by reference to a known type, or one not known
        let mut h = Nothing;
        let r = if f.len < 100 && flip() { body.write_to(&mut d as &mut dyn Write) }
            else if f.storm != sys::CALM { super::c18::track_files(); sys::with_storm(f.storm, || sys::with_handler(&mut h, || body.write_to(&mut d))) }
            else { body.write_to(&mut d) };
        tr!("  -> {:?}", r.as_ref().map_err(|e| e.to_string()));
        observe((d.calls, d.got.len(), r.is_ok()));
        ensure!(data.starts_with(&d.got), K, "written: {}", first_diff(&d.got, &data));
        match (r, d.failed) {
            (Ok(n), None) => {
                ensure!(d.got.len() == data.len(), K, "{} of {} bytes written without an error", d.got.len(), data.len());
                ensure!(n == data.len() as u64, K, "returned {} for {} bytes", n, data.len());
            }
            (Ok(_), Some(k)) => bail!(K, "failed with {:?} after {} of {} bytes, which was not reported", k, d.got.len(), data.len()),
            (Err(e), None) => bail!(K, "reported {} though nothing failed", e),
            (Err(BodyError::Io(e)), Some(k)) => ensure!(e.kind() == k, K, "reported {:?}, failed with {:?}", e.kind(), k),
            (Err(_), Some(_)) => {}
        }
    }
    check_image(K, &body, &data)
}

impl Check for C30 {
    fn id(&self) -> &'static str { "C30" }
    fn level(&self) -> &'static str { "fault_enumeration" }
    fn rule(&self, t: Tier) -> String {
        format!("{} configurations: bodies of 12 lengths up to 70000 in 6 states, also of zeros, line ends or framing, written out once or twice; each of the first {} writes to the destination takes all, half, one or all but one byte, none, is interrupted, or fails with one of 5 errors; and bodies of a file, or part of one, which ends early at any point, or around the copied block; also with every read and write interrupted up to 40 times and of at most 1 or 3 bytes", CACHE.get(t, cfgs).len(), t.pick(4, 5))
    }
    fn configs(&self, t: Tier) -> usize { CACHE.get(t, cfgs).len() }
    fn describe(&self, t: Tier, c: usize) -> String { format!("{:?}", CACHE.get(t, cfgs)[c]) }
    fn run(&self, t: Tier, c: usize) -> Res { run(&CACHE.get(t, cfgs)[c]) }
}
