//! C03: the maximum body size is enforced exactly on every path.
//! C04: the RAM limit decides where a body lives.

use std::io::{self, Read, Seek, SeekFrom, Write};
use std::pin::Pin;
use std::task::Poll;

use barc::{BarcFile, CompressStrategy, NoCompressStrategy, Record};
use body_image::{BodyError, BodyImage, BodySink, Dialog, Encoding, Epilog, ExplodedImage, Prolog};
use body_image_futio::{decode_res_body, AsyncBodySink, FutioError, FutioTuner};
use bytes::Bytes;
use futures_sink::Sink;

use crate::aio::Task;
use crate::engine::*;
use crate::sys::{self, Act, Ev, Op};
use crate::util::*;
use crate::{bail, ensure, tr};

use super::c02::{Cache, Scripted};

pub struct C03;
pub struct C04;

#[derive(Clone, Debug)]
enum Path {
    Read { est: u64, bram: usize, bfs: usize },
    Sink { init: usize, fs: bool },
    Decode { enc: Encoding, bram: usize, bfs: usize, make: Make },
    Archive { alg: Alg, bram: usize, bfs: usize },
    Endless { est: u64, bram: usize, bfs: usize },
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Alg { Plain, Gzip, Brotli }

#[derive(Clone, Debug)]
struct Cfg { path: Path, n: usize, ram: u64, max: u64 }

const MENU: &[usize] = &[0, 1, 3];

fn cfgs3(t: Tier) -> Vec<Cfg> { cfgs(t, false) }
fn cfgs4(t: Tier) -> Vec<Cfg> { cfgs(t, true) }

// Limits of interest: for C03 the maximum body, for C04 the RAM limit
fn cfgs(t: Tier, ram_focus: bool) -> Vec<Cfg> {
    let mut v = vec![];
    let bufs_small = [(1, 1), (3, 2), (2, 5), (64, 64)];
    let bufs_large = [(1024, 1024), (2048, 300), (1500, 4096), (8192, 65536)];
    let lims: Vec<(u64, u64)> = if ram_focus {
        let mut l = vec![];
        for ram in t.pick(vec![0u64, 1, 5], vec![0, 1, 2, 5, 6]) { l.push((ram, ram + 20)); }
        l
    } else {
        let mut l = vec![];
        for max in t.pick(vec![0u64, 1, 5], vec![0, 1, 2, 5, 6]) {
            for ram in [0, max / 2, max] { if !l.contains(&(ram, max)) { l.push((ram, max)); } }
        }
        l
    };
    let around = |lim: u64| -> Vec<usize> {
        let mut w: Vec<usize> = vec![];
        for d in [-1i64, 0, 1, 2, 7] {
            let x = lim as i64 + d;
            if x >= 0 && !w.contains(&(x as usize)) { w.push(x as usize); }
        }
        w
    };
    for &(ram, max) in &lims {
        let lim = if ram_focus { ram } else { max };
        for n in around(lim) {
            for (bram, bfs) in bufs_small {
                let mut ests = vec![0, ram, ram + 1, max + 1, 1 << 50];
                ests.dedup();
                for est in ests {
                    v.push(Cfg { path: Path::Read { est, bram, bfs }, n, ram, max });
                }
            }
            for init in [0usize, 1, 3] {
                for fs in [false, true] {
                    // the body given to a sink is itself within the limits
                    if init <= n && (init as u64) <= if fs { max } else { ram } {
                        v.push(Cfg { path: Path::Sink { init, fs }, n, ram, max });
                    }
                }
            }
        }
    }
    // larger scale
    let lims: Vec<(u64, u64)> = if ram_focus {
        vec![(1024, 40_000), (2047, 40_000), (5000, 40_000), (4096, 40_000), (192 << 10, 1 << 30)]
    } else {
        vec![(0, 3000), (1024, 3000), (2047, 2048), (3000, 3000), (100, 9000), (5000, 9000), (192 << 10, 256 << 10)]
    };
    for &(ram, max) in &lims {
        let lim = if ram_focus { ram } else { max };
        for n in [lim - 1, lim, lim + 1, lim + 1023, lim + 1024, lim * 2 + 1] {
            let n = n as usize;
            for (bram, bfs) in bufs_large {
                for est in [0, ram + 1] {
                    v.push(Cfg { path: Path::Read { est, bram, bfs }, n, ram, max });
                }
                for enc in [Encoding::Gzip, Encoding::Deflate, Encoding::Brotli] {
                    for make in t.pick(vec![Make::Ram1], vec![Make::Ram1, Make::File, Make::SliceMapped]) {
                        v.push(Cfg { path: Path::Decode { enc, bram, bfs, make }, n, ram, max });
                    }
                }
                for alg in [Alg::Gzip, Alg::Brotli, Alg::Plain] {
                    if alg == Alg::Plain && !ram_focus { continue; }
                    v.push(Cfg { path: Path::Archive { alg, bram, bfs }, n, ram, max });
                }
            }
        }
        for init in [0, 100] {
            for n in [lim - 1, lim, lim + 1, lim + 4096] { v.push(Cfg { path: Path::Sink { init, fs: false }, n: n as usize, ram: ram.max(100), max: max.max(ram) }); }
        }
        if !ram_focus {
            for (bram, bfs) in [(64, 64), (1024, 4096), (8192, 65536)] {
                for est in [0, 1 << 30] {
                    v.push(Cfg { path: Path::Endless { est, bram, bfs }, n: 0, ram, max });
                }
            }
        }
    }
    v
}

static CACHE3: Cache<Cfg> = Cache::new();
static CACHE4: Cache<Cfg> = Cache::new();

/// Compressible but not trivial content
pub fn content(n: usize) -> Vec<u8> { pattern(5, n) }

pub fn compress(enc: Encoding, data: &[u8]) -> Vec<u8> {
    match enc {
        Encoding::Gzip => {
            let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(6));
            e.write_all(data).expect("gz");
            e.finish().expect("gz")
        }
        Encoding::Deflate => {
            let mut e = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::new(6));
            e.write_all(data).expect("deflate");
            e.finish().expect("deflate")
        }
        Encoding::Brotli => {
            let mut out = vec![];
            {
                let mut e = brotli::CompressorWriter::new(&mut out, 4096, 5, 20);
                e.write_all(data).expect("br");
                e.flush().expect("br");
            }
            out
        }
        _ => data.to_vec(),
    }
}

pub fn strategy(alg: Alg, min: u64) -> Box<dyn CompressStrategy> {
    match alg {
        Alg::Plain => Box::new(NoCompressStrategy::default()),
        Alg::Gzip => Box::new(barc::GzipCompressStrategy::default().set_min_len(min).set_check_identity(false)),
        Alg::Brotli => Box::new(barc::BrotliCompressStrategy::default().set_min_len(min).set_check_identity(false)),
    }
}

pub fn text_headers() -> http::HeaderMap {
    let mut h = http::HeaderMap::new();
    h.insert(http::header::CONTENT_TYPE, "text/plain".parse().expect("hv"));
    h
}

// Endless source: gives up (as a violation) after far more than any limit
struct Endless { given: u64, limit: u64 }
impl Read for Endless {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.given > self.limit {
            return Err(io::Error::new(io::ErrorKind::Other, "endless source was not refused"));
        }
        let n = b.len().min(4096);
        for x in &mut b[..n] { *x = b'e'; }
        self.given += n as u64;
        Ok(n)
    }
}

// Counts files opened by the code under test
struct Opens(usize);
impl sys::Handler for Opens {
    fn before(&mut self, ev: &Ev<'_>) -> Act {
        if ev.op == Op::Open { self.0 += 1; }
        Act::Pass
    }
}

// Outcome of taking in a body: the body, or error
enum Got { Body(BodyImage), TooLong, Other(String) }

fn from_body_err(e: BodyError) -> Got {
    match e { BodyError::BodyTooLong(_) => Got::TooLong, e => Got::Other(e.to_string()) }
}
fn from_futio_err(e: FutioError) -> Got {
    match e { FutioError::Body(b) => from_body_err(b), e => Got::Other(e.to_string()) }
}

// Take in n bytes by the configured path. Also returns the number of files
// opened while doing so.
fn ingest(cfg: &Cfg, data: &[u8], free: usize) -> Res<(Got, usize)> {
    let tmp = dir("t");
    let mut opens = Opens(0);
    let got = match cfg.path {
        Path::Read { est, bram, bfs } => {
            let tn = tune(cfg.ram, cfg.max, bram, bfs, &tmp);
            let mut s = Scripted { data, pos: 0, menu: MENU, free, faults: false,
                                   intr_left: 0, failed: None, reads: 0, storm: 0, streak: 0 };
            match sys::with_handler(&mut opens, || BodyImage::read_from(&mut s, est, &tn)) {
                Ok(b) => Got::Body(b),
                Err(e) => from_body_err(e),
            }
        }
        Path::Endless { est, bram, bfs } => {
            let tn = tune(cfg.ram, cfg.max, bram, bfs, &tmp);
            let mut s = Endless { given: 0, limit: 16 << 20 };
            match BodyImage::read_from(&mut s, est, &tn) {
                Ok(b) => Got::Body(b),
                Err(e) => from_body_err(e),
            }
        }
        Path::Sink { init, fs } => {
            let tn = FutioTuner::new().set_image(tune(cfg.ram, cfg.max, 64, 64, &tmp)).finish();
            let mk = || -> Result<BodySink, String> {
                let mut b = BodySink::empty();
                b.write_all(&data[..init]).map_err(|e| e.to_string())?;
                if fs { b.write_back(&tmp).map_err(|e| e.to_string())?; }
                Ok(b)
            };
            let body = match mk() { Ok(b) => b, Err(e) => bail!("ingest", "initial body: {}", e) };
            let mut sink: AsyncBodySink<Bytes> = AsyncBodySink::new(body, tn);
            let task = Task::new();
            let mut cx = task.cx();
            let mut pos = init;
            let r = sys::with_handler(&mut opens, || -> Result<(), FutioError> {
                loop {
                    let left = data.len() - pos;
                    let end = left == 0;
                    let p = if end { Pin::new(&mut sink).poll_close(&mut cx) } else { Pin::new(&mut sink).poll_ready(&mut cx) };
                    match p {
                        Poll::Ready(r) => r?,
                        Poll::Pending => panic_pending(),
                    }
                    if end { return Ok(()); }
                    let sizes: &[usize] = if data.len() > 1000 { &[65_536, 8192, 100_000, 0] } else { &[1, 2, 5, 0] };
                    let k = sys::off(|| one(sizes)).min(left);
                    // an empty buffer only once in a row
                    let k = if k == 0 { 
                        Pin::new(&mut sink).start_send(Bytes::new())?;
                        match Pin::new(&mut sink).poll_flush(&mut cx) { Poll::Ready(r) => r?, _ => panic_pending() }
                        left
                    } else { k };
                    Pin::new(&mut sink).start_send(Bytes::copy_from_slice(&data[pos..pos + k]))?;
                    pos += k;
                }
            });
            let body = sink.into_inner();
            match r {
                Ok(()) => match body.prepare() {
                    Ok(b) => Got::Body(b),
                    Err(e) => Got::Other(e.to_string()),
                },
                Err(e) => {
                    ensure!(body.len() <= cfg.max, "max-body", "body of a refused sink has {} bytes, maximum {}", body.len(), cfg.max);
                    from_futio_err(e)
                }
            }
        }
        Path::Decode { enc, bram, bfs, make } => {
            let tn = tune(cfg.ram, cfg.max, bram, bfs, &tmp);
            let z = compress(enc, data);
            let b = match make_body(make, &z) { Ok(b) => b, Err(e) => bail!("ingest", "{}", e) };
            let mut h = http::HeaderMap::new();
            h.insert(http::header::CONTENT_ENCODING, enc.to_string().parse().expect("hv"));
            let mut d = Dialog::new(
                Prolog { method: http::Method::GET, url: "http://a/".parse().expect("u"),
                         req_headers: http::HeaderMap::new(), req_body: BodyImage::empty() },
                Epilog { version: http::Version::HTTP_11, status: http::StatusCode::OK, res_headers: h,
                         res_body: b, res_decoded: vec![] });
            match decode_res_body(&mut d, &tn) {
                Ok(_) => Got::Body(d.explode().1.res_body),
                Err(e) => from_futio_err(e),
            }
        }
        Path::Archive { alg, bram, bfs } => {
            let tn = tune(cfg.ram, cfg.max, bram, bfs, &tmp);
            let p = scratch().join("a.barc");
            std::fs::remove_file(&p).ok();
            let as_req = flip();
            let rec = if as_req {
                Record { req_headers: text_headers(), req_body: BodyImage::from_slice(data.to_vec()), ..Record::default() }
            } else {
                Record { res_headers: text_headers(), res_body: BodyImage::from_slice(data.to_vec()), ..Record::default() }
            };
            let f = BarcFile::new(&p);
            let r = (|| -> Result<Option<Record>, barc::BarcError> {
                f.writer()?.write(&rec, &*strategy(alg, 0))?;
                f.reader()?.read(&tn)
            })();
            match r {
                Ok(Some(r)) => {
                    if as_req {
                        // no maximum applies for the request body of a record
                        if data.len() as u64 > cfg.max { return Ok((Got::TooLong, 0)); }
                        Got::Body(r.req_body)
                    } else { Got::Body(r.res_body) }
                }
                Ok(None) => Got::Other("record not found".into()),
                Err(barc::BarcError::Body(e)) => from_body_err(e),
                Err(e) => Got::Other(e.to_string()),
            }
        }
    };
    Ok((got, opens.0))
}

fn panic_pending() { crate::engine::fatal_viol("pending", "direct sink returned Pending") }

/// Gives zeros, but a pattern in windows of the body
struct Vast { at: u64, len: u64 }

impl Read for Vast {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = (self.len - self.at).min(b.len() as u64);
        let b = &mut b[..n as usize];
        b.fill(0);
        for (p, l) in super::c01::windows(self.len) {
            for i in p..p + l as u64 { if i >= self.at && i < self.at + n { b[(i - self.at) as usize] = super::c01::huge_byte(i); } }
        }
        self.at += n;
        Ok(n as usize)
    }
}

/// (length, maximum less that, RAM limit, estimate)
static VAST: [(u64, u64, u64, u64); 7] = [
    ((1 << 32) + 9, 0, 0, 0),
    ((1 << 32) + 9, 1, 0, 0),
    ((1 << 32) + 9, 1, 1 << 20, 0),
    (1 << 32, 0, 1 << 20, 1 << 33),
    (1 << 32, 1, 1 << 20, 1 << 20),
    ((1 << 32) + 5000, 5001, 100, (1 << 32) + 5000),
    ((1 << 31) + 5000, 0, 100, 0),
];

fn vast(k: &'static str, c: usize) -> Res {
    let (len, less, ram, est) = VAST[c];
    let t = tune(ram, len - less, 8192, 16 << 20, &dir("t"));
    let mut r = Vast { at: 0, len };
    match BodyImage::read_from(&mut r, est, &t) {
        Ok(b) => {
            ensure!(less == 0, k, "a body of {} bytes was accepted, maximum {}", len, len - less);
            ensure!(b.len() == len && !b.is_ram(), k, "length {} of {}, RAM {}", b.len(), len, b.is_ram());
            let rs = match b.explode() { ExplodedImage::FsRead(rs) => rs, _ => bail!(k, "not in a file") };
            ensure!(rs.len() == len, k, "file slice of {} bytes, not {}", rs.len(), len);
            for (p, l) in super::c01::windows(len) {
                let mut got = vec![1; l];
                let mut rs = rs.clone();
                let r = rs.seek(SeekFrom::Start(p)).and_then(|_| rs.read_exact(&mut got));
                let want: Vec<u8> = (p..p + l as u64).map(super::c01::huge_byte).collect();
                ensure!(r.is_ok() && got == want, k, "at {}: {:?} {}, not {}", p, r, hx(&got), hx(&want));
            }
        }
        Err(BodyError::BodyTooLong(_)) => ensure!(less > 0, k, "a body of {} bytes was refused as too long, maximum {}", len, len - less),
        Err(e) => bail!(k, "{}", e),
    }
    observe((less > 0, ram, est));
    Ok(())
}

/// Bodies of 4 GiB and more: (parts, kind of sink)
static GROWN: [(usize, super::c18::Kind); 4] = [(0, super::c18::Kind::Async), (2, super::c18::Kind::Async), (3, super::c18::Kind::Permit), (1, super::c18::Kind::Dispatch)];
fn n_large() -> usize { VAST.len() + GROWN.len() }
fn large_name(c: usize) -> String { if c < VAST.len() { format!("read {:?}", VAST[c]) } else { format!("grown {:?}", GROWN[c - VAST.len()]) } }
fn large(k: &'static str, c: usize) -> Res {
    if c >= VAST.len() { let (p, kind) = GROWN[c - VAST.len()]; return super::c18::grown_sink(k, super::c01::GROW[p], kind); }
    with_file_limit(8 << 30, || with_space_limit(15 << 30, || crate::sys::with_zeros(32 << 20, |_| vast(k, c))))
}

impl Check for C03 {
    fn id(&self) -> &'static str { "C03" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("{} combinations of ingestion path (read_from, asynchronous sink, decompressors, compressed archived response, endless source), length around the maximum, RAM limit, estimate and buffer sizes, also of 4 GiB and more; with every choice of the first delivery sizes / item sizes; accepted iff length <= maximum, else the too-long error", cfgs3(t).len())
    }
    fn configs(&self, t: Tier) -> usize { n_large() + CACHE3.get(t, cfgs3).len() }
    fn describe(&self, t: Tier, c: usize) -> String { if c < n_large() { large_name(c) } else { format!("{:?}", CACHE3.get(t, cfgs3)[c - n_large()]) } }
    fn run(&self, t: Tier, c: usize) -> Res {
        const K: &str = "max-body";
        if c < n_large() { return large(K, c); }
        let cfg = &CACHE3.get(t, cfgs3)[c - n_large()];
        let data = content(cfg.n);
        let (got, _) = ingest(cfg, &data, t.pick(4, 6))?;
        let fits = cfg.n as u64 <= cfg.max && !matches!(cfg.path, Path::Endless { .. });
        match got {
            Got::Body(b) => {
                ensure!(fits, K, "a body of {} bytes was accepted, maximum {}", b.len(), cfg.max);
                let v = match body_bytes(&b) { Ok(v) => v, Err(e) => bail!(K, "read: {}", e) };
                ensure!(v == data, K, "{}", first_diff(&v, &data));
                observe((1, state_of(&b)));
            }
            Got::TooLong => {
                ensure!(!fits, K, "a body of {} bytes was refused as too long, maximum {}", cfg.n, cfg.max);
                observe(2);
            }
            Got::Other(e) => bail!(K, "unexpected error: {}", e),
        }
        tr!("ok");
        Ok(())
    }
}

impl Check for C04 {
    fn id(&self) -> &'static str { "C04" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("{} combinations of ingestion path (read_from, asynchronous sink, decompressors, archived request and response bodies, plain and compressed), length around the RAM limit, estimate and buffer sizes, also of 4 GiB and more; with every choice of the first delivery sizes / item sizes; files opened while taking in are observed at the system call level", cfgs4(t).len())
    }
    fn configs(&self, t: Tier) -> usize { n_large() + CACHE4.get(t, cfgs4).len() }
    fn describe(&self, t: Tier, c: usize) -> String { if c < n_large() { large_name(c) } else { format!("{:?}", CACHE4.get(t, cfgs4)[c - n_large()]) } }
    fn run(&self, t: Tier, c: usize) -> Res {
        const K: &str = "ram-limit";
        if c < n_large() { return large(K, c); }
        let cfg = &CACHE4.get(t, cfgs4)[c - n_large()];
        let data = content(cfg.n);
        let (got, opens) = ingest(cfg, &data, t.pick(4, 6))?;
        match got {
            Got::Body(b) => {
                let v = match body_bytes(&b) { Ok(v) => v, Err(e) => bail!(K, "read: {}", e) };
                ensure!(v == data, K, "{}", first_diff(&v, &data));
                if cfg.n as u64 > cfg.ram {
                    ensure!(!b.is_ram(), K, "a body of {} bytes is in RAM, limit {}", cfg.n, cfg.ram);
                } else {
                    let within = match cfg.path {
                        Path::Read { est, .. } => est <= cfg.ram,
                        Path::Sink { fs, .. } => !fs,
                        _ => false,
                    };
                    if within {
                        ensure!(b.is_ram(), K, "a body of {} bytes is not in RAM, limit {}", cfg.n, cfg.ram);
                        ensure!(opens == 0, K, "{} files were opened for a body of {} bytes, RAM limit {}", opens, cfg.n, cfg.ram);
                    }
                }
                observe((state_of(&b), opens));
            }
            Got::TooLong => { ensure!(cfg.n as u64 > cfg.max, K, "too long"); observe(2); }
            Got::Other(e) => bail!(K, "unexpected error: {}", e),
        }
        Ok(())
    }
}
