//! C34: memory taken is bounded by the limits, not by the length of a body.

use std::fs::File;
use std::io::{self, Read, Write};
use std::sync::Arc;
use std::task::Poll;

use barc::{BarcFile, BrotliCompressStrategy, CompressStrategy, GzipCompressStrategy, NoCompressStrategy, Record, RecordType};
use body_image::{BodyImage, BodyReader, BodySink, Dialog, Encoding, Epilog, Prolog, Recorded, RequestRecorded, Tunables};
use body_image_futio::{decode_res_body, BlockingPolicy, FutioTunables, FutioTuner};
use bytes::Bytes;
use olio::fs::rc::ReadSlice;

use crate::aio::Task;
use crate::alloc::peak;
use crate::arc::fresh;
use crate::engine::*;
use crate::sched;
use crate::util::*;
use crate::{bail, ensure, tr};

use super::c02::Cache;
use super::c18::{semaphore, sink, source, with_env, Item, Kind, Watch};

pub struct C34;
const K: &str = "memory";

/// How a body comes about
#[derive(Clone, Copy, Debug, PartialEq)]
enum From { Read(u64), ReadFile, Push(usize), WriteAll(usize), Save(usize), File, Slice, Sink(Kind, usize), Decode(Encoding) }
/// What is then done with it
#[derive(Clone, Copy, Debug, PartialEq)]
enum Then { WriteTo, Reader, Stream(Kind, bool), MapWrite, MapStream(Kind), Archive(u8, bool), Clone, Gather }

#[derive(Clone, Debug)]
struct Cfg { from: From, ram: u64, bram: usize, bfs: usize }

const KINDS: [Kind; 5] = [Kind::Async, Kind::Yield, Kind::Split, Kind::Permit, Kind::Dispatch];

fn thens() -> Vec<Then> {
    let mut v = vec![Then::WriteTo, Then::Reader, Then::Clone, Then::Gather, Then::MapWrite];
    for k in KINDS { for uni in [false, true] { v.push(Then::Stream(k, uni)); } }
    // as `Bytes`, a memory map is copied
    for k in KINDS { v.push(Then::MapStream(k)); }
    for c in 0..3 { for req in [false, true] { v.push(Then::Archive(c, req)); } }
    v
}

fn cfgs(t: Tier) -> Vec<Cfg> {
    let mut v = vec![];
    let mut from = vec![From::Read(0), From::Read(4096), From::Read(60_000), From::ReadFile, From::Push(1), From::Push(7000), From::WriteAll(7000), From::Save(7000), From::File, From::Slice];
    for k in [Kind::Async, Kind::Permit, Kind::Dispatch] { for n in [700, 30_000] { from.push(From::Sink(k, n)); } }
    for e in [Encoding::Deflate, Encoding::Gzip, Encoding::Brotli] { from.push(From::Decode(e)); }
    for from in from {
        for (ram, bram, bfs) in [(65_536, 8192, 65_536), (0, 8192, 65_536), (200_000, 4096, 8192), (1000, 65_536, 4096)] {
            if t == Tier::Quick && (ram, bfs) != (65_536, 65_536) && !(ram == 0 && matches!(from, From::Read(0) | From::Decode(_) | From::Save(_))) && !(ram == 200_000 && matches!(from, From::Push(1) | From::Slice)) { continue; }
            v.push(Cfg { from, ram, bram, bfs });
        }
    }
    v
}
static CACHE: Cache<Cfg> = Cache::new();

/// Bytes at a position, well compressible
fn byte(i: u64) -> u8 { b"memory is bounded by the limits "[(i % 32) as usize] ^ ((i / 997) as u8 & 1) }

/// Source taking no memory
struct Gen { at: u64, len: u64 }
impl Read for Gen {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = (self.len - self.at).min(b.len() as u64) as usize;
        for (i, x) in b[..n].iter_mut().enumerate() { *x = byte(self.at + i as u64); }
        self.at += n as u64;
        Ok(n)
    }
}
/// Destination taking no memory
struct Check { at: u64, ok: bool }
impl Check {
    fn new() -> Check { Check { at: 0, ok: true } }
}
impl Write for Check {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.ok &= b.iter().enumerate().all(|(i, x)| *x == byte(self.at + i as u64));
        self.at += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

fn generated(len: u64, pad: u64) -> File {
    let mut f = tmpfile();
    let r = (|| -> io::Result<()> {
        f.write_all(&vec![b'-'; pad as usize])?;
        let mut g = Gen { at: 0, len };
        let mut b = [0; 8192];
        loop { let n = g.read(&mut b)?; if n == 0 { break; } f.write_all(&b[..n])?; }
        f.write_all(&vec![b'-'; pad as usize])
    })();
    if let Err(e) = r { engine_fail(&format!("making a file: {}", e)); }
    f
}

fn text<E: std::fmt::Display>(e: E) -> String { e.to_string() }

/// Makes a body in a file, with the most memory taken for it
fn make(c: &Cfg, len: u64, tn: &Tunables) -> Result<(BodyImage, usize), String> {
    use io::Seek;
    let tmp = dir("t");
    let piece = |at: u64, n: u64| -> Vec<u8> { (at..(at + n).min(len)).map(byte).collect() };
    let (r, m) = match c.from {
        From::Read(est) => peak(|| BodyImage::read_from(&mut Gen { at: 0, len }, est, tn).map_err(text)),
        From::ReadFile => {
            let mut f = generated(len, 0);
            f.rewind().map_err(text)?;
            peak(|| BodyImage::read_from(&mut f, len, tn).map_err(text))
        }
        From::Push(est) | From::WriteAll(est) | From::Save(est) => peak(|| -> Result<BodyImage, String> {
            // in RAM at first, as far as it is to be there
            let mut s = BodySink::with_ram(c.ram.min(est as u64));
            let mut at = 0;
            while at < len {
                let p = piece(at, 7000);
                if s.is_ram() && at + p.len() as u64 > c.ram { s.write_back(&tmp).map_err(text)?; }
                at += p.len() as u64;
                match c.from {
                    From::Push(_) => s.push(p).map_err(text)?,
                    From::WriteAll(_) => s.write_all(p).map_err(text)?,
                    _ => s.save(p).map_err(text)?,
                }
            }
            s.prepare().map_err(text)
        }),
        From::File => { let f = generated(len, 0); peak(|| Ok(unsafe { BodyImage::from_file(f, len) })) }
        From::Slice => { let f = generated(len, 9); peak(|| Ok(unsafe { BodyImage::from_read_slice(ReadSlice::new(Arc::new(f), 9, 9 + len)) })) }
        From::Sink(kind, n) => {
            let t = ftuned(tn, kind);
            let mut w = Watch::new(Kind::Async);
            with_env(kind, 0, false, &mut w, || peak(|| -> Result<BodyImage, String> {
                let mut s = sink(kind, false, BodySink::with_ram(0), t);
                let task = Task::new();
                let wait = || if kind == Kind::Dispatch { sched::yield_now() };
                let mut at = 0;
                loop {
                    loop { match s.ready(&mut task.cx()) { Poll::Ready(r) => { r?; break; } Poll::Pending => wait() } }
                    if at >= len { break; }
                    let p = piece(at, n as u64);
                    at += p.len() as u64;
                    s.send(Item::B(Bytes::from(p)))?;
                }
                loop { match s.close(&mut task.cx()) { Poll::Ready(r) => { r?; break; } Poll::Pending => wait() } }
                s.inner().prepare().map_err(text)
            }))
        }
        From::Decode(enc) => {
            let f = tmpfile();
            let mut g = Gen { at: 0, len };
            let r = match enc {
                Encoding::Gzip => { let mut e = flate2::write::GzEncoder::new(&f, flate2::Compression::new(1)); io::copy(&mut g, &mut e).and_then(|_| e.finish().map(|_| ())) }
                Encoding::Deflate => { let mut e = flate2::write::DeflateEncoder::new(&f, flate2::Compression::new(1)); io::copy(&mut g, &mut e).and_then(|_| e.finish().map(|_| ())) }
                _ => { let mut e = brotli::CompressorWriter::new(&f, 8192, 1, 18); io::copy(&mut g, &mut e).and_then(|_| e.flush()) }
            };
            if let Err(e) = r { engine_fail(&format!("compressing: {}", e)); }
            let flen = f.metadata().map_err(text)?.len();
            let body = unsafe { BodyImage::from_file(f, flen) };
            let mut h = http::HeaderMap::new();
            h.insert(http::header::CONTENT_ENCODING, http::HeaderValue::from_static(match enc { Encoding::Gzip => "gzip", Encoding::Deflate => "deflate", _ => "br" }));
            let mut d = Dialog::new(
                Prolog { method: http::Method::GET, url: http::Uri::from_static("http://h/"), req_headers: Default::default(), req_body: BodyImage::empty() },
                Epilog { version: http::Version::HTTP_11, status: http::StatusCode::OK, res_headers: h, res_body: body, res_decoded: vec![] });
            let (r, m) = peak(|| decode_res_body(&mut d, tn).map_err(text));
            if !r? { return Err("not decoded".into()); }
            (Ok(d.res_body().clone()), m)
        }
    };
    Ok((r?, m))
}

fn ftuned(tn: &Tunables, kind: Kind) -> FutioTunables {
    let mut t = FutioTuner::new();
    t.set_image(tn.clone()).set_stream_item_size(8192);
    match kind {
        Kind::Permit => { t.set_blocking_policy(BlockingPolicy::Permit(semaphore(1))); }
        Kind::Dispatch => { t.set_blocking_policy(BlockingPolicy::Dispatch); }
        _ => {}
    }
    t.finish()
}

/// Does something with a body, with the most memory taken for it
fn act(then: Then, mut body: BodyImage, len: u64, tn: &Tunables) -> Result<usize, String> {
    let mut out = Check::new();
    let stream = |kind: Kind, uni: bool, body: BodyImage, out: &mut Check| -> (Result<(), String>, usize) {
        let t = ftuned(tn, kind);
        let mut w = Watch::new(Kind::Async);
        with_env(kind, 0, false, &mut w, || peak(|| -> Result<(), String> {
            let mut s = source(kind, uni, false, body, t);
            let task = Task::new();
            loop {
                match s.poll(&mut task.cx()) {
                    Poll::Ready(Some(Ok(it))) => it.give(&mut |b| { let _ = out.write(b); }),
                    Poll::Ready(Some(Err(e))) => return Err(e),
                    Poll::Ready(None) => return Ok(()),
                    Poll::Pending => if kind == Kind::Dispatch { sched::yield_now() },
                }
            }
        }))
    };
    let m = match then {
        Then::WriteTo => { let (r, m) = peak(|| body.write_to(&mut out)); r.map_err(text)?; m }
        Then::Clone => { let (r, m) = peak(|| { let c = body.clone(); drop(body); c.write_to(&mut out) }); r.map_err(text)?; m }
        Then::Gather => { let (r, m) = peak(|| { body.gather(); body.write_to(&mut out) }); r.map_err(text)?; m }
        Then::Reader => {
            let (r, m) = peak(|| {
                let mut b = [0; 4096];
                let mut r = body.reader();
                let r: &mut dyn Read = match r { BodyReader::Contiguous(ref mut c) => c, BodyReader::Scattered(ref mut s) => s, BodyReader::FileSlice(ref mut f) => f };
                loop { let n = r.read(&mut b)?; if n == 0 { break Ok::<_, io::Error>(()); } out.write(&b[..n])?; }
            });
            r.map_err(text)?;
            m
        }
        Then::MapWrite => { let (r, m) = peak(|| { body.mem_map()?; body.write_to(&mut out) }); r.map_err(text)?; m }
        Then::Stream(kind, uni) => { let (r, m) = stream(kind, uni, body, &mut out); r?; m }
        Then::MapStream(kind) => { body.mem_map().map_err(text)?; let (r, m) = stream(kind, true, body, &mut out); r?; m }
        Then::Archive(s, req) => {
            let p = fresh("m.barc");
            let st: Box<dyn CompressStrategy> = match s { 0 => Box::new(NoCompressStrategy::default()), 1 => Box::new(GzipCompressStrategy::default().set_compression_level(1).set_check_identity(false)), _ => Box::new(BrotliCompressStrategy::default().set_compression_level(1).set_check_identity(false)) };
            let mut h = http::HeaderMap::new();
            h.insert(http::header::CONTENT_TYPE, http::HeaderValue::from_static("text/plain"));
            let (q, r) = if req { (body, BodyImage::from_slice("response")) } else { (BodyImage::from_slice("request"), body) };
            let rec = Record { rec_type: RecordType::Dialog, meta: Default::default(), req_headers: h.clone(), req_body: q, res_headers: h, res_body: r };
            let f = BarcFile::new(&p);
            let (r, m1) = peak(|| f.writer().and_then(|mut w| w.write(&rec, &*st)));
            r.map_err(text)?;
            drop(rec);
            let (r, m2) = peak(|| f.reader().and_then(|mut r| r.read(tn)));
            let rec = r.map_err(text)?.ok_or("no record")?;
            let (b, o) = if req { (rec.req_body(), rec.res_body()) } else { (rec.res_body(), rec.req_body()) };
            if o.len() != if req { 8 } else { 7 } { return Err("wrong record".into()); }
            let (r, m3) = peak(|| b.write_to(&mut out));
            r.map_err(text)?;
            let _ = std::fs::remove_file(&p);
            tr!("    write {}, read {}, write out {}", m1, m2, m3);
            m1.max(m2).max(m3)
        }
    };
    if !out.ok || out.at != len { return Err(format!("wrong content, or {} of {} bytes", out.at, len)); }
    Ok(m)
}

/// The longer body takes no more memory than the shorter, both over the limit
const LENS: [u64; 2] = [(3 << 19) + 1, 6 << 20];
const SLACK: usize = 1 << 19;

/// Most memory to be expected, generously
fn bound(c: &Cfg, codec: u8) -> usize {
    4 * (c.ram as usize + c.bram + c.bfs) + (1 << 18) + match codec { 0 => 0, 1 => 1 << 20, _ => 8 << 20 }
}

/// Reading a record takes no memory for lengths its head merely claims
fn claims(ram: u64, comp: usize) -> Res {
    let (bram, bfs) = (8192, 65_536);
    let h5 = [0u64, 9, 0xf_ffff];
    let (meta, req_h, res_h) = (one(&h5), one(&h5), one(&h5));
    let req_b = one(&[0u64, 9, 60_000, 0xffff_ffff, 0xff_ffff_ffff]);
    let len = one(&[27u64, 1 << 20, 0xffff_ffff, 0xffff_ffff_ffff]);
    let plain = b"a: b\r\n\r\n".repeat(3);
    let mut d = format!("BARC2 {:012x} D{} {:05x} {:05x} {:010x} {:05x}\r\n\r\n", len, ["P", "Z", "B"][comp], meta, req_h, req_b, res_h).into_bytes();
    match comp {
        0 => d.extend(&plain),
        1 => { let mut e = flate2::write::GzEncoder::new(&mut d, flate2::Compression::new(1)); if e.write_all(&plain).and_then(|_| e.finish().map(|_| ())).is_err() { engine_fail("gzip") } }
        _ => { let mut e = brotli::CompressorWriter::new(&mut d, 4096, 1, 18); if e.write_all(&plain).is_err() { engine_fail("brotli") } }
    }
    let p = scratch_file("claim.barc", &d);
    let tn = tune(ram, 1 << 40, bram, bfs, &dir("t"));
    let (r, m) = peak(|| BarcFile::new(&p).reader().and_then(|mut r| r.read(&tn)));
    if let Some(m) = panicked() { bail!("panic", "panic: {}", m) }
    tr!("{:x} {:x} {:x} {:x} {:x} -> {} and {} bytes", len, meta, req_h, req_b, res_h, r.is_ok(), m);
    observe((r.is_ok(), m >> 14));
    let most = bound(&Cfg { from: From::File, ram, bram, bfs }, comp as u8) + 3 * (1 << 20);
    ensure!(m <= most, K, "{} bytes of memory to read a record claiming lengths of {:x}, {:x}, {:x}, {:x}, {:x} in a file of {}", m, len, meta, req_h, req_b, res_h, d.len());
    Ok(())
}
const CLAIMS: [(u64, usize); 6] = [(65_536, 0), (65_536, 1), (65_536, 2), (0, 0), (0, 1), (0, 2)];

impl super::super::engine::Check for C34 {
    fn id(&self) -> &'static str { "C34" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("{} configurations of the way a body of 1.5 MiB and one of 6 MiB come about (read in with 4 estimates, appended in 3 ways, taken from a file or part of one, streamed in by 3 sinks, decoded from 3 encodings) under up to 4 settings of RAM limit and buffers; each of {} uses of it (written out, read, cloned, gathered, mapped, streamed by 5 types of streams, archived with 3 strategies and read back); the most memory allocated at any time compared between the two, and with the limits; and of record heads claiming each of up to 5 lengths per part, for 3 compressions", CACHE.get(t, cfgs).len(), thens().len())
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["memory is what is allocated from the global allocator, memory maps of files not included"] }
    fn configs(&self, t: Tier) -> usize { CACHE.get(t, cfgs).len() + CLAIMS.len() }
    fn describe(&self, t: Tier, c: usize) -> String {
        if c < CLAIMS.len() { return format!("claimed lengths {:?}", CLAIMS[c]); }
        format!("{:?}", CACHE.get(t, cfgs)[c - CLAIMS.len()])
    }
    fn run(&self, t: Tier, c: usize) -> Res {
        if c < CLAIMS.len() { return claims(CLAIMS[c].0, CLAIMS[c].1); }
        let c = &CACHE.get(t, cfgs)[c - CLAIMS.len()];
        let then = one(&thens());
        tr!("{:?}", then);
        let tn = tune(c.ram, 1 << 40, c.bram, c.bfs, &dir("t"));
        let mut took = vec![];
        for len in LENS {
            let (b, m) = match make(c, len, &tn) { Ok(x) => x, Err(e) => bail!(K, "making a body: {}", e) };
            ensure!(!b.is_ram(), K, "body of {} bytes in RAM", len);
            let n = match act(then, b, len, &tn) { Ok(x) => x, Err(e) => bail!(K, "{:?}: {}", then, e) };
            if let Some(m) = panicked() { bail!("panic", "panic: {}", m) }
            tr!("  {} bytes: {} to make, {} to use", len, m, n);
            took.push((m, n));
        }
        let (mc, uc) = (match c.from { From::Decode(Encoding::Brotli) => 2, From::Decode(_) => 1, _ => 0 }, match then { Then::Archive(c, _) => c, _ => 0 });
        for (m, n) in &took {
            ensure!(*m <= bound(c, mc), K, "making a body takes {} bytes of memory with a RAM limit of {}", m, c.ram);
            ensure!(*n <= bound(c, uc), K, "{:?} takes {} bytes of memory with a RAM limit of {}", then, n, c.ram);
        }
        observe((took[0].0 >> 12, took[0].1 >> 12));
        ensure!(took[1].0 <= took[0].0 + SLACK, K, "making a body takes {} bytes of memory for {} and {} for {}", took[0].0, LENS[0], took[1].0, LENS[1]);
        ensure!(took[1].1 <= took[0].1 + SLACK, K, "{:?} takes {} bytes of memory for {} and {} for {}", then, took[0].1, LENS[0], took[1].1, LENS[1]);
        Ok(())
    }
}
