//! C32: built without its optional features, the library does the same for
//! what is left of it, and refuses the rest without doing harm.

use std::fs::{File, OpenOptions};
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::path::Path;
use std::pin::Pin;
use std::process::{Command, Stdio};
use std::task::{Context, Poll};

use barc::{BarcError, BarcFile, BarcReader, CompressStrategy, EncodeWrapper, GzipCompressStrategy, MetaRecorded, NoCompressStrategy, Record};
use blocking_permit::Semaphore;
use body_image::{BodyError, BodyImage, BodySink, Dialog, Encoding, Epilog, ExplodedImage, Prolog, Recorded, RequestRecorded, Tunables};
use body_image_futio::{decode_res_body, find_encodings, AsyncBodyImage, AsyncBodySink, BlockingPolicy, FutioError, FutioTunables, FutioTuner,
    PermitBodyImage, PermitBodySink, SinkWrapper, SplitBodyImage, StreamWrapper, UniBodyBuf, YieldBodyImage, ACCEPT_ENCODINGS};
use bytes::{Buf, Bytes};
use futures_core::stream::Stream;
use futures_sink::Sink;
use http::header::{HeaderMap, HeaderValue, CONTENT_ENCODING, TRANSFER_ENCODING};
use olio::fs::rc::ReadSlice;

use crate::aio::Task;
use crate::arc::*;
use crate::engine::*;
use crate::format::*;
use crate::util::*;
use crate::{bail, ensure, tr};

pub struct C32;

const KB: &str = "body";
const KA: &str = "archive";
const KS: &str = "stream";
const KD: &str = "decode";
const KC: &str = "command";
const PLAIN: [Make; 4] = [Make::Ram1, Make::RamScattered, Make::File, Make::Slice];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind { Async, Yield, Split, Permit }

#[derive(Clone, Debug)]
enum F {
    /// sequences of operations on sink and image
    Ops { start: usize, first: usize, depth: usize },
    /// bodies read from a source
    Read { ram: u64, max: u64, buf: usize },
    /// bodies of a part of a file
    Slices { whole: usize },
    /// archives of records of all compressions, by the library and by others
    Mixed { shape: usize, first: usize, depth: usize },
    /// what was read, written again
    Copies { make: Make },
    Stream { kind: Kind, uni: bool, make: Make, len: usize, bfs: usize, item: usize },
    Sink { permit: bool, uni: bool, ram: u64, sends: usize },
    /// response bodies by lists of encodings
    Decode { make: Make, data: usize },
    Accept,
    /// the command line tool
    Cp { opt: usize }, Cat { opt: usize },
}

const OPS: usize = 7;
const KINDS_OF: usize = 5;

fn cfgs(t: Tier) -> Vec<F> {
    let mut v = vec![];
    for start in 0..4 { for first in 0..OPS { v.push(F::Ops { start, first, depth: t.pick(5, 6) }); } }
    for ram in [0u64, 1, 4, 10] { for max in [4u64, 10, 11, 1000] { for buf in [1usize, 3, 64] { v.push(F::Read { ram, max, buf }); } } }
    for whole in 0..t.pick(9, 17) { v.push(F::Slices { whole }); }
    for shape in 0..shapes().len() { for first in 0..KINDS_OF { v.push(F::Mixed { shape, first, depth: t.pick(4, 5) }); } }
    for make in PLAIN { v.push(F::Copies { make }); }
    for kind in [Kind::Async, Kind::Yield, Kind::Split, Kind::Permit] { for uni in [false, true] { for make in PLAIN {
        for len in [0usize, 1, 2, 3, 5, 8, 9, 100] { for bfs in [1usize, 3, 64] { for item in [1usize, 4, 64] {
            if item == 64 || kind == Kind::Split { v.push(F::Stream { kind, uni, make, len, bfs, item }); }
        } } }
    } } }
    for permit in [false, true] { for uni in [false, true] { for ram in [0u64, 3, 5, 100] { v.push(F::Sink { permit, uni, ram, sends: t.pick(4, 5) }); } } }
    for make in PLAIN { for data in 0..5 { v.push(F::Decode { make, data }); } }
    v.push(F::Accept);
    for opt in 0..3 { v.push(F::Cp { opt }); }
    for opt in 0..2 { v.push(F::Cat { opt }); }
    v
}
static CACHE: std::sync::OnceLock<Vec<F>> = std::sync::OnceLock::new();

// ---- bodies

fn ops(start: usize, first: usize, depth: usize) -> Res {
    let d = dir("t");
    let mut want: Vec<u8> = vec![];
    let made = match start {
        0 => Ok(BodySink::empty()),
        1 => Ok(BodySink::with_ram(10)),
        2 => Ok(BodySink::with_ram_buffers(2)),
        _ => BodySink::with_fs(&d),
    };
    let mut s = match made { Ok(s) => s, Err(e) => bail!(KB, "sink: {}", e) };
    let mut ram = start != 3;
    let mut seq = vec![];
    for i in 0..depth {
        let op = if i == 0 { first } else { choose(OPS) };
        seq.push(op);
        let b = pattern(want.len() + 7 * i, [0, 1, 3, 3, 5, 0, 0][op]);
        tr!("operation {} of {} bytes", op, b.len());
        let r: Result<(), String> = match op {
            0 | 1 => s.push(Bytes::copy_from_slice(&b)).map_err(|e| e.to_string()),
            2 | 3 => if op == 2 { s.save(b.clone()).map_err(|e| e.to_string()) } else { s.write_all(&b).map_err(|e| e.to_string()) },
            4 => s.write_all(&b).map_err(|e| e.to_string()),
            5 => { ram = false; s.write_back(&d).map(|_| ()).map_err(|e| e.to_string()) }
            _ => break,
        };
        if let Err(e) = r { bail!(KB, "operation {}: {}", op, e) }
        want.extend(&b);
        ensure!(s.len() == want.len() as u64 && s.is_empty() == want.is_empty() && s.is_ram() == ram, KB, "sink of {} bytes, ram {}, expected {} and {}", s.len(), s.is_ram(), want.len(), ram);
    }
    let mut b = match s.prepare() { Ok(b) => b, Err(e) => bail!(KB, "prepare: {}", e) };
    ensure!(want.is_empty() || b.is_ram() == ram, KB, "image in RAM: {}, sink was: {}", b.is_ram(), ram);
    check_image(KB, &b, &want)?;
    let other = b.clone();
    b.gather();
    check_image(KB, &b, &want)?;
    check_image(KB, &other, &want)?;
    drop(b);
    check_image(KB, &other, &want)?;
    observe((seq, want.len()));
    Ok(())
}

struct Pieces { data: Vec<u8>, pos: usize, left: usize }
impl Read for Pieces {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.data.len() - self.pos);
        let n = if self.left > 0 && n > 0 {
            self.left -= 1;
            match choose(3) { 0 => n, 1 => 1, _ => return Err(io::ErrorKind::Interrupted.into()) }
        } else { n };
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn read(t: Tier, ram: u64, max: u64, buf: usize) -> Res {
    let len = choose(13);
    let est = one(&[0u64, 3, 4, 11, 12]);
    tr!("{} bytes, estimated {}", len, est);
    let data = pattern(3, len);
    let tn = tune(ram.min(max), max, buf, buf, &dir("t"));
    let mut src = Pieces { data: data.clone(), pos: 0, left: t.pick(4, 6) };
    // an estimate over the limit may be refused outright
    match BodyImage::read_from(&mut src, est, &tn) {
        Ok(b) => {
            ensure!(len as u64 <= max, KB, "{} bytes accepted with a limit of {}", len, max);
            check_image(KB, &b, &data)?;
            if len as u64 > tn.max_body_ram() { ensure!(!b.is_ram(), KB, "{} bytes in RAM with a limit of {}", len, tn.max_body_ram()); }
            observe((len, b.is_ram()));
        }
        Err(BodyError::BodyTooLong(n)) => {
            ensure!(len as u64 > max || est > max, KB, "{} bytes, estimated {}, with a limit of {} too long ({})", len, est, max, n);
            observe((len, n));
        }
        Err(e) => bail!(KB, "read_from: {}", e),
    }
    Ok(())
}

fn slices(whole: usize) -> Res {
    let data = pattern(5, whole);
    let a = choose(whole + 1);
    let z = a + choose(whole + 1 - a);
    // wherever the file is positioned
    let mut f = file_with(&data);
    f.seek(SeekFrom::Start(choose(whole + 1) as u64)).expect("seek");
    let mut rs = ReadSlice::new(std::sync::Arc::new(f), a as u64, z as u64);
    rs.seek(SeekFrom::Start(choose(z - a + 1) as u64)).expect("seek");
    let other = rs.clone();
    let b = BodyImage::from_read_slice(rs);
    check_image(KB, &b, &data[a..z])?;
    let sub = other.subslice(0, (z - a) as u64 / 2);
    check_image(KB, &BodyImage::from_read_slice(sub), &data[a..a + (z - a) / 2])?;
    let mut f = file_with(&data);
    f.seek(SeekFrom::Start(choose(2) as u64 * whole as u64)).expect("seek");
    let b = BodyImage::from_file(f, z as u64);
    check_image(KB, &b, &data[..z])?;
    match b.explode() { ExplodedImage::FsRead(s) => ensure!(s.len() == z as u64, KB, "slice of {}", s.len()), ExplodedImage::Ram(_) => ensure!(z == 0, KB, "file body in RAM") }
    observe((a, z));
    Ok(())
}

// ---- archives

fn shapes() -> Vec<Rec> {
    vec![
        Rec::numbered(1, 0, 4),
        Rec::default(),
        Rec::numbered(4, 300, 5000),
        Rec { meta: vec![], res_h: vec![], ..Rec::numbered(5, 0, 1) },
        Rec { res_b: encode(&Rec::numbered(3, 2, 2), By::Plain), ..Rec::numbered(6, 1, 0) },
    ]
}

struct Gzip;
impl CompressStrategy for Gzip {
    fn wrap_encoder<'a>(&self, _: &dyn MetaRecorded, file: &'a File) -> Result<EncodeWrapper<'a>, BarcError> { Ok(EncodeWrapper::gzip(file, 6)) }
}

fn append(p: &Path, b: &[u8]) -> u64 {
    let mut f = OpenOptions::new().create(true).append(true).open(p).expect("archive");
    let o = f.seek(SeekFrom::End(0)).expect("seek");
    f.write_all(b).expect("append");
    o
}

type Want = Vec<(u64, u8, Rec)>;

/// Records are read, those which cannot be are refused, and stay where they are
fn find(p: &Path, want: &Want, tn: &Tunables) -> Res {
    let mut r = match BarcFile::new(p).reader() { Ok(r) => r, Err(e) => bail!(KA, "reader: {}", e) };
    let end = std::fs::metadata(p).expect("archive").len();
    let back = flip();
    let mut order: Vec<usize> = (0..want.len()).collect();
    if back { order.reverse(); }
    let mut kept: Vec<(usize, Record)> = vec![];
    for (k, &i) in order.iter().enumerate() {
        let (off, f, w) = &want[i];
        if back || k > 0 && want[order[k - 1]].1 == b'B' { if let Err(e) = r.seek(*off) { bail!(KA, "seek: {}", e) } }
        ensure!(r.offset() == *off, KA, "offset {} before record {}, expected {}", r.offset(), i, off);
        if *f == b'B' {
            for _ in 0..2 { match r.read(tn) {
                Err(BarcError::DecoderUnsupported(c)) => ensure!(format!("{:?}", c) == "Brotli", KA, "unsupported is {:?}", c),
                Err(e) => bail!(KA, "record {}: {} ({:?})", i, e, e),
                Ok(x) => bail!(KA, "record {} read as {:?}", i, x.is_some()),
            } ensure!(r.offset() == *off, KA, "offset {} after a refused record at {}", r.offset(), off); }
        } else {
            match next(KA, &mut r, tn)? { Some(rec) => { w.same(KA, &rec)?; kept.push((i, rec)) }, None => bail!(KA, "no record {} at {}", i, off) }
            let after = want.get(i + 1).map(|x| x.0).unwrap_or(end);
            ensure!(r.offset() == after, KA, "offset {} after record {}, expected {}", r.offset(), i, after);
        }
    }
    if let Err(e) = r.seek(end) { bail!(KA, "seek: {}", e) }
    ensure!(next(KA, &mut r, tn)?.is_none(), KA, "record after the last");
    drop(r);
    for (i, rec) in &kept { want[*i].2.same_quick(KA, rec)?; }
    Ok(())
}

fn mixed(t: Tier, shape: usize, first: usize, depth: usize) -> Res {
    let p = fresh("c32.barc");
    let shapes = shapes();
    let mut want: Want = vec![];
    let mut seq = vec![];
    let ram = one(&[100_000u64, 10]);
    for i in 0..depth {
        let op = if i == 0 { first } else { match choose(KINDS_OF + 1) { 0 => break, c => c - 1 } };
        let rec = shapes[(shape + i) % shapes.len()].clone();
        let (off, f) = match op {
            0 | 1 => {
                let s: &dyn CompressStrategy = if op == 0 { &NoCompressStrategy::default() } else { &Gzip };
                match write_one(&p, &rec.ram(), s) { Ok(o) => (o, if op == 0 { b'P' } else { b'Z' }), Err(e) => bail!(KA, "{}", e) }
            }
            2 => (append(&p, &encode(&rec, By::Plain)), b'P'),
            3 => (append(&p, &encode(&rec, By::Gzip(6, false, 0))), b'Z'),
            _ => (append(&p, &encode(&rec, By::Brotli(6, 22))), b'B'),
        };
        seq.push(op);
        want.push((off, f, rec));
    }
    tr!("written {:?}", seq);
    observe((&seq, ram));
    let raw = std::fs::read(&p).expect("archive");
    match decode(&raw) {
        Ok(g) => for ((o, f, r), (wo, wf, wr)) in g.iter().zip(&want) {
            ensure!(o == wo && f == wf, KA, "record at {} as {:?}, expected at {} as {:?}", o, *f as char, wo, *wf as char);
            if let Err(e) = same(r, wr) { bail!(KA, "record at {}: {}", o, e) }
        },
        Err(e) => bail!(KA, "not in the format: {}", e),
    }
    let _ = t;
    find(&p, &want, &tune(ram, 100_000, 64, 64, &dir("t")))?;
    ensure!(std::fs::read(&p).expect("archive") == raw, KA, "archive changed by reading");
    Ok(())
}

fn copies(make: Make) -> Res {
    let (p, q) = (fresh("c32.barc"), fresh("c32c.barc"));
    let rec = one(&shapes());
    let r = match rec.record(make, make) { Ok(r) => r, Err(e) => bail!(KA, "record: {}", e) };
    let gz = GzipCompressStrategy::default().set_min_len(0);
    let strat: [&dyn CompressStrategy; 3] = [&NoCompressStrategy::default(), &Gzip, &gz];
    let (a, b) = (choose(3), choose(3));
    let ram = one(&[100_000u64, 4, 0]);
    let tn = tune(ram, 100_000, 64, 64, &dir("t"));
    tr!("{} bytes, strategies {} and {}", rec.res_b.len(), a, b);
    if let Err(e) = write_one(&p, &r, strat[a]) { bail!(KA, "{}", e) }
    let mut rd = match BarcFile::new(&p).reader() { Ok(r) => r, Err(e) => bail!(KA, "reader: {}", e) };
    let got = match next(KA, &mut rd, &tn)? { Some(r) => r, None => bail!(KA, "no record") };
    rec.same(KA, &got)?;
    for o in [&q, &p] { if let Err(e) = write_one(o, &got, strat[b]) { bail!(KA, "again: {}", e) } }
    expect_all(KA, &q, &tn, &[(0, &rec)])?;
    let half = rd.offset();
    expect_all(KA, &p, &tn, &[(0, &rec), (half, &rec)])?;
    rec.same(KA, &got)?;
    observe((a, b, ram, rec.res_b.len()));
    Ok(())
}

// ---- streams and sinks

fn ftune(ram: u64, bfs: usize, item: usize, policy: BlockingPolicy) -> FutioTunables {
    let mut t = FutioTuner::new();
    t.set_image(tune(ram, 1_000_000, 64, bfs, &dir("t"))).set_stream_item_size(item).set_blocking_policy(policy);
    t.finish()
}

fn semaphore() -> &'static Semaphore { Box::leak(Box::new(Semaphore::new(1))) }

fn drain<S, B>(mut s: S, kind: Kind, sem: &'static Semaphore, total: usize) -> Result<Vec<Vec<u8>>, Viol>
    where S: Stream<Item = Result<B, io::Error>> + Unpin, B: Buf + AsRef<[u8]>
{
    let mut out: Vec<Vec<u8>> = vec![];
    let task = Task::new();
    let mut polls = 0;
    let mut held = None;
    loop {
        polls += 1;
        ensure!(polls < 60 + 6 * total, KS, "no end after {} polls", polls);
        if kind == Kind::Permit && held.is_none() && polls < 6 && flip() { held = sem.try_acquire().ok(); }
        let seen = task.wakes();
        match Pin::new(&mut s).poll_next(&mut task.cx()) {
            Poll::Ready(Some(Ok(mut b))) => {
                ensure!(b.remaining() == b.chunk().len() && b.chunk() == b.as_ref(), KS, "buffer in pieces");
                let v = b.chunk().to_vec();
                let n = v.len() / 2;
                b.advance(n);
                ensure!(b.chunk() == &v[n..], KS, "advanced by {}: {}", n, hx(b.chunk()));
                out.push(v);
            }
            Poll::Ready(Some(Err(e))) => bail!(KS, "error {}", e),
            Poll::Ready(None) => {
                ensure!(matches!(Pin::new(&mut s).poll_next(&mut task.cx()), Poll::Ready(None)), KS, "not ended when polled again");
                return Ok(out);
            }
            Poll::Pending => match kind {
                Kind::Async => bail!(KS, "direct stream is pending"),
                Kind::Permit => {
                    ensure!(held.take().is_some(), KS, "pending with the permit available");
                    ensure!(task.wakes() > seen, KS, "not woken when the permit is released");
                }
                _ => ensure!(task.wakes() > seen, KS, "pending without a wake-up"),
            }
        }
    }
}

fn stream(kind: Kind, uni: bool, make: Make, len: usize, bfs: usize, item: usize) -> Res {
    let data = pattern(11, len);
    let body = match make_body(make, &data) { Ok(b) => b, Err(e) => bail!(KS, "body: {}", e) };
    let other = body.clone();
    let sem = semaphore();
    let t = ftune(1000, bfs, item, if kind == Kind::Permit { BlockingPolicy::Permit(sem) } else { BlockingPolicy::Direct });
    macro_rules! go { ($b:ty) => { match kind {
        Kind::Async => drain(AsyncBodyImage::<$b>::new(body, t), kind, sem, len)?,
        Kind::Yield => drain(<YieldBodyImage<$b> as StreamWrapper>::new(body, t), kind, sem, len)?,
        Kind::Split => drain(<SplitBodyImage<$b> as StreamWrapper>::new(body, t), kind, sem, len)?,
        Kind::Permit => drain(PermitBodyImage::<$b>::new(body, t), kind, sem, len)?,
    } } }
    let items = if uni { go!(UniBodyBuf) } else { go!(Bytes) };
    let got = items.concat();
    ensure!(got == data, KS, "delivered {}", first_diff(&got, &data));
    if !other.is_ram() { for i in &items { ensure!(i.len() <= bfs, KS, "item of {} bytes from a file, buffer size is {}", i.len(), bfs); } }
    if kind == Kind::Split { for i in &items { ensure!(i.len() <= item, KS, "item of {} bytes, item size is {}", i.len(), item); } }
    check_image(KS, &other, &data)?;
    observe(items.iter().map(|i| i.len()).collect::<Vec<_>>());
    Ok(())
}

fn fill<S, B>(mut s: S, sem: &'static Semaphore, permit: bool, ram: u64, sends: usize, make: fn(Vec<u8>) -> B) -> Result<(BodySink, Vec<u8>), Viol>
    where S: SinkWrapper<B> + Unpin, S::Error: std::fmt::Display
{
    let task = Task::new();
    let mut want = vec![];
    let mut seq = vec![];
    let mut held = None;
    // to the end, whatever it takes
    macro_rules! done { ($what:expr, $poll:expr) => { loop {
        let seen = task.wakes();
        match $poll {
            Poll::Ready(Ok(())) => break,
            Poll::Ready(Err(e)) => bail!(KS, "{}: {}", $what, e),
            Poll::Pending => {
                ensure!(permit && held.take().is_some(), KS, "{}: pending", $what);
                ensure!(task.wakes() > seen, KS, "{}: not woken", $what);
            }
        }
    } } }
    for i in 0..sends {
        let n = match choose(4) { 0 => break, 1 => 2, 2 => 0, _ => 3 };
        let b = pattern(20 * i + want.len(), n);
        seq.push(n);
        tr!("send {}", n);
        if permit && held.is_none() && flip() { held = sem.try_acquire().ok(); }
        done!("ready", Pin::new(&mut s).poll_ready(&mut task.cx()));
        if let Err(e) = Pin::new(&mut s).start_send(make(b.clone())) { bail!(KS, "send: {}", e) }
        want.extend(b);
        if flip() { done!("flush", Pin::new(&mut s).poll_flush(&mut task.cx())); }
    }
    done!("close", Pin::new(&mut s).poll_close(&mut task.cx()));
    observe(seq);
    let _ = ram;
    Ok((s.into_inner(), want))
}

fn sink(permit: bool, uni: bool, ram: u64, sends: usize) -> Res {
    let sem = semaphore();
    let t = ftune(ram, 64, 64, if permit { BlockingPolicy::Permit(sem) } else { BlockingPolicy::Direct });
    let b: fn(Vec<u8>) -> Bytes = |v| v.into();
    let u: fn(Vec<u8>) -> UniBodyBuf = |v| Bytes::from(v).into();
    let e = BodySink::empty();
    let (s, want) = match (permit, uni) {
        (false, false) => fill(<AsyncBodySink<Bytes> as SinkWrapper<Bytes>>::new(e, t), sem, permit, ram, sends, b)?,
        (false, true) => fill(<AsyncBodySink<UniBodyBuf> as SinkWrapper<UniBodyBuf>>::new(e, t), sem, permit, ram, sends, u)?,
        (true, false) => fill(<PermitBodySink<Bytes> as SinkWrapper<Bytes>>::new(e, t), sem, permit, ram, sends, b)?,
        (true, true) => fill(<PermitBodySink<UniBodyBuf> as SinkWrapper<UniBodyBuf>>::new(e, t), sem, permit, ram, sends, u)?,
    };
    ensure!(s.is_ram() == (want.len() as u64 <= ram), KS, "{} bytes in RAM: {}, limit {}", want.len(), s.is_ram(), ram);
    match s.prepare() { Ok(i) => check_image(KS, &i, &want), Err(e) => bail!(KS, "prepare: {}", e) }
}

// ---- decoding

const NAMES: [(&str, Option<Encoding>); 9] = [
    ("gzip", Some(Encoding::Gzip)), ("br", Some(Encoding::Brotli)), ("deflate", Some(Encoding::Deflate)),
    ("chunked", Some(Encoding::Chunked)), ("identity", None), ("BR", Some(Encoding::Brotli)), ("x-gzip", Some(Encoding::Gzip)),
    ("compress", Some(Encoding::Compress)), ("zstd", None)];

fn datum(i: usize) -> Vec<u8> {
    match i { 0 => vec![], 1 => b"a".to_vec(), 2 => vec![b'z'; 300], 3 => pattern(9, 100), _ => pattern(1, 9000) }
}

fn compressed(e: Option<Encoding>, d: &[u8]) -> Vec<u8> {
    match e {
        Some(Encoding::Gzip) => { let mut w = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(6)); w.write_all(d).expect("gzip"); w.finish().expect("gzip") }
        Some(Encoding::Deflate) => { let mut w = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::new(6)); w.write_all(d).expect("deflate"); w.finish().expect("deflate") }
        Some(Encoding::Brotli) => { let mut o = vec![]; { let mut w = brotli::CompressorWriter::new(&mut o, 4096, 6, 22); w.write_all(d).expect("brotli"); } o }
        _ => d.to_vec(),
    }
}

fn dialog(h: HeaderMap, b: BodyImage) -> Dialog {
    Dialog::new(
        Prolog { method: http::Method::GET, url: "http://h/".parse().expect("url"), req_headers: Default::default(), req_body: Default::default() },
        Epilog { version: http::Version::HTTP_11, status: http::StatusCode::OK, res_headers: h, res_body: b, res_decoded: vec![] })
}

fn decoding(make: Make, data: usize) -> Res {
    let data = datum(data);
    let mut h = HeaderMap::new();
    let mut lists = [vec![], vec![]];
    for (k, name) in [TRANSFER_ENCODING, CONTENT_ENCODING].iter().enumerate() {
        for _ in 0..2 { match choose(NAMES.len() + 1) { 0 => break, c => lists[k].push(c - 1) } }
        for &i in &lists[k] { h.append(name.clone(), HeaderValue::from_static(NAMES[i].0)); }
    }
    let of = |l: &[usize]| l.iter().rev().filter_map(|&i| NAMES[i].1).find(|e| *e != Encoding::Chunked);
    let comp = of(&lists[0]).or_else(|| of(&lists[1]));
    let mut enc = vec![];
    if lists[0].iter().any(|&i| NAMES[i].1 == Some(Encoding::Chunked)) { enc.push(Encoding::Chunked); }
    enc.extend(comp);
    ensure!(find_encodings(&h) == enc, KD, "{:?}: found {:?}, expected {:?}", h, find_encodings(&h), enc);
    let raw = compressed(comp, &data);
    let body = match make_body(make, &raw) { Ok(b) => b, Err(e) => bail!(KD, "body: {}", e) };
    let mut d = dialog(h.clone(), body);
    let tn = tune(1000, 100_000, 64, 64, &dir("t"));
    tr!("{:?}, to be decoded from {:?}", h, comp);
    let able = !matches!(comp, Some(Encoding::Brotli) | Some(Encoding::Compress));
    match decode_res_body(&mut d, &tn) {
        Ok(changed) => {
            ensure!(able, KD, "{:?} taken for decoded", comp);
            ensure!(changed == comp.is_some(), KD, "changed: {} for {:?}", changed, comp);
            check_image(KD, d.res_body(), &data)?;
            enc.push(Encoding::Identity);
            ensure!(d.res_decoded() == &enc, KD, "decoded {:?}, expected {:?}", d.res_decoded(), enc);
        }
        Err(FutioError::UnsupportedEncoding(e)) => {
            ensure!(!able && Some(e) == comp, KD, "{:?} unsupported, in place of {:?}", e, comp);
            check_image(KD, d.res_body(), &raw)?;
            ensure!(d.res_decoded().is_empty(), KD, "decoded {:?} after a refusal", d.res_decoded());
        }
        Err(e) => bail!(KD, "{:?}: {}", comp, e),
    }
    ensure!(d.res_headers() == &h, KD, "headers {:?}, were {:?}", d.res_headers(), h);
    observe((format!("{:?}", comp), lists));
    Ok(())
}

/// What is asked for can be decoded
fn accept() -> Res {
    let names: Vec<&str> = ACCEPT_ENCODINGS.split(',').map(|s| s.split(';').next().unwrap_or("").trim()).collect();
    tr!("{:?}", names);
    for n in ["gzip", "deflate"] { ensure!(names.contains(&n), KD, "{} is not asked for: {:?}", n, ACCEPT_ENCODINGS); }
    let name = one(&names);
    let mut h = HeaderMap::new();
    h.insert(CONTENT_ENCODING, HeaderValue::from_str(name).expect("name"));
    let comp = NAMES.iter().find(|x| x.0 == name).and_then(|x| x.1);
    let data = pattern(4, 500);
    let mut d = dialog(h, BodyImage::from_slice(compressed(comp, &data)));
    if let Err(e) = decode_res_body(&mut d, &Tunables::new()) { bail!(KD, "asks for {:?} but: {}", name, e) }
    observe(name);
    check_image(KD, d.res_body(), &data)
}

// ---- command line

fn barc(d: &Path, args: &[&str]) -> (bool, Vec<u8>, String) {
    let exe = format!("{}/target/debug/barc-lean", std::env::var("VERIF_ROOT").unwrap_or_default());
    tr!("barc {}", args.join(" "));
    match Command::new(&exe).args(args).current_dir(d).stdin(Stdio::null()).env_remove("RUST_LOG").output() {
        Ok(o) => (o.status.success(), o.stdout, String::from_utf8_lossy(&o.stderr).into_owned()),
        Err(e) => engine_fail(&format!("{}: {}", exe, e)),
    }
}

/// An archive of up to 3 records, by choice
fn archive(p: &Path) -> Want {
    let mut want: Want = vec![];
    for i in 0..3 {
        let c = if i == 0 { 1 + choose(3) } else { choose(4) };
        if c == 0 { break; }
        let by = [By::Plain, By::Gzip(6, false, 0), By::Brotli(6, 22)][c - 1];
        let rec = Rec::numbered(i, i, 5000 * (i + 1) / 2);
        want.push((append(p, &encode(&rec, by)), [b'P', b'Z', b'B'][c - 1], rec));
    }
    want
}

fn cp(opt: usize) -> Res {
    let d = dir("cli");
    let (p, o) = (d.join("in.barc"), d.join("out.barc"));
    std::fs::remove_file(&p).ok();
    std::fs::remove_file(&o).ok();
    let want = archive(&p);
    let raw = std::fs::read(&p).expect("archive");
    let before = Rec::numbered(8, 2, 2);
    let old = if flip() { append(&o, &encode(&before, By::Plain)); vec![before] } else { vec![] };
    let kept = std::fs::read(&o).unwrap_or_default();
    let args: Vec<&str> = [&["cp"][..], [&[][..], &["-z"], &["-b"]][opt], &["in.barc", "out.barc"]].concat();
    let (ok, _, err) = barc(&d, &args);
    ensure!(std::fs::read(&p).expect("archive") == raw, KC, "input changed");
    let n = want.iter().position(|w| w.1 == b'B').unwrap_or(want.len());
    let flags: String = want.iter().map(|w| w.1 as char).collect();
    observe((&flags, old.len()));
    if opt == 2 {
        ensure!(!ok, KC, "-b succeeds without support for Brotli");
        ensure!(!err.is_empty(), KC, "-b refused without a message");
        ensure!(std::fs::read(&o).unwrap_or_default() == kept, KC, "output changed by a refused -b");
        return Ok(());
    }
    ensure!(ok == (n == want.len()), KC, "{} of {}: success {}: {}", args.join(" "), flags, ok, err);
    ensure!(ok || !err.is_empty(), KC, "failed without a message");
    let got = match decode(&std::fs::read(&o).unwrap_or_default()) { Ok(g) => g, Err(e) => bail!(KC, "output not in the format: {}", e) };
    let all: Vec<&Rec> = old.iter().chain(want[..n].iter().map(|w| &w.2)).collect();
    ensure!(got.len() == all.len(), KC, "{} records in the output, expected {}", got.len(), all.len());
    for (g, w) in got.iter().zip(&all) { if let Err(e) = same(&g.2, w) { bail!(KC, "record at {}: {}", g.0, e) } }
    Ok(())
}

fn cat(opt: usize) -> Res {
    let d = dir("cli");
    let p = d.join("in.barc");
    std::fs::remove_file(&p).ok();
    let want = archive(&p);
    let n = want.iter().position(|w| w.1 == b'B').unwrap_or(want.len());
    let args = [&["cat"][..], [&["--res-body"][..], &["--req-body", "--res-body"]][opt], &["in.barc"]].concat();
    let (ok, out, err) = barc(&d, &args);
    ensure!(ok == (n == want.len()), KC, "{}: success {}: {}", args.join(" "), ok, err);
    // every body readable before the first which is not, in order
    let mut at = 0;
    for w in &want[..n] { for b in [&w.2.req_b, &w.2.res_b].iter().skip(1 - opt) {
        if b.is_empty() { continue; }
        match out[at..].windows(b.len()).position(|x| x == &b[..]) { Some(i) => at += i + b.len(), None => bail!(KC, "body of {} bytes is not in the output of {}", b.len(), out.len()) }
    } }
    observe((want.iter().map(|w| w.1).collect::<Vec<_>>(), ok));
    Ok(())
}

impl Check for C32 {
    fn id(&self) -> &'static str { "C32" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("{} configurations, of the library and tool built without mmap and brotli: all sequences of up to {} body operations; sources of up to 12 bytes in all first deliveries by limits and buffer sizes; all parts of files of up to {} bytes; all archives of up to {} records, each plain, gzip (by the library or others) or Brotli, read in both directions with refused ones tried twice; records read and written again; streams and sinks of each type and buffer; all pairs of lists of up to 2 encodings; cp and cat of all archives of up to 3 records",
            cfgs(t).len(), t.pick(5, 6), t.pick(8, 16), t.pick(4, 5))
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["Both features off at once; the two other builds are not run", "Direct and permit streams and sinks; the dispatch pool is the subject of C18, C20 and C21"] }
    fn configs(&self, t: Tier) -> usize { CACHE.get_or_init(|| cfgs(t)).len() }
    fn describe(&self, t: Tier, c: usize) -> String { format!("{:?}", CACHE.get_or_init(|| cfgs(t))[c]) }
    fn run(&self, t: Tier, c: usize) -> Res {
        match CACHE.get_or_init(|| cfgs(t))[c].clone() {
            F::Ops { start, first, depth } => ops(start, first, depth),
            F::Read { ram, max, buf } => read(t, ram, max, buf),
            F::Slices { whole } => slices(whole),
            F::Mixed { shape, first, depth } => mixed(t, shape, first, depth),
            F::Copies { make } => copies(make),
            F::Stream { kind, uni, make, len, bfs, item } => stream(kind, uni, make, len, bfs, item),
            F::Sink { permit, uni, ram, sends } => sink(permit, uni, ram, sends),
            F::Decode { make, data } => decoding(make, data),
            F::Accept => accept(),
            F::Cp { opt } => cp(opt),
            F::Cat { opt } => cat(opt),
        }
    }
}
