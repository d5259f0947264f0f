//! C12: a crash at any point of a write loses at most the record being written.
//! C13: a failed archive write is reported and harms no other record.
//! C14: read faults never yield a wrong record, and a failed read can be retried.

use std::path::Path;

use barc::BarcFile;
use body_image::Tunables;

use crate::arc::*;
use crate::engine::*;
use crate::fault::Faults;
use crate::sys::{self, Act, Ev, Handler, Op};
use crate::util::*;
use crate::{bail, ensure, tr};

use super::c02::Cache;
use super::c03::{strategy, Alg};

pub struct C12;
pub struct C13;
pub struct C14;

/// Kind of record: compression, body lengths, state of bodies
pub type Kind = (Alg, usize, usize, Make);

pub fn rec_of(i: usize, k: Kind) -> Rec { Rec::numbered(i, k.1, k.2) }

fn tn(ram: u64) -> Tunables { tune(ram, 100_000, 64, 64, &dir("t")) }

// ---------------------------------------------------------------- C12

/// Log of all changes made to files by the code under test
#[derive(Default)]
pub struct Log { pub ops: Vec<(u32, Change)>, pub path: Vec<(u32, String)> }
#[derive(Clone, Debug)]
pub enum Change { Write(u64, Vec<u8>), Trunc(u64) }

impl Handler for Log {
    fn before(&mut self, _ev: &Ev<'_>) -> Act { Act::Pass }
    fn after(&mut self, ev: &Ev<'_>, ret: isize) {
        if ret < 0 { return; }
        match ev.op {
            Op::Open => self.path.push((ret as u32, ev.path.to_string())),
            Op::Write => self.ops.push((ev.fd as u32, Change::Write(ev.off as u64, ev.data[..ret as usize].to_vec()))),
            Op::Trunc => self.ops.push((ev.fd as u32, Change::Trunc(ev.off as u64))),
            _ => {}
        }
    }
}

/// All states of the file the log passes through: writes beyond the end
/// of file are torn at every byte (of large ones the first and last 32 and
/// every 512th), other writes are applied as a whole.
/// Each is given as the number of complete changes and bytes of the next.
fn points(before: &[u8], log: &[(u32, Change)]) -> Vec<(usize, usize)> {
    let mut v = vec![(0, 0)];
    let mut size = before.len();
    for (i, (_, c)) in log.iter().enumerate() {
        match c {
            Change::Write(off, d) => {
                let off = *off as usize;
                let first = size.saturating_sub(off).min(d.len()).max(1);
                for t in first..d.len() {
                    if d.len() > 1000 && t > first + 32 && t + 32 < d.len() && t % 512 != 0 { continue; }
                    v.push((i, t));
                }
                size = size.max(off + d.len());
            }
            Change::Trunc(l) => size = *l as usize,
        }
        v.push((i + 1, 0));
    }
    v
}

fn image(before: &[u8], log: &[(u32, Change)], at: (usize, usize)) -> Vec<u8> {
    let mut n = before.to_vec();
    for (i, (_, c)) in log.iter().enumerate().take(at.0 + (at.1 > 0) as usize) {
        match c {
            Change::Write(off, d) => {
                let off = *off as usize;
                let d = if i == at.0 { &d[..at.1] } else { d };
                if n.len() < off + d.len() { n.resize(off + d.len(), 0); }
                n[off..off + d.len()].copy_from_slice(d);
            }
            Change::Trunc(l) => n.resize(*l as usize, 0),
        }
    }
    n
}

#[derive(Clone, Debug)]
struct F12 { prior: Vec<Kind>, crash: Kind, after: Kind, ram: u64, crashes: usize }

fn cfgs12(t: Tier) -> Vec<F12> {
    let ks: Vec<Kind> = vec![
        (Alg::Plain, 0, 5, Make::Ram1), (Alg::Plain, 4, 6, Make::RamScattered), (Alg::Plain, 3, 0, Make::Ram1),
        (Alg::Gzip, 4, 6, Make::Ram1), (Alg::Brotli, 4, 6, Make::Ram1), (Alg::Plain, 9, 30, Make::File),
        (Alg::Gzip, 0, 300, Make::File), (Alg::Brotli, 20, 0, Make::Mapped),
        (Alg::Plain, 0, 0, Make::Ram1), (Alg::Plain, NONE, 0, Make::Ram1), (Alg::Gzip, 0, 0, Make::Ram1), (Alg::Gzip, NONE, 0, Make::Ram1),
    ];
    let mut v = vec![];
    for prior in [vec![], vec![ks[0]], vec![ks[3], ks[1]]] {
        for &crash in &ks {
            for ram in [0u64, 100] {
                for &after in &[ks[0], ks[4]] {
                    v.push(F12 { prior: prior.clone(), crash, after, ram, crashes: 1 });
                }
            }
        }
    }
    // larger records
    for &crash in &[(Alg::Plain, 0, 5000, Make::Ram1), (Alg::Plain, 70_000, 9000, Make::File), (Alg::Plain, 0, 70_000, Make::RamScattered), (Alg::Gzip, 0, 70_000, Make::Ram1), (Alg::Brotli, 70_000, 10, Make::File)] {
        for prior in [vec![], vec![ks[0]]] {
            for ram in [0u64, 100_000] { v.push(F12 { prior: prior.clone(), crash, after: ks[0], ram, crashes: 1 }); }
        }
    }
    for prior in [vec![], vec![ks[0]]] {
        for &crash in &t.pick(vec![ks[0], ks[3]], ks.clone()) {
            for &after in &t.pick(vec![ks[2]], vec![ks[0], ks[2], ks[4]]) {
                v.push(F12 { prior: prior.clone(), crash, after, ram: 0, crashes: 2 });
            }
        }
    }
    v
}
static CACHE12: Cache<F12> = Cache::new();
const K12: &str = "crash";

/// Write with a crash at a chosen point: returns the file as then found and
/// whether the record had been committed (is complete in it)
fn crashing_write(p: &Path, rec: &Rec, k: Kind) -> Res<(Vec<u8>, u64)> {
    let before = std::fs::read(p).unwrap_or_default();
    let r = match rec.record(k.3, k.3) { Ok(r) => r, Err(e) => bail!(K12, "making a record: {}", e) };
    let f = BarcFile::new(p);
    let mut log = Log::default();
    let res = sys::with_handler(&mut log, || f.writer().map_err(|e| e.to_string()).and_then(|mut w| w.write(&r, &*strategy(k.0, 0)).map_err(|e| e.to_string())));
    let off = match res { Ok(o) => o, Err(e) => bail!(K12, "write: {}", e) };
    let ours = p.to_string_lossy();
    let fds: Vec<u32> = log.path.iter().filter(|x| *x.1 == ours).map(|x| x.0).collect();
    log.ops.retain(|x| fds.contains(&x.0));
    let pts = points(&before, &log.ops);
    // all is in the log
    let now = std::fs::read(p).unwrap_or_default();
    if image(&before, &log.ops, (log.ops.len(), 0)) != now { engine_fail("replaying the log of writes does not give the file"); }
    let c = choose(pts.len());
    let im = image(&before, &log.ops, pts[c]);
    tr!("crash {} of {}: after {} of {} writes, file has {} bytes", c, pts.len(), pts[c].0, log.ops.len(), im.len());
    observe((c, im.len()));
    Ok((im, off))
}

/// Read from the start: must be `must` in order, then possibly a prefix of `may`, then end or error
fn read_prefix(p: &Path, tn: &Tunables, must: &[&Rec], may: &[&Rec]) -> Res<usize> {
    let f = BarcFile::new(p);
    let mut rd = match f.reader() { Ok(r) => r, Err(e) => bail!(K12, "reader: {}", e) };
    let mut n = 0;
    loop {
        let o = rd.offset();
        match rd.read(tn) {
            Ok(Some(r)) => {
                let w = must.iter().chain(may.iter()).nth(n);
                match w {
                    Some(w) => w.same_quick(K12, &r).map_err(|v| Viol { key: v.key, msg: format!("record {} read from the start: {}", n, v.msg) })?,
                    None => bail!(K12, "record {} at {} was never written", n, o),
                }
                n += 1;
            }
            Ok(None) => break,
            Err(e) => { tr!("  then error: {}", e); break }
        }
    }
    ensure!(n >= must.len(), K12, "only {} of {} completed records are reachable from the start", n, must.len());
    Ok(n)
}

impl Check for C12 {
    fn id(&self) -> &'static str { "C12" }
    fn level(&self) -> &'static str { "fault_enumeration" }
    fn rule(&self, t: Tier) -> String {
        format!("{} configurations (records before, record being written in each compression and body state, record written after); process death at every point: between any two system calls, and within every extending write after every byte (of writes beyond 1000 bytes: the first and last 32 bytes and every 512th); the found file is read from the start and by offset, then a further record is written to it{}; distinct: differing sequence of file lengths and outcomes", cfgs12(t).len(), ", also with a second crash")
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["process crash (no loss of writes already made), as the code makes no claim of durability",
             "a single write call within the existing length of the file (54 byte head) is not torn"]
    }
    fn configs(&self, t: Tier) -> usize { CACHE12.get(t, cfgs12).len() }
    fn describe(&self, t: Tier, c: usize) -> String { format!("{:?}", CACHE12.get(t, cfgs12)[c]) }
    fn run(&self, t: Tier, c: usize) -> Res {
        let cfg = &CACHE12.get(t, cfgs12)[c];
        let tn = tn(cfg.ram);
        let p = fresh("c12.barc");
        let mut recs: Vec<(u64, Rec)> = vec![];
        for k in &cfg.prior {
            let r = rec_of(recs.len(), *k);
            match write_one(&p, &r.ram(), &*strategy(k.0, 0)) { Ok(o) => recs.push((o, r)), Err(e) => bail!(K12, "{}", e) }
        }
        let clean = std::fs::read(&p).unwrap_or_default();
        let lost = rec_of(10, cfg.crash);
        let (img, _) = crashing_write(&p, &lost, cfg.crash)?;
        std::fs::write(&p, &img).expect("write image");
        let must: Vec<&Rec> = recs.iter().map(|r| &r.1).collect();
        let n = read_prefix(&p, &tn, &must, &[&lost])?;
        let at: Vec<(u64, &Rec)> = recs.iter().map(|r| (r.0, &r.1)).collect();
        expect_at(K12, &p, &tn, &at)?;
        observe(n);
        let inflight = n > must.len();
        let mut may: Vec<&Rec> = if inflight { vec![&lost] } else { vec![] };
        if cfg.crashes > 1 {
            // a second crash, while writing after the first
            let lost2 = rec_of(20, cfg.after);
            let (img, _) = crashing_write(&p, &lost2, cfg.after)?;
            std::fs::write(&p, &img).expect("write image");
            may.push(&lost2);
            let n = read_prefix(&p, &tn, &must, &may)?;
            observe(n);
            expect_at(K12, &p, &tn, &at)?;
            return after(&p, &tn, &recs, &may, rec_of(30, cfg.after), cfg.after, false);
        }
        let unchanged = img == clean;
        after(&p, &tn, &recs, &may, rec_of(20, cfg.after), cfg.after, unchanged)
    }
}

// A new session writes on
fn after(p: &Path, tn: &Tunables, recs: &[(u64, Rec)], may: &[&Rec], new: Rec, k: Kind, unchanged: bool) -> Res {
    let size = std::fs::metadata(p).map(|m| m.len()).unwrap_or(0);
    let off = match write_one(p, &new.ram(), &*strategy(k.0, 0)) { Ok(o) => o, Err(e) => bail!(K12, "write after the crash: {}", e) };
    ensure!(recs.last().map(|r| r.0 < off).unwrap_or(true), K12, "offset {} of the new record is before an earlier one", off);
    observe(off == size);
    let mut at: Vec<(u64, &Rec)> = recs.iter().map(|r| (r.0, &r.1)).collect();
    at.push((off, &new));
    expect_at(K12, p, tn, &at)?;
    if unchanged { return expect_all(K12, p, tn, &at); }
    let must: Vec<&Rec> = recs.iter().map(|r| &r.1).collect();
    // in-flight records may or may not show up before the new one
    let mut seen = vec![];
    let f = BarcFile::new(p);
    let mut rd = match f.reader() { Ok(r) => r, Err(e) => bail!(K12, "reader: {}", e) };
    loop {
        match rd.read(tn) {
            Ok(Some(r)) => seen.push(r),
            _ => break,
        }
        if seen.len() > 10 { bail!(K12, "too many records"); }
    }
    ensure!(seen.len() >= must.len(), K12, "completed records lost");
    let all: Vec<&Rec> = may.iter().cloned().chain(Some(&new)).collect();
    let mut pos = 0;
    for (i, r) in seen.iter().enumerate() {
        if i < must.len() { must[i].same_quick(K12, r)?; continue; }
        match all[pos..].iter().position(|w| w.same_quick(K12, r).is_ok()) {
            Some(d) => pos += d + 1,
            None => bail!(K12, "record {} from the start is none of those written", i),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Copy, Debug, PartialEq)]
enum Session { SameWriter, SameFile, NewFile }

#[derive(Clone, Debug)]
struct F13 { /// Length of the response body of the record before, if any
             prior: usize, k: Kind, next: Kind, session: Session, faults: usize, max_err: usize,
             /// The file of request (1) or response (2) body is cut short by a byte
             cut: u8,
             /// More than a record may have in its meta (1), request (2) or response headers (3),
             /// request (4) or response body (5); by that much
             over: (u8, usize),
             /// At every read and write
             storm: sys::Storm }

fn cfgs13(t: Tier) -> Vec<F13> {
    let mut v = vec![];
    let ks: Vec<Kind> = vec![
        (Alg::Plain, 0, 5, Make::Ram1), (Alg::Plain, 4, 6, Make::RamScattered), (Alg::Gzip, 4, 6, Make::Ram1),
        (Alg::Brotli, 4, 6, Make::Ram1), (Alg::Plain, 3, 9, Make::File), (Alg::Plain, 3, 9, Make::SliceMapped),
        (Alg::Gzip, 0, 20, Make::File), (Alg::Brotli, 9, 0, Make::Slice), (Alg::Plain, 0, 0, Make::Ram1),
    ];
    for prior in [0, 5] {
        for &k in &ks {
            for session in [Session::SameWriter, Session::SameFile, Session::NewFile] {
                v.push(F13 { prior, k, next: ks[0], session, faults: t.pick(2, 3), max_err: 1, cut: 0, over: (0, 0), storm: sys::CALM });
            }
        }
    }
    // after much else
    for &k in &ks[..4] { v.push(F13 { prior: 70_000, k, next: ks[0], session: Session::SameFile, faults: t.pick(1, 2), max_err: 1, cut: 0, over: (0, 0), storm: sys::CALM }); }
    // enough output for several writes from a compressor
    for alg in [Alg::Gzip, Alg::Brotli] {
        v.push(F13 { prior: 5, k: (alg, 0, 70_000, Make::File), next: ks[2], session: Session::SameFile, faults: t.pick(1, 2), max_err: 1, cut: 0, over: (0, 0), storm: sys::CALM });
    }
    for alg in [Alg::Plain, Alg::Gzip, Alg::Brotli] {
        for cut in [1, 2] {
            for session in [Session::SameWriter, Session::SameFile, Session::NewFile] {
                for len in [5, 9000] {
                    v.push(F13 { prior: 5, k: (alg, len, len + 2, Make::File), next: ks[0], session, faults: 1, max_err: 0, cut, over: (0, 0), storm: sys::CALM });
                }
            }
        }
    }
    for alg in [Alg::Plain, Alg::Gzip, Alg::Brotli] {
        for w in 1..=5 {
            for session in [Session::SameWriter, Session::SameFile, Session::NewFile] {
                for by in [1, 2, 70_000] {
                    v.push(F13 { prior: 5, k: (alg, 4, 6, Make::Ram1), next: ks[0], session, faults: 0, max_err: 0, cut: 0, over: (w, by), storm: sys::CALM });
                }
            }
        }
    }
    for storm in sys::STORMS {
        for &k in &ks { v.push(F13 { prior: 5, k, next: ks[0], session: Session::SameWriter, faults: 0, max_err: 0, cut: 0, over: (0, 0), storm }); }
        for alg in [Alg::Plain, Alg::Gzip, Alg::Brotli] {
            v.push(F13 { prior: 0, k: (alg, 0, 9000, Make::File), next: ks[2], session: Session::NewFile, faults: 0, max_err: 0, cut: 0, over: (0, 0), storm });
        }
    }
    v
}
static CACHE13: Cache<F13> = Cache::new();
const K13: &str = "write-fault";

impl Check for C13 {
    fn id(&self) -> &'static str { "C13" }
    fn level(&self) -> &'static str { "fault_enumeration" }
    fn rule(&self, t: Tier) -> String {
        format!("{} configurations (record before, record kind and body state, following write by the same writer, a new writer or a new session); all placements of up to {} faults, at most one of them an error, at the system calls of opening the writer and writing; then a faultless write; the archive must hold exactly the records reported as written; likewise for bodies of a file cut short, in place of an error, and for records exceeding each limit of the format by 1, 2 or 70,000 bytes; also with every read and write interrupted up to 40 times and of at most 1 or 3 bytes", cfgs13(t).len(), t.pick(2, 3))
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["at most one call fails per write: a failure of the cleaning up after a failure is not considered"]
    }
    fn configs(&self, t: Tier) -> usize { CACHE13.get(t, cfgs13).len() }
    fn describe(&self, t: Tier, c: usize) -> String { format!("{:?}", CACHE13.get(t, cfgs13)[c]) }
    fn run(&self, t: Tier, c: usize) -> Res {
        let cfg = &CACHE13.get(t, cfgs13)[c];
        sys::with_storm(cfg.storm, || run13(cfg))
    }
}

fn run13(cfg: &F13) -> Res {
    let tn = tn(100);
    let p = fresh("c13.barc");
    let mut recs: Vec<(u64, Rec)> = vec![];
    let mut fl = Faults::new(cfg.faults);
    fl.max_err = cfg.max_err;
    {
        let mut f = BarcFile::new(&p);
        if cfg.prior > 0 {
            let r = rec_of(0, (Alg::Plain, 2, cfg.prior, Make::Ram1));
            match write_one(&p, &r.ram(), &*strategy(Alg::Plain, 0)) { Ok(o) => recs.push((o, r)), Err(e) => bail!(K13, "{}", e) }
        }
        let before = std::fs::read(&p).unwrap_or_default();
        let big = cfg.k.2 > 1000;
        let mut r = rec_of(1, cfg.k);
        if big { r.res_b = noise(cfg.k.2); }
        let mut record = match r.record(cfg.k.3, cfg.k.3) { Ok(x) => x, Err(e) => bail!(K13, "making a record: {}", e) };
        let short = |d: &[u8]| unsafe { body_image::BodyImage::from_file(file_with(&d[..d.len() - 1]), d.len() as u64) };
        if cfg.cut == 1 { record.req_body = short(&r.req_b); }
        if cfg.cut == 2 { record.res_body = short(&r.res_b); }
        if cfg.over.0 > 0 {
            // with the CRLF at the end of plain blocks
            let e = if cfg.k.0 == Alg::Plain { 2 } else { 0 };
            let h = vec![("f".into(), vec![b'v'; barc::V2_MAX_HBLOCK + cfg.over.1 - e - 5])];
            let long = |n: u64| unsafe { body_image::BodyImage::from_file(file_with(b"some"), n) };
            match cfg.over.0 {
                1 => record.meta = hmap(&h).unwrap(),
                2 => record.req_headers = hmap(&h).unwrap(),
                3 => record.res_headers = hmap(&h).unwrap(),
                4 => record.req_body = long(barc::V2_MAX_REQ_BODY + cfg.over.1 as u64),
                _ => record.res_body = long(barc::V2_MAX_RECORD + cfg.over.1 as u64),
            }
        }
        for b in [&record.req_body, &record.res_body] {
            // faults also when reading the bodies
            if let body_image::ExplodedImage::FsRead(_) = b.clone().explode() { for fd in 3..40 { if is_file(fd) { sys::track(fd); } } }
        }
        let mut w = match sys::with_handler(&mut fl, || f.writer()) {
            Ok(w) => Some(w),
            Err(e) => { ensure!(fl.errors > 0, K13, "writer failed without a failing call: {}", e); observe(1); None }
        };
        if let Some(w) = w.as_mut() {
            match sys::with_handler(&mut fl, || w.write(&record, &*strategy(cfg.k.0, 0))) {
                Ok(o) => {
                    ensure!(cfg.cut == 0, K13, "written though the file of a body ends early");
                    ensure!(cfg.over.0 == 0, K13, "written though beyond the limits of the format");
                    tr!("write ok at {}", o); recs.push((o, r)); observe(2);
                }
                Err(e) => {
                    tr!("write failed: {}", e);
                    ensure!(fl.errors > 0 || cfg.cut > 0 || cfg.over.0 > 0, K13, "write failed without a failing call ({} short, {} interrupted): {}", fl.shorts, fl.intrs, e);
                    observe(3);
                }
            }
        }
        let now = std::fs::read(&p).unwrap_or_default();
        ensure!(now.starts_with(&before), K13, "earlier bytes changed");
        if now.len() > 0 || !recs.is_empty() {
            let at: Vec<(u64, &Rec)> = recs.iter().map(|r| (r.0, &r.1)).collect();
            expect_all(K13, &p, &tn, &at)?;
        }
        // and on, without faults
        let n = rec_of(2, cfg.next);
        let st = strategy(cfg.next.0, 0);
        let res = match cfg.session {
            Session::SameWriter if w.is_some() => w.as_mut().map(|w| w.write(&n.ram(), &*st).map_err(|e| e.to_string())).unwrap(),
            Session::NewFile => { drop(w); f = BarcFile::new(&p); let r = f.writer().and_then(|mut w| w.write(&n.ram(), &*st)).map_err(|e| e.to_string()); r }
            _ => { drop(w); let r = f.writer().and_then(|mut w| w.write(&n.ram(), &*st)).map_err(|e| e.to_string()); r }
        };
        match res { Ok(o) => recs.push((o, n)), Err(e) => bail!(K13, "write after the failure: {}", e) }
    }
    let at: Vec<(u64, &Rec)> = recs.iter().map(|r| (r.0, &r.1)).collect();
    expect_all(K13, &p, &tn, &at)?;
    observe((fl.errors, fl.shorts, fl.intrs));
    expect_at(K13, &p, &tn, &at)
}

fn is_file(fd: i32) -> bool {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        libc::fstat(fd, &mut st) == 0 && (st.st_mode & libc::S_IFMT) == libc::S_IFREG
    }
}

/// Content that does not compress
fn noise(n: usize) -> Vec<u8> {
    let mut x = 0x1234_5678_9abc_def1u64;
    (0..n).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 24) as u8 }).collect()
}

// ---------------------------------------------------------------- C14

#[derive(Clone, Debug)]
struct F14 { first: Kind, second: Kind, ram: u64, bram: usize, bfs: usize, faults: usize, storm: sys::Storm }

fn cfgs14(t: Tier) -> Vec<F14> {
    let mut v = vec![];
    let ks: Vec<Kind> = vec![
        (Alg::Plain, 0, 5, Make::Ram1), (Alg::Plain, 4, 6, Make::Ram1), (Alg::Plain, 0, 0, Make::Ram1),
        (Alg::Gzip, 4, 6, Make::Ram1), (Alg::Brotli, 4, 6, Make::Ram1), (Alg::Gzip, 0, 12, Make::Ram1), (Alg::Brotli, 12, 0, Make::Ram1),
    ];
    for &first in &ks {
        for &second in &[ks[1], ks[3], ks[4]] {
            for ram in [0u64, 7, 100] {
                for (bram, bfs) in [(64, 64), (5, 3)] {
                    if (bram, bfs) == (5, 3) && (first.0 == Alg::Plain || second != ks[1]) { continue; }
                    v.push(F14 { first, second, ram, bram, bfs, faults: if bram == 5 { t.pick(1, 2) } else { t.pick(2, 3) }, storm: sys::CALM });
                }
            }
        }
    }
    for alg in [Alg::Plain, Alg::Gzip, Alg::Brotli] {
        for ram in [0u64, 200_000] {
            v.push(F14 { first: (alg, 0, 70_000, Make::Ram1), second: ks[1], ram, bram: 4096, bfs: 8192, faults: t.pick(1, 2), storm: sys::CALM });
            v.push(F14 { first: (alg, 70_000, 0, Make::Ram1), second: ks[1], ram, bram: 4096, bfs: 8192, faults: t.pick(1, 2), storm: sys::CALM });
        }
    }
    for storm in sys::STORMS {
        for &first in &ks {
            for ram in [0u64, 7, 100] { v.push(F14 { first, second: ks[3], ram, bram: 64, bfs: 64, faults: 0, storm }); }
        }
        for alg in [Alg::Plain, Alg::Gzip, Alg::Brotli] {
            for ram in [0u64, 20_000] {
                for (req, res) in [(0, 9000), (9000, 0)] { v.push(F14 { first: (alg, req, res, Make::Ram1), second: ks[1], ram, bram: 4096, bfs: 8192, faults: 0, storm }); }
            }
        }
    }
    v
}
static CACHE14: Cache<F14> = Cache::new();
const K14: &str = "read-fault";

impl Check for C14 {
    fn id(&self) -> &'static str { "C14" }
    fn level(&self) -> &'static str { "fault_enumeration" }
    fn rule(&self, t: Tier) -> String {
        format!("{} configurations (two records of each kind, read limits and buffer sizes); all placements of up to {} faults (error, short count of 1, half, all but one; interruption) at the system calls made by the reader, including those for temporary files; every failed read is tried again; also with every read and write interrupted up to 40 times and of at most 1 or 3 bytes", cfgs14(t).len(), t.pick(2, 3))
    }
    fn configs(&self, t: Tier) -> usize { CACHE14.get(t, cfgs14).len() }
    fn describe(&self, t: Tier, c: usize) -> String { format!("{:?}", CACHE14.get(t, cfgs14)[c]) }
    fn run(&self, t: Tier, c: usize) -> Res {
        let cfg = &CACHE14.get(t, cfgs14)[c];
        sys::with_storm(cfg.storm, || run14(cfg))
    }
}

fn run14(cfg: &F14) -> Res {
    let tn = tune(cfg.ram, 1_000_000, cfg.bram, cfg.bfs, &dir("t"));
    let p = fresh("c14.barc");
    let mut recs: Vec<(u64, Rec)> = vec![];
    for k in [cfg.first, cfg.second] {
        let mut r = rec_of(recs.len(), k);
        if k.1 > 1000 { r.req_b = noise(k.1); }
        if k.2 > 1000 { r.res_b = noise(k.2); }
        match write_one(&p, &r.ram(), &*strategy(k.0, 0)) { Ok(o) => recs.push((o, r)), Err(e) => bail!(K14, "{}", e) }
    }
    let end = std::fs::metadata(&p).map(|m| m.len()).unwrap_or(0);
    let mut fl = Faults::new(cfg.faults);
    let f = BarcFile::new(&p);
    let mut rd = match sys::with_handler(&mut fl, || f.reader()) {
        Ok(r) => r,
        Err(e) => { ensure!(fl.errors > 0, K14, "reader failed without a failing call: {}", e); return Ok(()); }
    };
    let mut i = 0;
    let mut tries = 0;
    loop {
        let want_off = recs.get(i).map(|r| r.0).unwrap_or(end);
        ensure!(rd.offset() == want_off, K14, "offset is {}, expected {}", rd.offset(), want_off);
        let e0 = fl.errors;
        tr!("read at {}", rd.offset());
        let r = sys::with_handler(&mut fl, || rd.read(&tn));
        match (r, recs.get(i)) {
            (Ok(Some(r)), Some(w)) => { w.1.same_quick(K14, &r)?; i += 1; observe((1, i)); }
            (Ok(None), None) => break,
            (Ok(Some(_)), None) => bail!(K14, "record after the last"),
            (Ok(None), Some(_)) => bail!(K14, "end of file reported instead of record {}", i),
            (Err(e), _) => {
                tr!("  failed: {}", e);
                ensure!(fl.errors > e0, K14, "read failed without a failing call ({} short, {} interrupted): {}", fl.shorts, fl.intrs, e);
                observe((2, i));
            }
        }
        tries += 1;
        if tries > 20 { bail!(K14, "no end"); }
    }
    observe((fl.errors, fl.shorts, fl.intrs));
    Ok(())
}
