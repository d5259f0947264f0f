//! C05: readers and clones of one body never disturb each other.
//! C10: readers concurrent with a writer only see complete, committed records.
//! C11: writers on one archive are mutually exclusive and lose nothing.

use std::io::{Read, Seek, SeekFrom};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::thread;

use barc::BarcFile;
use body_image::{BodyImage, BodyReader};

use crate::arc::*;
use crate::engine::*;
use crate::sched;
use crate::sys;
use crate::util::*;
use crate::{bail, ensure, tr};

use super::c02::Cache;
use super::c03::{strategy, Alg};

pub struct C05;
pub struct C10;
pub struct C11;

// ---------------------------------------------------------------- C05

const K5: &str = "readers";
const PROGS: usize = 8;

#[derive(Clone, Debug)]
enum F5 {
    /// threads, each with a program over its own clone
    Threads { make: Make, progs: Vec<usize>, preempt: u32, len: usize },
    /// operations of several readers and clones interleaved on one thread
    Inter { make: Make, depth: usize },
}

fn cfgs5(t: Tier) -> Vec<F5> {
    let mut v = vec![];
    for make in MAKES {
        for a in 0..PROGS {
            for b in a..PROGS {
                v.push(F5::Threads { make, progs: vec![a, b], preempt: t.pick(3, 5), len: 7 });
            }
        }
        for a in 0..PROGS {
            for b in a..PROGS {
                if t == Tier::Quick && a != b { continue; }
                for c in b..PROGS {
                    v.push(F5::Threads { make, progs: vec![a, b, c], preempt: t.pick(1, 2), len: 7 });
                }
            }
        }
        v.push(F5::Inter { make, depth: t.pick(5, 6) });
    }
    // larger than internal buffers, so that write-out takes several reads
    for make in [Make::File, Make::Slice, Make::Mapped] {
        for (a, b) in [(1, 1), (0, 1), (1, 2), (1, 5)] {
            v.push(F5::Threads { make, progs: vec![a, b], preempt: t.pick(2, 4), len: 20_000 });
        }
    }
    v
}
static CACHE5: Cache<F5> = Cache::new();

/// What a thread does with a clone of the body: bytes must be as expected
fn program(p: usize, mut b: BodyImage, want: &[u8]) -> Result<(), String> {
    let e = |x: std::io::Error| x.to_string();
    let eb = |x: body_image::BodyError| x.to_string();
    let chk = |what: &str, got: &[u8], want: &[u8]| -> Result<(), String> {
        if got == want { Ok(()) } else { Err(format!("{}: {}", what, first_diff(got, want))) }
    };
    let third = want.len() / 3 + 1;
    match p {
        0 => {
            // small reads, then end
            let mut v = vec![];
            let mut buf = vec![0u8; third];
            let mut r = b.reader();
            loop {
                let n = r.read(&mut buf).map_err(e)?;
                if n == 0 { break; }
                v.extend_from_slice(&buf[..n]);
                if v.len() > want.len() + 10 { break; }
            }
            chk("reads", &v, want)
        }
        1 => {
            let mut v = vec![];
            let n = b.write_to(&mut v).map_err(eb)?;
            chk("write_to", &v, want)?;
            if n != want.len() as u64 { return Err(format!("write_to returned {}", n)); }
            Ok(())
        }
        2 => {
            b.mem_map().map_err(eb)?;
            chk("mapped", &body_bytes(&b).map_err(e)?, want)
        }
        3 => {
            b.gather();
            chk("gathered", &body_bytes(&b).map_err(e)?, want)
        }
        4 => {
            // two readers of one body, with seeks
            let mut r1 = b.reader();
            let mut r2 = b.reader();
            let mut x = vec![0u8; third];
            let n = r1.read(&mut x).map_err(e)?;
            chk("first reader", &x[..n], &want[..n])?;
            if let BodyReader::FileSlice(ref mut s) = r2 {
                s.seek(SeekFrom::End(-2)).map_err(e)?;
                let mut v = vec![];
                s.read_to_end(&mut v).map_err(e)?;
                chk("second reader after seek", &v, &want[want.len() - 2..])?;
                s.seek(SeekFrom::Start(0)).map_err(e)?;
            }
            let mut v = x[..n].to_vec();
            r1.read_to_end(&mut v).map_err(e)?;
            chk("first reader", &v, want)?;
            let mut v = vec![];
            r2.read_to_end(&mut v).map_err(e)?;
            chk("second reader", &v, want)
        }
        5 => {
            let (v, _) = exploded_bytes(b.explode()).map_err(e)?;
            chk("exploded", &v, want)
        }
        6 => {
            // drop while others use it
            let c = b.clone();
            drop(b);
            chk("clone", &body_bytes(&c).map_err(e)?, want)
        }
        _ => {
            // a reader that outlives its body
            if let BodyReader::FileSlice(mut r) = b.clone().reader() {
                drop(b);
                let mut v = vec![0u8; 2];
                let n = r.read(&mut v).map_err(e)?;
                v.truncate(n);
                let mut c = r.clone();
                r.read_to_end(&mut v).map_err(e)?;
                chk("detached reader", &v, want)?;
                let mut v = vec![];
                c.read_to_end(&mut v).map_err(e)?;
                return chk("clone of reader", &v, want);
            }
            Ok(())
        }
    }
}

impl Check for C05 {
    fn id(&self) -> &'static str { "C05" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("{} configurations: pairs of threads with each of {} programs (reads, write-out, map, gather, seeks with two readers, explode, drop, detached reader) on clones of a body in each of 6 states under all schedules of file system calls with up to {} preemptions, three threads with {}, and all sequences of {} operations of two readers and two clones on one thread", cfgs5(t).len(), PROGS, t.pick(3, 5), t.pick(1, 2), t.pick(5, 6))
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["code between file system calls, lock operations and thread starts is taken as atomic: data races in memory are excluded by the type system (the crates have no unsafe shared mutation)"]
    }
    fn configs(&self, t: Tier) -> usize { CACHE5.get(t, cfgs5).len() }
    fn describe(&self, t: Tier, c: usize) -> String { format!("{:?}", CACHE5.get(t, cfgs5)[c]) }
    fn run(&self, t: Tier, c: usize) -> Res {
        match CACHE5.get(t, cfgs5)[c].clone() {
            F5::Threads { make, progs, preempt, len } => {
                let data = Arc::new(pattern(3, len));
                let body = match make_body(make, &data) { Ok(b) => b, Err(e) => bail!(K5, "making the body: {}", e) };
                track_all();
                let mut none = Order::default();
                let r = sys::with_handler(&mut none, || sched::run(preempt, || {
                    let hs: Vec<_> = progs.iter().map(|p| {
                        let (p, b, d) = (*p, body.clone(), data.clone());
                        thread::spawn(move || program(p, b, &d))
                    }).collect();
                    hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
                }));
                observe(none.0);
                if let Some(m) = panicked() { bail!("panic", "panic: {}", m) }
                for (i, x) in r.into_iter().enumerate() {
                    match x {
                        Ok(Ok(())) => {}
                        Ok(Err(m)) => bail!(K5, "thread {} (program {}): {}", i, progs[i], m),
                        Err(_) => bail!("panic", "thread {} panicked", i),
                    }
                }
                // and the original is as it was
                ensure!(body.is_mem_map() == matches!(make, Make::Mapped | Make::SliceMapped), K5, "state of the original changed");
                check_image(K5, &body, &data)
            }
            F5::Inter { make, depth } => inter(make, depth),
        }
    }
}

#[derive(Default)]
struct Order(Vec<u8>);
impl sys::Handler for Order {
    fn after(&mut self, ev: &sys::Ev<'_>, _r: isize) { self.0.push(sched::me() as u8 * 16 + ev.op as u8); }
}

fn track_all() {
    for fd in 3..64 {
        unsafe {
            let mut st: libc::stat = std::mem::zeroed();
            if libc::fstat(fd, &mut st) == 0 && (st.st_mode & libc::S_IFMT) == libc::S_IFREG { sys::track(fd); }
        }
    }
}

// One thread: two readers on the original and a clone which goes through states
fn inter(make: Make, depth: usize) -> Res {
    let data = pattern(9, 8);
    let body = match make_body(make, &data) { Ok(b) => b, Err(e) => bail!(K5, "making the body: {}", e) };
    let mut clone = Some(body.clone());
    let mut rs = [body.reader(), body.reader()];
    let mut pos = [0usize; 2];
    for _ in 0..depth {
        let c = choose(11);
        tr!("op {}", c);
        match c {
            0 => break,
            1..=4 => {
                let i = (c - 1) / 2;
                let mut b = vec![0u8; if c % 2 == 0 { 3 } else { 1 }];
                match rs[i].read(&mut b) {
                    Ok(n) => {
                        ensure!(data[pos[i]..].starts_with(&b[..n]) && (n > 0 || pos[i] == data.len()), K5, "reader {} at {} gave {}", i, pos[i], hx(&b[..n]));
                        pos[i] += n;
                    }
                    Err(e) => bail!(K5, "reader: {}", e),
                }
            }
            5 | 6 => {
                let i = c - 5;
                if let BodyReader::FileSlice(ref mut s) = rs[i] {
                    match s.seek(SeekFrom::Start(5)) { Ok(p) => ensure!(p == 5, K5, "seek"), Err(e) => bail!(K5, "seek: {}", e) }
                    pos[i] = 5;
                }
            }
            7 => if let Some(c) = clone.as_mut() { if let Err(e) = c.mem_map() { bail!(K5, "mem_map: {}", e) } },
            8 => if let Some(c) = clone.as_mut() { c.gather(); },
            9 => { if let Some(c) = clone.take() { check_image(K5, &c, &data)?; } }
            _ => {
                let mut v = vec![];
                match body.write_to(&mut v) { Ok(_) => ensure!(v == data, K5, "write_to: {}", first_diff(&v, &data)), Err(e) => bail!(K5, "write_to: {}", e) }
            }
        }
        observe((pos, clone.as_ref().map(state_of)));
    }
    if let Some(c) = clone { check_image(K5, &c, &data)?; }
    for i in 0..2 {
        let mut v = vec![];
        if let Err(e) = rs[i].read_to_end(&mut v) { bail!(K5, "reader: {}", e) }
        ensure!(v == data[pos[i]..], K5, "reader {} from {}: {}", i, pos[i], first_diff(&v, &data[pos[i]..]));
    }
    drop(rs);
    check_image(K5, &body, &data)
}

// ---------------------------------------------------------------- C10

const K10: &str = "concurrent-read";
type Kd = (Alg, usize, usize, Make);

#[derive(Clone, Debug)]
struct F10 { prior: bool, writes: Vec<Kd>, reads: usize, readers: usize, ram: u64, preempt: u32, writers: usize }

fn cfgs10(t: Tier) -> Vec<F10> {
    let mut v = vec![];
    let ks: Vec<Kd> = vec![
        (Alg::Plain, 0, 5, Make::Ram1), (Alg::Plain, 4, 6, Make::File), (Alg::Gzip, 4, 6, Make::Ram1),
        (Alg::Brotli, 0, 6, Make::RamScattered), (Alg::Plain, 0, 0, Make::Ram1), (Alg::Gzip, 0, 30, Make::Mapped),
    ];
    for prior in [false, true] {
        for &k in &ks {
            for ram in [0u64, 100] {
                v.push(F10 { prior, writes: vec![k], reads: 3, readers: 1, ram, preempt: t.pick(if ram == 0 && !prior { 3 } else { 2 }, 4), writers: 1 });
            }
        }
        for (a, b) in [(0, 2), (2, 1), (4, 4), (3, 0)] {
            v.push(F10 { prior, writes: vec![ks[a], ks[b]], reads: 3, readers: 1, ram: 100, preempt: t.pick(2, 3), writers: 1 });
            v.push(F10 { prior, writes: vec![ks[a]], reads: 2, readers: 2, ram: 0, preempt: t.pick(2, 3), writers: 1 });
            v.push(F10 { prior, writes: vec![ks[a], ks[b]], reads: 2, readers: 1, ram: 0, preempt: t.pick(1, 3), writers: 2 });
        }
    }
    v
}
static CACHE10: Cache<F10> = Cache::new();

impl Check for C10 {
    fn id(&self) -> &'static str { "C10" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("{} configurations (records of each compression and body state, one or two writers, one or two readers, read tuning); all interleavings of the file system calls of writers and readers with up to {} preemptions; readers try repeatedly, then again after the writers ended", cfgs10(t).len(), t.pick("2 or 3", "3 or 4"))
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["each read or write system call is atomic with respect to others on the same file"]
    }
    fn configs(&self, t: Tier) -> usize { CACHE10.get(t, cfgs10).len() }
    fn describe(&self, t: Tier, c: usize) -> String { format!("{:?}", CACHE10.get(t, cfgs10)[c]) }
    fn run(&self, t: Tier, c: usize) -> Res {
        let cfg = CACHE10.get(t, cfgs10)[c].clone();
        let tn = Arc::new(tune(cfg.ram, 1000, 64, 64, &dir("t")));
        let p = fresh("c10.barc");
        let mut recs: Vec<Rec> = vec![];
        if cfg.prior {
            let r = Rec::numbered(0, 2, 5);
            if let Err(e) = write_one(&p, &r.ram(), &*strategy(Alg::Plain, 0)) { bail!(K10, "{}", e) }
            recs.push(r);
        } else {
            std::fs::File::create(&p).expect("create");
        }
        let base = recs.len();
        let mut todo = vec![];
        for (i, k) in cfg.writes.iter().enumerate() {
            let r = Rec::numbered(i + 1, k.1, k.2);
            let rec = match r.record(k.3, k.3) { Ok(r) => r, Err(e) => bail!(K10, "making a record: {}", e) };
            recs.push(r);
            todo.push((i, rec, k.0));
        }
        let recs = Arc::new(recs);
        let file = Arc::new(BarcFile::new(&p));
        // records in the order of their offsets, known after each write
        let order: Arc<Mutex<Vec<(u64, usize)>>> = Default::default();
        let started = Arc::new(AtomicUsize::new(0));
        let mut h = Order::default();
        let per = todo.len().div_ceil(cfg.writers);
        let outcome = sys::with_handler(&mut h, || sched::run(cfg.preempt, || {
            let mut ws = vec![];
            let mut it = todo.into_iter();
            for _ in 0..cfg.writers {
                let mine: Vec<_> = it.by_ref().take(per).collect();
                let (file, order, started) = (file.clone(), order.clone(), started.clone());
                ws.push(thread::spawn(move || -> Result<(), String> {
                    for (i, rec, alg) in &mine {
                        started.fetch_add(1, SeqCst);
                        let o = {
                            let mut w = file.writer().map_err(|e| e.to_string())?;
                            w.write(rec, &*strategy(*alg, 0)).map_err(|e| e.to_string())?
                        };
                        sys::off(|| order.lock().unwrap().push((o, *i + base)));
                    }
                    Ok(())
                }));
            }
            let mut rs = vec![];
            for _ in 0..cfg.readers {
                let (file, order, recs, tn) = (file.clone(), order.clone(), recs.clone(), tn.clone());
                let (reads, single) = (cfg.reads, cfg.writers == 1);
                rs.push(thread::spawn(move || -> Result<Vec<(u64, usize)>, String> {
                    let mut rd = file.reader().map_err(|e| format!("reader: {}", e))?;
                    let mut got: Vec<(u64, usize)> = vec![];
                    for _ in 0..reads {
                        let committed = sys::off(|| order.lock().unwrap().clone());
                        let o = rd.offset();
                        match rd.read(&tn).map_err(|e| format!("read at {} while writing: {}", o, e))? {
                            Some(r) => {
                                // lazily read bodies are read here, with further scheduling
                                let i = recs.iter().position(|w| w.same_quick(K10, &r).is_ok());
                                let i = i.ok_or_else(|| format!("record at {} is none of those written", o))?;
                                if single && i != got.len() { return Err(format!("record {} when expecting {}", i, got.len())); }
                                got.push((o, i));
                            }
                            None => {
                                if rd.offset() != o { return Err(format!("offset moved from {} to {} at end of file", o, rd.offset())); }
                                // a record whose write had returned before must be seen
                                if base > 0 && got.is_empty() || committed.iter().any(|c| c.0 == o) {
                                    return Err(format!("end of file at {} where a record had been committed", o));
                                }
                            }
                        }
                    }
                    // remember where to go on
                    got.push((rd.offset(), usize::MAX));
                    Ok(got)
                }));
            }
            let w: Vec<_> = ws.into_iter().map(|h| h.join()).collect();
            let r: Vec<_> = rs.into_iter().map(|h| h.join()).collect();
            (w, r)
        }));
        observe(h.0);
        if let Some(m) = panicked() { bail!("panic", "panic: {}", m) }
        for w in outcome.0 {
            match w { Ok(Ok(())) => {}, Ok(Err(m)) => bail!(K10, "writer: {}", m), Err(_) => bail!("panic", "writer panicked") }
        }
        let mut all: Vec<(u64, usize)> = order.lock().unwrap().clone();
        if cfg.prior { all.push((0, 0)); }
        all.sort();
        let want: Vec<(u64, &Rec)> = all.iter().map(|(o, i)| (*o, &recs[*i])).collect();
        for r in outcome.1 {
            let mut got = match r { Ok(Ok(g)) => g, Ok(Err(m)) => bail!(K10, "{}", m), Err(_) => bail!("panic", "reader panicked") };
            let at = got.pop().unwrap_or((0, 0)).0;
            observe(got.len());
            ensure!(got.len() <= all.len() && got[..] == all[..got.len()], K10, "reader saw {:?}, archive has {:?}", got, all);
            // goes on where it was
            let mut rd = match file.reader() { Ok(r) => r, Err(e) => bail!(K10, "reader: {}", e) };
            if let Err(e) = rd.seek(at) { bail!(K10, "seek: {}", e) }
            for (_, w) in &want[got.len()..] {
                match next(K10, &mut rd, &tn)? { Some(r) => w.same_quick(K10, &r)?, None => bail!(K10, "record not seen after its write returned") }
            }
        }
        expect_all(K10, &p, &tn, &want)
    }
}

// ---------------------------------------------------------------- C11

const K11: &str = "writers";

#[derive(Clone, Debug)]
struct F11 { threads: Vec<Vec<(Alg, usize, usize)>>, hold: bool, preempt: u32, prior: bool, fail: bool }

fn cfgs11(t: Tier) -> Vec<F11> {
    let mut v = vec![];
    let ks = [(Alg::Plain, 0, 5), (Alg::Gzip, 3, 4), (Alg::Brotli, 0, 3), (Alg::Plain, 4, 0)];
    for prior in [false, true] {
        for hold in [false, true] {
            for a in 0..4 {
                for b in a..4 {
                    v.push(F11 { threads: vec![vec![ks[a]], vec![ks[b]]], hold, preempt: t.pick(if hold { 2 } else { 3 }, 4), prior, fail: false });
                }
            }
            for (a, b) in [(0, 1), (3, 2)] {
                v.push(F11 { threads: vec![vec![ks[a], ks[b]], vec![ks[b], ks[a]]], hold, preempt: t.pick(2, 3), prior, fail: false });
                v.push(F11 { threads: vec![vec![ks[a]], vec![ks[b]], vec![ks[a]]], hold, preempt: t.pick(1, 2), prior, fail: false });
                v.push(F11 { threads: vec![vec![ks[a]], vec![ks[b]]], hold, preempt: t.pick(1, 2), prior, fail: true });
            }
        }
    }
    v
}
static CACHE11: Cache<F11> = Cache::new();

/// Fails one chosen write call with an error
struct OneFault { left: usize, failed: bool, order: Vec<u8> }
impl sys::Handler for OneFault {
    fn before(&mut self, ev: &sys::Ev<'_>) -> sys::Act {
        if self.left > 0 && ev.op == sys::Op::Write && flip() {
            self.left -= 1;
            self.failed = true;
            tr!("    fault in T{}", sched::me());
            return sys::Act::Err(libc::ENOSPC);
        }
        sys::Act::Pass
    }
    fn after(&mut self, ev: &sys::Ev<'_>, _r: isize) { self.order.push(sched::me() as u8 * 16 + ev.op as u8); }
}

impl Check for C11 {
    fn id(&self) -> &'static str { "C11" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("{} configurations of two or three threads writing one or two records each by writers of one archive handle (a writer per record, or kept for several; also with one failing write call); all interleavings of file system calls and lock operations with up to {} preemptions; the archive must hold exactly the records written, none overlapping, and no schedule may block for ever", cfgs11(t).len(), t.pick(3, 4))
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["code between file system calls and lock operations is taken as atomic"]
    }
    fn configs(&self, t: Tier) -> usize { CACHE11.get(t, cfgs11).len() }
    fn describe(&self, t: Tier, c: usize) -> String { format!("{:?}", CACHE11.get(t, cfgs11)[c]) }
    fn run(&self, t: Tier, c: usize) -> Res {
        let cfg = CACHE11.get(t, cfgs11)[c].clone();
        let tn = tune(100, 1000, 64, 64, &dir("t"));
        let p = fresh("c11.barc");
        let mut all: Vec<(u64, Rec)> = vec![];
        if cfg.prior {
            let r = Rec::numbered(0, 2, 5);
            match write_one(&p, &r.ram(), &*strategy(Alg::Plain, 0)) { Ok(o) => all.push((o, r)), Err(e) => bail!(K11, "{}", e) }
        }
        let file = Arc::new(BarcFile::new(&p));
        let mut h = OneFault { left: cfg.fail as usize, failed: false, order: vec![] };
        let out = sys::with_handler(&mut h, || sched::run(cfg.preempt, || {
            let hs: Vec<_> = cfg.threads.iter().enumerate().map(|(ti, ks)| {
                let (ks, file, hold) = (ks.clone(), file.clone(), cfg.hold);
                thread::spawn(move || -> Vec<(Result<u64, String>, Rec)> {
                    let mut done = vec![];
                    let recs: Vec<Rec> = sys::off(|| ks.iter().enumerate().map(|(i, k)| Rec::numbered(10 * (ti + 1) + i, k.1, k.2)).collect());
                    if hold {
                        match file.writer() {
                            Ok(mut w) => for (r, k) in recs.into_iter().zip(&ks) {
                                let x = w.write(&r.ram(), &*strategy(k.0, 0)).map_err(|e| e.to_string());
                                done.push((x, r));
                            },
                            Err(e) => done.push((Err(e.to_string()), Rec::default())),
                        }
                    } else {
                        for (r, k) in recs.into_iter().zip(&ks) {
                            let x = file.writer().and_then(|mut w| w.write(&r.ram(), &*strategy(k.0, 0))).map_err(|e| e.to_string());
                            done.push((x, r));
                        }
                    }
                    done
                })
            }).collect();
            hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
        }));
        observe(h.order.clone());
        if let Some(m) = panicked() { bail!("panic", "panic: {}", m) }
        let mut errs = 0;
        for th in out {
            match th {
                Ok(l) => for (o, r) in l {
                    match o { Ok(o) => all.push((o, r)), Err(e) => { ensure!(h.failed, K11, "write failed: {}", e); errs += 1; } }
                },
                Err(_) => bail!("panic", "thread panicked"),
            }
        }
        ensure!(errs <= 1, K11, "{} writes failed by one fault", errs);
        ensure!(h.failed == (errs > 0), K11, "the failure was not reported");
        all.sort_by_key(|x| x.0);
        observe(all.iter().map(|x| x.0).collect::<Vec<_>>());
        let want: Vec<(u64, &Rec)> = all.iter().map(|x| (x.0, &x.1)).collect();
        if want.is_empty() { return Ok(()); }
        expect_all(K11, &p, &tn, &want)?;
        expect_at(K11, &p, &tn, &want)
    }
}
