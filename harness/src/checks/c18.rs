//! C18: streams deliver exactly the body. C19: sizes and ends are truthful.
//! C20: sinks store exactly what is sent. C21: the blocking policy is kept.

use std::cell::Cell;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll};

use blocking_permit::{deregister_dispatch_pool, register_dispatch_pool, DispatchPool, Semaphore};
use body_image::{BodyImage, BodySink};
use body_image_futio::{AsyncBodyImage, AsyncBodySink, Blocking, BlockingArbiter, BlockingPolicy, StatefulArbiter, DispatchBodyImage, DispatchBodySink, FutioTunables, FutioTuner,
    PermitBodyImage, PermitBodySink, SinkWrapper, SplitBodyImage, StreamWrapper, UniBodyBuf, YieldBodyImage};
use bytes::{Buf, Bytes};
use futures_core::stream::Stream;

use crate::aio::Task;
use crate::engine::*;
use crate::sched;
use crate::sys::{self, Act, Ev, Handler, Op};
use crate::util::*;
use crate::{bail, ensure, tr};

use super::c02::Cache;

pub struct C18;
pub struct C19;
pub struct C20;
pub struct C21;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind { Async, Yield, Split, Permit, Dispatch, Own }
const KINDS: [Kind; 6] = [Kind::Async, Kind::Yield, Kind::Split, Kind::Permit, Kind::Dispatch, Kind::Own];

// What an arbiter of our own was asked for and said in the current poll, and
// how often it may still refuse
#[derive(Clone, Copy, Default)]
struct Said { granted: bool, refused: bool, left: usize }
thread_local!(static SAID: Cell<Said> = const { Cell::new(Said { granted: false, refused: false, left: 0 }) });

/// Grants or refuses, as chosen
#[derive(Debug, Default)]
pub struct Own;
impl BlockingArbiter for Own {
    fn can_block(&mut self) -> bool {
        let mut s = SAID.with(|s| s.get());
        let yes = s.left == 0 || choose(2) == 0;
        tr!("    {}", if yes { "may block" } else { "may not block" });
        if yes { s.granted = true } else { s.refused = true; s.left -= 1 }
        SAID.with(|c| c.set(s));
        yes
    }
    fn state(&self) -> Blocking { Blocking::Void }
}
fn ask_anew() { SAID.with(|c| { let s = c.get(); c.set(Said { left: s.left, ..Said::default() }) }); }
fn said() -> Said { SAID.with(|s| s.get()) }

// ------------------------------------------------------------ streams

pub trait Keep { fn give(&self, f: &mut dyn FnMut(&[u8])); fn size(&self) -> usize; fn bytes(&self) -> Vec<u8>; fn rest(&mut self, n: usize) -> Vec<u8>; }
impl<B: Buf + AsRef<[u8]>> Keep for B {
    fn bytes(&self) -> Vec<u8> {
        if self.remaining() == self.chunk().len() && self.chunk() == self.as_ref() { self.chunk().to_vec() } else { b"inconsistent buffer".to_vec() }
    }
    fn rest(&mut self, n: usize) -> Vec<u8> { self.advance(n); self.chunk().to_vec() }
    fn size(&self) -> usize { self.remaining() }
    fn give(&self, f: &mut dyn FnMut(&[u8])) { f(self.chunk()) }
}
type Polled = Poll<Option<Result<Box<dyn Keep>, String>>>;

pub trait Src {
    fn poll(&mut self, cx: &mut Context<'_>) -> Polled;
    /// (lower, upper, end)
    fn hint(&self) -> Option<(u64, Option<u64>, bool)>;
    fn trailers(&mut self, cx: &mut Context<'_>) -> bool;
}
fn boxed<B: Buf + AsRef<[u8]> + 'static>(p: Poll<Option<Result<B, io::Error>>>) -> Polled {
    p.map(|o| o.map(|r| r.map(|b| Box::new(b) as Box<dyn Keep>).map_err(|e| e.to_string())))
}
struct AsBody<S>(S);
impl<S, B> Src for AsBody<S> where S: http_body::Body<Data = B, Error = io::Error> + Unpin, B: Buf + AsRef<[u8]> + 'static {
    fn poll(&mut self, cx: &mut Context<'_>) -> Polled { boxed(Pin::new(&mut self.0).poll_data(cx)) }
    fn hint(&self) -> Option<(u64, Option<u64>, bool)> { let h = self.0.size_hint(); Some((h.lower(), h.upper(), self.0.is_end_stream())) }
    fn trailers(&mut self, cx: &mut Context<'_>) -> bool { matches!(Pin::new(&mut self.0).poll_trailers(cx), Poll::Ready(Ok(None))) }
}
struct AsStream<S>(S);
impl<S, B> Src for AsStream<S> where S: Stream<Item = Result<B, io::Error>> + Unpin, B: Buf + AsRef<[u8]> + 'static {
    fn poll(&mut self, cx: &mut Context<'_>) -> Polled { boxed(Pin::new(&mut self.0).poll_next(cx)) }
    fn hint(&self) -> Option<(u64, Option<u64>, bool)> { None }
    fn trailers(&mut self, _cx: &mut Context<'_>) -> bool { true }
}

pub fn source(kind: Kind, uni: bool, as_body: bool, body: BodyImage, t: FutioTunables) -> Box<dyn Src> {
    macro_rules! mk { ($b:ty) => { match (kind, as_body) {
        (Kind::Async, true) => Box::new(AsBody(AsyncBodyImage::<$b>::new(body, t))) as Box<dyn Src>,
        (Kind::Async, false) => Box::new(AsStream(AsyncBodyImage::<$b>::new(body, t))),
        (Kind::Permit, true) => Box::new(AsBody(PermitBodyImage::<$b>::new(body, t))),
        (Kind::Permit, false) => Box::new(AsStream(PermitBodyImage::<$b>::new(body, t))),
        (Kind::Dispatch, true) => Box::new(AsBody(DispatchBodyImage::<$b>::new(body, t))),
        (Kind::Dispatch, false) => Box::new(AsStream(DispatchBodyImage::<$b>::new(body, t))),
        (Kind::Own, true) => Box::new(AsBody(AsyncBodyImage::<$b, Own>::new(body, t))),
        (Kind::Own, false) => Box::new(AsStream(AsyncBodyImage::<$b, Own>::new(body, t))),
        (Kind::Yield, _) => Box::new(AsStream(<YieldBodyImage<$b> as StreamWrapper>::new(body, t))),
        (Kind::Split, _) => Box::new(AsStream(<SplitBodyImage<$b> as StreamWrapper>::new(body, t))),
    } } }
    if uni { mk!(UniBodyBuf) } else { mk!(Bytes) }
}

pub fn semaphore(n: usize) -> &'static Semaphore {
    // A fresh one per execution, as one may be closed
    Box::leak(Box::new(Semaphore::new(n)))
}

pub fn ftune(ram: u64, bram: usize, bfs: usize, item: usize, policy: BlockingPolicy) -> FutioTunables {
    let mut t = FutioTuner::new();
    t.set_image(tune(ram, 1_000_000, bram, bfs, &dir("t"))).set_stream_item_size(item).set_blocking_policy(policy);
    t.finish()
}

/// Watches file operations, and optionally injects faults into reads or writes
pub struct Watch {
    pub kind: Kind,
    pub sem: Option<&'static Semaphore>,
    /// permits which should be available during an operation
    pub expect: usize,
    pub ops: usize,
    pub bad: Option<String>,
    pub faults: usize,
    pub errs: bool,
    pub error: bool,
    pub zero: bool,
    pub seen: Vec<u8>,
    /// polling is in progress (file operations outside are by others)
    pub polling: bool,
    pub gate: Option<Arc<AtomicBool>>,
}
impl Watch {
    pub fn new(kind: Kind) -> Watch {
        Watch { kind, sem: None, expect: 0, ops: 0, bad: None, faults: 0, errs: true, error: false, zero: false, seen: vec![], polling: false, gate: None }
    }
}
impl Handler for Watch {
    fn before(&mut self, ev: &Ev<'_>) -> Act {
        if matches!(ev.op, Op::Close | Op::Unlink | Op::Munmap) { return Act::Pass; }
        self.ops += 1;
        self.seen.push(ev.op as u8 + 32 * (sched::active() && sched::me() != 0) as u8);
        match self.kind {
            Kind::Permit => if let Some(s) = self.sem {
                if s.available_permits() != self.expect && self.bad.is_none() {
                    self.bad = Some(format!("{:?} with {} permits available, {} expected while one is held", ev.op, s.available_permits(), self.expect));
                }
            },
            Kind::Dispatch => if sched::me() == 0 && self.bad.is_none() {
                self.bad = Some(format!("{:?} on the polling thread", ev.op));
            } else if let Some(g) = &self.gate {
                if !g.load(SeqCst) && self.bad.is_none() { self.bad = Some(format!("{:?} by other than the pool thread", ev.op)); }
            },
            Kind::Own => if !said().granted && self.polling && self.bad.is_none() { self.bad = Some(format!("{:?} without being allowed to block", ev.op)); },
            _ => {}
        }
        if self.faults > 0 && matches!(ev.op, Op::Read | Op::Write) {
            let mut alt = vec![Act::Err(libc::EINTR)];
            if self.errs { alt.push(Act::Err(if ev.op == Op::Read { libc::EIO } else { libc::ENOSPC })); }
            if self.errs && ev.op == Op::Read && ev.len > 0 { alt.push(Act::Short(0)); }
            if ev.len > 1 { alt.push(Act::Short(1)); }
            if ev.len > 2 { alt.push(Act::Short(ev.len - 1)); }
            let c = choose(alt.len() + 1);
            if c > 0 {
                self.faults -= 1;
                let a = alt[c - 1];
                tr!("    fault {:?}", a);
                match a {
                    Act::Short(0) => self.zero = true,
                    Act::Err(e) if e != libc::EINTR => self.error = true,
                    _ => {}
                }
                return a;
            }
        }
        Act::Pass
    }
}

pub fn track_files() {
    for fd in 3..64 {
        unsafe {
            let mut st: libc::stat = std::mem::zeroed();
            if libc::fstat(fd, &mut st) == 0 && (st.st_mode & libc::S_IFMT) == libc::S_IFREG { sys::track(fd); }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum What { Bytes, Sizes, Policy }

#[derive(Clone, Debug)]
struct FS { kind: Kind, uni: bool, as_body: bool, make: Make, len: usize, bfs: usize, item: usize, faults: usize, preempt: u32, spurious: usize, permits: usize, stop: bool, gate: bool, storm: sys::Storm }

#[derive(Default)]
struct Out { items: Vec<Box<dyn Keep>>, got: Vec<u8>, error: Option<String>, ended: bool, dropped: bool }

/// Polls a stream to its end, with every decision about the surroundings
/// left to the chooser.
fn drive(what: What, k: &'static str, f: &FS, body: BodyImage, sem: Option<&'static Semaphore>, w: *mut Watch, t: FutioTunables) -> Result<Out, Viol> {
    let w = unsafe { &mut *w };
    let total = body.len();
    let ram = body.is_ram();
    let mut s = source(f.kind, f.uni, f.as_body, body, t);
    let mut o = Out::default();
    let mut task = Task::new();
    let mut held = vec![];
    let mut closed = false;
    let mut spurious = f.spurious;
    let mut last_item = false;
    let mut yields = 0;
    let mut polls = 0;
    if what == What::Sizes { if let Some(h) = s.hint() {
        ensure!(h.0 == total && h.1 == Some(total), k, "initial size hint {:?} for a body of {}", h, total);
    } }
    loop {
        polls += 1;
        ensure!(polls < 60 + 4 * total, k, "no end after {} polls", polls);
        // others take permits
        if let Some(sem) = sem { if !closed && o.got.len() < total as usize && (total < 1000 || polls < 7) {
            let n = choose(sem.available_permits() + 1);
            for _ in 0..n { match sem.try_acquire() { Ok(p) => held.push(p), Err(_) => break } }
            w.expect = (f.permits - held.len()).saturating_sub(1);
            if n > 0 { tr!("  others take {} permits", n); }
        } }
        let before = s.hint();
        // a released permit is handed on to a waiting stream right away
        let avail = sem.map(|_| f.permits - held.len());
        let wakes = task.wakes();
        let ops = w.ops;
        ask_anew();
        w.polling = true;
        let r = s.poll(&mut task.cx());
        w.polling = false;
        if f.kind == Kind::Own {
            ensure!(!said().refused || r.is_pending() && w.ops == ops, k, "went on though not allowed to block");
            ensure!(said().granted || ram || o.got.len() as u64 == total || said().refused, k, "delivered from a file without asking");
            ensure!(!ram || !said().refused, k, "a RAM body waits to be allowed to block");
        }
        if let Some(m) = &w.bad { if what == What::Policy { bail!(k, "{}", m) } }
        if what == What::Policy && f.kind == Kind::Permit && !closed {
            let sem = sem.expect("semaphore");
            let free = sem.available_permits();
            match &r {
                Poll::Ready(_) => {
                    ensure!(Some(free) == avail, k, "{} of {} permits available after a poll, {:?} expected", free, f.permits, avail);
                    ensure!(ram || total == 0 || o.got.len() as u64 == total || avail != Some(0), k, "delivered without a permit available");
                }
                Poll::Pending => ensure!(!ram, k, "a RAM body waits for a permit"),
            }
        }
        if what == What::Policy && f.kind == Kind::Dispatch {
            if ram { ensure!(r.is_ready(), k, "a RAM body is dispatched"); }
            if f.gate && polls == 1 && !ram && total > 0 {
                ensure!(r.is_pending(), k, "delivered though the pool is busy");
                ensure!(w.ops == ops, k, "file operation though the pool is busy");
                if let Some(g) = &w.gate { g.store(true, SeqCst); }
            }
        }
        match r {
            Poll::Ready(Some(Ok(it))) => {
                let b = it.bytes();
                tr!("  item {}", hx(&b));
                if what == What::Sizes {
                    if let Some(h) = before { ensure!(!h.2 || b.is_empty(), k, "delivered {} bytes after reporting the end", b.len()); }
                    if matches!(f.make, Make::File | Make::Slice) || f.kind == Kind::Split { ensure!(!b.is_empty(), k, "empty item"); }
                    if matches!(f.make, Make::File | Make::Slice) { ensure!(b.len() <= f.bfs, k, "item of {} bytes from a file, buffer size is {}", b.len(), f.bfs); }
                    if f.kind == Kind::Split { ensure!(b.len() <= f.item, k, "item of {} bytes, item size is {}", b.len(), f.item); }
                    if matches!(f.kind, Kind::Yield | Kind::Split) && !o.items.is_empty() { ensure!(yields == 1, k, "yielded {} times between items", yields); }
                }
                o.got.extend_from_slice(&b);
                o.items.push(it);
                last_item = true;
                yields = 0;
                ensure!(o.got.len() as u64 <= total, k, "delivered {} of {} bytes", o.got.len(), total);
                if what == What::Sizes { if let Some(h) = s.hint() {
                    let left = total - o.got.len() as u64;
                    ensure!(h.0 <= left && h.1.map_or(true, |u| u >= left), k, "size hint {:?} with {} of {} bytes still to come", h, left, total);
                } }
                if what == What::Sizes && o.got.len() as u64 == total {
                    if let Some(h) = s.hint() { ensure!(h.2, k, "end not reported after all {} bytes", total); }
                }
            }
            Poll::Ready(Some(Err(e))) => { tr!("  error {}", e); o.error = Some(e); break; }
            Poll::Ready(None) => {
                tr!("  end");
                // stays ended
                for _ in 0..2 {
                    match s.poll(&mut task.cx()) { Poll::Ready(None) => {}, _ => bail!(k, "not ended when polled again") }
                }
                ensure!(s.trailers(&mut task.cx()), k, "trailers");
                if what == What::Sizes { if let Some(h) = s.hint() { ensure!(h.2 || w.zero, k, "end not reported at the end"); } }
                o.ended = true;
                break;
            }
            Poll::Pending => {
                tr!("  pending");
                yields += 1;
                if what == What::Sizes { if let Some(h) = s.hint() {
                    let left = total - o.got.len() as u64;
                    ensure!(h.0 <= left && h.1.map_or(true, |u| u >= left), k, "size hint {:?} while pending with {} of {} bytes still to come", h, left, total);
                } }
                match f.kind {
                    Kind::Async => bail!(k, "direct stream is pending"),
                    Kind::Own => {
                        ensure!(said().refused, k, "pending though allowed to block");
                        if f.stop && flip() { o.dropped = true; tr!("  dropped"); break; }
                    }
                    Kind::Yield | Kind::Split => {
                        ensure!(last_item, k, "pending other than after an item");
                        ensure!(task.wakes() > wakes, k, "pending without a wake-up");
                        last_item = false;
                    }
                    Kind::Permit => {
                        ensure!(!held.is_empty(), k, "pending with all permits available");
                        let c = choose(2 + 2 * (spurious > 0) as usize + 2 * (f.stop as usize));
                        match c {
                            0 | 1 => {
                                // a permit is released, or all are
                                let n = if c == 0 { 1 } else { held.len() };
                                for _ in 0..n { drop(held.pop()); }
                                ensure!(task.wakes() > wakes, k, "not woken when a permit is released");
                            }
                            2 if spurious > 0 => spurious -= 1,
                            3 if spurious > 0 => { spurious -= 1; task = Task::new(); }
                            x if f.stop && x % 2 == 0 => { o.dropped = true; tr!("  dropped"); break; }
                            _ => {
                                if let Some(s) = sem { s.close(); }
                                closed = true;
                                ensure!(task.wakes() > wakes, k, "not woken by cancellation");
                            }
                        }
                        // expected again
                        w.expect = (f.permits - held.len()).saturating_sub(1);
                        if closed {
                            match s.poll(&mut task.cx()) {
                                Poll::Ready(Some(Err(e))) => { o.error = Some(e); o.dropped = true; break; }
                                _ => bail!(k, "cancellation not reported as an error"),
                            }
                        }
                    }
                    Kind::Dispatch => {
                        let c = choose(1 + 2 * (spurious > 0) as usize + f.stop as usize);
                        match c {
                            0 => task.wait(wakes),
                            1 if spurious > 0 => spurious -= 1,
                            2 if spurious > 0 => { spurious -= 1; task = Task::new(); }
                            _ => { o.dropped = true; tr!("  dropped"); break; }
                        }
                    }
                }
            }
        }
    }
    drop(s);
    drop(held);
    if what == What::Policy && !closed { if let Some(s) = sem {
        ensure!(s.available_permits() == f.permits, k, "{} of {} permits available after all", s.available_permits(), f.permits);
    } }
    Ok(o)
}

fn run_stream(what: What, k: &'static str, f: &FS) -> Res {
    let data = pattern(4, f.len);
    let body = match make_body(f.make, &data) { Ok(b) => b, Err(e) => bail!(k, "making the body: {}", e) };
    track_files();
    let sem = if f.kind == Kind::Permit { Some(semaphore(f.permits)) } else { None };
    let policy = match f.kind { Kind::Permit => BlockingPolicy::Permit(sem.expect("semaphore")), Kind::Dispatch => BlockingPolicy::Dispatch, _ => BlockingPolicy::Direct };
    let t = ftune(1000, 64, f.bfs, f.item, policy);
    let mut w = Watch::new(f.kind);
    w.faults = f.faults;
    w.sem = sem;
    SAID.with(|s| s.set(Said { left: f.spurious, ..Said::default() }));
    // Whether another handle on the body is around
    let keep = if f.faults == 0 && what == What::Bytes { choose(2) == 1 } else { true };
    let (kept, body) = if keep { (Some(body.clone()), body) } else { (None, body) };
    let wp: *mut Watch = &mut w;
    let r = sys::with_storm(f.storm, || sys::with_handler(&mut w, || with_env(f.kind, f.preempt, f.gate, unsafe { &mut *wp }, || drive(what, k, f, body, sem, wp, t))));
    observe((w.seen.len(), w.seen.clone()));
    if let Some(m) = panicked() { bail!("panic", "panic: {}", m) }
    let mut o = r?;
    observe((o.got.len(), o.ended, o.error.is_some(), o.items.len()));
    if what != What::Policy {
        ensure!(data.starts_with(&o.got), k, "content: {}", first_diff(&o.got, &data));
        if o.error.is_some() {
            ensure!(w.error || w.zero || o.dropped, k, "failed: {}", o.error.unwrap_or_default());
        } else if !o.dropped {
            ensure!(o.got.len() == data.len(), k, "ended without error after {} of {} bytes", o.got.len(), data.len());
            ensure!(!w.error, k, "error of a read was not reported");
        }
        // items are still valid, all else being gone
        if let Some(b) = kept { if !o.dropped { check_image(k, &b, &data)?; } }
        let mut at = 0;
        for it in &mut o.items {
            let b = it.bytes();
            ensure!(data[at..].starts_with(&b), k, "item at {} changed", at);
            let n = b.len() / 2;
            ensure!(it.rest(n) == b[n..], k, "item at {} after advancing", at);
            at += b.len();
        }
    }
    Ok(())
}

/// Run within a controlled scheduler and with a dispatch pool, if needed
pub fn with_env<T>(kind: Kind, preempt: u32, gated: bool, w: &mut Watch, f: impl FnOnce() -> T) -> T {
    if kind != Kind::Dispatch { return f(); }
    sched::run(0, || {
        let pool = DispatchPool::builder().pool_size(1).ignore_panics(true).create();
        if gated {
            let g = Arc::new(AtomicBool::new(false));
            w.gate = Some(g.clone());
            pool.spawn(Box::new(move || { while !g.load(SeqCst) { sched::yield_now(); } }));
        }
        register_dispatch_pool(pool.clone());
        sched::set_preemptions(preempt);
        let r = f();
        sched::set_preemptions(0);
        if let Some(g) = &w.gate { g.store(true, SeqCst); }
        w.kind = Kind::Async;
        drop(deregister_dispatch_pool());
        drop(pool);
        r
    })
}

const K18: &str = "stream-bytes";
fn cfgs18(t: Tier) -> Vec<FS> { stream_cfgs(t, What::Bytes) }
fn cfgs19(t: Tier) -> Vec<FS> { stream_cfgs(t, What::Sizes) }
fn cfgs21s(t: Tier) -> Vec<FS> { stream_cfgs(t, What::Policy) }
static CACHE18: Cache<FS> = Cache::new();
static CACHE19: Cache<FS> = Cache::new();
const K19: &str = "stream-sizes";

fn stream_cfgs(t: Tier, what: What) -> Vec<FS> {
    let mut v = vec![];
    let thorough = t == Tier::Thorough;
    for kind in KINDS {
        if what == What::Policy && !matches!(kind, Kind::Permit | Kind::Dispatch | Kind::Own) { continue; }
        for uni in [false, true] {
            for as_body in [false, true] {
                if as_body && matches!(kind, Kind::Yield | Kind::Split) { continue; }
                // larger bodies
                if what != What::Policy {
                    for make in MAKES {
                        for (len, bfs, item) in [(70_001, 65_536, 10_000), (140_000, 70_000, 65_537), (20_000, 8192, 8192)] {
                            v.push(FS { kind, uni, as_body, make, len, bfs, item, faults: 0, preempt: 0, spurious: 0, permits: 1, stop: false, gate: false, storm: sys::CALM });
                        }
                    }
                }
                // every read interrupted many times, or of few bytes
                if what == What::Bytes {
                    for make in [Make::File, Make::Slice] {
                        for (len, bfs) in [(5, 2), (9, 64), (300, 200)] {
                            for storm in sys::STORMS {
                                if len == 300 && storm.1 > 0 && matches!(kind, Kind::Permit | Kind::Dispatch) { continue; }
                                v.push(FS { kind, uni, as_body, make, len, bfs, item: 3, faults: 0, preempt: 0, spurious: 0, permits: 1, stop: false, gate: false, storm });
                            }
                        }
                    }
                }
                // at and around multiples of common buffer sizes
                if what != What::Policy {
                    for make in MAKES {
                        for len in [4096, 8191, 8192, 65_536, 65_537, 131_072] {
                            for (bfs, item) in [(4096, 8192), (8192, 4096), (65_536, 65_536)] {
                                v.push(FS { kind, uni, as_body, make, len, bfs, item, faults: 0, preempt: 0, spurious: 0, permits: 1, stop: false, gate: false, storm: sys::CALM });
                            }
                        }
                    }
                }
                for make in MAKES {
                    let lens: Vec<usize> = if kind == Kind::Dispatch && !thorough { vec![0, 1, 5] } else { vec![0, 1, 2, 5, 9] };
                    for &len in &lens {
                        let fsizes: Vec<usize> = if matches!(make, Make::File | Make::Slice) { vec![1, 2, 4, 5, 64] } else { vec![64] };
                        for &bfs in &fsizes {
                            if kind == Kind::Dispatch && !thorough && matches!(bfs, 2 | 5) { continue; }
                            let items: Vec<usize> = if kind == Kind::Split { vec![1, 2, 3, 5, 100] } else { vec![3] };
                            for &item in &items {
                                let base = FS { kind, uni, as_body, make, len, bfs, item, faults: 0, preempt: t.pick(2, 4), spurious: t.pick(2, 3), permits: 1, stop: what == What::Policy, gate: false, storm: sys::CALM };
                                if kind == Kind::Permit {
                                    for permits in [1, 2] { if (len / bfs) * permits <= t.pick(5, 9) { v.push(FS { permits, ..base.clone() }); } }
                                    // dropped or cancelled while waiting
                                    if what == What::Bytes && len / bfs <= 2 { v.push(FS { stop: true, spurious: 0, ..base.clone() }); }
                                } else {
                                    if kind == Kind::Dispatch && len / bfs > t.pick(3, 5) { continue; }
                                    v.push(base.clone());
                                }
                                if what == What::Policy && kind == Kind::Dispatch { v.push(FS { gate: true, stop: false, ..base.clone() }); }
                                if matches!(make, Make::File | Make::Slice) && len > 0 && what != What::Policy {
                                    if kind == Kind::Permit && len / bfs > 2 { continue; }
                                    v.push(FS { faults: t.pick(1, 2), preempt: t.pick(0, 1), spurious: 0, ..base.clone() });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    v
}

/// Streams over bodies of 4 GiB and more, mostly holes
#[derive(Clone, Debug)]
struct Huge { kind: Kind, uni: bool, as_body: bool, start: u64, len: u64, map: bool, bfs: usize, full: bool }

fn huge_cfgs(t: Tier, what: What) -> Vec<Huge> {
    let mut v = vec![];
    for kind in KINDS {
        for uni in [false, true] {
            let as_body = !matches!(kind, Kind::Yield | Kind::Split);
            for map in [false, true] {
                // a map is copied to be given as `Bytes`
                if map && !uni { continue; }
                for (start, len) in [(0, 1u64 << 32), (0, (1 << 32) + 5000), (7, (1 << 32) + 1), (1 << 32, 9000)] {
                    for bfs in [4096, 1 << 20] {
                        v.push(Huge { kind, uni, as_body, start, len, map, bfs, full: false });
                    }
                }
            }
        }
    }
    for kind in KINDS {
        for uni in [false, true] {
            for map in [false, true] {
                for (start, len) in [(0, (1 << 20) + 1), (7, (3 << 20) + 5), (0, (16 << 20) + 1)] {
                    v.push(Huge { kind, uni, as_body: false, start, len, map, bfs: 1 << 16, full: true });
                }
            }
        }
    }
    if what == What::Bytes {
        v.push(Huge { kind: Kind::Async, uni: false, as_body: false, start: 7, len: (1 << 32) + 5000, map: false, bfs: 8 << 20, full: true });
        v.push(Huge { kind: Kind::Split, uni: true, as_body: false, start: 0, len: (1 << 32) + 5000, map: true, bfs: 8 << 20, full: true });
        if t == Tier::Thorough {
            for kind in KINDS { v.push(Huge { kind, uni: true, as_body: false, start: 0, len: (6 << 30) + 3, map: false, bfs: 8 << 20, full: true }); }
        }
    }
    v
}

fn run_huge(what: What, k: &'static str, h: &Huge) -> Res {
    use std::os::unix::fs::FileExt;
    use super::c01::{huge_byte, windows};
    let (start, len) = (h.start, h.len);
    let file = tmpfile();
    let fill = || -> io::Result<()> {
        file.set_len(start + len)?;
        for (p, n) in windows(len) {
            let d: Vec<u8> = (p..p + n as u64).map(huge_byte).collect();
            file.write_all_at(&d, start + p)?;
        }
        Ok(())
    };
    if let Err(e) = fill() { engine_fail(&format!("sparse file: {}", e)); }
    let mut body = if start > 0 {
        unsafe { BodyImage::from_read_slice(olio::fs::rc::ReadSlice::new(Arc::new(file), start, start + len)) }
    } else {
        unsafe { BodyImage::from_file(file, len) }
    };
    if h.map { if let Err(e) = body.mem_map() { bail!(k, "mem_map: {}", e) } }
    let sem = if h.kind == Kind::Permit { Some(semaphore(1)) } else { None };
    let policy = match h.kind { Kind::Permit => BlockingPolicy::Permit(sem.expect("semaphore")), Kind::Dispatch => BlockingPolicy::Dispatch, _ => BlockingPolicy::Direct };
    let t = ftune(1000, 64, h.bfs, h.bfs / 2, policy);
    SAID.with(|s| s.set(Said::default()));
    let mut w = Watch::new(Kind::Async);
    let zeros = vec![0u8; h.bfs.max(1 << 16)];
    let r = with_env(h.kind, 0, false, &mut w, || -> Res {
        let mut s = source(h.kind, h.uni, h.as_body, body, t);
        let mut at = 0u64;
        let mut items = 0;
        let task = Task::new();
        loop {
            if let (What::Sizes, Some(x)) = (what, s.hint()) {
                let left = len - at;
                ensure!(x.0 <= left && x.1.map_or(true, |u| u >= left), k, "size hint {:?} with {} of {} bytes still to come", x, left, len);
                ensure!(at > 0 || x.0 == left && x.1 == Some(left), k, "initial size hint {:?} for {} bytes", x, len);
                ensure!(!x.2 || left == 0, k, "end reported with {} bytes to come", left);
            }
            if items == 4 && !h.full { break; }
            match s.poll(&mut task.cx()) {
                Poll::Ready(Some(Ok(it))) => {
                    let n = it.size() as u64;
                    ensure!(n > 0 && n <= len - at, k, "item of {} bytes at {} of {}", n, at, len);
                    ensure!(n <= h.bfs as u64 || h.map && h.kind != Kind::Split, k, "item of {} bytes, buffer size is {}", n, h.bfs);
                    if n <= h.bfs.max(32 << 20) as u64 {
                        let mut b = it.bytes();
                        ensure!(b.len() as u64 == n, k, "inconsistent item at {}", at);
                        for (p, l) in windows(len) { for i in p..p + l as u64 { if i >= at && i < at + n {
                            let c = &mut b[(i - at) as usize];
                            ensure!(*c == huge_byte(i), k, "{} at {} of {}", *c, i, len);
                            *c = 0;
                        } } }
                        ensure!(b.chunks(zeros.len()).all(|b| *b == zeros[..b.len()]), k, "content at {} of {}", at, len);
                    }
                    at += n;
                    items += 1;
                }
                Poll::Ready(Some(Err(e))) => bail!(k, "failed at {} of {}: {}", at, len, e),
                Poll::Ready(None) => { ensure!(at == len, k, "ended after {} of {} bytes", at, len); break; }
                Poll::Pending => if h.kind == Kind::Dispatch { sched::yield_now() } else { ensure!(task.wakes() > 0, k, "pending without being woken") },
            }
        }
        observe((items, at));
        drop(s);
        Ok(())
    });
    if let Some(m) = panicked() { bail!("panic", "panic: {}", m) }
    r
}
static HUGE18: Cache<Huge> = Cache::new();
static HUGE19: Cache<Huge> = Cache::new();
fn huge18(t: Tier) -> Vec<Huge> { huge_cfgs(t, What::Bytes) }
fn huge19(t: Tier) -> Vec<Huge> { huge_cfgs(t, What::Sizes) }
fn in_space(f: impl FnOnce() -> Res) -> Res { with_file_limit(8 << 30, || with_space_limit(15 << 30, f)) }

impl Check for C18 {
    fn id(&self) -> &'static str { "C18" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("{} configurations: each of 6 stream types with both buffer types, polled as a stream and as a body, over bodies of up to 9 bytes in 6 states with 5 file buffer and 5 item sizes, of lengths around multiples of common buffer sizes, of 1 to 16 MiB, and of 4 GiB and more; all choices of when others hold and release permits, of spurious polls and changed wakers, of {} faults in file reads, and all schedules of the dispatch pool thread with up to {} preemptions; also with every read interrupted up to 40 times and of at most 1 or 3 bytes", CACHE18.get(t, cfgs18).len(), t.pick(1, 2), t.pick(2, 4))
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["polled outside of a tokio runtime, where a permit runs its operation in place"] }
    fn configs(&self, t: Tier) -> usize { HUGE18.get(t, huge18).len() + CACHE18.get(t, cfgs18).len() }
    fn describe(&self, t: Tier, c: usize) -> String {
        let h = HUGE18.get(t, huge18);
        if c < h.len() { format!("{:?}", h[c]) } else { format!("{:?}", CACHE18.get(t, cfgs18)[c - h.len()]) }
    }
    fn run(&self, t: Tier, c: usize) -> Res {
        let h = HUGE18.get(t, huge18);
        if c < h.len() { return in_space(|| run_huge(What::Bytes, K18, &h[c])); }
        run_stream(What::Bytes, K18, &CACHE18.get(t, cfgs18)[c - h.len()])
    }
}

impl Check for C19 {
    fn id(&self) -> &'static str { "C19" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("{} configurations: each of 6 stream types with both buffer types, over bodies of up to 9 bytes in 6 states with 5 file buffer and 5 item sizes, and of 4 GiB and more; size hint, end and item sizes checked at every step, for all choices of permits, polls and {} faults, and all schedules of the pool thread with up to {} preemptions", CACHE19.get(t, cfgs19).len(), t.pick(1, 2), t.pick(2, 4))
    }
    fn configs(&self, t: Tier) -> usize { HUGE19.get(t, huge19).len() + CACHE19.get(t, cfgs19).len() }
    fn describe(&self, t: Tier, c: usize) -> String {
        let h = HUGE19.get(t, huge19);
        if c < h.len() { format!("{:?}", h[c]) } else { format!("{:?}", CACHE19.get(t, cfgs19)[c - h.len()]) }
    }
    fn run(&self, t: Tier, c: usize) -> Res {
        let h = HUGE19.get(t, huge19);
        if c < h.len() { return in_space(|| run_huge(What::Sizes, K19, &h[c])); }
        run_stream(What::Sizes, K19, &CACHE19.get(t, cfgs19)[c - h.len()])
    }
}

// ------------------------------------------------------------ sinks

pub trait Dst {
    fn ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), String>>;
    fn send(&mut self, b: Item) -> Result<(), String>;
    fn flush(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), String>>;
    fn close(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), String>>;
    fn inner(self: Box<Self>) -> BodySink;
}
pub enum Item { B(Bytes), U(UniBodyBuf) }
trait FromItem: Sized { fn take(i: Item) -> Self; }
impl FromItem for Bytes { fn take(i: Item) -> Bytes { match i { Item::B(b) => b, Item::U(u) => u.into() } } }
impl FromItem for UniBodyBuf { fn take(i: Item) -> UniBodyBuf { match i { Item::B(b) => b.into(), Item::U(u) => u } } }

struct Snk<S, B>(S, std::marker::PhantomData<fn() -> B>);
impl<S, B> Dst for Snk<S, B> where B: FromItem, S: SinkWrapper<B> + Unpin, S::Error: std::fmt::Display {
    fn ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), String>> { Pin::new(&mut self.0).poll_ready(cx).map_err(|e| e.to_string()) }
    fn send(&mut self, b: Item) -> Result<(), String> { Pin::new(&mut self.0).start_send(B::take(b)).map_err(|e| e.to_string()) }
    fn flush(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), String>> { Pin::new(&mut self.0).poll_flush(cx).map_err(|e| e.to_string()) }
    fn close(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), String>> { Pin::new(&mut self.0).poll_close(cx).map_err(|e| e.to_string()) }
    fn inner(self: Box<Self>) -> BodySink { self.0.into_inner() }
}

pub fn sink(kind: Kind, uni: bool, body: BodySink, t: FutioTunables) -> Box<dyn Dst> {
    fn go<S, B>(body: BodySink, t: FutioTunables) -> Box<dyn Dst> where B: FromItem + 'static, S: SinkWrapper<B> + Unpin + 'static, S::Error: std::fmt::Display {
        Box::new(Snk::<S, B>(<S as SinkWrapper<B>>::new(body, t), std::marker::PhantomData))
    }
    match (kind, uni) {
        (Kind::Permit, false) => go::<PermitBodySink<Bytes>, Bytes>(body, t),
        (Kind::Permit, true) => go::<PermitBodySink<UniBodyBuf>, UniBodyBuf>(body, t),
        (Kind::Dispatch, false) => go::<DispatchBodySink<Bytes>, Bytes>(body, t),
        (Kind::Dispatch, true) => go::<DispatchBodySink<UniBodyBuf>, UniBodyBuf>(body, t),
        (Kind::Own, false) => go::<AsyncBodySink<Bytes, Own>, Bytes>(body, t),
        (Kind::Own, true) => go::<AsyncBodySink<UniBodyBuf, Own>, UniBodyBuf>(body, t),
        (_, false) => go::<AsyncBodySink<Bytes>, Bytes>(body, t),
        (_, true) => go::<AsyncBodySink<UniBodyBuf>, UniBodyBuf>(body, t),
    }
}

/// A mapped buffer over `b`, as a stream over a mapped body gives
fn mapped(b: &[u8]) -> Result<UniBodyBuf, String> {
    let body = make_body(Make::Mapped, b)?;
    let mut s = AsyncBodyImage::<UniBodyBuf>::new(body, ftune(1000, 64, 64, 64, BlockingPolicy::Direct));
    match Pin::new(&mut s).poll_next(&mut Task::new().cx()) {
        Poll::Ready(Some(Ok(u))) => Ok(u),
        _ => Err("no mapped buffer".into()),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Init { Empty, RamSome, File, FileSome }
const INITS: [Init; 4] = [Init::Empty, Init::RamSome, Init::FileSome, Init::File];

#[derive(Clone, Debug)]
struct FK { kind: Kind, uni: bool, init: Init, ram: u64, sends: usize, faults: usize, preempt: u32, spurious: usize, permits: usize, stop: bool, gate: bool, storm: sys::Storm, forms: bool, sizes: Vec<usize>, prefix: usize }

fn sink_cfgs(t: Tier, what: What) -> Vec<FK> {
    let mut v = vec![];
    for kind in [Kind::Async, Kind::Permit, Kind::Dispatch, Kind::Own] {
        if what == What::Policy && kind == Kind::Async { continue; }
        for uni in [false, true] {
            for init in INITS {
                for ram in [0u64, 3, 5, 100] {
                    let d = kind == Kind::Dispatch;
                    let base = FK { kind, uni, init, ram, sends: t.pick(2, 3), faults: 0, preempt: t.pick(1, 2), spurious: 0, permits: 1, stop: what == What::Policy, gate: false, storm: sys::CALM, forms: false, sizes: vec![2, 0, 3], prefix: 0 };
                    v.push(FK { forms: true, sends: 2, preempt: 0, sizes: vec![2, 0, 1, 3], ..base.clone() });
                    match kind {
                        Kind::Permit => {
                            v.push(FK { sends: t.pick(1, 2), spurious: 2, ..base.clone() });
                            // cancelled while waiting
                            if !base.stop { v.push(FK { sends: t.pick(2, 3), stop: true, sizes: vec![2, 3], ..base.clone() }); }
                            v.push(FK { sends: t.pick(1, 2), spurious: t.pick(0, 1), permits: 2, ..base.clone() });
                            v.push(FK { sends: t.pick(3, 4), sizes: vec![2, 3], ..base.clone() });
                        }
                        Kind::Dispatch => {
                            v.push(FK { sizes: vec![2, 3], ..base.clone() });
                            v.push(FK { sends: 1, preempt: t.pick(3, 5), spurious: t.pick(1, 2), ..base.clone() });
                        }
                        Kind::Own => v.push(FK { sends: t.pick(3, 4), spurious: t.pick(2, 3), sizes: vec![2, 0, 3], ..base.clone() }),
                        _ => v.push(FK { sends: t.pick(4, 5), sizes: vec![2, 0, 1, 3, 4], ..base.clone() }),
                    }
                    if d && what == What::Policy { v.push(FK { gate: true, sends: 1, stop: false, ..base.clone() }); }
                    if what != What::Policy {
                        v.push(FK { faults: t.pick(1, 2), sends: 2, preempt: t.pick(0, 1), spurious: 0, sizes: vec![2, 3], ..base.clone() });
                    }
                    // every write interrupted many times, or of few bytes
                    if what == What::Bytes && ram < 5 { for storm in sys::STORMS { v.push(FK { storm, sends: 2, preempt: 0, sizes: vec![5, 300], ..base.clone() }); } }
                    // after many others
                    if what == What::Bytes && !uni { v.push(FK { prefix: 30, sends: 1, sizes: vec![1, 20, 45], preempt: 0, ..base.clone() }); }
                    // several large buffers
                    if ram == 5 && !d { v.push(FK { sends: 2, sizes: vec![65_536, 8192, 4096, 65_535, 65_537], preempt: 0, ..base.clone() }); }
                    if ram == 5 { v.push(FK { sends: 1, sizes: vec![65_536, 8192], preempt: 0, ..base.clone() }); }
                    if ram == 5 { v.push(FK { sends: 2, sizes: vec![10_000, 9000], ..base.clone() }); }
                }
            }
        }
    }
    v
}

/// Outcome of waiting for the sink
enum Got { Ok, Dropped, Err(String) }

struct Env<'a> { f: &'a FK, what: What, k: &'static str, sem: Option<&'static Semaphore>, held: Vec<tokio::sync::SemaphorePermit<'static>>, closed: bool, spurious: usize, task: Task, needs: bool, polls: usize, quiet: bool }

impl<'a> Env<'a> {
    /// Poll until ready, with all that may happen in between.
    /// `outstanding`: a file operation is expected to be needed
    fn until(&mut self, s: &mut Box<dyn Dst>, w: &mut Watch, which: usize) -> Result<Got, Viol> {
        let (k, f) = (self.k, self.f);
        loop {
            self.polls += 1;
            ensure!(self.polls < 200 + 4 * f.prefix, k, "never ready");
            if let Some(sem) = self.sem { if !self.closed && !self.quiet {
                let n = choose(sem.available_permits() + 1);
                for _ in 0..n { match sem.try_acquire() { Ok(p) => self.held.push(p), Err(_) => break } }
                w.expect = (f.permits - self.held.len()).saturating_sub(1);
                if n > 0 { tr!("  others take {} permits", n); }
            } }
            let avail = self.sem.map(|_| f.permits - self.held.len());
            let wakes = self.task.wakes();
            let ops = w.ops;
            let cx = &mut self.task.cx();
            ask_anew();
            w.polling = true;
            let r = match which { 0 => s.ready(cx), 1 => s.flush(cx), _ => s.close(cx) };
            w.polling = false;
            if f.kind == Kind::Own {
                ensure!(!said().refused || r.is_pending() && w.ops == ops, k, "went on though not allowed to block");
                ensure!(said().granted || said().refused || !self.needs, k, "stored to a file without asking");
                ensure!(self.needs || !said().refused, k, "waits to be allowed to block, though no file operation is needed");
            }
            tr!("  {} -> {:?}", ["ready", "flush", "close"][which], r);
            if self.what == What::Policy {
                if let Some(m) = &w.bad { bail!(k, "{}", m) }
                if let (Some(sem), false, true) = (self.sem, self.closed, r.is_ready()) {
                    ensure!(Some(sem.available_permits()) == avail, k, "{} of {} permits available after a poll, {:?} expected", sem.available_permits(), f.permits, avail);
                }
                if !self.needs { ensure!(r.is_ready(), k, "waits though no file operation is needed"); }
                if self.needs && r.is_ready() && avail == Some(0) { bail!(k, "stored to a file without a permit") }
                if f.gate && !w.gate.as_ref().is_none_or(|g| g.load(SeqCst)) && self.needs {
                    ensure!(r.is_pending() && w.ops == ops, k, "stored to a file though the pool is busy");
                    if let Some(g) = &w.gate { g.store(true, SeqCst); }
                }
            }
            match r {
                Poll::Ready(Ok(())) => { self.needs = false; return Ok(Got::Ok); }
                Poll::Ready(Err(e)) => return Ok(Got::Err(e)),
                Poll::Pending => match f.kind {
                    Kind::Permit => {
                        ensure!(!self.held.is_empty(), k, "pending with all permits available");
                        let sp = self.spurious > 0;
                        let c = choose(2 + 2 * sp as usize + 2 * (f.stop as usize));
                        match c {
                            0 | 1 => {
                                let n = if c == 0 { 1 } else { self.held.len() };
                                for _ in 0..n { drop(self.held.pop()); }
                                ensure!(self.task.wakes() > wakes, k, "not woken when a permit is released");
                            }
                            2 if sp => self.spurious -= 1,
                            3 if sp => { self.spurious -= 1; self.task = Task::new(); }
                            x if x % 2 == 0 => { tr!("  dropped"); return Ok(Got::Dropped); }
                            _ => {
                                if let Some(s) = self.sem { s.close(); }
                                self.closed = true;
                                ensure!(self.task.wakes() > wakes, k, "not woken by cancellation");
                                let cx = &mut self.task.cx();
                                let r = match which { 0 => s.ready(cx), 1 => s.flush(cx), _ => s.close(cx) };
                                match r {
                                    Poll::Ready(Err(_)) => return Ok(Got::Dropped),
                                    r => bail!(k, "cancellation not reported as an error: {:?}", r),
                                }
                            }
                        }
                        w.expect = (f.permits - self.held.len()).saturating_sub(1);
                    }
                    Kind::Dispatch => {
                        let sp = self.spurious > 0;
                        match choose(1 + 2 * sp as usize + f.stop as usize) {
                            0 => self.task.wait(wakes),
                            1 if sp => self.spurious -= 1,
                            2 if sp => { self.spurious -= 1; self.task = Task::new(); }
                            _ => { tr!("  dropped"); return Ok(Got::Dropped); }
                        }
                    }
                    Kind::Own => {
                        ensure!(said().refused, k, "pending though allowed to block");
                        if f.stop && flip() { tr!("  dropped"); return Ok(Got::Dropped); }
                    }
                    _ => bail!(k, "direct sink is pending"),
                },
            }
        }
    }
}

fn drive_sink(what: What, k: &'static str, f: &FK, body: BodySink, have: &[u8], sem: Option<&'static Semaphore>, w: *mut Watch, t: FutioTunables) -> Result<(Option<BodySink>, Vec<u8>, Option<String>), Viol> {
    let w = unsafe { &mut *w };
    let mut in_ram = body.is_ram();
    let mut len = have.len();
    let mut sent: Vec<u8> = have.to_vec();
    let mut s = sink(f.kind, f.uni, body, t);
    let mut e = Env { f, what, k, sem, held: vec![], closed: false, spurious: f.spurious, task: Task::new(), needs: false, polls: 0, quiet: false };
    let mut err = None;
    let mut gone = false;
    let n = choose(f.sends + 1) + f.prefix;
    let mut i = 0;
    let end = loop {
        // ready to take an item
        if i == n { break choose(2) + 1; }
        e.quiet = i < f.prefix;
        match e.until(&mut s, w, 0)? { Got::Ok => {}, Got::Dropped => { gone = true; break 0 }, Got::Err(x) => { err = Some(x); break 0 } }
        let size = if i < f.prefix { [1, 3, 2][i % 3] } else { one(&f.sizes) };
        let b = pattern(100 + sent.len(), size);
        // given as plain bytes, a partly consumed buffer, or part of a map
        let item = sys::off(|| -> Result<Item, String> {
            let forms = if size == 0 || size > 100 || !f.forms { 1 } else if f.uni { 4 } else { 2 };
            Ok(match choose(forms) {
                0 => Item::B(Bytes::from(b.clone())),
                1 => { let mut x = Bytes::from([b"zz".to_vec(), b.clone()].concat()); x.advance(2); Item::B(x) }
                2 => Item::U(mapped(&b)?),
                _ => { let mut x = mapped(&[b"y".to_vec(), b.clone()].concat())?; x.advance(1); Item::U(x) }
            })
        });
        let item = match item { Ok(i) => i, Err(m) => bail!(k, "{}", m) };
        tr!("  send {} bytes", size);
        if let Err(x) = s.send(item) { err = Some(x); break 0; }
        sent.extend_from_slice(&b);
        len += size;
        if size > 0 && !(in_ram && len as u64 <= f.ram) { in_ram = false; e.needs = true; }
        i += 1;
        if i < n && i > f.prefix && flip() {
            match e.until(&mut s, w, 1)? { Got::Ok => {}, Got::Dropped => { gone = true; break 0 }, Got::Err(x) => { err = Some(x); break 0 } }
        }
    };
    if end > 0 {
        match e.until(&mut s, w, end)? {
            Got::Ok => {}
            Got::Dropped => gone = true,
            Got::Err(x) => err = Some(x),
        }
    }
    let closed = e.closed;
    let held = std::mem::take(&mut e.held);
    let out = if gone || err.is_some() { drop(s); None } else { Some(s.inner()) };
    drop(held);
    drop(e);
    if what == What::Policy && !closed { if let Some(s) = sem {
        ensure!(s.available_permits() == f.permits, k, "{} of {} permits available after all", s.available_permits(), f.permits);
    } }
    Ok((out, sent, err))
}

fn run_sink(what: What, k: &'static str, f: &FK) -> Res {
    let have = if matches!(f.init, Init::RamSome | Init::FileSome) { b"abc".to_vec() } else { vec![] };
    let mk = || -> Result<BodySink, String> {
        let e = |e: &dyn std::fmt::Display| e.to_string();
        let mut b = match f.init {
            Init::Empty => BodySink::empty(),
            Init::RamSome => BodySink::with_ram_buffers(2),
            Init::File | Init::FileSome => BodySink::with_fs(dir("t")).map_err(|x| e(&x))?,
        };
        if !have.is_empty() { b.write_all(have.clone()).map_err(|x| e(&x))?; }
        Ok(b)
    };
    let body = match mk() { Ok(b) => b, Err(e) => bail!(k, "making the sink: {}", e) };
    track_files();
    let sem = if f.kind == Kind::Permit { Some(semaphore(f.permits)) } else { None };
    let policy = match f.kind { Kind::Permit => BlockingPolicy::Permit(sem.expect("semaphore")), Kind::Dispatch => BlockingPolicy::Dispatch, _ => BlockingPolicy::Direct };
    let t = ftune(f.ram, 64, 64, 64, policy);
    let mut w = Watch::new(f.kind);
    w.faults = f.faults;
    w.sem = sem;
    SAID.with(|s| s.set(Said { left: f.spurious, ..Said::default() }));
    let wp: *mut Watch = &mut w;
    let r = sys::with_storm(f.storm, || sys::with_handler(&mut w, || with_env(f.kind, f.preempt, f.gate, unsafe { &mut *wp }, || drive_sink(what, k, f, body, &have, sem, wp, t))));
    observe(w.seen.clone());
    if let Some(m) = panicked() { bail!("panic", "panic: {}", m) }
    let (out, sent, err) = r?;
    observe((sent.len(), err.is_some(), out.is_some()));
    if let Some(e) = err {
        ensure!(w.error, k, "failed: {}", e);
        return Ok(());
    }
    ensure!(!w.error, k, "error of a write was not reported");
    if what == What::Policy { return Ok(()); }
    if let Some(s) = out {
        ensure!(s.len() == sent.len() as u64, k, "length {} after {} bytes sent", s.len(), sent.len());
        match s.prepare() {
            Ok(b) => check_image(k, &b, &sent)?,
            Err(e) => bail!(k, "prepare: {}", e),
        }
    }
    Ok(())
}

const K20: &str = "sink-bytes";
fn cfgs20(t: Tier) -> Vec<FK> { sink_cfgs(t, What::Bytes) }
static CACHE20: Cache<FK> = Cache::new();

/// A body grown beyond 4 GiB, up to its limit
pub fn grown_sink(k: &'static str, parts: &'static [usize], kind: Kind) -> Res {
    use super::c01::{check_grown, grown_part};
    in_space(|| sys::with_zeros(1 << 30, |z| {
        let len: u64 = parts.iter().map(|n| *n as u64).sum();
        let last = *parts.last().expect("parts") as u64;
        let sem = if kind == Kind::Permit { Some(semaphore(1)) } else { None };
        let policy = match kind { Kind::Permit => BlockingPolicy::Permit(sem.expect("semaphore")), Kind::Dispatch => BlockingPolicy::Dispatch, _ => BlockingPolicy::Direct };
        let ram = one(&[0, 100, 3 << 30, 1 << 32, len]);
        let less = one(&[0, 1, last]);
        let mut f = FutioTuner::new();
        f.set_image(tune(ram.min(len - less), len - less, 64, 64, &dir("t"))).set_blocking_policy(policy);
        let t = f.finish();
        let uni = flip();
        let mut w = Watch::new(Kind::Async);
        with_env(kind, 0, false, &mut w, || -> Res {
            let mut s = sink(kind, uni, BodySink::empty(), t);
            let task = Task::new();
            let wait = || if kind == Kind::Dispatch { crate::sched::yield_now() };
            let mut at = 0u64;
            let mut err = None;
            for n in parts {
                if let Err(e) = s.send(Item::B(grown_part(z, at, *n))) { bail!(k, "send: {}", e) }
                at += *n as u64;
                let r = loop { match s.flush(&mut task.cx()) { Poll::Ready(r) => break r, Poll::Pending => wait() } };
                if let Err(e) = r { err = Some(e); break; }
            }
            observe((ram, less, uni, at, err.is_some()));
            match err {
                Some(e) => ensure!(less > 0 && at == len, k, "failed at {} with a maximum of {}: {}", at, len - less, e),
                None => {
                    ensure!(less == 0, k, "{} bytes with a maximum of {}", len, len - less);
                    match s.inner().prepare() {
                        Ok(b) => {
                            ensure!(b.is_ram() == (len <= ram), k, "{} bytes in RAM {}, limit {}", len, b.is_ram(), ram);
                            check_grown(k, &b, parts)?;
                        }
                        Err(e) => bail!(k, "prepare: {}", e),
                    }
                }
            }
            Ok(())
        })
    }))
}

static GROWN: [(usize, Kind); 9] = [(0, Kind::Async), (1, Kind::Async), (2, Kind::Async), (3, Kind::Async), (4, Kind::Async), (0, Kind::Permit), (2, Kind::Permit), (0, Kind::Dispatch), (2, Kind::Dispatch)];

impl Check for C20 {
    fn id(&self) -> &'static str { "C20" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("{} configurations: each of 4 sink types with both buffer types, 4 initial bodies and 4 RAM limits; all sequences of up to {} sends of buffers of up to 5 sizes given whole, partly consumed or as part of a memory map, with or without flushes, ended by flush or close; all choices of when others hold and release permits, of spurious polls and changed wakers, of {} failed, short or interrupted writes, and all schedules of the pool thread with up to {} preemptions; also with every write interrupted up to 40 times and of at most 1 or 3 bytes; and bodies grown beyond 4 GiB, up to their limit", CACHE20.get(t, cfgs20).len(), t.pick(3, 4), t.pick(1, 2), t.pick(3, 5))
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["polled outside of a tokio runtime, where a permit runs its operation in place"] }
    fn configs(&self, t: Tier) -> usize { GROWN.len() + CACHE20.get(t, cfgs20).len() }
    fn describe(&self, t: Tier, c: usize) -> String {
        if c < GROWN.len() { format!("grown {:?}", GROWN[c]) } else { format!("{:?}", CACHE20.get(t, cfgs20)[c - GROWN.len()]) }
    }
    fn run(&self, t: Tier, c: usize) -> Res {
        if c < GROWN.len() { return grown_sink(K20, super::c01::GROW[GROWN[c].0], GROWN[c].1); }
        run_sink(What::Bytes, K20, &CACHE20.get(t, cfgs20)[c - GROWN.len()])
    }
}

// ------------------------------------------------------------ C21

const K21: &str = "blocking-policy";
#[derive(Clone, Debug)]
enum F21 { Stream(FS), Sink(FK), Stateful { make: Make, uni: bool } }
fn cfgs21(t: Tier) -> Vec<F21> {
    cfgs21s(t).into_iter().map(F21::Stream).chain(sink_cfgs(t, What::Policy).into_iter().map(F21::Sink))
        .chain(MAKES.iter().flat_map(|m| [false, true].map(|uni| F21::Stateful { make: *m, uni }))).collect()
}
static CACHE21: Cache<F21> = Cache::new();

/// An arbiter which records that blocking is needed never grants it by itself
fn stateful(make: Make, uni: bool) -> Res {
    let k = K21;
    let mut a = StatefulArbiter::default();
    let n = choose(4);
    ensure!(a.state() == Blocking::Void, k, "initial state {:?}", a.state());
    for _ in 0..n {
        if flip() { ensure!(!a.can_block(), k, "granted by itself"); ensure!(a.state() == Blocking::Pending, k, "state {:?} once asked", a.state()); }
        else { let s = a.state(); ensure!(a.state() == s, k, "state changed by looking"); }
    }
    let data = pattern(4, 5);
    let body = match make_body(make, &data) { Ok(b) => b, Err(e) => bail!(k, "making the body: {}", e) };
    track_files();
    let ram = body.is_ram();
    let mut w = Watch::new(Kind::Async);
    let t = ftune(1000, 64, 2, 64, BlockingPolicy::Direct);
    let mut s: Box<dyn Src> = if uni { Box::new(AsStream(AsyncBodyImage::<UniBodyBuf, StatefulArbiter>::new(body, t))) } else { Box::new(AsStream(AsyncBodyImage::<Bytes, StatefulArbiter>::new(body, t))) };
    let mut got = vec![];
    let task = Task::new();
    let r = sys::with_handler(&mut w, || -> Res {
        for _ in 0..=n {
            match s.poll(&mut task.cx()) {
                Poll::Pending => ensure!(!ram, k, "a RAM body waits to be allowed to block"),
                Poll::Ready(Some(Ok(b))) => { ensure!(ram, k, "delivered from a file without being allowed to block"); got.extend(b.bytes()); }
                Poll::Ready(None) => ensure!(ram && got == data, k, "ended after {}", hx(&got)),
                Poll::Ready(Some(Err(e))) => bail!(k, "failed: {}", e),
            }
        }
        Ok(())
    });
    observe((n, got.len(), w.ops));
    r?;
    ensure!(w.ops == 0, k, "{} file operations without being allowed to block", w.ops);
    Ok(())
}

impl Check for C21 {
    fn id(&self) -> &'static str { "C21" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("{} configurations of permit and dispatch streams and sinks, and ones asking an arbiter of their own; at every file system call the permits available, or the thread, are checked; permits are counted after every poll and at the end; all choices of when others hold and release permits, of spurious polls, dropping and closing the semaphore at every pending point, a busy pool, all answers of an arbiter with up to {} refusals, and all schedules of the pool thread with up to {} preemptions", CACHE21.get(t, cfgs21).len(), t.pick(2, 3), t.pick(3, 5))
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["polled outside of a tokio runtime, where a permit runs its operation in place", "cancellation of a dispatched operation is not reachable: a pool always runs what was queued"] }
    fn configs(&self, t: Tier) -> usize { CACHE21.get(t, cfgs21).len() }
    fn describe(&self, t: Tier, c: usize) -> String { format!("{:?}", CACHE21.get(t, cfgs21)[c]) }
    fn run(&self, t: Tier, c: usize) -> Res {
        match &CACHE21.get(t, cfgs21)[c] {
            F21::Stream(f) => run_stream(What::Policy, K21, f),
            F21::Sink(f) => run_sink(What::Policy, K21, f),
            F21::Stateful { make, uni } => stateful(*make, *uni),
        }
    }
}
