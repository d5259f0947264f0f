//! C29: concurrent transfers which share permits, a dispatch pool or a body
//! do not disturb each other.

use std::pin::Pin;
use std::task::{Context, Poll};

use blocking_permit::{deregister_dispatch_pool, register_dispatch_pool, DispatchPool, Semaphore};
use body_image::{BodyImage, BodySink};
use body_image_futio::{AsyncBodyImage, AsyncBodySink, BlockingPolicy, DispatchBodyImage, DispatchBodySink, FutioTunables,
    PermitBodyImage, PermitBodySink, SinkWrapper, SplitBodyImage, StreamWrapper, UniBodyBuf, YieldBodyImage};
use bytes::Bytes;
use futures_core::stream::Stream;

use crate::aio::Task;
use crate::engine::*;
use crate::sched;
use crate::sys;
use crate::util::*;
use crate::{bail, ensure, tr};

use super::c02::Cache;
use super::c18::{ftune, semaphore, track_files, Kind, Watch};

pub struct C29;
const K: &str = "concurrent-transfers";

/// A stream forwarded to a sink, as `StreamExt::forward` does
trait Xfer {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), String>>;
    fn body(self: Box<Self>) -> BodySink;
}
struct X<S, D, B> { src: S, dst: D, item: Option<B>, ended: bool }

impl<S, D, B> Xfer for X<S, D, B>
where S: Stream<Item = Result<B, std::io::Error>> + Unpin, D: SinkWrapper<B> + Unpin, D::Error: std::fmt::Display, B: Unpin
{
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), String>> {
        let es = |e: D::Error| e.to_string();
        loop {
            if self.item.is_some() {
                match Pin::new(&mut self.dst).poll_ready(cx).map_err(es)? { Poll::Ready(()) => {}, Poll::Pending => return Poll::Pending }
                if let Some(b) = self.item.take() { Pin::new(&mut self.dst).start_send(b).map_err(es)?; }
            }
            if self.ended { return Pin::new(&mut self.dst).poll_close(cx).map_err(es); }
            match Pin::new(&mut self.src).poll_next(cx).map_err(|e| e.to_string())? {
                Poll::Ready(Some(b)) => self.item = Some(b),
                Poll::Ready(None) => self.ended = true,
                Poll::Pending => {
                    let _ = Pin::new(&mut self.dst).poll_flush(cx).map_err(es)?;
                    return Poll::Pending;
                }
            }
        }
    }
    fn body(self: Box<Self>) -> BodySink { self.dst.into_inner() }
}

fn xfer(x: &One, src: BodyImage, st: FutioTunables, dst: BodySink, dt: FutioTunables) -> Box<dyn Xfer> {
    macro_rules! go { ($b:ty) => {{
        macro_rules! with { ($s:expr) => { match x.1 {
            Kind::Permit => Box::new(X { src: $s, dst: <PermitBodySink<$b> as SinkWrapper<$b>>::new(dst, dt), item: None, ended: false }) as Box<dyn Xfer>,
            Kind::Dispatch => Box::new(X { src: $s, dst: <DispatchBodySink<$b> as SinkWrapper<$b>>::new(dst, dt), item: None, ended: false }),
            _ => Box::new(X { src: $s, dst: <AsyncBodySink<$b> as SinkWrapper<$b>>::new(dst, dt), item: None, ended: false }),
        } } }
        match x.0 {
            Kind::Async | Kind::Own => with!(AsyncBodyImage::<$b>::new(src, st)),
            Kind::Permit => with!(PermitBodyImage::<$b>::new(src, st)),
            Kind::Dispatch => with!(DispatchBodyImage::<$b>::new(src, st)),
            Kind::Yield => with!(<YieldBodyImage<$b> as StreamWrapper>::new(src, st)),
            Kind::Split => with!(<SplitBodyImage<$b> as StreamWrapper>::new(src, st)),
        }
    }} }
    if x.2 { go!(UniBodyBuf) } else { go!(Bytes) }
}

/// Stream type, sink type and whether by UniBodyBuf
#[derive(Clone, Debug)]
struct One(Kind, Kind, bool);

#[derive(Clone, Debug)]
struct F { tasks: Vec<One>, make: Make, len: usize, shared: bool, ram: u64, permits: usize, pool: usize, stop: usize, faults: usize, preempt: u32, spurious: usize,
           /// Steps chosen, with more than three
           free: usize }

fn cfgs(t: Tier) -> Vec<F> {
    let thorough = t == Tier::Thorough;
    let mut ones = vec![];
    for s in [Kind::Permit, Kind::Dispatch, Kind::Yield, Kind::Split, Kind::Async] {
        for d in [Kind::Permit, Kind::Dispatch, Kind::Async] { ones.push((s, d)); }
    }
    let disp = |o: &One| o.0 == Kind::Dispatch || o.1 == Kind::Dispatch;
    let perm = |o: &One| o.0 == Kind::Permit || o.1 == Kind::Permit;
    let mut v = vec![];
    for (i, a) in ones.iter().enumerate() {
        for (j, b) in ones.iter().enumerate().skip(i) {
            let tasks = vec![One(a.0, a.1, i % 2 == 0), One(b.0, b.1, j % 2 == 1)];
            let d = tasks.iter().filter(|o| disp(o)).count();
            let p = tasks.iter().filter(|o| perm(o)).count();
            for make in [Make::File, Make::Slice, Make::Mapped] {
                if make != Make::File && !thorough && !(p == 2 && d == 0) { continue; }
                for shared in [false, true] {
                    for ram in [0, 2] {
                        let base = F { tasks: tasks.clone(), make, len: 3, shared, ram, permits: 1, pool: 1, stop: 0, faults: 0, preempt: 0, spurious: 0, free: 0 };
                        if d == 0 {
                            v.push(base.clone());
                            v.push(F { stop: 1, ..base.clone() });
                            if p > 0 { v.push(F { permits: 2, stop: 1, spurious: t.pick(0, 1), ..base.clone() }); }
                        } else {
                            // fewer items, as any file operation is a step of its own
                            v.push(F { len: t.pick(2, 3), ..base.clone() });
                            v.push(F { len: 2, preempt: 1, ..base.clone() });
                            v.push(F { len: 2, stop: 1, ..base.clone() });
                            if d == 2 && make == Make::File { v.push(F { len: 2, pool: 2, ..base.clone() }); }
                        }
                        if ram == 0 && make == Make::File { v.push(F { len: 2, faults: 1, ..base.clone() }); }
                    }
                }
            }
        }
    }
    // three at a time
    for (i, a) in ones.iter().enumerate() {
        for (j, b) in ones.iter().enumerate().skip(i) {
            for c in ones.iter().skip(j) {
                let tasks = vec![One(a.0, a.1, true), One(b.0, b.1, false), One(c.0, c.1, i % 2 == 0)];
                let d = tasks.iter().filter(|o| disp(o)).count();
                let p = tasks.iter().filter(|o| perm(o)).count();
                let simple = tasks.iter().all(|o| o.0 == Kind::Async || o.1 == Kind::Async);
                if !thorough && !(p == 3 && d == 0 || p == 0 && d == 3 && simple) { continue; }
                v.push(F { tasks, make: Make::File, len: 1, shared: true, ram: 0, permits: 1, pool: 1, stop: 0, faults: 0, preempt: 0, spurious: 0, free: t.pick(1, 2) });
            }
        }
    }
    // many at a time
    for o in &ones {
        for (permits, pool, len) in [(1, 1, 4), (3, t.pick(1, 2), 2)] {
            let n = if disp(&One(o.0, o.1, true)) { 8 } else { 20 };
            let tasks: Vec<One> = (0..n).map(|i| One(o.0, o.1, i % 2 == 0)).collect();
            v.push(F { tasks, make: Make::File, len, shared: permits == 1, ram: permits as u64 % 3, permits, pool, stop: 0, faults: 0, preempt: 0, spurious: 0, free: t.pick(1, 2) });
        }
    }
    let tasks: Vec<One> = ones.iter().map(|o| One(o.0, o.1, o.0 == o.1)).collect();
    v.push(F { tasks, make: Make::File, len: 2, shared: true, ram: 0, permits: 1, pool: 1, stop: 0, faults: 0, preempt: 0, spurious: 0, free: t.pick(1, 2) });
    v
}
static CACHE: Cache<F> = Cache::new();

enum State { Running(Box<dyn Xfer>), Done(BodySink), Failed(String), Dropped }

fn executor(f: &F, sem: &'static Semaphore, mut xs: Vec<Box<dyn Xfer>>) -> Result<Vec<State>, Viol> {
    let mut held = vec![];
    let permits = f.tasks.iter().any(|o| o.0 == Kind::Permit || o.1 == Kind::Permit);
    for _ in 0..if permits { choose(f.permits + 1) } else { 0 } { if let Ok(p) = sem.try_acquire() { held.push(p); } }
    tr!("  others hold {} permits", held.len());
    // (wake-ups seen, not yet polled)
    let mut tasks: Vec<(State, Task, u64, bool)> = xs.drain(..).map(|x| (State::Running(x), Task::new(), 0, true)).collect();
    let (mut stop, mut spurious, mut steps) = (f.stop, f.spurious, 0);
    loop {
        let live: Vec<usize> = (0..tasks.len()).filter(|&i| matches!(tasks[i].0, State::Running(_))).collect();
        if live.is_empty() { break; }
        steps += 1;
        ensure!(steps < 300, K, "no end after {} steps", steps);
        let due: Vec<usize> = live.iter().cloned().filter(|&i| tasks[i].3 || tasks[i].1.wakes() > tasks[i].2).collect();
        // what may happen next
        #[derive(Clone, Copy)]
        enum Next { Poll(usize), Release, Drop(usize), Wait }
        let mut next: Vec<Next> = due.iter().map(|&i| Next::Poll(i)).collect();
        if !held.is_empty() { next.push(Next::Release); }
        let busy = f.tasks.iter().any(|o| o.0 == Kind::Dispatch || o.1 == Kind::Dispatch);
        if next.is_empty() && busy { next.push(Next::Wait); }
        ensure!(!next.is_empty(), K, "{} of {} transfers are pending, none was woken though no permit is held by others", live.len(), tasks.len());
        if stop > 0 { next.extend(live.iter().map(|&i| Next::Drop(i))); }
        if spurious > 0 { next.extend(live.iter().filter(|i| !due.contains(i)).map(|&i| Next::Poll(i))); }
        // with many, in turn after the first few steps
        let c = if tasks.len() <= 3 || steps <= f.free { choose(next.len()) } else { steps % next.len() };
        match next[c] {
            Next::Poll(i) => {
                if !due.contains(&i) { spurious -= 1; }
                let t = &mut tasks[i];
                t.2 = t.1.wakes();
                t.3 = false;
                let r = match &mut t.0 { State::Running(x) => x.poll(&mut t.1.cx()), _ => continue };
                tr!("  poll {} -> {:?}", i, r);
                match r {
                    Poll::Ready(Ok(())) => if let State::Running(x) = std::mem::replace(&mut t.0, State::Dropped) { t.0 = State::Done(x.body()); },
                    Poll::Ready(Err(e)) => t.0 = State::Failed(e),
                    Poll::Pending => {}
                }
            }
            Next::Release => { tr!("  others release a permit"); drop(held.pop()); }
            Next::Drop(i) => { tr!("  drop {}", i); stop -= 1; tasks[i].0 = State::Dropped; }
            Next::Wait => {
                tr!("  wait");
                while !live.iter().any(|&i| tasks[i].1.wakes() > tasks[i].2) { std::thread::park(); }
            }
        }
    }
    drop(held);
    Ok(tasks.into_iter().map(|t| t.0).collect())
}

fn run(f: &F) -> Res {
    let n = f.tasks.len();
    let mut data = vec![];
    let mut bodies = vec![];
    let mut sinks = vec![];
    for i in 0..n {
        let at = if f.shared { 0 } else { i };
        data.push(pattern(4 + 30 * at, f.len));
        if f.shared && i > 0 { bodies.push(BodyImage::clone(&bodies[0])); } else {
            match make_body(f.make, &data[i]) { Ok(b) => bodies.push(b), Err(e) => bail!(K, "making a body: {}", e) }
        }
        sinks.push(if f.ram == 0 { match BodySink::with_fs(dir("t")) { Ok(s) => s, Err(e) => bail!(K, "making a sink: {}", e) } } else { BodySink::empty() });
    }
    track_files();
    let sem = semaphore(f.permits);
    let tune = |k: Kind, ram| ftune(ram, 64, 2, 2, match k { Kind::Permit => BlockingPolicy::Permit(sem), Kind::Dispatch => BlockingPolicy::Dispatch, _ => BlockingPolicy::Direct });
    let kept = if f.shared { Some(bodies[0].clone()) } else { None };
    let mut xs = vec![];
    for ((o, b), s) in f.tasks.iter().zip(bodies).zip(sinks) { xs.push(xfer(o, b, tune(o.0, 1000), s, tune(o.1, f.ram))); }
    let mut w = Watch::new(Kind::Async);
    w.faults = f.faults;
    let pooled = f.tasks.iter().any(|o| o.0 == Kind::Dispatch || o.1 == Kind::Dispatch);
    let r = sys::with_handler(&mut w, || {
        if !pooled { return executor(f, sem, xs); }
        sched::run(0, || {
            let pool = DispatchPool::builder().pool_size(f.pool).ignore_panics(true).create();
            register_dispatch_pool(pool.clone());
            sched::set_preemptions(f.preempt);
            let r = executor(f, sem, xs);
            sched::set_preemptions(0);
            drop(deregister_dispatch_pool());
            drop(pool);
            r
        })
    });
    observe(w.seen.clone());
    if let Some(m) = panicked() { bail!("panic", "panic: {}", m) }
    let states = r?;
    let free = sem.available_permits();
    ensure!(free == f.permits, K, "{} of {} permits available after all", free, f.permits);
    let mut failed = 0;
    for (i, s) in states.into_iter().enumerate() {
        match s {
            State::Done(s) => {
                observe(i);
                ensure!(s.len() == f.len as u64, K, "transfer {}: length {} of {}", i, s.len(), f.len);
                match s.prepare() { Ok(b) => check_image(K, &b, &data[i])?, Err(e) => bail!(K, "transfer {}: prepare: {}", i, e) }
            }
            State::Failed(e) => {
                failed += 1;
                ensure!(w.error || w.zero, K, "transfer {} failed: {}", i, e);
                ensure!(failed == 1, K, "{} transfers failed by one fault", failed);
            }
            _ => ensure!(f.stop > 0, K, "transfer {} not done", i),
        }
    }
    if w.error { ensure!(failed == 1 || f.stop > 0, K, "error was not reported"); }
    if let Some(b) = kept { check_image(K, &b, &data[0])?; }
    Ok(())
}

impl Check for C29 {
    fn id(&self) -> &'static str { "C29" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("{} configurations of 2 or 3 transfers, each from one of 5 stream types to one of 3 sink types, over own or one shared body, with 1 or 2 permits partly held by others at first, or a pool of 1 or 2 threads; all orders of polling the transfers which are due, of releasing permits, of dropping one transfer at any point or one fault in a file operation, and all schedules of the pool threads with up to {} preemptions; and of 8 to 20 transfers, chosen from at the first steps and then polled in turn", CACHE.get(t, cfgs).len(), t.pick(1, 2))
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["polled outside of a tokio runtime, where a permit runs its operation in place"] }
    fn configs(&self, t: Tier) -> usize { CACHE.get(t, cfgs).len() }
    fn describe(&self, t: Tier, c: usize) -> String { format!("{:?}", CACHE.get(t, cfgs)[c]) }
    fn run(&self, t: Tier, c: usize) -> Res { run(&CACHE.get(t, cfgs)[c]) }
}
