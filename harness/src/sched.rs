//! Controlled scheduler: real threads, only one of which runs at a time.
//! Which one is decided, at every scheduling point, by the chooser.
//!
//! Scheduling points are: every file system call on a tracked file, futex
//! wait and wake, thread creation, thread end, sched_yield.

use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::SeqCst};

use libc::{c_int, c_long, c_void};

use crate::engine::{choose, engine_fail, fatal_viol};
use crate::sys::raw6;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St { Run, Futex(usize, u32, bool), Join(usize), AllDone, Done }

struct Th { st: St, handle: u64, timed_out: bool, seq: u64 }

struct S {
    th: Vec<Th>,
    cur: usize,
    preempt_left: u32,
    switches: u64,
    seq: u64,
}

struct G(UnsafeCell<Option<S>>);
unsafe impl Sync for G {}
static STATE: G = G(UnsafeCell::new(None));
static ACTIVE: AtomicBool = AtomicBool::new(false);

const MAXT: usize = 32;
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU32 = AtomicU32::new(0);
static BATON: [AtomicU32; MAXT] = [Z; MAXT];

thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }

fn st() -> &'static mut S { unsafe { (*STATE.0.get()).as_mut().expect("scheduler") } }

pub fn active() -> bool { ACTIVE.load(SeqCst) && ME.with(|m| m.get()) != usize::MAX }

/// Run `f` as controlled thread 0, with at most `preemptions` preemptions.
/// Returns after every thread started has ended.
pub fn run<T>(preemptions: u32, f: impl FnOnce() -> T) -> T {
    for b in &BATON { b.store(0, SeqCst); }
    unsafe {
        *STATE.0.get() = Some(S {
            th: vec![Th { st: St::Run, handle: 0, timed_out: false, seq: 0 }],
            cur: 0, preempt_left: preemptions, switches: 0, seq: 0 });
    }
    ME.with(|m| m.set(0));
    ACTIVE.store(true, SeqCst);
    crate::sys::set_armed(true);
    struct Fin;
    impl Drop for Fin {
        fn drop(&mut self) {
            crate::sys::set_armed(false);
            let s = st();
            if s.th[1..].iter().any(|t| t.st != St::Done) {
                s.th[0].st = St::AllDone;
                switch();
            }
            ACTIVE.store(false, SeqCst);
            ME.with(|m| m.set(usize::MAX));
        }
    }
    let fin = Fin;
    let t = f();
    drop(fin);
    t
}

/// Change the number of preemptions still allowed
pub fn set_preemptions(n: u32) { st().preempt_left = n; }

pub fn me() -> usize { ME.with(|m| m.get()) }

pub fn register() -> usize {
    let s = st();
    let id = s.th.len();
    if id >= MAXT { engine_fail("too many threads") }
    s.th.push(Th { st: St::Run, handle: 0, timed_out: false, seq: 0 });
    id
}

pub fn set_handle(id: usize, h: u64) { st().th[id].handle = h; }

fn wait_baton(id: usize) {
    unsafe {
        while BATON[id].swap(0, SeqCst) == 0 {
            raw6(libc::SYS_futex, BATON[id].as_ptr() as c_long,
                (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as c_long, 0, 0, 0, 0);
        }
    }
}

fn give_baton(id: usize) {
    unsafe {
        BATON[id].store(1, SeqCst);
        raw6(libc::SYS_futex, BATON[id].as_ptr() as c_long,
            (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as c_long, 1, 0, 0, 0);
    }
}

pub fn thread_begin(id: usize) {
    ME.with(|m| m.set(id));
    wait_baton(id);
}

pub fn thread_end() {
    let id = me();
    let s = st();
    s.th[id].st = St::Done;
    let h = id;
    for t in s.th.iter_mut() {
        if t.st == St::Join(h) { t.st = St::Run; }
    }
    if s.th[0].st == St::AllDone && s.th[1..].iter().all(|t| t.st == St::Done) {
        s.th[0].st = St::Run;
    }
    ME.with(|m| m.set(usize::MAX));
    let n = pick_next(id, false);
    s.cur = n;
    give_baton(n);
}

fn pick_next(cur: usize, deprioritise: bool) -> usize {
    let s = st();
    let mut en: Vec<usize> = vec![];
    if !deprioritise && s.th[cur].st == St::Run { en.push(cur); }
    for (i, t) in s.th.iter().enumerate() {
        if i != cur && t.st == St::Run { en.push(i); }
    }
    if en.is_empty() && deprioritise && s.th[cur].st == St::Run { return cur; }
    if en.is_empty() {
        // A timed wait may expire
        for (i, t) in s.th.iter().enumerate() {
            if let St::Futex(_, _, true) = t.st { en.push(i); }
        }
        if en.is_empty() {
            let d: Vec<String> = s.th.iter().enumerate()
                .map(|(i, t)| format!("T{}:{:?}", i, match t.st {
                    St::Futex(..) => "waiting on lock/condition", St::Join(_) => "joining",
                    St::AllDone => "main finished", St::Done => "done", St::Run => "run" })).collect();
            fatal_viol("deadlock", &format!("no thread can run: {}", d.join(", ")));
        }
        let i = en[choose(en.len())];
        s.th[i].st = St::Run;
        s.th[i].timed_out = true;
        return i;
    }
    let voluntary = en[0] != cur;
    if !voluntary && s.preempt_left == 0 { return cur; }
    let n = en[choose(en.len())];
    if !voluntary && n != cur { s.preempt_left -= 1; }
    if n != cur { s.switches += 1; }
    n
}

fn switch() { switch_d(false) }

fn switch_d(deprioritise: bool) {
    let id = me();
    let n = pick_next(id, deprioritise);
    if n != id {
        st().cur = n;
        crate::tr!("    -> T{}", n);
        give_baton(n);
        wait_baton(id);
    }
}

/// A scheduling point
pub fn point() {
    if !active() { return; }
    switch();
}

pub fn yield_now() { switch_d(true) }

pub fn join(handle: u64) {
    let s = st();
    if let Some(id) = s.th.iter().rposition(|t| t.handle == handle) {
        if s.th[id].st != St::Done {
            s.th[me()].st = St::Join(id);
            switch();
        }
    }
}

/// Emulated futex: None to pass to the kernel
pub fn futex(addr: *const u32, op: c_int, val: u32, timeout: *const c_void) -> Option<c_long> {
    let cmd = op & 0x7f;
    let a = addr as usize;
    match cmd {
        0 | 9 => {
            let cur = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
            if cur != val { return Some(-(libc::EAGAIN as c_long)); }
            let s = st();
            s.seq += 1;
            let id = me();
            s.th[id].seq = s.seq;
            s.th[id].timed_out = false;
            s.th[id].st = St::Futex(a, 0, !timeout.is_null());
            switch();
            if st().th[id].timed_out { return Some(-(libc::ETIMEDOUT as c_long)); }
            Some(0)
        }
        1 | 10 => {
            let s = st();
            let mut w: Vec<usize> = (0..s.th.len())
                .filter(|i| matches!(s.th[*i].st, St::Futex(x, _, _) if x == a)).collect();
            w.sort_by_key(|i| s.th[*i].seq);
            let mut n = 0;
            for i in w {
                if n >= val as i32 as i64 { break; }
                s.th[i].st = St::Run;
                n += 1;
            }
            switch();
            Some(n as c_long)
        }
        _ => engine_fail("unsupported futex operation"),
    }
}
