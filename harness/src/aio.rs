//! Minimal task context for polling streams and sinks by hand.

use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Wake, Waker};

pub struct Flag(AtomicU64, std::thread::Thread);

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
        self.1.unpark();
    }
}

pub struct Task { flag: Arc<Flag>, waker: Waker }

impl Task {
    pub fn new() -> Task {
        let flag = Arc::new(Flag(AtomicU64::new(0), std::thread::current()));
        let waker = Waker::from(flag.clone());
        Task { flag, waker }
    }
    pub fn cx(&self) -> Context<'_> { Context::from_waker(&self.waker) }
    /// Block until woken more than `seen` times. Without a wake-up to come,
    /// the controlled scheduler finds a deadlock.
    pub fn wait(&self, seen: u64) { while self.wakes() <= seen { std::thread::park(); } }
    pub fn wakes(&self) -> u64 { self.flag.0.load(SeqCst) }
}
