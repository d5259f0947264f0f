//! Fault injection at system calls: at every call on a tracked file, up to a
//! budget, the chooser picks a fault or normal behaviour.

use crate::engine::choose;
use crate::sys::{Act, Ev, Handler, Op};
use crate::tr;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Error, Short, Intr }

pub struct Faults {
    /// Faults which may still be injected
    pub budget: usize,
    /// Hard errors injected so far (not short or interrupted)
    pub errors: usize,
    pub shorts: usize,
    pub intrs: usize,
    pub events: usize,
    pub enable_short: bool,
    pub enable_intr: bool,
    pub enable_err: bool,
    /// Hard errors at most
    pub max_err: usize,
    /// Deny O_TMPFILE, so that a named file has to be used
    pub no_tmpfile: bool,
    /// Which files: None for all
    pub only: Option<fn(&Ev<'_>) -> bool>,
    pub opened: Vec<String>,
    pub last: Option<Op>,
}

impl Faults {
    pub fn new(budget: usize) -> Faults {
        Faults { budget, errors: 0, shorts: 0, intrs: 0, events: 0, enable_short: true, enable_intr: true,
                 enable_err: true, max_err: usize::MAX, no_tmpfile: false, only: None, opened: vec![], last: None }
    }
    pub fn none() -> Faults { Faults::new(0) }
}

impl Handler for Faults {
    fn before(&mut self, ev: &Ev<'_>) -> Act {
        self.events += 1;
        if ev.op == Op::Open {
            if self.no_tmpfile && (ev.len as i32 & libc::O_TMPFILE) == libc::O_TMPFILE {
                return Act::Err(libc::EOPNOTSUPP);
            }
            self.opened.push(ev.path.to_string());
        }
        if self.budget == 0 { return Act::Pass; }
        if let Some(f) = self.only { if !f(ev) { return Act::Pass; } }
        let err = self.enable_err && self.errors < self.max_err;
        // Alternatives to normal behaviour
        let mut alt: Vec<Act> = vec![];
        match ev.op {
            Op::Read | Op::Write => {
                if err { alt.push(Act::Err(if ev.op == Op::Write { libc::ENOSPC } else { libc::EIO })); }
                if self.enable_short {
                    if ev.len > 1 { alt.push(Act::Short(1)); }
                    if ev.len > 3 { alt.push(Act::Short(ev.len / 2)); }
                    if ev.len > 2 { alt.push(Act::Short(ev.len - 1)); }
                }
                if self.enable_intr { alt.push(Act::Err(libc::EINTR)); }
            }
            Op::Open => {
                if err { alt.push(Act::Err(libc::EMFILE)); }
                if self.enable_intr { alt.push(Act::Err(libc::EINTR)); }
            }
            Op::Seek | Op::Sync | Op::Trunc => if err { alt.push(Act::Err(libc::EIO)); },
            Op::Mmap => if err { alt.push(Act::Err(libc::ENOMEM)); },
            Op::Rename => if err { alt.push(Act::Err(libc::EIO)); },
            Op::Close | Op::Unlink | Op::Munmap => {}
        }
        if alt.is_empty() { return Act::Pass; }
        let c = choose(alt.len() + 1);
        if c == 0 { return Act::Pass; }
        self.budget -= 1;
        let a = alt[c - 1];
        match a {
            Act::Err(libc::EINTR) => self.intrs += 1,
            Act::Err(_) => self.errors += 1,
            _ => self.shorts += 1,
        }
        self.last = Some(ev.op);
        tr!("    fault: {:?} at {} len {} -> {:?}", ev.op, ev.off, ev.len, a);
        a
    }
    fn after(&mut self, ev: &Ev<'_>, ret: isize) {
        if crate::engine::tracing() {
            tr!("    {:?} fd {} off {} len {} = {}", ev.op, ev.fd, ev.off, ev.len, ret);
        }
    }
}
