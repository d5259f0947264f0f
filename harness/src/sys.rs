//! Interposition on the C library calls through which the code under test
//! reaches files, locks and threads. Definitions in the executable take
//! precedence over those of libc, so every call made by std, tempfile,
//! memmap, olio, parking_lot... arrives here. On threads that aren't `armed`
//! calls pass straight through.

use std::cell::Cell;
use std::ffi::CStr;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};

use libc::{c_char, c_int, c_long, c_void, iovec, off_t, size_t, ssize_t, mode_t};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op { Open, Read, Write, Seek, Trunc, Sync, Mmap, Munmap, Close, Unlink, Rename }

#[derive(Debug)]
pub struct Ev<'a> {
    pub op: Op,
    pub fd: c_int,
    /// Identity of the open file (changes with every open)
    pub file: u32,
    /// Offset in the file for Read, Write; length for Trunc; -1 if n/a
    pub off: i64,
    pub len: usize,
    pub data: &'a [u8],
    pub path: &'a str,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act { Pass, Err(c_int), Short(usize) }

pub trait Handler {
    fn before(&mut self, _ev: &Ev<'_>) -> Act { Act::Pass }
    fn after(&mut self, _ev: &Ev<'_>, _ret: isize) {}
}

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
}

struct H(std::cell::UnsafeCell<Option<*mut dyn Handler>>);
unsafe impl Sync for H {}
static HANDLER: H = H(std::cell::UnsafeCell::new(None));

const MAXFD: usize = 4096;
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU32 = AtomicU32::new(0);
static FDS: [AtomicU32; MAXFD] = [Z; MAXFD]; // 0: not tracked, else file id
static NEXT_FILE: AtomicU32 = AtomicU32::new(1);
static CALLS: AtomicU64 = AtomicU64::new(0);
/// Interposed calls on one path before it counts as non-terminating
const CALL_LIMIT: u64 = 400_000;

pub fn armed() -> bool { ARMED.with(|a| a.get()) }
pub fn suspend() -> bool { ARMED.with(|a| a.replace(false)) }
pub fn resume(v: bool) { ARMED.with(|a| a.set(v)) }
pub fn set_armed(v: bool) { ARMED.with(|a| a.set(v)) }

/// Every read and write of a tracked file is interrupted so many times before
/// it takes place, and then transfers at most so many bytes (if not 0)
pub type Storm = (u32, usize);
pub const CALM: Storm = (0, 0);
pub const STORMS: [Storm; 4] = [(9, 0), (0, 1), (9, 1), (40, 3)];
static STORM: (AtomicU32, AtomicU32, AtomicU32) = (Z, Z, Z); // interruptions, bytes, interrupted so far

fn set_storm(s: Storm) {
    STORM.0.store(s.0, SeqCst);
    STORM.1.store(s.1 as u32, SeqCst);
    STORM.2.store(0, SeqCst);
}

pub fn with_storm<T>(s: Storm, f: impl FnOnce() -> T) -> T {
    set_storm(s);
    let t = f();
    set_storm(CALM);
    t
}

fn storm(ev: &Ev<'_>) -> Act {
    if !matches!(ev.op, Op::Read | Op::Write) { return Act::Pass; }
    let (intr, max) = (STORM.0.load(SeqCst), STORM.1.load(SeqCst) as usize);
    if STORM.2.fetch_add(1, SeqCst) < intr { return Act::Err(libc::EINTR); }
    STORM.2.store(0, SeqCst);
    if max > 0 && ev.len > max { Act::Short(max) } else { Act::Pass }
}

pub fn reset_thread() { set_armed(false); }

pub fn reset_all() {
    set_armed(false);
    unsafe { *HANDLER.0.get() = None; }
    for f in FDS.iter() { f.store(0, SeqCst); }
    NEXT_FILE.store(1, SeqCst);
    CALLS.store(0, SeqCst);
    set_storm(CALM);
}

/// Run `f` with calls of this thread reported to handler `h`.
pub fn with_handler<T>(h: &mut dyn Handler, f: impl FnOnce() -> T) -> T {
    struct Reset(bool, Option<*mut dyn Handler>);
    impl Drop for Reset {
        fn drop(&mut self) {
            set_armed(self.0);
            unsafe { *HANDLER.0.get() = self.1; }
        }
    }
    let h: *mut dyn Handler = unsafe { std::mem::transmute(h as *mut dyn Handler) };
    let prev = unsafe { (*HANDLER.0.get()).replace(h) };
    let _r = Reset(suspend(), prev);
    set_armed(true);
    f()
}

/// Harness code within an armed section
pub fn off<T>(f: impl FnOnce() -> T) -> T {
    let a = suspend();
    let t = f();
    resume(a);
    t
}

pub fn track(fd: c_int) -> u32 {
    if fd >= 0 && (fd as usize) < MAXFD {
        let id = NEXT_FILE.fetch_add(1, SeqCst);
        FDS[fd as usize].store(id, SeqCst);
        id
    } else { 0 }
}

fn file_of(fd: c_int) -> u32 {
    if fd >= 0 && (fd as usize) < MAXFD { FDS[fd as usize].load(SeqCst) } else { 0 }
}

fn interesting(p: &str) -> bool {
    if p.starts_with("/dev/shm") { return true; }
    !["/dev", "/proc", "/sys", "/etc", "/usr", "/lib"].iter().any(|x| p.starts_with(x))
}

fn call_count() {
    if CALLS.fetch_add(1, SeqCst) > CALL_LIMIT {
        crate::engine::fatal_viol("hang", "endless sequence of system calls");
    }
}

fn before(ev: &Ev<'_>) -> Act {
    let a = suspend();
    call_count();
    crate::sched::point();
    let r = unsafe { match *HANDLER.0.get() { Some(h) => (*h).before(ev), None => Act::Pass } };
    let r = if r == Act::Pass { storm(ev) } else { r };
    resume(a);
    r
}

fn after(ev: &Ev<'_>, ret: isize) {
    let a = suspend();
    unsafe { if let Some(h) = *HANDLER.0.get() { (*h).after(ev, ret) } }
    resume(a);
}

// ------------------------------------------------------------ raw calls

#[inline]
pub unsafe fn raw6(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

unsafe fn ret(r: c_long) -> c_long {
    if (-4095..0).contains(&r) { *libc::__errno_location() = -r as c_int; -1 } else { r }
}

unsafe fn fail(e: c_int) -> c_long { *libc::__errno_location() = e; -1 }

macro_rules! sc {
    ($n:expr $(, $a:expr)*) => { sc!(@ $n; [$($a as c_long),*]) };
    (@ $n:expr; [$($a:expr),*]) => {{
        let v = [$($a,)* 0, 0, 0, 0, 0, 0];
        raw6($n as c_long, v[0], v[1], v[2], v[3], v[4], v[5])
    }};
}

unsafe fn cur_off(fd: c_int) -> i64 {
    let fl = sc!(libc::SYS_fcntl, fd, libc::F_GETFL);
    if fl >= 0 && (fl as c_int & libc::O_APPEND) != 0 { return file_len(fd); }
    sc!(libc::SYS_lseek, fd, 0, libc::SEEK_CUR)
}

unsafe fn file_len(fd: c_int) -> i64 {
    let mut st: libc::stat = std::mem::zeroed();
    if sc!(libc::SYS_fstat, fd, &mut st as *mut _) < 0 { return -1; }
    st.st_size
}

fn pstr<'a>(p: *const c_char) -> &'a str {
    if p.is_null() { return ""; }
    unsafe { CStr::from_ptr(p) }.to_str().unwrap_or("?")
}

// ------------------------------------------------------------ open/close

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if !armed() { return ret(sc!(libc::SYS_openat, dirfd, path, flags, mode)) as c_int; }
    let p = pstr(path);
    if !interesting(p) { return ret(sc!(libc::SYS_openat, dirfd, path, flags, mode)) as c_int; }
    let ev = Ev { op: Op::Open, fd: -1, file: 0, off: -1, len: flags as usize, data: &[], path: p };
    match before(&ev) {
        Act::Err(e) => fail(e) as c_int,
        _ => {
            let r = sc!(libc::SYS_openat, dirfd, path, flags, mode);
            if r >= 0 { track(r as c_int); }
            after(&ev, r as isize);
            ret(r) as c_int
        }
    }
}

#[no_mangle] pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle] pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle] pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, path, flags, mode)
}
#[no_mangle] pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, path, flags, mode)
}

#[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let f = file_of(fd);
    if f != 0 {
        if armed() {
            let ev = Ev { op: Op::Close, fd, file: f, off: -1, len: 0, data: &[], path: "" };
            before(&ev);
            after(&ev, 0);
        }
        FDS[fd as usize].store(0, SeqCst);
    }
    ret(sc!(libc::SYS_close, fd)) as c_int
}

#[no_mangle] pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    let r = sc!(libc::SYS_dup, fd);
    inherit(fd, r);
    ret(r) as c_int
}

unsafe fn inherit(fd: c_int, r: c_long) {
    let f = file_of(fd);
    if r >= 0 && f != 0 && (r as usize) < MAXFD { FDS[r as usize].store(f, SeqCst); }
}

#[no_mangle] pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    let r = sc!(libc::SYS_fcntl, fd, cmd, arg);
    if cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC { inherit(fd, r); }
    ret(r) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}

// ------------------------------------------------------------ read/write

enum Pos { Cur, At(off_t) }

/// Memory which is all zeros: with it there, zeros written out become holes,
/// which read back the same
static ZEROS: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];

/// Run with so many zeros
pub fn with_zeros<T>(n: usize, f: impl FnOnce(&'static [u8]) -> T) -> T {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        if p == libc::MAP_FAILED { crate::engine::engine_fail("no address space for zeros"); }
        ZEROS[1].store(p as u64 + n as u64, SeqCst);
        ZEROS[0].store(p as u64, SeqCst);
        let r = f(std::slice::from_raw_parts(p as *const u8, n));
        ZEROS[0].store(0, SeqCst);
        ZEROS[1].store(0, SeqCst);
        libc::munmap(p, n);
        r
    }
}

/// All zeros. Pages never touched are, for a mapped file of the same `tmpfs`
/// as for other memory (no swap); reading a hole of such a file by way of a
/// map would fill it.
unsafe fn blank(b: u64, n: usize, z: u64, tmpfs: bool) -> bool {
    let same = |b: u64, n: u64| libc::memcmp(b as *const _, z as *const _, n as usize) == 0;
    let from = b & !4095;
    let end = b + n as u64;
    let mut v = [0u8; 260];
    if !tmpfs || sc!(libc::SYS_mincore, from, end - from, v.as_mut_ptr()) != 0 { return same(b, n as u64); }
    (0..(end - from + 4095) / 4096).all(|i| {
        let (x, y) = ((from + i * 4096).max(b), (from + (i + 1) * 4096).min(end));
        v[i as usize] & 1 == 0 || same(x, y - x)
    })
}

/// A write by blocks, with holes for those of zeros
unsafe fn write_sparse(fd: c_int, v: &iovec, pos: &Pos, z: u64) -> c_long {
    const BLOCK: usize = 1 << 20;
    let (base, n) = (v.iov_base as u64, v.iov_len.min(0x7fff_f000));
    let mut st: libc::stat = std::mem::zeroed();
    if sc!(libc::SYS_fstat, fd, &mut st as *mut libc::stat) < 0 { return -(libc::EIO as c_long); }
    let mut fs: libc::statfs = std::mem::zeroed();
    let tmpfs = libc::fstatfs(fd, &mut fs) == 0 && fs.f_type == libc::TMPFS_MAGIC;
    let append = sc!(libc::SYS_fcntl, fd, libc::F_GETFL) & libc::O_APPEND as c_long != 0;
    let start = match *pos { _ if append => st.st_size, Pos::Cur => cur_off(fd), Pos::At(o) => o };
    let mut at = 0;
    while at < n {
        // up to the end of a page, such that none belongs to two blocks
        let m = (BLOCK - ((base + at as u64) & 4095) as usize).min(n - at);
        let (b, off) = (base + at as u64, start + at as i64);
        let zero = b >= z && b < ZEROS[1].load(SeqCst) || blank(b, m, z, tmpfs);
        if zero {
            let r = if off < st.st_size { sc!(libc::SYS_fallocate, fd, libc::FALLOC_FL_PUNCH_HOLE | libc::FALLOC_FL_KEEP_SIZE, off, m) } else { 0 };
            if r < 0 { return r; }
            let end = off + m as i64;
            if end > st.st_size {
                let r = sc!(libc::SYS_ftruncate, fd, end);
                if r < 0 { return r; }
                st.st_size = end;
            }
            at += m;
        } else {
            let r = sc!(libc::SYS_pwrite64, fd, b, m, off);
            if r < 0 { return r; }
            at += r as usize;
            st.st_size = st.st_size.max(off + r);
        }
    }
    if let Pos::Cur = pos { let r = sc!(libc::SYS_lseek, fd, start + n as i64, libc::SEEK_SET); if r < 0 { return r; } }
    n as c_long
}

unsafe fn do_rw(write: bool, fd: c_int, iov: &[iovec], pos: Pos) -> ssize_t {
    let z = ZEROS[0].load(SeqCst);
    if z > 0 && write && iov.len() == 1 && iov[0].iov_len >= 4096 { return ret(write_sparse(fd, &iov[0], &pos, z)) as ssize_t; }
    let total: usize = iov.iter().map(|v| v.iov_len).sum();
    let go = |iov: &[iovec]| -> c_long {
        let (p, n) = (iov.as_ptr(), iov.len());
        match pos {
            Pos::Cur if iov.len() == 1 => sc!(if write { libc::SYS_write } else { libc::SYS_read },
                fd, iov[0].iov_base, iov[0].iov_len),
            Pos::Cur => sc!(if write { libc::SYS_writev } else { libc::SYS_readv }, fd, p, n),
            Pos::At(o) if iov.len() == 1 => sc!(if write { libc::SYS_pwrite64 } else { libc::SYS_pread64 },
                fd, iov[0].iov_base, iov[0].iov_len, o),
            Pos::At(o) => sc!(if write { libc::SYS_pwritev } else { libc::SYS_preadv }, fd, p, n, o, 0),
        }
    };
    let f = file_of(fd);
    if f == 0 || !armed() { return ret(go(iov)) as ssize_t; }
    let a = suspend();
    let mut data: Vec<u8> = vec![];
    if write {
        for v in iov {
            if v.iov_len > 0 {
                data.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
            }
        }
    }
    resume(a);
    let op = if write { Op::Write } else { Op::Read };
    // The position is taken after the scheduling point of `before`.
    let off = match pos { Pos::Cur => cur_off(fd), Pos::At(o) => o };
    let ev = Ev { op, fd, file: f, off, len: total, data: &data, path: "" };
    let act = before(&ev);
    let off = match pos { Pos::Cur => cur_off(fd), Pos::At(o) => o };
    let r = match act {
        Act::Err(e) => -(e as c_long),
        Act::Pass => go(iov),
        Act::Short(k) => {
            let a = suspend();
            let mut left = k.min(total);
            let mut iv: Vec<iovec> = vec![];
            for v in iov {
                let n = v.iov_len.min(left);
                iv.push(iovec { iov_base: v.iov_base, iov_len: n });
                left -= n;
                if left == 0 { break; }
            }
            resume(a);
            let r = if iv.is_empty() { 0 } else { go(&iv) };
            let a = suspend();
            drop(iv);
            resume(a);
            r
        }
    };
    let ev = Ev { op, fd, file: f, off, len: total, data: &data, path: "" };
    after(&ev, r as isize);
    let a = suspend();
    drop(data);
    resume(a);
    ret(r) as ssize_t
}

#[no_mangle] pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    do_rw(false, fd, &[iovec { iov_base: b, iov_len: n }], Pos::Cur)
}
#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    do_rw(true, fd, &[iovec { iov_base: b as *mut c_void, iov_len: n }], Pos::Cur)
}
#[no_mangle] pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    do_rw(false, fd, std::slice::from_raw_parts(v, n as usize), Pos::Cur)
}
#[no_mangle] pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    do_rw(true, fd, std::slice::from_raw_parts(v, n as usize), Pos::Cur)
}
#[no_mangle] pub unsafe extern "C" fn pread(fd: c_int, b: *mut c_void, n: size_t, o: off_t) -> ssize_t {
    do_rw(false, fd, &[iovec { iov_base: b, iov_len: n }], Pos::At(o))
}
#[no_mangle] pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, o: off_t) -> ssize_t {
    do_rw(false, fd, &[iovec { iov_base: b, iov_len: n }], Pos::At(o))
}
#[no_mangle] pub unsafe extern "C" fn pwrite(fd: c_int, b: *const c_void, n: size_t, o: off_t) -> ssize_t {
    do_rw(true, fd, &[iovec { iov_base: b as *mut c_void, iov_len: n }], Pos::At(o))
}
#[no_mangle] pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: off_t) -> ssize_t {
    do_rw(true, fd, &[iovec { iov_base: b as *mut c_void, iov_len: n }], Pos::At(o))
}
#[no_mangle] pub unsafe extern "C" fn preadv(fd: c_int, v: *const iovec, n: c_int, o: off_t) -> ssize_t {
    do_rw(false, fd, std::slice::from_raw_parts(v, n as usize), Pos::At(o))
}
#[no_mangle] pub unsafe extern "C" fn preadv64(fd: c_int, v: *const iovec, n: c_int, o: off_t) -> ssize_t {
    do_rw(false, fd, std::slice::from_raw_parts(v, n as usize), Pos::At(o))
}
#[no_mangle] pub unsafe extern "C" fn pwritev(fd: c_int, v: *const iovec, n: c_int, o: off_t) -> ssize_t {
    do_rw(true, fd, std::slice::from_raw_parts(v, n as usize), Pos::At(o))
}
#[no_mangle] pub unsafe extern "C" fn pwritev64(fd: c_int, v: *const iovec, n: c_int, o: off_t) -> ssize_t {
    do_rw(true, fd, std::slice::from_raw_parts(v, n as usize), Pos::At(o))
}

// Kernel side copies are refused on armed threads, so that data takes the
// read/write route which is controlled.
#[no_mangle] pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: size_t, f: u32) -> ssize_t {
    if armed() { return fail(libc::ENOSYS) as ssize_t; }
    ret(sc!(libc::SYS_copy_file_range, a, ao, b, bo, n, f)) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn sendfile(o: c_int, i: c_int, off: *mut i64, n: size_t) -> ssize_t {
    if armed() { return fail(libc::EINVAL) as ssize_t; }
    ret(sc!(libc::SYS_sendfile, o, i, off, n)) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut i64, n: size_t) -> ssize_t {
    sendfile(o, i, off, n)
}
#[no_mangle] pub unsafe extern "C" fn splice(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: size_t, f: u32) -> ssize_t {
    if armed() { return fail(libc::EINVAL) as ssize_t; }
    ret(sc!(libc::SYS_splice, a, ao, b, bo, n, f)) as ssize_t
}

// ------------------------------------------------------------ others

unsafe fn simple(op: Op, fd: c_int, off: i64, len: usize, go: impl FnOnce() -> c_long) -> c_long {
    let f = file_of(fd);
    if f == 0 || !armed() { return ret(go()); }
    let ev = Ev { op, fd, file: f, off, len, data: &[], path: "" };
    let r = match before(&ev) { Act::Err(e) => -(e as c_long), _ => go() };
    after(&ev, r as isize);
    ret(r)
}

#[no_mangle] pub unsafe extern "C" fn lseek(fd: c_int, o: off_t, wh: c_int) -> off_t {
    simple(Op::Seek, fd, o, wh as usize, || sc!(libc::SYS_lseek, fd, o, wh)) as off_t
}
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: c_int, o: off_t, wh: c_int) -> off_t { lseek(fd, o, wh) }

#[no_mangle] pub unsafe extern "C" fn ftruncate(fd: c_int, n: off_t) -> c_int {
    simple(Op::Trunc, fd, n, 0, || sc!(libc::SYS_ftruncate, fd, n)) as c_int
}
#[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off_t) -> c_int { ftruncate(fd, n) }
#[no_mangle] pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    simple(Op::Sync, fd, -1, 0, || sc!(libc::SYS_fsync, fd)) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    simple(Op::Sync, fd, -1, 0, || sc!(libc::SYS_fdatasync, fd)) as c_int
}

#[no_mangle] pub unsafe extern "C" fn mmap(a: *mut c_void, n: size_t, pr: c_int, fl: c_int, fd: c_int, o: off_t) -> *mut c_void {
    let r = simple(Op::Mmap, fd, o, n, || sc!(libc::SYS_mmap, a, n, pr, fl, fd, o));
    r as *mut c_void
}
#[no_mangle] pub unsafe extern "C" fn mmap64(a: *mut c_void, n: size_t, pr: c_int, fl: c_int, fd: c_int, o: off_t) -> *mut c_void {
    mmap(a, n, pr, fl, fd, o)
}

unsafe fn do_path(op: Op, p: *const c_char, go: impl FnOnce() -> c_long) -> c_int {
    if !armed() { return ret(go()) as c_int; }
    let ev = Ev { op, fd: -1, file: 0, off: -1, len: 0, data: &[], path: pstr(p) };
    let r = match before(&ev) { Act::Err(e) => -(e as c_long), _ => go() };
    after(&ev, r as isize);
    ret(r) as c_int
}
#[no_mangle] pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    do_path(Op::Unlink, p, || sc!(libc::SYS_unlink, p))
}
#[no_mangle] pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int {
    do_path(Op::Unlink, p, || sc!(libc::SYS_unlinkat, d, p, f))
}
#[no_mangle] pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    do_path(Op::Rename, a, || sc!(libc::SYS_rename, a, b))
}

// ------------------------------------------------------ threads and locks

#[no_mangle] pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_futex && armed() && crate::sched::active() {
        let g = suspend();
        call_count();
        let r = crate::sched::futex(a as *const u32, b as c_int, c as u32, d as *const c_void);
        resume(g);
        if let Some(r) = r { return ret(r); }
    }
    if n == libc::SYS_copy_file_range && armed() { return fail(libc::ENOSYS); }
    ret(raw6(n, a, b, c, d, e, f))
}

#[no_mangle] pub unsafe extern "C" fn sched_yield() -> c_int {
    if armed() && crate::sched::active() {
        let g = suspend();
        call_count();
        crate::sched::yield_now();
        resume(g);
        return 0;
    }
    ret(sc!(libc::SYS_sched_yield)) as c_int
}

/// Time stands still under the controlled scheduler: locks which turn fair
/// after some time would make schedules depend on it.
#[no_mangle] pub unsafe extern "C" fn clock_gettime(c: libc::clockid_t, t: *mut libc::timespec) -> c_int {
    if c == libc::CLOCK_MONOTONIC && crate::sched::active() {
        (*t).tv_sec = 1;
        (*t).tv_nsec = 0;
        return 0;
    }
    ret(sc!(libc::SYS_clock_gettime, c, t)) as c_int
}

type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
struct Start { f: StartFn, arg: *mut c_void, id: usize }

extern "C" fn start_wrapper(p: *mut c_void) -> *mut c_void {
    let s = unsafe { Box::from_raw(p as *mut Start) };
    let (f, arg, id) = (s.f, s.arg, s.id);
    drop(s);
    crate::sched::thread_begin(id);
    set_armed(true);
    let r = f(arg);
    set_armed(false);
    crate::sched::thread_end();
    r
}

unsafe fn next_sym(name: &CStr) -> *mut c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr());
    if p.is_null() { crate::engine::engine_fail("dlsym") }
    p
}

#[no_mangle] pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, at: *const c_void, f: StartFn, arg: *mut c_void) -> c_int {
    type F = unsafe extern "C" fn(*mut libc::pthread_t, *const c_void, StartFn, *mut c_void) -> c_int;
    let real: F = std::mem::transmute(next_sym(c"pthread_create"));
    if armed() && crate::sched::active() {
        let g = suspend();
        let id = crate::sched::register();
        let s = Box::into_raw(Box::new(Start { f, arg, id }));
        let r = real(t, at, start_wrapper, s as *mut c_void);
        if r != 0 { crate::engine::engine_fail("pthread_create failed") }
        crate::sched::set_handle(id, *t as u64);
        crate::sched::point();
        resume(g);
        return r;
    }
    real(t, at, f, arg)
}

#[no_mangle] pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, v: *mut *mut c_void) -> c_int {
    type F = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
    let real: F = std::mem::transmute(next_sym(c"pthread_join"));
    if armed() && crate::sched::active() {
        let g = suspend();
        crate::sched::join(t as u64);
        resume(g);
    }
    real(t, v)
}
