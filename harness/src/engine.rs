//! Exhaustive, replayable exploration: the chooser, the worker processes,
//! violation handling, evidence.
//!
//! A check is a function of a configuration number and of the decisions
//! obtained from `choose`. The engine runs it for every configuration and
//! every vector of decisions.

use std::cell::UnsafeCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self { Tier::Quick => quick, Tier::Thorough => thorough }
    }
    pub fn name(self) -> &'static str { self.pick("quick", "thorough") }
}

/// A violated property: a stable key naming the kind of failure (used to
/// match known findings), and the details.
#[derive(Debug, Clone)]
pub struct Viol { pub key: String, pub msg: String }

pub type Res<T = ()> = Result<T, Viol>;

pub fn viol<T>(key: &str, msg: impl Into<String>) -> Res<T> {
    Err(Viol { key: key.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! bail {
    ($key:expr, $($a:tt)+) => {
        return Err($crate::engine::Viol { key: $key.to_string(), msg: format!($($a)+) })
    };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($a:tt)+) => { if !($c) { $crate::bail!($key, $($a)+) } };
}

pub trait Check: Sync {
    fn id(&self) -> &'static str;
    fn level(&self) -> &'static str { "exploration" }
    /// How cases are made and what makes one non-trivial.
    fn rule(&self, tier: Tier) -> String;
    fn assumptions(&self) -> Vec<&'static str> { vec![] }
    fn configs(&self, tier: Tier) -> usize;
    fn describe(&self, tier: Tier, cfg: usize) -> String;
    fn run(&self, tier: Tier, cfg: usize) -> Res;
    /// Whether re-executing a path must give the same outcome hash.
    fn deterministic(&self) -> bool { true }
    /// Number of worker processes (0: one per core)
    fn workers(&self) -> usize { 0 }
    /// Seconds without any path finishing before a path counts as hung
    fn hang_s(&self) -> u64 { 40 }
}

// ---------------------------------------------------------------- chooser

pub struct Chooser {
    path: Vec<(u16, u16)>, // (choice, arity)
    pos: usize,
    hash: u64,
    steps: u64,
    trace: Option<String>,
    known: u64,
    cfg: u64,
    /// Signatures of the states reached: configuration plus everything
    /// observed so far
    states: Option<HashSet<u64>>,
}

struct Global(UnsafeCell<Chooser>);
unsafe impl Sync for Global {}

static CH: Global = Global(UnsafeCell::new(Chooser {
    path: Vec::new(), pos: 0, hash: 0, steps: 0, trace: None, known: 0,
    cfg: 0, states: None,
}));

/// The chooser is only ever used by the one thread that is running: checks
/// are single threaded or under the controlled scheduler.
fn ch() -> &'static mut Chooser { unsafe { &mut *CH.0.get() } }

/// Nondeterministic choice of 0..n
pub fn choose(n: usize) -> usize {
    assert!(n > 0 && n < 65535, "engine: bad arity {}", n);
    if n == 1 { return 0; }
    let c = ch();
    let r = if c.pos < c.path.len() {
        let (v, a) = c.path[c.pos];
        if a == 0 {
            // replay: arity is learned
            if v as usize >= n { engine_fail("replay: choice out of range") }
            c.path[c.pos].1 = n as u16;
        } else if a as usize != n {
            engine_fail(&format!(
                "nondeterminism: arity {} at decision {}, was {}, after {:?}", n, c.pos, a, &c.path[..c.pos]));
        }
        v
    } else {
        c.path.push((0, n as u16));
        shm_push(c.path.len(), 0);
        0
    };
    c.pos += 1;
    r as usize
}

pub fn pick<'a, T>(v: &'a [T]) -> &'a T { &v[choose(v.len())] }

/// Choose one of the values
pub fn one<T: Clone>(v: &[T]) -> T { pick(v).clone() }

pub fn flip() -> bool { choose(2) == 1 }

/// Count an executed operation (transition) and fold what was observed into
/// the outcome of this path.
pub fn observe<T: Hash>(t: T) {
    let c = ch();
    c.steps += 1;
    let mut h = DefaultHasher::new();
    c.hash.hash(&mut h);
    t.hash(&mut h);
    c.hash = h.finish();
    if let Some(st) = c.states.as_mut() {
        if st.len() < MAX_STATES { st.insert(c.hash ^ c.cfg); }
    }
}

/// Distinct states remembered per worker (the count is a lower bound beyond)
const MAX_STATES: usize = 6_000_000;

pub fn tracing() -> bool { ch().trace.is_some() }

pub fn trace_str(s: &str) {
    if let Some(t) = ch().trace.as_mut() {
        if t.len() < 200_000 { t.push_str(s); t.push('\n'); }
    }
}

#[macro_export]
macro_rules! tr {
    ($($a:tt)+) => { if $crate::engine::tracing() { $crate::engine::trace_str(&format!($($a)+)) } };
}

/// Note that a listed (known) finding was hit, rather than a new violation.
pub fn note_known() { ch().known += 1; }

// next path in depth first order; false when exhausted
fn advance() -> bool {
    let c = ch();
    while let Some((v, a)) = c.path.pop() {
        if v + 1 < a {
            c.path.push((v + 1, a));
            return true;
        }
    }
    false
}

// ------------------------------------------------------- shared memory

const MAXW: usize = 64;
const MAXPATH: usize = 8192;

#[repr(C)]
struct WShm {
    cfg: AtomicU64,
    execs: AtomicU64,
    steps: AtomicU64,
    decisions: AtomicU64,
    cfgs_done: AtomicU64,
    known: AtomicU64,
    plen: AtomicU32,
    busy: AtomicU32,
    msglen: AtomicU32,
    path: [AtomicU32; MAXPATH],
    msg: [u8; 4096],
}

#[repr(C)]
struct Shm {
    next: AtomicU64,
    stop: AtomicU32,
    w: [WShm; MAXW],
}

static mut SHM: *mut Shm = std::ptr::null_mut();
static mut WIDX: usize = usize::MAX;

fn shm() -> Option<&'static Shm> {
    unsafe { if SHM.is_null() { None } else { Some(&*SHM) } }
}
fn wshm() -> Option<&'static mut WShm> {
    unsafe {
        if SHM.is_null() || WIDX == usize::MAX { None }
        else { Some(&mut (*SHM).w[WIDX]) }
    }
}

fn shm_push(len: usize, v: u32) {
    if let Some(w) = wshm() {
        if len <= MAXPATH {
            w.path[len - 1].store(v, SeqCst);
            w.plen.store(len as u32, SeqCst);
        }
    }
}

fn shm_path() {
    if let Some(w) = wshm() {
        let c = ch();
        for (i, (v, _)) in c.path.iter().enumerate().take(MAXPATH) {
            w.path[i].store(*v as u32, SeqCst);
        }
        w.plen.store(c.path.len().min(MAXPATH) as u32, SeqCst);
    }
}

pub const EXIT_ENGINE: i32 = 2;
const EXIT_FATAL_VIOL: i32 = 77;
const EXIT_ENGINE_CHILD: i32 = 78;

/// Stop: something is wrong with the machinery itself.
pub fn engine_fail(msg: &str) -> ! {
    if let Some(w) = wshm() {
        put_msg(w, msg);
        unsafe { libc::_exit(EXIT_ENGINE_CHILD) }
    }
    eprintln!("ENGINE ERROR: {}", msg);
    unsafe { libc::_exit(EXIT_ENGINE) }
}

/// A violation from which this process can't continue (e.g. deadlock).
pub fn fatal_viol(key: &str, msg: &str) -> ! {
    if let Some(w) = wshm() {
        put_msg(w, &format!("{}\t{}", key, msg));
        unsafe { libc::_exit(EXIT_FATAL_VIOL) }
    }
    // replay in the foreground
    println!("VIOLATED (fatal) [{}] {}", key, msg);
    if let Some(t) = ch().trace.as_ref() { println!("{}", t); }
    use std::io::Write;
    std::io::stdout().flush().ok();
    unsafe { libc::_exit(EXIT_FATAL_VIOL) }
}

fn put_msg(w: &mut WShm, m: &str) {
    let b = m.as_bytes();
    let n = b.len().min(4096);
    w.msg[..n].copy_from_slice(&b[..n]);
    w.msglen.store(n as u32, SeqCst);
}

// ------------------------------------------------------------ panics

static QUIET: AtomicBool = AtomicBool::new(false);
static PANICS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());

pub fn install_panic_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.load(SeqCst) {
            let m = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
                else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
                else { "?".into() };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let un = crate::sys::suspend();
            if let Ok(mut p) = PANICS.lock() { p.push(format!("{} at {}", m, loc)); }
            crate::sys::resume(un);
        } else {
            prev(info);
        }
    }));
}

fn take_panic() -> String {
    let mut p = PANICS.lock().unwrap_or_else(|e| e.into_inner());
    let m = p.join(" / ");
    p.clear();
    m
}

// True if a panic came from the harness' own source
fn is_harness_panic(m: &str) -> bool {
    m.contains(" at src/")
}

/// Run code under test, turning a panic into Err(message).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => {
            crate::sys::reset_thread();
            let m = take_panic();
            if is_harness_panic(&m) { engine_fail(&format!("harness panic: {}", m)); }
            Err(m)
        }
    }
}

/// Whether any thread panicked since the last call; message if so.
pub fn panicked() -> Option<String> {
    let m = take_panic();
    if m.is_empty() { None } else {
        if is_harness_panic(&m) { engine_fail(&format!("harness panic: {}", m)); }
        Some(m)
    }
}

// ------------------------------------------------------ one execution

struct Exec { res: Res, hash: u64, steps: u64 }

fn exec_once(check: &dyn Check, tier: Tier, cfg: usize) -> Exec {
    {
        let c = ch();
        c.pos = 0; c.hash = 0; c.steps = 0;
    }
    take_panic();
    let r = match catch_unwind(AssertUnwindSafe(|| check.run(tier, cfg))) {
        Ok(r) => r,
        Err(_) => {
            let m = take_panic();
            if is_harness_panic(&m) {
                engine_fail(&format!("harness panic: {} [{} cfg {}: {}]", m,
                    check.id(), cfg, check.describe(tier, cfg)));
            }
            Err(Viol { key: "panic".into(), msg: format!("panic: {}", m) })
        }
    };
    crate::sys::reset_all();
    let c = ch();
    if r.is_ok() && c.pos != c.path.len() {
        engine_fail(&format!("nondeterminism: path of {} decisions ended after {}",
                             c.path.len(), c.pos));
    }
    Exec { res: r, hash: c.hash, steps: c.steps }
}

// ------------------------------------------------------------ known findings

pub struct Known { pub property: String, pub key: String, pub what: String }

/// Lines "known: property=<id> key=<key> <what fails>" of the committed file;
/// "fixed:" lines suppress nothing.
pub fn load_known() -> Vec<Known> {
    let p = root().join("known_findings.txt");
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(p) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let mut it = r.splitn(3, ' ');
                let p = it.next().unwrap_or("").trim_start_matches("property=").to_string();
                let k = it.next().unwrap_or("").trim_start_matches("key=").to_string();
                let w = it.next().unwrap_or("").to_string();
                v.push(Known { property: p, key: k, what: w });
            }
        }
    }
    v
}

pub fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| "/verif".into())
}

// ------------------------------------------------------------ scratch

static mut SCRATCH: Option<PathBuf> = None;

pub fn scratch() -> &'static Path {
    #[allow(static_mut_refs)]
    unsafe { SCRATCH.as_deref().expect("scratch set") }
}

fn make_scratch_base() -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    for b in [base, "/tmp"] {
        let p = PathBuf::from(format!("{}/mc-{}-{}", b, std::process::id(),
            std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH)
                .map(|d| d.subsec_nanos()).unwrap_or(0)));
        if std::fs::create_dir_all(&p).is_ok() { return p; }
    }
    engine_fail("can't create scratch directory")
}

fn set_scratch(p: PathBuf) {
    std::fs::create_dir_all(&p).ok();
    unsafe { SCRATCH = Some(p); }
}

// ------------------------------------------------------------ workers

#[derive(Clone, Debug)]
struct VRec { cfg: usize, path: Vec<u16>, key: String, msg: String, trace: String }

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() { Some('n') => o.push('\n'), Some('t') => o.push('\t'),
                              Some(c) => o.push(c), None => {} }
        } else { o.push(c) }
    }
    o
}

fn limit_memory() {
    let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 32 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim); }
    let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &lim); }
    // A runaway write must not fill the disk
    let lim = libc::rlimit { rlim_cur: 256 << 20, rlim_max: 8 << 30 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_FSIZE, &lim);
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
}

/// Raise the limit on address space, for maps of sparse files, to `n` bytes
pub fn with_space_limit<T>(n: u64, f: impl FnOnce() -> T) -> T {
    let set = |n: u64| {
        let lim = libc::rlimit { rlim_cur: n, rlim_max: 32 << 30 };
        if unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) } != 0 { engine_fail("setrlimit failed"); }
    };
    set(n);
    let r = f();
    set(3 << 30);
    r
}

/// Raise the limit on the length of files, for sparse ones, to `n` bytes
pub fn with_file_limit<T>(n: u64, f: impl FnOnce() -> T) -> T {
    let set = |n: u64| {
        let lim = libc::rlimit { rlim_cur: n, rlim_max: 8 << 30 };
        if unsafe { libc::setrlimit(libc::RLIMIT_FSIZE, &lim) } != 0 { engine_fail("setrlimit failed"); }
    };
    set(n);
    let r = f();
    set(256 << 20);
    r
}

fn worker(check: &dyn Check, tier: Tier, wi: usize, base: &Path, total: usize, deadline: Instant) -> ! {
    unsafe { WIDX = wi; }
    limit_memory();
    set_scratch(base.join(format!("w{}", wi)));
    let known = load_known();
    let mut out = String::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    ch().states = Some(HashSet::new());
    let s = shm().unwrap();
    let w = wshm().unwrap();
    QUIET.store(true, SeqCst);
    // to find what takes long: configurations beyond so many milliseconds
    let slow: Option<u128> = std::env::var("MC_SLOW").ok().and_then(|x| x.parse().ok());
    'cfgs: loop {
        if s.stop.load(SeqCst) != 0 { break; }
        let cfg = s.next.fetch_add(1, SeqCst) as usize;
        if cfg >= total { break; }
        w.cfg.store(cfg as u64, SeqCst);
        w.busy.store(1, SeqCst);
        ch().path.clear();
        ch().cfg = (cfg as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        let since = Instant::now();
        let mut first = true;
        loop {
            shm_path();
            // the first path of a few configurations is recorded as a sample
            let sample = first && (cfg < 2 || cfg + 1 == total || cfg == total / 2);
            ch().trace = if sample { Some(String::new()) } else { None };
            let e = exec_once(check, tier, cfg);
            let t = ch().trace.take();
            w.execs.fetch_add(1, SeqCst);
            w.steps.fetch_add(e.steps, SeqCst);
            w.decisions.fetch_add(ch().path.len() as u64, SeqCst);
            hashes.insert({
                let mut h = DefaultHasher::new(); e.hash.hash(&mut h); h.finish() });
            if sample {
                let p: Vec<String> = ch().path.iter().map(|x| x.0.to_string()).collect();
                let _ = writeln!(out, "S\t{}\t{}\t{}", cfg, p.join(","),
                                 esc(&t.unwrap_or_default()));
            }
            if let Err(v) = e.res {
                if known.iter().any(|k| k.property == check.id() && k.key == v.key) {
                    note_known();
                    let _ = writeln!(out, "K\t{}", esc(&v.key));
                } else {
                    let path: Vec<u16> = ch().path.iter().map(|x| x.0).collect();
                    // reproduce with tracing
                    ch().trace = Some(String::new());
                    let e2 = exec_once(check, tier, cfg);
                    let tr = ch().trace.take().unwrap();
                    match e2.res {
                        Err(v2) => {
                            let ps: Vec<String> = path.iter().map(|x| x.to_string()).collect();
                            let _ = writeln!(out, "V\t{}\t{}\t{}\t{}\t{}", cfg, ps.join(","),
                                esc(&v.key), esc(&v2.msg), esc(&tr));
                        }
                        Ok(()) => {
                            engine_fail(&format!(
                                "violation did not reproduce: [{}] {} (cfg {}: {})",
                                v.key, v.msg, cfg, check.describe(tier, cfg)));
                        }
                    }
                    s.stop.store(1, SeqCst);
                    break 'cfgs;
                }
            } else if first && check.deterministic() {
                let h1 = e.hash;
                let e2 = exec_once(check, tier, cfg);
                if e2.res.is_err() || e2.hash != h1 {
                    engine_fail(&format!(
                        "nondeterministic outcome in cfg {} ({})", cfg,
                        check.describe(tier, cfg)));
                }
            }
            first = false;
            if s.stop.load(SeqCst) != 0 { break 'cfgs; }
            if Instant::now() > deadline { s.stop.store(2, SeqCst); break 'cfgs; }
            if !advance() { break; }
        }
        w.busy.store(0, SeqCst);
        if let Some(ms) = slow { if since.elapsed().as_millis() > ms { eprintln!("{} ms: cfg {} {}", since.elapsed().as_millis(), cfg, check.describe(tier, cfg)); } }
        w.cfgs_done.fetch_add(1, SeqCst);
    }
    w.busy.store(0, SeqCst);
    QUIET.store(false, SeqCst);
    let hb: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
    std::fs::write(base.join(format!("hash{}", wi)), hb).ok();
    let _ = writeln!(out, "N\t{}", ch().states.as_ref().map(|s| s.len()).unwrap_or(0));
    std::fs::write(base.join(format!("res{}", wi)), out).ok();
    std::fs::remove_dir_all(scratch()).ok();
    unsafe { libc::_exit(0) }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Run a path in a fresh process, returns Some((key,msg,trace)) if it violates.
fn replay_isolated(check: &dyn Check, tier: Tier, cfg: usize, path: &[u16], base: &Path, secs: u64)
    -> Result<Option<(String, String)>, String>
{
    unsafe {
        let s = &mut (*SHM).w[MAXW - 1];
        s.msglen.store(0, SeqCst);
        let pid = libc::fork();
        if pid == 0 {
            WIDX = MAXW - 1;
            limit_memory();
            libc::alarm(secs as u32);
            set_scratch(base.join("replay"));
            QUIET.store(true, SeqCst);
            ch().path.clear();
            let r = replay_exec(check, tier, cfg, path);
            match r {
                Ok(()) => libc::_exit(0),
                Err(v) => {
                    put_msg(wshm().unwrap(), &format!("{}\t{}", v.key, v.msg));
                    libc::_exit(EXIT_FATAL_VIOL)
                }
            }
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let n = s.msglen.load(SeqCst) as usize;
        let msg = String::from_utf8_lossy(&s.msg[..n]).into_owned();
        if libc::WIFEXITED(st) {
            match libc::WEXITSTATUS(st) {
                0 => Ok(None),
                EXIT_FATAL_VIOL => {
                    let (k, m) = msg.split_once('\t').unwrap_or(("?", &msg));
                    Ok(Some((k.to_string(), m.to_string())))
                }
                c => Err(format!("replay ended with {} {}", c, msg)),
            }
        } else {
            let sig = libc::WTERMSIG(st);
            match sig {
                libc::SIGALRM => Ok(Some(("hang".into(), format!("does not terminate (stopped after {} s)", secs)))),
                libc::SIGSEGV | libc::SIGBUS | libc::SIGABRT | libc::SIGILL | libc::SIGFPE =>
                    Ok(Some(("crash".into(), format!("process died with signal {}", sig)))),
                _ => Err(format!("replay killed by signal {}", sig)),
            }
        }
    }
}

// Re-execute recorded choices; arity 0 marks "not known yet".
fn replay_exec(check: &dyn Check, tier: Tier, cfg: usize, path: &[u16]) -> Res {
    let c = ch();
    c.path = path.iter().map(|v| (*v, 0u16)).collect();
    c.pos = 0; c.hash = 0; c.steps = 0;
    let r = match catch_unwind(AssertUnwindSafe(|| check.run(tier, cfg))) {
        Ok(r) => r,
        Err(_) => Err(Viol { key: "panic".into(), msg: format!("panic: {}", take_panic()) }),
    };
    crate::sys::reset_all();
    r
}

/// `./check replay FILE`
pub fn replay_file(checks: &[&dyn Check], file: &str) -> i32 {
    let s = match std::fs::read_to_string(file) { Ok(s) => s, Err(e) => {
        eprintln!("{}: {}", file, e); return EXIT_ENGINE } };
    let get = |k: &str| -> Option<String> {
        let pat = format!("\"{}\": ", k);
        let i = s.find(&pat)? + pat.len();
        let r = &s[i..];
        let e = r.find('\n').unwrap_or(r.len());
        Some(r[..e].trim_end_matches(',').trim().trim_matches('"').to_string())
    };
    let id = get("property").unwrap_or_default();
    let tier = if get("tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let cfg: usize = get("cfg").and_then(|x| x.parse().ok()).unwrap_or(0);
    let path: Vec<u16> = get("choices").unwrap_or_default()
        .trim_matches(|c| c == '[' || c == ']').split(',')
        .filter_map(|x| x.trim().parse().ok()).collect();
    let check = match checks.iter().find(|c| c.id() == id) {
        Some(c) => *c, None => { eprintln!("unknown property {}", id); return EXIT_ENGINE } };
    let base = make_scratch_base();
    set_scratch(base.join("replay"));
    QUIET.store(true, SeqCst);
    ch().trace = Some(String::new());
    let r = replay_exec(check, tier, cfg, &path);
    QUIET.store(false, SeqCst);
    println!("{} cfg {} ({})", id, cfg, check.describe(tier, cfg));
    println!("{}", ch().trace.take().unwrap_or_default());
    std::fs::remove_dir_all(&base).ok();
    match r {
        Ok(()) => { println!("HELD on this path"); 0 }
        Err(v) => { println!("VIOLATED [{}] {}", v.key, v.msg); 1 }
    }
}

/// Explore the check. Returns the process exit code.
pub fn explore(check: &dyn Check, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let total = check.configs(tier);
    let base = make_scratch_base();
    let nw = if check.workers() > 0 { check.workers() } else {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
    }.min(MAXW - 1).min(total.max(1));
    let secs: u64 = std::env::var("MC_DEADLINE_S").ok().and_then(|v| v.parse().ok())
        .unwrap_or(tier.pick(600, 6 * 3600));
    let deadline = t0 + Duration::from_secs(secs);
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shm>(),
            libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        if p == libc::MAP_FAILED { engine_fail("shm mmap") }
        SHM = p as *mut Shm;
    }
    let mut pids = vec![];
    for wi in 0..nw {
        let pid = unsafe { libc::fork() };
        if pid < 0 { engine_fail("fork") }
        if pid == 0 { worker(check, tier, wi, &base, total, deadline) }
        pids.push(Some(pid));
    }
    // Monitor: wait for children; detect paths that don't end
    let s = shm().unwrap();
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); nw];
    let mut suspects: Vec<(usize, Vec<u16>, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut viols: Vec<VRec> = vec![];
    while pids.iter().any(|p| p.is_some()) {
        for wi in 0..nw {
            let Some(pid) = pids[wi] else { continue };
            let mut st = 0;
            let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
            let w = &s.w[wi];
            let cur_path = || -> Vec<u16> {
                (0..w.plen.load(SeqCst) as usize).map(|i| w.path[i].load(SeqCst) as u16).collect()
            };
            if r == pid {
                pids[wi] = None;
                let n = w.msglen.load(SeqCst) as usize;
                let msg = String::from_utf8_lossy(&w.msg[..n]).into_owned();
                let cfg = w.cfg.load(SeqCst) as usize;
                if libc::WIFEXITED(st) {
                    match libc::WEXITSTATUS(st) {
                        0 => {}
                        EXIT_FATAL_VIOL => {
                            s.stop.store(1, SeqCst);
                            suspects.push((cfg, cur_path(), msg));
                        }
                        EXIT_ENGINE_CHILD => { s.stop.store(1, SeqCst); errors.push(format!("{} [cfg {}: {}]", msg, cfg, check.describe(tier, cfg))); }
                        c => { s.stop.store(1, SeqCst); errors.push(format!("worker exit {} {}", c, msg)); }
                    }
                } else {
                    s.stop.store(1, SeqCst);
                    let sig = libc::WTERMSIG(st);
                    if sig == libc::SIGKILL {
                        errors.push(format!("worker killed in cfg {} ({})", cfg, check.describe(tier, cfg)));
                    } else {
                        suspects.push((cfg, cur_path(), format!("crash\tsignal {}", sig)));
                    }
                }
                continue;
            }
            let e = w.execs.load(SeqCst);
            if e != last[wi].0 || w.busy.load(SeqCst) == 0 { last[wi] = (e, Instant::now()); }
            else if last[wi].1.elapsed() > Duration::from_secs(check.hang_s()) {
                suspects.push((w.cfg.load(SeqCst) as usize, cur_path(), "hang\t".into()));
                s.stop.store(1, SeqCst);
                unsafe { libc::kill(pid, libc::SIGKILL); libc::waitpid(pid, &mut st, 0); }
                pids[wi] = None;
            }
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    for (cfg, path, what) in &suspects {
        match replay_isolated(check, tier, *cfg, path, &base, check.hang_s()) {
            Ok(Some((k, m))) => viols.push(VRec { cfg: *cfg, path: path.clone(), key: k,
                                                  msg: m, trace: String::new() }),
            Ok(None) => errors.push(format!("not reproducible: {} in cfg {} ({})", what, cfg,
                                            check.describe(tier, *cfg))),
            Err(e) => errors.push(format!("{} ({})", e, what)),
        }
    }
    // Gather
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut known_hits: Vec<String> = vec![];
    let mut states = 0u64; // configurations are disjoint between workers
    for wi in 0..nw {
        if let Ok(b) = std::fs::read(base.join(format!("hash{}", wi))) {
            for c in b.chunks_exact(8) { hashes.insert(u64::from_le_bytes(c.try_into().unwrap())); }
        }
        if let Ok(t) = std::fs::read_to_string(base.join(format!("res{}", wi))) {
            for l in t.lines() {
                let f: Vec<&str> = l.split('\t').collect();
                match f[0] {
                    "V" => viols.push(VRec {
                        cfg: f[1].parse().unwrap_or(0),
                        path: f[2].split(',').filter_map(|x| x.parse().ok()).collect(),
                        key: unesc(f[3]), msg: unesc(f[4]), trace: unesc(f[5]) }),
                    "S" => samples.push(format!("config {} ({}), choices [{}]:\n{}", f[1],
                        check.describe(tier, f[1].parse().unwrap_or(0)), f[2], unesc(f[3]))),
                    "K" => known_hits.push(unesc(f[1])),
                    "N" => states += f[1].parse::<u64>().unwrap_or(0),
                    _ => {}
                }
            }
        }
    }
    let sum = |f: fn(&WShm) -> &AtomicU64| -> u64 { (0..nw).map(|i| f(&s.w[i]).load(SeqCst)).sum() };
    let execs = sum(|w| &w.execs);
    let steps = sum(|w| &w.steps);
    let decisions = sum(|w| &w.decisions);
    let cfgs_done = sum(|w| &w.cfgs_done);
    let exhaustive = cfgs_done as usize == total && errors.is_empty() && viols.is_empty();
    std::fs::remove_dir_all(&base).ok();

    let known = load_known();
    viols.retain(|v| {
        let k = known.iter().any(|k| k.property == check.id() && k.key == v.key);
        if k { known_hits.push(v.key.clone()); }
        !k
    });
    for k in known.iter().filter(|k| k.property == check.id()) {
        let n = known_hits.iter().filter(|h| **h == k.key).count();
        println!("KNOWN-FINDING: property={} {} ({} explored paths)", k.property, k.what, n);
    }

    viols.sort_by_key(|v| (v.cfg, v.path.len()));
    let evdir = root().join("evidence");
    std::fs::create_dir_all(evdir.join("replay")).ok();
    let wall = t0.elapsed().as_secs_f64();
    for (i, v) in viols.iter().enumerate().take(5) {
        let p = evdir.join("replay").join(format!("{}-{}.json", check.id(), i));
        let ps: Vec<String> = v.path.iter().map(|x| x.to_string()).collect();
        let j = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"cfg\": {},\n \"config\": {},\n \"choices\": [{}],\n \"key\": {},\n \"message\": {},\n \"trace\": {}\n}}\n",
            js(check.id()), js(tier.name()), v.cfg, js(&check.describe(tier, v.cfg)), ps.join(", "),
            js(&v.key), js(&v.msg), js(&v.trace));
        std::fs::write(&p, j).ok();
        println!("VIOLATION property={} replay={}", check.id(), p.display());
        println!("  [{}] {}", v.key, v.msg);
        println!("  config {} ({})", v.cfg, check.describe(tier, v.cfg));
    }

    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(0);
    samples.truncate(4);
    let sam: Vec<String> = samples.iter().map(|x| {
        let t: String = x.chars().take(3000).collect(); js(&t) }).collect();
    let ass: Vec<String> = check.assumptions().iter().map(|x| js(x)).collect();
    let counts = if check.level() == "model_checking" {
        format!("\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"distinct_outcomes\": {},\n  \"space\": {}",
            states, steps, execs, hashes.len(), js(&check.rule(tier)))
    } else {
        format!("\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {},\n  \"states\": {}, \"transitions\": {}",
            execs, hashes.len(), js(&check.rule(tier)), states, steps)
    };
    let cov = format!(
        "{{\n  {},\n  \"configurations\": {}, \"configurations_completed\": {}, \"decisions\": {},\n  \"exhaustive\": {}, \"known_findings_hit\": {},\n  \"samples\": [{}]\n }}",
        counts, total, cfgs_done, decisions, exhaustive, known_hits.len(), sam.join(",\n   "));
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"coverage\": {},\n \"assumptions\": [{}],\n \"wall_s\": {:.3}, \"violations\": {}\n}}\n",
        js(check.id()), js(tier.name()), seed, js(check.level()), cov, ass.join(", "), wall, viols.len());
    let evp = evdir.join(format!("{}.json", check.id()));
    if let Err(e) = std::fs::write(&evp, ev) { eprintln!("{}: {}", evp.display(), e); return EXIT_ENGINE; }

    println!("{} {}: {} executions, {} states, {} transitions, {} decisions, {} distinct outcomes, {}/{} configurations, {} in {:.1} s",
        check.id(), tier.name(), execs, states, steps, decisions, hashes.len(), cfgs_done, total,
        if exhaustive { "exhaustive" } else { "NOT exhaustive" }, wall);
    if !viols.is_empty() { return 1; }
    if !errors.is_empty() {
        for e in &errors { eprintln!("ENGINE ERROR: {}", e); }
        return EXIT_ENGINE;
    }
    0
}
