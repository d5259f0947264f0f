//! C33: logging reports, and never changes results.

use std::process::Stdio;

use crate::arc::Rec;
use crate::engine::*;
use crate::util::*;
use crate::{bail, ensure, tr};

use super::c02::Cache;
use super::c03::Alg;
use super::c25::{archive, copied, model, name, output, printed, run_with, untouched, Arc, Flag, Ran, ALL, FLAGS};

pub struct C33;
const K: &str = "log";

#[derive(Clone, Copy, Debug, PartialEq)]
enum To { Pipe, Full, Closed }

#[derive(Clone, Debug)]
enum F {
    /// What the logger prints, by level of detail and thread
    Rule { test: bool, thread: &'static str },
    /// The command line with any level of detail: nothing but standard error differs
    Cli { cp: Option<Flag>, to: To },
    /// Likewise where it fails
    Fail { what: usize, to: To },
    /// Another check with all messages composed
    Inner { check: &'static str, cfg: usize, level: log::LevelFilter },
}

fn inner() -> &'static [&'static dyn Check] {
    &[&super::c02::C02, &super::c03::C04, &super::c08::C08, &super::c12::C13, &super::c16::C16, &super::c16::C17,
      &super::c18::C19, &super::c18::C20, &super::c22::C22, &super::c23::C24, &super::c30::C30]
}
/// Run at each level of detail, not just the highest
const SMALL: [&str; 5] = ["C02", "C16", "C17", "C24", "C30"];

fn cfgs(t: Tier) -> Vec<F> {
    let mut v = vec![];
    for test in [false, true] { for thread in ["main", "none", "a b", "tokio-runtime-worker"] { v.push(F::Rule { test, thread }); } }
    for to in [To::Pipe, To::Full, To::Closed] {
        for cp in [None, Some(Flag::None), Some(Flag::Gzip), Some(Flag::Brotli)] { v.push(F::Cli { cp, to }); }
        for what in 0..5 { v.push(F::Fail { what, to }); }
    }
    use log::LevelFilter::*;
    for level in [Trace, Debug, Info] {
        for c in inner() {
            if level != Trace && !t.pick(SMALL.contains(&c.id()), true) { continue; }
            for cfg in 0..c.configs(Tier::Quick) {
                // of sinks just the one all others use
                if c.id() == "C20" && t.pick(!c.describe(Tier::Quick, cfg).contains("kind: Async"), false) { continue; }
                v.push(F::Inner { check: c.id(), cfg, level });
            }
        }
    }
    v
}
static CACHE: Cache<F> = Cache::new();

impl Check for C33 {
    fn id(&self) -> &'static str { "C33" }
    fn rule(&self, t: Tier) -> String {
        format!("{} configurations: messages of every level from 12 targets at each verbosity 0 to 6, by each kind of thread, to a pipe, a full device and a closed descriptor; all of cat, cp with each compression and five kinds of failing commands x 0 to 5 debug flags in each place and form; and all quick configurations (in the quick tier, of sinks just those without a policy) of {} with all messages composed, at each level", cfgs(t).len(), inner().iter().map(|c| c.id()).collect::<Vec<_>>().join(", "))
    }
    fn configs(&self, t: Tier) -> usize { CACHE.get(t, cfgs).len() }
    fn describe(&self, t: Tier, c: usize) -> String {
        match &CACHE.get(t, cfgs)[c] {
            f @ F::Inner { check, cfg, .. } => format!("{:?} {}", f, find(check).describe(Tier::Quick, *cfg)),
            f => format!("{:?}", f),
        }
    }
    fn run(&self, t: Tier, c: usize) -> Res { run(&CACHE.get(t, cfgs)[c]) }
}

fn find(id: &str) -> &'static dyn Check {
    *inner().iter().find(|c| c.id() == id).expect("check")
}

/// Composes messages, to drop them
struct Composer;
impl log::Log for Composer {
    fn enabled(&self, _m: &log::Metadata<'_>) -> bool { true }
    fn log(&self, r: &log::Record<'_>) {
        struct Null;
        impl std::fmt::Write for Null { fn write_str(&mut self, _s: &str) -> std::fmt::Result { Ok(()) } }
        std::fmt::write(&mut Null, format_args!("{} {} {}", r.level(), r.target(), r.args())).ok();
    }
    fn flush(&self) {}
}

const TARGETS: [&str; 12] = [
    "body_image", "body_image::x", "body_image_futio", "barc", "barc::compress", "blocking_permit",
    "hyper", "tokio::runtime", "bod", "my_barc", "x", "Barc",
];

const LEVELS: [log::Level; 5] = [log::Level::Error, log::Level::Warn, log::Level::Info, log::Level::Debug, log::Level::Trace];

/// Whether a message is to be printed, at that verbosity
fn shown(verb: usize, target: &str, level: log::Level) -> bool {
    let own = ["body_image", "barc", "blocking_permit"].iter().any(|p| target.starts_with(p));
    let most = match verb { 0 => log::Level::Info, 1 if !own => log::Level::Info, 1 | 2 => log::Level::Debug, _ => log::Level::Trace };
    level <= most
}

fn err_to(to: To) -> Stdio {
    match to {
        To::Pipe => Stdio::piped(),
        To::Closed => Stdio::null(),
        To::Full => match std::fs::OpenOptions::new().write(true).open("/dev/full") {
            Ok(f) => f.into(), Err(e) => engine_fail(&format!("/dev/full: {}", e)),
        }
    }
}

/// With its descriptor closed, where asked for
fn exec(exe: &str, d: &std::path::Path, args: &[String], env: &[(&str, &std::path::Path)], to: To) -> Ran {
    if to != To::Closed { return run_with(exe, d, args, env, Stdio::piped(), err_to(to)); }
    let exe = format!("{}/target/debug/{}", std::env::var("VERIF_ROOT").unwrap_or_default(), exe);
    let mut a = vec!["-c".to_string(), "exec \"$0\" \"$@\" 2>&-".into(), exe];
    a.extend(args.iter().cloned());
    run_with("/bin/sh", d, &a, env, Stdio::piped(), Stdio::null())
}

fn run(f: &F) -> Res {
    let d = dir("cli");
    match *f {
        F::Rule { test, thread } => {
            // without the variable, the logger for tests is not set up
            let verb = if test { *pick(&[None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(7)]) } else { Some(choose(7)) };
            let to = *pick(&[To::Pipe, To::Full, To::Closed]);
            let mut args = vec![if test { "test" } else { "setup" }.to_string()];
            if let (false, Some(v)) = (test, verb) { args.push(v.to_string()); }
            args.push(thread.to_string());
            let var = verb.map(|v| v.to_string()).unwrap_or_default();
            let env: Vec<(&str, &std::path::Path)> = if test && verb.is_some() { vec![("TEST_LOG", std::path::Path::new(&var))] } else { vec![] };
            let r = exec("picco", &d, &args, &env, to);
            ensure!(r.code == Some(0), K, "{:?} {:?}: exit status {:?}", args, verb, r.code);
            ensure!(r.out.is_empty(), K, "messages on standard output: {:?}", String::from_utf8_lossy(&r.out));
            if to != To::Pipe { return Ok(()); }
            let eff = if test { verb.unwrap_or(0).checked_sub(1) } else { verb };
            let mut want = vec![];
            for (i, t) in TARGETS.iter().enumerate() {
                for l in LEVELS {
                    if eff.is_some_and(|v| shown(v, t, l)) { want.push((t, l, format!("message {} {} end", i, l))); }
                }
            }
            let got = String::from_utf8_lossy(&r.err).into_owned();
            let lines: Vec<&str> = got.lines().collect();
            observe(lines.len());
            for (i, (t, l, m)) in want.iter().enumerate() {
                match lines.get(i) {
                    None => bail!(K, "verbosity {:?}: {} messages, {} expected: {:?} of {} missing", verb, lines.len(), want.len(), m, t),
                    Some(g) => ensure!(g.contains(m) && g.contains(&l.to_string()) && g.contains(**t), K, "verbosity {:?}: {:?} printed for {} {} {:?}", verb, g, l, t, m),
                }
            }
            ensure!(lines.len() == want.len(), K, "verbosity {:?}: {} messages, {} expected, such as {:?}", verb, lines.len(), want.len(), lines[want.len()]);
            Ok(())
        }
        F::Cli { cp, to } => {
            let a = archive(&d, "in.barc", vec![model(0), model(1), model(2), small()], *pick(&[Alg::Plain, Alg::Gzip, Alg::Brotli]))?;
            let out = output(&d, flip())?;
            let mut com = vec![];
            if let Some(f) = cp {
                com.push("cp".to_string());
                if f != Flag::None { com.push(if f == Flag::Gzip { "-z" } else { "-b" }.into()); }
                com.extend([name(&a), name(&out)]);
            } else { com.extend(["cat".to_string(), name(&a)]); }
            let args = detailed(com);
            let r = exec("barc", &d, &args, &[], to);
            ensure!(r.code == Some(0), K, "{:?}: exit status {:?} {}", args, r.code, String::from_utf8_lossy(&r.err));
            match cp {
                Some(f) => {
                    ensure!(r.out.is_empty(), K, "{:?} printed {:?}", args, String::from_utf8_lossy(&r.out));
                    copied(&out.path, &out, &a.recs.iter().map(|(_, r)| r).collect::<Vec<_>>(), f).map_err(other)?;
                }
                None => {
                    let mut want = vec![];
                    for (o, rec) in &a.recs { printed(&mut want, "in.barc", *o, rec, ALL); }
                    ensure!(r.out == want, K, "{:?} printed: {}", args, first_diff(&r.out, &want));
                }
            }
            untouched(&a).map_err(other)
        }
        F::Fail { what, to } => {
            let mut a = archive(&d, "in.barc", vec![model(0), model(1)], Alg::Plain)?;
            let flag = *pick(&FLAGS);
            let com: Vec<&str> = match what {
                0 => vec!["cat", "missing.barc"],
                1 => vec!["cp", "missing.barc", "out.barc"],
                2 => vec!["cp", "in.barc", "in.barc"],
                3 => vec!["cat", "in.barc", "-c", "x"],
                _ => {
                    let o = a.recs[1].0 as usize;
                    a.bytes[o] ^= 0x20;
                    std::fs::write(&a.path, &a.bytes).expect("write");
                    vec!["cat", "in.barc", "--meta"]
                }
            };
            observe(flag as usize);
            let none = Arc { path: d.join("out.barc"), recs: vec![], bytes: vec![] };
            std::fs::remove_file(&none.path).ok();
            let mut com: Vec<String> = com.into_iter().map(String::from).collect();
            if com[0] == "cp" && flag != Flag::None { com.push(if flag == Flag::Gzip { "-z" } else { "-b" }.into()); }
            let args = detailed(com);
            let r = exec("barc", &d, &args, &[], to);
            ensure!(r.code.is_some_and(|c| c != 0), K, "{:?}: exit status {:?}", args, r.code);
            let mut want = vec![];
            if what == 4 {
                let (o, rec) = &a.recs[0];
                printed(&mut want, "in.barc", *o, rec, super::c25::Parts([true, false, false, false, false]));
            }
            ensure!(r.out == want, K, "{:?} printed: {}", args, first_diff(&r.out, &want));
            if to == To::Pipe { ensure!(!r.err.is_empty(), K, "{:?}: nothing reported", args); }
            untouched(&a).map_err(other)
        }
        F::Inner { check, cfg, level } => {
            log::set_logger(&Composer).ok();
            log::set_max_level(level);
            tr!("{} with messages up to {}", check, level);
            let r = find(check).run(Tier::Quick, cfg);
            log::set_max_level(log::LevelFilter::Off);
            match r {
                // recorded as a finding of its own
                Err(v) if v.key == "quote-in-name" => Ok(()),
                Err(v) => bail!(K, "with messages up to {}: {}", level, v.msg),
                Ok(()) => Ok(()),
            }
        }
    }
}

/// Grows by compression, as is warned of
fn small() -> Rec {
    let mut r = Rec::default();
    r.res_h.push(("content-type".into(), b"text/plain".to_vec()));
    r
}

fn other(v: Viol) -> Viol { Viol { key: K.into(), msg: v.msg } }

/// With flags for more messages, in each form and place
fn detailed(mut com: Vec<String>) -> Vec<String> {
    let n = choose(6);
    if n == 0 { return com; }
    let flags: Vec<String> = match choose(3) {
        0 => vec![format!("-{}", "d".repeat(n))],
        1 => vec!["--debug".to_string(); n],
        _ => vec!["-d".to_string(); n],
    };
    let at = if flip() { 0 } else { com.len() };
    for f in flags.into_iter().rev() { com.insert(at, f); }
    com
}
