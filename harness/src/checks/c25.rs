//! C25: the command line copies and prints exactly the selected records.

use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

use barc::{BarcFile, CompressStrategy, NoCompressStrategy};

use crate::arc::*;
use crate::engine::*;
use crate::util::*;
use crate::{bail, ensure, tr};

use super::c02::Cache;
use super::c03::{strategy, Alg};

pub struct C25;
const K: &str = "cli";
const ALGS: [Alg; 3] = [Alg::Plain, Alg::Gzip, Alg::Brotli];

#[derive(Clone, Copy, Debug, PartialEq)]
pub(super) enum Flag { None, Gzip, Brotli }
pub(super) const FLAGS: [Flag; 3] = [Flag::None, Flag::Gzip, Flag::Brotli];

#[derive(Clone, Debug)]
enum F {
    /// Selection by index or offset, and count
    Sel { cp: Option<Flag>, n: usize, alg: Alg },
    /// All subsets of parts
    Parts { alg: Alg, at: usize },
    /// Selection out of many records
    Many { cp: Option<Flag>, n: usize, alg: Alg },
    /// Several inputs
    Multi { cp: Option<Flag>, files: usize },
    /// Output being an input
    Same { how: usize },
    /// Wrong options, damaged or missing input
    Bad { cp: bool, what: usize },
    /// Offsets beyond 4 GiB, of a sparse file
    Far { cp: Option<Flag>, at: u64 },
    /// Output which can't be written
    Full { records: usize },
    /// Compression of records with various marks
    Mark { flag: Flag },
}

fn cfgs(t: Tier) -> Vec<F> {
    let mut v = vec![];
    for cp in [None, Some(Flag::None), Some(Flag::Gzip), Some(Flag::Brotli)] {
        for n in 0..t.pick(4, 6) {
            for alg in ALGS { v.push(F::Sel { cp, n, alg }); }
        }
        for alg in ALGS { v.push(F::Many { cp, n: 70, alg }); }
        for files in 2..=t.pick(2, 3) { v.push(F::Multi { cp, files }); }
        v.push(F::Multi { cp, files: 12 });
    }
    for alg in ALGS { for at in 0..4 { v.push(F::Parts { alg, at }); } }
    for how in 0..7 { v.push(F::Same { how }); }
    for cp in [false, true] { for what in 0..9 { v.push(F::Bad { cp, what }); } }
    for flag in FLAGS { v.push(F::Mark { flag }); }
    for cp in [None, Some(Flag::None)] { for at in [(1 << 31) + 5, (1 << 32) - 3, 1 << 32, (3 << 31) + 77] { v.push(F::Far { cp, at }); } }
    for records in 1..4 { v.push(F::Full { records }); }
    v
}
static CACHE: Cache<F> = Cache::new();

/// Models of records, which differ in which parts are present
pub(super) fn model(i: usize) -> Rec {
    let mut r = Rec::numbered(i, 3 + i, 7);
    match i % 5 {
        1 => { r.req_b = vec![]; r.res_b = vec![b'c'; 6000]; }
        2 => { r.req_h = vec![]; r.req_b = vec![]; r.res_b = vec![]; }
        3 => { r.res_h.push(("x-more".into(), b"1".to_vec())); r.res_h.push(("x-more".into(), b"2".to_vec())); r.res_b = pattern(5, 3000); }
        4 => { r = Rec { meta: r.meta, ..Default::default() }; }
        _ => {}
    }
    r.meta.push(("response-decoded".into(), b"identity".to_vec()));
    r
}

pub(super) struct Arc { pub path: PathBuf, pub recs: Vec<(u64, Rec)>, pub bytes: Vec<u8> }

pub(super) fn archive(d: &Path, name: &str, recs: Vec<Rec>, alg: Alg) -> Result<Arc, Viol> {
    let path = d.join(name);
    std::fs::remove_file(&path).ok();
    let make = || -> Result<Vec<(u64, Rec)>, String> {
        let f = BarcFile::new(&path);
        let mut w = f.writer().map_err(|e| e.to_string())?;
        let s = strategy(alg, 0);
        let mut v = vec![];
        for r in recs { v.push((w.write(&r.ram(), s.as_ref()).map_err(|e| e.to_string())?, r)); }
        Ok(v)
    };
    match make() {
        Ok(recs) => { let bytes = std::fs::read(&path).unwrap_or_default(); Ok(Arc { path, recs, bytes }) }
        Err(e) => bail!(K, "making an archive: {}", e),
    }
}

pub(super) struct Ran { pub code: Option<i32>, pub out: Vec<u8>, pub err: Vec<u8> }

fn barc(d: &Path, args: &[String]) -> Ran { run_exe("barc", d, args, &[]) }

pub(super) fn run_exe(exe: &str, d: &Path, args: &[String], env: &[(&str, &Path)]) -> Ran { run_to(exe, d, args, env, Stdio::piped()) }

fn run_to(exe: &str, d: &Path, args: &[String], env: &[(&str, &Path)], to: Stdio) -> Ran { run_with(exe, d, args, env, to, Stdio::piped()) }

pub(super) fn run_with(exe: &str, d: &Path, args: &[String], env: &[(&str, &Path)], to: Stdio, err: Stdio) -> Ran {
    let exe = if exe.starts_with('/') { exe.to_string() } else { format!("{}/target/debug/{}", std::env::var("VERIF_ROOT").unwrap_or_default(), exe) };
    tr!("barc {}", args.join(" "));
    let mut c = Command::new(&exe);
    c.args(args).current_dir(d).stdin(Stdio::null()).stdout(to).stderr(err).env_remove("RUST_LOG").envs(env.iter().copied());
    unsafe {
        c.pre_exec(|| {
            // an output growing without end is stopped early
            let l = libc::rlimit { rlim_cur: 1 << 20, rlim_max: 1 << 20 };
            libc::setrlimit(libc::RLIMIT_FSIZE, &l);
            let l = libc::rlimit { rlim_cur: 10, rlim_max: 10 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    match c.output() {
        Ok(o) => {
            tr!("  -> {:?} {}", o.status, String::from_utf8_lossy(&o.stderr).trim());
            observe((o.status.code(), &o.stdout));
            Ran { code: o.status.code(), out: o.stdout, err: o.stderr }
        }
        Err(e) => engine_fail(&format!("can't run {}: {}", exe, e)),
    }
}

#[derive(Clone, Copy, PartialEq)]
pub(super) struct Parts(pub [bool; 5]);
pub(super) const ALL: Parts = Parts([true; 5]);

/// What should be printed of a record
pub(super) fn printed(v: &mut Vec<u8>, name: &str, off: u64, r: &Rec, p: Parts) {
    v.extend_from_slice(format!("====== file {:-<38} offset {:#012x} ======\n", name, off).as_bytes());
    let heads = |v: &mut Vec<u8>, h: &Hdrs| {
        for (n, x) in h {
            v.extend_from_slice(n.as_bytes());
            v.extend_from_slice(b": ");
            v.extend_from_slice(x);
            v.extend_from_slice(b"\r\n");
        }
        if !h.is_empty() { v.extend_from_slice(b"\r\n"); }
    };
    let body = |v: &mut Vec<u8>, b: &[u8]| { v.extend_from_slice(b); if !b.is_empty() { v.extend_from_slice(b"\r\n"); } };
    if p.0[0] { heads(v, &r.meta); }
    if p.0[1] { heads(v, &r.req_h); }
    if p.0[2] { body(v, &r.req_b); }
    if p.0[3] { heads(v, &r.res_h); }
    if p.0[4] { body(v, &r.res_b); }
}

fn same_out(got: &[u8], want: &[u8]) -> Res {
    ensure!(got == want, K, "printed: {}: {:?}", first_diff(got, want), String::from_utf8_lossy(&got[..got.len().min(200)]));
    Ok(())
}

fn rule(f: Flag) -> Box<dyn CompressStrategy> {
    match f {
        Flag::None => Box::new(NoCompressStrategy::default()),
        Flag::Gzip => Box::new(barc::GzipCompressStrategy::default().set_check_identity(true)),
        Flag::Brotli => Box::new(barc::BrotliCompressStrategy::default().set_check_identity(true)),
    }
}

/// Output must begin with what was there, then hold the records, each stored
/// by the rule
pub(super) fn copied(out: &Path, before: &Arc, want: &[&Rec], flag: Flag) -> Res {
    let raw = std::fs::read(out).unwrap_or_default();
    ensure!(raw.starts_with(&before.bytes), K, "existing records of the output changed");
    if want.is_empty() && before.recs.is_empty() && !out.exists() { return Ok(()); }
    // As if written by the library
    let by_lib = fresh("by-lib.barc");
    let lib = || -> Result<Vec<u8>, String> {
        let f = BarcFile::new(&by_lib);
        let mut w = f.writer().map_err(|e| e.to_string())?;
        let s = rule(flag);
        let mut offs = vec![];
        for r in want { offs.push(w.write(&r.ram(), s.as_ref()).map_err(|e| e.to_string())?); }
        let b = std::fs::read(&by_lib).map_err(|e| e.to_string())?;
        Ok(offs.iter().map(|o| b[*o as usize + 20]).collect())
    };
    let flags = match lib() { Ok(f) => f, Err(e) => bail!(K, "{}", e) };
    let f = BarcFile::new(out);
    let mut r = match f.reader() { Ok(r) => r, Err(e) => bail!(K, "reading the output: {}", e) };
    let tn = tune(100_000, 1_000_000, 8192, 65536, &dir("t"));
    let all: Vec<&Rec> = before.recs.iter().map(|(_, r)| r).chain(want.iter().copied()).collect();
    for (i, w) in all.iter().enumerate() {
        let o = r.offset() as usize;
        match next(K, &mut r, &tn)? {
            Some(g) => w.same_quick(K, &g).map_err(|v| Viol { key: v.key, msg: format!("record {} of the output: {}", i, v.msg) })?,
            None => bail!(K, "output has {} records, expected {}", i, all.len()),
        }
        if i >= before.recs.len() {
            let want = flags[i - before.recs.len()];
            ensure!(raw.get(o + 20) == Some(&want), K, "record {} is stored as {:?}, expected {:?}", i, raw.get(o + 20).map(|b| *b as char), want as char);
        }
    }
    ensure!(next(K, &mut r, &tn)?.is_none(), K, "output has more than the {} records expected", all.len());
    Ok(())
}

pub(super) fn untouched(a: &Arc) -> Res {
    let b = std::fs::read(&a.path).unwrap_or_default();
    ensure!(b == a.bytes, K, "input {} changed: {}", a.path.display(), first_diff(&b, &a.bytes));
    Ok(())
}

pub(super) fn name(a: &Arc) -> String { a.path.file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default() }

pub(super) fn output(d: &Path, existing: bool) -> Result<Arc, Viol> {
    if existing { archive(d, "out.barc", vec![model(3), model(10)], Alg::Gzip) } else {
        let path = d.join("out.barc");
        std::fs::remove_file(&path).ok();
        Ok(Arc { path, recs: vec![], bytes: vec![] })
    }
}

fn cmd(cp: Option<Flag>) -> Vec<String> {
    match cp {
        None => vec!["cat".into()],
        Some(Flag::None) => vec!["cp".into()],
        Some(Flag::Gzip) => vec!["cp".into(), one(&["-z", "--gzip"]).into()],
        Some(Flag::Brotli) => vec!["cp".into(), one(&["-b", "--brotli"]).into()],
    }
}

fn ok(r: &Ran) -> Res { ensure!(r.code == Some(0), K, "exit status {:?}", r.code); Ok(()) }

fn run(f: &F) -> Res {
    let d = dir("cli");
    match *f {
        F::Sel { cp, n, alg } => {
            let a = archive(&d, "in.barc", (0..n).map(model).collect(), alg)?;
            let mut com = cmd(cp);
            let mut args: Vec<String> = vec![];
            let mut from = 0;
            let (mut fail, mut beyond) = (false, false);
            // start: none, index, offset in decimal or hex, or within a record
            match choose(6) {
                0 => {}
                5 => {
                    // beyond the end, or all files: there is nothing
                    args.push("-o".into());
                    args.push(one(&[a.bytes.len() as u64 + 1, 1 << 32, i64::MAX as u64 + 1, u64::MAX]).to_string());
                    from = n;
                    beyond = true;
                }
                1 => {
                    let i = choose(n + 2);
                    args.push(one(&["-i", "--index"]).into());
                    args.push(i.to_string());
                    from = i.min(n);
                }
                2 | 3 if n == 0 => { args.push("-o".into()); args.push("0".into()); }
                c @ (2 | 3) => {
                    from = choose(n + 1);
                    let off = if from < n { a.recs[from].0 } else { a.bytes.len() as u64 };
                    args.push(one(&["-o", "--offset"]).into());
                    args.push(if c == 2 { off.to_string() } else { format!("{:#x}", off) });
                }
                _ => if n > 0 {
                    let i = choose(n);
                    args.push("-o".into());
                    args.push((a.recs[i].0 + one(&[1u64, 54])).to_string());
                    from = n;
                    fail = true;
                },
            }
            let mut to = n;
            // without any record selected, it may remain unnoticed
            let mut none = false;
            match choose(5) {
                0 => {}
                c => {
                    let k = if c == 4 { usize::MAX } else { c - 1 };
                    none = k == 0;
                    args.push(one(&["-c", "--count"]).into());
                    args.push(k.to_string());
                    to = from.saturating_add(k).min(n);
                }
            }
            let sel = &a.recs[from..to];
            match cp {
                None => {
                    // options may come first or last
                    if flip() { com.append(&mut args); }
                    com.push(name(&a));
                    com.append(&mut args);
                    let r = barc(&d, &com);
                    if fail { ensure!((none || r.code != Some(0)) && r.out.is_empty(), K, "printed from within a record"); return untouched(&a); }
                    if !beyond { ok(&r)?; }
                    let mut want = vec![];
                    for (o, rec) in sel { printed(&mut want, "in.barc", *o, rec, ALL); }
                    same_out(&r.out, &want)?;
                }
                Some(flag) => {
                    let out = output(&d, flip())?;
                    // options with a value are only understood at the end
                    com.push(name(&a));
                    com.push(name(&out));
                    com.append(&mut args);
                    let r = barc(&d, &com);
                    if fail { ensure!(none || r.code != Some(0), K, "copied from within a record"); } else if !beyond { ok(&r)?; }
                    let want: Vec<&Rec> = sel.iter().map(|(_, r)| r).collect();
                    copied(&out.path, &out, &want, flag)?;
                }
            }
            observe((from, to, fail));
            untouched(&a)
        }
        F::Many { cp, n, alg } => {
            let a = archive(&d, "in.barc", (0..n).map(model).collect(), alg)?;
            let mut com = cmd(cp);
            let mut args: Vec<String> = vec![];
            let from = one(&[0, 9, 10, 64, n - 1]);
            if flip() {
                args.push("-i".into());
                args.push(from.to_string());
            } else {
                args.push("-o".into());
                args.push(a.recs[from].0.to_string());
            }
            let to = match one(&[None, Some(1), Some(12), Some(1000)]) {
                None => n,
                Some(k) => {
                    args.push("-c".into());
                    args.push(k.to_string());
                    (from + k).min(n)
                }
            };
            com.push(name(&a));
            let sel = &a.recs[from..to];
            observe((from, to));
            match cp {
                None => {
                    com.append(&mut args);
                    let r = barc(&d, &com);
                    ok(&r)?;
                    let mut want = vec![];
                    for (o, rec) in sel { printed(&mut want, "in.barc", *o, rec, ALL); }
                    same_out(&r.out, &want)?;
                }
                Some(flag) => {
                    let out = output(&d, false)?;
                    com.push(name(&out));
                    com.append(&mut args);
                    ok(&barc(&d, &com))?;
                    let want: Vec<&Rec> = sel.iter().map(|(_, r)| r).collect();
                    copied(&out.path, &out, &want, flag)?;
                }
            }
            untouched(&a)
        }
        F::Parts { alg, at } => {
            let a = archive(&d, "in.barc", vec![model(at), model(at + 5)], alg)?;
            let mut p = Parts([false; 5]);
            let mut args = vec!["cat".to_string()];
            for (i, n) in ["--meta", "--req-head", "--req-body", "--res-head", "--res-body"].iter().enumerate() {
                if flip() { p.0[i] = true; args.push(n.to_string()); }
            }
            if p.0.iter().all(|x| !x) { p = ALL; }
            args.push(name(&a));
            let r = barc(&d, &args);
            ok(&r)?;
            let mut want = vec![];
            for (o, rec) in &a.recs { printed(&mut want, "in.barc", *o, rec, p); }
            same_out(&r.out, &want)?;
            untouched(&a)
        }
        F::Multi { cp, files } => {
            let mut args = cmd(cp);
            let mut arcs = vec![];
            // with many, the last is varied
            let free = |i: usize| files < 4 || i + 1 == files;
            for i in 0..files {
                if i > 0 && free(i) && choose(4) == 3 { arcs.push(arcs.len() - 1); continue; }
                arcs.push(i);
            }
            // one archive for each, or the previous again
            let mut made: Vec<Arc> = vec![];
            let mut order = vec![];
            for (i, w) in arcs.iter().enumerate() {
                if *w == i {
                    let n = if free(i) { choose(3) } else { 1 + i % 2 };
                    made.push(archive(&d, &format!("in{}.barc", i), (0..n).map(|k| model(4 * i + k)).collect(), if free(i) { one(&[Alg::Plain, Alg::Gzip]) } else { Alg::Plain })?);
                }
                order.push(made.len() - 1);
            }
            // a name longer than the label is padded to
            let long = flip();
            if long { if let Some(m) = made.last_mut() {
                let p = d.join("a-rather-long-name-for-an-archive-of-records.barc");
                std::fs::rename(&m.path, &p).expect("rename");
                m.path = p;
            } }
            for o in &order { args.push(name(&made[*o])); }
            match cp {
                None => {
                    let r = barc(&d, &args);
                    ok(&r)?;
                    let mut want = vec![];
                    for i in &order { for (o, rec) in &made[*i].recs { printed(&mut want, &name(&made[*i]), *o, rec, ALL); } }
                    same_out(&r.out, &want)?;
                }
                Some(flag) => {
                    let out = output(&d, flip())?;
                    args.push(name(&out));
                    let r = barc(&d, &args);
                    ok(&r)?;
                    let want: Vec<&Rec> = order.iter().flat_map(|i| made[*i].recs.iter().map(|(_, r)| r)).collect();
                    copied(&out.path, &out, &want, flag)?;
                }
            }
            for a in &made { untouched(a)?; }
            Ok(())
        }
        F::Same { how } => {
            let a = archive(&d, "in.barc", vec![model(0), model(1)], Alg::Plain)?;
            let other = archive(&d, "other.barc", vec![model(3)], Alg::Plain)?;
            let link = d.join("link.barc");
            std::fs::remove_file(&link).ok();
            let out = match how {
                0 => "in.barc".to_string(),
                1 => "./in.barc".into(),
                2 => a.path.to_string_lossy().into_owned(),
                3 => "../cli/in.barc".into(),
                4 => { std::os::unix::fs::symlink("in.barc", &link).expect("symlink"); "link.barc".into() }
                5 => { std::fs::hard_link(&a.path, &link).expect("link"); "link.barc".into() }
                _ => ".//in.barc".into(),
            };
            let ins: Vec<&str> = match choose(5) { 0 => vec!["in.barc"], 1 => vec!["other.barc", "in.barc"], 2 => vec!["in.barc", "other.barc"],
                3 => { let mut v = vec!["other.barc"; 9]; v.push("in.barc"); v }
                _ => vec!["in.barc", "in.barc"] };
            let mut args = vec!["cp".to_string()];
            args.extend(ins.iter().map(|s| s.to_string()));
            args.push(out.clone());
            let r = barc(&d, &args);
            let grown = std::fs::metadata(&a.path).map(|m| m.len()).unwrap_or(0);
            if grown > 1 << 19 { std::fs::remove_file(&a.path).ok(); }
            ensure!(r.code.is_some_and(|c| c != 0), K, "copying to {} which is an input: exit status {:?}, {} bytes", out, r.code, grown);
            untouched(&a)?;
            untouched(&other)
        }
        F::Bad { cp, what } => {
            let mut a = archive(&d, "in.barc", vec![model(0), model(1), model(3)], Alg::Plain)?;
            let b = archive(&d, "other.barc", vec![model(4)], Alg::Plain)?;
            let out = output(&d, flip())?;
            let mut args = vec![];
            let mut ins = vec!["in.barc"];
            // how many records may have been handled before failing
            let mut good = 0;
            match what {
                0 => { args.extend(["-c", "x"].map(String::from)); }
                1 => { args.extend(["-i", "-1"].map(String::from)); }
                2 => { args.extend(["-o", "0xg"].map(String::from)); }
                3 => { args.extend(["-i", "1", "-o", "0"].map(String::from)); }
                4 => { args.extend(["-c", "1"].map(String::from)); ins.push("other.barc"); }
                5 => { args.extend([one(&["-i", "-o"]), "0"].map(String::from)); ins.push("other.barc"); }
                6 => ins = vec!["missing.barc"],
                7 => {
                    // a damaged head of the last record
                    let o = a.recs[2].0 as usize;
                    a.bytes[o] ^= 0x20;
                    std::fs::write(&a.path, &a.bytes).expect("write");
                    good = 2;
                }
                _ => {
                    // the last record is cut off
                    a.bytes.truncate(a.recs[2].0 as usize + one(&[1usize, 53, 54, 100]));
                    std::fs::write(&a.path, &a.bytes).expect("write");
                    good = 2;
                }
            }
            // what is wrong does not matter if not of a record selected
            let mut fails = true;
            if good > 0 {
                if let Some(n) = pick(&[None, Some(0), Some(1), Some(2), Some(3)]) {
                    args.extend(["-c".to_string(), n.to_string()]);
                    good = good.min(*n);
                    fails = *n > 2;
                }
            }
            let mut com = vec![if cp { "cp" } else { "cat" }.to_string()];
            com.extend(ins.iter().map(|s| s.to_string()));
            if cp { com.push("out.barc".into()); }
            com.extend(args);
            let r = barc(&d, &com);
            ensure!(r.code.is_some_and(|c| (c != 0) == fails), K, "exit status {:?}, {} expected", r.code, if fails { "failure" } else { "success" });
            let recs: Vec<&Rec> = a.recs[..good].iter().map(|(_, r)| r).collect();
            if cp { copied(&out.path, &out, &recs, Flag::None)?; } else {
                let mut want = vec![];
                for (o, rec) in &a.recs[..good] { printed(&mut want, "in.barc", *o, rec, ALL); }
                same_out(&r.out, &want)?;
            }
            untouched(&a)?;
            untouched(&b)
        }
        F::Far { cp, at } => {
            use std::os::unix::fs::FileExt;
            let a = archive(&d, "near.barc", vec![model(0), model(1), model(3)], Alg::Plain)?;
            let far = d.join("far.barc");
            std::fs::remove_file(&far).ok();
            // a hole, then the same records
            let made = with_file_limit(8 << 30, || std::fs::File::create(&far).and_then(|f| f.write_all_at(&a.bytes, at)));
            if let Err(e) = made { engine_fail(&format!("sparse file: {}", e)); }
            let from = choose(a.recs.len() + 1);
            let off = at + if from < a.recs.len() { a.recs[from].0 } else { a.bytes.len() as u64 };
            let mut com = cmd(cp);
            com.push("far.barc".into());
            let out = output(&d, false)?;
            if cp.is_some() { com.push(name(&out)); }
            com.push("-o".into());
            com.push(if flip() { off.to_string() } else { format!("{:#x}", off) });
            let mut to = a.recs.len();
            if flip() { com.extend(["-c", "1"].map(String::from)); to = to.min(from + 1); }
            let r = barc(&d, &com);
            std::fs::remove_file(&far).ok();
            ok(&r)?;
            let sel = &a.recs[from..to];
            match cp {
                None => {
                    let mut want = vec![];
                    for (o, rec) in sel { printed(&mut want, "far.barc", at + *o, rec, ALL); }
                    same_out(&r.out, &want)
                }
                Some(flag) => copied(&out.path, &out, &sel.iter().map(|(_, r)| r).collect::<Vec<_>>(), flag),
            }
        }
        F::Full { records } => {
            let a = archive(&d, "in.barc", (0..records).map(model).collect(), Alg::Plain)?;
            let mut args = vec!["cat".to_string()];
            for p in ["--meta", "--req-head", "--req-body", "--res-head", "--res-body"] { if flip() { args.push(p.into()); } }
            args.push(name(&a));
            let to = std::fs::OpenOptions::new().write(true).open("/dev/full");
            let to = match to { Ok(f) => f, Err(e) => engine_fail(&format!("/dev/full: {}", e)) };
            let r = run_to("barc", &d, &args, &[], to.into());
            ensure!(r.code != Some(0), K, "nothing could be printed, but the exit status is 0");
            untouched(&a)
        }
        F::Mark { flag } => {
            let mut m = model(1);
            let n = one(&[6000usize, 0, 4000, 4200, 700, 20]);
            m.res_b = vec![b'c'; n];
            m.meta.pop();
            match choose(4) {
                0 => m.meta.push(("response-decoded".into(), b"identity".to_vec())),
                1 => m.meta.push(("response-decoded".into(), b"chunked".to_vec())),
                2 => m.meta.push(("response-decoded".into(), b"chunked,gzip,identity".to_vec())),
                _ => {}
            }
            match choose(3) {
                0 => {}
                1 => m.res_h[0].1 = b"image/png".to_vec(),
                _ => m.res_h.push(("content-encoding".into(), b"gzip".to_vec())),
            }
            let a = archive(&d, "in.barc", vec![m.clone(), m], one(&ALGS))?;
            let out = output(&d, flip())?;
            let mut args = cmd(Some(flag));
            args.push(name(&a));
            args.push(name(&out));
            ok(&barc(&d, &args))?;
            let want: Vec<&Rec> = a.recs.iter().map(|(_, r)| r).collect();
            copied(&out.path, &out, &want, flag)?;
            untouched(&a)
        }
    }
}

impl Check for C25 {
    fn id(&self) -> &'static str { "C25" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("{} configurations of cat and cp run as a process: archives of 0 to {} records in 3 compressions with all starts by index or offset (decimal, hex, within a record, beyond the end) and counts; all subsets of parts; lists of up to {} inputs, and of 12; 7 ways of naming the output like an input, in all positions; wrong options and damaged inputs; offsets beyond 4 GiB; an output which can not be written; marks deciding compression", CACHE.get(t, cfgs).len(), t.pick(3, 5), t.pick(2, 3))
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["built without the futio feature, as the network command needs OpenSSL 1.x"] }
    fn configs(&self, t: Tier) -> usize { CACHE.get(t, cfgs).len() }
    fn describe(&self, t: Tier, c: usize) -> String { format!("{:?}", CACHE.get(t, cfgs)[c]) }
    fn run(&self, t: Tier, c: usize) -> Res { run(&CACHE.get(t, cfgs)[c]) }
}
