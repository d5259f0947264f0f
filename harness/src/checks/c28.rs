//! C28: the record command archives the exchange, or leaves the archive as is.

use std::path::Path;

use body_image::Encoding;
use body_image_futio::{user_agent, ACCEPT_ENCODINGS, BROWSE_ACCEPT};

use crate::arc::*;
use crate::engine::*;
use crate::util::*;
use crate::{bail, ensure, tr};

use super::c02::Cache;
use super::c03::compress;
use super::c25::{copied, output, run_exe, Arc, Flag, Ran, FLAGS};

pub struct C28;
const K: &str = "record";

#[derive(Clone, Copy, Debug, PartialEq)]
enum Framing { Length, Chunked, Close }
const FRAMINGS: [Framing; 3] = [Framing::Length, Framing::Chunked, Framing::Close];

#[derive(Clone, Debug)]
enum F {
    /// Ways to encode, store and frame
    Store { enc: usize, framing: Framing, decode: bool },
    /// Every split in two
    Split { enc: usize, framing: Framing },
    /// Broken off at every point
    Cut { framing: Framing, reset: bool },
    /// Encodings which can't be decoded
    Bad { decode: bool },
    /// Other failures
    Fail,
    /// The request
    Request,
    /// Several in sequence
    Sequence,
}

/// Name in the header, and encoding
const ENCS: [(&str, Encoding); 6] = [("", Encoding::Identity), ("gzip", Encoding::Gzip), ("deflate", Encoding::Deflate), ("br", Encoding::Brotli),
    ("x-gzip", Encoding::Gzip), ("identity", Encoding::Identity)];

fn cfgs(_t: Tier) -> Vec<F> {
    let mut v = vec![];
    for enc in 0..ENCS.len() {
        for framing in FRAMINGS {
            for decode in [true, false] { v.push(F::Store { enc, framing, decode }); }
            if enc < 2 { v.push(F::Split { enc, framing }); }
        }
    }
    for framing in FRAMINGS { for reset in [false, true] { v.push(F::Cut { framing, reset }); } }
    for decode in [true, false] { v.push(F::Bad { decode }); }
    v.push(F::Fail);
    v.push(F::Request);
    v.push(F::Sequence);
    v
}
static CACHE: Cache<F> = Cache::new();

struct Resp { status: &'static str, headers: Hdrs, framing: Framing, body: Vec<u8> }

impl Resp {
    fn new(enc: usize, framing: Framing, plain: &[u8]) -> Resp {
        let (name, e) = ENCS[enc];
        let mut headers: Hdrs = vec![("content-type".into(), b"text/html".to_vec()), ("set-cookie".into(), b"a".to_vec()), ("set-cookie".into(), b"b".to_vec())];
        if !name.is_empty() { headers.push(("content-encoding".into(), name.as_bytes().to_vec())); }
        Resp { status: "200 OK", headers, framing, body: compress(e, plain) }
    }
    fn heads(&self) -> Hdrs {
        let mut h = self.headers.clone();
        match self.framing {
            Framing::Length => h.push(("content-length".into(), self.body.len().to_string().into_bytes())),
            Framing::Chunked => h.push(("transfer-encoding".into(), b"chunked".to_vec())),
            Framing::Close => {}
        }
        h
    }
    fn wire(&self) -> (Vec<u8>, usize) {
        let mut w = format!("HTTP/1.1 {}\r\n", self.status).into_bytes();
        for (n, v) in self.heads() { w.extend_from_slice(n.as_bytes()); w.extend_from_slice(b": "); w.extend_from_slice(&v); w.extend_from_slice(b"\r\n"); }
        w.extend_from_slice(b"\r\n");
        let head = w.len();
        if self.framing == Framing::Chunked {
            for c in self.body.chunks(7.max(self.body.len() / 3)) {
                w.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
                w.extend_from_slice(c);
                w.extend_from_slice(b"\r\n");
            }
            w.extend_from_slice(b"0\r\n\r\n");
        } else { w.extend_from_slice(&self.body); }
        (w, head)
    }
    /// The record of it
    fn rec(&self, url: &str, accept: Option<&str>, decoded: Option<(&[u8], Encoding)>) -> Rec {
        let mut dec: Vec<&str> = vec![];
        if self.framing == Framing::Chunked { dec.push("chunked"); }
        let mut body = self.body.clone();
        if let Some((plain, e)) = decoded {
            body = plain.to_vec();
            match e { Encoding::Gzip => dec.push("gzip"), Encoding::Deflate => dec.push("deflate"), Encoding::Brotli => dec.push("br"), _ => {} }
            dec.push("identity");
        }
        let s = |n: &str, v: &str| (n.to_string(), v.as_bytes().to_vec());
        let mut meta = vec![s("url", url), s("method", "GET"), s("response-version", "HTTP/1.1"), s("response-status", self.status)];
        if !dec.is_empty() { meta.push(s("response-decoded", &dec.join(", "))); }
        Rec { meta, req_h: req_headers(accept), req_b: vec![], res_h: self.heads(), res_b: body }
    }
}

fn req_headers(accept: Option<&str>) -> Hdrs {
    let s = |n: &str, v: &str| (n.to_string(), v.as_bytes().to_vec());
    vec![s("accept", accept.unwrap_or(BROWSE_ACCEPT)), s("accept-language", "en"), s("accept-encoding", ACCEPT_ENCODINGS), s("user-agent", &user_agent())]
}

enum End { Open, Close, Reset, Refuse }

/// Run the command against a server sending these pieces
fn record(d: &Path, pieces: &[&[u8]], end: End, args: &[&str]) -> (Ran, Vec<u8>) {
    let mut s = String::new();
    for p in pieces {
        s.push_str("yield\nsend ");
        for b in *p { s.push_str(&format!("{:02x}", b)); }
        s.push('\n');
    }
    match end { End::Open => {} End::Close => s.push_str("yield\nclose\n"), End::Reset => s.push_str("reset\n"), End::Refuse => s.push_str("refuse\n") }
    let script = d.join("script");
    let log = d.join("script.req");
    std::fs::remove_file(&log).ok();
    std::fs::write(&script, s).expect("script");
    let mut a = vec!["record".to_string()];
    a.extend(args.iter().map(|s| s.to_string()));
    let r = run_exe("barcn", d, &a, &[("MC_SCRIPT", &script)]);
    (r, std::fs::read(&log).unwrap_or_default())
}

fn flag_args(f: Flag) -> Vec<&'static str> {
    match f { Flag::None => vec![], Flag::Gzip => vec![one(&["-z", "--gzip"])], Flag::Brotli => vec![one(&["-b", "--brotli"])] }
}

fn ends(f: Framing) -> End { if f == Framing::Close { End::Close } else { End::Open } }

fn good(r: &Ran) -> Res { ensure!(r.code == Some(0), K, "exit status {:?}", r.code); Ok(()) }

/// Failed, and the archive is as before
fn failed(r: &Ran, out: &Arc) -> Res {
    ensure!(r.code.is_some_and(|c| c != 0), K, "exit status {:?} though it can't be recorded", r.code);
    if out.recs.is_empty() { ensure!(!out.path.exists() || std::fs::metadata(&out.path).map_or(false, |m| m.len() == 0), K, "an archive was written"); return Ok(()); }
    let b = std::fs::read(&out.path).unwrap_or_default();
    ensure!(b == out.bytes, K, "the archive changed: {}", first_diff(&b, &out.bytes));
    Ok(())
}

const URL: &str = "http://h.test/a?b=c";

fn run(f: &F) -> Res {
    let d = dir("record");
    match *f {
        F::Store { enc, framing, decode } => {
            let n = one(&[20usize, 6000, 0, 1, 300_000]);
            if n == 0 && !matches!(ENCS[enc].1, Encoding::Identity) { return Ok(()); }
            let plain = if n == 6000 { vec![b'p'; n] } else { pattern(3, n) };
            let mut r = Resp::new(enc, framing, &plain);
            if n == 20 { r.status = one(&["200 OK", "404 Not Found"]); }
            if n == 6000 { r.headers[0].1 = one(&["text/html", "image/png"]).as_bytes().to_vec(); }
            let flag = one(&FLAGS);
            let out = output(&d, flip())?;
            let (w, _) = r.wire();
            let mut args = flag_args(flag);
            if !decode { args.push("--no-decode"); }
            args.extend([URL, "out.barc"]);
            let (ran, _) = record(&d, &[&w], ends(framing), &args);
            good(&ran)?;
            let rec = r.rec(URL, None, if decode { Some((&plain, ENCS[enc].1)) } else { None });
            copied(&out.path, &out, &[&rec], flag)
        }
        F::Split { enc, framing } => {
            let plain = pattern(3, 20);
            let r = Resp::new(enc, framing, &plain);
            let (w, _) = r.wire();
            let c = choose(w.len());
            let out = output(&d, true)?;
            let (ran, _) = record(&d, &[&w[..c], &w[c..]], ends(framing), &[URL, "out.barc"]);
            good(&ran)?;
            copied(&out.path, &out, &[&r.rec(URL, None, Some((&plain, ENCS[enc].1)))], Flag::None)
        }
        F::Cut { framing, reset } => {
            let plain = pattern(3, 12);
            let r = Resp::new(0, framing, &plain);
            let (w, head) = r.wire();
            let c = choose(w.len() + 1);
            let out = output(&d, true)?;
            let (ran, _) = record(&d, &[&w[..c]], if reset { End::Reset } else { End::Close }, &[URL, "out.barc"]);
            if framing == Framing::Close && !reset && c >= head {
                good(&ran)?;
                let r = Resp { body: w[head..c].to_vec(), ..r };
                return copied(&out.path, &out, &[&r.rec(URL, None, Some((&w[head..c], Encoding::Identity)))], Flag::None);
            }
            if c == w.len() && framing != Framing::Close {
                good(&ran)?;
                return copied(&out.path, &out, &[&r.rec(URL, None, Some((&plain, Encoding::Identity)))], Flag::None);
            }
            failed(&ran, &out)
        }
        F::Bad { decode } => {
            // Unsupported, damaged at each byte of a header, or cut short
            let plain = pattern(3, 40);
            let mut r = Resp::new(one(&[1, 2, 3]), one(&[Framing::Length, Framing::Chunked]), &plain);
            let last = r.headers.len() - 1;
            match choose(3) {
                0 => { r.headers[last].1 = b"compress".to_vec(); }
                1 => { let n = choose(r.body.len() - 1) + 1; r.body.truncate(n); }
                _ => {
                    r.headers[last].1 = b"gzip".to_vec();
                    r.body = compress(Encoding::Gzip, &plain);
                    let i = one(&[0usize, 1, 2, r.body.len() - 8, r.body.len() - 5, r.body.len() - 4, r.body.len() - 1]);
                    r.body[i] ^= 0x41;
                }
            }
            let out = output(&d, flip())?;
            let (w, _) = r.wire();
            let mut args = vec![];
            if !decode { args.push("--no-decode"); }
            args.extend([URL, "out.barc"]);
            let (ran, _) = record(&d, &[&w], End::Open, &args);
            if decode { failed(&ran, &out) } else {
                good(&ran)?;
                copied(&out.path, &out, &[&r.rec(URL, None, None)], Flag::None)
            }
        }
        F::Fail => {
            let r = Resp::new(0, Framing::Length, b"abc");
            let (w, _) = r.wire();
            let out = output(&d, flip())?;
            match choose(6) {
                0 => { let (ran, _) = record(&d, &[&w], End::Refuse, &[URL, "out.barc"]); failed(&ran, &out) }
                1 => {
                    let u = one(&["http://", "/p", "h h", ""]);
                    let (ran, _) = record(&d, &[&w], End::Open, &[u, "out.barc"]);
                    failed(&ran, &out)
                }
                2 => {
                    let (ran, _) = record(&d, &[b"HTTP/1.1 200 OK\r\ncontent-length: 1073741825\r\n\r\nabc"], End::Open, &[URL, "out.barc"]);
                    failed(&ran, &out)
                }
                3 => { let (ran, _) = record(&d, &[&w], End::Open, &[URL]); failed(&ran, &out) }
                4 => { let (ran, _) = record(&d, &[&w], End::Open, &["-z", "-b", URL, "out.barc"]); failed(&ran, &out) }
                _ => {
                    // Output in no directory, or a directory
                    let o = one(&["none/out.barc", "."]);
                    let (ran, _) = record(&d, &[&w], End::Open, &[URL, o]);
                    failed(&ran, &out)
                }
            }
        }
        F::Request => {
            let r = Resp::new(0, Framing::Length, b"abc");
            let (w, _) = r.wire();
            let out = output(&d, flip())?;
            let accept = one(&[None, Some("*/*"), Some("image/png, x/y;q=0.5")]);
            let (url, path) = one(&[(URL, "/a?b=c"), ("http://h.test", "/"), ("http://h.test:8080/x%20y", "/x%20y"), ("https://h.test/", "/")]);
            let mut args = vec![];
            if let Some(a) = accept { args.extend(["--accept", a]); }
            args.extend([url, "out.barc"]);
            let (ran, req) = record(&d, &[&w], End::Open, &args);
            good(&ran)?;
            let text = String::from_utf8_lossy(&req).to_string();
            tr!("{}", text);
            ensure!(text.starts_with(&format!("GET {} HTTP/1.1\r\n", path)), K, "request {:?}", text);
            let lines: Vec<&str> = text.split("\r\n").collect();
            for (n, v) in req_headers(accept) {
                let l = format!("{}: {}", n, String::from_utf8_lossy(&v));
                ensure!(lines.iter().any(|x| x.eq_ignore_ascii_case(&l)), K, "{:?} is not in the request {:?}", l, text);
            }
            let url = if url == "http://h.test" { "http://h.test/" } else { url };
            copied(&out.path, &out, &[&r.rec(url, accept, Some((b"abc", Encoding::Identity)))], Flag::None)
        }
        F::Sequence => {
            // Recorded or failed, each with other options
            let mut out = output(&d, flip())?;
            let mut recs: Vec<(Rec, Flag)> = vec![];
            for i in 0..3 {
                let plain = vec![b'a' + i as u8; 5000];
                let r = Resp::new(1, Framing::Chunked, &plain);
                let (w, head) = r.wire();
                let flag = one(&FLAGS);
                let whole = flip();
                let mut args = match flag { Flag::None => vec![], Flag::Gzip => vec!["-z"], Flag::Brotli => vec!["-b"] };
                args.extend([URL, "out.barc"]);
                let (ran, _) = record(&d, &[&w[..if whole { w.len() } else { head + 3 }]], End::Close, &args);
                if whole {
                    good(&ran)?;
                    let rec = r.rec(URL, None, Some((&plain, Encoding::Gzip)));
                    copied(&out.path, &out, &[&rec], flag)?;
                    recs.push((rec.clone(), flag));
                    out.recs.push((0, rec));
                    out.bytes = std::fs::read(&out.path).unwrap_or_default();
                } else {
                    failed(&ran, &out)?;
                }
            }
            if recs.len() > 3 { bail!(K, "unreachable"); }
            Ok(())
        }
    }
}

impl Check for C28 {
    fn id(&self) -> &'static str { "C28" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("{} configurations of the record command run as a process against a scripted server: 6 encodings, 3 framings, sizes from 0 to 300,000 and 3 ways to store, decoded or not, into new and existing archives; every split in two; broken off and reset at every byte; undecodable bodies; failures; all sequences of 3 of whole and broken off responses", CACHE.get(t, cfgs).len())
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["the server is a stand-in for hyper-tls within the process, so neither sockets nor TLS are part of it"] }
    fn configs(&self, t: Tier) -> usize { CACHE.get(t, cfgs).len() }
    fn describe(&self, t: Tier, c: usize) -> String { format!("{:?}", CACHE.get(t, cfgs)[c]) }
    fn run(&self, t: Tier, c: usize) -> Res { run(&CACHE.get(t, cfgs)[c]) }
}
