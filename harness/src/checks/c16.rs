//! C16: dialog to record and back.
//! C17: compression exactly by the rule, and flagged truthfully.

use std::convert::TryFrom;
use std::fs::File;
use std::io::Read;

use barc::{BarcError, BarcFile, BrotliCompressStrategy, CompressStrategy, EncodeWrapper, GzipCompressStrategy,
           MetaRecorded, NoCompressStrategy, Record};
use body_image::{Dialog, Encoding, Epilog, Prolog, Recorded, RequestRecorded};
use http::{Method, StatusCode, Uri, Version};

use crate::arc::*;
use crate::engine::*;
use crate::util::*;
use crate::{bail, ensure, tr};

use super::c02::Cache;
use super::c03::{strategy, Alg};

pub struct C16;
pub struct C17;

const K16: &str = "dialog";
const K16M: &str = "malformed";
pub const ENCS: [Encoding; 6] = [Encoding::Chunked, Encoding::Deflate, Encoding::Gzip, Encoding::Brotli, Encoding::Compress, Encoding::Identity];
pub const VERS: [Version; 5] = [Version::HTTP_11, Version::HTTP_10, Version::HTTP_09, Version::HTTP_2, Version::HTTP_3];

pub fn methods() -> Vec<Method> {
    ["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "CONNECT", "PATCH", "TRACE", "PROPFIND", "get", "a", "M-SEARCH!#$%&'*+.^_`|~",
     "X-A-METHOD-NAME-LONGER-THAN-WHAT-IS-KEPT-INLINE"]
        .iter().filter_map(|m| Method::from_bytes(m.as_bytes()).ok()).collect()
}

pub fn urls() -> Vec<Uri> {
    let mut v: Vec<Vec<u8>> = ["http://h/", "http://h", "https://u@h.example.com:8080/p/a?q=1&r=%20", "/", "*", "/only/path?x", "h.example.com:443",
        "http://[::1]:80/x", "http://h/?", "http://h/a//b;c=d,e", "HTTP://H.ORG/Path", "ftp+x://h/", "http://h/%F0%9F%98%80",
        "http://h/~!$&'()*+,;=:@-._{}|\"", "localhost", "http://h?q"].iter().map(|s| s.as_bytes().to_vec()).collect();
    v.push(b"http://h/caf\xc3\xa9?\xe2\x82\xac".to_vec());
    v.push([b"http://h/".to_vec(), vec![b'p'; 3000]].concat());
    v.iter().filter_map(|b| Uri::try_from(&b[..]).ok()).collect()
}

/// Distinct values of meta headers that are not what a dialog gives
fn bad_meta() -> Vec<(&'static str, Option<&'static [u8]>)> {
    vec![
        ("url", None), ("url", Some(b"")), ("url", Some(b"http://")), ("url", Some(b"a b")), ("url", Some(b"http://h/ x")), ("url", Some(b"http:///x")),
        ("method", None), ("method", Some(b"")), ("method", Some(b"G ET")), ("method", Some(b"GET/")), ("method", Some(b"\xe9")),
        ("response-version", None), ("response-version", Some(b"")), ("response-version", Some(b"HTTP/1.2")), ("response-version", Some(b"HTTP/1")), ("response-version", Some(b"http/1.1")), ("response-version", Some(b"HTTP/1.10")), ("response-version", Some(b"HTTP/4.0")), ("response-version", Some(b"1.1")),
        ("response-status", None), ("response-status", Some(b"")), ("response-status", Some(b"20")), ("response-status", Some(b"2")), ("response-status", Some(b"abc")), ("response-status", Some(b"2x0")), ("response-status", Some(b"099 X")), ("response-status", Some(b"000")), ("response-status", Some(b"OK 200")), ("response-status", Some(b"-10")),
        ("response-decoded", Some(b"")), ("response-decoded", Some(b"foo")), ("response-decoded", Some(b"gzip,")), ("response-decoded", Some(b"chunked gzip")), ("response-decoded", Some(b"gzip;x")), ("response-decoded", Some(b"\xffgzip")), ("response-decoded", Some(b"gzip, unknown")), ("response-decoded", Some(b"brotli")),
    ]
}

#[derive(Clone, Debug)]
enum F16 { Methods, Urls(Option<Alg>), Status(Option<Alg>), Decoded(Option<Alg>, usize), Bodies(Option<Alg>, Make, Make), Headers(Option<Alg>), Bad, Type }

fn cfgs16(t: Tier) -> Vec<F16> {
    let mut v = vec![F16::Methods, F16::Bad, F16::Type];
    for via in [None, Some(Alg::Plain), Some(Alg::Gzip), Some(Alg::Brotli)] {
        v.push(F16::Urls(via));
        v.push(F16::Status(via));
        v.push(F16::Decoded(via, t.pick(if via.is_none() { 4 } else { 3 }, 5)));
        v.push(F16::Headers(via));
        for a in MAKES { for b in MAKES { if t == Tier::Thorough || a == b || via.is_none() { v.push(F16::Bodies(via, a, b)); } } }
    }
    v
}
static CACHE16: Cache<F16> = Cache::new();

struct D { m: Method, u: Uri, v: Version, s: StatusCode, dec: Vec<Encoding>, qh: Hdrs, sh: Hdrs, qb: Vec<u8>, sb: Vec<u8> }
fn dflt() -> D {
    D { m: Method::GET, u: Uri::from_static("http://h/"), v: Version::HTTP_11, s: StatusCode::OK, dec: vec![],
        qh: vec![("accept".into(), b"*/*".to_vec())], sh: vec![("content-type".into(), b"text/plain".to_vec())], qb: vec![], sb: b"body".to_vec() }
}
impl D {
    fn dialog(&self, mq: Make, ms: Make) -> Result<Dialog, String> {
        Ok(Dialog::new(
            Prolog { method: self.m.clone(), url: self.u.clone(), req_headers: hmap(&self.qh)?, req_body: make_body(mq, &self.qb)? },
            Epilog { version: self.v, status: self.s, res_headers: hmap(&self.sh)?, res_body: make_body(ms, &self.sb)?, res_decoded: self.dec.clone() }))
    }
    fn same(&self, d: &Dialog) -> Res {
        ensure!(d.method() == self.m, K16, "method {} expected {}", d.method(), self.m);
        ensure!(d.url() == &self.u && d.url().to_string() == self.u.to_string(), K16, "url {} expected {}", d.url(), self.u);
        ensure!(d.res_version() == self.v, K16, "version {:?} expected {:?}", d.res_version(), self.v);
        ensure!(d.res_status() == self.s, K16, "status {} expected {}", d.res_status(), self.s);
        ensure!(d.res_decoded() == &self.dec, K16, "decoded {:?} expected {:?}", d.res_decoded(), self.dec);
        same_headers(K16, "request headers", d.req_headers(), &self.qh)?;
        same_headers(K16, "response headers", d.res_headers(), &self.sh)?;
        check_image(K16, d.req_body(), &self.qb)?;
        check_image(K16, d.res_body(), &self.sb)
    }
}

fn there_and_back(d: &D, mq: Make, ms: Make, via: Option<Alg>) -> Res {
    let dl = match d.dialog(mq, ms) { Ok(x) => x, Err(e) => bail!(K16, "making the dialog: {}", e) };
    d.same(&dl)?;
    let rec = match Record::try_from(dl) { Ok(r) => r, Err(e) => bail!(K16, "to record: {}", e) };
    check_image(K16, rec.req_body(), &d.qb)?;
    check_image(K16, rec.res_body(), &d.sb)?;
    let rec = match via {
        None => rec,
        Some(alg) => {
            let p = fresh("c16.barc");
            if let Err(e) = write_one(&p, &rec, &*strategy(alg, 0)) { bail!(K16, "{}", e) }
            let tn = tune(one(&[100u64, 0]), 10_000, 64, 64, &dir("t"));
            let mut rd = match BarcFile::new(&p).reader() { Ok(r) => r, Err(e) => bail!(K16, "reader: {}", e) };
            match next(K16, &mut rd, &tn)? { Some(r) => r, None => bail!(K16, "no record") }
        }
    };
    // Also once more, as from a copy
    let back = match Dialog::try_from(rec.clone()) { Ok(x) => x, Err(e) => bail!(K16, "to dialog: {}", e) };
    d.same(&back)?;
    let again = match Record::try_from(back) { Ok(r) => r, Err(e) => bail!(K16, "to record again: {}", e) };
    ensure!(again.meta == rec.meta && again.req_headers == rec.req_headers && again.res_headers == rec.res_headers, K16, "second conversion differs: {:?} {:?}", again.meta, rec.meta);
    Ok(())
}

impl Check for C16 {
    fn id(&self) -> &'static str { "C16" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("all of {} methods, {} URLs, 5 versions by all 900 status codes, all lists of up to {} encodings, 8 header blocks squared, bodies in all states: directly and by an archive with each compression and a RAM and a file tuning; {} malformed or missing meta values, in each of two otherwise valid records", methods().len(), urls().len(), t.pick(3, 4), bad_meta().len())
    }
    fn configs(&self, t: Tier) -> usize { CACHE16.get(t, cfgs16).len() }
    fn describe(&self, t: Tier, c: usize) -> String { format!("{:?}", CACHE16.get(t, cfgs16)[c]) }
    fn run(&self, t: Tier, c: usize) -> Res {
        let mut d = dflt();
        match CACHE16.get(t, cfgs16)[c].clone() {
            F16::Methods => {
                d.m = one(&methods());
                d.u = one(&urls());
                d.v = one(&VERS);
                observe((d.m.to_string(), d.u.to_string(), format!("{:?}", d.v)));
                there_and_back(&d, Make::Ram1, Make::Ram1, None)
            }
            F16::Urls(via) => {
                d.u = one(&urls());
                tr!("url {}", d.u);
                d.m = one(&[Method::GET, Method::PATCH]);
                observe(d.u.to_string());
                there_and_back(&d, Make::Ram1, Make::Ram1, via)
            }
            F16::Status(via) => {
                d.v = one(&VERS);
                let lo = choose(if via.is_none() { 900 } else { 90 }) as u16;
                d.s = match StatusCode::from_u16(100 + if via.is_none() { lo } else { lo * 10 + lo % 10 }) { Ok(s) => s, Err(e) => bail!(K16, "{}", e) };
                tr!("{:?} {}", d.v, d.s);
                observe((format!("{:?}", d.v), d.s.as_u16()));
                there_and_back(&d, Make::Ram1, Make::Ram1, via)
            }
            F16::Decoded(via, max) => {
                for _ in 0..choose(max + 1) { d.dec.push(one(&ENCS)); }
                tr!("{:?}", d.dec);
                observe(format!("{:?}", d.dec));
                there_and_back(&d, Make::Ram1, Make::Ram1, via)
            }
            F16::Headers(via) => {
                let h = |l: &[(&str, &[u8])]| l.iter().map(|(n, v)| (n.to_string(), v.to_vec())).collect::<Hdrs>();
                let bs = [h(&[]), h(&[("a", b"1")]), h(&[("set-cookie", b"1"), ("set-cookie", b"2"), ("b", b""), ("set-cookie", b"1")]),
                    h(&[("url", b"http://other/"), ("method", b"PUT"), ("response-status", b"500 X"), ("response-version", b"HTTP/1.0"), ("response-decoded", b"br")]),
                    h(&[("x-o", b"\xff\x80 \xc3\xa9")])];
                d.qh = one(&bs);
                d.sh = one(&bs);
                observe(format!("{:?}", (&d.qh, &d.sh)));
                there_and_back(&d, Make::Ram1, Make::Ram1, via)
            }
            F16::Bodies(via, a, b) => {
                d.qb = pattern(1, one(&[0usize, 1, 9]));
                d.sb = pattern(2, one(&[0usize, 1, 9]));
                observe((d.qb.len(), d.sb.len()));
                there_and_back(&d, a, b, via)
            }
            F16::Bad => {
                if flip() { d.dec = vec![Encoding::Gzip]; d.s = StatusCode::NOT_FOUND; d.v = Version::HTTP_10; }
                let (n, v) = one(&bad_meta());
                tr!("{} {:?}", n, v.map(hx));
                let dl = match d.dialog(Make::Ram1, Make::Ram1) { Ok(x) => x, Err(e) => bail!(K16, "{}", e) };
                let mut rec = match Record::try_from(dl) { Ok(r) => r, Err(e) => bail!(K16, "to record: {}", e) };
                rec.meta.remove(n);
                if let Some(v) = v {
                    let h = match http::header::HeaderValue::from_bytes(v) { Ok(h) => h, Err(e) => bail!(K16, "{}", e) };
                    rec.meta.insert(http::header::HeaderName::from_static(n), h);
                }
                match Dialog::try_from(rec) {
                    Ok(x) => bail!(K16M, "{} {:?} gave a dialog {} {} {:?} {} {:?}", n, v.map(hx), x.method(), x.url(), x.res_version(), x.res_status(), x.res_decoded()),
                    Err(e) => { observe(e.to_string()); Ok(()) }
                }
            }
            F16::Type => {
                // Other spellings that mean the same
                let (n, v, f): (&str, &str, fn(&Dialog) -> bool) = one(&[
                    ("response-decoded", "chunked,gzip", (|x: &Dialog| x.res_decoded() == &vec![Encoding::Chunked, Encoding::Gzip]) as fn(&Dialog) -> bool),
                    ("response-decoded", " chunked ,  br ", |x| x.res_decoded() == &vec![Encoding::Chunked, Encoding::Brotli]),
                    ("response-decoded", "deflate", |x| x.res_decoded() == &vec![Encoding::Deflate]),
                    ("response-status", "200", |x| x.res_status() == StatusCode::OK),
                    ("response-status", "404 Whatever", |x| x.res_status() == StatusCode::NOT_FOUND),
                    ("x-app", "other", |x| x.res_status() == StatusCode::OK),
                ]);
                let dl = match d.dialog(Make::Ram1, Make::Ram1) { Ok(x) => x, Err(e) => bail!(K16, "{}", e) };
                let mut rec = match Record::try_from(dl) { Ok(r) => r, Err(e) => bail!(K16, "to record: {}", e) };
                rec.meta.insert(http::header::HeaderName::from_static(n), http::header::HeaderValue::from_static(v));
                match Dialog::try_from(rec) {
                    Ok(x) => { ensure!(f(&x), K16, "{} {:?} understood as {} {:?}", n, v, x.res_status(), x.res_decoded()); Ok(()) }
                    Err(e) => bail!(K16, "{} {:?} refused: {}", n, v, e),
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C17

const K17: &str = "compress-rule";
const KFLAG: &str = "compress-flag";

/// content types and whether bodies of them count as compressible
const TYPES: &[(Option<&str>, bool)] = &[
    (None, false), (Some("text/plain"), true), (Some("image/png"), false), (Some("text/html; charset=utf-8"), true), (Some("TEXT/CSS"), true),
    (Some("application/json"), true), (Some("application/javascript"), true), (Some("application/xml"), true), (Some("application/html"), true),
    (Some("application/xhtml+xml"), true), (Some("application/rss+xml"), true), (Some("application/atom+xml"), true), (Some("image/svg+xml"), true),
    (Some("application/x-font-ttf"), true), (Some("application/x-font-opentype"), true), (Some("application/x-font-truetype"), true),
    (Some("font/ttf"), true), (Some("font/otf"), true), (Some("font/opentype"), true),
    (Some("font/woff2"), false), (Some("application/octet-stream"), false), (Some("application/gzip"), false), (Some("video/mp4"), false),
    (Some("image/jpeg"), false), (Some("garbage"), false), (Some(""), false), (Some("text/ html"), false),
    (Some("  text/html "), true), (Some("text/plain; a=\u{ff}"), false), (Some("text/\u{e9}"), false), (Some("/"), false), (Some(";"), false),
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum St { None, Gz, Br, Coef(f64, bool) }

#[derive(Clone, Debug)]
enum F17 {
    /// minimum around the exact threshold, for all kinds of bodies
    Edge { st: St, check: bool, large: bool },
    Types { st: St },
    Identity { st: St },
    Defaults { st: St },
    Stored { st: St, make: Make },
    /// one strategy at several levels
    Level { st: St },
    /// the decision alone, for bodies too large to write out here
    Vast { st: St },
}

fn cfgs17(t: Tier) -> Vec<F17> {
    let mut v = vec![];
    for st in [St::Gz, St::Br, St::None, St::Coef(0.0, false), St::Coef(0.25, true), St::Coef(0.5, false), St::Coef(1.0, true), St::Coef(3.0, false), St::Coef(1e300, true)] {
        for check in [true, false] {
            v.push(F17::Edge { st, check, large: false });
            if t == Tier::Thorough { v.push(F17::Edge { st, check, large: true }); }
        }
        v.push(F17::Types { st });
        v.push(F17::Identity { st });
        if st != St::None { v.push(F17::Vast { st }); }
    }
    for st in [St::Gz, St::Br] {
        v.push(F17::Defaults { st });
        v.push(F17::Level { st });
    }
    for st in [St::Gz, St::Br, St::None] {
        for make in MAKES { v.push(F17::Stored { st, make }); }
    }
    v
}
static CACHE17: Cache<F17> = Cache::new();

/// A strategy of a user of the library, by the provided rule
struct Own { min: u64, coef: f64, check: bool }
impl CompressStrategy for Own {
    fn wrap_encoder<'a>(&self, rec: &dyn MetaRecorded, file: &'a File) -> Result<EncodeWrapper<'a>, BarcError> {
        Ok(if self.is_compressible(rec) { EncodeWrapper::gzip(file, 1) } else { EncodeWrapper::plain(file) })
    }
    fn min_len(&self) -> u64 { self.min }
    fn non_compressible_coef(&self) -> f64 { self.coef }
    fn check_identity(&self) -> bool { self.check }
}

fn make_strategy(st: St, min: u64, check: bool) -> Box<dyn CompressStrategy> {
    match st {
        St::None => Box::new(NoCompressStrategy::default()),
        St::Gz => Box::new(GzipCompressStrategy::default().set_min_len(min).set_check_identity(check)),
        St::Br => Box::new(BrotliCompressStrategy::default().set_min_len(min).set_check_identity(check)),
        St::Coef(coef, _) => Box::new(Own { min, coef, check }),
    }
}

fn hlen(h: &Hdrs) -> u64 { h.iter().map(|(n, v)| (n.len() + v.len() + 4) as u64).sum() }

/// (compressible bytes, discount): by the text of the rule
fn amounts(rec: &Rec, types: (bool, bool), ident: bool, check: bool, coef: f64) -> (u64, u64) {
    let mut c = hlen(&rec.meta) + hlen(&rec.req_h) + hlen(&rec.res_h);
    let mut disc = 0u64;
    let (q, s) = (rec.req_b.len() as u64, rec.res_b.len() as u64);
    if types.0 { c += q } else { disc = disc.saturating_add((q as f64 * coef) as u64) }
    if types.1 && (!check || ident) { c += s } else { disc = disc.saturating_add((s as f64 * coef) as u64) }
    (c, disc)
}

fn model(tq: usize, ts: usize, decoded: Option<&str>, q: usize, s: usize) -> Rec {
    let mut r = Rec::numbered(3, q, s);
    r.res_h.retain(|h| h.0 != "content-type");
    let latin1 = |x: &str| x.chars().map(|c| c as u8).collect::<Vec<u8>>();
    if let Some(x) = TYPES[tq].0 { r.req_h.push(("content-type".into(), latin1(x))); }
    if let Some(x) = TYPES[ts].0 { r.res_h.push(("content-type".into(), latin1(x))); }
    if let Some(x) = decoded { r.meta.push(("response-decoded".into(), x.as_bytes().to_vec())); }
    r
}

/// Write, then look at what is in the file. Returns the mode flag.
fn stored(rec: &Rec, make: Make, s: &dyn CompressStrategy) -> Result<u8, Viol> {
    let p = fresh("c17.barc");
    let r = match rec.record(make, make) { Ok(r) => r, Err(e) => bail!(K17, "making a record: {}", e) };
    if let Err(e) = write_one(&p, &r, s) { bail!(K17, "{}", e) }
    let mut raw = vec![];
    File::open(&p).and_then(|mut f| f.read_to_end(&mut raw)).expect("read back");
    ensure!(raw.len() >= 54 && raw.starts_with(b"BARC2 ") && raw[19] == b'D', KFLAG, "no record head: {}", hx(&raw[..raw.len().min(54)]));
    let num = |a: usize, b: usize| -> Result<usize, Viol> {
        std::str::from_utf8(&raw[a..b]).ok().and_then(|s| usize::from_str_radix(s, 16).ok())
            .ok_or_else(|| Viol { key: KFLAG.into(), msg: format!("head field {}", hx(&raw[a..b])) })
    };
    let (len, meta, qh, qb, sh) = (num(6, 18)?, num(22, 27)?, num(28, 33)?, num(34, 44)?, num(45, 50)?);
    ensure!(raw.len() == 54 + len, KFLAG, "head says {} bytes, file has {}", len, raw.len() - 54);
    let payload = match raw[20] {
        b'P' => raw[54..].to_vec(),
        b'Z' => {
            let mut v = vec![];
            if let Err(e) = flate2::read::GzDecoder::new(&raw[54..]).read_to_end(&mut v) { bail!(KFLAG, "flag says gzip, but: {}", e) }
            v
        }
        b'B' => {
            let mut v = vec![];
            if let Err(e) = brotli::Decompressor::new(&raw[54..], 4096).read_to_end(&mut v) { bail!(KFLAG, "flag says Brotli, but: {}", e) }
            v
        }
        f => bail!(KFLAG, "flag {:?}", f as char),
    };
    let crlf = raw[20] == b'P';
    // the parts, one after the other
    let mut at = 0;
    let mut part = |n: usize| -> Result<Vec<u8>, Viol> {
        if at + n > payload.len() { bail!(KFLAG, "parts exceed the {} bytes stored", payload.len()) }
        at += n;
        Ok(payload[at - n..at].to_vec())
    };
    let hdr = |name: &str, got: Vec<u8>, want: &Hdrs| -> Res {
        let mut lines: Vec<Vec<u8>> = want.iter().map(|(n, v)| [n.as_bytes(), b": ", v, b"\r\n"].concat()).collect();
        let n: usize = lines.iter().map(|l| l.len()).sum();
        ensure!(got.len() == n + if crlf && n > 0 { 2 } else { 0 }, KFLAG, "{}: {} bytes stored for {} of headers", name, got.len(), n);
        let mut rest = &got[..n];
        while !rest.is_empty() {
            match lines.iter().position(|l| rest.starts_with(l)) {
                Some(i) => { let l = lines.remove(i); rest = &rest[l.len()..]; }
                None => bail!(KFLAG, "{}: stored {}", name, hx(&got)),
            }
        }
        ensure!(&got[n..] == if crlf && n > 0 { &b"\r\n"[..] } else { &b""[..] }, KFLAG, "{}: end of block {}", name, hx(&got));
        Ok(())
    };
    let body = |name: &str, got: &[u8], want: &[u8]| -> Res {
        let w: Vec<u8> = if crlf && !want.is_empty() { [want, b"\r\n"].concat() } else { want.to_vec() };
        ensure!(got == &w[..], KFLAG, "{} as stored: {}", name, first_diff(got, &w));
        Ok(())
    };
    hdr("meta", part(meta)?, &rec.meta)?;
    hdr("request headers", part(qh)?, &rec.req_h)?;
    body("request body", &part(qb)?, &rec.req_b)?;
    hdr("response headers", part(sh)?, &rec.res_h)?;
    let rest = payload[at..].to_vec();
    body("response body", &rest, &rec.res_b)?;
    Ok(raw[20])
}

fn flag_if(st: St, compress: bool) -> u8 {
    match st { St::None => b'P', _ if !compress => b'P', St::Br => b'B', _ => b'Z' }
}

impl Check for C17 {
    fn id(&self) -> &'static str { "C17" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("{} configurations: for each strategy (gzip, Brotli, none, and the provided rule with 6 coefficients), content types of both bodies, body lengths and decoded marks, the minimum length at, just below and just above the exact amount, and 0 and the largest; {} content types; all decoded marks; default minimums; the decision for bodies of up to 1 TiB; the bytes stored are decoded and compared part by part", cfgs17(t).len(), TYPES.len())
    }
    fn configs(&self, t: Tier) -> usize { CACHE17.get(t, cfgs17).len() }
    fn describe(&self, t: Tier, c: usize) -> String { format!("{:?}", CACHE17.get(t, cfgs17)[c]) }
    fn run(&self, t: Tier, c: usize) -> Res {
        let coef = |st: St| if let St::Coef(c, _) = st { c } else { 0.5 };
        let decide = |rec: &Rec, st: St, types: (bool, bool), ident: bool, check: bool, make: Make| -> Res {
            let (have, disc) = amounts(rec, types, ident, check, coef(st));
            // minimum which is just reached, and others
            let exact = have.checked_sub(disc);
            let mins: Vec<u64> = match exact {
                Some(e) => { let mut v = vec![e, e + 1, 0, u64::MAX]; if e > 0 { v.push(e - 1) } v }
                None => vec![0, 1, have, u64::MAX],
            };
            let min = one(&mins);
            let want = exact.is_some_and(|e| min <= e);
            tr!("{:?}: {} compressible, discount {}, minimum {}: {}", st, have, disc, min, want);
            let f = stored(rec, make, &*make_strategy(st, min, check))?;
            observe((have, disc, min, f));
            ensure!(f == flag_if(st, want), K17, "stored as {:?} with {} compressible bytes, discount {} and minimum {}", f as char, have, disc, min);
            Ok(())
        };
        match CACHE17.get(t, cfgs17)[c].clone() {
            F17::Edge { st, check, large } => {
                let lens: Vec<usize> = if large { vec![0, 1, 63, 1000, 5000] } else { vec![0, 1, 7, 200] };
                let (tq, ts) = (choose(3), choose(3));
                let dec = one(&[None, Some("identity"), Some("gzip")]);
                let rec = model(tq, ts, dec, one(&lens), one(&lens));
                decide(&rec, st, (TYPES[tq].1, TYPES[ts].1), dec == Some("identity"), check, Make::Ram1)
            }
            F17::Types { st } => {
                let k = choose(TYPES.len());
                let req = flip();
                let (tq, ts) = if req { (k, 2) } else { (2, k) };
                tr!("type {:?} req {}", TYPES[k].0, req);
                let rec = model(tq, ts, Some("chunked, identity"), if req { 100 } else { 3 }, if req { 3 } else { 100 });
                decide(&rec, st, (TYPES[tq].1, TYPES[ts].1), true, true, Make::Ram1)
            }
            F17::Identity { st } => {
                let (dec, ident) = one(&[(None, false), (Some("identity"), true), (Some("gzip, identity"), true), (Some("chunked, br, identity"), true),
                    (Some("identity, gzip"), false), (Some("dentity"), false), (Some("gzip"), false), (Some("chunked"), false)]);
                let check = flip();
                let rec = model(choose(2), 1, dec, one(&[0usize, 20]), one(&[0usize, 50]));
                let tq = rec.req_h.iter().any(|h| h.0 == "content-type");
                decide(&rec, st, (tq, true), ident, check, Make::Ram1)
            }
            F17::Defaults { st } => {
                // body filled up to the default minimum
                let min = if st == St::Gz { 4096 } else { 1024 };
                let mut rec = model(1, 1, Some("identity"), 0, 0);
                let (have, _) = amounts(&rec, (true, true), true, true, 0.5);
                let d = choose(3);
                let n = (min - have) as usize + d - 1;
                let ident = flip();
                if !ident { rec.meta.pop(); }
                rec.res_b = pattern(5, n);
                let s: Box<dyn CompressStrategy> = if st == St::Gz { Box::new(GzipCompressStrategy::default()) } else { Box::new(BrotliCompressStrategy::default()) };
                let f = stored(&rec, Make::Ram1, &*s)?;
                observe((d, ident, f));
                ensure!(f == flag_if(st, ident && d >= 1), K17, "default strategy stored as {:?} with {} bytes, identity {}", f as char, have as usize + n, ident);
                Ok(())
            }
            F17::Stored { st, make } => {
                let rec = model(1, one(&[1usize, 2]), Some("identity"), one(&[0usize, 1, 40]), one(&[0usize, 1, 40, 9000]));
                let ts = rec.res_h.iter().any(|h| h.1 == b"text/plain");
                decide(&rec, st, (true, ts), true, true, make)
            }
            F17::Vast { st } => {
                // no byte of these is ever read
                const LENS: [u64; 10] = [0, 1, (1 << 16) + 1, (1 << 24) + 3, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 7, (1 << 40) + 5];
                let (q, s) = (one(&LENS), one(&LENS));
                let (tq, ts) = (one(&[1usize, 2]), one(&[1usize, 2]));
                let check = flip();
                let ident = flip();
                let rec = model(tq, ts, if ident { Some("identity") } else { None }, 0, 0);
                let mut r = match rec.record(Make::Ram1, Make::Ram1) { Ok(r) => r, Err(e) => bail!(K17, "making a record: {}", e) };
                r.req_body = unsafe { body_image::BodyImage::from_file(tmpfile(), q) };
                r.res_body = unsafe { body_image::BodyImage::from_file(tmpfile(), s) };
                let (mut have, mut disc) = (amounts(&rec, (true, true), true, true, 0.5).0, 0u64);
                let mut count = |n: u64, compressible: bool| if compressible { have += n } else { disc = disc.saturating_add((n as f64 * coef(st)) as u64) };
                count(q, TYPES[tq].1);
                count(s, TYPES[ts].1 && (!check || ident));
                let exact = have.checked_sub(disc);
                let min = one(&match exact { Some(e) => vec![e, e + 1, 0], None => vec![0, 1, have] });
                let want = exact.is_some_and(|e| min <= e);
                let got = make_strategy(st, min, check).is_compressible(&r);
                tr!("{:?}: bodies of {} and {}, {} compressible, discount {}, minimum {}: {}", st, q, s, have, disc, min, got);
                observe((have, disc, min));
                ensure!(got == want, K17, "compressible {} with {} compressible bytes, discount {} and minimum {}", got, have, disc, min);
                Ok(())
            }
            F17::Level { st } => {
                let lv = choose(10) as u32;
                let n = one(&[0usize, 30, 6000]);
                let rec = model(1, 1, Some("identity"), n, n);
                let s: Box<dyn CompressStrategy> = if st == St::Gz { Box::new(GzipCompressStrategy::default().set_compression_level(lv).set_min_len(0)) }
                    else { Box::new(BrotliCompressStrategy::default().set_compression_level(lv).set_min_len(0)) };
                let f = stored(&rec, Make::Ram1, &*s)?;
                observe((lv, n, f));
                ensure!(f == flag_if(st, true), K17, "level {} stored as {:?}", lv, f as char);
                Ok(())
            }
        }
    }
}
