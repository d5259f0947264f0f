//! C22: response decoding.


use body_image::{BodyError, BodyImage, Dialog, Encoding, Epilog, Prolog, Recorded, RequestRecorded, Tunables};
use body_image_futio::{decode_res_body, find_chunked, find_encodings, FutioError, ACCEPT_ENCODINGS};
use http::header::{HeaderMap, HeaderName, HeaderValue, CONTENT_ENCODING, TRANSFER_ENCODING};

use crate::engine::*;
use crate::fault::Faults;
use crate::sys;
use crate::util::*;
use crate::{bail, ensure, tr};

use super::c02::Cache;
use super::c03::compress;
use super::c18::track_files;

pub struct C22;
const K: &str = "decode";

#[derive(Clone, Debug)]
enum F {
    /// Header lists beginning with a token, in canonical spelling
    Lists { first: usize, te: usize, ce: usize },
    /// Spellings and separators of short lists
    Spell { first: usize, te: usize, ce: usize },
    /// Longer lists, of one name and another at each place
    Longer { n: usize },
    Decode { enc: Encoding, data: usize, make: Make },
    Cut { enc: Encoding, data: usize, make: Make },
    Flip { enc: Encoding, data: usize, make: Make },
    Fault { enc: Encoding, data: usize, make: Make, faults: usize },
    Long { enc: Encoding, make: Make },
    Big { enc: Encoding, make: Make },
    /// gzip of several members
    Members { a: usize, b: usize, make: Make },
    /// what is asked for can be decoded
    Accept { make: Make },
}

const TOKENS: [(&str, Option<Encoding>); 9] = [
    ("gzip", Some(Encoding::Gzip)), ("chunked", Some(Encoding::Chunked)), ("br", Some(Encoding::Brotli)),
    ("deflate", Some(Encoding::Deflate)), ("identity", None), ("x-gzip", Some(Encoding::Gzip)),
    ("compress", Some(Encoding::Compress)), ("zstd", None), ("gzipx", None)];

fn datum(i: usize) -> Vec<u8> {
    match i {
        0 => vec![],
        1 => b"a".to_vec(),
        2 => pattern(7, 5),
        3 => vec![b'z'; 300],
        4 => pattern(9, 100),
        5 => pattern(1, 9000),
        7 => vec![b'q'; 400_000],
        8 => pattern(2, 300_000),
        _ => [vec![0u8; 30_000], pattern(50, 40_000)].concat(),
    }
}
const COMPRESSED: [Encoding; 3] = [Encoding::Gzip, Encoding::Deflate, Encoding::Brotli];

fn cfgs(t: Tier) -> Vec<F> {
    let mut v = vec![];
    for first in 0..=TOKENS.len() {
        v.push(F::Lists { first, te: 3, ce: t.pick(2, 3) });
        v.push(F::Spell { first, te: 2, ce: t.pick(1, 2) });
    }
    for n in [4, 5, 6, 9, 17, 33] { v.push(F::Longer { n }); }
    for make in MAKES { v.push(F::Accept { make }); }
    for a in 0..7 { for b in 0..7 { for make in MAKES {
        if a < 5 && b < 5 || make == Make::File || t == Tier::Thorough { v.push(F::Members { a, b, make }); }
    } } }
    for enc in [Encoding::Gzip, Encoding::Deflate, Encoding::Brotli, Encoding::Compress, Encoding::Identity, Encoding::Chunked] {
        for data in 0..7 { for make in MAKES { v.push(F::Decode { enc, data, make }); } }
    }
    for enc in COMPRESSED {
        for make in [Make::Ram1, Make::File, Make::Mapped] { v.push(F::Long { enc, make }); }
        for make in MAKES { v.push(F::Big { enc, make }); }
        for data in 0..t.pick(5, 6) {
            for make in [Make::Ram1, Make::RamScattered, Make::File, Make::Mapped] { v.push(F::Cut { enc, data, make }); }
            if data < t.pick(4, 5) { for make in [Make::Ram1, Make::File] { v.push(F::Flip { enc, data, make }); } }
            for make in [Make::File, Make::Slice] { for faults in 1..=t.pick(if data < 2 { 2 } else { 1 }, 2) { v.push(F::Fault { enc, data, make, faults }); } }
        }
    }
    v
}
static CACHE: Cache<F> = Cache::new();

fn spelled(s: &str) -> String {
    match choose(3) {
        0 => s.into(),
        1 => s.to_ascii_uppercase(),
        _ => s[..1].to_ascii_uppercase() + &s[1..],
    }
}

/// Add a list of tokens to the headers, in all the ways it may be spelled
fn add(h: &mut HeaderMap, name: HeaderName, toks: &[usize], spell: bool) -> String {
    let mut vals: Vec<String> = vec![];
    for (i, &t) in toks.iter().enumerate() {
        let s = if spell { spelled(TOKENS[t].0) } else { TOKENS[t].0.to_string() };
        let join = if i == 0 { 0 } else if spell { choose(5) } else { choose(2) };
        match (join, vals.last_mut()) {
            (1, Some(l)) => *l = format!("{}, {}", l, s),
            (2, Some(l)) => *l = format!("{},{}", l, s),
            (3, Some(l)) => *l = format!("{} ,, {}", l, s),
            (4, Some(l)) => *l = format!("{}\t,\t{}", l, s),
            _ => vals.push(s),
        }
    }
    if spell && flip() { for v in &mut vals { *v = format!(" {} ,", v); } }
    for v in &vals { h.append(name.clone(), HeaderValue::from_str(v).expect("value")); }
    format!("{}: {:?} ", name, vals)
}

/// What should be found
fn expected(te: &[usize], ce: &[usize]) -> Vec<Encoding> {
    let comp = |l: &[usize]| l.iter().rev().filter_map(|&t| TOKENS[t].1).find(|e| *e != Encoding::Chunked);
    let mut v = vec![];
    if te.iter().any(|&t| TOKENS[t].1 == Some(Encoding::Chunked)) { v.push(Encoding::Chunked); }
    if let Some(c) = comp(te).or_else(|| comp(ce)) { v.push(c); }
    v
}

fn lists(first: usize, te_n: usize, ce_n: usize, spell: bool) -> Res {
    let mut te = vec![];
    if first < TOKENS.len() {
        te.push(first);
        while te.len() < te_n { match choose(TOKENS.len() + 1) { 0 => break, c => te.push(c - 1) } }
    }
    let mut ce = vec![];
    while ce.len() < ce_n { match choose(TOKENS.len() + 1) { 0 => break, c => ce.push(c - 1) } }
    let mut h = HeaderMap::new();
    let mut text = String::new();
    text += &add(&mut h, CONTENT_ENCODING, &ce, spell);
    text += &add(&mut h, TRANSFER_ENCODING, &te, spell);
    h.append("content-type", HeaderValue::from_static("gzip, chunked"));
    tr!("{}", text);
    let want = expected(&te, &ce);
    let got = find_encodings(&h);
    ensure!(got == want, K, "{}: found {:?}, expected {:?}", text, got, want);
    let want = want.first() == Some(&Encoding::Chunked);
    ensure!(find_chunked(&h) == want, K, "{}: find_chunked is {}", text, !want);
    observe(got.iter().map(|e| format!("{:?}", e)).collect::<Vec<_>>());
    Ok(())
}

fn enc_name(e: Encoding) -> &'static str {
    match e {
        Encoding::Gzip => "gzip", Encoding::Deflate => "deflate", Encoding::Brotli => "br", Encoding::Compress => "compress",
        Encoding::Chunked => "chunked", _ => "identity",
    }
}

struct Case { dialog: Dialog, body: Vec<u8>, state: char, decoded: Vec<Encoding>, headers: HeaderMap, want: Vec<Encoding> }

fn case(enc: Encoding, body: BodyImage, content: &[u8], headers: HeaderMap, chunked: bool, decoded: Vec<Encoding>) -> Case {
    let mut want = vec![];
    if chunked { want.push(Encoding::Chunked); }
    if !matches!(enc, Encoding::Identity | Encoding::Chunked) { want.push(enc); }
    want.push(Encoding::Identity);
    let mut req_headers = HeaderMap::new();
    req_headers.append("x-req", HeaderValue::from_static("1"));
    let state = state_of(&body);
    Case {
        dialog: Dialog::new(
            Prolog { method: http::Method::POST, url: "http://h/p?q".parse().expect("url"), req_headers, req_body: BodyImage::from_slice("req") },
            Epilog { version: http::Version::HTTP_11, status: http::StatusCode::NOT_FOUND, res_headers: headers.clone(), res_body: body, res_decoded: decoded.clone() }),
        body: content.to_vec(), state, decoded, headers, want,
    }
}

/// How the encoding is declared
fn headers(enc: Encoding) -> (HeaderMap, bool) {
    let mut h = HeaderMap::new();
    let name = HeaderValue::from_static(enc_name(enc));
    let c = if enc == Encoding::Chunked { 1 } else { choose(4) };
    let mut chunked = enc == Encoding::Chunked;
    match c {
        0 => { h.append(CONTENT_ENCODING, name); }
        1 => { h.append(TRANSFER_ENCODING, name); }
        2 => {
            h.append(TRANSFER_ENCODING, name);
            h.append(TRANSFER_ENCODING, HeaderValue::from_static("chunked"));
            chunked = true;
        }
        _ => {
            h.append(CONTENT_ENCODING, name);
            h.append(TRANSFER_ENCODING, HeaderValue::from_static("chunked"));
            chunked = true;
        }
    }
    h.append("x-res", HeaderValue::from_static("2"));
    (h, chunked)
}

fn simple(enc: Encoding) -> (HeaderMap, bool) {
    let mut h = HeaderMap::new();
    h.append(CONTENT_ENCODING, HeaderValue::from_static(enc_name(enc)));
    (h, false)
}

impl Case {
    /// All but what decoding changes
    fn same_rest(&self) -> Res {
        let d = &self.dialog;
        ensure!(d.method() == http::Method::POST && d.url() == "http://h/p?q", K, "method or url changed");
        ensure!(d.res_status() == http::StatusCode::NOT_FOUND && d.res_version() == http::Version::HTTP_11, K, "status or version changed");
        ensure!(d.res_headers() == &self.headers, K, "response headers changed");
        ensure!(d.req_headers().len() == 1, K, "request headers changed");
        check_image(K, d.req_body(), b"req")
    }
    fn unchanged(&self) -> Res {
        self.same_rest()?;
        ensure!(self.dialog.res_decoded() == &self.decoded, K, "decoded encodings changed to {:?}", self.dialog.res_decoded());
        ensure!(state_of(self.dialog.res_body()) == self.state, K, "body state changed");
        check_image(K, self.dialog.res_body(), &self.body)
    }
    /// Check the outcome of a successful decoding
    fn decoded(&self, changed: bool, orig: &[u8]) -> Res {
        self.same_rest()?;
        let comp = self.want.iter().any(|e| !matches!(e, Encoding::Chunked | Encoding::Identity));
        ensure!(changed == comp, K, "returned {} for {:?}", changed, self.want);
        ensure!(self.dialog.res_decoded() == &self.want, K, "decoded is {:?}, expected {:?}", self.dialog.res_decoded(), self.want);
        check_image(K, self.dialog.res_body(), orig)
    }
}

fn run(f: &F) -> Res {
    match *f {
        F::Lists { first, te, ce } => lists(first, te, ce, false),
        F::Spell { first, te, ce } => lists(first, te, ce, true),
        F::Longer { n } => {
            let most = choose(TOKENS.len());
            let other = choose(TOKENS.len());
            let at = choose(n);
            let mut l = vec![most; n];
            l[at] = other;
            let mut h = HeaderMap::new();
            let te = flip();
            let join = flip();
            let name = if te { TRANSFER_ENCODING } else { CONTENT_ENCODING };
            let names: Vec<&str> = l.iter().map(|&t| TOKENS[t].0).collect();
            if join { h.append(name, HeaderValue::from_str(&names.join(", ")).expect("value")); } else { for x in &names { h.append(name.clone(), HeaderValue::from_static(x)); } }
            tr!("{:?}", h);
            let want = if te { expected(&l, &[]) } else { expected(&[], &l) };
            let got = find_encodings(&h);
            ensure!(got == want, K, "{:?}: found {:?}, expected {:?}", h, got, want);
            ensure!(find_chunked(&h) == (want.first() == Some(&Encoding::Chunked)), K, "{:?}: find_chunked", h);
            observe((most, other, at));
            Ok(())
        }
        F::Decode { enc, data, make } => {
            let orig = datum(data);
            let (h, chunked) = headers(enc);
            let content = compress(enc, &orig);
            let body = match make_body(make, &content) { Ok(b) => b, Err(e) => bail!(K, "making the body: {}", e) };
            let before = if flip() { vec![Encoding::Chunked] } else { vec![] };
            let mut c = case(enc, body, &content, h, chunked, before);
            let t = tune(one(&[1_000_000, 0, 50]), 1_000_000, if orig.len() > 1000 { one(&[64, 8192]) } else { one(&[64, 1, 8192]) }, if orig.len() > 1000 { one(&[300, 65536]) } else { one(&[64, 1, 65536]) }, &dir("t"));
            match decode_res_body(&mut c.dialog, &t) {
                Ok(b) => {
                    ensure!(enc != Encoding::Compress, K, "decoded an unsupported encoding");
                    c.decoded(b, &orig)
                }
                Err(FutioError::UnsupportedEncoding(e)) if enc == Encoding::Compress => {
                    ensure!(e == enc, K, "reported {:?} as unsupported", e);
                    c.unchanged()
                }
                Err(e) => bail!(K, "failed: {}", e),
            }
        }
        F::Cut { enc, data, make } => {
            let orig = datum(data);
            let full = compress(enc, &orig);
            let n = choose(full.len() + 1);
            // end of input may come at a buffer boundary or not
            damaged(enc, make, &full[..full.len() - n], if n == 0 { Want::Exact(&orig) } else { Want::Error }, 3)
        }
        F::Flip { enc, data, make } => {
            let orig = datum(data);
            let mut full = compress(enc, &orig);
            let at = choose(full.len() * 8);
            full[at / 8] ^= 1 << (at % 8);
            // The checksum of gzip covers all but its header
            let w = if enc == Encoding::Gzip { if at / 8 < 3 { Want::Error } else { Want::ExactOrError(&orig) } } else { Want::Any };
            damaged(enc, make, &full, w, 2)
        }
        F::Fault { enc, data, make, faults } => {
            let orig = datum(data);
            let content = compress(enc, &orig);
            let (h, chunked) = simple(enc);
            let body = match make_body(make, &content) { Ok(b) => b, Err(e) => bail!(K, "making the body: {}", e) };
            track_files();
            let mut c = case(enc, body, &content, h, chunked, vec![]);
            let t = tune(one(&[1_000_000, 0, 4]), 1_000_000, 64, 64, &dir("t"));
            let mut fl = Faults::new(faults);
            let r = sys::with_handler(&mut fl, || decode_res_body(&mut c.dialog, &t));
            observe((fl.events, r.is_ok(), fl.errors, fl.intrs, fl.shorts));
            match r {
                Ok(b) => {
                    ensure!(fl.errors == 0, K, "an error of a file operation was not reported");
                    c.decoded(b, &orig)
                }
                Err(e) => {
                    ensure!(fl.errors > 0, K, "failed: {}", e);
                    c.unchanged()
                }
            }
        }
        F::Members { a, b, make } => {
            // up to two more after the first, the last possibly cut short
            let mut full = vec![];
            let mut ends = vec![(0, 0)];
            let mut orig = vec![];
            for d in one(&[vec![a, b], vec![a, b, a], vec![a, a, b, b]]) {
                orig.extend_from_slice(&datum(d));
                full.extend_from_slice(&compress(Encoding::Gzip, &datum(d)));
                ends.push((full.len(), orig.len()));
            }
            let last = full.len() - ends[ends.len() - 2].0;
            let n = one(&[0, 1, 8, 9, last - 11, last - 10, last - 9, last - 1, last]);
            full.truncate(full.len() - n);
            let want = match ends.iter().find(|e| e.0 == full.len()) {
                Some(e) => Want::Exact(&orig[..e.1]),
                None => Want::Error,
            };
            damaged(Encoding::Gzip, make, &full, want, if full.len() > 5000 { 1 } else { 3 })
        }
        F::Accept { make } => {
            let names: Vec<&str> = ACCEPT_ENCODINGS.split(',').map(|s| s.split(';').next().unwrap_or("").trim()).collect();
            for n in ["br", "gzip", "deflate"] { ensure!(names.contains(&n), K, "{} is not asked for: {:?}", n, ACCEPT_ENCODINGS); }
            let name = one(&names);
            tr!("{:?}", name);
            let enc = TOKENS.iter().find(|t| t.0 == name).and_then(|t| t.1).unwrap_or(Encoding::Identity);
            let orig = datum(4);
            let content = compress(enc, &orig);
            let mut h = HeaderMap::new();
            h.append(CONTENT_ENCODING, HeaderValue::from_str(name).expect("name"));
            let body = match make_body(make, &content) { Ok(b) => b, Err(e) => bail!(K, "making the body: {}", e) };
            let mut c = case(enc, body, &content, h, false, vec![]);
            match decode_res_body(&mut c.dialog, &tune(1000, 10_000, 64, 64, &dir("t"))) {
                Ok(b) => c.decoded(b, &orig),
                Err(e) => bail!(K, "asks for {:?} but: {}", name, e),
            }
        }
        F::Big { enc, make } => {
            let orig = datum(one(&[7, 8]));
            let content = compress(enc, &orig);
            let (h, chunked) = simple(enc);
            let body = match make_body(make, &content) { Ok(b) => b, Err(e) => bail!(K, "making the body: {}", e) };
            let mut c = case(enc, body, &content, h, chunked, vec![]);
            let t = tune(one(&[1_000_000, 0, 200_000]), 1_000_000, 8192, one(&[65536, 100_000]), &dir("t"));
            match decode_res_body(&mut c.dialog, &t) {
                Ok(b) => c.decoded(b, &orig),
                Err(e) => bail!(K, "failed: {}", e),
            }
        }
        F::Long { enc, make } => {
            let orig = datum(one(&[2, 4, 3, 5]));
            let content = compress(enc, &orig);
            let (h, chunked) = simple(enc);
            let body = match make_body(make, &content) { Ok(b) => b, Err(e) => bail!(K, "making the body: {}", e) };
            let mut c = case(enc, body, &content, h, chunked, vec![]);
            let over = one(&[0u64, 1, 2, 5]);
            let max = orig.len() as u64 - over;
            let t = tune(one(&[0, max / 2, max]), max, one(&[64, 1, 3]), one(&[64, 2]), &dir("t"));
            match decode_res_body(&mut c.dialog, &t) {
                Ok(b) => {
                    ensure!(over == 0, K, "decoded {} bytes with a maximum of {}", orig.len(), max);
                    c.decoded(b, &orig)
                }
                Err(FutioError::Body(BodyError::BodyTooLong(_))) if over > 0 => c.unchanged(),
                Err(e) => bail!(K, "maximum {} and {} bytes: {}", max, orig.len(), e),
            }
        }
    }
}

enum Want<'a> { Exact(&'a [u8]), ExactOrError(&'a [u8]), Error, Any }

fn damaged(enc: Encoding, make: Make, content: &[u8], want: Want<'_>, bufs: usize) -> Res {
    let (h, chunked) = simple(enc);
    let body = match make_body(make, content) { Ok(b) => b, Err(e) => bail!(K, "making the body: {}", e) };
    let mut c = case(enc, body, content, h, chunked, vec![]);
    let (bram, bfs) = [(64, 64), (1, 1), (7, 5)][choose(bufs)];
    let t: Tunables = tune(one(&[1_000_000, 0]), 1_000_000, bram, bfs, &dir("t"));
    let r = decode_res_body(&mut c.dialog, &t);
    tr!("{} -> {:?}", hx(content), r);
    observe(r.is_ok());
    match (r, want) {
        (Ok(b), Want::Exact(o)) | (Ok(b), Want::ExactOrError(o)) => c.decoded(b, o),
        (Ok(_), Want::Error) => bail!(K, "incomplete or invalid data was decoded without error"),
        (Ok(_), Want::Any) => c.same_rest(),
        (Err(e), Want::Exact(_)) => bail!(K, "failed: {}", e),
        (Err(_), _) => c.unchanged(),
    }
}

impl Check for C22 {
    fn id(&self) -> &'static str { "C22" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("{} configurations: all lists of up to 3 transfer and {} content encodings out of 9 names, in all ways of joining them; lists of up to 33 with one different; all spellings of short lists; 6 encodings x 7 bodies x 6 body states x buffer sizes and limits; every truncation and every flipped bit of compressed bodies; gzip of up to four members, cut short in the last; up to {} faults while decoding from file; lengths around the maximum; what is asked for", CACHE.get(t, cfgs).len(), t.pick(2, 3), t.pick(1, 2))
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["deflate is raw deflate, as the decoder used"] }
    fn configs(&self, t: Tier) -> usize { CACHE.get(t, cfgs).len() }
    fn describe(&self, t: Tier, c: usize) -> String { format!("{:?}", CACHE.get(t, cfgs)[c]) }
    fn run(&self, t: Tier, c: usize) -> Res { run(&CACHE.get(t, cfgs)[c]) }
}
