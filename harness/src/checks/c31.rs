//! C31: archives keep to the BARC version 2 format, both ways: an encoder and
//! decoder of the format, made for this check from its description, stand for
//! other software and for other releases of the library.

use std::convert::TryFrom;
use std::fs::{File, OpenOptions};
use std::io::{Read, Seek, SeekFrom, Write};
use std::path::Path;

use barc::{write_body, write_headers, BarcError, BarcFile, CompressStrategy, EncodeWrapper, MetaRecorded, Record};
use body_image::{Dialog, Encoding, Epilog, Prolog, Recorded, RequestRecorded};
use http::{Method, StatusCode, Uri, Version};

use crate::arc::*;
use crate::engine::*;
use crate::format::*;
use crate::util::*;
use crate::{bail, ensure, tr};

use super::c02::Cache;
use super::c03::Alg;
use super::c08::blocks;
use super::c16::{methods, urls, ENCS, VERS};

pub struct C31;

const KW: &str = "written";
const KR: &str = "read";
const KM: &str = "meta";
const ALGS: [Alg; 3] = [Alg::Plain, Alg::Gzip, Alg::Brotli];

fn flag(alg: Alg) -> u8 { match alg { Alg::Plain => b'P', Alg::Gzip => b'Z', Alg::Brotli => b'B' } }

/// Compresses whatever it is given
struct Always(Alg);
impl CompressStrategy for Always {
    fn wrap_encoder<'a>(&self, _: &dyn MetaRecorded, file: &'a File) -> Result<EncodeWrapper<'a>, BarcError> {
        Ok(match self.0 { Alg::Plain => EncodeWrapper::plain(file), Alg::Gzip => EncodeWrapper::gzip(file, 6), Alg::Brotli => EncodeWrapper::brotli(file, 6) })
    }
}

fn usual(alg: Alg) -> By { match alg { Alg::Plain => By::Plain, Alg::Gzip => By::Gzip(6, false, 0), Alg::Brotli => By::Brotli(6, 22) } }

/// The archive, read by others, has these records
fn others_find(p: &Path, want: &[(u64, u8, Rec)]) -> Res {
    let raw = std::fs::read(p).expect("archive");
    let got = match decode(&raw) { Ok(g) => g, Err(e) => bail!(KW, "not in the format: {}", e) };
    ensure!(got.len() == want.len(), KW, "{} records, expected {}", got.len(), want.len());
    for (i, ((o, f, r), (wo, wf, wr))) in got.iter().zip(want).enumerate() {
        ensure!(o == wo && f == wf, KW, "record {} at {} as {:?}, expected at {} as {:?}", i, o, *f as char, wo, *wf as char);
        if let Err(e) = same(r, wr) { bail!(KW, "record {}: {}", i, e) }
    }
    Ok(())
}

fn library_finds(p: &Path, want: &[(u64, u8, Rec)], ram: u64) -> Res {
    let tn = tune(ram, 100_000_000, 64, 64, &dir("t"));
    let w: Vec<(u64, &Rec)> = want.iter().map(|(o, _, r)| (*o, r)).collect();
    expect_all(KR, p, &tn, &w)?;
    expect_at(KR, p, &tn, &w)
}

fn append(p: &Path, b: &[u8]) -> u64 {
    let mut f = OpenOptions::new().create(true).append(true).open(p).expect("archive");
    let o = f.seek(SeekFrom::End(0)).expect("seek");
    f.write_all(b).expect("append");
    o
}

fn shapes() -> Vec<Rec> {
    let b = blocks();
    let mut large = Rec::numbered(4, 300, 5000);
    large.res_h = b[4].clone();
    vec![
        Rec::numbered(1, 0, 4),
        Rec::default(),
        Rec { req_b: b"\r\n".to_vec(), ..Rec::numbered(2, 0, 0) },
        large,
        Rec { res_b: encode(&Rec::numbered(3, 2, 2), By::Plain), req_h: vec![], ..b_rec(&b[3], &b[7], &b[8]) },
        Rec { meta: vec![], res_h: vec![], ..Rec::numbered(5, 0, 1) },
    ]
}
fn b_rec(m: &Hdrs, q: &Hdrs, s: &Hdrs) -> Rec { Rec { meta: m.clone(), req_h: q.clone(), res_h: s.clone(), ..Rec::default() } }

#[derive(Clone, Debug)]
enum F {
    /// records of the library and of others in one archive: all histories
    Mixed { shape: usize, first: usize, depth: usize },
    /// every combination of header blocks
    Blocks { alg: Alg, meta: usize },
    /// lengths, and states of bodies
    Bodies { alg: Alg, make: Make },
    /// lengths of which the digits matter
    Lengths { alg: Alg, part: usize, digit: u32 },
    /// all ways of others to compress
    Ways { by: By },
    /// bodies beyond what 32 bits count
    Vast { res: bool },
    /// unfinished record of another writer
    Reserved { alg: Alg },
    /// archives distributed with the library
    Sample { k: usize },
    /// header blocks and bodies alone
    Parts,
    /// meta of dialogs
    Methods, Status { v: Version }, Decoded { n: usize }, Spelled { sep: &'static str, alg: Alg },
}

const OPS: usize = 6;

fn cfgs(t: Tier) -> Vec<F> {
    let mut v = vec![];
    for shape in 0..shapes().len() { for first in 0..OPS { v.push(F::Mixed { shape, first, depth: t.pick(4, 5) }); } }
    for alg in ALGS {
        for meta in 0..blocks().len() { v.push(F::Blocks { alg, meta }); }
        for make in MAKES { v.push(F::Bodies { alg, make }); }
        for part in 0..5 { for digit in 1..7 { v.push(F::Lengths { alg, part, digit }); } }
        v.push(F::Reserved { alg });
    }
    v.push(F::Ways { by: By::Plain });
    for l in 0..10 { for named in [false, true] { for every in [0usize, 1, 100] { v.push(F::Ways { by: By::Gzip(l, named, every) }); } } }
    for q in 0..12 { for w in t.pick(vec![10, 16, 22, 24], (10..25).collect()) { v.push(F::Ways { by: By::Brotli(q, w) }); } }
    for res in [false, true] { v.push(F::Vast { res }); }
    for k in 0..3 { v.push(F::Sample { k }); }
    v.push(F::Parts);
    v.push(F::Methods);
    for ver in VERS { v.push(F::Status { v: ver }); }
    v.push(F::Decoded { n: t.pick(3, 4) });
    for sep in [",", ", ", " ,", " , ", ",\t"] { for alg in ALGS { if t == Tier::Thorough || alg == Alg::Plain { v.push(F::Spelled { sep, alg }); } } }
    v
}
static CACHE: Cache<F> = Cache::new();

/// Write by the library, after what is there, and compare as others read it
fn both_ways(rec: &Rec, alg: Alg, mq: Make, ms: Make, ram: u64) -> Res {
    let p = fresh("c31.barc");
    let before = Rec::numbered(9, 3, 3);
    let mut want = vec![];
    if flip() { want.push((append(&p, &encode(&before, By::Plain)), b'P', before)); }
    let r = match rec.record(mq, ms) { Ok(r) => r, Err(e) => bail!(KW, "making a record: {}", e) };
    match write_one(&p, &r, &Always(alg)) { Ok(o) => want.push((o, flag(alg), rec.clone())), Err(e) => bail!(KW, "{}", e) }
    others_find(&p, &want)?;
    // and as others write it
    want.push((append(&p, &encode(rec, usual(alg))), flag(alg), rec.clone()));
    library_finds(&p, &want, ram)
}

fn dialog(m: &Method, u: &Uri, v: Version, s: StatusCode, dec: &[Encoding]) -> Dialog {
    Dialog::new(
        Prolog { method: m.clone(), url: u.clone(), req_headers: Default::default(), req_body: Default::default() },
        Epilog { version: v, status: s, res_headers: Default::default(), res_body: Default::default(), res_decoded: dec.to_vec() })
}

fn vname(v: Version) -> &'static str {
    match v {
        Version::HTTP_09 => "HTTP/0.9", Version::HTTP_10 => "HTTP/1.0", Version::HTTP_11 => "HTTP/1.1",
        Version::HTTP_2 => "HTTP/2.0", _ => "HTTP/3.0",
    }
}

fn ename(e: Encoding) -> &'static str {
    match e {
        Encoding::Chunked => "chunked", Encoding::Deflate => "deflate", Encoding::Gzip => "gzip",
        Encoding::Brotli => "br", Encoding::Compress => "compress", _ => "identity",
    }
}

/// As the meta of a record of this dialog is specified
fn meta_of(m: &Method, u: &Uri, v: Version, s: StatusCode, dec: &[Encoding]) -> Hdrs {
    let reason = s.canonical_reason().map(|r| format!("{} {}", s.as_u16(), r));
    let mut h = vec![
        ("url".to_string(), u.to_string().into_bytes()),
        ("method".to_string(), m.as_str().as_bytes().to_vec()),
        ("response-version".to_string(), vname(v).as_bytes().to_vec()),
        ("response-status".to_string(), reason.unwrap_or_else(|| s.as_u16().to_string()).into_bytes()),
    ];
    if !dec.is_empty() {
        h.push(("response-decoded".into(), dec.iter().map(|e| ename(*e)).collect::<Vec<_>>().join(", ").into_bytes()));
    }
    h
}

fn meta_kept(m: &Method, u: &Uri, v: Version, s: StatusCode, dec: &[Encoding]) -> Res {
    let rec = match Record::try_from(dialog(m, u, v, s, dec)) { Ok(r) => r, Err(e) => bail!(KM, "to record: {}", e) };
    let p = fresh("c31.barc");
    let alg = one(&ALGS);
    if let Err(e) = write_one(&p, &rec, &Always(alg)) { bail!(KM, "{}", e) }
    let got = match decode(&std::fs::read(&p).expect("archive")) { Ok(mut g) if g.len() == 1 => g.remove(0).2, Ok(g) => bail!(KM, "{} records", g.len()), Err(e) => bail!(KM, "{}", e) };
    let mut want = meta_of(m, u, v, s, dec);
    let mut have = got.meta;
    // without a standard phrase, only the number is specified
    if s.canonical_reason().is_none() {
        for h in have.iter_mut().chain(want.iter_mut()) { if h.0 == "response-status" { h.1.truncate(3); } }
    }
    ensure!(by_name(&have) == by_name(&want), KM, "meta of the record: {:?}, expected {:?}", String::from_utf8_lossy(&lines(&have)), String::from_utf8_lossy(&lines(&want)));
    as_dialog(alg, meta_of(m, u, v, s, dec), m, u, v, s, dec)
}

/// A record of others with this meta is this dialog
fn as_dialog(alg: Alg, meta: Hdrs, m: &Method, u: &Uri, v: Version, s: StatusCode, dec: &[Encoding]) -> Res {
    let p = fresh("c31o.barc");
    append(&p, &encode(&Rec { meta, ..Rec::default() }, usual(alg)));
    let mut rd = match BarcFile::new(&p).reader() { Ok(r) => r, Err(e) => bail!(KM, "reader: {}", e) };
    let rec = match next(KM, &mut rd, &tune(100, 1000, 64, 64, &dir("t")))? { Some(r) => r, None => bail!(KM, "no record") };
    let d = match Dialog::try_from(rec) { Ok(d) => d, Err(e) => bail!(KM, "not a dialog: {}", e) };
    ensure!(d.method() == m && d.url() == u && d.res_version() == v && d.res_status() == s && &d.res_decoded()[..] == dec, KM,
        "dialog {} {} {:?} {} {:?}, expected {} {} {:?} {} {:?}", d.method(), d.url(), d.res_version(), d.res_status(), d.res_decoded(), m, u, v, s, dec);
    Ok(())
}

/// A record of others with a body of around 2^32 bytes
fn vast(res: bool) -> Res {
    let n = (1u64 << 32) - 4 + choose(9) as u64;
    let p = fresh("c31v.barc");
    let (a, z, after) = (b"first".to_vec(), b"last".to_vec(), Rec::numbered(2, 2, 3));
    let (mh, qh) = (lines(&vec![("url".into(), b"http://h/".to_vec())]), lines(&vec![("x-req".into(), b"q".to_vec())]));
    let (mh, qh) = ([&mh[..], b"\r\n"].concat(), [&qh[..], b"\r\n"].concat());
    let small = b"small\r\n".to_vec();
    let (qb, sb) = if res { (small.len() as u64, n + 2) } else { (n + 2, small.len() as u64) };
    let mut f = File::create(&p).expect("archive");
    f.write_all(&head(mh.len() as u64 + qh.len() as u64 + qb + sb, b'D', b'P', mh.len(), qh.len(), qb, 0)).expect("head");
    f.write_all(&mh).and_then(|_| f.write_all(&qh)).expect("blocks");
    if res { f.write_all(&small).expect("body"); }
    f.write_all(&a).expect("body");
    f.seek(SeekFrom::Current((n - a.len() as u64 - z.len() as u64) as i64)).expect("seek");
    f.write_all(&z).and_then(|_| f.write_all(b"\r\n")).expect("body");
    if !res { f.write_all(&small).expect("body"); }
    f.write_all(&encode(&after, By::Plain)).expect("next");
    tr!("body of {} bytes", n);
    observe(n);
    let tn = tune(1000, 10_000, 64, 64, &dir("t"));
    let mut rd = match BarcFile::new(&p).reader() { Ok(r) => r, Err(e) => bail!(KR, "reader: {}", e) };
    let rec = match next(KR, &mut rd, &tn)? { Some(r) => r, None => bail!(KR, "no record") };
    let (big, other) = if res { (rec.res_body(), rec.req_body()) } else { (rec.req_body(), rec.res_body()) };
    ensure!(big.len() == n, KR, "body of {} bytes, stored are {}", big.len(), n);
    check_image(KR, other, b"small")?;
    ensure!(rec.res_headers().is_empty() && rec.meta().len() == 1 && rec.req_headers().len() == 1, KR, "headers {:?} {:?} {:?}", rec.meta(), rec.req_headers(), rec.res_headers());
    // first and last of it
    let mut b = vec![0u8; 5];
    if let Err(e) = big.reader().read_exact(&mut b) { bail!(KR, "reading: {}", e) }
    ensure!(b == a, KR, "starts with {}", hx(&b));
    match big.clone().explode() {
        body_image::ExplodedImage::FsRead(s) => {
            ensure!(s.len() == n, KR, "slice of {}", s.len());
            let mut b = vec![0u8; 4];
            let mut r = s.subslice(n - 4, n);
            if let Err(e) = r.read_exact(&mut b) { bail!(KR, "reading: {}", e) }
            ensure!(b == z, KR, "ends with {}", hx(&b));
        }
        _ => bail!(KR, "body of {} bytes in RAM", n),
    }
    match next(KR, &mut rd, &tn)? { Some(r) => after.same(KR, &r)?, None => bail!(KR, "no second record") }
    ensure!(next(KR, &mut rd, &tn)?.is_none(), KR, "third record");
    std::fs::remove_file(&p).ok();
    Ok(())
}

const SAMPLES: [&[u8]; 3] = [include_bytes!("../../samples/example.barc"), include_bytes!("../../samples/204_no_body.barc"), include_bytes!("../../samples/reserved.barc")];

impl Check for C31 {
    fn id(&self) -> &'static str { "C31" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("{} configurations: all histories of {} writes to one archive, each by the library or by an independent encoder and with each compression, then read by the library and by an independent decoder; {} header blocks cubed; bodies of all lengths to 4 and states; parts of lengths at each digit of the head; gzip of all levels, with and without optional header parts and flushes, and Brotli of all qualities and {} windows; bodies around 2^32; unfinished records; the sample archives; meta of all methods, URLs, versions by status codes and lists of up to {} encodings", cfgs(t).len(), t.pick(4, 5), blocks().len(), t.pick(4, 15), t.pick(3, 4))
    }
    fn configs(&self, t: Tier) -> usize { CACHE.get(t, cfgs).len() }
    fn describe(&self, t: Tier, c: usize) -> String { format!("{:?}", CACHE.get(t, cfgs)[c]) }
    fn run(&self, t: Tier, c: usize) -> Res {
        match CACHE.get(t, cfgs)[c].clone() {
            F::Mixed { shape, first, depth } => {
                let p = fresh("c31.barc");
                let shapes = shapes();
                let mut want = vec![];
                let ram = one(&[100_000u64, 10]);
                let mut seq = vec![];
                for i in 0..depth {
                    let op = if i == 0 { first } else { choose(OPS) };
                    let (lib, alg) = (op < 3, ALGS[op % 3]);
                    let rec = shapes[(shape + i) % shapes.len()].clone();
                    seq.push(op);
                    tr!("{} writes {:?}", if lib { "library" } else { "other" }, alg);
                    let o = if lib {
                        match write_one(&p, &rec.ram(), &Always(alg)) { Ok(o) => o, Err(e) => bail!(KW, "{}", e) }
                    } else { append(&p, &encode(&rec, usual(alg))) };
                    want.push((o, flag(alg), rec));
                }
                observe((seq, ram));
                others_find(&p, &want)?;
                library_finds(&p, &want, ram)
            }
            F::Blocks { alg, meta } => {
                let b = blocks();
                let (q, s) = (choose(b.len()), choose(b.len()));
                observe((q, s));
                let mut r = b_rec(&b[meta], &b[q], &b[s]);
                r.res_b = b"body".to_vec();
                both_ways(&r, alg, Make::Ram1, Make::Ram1, 100_000)
            }
            F::Bodies { alg, make } => {
                let (q, s) = (choose(5), choose(5));
                let other = one(&[Make::Ram1, Make::File]);
                let ram = one(&[100_000u64, 2, 0]);
                observe((q, s, ram));
                tr!("bodies of {} and {}, RAM {}", q, s, ram);
                both_ways(&Rec::numbered(1, q, s), alg, other, make, ram)
            }
            F::Lengths { alg, part, digit: d } => {
                // Lengths as stored, with any end included
                let mut ns = vec![];
                if d < 6 {
                    for k in [0usize, 1, 2, 3, 9] { ns.push(16usize.pow(d) - 1 + k); }
                    ns.push(0xa * 16usize.pow(d)); ns.push(0xf * 16usize.pow(d));
                } else { ns.push(0xabcde); ns.push(0xf_ffff - 2); ns.push(0xf_ffff); }
                if t == Tier::Quick && d == 5 && alg != Alg::Plain { ns.truncate(2); }
                let is_block = part == 0 || part == 1 || part == 3;
                let n = one(&ns);
                if is_block && n > 0xf_ffff { observe(()); return Ok(()); }
                let end = if alg == Alg::Plain { 2 } else { 0 };
                let block = |n: usize| -> Hdrs { vec![("x".into(), vec![b'v'; n.saturating_sub(5 + end).min(64_000)])] };
                // a block in lines of limited length
                let full = |n: usize| -> Hdrs {
                    let mut left = n.saturating_sub(end);
                    let mut h = vec![];
                    while left > 128_000 { h.push(("x".to_string(), vec![b'v'; 64_000 - 5])); left -= 64_000; }
                    if left > 64_000 { h.push(("x".to_string(), vec![b'v'; 32_000 - 5])); left -= 32_000; }
                    if left > 64_000 { h.push(("x".to_string(), vec![b'v'; 32_000 - 5])); left -= 32_000; }
                    if left >= 5 { h.push(("x".to_string(), vec![b'v'; left - 5])); }
                    h
                };
                let mut r = Rec::numbered(1, 3, 3);
                match part {
                    0 => r.meta = full(n),
                    1 => r.req_h = full(n),
                    2 => r.req_b = pattern(0, n - end.min(n)),
                    3 => r.res_h = if n < 64_000 { block(n) } else { full(n) },
                    _ => r.res_b = pattern(0, n - end.min(n)),
                }
                tr!("part {} of {} bytes", part, n);
                observe(n);
                both_ways(&r, alg, Make::Ram1, Make::Ram1, one(&[10_000_000u64, 100]))
            }
            F::Ways { by } => {
                let shapes = shapes();
                let k = choose(shapes.len());
                let ram = one(&[100_000u64, 10]);
                let p = fresh("c31.barc");
                let f = match by { By::Plain => b'P', By::Gzip(..) => b'Z', By::Brotli(..) => b'B' };
                let mut want = vec![(append(&p, &encode(&shapes[k], by)), f, shapes[k].clone())];
                let l = choose(shapes.len());
                observe((k, l, ram));
                want.push((append(&p, &encode(&shapes[l], by)), f, shapes[l].clone()));
                // appended to by the library
                let r = Rec::numbered(7, 2, 2);
                match write_one(&p, &r.ram(), &Always(one(&ALGS[..t.pick(1, 3)]))) { Ok(o) => want.push((o, 0, r)), Err(e) => bail!(KW, "{}", e) }
                library_finds(&p, &want, ram)
            }
            F::Vast { res } => with_file_limit(5 << 30, || vast(res)),
            F::Reserved { alg } => {
                // n records, then the head of one under way with any part of it
                let p = fresh("c31.barc");
                let n = choose(3);
                let mut want = vec![];
                for i in 0..n {
                    let r = Rec::numbered(i, i, 2);
                    want.push((append(&p, &encode(&r, usual(ALGS[(i + 1) % 3]))), 0, r));
                }
                let whole = encode(&Rec::numbered(5, 2, 3), usual(alg));
                let part = choose(whole.len() - 54 + 1);
                let at = append(&p, &head(0, b'R', b'P', 0, 0, 0, 0));
                append(&p, &whole[54..54 + part]);
                observe((n, part));
                let tn = tune(100, 1000, 64, 64, &dir("t"));
                library_finds(&p, &want, 100)?;
                let mut rd = match BarcFile::new(&p).reader() { Ok(r) => r, Err(e) => bail!(KR, "reader: {}", e) };
                if let Err(e) = rd.seek(at) { bail!(KR, "seek: {}", e) }
                ensure!(next(KR, &mut rd, &tn)?.is_none() && rd.offset() == at, KR, "a record under way was read, now at {}", rd.offset());
                // complete it
                let mut f = OpenOptions::new().write(true).open(&p).expect("archive");
                f.seek(SeekFrom::Start(at)).expect("seek");
                f.write_all(&whole).expect("complete");
                match next(KR, &mut rd, &tn)? { Some(r) => Rec::numbered(5, 2, 3).same(KR, &r)?, None => bail!(KR, "completed record not read") }
                Ok(())
            }
            F::Sample { k } => {
                let p = scratch_file("sample.barc", SAMPLES[k]);
                let ram = one(&[100_000u64, 10]);
                observe(ram);
                if k == 2 { return library_finds(&p, &[], ram); }
                let want = match decode(SAMPLES[k]) { Ok(w) => w, Err(e) => engine_fail(&format!("sample: {}", e)) };
                library_finds(&p, &want, ram)?;
                // by the library, it is the same again
                let mut rd = match BarcFile::new(&p).reader() { Ok(r) => r, Err(e) => bail!(KR, "reader: {}", e) };
                let rec = match next(KR, &mut rd, &tune(ram, 100_000, 64, 64, &dir("t")))? { Some(r) => r, None => bail!(KR, "no record") };
                let alg = one(&ALGS);
                let q = fresh("c31.barc");
                if let Err(e) = write_one(&q, &rec, &Always(alg)) { bail!(KW, "{}", e) }
                others_find(&q, &[(0, flag(alg), want[0].2.clone())])?;
                let d = match Dialog::try_from(rec) { Ok(d) => d, Err(e) => bail!(KM, "sample is not a dialog: {}", e) };
                let dec: &[Encoding] = if k == 0 { &[Encoding::Gzip] } else { &[] };
                ensure!(d.method() == Method::GET && d.res_version() == Version::HTTP_11 && d.res_status() == [200u16, 204][k]
                    && d.url().to_string() == ["https://example.com/", "http://getstatuscode.com/204"][k] && &d.res_decoded()[..] == dec, KM, "sample as {:?}", d);
                Ok(())
            }
            F::Parts => {
                let b = blocks();
                let h = one(&b);
                let crlf = flip();
                let m = hmap(&h).expect("headers");
                let mut out = vec![];
                let n = match write_headers(&mut out, crlf, &m) { Ok(n) => n, Err(e) => bail!(KW, "write_headers: {}", e) };
                ensure!(n == out.len(), KW, "write_headers reports {} of {} bytes", n, out.len());
                match headers(&out, crlf) { Ok(g) => ensure!(by_name(&g) == by_name(&h), KW, "headers written: {}", hx(&out)), Err(e) => bail!(KW, "headers written: {}", e) }
                let data = pattern(0, choose(4));
                let body = match make_body(one(&MAKES), &data) { Ok(b) => b, Err(e) => bail!(KW, "body: {}", e) };
                let mut out = vec![];
                let n = match write_body(&mut out, crlf, &body) { Ok(n) => n, Err(e) => bail!(KW, "write_body: {}", e) };
                let want: Vec<u8> = if crlf && !data.is_empty() { [&data[..], b"\r\n"].concat() } else { data };
                ensure!(n == out.len() as u64 && out == want, KW, "write_body reports {}: {}", n, hx(&out));
                observe((out, h.len()));
                Ok(())
            }
            F::Methods => {
                let (m, u) = (one(&methods()), one(&urls()));
                observe((m.to_string(), u.to_string()));
                meta_kept(&m, &u, Version::HTTP_11, StatusCode::OK, &[])
            }
            F::Status { v } => {
                let s = StatusCode::from_u16(100 + choose(900) as u16).expect("status");
                observe((s.as_u16(), format!("{:?}", v)));
                meta_kept(&Method::GET, &Uri::from_static("http://h/"), v, s, &[])
            }
            F::Decoded { n } => {
                let k = choose(n + 1);
                let dec: Vec<Encoding> = (0..k).map(|_| one(&ENCS)).collect();
                observe(format!("{:?}", dec));
                meta_kept(&Method::POST, &Uri::from_static("http://h/p?q"), Version::HTTP_2, StatusCode::NOT_FOUND, &dec)
            }
            F::Spelled { sep, alg } => {
                // other spellings of the same
                let (m, u) = (Method::GET, Uri::from_static("http://h/"));
                let s = one(&[200u16, 404, 599, 100, 999]);
                let phrase = one(&["", " ", " OK", " Other words", " 404 Not", "\tx"]);
                let dec: Vec<Encoding> = (0..choose(3)).map(|_| one(&ENCS)).collect();
                let upper = flip();
                let st = StatusCode::from_u16(s).expect("status");
                let mut meta = meta_of(&m, &u, Version::HTTP_11, st, &dec);
                meta[3].1 = format!("{}{}", s, phrase).into_bytes();
                if let Some(d) = meta.get_mut(4) { d.1 = dec.iter().map(|e| ename(*e)).collect::<Vec<_>>().join(sep).into_bytes(); }
                if upper { for h in &mut meta { h.0 = h.0.to_ascii_uppercase(); } }
                if flip() { meta.reverse(); }
                if flip() { meta.insert(1, ("x-other".into(), b"app".to_vec())); }
                observe((s, phrase, sep, upper));
                as_dialog(alg, meta, &m, &u, Version::HTTP_11, st, &dec)
            }
        }
    }
}
