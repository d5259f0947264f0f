//! C08: every archived record reads back identical.
//! C09: records are found in write order and at their offsets.

use barc::{BarcFile, BarcReader, Record};
use body_image::{BodyImage, BodySink};

use crate::arc::*;
use crate::engine::*;
use crate::util::*;
use crate::{bail, ensure, tr};

use super::c02::Cache;
use super::c03::{strategy, Alg};

pub struct C08;
pub struct C09;

const ALGS: [Alg; 3] = [Alg::Plain, Alg::Gzip, Alg::Brotli];

#[derive(Clone, Debug)]
enum F8 {
    /// every combination of header blocks
    Blocks { alg: Alg, meta: usize },
    /// every byte allowed in a header name or value
    Bytes { alg: Alg, name: bool },
    /// values out of a few characters of meaning
    Values { alg: Alg, first: usize },
    /// number of headers
    Many { alg: Alg, n: usize, distinct: bool },
    /// header block filled to the limit of the format
    Full { alg: Alg },
    /// bodies: all lengths, states and tunings
    Bodies { alg: Alg, mq: Make, ms: Make },
    /// larger bodies
    Large { alg: Alg, n: usize, res: bool, ms: Make },
    /// very large bodies
    Huge { alg: Alg, n: usize, res: bool },
    /// bodies which look like parts of the format
    Content { alg: Alg },
    /// bodies beyond 4 GiB: parts, which body, in which state written
    Vast { parts: usize, res: bool, state: usize },
}

pub fn blocks() -> Vec<Hdrs> {
    let h = |l: &[(&str, &[u8])]| l.iter().map(|(n, v)| (n.to_string(), v.to_vec())).collect::<Hdrs>();
    vec![
        h(&[]),
        h(&[("a", b"1")]),
        h(&[("a", b"")]),
        h(&[("set-cookie", b"x=1"), ("set-cookie", b"x=2"), ("via", b"p"), ("set-cookie", b"x=1")]),
        h(&[("content-type", b"text/html; charset=utf-8"), ("x-long", &[b'v'; 700])]),
        h(&[("x-obs", b"caf\xc3\xa9 \xff\x80"), ("x-tab", b"a\tb"), ("x-colon", b"a: b\"c\"")]),
        h(&[("x-pad", b"  padded\t"), ("x-brc", b"BARC2 000000000000 DP")]),
        h(&[("a", b"v"), ("b", b""), ("a", b""), ("a", b"w")]),
        h(&[("c", b"v"), ("c", b"v"), ("b", b"v"), ("c", b"v"), ("b", b"v")]),
    ]
}

const VALUE: [u8; 10] = [b':', b' ', b'\t', b',', b';', b'"', b'\\', b'=', b'x', 0xff];

fn cfgs8(t: Tier) -> Vec<F8> {
    let mut v = vec![];
    for alg in ALGS {
        for meta in 0..blocks().len() { v.push(F8::Blocks { alg, meta }); }
        for name in [true, false] { v.push(F8::Bytes { alg, name }); }
        for first in 0..VALUE.len() { v.push(F8::Values { alg, first }); }
        for n in t.pick(vec![1usize, 2, 100, 127, 128, 129, 300, 2000, 24576], vec![1, 2, 3, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 1000, 2000, 5000, 24576]) {
            for distinct in [true, false] { v.push(F8::Many { alg, n, distinct }); }
        }
        v.push(F8::Full { alg });
        for mq in MAKES {
            for ms in MAKES {
                if t == Tier::Quick && mq != ms && mq != Make::Ram1 && ms != Make::RamScattered { continue; }
                v.push(F8::Bodies { alg, mq, ms });
            }
        }
        for n in t.pick(vec![4096usize, 8192, 8193, 70_000], vec![4095, 4096, 4097, 8191, 8192, 8193, 32_768, 65_535, 65_536, 65_537, 70_000, 300_000]) {
            for res in [true, false] {
                for ms in t.pick(vec![Make::Ram1, Make::Mapped], MAKES.to_vec()) {
                    v.push(F8::Large { alg, n, res, ms });
                }
            }
        }
        v.push(F8::Content { alg });
        for n in t.pick(vec![300_000usize, 1_100_000], vec![1_048_575, 1_048_576, 1_048_577, 1_100_000, 5_000_000]) {
            for res in [true, false] { v.push(F8::Huge { alg, n, res }); }
        }
        if t == Tier::Thorough || alg == Alg::Plain { for res in [true, false] { v.push(F8::Huge { alg, n: (16 << 20) + 1, res }); } }
    }
    for parts in 0..super::c01::GROW.len() { for res in [false, true] { for state in 0..3 { if state != 1 || parts == 0 { v.push(F8::Vast { parts, res, state }); } } } }
    v
}
static CACHE8: Cache<F8> = Cache::new();
const K8: &str = "round-trip";

fn round(rec: &Rec, mq: Make, ms: Make, alg: Alg, ram: u64, bram: usize, bfs: usize) -> Res {
    let tmp = dir("t");
    let tn = tune(ram, (rec.res_b.len() + rec.req_b.len()) as u64 + 10_000_000, bram, bfs, &tmp);
    let p = fresh("c08.barc");
    let r = match rec.record(mq, ms) { Ok(r) => r, Err(e) => bail!(K8, "making the record failed: {}", e) };
    match write_one(&p, &r, &*strategy(alg, 0)) {
        Ok(o) => ensure!(o == 0, K8, "offset {} of first record", o),
        Err(e) => bail!(K8, "{}", e),
    }
    // the record written is not changed by that
    rec.same_quick(K8, &r)?;
    let f = BarcFile::new(&p);
    let mut rd = match f.reader() { Ok(r) => r, Err(e) => bail!(K8, "reader: {}", e) };
    let got = match next(K8, &mut rd, &tn)? { Some(g) => g, None => bail!(K8, "no record") };
    rec.same(K8, &got)?;
    observe((state_of(&got.req_body), state_of(&got.res_body)));
    // mapped as read from the archive
    let mut b = got.res_body.clone();
    if let Err(e) = b.mem_map() { bail!(K8, "mem_map: {}", e) }
    check_image(K8, &b, &rec.res_b)?;
    let mut b = got.req_body.clone();
    if let Err(e) = b.mem_map() { bail!(K8, "mem_map: {}", e) }
    check_image(K8, &b, &rec.req_b)?;
    ensure!(next(K8, &mut rd, &tn)?.is_none(), K8, "second record");
    // written again, from what was read
    let p2 = fresh("c08b.barc");
    if let Err(e) = write_one(&p2, &got, &*strategy(alg, 0)) { bail!(K8, "second generation: {}", e) }
    expect_all(K8, &p2, &tn, &[(0, rec)])
}

/// A record with a body beyond 4 GiB (not compressed), and another one
fn vast(z: &'static [u8], parts: &'static [usize], res: bool, state: usize) -> Res {
    use super::c01::{check_grown, grown_part};
    let tmp = dir("t");
    let mut s = if state == 0 { BodySink::empty() } else { match BodySink::with_fs(&tmp) { Ok(s) => s, Err(e) => bail!(K8, "with_fs: {}", e) } };
    let mut at = 0;
    for n in parts {
        if let Err(e) = s.push(grown_part(z, at, *n)) { bail!(K8, "push: {}", e) }
        at += *n as u64;
    }
    let mut body = match s.prepare() { Ok(b) => b, Err(e) => bail!(K8, "prepare: {}", e) };
    if state == 2 { if let Err(e) = body.mem_map() { bail!(K8, "mem_map: {}", e) } }
    let (small, after) = (Rec::numbered(1, 3, 4), Rec::numbered(2, 5, 6));
    let mut rec = small.ram();
    if res { rec.res_body = body } else { rec.req_body = body }
    let one = |p: &std::path::Path, rec: &Record| -> Res<Record> {
        for (i, r) in [rec, &after.ram()].iter().enumerate() {
            match write_one(p, r, &*strategy(Alg::Plain, 0)) {
                Ok(o) => ensure!(i == 0 && o == 0 || i == 1 && o > at, K8, "record {} at {}", i, o),
                Err(e) => bail!(K8, "writing record {}: {}", i, e),
            }
        }
        let tn = tune(1000, 10_000, 64, 64, &tmp);
        let mut rd = match BarcFile::new(p).reader() { Ok(r) => r, Err(e) => bail!(K8, "reader: {}", e) };
        let mut got = match next(K8, &mut rd, &tn)? { Some(g) => g, None => bail!(K8, "no record") };
        check_grown(K8, if res { &got.res_body } else { &got.req_body }, parts)?;
        // all else, as of a record without that body
        let (mut other, mut want) = (got.clone(), small.clone());
        if res { other.res_body = BodyImage::empty(); want.res_b.clear(); } else { other.req_body = BodyImage::empty(); want.req_b.clear(); }
        want.same(K8, &other)?;
        match next(K8, &mut rd, &tn)? { Some(g) => after.same(K8, &g)?, None => bail!(K8, "no second record") }
        ensure!(next(K8, &mut rd, &tn)?.is_none(), K8, "third record");
        // and mapped: copied from the file, it would take too long to write
        {
            let b = if res { &mut got.res_body } else { &mut got.req_body };
            if let Err(e) = b.mem_map() { bail!(K8, "mem_map: {}", e) }
            check_grown(K8, b, parts)?;
        }
        Ok(got)
    };
    let (p, p2) = (fresh("c08v.barc"), fresh("c08w.barc"));
    let r = one(&p, &rec).and_then(|got| one(&p2, &got));
    std::fs::remove_file(&p).ok();
    std::fs::remove_file(&p2).ok();
    observe((at, res, state));
    r.map(|_| ())
}

impl Check for C08 {
    fn id(&self) -> &'static str { "C08" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("{} families: all combinations of header blocks, every byte value allowed in names and values, all values of up to 3 out of 10 characters, header counts up to {} and a full block, all small body lengths in all body states with all read limits next to them, larger bodies, bodies imitating the format, bodies beyond 4 GiB (not compressed); each for plain, gzip and brotli, written, read back, compared in all fields, mapped, and written again from what was read", cfgs8(t).len(), 24576)
    }
    fn configs(&self, t: Tier) -> usize { CACHE8.get(t, cfgs8).len() }
    fn describe(&self, t: Tier, c: usize) -> String { format!("{:?}", CACHE8.get(t, cfgs8)[c]) }
    fn run(&self, t: Tier, c: usize) -> Res {
        match CACHE8.get(t, cfgs8)[c].clone() {
            F8::Blocks { alg, meta } => {
                let bl = blocks();
                let (q, s) = (choose(bl.len()), choose(bl.len()));
                let (nq, ns) = *pick(&[(0usize, 0usize), (3, 0), (0, 5), (4, 5)]);
                let rec = Rec { meta: bl[meta].clone(), req_h: bl[q].clone(), res_h: bl[s].clone(), req_b: pattern(0, nq), res_b: pattern(50, ns) };
                tr!("blocks {} {} bodies {} {}", q, s, nq, ns);
                let ram = *pick(&[0u64, 100]);
                observe((q, s, nq, ns));
                round(&rec, Make::Ram1, Make::Ram1, alg, ram, 64, 64)
            }
            F8::Bytes { alg, name } => {
                let b = choose(256) as u8;
                let rec = if name {
                    let pos = choose(3);
                    let mut n = b"xyz".to_vec();
                    n[pos] = b;
                    let n = match String::from_utf8(n) { Ok(n) => n, Err(_) => return Ok(()) };
                    if http::header::HeaderName::from_bytes(n.as_bytes()).is_err() { return Ok(()); }
                    let n = http::header::HeaderName::from_bytes(n.as_bytes()).unwrap().as_str().to_string();
                    tr!("name {:?}", n);
                    Rec { res_h: vec![(n, b"v".to_vec())], ..Rec::default() }
                } else {
                    let v = match choose(4) { 0 => vec![b], 1 => vec![b, b'x'], 2 => vec![b'x', b], _ => vec![b'x', b, b'y'] };
                    if http::header::HeaderValue::from_bytes(&v).is_err() { return Ok(()); }
                    tr!("value {}", hx(&v));
                    Rec { meta: vec![("n".into(), v)], ..Rec::default() }
                };
                observe(b);
                let quote = rec.res_h.iter().any(|(n, _)| n.contains('"'));
                round(&rec, Make::Ram1, Make::Ram1, alg, 100, 64, 64).map_err(|v| {
                    if quote && v.msg.contains("invalid header name") { Viol { key: "quote-in-name".into(), msg: v.msg } } else { v }
                })
            }
            F8::Values { alg, first } => {
                let mut v = vec![VALUE[first]];
                for _ in 0..2 { match choose(VALUE.len() + 1) { 0 => break, c => v.push(VALUE[c - 1]) } }
                let w = choose(3);
                tr!("value {} in {}", hx(&v), w);
                let mut rec = Rec::numbered(1, 0, 2);
                let hs: Hdrs = vec![("a".into(), b"1".to_vec()), ("n".into(), v.clone()), ("n".into(), v), ("z".into(), b"2".to_vec())];
                *[&mut rec.meta, &mut rec.req_h, &mut rec.res_h][w] = hs;
                observe(w);
                round(&rec, Make::Ram1, Make::Ram1, alg, 100, 64, 64)
            }
            F8::Many { alg, n, distinct } => {
                let hs: Hdrs = (0..n).map(|i| if distinct { (format!("h{}", i), i.to_string().into_bytes()) } else { ("same".into(), i.to_string().into_bytes()) }).collect();
                let w = choose(3);
                let mut rec = Rec::default();
                *[&mut rec.meta, &mut rec.req_h, &mut rec.res_h][w] = hs;
                observe((n, w));
                round(&rec, Make::Ram1, Make::Ram1, alg, 100, 64, 64)
            }
            F8::Full { alg } => {
                // plain blocks are terminated by CRLF, which counts
                let d = choose(3);
                let w = choose(3);
                let total = barc::V2_MAX_HBLOCK - if alg == Alg::Plain { 2 } else { 0 } - d;
                let mut rec = Rec::default();
                *[&mut rec.meta, &mut rec.req_h, &mut rec.res_h][w] = vec![("f".into(), vec![b'v'; total - 5])];
                rec.res_b = pattern(0, 5);
                observe((d, w));
                round(&rec, Make::Ram1, Make::Ram1, alg, 100, 64, 64)
            }
            F8::Bodies { alg, mq, ms } => {
                const L: [usize; 6] = [0, 1, 2, 3, 7, 100];
                let (nq, ns) = (*pick(&L), *pick(&L));
                let mut rec = Rec::numbered(1, nq, ns);
                if flip() { rec.meta.clear(); rec.req_h.clear(); rec.res_h.clear(); }
                let lim = *pick(&[0u64, 1, 2, 3, 4, 5, 8, 9, 10, 101, 102, 103, 1000]);
                tr!("bodies {} {} limit {}", nq, ns, lim);
                let (bram, bfs) = if nq <= 7 && ns <= 7 { *pick(&[(64, 64), (3, 2)]) } else { (64, 64) };
                observe((nq, ns, lim));
                round(&rec, mq, ms, alg, lim, bram, bfs)
            }
            F8::Large { alg, n, res, ms } => {
                let mut rec = if res { Rec::numbered(1, 3, n) } else { Rec::numbered(1, n, 3) };
                if flip() { let b = if res { &mut rec.res_b } else { &mut rec.req_b }; for x in b.iter_mut() { *x = b'z'; } }
                let lim = *pick(&[0u64, n as u64 - 1, n as u64, n as u64 + 2, 10_000_000]);
                let (bram, bfs) = *pick(&[(8192, 65536), (1024, 1000)]);
                observe((n, lim));
                if res { round(&rec, Make::Ram1, ms, alg, lim, bram, bfs) } else { round(&rec, ms, Make::Ram1, alg, lim, bram, bfs) }
            }
            F8::Huge { alg, n, res } => {
                let rec = if res { Rec::numbered(1, 3, n) } else { Rec::numbered(1, n, 3) };
                let lim = if n > 2_000_000 { 0 } else { one(&[0, n as u64 + 2]) };
                observe((n, lim));
                round(&rec, Make::Ram1, Make::Ram1, alg, lim, 8192, 65536)
            }
            F8::Vast { parts, res, state } => with_file_limit(8 << 30, || with_space_limit(30 << 30, || crate::sys::with_zeros(1 << 30, |z| vast(z, super::c01::GROW[parts], res, state)))),
            F8::Content { alg } => {
                let things: [&[u8]; 10] = [b"\r\n", b"\r\n\r\n", b"\n", b"\r", b"x\r\n", b"\0\0\0",
                    b"BARC2 000000000000 RP 00000 00000 0000000000 00000\r\n\r\n",
                    b"\x1f\x8b\x08\0\0\0\0\0\0\x03", b"\r\nBARC2 ", b"a: b\r\n\r\n"];
                let (q, s) = (choose(10), choose(10));
                let rec = Rec { req_b: things[q].to_vec(), res_b: things[s].to_vec(), ..Rec::numbered(2, 0, 0) };
                let lim = *pick(&[0u64, 4, 1000]);
                observe((q, s, lim));
                round(&rec, Make::Ram1, Make::Ram1, alg, lim, 64, 64)
            }
        }
    }
}

// ---- C09

#[derive(Clone, Debug)]
struct F9 { depth: usize, kinds: &'static [(Alg, usize, usize)], ram: u64, readers: usize, hold: bool,
    /// records already there
    pre: usize,
    /// a sparse record of so many bytes more is there, or as many as for the
    /// next to start at that
    gap: u64, next: u64 }

fn cfgs9(t: Tier) -> Vec<F9> {
    let mut v = vec![];
    const A: &[(Alg, usize, usize)] = &[(Alg::Plain, 0, 5), (Alg::Gzip, 4, 6)];
    const B: &[(Alg, usize, usize)] = &[(Alg::Plain, 3, 0), (Alg::Brotli, 0, 7)];
    const C: &[(Alg, usize, usize)] = &[(Alg::Plain, 4, 9), (Alg::Plain, 0, 0), (Alg::Gzip, 0, 0)];
    const D: &[(Alg, usize, usize)] = &[(Alg::Plain, NONE, 0), (Alg::Gzip, NONE, 0), (Alg::Brotli, NONE, 0)];
    for kinds in [A, B, C, D] {
        for ram in [0u64, 6, 100] {
            for hold in [false, true] {
                v.push(F9 { depth: t.pick(5, 6), kinds, ram, readers: 1, hold, pre: 0, gap: 0, next: 0 });
                v.push(F9 { depth: t.pick(4, 6), kinds, ram, readers: 2, hold, pre: 0, gap: 0, next: 0 });
            }
        }
    }
    const L: &[(Alg, usize, usize)] = &[(Alg::Plain, 0, 70_000), (Alg::Gzip, 66_000, 3), (Alg::Brotli, 2, 300)];
    for ram in [0u64, 100, 1 << 20] {
        for hold in [false, true] {
            // offsets beyond 64 KiB
            v.push(F9 { depth: t.pick(3, 4), kinds: L, ram, readers: 1, hold, pre: 0, gap: 0, next: 0 });
            // many records
            for pre in [10, 40] { v.push(F9 { depth: t.pick(2, 3), kinds: A, ram, readers: 1, hold, pre, gap: 0, next: 0 }); }
            v.push(F9 { depth: 2, kinds: A, ram, readers: 1, hold, pre: 300, gap: 0, next: 0 });
        }
    }
    for gap in [1 << 31, (1 << 32) - 200, 1 << 32, (5 << 30) + 12345] {
        for kinds in [A, B] { v.push(F9 { depth: 3, kinds, ram: 100, readers: 1, hold: false, pre: 0, gap, next: 0 }); }
    }
    v.push(F9 { depth: 0, kinds: A, ram: 100, readers: 1, hold: false, pre: 0, gap: 0, next: 0 });
    // at and around round offsets
    for at in [4096, 8192, 1 << 16, 1 << 17, 1 << 20, 1 << 24, 1 << 31, 1 << 32] {
        for next in [at - 54, at - 1, at, at + 1] { v.push(F9 { depth: 2, kinds: A, ram: 100, readers: 1, hold: false, pre: 0, gap: 0, next }); }
    }
    v
}
static CACHE9: Cache<F9> = Cache::new();
const K9: &str = "order";

struct H9 { recs: Vec<(u64, Rec)>, image: Vec<u8> }

impl Check for C09 {
    fn id(&self) -> &'static str { "C09" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("{} configurations (record kinds and compressions, read tuning, readers, writer kept or renewed, an older handle used again); all histories of up to {} operations out of: write each kind, reopen the file, open a reader, read, seek to each known offset or the end; also with a record of up to 5 GiB, mostly a hole, before the others, and with records at and around round offsets; model: list of records with offsets and the file bytes as they were", cfgs9(t).len(), t.pick(5, 6))
    }
    fn configs(&self, t: Tier) -> usize { CACHE9.get(t, cfgs9).len() }
    fn describe(&self, t: Tier, c: usize) -> String { format!("{:?}", CACHE9.get(t, cfgs9)[c]) }
    fn run(&self, t: Tier, c: usize) -> Res {
        let cfg = CACHE9.get(t, cfgs9)[c].clone();
        let tmp = dir("t");
        let tn = tune(cfg.ram, 1 << 21, 64, 64, &tmp);
        let p = fresh("c09.barc");
        if cfg.depth == 0 { return far(&p, &tn); }
        if cfg.gap + cfg.next > 0 {
            let r = with_file_limit((5 << 30) + (64 << 20), || sparse(&cfg, &p, &tn));
            std::fs::remove_file(&p).ok();
            return r;
        }
        let mut h = H9 { recs: vec![], image: vec![] };
        // readers: position in the list of records
        let mut rds: Vec<(BarcReader, usize)> = vec![];
        // `hold`: the archive handle is kept and its writer used repeatedly
        let mut files: Vec<BarcFile> = vec![BarcFile::new(&p)];
        if cfg.pre > 0 {
            let mut w = match files[0].writer() { Ok(w) => w, Err(e) => bail!(K9, "writer: {}", e) };
            for i in 0..cfg.pre {
                let (alg, q, s) = cfg.kinds[i % cfg.kinds.len()];
                let rec = Rec::numbered(i, q, s);
                match w.write(&rec.ram(), &*strategy(alg, 0)) {
                    Ok(o) => note_write(&mut h, &p, o, rec)?,
                    Err(e) => bail!(K9, "write: {}", e),
                }
            }
        }
        let mut left = cfg.depth;
        while left > 0 {
            left -= 1;
            // 0: stop; writes; reopen; new reader; per reader: read, seek to each record, seek to end
            let nk = cfg.kinds.len();
            // of many records, some may be sought
            let known: Vec<usize> = if h.recs.len() > 9 { vec![0, 1, 8, h.recs.len() - 1] } else { (0..h.recs.len()).collect() };
            let per = 2 + known.len();
            let exists = !h.image.is_empty();
            let open = (rds.len() < cfg.readers && exists) as usize;
            let n = 1 + nk + 1 + open + rds.len() * per;
            let mut c = choose(n);
            if c == 0 { break; }
            c -= 1;
            if c < nk {
                let (alg, q, s) = cfg.kinds[c];
                let rec = Rec::numbered(h.recs.len(), q, s);
                // with hold, either of the last two handles
                let back = if files.len() > 1 { choose(2) } else { 0 };
                let f = &files[files.len() - 1 - back];
                let r = {
                    let mut w = match f.writer() { Ok(w) => w, Err(e) => bail!(K9, "writer: {}", e) };
                    if cfg.hold && h.recs.len() % 2 == 0 && left > 0 && flip() {
                        // two records with one writer
                        left -= 1;
                        match w.write(&rec.ram(), &*strategy(alg, 0)) {
                            Ok(o) => note_write(&mut h, &p, o, rec.clone())?,
                            Err(e) => bail!(K9, "write: {}", e),
                        }
                        let rec2 = Rec::numbered(h.recs.len(), q, s);
                        (w.write(&rec2.ram(), &*strategy(alg, 0)), rec2)
                    } else {
                        (w.write(&rec.ram(), &*strategy(alg, 0)), rec)
                    }
                };
                match r.0 {
                    Ok(o) => { tr!("write {:?} at {}", alg, o); note_write(&mut h, &p, o, r.1)? }
                    Err(e) => bail!(K9, "write: {}", e),
                }
                observe((1, h.recs.len()));
                continue;
            }
            c -= nk;
            if c == 0 {
                tr!("reopen");
                // with hold, the older handle stays around
                if !cfg.hold { files.clear(); }
                files.push(BarcFile::new(&p));
                observe(2);
                continue;
            }
            c -= 1;
            if open == 1 {
                if c == 0 {
                    tr!("open reader");
                    match files.last().unwrap().reader() { Ok(r) => rds.push((r, 0)), Err(e) => bail!(K9, "reader: {}", e) }
                    let r = &rds.last().unwrap().0;
                    ensure!(r.offset() == 0, K9, "new reader at {}", r.offset());
                    observe(3);
                    continue;
                }
                c -= 1;
            }
            let (ri, act) = (c / per, c % per);
            let (rd, pos) = &mut rds[ri];
            match act {
                0 => {
                    tr!("reader {} read at {}", ri, rd.offset());
                    let got = next(K9, rd, &tn)?;
                    match (got, h.recs.get(*pos)) {
                        (Some(g), Some((_, w))) => { w.same_quick(K9, &g)?; *pos += 1; }
                        (None, None) => {}
                        (Some(_), None) => bail!(K9, "record beyond the last"),
                        (None, Some((o, _))) => bail!(K9, "end of file instead of the record at {}", o),
                    }
                    observe((4, *pos));
                }
                1 => {
                    let end = h.image.len() as u64;
                    tr!("reader {} seek to end {}", ri, end);
                    if let Err(e) = rd.seek(end) { bail!(K9, "seek: {}", e) }
                    *pos = h.recs.len();
                    observe(5);
                }
                k => {
                    let k = known[k - 2];
                    tr!("reader {} seek to record {}", ri, k);
                    if let Err(e) = rd.seek(h.recs[k].0) { bail!(K9, "seek: {}", e) }
                    *pos = k;
                    observe((6, *pos));
                }
            }
            let want = h.recs.get(*pos).map(|r| r.0).unwrap_or(h.image.len() as u64);
            ensure!(rd.offset() == want, K9, "reader offset is {}, the next record is at {}", rd.offset(), want);
        }
        if h.image.is_empty() { return Ok(()); }
        let want: Vec<(u64, &Rec)> = h.recs.iter().map(|(o, r)| (*o, r)).collect();
        expect_all(K9, &p, &tn, &want)?;
        expect_at(K9, &p, &tn, &want)?;
        // a reader continues to see all that follows
        for (mut rd, pos) in rds {
            for (_, w) in &h.recs[pos..] {
                match next(K9, &mut rd, &tn)? { Some(g) => w.same_quick(K9, &g)?, None => bail!(K9, "reader does not see later record") }
            }
            ensure!(next(K9, &mut rd, &tn)?.is_none(), K9, "record beyond the last");
        }
        Ok(())
    }
}

fn note_write(h: &mut H9, p: &std::path::Path, off: u64, rec: Rec) -> Res {
    let now = std::fs::read(p).unwrap_or_default();
    ensure!(off == h.image.len() as u64, K9, "offset {} returned, file had {} bytes", off, h.image.len());
    ensure!(now.len() > h.image.len() && now.starts_with(&h.image), K9, "bytes of earlier records changed: {}", first_diff(&now, &h.image));
    h.image = now;
    h.recs.push((off, rec));
    Ok(())
}

/// Seeks far beyond the end, and back
fn far(p: &std::path::Path, tn: &body_image::Tunables) -> Res {
    let rec = Rec::numbered(0, 2, 3);
    let n = match write_one(p, &rec.ram(), &*strategy(Alg::Plain, 0)) { Ok(_) => std::fs::metadata(p).map(|m| m.len()).unwrap_or(0), Err(e) => bail!(K9, "{}", e) };
    let mut rd = match BarcFile::new(p).reader() { Ok(r) => r, Err(e) => bail!(K9, "reader: {}", e) };
    let bit = 9 + choose(54);
    let at = (1u64 << bit) + one(&[0, 1, n]) - choose(2) as u64;
    if let Err(e) = rd.seek(at) { bail!(K9, "seek to {}: {}", at, e) }
    ensure!(rd.offset() == at, K9, "offset is {} after a seek to {}", rd.offset(), at);
    match rd.read(tn) { Ok(None) => {}, Ok(Some(_)) => bail!(K9, "a record at {}", at), Err(e) => bail!(K9, "read at {}: {}", at, e) }
    ensure!(rd.offset() == at, K9, "offset is {} after a read at {}", rd.offset(), at);
    if let Err(e) = rd.seek(0) { bail!(K9, "seek back: {}", e) }
    match rd.read(tn) { Ok(Some(r)) => rec.same_quick(K9, &r)?, Ok(None) => bail!(K9, "no record at 0"), Err(e) => bail!(K9, "read: {}", e) }
    ensure!(rd.offset() == n, K9, "offset is {} at the end, {}", rd.offset(), n);
    Ok(())
}

/// A record with a body of which most is a hole in the file, and others after
/// it: offsets and lengths beyond what fits in 31 or 32 bits.
fn sparse(cfg: &F9, p: &std::path::Path, tn: &body_image::Tunables) -> Res {
    use std::io::{Read, Seek, SeekFrom, Write};
    let in_req = flip();
    let first = Rec::numbered(0, 2, 3);
    let big = if in_req { Rec::numbered(1, 5, 4) } else { Rec::numbered(1, 4, 5) };
    let mut offs = vec![];
    for r in [&first, &big] {
        match write_one(p, &r.ram(), &*strategy(Alg::Plain, 0)) { Ok(o) => offs.push(o), Err(e) => bail!(K9, "{}", e) }
    }
    // lengthen a body by moving what follows it
    let img = std::fs::read(p).unwrap_or_default();
    let gap = if cfg.next > 0 { cfg.next - img.len() as u64 } else { cfg.gap };
    let o = offs[1] as usize;
    let body = if in_req { &big.req_b } else { &big.res_b };
    let at = match img[o..].windows(body.len() + 2).position(|w| w.starts_with(body) && w.ends_with(b"\r\n")) { Some(i) => o + i + body.len(), None => bail!(K9, "body not found") };
    let num = |a: usize, b: usize| u64::from_str_radix(std::str::from_utf8(&img[o + a..o + b]).unwrap_or("x"), 16).unwrap_or(0);
    let mut make = || -> std::io::Result<()> {
        let mut f = std::fs::OpenOptions::new().write(true).open(p)?;
        f.seek(SeekFrom::Start(o as u64 + 6))?;
        write!(f, "{:012x}", num(6, 18) + gap)?;
        if in_req { f.seek(SeekFrom::Start(o as u64 + 34))?; write!(f, "{:010x}", num(34, 44) + gap)?; }
        f.set_len(at as u64)?;
        f.seek(SeekFrom::Start(at as u64 + gap))?;
        f.write_all(&img[at..])
    };
    if let Err(e) = make() { engine_fail(&format!("sparse file: {}", e)); }
    let f = BarcFile::new(p);
    let mut recs: Vec<(u64, Rec)> = vec![];
    let mut end = img.len() as u64 + gap;
    for i in 0..choose(cfg.depth + 1) {
        let (alg, q, s) = one(cfg.kinds);
        let rec = Rec::numbered(2 + i, q, s);
        match f.writer().and_then(|mut w| w.write(&rec.ram(), &*strategy(alg, 0))) {
            Ok(off) => ensure!(off == end, K9, "offset {} returned, file had {} bytes", off, end),
            Err(e) => bail!(K9, "write at {}: {}", end, e),
        }
        recs.push((end, rec));
        end = std::fs::metadata(p).map(|m| m.len()).unwrap_or(0);
    }
    observe((in_req, recs.len()));
    let large = |r: &barc::Record| -> Res {
        let (b, small, want) = if in_req { (&r.req_body, (&r.res_body, &big.res_b), &big.req_b) } else { (&r.res_body, (&r.req_body, &big.req_b), &big.res_b) };
        ensure!(b.len() == want.len() as u64 + gap, K9, "length {} of a body of {} bytes", b.len(), want.len() as u64 + gap);
        check_image(K9, small.0, small.1)?;
        let mut rd = match b.reader() { body_image::BodyReader::FileSlice(rs) => rs, _ => bail!(K9, "large body was read in") };
        let mut ends = || -> std::io::Result<(Vec<u8>, Vec<u8>)> {
            let mut a = vec![0; want.len()];
            rd.read_exact(&mut a)?;
            rd.seek(SeekFrom::End(-3))?;
            let mut z = vec![];
            rd.read_to_end(&mut z)?;
            Ok((a, z))
        };
        match ends() {
            Ok((a, z)) => ensure!(&a == want && z == [0, 0, 0], K9, "large body begins {} and ends {}", hx(&a), hx(&z)),
            Err(e) => bail!(K9, "reading a large body: {}", e),
        }
        Ok(())
    };
    let mut rd = match f.reader() { Ok(r) => r, Err(e) => bail!(K9, "reader: {}", e) };
    match next(K9, &mut rd, tn)? { Some(g) => first.same(K9, &g)?, None => bail!(K9, "no record") }
    let pos = |o: u64, want: u64| -> Res { ensure!(o == want, K9, "offset is {}, the next record is at {}", o, want); Ok(()) };
    pos(rd.offset(), offs[1])?;
    match next(K9, &mut rd, tn)? { Some(g) => large(&g)?, None => bail!(K9, "large record not seen") }
    for (o, r) in &recs {
        pos(rd.offset(), *o)?;
        match next(K9, &mut rd, tn)? { Some(g) => r.same(K9, &g)?, None => bail!(K9, "record after a large one not seen") }
    }
    pos(rd.offset(), end)?;
    ensure!(next(K9, &mut rd, tn)?.is_none(), K9, "record beyond the last");
    let at: Vec<(u64, &Rec)> = recs.iter().map(|(o, r)| (*o, r)).chain(Some((0, &first))).collect();
    expect_at(K9, p, tn, &at)
}
