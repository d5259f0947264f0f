//! C15: damaged archives produce errors or records, never a panic, hang or over-read.

use barc::{BarcFile, Record};
use body_image::Tunables;

use crate::arc::*;
use crate::engine::*;
use crate::util::*;
use crate::{bail, ensure, tr};

use super::c02::Cache;
use super::c03::{strategy, Alg};

pub struct C15;
const K: &str = "damage";

#[derive(Clone, Debug)]
enum F {
    /// cut at every length
    Cut { base: usize, ram: u64 },
    /// one byte changed: everywhere, in this slice of the file
    Byte { base: usize, ram: u64, part: usize },
    /// two head bytes changed
    Two { base: usize, ram: u64, first: usize },
    /// head with chosen length fields over a payload
    Head { alg: u8, ram: u64, typ: u8 },
    /// sequences of pieces
    Pieces { ram: u64, first: usize },
    /// blocks with many headers
    Headers,
    /// header blocks with odd content
    Blocks { alg: Alg },
    /// compressed payload not fitting the head
    Lengths { alg: Alg, ram: u64 },
    /// file shortened after it was opened
    Shrink { ram: u64 },
}

const PARTS: usize = 8;

fn cfgs(t: Tier) -> Vec<F> {
    let mut v = vec![];
    for base in 0..BASES {
        for ram in [0u64, 1000] {
            v.push(F::Cut { base, ram });
            for part in 0..PARTS { v.push(F::Byte { base, ram, part }); }
            if t == Tier::Thorough || base < 2 {
                for first in 6..50 { v.push(F::Two { base, ram, first }); }
            }
        }
    }
    for alg in [b'P', b'Z', b'B', b'X'] {
        for ram in [0u64, 3, 1000] {
            for typ in [b'D', b'R', b'?'] { v.push(F::Head { alg, ram, typ }); }
        }
    }
    for ram in [0u64, 1000] {
        for first in 0..pieces().len() { v.push(F::Pieces { ram, first }); }
        for alg in [Alg::Gzip, Alg::Brotli] { v.push(F::Lengths { alg, ram }); }
        v.push(F::Shrink { ram });
    }
    for alg in [Alg::Plain, Alg::Gzip, Alg::Brotli] { v.push(F::Blocks { alg }); }
    v.push(F::Headers);
    v
}
static CACHE: Cache<F> = Cache::new();

const BASES: usize = 4;

/// Archives to be damaged: bytes and records with offsets
fn base(i: usize) -> Res<(Vec<u8>, Vec<(u64, Rec)>)> {
    static C: std::sync::OnceLock<Vec<(Vec<u8>, Vec<(u64, Rec)>)>> = std::sync::OnceLock::new();
    if let Some(c) = C.get() { return Ok(c[i].clone()); }
    let mut all = vec![];
    let kinds: [&[(Alg, usize, usize)]; BASES] = [
        &[(Alg::Plain, 4, 6)],
        &[(Alg::Gzip, 4, 6), (Alg::Plain, 0, 5)],
        &[(Alg::Brotli, 4, 6), (Alg::Plain, 3, 0)],
        &[(Alg::Plain, 0, 0), (Alg::Gzip, 5, 0), (Alg::Plain, 9, 9)],
    ];
    for ks in kinds {
        let p = fresh("c15base.barc");
        let mut recs = vec![];
        for (n, k) in ks.iter().enumerate() {
            let r = Rec::numbered(n, k.1, k.2);
            match write_one(&p, &r.ram(), &*strategy(k.0, 0)) { Ok(o) => recs.push((o, r)), Err(e) => bail!(K, "{}", e) }
        }
        all.push((std::fs::read(&p).unwrap_or_default(), recs));
    }
    C.set(all).ok();
    base(i)
}

fn pieces() -> Vec<Vec<u8>> {
    let plain = head(b'D', b'P', 7, 0, 0, 0, 0);
    let mut p1 = plain.clone(); p1.extend_from_slice(b"hello\r\n");
    let mut p2 = head(b'D', b'P', 11, 6, 0, 0, 0); p2.extend_from_slice(b"a:b\r\n\r\nxy\r\n"); p2.truncate(54 + 11);
    vec![
        p1, plain[..30].to_vec(), head(b'D', b'P', 0, 0, 0, 0, 0), head(b'R', b'P', 0, 0, 0, 0, 0),
        b"BARC2 ".to_vec(), b"\r\n".to_vec(), vec![0; 60], p2, head(b'D', b'Z', 0, 0, 0, 0, 0), b"\x1f\x8b\x08".to_vec(),
        vec![0; 20], vec![b' '; 53], b"\n".to_vec(),
    ]
}

fn head(typ: u8, alg: u8, len: u64, meta: u64, req_h: u64, req_b: u64, res_h: u64) -> Vec<u8> {
    format!("BARC2 {:012x} {}{} {:05x} {:05x} {:010x} {:05x}\r\n\r\n", len, typ as char, alg as char, meta, req_h, req_b, res_h).into_bytes()
}

fn hex(b: &[u8]) -> Option<u64> {
    let mut v = 0u64;
    for c in b {
        v = v << 4 | match c { b'0'..=b'9' => c - b'0', b'a'..=b'f' => c - b'a' + 10, _ => return None } as u64;
    }
    Some(v)
}

/// What a plain record's fields must be, by the head in the file
fn plausible(file: &[u8], start: usize, end: usize, r: &Record) -> Res {
    let h = match file.get(start..start + 54) { Some(h) => h, None => bail!(K, "record at {} from an incomplete head", start) };
    let (len, meta, rq, rb, rs) = match (hex(&h[6..18]), hex(&h[22..27]), hex(&h[28..33]), hex(&h[34..44]), hex(&h[45..50])) {
        (Some(a), Some(b), Some(c), Some(d), Some(e)) => (a as usize, b as usize, c as usize, d as usize, e as usize),
        _ => bail!(K, "record at {} with invalid head", start),
    };
    ensure!(end == start + 54 + len, K, "record at {} of length {}: offset after it is {}", start, len, end);
    // a compressed payload may be complete before that
    ensure!(end <= file.len() || h[20] != b'P', K, "record at {} to {} is beyond the end of file at {}", start, end, file.len());
    ensure!(h[19] == b'D', K, "record returned for type {:?}", h[19] as char);
    for (what, b) in [("request", &r.req_body), ("response", &r.res_body)] {
        match body_bytes(b) {
            Ok(d) => ensure!(d.len() as u64 == b.len(), K, "{} body has length {} but gives {} bytes", what, b.len(), d.len()),
            Err(e) => bail!(K, "{} body of a returned record can not be read: {}", what, e),
        }
    }
    if h[20] == b'P' {
        let q0 = start + 54 + meta + rq;
        let s0 = q0 + rb + rs;
        ensure!(s0 <= end, K, "record fields exceed the record length");
        check_image(K, &r.req_body, &file[q0..q0 + rb.saturating_sub(2)])?;
        check_image(K, &r.res_body, &file[s0..s0 + (end - s0).saturating_sub(2)])?;
    } else {
        ensure!(r.req_body.len() == rb as u64, K, "request body has {} bytes, by the head {}", r.req_body.len(), rb);
    }
    for b in [&r.req_body, &r.res_body] {
        let mut b = b.clone();
        let d = body_bytes(&b).unwrap_or_default();
        if let Err(e) = b.mem_map() { bail!(K, "mem_map: {}", e) }
        check_image(K, &b, &d)?;
    }
    Ok(())
}

/// Read a file as an archive to its end. `good`: leading records not affected by damage.
fn read_all(file: &[u8], good: &[(u64, Rec)], tn: &Tunables) -> Res {
    let p = scratch_file("c15.barc", file);
    let f = BarcFile::new(&p);
    let mut rd = match f.reader() { Ok(r) => r, Err(e) => bail!(K, "reader: {}", e) };
    let mut n = 0;
    let mut errs = 0;
    loop {
        let o = rd.offset();
        match rd.read(tn) {
            Ok(Some(r)) => {
                let e = rd.offset();
                tr!("record at {} to {}", o, e);
                ensure!(e >= o + 54, K, "no progress: record at {}, then offset {}", o, e);
                plausible(file, o as usize, e as usize, &r)?;
                if let Some((_, w)) = good.get(n) { w.same_quick(K, &r)?; }
                observe((1, e));
                n += 1;
            }
            Ok(None) => {
                tr!("end at {}", o);
                ensure!(rd.offset() == o, K, "offset moved at end of file");
                // only at the real end, or at a reserved record
                let reserved = file.get(o as usize + 19) == Some(&b'R');
                ensure!(o as usize >= file.len() || reserved, K, "end of file reported at {} of {}", o, file.len());
                break;
            }
            Err(e) => {
                tr!("error at {}: {}", o, e);
                ensure!(rd.offset() == o, K, "after an error with the record at {} the offset is {} ({})", o, rd.offset(), e);
                observe((2, std::mem::discriminant(&e)));
                errs += 1;
                if errs > 1 { break; }
            }
        }
        if n > file.len() / 54 + 1 { bail!(K, "more records than fit the file"); }
    }
    ensure!(n >= good.len(), K, "only {} of {} records before the damage were read", n, good.len());
    Ok(())
}

fn t(ram: u64) -> Tunables { tune(ram, 100_000, 64, 64, &dir("t")) }

impl Check for C15 {
    fn id(&self) -> &'static str { "C15" }
    fn level(&self) -> &'static str { "fault_enumeration" }
    fn rule(&self, t: Tier) -> String {
        format!("{} families of damaged files: valid archives cut at every length, with every byte replaced (all 256 values in heads), with every pair of head digits replaced, heads with all combinations of boundary lengths over payloads, all sequences of up to 4 pieces, header blocks with odd content or many headers, compressed payloads not matching the head, files cut while open; each read to its end with bodies compared to the file's bytes", cfgs(t).len())
    }
    fn configs(&self, t: Tier) -> usize { CACHE.get(t, cfgs).len() }
    fn describe(&self, t: Tier, c: usize) -> String { format!("{:?}", CACHE.get(t, cfgs)[c]) }
    fn run(&self, tier: Tier, c: usize) -> Res {
        match CACHE.get(tier, cfgs)[c].clone() {
            F::Cut { base: b, ram } => {
                let (mut file, recs) = base(b)?;
                let n = choose(file.len() + 1);
                file.truncate(n);
                tr!("cut at {}", n);
                let ends: Vec<u64> = recs.iter().skip(1).map(|r| r.0).chain(None).collect();
                let k = ends.iter().filter(|e| **e as usize <= n).count();
                read_all(&file, &recs[..k], &t(ram))
            }
            F::Byte { base: b, ram, part } => {
                let (mut file, recs) = base(b)?;
                let (lo, hi) = (file.len() * part / PARTS, file.len() * (part + 1) / PARTS);
                let i = lo + choose(hi - lo);
                let in_head = recs.iter().any(|r| (r.0 as usize..r.0 as usize + 54).contains(&i));
                let x = file[i];
                let nv = if in_head { choose(256) as u8 } else { *pick(&[0, 0xff, x ^ 1, x ^ 0x80, x.wrapping_add(1), b'\r', b'\n', b':', b' ', b'0', b'f', b'R']) };
                file[i] = nv;
                tr!("byte {} is {:?}", i, nv as char);
                let k = recs.iter().take_while(|r| r.0 as usize <= i).count();
                read_all(&file, &recs[..k.saturating_sub(1)], &t(ram))
            }
            F::Two { base: b, ram, first } => {
                let (mut file, _) = base(b)?;
                const D: [u8; 5] = [b'0', b'1', b'4', b'f', b'R'];
                file[first] = *pick(&D);
                let second = first + 1 + choose(50 - first);
                file[second] = *pick(&D);
                tr!("bytes {} {}", first, second);
                read_all(&file, &[], &t(ram))
            }
            F::Head { alg, ram, typ } => {
                let payload: &[u8] = b"a: b\r\n\r\nbodybody\r\nc: d\r\n\r\nrest\r\n";
                const H: [u64; 7] = [0, 1, 2, 3, 8, 9, 0xfffff];
                let meta = *pick(&H);
                let req_h = *pick(&[0u64, 1, 2, 8]);
                let req_b = *pick(&[0u64, 1, 2, 3, 10, 40, 0xff_ffff_ffff]);
                let res_h = *pick(&[0u64, 2, 8]);
                let sum = meta + req_h + req_b + res_h;
                let len = *pick(&[0u64, 1, sum.saturating_sub(1), sum, sum + 1, sum + 2, sum + 3, payload.len() as u64, 0xffff_ffff_ffff]);
                let len = len.min(0xffff_ffff_ffff);
                let mut file = head(typ, alg, len, meta, req_h, req_b, res_h);
                file.extend_from_slice(payload);
                tr!("len {} meta {} req_h {} req_b {} res_h {}", len, meta, req_h, req_b, res_h);
                read_all(&file, &[], &t(ram))
            }
            F::Pieces { ram, first } => {
                let ps = pieces();
                let mut file = ps[first].clone();
                for _ in 0..3 {
                    let c = choose(ps.len() + 1);
                    if c == 0 { break; }
                    file.extend_from_slice(&ps[c - 1]);
                }
                read_all(&file, &[], &t(ram))
            }
            F::Headers => {
                let n = *pick(&[1usize, 128, 129, 5000, 24575, 24576, 24577, 30000, 40000]);
                let same = flip();
                let mut block = vec![];
                for i in 0..n {
                    if same { block.extend_from_slice(b"a:\r\n"); } else { block.extend_from_slice(format!("h{}:\r\n", i).as_bytes()); }
                }
                block.extend_from_slice(b"\r\n");
                let w = choose(3);
                let l = block.len() as u64;
                let mut file = match w { 0 => head(b'D', b'P', l, l, 0, 0, 0), 1 => head(b'D', b'P', l, 0, l, 0, 0), _ => head(b'D', b'P', l, 0, 0, 0, l) };
                file.extend_from_slice(&block);
                tr!("{} headers, same {}", n, same);
                observe((n, same, w));
                read_all(&file, &[], &t(100))
            }
            F::Blocks { alg } => {
                // a header block made of tokens
                const T: [&[u8]; 9] = [b"\r\n", b"a: b\r\n", b"a", b":", b" ", b"\n", b"\r", b"\0", b"\xff: x\r\n"];
                let mut block = vec![];
                for _ in 0..tier.pick(4, 5) {
                    let c = choose(T.len() + 1);
                    if c == 0 { break; }
                    block.extend_from_slice(T[c - 1]);
                }
                let l = block.len() as u64;
                let (payload, flag) = match alg {
                    Alg::Plain => (block.clone(), b'P'),
                    Alg::Gzip => (gz(&block), b'Z'),
                    Alg::Brotli => (br(&block), b'B'),
                };
                let mut file = head(b'D', flag, payload.len() as u64, l, 0, 0, 0);
                file.extend_from_slice(&payload);
                tr!("block {}", hx(&block));
                read_all(&file, &[], &t(100))
            }
            F::Lengths { alg, ram } => {
                let inner = b"m: 1\r\nq: 2\r\nreqbodys: 3\r\nresponse";
                let payload = if alg == Alg::Gzip { gz(inner) } else { br(inner) };
                let meta = *pick(&[0u64, 1, 2, 5, 6, 7, 12, 40]);
                let rq = *pick(&[0u64, 6, 7]);
                let rb = *pick(&[0u64, 1, 7, 8, 22, 23, 100, 70_000]);
                let rs = *pick(&[0u64, 6, 7]);
                let d = *pick(&[0i64, -1, 1, 54]);
                let len = (payload.len() as i64 + d) as u64;
                let mut file = head(b'D', if alg == Alg::Gzip { b'Z' } else { b'B' }, len, meta, rq, rb, rs);
                file.extend_from_slice(&payload);
                if flip() { file.extend_from_slice(&head(b'D', b'P', 0, 0, 0, 0, 0)); }
                tr!("meta {} rq {} rb {} rs {} len {:+}", meta, rq, rb, rs, d);
                read_all(&file, &[], &t(ram))
            }
            F::Shrink { ram } => {
                let (file, recs) = base(3)?;
                let p = scratch_file("c15s.barc", &file);
                let f = BarcFile::new(&p);
                let mut rd = match f.reader() { Ok(r) => r, Err(e) => bail!(K, "reader: {}", e) };
                let tn = t(ram);
                let skip = choose(recs.len());
                for _ in 0..skip { next(K, &mut rd, &tn)?; }
                let n = choose(file.len() + 1);
                std::fs::OpenOptions::new().write(true).open(&p).and_then(|f| f.set_len(n as u64)).expect("shrink");
                let o = rd.offset();
                observe((skip, n));
                match rd.read(&tn) {
                    Ok(Some(r)) => plausible(&file[..n], o as usize, rd.offset() as usize, &r),
                    Ok(None) => { ensure!(o as usize >= n, K, "end of file reported at {} of {}", o, n); Ok(()) }
                    Err(_) => { ensure!(rd.offset() == o, K, "offset after error"); Ok(()) }
                }
            }
        }
    }
}

fn gz(d: &[u8]) -> Vec<u8> { super::c03::compress(body_image::Encoding::Gzip, d) }
fn br(d: &[u8]) -> Vec<u8> { super::c03::compress(body_image::Encoding::Brotli, d) }
