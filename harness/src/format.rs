//! The BARC version 2 format, encoded and decoded independently of the library.

use std::collections::BTreeMap;
use std::io::{Read, Write};

use crate::arc::{Hdrs, Rec};
use crate::util::*;

/// How others compress
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum By {
    Plain,
    /// level, optional parts of the gzip header, flushed at every n bytes
    Gzip(u32, bool, usize),
    /// quality, window
    Brotli(u32, u32),
}

// ---- the format, as encoded by others

pub fn lines(h: &Hdrs) -> Vec<u8> {
    h.iter().flat_map(|(n, v)| [n.as_bytes(), b": ", v, b"\r\n"].concat()).collect()
}

pub fn head(len: u64, ty: u8, comp: u8, meta: usize, qh: usize, qb: u64, sh: usize) -> Vec<u8> {
    format!("BARC2 {:012x} {}{} {:05x} {:05x} {:010x} {:05x}\r\n\r\n", len, ty as char, comp as char, meta, qh, qb, sh).into_bytes()
}

pub fn encode(r: &Rec, by: By) -> Vec<u8> {
    let end = |mut b: Vec<u8>| { if by == By::Plain && !b.is_empty() { b.extend(b"\r\n"); } b };
    let parts = [end(lines(&r.meta)), end(lines(&r.req_h)), end(r.req_b.clone()), end(lines(&r.res_h)), end(r.res_b.clone())];
    let all = parts.concat();
    let (comp, stored) = match by {
        By::Plain => (b'P', all),
        By::Gzip(level, named, every) => {
            let mut b = flate2::GzBuilder::new();
            if named { b = b.filename("name.bin").comment("of others").extra(vec![1, 2, 3, 4]).mtime(1_500_000_000).operating_system(7); }
            let mut e = b.write(vec![], flate2::Compression::new(level));
            for c in all.chunks(if every == 0 { all.len().max(1) } else { every }) {
                e.write_all(c).expect("gzip");
                if every > 0 { e.flush().expect("gzip"); }
            }
            (b'Z', e.finish().expect("gzip"))
        }
        By::Brotli(q, w) => {
            let mut out = vec![];
            {
                let mut e = brotli::CompressorWriter::new(&mut out, 4096, q, w);
                e.write_all(&all).expect("brotli");
            }
            (b'B', out)
        }
    };
    [head(stored.len() as u64, b'D', comp, parts[0].len(), parts[1].len(), parts[2].len() as u64, parts[3].len()), stored].concat()
}

// ---- the format, as decoded by others

pub fn hex(b: &[u8]) -> Result<usize, String> {
    if b.iter().any(|c| !matches!(c, b'0'..=b'9' | b'a'..=b'f')) { return Err(format!("length {}", hx(b))); }
    usize::from_str_radix(std::str::from_utf8(b).expect("digits"), 16).map_err(|e| e.to_string())
}

pub fn headers(b: &[u8], crlf: bool) -> Result<Hdrs, String> {
    let mut v = vec![];
    if b.is_empty() { return Ok(v); }
    let b = if crlf { b.strip_suffix(b"\r\n").ok_or("no end of header block")? } else { b };
    let mut rest = b;
    while !rest.is_empty() {
        let e = rest.windows(2).position(|w| w == b"\r\n").ok_or_else(|| format!("no end of header line: {}", hx(rest)))?;
        let line = &rest[..e];
        let c = line.windows(2).position(|w| w == b": ").ok_or_else(|| format!("header line {}", hx(line)))?;
        v.push((String::from_utf8(line[..c].to_vec()).map_err(|e| e.to_string())?, line[c + 2..].to_vec()));
        rest = &rest[e + 2..];
    }
    if v.is_empty() { return Err("empty header block with a length".into()); }
    Ok(v)
}

/// Everything in an archive: offsets, compression and contents
pub fn decode(raw: &[u8]) -> Result<Vec<(u64, u8, Rec)>, String> {
    let mut v = vec![];
    let mut at = 0;
    while at < raw.len() {
        let r = &raw[at..];
        if r.len() < 54 { return Err(format!("{} bytes left at {}", r.len(), at)); }
        let fixed = &r[..6] == b"BARC2 " && [18, 21, 27, 33, 44].iter().all(|i| r[*i] == b' ') && &r[50..54] == b"\r\n\r\n";
        if !fixed { return Err(format!("head at {}: {}", at, hx(&r[..54]))); }
        if r[19] != b'D' { return Err(format!("type {:?} at {}", r[19] as char, at)); }
        let (len, meta, qh, qb, sh) = (hex(&r[6..18])?, hex(&r[22..27])?, hex(&r[28..33])?, hex(&r[34..44])?, hex(&r[45..50])?);
        if r.len() < 54 + len { return Err(format!("length {} at {}, with {} left", len, at, r.len() - 54)); }
        let mut stored = &r[54..54 + len];
        let mut all = vec![];
        match r[20] {
            b'P' => { all.extend(stored); stored = b""; }
            b'Z' => { flate2::bufread::GzDecoder::new(&mut stored).read_to_end(&mut all).map_err(|e| format!("gzip: {}", e))?; }
            b'B' => { brotli::Decompressor::new(&mut stored, 1).read_to_end(&mut all).map_err(|e| format!("brotli: {}", e))?; }
            f => return Err(format!("compression {:?} at {}", f as char, at)),
        }
        if !stored.is_empty() { return Err(format!("{} bytes after the compressed ones", stored.len())); }
        let crlf = r[20] == b'P';
        if all.len() < meta + qh + qb + sh { return Err(format!("lengths {} {} {} {} of {}", meta, qh, qb, sh, all.len())); }
        let body = |b: &[u8]| -> Result<Vec<u8>, String> {
            if b.is_empty() || !crlf { return Ok(b.to_vec()); }
            let b = b.strip_suffix(b"\r\n").ok_or("no end of body")?;
            if b.is_empty() { return Err("empty body with a length".into()); }
            Ok(b.to_vec())
        };
        let (a, b, c, d) = (meta, meta + qh, meta + qh + qb, meta + qh + qb + sh);
        v.push((at as u64, r[20], Rec {
            meta: headers(&all[..a], crlf)?, req_h: headers(&all[a..b], crlf)?, req_b: body(&all[b..c])?,
            res_h: headers(&all[c..d], crlf)?, res_b: body(&all[d..])? }));
        at += 54 + len;
    }
    Ok(v)
}

pub fn by_name(h: &Hdrs) -> BTreeMap<&str, Vec<&[u8]>> {
    let mut m: BTreeMap<&str, Vec<&[u8]>> = Default::default();
    for (n, v) in h { m.entry(n).or_default().push(v); }
    m
}

pub fn same(got: &Rec, want: &Rec) -> Result<(), String> {
    for (n, g, w) in [("meta", &got.meta, &want.meta), ("request headers", &got.req_h, &want.req_h), ("response headers", &got.res_h, &want.res_h)] {
        if by_name(g) != by_name(w) { return Err(format!("{}: {}", n, first_diff(&lines(g), &lines(w)))); }
    }
    for (n, g, w) in [("request body", &got.req_b, &want.req_b), ("response body", &got.res_b, &want.res_b)] {
        if g != w { return Err(format!("{}: {}", n, first_diff(g, w))); }
    }
    Ok(())
}
