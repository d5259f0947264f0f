//! Helpers for the archive checks: model records and their comparison.

use std::path::{Path, PathBuf};

use barc::{BarcFile, BarcReader, CompressStrategy, MetaRecorded, Record, RecordType};
use body_image::{Recorded, RequestRecorded, Tunables};
use http::header::{HeaderMap, HeaderName, HeaderValue};

use crate::engine::{scratch, Res, Viol};
use crate::util::*;
use crate::ensure;

pub type Hdrs = Vec<(String, Vec<u8>)>;

/// What a record is supposed to hold
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Rec { pub meta: Hdrs, pub req_h: Hdrs, pub req_b: Vec<u8>, pub res_h: Hdrs, pub res_b: Vec<u8> }

pub fn hmap(h: &Hdrs) -> Result<HeaderMap, String> {
    let mut m = HeaderMap::new();
    for (n, v) in h {
        m.append(HeaderName::from_bytes(n.as_bytes()).map_err(|e| format!("{}: {:?}", e, n))?,
                 HeaderValue::from_bytes(v).map_err(|e| e.to_string())?);
    }
    Ok(m)
}

fn trim(v: &[u8]) -> &[u8] {
    let ws = |b: &u8| *b == b' ' || *b == b'\t';
    let a = v.iter().position(|b| !ws(b)).unwrap_or(v.len());
    let z = v.iter().rposition(|b| !ws(b)).map(|i| i + 1).unwrap_or(a);
    &v[a..z]
}

/// Compare header maps: the same names, each with the same values in the same order
pub fn same_headers(key: &str, what: &str, got: &HeaderMap, want: &Hdrs) -> Res {
    ensure!(got.len() == want.len(), key, "{}: {} headers, expected {}", what, got.len(), want.len());
    let mut by: std::collections::BTreeMap<String, Vec<&[u8]>> = Default::default();
    for (n, v) in want { by.entry(n.to_ascii_lowercase()).or_default().push(trim(v)); }
    ensure!(by.len() == got.keys_len(), key, "{}: {} header names, expected {}", what, got.keys_len(), by.len());
    for (n, vs) in &by {
        let g: Vec<&[u8]> = got.get_all(n.as_str()).iter().map(|v| trim(v.as_bytes())).collect();
        ensure!(&g == vs, key, "{}: header {:?} has {} values, the first being {:?}, expected {} and {:?}", what, n, g.len(),
            g.first().map(|x| hx(x)), vs.len(), vs.first().map(|x| hx(x)));
    }
    Ok(())
}

pub const NONE: usize = usize::MAX;

impl Rec {
    /// A small record recognisable by its number
    /// With `NONE` for a length, the record has nothing in it at all
    pub fn numbered(i: usize, req: usize, res: usize) -> Rec {
        if req == NONE || res == NONE { return Rec::default(); }
        Rec {
            meta: vec![("url".into(), format!("http://h/{}", i).into_bytes())],
            req_h: vec![("x-req".into(), format!("q{}", i).into_bytes())],
            req_b: pattern(1000 * i + 11, req),
            res_h: vec![("content-type".into(), b"text/plain".to_vec()), ("x-res".into(), format!("s{}", i).into_bytes())],
            res_b: pattern(1000 * i + 511, res),
        }
    }
    pub fn record(&self, mq: Make, ms: Make) -> Result<Record, String> {
        Ok(Record { rec_type: RecordType::Dialog, meta: hmap(&self.meta)?, req_headers: hmap(&self.req_h)?,
                    req_body: make_body(mq, &self.req_b)?, res_headers: hmap(&self.res_h)?, res_body: make_body(ms, &self.res_b)? })
    }
    pub fn ram(&self) -> Record { self.record(Make::Ram1, Make::Ram1).expect("model record") }

    pub fn same(&self, key: &str, r: &Record) -> Res {
        ensure!(r.rec_type() == RecordType::Dialog, key, "record type {:?}", r.rec_type());
        same_headers(key, "meta", r.meta(), &self.meta)?;
        same_headers(key, "request headers", r.req_headers(), &self.req_h)?;
        same_headers(key, "response headers", r.res_headers(), &self.res_h)?;
        let w = |n: &str, v: Viol| Viol { key: v.key, msg: format!("{}: {}", n, v.msg) };
        check_image(key, r.req_body(), &self.req_b).map_err(|v| w("request body", v))?;
        check_image(key, r.res_body(), &self.res_b).map_err(|v| w("response body", v))
    }
    /// Cheaper comparison: bodies by one reading
    pub fn same_quick(&self, key: &str, r: &Record) -> Res {
        ensure!(r.rec_type() == RecordType::Dialog, key, "record type {:?}", r.rec_type());
        same_headers(key, "meta", r.meta(), &self.meta)?;
        same_headers(key, "request headers", r.req_headers(), &self.req_h)?;
        same_headers(key, "response headers", r.res_headers(), &self.res_h)?;
        for (n, b, want) in [("request body", r.req_body(), &self.req_b), ("response body", r.res_body(), &self.res_b)] {
            ensure!(b.len() == want.len() as u64, key, "{} length {} expected {}", n, b.len(), want.len());
            match body_bytes(b) {
                Ok(g) => ensure!(&g == want, key, "{}: {}", n, first_diff(&g, want)),
                Err(e) => return Err(Viol { key: key.into(), msg: format!("{}: {}", n, e) }),
            }
        }
        Ok(())
    }
}

/// A fresh path for an archive
pub fn fresh(name: &str) -> PathBuf {
    let p = scratch().join(name);
    std::fs::remove_file(&p).ok();
    p
}

pub fn write_one(p: &Path, r: &Record, s: &dyn CompressStrategy) -> Result<u64, String> {
    let f = BarcFile::new(p);
    let mut w = f.writer().map_err(|e| format!("writer: {}", e))?;
    w.write(r, s).map_err(|e| format!("write: {}", e))
}

/// Archive must hold exactly these records, in order then end of file (twice)
pub fn expect_all(key: &str, p: &Path, tn: &Tunables, want: &[(u64, &Rec)]) -> Res {
    let f = BarcFile::new(p);
    let mut r = match f.reader() {
        Ok(r) => r,
        Err(e) => return Err(Viol { key: key.into(), msg: format!("reader: {}", e) }),
    };
    for (i, (off, w)) in want.iter().enumerate() {
        ensure!(r.offset() == *off, key, "offset {} before record {}, expected {}", r.offset(), i, off);
        let rec = next(key, &mut r, tn)?;
        match rec {
            Some(rec) => w.same_quick(key, &rec).map_err(|v| Viol { key: v.key, msg: format!("record {}: {}", i, v.msg) })?,
            None => return Err(Viol { key: key.into(), msg: format!("end of file at {} before record {} of {}", r.offset(), i, want.len()) }),
        }
    }
    for _ in 0..2 {
        let o = r.offset();
        ensure!(next(key, &mut r, tn)?.is_none(), key, "record after the last, at {}", o);
        ensure!(r.offset() == o, key, "offset moved from {} to {} at end of file", o, r.offset());
    }
    Ok(())
}

/// Each record must be found at its offset, by random access
pub fn expect_at(key: &str, p: &Path, tn: &Tunables, want: &[(u64, &Rec)]) -> Res {
    let f = BarcFile::new(p);
    let mut r = match f.reader() {
        Ok(r) => r,
        Err(e) => return Err(Viol { key: key.into(), msg: format!("reader: {}", e) }),
    };
    for (i, (off, w)) in want.iter().enumerate().rev() {
        if let Err(e) = r.seek(*off) { return Err(Viol { key: key.into(), msg: format!("seek: {}", e) }); }
        match next(key, &mut r, tn)? {
            Some(rec) => w.same_quick(key, &rec).map_err(|v| Viol { key: v.key, msg: format!("record {} at {}: {}", i, off, v.msg) })?,
            None => return Err(Viol { key: key.into(), msg: format!("no record at {}", off) }),
        }
    }
    Ok(())
}

pub fn next(key: &str, r: &mut BarcReader, tn: &Tunables) -> Result<Option<Record>, Viol> {
    let o = r.offset();
    r.read(tn).map_err(|e| Viol { key: key.into(), msg: format!("read at {} failed: {}", o, e) })
}
