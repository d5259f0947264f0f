//! Helpers shared by the checks.

use std::fs::File;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::os::unix::io::AsRawFd;
use std::path::{Path, PathBuf};

use body_image::{BodyImage, BodyReader, BodySink, ExplodedImage, Tunables, Tuner};
use bytes::Bytes;

use crate::engine::{Res, scratch};
use crate::{bail, ensure};

/// Content in which every position is recognisable: no two windows of 3 or
/// more bytes of the stream repeat within 64 KiB.
pub fn pattern(start: usize, len: usize) -> Vec<u8> {
    match FILL.with(|f| f.get()) {
        0 => (start..start + len).map(pbyte).collect(),
        k => FILLS[k - 1].iter().copied().cycle().skip(start % FILLS[k - 1].len()).take(len).collect(),
    }
}

/// Contents other than that: all the same, or looking like lines or framing
pub const FILLS: [&[u8]; 5] = [b"\0", b"\r\n", b"\xff", b"0\r\n\r\n", b"BARC2 "];
thread_local! { static FILL: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }

/// Have `pattern` give one of `FILLS` (from 1), or as usual (0)
pub fn with_fill<T>(k: usize, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset { fn drop(&mut self) { FILL.with(|f| f.set(0)); } }
    let _r = Reset;
    FILL.with(|f| f.set(k));
    f()
}

fn pbyte(i: usize) -> u8 {
    let k = i / 3;
    match i % 3 {
        0 => (k & 0xff) as u8 ^ 0x55,
        1 => ((k >> 8) & 0xff) as u8 ^ 0xa7,
        _ => (k as u8).wrapping_mul(167).wrapping_add(13),
    }
}

pub fn hx(b: &[u8]) -> String {
    let n = b.len().min(40);
    let mut s = String::new();
    for x in &b[..n] { s.push_str(&format!("{:02x}", x)); }
    if b.len() > n { s.push_str(&format!("..({} bytes)", b.len())); }
    s
}

pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b.iter()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("lengths {} vs {}, first difference at {}", a.len(), b.len(), i)
}

pub fn dir(name: &str) -> PathBuf {
    let p = scratch().join(name);
    std::fs::create_dir_all(&p).expect("mkdir scratch");
    p
}

pub fn scratch_file(name: &str, data: &[u8]) -> PathBuf {
    let p = scratch().join(name);
    std::fs::write(&p, data).expect("write scratch");
    p
}

pub fn tune(max_ram: u64, max: u64, bram: usize, bfs: usize, tmp: &Path) -> Tunables {
    let mut t = Tuner::new();
    t.set_max_body(max).set_max_body_ram(max_ram).set_buffer_size_ram(bram)
        .set_buffer_size_fs(bfs).set_temp_dir(tmp);
    t.finish()
}

/// A source delivering `data` in scripted portions
pub struct Source<'a> { pub data: &'a [u8], pub pos: usize }

/// Writer accepting at most `max` bytes per call, interrupted every other call
pub struct ShortWriter { pub out: Vec<u8>, pub max: usize, pub intr: bool, pub n: usize }
impl ShortWriter {
    pub fn new(max: usize, intr: bool) -> Self { ShortWriter { out: vec![], max, intr, n: 0 } }
}
impl Write for ShortWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.n += 1;
        if self.intr && self.n % 2 == 1 { return Err(io::ErrorKind::Interrupted.into()); }
        let k = b.len().min(self.max);
        self.out.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// Read all using buffers of `chunk` bytes, checking that end-of-file stays
pub fn read_chunks<R: Read + ?Sized>(r: &mut R, chunk: usize, limit: usize) -> io::Result<Vec<u8>> {
    let mut v = vec![];
    let mut buf = vec![0u8; chunk];
    loop {
        let n = match r.read(&mut buf) {
            Ok(n) => n,
            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
            Err(e) => return Err(e),
        };
        if n == 0 { break; }
        if n > chunk { return Err(io::Error::new(io::ErrorKind::Other, "read returned more than the buffer size")); }
        v.extend_from_slice(&buf[..n]);
        if v.len() > limit + 100_000 { return Err(io::Error::new(io::ErrorKind::Other, "endless read")); }
    }
    let n = r.read(&mut buf)?;
    v.extend_from_slice(&buf[..n]);
    Ok(v)
}

/// Content of a body by its reader (large chunks)
pub fn body_bytes(b: &BodyImage) -> io::Result<Vec<u8>> {
    let mut v = vec![];
    b.reader().read_to_end(&mut v)?;
    Ok(v)
}

pub fn chunk_for(n: usize) -> usize { if n <= 64 { 1 } else { n / 7 + 1 } }

pub fn exploded_bytes(e: ExplodedImage) -> io::Result<(Vec<u8>, char)> {
    Ok(match e {
        ExplodedImage::Ram(v) => {
            let mut o = vec![];
            for b in &v { o.extend_from_slice(b); }
            (o, 'R')
        }
        ExplodedImage::FsRead(mut s) => {
            let mut o = vec![];
            s.read_to_end(&mut o)?;
            (o, 'F')
        }
        #[cfg(not(feature = "lean"))]
        ExplodedImage::MemMap(m) => (m.to_vec(), 'M'),
    })
}

/// Compare a body with the expected content, through every way of reading it.
pub fn check_image(key: &str, b: &BodyImage, want: &[u8]) -> Res {
    let io = |w: &str, e: io::Error| -> crate::engine::Viol {
        crate::engine::Viol { key: key.into(), msg: format!("{} failed: {}", w, e) }
    };
    ensure!(b.len() == want.len() as u64, key, "len() is {}, expected {}", b.len(), want.len());
    ensure!(b.is_empty() == want.is_empty(), key, "is_empty() is {} with length {}", b.is_empty(), want.len());
    let got = body_bytes(b).map_err(|e| io("reader", e))?;
    ensure!(got == want, key, "reader: {}: got {} expected {}", first_diff(&got, want), hx(&got), hx(want));
    let got = read_chunks(&mut b.reader(), chunk_for(want.len()), want.len()).map_err(|e| io("chunked reader", e))?;
    ensure!(got == want, key, "chunked reader: {}: got {} expected {}", first_diff(&got, want), hx(&got), hx(want));
    match b.reader() {
        BodyReader::Contiguous(c) => {
            let s = c.into_inner();
            ensure!(s == want, key, "contiguous slice: {}", first_diff(s, want));
        }
        BodyReader::Scattered(_) => {}
        BodyReader::FileSlice(mut rs) => {
            ensure!(rs.len() == want.len() as u64, key, "file slice len {} expected {}", rs.len(), want.len());
            if !want.is_empty() {
                let mid = want.len() / 2;
                rs.seek(SeekFrom::Start(mid as u64)).map_err(|e| io("seek", e))?;
                let mut v = vec![];
                rs.read_to_end(&mut v).map_err(|e| io("read after seek", e))?;
                ensure!(v == want[mid..], key, "after seek to {}: got {} expected {}", mid, hx(&v), hx(&want[mid..]));
                rs.seek(SeekFrom::End(-1)).map_err(|e| io("seek", e))?;
                let mut v = vec![];
                rs.read_to_end(&mut v).map_err(|e| io("read after seek", e))?;
                ensure!(v == want[want.len() - 1..], key, "after seek to end-1: got {}", hx(&v));
            }
        }
    }
    for (max, intr) in [(usize::MAX, false), (chunk_for(want.len()) + 1, true)] {
        let mut w = ShortWriter::new(max, intr);
        let n = match b.write_to(&mut w) {
            Ok(n) => n,
            Err(e) => bail!(key, "write_to failed: {}", e),
        };
        ensure!(n == want.len() as u64, key, "write_to returned {} expected {}", n, want.len());
        ensure!(w.out == want, key, "write_to: {}: got {} expected {}", first_diff(&w.out, want), hx(&w.out), hx(want));
    }
    let (got, st) = exploded_bytes(b.clone().explode()).map_err(|e| io("exploded", e))?;
    ensure!(got == want, key, "exploded: {}: got {} expected {}", first_diff(&got, want), hx(&got), hx(want));
    ensure!(b.is_ram() == (st == 'R'), key, "is_ram() is {} in state {}", b.is_ram(), st);
    ensure!(is_mapped(b) == (st == 'M'), key, "is_mem_map() is {} in state {}", is_mapped(b), st);
    Ok(())
}

// Built without the mmap feature ("lean"), there are no maps
#[cfg(not(feature = "lean"))]
fn is_mapped(b: &BodyImage) -> bool { b.is_mem_map() }
#[cfg(feature = "lean")]
fn is_mapped(_: &BodyImage) -> bool { false }
#[cfg(not(feature = "lean"))]
fn map(b: &mut BodyImage) -> Result<(), String> { b.mem_map().map(|_| ()).map_err(|e| e.to_string()) }
#[cfg(feature = "lean")]
fn map(_: &mut BodyImage) -> Result<(), String> { Err("not to be mapped".into()) }

pub fn state_of(b: &BodyImage) -> char {
    if b.is_ram() { 'R' } else if is_mapped(b) { 'M' } else { 'F' }
}

/// How a body with given content is made, for checks over "every state"
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Make { Ram1, RamScattered, File, Mapped, Slice, SliceMapped }

pub const MAKES: [Make; 6] = [Make::Ram1, Make::RamScattered, Make::File, Make::Mapped, Make::Slice, Make::SliceMapped];

/// Make a body with `data`, in the given state. Not armed: these use the
/// code under test, but failures of that are the subject of other checks.
pub fn make_body(m: Make, data: &[u8]) -> Result<BodyImage, String> {
    let d = dir("mk");
    let e = |x: &dyn std::fmt::Display| x.to_string();
    Ok(match m {
        Make::Ram1 => BodyImage::from_slice(data.to_vec()),
        Make::RamScattered => {
            let mut s = BodySink::with_ram_buffers(3);
            let third = data.len() / 3 + 1;
            for c in data.chunks(third) { s.push(Bytes::copy_from_slice(c)).map_err(|x| e(&x))?; }
            s.prepare().map_err(|x| e(&x))?
        }
        Make::File | Make::Mapped => {
            let mut s = BodySink::with_fs(&d).map_err(|x| e(&x))?;
            s.write_all(data).map_err(|x| e(&x))?;
            let mut b = s.prepare().map_err(|x| e(&x))?;
            if m == Make::Mapped { map(&mut b)?; }
            b
        }
        Make::Slice | Make::SliceMapped => {
            let mut f = tmpfile();
            f.write_all(b"before..").map_err(|x| e(&x))?;
            f.write_all(data).map_err(|x| e(&x))?;
            f.write_all(b"..after").map_err(|x| e(&x))?;
            let rs = olio::fs::rc::ReadSlice::new(std::sync::Arc::new(f), 8, 8 + data.len() as u64);
            #[allow(unused_unsafe)]
            let mut b = unsafe { BodyImage::from_read_slice(rs) };
            if m == Make::SliceMapped { map(&mut b)?; }
            b
        }
    })
}

/// A harness-made anonymous file
pub fn tmpfile() -> File {
    use std::os::unix::fs::OpenOptionsExt;
    std::fs::OpenOptions::new().read(true).write(true).custom_flags(libc::O_TMPFILE)
        .mode(0o600).open(scratch()).expect("tmpfile")
}

pub fn file_with(data: &[u8]) -> File {
    let mut f = tmpfile();
    f.write_all(data).expect("write");
    f
}

pub fn fd_of(f: &File) -> i32 { f.as_raw_fd() }
