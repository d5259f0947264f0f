//! C01: a body holds exactly the bytes appended, in every state.

use std::io::{Read, Seek, SeekFrom};
use std::sync::Arc;

use body_image::{BodyImage, BodyReader, BodySink, ExplodedImage};
use bytes::Bytes;
use olio::fs::rc::ReadSlice;

use crate::engine::*;
use crate::util::*;
use crate::{bail, ensure, tr};

pub struct C01;

#[derive(Clone, Copy, Debug)]
enum Start {
    Empty, WithRam(u64), WithBufs(usize), WithFs,
    // many buffers: count, length of each
    Many(usize, usize),
    ImgEmpty, FromSlice(usize),
    // file length, cursor, stated length
    FromFile(usize, u64, usize),
    // file length, start, end
    FromSliceOf(usize, u64, u64),
    // nested subslice
    Nested(usize, u64, u64, u64, u64),
    // slice of which some was read before: file length, start, end, read
    Advanced(usize, u64, u64, usize),
    // sparse file: start, length, as a slice
    Huge(u64, u64, bool),
    // grown beyond 4 GiB: which way
    Grown(usize),
    // with contents other than the usual: start, which
    Fill(&'static Start, usize),
}
use Start::*;

const K: &str = "content";

fn starts(t: Tier) -> Vec<(Start, &'static [usize], usize)> {
    const SMALL: &[usize] = &[0, 1, 5];
    const PAGE: &[usize] = &[1, 4096, 70_001];
    const BUF: &[usize] = &[8191, 2, 65_537];
    let d = t.pick(5, 7);
    let dp = t.pick(4, 5);
    let di = t.pick(5, 7);
    let mut v = vec![
        (Empty, SMALL, d), (WithFs, SMALL, d), (WithRam(1), SMALL, d - 1), (WithBufs(1), SMALL, d - 1),
        (WithRam(9000), PAGE, dp), (WithFs, PAGE, dp), (Empty, BUF, dp), (WithFs, BUF, dp - 1),
        (ImgEmpty, SMALL, di),
    ];
    for (n, l) in t.pick(vec![(17, 2), (40, 1), (12, 9000), (300, 3), (1030, 1)], vec![(9, 3), (16, 1), (17, 2), (33, 1), (40, 1), (12, 9000), (40, 9000), (129, 2), (257, 3), (300, 3), (1025, 1), (1030, 1), (3000, 2)]) {
        v.push((Many(n, l), SMALL, t.pick(3, 4)));
    }
    for n in [0, 1, 13, 4096, 10_000] { v.push((FromSlice(n), SMALL, di)); }
    for (fl, cur, n) in [(12, 0, 12), (12, 0, 5), (12, 7, 12), (12, 12, 1), (12, 0, 0), (0, 0, 0),
                         (9000, 0, 9000), (9000, 9000, 4096), (9000, 3, 4097)] {
        v.push((FromFile(fl, cur, n), SMALL, di));
    }
    for (fl, a, b) in [(12, 0, 12), (12, 3, 9), (12, 4, 4), (12, 11, 12), (12, 0, 0), (9000, 4095, 4097),
                       (9000, 4096, 8192), (9000, 5000, 9000), (9000, 1, 9000)] {
        v.push((FromSliceOf(fl, a, b), SMALL, di));
    }
    for (fl, a, b, c, d) in [(12, 2, 10, 1, 4), (12, 2, 10, 0, 8), (9000, 4000, 9000, 96, 4999), (12, 2, 10, 3, 3)] {
        v.push((Nested(fl, a, b, c, d), SMALL, di));
    }
    for (fl, a, b, n) in [(12, 0, 12, 1), (12, 3, 9, 2), (12, 3, 9, 6), (9000, 1, 9000, 5000)] {
        v.push((Advanced(fl, a, b, n), SMALL, di - 1));
    }
    for (a, l, slice) in [(0, (2 << 30) + 7, false), (0, (4 << 30) + 7, false), (9, (4 << 30) + 4096, true), ((4 << 30) + 4096, 5000, true), ((2 << 30) - 1, (2 << 30) + 2, true)] {
        v.push((Huge(a, l, slice), SMALL, t.pick(2, 3)));
    }
    for k in 0..GROW.len() { v.push((Grown(k), SMALL, 8)); }
    for k in 1..=FILLS.len() {
        for s in [&Empty, &WithFs, &FromSlice(20_000), &FromSliceOf(20_000, 9, 20_000), &FromFile(9000, 0, 8192)] { v.push((Fill(s, k), &[20, 4096], t.pick(3, 4))); }
    }
    v
}

const G: usize = 1 << 30;
/// Lengths of what is appended: zeros if 1 MiB or more, a pattern if less
pub const GROW: [&[usize]; 5] = [
    &[5, G, G, 3, G, G, 7, 4],
    &[G, G, G, G, 9, 9],
    &[G, G, G, G - 4, 4, 6],
    &[G, G, G, G - 5, 9, 1 << 20, 2],
    &[9, G, G, G, G, G, 1, 3],
];

/// What is appended at a position
pub fn grown_part(z: &'static [u8], at: u64, n: usize) -> Bytes {
    if n >= 1 << 20 { Bytes::from_static(&z[..n]) } else { Bytes::from((at..at + n as u64).map(huge_byte).collect::<Vec<u8>>()) }
}

/// A body of these parts, looked at around their ends
pub fn check_grown(k: &'static str, img: &BodyImage, parts: &[usize]) -> Res {
    let len: u64 = parts.iter().map(|n| *n as u64).sum();
    ensure!(img.len() == len, k, "length {} of {}", img.len(), len);
    // (position, bytes) of all patterns, and of zeros next to them
    let mut at = 0;
    let mut look: Vec<(u64, Vec<u8>)> = vec![];
    for n in parts {
        let p = at;
        at += *n as u64;
        if *n < 1 << 20 { look.push((p, (p..at).map(huge_byte).collect())); }
        else { look.push((p, vec![0; 5])); look.push((at - 5, vec![0; 5])); }
    }
    let of_slice = |mut rs: ReadSlice, w: &str| -> Res {
        ensure!(rs.len() == len, k, "{} of length {}, not {}", w, rs.len(), len);
        for (p, want) in &look {
            let mut b = vec![1; want.len()];
            let r = rs.seek(SeekFrom::Start(*p)).and_then(|_| rs.read_exact(&mut b));
            ensure!(r.is_ok() && b == *want, k, "{} at {}: {:?} {}, not {}", w, p, r, hx(&b), hx(want));
        }
        Ok(())
    };
    match img.clone().explode() {
        ExplodedImage::FsRead(rs) => {
            of_slice(rs, "exploded")?;
            match img.reader() { BodyReader::FileSlice(rs) => of_slice(rs, "reader")?, _ => bail!(k, "reader of other kind") }
        }
        ExplodedImage::MemMap(m) => {
            ensure!(m.len() as u64 == len, k, "map of {} bytes, not {}", m.len(), len);
            for (p, want) in &look { ensure!(m[*p as usize..*p as usize + want.len()] == want[..], k, "map at {}", p); }
        }
        ExplodedImage::Ram(v) => {
            let n: u64 = v.iter().map(|b| b.len() as u64).sum();
            ensure!(n == len, k, "{} bytes in RAM, not {}", n, len);
            for (p, want) in &look {
                let mut rest = *p;
                let mut got = vec![];
                for b in &v {
                    if rest < b.len() as u64 {
                        let from = rest as usize;
                        got.extend_from_slice(&b[from..b.len().min(from + want.len() - got.len())]);
                        rest = 0;
                        if got.len() == want.len() { break; }
                    } else { rest -= b.len() as u64; }
                }
                ensure!(got == *want, k, "RAM at {}: {}, not {}", p, hx(&got), hx(want));
            }
        }
    }
    Ok(())
}

fn grown(z: &'static [u8], parts: &[usize]) -> Res {
    let tmp = dir("t");
    // to file from the start, at any time, or never
    let back = choose(parts.len() + 2);
    let whole = flip();
    let mut s = if back == 0 { match BodySink::with_fs(&tmp) { Ok(s) => s, Err(e) => bail!(K, "with_fs: {}", e) } } else { BodySink::empty() };
    let mut at = 0u64;
    for (i, n) in parts.iter().enumerate() {
        if back == i + 1 { if let Err(e) = s.write_back(&tmp) { bail!(K, "write_back at {}: {}", at, e) } }
        let b = grown_part(z, at, *n);
        let r = if s.is_ram() || whole { s.push(b) } else { s.write_all(&b) };
        if let Err(e) = r { bail!(K, "append of {} at {}: {}", n, at, e) }
        at += *n as u64;
        ensure!(s.len() == at && !s.is_empty(), K, "length {} of {}", s.len(), at);
        ensure!(s.is_ram() == (back > i + 1), K, "in RAM: {}", s.is_ram());
    }
    let mut img = match s.prepare() { Ok(i) => i, Err(e) => bail!(K, "prepare: {}", e) };
    observe((back, whole, img.len()));
    check_grown(K, &img, parts)?;
    if let Err(e) = img.mem_map() { bail!(K, "mem_map: {}", e) }
    check_grown(K, &img, parts)
}

/// Windows looked at: position in the body, length
pub fn windows(len: u64) -> Vec<(u64, usize)> {
    let mut v = vec![(0, 9)];
    for at in [1u64 << 31, 1 << 32] { if at + 5 < len { v.push((at - 5, 10)); } }
    v.push((len - 9, 9));
    v
}

/// Content at a position of the sparse file, zero elsewhere
pub fn huge_byte(i: u64) -> u8 { (i % 251) as u8 + (i >> 30) as u8 }

/// Bodies of 2 GiB and more, mostly holes: lengths and positions are exact
fn huge(a: u64, len: u64, slice: bool, depth: usize, t: Tier) -> Res {
    use std::os::unix::fs::FileExt;
    let file = tmpfile();
    let fill = || -> std::io::Result<()> {
        file.set_len(a + len + if slice { 9 } else { 0 })?;
        for (p, n) in windows(len) {
            let d: Vec<u8> = (p..p + n as u64).map(huge_byte).collect();
            file.write_all_at(&d, a + p)?;
        }
        Ok(())
    };
    if let Err(e) = fill() { engine_fail(&format!("sparse file: {}", e)); }
    let mut img = if slice {
        unsafe { BodyImage::from_read_slice(ReadSlice::new(Arc::new(file), a, a + len)) }
    } else {
        unsafe { BodyImage::from_file(file, len) }
    };
    for i in 0..=depth {
        observe((i, state_of(&img)));
        check_huge(&img, len)?;
        if i == depth { break; }
        match choose(3) {
            0 => { tr!("mem_map"); if let Err(e) = img.mem_map() { bail!(K, "mem_map failed: {}", e) } ensure!(img.is_mem_map(), K, "not mapped"); }
            1 => { tr!("clone"); img = img.clone(); }
            _ => { tr!("gather"); img.gather(); }
        }
    }
    if t == Tier::Thorough && !img.is_mem_map() {
        struct Count(u64);
        impl std::io::Write for Count {
            fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0 += b.len() as u64; Ok(b.len()) }
            fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
        }
        let mut n = Count(0);
        let r = img.write_to(&mut n);
        ensure!(matches!(r, Ok(l) if l == len) && n.0 == len, K, "write_to {:?}: {} of {} bytes", r, n.0, len);
    }
    Ok(())
}

fn check_huge(img: &BodyImage, len: u64) -> Res {
    use body_image_futio::{AsyncBodyImage, FutioTunables, StreamWrapper, UniBodyBuf};
    use bytes::Buf;
    use http_body::Body;
    ensure!(img.len() == len && !img.is_empty(), K, "length {} of {}", img.len(), len);
    let want = |p: u64, n: usize| -> Vec<u8> { (p..p + n as u64).map(huge_byte).collect() };
    let of_slice = |mut rs: ReadSlice, w: &str| -> Res {
        ensure!(rs.len() == len, K, "{} of length {}, not {}", w, rs.len(), len);
        for (p, n) in windows(len) {
            let mut b = vec![0; n];
            let r = rs.seek(SeekFrom::Start(p)).and_then(|_| rs.read_exact(&mut b));
            ensure!(r.is_ok() && b == want(p, n), K, "{} at {}: {:?} {}", w, p, r, hx(&b));
        }
        let mut b = [0; 1];
        ensure!(matches!(rs.read(&mut b), Ok(0)), K, "{} goes beyond the end", w);
        Ok(())
    };
    let of_map = |m: &[u8], w: &str| -> Res {
        ensure!(m.len() as u64 == len, K, "{} of length {}, not {}", w, m.len(), len);
        for (p, n) in windows(len) { ensure!(m[p as usize..p as usize + n] == want(p, n)[..], K, "{} at {}", w, p); }
        Ok(())
    };
    match img.reader() {
        BodyReader::FileSlice(rs) => of_slice(rs, "reader")?,
        BodyReader::Contiguous(c) => of_map(c.into_inner(), "reader")?,
        BodyReader::Scattered(_) => bail!(K, "scattered"),
    }
    match img.clone().explode() {
        ExplodedImage::FsRead(rs) => of_slice(rs, "exploded")?,
        ExplodedImage::MemMap(m) => of_map(&m, "exploded")?,
        ExplodedImage::Ram(_) => bail!(K, "in RAM"),
    }
    let mut st: AsyncBodyImage<UniBodyBuf> = StreamWrapper::new(img.clone(), FutioTunables::default());
    ensure!(st.size_hint().exact() == Some(len), K, "size hint {:?} for {}", st.size_hint(), len);
    if img.is_mem_map() {
        let task = crate::aio::Task::new();
        match futures_core::Stream::poll_next(std::pin::Pin::new(&mut st), &mut task.cx()) {
            std::task::Poll::Ready(Some(Ok(mut b))) => {
                of_map(b.chunk(), "stream item")?;
                ensure!(b.remaining() as u64 == len, K, "{} bytes remaining of {}", b.remaining(), len);
                let cut = len as usize - 3;
                let head = blocking_permit::Splittable::split_if(&mut b, cut);
                ensure!(head.map(|h| h.len()) == Some(cut) && b[..] == want(len - 3, 3)[..], K, "split at {}", cut);
            }
            _ => bail!(K, "no stream item"),
        }
        ensure!(st.is_end_stream(), K, "not at the end of the stream");
    }
    Ok(())
}

impl Check for C01 {
    fn id(&self) -> &'static str { "C01" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("every sequence of up to {} operations (push, write_all, save, write_back, prepare, mem_map, gather, clone keeping either, partial reads) from {} initial bodies, some of over 4 GiB in a sparse file or grown to that, some of zeros, line ends or framing; after every operation length, state queries, and the content by reader, chunked reader, seek, write_to and explode are compared with a reference byte vector; a case is distinct if its sequence of observations differs", t.pick(5, 7), starts(t).len())
    }
    fn configs(&self, t: Tier) -> usize { starts(t).len() }
    fn describe(&self, t: Tier, c: usize) -> String {
        let s = &starts(t)[c];
        format!("{:?}, append sizes {:?}, {} operations", s.0, s.1, s.2)
    }
    fn run(&self, t: Tier, c: usize) -> Res {
        let (start, sizes, depth) = starts(t)[c];
        match start {
            Fill(s, k) => with_fill(k, || run(t, *s, sizes, depth)),
            s => run(t, s, sizes, depth),
        }
    }
}

fn run(t: Tier, start: Start, sizes: &[usize], depth: usize) -> Res {
    if let Huge(a, l, slice) = start {
        return with_file_limit(8 << 30, || with_space_limit(15 << 30, || huge(a, l, slice, depth, t)));
    }
    if let Grown(k) = start {
        return with_file_limit(8 << 30, || with_space_limit(15 << 30, || crate::sys::with_zeros(G, |z| grown(z, GROW[k]))));
    }
    let tmp = dir("t");
    let mut model: Vec<u8> = vec![];
    let mut left = depth;
    // Sink phase
    let sink = match start {
        Empty => Some(BodySink::empty()),
        WithRam(n) => Some(BodySink::with_ram(n)),
        WithBufs(n) => Some(BodySink::with_ram_buffers(n)),
        Many(n, l) => {
            let mut s = BodySink::empty();
            for _ in 0..n {
                let d = pattern(model.len(), l);
                model.extend_from_slice(&d);
                if let Err(e) = s.push(d) { bail!(K, "push failed: {}", e) }
            }
            Some(s)
        }
        WithFs => match BodySink::with_fs(&tmp) {
            Ok(s) => Some(s),
            Err(e) => bail!(K, "with_fs failed: {}", e),
        },
        _ => None,
    };
    let mut img;
    if let Some(mut s) = sink {
        let mut ram = !matches!(start, WithFs);
        loop {
            check_sink(&s, &model, ram)?;
            if left == 0 { break; }
            left -= 1;
            let ns = sizes.len();
            let op = choose(3 + 2 * ns);
            let n = model.len();
            let r: Result<(), String> = match op {
                0 => { left += 1; tr!("prepare"); break }
                1 => {
                    tr!("write_back");
                    ram = false;
                    s.write_back(&tmp).map(|_| ()).map_err(|e| e.to_string())
                }
                2 => {
                    tr!("save 2");
                    let d = pattern(n, 2);
                    model.extend_from_slice(&d);
                    #[allow(deprecated)]
                    s.save(d).map_err(|e| e.to_string())
                }
                x if x < 3 + ns => {
                    let d = pattern(n, sizes[x - 3]);
                    tr!("push {}", d.len());
                    model.extend_from_slice(&d);
                    // different buffer types
                    if n % 2 == 0 { s.push(d) } else { s.push(Bytes::from(d)) }.map_err(|e| e.to_string())
                }
                x => {
                    let d = pattern(n, sizes[x - 3 - ns]);
                    tr!("write_all {}", d.len());
                    model.extend_from_slice(&d);
                    s.write_all(&d).map_err(|e| e.to_string())
                }
            };
            if let Err(e) = r { bail!(K, "operation failed without cause: {}", e); }
        }
        observe((s.len(), s.is_ram()));
        img = match s.prepare() { Ok(i) => i, Err(e) => bail!(K, "prepare failed: {}", e) };
        ensure!(img.is_ram() == (ram || model.is_empty()), K, "prepared body is_ram() is {}", img.is_ram());
    } else {
        img = match start {
            ImgEmpty => BodyImage::empty(),
            FromSlice(n) => { model = pattern(0, n); BodyImage::from_slice(model.clone()) }
            FromFile(fl, cur, n) => {
                let d = pattern(0, fl);
                let mut f = file_with(&d);
                f.seek(SeekFrom::Start(cur)).expect("seek");
                model = d[..n].to_vec();
                unsafe { BodyImage::from_file(f, n as u64) }
            }
            FromSliceOf(fl, a, b) => {
                let d = pattern(0, fl);
                model = d[a as usize..b as usize].to_vec();
                unsafe { BodyImage::from_read_slice(ReadSlice::new(Arc::new(file_with(&d)), a, b)) }
            }
            Nested(fl, a, b, x, y) => {
                let d = pattern(0, fl);
                model = d[(a + x) as usize..(a + y) as usize].to_vec();
                let rs = ReadSlice::new(Arc::new(file_with(&d)), a, b).subslice(x, y);
                unsafe { BodyImage::from_read_slice(rs) }
            }
            Advanced(fl, a, b, n) => {
                let d = pattern(0, fl);
                model = d[a as usize..b as usize].to_vec();
                let mut rs = ReadSlice::new(Arc::new(file_with(&d)), a, b);
                rs.read_exact(&mut vec![0; n]).expect("read");
                unsafe { BodyImage::from_read_slice(rs) }
            }
            _ => unreachable!(),
        };
        ensure!(!img.is_mem_map(), K, "new body is mem_map");
    }
    // Image phase
    let mut kept: Vec<BodyImage> = vec![];
    let mut st = state_of(&img);
    loop {
        check_image(K, &img, &model)?;
        ensure!(state_of(&img) == st, K, "state is {} expected {}", state_of(&img), st);
        observe((st, img.len(), kept.len()));
        if left == 0 { break; }
        left -= 1;
        match choose(6) {
            0 => { break }
            1 => {
                tr!("mem_map");
                if let Err(e) = img.mem_map() { bail!(K, "mem_map failed: {}", e) }
                if st == 'F' { st = 'M'; }
            }
            2 => {
                tr!("gather");
                img.gather();
                if st == 'R' {
                    ensure!(matches!(img.reader(), BodyReader::Contiguous(_)), K, "not contiguous after gather");
                }
            }
            3 => { tr!("clone, continue with clone"); let c = img.clone(); kept.push(img); img = c; }
            4 => { tr!("clone, continue with original"); let c = img.clone(); kept.push(c); }
            _ => {
                tr!("partial read");
                use std::io::Read;
                let mut b = [0u8; 2];
                let k = match img.reader().read(&mut b) { Ok(n) => n, Err(e) => bail!(K, "read failed: {}", e) };
                ensure!(b[..k] == model[..k.min(model.len())] && (k > 0 || model.is_empty()), K, "partial read gives {}", hx(&b[..k]));
            }
        }
    }
    let (got, es) = match exploded_bytes(img.explode()) { Ok(x) => x, Err(e) => bail!(K, "exploded: {}", e) };
    ensure!(got == model && es == st, K, "exploded: {}, state {}", first_diff(&got, &model), es);
    for k in &kept { check_image(K, k, &model)?; }
    Ok(())
}

fn check_sink(s: &BodySink, model: &[u8], ram: bool) -> Res {
    ensure!(s.len() == model.len() as u64, K, "sink len() is {}, expected {}", s.len(), model.len());
    ensure!(s.is_empty() == model.is_empty(), K, "sink is_empty() is {}", s.is_empty());
    ensure!(s.is_ram() == ram, K, "sink is_ram() is {}, expected {}", s.is_ram(), ram);
    observe((s.len(), ram));
    Ok(())
}
