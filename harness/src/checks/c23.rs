//! C23: body buffers are exact windows. C24: requests are recorded as sent.
//! C26: tunings are valid and mean what was set.

use std::ops::Deref;
use std::path::PathBuf;
use std::pin::Pin;
use std::task::Poll;
use std::time::Duration;

use blocking_permit::{Semaphore, Splittable};
use body_image::{BodyImage, RequestRecorded, Tunables, Tuner};
use body_image_futio::{AsyncBodyImage, BlockingPolicy, DispatchBodyImage, FutioTunables, FutioTuner, PermitBodyImage, RequestRecord, RequestRecorder, StreamWrapper, UniBodyBuf};
use bytes::{Buf, Bytes};
use futures_core::stream::Stream;
use http::header::{HeaderMap, HeaderName, HeaderValue};

use crate::aio::Task;
use crate::engine::*;
use crate::util::*;
use crate::{bail, ensure, tr};

use super::c02::Cache;
use super::c18::{ftune, semaphore, with_env, Kind, Watch};

pub struct C23;
pub struct C24;
pub struct C26;

// ------------------------------------------------------------ C23

const K23: &str = "body-buffer";

#[derive(Clone, Copy, Debug, PartialEq)]
enum Origin { Made(Make), Bytes, Shared }
#[derive(Clone, Debug)]
struct F23 { origin: Origin, len: usize, depth: usize }

fn cfgs23(t: Tier) -> Vec<F23> {
    let mut v = vec![];
    let mut o = vec![Origin::Bytes, Origin::Shared];
    for m in MAKES { o.push(Origin::Made(m)); }
    for origin in o {
        for len in [1usize, 2, 3, 4, 6] { v.push(F23 { origin, len, depth: t.pick(if len < 3 { 4 } else { 3 }, if len < 3 { 6 } else { 4 }) }); }
        v.push(F23 { origin, len: 0, depth: 3 });
        // over page boundaries
        for len in [4095, 4096, 4097, 9000] { v.push(F23 { origin, len, depth: t.pick(2, 3) }); }
    }
    v
}
static CACHE23: Cache<F23> = Cache::new();

fn window(k: &str, b: &UniBodyBuf, want: &[u8]) -> Res {
    ensure!(b.remaining() == want.len(), k, "remaining is {}, expected {}", b.remaining(), want.len());
    ensure!(b.has_remaining() == !want.is_empty(), k, "has_remaining is {} with {} left", b.has_remaining(), want.len());
    ensure!(b.chunk() == want, k, "chunk: {}", first_diff(b.chunk(), want));
    ensure!(b.deref() == want, k, "deref: {}", first_diff(b.deref(), want));
    ensure!(b.as_ref() == want, k, "as_ref: {}", first_diff(b.as_ref(), want));
    Ok(())
}

fn run23(f: &F23) -> Res {
    let k = K23;
    let data = pattern(3, f.len);
    // All buffers with the bytes each should expose
    let mut live: Vec<(UniBodyBuf, Vec<u8>)> = vec![];
    let mut plain: Vec<(Bytes, Vec<u8>)> = vec![];
    let mut body = None;
    match f.origin {
        Origin::Bytes => live.push((Bytes::from(data.clone()).into(), data.clone())),
        Origin::Shared => {
            let all = Bytes::from([&b"before"[..], &data, b"after"].concat());
            live.push((all.slice(6..6 + data.len()).into(), data.clone()));
            plain.push((all.clone(), all.to_vec()));
        }
        Origin::Made(m) => {
            let b = match make_body(m, &data) { Ok(b) => b, Err(e) => bail!(k, "making the body: {}", e) };
            let t = ftune(100_000, 64, f.len.max(1), 64, BlockingPolicy::Direct);
            let mut s = AsyncBodyImage::<UniBodyBuf>::new(b.clone(), t);
            body = Some(b);
            let mut at = 0;
            loop {
                match Pin::new(&mut s).poll_next(&mut Task::new().cx()) {
                    Poll::Ready(Some(Ok(u))) => {
                        let n = u.len();
                        ensure!(at + n <= data.len(), k, "more bytes than the body");
                        live.push((u, data[at..at + n].to_vec()));
                        at += n;
                    }
                    Poll::Ready(None) => break,
                    _ => bail!(k, "stream failed"),
                }
            }
            ensure!(at == data.len(), k, "buffers of {} of {} bytes", at, data.len());
        }
    }
    for _ in 0..f.depth {
        if live.is_empty() { break; }
        let op = choose(8);
        if op == 0 { break; }
        let i = choose(live.len());
        let n = live[i].1.len();
        let some: Vec<usize> = if n > 8 { vec![1, 4095, 4096, n - 1, n] } else { (0..=n).collect() };
        let some: Vec<usize> = some.into_iter().filter(|x| *x <= n).collect();
        match op {
            1 => {
                let c = one(&some);
                tr!("{}: advance {} of {}", i, c, n);
                live[i].0.advance(c);
                live[i].1.drain(..c);
            }
            2 => {
                let max = if n > 8 { one(&[1, 4096, n - 1, n, n + 1]) } else { 1 + choose(n + 1) };
                tr!("{}: split at {} of {}", i, max, n);
                match live[i].0.split_if(max) {
                    Some(b) => {
                        ensure!(n > max, k, "split {} bytes with maximum {}", n, max);
                        let lead: Vec<u8> = live[i].1.drain(..max).collect();
                        live.push((b, lead));
                    }
                    None => ensure!(n <= max, k, "{} bytes not split with maximum {}", n, max),
                }
            }
            3 => {
                tr!("{}: into Bytes", i);
                let (b, w) = live.remove(i);
                let b: Bytes = b.into();
                if flip() { plain.push((b, w)); } else { live.push((b.into(), w)); }
            }
            4 => {
                let c = one(&some);
                tr!("{}: copy out {} of {}", i, c, n);
                let b = live[i].0.copy_to_bytes(c);
                let w: Vec<u8> = live[i].1.drain(..c).collect();
                plain.push((b, w));
            }
            5 => {
                let c = one(&some);
                tr!("{}: copy {} of {} to a slice", i, c, n);
                let mut b = vec![0; c];
                live[i].0.copy_to_slice(&mut b);
                let w: Vec<u8> = live[i].1.drain(..c).collect();
                ensure!(b == w, k, "copied: {}", first_diff(&b, &w));
            }
            6 => {
                tr!("{}: dropped", i);
                live.remove(i);
            }
            _ => {
                tr!("{}: advance past the end", i);
                let b = &mut live[i].0;
                let r = catch(|| b.advance(n + 1));
                ensure!(r.is_err(), k, "advanced by {} with {} remaining", n + 1, n);
            }
        }
        for (b, w) in &live { window(k, b, w)?; }
        for (b, w) in &plain { ensure!(&b[..] == &w[..], k, "as Bytes: {}", first_diff(b, w)); }
    }
    // Unaffected by dropping the body and then any of the others
    drop(body);
    observe(live.len());
    while !live.is_empty() {
        for (b, w) in &live { window(k, b, w)?; }
        let i = if live.len() > 1 && flip() { live.len() - 1 } else { 0 };
        live.remove(i);
    }
    for (b, w) in &plain { ensure!(&b[..] == &w[..], k, "as Bytes: {}", first_diff(b, w)); }
    Ok(())
}

impl Check for C23 {
    fn id(&self) -> &'static str { "C23" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("{} configurations: buffers from 8 origins with 10 lengths; all sequences of up to {} operations out of advance, split, conversion, copying out, drop and advancing too far, with all counts for small buffers; every live buffer compared after each", CACHE23.get(t, cfgs23).len(), t.pick(4, 6))
    }
    fn configs(&self, t: Tier) -> usize { CACHE23.get(t, cfgs23).len() }
    fn describe(&self, t: Tier, c: usize) -> String { format!("{:?}", CACHE23.get(t, cfgs23)[c]) }
    fn run(&self, t: Tier, c: usize) -> Res { run23(&CACHE23.get(t, cfgs23)[c]) }
}

// ------------------------------------------------------------ C24

const K24: &str = "request-record";

#[derive(Clone, Copy, Debug, PartialEq)]
enum Way { None, Str, Text, Vector, Shared, Image(Make) }
#[derive(Clone, Debug)]
struct F24 { kind: Kind, uni: bool, way: Way, len: usize, bfs: usize, wide: bool }

fn cfgs24(t: Tier) -> Vec<F24> {
    let mut v = vec![];
    let mut ways = vec![Way::None, Way::Str, Way::Text, Way::Vector, Way::Shared];
    for m in MAKES { ways.push(Way::Image(m)); }
    for kind in [Kind::Async, Kind::Permit, Kind::Dispatch] {
        for uni in [false, true] {
            for &way in &ways {
                for len in t.pick(vec![0usize, 1, 5, 9000], vec![0, 1, 2, 5, 63, 64, 65, 9000, 70_000]) {
                    if way == Way::None && len > 0 || way == Way::Str && len > 5 { continue; }
                    let sizes: Vec<usize> = if len <= 5 { vec![1, 2, 64] } else { vec![64, 8192] };
                    for &bfs in &sizes { v.push(F24 { kind, uni, way, len, bfs, wide: kind == Kind::Async && len <= 1 && bfs == 64 }); }
                }
            }
        }
    }
    v
}
static CACHE24: Cache<F24> = Cache::new();

trait Pollable { fn all(&mut self, task: &Task) -> Result<Vec<u8>, String>; }
impl<S, B> Pollable for S where S: http_body::Body<Data = B, Error = std::io::Error> + Unpin, B: Buf {
    fn all(&mut self, task: &Task) -> Result<Vec<u8>, String> {
        let mut v = vec![];
        loop {
            let seen = task.wakes();
            match Pin::new(&mut *self).poll_data(&mut task.cx()) {
                Poll::Ready(Some(Ok(mut b))) => { let n = b.remaining(); v.extend_from_slice(&b.copy_to_bytes(n)); }
                Poll::Ready(Some(Err(e))) => return Err(e.to_string()),
                Poll::Ready(None) => return Ok(v),
                Poll::Pending => task.wait(seen),
            }
            if v.len() > 200_000 { return Err("endless".into()); }
        }
    }
}

const METHODS: [&str; 6] = ["GET", "POST", "HEAD", "PUT", "PURGE", "M-SEARCH"];
const URLS: [&str; 11] = ["http://foo.com", "http://foo.com/a/b?c=d&e", "https://u:p@h:8443/%20x", "/rel/path?q", "*", "h:80", "http://[::1]:8080/", "http://foo.com/?", "HTTP://Foo.COM:80//a/../b;p=1?x=%2F&y='", "/?", "http://foo.com/a?b?c/d"];

fn record<SW>(f: &F24, sem: Option<&'static Semaphore>) -> Res where SW: StreamWrapper + http_body::Body<Error = std::io::Error> + Send + Unpin, <SW as http_body::Body>::Data: Buf {
    let k = K24;
    let (method, url) = if f.wide { (one(&METHODS), one(&URLS)) } else { ("POST", URLS[1]) };
    let hs: Vec<(&str, &[u8])> = match if f.wide { choose(4) } else { 1 } {
        0 => vec![],
        1 => vec![("x-a", b"1"), ("x-b", b"2"), ("x-a", b"3")],
        2 => vec![("content-length", b"77"), ("content-type", b"text/plain"), ("host", b"other")],
        _ => vec![("x-empty", b""), ("x-bin", b"\xe4\xf6 \x80"), ("x-empty", b"again")],
    };
    let version = if f.wide { one(&[http::Version::HTTP_11, http::Version::HTTP_10, http::Version::HTTP_2]) } else { http::Version::HTTP_11 };
    // Something invalid, or not
    let bad = if f.wide { choose(4) } else { 0 };
    let mut b = http::Request::builder();
    b = if bad == 1 { b.method("no good") } else { b.method(method) };
    b = if bad == 2 { b.uri("http://a b/") } else { b.uri(url) };
    b = b.version(version);
    let mut want = HeaderMap::new();
    for (n, v) in &hs {
        b = b.header(*n, *v);
        want.append(HeaderName::from_bytes(n.as_bytes()).expect("name"), HeaderValue::from_bytes(v).expect("value"));
    }
    if bad == 3 { b = b.header("x-line", "a\nb"); }
    let data: Vec<u8> = match f.way {
        Way::None => vec![],
        Way::Str => b"hello"[..f.len].to_vec(),
        Way::Text => vec![b'x'; f.len],
        _ => pattern(8, f.len),
    };
    let policy = match (f.kind, sem) { (Kind::Permit, Some(s)) => BlockingPolicy::Permit(s), (Kind::Dispatch, _) => BlockingPolicy::Dispatch, _ => BlockingPolicy::Direct };
    let tune = ftune(1000, 64, f.bfs, 64, policy);
    let mut state = 'R';
    let r: Result<RequestRecord<SW>, http::Error> = match f.way {
        Way::None => RequestRecorder::<SW>::record(b),
        Way::Str => RequestRecorder::<SW>::record_body(b, &"hello"[..f.len]),
        Way::Text => RequestRecorder::<SW>::record_body(b, "x".repeat(f.len)),
        Way::Vector => RequestRecorder::<SW>::record_body(b, data.clone()),
        Way::Shared => RequestRecorder::<SW>::record_body(b, Bytes::from([&b"zz"[..], &data].concat()).slice(2..)),
        Way::Image(m) => {
            let body: BodyImage = match make_body(m, &data) { Ok(b) => b, Err(e) => bail!(k, "making the body: {}", e) };
            state = state_of(&body);
            RequestRecorder::<SW>::record_body_image(b, body, tune)
        }
    };
    let rr = match (r, bad) {
        (Ok(_), 1..=3) => bail!(k, "an invalid request was recorded"),
        (Err(_), 1..=3) => return Ok(()),
        (Ok(r), _) => r,
        (Err(e), _) => bail!(k, "failed: {}", e),
    };
    let want_url: http::Uri = url.parse().expect("url");
    ensure!(rr.method().as_str() == method && rr.request().method().as_str() == method, k, "method {} {}", rr.method(), rr.request().method());
    ensure!(rr.url() == &want_url && rr.request().uri() == &want_url, k, "url {} {}", rr.url(), rr.request().uri());
    ensure!(rr.req_headers() == &want, k, "recorded headers {:?}", rr.req_headers());
    ensure!(rr.request().headers() == &want, k, "headers sent {:?}", rr.request().headers());
    ensure!(rr.request().version() == version, k, "version {:?}", rr.request().version());
    ensure!(state_of(rr.req_body()) == state, k, "recorded body is in state {}", state_of(rr.req_body()));
    check_image(k, rr.req_body(), &data)?;
    let h = http_body::Body::size_hint(rr.request().body());
    ensure!(h.lower() == data.len() as u64 && h.upper() == Some(data.len() as u64), k, "size hint {:?}", h);
    // There is no public access to the body other than by reference: take it
    // apart, leaving (and leaking) only the recorded headers.
    let rr = std::mem::ManuallyDrop::new(rr);
    let (request, recorded) = unsafe { (std::ptr::read(rr.request()), std::ptr::read(rr.req_body())) };
    let sent = match request.into_body().all(&Task::new()) { Ok(v) => v, Err(e) => bail!(k, "sending: {}", e) };
    ensure!(sent == data, k, "sent: {}", first_diff(&sent, &data));
    check_image(k, &recorded, &data)?;
    observe((method.len(), url.len(), hs.len(), data.len()));
    Ok(())
}

fn run24(f: &F24) -> Res {
    let sem = if f.kind == Kind::Permit { Some(semaphore(1)) } else { None };
    let mut w = Watch::new(f.kind);
    let r = with_env(f.kind, 0, false, &mut w, || match (f.kind, f.uni) {
        (Kind::Permit, false) => record::<PermitBodyImage<Bytes>>(f, sem),
        (Kind::Permit, true) => record::<PermitBodyImage<UniBodyBuf>>(f, sem),
        (Kind::Dispatch, false) => record::<DispatchBodyImage<Bytes>>(f, sem),
        (Kind::Dispatch, true) => record::<DispatchBodyImage<UniBodyBuf>>(f, sem),
        (_, false) => record::<AsyncBodyImage<Bytes>>(f, sem),
        (_, true) => record::<AsyncBodyImage<UniBodyBuf>>(f, sem),
    });
    if let Some(m) = panicked() { bail!("panic", "panic: {}", m) }
    r
}

impl Check for C24 {
    fn id(&self) -> &'static str { "C24" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("{} configurations: 3 body stream types with both buffer types, 11 ways of giving a body, lengths and buffer sizes; for the direct type all combinations of 6 methods, 11 URLs, 4 header sets, 3 versions and 3 kinds of invalid requests", CACHE24.get(t, cfgs24).len())
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["the recorder for hyper::Body is not part of the default build: it is covered by C27"] }
    fn configs(&self, t: Tier) -> usize { CACHE24.get(t, cfgs24).len() }
    fn describe(&self, t: Tier, c: usize) -> String { format!("{:?}", CACHE24.get(t, cfgs24)[c]) }
    fn run(&self, t: Tier, c: usize) -> Res { run24(&CACHE24.get(t, cfgs24)[c]) }
}

// ------------------------------------------------------------ C26

const K26: &str = "tuning";

#[derive(Clone, Debug, PartialEq)]
struct M { ram: u64, max: u64, bram: usize, bfs: usize, def: u16, gz: u16, br: u16, dir: PathBuf }

fn defaults() -> M {
    M { ram: 192 * 1024, max: 1 << 30, bram: 8 * 1024, bfs: 64 * 1024, def: 4, gz: 5, br: 6, dir: std::env::temp_dir() }
}

fn same(t: &Tunables, m: &M) -> Res {
    let got = M { ram: t.max_body_ram(), max: t.max_body(), bram: t.buffer_size_ram(), bfs: t.buffer_size_fs(), def: t.size_estimate_deflate(),
        gz: t.size_estimate_gzip(), br: t.size_estimate_brotli(), dir: t.temp_dir().to_path_buf() };
    ensure!(&got == m, K26, "obtained {:?}, expected {:?}", got, m);
    ensure!(*t.temp_dir_rc() == *m.dir, K26, "temp_dir_rc is {:?}", t.temp_dir_rc());
    Ok(())
}

/// Choose a setter and value, and apply to both. Returns if refused
fn set(t: &mut Tuner, m: &mut M, which: usize) -> Res {
    let sizes = [1usize, 0, 4096, usize::MAX];
    let lens = [0u64, 1, 192 * 1024, (1 << 30) + 1, u64::MAX];
    let mults = [1u16, 0, 9, u16::MAX];
    let dirs = ["/nowhere", "", "rel/dir"];
    let (r, ok);
    match which {
        0 => { let v = one(&lens); tr!("max_body_ram {}", v); m.ram = v; ok = true; r = catch(|| { t.set_max_body_ram(v); }); }
        1 => { let v = one(&lens); tr!("max_body {}", v); m.max = v; ok = true; r = catch(|| { t.set_max_body(v); }); }
        2 => { let v = one(&sizes); tr!("buffer_size_ram {}", v); ok = v > 0; if ok { m.bram = v; } r = catch(|| { t.set_buffer_size_ram(v); }); }
        3 => { let v = one(&sizes); tr!("buffer_size_fs {}", v); ok = v > 0; if ok { m.bfs = v; } r = catch(|| { t.set_buffer_size_fs(v); }); }
        4 => { let v = one(&mults); tr!("deflate {}", v); ok = v > 0; if ok { m.def = v; } r = catch(|| { t.set_size_estimate_deflate(v); }); }
        5 => { let v = one(&mults); tr!("gzip {}", v); ok = v > 0; if ok { m.gz = v; } r = catch(|| { t.set_size_estimate_gzip(v); }); }
        6 => { let v = one(&mults); tr!("brotli {}", v); ok = v > 0; if ok { m.br = v; } r = catch(|| { t.set_size_estimate_brotli(v); }); }
        _ => { let v = one(&dirs); tr!("temp_dir {:?}", v); ok = true; m.dir = PathBuf::from(v); r = catch(|| { t.set_temp_dir(v); }); }
    }
    ensure!(r.is_ok() == ok, K26, "{}", if ok { "a valid setting was refused" } else { "an invalid setting was accepted" });
    Ok(())
}

fn run26(depth: usize, first: usize) -> Res {
    let mut t = if flip() { Tuner::default() } else { Tuner::new() };
    let mut m = defaults();
    let mut done = 0;
    loop {
        match catch(|| t.finish()) {
            Ok(x) => {
                ensure!(m.ram <= m.max, K26, "a RAM limit {} above the maximum {} was accepted", m.ram, m.max);
                same(&x, &m)?;
                same(&x.clone(), &m)?;
            }
            Err(_) => ensure!(m.ram > m.max, K26, "a valid combination was refused: {:?}", m),
        }
        if done == depth || flip() { break; }
        set(&mut t, &mut m, if done == 0 { first } else { choose(8) })?;
        if flip() { set(&mut t, &mut m, choose(8))?; }
        done += 1;
    }
    observe((m.ram, m.max, m.bram, m.bfs, m.def, m.gz, m.br));
    same(&Tunables::new(), &defaults())?;
    same(&Tunables::default(), &defaults())
}

#[derive(Clone, Debug, PartialEq)]
struct MF { item: usize, res: Option<Duration>, body: Option<Duration>, policy: usize, image: bool }

fn run26f(depth: usize, first: usize) -> Res {
    let sems = [semaphore(1), semaphore(2)];
    let image = tune(5, 6, 7, 8, &PathBuf::from("/x"));
    let mi = M { ram: 5, max: 6, bram: 7, bfs: 8, dir: "/x".into(), ..defaults() };
    let mut t = if flip() { FutioTuner::default() } else { FutioTuner::new() };
    let fresh = || MF { item: 512 * 1024, res: None, body: Some(Duration::from_secs(60)), policy: 0, image: false };
    let mut m = fresh();
    let check = |x: &FutioTunables, m: &MF| -> Res {
        let policy = match x.blocking_policy() {
            BlockingPolicy::Direct => 0,
            BlockingPolicy::Dispatch => 1,
            BlockingPolicy::Permit(s) => 2 + (!std::ptr::eq(s, sems[0])) as usize,
        };
        let got = MF { item: x.stream_item_size(), res: x.res_timeout(), body: x.body_timeout(), policy, image: m.image };
        ensure!(&got == m, K26, "obtained {:?}, expected {:?}", got, m);
        let s = x.blocking_semaphore().map(|s| s as *const _);
        let w = match policy { 0 | 1 => None, p => Some(sems[p - 2] as *const _) };
        ensure!(s == w, K26, "semaphore of another policy");
        let d = defaults();
        let im = if m.image { &mi } else { &d };
        same(x.image(), im)?;
        same(x.as_ref(), im)
    };
    let durs = [Duration::from_secs(60), Duration::from_secs(61), Duration::from_millis(1), Duration::from_secs(0)];
    for i in 0..=depth {
        let ok = match (m.res, m.body) { (Some(r), Some(b)) => r <= b, _ => true };
        match catch(|| t.finish()) {
            Ok(x) => {
                ensure!(ok, K26, "a response timeout {:?} above the body timeout {:?} was accepted", m.res, m.body);
                check(&x, &m)?;
                check(&x.clone(), &m)?;
            }
            Err(_) => ensure!(!ok, K26, "a valid combination was refused: {:?}", m),
        }
        if i == depth { break; }
        match if i == 0 { first } else { choose(8) } {
            0 => break,
            1 => { let d = one(&durs); tr!("res_timeout {:?}", d); t.set_res_timeout(d); m.res = Some(d); }
            2 => { let d = one(&durs); tr!("body_timeout {:?}", d); t.set_body_timeout(d); m.body = Some(d); }
            3 => { tr!("no res_timeout"); t.unset_res_timeout(); m.res = None; }
            4 => { tr!("no body_timeout"); t.unset_body_timeout(); m.body = None; }
            5 => {
                let p = choose(4);
                tr!("policy {}", p);
                t.set_blocking_policy(match p { 0 => BlockingPolicy::Direct, 1 => BlockingPolicy::Dispatch, p => BlockingPolicy::Permit(sems[p - 2]) });
                m.policy = p;
            }
            6 => { tr!("image"); t.set_image(image.clone()); m.image = true; }
            _ => {
                let n = one(&[1usize, 0, 4096, usize::MAX]);
                tr!("item size {}", n);
                let r = catch(|| { t.set_stream_item_size(n); });
                ensure!(r.is_ok() == (n > 0), K26, "item size {}", n);
                if n > 0 { m.item = n; }
            }
        }
    }
    observe((m.item, m.res, m.body, m.policy, m.image));
    check(&FutioTunables::new(), &fresh())?;
    check(&FutioTunables::default(), &fresh())
}

impl Check for C26 {
    fn id(&self) -> &'static str { "C26" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("all sequences of setters of Tuner with up to {} rounds of 1 or 2 settings, finishing after each, and of FutioTuner up to {} settings; values at the defaults, limits, zero and the largest; all getters compared with a model", t.pick(1, 2), t.pick(4, 5))
    }
    fn configs(&self, _t: Tier) -> usize { 16 }
    fn describe(&self, _t: Tier, c: usize) -> String { format!("{}, first setter {}", ["Tuner", "FutioTuner"][c / 8], c % 8) }
    fn run(&self, t: Tier, c: usize) -> Res {
        if c < 8 { run26(t.pick(1, 2), c) } else { run26f(t.pick(4, 5), c - 8) }
    }
}
