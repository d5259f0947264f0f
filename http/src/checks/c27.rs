//! C27: a request run to completion yields the dialog as exchanged.

use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

use blocking_permit::{deregister_dispatch_pool, register_dispatch_pool, DispatchPool, Semaphore};
use body_image::{BodyError, Dialog, Encoding, Recorded, RequestRecorded};
use body_image_futio::{fetch, request_dialog, AsyncBodyImage, BlockingPolicy, DispatchBodyImage, Flaw, FutioError, FutioTunables, FutioTuner,
    PermitBodyImage, RequestRecord, RequestRecorder, UniBodyBuf};
use bytes::Bytes;
use http::header::{HeaderMap, HeaderName, HeaderValue};
use hyper_tls::{set_server, Act, MemConnector, Server};

use crate::engine::*;
use crate::fault::Faults;
use crate::sched;
use crate::sys;
use crate::util::*;
use crate::{bail, ensure, tr};

pub struct C27;
const K: &str = "exchange";

// ------------------------------------------------------------ responses

#[derive(Clone, Debug, PartialEq)]
enum Framing {
    Length,
    /// Sizes of chunks, the last one repeated as needed
    Chunked(Vec<usize>),
    /// Ends with the connection
    Close,
    /// No body by the status
    Bodiless,
    /// More claimed than ever comes
    Claim(u64),
}

#[derive(Clone, Debug)]
struct Resp { minor: u8, status: u16, headers: Vec<(&'static str, &'static [u8])>, framing: Framing, len: usize, seed: usize }

impl Resp {
    fn new(framing: Framing, len: usize) -> Resp { Resp { minor: 1, status: 200, headers: vec![("x-a", b"1")], framing, len, seed: 0 } }
    fn body(&self) -> Vec<u8> { pattern(self.seed, self.len) }
    fn all_headers(&self) -> Vec<(String, Vec<u8>)> {
        let mut v: Vec<(String, Vec<u8>)> = self.headers.iter().map(|(n, b)| (n.to_string(), b.to_vec())).collect();
        match self.framing {
            Framing::Length => v.push(("Content-Length".into(), self.len.to_string().into_bytes())),
            Framing::Chunked(_) => v.push(("Transfer-Encoding".into(), b"chunked".to_vec())),
            Framing::Claim(n) => v.push(("Content-Length".into(), n.to_string().into_bytes())),
            _ => {}
        }
        v
    }
    fn header_map(&self) -> HeaderMap {
        let mut m = HeaderMap::new();
        for (n, b) in self.all_headers() {
            m.append(HeaderName::from_bytes(n.as_bytes()).expect("name"), HeaderValue::from_bytes(&b).expect("value"));
        }
        m
    }
    /// Bytes sent, and the length of the head
    fn wire(&self) -> (Vec<u8>, usize) {
        let reason = match self.status { 200 => "OK", 404 => "Not Found", _ => "Z" };
        let mut w = format!("HTTP/1.{} {} {}\r\n", self.minor, self.status, reason).into_bytes();
        for (n, b) in self.all_headers() {
            w.extend_from_slice(n.as_bytes());
            w.extend_from_slice(b": ");
            w.extend_from_slice(&b);
            w.extend_from_slice(b"\r\n");
        }
        w.extend_from_slice(b"\r\n");
        let head = w.len();
        let body = self.body();
        match &self.framing {
            Framing::Chunked(sizes) => {
                let (mut at, mut i) = (0, 0);
                while at < body.len() {
                    let n = sizes[i.min(sizes.len() - 1)].min(body.len() - at);
                    w.extend_from_slice(format!("{:x}\r\n", n).as_bytes());
                    w.extend_from_slice(&body[at..at + n]);
                    w.extend_from_slice(b"\r\n");
                    at += n;
                    i += 1;
                }
                w.extend_from_slice(b"0\r\n\r\n");
            }
            _ => w.extend_from_slice(&body),
        }
        (w, head)
    }
    /// Content within the first `cut` bytes sent, when framing is until close
    fn until(&self, cut: usize) -> Vec<u8> { let (w, head) = self.wire(); w[head.min(cut)..cut].to_vec() }
}

/// How the response ends
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum End { Open, Close, Reset }

#[derive(Clone, Debug, PartialEq)]
enum Exp {
    Dialog(Vec<u8>),
    TooLong,
    /// Some error
    Error,
    ResTimeout,
    BodyTimeout,
}

/// What is to come of a response of which the first `cut` bytes arrive
fn expect(r: &Resp, cut: usize, end: End, max: u64) -> Exp {
    let (w, head) = r.wire();
    let len = r.len as u64;
    if cut < head { return Exp::Error; }
    match r.framing {
        Framing::Length if len > max => Exp::TooLong,
        Framing::Claim(n) => if n > max { Exp::TooLong } else { Exp::Error },
        Framing::Bodiless => Exp::Dialog(vec![]),
        Framing::Close => {
            let b = r.until(cut);
            if b.len() as u64 > max { if end == End::Reset { Exp::Error } else { Exp::TooLong } }
            else if end == End::Close { Exp::Dialog(b) } else { Exp::Error }
        }
        _ if cut < w.len() => Exp::Error,
        _ if len > max => Exp::TooLong,
        _ => Exp::Dialog(r.body()),
    }
}

fn judge(r: Result<Dialog, FutioError>, resp: &Resp, exp: &Exp, rq: &Req, tmo: &Timeouts, ram: u64) -> Res {
    match (&r, exp) {
        (Ok(d), Exp::Dialog(body)) => {
            tr!("  dialog {:?} {}", d.res_status(), d.res_body().len());
            let v = if resp.minor == 1 { http::Version::HTTP_11 } else { http::Version::HTTP_10 };
            ensure!(d.res_version() == v, K, "response version {:?}", d.res_version());
            ensure!(d.res_status().as_u16() == resp.status, K, "status {} of {}", d.res_status(), resp.status);
            ensure!(*d.res_headers() == resp.header_map(), K, "response headers {:?} of {:?}", d.res_headers(), resp.header_map());
            check_image(K, d.res_body(), body)?;
            ensure!(d.res_body().is_ram() == (body.len() as u64 <= ram), K, "body of {} bytes in RAM: {}, limit {}", body.len(), d.res_body().is_ram(), ram);
            let dec: &[Encoding] = if matches!(resp.framing, Framing::Chunked(_)) { &[Encoding::Chunked] } else { &[] };
            ensure!(d.res_decoded() == dec, K, "decoded {:?}, {:?} expected", d.res_decoded(), dec);
            ensure!(d.method().as_str() == rq.method(), K, "method {}", d.method());
            ensure!(d.url().to_string() == rq.url(), K, "url {}", d.url());
            ensure!(*d.req_headers() == rq.header_map(), K, "request headers {:?}", d.req_headers());
            check_image(K, d.req_body(), &rq.body())?;
        }
        (Ok(d), e) => bail!(K, "a dialog ({}, body {}) rather than {:?}", d.res_status(), d.res_body().len(), e),
        (Err(e), Exp::Dialog(_)) => bail!(K, "error {} rather than a dialog", e),
        (Err(FutioError::ContentLengthTooLong(l)), Exp::TooLong) => {
            ensure!(resp.framing == Framing::Length && *l == resp.len as u64 || resp.framing == Framing::Claim(*l), K, "length {} reported as too long", l);
        }
        (Err(FutioError::Body(BodyError::BodyTooLong(_))), Exp::TooLong) => {}
        (Err(e), Exp::TooLong) => bail!(K, "error {} rather than too long", e),
        (Err(FutioError::ResponseTimeout(d)), Exp::ResTimeout) => ensure!(Some(*d) == tmo.res, K, "response timeout of {:?}", d),
        (Err(FutioError::BodyTimeout(d)), Exp::BodyTimeout) => ensure!(Some(*d) == tmo.body, K, "body timeout of {:?}", d),
        (Err(e), Exp::ResTimeout) | (Err(e), Exp::BodyTimeout) => bail!(K, "error {} rather than {:?}", e, exp),
        (Err(FutioError::ResponseTimeout(_)), Exp::Error) | (Err(FutioError::BodyTimeout(_)), Exp::Error) => bail!(K, "timed out rather than failed"),
        (Err(e), Exp::Error) => tr!("  error {}", e),
    }
    Ok(())
}

// ------------------------------------------------------------- requests

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Via { Hyper, HyperImage, Async, AsyncUni, Permit, Dispatch }

#[derive(Clone, Copy, Debug)]
struct Req { via: Via, post: Option<usize>, file: bool, n: usize }

impl Req {
    fn get() -> Req { Req { via: Via::Hyper, post: None, file: false, n: 0 } }
    fn method(&self) -> &'static str { if self.post.is_some() { "POST" } else { "GET" } }
    fn path(&self) -> String { format!("/p{}?q", self.n) }
    fn url(&self) -> String { format!("http://h.test{}", self.path()) }
    fn body(&self) -> Vec<u8> { pattern(700, self.post.unwrap_or(0)) }
    fn header_map(&self) -> HeaderMap {
        let mut m = HeaderMap::new();
        m.append("x-req", HeaderValue::from_static("r1"));
        m.append("x-req", HeaderValue::from_static("r2"));
        m
    }
    fn builder(&self) -> http::request::Builder {
        http::Request::builder().method(self.method()).uri(self.url()).header("x-req", "r1").header("x-req", "r2")
    }
    fn record<B>(&self, t: &FutioTunables) -> Res<RequestRecord<B>> where http::request::Builder: RequestRecorder<B>, B: http_body_of::Body + Send {
        let b = self.builder();
        let r = match self.post {
            None => b.record(),
            Some(_) if self.via == Via::Hyper => b.record_body(self.body()),
            Some(_) => {
                let image = if self.file { make_body(Make::File, &self.body()) } else { make_body(Make::Slice, &self.body()) };
                match image { Ok(i) => b.record_body_image(i, t.clone()), Err(e) => bail!(K, "{}", e) }
            }
        };
        match r { Ok(r) => Ok(r), Err(e) => bail!(K, "recording: {}", e) }
    }
    /// The request as received by the server
    fn received(&self, w: &[u8]) -> Res {
        let (n, path) = match hyper_tls::request_len(w) { Some(x) => x, None => bail!(K, "incomplete request {}", String::from_utf8_lossy(w)) };
        ensure!(path == self.path(), K, "path {}", path);
        let text = String::from_utf8_lossy(&w[..n]).to_string();
        ensure!(text.starts_with(&format!("{} ", self.method())), K, "request {}", text);
        let low = text.to_ascii_lowercase();
        let (a, b) = (low.find("x-req: r1\r\n"), low.find("x-req: r2\r\n"));
        ensure!(a.is_some() && a < b, K, "request headers in {}", text);
        let head = w.windows(4).position(|x| x == b"\r\n\r\n").map(|p| p + 4).unwrap_or(n);
        let mut body = w[head..n].to_vec();
        if low.contains("transfer-encoding: chunked") {
            let mut out = vec![];
            let mut at = 0;
            loop {
                let eol = match body[at..].windows(2).position(|x| x == b"\r\n") { Some(p) => p + at, None => bail!(K, "chunk") };
                let n = usize::from_str_radix(&String::from_utf8_lossy(&body[at..eol]), 16).unwrap_or(0);
                if n == 0 { break; }
                out.extend_from_slice(&body[eol + 2..eol + 2 + n]);
                at = eol + 2 + n + 2;
            }
            body = out;
        }
        ensure!(body == self.body(), K, "request body sent: {}", first_diff(&body, &self.body()));
        Ok(())
    }
}

/// The trait of request bodies
mod http_body_of { pub use hyper::body::HttpBody as Body; }

// ------------------------------------------------------------- executor

struct Flag(AtomicBool, std::thread::Thread);
impl Wake for Flag {
    fn wake(self: Arc<Self>) { self.0.store(true, SeqCst); self.1.unpark(); }
}
type Fut = Pin<Box<dyn Future<Output = ()> + Send>>;
struct Job { fut: Option<Fut>, flag: Arc<Flag>, waker: Waker }
fn job(f: Fut) -> Job {
    let flag = Arc::new(Flag(AtomicBool::new(true), std::thread::current()));
    Job { fut: Some(f), waker: Waker::from(flag.clone()), flag }
}
#[derive(Clone, Default)]
struct Exec(Arc<Mutex<Vec<Fut>>>);
impl<F: Future<Output = ()> + Send + 'static> hyper::rt::Executor<F> for Exec {
    fn execute(&self, f: F) { self.0.lock().unwrap().push(Box::pin(f)); }
}

/// Runs tasks and the server in every order within a budget of deviations
/// from the order first woken, and the server last
struct Loop<'a> { ex: Exec, server: &'a Server, sem: Option<&'static Semaphore>, add: usize, dispatch: bool, orders: usize, jobs: Vec<Job> }

impl<'a> Loop<'a> {
    fn until(&mut self, mut done: impl FnMut() -> bool) -> Res {
        let mut steps = 0;
        loop {
            for f in self.ex.0.lock().unwrap().drain(..) { self.jobs.push(job(f)); }
            if done() { return Ok(()); }
            steps += 1;
            ensure!(steps < 20_000, K, "no end of it");
            let ready: Vec<usize> = (0..self.jobs.len()).filter(|i| self.jobs[*i].fut.is_some() && self.jobs[*i].flag.0.load(SeqCst)).collect();
            let held = self.server.held();
            let n = ready.len() + held.len() + (self.add > 0) as usize;
            if n == 0 {
                if self.dispatch { std::thread::park(); continue; }
                bail!(K, "waits for nothing");
            }
            let c = if n > 1 && self.orders > 0 { choose(n) } else { 0 };
            if c > 0 { self.orders -= 1; }
            if c < ready.len() {
                let j = &mut self.jobs[ready[c]];
                j.flag.0.store(false, SeqCst);
                tr!("  poll task {}", ready[c]);
                let w = j.waker.clone();
                if let Some(f) = j.fut.as_mut() {
                    if let Poll::Ready(()) = f.as_mut().poll(&mut Context::from_waker(&w)) { j.fut = None; }
                }
            } else if c < ready.len() + held.len() {
                tr!("  server of connection {} goes on", held[c - ready.len()]);
                self.server.deliver(held[c - ready.len()]);
            } else {
                tr!("  a permit is released");
                self.add -= 1;
                if let Some(s) = self.sem { s.add_permits(1); }
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Policy { Direct, Permit, Dispatch }

#[derive(Clone, Copy, Debug, Default)]
struct Timeouts { res: Option<Duration>, body: Option<Duration> }

fn futio(policy: Policy, ram: u64, max: u64, t: &Timeouts, sem: Option<&'static Semaphore>) -> FutioTunables {
    let mut f = FutioTuner::new();
    f.set_image(tune(ram, max, 3, 3, &dir("t")));
    f.set_blocking_policy(match policy {
        Policy::Direct => BlockingPolicy::Direct,
        Policy::Dispatch => BlockingPolicy::Dispatch,
        Policy::Permit => BlockingPolicy::Permit(sem.expect("semaphore")),
    });
    match t.res { Some(d) => { f.set_res_timeout(d); } None => { f.unset_res_timeout(); } }
    match t.body { Some(d) => { f.set_body_timeout(d); } None => { f.unset_body_timeout(); } }
    f.finish()
}

/// Acts of a server sending `w` in the given pieces
fn acts(w: &[u8], cuts: &[usize], end: End, between: Act) -> Vec<Act> {
    let mut v = vec![];
    let mut at = 0;
    let mut cuts: Vec<usize> = cuts.iter().copied().chain(Some(w.len())).collect();
    cuts.dedup();
    for c in cuts {
        if c <= at { continue; }
        v.push(between.clone());
        v.push(Act::Send(w[at..c].to_vec()));
        at = c;
    }
    match end {
        End::Open => {}
        End::Close => { v.push(between); v.push(Act::Close); }
        End::Reset => { v.push(between); v.push(Act::Reset); }
    }
    v
}

// -------------------------------------------------------- configurations

#[derive(Clone, Debug)]
enum How {
    /// Every split into up to n + 1 pieces
    Split(usize),
    /// Ends at every point, in each of these ways
    Cut(End),
    /// Each order of tasks, server and permits, up to a number of deviations
    Orders(usize),
    /// Each file operation fails, once
    Fault,
    /// One request after another
    Twice,
    /// Both under way at once
    Both(usize),
    /// Stalls at every point
    Stall,
    /// Each piece delayed
    Delay,
    /// By fetch(), every split in two
    Fetch,
    /// By fetch(), stalls at some points
    FetchStall,
    FetchRefused,
    Refused,
    /// Malformed
    Bad,
}

#[derive(Clone, Debug)]
struct F { resp: Resp, req: Req, policy: Policy, ram: u64, max: u64, how: How }

fn framings() -> Vec<Framing> { vec![Framing::Length, Framing::Chunked(vec![3]), Framing::Chunked(vec![1, 100]), Framing::Close] }

fn cfgs(t: Tier) -> Vec<F> {
    let th = t == Tier::Thorough;
    let mut v = vec![];
    let base = F { resp: Resp::new(Framing::Length, 5), req: Req::get(), policy: Policy::Direct, ram: 4, max: 8, how: How::Split(1) };
    let pols = [Policy::Direct, Policy::Permit, Policy::Dispatch];
    for policy in pols {
        for framing in framings() {
            for len in [0, 1, 4, 5, 8, 9, 20] {
                let f = F { resp: Resp::new(framing.clone(), len), policy, ..base.clone() };
                // Dispatch switches threads, so is slower
                let n = match policy { Policy::Direct => 2, Policy::Permit => t.pick(1, 2), Policy::Dispatch => t.pick(1, 2) };
                v.push(F { how: How::Split(n), ..f.clone() });
                for end in [End::Close, End::Reset] {
                    if policy == Policy::Direct || matches!(len, 5 | 9) { v.push(F { how: How::Cut(end), ..f.clone() }); }
                }
                if matches!(len, 1 | 5 | 8 | 9) {
                    v.push(F { how: How::Orders(t.pick(2, 3)), ..f.clone() });
                }
                if policy == Policy::Direct { v.push(F { how: How::Stall, ..f.clone() }); }
                if matches!(len, 0 | 5 | 9) {
                    v.push(F { how: How::Fault, ..f.clone() });
                    if policy != Policy::Permit || len == 0 { v.push(F { how: How::Delay, ..f.clone() }); }
                }
            }
        }
        // Limits other
        for (ram, max) in [(0, 5), (5, 5), (0, 0), (5, 6), (6, 6), (u64::MAX, u64::MAX), (0, u64::MAX), (1 << 50, 1 << 50)] {
            for n in [100u64, 1 << 32, 1 << 50, (1 << 50) + 1, 1 << 62] { v.push(F { resp: Resp::new(Framing::Claim(n), 5), policy, ram, max, how: How::Cut(End::Close), ..base.clone() }); }
            for framing in framings() { v.push(F { resp: Resp::new(framing, 5), policy, ram, max, ..base.clone() }); v.push(F { resp: Resp::new(Framing::Length, 6), policy, ram, max, ..base.clone() }); }
        }
        // Larger
        for len in [9_000, 100_000] {
            for framing in [Framing::Length, Framing::Chunked(vec![1000, 1, 9_000]), Framing::Close] {
                for (ram, max) in [(200_000, 200_000), (5_000, 200_000), (5_000, len as u64), (5_000, len as u64 - 1), (0, 50_000)] {
                    v.push(F { resp: Resp::new(framing.clone(), len), policy, ram, max, how: How::Split(0), ..base.clone() });
                    v.push(F { resp: Resp::new(framing.clone(), len), policy, ram, max, how: How::Orders(1), ..base.clone() });
                }
            }
        }
        for framing in framings() {
            for (a, b) in [(5usize, 3usize), (3, 5), (0, 7)] {
                let mut resp = Resp::new(framing.clone(), a);
                resp.seed = b; // length of the other
                v.push(F { resp: resp.clone(), policy, how: How::Twice, ..base.clone() });
                let n = if policy == Policy::Dispatch { t.pick(1, 2) } else { t.pick(2, 3) };
                v.push(F { resp, policy, how: How::Both(n), ..base.clone() });
            }
        }
        // Requests with bodies
        for via in [Via::Hyper, Via::HyperImage, Via::Async, Via::AsyncUni, Via::Permit, Via::Dispatch] {
            match via { Via::Permit if policy != Policy::Permit => continue, Via::Dispatch if policy != Policy::Dispatch => continue, _ => {} }
            for post in [None, Some(0), Some(1), Some(5), Some(20_000)] {
                for file in [false, true] {
                    if (via == Via::Hyper || post.is_none() || post == Some(0)) && file { continue; }
                    let req = Req { via, post, file, n: 3 };
                    v.push(F { req, policy, how: How::Split(0), ..base.clone() });
                    v.push(F { req, policy, how: How::Orders(if th && post != Some(20_000) { 2 } else { 1 }), ..base.clone() });
                }
            }
        }
        // fetch()
        for framing in framings() {
            // No dispatch pool can be registered with the threads of fetch()
            let ram = if policy == Policy::Dispatch { 8 } else { 4 };
            for len in [0, 5, 9] { v.push(F { resp: Resp::new(framing.clone(), len), policy, ram, how: How::Fetch, ..base.clone() }); }
            v.push(F { resp: Resp::new(framing.clone(), 5), policy, ram, how: How::FetchStall, ..base.clone() });
        }
        v.push(F { policy, how: How::FetchRefused, ..base.clone() });
        v.push(F { policy, how: How::Refused, ..base.clone() });
    }
    // Heads
    for minor in [0, 1] {
        for status in [200, 204, 304, 404, 500, 299, 302, 599] {
            let bare = matches!(status, 204 | 304);
            for headers in [vec![], vec![("set-cookie", &b"a=1"[..]), ("Server", &b"z"[..]), ("set-cookie", &b"b=2"[..])],
                            vec![("X-Caf", &b"caf\xe9"[..]), ("x-empty", &b""[..]), ("connection", &b"close"[..])],
                            vec![("Content-Type", &b"text/html; charset=utf-8"[..]), ("content-encoding", &b"gzip"[..])]] {
                for framing in framings() {
                    if minor == 0 && matches!(framing, Framing::Chunked(_)) { continue; }
                    let framing = if bare { Framing::Bodiless } else { framing };
                    let mut resp = Resp::new(framing, if bare { 0 } else { 5 });
                    resp.minor = minor; resp.status = status; resp.headers = headers.clone();
                    v.push(F { resp, how: How::Split(1), ..base.clone() });
                    if bare { break; }
                }
            }
        }
    }
    v.push(F { how: How::Bad, ..base.clone() });
    v
}

static CACHE: Mutex<Option<(u8, Vec<F>)>> = Mutex::new(None);
fn cfg(t: Tier, i: usize) -> F {
    let mut c = CACHE.lock().unwrap_or_else(|e| e.into_inner());
    if c.as_ref().map(|c| c.0) != Some(t as u8) { *c = Some((t as u8, cfgs(t))); }
    c.as_ref().expect("made").1[i].clone()
}

// ---------------------------------------------------------------- running

/// Run under the environment of the policy
fn env<T>(policy: Policy, f: impl FnOnce() -> T) -> T {
    if policy != Policy::Dispatch { return f(); }
    sched::run(0, || {
        let pool = DispatchPool::builder().pool_size(1).ignore_panics(true).create();
        register_dispatch_pool(pool.clone());
        let r = f();
        drop(deregister_dispatch_pool());
        drop(pool);
        r
    })
}

fn one_exchange<B>(f: &F, reqs: &[Req], answer: Vec<Vec<Act>>, order: Order, refuse: bool) -> Res<Vec<Result<Dialog, FutioError>>>
    where B: http_body_of::Body + Send + 'static, B::Data: Send, B::Error: Into<Flaw>, http::request::Builder: RequestRecorder<B>
{
    let sem: Option<&'static Semaphore> = if f.policy == Policy::Permit { Some(Box::leak(Box::new(Semaphore::new(if order.held_permits { 0 } else { 2 })))) } else { None };
    let a = answer;
    let mut server = Server::new(Arc::new(move |p: &str| {
        for (i, acts) in a.iter().enumerate() { if p == format!("/p{}?q", i) { return acts.clone(); } }
        a[0].clone()
    }));
    server.refuse = refuse;
    let t = futio(f.policy, f.ram, f.max, &Timeouts::default(), sem);
    let ex = Exec::default();
    let client: hyper::Client<MemConnector, B> = hyper::Client::builder().executor(ex.clone()).build(MemConnector(server.clone()));
    // One permit per sink operation may be needed: as many as are waited for
    let add = if order.held_permits { 2 } else { 0 };
    let mut l = Loop { ex, server: &server, sem, add, dispatch: f.policy == Policy::Dispatch, orders: order.n, jobs: vec![] };
    let out: Arc<Mutex<Vec<Option<Result<Dialog, FutioError>>>>> = Arc::new(Mutex::new(reqs.iter().map(|_| None).collect()));
    for (i, rq) in reqs.iter().enumerate() {
        let fut = request_dialog(&client, rq.record::<B>(&t)?, t.clone());
        let o = out.clone();
        l.jobs.push(job(Box::pin(async move { let r = fut.await; o.lock().unwrap()[i] = Some(r); })));
        if !order.together { let o = out.clone(); l.until(move || o.lock().unwrap()[i].is_some())?; }
    }
    let o = out.clone();
    l.until(move || o.lock().unwrap().iter().all(|r| r.is_some()))?;
    let jobs = std::mem::take(&mut l.jobs);
    drop(l);
    drop(client);
    drop(jobs);
    let res: Vec<_> = out.lock().unwrap().iter_mut().filter_map(|r| r.take()).collect();
    // Whatever was answered was asked for
    if !refuse {
        let got = server.requests();
        for (i, rq) in reqs.iter().enumerate() {
            if res[i].is_err() { continue; }
            let mut found = false;
            let mut bad = String::new();
            for g in &got {
                match rq.received(g) { Ok(()) => found = true, Err(v) => bad = v.msg }
            }
            ensure!(found, K, "request not as recorded: {}", bad);
        }
    }
    Ok(res)
}

#[derive(Clone, Copy, Debug, Default)]
struct Order { n: usize, together: bool, held_permits: bool }

fn exchange(f: &F, reqs: &[Req], answer: Vec<Vec<Act>>, order: Order, refuse: bool) -> Res<Vec<Result<Dialog, FutioError>>> {
    env(f.policy, || match f.req.via {
        Via::Hyper | Via::HyperImage => one_exchange::<hyper::Body>(f, reqs, answer, order, refuse),
        Via::Async => one_exchange::<AsyncBodyImage<Bytes>>(f, reqs, answer, order, refuse),
        Via::AsyncUni => one_exchange::<AsyncBodyImage<UniBodyBuf>>(f, reqs, answer, order, refuse),
        Via::Permit => one_exchange::<PermitBodyImage<Bytes>>(f, reqs, answer, order, refuse),
        Via::Dispatch => one_exchange::<DispatchBodyImage<Bytes>>(f, reqs, answer, order, refuse),
    })
}

/// In virtual time, by a single threaded runtime
fn timed(f: &F, answer: Vec<Act>, t: &Timeouts) -> Res<Result<Dialog, FutioError>> {
    let rt = match tokio::runtime::Builder::new_current_thread().enable_time().build() { Ok(r) => r, Err(e) => engine_fail(&format!("runtime: {}", e)) };
    let sem: Option<&'static Semaphore> = if f.policy == Policy::Permit { Some(Box::leak(Box::new(Semaphore::new(2)))) } else { None };
    let tune = futio(f.policy, f.ram, f.max, t, sem);
    let server = Server::new(Arc::new(move |_p: &str| answer.clone()));
    let rr = f.req.record::<hyper::Body>(&tune)?;
    // Of no length, a pool runs operations in place
    if f.policy == Policy::Dispatch { register_dispatch_pool(DispatchPool::builder().queue_length(0).ignore_panics(true).create()); }
    let r = rt.block_on(async {
        tokio::time::pause();
        let client: hyper::Client<MemConnector, hyper::Body> = hyper::Client::builder().build(MemConnector(server.clone()));
        // As a task of its own, for the clock of tokio advances whenever the
        // task here is woken
        tokio::spawn(tokio::time::timeout(Duration::from_secs(1_000_000), request_dialog(&client, rr, tune))).await
    });
    drop(deregister_dispatch_pool());
    let r = match r { Ok(r) => r, Err(_) => bail!("panic", "panic: {}", panicked().unwrap_or_default()) };
    match r { Ok(r) => Ok(r), Err(_) => bail!(K, "no end of it, after a virtual 1,000,000 s") }
}

fn ends(f: &F) -> End { if f.resp.framing == Framing::Close { End::Close } else { End::Open } }

fn run(f: &F) -> Res {
    let (w, head) = f.resp.wire();
    let whole = expect(&f.resp, w.len(), ends(f), f.max);
    let none = Timeouts::default();
    let single = |acts: Vec<Act>, exp: &Exp, order: Order| -> Res {
        for r in exchange(f, &[f.req], vec![acts], order, false)? {
            observe(r.is_ok());
            judge(r, &f.resp, exp, &f.req, &none, f.ram)?;
        }
        Ok(())
    };
    match f.how {
        How::Split(n) => {
            let mut cuts = vec![];
            let mut lo = 0;
            for _ in 0..n {
                // Each next cut at or behind the last, none when at it
                let c = lo + choose(w.len() - lo);
                if c == lo && lo > 0 { break; }
                cuts.push(c);
                lo = c;
            }
            single(acts(&w, &cuts, ends(f), Act::Hold), &whole, Order::default())
        }
        How::Cut(end) => {
            let cut = choose(w.len() + 1);
            // in one piece, or the last byte apart
            let cuts = if flip() { vec![cut.saturating_sub(1)] } else { vec![] };
            let mut exp = expect(&f.resp, cut, end, f.max);
            // An answer which breaks off after it was complete may yet be an error
            if end == End::Reset && matches!(exp, Exp::Dialog(_)) && f.resp.framing == Framing::Close { exp = Exp::Error; }
            // More than is allowed may be noticed first
            let alt = over(f, cut) && exp == Exp::Error;
            tr!("  {:?} after {} of {} bytes (head {}): {:?}", end, cut, w.len(), head, exp);
            for r in exchange(f, &[f.req], vec![acts(&w[..cut], &cuts, end, Act::Hold)], Order::default(), false)? {
                observe(r.is_ok());
                if alt { ensure!(r.is_err(), K, "a dialog of a broken off response"); continue; }
                judge(r, &f.resp, &exp, &f.req, &none, f.ram)?;
            }
            Ok(())
        }
        How::Orders(n) => {
            let cuts = [one(&[1, head - 1, head, head + 1]).min(w.len())];
            single(acts(&w, &cuts, ends(f), Act::Hold), &whole, Order { n, held_permits: f.policy == Policy::Permit, ..Order::default() })
        }
        How::Fault => {
            let mut fs = Faults::new(1);
            let cut = [(head + choose(w.len() - head + 1)).min(w.len())];
            let a = acts(&w, &cut, ends(f), Act::Hold);
            let r = sys::with_handler(&mut fs, || exchange(f, &[f.req], vec![a], Order::default(), false))?;
            for r in r {
                observe((r.is_ok(), fs.errors));
                if fs.errors > 0 && r.is_err() { continue; }
                judge(r, &f.resp, &whole, &f.req, &none, f.ram)?;
            }
            Ok(())
        }
        How::Twice | How::Both(_) => {
            let together = matches!(f.how, How::Both(_));
            let n = if let How::Both(n) = f.how { n } else { 0 };
            let a = Resp { seed: 0, ..f.resp.clone() };
            let b = Resp { seed: 300, len: f.resp.seed, status: 404, ..f.resp.clone() };
            let reqs = [Req { n: 0, ..f.req }, Req { n: 1, ..f.req }];
            let (wa, wb) = (a.wire().0, b.wire().0);
            let (ca, cb) = if together { (vec![head], vec![]) } else { (vec![choose(wa.len())], vec![choose(wb.len())]) };
            let order = Order { n, together, ..Order::default() };
            let rs = exchange(f, &reqs, vec![acts(&wa, &ca, ends(f), Act::Hold), acts(&wb, &cb, ends(f), Act::Hold)], order, false)?;
            for (r, (resp, rq)) in rs.into_iter().zip([(&a, &reqs[0]), (&b, &reqs[1])]) {
                let exp = expect(resp, resp.wire().0.len(), ends(f), f.max);
                judge(r, resp, &exp, rq, &none, f.ram)?;
            }
            Ok(())
        }
        How::Stall => {
            let t = Timeouts { res: Some(Duration::from_secs(5)), body: Some(Duration::from_secs(70)) };
            let cut = choose(w.len() + 1);
            // either of them unset, if not that which is to apply
            let only = flip();
            let exp = if cut < head { Exp::ResTimeout }
                else if whole == Exp::TooLong && (f.resp.framing == Framing::Length || over(f, cut)) { Exp::TooLong }
                else if cut < w.len() || f.resp.framing == Framing::Close { Exp::BodyTimeout }
                else { whole.clone() };
            let t = if !only { t } else if exp == Exp::ResTimeout { Timeouts { body: None, ..t } } else { Timeouts { res: None, ..t } };
            tr!("  stalls after {} of {} bytes (head {}): {:?}", cut, w.len(), head, exp);
            let mut a = acts(&w[..cut], &[], End::Open, Act::Yield);
            a.push(Act::Stall);
            let r = timed(f, a, &t)?;
            observe(r.is_ok());
            // How much of a chunk is passed on before its end is not settled
            if exp == Exp::BodyTimeout && maybe_over(f, cut) { ensure!(r.is_err(), K, "a dialog of a stalled response"); return Ok(()); }
            judge(r, &f.resp, &exp, &f.req, &t, f.ram)
        }
        How::Delay => {
            let s = Duration::from_secs;
            let t = Timeouts { res: one(&[Some(s(3)), None]), body: one(&[Some(s(7)), None, Some(s(3))]) };
            // Delays before: half of the head, rest of the head, body, its last byte
            let d: Vec<u64> = (0..4).map(|_| one(&[0, 2, 4, 8])).collect();
            let late_res = t.res.map_or(false, |r| s(d[0] + d[1]) > r);
            // Any content is received no earlier than it is sent
            let (pieces, total_body) = {
                let mut v = vec![];
                v.push((d[0], &w[..head / 2]));
                v.push((d[1], &w[head / 2..head]));
                let mut sum = 0;
                if w.len() > head + 1 { v.push((d[2], &w[head..w.len() - 1])); sum += d[2]; }
                if w.len() > head { v.push((d[3], &w[w.len() - 1..])); sum += d[3]; }
                (v, sum)
            };
            let late_body = t.body.map_or(false, |b| s(total_body) > b);
            let mut a = vec![];
            for (d, p) in pieces { if d > 0 { a.push(Act::Sleep(s(d))); } a.push(Act::Send(p.to_vec())); }
            if ends(f) == End::Close { a.push(Act::Close); }
            let exp = if late_res { Exp::ResTimeout }
                else if whole == Exp::TooLong && f.resp.framing == Framing::Length { Exp::TooLong }
                else if late_body { Exp::BodyTimeout }
                else { whole.clone() };
            tr!("  delays {:?} timeouts {:?}: {:?}", d, t, exp);
            let r = timed(f, a, &t)?;
            observe(r.is_ok());
            if exp == Exp::BodyTimeout && whole == Exp::TooLong { ensure!(r.is_err(), K, "a dialog of a late response"); return Ok(()); }
            judge(r, &f.resp, &exp, &f.req, &t, f.ram)
        }
        How::Fetch | How::FetchStall | How::FetchRefused => {
            let stall = matches!(f.how, How::FetchStall);
            let refuse = matches!(f.how, How::FetchRefused);
            let (a, exp, t) = if stall {
                let cut = one(&[0, 1, head - 1, head, head + 1, w.len() - 1]);
                let tiny = Some(Duration::from_millis(20));
                let long = Some(Duration::from_secs(600));
                let mut a = acts(&w[..cut], &[], End::Open, Act::Yield);
                a.push(Act::Stall);
                if cut < head { (a, Exp::ResTimeout, Timeouts { res: tiny, body: long }) } else { (a, Exp::BodyTimeout, Timeouts { res: None, body: tiny }) }
            } else {
                let c = choose(w.len());
                (acts(&w, &[c], ends(f), Act::Yield), if refuse { Exp::Error } else { whole.clone() }, none)
            };
            let mut server = Server::new(Arc::new(move |_p: &str| a.clone()));
            server.refuse = refuse;
            set_server(Some(server));
            let sem: Option<&'static Semaphore> = if f.policy == Policy::Permit { Some(Box::leak(Box::new(Semaphore::new(2)))) } else { None };
            let tune = futio(f.policy, f.ram, f.max, &t, sem);
            let rr = f.req.record::<hyper::Body>(&tune)?;
            let r = catch(|| fetch(rr, tune));
            set_server(None);
            match r {
                Ok(r) => { observe(r.is_ok()); judge(r, &f.resp, &exp, &f.req, &t, f.ram) }
                Err(m) => bail!("panic", "{}", m),
            }
        }
        How::Refused => {
            for r in exchange(f, &[f.req], vec![vec![]], Order::default(), true)? { ensure!(r.is_err(), K, "a dialog without a connection"); }
            Ok(())
        }
        How::Bad => {
            let bad: [&[u8]; 8] = [b"garbage\r\n\r\n", b"HTTP/1.1 20\r\n\r\n", b"HTTP/1.1 200 OK\r\ncontent-length: x\r\n\r\nab", b"HTTP/1.1 200 OK\r\nbad header\r\n\r\n",
                b"HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\nzz\r\n", b"HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\n3\r\nabcd\r\n0\r\n\r\n",
                b"HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\n3\r\nabc\r\n", b"HTTP/1.1 200 OK\r\ncontent-length: 5, 6\r\n\r\nabcdef"];
            let w = one(&bad);
            let c = choose(w.len());
            for r in exchange(f, &[f.req], vec![acts(w, &[c], End::Close, Act::Hold)], Order::default(), false)? {
                ensure!(r.is_err(), K, "a dialog of the malformed {}", String::from_utf8_lossy(w));
            }
            Ok(())
        }
    }
}

/// Content sent within `cut` bytes (at least, at most) of the response
fn sent(f: &F, cut: usize) -> (usize, usize) {
    let (_, head) = f.resp.wire();
    if cut <= head { return (0, 0); }
    match &f.resp.framing {
        Framing::Chunked(sizes) => {
            let (mut at, mut n, mut i) = (head, 0, 0);
            while n < f.resp.len {
                let c = sizes[i.min(sizes.len() - 1)].min(f.resp.len - n);
                let pre = format!("{:x}\r\n", c).len();
                if at + pre + c + 2 > cut {
                    return (n, n + cut.saturating_sub(at + pre).min(c));
                }
                at += pre + c + 2;
                n += c;
                i += 1;
            }
            (n, n)
        }
        _ => (cut - head, cut - head),
    }
}
fn over(f: &F, cut: usize) -> bool { sent(f, cut).0 as u64 > f.max }
fn maybe_over(f: &F, cut: usize) -> bool { sent(f, cut).1 as u64 > f.max }

impl Check for C27 {
    fn id(&self) -> &'static str { "C27" }
    fn level(&self) -> &'static str { "model_checking" }
    fn rule(&self, t: Tier) -> String {
        format!("responses of length, chunked or closing framing, of lengths around the limits, of each version and of several statuses and headers; \
            in every split into up to {} pieces, broken off or stalled at every byte, delayed in virtual time, in every order of tasks, server and permits with up to {} deviations, \
            with each file operation failing; under each blocking policy; alone, in sequence on one connection and concurrently; by request_dialog() on a controlled executor and by fetch()",
            3, t.pick(2, 3))
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["connections are in memory, by a stand-in for hyper-tls; hyper and tokio are those of the cargo cache", "timeouts under the permit policy only with bodies in RAM, or by fetch()"] }
    fn configs(&self, t: Tier) -> usize { cfgs(t).len() }
    fn describe(&self, t: Tier, i: usize) -> String { format!("{:?}", cfg(t, i)) }
    fn run(&self, t: Tier, i: usize) -> Res { run(&cfg(t, i)) }
}
