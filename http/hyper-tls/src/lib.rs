//! Stands in for `hyper-tls`: a connector to an in-memory server, which sends
//! what a script says.

use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use hyper::client::connect::{Connected, Connection};
use hyper::service::Service;
use hyper::Uri;
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

/// What the server does next, once it has the request
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Send(Vec<u8>),
    /// Yield once, being woken at once
    Yield,
    /// Until `Server::deliver`
    Hold,
    Sleep(Duration),
    Stall,
    Reset,
    Close,
}

/// A connection as seen by the server
#[derive(Default)]
pub struct Conn {
    pub received: Vec<u8>,
    /// Remaining acts of the response under way
    pub acts: VecDeque<Act>,
    pub taken: usize,
    pub waker: Option<Waker>,
    pub closed: bool,
    sleep: Option<Pin<Box<tokio::time::Sleep>>>,
}

/// Given a request path, the acts in response to it
pub type Answer = Arc<dyn Fn(&str) -> Vec<Act> + Send + Sync>;

#[derive(Clone)]
pub struct Server { pub conns: Arc<Mutex<Vec<Arc<Mutex<Conn>>>>>, pub answer: Answer, pub refuse: bool, pub log: Option<String> }

impl Server {
    pub fn new(answer: Answer) -> Server { Server { conns: Default::default(), answer, refuse: false, log: None } }

    /// Whether any connection waits to be let on
    pub fn held(&self) -> Vec<usize> {
        let v = self.conns.lock().unwrap();
        (0..v.len()).filter(|i| v[*i].lock().unwrap().acts.front() == Some(&Act::Hold)).collect()
    }

    /// Let a connection go on
    pub fn deliver(&self, i: usize) {
        let c = self.conns.lock().unwrap()[i].clone();
        let mut c = c.lock().unwrap();
        if c.acts.front() == Some(&Act::Hold) { c.acts.pop_front(); }
        let w = c.waker.take();
        drop(c);
        if let Some(w) = w { w.wake(); }
    }

    /// Complete requests received
    pub fn requests(&self) -> Vec<Vec<u8>> {
        let mut v = vec![];
        for c in self.conns.lock().unwrap().iter() {
            let c = c.lock().unwrap();
            let mut at = 0;
            while let Some((n, _)) = request_len(&c.received[at..]) {
                v.push(c.received[at..at + n].to_vec());
                at += n;
            }
        }
        v
    }
}

/// Length of the first request in `b`, and its path, when complete
pub fn request_len(b: &[u8]) -> Option<(usize, String)> {
    let head = b.windows(4).position(|w| w == b"\r\n\r\n")? + 4;
    let text = String::from_utf8_lossy(&b[..head]).to_string();
    let path = text.split(' ').nth(1).unwrap_or("").to_string();
    let low = text.to_ascii_lowercase();
    if low.contains("transfer-encoding: chunked") {
        let mut at = head;
        loop {
            let eol = b[at..].windows(2).position(|w| w == b"\r\n")? + at;
            let n = usize::from_str_radix(std::str::from_utf8(&b[at..eol]).ok()?.trim(), 16).ok()?;
            at = eol + 2 + n + 2;
            if b.len() < at { return None; }
            if n == 0 { return Some((at, path)); }
        }
    }
    let n = low.lines().find_map(|l| l.strip_prefix("content-length: ").map(|v| v.trim().parse::<usize>().unwrap_or(0))).unwrap_or(0);
    if b.len() < head + n { return None; }
    Some((head + n, path))
}

pub struct MemStream { conn: Arc<Mutex<Conn>>, answer: Answer, log: Option<String> }

impl AsyncRead for MemStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut c = self.conn.lock().unwrap();
        loop {
            match c.acts.front_mut() {
                Some(Act::Send(b)) => {
                    let n = b.len().min(buf.remaining());
                    buf.put_slice(&b[..n]);
                    b.drain(..n);
                    let empty = b.is_empty();
                    if empty { c.acts.pop_front(); }
                    if n == 0 && empty { continue; }
                    return Poll::Ready(Ok(()));
                }
                Some(Act::Yield) => {
                    c.acts.pop_front();
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
                Some(Act::Sleep(d)) => {
                    let d = *d;
                    if c.sleep.is_none() { c.sleep = Some(Box::pin(tokio::time::sleep(d))); }
                    if let Some(s) = c.sleep.as_mut() {
                        if s.as_mut().poll(cx).is_pending() { return Poll::Pending; }
                    }
                    c.sleep = None;
                    c.acts.pop_front();
                }
                Some(Act::Reset) => return Poll::Ready(Err(io::Error::new(io::ErrorKind::ConnectionReset, "injected reset"))),
                Some(Act::Close) => return Poll::Ready(Ok(())),
                Some(Act::Hold) | Some(Act::Stall) | None => {
                    c.waker = Some(cx.waker().clone());
                    return Poll::Pending;
                }
            }
        }
    }
}

impl AsyncWrite for MemStream {
    fn poll_write(self: Pin<&mut Self>, _cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let mut c = self.conn.lock().unwrap();
        c.received.extend_from_slice(b);
        // Answer each request, when it is complete
        while let Some((n, path)) = request_len(&c.received[c.taken..]) {
            if let Some(f) = &self.log {
                use std::io::Write;
                let mut f = std::fs::OpenOptions::new().create(true).append(true).open(f).expect("log");
                f.write_all(&c.received[c.taken..c.taken + n]).expect("log");
            }
            c.taken += n;
            let a = (self.answer)(&path);
            c.acts.extend(a);
            if let Some(w) = c.waker.take() { w.wake(); }
        }
        Poll::Ready(Ok(b.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
}

impl Drop for MemStream {
    fn drop(&mut self) { if let Ok(mut c) = self.conn.lock() { c.closed = true; c.sleep = None; c.waker = None; } }
}

impl Connection for MemStream {
    fn connected(&self) -> Connected { Connected::new() }
}

#[derive(Clone)]
pub struct MemConnector(pub Server);

impl Service<Uri> for MemConnector {
    type Response = MemStream;
    type Error = io::Error;
    type Future = Pin<Box<dyn Future<Output = Result<MemStream, io::Error>> + Send>>;
    fn poll_ready(&mut self, _cx: &mut Context<'_>) -> Poll<Result<(), io::Error>> { Poll::Ready(Ok(())) }
    fn call(&mut self, _dst: Uri) -> Self::Future {
        let s = self.0.clone();
        Box::pin(async move {
            if s.refuse { return Err(io::Error::from(io::ErrorKind::ConnectionRefused)); }
            let conn = Arc::new(Mutex::new(Conn::default()));
            s.conns.lock().unwrap().push(conn.clone());
            Ok(MemStream { conn, answer: s.answer.clone(), log: s.log.clone() })
        })
    }
}

static SERVER: Mutex<Option<Server>> = Mutex::new(None);

/// Server for connectors made by `HttpsConnector::new`
pub fn set_server(s: Option<Server>) { *SERVER.lock().unwrap() = s; }

/// Used under this name by the code under test
pub struct HttpsConnector;
impl HttpsConnector {
    #[allow(clippy::new_ret_no_self)]
    pub fn new() -> MemConnector {
        let s = SERVER.lock().unwrap().clone();
        MemConnector(s.unwrap_or_else(scripted))
    }
}

// A server by the file named in the environment: a line per act, with any
// bytes in hex. Requests are appended to the file named so with ".req".
fn scripted() -> Server {
    let file = std::env::var("MC_SCRIPT").expect("MC_SCRIPT");
    let text = std::fs::read_to_string(&file).expect("script");
    let mut acts = vec![];
    let mut refuse = false;
    for l in text.lines() {
        let mut w = l.split(' ');
        match w.next() {
            Some("send") => {
                let h = w.next().unwrap_or("").as_bytes();
                acts.push(Act::Send(h.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).expect("hex"), 16).expect("hex")).collect()));
            }
            Some("yield") => acts.push(Act::Yield),
            Some("close") => acts.push(Act::Close),
            Some("reset") => acts.push(Act::Reset),
            Some("refuse") => refuse = true,
            _ => panic!("script: {}", l),
        }
    }
    let mut s = Server::new(Arc::new(move |_p: &str| acts.clone()));
    s.log = Some(file + ".req");
    s.refuse = refuse;
    s
}
