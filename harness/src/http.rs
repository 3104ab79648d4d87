//! A raw HTTP/1.1 client and a scripted HTTP server on loopback, independent of the HTTP libraries
//! the code under test uses, plus a small event-stream decoder.
use std::collections::VecDeque;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

pub const PATIENCE: Duration = Duration::from_secs(30);

#[derive(Clone, Debug, Default)]
pub struct Resp {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
impl Resp {
    pub fn header(&self, name: &str) -> Option<&str> {
        self.headers.iter().find(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str())
    }
    pub fn text(&self) -> String { String::from_utf8_lossy(&self.body).into_owned() }
    pub fn events(&self) -> Vec<Event> { let mut d = Events::default(); d.feed(&self.text()) }
}

pub type Headers = Vec<(String, Vec<u8>)>;
pub fn h(k: &str, v: impl AsRef<[u8]>) -> (String, Vec<u8>) { (k.to_string(), v.as_ref().to_vec()) }

fn request_bytes(method: &str, path: &str, headers: &Headers, body: &[u8], close: bool) -> Vec<u8> {
    let mut out = format!("{method} {path} HTTP/1.1\r\nHost: localhost\r\n").into_bytes();
    for (k, v) in headers { out.extend(k.as_bytes()); out.extend(b": "); out.extend(v); out.extend(b"\r\n"); }
    if close { out.extend(b"Connection: close\r\n"); }
    if method == "POST" || !body.is_empty() { out.extend(format!("Content-Length: {}\r\n", body.len()).as_bytes()); }
    out.extend(b"\r\n");
    out.extend(body);
    out
}

/// One request on a connection of its own; `None` when no whole reply came in time.
pub async fn request(addr: SocketAddr, method: &str, path: &str, headers: &Headers, body: &[u8]) -> Option<Resp> {
    tokio::time::timeout(PATIENCE, async {
        let mut s = TcpStream::connect(addr).await.ok()?;
        s.write_all(&request_bytes(method, path, headers, body, true)).await.ok()?;
        let mut all = vec![];
        s.read_to_end(&mut all).await.ok()?;
        let (mut r, rest) = head(&all)?;
        r.body = if r.header("transfer-encoding").is_some_and(|v| v.contains("chunked")) { let mut c = Chunks::default(); c.feed(rest) } else { rest.to_vec() };
        Some(r)
    }).await.ok().flatten()
}

/// The same request on as many connections of their own, all but its last bytes sent beforehand and those then at once.
pub async fn together(addr: SocketAddr, n: usize, method: &str, path: &str, headers: &Headers, body: &[u8]) -> Vec<Option<Resp>> {
    let bytes = request_bytes(method, path, headers, body, true);
    let cut = bytes.len() - 1;
    let mut socks = vec![];
    for _ in 0..n {
        let Ok(mut s) = TcpStream::connect(addr).await else { return vec![None; n] };
        s.set_nodelay(true).ok();
        if s.write_all(&bytes[..cut]).await.is_err() { return vec![None; n]; }
        socks.push(s);
    }
    tokio::time::sleep(Duration::from_millis(1)).await;
    for s in &socks { let _ = s.try_write(&bytes[cut..]); }
    let mut out = vec![];
    for mut s in socks {
        let got = tokio::time::timeout(PATIENCE, async {
            let mut all = vec![];
            // A stream does not end: its head is enough.
            loop {
                let mut tmp = [0u8; 4096];
                let k = s.read(&mut tmp).await.ok()?;
                all.extend(&tmp[..k]);
                if let Some((r, _)) = head(&all) { return Some((r, s)); }
                if k == 0 { return None; }
            }
        }).await.ok().flatten();
        out.push(got);
    }
    // Every connection stays open until all have their reply.
    out.into_iter().map(|x| x.map(|(r, _)| r)).collect()
}

fn head(all: &[u8]) -> Option<(Resp, &[u8])> {
    let end = all.windows(4).position(|w| w == b"\r\n\r\n")?;
    let text = String::from_utf8_lossy(&all[..end]).into_owned();
    let mut lines = text.split("\r\n");
    let status = lines.next()?.split(' ').nth(1)?.parse().ok()?;
    let headers = lines.filter_map(|l| l.split_once(':').map(|(k, v)| (k.to_string(), v.trim().to_string()))).collect();
    Some((Resp { status, headers, body: vec![] }, &all[end + 4..]))
}

/// Decoder of the chunked transfer coding.
#[derive(Default)]
pub struct Chunks { buf: Vec<u8>, pub ended: bool }
impl Chunks {
    pub fn feed(&mut self, data: &[u8]) -> Vec<u8> {
        self.buf.extend(data);
        let mut out = vec![];
        loop {
            let Some(eol) = self.buf.windows(2).position(|w| w == b"\r\n") else { return out };
            let Ok(n) = usize::from_str_radix(String::from_utf8_lossy(&self.buf[..eol]).split(';').next().unwrap_or("").trim(), 16) else { return out };
            if n == 0 { self.ended = true; return out; }
            if self.buf.len() < eol + 2 + n + 2 { return out; }
            out.extend(&self.buf[eol + 2..eol + 2 + n]);
            self.buf.drain(..eol + 2 + n + 2);
        }
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Event { pub id: Option<String>, pub event: Option<String>, pub data: String }
/// Decoder of LF-terminated event streams.
#[derive(Default)]
pub struct Events { buf: String, cur: Event, has: bool }
impl Events {
    pub fn feed(&mut self, text: &str) -> Vec<Event> {
        self.buf.push_str(text);
        let mut out = vec![];
        while let Some(i) = self.buf.find('\n') {
            let line: String = self.buf.drain(..=i).collect();
            let line = line.trim_end_matches(['\r', '\n']);
            if line.is_empty() {
                if self.has { out.push(std::mem::take(&mut self.cur)); } else { self.cur = Event::default(); }
                self.has = false;
                continue;
            }
            let (k, v) = line.split_once(':').unwrap_or((line, ""));
            let v = v.strip_prefix(' ').unwrap_or(v);
            match k {
                "id" => self.cur.id = Some(v.into()),
                "event" => self.cur.event = Some(v.into()),
                "data" => { if self.has { self.cur.data.push('\n'); } self.cur.data.push_str(v); self.has = true; }
                _ => {}
            }
        }
        out
    }
}

/// A live event stream opened with GET.
pub struct Live { sock: TcpStream, pub resp: Resp, chunks: Chunks, events: Events, pub ready: VecDeque<Event>, pub ended: bool }
impl Live {
    /// The reply to a GET: a live stream when it succeeded, else the whole reply.
    pub async fn open(addr: SocketAddr, path: &str, headers: &Headers) -> Option<Result<Live, Resp>> {
        tokio::time::timeout(PATIENCE, async {
            let mut s = TcpStream::connect(addr).await.ok()?;
            s.write_all(&request_bytes("GET", path, headers, b"", false)).await.ok()?;
            let mut all = vec![];
            let mut buf = [0u8; 4096];
            loop {
                if let Some((r, rest)) = head(&all) {
                    let rest = rest.to_vec();
                    if r.status == 200 {
                        let mut l = Live { sock: s, resp: r, chunks: Chunks::default(), events: Events::default(), ready: VecDeque::new(), ended: false };
                        l.take(&rest);
                        return Some(Ok(l));
                    }
                    return Some(Err(r));
                }
                let n = s.read(&mut buf).await.ok()?;
                if n == 0 { return None; }
                all.extend(&buf[..n]);
            }
        }).await.ok().flatten()
    }
    fn take(&mut self, bytes: &[u8]) {
        let data = self.chunks.feed(bytes);
        let text = String::from_utf8_lossy(&data).into_owned();
        self.ready.extend(self.events.feed(&text));
        if self.chunks.ended { self.ended = true; }
    }
    /// The next event; `None` when the stream ended or nothing came for `wait`.
    pub async fn next(&mut self, wait: Duration) -> Option<Event> {
        let until = tokio::time::Instant::now() + wait;
        loop {
            if let Some(e) = self.ready.pop_front() { return Some(e); }
            if self.ended { return None; }
            let mut buf = [0u8; 4096];
            match tokio::time::timeout_at(until, self.sock.read(&mut buf)).await {
                Err(_) => return None,
                Ok(Ok(n)) if n > 0 => self.take(&buf[..n].to_vec()),
                _ => self.ended = true,
            }
        }
    }
}

// ------------------------------------------------------------------ scripted server

#[derive(Clone, Debug)]
pub struct Req { pub method: String, pub path: String, pub headers: Vec<(String, String)>, pub body: Vec<u8> }
impl Req {
    pub fn header(&self, name: &str) -> Option<&str> {
        self.headers.iter().find(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str())
    }
    pub fn text(&self) -> String { String::from_utf8_lossy(&self.body).into_owned() }
}
/// What the scripted server does with a request.
#[derive(Clone, Debug)]
pub enum Act {
    /// A whole reply.
    Reply { status: u16, headers: Vec<(String, String)>, body: Vec<u8> },
    /// A chunked reply: one chunk per piece, each after a pause in milliseconds; then the end, or,
    /// when `cut`, the connection is dropped without one, or, when `hold`, it is left open.
    Stream { status: u16, headers: Vec<(String, String)>, pieces: Vec<(Vec<u8>, u64)>, cut: bool, hold: bool },
    /// The connection is closed without a reply.
    Drop,
    /// No reply ever.
    Hang,
    /// A chunked reply fed from outside until the feed or the client ends it; the flag tells of the latter.
    Feed { headers: Vec<(String, String)>, feed: Arc<tokio::sync::Mutex<tokio::sync::mpsc::UnboundedReceiver<Vec<u8>>>>, gone: Arc<std::sync::atomic::AtomicBool> },
}
pub type Script = Arc<dyn Fn(&Req, usize) -> Act + Send + Sync>;
pub struct Scripted { pub addr: SocketAddr, pub seen: Arc<Mutex<Vec<Req>>>, task: tokio::task::JoinHandle<()> }
impl Drop for Scripted { fn drop(&mut self) { self.task.abort(); } }
impl Scripted {
    pub async fn start(script: Script) -> Scripted {
        let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
        let addr = l.local_addr().unwrap();
        let seen: Arc<Mutex<Vec<Req>>> = Arc::default();
        let s2 = seen.clone();
        let task = tokio::spawn(async move {
            let mut conns = tokio::task::JoinSet::new();
            loop {
                let Ok((s, _)) = l.accept().await else { return };
                conns.spawn(serve(s, script.clone(), s2.clone()));
                while conns.try_join_next().is_some() {}
            }
        });
        Scripted { addr, seen, task }
    }
    pub fn requests(&self) -> Vec<Req> { self.seen.lock().unwrap().clone() }
}
async fn serve(mut s: TcpStream, script: Script, seen: Arc<Mutex<Vec<Req>>>) {
    s.set_nodelay(true).ok();
    let mut buf: Vec<u8> = vec![];
    let mut tmp = [0u8; 8192];
    loop {
        let end = loop {
            if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") { break i; }
            match s.read(&mut tmp).await { Ok(n) if n > 0 => buf.extend(&tmp[..n]), _ => return }
        };
        let text = String::from_utf8_lossy(&buf[..end]).into_owned();
        let mut lines = text.split("\r\n");
        let mut first = lines.next().unwrap_or("").split(' ');
        let (method, path) = (first.next().unwrap_or("").to_string(), first.next().unwrap_or("").to_string());
        let headers: Vec<(String, String)> = lines.filter_map(|l| l.split_once(':').map(|(k, v)| (k.to_string(), v.trim().to_string()))).collect();
        let len: usize = headers.iter().find(|(k, _)| k.eq_ignore_ascii_case("content-length")).and_then(|(_, v)| v.parse().ok()).unwrap_or(0);
        buf.drain(..end + 4);
        while buf.len() < len { match s.read(&mut tmp).await { Ok(n) if n > 0 => buf.extend(&tmp[..n]), _ => return } }
        let req = Req { method, path, headers, body: buf.drain(..len).collect() };
        let n = { let mut v = seen.lock().unwrap(); v.push(req.clone()); v.len() - 1 };
        match script(&req, n) {
            Act::Drop => return,
            Act::Hang => { std::future::pending::<()>().await; }
            Act::Feed { headers, feed, gone } => {
                let mut out = "HTTP/1.1 200 X\r\nTransfer-Encoding: chunked\r\n".as_bytes().to_vec();
                for (k, v) in headers { out.extend(format!("{k}: {v}\r\n").as_bytes()); }
                out.extend(b"\r\n");
                if s.write_all(&out).await.is_err() { return; }
                let mut feed = feed.lock().await;
                loop {
                    tokio::select! {
                        p = feed.recv() => {
                            let Some(p) = p else { let _ = s.write_all(b"0\r\n\r\n").await; return };
                            let mut out = format!("{:x}\r\n", p.len()).into_bytes();
                            out.extend(&p);
                            out.extend(b"\r\n");
                            if s.write_all(&out).await.is_err() { gone.store(true, std::sync::atomic::Ordering::SeqCst); return; }
                        }
                        n = s.read(&mut tmp) => if !matches!(n, Ok(n) if n > 0) { gone.store(true, std::sync::atomic::Ordering::SeqCst); return; },
                    }
                }
            }
            Act::Reply { status, headers, body } => {
                let mut out = format!("HTTP/1.1 {status} X\r\n").into_bytes();
                for (k, v) in headers { out.extend(format!("{k}: {v}\r\n").as_bytes()); }
                if status != 204 { out.extend(format!("Content-Length: {}\r\n", body.len()).as_bytes()); }
                out.extend(b"\r\n");
                out.extend(&body);
                if s.write_all(&out).await.is_err() { return; }
            }
            Act::Stream { status, headers, pieces, cut, hold } => {
                let mut out = format!("HTTP/1.1 {status} X\r\nTransfer-Encoding: chunked\r\n").into_bytes();
                for (k, v) in headers { out.extend(format!("{k}: {v}\r\n").as_bytes()); }
                out.extend(b"\r\n");
                if s.write_all(&out).await.is_err() { return; }
                for (p, ms) in pieces {
                    if ms > 0 { tokio::time::sleep(Duration::from_millis(ms)).await; } else { tokio::task::yield_now().await; }
                    if p.is_empty() { continue; }
                    let mut out = format!("{:x}\r\n", p.len()).into_bytes();
                    out.extend(&p);
                    out.extend(b"\r\n");
                    if s.write_all(&out).await.is_err() || s.flush().await.is_err() { return; }
                }
                if cut { return; }
                if hold { std::future::pending::<()>().await; }
                if s.write_all(b"0\r\n\r\n").await.is_err() { return; }
            }
        }
    }
}
