//! C25: WebSocket connections, both roles, observed against a scripted peer that speaks raw WebSocket.
use futures::{SinkExt, StreamExt};
use mon::wire::{self, Gen};
use mon::{Check, Mon, Rng};
use pmcp::server::transport::websocket::{WebSocketServerConfig, WebSocketServerTransport};
use pmcp::shared::{StdioTransport, Transport, TransportMessage, WebSocketConfig, WebSocketTransport};
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::Notify;
use tokio_tungstenite::tungstenite::protocol::frame::coding::{Data, OpCode};
use tokio_tungstenite::tungstenite::protocol::frame::Frame;
use tokio_tungstenite::tungstenite::Message;
use tokio_tungstenite::WebSocketStream;

fn main() {
    mon::main(&[Check { id: "C25", rule: "one WebSocket connection driven through a script of messages, control and malformed frames and an ending; non-trivial when it carried a message", run: c25 }]);
}

const PATIENCE: Duration = Duration::from_secs(12);

/// What the raw peer does, in order.
#[derive(Debug, Clone)]
enum Op {
    Msg(Value),
    Fragments(Value, Vec<usize>, bool),
    Junk(String),
    Binary(Vec<u8>),
    Ping(Vec<u8>),
    Pong(Vec<u8>),
    Pause(u64),
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum End { SutClosesAtOnce, SutClosesLater, PeerCloses, PeerHangsUp, PeerResets }

#[derive(Default)]
struct PeerLog { got: Vec<String>, other: Vec<String>, pongs: Vec<Vec<u8>>, pings: usize, closed: Option<String> }
#[derive(Clone, Default)]
struct Log(Arc<Mutex<PeerLog>>, Arc<Notify>);
impl Log {
    async fn until(&self, mut f: impl FnMut(&PeerLog) -> bool) -> bool {
        let t0 = Instant::now();
        loop {
            let n = self.1.notified();
            if f(&self.0.lock().unwrap()) { return true; }
            if t0.elapsed() > PATIENCE { return false; }
            let _ = tokio::time::timeout(Duration::from_millis(50), n).await;
        }
    }
}

/// The raw peer: runs the script, then waits for `expect` texts (unless it is to end early), then ends.
async fn peer(ws: WebSocketStream<TcpStream>, ops: Vec<Op>, expect: usize, wait: bool, end: End, log: Log) -> Vec<String> {
    let mut trouble = vec![];
    let raw = unsafe { libc::dup(std::os::fd::AsRawFd::as_raw_fd(ws.get_ref())) };
    let (mut sink, mut stream) = ws.split();
    let l = log.clone();
    let reader = tokio::spawn(async move {
        let why = loop {
            match stream.next().await {
                None => break "end".to_string(),
                Some(Err(e)) => break format!("error: {e}"),
                Some(Ok(m)) => {
                    let mut g = l.0.lock().unwrap();
                    match m {
                        Message::Text(t) => g.got.push(t.to_string()),
                        Message::Pong(p) => g.pongs.push(p.to_vec()),
                        Message::Ping(_) => g.pings += 1,
                        Message::Close(c) => g.closed = Some(format!("close frame {c:?}")),
                        o => g.other.push(format!("{o:?}").chars().take(80).collect()),
                    }
                },
            }
            l.1.notify_waiters();
        };
        let mut g = l.0.lock().unwrap();
        if g.closed.is_none() { g.closed = Some(why); }
        drop(g);
        l.1.notify_waiters();
        stream
    });
    for op in ops {
        let sent = match op {
            Op::Msg(v) => sink.send(Message::text(v.to_string())).await,
            Op::Junk(t) => sink.send(Message::text(t)).await,
            Op::Binary(b) => sink.send(Message::binary(b)).await,
            Op::Pong(b) => sink.send(Message::Pong(b.into())).await,
            Op::Pause(us) => { tokio::time::sleep(Duration::from_micros(us)).await; Ok(()) },
            Op::Ping(b) => {
                let before = log.0.lock().unwrap().pongs.iter().filter(|p| **p == b).count();
                let r = sink.send(Message::Ping(b.clone().into())).await;
                if r.is_ok() && !log.until(|g| g.closed.is_some() || g.pongs.iter().filter(|p| **p == b).count() > before).await {
                    trouble.push(format!("ping {b:?} was not answered"));
                }
                r
            },
            Op::Fragments(v, cuts, pings) => {
                let t = v.to_string().into_bytes();
                let mut at = 0;
                let mut r = Ok(());
                for (k, c) in cuts.iter().chain([&t.len()]).enumerate() {
                    let op = if k == 0 { Data::Text } else { Data::Continue };
                    r = sink.send(Message::Frame(Frame::message(t[at..*c].to_vec(), OpCode::Data(op), *c == t.len()))).await;
                    at = *c;
                    if r.is_err() { break; }
                    if pings && *c < t.len() { r = sink.send(Message::Ping(vec![1, 2].into())).await; }
                }
                r
            },
        };
        if let Err(e) = sent { trouble.push(format!("peer could not send: {e}")); break; }
    }
    if wait && !log.until(|g| g.got.len() >= expect || g.closed.is_some()).await {
        trouble.push(format!("only {} of {expect} messages arrived at the peer", log.0.lock().unwrap().got.len()));
    }
    match end {
        End::PeerCloses => { let _ = sink.send(Message::Close(None)).await; },
        End::PeerHangsUp => unsafe { libc::shutdown(raw, libc::SHUT_WR); },
        End::PeerResets => unsafe {
            let l = libc::linger { l_onoff: 1, l_linger: 0 };
            libc::setsockopt(raw, libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of_val(&l) as u32);
        },
        _ => {},
    }
    if end == End::PeerHangsUp {
        // leaves nothing unread, which would reset the connection
        for _ in 0..5000 {
            let mut b = [0u8; 4096];
            if log.0.lock().unwrap().closed.is_none() { tokio::time::sleep(Duration::from_millis(1)).await; continue; }
            let n = unsafe { libc::recv(raw, b.as_mut_ptr() as *mut _, b.len(), libc::MSG_DONTWAIT) };
            if n == 0 || (n < 0 && std::io::Error::last_os_error().kind() != std::io::ErrorKind::WouldBlock) { break; }
            if n < 0 { tokio::time::sleep(Duration::from_millis(1)).await; }
        }
    }
    if end != End::PeerResets {
        if !log.until(|g| g.closed.is_some()).await { trouble.push(format!("the peer never saw the end of the connection ({end:?})")); }
        // answers a close frame
        let _ = tokio::time::timeout(Duration::from_secs(2), sink.close()).await;
    }
    reader.abort();
    let _ = reader.await;
    drop(sink);
    unsafe { libc::close(raw); }
    trouble
}

fn text_of(m: &TransportMessage) -> Value {
    StdioTransport::serialize_message(m).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null)
}

fn junk(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => r.string(20),
        2 => "{\"jsonrpc\":\"2.0\"".into(),
        3 => json!({"jsonrpc": "2.0"}).to_string(),
        4 => json!([1, 2]).to_string(),
        5 => json!({"jsonrpc": "2.0", "id": 1, "method": "no/such/method"}).to_string(),
        6 => json!({"jsonrpc": "2.0", "id": 1, "method": "tools/call", "params": 7}).to_string(),
        _ => { let t = wire::message(r).json.to_string(); let mut c = r.below(t.len()); while !t.is_char_boundary(c) { c -= 1; } t[..c].to_string() },
    }
}
/// A message that round-trips as its own JSON (what C01 establishes), so that arrival can be compared.
fn good(r: &mut Rng, n: usize) -> Gen {
    if r.chance(1, 3) {
        return wire::message(r);
    }
    // numbered ones make duplicates and swaps visible
    let v = json!({"n": n, "t": r.string(8)});
    Gen { msg: TransportMessage::Response(pmcp::types::JSONRPCResponse::success((n as i64).into(), v.clone())), json: json!({"jsonrpc": "2.0", "id": n, "result": v}), kind: wire::Kind::Response, method: String::new() }
}
fn script(r: &mut Rng, burst: bool) -> (Vec<Op>, Vec<Value>) {
    let mut ops = vec![];
    let mut want = vec![];
    let n = if burst { r.range(120, 400) } else { r.below(14) };
    for k in 0..n {
        let op = match r.below(if burst { 14 } else { 12 }) {
            0 => Op::Junk(junk(r)),
            1 => Op::Binary(r.bytes(20)),
            2 => { let n = *r.pick(&[0usize, 20, 125]); Op::Ping(r.bytes(n)) },
            3 if !burst => Op::Pause(r.below(2000) as u64),
            3 => Op::Pong(r.bytes(20)),
            4 => {
                let v = good(r, k).json;
                let len = v.to_string().len();
                let mut c: Vec<usize> = (0..r.range(1, 5)).map(|_| r.below(len)).collect();
                c.sort();
                want.push(v.clone());
                Op::Fragments(v, c, r.bool())
            },
            5 if r.chance(1, 12) => {
                let v = json!({"jsonrpc": "2.0", "id": k, "result": "é\u{1F980}x".repeat(r.range(1000, 100_000))});
                want.push(v.clone());
                Op::Msg(v)
            },
            // the same message again is another message
            6 if !want.is_empty() => { let v = want[want.len() - 1].clone(); want.push(v.clone()); Op::Msg(v) },
            _ => { let v = good(r, k).json; want.push(v.clone()); Op::Msg(v) },
        };
        ops.push(op);
    }
    (ops, want)
}

/// Runs the transport under test: sends `out`, receives, with receives given up at random moments.
struct Drove { got: Vec<Value>, send_err: Option<String>, recv_err: Option<String>, hung: bool, gave_up: usize }
async fn drive(t: &mut dyn Transport, out: &[Gen], expect: usize, r: &mut Rng, end: End) -> Drove {
    let mut d = Drove { got: vec![], send_err: None, recv_err: None, hung: false, gave_up: 0 };
    let mut q: VecDeque<&Gen> = out.iter().collect();
    let mut last = Instant::now();
    loop {
        let peer_ends = !matches!(end, End::SutClosesAtOnce | End::SutClosesLater);
        if q.is_empty() && !peer_ends && (end == End::SutClosesAtOnce || d.got.len() >= expect) { break; }
        if !q.is_empty() && (r.bool() || d.got.len() >= expect) {
            let g = q.pop_front().unwrap();
            match tokio::time::timeout(PATIENCE, t.send(g.msg.clone())).await {
                Ok(Ok(())) => {},
                Ok(Err(e)) => { d.send_err = Some(e.to_string()); q.clear(); },
                Err(_) => { d.send_err = Some("hung".into()); d.hung = true; return d; },
            }
            continue;
        }
        let wait = if q.is_empty() && r.chance(9, 10) { PATIENCE } else { Duration::from_micros(r.below(3000) as u64) };
        match tokio::time::timeout(wait, t.receive()).await {
            Ok(Ok(m)) => { d.got.push(text_of(&m)); last = Instant::now(); },
            Ok(Err(e)) => { d.recv_err = Some(e.to_string()); break; },
            Err(_) => { d.gave_up += 1; if last.elapsed() >= PATIENCE { d.hung = true; break; } },
        }
    }
    d
}

fn show(v: &[Value]) -> String { let s = format!("{v:?}"); s.chars().take(500).collect() }
fn first_diff(a: &[Value], b: &[Value]) -> String {
    let k = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("{} vs {}, first difference at {k}: {:.200} / {:.200}", a.len(), b.len(), a.get(k).map(|v| v.to_string()).unwrap_or("-".into()), b.get(k).map(|v| v.to_string()).unwrap_or("-".into()))
}

enum Sut { Client(WebSocketTransport), Server(WebSocketServerTransport) }
impl Sut {
    fn t(&mut self) -> &mut dyn Transport { match self { Sut::Client(c) => c, Sut::Server(s) => s } }
}

/// One connection of the transport under test against a scripted peer.
async fn connection(m: &Arc<Mon>, r: &mut Rng, role: &str, sut: &mut Sut, ws: WebSocketStream<TcpStream>, what: &str) -> bool {
    let burst = r.chance(1, 8);
    let (ops, want) = script(r, burst);
    let out: Vec<Gen> = (0..if burst { r.range(0, 300) } else { r.below(10) }).map(|k| if r.chance(1, 60) { let v = json!("é\u{1F980}x".repeat(r.range(1000, 60_000))); Gen { msg: TransportMessage::Response(pmcp::types::JSONRPCResponse::success((k as i64).into(), v.clone())), json: json!({"jsonrpc": "2.0", "id": k, "result": v}), kind: wire::Kind::Response, method: String::new() } } else { good(r, k) }).collect();
    let sent: Vec<Value> = out.iter().map(|g| g.json.clone()).collect();
    let end = *r.pick(&[End::SutClosesAtOnce, End::SutClosesLater, End::PeerCloses, End::PeerCloses, End::PeerHangsUp, End::PeerResets]);
    // an ending by the peer before it has seen everything sent may lose what is under way
    let wait = r.chance(4, 5);
    let dropped = r.chance(1, 2);
    let near = ws.get_ref().local_addr();
    let what = format!("{role} {what}; {end:?} dropped {dropped} wait {wait}; script {:.600}", format!("{ops:?}"));
    let log = Log::default();
    let t0 = Instant::now();
    let p = tokio::spawn(peer(ws, ops, sent.len(), wait, end, log.clone()));
    let d = drive(sut.t(), &out, want.len(), r, end).await;
    m.case((role, format!("{end:?}"), want.len(), sent.len(), burst), !want.is_empty() || !sent.is_empty());
    m.count(&format!("connections as {role}"), 1);
    m.count("messages received", d.got.len() as u64);
    m.count("receives given up", d.gave_up as u64);
    m.check(!d.hung, "hangs", || format!("received {} of {}, no end reported within {PATIENCE:?}; {what}", d.got.len(), want.len()));
    // whatever arrived is what was sent, in order
    m.check(want.starts_with(&d.got), "received-sequence", || format!("received {} want {}: {}; {what}", d.got.len(), want.len(), first_diff(&d.got, &want)));
    let complete = match end { End::SutClosesAtOnce => false, End::PeerResets => false, _ => true };
    if complete {
        m.check(d.got.len() == want.len(), "messages-lost", || format!("received {} of {}, {:?}; {what}", d.got.len(), want.len(), d.recv_err));
    }
    if wait || matches!(end, End::SutClosesAtOnce | End::SutClosesLater) {
        m.check(d.send_err.is_none(), "send-failed", || format!("{:?}; {what}", d.send_err));
    }
    if matches!(end, End::SutClosesAtOnce | End::SutClosesLater) && dropped {
        // leaving without closing ends the connection just the same
        m.count("transports dropped", 1);
        *sut = match sut {
            Sut::Client(_) => Sut::Client(WebSocketTransport::new(client_config(near.unwrap(), r))),
            Sut::Server(_) => Sut::Server(WebSocketServerTransport::new(server_config(r))),
        };
    } else if matches!(end, End::SutClosesAtOnce | End::SutClosesLater) {
        let c = tokio::time::timeout(PATIENCE, sut.t().close()).await;
        m.check(matches!(c, Ok(Ok(()))), "close-failed", || format!("{c:?}; {what}"));
        m.check(!sut.t().is_connected(), "connected-after-close", || what.clone());
    } else if d.recv_err.is_some() {
        // noticed: it stays an error
        let again = tokio::time::timeout(PATIENCE, sut.t().receive()).await;
        m.check(matches!(again, Ok(Err(_))), "receive-after-end", || format!("{again:?}; {what}"));
    }
    let over = tokio::time::timeout(PATIENCE * 3, p).await;
    let trouble = match over { Ok(Ok(t)) => t, o => vec![format!("peer: {o:?}")] };
    m.max("longest connection ms", t0.elapsed().as_millis() as u64);
    let g = log.0.lock().unwrap();
    let got: Vec<Value> = g.got.iter().map(|t| serde_json::from_str(t).unwrap_or_else(|_| json!({"not JSON": t}))).collect();
    m.count("messages sent", got.len() as u64);
    m.count("pings answered", g.pongs.len() as u64);
    m.check(g.other.is_empty(), "odd-frames", || format!("{:?}; {what}", g.other));
    m.check(sent.starts_with(&got), "sent-sequence", || format!("peer got {}; {what}", first_diff(&got, &sent)));
    // the transport that closes delivers what it was given, and a waiting peer has everything
    let all = matches!(end, End::SutClosesAtOnce | End::SutClosesLater) || wait;
    if all {
        m.check(got.len() == sent.len(), "sent-lost", || format!("peer got {} of {}; {:?}; {what}", got.len(), sent.len(), g.closed));
    }
    let strict = !matches!(end, End::PeerResets);
    for t in trouble {
        // the script may go on (junk, pauses) when all its messages have been received
        let early = t.starts_with("peer could not send") && matches!(end, End::SutClosesAtOnce | End::SutClosesLater);
        if t.contains("was not answered") { m.fail("ping-unanswered", format!("{t}; {what}")); }
        else if t.contains("never saw the end") { m.fail("close-not-seen", format!("{t}; {what}")); }
        else if t.starts_with("only") { m.fail("sent-lost", format!("{t}; {what}")); }
        else if strict && !early { m.fail("connection-broke", format!("{t}; closed {:?}; {what}", g.closed)); }
    }
    m.sample("connection", || format!("{what}; received {}", show(&d.got)));
    dropped && matches!(end, End::SutClosesAtOnce | End::SutClosesLater)
}

async fn gone(m: &Arc<Mon>, sut: &mut Sut, server: bool, what: &str) {
    // without a connection both directions are errors
    let s = tokio::time::timeout(PATIENCE, sut.t().send(wire::notification(&mut Rng::new(3)).msg)).await;
    let r = tokio::time::timeout(PATIENCE, sut.t().receive()).await;
    m.count("uses without connection", 2);
    m.check(matches!(s, Ok(Err(_))), "send-without-connection", || format!("{s:?}; server {server}; {what}"));
    m.check(matches!(r, Ok(Err(_))), "receive-without-connection", || format!("{r:?}; server {server}; {what}"));
    m.check(!sut.t().is_connected(), "connected-without-connection", || format!("server {server}; {what}"));
}

fn client_config(addr: SocketAddr, r: &mut Rng) -> WebSocketConfig {
    WebSocketConfig {
        url: format!("ws://{addr}/mcp").parse().unwrap(),
        auto_reconnect: r.bool(),
        reconnect_delay: Duration::from_millis(1),
        max_reconnect_delay: Duration::from_millis(4),
        max_reconnect_attempts: Some(r.range(1, 5) as u32),
        ping_interval: match r.below(3) { 0 => None, 1 => Some(Duration::from_millis(1)), _ => Some(Duration::from_secs(30)) },
        request_timeout: Duration::from_secs(30),
    }
}

async fn as_client(m: Arc<Mon>, mut r: Rng) {
    let l = TcpListener::bind(home()).await.unwrap();
    let addr = l.local_addr().unwrap();
    let mut sut = Sut::Client(WebSocketTransport::new(client_config(addr, &mut r)));
    gone(&m, &mut sut, false, "before connecting").await;
    for k in 0..r.range(1, 3) {
        let Sut::Client(c) = &sut else { unreachable!() };
        let (conn, acc) = tokio::join!(tokio::time::timeout(PATIENCE, c.connect()), async {
            let (s, _) = l.accept().await.unwrap();
            let _ = s.set_nodelay(true);
            tokio_tungstenite::accept_async(s).await
        });
        if !m.check(matches!(conn, Ok(Ok(()))), "connect", || format!("{conn:?}, connection {k}")) { return; }
        m.check(sut.t().is_connected(), "not-connected", || format!("connection {k}"));
        connection(&m, &mut r, "client", &mut sut, acc.unwrap(), &format!("connection {k}")).await;
        gone_eventually(&m, &mut sut).await;
        gone(&m, &mut sut, false, &format!("after connection {k}")).await;
    }
}
/// After its end has been noticed, or after closing: what was received before may still be taken.
async fn gone_eventually(m: &Arc<Mon>, sut: &mut Sut) {
    for _ in 0..2000 {
        match tokio::time::timeout(PATIENCE, sut.t().receive()).await {
            Ok(Ok(_)) => {},
            Ok(Err(_)) => return,
            Err(_) => { m.fail("hangs", "receive after the end of the connection still waits"); return; },
        }
    }
    m.fail("endless", "2000 messages received after the end of the connection");
}

/// An address of the loopback network with ports of its own, so that none runs out.
fn home() -> SocketAddr {
    static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    let k = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed).wrapping_add(std::process::id().wrapping_mul(7919));
    SocketAddr::from(([127, (k >> 16) as u8, (k >> 8) as u8, (k % 253) as u8 + 1], 0))
}
fn free_port() -> SocketAddr {
    let l = std::net::TcpListener::bind(home()).unwrap();
    l.local_addr().unwrap()
}
/// A bound server transport on a port of its own (another process may take the port in between: try again).
async fn bound(mut config: WebSocketServerConfig) -> (WebSocketServerTransport, SocketAddr) {
    loop {
        config.bind_addr = free_port();
        // through the builder where it can say the same
        let mut s = match (config.max_frame_size, config.max_message_size) {
            (Some(f), Some(g)) if config.bind_addr.port() % 2 == 0 => pmcp::server::transport::WebSocketServerBuilder::new().bind_addr(config.bind_addr).max_frame_size(f).max_message_size(g).accept_unmasked_frames(config.accept_unmasked_frames).build(),
            _ => WebSocketServerTransport::new(config.clone()),
        };
        if s.bind().await.is_ok() { return (s, config.bind_addr); }
    }
}
fn server_config(r: &mut Rng) -> WebSocketServerConfig {
    if r.chance(1, 3) { return WebSocketServerConfig::default(); }
    let big = r.bool();
    WebSocketServerConfig { bind_addr: "127.0.0.1:0".parse().unwrap(), max_frame_size: if big { None } else { Some(8 << 20) }, max_message_size: if big { None } else { Some(8 << 20) }, accept_unmasked_frames: r.bool() }
}
async fn as_server(m: Arc<Mon>, mut r: Rng) {
    let mut unbound = WebSocketServerTransport::new(server_config(&mut r));
    let a = tokio::time::timeout(PATIENCE, unbound.accept()).await;
    m.check(matches!(a, Ok(Err(_))), "accept-unbound", || format!("{a:?}"));
    let (s, addr) = bound(server_config(&mut r)).await;
    let mut sut = Sut::Server(s);
    gone(&m, &mut sut, true, "before accepting").await;
    for k in 0..r.range(1, 3) {
        if r.chance(1, 4) {
            // a visitor that is no WebSocket client
            let Sut::Server(s) = &mut sut else { unreachable!() };
            let bad = async {
                let mut s = TcpStream::connect(addr).await.unwrap();
                let _ = tokio::io::AsyncWriteExt::write_all(&mut s, b"GET / HTTP/1.1\r\nHost: x\r\n\r\n").await;
                drop(s);
            };
            let (a, _) = tokio::join!(tokio::time::timeout(PATIENCE, s.accept()), bad);
            m.check(matches!(a, Ok(Err(_))), "bad-handshake", || format!("{a:?}"));
            m.count("refused handshakes", 1);
        }
        let Sut::Server(s) = &mut sut else { unreachable!() };
        let (a, c) = tokio::join!(tokio::time::timeout(PATIENCE, s.accept()), async {
            let s = TcpStream::connect(addr).await.unwrap();
            let _ = s.set_nodelay(true);
            tokio_tungstenite::client_async(format!("ws://{addr}/"), s).await
        });
        if !m.check(matches!(a, Ok(Ok(()))), "accept", || format!("{a:?}, connection {k}")) { return; }
        m.check(sut.t().is_connected(), "not-connected", || format!("connection {k}"));
        let left = connection(&m, &mut r, "server", &mut sut, c.unwrap().0, &format!("connection {k}")).await;
        gone_eventually(&m, &mut sut).await;
        if left { return; }
        if r.bool() {
            let _ = sut.t().close().await;
            gone(&m, &mut sut, true, &format!("after closing connection {k}")).await;
        }
    }
}

/// The two roles of the SDK against each other, both busy at once.
async fn both(m: Arc<Mon>, mut r: Rng) {
    let (mut s, addr) = bound(server_config(&mut r)).await;
    let mut c = WebSocketTransport::new(client_config(addr, &mut r));
    let (x, y) = tokio::join!(s.accept(), c.connect());
    if !m.check(x.is_ok() && y.is_ok(), "connect", || format!("{x:?} {y:?}")) { return; }
    let n = if r.chance(1, 6) { 600 } else { 40 };
    let a: Vec<Gen> = (0..r.below(n)).map(|k| good(&mut r, k)).collect();
    let b: Vec<Gen> = (0..r.below(n)).map(|k| good(&mut r, k)).collect();
    let (aj, bj): (Vec<Value>, Vec<Value>) = (a.iter().map(|g| g.json.clone()).collect(), b.iter().map(|g| g.json.clone()).collect());
    m.case(("both", a.len(), b.len()), a.len() + b.len() > 0);
    m.count("connections between the two roles", 1);
    let client_closes = r.bool();
    let (mut r1, mut r2) = (r.fork(), r.fork());
    let (ea, eb) = if client_closes { (End::SutClosesLater, End::PeerCloses) } else { (End::PeerCloses, End::SutClosesLater) };
    let (blen, alen) = (b.len(), a.len());
    let cl = tokio::spawn(async move { let d = drive(&mut c, &a, blen, &mut r1, ea).await; if ea == End::SutClosesLater { let _ = c.close().await; } (d, c) });
    let sv = tokio::spawn(async move { let d = drive(&mut s, &b, alen, &mut r2, eb).await; if eb == End::SutClosesLater { let _ = s.close().await; } (d, s) });
    let done = tokio::time::timeout(PATIENCE * 4, async { (cl.await, sv.await) }).await;
    let Ok((Ok((dc, _c)), Ok((ds, _s)))) = done else { m.fail("hangs", format!("client and server did not finish: {}", done.is_err())); return };
    m.check(!dc.hung && !ds.hung, "hangs", || format!("client {} server {}; client closes {client_closes}; client got {} of {}, server {} of {}", dc.hung, ds.hung, dc.got.len(), bj.len(), ds.got.len(), aj.len()));
    m.check(dc.got == bj, "received-sequence", || format!("client: {}; client closes {client_closes}", first_diff(&dc.got, &bj)));
    m.check(ds.got == aj, "received-sequence", || format!("server: {}; client closes {client_closes}", first_diff(&ds.got, &aj)));
    m.count("messages received", (dc.got.len() + ds.got.len()) as u64);
    m.check(dc.send_err.is_none() && ds.send_err.is_none(), "send-failed", || format!("{:?} {:?}", dc.send_err, ds.send_err));
}

fn sized(n: usize) -> (Value, Gen) {
    let base = json!({"jsonrpc": "2.0", "id": 1, "result": ""}).to_string().len();
    let v = json!("x".repeat(n - base));
    let j = json!({"jsonrpc": "2.0", "id": 1, "result": v});
    (j.clone(), Gen { msg: TransportMessage::Response(pmcp::types::JSONRPCResponse::success(1i64.into(), v)), json: j, kind: wire::Kind::Response, method: String::new() })
}
/// Frames of a text, none longer than `frame`.
fn frames(t: &str, frame: usize) -> Vec<Message> {
    let b = t.as_bytes();
    let n = b.len().div_ceil(frame).max(1);
    (0..n).map(|k| Message::Frame(Frame::message(b[k * frame..((k + 1) * frame).min(b.len())].to_vec(), OpCode::Data(if k == 0 { Data::Text } else { Data::Continue }), k + 1 == n))).collect()
}
/// Sizes up to the limits arrive, whole or in fragments; what exceeds a limit of the server is never delivered and ends the connection.
async fn sizes(m: Arc<Mon>, mut r: Rng) {
    let limit = *r.pick(&[1000usize, 65_536, 1 << 20, 20 << 20]);
    let mut config = server_config(&mut r);
    // a frame may be smaller than a message, or have no limit of its own
    let frame = *r.pick(&[limit, limit, limit / 3, limit * 2, usize::MAX]);
    config.max_frame_size = if frame == usize::MAX { None } else { Some(frame) };
    // or the frames alone may be limited
    let bounded = frame == usize::MAX || r.chance(4, 5);
    config.max_message_size = if bounded { Some(limit) } else { None };
    let (mut s, addr) = bound(config).await;
    let (a, c) = tokio::join!(s.accept(), async { tokio_tungstenite::client_async_with_config(format!("ws://{addr}/"), TcpStream::connect(addr).await.unwrap(), Some(tokio_tungstenite::tungstenite::protocol::WebSocketConfig::default().max_frame_size(None).max_message_size(None))).await });
    if !m.check(a.is_ok(), "accept", || format!("{a:?}")) { return; }
    let (mut sink, mut stream) = c.unwrap().0.split();
    let (tx, mut back) = tokio::sync::mpsc::unbounded_channel();
    let reader = tokio::spawn(async move { while let Some(Ok(x)) = stream.next().await { if let Message::Text(t) = x { let _ = tx.send(t.to_string()); } } });
    let base = json!({"jsonrpc": "2.0", "id": 1, "result": ""}).to_string().len();
    let mut fits = vec![limit];
    for _ in 0..3 { fits.push(base + r.below(limit - base)); }
    if !bounded { fits.push(frame + 1 + r.below(frame)); }
    r.shuffle(&mut fits);
    for n in fits {
        let (v, g) = sized(n);
        let t = v.to_string();
        let fs = if n > frame || r.chance(1, 3) { let f = frame.min(n); frames(&t, r.range(f / 3 + 1, f)) } else { vec![Message::text(t)] };
        let pieces = fs.len();
        let send = async { for f in fs { sink.send(f).await?; } Ok::<_, tokio_tungstenite::tungstenite::Error>(()) };
        let (s1, got) = tokio::join!(send, tokio::time::timeout(PATIENCE, s.receive()));
        m.case(("size", limit, frame, n), true);
        m.max("largest message", n as u64);
        m.check(s1.is_ok() && matches!(&got, Ok(Ok(g)) if text_of(g) == v), "large-message", || format!("{n} bytes in {pieces} frames under limits of {limit} and {frame}: sent {s1:?}, received {:.200}", format!("{got:?}")));
        // the limits bind what the server receives, not what it sends
        if r.bool() {
            let s2 = s.send(g.msg).await;
            let got = tokio::time::timeout(PATIENCE, back.recv()).await;
            m.check(s2.is_ok() && matches!(&got, Ok(Some(g)) if *g == v.to_string() || serde_json::from_str::<Value>(g).is_ok_and(|g| g == v)), "large-message", || format!("{n} bytes from the server: sent {s2:?}, arrived {:.200}", format!("{got:?}")));
        }
    }
    let over = if !bounded { frame + 1 + r.below(100) } else if frame < limit && r.bool() { frame + 1 + r.below(limit - frame) } else { limit + 1 + r.below(100) };
    let t = sized(over.max(base)).0.to_string();
    let whole = !bounded || over <= limit || (frame >= over && r.bool());
    let fs = if whole { vec![Message::text(t)] } else { frames(&t, frame.min(limit).max(1)) };
    let pieces = fs.len();
    let send = async { for f in fs { if sink.send(f).await.is_err() { break; } } };
    let (_, got) = tokio::join!(send, tokio::time::timeout(PATIENCE, s.receive()));
    m.count("messages over the limit", 1);
    m.check(matches!(&got, Ok(Err(_))), "over-the-limit", || format!("{over} bytes in {pieces} frames over limits of {limit} and {frame}: {:.200}", format!("{got:?}")));
    drop(sink);
    reader.abort();
}
/// Large messages at the client.
async fn large(m: Arc<Mon>, mut r: Rng) {
    let l = TcpListener::bind(home()).await.unwrap();
    let mut c = WebSocketTransport::new(client_config(l.local_addr().unwrap(), &mut r));
    let (conn, acc) = tokio::join!(c.connect(), async { tokio_tungstenite::accept_async(l.accept().await.unwrap().0).await });
    if !m.check(conn.is_ok(), "connect", || format!("{conn:?}")) { return; }
    let (mut sink, mut stream) = acc.unwrap().split();
    for _ in 0..4 {
        let most = if r.chance(1, 4) { 15 << 20 } else { 3 << 20 };
        let n = r.range(100_000, most);
        let (v, g) = sized(n);
        let t = v.to_string();
        let fs = if r.bool() { frames(&t, r.range(n / 9, n)) } else { vec![Message::text(t)] };
        let send = async { for f in fs { sink.send(f).await?; } Ok::<_, tokio_tungstenite::tungstenite::Error>(()) };
        let (s1, got) = tokio::join!(send, tokio::time::timeout(PATIENCE, c.receive()));
        m.case(("large", n), true);
        m.max("largest message", n as u64);
        m.check(s1.is_ok() && matches!(&got, Ok(Ok(g)) if text_of(g) == v), "large-message", || format!("{n} bytes to the client: sent {s1:?}, received {:.200}", format!("{got:?}")));
        let (s2, got) = tokio::join!(c.send(g.msg), tokio::time::timeout(PATIENCE, async { loop { match stream.next().await { Some(Ok(Message::Text(t))) => break Some(t.to_string()), Some(Ok(_)) => {}, _ => break None } } }));
        m.check(s2.is_ok() && matches!(&got, Ok(Some(g)) if serde_json::from_str::<Value>(g).is_ok_and(|g| g == v)), "large-message", || format!("{n} bytes from the client: sent {s2:?}, arrived {:.200}", format!("{got:?}")));
    }
}
/// A connection made while there is another takes its place: the earlier one ends after delivering what was sent on it,
/// and nothing of it is seen on the new one.
async fn replaced(m: Arc<Mon>, mut r: Rng, server: bool) {
    let l = TcpListener::bind(home()).await.unwrap();
    let mut at = l.local_addr().unwrap();
    let mut sut = if server { let (s, a) = bound(server_config(&mut r)).await; at = a; Sut::Server(s) } else { let mut c = client_config(l.local_addr().unwrap(), &mut r); c.ping_interval = None; Sut::Client(WebSocketTransport::new(c)) };
    let mut earlier: Vec<(Log, Vec<Value>, tokio::task::JoinHandle<Vec<String>>)> = vec![];
    for k in 0..r.range(2, 4) {
        let ws = match &mut sut {
            Sut::Server(s) => {
                let addr = at;
                let (a, c) = tokio::join!(tokio::time::timeout(PATIENCE, s.accept()), async { tokio_tungstenite::client_async(format!("ws://{addr}/"), TcpStream::connect(addr).await.unwrap()).await });
                if !m.check(matches!(a, Ok(Ok(()))), "accept", || format!("{a:?}, while connected {k}")) { return; }
                c.unwrap().0
            },
            Sut::Client(c) => {
                let (a, s) = tokio::join!(tokio::time::timeout(PATIENCE, c.connect()), async { tokio_tungstenite::accept_async(l.accept().await.unwrap().0).await });
                if !m.check(matches!(a, Ok(Ok(()))), "connect", || format!("{a:?}, while connected {k}")) { return; }
                s.unwrap()
            },
        };
        m.check(sut.t().is_connected(), "not-connected", || format!("connection {k} over another"));
        for (log, sent, _) in &earlier {
            let ended = log.until(|g| g.closed.is_some()).await;
            let g = log.0.lock().unwrap();
            m.check(ended, "close-not-seen", || format!("the connection replaced stays open; server {server}"));
            m.check(g.got.len() == sent.len(), "sent-lost", || format!("{} of {} arrived on the connection replaced; server {server}", g.got.len(), sent.len()));
        }
        // the end of the earlier connection does not end this one
        if !earlier.is_empty() && r.bool() {
            for (_, _, p) in earlier.drain(..) { let _ = tokio::time::timeout(PATIENCE, p).await; }
            m.check(sut.t().is_connected(), "not-connected", || format!("connection {k}, after the one before it has ended"));
        }
        let ops: Vec<Value> = (0..r.below(8)).map(|n| json!({"jsonrpc": "2.0", "id": n, "result": [k, n]})).collect();
        let log = Log::default();
        let out: Vec<Gen> = (0..r.below(8)).map(|n| good(&mut r, n)).collect();
        let sent: Vec<Value> = out.iter().map(|g| g.json.clone()).collect();
        let p = tokio::spawn(peer(ws, ops.iter().cloned().map(Op::Msg).collect(), 0, false, End::SutClosesLater, log.clone()));
        // some of what arrives may be left unread
        let read = if r.bool() { ops.len() } else { r.below(ops.len() + 1) };
        let d = drive(sut.t(), &out, read, &mut r, End::SutClosesLater).await;
        m.case(("replaced", server, k, read), !out.is_empty() || read > 0);
        m.count("connections replaced", 1);
        m.check(ops.starts_with(&d.got) && d.got.len() >= read, "received-sequence", || format!("connection {k} over another, server {server}: {}", first_diff(&d.got, &ops)));
        m.check(d.send_err.is_none(), "send-failed", || format!("connection {k} over another, server {server}: {:?}", d.send_err));
        let there = log.until(|g| g.got.len() >= sent.len() || g.closed.is_some()).await;
        let got: Vec<Value> = log.0.lock().unwrap().got.iter().map(|t| serde_json::from_str(t).unwrap_or(Value::Null)).collect();
        m.check(there && got == sent, "sent-sequence", || format!("connection {k} over another, server {server}: {}", first_diff(&got, &sent)));
        earlier.push((log, sent, p));
    }
    let _ = sut.t().close().await;
    if !server { gone_eventually(&m, &mut sut).await; }
    gone(&m, &mut sut, server, "after closing the last of several connections").await;
    for (_, _, p) in earlier { let _ = tokio::time::timeout(PATIENCE, p).await; }
}

/// A server that never completes the handshake is tried as often as configured.
async fn refused(m: Arc<Mon>, mut r: Rng) {
    let l = TcpListener::bind(home()).await.unwrap();
    let mut config = client_config(l.local_addr().unwrap(), &mut r);
    let attempts = r.range(1, 6);
    config.max_reconnect_attempts = Some(attempts as u32);
    let succeed = if r.bool() { Some(r.range(1, attempts)) } else { None };
    let n = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let n2 = n.clone();
    let kinds: Vec<usize> = (0..20).map(|_| r.below(3)).collect();
    let srv = tokio::spawn(async move {
        let mut open = vec![];
        while let Ok((mut s, _)) = l.accept().await {
            let k = n2.fetch_add(1, std::sync::atomic::Ordering::SeqCst) + 1;
            if Some(k) == succeed { if let Ok(w) = tokio_tungstenite::accept_async(s).await { open.push(w); } continue; }
            use tokio::io::AsyncWriteExt;
            match kinds[k % 20] { 0 => {}, 1 => { let _ = s.write_all(b"HTTP/1.1 403 Forbidden\r\nContent-Length: 0\r\n\r\n").await; }, _ => { let _ = s.write_all(b"nonsense\r\n\r\n").await; } }
        }
    });
    let t = WebSocketTransport::new(config);
    let c = tokio::time::timeout(PATIENCE, t.connect()).await;
    let seen = n.load(std::sync::atomic::Ordering::SeqCst);
    m.case(("refused", attempts, succeed), true);
    m.count("connection attempts", seen as u64);
    match succeed {
        Some(k) => m.check(matches!(c, Ok(Ok(()))) && seen == k && t.is_connected(), "attempts", || format!("{c:?} after {seen}, server accepts at attempt {k}")),
        None => m.check(matches!(c, Ok(Err(_))) && seen == attempts && !t.is_connected(), "attempts", || format!("{c:?} after {seen} of {attempts}, connected {}", t.is_connected())),
    };
    if succeed.is_none() { gone(&m, &mut Sut::Client(t), false, "after failing to connect").await; }
    srv.abort();
}

/// Asking whether there is a connection answers at once, also in a task that has done much since it last yielded.
fn busy(m: &Arc<Mon>, r: &mut Rng) {
    for state in 0..6 {
        let r2 = r.fork();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let rt = mon::crt();
            let out = rt.block_on(async move {
                let mut r = r2;
                let (mut s, addr) = bound(server_config(&mut r)).await;
                let mut c = WebSocketTransport::new(client_config(addr, &mut r));
                if state >= 2 { let (a, b) = tokio::join!(s.accept(), c.connect()); if a.is_err() || b.is_err() { return None; } }
                if state >= 4 { let _ = (s.close().await, c.close().await); }
                let t: &dyn Transport = if state % 2 == 0 { &s } else { &c };
                let want = (2..4).contains(&state);
                let (a, mut b) = tokio::sync::mpsc::unbounded_channel();
                let mut wrong = 0;
                for k in 0..300 {
                    for _ in 0..r.range(1, 3) { a.send(k).unwrap(); b.recv().await; }
                    if t.is_connected() != want { wrong += 1; }
                }
                Some(wrong)
            });
            let _ = tx.send(out);
        });
        let got = rx.recv_timeout(PATIENCE);
        let what = format!("{} {}", ["server", "client"][state % 2], ["unconnected", "connected", "closed"][state / 2]);
        m.case(("busy", state), true);
        m.count("questions of a busy task", 300);
        match got {
            Ok(Some(0)) => {},
            Ok(Some(n)) => { m.fail("connected", format!("{n} of 300 answers wrong; {what}")); },
            Ok(None) => { m.fail("connect", what); },
            Err(_) => { m.fail("is-connected-hangs", format!("no answer within {PATIENCE:?}; {what}")); },
        }
    }
}

fn c25(m: &Arc<Mon>) {
    let rt = mon::mrt(4);
    let mut r = m.rng("c25");
    m.stage("busy tasks");
    for _ in 0..m.n(3, 100) { busy(m, &mut r); }
    let par = 16;
    rt.block_on(async {
        let n = m.n(2500, 20_000);
        m.stage("connections");
        let mut set = tokio::task::JoinSet::new();
        for k in 0..n {
            if m.stopped() { break; }
            if set.len() >= par { if let Some(Err(e)) = set.join_next().await { if e.is_panic() { std::panic::resume_unwind(e.into_panic()); } } m.tick(); }
            let (m2, r2) = (m.clone(), r.fork());
            let (name, case): (&str, std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send>>) = match k % 10 {
                0..=3 => ("client", Box::pin(as_client(m2, r2))),
                4..=7 => ("server", Box::pin(as_server(m2, r2))),
                8 => ("both roles", Box::pin(both(m2, r2))),
                _ => match k / 10 % 8 { 1 | 5 => ("sizes", Box::pin(sizes(m2, r2))), 2 => ("replaced server", Box::pin(replaced(m2, r2, true))), 3 => ("replaced client", Box::pin(replaced(m2, r2, false))), 4 => ("large", Box::pin(large(m2, r2))), _ => ("refusals", Box::pin(refused(m2, r2))) },
            };
            let m2 = m.clone();
            set.spawn(async move {
                if tokio::time::timeout(PATIENCE * 6, case).await.is_err() { m2.fail("hangs", format!("the case {k} ({name}) does not end")); }
            });
        }
        while let Some(x) = set.join_next().await {
            m.tick();
            if let Err(e) = x { if e.is_panic() { std::panic::resume_unwind(e.into_panic()); } }
        }
    });
    rt.shutdown_background();
}
