//! C21-C23 (streamable HTTP server), C24 (its client), C26 (HTTP+SSE client), C35 (OAuth client).
use async_trait::async_trait;
use mon::http::*;
use mon::{mrt, wire, Check, Mon, Rng};
use pmcp::server::cancellation::RequestHandlerExtra;
use pmcp::server::streamable_http_server::{EventStore, InMemoryEventStore, StreamableHttpServer, StreamableHttpServerConfig};
use pmcp::client::auth::{OidcDiscoveryClient, TokenExchangeClient};
use pmcp::shared::http::{HttpConfig, HttpTransport};
use pmcp::shared::streamable_http::{AuthProvider, SendOptions, StreamableHttpTransport, StreamableHttpTransportConfig};
use pmcp::shared::{StdioTransport, Transport, TransportMessage};
use pmcp::types::*;
use pmcp::{Server, ToolHandler};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn main() {
    mon::main(&[
        Check { id: "C21", rule: "an HTTP request history or race over several sessions; non-trivial when a session was deleted or refused and used again", run: c21 },
        Check { id: "C22", rule: "an HTTP request with chosen headers and body; non-trivial when it breaks a rule or varies an accepted header", run: c22 },
        Check { id: "C24", rule: "a history of sends, streams and closings of a client transport against a scripted server; non-trivial when replies of several kinds were delivered and a header was propagated", run: c24 },
        Check { id: "C26", rule: "a history of posts and pushed event streams against a scripted server; non-trivial when both were delivered and something was refused or skipped", run: c26 },
        Check { id: "C35", rule: "an OAuth client call against a scripted server; non-trivial when the server failed or the parameters need encoding", run: c35 },
        Check { id: "C23", rule: "a history of requests and event streams over several sessions; non-trivial when a stream was resumed or replies were split between streams and own replies", run: c23 },
    ]);
}

// ------------------------------------------------------------------ server rig

#[derive(Default)]
struct Log { calls: Mutex<Vec<String>>, opened: Mutex<Vec<String>>, closed: Mutex<Vec<String>> }
struct Echo { log: Arc<Log> }
#[async_trait]
impl ToolHandler for Echo {
    async fn handle(&self, args: Value, _extra: RequestHandlerExtra) -> pmcp::Result<Value> {
        self.log.calls.lock().unwrap().push(args["tag"].as_str().unwrap_or("?").to_string());
        if let Some(ms) = args["ms"].as_u64() { tokio::time::sleep(Duration::from_millis(ms)).await; }
        Ok(json!({"echo": args["tag"]}))
    }
}
struct Rig { addr: SocketAddr, log: Arc<Log>, task: tokio::task::JoinHandle<()>, store: Option<Arc<InMemoryEventStore>>, cfg: Cfg }
impl Drop for Rig { fn drop(&mut self) { self.task.abort(); } }
#[derive(Clone, Copy, Debug, PartialEq)]
struct Cfg { stateful: bool, json: bool, store: bool }
static SID: AtomicU64 = AtomicU64::new(1);
impl Rig {
    async fn start(cfg: Cfg) -> Rig {
        let log = Arc::new(Log::default());
        let server = Server::builder().name("rig").version("1").capabilities(ServerCapabilities { tools: Some(ToolCapabilities { list_changed: None }), ..Default::default() }).tool("echo", Echo { log: log.clone() }).build().unwrap();
        let store = cfg.store.then(|| Arc::new(InMemoryEventStore::default()));
        let (a, b) = (log.clone(), log.clone());
        static N: AtomicU64 = AtomicU64::new(0);
        let config = if cfg == (Cfg { stateful: true, json: false, store: true }) && N.fetch_add(1, Ordering::SeqCst) % 2 == 0 {
            // the server's own session ids
            StreamableHttpServerConfig {
                event_store: store.clone().map(|s| s as Arc<dyn EventStore>),
                on_session_initialized: Some(Box::new(move |s: &str| a.opened.lock().unwrap().push(s.into()))),
                on_session_closed: Some(Box::new(move |s: &str| b.closed.lock().unwrap().push(s.into()))),
                ..Default::default()
            }
        } else { StreamableHttpServerConfig {
            session_id_generator: if cfg.stateful { Some(Box::new(|| format!("s-{}", SID.fetch_add(1, Ordering::SeqCst)))) } else { None },
            enable_json_response: cfg.json,
            event_store: store.clone().map(|s| s as Arc<dyn EventStore>),
            on_session_initialized: Some(Box::new(move |s: &str| a.opened.lock().unwrap().push(s.into()))),
            on_session_closed: Some(Box::new(move |s: &str| b.closed.lock().unwrap().push(s.into()))),
        } };
        let (addr, task) = StreamableHttpServer::with_config("127.0.0.1:0".parse().unwrap(), Arc::new(tokio::sync::Mutex::new(server)), config).start().await.unwrap();
        Rig { addr, log, task, store, cfg }
    }
    fn opened(&self) -> Vec<String> { self.log.opened.lock().unwrap().clone() }
    fn closed(&self) -> Vec<String> { self.log.closed.lock().unwrap().clone() }
    fn calls(&self) -> Vec<String> { self.log.calls.lock().unwrap().clone() }
    async fn post(&self, sid: Option<&str>, version: Option<&str>, body: &Value) -> Option<Resp> {
        request(self.addr, "POST", "/", &headers(sid, version), body.to_string().as_bytes()).await
    }
    async fn open(&self, sid: Option<&str>, last: Option<&str>) -> Option<Result<Live, Resp>> {
        let mut hs: Headers = vec![h("Accept", "text/event-stream")];
        if let Some(s) = sid { hs.push(h("Mcp-Session-Id", s)); }
        if let Some(l) = last { hs.push(h("Last-Event-ID", l)); }
        Live::open(self.addr, "/", &hs).await
    }
    async fn delete(&self, sid: Option<&str>) -> Option<Resp> {
        let hs: Headers = sid.map(|s| h("mcp-session-id", s)).into_iter().collect();
        request(self.addr, "DELETE", "/", &hs, b"").await
    }
}
fn headers(sid: Option<&str>, version: Option<&str>) -> Headers {
    let mut hs = vec![h("Content-Type", "application/json"), h("Accept", "application/json, text/event-stream")];
    if let Some(s) = sid { hs.push(h("Mcp-Session-Id", s)); }
    if let Some(v) = version { hs.push(h("MCP-Protocol-Version", v)); }
    hs
}
/// The same request as a standard JSON-RPC body or in the SDK's `{id, request}` form.
fn body(id: Value, method: &str, params: Value, sdk: bool) -> Value {
    if sdk { json!({"id": id, "request": {"method": method, "params": params}}) } else { json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}) }
}
fn init(id: Value, sdk: bool) -> Value {
    body(id, "initialize", json!({"protocolVersion": "2025-06-18", "capabilities": {}, "clientInfo": {"name": "c", "version": "1"}}), sdk)
}
/// A tool call; a tag with `!` names no tool, so it fails.
fn call(id: Value, tag: &str, sdk: bool) -> Value { body(id, "tools/call", json!({"name": if tag.starts_with('!') { "none" } else { "echo" }, "arguments": {"tag": tag}}), sdk) }
/// The message of a reply that is JSON or an event stream holding one message.
fn reply(r: &Resp) -> Option<(Value, Option<String>)> {
    let ct = r.header("content-type").unwrap_or("");
    if ct.starts_with("application/json") { return serde_json::from_slice(&r.body).ok().map(|v| (v, None)); }
    if !ct.starts_with("text/event-stream") { return None; }
    match &r.events()[..] { [e] if e.event.as_deref().map_or(true, |x| x == "message") => serde_json::from_str(&e.data).ok().map(|v| (v, e.id.clone())), _ => None }
}
fn answers(v: &Value, id: &Value, tag: &str) -> bool {
    if tag.starts_with('!') { return v["id"] == *id && v["jsonrpc"] == "2.0" && v["error"]["code"].is_i64() && v.get("result").is_none(); }
    v["id"] == *id && v["jsonrpc"] == "2.0" && v.get("error").is_none() && v["result"].to_string().contains(&format!("{tag}\\\"}}"))
}
fn is_init_result(v: &Value, id: &Value) -> bool { v["id"] == *id && v["result"]["protocolVersion"].is_string() }
macro_rules! got { ($m:expr, $e:expr, $ctx:expr) => { match $e { Some(x) => x, None => { $m.fail("no-reply", $ctx); return; } } } }

// ------------------------------------------------------------------ C21

fn c21(m: &Arc<Mon>) {
    let mut r = m.rng("c21");
    m.stage("histories");
    let rt = mrt(4);
    for _ in 0..m.n(300, 6000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        rt.block_on(lifecycle(m, &mut rr));
    }
    m.stage("many sessions");
    for _ in 0..m.n(2, 40) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        rt.block_on(many_sessions(m, &mut rr));
    }
    m.stage("at once");
    let rt8 = mrt(8);
    for _ in 0..m.n(4, 60) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        rt8.block_on(at_once(m, &mut rr, 150));
    }
    m.stage("stateless histories");
    for _ in 0..m.n(120, 2000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        rt.block_on(stateless(m, &mut rr));
    }
    m.stage("races");
    let rt = mrt(8);
    for _ in 0..m.n(150, 3000) {
        if m.stopped() { return; }
        let seed = r.u64();
        let m2 = m.clone();
        rt.block_on(async move { races(&m2, seed).await });
    }
}

async fn lifecycle(m: &Mon, r: &mut Rng) {
    let rig = Rig::start(Cfg { stateful: true, json: r.bool(), store: r.bool() }).await;
    let mut live: BTreeMap<String, Option<Live>> = BTreeMap::new();
    let mut dead: Vec<String> = vec![];
    let (mut opened, mut closed, mut calls): (Vec<String>, Vec<String>, Vec<String>) = Default::default();
    let mut trace = format!("{:?}:", rig.cfg);
    let mut n = 0u64;
    let mut turns = 0;
    for _ in 0..r.range(8, 50) {
        n += 1;
        let id = if r.bool() { json!(n) } else { json!(format!("r{n}")) };
        let sdk = r.bool();
        // A session id: live, dead, unknown or none.
        let kind = r.below(8);
        let sid: Option<String> = match kind {
            0 | 1 if !dead.is_empty() => { turns += 1; Some(r.pick(&dead).clone()) }
            0 if live.is_empty() => Some(format!("s-unknown{n}")),
            0 => { let s = r.pick(&live.keys().cloned().collect::<Vec<_>>()).clone(); Some(near(r, &s)) }
            1 => None,
            _ if !live.is_empty() => { let k: Vec<_> = live.keys().cloned().collect(); Some(r.pick(&k).clone()) }
            _ => None,
        };
        let is_live = sid.as_ref().is_some_and(|s| live.contains_key(s));
        let short = sid.as_ref().map_or("none".to_string(), |s| s.clone());
        let op = r.below(10);
        match op {
            0 | 1 => {
                let sid = if op == 0 { None } else { sid };
                let is_live = op != 0 && is_live;
                trace += &format!(" init[{}]", sid.clone().unwrap_or_default());
                let x = got!(m, rig.post(sid.as_deref(), None, &init(id.clone(), sdk)).await, &trace);
                match (&sid, is_live) {
                    (None, _) => {
                        let new = x.header("mcp-session-id").unwrap_or("").to_string();
                        let ok = x.status == 200 && !new.is_empty() && !live.contains_key(&new) && !dead.contains(&new) && reply(&x).is_some_and(|(v, _)| is_init_result(&v, &id));
                        if !m.check(ok, "init", || format!("{trace}: {x:?}")) { return; }
                        trace += &format!("={new}");
                        live.insert(new.clone(), None);
                        opened.push(new);
                    }
                    (_, true) => { if !m.check(x.status == 400, "init-twice", || format!("{trace}: {x:?}")) { return; } }
                    _ => { if !m.check(x.status == 404, "init-unknown", || format!("{trace}: {x:?}")) { return; } }
                }
            }
            2..=4 => {
                let tag = format!("t{n}");
                trace += &format!(" call[{short}]");
                // A live stream takes the replies: only its arrival is checked here.
                let x = got!(m, rig.post(sid.as_deref(), None, &call(id.clone(), &tag, sdk)).await, &trace);
                let want = if is_live { 200 } else if sid.is_some() { 404 } else { 400 };
                if is_live { calls.push(tag.clone()); }
                if let Some(Some(s)) = sid.as_ref().and_then(|s| live.get_mut(s)).filter(|_| !rig.cfg.json) {
                    let e = s.next(PATIENCE).await;
                    let ok = x.status == 202 && e.as_ref().is_some_and(|e| serde_json::from_str::<Value>(&e.data).is_ok_and(|v| answers(&v, &id, &tag)));
                    if !m.check(ok, "call-streamed", || format!("{trace}: {x:?} {e:?}")) { return; }
                } else {
                    let ok = x.status == want && (want != 200 || reply(&x).is_some_and(|(v, _)| answers(&v, &id, &tag)));
                    if !m.check(ok, "call", || format!("{trace}: want {want}, got {x:?}")) { return; }
                }
            }
            5 => {
                trace += &format!(" note[{short}]");
                let b = match r.below(3) { 0 => json!({"jsonrpc": "2.0", "id": id, "result": {}}), _ => json!({"jsonrpc": "2.0", "method": "notifications/initialized"}) };
                let x = got!(m, rig.post(sid.as_deref(), None, &b).await, &trace);
                let want = if is_live { 202 } else if sid.is_some() { 404 } else { 400 };
                if !m.check(x.status == want, "notification", || format!("{trace}: want {want}, got {x:?}")) { return; }
            }
            6 | 7 => {
                trace += &format!(" open[{short}]");
                let x = got!(m, rig.open(sid.as_deref(), None).await, &trace);
                let had = sid.as_ref().and_then(|s| live.get(s)).is_some_and(|s| s.is_some());
                match x {
                    Ok(l) => {
                        let new = l.resp.header("mcp-session-id").unwrap_or("").to_string();
                        let typed = l.resp.header("content-type").is_some_and(|c| c.starts_with("text/event-stream"));
                        match &sid {
                            Some(s) => { if !m.check(is_live && !had && new == *s && typed, "stream-accepted", || format!("{trace}: live {is_live}, had one {had}, {:?}", l.resp)) { return; } }
                            None => {
                                if !m.check(typed && !new.is_empty() && !live.contains_key(&new) && !dead.contains(&new), "stream-session", || format!("{trace}: {:?}", l.resp)) { return; }
                                opened.push(new.clone());
                            }
                        }
                        live.insert(new, Some(l));
                        m.count("streams opened", 1);
                    }
                    Err(e) => {
                        let want = if sid.is_none() { 0 } else if !is_live { 404 } else if had { 409 } else { 0 };
                        if !m.check(e.status == want, "stream-refused", || format!("{trace}: live {is_live}, had one {had}, status {}", e.status)) { return; }
                    }
                }
            }
            _ => {
                trace += &format!(" delete[{short}]");
                let x = got!(m, rig.delete(sid.as_deref()).await, &trace);
                let want = if is_live { 200 } else { 404 };
                if !m.check(x.status == want, "delete", || format!("{trace}: want {want}, got {x:?}")) { return; }
                if is_live {
                    let s = sid.unwrap();
                    if let Some(mut l) = live.remove(&s).flatten() {
                        let e = l.next(PATIENCE).await;
                        if !m.check(e.is_none() && l.ended, "stream-after-delete", || format!("{trace}: {e:?}, ended {}", l.ended)) { return; }
                    }
                    dead.push(s.clone());
                    closed.push(s);
                }
            }
        }
        let ok = rig.opened() == opened && rig.closed() == closed && rig.calls() == calls;
        if !m.check(ok, "reported", || format!("{trace}: opened {:?} want {opened:?}; closed {:?} want {closed:?}; calls {:?} want {calls:?}", rig.opened(), rig.closed(), rig.calls())) { return; }
    }
    m.count("sessions", opened.len() as u64);
    m.count("deletions", closed.len() as u64);
    m.case(&trace, turns > 0);
    m.sample("lifecycle", || trace.clone());
}

/// An id that is almost this one.
fn near(r: &mut Rng, s: &str) -> String {
    match r.below(9) { 0 => format!("{s}."), 1 => format!("{s}/"), 2 => s.to_uppercase(), 3 => s[..s.len() - 1].to_string(), 4 => format!("{s}0"), 5 => format!("0{s}"), 6 => format!("\"{s}\""), 7 => format!("{s},{s}"), _ => s.replace('-', "_") }
}

/// Requests of one kind that reach the server at the same moment.
async fn at_once(m: &Mon, r: &mut Rng, rounds: usize) {
    let rig = Rig::start(Cfg { stateful: true, json: r.bool(), store: r.bool() }).await;
    for k in 0..rounds {
        let x = got!(m, rig.post(None, None, &init(json!(k), false)).await, "init");
        let sid = x.header("mcp-session-id").unwrap_or("").to_string();
        let n = r.range(2, 5);
        let open = r.chance(1, 3);
        let hs: Headers = vec![h("Accept", "text/event-stream"), h("Mcp-Session-Id", &sid)];
        let out: Vec<u16> = together(rig.addr, n, if open { "GET" } else { "DELETE" }, "/", &hs, b"").await.into_iter().map(|x| x.map_or(0, |x| x.status)).collect();
        let lost = if open { 409 } else { 404 };
        let ok = out.iter().filter(|s| **s == 200).count() == 1 && out.iter().all(|s| *s == 200 || *s == lost);
        if !m.check(ok, if open { "open-race" } else { "delete-race" }, || format!("{n} at once on {sid}: {out:?}")) { return; }
        let closed = rig.closed().iter().filter(|s| **s == sid).count();
        if !m.check(closed == !open as usize, "closed-reported", || format!("{n} at once on {sid}, reported {closed} times")) { return; }
        m.count(if open { "simultaneous opens" } else { "simultaneous deletions" }, n as u64);
        m.case(("at once", k, n, open), true);
    }
}

async fn stateless(m: &Mon, r: &mut Rng) {
    let rig = Rig::start(Cfg { stateful: false, json: r.bool(), store: r.bool() }).await;
    let mut trace = format!("{:?}:", rig.cfg);
    let mut calls = vec![];
    for n in 0..r.range(4, 20) {
        let id = json!(n);
        let sid = if r.chance(1, 3) { Some(format!("any{}", r.below(3))) } else { None };
        let sdk = r.bool();
        match r.below(5) {
            0 => {
                trace += &format!(" init {sid:?}");
                let x = got!(m, rig.post(sid.as_deref(), None, &init(id.clone(), sdk)).await, &trace);
                if !m.check(x.status == 200 && x.header("mcp-session-id").is_none() && reply(&x).is_some_and(|(v, _)| is_init_result(&v, &id)), "stateless-init", || format!("{trace}: {x:?}")) { return; }
            }
            1 | 2 => {
                let tag = format!("t{n}");
                trace += &format!(" call {sid:?}");
                let x = got!(m, rig.post(sid.as_deref(), None, &call(id.clone(), &tag, sdk)).await, &trace);
                calls.push(tag.clone());
                if !m.check(x.status == 200 && x.header("mcp-session-id").is_none() && reply(&x).is_some_and(|(v, _)| answers(&v, &id, &tag)), "stateless-call", || format!("{trace}: {x:?}")) { return; }
            }
            3 => {
                let x = got!(m, rig.post(sid.as_deref(), None, &json!({"jsonrpc": "2.0", "method": "notifications/initialized"})).await, &trace);
                if !m.check(x.status == 202, "stateless-notification", || format!("{trace}: {x:?}")) { return; }
            }
            _ => {
                trace += &format!(" open {sid:?}");
                let status = match got!(m, rig.open(sid.as_deref(), None).await, &trace) { Ok(l) => l.resp.status, Err(e) => e.status };
                if !m.check(status == 405, "stateless-stream", || format!("{trace}: {status}")) { return; }
            }
        }
        if !m.check(rig.calls() == calls && rig.opened().is_empty(), "stateless-reported", || format!("{trace}: {:?} want {calls:?}; opened {:?}", rig.calls(), rig.opened())) { return; }
    }
    m.case(&trace, true);
}

async fn many_sessions(m: &Mon, r: &mut Rng) {
    let rig = Rig::start(Cfg { stateful: true, json: r.bool(), store: r.bool() }).await;
    let n = r.range(150, 1200);
    let mut sids = vec![];
    for k in 0..n {
        let x = got!(m, rig.post(None, None, &init(json!(k), r.bool())).await, "init");
        let ok = x.status == 200 && reply(&x).is_some_and(|(v, _)| is_init_result(&v, &json!(k)));
        if !m.check(ok, "init", || format!("session {k} of {n}: {x:?}")) { return; }
        sids.push(x.header("mcp-session-id").unwrap_or("").to_string());
    }
    m.check(sids.iter().collect::<HashSet<_>>().len() == n, "session-id-reused", || format!("{n}"));
    let mut dead = HashSet::new();
    for k in 0..n { if r.chance(1, 3) { let x = got!(m, rig.delete(Some(&sids[k])).await, "delete"); m.check(x.status == 200, "delete", || format!("{k} of {n}: {x:?}")); dead.insert(k); } }
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    for k in order {
        let x = got!(m, rig.post(Some(&sids[k]), None, &call(json!(k), &format!("t{k}"), false)).await, "call");
        let ok = if dead.contains(&k) { x.status == 404 } else { x.status == 202 || x.status == 200 && reply(&x).is_some_and(|(v, _)| answers(&v, &json!(k), &format!("t{k}"))) };
        if !m.check(ok, "many-sessions", || format!("session {k} of {n}, deleted {}: {x:?}", dead.contains(&k))) { return; }
    }
    m.eq(&rig.calls().len(), &(n - dead.len()), "handler-calls", || format!("{n} sessions"));
    m.eq(&rig.closed().len(), &dead.len(), "closed-reported", || format!("{n} sessions"));
    m.max("sessions at once", n as u64);
    m.case(("many", n, dead.len()), true);
}

async fn races(m: &Arc<Mon>, seed: u64) {
    let mut r = Rng::new(seed);
    let rig = Arc::new(Rig::start(Cfg { stateful: true, json: r.bool(), store: r.bool() }).await);
    // Concurrent initializations: every one gets a session of its own.
    let k = r.range(2, 6);
    let inits: Vec<_> = (0..k).map(|i| { let rig = rig.clone(); tokio::spawn(async move { rig.post(None, None, &init(json!(i), false)).await }) }).collect();
    let mut sids = vec![];
    for (i, j) in inits.into_iter().enumerate() {
        let x = got!(m, j.await.unwrap(), "concurrent init");
        let s = x.header("mcp-session-id").unwrap_or("").to_string();
        m.check(x.status == 200 && reply(&x).is_some_and(|(v, _)| is_init_result(&v, &json!(i))), "init-race", || format!("{x:?}"));
        sids.push(s);
    }
    let set: HashSet<_> = sids.iter().cloned().collect();
    if !m.check(set.len() == k && rig.opened().iter().cloned().collect::<HashSet<_>>() == set && rig.opened().len() == k, "sessions-race", || format!("{sids:?}, reported {:?}", rig.opened())) { return; }
    // On each: concurrent opens, calls and deletions.
    let mut jobs = vec![];
    for (si, sid) in sids.iter().enumerate() {
        let dels = r.range(1, 4);
        let opens = r.range(0, 4);
        let n_calls = r.range(0, 5);
        for d in 0..dels { let (rig, sid) = (rig.clone(), sid.clone()); let w = r.below(4) as u64; jobs.push(tokio::spawn(async move { tokio::time::sleep(Duration::from_millis(w)).await; let _ = d; ("delete", si, rig.delete(Some(&sid)).await.map(|x| x.status), None, String::new()) })); }
        for _ in 0..opens { let (rig, sid) = (rig.clone(), sid.clone()); jobs.push(tokio::spawn(async move { match rig.open(Some(&sid), None).await { Some(Ok(l)) => ("open", si, Some(l.resp.status), Some(l), String::new()), Some(Err(e)) => ("open", si, Some(e.status), None, String::new()), None => ("open", si, None, None, String::new()) } })); }
        for c in 0..n_calls { let (rig, sid) = (rig.clone(), sid.clone()); let tag = format!("{si}.{c}"); let w = r.below(4) as u64; jobs.push(tokio::spawn(async move { tokio::time::sleep(Duration::from_millis(w)).await; let x = rig.post(Some(&sid), None, &call(json!(c), &tag, false)).await; ("call", si, x.map(|x| x.status), None, tag) })); }
    }
    let mut outs = vec![];
    for j in jobs { outs.push(j.await.unwrap()); }
    let calls: HashSet<String> = rig.calls().into_iter().collect();
    for (si, sid) in sids.iter().enumerate() {
        let of = |what: &str| outs.iter().filter(|o| o.0 == what && o.1 == si).map(|o| o.2.unwrap_or(0)).collect::<Vec<u16>>();
        let (d, o) = (of("delete"), of("open"));
        m.check(d.iter().filter(|s| **s == 200).count() == 1 && d.iter().all(|s| *s == 200 || *s == 404), "delete-race", || format!("{sid}: {d:?}"));
        m.check(rig.closed().iter().filter(|s| *s == sid).count() == 1, "closed-reported", || format!("{sid}: {:?}", rig.closed()));
        m.check(o.iter().filter(|s| **s == 200).count() <= 1 && o.iter().all(|s| [200, 404, 409].contains(s)), "open-race", || format!("{sid}: {o:?}"));
        for x in outs.iter().filter(|x| x.0 == "call" && x.1 == si) {
            let s = x.2.unwrap_or(0);
            let ran = calls.contains(&x.4);
            m.check(matches!((s, ran), (200 | 202, true) | (404, false)), "call-race", || format!("{sid}: status {s}, handler ran {ran}"));
            m.count(if ran { "calls before a deletion" } else { "calls after a deletion" }, 1);
        }
        let after = rig.post(Some(sid), None, &call(json!(9), "after", false)).await.map(|x| x.status);
        m.check(after == Some(404), "used-after-delete", || format!("{sid}: {after:?}"));
    }
    m.check(!rig.calls().iter().any(|c| c == "after"), "ran-after-delete", || "a handler ran".into());
    // The streams that were opened have all ended.
    for o in outs { if let Some(mut l) = o.3 { while l.next(PATIENCE).await.is_some() {} m.check(l.ended, "stream-survives-delete", || sids[o.1].clone()); m.count("streams ended by deletion", 1); } }
    m.case(("race", seed), true);
}

// ------------------------------------------------------------------ C22

fn c22(m: &Arc<Mon>) {
    let mut r = m.rng("c22");
    m.stage("requests");
    let rt = mrt(4);
    for round in 0..m.n(120, 3000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        rt.block_on(rules(m, &mut rr, round));
    }
}

const JSON_TYPES: &[&str] = &["application/json", "application/json; charset=utf-8", "Application/JSON", "application/json;charset=UTF-8", "APPLICATION/JSON ; q=1"];
const OTHER_TYPES: &[&str] = &["text/plain", "text/plain; x=application/json", "application/jsonp", "application/json-seq", "application/json+ld", "application/vnd.api+json", "application/x-www-form-urlencoded", "multipart/form-data; boundary=application/json", "", "json", "text/event-stream", "xapplication/json", "application/xml, application/json"];
const ACCEPTS: &[&str] = &["application/json", "text/event-stream", "application/json, text/event-stream", "text/event-stream;q=0.9, text/html", "text/html, Application/Json", "text/event-stream ,application/json", "application/json;q=0.5"];
const OTHER_ACCEPTS: &[&str] = &["text/html", "text/plain, application/xml", "application/jsonp", "text/event-streams", "application/json+x", "text/event-stream+xml", "", "json", "text/html; x=\"application/json\"", "xtext/event-stream"];

async fn rules(m: &Mon, r: &mut Rng, round: usize) {
    let rig = Rig::start(Cfg { stateful: round % 4 != 3, json: r.bool(), store: r.bool() }).await;
    let (mut sid, mut version) = (None, None);
    // Neither the header nor an unsupported request settles the version: the result does.
    let hv = r.bool().then(|| *r.pick(&["2025-06-18", "2025-03-26", "2024-11-05", "1999-01-01", "latest"]));
    let asked = *r.pick(&["2025-06-18", "2025-06-18", "2025-03-26", "2024-11-05", "1999-01-01"]);
    let first = body(json!(0), "initialize", json!({"protocolVersion": asked, "capabilities": {}, "clientInfo": {"name": "c", "version": "1"}}), r.bool());
    let x = got!(m, rig.post(None, hv, &first).await, "init");
    let Some((v, _)) = reply(&x) else { m.fail("init", format!("{x:?}")); return };
    if !m.check(x.header("mcp-protocol-version").is_some() && x.header("mcp-protocol-version") == v["result"]["protocolVersion"].as_str(), "negotiated-version", || format!("asked {asked}, header {hv:?}: {x:?}")) { return; }
    if rig.cfg.stateful { sid = x.header("mcp-session-id").map(str::to_string); version = x.header("mcp-protocol-version").map(str::to_string); }
    let mut opened = rig.opened().len();
    let mut calls = 0usize;
    for n in 0..60u64 {
        let mut broken: Vec<u16> = vec![];
        let get = r.chance(1, 8);
        let mut hs: Headers = vec![];
        let mut what = String::new();
        if !get {
            match r.below(8) {
                0 => { broken.push(415); what += " no content type"; }
                1 => { let c = *r.pick(OTHER_TYPES); broken.push(415); what += &format!(" type {c:?}"); hs.push(h("Content-Type", c)); }
                2 if r.chance(1, 4) => { broken.push(415); what += " raw type"; hs.push(h("Content-Type", b"\xff\xfe/json")); }
                _ => { let c = *r.pick(JSON_TYPES); what += &format!(" type {c:?}"); hs.push(h(*r.pick(&["Content-Type", "content-type", "CONTENT-TYPE"]), c)); }
            }
        }
        match r.below(10) {
            0 => { broken.push(406); what += " no accept"; }
            // What decides may come after any number of others, in one header or in many.
            8 | 9 => {
                let good = r.chance(3, 4).then(|| *r.pick(&["application/json", "text/event-stream", "TEXT/Event-Stream;q=0.1"]));
                let mut all: Vec<String> = (0..r.range(3, 24)).map(|i| format!("text/x-{i}")).collect();
                if r.chance(1, 3) { all.extend(OTHER_ACCEPTS.iter().filter(|a| !a.contains('"')).map(|a| a.to_string())); }
                if let Some(g) = good { let at = if r.bool() { all.len() } else { r.below(all.len()) }; all.insert(at, g.into()); }
                if good.is_none() || (get && !names_stream(good.unwrap())) { broken.push(406); }
                what += &format!(" accepts {all:?}");
                if r.bool() { hs.push(h("Accept", all.join(", "))); } else { for a in &all { hs.push(h("Accept", a)); } }
            }
            1 => { let c = *r.pick(OTHER_ACCEPTS); broken.push(406); what += &format!(" accept {c:?}"); hs.push(h("Accept", c)); }
            2 => { let (a, b) = (*r.pick(OTHER_ACCEPTS), *r.pick(ACCEPTS)); what += &format!(" accept {a:?} and {b:?}"); hs.push(h("Accept", a)); hs.push(h("Accept", b)); if get && !names_stream(b) { broken.push(406); } }
            _ => { let c = *r.pick(ACCEPTS); what += &format!(" accept {c:?}"); hs.push(h("Accept", c)); if get && !names_stream(c) { broken.push(406); } }
        }
        if get {
            // Only refusals: an accepted stream is the concern of C23.
            if broken.is_empty() { continue; }
            if let Some(s) = &sid { hs.push(h("mcp-session-id", s)); }
            let out = got!(m, Live::open(rig.addr, "/", &hs).await, what.clone());
            let status = match out { Ok(l) => l.resp.status, Err(e) => e.status };
            let allowed = status == 406 || (!rig.cfg.stateful && status == 405);
            m.check(allowed, "get-accept", || format!("{what}: {status}"));
            m.case(("get", &what), true);
            m.check(rig.opened().len() == opened, "session-from-bad-get", || what.clone());
            continue;
        }
        let is_init = r.chance(1, 6);
        let note = !is_init && r.chance(1, 6);
        if !is_init {
            if let Some(s) = &sid { hs.push(h(*r.pick(&["mcp-session-id", "Mcp-Session-Id", "MCP-SESSION-ID"]), s)); }
            match r.below(6) {
                0 => { let v = *r.pick(&["1999-01-01", "latest", "2025-06-18x", "2024-11-5", "2.0", "\"2025-06-18\"", "'2025-06-18'", "v2025-06-18", "2025-06-18,2025-03-26", "2025/06/18", "2025-06"]); broken.push(400); what += &format!(" version {v:?}"); hs.push(h("mcp-protocol-version", v)); }
                1 => {
                    let v = *r.pick(pmcp::SUPPORTED_PROTOCOL_VERSIONS);
                    what += &format!(" version {v:?}");
                    hs.push(h("mcp-protocol-version", v));
                    if version.as_deref().is_some_and(|w| w != v) { broken.push(400); }
                }
                2 => if let Some(v) = &version { what += &format!(" version {v:?}"); hs.push(h("MCP-Protocol-Version", v)); },
                _ => {}
            }
        }
        // An initialization is what settles the version, so it may come with any.
        if is_init && r.chance(1, 2) { let v = *r.pick(&["1999-01-01", "latest", "2025-06-18", "2024-11-05", "2025-03-26"]); what += &format!(" version {v:?}"); hs.push(h("mcp-protocol-version", v)); }
        let id = if r.bool() { json!(n as i64 - 3) } else { json!(r.string(6)) };
        let tag = format!("t{n}");
        let sdk = r.bool();
        let good = if is_init { init(id.clone(), sdk) } else if note { json!({"jsonrpc": "2.0", "method": "notifications/initialized"}) } else { call(id.clone(), &tag, sdk) };
        let mut raw = if r.chance(1, 4) { serde_json::to_vec_pretty(&good).unwrap() } else { good.to_string().into_bytes() };
        match r.below(10) {
            0 => { raw.pop(); broken.push(400); what += " truncated body"; }
            1 => { let mut v = good.clone(); let o = v.as_object_mut().unwrap(); o.remove("method"); o.remove("request"); o.remove("result"); raw = v.to_string().into_bytes(); broken.push(400); what += " body without method"; }
            2 if r.bool() => { let i = r.below(raw.len()); raw.insert(i, 0xff); broken.push(400); what += " body not UTF-8"; }
            3 if r.bool() => { raw = r.pick(&["", " ", "null", "[]", "{}", "1", "\"x\"", "{", "[1]", "{\"jsonrpc\":\"2.0\"}", "{\"jsonrpc\":\"2.0\",\"id\":1}", "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"no/such\"}", "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":5}"]).as_bytes().to_vec(); broken.push(400); what += &format!(" body {:?}", String::from_utf8_lossy(&raw)); }
            _ => {}
        }
        let ctx = || format!("{:?} init {is_init} note {note} sdk {sdk}:{what}", rig.cfg);
        let x = got!(m, request(rig.addr, "POST", "/", &hs, &raw).await, ctx());
        if broken.is_empty() {
            if note { m.check(x.status == 202, "accepted-notification", || format!("{}: {x:?}", ctx())); }
            else if is_init {
                let ok = x.status == 200 && reply(&x).is_some_and(|(v, _)| is_init_result(&v, &id) && v["result"]["protocolVersion"].as_str() == x.header("mcp-protocol-version"));
                m.check(ok, "accepted-init", || format!("{}: {x:?}", ctx()));
                if rig.cfg.stateful { opened += 1; }
            } else {
                calls += 1;
                let ok = x.status == 200 && reply(&x).is_some_and(|(v, _)| answers(&v, &id, &tag));
                m.check(ok, "accepted-call", || format!("{}: {x:?}", ctx()));
                m.check(x.header("mcp-protocol-version").is_some_and(|v| version.is_none() || version.as_deref() == Some(v)), "version-header", || format!("asked {asked}, first header {hv:?}: {}: {x:?}, negotiated {version:?}", ctx()));
            }
            m.count("accepted requests", 1);
        } else {
            m.check(broken.contains(&x.status), "refused", || format!("{}: want one of {broken:?}, got {x:?}", ctx()));
            m.count("refused requests", 1);
        }
        let ok = rig.calls().len() == calls && rig.opened().len() == opened;
        if !m.check(ok, "effects", || format!("{}: {} handler runs want {calls}, {} sessions want {opened}", ctx(), rig.calls().len(), rig.opened().len())) { return; }
        m.case(ctx(), true);
        m.sample(if broken.is_empty() { "accepted" } else { "refused" }, ctx);
    }
}
fn names_stream(a: &str) -> bool { a.split(',').any(|p| p.split(';').next().unwrap_or("").trim().eq_ignore_ascii_case("text/event-stream")) }

// ------------------------------------------------------------------ C23

fn c23(m: &Arc<Mon>) {
    let mut r = m.rng("c23");
    m.stage("event store histories");
    for _ in 0..m.n(2000, 40_000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        mon::vrt().block_on(event_store(m, &mut rr));
    }
    m.stage("many events");
    for _ in 0..m.n(3, 40) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        mon::vrt().block_on(many_stored(m, &mut rr));
        rt_many(m, &mut rr);
        slow_reader(m, &mut rr);
        many_streams(m, &mut rr);
    }
    m.stage("event store threads");
    for _ in 0..m.n(150, 3000) { if m.stopped() { return; } store_race(m, r.u64()); }
    m.stage("stream histories");
    let rt = mrt(4);
    for _ in 0..m.n(250, 5000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        rt.block_on(streams(m, &mut rr));
    }
    m.stage("concurrent sessions");
    let rt = mrt(8);
    for _ in 0..m.n(60, 1500) {
        if m.stopped() { return; }
        let seed = r.u64();
        let m2 = m.clone();
        rt.block_on(async move { crowd(&m2, seed).await });
    }
}

fn note(n: u64) -> TransportMessage { TransportMessage::Notification(Notification::Progress(ProgressNotification { progress_token: ProgressToken::Number(n as i64), progress: n as f64, message: None })) }
fn unnote(m: &TransportMessage) -> u64 { match m { TransportMessage::Notification(Notification::Progress(p)) => p.progress as u64, _ => u64::MAX } }

async fn event_store(m: &Mon, r: &mut Rng) {
    let s = InMemoryEventStore::default();
    let mut log: Vec<(String, String, u64)> = vec![];
    let mut asked = 0;
    for n in 0..r.range(1, 40) as u64 {
        if r.chance(2, 3) {
            let (stream, id) = (format!("s{}", r.below(3)), format!("{}-{n}", r.ident(3)));
            s.store_event(&stream, &id, &note(n)).await.unwrap();
            log.push((stream, id, n));
        } else if !log.is_empty() {
            let i = r.below(log.len());
            let got: Vec<(String, u64)> = s.replay_events_after(&log[i].1).await.unwrap().iter().map(|(i, x)| (i.clone(), unnote(x))).collect();
            // The stream's own later events are what a resumption uses.
            let own = |id: &str| log.iter().any(|l| l.1 == id && l.0 == log[i].0);
            let got_own: Vec<_> = got.iter().filter(|g| own(&g.0)).cloned().collect();
            let want: Vec<_> = log[i + 1..].iter().filter(|l| l.0 == log[i].0).map(|l| (l.1.clone(), l.2)).collect();
            asked += 1;
            if !m.eq(&got_own, &want, "replay", || format!("{log:?} after {}", log[i].1)) { return; }
            let of = s.get_stream_for_event(&log[i].1).await.unwrap();
            m.eq(&of, &Some(log[i].0.clone()), "stream-of-event", || log[i].1.clone());
            m.eq(&s.get_stream_for_event("never stored").await.unwrap(), &None, "stream-of-nothing", || "never stored".into());
        }
    }
    m.count("replays from the store", asked);
    m.case(("store", format!("{log:?}")), asked > 0);
}

async fn many_stored(m: &Mon, r: &mut Rng) {
    let s = InMemoryEventStore::default();
    let n = *r.pick(&[600usize, 1100, 3000]);
    let of: Vec<usize> = (0..n).map(|_| r.below(3)).collect();
    for k in 0..n { s.store_event(&format!("s{}", of[k]), &format!("e{k}"), &note(k as u64)).await.unwrap(); }
    for k in [0, 1, n / 2, n - 2, r.below(n), r.below(n)] {
        let got: Vec<(String, u64)> = s.replay_events_after(&format!("e{k}")).await.unwrap().iter().map(|(i, x)| (i.clone(), unnote(x))).filter(|x| of[x.1 as usize] == of[k]).collect();
        let want: Vec<(String, u64)> = (k + 1..n).filter(|j| of[*j] == of[k]).map(|j| (format!("e{j}"), j as u64)).collect();
        if !m.check(got == want, "replay", || format!("event {k} of {n}: {} replayed, want {}", got.len(), want.len())) { return; }
    }
    m.max("events in a store", n as u64);
    m.case(("many stored", n, of[0]), true);
}
/// A session whose stream was away for hundreds of replies gets them all on its return.
fn rt_many(m: &Mon, r: &mut Rng) {
    let n = *r.pick(&[130usize, 300, 1050]);
    mrt(2).block_on(async {
        let rig = Rig::start(Cfg { stateful: true, json: false, store: true }).await;
        let x = got!(m, rig.post(None, None, &init(json!("i"), false)).await, "init");
        let sid = x.header("mcp-session-id").unwrap_or("").to_string();
        let mut live = match rig.open(Some(&sid), None).await { Some(Ok(l)) => l, _ => { m.fail("stream-refused", "first stream"); return } };
        let x = got!(m, rig.post(Some(&sid), None, &call(json!("first"), "first", false)).await, "call");
        m.check(x.status == 202, "accepted", || format!("{x:?}"));
        let Some(e) = live.next(PATIENCE).await else { m.fail("not-delivered", "first event"); return };
        let Some(last) = e.id.clone() else { m.fail("no-id", format!("{e:?}")); return };
        // while it stays open, a reader that does not read loses nothing
        for k in 0..n { let x = got!(m, rig.post(Some(&sid), None, &call(json!(k), &format!("t{k}"), false)).await, "call"); if !m.check(x.status == 202, "accepted", || format!("{k} of {n}: {x:?}")) { return; } }
        let mut ids = vec![];
        for k in 0..n {
            let Some(e) = live.next(PATIENCE).await else { m.fail("not-delivered", format!("event {k} of {n}")); return };
            let v: Value = serde_json::from_str(&e.data).unwrap_or_default();
            if !m.check(answers(&v, &json!(k), &format!("t{k}")), "order", || format!("event {k} of {n}: {e:?}")) { return; }
            ids.push(e.id.unwrap_or_default());
        }
        drop(live);
        for from in [None, Some(r.below(n)), Some(n - 1)] {
            let id = from.map_or(last.clone(), |k| ids[k].clone());
            let t0 = std::time::Instant::now();
            let mut live = loop { match rig.open(Some(&sid), Some(&id)).await { Some(Ok(l)) => break l, Some(Err(e)) if e.status == 409 && t0.elapsed() < PATIENCE => tokio::time::sleep(Duration::from_millis(5)).await, _ => { m.fail("stream-refused", "resumption"); return } } };
            for k in from.map_or(0, |k| k + 1)..n {
                let Some(e) = live.next(PATIENCE).await else { m.fail("not-replayed", format!("event {k} of {n} after {from:?}")); return };
                if !m.check(e.id.as_ref() == Some(&ids[k]), "replay", || format!("event {k} of {n} after {from:?}: {e:?}")) { return; }
            }
            m.count("events replayed on resumption", (n - from.map_or(0, |k| k + 1)) as u64);
        }
        m.max("events of one session", n as u64);
        m.case(("many on a stream", n), true);
    });
}

/// Many sessions, each with its own stream and numbering its requests from 0.
fn many_streams(m: &Mon, r: &mut Rng) {
    mrt(4).block_on(async {
        let rig = Rig::start(Cfg { stateful: true, json: false, store: true }).await;
        let n = *r.pick(&[9usize, 20, 40, 110]);
        let mut ss: Vec<(String, Option<Live>, Vec<Option<String>>)> = vec![];
        for k in 0..n {
            let x = got!(m, rig.post(None, None, &init(json!(0), r.bool())).await, "init");
            let sid = x.header("mcp-session-id").unwrap_or("").to_string();
            let Some(Ok(l)) = rig.open(Some(&sid), None).await else { m.fail("stream-refused", format!("session {k} of {n}")); return };
            ss.push((sid, Some(l), vec![]));
        }
        for round in 0..3usize {
            let mut order: Vec<usize> = (0..n).collect();
            r.shuffle(&mut order);
            for k in order {
                let (sid, live, log) = &mut ss[k];
                let tag = format!("s{k}r{round}");
                let x = got!(m, rig.post(Some(sid), None, &call(json!(round), &tag, false)).await, "call");
                let (v, id) = match live {
                    Some(l) => {
                        if !m.check(x.status == 202, "accepted", || format!("session {k} of {n} has a stream: {x:?}")) { return; }
                        let Some(e) = l.next(PATIENCE).await else { m.fail("not-delivered", format!("session {k} of {n}, call {round}")); return };
                        (serde_json::from_str(&e.data).unwrap_or_default(), e.id)
                    },
                    // its broken stream may have taken it
                    None if x.status == 202 => { log.push(None); continue; },
                    None => { let Some(x) = reply(&x) else { m.fail("no-result", format!("session {k} of {n}: {x:?}")); return }; x },
                };
                if !m.check(answers(&v, &json!(round), &tag) && id.is_some(), "wrong-event", || format!("session {k} of {n}: {v} {id:?}")) { return; }
                log.push(id);
            }
            if round == 0 { for s in &mut ss { if r.chance(1, 3) { s.1 = None; } } }
        }
        let mut replayed = 0;
        for (k, (sid, live, log)) in ss.iter_mut().enumerate() {
            if live.is_some() { let e = live.as_mut().unwrap().next(Duration::from_millis(1)).await; m.check(e.is_none(), "leftover-event", || format!("session {k} of {n}: {e:?}")); continue; }
            let t0 = std::time::Instant::now();
            let mut l = loop { match rig.open(Some(sid), log[0].as_deref()).await { Some(Ok(l)) => break l, Some(Err(e)) if e.status == 409 && t0.elapsed() < PATIENCE => tokio::time::sleep(Duration::from_millis(5)).await, _ => { m.fail("stream-refused", format!("session {k} of {n}, resumption")); return } } };
            for round in 1..3usize {
                let Some(e) = l.next(PATIENCE).await else { m.fail("not-replayed", format!("session {k} of {n}, call {round}")); return };
                let v: Value = serde_json::from_str(&e.data).unwrap_or_default();
                if !m.check(answers(&v, &json!(round), &format!("s{k}r{round}")) && (log[round].is_none() || e.id == log[round]), "replayed", || format!("session {k} of {n}, call {round} {:?}: {e:?}", log[round])) { return; }
                replayed += 1;
            }
            *live = Some(l);
        }
        m.count("events replayed among many sessions", replayed);
        m.max("streams at once", n as u64);
        m.case(("many streams", n, replayed), replayed > 0);
    });
}

/// A resumed stream brings what it missed before anything newer, however slowly it is read.
fn slow_reader(m: &Mon, r: &mut Rng) {
    let (n, more, size) = (r.range(350, 550), r.range(5, 40), 20_000);
    mrt(4).block_on(async {
        let rig = Rig::start(Cfg { stateful: true, json: false, store: true }).await;
        let x = got!(m, rig.post(None, None, &init(json!("i"), false)).await, "init");
        let sid = x.header("mcp-session-id").unwrap_or("").to_string();
        let (pad, mut ids) = ("x".repeat(size), vec![]);
        let tag = |k: usize| format!("{k}{pad}");
        for k in 0..n {
            let x = got!(m, rig.post(Some(&sid), None, &call(json!(k), &tag(k), false)).await, "call");
            match reply(&x) { Some((_, Some(id))) if x.status == 200 => ids.push(id), _ => { m.fail("own-reply", format!("{k} of {n}: {}", x.status)); return } }
        }
        let mut live = match rig.open(Some(&sid), Some(&ids[0])).await { Some(Ok(l)) => l, _ => { m.fail("stream-refused", "resumption"); return } };
        for k in n..n + more { let x = got!(m, rig.post(Some(&sid), None, &call(json!(k), &tag(k), false)).await, "call"); if !m.check(x.status == 202, "accepted", || format!("{k}: {}", x.status)) { return; } }
        for k in 1..n + more {
            let Some(e) = live.next(PATIENCE).await else { m.fail("not-replayed", format!("event {k} of {n} and {more}")); return };
            let v: Value = serde_json::from_str(&e.data).unwrap_or_default();
            if !m.check(v["id"] == json!(k) && (k >= n || e.id.as_ref() == Some(&ids[k])), "replay-order", || format!("event {k} of {n} and {more}: brought {} as {:?}", v["id"], e.id)) { return; }
        }
        m.count("events brought to a slow reader", (n + more - 1) as u64);
        m.case(("slow reader", n, more), true);
    });
}

fn store_race(m: &Arc<Mon>, seed: u64) {
    let s = Arc::new(InMemoryEventStore::default());
    let (tx, rx) = std::sync::mpsc::channel();
    let b = Arc::new(std::sync::Barrier::new(6));
    for t in 0..6u64 {
        let (s, tx, b, m) = (s.clone(), tx.clone(), b.clone(), m.clone());
        std::thread::spawn(move || {
            let rt = mon::crt();
            b.wait();
            rt.block_on(async {
                for i in 0..60u64 {
                    if t < 3 { s.store_event(&format!("s{t}"), &format!("{t}.{i}"), &note(i)).await.unwrap(); }
                    else {
                        let got: Vec<u64> = s.replay_events_after("none").await.unwrap().iter().filter(|e| e.0.starts_with(&format!("{}.", t - 3))).map(|e| unnote(&e.1)).collect();
                        m.check(got.iter().enumerate().all(|(i, x)| *x == i as u64), "replay-race", || format!("{got:?}"));
                    }
                }
            });
            let _ = tx.send(t);
        });
    }
    let mut done = 0;
    while done < 6 { match rx.recv_timeout(PATIENCE) { Ok(_) => done += 1, Err(_) => { m.fail("store-deadlock", format!("seed {seed}: {} of 6 threads storing and replaying never finished", 6 - done)); return; } } }
    m.count("concurrent stores", 180);
    m.case(("store race", seed), true);
}

struct Sess { sid: String, live: Option<Live>, /** the session's stored events: tag, id once known */ log: Vec<(String, Option<String>)>, dropped: bool }

async fn streams(m: &Mon, r: &mut Rng) {
    let cfg = Cfg { stateful: true, json: r.chance(1, 4), store: r.chance(4, 5) };
    let rig = Rig::start(cfg).await;
    let mut ss: Vec<Sess> = vec![];
    let mut trace = format!("{cfg:?}:");
    for i in 0..r.range(1, 4) {
        let x = got!(m, rig.post(None, None, &init(json!(i), r.bool())).await, "init");
        let known = reply(&x).and_then(|(_, id)| id);
        ss.push(Sess { sid: x.header("mcp-session-id").unwrap_or("").into(), live: None, log: vec![(format!("init{i}"), known)], dropped: false });
    }
    let mut ids: HashSet<String> = HashSet::new();
    // every session may number its requests for itself
    let shared = r.bool();
    let idof = |tag: &str| if shared { json!(tag.rsplit(':').next().and_then(|k| k.parse::<u64>().ok())) } else { json!(tag) };
    let (mut resumed, mut on_stream, mut own) = (0u64, 0u64, 0u64);
    for n in 0..r.range(8, 40) {
        let i = r.below(ss.len());
        match r.below(8) {
            0..=3 => {
                let s = &mut ss[i];
                let tag = format!("{}{i}:{}", if r.chance(1, 6) { "!" } else { "" }, if shared { s.log.len() } else { n });
                let x = got!(m, rig.post(Some(&s.sid), None, &call(idof(&tag), &tag, r.bool())).await, &trace);
                trace += &format!(" call{i}={}", x.status);
                if x.status == 202 && !cfg.json {
                    if let Some(l) = &mut s.live {
                        let Some(e) = l.next(PATIENCE).await else { m.fail("never-delivered", format!("{trace}: accepted, but its stream brought nothing")); return };
                        let v: Value = serde_json::from_str(&e.data).unwrap_or_default();
                        if !m.check(answers(&v, &idof(&tag), &tag) && e.id.as_ref().is_some_and(|x| ids.insert(x.clone())), "wrong-event", || format!("{trace}: {e:?}")) { return; }
                        s.log.push((tag, e.id));
                        on_stream += 1;
                    } else {
                        // Only a stream that just broke can have taken it.
                        if !m.check(s.dropped, "nowhere", || format!("{trace}: accepted without a stream")) { return; }
                        s.log.push((tag, None));
                    }
                } else {
                    let Some((v, id)) = reply(&x) else { m.fail("no-result", format!("{trace}: {x:?}")); return };
                    let ok = x.status == 200 && answers(&v, &idof(&tag), &tag) && id.as_ref().map_or(true, |x| ids.insert(x.clone()));
                    if !m.check(ok, "own-reply", || format!("{trace}: {x:?}")) { return; }
                    m.check(s.live.is_none() || cfg.json, "streamed-session-answered-directly", || trace.clone());
                    s.log.push((tag, id));
                    own += 1;
                }
            }
            4 | 5 => {
                // Open, possibly after an event already seen.
                let s = &mut ss[i];
                if s.live.is_some() {
                    let last = s.log.iter().rev().find_map(|e| e.1.clone()).filter(|_| r.bool());
                    let x = got!(m, rig.open(Some(&s.sid), last.as_deref()).await, &trace);
                    let status = match x { Ok(l) => l.resp.status, Err(e) => e.status };
                    trace += &format!(" open-again{i} after {last:?}");
                    if !m.check(status == 409, "second-stream", || format!("{trace}: {status}")) { return; }
                    continue;
                }
                let seen: Vec<usize> = (0..s.log.len()).filter(|k| s.log[*k].1.is_some()).collect();
                let from = if seen.is_empty() || r.chance(1, 4) { None } else if r.bool() { Some(*seen.last().unwrap()) } else { Some(*r.pick(&seen)) };
                let last = from.and_then(|k| s.log[k].1.clone());
                trace += &format!(" open{i} after {from:?}");
                // A broken stream is noticed soon, not at once.
                let t0 = std::time::Instant::now();
                let mut l = loop {
                    match got!(m, rig.open(Some(&s.sid), last.as_deref()).await, &trace) {
                        Ok(l) => break l,
                        Err(e) if e.status == 409 && s.dropped && t0.elapsed() < PATIENCE => tokio::time::sleep(Duration::from_millis(5)).await,
                        Err(e) => { m.fail("stream-refused", format!("{trace}: status {}, dropped {}", e.status, s.dropped)); return; }
                    }
                };
                s.dropped = false;
                if let (Some(k), true) = (from, cfg.store) {
                    for j in k + 1..s.log.len() {
                        let (tag, id) = s.log[j].clone();
                        let Some(e) = l.next(PATIENCE).await else { m.fail("not-replayed", format!("{trace}: event {j} ({tag}) of {:?}", s.log)); return };
                        let v: Value = serde_json::from_str(&e.data).unwrap_or_default();
                        if !m.check(answers(&v, &idof(&tag), &tag) && (id.is_none() || e.id == id), "replayed", || format!("{trace}: want {tag} {id:?}, got {e:?}")) { return; }
                        s.log[j].1 = e.id;
                        resumed += 1;
                    }
                }
                s.live = Some(l);
            }
            6 => {
                let s = &mut ss[i];
                if s.live.take().is_some() { s.dropped = true; trace += &format!(" drop{i}"); if r.bool() { tokio::time::sleep(Duration::from_millis(r.below(20) as u64)).await; } }
            }
            _ => {
                // Nobody else's events: nothing is waiting on any stream.
                let s = &mut ss[i];
                if let Some(l) = &mut s.live { if r.chance(1, 3) { let e = l.next(Duration::from_millis(3)).await; if !m.check(e.is_none() && !l.ended, "unexpected-event", || format!("{trace}: {e:?}, ended {}", l.ended)) { return; } } }
            }
        }
    }
    for (i, s) in ss.iter_mut().enumerate() { if let Some(l) = &mut s.live { let e = l.next(Duration::from_millis(5)).await; if !m.check(e.is_none() && !l.ended, "leftover-event", || format!("{trace}: session {i}: {e:?}")) { return; } } }
    if let Some(store) = &rig.store {
        // What was stored is what was delivered.
        let all = store.replay_events_after("none").await.unwrap();
        m.check(all.len() == ss.iter().map(|s| s.log.len()).sum::<usize>(), "stored", || format!("{trace}: {} stored, {:?}", all.len(), ss.iter().map(|s| s.log.len()).collect::<Vec<_>>()));
    }
    m.count("events replayed", resumed);
    m.count("replies on streams", on_stream);
    m.count("own replies", own);
    m.case(&trace, resumed > 0 || (on_stream > 0 && own > 0));
    m.sample("streams", || trace.clone());
}

/// Many sessions at once, each with concurrent requests and a stream that breaks and resumes.
async fn crowd(m: &Arc<Mon>, seed: u64) {
    let mut r = Rng::new(seed);
    let rig = Arc::new(Rig::start(Cfg { stateful: true, json: false, store: true }).await);
    let k = r.range(2, 5);
    let jobs: Vec<_> = (0..k).map(|si| { let (rig, m) = (rig.clone(), m.clone()); let mut r = r.fork(); tokio::spawn(async move {
        let x = rig.post(None, None, &init(json!(0), false)).await?;
        let sid = x.header("mcp-session-id")?.to_string();
        let mut live = None;
        let mut seen: HashMap<String, (String, usize)> = HashMap::new();
        let mut order: Vec<String> = vec![];
        let mut last: Option<String> = None;
        let total = 24usize;
        let mut posted = 0;
        let mut own = 0u64;
        while posted < total || seen.values().map(|v| &v.0).collect::<HashSet<_>>().len() < total {
            if live.is_none() && (posted >= total || r.chance(2, 3)) {
                let t0 = std::time::Instant::now();
                let l = loop { match rig.open(Some(&sid), last.as_deref()).await? { Ok(l) => break l, Err(e) if e.status == 409 && t0.elapsed() < PATIENCE => tokio::time::sleep(Duration::from_millis(3)).await, Err(e) => { m.fail("stream-refused", format!("session {si}: {}", e.status)); return None; } } };
                live = Some(l);
            }
            let batch = r.range(1, 4).min(total - posted);
            let posts: Vec<_> = (posted..posted + batch).map(|n| { let (rig, sid) = (rig.clone(), sid.clone()); tokio::spawn(async move { let tag = format!("{si}/{n}"); (tag.clone(), rig.post(Some(&sid), None, &call(json!(tag), &tag, n % 2 == 0)).await) }) }).collect();
            posted += batch;
            let cut = r.chance(1, 3);
            if cut { tokio::time::sleep(Duration::from_micros(r.below(3000) as u64)).await; }
            for p in posts {
                let (tag, x) = p.await.unwrap();
                let x = x?;
                if x.status == 200 {
                    let (v, id) = reply(&x)?;
                    if !m.check(answers(&v, &json!(tag), &tag), "own-reply", || format!("{tag}: {x:?}")) { return None; }
                    own += 1;
                    // Also stored: a later resumption may bring it again under the same id.
                    let e = seen.entry(id.unwrap_or_default()).or_insert((tag.clone(), 0));
                    if !m.check(e.0 == tag, "event-id-reused", || format!("{tag} and {}", e.0)) { return None; }
                } else if !m.check(x.status == 202, "status", || format!("{tag}: {x:?}")) { return None; }
            }
            let Some(l) = live.as_mut() else { continue };
            let mut here: HashSet<String> = HashSet::new();
            loop {
                let missing = posted > seen.values().map(|v| &v.0).collect::<HashSet<_>>().len();
                let Some(e) = l.next(if missing && !cut { PATIENCE } else { Duration::from_millis(2) }).await else { break };
                let v: Value = serde_json::from_str(&e.data).unwrap_or_default();
                let tag = v["id"].as_str().unwrap_or("?").to_string();
                if v["result"]["protocolVersion"].is_string() { last = e.id; continue; }
                let Some(id) = e.id.clone() else { m.fail("event-without-id", format!("{e:?}")); return None };
                if !m.check(answers(&v, &json!(tag), &tag) && tag.starts_with(&format!("{si}/")), "foreign-event", || format!("session {si}: {e:?}")) { return None; }
                if !m.check(here.insert(id.clone()), "event-twice-on-a-stream", || format!("session {si}: {e:?}")) { return None; }
                let x = seen.entry(id.clone()).or_insert((tag.clone(), 0));
                if !m.check(x.0 == tag, "event-id-reused", || format!("{tag} and {}", x.0)) { return None; }
                order.push(tag);
                last = Some(id);
            }
            let missing = posted - seen.values().map(|v| &v.0).collect::<HashSet<_>>().len();
            if !m.check(missing == 0 || cut, "lost", || format!("session {si}: {missing} replies never came")) { return None; }
            if cut { live = None; }
        }
        // One id per reply.
        m.check(seen.len() == total, "stored-twice", || format!("session {si}: {} event ids for {total} replies", seen.len()));
        m.count("own replies in crowds", own);
        Some(order.len() as u64)
    }) }).collect();
    let mut delivered = 0;
    for j in jobs { match j.await { Ok(Some(n)) => delivered += n, Ok(None) => m.fail("no-reply", "a request of a concurrent session was not answered"), Err(_) => m.fail("panic", "a session task panicked") } }
    m.check(rig.calls().len() == k * 24, "ran-once", || format!("{} handler runs for {}", rig.calls().len(), k * 24));
    m.count("stream deliveries in crowds", delivered);
    m.case(("crowd", seed), true);
}

// ------------------------------------------------------------------ C24

/// The wire form of a message, as JSON.
fn wire_of(t: &TransportMessage) -> Value { StdioTransport::serialize_message(t).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null) }
/// A message no other in this history equals.
fn fresh(r: &mut Rng, used: &mut HashSet<String>) -> wire::Gen {
    loop {
        let g = wire::message(r);
        if g.json.to_string().len() < 4000 && used.insert(mon::rig::canon(&wire_of(&g.msg))) { return g; }
    }
}
/// The event-stream text of an event holding this JSON text.
fn event_text(r: &mut Rng, id: Option<&str>, event: Option<&str>, data: &str) -> String {
    let eol = *r.pick(&["\n", "\r\n", "\r", "\n"]);
    let mut lines: Vec<String> = vec![];
    if let Some(i) = id { lines.push(format!("id:{}{i}", if r.bool() { " " } else { "" })); }
    if let Some(e) = event { lines.push(format!("event:{}{e}", if r.bool() { " " } else { "" })); }
    if r.chance(1, 5) { r.shuffle(&mut lines); }
    for l in data.replace('\r', "").split('\n') { lines.push(format!("data: {l}")); }
    if r.chance(1, 4) { lines.insert(r.below(lines.len()), ": a comment".into()); }
    if r.chance(1, 8) { lines.insert(0, "retry: 10".into()); }
    let mut s = String::new();
    for l in lines { s += &l; s += eol; }
    s + eol
}
fn undecodable(r: &mut Rng) -> String {
    match r.below(6) { 0 => "not json".into(), 1 => "{\"jsonrpc\":\"2.0\"}".into(), 2 => "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"no/such\",\"params\":{}}".into(), 3 => "17".into(), 4 => "{\"a\":".into(), _ => "\"text\"".into() }
}
fn pieces(r: &mut Rng, bytes: &[u8], slow: bool) -> Vec<(Vec<u8>, u64)> {
    let mut at = 0;
    let cuts = if bytes.len() > 600 && r.bool() { vec![bytes.len() / 3, bytes.len()] } else { r.splits(bytes.len()) };
    let cuts = if cuts.len() > 300 { vec![1, bytes.len() / 2, bytes.len()] } else { cuts };
    cuts.into_iter().map(|c| { let p = bytes[at..c].to_vec(); at = c; (p, if slow && r.chance(1, 6) { 1 } else { 0 }) }).collect()
}

/// Configured headers: odd names, empty values, and several of one name.
fn extras(r: &mut Rng) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = (0..r.below(4)).map(|i| (match r.below(4) { 0 => format!("x_extra_{i}"), 1 => "X-Twice".into(), _ => format!("X-Extra-{i}") }, match r.below(6) { 0 => String::new(), 1 => "a, b; c=\"d\"".into(), 2 => "v".repeat(r.range(100, 900)), _ => r.ident(8) })).collect();
    if v.len() > 1 && r.chance(1, 3) { let n = v[0].0.clone(); v[1].0 = n; }
    v
}
fn carries(q: &Req, extra: &[(String, String)]) -> bool {
    extra.iter().all(|(k, _)| q.headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case(k)).map(|x| &x.1).eq(extra.iter().filter(|(n, _)| n.eq_ignore_ascii_case(k)).map(|x| &x.1)))
}
/// A session id a server may issue: any visible ASCII.
fn session_id(r: &mut Rng, step: usize) -> String {
    match r.below(5) { 0 => format!("a,b;{step}"), 1 => format!("\"{step}\"=/+~"), 2 => format!("{step}-{}", "9f".repeat(r.range(20, 300))), 3 => format!("{step}"), _ => format!("sess-{step}") }
}

#[derive(Debug)]
struct Tokens { list: Mutex<VecDeque<Option<String>>> }
#[async_trait]
impl AuthProvider for Tokens {
    async fn get_access_token(&self) -> pmcp::Result<String> {
        self.list.lock().unwrap().pop_front().flatten().ok_or_else(|| pmcp::Error::internal("no token"))
    }
}

fn c24(m: &Arc<Mon>) {
    let mut r = m.rng("c24");
    m.stage("histories");
    let rt = mrt(4);
    for _ in 0..m.n(250, 6000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        rt.block_on(client_history(m, &mut rr));
    }
    m.stage("long streams");
    for i in 0..m.n(3, 60) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        rt.block_on(long(m, &mut rr, i % 3));
    }
    m.stage("streams replaced and closed");
    for _ in 0..m.n(60, 1500) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        mon::crt().block_on(replaced(m, &mut rr));
    }
    m.stage("concurrent clones");
    let rt = mrt(8);
    for _ in 0..m.n(40, 1000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        rt.block_on(clones(m, &mut rr));
    }
    m.stage("sdk server");
    for _ in 0..m.n(40, 800) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        rt.block_on(against_server(m, &mut rr));
    }
}

async fn client_history(m: &Mon, r: &mut Rng) {
    let plan: Arc<Mutex<VecDeque<Act>>> = Arc::default();
    let p2 = plan.clone();
    let server = Scripted::start(Arc::new(move |_: &Req, _| p2.lock().unwrap().pop_front().unwrap_or(Act::Drop))).await;
    let extra = extras(r);
    let tokens = r.bool().then(|| Arc::new(Tokens { list: Mutex::default() }));
    let resumption: Arc<Mutex<Vec<String>>> = Arc::default();
    let rs = resumption.clone();
    let mut session = r.chance(1, 3).then(|| format!("pre-{}", r.ident(5)));
    let mut version: Option<String> = None;
    let mut t = StreamableHttpTransport::new(StreamableHttpTransportConfig {
        url: url::Url::parse(&format!("http://{}/mcp", server.addr)).unwrap(),
        extra_headers: extra.clone(),
        auth_provider: tokens.clone().map(|t| t as Arc<dyn AuthProvider>),
        session_id: session.clone(),
        enable_json_response: r.bool(),
        on_resumption_token: r.chance(4, 5).then(|| Arc::new(move |t: String| rs.lock().unwrap().push(t)) as Arc<dyn Fn(String) + Send + Sync>),
    });
    let watched = format!("{t:?}").contains("on_resumption_token: true");
    let mut used = HashSet::new();
    let mut due: Vec<VecDeque<Value>> = vec![];
    let mut trace = String::new();
    let mut nreq = 0usize;
    let (mut kinds, mut propagated, mut delivered) = (HashSet::new(), 0u64, 0u64);
    let mut streams = 0usize;
    let mut want_ids: Vec<(String, Vec<String>)> = vec![];
    for step in 0..r.range(5, 25) {
        // The reply headers that the transport has to remember.
        let mut hs: Vec<(String, String)> = vec![];
        let (mut new_s, mut new_v) = (None, None);
        if r.chance(1, 4) { let v = session_id(r, step); hs.push((r.pick(&["mcp-session-id", "Mcp-Session-Id"]).to_string(), v.clone())); new_s = Some(v); }
        if r.chance(1, 5) { let v = r.pick(&["2025-06-18", "2025-03-26", "2024-11-05"]).to_string(); hs.push(("MCP-Protocol-Version".into(), v.clone())); new_v = Some(v); }
        let token = tokens.as_ref().map(|t| { let x = if r.chance(1, 8) { None } else { Some(r.ident(10)) }; t.list.lock().unwrap().push_back(x.clone()); x });
        let sends = !matches!(token, Some(None));
        let op = r.below(12);
        let (mut method, mut last_id, mut want_body): (&str, Option<String>, Option<Value>) = ("POST", None, None);
        let mut ids: Vec<String> = vec![];
        // The event-stream reply of this step: its bytes and what it must deliver.
        let mut stream = |r: &mut Rng, used: &mut HashSet<String>, ids: &mut Vec<String>| {
            streams += 1;
            let (mut text, mut q) = (String::new(), VecDeque::new());
            if r.chance(1, 8) { text.push('\u{feff}'); }
            for k in 0..r.below(6) {
                let id = r.chance(2, 3).then(|| format!("e{streams}.{k}"));
                let event = match r.below(4) { 0 => Some("message"), 1 if r.bool() => Some(*r.pick(&["other", "messages", "message2", "Message", "mess", "error"])), _ => None };
                let data = if r.chance(1, 6) { undecodable(r) } else { let g = fresh(r, used); if event.map_or(true, |e| e == "message") { q.push_back(g.json.clone()); } wire::scramble(r, &g.json) };
                if let Some(i) = &id { ids.push(i.clone()); }
                text += &event_text(r, id.as_deref(), event, &data);
            }
            (text, q)
        };
        let (act, ok, q): (Act, bool, VecDeque<Value>);
        let close = op == 11 && r.chance(1, 3);
        if close { method = "DELETE"; }
        if close {
            let status = *r.pick(&[200, 204, 405, 404, 500]);
            act = if r.chance(1, 6) { Act::Drop } else { Act::Reply { status, headers: vec![], body: vec![] } };
            (ok, q) = (true, VecDeque::new());
            (new_s, new_v) = (None, None);
        } else if op >= 10 {
            method = "GET";
            last_id = r.bool().then(|| format!("last-{step}"));
            match r.below(4) {
                0 => { let s = *r.pick(&[405, 400, 401, 404, 409, 500]); act = Act::Reply { status: s, headers: vec![], body: b"{}".to_vec() }; (ok, q) = (s == 405, VecDeque::new()); (new_s, new_v) = (None, None); }
                _ => {
                    hs.push(("Content-Type".into(), "text/event-stream".into()));
                    let (text, x) = stream(r, &mut used, &mut ids);
                    act = Act::Stream { status: 200, headers: hs.clone(), pieces: pieces(r, text.as_bytes(), true), cut: false, hold: r.bool() };
                    (ok, q) = (true, x);
                    kinds.insert("get stream");
                }
            }
        } else {
            let json_type = || ("Content-Type".to_string(), ["application/json", "application/json; charset=utf-8", "Application/JSON"][step % 3].to_string());
            match r.below(12) {
                0..=2 => { let g = fresh(r, &mut used); hs.push(json_type()); act = Act::Reply { status: *r.pick(&[200, 200, 201]), headers: hs.clone(), body: wire::scramble(r, &g.json).into_bytes() }; (ok, q) = (true, VecDeque::from([g.json])); kinds.insert("json"); }
                3 => { let gs: Vec<Value> = (0..r.below(5)).map(|_| fresh(r, &mut used).json).collect(); hs.push(json_type()); act = Act::Reply { status: 200, headers: hs.clone(), body: wire::scramble(r, &json!(gs)).into_bytes() }; (ok, q) = (true, gs.into()); kinds.insert("json list"); }
                4..=6 => {
                    hs.push(("Content-Type".into(), r.pick(&["text/event-stream", "text/event-stream; charset=utf-8", "Text/Event-Stream"]).to_string()));
                    let (text, x) = stream(r, &mut used, &mut ids);
                    let mut bytes = text.into_bytes();
                    let cut = r.chance(1, 5);
                    // A broken stream may end inside an event, which is then not delivered.
                    if cut && r.bool() { let g = fresh(r, &mut used); let s = format!("data: {}", g.json); bytes.extend(&s.as_bytes()[..s.len() / 2]); }
                    act = Act::Stream { status: 200, headers: hs.clone(), pieces: pieces(r, &bytes, true), cut, hold: !cut && r.bool() };
                    (ok, q) = (true, x);
                    kinds.insert("stream");
                }
                7 => { match r.below(3) { 0 => hs.push(json_type()), 1 => hs.push(("Content-Type".into(), "text/plain".into())), _ => {} } act = Act::Reply { status: 202, headers: hs.clone(), body: vec![] }; (ok, q) = (true, VecDeque::new()); kinds.insert("accepted"); }
                8 | 9 => { let g = wire::message(r); hs.push(json_type()); act = Act::Reply { status: *r.pick(&[400, 401, 403, 404, 406, 409, 415, 429, 500, 502, 503]), headers: hs.clone(), body: g.json.to_string().into_bytes() }; (ok, q) = (false, VecDeque::new()); kinds.insert("error status"); }
                10 => {
                    hs.push(json_type());
                    let body = match r.below(3) { 0 => { let mut l: Vec<String> = (0..r.range(1, 3)).map(|_| fresh(r, &mut used).json.to_string()).collect(); let bad = loop { let b = undecodable(r); if serde_json::from_str::<Value>(&b).is_ok() { break b; } }; l.insert(r.below(l.len() + 1), bad); format!("[{}]", l.join(",")) } 1 => String::new(), _ => undecodable(r) };
                    act = Act::Reply { status: 200, headers: hs.clone(), body: body.into_bytes() }; (ok, q) = (false, VecDeque::new()); kinds.insert("undecodable");
                }
                _ => {
                    if r.bool() { act = Act::Drop; (new_s, new_v) = (None, None); }
                    else { hs.push(("Content-Type".into(), "text/html".into())); act = Act::Reply { status: 200, headers: hs.clone(), body: b"<html/>".to_vec() }; }
                    (ok, q) = (false, VecDeque::new()); kinds.insert("unusable");
                }
            }
        }
        let will = if close { session.is_some() && sends } else { sends };
        if will { plan.lock().unwrap().push_back(act.clone()); }
        trace += &format!(" {method}{}", match &act { Act::Reply { status, .. } => format!("={status}"), Act::Stream { cut, hold, .. } => format!("~{}", if *cut { "cut" } else if *hold { "held" } else { "ended" }), _ => "!".into() });
        // ---- do it
        let old_session = session.clone();
        let res = if close { t.close().await } else if method == "GET" {
            if last_id.is_some() && r.bool() { t.send_with_options(wire::notification(r).msg, SendOptions { related_request_id: None, resumption_token: last_id.clone() }).await } else { t.start_sse(last_id.clone()).await }
        } else {
            let g = wire::message(r);
            want_body = Some(wire_of(&g.msg));
            if r.bool() { t.send(g.msg).await } else { t.send_with_options(g.msg, SendOptions { related_request_id: r.bool().then(|| r.ident(4)), resumption_token: None }).await }
        };
        if close && session.is_none() { tokens.as_ref().map(|t| t.list.lock().unwrap().clear()); }
        let want_ok = if close { session.is_none() || sends } else { ok && sends };
        if !m.check(res.is_ok() == want_ok, "result", || format!("{trace}: {res:?}, {act:?}")) { return; }
        // ---- what the server saw
        let all = server.requests();
        if !m.check(all.len() == nreq + will as usize, "one-request-each", || format!("{trace}: {} requests, wanted {}", all.len() - nreq, will as usize)) { return; }
        if will {
            let q = &all[nreq];
            nreq += 1;
            let mut bad = vec![];
            if q.method != method || q.path != "/mcp" { bad.push(format!("{} {}", q.method, q.path)); }
            if q.header("mcp-session-id") != old_session.as_deref() { bad.push(format!("session {:?}, wanted {old_session:?}", q.header("mcp-session-id"))); } else if old_session.is_some() { propagated += 1; }
            if q.header("mcp-protocol-version") != version.as_deref() { bad.push(format!("version {:?}, wanted {version:?}", q.header("mcp-protocol-version"))); } else if version.is_some() { propagated += 1; }
            if !carries(q, &extra) { bad.push(format!("wanted {extra:?}")); }
            if q.header("authorization").map(str::to_string) != token.clone().flatten().map(|t| format!("Bearer {t}")) { bad.push(format!("authorization {:?}", q.header("authorization"))); }
            if method == "POST" {
                let accept = q.header("accept").unwrap_or("");
                if !accept.contains("application/json") || !names_stream(accept) { bad.push(format!("accept {accept}")); }
                if q.header("content-type").map_or(true, |c| c.split(';').next().unwrap_or("").trim() != "application/json") { bad.push("content type".into()); }
                if serde_json::from_slice::<Value>(&q.body).ok() != want_body { bad.push(format!("body {} wanted {want_body:?}", q.text())); }
                if q.headers.iter().filter(|(k, _)| k.eq_ignore_ascii_case("content-type")).count() != 1 { bad.push("several content types".into()); }
            }
            if method == "GET" {
                if !q.header("accept").is_some_and(names_stream) { bad.push("accept".into()); }
                if q.header("last-event-id") != last_id.as_deref() { bad.push(format!("last event id {:?}, wanted {last_id:?}", q.header("last-event-id"))); }
            }
            if !m.check(bad.is_empty(), "request", || format!("{trace}: {bad:?}: {q:?}")) { return; }
            if let Some(s) = new_s { session = Some(s); }
            if let Some(v) = new_v { version = Some(v); }
            if close { session = None; }
            if !ids.is_empty() { want_ids.push((format!("e{streams}."), ids)); }
        }
        let held_get = method == "GET";
        if will { due.push(q); }
        if !m.check(t.session_id() == session && t.protocol_version() == version, "remembered", || format!("{trace}: {:?} {:?}, wanted {session:?} {version:?}", t.session_id(), t.protocol_version())) { return; }
        if r.chance(1, 10) { session = r.bool().then(|| session_id(r, 99)); t.set_session_id(session.clone()); trace += " set-session"; }
        if r.chance(1, 12) { version = r.bool().then(|| "2025-06-18".to_string()); t.set_protocol_version(version.clone()); trace += " set-version"; }
        // ---- receive, at least before a stream is replaced or the transport closed
        if held_get || r.chance(2, 3) || due.len() > 3 {
            let Some(n) = drain(m, &mut t, &mut due, &trace).await else { return };
            delivered += n;
            if !ids_seen(m, watched, &resumption, &want_ids, &trace).await { return; }
        }
    }
    let Some(n) = drain(m, &mut t, &mut due, &trace).await else { return };
    delivered += n;
    if !ids_seen(m, watched, &resumption, &want_ids, &trace).await { return; }
    let x = tokio::time::timeout(Duration::from_millis(8), t.receive()).await;
    m.check(x.is_err(), "extra", || format!("{trace}: {x:?}"));
    if watched {
        let got: HashSet<String> = resumption.lock().unwrap().iter().cloned().collect();
        m.check(got.len() == want_ids.iter().map(|w| w.1.len()).sum::<usize>(), "extra-event-id", || format!("{trace}: {got:?} ids"));
        let last = t.last_event_id();
        m.check(if want_ids.is_empty() { last.is_none() } else { last.is_some() && want_ids.iter().any(|w| w.1.last() == last.as_ref()) }, "last-event-id", || format!("{trace}: {last:?} after {want_ids:?}"));
    }
    m.count("messages delivered", delivered);
    m.count("requests checked", nreq as u64);
    m.case(&trace, kinds.len() > 1 && propagated > 0 && delivered > 0);
    m.sample("history", || trace.clone());
}

/// Receives everything due: each reply's messages in order, replies in any order.
async fn drain(m: &Mon, t: &mut StreamableHttpTransport, due: &mut Vec<VecDeque<Value>>, trace: &str) -> Option<u64> {
    let mut n = 0;
    while due.iter().any(|q| !q.is_empty()) {
        let got = match tokio::time::timeout(PATIENCE, t.receive()).await {
            Ok(Ok(x)) => wire_of(&x),
            other => { m.fail("not-delivered", format!("{trace}: {other:?} while {due:?} was due")); return None; }
        };
        match due.iter_mut().find(|q| q.front().is_some_and(|w| same(&got, w))) {
            Some(q) => { q.pop_front(); n += 1; }
            None => { m.fail("wrong-message", format!("{trace}: {got} while {due:?} was due")); return None; }
        }
    }
    due.clear();
    Some(n)
}
/// The wire form of a decoded message, against the wire text it came from.
fn same(got: &Value, sent: &Value) -> bool { StdioTransport::parse_message(sent.to_string().as_bytes()).is_ok_and(|x| wire_of(&x) == *got) }
/// Every stream's event ids are reported in order (again with each event that has none of its own).
async fn ids_seen(m: &Mon, watched: bool, log: &Mutex<Vec<String>>, want: &[(String, Vec<String>)], trace: &str) -> bool {
    if !watched { return true; }
    let t0 = std::time::Instant::now();
    loop {
        let got = log.lock().unwrap().clone();
        let bad = want.iter().find(|(p, ids)| { let mut own: Vec<&String> = got.iter().filter(|g| g.starts_with(p.as_str())).collect(); own.dedup(); own.into_iter().ne(ids.iter()) });
        match bad {
            None => return true,
            Some((p, ids)) if t0.elapsed() > PATIENCE => { m.fail("event-ids", format!("{trace}: stream {p}: reported {got:?}, wanted {ids:?}")); return false; }
            _ => tokio::time::sleep(Duration::from_micros(300)).await,
        }
    }
}

/// Hundreds of messages, as one reply stream and as many replies received only afterwards.
async fn long(m: &Mon, r: &mut Rng, kind: usize) {
    let n = *r.pick(if kind == 0 { &[130usize, 300, 1100] } else { &[1100usize, 2500, 5000] });
    let stream = kind == 1;
    let one = |k: usize| json!({"jsonrpc": "2.0", "id": k, "result": {"k": k}}).to_string();
    let server = Scripted::start(Arc::new(move |q: &Req, _| {
        let v: Value = serde_json::from_slice(&q.body).unwrap_or_default();
        if stream {
            let text: String = (0..n).map(|k| format!("data: {}\n\n", one(k))).collect();
            Act::Stream { status: 200, headers: vec![("Content-Type".into(), "text/event-stream".into())], pieces: text.into_bytes().chunks(1000).map(|c| (c.to_vec(), 0)).collect(), cut: false, hold: false }
        } else if kind == 2 {
            Act::Reply { status: 200, headers: vec![("Content-Type".into(), "application/json".into())], body: format!("[{}]", (0..n).map(one).collect::<Vec<_>>().join(",")).into_bytes() }
        } else {
            Act::Reply { status: 200, headers: vec![("Content-Type".into(), "application/json".into())], body: one(v["id"].as_u64().unwrap_or(0) as usize).into_bytes() }
        }
    })).await;
    let mut t = StreamableHttpTransport::new(StreamableHttpTransportConfig { url: url::Url::parse(&format!("http://{}/", server.addr)).unwrap(), extra_headers: vec![], auth_provider: None, session_id: None, enable_json_response: !stream, on_resumption_token: None });
    for k in 0..if kind > 0 { 1 } else { n } {
        let sent = tokio::time::timeout(PATIENCE, t.send(TransportMessage::Request { id: RequestId::Number(k as i64), request: Request::Client(Box::new(ClientRequest::Ping)) })).await;
        if !m.check(matches!(sent, Ok(Ok(()))), "send", || format!("{k} of {n}: {sent:?}")) { return; }
    }
    for k in 0..n {
        match tokio::time::timeout(PATIENCE, t.receive()).await {
            Ok(Ok(x)) => { let v = wire_of(&x); if !m.check(v["id"] == json!(k) && v["result"]["k"] == json!(k), "order", || format!("{k} of {n}, kind {kind}: {v}")) { return; } },
            x => { m.fail("not-delivered", format!("{k} of {n}, kind {kind}: {x:?}")); return; },
        }
    }
    m.max("messages waiting", n as u64);
    m.case(("long", n, kind), true);
}

/// One event stream at a time: a new one ends the one before it, and closing ends the last.
async fn replaced(m: &Mon, r: &mut Rng) {
    type Fed = (tokio::sync::mpsc::UnboundedSender<Vec<u8>>, Arc<std::sync::atomic::AtomicBool>);
    let feeds: Arc<Mutex<Vec<Fed>>> = Arc::default();
    let f2 = feeds.clone();
    let server = Scripted::start(Arc::new(move |q: &Req, _| match q.method.as_str() {
        "GET" => {
            let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
            let gone = Arc::new(std::sync::atomic::AtomicBool::new(false));
            f2.lock().unwrap().push((tx, gone.clone()));
            Act::Feed { headers: vec![("Content-Type".into(), "text/event-stream".into())], feed: Arc::new(tokio::sync::Mutex::new(rx)), gone }
        }
        "POST" => Act::Reply { status: 202, headers: vec![], body: vec![] },
        _ => Act::Reply { status: 200, headers: vec![], body: vec![] },
    })).await;
    let session = r.bool().then(|| r.ident(6));
    let mut t = StreamableHttpTransport::new(StreamableHttpTransportConfig { url: url::Url::parse(&format!("http://{}/", server.addr)).unwrap(), extra_headers: vec![], auth_provider: None, session_id: session.clone(), enable_json_response: r.bool(), on_resumption_token: None });
    let mut trace = format!("session {}:", session.is_some());
    let (mut used, mut ended) = (HashSet::new(), 0u64);
    // Whether the server has seen the client leave this stream.
    async fn left(f: &Fed) -> bool {
        let t0 = std::time::Instant::now();
        while !f.1.load(Ordering::SeqCst) { if t0.elapsed() > PATIENCE { return false; } tokio::time::sleep(Duration::from_micros(300)).await; }
        true
    }
    let mut open = false;
    for step in 0..r.range(3, 12) {
        let n = feeds.lock().unwrap().len();
        match r.below(6) {
            0 | 1 => {
                let last = r.bool().then(|| format!("last-{step}"));
                trace += &format!(" start {last:?}");
                let x = if last.is_some() && r.bool() { t.send_with_options(wire::notification(r).msg, SendOptions { related_request_id: None, resumption_token: last }).await } else { t.start_sse(last).await };
                if !m.check(x.is_ok() && feeds.lock().unwrap().len() == n + 1, "result", || format!("{trace}: {x:?}")) { return; }
                if open { let f = feeds.lock().unwrap()[n - 1].clone(); if !m.check(left(&f).await, "two-streams", || format!("{trace}: the stream before it is still read")) { return; } ended += 1; }
                open = true;
            }
            2 => { trace += " post"; let x = t.send(wire::notification(r).msg).await; if !m.check(x.is_ok(), "result", || format!("{trace}: {x:?}")) { return; } }
            3 if r.chance(1, 2) => {
                trace += " close";
                let x = t.close().await;
                if !m.check(x.is_ok(), "result", || format!("{trace}: {x:?}")) { return; }
                if open { let f = feeds.lock().unwrap()[n - 1].clone(); if !m.check(left(&f).await, "stream-survives-close", || trace.clone()) { return; } ended += 1; }
                open = false;
                if r.bool() { t.set_session_id(r.bool().then(|| r.ident(5))); }
            }
            _ if open => {
                trace += " push";
                let g = fresh(r, &mut used);
                let f = feeds.lock().unwrap()[n - 1].clone();
                let text = event_text(r, None, None, &g.json.to_string());
                if !m.check(f.0.send(text.into_bytes()).is_ok(), "stream-lost", || trace.clone()) { return; }
                match tokio::time::timeout(PATIENCE, t.receive()).await { Ok(Ok(x)) if same(&wire_of(&x), &g.json) => {} x => { m.fail("not-delivered", format!("{trace}: {x:?}, pushed {}", g.json)); return; } }
            }
            _ => {}
        }
        let f = feeds.lock().unwrap().last().cloned();
        if let (true, Some(f)) = (open, f) { m.check(!f.1.load(Ordering::SeqCst), "stream-lost", || trace.clone()); }
    }
    m.count("streams ended", ended);
    m.case(&trace, ended > 0);
}

async fn clones(m: &Mon, r: &mut Rng) {
    // Every request is answered with its own tag, as JSON or as a stream.
    let server = Scripted::start(Arc::new(|q: &Req, n| {
        let v: Value = serde_json::from_slice(&q.body).unwrap_or_default();
        let out = json!({"jsonrpc": "2.0", "id": v["id"], "result": {"for": v["id"]}}).to_string();
        if n % 3 == 0 { Act::Reply { status: 200, headers: vec![("Content-Type".into(), "application/json".into())], body: out.into_bytes() } }
        else { Act::Stream { status: 200, headers: vec![("Content-Type".into(), "text/event-stream".into())], pieces: format!("data: {out}\n\n").bytes().collect::<Vec<_>>().chunks(7 + n % 11).map(|c| (c.to_vec(), 0)).collect(), cut: false, hold: n % 3 == 1 } }
    })).await;
    let t = StreamableHttpTransport::new(StreamableHttpTransportConfig { url: url::Url::parse(&format!("http://{}/", server.addr)).unwrap(), extra_headers: vec![], auth_provider: None, session_id: None, enable_json_response: false, on_resumption_token: None });
    let (k, per) = (r.range(2, 6), r.range(2, 8));
    let jobs: Vec<_> = (0..k).map(|c| { let mut t = t.clone(); tokio::spawn(async move {
        for i in 0..per { t.send(TransportMessage::Request { id: RequestId::String(format!("{c}.{i}")), request: Request::Client(Box::new(ClientRequest::Ping)) }).await?; }
        Ok::<_, pmcp::Error>(())
    }) }).collect();
    let mut t = t;
    let mut got = vec![];
    while got.len() < k * per {
        match tokio::time::timeout(PATIENCE, t.receive()).await {
            Ok(Ok(x)) => { let v = wire_of(&x); m.check(v["result"]["for"] == v["id"], "mixed-up", || v.to_string()); got.push(v["id"].to_string()); }
            x => { m.fail("not-delivered", format!("{k} senders of {per}: {} delivered, then {x:?}", got.len())); return; }
        }
    }
    for j in jobs { let x = j.await; m.check(matches!(x, Ok(Ok(()))), "send", || format!("{x:?}")); }
    let d: HashSet<_> = got.iter().cloned().collect();
    m.check(d.len() == k * per && server.requests().len() == k * per, "exactly-once", || format!("{} distinct of {}, {} requests", d.len(), got.len(), server.requests().len()));
    m.count("concurrent messages", got.len() as u64);
    m.case(("clones", k, per, r.u64()), true);
}

/// The SDK's client and server, end to end.
async fn against_server(m: &Mon, r: &mut Rng) {
    let cfg = Cfg { stateful: r.bool(), json: r.bool(), store: r.bool() };
    let rig = Rig::start(cfg).await;
    let t = StreamableHttpTransport::new(StreamableHttpTransportConfig { url: url::Url::parse(&format!("http://{}/", rig.addr)).unwrap(), extra_headers: vec![], auth_provider: None, session_id: None, enable_json_response: r.bool(), on_resumption_token: None });
    let mut closer = t.clone();
    let sse = r.bool();
    let mut c = pmcp::Client::new(t.clone());
    let run = async {
        c.initialize(ClientCapabilities::default()).await?;
        if sse { t.start_sse(None).await?; }
        let mut want = vec![];
        for n in 0..r.range(1, 8) {
            let tag = format!("{n}{}", r.string(6));
            let x = c.call_tool("echo".into(), json!({"tag": tag})).await?;
            m.check(format!("{:?}", x.content).contains("echo") && !x.is_error, "echo", || format!("{x:?}"));
            let text = x.content.iter().map(|c| match c { Content::Text { text } => text.clone(), _ => String::new() }).collect::<String>();
            m.eq(&serde_json::from_str::<Value>(&text).unwrap_or_default()["echo"], &json!(tag), "echoed", || text.clone());
            want.push(tag);
        }
        Ok::<_, pmcp::Error>(want)
    };
    match tokio::time::timeout(PATIENCE, run).await {
        Ok(Ok(want)) => {
            m.eq(&rig.calls(), &want, "handler-calls", || format!("{cfg:?} sse {sse}"));
            let sid = closer.session_id();
            m.check(sid.is_some() == cfg.stateful, "session", || format!("{cfg:?}: {sid:?}"));
            let x = closer.close().await;
            m.check(x.is_ok() && rig.closed() == sid.into_iter().collect::<Vec<_>>(), "closed", || format!("{cfg:?}: {x:?} {:?}", rig.closed()));
            m.count("end-to-end calls", want.len() as u64);
            m.case((format!("{cfg:?}"), sse, want), true);
        }
        x => m.fail("end-to-end", format!("{cfg:?} sse {sse}: {x:?}")),
    }
}

// ------------------------------------------------------------------ C26

fn c26(m: &Arc<Mon>) {
    let mut r = m.rng("c26");
    m.stage("histories");
    let rt = mrt(4);
    for _ in 0..m.n(300, 6000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        rt.block_on(http_history(m, &mut rr));
    }
    m.stage("silent servers");
    for _ in 0..m.n(60, 1500) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        mon::vrt().block_on(silent(m, &mut rr));
    }
    m.stage("many and large events");
    for _ in 0..m.n(4, 60) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        rt.block_on(flood(m, &mut rr));
    }
}

async fn http_history(m: &Mon, r: &mut Rng) {
    // GET replies with the prepared stream, POST with the next prepared reply.
    let mut used = HashSet::new();
    let (mut text, mut pushed) = (String::new(), VecDeque::new());
    let mut skipped = 0;
    for k in 0..r.below(12) {
        let bad = r.chance(1, 5);
        let data = if bad { skipped += 1; undecodable(r) } else { let g = fresh(r, &mut used); pushed.push_back(g.json.clone()); wire::scramble(r, &g.json) };
        let id = r.chance(1, 3).then(|| format!("{k}"));
        let event = *r.pick(&[None, None, Some("message"), Some("message"), Some("notification"), Some("response"), Some("ping"), Some("error"), Some("Message"), Some("endpoint")]);
        text += &event_text(r, id.as_deref(), event, &data);
    }
    let get_status = if r.chance(1, 8) { *r.pick(&[204u16, 404, 500, 202]) } else { 200 };
    let sse = r.chance(5, 6);
    let (hold, cut) = (r.bool(), r.chance(1, 4));
    let stream = if get_status == 204 { Act::Reply { status: 204, headers: vec![], body: vec![] } } else { Act::Stream { status: get_status, headers: vec![("Content-Type".into(), "text/event-stream".into())], pieces: pieces(r, text.as_bytes(), true), cut, hold } };
    let plan: Arc<Mutex<VecDeque<Act>>> = Arc::default();
    let p2 = plan.clone();
    let server = Scripted::start(Arc::new(move |q: &Req, _| if q.method == "GET" { stream.clone() } else { p2.lock().unwrap().pop_front().unwrap_or(Act::Drop) })).await;
    let extra = extras(r);
    let (base, ep, want_path) = match r.below(4) { 0 => ("/", Some("/events"), "/events"), 1 => ("/api/mcp", Some("stream?x=1"), "/api/stream?x=1"), 2 => ("/api/mcp", Some("/e"), "/e"), _ => ("/mcp", Some("/events"), "/events") };
    let mut t = HttpTransport::new(HttpConfig { base_url: url::Url::parse(&format!("http://{}{base}", server.addr)).unwrap(), sse_endpoint: if sse { ep.map(str::to_string) } else { None }, timeout: PATIENCE, headers: extra.clone(), enable_pooling: r.bool(), max_idle_per_host: r.below(3) });
    let mut trace = format!("sse {sse} {get_status}, {} pushed:", pushed.len());
    // What is due: the pushed events, and the own replies.
    let mut due: Vec<VecDeque<Value>> = vec![VecDeque::new(), VecDeque::new()];
    m.check(!t.is_connected(), "connected-early", || trace.clone());
    let opens = r.chance(4, 5);
    if opens {
        let x = t.connect_sse().await;
        if !m.check(x.is_ok() == (!sse || get_status == 200), "connect", || format!("{trace}: {x:?}")) { return; }
        if x.is_ok() && sse { due[0] = pushed.clone(); }
        let all = server.requests();
        let ok = if sse { all.len() == 1 && all[0].method == "GET" && all[0].path == want_path && all[0].header("accept").is_some_and(names_stream) && carries(&all[0], &extra) } else { all.is_empty() };
        if !m.check(ok, "stream-request", || format!("{trace}: {all:?}")) { return; }
    }
    let linked = opens && (!sse || get_status == 200);
    // A stream that ended at once may have been noticed already.
    m.check(t.is_connected() == linked || (linked && sse && (cut || !hold)), "connected", || format!("{trace}: {}", t.is_connected()));
    if linked && r.chance(1, 5) {
        // Closed right after connecting: it stays so.
        let x = t.close().await;
        tokio::time::sleep(Duration::from_millis(r.below(4) as u64)).await;
        m.check(x.is_ok() && !t.is_connected(), "closed-early", || format!("{trace}: {x:?}"));
        m.count("closed right after connecting", 1);
        m.case((&trace, "early"), true);
        return;
    }
    let mut seen = server.requests().len();
    let (mut refused, mut delivered) = (0, 0u64);
    for _ in 0..r.below(12) {
        let (act, want) = match r.below(8) {
            0..=3 => { let g = fresh(r, &mut used); let body = wire::scramble(r, &g.json).into_bytes(); let ct = vec![("Content-Type".to_string(), "application/json".to_string())]; (if r.bool() { Act::Reply { status: 200, headers: ct, body } } else { Act::Stream { status: 200, headers: ct, pieces: pieces(r, &body, false), cut: false, hold: false } }, Some(g.json)) }
            4 => (Act::Reply { status: 200, headers: vec![], body: undecodable(r).into_bytes() }, None),
            5 | 6 => (Act::Reply { status: *r.pick(&[400, 401, 403, 404, 429, 500, 503]), headers: vec![], body: wire::message(r).json.to_string().into_bytes() }, None),
            _ => (if r.bool() { Act::Drop } else { let b = wire::response(r).json.to_string().into_bytes(); let half = b.len() / 2; Act::Stream { status: 200, headers: vec![], pieces: vec![(b[..half].to_vec(), 0)], cut: true, hold: false } }, None),
        };
        plan.lock().unwrap().push_back(act.clone());
        let g = wire::message(r);
        let x = t.send(g.msg.clone()).await;
        trace += if want.is_some() { " ok" } else { " bad" };
        if !m.check(x.is_ok() == want.is_some(), "post-result", || format!("{trace}: {act:?}: {x:?}")) { return; }
        let all = server.requests();
        let ok = all.len() == seen + 1 && all[seen].method == "POST" && all[seen].path == base && all[seen].header("content-type") == Some("application/json") && serde_json::from_slice::<Value>(&all[seen].body).ok() == Some(wire_of(&g.msg)) && carries(&all[seen], &extra);
        if !m.check(ok, "post-request", || format!("{trace}: {:?}", all.get(seen))) { return; }
        seen += 1;
        match want { Some(w) => { due[1].push_back(w); } None => refused += 1 }
        if r.bool() { let Some(n) = drain_http(m, &mut t, &mut due, &trace).await else { return }; delivered += n; }
    }
    let Some(n) = drain_http(m, &mut t, &mut due, &trace).await else { return };
    delivered += n;
    let x = tokio::time::timeout(Duration::from_millis(8), t.receive()).await;
    m.check(x.is_err(), "extra", || format!("{trace}: {x:?}"));
    if linked && (!sse || hold && !cut) { m.check(t.is_connected(), "connection-lost", || trace.clone()); }
    else if linked {
        // The stream's end is noticed.
        let t0 = std::time::Instant::now();
        while t.is_connected() && t0.elapsed() < PATIENCE { tokio::time::sleep(Duration::from_millis(1)).await; }
        m.check(!t.is_connected(), "connected-without-stream", || trace.clone());
        m.count("stream ends noticed", 1);
    }
    let x = t.close().await;
    m.check(x.is_ok() && !t.is_connected(), "closed", || format!("{trace}: {x:?}"));
    m.count("messages delivered", delivered);
    m.count("events skipped", skipped);
    m.count("posts refused", refused);
    m.case(&trace, delivered > 0 && refused + skipped > 0);
    m.sample("http", || trace.clone());
}
/// Own replies have to come in order of posting; pushed events in their own order.
async fn drain_http(m: &Mon, t: &mut HttpTransport, due: &mut Vec<VecDeque<Value>>, trace: &str) -> Option<u64> {
    let mut n = 0;
    while due.iter().any(|q| !q.is_empty()) {
        let got = match tokio::time::timeout(PATIENCE, t.receive()).await {
            Ok(Ok(x)) => wire_of(&x),
            other => { m.fail("not-delivered", format!("{trace}: {other:?} while {due:?} was due")); return None; }
        };
        match due.iter_mut().find(|q| q.front().is_some_and(|w| same(&got, w))) {
            Some(q) => { q.pop_front(); n += 1; }
            None => { m.fail("wrong-message", format!("{trace}: {got} while {due:?} was due")); return None; }
        }
    }
    Some(n)
}

async fn silent(m: &Mon, r: &mut Rng) {
    let kind = r.below(3);
    let server = Scripted::start(Arc::new(move |_: &Req, _| match kind {
        0 => Act::Hang,
        1 => Act::Stream { status: 200, headers: vec![], pieces: vec![(b"{\"jsonrpc\":".to_vec(), 0)], cut: false, hold: true },
        _ => Act::Stream { status: 200, headers: vec![], pieces: vec![(vec![b' '], 20); 3000], cut: false, hold: false },
    })).await;
    let ms = match r.below(4) { 0 => r.range(1, 50), 1 => 30_000, _ => r.range(50, 45_000) } as u64;
    let mut t = HttpTransport::new(HttpConfig { base_url: url::Url::parse(&format!("http://{}/", server.addr)).unwrap(), sse_endpoint: None, timeout: Duration::from_millis(ms), headers: vec![], enable_pooling: true, max_idle_per_host: 1 });
    // Virtual time: nothing but the timeout takes any.
    let t0 = tokio::time::Instant::now();
    let x = tokio::time::timeout(Duration::from_millis(4 * ms + 100), t.send(wire::request(r).msg)).await;
    m.check(t0.elapsed() <= Duration::from_millis(ms + 5), "times-out-late", || format!("kind {kind}: {:?} of {ms} ms", t0.elapsed()));
    m.check(matches!(x, Ok(Err(_))), "times-out", || format!("kind {kind}, {ms} ms: {x:?} after {:?}", t0.elapsed()));
    m.check(t0.elapsed() >= Duration::from_millis(ms), "times-out-early", || format!("{:?} of {ms} ms", t0.elapsed()));
    let x = tokio::time::timeout(Duration::from_millis(8), t.receive()).await;
    m.check(x.is_err(), "extra", || format!("{x:?}"));
    m.count("timeouts", 1);
    m.case(("silent", kind, ms), true);
}

/// Hundreds of events, or events of hundreds of kilobytes, to a receiver that comes late.
async fn flood(m: &Mon, r: &mut Rng) {
    let large = r.bool();
    let n = if large { r.range(5, 25) } else { *r.pick(&[99usize, 101, 130, 600, 2100]) };
    let pads: Vec<usize> = (0..n).map(|_| if large { *r.pick(&[10, 60_000, 66_000, 200_000, 1_100_000]) } else { r.below(40) }).collect();
    let text: Vec<u8> = (0..n).flat_map(|k| format!("data: {}\n\n", json!({"jsonrpc": "2.0", "id": k, "result": {"pad": "é".repeat(pads[k] / 2)}})).into_bytes()).collect();
    let size = *r.pick(&[1000, 65_536, 1_000_000]);
    let p: Vec<(Vec<u8>, u64)> = text.chunks(size).map(|c| (c.to_vec(), 0)).collect();
    let hold = r.bool();
    let server = Scripted::start(Arc::new(move |_: &Req, _| Act::Stream { status: 200, headers: vec![("Content-Type".into(), "text/event-stream".into())], pieces: p.clone(), cut: false, hold })).await;
    let url = url::Url::parse(&format!("http://{}/", server.addr)).unwrap();
    let mut t = if r.bool() { HttpTransport::with_url(url).unwrap() } else { HttpTransport::new(HttpConfig { base_url: url, sse_endpoint: Some("/e".into()), timeout: PATIENCE, headers: vec![], enable_pooling: true, max_idle_per_host: 1 }) };
    let x = t.connect_sse().await;
    if !m.check(x.is_ok(), "connect", || format!("{x:?}")) { return; }
    if r.bool() { tokio::time::sleep(Duration::from_millis(r.range(1, 30) as u64)).await; }
    for k in 0..n {
        match tokio::time::timeout(PATIENCE, t.receive()).await {
            Ok(Ok(x)) => { let v = wire_of(&x); if !m.check(v["id"] == json!(k) && v["result"]["pad"].as_str().is_some_and(|s| s.len() == pads[k] / 2 * 2 && s.chars().all(|c| c == 'é')), "order", || format!("event {k} of {n}: {}", v["id"])) { return; } }
            x => { m.fail("not-delivered", format!("event {k} of {n}, large {large}: {}", format!("{x:?}").chars().take(200).collect::<String>())); return; }
        }
    }
    m.max("events waiting", n as u64);
    m.max("largest event", pads.iter().max().copied().unwrap_or(0) as u64);
    m.case(("flood", n, large, size), true);
}

// ------------------------------------------------------------------ C35

fn c35(m: &Arc<Mon>) {
    let mut r = m.rng("c35");
    let rt = mrt(4);
    m.stage("token calls");
    for _ in 0..m.n(600, 15000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        rt.block_on(tokens(m, &mut rr));
    }
    m.stage("discovery");
    for _ in 0..m.n(400, 8000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        rt.block_on(discovery(m, &mut rr));
    }
    m.stage("retry spacing");
    for _ in 0..m.n(60, 1500) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        rt.block_on(spacing(m, &mut rr));
    }
}

/// Many attempts far apart: the client's clock is virtual (nothing but its own waits advances it), the server's is not.
async fn spacing(m: &Mon, r: &mut Rng) {
    let doc = json!({"issuer": "i", "authorization_endpoint": "a", "token_endpoint": "t", "response_types_supported": [], "grant_types_supported": [], "scopes_supported": [], "token_endpoint_auth_methods_supported": [], "code_challenge_methods_supported": []});
    let good = Act::Reply { status: 200, headers: vec![("Content-Type".into(), "application/json".into())], body: doc.to_string().into_bytes() };
    let fails = *r.pick(&[1usize, 2, 3, 5, 9, 17, 33, 40]);
    let max = (fails as i64 + *r.pick(&[-1i64, 0, 1, 2, 20])).max(0) as usize;
    let delay = Duration::from_millis(*r.pick(&[0u64, 1, 7, 250, 1000, 30_000, 86_400_000]));
    let server = Scripted::start(Arc::new(move |_: &Req, n| if n < fails { Act::Drop } else { good.clone() })).await;
    let issuer = format!("http://{}", server.addr);
    let i2 = issuer.clone();
    let run = tokio::task::spawn_blocking(move || {
        let rt = mon::vrt();
        let out = rt.block_on(async {
            let c = OidcDiscoveryClient::with_settings(max, delay);
            let t0 = tokio::time::Instant::now();
            let x = c.discover(&i2).await;
            (x.is_ok(), t0.elapsed())
        });
        rt.shutdown_background();
        out
    });
    let ctx = || format!("max {max}, {fails} dropped connections, {delay:?} apart");
    let Ok(Ok((ok, took))) = tokio::time::timeout(PATIENCE, run).await else { m.fail("never-returned", ctx()); return };
    let used = max.max(1).min(fails + 1);
    let n = server.requests().len();
    m.check(n == used && ok == (used > fails), "attempts", || format!("{n} attempts, wanted {used}, found {ok}: {}", ctx()));
    let want = delay * (used as u32 - 1);
    // the virtual clock ticks in milliseconds
    m.check(took >= want && took <= want + Duration::from_millis(2 * used as u64), "spacing", || format!("{took:?} for {used} attempts, wanted {want:?}: {}", ctx()));
    m.count("spaced attempts", used as u64);
    m.max("most attempts", used as u64);
    m.case(("spacing", max, fails, delay), used > 2);
    m.sample("spacing", ctx);
}

/// The decoded members of a form body, or nothing when it is not one.
fn form(body: &[u8]) -> Option<Vec<(String, String)>> {
    let text = std::str::from_utf8(body).ok()?;
    fn dec(s: &str) -> Option<String> {
        let b = s.as_bytes();
        let mut out = vec![];
        let mut i = 0;
        while i < b.len() {
            match b[i] {
                b'+' => out.push(b' '),
                b'%' => { out.push(u8::from_str_radix(s.get(i + 1..i + 3)?, 16).ok()?); i += 2; }
                c if c.is_ascii_alphanumeric() || b"*-._~".contains(&c) => out.push(c),
                _ => return None,
            }
            i += 1;
        }
        String::from_utf8(out).ok()
    }
    text.split('&').map(|p| { let (k, v) = p.split_once('=')?; Some((dec(k)?, dec(v)?)) }).collect()
}

async fn tokens(m: &Mon, r: &mut Rng) {
    let reply = json!({"access_token": r.string(12), "token_type": r.pick(&["Bearer", "bearer", "x y"]), "expires_in": r.pick(&[json!(null), json!(0), json!(3600), json!(u64::MAX)]), "refresh_token": if r.bool() { json!(r.string(8)) } else { Value::Null }, "scope": if r.bool() { json!(r.string(8)) } else { Value::Null }});
    let mut doc = reply.clone();
    for k in ["expires_in", "refresh_token", "scope"] { if doc[k].is_null() && r.bool() { doc.as_object_mut().unwrap().remove(k); } }
    if r.bool() { doc["extra"] = r.json(2); }
    let kind = r.below(8);
    let act = match kind {
        0..=3 => Act::Reply { status: *r.pick(&[200, 200, 201]), headers: vec![("Content-Type".into(), r.pick(&["application/json", "text/plain"]).to_string())], body: wire::scramble(r, &doc).into_bytes() },
        4 => Act::Reply { status: *r.pick(&[400, 401, 403, 404, 500, 503]), headers: vec![], body: doc.to_string().into_bytes() },
        5 => { let mut d = doc.clone(); match r.below(3) { 0 => { d.as_object_mut().unwrap().remove("access_token"); } 1 => d["expires_in"] = json!("soon"), _ => d["token_type"] = json!(5) } Act::Reply { status: 200, headers: vec![], body: d.to_string().into_bytes() } }
        6 => Act::Reply { status: 200, headers: vec![], body: r.pick(&["", "no json", "[]", "{\"access_token\":"]).as_bytes().to_vec() },
        _ => Act::Drop,
    };
    let a2 = act.clone();
    let server = Scripted::start(Arc::new(move |_: &Req, _| a2.clone())).await;
    let refresh = r.bool();
    let s = |r: &mut Rng| { if r.chance(1, 8) { String::new() } else { r.string(16) } };
    let (code, client, redirect) = (s(r), s(r), s(r));
    let secret = r.bool().then(|| s(r));
    let opt = r.bool().then(|| s(r));
    let ep = format!("http://{}/token?x=1", server.addr);
    let c = TokenExchangeClient::new();
    let x = tokio::time::timeout(PATIENCE, async { if refresh { c.refresh_token(&ep, &code, &client, secret.as_deref(), opt.as_deref()).await } else { c.exchange_code(&ep, &code, &client, secret.as_deref(), &redirect, opt.as_deref()).await } }).await;
    let ctx = || format!("refresh {refresh}, {code:?} {client:?} {secret:?} {redirect:?} {opt:?}, {act:?}: {x:?}");
    let Ok(x) = &x else { m.fail("never-returned", ctx()); return };
    let all = server.requests();
    if !m.check(all.len() == 1, "one-post", || format!("{} requests: {}", all.len(), ctx())) { return; }
    let q = &all[0];
    let mut want: Vec<(&str, &str)> = if refresh { vec![("grant_type", "refresh_token"), ("refresh_token", &code), ("client_id", &client)] } else { vec![("grant_type", "authorization_code"), ("code", &code), ("client_id", &client), ("redirect_uri", &redirect)] };
    if let Some(o) = &opt { want.push((if refresh { "scope" } else { "code_verifier" }, o)); }
    let mut want: Vec<(String, String)> = want.into_iter().map(|(a, b)| (a.into(), b.into())).collect();
    let mut got = form(&q.body).unwrap_or_default();
    got.sort(); want.sort();
    m.eq(&got, &want, "parameters", ctx);
    use base64::Engine;
    let auth = secret.as_ref().map(|s| format!("Basic {}", base64::engine::general_purpose::STANDARD.encode(format!("{client}:{s}"))));
    m.eq(&q.header("authorization").map(str::to_string), &auth, "authorization", ctx);
    m.check(q.method == "POST" && q.path == "/token?x=1" && q.header("content-type") == Some("application/x-www-form-urlencoded") && q.header("accept").is_some_and(|a| a.contains("application/json")), "post", || format!("{q:?}"));
    match x {
        Ok(t) => {
            let got = json!({"access_token": t.access_token, "token_type": t.token_type, "expires_in": t.expires_in, "refresh_token": t.refresh_token, "scope": t.scope});
            m.check(kind <= 3 && got == reply, "token", || format!("{got}, sent {doc}, {}", ctx()));
        }
        Err(_) => { m.check(kind > 3, "token-error", ctx); }
    }
    m.case(("token", refresh, kind, &code, &client), true);
    m.sample("token", ctx);
}

async fn discovery(m: &Mon, r: &mut Rng) {
    let list = |r: &mut Rng, of: &[&str]| -> Value { json!((0..r.below(4)).map(|_| r.pick(of).to_string()).collect::<Vec<_>>()) };
    let mut want = json!({"issuer": r.string(10), "authorization_endpoint": r.string(10), "token_endpoint": r.string(10),
        "response_types_supported": list(r, &["code", "token"]), "grant_types_supported": list(r, &["authorization_code", "refresh_token", "client_credentials", "password"]),
        "scopes_supported": list(r, &["openid", "a b", "é"]), "token_endpoint_auth_methods_supported": list(r, &["client_secret_basic", "none"]), "code_challenge_methods_supported": list(r, &["S256", "plain"])});
    for k in ["jwks_uri", "userinfo_endpoint", "registration_endpoint", "revocation_endpoint", "introspection_endpoint"] { if r.bool() { want[k] = json!(r.string(8)); } }
    let mut doc = want.clone();
    if r.bool() { doc["claims_supported"] = json!(["x"]); }
    // The outcome of each attempt: refused connection, a failing reply, or the document.
    let good = Act::Reply { status: 200, headers: vec![("Content-Type".into(), "application/json".into())], body: wire::scramble(r, &doc).into_bytes() };
    let fails: Vec<u8> = (0..r.below(6)).map(|_| if r.chance(3, 4) { 0 } else { 1 + r.below(2) as u8 }).collect();
    let bad = Act::Reply { status: *r.pick(&[400, 404, 500, 503]), headers: vec![], body: b"{}".to_vec() };
    let junk = Act::Reply { status: 200, headers: vec![], body: r.pick(&["", "{}", "nope"]).as_bytes().to_vec() };
    let f2 = fails.clone();
    let server = Scripted::start(Arc::new(move |_: &Req, n| match f2.get(n) { Some(0) => Act::Drop, Some(1) => bad.clone(), Some(_) => junk.clone(), None => good.clone() })).await;
    let max = r.below(6);
    let delay = r.below(4) as u64;
    let path = *r.pick(&["", "/tenant", "/a/b"]);
    let issuer = format!("http://{}{path}{}", server.addr, r.pick(&["", "/", "//"]));
    // an answer at once needs no settings
    let c = if fails.is_empty() && r.bool() { OidcDiscoveryClient::new() } else { OidcDiscoveryClient::with_settings(max, Duration::from_millis(delay)) };
    let t0 = std::time::Instant::now();
    let x = tokio::time::timeout(PATIENCE, c.discover(&issuer)).await;
    let took = t0.elapsed();
    let ctx = || format!("max {max}, outcomes {fails:?}, {issuer}: {x:?}");
    let Ok(x) = &x else { m.fail("never-returned", ctx()); return };
    // Network failures are tried again, up to the number of attempts; an answer is final.
    let attempts = max.max(1);
    let first = fails.iter().position(|f| *f != 0).unwrap_or(fails.len());
    let used = attempts.min(first + 1);
    let ok = first == fails.len() && used > first;
    let all = server.requests();
    m.check(all.len() == used, "attempts", || format!("{} attempts, wanted {used}: {}", all.len(), ctx()));
    m.check(took >= Duration::from_millis(delay * (used as u64 - 1)), "delay", || format!("{took:?} for {used} attempts {delay} ms apart"));
    for q in &all { m.check(q.method == "GET" && q.path == format!("{path}/.well-known/openid-configuration"), "well-known", || format!("{q:?}")); }
    match x {
        Ok(d) => { let got = serde_json::to_value(d).unwrap_or_default(); m.check(ok && got == want, "document", || format!("{got}, sent {doc}, {}", ctx())); }
        Err(_) => { m.check(!ok, "discovery-error", ctx); }
    }
    m.count("discovery attempts", used as u64);
    m.case(("discovery", max, &fails, path), !fails.is_empty());
    m.sample("discovery", ctx);
    // Nobody listening at all.
    if r.chance(1, 10) {
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        let a = l.local_addr().unwrap();
        drop(l);
        let x = tokio::time::timeout(PATIENCE, c.discover(&format!("http://{a}"))).await;
        m.check(matches!(x, Ok(Err(_))), "unreachable", || format!("{x:?}"));
        let x = tokio::time::timeout(PATIENCE, TokenExchangeClient::new().exchange_code(&format!("http://{a}/"), "c", "i", None, "r", None)).await;
        m.check(matches!(x, Ok(Err(_))), "unreachable", || format!("{x:?}"));
        m.count("unreachable servers", 1);
    }
}
