//! C42: the SDK's client and server, end to end, over every transport they share.
use mon::rig::{as_wire, canon, perform, Call, Calls, Spec, Want};
use mon::{Check, Mon, Rng};
use pmcp::server::streamable_http_server::{EventStore, InMemoryEventStore, StreamableHttpServer, StreamableHttpServerConfig};
use pmcp::server::transport::websocket::{WebSocketServerConfig, WebSocketServerTransport};
use pmcp::shared::streamable_http::{StreamableHttpTransport, StreamableHttpTransportConfig};
use pmcp::shared::Transport;
use pmcp::types::*;
use pmcp::{Client, StdioTransport, WebSocketConfig, WebSocketTransport};
use serde_json::{json, Value};
use std::net::SocketAddr;
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const PATIENCE: Duration = Duration::from_secs(60);

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 5 && a[1] == "end" {
        end(&a[2], a[3].parse().unwrap(), &a[4]);
    }
    mon::main(&[Check { id: "C42", rule: "clients of the SDK performing random operations on a server of the SDK over one transport; non-trivial with a handler call", run: c42 }]);
}

type Op = (&'static str, Option<Value>, Option<Call>, Want);
/// The server and what each of `n` callers will do.
fn plan(r: &mut Rng, n: usize, most: usize) -> (Spec, Vec<Vec<Op>>) {
    let mut spec = Spec::full(r);
    if r.chance(1, 3) {
        spec.resources = r.bool();
        spec.tools.truncate(r.below(4));
        spec.prompts.truncate(r.below(3));
    }
    let plans = (0..n).map(|_| {
        let k = r.range(1, most);
        let mut v: Vec<Op> = vec![];
        while v.len() < k {
            let (meth, mut p) = spec.request(r);
            if matches!(meth, "initialize" | "resources/subscribe" | "resources/unsubscribe") { continue; }
            if meth == "tools/call" && r.chance(1, 40) {
                let x = r.string(7);
                p.as_mut().unwrap()["arguments"] = json!({"big": x.repeat(r.range(1000, 12_000))});
            }
            let (c, w) = spec.predict(&json!("?"), meth, &p);
            v.push((meth, p, c, w));
        }
        v
    }).collect();
    (spec, plans)
}
fn key(c: &Call) -> String { format!("{} {} {}", c.what, c.name, canon(&c.args)) }

/// Everything the callers of one client got.
type Got = Vec<Vec<Value>>;
/// Initializes a client and lets each caller perform its operations, with notifications in between.
async fn drive<T: Transport + 'static>(t: T, plans: Vec<Vec<Op>>, noise: bool, stream: Option<StreamableHttpTransport>) -> Result<(Client<T>, Got), String> where Client<T>: Clone {
    let mut client = Client::new(t);
    let info = client.initialize(ClientCapabilities::default()).await.map_err(|e| format!("initialize: {e}"))?;
    if info.server_info.version != "1" { return Err(format!("initialize returned {info:?}")); }
    if let Some(s) = stream { s.start_sse(None).await.map_err(|e| format!("event stream: {e}"))?; }
    let mut hs = vec![];
    for (k, p) in plans.into_iter().enumerate() {
        let c = client.clone();
        hs.push(tokio::spawn(async move {
            let mut outs = vec![];
            for (n, (meth, p, ..)) in p.iter().enumerate() {
                if noise && n % 3 == k % 3 {
                    c.send_progress(ProgressNotification { progress_token: ProgressToken::Number(n as i64), progress: 1.0, message: None }).await.map_err(|e| format!("progress: {e}"))?;
                }
                outs.push(as_wire(&perform(&c, meth, p).await));
            }
            Ok::<_, String>(outs)
        }));
    }
    let mut got = vec![];
    for h in hs { got.push(h.await.map_err(|e| e.to_string())??); }
    Ok((client, got))
}
/// Judges results and handler calls.
fn judge(m: &Mon, what: &str, spec: &Spec, plans: &[Vec<Op>], got: &Got, calls: &[String]) {
    for (plan, g) in plans.iter().zip(got) {
        m.check(plan.len() == g.len(), "results", || format!("{what}: {} of {} operations", g.len(), plan.len()));
        for ((meth, p, _, w), g) in plan.iter().zip(g) {
            if let Err(why) = spec.accepts(&json!("?"), w, g) {
                m.fail("call-result", format!("{what}: {meth} {p:?}: {why}; caller got {g}"));
            }
        }
    }
    let mut a: Vec<String> = plans.iter().flatten().filter_map(|o| o.2.as_ref()).map(key).collect();
    let mut b = calls.to_vec();
    if plans.len() > 1 { a.sort(); b.sort(); }
    m.check(a == b, "handler-calls", || format!("{what}: handlers ran {b:?}, callers asked {a:?}"));
}
fn keys(c: &Calls) -> Vec<String> { c.lock().unwrap().iter().map(key).collect() }

fn c42(m: &Arc<Mon>) {
    let mut r = m.rng("c42");
    let rt = mon::mrt(4);
    m.stage("streamable HTTP");
    for _ in 0..m.n(120, 3000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        rt.block_on(http(m, &mut rr));
    }
    m.stage("standard input and output");
    for _ in 0..m.n(60, 1500) {
        if m.stopped() { return; }
        stdio(m, r.u64());
    }
    m.stage("WebSocket");
    for _ in 0..m.n(120, 3000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        rt.block_on(websocket(m, &mut rr));
    }
    rt.shutdown_background();
}

// ------------------------------------------------------------------ streamable HTTP

static SID: AtomicU64 = AtomicU64::new(1);
async fn http(m: &Arc<Mon>, r: &mut Rng) {
    let (stateful, json_reply, store) = (r.bool(), r.bool(), r.bool());
    let clients = if r.bool() { 1 } else { r.range(2, 6) };
    let per: Vec<usize> = (0..clients).map(|_| if r.bool() { 1 } else { r.range(2, 4) }).collect();
    let (spec, plans) = plan(r, per.iter().sum(), 6);
    let (server, log) = spec.build(r);
    let opened: Arc<Mutex<Vec<String>>> = Arc::default();
    let closed: Arc<Mutex<Vec<String>>> = Arc::default();
    let (a, b) = (opened.clone(), closed.clone());
    let config = StreamableHttpServerConfig {
        session_id_generator: stateful.then(|| Box::new(|| format!("e-{}", SID.fetch_add(1, Ordering::SeqCst))) as _),
        enable_json_response: json_reply,
        event_store: store.then(|| Arc::new(InMemoryEventStore::default()) as Arc<dyn EventStore>),
        on_session_initialized: Some(Box::new(move |s: &str| a.lock().unwrap().push(s.into()))),
        on_session_closed: Some(Box::new(move |s: &str| b.lock().unwrap().push(s.into()))),
    };
    let server = Arc::new(tokio::sync::Mutex::new(server));
    let any = "127.0.0.1:0".parse().unwrap();
    // as it comes, or configured
    let plain = stateful && !json_reply && store && r.bool();
    let (addr, task) = if plain { StreamableHttpServer::new(any, server) } else { StreamableHttpServer::with_config(any, server, config) }.start().await.unwrap();
    let what = format!("HTTP stateful {stateful} json {json_reply} store {store}, {clients} clients {per:?}");
    let mut rest = plans.clone().into_iter();
    let mut jobs = vec![];
    for k in 0..clients {
        let mine: Vec<Vec<Op>> = rest.by_ref().take(per[k]).collect();
        let (js, sse, noise) = (r.bool(), r.chance(1, 3), r.bool());
        jobs.push(tokio::spawn(async move {
            let t = StreamableHttpTransport::new(StreamableHttpTransportConfig { url: url::Url::parse(&format!("http://{addr}/")).unwrap(), extra_headers: vec![], auth_provider: None, session_id: None, enable_json_response: js, on_resumption_token: None });
            let mut own = t.clone();
            // an event stream beside the calls, where the server offers one
            let (_c, got) = drive(t, mine, noise, (sse && stateful).then(|| own.clone())).await?;
            let sid = own.session_id();
            own.close().await.map_err(|e| format!("close: {e}"))?;
            Ok::<_, String>((got, sid))
        }));
    }
    let mut got: Got = vec![];
    let mut sids = vec![];
    for j in jobs {
        match tokio::time::timeout(PATIENCE, j).await {
            Ok(Ok(Ok((g, s)))) => { got.extend(g); sids.extend(s); },
            x => { m.fail("client", format!("{what}: {:?}", x.map(|x| x.map(|x| x.map(|_| ()))))); task.abort(); return; },
        }
    }
    judge(m, &what, &spec, &plans, &got, &keys(&log));
    let sorted = |v: &Mutex<Vec<String>>| { let mut v = v.lock().unwrap().clone(); v.sort(); v };
    sids.sort();
    m.check(sids.len() == if stateful { clients } else { 0 } && (plain || sorted(&opened) == sids && sorted(&closed) == sids) && sids.windows(2).all(|w| w[0] != w[1]), "sessions", || format!("{what}: clients had {sids:?}, opened {opened:?}, closed {closed:?}"));
    task.abort();
    note(m, &what, &plans, "http");
}
fn note(m: &Mon, what: &str, plans: &[Vec<Op>], kind: &str) {
    let calls = plans.iter().flatten().filter(|o| o.2.is_some()).count();
    m.count(&format!("{kind} connections"), 1);
    m.count(&format!("{kind} operations"), plans.iter().flatten().count() as u64);
    m.count("handler calls", calls as u64);
    let text = || format!("{what}: {:?}", plans.iter().map(|v| v.iter().map(|o| (o.0, o.1.as_ref().map(|p| p.to_string().chars().take(200).collect::<String>()))).collect::<Vec<_>>()).collect::<Vec<_>>());
    m.sample(kind, text);
    m.case(text(), calls > 0);
}

// ------------------------------------------------------------------ WebSocket

async fn websocket(m: &Arc<Mon>, r: &mut Rng) {
    let callers = if r.bool() { 1 } else { r.range(2, 5) };
    let (spec, plans) = plan(r, callers, 8);
    let (server, log) = spec.build(r);
    let what = format!("WebSocket, {callers} callers");
    let (mut t, addr) = loop {
        let addr: SocketAddr = { let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap(); l.local_addr().unwrap() };
        let mut t = WebSocketServerTransport::new(WebSocketServerConfig { bind_addr: addr, ..Default::default() });
        if t.bind().await.is_ok() { break (t, addr); }
    };
    let serving = tokio::spawn(async move {
        t.accept().await.map_err(|e| format!("accept: {e}"))?;
        server.run(t).await.map_err(|e| format!("run: {e}"))
    });
    let c = if r.chance(1, 3) { WebSocketTransport::with_url(url::Url::parse(&format!("ws://{addr}/mcp")).unwrap()).unwrap() } else { WebSocketTransport::new(WebSocketConfig { url: url::Url::parse(&format!("ws://{addr}/")).unwrap(), auto_reconnect: false, ping_interval: r.bool().then(|| Duration::from_millis(5)), ..Default::default() }) };
    if let Err(e) = c.connect().await { m.fail("connect", format!("{what}: {e}")); serving.abort(); return; }
    let (wanted, noise) = (plans.clone(), r.bool());
    match tokio::time::timeout(PATIENCE, drive(c, wanted, noise, None)).await {
        Ok(Ok((client, got))) => {
            judge(m, &what, &spec, &plans, &got, &keys(&log));
            drop(client);
        },
        x => { m.fail("client", format!("{what}: {:?}", x.map(|x| x.map(|_| ())))); serving.abort(); return; },
    }
    // the server ends once its client is gone
    let x = tokio::time::timeout(PATIENCE, serving).await;
    m.check(matches!(x, Ok(Ok(Ok(())))), "server-ends", || format!("{what}: {x:?}"));
    note(m, &what, &plans, "websocket");
}

// ------------------------------------------------------------------ standard input and output

fn scene(seed: u64) -> (Spec, Vec<Vec<Op>>, Rng) {
    let mut r = Rng::new(seed);
    let callers = if r.bool() { 1 } else { r.range(2, 5) };
    let (s, p) = plan(&mut r, callers, 8);
    (s, p, r)
}
/// One end of the connection, in a process of its own; what it saw goes to a file.
fn end(side: &str, seed: u64, out: &str) -> ! {
    let (spec, plans, mut r) = scene(seed);
    let rt = if r.bool() { mon::crt() } else { mon::mrt(2) };
    let v = rt.block_on(async {
        if side == "server" {
            let (server, log) = spec.build(&mut r);
            let x = server.run_stdio().await;
            json!({"run": x.map_err(|e| e.to_string()), "calls": keys(&log)})
        } else {
            match drive(StdioTransport::new(), plans, seed % 2 == 0, None).await {
                Ok((_, got)) => json!({"got": got}),
                Err(e) => json!({"error": e}),
            }
        }
    });
    std::fs::write(out, v.to_string()).unwrap();
    std::process::exit(0);
}
fn stdio(m: &Arc<Mon>, seed: u64) {
    let (spec, plans, _) = scene(seed);
    let what = format!("stdio, {} callers (seed {seed})", plans.len());
    let dir = std::env::temp_dir().join(format!("e2e-{}-{seed:x}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let file = |s: &str| dir.join(s);
    let start = |side: &str, input: Stdio, output: Stdio| Command::new(std::env::current_exe().unwrap()).args(["end", side, &seed.to_string()]).arg(file(side)).stdin(input).stdout(output).stderr(Stdio::null()).spawn().unwrap();
    let mut server = start("server", Stdio::piped(), Stdio::piped());
    let (to, from) = (server.stdin.take().unwrap(), server.stdout.take().unwrap());
    let mut client = start("client", from.into(), to.into());
    let since = Instant::now();
    let mut done = [false; 2];
    while done != [true; 2] {
        for (k, p) in [&mut client, &mut server].into_iter().enumerate() { if let Ok(Some(_)) = p.try_wait() { done[k] = true; } }
        if since.elapsed() > PATIENCE { break; }
        std::thread::sleep(Duration::from_millis(1));
    }
    for p in [&mut client, &mut server] { let _ = p.kill(); let _ = p.wait(); }
    let read = |p: &Path| -> Value { std::fs::read_to_string(p).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(Value::Null) };
    let (c, s) = (read(&file("client")), read(&file("server")));
    let _ = std::fs::remove_dir_all(&dir);
    if done != [true; 2] { m.fail("stdio-hangs", format!("{what}: ended client {} server {}; {c} {s}", done[0], done[1])); return; }
    let Ok(got) = serde_json::from_value::<Got>(c["got"].clone()) else { m.fail("client", format!("{what}: {c}")); return; };
    let calls: Vec<String> = serde_json::from_value(s["calls"].clone()).unwrap_or_default();
    judge(m, &what, &spec, &plans, &got, &calls);
    m.check(s["run"] == json!({"Ok": null}), "server-ends", || format!("{what}: {}", s["run"]));
    note(m, &what, &plans, "stdio");
}
