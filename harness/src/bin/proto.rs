//! C11 (pending requests), C12 (cancellation), C13 (elicitation), C14 (subscriptions), C15 (roots),
//! C16 (runtime registration).
use async_trait::async_trait;
use mon::wire;
use mon::{mrt, settle, virtually, Check, Mon, Rng};
use pmcp::server::cancellation::{CancellationManager, RequestHandlerExtra};
use pmcp::server::dynamic::{DynamicConfigBuilder, DynamicServerManager};
use pmcp::server::elicitation::{ElicitInput, ElicitationContext, ElicitationManager};
use pmcp::server::roots::RootsManager;
use pmcp::server::subscriptions::SubscriptionManager;
use pmcp::shared::protocol::TransportId;
use pmcp::shared::{BatchRequest, BatchResponse, Protocol, ProtocolOptions};
use pmcp::types::elicitation::{ElicitInputRequest, ElicitInputResponse};
use pmcp::types::protocol::*;
use pmcp::types::*;
use pmcp::{PromptHandler, ResourceHandler, SamplingHandler, Server, ToolHandler};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::{mpsc, oneshot};

fn main() {
    mon::main(&[
        Check { id: "C11", rule: "a history of registrations, responses and cancellations over two or three connections; non-trivial with a delivery and a stray response", run: c11 },
        Check { id: "C12", rule: "a history over several requests' tokens, or concurrent handlers with a cancelled subset; non-trivial with a cancellation and a surviving request", run: c12 },
        Check { id: "C13", rule: "a timed history of elicitations and answers; non-trivial with two outstanding at once", run: c13 },
        Check { id: "C14", rule: "a history of subscriptions and updates; non-trivial with an update that reaches someone", run: c14 },
        Check { id: "C15", rule: "a history of root registrations and removals; non-trivial with a removal", run: c15 },
        Check { id: "C16", rule: "a history of runtime registrations, removals and reloads; non-trivial with a removal or reload", run: c16 },
    ]);
}

// ------------------------------------------------------------------ C11

fn ids() -> Vec<RequestId> {
    vec![RequestId::Number(1), RequestId::String("1".into()), RequestId::Number(2), RequestId::String("2".into()), RequestId::Number(-1), RequestId::Number(0), RequestId::String(String::new()), RequestId::String("x".into()), RequestId::Number(i64::MAX)]
}

struct Waiter { rx: Option<oneshot::Receiver<JSONRPCResponse>>, conn: usize, id: RequestId, want: W }
#[derive(Clone, Debug, PartialEq)]
enum W { Pending, Got(u64), Ended, Seen }

fn c11(m: &Arc<Mon>) {
    let mut r = m.rng("c11");
    m.stage("many at once");
    for _ in 0..m.n(2, 20) {
        if m.stopped() { return; }
        let (m2, mut rr) = (m.clone(), r.fork());
        if virtually(async move { c11_many(&m2, &mut rr).await }).is_none() { m.fail("hang", "many at once never ended"); }
    }
    m.stage("histories");
    for _ in 0..m.n(6000, 300_000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        let m2 = m.clone();
        let ok = virtually(async move { c11_history(&m2, &mut rr).await });
        if ok.is_none() { m.fail("hang", "a protocol history never ended"); }
    }
    m.stage("waiters on threads");
    for _ in 0..m.n(20, 600) {
        if m.stopped() { return; }
        let n = r.range(2, 40);
        let m2 = m.clone();
        let order = { let mut v: Vec<usize> = (0..n).collect(); r.shuffle(&mut v); v };
        let cancel: HashSet<usize> = (0..n).filter(|_| r.chance(1, 5)).collect();
        let rt = mrt(4);
        rt.block_on(async move {
            let mut p = Protocol::new(ProtocolOptions::default());
            let waits: Vec<_> = (0..n).map(|i| { let rx = p.register_request(RequestId::Number(i as i64)); tokio::spawn(async move { tokio::time::timeout(Duration::from_secs(60), rx).await }) }).collect();
            for &i in &order {
                if cancel.contains(&i) { p.cancel_request(&RequestId::Number(i as i64)); }
                else { let _ = p.complete_request(&RequestId::Number(i as i64), JSONRPCResponse::success(RequestId::Number(i as i64), json!(i))); }
            }
            for (i, w) in waits.into_iter().enumerate() {
                match w.await.unwrap() {
                    Ok(Ok(resp)) => { m2.check(!cancel.contains(&i) && resp.result() == Some(&json!(i)), "wrong-response", || format!("waiter {i} got {resp:?}")); },
                    Ok(Err(_)) => { m2.check(cancel.contains(&i), "response-lost", || format!("waiter {i} ended without its response")); },
                    Err(_) => m2.fail("waiter-hangs", format!("waiter {i} neither answered nor ended")),
                }
            }
            m2.case(("threads", n, order), n > 2);
        });
        rt.shutdown_background();
    }
}

async fn c11_history(m: &Arc<Mon>, r: &mut Rng) {
    let n = r.range(2, 3);
    let same_name = r.chance(1, 10);
    let near = r.chance(1, 3);
    let tids: Vec<TransportId> = (0..n).map(|i| if r.bool() { TransportId::new() } else { TransportId::from_string(if same_name { "same".into() } else if near { ["conn", "Conn", "conn "][i % 3].into() } else { format!("t{i}") }) }).collect();
    let mut ps: Vec<Option<Protocol>> = tids.iter().map(|t| Some(Protocol::with_transport_id(ProtocolOptions::default(), t.clone()))).collect();
    let pool = ids();
    let mut ws: Vec<Waiter> = vec![];
    let mut live: HashMap<(usize, RequestId), usize> = HashMap::new();
    let mut trace = vec![];
    let (mut delivered, mut stray) = (0, 0);
    let mut seq = 0u64;
    for _ in 0..r.range(4, 40) {
        let mut c = r.below(n);
        let mut id = r.pick(&pool).clone();
        if !live.is_empty() && r.chance(1, 2) {
            // aim at a pending request
            let mut k: Vec<_> = live.keys().cloned().collect();
            k.sort_by_key(|k| format!("{k:?}"));
            (c, id) = r.pick(&k).clone();
        }
        let Some(p) = ps[c].as_mut() else { continue };
        let key = (c, id.clone());
        match r.below(10) {
            0..=3 => {
                if live.contains_key(&key) { continue; }
                let rx = p.register_request(id.clone());
                live.insert(key, ws.len());
                ws.push(Waiter { rx: Some(rx), conn: c, id: id.clone(), want: W::Pending });
                trace.push(format!("register {c} {id:?}"));
            },
            4 | 5 => {
                seq += 1;
                let res = p.complete_request(&id, resp(r, &id, seq));
                trace.push(format!("complete {c} {id:?} #{seq}"));
                match live.remove(&key) {
                    Some(w) => { delivered += 1; if ws[w].want == W::Pending { ws[w].want = W::Got(seq); } m.check(res.is_ok(), "response-refused", || format!("{res:?}; {trace:?}")); },
                    None => stray += 1,
                }
            },
            6 | 7 => {
                seq += 1;
                let other = r.below(n + 1);
                let t = if other == n { TransportId::new() } else { tids[other].clone() };
                let own = t == tids[c];
                let res = p.complete_request_for_transport(&id, resp(r, &id, seq), &t);
                trace.push(format!("complete-for {c} {id:?} own={own} #{seq}"));
                match live.get(&key) {
                    Some(&w) if own => {
                        live.remove(&key);
                        delivered += 1;
                        if ws[w].want == W::Pending { ws[w].want = W::Got(seq); }
                        m.check(matches!(res, Ok(true)), "response-refused", || format!("{res:?}; {trace:?}"));
                    },
                    _ => { stray += 1; m.check(!matches!(res, Ok(true)), "stray-reported-delivered", || format!("{trace:?}")); },
                }
            },
            8 => {
                p.cancel_request(&id);
                trace.push(format!("cancel {c} {id:?}"));
                if let Some(w) = live.remove(&key) { if ws[w].want == W::Pending { ws[w].want = W::Ended; } }
            },
            _ => {
                match r.below(3) {
                    0 if !ws.is_empty() => { let i = r.below(ws.len()); ws[i].rx = None; trace.push(format!("drop waiter {i}")); },
                    1 if r.chance(1, 6) => {
                        ps[c] = None;
                        trace.push(format!("drop protocol {c}"));
                        for ((cc, _), w) in &live { if *cc == c && ws[*w].want == W::Pending { ws[*w].want = W::Ended; } }
                        live.retain(|k, _| k.0 != c);
                    },
                    _ => {},
                }
            },
        }
        if r.chance(1, 2) { continue; }
        settle().await;
        for (i, w) in ws.iter_mut().enumerate() {
            let Some(rx) = w.rx.as_mut() else { continue };
            if w.want == W::Seen { continue; }
            let ctx = |g: &str| format!("waiter {i} of {:?} on {}: {g}, wanted {:?}; {trace:?}", w.id, w.conn, w.want);
            match rx.try_recv() {
                Ok(g) => {
                    let k = seq_of(&g);
                    let good = w.want == W::Got(k) && g.id == w.id;
                    m.check(good, if w.want == W::Pending { "stray-delivered" } else { "wrong-response" }, || ctx(&format!("{g:?}")));
                    w.want = W::Seen;
                },
                Err(oneshot::error::TryRecvError::Empty) => { m.check(w.want == W::Pending, if w.want == W::Ended { "cancelled-waiter-still-waiting" } else { "response-lost" }, || ctx("nothing")); },
                Err(oneshot::error::TryRecvError::Closed) => { m.check(w.want == W::Ended, "waiter-ended", || ctx("closed")); w.want = W::Seen; },
            }
        }
    }
    m.count("deliveries", delivered);
    m.count("stray_responses", stray);
    m.sample("history", || format!("{trace:?}"));
    m.case(trace, delivered > 0 && stray > 0);
}
fn resp(r: &mut Rng, id: &RequestId, seq: u64) -> JSONRPCResponse {
    if r.chance(1, 4) { JSONRPCResponse::error(id.clone(), JSONRPCError { code: seq as i32, message: r.string(5), data: Some(json!(seq)) }) }
    else { JSONRPCResponse::success(id.clone(), json!({"seq": seq, "x": r.json(1)})) }
}
fn seq_of(g: &JSONRPCResponse) -> u64 {
    match &g.payload {
        pmcp::types::jsonrpc::ResponsePayload::Result(v) => v["seq"].as_u64().unwrap_or(0),
        pmcp::types::jsonrpc::ResponsePayload::Error(e) => e.data.as_ref().and_then(|d| d.as_u64()).unwrap_or(0),
    }
}

// ------------------------------------------------------------------ C12

type Notes = Arc<Mutex<Vec<(Value, Option<String>)>>>;
fn note_sink() -> (Notes, Arc<dyn Fn(Notification) + Send + Sync>) {
    let notes: Notes = Arc::default();
    let n2 = notes.clone();
    (notes, Arc::new(move |n| {
        let e = match n {
            Notification::Client(ClientNotification::Cancelled(c)) => (wire::id_json(&c.request_id), c.reason),
            Notification::Cancelled(c) => (wire::id_json(&c.request_id), c.reason),
            o => (json!(format!("{o:?}")), None),
        };
        n2.lock().unwrap().push(e);
    }))
}

fn c12(m: &Arc<Mon>) {
    let mut r = m.rng("c12");
    m.stage("many at once");
    for _ in 0..m.n(2, 20) {
        if m.stopped() { return; }
        let (m2, mut rr) = (m.clone(), r.fork());
        if virtually(async move { c12_many(&m2, &mut rr).await }).is_none() { m.fail("hang", "many at once never ended"); }
    }
    m.stage("token histories");
    for _ in 0..m.n(5000, 200_000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        let m2 = m.clone();
        if virtually(async move { c12_history(&m2, &mut rr).await }).is_none() { m.fail("hang", "a token history never ended"); }
    }
    m.stage("tokens on threads");
    for _ in 0..m.n(60, 2000) {
        if m.stopped() { return; }
        let seed = r.u64();
        let m2 = m.clone();
        let rt = mrt(4);
        rt.block_on(c12_threads(m2, seed));
        rt.shutdown_background();
    }
    m.stage("running handlers");
    for _ in 0..m.n(600, 20_000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        let m2 = m.clone();
        if virtually(async move { c12_server(&m2, &mut rr).await }).is_none() { m.fail("cancelled-handler-hangs", "handlers waiting for cancellation never finished"); }
    }
}

async fn c12_history(m: &Arc<Mon>, r: &mut Rng) {
    let mut mgr = CancellationManager::new();
    let (notes, sink) = note_sink();
    let with_sink = r.chance(5, 6);
    if with_sink { mgr.set_notification_sender(sink); }
    let pool: Vec<String> = if r.bool() { let n = r.range(1, 6); r.kin(n) } else { let mut v: Vec<String> = (0..r.range(1, 5)).map(|_| r.string(4)).collect(); v.sort(); v.dedup(); v };
    // every token ever made with the outcome it must show
    let mut toks: Vec<(tokio_util_token::Tok, bool, String)> = vec![];
    let mut live: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    let mut want: Vec<(Value, Option<String>)> = vec![];
    let mut trace = vec![];
    let (mut cancels, mut survived) = (0, 0);
    for _ in 0..r.range(3, 25) {
        let id = r.pick(&pool).clone();
        match r.below(9) {
            0..=2 => {
                if live.contains_key(&id) { continue; }
                let t = mgr.create_token(id.clone()).await;
                trace.push(format!("create {id:?}"));
                let mut mine = vec![toks.len()];
                let extra = RequestHandlerExtra::new(id.clone(), t.clone()).with_session_id(Some(id.clone()));
                toks.push((tokio_util_token::Tok::Token(t.clone()), false, id.clone()));
                mine.push(toks.len());
                toks.push((tokio_util_token::Tok::Extra(extra), false, id.clone()));
                live.insert(id, mine);
            },
            3 => {
                trace.push(format!("get {id:?}"));
                match (mgr.get_token(&id).await, live.get_mut(&id)) {
                    (Some(t), Some(v)) => { v.push(toks.len()); toks.push((tokio_util_token::Tok::Token(t), false, id)); },
                    (None, None) => {},
                    (g, w) => m.fail("token-lookup", format!("{id:?}: token {} while it is {}; {trace:?}", g.is_some(), if w.is_some() { "outstanding" } else { "not outstanding" })),
                }
            },
            4 | 5 => {
                let reason = r.bool().then(|| r.string(6));
                trace.push(format!("cancel {id:?} {reason:?}"));
                let res = mgr.cancel_request(id.clone(), reason.clone()).await;
                m.check(res.is_ok(), "cancel-error", || format!("{res:?}"));
                if let Some(v) = live.remove(&id) {
                    cancels += 1;
                    for i in v { toks[i].1 = true; }
                    if with_sink { want.push((json!(id), reason)); }
                }
            },
            6 => { trace.push(format!("remove {id:?}")); mgr.remove_token(&id).await; live.remove(&id); },
            7 => {
                let c = mgr.is_cancelled(&id).await;
                if live.contains_key(&id) { m.check(!c, "live-reported-cancelled", || format!("{id:?}; {trace:?}")); }
            },
            _ if r.chance(1, 8) => {
                trace.push("clear".into());
                let before = notes.lock().unwrap().len();
                mgr.clear().await;
                for (_, v) in std::mem::take(&mut live) { for i in v { toks[i].1 = true; } }
                notes.lock().unwrap().truncate(before);
            },
            _ => {},
        }
        for (t, c, id) in &toks {
            if m.stopped() { return; }
            if t.cancelled() != *c { m.fail(if *c { "token-not-cancelled" } else { "other-token-cancelled" }, format!("token of {id:?}; {trace:?}")); return; }
            if !*c { survived += 1; }
        }
        let got = notes.lock().unwrap().clone();
        let same = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.0 == w.0 && (w.1.is_none() || g.1 == w.1));
        if !m.check(same, "cancel-notifications", || format!("got {got:?}, want {want:?}; {trace:?}")) { return; }
        for id in &pool { let g = mgr.get_token(id).await.is_some(); m.check(g == live.contains_key(id), "token-lookup", || format!("{id:?} {g}; {trace:?}")); }
    }
    m.count("cancellations", cancels);
    m.sample("history", || format!("{trace:?}"));
    m.case(trace, cancels > 0 && survived > 0);
}
mod tokio_util_token {
    use super::*;
    /// A token seen through either of the handles the API gives out.
    pub enum Tok { Token(Token), Extra(RequestHandlerExtra) }
    pub type Token = tokio_util::sync::CancellationToken;
    impl Tok { pub fn cancelled(&self) -> bool { match self { Tok::Token(t) => t.is_cancelled(), Tok::Extra(e) => e.is_cancelled() } } }
}

async fn c12_threads(m: Arc<Mon>, seed: u64) {
    let mut mgr = CancellationManager::new();
    let (notes, sink) = note_sink();
    mgr.set_notification_sender(sink);
    let mgr = Arc::new(mgr);
    let keep = mgr.create_token("keep".into()).await;
    let shared = mgr.create_token("shared".into()).await;
    let barrier = Arc::new(tokio::sync::Barrier::new(6));
    let jobs: Vec<_> = (0..6u64).map(|k| {
        let (mgr, m, b) = (mgr.clone(), m.clone(), barrier.clone());
        tokio::spawn(async move {
            let mut r = Rng::new(seed ^ (k * 7919));
            let mut want = vec![];
            b.wait().await;
            for j in 0..r.range(5, 40) {
                let id = format!("{k}-{j}");
                let t = mgr.create_token(id.clone()).await;
                if r.chance(1, 8) { let _ = mgr.cancel_request("shared".into(), Some("s".into())).await; }
                if r.chance(1, 3) { tokio::task::yield_now().await; }
                let other = format!("{}-{j}x", (k + 1) % 6);
                let _ = mgr.cancel_request(other.clone(), None).await;
                m.check(!t.is_cancelled(), "other-token-cancelled", || format!("{id} cancelled by cancelling {other}"));
                if r.bool() {
                    let _ = mgr.cancel_request(id.clone(), Some(id.clone())).await;
                    m.check(t.is_cancelled(), "token-not-cancelled", || id.clone());
                    want.push(id);
                } else { mgr.remove_token(&id).await; let _ = mgr.cancel_request(id.clone(), None).await; m.check(!t.is_cancelled(), "finished-token-cancelled", || id.clone()); }
            }
            want
        })
    }).collect();
    let mut want: Vec<String> = vec![];
    for j in jobs { want.extend(j.await.unwrap()); }
    if shared.is_cancelled() { want.push("shared".into()); }
    want.sort();
    let mut got: Vec<String> = notes.lock().unwrap().iter().map(|n| n.0.as_str().unwrap_or("?").to_string()).collect();
    got.sort();
    m.check(got == want, "cancel-notifications", || format!("got {got:?}, want {want:?}"));
    m.check(!keep.is_cancelled(), "other-token-cancelled", || "keep".into());
    mgr.clear().await;
    m.check(keep.is_cancelled(), "clear-leaves-token", || "keep".into());
    m.count("cancellations", want.len() as u64);
    m.case(("threads", seed), true);
}

/// A tool that waits for its own cancellation or for the test to release it.
struct Waiting { gates: Arc<Mutex<HashMap<String, Arc<tokio::sync::Notify>>>>, seen: Arc<Mutex<Vec<(String, bool)>>> }
#[async_trait]
impl ToolHandler for Waiting {
    async fn handle(&self, args: Value, extra: RequestHandlerExtra) -> pmcp::Result<Value> {
        let key = args["key"].as_str().unwrap_or("").to_string();
        let gate = self.gates.lock().unwrap().entry(key.clone()).or_default().clone();
        let c = tokio::select! { () = extra.cancelled() => true, () = gate.notified() => extra.is_cancelled() };
        self.seen.lock().unwrap().push((key.clone(), c));
        Ok(json!(format!("{key} {c}")))
    }
}
async fn c12_server(m: &Arc<Mon>, r: &mut Rng) {
    let gates: Arc<Mutex<HashMap<String, Arc<tokio::sync::Notify>>>> = Arc::default();
    let seen: Arc<Mutex<Vec<(String, bool)>>> = Arc::default();
    let server = Arc::new(Server::builder().name("s").version("1").tool("wait", Waiting { gates: gates.clone(), seen: seen.clone() }).build().unwrap());
    let mut pool: Vec<RequestId> = vec![RequestId::Number(1), RequestId::Number(11), RequestId::String("a".into()), RequestId::String("b c".into()), RequestId::Number(-7), RequestId::String("é".into()), RequestId::String("long ".repeat(40 + r.below(400))), RequestId::Number(i64::MAX - r.below(9) as i64), RequestId::String(" ".into())];
    r.shuffle(&mut pool);
    let n = r.range(1, pool.len());
    let text = |i: &RequestId| match i { RequestId::Number(n) => n.to_string(), RequestId::String(s) => s.clone() };
    let jobs: Vec<_> = pool[..n].iter().map(|id| {
        let (s, id) = (server.clone(), id.clone());
        tokio::spawn(async move {
            let req = JSONRPCRequest { jsonrpc: "2.0".into(), id: id.clone(), method: "tools/call".into(), params: Some(json!({"name": "wait", "arguments": {"key": text(&id)}})) };
            s.handle_batch_request(BatchRequest::Single(req)).await
        })
    }).collect();
    settle().await;
    // unknown ids, then a random subset
    for id in &pool[n..] { let _ = server.cancel_request(text(id), None).await; }
    let chosen: HashSet<String> = pool[..n].iter().filter(|_| r.bool()).map(text).collect();
    for c in &chosen { let res = server.cancel_request(c.clone(), r.bool().then(|| "why".to_string())).await; m.check(res.is_ok(), "cancel-error", || format!("{res:?}")); }
    settle().await;
    let done: HashSet<String> = seen.lock().unwrap().iter().map(|s| s.0.clone()).collect();
    m.check(done == chosen, "cancelled-set", || format!("cancelled {chosen:?}, but the handlers that saw it are {done:?}"));
    for g in gates.lock().unwrap().values() { g.notify_one(); }
    for (j, id) in jobs.into_iter().zip(&pool) {
        let key = text(id);
        if !chosen.contains(&key) && done.contains(&key) { continue; }
        match j.await.unwrap() {
            Ok(BatchResponse::Single(resp)) => {
                let want = json!(format!("{key} {}", chosen.contains(&key))).to_string();
                let got = resp.result().and_then(|v| v.pointer("/content/0/text")).and_then(|t| t.as_str()).unwrap_or("?").to_string();
                m.check(got == want && resp.id == *id, "cancelled-response", || format!("{id:?}: {got} wanted {want}"));
            },
            o => m.fail("cancelled-response", format!("{o:?}")),
        }
    }
    // finished ids: cancelling again affects nobody, and the id can be used again
    for id in &pool[..n] { let res = server.cancel_request(text(id), None).await; m.check(res.is_ok(), "cancel-error", || format!("{res:?}")); }
    m.check(server.cancel_request(String::new(), None).await.is_err(), "empty-id-accepted", || String::new());
    let id = pool[0].clone();
    let (s, id2) = (server.clone(), id.clone());
    let again = tokio::spawn(async move { s.handle_batch_request(BatchRequest::Single(JSONRPCRequest { jsonrpc: "2.0".into(), id: id2, method: "tools/call".into(), params: Some(json!({"name": "wait", "arguments": {"key": "again"}})) })).await });
    settle().await;
    m.check(!seen.lock().unwrap().iter().any(|s| s.0 == "again"), "stale-cancel", || format!("a reused id {id:?} started cancelled"));
    let g = gates.lock().unwrap().get("again").cloned();
    if let Some(g) = g { g.notify_one(); }
    let _ = again.await;
    m.check(seen.lock().unwrap().iter().any(|s| s.0 == "again" && !s.1), "stale-cancel", || format!("a reused id {id:?} saw a cancellation"));
    m.count("handlers", n as u64 + 1);
    m.count("cancellations", chosen.len() as u64);
    m.case(("server", format!("{pool:?}"), chosen.len(), n), !chosen.is_empty() && chosen.len() < n);
}

// ------------------------------------------------------------------ C13

#[derive(Debug, Clone)]
enum Act { Start(usize), Respond(String, u64), Cancel(String), CancelAll, Abandon(usize) }
/// The answer numbered k: a value, none, a refusal by the user, or a report of bad input.
fn el_answer(id: &str, k: u64) -> ElicitInputResponse {
    let (value, cancelled, error) = match k % 6 { 0 => (None, true, None), 1 => (None, false, Some(format!("bad {k}"))), 2 => (None, false, None), 3 => (Some(json!({"k": k})), true, Some(String::new())), _ => (Some(json!(k)), false, None) };
    ElicitInputResponse { elicitation_id: id.to_string(), value, cancelled, error }
}

fn c13(m: &Arc<Mon>) {
    let mut r = m.rng("c13");
    m.stage("many at once");
    for _ in 0..m.n(2, 20) {
        if m.stopped() { return; }
        let (m2, mut rr) = (m.clone(), r.fork());
        if virtually(async move { c13_many(&m2, &mut rr).await }).is_none() { m.fail("hang", "many at once never ended"); }
    }
    m.stage("timed histories");
    for _ in 0..m.n(3000, 120_000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        let m2 = m.clone();
        if virtually(async move { c13_history(&m2, &mut rr).await }).is_none() { m.fail("elicitation-hangs", "an elicitation never ended"); }
    }
    m.stage("blocked and closed channels");
    for _ in 0..m.n(300, 10_000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        let m2 = m.clone();
        if virtually(async move { c13_blocked(&m2, &mut rr).await }).is_none() { m.fail("elicitation-hangs", "an elicitation on a blocked channel never ended"); }
    }
    m.stage("built requests");
    for _ in 0..m.n(3000, 60_000) { if m.stopped() { return; } let mut rr = r.fork(); built(m, &mut rr); }
    m.stage("threads");
    for _ in 0..m.n(30, 800) {
        if m.stopped() { return; }
        let seed = r.u64();
        let rt = mrt(4);
        rt.block_on(c13_threads(m.clone(), seed));
        rt.shutdown_background();
    }
}
/// A request built step by step holds exactly what was set, the last value of each.
fn built(m: &Mon, r: &mut Rng) {
    use pmcp::types::elicitation as el;
    let (prompt, mut want) = (r.string(8), serde_json::Map::new());
    let some = || Vec::from([el::SelectOption { value: json!(1), label: "one".into(), description: None, disabled: false }, el::SelectOption { value: json!("2"), label: String::new(), description: Some("second".into()), disabled: true }, el::SelectOption { value: json!(1), label: "one".into(), description: None, disabled: false }]);
    let (mut b, kind) = match r.below(6) {
        0 => (el::elicit_text(prompt.clone()), "text"),
        1 => (el::elicit_boolean(prompt.clone()), "boolean"),
        2 => (el::elicit_number(prompt.clone()), "number"),
        3 => (el::elicit_file(prompt.clone()), "filePath"),
        4 => (el::elicit_select(prompt.clone(), some()), "select"),
        _ => (el::ElicitInputBuilder::new(el::InputType::Password, prompt.clone()), "password"),
    };
    let mut rules = serde_json::Map::new();
    if kind == "select" { rules.insert("options".into(), to_json(&some())); }
    let mut id = None;
    let steps: Vec<usize> = (0..r.below(9)).map(|_| r.below(9)).collect();
    for s in &steps {
        let t = r.string(6);
        let x = r.below(1000) as f64 / 8.0;
        b = match s {
            0 => { id = Some(t.clone()); b.id(t) }
            1 => { want.insert("description".into(), json!(t)); b.description(t) }
            2 => { let v = r.json(2); want.insert("default".into(), v.clone()); b.default(v) }
            3 => { rules.insert("required".into(), json!(true)); b.required() }
            4 => { rules.insert("min".into(), json!(x)); b.min(x) }
            5 => { rules.insert("max".into(), json!(x)); b.max(x) }
            6 => { rules.insert("pattern".into(), json!(t)); b.pattern(t) }
            7 => { rules.insert("options".into(), to_json(&some())); b.options(some()) }
            _ => { let k = format!("x_{}", r.ident(3)); want.insert(k.clone(), json!(t)); b.metadata(k, t) }
        };
    }
    if !rules.is_empty() { rules.entry("required").or_insert(json!(false)); want.insert("validation".into(), Value::Object(rules)); }
    want.insert("prompt".into(), json!(prompt));
    want.insert("inputType".into(), json!(kind));
    let mut got = to_json(&b.build());
    let got_id = got.as_object_mut().unwrap().remove("elicitationId");
    m.check(got_id.as_ref().and_then(|v| v.as_str()).is_some_and(|v| id.as_deref().map_or(!v.is_empty(), |i| i == v)), "built-id", || format!("{got_id:?}, set {id:?}"));
    m.eq(&got, &Value::Object(want), "built-request", || format!("{kind} {steps:?}"));
    m.case(("built", kind, steps), true);
}
fn to_json<T: serde::Serialize>(t: &T) -> Value { serde_json::to_value(t).unwrap() }

#[derive(Debug, Clone, PartialEq)]
enum End { Value(u64), Cancelled, Timeout, Refused }

async fn c13_history(m: &Arc<Mon>, r: &mut Rng) {
    let t_ms = if r.chance(1, 25) { r.range(86_500_000, 100_000_000) } else { r.range(50, 5000) } as u64;
    let (tx, mut rx) = mpsc::channel(64);
    let mut mgr = ElicitationManager::new();
    mgr.set_request_channel(tx);
    let default_timeout = r.chance(1, 20);
    let t_ms = if default_timeout { 300_000 } else { mgr.set_timeout(Duration::from_millis(t_ms)); t_ms };
    let mgr = Arc::new(mgr);
    let n = r.range(1, 8);
    let pool: Vec<String> = if r.bool() { let n = r.range(1, 8); r.kin(n) } else { let mut v: Vec<String> = (0..r.range(1, 8)).map(|_| r.string(5)).collect(); v.sort(); v.dedup(); v };
    // distinct even times; deadlines are odd, so nothing ties
    let t_ms = if t_ms % 2 == 0 { t_ms + 1 } else { t_ms };
    let mgr = if default_timeout { mgr } else { let mut g = Arc::try_unwrap(mgr).ok().unwrap(); g.set_timeout(Duration::from_millis(t_ms)); Arc::new(g) };
    let t_ms = if default_timeout { 300_000 } else { t_ms };
    let mut times: Vec<u64> = vec![];
    let mut acts: Vec<(u64, Act)> = vec![];
    let mut at = |r: &mut Rng, span: u64| loop { let t = r.below(span as usize) as u64 * 2; if !times.contains(&t) && !times.contains(&(t + t_ms)) && !times.iter().any(|x| x + t_ms == t) { times.push(t); return t; } };
    let reqs: Vec<(ElicitInputRequest, Value)> = (0..n).map(|_| { let (mut q, mut v) = wire::elicit_request(r); let id = r.pick(&pool).clone(); q.elicitation_id = id.clone(); v["elicitationId"] = json!(id); (q, v) }).collect();
    for i in 0..n { let t = at(r, t_ms); acts.push((t, Act::Start(i))); }
    let mut seq = 0;
    for _ in 0..r.range(1, 14) {
        let t = at(r, t_ms * 2);
        let id = if r.chance(1, 8) { "nobody".to_string() } else { r.pick(&pool).clone() };
        acts.push((t, match r.below(14) { 0..=7 => { seq += 1; Act::Respond(id, seq) }, 8..=10 => Act::Cancel(id), 11 | 12 => Act::Abandon(r.below(n)), _ => Act::CancelAll }));
    }
    acts.sort_by_key(|a| a.0);
    // reference: who is pending when
    let mut pending: BTreeMap<String, (usize, u64)> = BTreeMap::new();
    let mut ends: BTreeMap<usize, (End, u64)> = BTreeMap::new();
    let start = tokio::time::Instant::now();
    let results: Arc<Mutex<BTreeMap<usize, (pmcp::Result<ElicitInputResponse>, u64)>>> = Arc::default();
    let mut sent = vec![];
    let mut tasks: HashMap<usize, tokio::task::JoinHandle<()>> = HashMap::new();
    // ids whose asker went away: an answer may or may not be taken for late
    let mut orphans: HashSet<String> = HashSet::new();
    let mut overlap = 0;
    let trace = format!("timeout {t_ms} {acts:?}");
    for (t, a) in &acts {
        tokio::time::sleep_until(start + Duration::from_millis(*t)).await;
        settle().await;
        let expired: Vec<String> = pending.iter().filter(|(_, p)| p.1 + t_ms < *t).map(|(k, _)| k.clone()).collect();
        for k in expired { let (i, s) = pending.remove(&k).unwrap(); ends.insert(i, (End::Timeout, s + t_ms)); }
        let count = mgr.pending_count().await;
        m.check(count == pending.len(), "pending-count", || format!("{count} pending at {t}, should be {pending:?}; {trace}"));
        match a {
            Act::Start(i) => {
                let id = &reqs[*i].0.elicitation_id;
                if pending.contains_key(id) { ends.insert(*i, (End::Refused, *t)); }
                else { pending.insert(id.clone(), (*i, *t)); orphans.remove(id); sent.push(reqs[*i].1.clone()); }
                overlap = overlap.max(pending.len());
                let (mgr, q, res, i) = (mgr.clone(), reqs[*i].0.clone(), results.clone(), *i);
                let (ctx, n) = (r.bool(), i);
                let task = tokio::spawn(async move {
                    let out = if ctx { ElicitationContext::new(mgr).elicit_input(q).await } else { mgr.elicit_input(q).await };
                    res.lock().unwrap().insert(i, (out, start.elapsed().as_millis() as u64));
                });
                tasks.insert(n, task);
            },
            Act::Respond(id, k) => {
                let out = mgr.handle_response(el_answer(id, *k)).await;
                let hit = pending.remove(id);
                m.check(out.is_ok() == hit.is_some() || orphans.remove(id), "response-acceptance", || format!("response to {id:?} at {t}: {out:?}, pending {}; {trace}", hit.is_some()));
                if let Some((i, _)) = hit { ends.insert(i, (End::Value(*k), *t)); }
            },
            Act::Cancel(id) => {
                let out = mgr.cancel(id).await;
                let hit = pending.remove(id);
                m.check(out.is_ok() == hit.is_some() || orphans.remove(id), "cancel-acceptance", || format!("cancel of {id:?} at {t}: {out:?}; {trace}"));
                if let Some((i, _)) = hit { ends.insert(i, (End::Cancelled, *t)); }
            },
            Act::Abandon(i) => {
                if let Some((id, _)) = pending.iter().find(|(_, p)| p.0 == *i).map(|(k, p)| (k.clone(), *p)) {
                    if let Some(t) = tasks.remove(i) { t.abort(); }
                    pending.remove(&id);
                    orphans.insert(id);
                    m.count("abandoned", 1);
                }
            },
            Act::CancelAll => { orphans.clear(); mgr.cancel_all().await; for (_, (i, _)) in std::mem::take(&mut pending) { ends.insert(i, (End::Cancelled, *t)); } },
        }
        settle().await;
        let bad = { let res = results.lock().unwrap(); ends.iter().find(|(i, _)| !res.contains_key(i)).map(|(i, e)| format!("elicitation {i} should have ended {e:?}")).or_else(|| res.iter().find(|(i, _)| !ends.contains_key(i)).map(|(i, g)| format!("elicitation {i} ended early with {g:?}"))) };
        if let Some(b) = bad { m.fail("elicitation-end", format!("{b} by {t}; {trace}")); return; }
    }
    tokio::time::sleep(Duration::from_millis(t_ms * 3)).await;
    settle().await;
    for (_, (i, s)) in std::mem::take(&mut pending) { ends.insert(i, (End::Timeout, s + t_ms)); }
    m.check(mgr.pending_count().await == 0, "pending-left", || trace.clone());
    let res = results.lock().unwrap();
    for (i, (want, when)) in &ends {
        let Some((got, at)) = res.get(i) else { m.fail("elicitation-end", format!("elicitation {i} never ended; {trace}")); continue };
        let id = &reqs[*i].0.elicitation_id;
        let ok = match (want, got) {
            (End::Value(k), Ok(g)) => to_json(g) == to_json(&el_answer(id, *k)),
            (End::Cancelled, Ok(g)) => g.elicitation_id == *id && g.value.is_none() && g.cancelled,
            (End::Cancelled, Err(_)) => false,
            (End::Timeout, Err(e)) => e.error_code() == Some(pmcp::ErrorCode::REQUEST_TIMEOUT) || matches!(e, pmcp::Error::Timeout(_)),
            (End::Refused, Err(_)) => true,
            _ => false,
        };
        m.check(ok, "elicitation-outcome", || format!("elicitation {i} of {id:?}: {got:?}, wanted {want:?}; {trace}"));
        // timer granularity 1 ms
        m.check(at.abs_diff(*when) <= 2, "elicitation-time", || format!("elicitation {i} ended at {at}, wanted {when} ({want:?}); {trace}"));
    }
    let mut got = vec![];
    while let Ok(q) = rx.try_recv() { if let ServerRequest::ElicitInput(b) = q { got.push(to_json(&*b)); } else { m.fail("other-request", format!("{q:?}")); } }
    m.check(got == sent, "requests-sent", || format!("sent {got:?}, wanted {sent:?}; {trace}"));
    m.count("elicitations", n as u64);
    for (e, _) in ends.values() { m.count(match e { End::Value(_) => "answered", End::Cancelled => "cancelled", End::Timeout => "timed_out", End::Refused => "refused" }, 1); }
    m.sample("history", || trace.clone());
    m.case(trace, overlap > 1);
}

/// Requests no longer get out, yet those that did get their answers.
async fn c13_deserted(m: &Arc<Mon>, r: &mut Rng, mgr: Arc<ElicitationManager>, mut rx: mpsc::Receiver<ServerRequest>, q: ElicitInputRequest) {
    let with = |id: String| { let mut q = q.clone(); q.elicitation_id = id; q };
    let n = r.range(1, 5);
    let mut jobs = vec![];
    for i in 0..n {
        let (mgr, q) = (mgr.clone(), with(format!("early{i}")));
        jobs.push(tokio::spawn(async move { mgr.elicit_input(q).await }));
        settle().await;
        let _ = rx.try_recv();
    }
    drop(rx);
    for i in 0..r.range(1, 4) { let o = mgr.elicit_input(with(format!("late{i}"))).await; m.check(o.is_err(), "elicitation-outcome", || format!("{o:?} though nobody takes requests")); }
    m.check(mgr.pending_count().await == n, "pending-count", || format!("not {n}"));
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    let cancelled: Vec<bool> = (0..n).map(|_| r.chance(1, 4)).collect();
    for &i in &order {
        let id = format!("early{i}");
        let o = if cancelled[i] { mgr.cancel(&id).await } else { mgr.handle_response(ElicitInputResponse { elicitation_id: id.clone(), value: Some(json!(i)), cancelled: false, error: None }).await };
        m.check(o.is_ok(), "response-acceptance", || format!("{id}: {o:?} after later requests could not be sent"));
    }
    for (i, j) in jobs.into_iter().enumerate() {
        let o = j.await.unwrap();
        m.check(matches!(&o, Ok(g) if g.elicitation_id == format!("early{i}") && g.cancelled == cancelled[i] && (cancelled[i] || g.value == Some(json!(i)))), "elicitation-outcome", || format!("early{i} ended {o:?}"));
    }
    m.count("elicitations", n as u64);
    m.case(("deserted", n, order, cancelled), true);
}
async fn c13_blocked(m: &Arc<Mon>, r: &mut Rng) {
    let t_ms = r.range(10, 2000) as u64;
    let cap = r.range(1, 3);
    let (tx, rx) = mpsc::channel(cap);
    let mut mgr = ElicitationManager::new();
    let (mut q, _) = wire::elicit_request(r);
    q.elicitation_id = "0".into();
    if r.chance(1, 10) {
        // not configured: refused at once, nothing pending
        m.check(mgr.elicit_input(q).await.is_err() && mgr.pending_count().await == 0, "unconfigured", String::new);
        return;
    }
    mgr.set_request_channel(tx);
    mgr.set_timeout(Duration::from_millis(t_ms));
    let mgr = Arc::new(mgr);
    if r.chance(1, 6) { return c13_deserted(m, r, mgr, rx, q).await; }
    let n = cap + r.range(1, 4);
    let start = tokio::time::Instant::now();
    let closed = r.bool();
    let mut rx = if closed { drop(rx); None } else { Some(rx) };
    let jobs: Vec<_> = (0..n).map(|i| {
        let (mgr, mut q) = (mgr.clone(), q.clone());
        q.elicitation_id = format!("e{i}");
        tokio::spawn(async move { let o = mgr.elicit_input(q).await; (o, start.elapsed().as_millis() as u64) })
    }).collect();
    settle().await;
    let mut answered = None;
    if let Some(rx) = rx.as_mut() {
        if r.bool() {
            // answer one that got through; the rest time out
            if let Ok(ServerRequest::ElicitInput(q)) = rx.try_recv() {
                answered = Some(q.elicitation_id.clone());
                let o = mgr.handle_response(ElicitInputResponse { elicitation_id: q.elicitation_id.clone(), value: Some(json!(q.elicitation_id)), cancelled: false, error: None }).await;
                m.check(o.is_ok(), "response-acceptance", || format!("{o:?}"));
            }
        }
    }
    for (i, j) in jobs.into_iter().enumerate() {
        let (o, at) = j.await.unwrap();
        let id = format!("e{i}");
        if answered.as_ref() == Some(&id) { m.check(matches!(&o, Ok(g) if g.value == Some(json!(id))), "elicitation-outcome", || format!("{o:?}")); }
        else { m.check(o.is_err() && at <= t_ms + 2, "elicitation-outcome", || format!("{id} ended {o:?} at {at} (timeout {t_ms}, closed {closed})")); }
    }
    m.check(mgr.pending_count().await == 0, "pending-left", || format!("{} left", 0));
    m.count("elicitations", n as u64);
    m.case(("blocked", t_ms, cap, n, closed), true);
}

async fn c13_threads(m: Arc<Mon>, seed: u64) {
    let (tx, mut rx) = mpsc::channel(8);
    let mut mgr = ElicitationManager::new();
    mgr.set_request_channel(tx);
    mgr.set_timeout(Duration::from_secs(120));
    let mgr = Arc::new(mgr);
    let n = 120;
    let tmpl = { let mut r = Rng::new(seed); wire::elicit_request(&mut r).0 };
    let answers = { let (mgr, m) = (mgr.clone(), m.clone()); tokio::spawn(async move {
        let mut r = Rng::new(seed);
        let mut jobs = vec![];
        for _ in 0..n {
            let Some(ServerRequest::ElicitInput(q)) = rx.recv().await else { break };
            let (mgr, mut r, m) = (mgr.clone(), r.fork(), m.clone());
            jobs.push(tokio::spawn(async move {
                let id = q.elicitation_id.clone();
                if r.bool() { tokio::task::yield_now().await; }
                // a response and a cancellation race; exactly one is accepted
                let a = { let (mgr, id) = (mgr.clone(), id.clone()); tokio::spawn(async move { mgr.handle_response(ElicitInputResponse { elicitation_id: id.clone(), value: Some(json!(id)), cancelled: false, error: None }).await.is_ok() }) };
                let b = { let (mgr, id) = (mgr.clone(), id.clone()); tokio::spawn(async move { mgr.cancel(&id).await.is_ok() }) };
                let (a, b) = (a.await.unwrap(), b.await.unwrap());
                m.check(a != b, "both-accepted", || format!("{id}: response accepted {a}, cancel accepted {b}"));
                (id, a)
            }));
        }
        let mut out = HashMap::new();
        for j in jobs { let (i, a) = j.await.unwrap(); out.insert(i, a); }
        out
    }) };
    let jobs: Vec<_> = (0..n).map(|i| { let (mgr, mut q) = (mgr.clone(), tmpl.clone()); q.elicitation_id = format!("{i}"); tokio::spawn(async move { mgr.elicit_input(q).await }) }).collect();
    let mut outs = vec![];
    for j in jobs { outs.push(j.await.unwrap()); }
    m.check(mgr.pending_count().await == 0, "pending-left", String::new);
    drop(mgr);
    let accepted = match tokio::time::timeout(Duration::from_secs(60), answers).await { Ok(a) => a.unwrap(), Err(_) => return m.inconclusive("answer task still running") };
    for (i, o) in outs.iter().enumerate() {
        let ok = match (accepted.get(&i.to_string()), o) { (Some(true), Ok(g)) => g.value == Some(json!(i.to_string())) && !g.cancelled, (Some(false), Ok(g)) => g.cancelled && g.value.is_none(), _ => false };
        m.check(ok, "elicitation-outcome", || format!("{i}: {o:?}, response accepted {:?}", accepted.get(&i.to_string())));
    }
    m.count("elicitations", n as u64);
    m.case(("threads", seed), true);
}

// ------------------------------------------------------------------ C14

fn c14(m: &Arc<Mon>) {
    let mut r = m.rng("c14");
    m.stage("many at once");
    for _ in 0..m.n(2, 20) {
        if m.stopped() { return; }
        let (m2, mut rr) = (m.clone(), r.fork());
        if virtually(async move { c14_many(&m2, &mut rr).await }).is_none() { m.fail("hang", "many at once never ended"); }
    }
    m.stage("histories");
    for i in 0..m.n(5000, 200_000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        let m2 = m.clone();
        if virtually(async move { c14_history(&m2, &mut rr, i % 5 == 0).await }).is_none() { m.fail("hang", "a subscription history never ended"); }
    }
    m.stage("threads");
    for _ in 0..m.n(40, 1500) {
        if m.stopped() { return; }
        let seed = r.u64();
        let rt = mrt(4);
        rt.block_on(c14_threads(m.clone(), seed));
        rt.shutdown_background();
    }
}
fn updates() -> (Arc<Mutex<Vec<String>>>, impl Fn(ServerNotification) + Send + Sync + 'static) {
    let v: Arc<Mutex<Vec<String>>> = Arc::default();
    let v2 = v.clone();
    (v, move |n| v2.lock().unwrap().push(match n { ServerNotification::ResourceUpdated(p) => p.uri, o => format!("other {o:?}") }))
}
async fn c14_history(m: &Arc<Mon>, r: &mut Rng, via_server: bool) {
    let mut uris: Vec<String> = if r.bool() { let n = r.range(1, 5); r.kin(n) } else { let mut v: Vec<String> = (0..r.range(1, 4)).map(|_| r.text(5)).collect(); v.sort(); v.dedup(); v };
    let mut subs: Vec<String> = if r.bool() { let n = r.range(1, 5); r.kin(n) } else { let mut v: Vec<String> = (0..r.range(1, 4)).map(|_| r.text(4)).collect(); v.sort(); v.dedup(); v };
    // (a server refuses empty names; the manager itself takes any)
    if !via_server { for v in [&mut uris, &mut subs] { if r.chance(1, 8) && !v.iter().any(|x| x.is_empty()) { v.push(String::new()); } } }
    let mut set: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut trace = vec![];
    let mut reached = 0;
    let ops = r.range(3, 30);
    if via_server {
        let s = Server::builder().name("s").version("1").build().unwrap();
        for _ in 0..ops {
            let (u, c) = (r.pick(&uris).clone(), r.pick(&subs).clone());
            match r.below(5) {
                0 | 1 => { let _ = s.subscribe_resource(u.clone(), c.clone()).await; trace.push(format!("+{u:?} {c:?}")); set.entry(u).or_default().insert(c); },
                2 => { let _ = s.unsubscribe_resource(u.clone(), c.clone()).await; trace.push(format!("-{u:?} {c:?}")); if let Some(x) = set.get_mut(&u) { x.remove(&c); } },
                3 => { m.check(s.subscribe_resource(String::new(), c.clone()).await.is_err() && s.subscribe_resource(u, String::new()).await.is_err() && s.unsubscribe_resource(String::new(), c).await.is_err() && s.unsubscribe_resource(r.pick(&uris).clone(), String::new()).await.is_err(), "empty-accepted", String::new); },
                _ => {},
            }
            let u = r.pick(&uris).clone();
            let got = s.notify_resource_updated(u.clone()).await;
            let want = set.get(&u).map_or(0, |x| x.len());
            reached += want;
            m.check(matches!(got, Ok(g) if g == want), "update-count", || format!("{u:?}: {got:?}, want {want}; {trace:?}"));
        }
        m.count("updates_reaching", reached as u64);
        m.case(("server", trace), reached > 0);
        return;
    }
    let (notes, sink) = updates();
    let mut mgr = SubscriptionManager::new();
    let with_sink = r.chance(9, 10);
    if with_sink { mgr.set_notification_sender(sink); }
    let mut clones = vec![mgr.clone(), mgr];
    let mut want_notes = vec![];
    for _ in 0..ops {
        let g = &mut clones[r.below(2)];
        let (u, c) = (r.pick(&uris).clone(), r.pick(&subs).clone());
        match r.below(8) {
            0..=2 => { let _ = g.subscribe(u.clone(), c.clone()).await; trace.push(format!("+{u:?} {c:?}")); set.entry(u).or_default().insert(c); },
            3 | 4 => { let _ = g.unsubscribe(u.clone(), c.clone()).await; trace.push(format!("-{u:?} {c:?}")); if let Some(x) = set.get_mut(&u) { x.remove(&c); } },
            5 => { let _ = g.unsubscribe_all(&c).await; trace.push(format!("-all {c:?}")); for x in set.values_mut() { x.remove(&c); } },
            _ => {
                let got = g.notify_resource_updated(u.clone()).await;
                trace.push(format!("!{u:?}"));
                let want = set.get(&u).map_or(0, |x| x.len());
                m.check(matches!(got, Ok(g) if g == want), "update-count", || format!("{u:?}: {got:?}, want {want}; {trace:?}"));
                if want > 0 { reached += 1; if with_sink { want_notes.push(u); } }
            },
        }
        set.retain(|_, v| !v.is_empty());
        for u in &uris {
            let want: BTreeSet<String> = set.get(u).cloned().unwrap_or_default();
            let got = g.get_subscribers(u).await;
            let gs: BTreeSet<String> = got.iter().cloned().collect();
            m.check(gs == want && got.len() == want.len(), "subscribers", || format!("{u:?}: {got:?}, want {want:?}; {trace:?}"));
            m.check(g.has_subscribers(u).await == !want.is_empty(), "has-subscribers", || format!("{u:?}; {trace:?}"));
        }
        for c in &subs {
            let mut got = g.get_subscriptions(c).await;
            got.sort();
            let want: Vec<String> = set.iter().filter(|(_, v)| v.contains(c)).map(|(u, _)| u.clone()).collect();
            m.check(got == want, "subscriptions", || format!("{c:?}: {got:?}, want {want:?}; {trace:?}"));
        }
        let st = g.get_stats().await;
        let total: usize = set.values().map(|v| v.len()).sum();
        let uniq: BTreeSet<&String> = set.values().flatten().collect();
        let avg = if set.is_empty() { 0.0 } else { total as f64 / set.len() as f64 };
        m.check(st.total_resources == set.len() && st.total_subscriptions == total && st.unique_subscribers == uniq.len() && (st.subscriptions_per_resource - avg).abs() < 1e-9, "stats", || format!("{st:?} for {set:?}; {trace:?}"));
        let n = notes.lock().unwrap().clone();
        if !m.check(n == want_notes, "update-notifications", || format!("{n:?}, want {want_notes:?}; {trace:?}")) { return; }
    }
    // a callback set later takes the place of the first one
    if r.chance(1, 4) {
        let (later, sink) = updates();
        let mut g = clones.pop().unwrap();
        g.set_notification_sender(sink);
        let (u, before) = (r.pick(&uris).clone(), notes.lock().unwrap().len());
        let _ = g.subscribe(u.clone(), "last".into()).await;
        let want = set.get(&u).map_or(0, |x| x.len()) + usize::from(!set.get(&u).is_some_and(|x| x.contains("last")));
        let got = g.notify_resource_updated(u.clone()).await;
        m.check(matches!(got, Ok(g) if g == want), "update-count", || format!("{u:?}: {got:?}, want {want}; {trace:?}"));
        m.check(*later.lock().unwrap() == [u.clone()] && notes.lock().unwrap().len() == before, "update-notifications", || format!("{u:?} after another callback was set: {:?}; {trace:?}", later.lock().unwrap()));
    }
    m.count("updates_reaching", reached as u64);
    m.sample("history", || format!("{trace:?}"));
    m.case(trace, reached > 0);
}
async fn c14_threads(m: Arc<Mon>, seed: u64) {
    let (notes, sink) = updates();
    let mut mgr = SubscriptionManager::new();
    mgr.set_notification_sender(sink);
    for k in 0..3 { let _ = mgr.subscribe("shared".into(), format!("stable{k}")).await; }
    let total = Arc::new(AtomicUsize::new(0));
    let jobs: Vec<_> = (0..6u64).map(|k| {
        let (mgr, m, total) = (mgr.clone(), m.clone(), total.clone());
        tokio::spawn(async move {
            let mut r = Rng::new(seed ^ (k * 104_729));
            let me = format!("c{k}");
            let mut mine: BTreeSet<String> = BTreeSet::new();
            for _ in 0..60 {
                let u = if r.chance(1, 3) { "shared".to_string() } else { format!("u{}", r.below(4)) };
                match r.below(6) {
                    0..=2 => { let _ = mgr.subscribe(u.clone(), me.clone()).await; mine.insert(u); },
                    3 => { let _ = mgr.unsubscribe(u.clone(), me.clone()).await; mine.remove(&u); },
                    4 if r.chance(1, 3) => { let _ = mgr.unsubscribe_all(&me).await; mine.clear(); },
                    _ => {
                        let g = mgr.notify_resource_updated(u.clone()).await.unwrap_or(usize::MAX);
                        if g > 0 { total.fetch_add(1, Ordering::SeqCst); }
                        let lo = if u == "shared" { 3 } else { 0 } + usize::from(mine.contains(&u));
                        let hi = if u == "shared" { 9 } else { 6 } - usize::from(!mine.contains(&u));
                        m.check(g >= lo && g <= hi, "update-count", || format!("{u}: {g}, possible {lo}..={hi}"));
                    },
                }
                let mut got = mgr.get_subscriptions(&me).await; got.sort();
                let want: Vec<String> = mine.iter().cloned().collect();
                m.check(got == want, "subscriptions", || format!("{me}: {got:?}, want {want:?}"));
            }
            mine
        })
    }).collect();
    let mut all: usize = 3;
    for j in jobs { all += j.await.unwrap().len(); }
    m.check(mgr.get_stats().await.total_subscriptions == all, "stats", || format!("{:?}, want {all}", all));
    let n = notes.lock().unwrap().len();
    m.check(n == total.load(Ordering::SeqCst), "update-notifications", || format!("{n} notifications for {total:?} updates"));
    m.count("updates_reaching", n as u64);
    m.case(("threads", seed), true);
}

// ------------------------------------------------------------------ C15

fn c15(m: &Arc<Mon>) {
    let mut r = m.rng("c15");
    m.stage("many at once");
    for _ in 0..m.n(2, 20) {
        if m.stopped() { return; }
        let (m2, mut rr) = (m.clone(), r.fork());
        if virtually(async move { c15_many(&m2, &mut rr).await }).is_none() { m.fail("hang", "many at once never ended"); }
    }
    m.stage("histories");
    for i in 0..m.n(5000, 200_000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        let m2 = m.clone();
        if virtually(async move { if i % 5 == 0 { c15_server(&m2, &mut rr).await } else { c15_history(&m2, &mut rr).await } }).is_none() { m.fail("hang", "a roots history never ended"); }
    }
    m.stage("threads");
    for _ in 0..m.n(40, 1500) {
        if m.stopped() { return; }
        let seed = r.u64();
        let rt = mrt(4);
        rt.block_on(c15_threads(m.clone(), seed));
        rt.shutdown_background();
    }
}
fn root_uri(r: &mut Rng) -> (String, bool) {
    match r.below(8) {
        // long
        1 if r.chance(1, 6) => { let n = *r.pick(&[255usize, 1025, 4100, 70_000]); (format!("file:///{}", "d/".repeat(n / 2)), true) },
        0 => { let u = r.pick(&["http://x/y", "https://example.com/p", "", "file", "file:/", "/etc", " file:///a", "xfile:///a", "ftp://file:///a", "fil://a"]).to_string(); (u, false) },
        1 => ("file://".to_string() + &r.string(4), true),
        2 => (r.pick(&["file:///p0/", "file:///P0", "file:///p0/x", "file:///p0/.", "file:///p0/../p0", "file:///%700", "file:///p0#f", "file:///p0?q", "file:///p0 ", "file://localhost/p0", "file:///p"]).to_string(), true),
        _ => (format!("file:///p{}", r.below(3)), true),
    }
}
async fn c15_history(m: &Arc<Mon>, r: &mut Rng) {
    let count = Arc::new(AtomicUsize::new(0));
    let others = Arc::new(AtomicUsize::new(0));
    let mut mgr = RootsManager::new();
    { let (c, o) = (count.clone(), others.clone()); mgr.set_notification_sender(move |n| { if matches!(n, ServerNotification::RootsListChanged) { c.fetch_add(1, Ordering::SeqCst); } else { o.fetch_add(1, Ordering::SeqCst); } }); }
    let twin = mgr.clone();
    let mut want: Vec<(usize, String, Option<String>)> = vec![];
    let mut outs: Vec<(usize, Box<dyn FnOnce() + Send>)> = vec![];
    let mut notes = 0;
    let mut trace = vec![];
    let mut removed = 0;
    for k in 0..r.range(3, 25) {
        if r.chance(3, 5) || outs.is_empty() {
            let (u, ok) = root_uri(r);
            let name = r.bool().then(|| r.string(5));
            trace.push(format!("+{u:?} {name:?}"));
            match if r.bool() { mgr.register_root(u.clone(), name.clone()).await.map(|f| Box::new(f) as Box<dyn FnOnce() + Send>) } else { twin.register_root(u.as_str(), name.clone()).await.map(|f| Box::new(f) as Box<dyn FnOnce() + Send>) } {
                Ok(f) => { m.check(ok, "non-file-root", || format!("{u:?} accepted")); notes += 1; want.push((k, u, name)); outs.push((k, f)); },
                Err(e) => { m.check(!ok, "file-root-refused", || format!("{u:?}: {e}")); },
            }
        } else {
            let (j, f) = outs.swap_remove(r.below(outs.len()));
            trace.push(format!("-#{j}"));
            if r.chance(1, 6) { drop(f); } else { f(); notes += 1; removed += 1; want.retain(|w| w.0 != j); }
            if r.bool() { settle().await; } else if r.bool() { continue; }
        }
        settle().await;
        let got: Vec<(String, Option<String>)> = mgr.get_roots().await.into_iter().map(|x| (x.uri, x.name)).collect();
        let w: Vec<(String, Option<String>)> = want.iter().map(|x| (x.1.clone(), x.2.clone())).collect();
        if !m.check(got == w, "roots-listing", || format!("{got:?}, want {w:?}; {trace:?}")) { return; }
        m.check(mgr.has_roots().await == !w.is_empty(), "has-roots", || format!("{trace:?}"));
        let c = count.load(Ordering::SeqCst);
        if !m.check(c == notes && others.load(Ordering::SeqCst) == 0, "roots-notifications", || format!("{c}, want {notes}; {trace:?}")) { return; }
    }
    // a callback set later takes the place of the first one
    if r.chance(1, 4) {
        let later = Arc::new(AtomicUsize::new(0));
        let l2 = later.clone();
        mgr.set_notification_sender(move |_| { l2.fetch_add(1, Ordering::SeqCst); });
        let before = count.load(Ordering::SeqCst);
        let f = mgr.register_root("file:///later", None).await;
        m.check(f.is_ok() && later.load(Ordering::SeqCst) == 1 && count.load(Ordering::SeqCst) == before, "roots-notifications", || format!("after another callback was set: {}; {trace:?}", later.load(Ordering::SeqCst)));
        if let Ok(f) = f { f(); settle().await; m.check(later.load(Ordering::SeqCst) == 2, "roots-notifications", || format!("removed after another callback was set; {trace:?}")); }
    }
    // asking the client
    let reply = match r.below(3) { 0 => Ok(json!({"roots": (0..r.below(4)).map(|i| { let u = if r.chance(1, 4) { root_uri(r).0 } else { format!("file:///{}", if r.bool() { i } else { 0 }) }; if r.bool() { json!({"uri": u, "name": format!("n{i}")}) } else { json!({"uri": u}) } }).collect::<Vec<_>>()})), 1 => Ok(r.json(1)), _ => Err(pmcp::Error::internal("no client")) };
    let asked = Arc::new(Mutex::new(vec![]));
    let a2 = asked.clone();
    let (rep, rep2) = (reply.as_ref().ok().cloned(), reply.is_err());
    let out = mgr.request_client_roots(move |q| { a2.lock().unwrap().push(to_json(&q)); async move { reply } }).await;
    m.check(asked.lock().unwrap().len() == 1 && asked.lock().unwrap()[0]["method"] == json!("roots/list"), "client-roots-request", || format!("{asked:?}"));
    let good = rep.as_ref().and_then(|v| v.get("roots")).and_then(|v| v.as_array()).map(|a| a.iter().map(|x| (x["uri"].as_str().unwrap_or("").to_string(), x["name"].as_str().map(String::from))).collect::<Vec<_>>());
    match (&out, &good) {
        (Ok(l), Some(w)) => { let g: Vec<_> = l.roots.iter().map(|x| (x.uri.clone(), x.name.clone())).collect(); m.check(&g == w, "client-roots", || format!("{g:?}, want {w:?}")); },
        (Ok(l), None) => m.fail("client-roots", format!("{l:?} from {rep:?} (error {rep2})")),
        (Err(e), Some(w)) => m.fail("client-roots", format!("{e} for {w:?}")),
        _ => {},
    }
    m.count("removals", removed as u64);
    m.sample("history", || format!("{trace:?}"));
    m.case(trace, removed > 0);
}
async fn c15_server(m: &Arc<Mon>, r: &mut Rng) {
    let s = Server::builder().name("s").version("1").build().unwrap();
    let mut want: Vec<(usize, String, Option<String>)> = vec![];
    let mut outs: Vec<(usize, Box<dyn FnOnce() + Send>)> = vec![];
    let mut trace = vec![];
    let mut removed = 0;
    for k in 0..r.range(2, 15) {
        if r.chance(2, 3) || outs.is_empty() {
            let (u, ok) = root_uri(r);
            let name = r.bool().then(|| r.string(5));
            trace.push(format!("+{u:?} {name:?}"));
            match s.register_root(u.clone(), name.clone()).await {
                Ok(f) => { m.check(ok, "non-file-root", || format!("{u:?} accepted")); want.push((k, u, name)); outs.push((k, Box::new(f))); },
                Err(e) => { m.check(!ok, "file-root-refused", || format!("{u:?}: {e}")); },
            }
        } else { let (j, f) = outs.swap_remove(r.below(outs.len())); trace.push(format!("-#{j}")); f(); removed += 1; want.retain(|w| w.0 != j); }
        settle().await;
        let got: Vec<(String, Option<String>)> = s.get_roots().await.into_iter().map(|x| (x.uri, x.name)).collect();
        let w: Vec<(String, Option<String>)> = want.iter().map(|x| (x.1.clone(), x.2.clone())).collect();
        if !m.check(got == w, "roots-listing", || format!("server: {got:?}, want {w:?}; {trace:?}")) { return; }
    }
    m.count("removals", removed);
    m.case(("server", trace), removed > 0);
}
async fn c15_threads(m: Arc<Mon>, seed: u64) {
    let count = Arc::new(AtomicUsize::new(0));
    let mut mgr = RootsManager::new();
    { let c = count.clone(); mgr.set_notification_sender(move |_| { c.fetch_add(1, Ordering::SeqCst); }); }
    let jobs: Vec<_> = (0..5u64).map(|k| {
        let mgr = mgr.clone();
        tokio::spawn(async move {
            let mut r = Rng::new(seed ^ (k * 7_368_787));
            let (mut keep, mut n) = (vec![], 0);
            for j in 0..30 {
                let u = format!("file:///same{}", r.below(2));
                let f = mgr.register_root(u.clone(), Some(format!("{k}/{j}"))).await.ok().unwrap();
                n += 1;
                if r.bool() { f(); n += 1; } else { keep.push((u, Some(format!("{k}/{j}")))); }
                if r.chance(1, 4) { tokio::task::yield_now().await; }
            }
            (keep, n)
        })
    }).collect();
    let (mut keeps, mut n) = (vec![], 0);
    for j in jobs { let (k, c) = j.await.unwrap(); keeps.push(k); n += c; }
    // the removal tasks finish in their own time
    for _ in 0..6000 { if count.load(Ordering::SeqCst) >= n { break; } tokio::time::sleep(Duration::from_millis(10)).await; }
    let got: Vec<(String, Option<String>)> = mgr.get_roots().await.into_iter().map(|x| (x.uri, x.name)).collect();
    for k in &keeps {
        let mine: Vec<_> = got.iter().filter(|g| k.contains(g)).cloned().collect();
        m.check(&mine == k, "roots-listing", || format!("threads: {mine:?}, want {k:?}"));
    }
    let total: usize = keeps.iter().map(|k| k.len()).sum();
    m.check(got.len() == total, "roots-listing", || format!("threads: {} roots, want {total}", got.len()));
    let c = count.load(Ordering::SeqCst);
    m.check(c == n, "roots-notifications", || format!("{c}, want {n}"));
    m.case(("threads", seed), true);
}

// ------------------------------------------------------------------ C16

struct Tag(u64);
#[async_trait]
impl ToolHandler for Tag { async fn handle(&self, _: Value, _: RequestHandlerExtra) -> pmcp::Result<Value> { Ok(json!(self.0)) } }
#[async_trait]
impl PromptHandler for Tag { async fn handle(&self, _: HashMap<String, String>, _: RequestHandlerExtra) -> pmcp::Result<GetPromptResult> { Ok(GetPromptResult { description: Some(self.0.to_string()), messages: vec![] }) } }
#[async_trait]
impl ResourceHandler for Tag {
    async fn read(&self, _: &str, _: RequestHandlerExtra) -> pmcp::Result<ReadResourceResult> { Ok(ReadResourceResult { contents: vec![] }) }
    async fn list(&self, _: Option<String>, _: RequestHandlerExtra) -> pmcp::Result<ListResourcesResult> { Ok(ListResourcesResult { resources: vec![], next_cursor: None }) }
}
#[async_trait]
impl SamplingHandler for Tag { async fn create_message(&self, _: CreateMessageParams, _: RequestHandlerExtra) -> pmcp::Result<CreateMessageResult> { Err(pmcp::Error::internal("x")) } }

fn tinfo(n: &str) -> ToolInfo { ToolInfo { name: n.into(), description: None, input_schema: json!({}) } }
fn pinfo(n: &str) -> PromptInfo { PromptInfo { name: n.into(), description: None, arguments: None } }
fn extra() -> RequestHandlerExtra { RequestHandlerExtra::new("x".into(), Default::default()) }

fn c16(m: &Arc<Mon>) {
    let mut r = m.rng("c16");
    m.stage("many at once");
    for _ in 0..m.n(2, 20) {
        if m.stopped() { return; }
        let (m2, mut rr) = (m.clone(), r.fork());
        if virtually(async move { c16_many(&m2, &mut rr).await }).is_none() { m.fail("hang", "many at once never ended"); }
    }
    m.stage("histories");
    for _ in 0..m.n(3000, 120_000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        let m2 = m.clone();
        if virtually(async move { c16_history(&m2, &mut rr).await }).is_none() { m.fail("hang", "a registration history never ended"); }
    }
    m.stage("threads");
    for _ in 0..m.n(40, 1500) {
        if m.stopped() { return; }
        let seed = r.u64();
        let rt = mrt(4);
        rt.block_on(c16_threads(m.clone(), seed));
        rt.shutdown_background();
    }
}
async fn tools_of(d: &DynamicServerManager) -> BTreeMap<String, u64> {
    let mut out = BTreeMap::new();
    for (k, h) in d.get_dynamic_tools().await { out.insert(k, h.handle(Value::Null, extra()).await.ok().and_then(|v| v.as_u64()).unwrap_or(u64::MAX)); }
    out
}
async fn prompts_of(d: &DynamicServerManager) -> BTreeMap<String, u64> {
    let mut out = BTreeMap::new();
    for (k, h) in d.get_dynamic_prompts().await { out.insert(k, h.handle(HashMap::new(), extra()).await.ok().and_then(|v| v.description).and_then(|d| d.parse().ok()).unwrap_or(u64::MAX)); }
    out
}
async fn c16_history(m: &Arc<Mon>, r: &mut Rng) {
    let names: Vec<String> = if r.bool() { let n = r.range(2, 6); r.kin(n) } else { let mut v: Vec<String> = (0..r.range(2, 5)).map(|_| r.string(4)).collect(); v.sort(); v.dedup(); v };
    let st: Vec<String> = names.iter().filter(|_| r.chance(1, 3)).cloned().collect();
    let sp: Vec<String> = names.iter().filter(|_| r.chance(1, 3)).cloned().collect();
    let (caps, _) = wire::server_caps(r);
    let mut b = Server::builder().name("s").version("1").capabilities(caps);
    for t in &st { b = b.tool(t.clone(), Tag(0)); }
    for t in &sp { b = b.prompt(t.clone(), Tag(0)); }
    let d = DynamicServerManager::new(Arc::new(b.build().unwrap()));
    let seen: Vec<Arc<Mutex<Vec<Value>>>> = (0..*r.pick(&[0usize, 1, 1, 2, 2, 3, 8, 40])).map(|_| Arc::default()).collect();
    let mut attached = 0;
    let (mut tools, mut prompts): (BTreeMap<String, u64>, BTreeMap<String, u64>) = Default::default();
    let mut seq = 0;
    let mut trace = vec![];
    let mut removals = 0;
    for _ in 0..r.range(4, 25) {
        while attached < seen.len() && r.chance(1, 2) {
            let s = seen[attached].clone();
            d.add_capability_listener(move |c| s.lock().unwrap().push(to_json(c))).await;
            attached += 1;
        }
        for s in &seen { s.lock().unwrap().clear(); }
        let n = r.pick(&names).clone();
        seq += 1;
        // (calls expected of each listener, category announced and its value if it must be that)
        let mut calls: Option<usize> = Some(1);
        let mut cats: Vec<(&str, Option<Value>)> = vec![];
        match r.below(13) {
            0..=2 => { trace.push(format!("+tool {n:?} #{seq}")); let o = d.add_tool(n.clone(), Arc::new(Tag(seq)), tinfo(&n)).await; m.check(o.is_ok(), "add-refused", || format!("{o:?}")); tools.insert(n, seq); cats.push(("tools", Some(json!({"listChanged": true})))); },
            3 | 4 => { trace.push(format!("-tool {n:?}")); let o = d.remove_tool(&n).await; let had = tools.remove(&n).is_some(); m.check(o.is_ok() == had, "remove-outcome", || format!("{o:?} for a {} tool; {trace:?}", if had { "registered" } else { "missing" })); removals += 1; if !had { calls = Some(0); } },
            5 | 6 => { trace.push(format!("+prompt {n:?} #{seq}")); let o = d.add_prompt(n.clone(), Arc::new(Tag(seq)), pinfo(&n)).await; m.check(o.is_ok(), "add-refused", || format!("{o:?}")); prompts.insert(n, seq); cats.push(("prompts", Some(json!({"listChanged": true})))); },
            7 => { trace.push(format!("-prompt {n:?}")); let o = d.remove_prompt(&n).await; let had = prompts.remove(&n).is_some(); m.check(o.is_ok() == had, "remove-outcome", || format!("{o:?} for a {} prompt; {trace:?}", if had { "registered" } else { "missing" })); removals += 1; if !had { calls = Some(0); } },
            8 => { trace.push("+resources".into()); let _ = d.set_resource_handler(Arc::new(Tag(seq))).await; cats.push(("resources", Some(json!({"subscribe": true, "listChanged": true})))); },
            9 => { trace.push("-resources".into()); let _ = d.remove_resource_handler().await; cats.push(("resources", None)); calls = None; },
            10 => { if r.bool() { trace.push("+sampling".into()); let _ = d.set_sampling_handler(Arc::new(Tag(seq))).await; cats.push(("sampling", Some(json!({})))); } else { trace.push("-sampling".into()); let _ = d.remove_sampling_handler().await; cats.push(("sampling", None)); calls = None; } },
            _ => {
                let mut b = DynamicConfigBuilder::new();
                let (mut nt, mut np) = (BTreeMap::new(), BTreeMap::new());
                for x in &names {
                    // given twice, the last one counts
                    let (tt, tp) = (r.chance(1, 3), r.chance(1, 3));
                    if tt && r.chance(1, 4) { seq += 1; b = b.tool(x.clone(), Arc::new(Tag(seq)), tinfo(x)); }
                    if tp && r.chance(1, 4) { seq += 1; b = b.prompt(x.clone(), Arc::new(Tag(seq)), pinfo(x)); }
                    if tt { seq += 1; b = b.tool(x.clone(), Arc::new(Tag(seq)), tinfo(x)); nt.insert(x.clone(), seq); }
                    if tp { seq += 1; b = b.prompt(x.clone(), Arc::new(Tag(seq)), pinfo(x)); np.insert(x.clone(), seq); }
                }
                let (res, sam) = (r.chance(1, 4), r.chance(1, 4));
                if res { b = b.resources(Arc::new(Tag(seq))); cats.push(("resources", Some(json!({"subscribe": true, "listChanged": true})))); }
                if sam { b = b.sampling(Arc::new(Tag(seq))); cats.push(("sampling", Some(json!({})))); }
                if !nt.is_empty() { cats.push(("tools", Some(json!({"listChanged": true})))); }
                if !np.is_empty() { cats.push(("prompts", Some(json!({"listChanged": true})))); }
                trace.push(format!("reload {nt:?} {np:?} {res} {sam}"));
                let o = d.reload_configuration(b.build()).await;
                m.check(o.is_ok(), "reload-refused", || format!("{o:?}"));
                tools = nt; prompts = np;
                removals += 1;
                calls = None;
            },
        }
        let (gt, gp) = (tools_of(&d).await, prompts_of(&d).await);
        m.check(gt == tools, "dynamic-tools", || format!("{gt:?}, want {tools:?}; {trace:?}"));
        m.check(gp == prompts, "dynamic-prompts", || format!("{gp:?}, want {prompts:?}; {trace:?}"));
        for n in &names {
            m.check(d.has_tool(n).await == (tools.contains_key(n) || st.contains(n)), "has-tool", || format!("{n:?}; {trace:?}"));
            m.check(d.has_prompt(n).await == (prompts.contains_key(n) || sp.contains(n)), "has-prompt", || format!("{n:?}; {trace:?}"));
        }
        m.check(!d.has_tool("never such a name").await, "has-tool", || "unregistered".into());
        for s in &seen[..attached] {
            let got = s.lock().unwrap().clone();
            if let Some(c) = calls { m.check(got.len() == c, "listener-calls", || format!("{} calls, want {c}; {trace:?}", got.len())); }
            m.count("listener_calls", got.len() as u64);
            for (k, v) in &cats {
                let hit = match v { Some(v) => got.iter().any(|g| g.get(*k) == Some(v)), None => got.iter().all(|g| g.get(*k).is_none()) };
                m.check(hit, "listener-capabilities", || format!("{k} should be announced as {v:?}, but the listener saw {got:?}; {trace:?}"));
            }
        }
        for s in &seen[attached..] { m.check(s.lock().unwrap().is_empty(), "listener-calls", || "called before it was added".into()); }
    }
    m.count("removals", removals);
    m.sample("history", || format!("{trace:?}"));
    m.case(trace, removals > 0);
}
async fn c16_threads(m: Arc<Mon>, seed: u64) {
    let d = Arc::new(DynamicServerManager::new(Arc::new(Server::builder().name("s").version("1").build().unwrap())));
    let calls = Arc::new(AtomicU64::new(0));
    { let c = calls.clone(); d.add_capability_listener(move |_| { c.fetch_add(1, Ordering::SeqCst); }).await; }
    let jobs: Vec<_> = (0..5u64).map(|k| {
        let (d, m) = (d.clone(), m.clone());
        tokio::spawn(async move {
            let mut r = Rng::new(seed ^ (k * 15_485_863));
            let (mut t, mut p, mut n) = (BTreeMap::new(), BTreeMap::new(), 0u64);
            for j in 0..30u64 {
                let name = format!("{k}-{}", r.below(3));
                let id = k * 1000 + j;
                match r.below(4) {
                    0 | 1 => { if r.bool() { let _ = d.add_tool(name.clone(), Arc::new(Tag(id)), tinfo(&name)).await; t.insert(name, id); } else { let _ = d.add_prompt(name.clone(), Arc::new(Tag(id)), pinfo(&name)).await; p.insert(name, id); } n += 1; },
                    2 => { let had = t.remove(&name).is_some(); let o = d.remove_tool(&name).await; n += u64::from(had); m.check(o.is_ok() == had, "remove-outcome", || format!("{o:?}")); },
                    _ => { let had = p.remove(&name).is_some(); let o = d.remove_prompt(&name).await; n += u64::from(had); m.check(o.is_ok() == had, "remove-outcome", || format!("{o:?}")); },
                }
            }
            (t, p, n)
        })
    }).collect();
    let (mut t, mut p, mut n) = (BTreeMap::new(), BTreeMap::new(), 0);
    for j in jobs { let (a, b, c) = j.await.unwrap(); t.extend(a); p.extend(b); n += c; }
    let (gt, gp) = (tools_of(&d).await, prompts_of(&d).await);
    m.check(gt == t, "dynamic-tools", || format!("threads: {gt:?}, want {t:?}"));
    m.check(gp == p, "dynamic-prompts", || format!("threads: {gp:?}, want {p:?}"));
    let c = calls.load(Ordering::SeqCst);
    m.check(c == n, "listener-calls", || format!("threads: {c} calls for {n} changes"));
    m.count("listener_calls", c);
    m.case(("threads", seed), true);
}

// ------------------------------------------------------------------ many at once

fn shuffled(r: &mut Rng, n: usize) -> Vec<usize> { let mut v: Vec<usize> = (0..n).collect(); r.shuffle(&mut v); v }

async fn c11_many(m: &Arc<Mon>, r: &mut Rng) {
    let n = r.range(1100, 3000);
    let mut p = Protocol::new(ProtocolOptions::default());
    let id = |i: usize| if i % 2 == 0 { RequestId::Number(i as i64) } else { RequestId::String(i.to_string()) };
    let mut rx: Vec<_> = (0..n).map(|i| p.register_request(id(i))).collect();
    for i in shuffled(r, n) {
        if i % 7 == 0 { p.cancel_request(&id(i)); } else { let _ = p.complete_request(&id(i), JSONRPCResponse::success(id(i), json!(i))); }
    }
    settle().await;
    for (i, x) in rx.iter_mut().enumerate() {
        let got = x.try_recv().ok().and_then(|v| v.result().cloned());
        m.check(got == if i % 7 == 0 { None } else { Some(json!(i)) }, "wrong-response", || format!("{n} outstanding, waiter {i} got {got:?}"));
    }
    m.max("outstanding_requests", n as u64);
    m.case(("many", n), true);
}
async fn c12_many(m: &Arc<Mon>, r: &mut Rng) {
    let n = r.range(1100, 3000);
    let (notes, sink) = note_sink();
    let mut mgr = CancellationManager::new();
    mgr.set_notification_sender(sink);
    let mut toks = vec![];
    for i in 0..n { toks.push(mgr.create_token(i.to_string()).await); }
    let mut want = vec![];
    for i in shuffled(r, n) {
        match i % 3 { 0 => { let _ = mgr.cancel_request(i.to_string(), Some(format!("r{i}"))).await; want.push((json!(i.to_string()), Some(format!("r{i}")))); }, 1 if i % 2 == 0 => mgr.remove_token(&i.to_string()).await, _ => {} }
    }
    for (i, t) in toks.iter().enumerate() {
        m.check(t.is_cancelled() == (i % 3 == 0), "token-state", || format!("{n} outstanding, token {i} cancelled: {}", t.is_cancelled()));
    }
    let got = notes.lock().unwrap().clone();
    m.check(got == want, "cancel-notifications", || format!("{} notifications for {} cancellations", got.len(), want.len()));
    mgr.clear().await;
    for (i, t) in toks.iter().enumerate() { if !(i % 3 == 1 && i % 2 == 0) { m.check(t.is_cancelled(), "clear-misses", || format!("token {i} of {n}")); } }
    for i in 0..n { m.check(mgr.get_token(&i.to_string()).await.is_none() && !mgr.is_cancelled(&i.to_string()).await, "clear-misses", || format!("{i} of {n} still known")); }
    m.max("outstanding_tokens", n as u64);
    m.case(("many", n), true);
}
async fn c13_many(m: &Arc<Mon>, r: &mut Rng) {
    let n = r.range(1100, 2500);
    let (tx, mut rx) = mpsc::channel(n);
    let mut mgr = ElicitationManager::new();
    mgr.set_request_channel(tx);
    mgr.set_timeout(Duration::from_secs(60));
    let mgr = Arc::new(mgr);
    let (q, _) = wire::elicit_request(r);
    let all = r.bool();
    let jobs: Vec<_> = (0..n).map(|i| { let (mgr, mut q) = (mgr.clone(), q.clone()); q.elicitation_id = format!("e{i}"); tokio::spawn(async move { mgr.elicit_input(q).await }) }).collect();
    settle().await;
    let mut sent = 0;
    while rx.try_recv().is_ok() { sent += 1; }
    m.check(sent == n && mgr.pending_count().await == n, "pending-count", || format!("{sent} sent, {} pending, {n} asked", 0));
    for i in shuffled(r, n) {
        let id = format!("e{i}");
        match i % 5 {
            0 => m.check(mgr.cancel(&id).await.is_ok(), "cancel", || id.clone()),
            1 => true,
            _ => m.check(mgr.handle_response(ElicitInputResponse { elicitation_id: id.clone(), value: Some(json!(i)), cancelled: false, error: None }).await.is_ok(), "response-acceptance", || id.clone()),
        };
    }
    if all { mgr.cancel_all().await; }
    for (i, j) in jobs.into_iter().enumerate() {
        let o = j.await.unwrap();
        let ok = match i % 5 { 0 => matches!(&o, Ok(v) if v.cancelled), 1 if all => matches!(&o, Ok(v) if v.cancelled && v.value.is_none()), 1 => o.is_err(), _ => matches!(&o, Ok(v) if v.value == Some(json!(i)) && !v.cancelled) };
        m.check(ok, "end", || format!("elicitation {i} of {n}: {o:?}"));
    }
    m.check(mgr.pending_count().await == 0, "left-pending", || format!("{n} elicitations"));
    m.max("outstanding_elicitations", n as u64);
    m.case(("many", n), true);
}
async fn c14_many(m: &Arc<Mon>, r: &mut Rng) {
    let (n, k) = (r.range(1100, 2500), r.range(1100, 1500));
    let (notes, sink) = updates();
    let mut mgr = SubscriptionManager::new();
    mgr.set_notification_sender(sink);
    for i in 0..n { let _ = mgr.subscribe("u0".into(), format!("c{i}")).await; }
    for j in 0..k { let _ = mgr.subscribe(format!("u{j}"), "c0".into()).await; }
    let got = mgr.notify_resource_updated("u0".into()).await;
    m.check(matches!(got, Ok(g) if g == n), "update-count", || format!("{got:?} of {n} subscribers"));
    let mut mine = mgr.get_subscriptions("c0").await; mine.sort();
    let mut want: Vec<String> = (0..k).map(|j| format!("u{j}")).collect(); want.sort();
    m.check(mine == want, "subscriptions", || format!("{} of {k}", mine.len()));
    let g = mgr.get_subscribers("u0").await.len();
    m.check(g == n, "subscribers", || format!("{g} of {n}"));
    let t = mgr.get_stats().await.total_subscriptions;
    m.check(t == n + k - 1, "stats", || format!("{t}, want {}", n + k - 1));
    let _ = mgr.unsubscribe_all("c0").await;
    let got = mgr.notify_resource_updated("u0".into()).await;
    m.check(matches!(got, Ok(g) if g == n - 1), "update-count", || format!("{got:?} of {n} subscribers less one"));
    for j in 1..k { m.check(!mgr.has_subscribers(&format!("u{j}")).await, "subscribers", || format!("u{j} still has some")); }
    let s = mgr.get_stats().await;
    m.check(s.total_resources == 1 && s.total_subscriptions == n - 1 && s.unique_subscribers == n - 1, "stats", || format!("{s:?} once one client left {k} resources; {} clients remain on one", n - 1));
    m.check(notes.lock().unwrap().len() == 2, "update-notifications", || "two updates".into());
    m.case(("many", n, k), true);
}
async fn c15_many(m: &Arc<Mon>, r: &mut Rng) {
    let n = r.range(1100, 2000);
    let count = Arc::new(AtomicUsize::new(0));
    let mut mgr = RootsManager::new();
    { let c = count.clone(); mgr.set_notification_sender(move |_| { c.fetch_add(1, Ordering::SeqCst); }); }
    let mut un = vec![];
    for i in 0..n { un.push(Some(mgr.register_root(format!("file:///r{i}"), Some(format!("n{i}"))).await.unwrap())); }
    let gone: HashSet<usize> = shuffled(r, n).into_iter().take(n / 3).collect();
    for i in &gone { let u = un[*i].take().unwrap(); u(); }
    settle().await;
    let got: Vec<(String, Option<String>)> = mgr.get_roots().await.into_iter().map(|x| (x.uri, x.name)).collect();
    let want: Vec<_> = (0..n).filter(|i| !gone.contains(i)).map(|i| (format!("file:///r{i}"), Some(format!("n{i}")))).collect();
    m.check(got == want, "roots", || format!("{} of {} roots, or another order", got.len(), want.len()));
    let c = count.load(Ordering::SeqCst);
    m.check(c == n + gone.len(), "roots-notifications", || format!("{c} for {} changes", n + gone.len()));
    m.case(("many", n), true);
}
async fn c16_many(m: &Arc<Mon>, r: &mut Rng) {
    let n = r.range(1100, 2000);
    let d = DynamicServerManager::new(Arc::new(Server::builder().name("s").version("1").build().unwrap()));
    let heard = Arc::new(AtomicUsize::new(0));
    { let h = heard.clone(); d.add_capability_listener(move |_| { h.fetch_add(1, Ordering::SeqCst); }).await; }
    for i in 0..n {
        let t = format!("t{i}");
        let ok = d.add_tool(t.clone(), Arc::new(Tag(i as u64)), tinfo(&t)).await.is_ok() && d.add_prompt(t.clone(), Arc::new(Tag(i as u64)), pinfo(&t)).await.is_ok();
        m.check(ok, "add-refused", || t.clone());
    }
    for i in (0..n).step_by(3) { m.check(d.remove_tool(&format!("t{i}")).await.is_ok(), "remove-outcome", || format!("t{i}")); }
    let (ts, ps) = (tools_of(&d).await, prompts_of(&d).await);
    let want: BTreeMap<String, u64> = (0..n).filter(|i| i % 3 != 0).map(|i| (format!("t{i}"), i as u64)).collect();
    m.check(ts == want && ps.len() == n && ps.iter().all(|(k, v)| *k == format!("t{v}")), "registry", || format!("{} tools, want {}; {} prompts, want {n}", ts.len(), want.len(), ps.len()));
    let h = heard.load(Ordering::SeqCst);
    m.check(h == 2 * n + n.div_ceil(3), "listener-calls", || format!("{h} calls for {} changes", 2 * n + n.div_ceil(3)));
    m.case(("many", n), true);
}
