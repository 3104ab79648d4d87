//! C08 (handshake and capability gates), C09 (a call through a server equals the handler),
//! C10 (each caller gets its own response).
use mon::pipe::{duplex, pipe, Peer, PipeTransport};
use mon::rig::{as_wire, canon, perform, Call, Spec, Want};
use mon::wire;
use mon::{settle, virtually, Check, Mon, Rng};
use pmcp::shared::ProtocolOptions;
use pmcp::types::*;
use pmcp::{Client, ClientBuilder, Error};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn main() {
    mon::main(&[
        Check { id: "C08", rule: "a history of operations before, during and after a scripted handshake; non-trivial when an operation is refused and another sent", run: c08 },
        Check { id: "C09", rule: "client operations through a live server with recorded handlers; non-trivial with a handler call", run: c09 },
        Check { id: "C10", rule: "client calls against a scripted peer that interleaves other messages; non-trivial with an interleaved message or an abandoned call", run: c10 },
    ]);
}

/// A random operation as (method, params).
fn operation(r: &mut Rng) -> (&'static str, Option<Value>) {
    let k = *r.pick(&[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]);
    let (_, m, p) = wire::request_k(r, k);
    (m, p)
}
/// Whether the announced capabilities allow it: None where the protocol leaves it open.
fn allowed(m: &str, caps: &Value) -> Option<bool> {
    let has = |k: &str| caps.get(k).is_some();
    match m {
        "ping" => Some(true),
        "logging/setLevel" => Some(has("logging")),
        "tools/list" | "tools/call" => Some(has("tools")),
        "prompts/list" | "prompts/get" => Some(has("prompts")),
        "resources/list" | "resources/templates/list" | "resources/read" => Some(has("resources")),
        "resources/subscribe" => Some(caps.pointer("/resources/subscribe") == Some(&json!(true))),
        "resources/unsubscribe" => if !has("resources") { Some(false) } else if caps.pointer("/resources/subscribe") == Some(&json!(true)) { Some(true) } else { None },
        "completion/complete" => Some(has("completions")),
        "sampling/createMessage" => Some(has("sampling")),
        _ => None,
    }
}

// ------------------------------------------------------------------ C08

#[derive(Clone, Copy, Debug, PartialEq)]
enum Hs { Ok, OldVersion, Refused, Malformed, NoteFails, HangUp, SendFails }

fn c08(m: &Arc<Mon>) {
    let mut r = m.rng("c08");
    m.stage("handshakes and gates");
    for _ in 0..m.n(6000, 200_000) {
        if m.stopped() { return; }
        let (t, peer) = pipe();
        let (info, infov) = if r.bool() { let (a, b) = wire::implementation(&mut r); (Some(a), b) } else { (None, Value::Null) };
        let client = match (info, r.below(3)) {
            (Some(i), 0) => Client::with_options(t, i, ProtocolOptions { enforce_strict_capabilities: r.bool(), debounced_notification_methods: vec!["notifications/progress".into()] }),
            (Some(i), _) => Client::with_info(t, i),
            (None, 0) => ClientBuilder::new(t).enforce_strict_capabilities(r.bool()).debounced_notifications(vec!["x".into()]).build(),
            (None, _) => Client::new(t),
        };
        let seed = r.u64();
        let m2 = m.clone();
        if virtually(history(m2, client, peer, infov, seed)).is_none() {
            m.fail("client-hangs", format!("history with seed {seed}"));
        }
    }
}

async fn history(m: Arc<Mon>, mut client: Client<PipeTransport>, mut peer: Peer, infov: Value, seed: u64) {
    let r = &mut Rng::new(seed);
    let mut log: Vec<String> = vec![];
    let attempts = peer.send_attempts.clone();
    let n = |a: &Arc<Mutex<usize>>| *a.lock().unwrap();
    let (mut refused, mut sent) = (0, 0);
    // before initialization nothing may leave
    async fn refuse_all(m: &Arc<Mon>, r: &mut Rng, client: &Client<PipeTransport>, attempts: &Arc<Mutex<usize>>, log: &mut Vec<String>) -> usize {
        let k = r.below(3);
        for _ in 0..k {
            let before = *attempts.lock().unwrap();
            let (meth, ok) = if r.chance(1, 8) {
                if r.bool() { ("roots-changed", client.send_roots_list_changed().await.is_ok()) } else { ("authenticate", client.authenticate(&AuthInfo { scheme: AuthScheme::None, token: None, oauth: None, params: HashMap::new() }).is_ok()) }
            } else {
                let (meth, p) = operation(r);
                (meth, tokio::time::timeout(Duration::from_secs(5), perform(client, meth, &p)).await.is_ok_and(|x| x.is_ok()))
            };
            log.push(format!("{meth} while uninitialized"));
            m.check(!ok, "uninitialized-operation-succeeds", || log.join("; "));
            m.check(*attempts.lock().unwrap() == before, "uninitialized-operation-sends", || log.join("; "));
        }
        k
    }
    refused += refuse_all(&m, r, &client, &attempts, &mut log).await;
    let fails = if r.chance(1, 3) { r.range(1, 2) } else { 0 };
    let mut plan: Vec<Hs> = (0..fails).map(|_| *r.pick(&[Hs::OldVersion, Hs::Refused, Hs::Malformed, Hs::NoteFails, Hs::SendFails])).collect();
    plan.push(if r.chance(1, 12) { Hs::HangUp } else { Hs::Ok });
    let (mut cc, mut ccv) = wire::client_caps(r);
    let mut scv = wire::server_caps(r).1;
    for (k, hs) in plan.into_iter().enumerate() {
        // a later attempt may announce something else, on both sides
        if k > 0 { (cc, ccv) = wire::client_caps(r); scv = wire::server_caps(r).1; }
        log.push(format!("initialize -> {hs:?}"));
        let version = match hs {
            Hs::OldVersion => match r.below(6) { 0 => String::new(), 1 => "2024-11-06".into(), 2 => "2026-01-01".into(), 3 => format!("{} ", pmcp::LATEST_PROTOCOL_VERSION), 4 => pmcp::SUPPORTED_PROTOCOL_VERSIONS[0][..9].to_string(), _ => { let s = r.string(10); if pmcp::SUPPORTED_PROTOCOL_VERSIONS.contains(&s.as_str()) { "x".into() } else { s } } },
            _ => r.pick(pmcp::SUPPORTED_PROTOCOL_VERSIONS).to_string(),
        };
        let mut res = json!({"protocolVersion": version, "capabilities": scv, "serverInfo": wire::implementation(r).1});
        if r.bool() { res["instructions"] = json!(r.string(6)); }
        let reply = match hs {
            Hs::Refused => json!({"error": wire::error_obj(r).1}),
            Hs::Malformed => json!({"result": match r.below(4) { 0 => Value::Null, 1 => json!({}), 2 => { let mut x = res.clone(); x.as_object_mut().unwrap().remove(*r.pick(&["protocolVersion", "capabilities", "serverInfo"])); x }, _ => json!([1]) }}),
            _ => json!({"result": res}),
        };
        if hs == Hs::SendFails { peer.fail_sends.store(true, Ordering::SeqCst); }
        let base = peer.sent.lock().unwrap().len();
        let base_attempts = n(&attempts);
        let fs = peer.fail_sends.clone();
        let cc2 = cc.clone();
        let m2 = m.clone();
        let l2 = log.clone();
        let (ccv2, infov2) = (ccv.clone(), infov.clone());
        let (out, p2) = tokio::join!(client.initialize(cc2), async move {
            let req = match tokio::time::timeout(Duration::from_secs(3600), peer.next()).await { Ok(Some(q)) => q, _ => { return peer; } };
            // nothing else may be sent before the response
            settle().await;
            m2.check(peer.try_next().is_none(), "sent-before-response", || l2.join("; "));
            let ok = req["method"] == json!("initialize") && req["params"]["protocolVersion"] == json!(pmcp::LATEST_PROTOCOL_VERSION) && req["params"]["capabilities"] == ccv2 && (infov2.is_null() || req["params"]["clientInfo"] == infov2);
            m2.check(ok, "initialize-request", || format!("{req} for caps {ccv2} info {infov2}"));
            if hs == Hs::HangUp { peer.hang_up(); return peer; }
            let mut v = json!({"jsonrpc": "2.0", "id": req["id"]});
            for (k, x) in reply.as_object().unwrap() { v[k] = x.clone(); }
            if hs == Hs::NoteFails { fs.store(true, Ordering::SeqCst); }
            peer.send(&v);
            peer
        });
        peer = p2;
        peer.fail_sends.store(false, Ordering::SeqCst);
        let sent_now: Vec<Value> = peer.sent.lock().unwrap()[base..].to_vec();
        while peer.try_next().is_some() {}
        let ctx = || format!("sent {sent_now:?}; result {:?}; {}", out.as_ref().map(|_| ()).map_err(|e| e.to_string()), log.join("; "));
        match hs {
            Hs::Ok => {
                match &out {
                    Ok(o) => { m.check(serde_json::to_value(o).unwrap() == res, "initialize-result", || format!("{o:?} for {res}")); },
                    Err(_) => { m.fail("initialize-fails", ctx()); return; },
                }
                m.check(sent_now.len() == 2 && sent_now[1]["method"] == json!("notifications/initialized") && sent_now[1].get("id").is_none(), "initialized-notification", ctx);
                m.check(client.get_server_capabilities().map(|c| serde_json::to_value(c).unwrap()) == Some(scv.clone()), "server-capabilities", ctx);
                m.check(client.get_server_version().map(|c| serde_json::to_value(c).unwrap()) == Some(res["serverInfo"].clone()), "server-version", ctx);
                m.check(client.get_instructions() == res.get("instructions").and_then(|x| x.as_str()), "server-instructions", ctx);
            },
            _ => {
                m.check(out.is_err(), "failed-handshake-accepted", ctx);
                let want = if hs == Hs::SendFails { 0 } else { 1 };
                m.check(sent_now.len() == want, "failed-handshake-sends", ctx);
                if hs == Hs::NoteFails { m.check(n(&attempts) == base_attempts + 2, "initialized-notification-count", ctx); }
                refused += refuse_all(&m, r, &client, &attempts, &mut log).await;
                if hs == Hs::HangUp { m.case(log.join(";"), true); return; }
            },
        }
    }
    let m2 = m.clone();
    let client = if r.chance(1, 4) { client.clone() } else { client };
    let mut client = client;
    // gates
    for _ in 0..r.range(1, 10) {
        let before = n(&attempts);
        let base = peer.sent.lock().unwrap().len();
        if r.chance(1, 10) {
            log.push("second initialize".into());
            let out = tokio::time::timeout(Duration::from_secs(5), client.initialize(cc.clone())).await;
            m.check(matches!(out, Ok(Err(_))), "second-initialization-accepted", || log.join("; "));
            m.check(n(&attempts) == before, "second-initialization-sends", || log.join("; "));
            refused += 1;
            continue;
        }
        if r.chance(1, 10) {
            log.push("roots changed".into());
            let can = ccv.pointer("/roots/listChanged") == Some(&json!(true));
            let out = client.send_roots_list_changed().await;
            let now: Vec<Value> = peer.sent.lock().unwrap()[base..].to_vec();
            if can { m.check(out.is_ok() && now.len() == 1 && now[0]["method"] == json!("notifications/roots/list_changed"), "roots-changed", || format!("{out:?} {now:?}")); sent += 1; }
            else { m.check(out.is_err() && n(&attempts) == before, "unannounced-roots-changed-sent", || format!("client capabilities {ccv}; {out:?} {now:?}")); refused += 1; }
            while peer.try_next().is_some() {}
            continue;
        }
        if r.chance(1, 8) {
            // reports of the client's own, and what never leaves it
            let out;
            let want: Option<(&str, Value)>;
            match r.below(4) {
                0 => {
                    let (id, idv) = wire::id(r);
                    log.push(format!("cancel {idv}"));
                    out = client.cancel_request(&id).await;
                    want = Some(("notifications/cancelled", idv));
                },
                1 => {
                    let (t, tv) = match r.below(2) { 0 => { let x = r.string(5); (pmcp::types::ProgressToken::String(x.clone()), json!(x)) }, _ => { let x = r.u64() as i64; (pmcp::types::ProgressToken::Number(x), json!(x)) } };
                    let message = if r.bool() { Some(r.string(8)) } else { None };
                    let progress = match r.below(6) { 0 => 0.0, 1 => -1.5, 2 => 1e300, 3 => 1e-9, _ => r.below(1000) as f64 / 8.0 };
                    log.push(format!("progress {tv}"));
                    let mut w = json!({"progressToken": tv, "progress": progress});
                    if let Some(x) = &message { w["message"] = json!(x); }
                    out = client.send_progress(pmcp::types::ProgressNotification { progress_token: t, progress, message }).await;
                    want = Some(("notifications/progress", w));
                },
                _ => {
                    let token = if r.bool() { Some(r.string(6)) } else { None };
                    let oauth = if r.bool() { Some(serde_json::from_value::<pmcp::types::auth::OAuthInfo>(json!({"authUrl": "https://a.example/auth", "tokenUrl": "https://a.example/token", "clientId": "c"}))) } else { None };
                    let oauth = match oauth { Some(Ok(o)) => Some(o), Some(Err(e)) => { m.inconclusive(&format!("OAuthInfo {e}")); None }, None => None };
                    let (scheme, ok) = match r.below(4) { 0 => (AuthScheme::None, true), 1 => (AuthScheme::Bearer, token.is_some()), 2 => (AuthScheme::OAuth2, oauth.is_some()), _ => (AuthScheme::Custom(r.string(4)), true) };
                    log.push(format!("authenticate {scheme:?} {ok}"));
                    let got = client.authenticate(&AuthInfo { scheme, token, oauth, params: HashMap::new() }).is_ok();
                    m.check(got == ok && n(&attempts) == before, "authenticate", || log.join("; "));
                    continue;
                },
            }
            settle().await;
            let now: Vec<Value> = peer.sent.lock().unwrap()[base..].to_vec();
            let (meth, w) = want.unwrap();
            let same = now.len() == 1 && now[0]["method"] == json!(meth) && now[0].get("id").is_none() && if meth == "notifications/cancelled" { now[0]["params"]["requestId"] == w } else { now[0]["params"] == w };
            m.check(out.is_ok() && same, "own-notification", || format!("{out:?}; {now:?} for {w}; {}", log.join("; ")));
            sent += 1;
            while peer.try_next().is_some() {}
            continue;
        }
        if r.chance(1, 6) {
            if let Some(c) = client.get_server_capabilities() {
                let has = |k: &str| !scv[k].is_null();
                m.check(c.provides_tools() == has("tools") && c.provides_prompts() == has("prompts") && c.provides_resources() == has("resources"), "capability-queries", || format!("{c:?} for {scv}"));
            }
            let has = |k: &str| !ccv[k].is_null();
            m.check(cc.supports_tools() == has("tools") && cc.supports_prompts() == has("prompts") && cc.supports_resources() == has("resources") && cc.supports_sampling() == has("sampling"), "capability-queries", || format!("{cc:?} for {ccv}"));
        }
        let (meth, p) = operation(r);
        log.push(format!("{meth}"));
        let res = wire::result_json(r, meth);
        let fail = if r.chance(1, 6) { Some(wire::error_obj(r).1) } else { None };
        let (out, answered) = tokio::join!(tokio::time::timeout(Duration::from_secs(60), perform(&client, meth, &p)), async {
            let Ok(Some(q)) = tokio::time::timeout(Duration::from_secs(5), peer.next()).await else { return None };
            let mut v = json!({"jsonrpc": "2.0", "id": q["id"]});
            match &fail { Some(e) => v["error"] = e.clone(), None => v["result"] = res.clone() }
            peer.send(&v);
            Some(q)
        });
        let now: Vec<Value> = peer.sent.lock().unwrap()[base..].to_vec();
        let ctx = || format!("{meth} {p:?} with server capabilities {scv}: {out:?}; sent {now:?}");
        match allowed(meth, &scv) {
            Some(false) => {
                refused += 1;
                m.check(matches!(&out, Ok(Err(Error::Protocol { code, .. })) if *code == pmcp::ErrorCode::UNSUPPORTED_CAPABILITY) || matches!(&out, Ok(Err(e)) if !matches!(e, Error::Protocol { .. }) && e.to_string().to_lowercase().contains("support")), "unannounced-not-refused", ctx);
                m.check(n(&attempts) == before && answered.is_none(), "unannounced-sends", ctx);
            },
            Some(true) => {
                sent += 1;
                m.check(now.len() == 1 && now[0]["method"] == json!(meth), "announced-not-sent", ctx);
                match (&fail, &out) {
                    (None, Ok(Ok(v))) => { m.check(*v == res, "result-changed", || format!("{v} for {res}; {}", ctx())); },
                    (Some(e), Ok(Err(x))) => { m.check(x.to_string().contains(e["message"].as_str().unwrap()), "error-changed", || format!("{x} for {e}")); },
                    _ => m.fail("announced-operation-outcome", ctx()),
                }
                if let (Some(q), Some(want)) = (now.first(), &p) { m.check(q.get("params").unwrap_or(&json!({})) == want, "params-changed", || format!("{q} for {want}")); }
            },
            None => {},
        }
    }
    m2.count("refused", refused as u64);
    m2.count("sent", sent as u64);
    m2.sample("history", || log.join("; "));
    m2.case((log.join(";"), scv.to_string()), refused > 0 && sent > 0);
}

// ------------------------------------------------------------------ C09

fn c09(m: &Arc<Mon>) {
    let mut r = m.rng("c09");
    let mut ids: HashSet<String> = HashSet::new();
    m.stage("one caller");
    for _ in 0..m.n(2500, 60_000) {
        if m.stopped() { return; }
        through_server(m, &mut r, &mut ids, 1, 5, false);
    }
    m.stage("long-lived clients");
    for k in 0..m.n(4, 60) {
        if m.stopped() { return; }
        let callers = if k % 2 == 0 { 1 } else { 40 };
        through_server(m, &mut r, &mut ids, callers, 1600 / callers, false);
    }
    m.stage("several callers");
    for _ in 0..m.n(800, 20_000) {
        if m.stopped() { return; }
        let n = r.range(2, 5);
        through_server(m, &mut r, &mut ids, n, 5, false);
    }
    m.stage("several callers on threads");
    for _ in 0..m.n(60, 3000) {
        if m.stopped() { return; }
        let n = r.range(2, 6);
        through_server(m, &mut r, &mut ids, n, 5, true);
    }
}

fn through_server(m: &Arc<Mon>, r: &mut Rng, ids: &mut HashSet<String>, callers: usize, most: usize, threads: bool) {
    let mut spec = Spec::full(r);
    if r.chance(1, 3) {
        // some handlers missing, all capabilities announced
        spec.resources = r.bool();
        spec.tools.truncate(r.below(4));
        spec.prompts.truncate(r.below(3));
    }
    let mut plans: Vec<Vec<(&'static str, Option<Value>, Option<Call>, Want)>> = vec![];
    let mut calls = vec![];
    for _ in 0..callers {
        let mut v = vec![];
        let n = if most > 5 { most } else { r.range(1, 6) };
        for _ in 0..n {
            let (meth, p) = spec.request(r);
            if meth == "initialize" || meth.starts_with("resources/subscribe") || meth.starts_with("resources/unsub") { continue; }
            let (c, w) = spec.predict(&json!("?"), meth, &p);
            calls.extend(c.clone());
            v.push((meth, p, c, w));
        }
        plans.push(v);
    }
    let ops: usize = plans.iter().map(|p| p.len()).sum();
    let text = format!("{callers} callers: {:?}", plans.iter().map(|v| v.iter().map(|(a, b, ..)| format!("{a} {}", b.as_ref().map(|b| b.to_string()).unwrap_or_default())).collect::<Vec<_>>()).collect::<Vec<_>>());
    m.case((&text, threads), !calls.is_empty());
    m.count("operations", ops as u64);
    m.count("handler_calls", calls.len() as u64);
    m.sample(if callers == 1 { "one caller" } else { "callers" }, || text.clone());
    let (server, log) = spec.build(r);
    let spec = Arc::new(spec);
    let body = {
        let (plans, spec) = (plans.clone(), spec.clone());
        async move {
            let (a, b) = duplex();
            let wire_log = a.sent.clone();
            let run = tokio::spawn(server.run(b));
            let mut client = Client::new(a);
            if let Err(e) = client.initialize(ClientCapabilities::default()).await { return Err(format!("initialize: {e}")); }
            let base = wire_log.lock().unwrap().len();
            let mut hs = vec![];
            for p in plans {
                let c = client.clone();
                hs.push(tokio::spawn(async move {
                    let mut outs = vec![];
                    for (meth, p, ..) in &p { outs.push(perform(&c, meth, p).await); }
                    outs
                }));
            }
            let mut outs = vec![];
            for h in hs { outs.push(h.await.map_err(|e| e.to_string())?); }
            settle().await;
            let sent = wire_log.lock().unwrap()[base..].to_vec();
            run.abort();
            let _ = spec;
            Ok((outs, sent))
        }
    };
    let out = if threads { mon::mrt(3).block_on(mon::within(body)) } else { virtually(body) };
    let (outs, sent) = match out {
        None => { m.fail("call-hangs", text); return; },
        Some(Err(e)) => { m.fail("setup", format!("{e}; {text}")); return; },
        Some(Ok(x)) => x,
    };
    for (plan, got) in plans.iter().zip(&outs) {
        for ((meth, p, _, w), g) in plan.iter().zip(got) {
            if let Err(why) = spec.accepts(&json!("?"), w, &as_wire(g)) {
                m.fail("call-result", format!("{meth} {p:?}: {why}; caller got {g:?}"));
            }
        }
    }
    // exactly one request per call, each with a fresh id
    let want: BTreeMap<String, usize> = plans.iter().flatten().fold(BTreeMap::new(), |mut a, (meth, p, ..)| { *a.entry(format!("{meth} {}", canon(p.as_ref().unwrap_or(&json!({}))))).or_insert(0) += 1; a });
    let seen: BTreeMap<String, usize> = sent.iter().fold(BTreeMap::new(), |mut a, v| { *a.entry(format!("{} {}", v["method"].as_str().unwrap_or("?"), canon(v.get("params").unwrap_or(&json!({}))))).or_insert(0) += 1; a });
    m.check(want == seen, "wire-requests", || format!("operations {want:?}, requests sent {seen:?}"));
    for v in &sent {
        let id = v["id"].to_string();
        m.check(v.get("id").is_some() && ids.insert(id.clone()), "id-reused", || format!("{id} in {v}"));
    }
    let key = |c: &Call| format!("{} {} {}", c.what, c.name, canon(&c.args));
    let (mut a, mut b): (Vec<String>, Vec<String>) = (calls.iter().map(key).collect(), log.lock().unwrap().iter().map(key).collect());
    if callers > 1 { a.sort(); b.sort(); }
    m.check(a == b, "handler-calls", || format!("handlers ran {b:?}, callers asked {a:?}"));
}

// ------------------------------------------------------------------ C10

/// A peer's behaviour towards the calls it sees.
struct Script { noise: usize, foreign: bool, bad_bytes: bool, shuffle: bool, errors: usize }

fn c10(m: &Arc<Mon>) {
    let mut r = m.rng("c10");
    m.stage("interleaved messages");
    for i in 0..m.n(3000, 100_000) {
        if m.stopped() { return; }
        let s = Script { noise: r.below(4), foreign: false, bad_bytes: i % 5 == 4, shuffle: r.bool(), errors: r.below(3) };
        scripted(m, &mut r, s, false);
    }
    m.stage("abandoned calls");
    for i in 0..m.n(2500, 80_000) {
        if m.stopped() { return; }
        let s = Script { noise: r.below(3), foreign: false, bad_bytes: i % 5 == 4, shuffle: r.bool(), errors: r.below(2) };
        scripted(m, &mut r, s, true);
    }
    m.stage("responses nobody asked for");
    for _ in 0..m.n(400, 10_000) {
        if m.stopped() { return; }
        let s = Script { noise: r.below(2), foreign: true, bad_bytes: false, shuffle: false, errors: 0 };
        scripted(m, &mut r, s, false);
    }
}

/// kind of call, carrying a tag that its answer repeats
async fn tagged(c: &Client<PipeTransport>, kind: usize, tag: &str) -> pmcp::Result<String> {
    Ok(match kind {
        0 => match c.call_tool("t".into(), json!({"tag": tag})).await?.content.first() { Some(Content::Text { text }) => text.clone(), o => format!("{o:?}") },
        1 => match c.read_resource(tag.to_string()).await?.contents.first() { Some(Content::Text { text }) => text.clone(), o => format!("{o:?}") },
        2 => c.get_prompt(tag.to_string(), HashMap::new()).await?.description.unwrap_or_default(),
        _ => c.list_tools(Some(tag.to_string())).await?.next_cursor.unwrap_or_default(),
    })
}
fn tag_of(q: &Value) -> String {
    let p = &q["params"];
    p.pointer("/arguments/tag").or(p.get("uri")).or(p.get("cursor")).or(p.get("name")).and_then(|x| x.as_str()).unwrap_or("?").to_string()
}
/// An answer any of the four call kinds can read, carrying the tag.
fn answer(id: &Value, tag: &str) -> Value {
    json!({"jsonrpc": "2.0", "id": id, "result": {
        "content": [{"type": "text", "text": tag}], "isError": false, "contents": [{"type": "text", "text": tag}],
        "description": tag, "messages": [], "tools": [], "nextCursor": tag}})
}

fn scripted(m: &Arc<Mon>, r: &mut Rng, s: Script, abandon: bool) {
    // sometimes so hasty that many answers are still to come
    let hasty = abandon && r.chance(1, 40);
    let (callers, per) = if hasty { (r.range(1, 3), r.range(25, 90)) } else { (r.range(1, 4), r.range(1, 4)) };
    // (kind, tag, give up after this many ms)
    let mut plans: Vec<Vec<(usize, String, Option<u64>)>> = vec![];
    for c in 0..callers {
        plans.push((0..per).map(|k| (r.below(4), format!("tag-{c}-{k}-{}", r.below(1 << 30)), if hasty && k + 3 < per { Some(1 + r.below(10) as u64) } else if abandon && r.bool() { Some(1 + r.below(40) as u64 * 10) } else { None })).collect());
    }
    let abandoned: usize = plans.iter().flatten().filter(|p| p.2.is_some()).count();
    let text = format!("{plans:?} noise {} foreign {} undecodable {} errors {}", s.noise, s.foreign, s.bad_bytes, s.errors);
    m.case((&text, r.u64()), s.noise > 0 || abandoned > 0 || s.foreign);
    m.sample(if s.foreign { "foreign" } else if abandon { "abandoned" } else { "interleaved" }, || text.clone());
    let seed = r.u64();
    let m2 = m.clone();
    let (f, bb) = (s.foreign, s.bad_bytes);
    let out = virtually(async move {
        let (t, mut peer) = pipe();
        let mut client = Client::new(t);
        let init = tokio::spawn(async move { let o = client.initialize(ClientCapabilities::default()).await; (client, o) });
        let q = peer.next().await.unwrap();
        peer.send(&json!({"jsonrpc": "2.0", "id": q["id"], "result": {"protocolVersion": pmcp::LATEST_PROTOCOL_VERSION, "capabilities": {"tools": {}, "prompts": {}, "resources": {}}, "serverInfo": {"name": "p", "version": "1"}}}));
        let (client, o) = init.await.unwrap();
        if o.is_err() { return Err(format!("initialize {o:?}")); }
        peer.next().await;
        let outs: Arc<Mutex<Vec<(String, Option<pmcp::Result<String>>)>>> = Arc::default();
        // requests the peer has seen, by tag: what an application watching its transport can cancel
        let seen: Arc<Mutex<HashMap<String, RequestId>>> = Arc::default();
        let mut hs = vec![];
        for p in plans {
            let (c, o, seen, m4) = (client.clone(), outs.clone(), seen.clone(), m2.clone());
            hs.push(tokio::spawn(async move {
                for (kind, tag, give_up) in p {
                    let got = match give_up {
                        Some(ms) => tokio::time::timeout(Duration::from_millis(ms), tagged(&c, kind, &tag)).await.ok(),
                        None => Some(tagged(&c, kind, &tag).await),
                    };
                    if got.is_none() && tag.len() % 2 == 0 {
                        let id = seen.lock().unwrap().get(&tag).cloned();
                        if let Some(id) = id {
                            m4.count("cancelled", 1);
                            if c.cancel_request(&id).await.is_err() { m4.fail("cancel-fails", format!("{id:?} {tag}")); }
                        }
                    }
                    o.lock().unwrap().push((tag, got));
                }
            }));
        }
        let m3 = m2.clone();
        let bot = tokio::spawn(async move {
            let mut r = Rng::new(seed);
            let mut open: Vec<Value> = vec![];
            let mut answered: Vec<Value> = vec![];
            let take = |q: Value, open: &mut Vec<Value>| {
                if q.get("id").is_none() { return }
                if let Some(i) = q["id"].as_str() { seen.lock().unwrap().insert(tag_of(&q), RequestId::String(i.into())); }
                open.push(q);
            };
            loop {
                // take everything that is there; wait only when nothing is outstanding
                if open.is_empty() { match peer.next().await { Some(q) => take(q, &mut open), None => return } }
                settle().await;
                while let Some(q) = peer.try_next() { take(q, &mut open); }
                if abandon { tokio::time::sleep(Duration::from_millis(r.below(30) as u64 * 10)).await; while let Some(q) = peer.try_next() { take(q, &mut open); } }
                if open.is_empty() { continue }
                for _ in 0..r.below(s.noise + 1) {
                    match r.below(3) {
                        0 | 1 => { let k = *r.pick(&[4usize, 5, 6, 7, 8, 9, 10]); let (_, meth, p) = wire::notification_k(&mut r, k); peer.send(&wire::wire_obj(None, Some(meth), p)); m3.count("interleaved_notifications", 1); },
                        _ => { let k = *r.pick(&[12usize, 15, 16]); let (_, meth, p) = wire::request_k(&mut r, k); peer.send(&wire::wire_obj(Some(if r.bool() { json!(r.below(5)) } else { open[0]["id"].clone() }), Some(meth), p)); m3.count("interleaved_requests", 1); },
                    }
                }
                if s.bad_bytes && r.chance(1, 4) { peer.raw(r.pick(&[&b"{"[..], b"null", b"{\"jsonrpc\":\"2.0\"}", b"{\"jsonrpc\":\"2.0\",\"method\":\"no/such\"}"]).to_vec()); m3.count("undecodable", 1); }
                if s.foreign && r.bool() {
                    let id = match r.below(4) { 0 => json!(1), 1 => json!("someone-else"), 2 if !answered.is_empty() => r.pick(&answered).clone(), _ => json!(open[0]["id"].as_str().unwrap_or("x").to_uppercase() + "!") };
                    peer.send(&answer(&id, "not yours"));
                    m3.count("foreign_responses", 1);
                }
                let i = if s.shuffle { r.below(open.len()) } else { 0 };
                let q = open.remove(i);
                let tag = tag_of(&q);
                if r.below(4) < s.errors { peer.send(&json!({"jsonrpc": "2.0", "id": q["id"], "error": {"code": -32001, "message": format!("E {tag}")}})); } else { peer.send(&answer(&q["id"], &tag)); }
                answered.push(q["id"].clone());
                m3.count("answers", 1);
            }
        });
        for h in hs { if h.await.is_err() { return Err("a caller panicked".into()); } }
        bot.abort();
        let v = std::mem::take(&mut *outs.lock().unwrap());
        Ok(v)
    });
    match out {
        None => m.fail("call-hangs", text),
        Some(Err(e)) => m.fail("setup", format!("{e}; {text}")),
        Some(Ok(v)) => {
            for (tag, got) in v {
                match got {
                    None => m.count("gave_up", 1),
                    Some(Ok(t)) if t == tag => m.count("own_answers", 1),
                    Some(Err(Error::Protocol { message, .. })) if message == format!("E {tag}") => m.count("own_errors", 1),
                    // once one stray answer was taken, every later answer is one call late
                    Some(Ok(t)) if f => m.fail("unknown-id-response-accepted", format!("{tag} completed with {t:?}, whose id it never sent; {text}")),
                    // an undecodable message may end a waiting call with an error, not with an answer
                    Some(Err(e)) if bb && !e.to_string().contains("E tag-") => m.count("failed_by_undecodable", 1),
                    Some(Ok(t)) => m.fail("wrong-response", format!("{tag} completed with {t:?}; {text}")),
                    Some(Err(e)) => m.fail(if e.to_string().contains("E tag-") { "wrong-response" } else { "call-failed" }, format!("{tag} failed with {e}; {text}")),
                }
            }
        },
    }
}
