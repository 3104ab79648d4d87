//! C05 (one right answer per request), C06 (outlives bad messages), C07 (batches).
use mon::pipe::pipe;
use mon::rig::{Call, Spec, Want};
use mon::wire;
use mon::{settle, virtually, Check, Mon, Rng};
use pmcp::error::TransportError;
use pmcp::shared::{BatchRequest, BatchResponse};
use pmcp::types::jsonrpc::ResponsePayload;
use pmcp::types::{JSONRPCError, JSONRPCRequest, JSONRPCResponse, RequestId};
use pmcp::utils::parallel_batch::{process_batch_parallel, process_batch_parallel_stateful, rate_limited_processor, BatchProcessor, ParallelBatchConfig};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn main() {
    mon::main(&[
        Check { id: "C05", rule: "a random request sequence against a random server, over Server::run or a batch; non-trivial with at least two requests and a handler call", run: c05 },
        Check { id: "C06", rule: "a request sequence with undecodable or unexpected messages and a close; non-trivial with a bad message before a request", run: c06 },
        Check { id: "C07", rule: "a batch with random delays, limits and errors in virtual time; non-trivial with at least two requests", run: c07 },
    ]);
}

struct Exp { id: Value, want: Want, text: String }

/// Matches responses (any order) to expectations by id; every one must be met exactly once.
fn settle_answers(m: &Arc<Mon>, spec: &Spec, exp: &[Exp], got: &[Value], ordered: bool, ctx: &dyn Fn() -> String) {
    if ordered {
        let ids: Vec<&Value> = exp.iter().map(|e| &e.id).collect();
        let gids: Vec<&Value> = got.iter().map(|g| &g["id"]).collect();
        m.check(ids == gids, "response-order", || format!("requests {ids:?}, responses {gids:?}; {}", ctx()));
    }
    let mut used = vec![false; got.len()];
    for e in exp {
        let mut why = String::from("no response with this id");
        let hit = got.iter().enumerate().find(|(i, g)| !used[*i] && match spec.accepts(&e.id, &e.want, g) { Ok(()) => true, Err(x) => { if g["id"] == e.id { why = x; } false } }).map(|(i, _)| i);
        match hit {
            Some(i) => used[i] = true,
            None => m.fail(if why.starts_with("no response") { "request-unanswered" } else { "wrong-answer" }, format!("{}: {why}; {}", e.text, ctx())),
        }
    }
    for (i, g) in got.iter().enumerate() {
        if !used[i] { m.fail("extra-response", format!("{g}; {}", ctx())); }
    }
}
fn same_calls(m: &Arc<Mon>, want: &[Call], got: &[Call], ordered: bool, ctx: &dyn Fn() -> String) {
    let key = |c: &Call| format!("{} {} {} {}", c.what, c.name, mon::rig::canon(&c.args), c.request_id);
    let mut a: Vec<String> = want.iter().map(key).collect();
    let mut b: Vec<String> = got.iter().map(key).collect();
    if !ordered { a.sort(); b.sort(); }
    m.check(a == b, "handler-calls", || format!("handlers ran {b:?}, requests asked {a:?}; {}", ctx()));
}

fn c05(m: &Arc<Mon>) {
    let mut r = m.rng("c05");
    m.stage("sequences over a connection");
    for case in 0..m.n(6000, 150_000) {
        if m.stopped() { return; }
        let spec = if case % 3 == 0 { Spec::full(&mut r) } else { Spec::random(&mut r) };
        let n = r.range(0, 12);
        let mut exp = vec![];
        let mut calls = vec![];
        let mut msgs = vec![];
        for _ in 0..n {
            let (meth, p) = if r.chance(1, 12) { let k = *r.pick(&[14usize, 16, 17]); let (_, meth, p) = wire::request_k(&mut r, k); (meth, p) } else { spec.request(&mut r) };
            let (_, idv) = wire::id(&mut r);
            let idv = if r.chance(1, 6) && !exp.is_empty() { let k = r.below(exp.len()); let e: &Exp = &exp[k]; match &e.id { Value::Number(n) => json!(n.to_string()), o => o.clone() } } else { idv };
            let (c, w) = spec.predict(&idv, meth, &p);
            calls.extend(c);
            let v = wire::wire_obj(Some(idv.clone()), Some(meth), p);
            exp.push(Exp { id: idv, want: w, text: v.to_string() });
            msgs.push(v);
        }
        let texts: Vec<String> = msgs.iter().map(|v| v.to_string()).collect();
        m.case(&texts, n >= 2 && !calls.is_empty());
        m.count("requests", n as u64);
        m.count("predicted_handler_calls", calls.len() as u64);
        m.sample("sequence", || texts.join(" | "));
        let eager = r.bool();
        let mut r2 = r.fork();
        let (server, log) = spec.build(&mut r);
        let out = virtually(async {
            let (t, mut peer) = pipe();
            let run = tokio::spawn(server.run(t));
            let mut got = vec![];
            for v in &msgs {
                let s = if r2.bool() { v.to_string() } else { wire::scramble(&mut r2, v) };
                peer.raw(s.into_bytes());
                if !eager { if let Ok(Some(x)) = tokio::time::timeout(Duration::from_secs(5), peer.next()).await { got.push(x); } }
            }
            while let Ok(Some(x)) = tokio::time::timeout(Duration::from_secs(3600), peer.next()).await { got.push(x); if got.len() > msgs.len() + 5 { break; } if got.len() == msgs.len() { settle().await; while let Some(x) = peer.try_next() { got.push(x); } break; } }
            peer.hang_up();
            drop(run);
            got
        });
        let ctx = || format!("server {:?}/{:?}; {}", spec.tools, spec.prompts, texts.join(" | "));
        match out {
            None => m.fail("deadlock", ctx()),
            Some(got) => {
                m.count("responses", got.len() as u64);
                settle_answers(m, &spec, &exp, &got, false, &ctx);
                same_calls(m, &calls, &log.lock().unwrap(), false, &ctx);
            },
        }
    }
    m.stage("concurrent batches");
    for _ in 0..m.n(1500, 30_000) {
        if m.stopped() { return; }
        let spec = Spec::full(&mut r);
        let (server, log) = spec.build(&mut r);
        let server = Arc::new(server);
        let clients = r.range(1, 4);
        let mut plans = vec![];
        let mut calls = vec![];
        for _ in 0..clients {
            let mut exp = vec![];
            let mut reqs = vec![];
            for k in 0..r.range(1, 8) {
                let (meth, mut p) = spec.request(&mut r);
                if meth == "tools/call" { if let Some(a) = p.as_mut().and_then(|p| p.get_mut("arguments")).and_then(|a| a.as_object_mut()) { a.insert("delay".into(), json!(r.below(50))); } }
                // clients reuse each other's ids on purpose
                let id = if r.bool() { RequestId::Number(k as i64) } else { RequestId::String(k.to_string()) };
                let idv = wire::id_json(&id);
                let (c, w) = spec.predict(&idv, meth, &p);
                calls.extend(c);
                exp.push(Exp { id: idv, want: w, text: format!("{meth} {p:?}") });
                reqs.push(JSONRPCRequest::new(id, meth, p));
            }
            plans.push((exp, reqs));
        }
        m.case(plans.iter().map(|p| p.0.iter().map(|e| e.text.clone()).collect::<Vec<_>>()).collect::<Vec<_>>(), !calls.is_empty());
        m.count("concurrent_clients", clients as u64);
        let out = virtually(async {
            let hs: Vec<_> = plans.iter().map(|p| { let s = server.clone(); let b = BatchRequest::Batch(p.1.clone()); tokio::spawn(async move { s.handle_batch_request(b).await }) }).collect();
            let mut v = vec![];
            for h in hs { v.push(h.await); }
            v
        });
        let ctx = || "concurrent batches".to_string();
        match out {
            None => m.fail("deadlock", "concurrent batches"),
            Some(rs) => {
                for (res, p) in rs.into_iter().zip(&plans) {
                    match res {
                        Ok(Ok(b)) => { let got: Vec<Value> = b.into_responses().iter().map(|x| serde_json::to_value(x).unwrap()).collect(); m.count("responses", got.len() as u64); settle_answers(m, &spec, &p.0, &got, true, &ctx); },
                        o => m.fail("batch-failed", format!("{o:?}")),
                    }
                }
                same_calls(m, &calls, &log.lock().unwrap(), false, &ctx);
            },
        }
    }
    m.stage("large servers and batches");
    for _ in 0..m.n(6, 60) {
        if m.stopped() { return; }
        let mut spec = Spec::full(&mut r);
        let n = *r.pick(&[101usize, 257, 1001, 1500]);
        spec.tools = (0..n).map(|k| format!("tool {k}")).collect();
        spec.prompts = (0..n / 2).map(|k| format!("prompt-{k}")).collect();
        let (server, log) = spec.build(&mut r);
        let (mut exp, mut reqs, mut calls) = (vec![], vec![], vec![]);
        for k in 0..r.range(150, 1200) {
            let (meth, p) = match k { 0 => ("tools/list", Some(json!({}))), 1 => ("prompts/list", Some(json!({}))), 2 => ("tools/call", Some(json!({"name": spec.tools[n - 1], "arguments": {}}))), _ => spec.request(&mut r) };
            let id = json!(k);
            let (c, w) = spec.predict(&id, meth, &p);
            calls.extend(c);
            exp.push(Exp { id, want: w, text: format!("{meth} {:.200}", format!("{p:?}")) });
            reqs.push(JSONRPCRequest::new(k as i64, meth, p));
        }
        m.case(("large", n, reqs.len()), true);
        m.max("largest batch", reqs.len() as u64);
        m.max("most tools on a server", n as u64);
        let ctx = || format!("{n} tools, a batch of {}", exp.len());
        match virtually(Arc::new(server).handle_batch_request(BatchRequest::Batch(reqs))) {
            Some(Ok(b)) => {
                let got: Vec<Value> = b.into_responses().iter().map(|x| serde_json::to_value(x).unwrap()).collect();
                settle_answers(m, &spec, &exp, &got, true, &ctx);
                same_calls(m, &calls, &log.lock().unwrap(), false, &ctx);
            },
            o => m.fail("batch-failed", format!("{o:?}")),
        }
    }
    m.stage("unknown methods in batches");
    for _ in 0..m.n(200, 4000) {
        if m.stopped() { return; }
        // what a batch cannot decode is answered with an error in its place
        let spec = Spec::full(&mut r);
        let (server, log) = spec.build(&mut r);
        let (mut reqs, mut known, mut calls) = (vec![], vec![], vec![]);
        for k in 0..r.range(1, 6) {
            let id = wire::id(&mut r).0;
            if r.chance(1, 5) {
                // parameters by position: whether they are taken is open
                let (meth, p) = match r.below(5) { 0 => ("ping", json!([])), 1 => ("resources/subscribe", json!([r.string(4)])), 2 => ("resources/unsubscribe", json!(["u"])), 3 => ("logging/setLevel", json!(["info"])), _ => ("resources/templates/list", json!([null])) };
                reqs.push(JSONRPCRequest::new(id.clone(), meth, Some(p)));
                known.push((wire::id_json(&id), Want::Any, format!("{k}: {meth} by position")));
            } else if r.bool() {
                let (meth, p) = match r.below(4) { 0 => ("no/such", None), 1 => ("tools/call", Some(json!({"nom": 1}))), 2 => ("", Some(json!([1]))), _ => ("resources/read", Some(json!(7))) };
                reqs.push(JSONRPCRequest::new(id.clone(), meth, p));
                known.push((wire::id_json(&id), Want::AnyError, format!("{k}: {meth}")));
            } else {
                let (meth, p) = spec.request(&mut r);
                let (c, w) = spec.predict(&wire::id_json(&id), meth, &p);
                calls.extend(c);
                reqs.push(JSONRPCRequest::new(id.clone(), meth, p));
                known.push((wire::id_json(&id), w, format!("{k}: {meth}")));
            }
        }
        m.case(("unknown", known.iter().map(|k| k.2.clone()).collect::<Vec<_>>()), !calls.is_empty());
        let exp: Vec<Exp> = known.into_iter().map(|(id, want, text)| Exp { id, want, text }).collect();
        let ctx = || exp.iter().map(|e| e.text.clone()).collect::<Vec<_>>().join(" | ");
        match virtually(Arc::new(server).handle_batch_request(BatchRequest::Batch(reqs))) {
            Some(Ok(b)) => {
                let got: Vec<Value> = b.into_responses().iter().map(|x| serde_json::to_value(x).unwrap()).collect();
                m.count("responses", got.len() as u64);
                settle_answers(m, &spec, &exp, &got, true, &ctx);
                same_calls(m, &calls, &log.lock().unwrap(), false, &ctx);
            },
            o => m.fail("batch-failed", format!("{o:?}")),
        }
    }
    m.stage("what the client announced");
    for _ in 0..m.n(150, 3000) {
        if m.stopped() { return; }
        let spec = Spec::full(&mut r);
        let (server, _) = spec.build(&mut r);
        let server = Arc::new(server);
        let mut latest: Option<Value> = None;
        for _ in 0..r.range(1, 4) {
            let mut reqs = vec![];
            for k in 0..r.range(1, 3) {
                let id = wire::id(&mut r).0;
                if r.chance(1, 2) && k == 0 {
                    let (_, cv) = wire::client_caps(&mut r);
                    let p = json!({"protocolVersion": r.pick(pmcp::SUPPORTED_PROTOCOL_VERSIONS), "capabilities": cv, "clientInfo": {"name": "c", "version": "1"}});
                    latest = Some(cv);
                    reqs.push(JSONRPCRequest::new(id, "initialize", Some(p)));
                } else {
                    let (meth, p) = loop { let x = spec.request(&mut r); if x.0 != "initialize" { break x } };
                    reqs.push(JSONRPCRequest::new(id, meth, p));
                }
            }
            let s2 = server.clone();
            let got = virtually(async move { let ok = s2.clone().handle_batch_request(BatchRequest::Batch(reqs)).await.is_ok(); (ok, s2.is_initialized().await, s2.get_client_capabilities().await) });
            let want = latest.clone();
            match got {
                Some((true, init, caps)) => { m.check(init == want.is_some() && caps.map(|c| serde_json::to_value(c).unwrap()) == want, "client-capabilities", || format!("initialized {init}, want {want:?}")); },
                o => m.fail("batch-failed", format!("{o:?}")),
            }
        }
        m.case(("announced", format!("{latest:?}")), latest.is_some());
    }
    m.stage("undecodable requests");
    // a request the server does not know is still owed an error response
    for meth in ["no/such/method", "tools/call"] {
        let spec = Spec::full(&mut r);
        let (server, _) = spec.build(&mut r);
        m.case(("undecodable", meth), true);
        let got = virtually(async {
            let (t, mut peer) = pipe();
            let run = tokio::spawn(server.run(t));
            peer.send(&json!({"jsonrpc": "2.0", "id": 5, "method": meth, "params": {"bogus": true}}));
            let x = tokio::time::timeout(Duration::from_secs(3600), peer.next()).await.ok().flatten();
            peer.hang_up();
            drop(run);
            x
        }).flatten();
        match got {
            None => m.fail("undecodable-request-unanswered", format!("{meth} with undecodable content got no response")),
            Some(v) => { m.check(v["id"] == json!(5) && v.get("error").is_some(), "undecodable-request-answer", || v.to_string()); },
        }
    }
}

fn c06(m: &Arc<Mon>) {
    let mut r = m.rng("c06");
    for case in 0..m.n(5000, 120_000) {
        if m.stopped() { return; }
        let spec = Spec::full(&mut r);
        enum Step { Req(Value), Raw(Vec<u8>), Err(pmcp::Error) }
        let mut steps = vec![];
        let mut exp = vec![];
        let mut calls = vec![];
        let mut bad = 0;
        let mut desc = vec![];
        for _ in 0..r.range(1, 12) {
            match r.below(8) {
                0..=3 => {
                    let (meth, p) = spec.request(&mut r);
                    let (_, idv) = wire::id(&mut r);
                    let (c, w) = spec.predict(&idv, meth, &p);
                    calls.extend(c);
                    let v = wire::wire_obj(Some(idv.clone()), Some(meth), p);
                    exp.push(Exp { id: idv, want: w, text: v.to_string() });
                    desc.push(v.to_string());
                    steps.push(Step::Req(v));
                },
                4 => { let g = wire::response(&mut r); desc.push(g.json.to_string()); bad += 1; m.count("unexpected_responses", 1); steps.push(Step::Raw(g.json.to_string().into_bytes())); },
                5 => { let g = wire::notification(&mut r); desc.push(g.json.to_string()); bad += 1; m.count("notifications", 1); steps.push(Step::Raw(g.json.to_string().into_bytes())); },
                6 => {
                    let b: Vec<u8> = match r.below(8) {
                        0 => r.bytes(30),
                        1 => b"{".to_vec(),
                        2 => b"{}".to_vec(),
                        3 => b"[]".to_vec(),
                        4 => b"{\"jsonrpc\":\"2.0\",\"method\":\"notifications/unknown\",\"params\":{}}".to_vec(),
                        5 => b"{\"jsonrpc\":\"2.0\",\"method\":\"notifications/progress\",\"params\":{}}".to_vec(),
                        6 => b"".to_vec(),
                        _ => { let g = wire::message(&mut r); let mut b = g.json.to_string().into_bytes(); b.pop(); b },
                    };
                    // a random byte string could by chance be a request: then it is not bad
                    bad += 1;
                    m.count("undecodable", 1);
                    desc.push(String::from_utf8_lossy(&b).into_owned());
                    steps.push(Step::Raw(b));
                },
                _ => {
                    let e = match r.below(4) {
                        0 => TransportError::InvalidMessage("x".into()).into(),
                        1 => serde_json::from_str::<Value>("{").unwrap_err().into(),
                        2 => pmcp::Error::parse("x"),
                        _ => pmcp::Error::method_not_found("x"),
                    };
                    bad += 1;
                    m.count("decode_errors", 1);
                    desc.push(format!("{e}"));
                    steps.push(Step::Err(e));
                },
            }
        }
        m.case(&desc, bad > 0 && !exp.is_empty());
        m.count("requests", exp.len() as u64);
        m.sample("history", || desc.join(" | "));
        let (server, log) = spec.build(&mut r);
        let mut r2 = r.fork();
        let ending = case % 3;
        let out = virtually(async {
            let (t, mut peer) = pipe();
            let closed = peer.closed.clone();
            let run = tokio::spawn(server.run(t));
            for s in steps {
                if r2.chance(1, 3) { settle().await; }
                match s { Step::Req(v) => { peer.send(&v); }, Step::Raw(b) => { peer.raw(b); }, Step::Err(e) => { peer.error(e); } }
            }
            let mut got = vec![];
            // everything answered while the connection is still open
            while got.len() < exp.len() {
                match tokio::time::timeout(Duration::from_secs(600), peer.next()).await { Ok(Some(x)) => got.push(x), _ => break }
            }
            settle().await;
            while let Some(x) = peer.try_next() { got.push(x); }
            let alive = !run.is_finished();
            match ending {
                0 => peer.hang_up(),
                1 => { peer.error(TransportError::ConnectionClosed.into()); },
                _ => { closed.store(true, Ordering::SeqCst); peer.hang_up(); },
            }
            let end = tokio::time::timeout(Duration::from_secs(86_400), run).await;
            (got, alive, end)
        });
        let ctx = || desc.join(" | ");
        match out {
            None => m.fail("deadlock", ctx()),
            Some((got, alive, end)) => {
                settle_answers(m, &spec, &exp, &got, true, &ctx);
                same_calls(m, &calls, &log.lock().unwrap(), true, &ctx);
                m.check(alive, "stopped-while-open", ctx);
                match end {
                    Err(_) => m.fail("serving-never-returns", ctx()),
                    Ok(Err(e)) => m.fail("serving-panicked", format!("{e}; {}", ctx())),
                    Ok(Ok(_)) => m.count("returned_after_close", 1),
                }
            },
        }
    }
}

// ------------------------------------------------------------------ C07

fn c07(m: &Arc<Mon>) {
    let mut r = m.rng("c07");
    m.stage("parallel batches");
    for case in 0..m.n(6000, 200_000) {
        if m.stopped() { return; }
        one_batch(m, &mut r, case);
    }
    m.stage("processors over several batches");
    for _ in 0..m.n(800, 20_000) {
        if m.stopped() { return; }
        processor(m, &mut r);
    }
    m.stage("real threads");
    let rt = mon::mrt(4);
    for _ in 0..m.n(150, 5000) {
        if m.stopped() { return; }
        let n = r.range(2, 40);
        let max = r.range(1, 6);
        let ids: Vec<i64> = (0..n).map(|i| i as i64 * 7).collect();
        let reqs: Vec<JSONRPCRequest> = ids.iter().map(|i| JSONRPCRequest::new(*i, "m", Some(json!({"i": i})))).collect();
        let (live, peak, runs) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
        let (l, p, k) = (live.clone(), peak.clone(), runs.clone());
        let res = rt.block_on(mon::within(process_batch_parallel(reqs, move |q: JSONRPCRequest| { let (l, p, k) = (l.clone(), p.clone(), k.clone()); async move {
            let now = l.fetch_add(1, Ordering::SeqCst) + 1;
            p.fetch_max(now, Ordering::SeqCst);
            k.fetch_add(1, Ordering::SeqCst);
            let v = q.params.clone().unwrap();
            let h = tokio::spawn(async move { tokio::task::yield_now().await; v });
            let v = h.await.unwrap();
            l.fetch_sub(1, Ordering::SeqCst);
            JSONRPCResponse::success(q.id, v)
        } }, ParallelBatchConfig { max_concurrency: max, fail_fast: false, request_timeout_ms: None })));
        m.case(("threads", n, max), true);
        match res {
            Some(Ok(v)) => {
                m.check(v.len() == n && v.iter().zip(&ids).all(|(x, i)| x.id == RequestId::Number(*i) && x.result() == Some(&json!({"i": i}))), "batch-responses", || format!("{v:?}"));
                m.check(peak.load(Ordering::SeqCst) <= max, "concurrency-limit", || format!("{} at once, limit {max}", peak.load(Ordering::SeqCst)));
                m.check(runs.load(Ordering::SeqCst) == n, "handler-runs", || format!("{} of {n}", runs.load(Ordering::SeqCst)));
                m.max("peak_concurrency", peak.load(Ordering::SeqCst) as u64);
            },
            o => m.fail("batch-lost", format!("{o:?}")),
        }
    }
}

#[derive(Clone)]
struct Plan { id: RequestId, delay: u64, error: bool, key: u64 }

fn plans(r: &mut Rng, n: usize) -> Vec<Plan> {
    (0..n).map(|i| { let id = match r.below(6) { 0 => RequestId::String("null".into()), 1 => RequestId::Number(0), _ => wire::id(r).0 }; Plan { id, delay: match r.below(4) { 0 => 0, 1 => r.below(20) as u64 * 10, 2 => 1000 + r.below(5) as u64 * 100, _ => r.below(60) as u64 * 10 }, error: r.chance(1, 4), key: i as u64 } }).collect()
}
struct Obs { live: usize, peak: usize, runs: HashMap<u64, usize>, params_ok: bool }

fn failure(key: u64) -> JSONRPCError { JSONRPCError::new([-5, -32603, -32001, -32000, 1][key as usize % 5], format!("failed {key}")) }
fn handler(obs: Arc<Mutex<Obs>>, by_key: Arc<HashMap<u64, Plan>>, lim: Option<u64>) -> impl Fn(JSONRPCRequest) -> std::pin::Pin<Box<dyn std::future::Future<Output = JSONRPCResponse> + Send>> + Clone + Send + Sync + 'static {
    let _ = lim;
    move |q: JSONRPCRequest| {
        let obs = obs.clone();
        let by_key = by_key.clone();
        Box::pin(async move {
            struct Live(Arc<Mutex<Obs>>);
            impl Drop for Live { fn drop(&mut self) { self.0.lock().unwrap().live -= 1; } }
            let key = q.params.as_ref().and_then(|p| p["key"].as_u64()).unwrap_or(u64::MAX);
            {
                let mut o = obs.lock().unwrap();
                o.live += 1;
                o.peak = o.peak.max(o.live);
                *o.runs.entry(key).or_insert(0) += 1;
            }
            let _live = Live(obs.clone());
            let Some(p) = by_key.get(&key) else { obs.lock().unwrap().params_ok = false; return JSONRPCResponse::success(q.id, Value::Null) };
            if p.id != q.id || q.method != format!("m{key}") { obs.lock().unwrap().params_ok = false; }
            if p.delay > 0 { tokio::time::sleep(Duration::from_millis(p.delay)).await; }
            if p.error { JSONRPCResponse::error(q.id, failure(key)) } else { JSONRPCResponse::success(q.id, json!({"key": key})) }
        })
    }
}
fn expect(m: &Arc<Mon>, ps: &[Plan], lim: Option<u64>, got: &[JSONRPCResponse], ctx: &dyn Fn() -> String) -> (u64, u64, u64) {
    let (mut ok, mut err, mut to) = (0, 0, 0);
    if !m.check(got.len() == ps.len(), "response-count", || format!("{} responses to {} requests; {}", got.len(), ps.len(), ctx())) { return (0, 0, 0); }
    for (p, g) in ps.iter().zip(got) {
        m.check(g.id == p.id, "response-id", || format!("request {:?} (delay {}) answered with id {:?}; {}", p.id, p.delay, g.id, ctx()));
        let late = lim.is_some_and(|l| p.delay > l);
        if late {
            to += 1;
            m.check(matches!(&g.payload, ResponsePayload::Error(_)) && g.get_error().is_some_and(|e| !e.message.starts_with("failed ")), "timeout-not-error", || format!("{g:?}; {}", ctx()));
        } else if p.error {
            err += 1;
            m.check(g.get_error() == Some(&failure(p.key)), "error-changed", || format!("{g:?}; {}", ctx()));
        } else {
            ok += 1;
            m.check(g.result() == Some(&json!({"key": p.key})), "result-changed", || format!("{g:?}; {}", ctx()));
        }
    }
    (ok, err, to)
}
/// A result and the (virtual) time it took.
async fn timed<T>(f: impl std::future::Future<Output = T>) -> (T, Duration) {
    let t0 = tokio::time::Instant::now();
    let x = f.await;
    (x, t0.elapsed())
}
fn one_batch(m: &Arc<Mon>, r: &mut Rng, case: usize) {
    let n = match r.below(40) { 0..=7 => r.below(3), 8..=15 => r.range(10, 30), 16 => r.range(60, 300), _ => r.range(2, 10) };
    let mut ps = plans(r, n);
    let patient = r.chance(1, 12) && case % 4 != 1;
    if patient { for p in &mut ps { if r.chance(1, 3) { p.delay += 20_000 + r.below(40) as u64 * 10_000; } } }
    let by: Arc<HashMap<u64, Plan>> = Arc::new(ps.iter().map(|p| (p.key, p.clone())).collect());
    let obs = Arc::new(Mutex::new(Obs { live: 0, peak: 0, runs: HashMap::new(), params_ok: true }));
    let mut max = match r.below(3) { 0 => 1, 1 => r.range(2, 5), _ => r.range(2, 40) };
    let mut lim = if patient && r.bool() { Some(5 + r.below(60) as u64 * 10_000) } else if r.chance(2, 3) { Some(5 + r.below(80) as u64 * 10) } else { None };
    let reqs: Vec<JSONRPCRequest> = ps.iter().map(|p| JSONRPCRequest::new(p.id.clone(), format!("m{}", p.key), Some(json!({"key": p.key})))).collect();
    let h = handler(obs.clone(), by, lim);
    let cfg = ParallelBatchConfig { max_concurrency: max, fail_fast: r.bool(), request_timeout_ms: lim };
    let via = case % 4;
    let ctx = { let d: Vec<_> = ps.iter().map(|p| (p.id.clone(), p.delay, p.error)).collect(); let c = cfg.clone(); move || format!("via {via} {c:?} {d:?}") };
    m.case((ps.iter().map(|p| (p.id.to_string(), p.delay, p.error)).collect::<Vec<_>>(), max, lim, via), n >= 2);
    m.count("requests", n as u64);
    m.sample("batch", &ctx);
    let got: Option<(pmcp::Result<Vec<JSONRPCResponse>>, Duration)> = match via {
        1 => { max = 10; lim = Some(30_000); virtually(timed(async { pmcp::shared::batch::process_batch_request(BatchRequest::Batch(reqs), h).await.map(BatchResponse::into_responses) })) },
        2 => { let st = Arc::new(tokio::sync::RwLock::new(0usize)); let s2 = st.clone(); let out = virtually(timed(async move { process_batch_parallel_stateful(reqs, s2, move |q, s: Arc<tokio::sync::RwLock<usize>>| { let h = h.clone(); async move { *s.write().await += 1; h(q).await } }, cfg).await })); m.check(st.try_read().is_ok_and(|x| *x == n), "stateful-calls", &ctx); out },
        _ => virtually(timed(async { process_batch_parallel(reqs, h, cfg).await })),
    };
    match got {
        Some((Ok(v), took)) => {
            let (_, _, to) = expect(m, &ps, lim, &v, &ctx);
            m.count("timeouts", to);
            let o = obs.lock().unwrap();
            m.check(o.params_ok, "request-altered", &ctx);
            m.check(o.peak <= max, "concurrency-limit", || format!("{} at once, limit {max}; {}", o.peak, ctx()));
            m.check(o.runs.len() == n && o.runs.values().all(|c| *c == 1), "handler-runs", || format!("{:?}; {}", o.runs, ctx()));
            m.check(o.live == 0, "abandoned-handler", || format!("{} handlers still alive; {}", o.live, ctx()));
            m.max("peak_concurrency", o.peak as u64);
            // the first ones start together, as many as may
            if ps.iter().all(|p| p.delay > 0) && lim != Some(0) { m.count("full batches", 1); m.check(o.peak == max.min(n), "concurrency-short", || format!("{} at once of {n}, limit {max}; {}", o.peak, ctx())); }
            // nobody waits while there is room: no longer than any order of starting them one after another would take
            let each: Vec<u64> = ps.iter().map(|p| lim.map_or(p.delay, |l| p.delay.min(l))).collect();
            let most = each.iter().sum::<u64>() / max as u64 + each.iter().max().copied().unwrap_or(0);
            // the virtual clock ticks in milliseconds
            m.check(took.as_millis() as u64 <= most + 2 * n as u64, "batch-slow", || format!("{took:?}, at most {most} ms expected; {}", ctx()));
        },
        Some((Err(e), _)) => m.fail("batch-error", format!("{e}; {}", ctx())),
        None => m.fail("batch-hangs", ctx()),
    }
}
fn processor(m: &Arc<Mon>, r: &mut Rng) {
    let lim = if r.bool() { Some(305) } else { None };
    let bp = BatchProcessor::new(ParallelBatchConfig { max_concurrency: r.range(1, 6), fail_fast: false, request_timeout_ms: lim });
    let (mut tot, mut ok, mut er, mut to) = (0u64, 0, 0, 0);
    for round in 0..r.range(1, 4) {
        let n = if r.chance(1, 25) { r.range(120, 300) } else { r.below(8) };
        let ps = plans(r, n);
        let by: Arc<HashMap<u64, Plan>> = Arc::new(ps.iter().map(|p| (p.key, p.clone())).collect());
        let obs = Arc::new(Mutex::new(Obs { live: 0, peak: 0, runs: HashMap::new(), params_ok: true }));
        let reqs: Vec<JSONRPCRequest> = ps.iter().map(|p| JSONRPCRequest::new(p.id.clone(), format!("m{}", p.key), Some(json!({"key": p.key})))).collect();
        m.case(("processor", ps.iter().map(|p| (p.id.to_string(), p.delay, p.error)).collect::<Vec<_>>(), lim, round), n >= 2);
        let ctx = || format!("processor round {round} {lim:?}");
        match virtually(bp.process(reqs, handler(obs, by, lim))) {
            Some(Ok(v)) => { let (a, b, c) = expect(m, &ps, lim, &v, &ctx); tot += n as u64; ok += a; er += b; to += c; },
            o => { m.fail("processor", format!("{o:?}")); return; },
        }
        let mt = virtually(bp.metrics()).unwrap();
        let got = (mt.total_requests, mt.successful_responses, mt.error_responses, mt.timeout_responses);
        m.check(got == (tot, ok, er, to), "metrics", || format!("counted {got:?}, saw {:?}", (tot, ok, er, to)));
        m.count("metric_reads", 1);
    }
    let usable = |m: &Mon, mt: &pmcp::utils::parallel_batch::BatchMetrics| m.check(mt.avg_processing_time_ms >= 0.0 && mt.avg_processing_time_ms <= mt.max_processing_time_ms as f64 + 1e-6, "metrics-times", || format!("{mt:?}"));
    if !usable(m, &virtually(bp.metrics()).unwrap()) { return; }
    // wall-clock figures: the maximum covers the slowest batch, an empty one changes nothing
    let ms = r.range(3, 8) as u64;
    let mut passed = 0;
    for k in 0..3u64 {
        let wait = if k == 1 { ms } else { 0 };
        let t = std::time::Instant::now();
        let reqs: Vec<JSONRPCRequest> = (0..if k == 2 { 0 } else { 2 }).map(|i| JSONRPCRequest::new(i as i64, "x", None)).collect();
        let _ = virtually(bp.process(reqs, move |q: JSONRPCRequest| async move { std::thread::sleep(Duration::from_millis(wait)); JSONRPCResponse::success(q.id, Value::Null) }));
        passed = passed.max(t.elapsed().as_millis() as u64);
        let mt = virtually(bp.metrics()).unwrap();
        if !usable(m, &mt) { return; }
        if k >= 1 && !m.check(mt.max_processing_time_ms >= ms, "metrics-longest", || format!("a batch took {ms} ms or more, {mt:?}")) { return; }
    }
    m.max("slowest_batch_ms", passed);
    virtually(bp.reset_metrics());
    let mt = virtually(bp.metrics()).unwrap();
    m.check((mt.total_requests, mt.successful_responses, mt.error_responses, mt.timeout_responses) == (0, 0, 0, 0), "metrics-reset", || format!("{mt:?}"));
    // the rate-limited front end keeps the same contract
    let n = r.below(6);
    let ids: Vec<RequestId> = (0..n).map(|_| wire::id(r).0).collect();
    let reqs: Vec<JSONRPCRequest> = ids.iter().map(|i| JSONRPCRequest::new(i.clone(), "x", None)).collect();
    let f = rate_limited_processor(r.range(1, 10), ParallelBatchConfig::default());
    match virtually(f(reqs)) {
        Some(Ok(v)) => { m.check(v.iter().map(|x| x.id.clone()).collect::<Vec<_>>() == ids, "rate-limited-ids", || format!("{v:?}")); },
        o => m.fail("rate-limited", format!("{o:?}")),
    }
}
