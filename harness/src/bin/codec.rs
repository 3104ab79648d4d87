//! C01 (round trip), C02 (undecodable input), C04 (error mapping).
use mon::wire::{self, Kind};
use mon::{Check, Mon, Rng};
use pmcp::shared::protocol_helpers::{create_notification, create_request, parse_notification, parse_request};
use pmcp::shared::{BatchRequest, BatchResponse, StdioTransport};
use pmcp::types::jsonrpc::{MessageType, RawMessage, ResponsePayload};
use pmcp::types::protocol::*;
use pmcp::types::{JSONRPCError, JSONRPCNotification, JSONRPCRequest, JSONRPCResponse, RequestId, TransportMessage};
use pmcp::{Error, ErrorCode};
use serde_json::{json, Map, Value};
use std::sync::Arc;

fn main() {
    mon::main(&[
        Check { id: "C01", rule: "a message of every method with random id and content, encoded and decoded by every codec entry point; non-trivial unless its params are empty", run: c01 },
        Check { id: "C02", rule: "a byte string given to every decoder; non-trivial when it is not one of the unmutated seeds", run: c02 },
        Check { id: "C04", rule: "an error converted to and from its wire form; every case is non-trivial", run: c04 },
    ]);
}

fn msg_id(m: &TransportMessage) -> Option<Value> {
    match m {
        TransportMessage::Request { id, .. } => Some(wire::id_json(id)),
        TransportMessage::Response(r) => Some(wire::id_json(&r.id)),
        TransportMessage::Notification(_) => None,
    }
}
fn method_of(m: &TransportMessage) -> String {
    match m {
        TransportMessage::Request { id, request } => create_request(id.clone(), request.clone()).method,
        TransportMessage::Notification(n) => create_notification(n.clone()).method,
        TransportMessage::Response(_) => String::new(),
    }
}

/// The shape a wire object must have, from JSON-RPC 2.0 alone.
fn well_formed(v: &Value, kind: Kind) -> Result<(), String> {
    let o = v.as_object().ok_or("not an object")?;
    if o.get("jsonrpc") != Some(&json!("2.0")) { return Err("no jsonrpc 2.0 tag".into()); }
    let has = |k: &str| o.contains_key(k);
    let ok = match kind {
        Kind::Request => has("id") && has("method") && !has("result") && !has("error"),
        Kind::Notification => !has("id") && has("method") && !has("result") && !has("error"),
        Kind::Response => has("id") && !has("method") && !has("params") && (has("result") != has("error")),
    };
    if !ok { return Err(format!("members {:?} do not fit a {kind:?}", o.keys().collect::<Vec<_>>())); }
    if let Some(k) = o.keys().find(|k| !["jsonrpc", "id", "method", "params", "result", "error"].contains(&k.as_str())) {
        return Err(format!("unexpected member {k}"));
    }
    Ok(())
}

fn check_decoded(m: &Arc<Mon>, g: &wire::Gen, got: &TransportMessage, how: &str, text: &str) {
    let ctx = || format!("via {how}: {text}");
    m.eq(&wire::kind_of(got), &g.kind, "decoded-kind", ctx);
    m.eq(&msg_id(got), &g.json.get("id").cloned(), "decoded-id", ctx);
    m.eq(&method_of(got), &g.method, "decoded-method", ctx);
    // content: re-encode the decoded message and compare with the independently written JSON
    match StdioTransport::serialize_message(got) {
        Ok(b) => {
            let v: Value = serde_json::from_slice(&b).unwrap_or(Value::Null);
            m.check(v == g.json, "decoded-content", || format!("decoded as {got:?} which encodes as {v}, expected {}; {}", g.json, ctx()));
        },
        Err(e) => m.fail("reencode-error", format!("{e}; {}", ctx())),
    }
}

fn c01(m: &Arc<Mon>) {
    let mut r = m.rng("c01");
    let n = m.n(60_000, 1_500_000);
    for i in 0..n {
        if m.stopped() { return; }
        let g = match i % 3 {
            0 => { let k = (i / 3) % wire::N_REQ; let (q, mm, p) = wire::request_k(&mut r, k); let (id, iv) = wire::id(&mut r);
                wire::Gen { msg: TransportMessage::Request { id, request: q }, json: wire::wire_obj(Some(iv), Some(mm), p), kind: Kind::Request, method: mm.into() } },
            1 => { let k = (i / 3) % wire::N_NOTE; let (q, mm, p) = wire::notification_k(&mut r, k);
                wire::Gen { msg: TransportMessage::Notification(q), json: wire::wire_obj(None, Some(mm), p), kind: Kind::Notification, method: mm.into() } },
            _ => wire::response(&mut r),
        };
        let bytes = match m.guard("encode-panic", || format!("{:?}", g.msg), || StdioTransport::serialize_message(&g.msg)) {
            Some(Ok(b)) => b,
            Some(Err(e)) => { m.fail("encode-error", format!("{e}: {:?}", g.msg)); continue; },
            None => continue,
        };
        let text = String::from_utf8_lossy(&bytes).into_owned();
        m.case(&text, g.json.get("params").is_none_or(|p| p.as_object().is_none_or(|o| !o.is_empty())));
        m.count(&format!("{:?}", g.kind), 1);
        m.sample(&format!("{:?} {}", g.kind, g.method), || text.clone());
        let v: Value = match serde_json::from_slice(&bytes) { Ok(v) => v, Err(e) => { m.fail("encode-invalid-json", format!("{e}: {text}")); continue; } };
        if let Err(e) = well_formed(&v, g.kind) { m.fail("encode-shape", format!("{e}: {text}")); }
        m.check(v == g.json, "encode-content", || format!("got {text}, expected {}", g.json));
        // decode: what was encoded, and the same value written by another JSON writer
        let scr = wire::scramble(&mut r, &g.json);
        for (how, t) in [("own encoding", &text), ("foreign encoding", &scr)] {
            match m.guard("decode-panic", || t.clone(), || StdioTransport::parse_message(t.as_bytes())) {
                Some(Ok(d)) => check_decoded(m, &g, &d, how, t),
                Some(Err(e)) => m.fail("decode-error", format!("{e}: {t}")),
                None => {},
            }
        }
        // the other entry points
        match (&g.msg, g.kind) {
            (TransportMessage::Request { id, request }, _) => {
                let jr = create_request(id.clone(), request.clone());
                m.check(jr.validate().is_ok() && jr.jsonrpc == "2.0", "create-request-version", || format!("{jr:?}"));
                m.check(serde_json::to_value(&jr).ok().as_ref() == Some(&g.json), "create-request", || format!("{jr:?} vs {}", g.json));
                match parse_request(jr) {
                    Ok((i2, q2)) => check_decoded(m, &g, &TransportMessage::Request { id: i2, request: q2 }, "parse_request", &text),
                    Err(e) => m.fail("parse-request-error", format!("{e}: {text}")),
                }
                // batches carry the same object
                match BatchRequest::from_value(g.json.clone()) {
                    Ok(b) => { m.check(!b.is_batch() && b.len() == 1 && !b.is_empty() && b.to_value().ok().as_ref() == Some(&g.json), "batch-single", || format!("{b:?} vs {}", g.json)); },
                    Err(e) => m.fail("batch-single-error", format!("{e}: {text}")),
                }
            },
            (TransportMessage::Notification(nt), _) => {
                let jn = create_notification(nt.clone());
                m.check(serde_json::to_value(&jn).ok().as_ref() == Some(&g.json), "create-notification", || format!("{jn:?} vs {}", g.json));
                match parse_notification(g.json.clone()) {
                    Ok(n2) => check_decoded(m, &g, &TransportMessage::Notification(n2), "parse_notification", &text),
                    Err(e) => m.fail("parse-notification-error", format!("{e}: {text}")),
                }
            },
            (TransportMessage::Response(resp), _) => {
                let back: Result<JSONRPCResponse, _> = serde_json::from_str(&scr);
                match back {
                    Ok(b) => {
                        check_decoded(m, &g, &TransportMessage::Response(b.clone()), "serde", &scr);
                        let is_err = g.json.get("error").is_some();
                        m.check(b.is_error() == is_err && b.is_success() != is_err && b.result() == g.json.get("result") && b.get_error().is_some() == is_err, "response-accessors", || format!("{b:?}"));
                    },
                    Err(e) => m.fail("response-serde", format!("{e}: {scr}")),
                }
                match serde_json::from_str::<RawMessage>(&scr) {
                    Ok(raw) => {
                        let want = if resp.is_error() { MessageType::ErrorResponse } else { MessageType::Response };
                        // `result: null` cannot be told from an absent one by this type
                        if g.json.get("result") != Some(&Value::Null) { m.eq(&raw.message_type(), &want, "raw-type", || scr.clone()); }
                    },
                    Err(e) => m.fail("raw-error", format!("{e}: {scr}")),
                }
            },
        }
    }
    c01_typed(m, &mut r);
    c01_batches(m, &mut r);
    c01_optional(m, &mut r);
    c01_meta(m, &mut r);
    c01_methods(m, &mut r);
    c01_results(m, &mut r);
}

/// The typed enums by themselves, as a transport of one's own would write them: method and params.
fn c01_typed(m: &Arc<Mon>, r: &mut Rng) {
    use pmcp::types::{ClientNotification, ClientRequest, ServerNotification, ServerRequest};
    m.stage("typed enums");
    fn one<T: serde::Serialize + serde::de::DeserializeOwned>(m: &Arc<Mon>, r: &mut Rng, what: &str, t: &T, want: &Value) {
        m.count("typed-enums", 1);
        m.case((what, want.to_string()), true);
        let got = serde_json::to_value(t).unwrap_or_else(|e| json!(e.to_string()));
        m.check(got == *want, &format!("typed-encode:{what}"), || format!("got {got}, expected {want}"));
        let s = wire::scramble(r, want);
        match serde_json::from_str::<T>(&s) {
            Ok(b) => { let again = serde_json::to_value(&b).unwrap_or_default(); m.check(again == *want, &format!("typed-decode:{what}"), || format!("{s} became {again}")); },
            Err(e) => m.fail(&format!("typed-decode:{what}"), format!("{e}: {s}")),
        }
    }
    fn tagged(q: &str, p: Option<Value>) -> Value { match p { Some(p) => json!({"method": q, "params": p}), None => json!({"method": q}) } }
    for i in 0..m.n(6000, 120_000) {
        if m.stopped() { return; }
        if i % 2 == 0 {
            let (q, meth, p) = wire::request_k(r, (i / 2) % wire::N_REQ);
            let (id, iv) = wire::id(r);
            let want = tagged(meth, p);
            let sdk = json!({"id": iv, "request": want});
            let t = TransportMessage::Request { id, request: q.clone() };
            let got = serde_json::to_value(&t).unwrap_or_default();
            m.check(got == sdk, "typed-transport-request", || format!("got {got}, expected {sdk}"));
            let s = wire::scramble(r, &sdk);
            match serde_json::from_str::<TransportMessage>(&s) {
                Ok(d @ TransportMessage::Request { .. }) => { m.check(method_of(&d) == meth && msg_id(&d) == Some(iv), "typed-transport-decode", || format!("{s} became {d:?}")); },
                o => m.fail("typed-transport-decode", format!("{s} gave {o:?}")),
            }
            match &q {
                Request::Client(c) => one::<ClientRequest>(m, r, "client request", c, &want),
                Request::Server(c) => one::<ServerRequest>(m, r, "server request", c, &want),
            }
        } else {
            let (q, meth, p) = wire::notification_k(r, (i / 2) % wire::N_NOTE);
            let want = match &q { Notification::Client(_) | Notification::Server(_) => tagged(meth, p.clone()), _ => p.clone().unwrap_or_default() };
            one::<Notification>(m, r, "notification", &q, &want);
            match &q {
                Notification::Client(c) => one::<ClientNotification>(m, r, "client notification", c, &tagged(meth, p)),
                Notification::Server(c) => one::<ServerNotification>(m, r, "server notification", c, &tagged(meth, p)),
                _ => {},
            }
        }
    }
}

fn c01_batches(m: &Arc<Mon>, r: &mut Rng) {
    m.stage("batches");
    for _ in 0..m.n(1500, 30_000) {
        if m.stopped() { return; }
        let gs: Vec<_> = (0..r.below(6)).map(|_| wire::request(r)).collect();
        let arr = Value::Array(gs.iter().map(|g| g.json.clone()).collect());
        m.case(arr.to_string(), !gs.is_empty());
        m.count("batches", 1);
        match BatchRequest::from_value(arr.clone()) {
            Ok(b) => {
                m.check(serde_json::to_value(&b).ok().as_ref() == Some(&arr) && serde_json::from_value::<BatchRequest>(arr.clone()).ok().and_then(|b| b.to_value().ok()).as_ref() == Some(&arr), "batch-serde", || arr.to_string());
                m.check(b.is_batch() && b.len() == gs.len() && b.is_empty() == gs.is_empty(), "batch-len", || arr.to_string());
                m.check(b.to_value().ok().as_ref() == Some(&arr), "batch-value", || arr.to_string());
                let items = b.into_requests();
                m.check(items.len() == gs.len(), "batch-into-requests", || format!("{} of {arr}", items.len()));
                for (jr, g) in items.into_iter().zip(&gs) {
                    match parse_request(jr) {
                        Ok((i2, q2)) => check_decoded(m, g, &TransportMessage::Request { id: i2, request: q2 }, "batch element", &g.json.to_string()),
                        Err(e) => m.fail("batch-element", format!("{e}: {}", g.json)),
                    }
                }
            },
            Err(e) => m.fail("batch-error", format!("{e}: {arr}")),
        }
        let rs: Vec<_> = (0..r.below(5)).map(|_| wire::response(r)).collect();
        let typed: Vec<JSONRPCResponse> = rs.iter().map(|g| match &g.msg { TransportMessage::Response(x) => x.clone(), _ => unreachable!() }).collect();
        let b = BatchResponse::from_responses(typed);
        let v = b.to_value().unwrap_or(Value::Null);
        m.check(serde_json::to_value(&b).ok().as_ref() == Some(&v) && serde_json::from_value::<BatchResponse>(v.clone()).ok().and_then(|b| b.to_value().ok()).as_ref() == Some(&v), "batch-response-serde", || v.to_string());
        let items: Vec<Value> = match &v { Value::Array(a) => a.clone(), o => vec![o.clone()] };
        let want: Vec<Value> = rs.iter().map(|g| g.json.clone()).collect();
        m.check(items == want, "batch-response", || format!("{v} vs {want:?}"));
        let again: Vec<Value> = b.into_responses().iter().map(|x| serde_json::to_value(x).unwrap()).collect();
        m.check(again == want, "batch-into-responses", || format!("{again:?} vs {want:?}"));
    }
}

/// Optional params: absent, null-free empty object.
fn c01_optional(m: &Arc<Mon>, r: &mut Rng) {
    m.stage("optional params");
    let reqs = ["ping", "tools/list", "prompts/list", "resources/list", "resources/templates/list", "roots/list"];
    let notes = ["notifications/initialized", "notifications/roots/list_changed", "notifications/tools/list_changed", "notifications/prompts/list_changed", "notifications/resources/list_changed"];
    for round in 0..m.n(40, 400) {
        for p in [None, Some(json!({}))] {
            for q in reqs {
                let (id, iv) = wire::id(r);
                let w = wire::wire_obj(Some(iv.clone()), Some(q), p.clone());
                m.case(w.to_string(), round > 0 || p.is_some());
                m.count("optional-params", 1);
                let t = wire::scramble(r, &w);
                match StdioTransport::parse_message(t.as_bytes()) {
                    Ok(d @ TransportMessage::Request { .. }) => {
                        m.eq(&method_of(&d), &q.to_string(), "optional-method", || t.clone());
                        m.eq(&msg_id(&d), &Some(iv.clone()), "optional-id", || t.clone());
                    },
                    o => m.fail("optional-params-request", format!("{t} gave {o:?}")),
                }
                match parse_request(JSONRPCRequest::new(id.clone(), q, p.clone())) {
                    Ok((i, rq)) => { m.check(i == id && create_request(i, rq).method == q, "optional-parse-request", || t.clone()); },
                    Err(e) => m.fail("optional-params-request", format!("{t} gave {e}")),
                }
            }
            for q in notes {
                let w = wire::wire_obj(None, Some(q), p.clone());
                m.case(format!("{w}{round}"), p.is_some());
                m.count("optional-params", 1);
                let t = wire::scramble(r, &w);
                match StdioTransport::parse_message(t.as_bytes()) {
                    Ok(d @ TransportMessage::Notification(_)) => { m.eq(&method_of(&d), &q.to_string(), "optional-method", || t.clone()); },
                    o => m.fail("optional-params-notification", format!("{t} gave {o:?}")),
                }
                match parse_notification(w.clone()) {
                    Ok(nt) => { m.eq(&create_notification(nt).method, &q.to_string(), "optional-method", || t.clone()); },
                    Err(e) => m.fail("optional-params-notification", format!("{t} gave {e}")),
                }
            }
        }
        for (what, min, full) in [
            ("CallToolResult", json!({}), json!({"content": [], "isError": false})),
            ("InputValidation", json!({}), json!({"required": false})),
            ("CompletionResult", json!({"values": ["v"]}), json!({"values": ["v"], "hasMore": false})),
            ("SelectOption", json!({"value": 1, "label": "l"}), json!({"value": 1, "label": "l", "disabled": false})),
        ] {
            use pmcp::types::elicitation::{InputValidation, SelectOption};
            fn via<T: serde::Serialize + serde::de::DeserializeOwned>(v: &Value) -> Result<Value, serde_json::Error> { serde_json::from_value::<T>(v.clone()).and_then(|t| serde_json::to_value(t)) }
            let got = match what { "CallToolResult" => via::<CallToolResult>(&min), "InputValidation" => via::<InputValidation>(&min), "CompletionResult" => via::<CompletionResult>(&min), _ => via::<SelectOption>(&min) };
            m.check(got.as_ref().ok() == Some(&full), "optional-members", || format!("{what} {min} gave {got:?}"));
        }
        // optional members of params: arguments absent
        let (n1, n2) = (r.string(8), r.string(8));
        for (q, p, want) in [("tools/call", json!({"name": n1}), json!({"name": n1, "arguments": null})), ("prompts/get", json!({"name": n2}), json!({"name": n2, "arguments": {}})),
            ("elicitation/response", json!({"elicitationId": n1}), json!({"elicitationId": n1, "cancelled": false})), ("sampling/createMessage", json!({"messages": []}), json!({"messages": [], "includeContext": "none"}))] {
            let (id, _) = wire::id(r);
            match parse_request(JSONRPCRequest::new(id, q, Some(p.clone()))) {
                Ok((i, rq)) => { let c = create_request(i, rq); m.check(c.method == q && c.params.as_ref() == Some(&want), "optional-arguments", || format!("{c:?}")); },
                Err(e) => m.fail("optional-arguments", format!("{q} {p} gave {e}")),
            }
        }
    }
}

/// The protocol lets any request or notification carry metadata (`_meta`): it never changes what
/// the rest of the message says, and never makes the message undecodable.
fn c01_meta(m: &Arc<Mon>, r: &mut Rng) {
    m.stage("metadata");
    // some messages keep their further members: there the metadata itself may show
    let rest = |p: Option<Value>| {
        let mut p = p.unwrap_or(Value::Null);
        if let Some(o) = p.as_object_mut() {
            o.remove("_meta");
        }
        p
    };
    let key = |m: &TransportMessage| match m {
        TransportMessage::Request { id, request } => {
            let c = create_request(id.clone(), request.clone());
            json!([wire::id_json(&c.id), c.method, rest(c.params)])
        },
        TransportMessage::Notification(n) => {
            let c = create_notification(n.clone());
            json!([c.method, rest(c.params)])
        },
        o => json!(format!("{o:?}")),
    };
    let meta = |r: &mut Rng| match r.below(4) {
        0 => json!({}),
        1 => json!({"progressToken": r.below(1000)}),
        2 => json!({"progressToken": r.string(6)}),
        _ => json!({"progressToken": 1, r.string(5): r.string(5), "nested": {"k": [1, null, true]}}),
    };
    for round in 0..m.n(12, 120) {
        let mut msgs: Vec<Value> = Vec::new();
        for k in 0..wire::N_REQ {
            let (_, q, p) = wire::request_k(r, k);
            let (_, iv) = wire::id(r);
            msgs.push(wire::wire_obj(Some(iv), Some(q), p));
        }
        for k in 0..wire::N_NOTE {
            let (_, q, p) = wire::notification_k(r, k);
            msgs.push(wire::wire_obj(None, Some(q), p));
        }
        for w in msgs {
            let method = w["method"].as_str().unwrap().to_string();
            let Ok(plain) = StdioTransport::parse_message(w.to_string().as_bytes()) else {
                m.fail("metadata-plain", w.to_string());
                continue;
            };
            let mut with = w.clone();
            if !with["params"].is_object() {
                with["params"] = json!({});
            }
            with["params"]["_meta"] = meta(r);
            m.case(format!("{method} {} {round}", with["params"]["_meta"]), true);
            m.count("metadata-messages", 1);
            let t = wire::scramble(r, &with);
            match StdioTransport::parse_message(t.as_bytes()) {
                Ok(d) => { m.check(key(&d) == key(&plain), "metadata-content", || format!("{t} decoded to {}, without metadata to {}", key(&d), key(&plain))); },
                Err(e) => m.fail("metadata-rejected", format!("{t} gave {e}")),
            }
        }
    }
}

fn c01_methods(m: &Arc<Mon>, r: &mut Rng) {
    m.stage("undefined methods");
    let mut reqs: Vec<&str> = vec![];
    let mut notes: Vec<&str> = vec![];
    for k in 0..wire::N_REQ { reqs.push(wire::request_k(r, k).1); }
    for k in 0..wire::N_NOTE { notes.push(wire::notification_k(r, k).1); }
    let all: Vec<&str> = reqs.iter().chain(notes.iter()).copied().collect();
    for _ in 0..m.n(12_000, 200_000) {
        if m.stopped() { return; }
        let base = r.pick(&all).to_string();
        let name = match r.below(12) {
            0 => base.to_uppercase(),
            1 => format!("{base} "),
            2 => format!(" {base}"),
            3 => format!("{base}/{}", r.ident(3)),
            4 => base[..base.len() - 1].to_string(),
            5 => r.string(10),
            6 => base.replace('/', "."),
            8 => format!("{base}{}", r.pick(&["/", "//", "s", "\0", "\n", "?", "#", "\u{200b}", "\u{feff}"])),
            9 => format!("{}{base}", r.pick(&["/", "mcp/", "\n", "$/", "./", "\u{feff}", "\0"])),
            10 => base.replacen('/', r.pick(&["//", "/ ", "", "_", ":", "\\"]), 1),
            7 => { let mut c: Vec<char> = base.chars().collect(); let i = r.below(c.len()); c[i] = r.char(); c.into_iter().collect() },
            _ => base.clone(), // a request name used for a notification and the other way round
        };
        let k = r.below(wire::N_REQ);
        let p = match r.below(4) { 0 => None, 1 => Some(json!({})), 2 => wire::request_k(r, k).2, _ => { let k = r.below(wire::N_NOTE); wire::notification_k(r, k).2 } };
        m.case((&name, p.as_ref().map(|p| p.to_string())), true);
        let (id, _) = wire::id(r);
        if !reqs.contains(&name.as_str()) {
            m.count("undefined-request-methods", 1);
            match parse_request(JSONRPCRequest::new(id.clone(), name.clone(), p.clone())) {
                Ok((_, q)) => m.fail("undefined-request-decoded", format!("{name:?} {p:?} decoded as {q:?}")),
                Err(e) => { m.check(e.error_code() == Some(ErrorCode::METHOD_NOT_FOUND), "undefined-request-code", || format!("{name:?} gave {e}")); },
            }
            let w = wire::wire_obj(Some(wire::id_json(&id)), Some(&name), p.clone());
            if let Ok(d) = StdioTransport::parse_message(w.to_string().as_bytes()) { m.fail("undefined-request-decoded", format!("{w} decoded as {d:?}")); }
        } else {
            // a defined name is never decoded as another one
            if let Ok((i, q)) = parse_request(JSONRPCRequest::new(id.clone(), name.clone(), p.clone())) { m.eq(&create_request(i, q).method, &name, "request-misread", || format!("{p:?}")); }
        }
        let w = wire::wire_obj(None, Some(&name), p.clone());
        if !notes.contains(&name.as_str()) {
            m.count("undefined-notification-methods", 1);
            match parse_notification(w.clone()) {
                Ok(q) => m.fail("undefined-notification-decoded", format!("{w} decoded as {q:?}")),
                Err(e) => { m.check(e.error_code() == Some(ErrorCode::METHOD_NOT_FOUND), "undefined-notification-code", || format!("{w} gave {e}")); },
            }
            if let Ok(d) = StdioTransport::parse_message(w.to_string().as_bytes()) { m.fail("undefined-notification-decoded", format!("{w} decoded as {d:?}")); }
        } else if let Ok(q) = parse_notification(w.clone()) {
            m.eq(&create_notification(q).method, &name, "notification-misread", || w.to_string());
        }
    }
}

/// Typed results: the JSON each must have, and back.
fn c01_results(m: &Arc<Mon>, r: &mut Rng) {
    m.stage("results");
    fn rt<T: serde::Serialize + serde::de::DeserializeOwned>(m: &Arc<Mon>, r: &mut Rng, name: &str, t: &T, want: Value) {
        m.count("typed-results", 1);
        m.case((name, want.to_string()), true);
        let got = serde_json::to_value(t).unwrap();
        m.check(got == want, &format!("result-encode:{name}"), || format!("got {got}, expected {want}"));
        let s = wire::scramble(r, &want);
        match serde_json::from_str::<T>(&s) {
            Ok(b) => { let again = serde_json::to_value(&b).unwrap(); m.check(again == want, &format!("result-decode:{name}"), || format!("{s} became {again}")); },
            Err(e) => m.fail(&format!("result-decode:{name}"), format!("{e}: {s}")),
        }
    }
    let os = |r: &mut Rng, o: &mut Map<String, Value>, k: &str| -> Option<String> { if r.bool() { let s = r.string(8); o.insert(k.into(), json!(s)); Some(s) } else { None } };
    for _ in 0..m.n(2500, 40_000) {
        if m.stopped() { return; }
        {
            use pmcp::types::auth::{AuthInfo, AuthScheme, OAuthInfo, PkceMethod};
            let mut o = Map::new();
            let (scheme, sv) = match r.below(4) { 0 => (AuthScheme::None, json!("none")), 1 => (AuthScheme::Bearer, json!("bearer")), 2 => (AuthScheme::OAuth2, json!("oAuth2")), _ => { let s = r.string(5); (AuthScheme::Custom(s.clone()), json!({"custom": s})) } };
            o.insert("scheme".into(), sv);
            let token = os(r, &mut o, "token");
            let oauth = r.bool().then(|| {
                let mut i = Map::new();
                let (a, t, c) = (r.string(8), r.string(8), r.string(5));
                i.insert("authUrl".into(), json!(a)); i.insert("tokenUrl".into(), json!(t)); i.insert("clientId".into(), json!(c));
                let scopes = r.bool().then(|| (0..r.below(3)).map(|_| r.string(4)).collect::<Vec<_>>());
                if let Some(s) = &scopes { i.insert("scopes".into(), json!(s)); }
                let redirect = os(r, &mut i, "redirectUri");
                let pkce = match r.below(3) { 0 => None, 1 => { i.insert("pkceMethod".into(), json!("plain")); Some(PkceMethod::Plain) }, _ => { i.insert("pkceMethod".into(), json!("S256")); Some(PkceMethod::S256) } };
                o.insert("oauth".into(), Value::Object(i));
                OAuthInfo { auth_url: a, token_url: t, client_id: c, scopes, redirect_uri: redirect, pkce_method: pkce }
            });
            let mut params = std::collections::HashMap::new();
            for k in 0..r.below(3) { let v = r.json(2); o.insert(format!("x{k}"), v.clone()); params.insert(format!("x{k}"), v); }
            rt(m, r, "AuthInfo", &AuthInfo { scheme, token, oauth, params }, Value::Object(o));
        }
        {
            let mut o = Map::new();
            let v = r.string(8);
            let (c, cv) = wire::server_caps(r);
            let (i, iv) = wire::implementation(r);
            o.insert("protocolVersion".into(), json!(v)); o.insert("capabilities".into(), cv); o.insert("serverInfo".into(), iv);
            let ins = os(r, &mut o, "instructions");
            rt(m, r, "InitializeResult", &InitializeResult { protocol_version: ProtocolVersion(v), capabilities: c, server_info: i, instructions: ins }, Value::Object(o));
        }
        {
            let (mut tools, mut tv) = (vec![], vec![]);
            for _ in 0..r.below(3) {
                let mut o = Map::new();
                let name = r.string(8); o.insert("name".into(), json!(name));
                let description = os(r, &mut o, "description");
                let s = r.json(3); o.insert("inputSchema".into(), s.clone());
                tools.push(ToolInfo { name, description, input_schema: s }); tv.push(Value::Object(o));
            }
            let mut o = Map::new();
            o.insert("tools".into(), Value::Array(tv));
            let nc = os(r, &mut o, "nextCursor");
            rt(m, r, "ListToolsResult", &ListToolsResult { tools, next_cursor: nc }, Value::Object(o));
        }
        {
            let (mut cs, mut cv) = (vec![], vec![]);
            for _ in 0..r.below(4) { let (c, v) = wire::content(r); cs.push(c); cv.push(v); }
            let e = r.bool();
            rt(m, r, "CallToolResult", &CallToolResult { content: cs.clone(), is_error: e }, json!({"content": cv, "isError": e}));
            rt(m, r, "ReadResourceResult", &ReadResourceResult { contents: cs }, json!({"contents": cv}));
        }
        {
            let mut o = Map::new();
            let d = os(r, &mut o, "description");
            let (mut ms, mut mv) = (vec![], vec![]);
            for _ in 0..r.below(3) { let (c, v) = wire::content(r); let (ro, rv) = wire::role(r); ms.push(PromptMessage { role: ro, content: c }); mv.push(json!({"role": rv, "content": v})); }
            o.insert("messages".into(), Value::Array(mv));
            rt(m, r, "GetPromptResult", &GetPromptResult { description: d, messages: ms }, Value::Object(o));
        }
        {
            let (mut ps, mut pv) = (vec![], vec![]);
            for _ in 0..r.below(3) {
                let mut o = Map::new();
                let name = r.string(6); o.insert("name".into(), json!(name));
                let description = os(r, &mut o, "description");
                let arguments = if r.bool() {
                    let (mut a, mut av) = (vec![], vec![]);
                    for _ in 0..r.below(3) {
                        let mut q = Map::new();
                        let an = r.string(6); q.insert("name".into(), json!(an));
                        let ad = os(r, &mut q, "description");
                        let req = r.bool(); q.insert("required".into(), json!(req));
                        a.push(PromptArgument { name: an, description: ad, required: req, completion: None }); av.push(Value::Object(q));
                    }
                    o.insert("arguments".into(), Value::Array(av)); Some(a)
                } else { None };
                ps.push(PromptInfo { name, description, arguments }); pv.push(Value::Object(o));
            }
            let mut o = Map::new();
            o.insert("prompts".into(), Value::Array(pv));
            let nc = os(r, &mut o, "nextCursor");
            rt(m, r, "ListPromptsResult", &ListPromptsResult { prompts: ps, next_cursor: nc }, Value::Object(o));
        }
        {
            let (mut a, mut av, mut b, mut bv) = (vec![], vec![], vec![], vec![]);
            for _ in 0..r.below(3) {
                let (u, n) = (r.string(8), r.string(8));
                let mut o = Map::new();
                o.insert("uri".into(), json!(u)); o.insert("name".into(), json!(n));
                let d = os(r, &mut o, "description"); let t = os(r, &mut o, "mimeType");
                let mut o2 = o.clone(); o2.remove("uri"); o2.insert("uriTemplate".into(), json!(u));
                a.push(ResourceInfo { uri: u.clone(), name: n.clone(), description: d.clone(), mime_type: t.clone() }); av.push(Value::Object(o));
                b.push(ResourceTemplate { uri_template: u, name: n, description: d, mime_type: t }); bv.push(Value::Object(o2));
            }
            let mut o = Map::new();
            let nc = os(r, &mut o, "nextCursor");
            let mut o2 = o.clone();
            o.insert("resources".into(), Value::Array(av)); o2.insert("resourceTemplates".into(), Value::Array(bv));
            rt(m, r, "ListResourcesResult", &ListResourcesResult { resources: a, next_cursor: nc.clone() }, Value::Object(o));
            rt(m, r, "ListResourceTemplatesResult", &ListResourceTemplatesResult { resource_templates: b, next_cursor: nc }, Value::Object(o2));
        }
        {
            let mut o = Map::new();
            let vals: Vec<String> = (0..r.below(4)).map(|_| r.string(6)).collect();
            o.insert("values".into(), json!(vals));
            let total = if r.bool() { let n = r.below(1000); o.insert("total".into(), json!(n)); Some(n) } else { None };
            let hm = r.bool(); o.insert("hasMore".into(), json!(hm));
            rt(m, r, "CompleteResult", &CompleteResult { completion: CompletionResult { values: vals, total, has_more: hm } }, json!({"completion": Value::Object(o)}));
        }
        {
            let mut o = Map::new();
            let (c, cv) = wire::content(r); o.insert("content".into(), cv);
            let md = r.string(6); o.insert("model".into(), json!(md));
            let usage = if r.bool() { let (a, b, c) = (r.u64() as u32, r.u64() as u32, r.u64() as u32); o.insert("usage".into(), json!({"inputTokens": a, "outputTokens": b, "totalTokens": c})); Some(TokenUsage { input_tokens: a, output_tokens: b, total_tokens: c }) } else { None };
            let sr = os(r, &mut o, "stopReason");
            rt(m, r, "CreateMessageResult", &CreateMessageResult { content: c, model: md, usage, stop_reason: sr }, Value::Object(o));
        }
    }
}

// ---------------------------------------------------------------- C02

fn decode_all(m: &Arc<Mon>, b: &[u8]) {
    let show = || String::from_utf8_lossy(&b[..b.len().min(400)]).into_owned();
    let val: Option<Value> = serde_json::from_slice(b).ok();
    let obj = val.as_ref().and_then(|v| v.as_object());
    let has = |k: &str| obj.is_some_and(|o| o.contains_key(k));
    let judge = |got: &TransportMessage, how: &str| {
        let ctx = || format!("{how} read {} as {got:?}", show());
        m.count("accepted", 1);
        if val.is_none() { m.fail("invalid-json-decoded", ctx()); return; }
        if obj.is_none() { m.fail("non-object-decoded", ctx()); return; }
        let o = obj.unwrap();
        match got {
            TransportMessage::Request { .. } => {
                m.check(has("method") && has("id"), "misread-request", ctx);
                m.check(o.get("id") == msg_id(got).as_ref(), "request-id-changed", ctx);
                m.check(o.get("method").and_then(|x| x.as_str()) == Some(&method_of(got)), "request-method-changed", ctx);
            },
            TransportMessage::Notification(_) => {
                m.check(has("method") && !has("id"), "misread-notification", ctx);
                m.check(o.get("method").and_then(|x| x.as_str()) == Some(&method_of(got)), "notification-method-changed", ctx);
            },
            TransportMessage::Response(resp) => {
                m.check(has("id") && (has("result") || has("error")) && !has("method"), "misread-response", ctx);
                m.check(o.get("id") == msg_id(got).as_ref(), "response-id-changed", ctx);
                match &resp.payload {
                    ResponsePayload::Result(v) => { m.check(o.get("result") == Some(v), "response-result-changed", ctx); },
                    ResponsePayload::Error(e) => {
                        let w = o.get("error");
                        m.check(w.and_then(|w| w.get("code")).and_then(|c| c.as_i64()) == Some(e.code as i64) && w.and_then(|w| w.get("message")).and_then(|c| c.as_str()) == Some(&e.message), "response-error-changed", ctx);
                    },
                }
            },
        }
    };
    match m.guard("decoder-panic", show, || StdioTransport::parse_message(b)) {
        Some(Ok(d)) => judge(&d, "parse_message"),
        Some(Err(_)) => m.count("rejected", 1),
        None => {},
    }
    if let Some(v) = &val {
        if let Some(Ok(n)) = m.guard("decoder-panic", show, || parse_notification(v.clone())) {
            // given directly to the notification decoder only the method and shape are judged
            m.check(has("method") && v["method"].as_str() == Some(&create_notification(n.clone()).method), "notification-method-changed", || format!("{} read as {n:?}", show()));
        }
        m.guard("decoder-panic", show, || BatchRequest::from_value(v.clone()));
    }
    if let Some(Ok(q)) = m.guard("decoder-panic", show, || serde_json::from_slice::<JSONRPCRequest>(b)) {
        let idv = wire::id_json(&q.id);
        let meth = q.method.clone();
        if obj.is_some() { m.check(has("id") && has("method") && obj.unwrap().get("id") == Some(&idv), "serde-request-misread", show); }
        if let Some(Ok((i, rq))) = m.guard("decoder-panic", show, || parse_request(q)) {
            m.check(wire::id_json(&i) == idv && create_request(i, rq).method == meth, "parse-request-changed", show);
        }
    }
    m.guard("decoder-panic", show, || {
        let _ = serde_json::from_slice::<JSONRPCResponse>(b);
        let _ = serde_json::from_slice::<JSONRPCNotification>(b);
        let _ = serde_json::from_slice::<TransportMessage>(b);
        let _ = serde_json::from_slice::<BatchResponse>(b);
    });
    if let Some(Ok(raw)) = m.guard("decoder-panic", show, || serde_json::from_slice::<RawMessage>(b)) {
        if let Some(o) = obj {
            let nn = |k: &str| o.get(k).is_some_and(|v| !v.is_null());
            match raw.message_type() {
                MessageType::Request => { m.check(has("id") && has("method") && !nn("result") && !nn("error"), "raw-misread-request", show); },
                MessageType::Notification => { m.check(!nn("id") && has("method"), "raw-misread-notification", show); },
                MessageType::Response => { m.check(has("id") && has("result") && !nn("method") && !nn("error"), "raw-misread-response", show); },
                MessageType::ErrorResponse => { m.check(has("id") && has("error") && !nn("method") && !nn("result"), "raw-misread-error", show); },
                MessageType::Invalid => {},
            }
        }
    }
}

fn c02(m: &Arc<Mon>) {
    let mut r = m.rng("c02");
    m.stage("fixed hostile inputs");
    let mut fixed: Vec<Vec<u8>> = vec![b"".to_vec(), b"null".to_vec(), b"[]".to_vec(), b"{}".to_vec(), b"\"method\"".to_vec(), b"0".to_vec(), b"[1]".to_vec(), b"{\"method\":".to_vec(), vec![0xff, 0xfe], vec![0xef, 0xbb, 0xbf, b'{', b'}'], vec![0u8; 100]];
    for d in [50usize, 126, 127, 128, 129, 1000, 100_000] {
        fixed.push(vec![b'['; d]);
        fixed.push(format!("{}{}", "[".repeat(d), "]".repeat(d)).into_bytes());
        fixed.push(format!("{}1{}", "{\"a\":".repeat(d), "}".repeat(d)).into_bytes());
        fixed.push(format!("{{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"tools/call\",\"params\":{{\"name\":\"x\",\"arguments\":{}{}}}}}", "[".repeat(d), "]".repeat(d)).into_bytes());
        fixed.push(format!("{{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":{}{}}}", "[".repeat(d), "]".repeat(d)).into_bytes());
    }
    fixed.push(format!("{{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"{}\"}}", "x".repeat(2_000_000)).into_bytes());
    for f in &fixed { m.case(f, true); decode_all(m, f); }
    m.stage("shapes");
    // every subset of members, with every sort of value for each
    let vals = |k: &str| -> Vec<Value> {
        match k {
            "jsonrpc" => vec![json!("2.0"), json!("1.0"), json!(2.0), Value::Null],
            "id" => vec![json!(1), json!("a"), Value::Null, json!(1.5), json!(u64::MAX), json!([1]), json!({"x":1}), json!(true), json!(-0.0)],
            "method" => vec![json!("ping"), json!("tools/list"), json!("tools/call"), json!("notifications/initialized"), json!("notifications/progress"), json!("notifications/cancelled"), json!("notifications/resources/updated"), json!(""), json!("nope"), json!(7), Value::Null, json!(["ping"])],
            "params" => vec![json!({}), json!([]), json!({"name":"x"}), json!({"progressToken":1,"progress":0.5}), json!({"requestId":1}), json!({"uri":"u"}), json!(3), Value::Null, json!(["x", {}])],
            "result" => vec![json!({}), Value::Null, json!(1)],
            _ => vec![json!({"code":1,"message":"m"}), json!({"code":1}), json!("err"), Value::Null, json!({"code":1.5,"message":"m"}), json!({"code": 99999999999i64, "message":"m"})],
        }
    };
    let keys = ["jsonrpc", "id", "method", "params", "result", "error"];
    for mask in 0..64usize {
        for _ in 0..m.n(200, 2500) {
            if m.stopped() { return; }
            let mut o = Map::new();
            for (i, k) in keys.iter().enumerate() {
                if mask >> i & 1 == 1 { let v = vals(k); o.insert(k.to_string(), v[r.below(v.len())].clone()); }
            }
            if r.chance(1, 6) { o.insert(r.ident(5), r.json(2)); }
            let t = wire::scramble(&mut r, &Value::Object(o.clone()));
            m.case(&t, true);
            m.count("shape-cases", 1);
            m.sample(&format!("members {mask}"), || t.clone());
            if let Ok(q) = serde_json::from_str::<pmcp::types::JSONRPCRequest>(&t) {
                m.check(q.validate().is_ok() == (o.get("jsonrpc") == Some(&json!("2.0"))), "validate", || t.clone());
                m.count("requests validated", 1);
            }
            decode_all(m, t.as_bytes());
            // none of the three shapes: must be an error
            let has = |k: &str| o.contains_key(k);
            let shape = has("method") || (has("id") && (has("result") || has("error")));
            if !shape && StdioTransport::parse_message(t.as_bytes()).is_ok() { m.fail("shapeless-decoded", t.clone()); }
            if r.chance(1, 8) {
                let a = format!("[{t}]");
                if StdioTransport::parse_message(a.as_bytes()).is_ok() { m.fail("array-decoded", a); }
            }
        }
    }
    m.stage("mutations");
    for _ in 0..m.n(60_000, 1_500_000) {
        if m.stopped() { return; }
        let g = wire::message(&mut r);
        let mut b = wire::scramble(&mut r, &g.json).into_bytes();
        for _ in 0..r.range(1, 4) {
            if b.is_empty() { break; }
            let i = r.below(b.len());
            match r.below(7) {
                0 => b[i] = r.u64() as u8,
                1 => { b.remove(i); },
                2 => b.insert(i, *r.pick(b"{}[]\",:\\0n \xff\xc3")),
                3 => b.truncate(i),
                4 => { let j = r.range(i, b.len()); let s = b[i..j].to_vec(); b.splice(i..i, s); },
                5 => { let j = r.range(i, b.len()); b.drain(i..j); },
                _ => { let x = r.bytes(4); b.splice(i..i, x); },
            }
        }
        m.case(&b, true);
        m.count("mutations", 1);
        decode_all(m, &b);
    }
    m.stage("random bytes and values");
    for _ in 0..m.n(10_000, 200_000) {
        if m.stopped() { return; }
        let b = if r.bool() { r.bytes(64) } else { r.json(4).to_string().into_bytes() };
        m.case(&b, b.len() > 2);
        decode_all(m, &b);
    }
    // structural mutations: one member renamed, retyped or removed anywhere in the tree
    m.stage("structural mutations");
    for _ in 0..m.n(30_000, 500_000) {
        if m.stopped() { return; }
        let g = wire::message(&mut r);
        let mut v = g.json.clone();
        fn walk(r: &mut Rng, v: &mut Value, depth: usize) {
            match v {
                Value::Object(o) if !o.is_empty() && (depth == 0 || r.chance(2, 3)) => {
                    let k = o.keys().nth(r.below(o.len())).unwrap().clone();
                    match r.below(4) {
                        0 => { o.remove(&k); },
                        1 => { let x = o.remove(&k).unwrap(); o.insert(r.ident(6), x); },
                        _ => walk(r, o.get_mut(&k).unwrap(), depth + 1),
                    }
                },
                _ => *v = r.json(2),
            }
        }
        walk(&mut r, &mut v, 0);
        let t = v.to_string();
        m.case(&t, true);
        m.count("structural-mutations", 1);
        decode_all(m, t.as_bytes());
    }
}

// ---------------------------------------------------------------- C04

fn c04(m: &Arc<Mon>) {
    let mut r = m.rng("c04");
    let defined: [(ErrorCode, i32); 9] = [(ErrorCode::PARSE_ERROR, -32700), (ErrorCode::INVALID_REQUEST, -32600), (ErrorCode::METHOD_NOT_FOUND, -32601), (ErrorCode::INVALID_PARAMS, -32602), (ErrorCode::INTERNAL_ERROR, -32603), (ErrorCode::REQUEST_TIMEOUT, -32001), (ErrorCode::UNSUPPORTED_CAPABILITY, -32002), (ErrorCode::AUTHENTICATION_REQUIRED, -32003), (ErrorCode::PERMISSION_DENIED, -32004)];
    m.stage("codes");
    for (c, n) in defined {
        m.case(("code", n), true);
        m.eq(&c.as_i32(), &n, "defined-code", || format!("{c:?}"));
        m.eq(&ErrorCode::from_i32(n), &c, "defined-code-back", || format!("{n}"));
        m.eq(&ErrorCode::from_i32(c.as_i32()), &c, "defined-code-roundtrip", || format!("{n}"));
    }
    let reserved = |c: i32| (-32099..=-32000).contains(&c) && !defined.iter().any(|d| d.1 == c);
    let probe = |m: &Arc<Mon>, c: i32| {
        m.case(("code", c), true);
        m.eq(&ErrorCode::other(c).as_i32(), &c, "other-code", || format!("{c}"));
        if !reserved(c) { m.eq(&ErrorCode::from_i32(c).as_i32(), &c, "code-not-preserved", || format!("{c}")); }
    };
    for c in -33000..=-31000 { probe(m, c); }
    for _ in 0..m.n(50_000, 1_000_000) { let c = r.u64() as i32; probe(m, c); }
    for c in [i32::MIN, i32::MIN + 1, i32::MAX, 0, 1, -1] { probe(m, c); }
    m.stage("errors");
    for i in 0..m.n(40_000, 600_000) {
        if m.stopped() { return; }
        let text = r.string(16);
        let code = match r.below(3) { 0 => r.pick(&defined).1, 1 => -32105 + r.below(120) as i32, _ => r.u64() as i32 };
        let data = if r.bool() { Some(r.json(3)) } else { None };
        // every way of making an error
        let (err, want): (Error, Option<(i32, String, Option<Value>)>) = match i % 22 {
            0 => (Error::protocol(ErrorCode::other(code), text.clone()), Some((code, text.clone(), None))),
            1 => { let d = data.clone().unwrap_or(json!({"k": 1})); (Error::protocol_with_data(ErrorCode::other(code), text.clone(), d.clone()), Some((code, text.clone(), Some(d)))) },
            2 => (Error::Protocol { code: ErrorCode(code), message: text.clone(), data: data.clone() }, Some((code, text.clone(), data.clone()))),
            3 => (Error::parse(text.clone()), Some((-32700, text.clone(), None))),
            4 => (Error::invalid_request(text.clone()), Some((-32600, text.clone(), None))),
            5 => (Error::invalid_params(text.clone()), Some((-32602, text.clone(), None))),
            6 => { let e = Error::method_not_found(text.clone()); (e, None) },
            7 => (Error::protocol_msg(text.clone()), Some((-32603, text.clone(), None))),
            8 => (Error::validation(text.clone()), None),
            9 => (Error::internal(text.clone()), None),
            10 => (Error::not_found(text.clone()), None),
            11 => (Error::authentication(text.clone()), None),
            12 => (Error::capability(text.clone()), None),
            13 => (Error::resource_not_found(text.clone()), None),
            14 => (Error::cancelled(text.clone()), None),
            15 => (Error::Timeout(r.u64()), None),
            16 => (Error::InvalidState(text.clone()), None),
            17 => (Error::Cancelled, None),
            18 => (Error::UnsupportedCapability(text.clone()), None),
            19 if r.bool() => (std::io::Error::other(text.clone()).into(), None),
            19 => (pmcp::error::TransportError::InvalidMessage(text.clone()).into(), None),
            20 => (pmcp::error::TransportError::ConnectionClosed.into(), None),
            _ => (serde_json::from_str::<Value>("{").unwrap_err().into(), None),
        };
        let shown = err.to_string();
        m.case((i % 22, &text, code, data.as_ref().map(|d| d.to_string())), true);
        m.sample(&format!("variant{}", i % 22), || shown.clone());
        let is_protocol = matches!(err, Error::Protocol { .. });
        // carriers whose text the user supplied must show it
        if [8, 9, 10, 11, 12, 16, 18, 19].contains(&(i % 22)) { m.check(shown.contains(&text), "text-lost", || format!("{text:?} not in {shown:?}")); }
        let proto = match &err { Error::Protocol { code, message, data } => Some((code.as_i32(), message.clone(), data.clone())), _ => None };
        if let Some((c, msg, d)) = &want {
            m.check(proto.as_ref() == Some(&(*c, msg.clone(), d.clone())), "constructor", || format!("{proto:?} vs {want:?}"));
            m.check(err.is_error_code(ErrorCode(*c)) && err.error_code() == Some(ErrorCode(*c)), "is-error-code", || format!("{err:?}"));
        }
        if i % 22 == 6 { m.check(proto.as_ref().is_some_and(|p| p.0 == -32601 && p.1.contains(&text)), "method-not-found", || format!("{proto:?}")); }
        let j = JSONRPCError::from(err);
        m.count(if is_protocol { "protocol errors" } else { "other errors" }, 1);
        if let Some(d) = &data {
            let w = JSONRPCError::with_data(code, text.clone(), d.clone());
            m.check(w.code == code && w.message == text && w.data.as_ref() == Some(d) && w.to_string().contains(&text), "error-with-data", || format!("{w:?}"));
        }
        if is_protocol {
            let (c, msg, d) = proto.unwrap();
            m.check(j.code == c && j.message == msg && j.data == d, "protocol-error-to-wire", || format!("{j:?} from {c} {msg:?} {d:?}"));
        } else {
            m.check(j.code == -32603 && j.message == shown && j.data.is_none(), "other-error-to-wire", || format!("{j:?} from {shown:?}"));
        }
        // across the wire: serialise in an error response, parse, read
        let (id, _) = wire::id(&mut r);
        let resp: JSONRPCResponse = JSONRPCResponse::error(id.clone(), j.clone());
        let bytes = StdioTransport::serialize_message(&TransportMessage::Response(resp)).unwrap();
        match StdioTransport::parse_message(&bytes) {
            Ok(TransportMessage::Response(b)) => match b.payload {
                ResponsePayload::Error(e) => {
                    // data null and no data are the same JSON-RPC error
                    let nn = |d: &Option<Value>| d.clone().filter(|v| !v.is_null());
                    m.check(e.code == j.code && e.message == j.message && nn(&e.data) == nn(&j.data), "wire-error-changed", || format!("{j:?} became {e:?}"));
                    let back = Error::from_jsonrpc_error(e.clone());
                    match &back {
                        Error::Protocol { code, message, data } => {
                            let code_ok = code.as_i32() == j.code || (reserved(j.code) && *code == ErrorCode::INTERNAL_ERROR);
                            m.check(code_ok && *message == j.message && nn(data) == nn(&j.data), "wire-to-error", || format!("{j:?} became {back:?}"));
                            m.check(nn(data) == nn(&e.data) && data.is_some() == e.data.is_some(), "wire-to-error-data", || format!("{e:?} became {back:?}"));
                        },
                        _ => m.fail("wire-to-error-kind", format!("{e:?} became {back:?}")),
                    }
                },
                p => m.fail("wire-error-lost", format!("{p:?}")),
            },
            o => m.fail("wire-error-undecodable", format!("{o:?}")),
        }
        let _: RequestId = id;
    }
}
