//! A server whose handlers record every call and answer by a fixed rule, plus the prediction of
//! what each request must cause, written from the protocol and the handlers alone.
use crate::wire;
use crate::Rng;
use async_trait::async_trait;
use pmcp::server::cancellation::RequestHandlerExtra;
use pmcp::types::protocol::*;
use pmcp::types::ServerCapabilities;
use pmcp::{Error, ErrorCode, PromptHandler, ResourceHandler, SamplingHandler, Server, ToolHandler};
use serde_json::{json, Map, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub what: &'static str,
    pub name: String,
    pub args: Value,
    pub request_id: String,
}
pub type Calls = Arc<Mutex<Vec<Call>>>;

#[derive(Clone, Debug)]
pub enum Want {
    /// exactly this result
    Result(Value),
    /// a result satisfying a named condition
    Initialize,
    Tools(Vec<String>),
    Prompts(Vec<String>),
    /// an error; code when it must be this one, text its message must contain, data
    Error { code: Option<i32>, text: String, exact: bool, data: Option<Value> },
    AnyError,
    /// any answer at all
    Any,
}

#[derive(Clone, Debug, Default)]
pub struct Spec {
    pub name: String,
    pub version: String,
    pub tools: Vec<String>,
    pub prompts: Vec<String>,
    pub resources: bool,
    pub sampling: bool,
    pub caps: (ServerCapabilities, Value),
}

fn digest(v: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish() >> 12
}
/// canonical text: object members sorted
pub fn canon(v: &Value) -> String {
    match v {
        Value::Object(m) => {
            let mut k: Vec<_> = m.iter().collect();
            k.sort_by(|a, b| a.0.cmp(b.0));
            format!("{{{}}}", k.iter().map(|(k, v)| format!("{:?}:{}", k, canon(v))).collect::<Vec<_>>().join(","))
        },
        Value::Array(a) => format!("[{}]", a.iter().map(canon).collect::<Vec<_>>().join(",")),
        o => o.to_string(),
    }
}

/// How a handler fails, taken from the input it was given.
fn failure(key: &str, tag: &str) -> Option<(Error, Want)> {
    // "!kind:text" anywhere in the input asks for a failure
    let at = key.find("!fail-")?;
    let rest = &key[at + 6..];
    let kind = rest.chars().next()?;
    let text = format!("{tag} says {}", digest(&key));
    Some(match kind {
        'i' => (Error::internal(text.clone()), Want::Error { code: Some(-32603), text, exact: false, data: None }),
        'v' => (Error::validation(text.clone()), Want::Error { code: Some(-32603), text, exact: false, data: None }),
        'n' => (Error::not_found(text.clone()), Want::Error { code: Some(-32603), text, exact: false, data: None }),
        'p' => (Error::invalid_params(text.clone()), Want::Error { code: Some(-32602), text, exact: true, data: None }),
        // any other error is reported as an internal one carrying its text
        'c' => (Error::Cancelled, Want::Error { code: None, text: Error::Cancelled.to_string(), exact: false, data: None }),
        't' => { let e = Error::Timeout(digest(&key) % 100_000); let text = e.to_string(); (e, Want::Error { code: None, text, exact: false, data: None }) },
        'a' => (Error::Authentication(text.clone()), Want::Error { code: None, text, exact: false, data: None }),
        'u' => (Error::UnsupportedCapability(text.clone()), Want::Error { code: None, text, exact: false, data: None }),
        's' => (Error::InvalidState(text.clone()), Want::Error { code: None, text, exact: false, data: None }),
        'o' => (Error::Transport(pmcp::error::TransportError::ConnectionClosed), Want::Error { code: None, text: pmcp::error::TransportError::ConnectionClosed.to_string(), exact: false, data: None }),
        'j' => { let e = Error::from(serde_json::from_str::<u8>("{").unwrap_err()); let text = e.to_string(); (e, Want::Error { code: None, text, exact: false, data: None }) },
        'd' => { let d = json!({"why": [1, text]}); (Error::protocol_with_data(ErrorCode::other(-31000), text.clone(), d.clone()), Want::Error { code: Some(-31000), text, exact: true, data: Some(d) }) },
        _ => (Error::protocol(ErrorCode::PERMISSION_DENIED, text.clone()), Want::Error { code: Some(-32004), text, exact: true, data: None }),
    })
}

async fn pause(v: &Value) {
    // "delay" (ms, virtual or real) and "yields" ask the handler to take its time
    if let Some(n) = v.get("yields").and_then(|x| x.as_u64()) {
        for _ in 0..n { tokio::task::yield_now().await; }
    }
    if let Some(n) = v.get("delay").and_then(|x| x.as_u64()) {
        tokio::time::sleep(std::time::Duration::from_millis(n)).await;
    }
}

struct Tool { name: String, calls: Calls }
struct Prompt { name: String, calls: Calls }
struct Res { calls: Calls }
struct Samp { calls: Calls }

pub fn tool_result(name: &str, args: &Value) -> Result<Value, (Error, Want)> {
    if let Some(f) = failure(&canon(args), name) { return Err(f); }
    let d = digest(&(name, canon(args)));
    Ok(match d % 5 {
        0 => Value::Null,
        1 => json!(d),
        2 => json!(format!("{name}\n\"{d}\"")),
        3 => json!([name, args]),
        _ => json!({"tool": name, "args": args, "d": d}),
    })
}
pub fn prompt_result(name: &str, args: &HashMap<String, String>) -> Result<(GetPromptResult, Value), (Error, Want)> {
    let key = canon(&json!(args));
    if let Some(f) = failure(&key, name) { return Err(f); }
    let mut r = Rng::new(digest(&(name, &key)));
    let mut m = Map::new();
    let d = if r.bool() { let s = r.string(8); m.insert("description".into(), json!(s)); Some(s) } else { None };
    let (mut ms, mut mv) = (vec![], vec![]);
    for _ in 0..r.range(1, 3) { let (c, v) = wire::content(&mut r); let (ro, rv) = wire::role(&mut r); ms.push(PromptMessage { role: ro, content: c }); mv.push(json!({"role": rv, "content": v})); }
    m.insert("messages".into(), Value::Array(mv));
    Ok((GetPromptResult { description: d, messages: ms }, Value::Object(m)))
}
pub fn read_result(uri: &str) -> Result<(ReadResourceResult, Value), (Error, Want)> {
    if let Some(f) = failure(uri, "reader") { return Err(f); }
    let mut r = Rng::new(digest(&uri));
    let (mut cs, mut cv) = (vec![], vec![]);
    for _ in 0..r.range(1, 3) { let (c, v) = wire::content(&mut r); cs.push(c); cv.push(v); }
    Ok((ReadResourceResult { contents: cs }, json!({"contents": cv})))
}
pub fn list_result(cursor: &Option<String>) -> Result<(ListResourcesResult, Value), (Error, Want)> {
    if let Some(c) = cursor { if let Some(f) = failure(c, "lister") { return Err(f); } }
    let mut r = Rng::new(digest(&cursor));
    let (mut a, mut av) = (vec![], vec![]);
    for _ in 0..r.range(0, 3) {
        let (u, n) = (r.string(8), r.string(8));
        let mut o = Map::new();
        o.insert("uri".into(), json!(u)); o.insert("name".into(), json!(n));
        let d = if r.bool() { let s = r.string(5); o.insert("description".into(), json!(s)); Some(s) } else { None };
        let t = if r.bool() { let s = r.string(5); o.insert("mimeType".into(), json!(s)); Some(s) } else { None };
        a.push(ResourceInfo { uri: u, name: n, description: d, mime_type: t }); av.push(Value::Object(o));
    }
    let mut o = Map::new();
    o.insert("resources".into(), Value::Array(av));
    let nc = if r.bool() { let s = r.string(5); o.insert("nextCursor".into(), json!(s)); Some(s) } else { None };
    Ok((ListResourcesResult { resources: a, next_cursor: nc }, Value::Object(o)))
}
pub fn sample_result(p: &Value) -> Result<(CreateMessageResult, Value), (Error, Want)> {
    let key = canon(p);
    if let Some(f) = failure(&key, "sampler") { return Err(f); }
    let mut r = Rng::new(digest(&key));
    let mut o = Map::new();
    let (c, cv) = wire::content(&mut r); o.insert("content".into(), cv);
    let md = r.string(6); o.insert("model".into(), json!(md));
    let sr = if r.bool() { let s = r.string(5); o.insert("stopReason".into(), json!(s)); Some(s) } else { None };
    Ok((CreateMessageResult { content: c, model: md, usage: None, stop_reason: sr }, Value::Object(o)))
}

fn log(c: &Calls, what: &'static str, name: &str, args: Value, extra: &RequestHandlerExtra) {
    c.lock().unwrap().push(Call { what, name: name.into(), args, request_id: extra.request_id.clone() });
}

#[async_trait]
impl ToolHandler for Tool {
    async fn handle(&self, args: Value, extra: RequestHandlerExtra) -> pmcp::Result<Value> {
        log(&self.calls, "tool", &self.name, args.clone(), &extra);
        pause(&args).await;
        tool_result(&self.name, &args).map_err(|e| e.0)
    }
}
#[async_trait]
impl PromptHandler for Prompt {
    async fn handle(&self, args: HashMap<String, String>, extra: RequestHandlerExtra) -> pmcp::Result<GetPromptResult> {
        log(&self.calls, "prompt", &self.name, json!(args), &extra);
        tokio::task::yield_now().await;
        prompt_result(&self.name, &args).map(|r| r.0).map_err(|e| e.0)
    }
}
#[async_trait]
impl ResourceHandler for Res {
    async fn read(&self, uri: &str, extra: RequestHandlerExtra) -> pmcp::Result<ReadResourceResult> {
        log(&self.calls, "read", uri, Value::Null, &extra);
        tokio::task::yield_now().await;
        read_result(uri).map(|r| r.0).map_err(|e| e.0)
    }
    async fn list(&self, cursor: Option<String>, extra: RequestHandlerExtra) -> pmcp::Result<ListResourcesResult> {
        log(&self.calls, "list", "", json!(cursor), &extra);
        list_result(&cursor).map(|r| r.0).map_err(|e| e.0)
    }
}
#[async_trait]
impl SamplingHandler for Samp {
    async fn create_message(&self, p: CreateMessageParams, extra: RequestHandlerExtra) -> pmcp::Result<CreateMessageResult> {
        let v = serde_json::to_value(&p).unwrap();
        log(&self.calls, "sample", "", v.clone(), &extra);
        sample_result(&v).map(|r| r.0).map_err(|e| e.0)
    }
}

impl Spec {
    pub fn random(r: &mut Rng) -> Self {
        let mut caps = wire::server_caps(r);
        let sampling = r.chance(2, 3);
        if sampling {
            // the builder announces sampling itself
            caps.1.as_object_mut().unwrap().insert("sampling".into(), json!({}));
            caps.0.sampling = Some(Default::default());
        }
        let names = |r: &mut Rng| { let n = r.below(4); let mut v: Vec<String> = (0..n).map(|_| if r.chance(1, 4) { r.string(6) } else { r.ident(6) }).collect(); if !v.is_empty() && r.chance(1, 6) { let x = r.pick(&v).clone(); v.push(match r.below(4) { 0 => x.to_uppercase(), 1 => format!("{x} "), 2 => format!("{x}{x}"), _ => format!("{x}_") }); } v.sort(); v.dedup(); v };
        Spec { name: r.string(6), version: r.string(5), tools: names(r), prompts: names(r), resources: r.chance(3, 4), sampling, caps }
    }
    /// Everything available and announced.
    pub fn full(r: &mut Rng) -> Self {
        let caps = ServerCapabilities { tools: Some(Default::default()), prompts: Some(Default::default()), resources: Some(Default::default()), logging: Some(Default::default()), completions: Some(Default::default()), sampling: Some(Default::default()), experimental: None };
        let v = json!({"tools": {}, "prompts": {}, "resources": {}, "logging": {}, "completions": {}, "sampling": {}});
        Spec { name: r.ident(6), version: "1".into(), tools: vec!["alpha".into(), "beta".into(), "γ tool".into()], prompts: vec!["one".into(), "two".into()], resources: true, sampling: true, caps: (caps, v) }
    }
    pub fn build(&self, r: &mut Rng) -> (Server, Calls) {
        let calls: Calls = Arc::default();
        let mut b = Server::builder().name(self.name.clone()).version(self.version.clone()).capabilities(self.caps.0.clone());
        let mut ts = self.tools.clone();
        r.shuffle(&mut ts);
        for t in &ts {
            // a name registered twice counts once; the later handler serves it
            if r.chance(1, 5) { b = b.tool(t.clone(), Tool { name: format!("shadowed {t}"), calls: calls.clone() }); }
            b = b.tool(t.clone(), Tool { name: t.clone(), calls: calls.clone() });
        }
        for p in &self.prompts {
            if r.chance(1, 5) { b = b.prompt(p.clone(), Prompt { name: format!("shadowed {p}"), calls: calls.clone() }); }
            b = b.prompt(p.clone(), Prompt { name: p.clone(), calls: calls.clone() });
        }
        if self.resources { b = b.resources(Res { calls: calls.clone() }); }
        if self.sampling { b = b.sampling(Samp { calls: calls.clone() }); }
        (b.build().expect("server builds"), calls)
    }

    /// A request (method, params) a client of this server might send.
    pub fn request(&self, r: &mut Rng) -> (&'static str, Option<Value>) {
        let fail = |r: &mut Rng| if r.chance(1, 3) { format!("!fail-{}", r.pick(&["i", "v", "n", "p", "d", "x", "c", "t", "a", "u", "s", "o", "j"])) } else { String::new() };
        // a name like a registered one
        let near = |r: &mut Rng, names: &[String]| {
            if names.is_empty() { return r.string(6); }
            let n = r.pick(names).clone();
            match r.below(8) {
                0 => n.to_uppercase(), 1 => n.to_lowercase(), 2 => format!("{n} "), 3 => format!(" {n}"), 4 => format!("{n}{}", r.char()),
                5 => { let mut c: Vec<char> = n.chars().collect(); if !c.is_empty() { let i = r.below(c.len()); c.remove(i); } c.into_iter().collect() },
                6 => n.chars().rev().collect(), _ => format!("{}/{n}", self.name),
            }
        };
        match r.below(14) {
            0..=4 => {
                let name = if !self.tools.is_empty() && r.chance(5, 6) { r.pick(&self.tools).clone() } else if r.bool() { near(r, &self.tools) } else if r.chance(1, 4) { near(r, &self.prompts) } else { r.string(6) };
                let mut a = if r.chance(1, 4) { r.json(3) } else { r.object(3) };
                let f = fail(r);
                if !f.is_empty() { a = json!({"x": f, "y": a}); }
                if let Some(o) = a.as_object_mut() { if r.chance(1, 2) { o.insert("yields".into(), json!(r.below(20))); } }
                ("tools/call", Some(json!({"name": name, "arguments": a})))
            },
            5 | 6 => {
                let name = if !self.prompts.is_empty() && r.chance(5, 6) { r.pick(&self.prompts).clone() } else if r.bool() { near(r, &self.prompts) } else if r.chance(1, 4) { near(r, &self.tools) } else { r.string(6) };
                let mut a: HashMap<String, String> = (0..r.below(3)).map(|_| (r.string(5), r.string(5))).collect();
                let f = fail(r);
                if !f.is_empty() { a.insert("k".into(), f); }
                ("prompts/get", Some(json!({"name": name, "arguments": a})))
            },
            7 | 8 => { let f = fail(r); ("resources/read", Some(json!({"uri": format!("file:///{}{f}", r.string(8))}))) },
            9 => { if r.bool() { let f = fail(r); ("resources/list", Some(json!({"cursor": format!("{}{f}", r.string(5))}))) } else { ("resources/list", Some(json!({}))) } },
            10 => (*r.pick(&["tools/list", "prompts/list", "resources/templates/list"]), Some(json!({}))),
            11 => { let (_, mut v) = wire::create_message(r); let f = fail(r); if !f.is_empty() { v["systemPrompt"] = json!(f); } ("sampling/createMessage", Some(v)) },
            12 => { let k = *r.pick(&[8usize, 9, 10, 11, 12]); let (_, m, p) = wire::request_k(r, k); (m, p) },
            _ => { let (_, m, p) = wire::request_k(r, 0); (m, p) },
        }
    }

    /// What a request must cause: at most one handler call, and its answer.
    pub fn predict(&self, id: &Value, method: &str, params: &Option<Value>) -> (Option<Call>, Want) {
        let p = params.clone().unwrap_or(json!({}));
        let rid = match id { Value::String(s) => s.clone(), o => o.to_string() };
        let call = |what, name: &str, args: Value| Some(Call { what, name: name.into(), args, request_id: rid.clone() });
        match method {
            "initialize" => (None, Want::Initialize),
            "tools/list" => (None, Want::Tools(self.tools.clone())),
            "prompts/list" => (None, Want::Prompts(self.prompts.clone())),
            "tools/call" => {
                let n = p["name"].as_str().unwrap_or("").to_string();
                let a = p.get("arguments").cloned().unwrap_or(Value::Null);
                if !self.tools.contains(&n) { return (None, Want::AnyError); }
                let w = match tool_result(&n, &a) { Ok(v) => Want::Result(json!({"content": [{"type": "text", "text": v}], "isError": false})), Err((_, w)) => w };
                (call("tool", &n, a), w)
            },
            "prompts/get" => {
                let n = p["name"].as_str().unwrap_or("").to_string();
                if !self.prompts.contains(&n) { return (None, Want::AnyError); }
                let a: HashMap<String, String> = serde_json::from_value(p.get("arguments").cloned().unwrap_or(json!({}))).unwrap();
                let w = match prompt_result(&n, &a) { Ok((_, v)) => Want::Result(v), Err((_, w)) => w };
                (call("prompt", &n, json!(a)), w)
            },
            "resources/read" => {
                if !self.resources { return (None, Want::AnyError); }
                let u = p["uri"].as_str().unwrap_or("").to_string();
                let w = match read_result(&u) { Ok((_, v)) => Want::Result(v), Err((_, w)) => w };
                (call("read", &u, Value::Null), w)
            },
            "resources/list" => {
                if !self.resources { return (None, Want::Result(json!({"resources": []}))); }
                let c: Option<String> = p.get("cursor").and_then(|c| c.as_str()).map(String::from);
                let w = match list_result(&c) { Ok((_, v)) => Want::Result(v), Err((_, w)) => w };
                (call("list", "", json!(c)), w)
            },
            "sampling/createMessage" => {
                if !self.sampling { return (None, Want::AnyError); }
                let w = match sample_result(&p) { Ok((_, v)) => Want::Result(v), Err((_, w)) => w };
                (call("sample", "", p), w)
            },
            "resources/templates/list" => (None, Want::Result(json!({"resourceTemplates": []}))),
            "completion/complete" => (None, Want::Result(json!({"completion": {"values": [], "hasMore": false}}))),
            "roots/list" | "elicitation/elicitInput" => (None, Want::AnyError),
            // acknowledged with an object
            _ => (None, Want::Result(json!({}))),
        }
    }
    /// Whether a response (wire JSON) is what was wanted.
    pub fn accepts(&self, id: &Value, want: &Want, resp: &Value) -> Result<(), String> {
        if resp.get("id") != Some(id) { return Err(format!("id {:?}, not {id}", resp.get("id"))); }
        if resp.get("jsonrpc") != Some(&json!("2.0")) { return Err("no version tag".into()); }
        if resp.get("result").is_some() == resp.get("error").is_some() { return Err("not exactly one of result and error".into()); }
        let sorted = |v: &Value, k: &str| -> Option<Vec<String>> { let mut x: Vec<String> = v.get(k)?.as_array()?.iter().map(|t| t["name"].as_str().unwrap_or("?").to_string()).collect(); x.sort(); Some(x) };
        match (want, resp.get("result"), resp.get("error")) {
            (Want::Result(w), Some(g), _) => {
                // a tool's value is carried as JSON text
                if let (Some(wv), Some(Value::String(t))) = (w.pointer("/content/0/text"), g.pointer("/content/0/text")) {
                    if w.get("isError").is_some() {
                        let gv: Value = serde_json::from_str(t).map_err(|e| format!("tool text {t:?}: {e}"))?;
                        let same = &gv == wv && g["content"].as_array().map(|a| a.len()) == Some(1) && g["isError"] == json!(false) && g["content"][0]["type"] == json!("text");
                        return if same { Ok(()) } else { Err(format!("tool result {g}, wanted {wv}")) };
                    }
                }
                if g == w { Ok(()) } else { Err(format!("result {g}, wanted {w}")) }
            },
            (Want::Initialize, Some(g), _) => {
                let v = g["protocolVersion"].as_str().unwrap_or("");
                if !pmcp::SUPPORTED_PROTOCOL_VERSIONS.contains(&v) { return Err(format!("version {v:?}")); }
                if g["serverInfo"] != json!({"name": self.name, "version": self.version}) || g["capabilities"] != self.caps.1 { return Err(format!("initialize result {g}, wanted {} {}", self.name, self.caps.1)); }
                Ok(())
            },
            (Want::Tools(t), Some(g), _) => { let mut t = t.clone(); t.sort(); if sorted(g, "tools") == Some(t.clone()) { Ok(()) } else { Err(format!("{g}, wanted {t:?}")) } },
            (Want::Prompts(t), Some(g), _) => { let mut t = t.clone(); t.sort(); if sorted(g, "prompts") == Some(t.clone()) { Ok(()) } else { Err(format!("{g}, wanted {t:?}")) } },
            (Want::Error { code, text, exact, data }, _, Some(e)) => {
                let msg = e["message"].as_str().unwrap_or("");
                let ok = code.is_none_or(|c| e["code"] == json!(c)) && (if *exact { msg == text } else { msg.contains(text.as_str()) }) && data.as_ref().is_none_or(|d| e.get("data") == Some(d));
                if ok { Ok(()) } else { Err(format!("error {e}, wanted {want:?}")) }
            },
            (Want::Any, r, e) => if r.is_some() != e.is_some() { Ok(()) } else { Err("not one of result and error".into()) },
            (Want::AnyError, _, Some(e)) => { if e["code"].is_i64() && e["message"].is_string() { Ok(()) } else { Err(format!("error {e}")) } },
            _ => Err(format!("{resp}, wanted {want:?}")),
        }
    }
}

/// Performs the client operation a (method, params) pair stands for.
pub async fn perform<T: pmcp::Transport>(c: &pmcp::Client<T>, method: &str, p: &Option<Value>) -> pmcp::Result<Value> {
    let p = p.clone().unwrap_or(json!({}));
    let text = |k: &str| p[k].as_str().unwrap_or("").to_string();
    let cursor = || p.get("cursor").and_then(|c| c.as_str()).map(String::from);
    fn j<T: serde::Serialize>(t: T) -> Value { serde_json::to_value(t).unwrap() }
    Ok(match method {
        "ping" => { c.ping().await?; json!({}) },
        "logging/setLevel" => { c.set_logging_level(serde_json::from_value(p["level"].clone()).unwrap()).await?; json!({}) },
        "tools/list" => j(c.list_tools(cursor()).await?),
        "tools/call" => j(c.call_tool(text("name"), p.get("arguments").cloned().unwrap_or(Value::Null)).await?),
        "prompts/list" => j(c.list_prompts(cursor()).await?),
        "prompts/get" => j(c.get_prompt(text("name"), serde_json::from_value(p.get("arguments").cloned().unwrap_or(json!({}))).unwrap()).await?),
        "resources/list" => j(c.list_resources(cursor()).await?),
        "resources/templates/list" => j(c.list_resource_templates(cursor()).await?),
        "resources/read" => j(c.read_resource(text("uri")).await?),
        "resources/subscribe" => { c.subscribe_resource(text("uri")).await?; json!({}) },
        "resources/unsubscribe" => { c.unsubscribe_resource(text("uri")).await?; json!({}) },
        "completion/complete" => j(c.complete(serde_json::from_value(p).unwrap()).await?),
        "sampling/createMessage" => j(c.create_message(serde_json::from_value(p).unwrap()).await?),
        m => panic!("no client operation for {m}"),
    })
}
/// What a client operation returned, as the response it stands for (with the id "?").
pub fn as_wire(g: &pmcp::Result<Value>) -> Value {
    match g {
        Ok(v) => json!({"jsonrpc": "2.0", "id": "?", "result": v}),
        Err(Error::Protocol { code, message, data }) => {
            let mut e = json!({"code": code.as_i32(), "message": message});
            if let Some(d) = data { e["data"] = d.clone(); }
            json!({"jsonrpc": "2.0", "id": "?", "error": e})
        },
        Err(e) => json!({"jsonrpc": "2.0", "id": "?", "error": {"code": -32603, "message": e.to_string()}}),
    }
}
