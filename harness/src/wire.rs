//! Typed protocol messages generated together with the JSON the protocol prescribes for them,
//! written here independently of the code under test.
use crate::Rng;
use pmcp::types::elicitation::{ElicitInputRequest, ElicitInputResponse, InputType, InputValidation, SelectOption};
use pmcp::types::capabilities::*;
use pmcp::types::protocol::*;
use pmcp::types::{JSONRPCError, JSONRPCResponse, RequestId, TransportMessage};
use serde_json::{json, Map, Value};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Request, Response, Notification }

#[derive(Clone, Debug)]
pub struct Gen {
    pub msg: TransportMessage,
    pub json: Value,
    pub kind: Kind,
    pub method: String,
}

pub fn kind_of(m: &TransportMessage) -> Kind {
    match m {
        TransportMessage::Request { .. } => Kind::Request,
        TransportMessage::Response(_) => Kind::Response,
        TransportMessage::Notification(_) => Kind::Notification,
    }
}

pub fn id(r: &mut Rng) -> (RequestId, Value) {
    match r.below(9) {
        0 => (RequestId::Number(i64::MIN), json!(i64::MIN)),
        1 => (RequestId::Number(i64::MAX), json!(i64::MAX)),
        2 => { let n = r.u64() as i64; (RequestId::Number(n), json!(n)) },
        3 => { let n = r.below(1000) as i64; (RequestId::Number(n), json!(n)) },
        4 => { let n = r.below(1000).to_string(); (RequestId::String(n.clone()), json!(n)) },
        5 => (RequestId::String(String::new()), json!("")),
        _ => { let s = r.string(12); (RequestId::String(s.clone()), json!(s)) },
    }
}
pub fn id_json(i: &RequestId) -> Value {
    match i { RequestId::String(s) => json!(s), RequestId::Number(n) => json!(n) }
}

fn put(m: &mut Map<String, Value>, k: &str, v: impl Into<Value>) { m.insert(k.to_string(), v.into()); }
/// optional string
fn ostr(r: &mut Rng, m: &mut Map<String, Value>, k: &str) -> Option<String> {
    if r.bool() { let s = r.string(10); put(m, k, s.clone()); Some(s) } else { None }
}
fn of64(r: &mut Rng, m: &mut Map<String, Value>, k: &str) -> Option<f64> {
    if r.bool() { let f = float(r); put(m, k, f); Some(f) } else { None }
}
/// A float whose shortest text parses back exactly with serde_json.
pub fn float(r: &mut Rng) -> f64 {
    (r.below(2_000_001) as f64 - 1_000_000.0) / 16.0
}
fn nonnull(r: &mut Rng) -> Value {
    loop { let v = r.json(3); if !v.is_null() { return v; } }
}
fn oval(r: &mut Rng, m: &mut Map<String, Value>, k: &str) -> Option<Value> {
    if r.bool() { let v = nonnull(r); put(m, k, v.clone()); Some(v) } else { None }
}
fn strings(r: &mut Rng) -> Vec<String> { (0..r.below(4)).map(|_| r.string(6)).collect() }
fn ostrings(r: &mut Rng, m: &mut Map<String, Value>, k: &str) -> Option<Vec<String>> {
    if r.bool() { let v = strings(r); put(m, k, v.clone()); Some(v) } else { None }
}
fn obool(r: &mut Rng, m: &mut Map<String, Value>, k: &str) -> Option<bool> {
    if r.bool() { let v = r.bool(); put(m, k, v); Some(v) } else { None }
}
fn sub<T>(r: &mut Rng, m: &mut Map<String, Value>, k: &str, f: impl FnOnce(&mut Rng) -> (T, Value)) -> Option<T> {
    if r.bool() { let (t, v) = f(r); m.insert(k.into(), v); Some(t) } else { None }
}
fn list<T>(r: &mut Rng, max: usize, f: impl Fn(&mut Rng) -> (T, Value)) -> (Vec<T>, Value) {
    let n = r.below(max + 1);
    let (a, b): (Vec<T>, Vec<Value>) = (0..n).map(|_| f(r)).unzip();
    (a, Value::Array(b))
}

pub fn content(r: &mut Rng) -> (Content, Value) {
    match r.below(3) {
        0 => { let t = r.string(20); (Content::Text { text: t.clone() }, json!({"type":"text","text":t})) },
        1 => { let (d, t) = (r.string(20), r.string(8)); (Content::Image { data: d.clone(), mime_type: t.clone() }, json!({"type":"image","data":d,"mimeType":t})) },
        _ => {
            let mut m = Map::new();
            put(&mut m, "type", "resource");
            let uri = r.string(10); put(&mut m, "uri", uri.clone());
            let text = ostr(r, &mut m, "text");
            let mime_type = ostr(r, &mut m, "mimeType");
            (Content::Resource { uri, text, mime_type }, Value::Object(m))
        },
    }
}
pub fn role(r: &mut Rng) -> (Role, Value) {
    let t = [(Role::User, "user"), (Role::Assistant, "assistant"), (Role::System, "system")];
    let (a, b) = *r.pick(&t);
    (a, json!(b))
}
fn list_changed(r: &mut Rng) -> (Option<bool>, Value) {
    let mut m = Map::new();
    let b = obool(r, &mut m, "listChanged");
    (b, Value::Object(m))
}
fn experimental(r: &mut Rng) -> (HashMap<String, Value>, Value) {
    let m: HashMap<String, Value> = (0..r.below(3)).map(|_| (r.ident(6), r.json(2))).collect();
    let v = Value::Object(m.iter().map(|(k, v)| (k.clone(), v.clone())).collect());
    (m, v)
}
fn res_caps(r: &mut Rng) -> (ResourceCapabilities, Value) {
    let mut m = Map::new();
    let subscribe = obool(r, &mut m, "subscribe");
    let list_changed = obool(r, &mut m, "listChanged");
    (ResourceCapabilities { subscribe, list_changed }, Value::Object(m))
}
pub fn client_caps(r: &mut Rng) -> (ClientCapabilities, Value) {
    let mut m = Map::new();
    let c = ClientCapabilities {
        tools: sub(r, &mut m, "tools", |r| { let (l, v) = list_changed(r); (ToolCapabilities { list_changed: l }, v) }),
        prompts: sub(r, &mut m, "prompts", |r| { let (l, v) = list_changed(r); (PromptCapabilities { list_changed: l }, v) }),
        resources: sub(r, &mut m, "resources", res_caps),
        logging: sub(r, &mut m, "logging", |r| { let mut m = Map::new(); let levels = ostrings(r, &mut m, "levels"); (LoggingCapabilities { levels }, Value::Object(m)) }),
        sampling: sub(r, &mut m, "sampling", |r| { let mut m = Map::new(); let models = ostrings(r, &mut m, "models"); (SamplingCapabilities { models }, Value::Object(m)) }),
        roots: sub(r, &mut m, "roots", |r| { let b = r.bool(); (RootsCapabilities { list_changed: b }, json!({"listChanged": b})) }),
        experimental: sub(r, &mut m, "experimental", experimental),
    };
    (c, Value::Object(m))
}
pub fn server_caps(r: &mut Rng) -> (ServerCapabilities, Value) {
    let mut m = Map::new();
    let c = ServerCapabilities {
        tools: sub(r, &mut m, "tools", |r| { let (l, v) = list_changed(r); (ToolCapabilities { list_changed: l }, v) }),
        prompts: sub(r, &mut m, "prompts", |r| { let (l, v) = list_changed(r); (PromptCapabilities { list_changed: l }, v) }),
        resources: sub(r, &mut m, "resources", res_caps),
        logging: sub(r, &mut m, "logging", |r| { let mut m = Map::new(); let levels = ostrings(r, &mut m, "levels"); (LoggingCapabilities { levels }, Value::Object(m)) }),
        completions: sub(r, &mut m, "completions", |_| (CompletionCapabilities::default(), json!({}))),
        sampling: sub(r, &mut m, "sampling", |r| { let mut m = Map::new(); let models = ostrings(r, &mut m, "models"); (SamplingCapabilities { models }, Value::Object(m)) }),
        experimental: sub(r, &mut m, "experimental", experimental),
    };
    (c, Value::Object(m))
}
pub fn implementation(r: &mut Rng) -> (Implementation, Value) {
    let (n, v) = (r.string(10), r.string(6));
    (Implementation { name: n.clone(), version: v.clone() }, json!({"name": n, "version": v}))
}
pub fn create_message(r: &mut Rng) -> (CreateMessageParams, Value) {
    let mut m = Map::new();
    let (messages, mv) = list(r, 3, |r| {
        let (ro, rv) = role(r);
        let (c, cv) = content(r);
        (SamplingMessage { role: ro, content: c }, json!({"role": rv, "content": cv}))
    });
    m.insert("messages".into(), mv);
    let model_preferences = sub(r, &mut m, "modelPreferences", |r| {
        let mut m = Map::new();
        let hints = sub(r, &mut m, "hints", |r| list(r, 3, |r| { let mut m = Map::new(); let name = ostr(r, &mut m, "name"); (ModelHint { name }, Value::Object(m)) }));
        let cost_priority = of64(r, &mut m, "costPriority");
        let speed_priority = of64(r, &mut m, "speedPriority");
        let intelligence_priority = of64(r, &mut m, "intelligencePriority");
        (ModelPreferences { hints, cost_priority, speed_priority, intelligence_priority }, Value::Object(m))
    });
    let system_prompt = ostr(r, &mut m, "systemPrompt");
    let ics = [(IncludeContext::All, "all"), (IncludeContext::None, "none"), (IncludeContext::ThisServerOnly, "thisServerOnly")];
    let (include_context, ic) = *r.pick(&ics);
    put(&mut m, "includeContext", ic);
    let temperature = of64(r, &mut m, "temperature");
    let max_tokens = if r.bool() { let n = *r.pick(&[0u32, 1, 4096, u32::MAX]); put(&mut m, "maxTokens", n); Some(n) } else { None };
    let stop_sequences = ostrings(r, &mut m, "stopSequences");
    let metadata = oval(r, &mut m, "metadata");
    (CreateMessageParams { messages, model_preferences, system_prompt, include_context, temperature, max_tokens, stop_sequences, metadata }, Value::Object(m))
}
pub fn elicit_response(r: &mut Rng) -> (ElicitInputResponse, Value) {
    let mut m = Map::new();
    let elicitation_id = r.string(10); put(&mut m, "elicitationId", elicitation_id.clone());
    let value = oval(r, &mut m, "value");
    let cancelled = r.bool(); put(&mut m, "cancelled", cancelled);
    let error = ostr(r, &mut m, "error");
    (ElicitInputResponse { elicitation_id, value, cancelled, error }, Value::Object(m))
}
pub fn elicit_request(r: &mut Rng) -> (ElicitInputRequest, Value) {
    let mut m = Map::new();
    let elicitation_id = r.string(10); put(&mut m, "elicitationId", elicitation_id.clone());
    let types = [(InputType::Text, "text"), (InputType::Textarea, "textarea"), (InputType::Boolean, "boolean"), (InputType::Number, "number"), (InputType::Select, "select"), (InputType::MultiSelect, "multiSelect"), (InputType::FilePath, "filePath"), (InputType::DirectoryPath, "directoryPath"), (InputType::Password, "password"), (InputType::Date, "date"), (InputType::Time, "time"), (InputType::DateTime, "dateTime"), (InputType::Color, "color"), (InputType::Url, "url"), (InputType::Email, "email")];
    let (it, itn) = r.pick(&types).clone();
    put(&mut m, "inputType", itn);
    let prompt = r.string(10); put(&mut m, "prompt", prompt.clone());
    let description = ostr(r, &mut m, "description");
    let default = oval(r, &mut m, "default");
    let validation = sub(r, &mut m, "validation", |r| {
        let mut m = Map::new();
        let required = r.bool(); put(&mut m, "required", required);
        let min = of64(r, &mut m, "min");
        let max = of64(r, &mut m, "max");
        let pattern = ostr(r, &mut m, "pattern");
        let options = sub(r, &mut m, "options", |r| list(r, 3, |r| {
            let mut m = Map::new();
            let value = r.json(2); m.insert("value".into(), value.clone());
            let label = r.string(6); put(&mut m, "label", label.clone());
            let description = ostr(r, &mut m, "description");
            let disabled = r.bool(); put(&mut m, "disabled", disabled);
            (SelectOption { value, label, description, disabled }, Value::Object(m))
        }));
        let message = ostr(r, &mut m, "message");
        (InputValidation { required, min, max, pattern, options, message }, Value::Object(m))
    });
    let mut metadata = HashMap::new();
    for _ in 0..r.below(3) {
        let k = format!("x_{}", r.ident(5));
        let v = r.json(2);
        m.insert(k.clone(), v.clone());
        metadata.insert(k, v);
    }
    (ElicitInputRequest { elicitation_id, input_type: it, prompt, description, default, validation, metadata }, Value::Object(m))
}
pub fn cursor(r: &mut Rng) -> (Option<String>, Value) {
    let mut m = Map::new();
    let c = ostr(r, &mut m, "cursor");
    (c, Value::Object(m))
}
pub fn level(r: &mut Rng) -> (LoggingLevel, Value) {
    let t = [(LoggingLevel::Debug, "debug"), (LoggingLevel::Info, "info"), (LoggingLevel::Warning, "warning"), (LoggingLevel::Error, "error"), (LoggingLevel::Critical, "critical")];
    let (a, b) = *r.pick(&t);
    (a, json!(b))
}

pub const N_REQ: usize = 18;
/// Request number k of the protocol: (request, method, params or None).
pub fn request_k(r: &mut Rng, k: usize) -> (Request, &'static str, Option<Value>) {
    let c = |q: ClientRequest| Request::Client(Box::new(q));
    match k {
        0 => {
            let v = if r.bool() { r.pick(pmcp::SUPPORTED_PROTOCOL_VERSIONS).to_string() } else { r.string(8) };
            let (cc, cv) = client_caps(r);
            let (i, iv) = implementation(r);
            (c(ClientRequest::Initialize(InitializeRequest { protocol_version: v.clone(), capabilities: cc, client_info: i })), "initialize", Some(json!({"protocolVersion": v, "capabilities": cv, "clientInfo": iv})))
        },
        1 => { let (x, v) = cursor(r); (c(ClientRequest::ListTools(ListToolsRequest { cursor: x })), "tools/list", Some(v)) },
        2 => { let n = r.string(10); let a = if r.chance(1, 3) { r.json(4) } else { r.object(3) };
            (c(ClientRequest::CallTool(CallToolRequest { name: n.clone(), arguments: a.clone() })), "tools/call", Some(json!({"name": n, "arguments": a}))) },
        3 => { let (x, v) = cursor(r); (c(ClientRequest::ListPrompts(ListPromptsRequest { cursor: x })), "prompts/list", Some(v)) },
        4 => { let n = r.string(10);
            let a: HashMap<String, String> = (0..r.below(4)).map(|_| (r.string(6), r.string(6))).collect();
            (c(ClientRequest::GetPrompt(GetPromptRequest { name: n.clone(), arguments: a.clone() })), "prompts/get", Some(json!({"name": n, "arguments": a}))) },
        5 => { let (x, v) = cursor(r); (c(ClientRequest::ListResources(ListResourcesRequest { cursor: x })), "resources/list", Some(v)) },
        6 => { let (x, v) = cursor(r); (c(ClientRequest::ListResourceTemplates(ListResourceTemplatesRequest { cursor: x })), "resources/templates/list", Some(v)) },
        7 => { let u = r.string(12); (c(ClientRequest::ReadResource(ReadResourceRequest { uri: u.clone() })), "resources/read", Some(json!({"uri": u}))) },
        8 => { let u = r.string(12); (c(ClientRequest::Subscribe(SubscribeRequest { uri: u.clone() })), "resources/subscribe", Some(json!({"uri": u}))) },
        9 => { let u = r.string(12); (c(ClientRequest::Unsubscribe(UnsubscribeRequest { uri: u.clone() })), "resources/unsubscribe", Some(json!({"uri": u}))) },
        10 => { let (n, v, x) = (r.string(8), r.string(8), r.string(8));
            let (rf, rv) = if r.bool() { (CompletionReference::Resource { uri: x.clone() }, json!({"type":"ref/resource","uri":x})) } else { (CompletionReference::Prompt { name: x.clone() }, json!({"type":"ref/prompt","name":x})) };
            (c(ClientRequest::Complete(CompleteRequest { r#ref: rf, argument: CompletionArgument { name: n.clone(), value: v.clone() } })), "completion/complete", Some(json!({"ref": rv, "argument": {"name": n, "value": v}}))) },
        11 => { let (l, v) = level(r); (c(ClientRequest::SetLoggingLevel { level: l }), "logging/setLevel", Some(json!({"level": v}))) },
        12 => (c(ClientRequest::Ping), "ping", None),
        13 => { let (p, v) = create_message(r); (c(ClientRequest::CreateMessage(p)), "sampling/createMessage", Some(v)) },
        14 => { let (p, v) = elicit_response(r); (c(ClientRequest::ElicitInputResponse(p)), "elicitation/response", Some(v)) },
        15 => { let (p, v) = create_message(r); (Request::Server(Box::new(ServerRequest::CreateMessage(Box::new(p)))), "sampling/createMessage", Some(v)) },
        16 => (Request::Server(Box::new(ServerRequest::ListRoots)), "roots/list", None),
        _ => { let (p, v) = elicit_request(r); (Request::Server(Box::new(ServerRequest::ElicitInput(Box::new(p)))), "elicitation/elicitInput", Some(v)) },
    }
}
fn progress(r: &mut Rng) -> (ProgressNotification, Value) {
    let mut m = Map::new();
    let t = match id(r).0 { RequestId::String(s) => { put(&mut m, "progressToken", s.clone()); ProgressToken::String(s) }, RequestId::Number(n) => { put(&mut m, "progressToken", n); ProgressToken::Number(n) } };
    let f = float(r); put(&mut m, "progress", f);
    let message = ostr(r, &mut m, "message");
    (ProgressNotification { progress_token: t, progress: f, message }, Value::Object(m))
}
fn cancelled(r: &mut Rng) -> (CancelledNotification, Value) {
    let mut m = Map::new();
    let (i, v) = id(r);
    m.insert("requestId".into(), v);
    let reason = ostr(r, &mut m, "reason");
    (CancelledNotification { request_id: i, reason }, Value::Object(m))
}
pub const N_NOTE: usize = 13;
pub fn notification_k(r: &mut Rng, k: usize) -> (Notification, &'static str, Option<Value>) {
    use ClientNotification as C;
    use ServerNotification as S;
    match k {
        0 => (Notification::Client(C::Initialized), "notifications/initialized", None),
        1 => (Notification::Client(C::RootsListChanged), "notifications/roots/list_changed", None),
        2 => { let (p, v) = cancelled(r); (Notification::Client(C::Cancelled(p)), "notifications/cancelled", Some(v)) },
        3 => { let (p, v) = progress(r); (Notification::Client(C::Progress(p)), "notifications/progress", Some(v)) },
        4 => { let (p, v) = progress(r); (Notification::Server(S::Progress(p)), "notifications/progress", Some(v)) },
        5 => (Notification::Server(S::ToolsChanged), "notifications/tools/list_changed", None),
        6 => (Notification::Server(S::PromptsChanged), "notifications/prompts/list_changed", None),
        7 => (Notification::Server(S::ResourcesChanged), "notifications/resources/list_changed", None),
        8 => (Notification::Server(S::RootsListChanged), "notifications/roots/list_changed", None),
        9 => { let u = r.string(10); (Notification::Server(S::ResourceUpdated(ResourceUpdatedParams { uri: u.clone() })), "notifications/resources/updated", Some(json!({"uri": u}))) },
        10 => {
            let mut m = Map::new();
            let t = [(LogLevel::Debug, "debug"), (LogLevel::Info, "info"), (LogLevel::Warning, "warning"), (LogLevel::Error, "error")];
            let (l, lv) = *r.pick(&t);
            put(&mut m, "level", lv);
            let logger = ostr(r, &mut m, "logger");
            let message = r.string(12); put(&mut m, "message", message.clone());
            let data = oval(r, &mut m, "data");
            (Notification::Server(S::LogMessage(LogMessageParams { level: l, logger, message, data })), "notifications/message", Some(Value::Object(m)))
        },
        11 => { let (p, v) = progress(r); (Notification::Progress(p), "notifications/progress", Some(v)) },
        _ => { let (p, v) = cancelled(r); (Notification::Cancelled(p), "notifications/cancelled", Some(v)) },
    }
}
pub fn error_obj(r: &mut Rng) -> (JSONRPCError, Value) {
    let code = match r.below(4) { 0 => *r.pick(&[-32700, -32600, -32601, -32602, -32603, -32001, -32002, -32003, -32004]), 1 => r.u64() as i32, 2 => *r.pick(&[i32::MIN, i32::MAX, 0, 1, -1, -31999, -32100, -32000, -32099]), _ => r.below(1000) as i32 };
    let mut m = Map::new();
    put(&mut m, "code", code);
    let message = r.string(14); put(&mut m, "message", message.clone());
    let data = oval(r, &mut m, "data");
    (JSONRPCError { code, message, data }, Value::Object(m))
}
pub fn wire_obj(idv: Option<Value>, method: Option<&str>, params: Option<Value>) -> Value {
    let mut m = Map::new();
    put(&mut m, "jsonrpc", "2.0");
    if let Some(i) = idv { m.insert("id".into(), i); }
    if let Some(x) = method { put(&mut m, "method", x); }
    if let Some(p) = params { m.insert("params".into(), p); }
    Value::Object(m)
}
pub fn request(r: &mut Rng) -> Gen {
    let k = r.below(N_REQ);
    let (q, m, p) = request_k(r, k);
    let (i, iv) = id(r);
    Gen { msg: TransportMessage::Request { id: i, request: q }, json: wire_obj(Some(iv), Some(m), p), kind: Kind::Request, method: m.into() }
}
pub fn notification(r: &mut Rng) -> Gen {
    let k = r.below(N_NOTE);
    let (q, m, p) = notification_k(r, k);
    Gen { msg: TransportMessage::Notification(q), json: wire_obj(None, Some(m), p), kind: Kind::Notification, method: m.into() }
}
pub fn response(r: &mut Rng) -> Gen {
    let (i, iv) = id(r);
    let mut m = Map::new();
    put(&mut m, "jsonrpc", "2.0");
    m.insert("id".into(), iv);
    let msg = if r.chance(2, 3) {
        let v = match r.below(4) { 0 => Value::Null, 1 => json!({"result": 1, "error": {"code": 1, "message": "m"}, "id": 3, "method": "ping"}), _ => r.json(4) };
        m.insert("result".into(), v.clone());
        JSONRPCResponse::success(i, v)
    } else {
        let (e, ev) = error_obj(r);
        m.insert("error".into(), ev);
        JSONRPCResponse::error(i, e)
    };
    Gen { msg: TransportMessage::Response(msg), json: Value::Object(m), kind: Kind::Response, method: String::new() }
}
pub fn message(r: &mut Rng) -> Gen {
    match r.below(3) { 0 => request(r), 1 => response(r), _ => notification(r) }
}
/// The same JSON value with object members in random order and random insignificant whitespace.
pub fn scramble(r: &mut Rng, v: &Value) -> String {
    fn ws(r: &mut Rng) -> &'static str { if r.chance(1, 6) { [" ", "\n", "\t", "\r\n", "  "][r.below(5)] } else { "" } }
    match v {
        Value::Object(m) => {
            let mut ks: Vec<_> = m.iter().collect();
            r.shuffle(&mut ks);
            let mut s = String::from("{");
            for (i, (k, v)) in ks.into_iter().enumerate() {
                if i > 0 { s.push(','); }
                s.push_str(ws(r)); s.push_str(&esc(r, k)); s.push_str(ws(r)); s.push(':'); s.push_str(ws(r));
                s.push_str(&scramble(r, v)); s.push_str(ws(r));
            }
            s.push('}'); s
        },
        Value::Array(a) => {
            let mut s = String::from("[");
            for (i, v) in a.iter().enumerate() {
                if i > 0 { s.push(','); }
                s.push_str(ws(r)); s.push_str(&scramble(r, v));
            }
            s.push(']'); s
        },
        Value::String(t) => esc(r, t),
        other => other.to_string(),
    }
}
/// A JSON string literal, with some characters written as \u escapes.
pub fn esc(r: &mut Rng, t: &str) -> String {
    if r.chance(3, 4) { return serde_json::to_string(t).unwrap(); }
    let mut s = String::from("\"");
    for c in t.chars() {
        if r.chance(1, 3) || c == '"' || c == '\\' || (c as u32) < 0x20 {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) { s.push_str(&format!("\\u{:04x}", u)); }
        } else { s.push(c); }
    }
    s.push('"'); s
}

/// A valid result (wire JSON) a server may give to a request of this method.
pub fn result_json(r: &mut Rng, method: &str) -> Value {
    let mut o = Map::new();
    let opt = |r: &mut Rng, o: &mut Map<String, Value>, k: &str| { if r.bool() { let s = r.string(8); o.insert(k.into(), json!(s)); } };
    match method {
        "tools/list" => {
            let v: Vec<Value> = (0..r.below(4)).map(|_| { let mut o = Map::new(); o.insert("name".into(), json!(r.string(8))); opt(r, &mut o, "description"); o.insert("inputSchema".into(), r.json(3)); Value::Object(o) }).collect();
            o.insert("tools".into(), json!(v));
            opt(r, &mut o, "nextCursor");
        },
        "tools/call" => { let v: Vec<Value> = (0..r.below(4)).map(|_| content(r).1).collect(); o.insert("content".into(), json!(v)); o.insert("isError".into(), json!(r.bool())); },
        "prompts/list" => {
            let v: Vec<Value> = (0..r.below(4)).map(|_| {
                let mut o = Map::new();
                o.insert("name".into(), json!(r.string(8)));
                opt(r, &mut o, "description");
                if r.bool() { let a: Vec<Value> = (0..r.below(3)).map(|_| { let mut q = Map::new(); q.insert("name".into(), json!(r.string(5))); opt(r, &mut q, "description"); q.insert("required".into(), json!(r.bool())); Value::Object(q) }).collect(); o.insert("arguments".into(), json!(a)); }
                Value::Object(o)
            }).collect();
            o.insert("prompts".into(), json!(v));
            opt(r, &mut o, "nextCursor");
        },
        "prompts/get" => { opt(r, &mut o, "description"); let v: Vec<Value> = (0..r.below(3)).map(|_| json!({"role": role(r).1, "content": content(r).1})).collect(); o.insert("messages".into(), json!(v)); },
        "resources/list" | "resources/templates/list" => {
            let (k, u) = if method == "resources/list" { ("resources", "uri") } else { ("resourceTemplates", "uriTemplate") };
            let v: Vec<Value> = (0..r.below(4)).map(|_| { let mut o = Map::new(); o.insert(u.into(), json!(r.string(8))); o.insert("name".into(), json!(r.string(8))); opt(r, &mut o, "description"); opt(r, &mut o, "mimeType"); Value::Object(o) }).collect();
            o.insert(k.into(), json!(v));
            opt(r, &mut o, "nextCursor");
        },
        "resources/read" => { let v: Vec<Value> = (0..r.below(4)).map(|_| content(r).1).collect(); o.insert("contents".into(), json!(v)); },
        "completion/complete" => {
            let mut c = Map::new();
            let vals: Vec<String> = (0..r.below(4)).map(|_| r.string(6)).collect();
            c.insert("values".into(), json!(vals));
            if r.bool() { c.insert("total".into(), json!(r.below(1000))); }
            c.insert("hasMore".into(), json!(r.bool()));
            o.insert("completion".into(), Value::Object(c));
        },
        "sampling/createMessage" => { o.insert("content".into(), content(r).1); o.insert("model".into(), json!(r.string(6))); if r.bool() { o.insert("usage".into(), json!({"inputTokens": r.below(99), "outputTokens": r.below(99), "totalTokens": r.below(99)})); } opt(r, &mut o, "stopReason"); },
        _ => {},
    }
    Value::Object(o)
}
