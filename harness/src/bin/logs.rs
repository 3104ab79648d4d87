//! C40: log records carry the identity of the request that wrote them and obey the configuration.
use mon::{Check, Mon, Rng};
use pmcp::shared::context::RequestContext;
use pmcp::shared::logging::{init_logging, CorrelatedLogger, CorrelationLayer, ErrorDetails, LogConfig, LogEntry, LogFormat, LogLevel};
use pmcp::types::RequestId;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use tracing_subscriber::layer::SubscriberExt;

fn main() {
    if let Ok(spec) = std::env::var("MON_LOG_CHILD") {
        return child(&serde_json::from_str(&spec).unwrap());
    }
    mon::main(&[
        Check { id: "C40", rule: "one log entry, span or record written in a known place, or one record of an initialised process; non-trivial when written inside a request's scope or near the configured level", run: c40 },
    ]);
}

// ---------------------------------------------------------------- the recorder

#[derive(Clone, Debug, Default)]
struct SpanSeen { name: String, fields: BTreeMap<String, String>, context: Option<RequestContext> }
#[derive(Clone, Debug)]
struct Record { level: tracing::Level, message: String, spans: Vec<SpanSeen> }
thread_local! { static RECORDS: RefCell<Vec<Record>> = const { RefCell::new(vec![]) }; }

#[derive(Default)]
struct Fields(BTreeMap<String, String>);
impl tracing::field::Visit for Fields {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) { self.0.insert(f.name().into(), format!("{v:?}")); }
    fn record_str(&mut self, f: &tracing::field::Field, v: &str) { self.0.insert(f.name().into(), v.into()); }
}
struct Recorder;
impl<S> tracing_subscriber::Layer<S> for Recorder
where S: tracing::Subscriber + for<'l> tracing_subscriber::registry::LookupSpan<'l> {
    fn on_new_span(&self, a: &tracing::span::Attributes<'_>, id: &tracing::span::Id, ctx: tracing_subscriber::layer::Context<'_, S>) {
        let mut f = Fields::default();
        a.record(&mut f);
        if let Some(s) = ctx.span(id) { s.extensions_mut().insert(f); }
    }
    fn on_record(&self, id: &tracing::span::Id, v: &tracing::span::Record<'_>, ctx: tracing_subscriber::layer::Context<'_, S>) {
        if let Some(s) = ctx.span(id) { if let Some(f) = s.extensions_mut().get_mut::<Fields>() { v.record(f); } }
    }
    fn on_event(&self, e: &tracing::Event<'_>, ctx: tracing_subscriber::layer::Context<'_, S>) {
        let mut f = Fields::default();
        e.record(&mut f);
        let spans = ctx.event_scope(e).map(|s| s.map(|s| {
            let x = s.extensions();
            SpanSeen { name: s.name().into(), fields: x.get::<Fields>().map(|f| f.0.clone()).unwrap_or_default(), context: x.get::<Arc<RequestContext>>().map(|c| (**c).clone()).or_else(|| x.get::<RequestContext>().cloned()) }
        }).collect()).unwrap_or_default();
        RECORDS.with(|r| r.borrow_mut().push(Record { level: *e.metadata().level(), message: f.0.get("message").cloned().unwrap_or_default(), spans }));
    }
}
/// What the action wrote on this thread, without yielding.
fn written<R>(f: impl FnOnce() -> R) -> (R, Vec<Record>) {
    RECORDS.with(|r| r.borrow_mut().clear());
    let x = f();
    (x, RECORDS.with(|r| std::mem::take(&mut *r.borrow_mut())))
}

// ---------------------------------------------------------------- judged places

fn ids(c: Option<&RequestContext>) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Some(c) = c {
        m.insert("request_id".into(), c.request_id.to_string());
        m.insert("trace_id".into(), c.trace_id.clone());
        m.insert("span_id".into(), c.span_id.clone());
        if let Some(u) = &c.user_id { m.insert("user_id".into(), u.clone()); }
        if let Some(s) = &c.session_id { m.insert("session_id".into(), s.clone()); }
    }
    m
}
fn same(a: Option<&RequestContext>, b: Option<&RequestContext>) -> bool {
    match (a, b) { (None, None) => true, (Some(a), Some(b)) => ids(Some(a)) == ids(Some(b)) && a.baggage == b.baggage, _ => false }
}

fn context(r: &mut Rng, n: i64) -> RequestContext {
    let id = if r.bool() { RequestId::from(n) } else { RequestId::from(format!("r{n}{}", r.string(4))) };
    let mut c = RequestContext::new(id);
    if r.bool() { c = c.with_user_id(r.string(8)); }
    if r.bool() { c = c.with_session_id(r.string(8)); }
    if r.bool() { c = c.with_baggage(r.ident(4), r.string(5)); }
    if r.bool() { c = c.with_client_info(pmcp::shared::context::ClientInfo { client_id: r.ident(5), version: None, ip_address: None, user_agent: None }); }
    if r.bool() { c = c.with_metadata("user_id".into(), json!(r.ident(3))); }
    c
}

type Kept = Arc<Mutex<Vec<(Arc<CorrelatedLogger>, String, Option<RequestContext>)>>>;

fn entry(m: &Mon, r: &mut Rng, here: Option<&RequestContext>) {
    let level = r.pick(&["trace", "debug", "info", "warn", "error", "INFO", "Error", "WaRn", "TRACE", "fatal", "", "notice"]).to_string();
    let text = r.string(20);
    let before = chrono::Utc::now();
    let mut e = LogEntry::new(level.clone(), text.clone());
    let after = chrono::Utc::now();
    let what = || format!("{level} {text:?} in {:?}", ids(here));
    m.check(e.timestamp >= before && e.timestamp <= after || before > after, "entry-time", what);
    let mut fields = HashMap::new();
    for _ in 0..r.below(5) {
        let (k, v) = (if r.bool() { r.ident(3) } else { r.pick(&["a", "message", "level", "trace_id"]).to_string() }, r.json(2));
        e = e.with_field(k.clone(), v.clone());
        fields.insert(k, v);
    }
    let error = r.chance(1, 3).then(|| ErrorDetails { error_type: r.ident(5), message: r.string(9), stack_trace: r.bool().then(|| (0..r.below(3)).map(|_| r.string(5)).collect()), code: r.bool().then(|| r.ident(3)) });
    if let Some(x) = &error { e = e.with_error(x.clone()); }
    let mine = ids(here);
    let opt = |k: &str| mine.get(k).cloned();
    m.check(e.request_id == here.map(|c| c.request_id.clone()) && e.trace_id == opt("trace_id") && e.span_id == opt("span_id") && e.user_id == opt("user_id") && e.session_id == opt("session_id"), "entry-ids", || format!("{e:?}; {}", what()));
    m.check(e.level == level && e.message == text && e.fields == fields, "entry-content", || format!("{e:?}; {} {fields:?}", what()));
    m.check(serde_json::to_value(&e.error).unwrap() == serde_json::to_value(&error).unwrap(), "entry-error", || format!("{e:?}"));
    let whole = serde_json::to_value(&e).unwrap();
    let ((), got) = written(|| e.log());
    let want = match level.to_lowercase().as_str() { "trace" => tracing::Level::TRACE, "debug" => tracing::Level::DEBUG, "warn" => tracing::Level::WARN, "error" => tracing::Level::ERROR, _ => tracing::Level::INFO };
    m.case(("entry", &level, here.is_some(), fields.len()), here.is_some());
    if !m.check(got.len() == 1, "entry-written", || format!("{} records; {}", got.len(), what())) { return; }
    m.check(got[0].level == want, "entry-level", || format!("{:?}; {}", got[0].level, what()));
    let back: Option<Value> = serde_json::from_str(&got[0].message).ok();
    m.check(back.as_ref() == Some(&whole), "entry-text", || format!("{} want {whole}", got[0].message));
    m.sample("entry", || got[0].message.clone());
}

fn macros(m: &Mon, r: &mut Rng, here: Option<&RequestContext>) {
    let text = r.string(12);
    let n = r.below(100);
    let k = r.below(6);
    let ((), got) = written(|| match k {
        0 => pmcp::info_correlated!(text.clone()),
        1 => pmcp::error_correlated!(text.clone(), "n" => n, "b" => true),
        2 => pmcp::warn_correlated!(text.clone(), "n" => n),
        3 => pmcp::debug_correlated!(text.clone(), "n" => n,),
        4 => pmcp::log_correlated!("trace", text.clone(), "n" => n),
        _ => pmcp::log_correlated!("error", text.clone()),
    });
    let level = [tracing::Level::INFO, tracing::Level::ERROR, tracing::Level::WARN, tracing::Level::DEBUG, tracing::Level::TRACE, tracing::Level::ERROR][k];
    let fields = match k { 1 => json!({"n": n, "b": true}), 2..=4 => json!({"n": n}), _ => json!({}) };
    m.case(("macro", k, here.is_some()), here.is_some());
    let v: Value = got.first().and_then(|g| serde_json::from_str(&g.message).ok()).unwrap_or_default();
    m.check(got.len() == 1 && got[0].level == level && v["message"] == json!(text) && v["fields"] == fields && v["trace_id"] == json!(here.map(|c| c.trace_id.clone())) && v["request_id"] == json!(here.map(|c| c.request_id.clone())), "macro", || format!("{got:?}; macro {k} {text:?} {n} in {:?}", ids(here)));
}

/// A record written through a logger: its innermost span carries what the logger was made with.
fn through(m: &Mon, r: &mut Rng, l: &CorrelatedLogger, op: &str, made: Option<&RequestContext>, layer: Option<&RequestContext>, here: Option<&RequestContext>) {
    let token = format!("t{}", r.u64());
    let inner = r.chance(1, 4);
    let ((), got) = written(|| if r.bool() {
        l.in_scope(|| if inner { tracing::info_span!("inside").in_scope(|| tracing::info!("{token}")) } else { tracing::info!("{token}") });
    } else {
        let g = l.enter();
        if inner { let s = tracing::info_span!("inside"); let _g = s.enter(); tracing::info!("{token}"); } else { tracing::info!("{token}"); }
        drop(g);
    });
    m.case(("logger", inner, made.is_some()), made.is_some());
    m.count("records through loggers", 1);
    let what = || format!("{got:?}; operation {op:?} made in {:?}", ids(made));
    if !m.check(got.len() == 1 && got[0].message == token, "logger-written", what) { return; }
    let at = usize::from(inner);
    let Some(s) = got[0].spans.get(at) else { m.fail("logger-span", what()); return };
    let mut want = ids(made);
    want.insert("name".into(), op.into());
    m.check(s.name == "operation" && s.fields == want, "logger-ids", what);
    if inner { m.check(same(got[0].spans[0].context.as_ref(), here), "span-context", || format!("a span inside another, made in {:?}, carries {:?}", here.map(|c| ids(Some(c))), got[0].spans[0].context.as_ref().map(|c| ids(Some(c))))); }
    m.check(same(s.context.as_ref(), layer), "span-context", || format!("a span made in {:?} carries {:?}", layer.map(|c| ids(Some(c))), s.context.as_ref().map(|c| ids(Some(c)))));
    // and afterwards nothing of it remains
    let ((), after) = written(|| tracing::info!("after"));
    m.check(after.len() == 1 && after[0].spans.is_empty(), "logger-stays", || format!("{after:?}"));
}

fn place(m: &Arc<Mon>, r: &mut Rng, here: Option<&RequestContext>, kept: &Kept) {
    match r.below(7) {
        0 | 1 => entry(m, r, here),
        2 => macros(m, r, here),
        3 => {
            let op = r.string(6);
            let l = CorrelatedLogger::new(&op);
            through(m, r, &l, &op, here, here, here);
            kept.lock().unwrap().push((Arc::new(l), op, here.cloned()));
        },
        4 => {
            // made for some other request
            let n = r.below(1000) as i64;
            let (op, mut c) = (r.string(6), context(r, n));
            // or for another part of the same one
            if let (Some(h), true) = (here, r.bool()) { c = h.child(); match r.below(3) { 0 => c = c.with_user_id(r.ident(4)), 1 => c = c.with_session_id(r.ident(4)), _ => {} } }
            let l = CorrelatedLogger::from_context(&op, &c);
            through(m, r, &l, &op, Some(&c), here, here);
        },
        5 => {
            // made elsewhere, maybe in a scope that has ended
            let k = { let k = kept.lock().unwrap(); if k.is_empty() { None } else { Some(k[r.below(k.len())].clone()) } };
            if let Some((l, op, made)) = k { through(m, r, &l, &op, made.as_ref(), made.as_ref(), here); m.count("loggers used elsewhere", 1); }
        },
        _ => {
            let (a, b) = (r.ident(4), r.ident(4));
            let (outer, inner) = (CorrelatedLogger::new(&a), CorrelatedLogger::new(&b));
            let ((), got) = written(|| outer.in_scope(|| { inner.in_scope(|| tracing::warn!("deep")); tracing::warn!("outer"); }));
            let names: Vec<Vec<&str>> = got.iter().map(|g| g.spans.iter().map(|s| s.fields.get("name").map_or("", |n| n)).collect()).collect();
            m.check(names.len() == 2 && names[0].first() == Some(&&*b) && names[1].first() == Some(&&*a) && names[1].len() == 1, "logger-nesting", || format!("{names:?} for {a} around {b}"));
        },
    }
}

fn task(m: Arc<Mon>, mut r: Rng, here: Option<RequestContext>, depth: usize, kept: Kept) -> std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send>> {
    Box::pin(async move {
        for _ in 0..r.range(2, 6) {
            place(&m, &mut r, here.as_ref(), &kept);
            match r.below(6) {
                0 => tokio::task::yield_now().await,
                1 => tokio::time::sleep(std::time::Duration::from_micros(r.below(200) as u64)).await,
                2 | 3 if depth < 4 => {
                    let n = r.u64() as i64;
                    let c = match &here { Some(h) if r.bool() => h.child(), _ => context(&mut r, n) };
                    let f = task(m.clone(), r.fork(), Some(c.clone()), depth + 1, kept.clone());
                    c.run(f).await;
                },
                4 if depth < 4 => {
                    let (x, y) = (r.u64() as i64, r.u64() as i64);
                    let (a, b) = (context(&mut r, x), context(&mut r, y));
                    let fa = task(m.clone(), r.fork(), Some(a.clone()), depth + 2, kept.clone());
                    let fb = task(m.clone(), r.fork(), Some(b.clone()), depth + 2, kept.clone());
                    tokio::join!(a.run(fa), b.run(fb));
                },
                _ => {},
            }
        }
        place(&m, &mut r, here.as_ref(), &kept);
    })
}

// ---------------------------------------------------------------- initialised processes

fn child(spec: &Value) {
    let config: LogConfig = serde_json::from_value(spec["config"].clone()).unwrap();
    let first = init_logging(config.clone()).is_ok();
    let again = std::panic::catch_unwind(|| init_logging(config).is_err());
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    for e in spec["events"].as_array().unwrap() {
        let token = e["token"].as_str().unwrap().to_string();
        let write = || match e["level"].as_str().unwrap() {
            "trace" => tracing::trace!("{token}"), "debug" => tracing::debug!("{token}"), "info" => tracing::info!("{token}"),
            "warn" => tracing::warn!("{token}"), "error" => tracing::error!("{token}"),
            "entry" => LogEntry::new(e["name"].as_str().unwrap(), token.clone()).log(),
            _ => CorrelatedLogger::new(&format!("op-{token}")).in_scope(|| tracing::error!("{token}")),
        };
        match e["request"].as_i64() {
            Some(n) => rt.block_on(RequestContext::new(RequestId::from(n)).run(async { write() })),
            None => write(),
        }
    }
    println!("{}", json!({"first": first, "again": again.ok()}));
}

fn process(m: &Arc<Mon>, r: &mut Rng) {
    let levels = [("trace", LogLevel::Trace), ("debug", LogLevel::Debug), ("info", LogLevel::Info), ("warn", LogLevel::Warn), ("error", LogLevel::Error)];
    let at = r.below(5);
    let format = *r.pick(&[LogFormat::Json, LogFormat::Pretty, LogFormat::Compact]);
    let mut custom = HashMap::new();
    if r.chance(1, 3) { custom.insert("service".to_string(), json!(format!("custom{}", r.u64()))); }
    let (timestamps, location) = (r.bool(), r.bool());
    let config = LogConfig { level: levels[at].1, timestamps, source_location: location, correlation_ids: r.bool(), custom_fields: custom.clone(), format };
    let mut events = vec![];
    let mut want: Vec<(String, Option<i64>, &str)> = vec![];
    let n = r.range(1, 25);
    for k in 0..n {
        let token = format!("tok{k}x{}", r.below(1_000_000));
        let request = r.bool().then(|| r.below(100_000) as i64);
        let (kind, name, sev) = match r.below(8) {
            7 => ("logger", "", 4),
            6 => { let i = r.below(6); let nm = ["trace", "Debug", "INFO", "warn", "ERROR", "other"][i]; ("entry", nm, if i == 5 { 2 } else { i }) },
            i => { let i = i.min(4); (levels[i].0, "", i) },
        };
        events.push(json!({"level": kind, "name": name, "token": token, "request": request}));
        if sev >= at { want.push((token, request, kind)); }
    }
    let spec = json!({"config": config, "events": events});
    let out = std::process::Command::new(std::env::current_exe().unwrap()).env("MON_LOG_CHILD", spec.to_string()).env_remove("RUST_LOG").env_remove("NO_COLOR").output().unwrap();
    let (err, std) = (String::from_utf8_lossy(&out.stderr).into_owned(), String::from_utf8_lossy(&out.stdout).into_owned());
    let about = || format!("{spec} wrote to stderr {err:?} and to stdout {std:?}");
    m.case(("process", at, format!("{format:?}{timestamps}{location}"), want.len()), !want.is_empty() && want.len() < n);
    m.count("processes", 1);
    m.count("records of processes", want.len() as u64);
    // the only thing on standard output is what the program itself writes there
    let said: Option<Value> = serde_json::from_str(std.trim_end()).ok();
    if !m.check(said.is_some() && std.lines().count() == 1, "standard-output", about) { return; }
    let said = said.unwrap();
    m.check(said["first"] == json!(true), "init", about);
    m.check(said["again"] == json!(true), "init-again", about);
    // exactly the records due, once and in order
    let plain: String = strip(&err);
    let all: Vec<&str> = { let mut v: Vec<(usize, &str)> = vec![]; for e in spec["events"].as_array().unwrap() { let t = e["token"].as_str().unwrap(); for (p, _) in plain.match_indices(t) { if !plain[..p].ends_with("op-") { v.push((p, t)); } } } v.sort(); v.into_iter().map(|x| x.1).collect() };
    let due: Vec<&str> = want.iter().map(|w| &*w.0).collect();
    if !m.check(all == due, "records", || format!("{all:?} want {due:?}; {}", about())) { return; }
    if due.is_empty() { return; }
    // (an entry's text has a time of its own)
    let mut own = plain.clone();
    while let Some(p) = own.find("\"timestamp\":\"") { let e = own[p + 13..].find('"').map_or(own.len(), |x| p + 13 + x); own.replace_range(p..e, ""); }
    let times = own.match_indices('T').filter(|(p, _)| {
        let (before, after) = (&own.as_bytes()[p.saturating_sub(10)..*p], &own.as_bytes()[p + 1..own.len().min(p + 7)]);
        before.len() == 10 && before[4] == b'-' && before[7] == b'-' && after.len() == 6 && after[2] == b':' && after[5] == b':'
    }).count();
    m.check(times == if timestamps { due.len() } else { 0 }, "timestamps", || format!("{times} times on {} records; {}", due.len(), about()));
    let places = plain.matches("logs.rs:").count() + plain.matches("logging.rs:").count() + plain.matches("\"line_number\"").count();
    m.check(if location { places >= due.len() } else { places == 0 }, "source-location", || format!("{places} places on {} records; {}", due.len(), about()));
    // the request a logger works for
    for (t, request, kind) in &want {
        // a logger's span is of level info
        if *kind != "logger" || at > 2 { continue; }
        let pos = plain.find(t.as_str()).unwrap();
        let near: String = match format { LogFormat::Pretty => plain[pos..].lines().take(4).collect(), _ => { let s = plain[..pos].rfind('\n').map_or(0, |p| p + 1); plain[s..].lines().next().unwrap().into() } };
        let squeezed: String = near.chars().filter(|c| !"\": ".contains(*c)).collect();
        match request {
            Some(n) => m.check(squeezed.contains(&format!("request_id={n}")) || squeezed.contains(&format!("request_id{n}")), "logger-record", || format!("{near}; {}", about())),
            None => m.check(!squeezed.contains("request_id"), "logger-record", || format!("{near}; {}", about())),
        };
    }
    if let Some(Value::String(c)) = custom.get("service") {
        m.check(plain.matches(c.as_str()).count() >= due.len(), "custom-fields", about);
    }
    if matches!(format, LogFormat::Json) {
        m.check(plain.lines().all(|l| serde_json::from_str::<serde_json::Map<String, Value>>(l).is_ok()), "json-format", about);
    }
}
/// Without terminal colours.
fn strip(s: &str) -> String {
    let mut o = String::new();
    let mut c = s.chars();
    while let Some(x) = c.next() {
        if x == '\u{1b}' { for y in c.by_ref() { if y == 'm' { break; } } } else { o.push(x); }
    }
    o
}

fn c40(m: &Arc<Mon>) {
    let mut r = m.rng("c40");
    m.stage("initialised processes");
    for _ in 0..m.n(60, 2500) { if m.stopped() { return; } process(m, &mut r); m.tick(); }
    m.stage("scopes");
    let config = LogConfig { correlation_ids: true, ..LogConfig::default() };
    if tracing::subscriber::set_global_default(tracing_subscriber::registry().with(CorrelationLayer::new(config)).with(Recorder)).is_err() { m.inconclusive("another subscriber is installed"); return; }
    for round in 0..m.n(250, 8000) {
        if m.stopped() { return; }
        let rt = if round % 3 == 0 { mon::crt() } else { mon::mrt(4) };
        let (mm, seed) = (m.clone(), r.fork());
        let done = rt.block_on(async move {
            mon::within(async {
                let kept: Kept = Default::default();
                let mut s = seed;
                let hs: Vec<_> = (0..8).map(|_| tokio::spawn(task(mm.clone(), s.fork(), None, 0, kept.clone()))).collect();
                for h in hs { if h.await.is_err() { mm.fail("task", "a task panicked"); } }
            }).await
        });
        m.check(done.is_some(), "hang", || "logging tasks never finished".into());
        rt.shutdown_background();
        m.tick();
    }
    m.stage("without correlation");
    for n in 0..m.n(200, 2000) {
        let quiet = LogConfig { correlation_ids: false, ..LogConfig::default() };
        let sub = tracing_subscriber::registry().with(CorrelationLayer::new(quiet)).with(Recorder);
        let c = context(&mut r, n as i64);
        let got = tracing::subscriber::with_default(sub, || mon::crt().block_on(c.run(async { written(|| tracing::info_span!("s").in_scope(|| tracing::info!("x"))).1 })));
        m.case(("off", n), true);
        m.check(got.len() == 1 && got[0].spans.len() == 1 && got[0].spans[0].context.is_none(), "span-context", || format!("correlation is off; {got:?}"));
    }
}
