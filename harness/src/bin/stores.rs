//! C19 (event log and resumption), C20 (sessions).
use chrono::{Duration as CD, Utc};
use mon::{mrt, vrt, Check, Mon, Rng};
use pmcp::shared::event_store::{EventStore, InMemoryEventStore, MessageDirection, ResumptionManager, StoredEvent};
use pmcp::shared::session::{extract_session_id, session_cleanup_task, ClientInfo, Session, SessionCallbacks, SessionConfig, SessionManager, SessionMiddleware};
use pmcp::shared::TransportMessage;
use pmcp::types::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};

fn main() {
    mon::main(&[
        Check { id: "C19", rule: "a history of store, query, clear and token operations; non-trivial when events were evicted or cleared and a later query or resumption was answered", run: c19 },
        Check { id: "C20", rule: "a history or race of session operations; non-trivial when a session expired, was destroyed, was renewed or met the limit", run: c20 },
    ]);
}

fn msg(seq: u64) -> TransportMessage {
    TransportMessage::Notification(Notification::Progress(ProgressNotification { progress_token: ProgressToken::Number(seq as i64), progress: seq as f64, message: None }))
}
fn unmsg(m: &TransportMessage) -> u64 {
    match m { TransportMessage::Notification(Notification::Progress(p)) => p.progress as u64, _ => u64::MAX }
}
/// Everything of an event that must come back as it was stored.
type Ev = (String, u64, bool, String, u64, i64);
fn ev(e: &StoredEvent) -> Ev { (e.id.clone(), unmsg(&e.message), e.direction == MessageDirection::Outbound, e.session_id.clone(), e.sequence, e.timestamp.timestamp_millis()) }

// ------------------------------------------------------------------ C19

fn c19(m: &Arc<Mon>) {
    let mut r = m.rng("c19");
    m.stage("store histories");
    for _ in 0..m.n(6000, 100_000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        vrt().block_on(store_history(m, &mut rr));
    }
    m.stage("manager histories");
    for _ in 0..m.n(6000, 100_000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        vrt().block_on(manager_history(m, &mut rr));
    }
    m.stage("many events");
    for _ in 0..m.n(4, 60) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        vrt().block_on(many_events(m, &mut rr));
    }
    m.stage("threads");
    for _ in 0..m.n(80, 1500) {
        if m.stopped() { return; }
        let seed = r.u64();
        let m2 = m.clone();
        mrt(8).block_on(async move { store_threads(m2, seed).await });
    }
}

async fn store_history(m: &Mon, r: &mut Rng) {
    let cap = *r.pick(&[0usize, 1, 2, 3, 5, 8, 20, 64]);
    let age_h = *r.pick(&[0i64, 1, 3, 6, 1000, 1000, 1000]);
    let base = Utc::now();
    let mut last = base - CD::hours(5000);
    let store = InMemoryEventStore::new(cap, CD::hours(age_h) + CD::minutes(30));
    let mut log: VecDeque<StoredEvent> = VecDeque::new();
    let mut all: Vec<String> = vec![];
    let mut tokens: Vec<(String, String, String, u64)> = vec![];
    let mut hours_ago = 12i64;
    let (mut evicted, mut asked) = (0u64, 0u64);
    let mut trace = format!("cap {cap} age {age_h}.5h:");
    let nops = r.range(3, 70);
    let mut n = 0u64;
    for _ in 0..nops {
        let ctx = |t: &str| t.to_string();
        match r.below(10) {
            0..=4 => {
                if hours_ago > 0 && r.chance(1, 5) { hours_ago -= r.range(1, hours_ago as usize) as i64; }
                n += 1;
                let stale = base - CD::hours(hours_ago) - CD::minutes(30) - CD::milliseconds(r.range(1, 950) as i64);
                let timestamp = if hours_ago == age_h && stale >= last && r.bool() { stale } else { base - CD::hours(hours_ago) };
                last = timestamp;
                let e = StoredEvent { id: if r.chance(1, 4) { format!("{}é-{n}", r.below(3)) } else { format!("{}{}", ["e", "E", " e", "E "][(n % 4) as usize], n / 4) }, timestamp, message: msg(n), direction: if r.bool() { MessageDirection::Outbound } else { MessageDirection::Inbound }, session_id: r.pick(&["s0", "s1", "S1", "s1 ", "s"]).to_string(), sequence: r.below(1000) as u64 };
                trace += &format!(" store {}@-{hours_ago}h", e.id);
                all.push(e.id.clone());
                store.store_event(e.clone()).await.unwrap();
                log.push_back(e);
                while log.len() > cap { log.pop_front(); evicted += 1; }
                while log.front().is_some_and(|e| e.timestamp < base - CD::hours(age_h) - CD::minutes(30)) { log.pop_front(); evicted += 1; }
            }
            5 | 6 => {
                let id = if all.is_empty() || r.chance(1, 6) { "none".into() } else if r.chance(1, 3) && !log.is_empty() { log[r.below(log.len())].id.clone() } else { r.pick(&all).clone() };
                let limit = if r.bool() { None } else { Some(r.below(8)) };
                let got: Vec<Ev> = store.get_events_since(&id, limit).await.unwrap().iter().map(ev).collect();
                let from = log.iter().position(|e| e.id == id).map_or(0, |i| i + 1);
                let want: Vec<Ev> = log.iter().skip(from).take(limit.unwrap_or(usize::MAX)).map(ev).collect();
                if evicted > 0 { asked += 1; }
                m.count(if from > 0 { "queries after a retained event" } else { "queries after an event no longer retained" }, 1);
                if !m.eq(&got, &want, "since", || ctx(&format!("{trace} | since {id} limit {limit:?}"))) { return; }
            }
            7 => {
                let got = store.get_latest_event_id().await.unwrap();
                if !m.eq(&got, &log.back().map(|e| e.id.clone()), "latest", || trace.clone()) { return; }
            }
            8 if r.chance(1, 2) => {
                let h = r.below(13) as i64;
                // between events, or right at one, a few milliseconds before or after
                let before = if !log.is_empty() && r.bool() { log[r.below(log.len())].timestamp + CD::milliseconds(r.below(9) as i64 - 4) } else { base - CD::hours(h) - CD::minutes(30) };
                trace += &format!(" clear<{before}");
                let until = before;
                let got = store.clear_events_before(until).await.unwrap();
                let before = log.len();
                while log.front().is_some_and(|e| e.timestamp < until) { log.pop_front(); }
                evicted += (before - log.len()) as u64;
                m.count("cleared", got as u64);
                if !m.eq(&got, &(before - log.len()), "clear-count", || trace.clone()) { return; }
            }
            _ => {
                match store.create_resumption_token().await {
                    Ok(t) => {
                        let Some(last) = log.back() else { m.fail("token-of-nothing", &trace); return };
                        m.check(t.session_id == last.session_id && t.last_event_id == last.id && t.expires_at > Utc::now() && !tokens.iter().any(|x| x.0 == t.token), "token", || format!("{trace} | {t:?}"));
                        tokens.push((t.token, t.session_id, t.last_event_id, last.sequence + 1));
                    }
                    Err(_) => { if !m.check(log.is_empty(), "token-refused", || trace.clone()) { return; } }
                }
                let unknown = format!("t{}", r.u64());
                m.check(store.validate_resumption_token(&unknown).await.unwrap().is_none(), "unknown-token", || trace.clone());
                if !tokens.is_empty() {
                    let t = r.pick(&tokens).clone();
                    match store.validate_resumption_token(&t.0).await.unwrap() {
                        Some(s) => { m.check(s.session_id == t.1 && s.last_event_id == t.2 && s.next_sequence == t.3, "token-state", || format!("{trace} | {t:?} {s:?}")); }
                        None => m.fail("token-lost", format!("{trace} | {t:?}")),
                    }
                    if r.bool() {
                        // A fresh manager (a reconnection) resumes from it.
                        let st: Arc<InMemoryEventStore> = Arc::new(InMemoryEventStore::new(10, CD::hours(1)));
                        let other = ResumptionManager::new(st, "x".into());
                        m.check(other.resume_from_token(&t.0).await.is_err(), "token-of-another-store", || trace.clone());
                    }
                }
            }
        }
    }
    m.count("events stored", n);
    m.count("events evicted", evicted);
    m.case(&trace, evicted > 0 && asked > 0);
    m.sample("store history", || trace.clone());
}

async fn manager_history(m: &Mon, r: &mut Rng) {
    let cap = *r.pick(&[1usize, 3, 6, 12, 50, 200]);
    let store = Arc::new(InMemoryEventStore::new(cap, CD::hours(5)));
    let dynamic: Arc<dyn EventStore> = store.clone();
    let k = r.range(1, 3);
    let alike = *r.pick(&[["s0", "s1", "s2"], ["s", "S", "s "], ["a", "a/b", "ab"], ["", "s", "S"]]);
    let mut managers: Vec<ResumptionManager> = (0..k).map(|i| ResumptionManager::new(dynamic.clone(), alike[i].into())).collect();
    let mut last_seq: Vec<Option<u64>> = vec![None; k];
    // The model: message number, session, outbound; retained ones with the id the store gave.
    let mut log: VecDeque<(u64, usize, bool)> = VecDeque::new();
    let mut ids: HashMap<u64, String> = HashMap::new();
    let mut tokens: Vec<(String, usize, u64)> = vec![];
    let mut n = 0u64;
    let (mut evicted, mut resumed) = (0u64, 0u64);
    let mut trace = format!("cap {cap} sessions {k}:");
    let mut used: Vec<HashSet<u64>> = vec![HashSet::new(); k];
    for _ in 0..r.range(4, 60) {
        match r.below(8) {
            0..=3 => {
                let i = r.below(k);
                let out = r.bool();
                n += 1;
                if out { managers[i].record_outbound(msg(n)).await.unwrap() } else { managers[i].record_inbound(msg(n)).await.unwrap() }
                trace += &format!(" s{i}{}{n}", if out { '>' } else { '<' });
                log.push_back((n, i, out));
                while log.len() > cap { log.pop_front(); evicted += 1; }
                let got = store.get_events_since("none", None).await.unwrap();
                let shape: Vec<_> = got.iter().map(|e| (unmsg(&e.message), e.session_id.clone(), e.direction == MessageDirection::Outbound)).collect();
                let want: Vec<_> = log.iter().map(|x| (x.0, alike[x.1].to_string(), x.2)).collect();
                if !m.eq(&shape, &want, "recorded", || trace.clone()) { return; }
                let e = got.last().unwrap();
                m.check(ids.values().all(|x| *x != e.id), "id-reused", || trace.clone());
                ids.insert(n, e.id.clone());
                if !m.check(used[i].insert(e.sequence) && last_seq[i].map_or(true, |l| e.sequence > l), "sequence", || format!("{trace} | {} after {:?}", e.sequence, last_seq[i])) { return; }
                last_seq[i] = Some(e.sequence);
            }
            4 => {
                let i = r.below(k);
                match managers[i].create_token().await {
                    Ok(t) => {
                        let Some(l) = log.back() else { m.fail("token-of-nothing", &trace); return };
                        m.check(t.last_event_id == ids[&l.0] && t.session_id == alike[l.1], "token", || format!("{trace} | {t:?}"));
                        trace += &format!(" token@{}", l.0);
                        tokens.push((t.token, l.1, l.0));
                    }
                    Err(_) => { m.check(log.is_empty(), "token-refused", || trace.clone()); }
                }
            }
            5 | 6 => {
                let i = r.below(k);
                m.check(managers[i].resume_from_token("nothing").await.is_err(), "unknown-token-resumed", || trace.clone());
                let Some(t) = (if tokens.is_empty() { None } else { Some(r.pick(&tokens).clone()) }) else { continue };
                // Either the same manager resumes, or a new one takes over the session.
                if r.chance(1, 3) && t.1 == i { managers[i] = ResumptionManager::new(dynamic.clone(), alike[i].into()); last_seq[i] = None; used[i].clear(); }
                match managers[i].resume_from_token(&t.0).await {
                    Ok(got) => {
                        let got: Vec<u64> = got.iter().map(|e| unmsg(&e.message)).collect();
                        let from = log.iter().position(|x| x.0 == t.2).map_or(0, |p| p + 1);
                        let want: Vec<u64> = log.iter().skip(from).filter(|x| x.1 == t.1).map(|x| x.0).collect();
                        trace += &format!(" resume s{i} from {}", t.2);
                        resumed += 1;
                        m.count("events replayed on resumption", got.len() as u64);
                        if !m.eq(&got, &want, "resumed", || trace.clone()) { return; }
                        // What follows continues past the token's position.
                        if let Some(e) = store.get_events_since("none", None).await.unwrap().iter().find(|e| unmsg(&e.message) == t.2) {
                            let floor = e.sequence;
                            last_seq[i] = Some(last_seq[i].map_or(floor, |l| l.max(floor)));
                        }
                    }
                    Err(e) => { m.fail("token-not-resumed", format!("{trace} | {t:?}: {e}")); return; }
                }
            }
            _ => {
                if k > 1 || n == 0 { continue; }
                let since = 1 + r.below(n as usize) as u64;
                let got: Vec<u64> = managers[0].get_pending_events(&ids[&since]).await.unwrap().iter().map(|e| unmsg(&e.message)).collect();
                let from = log.iter().position(|x| x.0 == since).map_or(0, |p| p + 1);
                let want: Vec<u64> = log.iter().skip(from).filter(|x| x.2).map(|x| x.0).collect();
                m.count("pending queries", 1);
                if !m.eq(&got, &want, "pending", || format!("{trace} | since {since}")) { return; }
            }
        }
    }
    m.case(&trace, evicted > 0 && resumed > 0);
    m.sample("manager history", || trace.clone());
}

async fn many_events(m: &Mon, r: &mut Rng) {
    let cap = *r.pick(&[1001usize, 2000, 100_000]);
    let n = 2500u64;
    let store = Arc::new(InMemoryEventStore::new(cap, CD::hours(5)));
    let mg = ResumptionManager::new(store.clone() as Arc<dyn EventStore>, "s".into());
    let mut tokens = vec![];
    for k in 1..=n {
        if r.bool() { mg.record_outbound(msg(k)).await.unwrap() } else { mg.record_inbound(msg(k)).await.unwrap() }
        if r.chance(3, 5) { let t = mg.create_token().await.unwrap(); tokens.push((t.token, k, t.last_event_id)); }
    }
    let first = n.saturating_sub(cap as u64) + 1;
    let all: Vec<u64> = store.get_events_since("none", None).await.unwrap().iter().map(|e| unmsg(&e.message)).collect();
    if !m.eq(&all.len(), &((n + 1 - first) as usize), "bound", || format!("cap {cap}")) { return; }
    m.check(all.iter().enumerate().all(|(i, x)| *x == first + i as u64), "recorded", || format!("cap {cap}: {:?}..", &all[..5]));
    m.max("events retained", all.len() as u64);
    m.max("tokens at once", tokens.len() as u64);
    for _ in 0..60 {
        let (t, k, id) = r.pick(&tokens).clone();
        let got: Vec<u64> = match mg.resume_from_token(&t).await { Ok(e) => e.iter().map(|e| unmsg(&e.message)).collect(), Err(e) => { m.fail("token-not-resumed", format!("event {k} of {n}, cap {cap}: {e}")); return } };
        let want: Vec<u64> = (first.max(k + 1)..=n).collect();
        if !m.check(got == want, "resumed", || format!("from {k}, cap {cap}: {} events, want {}", got.len(), want.len())) { return; }
        let limit = r.range(1, 1200);
        let got: Vec<u64> = store.get_events_since(&id, Some(limit)).await.unwrap().iter().map(|e| unmsg(&e.message)).collect();
        if !m.check(got == want[..limit.min(want.len())], "since", || format!("from {k} limit {limit}, cap {cap}: {} events", got.len())) { return; }
    }
    m.case(("many", cap, tokens.len()), true);
}

async fn store_threads(m: Arc<Mon>, seed: u64) {
    let mut r = Rng::new(seed);
    let cap = *r.pick(&[10usize, 100, 100_000]);
    let store = Arc::new(InMemoryEventStore::new(cap, CD::hours(5)));
    let dynamic: Arc<dyn EventStore> = store.clone();
    let sessions = 1 + r.below(3);
    let managers: Vec<Arc<ResumptionManager>> = (0..sessions).map(|i| Arc::new(ResumptionManager::new(dynamic.clone(), format!("s{i}")))).collect();
    const TASKS: u64 = 6;
    let each = 200u64;
    let done = Arc::new(AtomicBool::new(false));
    let reader = { let (store, m, done) = (store.clone(), m.clone(), done.clone()); tokio::spawn(async move {
        // Any snapshot keeps each writer's order.
        let mut snaps = 0u64;
        while !done.load(Ordering::SeqCst) {
            let got: Vec<u64> = store.get_events_since("none", None).await.unwrap().iter().map(|e| unmsg(&e.message)).collect();
            let mut last: HashMap<u64, u64> = HashMap::new();
            for x in &got { if !m.check(last.insert(x / 100_000, *x).map_or(true, |l| l + 1 == *x), "snapshot", || format!("{got:?}")) { return; } }
            snaps += 1;
            tokio::task::yield_now().await;
        }
        m.count("concurrent snapshots", snaps);
    }) };
    let jobs: Vec<_> = (0..TASKS).map(|t| { let (mg, m) = (managers[t as usize % sessions].clone(), m.clone()); let mut r = r.fork(); tokio::spawn(async move {
        for s in 0..each {
            let x = msg(t * 100_000 + s);
            if r.bool() { mg.record_outbound(x).await.unwrap() } else { mg.record_inbound(x).await.unwrap() }
            if r.chance(1, 20) {
                let tok = mg.create_token().await.unwrap();
                if mg.resume_from_token(&tok.token).await.is_err() { m.fail("token-not-resumed", "under concurrency"); }
            }
            if r.chance(1, 8) { tokio::task::yield_now().await; }
        }
    }) }).collect();
    for j in jobs { if j.await.is_err() { m.fail("panic", "a recording task panicked"); } }
    done.store(true, Ordering::SeqCst);
    reader.await.unwrap();
    let got = store.get_events_since("none", None).await.unwrap();
    m.check(got.len() == cap.min((TASKS * each) as usize), "bound", || format!("{} retained, limit {cap}", got.len()));
    let mut seqs: HashMap<String, HashSet<u64>> = HashMap::new();
    for e in &got { if !m.check(seqs.entry(e.session_id.clone()).or_default().insert(e.sequence), "sequence-repeated", || format!("{} {}", e.session_id, e.sequence)) { return; } }
    let ids: HashSet<_> = got.iter().map(|e| &e.id).collect();
    m.check(ids.len() == got.len(), "id-reused", || format!("{} ids for {}", ids.len(), got.len()));
    let mut last: BTreeMap<u64, u64> = BTreeMap::new();
    let mut switches = 0u64;
    let mut prev = 0;
    for e in &got {
        let x = unmsg(&e.message);
        if !m.check(last.insert(x / 100_000, x).map_or(true, |l| l + 1 == x), "writer-order", || format!("{x}")) { return; }
        if x / 100_000 != prev { switches += 1; prev = x / 100_000; }
    }
    m.count("concurrent records", TASKS * each);
    m.max("writer switches seen in one log", switches);
    m.case(("threads", seed, switches), switches > 1);
}

// ------------------------------------------------------------------ C20

fn c20(m: &Arc<Mon>) {
    let mut r = m.rng("c20");
    m.stage("histories");
    for _ in 0..m.n(8000, 120_000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        vrt().block_on(session_history(m, &mut rr));
    }
    m.stage("many sessions");
    for _ in 0..m.n(4, 40) { if m.stopped() { return; } many_sessions(m, &mut r); }
    m.stage("limit race");
    for _ in 0..m.n(1500, 15_000) { if m.stopped() { return; } limit_race(m, r.u64()); }
    m.stage("update race");
    for _ in 0..m.n(300, 5000) { if m.stopped() { return; } update_race(m, r.u64()); }
    m.stage("destroy race");
    for _ in 0..m.n(400, 6000) { if m.stopped() { return; } destroy_race(m, r.u64()); }
    m.stage("renewal race");
    for _ in 0..m.n(400, 6000) { if m.stopped() { return; } renewal_race(m, r.u64()); }
    m.stage("cleanup task");
    cleanup_task(m);
}

#[derive(Default)]
struct Seen { created: Mutex<Vec<String>>, destroyed: Mutex<Vec<String>>, expired: Mutex<Vec<String>> }
fn watched(config: SessionConfig) -> (SessionManager, Arc<Seen>) {
    let seen = Arc::new(Seen::default());
    let mut mg = SessionManager::new(config);
    let (a, b, c) = (seen.clone(), seen.clone(), seen.clone());
    mg.set_callbacks(SessionCallbacks {
        on_create: Some(Box::new(move |s: &Session| a.created.lock().unwrap().push(s.id.clone()))),
        on_destroy: Some(Box::new(move |s: &Session| b.destroyed.lock().unwrap().push(s.id.clone()))),
        on_expire: Some(Box::new(move |s: &Session| c.expired.lock().unwrap().push(s.id.clone()))),
    });
    (mg, seen)
}
fn config(max: usize) -> SessionConfig { SessionConfig { max_sessions: max, ..SessionConfig::default() } }

#[derive(Clone, Debug)]
struct Model { data: serde_json::Value, auth: Option<String>, expired: bool, agent: Option<String>, until: chrono::DateTime<Utc> }

async fn session_history(m: &Mon, r: &mut Rng) {
    let max = *r.pick(&[0usize, 1, 2, 3, 6, 1000]);
    let timeout = if r.chance(1, 4) { CD::hours(*r.pick(&[24, 25, 72, 1000, 100_000])) } else { CD::hours(1 + r.below(4) as i64) };
    let (mg, seen) = watched(SessionConfig { timeout, ..config(max) });
    let mg = Arc::new(mg);
    let mw = SessionMiddleware::new(mg.clone());
    let mut live: BTreeMap<String, Model> = BTreeMap::new();
    let mut gone: Vec<String> = vec![];
    let mut ids: HashSet<String> = HashSet::new();
    let (mut created, mut destroyed, mut expired): (Vec<String>, Vec<String>, Vec<String>) = Default::default();
    let mut trace = format!("max {max}:");
    let mut names: Vec<String> = vec![];
    let mut eventful = false;
    for _ in 0..r.range(4, 50) {
        let pick = |r: &mut Rng| -> String { if names.is_empty() || r.chance(1, 10) { format!("unknown{}", r.below(100)) } else { r.pick(&names).clone() } };
        let name = |names: &[String], id: &str| names.iter().position(|x| x == id).map_or(id.to_string(), |i| format!("#{i}"));
        match r.below(12) {
            0..=2 => {
                let agent = if r.bool() { Some(format!("agent{}", r.below(9))) } else { None };
                let info = agent.clone().map(|a| ClientInfo { user_agent: Some(a), ip_address: None, protocol_version: "1".into() });
                trace += " create";
                match mg.create_session(info) {
                    Ok(s) => {
                        if !m.check(live.len() < max, "limit", || trace.clone()) { return; }
                        m.check(ids.insert(s.id.clone()), "id-reused", || trace.clone());
                        m.check(s.expires_at - s.created_at == timeout, "lifetime", || format!("{trace} {s:?}: configured {timeout}"));
                        m.check(!s.authenticated && s.auth_info.is_none() && s.data == json!({}) && s.expires_at > Utc::now() && s.client_info.as_ref().and_then(|c| c.user_agent.clone()) == agent, "created", || format!("{trace} {s:?}"));
                        live.insert(s.id.clone(), Model { data: json!({}), auth: None, expired: false, agent, until: s.expires_at });
                        names.push(s.id.clone());
                        created.push(s.id);
                    }
                    Err(_) => { eventful = true; m.count("refused at the limit", 1); if !m.check(live.len() >= max, "refused-below-limit", || trace.clone()) { return; } }
                }
            }
            3 => {
                let id = pick(r);
                // Reading an expired session that was not yet removed is left open; it must not be brought back.
                if live.get(&id).is_some_and(|x| x.expired) { continue; }
                trace += &format!(" get {}", name(&names, &id));
                let got = mg.get_session(&id);
                if !same(m, got.as_ref(), live.get(&id), "get", &trace) { return; }
            }
            4 | 5 => {
                let id = pick(r);
                trace += &format!(" validate {}", name(&names, &id));
                let got = mg.validate_session(&id).ok();
                let want = live.get(&id).filter(|x| !x.expired).cloned();
                if !same(m, got.as_ref(), want.as_ref(), "validate", &trace) { return; }
                if live.get(&id).is_some_and(|x| x.expired) { live.remove(&id); gone.push(id.clone()); destroyed.push(id); eventful = true; m.count("expired on validation", 1); }
            }
            6 => {
                let id = pick(r);
                let k = format!("k{}", r.below(3));
                let v = r.below(100);
                trace += &format!(" update {}", name(&names, &id));
                let ok = mg.update_session(&id, |s| { s.data[&k] = json!(v); }).is_ok();
                if !m.eq(&ok, &live.contains_key(&id), "update", || trace.clone()) { return; }
                if let Some(x) = live.get_mut(&id) { x.data[&k] = json!(v); }
            }
            7 => {
                let id = pick(r);
                let who = format!("user{}", r.below(5));
                trace += &format!(" auth {}", name(&names, &id));
                let ok = mg.authenticate_session(&id, who.clone()).is_ok();
                if !m.eq(&ok, &live.contains_key(&id), "authenticate", || trace.clone()) { return; }
                if let Some(x) = live.get_mut(&id) { x.auth = Some(who); }
            }
            8 => {
                let id = pick(r);
                if live.get(&id).is_some_and(|x| x.expired) { continue; }
                trace += &format!(" destroy {}", name(&names, &id));
                let ok = mg.destroy_session(&id).is_ok();
                if !m.eq(&ok, &live.contains_key(&id), "destroy", || trace.clone()) { return; }
                if live.remove(&id).is_some() { gone.push(id.clone()); destroyed.push(id); eventful = true; }
            }
            9 => {
                let id = pick(r);
                let past = r.bool();
                if !live.contains_key(&id) { continue; }
                trace += &format!(" {} {}", if past { "expire" } else { "renew" }, name(&names, &id));
                let mut until = Utc::now();
                mg.update_session(&id, |s| { s.expires_at = if past { Utc::now() - if v(&s.id) % 3 == 0 { CD::milliseconds(2 + (v(&s.id) % 900) as i64) } else { CD::seconds(1 + (v(&s.id) % 5000) as i64) } } else { Utc::now() + CD::hours(3) }; until = s.expires_at; }).unwrap();
                let x = live.get_mut(&id).unwrap();
                (x.expired, x.until) = (past, until);
            }
            10 => {
                if r.bool() { continue; }
                trace += " cleanup";
                mg.cleanup_expired();
                let dead: Vec<String> = live.iter().filter(|(_, x)| x.expired).map(|(k, _)| k.clone()).collect();
                m.count("expired by cleanup", dead.len() as u64);
                if !dead.is_empty() { eventful = true; }
                for d in dead { live.remove(&d); gone.push(d.clone()); expired.push(d); }
            }
            _ => {
                // The middleware accepts a live session's id from cookie or header, nothing else.
                let id = pick(r);
                let mut h: HashMap<String, String> = HashMap::new();
                let other = format!("unknown{}", r.below(9));
                let kind = r.below(11);
                let odd: String;
                let want_id = match kind {
                    0 => { h.insert(r.pick(&["cookie", "Cookie"]).to_string(), format!("a=b; mcp-session-id={id}; z=1")); Some(&id) }
                    1 => { h.insert(r.pick(&["X-Session-ID", "x-session-id"]).to_string(), id.clone()); Some(&id) }
                    2 => { h.insert("cookie".into(), format!("mcp-session-id={id}")); h.insert("X-Session-ID".into(), other.clone()); Some(&id) }
                    3 => { h.insert("cookie".into(), "theme=dark; mcp-session-idx=1".into()); h.insert("X-Session-ID".into(), id.clone()); Some(&id) }
                    4 => { h.insert("cookie".into(), format!("other={id}")); None }
                    5 => { h.insert("cookie".into(), format!("x-mcp-session-id={other}; mcp-session-id2={other};mcp-session-id={id};mcp-session-id={other}")); Some(&id) }
                    6 => { odd = r.pick(&["a=b", "=", "x==", "mcp-session-id=", "\"q\""]).to_string(); h.insert("cookie".into(), format!("a; =;b=; mcp-session-id={odd}")); Some(&odd) }
                    7 => { h.insert("cookie".into(), format!("a=1,mcp-session-id={id}; mcp_session_id={id}")); None }
                    8 => { h.insert("cookie".into(), format!("MCP-Session-ID={id}; Mcp-session-id={id}")); None }
                    9 => { h.insert("cookie".into(), format!("a=\"mcp-session-id={id}\"")); h.insert(r.pick(&["session-id", "authorization", "X-Session"]).to_string(), id.clone()); None }
                    _ => None,
                };
                trace += &format!(" middleware{kind} {}", name(&names, &id));
                m.eq(&extract_session_id(&h), &want_id.cloned(), "extract", || format!("{trace} {h:?}"));
                let (s, handed) = mw.process(&h, |s| s).await.unwrap();
                let want = want_id.and_then(|id| live.get(id)).filter(|x| !x.expired).cloned();
                if !same(m, s.as_ref(), want.as_ref(), "middleware", &trace) || !same(m, handed.as_ref(), want.as_ref(), "middleware-handler", &trace) { return; }
                if let Some(s) = &s { m.check(Some(&s.id) == want_id, "middleware-id", || trace.clone()); }
                if let Some(id) = want_id { if live.get(id).is_some_and(|x| x.expired) {
                    // Whether refusing it also removes it is left open; make it definite.
                    let _ = mg.validate_session(id);
                    live.remove(id); gone.push(id.clone()); destroyed.push(id.clone()); eventful = true;
                } }
            }
        }
        // Nothing else changed.
        if !m.eq(&mg.session_count(), &live.len(), "count", || trace.clone()) { return; }
        if r.chance(1, 4) {
            let got: BTreeMap<String, Session> = mg.active_sessions().into_iter().map(|s| (s.id.clone(), s)).collect();
            if !m.eq(&got.keys().collect::<Vec<_>>(), &live.keys().collect::<Vec<_>>(), "active", || trace.clone()) { return; }
            for (k, s) in &got { if !same(m, Some(s), live.get(k), "active-content", &trace) { return; } }
            for g in &gone { if !m.check(mg.get_session(g).is_none(), "revived", || trace.clone()) { return; } }
        }
    }
    m.eq(&*seen.created.lock().unwrap(), &created, "on-create", || trace.clone());
    m.eq(&*seen.destroyed.lock().unwrap(), &destroyed, "on-destroy", || trace.clone());
    let sorted = |v: &[String]| v.iter().cloned().collect::<BTreeSet<_>>();
    m.check(sorted(&seen.expired.lock().unwrap()) == sorted(&expired) && seen.expired.lock().unwrap().len() == expired.len(), "on-expire", || format!("{trace}: {:?} want {expired:?}", seen.expired.lock().unwrap()));
    m.count("sessions created", created.len() as u64);
    m.case(&trace, eventful);
    m.sample("session history", || trace.clone());
}
fn v(id: &str) -> u64 { id.bytes().map(u64::from).sum() }
fn same(m: &Mon, got: Option<&Session>, want: Option<&Model>, sig: &str, trace: &str) -> bool {
    let ok = match (got, want) {
        (None, None) => true,
        (Some(g), Some(w)) => g.data == w.data && g.expires_at == w.until && g.authenticated == w.auth.is_some() && g.auth_info == w.auth && g.client_info.as_ref().and_then(|c| c.user_agent.clone()) == w.agent,
        _ => false,
    };
    m.check(ok, sig, || format!("{trace}: got {got:?}, want {want:?}"))
}

/// Runs the jobs at the same moment on threads of their own.
fn together(jobs: Vec<Box<dyn FnOnce() + Send>>) -> bool {
    let b = Arc::new(Barrier::new(jobs.len()));
    let hs: Vec<_> = jobs.into_iter().map(|j| { let b = b.clone(); std::thread::spawn(move || { b.wait(); j() }) }).collect();
    let mut ok = true;
    for h in hs { ok &= h.join().is_ok(); }
    ok
}

fn many_sessions(m: &Arc<Mon>, r: &mut Rng) {
    let max = *r.pick(&[1001usize, 1500, 3000]);
    let (mg, seen) = watched(config(max));
    let mut ids = vec![];
    for k in 0..max {
        match mg.create_session(None) { Ok(s) => ids.push(s.id), Err(e) => { m.fail("create", format!("session {k} of {max}: {e}")); return } }
    }
    let distinct: HashSet<&String> = ids.iter().collect();
    m.check(distinct.len() == max && mg.session_count() == max && mg.active_sessions().len() == max && seen.created.lock().unwrap().len() == max, "count", || format!("{} of {max}", mg.session_count()));
    m.check(mg.create_session(None).is_err(), "limit", || format!("{max}"));
    let mut kept = HashSet::new();
    for (k, id) in ids.iter().enumerate() {
        let keep = r.bool();
        mg.update_session(id, |s| { s.data = json!(k); if !keep { s.expires_at = Utc::now() - CD::hours(1) } }).unwrap();
        if keep { kept.insert(k); }
    }
    mg.cleanup_expired();
    m.check(mg.session_count() == kept.len() && seen.expired.lock().unwrap().len() == max - kept.len(), "cleanup", || format!("{} live, {} kept of {max}", mg.session_count(), kept.len()));
    for (k, id) in ids.iter().enumerate() {
        let got = mg.validate_session(id);
        let ok = match &got { Ok(s) => kept.contains(&k) && s.data == json!(k), Err(_) => !kept.contains(&k) };
        if !m.check(ok, "validate", || format!("session {k} of {max}: {got:?}")) { return; }
    }
    m.max("sessions at once", max as u64);
    m.case(("many", max, kept.len()), true);
}

fn limit_race(m: &Arc<Mon>, seed: u64) {
    let mut r = Rng::new(seed);
    let max = *r.pick(&[1usize, 2, 7, 20]);
    let (mg, seen) = watched(config(max));
    let mg = Arc::new(mg);
    let ok = Arc::new(AtomicUsize::new(0));
    let over = Arc::new(AtomicUsize::new(0));
    let ended = Arc::new(AtomicUsize::new(0));
    // never more than are really live; counting them is no snapshot while others come and go
    let live = Arc::new(std::sync::atomic::AtomicI64::new(0));
    let churn = r.chance(1, 3);
    let jobs: Vec<Box<dyn FnOnce() + Send>> = (0..8).map(|_| { let (mg, ok, over, ended, live) = (mg.clone(), ok.clone(), over.clone(), ended.clone(), live.clone()); let mut r = r.fork(); Box::new(move || for _ in 0..8 {
        if let Ok(s) = mg.create_session(None) {
            ok.fetch_add(1, Ordering::SeqCst);
            over.fetch_max((live.fetch_add(1, Ordering::SeqCst) + 1) as usize, Ordering::SeqCst);
            if churn && r.bool() { live.fetch_sub(1, Ordering::SeqCst); if mg.destroy_session(&s.id).is_ok() { ended.fetch_add(1, Ordering::SeqCst); } }
        }
        if !churn { over.fetch_max(mg.session_count(), Ordering::SeqCst); }
    }) as Box<dyn FnOnce() + Send> }).collect();
    m.check(together(jobs), "panic", || "limit race".into());
    let (ok, over, ended) = (ok.load(Ordering::SeqCst), over.load(Ordering::SeqCst), ended.load(Ordering::SeqCst));
    m.check(over <= max && mg.session_count() <= max, "limit-race", || format!("{over} live sessions, limit {max}"));
    m.check(mg.session_count() == ok - ended, "count-race", || format!("{} live, {ok} created, {ended} destroyed", mg.session_count()));
    if !churn { m.check(ok == max.min(64), "limit-race-refused", || format!("{ok} created of 64, limit {max}")); }
    let ids: HashSet<String> = seen.created.lock().unwrap().iter().cloned().collect();
    m.check(ids.len() == ok && seen.created.lock().unwrap().len() == ok && seen.destroyed.lock().unwrap().len() == ended, "callbacks-race", || format!("{ok} created, {ended} destroyed, callbacks {} and {}", seen.created.lock().unwrap().len(), seen.destroyed.lock().unwrap().len()));
    m.count("concurrent creations", 64);
    m.max("live sessions seen against their limit", over as u64);
    m.case(("limit", seed), true);
}

fn update_race(m: &Arc<Mon>, seed: u64) {
    let mut r = Rng::new(seed);
    let mg = Arc::new(SessionManager::new(config(10)));
    let k = 1 + r.below(2);
    let ids: Vec<String> = (0..k).map(|_| mg.create_session(None).unwrap().id).collect();
    const EACH: u64 = 150;
    let mut jobs: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for t in 0..4u64 {
        let (mg, id, m) = (mg.clone(), ids[t as usize % k].clone(), m.clone());
        jobs.push(Box::new(move || for i in 1..=EACH {
            mg.update_session(&id, |s| { s.data[format!("t{t}")] = json!(i); let c = s.data["n"].as_u64().unwrap_or(0); s.data["n"] = json!(c + 1); }).unwrap();
            // A read after the update sees it.
            let s = if i % 2 == 0 { mg.get_session(&id) } else { mg.validate_session(&id).ok() };
            let got = s.map(|s| s.data[format!("t{t}")].as_u64());
            if !m.check(got == Some(Some(i)), "update-lost", || format!("thread {t} wrote {i}, then read {got:?}")) { return; }
        }));
    }
    for _ in 0..2 {
        let (mg, ids, m) = (mg.clone(), ids.clone(), m.clone());
        jobs.push(Box::new(move || {
            let mut last: HashMap<String, u64> = HashMap::new();
            for i in 0..600 {
                let id = &ids[i % ids.len()];
                let n = mg.get_session(id).unwrap().data["n"].as_u64().unwrap_or(0);
                let l = last.insert(id.clone(), n).unwrap_or(0);
                if !m.check(n >= l, "read-went-back", || format!("{l} then {n}")) { return; }
            }
        }));
    }
    {
        let (mg, id, m) = (mg.clone(), ids[0].clone(), m.clone());
        jobs.push(Box::new(move || { mg.authenticate_session(&id, "me".into()).unwrap(); for _ in 0..200 {
            let s = mg.get_session(&id).unwrap();
            if !m.check(s.authenticated && s.auth_info.as_deref() == Some("me"), "authentication-lost", || format!("{s:?}")) { break; }
        } }));
    }
    {
        let mg = mg.clone();
        jobs.push(Box::new(move || for _ in 0..200 { mg.cleanup_expired(); let _ = mg.active_sessions(); }));
    }
    m.check(together(jobs), "panic", || "update race".into());
    let total: u64 = ids.iter().map(|id| mg.get_session(id).unwrap().data["n"].as_u64().unwrap()).sum();
    m.check(total == 4 * EACH, "updates-lost", || format!("{total} of {} updates kept", 4 * EACH));
    m.count("concurrent updates", 4 * EACH);
    m.case(("update", seed), true);
}

fn destroy_race(m: &Arc<Mon>, seed: u64) {
    let mut r = Rng::new(seed);
    let (mg, seen) = watched(config(1000));
    let mg = Arc::new(mg);
    let ids: Vec<String> = (0..40).map(|_| mg.create_session(None).unwrap().id).collect();
    let wins: Arc<Vec<AtomicU64>> = Arc::new((0..40).map(|_| AtomicU64::new(0)).collect());
    let mut jobs: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for _ in 0..2 {
        let (mg, ids, wins, m) = (mg.clone(), ids.clone(), wins.clone(), m.clone());
        jobs.push(Box::new(move || for (i, id) in ids.iter().enumerate() {
            if mg.destroy_session(id).is_ok() { wins[i].fetch_add(1, Ordering::SeqCst); }
            m.check(mg.get_session(id).is_none() && mg.validate_session(id).is_err() && mg.update_session(id, |_| ()).is_err(), "accepted-after-destroy", || id.clone());
        }));
    }
    for _ in 0..4 {
        let (mg, ids) = (mg.clone(), ids.clone());
        let mut r = r.fork();
        jobs.push(Box::new(move || for id in &ids { for _ in 0..3 { match r.below(4) { 0 => drop(mg.validate_session(id)), 1 => drop(mg.update_session(id, |s| s.data = json!(1))), 2 => drop(mg.authenticate_session(id, "x".into())), _ => drop(mg.get_session(id)) } } }));
    }
    m.check(together(jobs), "panic", || "destroy race".into());
    m.check(mg.session_count() == 0, "revived", || format!("{} sessions live after all were destroyed", mg.session_count()));
    m.check(wins.iter().all(|w| w.load(Ordering::SeqCst) == 1), "destroyed-once", || format!("{wins:?}"));
    m.check(seen.destroyed.lock().unwrap().len() == 40, "on-destroy-race", || format!("{}", seen.destroyed.lock().unwrap().len()));
    m.count("sessions destroyed under use", 40);
    m.case(("destroy", seed), true);
}

/// A session renewed by a completed update is not removed by checks that began before it; one that
/// stays expired is removed and reported exactly once.
fn renewal_race(m: &Arc<Mon>, seed: u64) {
    let mut r = Rng::new(seed);
    let (mg, seen) = watched(config(1000));
    let mg = Arc::new(mg);
    let ids: Vec<String> = (0..60).map(|_| mg.create_session(None).unwrap().id).collect();
    for id in &ids { mg.update_session(id, |s| s.expires_at = Utc::now() - CD::hours(1)).unwrap(); }
    let renewed: Arc<Mutex<Vec<String>>> = Arc::default();
    let mut jobs: Vec<Box<dyn FnOnce() + Send>> = vec![];
    {
        let (mg, ids, renewed) = (mg.clone(), ids.clone(), renewed.clone());
        let rev = r.bool();
        jobs.push(Box::new(move || { let it: Box<dyn Iterator<Item = &String>> = if rev { Box::new(ids.iter().rev()) } else { Box::new(ids.iter()) }; for id in it { if mg.update_session(id, |s| s.expires_at = Utc::now() + CD::hours(1)).is_ok() { renewed.lock().unwrap().push(id.clone()); } } }));
    }
    for _ in 0..2 { let (mg, ids) = (mg.clone(), ids.clone()); jobs.push(Box::new(move || for id in &ids { drop(mg.validate_session(id)); })); }
    { let mg = mg.clone(); let n = r.range(1, 10); jobs.push(Box::new(move || for _ in 0..n { mg.cleanup_expired() })); }
    m.check(together(jobs), "panic", || "renewal race".into());
    let renewed = renewed.lock().unwrap();
    for id in renewed.iter() { if !m.check(mg.validate_session(id).is_ok(), "renewed-destroyed", || format!("{} renewed; {id} gone", renewed.len())) { return; } }
    let (d, e) = (seen.destroyed.lock().unwrap().len(), seen.expired.lock().unwrap().len());
    m.check(d + e == 60 - renewed.len() && mg.session_count() == renewed.len(), "expiry-reported", || format!("{} renewed, {d} destroyed, {e} expired, {} live", renewed.len(), mg.session_count()));
    m.count("sessions renewed in time", renewed.len() as u64);
    m.count("sessions expired under race", (60 - renewed.len()) as u64);
    m.case(("renew", seed, renewed.len()), true);
}

fn cleanup_task(m: &Arc<Mon>) {
    let left = mon::virtually(async {
        let mg = Arc::new(SessionManager::new(config(100)));
        let ids: Vec<String> = (0..10).map(|_| mg.create_session(None).unwrap().id).collect();
        for id in &ids[..5] { mg.update_session(id, |s| s.expires_at = Utc::now() - CD::hours(1)).unwrap(); }
        let t = tokio::spawn(session_cleanup_task(mg.clone(), CD::seconds(30)));
        tokio::time::sleep(std::time::Duration::from_secs(31)).await;
        let first = mg.session_count();
        mg.update_session(&ids[7], |s| s.expires_at = Utc::now() - CD::hours(1)).unwrap();
        tokio::time::sleep(std::time::Duration::from_secs(31)).await;
        t.abort();
        (first, mg.session_count(), mg.get_session(&ids[7]).is_none())
    });
    m.eq(&left, &Some((5, 4, true)), "cleanup-task", || "five of ten sessions had expired, then one more".into());
    m.case("cleanup-task", true);
}
