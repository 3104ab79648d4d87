//! C17 (notification debouncing and batching), C18 (message batching and debouncing).
use mon::{mrt, settle, virtually, Check, Mon, Rng};
use pmcp::server::notification_debouncer::{NotificationBatcher, NotificationDebouncer, NotificationDebouncerConfig};
use pmcp::types::protocol::*;
use pmcp::types::*;
use pmcp::{BatchingConfig, DebouncingConfig, MessageBatcher, MessageDebouncer};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::mpsc;
use tokio::time::Instant;

fn main() {
    mon::main(&[
        Check { id: "C17", rule: "a timed history of submissions, flushes and a stop; non-trivial with at least two keys and a key submitted more than once", run: c17 },
        Check { id: "C18", rule: "a timed history of submissions and receptions; non-trivial with several batches, or a superseded message", run: c18 },
    ]);
}

/// Addresses and tokens that differ only a little, and hold the characters that keys are made of.
const URIS: [&str; 12] = ["file:///a", "file:///a/", "FILE:///a", "file:///a#", "file:///b:1", "file:///b:2", "u", "u ", "progress:1", "log", "", "é"];
const TOKENS: [&str; 8] = ["0", "00", " 0", "0 ", "a", "A", "", "Number(0)"];
fn uri(key: usize) -> String { URIS.get(key).map_or_else(|| format!("x:{key}"), |u| u.to_string()) }
fn token(key: usize) -> ProgressToken {
    let k = key / 2;
    if key % 2 == 1 { ProgressToken::Number(k as i64) } else { ProgressToken::String(TOKENS.get(k).map_or_else(|| format!("t{k}"), |t| t.to_string())) }
}
/// Kinds of server notification; the first two carry a sequence number.
fn note(kind: usize, key: usize, seq: u64) -> ServerNotification {
    match kind {
        0 => ServerNotification::Progress(ProgressNotification { progress_token: token(key), progress: seq as f64, message: None }),
        1 => ServerNotification::LogMessage(LogMessageParams { level: [LogLevel::Info, LogLevel::Debug, LogLevel::Error, LogLevel::Warning][seq as usize % 4], logger: None, message: seq.to_string(), data: None }),
        2 => ServerNotification::ResourceUpdated(ResourceUpdatedParams { uri: uri(key) }),
        3 => ServerNotification::ToolsChanged,
        4 => ServerNotification::PromptsChanged,
        5 => ServerNotification::ResourcesChanged,
        _ => ServerNotification::RootsListChanged,
    }
}
type Key = (usize, usize);
fn norm(kind: usize, key: usize) -> Key { if kind == 0 || kind == 2 { (kind, key) } else { (kind, 0) } }
fn unnote(n: &ServerNotification) -> (Key, u64) {
    match n {
        ServerNotification::Progress(p) => ((0, match &p.progress_token { ProgressToken::String(s) => 2 * TOKENS.iter().position(|t| t == s).unwrap_or_else(|| s[1..].parse::<usize>().unwrap()), ProgressToken::Number(n) => *n as usize * 2 + 1 }), p.progress as u64),
        ServerNotification::LogMessage(l) => ((1, 0), l.message.parse().unwrap_or(0)),
        ServerNotification::ResourceUpdated(p) => ((2, URIS.iter().position(|u| *u == p.uri).unwrap_or_else(|| p.uri[2..].parse().unwrap_or(99))), 0),
        ServerNotification::ToolsChanged => ((3, 0), 0),
        ServerNotification::PromptsChanged => ((4, 0), 0),
        ServerNotification::ResourcesChanged => ((5, 0), 0),
        ServerNotification::RootsListChanged => ((6, 0), 0),
    }
}

// ------------------------------------------------------------------ C17

fn c17(m: &Arc<Mon>) {
    let mut r = m.rng("c17");
    m.stage("debouncer histories");
    for _ in 0..m.n(1500, 60_000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        let m2 = m.clone();
        if virtually(async move { debouncer_history(&m2, &mut rr).await }).is_none() { m.fail("hang", "a debouncer history never ended"); }
    }
    m.stage("batcher histories");
    for _ in 0..m.n(1500, 60_000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        let m2 = m.clone();
        if virtually(async move { batcher_history(&m2, &mut rr).await }).is_none() { m.fail("hang", "a batcher history never ended"); }
    }
    m.stage("many keys");
    for k in 0..m.n(4, 60) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        let m2 = m.clone();
        if virtually(async move { if k % 2 == 0 { crowded_debouncer(&m2, &mut rr).await } else { crowded_batcher(&m2, &mut rr).await } }).is_none() { m.fail("hang", "many keys"); }
    }
    m.stage("debouncer and batcher on threads");
    for k in 0..m.n(8, 300) {
        if m.stopped() { return; }
        let (a, b) = (r.u64(), r.u64());
        let rt = mrt(4);
        rt.block_on(async { tokio::join!(debouncer_threads(m.clone(), a), batcher_threads(m.clone(), b)) });
        if k % 4 == 0 { rt.block_on(hot_batcher(m.clone(), b)); }
        rt.shutdown_background();
    }
}

#[derive(Default, Clone, Debug)]
struct Track { pending: Vec<(u64, u64)>, last_delivered: Option<u64>, last_submitted: Option<u64>, group_at: Option<u64>, group_n: usize }

async fn debouncer_history(m: &Arc<Mon>, r: &mut Rng) {
    let interval = r.range(10, 900) as u64;
    let max_wait = r.range(60, 3000) as u64;
    let mut types = HashMap::new();
    if r.chance(1, 3) { types.insert("progress".to_string(), if r.chance(1, 6) { 0 } else { r.range(10, 900) as u64 }); }
    if r.chance(1, 3) { types.insert("log".to_string(), if r.chance(1, 6) { 0 } else { r.range(10, 900) as u64 }); }
    if r.chance(1, 3) { types.insert("resource_updated".to_string(), if r.chance(1, 6) { 0 } else { r.range(10, 900) as u64 }); }
    if r.chance(1, 3) { types.insert("resources/list_changed".to_string(), if r.chance(1, 6) { 0 } else { r.range(10, 900) as u64 }); }
    let merging = r.bool();
    let max_batch = r.range(0, 6);
    let cfg = NotificationDebouncerConfig { default_interval: Duration::from_millis(interval), type_intervals: types.iter().map(|(k, v)| (k.clone(), Duration::from_millis(*v))).collect(), max_batch_size: max_batch, enable_merging: merging, max_wait_time: Duration::from_millis(max_wait) };
    let quiet = |k: Key| match k.0 { 0 => types.get("progress").copied().unwrap_or(interval), 1 => types.get("log").copied().unwrap_or(interval), 2 => types.get("resource_updated").copied().unwrap_or(interval), 5 => types.get("resources/list_changed").copied().unwrap_or(interval), _ => interval };
    let (tx, mut rx) = mpsc::channel(10_000);
    let mut d = NotificationDebouncer::new(cfg, tx);
    let start = Instant::now();
    let now = || start.elapsed().as_millis() as u64;
    let got: Arc<Mutex<Vec<(u64, ServerNotification)>>> = Arc::default();
    let g2 = got.clone();
    tokio::spawn(async move { while let Some(n) = rx.recv().await { g2.lock().unwrap().push((start.elapsed().as_millis() as u64, n)); } });
    d.start().await.unwrap();
    let mut trace = vec![format!("interval {interval} types {types:?} max_wait {max_wait} merging {merging} max_batch {max_batch}")];
    let keys: Vec<Key> = { let mut v: Vec<Key> = (0..r.range(1, 5)).map(|_| norm(r.below(7), if r.bool() { r.below(3) } else { r.below(16) })).collect(); v.sort(); v.dedup(); v };
    // never quiet for long: only the maximum wait brings anything out
    let steady = r.chance(1, 10);
    let hot = steady && r.bool();
    let mut tr: BTreeMap<Key, Track> = BTreeMap::new();
    let mut seen = 0;
    let mut seq = 0;
    let mut flushed_at: Option<u64> = None;
    let mut total = 0;
    let mut repeated = false;
    let stop_at = if steady { r.range(60, 200) } else { r.range(5, 40) };
    let mut t = 0u64;
    for step in 0..=stop_at {
        // ticks may fall on multiples of 50 ms; everything here happens strictly between them
        let gap = match r.below(5) { _ if hot => 1 + r.below(3), _ if steady => 1 + r.below(14), 0 => 1, 1 | 2 => 1 + r.below(40), 3 => 1 + r.below(400), _ => 1 + r.below(4000) } as u64;
        t += gap;
        if t % 50 == 0 { t += 1; }
        if t % 50 > 47 { t += 50 - t % 50 + 1; }
        tokio::time::sleep_until(start + Duration::from_millis(t)).await;
        settle().await;
        observe(m, &got, &mut seen, &mut tr, &quiet, max_wait, merging, flushed_at, &trace);
        late(m, &tr, now(), &quiet, max_wait, &trace);
        if m.stopped() { return; }
        if step == stop_at { break; }
        if r.chance(1, if hot { 200 } else { 15 }) {
            let at = now();
            trace.push(format!("{at}: flush"));
            d.flush().await.unwrap();
            settle().await;
            flushed_at = Some(at);
            observe(m, &got, &mut seen, &mut tr, &quiet, max_wait, merging, flushed_at, &trace);
            if let Some((k, x)) = tr.iter().find(|(_, x)| !x.pending.is_empty()) { m.fail("flush-incomplete", format!("{k:?} {x:?}; {trace:?}")); return; }
        } else {
            let k = *r.pick(&keys);
            for _ in 0..if r.chance(1, if hot { 2 } else { 5 }) { r.range(2, 10) } else { 1 } {
                seq += 1;
                d.submit(note(k.0, k.1, seq)).await.unwrap();
                let e = tr.entry(k).or_default();
                e.pending.push((seq, now()));
                e.last_submitted = Some(seq);
                if e.pending.len() > 1 { repeated = true; }
                total += 1;
                trace.push(format!("{}: {k:?} #{seq}", now()));
            }
        }
        let st = d.stats().await;
        let (pc, pt) = (tr.values().filter(|x| !x.pending.is_empty()).count(), tr.values().map(|x| x.pending.len()).sum::<usize>());
        m.check(st.pending_count == pc && st.total_notifications == pt, "stats", || format!("{st:?}, want {pc} keys and {pt} notifications; {trace:?}"));
    }
    match r.below(3) {
        0 => { tokio::time::sleep(Duration::from_millis(5000)).await; settle().await; d.stop().await; },
        1 => { flushed_at = Some(now()); trace.push(format!("{}: stop", now())); d.stop().await; settle().await; },
        _ => { flushed_at = Some(now()); trace.push(format!("{}: drop", now())); drop(d); settle().await; },
    }
    tokio::time::sleep(Duration::from_millis(20_000)).await;
    settle().await;
    observe(m, &got, &mut seen, &mut tr, &quiet, max_wait, merging, flushed_at, &trace);
    for (k, x) in &tr {
        m.check(x.pending.is_empty(), "final-state-lost", || format!("{k:?} {x:?}; {trace:?}"));
    }
    m.count("debounced_submitted", total);
    m.count("debounced_delivered", seen as u64);
    m.sample("debouncer", || format!("{trace:?}"));
    m.case(trace, keys.len() > 1 && repeated);
}

#[allow(clippy::too_many_arguments)]
fn observe(m: &Arc<Mon>, got: &Mutex<Vec<(u64, ServerNotification)>>, seen: &mut usize, tr: &mut BTreeMap<Key, Track>, quiet: &dyn Fn(Key) -> u64, max_wait: u64, merging: bool, flushed: Option<u64>, trace: &[String]) {
    let g = got.lock().unwrap();
    while *seen < g.len() {
        let (at, n) = &g[*seen];
        *seen += 1;
        let (k, s) = unnote(n);
        let x = tr.entry(k).or_default();
        let ctx = || format!("{n:?} at {at}; {trace:?}");
        // a further delivery for a key with nothing outstanding
        if x.pending.is_empty() || (k.0 <= 1 && x.pending.iter().all(|p| p.0 != s)) { m.fail("duplicate-delivery", ctx()); return; }
        if x.group_at != Some(*at) {
            let (first, last) = (x.pending[0].1, x.pending.last().unwrap().1);
            let due = flushed == Some(*at) || at + 1 >= last + quiet(k) || at + 1 >= first + max_wait;
            if !due { m.fail("delivered-early", format!("first {first} last {last} quiet {}; {}", quiet(k), ctx())); return; }
            x.group_at = Some(*at);
            x.group_n = 0;
        }
        x.group_n += 1;
        if !merging && x.group_n > 1 { m.fail("duplicate-delivery", ctx()); return; }
        if k.0 <= 1 {
            if x.last_delivered.is_some_and(|l| s <= l) { m.fail("out-of-order", ctx()); return; }
            x.last_delivered = Some(s);
            x.pending.retain(|p| p.0 > s);
            // the group must reach the latest submission
            let more = g.get(*seen).is_some_and(|(a2, n2)| a2 == at && unnote(n2).0 == k);
            if !more && x.pending.iter().any(|p| p.1 <= *at) { m.fail("final-state-lost", format!("{:?} left; {}", x.pending, ctx())); x.pending.clear(); return; }
        } else {
            let more = g.get(*seen).is_some_and(|(a2, n2)| a2 == at && unnote(n2).0 == k);
            if x.group_n > x.pending.len() { m.fail("duplicate-delivery", ctx()); return; }
            if !more { x.pending.clear(); x.group_n = 0; x.group_at = None; }
        }
    }
}
fn late(m: &Arc<Mon>, tr: &BTreeMap<Key, Track>, now: u64, quiet: &dyn Fn(Key) -> u64, max_wait: u64, trace: &[String]) {
    for (k, x) in tr {
        if x.pending.is_empty() { continue; }
        let due = (x.pending.last().unwrap().1 + quiet(*k)).min(x.pending[0].1 + max_wait) + 100;
        m.check(now <= due, "delivered-late", || format!("{k:?} due {due} still outstanding at {now}: {x:?}; {trace:?}"));
    }
}

async fn crowded_debouncer(m: &Arc<Mon>, r: &mut Rng) {
    let n = *r.pick(&[130usize, 1100, 1500]);
    let (tx, mut rx) = mpsc::channel(64);
    let mut d = NotificationDebouncer::new(NotificationDebouncerConfig::default(), tx);
    d.start().await.unwrap();
    let got: Arc<Mutex<Vec<ServerNotification>>> = Arc::default();
    let g2 = got.clone();
    tokio::spawn(async move { while let Some(x) = rx.recv().await { g2.lock().unwrap().push(x); } });
    let mut last: BTreeMap<Key, u64> = BTreeMap::new();
    let mut seq = 0;
    for _ in 0..2 { for k in 0..n { seq += 1; last.insert((0, k), seq); d.submit(note(0, k, seq)).await.unwrap(); } }
    for k in 0..n { last.insert((2, k), 0); d.submit(note(2, k, 0)).await.unwrap(); }
    let s = d.stats().await;
    m.check(s.pending_count == 2 * n && s.total_notifications == 3 * n, "pending-count", || format!("{s:?} for {n} keys twice and {n} once"));
    tokio::time::sleep(Duration::from_secs(20)).await;
    settle().await;
    let mut seen: BTreeMap<Key, Vec<u64>> = BTreeMap::new();
    for x in got.lock().unwrap().iter() { let (k, s) = unnote(x); seen.entry(k).or_default().push(s); }
    let lost: Vec<&Key> = last.iter().filter(|(k, s)| seen.get(k).and_then(|v| v.last()) != Some(s)).map(|x| x.0).take(5).collect();
    m.check(lost.is_empty() && seen.len() == last.len(), "final-lost", || format!("{n} keys, the last of {lost:?} did not arrive"));
    m.max("keys at once", 2 * n as u64);
    m.case(("many keys", n), true);
}
async fn crowded_batcher(m: &Arc<Mon>, r: &mut Rng) {
    let n = *r.pick(&[130usize, 1100, 1500]);
    let max = *r.pick(&[2usize, 100, 1000, 4000]);
    let (tx, mut rx) = mpsc::channel(16);
    let b = NotificationBatcher::new(max, Duration::from_millis(50), tx);
    let got: Arc<Mutex<Vec<Vec<ServerNotification>>>> = Arc::default();
    let g2 = got.clone();
    tokio::spawn(async move { while let Some(x) = rx.recv().await { g2.lock().unwrap().push(x); } });
    // many keys, and one key with many
    let mut sub: BTreeMap<Key, Vec<u64>> = BTreeMap::new();
    for s in 1..=n as u64 { let k = s as usize; b.add(note(0, k, s)).await.unwrap(); sub.entry((0, k)).or_default().push(s); }
    for s in 1..=2 * n as u64 { b.add(note(1, 0, s)).await.unwrap(); sub.entry((1, 0)).or_default().push(s); }
    tokio::time::sleep(Duration::from_secs(20)).await;
    settle().await;
    let mut seen: BTreeMap<Key, Vec<u64>> = BTreeMap::new();
    for batch in got.lock().unwrap().iter() { m.check(batch.len() <= max, "batch-size", || format!("{} of {max}", batch.len())); for x in batch { let (k, s) = unnote(x); seen.entry(k).or_default().push(s); } }
    m.check(seen == sub, "batch-lost", || format!("{n} keys, size {max}: {} keys arrived, {} of {} under one key", seen.len(), seen.get(&(1, 0)).map_or(0, Vec::len), 2 * n));
    m.case(("many batches", n, max), true);
}

async fn batcher_history(m: &Arc<Mon>, r: &mut Rng) {
    let max = r.range(1, 6);
    let wait = r.range(5, 500) as u64;
    let (tx, mut rx) = mpsc::channel(1000);
    let b = NotificationBatcher::new(max, Duration::from_millis(wait), tx);
    let start = Instant::now();
    let got: Arc<Mutex<Vec<(u64, Vec<ServerNotification>)>>> = Arc::default();
    let g2 = got.clone();
    tokio::spawn(async move { while let Some(n) = rx.recv().await { g2.lock().unwrap().push((start.elapsed().as_millis() as u64, n)); } });
    let mut sub: BTreeMap<Key, Vec<(u64, u64)>> = BTreeMap::new();
    let mut trace = vec![format!("max {max} wait {wait}")];
    let mut seq = 0;
    let mut repeated = false;
    let mut flushes = vec![];
    for _ in 0..r.range(2, 40) {
        let gap = match r.below(4) { 0 | 1 => 0, 2 => r.below(30), _ => r.below(700) } as u64;
        tokio::time::sleep(Duration::from_millis(gap)).await;
        let now = start.elapsed().as_millis() as u64;
        if r.chance(1, 12) {
            b.flush().await.unwrap();
            settle().await;
            flushes.push(now);
            trace.push(format!("{now}: flush"));
            let n: usize = got.lock().unwrap().iter().map(|x| x.1.len()).sum();
            m.check(n as u64 == seq, "flush-incomplete", || format!("{n} of {seq} delivered; {trace:?}"));
            continue;
        }
        let k = norm(*r.pick(&[0, 0, 1, 2, 3, 6]), if r.bool() { r.below(3) } else { r.below(16) });
        seq += 1;
        b.add(note(k.0, k.1, seq)).await.unwrap();
        let e = sub.entry(k).or_default();
        e.push((seq, now));
        repeated |= e.len() > 1;
        trace.push(format!("{now}: {k:?} #{seq}"));
    }
    tokio::time::sleep(Duration::from_millis(wait * 2 + 10)).await;
    settle().await;
    tokio::time::sleep(Duration::from_millis(5000)).await;
    settle().await;
    let g = got.lock().unwrap();
    let mut at: BTreeMap<Key, usize> = BTreeMap::new();
    for (t, batch) in g.iter() {
        m.check(!batch.is_empty() && batch.len() <= max, "batch-size", || format!("{} of {max}: {batch:?}; {trace:?}", batch.len()));
        for n in batch {
            let (k, s) = unnote(n);
            let i = at.entry(k).or_default();
            let want = sub.get(&k).and_then(|v| v.get(*i));
            *i += 1;
            let Some(&(ws, wt)) = want else { m.fail("batch-duplicate", format!("{n:?}; {trace:?}")); return };
            if k.0 <= 1 && ws != s { m.fail("batch-order", format!("{n:?} at {t}, wanted #{ws}; {trace:?}")); return; }
            m.check(*t <= wt + wait + 2, "batch-late", || format!("#{ws} added {wt}, delivered {t}; {trace:?}"));
        }
    }
    for (k, v) in &sub { let n = at.get(k).copied().unwrap_or(0); m.check(n == v.len(), "batch-lost", || format!("{k:?}: {n} of {} delivered; {trace:?}", v.len())); }
    m.count("batches", g.len() as u64);
    m.sample("batcher", || format!("{trace:?}"));
    m.case(trace, sub.len() > 1 && repeated);
}

async fn debouncer_threads(m: Arc<Mon>, seed: u64) {
    let (tx, mut rx) = mpsc::channel(2);
    let merging = seed % 2 == 0;
    let cfg = NotificationDebouncerConfig { default_interval: Duration::from_millis(20), type_intervals: HashMap::new(), max_batch_size: 3, enable_merging: merging, max_wait_time: Duration::from_millis(120) };
    let mut d = NotificationDebouncer::new(cfg, tx);
    d.start().await.unwrap();
    let collect = tokio::spawn(async move {
        let mut r = Rng::new(seed);
        let mut out = vec![];
        while let Some(n) = rx.recv().await { out.push(n); if r.chance(1, 3) { tokio::time::sleep(Duration::from_millis(2)).await; } }
        out
    });
    let d = Arc::new(d);
    let jobs: Vec<_> = (0..4usize).map(|k| {
        let d = d.clone();
        tokio::spawn(async move {
            let mut r = Rng::new(seed ^ (k as u64 * 31_337));
            for s in 1..=60u64 {
                d.submit(note(0, k, s)).await.unwrap();
                match r.below(8) { 0 => tokio::time::sleep(Duration::from_millis(r.below(30) as u64)).await, 1 => { d.flush().await.unwrap(); }, 2 => tokio::task::yield_now().await, _ => {} }
            }
        })
    }).collect();
    for j in jobs { j.await.unwrap(); }
    let mut d = Arc::try_unwrap(d).ok().unwrap();
    if seed % 3 == 0 { tokio::time::sleep(Duration::from_millis(300)).await; }
    d.stop().await;
    drop(d);
    let Ok(out) = tokio::time::timeout(Duration::from_secs(60), collect).await else { m.fail("stop-hangs", "the debouncer kept its output open after stop and drop"); return };
    let out = out.unwrap();
    for k in 0..4usize {
        let s: Vec<u64> = out.iter().map(unnote).filter(|x| x.0 == (0, k)).map(|x| x.1).collect();
        m.check(s.windows(2).all(|w| w[0] < w[1]), "out-of-order", || format!("key {k}: {s:?}"));
        m.check(s.last() == Some(&60), "final-state-lost", || format!("key {k}: {s:?}"));
    }
    m.count("threaded_delivered", out.len() as u64);
    m.case(("dthreads", seed), true);
}
async fn batcher_threads(m: Arc<Mon>, seed: u64) {
    let (tx, mut rx) = mpsc::channel(2);
    let b = Arc::new(NotificationBatcher::new(4, Duration::from_millis(5), tx));
    let collect = tokio::spawn(async move { let mut out = vec![]; while let Some(n) = rx.recv().await { out.push(n); } out });
    let jobs: Vec<_> = (0..4u64).map(|k| {
        let b = b.clone();
        tokio::spawn(async move {
            let mut r = Rng::new(seed ^ (k * 7919));
            // every task shares the two keys; the number says who and when
            for s in 1..=100u64 {
                b.add(note(0, (s % 2) as usize, k * 1000 + s)).await.unwrap();
                match r.below(12) { 0 => tokio::time::sleep(Duration::from_millis(r.below(8) as u64)).await, 1 => { b.flush().await.unwrap(); }, 2 => tokio::task::yield_now().await, _ => {} }
            }
        })
    }).collect();
    for j in jobs { j.await.unwrap(); }
    b.flush().await.unwrap();
    drop(b);
    let Ok(out) = tokio::time::timeout(Duration::from_secs(60), collect).await else { m.fail("stop-hangs", "the batcher kept its output open"); return };
    let out = out.unwrap();
    m.check(out.iter().all(|b| !b.is_empty() && b.len() <= 4), "batch-size", || format!("{:?}", out.iter().map(|b| b.len()).collect::<Vec<_>>()));
    for k in 0..4u64 { for key in 0..2usize {
        let s: Vec<u64> = out.iter().flatten().map(unnote).filter(|x| x.0 == (0, key) && x.1 / 1000 == k).map(|x| x.1 % 1000).collect();
        let want: Vec<u64> = (1..=100).filter(|s| s % 2 == key as u64).collect();
        m.check(s == want, "batch-order", || format!("task {k} key {key}: {s:?}"));
    } }
    m.count("batches", out.len() as u64);
    m.case(("bthreads", seed), true);
}

/// Tasks that add without a pause, so that batches are taken close behind each other.
async fn hot_batcher(m: Arc<Mon>, seed: u64) {
    let (tx, mut rx) = mpsc::channel(1000);
    let max = [2, 3, 50][seed as usize % 3];
    let timeout = if seed % 2 == 0 { Duration::ZERO } else { Duration::from_secs(3600) };
    let b = Arc::new(NotificationBatcher::new(max, timeout, tx));
    let n = 5000u64;
    let got: Arc<Mutex<Vec<u64>>> = Arc::default();
    let g2 = got.clone();
    let collect = tokio::spawn(async move { while let Some(x) = rx.recv().await { let mut g = g2.lock().unwrap(); g.extend(x.iter().map(|n| unnote(n).1)); } });
    let jobs: Vec<_> = (0..6u64).map(|k| { let b = b.clone(); tokio::spawn(async move { for s in 1..=n { b.add(note(1, 0, k * 1_000_000 + s)).await.unwrap(); } }) }).collect();
    for j in jobs { j.await.unwrap(); }
    b.flush().await.unwrap();
    for _ in 0..6000 { if got.lock().unwrap().len() as u64 >= 6 * n { break; } tokio::time::sleep(Duration::from_millis(5)).await; }
    let g = got.lock().unwrap().clone();
    in_order(&m, &g, n, &format!("size {max} timeout {timeout:?}"));
    m.count("hot adds", 6 * n);
    m.case(("hot", seed), true);
    collect.abort();
}
fn in_order(m: &Arc<Mon>, g: &[u64], n: u64, what: &str) {
    for k in 0..6u64 {
        let s: Vec<u64> = g.iter().filter(|x| *x / 1_000_000 == k).map(|x| x % 1_000_000).collect();
        let at = (0..n as usize).find(|i| s.get(*i) != Some(&(*i as u64 + 1)));
        m.check(s.len() as u64 == n && at.is_none(), "batch-order", || format!("task {k}: {} of {n} arrived, wrong from {at:?}: {:?}; {what}", s.len(), at.map(|a| &s[a.saturating_sub(3).min(s.len())..(a + 6).min(s.len())])));
    }
}

// ------------------------------------------------------------------ C18

fn msg(r: &mut Rng, seq: u64) -> Notification {
    match r.below(3) {
        0 => Notification::Progress(ProgressNotification { progress_token: ProgressToken::Number(0), progress: seq as f64, message: None }),
        1 => Notification::Cancelled(CancelledNotification { request_id: RequestId::Number(seq as i64), reason: None }),
        _ => Notification::Server(ServerNotification::ResourceUpdated(ResourceUpdatedParams { uri: seq.to_string() })),
    }
}
fn unmsg(n: &Notification) -> u64 {
    match n {
        Notification::Progress(p) => p.progress as u64,
        Notification::Cancelled(c) => match &c.request_id { RequestId::Number(n) => *n as u64, _ => 0 },
        Notification::Server(ServerNotification::ResourceUpdated(p)) => p.uri.parse().unwrap_or(0),
        _ => 0,
    }
}

fn c18(m: &Arc<Mon>) {
    let mut r = m.rng("c18");
    m.stage("batcher histories");
    for _ in 0..m.n(2500, 100_000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        let m2 = m.clone();
        if virtually(async move { mbatch_history(&m2, &mut rr).await }).is_none() { m.fail("hang", "a batcher history never ended"); }
    }
    m.stage("debouncer histories");
    for _ in 0..m.n(2500, 100_000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        let m2 = m.clone();
        if virtually(async move { mdeb_history(&m2, &mut rr).await }).is_none() { m.fail("hang", "a debouncer history never ended"); }
    }
    m.stage("at the instant");
    for _ in 0..m.n(1500, 60_000) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        let m2 = m.clone();
        if virtually(async move { mdeb_instants(&m2, &mut rr).await }).is_none() { m.fail("hang", "submissions at the instant of expiry"); }
    }
    m.stage("late receivers");
    for _ in 0..m.n(60, 1500) {
        if m.stopped() { return; }
        let mut rr = r.fork();
        let m2 = m.clone();
        if virtually(async move { mbatch_late(&m2, &mut rr).await }).is_none() { m.fail("hang", "a batcher whose receiver comes late"); }
    }
    m.stage("threads");
    for k in 0..m.n(8, 300) {
        if m.stopped() { return; }
        let (a, b) = (r.u64(), r.u64());
        let rt = mrt(4);
        rt.block_on(async { tokio::join!(mbatch_threads(m.clone(), a), mdeb_threads(m.clone(), b)) });
        if k % 4 == 0 { rt.block_on(hot_mbatch(m.clone(), a)); }
        rt.shutdown_background();
    }
}
async fn mbatch_history(m: &Arc<Mon>, r: &mut Rng) {
    let big = r.chance(1, 100);
    let max = if big { 10_000 } else { r.range(1, 7) };
    let wait = r.range(5, 400) as u64;
    let b = Arc::new(MessageBatcher::new(BatchingConfig { max_batch_size: max, max_wait_time: Duration::from_millis(wait), batched_methods: vec![] }));
    let start = Instant::now();
    let got: Arc<Mutex<Vec<(u64, Vec<u64>)>>> = Arc::default();
    let (b2, g2) = (b.clone(), got.clone());
    let recv = tokio::spawn(async move { while let Some(x) = b2.receive_batch().await { g2.lock().unwrap().push((start.elapsed().as_millis() as u64, x.iter().map(unmsg).collect())); } });
    let n = if big { r.range(100, 6000) } else { r.range(1, 40) };
    // without the timer until `timer_from`: only full batches come out
    let timer_from = if r.chance(1, 3) { r.below(n + 1) } else { 0 };
    let mut started = None;
    let mut trace = vec![format!("max {max} wait {wait}")];
    let mut added = vec![];
    for i in 0..n {
        if i == timer_from { b.start_timer(); started = Some(start.elapsed().as_millis() as u64); trace.push("timer".into()); }
        let gap = match r.below(4) { _ if big => 0, 0 | 1 => 0, 2 => r.below(30), _ => r.below(900) } as u64;
        if gap > 0 || !big { tokio::time::sleep(Duration::from_millis(gap)).await; }
        let now = start.elapsed().as_millis() as u64;
        b.add(msg(r, i as u64 + 1)).await.unwrap();
        added.push(now);
        trace.push(format!("{now}: #{}", i + 1));
        if started.is_none() {
            settle().await;
            let out: usize = got.lock().unwrap().iter().map(|x| x.1.len()).sum();
            m.check(out == (i + 1) / max * max, "batch-not-on-size", || format!("{out} out of {} delivered; {trace:?}", i + 1));
        }
    }
    if started.is_none() { b.start_timer(); started = Some(start.elapsed().as_millis() as u64); }
    tokio::time::sleep(Duration::from_millis(wait * 2 + 1000)).await;
    settle().await;
    let g = got.lock().unwrap();
    let flat: Vec<u64> = g.iter().flat_map(|x| x.1.clone()).collect();
    let want: Vec<u64> = (1..=n as u64).collect();
    m.check(flat == want, "batch-stream", || format!("{flat:?}; {trace:?}"));
    let mut room: Vec<u64> = vec![];
    for (t, x) in g.iter() {
        m.check(!x.is_empty() && x.len() <= max, "batch-size", || format!("{x:?}; {trace:?}"));
        for s in x { if let Some(a) = added.get(*s as usize - 1) { let from = (*a).max(started.unwrap_or(0)); m.check(*t <= from + wait + 2, "batch-late", || format!("#{s} at {t}, added {a}; {trace:?}")); } }
        room.push(x.len() as u64);
    }
    m.count("batches", g.len() as u64);
    m.sample("batcher", || format!("{trace:?}"));
    m.case(trace, g.len() > 1);
    recv.abort();
}
async fn mdeb_history(m: &Arc<Mon>, r: &mut Rng) {
    let wait = r.range(5, 400) as u64;
    let keys: Vec<String> = if r.chance(1, 3) { let n = r.range(2, 5); r.kin(n) } else { (0..r.range(1, 4)).map(|i| format!("{}{i}", r.string(3))).collect() };
    let mut special = HashMap::new();
    for k in &keys { if r.chance(1, 4) { special.insert(k.clone(), r.range(1, 500) as u64); } }
    let d = Arc::new(MessageDebouncer::new(DebouncingConfig { wait_time: Duration::from_millis(wait), debounced_methods: special.iter().map(|(k, v)| (k.clone(), Duration::from_millis(*v))).collect() }));
    let w = |k: &String| special.get(k).copied().unwrap_or(wait);
    let start = Instant::now();
    if r.chance(1, 12) { return mdeb_crowd(m, r).await; }
    let got: Arc<Mutex<Vec<(u64, u64)>>> = Arc::default();
    let (d2, g2) = (d.clone(), got.clone());
    let recv = tokio::spawn(async move { while let Some(x) = d2.receive().await { g2.lock().unwrap().push((start.elapsed().as_millis() as u64, unmsg(&x))); } });
    let mut want: Vec<(u64, u64)> = vec![];
    let mut pend: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut trace = vec![format!("wait {wait} {special:?}")];
    let mut seq = 0;
    let mut superseded = false;
    for _ in 0..r.range(2, 40) {
        let gap = match r.below(5) { 0 => 0, 1 => 1, 2 => r.below(30), 3 => r.below(300), _ => r.below(900) } as u64;
        tokio::time::sleep(Duration::from_millis(gap)).await;
        settle().await;
        let mut now = start.elapsed().as_millis() as u64;
        let k = r.pick(&keys).clone();
        // keep clear of the exact expiry instant
        while pend.values().any(|p| (p.1).abs_diff(now) <= 2) { tokio::time::sleep(Duration::from_millis(1)).await; settle().await; now = start.elapsed().as_millis() as u64; }
        let due: Vec<String> = pend.iter().filter(|(_, p)| p.1 < now).map(|(k, _)| k.clone()).collect();
        for k in due { let (s, t) = pend.remove(&k).unwrap(); want.push((t, s)); }
        if r.chance(1, 12) {
            let mut out: Vec<u64> = d.flush().await.iter().map(unmsg).collect();
            out.sort_unstable();
            let mut ws: Vec<u64> = std::mem::take(&mut pend).into_values().map(|p| p.0).collect();
            ws.sort_unstable();
            trace.push(format!("{now}: flush"));
            m.check(out == ws, "flush-content", || format!("{out:?}, want {ws:?}; {trace:?}"));
            continue;
        }
        seq += 1;
        d.add(k.clone(), msg(r, seq)).await.unwrap();
        trace.push(format!("{now}: {k:?} #{seq}"));
        superseded |= pend.insert(k.clone(), (seq, now + w(&k))).is_some();
    }
    tokio::time::sleep(Duration::from_millis(3000)).await;
    settle().await;
    for (_, (s, t)) in pend { want.push((t, s)); }
    want.sort_unstable();
    let mut g = got.lock().unwrap().clone();
    let order_ok = g.windows(2).all(|w| w[0].0 <= w[1].0);
    g.sort_unstable();
    let same = g.len() == want.len() && { let mut a = g.clone(); let mut b = want.clone(); a.sort_by_key(|x| x.1); b.sort_by_key(|x| x.1); a.iter().zip(&b).all(|(x, y)| x.1 == y.1 && x.0.abs_diff(y.0) <= 2) };
    m.check(same && order_ok, "debounce-stream", || format!("(time, #) {g:?}, want {want:?}; {trace:?}"));
    m.count("debounced", want.len() as u64);
    m.sample("debouncer", || format!("{trace:?}"));
    m.case(trace, superseded);
    recv.abort();
}
/// Many keys falling due with nobody receiving, then a flush and late reception.
async fn mdeb_crowd(m: &Arc<Mon>, r: &mut Rng) {
    let d = MessageDebouncer::new(DebouncingConfig { wait_time: Duration::from_millis(10), debounced_methods: HashMap::new() });
    let n = r.range(2, 260) as u64;
    for s in 1..=n { d.add(format!("k{s}"), msg(r, s)).await.unwrap(); }
    tokio::time::sleep(Duration::from_millis(50)).await;
    settle().await;
    let mut all: Vec<u64> = vec![];
    let flush = r.bool();
    if flush { all.extend(d.flush().await.iter().map(unmsg)); }
    while let Ok(Some(x)) = tokio::time::timeout(Duration::from_millis(100), d.receive()).await { all.push(unmsg(&x)); }
    all.sort_unstable();
    let want: Vec<u64> = (1..=n).collect();
    m.check(all == want, "debounce-lost", || format!("{} of {n} came out (flush {flush}), missing {:?}", all.len(), want.iter().filter(|w| !all.contains(w)).take(5).collect::<Vec<_>>()));
    m.case(("crowd", n, flush), true);
}
async fn mbatch_threads(m: Arc<Mon>, seed: u64) {
    let b = Arc::new(MessageBatcher::new(BatchingConfig { max_batch_size: 5, max_wait_time: Duration::from_millis(2), batched_methods: vec![] }));
    b.start_timer();
    let got: Arc<Mutex<Vec<Vec<u64>>>> = Arc::default();
    let (b2, g2) = (b.clone(), got.clone());
    let recv = tokio::spawn(async move { while let Some(x) = b2.receive_batch().await { g2.lock().unwrap().push(x.iter().map(unmsg).collect()); } });
    let jobs: Vec<_> = (0..4u64).map(|k| { let b = b.clone(); tokio::spawn(async move {
        let mut r = Rng::new(seed ^ (k * 7919));
        for s in 1..=150u64 { b.add(msg(&mut r, k * 1000 + s)).await.unwrap(); if r.chance(1, 20) { tokio::time::sleep(Duration::from_millis(r.below(4) as u64)).await; } else if r.chance(1, 5) { tokio::task::yield_now().await; } }
    }) }).collect();
    for j in jobs { j.await.unwrap(); }
    for _ in 0..6000 { if got.lock().unwrap().iter().map(|x| x.len()).sum::<usize>() >= 600 { break; } tokio::time::sleep(Duration::from_millis(10)).await; }
    tokio::time::sleep(Duration::from_millis(10)).await;
    let g = got.lock().unwrap().clone();
    m.check(g.iter().all(|x| !x.is_empty() && x.len() <= 5), "batch-size", || format!("{:?}", g.iter().map(|x| x.len()).collect::<Vec<_>>()));
    for k in 0..4u64 {
        let s: Vec<u64> = g.iter().flatten().filter(|x| *x / 1000 == k).map(|x| x % 1000).collect();
        m.check(s == (1..=150).collect::<Vec<u64>>(), "batch-stream", || format!("task {k}: {s:?}"));
    }
    m.count("batches", g.len() as u64);
    m.case(("bthreads", seed), true);
    recv.abort();
}
async fn mdeb_threads(m: Arc<Mon>, seed: u64) {
    let d = Arc::new(MessageDebouncer::new(DebouncingConfig { wait_time: Duration::from_millis(3), debounced_methods: HashMap::new() }));
    let got: Arc<Mutex<Vec<u64>>> = Arc::default();
    let (d2, g2) = (d.clone(), got.clone());
    let recv = tokio::spawn(async move { while let Some(x) = d2.receive().await { g2.lock().unwrap().push(unmsg(&x)); } });
    let stop = Arc::new(AtomicBool::new(false));
    let jobs: Vec<_> = (0..6u64).map(|k| { let d = d.clone(); tokio::spawn(async move {
        let mut r = Rng::new(seed ^ (k * 104_729));
        for s in 1..=80u64 { d.add(format!("k{k}"), msg(&mut r, k * 1000 + s)).await.unwrap(); match r.below(4) { 0 => tokio::time::sleep(Duration::from_micros(r.below(5000) as u64)).await, 1 => tokio::task::yield_now().await, _ => {} } }
    }) }).collect();
    for j in jobs { j.await.unwrap(); }
    stop.store(true, Ordering::SeqCst);
    for _ in 0..6000 { let g = got.lock().unwrap().clone(); if (0..6u64).all(|k| g.contains(&(k * 1000 + 80))) { break; } tokio::time::sleep(Duration::from_millis(10)).await; }
    tokio::time::sleep(Duration::from_millis(30)).await;
    let g = got.lock().unwrap().clone();
    for k in 0..6u64 {
        let s: Vec<u64> = g.iter().filter(|x| *x / 1000 == k).map(|x| x % 1000).collect();
        m.check(s.windows(2).all(|w| w[0] < w[1]), "debounce-order", || format!("key {k}: {s:?}"));
        m.check(s.last() == Some(&80), "debounce-lost", || format!("key {k}: {s:?}"));
    }
    m.count("debounced", g.len() as u64);
    m.case(("dthreads", seed, json!(g.len()).to_string()), true);
    recv.abort();
}

/// Submissions and flushes at the very instant a key falls due, with other tasks running in between: which of the two
/// wins is open, but nothing is lost, doubled or overtaken.
async fn mdeb_instants(m: &Arc<Mon>, r: &mut Rng) {
    let wait = r.range(5, 40) as u64;
    let d = Arc::new(MessageDebouncer::new(DebouncingConfig { wait_time: Duration::from_millis(wait), debounced_methods: HashMap::new() }));
    let got: Arc<Mutex<Vec<u64>>> = Arc::default();
    let (d2, g2) = (d.clone(), got.clone());
    let recv = tokio::spawn(async move { while let Some(x) = d2.receive().await { g2.lock().unwrap().push(unmsg(&x)); } });
    let keys = r.range(1, 3) as u64;
    let mut out: Vec<u64> = vec![];
    let mut trace = vec![];
    let mut last = vec![0u64; keys as usize];
    // never superseded: another submission under the key came only after it was flushed, or never
    let mut seq = 0;
    let mut must: Vec<u64> = vec![];
    for _ in 0..r.range(2, 12) {
        for k in 0..keys {
            if r.chance(3, 4) { seq += 1; d.add(format!("k{k}"), msg(r, k * 1_000_000 + seq)).await.unwrap(); last[k as usize] = k * 1_000_000 + seq; trace.push(format!("add {k} #{seq}")); }
        }
        tokio::time::sleep(Duration::from_millis(if r.chance(3, 4) { wait } else { r.below(2 * wait as usize) as u64 })).await;
        for _ in 0..r.below(4) { tokio::task::yield_now().await; }
        if r.chance(2, 3) {
            let f: Vec<u64> = d.flush().await.iter().map(unmsg).collect();
            trace.push(format!("flush {f:?}"));
            out.extend(f);
            // all of it is now flushed, or delivered
            must.extend(last.iter().filter(|x| **x > 0));
        }
    }
    tokio::time::sleep(Duration::from_millis(1000)).await;
    settle().await;
    must.extend(last.iter().filter(|x| **x > 0));
    let g = got.lock().unwrap().clone();
    out.extend(g.iter());
    let mut sorted = out.clone();
    sorted.sort_unstable();
    m.check(sorted.windows(2).all(|w| w[0] != w[1]), "debounce-twice", || format!("{out:?}; wait {wait} {trace:?}"));
    m.check(must.iter().all(|x| out.contains(x)), "debounce-lost", || format!("{:?} neither delivered nor flushed; wait {wait} {trace:?}", must.iter().filter(|x| !out.contains(x)).collect::<Vec<_>>()));
    for k in 0..keys { let s: Vec<u64> = g.iter().filter(|x| *x / 1_000_000 == k).copied().collect(); m.check(s.windows(2).all(|w| w[0] < w[1]), "debounce-order", || format!("key {k}: {s:?}; wait {wait} {trace:?}")); }
    m.count("submissions at the instant", seq);
    m.case(trace, seq > 1);
    recv.abort();
}
/// Batches pile up for as long as nobody takes them.
async fn mbatch_late(m: &Arc<Mon>, r: &mut Rng) {
    let max = r.range(1, 4);
    let b = Arc::new(MessageBatcher::new(BatchingConfig { max_batch_size: max, max_wait_time: Duration::from_millis(5), batched_methods: vec![] }));
    b.start_timer();
    let n = r.range(50, 500) as u64;
    let b2 = b.clone();
    let mut r2 = r.fork();
    let add = tokio::spawn(async move { for s in 1..=n { b2.add(msg(&mut r2, s)).await.unwrap(); if r2.chance(1, 2) { tokio::time::sleep(Duration::from_millis(6)).await; } } });
    tokio::time::sleep(Duration::from_millis(r.range(0, 6000) as u64)).await;
    let mut all = vec![];
    while let Ok(Some(x)) = tokio::time::timeout(Duration::from_millis(500), b.receive_batch()).await {
        m.check(!x.is_empty() && x.len() <= max, "batch-size", || format!("{} of {max}", x.len()));
        all.extend(x.iter().map(unmsg));
        if r.chance(1, 5) { tokio::time::sleep(Duration::from_millis(r.below(30) as u64)).await; }
    }
    m.check(add.is_finished() && all == (1..=n).collect::<Vec<_>>(), "batch-stream", || format!("{} of {n} out of batches of {max} taken late; adding done {}", all.len(), add.is_finished()));
    m.count("messages taken late", n);
    m.case(("late", max, n), true);
}
async fn hot_mbatch(m: Arc<Mon>, seed: u64) {
    let b = Arc::new(MessageBatcher::new(BatchingConfig { max_batch_size: [1, 2, 3][seed as usize % 3], max_wait_time: Duration::from_millis(1), batched_methods: vec![] }));
    let n = 5000u64;
    let got: Arc<Mutex<Vec<u64>>> = Arc::default();
    let (b2, g2) = (b.clone(), got.clone());
    let recv = tokio::spawn(async move { while let Some(x) = b2.receive_batch().await { let mut g = g2.lock().unwrap(); g.extend(x.iter().map(unmsg)); } });
    let jobs: Vec<_> = (0..6u64).map(|k| { let b = b.clone(); tokio::spawn(async move { let mut r = Rng::new(seed ^ k); for s in 1..=n { b.add(msg(&mut r, k * 1_000_000 + s)).await.unwrap(); } }) }).collect();
    for j in jobs { j.await.unwrap(); }
    b.start_timer();
    for _ in 0..6000 { if got.lock().unwrap().len() as u64 >= 6 * n { break; } tokio::time::sleep(Duration::from_millis(5)).await; }
    let g = got.lock().unwrap().clone();
    in_order(&m, &g, n, "message batcher");
    m.count("hot adds", 6 * n);
    m.case(("hot", seed), true);
    recv.abort();
}
