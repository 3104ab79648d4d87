//! C29 reconnection, C30 error recovery and circuit breakers, C31 middleware chains.
use mon::{Check, Mon, Rng};
use pmcp::error::recovery::{with_retry, CircuitBreaker, CircuitBreakerConfig, FallbackHandler, RecoveryExecutor, RecoveryHandler, RecoveryPolicy, RecoveryStrategy};
use pmcp::shared::middleware::*;
use pmcp::shared::reconnect::{ConnectionState, ReconnectCallbacks};
use pmcp::shared::{ReconnectConfig, ReconnectGuard, ReconnectManager, TransportMessage};
use pmcp::types::{JSONRPCRequest, JSONRPCResponse, RequestId};
use pmcp::{Error, ErrorCode};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

fn main() {
    mon::main(&[
        Check { id: "C29", rule: "one history of connection attempts, outcomes, losses, switches and waits on one manager, or one reconnection run under virtual time; non-trivial when an attempt failed", run: c29 },
        Check { id: "C30", rule: "one operation run under a recovery policy, or one history of results on a circuit breaker; non-trivial when something failed", run: c30 },
        Check { id: "C31", rule: "one message of one kind through one chain of middleware; non-trivial when the chain is not empty", run: c31 },
    ]);
}

thread_local! { static AHEAD: std::cell::Cell<i64> = const { std::cell::Cell::new(0) }; }
/// Takes the place of the C library's: a thread may move its own monotonic clock ahead, so that
/// timeouts of minutes are met to within what the calls in between take.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let rc = libc::syscall(libc::SYS_clock_gettime, clock, ts) as libc::c_int;
    if rc == 0 && clock == libc::CLOCK_MONOTONIC {
        let n = (*ts).tv_nsec as i64 + AHEAD.with(|a| a.get());
        (*ts).tv_sec += n.div_euclid(1_000_000_000);
        (*ts).tv_nsec = n.rem_euclid(1_000_000_000);
    }
    rc
}
fn advance(d: Duration) { AHEAD.with(|a| a.set(a.get() + d.as_nanos() as i64)); }
/// Around one history: its clock is moved, and put right after it.
struct Moved;
impl Drop for Moved { fn drop(&mut self) { AHEAD.with(|a| a.set(0)); } }
/// A share of a time to wait, to either side of the whole.
fn part(r: &mut Rng, d: Duration) -> Duration { d.mul_f64(*r.pick(&[0.1, 0.3, 0.49, 0.5, 0.51, 0.9, 0.99, 0.999, 1.0, 1.001, 1.01, 1.5, 1.99, 3.0])) }

const HUGE: Duration = Duration::from_secs(36_000);

// ---------------------------------------------------------------- C29

#[derive(Clone, Debug, PartialEq)]
enum Ev { Connecting(u32), Connected, Failed(String), Open, Close }

/// What the reconnection rules say, for one caller after another.
#[derive(Clone, Debug)]
struct Model {
    c: ReconnectConfig,
    state: ConnectionState,
    retry: u32,
    fail: u32,
    attempts: u64,
    succ: u64,
    enabled: bool,
    /// Not before / not after this moment the circuit opened
    opened: Option<(Instant, Instant)>,
    connected: Option<(Instant, Instant)>,
}
impl Model {
    fn new(c: ReconnectConfig) -> Self {
        Self { c, state: ConnectionState::Disconnected, retry: 0, fail: 0, attempts: 0, succ: 0, enabled: true, opened: None, connected: None }
    }
    /// `over`: whether the circuit's timeout is over
    fn should(&mut self, over: bool, ev: &mut Vec<Ev>) -> bool {
        if !self.enabled { return false; }
        match self.state {
            ConnectionState::Connected | ConnectionState::Connecting => return false,
            ConnectionState::CircuitOpen => {
                if !over { return false; }
                self.state = ConnectionState::Disconnected;
                self.opened = None;
                ev.push(Ev::Close);
            },
            _ => {},
        }
        self.c.max_retries.map_or(true, |x| self.retry < x)
    }
    fn connecting(&mut self, ev: &mut Vec<Ev>) {
        self.state = ConnectionState::Connecting;
        self.attempts += 1;
        ev.push(Ev::Connecting(self.retry));
    }
    fn ok(&mut self, at: (Instant, Instant), ev: &mut Vec<Ev>) {
        self.state = ConnectionState::Connected;
        self.succ += 1;
        self.fail = 0;
        if self.c.reset_on_success { self.retry = 0; }
        self.connected = Some(at);
        ev.push(Ev::Connected);
    }
    fn failed(&mut self, e: &str, at: (Instant, Instant), ev: &mut Vec<Ev>) {
        self.state = ConnectionState::WaitingRetry;
        self.retry += 1;
        self.fail += 1;
        if self.c.circuit_breaker_threshold.is_some_and(|t| self.fail >= t) {
            self.state = ConnectionState::CircuitOpen;
            self.opened = Some(at);
            ev.push(Ev::Open);
        }
        ev.push(Ev::Failed(e.into()));
    }
    fn delay(&self) -> (f64, f64) {
        let d = (self.c.initial_delay.as_secs_f64() * self.c.growth_factor.powi(self.retry as i32)).min(self.c.max_delay.as_secs_f64());
        ((d * (1.0 - self.c.jitter_factor)).max(0.0), d * (1.0 + self.c.jitter_factor))
    }
}
fn sorted(mut v: Vec<Ev>) -> Vec<String> { let mut s: Vec<String> = v.drain(..).map(|e| format!("{e:?}")).collect(); s.sort(); s }

fn callbacks(log: &Arc<Mutex<Vec<Ev>>>) -> ReconnectCallbacks {
    let l = |log: &Arc<Mutex<Vec<Ev>>>| log.clone();
    let (a, b, c, d, e) = (l(log), l(log), l(log), l(log), l(log));
    ReconnectCallbacks {
        on_connecting: Some(Box::new(move |n| a.lock().unwrap().push(Ev::Connecting(n)))),
        on_connected: Some(Box::new(move || b.lock().unwrap().push(Ev::Connected))),
        on_failed: Some(Box::new(move |x| c.lock().unwrap().push(Ev::Failed(x.to_string())))),
        on_circuit_open: Some(Box::new(move || d.lock().unwrap().push(Ev::Open))),
        on_circuit_close: Some(Box::new(move || e.lock().unwrap().push(Ev::Close))),
    }
}
fn config(r: &mut Rng) -> ReconnectConfig {
    ReconnectConfig {
        initial_delay: Duration::from_millis(*r.pick(&[0, 1, 10, 100, 1000])),
        max_delay: Duration::from_millis(*r.pick(&[1, 50, 1000, 30_000, 3_600_000])),
        growth_factor: *r.pick(&[1.0, 1.5, 2.0, 3.0, 10.0]),
        max_retries: match r.below(5) { 0 => None, 1 => Some(r.below(20) as u32), _ => Some(r.below(7) as u32) },
        jitter_factor: *r.pick(&[0.0, 0.0, 0.1, 0.5, 1.0]),
        reset_on_success: r.chance(2, 3),
        success_threshold: *r.pick(&[Duration::ZERO, HUGE, Duration::from_secs(60), Duration::from_millis(1500)]),
        circuit_breaker_threshold: match r.below(9) { 0..=2 => None, 3 => Some(r.range(5, 14) as u32), _ => Some(r.range(1, 5) as u32) },
        circuit_breaker_timeout: *r.pick(&[Duration::ZERO, HUGE, Duration::from_secs(60), Duration::from_millis(1500)]),
    }
}
fn agree(m: &Arc<Mon>, g: &ReconnectManager, w: &Model, state: ConnectionState, what: &dyn Fn() -> String) {
    let s = g.stats();
    m.check(state == w.state, "state", || format!("{state:?}, want {:?}; {}", w.state, what()));
    m.check((s.total_attempts, s.total_successes, s.current_retry_count, s.consecutive_failures) == (w.attempts, w.succ, w.retry, w.fail), "counters", || format!("{s:?}, want {w:?}; {}", what()));
    let d = g.calculate_delay().as_secs_f64();
    let (lo, hi) = w.delay();
    m.check(d >= lo - 1e-6 && d <= hi + 1e-6, "delay", || format!("{d} not in {lo}..{hi}, {} failures; {}", w.retry, what()));
}

async fn manual(m: &Arc<Mon>, r: &mut Rng) {
    let _moved = Moved;
    let c = config(r);
    let log = Arc::new(Mutex::new(vec![]));
    let mut g = ReconnectManager::new(c.clone());
    g.set_callbacks(callbacks(&log));
    let g = Arc::new(g);
    let mut w = Model::new(c.clone());
    let mut did: Vec<String> = vec![];
    let mut failures = 0;
    let steps = if r.chance(1, 6) { r.range(25, 90) } else { r.range(1, 25) };
    for _ in 0..steps {
        let mut want = vec![];
        match r.below(9) {
            0..=3 => {
                // asks, and attempts if it may
                let t0 = Instant::now();
                let before = w.opened;
                let may = g.should_reconnect().await;
                let t1 = Instant::now();
                let over = match (w.state, before) {
                    (ConnectionState::CircuitOpen, Some((a, b))) => {
                        if t0.duration_since(b) >= c.circuit_breaker_timeout { Some(true) } else if t1.duration_since(a) < c.circuit_breaker_timeout { Some(false) } else { None }
                    },
                    _ => Some(true),
                };
                // in between, follow what it did
                let over = over.unwrap_or_else(|| { m.count("undecided circuit timeouts", 1); log.lock().unwrap().contains(&Ev::Close) });
                let should = w.should(over, &mut want);
                did.push(format!("ask={may}"));
                if !m.check(may == should, "should-reconnect", || format!("{may}, want {should}; {w:?}; {did:?}")) { return; }
                m.count(if may { "attempts allowed" } else { "attempts refused" }, 1);
                if may {
                    g.on_connecting().await;
                    w.connecting(&mut want);
                    m.check(!g.should_reconnect().await, "reconnects-while-connecting", || format!("{did:?}"));
                    let a = Instant::now();
                    if r.chance(1, 3) {
                        g.on_connected().await;
                        w.ok((a, Instant::now()), &mut want);
                        did.push("connected".into());
                    } else {
                        let e = Error::internal(format!("e{failures}"));
                        g.on_connection_failed(&e).await;
                        w.failed(&e.to_string(), (a, Instant::now()), &mut want);
                        failures += 1;
                        did.push("failed".into());
                    }
                }
            },
            4 | 5 => {
                did.push("lost".into());
                let t0 = Instant::now();
                if r.bool() {
                    g.on_disconnected().await;
                } else {
                    drop(ReconnectGuard::new(g.clone()));
                    mon::settle().await;
                }
                if let (ConnectionState::Connected, Some((a, b))) = (w.state, w.connected) {
                    let (least, most) = (t0.duration_since(b), Instant::now().duration_since(a));
                    let long = if least >= c.success_threshold { true } else if most < c.success_threshold { false } else { m.count("undecided lengths of a connection", 1); g.stats().current_retry_count == 0 };
                    if long { w.retry = 0; }
                    m.count(if long { "long connections lost" } else { "short connections lost" }, 1);
                }
                if w.state != ConnectionState::CircuitOpen { w.state = ConnectionState::Disconnected; }
            },
            6 => { let on = r.chance(2, 3); g.set_enabled(on); w.enabled = on; did.push(format!("enabled={on}")); },
            7 if r.chance(1, 3) => { g.reset(); w.retry = 0; w.fail = 0; did.push("reset".into()); },
            _ => {
                let d = if w.state == ConnectionState::CircuitOpen { c.circuit_breaker_timeout } else { c.success_threshold };
                let d = part(r, d);
                advance(d);
                did.push(format!("{d:?} later"));
            },
        }
        let got: Vec<Ev> = std::mem::take(&mut *log.lock().unwrap());
        let (a, b) = (sorted(got), sorted(want));
        if !m.check(a == b, "callbacks", || format!("{a:?}, want {b:?}; {w:?}; {did:?}")) { return; }
        let st = g.state().await;
        agree(m, &g, &w, st, &|| format!("{did:?} {c:?}"));
    }
    m.count("failed attempts", failures);
    m.case(format!("{did:?}{:?}{:?}", c.max_retries, c.circuit_breaker_threshold), failures > 0);
    m.sample("history", || format!("{did:?}"));
}

/// reconnect_with under virtual time.
async fn running(m: &Arc<Mon>, r: &mut Rng) {
    let mut c = config(r);
    if !c.circuit_breaker_timeout.is_zero() { c.circuit_breaker_timeout = HUGE; }
    if !c.success_threshold.is_zero() { c.success_threshold = HUGE; }
    let log = Arc::new(Mutex::new(vec![]));
    let mut g = ReconnectManager::new(c.clone());
    g.set_callbacks(callbacks(&log));
    let g = Arc::new(g);
    let mut w = Model::new(c.clone());
    let now = Instant::now();
    let mut story = vec![];
    for round in 0..r.range(1, 4) {
        // outcomes: k failures, then success (for ever)
        let k = if r.chance(1, 8) { r.below(30) } else { r.below(9) };
        let took: Vec<u64> = (0..12).map(|_| *r.pick(&[0, 1, 7, 500])).collect();
        let disable_at = if r.chance(1, 4) { Some((r.below(5), r.bool())) } else { None };
        let times: Arc<Mutex<Vec<(tokio::time::Instant, tokio::time::Instant)>>> = Default::default();
        let n = Arc::new(AtomicUsize::new(0));
        let result = {
            let (g2, t2, n2, took) = (g.clone(), times.clone(), n.clone(), took.clone());
            Some(g.reconnect_with(move || {
                let i = n2.fetch_add(1, Ordering::SeqCst);
                let (g3, t3, d) = (g2.clone(), t2.clone(), took[i.min(11)]);
                async move {
                    let a = tokio::time::Instant::now();
                    tokio::time::sleep(Duration::from_millis(d)).await;
                    if let Some((j, during_wait)) = disable_at {
                        if j == i {
                            if during_wait {
                                tokio::spawn(async move { tokio::time::sleep(Duration::from_nanos(1)).await; g3.set_enabled(false); });
                            } else {
                                g3.set_enabled(false);
                            }
                        }
                    }
                    t3.lock().unwrap().push((a, tokio::time::Instant::now()));
                    if i >= k || i > 60 { Ok(()) } else { Err(Error::internal(format!("e{round}.{i}"))) }
                }
            }).then_cancel(Duration::from_secs(800_000)).await)
        };
        let Some(Some(result)) = result else { m.fail("reconnect-hangs", format!("{k} failures; {c:?}")); return };
        let times = times.lock().unwrap().clone();
        // the model
        let mut want = vec![];
        let mut expect: Result<(), Option<String>> = Err(None);
        let mut n_att = 0;
        let mut delays = vec![];
        let over = c.circuit_breaker_timeout.is_zero();
        let mut late_disable = false;
        loop {
            if late_disable { w.enabled = false; }
            if !w.should(over, &mut want) { break; }
            w.connecting(&mut want);
            let i = n_att;
            n_att += 1;
            if let Some((j, during)) = disable_at { if j == i { if during { late_disable = true } else { w.enabled = false } } }
            if i >= k || i > 60 { w.ok((now, now), &mut want); expect = Ok(()); break; }
            w.failed(&Error::internal(format!("e{round}.{i}")).to_string(), (now, now), &mut want);
            if !w.should(over, &mut want) { expect = Err(Some(format!("e{round}.{i}"))); break; }
            delays.push(w.delay());
        }
        // a switch thrown during a wait of no length may come before or after the next look at it
        let zero_wait = late_disable && delays.iter().any(|d| d.0 < 0.002);
        story.push(format!("{k} failures, disable {disable_at:?}: {n_att} attempts, {result:?}"));
        if zero_wait {
            g.set_enabled(true);
            break;
        }
        if late_disable { w.enabled = false; mon::settle().await; tokio::time::sleep(Duration::from_millis(3)).await; }
        m.count("attempts run", times.len() as u64);
        m.check(times.len() == n_att, "attempts", || format!("{} attempts, want {n_att}; {story:?}; {c:?}", times.len()));
        let res: Result<(), String> = result.map_err(|e| e.to_string());
        m.check(
            match (&expect, &res) { (Ok(()), Ok(())) => true, (Err(None), Err(_)) => true, (Err(Some(a)), Err(b)) => b.ends_with(a.as_str()), _ => false },
            "outcome",
            || format!("{res:?}, want {expect:?}; {story:?}; {c:?}"),
        );
        for (i, p) in times.windows(2).enumerate() {
            let gap = p[1].0.duration_since(p[0].1).as_secs_f64();
            if let Some((lo, hi)) = delays.get(i) {
                m.count("waits measured", 1);
                m.check(gap >= lo - 0.0001 && gap <= hi + 0.0021, "wait", || format!("waited {gap} before attempt {}, want {lo}..{hi}; {story:?}; {c:?}", i + 2));
            }
        }
        let got: Vec<Ev> = std::mem::take(&mut *log.lock().unwrap());
        let order = |v: &[Ev]| v.iter().filter(|e| !matches!(e, Ev::Open | Ev::Close)).cloned().collect::<Vec<_>>();
        m.check(order(&got) == order(&want) && sorted(got.clone()) == sorted(want.clone()), "callbacks", || format!("{got:?}, want {want:?}; {story:?}; {c:?}"));
        let st = g.state().await;
        agree(m, &g, &w, st, &|| format!("{story:?} {c:?}"));
        m.case(("run", k, n_att, format!("{disable_at:?}{:?}", c.max_retries), round), n_att > 1);
        m.sample("run", || story.join("; "));
        g.set_enabled(true);
        w.enabled = true;
        if w.state == ConnectionState::Connected && r.bool() {
            g.on_disconnected().await;
            if c.success_threshold.is_zero() { w.retry = 0; }
            w.state = ConnectionState::Disconnected;
        }
    }
}
trait ThenCancel: Sized { async fn then_cancel(self, d: Duration) -> Option<Self::Out>; type Out; }
impl<F: std::future::Future> ThenCancel for F { type Out = F::Output; async fn then_cancel(self, d: Duration) -> Option<F::Output> { tokio::time::timeout(d, self).await.ok() } }

/// Several tasks asking at once after the circuit's timeout: it closes once.
fn crowd(m: &Arc<Mon>, r: &mut Rng) {
    let log = Arc::new(Mutex::new(vec![]));
    let thr = r.range(1, 3) as u32;
    let mut g = ReconnectManager::new(ReconnectConfig { circuit_breaker_threshold: Some(thr), circuit_breaker_timeout: Duration::from_micros(200), ..Default::default() });
    g.set_callbacks(callbacks(&log));
    let g = Arc::new(g);
    let one = mon::crt();
    one.block_on(async { for _ in 0..thr { g.on_connecting().await; g.on_connection_failed(&Error::internal("x")).await; } });
    std::thread::sleep(Duration::from_micros(400));
    let n = r.range(3, 6);
    let start = Arc::new(Barrier::new(n));
    let t: Vec<_> = (0..n).map(|_| { let (g, s) = (g.clone(), start.clone()); std::thread::spawn(move || { let rt = tokio::runtime::Builder::new_current_thread().build().unwrap(); s.wait(); rt.block_on(g.should_reconnect()) }) }).collect();
    let got: Vec<bool> = t.into_iter().map(|t| t.join().unwrap()).collect();
    let closes = log.lock().unwrap().iter().filter(|e| **e == Ev::Close).count();
    m.count("concurrent askers", n as u64);
    m.case(("crowd", thr, n), true);
    m.check(closes == 1, "circuit-closed-twice", || format!("{closes} close callbacks for one closing; answers {got:?}"));
    m.check(got.contains(&true), "circuit-never-closes", || format!("{got:?}"));
}

fn c29(m: &Arc<Mon>) {
    let mut r = m.rng("c29");
    m.stage("histories");
    for _ in 0..m.n(5000, 120_000) {
        if m.stopped() { return; }
        mon::crt().block_on(manual(m, &mut r));
    }
    m.stage("runs under virtual time");
    for _ in 0..m.n(1500, 40_000) {
        if m.stopped() { return; }
        if mon::virtually(running(m, &mut r)).is_none() { m.fail("reconnect-hangs", "virtual deadline"); }
    }
    m.stage("concurrent askers");
    for _ in 0..m.n(600, 6000) {
        if m.stopped() { return; }
        crowd(m, &mut r);
    }
}

// ---------------------------------------------------------------- C30

fn codes() -> [ErrorCode; 5] { [ErrorCode::INTERNAL_ERROR, ErrorCode::INVALID_REQUEST, ErrorCode::REQUEST_TIMEOUT, ErrorCode::METHOD_NOT_FOUND, ErrorCode::PARSE_ERROR] }
/// An error and the code its strategy is chosen by.
fn error(r: &mut Rng, tag: &str) -> (Error, ErrorCode) {
    match r.below(8) {
        0 => (Error::Timeout(5), ErrorCode::INTERNAL_ERROR),
        1 => (Error::validation(tag), ErrorCode::INTERNAL_ERROR),
        2 => (Error::internal(tag), ErrorCode::INTERNAL_ERROR),
        3 => (Error::Cancelled, ErrorCode::INTERNAL_ERROR),
        _ => { let c = *r.pick(&codes()); (Error::protocol(c, tag), c) },
    }
}
#[derive(Clone, Debug)]
enum Step { Ok(i64), Err(usize) }

struct Fixed(Arc<Mutex<Vec<String>>>, Result<Value, String>);
#[async_trait::async_trait]
impl RecoveryHandler for Fixed {
    async fn recover(&self, e: &str) -> pmcp::Result<Value> {
        self.0.lock().unwrap().push(e.to_string());
        self.1.clone().map_err(Error::internal)
    }
}

/// One operation with a scripted sequence of outcomes, under a policy without circuit breakers.
async fn recovered(m: &Arc<Mon>, r: &mut Rng) {
    let strategy = |r: &mut Rng| match r.below(4) {
        0 => RecoveryStrategy::RetryFixed { attempts: (if r.chance(1, 5) { r.below(42) } else { r.below(5) }) as u32, delay: Duration::from_millis(r.below(3000) as u64) },
        1 => {
            let initial = r.below(2000) as u64;
            RecoveryStrategy::RetryExponential { attempts: (if r.chance(1, 5) { r.below(42) } else { r.below(6) }) as u32, initial_delay: Duration::from_millis(initial), max_delay: Duration::from_millis(initial + r.below(4000) as u64), multiplier: *r.pick(&[1.0, 1.5, 2.0, 4.0, 0.5]) }
        },
        2 => RecoveryStrategy::Fallback,
        _ => RecoveryStrategy::FailFast,
    };
    let default = strategy(r);
    let mut policy = if r.chance(1, 5) { RecoveryPolicy::default() } else { RecoveryPolicy::new(default) };
    let mut added = vec![];
    for c in codes() {
        if r.chance(1, 2) { let s = strategy(r); policy.add_strategy(c, s.clone()); added.push((c, s)); }
    }
    let seen = Arc::new(Mutex::new(vec![]));
    let mut x = RecoveryExecutor::new(policy.clone());
    let fallback: Option<Result<Value, String>> = match r.below(3) { 0 => None, 1 => Some(Ok(json!("fallback"))), _ => Some(Err("no fallback either".into())) };
    if let Some(f) = &fallback { x.register_handler("op".into(), Arc::new(Fixed(seen.clone(), f.clone()))); }
    x.register_handler("other".into(), Arc::new(Fixed(seen.clone(), Ok(json!("wrong handler")))));
    for near in ["OP", "op ", " op", "o", "op2", "o p", ""] { x.register_handler(near.into(), Arc::new(Fixed(seen.clone(), Ok(json!("wrong handler"))))); }
    let errors: Vec<(Error, ErrorCode)> = (0..44).map(|i| error(r, &format!("e{i}"))).collect();
    let lucky = if r.bool() { 4 } else { 100 };
    let texts: Vec<String> = errors.iter().map(|e| e.0.to_string()).collect();
    let kinds: Vec<ErrorCode> = errors.iter().map(|e| e.1).collect();
    let steps: Vec<Step> = (0..44).map(|i| if r.chance(1, lucky) { Step::Ok(i as i64) } else { Step::Err(i) }).collect();
    let errors = Mutex::new(errors.into_iter().map(|e| Some(e.0)).collect::<Vec<_>>());
    let n = AtomicUsize::new(0);
    let at = Mutex::new(vec![]);
    let took = r.below(50) as u64;
    let got = x
        .execute_with_recovery("op", || {
            let i = n.fetch_add(1, Ordering::SeqCst);
            at.lock().unwrap().push(tokio::time::Instant::now());
            let out = match &steps[i.min(43)] { Step::Ok(v) => Ok(json!(v)), Step::Err(k) => Err(errors.lock().unwrap()[*k].take().unwrap_or(Error::internal("again"))) };
            async move { tokio::time::sleep(Duration::from_millis(took)).await; out }
        })
        .await;
    let runs = n.load(Ordering::SeqCst);
    // what the policy prescribes
    let (retries, delays, fall): (usize, Vec<f64>, bool) = match &steps[0] {
        Step::Ok(_) => (0, vec![], false),
        Step::Err(_) => match policy.get_strategy(&kinds[0]) {
            RecoveryStrategy::RetryFixed { attempts, delay } => (*attempts as usize, vec![delay.as_secs_f64(); *attempts as usize], false),
            RecoveryStrategy::RetryExponential { attempts, initial_delay, max_delay, multiplier } => {
                let mut d = initial_delay.as_secs_f64();
                (*attempts as usize, (0..*attempts).map(|_| { let x = d; d = (d * multiplier).min(max_delay.as_secs_f64()); x }).collect(), false)
            },
            RecoveryStrategy::Fallback => (0, vec![], true),
            _ => (0, vec![], false),
        },
    };
    // strategies looked up as configured
    for (c, s) in &added { m.check(format!("{:?}", policy.get_strategy(c)) == format!("{s:?}"), "strategy", || format!("{c:?}: {:?}, want {s:?}", policy.get_strategy(c))); }
    let mut want_runs = 1;
    while want_runs <= retries && matches!(steps[want_runs - 1], Step::Err(_)) { want_runs += 1; }
    let want: Result<Value, String> = if fall {
        match &fallback { Some(Ok(v)) => Ok(v.clone()), Some(Err(e)) => Err(Error::internal(e.clone()).to_string()), None => Err(Error::internal(texts[0].clone()).to_string()) }
    } else {
        match &steps[want_runs - 1] { Step::Ok(v) => Ok(json!(v)), Step::Err(k) => Err(texts[*k].clone()) }
    };
    let what = || format!("first error {:?} {:?}, strategy {:?}, steps {steps:?}, fallback {fallback:?}", texts[0], kinds[0], policy.get_strategy(&kinds[0]));
    let failed = matches!(steps[0], Step::Err(_));
    m.case(("recovery", format!("{steps:?}{:?}", policy.get_strategy(&kinds[0]))), failed);
    m.count("operation runs", runs as u64);
    m.check(runs == want_runs, "runs", || format!("{runs} runs, want {want_runs}; {}", what()));
    let got = got.map_err(|e| e.to_string());
    if fall && fallback.is_none() {
        m.check(got.is_err(), "result", || format!("{got:?}, want an error; {}", what()));
    } else {
        m.check(got == want, "result", || format!("{got:?}, want {want:?}; {}", what()));
    }
    let s = seen.lock().unwrap();
    let want_seen: Vec<String> = if fall && fallback.is_some() { vec![texts[0].clone()] } else { vec![] };
    m.count("fallbacks run", s.len() as u64);
    m.check(*s == want_seen, "fallback", || format!("fallback got {s:?}, want {want_seen:?}; {}", what()));
    for (i, w) in at.lock().unwrap().windows(2).enumerate() {
        let gap = w[1].duration_since(w[0]).as_secs_f64() - took as f64 / 1000.0;
        m.count("waits measured", 1);
        m.check(gap > delays[i] - 0.0001 && gap < delays[i] + 0.0031, "wait", || format!("waited {gap} before retry {}, want {:?}; {}", i + 1, delays, what()));
    }
}
async fn plain_retry(m: &Arc<Mon>, r: &mut Rng) {
    let attempts = if r.chance(1, 5) { r.below(60) } else { r.below(6) };
    let succeed = if r.chance(1, 5) { r.below(60) } else { r.below(7) };
    let d = r.below(1000) as u64;
    let n = AtomicUsize::new(0);
    let at = Mutex::new(vec![]);
    let got = with_retry(attempts as u32, Duration::from_millis(d), || {
        let i = n.fetch_add(1, Ordering::SeqCst);
        at.lock().unwrap().push(tokio::time::Instant::now());
        async move { if i >= succeed { Ok(json!(i)) } else { Err(Error::internal(format!("e{i}"))) } }
    })
    .await;
    let runs = n.load(Ordering::SeqCst);
    let want = attempts.min(succeed + 1);
    m.case(("with_retry", attempts, succeed), attempts > 0 && succeed > 0);
    m.check(runs == want, "runs", || format!("with_retry({attempts}) success at {succeed}: {runs} runs"));
    let g = got.map_err(|e| e.to_string());
    let w = if attempts > succeed { Ok(json!(succeed)) } else { Err(if attempts == 0 { String::new() } else { format!("e{}", attempts - 1) }) };
    m.check(match (&g, &w) { (Ok(a), Ok(b)) => a == b, (Err(a), Err(b)) => a.ends_with(b.as_str()), _ => false }, "result", || format!("with_retry({attempts}) success at {succeed}: {g:?} want {w:?}"));
    for w in at.lock().unwrap().windows(2) {
        let gap = w[1].duration_since(w[0]).as_millis() as u64;
        m.check(gap >= d && gap <= d + 3, "wait", || format!("with_retry waited {gap} ms, want {d}"));
    }
    // the handlers the crate brings
    let calls = Arc::new(AtomicUsize::new(0));
    let c2 = calls.clone();
    let f = FallbackHandler::new(move || { let n = c2.fetch_add(1, Ordering::SeqCst); async move { Ok(json!(n)) } });
    let v = f.recover("x").await;
    m.check(matches!(&v, Ok(x) if *x == json!(0)) && calls.load(Ordering::SeqCst) == 1, "fallback", || format!("{v:?} after {calls:?} calls"));
    let text = r.string(10);
    let e = pmcp::error::recovery::DefaultRecoveryHandler.recover(&text).await;
    m.check(matches!(&e, Err(e) if e.to_string().contains(&text)), "fallback", || format!("default handler: {e:?} for {text:?}"));
}

/// What a circuit breaker may do, from the results recorded on it.
#[derive(Debug, Clone)]
struct Breaker { f: u32, s: u32, timeout: Duration, state: char, fails: u32, succ: u32, opened: (Instant, Instant), last: (Instant, Instant) }
impl Breaker {
    fn new(f: u32, s: u32, timeout: Duration) -> Self { let n = (Instant::now(), Instant::now()); Breaker { f, s, timeout, state: 'C', fails: 0, succ: 0, opened: n, last: n } }
    /// Whether a request asked for between the two moments is to be admitted; None when it cannot be told.
    fn may(&self, t0: Instant, t1: Instant) -> Option<bool> {
        if self.state != 'O' { return Some(true); }
        // a failure reported late may start the wait again
        if t0.duration_since(self.last.1) >= self.timeout { Some(true) } else if t1.duration_since(self.opened.0) < self.timeout { Some(false) } else { None }
    }
    fn asked(&mut self, admitted: bool) { if self.state == 'O' && admitted { self.state = 'H'; self.succ = 0; } }
    fn success(&mut self) {
        match self.state { 'C' => self.fails = 0, 'H' => { self.succ += 1; if self.succ >= self.s { self.state = 'C'; self.fails = 0; } }, _ => {} }
    }
    fn failure(&mut self, at: (Instant, Instant)) {
        match self.state {
            'C' => { self.fails += 1; if self.fails >= self.f { self.state = 'O'; self.opened = at; self.last = at; } },
            'H' => { self.state = 'O'; self.opened = at; self.last = at; },
            _ => self.last = at,
        }
    }
}
async fn breaker(m: &Arc<Mon>, r: &mut Rng) {
    let _moved = Moved;
    let most = if r.chance(1, 6) { 14 } else { 4 };
    let (f, s) = (r.range(1, most) as u32, r.range(1, most) as u32);
    let timeout = *r.pick(&[Duration::ZERO, HUGE, Duration::from_secs(60), Duration::from_millis(1500)]);
    let cb = CircuitBreaker::new(CircuitBreakerConfig { failure_threshold: f, success_threshold: s, timeout });
    let mut w = Breaker::new(f, s, timeout);
    let mut did = vec![];
    let mut admitted: usize = 0;
    let mut failures = 0;
    for _ in 0..r.range(2, if most > 4 { 160 } else { 40 }) {
        match r.below(10) {
            0..=4 => {
                let t0 = Instant::now();
                let ok = cb.allow_request().await;
                let t1 = Instant::now();
                if let Some(want) = w.may(t0, t1) {
                    if !m.check(ok == want, "breaker-admission", || format!("admitted {ok}, want {want}; {w:?}; {did:?}")) { return; }
                } else {
                    m.count("undecided circuit timeouts", 1);
                }
                m.count(if ok { "requests admitted" } else { "requests refused" }, 1);
                w.asked(ok);
                did.push(if ok { "+" } else { "-" });
                if ok { admitted += 1; }
            },
            // results of requests admitted before, possibly long before
            5 | 6 if admitted > 0 => { admitted -= 1; cb.record_success().await; w.success(); did.push("s"); },
            7 | 8 if admitted > 0 => { admitted -= 1; failures += 1; let a = Instant::now(); cb.record_failure().await; w.failure((a, Instant::now())); did.push("f"); },
            9 => { advance(part(r, timeout)); did.push("nap"); },
            _ => {},
        }
    }
    m.case(("breaker", did.concat(), f, s, timeout), failures > 0);
    m.sample("breaker", || format!("{f}/{s}/{timeout:?}: {}", did.concat()));
}
/// Whole operations under the circuit-breaker strategy: what runs, and what the caller gets.
async fn guarded(m: &Arc<Mon>, r: &mut Rng) {
    let _moved = Moved;
    let most = if r.chance(1, 6) { 14 } else { 4 };
    let (f, s) = (r.range(1, most) as u32, r.range(1, most) as u32);
    let timeout = *r.pick(&[Duration::ZERO, HUGE, Duration::from_secs(60), Duration::from_millis(1500)]);
    let mut policy = RecoveryPolicy::new(RecoveryStrategy::FailFast);
    policy.add_strategy(ErrorCode::INTERNAL_ERROR, RecoveryStrategy::CircuitBreaker { failure_threshold: f, success_threshold: s, timeout });
    let x = RecoveryExecutor::new(policy);
    // each operation has its own breaker, however alike the names
    let names = *r.pick(&[["a", "b"], ["a", "A"], ["a:1", "a:2"], ["db/read", "db/write"], ["op", "op "], ["", "x"], ["x", "xx"]]);
    let mut w = [Breaker::new(f, s, timeout), Breaker::new(f, s, timeout)];
    let mut did: Vec<String> = vec![];
    let mut failures = 0;
    let mood = *r.pick(&[1, 3, 4]);
    for i in 0..r.range(2, if most > 4 { 60 } else { 16 }) {
        let k = if r.chance(4, 5) { 0 } else { 1 };
        if r.chance(1, 4) { let d = part(r, timeout); advance(d); did.push(format!("{d:?} later")); }
        let fails = r.chance(mood, 5);
        let n = AtomicUsize::new(0);
        let t0 = Instant::now();
        let got = x.execute_with_recovery(names[k], || { n.fetch_add(1, Ordering::SeqCst); async move { if fails { Err(Error::internal(format!("e{i}"))) } else { Ok(json!(i)) } } }).await;
        let t1 = Instant::now();
        let runs = n.load(Ordering::SeqCst);
        let may = w[k].may(t0, t1).unwrap_or(runs > 0);
        did.push(format!("{}{}={runs}", names[k], if fails { "f" } else { "s" }));
        m.count("guarded operations", 1);
        let what = || format!("{did:?}; {f}/{s}/{timeout:?} {:?}", w[k]);
        let ok = if may {
            m.check(runs == 1, "breaker-runs", || format!("{runs} runs of an admitted operation; {}", what()))
                && m.check(match &got { Ok(v) => !fails && *v == json!(i), Err(e) => fails && e.to_string().ends_with(&format!("e{i}")) }, "breaker-result", || format!("{got:?}; {}", what()))
        } else {
            m.count("operations refused", 1);
            m.check(runs == 0 && got.is_err(), "open-circuit-admits", || format!("{runs} runs while the circuit is open, {got:?}; {}", what()))
        };
        if !ok { return; }
        w[k].asked(may);
        if may { if fails { failures += 1; w[k].failure((t0, t1)) } else { w[k].success() } }
    }
    m.case(("guarded", did.concat(), f, s, timeout), failures > 0);
}
/// Concurrent reporters: consistent with some order of them.
fn breaker_crowd(m: &Arc<Mon>, r: &mut Rng) {
    // k failures reported at once on a closed circuit that opens at k (or at k + 1)
    let k = r.range(2, 6);
    let extra = r.below(2);
    let cb = Arc::new(CircuitBreaker::new(CircuitBreakerConfig { failure_threshold: (k + extra) as u32, success_threshold: k as u32, timeout: if r.bool() { Duration::ZERO } else { HUGE } }));
    let par = |what: usize| {
        let start = Arc::new(Barrier::new(k));
        let t: Vec<_> = (0..k).map(|_| { let (c, s) = (cb.clone(), start.clone()); std::thread::spawn(move || { let rt = tokio::runtime::Builder::new_current_thread().build().unwrap(); s.wait(); rt.block_on(async { match what { 0 => { c.record_failure().await; true }, 1 => { c.record_success().await; true }, _ => c.allow_request().await } }) }) }).collect();
        t.into_iter().map(|t| t.join().unwrap()).collect::<Vec<bool>>()
    };
    par(0);
    let rt = mon::crt();
    let text = format!("{cb:?}");
    let huge = text.contains("36000");
    m.case(("breaker crowd", k, extra, huge), true);
    m.count("concurrent reporters", k as u64);
    if huge {
        let ok = rt.block_on(cb.allow_request());
        m.check(ok == (extra == 1), "breaker-admission", || format!("after {k} concurrent failures with threshold {}: admitted {ok}", k + extra));
    } else if extra == 0 {
        // half open for everyone who asks; then exactly k successes close it: one failure fewer than k+extra leaves it closed
        let got = par(2);
        m.check(got.iter().all(|b| *b), "breaker-admission", || format!("{got:?} after the timeout"));
        par(1);
        rt.block_on(async {
            for _ in 0..k + extra - 1 { cb.record_failure().await; }
            // closed: a success forgets the failures
            cb.record_success().await;
            for _ in 0..k + extra - 1 { cb.record_failure().await; }
        });
        let s = rt.block_on(cb.allow_request());
        m.check(s, "breaker-admission", || "closed circuit refuses".into());
    }
}

/// Probes racing each other right after the timeout: as many successes as configured close the circuit.
fn probes(m: &Arc<Mon>, r: &mut Rng) {
    let k = r.range(2, 5);
    let timeout = Duration::from_millis(40);
    let rounds: Vec<_> = (0..60).map(|_| {
        let cb = Arc::new(CircuitBreaker::new(CircuitBreakerConfig { failure_threshold: 2, success_threshold: k as u32, timeout }));
        mon::crt().block_on(async { cb.record_failure().await; cb.record_failure().await; });
        cb
    }).collect();
    std::thread::sleep(timeout + Duration::from_millis(2));
    for cb in rounds {
        let start = Arc::new(Barrier::new(k));
        let t: Vec<_> = (0..k).map(|_| { let (c, s) = (cb.clone(), start.clone()); std::thread::spawn(move || { let rt = tokio::runtime::Builder::new_current_thread().build().unwrap(); s.wait(); rt.block_on(async { let a = c.allow_request().await; c.record_success().await; a }) }) }).collect();
        let got: Vec<bool> = t.into_iter().map(|t| t.join().unwrap()).collect();
        let t0 = Instant::now();
        let closed = mon::crt().block_on(async { cb.record_failure().await; cb.allow_request().await });
        m.count("racing probes", k as u64);
        m.case(("probes", k), true);
        m.check(got.iter().all(|b| *b), "breaker-admission", || format!("{got:?} after the timeout"));
        // one failure does not open a closed circuit (threshold 2); it does reopen a half-open one, for the timeout
        if t0.elapsed() < timeout { m.check(closed, "breaker-admission", || format!("{k} successful probes did not close the circuit")); }
    }
}

fn c30(m: &Arc<Mon>) {
    let mut r = m.rng("c30");
    m.stage("policies under virtual time");
    for _ in 0..m.n(4000, 100_000) {
        if m.stopped() { return; }
        if mon::virtually(async { recovered(m, &mut r).await; plain_retry(m, &mut r).await }).is_none() { m.fail("recovery-hangs", "virtual deadline"); }
    }
    m.stage("circuit breakers");
    for _ in 0..m.n(4000, 60_000) {
        if m.stopped() { return; }
        mon::crt().block_on(breaker(m, &mut r));
        mon::crt().block_on(guarded(m, &mut r));
    }
    m.stage("concurrent reports");
    for _ in 0..m.n(400, 4000) {
        if m.stopped() { return; }
        breaker_crowd(m, &mut r);
    }
    m.stage("racing probes");
    for _ in 0..m.n(20, 200) {
        if m.stopped() { return; }
        probes(m, &mut r);
    }
}

// ---------------------------------------------------------------- C31

#[derive(Clone, Debug, PartialEq)]
struct Visit { who: usize, kind: char, saw: Value }
struct Spy { who: usize, log: Arc<Mutex<Vec<Visit>>>, fail: Arc<Mutex<Option<(usize, char, Error2)>>>, change: u8, pause: u64 }
#[derive(Clone, Debug)]
struct Error2(u8, String);
impl Error2 {
    fn make(&self) -> Error {
        match self.0 { 0 => Error::internal(&self.1), 1 => Error::protocol(ErrorCode::INVALID_PARAMS, &self.1), 2 => Error::Timeout(77), 3 => Error::Cancelled, _ => Error::protocol_with_data(ErrorCode::INTERNAL_ERROR, &self.1, json!({"d": self.1})) }
    }
}
impl Spy {
    async fn visit(&self, kind: char, saw: Value) -> pmcp::Result<()> {
        for _ in 0..self.pause { tokio::task::yield_now().await; }
        self.log.lock().unwrap().push(Visit { who: self.who, kind, saw });
        if let Some((w, k, e)) = &*self.fail.lock().unwrap() { if *w == self.who && *k == kind { return Err(e.make()); } }
        Ok(())
    }
}
fn req_json(q: &JSONRPCRequest) -> Value { serde_json::to_value(q).unwrap() }
fn res_json(q: &JSONRPCResponse) -> Value { serde_json::to_value(q).unwrap() }
fn msg_json(q: &TransportMessage) -> Value { Value::String(format!("{q:?}")) }
fn change_request(who: usize, change: u8, q: &mut JSONRPCRequest) {
    match change {
        0 => {},
        1 => q.method.push_str(&format!("/{who}")),
        2 => { let mut p = q.params.take().unwrap_or(json!({})); if let Some(o) = p.as_object_mut() { o.insert(format!("k{who}"), json!(who)); o.insert("last".into(), json!(who)); } q.params = Some(p); },
        _ => { q.params = None; q.id = RequestId::from(who as i64) },
    }
}
fn change_response(who: usize, change: u8, q: &mut JSONRPCResponse) {
    use pmcp::types::jsonrpc::ResponsePayload;
    match change {
        0 => {},
        1 => q.id = RequestId::String(format!("{}/{who}", q.id)),
        2 => if let ResponsePayload::Result(v) = &mut q.payload { *v = json!([v.clone(), who]); },
        _ => q.payload = ResponsePayload::Result(json!(who)),
    }
}
#[async_trait::async_trait]
impl Middleware for Spy {
    async fn on_request(&self, q: &mut JSONRPCRequest) -> pmcp::Result<()> {
        self.visit('q', req_json(q)).await?;
        change_request(self.who, self.change, q);
        Ok(())
    }
    async fn on_response(&self, q: &mut JSONRPCResponse) -> pmcp::Result<()> {
        self.visit('r', res_json(q)).await?;
        change_response(self.who, self.change, q);
        Ok(())
    }
    async fn on_send(&self, q: &TransportMessage) -> pmcp::Result<()> { self.visit('s', msg_json(q)).await }
    async fn on_receive(&self, q: &TransportMessage) -> pmcp::Result<()> { self.visit('v', msg_json(q)).await }
}
fn request(r: &mut Rng) -> JSONRPCRequest {
    JSONRPCRequest { jsonrpc: "2.0".into(), id: mon::wire::id(r).0, method: r.string(10), params: if r.bool() { Some(r.object(3)) } else { None } }
}
fn response(r: &mut Rng) -> JSONRPCResponse {
    match mon::wire::response(r).msg { TransportMessage::Response(x) => x, _ => unreachable!() }
}
fn builtin(r: &mut Rng) -> (Arc<dyn Middleware>, &'static str) {
    let level = *r.pick(&[tracing::Level::TRACE, tracing::Level::DEBUG, tracing::Level::INFO, tracing::Level::WARN, tracing::Level::ERROR]);
    match r.below(5) {
        0 | 1 => (Arc::new(LoggingMiddleware::new(level)), "logging"),
        2 => (Arc::new(LoggingMiddleware::default()), "logging"),
        3 => (Arc::new(AuthMiddleware::new(r.string(10))), "auth"),
        _ => (Arc::new(RetryMiddleware::new(r.below(5) as u32, 10, 100)), "retry"),
    }
}

async fn chain(m: &Arc<Mon>, r: &mut Rng) {
    let log: Arc<Mutex<Vec<Visit>>> = Default::default();
    let fail = Arc::new(Mutex::new(None));
    let n = if r.chance(1, 100) { 300 } else { *r.pick(&[0, 1, 2, 3, 5, 9, 40]) };
    let mut c = if r.bool() { MiddlewareChain::new() } else { MiddlewareChain::default() };
    let mut spies = vec![];
    // who is asked, in order: one instance may be registered more than once
    let mut seq = vec![];
    let mut made: Vec<Arc<dyn Middleware>> = vec![];
    for who in 0..n {
        while r.chance(1, 3) { c.add(builtin(r).0); }
        let change = r.below(4) as u8;
        spies.push(change);
        let spy: Arc<dyn Middleware> = Arc::new(Spy { who, log: log.clone(), fail: fail.clone(), change, pause: r.below(3) as u64 });
        c.add(spy.clone());
        seq.push(who);
        made.push(spy);
        if r.chance(1, 6) {
            let again = r.below(made.len());
            c.add(made[again].clone());
            seq.push(again);
        }
    }
    for _ in 0..4 {
        let kind = *r.pick(&['q', 'r', 's', 'v']);
        let bad = if n > 0 && r.chance(1, 3) { Some(r.below(n)) } else { None };
        let e = Error2(r.below(5) as u8, r.string(8));
        *fail.lock().unwrap() = bad.map(|w| (w, kind, e.clone()));
        log.lock().unwrap().clear();
        let upto = bad.map_or(seq.len(), |b| seq.iter().position(|w| *w == b).unwrap() + 1);
        let mut want = vec![];
        let (got, after, want_after);
        match kind {
            'q' => {
                let mut q = request(r);
                let mut x = q.clone();
                for &who in &seq[..upto] { want.push(Visit { who, kind, saw: req_json(&x) }); if bad != Some(who) { change_request(who, spies[who], &mut x); } }
                got = c.process_request(&mut q).await;
                (after, want_after) = (req_json(&q), req_json(&x));
            },
            'r' => {
                let mut q = response(r);
                let mut x = q.clone();
                for &who in &seq[..upto] { want.push(Visit { who, kind, saw: res_json(&x) }); if bad != Some(who) { change_response(who, spies[who], &mut x); } }
                got = c.process_response(&mut q).await;
                (after, want_after) = (res_json(&q), res_json(&x));
            },
            _ => {
                let q = mon::wire::message(r).msg;
                for &who in &seq[..upto] { want.push(Visit { who, kind, saw: msg_json(&q) }); }
                got = if kind == 's' { c.process_send(&q).await } else { c.process_receive(&q).await };
                (after, want_after) = (Value::Null, Value::Null);
            },
        }
        let seen = log.lock().unwrap().clone();
        m.case(("chain", kind, n, bad, spies.clone()), n > 0);
        m.count("visits", seen.len() as u64);
        m.check(seen == want, "visits", || format!("{kind}: visited {:?}, want {:?}; fails at {bad:?}; {:.300} / {:.300}", seen.iter().map(|v| v.who).collect::<Vec<_>>(), want.iter().map(|v| v.who).collect::<Vec<_>>(), format!("{seen:?}"), format!("{want:?}")));
        m.check(after == want_after, "modifications", || format!("{kind}: {after} want {want_after}; fails at {bad:?}"));
        match (&got, bad) {
            (Ok(()), None) => {},
            (Err(g), Some(_)) => { m.count("chains stopped", 1); let w = e.make(); m.check(format!("{g:?}") == format!("{w:?}"), "error", || format!("{g:?}, want {w:?}")); },
            _ => m.fail("error", format!("{kind}: {got:?}, fails at {bad:?}")),
        }
    }
}
async fn builtins(m: &Arc<Mon>, r: &mut Rng) {
    let (b, name) = builtin(r);
    let mut q = request(r);
    let mut p = response(r);
    let t = mon::wire::message(r).msg;
    let (q0, p0) = (req_json(&q), res_json(&p));
    let ok = b.on_request(&mut q).await.is_ok() & b.on_response(&mut p).await.is_ok() & b.on_send(&t).await.is_ok() & b.on_receive(&t).await.is_ok();
    m.case((name, q.method.clone()), true);
    m.count("built-in middleware calls", 4);
    m.check(ok, "builtin-rejects", || format!("{name} on {q0} / {p0}"));
    m.check(req_json(&q) == q0 && res_json(&p) == p0, "builtin-alters", || format!("{name}: {q0} -> {:?}, {p0} -> {:?}", q, p));
}

fn c31(m: &Arc<Mon>) {
    let _ = tracing_subscriber::fmt().with_max_level(tracing::Level::TRACE).with_writer(std::io::sink).try_init();
    let mut r = m.rng("c31");
    let rt = mon::crt();
    for _ in 0..m.n(4000, 100_000) {
        if m.stopped() { return; }
        rt.block_on(chain(m, &mut r));
        rt.block_on(builtins(m, &mut r));
    }
    m.stage("shared chain");
    // the same chain used by several threads at once: each message has its own, complete pass
    let log: Arc<Mutex<Vec<Visit>>> = Default::default();
    let mut c = MiddlewareChain::new();
    for who in 0..4 { c.add(Arc::new(Spy { who, log: log.clone(), fail: Default::default(), change: 1, pause: 1 })); }
    let c = Arc::new(c);
    let per = m.n(300, 5000);
    let rt = mon::mrt(4);
    rt.block_on(async {
        let mut set = tokio::task::JoinSet::new();
        for t in 0..6 {
            let (c, m) = (c.clone(), m.clone());
            set.spawn(async move {
                for i in 0..per {
                    let mut q = JSONRPCRequest { jsonrpc: "2.0".into(), id: RequestId::from(1i64), method: format!("{t}.{i}"), params: None };
                    let ok = c.process_request(&mut q).await.is_ok();
                    m.check(ok && q.method == format!("{t}.{i}/0/1/2/3"), "modifications", || q.method.clone());
                }
            });
        }
        while let Some(x) = set.join_next().await { x.unwrap(); }
    });
    m.count("concurrent visits", log.lock().unwrap().len() as u64);
    m.check(log.lock().unwrap().len() == per * 6 * 4, "visits", || "concurrent passes".into());
}
