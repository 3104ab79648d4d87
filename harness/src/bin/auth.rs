//! C33 OAuth codes and tokens, C34 authentication and authorization middleware.
use mon::{Check, Mon, Rng};
use pmcp::server::auth::*;
use pmcp::types::auth::{AuthInfo, AuthScheme};
use pmcp::{Error, ErrorCode};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn main() {
    mon::main(&[
        Check { id: "C33", rule: "one history of registrations, codes, exchanges, refreshes, revocations and clock jumps, or one storm of concurrent ones; non-trivial when a token was issued", run: c33 },
        Check { id: "C34", rule: "one authentication of one set of credentials by one (nested) middleware; non-trivial when credentials were presented", run: c34 },
    ]);
}

/// Seconds the wall clock of this process runs ahead.
static AHEAD: AtomicI64 = AtomicI64::new(0);
/// Takes the place of the C library's: everything in this process sees the moved wall clock.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let rc = libc::syscall(libc::SYS_clock_gettime, clock, ts) as libc::c_int;
    if rc == 0 && clock == libc::CLOCK_REALTIME { (*ts).tv_sec += AHEAD.load(Ordering::SeqCst); }
    rc
}

fn s256(v: &str) -> String {
    use base64::{engine::general_purpose::URL_SAFE_NO_PAD, Engine as _};
    use sha2::{Digest, Sha256};
    URL_SAFE_NO_PAD.encode(Sha256::digest(v.as_bytes()))
}

#[derive(Clone, Debug)]
struct Code { client: String, user: String, redirect: String, scopes: Vec<String>, verifier: Option<String>, bad_method: bool, used: bool, doubtful: bool, at: i64 }
#[derive(Clone, Debug, PartialEq)]
struct Tok { client: String, user: String, scopes: Vec<String>, alive: bool, refresh: Option<String>, refreshable: bool, at: i64, life: i64 }

fn scopes(r: &mut Rng) -> Vec<String> { (0..if r.chance(1, 12) { r.range(4, 40) } else { r.below(4) }).map(|_| (*r.pick(&["read", "write", "a:b", "öx", "a", "a:b:c", "read:all", "READ", "re", "*", "write*"])).to_string()).collect() }
/// Also names that no token endpoint would hand out (its scopes are separated by spaces).
fn odd_scopes(r: &mut Rng) -> Vec<String> { (0..if r.chance(1, 16) { r.range(4, 20) } else { r.below(4) }).map(|_| (*r.pick(&["read", "write", "a:b", "öx", "a", "a:b:c", "read:all", "READ", "re", "*", "write*", "read:*", "a:*", "read write", " read", ""])).to_string()).collect() }
fn client(r: &mut Rng) -> OAuthClient {
    let id = if r.bool() { String::new() } else { format!("c{}", r.below(4)) };
    OAuthClient {
        client_secret: if r.bool() { None } else { Some(if r.chance(1, 6) { id.clone() } else { r.ident(8) }) },
        client_id: id,
        client_name: r.string(6),
        redirect_uris: (0..r.below(3)).map(|k| format!("https://app/{k}")).collect(),
        grant_types: vec![GrantType::AuthorizationCode],
        response_types: if r.chance(4, 5) { vec![ResponseType::Code] } else { vec![ResponseType::Token] },
        scopes: if r.chance(1, 4) { vec![] } else { (0..r.range(1, 3)).map(|_| (*r.pick(&["read", "write", "admin", "read:all", "writer", "READ"])).to_string()).collect() },
        metadata: HashMap::new(),
    }
}
/// Something almost, but not quite, the same.
fn near(r: &mut Rng, s: &str) -> String {
    let n = match r.below(9) {
        0 => format!("{s}x"),
        // the same characters in another order
        8 => s.chars().rev().collect(),
        1 => format!("{s}/"),
        2 => format!(" {s}"),
        3 => s.to_uppercase(),
        4 => s.chars().map(|c| if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
        5 => s.chars().take(s.chars().count().saturating_sub(1)).collect(),
        6 => format!("{s}="),
        _ => s.chars().skip(1).collect(),
    };
    if n == s { format!("{s}x") } else { n }
}
fn token_request(code: Option<String>) -> TokenRequest {
    TokenRequest { grant_type: GrantType::AuthorizationCode, code, redirect_uri: None, client_id: None, client_secret: None, refresh_token: None, username: None, password: None, scope: None, code_verifier: None }
}

struct World { p: Arc<dyn OAuthProvider>, clients: BTreeMap<String, OAuthClient>, codes: BTreeMap<String, Code>, toks: BTreeMap<String, Tok>, did: Vec<String> }
impl World {
    fn issued(&mut self, m: &Arc<Mon>, t: &AccessToken, client: &str, user: &str, scopes: &[String]) {
        m.count("tokens issued", 1);
        let fresh = !self.toks.contains_key(&t.access_token) && t.refresh_token.as_ref().map_or(true, |x| self.toks.values().all(|k| k.refresh.as_ref() != Some(x)));
        m.check(fresh, "token-reused", || format!("{t:?}; {:?}", self.did));
        m.check(t.token_type == TokenType::Bearer && t.scope.clone().unwrap_or_default().split_whitespace().eq(scopes.iter().map(String::as_str)), "token-answer", || format!("{t:?} for scopes {scopes:?}"));
        self.toks.insert(t.access_token.clone(), Tok { client: client.into(), user: user.into(), scopes: scopes.to_vec(), alive: true, refresh: t.refresh_token.clone(), refreshable: true, at: AHEAD.load(Ordering::SeqCst), life: t.expires_in.map_or(i64::MAX / 2, |x| x as i64) });
    }
    /// Every token ever issued validates exactly when it should.
    async fn audit(&self, m: &Arc<Mon>) -> bool {
        for (a, t) in &self.toks {
            let age = AHEAD.load(Ordering::SeqCst) - t.at;
            // right at its end the second may turn
            if (age - t.life).abs() < 60 { continue; }
            let want = t.alive && age < t.life;
            let got = self.p.validate_token(a).await;
            m.count("validations", 1);
            let ok = match &got {
                Ok(i) => want && i.token == *a && i.client_id == t.client && i.user_id == t.user && i.scopes == t.scopes && i.token_type == TokenType::Bearer,
                Err(_) => !want,
            };
            if !m.check(ok, "validation", || format!("{got:?}, want alive {want} {t:?}; {:?}", self.did)) { return false; }
            // a refresh token, or anything else, is not an access token
            if let Some(x) = &t.refresh { if !m.check(self.p.validate_token(x).await.is_err(), "validation", || "a refresh token validates as an access token".into()) { return false; } }
        }
        true
    }
}

async fn history(m: &Arc<Mon>, r: &mut Rng) {
    AHEAD.store(0, Ordering::SeqCst);
    let mut w = World { p: Arc::new(InMemoryOAuthProvider::new("https://issuer")), clients: BTreeMap::new(), codes: BTreeMap::new(), toks: BTreeMap::new(), did: vec![] };
    for _ in 0..r.range(2, 40) {
        match r.below(14) {
            0 | 1 => {
                let c = client(r);
                let got = w.p.register_client(c.clone()).await;
                let Ok(g) = got else { m.fail("registration", format!("{got:?}")); return };
                w.did.push(format!("register {}", g.client_id));
                let ok = if c.client_id.is_empty() { !g.client_id.is_empty() && !w.clients.contains_key(&g.client_id) } else { g.client_id == c.client_id };
                let ok = ok && g.client_secret.is_some() && (c.client_secret.is_none() || c.client_secret == g.client_secret) && g.redirect_uris == c.redirect_uris && g.scopes == c.scopes;
                m.check(ok, "registration", || format!("{c:?} became {g:?}"));
                w.clients.insert(g.client_id.clone(), g);
            },
            2 => {
                // whether an authorization request is acceptable
                let known: Vec<String> = w.clients.keys().cloned().collect();
                let id = if known.is_empty() || r.chance(1, 6) { "nobody".to_string() } else { r.pick(&known).clone() };
                let q = AuthorizationRequest { response_type: if r.chance(4, 5) { ResponseType::Code } else { ResponseType::Token }, client_id: id.clone(), redirect_uri: { let u = format!("https://app/{}", r.below(3)); if r.chance(1, 6) { near(r, &u) } else { u } }, scope: (0..if r.chance(1, 8) { r.range(3, 9) } else { r.below(3) }).map(|_| *r.pick(&["read", "write", "admin"])).collect::<Vec<_>>().join(*r.pick(&[" ", "  "])), state: None, code_challenge: None, code_challenge_method: None };
                let supported = w.p.metadata().await.unwrap().scopes_supported;
                let want = w.clients.get(&id).is_some_and(|c| c.redirect_uris.contains(&q.redirect_uri) && c.response_types.contains(&q.response_type) && q.scope.split_whitespace().all(|s| supported.iter().any(|x| x == s) && (c.scopes.is_empty() || c.scopes.iter().any(|x| x == s))));
                let got = w.p.validate_authorization(&q).await;
                m.count("authorization requests", 1);
                m.check(got.is_ok() == want, "authorization", || format!("{got:?}, want {want}: {q:?} by {:?}", w.clients.get(&id)));
                let g = w.p.get_client(&id).await;
                m.check(matches!((&g, w.clients.get(&id)), (Ok(None), None)) || matches!((&g, w.clients.get(&id)), (Ok(Some(a)), Some(b)) if format!("{a:?}") == format!("{b:?}")), "registration", || format!("{g:?}"));
            },
            3 | 4 => {
                let known: Vec<String> = w.clients.keys().cloned().collect();
                let id = if known.is_empty() || r.chance(1, 4) { format!("x{}", r.below(2)) } else { r.pick(&known).clone() };
                let v = if r.bool() { Some(r.ident(20)) } else { None };
                let (ch, me) = match (&v, r.below(4)) { (None, _) => (None, None), (Some(v), 0) => (Some(v.clone()), None), (Some(v), 1) => (Some(v.clone()), Some("plain".to_string())), (Some(v), 2) => (Some(s256(v)), Some("S256".into())), (Some(v), _) => (Some(s256(v)), Some("S512".into())) };
                let c = Code { client: id, user: format!("u{}", r.below(3)), redirect: format!("https://app/{}", r.below(3)), scopes: scopes(r), verifier: v, bad_method: me.as_deref() == Some("S512"), used: false, doubtful: false, at: AHEAD.load(Ordering::SeqCst) };
                let code = w.p.create_authorization_code(&c.client, &c.user, &c.redirect, c.scopes.clone(), ch, me).await.unwrap();
                w.did.push(format!("code for {}", c.client));
                m.check(!w.codes.contains_key(&code), "code-reused", || code.clone());
                w.codes.insert(code, c);
            },
            5..=8 if !w.codes.is_empty() => {
                let all: Vec<String> = w.codes.keys().cloned().collect();
                let live: Vec<String> = all.iter().filter(|c| !w.codes[*c].used).cloned().collect();
                let code = if live.is_empty() || r.chance(1, 4) { r.pick(&all).clone() } else { r.pick(&live).clone() };
                let c = w.codes[&code].clone();
                let mut q = token_request(Some(code.clone()));
                q.client_id = Some(c.client.clone());
                q.redirect_uri = Some(c.redirect.clone());
                q.code_verifier = c.verifier.clone();
                let secret = w.clients.get(&c.client).and_then(|k| k.client_secret.clone());
                if r.bool() { q.client_secret = secret.clone(); }
                let mut wrong = vec![];
                if r.chance(1, 2) {
                    for k in 0..9 {
                        if !r.chance(1, 6) { continue; }
                        match k {
                            0 => { q.client_id = Some(near(r, &c.client)); wrong.push("client") },
                            1 => { q.client_id = None; wrong.push("no client") },
                            2 => { q.redirect_uri = Some(near(r, &c.redirect)); wrong.push("redirect") },
                            3 => { q.redirect_uri = None; wrong.push("no redirect") },
                            4 if c.verifier.is_some() => { q.code_verifier = Some(match r.below(3) { 0 => String::new(), 1 => s256(c.verifier.as_ref().unwrap()), _ => near(r, c.verifier.as_ref().unwrap()) }); wrong.push("verifier") },
                            5 if c.verifier.is_some() => { q.code_verifier = None; wrong.push("no verifier") },
                            8 => { q.code = if r.bool() { None } else { Some(near(r, &code)) }; wrong.push("code") },
                            6 => { q.grant_type = r.pick(&[GrantType::RefreshToken, GrantType::ClientCredentials, GrantType::Password]).clone(); wrong.push("grant") },
                            7 if secret.is_some() && q.client_id.as_ref() == Some(&c.client) => { q.client_secret = Some(near(r, secret.as_ref().unwrap())); wrong.push("secret") },
                            _ => {},
                        }
                    }
                }
                let age = AHEAD.load(Ordering::SeqCst) - c.at;
                let old = age > 900;
                let got = w.p.exchange_code(&q).await;
                w.did.push(format!("exchange wrong {wrong:?} used {} old {old} -> {}", c.used, got.is_ok()));
                m.count("exchanges", 1);
                let may = !c.used && !old && !c.bad_method && wrong.is_empty();
                let must = may && !c.doubtful && age < 60;
                let ok = m.check(if got.is_ok() { may } else { !must }, "exchange", || format!("{:?}, want may {may} must {must}; {c:?} {q:?}; {:?}", got.as_ref().map(|_| ()).map_err(|e| e.to_string()), w.did));
                if !ok { return; }
                let e = w.codes.get_mut(&code).unwrap();
                match got { Ok(t) => { e.used = true; w.issued(m, &t, &c.client, &c.user, &c.scopes); }, Err(_) => { e.doubtful = true; } }
            },
            9 => {
                let (c, u, s) = (format!("c{}", r.below(3)), format!("u{}", r.below(3)), scopes(r));
                let t = w.p.create_access_token(&c, &u, s.clone()).await.unwrap();
                w.did.push("token".into());
                w.issued(m, &t, &c, &u, &s);
            },
            10 | 11 => {
                let rs: Vec<(String, String)> = w.toks.iter().filter_map(|(a, t)| t.refresh.clone().map(|x| (a.clone(), x))).collect();
                if rs.is_empty() || r.chance(1, 10) {
                    let g = w.p.refresh_token(&r.ident(10)).await;
                    m.check(g.is_err(), "refresh", || format!("{g:?} for nonsense"));
                    if let Some(a) = w.toks.keys().next() { let g = w.p.refresh_token(a).await; m.check(g.is_err(), "refresh", || "an access token refreshes".into()); }
                    continue;
                }
                let (a, x) = r.pick(&rs).clone();
                let t = w.toks[&a].clone();
                let got = w.p.refresh_token(&x).await;
                w.did.push(format!("refresh {} -> {}", t.refreshable, got.is_ok()));
                m.count("refreshes", 1);
                if !m.check(got.is_ok() == t.refreshable, "refresh", || format!("{:?}, want {}; {t:?}; {:?}", got.as_ref().map(|_| ()).map_err(|e| e.to_string()), t.refreshable, w.did)) { return; }
                if let Ok(n) = got {
                    let e = w.toks.get_mut(&a).unwrap();
                    e.alive = false;
                    e.refreshable = false;
                    w.issued(m, &n, &t.client, &t.user, &t.scopes);
                }
            },
            12 => {
                let all: Vec<String> = w.toks.keys().cloned().collect();
                if all.is_empty() { continue; }
                let a = r.pick(&all).clone();
                let t = w.toks[&a].clone();
                let by_refresh = t.refresh.is_some() && r.bool();
                let g = match r.below(8) { 0 => w.p.revoke_token(&r.ident(6)).await, _ => {
                    // what has been refreshed away is nobody's any more
                    let g = w.p.revoke_token(if by_refresh { t.refresh.as_ref().unwrap() } else { &a }).await;
                    w.did.push(format!("revoke by refresh {by_refresh}"));
                    let e = w.toks.get_mut(&a).unwrap();
                    e.alive = false;
                    e.refreshable = false;
                    g
                } };
                m.count("revocations", 1);
                m.check(g.is_ok(), "revocation", || format!("{g:?}"));
            },
            _ => {
                let d = *r.pick(&[30, 1000, 7200, 90_000]);
                AHEAD.fetch_add(d, Ordering::SeqCst);
                m.count("clock jumps", 1);
                w.did.push(format!("+{d}s"));
            },
        }
        if !w.audit(m).await { return; }
    }
    m.case(w.did.join(","), !w.toks.is_empty());
    m.sample("history", || w.did.join(", "));
    m.check(w.p.validate_token("no-such").await.is_err(), "validation", || "nonsense validates".into());
}

/// One code or refresh token, many at once.
async fn race(m: Arc<Mon>, mut r: Rng) {
    let p = Arc::new(InMemoryOAuthProvider::new("x"));
    let n = r.range(2, 8);
    let of_code = r.bool();
    let start = Arc::new(tokio::sync::Barrier::new(n));
    let (code, tok) = if of_code {
        (Some(p.create_authorization_code("c", "u", "https://a", vec!["read".into()], None, None).await.unwrap()), None)
    } else {
        (None, Some(p.create_access_token("c", "u", vec!["read".into()]).await.unwrap()))
    };
    let mut set = tokio::task::JoinSet::new();
    for _ in 0..n {
        let (p, s, code, tok) = (p.clone(), start.clone(), code.clone(), tok.clone());
        set.spawn(async move {
            s.wait().await;
            match (code, tok) {
                (Some(c), _) => { let mut q = token_request(Some(c)); q.client_id = Some("c".into()); q.redirect_uri = Some("https://a".into()); p.exchange_code(&q).await },
                (_, Some(t)) => p.refresh_token(t.refresh_token.as_ref().unwrap()).await,
                _ => unreachable!(),
            }
        });
    }
    let mut won = vec![];
    let all = tokio::time::timeout(Duration::from_secs(30), async { while let Some(x) = set.join_next().await { if let Ok(Ok(t)) = x { won.push(t) } } }).await;
    m.case(("race", of_code, n), true);
    m.count("racing redemptions", n as u64);
    if !m.check(all.is_ok(), "deadlock", || format!("{n} concurrent redemptions of one {}", if of_code { "code" } else { "refresh token" })) { return; }
    m.check(won.len() == 1, if of_code { "code-used-twice" } else { "refresh-used-twice" }, || format!("{} of {n} concurrent redemptions succeeded", won.len()));
    for t in &won { m.check(p.validate_token(&t.access_token).await.is_ok(), "validation", || "the new token".into()); }
    if let Some(t) = tok { m.check(p.validate_token(&t.access_token).await.is_err(), "validation", || "the old token is still valid".into()); }
}

/// Every operation at once on the same few tokens; afterwards what was redeemed or revoked is gone and nothing else.
async fn many(m: &Arc<Mon>, r: &mut Rng) {
    let p = InMemoryOAuthProvider::new("x");
    let mut clients = vec![];
    for k in 0..300 { let mut c = client(r); c.client_id = format!("k{k}"); clients.push(p.register_client(c).await.unwrap()); }
    let mut codes = vec![];
    for k in 0..1100 { codes.push(p.create_authorization_code(&format!("k{}", k % 300), &format!("u{k}"), "https://a", vec![format!("s{k}")], None, None).await.unwrap()); }
    let mut toks = vec![];
    for (k, c) in codes.iter().enumerate() {
        let mut q = token_request(Some(c.clone()));
        q.client_id = Some(format!("k{}", k % 300));
        q.redirect_uri = Some("https://a".into());
        match p.exchange_code(&q).await { Ok(t) => toks.push(t), Err(e) => { m.fail("exchange-refused", format!("code {k} of {}: {e}", codes.len())); return } }
        if k % 7 == 0 { m.check(p.exchange_code(&q).await.is_err(), "code-used-twice", || format!("code {k}")); }
    }
    let mut dead = std::collections::HashSet::new();
    for k in 0..toks.len() { match r.below(5) {
        0 => { p.revoke_token(&toks[k].access_token).await.unwrap(); dead.insert(k); },
        1 => { let n = p.refresh_token(toks[k].refresh_token.as_deref().unwrap()).await; let Ok(n) = n else { m.fail("refresh-refused", format!("{k}: {n:?}")); return }; m.check(p.validate_token(&toks[k].access_token).await.is_err(), "validation", || format!("token {k} was refreshed away")); toks[k] = n; },
        _ => {},
    } }
    for (k, t) in toks.iter().enumerate() {
        let got = p.validate_token(&t.access_token).await;
        let ok = match &got { Ok(i) => !dead.contains(&k) && i.user_id == format!("u{k}") && i.client_id == format!("k{}", k % 300) && i.scopes == [format!("s{k}")], Err(_) => dead.contains(&k) };
        if !m.check(ok, "validation", || format!("token {k} of {}, revoked {}: {got:?}", toks.len(), dead.contains(&k))) { return; }
    }
    for c in &clients { m.check(p.get_client(&c.client_id).await.unwrap().is_some(), "registration", || c.client_id.clone()); }
    m.max("tokens at once", toks.len() as u64);
    m.count("tokens issued", toks.len() as u64);
    m.case(("many", toks.len(), dead.len()), true);
}

async fn storm(m: Arc<Mon>, mut r: Rng) {
    let p: Arc<dyn OAuthProvider> = Arc::new(InMemoryOAuthProvider::new("x"));
    let mut first = vec![];
    for k in 0..r.range(1, 4) { first.push(p.create_access_token("c", &format!("u{k}"), vec![]).await.unwrap()); }
    let n = r.range(3, 8);
    let ops = r.range(10, 60);
    // (token, how often its refresh token yielded another, whether something revoked it)
    type Ledger = HashMap<String, (AccessToken, usize, bool)>;
    let ledger: Arc<Mutex<Ledger>> = Arc::new(Mutex::new(first.iter().map(|t| (t.access_token.clone(), (t.clone(), 0, false))).collect()));
    let mut set = tokio::task::JoinSet::new();
    for _ in 0..n {
        let (p, l, mut r) = (p.clone(), ledger.clone(), r.fork());
        set.spawn(async move {
            for _ in 0..ops {
                let pick = { let g = l.lock().unwrap(); let mut k: Vec<&String> = g.keys().collect(); k.sort(); g[k[r.below(k.len())]].0.clone() };
                let (a, x) = (pick.access_token.clone(), pick.refresh_token.clone().unwrap());
                match r.below(7) {
                    0 => { let t = p.create_access_token("c", "n", vec![]).await.unwrap(); l.lock().unwrap().insert(t.access_token.clone(), (t, 0, false)); },
                    1 | 2 => if let Ok(t) = p.refresh_token(&x).await { let mut g = l.lock().unwrap(); g.get_mut(&a).unwrap().1 += 1; g.insert(t.access_token.clone(), (t, 0, false)); },
                    3 => { l.lock().unwrap().get_mut(&a).unwrap().2 = true; let _ = p.revoke_token(&a).await; },
                    4 => { l.lock().unwrap().get_mut(&a).unwrap().2 = true; let _ = p.revoke_token(&x).await; },
                    5 => { let c = p.create_authorization_code("c", "k", "https://a", vec![], None, None).await.unwrap(); let mut q = token_request(Some(c)); q.client_id = Some("c".into()); q.redirect_uri = Some("https://a".into()); if let Ok(t) = p.exchange_code(&q).await { l.lock().unwrap().insert(t.access_token.clone(), (t, 0, false)); } },
                    _ => { let _ = p.validate_token(&a).await; },
                }
                if r.chance(1, 4) { tokio::task::yield_now().await; }
            }
        });
    }
    let done = tokio::time::timeout(Duration::from_secs(30), async { while set.join_next().await.is_some() {} }).await;
    m.case(("storm", n, ops, first.len()), true);
    m.count("concurrent operations", (n * ops) as u64);
    if !m.check(done.is_ok(), "deadlock", || format!("{n} tasks of {ops} operations never finished")) { return; }
    let l = ledger.lock().unwrap().clone();
    for (a, (_, used, revoked)) in l.iter() {
        m.check(*used <= 1, "refresh-used-twice", || format!("{used} times"));
        let ok = p.validate_token(a).await.is_ok();
        m.check(ok == (*used == 0 && !revoked), "validation", || format!("after the storm a token refreshed {used} times, revoked {revoked}, validates {ok}"));
    }
}

/// The forms in which clients send requests and get tokens, errors and metadata: RFC 6749 and 8414.
fn oauth_forms(m: &Arc<Mon>, r: &mut Rng) {
    m.stage("wire forms");
    fn both<T: serde::Serialize + serde::de::DeserializeOwned>(m: &Arc<Mon>, what: &str, t: &T, want: &Value) {
        m.case((what, want.to_string()), true);
        m.count("wire forms", 1);
        let got = serde_json::to_value(t).unwrap_or_default();
        m.check(got == *want, &format!("form-{what}"), || format!("{got}, expected {want}"));
        let back = serde_json::from_value::<T>(want.clone()).and_then(|t| serde_json::to_value(t));
        m.check(back.as_ref().ok() == Some(want), &format!("form-back-{what}"), || format!("{want} became {back:?}"));
    }
    fn opt(r: &mut Rng, o: &mut serde_json::Map<String, Value>, k: &str) -> Option<String> { let s = r.bool().then(|| r.string(8)); if let Some(s) = &s { o.insert(k.into(), json!(s)); } s }
    fn extra(r: &mut Rng, o: &mut serde_json::Map<String, Value>) -> HashMap<String, Value> { (0..r.below(3)).map(|i| { let v = r.json(2); o.insert(format!("x_{i}"), v.clone()); (format!("x_{i}"), v) }).collect() }
    fn names(r: &mut Rng) -> Vec<String> { (0..r.below(4)).map(|_| r.ident(5)).collect() }
    let grants = [(GrantType::AuthorizationCode, "authorization_code"), (GrantType::RefreshToken, "refresh_token"), (GrantType::ClientCredentials, "client_credentials"), (GrantType::Password, "password")];
    let responses = [(ResponseType::Code, "code"), (ResponseType::Token, "token")];
    for _ in 0..m.n(800, 20_000) {
        if m.stopped() { return; }
        let gs: Vec<_> = (0..r.below(4)).map(|_| r.pick(&grants).clone()).collect();
        let rs: Vec<_> = (0..r.below(3)).map(|_| r.pick(&responses).clone()).collect();
        let (gv, rv) = (gs.iter().map(|g| g.1).collect::<Vec<_>>(), rs.iter().map(|g| g.1).collect::<Vec<_>>());
        let (gs, rs): (Vec<_>, Vec<_>) = (gs.into_iter().map(|g| g.0).collect(), rs.into_iter().map(|g| g.0).collect());
        {
            let mut o = serde_json::Map::new();
            let access_token = r.string(8);
            o.insert("access_token".into(), json!(access_token)); o.insert("token_type".into(), json!("bearer"));
            let expires_in = r.bool().then(|| r.below(100_000) as u64);
            if let Some(e) = expires_in { o.insert("expires_in".into(), json!(e)); }
            let (refresh_token, scope) = (opt(r, &mut o, "refresh_token"), opt(r, &mut o, "scope"));
            let extra = extra(r, &mut o);
            both(m, "token", &AccessToken { access_token, token_type: TokenType::Bearer, expires_in, refresh_token, scope, extra }, &Value::Object(o));
        }
        {
            let mut o = serde_json::Map::new();
            let error = r.string(6);
            o.insert("error".into(), json!(error));
            let (error_description, error_uri) = (opt(r, &mut o, "error_description"), opt(r, &mut o, "error_uri"));
            both(m, "error", &OAuthError { error, error_description, error_uri }, &Value::Object(o));
        }
        {
            let mut o = serde_json::Map::new();
            let (client_id, client_name, redirect_uris, scopes) = (r.string(6), r.string(6), names(r), names(r));
            o.insert("client_id".into(), json!(client_id)); o.insert("client_name".into(), json!(client_name)); o.insert("redirect_uris".into(), json!(redirect_uris)); o.insert("scopes".into(), json!(scopes));
            o.insert("grant_types".into(), json!(gv)); o.insert("response_types".into(), json!(rv));
            let client_secret = opt(r, &mut o, "client_secret");
            let metadata = extra(r, &mut o);
            both(m, "client", &OAuthClient { client_id, client_secret, client_name, redirect_uris, grant_types: gs.clone(), response_types: rs.clone(), scopes, metadata }, &Value::Object(o));
        }
        {
            let mut o = serde_json::Map::new();
            let (issuer, authorization_endpoint, token_endpoint) = (r.string(6), r.string(6), r.string(6));
            o.insert("issuer".into(), json!(issuer)); o.insert("authorization_endpoint".into(), json!(authorization_endpoint)); o.insert("token_endpoint".into(), json!(token_endpoint));
            let (jwks_uri, userinfo_endpoint, registration_endpoint) = (opt(r, &mut o, "jwks_uri"), opt(r, &mut o, "userinfo_endpoint"), opt(r, &mut o, "registration_endpoint"));
            let (revocation_endpoint, introspection_endpoint) = (opt(r, &mut o, "revocation_endpoint"), opt(r, &mut o, "introspection_endpoint"));
            let (scopes_supported, tm, cm) = (names(r), names(r), names(r));
            o.insert("response_types_supported".into(), json!(rv)); o.insert("grant_types_supported".into(), json!(gv)); o.insert("scopes_supported".into(), json!(scopes_supported));
            o.insert("token_endpoint_auth_methods_supported".into(), json!(tm)); o.insert("code_challenge_methods_supported".into(), json!(cm));
            both(m, "metadata", &OAuthMetadata { issuer, authorization_endpoint, token_endpoint, jwks_uri, userinfo_endpoint, registration_endpoint, revocation_endpoint, introspection_endpoint,
                response_types_supported: rs, grant_types_supported: gs, scopes_supported, token_endpoint_auth_methods_supported: tm, code_challenge_methods_supported: cm }, &Value::Object(o));
        }
        let mut o = serde_json::Map::new();
        let (g, gname) = r.pick(&grants).clone();
        o.insert("grant_type".into(), json!(gname));
        let ks = ["code", "redirect_uri", "client_id", "client_secret", "refresh_token", "username", "password", "scope", "code_verifier"];
        let want: Vec<Option<String>> = ks.iter().map(|k| opt(r, &mut o, k)).collect();
        let v = Value::Object(o);
        match serde_json::from_value::<TokenRequest>(v.clone()) {
            Ok(t) => { let got = vec![t.code, t.redirect_uri, t.client_id, t.client_secret, t.refresh_token, t.username, t.password, t.scope, t.code_verifier]; m.check(t.grant_type == g && got == want, "form-token-request", || format!("{v} became {:?} {got:?}", t.grant_type)); },
            Err(e) => m.fail("form-token-request", format!("{e}: {v}")),
        }
        let mut o = serde_json::Map::new();
        let (rt, rname) = r.pick(&responses).clone();
        o.insert("response_type".into(), json!(rname)); o.insert("client_id".into(), json!("c")); o.insert("redirect_uri".into(), json!("u"));
        let ks = ["scope", "state", "code_challenge", "code_challenge_method"];
        let mut want: Vec<Option<String>> = ks.iter().map(|k| opt(r, &mut o, k)).collect();
        want[0].get_or_insert_default();
        let v = Value::Object(o);
        match serde_json::from_value::<AuthorizationRequest>(v.clone()) {
            Ok(t) => { let got = vec![Some(t.scope), t.state, t.code_challenge, t.code_challenge_method]; m.check(t.response_type == rt && t.client_id == "c" && t.redirect_uri == "u" && got == want, "form-authorization-request", || format!("{v} became {:?} {got:?}", t.response_type)); },
            Err(e) => m.fail("form-authorization-request", format!("{e}: {v}")),
        }
    }
}

fn c33(m: &Arc<Mon>) {
    let mut r = m.rng("c33");
    oauth_forms(m, &mut r.fork());
    m.stage("histories");
    let rt = mon::crt();
    let t0 = std::time::SystemTime::now();
    AHEAD.store(1_000_000, Ordering::SeqCst);
    if std::time::SystemTime::now().duration_since(t0).map_or(0, |d| d.as_secs()) < 900_000 { m.inconclusive("the wall clock of the process cannot be moved"); return; }
    for _ in 0..m.n(2500, 50_000) {
        if m.stopped() { return; }
        if rt.block_on(mon::within(history(m, &mut r))).is_none() { m.fail("deadlock", "a single caller waits forever"); }
    }
    AHEAD.store(0, Ordering::SeqCst);
    m.stage("many at once");
    for _ in 0..m.n(3, 40) {
        if m.stopped() { return; }
        rt.block_on(many(m, &mut r));
    }
    m.stage("races");
    let rt = mon::mrt(6);
    for k in 0..m.n(2500, 40_000) {
        if m.stopped() { return; }
        let f = r.fork();
        rt.block_on(async { if k % 3 > 0 { tokio::spawn(race(m.clone(), f)).await.unwrap() } else { tokio::spawn(storm(m.clone(), f)).await.unwrap() } });
    }
    rt.shutdown_background();
}

// ---------------------------------------------------------------- C34

/// A provider whose answers are scripted, for what the bundled one never answers.
struct Script { tokens: BTreeMap<String, TokenInfo>, clients: BTreeMap<String, OAuthClient>, broken: bool, asked: Arc<AtomicUsize> }
fn nope<T>() -> pmcp::Result<T> { Err(Error::internal("provider out of order")) }
#[async_trait::async_trait]
impl OAuthProvider for Script {
    async fn register_client(&self, c: OAuthClient) -> pmcp::Result<OAuthClient> { Ok(c) }
    async fn get_client(&self, id: &str) -> pmcp::Result<Option<OAuthClient>> { self.asked.fetch_add(1, Ordering::SeqCst); if self.broken { return nope(); } Ok(self.clients.get(id).cloned()) }
    async fn validate_authorization(&self, _: &AuthorizationRequest) -> pmcp::Result<()> { Ok(()) }
    async fn create_authorization_code(&self, _: &str, _: &str, _: &str, _: Vec<String>, _: Option<String>, _: Option<String>) -> pmcp::Result<String> { nope() }
    async fn exchange_code(&self, _: &TokenRequest) -> pmcp::Result<AccessToken> { nope() }
    async fn create_access_token(&self, _: &str, _: &str, _: Vec<String>) -> pmcp::Result<AccessToken> { nope() }
    async fn refresh_token(&self, _: &str) -> pmcp::Result<AccessToken> { nope() }
    async fn revoke_token(&self, _: &str) -> pmcp::Result<()> { nope() }
    async fn validate_token(&self, t: &str) -> pmcp::Result<TokenInfo> { self.asked.fetch_add(1, Ordering::SeqCst); if self.broken { return nope(); } self.tokens.get(t).cloned().ok_or_else(|| Error::internal("unknown")) }
    async fn metadata(&self) -> pmcp::Result<OAuthMetadata> { nope() }
}
struct Spy { inner: Box<dyn AuthMiddleware>, id: usize, log: Arc<Mutex<Vec<usize>>> }
#[async_trait::async_trait]
impl AuthMiddleware for Spy {
    async fn authenticate(&self, a: Option<&AuthInfo>) -> pmcp::Result<AuthContext> { self.log.lock().unwrap().push(self.id); self.inner.authenticate(a).await }
    fn is_required(&self) -> bool { self.inner.is_required() }
}
struct Always(AuthContext);
#[async_trait::async_trait]
impl AuthMiddleware for Always { async fn authenticate(&self, _: Option<&AuthInfo>) -> pmcp::Result<AuthContext> { Ok(self.0.clone()) } }

/// What a middleware is made of, and what it must answer.
#[derive(Clone, Debug)]
enum Kind { Bearer { required: bool }, Client, Always(Vec<String>), Scope { all: bool, scopes: Vec<String>, inner: Box<Kind> }, Any { members: Vec<Kind>, required: bool } }
fn kind(r: &mut Rng, depth: usize) -> Kind {
    match r.below(if depth == 0 { 4 } else { 8 }) {
        0 | 1 => Kind::Bearer { required: r.chance(2, 3) },
        2 => Kind::Client,
        3 => if r.chance(1, 3) { Kind::Always(odd_scopes(r)) } else { Kind::Bearer { required: true } },
        4 | 5 => Kind::Scope { all: r.bool(), scopes: odd_scopes(r), inner: Box::new(kind(r, depth - 1)) },
        _ => Kind::Any { members: (0..r.below(4)).map(|_| kind(r, depth - 1)).collect(), required: r.chance(3, 4) },
    }
}
type Id = (String, String, Vec<String>);
impl Kind {
    fn build(&self, p: &Arc<dyn OAuthProvider>, log: &Arc<Mutex<Vec<usize>>>, next: &mut usize) -> Box<dyn AuthMiddleware> {
        let id = *next;
        *next += 1;
        let inner: Box<dyn AuthMiddleware> = match self {
            Kind::Bearer { required } => if *required { Box::new(BearerTokenMiddleware::new(p.clone())) } else { Box::new(BearerTokenMiddleware::new(p.clone()).with_required(false)) },
            Kind::Client => Box::new(ClientCredentialsMiddleware::new(p.clone())),
            Kind::Always(s) => Box::new(Always(AuthContext { client_id: "always".into(), user_id: "always".into(), scopes: s.clone(), metadata: Default::default() })),
            Kind::Scope { all, scopes, inner } => { let i = inner.build(p, log, next); if *all { Box::new(ScopeMiddleware::all(i, scopes.clone())) } else { Box::new(ScopeMiddleware::any(i, scopes.clone())) } },
            Kind::Any { members, required } => { let v = members.iter().map(|k| k.build(p, log, next)).collect(); let c = CompositeMiddleware::new(v); Box::new(if *required { c } else { c.with_require_any(false) }) },
        };
        Box::new(Spy { inner, id, log: log.clone() })
    }
    /// Who is admitted (None: nobody), and which members are asked, in order.
    fn judge(&self, s: &Script, a: Option<&AuthInfo>, next: &mut usize, asked: &mut Vec<usize>, on: bool) -> Option<Id> {
        let id = *next;
        *next += 1;
        if on { asked.push(id); }
        match self {
            Kind::Bearer { required } => match a {
                None => if *required { None } else { Some(("anonymous".into(), "anonymous".into(), vec![])) },
                Some(a) => { if a.scheme != AuthScheme::Bearer || s.broken { return None; } let t = s.tokens.get(a.token.as_ref()?)?; Some((t.client_id.clone(), t.user_id.clone(), t.scopes.clone())) },
            },
            Kind::Client => {
                let a = a?;
                if s.broken { return None; }
                let (Value::String(i), Value::String(x)) = (a.params.get("client_id")?, a.params.get("client_secret")?) else { return None };
                let c = s.clients.get(i)?;
                if c.client_secret.as_ref() != Some(x) { return None; }
                Some((c.client_id.clone(), c.client_id.clone(), c.scopes.clone()))
            },
            Kind::Always(x) => Some(("always".into(), "always".into(), x.clone())),
            Kind::Scope { all, scopes, inner } => {
                let i = inner.judge(s, a, next, asked, on)?;
                let ok = if *all { scopes.iter().all(|x| i.2.contains(x)) } else { scopes.iter().any(|x| i.2.contains(x)) };
                ok.then_some(i)
            },
            Kind::Any { members, required } => {
                let mut got = None;
                for k in members {
                    let still = on && got.is_none();
                    let g = k.judge(s, a, next, asked, still);
                    if got.is_none() { got = g; }
                }
                if got.is_none() && !required { return Some(("anonymous".into(), "anonymous".into(), vec![])); }
                got
            },
        }
    }
    fn required(&self) -> bool {
        match self { Kind::Bearer { required } => *required, Kind::Client | Kind::Always(_) => true, Kind::Scope { inner, .. } => inner.required(), Kind::Any { members, required } => *required && members.iter().any(Kind::required) }
    }
}
/// Members of a nested composite are numbered as built, so the unasked ones need numbers too.
fn credentials(r: &mut Rng, s: &Script) -> Option<AuthInfo> {
    if r.chance(1, 6) { return None; }
    let scheme = match r.below(8) { 0 => AuthScheme::None, 1 => AuthScheme::OAuth2, 2 => AuthScheme::Custom((*r.pick(&["Bearer", "bearer", "x"])).to_string()), _ => AuthScheme::Bearer };
    let toks: Vec<&String> = s.tokens.keys().collect();
    let token = match r.below(7) { 0 => None, 1 => Some(r.string(8)), 2 => Some(match r.below(5) { 0 => format!("{} ", r.pick(&toks)), 1 => format!("Bearer {}", r.pick(&toks)), 2 => format!(" {}", r.pick(&toks)), 3 => format!("{},x", r.pick(&toks)), _ => { let t = r.pick(&toks); t[..t.len() - 1].to_string() } }), 3 => Some(r.pick(&toks).to_uppercase()), _ => Some(r.pick(&toks).to_string()) };
    let mut params = HashMap::new();
    let ids: Vec<&String> = s.clients.keys().collect();
    let id = r.pick(&ids).to_string();
    if r.chance(4, 5) { params.insert("client_id".to_string(), match r.below(8) { 0 => json!(7), 1 => json!("nobody"), 2 => Value::Null, _ => json!(id) }); }
    if r.chance(4, 5) {
        let secret = s.clients[&id].client_secret.clone();
        params.insert("client_secret".to_string(), match r.below(12) { 8 => json!(format!("{} ", secret.unwrap_or_default())), 9 => json!(format!(" {}", secret.unwrap_or_default())), 10 => json!(secret.unwrap_or_default().to_uppercase()), 11 => json!(secret.map(|s| s.chars().skip(1).collect::<String>())), 0 => json!([secret]), 1 => json!(""), 2 => Value::Null, 3 => json!(format!("{}x", secret.unwrap_or_default())), 4 => json!(s.clients[*r.pick(&ids)].client_secret), _ => json!(secret) });
    }
    // nothing but the token itself counts as the token
    if r.chance(1, 4) { for k in ["token", "access_token", "authorization", "user_id", "scope"] { if r.bool() { params.insert(k.to_string(), json!(r.pick(&toks))); } } }
    // a secret offered as a token is not a secret
    let token = if !params.contains_key("client_secret") && r.chance(1, 2) { s.clients[&id].client_secret.clone() } else { token };
    Some(AuthInfo { scheme, token, oauth: None, params })
}

async fn decide(m: &Arc<Mon>, r: &mut Rng) {
    let asked = Arc::new(AtomicUsize::new(0));
    let mut s = Script { tokens: BTreeMap::new(), clients: BTreeMap::new(), broken: r.chance(1, 12), asked: asked.clone() };
    for k in 0..r.range(1, 4) { let t = format!("tok{}{k}", r.ident(4)); s.tokens.insert(t.clone(), TokenInfo { token: t, client_id: format!("c{k}"), user_id: if r.chance(1, 6) { String::new() } else { format!("u{k}") }, scopes: odd_scopes(r), expires_at: u64::MAX, token_type: TokenType::Bearer }); }
    for k in 0..r.range(1, 3) { let mut c = client(r); c.client_id = format!("k{k}"); if r.chance(1, 5) { c.client_secret = None } else { c.client_secret = Some(if r.chance(1, 8) { String::new() } else { r.ident(6) }) } s.clients.insert(c.client_id.clone(), c); }
    let k = kind(r, 3);
    let log: Arc<Mutex<Vec<usize>>> = Default::default();
    let creds: Vec<Option<AuthInfo>> = (0..5).map(|_| credentials(r, &s)).collect();
    let verdicts: Vec<(Option<Id>, Vec<usize>)> = creds.iter().map(|a| { let mut v = vec![]; let g = k.judge(&s, a.as_ref(), &mut 0, &mut v, true); (g, v) }).collect();
    let p: Arc<dyn OAuthProvider> = Arc::new(s);
    let mw = k.build(&p, &log, &mut 0);
    m.check(mw.is_required() == k.required(), "required", || format!("{} for {k:?}", mw.is_required()));
    for (a, (want, order)) in creds.iter().zip(&verdicts) {
        log.lock().unwrap().clear();
        let got = mw.authenticate(a.as_ref()).await;
        let asked = log.lock().unwrap().clone();
        let what = || format!("{k:?}; credentials {a:?}");
        if let Some(a) = a {
            m.check(a.is_required() == (a.scheme != AuthScheme::None), "credentials-required", || format!("{a:?}: {}", a.is_required()));
            let h = if a.scheme == AuthScheme::Bearer { a.token.as_ref().map(|t| format!("Bearer {t}")) } else { None };
            m.check(a.authorization_header() == h, "authorization-header", || format!("{a:?}: {:?}", a.authorization_header()));
        }
        m.case(format!("{k:?}{a:?}"), a.is_some());
        m.count(if want.is_some() { "admitted" } else { "refused" }, 1);
        let id = got.as_ref().ok().map(|c| (c.client_id.clone(), c.user_id.clone(), c.scopes.clone()));
        m.check(id == *want, "decision", || format!("{:?}, want {want:?}; {}", got.as_ref().map_err(|e| e.to_string()), what()));
        m.check(asked == *order, "order", || format!("asked {asked:?}, want {order:?}; {}", what()));
        if let Err(e) = &got {
            let c = e.error_code();
            m.check(matches!(c, Some(c) if c == ErrorCode::AUTHENTICATION_REQUIRED || c == ErrorCode::PERMISSION_DENIED) || matches!(e, Error::Internal(_)), "refusal", || format!("{e:?}; {}", what()));
        }
        if let Ok(c) = &got {
            for t in ["read", "write", "a:b", "öx", "rea", "", "READ", "a", "a:b:c", "a:", "read:all", "read:x", "*", "re", "writes", "read write"] {
                m.check(c.has_scope(t) == c.scopes.iter().any(|x| x == t), "has-scope", || format!("{t} in {:?}", c.scopes));
            }
            let t = odd_scopes(r);
            let t: Vec<&str> = t.iter().map(String::as_str).collect();
            m.check(c.has_all_scopes(&t) == t.iter().all(|x| c.scopes.iter().any(|y| y == x)) && c.has_any_scope(&t) == t.iter().any(|x| c.scopes.iter().any(|y| y == x)), "has-scope", || format!("{t:?} in {:?}", c.scopes));
        }
    }
    m.sample("decision", || format!("{k:?} {:?}: {:?}", creds[0], verdicts[0].0));
}
/// With the bundled provider: access follows the life of the token.
async fn living(m: &Arc<Mon>, r: &mut Rng) {
    AHEAD.store(0, Ordering::SeqCst);
    let p = Arc::new(InMemoryOAuthProvider::new("x"));
    let s = odd_scopes(r);
    let need = odd_scopes(r);
    let mw = ScopeMiddleware::all(Box::new(BearerTokenMiddleware::new(p.clone())), need.clone());
    let t = p.create_access_token("c", "u", s.clone()).await.unwrap();
    let ok = need.iter().all(|x| s.contains(x));
    let a = AuthInfo::bearer(&t.access_token);
    m.check(mw.authenticate(Some(&a)).await.is_ok() == ok, "decision", || format!("{s:?} against {need:?}"));
    match r.below(3) {
        0 => { let _ = p.revoke_token(&t.access_token).await; },
        1 => {
            let n = p.refresh_token(t.refresh_token.as_ref().unwrap()).await.unwrap();
            m.check(mw.authenticate(Some(&AuthInfo::bearer(&n.access_token))).await.is_ok() == ok, "decision", || "the refreshed token".into());
        },
        _ => { AHEAD.store(t.expires_in.unwrap_or(3600) as i64 + 60, Ordering::SeqCst); },
    }
    m.case(("living", s, need), true);
    m.count("tokens ended", 1);
    m.check(mw.authenticate(Some(&a)).await.is_err(), "decision", || "a revoked, refreshed or expired token is admitted".into());
    let c = p.register_client(client(r)).await.unwrap();
    let mw = ClientCredentialsMiddleware::new(p.clone());
    let mut a = AuthInfo { scheme: AuthScheme::None, token: None, oauth: None, params: HashMap::new() };
    a.params.insert("client_id".into(), json!(c.client_id));
    a.params.insert("client_secret".into(), json!(c.client_secret));
    let g = mw.authenticate(Some(&a)).await;
    m.check(matches!(&g, Ok(x) if x.client_id == c.client_id && x.scopes == c.scopes), "decision", || format!("{g:?} for {c:?}"));
}

fn c34(m: &Arc<Mon>) {
    let mut r = m.rng("c34");
    let rt = mon::crt();
    m.stage("decisions");
    for k in 0..m.n(5000, 150_000) {
        if m.stopped() { return; }
        rt.block_on(decide(m, &mut r));
        if k % 8 == 0 { rt.block_on(living(m, &mut r)); }
    }
}
