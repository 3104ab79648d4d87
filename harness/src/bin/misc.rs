//! C38 completions, C39 file watching, C41 runtime helpers.
use mon::gen::Rng;
use mon::{Check, Mon};
use pmcp::server::resource_watcher::{ResourceWatcher, ResourceWatcherBuilder, WatchConfig};
use pmcp::types::completable::*;
use pmcp::types::protocol::{ResourceInfo, ServerNotification};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn main() {
    mon::main(&[
        Check { id: "C38", rule: "a completion is counted when its partial text or filter leaves some candidates out", run: c38 },
        Check { id: "C39", rule: "a history is counted when files were changed", run: c39 },
        Check { id: "C41", rule: "one set of tasks, waits and blocking calls started through the runtime helpers; non-trivial with at least two kinds and a panic or an abandoned handle", run: c41 },
    ]);
}

/// A scratch directory, removed again when dropped.
struct Scratch(PathBuf);
impl Scratch {
    fn new(what: &str) -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("mon-{what}-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p.canonicalize().unwrap())
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        if self.0.file_name().is_some_and(|n| n.to_string_lossy().starts_with("mon-")) { let _ = std::fs::remove_dir_all(&self.0); }
    }
}

// ---------------------------------------------------------------- C38

fn ask(p: &dyn CompletionProviderTrait, partial: &str, r: &mut Rng) -> CompletionResponse {
    let req = CompletionRequest { argument: r.text(6), partial: partial.to_string(), context: (0..r.below(3)).map(|k| (format!("k{k}"), r.text(4))).collect() };
    futures::executor::block_on(p.complete(req)).expect("completing failed")
}
fn item_json(i: &CompletionItem) -> Value {
    json!({"value": i.value, "label": i.label, "description": i.description, "icon": i.icon, "metadata": i.metadata.iter().collect::<BTreeMap<_, _>>()})
}

fn fixed_lists(m: &Arc<Mon>, r: &mut Rng) {
    let stem = r.text(3);
    let word = |r: &mut Rng| match r.below(6) { 0 => String::new(), 1 => format!("{stem}{}", r.text(4)), 2 => format!("{}{stem}", r.text(2)), 3 => stem.to_uppercase(), 4 => format!("{stem}\u{301}"), _ => r.text(5) };
    let plain = r.bool();
    let items: Vec<CompletionItem> = (0..if r.chance(1, 60) { r.range(100, 1300) } else { r.below(12) }).map(|_| CompletionItem {
        value: word(r),
        label: if !plain && r.bool() { Some(word(r)) } else { None },
        description: if !plain && r.bool() { Some(word(r)) } else { None },
        icon: if !plain && r.chance(1, 4) { Some("🦀".into()) } else { None },
        metadata: if !plain && r.chance(1, 4) { HashMap::from([("extra".to_string(), r.json(2))]) } else { HashMap::new() },
    }).collect();
    let provider = if plain { StaticCompletionProvider::from_strings(items.iter().map(|i| i.value.clone()).collect()) } else { StaticCompletionProvider::new(items.clone()) };
    for _ in 0..4 {
        let partial = match r.below(7) {
            0 => String::new(),
            1 => stem.clone(),
            2 if !items.is_empty() => { let t = r.pick(&items).value.clone(); t.chars().take(r.below(4)).collect() },
            3 if !items.is_empty() => { let i = r.pick(&items); i.label.clone().unwrap_or_else(|| format!("{}x", i.value)) },
            4 => stem.chars().take(1).collect(),
            5 => stem.to_lowercase(),
            _ => r.text(3),
        };
        let Some(got) = m.guard("panic", || format!("{partial:?}"), || ask(&provider, &partial, r)) else { return };
        let begins = |t: &str| t.len() >= partial.len() && t.as_bytes()[..partial.len()] == *partial.as_bytes();
        let want: Vec<Value> = items.iter().filter(|i| begins(&i.value) || i.label.as_deref().is_some_and(begins)).map(item_json).collect();
        m.case(("fixed", want.len(), items.len(), partial.len()), want.len() < items.len());
        m.count("candidates offered", want.len() as u64);
        let have: Vec<Value> = got.completions.iter().map(item_json).collect();
        m.check(have == want, "fixed-list", || format!("{partial:?}: {have:?}, want {want:?}"));
        m.check(!got.has_more && got.continuation_token.is_none(), "more", || format!("{got:?}"));
        // as it goes over the wire
        let wire = serde_json::to_value(&got).unwrap();
        let back: CompletionResponse = serde_json::from_value(wire.clone()).unwrap();
        m.check(back.completions.iter().map(item_json).collect::<Vec<_>>() == have, "wire", || format!("{wire}"));
        m.sample("fixed list", || format!("{partial:?} -> {have:?}"));
    }
}

fn definition(m: &Arc<Mon>, r: &mut Rng) {
    let name = r.text(6);
    let mut b = completable(name.clone());
    let mut want = json!({"name": name, "required": false});
    for _ in 0..r.below(4) {
        match r.below(4) {
            0 => { let d = r.text(6); b = b.description(d.clone()); want["description"] = json!(d); },
            1 => { b = b.required(); want["required"] = json!(true); },
            2 => { let v: Vec<String> = (0..r.below(4)).map(|_| r.text(4)).collect(); b = b.static_completions(v.clone()); want["completion"] = json!({"provider": "static", "values": v}); },
            _ => { b = b.file_completions(); want["completion"] = json!({"provider": "file"}); },
        }
    }
    let a = b.build();
    let w = serde_json::to_value(&a).unwrap();
    m.case(("definition", want.to_string().len()), true);
    m.check(sorted_json(&w) == sorted_json(&want), "definition", || format!("{w}, want {want}"));
    let back: CompletableArgument = serde_json::from_value(w.clone()).unwrap();
    m.check(serde_json::to_value(&back).unwrap() == w, "wire", || format!("{w}"));
    m.count("argument definitions", 1);
}
fn sorted_json(v: &Value) -> String {
    match v {
        Value::Object(o) => { let mut k: Vec<_> = o.iter().map(|(k, v)| format!("{k:?}:{}", sorted_json(v))).collect(); k.sort(); format!("{{{}}}", k.join(",")) },
        Value::Array(a) => format!("[{}]", a.iter().map(sorted_json).collect::<Vec<_>>().join(",")),
        _ => v.to_string(),
    }
}

const EXTS: [&str; 6] = ["rs", "md", "txt", "gz", "RS", "é"];
fn file_name(r: &mut Rng) -> String {
    let stem = ["a", "ab", "abc", "b", "main", "é", "🦀x", "a b", "-", "~", "A", "ab.c", "..a", "a..", "%20", "\\"];
    let mut s = r.pick(&stem).to_string();
    if r.chance(1, 5) { s.insert(0, '.'); }
    if r.chance(2, 3) { s.push('.'); s.push_str(*r.pick(&EXTS)); }
    if r.chance(1, 10) { s.push('.'); }
    s
}
fn grow(r: &mut Rng, dir: &Path, depth: usize) {
    for _ in 0..r.below(if depth == 0 { 14 } else { 6 }) {
        let p = dir.join(file_name(r));
        if p.exists() { continue; }
        if depth < 3 && r.chance(1, 3) { std::fs::create_dir(&p).unwrap(); grow(r, &p, depth + 1); } else { std::fs::write(&p, b"x").unwrap(); }
    }
}
fn dirs_below(p: &Path, rel: &str, out: &mut Vec<String>) {
    for e in std::fs::read_dir(p).unwrap().flatten() {
        if e.path().is_dir() { let n = format!("{rel}{}/", e.file_name().to_str().unwrap()); out.push(n.clone()); dirs_below(&e.path(), &n, out); }
    }
}
fn extension(n: &str) -> Option<&str> { match n.rfind('.') { None | Some(0) => None, Some(i) => Some(&n[i + 1..]) } }

/// What the entries of the addressed directory say.
fn listing(at: &Path, prefix: &str, exts: &Option<Vec<String>>) -> Vec<(String, bool)> {
    let mut out = vec![];
    let Ok(rd) = std::fs::read_dir(at) else { return out };
    for e in rd.flatten() {
        let n = e.file_name().to_str().unwrap().to_string();
        let dir = e.path().is_dir();
        let fits = dir || exts.as_ref().is_none_or(|x| extension(&n).is_some_and(|e| x.iter().any(|y| y == e)));
        if n.starts_with(prefix) && fits { out.push((n, dir)); }
    }
    out
}

fn files(m: &Arc<Mon>, r: &mut Rng) {
    let scratch = Scratch::new("c38");
    let root = scratch.0.join("base");
    std::fs::create_dir(&root).unwrap();
    grow(r, &root, 0);
    if r.chance(1, 25) { for i in 0..r.range(100, 600) { std::fs::write(root.join(format!("many{i}.rs")), b"x").unwrap(); } }
    let mut dirs = vec![String::new()];
    dirs_below(&root, "", &mut dirs);
    let elsewhere = scratch.0.join("other");
    std::fs::create_dir(&elsewhere).unwrap();
    grow(r, &elsewhere, 2);
    for _ in 0..12 {
        let exts = match r.below(4) { 0 | 1 => None, 2 => Some(vec![]), _ => Some((0..r.range(1, 3)).map(|_| { let x = r.pick(&EXTS).to_string(); match r.below(12) { 0 => format!(".{x}"), 1 => format!("{x} "), 2 => format!("*.{x}"), _ => x } }).collect::<Vec<_>>()) };
        let based = r.chance(3, 4);
        let mut p = FileCompletionProvider::new();
        if based { p = p.with_base_dir(root.clone()); }
        if let Some(x) = &exts { p = p.with_extensions(x.clone()); }
        // the text: a directory part and the beginning of a name
        let mut dir = r.pick(&dirs).clone();
        if r.chance(1, 8) { dir = format!("./{dir}"); }
        if r.chance(1, 12) { dir = format!("{dir}../"); }
        if r.chance(1, 12) { dir = dir.replacen('/', "//", 1); }
        if r.chance(1, 15) { dir = format!("no such place/{dir}"); }
        if !based || r.chance(1, 6) { dir = format!("{}/{dir}", if r.chance(1, 4) { &elsewhere } else { &root }.display()); }
        let prefix = match r.below(9) {
            0 | 1 => String::new(),
            2 => ".".into(),
            3 => "..".into(),
            4 => r.text(3).replace(['/', '\0'], "_"),
            5 => file_name(r).chars().take(1).collect(),
            6 => file_name(r).to_uppercase(),
            _ => { let l = listing(&root.join(&dir), "", &None); if l.is_empty() { "a".into() } else { let n = r.pick(&l).0.clone(); let k = r.below(n.chars().count() + 1); n.chars().take(k).collect() } },
        };
        let partial = format!("{dir}{prefix}");
        let at = if dir.starts_with('/') { PathBuf::from(&dir) } else { root.join(&dir) };
        let mut want = listing(&at, &prefix, &exts);
        let all = listing(&at, "", &None).len();
        let Some(got) = m.guard("panic", || format!("{partial:?}"), || ask(&p, &partial, r)) else { return };
        m.case((want.len(), all, dir.len(), prefix.clone(), exts.as_ref().map(|x| x.len()), based), want.len() < all);
        m.count("entries offered", want.len() as u64);
        m.count("file completions", 1);
        let what = format!("{partial:?} in {root:?} extensions {exts:?}");
        // by name: the same ones, once each
        want.sort();
        let mut have: Vec<(String, bool)> = got.completions.iter().map(|i| (i.label.clone().unwrap_or_default(), i.description.as_deref() == Some("Directory"))).collect();
        have.sort();
        m.check(have == want, "entries", || format!("{have:?}, want {want:?}; {what}"));
        let values: Vec<&String> = got.completions.iter().map(|i| &i.value).collect();
        m.check(values.windows(2).all(|w| w[0] <= w[1]), "order", || format!("{values:?}; {what}"));
        for i in &got.completions {
            // the value addresses the entry, and where the text is an ordinary path it continues it
            let n = i.label.clone().unwrap_or_default();
            let reached = if Path::new(&i.value).is_absolute() { PathBuf::from(&i.value) } else { root.join(&i.value) };
            m.check(reached.canonicalize().ok() == at.join(&n).canonicalize().ok(), "value", || format!("{:?} for {n:?}; {what}", i.value));
            if !dir.contains("//") { m.check(i.value == format!("{dir}{n}"), "value", || format!("{:?}, want {:?}; {what}", i.value, format!("{dir}{n}"))); }
        }
        m.sample("files", || format!("{what} -> {values:?}"));
    }
    // any text at all
    let p = FileCompletionProvider::new().with_base_dir(root.clone());
    // the file system's root is a directory too
    for stem in ["", "e", "u"] {
        let before = listing(Path::new("/"), stem, &None);
        let Some(got) = m.guard("panic", || format!("/{stem}"), || ask(&p, &format!("/{stem}"), r)) else { return };
        if before != listing(Path::new("/"), stem, &None) { continue; }
        let mut want: Vec<String> = before.into_iter().map(|(n, _)| format!("/{n}")).collect();
        want.sort();
        let have: Vec<String> = got.completions.iter().map(|i| i.value.clone()).collect();
        m.check(have == want, "entries", || format!("/{stem}: {have:?}, want {want:?}"));
    }
    for t in ["/", "//", "\0", "a\0/b", ".", "..", "../", "./", "\\", "~", "~/", "a/./", "*", "\u{feff}", "%2e%2e/"].map(String::from).into_iter().chain([r.text(20), "x/".repeat(3000), "y".repeat(70_000)]) {
        m.guard("panic", || format!("{:.60?}", t), || ask(&p, &t, r));
        m.count("odd texts", 1);
    }
    m.tick();
}

/// Without a base directory, texts are relative to the working directory.
fn here(m: &Arc<Mon>, r: &mut Rng) {
    let scratch = Scratch::new("c38");
    grow(r, &scratch.0, 0);
    let before = std::env::current_dir().unwrap();
    std::env::set_current_dir(&scratch.0).unwrap();
    for prefix in ["", "a", ".", "./", "./a"] {
        let Some(got) = m.guard("panic", || prefix.to_string(), || ask(&FileCompletionProvider::default(), prefix, r)) else { continue };
        let (dir, stem) = match prefix.rfind('/') { None => ("", prefix), Some(i) => (&prefix[..=i], &prefix[i + 1..]) };
        let mut want: Vec<String> = listing(&scratch.0, stem, &None).into_iter().map(|(n, _)| format!("{dir}{n}")).collect();
        want.sort();
        let have: Vec<String> = got.completions.iter().map(|i| i.value.clone()).collect();
        m.case(("here", prefix, want.len()), true);
        m.check(have == want, "entries", || format!("{prefix:?} in the working directory: {have:?}, want {want:?}"));
    }
    std::env::set_current_dir(before).unwrap();
}

fn c38(m: &Arc<Mon>) {
    let mut r = m.rng("c38");
    m.stage("fixed lists");
    for _ in 0..m.n(5000, 100_000) { if m.stopped() { return; } fixed_lists(m, &mut r); definition(m, &mut r); }
    m.stage("files");
    for _ in 0..m.n(400, 8000) { if m.stopped() { return; } files(m, &mut r); }
    for _ in 0..m.n(50, 500) { if m.stopped() { return; } here(m, &mut r); }
}

// ---------------------------------------------------------------- C39

type Glob = (&'static str, fn(&str) -> bool);
fn base_name(p: &str) -> &str { p.rsplit('/').next().unwrap() }
const PATTERNS: [Glob; 11] = [
    ("**/*", |_| true),
    ("**/*.rs", |p| p.ends_with(".rs")),
    ("*.md", |p| !p.contains('/') && p.ends_with(".md")),
    ("src/**", |p| p.starts_with("src/")),
    ("**/*.{rs,md}", |p| p.ends_with(".rs") || p.ends_with(".md")),
    ("src/?.rs", |p| p.starts_with("src/") && base_name(p).len() == 4 && p.len() == 8 && p.ends_with(".rs")),
    ("docs/[ab]*", |p| p.starts_with("docs/a") || p.starts_with("docs/b")),
    ("nothing/**", |_| false),
    ("a.md", |p| p == "a.md"),
    ("src/target/a.rs", |p| p == "src/target/a.rs"),
    ("*/x.tmp", |p| p.matches('/').count() == 1 && p.ends_with("/x.tmp")),
];
const IGNORES: [Glob; 6] = [
    ("**/target/**", |p| p.starts_with("target/") || p.contains("/target/")),
    ("**/.git/**", |p| p.starts_with(".git/") || p.contains("/.git/")),
    ("**/*.tmp", |p| p.ends_with(".tmp")),
    ("src/deep/*", |p| p.starts_with("src/deep/")),
    ("a.md", |p| p == "a.md"),
    ("**/.DS_Store", |p| base_name(p) == ".DS_Store"),
];
const DIRS: [&str; 7] = ["", "src/", "src/deep/", "docs/", "target/", "src/target/", ".git/"];
const NAMES: [&str; 10] = ["a.rs", "ab.rs", "a.md", "b.md", "c", "c.rs", "C.rs", "x.tmp", ".DS_Store", "a b é.md"];

#[derive(Debug, Clone, Copy, PartialEq)]
enum Change { Write, Append, Remove, Rename, Flicker, Read, Directory }

/// Whether wildcards match hidden files is left open.
fn hidden(rel: &str) -> bool { rel.starts_with('.') || rel.contains("/.") }

struct Case { root: PathBuf, globs: Vec<Glob>, ignored: Vec<Glob>, registered: HashSet<String>, debounce: Duration }
impl Case {
    fn uri(&self, rel: &str) -> String { format!("file://{}/{rel}", self.root.display()) }
    fn reported(&self, rel: &str) -> bool {
        self.globs.iter().any(|g| g.1(rel)) && !self.ignored.iter().any(|g| g.1(rel)) && self.registered.contains(&self.uri(rel))
    }
}
fn resource(uri: &str) -> ResourceInfo { ResourceInfo { uri: uri.into(), name: base_name(uri).into(), description: None, mime_type: None } }

/// How late this process is when it asks to be woken: what is measured against the clock is judged only when it is in time.
struct Pulse { worst: Arc<Mutex<Vec<(Instant, Duration)>>>, on: Arc<std::sync::atomic::AtomicBool> }
impl Pulse {
    fn start() -> Pulse {
        let (worst, on) = (Arc::new(Mutex::new(vec![])), Arc::new(std::sync::atomic::AtomicBool::new(true)));
        let (w, o) = (worst.clone(), on.clone());
        tokio::spawn(async move {
            while o.load(Ordering::Relaxed) {
                let t = Instant::now();
                tokio::time::sleep(Duration::from_millis(5)).await;
                let late = t.elapsed();
                if late > Duration::from_millis(20) { w.lock().unwrap().push((t, late)); }
            }
        });
        let (w, o) = (worst.clone(), on.clone());
        std::thread::spawn(move || {
            while o.load(Ordering::Relaxed) {
                let t = Instant::now();
                std::thread::sleep(Duration::from_millis(5));
                let late = t.elapsed();
                if late > Duration::from_millis(20) { w.lock().unwrap().push((t, late)); }
            }
        });
        Pulse { worst, on }
    }
    fn late(&self, since: Instant) -> Duration {
        self.worst.lock().unwrap().iter().filter(|(t, l)| *t + *l >= since).map(|(_, l)| *l).max().unwrap_or_default()
    }
}
impl Drop for Pulse { fn drop(&mut self) { self.on.store(false, Ordering::Relaxed); } }

type Seen = Arc<Mutex<Vec<(String, Instant)>>>;

async fn watching(m: Arc<Mon>, mut r: Rng, pulse: Arc<Pulse>) {
    let r = &mut r;
    let scratch = Scratch::new("c39");
    let root = scratch.0.join("base");
    for d in DIRS { std::fs::create_dir_all(root.join(d)).unwrap(); }
    let every: Vec<String> = DIRS.iter().flat_map(|d| NAMES.iter().map(move |n| format!("{d}{n}"))).collect();
    let mut there: HashSet<String> = HashSet::new();
    for f in &every { if r.bool() { std::fs::write(root.join(f), b"0").unwrap(); there.insert(f.clone()); } }
    let mut c = Case { root: root.clone(), globs: vec![], ignored: vec![], registered: HashSet::new(), debounce: Duration::from_millis(*r.pick(&[0, 60, 150, 300, 600])) };
    for _ in 0..r.below(3) + (r.chance(3, 4) as usize) { c.globs.push(*r.pick(&PATTERNS)); }
    for _ in 0..r.below(3) { c.ignored.push(*r.pick(&IGNORES)); }
    let most = if r.chance(1, 4) { r.range(1, 40) } else { 10_000 };
    let (tx, mut rx) = tokio::sync::mpsc::channel(*r.pick(&[1, 1, 8, 1000]));
    let built = r.chance(1, 3);
    let mut w = if built {
        let mut b = ResourceWatcherBuilder::new().debounce(c.debounce).max_resources(most);
        for g in &c.globs { b = b.pattern(g.0); }
        for g in &c.ignored { b = b.ignore(g.0); }
        m.check(ResourceWatcherBuilder::default().build(tx.clone()).is_err(), "builder", || "built without a directory".into());
        c.globs.push(PATTERNS[0]);
        c.ignored.extend([IGNORES[0], IGNORES[1], IGNORES[5]]);
        b.base_dir(&root).build(tx).unwrap()
    } else {
        let config = WatchConfig { debounce: c.debounce, patterns: c.globs.iter().map(|g| g.0.to_string()).collect(), ignore_patterns: c.ignored.iter().map(|g| g.0.to_string()).collect(), max_resources: most };
        ResourceWatcher::new(&root, config, tx)
    };
    let what = format!("patterns {:?} ignore {:?} debounce {:?} at most {most}", c.globs.iter().map(|g| g.0).collect::<Vec<_>>(), c.ignored.iter().map(|g| g.0).collect::<Vec<_>>(), c.debounce);
    // registrations before and after the start
    let mut pool = every.clone();
    r.shuffle(&mut pool);
    let share = r.range(10, pool.len());
    pool.truncate(share);
    let later = pool.split_off(r.below(pool.len()));
    for f in &pool { add(&m, &mut c, &w, f, most).await; }
    if !started(&m, &mut w, &what).await { return; }
    for f in &later { add(&m, &mut c, &w, f, most).await; }
    let n = w.get_resources().await;
    m.check(n.len() == c.registered.len() && n.iter().all(|i| c.registered.contains(&i.uri)), "registered", || format!("{} registered, want {}; {what}", n.len(), c.registered.len()));
    let w = Arc::new(tokio::sync::Mutex::new(Some(w)));
    // takes the reports; one kind of receiver registers something else before it takes the next
    let seen: Seen = Default::default();
    let (s2, w2, m2, fussy) = (seen.clone(), w.clone(), m.clone(), r.chance(1, 3));
    let taker = tokio::spawn(async move {
        let mut k = 0;
        while let Some(n) = rx.recv().await {
            match n {
                ServerNotification::ResourceUpdated(p) => s2.lock().unwrap().push((p.uri, Instant::now())),
                o => { m2.fail("other-notification", format!("{o:?}")); },
            }
            if fussy {
                if let Some(w) = &*w2.lock().await {
                    k += 1;
                    let u = format!("file:///elsewhere/{k}");
                    let done = tokio::time::timeout(Duration::from_secs(15), async { w.add_resource(u.clone(), resource(&u)).await.is_ok() && w.remove_resource(&u).await.is_ok() }).await;
                    if done.is_err() { m2.fail("registration-blocks", "registering a resource waits for ever while reports are waiting to be taken"); return; }
                }
            }
        }
    });
    let mut story = vec![];
    for round in 0..r.range(1, 4) {
        // in this round: some files, each changed several times
        let began = Instant::now();
        let mut touched: BTreeMap<String, (Instant, Instant, usize, Duration)> = BTreeMap::new(); // first, last, changes, longest gap
        let files: Vec<String> = (0..r.range(1, 8)).map(|_| r.pick(&every).clone()).collect();
        let gap = match r.below(4) { 0 | 1 => Duration::ZERO, 2 => c.debounce / 4, _ => c.debounce * 2 + Duration::from_millis(300) };
        let times = if gap > c.debounce { 2 } else { r.range(1, 4) };
        let mut did = vec![];
        for t in 0..times {
            for f in &files {
                let p = root.join(f);
                let exists = there.contains(f);
                let ch = *r.pick(&[Change::Write, Change::Write, Change::Append, Change::Remove, Change::Rename, Change::Flicker, Change::Read, Change::Directory]);
                let mut changed = vec![];
                let t0 = Instant::now();
                match ch {
                    Change::Write => { std::fs::write(&p, r.text(20) + "!").unwrap(); there.insert(f.clone()); changed.push(f.clone()); },
                    Change::Append if exists => { use std::io::Write; std::fs::OpenOptions::new().append(true).open(&p).unwrap().write_all(b"more").unwrap(); changed.push(f.clone()); },
                    Change::Remove if exists => { std::fs::remove_file(&p).unwrap(); there.remove(f); changed.push(f.clone()); },
                    Change::Rename if exists => {
                        let to = r.pick(&every).clone();
                        if to == *f { continue; }
                        std::fs::rename(&p, root.join(&to)).unwrap();
                        there.remove(f);
                        there.insert(to.clone());
                        changed.push(f.clone());
                        changed.push(to);
                    },
                    Change::Flicker if !exists => { std::fs::write(&p, if r.bool() { &b"x"[..] } else { b"" }).unwrap(); std::fs::remove_file(&p).unwrap(); changed.push(f.clone()); },
                    Change::Read if exists => { let _ = std::fs::read(&p); },
                    Change::Directory => { let _ = std::fs::read_dir(root.join("src")).map(|d| d.count()); },
                    _ => continue,
                }
                did.push(format!("{ch:?} {f}"));
                for x in changed {
                    let e = touched.entry(x).or_insert((t0, t0, 0, Duration::ZERO));
                    e.3 = e.3.max(t0.duration_since(e.1));
                    e.1 = Instant::now();
                    e.2 += 1;
                }
            }
            if t + 1 < times { tokio::time::sleep(gap).await; }
        }
        // all there must be, and some more time for what must not be
        let due: HashSet<String> = touched.keys().filter(|f| c.reported(f) && !hidden(f)).map(|f| c.uri(f)).collect();
        let last = Instant::now();
        loop {
            let got: HashSet<String> = seen.lock().unwrap().iter().map(|(u, _)| u.clone()).collect();
            if due.is_subset(&got) && last.elapsed() > c.debounce + Duration::from_millis(250) { break; }
            if last.elapsed() > c.debounce + Duration::from_secs(15) { break; }
            tokio::time::sleep(Duration::from_millis(20)).await;
        }
        tokio::time::sleep(Duration::from_millis(120)).await;
        let late = pulse.late(began);
        let got = std::mem::take(&mut *seen.lock().unwrap());
        story.push(format!("round {round} gap {gap:?} x{times}: {}", did.join(", ")));
        m.case((c.debounce, gap, times, touched.len(), due.len(), round), !touched.is_empty());
        m.count("changes", touched.values().map(|t| t.2 as u64).sum());
        m.count("reports", got.len() as u64);
        m.max("late ms", late.as_millis() as u64);
        let about = || format!("late {late:?}; {what}; {}", story.join(" | "));
        for (f, (first, end, changes, longest)) in &touched {
            let u = c.uri(f);
            let mine: Vec<Instant> = got.iter().filter(|g| g.0 == u).map(|g| g.1).collect();
            // (whether a wildcard reaches hidden files is open, for what is to be ignored too)
            if !c.reported(f) && !(hidden(f) && c.registered.contains(&u)) {
                m.check(mine.is_empty(), "reported-unwatched", || format!("{f} reported {} times; {}", mine.len(), about()));
                m.count("unwatched changes", 1);
                continue;
            }
            if hidden(f) || !c.reported(f) {
                m.count("changes of hidden files", 1);
                m.check(mine.len() <= changes * 3, "too-many-reports", || format!("{f} reported {} times for {changes} changes; {}", mine.len(), about()));
                continue;
            }
            if !m.check(!mine.is_empty(), "change-unreported", || format!("{f}, changed {changes} times; {}", about())) { return; }
            m.count("watched changes", 1);
            // never before the changes, nor more often than they can be
            m.check(mine.len() <= changes * 3, "too-many-reports", || format!("{f} reported {} times for {changes} changes; {}", mine.len(), about()));
            m.check(mine[0] >= *first, "early-report", || format!("{f}; {}", about()));
            let calm = late + Duration::from_millis(30) < c.debounce / 3;
            if calm {
                m.count("timed", 1);
                let wait = mine.last().unwrap().saturating_duration_since(*end);
                m.check(mine[0].duration_since(*first) >= c.debounce, "debounce-short", || format!("{f} reported {:?} after its first change; {}", mine[0].duration_since(*first), about()));
                if *longest + late + Duration::from_millis(30) < c.debounce {
                    m.check(mine.len() == 1, "reported-again", || format!("{f} reported {} times, changes at most {longest:?} apart; {}", mine.len(), about()));
                    m.check(mine[0].duration_since(*end) + Duration::from_millis(20) >= c.debounce, "debounce-restart", || format!("{f} reported {wait:?} after its last change; {}", about()));
                    m.check(wait <= c.debounce + Duration::from_millis(700) + late * 4, "debounce-long", || format!("{f} reported {wait:?} after its last change; {}", about()));
                    m.count("settled once", 1);
                } else if *longest > c.debounce + Duration::from_millis(200) + late {
                    m.check(mine.len() >= 2, "change-unreported", || format!("{f} reported once, changes {longest:?} apart; {}", about()));
                }
            }
        }
        for (u, _) in &got {
            m.check(touched.keys().any(|f| c.uri(f) == *u), "reported-unchanged", || format!("{u}; {}", about()));
        }
        // registrations change between rounds
        let g = w.lock().await;
        if let Some(w) = &*g {
            for _ in 0..r.below(6) {
                let f = r.pick(&every).clone();
                if r.bool() {
                    m.check(w.remove_resource(&c.uri(&f)).await.is_ok(), "remove", || f.clone());
                    c.registered.remove(&c.uri(&f));
                } else {
                    add(&m, &mut c, w, &f, most).await;
                }
            }
        }
    }
    m.sample("history", || format!("{what}: {}", story.join(" | ")));
    // stopped: what changes afterwards is not reported, and the reporting ends
    let Some(mut w1) = w.lock().await.take() else { return };
    w1.stop().await;
    tokio::time::sleep(Duration::from_millis(400) + c.debounce).await;
    let late = pulse.late(Instant::now() - Duration::from_millis(400));
    seen.lock().unwrap().clear();
    let again = r.chance(1, 3);
    if !again && late < Duration::from_millis(100) {
        for f in every.iter().take(20) { std::fs::write(root.join(f), b"late").unwrap(); }
        tokio::time::sleep(Duration::from_millis(300) + c.debounce).await;
        m.check(seen.lock().unwrap().is_empty(), "reported-after-stop", || format!("{:?}; {what}", seen.lock().unwrap().first()));
        m.count("stopped watchers", 1);
    }
    if again {
        // and it can be started again
        if !started(&m, &mut w1, &format!("again; {what}")).await { return; }
        let Some(f) = every.iter().find(|f| c.reported(f) && !hidden(f)).cloned() else { return };
        std::fs::write(root.join(&f), b"again").unwrap();
        let t = Instant::now();
        while seen.lock().unwrap().is_empty() && t.elapsed() < Duration::from_secs(15) { tokio::time::sleep(Duration::from_millis(20)).await; }
        m.check(seen.lock().unwrap().first().is_some_and(|g| g.0 == c.uri(&f)), "change-unreported", || format!("after a second start; {what}"));
        m.count("restarted watchers", 1);
    }
    drop(w1);
    let over = tokio::time::timeout(Duration::from_secs(15), taker).await;
    m.check(over.is_ok(), "reporting-goes-on", || format!("15 s after the watcher is gone its reports have not ended; {what}"));
}
async fn add(m: &Arc<Mon>, c: &mut Case, w: &ResourceWatcher, f: &str, most: usize) {
    let u = c.uri(f);
    m.check(w.add_resource(u.clone(), resource(&u)).await.is_ok(), "add", || u.clone());
    if c.registered.len() < most { c.registered.insert(u); }
}

/// Starts, unless the system cannot give another watch: others here may be using them all.
async fn started(m: &Arc<Mon>, w: &mut ResourceWatcher, what: &str) -> bool {
    let (mut none_left, mut refused) = (0, 0);
    for _ in 0..100 {
        let Err(e) = w.start().await else { return true };
        let fd = unsafe { libc::inotify_init1(0) };
        if fd < 0 { none_left += 1; refused = 0; } else {
            unsafe { libc::close(fd); }
            refused += 1;
            if refused == 20 { m.fail("start", format!("{e}; {what}")); return false; }
        }
        tokio::time::sleep(Duration::from_millis(50)).await;
    }
    m.count("starts without notifications left", none_left);
    false
}

/// Many files change at once: none is forgotten.
async fn flood(m: Arc<Mon>, mut r: Rng) {
    let scratch = Scratch::new("c39");
    let root = scratch.0.join("base");
    std::fs::create_dir(&root).unwrap();
    let queue: usize = std::fs::read_to_string("/proc/sys/fs/inotify/max_queued_events").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(16384);
    let n = r.range(1200, 2500).min(queue / 6);
    let (tx, mut rx) = tokio::sync::mpsc::channel(*r.pick(&[1, 10, 10_000]));
    let debounce = Duration::from_millis(*r.pick(&[0, 100, 300]));
    let mut w = ResourceWatcher::new(&root, WatchConfig { debounce, patterns: vec!["**/*".into()], ignore_patterns: vec![], max_resources: 10_000 }, tx);
    let mut left: HashSet<String> = HashSet::new();
    let how = r.below(3);
    if how > 0 { for k in 0..n { std::fs::write(root.join(format!("f{k}")), b"before").unwrap(); } }
    for k in 0..n {
        let u = format!("file://{}/f{k}", root.display());
        w.add_resource(u.clone(), resource(&u)).await.unwrap();
        left.insert(u);
    }
    if !started(&m, &mut w, "flood").await { return; }
    // nobody takes the reports of the first changes until all changes are made
    let held = r.chance(2, 3);
    if held {
        for k in 0..20 { std::fs::write(root.join(format!("f{k}")), b"first").unwrap(); }
        tokio::time::sleep(debounce + Duration::from_millis(600)).await;
    }
    let r2 = root.clone();
    let writer = std::thread::spawn(move || for k in 0..n {
        let p = r2.join(format!("f{k}"));
        match how { 0 => std::fs::write(p, b"x").unwrap(), 1 => std::fs::remove_file(p).unwrap(), _ => std::fs::rename(p, r2.join(format!("g{k}"))).unwrap() }
    });
    if held { while !writer.is_finished() { tokio::time::sleep(Duration::from_millis(10)).await; } tokio::time::sleep(Duration::from_millis(300)).await; }
    let deadline = Instant::now() + Duration::from_secs(25);
    while !left.is_empty() && Instant::now() < deadline {
        match tokio::time::timeout(Duration::from_secs(1), rx.recv()).await {
            Ok(Some(ServerNotification::ResourceUpdated(p))) => { left.remove(&p.uri); },
            Ok(None) => break,
            _ => {},
        }
    }
    let _ = writer.join();
    m.case(("flood", n, debounce, how), true);
    m.count("changes", n as u64);
    m.count("flooded files reported", (n - left.len()) as u64);
    m.check(left.is_empty(), "change-unreported", || format!("{} of {n} files {} at once were never reported; debounce {debounce:?}", left.len(), ["written", "removed", "renamed"][how]));
    w.stop().await;
}

fn c39(m: &Arc<Mon>) {
    let mut r = m.rng("c39");
    let fd = unsafe { libc::inotify_init1(0) };
    if fd < 0 { m.inconclusive("this system has no file change notifications to give"); return; }
    unsafe { libc::close(fd); }
    let rt = mon::mrt(4);
    rt.block_on(async {
        m.stage("missing directory");
        let (tx, _rx) = tokio::sync::mpsc::channel(1);
        let mut w = ResourceWatcher::new("/no such directory/at all", WatchConfig::default(), tx);
        m.check(w.start().await.is_err(), "start-missing", || "watching a missing directory was reported as started".into());
        m.stage("histories");
        let pulse = Arc::new(Pulse::start());
        let mut set = tokio::task::JoinSet::new();
        for _ in 0..m.n(220, 6000) {
            if m.stopped() { break; }
            if set.len() >= 32 { if let Some(Err(e)) = set.join_next().await { if e.is_panic() { std::panic::resume_unwind(e.into_panic()); } } m.tick(); }
            set.spawn(watching(m.clone(), r.fork(), pulse.clone()));
        }
        while let Some(x) = set.join_next().await { m.tick(); if let Err(e) = x { if e.is_panic() { std::panic::resume_unwind(e.into_panic()); } } }
        m.stage("floods");
        for _ in 0..m.n(6, 60) { if m.stopped() { break; } flood(m.clone(), r.fork()).await; m.tick(); }
    });
    rt.shutdown_background();
}

// ------------------------------------------------------------------ C41

/// Starts tasks, waits and blocking calls through the runtime helpers and compares what ran with what was started.
async fn helpers(m: Arc<Mon>, mut r: Rng, paused: bool) {
    use pmcp::shared::runtime::{self as rt, JoinHandle};
    let ran: Arc<Mutex<HashMap<usize, u32>>> = Arc::default();
    let mut due: HashSet<usize> = HashSet::new();
    let (mut spawned, mut waits, mut blocking, mut panics, mut dropped) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut open: Vec<(usize, Option<String>, JoinHandle<String>)> = vec![];
    let n = r.range(2, 24);
    let text = Arc::new(Mutex::new(vec![]));
    let current = tokio::runtime::Handle::current().runtime_flavor() == tokio::runtime::RuntimeFlavor::CurrentThread;
    for k in 0..n {
        match r.below(if paused { 2 } else { 4 }) {
            0 => {
                // a task nobody waits for
                let (ran2, naps) = (ran.clone(), (0..r.below(3)).map(|_| r.below(30) as u64).collect::<Vec<_>>());
                text.lock().unwrap().push(format!("task {naps:?}"));
                due.insert(k);
                spawned += 1;
                rt::spawn(async move {
                    for d in naps { rt::sleep(Duration::from_millis(d)).await; tokio::task::yield_now().await; }
                    *ran2.lock().unwrap().entry(k).or_default() += 1;
                });
                // starting a task does not run it in its starter's place
                if current && ran.lock().unwrap().contains_key(&k) { m.fail("spawn-ran-inline", format!("task {k}")); }
            },
            1 => {
                let us = if paused && r.chance(1, 6) { *r.pick(&[1u64, 59, 60, 61, 3599, 3601, 86_399, 86_400, 86_401, 100_000]) * 1_000_000 + r.below(1000) as u64 * 1000 } else if r.bool() { r.below(50_000) as u64 } else { r.below(40) as u64 * 1000 };
                let d = Duration::from_micros(us);
                text.lock().unwrap().push(format!("wait {d:?}"));
                waits += 1;
                let (t0, w0) = (tokio::time::Instant::now(), Instant::now());
                rt::sleep(d).await;
                let (virt, real) = (t0.elapsed(), w0.elapsed());
                if paused {
                    m.check(virt >= d && virt <= d + Duration::from_millis(2), "sleep-length", || format!("slept {virt:?} for {d:?}"));
                } else {
                    m.check(real >= d, "sleep-short", || format!("slept {real:?} for {d:?}"));
                }
            },
            _ => {
                blocking += 1;
                let (ran2, nap, out, boom) = (ran.clone(), r.below(8) as u64, format!("{k}-{}", r.string(6)), r.chance(1, 5));
                text.lock().unwrap().push(format!("blocking {nap} {boom}"));
                due.insert(k);
                let o2 = out.clone();
                let h = rt::spawn_blocking(move || {
                    std::thread::sleep(Duration::from_millis(nap));
                    *ran2.lock().unwrap().entry(k).or_default() += 1;
                    if boom { std::panic::resume_unwind(Box::new("as planned")) }
                    o2
                });
                if boom { panics += 1; }
                if r.chance(1, 4) { dropped += 1; drop(h); } else { open.push((k, if boom { None } else { Some(out) }, h)); }
            },
        }
        if r.chance(1, 3) && !open.is_empty() {
            let i = r.below(open.len());
            let (k, want, h) = open.swap_remove(i);
            settle_handle(&m, k, want, h).await;
        }
    }
    for (k, want, h) in open { settle_handle(&m, k, want, h).await; }
    let all = async { while ran.lock().unwrap().len() < due.len() { tokio::time::sleep(Duration::from_millis(2)).await; } };
    let done = tokio::time::timeout(Duration::from_secs(60), all).await.is_ok();
    tokio::time::sleep(Duration::from_millis(3)).await;
    let got = ran.lock().unwrap().clone();
    let text = text.lock().unwrap().join(", ");
    m.check(done && got.len() == due.len() && got.iter().all(|(k, c)| due.contains(k) && *c == 1), "runs", || format!("{} started, runs {got:?}; {text}", due.len()));
    for (k, v) in [("tasks", spawned), ("waits", waits), ("blocking calls", blocking), ("panicking calls", panics), ("handles dropped", dropped)] { m.count(k, v); }
    m.sample(if paused { "virtual" } else { "real" }, || text.clone());
    m.case((paused, &text), panics + dropped > 0 || (spawned > 0 && waits > 0));
}
async fn settle_handle(m: &Mon, k: usize, want: Option<String>, h: pmcp::shared::runtime::JoinHandle<String>) {
    match (tokio::time::timeout(Duration::from_secs(60), h).await, want) {
        (Ok(Ok(x)), Some(w)) => { m.check(x == w, "blocking-result", || format!("call {k}: {x:?} for {w:?}")); },
        (Ok(Err(e)), None) => { m.check(!e.to_string().is_empty(), "join-error", || format!("{e:?}")); },
        (o, w) => m.fail("blocking-outcome", format!("call {k}: {o:?} for {w:?}")),
    }
}

fn c41(m: &Arc<Mon>) {
    use pmcp::shared::runtime as rt;
    let mut r = m.rng("c41");
    m.stage("virtual time");
    for _ in 0..m.n(1500, 40_000) {
        if m.stopped() { return; }
        let (m2, r2) = (m.clone(), r.fork());
        if mon::virtually(helpers(m2, r2, true)).is_none() { m.fail("hangs", "tasks under virtual time".to_string()); }
    }
    m.stage("real time");
    for k in 0..m.n(40, 600) {
        if m.stopped() { return; }
        let run = if k % 3 == 0 { mon::crt() } else { mon::mrt(4) };
        let hs: Vec<_> = (0..12).map(|_| run.spawn(helpers(m.clone(), r.fork(), false))).collect();
        run.block_on(async { for h in hs { if let Err(e) = h.await { if e.is_panic() { std::panic::resume_unwind(e.into_panic()); } } } });
        run.shutdown_background();
    }
    m.stage("a blocking call blocks nothing else");
    let run = mon::crt();
    let ok = run.block_on(async {
        let gate = Arc::new((Mutex::new(false), std::sync::Condvar::new()));
        let g = gate.clone();
        let h = rt::spawn_blocking(move || {
            let (l, c) = &*g;
            let mut open = l.lock().unwrap();
            while !*open { let (o, t) = c.wait_timeout(open, Duration::from_secs(60)).unwrap(); open = o; if t.timed_out() { return false } }
            true
        });
        // only this thread can open the gate
        rt::sleep(Duration::from_millis(5)).await;
        *gate.0.lock().unwrap() = true;
        gate.1.notify_all();
        h.await.unwrap_or(false)
    });
    m.check(ok, "blocking-blocks", || "a blocking call kept the other tasks from running".into());
    m.stage("clock");
    let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64;
    for k in 0..m.n(2000, 20_000) {
        let (a, t, b) = (now(), rt::timestamp_millis(), now());
        // the wall clock may be set back while we look
        if a <= b { m.check(a <= t && t <= b, "timestamp", || format!("{t} between {a} and {b}")); }
        if k % 100 == 0 { std::thread::sleep(Duration::from_millis(1)); }
    }
}
