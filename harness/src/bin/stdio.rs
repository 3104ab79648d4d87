//! C03: stdio framing, observed on a real child process speaking over pipes.
use mon::wire::{self, Gen};
use mon::{Check, Mon, Rng};
use pmcp::error::TransportError;
use pmcp::shared::{StdioTransport, Transport};
use pmcp::Error;
use serde_json::Value;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(String::as_str) == Some("child") {
        child(&a[2], a.get(3).map(String::as_str).unwrap_or("4"));
    }
    mon::main(&[Check { id: "C03", rule: "a byte stream of frames (valid, damaged or cut) fed to a child process with a chosen splitting; non-trivial when it holds a frame or is damaged", run: c03 }]);
}

/// echo: receive until the connection is closed (or `max` errors in a row), echoing each message.
/// close: send one message, close, then try both directions.
fn child(mode: &str, max: &str) -> ! {
    std::panic::set_hook(Box::new(|i| eprintln!("PANIC {i}")));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
    let max: usize = max.parse().unwrap();
    rt.block_on(async {
        let mut t = StdioTransport::new();
        let mut errs = 0;
        loop {
            if mode == "close" && errs == 0 {
                let m = t.receive().await;
                if let Ok(m) = m { eprintln!("MSG {}", serde_json::to_string(&String::from_utf8(StdioTransport::serialize_message(&m).unwrap()).unwrap()).unwrap()); t.send(m.clone()).await.unwrap();
                    eprintln!("CLOSE {:?} {}", t.close().await.is_ok(), t.is_connected());
                    for _ in 0..2 {
                        let s = t.send(m.clone()).await;
                        eprintln!("SEND {}", matches!(s, Err(Error::Transport(TransportError::ConnectionClosed))));
                        let r = tokio::time::timeout(Duration::from_secs(20), t.receive()).await;
                        eprintln!("RECV {}", matches!(r, Ok(Err(Error::Transport(TransportError::ConnectionClosed)))));
                    }
                }
                break;
            }
            match t.receive().await {
                Ok(m) => {
                    errs = 0;
                    let s = String::from_utf8(StdioTransport::serialize_message(&m).unwrap()).unwrap();
                    eprintln!("MSG {}", serde_json::to_string(&s).unwrap());
                    if let Err(e) = t.send(m).await { eprintln!("SENDERR {e}"); }
                },
                Err(e) => {
                    errs += 1;
                    eprintln!("ERR {} {}", matches!(e, Error::Transport(TransportError::ConnectionClosed)), t.is_connected());
                    if errs > max || !t.is_connected() { break; }
                },
            }
        }
        eprintln!("END {}", t.is_connected());
    });
    std::process::exit(0);
}

struct Proc { child: Child, stdin: Option<ChildStdin>, out: std::thread::JoinHandle<Vec<u8>>, err: std::thread::JoinHandle<String> }
fn spawn(mode: &str, max: usize) -> Proc {
    let mut child = Command::new(std::env::current_exe().unwrap()).args(["child", mode, &max.to_string()]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
    let mut o = child.stdout.take().unwrap();
    let mut e = child.stderr.take().unwrap();
    let out = std::thread::spawn(move || { let mut v = vec![]; let _ = o.read_to_end(&mut v); v });
    let err = std::thread::spawn(move || { let mut v = vec![]; let _ = e.read_to_end(&mut v); String::from_utf8_lossy(&v).into_owned() });
    Proc { stdin: child.stdin.take(), child, out, err }
}
fn unread(fd: i32) -> i32 { let mut n: i32 = 0; unsafe { libc::ioctl(fd, libc::FIONREAD, &mut n) }; n }

/// Writes the stream in the given pieces; a piece is only written once the previous one has been read,
/// so every boundary really separates two reads. Returns the number of enforced boundaries.
fn feed(p: &mut Proc, bytes: &[u8], cuts: &[usize], settle: bool) -> usize {
    let mut at = 0;
    let mut enforced = 0;
    let Some(s) = p.stdin.as_mut() else { return 0 };
    for &c in cuts {
        if s.write_all(&bytes[at..c]).is_err() { break; }
        let _ = s.flush();
        at = c;
        if settle {
            let t0 = Instant::now();
            while unread(s.as_raw_fd()) > 0 && t0.elapsed() < Duration::from_secs(2) { std::thread::yield_now(); }
            if unread(s.as_raw_fd()) == 0 { enforced += 1; }
        }
    }
    p.stdin = None;
    enforced
}
struct Seen { msgs: Vec<Value>, events: Vec<String>, out: Vec<u8>, code: Option<i32>, raw: String }
fn finish(m: &Arc<Mon>, mut p: Proc, what: &str) -> Option<Seen> {
    p.stdin = None;
    let t0 = Instant::now();
    let code = loop {
        match p.child.try_wait() { Ok(Some(s)) => break s.code(), _ => {} }
        if t0.elapsed() > Duration::from_secs(60) {
            let _ = p.child.kill(); let _ = p.child.wait();
            m.fail("receiver-hangs", format!("the child did not end within 60 s of end of input; {what}"));
            return None;
        }
        std::thread::sleep(Duration::from_micros(300));
    };
    let out = p.out.join().unwrap();
    let raw = p.err.join().unwrap();
    let mut msgs = vec![];
    let mut events = vec![];
    for l in raw.lines() {
        if let Some(x) = l.strip_prefix("MSG ") {
            let s: String = serde_json::from_str(x).unwrap_or_default();
            msgs.push(serde_json::from_str(&s).unwrap_or(Value::Null));
            events.push("MSG".into());
        } else { events.push(l.to_string()); }
    }
    Some(Seen { msgs, events, out, code, raw })
}
/// Strict reading of what the process wrote.
fn frames(out: &[u8]) -> Result<Vec<Value>, String> {
    let mut v = vec![];
    let mut at = 0;
    while at < out.len() {
        let rest = &out[at..];
        let e = rest.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| format!("no header end at {at}"))?;
        let h = std::str::from_utf8(&rest[..e]).map_err(|e| e.to_string())?;
        let mut n = None;
        for line in h.split("\r\n") {
            if let Some(x) = line.strip_prefix("Content-Length: ") { n = Some(x.parse::<usize>().map_err(|e| format!("{e}: {line:?}"))?); }
        }
        let n = n.ok_or_else(|| format!("no length in {h:?}"))?;
        let body = rest.get(e + 4..e + 4 + n).ok_or_else(|| format!("frame at {at} claims {n} bytes, {} left", rest.len() - e - 4))?;
        v.push(serde_json::from_slice(body).map_err(|e| format!("{e} in frame at {at} of {n} bytes"))?);
        at += e + 4 + n;
    }
    Ok(v)
}
fn frame(r: &mut Rng, body: &[u8]) -> Vec<u8> {
    let extra = match r.below(12) { 0 | 1 => "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n".to_string(), 2 if r.chance(1, 4) => format!("X-Note: {}\r\n", "n".repeat(r.below(20_000))), _ => String::new() };
    let h = if r.bool() { format!("{extra}Content-Length: {}\r\n\r\n", body.len()) } else { format!("Content-Length: {}\r\n{extra}\r\n", body.len()) };
    let mut v = h.into_bytes();
    v.extend_from_slice(body);
    v
}
fn cuts(r: &mut Rng, len: usize) -> Vec<usize> {
    if len == 0 { return vec![]; }
    match r.below(5) {
        0 => vec![len],
        1 if len < 1500 => (1..=len).collect(),
        2 => { let mut v: Vec<usize> = (0..r.below(12)).map(|_| r.range(1, len)).collect(); v.push(len); v.sort(); v.dedup(); v },
        _ => { let mut v = r.splits(len); if v.len() > 400 { v.truncate(400); if *v.last().unwrap() != len { v.push(len); } } v },
    }
}
fn plain(m: &Arc<Mon>, r: &mut Rng) -> Gen { let _ = m; wire::message(r) }

fn c03(m: &Arc<Mon>) {
    let threads = 6;
    let n = m.n(1200, 40000);
    std::thread::scope(|s| {
        for t in 0..threads {
            let m = m.clone();
            s.spawn(move || {
                let mut r = m.rng(&format!("t{t}"));
                for i in 0..n / threads {
                    if m.stopped() { return; }
                    match i % 4 { 0 | 1 => valid_stream(&m, &mut r, i), 2 => damaged(&m, &mut r, i), _ => tail(&m, &mut r, i) }
                }
                for _ in 0..m.n(2, 20) { closing(&m, &mut r); }
            });
        }
    });
    m.stage("large messages");
    let mut r = m.rng("large");
    for size in [100_000usize, 1_000_000, 3_000_000] {
        let body = wire::wire_obj(Some(Value::from(7)), Some("tools/call"), Some(serde_json::json!({"name": "big", "arguments": {"x": "é\n🦀".repeat(size / 8)}})));
        let b = body.to_string().into_bytes();
        let f = frame(&mut r, &b);
        let mut p = spawn("echo", 4);
        let all = [f.clone(), f.clone()].concat();
        let cuts: Vec<usize> = (1..=all.len() / 65_000).map(|k| k * 65_000).chain([all.len()]).collect();
        feed(&mut p, &all, &cuts, false);
        m.case(("large", size), true);
        if let Some(s) = finish(m, p, "large") { judge_valid(m, &s, &[body.clone(), body.clone()], &format!("large {size}")); }
    }
}

fn judge_common(m: &Arc<Mon>, s: &Seen, what: &str) {
    m.check(s.code == Some(0) && !s.raw.contains("PANIC"), "process-died", || format!("exit {:?}, log {}; {what}", s.code, s.raw.chars().take(600).collect::<String>()));
    match frames(&s.out) {
        Ok(f) => { m.check(f == s.msgs, "written-frames", || format!("wrote {f:?}, sent {:?}; {what}", s.msgs)); m.count("frames_written", f.len() as u64); },
        Err(e) => m.fail("written-framing", format!("{e}; {what}")),
    }
    m.check(!s.raw.contains("SENDERR"), "send-failed", || format!("{}; {what}", s.raw));
    m.count("messages_received", s.msgs.len() as u64);
    m.count("errors_reported", s.events.iter().filter(|e| e.starts_with("ERR")).count() as u64);
}
fn judge_valid(m: &Arc<Mon>, s: &Seen, want: &[Value], what: &str) {
    judge_common(m, s, what);
    m.check(s.msgs == want, "received-sequence", || format!("received {} of {}: {:?} want {want:?}; {what}", s.msgs.len(), want.len(), s.msgs));
    // exactly one error: end of input, reported as closed
    let tail: Vec<_> = s.events.iter().filter(|e| e.starts_with("ERR")).collect();
    m.check(tail == ["ERR true false"], "end-of-input", || format!("{tail:?}; {what}"));
}
fn valid_stream(m: &Arc<Mon>, r: &mut Rng, _i: usize) {
    let gs: Vec<Gen> = (0..r.range(0, 8)).map(|_| plain(m, r)).collect();
    let mut all = vec![];
    for g in &gs { let b = wire::scramble(r, &g.json); all.extend(frame(r, b.as_bytes())); }
    let c = cuts(r, all.len());
    let settle = r.chance(4, 5);
    let mut p = spawn("echo", 4);
    let k = feed(&mut p, &all, &c, settle);
    m.count("enforced_read_boundaries", k as u64);
    m.case((&all, &c), !gs.is_empty());
    m.count("valid_streams", 1);
    let what = format!("{} bytes in {} pieces: {}", all.len(), c.len(), String::from_utf8_lossy(&all).chars().take(300).collect::<String>());
    m.sample("stream", || what.clone());
    let want: Vec<Value> = gs.iter().map(|g| g.json.clone()).collect();
    if let Some(s) = finish(m, p, &what) { judge_valid(m, &s, &want, &what); }
}
/// A damaged frame between valid ones, where the damage does not desynchronise the framing:
/// error for the damaged one, every other message exactly once.
fn damaged(m: &Arc<Mon>, r: &mut Rng, _i: usize) {
    let before: Vec<Gen> = (0..r.range(0, 3)).map(|_| plain(m, r)).collect();
    let after: Vec<Gen> = (0..r.range(0, 3)).map(|_| plain(m, r)).collect();
    let body = plain(m, r).json.to_string().into_bytes();
    let kinds = ["no-length", "bad-length", "negative", "overflow", "empty-header", "bad-json", "cut-json", "not-a-message", "unknown-method", "zero-length", "bad-utf8-body", "bad-utf8-header", "lowercase-garbage"];
    let kind = *r.pick(&kinds);
    let bad: Vec<u8> = match kind {
        "no-length" => b"Content-Type: application/json\r\n\r\n".to_vec(),
        "bad-length" => format!("Content-Length: {}\r\n\r\n", ["abc", "", "1x", "0x10", "1.5", "1 2"][r.below(6)]).into_bytes(),
        "negative" => b"Content-Length: -5\r\n\r\n".to_vec(),
        "overflow" => b"Content-Length: 99999999999999999999999999\r\n\r\n".to_vec(),
        "empty-header" => b"\r\n".to_vec(),
        "bad-json" => frame(r, b"{\"jsonrpc\": nope}"),
        "cut-json" => { let k = r.below(body.len()); frame(r, &body[..k]) },
        "not-a-message" => { let b = [&b"{}"[..], b"[]", b"1", b"null", b"{\"jsonrpc\":\"2.0\",\"id\":1}", b"\"x\""][r.below(6)]; frame(r, b) },
        "unknown-method" => frame(r, b"{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"no/such\"}"),
        "zero-length" => b"Content-Length: 0\r\n\r\n".to_vec(),
        "bad-utf8-body" => frame(r, b"{\"jsonrpc\":\"2.0\",\"id\":\"\xff\xfe\",\"method\":\"ping\"}"),
        "bad-utf8-header" => b"X-\xff\xfe: y\r\n\r\n".to_vec(),
        _ => b"garbage line without colon\r\n\r\n".to_vec(),
    };
    let mut all = vec![];
    for g in &before { all.extend(frame(r, g.json.to_string().as_bytes())); }
    all.extend(&bad);
    for g in &after { all.extend(frame(r, g.json.to_string().as_bytes())); }
    let c = cuts(r, all.len());
    let mut p = spawn("echo", 8);
    let k = feed(&mut p, &all, &c, true);
    m.count("enforced_read_boundaries", k as u64);
    m.case((&all, &c), true);
    m.count("damaged_streams", 1);
    let what = format!("{kind}: {} bytes in {} pieces: {}", all.len(), c.len(), String::from_utf8_lossy(&all).chars().take(400).collect::<String>());
    m.sample(kind, || what.clone());
    if let Some(s) = finish(m, p, &what) {
        judge_common(m, &s, &what);
        let want: Vec<Value> = before.iter().chain(&after).map(|g| g.json.clone()).collect();
        m.check(s.msgs == want, "damaged-neighbours", || format!("received {:?} want {want:?}; {what}", s.msgs));
        // the error is reported between the neighbours
        let pos = s.events.iter().position(|e| e.starts_with("ERR")).unwrap_or(usize::MAX);
        m.check(pos == before.len(), "damage-reported", || format!("events {:?}; {what}", s.events));
        let errs: Vec<_> = s.events.iter().filter(|e| e.starts_with("ERR")).collect();
        m.check(errs.len() >= 2 && errs.last() == Some(&&"ERR true false".to_string()), "damage-error-count", || format!("{:?}; {what}", s.events));
    }
}
/// Lengths that are not the body's, or input that ends inside a frame: what was complete before is
/// received, then an error, and nothing that was never written as a frame.
fn tail(m: &Arc<Mon>, r: &mut Rng, _i: usize) {
    let before: Vec<Gen> = (0..r.range(0, 3)).map(|_| plain(m, r)).collect();
    let after: Vec<Gen> = (0..r.range(0, 2)).map(|_| plain(m, r)).collect();
    let body = plain(m, r).json.to_string().into_bytes();
    let kinds = ["length-short", "length-long", "eof-in-body", "eof-in-header", "eof-after-header", "huge", "usize-max", "isize-max"];
    let kind = *r.pick(&kinds);
    let hdr = |n: u64| format!("Content-Length: {n}\r\n\r\n").into_bytes();
    let mut with_after = false;
    let bad: Vec<u8> = match kind {
        "length-short" => { with_after = true; let k = r.below(body.len()) as u64; [hdr(k), body.clone()].concat() },
        "length-long" => { with_after = true; let k = body.len() as u64 + r.range(1, 60) as u64; [hdr(k), body.clone()].concat() },
        "eof-in-body" => { let k = r.below(body.len()); [hdr(body.len() as u64), body[..k].to_vec()].concat() },
        "eof-in-header" => { let h = hdr(body.len() as u64); let k = r.range(1, h.len() - 1); h[..k].to_vec() },
        "eof-after-header" => hdr(body.len() as u64),
        "huge" => [hdr(1 << r.range(33, 62)), body.clone()].concat(),
        "usize-max" => [hdr(u64::MAX), body.clone()].concat(),
        _ => [hdr(i64::MAX as u64 - r.below(3) as u64), body.clone()].concat(),
    };
    let mut all = vec![];
    for g in &before { all.extend(frame(r, g.json.to_string().as_bytes())); }
    all.extend(&bad);
    if with_after { for g in &after { all.extend(frame(r, g.json.to_string().as_bytes())); } }
    let c = cuts(r, all.len());
    let mut p = spawn("echo", 8);
    let k = feed(&mut p, &all, &c, true);
    m.count("enforced_read_boundaries", k as u64);
    m.case((&all, &c), true);
    m.count("misframed_streams", 1);
    let what = format!("{kind}: {} bytes in {} pieces: {}", all.len(), c.len(), String::from_utf8_lossy(&all).chars().take(400).collect::<String>());
    m.sample(kind, || what.clone());
    if let Some(s) = finish(m, p, &what) {
        judge_common(m, &s, &what);
        let b: Vec<Value> = before.iter().map(|g| g.json.clone()).collect();
        m.check(s.msgs.len() >= b.len() && s.msgs[..b.len()] == b[..], "misframed-before", || format!("received {:?} want first {b:?}; {what}", s.msgs));
        m.check(s.events.get(b.len()).is_some_and(|e| e.starts_with("ERR")), "misframe-reported", || format!("events {:?}; {what}", s.events));
        // nothing fabricated: what follows is a subsequence of the frames written afterwards
        let mut it = after.iter().filter(|_| with_after);
        for x in &s.msgs[b.len().min(s.msgs.len())..] {
            m.check(it.any(|g| g.json == *x), "fabricated-message", || format!("{x}; {what}"));
        }
    }
}
fn closing(m: &Arc<Mon>, r: &mut Rng) {
    let g = plain(m, r);
    let mut all = frame(r, g.json.to_string().as_bytes());
    let one = all.clone();
    all.extend(&one); // more input is waiting when it closes
    let mut p = spawn("close", 4);
    let len = all.len();
    let _ = feed(&mut p, &all, &[len], false);
    m.case(("close", &all), true);
    m.count("closings", 1);
    if let Some(s) = finish(m, p, "closing") {
        m.check(s.code == Some(0) && !s.raw.contains("PANIC"), "process-died", || s.raw.clone());
        let want = ["MSG", "CLOSE true false", "SEND true", "RECV true", "SEND true", "RECV true", "END false"];
        m.check(s.events == want, "after-close", || format!("{:?}", s.events));
        match frames(&s.out) { Ok(f) => { m.check(f == [g.json.clone()], "written-after-close", || format!("{f:?}")); }, Err(e) => m.fail("written-framing", e) }
    }
}
