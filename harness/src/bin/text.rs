//! C27 event-stream parsing, C28 URI templates, C32 request context, C37 fast JSON.
use mon::{Check, Mon, Rng};
use pmcp::shared::context::{ClientInfo, ContextPropagator, RequestContext};
use pmcp::shared::sse_parser::{SseEvent, SseParser, SseStream};
use pmcp::shared::uri_template::UriTemplate;
use pmcp::types::RequestId;
use pmcp::utils::json_simd;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Arc;

fn main() {
    mon::main(&[
        Check { id: "C27", rule: "one stream of text under several chunkings, or one rendered event; non-trivial when at least one event is dispatched", run: c27 },
        Check { id: "C28", rule: "one template with one set of values, one URI, or one malformed template; non-trivial when the template has an expression", run: c28 },
        Check { id: "C32", rule: "one context sent through headers, one hostile header map, or one task reading its context; non-trivial when a context results", run: c32 },
        Check { id: "C37", rule: "one document through the fast and the standard parser, or one value through the fast printers; non-trivial when it is valid JSON", run: c37 },
    ]);
}

// ---------------------------------------------------------------- C27

/// Event-stream interpretation after the HTML standard, written over the whole text at once. Differences the SDK
/// documents or its users rely on: the SDK keeps the per-event retry and an event type that was given but empty,
/// reports an event whose data field was given but empty, and reports the connection's last id with each event.
fn reference(text: &str, mut last_id: Option<String>) -> (Vec<SseEvent>, Option<String>) {
    let text = text.strip_prefix('\u{feff}').unwrap_or(text);
    let mut lines = vec![];
    let mut line = String::new();
    let mut it = text.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '\r' => {
                if it.peek() == Some(&'\n') {
                    it.next();
                }
                lines.push(std::mem::take(&mut line));
            },
            '\n' => lines.push(std::mem::take(&mut line)),
            c => line.push(c),
        }
    }
    let (mut out, mut data, mut event, mut retry) = (vec![], None::<Vec<String>>, None, None);
    for l in lines {
        if l.is_empty() {
            if let Some(d) = data.take() {
                out.push(SseEvent { id: last_id.clone(), event: event.take(), data: d.join("\n"), retry: retry.take() });
            }
            event = None;
            retry = None;
            continue;
        }
        let (f, v) = match l.split_once(':') {
            Some((f, v)) => (f, v.strip_prefix(' ').unwrap_or(v)),
            None => (l.as_str(), ""),
        };
        match f {
            "data" => data.get_or_insert_with(Vec::new).push(v.to_string()),
            "event" => event = Some(v.to_string()),
            "id" if !v.contains('\0') => last_id = Some(v.to_string()),
            "retry" if !v.is_empty() && v.chars().all(|c| c.is_ascii_digit()) => {
                if let Ok(n) = v.parse() {
                    retry = Some(n);
                }
            },
            _ => {},
        }
    }
    (out, last_id)
}

fn sse_text(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 6) {
        s.push('\u{feff}');
    }
    let eol_mode = r.below(5);
    let n = r.range(1, 14);
    for _ in 0..n {
        let value = match r.below(9) {
            8 => r.pick(&[": x", ":", ":: y", " : z", "data: w", "\t tab"]).to_string(),
            0 => String::new(),
            1 => " two spaces ".into(),
            2 => format!("a:{}", r.ident(4)),
            3 => "é世🦀\u{feff}".into(),
            4 => "x\0y".into(),
            5 => r.below(100_000).to_string(),
            6 => r.string(8).replace(['\r', '\n'], "_"),
            _ => r.ident(6),
        };
        let line = match r.below(22) {
            0..=5 => format!("data:{}{value}", if r.bool() { " " } else { "" }),
            6 => "data".into(),
            7 | 8 => format!("event:{}{value}", if r.bool() { " " } else { "" }),
            9 | 10 => format!("id:{}{value}", if r.bool() { " " } else { "" }),
            11 => "id".into(),
            12 => format!("retry: {}", r.pick(&["10", "0", "+5", "-1", "1.5", "١٢", "18446744073709551615", "18446744073709551616", "", " 7", "7 ", "0x10", "00012"])),
            13 => format!(":{value}"),
            14 => format!("{}: {value}", r.pick(&["Data", "DATA", " data", "data ", "dat", "datas", "\u{feff}data", "iD", "x", "événement"])),
            15 => value,
            16 => "event".into(),
            _ => String::new(),
        };
        s.push_str(&line);
        s.push_str(match eol_mode {
            0 => "\n",
            1 => "\r\n",
            2 => "\r",
            _ => *r.pick(&["\n", "\r\n", "\r", "\n\n", "\r\r", "\r\n\r\n", "\n\r", "\r\n\n"]),
        });
    }
    match r.below(4) {
        0 => s.push_str("data: unterminated"),
        1 => s.push_str("\r\n\r\n"),
        2 => s.push_str("\n\n"),
        _ => {},
    }
    s
}

fn chars_soup(r: &mut Rng) -> String {
    let n = r.range(0, 60);
    (0..n).map(|_| *r.pick(&['\r', '\n', '\n', ':', ' ', 'd', 'a', 't', 'a', 'e', 'v', 'n', 'i', 'd', '\u{feff}', '\0', 'é', '5', '🦀'])).collect()
}

/// A chunk boundary set in characters.
fn char_chunks(r: &mut Rng, text: &str) -> Vec<String> {
    let cs: Vec<char> = text.chars().collect();
    let mut at = 0;
    let mut out = vec![];
    for e in r.splits(cs.len()) {
        out.push(cs[at..e].iter().collect());
        at = e;
        if r.chance(1, 12) {
            out.push(String::new());
        }
    }
    out
}

fn c27(m: &Arc<Mon>) {
    let mut r = m.rng("c27");
    m.stage("streams");
    let n = m.n(40_000, 1_500_000);
    for i in 0..n {
        if m.stopped() {
            return;
        }
        let text = match r.below(8) {
            0 => chars_soup(&mut r),
            1 => r.string(60),
            _ => sse_text(&mut r),
        };
        let (want, want_id) = reference(&text, None);
        m.case(&text, !want.is_empty());
        m.count("events expected", want.len() as u64);
        m.sample("stream", || format!("{text:?} -> {want:?}"));
        // in one piece, in characters, in bytes
        for mode in 0..4 {
            let got = m.guard("C27-panic", || format!("{text:?}"), || {
                let mut p = if mode == 2 { SseParser::default() } else { SseParser::new() };
                let mut got = vec![];
                let mut fed = String::new();
                match mode {
                    0 => got.extend(p.feed(&text)),
                    1 => {
                        for c in char_chunks(&mut r, &text) {
                            got.extend(p.feed(&c));
                            fed.push_str(&c);
                            // nothing is withheld: what the text so far defines has been reported
                            if i % 4 == 0 {
                                let (sofar, id) = reference(&fed, None);
                                m.check(got == sofar, "C27-prefix", || format!("after {fed:?} of {text:?}: got {got:?}, want {sofar:?}"));
                                m.check(p.last_event_id() == id.as_deref(), "C27-last-id-prefix", || format!("after {fed:?}: {:?} vs {id:?}", p.last_event_id()));
                                m.count("prefixes compared", 1);
                            }
                        }
                    },
                    _ => {
                        let mut at = 0;
                        let b = text.as_bytes();
                        for e in r.splits(b.len()) {
                            got.extend(p.feed_bytes(&b[at..e]));
                            at = e;
                        }
                        m.count("byte chunkings", 1);
                    },
                }
                (got, p.last_event_id().map(str::to_string))
            });
            let Some((got, id)) = got else { continue };
            let sig = ["C27-whole", "C27-chars", "C27-bytes", "C27-bytes"][mode];
            m.eq(&got, &want, sig, || format!("text {text:?}"));
            m.eq(&id, &want_id, "C27-last-id", || format!("text {text:?}"));
        }
        // a second stream after a reset starts afresh but keeps the last id for reconnection
        if r.chance(1, 4) {
            let second = sse_text(&mut r);
            let mut p = SseParser::new();
            let cut: String = text.chars().take(r.below(text.chars().count() + 1)).collect();
            // the stream that is given up may end inside a character
            if r.bool() { p.feed(&cut); } else {
                p.feed_bytes(cut.as_bytes());
                let c = r.pick(&["é", "€", "😀", "日"]).as_bytes();
                p.feed_bytes(&c[..r.range(1, c.len() - 1)]);
            }
            let keep = p.last_event_id().map(str::to_string);
            p.reset();
            m.eq(&p.last_event_id().map(str::to_string), &keep, "C27-reset-id", || format!("{cut:?}"));
            let got = if r.bool() { p.feed(&second) } else { p.feed_bytes(second.as_bytes()) };
            let (want, _) = reference(&second, keep);
            m.eq(&got, &want, "C27-reset", || format!("after {cut:?}, reset, {second:?}"));
            m.count("resets", 1);
        }
        // arbitrary bytes: no panic, whatever the split
        if r.chance(1, 3) {
            let mut b = r.bytes(60);
            for x in b.iter_mut() {
                if r.chance(1, 3) {
                    *x = *r.pick(b"\r\n:data: id\xe2\x82\xc3\xf0\x9f\xff\xbf");
                }
            }
            m.guard("C27-bytes-panic", || format!("{b:?}"), || {
                let mut p = SseParser::new();
                let mut at = 0;
                for e in r.splits(b.len()) {
                    p.feed_bytes(&b[at..e]);
                    at = e;
                }
                p.feed("\n\n");
            });
            m.count("arbitrary byte streams", 1);
        }
    }
    m.stage("long lines");
    for len in [1000usize, 65_537, 300_000] {
        let body: String = (0..len).map(|_| *r.pick(&['a', 'é', ' ', ':'])).collect();
        let text = format!("id: 7\r\ndata: {body}\r\n\r\n");
        let mut p = SseParser::new();
        let mut got = vec![];
        let mut at = 0;
        while at < text.len() {
            let e = (at + r.range(1, 4000)).min(text.len());
            got.extend(p.feed_bytes(&text.as_bytes()[at..e]));
            at = e;
        }
        let (want, _) = reference(&text, None);
        m.case(len, true);
        m.check(got == want, "C27-long", || format!("line of {len} characters: {} events", got.len()));
    }
    m.stage("rendering");
    let n = m.n(20_000, 600_000);
    for _ in 0..n {
        if m.stopped() {
            return;
        }
        let hostile = |r: &mut Rng| match r.below(7) {
            0 => String::new(),
            1 => "a\r\ndata: smuggled\r\n\r\n".to_string(),
            2 => "x\nid: 9\nevent: y\n\ndata: z\n\n".to_string(),
            3 => format!(" {}\r", r.ident(3)),
            4 => chars_soup(r),
            _ => r.string(12),
        };
        let count = r.range(1, 4);
        let events: Vec<SseEvent> = (0..count)
            .map(|_| {
                let mut e = SseEvent::new(hostile(&mut r));
                if r.bool() {
                    e = e.with_id(hostile(&mut r).replace('\0', ""));
                }
                if r.bool() {
                    e = e.with_event(hostile(&mut r));
                }
                if r.chance(1, 3) {
                    e = e.with_retry(*r.pick(&[0, 1, 3000, u64::MAX]));
                }
                e
            })
            .collect();
        let clean = |s: &str| s.replace(['\r', '\n'], "");
        let mut id = None;
        let want: Vec<SseEvent> = events
            .iter()
            .map(|e| {
                if let Some(i) = &e.id {
                    id = Some(clean(i));
                }
                SseEvent { id: id.clone(), event: e.event.as_deref().map(clean), data: e.data.replace("\r\n", "\n").replace('\r', "\n"), retry: e.retry }
            })
            .collect();
        let mut s = SseStream::new();
        for e in &events {
            s = match (&e.id, &e.event, e.retry) {
                (None, None, None) => s.data(e.data.clone()),
                (None, Some(t), None) => s.typed_event(t.clone(), e.data.clone()),
                _ => s.event(e.clone()),
            };
            if r.chance(1, 4) {
                s = s.comment("keep\nalive");
            }
        }
        let text = s.build();
        m.case(&text, true);
        m.sample("rendered", || format!("{events:?} -> {text:?}"));
        let mut p = SseParser::new();
        let got = p.feed(&text);
        m.eq(&got, &want, "C27-render", || format!("{events:?} rendered as {text:?}"));
        let single: String = events.iter().map(|e| e.to_string()).collect();
        m.eq(&reference(&single, None).0, &want, "C27-display", || format!("{events:?} rendered as {single:?}"));
    }
}

// ---------------------------------------------------------------- C28

const OPS: [&str; 8] = ["", "+", "#", ".", "/", ";", "?", "&"];

#[derive(Clone, Debug)]
enum Modi {
    None,
    Explode,
    Prefix(usize),
}
#[derive(Clone, Debug)]
enum Part {
    Lit(String),
    Expr(&'static str, Vec<(String, Modi)>),
}

fn template_text(parts: &[Part]) -> String {
    let mut s = String::new();
    for p in parts {
        match p {
            Part::Lit(l) => s.push_str(l),
            Part::Expr(op, vs) => {
                let v: Vec<String> = vs
                    .iter()
                    .map(|(n, md)| match md {
                        Modi::None => n.clone(),
                        Modi::Explode => format!("{n}*"),
                        Modi::Prefix(k) => format!("{n}:{k}"),
                    })
                    .collect();
                s.push_str(&format!("{{{op}{}}}", v.join(",")));
            },
        }
    }
    s
}

/// Percent-encoding of RFC 6570: unreserved characters stay; with `reserved`, reserved ones and triplets too.
fn pct(v: &str, reserved: bool) -> String {
    let b = v.as_bytes();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let unres = c.is_ascii_alphanumeric() || matches!(c, b'-' | b'.' | b'_' | b'~');
        let res = matches!(c, b':' | b'/' | b'?' | b'#' | b'[' | b']' | b'@' | b'!' | b'$' | b'&' | b'\'' | b'(' | b')' | b'*' | b'+' | b',' | b';' | b'=');
        if unres || reserved && res {
            out.push(c as char);
        } else if reserved && c == b'%' && i + 2 < b.len() && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
            out.push_str(&v[i..i + 3]);
            i += 2;
        } else {
            out.push_str(&format!("%{c:02X}"));
        }
        i += 1;
    }
    out
}

fn unpct(v: &str) -> Vec<u8> {
    let b = v.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
            out.push(u8::from_str_radix(&v[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

/// RFC 6570 section 3.2 for string values.
fn expand(parts: &[Part], vals: &HashMap<String, String>) -> String {
    let mut out = String::new();
    for p in parts {
        let (op, vs) = match p {
            Part::Lit(l) => {
                out.push_str(l);
                continue;
            },
            Part::Expr(op, vs) => (*op, vs),
        };
        let (first, sep, named, ifemp, reserved) = match op {
            "" => ("", ",", false, "", false),
            "+" => ("", ",", false, "", true),
            "#" => ("#", ",", false, "", true),
            "." => (".", ".", false, "", false),
            "/" => ("/", "/", false, "", false),
            ";" => (";", ";", true, "", false),
            "?" => ("?", "&", true, "=", false),
            _ => ("&", "&", true, "=", false),
        };
        let mut any = false;
        for (n, md) in vs {
            let Some(v) = vals.get(n) else { continue };
            out.push_str(if any { sep } else { first });
            any = true;
            let v: String = match md {
                Modi::Prefix(k) => v.chars().take(*k).collect(),
                _ => v.clone(),
            };
            if named {
                out.push_str(n);
                out.push_str(if v.is_empty() { ifemp } else { "=" });
            }
            out.push_str(&pct(&v, reserved));
        }
    }
    out
}

fn literal(r: &mut Rng) -> String {
    let n = r.range(1, 6);
    (0..n).map(|_| (*r.pick(&["a", "Z", "0", "-", ".", "_", "~", "/", ":", "?", "#", "&", "=", "%20", "+", "*", "(", ")", "$", "!", "@", ",", ";", "[", "]", "/x", "v1/"])).to_string()).collect()
}

fn parts(r: &mut Rng) -> Vec<Part> {
    let n = r.range(1, 5);
    (0..n)
        .map(|_| {
            if r.chance(2, 5) {
                return Part::Lit(literal(r));
            }
            let op = *r.pick(&OPS);
            let k = if r.bool() { 1 } else { r.range(2, 4) };
            let vs = (0..k)
                .map(|_| {
                    let md = match r.below(5) {
                        0 => Modi::Explode,
                        1 => Modi::Prefix(*r.pick(&[1, 2, 3, 5, 10, 100, 255, 256, 257, 1024, 9999, 10_000])),
                        _ => Modi::None,
                    };
                    (r.pick(&["a", "b", "var", "x1", "_y", "Long_Name9"]).to_string(), md)
                })
                .collect();
            Part::Expr(op, vs)
        })
        .collect()
}

fn value(r: &mut Rng) -> String {
    let kinds = if r.chance(1, 12) { 10 } else { 9 };
    match r.below(kinds) {
        9 => { let n = *r.pick(&[99, 101, 255, 256, 300, 1025, 9_999, 10_001, 10_500]); (0..n).map(|_| *r.pick(&['a', 'é', '/', 'z'])).collect() },
        0 => String::new(),
        1 => "a/b?c=d&e#f".into(),
        2 => "100%".into(),
        3 => "%2F%zz%4".into(),
        4 => "é世🦀".into(),
        5 => "../{x},;=".into(),
        6 => r.string(10),
        _ => r.ident(8),
    }
}

fn c28(m: &Arc<Mon>) {
    let mut r = m.rng("c28");
    m.stage("expansion");
    let n = m.n(15_000, 600_000);
    for _ in 0..n {
        if m.stopped() {
            return;
        }
        let mut ps = parts(&mut r);
        let mut vals = HashMap::new();
        for v in ["a", "b", "var", "x1", "_y", "Long_Name9"] {
            if r.chance(4, 5) {
                vals.insert(v.to_string(), value(&mut r));
            }
        }
        // A prefix that could cut a triplet in two is left out (its result depends on how triplets are counted).
        for p in &mut ps {
            if let Part::Expr("+" | "#", vs) = p {
                for (n, md) in vs {
                    if matches!(md, Modi::Prefix(_)) && vals.get(n).is_some_and(|v| v.contains('%')) {
                        *md = Modi::None;
                    }
                }
            }
        }
        let text = template_text(&ps);
        let want = expand(&ps, &vals);
        m.case((&text, &want), ps.iter().any(|p| matches!(p, Part::Expr(..))));
        m.sample("expansion", || format!("{text:?} with {vals:?} -> {want:?}"));
        let ctx = || format!("template {text:?}, values {vals:?}");
        let t = match m.guard("C28-new-panic", ctx, || UriTemplate::new(text.clone())) {
            Some(Ok(t)) => t,
            Some(Err(e)) => {
                m.fail("C28-valid-rejected", format!("{text:?}: {e}"));
                continue;
            },
            None => continue,
        };
        let list: Vec<(String, String)> = vals.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        if let Some(got) = m.guard("C28-expand-panic", ctx, || (t.expand(&list), t.expand_with_map(&vals))) {
            m.eq(&got.0.as_ref().ok(), &Some(&want), "C28-expand", ctx);
            m.eq(&got.1.as_ref().ok(), &Some(&want), "C28-expand-map", ctx);
        }
        for p in &ps {
            if let Part::Expr(op, vs) = p {
                m.count(&format!("expressions with operator {op:?}"), 1);
                m.count("variables undefined", vs.iter().filter(|(n, _)| !vals.contains_key(n)).count() as u64);
            }
        }
        let names: Vec<String> = ps.iter().filter_map(|p| if let Part::Expr(_, vs) = p { Some(vs) } else { None }).flatten().map(|(n, _)| n.clone()).collect();
        m.eq(&t.variables(), &names, "C28-variables", || text.clone());
        m.eq(&t.to_string(), &text, "C28-display", || text.clone());
        let js = serde_json::to_value(&t).unwrap();
        m.eq(&js, &json!(text), "C28-serialize", || text.clone());
        m.check(serde_json::from_value::<UriTemplate>(js).is_ok_and(|u| u == t), "C28-deserialize", || text.clone());
        // Matching: own expansion, another URI, a mutated one
        for k in 0..4 {
            let uri = match k {
                0 => want.clone(),
                // one of the characters that mean something to a pattern, replaced, dropped or doubled
                2 => {
                    let mut cs: Vec<char> = want.chars().collect();
                    let at: Vec<usize> = (0..cs.len()).filter(|i| ".+*?()[]^$|\\".contains(cs[*i])).collect();
                    if at.is_empty() {
                        continue;
                    }
                    let at = *r.pick(&at);
                    match r.below(4) {
                        0 => drop(cs.remove(at)),
                        1 => cs.insert(at, cs[at]),
                        _ => cs[at] = *r.pick(&['a', 'z', '0', '-', 'é']),
                    }
                    cs.into_iter().collect()
                },
                1 => {
                    let mut cs: Vec<char> = want.chars().collect();
                    for _ in 0..r.range(1, 3) {
                        let at = r.below(cs.len() + 1);
                        match r.below(3) {
                            0 if at < cs.len() => {
                                cs.remove(at);
                            },
                            1 if at < cs.len() => cs[at] = *r.pick(&['/', '?', '=', '%', 'a', ',', '.']),
                            _ => cs.insert(at, *r.pick(&['/', '&', '#', '%', 'z', ';', 'é', '\n'])),
                        }
                    }
                    cs.into_iter().collect()
                },
                _ => format!("{}{}", literal(&mut r), r.string(6)),
            };
            let Some(res) = m.guard("C28-match-panic", || format!("{text:?} on {uri:?}"), || t.match_uri(&uri)) else { continue };
            m.count(if res.is_some() { "matches" } else { "match failures" }, 1);
            if let Some(vars) = res {
                let back = expand(&ps, &vars);
                m.check(unpct(&back) == unpct(&uri), "C28-match-sound", || format!("{text:?} on {uri:?} gives {vars:?}, which expand to {back:?}"));
            }
        }
    }

    m.stage("unambiguous matching");
    let n = m.n(12_000, 400_000);
    for i in 0..n {
        if m.stopped() {
            return;
        }
        // literals separate the variables; values hold no delimiters
        let mut ps = vec![];
        let mut vals = HashMap::new();
        let word = |r: &mut Rng| -> String {
            let n = r.range(1, 6);
            (0..n).map(|_| *r.pick(&['a', 'k', 'Z', '3', '0', 'é', '世', '🦀', 'q'])).collect()
        };
        let mut fresh = 0;
        let mut name = || {
            fresh += 1;
            format!("v{fresh}")
        };
        ps.push(Part::Lit(format!("{}x/", r.pick(&["", "/", "file:///", "res://h/"]))));
        let n = r.range(1, 4);
        for j in 0..n {
            if j > 0 {
                ps.push(Part::Lit(r.pick(&["/", "-", "/lit/", "/a-"]).to_string()));
            }
            let op = *r.pick(&["", "", "+", ".", "/", ";"]);
            let k = if op == "+" || r.bool() { 1 } else { r.range(2, 3) };
            let vs: Vec<_> = (0..k).map(|_| (name(), if r.chance(1, 6) { Modi::Explode } else { Modi::None })).collect();
            for (v, _) in &vs {
                // several named variables may be undefined in part
                if !(op == ";" && k > 1 && r.chance(1, 3)) {
                    vals.insert(v.clone(), word(&mut r));
                }
            }
            ps.push(Part::Expr(op, vs));
        }
        if r.bool() {
            let k = r.range(1, 3);
            let vs: Vec<_> = (0..k).map(|_| (name(), Modi::None)).collect();
            for (v, _) in &vs {
                if !(k > 1 && r.chance(1, 3)) {
                    vals.insert(v.clone(), word(&mut r));
                }
            }
            ps.push(Part::Expr("?", vs));
            if r.chance(1, 3) {
                let v = name();
                vals.insert(v.clone(), word(&mut r));
                // a continuation needs a query before it to be a sensible URI
                ps.push(Part::Expr("&", vec![(v, Modi::None)]));
            }
        }
        if r.chance(1, 3) {
            let v = name();
            vals.insert(v.clone(), word(&mut r));
            ps.push(Part::Expr("#", vec![(v, Modi::None)]));
        }
        let text = template_text(&ps);
        let uri = expand(&ps, &vals);
        m.case((&text, &uri), true);
        m.sample("match", || format!("{text:?} on {uri:?} -> {vals:?}"));
        let Ok(t) = UriTemplate::new(text.clone()) else {
            m.fail("C28-valid-rejected", &text);
            continue;
        };
        let got = t.match_uri(&uri);
        m.check(got.as_ref() == Some(&vals), "C28-match-back", || format!("{text:?} on {uri:?}: got {got:?}, want {vals:?}"));
        m.count("matched back", u64::from(got.is_some()));
        // delimiters in a simple value are encoded, so they come back as part of that value only
        if i % 3 == 0 {
            let t = UriTemplate::new("/p/{x}/q/{y}").unwrap();
            let (x, y) = (value(&mut r), value(&mut r));
            if !x.is_empty() && !y.is_empty() {
                let uri = t.expand(&[("x", x.as_str()), ("y", y.as_str())]).unwrap();
                m.check(uri.matches('/').count() == 4, "C28-delimiter", || uri.clone());
                let got = t.match_uri(&uri);
                m.check(got.as_ref().is_some_and(|g| g["x"] == x && g["y"] == y && g.len() == 2), "C28-simple-value", || format!("{x:?} {y:?} via {uri:?}: {got:?}"));
            }
        }
    }

    m.stage("malformed");
    let n = m.n(12_000, 400_000);
    for i in 0..n {
        if m.stopped() {
            return;
        }
        let lit = literal(&mut r).replace(['{', '}'], "");
        let bad = match r.below(9) {
            0 => format!("{lit}{{a"),
            1 => format!("{lit}a}}"),
            2 => format!("{lit}{{}}{lit}"),
            3 => format!("{lit}{{{}}}", r.pick(&["+", "#", ".", "/", ";", "?", "&"])),
            4 => format!("{lit}{{{}}}", r.pick(&["a b", "a-b", "a$", "é", "a!", "1 2", "=a", "!a", "@a", "|a", "a,,b", ",a", "a,", "a:b:3", "a**", "*a", "*", "a*b", "a:3*"])),
            5 => format!("{{a:{}}}", r.pick(&["", "0", "x", "-1", "10001", "99999", "1.5", "18446744073709551616", "３"])),
            6 => format!("{{a{{b}}}}{lit}"),
            7 => if r.bool() { format!("{{a}}}}{{b}}") } else { let c = *r.pick(&["?", "&", "+", "#", "/", ";", "=", "!", "@", "|", "-", "%", "~", "\\", "'", "\"", "(", "$", "."]); let n = r.ident(3); let at = r.below(n.len()) + 1; let bare = format!("{}{c}{}", &n[..at], &n[at..]); if c == "." { format!("{{{n}.}}") } else { match r.below(3) { 0 => format!("{{{bare}}}{lit}"), 1 => format!("{{x,{bare}:3}}"), _ => format!("{{+{bare}*,y}}") } } },
            _ => format!("{lit}{{?a,b:0}}"),
        };
        m.case(&bad, true);
        m.sample("malformed", || bad.clone());
        match m.guard("C28-malformed-panic", || bad.clone(), || UriTemplate::new(bad.clone())) {
            Some(Ok(_)) => m.fail("C28-malformed-accepted", format!("{bad:?}")),
            Some(Err(_)) => m.count("malformed rejected", 1),
            None => {},
        }
        m.check(serde_json::from_value::<UriTemplate>(json!(bad)).is_err(), "C28-malformed-deserialized", || bad.clone());
        // anything at all: no panic
        if i % 2 == 0 {
            let n = r.below(24);
            let soup: String = (0..n).map(|_| *r.pick(&['{', '}', '{', '}', 'a', 'b', ',', ':', '*', '3', '0', '+', '?', '&', '/', 'é', '%', '\\', '(', '[', '\n'])).collect();
            m.guard("C28-soup-panic", || soup.clone(), || {
                if let Ok(t) = UriTemplate::new(soup.clone()) {
                    m.count("random text accepted", 1);
                    let _ = t.expand(&[("a", "é/1"), ("b", "")]);
                    let _ = t.match_uri(&soup);
                    let _ = t.match_uri("a/b?x=1");
                    let _ = t.variables();
                }
            });
        }
    }
}

// ---------------------------------------------------------------- C32

fn context(r: &mut Rng) -> RequestContext {
    let id = match r.below(4) {
        0 => RequestId::from(*r.pick(&[0, -1, i64::MAX, i64::MIN])),
        1 => RequestId::from(r.u64() as i64),
        2 => RequestId::from(r.below(1000) as i64),
        _ => RequestId::from(format!("{}-{}", r.pick(&["r", "+r", "0x", "1e", " 7", "00"]), r.string(8))),
    };
    let id = if r.chance(1, 12) { RequestId::from(r.pick(&[" 5", "5 ", "1_000", "5.0", "1e3", "9223372036854775808", "٣", "0x10", "", "--5", "++5", "+-5", "-+5", "5\n"]).to_string()) } else { id };
    let mut c = RequestContext::new(id);
    if r.chance(1, 6) {
        c.trace_id = c.trace_id.to_uppercase();
    }
    if r.chance(1, 20) {
        // crowded
        for k in 0..r.range(40, 300) {
            c = c.with_baggage(format!("k{k}"), k.to_string());
        }
    }
    if r.bool() {
        c = c.with_user_id(r.string(10));
    }
    if r.bool() {
        c = c.with_session_id(r.string(10));
    }
    for _ in 0..r.below(4) {
        c = c.with_baggage(match r.below(8) { 0 | 1 => r.string(6), 2 => format!("baggage-{}", r.ident(3)), 3 => r.pick(&["x-user-id", "traceparent", "A", "a", "", "x-request-id", "user-id", "session-id", "request-id", "trace-id"]).to_string(), _ => r.ident(6) }, r.string(10));
    }
    for _ in 0..r.below(3) {
        c = c.with_metadata(r.ident(5), r.json(1));
    }
    if r.chance(1, 3) {
        c = c.with_client_info(ClientInfo { client_id: r.string(5), version: None, ip_address: Some(r.ident(4)), user_agent: None });
    }
    c
}

fn hex(id: &str) -> String {
    id.replace('-', "")
}

fn c32(m: &Arc<Mon>) {
    let mut r = m.rng("c32");
    m.stage("headers");
    let n = m.n(20_000, 600_000);
    for _ in 0..n {
        if m.stopped() {
            return;
        }
        let mut c = context(&mut r);
        let hops = r.range(1, 4);
        for hop in 0..hops {
            if r.chance(1, 4) {
                let k = c.child();
                m.check(
                    k.trace_id == c.trace_id && k.parent_span_id.as_ref() == Some(&c.span_id) && k.span_id != c.span_id && k.request_id == c.request_id
                        && k.user_id == c.user_id && k.session_id == c.session_id && k.baggage == c.baggage && k.metadata == c.metadata
                        && k.client_info.as_ref().map(|i| &i.client_id) == c.client_info.as_ref().map(|i| &i.client_id),
                    "C32-child", || format!("{c:?} -> {k:?}"));
                c = k;
            }
            let got = m.guard("C32-headers-panic", || format!("{c:?}"), || {
                let h = if r.bool() { c.to_headers() } else { ContextPropagator::inject(&c) };
                let back = if r.bool() { RequestContext::from_headers(&h) } else { ContextPropagator::extract(&h) };
                (h, back)
            });
            let Some((h, back)) = got else { break };
            m.case(format!("{hop}{h:?}"), back.is_some());
            m.sample("headers", || format!("{h:?}"));
            let Some(b) = back else {
                m.fail("C32-lost", format!("{h:?}"));
                break;
            };
            m.eq(&b.trace_id, &c.trace_id, "C32-trace", || format!("hop {hop} {h:?}"));
            m.eq(&b.request_id, &c.request_id, "C32-request-id", || format!("{h:?}"));
            m.eq(&b.user_id, &c.user_id, "C32-user", || format!("{h:?}"));
            m.eq(&b.session_id, &c.session_id, "C32-session", || format!("{h:?}"));
            m.eq(&b.baggage, &c.baggage, "C32-baggage", || format!("{h:?}"));
            let parent = b.parent_span_id.as_deref().map(hex).unwrap_or_default();
            m.check(parent.len() >= 16 && hex(&c.span_id).starts_with(&parent[..16]), "C32-parent", || format!("sender's span {}, parent {parent}; {h:?}", c.span_id));
            m.check(b.span_id != c.span_id && b.span_id.len() == 36, "C32-span", || b.span_id.clone());
            c = b;
        }
    }
    m.stage("built contexts");
    let mut spans = std::collections::HashSet::new();
    for _ in 0..m.n(1500, 40_000) {
        if m.stopped() { return; }
        let id = if r.bool() { RequestId::from(r.u64() as i64) } else { RequestId::from(r.string(6)) };
        let (mut user, mut session, mut client, mut meta, mut baggage) = (None, None, None, HashMap::new(), HashMap::new());
        let mut c = RequestContext::new(id.clone());
        let mut line = vec![c.clone()];
        for _ in 0..if r.chance(1, 60) { r.range(200, 900) } else { r.below(9) } {
            match r.below(7) {
                0 => { let x = r.string(6); user = Some(x.clone()); c = c.with_user_id(x); },
                1 => { let x = r.string(6); session = Some(x.clone()); c = c.with_session_id(x); },
                2 => { let x = json!({"client_id": r.string(4), "version": if r.bool() { json!(r.string(3)) } else { Value::Null }, "ip_address": if r.bool() { json!(r.string(3)) } else { Value::Null }, "user_agent": r.string(3)});
                       client = Some(x.clone()); c = c.with_client_info(serde_json::from_value(x).unwrap()); },
                3 => { let (k, v) = (r.ident(3), r.json(1)); meta.insert(k.clone(), v.clone()); c = c.with_metadata(k, v); },
                4 => { let (k, v) = (r.ident(3), r.string(4)); baggage.insert(k.clone(), v.clone()); c = c.with_baggage(k, v); },
                _ => { c = c.child(); line.push(c.clone()); },
            }
        }
        let want = (&id, &user, &session, client.clone(), &meta, &baggage);
        let got = (&c.request_id, &c.user_id, &c.session_id, c.client_info.as_ref().map(|i| serde_json::to_value(i).unwrap()), &c.metadata, &c.baggage);
        m.check(got == want, "C32-built", || format!("{got:?} want {want:?}"));
        for w in line.windows(2) {
            m.check(w[1].trace_id == w[0].trace_id && w[1].parent_span_id.as_ref() == Some(&w[0].span_id) && w[1].request_id == id, "C32-child", || format!("{:?} child of {:?}", w[1], w[0]));
        }
        m.check(line[0].parent_span_id.is_none(), "C32-root-parent", || format!("{:?}", line[0]));
        for x in &line { m.check(spans.insert(x.span_id.clone()), "C32-span-repeated", || x.span_id.clone()); }
        m.check(spans.insert(c.trace_id.clone()), "C32-trace-repeated", || c.trace_id.clone());
        let v = serde_json::to_value(&c).unwrap();
        let back = serde_json::from_value::<RequestContext>(v.clone()).map(|b| serde_json::to_value(b).unwrap()).ok();
        m.check(back.as_ref() == Some(&v), "C32-serialized", || format!("{back:?} for {v}"));
        m.case(("built", format!("{got:?}")), line.len() > 1);
        m.count("contexts built", 1);
    }
    m.stage("hostile headers");
    for _ in 0..n {
        if m.stopped() {
            return;
        }
        let hx = |r: &mut Rng, n: usize| -> String { (0..n).map(|_| *r.pick(&['0', 'a', 'f', '9', 'é', '-', 'G'])).collect() };
        let n1 = *r.pick(&[0, 1, 15, 16, 17, 30, 31, 32, 33]);
        let n2 = *r.pick(&[0, 1, 7, 8, 15, 16, 17, 32]);
        let tp = match r.below(7) {
            // sampled or not, of this version or a later one
            6 => format!("{}-{}-{}-{}", r.pick(&["00", "01", "cc"]), (0..32).map(|_| *r.pick(&['0', 'a', 'f', '9'])).collect::<String>(), (0..16).map(|_| *r.pick(&['1', 'b', '7'])).collect::<String>(), r.pick(&["00", "01", "03", "80"])),
            0 => r.string(60),
            1 => format!("00-{}-{}-01", hx(&mut r, n1).replace('-', "0"), hx(&mut r, n2).replace('-', "b")),
            2 => format!("{}-{}-{}", hx(&mut r, 2), hx(&mut r, n1), hx(&mut r, n2)),
            3 => format!("00-{}é-{}é-01", "a".repeat(30), "b".repeat(14)),
            4 => "-".repeat(r.below(8)),
            _ => format!("00-{}-{}-01-extra", "0123456789abcdef0123456789abcdef", "0123456789abcdef"),
        };
        let mut h: HashMap<String, String> = HashMap::new();
        if r.chance(9, 10) {
            h.insert("traceparent".into(), tp);
        }
        for k in ["x-request-id", "x-user-id", "x-session-id", "baggage-", "baggage-k", "x-baggage-k", "my-baggage-", "baggage", "Traceparent"] {
            if r.bool() {
                h.insert(k.into(), if r.bool() { r.string(12) } else { r.pick(&["", "9223372036854775808", "-0", "+7", "1e3", "NaN"]).to_string() });
            }
        }
        let got = m.guard("C32-hostile-panic", || format!("{h:?}"), || {
            let c = RequestContext::from_headers(&h);
            // and what came out can be sent on
            c.map(|c| (c.child().to_headers(), c))
        });
        let Some(got) = got else { continue };
        m.case(format!("{h:?}"), got.is_some());
        m.count(if got.is_some() { "hostile headers giving a context" } else { "hostile headers giving none" }, 1);
        if let Some((_, c)) = got {
            m.check(c.user_id == h.get("x-user-id").cloned() && c.session_id == h.get("x-session-id").cloned(), "C32-hostile-fields", || format!("{h:?} {c:?}"));
            let bags: HashMap<String, String> = h.iter().filter_map(|(k, v)| Some((k.strip_prefix("baggage-")?.to_string(), v.clone()))).collect();
            m.eq(&c.baggage, &bags, "C32-hostile-baggage", || format!("{h:?}"));
        } else {
            m.check(!h.get("traceparent").is_some_and(|t| t.split('-').count() == 4 && t.is_ascii() && t.len() == 55), "C32-wellformed-refused", || format!("{h:?}"));
        }
    }
    m.stage("foreign ids");
    for _ in 0..m.n(4000, 100_000) {
        // contexts built by the application or read from JSON may carry any ids
        let mut c = context(&mut r);
        c.span_id = match r.below(4) {
            0 => r.string(20),
            1 => r.ident(15),
            2 => "-".repeat(r.below(20)),
            _ => format!("{}é", r.ident(15)),
        };
        c.trace_id = if r.bool() { r.string(40) } else { String::new() };
        let got = m.guard("C32-foreign-panic", || format!("{c:?}"), || RequestContext::from_headers(&c.to_headers()).is_some());
        m.case(format!("{} {}", c.span_id, c.trace_id), got == Some(true));
    }
    m.stage("scopes");
    let rounds = m.n(60, 2000);
    for round in 0..rounds {
        if m.stopped() {
            return;
        }
        let rt = if round % 3 == 0 { mon::crt() } else { mon::mrt(4) };
        let mm = m.clone();
        let seed = r.fork();
        let done = rt.block_on(async move {
            mon::within(async {
                let mut hs = vec![];
                let mut s = seed;
                for t in 0..12i64 {
                    let mm = mm.clone();
                    let rr = s.fork();
                    hs.push(tokio::spawn(async move { scope_task(mm, rr, vec![], t * 1_000_000, Arc::new(AtomicI64::new(400))).await }));
                }
                for h in hs {
                    if h.await.is_err() {
                        mm.fail("C32-task", "a task panicked");
                    }
                }
                mm.check(RequestContext::current().is_none(), "C32-leak", || "context outside every scope".into());
            })
            .await
        });
        m.check(done.is_some(), "C32-hang", || "scoped tasks never finished".into());
        rt.shutdown_background();
    }
}

type Stack = Vec<Value>;
fn whole(c: &RequestContext) -> Value { serde_json::to_value(c).unwrap_or_default() }

fn expect(m: &Mon, stack: &Stack) {
    let cur = RequestContext::current();
    let got = cur.as_ref().map(|c| whole(c));
    m.case((format!("{:?}", stack.last().map(|s| &s["request_id"])), stack.len()), got.is_some());
    m.count("context reads", 1);
    m.max("deepest scope", stack.len() as u64);
    m.check(got.as_ref() == stack.last(), "C32-scope", || format!("got {got:?}, want {:?} (depth {})", stack.last(), stack.len()));
}

/// A random walk that opens scopes, yields, spawns, races and aborts, reading its context at each step.
fn scope_task(m: Arc<Mon>, mut r: Rng, stack: Stack, base: i64, budget: Arc<AtomicI64>) -> std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send>> {
    Box::pin(async move {
        let steps = r.range(3, 8);
        for k in 0..steps {
            expect(&m, &stack);
            if budget.fetch_sub(1, Ordering::Relaxed) <= 0 {
                break;
            }
            match r.below(9) {
                0 => tokio::task::yield_now().await,
                1 => tokio::time::sleep(std::time::Duration::from_micros(r.below(300) as u64)).await,
                2..=4 if stack.len() < 6 => {
                    let id = RequestId::from(base + (stack.len() as i64) * 1000 + k as i64);
                    // a new request, or the same one with something changed
                    let c = match RequestContext::current() {
                        Some(c) if r.bool() => { let c = (*c).clone(); let x = r.ident(3); match r.below(5) { 0 => c.with_metadata("k".into(), json!(x)), 1 => c.with_baggage("k".into(), x), 2 => c.with_session_id(x), 3 => c.child(), _ => c.with_user_id(x) } },
                        _ => RequestContext::new(id.clone()).with_user_id(r.ident(5)).with_metadata("k".into(), json!(0)).with_baggage("k".into(), "0".into()),
                    };
                    let mut inner = stack.clone();
                    inner.push(whole(&c));
                    let f = scope_task(m.clone(), r.fork(), inner.clone(), base, budget.clone());
                    if r.bool() {
                        c.run(f).await;
                    } else {
                        let want = inner.len();
                        let got = pmcp::with_context!(c, {
                            f.await;
                            want
                        });
                        m.check(got == want, "C32-macro-value", String::new);
                    }
                    m.count("scopes opened", 1);
                },
                5 if stack.len() < 4 => {
                    // a spawned task starts outside every scope
                    let f = scope_task(m.clone(), r.fork(), vec![], base + 500, budget.clone());
                    let h = tokio::spawn(f);
                    if r.chance(1, 4) {
                        h.abort();
                        let _ = h.await;
                    } else if h.await.is_err() {
                        m.fail("C32-task", "a task panicked");
                    }
                    m.count("tasks spawned", 1);
                },
                6 if stack.len() < 6 => {
                    // two scopes interleaved inside one task
                    let mk = |n: i64| RequestContext::new(RequestId::from(base + 700 + n));
                    let (a, b) = (mk(1), mk(2));
                    let (mut sa, mut sb) = (stack.clone(), stack.clone());
                    sa.push(whole(&a));
                    sb.push(whole(&b));
                    let fa = a.run(scope_task(m.clone(), r.fork(), sa, base, budget.clone()));
                    let fb = b.run(scope_task(m.clone(), r.fork(), sb, base, budget.clone()));
                    if r.bool() {
                        tokio::join!(fa, fb);
                    } else {
                        // the loser is dropped in the middle of its scope
                        tokio::select! { () = fa => {}, () = fb => {} }
                    }
                    m.count("interleaved pairs", 1);
                },
                7 => {
                    let id = RequestId::from(base + 900);
                    let c = pmcp::context_or_new!(id.clone());
                    match stack.last() {
                        Some(top) => m.check(whole(&c) == *top, "C32-or-new", || format!("{c:?} vs {top:?}")),
                        None => m.check(c.request_id == id, "C32-or-new", || format!("{c:?}")),
                    };
                },
                _ => {},
            }
        }
        expect(&m, &stack);
    })
}

// ---------------------------------------------------------------- C37

#[derive(serde::Serialize, serde::Deserialize, Debug, PartialEq, Clone)]
struct Typed {
    name: String,
    n: i64,
    #[serde(default)]
    list: Vec<Option<f64>>,
    #[serde(default)]
    map: BTreeMap<String, Value>,
}

fn ws(r: &mut Rng) -> String {
    if r.chance(2, 3) {
        return String::new();
    }
    let top = if r.chance(1, 6) { 70 } else { 4 };
    let n = r.range(1, top);
    (0..n).map(|_| *r.pick(&[' ', '\t', '\n', '\r'])).collect()
}

/// A value as text with insignificant whitespace and varied escapes.
fn spaced(r: &mut Rng, v: &Value) -> String {
    let a = ws(r);
    let b = ws(r);
    let body = match v {
        Value::Array(x) => {
            let i: Vec<String> = x.iter().map(|e| spaced(r, e)).collect();
            format!("[{}{}]", i.join(","), if i.is_empty() { ws(r) } else { String::new() })
        },
        Value::Object(o) => {
            let i: Vec<String> = o.iter().map(|(k, e)| format!("{}{}{}:{}", ws(r), jstr(r, k), ws(r), spaced(r, e))).collect();
            format!("{{{}{}}}", i.join(","), if i.is_empty() { ws(r) } else { String::new() })
        },
        Value::String(s) => jstr(r, s),
        v => v.to_string(),
    };
    format!("{a}{body}{b}")
}

fn jstr(r: &mut Rng, s: &str) -> String {
    if r.bool() {
        return Value::String(s.to_string()).to_string();
    }
    let mut o = String::from("\"");
    for c in s.chars() {
        if r.chance(1, 3) || c < ' ' || c == '"' || c == '\\' {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                o.push_str(&format!("\\u{u:04x}"));
            }
        } else {
            o.push(c);
        }
    }
    o.push('"');
    o
}

fn c37(m: &Arc<Mon>) {
    let mut r = m.rng("c37");
    m.stage("parsing");
    let n = m.n(30_000, 1_000_000);
    let mut batch: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        if m.stopped() {
            return;
        }
        let v = match r.below(6) {
            0 => json!({"name": r.string(20), "n": r.u64() as i64, "list": [1.5, null, r.below(9)], "map": r.object(2)}),
            1 => Value::String(r.string(90)),
            2 => Value::Array((0..r.range(1, 40)).map(|_| Value::String(" ".repeat(r.below(3)))).collect()),
            _ => r.json(4),
        };
        let mut doc = if r.bool() { spaced(&mut r, &v).into_bytes() } else { v.to_string().into_bytes() };
        match r.below(6) {
            0 => {
                for _ in 0..r.range(1, 3) {
                    let at = r.below(doc.len() + 1);
                    match r.below(4) {
                        0 if at < doc.len() => {
                            doc.remove(at);
                        },
                        1 if at < doc.len() => doc[at] = r.u64() as u8,
                        2 => doc.insert(at, *r.pick(b" \t\n\r\"\\{}[],:0\xff\xc3\x00")),
                        _ => doc.truncate(at),
                    }
                }
            },
            1 if r.chance(1, 3) => doc = r.bytes(80),
            2 if r.chance(1, 3) => {
                // two documents, or blanks where none may be
                let extra = *r.pick(&[" 1", "\n2", " \"x\"", "\t{}", "  ,", " nul l", "tr ue", "1 2 3", "-  1", "1 .5", "\u{a0}"]);
                doc.extend_from_slice(extra.as_bytes());
            },
            _ => {},
        }
        let want = serde_json::from_slice::<Value>(&doc).ok();
        m.case(&doc, want.is_some());
        m.count(if want.is_some() { "documents valid" } else { "documents invalid" }, 1);
        m.sample(if want.is_some() { "valid" } else { "invalid" }, || String::from_utf8_lossy(&doc).into_owned());
        let show = || String::from_utf8_lossy(&doc).into_owned();
        if let Some(got) = m.guard("C37-parse-panic", show, || json_simd::parse_json_fast::<Value>(&doc).ok()) {
            m.eq(&got, &want, "C37-value", show);
        }
        if std::str::from_utf8(&doc).is_ok() {
            let tw = serde_json::from_slice::<Typed>(&doc).ok();
            if let Some(tg) = m.guard("C37-typed-panic", show, || json_simd::parse_json_fast::<Typed>(&doc).ok()) {
                m.count("typed values", u64::from(tw.is_some()));
                m.eq(&tg, &tw, "C37-typed", show);
            }
            let sw = serde_json::from_slice::<Vec<String>>(&doc).ok();
            m.eq(&json_simd::parse_json_fast::<Vec<String>>(&doc).ok(), &sw, "C37-strings", show);
        }
        batch.push(doc);
        if batch.len() >= r.range(1, 12) {
            let refs: Vec<&[u8]> = batch.iter().map(Vec::as_slice).collect();
            let got: Vec<Option<Value>> = json_simd::parse_json_batch::<Value>(&refs).into_iter().map(Result::ok).collect();
            let want: Vec<Option<Value>> = refs.iter().map(|d| serde_json::from_slice(d).ok()).collect();
            m.eq(&got, &want, "C37-batch", || format!("{} documents", refs.len()));
            m.count("batches", 1);
            batch.clear();
        }
    }
    m.check(json_simd::parse_json_batch::<Value>(&[]).is_empty(), "C37-batch-empty", String::new);
    m.stage("printing");
    let n = m.n(20_000, 600_000);
    for _ in 0..n {
        if m.stopped() {
            return;
        }
        let v = match r.below(5) {
            0 => Value::String((0..r.below(70)).map(|_| *r.pick(&['"', '\\', '{', '}', ',', ':', 'é', '🦀', ' ', '\n', '[', ']', 'a'])).collect()),
            1 => {
                let mut v = r.json(1);
                for _ in 0..if r.chance(1, 15) { r.range(90, 118) } else { r.below(20) } {
                    v = if r.bool() { json!([v]) } else { json!({ r.string(5): v }) };
                }
                v
            },
            _ => r.json(4),
        };
        m.case(v.to_string(), true);
        m.sample("printed", || v.to_string());
        let show = || v.to_string();
        if let Some(Ok(p)) = m.guard("C37-pretty-panic", show, || json_simd::pretty_print_fast(&v)) {
            m.eq(&serde_json::from_str::<Value>(&p).ok().as_ref(), &Some(&v), "C37-pretty", || format!("{} printed as {p}", show()));
            m.eq(&json_simd::parse_json_fast::<Value>(p.as_bytes()).ok().as_ref(), &Some(&v), "C37-pretty-fast", || p.clone());
            m.check(indented(&p), "C37-pretty-indent", || p.clone());
        } else {
            m.fail("C37-pretty-error", show());
        }
        if let Some(Ok(b)) = m.guard("C37-serialize-panic", show, || json_simd::serialize_json_fast(&v)) {
            m.eq(&serde_json::from_slice::<Value>(&b).ok().as_ref(), &Some(&v), "C37-serialize", show);
        } else {
            m.fail("C37-serialize-error", show());
        }
        let t = Typed { name: r.string(20), n: r.u64() as i64, list: vec![None, Some(0.5)], map: BTreeMap::from([(r.string(4), v.clone())]) };
        let b = json_simd::serialize_json_fast(&t);
        m.eq(&b.ok().and_then(|b| serde_json::from_slice(&b).ok()), &Some(t.clone()), "C37-serialize-typed", || format!("{t:?}"));
    }
}

/// Every line of printed JSON is indented by two spaces per level of nesting.
fn indented(p: &str) -> bool {
    let (mut depth, mut string, mut escaped, mut start, mut spaces) = (0usize, false, false, true, 0usize);
    for c in p.chars() {
        if c == '\n' { start = true; spaces = 0; continue; }
        if start && c == ' ' { spaces += 1; continue; }
        if start {
            let want = if c == '}' || c == ']' { depth.saturating_sub(1) } else { depth };
            if spaces != 2 * want { return false; }
            start = false;
        }
        match c {
            _ if escaped => escaped = false,
            '\\' if string => escaped = true,
            '"' => string = !string,
            '{' | '[' if !string => depth += 1,
            '}' | ']' if !string => depth = depth.saturating_sub(1),
            _ => {}
        }
    }
    depth == 0
}
