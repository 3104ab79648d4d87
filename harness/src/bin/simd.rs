//! C36 vectorised byte routines: results against scalar definitions, memory accesses against guard pages.
use mon::{Check, Mon, Rng};
use pmcp::simd::{batch, compression, json, serialization};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

/// While `FENCE` is set on a thread, every allocation of it gets pages of its own that end right before an
/// inaccessible page, so that any access past an allocation made by the code under test faults.
struct Fenced;
thread_local!(static FENCE: Cell<bool> = const { Cell::new(false) });
static FENCED: AtomicU64 = AtomicU64::new(0);
const PAGE: usize = 4096;
const MARK: usize = 0x5afe_f00d_1234_5678;

fn fenced_base(p: *mut u8, size: usize, align: usize) -> (usize, usize) {
    // one page for the header, the data pages, one guard page
    let data = size.max(1).div_ceil(PAGE) * PAGE;
    let end = (p as usize + size.max(1)).div_ceil(align) * align;
    let end = end.div_ceil(PAGE) * PAGE;
    (end - data - PAGE, data + 2 * PAGE)
}

unsafe impl GlobalAlloc for Fenced {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !FENCE.try_with(Cell::get).unwrap_or(false) || l.align() > PAGE {
            let p = System.alloc(Layout::from_size_align_unchecked(l.size() + 16 + l.align(), l.align()));
            if p.is_null() {
                return p;
            }
            // an ordinary block carries a word in front that tells it apart
            let off = 16usize.div_ceil(l.align()) * l.align();
            let q = p.add(off);
            q.sub(8).cast::<usize>().write_unaligned(off);
            q.sub(16).cast::<usize>().write_unaligned(0);
            return q;
        }
        let data = l.size().max(1).div_ceil(PAGE) * PAGE;
        let total = data + 2 * PAGE;
        let base = libc::mmap(std::ptr::null_mut(), total, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        if base == libc::MAP_FAILED {
            return std::ptr::null_mut();
        }
        let base = base as usize;
        libc::mprotect((base + PAGE + data) as *mut _, PAGE, libc::PROT_NONE);
        FENCED.fetch_add(1, Ordering::Relaxed);
        let at = (base + PAGE + data - l.size().max(1)) / l.align() * l.align();
        ((at - 16) as *mut usize).write_unaligned(MARK);
        at as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if p.sub(16).cast::<usize>().read_unaligned() == MARK {
            let (base, total) = fenced_base(p, l.size(), l.align());
            libc::munmap(base as *mut _, total);
            return;
        }
        let off = p.sub(8).cast::<usize>().read_unaligned();
        System.dealloc(p.sub(off), Layout::from_size_align_unchecked(l.size() + 16 + l.align(), l.align()));
    }
}

#[global_allocator]
static ALLOC: Fenced = Fenced;

fn fenced<R>(f: impl FnOnce() -> R) -> R {
    FENCE.with(|c| c.set(true));
    let r = f();
    FENCE.with(|c| c.set(false));
    r
}

/// Read/write pages between two inaccessible ones; buffers are placed against either end.
struct Arena {
    at: *mut u8,
    len: usize,
}
unsafe impl Send for Arena {}
const CANARY: u8 = 0xa5;

impl Arena {
    fn new(pages: usize) -> Self {
        unsafe {
            let len = pages * PAGE;
            let base = libc::mmap(std::ptr::null_mut(), len + 2 * PAGE, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(base != libc::MAP_FAILED);
            let at = base.cast::<u8>().add(PAGE);
            assert_eq!(libc::mprotect(at.cast(), len, libc::PROT_READ | libc::PROT_WRITE), 0);
            Self { at, len }
        }
    }
    /// Copies `data` against the end (or the start) and fills the rest with canaries.
    fn put(&self, data: &[u8], end: bool) -> &'static mut [u8] {
        assert!(data.len() <= self.len);
        unsafe {
            std::ptr::write_bytes(self.at, CANARY, self.len);
            let at = if end { self.at.add(self.len - data.len()) } else { self.at };
            std::ptr::copy_nonoverlapping(data.as_ptr(), at, data.len());
            std::slice::from_raw_parts_mut(at, data.len())
        }
    }
    fn intact(&self, n: usize, end: bool) -> bool {
        let all = unsafe { std::slice::from_raw_parts(self.at, self.len) };
        if end { all[..self.len - n].iter().all(|&b| b == CANARY) } else { all[n..].iter().all(|&b| b == CANARY) }
    }
}

fn main() {
    mon::main(&[Check { id: "C36", rule: "one call of one routine on one buffer placed against a guard page, against its scalar definition; non-trivial when the buffer is not empty", run: c36 }]);
}

/// Byte strings whose length is around multiples of the vector width, from few or many byte values.
fn buffer(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(5) {
        0 => r.below(5),
        1 => (32 * r.range(1, 6) + r.below(5)).saturating_sub(2),
        2 => r.below(70),
        3 => 32 * r.range(1, 4),
        _ => r.below(max),
    };
    let n = n.min(max);
    let fill = *r.pick(b" \t\n\r\"\\a\x00\xff\x80\x7f0");
    match r.below(6) {
        0 => vec![fill; n],
        1 => {
            // one special byte at a chosen lane
            let mut v = vec![b'a'; n];
            if n > 0 {
                let k = r.below(n);
                v[k] = fill;
                let l = n - 1;
                if r.bool() {
                    v[l] = fill;
                }
            }
            v
        },
        2 => (0..n).map(|_| *r.pick(b" \t\n\r\"\\ab{}")).collect(),
        3 => {
            // runs
            let mut v = vec![];
            while v.len() < n {
                let b = *r.pick(b"ab\x00\xff");
                let k = *r.pick(&[1, 2, 31, 32, 33, 64, 254, 255, 256, 300]);
                v.extend(std::iter::repeat_n(b, k));
            }
            v.truncate(n);
            v
        },
        4 => r.bytes(n),
        _ => (0..n).map(|_| *r.pick(b"ab")).collect(),
    }
}

/// Valid and nearly valid UTF-8 with sequences across the vector boundaries.
fn utf8ish(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    let n = r.range(0, 14);
    for _ in 0..n {
        let k = *r.pick(&[0, 1, 27, 28, 29, 30, 31, 32, 33, 63]);
        if r.chance(1, 3) {
            v.extend(std::iter::repeat_n(b'x', k));
        }
        let c = match r.below(12) {
            0 => '\u{80}',
            1 => '\u{7ff}',
            2 => '\u{800}',
            3 => '\u{d7ff}',
            4 => '\u{e000}',
            5 => '\u{ffff}',
            6 => '\u{10000}',
            7 => '\u{10ffff}',
            8 => '\u{7f}',
            _ => r.char(),
        };
        let mut b = [0; 4];
        v.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
    }
    match r.below(5) {
        0 if !v.is_empty() => {
            let k = r.below(v.len());
            v[k] = *r.pick(&[0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xe0, 0xed, 0xf0, 0xf4, 0xf5, 0xff, 0x7f]);
        },
        1 => {
            let bad: &[u8] = r.pick(&[
                &b"\xc0\x80"[..], b"\xc1\xbf", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80\x80",
                b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc3\x28", b"\xe2\x28\xa1", b"\xf0\x28\x8c\xbc", b"\xf0\x90\x28\xbc", b"\xf0\x28\x8c\x28", b"\xe2\x82\xc3\xa9",
            ]);
            let k = r.below(v.len() + 1);
            v.splice(k..k, bad.iter().copied());
        },
        2 => {
            let k = r.below(v.len() + 1);
            v.truncate(k);
        },
        _ => {},
    }
    v
}

/// What the byte-by-byte definition of an RLE encoding is: (count, byte) pairs, runs cut at 255.
fn rle(input: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    while i < input.len() {
        let n = input[i..].iter().take(255).take_while(|&&b| b == input[i]).count();
        out.extend([n as u8, input[i]]);
        i += n;
    }
    out
}

fn b64(input: &[u8]) -> Vec<u8> {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = vec![];
    for c in input.chunks(3) {
        let w = (u32::from(c[0]) << 16) | (u32::from(*c.get(1).unwrap_or(&0)) << 8) | u32::from(*c.get(2).unwrap_or(&0));
        for k in 0..4 {
            out.push(if k > c.len() { b'=' } else { T[(w >> (18 - 6 * k)) as usize & 63] });
        }
    }
    out
}

fn positions(v: &[u8], set: &[u8]) -> Vec<usize> {
    v.iter().enumerate().filter(|(_, b)| set.contains(b)).map(|(i, _)| i).collect()
}

fn c36(m: &Arc<Mon>) {
    // what run.sh observed running the same routines under AddressSanitizer and Miri
    for (k, v) in std::env::var("UB_NOTE").unwrap_or_default().split(';').filter_map(|x| x.split_once('=')) {
        m.count(&format!("{k}-calls"), v.parse().unwrap_or(0));
    }
    if !std::arch::is_x86_feature_detected!("avx2") {
        m.inconclusive("this machine has no AVX2: the routines cannot run here");
        return;
    }
    let mut r = m.rng("c36");
    let (a, b) = (Arena::new(2), Arena::new(2));
    let max = 2 * PAGE;
    let sh = |v: &[u8]| format!("{} bytes {:02x?}", v.len(), &v[..v.len().min(400)]);
    m.stage("every length, one special byte at every lane");
    let top = m.n(100, 200);
    for len in 0..top {
        for at in 0..len {
            for (fill, special) in [(b'a', b' '), (b'a', b'\\'), (b' ', b'a'), (b'"', b'x'), (b'a', 0xc3)] {
                let mut v = vec![fill; len];
                v[at] = special;
                one(m, &a, &v, true);
                m.case((len, at, special), true);
            }
        }
        if m.stopped() {
            return;
        }
    }
    m.stage("random buffers");
    let n = m.n(25_000, 1_200_000);
    for i in 0..n {
        if m.stopped() {
            return;
        }
        let big = i % 50 == 0;
        let v = buffer(&mut r, if big { max } else { 300 });
        let end = r.chance(2, 3);
        m.case(&v, !v.is_empty());
        m.max("longest buffer", v.len() as u64);
        m.sample("buffer", || sh(&v));
        one(m, &a, &v, end);

        // copy: into a destination of the same or a larger size; nothing past the source's length changes
        let extra = if r.bool() { 0 } else { r.range(1, 40) };
        let old = r.bytes(0).into_iter().chain((0..v.len() + extra).map(|k| k as u8)).collect::<Vec<u8>>();
        if old.len() <= max {
            let src = a.put(&v, end);
            let dend = r.bool();
            let dst = b.put(&old, dend);
            unsafe { serialization::copy_simd(src, dst) };
            m.check(dst[..v.len()] == v[..] && dst[v.len()..] == old[v.len()..], "C36-copy", || sh(&v));
            m.check(b.intact(old.len(), dend) && src[..] == v[..], "C36-copy-bounds", || sh(&v));
        }
        // mask
        let mask = [r.u64() as u8, r.u64() as u8, 0, 0xff];
        let d = a.put(&v, end);
        unsafe { serialization::xor_mask_simd(d, mask) };
        let want: Vec<u8> = v.iter().enumerate().map(|(k, x)| x ^ mask[k % 4]).collect();
        m.check(d[..] == want[..], "C36-mask", || format!("{mask:?} {}", sh(&v)));
        m.check(a.intact(v.len(), end), "C36-mask-bounds", || sh(&v));

        // patterns: taken from the buffer, nearly so, foreign, longer than it
        for k in 0..3 {
            let mut needle = match (k, v.len()) {
                (0, l) if l > 0 => {
                    let s = r.below(l);
                    v[s..(s + r.range(1, 40)).min(l)].to_vec()
                },
                (1, l) if l > 0 => v[l - r.range(1, l.min(35))..].to_vec(),
                _ => buffer(&mut r, 40),
            };
            if r.chance(1, 4) {
                if let Some(x) = needle.last_mut() {
                    *x ^= 1;
                }
            }
            if needle.is_empty() {
                continue;
            }
            let hay = a.put(&v, end);
            let nd = b.put(&needle, true);
            let got = unsafe { compression::find_pattern_simd(hay, nd) };
            let want = (0..v.len()).find(|&p| v[p..].starts_with(&needle));
            m.check(got == want, "C36-pattern", || format!("got {got:?}, want {want:?}: {} in {}", sh(&needle), sh(&v)));
            m.count(if want.is_some() { "patterns found" } else { "patterns absent" }, 1);
        }
        // UTF-8
        let u = utf8ish(&mut r);
        if u.len() <= max {
            let s = a.put(&u, end);
            let got = unsafe { json::validate_utf8_simd(s) };
            let want = std::str::from_utf8(&u).is_ok();
            m.check(got == want, "C36-utf8", || format!("got {got}: {}", sh(&u)));
            m.count(if want { "valid UTF-8" } else { "invalid UTF-8" }, 1);
        }
        // lengths
        let k = r.below(40);
        let lim = *r.pick(&[0u32, 1, 100, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1, u32::MAX]);
        let ls: Vec<u32> = (0..k).map(|_| match r.below(5) { 0 => lim, 1 => lim.wrapping_add(1), 2 => lim.wrapping_sub(1), 3 => *r.pick(&[0, u32::MAX, 0x8000_0000]), _ => r.u64() as u32 }).collect();
        let bytes: Vec<u8> = ls.iter().flat_map(|l| l.to_ne_bytes()).collect();
        let raw = a.put(&bytes, true);
        let view = unsafe { std::slice::from_raw_parts(raw.as_ptr().cast::<u32>(), k) };
        let got = fenced(|| unsafe { batch::batch_validate_lengths(view, lim) });
        let want: Vec<bool> = ls.iter().map(|&l| l <= lim).collect();
        m.check(got == want, "C36-lengths", || format!("limit {lim}: {ls:?} gives {got:?}"));
        // checksums of several buffers
        let w = buffer(&mut r, 200);
        let (x, y) = (a.put(&v, end), b.put(&w, true));
        let sums = fenced(|| unsafe { batch::batch_checksum_simd(&[x, y, &[]]) });
        let sum = |s: &[u8]| s.iter().fold(0u32, |t, &q| t.wrapping_add(u32::from(q)));
        m.check(sums == [sum(&v), sum(&w), 0], "C36-checksum", || format!("{sums:?} for {} and {}", sh(&v), sh(&w)));
    }
    m.check(unsafe { batch::batch_checksum_simd(&[]) }.is_empty(), "C36-checksum-empty", String::new);
    m.check(unsafe { compression::find_pattern_simd(b"", b"a") }.is_none(), "C36-pattern-empty", String::new);
    // lengths far past any table, counter or block size, against both page boundaries
    m.stage("long buffers");
    let pages = 270;
    let (la, lb) = (Arena::new(pages), Arena::new(pages));
    let rounds = m.n(1, 12);
    for round in 0..rounds {
        for base in [4096usize, 8192, 16384, 32768, 65536, 131_072, 262_144, 1 << 20] {
            for d in [-33i64, -2, -1, 0, 1, 2, 31] {
                if m.stopped() {
                    return;
                }
                let len = (base as i64 + d) as usize;
                if base > 65536 && d.abs() > 1 && round == 0 {
                    continue;
                }
                let kind = r.below(4);
                let mut v: Vec<u8> = match kind {
                    0 => vec![0xff; len],
                    1 => vec![b'a'; len],
                    2 => r.bytes(len),
                    _ => (0..len).map(|i| if i % 1021 == 0 { b'"' } else { b'x' }).collect(),
                };
                v.truncate(len);
                v.resize(len, b'q');
                if kind == 1 {
                    // the only special bytes are the last ones
                    let k = len - 1 - r.below(40);
                    v[k] = *r.pick(b" \\\n\x80");
                }
                m.case((len, kind, round), true);
                m.max("longest buffer", len as u64);
                long(m, &mut r, &la, &lb, &v);
            }
        }
    }
    // a sum past 32 bits wraps
    let big = vec![0xffu8; 17_000_011];
    let got = unsafe { batch::batch_checksum_simd(&[&big]) };
    let want = (17_000_011u64 * 255) as u32;
    m.check(got == [want], "C36-checksum", || format!("{got:?}, want {want} for {} bytes 0xff", big.len()));
    drop(big);
    m.stage("every pair and triple of bytes as UTF-8");
    let step = m.n(7, 1);
    for lead in 0x80..=0xffu32 {
        for second in (0..=0xffu32).step_by(1) {
            for third in (0..=0xffu32).step_by(if (0xe0..=0xf4).contains(&lead) { step } else { 64 }) {
                let mut v = vec![b'x'; 30];
                v.extend([lead as u8, second as u8, third as u8, 0x80]);
                let s = a.put(&v, true);
                let got = unsafe { json::validate_utf8_simd(s) };
                m.check(got == std::str::from_utf8(&v).is_ok(), "C36-utf8-table", || sh(&v));
            }
        }
        m.case(("lead", lead), true);
        if m.stopped() {
            return;
        }
    }
    m.count("allocations of the routines behind guard pages", FENCED.load(Ordering::Relaxed));
}

/// All routines on one long buffer (the guard pages are the arenas').
fn long(m: &Mon, r: &mut Rng, a: &Arena, b: &Arena, v: &[u8]) {
    let sh = |what: &str| format!("{what}: {} bytes, first {:02x?}, last {:02x?}", v.len(), &v[..8], &v[v.len() - 45..]);
    let end = r.chance(2, 3);
    let s = a.put(v, end);
    unsafe {
        m.check(json::find_whitespace_simd(s) == positions(v, b" \t\n\r"), "C36-whitespace", || sh("whitespace"));
        m.check(json::find_escapes_simd(s) == positions(v, b"\\\""), "C36-escapes", || sh("escapes"));
        m.check(json::validate_utf8_simd(s) == std::str::from_utf8(v).is_ok(), "C36-utf8", || sh("utf8"));
        let mut out = vec![];
        serialization::base64_encode_simd(s, &mut out);
        m.check(out == b64(v), "C36-base64", || sh("base64"));
        let mut out = vec![];
        compression::rle_encode_simd(s, &mut out);
        m.check(out == rle(v), "C36-rle", || sh("run lengths"));
        let sum = v.iter().fold(0u32, |t, &q| t.wrapping_add(u32::from(q)));
        m.check(batch::batch_checksum_simd(&[s, &[], s]) == [sum, 0, sum], "C36-checksum", || sh("checksum"));
        // a needle that occurs only at the very end
        let mut needle = v[v.len() - r.range(2, 40)..].to_vec();
        if r.chance(1, 4) {
            needle[0] ^= 1;
        }
        let nd = b.put(&needle, true);
        let got = compression::find_pattern_simd(s, nd);
        let want = v.windows(needle.len()).position(|w| w == &needle[..]);
        m.check(got == want, "C36-pattern", || sh(&format!("pattern {needle:02x?}: got {got:?}, want {want:?}")));
        let extra = r.below(40);
        let old = vec![0x33; v.len() + extra];
        let dst = b.put(&old, end);
        serialization::copy_simd(s, dst);
        m.check(dst[..v.len()] == v[..] && dst[v.len()..] == old[v.len()..] && b.intact(old.len(), end), "C36-copy", || sh("copy"));
        let mask = [r.u64() as u8, r.u64() as u8, 0, 0xff];
        let d = a.put(v, end);
        serialization::xor_mask_simd(d, mask);
        m.check(d.iter().zip(v).enumerate().all(|(k, (x, y))| *x == y ^ mask[k % 4]) && a.intact(v.len(), end), "C36-mask", || sh("mask"));
        let ls: Vec<u32> = v.chunks_exact(4).map(|c| u32::from_ne_bytes([c[0], c[1], c[2], c[3]])).collect();
        let lim = *r.pick(&[0x6161_6161, 0x7fff_ffff, 0x8000_0000]);
        m.check(batch::batch_validate_lengths(&ls, lim) == ls.iter().map(|&l| l <= lim).collect::<Vec<_>>(), "C36-lengths", || sh("lengths"));
    }
    m.count("routine calls on long buffers", 11);
}

fn one(m: &Mon, a: &Arena, v: &[u8], end: bool) {
    let sh = || format!("{} bytes {:02x?}", v.len(), &v[..v.len().min(400)]);
    let s = a.put(v, end);
    let got = fenced(|| unsafe { json::find_whitespace_simd(s) });
    m.check(got == positions(v, b" \t\n\r"), "C36-whitespace", || format!("got {got:?}: {}", sh()));
    let got = fenced(|| unsafe { json::find_escapes_simd(s) });
    m.check(got == positions(v, b"\\\""), "C36-escapes", || format!("got {got:?}: {}", sh()));
    let got = unsafe { json::validate_utf8_simd(s) };
    m.check(got == std::str::from_utf8(v).is_ok(), "C36-utf8", || format!("got {got}: {}", sh()));
    // outputs are appended to what the vector already holds
    let got = fenced(|| {
        let mut out = b"pre".to_vec();
        unsafe { serialization::base64_encode_simd(s, &mut out) };
        out
    });
    m.check(got[..3] == b"pre"[..] && got[3..] == b64(v)[..], "C36-base64", || format!("got {got:?}: {}", sh()));
    let got = fenced(|| {
        let mut out = Vec::new();
        unsafe { compression::rle_encode_simd(s, &mut out) };
        out
    });
    m.check(got == rle(v), "C36-rle", || format!("got {got:?}: {}", sh()));
    m.check(s[..] == *v && a.intact(v.len(), end), "C36-input-changed", sh);
    m.count("routine calls", 5);
}
