//! Seeded generators.
use serde_json::{Map, Number, Value};

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut next = || {
            z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            x ^ (x >> 31)
        };
        Self { s: [next(), next(), next(), next()] }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
    pub fn ident(&mut self, max: usize) -> String {
        let n = self.range(1, max);
        (0..n).map(|i| if i == 0 { *self.pick(b"abcdefghijkxyzABC_") as char } else { *self.pick(b"abcdefghijkxyz0123456789_") as char }).collect()
    }
    pub fn char(&mut self) -> char {
        match self.below(14) {
            0..=5 => (b' ' + self.below(95) as u8) as char,
            6 => *self.pick(&['\n', '\r', '\t', '\0', '\u{1f}', '\u{7f}', '\u{8}', '\u{c}']),
            7 => *self.pick(&['"', '\\', '/', '{', '}', '[', ']', ':', ',']),
            8 => char::from_u32(0x80 + self.below(0x700) as u32).unwrap_or('é'),
            9 => char::from_u32(0x4e00 + self.below(0x2000) as u32).unwrap_or('世'),
            10 => char::from_u32(0x1F300 + self.below(0x200) as u32).unwrap_or('🦀'),
            11 => *self.pick(&['\u{2028}', '\u{2029}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', 'İ', 'ß']),
            _ => (b'a' + self.below(26) as u8) as char,
        }
    }
    pub fn string(&mut self, max: usize) -> String {
        let n = self.below(max + 1);
        (0..n).map(|_| self.char()).collect()
    }
    /// Non-empty string.
    pub fn text(&mut self, max: usize) -> String {
        let mut s = self.string(max.saturating_sub(1));
        s.push((b'a' + self.below(26) as u8) as char);
        s
    }
    /// Distinct non-empty names that a sloppy comparison would confuse: prefixes of each other,
    /// other case, surrounding space, other spelling of the same number, character or path.
    pub fn kin(&mut self, n: usize) -> Vec<String> {
        let b = match self.below(4) { 0 => "a".to_string(), 1 => self.below(20).to_string(), 2 => "file:///a".to_string(), _ => self.text(4) };
        let mut v = vec![b.clone()];
        for _ in 0..n * 3 {
            if v.len() >= n { break; }
            let o = self.pick(&v).clone();
            let s = match self.below(18) {
                0 => o.to_uppercase(),
                1 => format!("{o}/"),
                2 => format!("{o}:x"),
                3 => format!(" {o}"),
                4 => format!("{o} "),
                5 => format!("0{o}"),
                6 => format!("\"{o}\""),
                7 => format!("{o}{o}"),
                8 => format!("{o}\u{301}"),
                9 => o.replace('a', "%61"),
                10 => format!("{o}*"),
                11 => format!("{o}/b"),
                12 => o.chars().rev().collect(),
                13 => o.chars().take(o.chars().count().max(2) - 1).collect(),
                14 => format!("{o}\0"),
                15 => format!("{o}#f"),
                16 => format!("{o}.0"),
                _ => format!("{o}?q"),
            };
            if !v.contains(&s) { v.push(s); }
        }
        v
    }
    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = self.below(max + 1);
        (0..n).map(|_| self.u64() as u8).collect()
    }
    pub fn number(&mut self) -> Value {
        match self.below(10) {
            0 => Value::from(0),
            1 => Value::from(i64::MIN),
            2 => Value::from(i64::MAX),
            3 => Value::from(u64::MAX),
            4 => Value::from(self.u64() as i64),
            5 => Value::from(-(self.below(1000) as i64)),
            6 | 7 => {
                // floats that survive serde_json's own text round trip
                let f = match self.below(4) {
                    0 => (self.below(2_000_001) as f64 - 1_000_000.0) / 8.0,
                    1 => self.below(1000) as f64 * 1e15 + 0.5,
                    2 => 1.0 / (1 + self.below(64)) as f64,
                    _ => f64::from_bits(self.u64()),
                };
                if f.is_finite() {
                    if let Some(n) = Number::from_f64(f) {
                        let v = Value::Number(n);
                        if serde_json::from_str::<Value>(&v.to_string()).ok().as_ref() == Some(&v) {
                            return v;
                        }
                    }
                }
                Value::from(1.5)
            },
            _ => Value::from(self.below(100_000)),
        }
    }
    pub fn json(&mut self, depth: usize) -> Value {
        match self.below(if depth == 0 { 6 } else { 9 }) {
            0 => Value::Null,
            1 => Value::Bool(self.bool()),
            2 => self.number(),
            3..=5 => Value::String(self.string(12)),
            6 => {
                let n = self.below(4);
                Value::Array((0..n).map(|_| self.json(depth - 1)).collect())
            },
            _ => self.object(depth - 1),
        }
    }
    pub fn object(&mut self, depth: usize) -> Value {
        let n = self.below(4);
        let mut m = Map::new();
        for _ in 0..n {
            let k = if self.chance(1, 4) { self.string(6) } else { self.ident(8) };
            m.insert(k, self.json(depth));
        }
        Value::Object(m)
    }
    /// Random positions splitting `len` bytes into chunks.
    pub fn splits(&mut self, len: usize) -> Vec<usize> {
        let mode = self.below(4);
        let mut v = vec![];
        let mut at = 0;
        while at < len {
            let step = match mode {
                0 => 1,
                1 => self.range(1, 3),
                2 => self.range(1, 40),
                _ => self.range(1, len.max(1)),
            };
            at = (at + step).min(len);
            v.push(at);
        }
        v
    }
}
