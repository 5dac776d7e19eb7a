//! Choice tape: every random decision of a case is one bounded draw.

use std::sync::OnceLock;

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut x)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ (b.len() as u64);
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x0000_0100_0000_01B3);
        h ^= h >> 29;
    }
    for c in it.remainder() {
        h = (h ^ u64::from(*c)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    let mut x = h;
    splitmix(&mut x)
}

/// Literals found in the sources under test; they steer generation only.
#[derive(Default, Debug)]
pub struct Lits {
    pub ints: Vec<i64>,
    pub strs: Vec<Vec<u8>>,
}

static LITS: OnceLock<Lits> = OnceLock::new();

pub fn lits() -> &'static Lits {
    LITS.get_or_init(|| {
        let mut l = Lits::default();
        let mut files = vec![];
        let mut stack = vec![std::path::PathBuf::from("/repo/src")];
        while let Some(d) = stack.pop() {
            if let Ok(rd) = std::fs::read_dir(&d) {
                for e in rd.flatten() {
                    let p = e.path();
                    if p.is_dir() {
                        stack.push(p);
                    } else if p.extension().is_some_and(|x| x == "rs") {
                        files.push(p);
                    }
                }
            }
        }
        files.sort();
        for f in files {
            if let Ok(s) = std::fs::read_to_string(&f) {
                for line in s.lines() {
                    let t = line.trim_start();
                    if !t.starts_with("//") {
                        harvest(line, &mut l);
                    }
                }
            }
        }
        l.ints.sort_unstable();
        l.ints.dedup();
        l.strs.sort();
        l.strs.dedup();
        l.ints.truncate(400);
        l.strs.truncate(400);
        if l.ints.is_empty() {
            l.ints.push(0);
        }
        if l.strs.is_empty() {
            l.strs.push(b"x".to_vec());
        }
        l
    })
}

fn harvest(line: &str, l: &mut Lits) {
    let b = line.as_bytes();
    let mut i = 0;
    let mut last: Option<(i64, usize, bool)> = None; // value, end, preceded by '*'
    while i < b.len() {
        if b[i] == b'"' {
            let mut j = i + 1;
            let mut s = vec![];
            while j < b.len() && b[j] != b'"' {
                if b[j] == b'\\' && j + 1 < b.len() {
                    j += 1;
                }
                s.push(b[j]);
                j += 1;
            }
            if !s.is_empty() && s.len() <= 32 {
                l.strs.push(s);
            }
            i = j + 1;
            continue;
        }
        let prev_ident = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
        if b[i].is_ascii_digit() && !prev_ident {
            let mut j = i;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                j += 1;
            }
            let mut tok: String = line[i..j].chars().filter(|c| *c != '_').collect();
            for suf in [
                "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "f64",
            ] {
                if let Some(x) = tok.strip_suffix(suf) {
                    if !tok.starts_with("0x") || suf.starts_with(['u', 'i']) {
                        tok = x.to_string();
                        break;
                    }
                }
            }
            let v = if let Some(h) = tok.strip_prefix("0x") {
                u64::from_str_radix(h, 16).ok().map(|x| x as i64)
            } else if let Some(h) = tok.strip_prefix("0b") {
                u64::from_str_radix(h, 2).ok().map(|x| x as i64)
            } else {
                tok.parse::<i64>().ok()
            };
            if let Some(v) = v {
                l.ints.push(v);
                if let Some((pv, pe, _)) = last {
                    let between = line[pe..i].trim();
                    if between == "*" {
                        if let Some(p) = pv.checked_mul(v) {
                            l.ints.push(p);
                        }
                    } else if between == "<<" && (0..63).contains(&v) && pv > 0 {
                        l.ints.push(pv.wrapping_shl(v as u32));
                    }
                }
                last = Some((v, j, false));
            }
            i = j;
            continue;
        }
        i += 1;
    }
}

#[derive(Clone)]
enum Src {
    Rng(Rng),
    Bytes(Vec<u8>, usize),
    Tape(Vec<u64>, usize),
}

/// One recorded draw: the value and its bound (0 = full 64-bit range).
#[derive(Clone, Copy, Debug)]
pub struct Choice {
    pub v: u64,
    pub n: u64,
}

pub struct Gen {
    src: Src,
    pub rec: Vec<Choice>,
    pub spans: Vec<(usize, usize)>,
    stack: Vec<usize>,
}

const MAX_DRAWS: usize = 400_000;

impl Gen {
    fn with(src: Src) -> Gen {
        Gen {
            src,
            rec: Vec::new(),
            spans: Vec::new(),
            stack: Vec::new(),
        }
    }
    pub fn from_seed(seed: u64) -> Gen {
        Gen::with(Src::Rng(Rng::new(seed)))
    }
    pub fn from_bytes(b: &[u8]) -> Gen {
        Gen::with(Src::Bytes(b.to_vec(), 0))
    }
    pub fn from_tape(t: &[u64]) -> Gen {
        Gen::with(Src::Tape(t.to_vec(), 0))
    }
    pub fn tape(&self) -> Vec<u64> {
        self.rec.iter().map(|c| c.v).collect()
    }
    /// Bytes which, used as a byte source, reproduce the recorded draws.
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut out = vec![];
        for c in &self.rec {
            match width(c.n) {
                0 => {}
                1 => out.push(c.v as u8),
                2 => out.extend_from_slice(&(c.v as u16).to_le_bytes()),
                4 => out.extend_from_slice(&(c.v as u32).to_le_bytes()),
                _ => out.extend_from_slice(&c.v.to_le_bytes()),
            }
        }
        out
    }

    pub fn open(&mut self) {
        self.stack.push(self.rec.len());
    }
    pub fn close(&mut self) {
        if let Some(s) = self.stack.pop() {
            self.spans.push((s, self.rec.len()));
        }
    }

    /// Uniform in 0..n; n == 0 draws from the full 64-bit range.
    pub fn draw(&mut self, n: u64) -> u64 {
        if n == 1 {
            return 0;
        }
        if self.rec.len() >= MAX_DRAWS {
            return 0;
        }
        let v = match &mut self.src {
            Src::Rng(r) => {
                let x = r.next();
                if n == 0 {
                    x
                } else {
                    ((u128::from(x) * u128::from(n)) >> 64) as u64
                }
            }
            Src::Bytes(b, p) => {
                let w = width(n);
                let mut buf = [0u8; 8];
                for (k, slot) in buf.iter_mut().enumerate().take(w) {
                    *slot = b.get(*p + k).copied().unwrap_or(0);
                }
                *p += w;
                let x = u64::from_le_bytes(buf);
                if n == 0 {
                    x
                } else {
                    x % n
                }
            }
            Src::Tape(t, p) => {
                let x = t.get(*p).copied().unwrap_or(0);
                *p += 1;
                if n == 0 {
                    x
                } else {
                    x.min(n - 1)
                }
            }
        };
        self.rec.push(Choice { v, n });
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            self.draw(n as u64) as usize
        }
    }
    /// inclusive range
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.draw((b - a) as u64 + 1) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // 0 (simplest) is "no"
        let v = self.draw(den);
        v >= den - num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        let i = self.below(s.len());
        &s[i]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u64 = w.iter().map(|x| u64::from(*x)).sum();
        let mut v = self.draw(tot.max(1));
        for (i, x) in w.iter().enumerate() {
            if v < u64::from(*x) {
                return i;
            }
            v -= u64::from(*x);
        }
        0
    }
    pub fn lit_int(&mut self) -> i64 {
        let l = &lits().ints;
        let i = self.below(l.len());
        let d = [0i64, 1, -1][self.below(3)];
        l[i].wrapping_add(d)
    }

    /// An integer in [-limit, limit].
    pub fn int(&mut self, limit: i64) -> i64 {
        let v = match self.weighted(&[30, 20, 12, 16, 8, 14]) {
            0 => self.draw(16) as i64,
            1 => {
                let z = self.draw(512);
                ((z >> 1) as i64) ^ -((z & 1) as i64)
            }
            2 => {
                let k = self.draw(63);
                let d = [0i64, -1, 1][self.below(3)];
                let s = if self.draw(2) == 1 { -1 } else { 1 };
                ((1i64 << k).wrapping_add(d)).wrapping_mul(s)
            }
            3 => {
                let sh = self.draw(64);
                let x = self.draw(0);
                (x as i64) >> sh
            }
            4 => {
                let v = self.lit_int();
                if self.draw(4) == 3 {
                    v.wrapping_neg()
                } else {
                    v
                }
            }
            _ => 100_000_000 + self.draw(12_900_000_000) as i64,
        };
        if v >= -limit && v <= limit {
            v
        } else if limit == i64::MAX {
            v.max(-i64::MAX)
        } else {
            (i128::from(v) % (i128::from(limit) + 1)) as i64
        }
    }
    pub fn int_in(&mut self, lo: i64, hi: i64) -> i64 {
        let v = self.int(i64::MAX);
        if v >= lo && v <= hi {
            v
        } else {
            let span = i128::from(hi) - i128::from(lo) + 1;
            let m = (i128::from(v) - i128::from(lo)).rem_euclid(span);
            (i128::from(lo) + m) as i64
        }
    }
    /// A small list length in 0..=max, biased to few.
    pub fn len(&mut self, max: usize) -> usize {
        match self.weighted(&[10, 30, 40, 20]) {
            0 => 0,
            1 => self.below(2.min(max) + 1),
            2 => self.below(5.min(max) + 1),
            _ => self.below(max + 1),
        }
    }
    /// A large list length, at or near values that code tends to care about.
    pub fn big_len(&mut self, cap: usize) -> usize {
        const B: &[usize] = &[
            100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2000, 2001, 4095, 4096,
            4097, 7999, 8000, 8001, 8192, 16000, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536,
            65537, 70000,
        ];
        let v = match self.weighted(&[70, 15, 15]) {
            0 => {
                let m = B.iter().filter(|x| **x <= cap).count().max(1);
                B[self.below(m)]
            }
            1 => {
                let x = self.lit_int();
                if x > 0 && x <= cap as i64 {
                    x as usize
                } else {
                    64 + self.below(200)
                }
            }
            _ => 25 + self.below(cap.max(1)),
        };
        v.min(cap)
    }
    /// An integer sequence in [-limit, limit]; few draws even if n is large.
    pub fn int_seq(&mut self, n: usize, limit: i64) -> Vec<i64> {
        if n == 0 {
            return vec![];
        }
        match self.weighted(&[40, 30, 15, 15]) {
            0 => {
                // sorted with small steps
                let mut v = self.int(limit);
                let mut out = Vec::with_capacity(n);
                let base_step = self.draw(4) as i64 + 1;
                for i in 0..n {
                    out.push(v);
                    let st = if i < 24 { self.draw(5) as i64 } else { base_step };
                    v = v.checked_add(st).filter(|x| *x <= limit).unwrap_or(-limit);
                }
                out
            }
            1 => {
                let k = n.min(24);
                let base: Vec<i64> = (0..k).map(|_| self.int(limit)).collect();
                extend_seq(&base, n, limit)
            }
            2 => {
                // few values, many repetitions
                let k = 1 + self.below(4);
                let base: Vec<i64> = (0..k).map(|_| self.int(limit)).collect();
                (0..n)
                    .map(|i| base[if i < 24 { self.below(k) } else { i % k }])
                    .collect()
            }
            _ => {
                // arithmetic progression, any step and sign
                let st = self.int((1 << 40).min(limit));
                let mut v = self.int(limit);
                let mut out = Vec::with_capacity(n);
                for _ in 0..n {
                    out.push(v);
                    let w = i128::from(v) + i128::from(st);
                    v = if w.abs() <= i128::from(limit) { w as i64 } else { (w % (i128::from(limit) + 1)) as i64 };
                }
                out
            }
        }
    }
}

fn extend_seq(base: &[i64], n: usize, limit: i64) -> Vec<i64> {
    let k = base.len();
    (0..n)
        .map(|i| {
            if i < k {
                base[i]
            } else {
                let x = i128::from(base[i % k]) + (i / k) as i128;
                if x <= i128::from(limit) {
                    x as i64
                } else {
                    base[i % k]
                }
            }
        })
        .collect()
}

fn width(n: u64) -> usize {
    match n {
        0 => 8,
        1 => 0,
        2..=0x100 => 1,
        0x101..=0x1_0000 => 2,
        0x1_0001..=0x1_0000_0000 => 4,
        _ => 8,
    }
}
