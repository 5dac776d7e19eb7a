//! Independent protobuf wire encoder, with the encoding freedoms the wire
//! format allows. Does not use the library's schema or generated code.

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Style {
    pub seed: u64,
    pub unpacked: bool,
    pub split: bool,
    pub shuffle: bool,
    pub nonmin: bool,
    pub unknown: bool,
    pub dup: bool,
    pub empty_packed: bool,
}

pub struct Enc {
    pub st: Style,
    s: u64,
}

impl Enc {
    pub fn new(st: Style) -> Enc {
        Enc {
            st,
            s: st.seed ^ 0x5bd1_e995_1234_5678,
        }
    }
    fn rnd(&mut self, n: u64) -> u64 {
        self.s = self
            .s
            .wrapping_mul(6364136223846793005)
            .wrapping_add(1442695040888963407);
        (self.s >> 33) % n
    }
    pub fn coin(&mut self, den: u64) -> bool {
        self.rnd(den) == 0
    }
}

pub fn put_varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push((v as u8) | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

fn put_varint_pad(out: &mut Vec<u8>, v: u64, pad: usize) {
    let start = out.len();
    put_varint(out, v);
    let maxlen = 10;
    let mut p = pad;
    while p > 0 && out.len() - start < maxlen - 1 {
        let l = out.len() - 1;
        out[l] |= 0x80;
        out.push(0);
        p -= 1;
    }
}

pub fn zz(v: i64) -> u64 {
    ((v << 1) ^ (v >> 63)) as u64
}

/// A message under construction: entries are complete field encodings.
#[derive(Default)]
pub struct Msg {
    fields: Vec<(u32, Vec<u8>)>,
}

impl Msg {
    pub fn new() -> Msg {
        Msg::default()
    }
    fn val(&self, e: &mut Enc, out: &mut Vec<u8>, v: u64, is32: bool) {
        if e.st.nonmin && e.coin(3) {
            // keep within the encoded length limits of the type
            let pad = 1 + e.rnd(2) as usize;
            let mut tmp = vec![];
            put_varint(&mut tmp, v);
            let max = if is32 { 5 } else { 10 };
            let pad = pad.min(max_pad(tmp.len(), max));
            put_varint_pad(out, v, pad);
        } else {
            put_varint(out, v);
        }
    }
    pub fn varint(&mut self, e: &mut Enc, f: u32, v: u64) {
        let mut b = vec![];
        put_varint(&mut b, u64::from(f) << 3);
        self.val(e, &mut b, v, true);
        self.fields.push((f, b));
    }
    pub fn varint64(&mut self, e: &mut Enc, f: u32, v: u64) {
        let mut b = vec![];
        put_varint(&mut b, u64::from(f) << 3);
        self.val(e, &mut b, v, false);
        self.fields.push((f, b));
    }
    pub fn int32(&mut self, e: &mut Enc, f: u32, v: i32) {
        self.dup_varint(e, f, 77);
        self.varint(e, f, v as i64 as u64);
    }
    pub fn int64(&mut self, e: &mut Enc, f: u32, v: i64) {
        self.dup_varint(e, f, 123_456);
        self.varint64(e, f, v as u64);
    }
    pub fn uint32(&mut self, e: &mut Enc, f: u32, v: u32) {
        self.dup_varint(e, f, 1);
        self.varint(e, f, u64::from(v));
    }
    pub fn boolean(&mut self, e: &mut Enc, f: u32, v: bool) {
        self.dup_varint(e, f, u64::from(!v));
        let mut b = vec![];
        put_varint(&mut b, u64::from(f) << 3);
        b.push(u8::from(v));
        self.fields.push((f, b));
    }
    pub fn sint64(&mut self, e: &mut Enc, f: u32, v: i64) {
        self.dup_varint(e, f, 9);
        self.varint64(e, f, zz(v));
    }
    /// An earlier, different occurrence of a singular field (the last one wins).
    fn dup_varint(&mut self, e: &mut Enc, f: u32, bogus: u64) {
        if e.st.dup && e.coin(3) {
            let mut b = vec![];
            put_varint(&mut b, u64::from(f) << 3);
            put_varint(&mut b, bogus);
            self.fields.push((f, b));
        }
    }
    pub fn bytes(&mut self, f: u32, v: &[u8]) {
        let mut b = Vec::with_capacity(v.len() + 8);
        put_varint(&mut b, (u64::from(f) << 3) | 2);
        put_varint(&mut b, v.len() as u64);
        b.extend_from_slice(v);
        self.fields.push((f, b));
    }
    /// Singular string: may be preceded by a different occurrence.
    pub fn string(&mut self, e: &mut Enc, f: u32, v: &[u8]) {
        if e.st.dup && e.coin(3) {
            self.bytes(f, b"overridden");
        }
        self.bytes(f, v);
    }
    /// Repeated number, already mapped to raw varint values.
    pub fn packed(&mut self, e: &mut Enc, f: u32, vals: &[u64]) {
        if vals.is_empty() {
            if e.st.empty_packed && e.coin(2) {
                self.bytes(f, &[]);
            }
            return;
        }
        let mut parts: Vec<&[u64]> = vec![];
        if e.st.split && vals.len() > 1 {
            let cut = 1 + e.rnd(vals.len() as u64 - 1) as usize;
            parts.push(&vals[..cut]);
            parts.push(&vals[cut..]);
        } else {
            parts.push(vals);
        }
        for p in parts {
            let unpack = e.st.unpacked && e.coin(2);
            if unpack && p.len() <= 4096 {
                for v in p {
                    self.varint(e, f, *v);
                }
            } else {
                let mut body = Vec::with_capacity(p.len() * 2);
                for v in p {
                    self.val(e, &mut body, *v, true);
                }
                self.bytes(f, &body);
            }
        }
    }
    pub fn packed_sint64(&mut self, e: &mut Enc, f: u32, vals: &[i64]) {
        let v: Vec<u64> = vals.iter().map(|x| zz(*x)).collect();
        self.packed(e, f, &v);
    }
    pub fn packed_sint32(&mut self, e: &mut Enc, f: u32, vals: &[i32]) {
        let v: Vec<u64> = vals.iter().map(|x| u64::from(((*x << 1) ^ (*x >> 31)) as u32)).collect();
        self.packed(e, f, &v);
    }
    pub fn packed_int32(&mut self, e: &mut Enc, f: u32, vals: &[i32]) {
        let v: Vec<u64> = vals.iter().map(|x| *x as i64 as u64).collect();
        self.packed(e, f, &v);
    }
    pub fn packed_uint32(&mut self, e: &mut Enc, f: u32, vals: &[u32]) {
        let v: Vec<u64> = vals.iter().map(|x| u64::from(*x)).collect();
        self.packed(e, f, &v);
    }

    /// Field numbers and lengths may be written in more bytes than needed, too.
    fn pad_lengths(&mut self, e: &mut Enc) {
        let varint = |b: &[u8]| {
            let n = b.iter().position(|x| x & 0x80 == 0).map_or(0, |i| i + 1);
            (b[..n].iter().rev().fold(0u64, |v, x| v << 7 | u64::from(x & 0x7f)), n)
        };
        for (_, b) in &mut self.fields {
            if !e.coin(6) {
                continue;
            }
            let (tag, n) = varint(b);
            let mut o = vec![];
            let pad = usize::from(e.coin(3));
            put_varint_pad(&mut o, tag, pad.min(max_pad(n, 5)));
            if tag & 7 == 2 {
                let (len, k) = varint(&b[n..]);
                let pad = e.rnd(3) as usize;
                put_varint_pad(&mut o, len, pad.min(max_pad(k, 5)));
                o.extend_from_slice(&b[n + k..]);
            } else {
                o.extend_from_slice(&b[n..]);
            }
            *b = o;
        }
    }

    pub fn finish(mut self, e: &mut Enc) -> Vec<u8> {
        if e.st.nonmin && self.fields.len() < 5000 {
            self.pad_lengths(e);
        }
        if e.st.unknown && e.coin(2) {
            let k = 1 + e.rnd(3);
            for _ in 0..k {
                // numbers that none of the messages uses
                let f = match e.rnd(8) {
                    0 => 11 + e.rnd(5) as u32,
                    1 => 21 + e.rnd(11) as u32,
                    2 => 35 + e.rnd(165) as u32,
                    3 => (1 << 29) - 1,
                    _ => 200 + e.rnd(5000) as u32,
                };
                let mut b = vec![];
                match e.rnd(5) {
                    4 => {
                        // a group, as old protobuf versions have them
                        put_varint(&mut b, (u64::from(f) << 3) | 3);
                        b.extend_from_slice(&[0x08, 0x05, 0x12, 0x01, 0xee]);
                        put_varint(&mut b, (u64::from(f) << 3) | 4);
                    }
                    0 => {
                        put_varint(&mut b, u64::from(f) << 3);
                        put_varint(&mut b, e.rnd(1 << 30));
                    }
                    1 => {
                        put_varint(&mut b, (u64::from(f) << 3) | 1);
                        b.extend_from_slice(&[1, 2, 3, 4, 5, 6, 7, 8]);
                    }
                    2 => {
                        put_varint(&mut b, (u64::from(f) << 3) | 5);
                        b.extend_from_slice(&[9, 8, 7, 6]);
                    }
                    _ => {
                        put_varint(&mut b, (u64::from(f) << 3) | 2);
                        let n = e.rnd(6) as usize;
                        put_varint(&mut b, n as u64);
                        b.extend(std::iter::repeat_n(0xEE, n));
                    }
                }
                let at = e.rnd(self.fields.len() as u64 + 1) as usize;
                self.fields.insert(at, (f, b));
            }
        }
        if e.st.shuffle && self.fields.len() > 1 && self.fields.len() < 5000 {
            // random order, keeping the relative order of equal field numbers
            let n = self.fields.len();
            let mut idx: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() {
                let j = e.rnd(i as u64 + 1) as usize;
                idx.swap(i, j);
            }
            let mut slots: Vec<Option<usize>> = vec![None; n];
            let mut per: std::collections::BTreeMap<u32, Vec<usize>> = Default::default();
            for (slot, i) in idx.iter().enumerate() {
                per.entry(self.fields[*i].0).or_default().push(slot);
            }
            for (f, mut sl) in per {
                sl.sort_unstable();
                let mut k = 0;
                for (i, fld) in self.fields.iter().enumerate() {
                    if fld.0 == f {
                        slots[sl[k]] = Some(i);
                        k += 1;
                    }
                }
            }
            let mut out = vec![];
            for s in slots {
                out.extend_from_slice(&self.fields[s.unwrap()].1);
            }
            out
        } else {
            let tot = self.fields.iter().map(|x| x.1.len()).sum();
            let mut out = Vec::with_capacity(tot);
            for (_, b) in &self.fields {
                out.extend_from_slice(b);
            }
            out
        }
    }
}

fn max_pad(len: usize, max: usize) -> usize {
    max.saturating_sub(len)
}
