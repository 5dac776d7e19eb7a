//! C17: whatever the bytes, reading ends with data or an error.

use crate::case::{set_item_cap, tick, Case, Tmp, R};
use crate::driver::Prop;
use crate::gen::Gen;
use crate::io::{gen_frag, plan, TestReader};
use crate::model::*;
use crate::obs::*;
use crate::props::access::map_file;
use crate::props::damage::{gen_defective, gen_dmg};
use crate::props::parallel::pool;
use crate::wire::{put_varint, zz, Enc, Msg, Style};
use osmpbf::*;
use std::error::Error as _;
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::sync::Arc;

// -------------------------------------------------------------- generators

const NASTY: &[i64] = &[
    0,
    1,
    -1,
    2,
    i64::MAX,
    i64::MIN,
    i64::MAX - 1,
    i64::MIN + 1,
    i32::MAX as i64,
    i32::MIN as i64,
    1 << 31,
    1 << 32,
    (1 << 32) - 1,
    -(1 << 32),
    1 << 62,
    -(1 << 62),
    1 << 53,
    i64::MAX / 100,
    i64::MAX / 1000 + 1,
    i64::MIN / 100,
    127,
    128,
    255,
    65535,
    65536,
];

fn nasty(g: &mut Gen) -> i64 {
    match g.weighted(&[40, 25, 20, 15]) {
        0 => g.draw(8) as i64,
        1 => *g.pick(NASTY),
        2 => g.int(i64::MAX),
        _ => g.draw(0) as i64,
    }
}

/// The length of one of several parallel columns.
fn col_len(g: &mut Gen, base: usize) -> usize {
    match g.weighted(&[60, 10, 10, 10, 10]) {
        0 => base,
        1 => base + 1,
        2 => base.saturating_sub(1),
        3 => 0,
        _ => g.below(12),
    }
}

/// The type a field is declared with; only now and then ignored, because the
/// parser rejects the whole block for it.
#[derive(Clone, Copy)]
enum Ty {
    I32,
    U32,
    I64,
    S32,
    S64,
    Bool,
}

fn val(g: &mut Gen, t: Ty) -> u64 {
    let v = nasty(g);
    if g.chance(1, 4000) {
        return v as u64;
    }
    match t {
        Ty::I32 => i64::from(v as i32) as u64,
        Ty::U32 => u64::from(v as u32),
        Ty::I64 => v as u64,
        Ty::S32 => zz(i64::from(v as i32)) & 0xffff_ffff,
        Ty::S64 => zz(v),
        Ty::Bool => v as u64 & 1,
    }
}

fn col(g: &mut Gen, base: usize, t: Ty) -> Vec<u64> {
    let n = col_len(g, base);
    (0..n).map(|_| val(g, t)).collect()
}

fn h_info(g: &mut Gen, e: &mut Enc) -> Vec<u8> {
    let mut m = Msg::new();
    for (f, t) in [(1, Ty::I32), (2, Ty::I64), (3, Ty::I64), (4, Ty::I32), (5, Ty::U32), (6, Ty::Bool)] {
        if g.chance(3, 4) {
            let v = val(g, t);
            m.varint64(e, f, v);
        }
    }
    m.finish(e)
}

fn h_node(g: &mut Gen, e: &mut Enc) -> Vec<u8> {
    let mut m = Msg::new();
    let n = [2, 1, 0, 3][g.below(4)];
    m.varint64(e, 1, nasty(g) as u64);
    m.packed(e, 2, &col(g, n, Ty::U32));
    m.packed(e, 3, &col(g, n, Ty::U32));
    if g.chance(1, 2) {
        let b = h_info(g, e);
        m.bytes(4, &b);
    }
    m.varint64(e, 8, nasty(g) as u64);
    m.varint64(e, 9, nasty(g) as u64);
    m.finish(e)
}

fn h_dense(g: &mut Gen, e: &mut Enc) -> Vec<u8> {
    let mut m = Msg::new();
    let n = [2, 1, 3, 0, 4, 6, 7, 9][g.below(8)];
    m.packed(e, 1, &col(g, n, Ty::S64));
    if g.chance(2, 3) {
        let mut d = Msg::new();
        for (f, t) in [(1, Ty::I32), (2, Ty::S64), (3, Ty::S64), (4, Ty::S32), (5, Ty::S32), (6, Ty::Bool)] {
            let c = col(g, n, t);
            if !(c.is_empty() && g.chance(1, 2)) {
                d.packed(e, f, &c);
            }
        }
        let b = d.finish(e);
        m.bytes(5, &b);
    }
    m.packed(e, 8, &col(g, n, Ty::S64));
    m.packed(e, 9, &col(g, n, Ty::S64));
    if g.chance(2, 3) {
        // unterminated, doubly terminated, odd, negative, out of range
        let k = g.below(20);
        let kv: Vec<u64> = (0..k)
            .map(|_| if g.chance(1, 3) { 0 } else if g.chance(1, 3) { val(g, Ty::I32) } else { 1 + g.draw(6) })
            .collect();
        m.packed(e, 10, &kv);
    }
    m.finish(e)
}

fn h_way(g: &mut Gen, e: &mut Enc) -> Vec<u8> {
    let mut m = Msg::new();
    let n = [2, 1, 3, 0, 4, 6][g.below(6)];
    m.varint64(e, 1, nasty(g) as u64);
    m.packed(e, 2, &col(g, n, Ty::U32));
    m.packed(e, 3, &col(g, n, Ty::U32));
    if g.chance(1, 2) {
        let b = h_info(g, e);
        m.bytes(4, &b);
    }
    m.packed(e, 8, &col(g, n, Ty::S64));
    if g.chance(1, 2) {
        m.packed(e, 9, &col(g, n, Ty::S64));
        m.packed(e, 10, &col(g, n, Ty::S64));
    }
    m.finish(e)
}

fn h_rel(g: &mut Gen, e: &mut Enc) -> Vec<u8> {
    let mut m = Msg::new();
    let n = [2, 1, 3, 0, 4, 6][g.below(6)];
    m.varint64(e, 1, nasty(g) as u64);
    m.packed(e, 2, &col(g, n, Ty::U32));
    m.packed(e, 3, &col(g, n, Ty::U32));
    if g.chance(1, 2) {
        let b = h_info(g, e);
        m.bytes(4, &b);
    }
    m.packed(e, 8, &col(g, n, Ty::I32));
    m.packed(e, 9, &col(g, n, Ty::S64));
    let k = col_len(g, n);
    let ty: Vec<u64> = (0..k)
        .map(|_| if g.chance(1, 4) { val(g, Ty::I32) } else { g.draw(3) })
        .collect();
    m.packed(e, 10, &ty);
    m.finish(e)
}

/// A primitive block with values no sane writer stores.
fn h_block(g: &mut Gen) -> Vec<u8> {
    let mut st = Style::default();
    if g.chance(1, 4) {
        st = gen_style(g);
    }
    let e = &mut Enc::new(st);
    let mut m = Msg::new();
    let mut s = Msg::new();
    for _ in 0..g.below(7) {
        let x = if g.chance(1, 4) { gen_bad_utf8(g) } else { gen_text(g) };
        s.bytes(1, &x);
    }
    let sb = s.finish(e);
    if !g.chance(1, 60) {
        m.bytes(1, &sb);
    }
    let k = [1, 2, 3, 0, 4][g.below(5)];
    for _ in 0..k {
        g.open();
        let mut gm = Msg::new();
        let k = [1, 2, 3, 0, 4][g.below(5)];
        for _ in 0..k {
            g.open();
            let k = g.below(5);
            let b = match k {
                0 => h_dense(g, e),
                1 => h_rel(g, e),
                2 => h_way(g, e),
                3 => h_node(g, e),
                _ => vec![0x08, 1],
            };
            gm.bytes([2, 4, 3, 1, 5][k], &b);
            g.close();
        }
        let b = gm.finish(e);
        m.bytes(2, &b);
        g.close();
    }
    for (f, t) in [(17, Ty::I32), (18, Ty::I32), (19, Ty::I64), (20, Ty::I64)] {
        if g.chance(1, 2) {
            let v = val(g, t);
            m.varint64(e, f, v);
        }
    }
    m.finish(e)
}

fn h_header(g: &mut Gen) -> Vec<u8> {
    let e = &mut Enc::new(Style::default());
    let mut m = Msg::new();
    if g.chance(2, 3) {
        let mut b = Msg::new();
        for f in 1..=4 {
            let v = nasty(g);
            b.sint64(e, f, v);
        }
        let b = b.finish(e);
        m.bytes(1, &b);
    }
    for f in [4, 5, 16, 17, 34] {
        for _ in 0..g.below(3) {
            let x = if g.chance(1, 30) { gen_bad_utf8(g) } else { gen_string(g).into_bytes() };
            m.bytes(f, &x);
        }
    }
    for f in [32, 33] {
        if g.chance(1, 2) {
            let v = nasty(g);
            m.varint64(e, f, v as u64);
        }
    }
    m.finish(e)
}

/// Flip, insert, delete, duplicate, overwrite or truncate.
fn mutate(g: &mut Gen, v: &mut Vec<u8>) {
    let k = 1 + g.below(4);
    for _ in 0..k {
        g.open();
        let n = v.len();
        match g.below(9) {
            0 if n > 0 => {
                let i = g.below(n);
                v[i] ^= 1 << g.below(8);
            }
            1 if n > 0 => {
                let i = g.below(n);
                v[i] = *g.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0x08, 0x0a, 0x12, 0x0b, 0x0c, 0x78]);
            }
            2 => {
                let i = g.below(n + 1);
                let c = 1 + g.below(5);
                let b = g.draw(256) as u8;
                v.splice(i..i, std::iter::repeat_n(b, c));
            }
            3 if n > 0 => {
                let i = g.below(n);
                let j = (i + 1 + g.below(8)).min(n);
                v.drain(i..j);
            }
            4 if n > 0 => {
                let i = g.below(n);
                let j = (i + 1 + g.below(30)).min(n);
                let w: Vec<u8> = v[i..j].to_vec();
                let at = g.below(n + 1);
                v.splice(at..at, w);
            }
            5 if n > 0 => {
                let k = g.below(n);
                v.truncate(k);
            }
            6 => {
                // a length or count claim
                let i = g.below(n + 1);
                let mut x = vec![];
                put_varint(&mut x, nasty(g) as u64);
                let j = (i + x.len()).min(n);
                if g.chance(1, 2) {
                    v.splice(i..i, x);
                } else {
                    v.splice(i..j, x);
                }
            }
            7 => {
                // a length-delimited field which claims much more than there is
                let i = g.below(n + 1);
                let f = 1 + g.draw(20);
                let mut x = vec![];
                put_varint(&mut x, f << 3 | 2);
                put_varint(&mut x, *g.pick(&[9_999_999u64, 0x7fff_ffff, 0xffff_ffff, 1 << 20, 1 << 40, u64::MAX]));
                v.splice(i..i, x);
            }
            _ if n > 8 => {
                let d = gen_dmg(g, n);
                *v = crate::props::damage::apply_dmg(v, &d);
            }
            _ => v.push(g.draw(256) as u8),
        }
        g.close();
    }
}

/// Raw bytes, one draw each.
fn raw_bytes(g: &mut Gen, max: usize) -> Vec<u8> {
    let n = g.below(max + 1);
    (0..n).map(|_| g.draw(256) as u8).collect()
}

/// One blob, hostile at any layer.
fn h_blob(g: &mut Gen, out: &mut Vec<u8>, sane: &Cfg) {
    g.open();
    let what = g.weighted(&[64, 12, 16, 8]);
    let mut ty: Vec<u8> = b"OSMData".to_vec();
    let mut c = match what {
        0 => h_block(g),
        1 => {
            ty = b"OSMHeader".to_vec();
            h_header(g)
        }
        2 => {
            let b = gen_blob(g, sane);
            ty = b.type_name().as_bytes().to_vec();
            content(&b, &mut Enc::new(b.style))
        }
        _ => {
            if g.chance(1, 3) {
                ty = b"OSMHeader".to_vec();
            }
            raw_bytes(g, 60)
        }
    };
    match g.below(24) {
        0 => ty = b"OSMHeader".to_vec(),
        1 => ty = b"OSMData".to_vec(),
        2 if g.chance(1, 4) => ty = gen_bad_utf8(g),
        3 => ty = gen_string(g).into_bytes(),
        _ => {}
    }
    if what == 2 || g.chance(1, 14) {
        mutate(g, &mut c);
    }
    let e = &mut Enc::new(Style::default());
    let zl = g.chance(1, 3);
    let mut stored = if zl { zlib(&c, g.below(10) as u8) } else { c.clone() };
    if zl && g.chance(1, 8) {
        mutate(g, &mut stored);
    }
    let rs = match g.below(6) {
        0 => Some(*g.pick(&[i32::MAX, i32::MIN, -1, 0, 1, 1 << 30, (32 << 20) - 1, 32 << 20, (32 << 20) + 1])),
        1 => Some(c.len() as i32),
        _ => None,
    };
    let pay = if zl {
        Pay::Zlib(6)
    } else if g.chance(1, 16) {
        Pay::Other(4 + g.below(4) as u32)
    } else if g.chance(1, 24) {
        Pay::Missing
    } else {
        Pay::Raw
    };
    let mut d = blob_msg(pay, &stored, rs, g.chance(1, 2), e);
    if g.chance(1, 10) {
        mutate(g, &mut d);
    }
    let size = if g.chance(1, 20) { val(g, Ty::I32) as i64 } else { d.len() as i64 };
    let mut m = Msg::new();
    m.bytes(1, &ty);
    if g.chance(1, 8) {
        let x = raw_bytes(g, 20);
        m.bytes(2, &x);
    }
    m.varint64(e, 3, size as u64);
    let mut h = m.finish(e);
    if g.chance(1, 16) {
        mutate(g, &mut h);
    }
    if g.chance(1, 16) {
        let n = match g.below(3) {
            0 => nasty(g) as u32,
            1 => (h.len() as u32).wrapping_add(g.range(-3, 3) as u32),
            _ => *g.pick(&[0u32, 65535, 65536, u32::MAX, 0x7fff_ffff, 1 << 20]),
        };
        out.extend_from_slice(&n.to_be_bytes());
        out.extend_from_slice(&h);
        out.extend_from_slice(&d);
    } else {
        frame(out, &h, &d);
    }
    g.close();
}

fn small() -> Cfg {
    Cfg {
        max_blobs: 4,
        big: 150,
        big_cap: 600,
        many: 60,
        bad_utf8: true,
        style16: 4,
        ..Cfg::default()
    }
}

fn gen_hostile(g: &mut Gen, c: &mut Case) -> Vec<u8> {
    let cfg = small();
    let mut out = vec![];
    match g.weighted(&[64, 10, 8, 7, 11]) {
        0 => {
            c.label("hostile structure");
            for _ in 0..1 + g.below(4) {
                h_blob(g, &mut out, &cfg);
            }
        }
        1 => {
            c.label("mutated file");
            let f = gen_file(g, &cfg);
            out = encode_file(&f).0;
            mutate(g, &mut out);
        }
        2 => {
            c.label("one defect");
            out = gen_defective(g, &cfg).bytes;
        }
        3 => {
            c.label("raw bytes");
            if g.chance(1, 2) {
                // a plausible start
                let h = header_msg(b"OSMData", None, 40, &mut Enc::new(Style::default()));
                out.extend_from_slice(&(h.len() as u32).to_be_bytes());
                out.extend_from_slice(&h);
            }
            let x = raw_bytes(g, 400);
            out.extend_from_slice(&x);
        }
        _ => {
            // every byte of the content is the fuzzer's
            c.label("raw content");
            let head = g.chance(1, 5);
            let mut x = vec![];
            if !head && g.chance(3, 4) {
                x.extend_from_slice(&[0x0a, 0x06, 0x0a, 0x00, 0x0a, 0x02, b'a', b'b']);
            }
            x.extend_from_slice(&raw_bytes(g, 300));
            let e = &mut Enc::new(Style::default());
            let d = blob_msg(Pay::Raw, &x, None, false, e);
            let h = header_msg(if head { b"OSMHeader" } else { b"OSMData" }, None, d.len() as i32, e);
            frame(&mut out, &h, &d);
        }
    }
    out
}

// -------------------------------------------------------------- the bounds

/// Bytes of content in the file as far as an independent reader can tell:
/// the file itself, and everything in it that inflates.
fn content_bound(bytes: &[u8]) -> u64 {
    let mut n = bytes.len() as u64;
    let mut tries = 0;
    for i in 0..bytes.len().saturating_sub(1) {
        let cmf = bytes[i];
        if cmf & 15 == 8 && cmf >> 4 <= 7 && (u16::from(cmf) << 8 | u16::from(bytes[i + 1])) % 31 == 0 {
            tries += 1;
            if tries > 200 {
                break;
            }
            n += inflated(&bytes[i..]);
        }
    }
    n
}

fn inflated(z: &[u8]) -> u64 {
    match miniz_oxide::inflate::decompress_to_vec_zlib_with_limit(z, 33 << 20) {
        Ok(v) => v.len() as u64,
        Err(e) => e.output.len() as u64,
    }
}

struct Bound {
    items: u64,
    steps: u64,
    mem: i64,
}

impl Bound {
    fn of(content: u64) -> Bound {
        Bound {
            items: 4096 + 64 * content,
            steps: 20_000_000 + 20_000 * content,
            mem: (160 << 20) + 400 * content as i64,
        }
    }
    /// Run one operation within the bounds.
    fn run<T>(&self, what: &str, f: impl FnOnce() -> T) -> std::result::Result<T, String> {
        set_item_cap(self.items);
        guard::arm_steps(self.steps);
        guard::arm_mem(2 << 30);
        let r = f();
        let (peak, single) = guard::mem();
        guard::disarm();
        ensure!(
            peak <= self.mem,
            "{what}: {peak} bytes of memory in use (largest request {single}), the input justifies at most {}",
            self.mem
        );
        Ok(r)
    }
}

// ------------------------------------------------------------------ touching

#[derive(Default, Clone, Copy)]
struct Seen {
    blobs: u64,
    elems: u64,
    headers: u64,
    errors: u64,
}

fn show_err(e: &Error, s: &mut Seen) {
    s.errors += 1;
    let t = format!("{e} {e:?}");
    let _ = t.len();
    let mut src = e.source();
    let mut n = 0;
    while let Some(x) = src {
        let _ = format!("{x} {x:?}");
        src = x.source();
        n += 1;
        assert!(n < 100, "{}: endless chain of error sources", crate::case::BUDGET_MARK);
    }
    #[allow(deprecated)]
    let _ = (format!("{:?}", e.kind()), e.description().len(), e.cause().map(|x| x.to_string()));
}

/// Every way of walking one iterator.
fn poke<I: Iterator + Clone>(it: I, len: impl Fn(&I) -> usize) {
    let (lo, hi) = it.size_hint();
    let n = len(&it);
    let _ = lo + n + hi.unwrap_or(0);
    let mut a = it.clone();
    let mut k = 0usize;
    while a.next().is_some() {
        tick();
        k += 1;
        if k < 4 {
            let _ = (a.size_hint(), len(&a), a.clone().next().is_some());
        }
    }
    let _ = a.size_hint();
    for _ in 0..3 {
        let _ = a.next().is_some();
    }
    for i in [0, 1, k / 2, k, k + 1, usize::MAX] {
        let mut b = it.clone();
        let _ = b.nth(i).is_some();
        let _ = b.size_hint();
        let _ = b.next().is_some();
    }
    let mut left = k as u64 + 2;
    let _ = it.clone().last().is_some();
    let _ = it.clone().count();
    let _ = it.take_while(|_| {
        left = left.saturating_sub(1);
        left > 0
    })
    .count();
}

fn poke_elem(e: &Element<'_>) {
    match e {
        Element::Node(n) => {
            poke(n.tags(), |i| i.len());
            poke(n.raw_tags(), |i| i.len());
            let _ = n.raw_stringtable().len();
            let _ = format!("{n:?}");
        }
        Element::DenseNode(n) => {
            poke(n.tags(), |i| i.len());
            poke(n.raw_tags(), |i| i.len());
            let _ = format!("{n:?}");
        }
        Element::Way(w) => {
            poke(w.tags(), |i| i.len());
            poke(w.raw_tags(), |i| i.len());
            poke(w.refs(), |i| i.len());
            poke(w.node_locations(), |i| i.len());
            let _ = (w.raw_stringtable().len(), w.raw_refs().len());
            let _ = format!("{w:?}");
        }
        Element::Relation(r) => {
            poke(r.tags(), |i| i.len());
            poke(r.raw_tags(), |i| i.len());
            poke(r.members(), |i| i.len());
            let _ = r.raw_stringtable().len();
            let _ = format!("{r:?}");
        }
    }
}

fn touch(e: &Element<'_>, s: &mut Seen) {
    s.elems += 1;
    let o = of_elem(e, ALL);
    let _ = o.id;
    if s.elems <= 64 {
        poke_elem(e);
    }
}

fn touch_block(b: &PrimitiveBlock, s: &mut Seen) {
    for x in b.raw_stringtable() {
        tick();
        let _ = x.len();
    }
    let before = s.elems;
    for e in b.elements() {
        tick();
        touch(&e, s);
    }
    let mut it = b.elements();
    while it.next().is_some() {
        tick();
    }
    for _ in 0..3 {
        let _ = it.next().is_some();
    }
    let mut n = 0;
    b.for_each_element(|e| {
        touch(&e, s);
        n += 1;
    });
    let _ = n == s.elems - before;
    poke(b.groups(), |i| i.len());
    for g in b.groups() {
        tick();
        if b.groups().len() <= 64 {
            poke(g.nodes(), |i| i.len());
            poke(g.dense_nodes(), |i| i.len());
            poke(g.ways(), |i| i.len());
            poke(g.relations(), |i| i.len());
        }
        for n in g.nodes() {
            touch(&Element::Node(n), s);
        }
        for n in g.dense_nodes() {
            touch(&Element::DenseNode(n), s);
        }
        for n in g.ways() {
            touch(&Element::Way(n), s);
        }
        for n in g.relations() {
            touch(&Element::Relation(n), s);
        }
    }
}

fn touch_header(h: &HeaderBlock, s: &mut Seen) {
    s.headers += 1;
    let _ = of_header(h);
    let _ = format!("{h:?}");
}

fn touch_decode(d: Result<BlobDecode<'_>>, s: &mut Seen) {
    match d {
        Ok(BlobDecode::OsmData(b)) => touch_block(&b, s),
        Ok(BlobDecode::OsmHeader(h)) => touch_header(&h, s),
        Ok(BlobDecode::Unknown(t)) => {
            let _ = t.len();
        }
        Err(e) => show_err(&e, s),
    }
}

fn touch_blob(b: &Blob, s: &mut Seen) {
    s.blobs += 1;
    let _ = (b.get_type().as_str().len(), b.offset());
    touch_decode(b.decode(), s);
    match b.to_primitiveblock() {
        Ok(p) => {
            for e in p.elements() {
                tick();
                let _ = e;
            }
        }
        Err(e) => show_err(&e, s),
    }
    match b.to_headerblock() {
        Ok(h) => touch_header(&h, s),
        Err(e) => show_err(&e, s),
    }
}

/// Iterate, going on after the end.
fn drain_stream<T: Read + Send>(mut rd: BlobReader<T>, s: &mut Seen) {
    let mut ends = 0;
    while ends < 5 {
        tick();
        match rd.next() {
            Some(Ok(b)) => touch_blob(&b, s),
            Some(Err(e)) => {
                show_err(&e, s);
                ends += 1;
            }
            None => ends += 1,
        }
    }
}

fn drain_mmap(m: &Mmap, at: Option<u64>, s: &mut Seen) {
    let mut it = m.blob_iter();
    if let Some(p) = at {
        it.seek(ByteOffset(p));
    }
    let mut ends = 0;
    while ends < 5 {
        tick();
        match it.next() {
            Some(Ok(b)) => {
                s.blobs += 1;
                let _ = (b.get_type().as_str().len(), b.offset());
                touch_decode(b.decode(), s);
            }
            Some(Err(e)) => {
                show_err(&e, s);
                ends += 1;
            }
            None => ends += 1,
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Next,
    Skip,
    From(u64),
    Seek(u64),
    SeekRaw(SeekFrom),
}

fn gen_off(g: &mut Gen, len: usize, marks: &[u64]) -> u64 {
    match g.weighted(&[50, 25, 10, 15]) {
        0 if !marks.is_empty() => *g.pick(marks),
        0 | 1 => g.draw(len as u64 + 3),
        2 => *g.pick(&[u64::MAX, u64::MAX - 1, u64::MAX - 4, i64::MAX as u64, 1 << 63, 1 << 32]),
        _ => 0,
    }
}

fn gen_op(g: &mut Gen, len: usize, marks: &[u64]) -> Op {
    match g.below(6) {
        0 | 1 => Op::Next,
        2 => Op::Skip,
        3 => Op::From(gen_off(g, len, marks)),
        4 => Op::Seek(gen_off(g, len, marks)),
        _ => Op::SeekRaw(match g.below(3) {
            0 => SeekFrom::Start(gen_off(g, len, marks)),
            1 => SeekFrom::Current(if g.chance(1, 3) { nasty(g) } else { g.range(-20, 20) }),
            _ => SeekFrom::End(if g.chance(1, 3) { nasty(g) } else { g.range(-(len as i64) - 2, 2) }),
        }),
    }
}

fn do_op<T: Read + Seek + Send>(rd: &mut BlobReader<T>, op: Op, s: &mut Seen) {
    match op {
        Op::Next => match rd.next() {
            Some(Ok(b)) => touch_blob(&b, s),
            Some(Err(e)) => show_err(&e, s),
            None => {}
        },
        Op::Skip => match rd.next_header_skip_blob() {
            Some(Ok((h, _))) => {
                let _ = (h.blob_type().as_str().len(), h.get_blob_size());
            }
            Some(Err(e)) => show_err(&e, s),
            None => {}
        },
        Op::From(o) => match rd.blob_from_offset(ByteOffset(o)) {
            Ok(b) => touch_blob(&b, s),
            Err(e) => show_err(&e, s),
        },
        Op::Seek(o) => {
            if let Err(e) = rd.seek(ByteOffset(o)) {
                show_err(&e, s);
            }
        }
        Op::SeekRaw(p) => {
            if let Err(e) = rd.seek_raw(p) {
                show_err(&e, s);
            }
        }
    }
}

fn drain_skip<T: Read + Seek + Send>(rd: &mut BlobReader<T>, s: &mut Seen) {
    let mut ends = 0;
    while ends < 3 {
        tick();
        match rd.next_header_skip_blob() {
            Some(Ok((h, _))) => {
                let _ = (h.blob_type().as_str().len(), h.get_blob_size());
            }
            Some(Err(e)) => {
                show_err(&e, s);
                ends += 1;
            }
            None => ends += 1,
        }
    }
}

fn index_op<T: Read + Seek + Send>(ix: &mut IndexedReader<T>, k: usize, s: &mut Seen) {
    let r = match k {
        0 => ix.create_index(),
        1 => ix.for_each_node(|e| touch(&e, s)),
        2 => ix.read_ways_and_deps(|_| true, |e| touch(e, s)),
        3 => ix.read_ways_and_deps(|w| w.id() & 1 == 0, |e| touch(e, s)),
        _ => ix.read_ways_and_deps(|w| { let _ = of_way(w, ALL); false }, |e| touch(e, s)),
    };
    if let Err(e) = r {
        show_err(&e, s);
    }
}

/// Everything, on one byte string.
fn everything(bytes: &[u8], ops: &[Op], ix_ops: &[usize], frag: (u64, u64), mm: &[u64], par: usize) -> std::result::Result<Seen, String> {
    let bytes = Arc::new(bytes.to_vec());
    let b = Bound::of(content_bound(&bytes));
    let rd = |f: (u64, u64)| TestReader::new(&bytes, &plan(bytes.len(), f.0, f.1));
    let mut s = Seen::default();
    b.run("blob iteration", || drain_stream(BlobReader::new(rd(frag)), &mut s))?;
    b.run("sequential reading", || {
        if let Err(e) = ElementReader::new(rd((0, 0))).for_each(|e| touch(&e, &mut s)) {
            show_err(&e, &mut s);
        }
    })?;
    let t = Tmp::new(&bytes);
    b.run("reading from a path", || {
        match BlobReader::from_path(&t.0) {
            Ok(r) => drain_stream(r, &mut s),
            Err(e) => show_err(&e, &mut s),
        }
    })?;
    {
        let m = map_file(&t)?;
        b.run("memory map", || drain_mmap(&m, None, &mut s))?;
        for p in mm {
            b.run(&format!("memory map from offset {p}"), || drain_mmap(&m, Some(*p), &mut s))?;
        }
    }
    b.run("header skipping", || match BlobReader::new_seekable(rd(frag)) {
        Ok(mut r) => drain_skip(&mut r, &mut s),
        Err(e) => show_err(&e, &mut s),
    })?;
    b.run("header skipping without offsets", || {
        let mut r = BlobReader::new(rd((0, 0)));
        drain_skip(&mut r, &mut s)
    })?;
    if !ops.is_empty() {
        // one bound for each operation of the history
        let made = b.run("seekable reader", || BlobReader::new_seekable(Cursor::new(bytes.as_slice())))?;
        if let Ok(mut r) = made {
            for op in ops {
                b.run(&format!("{op:?}"), || do_op(&mut r, *op, &mut s))?;
            }
        }
        let mut r = b.run("seekable reader from a path", || BlobReader::seekable_from_path(&t.0))?.map_err(|e| ek(&e))?;
        for op in ops {
            b.run(&format!("{op:?}"), || do_op(&mut r, *op, &mut s))?;
        }
    }
    if !ix_ops.is_empty() {
        let made = b.run("indexed reader", || IndexedReader::new(rd(frag)))?;
        match made {
            Ok(mut ix) => {
                for k in ix_ops {
                    b.run("indexed operation", || index_op(&mut ix, *k, &mut s))?;
                }
            }
            Err(e) => show_err(&e, &mut s),
        }
    }
    if par > 0 {
        let p = pool(par);
        let r = b.run("parallel reading", || {
            let r = rd((0, 0));
            p.install(|| {
                ElementReader::new(r).par_map_reduce(
                    |e| {
                        let mut s = Seen::default();
                        touch(&e, &mut s);
                        s.elems
                    },
                    || 0u64,
                    |a, b| a + b,
                )
            })
        })?;
        if let Err(e) = r {
            show_err(&e, &mut s);
        }
    }
    Ok(s)
}

fn c17(g: &mut Gen, c: &mut Case) -> R {
    let bytes = gen_hostile(g, c);
    c.file(&bytes);
    let marks = starts(&bytes);
    let frag = gen_frag(g);
    let no = g.below(7);
    let ops: Vec<Op> = (0..no).map(|_| gen_op(g, bytes.len(), &marks)).collect();
    let nx = g.below(4);
    let ixo: Vec<usize> = (0..nx).map(|_| g.below(5)).collect();
    let nm = g.below(3);
    let mm: Vec<u64> = (0..nm).map(|_| gen_off(g, bytes.len(), &marks)).collect();
    let par = if g.chance(1, 6) { 1 + g.below(3) } else { 0 };
    c.note(|| format!("{} bytes, fragments {frag:?}, reader {ops:?}, index {ixo:?}, map from {mm:?}, parallel {par}", bytes.len()));
    c.note(|| hex(&bytes));
    let s = everything(&bytes, &ops, &ixo, frag, &mm, par)?;
    c.label_if(s.elems > 0, "elements delivered");
    c.label_if(s.headers > 0, "headers delivered");
    c.label_if(s.errors > 0, "errors");
    c.label_if(s.elems > 0 && s.errors > 0, "elements and errors");
    c.nontrivial = s.blobs > 0;
    Ok(())
}

/// Offsets at which a blob seems to start, following the framing.
fn starts(b: &[u8]) -> Vec<u64> {
    let mut v = vec![];
    let mut p = 0usize;
    while p + 4 <= b.len() && v.len() < 64 {
        v.push(p as u64);
        let n = u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as usize;
        let Some(h) = b.get(p + 4..).and_then(|x| x.get(..n)) else { break };
        // the size is field 3, a varint, usually the last one
        let Some(i) = (0..h.len()).rev().find(|i| h[*i] == 0x18) else { break };
        let mut sz = 0u64;
        for (k, x) in h[i + 1..].iter().take(5).enumerate() {
            sz |= u64::from(x & 0x7f) << (7 * k);
            if x & 0x80 == 0 {
                break;
            }
        }
        p = match p.checked_add(4 + n).and_then(|q| q.checked_add(sz as usize)) {
            Some(q) => q,
            None => break,
        };
    }
    v
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(400) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 400 {
        s.push('…');
    }
    s
}

// -------------------------------------------------------------- pinned cases

fn run_pinned(c: &mut Case, bytes: &[u8]) -> R {
    c.file(bytes);
    let ops = [
        Op::Next,
        Op::Next,
        Op::Skip,
        Op::Seek(0),
        Op::Skip,
        Op::Next,
        Op::From(0),
        Op::From(u64::MAX),
        Op::SeekRaw(SeekFrom::Start(u64::MAX)),
        Op::Next,
        Op::SeekRaw(SeekFrom::End(i64::MIN)),
        Op::Skip,
        Op::SeekRaw(SeekFrom::Current(i64::MAX)),
        Op::Next,
        Op::Skip,
        Op::SeekRaw(SeekFrom::Start(0)),
        Op::Next,
    ];
    let s = everything(bytes, &ops, &[0, 1, 2, 3, 4, 1], (0, 0), &[bytes.len() as u64, bytes.len() as u64 + 1, u64::MAX, 1, u64::MAX - 3], 2)?;
    c.nontrivial = s.blobs > 0;
    Ok(())
}

fn one_block(block: &[u8], size: Option<i32>) -> Vec<u8> {
    let e = &mut Enc::new(Style::default());
    let mut out = vec![];
    let d = blob_msg(Pay::Raw, block, None, false, e);
    let h = header_msg(b"OSMData", None, size.unwrap_or(d.len() as i32), e);
    frame(&mut out, &h, &d);
    out
}

fn block_of(field: u32, elem: &[u8], tail: &[(u32, i64)]) -> Vec<u8> {
    let e = &mut Enc::new(Style::default());
    let mut gm = Msg::new();
    gm.bytes(field, elem);
    let gb = gm.finish(e);
    let mut m = Msg::new();
    m.bytes(1, &[0x0a, 0x00, 0x0a, 0x01, b'a']);
    m.bytes(2, &gb);
    for (f, v) in tail {
        m.varint64(e, *f, *v as u64);
    }
    m.finish(e)
}

fn p_empty(c: &mut Case) -> R {
    run_pinned(c, &[])
}
fn p_sizes(c: &mut Case) -> R {
    let good = one_block(&block_of(3, &[0x08, 1], &[]), None);
    for n in [-1, -2, -10, i32::MIN, -(good.len() as i32), i32::MAX, 1 << 30, 1 << 25] {
        let mut b = good.clone();
        b.extend_from_slice(&one_block(&block_of(3, &[0x08, 1], &[]), Some(n)));
        b.extend_from_slice(&good);
        run_pinned(c, &b)?;
    }
    for n in [0u32, 1, 65535, 65536, 1 << 31, u32::MAX] {
        let mut b = good.clone();
        b.extend_from_slice(&n.to_be_bytes());
        b.extend_from_slice(&good);
        run_pinned(c, &b)?;
    }
    Ok(())
}
fn p_member(c: &mut Case) -> R {
    for t in [3i64, 4, 7, -1, i64::from(i32::MAX), i64::from(i32::MIN), i64::MAX] {
        let e = &mut Enc::new(Style::default());
        let mut m = Msg::new();
        m.varint64(e, 1, 5);
        m.packed(e, 8, &[1, 1, 1]);
        m.packed(e, 9, &[2, 2, 2]);
        m.packed(e, 10, &[0, t as u64, 2]);
        let r = m.finish(e);
        run_pinned(c, &one_block(&block_of(4, &r, &[]), None))?;
    }
    Ok(())
}
fn p_extremes(c: &mut Case) -> R {
    let x = [i64::MIN, i64::MAX, 0, -1];
    for a in x {
        for (gran, off) in [(100, 0), (i64::from(i32::MAX), i64::MAX), (i64::from(i32::MIN), i64::MIN), (-1, i64::MIN), (0, i64::MAX)] {
            let e = &mut Enc::new(Style::default());
            let tail = [(17, gran), (18, gran), (19, off), (20, off)];
            let mut i = Msg::new();
            i.varint64(e, 1, a as u64);
            i.varint64(e, 2, a as u64);
            i.varint64(e, 3, a as u64);
            let ib = i.finish(e);
            let mut n = Msg::new();
            n.varint64(e, 1, zz(a));
            n.bytes(4, &ib);
            n.varint64(e, 8, zz(a));
            n.varint64(e, 9, zz(a));
            let nb = n.finish(e);
            run_pinned(c, &one_block(&block_of(1, &nb, &tail), None))?;
            let col: Vec<u64> = (0..4).map(|_| zz(a)).collect();
            let mut di = Msg::new();
            for f in 1..=6 {
                di.packed(e, f, &col);
            }
            let dib = di.finish(e);
            let mut d = Msg::new();
            d.packed(e, 1, &col);
            d.bytes(5, &dib);
            d.packed(e, 8, &col);
            d.packed(e, 9, &col);
            d.packed(e, 10, &[1, 1, 0, 0, 1, u64::MAX, 0, 1]);
            let db = d.finish(e);
            run_pinned(c, &one_block(&block_of(2, &db, &tail), None))?;
            let mut w = Msg::new();
            w.varint64(e, 1, a as u64);
            w.bytes(4, &ib);
            w.packed(e, 8, &col);
            w.packed(e, 9, &col);
            w.packed(e, 10, &col);
            let wb = w.finish(e);
            run_pinned(c, &one_block(&block_of(3, &wb, &tail), None))?;
            let mut r = Msg::new();
            r.varint64(e, 1, a as u64);
            r.packed(e, 8, &[a as u64, 0]);
            r.packed(e, 9, &col);
            r.packed(e, 10, &[0, 1, 2, 0]);
            let rb = r.finish(e);
            run_pinned(c, &one_block(&block_of(4, &rb, &tail), None))?;
        }
    }
    Ok(())
}
/// What lengths merely claim.
fn p_claims(c: &mut Case) -> R {
    let claims: &[u64] = &[9_999_999, 10_000_000, 10_000_001, 0x7fff_ffff, 0xffff_fffe, 1 << 40, u64::MAX];
    for claim in claims {
        let mut len = vec![];
        put_varint(&mut len, *claim);
        // in the blob message (raw and zlib), in the block, and in a packed column
        for f in [1u64, 3] {
            let mut d = vec![(f << 3 | 2) as u8];
            d.extend_from_slice(&len);
            d.extend_from_slice(&[0x78, 0x9c, 1, 2, 3]);
            for size in [d.len() as i32, i32::MAX, 500_000_000] {
                let mut out = vec![];
                let h = header_msg(b"OSMData", None, size, &mut Enc::new(Style::default()));
                frame(&mut out, &h, &d);
                run_pinned(c, &out)?;
            }
        }
        for f in [1u32, 5, 8, 10] {
            let mut d = vec![(f << 3 | 2) as u8];
            d.extend_from_slice(&len);
            d.push(1);
            let block = block_of(2, &d, &[]);
            run_pinned(c, &one_block(&block, None))?;
            let mut out = vec![];
            let e = &mut Enc::new(Style::default());
            let m = blob_msg(Pay::Zlib(6), &zlib(&block, 6), Some(i32::MAX), false, e);
            let h = header_msg(b"OSMData", None, m.len() as i32, e);
            frame(&mut out, &h, &m);
            run_pinned(c, &out)?;
        }
    }
    Ok(())
}
/// Unknown groups within groups, as deep as there is room, at every level.
fn p_nested(c: &mut Case) -> R {
    for depth in [3usize, 90, 101, 30_000, 2_000_000] {
        for close in [true, false] {
            let mut d = vec![12 << 3 | 3u8; depth];
            if close {
                d.extend(std::iter::repeat_n(12 << 3 | 4u8, depth));
            }
            let e = &mut Enc::new(Style::default());
            for field in 1..5 {
                run_pinned(c, &one_block(&block_of(field, &d, &[]), None))?;
            }
            run_pinned(c, &one_block(&d, None))?;
            let mut out = vec![];
            let h = header_msg(b"OSMData", None, d.len() as i32, e);
            frame(&mut out, &h, &d);
            run_pinned(c, &out)?;
            let mut h = header_msg(b"OSMData", None, 0, e);
            h.extend_from_slice(&d);
            let mut out = vec![];
            frame(&mut out, &h, &[]);
            run_pinned(c, &out)?;
        }
    }
    Ok(())
}
/// The same blobs over and over.
#[derive(Clone)]
struct Cycle {
    unit: Arc<Vec<u8>>,
    len: u64,
    pos: u64,
}

impl std::io::Read for Cycle {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let at = (self.pos % self.unit.len() as u64) as usize;
        let n = b.len().min(self.unit.len() - at).min(self.len.saturating_sub(self.pos) as usize);
        b[..n].copy_from_slice(&self.unit[at..at + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl std::io::Seek for Cycle {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        let to = match p {
            std::io::SeekFrom::Start(p) => p as i64,
            std::io::SeekFrom::End(d) => self.len as i64 + d,
            std::io::SeekFrom::Current(d) => self.pos as i64 + d,
        };
        self.pos = u64::try_from(to).map_err(|_| std::io::Error::from(std::io::ErrorKind::InvalidInput))?;
        Ok(self.pos)
    }
}

/// A long file takes no more memory than a short one of the same blobs.
fn p_long(c: &mut Case) -> R {
    let block = |big: usize| BlockM {
        strings: vec![vec![], vec![b'x'; big]],
        groups: vec![GroupM {
            nodes: vec![NodeM {
                id: 4,
                ..NodeM::default()
            }],
            ways: vec![WayM {
                id: 5,
                refs: vec![4],
                ..WayM::default()
            }],
            ..GroupM::default()
        }],
        ..BlockM::default()
    };
    let mut blobs = vec![];
    for p in [Pay::Raw, Pay::Zlib(1)] {
        let mut b = BlobM::new(Kind::Data(block(1 << 20)));
        b.pay = p;
        blobs.push(b);
    }
    let (bytes, _) = encode_file(&FileM { blobs });
    let unit = Arc::new(bytes);
    c.file(&unit);
    c.nontrivial = true;
    let need = |op: &str, n: u64| -> std::result::Result<i64, String> {
        let rd = Cycle {
            unit: unit.clone(),
            len: n * unit.len() as u64,
            pos: 0,
        };
        let e = |e: Error| format!("{op} over {} blobs fails: {}", 2 * n, ek(&e));
        guard::arm_mem(1 << 34);
        let mut k = 0;
        match op {
            "for_each" => ElementReader::new(rd).for_each(|_| k += 1).map_err(e)?,
            "reading blobs" => {
                for b in BlobReader::new(rd) {
                    let b = b.map_err(e)?;
                    b.to_primitiveblock().map_err(e)?.for_each_element(|_| k += 1);
                }
            }
            "skipping blobs" => {
                let mut rd = BlobReader::new_seekable(rd).map_err(e)?;
                while let Some(x) = rd.next_header_skip_blob() {
                    x.map_err(e)?;
                    k += 2;
                }
            }
            "indexed nodes" => IndexedReader::new(rd).and_then(|mut x| x.for_each_node(|_| k += 2)).map_err(e)?,
            "an indexed query" => IndexedReader::new(rd)
                .and_then(|mut x| x.read_ways_and_deps(|_| true, |_| k += 1))
                .map_err(e)?,
            _ => {
                let t = Tmp::new(&unit.repeat(n as usize));
                let m = super::access::map_file(&t)?;
                guard::arm_mem(1 << 34);
                for b in m.blob_iter() {
                    match b.map_err(e)?.decode().map_err(e)? {
                        BlobDecode::OsmData(x) => x.for_each_element(|_| k += 1),
                        _ => ensure!(false, "data blob is none by memory map"),
                    }
                }
            }
        }
        ensure!(k == 4 * n, "{op} over {} blobs sees {k} elements", 2 * n);
        Ok(guard::mem().0)
    };
    for op in ["for_each", "reading blobs", "skipping blobs", "indexed nodes", "an indexed query", "a memory map"] {
        let (few, many) = (need(op, 6)?, need(op, 60)?);
        ensure!(
            many < few + (16 << 20),
            "{op} of 12 blobs takes {} MiB at a time, of 120 such blobs {} MiB",
            few >> 20,
            many >> 20
        );
    }
    Ok(())
}
/// Compressed content up to and beyond the limit.
fn p_bomb(c: &mut Case) -> R {
    for n in [1usize << 20, (32 << 20) - 64, 32 << 20, 100 << 20] {
        let mut block = vec![0x0a, 0x02, 0x0a, 0x00];
        // an unknown field of the given length
        let mut h = vec![0xa2, 0x06];
        put_varint(&mut h, n as u64 - 16);
        block.extend_from_slice(&h);
        block.resize(n.max(block.len()), 0);
        let e = &mut Enc::new(Style::default());
        let m = blob_msg(Pay::Zlib(1), &zlib(&block, 1), None, false, e);
        let h = header_msg(b"OSMData", None, m.len() as i32, e);
        let mut out = vec![];
        frame(&mut out, &h, &m);
        c.file(&out);
        let bytes = Arc::new(out);
        let b = Bound {
            items: 4096,
            steps: 2_000_000_000,
            mem: (160 << 20) + 64 * (1 << 20),
        };
        let mut s = Seen::default();
        b.run("blob iteration over highly compressed content", || {
            drain_stream(BlobReader::new(TestReader::new(&bytes, &plan(bytes.len(), 0, 0))), &mut s)
        })?;
        let t = Tmp::new(&bytes);
        let mm = map_file(&t)?;
        b.run("memory map over highly compressed content", || drain_mmap(&mm, None, &mut s))?;
        b.run("sequential reading of highly compressed content", || {
            let _ = ElementReader::new(TestReader::new(&bytes, &plan(bytes.len(), 0, 0))).for_each(|e| touch(&e, &mut s));
        })?;
        c.nontrivial = true;
    }
    Ok(())
}

pub static C17: Prop = Prop {
    id: "C17",
    run: c17,
    pinned: &[
        ("empty input, and positions far beyond it", p_empty),
        ("negative and huge header and blob sizes", p_sizes),
        ("undefined relation member types", p_member),
        ("extreme coordinates, differences, granularities and offsets", p_extremes),
        ("lengths that are only claimed", p_claims),
        ("highly compressed content", p_bomb),
        ("unknown groups within groups", p_nested),
        ("memory for few and for many blobs", p_long),
        // steps are bounded here as well: time must not grow with the square of these numbers
        ("four million dense nodes", super::huge::dense),
        ("four million dense nodes almost without tags", super::huge::dense_untagged),
        ("two million dense nodes with metadata", super::huge::dense_info),
        ("a million tags, two million strings", super::huge::tags),
        ("eight million members", super::huge::members),
        ("a million groups", super::huge::groups),
        ("a million blobs", super::huge::blobs),
        ("a million nodes of a way", super::huge::indexed),
    ],
    rule: "a case is one byte string with one history of reading operations; non-trivial: at least one blob was delivered, so that something beyond the first framing was exercised",
    quick: 60_000,
    thorough: 2_000_000,
    workers: 8,
    fuzz: (8_000, 400_000),
};
