//! C14, C15, C16, C18, C19, C22, C23: files and readers that are not in order.

use crate::case::{Case, Tmp, R};
use crate::driver::Prop;
use crate::gen::{mix, Gen};
use crate::io::{fault, gen_frag, plain, plan, plan_interrupted, plan_pausing, On, Plan, TestReader, FAULTS, KINDS};
use crate::model::*;
use crate::obs::*;
use crate::props::access::{map_file, obs_blob, obs_mmap, walk_mmap, walk_skip, walk_stream, Walk};
use crate::props::content::{check_blocks, check_sequential, show};
use crate::props::parallel::par;
use crate::wire::{put_varint, Enc, Style};
use osmpbf::*;
use std::error::Error as _;
use std::io::Cursor;
use std::sync::Arc;

// ------------------------------------------------------------ broken files

/// Broken framing.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Frm {
    TooBig,
    HeaderBad,
    NegSize,
    PastEof,
    Trailing,
    /// framing in order, but the `Blob` message itself is undecodable
    BlobBad,
}

/// An undecodable payload inside intact framing.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PayBad {
    ZlibGarbage,
    ZlibCut,
    ZlibContent,
    RawContent,
    Missing,
    Other,
}

#[derive(Clone, Debug)]
pub struct Broken {
    pub file: FileM,
    pub bytes: Vec<u8>,
    pub spans: Vec<Span>,
    pub bad: usize,
    pub frm: Option<Frm>,
    pub pay: Option<PayBad>,
    pub what: String,
    /// declared header size, if that is the defect
    pub size: u64,
}

/// Bytes that no protobuf parser accepts as the given kind of message.
pub fn bad_content(g: &mut Gen, good: &[u8], data: bool) -> Vec<u8> {
    let mut v = if g.chance(1, 2) { good.to_vec() } else { vec![] };
    match g.below(5) {
        0 => v.extend_from_slice(&[0x0f]),
        1 => v.extend_from_slice(&[0x12, 0x7f, 1]),
        2 => v.extend_from_slice(&[0x88, 0x80]),
        3 if data => {
            // no string table, which is required
            v.clear();
            v.extend_from_slice(&[0x12, 0x00]);
        }
        3 => v.extend_from_slice(&[0x0a, 0x02, 0x08, 0x02]),
        _ => {
            // broken inside a nested message
            let inner: &[u8] = if data { &[0x12, 0x03, 0x0a, 0x05, 0x08] } else { &[0x0a, 0x02, 0x08, 0x80] };
            v.extend_from_slice(inner);
        }
    }
    v
}

pub fn gen_bad_pay(g: &mut Gen) -> PayBad {
    *g.pick(&[
        PayBad::RawContent,
        PayBad::ZlibGarbage,
        PayBad::ZlibCut,
        PayBad::ZlibContent,
        PayBad::Missing,
        PayBad::Other,
    ])
}

/// Encode blob `b` with the given payload defect.
pub fn enc_bad_pay(g: &mut Gen, out: &mut Vec<u8>, b: &BlobM, how: PayBad) -> Span {
    let mut e = Enc::new(b.style);
    let c = content(b, &mut e);
    let (pay, stored) = match how {
        PayBad::RawContent => (Pay::Raw, bad_content(g, &c, b.is_data())),
        PayBad::ZlibContent => (Pay::Zlib(6), zlib(&bad_content(g, &c, b.is_data()), 6)),
        PayBad::ZlibGarbage => {
            let n = 1 + g.below(40);
            let mut v: Vec<u8> = (0..n).map(|_| g.draw(256) as u8).collect();
            // never a valid zlib header
            v[0] = 0xff;
            (Pay::Zlib(6), v)
        }
        PayBad::ZlibCut => {
            // cut in the middle of a stored block, inside a field
            let mut x = c.clone();
            x.extend_from_slice(&[0xfa, 0x7e, 0x40]);
            x.extend_from_slice(&[7; 64]);
            let mut z = zlib(&x, *g.pick(&[0u8, 1, 6, 9]));
            let k = (6 + g.below(5)).min(z.len() - 1);
            z.truncate(z.len() - k);
            if zlib_strict(&z).is_ok() {
                z = vec![0xff, 0xff];
            }
            (Pay::Zlib(6), z)
        }
        PayBad::Missing => (Pay::Missing, vec![]),
        PayBad::Other => (Pay::Other(4 + g.below(4) as u32), c.clone()),
    };
    let rs = if b.raw_size { Some(c.len() as i32) } else { None };
    e.st.dup = false;
    let data = blob_msg(pay, &stored, rs, b.raw_size_last, &mut e);
    let h = header_msg(b.type_name().as_bytes(), b.indexdata.as_deref(), data.len() as i32, &mut e);
    frame(out, &h, &data)
}

/// A file with one header or data blob whose payload cannot be decoded.
pub fn gen_broken_payload(g: &mut Gen, cfg: &Cfg) -> Broken {
    let mut f = gen_file(g, cfg);
    if !f.blobs.iter().any(|b| !matches!(b.kind, Kind::Unknown(..))) {
        let k = gen_block(g, cfg);
        let at = g.below(f.blobs.len() + 1);
        f.blobs.insert(at, BlobM::new(Kind::Data(k)));
    }
    let cand: Vec<usize> = (0..f.blobs.len()).filter(|i| !matches!(f.blobs[*i].kind, Kind::Unknown(..))).collect();
    let bad = *g.pick(&cand);
    let how = gen_bad_pay(g);
    let mut bytes = vec![];
    let mut spans = vec![];
    for (i, b) in f.blobs.iter().enumerate() {
        spans.push(if i == bad { enc_bad_pay(g, &mut bytes, b, how) } else { encode_blob(&mut bytes, b) });
    }
    Broken {
        what: format!("payload defect {how:?} in blob {bad};"),
        file: f,
        bytes,
        spans,
        bad,
        frm: None,
        pay: Some(how),
        size: 0,
    }
}

fn bad_header(g: &mut Gen, ty: &str, size: i32) -> Vec<u8> {
    let mut e = Enc::new(Style::default());
    let good = header_msg(ty.as_bytes(), None, size, &mut e);
    match g.below(6) {
        0 => {
            let mut v = good;
            v.push(0x0f);
            v
        }
        5 => {
            // a type that is no text
            let mut v = ty.as_bytes().to_vec();
            let bad: &[u8] = *g.pick(&[&[0xff][..], &[0xc3], &[0xed, 0xa0, 0x80], &[0x80]]);
            v.extend_from_slice(bad);
            header_msg(&v, None, size, &mut e)
        }
        1 => good[..good.len() - 1].to_vec(),
        2 => vec![],
        3 => {
            // no type
            let mut v = vec![0x18];
            put_varint(&mut v, size as u64);
            v
        }
        _ => {
            // no size
            let mut v = vec![0x0a, ty.len() as u8];
            v.extend_from_slice(ty.as_bytes());
            v
        }
    }
}

/// A file with one blob whose framing is broken.
pub fn gen_broken_framing(g: &mut Gen, cfg: &Cfg) -> Broken {
    let mut f = gen_file(g, cfg);
    let how = *g.pick(&[Frm::HeaderBad, Frm::TooBig, Frm::NegSize, Frm::PastEof, Frm::Trailing, Frm::BlobBad]);
    let bad = if how == Frm::Trailing { f.blobs.len() } else { g.below(f.blobs.len() + 1) };
    f.blobs.insert(bad, BlobM::new(if g.chance(1, 2) { Kind::Unknown("x".into(), vec![]) } else { Kind::Data(BlockM {
        strings: vec![vec![]],
        ..BlockM::default()
    }) }));
    let mut bytes = vec![];
    let mut spans = vec![];
    let mut size = 0;
    let ty = f.blobs[bad].type_name().to_string();
    for (i, b) in f.blobs.iter().enumerate() {
        if i != bad {
            spans.push(encode_blob(&mut bytes, b));
            continue;
        }
        let mut e = Enc::new(b.style);
        let c = content(b, &mut e);
        let data = blob_msg(Pay::Raw, &c, None, false, &mut e);
        spans.push(match how {
            Frm::TooBig => {
                size = *g.pick(&[65536u64, 65537, 70_000, 1 << 20, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x4f53_4d48]);
                let start = bytes.len();
                bytes.extend_from_slice(&(size as u32).to_be_bytes());
                // sometimes all the bytes are there
                let n = if size <= 70_000 && g.chance(1, 2) { size as usize } else { g.below(30) };
                bytes.extend(std::iter::repeat_n(*g.pick(&[0x3au8, 0, 0xff, 0x20]), n));
                Span { start, data: start + 4, end: bytes.len() }
            }
            Frm::HeaderBad => {
                let h = bad_header(g, &ty, data.len() as i32);
                if h.is_empty() && g.chance(1, 2) {
                    // nothing but zeros (and at the end of the file, it may look like padding)
                    let n = *g.pick(&[0usize, 1, 4, 12, 100, 508, 4092]);
                    frame(&mut bytes, &h, &vec![0; n])
                } else {
                    frame(&mut bytes, &h, &data)
                }
            }
            Frm::NegSize => {
                let n = *g.pick(&[-1i32, -2, -10, -20, -100, i32::MIN, i32::MIN + 1, -(bytes.len().min(1 << 20) as i32) - 30, -65536]);
                let h = header_msg(ty.as_bytes(), None, n, &mut e);
                frame(&mut bytes, &h, &data)
            }
            Frm::PastEof => {
                let n = *g.pick(&[i32::MAX, i32::MAX - 1, 1 << 30, 1 << 28, (1 << 25) + 5]);
                let h = header_msg(ty.as_bytes(), None, n, &mut e);
                frame(&mut bytes, &h, &data)
            }
            Frm::Trailing => {
                let start = bytes.len();
                let n = 1 + g.below(3);
                for _ in 0..n {
                    bytes.push(g.draw(256) as u8);
                }
                Span { start, data: start, end: bytes.len() }
            }
            Frm::BlobBad => {
                let mut d = if g.chance(1, 2) { data.clone() } else { vec![] };
                match g.below(3) {
                    0 => d.push(0x0f),
                    1 => d.extend_from_slice(&[0x1a, 0x7f, 0x00]),
                    _ => d.extend_from_slice(&[0x10, 0xff]),
                }
                let h = header_msg(ty.as_bytes(), None, d.len() as i32, &mut e);
                frame(&mut bytes, &h, &d)
            }
        });
    }
    Broken {
        what: format!("framing defect {how:?} at blob {bad} (offset {});", spans[bad].start),
        file: f,
        bytes,
        spans,
        bad,
        frm: Some(how),
        pay: None,
        size,
    }
}

pub fn gen_defective(g: &mut Gen, cfg: &Cfg) -> Broken {
    if g.chance(1, 2) {
        gen_broken_payload(g, cfg)
    } else {
        gen_broken_framing(g, cfg)
    }
}

/// A complete, checksummed zlib stream (an independent decoder's view).
pub fn zlib_strict(z: &[u8]) -> std::result::Result<Vec<u8>, ()> {
    miniz_oxide::inflate::decompress_to_vec_zlib_with_limit(z, 40 << 20).map_err(|_| ())
}

/// The first `n` blobs of a file.
fn prefix(f: &FileM, n: usize) -> FileM {
    FileM {
        blobs: f.blobs[..n].to_vec(),
    }
}

fn check_prefix(wk: &Walk, f: &FileM, n: usize, w: u32, what: &str) -> R {
    ensure!(wk.blobs.len() == n, "{what}: {} blobs delivered, {n} are complete", wk.blobs.len());
    for (i, b) in wk.blobs.iter().enumerate() {
        ensure!(b.ty == f.blobs[i].type_name(), "{what}: blob {i} has type {:?}", b.ty);
        check_dec(&b.dec, &f.blobs[i], w).map_err(|m| format!("{what}: blob {i}: {m}"))?;
    }
    Ok(())
}

// --------------------------------------------------------------------- C14

fn c14_cut(f: &FileM, full: &[u8], spans: &[Span], p: usize, w: u32, frag: (u64, u64)) -> R {
    let bytes = Arc::new(full[..p].to_vec());
    let n = spans.iter().filter(|s| s.end <= p).count();
    let clean = p == 0 || spans.iter().any(|s| s.end == p);
    let inside = if clean { "between blobs".to_string() } else { format!("in blob {n} at byte {} of it", p - spans[n].start) };
    let exp = exp_file(&prefix(f, n), w);
    let (got, r) = seq_read(TestReader::new(&bytes, &plan(p, frag.0, frag.1)), w);
    ensure!(r.is_ok() == clean, "cut {inside}: sequential reading ends with {r:?}");
    compare_seq(&got, &exp).map_err(|m| format!("cut {inside}: {m}"))?;
    let wk = walk_stream(BlobReader::new(TestReader::new(&bytes, &plan(p, frag.0, frag.1))), w)?;
    ensure!(wk.end.is_none() == clean, "cut {inside}: blob iteration ends with {:?}", wk.end);
    check_prefix(&wk, f, n, w, "blob iteration")?;
    let t = Tmp::new(&bytes);
    let wk = walk_stream(BlobReader::from_path(&t.0).map_err(|e| ek(&e))?, w)?;
    ensure!(wk.end.is_none() == clean, "cut {inside}: blob iteration from a path ends with {:?}", wk.end);
    check_prefix(&wk, f, n, w, "blob iteration from a path")?;
    let m = map_file(&t)?;
    let wk = walk_mmap(&m, w)?;
    ensure!(wk.end.is_none() == clean, "cut {inside}: memory-map iteration ends with {:?}", wk.end);
    check_prefix(&wk, f, n, w, "memory map")?;
    drop(m);
    let (r, _) = par(plain(&bytes), 2, 0, false);
    ensure!(r.is_ok() == clean, "cut {inside}: parallel reading ends with {:?}", r.map(|a| a.count));
    // indexed
    let must_fail = !clean && (p < spans[n].data || f.blobs[n].is_data());
    if must_fail || clean {
        for q in 0..2 {
            let mut ix = IndexedReader::new(TestReader::new(&bytes, &plan(p, frag.0, frag.1))).map_err(|e| ek(&e))?;
            let mut v = vec![];
            let r = if q == 0 {
                ix.for_each_node(|e| v.push(of_elem(&e, 0)))
            } else {
                ix.read_ways_and_deps(|_| true, |e| v.push(of_elem(e, 0)))
            };
            let name = if q == 0 { "indexed node iteration" } else { "indexed way query" };
            ensure!(r.is_err() == must_fail, "cut {inside}: {name} ends with {:?}", r.map_err(|e| ek(&e)));
        }
    }
    Ok(())
}

fn c14(g: &mut Gen, c: &mut Case) -> R {
    let tiny = g.chance(1, 4);
    let cfg = Cfg {
        max_blobs: if tiny { 2 } else { 5 },
        max_groups: if tiny { 1 } else { 3 },
        max_elems: if tiny { 2 } else { 5 },
        big: if tiny { 0 } else { 150 },
        big_cap: 1500,
        many: 0,
        tags: !tiny,
        info: !tiny && g.chance(1, 2),
        style16: 5,
        ..Cfg::default()
    };
    let f = gen_file(g, &cfg);
    let (bytes, spans) = encode_file(&f);
    c.file(&bytes);
    if bytes.is_empty() {
        return Ok(());
    }
    let frag = gen_frag(g);
    let mut cuts: Vec<usize> = vec![];
    if bytes.len() <= 160 {
        c.label("every cut");
        cuts.extend(1..bytes.len());
    } else {
        let n = 1 + g.below(4);
        for _ in 0..n {
            let s = spans[g.below(spans.len())];
            let p = match g.weighted(&[25, 15, 15, 15, 30]) {
                0 => s.start + 1 + g.below(3),
                1 => s.start + 4 + g.below(12),
                2 => s.data + g.below(12),
                3 => s.end.saturating_sub(1 + g.below(12)),
                _ => g.below(bytes.len()),
            };
            cuts.push(p.min(bytes.len() - 1).max(1));
        }
        // one at a field boundary of the blob message
        let s = spans[g.below(spans.len())];
        let b = field_starts(&bytes[s.data..s.end]);
        if !b.is_empty() {
            cuts.push((s.data + *g.pick(&b)).min(bytes.len() - 1));
        }
        let b = field_starts(&bytes[s.start + 4..s.data]);
        if !b.is_empty() {
            cuts.push((s.start + 4 + *g.pick(&b)).min(bytes.len() - 1));
        }
    }
    c.note(|| format!("{} bytes, cuts {:?}, {}", bytes.len(), &cuts[..cuts.len().min(20)], show(&f)));
    c.nontrivial = cuts.iter().any(|p| !spans.iter().any(|s| s.end == *p));
    for p in cuts {
        let n = spans.iter().filter(|s| s.end <= p).count();
        if n < spans.len() {
            let s = spans[n];
            c.label_if(p > s.start && p < s.start + 4, "cut in a length prefix");
            c.label_if(p >= s.start + 4 && p < s.data, "cut in a header");
            c.label_if(p == s.data, "cut right behind a header");
            c.label_if(p > s.data, "cut in a blob");
        }
        c.label_if(n > 0, "complete blobs before the cut");
        c14_cut(&f, &bytes, &spans, p, 0, frag).map_err(|m| format!("{} of {} bytes: {m}", p, bytes.len()))?;
    }
    Ok(())
}

/// Positions where a top-level field starts, other than 0.
pub fn field_starts(msg: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    let mut i = 0;
    let varint = |i: &mut usize| -> Option<u64> {
        let mut r = 0u64;
        for k in 0..10 {
            let b = *msg.get(*i)?;
            *i += 1;
            r |= u64::from(b & 0x7f) << (7 * k).min(63);
            if b < 0x80 {
                return Some(r);
            }
        }
        None
    };
    loop {
        let Some(tag) = varint(&mut i) else { return v };
        match tag & 7 {
            0 => {
                if varint(&mut i).is_none() {
                    return v;
                }
            }
            1 => i += 8,
            5 => i += 4,
            2 => {
                let Some(n) = varint(&mut i) else { return v };
                i = i.saturating_add(n as usize);
            }
            _ => return v,
        }
        if i >= msg.len() {
            return v;
        }
        v.push(i);
    }
}

pub static C14: Prop = Prop {
    id: "C14",
    run: c14,
    pinned: &[],
    rule: "random conforming files cut at every byte (small files) or at positions biased to prefixes, headers, blob starts, field boundaries and ends; read sequentially, in parallel, blob by blob (stream, path), memory-mapped and through the index; oracle: error iff the cut is not between two blobs, and exactly the content of the complete blobs in front of it. Non-trivial: at least one cut inside a blob.",
    quick: 36_000,
    thorough: 1_000_000,
    workers: 8,
    fuzz: (0, 0),
};

// --------------------------------------------------------------------- C15

#[derive(Clone, Debug)]
pub enum Dmg {
    Flip(usize, u8),
    Set(usize, u8),
    Del(usize, usize),
    Ins(usize, Vec<u8>),
    Cut(usize),
    DropSum,
    BadSum(u8),
    Swap(usize, usize),
}

pub fn gen_dmg(g: &mut Gen, len: usize) -> Dmg {
    let pos = |g: &mut Gen| match g.weighted(&[15, 20, 65]) {
        0 => g.below(len.min(8)),
        1 => len - 1 - g.below(len.min(6)),
        _ => g.below(len),
    };
    match g.weighted(&[24, 8, 12, 12, 24, 6, 8, 6]) {
        0 => Dmg::Flip(pos(g), g.below(8) as u8),
        1 => Dmg::Set(pos(g), g.draw(256) as u8),
        2 => {
            let p = pos(g);
            Dmg::Del(p, (1 + g.below(6)).min(len - p))
        }
        3 => {
            let p = pos(g);
            let n = 1 + g.below(5);
            Dmg::Ins(p, (0..n).map(|_| g.draw(256) as u8).collect())
        }
        4 => Dmg::Cut(pos(g)),
        5 => Dmg::DropSum,
        6 => Dmg::BadSum(1 + g.draw(255) as u8),
        _ => Dmg::Swap(pos(g), pos(g)),
    }
}

pub fn apply_dmg(z: &[u8], d: &Dmg) -> Vec<u8> {
    let mut v = z.to_vec();
    let n = v.len();
    match d {
        Dmg::Flip(p, b) => v[*p] ^= 1 << b,
        Dmg::Set(p, x) => v[*p] = *x,
        Dmg::Del(p, k) => {
            v.drain(*p..*p + *k);
        }
        Dmg::Ins(p, x) => {
            v.splice(*p..*p, x.iter().copied());
        }
        Dmg::Cut(p) => v.truncate(*p),
        Dmg::DropSum => v.truncate(n.saturating_sub(4)),
        Dmg::BadSum(x) => {
            if n > 0 {
                v[n - 1] ^= x;
            }
        }
        Dmg::Swap(a, b) => v.swap(*a, *b),
    }
    v
}

/// Replace the compressed payload of blob `t`.
fn with_stored(f: &FileM, t: usize, stored: &[u8]) -> (Vec<u8>, Vec<Span>) {
    let mut out = vec![];
    let mut spans = vec![];
    for (i, b) in f.blobs.iter().enumerate() {
        if i != t {
            spans.push(encode_blob(&mut out, b));
            continue;
        }
        let mut e = Enc::new(b.style);
        let c = content(b, &mut e);
        e.st.dup = false;
        let rs = if b.raw_size { Some(c.len() as i32) } else { None };
        let data = blob_msg(Pay::Zlib(6), stored, rs, b.raw_size_last, &mut e);
        let h = header_msg(b.type_name().as_bytes(), b.indexdata.as_deref(), data.len() as i32, &mut e);
        spans.push(frame(&mut out, &h, &data));
    }
    (out, spans)
}

/// All access paths on a file whose blob `t` holds a damaged stream: `t` is
/// an error or the original, everything else is untouched.
fn c15_paths(f: &FileM, bytes: Vec<u8>, t: usize, w: u32, all: bool) -> std::result::Result<bool, String> {
    let bytes = Arc::new(bytes);
    let mut accepted = false;
    let check = |wk: &Walk, what: &str| -> std::result::Result<bool, String> {
        let mut ok = false;
        ensure!(wk.end.is_none() && wk.blobs.len() == f.blobs.len(), "{what}: {} of {} blobs, then {:?}", wk.blobs.len(), f.blobs.len(), wk.end);
        for (i, b) in wk.blobs.iter().enumerate() {
            if i == t {
                if let Dec::Err(_) = b.dec {
                    continue;
                }
                ok = true;
                check_dec(&b.dec, &f.blobs[i], w)
                    .map_err(|m| format!("{what}: blob {i} with damaged compressed data is delivered with other content: {m}"))?;
            } else {
                check_dec(&b.dec, &f.blobs[i], w).map_err(|m| format!("{what}: intact blob {i}: {m}"))?;
            }
        }
        Ok(ok)
    };
    let wk = walk_stream(BlobReader::new(plain(&bytes)), w)?;
    accepted |= check(&wk, "stream")?;
    let data = f.blobs[t].is_data();
    let before = exp_file(&prefix(f, t), w);
    let (got, r) = seq_read(plain(&bytes), w);
    ensure!(r.is_ok() == accepted, "the damaged blob is accepted by stream: {accepted}, by sequential reading: {}", r.is_ok());
    match r {
        Ok(()) => compare_seq(&got, &exp_file(f, w)).map_err(|m| format!("sequential reading succeeds with other content: {m}"))?,
        Err(_) => compare_seq(&got, &before).map_err(|m| format!("sequential reading, before the error: {m}"))?,
    }
    if all {
        let tmp = Tmp::new(&bytes);
        let m = map_file(&tmp)?;
        let wm = walk_mmap(&m, w)?;
        let a2 = check(&wm, "memory map")?;
        ensure!(a2 == accepted, "the damaged blob is accepted by stream: {accepted}, by memory map: {a2}");
        let (r, _) = par(plain(&bytes), 2, w, false);
        if let Ok(a) = r {
            ensure!(accepted, "the damaged blob is an error to the stream, not to the parallel pass ({} elements)", a.count);
            ensure!(a.count == f.count() as u64, "the parallel pass succeeds with {} elements instead of {}", a.count, f.count());
        }
        if data {
            let mut ix = IndexedReader::new(plain(&bytes)).map_err(|e| ek(&e))?;
            let mut v = vec![];
            let r = ix.read_ways_and_deps(|_| true, |e| v.push(of_elem(e, 0)));
            ensure!(r.is_ok() == accepted, "the damaged blob is accepted by stream: {accepted}, by an indexed query: {}", r.is_ok());
            let mut ix = IndexedReader::new(plain(&bytes)).map_err(|e| ek(&e))?;
            let mut n = 0usize;
            let r = ix.for_each_node(|_| n += 1);
            ensure!(r.is_ok() == accepted, "the damaged blob is accepted by stream: {accepted}, by indexed node iteration: {}", r.is_ok());
            if r.is_ok() {
                let want = exp_file(f, 0).concat().iter().filter(|e| matches!(e.kind, EK::Node | EK::Dense)).count();
                ensure!(n == want, "indexed node iteration succeeds with {n} nodes instead of {want}");
            }
        }
        let mut rd = BlobReader::new(plain(&bytes));
        if let Some(Ok(b)) = rd.nth(t) {
            let x = if data { b.to_primitiveblock().is_ok() } else { b.to_headerblock().is_ok() };
            ensure!(x == accepted, "the damaged blob is accepted by decode: {accepted}, by the direct form: {x}");
        }
    }
    Ok(accepted)
}

fn c15(g: &mut Gen, c: &mut Case) -> R {
    let cfg = Cfg {
        max_blobs: 3,
        max_groups: 4,
        max_elems: 4,
        kinds: [20, 20, 20, 15, 2, 6],
        big: 60,
        big_cap: 1500,
        many: 0,
        style16: 1,
        ..Cfg::default()
    };
    let mut f = gen_file(g, &cfg);
    // the damaged blob
    let header = g.chance(1, 5);
    let k = if header { Kind::Header(gen_header(g)) } else { Kind::Data(gen_block(g, &cfg)) };
    let t = g.below(f.blobs.len() + 1);
    let mut tb = BlobM::new(k);
    let level = match g.weighted(&[85, 15]) {
        0 => *g.pick(&[0u8, 1, 6, 9, 0]),
        _ => SHAPED + g.draw(200) as u8,
    };
    tb.pay = Pay::Zlib(level);
    tb.raw_size = g.chance(1, 2);
    tb.raw_size_last = g.chance(1, 2);
    f.blobs.insert(t, tb);
    let mut e = Enc::new(Style::default());
    let orig = content(&f.blobs[t], &mut e);
    let z = zlib(&orig, level);
    let mut dm: Vec<Dmg> = vec![];
    let every = g.chance(1, 6) && z.len() <= 400;
    if every {
        c.label("every cut of the stream");
        dm.extend((0..z.len()).map(Dmg::Cut));
    } else {
        let n = 1 + g.below(5);
        for _ in 0..n {
            dm.push(gen_dmg(g, z.len()));
        }
        if level == 0 {
            // where the stored bytes end at a field boundary of the content
            let b = field_starts(&orig);
            if !b.is_empty() {
                let p = *g.pick(&b);
                let hdr = 2 + 5 * (1 + p / 65535);
                dm.push(Dmg::Cut((p + hdr).min(z.len() - 1)));
            }
        }
    }
    c.note(|| format!("blob {t}, level {level}, {} stored bytes, {:?}; {}", z.len(), &dm[..dm.len().min(5)], show(&f)));
    for (i, d) in dm.iter().enumerate() {
        let bad = apply_dmg(&z, d);
        c.mixkey(crate::gen::hash_bytes(&bad));
        if bad == z {
            continue;
        }
        match zlib_strict(&bad) {
            Ok(x) if x != orig => {
                // another valid stream: checksum collisions are nobody's fault
                c.label("other valid stream (skipped)");
                continue;
            }
            Ok(_) => c.label("still the original stream"),
            Err(()) => {
                c.label("invalid stream");
                c.nontrivial = true;
            }
        }
        c.label(match d {
            Dmg::Flip(..) | Dmg::Set(..) => "byte changed",
            Dmg::Del(..) => "bytes removed",
            Dmg::Ins(..) => "bytes inserted",
            Dmg::Cut(..) => "cut off",
            Dmg::DropSum => "checksum missing",
            Dmg::BadSum(..) => "checksum wrong",
            Dmg::Swap(..) => "bytes swapped",
        });
        let (bytes, _) = with_stored(&f, t, &bad);
        c.file(&bytes);
        let w = TAGS | REFS | MEMB | POS;
        let a = c15_paths(&f, bytes, t, w, !every || i % 9 == 0).map_err(|m| format!("{d:?} of {} bytes (level {level}): {m}", z.len()))?;
        c.label_if(a, "accepted with the original content");
        // an incomplete stream is not what was written, whatever it holds
        let incomplete = matches!(d, Dmg::Cut(_) | Dmg::DropSum | Dmg::BadSum(_)) && zlib_strict(&bad).is_err();
        ensure!(!(a && incomplete), "{d:?} of {} bytes (level {level}): accepted", z.len());
    }
    Ok(())
}

pub static C15: Prop = Prop {
    id: "C15",
    run: c15,
    pinned: &[],
    rule: "random files in which one blob's zlib stream is damaged (bits flipped, bytes set, removed, inserted, swapped, cut at every position of small streams or at content field boundaries, checksum dropped or changed); oracle: decoding the blob fails or (if the stream is neither cut off nor its checksum missing or wrong) yields exactly the original content by stream, memory map, index, parallel and sequential reading, and all other blobs are intact; damage that an independent strict decoder accepts as another valid stream is skipped. Non-trivial: the damaged stream is not a valid zlib stream.",
    quick: 20_000,
    thorough: 700_000,
    workers: 8,
    fuzz: (800, 40_000),
};

// --------------------------------------------------------------------- C16

const MIB32: usize = 32 << 20;

/// Content of exactly `total` bytes whose elements start at `at`.
/// Returns the content and the ids stored.
fn sized_content(total: usize, at: usize, how: u64) -> (Vec<u8>, Vec<i64>) {
    // string table, filler, groups with one plain node each
    let mut e = Enc::new(Style::default());
    let mut ids = vec![];
    let mut tail = vec![];
    let mut id = 1i64;
    let room = total.saturating_sub(at);
    loop {
        let gr = GroupM {
            nodes: vec![NodeM {
                id,
                ..NodeM::default()
            }],
            ..GroupM::default()
        };
        let b = enc_group(&gr, &mut e);
        let mut m = vec![0x12];
        put_varint(&mut m, b.len() as u64);
        m.extend_from_slice(&b);
        if ids.len() >= 40 || tail.len() + m.len() > room {
            break;
        }
        tail.extend_from_slice(&m);
        ids.push(id);
        id += 1;
    }
    let head = [0x0au8, 0x02, 0x0a, 0x00];
    let fill = total - tail.len() - head.len();
    let mut v = Vec::with_capacity(total + 16);
    v.extend_from_slice(&head);
    push_filler(&mut v, fill, how);
    v.extend_from_slice(&tail);
    assert!(v.len() == total, "harness: sized content {} instead of {total}", v.len());
    (v, ids)
}

/// Unknown fields of exactly `n` bytes in total.
fn push_filler(v: &mut Vec<u8>, n: usize, how: u64) {
    let mut left = n;
    let big = match how {
        0 => usize::MAX,
        1 => 1 << 20,
        _ => 60_000,
    };
    while left > 0 {
        // field 90, length delimited: two tag bytes
        let take = left.min(big);
        if take < 4 {
            match take {
                // field 15, varint; fields 90 and 15 are not in the format
                2 => v.extend_from_slice(&[0x78, 1]),
                3 => v.extend_from_slice(&[0x78, 0x81, 0]),
                _ => {
                    // cannot be done alone: lengthen the last one
                    unreachable!("harness: filler of one byte")
                }
            }
            left -= take;
            continue;
        }
        let mut len = take - 3;
        let mut t = vec![0xd2, 0x05];
        loop {
            let mut l = vec![];
            put_varint(&mut l, len as u64);
            if 2 + l.len() + len <= take {
                t.extend_from_slice(&l);
                break;
            }
            len -= 1;
        }
        let used = t.len() + len;
        let rest = left - used;
        if rest == 1 {
            // leave three bytes instead of one
            let mut t2 = vec![0xd2, 0x05];
            let len2 = len - 2;
            put_varint(&mut t2, len2 as u64);
            v.extend_from_slice(&t2);
            v.resize(v.len() + len2, 0x5a);
            left -= t2.len() + len2;
            continue;
        }
        v.extend_from_slice(&t);
        v.resize(v.len() + len, 0x5a);
        left = rest;
    }
}

fn c16_header(g: &mut Gen, c: &mut Case) -> R {
    // a header of exactly the wanted size, padded by index data
    let want = match g.weighted(&[50, 25, 25]) {
        0 => (65536 + g.range(-3, 3)) as usize,
        1 => 60_000 + g.below(10_000),
        _ => *g.pick(&[65536usize, 65535, 65537, 66_000, 100_000, 131_072, 32_768, 65_280]),
    };
    let cfg = Cfg {
        max_blobs: 2,
        max_elems: 4,
        big: 0,
        many: 0,
        ..Cfg::default()
    };
    let f = gen_file(g, &cfg);
    let nth = g.below(f.blobs.len() + 1);
    let ty = *g.pick(&["OSMData", "OSMHeader", "other"]);
    let mut e = Enc::new(Style::default());
    let kind = match ty {
        "OSMData" => Kind::Data(gen_block(g, &cfg)),
        "OSMHeader" => Kind::Header(gen_header(g)),
        t => Kind::Unknown(t.to_string(), vec![1, 2, 3]),
    };
    let bl = BlobM::new(kind);
    let data = blob_msg(Pay::Raw, &content(&bl, &mut e), None, false, &mut e);
    let mut pad = want.saturating_sub(20);
    let h = loop {
        let h = header_msg(ty.as_bytes(), Some(&vec![0x21; pad]), data.len() as i32, &mut e);
        if h.len() == want {
            break h;
        }
        if h.len() < want {
            pad += 1;
        } else {
            pad -= h.len() - want;
            if header_msg(ty.as_bytes(), Some(&vec![0x21; pad]), data.len() as i32, &mut e).len() < want {
                // lengths jump where the length's own varint grows
                let mut m = header_msg(ty.as_bytes(), Some(&vec![0x21; pad]), data.len() as i32, &mut e);
                while m.len() < want {
                    m.extend_from_slice(&[0x78, 0x00]);
                }
                m.truncate(want);
                break m;
            }
        }
    };
    let ok = h.len() < 65536;
    let mut full = f.clone();
    full.blobs.insert(nth, bl);
    let mut bytes = vec![];
    let mut spans = vec![];
    for (i, b) in full.blobs.iter().enumerate() {
        spans.push(if i == nth { frame(&mut bytes, &h, &data) } else { encode_blob(&mut bytes, b) });
    }
    c.file(&bytes);
    c.label(if ok { "header within the limit" } else { "header over the limit" });
    c.label_if(h.len().abs_diff(65536) <= 1, "header within one byte of the limit");
    c.nontrivial = true;
    c.note(|| format!("header of {} bytes at blob {nth} of {}", h.len(), full.blobs.len()));
    let what = format!("blob header of {} bytes", h.len());
    let bytes = Arc::new(bytes);
    let at = spans[nth].start as u64;
    let expect = |wk: &Walk, name: &str| -> R {
        if ok {
            ensure!(wk.end.is_none(), "{what}: {name} fails with {:?}", wk.end);
            check_prefix(wk, &full, full.blobs.len(), 0, name)
        } else {
            ensure!(wk.end.is_some(), "{what}: {name} does not fail");
            check_prefix(wk, &full, nth, 0, name)
        }
    };
    expect(&walk_stream(BlobReader::new(plain(&bytes)), 0)?, "stream")?;
    expect(&walk_stream(BlobReader::new_seekable(plain(&bytes)).map_err(|e| ek(&e))?, 0)?, "seekable stream")?;
    let t = Tmp::new(&bytes);
    expect(&walk_stream(BlobReader::from_path(&t.0).map_err(|e| ek(&e))?, 0)?, "path")?;
    let m = map_file(&t)?;
    expect(&walk_mmap(&m, 0)?, "memory map")?;
    let mut rd = BlobReader::new_seekable(plain(&bytes)).map_err(|e| ek(&e))?;
    let (hs, he) = walk_skip(&mut rd);
    ensure!(he.is_none() == ok, "{what}: header skipping ends with {he:?}");
    ensure!(hs.len() == if ok { full.blobs.len() } else { nth }, "{what}: header skipping sees {} blobs", hs.len());
    let mut rd = BlobReader::new_seekable(plain(&bytes)).map_err(|e| ek(&e))?;
    let r = rd.blob_from_offset(ByteOffset(at));
    ensure!(r.is_ok() == ok, "{what}: blob_from_offset gives {:?}", r.map(|_| ()).map_err(|e| ek(&e)));
    let mut ix = IndexedReader::new(plain(&bytes)).map_err(|e| ek(&e))?;
    let r = ix.for_each_node(|_| ());
    ensure!(r.is_ok() == ok, "{what}: indexed iteration gives {:?}", r.map_err(|e| ek(&e)));
    let (v, r) = seq_read(plain(&bytes), 0);
    ensure!(r.is_ok() == ok, "{what}: sequential reading gives {r:?}");
    compare_seq(&v, &exp_file(&prefix(&full, if ok { full.blobs.len() } else { nth }), 0))
}

fn c16_content(g: &mut Gen, c: &mut Case) -> R {
    let lim = MIB32;
    let total = match g.weighted(&[45, 25, 20, 10]) {
        0 => (lim as i64 + g.range(-2, 2)) as usize,
        1 => (lim as i64 + g.range(-300, 300)) as usize,
        2 => lim + *g.pick(&[1000usize, 65_536, 100_000, 1 << 20, 8 << 20, lim]),
        _ => lim - *g.pick(&[1000usize, 65_536, 1 << 20]),
    };
    // where the elements begin: before, exactly at, or behind the limit
    let at = match g.weighted(&[40, 30, 30]) {
        0 if total > lim => lim,
        1 => total.saturating_sub(400).min(total),
        _ => total - 60 - g.below(200),
    };
    let how = g.draw(3);
    let pay = *g.pick(&[Pay::Zlib(1), Pay::Raw, Pay::Zlib(6), Pay::Zlib(0)]);
    let (mut body, ids) = sized_content(total, at, how);
    let header = g.chance(1, 8);
    if header {
        // the same filler in a header block
        body.clear();
        body.extend_from_slice(&[0x22, 0x01, b'x']);
        push_filler(&mut body, total - 3, how);
    }
    // nobody looks into a blob of unknown type
    let unknown = !header && g.chance(1, 8);
    let ok = total < lim || unknown;
    c.mixkey(total as u64);
    c.mixkey(at as u64);
    c.mixkey(how + 8 * match pay { Pay::Raw => 0, Pay::Zlib(l) => 1 + u64::from(l), _ => 0 });
    c.nontrivial = total.abs_diff(lim) <= 300 || at == lim;
    c.label(if total < lim { "content within the limit" } else { "content over the limit" });
    c.label_if(total.abs_diff(lim) <= 1, "content within one byte of the limit");
    c.label_if(at == lim && !header, "a field starts exactly at the limit");
    c.label(match pay {
        Pay::Raw => "raw",
        _ => "zlib",
    });
    c.label_if(header, "header block");
    c.label_if(unknown && total >= lim, "unknown type, over the limit");
    c.note(|| format!("content of {total} bytes ({pay:?}), elements from byte {at}, filler {how}, header block {header}, unknown type {unknown}"));
    let mut e = Enc::new(Style::default());
    let stored = match pay {
        Pay::Zlib(l) => zlib(&body, l),
        _ => body,
    };
    // the announced size is optional, and it is the actual size that counts
    let raw_size = match g.draw(4) {
        0 | 1 => Some(total as i32),
        2 => None,
        _ if total < lim => Some(total as i32),
        _ => Some(*g.pick(&[0, 1, 1000, 33_554_431, -1])),
    };
    c.label_if(raw_size.is_none(), "size not announced");
    c.label_if(raw_size.is_some_and(|x| x != total as i32), "wrong size announced");
    let data = blob_msg(pay, &stored, raw_size, false, &mut e);
    drop(stored);
    let ty: &[u8] = if header {
        b"OSMHeader"
    } else if unknown {
        b"other"
    } else {
        b"OSMData"
    };
    let h = header_msg(ty, None, data.len() as i32, &mut e);
    let mut bytes = vec![];
    frame(&mut bytes, &h, &data);
    drop(data);
    let bytes = Arc::new(bytes);
    let what = format!("content of {total} bytes ({})", if pay == Pay::Raw { "raw" } else { "zlib" });
    let want: &[i64] = if header || unknown { &[] } else { &ids };
    let judge = |r: std::result::Result<Vec<i64>, String>, name: &str| -> R {
        match r {
            Ok(v) => {
                ensure!(ok, "{what}: {name} accepts it and delivers {} of {} elements", v.len(), want.len());
                ensure!(v == want, "{what}: {name} delivers {} elements instead of {}", v.len(), want.len());
            }
            Err(e) => ensure!(!ok, "{what}: {name} fails with {e}"),
        }
        Ok(())
    };
    let of_blob = |d: Result<BlobDecode<'_>>| match d {
        Ok(BlobDecode::OsmData(b)) => Ok(b.elements().map(|e| of_elem(&e, 0).id).collect()),
        Ok(BlobDecode::OsmHeader(h)) if h.required_features() == ["x".to_string()] => Ok(vec![]),
        Ok(BlobDecode::Unknown("other")) if unknown => Ok(vec![]),
        Ok(_) => Err("wrong kind".to_string()),
        Err(e) => Err(ek(&e)),
    };
    let mut rd = BlobReader::new_seekable(plain(&bytes)).map_err(|e| ek(&e))?;
    let b = rd.next().ok_or("no blob")?.map_err(|e| format!("{what}: the blob itself cannot be read: {}", ek(&e)))?;
    judge(of_blob(b.decode()), "decode")?;
    ensure!(rd.next().is_none(), "more than one blob");
    let which = g.below(5);
    match which {
        0 => {
            let t = Tmp::new(&bytes);
            let m = map_file(&t)?;
            let b = m.blob_iter().next().ok_or("no blob")?.map_err(|e| ek(&e))?;
            judge(of_blob(b.decode()), "memory map")?;
        }
        1 => {
            let b = rd.blob_from_offset(ByteOffset(0)).map_err(|e| ek(&e))?;
            judge(of_blob(b.decode()), "blob_from_offset")?;
        }
        2 if !header => {
            let mut ix = IndexedReader::new(plain(&bytes)).map_err(|e| ek(&e))?;
            let mut v = vec![];
            let r = ix.for_each_node(|e| v.push(of_elem(&e, 0).id)).map_err(|e| ek(&e));
            if r.is_err() {
                ensure!(v.is_empty(), "{what}: delivered in part by the index");
            }
            judge(r.map(|()| v), "indexed iteration")?;
        }
        3 if !header => {
            let (r, _) = par(plain(&bytes), 2, 0, false);
            match r {
                Ok(a) => ensure!(ok && a.count == want.len() as u64, "{what}: the parallel pass delivers {} elements", a.count),
                Err(e) => ensure!(!ok, "{what}: the parallel pass fails with {e}"),
            }
        }
        _ => {
            let (v, r) = seq_read(plain(&bytes), 0);
            if r.is_err() {
                ensure!(v.is_empty(), "{what}: delivered in part ({} elements)", v.len());
            }
            judge(r.map(|()| v.iter().map(|e| e.id).collect()), "sequential reading")?;
        }
    }
    Ok(())
}

fn c16(g: &mut Gen, c: &mut Case) -> R {
    if g.chance(1, 3) {
        c16_content(g, c)
    } else {
        c16_header(g, c)
    }
}

pub static C16: Prop = Prop {
    id: "C16",
    run: c16,
    pinned: &[],
    rule: "files with one blob header of a size around 64 KiB (padded by index data), or one blob content of a size around 32 MiB, raw or zlib at several levels, with elements starting before, exactly at or behind the limit, in data, header and unknown blobs; oracle: below the limit (or of unknown type) accepted completely, otherwise an error and nothing delivered, by stream, seek, skip, path, memory map, index and parallel reading. Non-trivial: header cases, and contents within 300 bytes of the limit or with a field exactly at it.",
    quick: 2_000,
    thorough: 40_000,
    workers: 8,
    fuzz: (0, 0),
};

// --------------------------------------------------------------------- C18

fn c18(g: &mut Gen, c: &mut Case) -> R {
    let cfg = Cfg {
        max_blobs: 5,
        max_groups: 3,
        max_elems: 5,
        big: 60,
        big_cap: 3000,
        many: 80,
        style16: 3,
        ..Cfg::default()
    };
    let f = gen_file(g, &cfg);
    let (b, spans) = encode_file(&f);
    c.file(&b);
    let bytes = Arc::new(b);
    let (fs, fm) = gen_frag(g);
    let frag = plan(bytes.len(), fs, fm);
    // fragmentation changes nothing
    let exp = exp_file(&f, 0);
    let (v, r) = seq_read(TestReader::new(&bytes, &frag), 0);
    ensure!(r.is_ok(), "reads of at most {fm} bytes: {r:?}");
    compare_seq(&v, &exp).map_err(|m| format!("reads of at most {fm} bytes: {m}"))?;
    let ops = frag.ops();
    c.label_if(fm == 1, "one byte per read");
    c.label_if(fm > 1, "fragmented reads");

    let mut fired_any = false;
    let rounds = 1 + g.below(4);
    for _ in 0..rounds {
        g.open();
        let path = g.weighted(&[34, 18, 16, 12, 20]);
        let kind = g.below(FAULTS);
        let sticky = g.chance(1, 2);
        let after = if g.chance(1, 3) { g.draw(12) } else { g.draw(ops + 2) };
        let on = if path >= 3 { *g.pick(&[On::Any, On::Reads, On::Seeks]) } else { On::Any };
        let p = plan(bytes.len(), fs, fm);
        p.arm(after, kind, on, sticky);
        c.mixkey(mix(after, kind as u64 * 16 + path as u64));
        let rd = TestReader::new(&bytes, &p);
        let name = ["sequential reading", "blob iteration", "parallel reading", "header skipping", "indexed reading"][path];
        let info = |m: String| format!("{name}, fault {:?} at operation {after} ({}): {m}", fault(kind), if sticky { "lasting" } else { "once" });
        let complete = |high: u64| spans.iter().filter(|s| s.end as u64 <= high).count();
        let res: R = (|| {
            match path {
                0 => {
                    let (v, r) = seq_read(rd, 0);
                    let high = p.high();
                    if p.fired() {
                        ensure!(r.is_err(), "ends normally after {} of {} elements", v.len(), f.count());
                        let n = complete(high);
                        compare_seq(&v, &exp_file(&prefix(&f, n), 0))
                            .map_err(|m| format!("{n} blobs were completely read, but not exactly they were delivered: {m}"))?;
                    } else {
                        ensure!(r.is_ok(), "no fault, yet {r:?}");
                        compare_seq(&v, &exp)?;
                    }
                }
                1 => {
                    let mut it = BlobReader::new(rd);
                    let mut n = 0;
                    let mut err = None;
                    for b in it.by_ref() {
                        match b {
                            Ok(b) => {
                                ensure!(err.is_none(), "yields a blob after an error");
                                ensure!(n < f.blobs.len(), "more blobs than stored");
                                check_dec(&obs_blob(&b, 0).dec, &f.blobs[n], 0).map_err(|m| format!("blob {n}: {m}"))?;
                                n += 1;
                            }
                            Err(e) => {
                                ensure!(err.is_none(), "yields a second error");
                                err = Some(ek(&e));
                            }
                        }
                    }
                    for _ in 0..3 {
                        ensure!(err.is_none() || it.next().is_none(), "goes on after an error");
                    }
                    if p.fired() {
                        ensure!(err.is_some(), "ends normally after {n} of {} blobs", f.blobs.len());
                        ensure!(n == complete(p.high()), "{n} blobs delivered, {} were completely read", complete(p.high()));
                    } else {
                        ensure!(err.is_none() && n == f.blobs.len(), "no fault, yet {err:?} after {n} of {} blobs", f.blobs.len());
                    }
                }
                2 => {
                    let (r, _) = par(rd, 1 + g.below(4), 0, false);
                    match (p.fired(), &r) {
                        (true, Ok(a)) => bail!("ends normally with {} of {} elements", a.count, f.count()),
                        (false, Err(e)) => bail!("no fault, yet {e}"),
                        (false, Ok(a)) => ensure!(a.count == f.count() as u64, "{} elements instead of {}", a.count, f.count()),
                        _ => {}
                    }
                }
                3 => {
                    let r = BlobReader::new_seekable(rd);
                    let (n, end) = match r {
                        Ok(mut rd) => {
                            let (v, e) = walk_skip(&mut rd);
                            for _ in 0..3 {
                                ensure!(e.is_none() || rd.next_header_skip_blob().is_none(), "goes on after an error");
                                ensure!(e.is_none() || rd.next().is_none(), "goes on after an error");
                            }
                            (v.len(), e)
                        }
                        Err(e) => (0, Some(ek(&e))),
                    };
                    if p.fired() {
                        ensure!(end.is_some(), "ends normally after {n} of {} blobs", f.blobs.len());
                    } else {
                        ensure!(end.is_none() && n == f.blobs.len(), "no fault, yet {end:?} after {n} blobs");
                    }
                }
                _ => {
                    let mut v = vec![];
                    let r = match IndexedReader::new(rd) {
                        Ok(mut ix) => {
                            if g.chance(1, 2) {
                                ix.for_each_node(|e| v.push(of_elem(&e, 0)))
                            } else {
                                ix.read_ways_and_deps(|_| true, |e| v.push(of_elem(e, 0)))
                            }
                        }
                        Err(e) => Err(e),
                    };
                    if p.fired() {
                        ensure!(r.is_err(), "ends normally after {} elements", v.len());
                    } else if let Err(e) = r {
                        bail!("no fault, yet {}", ek(&e));
                    }
                }
            }
            Ok(())
        })();
        g.close();
        if p.fired() {
            fired_any = true;
            c.label(name);
        }
        res.map_err(info)?;
    }
    if g.chance(1, 5) {
        // interrupted reads may be repeated or reported, but nothing is lost
        let p = plan_interrupted(bytes.len(), fs, fm, 1 + g.draw(1 << 16));
        let n = |p: &Plan| spans.iter().filter(|s| s.end as u64 <= p.high()).count();
        let rd = TestReader::new(&bytes, &p);
        if g.chance(3, 4) {
            let (v, r) = seq_read(rd, 0);
            let n = if r.is_ok() { f.blobs.len() } else { n(&p) };
            c.label(if r.is_ok() { "interrupted reads repeated" } else { "interrupted reads reported" });
            compare_seq(&v, &exp_file(&prefix(&f, n), 0)).map_err(|m| format!("interrupted reads, ending with {r:?}: {m}"))?;
        } else {
            let (r, _) = par(rd, 1 + g.below(4), 0, false);
            if let Ok(a) = r {
                ensure!(a.count == f.count() as u64, "interrupted reads: {} elements instead of {}", a.count, f.count());
            }
        }
    }
    if g.chance(1, 4) {
        // a reader that finds the end of the data for a moment only: what has
        // been reported as an error is not taken back
        let most = if g.chance(1, 2) { 12 } else { ops + 2 };
        let p = plan_pausing(bytes.len(), fs, fm, 1 + g.draw(most));
        let mut it = BlobReader::new(TestReader::new(&bytes, &p));
        let mut n = 0;
        let mut err = None;
        let mut ends = 0;
        while ends < 3 {
            match it.next() {
                Some(Ok(b)) => {
                    ensure!(err.is_none(), "early end of data: yields a blob after {err:?}");
                    ensure!(n < f.blobs.len(), "early end of data: more blobs than stored");
                    check_dec(&obs_blob(&b, 0).dec, &f.blobs[n], 0).map_err(|m| format!("early end of data: blob {n}: {m}"))?;
                    n += 1;
                }
                Some(Err(e)) => {
                    ensure!(err.is_none(), "early end of data: yields a second error");
                    err = Some(ek(&e));
                }
                None => {
                    if ends == 0 && err.is_none() {
                        let high = p.high() as usize;
                        ensure!(
                            high == 0 || spans.iter().any(|s| s.end == high),
                            "early end of data inside of a blob (at byte {high}): ends normally after {n} blobs"
                        );
                    }
                    ends += 1;
                }
            }
        }
        c.label_if(p.fired(), "end of data for a moment");
        c.label_if(p.fired() && err.is_some(), "end of data for a moment, reported");
    }
    c.nontrivial = fired_any && f.blobs.len() > 1;
    c.label_if(fired_any, "fault met");
    c.note(|| show(&f));
    Ok(())
}

pub static C18: Prop = Prop {
    id: "C18",
    run: c18,
    pinned: &[],
    rule: "random conforming files behind a reader that splits reads (down to one byte) and fails at a chosen operation (any read or seek, twelve error kinds, once or lasting), read sequentially, in parallel, blob by blob, by header skipping and through the index; oracle: a fault that was met is reported, sequential reading has then delivered exactly the blobs completely read, iteration ends, and without a fault the result is the model. Non-trivial: a fault was met in a file of at least two blobs.",
    quick: 90_000,
    thorough: 3_000_000,
    workers: 8,
    fuzz: (2_500, 100_000),
};

// --------------------------------------------------------------------- C19

fn shown(e: &Error, needles: &[String], what: &str) -> R {
    let s = e.to_string();
    for n in needles {
        ensure!(s.contains(n.as_str()), "{what}: the message {s:?} does not mention {n:?}");
    }
    Ok(())
}

/// Converting keeps the original error available inside.
fn convertible(e: Error, what: &str) -> R {
    let text = e.to_string();
    let dbg = format!("{e:?}");
    let kind = format!("{:?}", e.kind());
    let conv = std::io::Error::from(e);
    let Some(inner) = conv.get_ref() else { bail!("{what}: the converted error holds nothing: {conv:?}") };
    let Some(orig) = inner.downcast_ref::<Error>() else { bail!("{what}: the converted error does not hold the original: {conv:?}") };
    ensure!(orig.to_string() == text, "{what}: the converted error holds {orig}, originally {text}");
    ensure!(format!("{orig:?}") == dbg, "{what}: the converted error holds {orig:?}, originally {dbg}");
    let Some(Ok(orig)) = conv.into_inner().map(|x| x.downcast::<Error>()) else { bail!("{what}: the converted error does not give back the original") };
    let k = format!("{:?}", orig.into_kind());
    ensure!(k == kind, "{what}: unwrapping the error gives {k}, its kind is {kind}");
    Ok(())
}

fn expect_kind<T>(r: Result<T>, what: &str, ok: impl Fn(&ErrorKind) -> bool, want: &str, needles: &[String]) -> R {
    match r {
        Ok(_) => bail!("{what}: no error, expected {want}"),
        Err(e) => {
            ensure!(ok(e.kind()), "{what}: reported as {e:?}, expected {want}");
            shown(&e, needles, what)?;
            let details = match e.kind() {
                ErrorKind::Io(err) => vec![err.to_string()],
                ErrorKind::Protobuf { err, location } => vec![err.to_string(), location.to_string()],
                ErrorKind::StringtableUtf8 { err, index } => vec![err.to_string(), index.to_string()],
                ErrorKind::StringtableIndexOutOfBounds { index } => vec![index.to_string()],
                _ => vec![],
            };
            shown(&e, &details, what)?;
            // the error it was caused by is reachable
            let inner = match e.kind() {
                ErrorKind::Io(err) => Some(err.to_string()),
                ErrorKind::Protobuf { err, .. } => Some(err.to_string()),
                ErrorKind::StringtableUtf8 { err, .. } => Some(err.to_string()),
                _ => None,
            };
            #[allow(deprecated)]
            let (cause, text) = (e.cause().map(|x| x.to_string()), e.description());
            ensure!(inner.is_none() || cause == inner, "{what}: the cause of {e:?} is {cause:?}");
            ensure!(!text.is_empty(), "{what}: {e:?} has no description");
            let dbg = format!("{e:?}");
            convertible(e, what).map_err(|m| format!("{m} ({dbg})"))
        }
    }
}

fn c19_open(g: &mut Gen, c: &mut Case) -> R {
    let which = g.below(4);
    let keep;
    let path = match which {
        0 => {
            keep = Tmp::missing();
            keep.0.clone()
        }
        1 => {
            // below a regular file
            keep = Tmp::new(b"x");
            keep.0.join("below")
        }
        2 => std::path::PathBuf::from(""),
        _ => {
            keep = Tmp::missing();
            std::path::PathBuf::from(format!("{}{}", keep.0.display(), "n".repeat(300 + g.below(50))))
        }
    };
    let want = match std::fs::File::open(&path) {
        Ok(_) => return Ok(()),
        Err(e) => e,
    };
    c.nontrivial = true;
    c.label("file that cannot be opened");
    c.mixkey(which as u64);
    c.note(|| format!("opening {path:?}: {want}"));
    let same = |k: &ErrorKind| matches!(k, ErrorKind::Io(i) if i.kind() == want.kind() && i.raw_os_error() == want.raw_os_error());
    let w = format!("the I/O error {want}");
    let needle = vec![want.to_string()];
    expect_kind(ElementReader::from_path(&path).map(|_| ()), "ElementReader::from_path", same, &w, &needle)?;
    expect_kind(BlobReader::from_path(&path).map(|_| ()), "BlobReader::from_path", same, &w, &needle)?;
    expect_kind(BlobReader::seekable_from_path(&path).map(|_| ()), "BlobReader::seekable_from_path", same, &w, &needle)?;
    expect_kind(IndexedReader::from_path(&path).map(|_| ()), "IndexedReader::from_path", same, &w, &needle)?;
    expect_kind(unsafe { Mmap::from_path(&path) }.map(|_| ()), "Mmap::from_path", same, &w, &needle)
}

fn first_err<T>(it: impl Iterator<Item = Result<T>>, what: &str) -> std::result::Result<Error, String> {
    for x in it {
        if let Err(e) = x {
            return Ok(e);
        }
    }
    Err(format!("{what}: no error reported"))
}

fn c19_broken(g: &mut Gen, c: &mut Case) -> R {
    let cfg = Cfg {
        max_blobs: 3,
        max_groups: 2,
        max_elems: 3,
        big: 0,
        many: 0,
        ..Cfg::default()
    };
    let d = if g.chance(1, 2) { gen_broken_payload(g, &cfg) } else { gen_broken_framing(g, &cfg) };
    c.file(&d.bytes);
    c.nontrivial = true;
    c.note(|| format!("{} {}", d.what, show(&d.file)));
    let bytes = Arc::new(d.bytes.clone());
    let size = d.size;
    type Pred = Box<dyn Fn(&ErrorKind) -> bool>;
    let (pred, want, needles): (Pred, String, Vec<String>) = match (d.frm, d.pay) {
        (Some(Frm::TooBig), _) => (
            Box::new(move |k| matches!(k, ErrorKind::Blob(BlobError::HeaderTooBig { size: s }) if *s == size)),
            format!("HeaderTooBig {{ size: {size} }}"),
            vec![size.to_string()],
        ),
        (Some(Frm::HeaderBad | Frm::BlobBad), _) => {
            (Box::new(|k| matches!(k, ErrorKind::Protobuf { .. })), "a protobuf error".into(), vec![])
        }
        (Some(Frm::Trailing), _) => (
            Box::new(|k| matches!(k, ErrorKind::Blob(BlobError::InvalidHeaderSize))),
            "InvalidHeaderSize".into(),
            vec![],
        ),
        // not documented as a particular kind: any error
        (Some(Frm::NegSize | Frm::PastEof), _) => (Box::new(|_| true), "an error".into(), vec![]),
        (None, Some(PayBad::Missing | PayBad::Other)) => {
            (Box::new(|k| matches!(k, ErrorKind::Blob(BlobError::Empty))), "Empty".into(), vec![])
        }
        (None, _) => (Box::new(|k| matches!(k, ErrorKind::Protobuf { .. })), "a protobuf error".into(), vec![]),
    };
    c.label(match (d.frm, d.pay) {
        (Some(Frm::TooBig), _) => "oversized header",
        (Some(Frm::HeaderBad), _) => "undecodable header",
        (Some(Frm::BlobBad), _) => "undecodable blob",
        (Some(Frm::Trailing), _) => "incomplete length prefix",
        (Some(_), _) => "impossible declared size",
        (None, Some(PayBad::Missing | PayBad::Other)) => "no raw or zlib data",
        _ => "undecodable payload",
    });
    let lazy = d.frm == Some(Frm::BlobBad);
    let unk = matches!(d.file.blobs[d.bad].kind, Kind::Unknown(..));
    for path in 0..4 {
        let name = ["blob iteration", "sequential reading", "memory map", "parallel reading"][path];
        let e = match path {
            0 => first_err(
                BlobReader::new(plain(&bytes)).map(|b| b.and_then(|b| b.decode().map(|_| ()))),
                name,
            )?,
            1 => match ElementReader::new(plain(&bytes)).for_each(|_| ()) {
                Err(e) => e,
                Ok(()) => bail!("{name}: no error for {want}"),
            },
            2 => {
                if unk && lazy {
                    continue;
                }
                let t = Tmp::new(&bytes);
                let m = map_file(&t)?;
                let mut err = None;
                for b in m.blob_iter() {
                    match b {
                        Ok(b) => {
                            if let Err(e) = b.decode() {
                                err = Some(e);
                                break;
                            }
                        }
                        Err(e) => {
                            err = Some(e);
                            break;
                        }
                    }
                }
                match err {
                    Some(e) => e,
                    None => bail!("{name}: no error for {want}"),
                }
            }
            _ => match crate::props::parallel::pool(2)
                .install(|| ElementReader::new(plain(&bytes)).par_map_reduce(|_| (), || (), |_, _| ()))
            {
                Err(e) => e,
                Ok(()) => bail!("{name}: no error for {want}"),
            },
        };
        expect_kind::<()>(Err(e), &format!("{} {name}", d.what), &pred, &want, &needles)?;
    }
    if !d.file.blobs[d.bad].is_data() || d.frm.is_some() && !matches!(d.frm, Some(Frm::TooBig | Frm::HeaderBad | Frm::Trailing)) {
        return Ok(());
    }
    // the index needs every data blob
    let mut ix = IndexedReader::new(plain(&bytes)).map_err(|e| ek(&e))?;
    expect_kind(ix.for_each_node(|_| ()), &format!("{} indexed reading", d.what), &pred, &want, &needles)
}

fn c19_strings(g: &mut Gen, c: &mut Case) -> R {
    // string indices: invalid text and out of range
    let mut strings: Vec<Vec<u8>> = vec![vec![]];
    let n = g.below(6);
    for _ in 0..n {
        let s = if g.chance(1, 3) { gen_bad_utf8(g) } else { gen_text(g) };
        strings.push(s);
    }
    let bi = strings.len();
    let bad = gen_bad_utf8(g);
    strings.push(bad.clone());
    let more = g.below(3);
    for _ in 0..more {
        strings.push(gen_text(g));
    }
    let total = strings.len();
    let oob = match g.weighted(&[40, 40, 20]) {
        0 => total,
        1 => total + g.below(1000),
        _ => *g.pick(&[127usize, 128, 255, 256, 65_535, 65_536, i32::MAX as usize]),
    }
    .max(total);
    let user = |s: usize| {
        Some(InfoM {
            user_sid: Some(s as u32),
            ..InfoM::default()
        })
    };
    let sids = [bi, oob];
    let b = BlockM {
        strings,
        groups: vec![
            GroupM {
                rels: vec![RelM {
                    id: 1,
                    members: sids
                        .iter()
                        .map(|s| MemberM {
                            ty: 0,
                            id: 1,
                            role: *s as i32,
                        })
                        .collect(),
                    info: user(bi),
                    ..RelM::default()
                }],
                ..GroupM::default()
            },
            GroupM {
                nodes: sids
                    .iter()
                    .map(|s| NodeM {
                        info: user(*s),
                        ..NodeM::default()
                    })
                    .collect(),
                ..GroupM::default()
            },
            GroupM {
                ways: sids
                    .iter()
                    .map(|s| WayM {
                        info: user(*s),
                        ..WayM::default()
                    })
                    .collect(),
                ..GroupM::default()
            },
            GroupM {
                dense: Some(DenseM {
                    nodes: sids
                        .iter()
                        .map(|s| DNodeM {
                            info: DInfoM {
                                user_sid: *s as i32,
                                ..DInfoM::default()
                            },
                            ..DNodeM::default()
                        })
                        .collect(),
                    has_info: true,
                    ..DenseM::default()
                }),
                ..GroupM::default()
            },
        ],
        ..BlockM::default()
    };
    let f = FileM {
        blobs: vec![BlobM::new(Kind::Data(b))],
    };
    let (bytes, _) = encode_file(&f);
    c.file(&bytes);
    c.nontrivial = true;
    c.label("string index");
    c.note(|| format!("invalid string {bad:?} at {bi}, index {oob} out of {total}"));
    let uerr = std::str::from_utf8(&bad).expect_err("harness: valid text");
    let is_bad = |k: &ErrorKind| matches!(k, ErrorKind::StringtableUtf8 { err, index } if *index == bi && *err == uerr);
    let is_oob = |k: &ErrorKind| matches!(k, ErrorKind::StringtableIndexOutOfBounds { index } if *index == oob);
    let wb = format!("StringtableUtf8 at index {bi} ({uerr})");
    let wo = format!("StringtableIndexOutOfBounds at index {oob}");
    let (nb, no) = (vec![bi.to_string(), uerr.to_string()], vec![oob.to_string()]);
    let blob = BlobReader::new(plain(&Arc::new(bytes))).next().ok_or("no blob")?.map_err(|e| ek(&e))?;
    let blk = blob.to_primitiveblock().map_err(|e| ek(&e))?;
    let mut k = 0;
    let mut judge = |r: Option<Result<&str>>, second: bool, what: &str| -> R {
        k += 1;
        let Some(r) = r else { bail!("{what}: no user") };
        if second {
            expect_kind(r, what, is_oob, &wo, &no)
        } else {
            expect_kind(r, what, is_bad, &wb, &nb)
        }
    };
    for gr in blk.groups() {
        for r in gr.relations() {
            for (i, m) in r.members().enumerate() {
                judge(Some(m.role()), i == 1, "role")?;
            }
            judge(r.info().user(), false, "relation user")?;
        }
        for (i, x) in gr.nodes().enumerate() {
            judge(x.info().user(), i == 1, "node user")?;
        }
        for (i, x) in gr.ways().enumerate() {
            judge(x.info().user(), i == 1, "way user")?;
        }
        for (i, x) in gr.dense_nodes().enumerate() {
            judge(x.info().map(|y| y.user()), i == 1, "dense node user")?;
        }
    }
    ensure!(k == 9, "{k} string lookups instead of 9");
    Ok(())
}

fn c19_faults(g: &mut Gen, c: &mut Case) -> R {
    // what the reader reports comes out as an I/O error of that kind
    // wherever it is an I/O operation of its own (seeking)
    let cfg = Cfg {
        max_blobs: 2,
        max_elems: 3,
        big: 0,
        many: 0,
        ..Cfg::default()
    };
    let f = gen_file(g, &cfg);
    let (b, _) = encode_file(&f);
    c.file(&b);
    let bytes = Arc::new(b);
    let kind = g.below(KINDS.len());
    let p = plan(bytes.len(), 0, 0);
    p.arm(0, kind, On::Seeks, false);
    c.nontrivial = true;
    c.label("failing seek");
    c.mixkey(kind as u64);
    let want = format!("an I/O error of kind {:?}", KINDS[kind]);
    let same = |k: &ErrorKind| matches!(k, ErrorKind::Io(i) if i.kind() == KINDS[kind] && i.to_string().contains("injected fault"));
    let needles = vec!["injected fault".to_string()];
    let which = g.below(5);
    c.note(|| format!("seek fault {:?} in operation {which}", KINDS[kind]));
    match which {
        0 => expect_kind(BlobReader::new_seekable(TestReader::new(&bytes, &p)).map(|_| ()), "new_seekable", same, &want, &needles),
        1 => {
            p.disarm();
            let mut r = BlobReader::new_seekable(TestReader::new(&bytes, &p)).map_err(|e| ek(&e))?;
            p.arm(0, kind, On::Seeks, false);
            expect_kind(r.seek(ByteOffset(0)), "seek", same, &want, &needles)
        }
        2 => {
            let mut r = BlobReader::new(TestReader::new(&bytes, &p));
            expect_kind(r.seek_raw(std::io::SeekFrom::Start(0)), "seek_raw", same, &want, &needles)
        }
        3 => {
            let mut r = BlobReader::new(TestReader::new(&bytes, &p));
            expect_kind(r.blob_from_offset(ByteOffset(0)).map(|_| ()), "blob_from_offset", same, &want, &needles)
        }
        _ => {
            // nothing there
            p.disarm();
            let mut r = BlobReader::new(TestReader::new(&bytes, &p));
            let off = bytes.len() as u64 + g.draw(100);
            expect_kind(
                r.blob_from_offset(ByteOffset(off)).map(|_| ()),
                "blob_from_offset at the end",
                |k| matches!(k, ErrorKind::Io(i) if i.kind() == std::io::ErrorKind::UnexpectedEof),
                "an I/O error UnexpectedEof",
                &[],
            )
        }
    }
}

fn c19(g: &mut Gen, c: &mut Case) -> R {
    match g.weighted(&[12, 50, 25, 13]) {
        0 => c19_open(g, c),
        1 => c19_broken(g, c),
        2 => c19_strings(g, c),
        _ => c19_faults(g, c),
    }
}

fn c19_too_big(total: usize) -> R {
    let (body, _) = sized_content(total, total - 100, 0);
    let mut e = Enc::new(Style::default());
    let data = blob_msg(Pay::Raw, &body, None, false, &mut e);
    let h = header_msg(b"OSMData", None, data.len() as i32, &mut e);
    let mut bytes = vec![];
    frame(&mut bytes, &h, &data);
    let b = BlobReader::new(Cursor::new(bytes)).next().ok_or("no blob")?.map_err(|e| ek(&e))?;
    let size = total as u64;
    expect_kind(
        b.decode().map(|_| ()),
        "oversized raw content",
        |k| matches!(k, ErrorKind::Blob(BlobError::MessageTooBig { size: s }) if *s == size),
        &format!("MessageTooBig {{ size: {size} }}"),
        &[size.to_string()],
    )
}

pub static C19: Prop = Prop {
    id: "C19",
    run: c19,
    pinned: &[
        ("raw content of exactly 32 MiB", |_| c19_too_big(MIB32)),
        ("raw content of 32 MiB + 1", |_| c19_too_big(MIB32 + 1)),
        ("raw content of 40 MB", |_| c19_too_big(40_000_000)),
    ],
    rule: "random defects, each with one documented cause: files that cannot be opened (missing, below a file, empty name, name too long; all five constructors), oversized headers, undecodable headers/blobs/payloads, missing or unsupported payloads, incomplete length prefixes, invalid and out-of-range string indices (roles and users of all kinds), failing seeks, reading at the end; oracle: the documented error kind with the exact details, a message that mentions them, and a conversion to std::io::Error that still holds the original. Non-trivial: every case in which the defect is met.",
    quick: 200_000,
    thorough: 6_000_000,
    workers: 8,
    fuzz: (4_000, 150_000),
};

// --------------------------------------------------------------------- C22

fn c22(g: &mut Gen, c: &mut Case) -> R {
    let cfg = Cfg {
        max_blobs: 7,
        max_groups: 3,
        max_elems: 5,
        big: 150,
        big_cap: 1500,
        many: 60,
        ..Cfg::default()
    };
    let payload = g.chance(1, 2);
    let d = if payload {
        gen_broken_payload(g, &cfg)
    } else {
        loop {
            let d = gen_broken_framing(g, &cfg);
            if d.frm != Some(Frm::BlobBad) {
                break d;
            }
        }
    };
    let w = *g.pick(&[0, TAGS | REFS | MEMB, POS | INFO]);
    c.file(&d.bytes);
    c.note(|| format!("{} {}", d.what, show(&d.file)));
    let f = &d.file;
    let bytes = Arc::new(d.bytes.clone());
    c.nontrivial = f.blobs.len() >= 2;
    c.label(if payload { "undecodable payload" } else { "broken framing" });
    c.label_if(d.bad > 0, "blobs before the defective one");
    c.label_if(d.bad + 1 < f.blobs.len(), "blobs after the defective one");
    c.label_if(f.blocks().count() > 0 && d.bad > 0 && d.bad + 1 < f.blobs.len(), "blobs on both sides");
    let t = Tmp::new(&bytes);
    let m = map_file(&t)?;
    let (fs, fm) = gen_frag(g);
    let wks = [
        (walk_stream(BlobReader::new(TestReader::new(&bytes, &plan(bytes.len(), fs, fm))), w)?, "stream"),
        (walk_stream(BlobReader::from_path(&t.0).map_err(|e| ek(&e))?, w)?, "path"),
        (walk_stream(BlobReader::seekable_from_path(&t.0).map_err(|e| ek(&e))?, w)?, "seekable path"),
        (walk_mmap(&m, w)?, "memory map"),
    ];
    for (wk, name) in &wks {
        if let Some(a) = &wk.after {
            bail!("{} {a}", d.what);
        }
        if payload {
            ensure!(wk.end.is_none() && wk.blobs.len() == f.blobs.len(), "{} {name}: {} of {} blobs, then {:?}", d.what, wk.blobs.len(), f.blobs.len(), wk.end);
            for (i, b) in wk.blobs.iter().enumerate() {
                ensure!(b.ty == f.blobs[i].type_name(), "{} {name}: blob {i} has type {:?}", d.what, b.ty);
                if i == d.bad {
                    ensure!(matches!(b.dec, Dec::Err(_)), "{} {name}: the defective blob decodes as {}", d.what, dec_name(&b.dec));
                } else {
                    check_dec(&b.dec, &f.blobs[i], w).map_err(|m| format!("{} {name}: blob {i}: {m}", d.what))?;
                }
            }
        } else {
            ensure!(wk.end.is_some(), "{} {name}: ends normally after {} blobs", d.what, wk.blobs.len());
            check_prefix(wk, f, d.bad, w, name).map_err(|m| format!("{} {m}", d.what))?;
        }
    }
    let (v, r) = seq_read(plain(&bytes), w);
    ensure!(r.is_err(), "{} the sequential scan ends normally", d.what);
    compare_seq(&v, &exp_file(&prefix(f, d.bad), w)).map_err(|m| format!("{} elements before the error: {m}", d.what))?;
    if payload {
        // decoding out of order changes nothing
        let blobs: Vec<_> = BlobReader::new(plain(&bytes)).collect::<std::result::Result<_, _>>().map_err(|e| ek(&e))?;
        let mut order: Vec<usize> = (0..blobs.len()).collect();
        for i in (1..order.len().min(60)).rev() {
            let j = g.below(i + 1);
            order.swap(i, j);
        }
        for i in order.into_iter().take(60) {
            let x = obs_blob(&blobs[i], w);
            ensure!(x.dec == wks[0].0.blobs[i].dec, "{} blob {i} decodes differently out of order", d.what);
        }
        let mb: Vec<_> = m.blob_iter().collect::<std::result::Result<Vec<_>, _>>().map_err(|e| ek(&e))?;
        for (i, b) in mb.iter().enumerate().rev().take(60) {
            ensure!(obs_mmap(b, w).dec == wks[3].0.blobs[i].dec, "{} memory map: blob {i} decodes differently out of order", d.what);
        }
        // the index reports a defective data blob, and does not need others
        let mut ix = IndexedReader::new(plain(&bytes)).map_err(|e| ek(&e))?;
        let mut n = 0usize;
        let r = ix.for_each_node(|_| n += 1);
        ensure!(r.is_err() == f.blobs[d.bad].is_data(), "{} indexed node iteration ends with {:?}", d.what, r.map_err(|e| ek(&e)));
    }
    Ok(())
}

pub static C22: Prop = Prop {
    id: "C22",
    run: c22,
    pinned: &[],
    rule: "random files with exactly one defective blob: undecodable payload (zlib garbage, cut stream, undecodable content raw or zlib, no payload, unsupported compression) or broken framing (oversized or undecodable header, negative size, size beyond the end, incomplete length prefix); oracle: with intact framing every other blob decodes to its model content in any order and the sequential scan delivers exactly what precedes; with broken framing all blobs before, one error, then the end, by stream, path and memory map. Non-trivial: at least two blobs.",
    quick: 100_000,
    thorough: 3_000_000,
    workers: 8,
    fuzz: (3_000, 100_000),
};

// --------------------------------------------------------------------- C23

/// What must hold under whichever zlib implementation this was built with.
fn c23(g: &mut Gen, c: &mut Case) -> R {
    match g.weighted(&[55, 42, 3]) {
        0 => {
            let cfg = Cfg {
                max_blobs: 4,
                big: 25,
                many: 200,
                ..Cfg::default()
            };
            let mut f = gen_file(g, &cfg);
            for b in &mut f.blobs {
                if !matches!(b.kind, Kind::Unknown(..)) {
                    b.pay = Pay::Zlib(match g.weighted(&[70, 30]) {
                        0 => *g.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]),
                        _ => SHAPED + g.draw(200) as u8,
                    });
                }
            }
            let (bytes, _) = encode_file(&f);
            c.file(&bytes);
            c.note(|| show(&f));
            c.nontrivial = f.count() > 0;
            c.label("conforming, all levels");
            let w = TAGS | POS | INFO | REFS | MEMB;
            let bytes = Arc::new(bytes);
            check_sequential(&f, &bytes, w)?;
            check_blocks(&f, &bytes, w)?;
            for (i, b) in BlobReader::new(plain(&bytes)).enumerate() {
                let b = b.map_err(|e| ek(&e))?;
                check_dec(&of_decode(b.decode(), w), &f.blobs[i], w).map_err(|m| format!("blob {i}: {m}"))?;
            }
            Ok(())
        }
        1 => c15(g, c),
        _ => c16_content(g, c),
    }
}

pub static C23: Prop = Prop {
    id: "C23",
    run: c23,
    pinned: &[],
    rule: "the same three checks run in three builds of the library (rust-zlib, zlib, zlib-ng), on the same generated inputs: conforming files at every compression level against the model (C01-C08's oracle), damaged zlib streams (C15's oracle: error or exactly the original), contents around 32 MiB (C16's oracle). Non-trivial: as there; counts are summed over the builds.",
    quick: 7_000,
    thorough: 200_000,
    workers: 8,
    fuzz: (0, 0),
};

