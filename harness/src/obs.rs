//! Owned observations of what the library delivers, and their expected
//! values computed from the model.

use crate::case::{tick, R};
use crate::model::*;
use osmpbf::*;
use std::cell::Cell;

pub const TAGS: u32 = 1;
pub const POS: u32 = 2;
pub const INFO: u32 = 4;
pub const REFS: u32 = 8;
pub const LOCS: u32 = 16;
pub const MEMB: u32 = 32;
/// the derived coordinate forms (degrees, decimicrodegrees) too
pub const DEG: u32 = 64;
/// stored indices and differences too
pub const RAW: u32 = 128;
pub const ALL: u32 = 255;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Pos {
    pub nlat: i64,
    pub nlon: i64,
    pub dlat: Option<i32>,
    pub dlon: Option<i32>,
    pub lat: f64,
    pub lon: f64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum StrO {
    Ok(String),
    Utf8(usize),
    Oob(usize),
    Other(String),
}

impl StrO {
    pub fn of(r: Result<&str>) -> StrO {
        match r {
            Ok(s) => StrO::Ok(s.to_string()),
            Err(e) => match e.kind() {
                ErrorKind::StringtableUtf8 { index, .. } => StrO::Utf8(*index),
                ErrorKind::StringtableIndexOutOfBounds { index } => StrO::Oob(*index),
                _ => StrO::Other(format!("{e:?}")),
            },
        }
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct InfoO {
    pub version: Option<i32>,
    pub milli: Option<i64>,
    pub cs: Option<i64>,
    pub uid: Option<i32>,
    pub user: Option<StrO>,
    pub visible: bool,
    pub deleted: bool,
    /// a dense node without metadata
    pub absent: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub enum EK {
    #[default]
    Node,
    Dense,
    Way,
    Rel,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Elem {
    pub kind: EK,
    pub id: i64,
    pub raw_tags: Vec<(i64, i64)>,
    pub tags: Vec<(String, String)>,
    pub pos: Option<Pos>,
    pub info: Option<InfoO>,
    pub refs: Vec<i64>,
    pub raw_refs: Vec<i64>,
    pub locs: Vec<Pos>,
    /// type, id, role index, role
    pub members: Vec<(u8, i64, i32, StrO)>,
}

thread_local! {
    static STYLE: Cell<u64> = const { Cell::new(0) };
    static NAME: Cell<u64> = const { Cell::new(0) };
    static VIA: Cell<Via> = const { Cell::new(Via::Stream) };
}

/// How a file is opened. Whatever the way, the same content must come out.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Via {
    /// any reader
    Stream,
    /// any seekable reader, so that offsets are known
    Seekable,
    /// by its path
    Path,
    /// by its path, seekable
    SeekPath,
    /// a memory map
    Map,
}

/// The sort of file name chosen for this case (0: a simple one).
pub fn name_kind() -> u64 {
    NAME.with(|x| x.get())
}

/// The way chosen for this case.
pub fn via() -> Via {
    VIA.with(|x| x.get())
}

/// How the iterators of this case are consumed (0: plainly). Whatever the
/// way, the same items must come out.
pub fn set_style(s: u64) {
    STYLE.with(|x| x.set(s));
    NAME.with(|x| x.set(s / 7 % 24));
    VIA.with(|x| {
        x.set(match s >> 16 {
            15 => Via::Map,
            14 => Via::SeekPath,
            12 | 13 => Via::Path,
            10 | 11 => Via::Seekable,
            _ => Via::Stream,
        })
    });
}

fn next_style() -> u64 {
    STYLE.with(|x| {
        let s = x.get();
        if s == 0 {
            return 0;
        }
        let n = crate::gen::mix(s, 0x517e);
        x.set(n | 1);
        n
    })
}

/// Everything an iterator delivers, by one of several ways to consume it.
pub fn items<I: Iterator + Clone, T>(mut it: I, mut f: impl FnMut(I::Item) -> T) -> Vec<T> {
    let s = next_style();
    let mut v = vec![];
    match s % 12 {
        1 | 2 => it.for_each(|x| v.push(f(x))),
        3 => {
            // go on with a clone, leave the original used up
            let k = (s >> 8) % 7;
            for _ in 0..k {
                match it.next() {
                    Some(x) => v.push(f(x)),
                    None => return v,
                }
            }
            let c = it.clone();
            for _ in 0..(s >> 16) % 3 {
                it.next();
            }
            c.for_each(|x| v.push(f(x)));
        }
        4 => {
            while let Some(x) = it.nth(0) {
                v.push(f(x));
            }
        }
        5 => {
            // by position, for the first few
            for i in 0..10 {
                match it.clone().nth(i) {
                    Some(x) => v.push(f(x)),
                    None => return v,
                }
            }
            v.extend(it.skip(10).map(f));
        }
        6 => {
            // the even and the odd positions separately
            let mut a = it.clone().step_by(2);
            let mut b = it.skip(1).step_by(2);
            loop {
                match a.next() {
                    Some(x) => v.push(f(x)),
                    None => break,
                }
                match b.next() {
                    Some(x) => v.push(f(x)),
                    None => break,
                }
            }
        }
        7 => {
            // the last item through last()
            let k = (s >> 8) % 4;
            for _ in 0..k {
                match it.next() {
                    Some(x) => v.push(f(x)),
                    None => return v,
                }
            }
            let n = it.clone().count();
            if n > 0 {
                let l = it.clone().last();
                v.extend(it.take(n - 1).map(&mut f));
                v.extend(l.map(f));
            }
        }
        8 => {
            let mut it = it.peekable();
            while it.peek().is_some() {
                if let Some(x) = it.next() {
                    v.push(f(x));
                }
            }
        }
        9 => {
            // in two halves
            let n = it.clone().count();
            v.extend(it.by_ref().take(n / 2).map(&mut f));
            v.extend(it.map(f));
        }
        10 => v = it.fold(v, |mut v, x| {
            v.push(f(x));
            v
        }),
        _ => {
            for x in it {
                v.push(f(x));
            }
        }
    }
    v
}

fn info_of(i: &Info<'_>) -> InfoO {
    InfoO {
        version: i.version(),
        milli: i.milli_timestamp(),
        cs: i.changeset(),
        uid: i.uid(),
        user: i.user().map(StrO::of),
        visible: i.visible(),
        deleted: i.deleted(),
        absent: false,
    }
}

fn stags<'a>(it: impl Iterator<Item = (&'a str, &'a str)> + Clone) -> Vec<(String, String)> {
    items(it, |(k, v)| {
        tick();
        (k.to_string(), v.to_string())
    })
}

fn rtags<T: Into<i64>>(it: impl Iterator<Item = (T, T)> + Clone) -> Vec<(i64, i64)> {
    items(it, |(k, v)| {
        tick();
        (k.into(), v.into())
    })
}

pub fn of_node(n: &Node<'_>, w: u32) -> Elem {
    tick();
    let mut e = Elem {
        kind: EK::Node,
        id: n.id(),
        ..Elem::default()
    };
    if w & TAGS != 0 {
        e.tags = stags(n.tags());
        if w & RAW != 0 {
            e.raw_tags = rtags(n.raw_tags());
        }
    }
    if w & POS != 0 {
        let mut p = Pos {
            nlat: n.nano_lat(),
            nlon: n.nano_lon(),
            ..Pos::default()
        };
        if w & DEG != 0 {
            p.dlat = Some(n.decimicro_lat());
            p.dlon = Some(n.decimicro_lon());
            p.lat = n.lat();
            p.lon = n.lon();
        }
        e.pos = Some(p);
    }
    if w & INFO != 0 {
        e.info = Some(info_of(&n.info()));
    }
    e
}

pub fn of_dense(n: &DenseNode<'_>, w: u32) -> Elem {
    tick();
    let mut e = Elem {
        kind: EK::Dense,
        id: n.id(),
        ..Elem::default()
    };
    if w & TAGS != 0 {
        e.tags = stags(n.tags());
        if w & RAW != 0 {
            e.raw_tags = rtags(n.raw_tags());
        }
    }
    if w & POS != 0 {
        let mut p = Pos {
            nlat: n.nano_lat(),
            nlon: n.nano_lon(),
            ..Pos::default()
        };
        if w & DEG != 0 {
            p.dlat = Some(n.decimicro_lat());
            p.dlon = Some(n.decimicro_lon());
            p.lat = n.lat();
            p.lon = n.lon();
        }
        e.pos = Some(p);
    }
    if w & INFO != 0 {
        e.info = Some(match n.info() {
            None => InfoO {
                absent: true,
                visible: true,
                ..InfoO::default()
            },
            Some(i) => InfoO {
                version: Some(i.version()),
                milli: Some(i.milli_timestamp()),
                cs: Some(i.changeset()),
                uid: Some(i.uid()),
                user: Some(StrO::of(i.user())),
                visible: i.visible(),
                deleted: i.deleted(),
                absent: false,
            },
        });
    }
    e
}

pub fn of_way(x: &Way<'_>, w: u32) -> Elem {
    tick();
    let mut e = Elem {
        kind: EK::Way,
        id: x.id(),
        ..Elem::default()
    };
    if w & TAGS != 0 {
        e.tags = stags(x.tags());
        if w & RAW != 0 {
            e.raw_tags = rtags(x.raw_tags());
        }
    }
    if w & INFO != 0 {
        e.info = Some(info_of(&x.info()));
    }
    if w & REFS != 0 {
        e.refs = items(x.refs(), |r| {
            tick();
            r
        });
        if w & RAW != 0 {
            e.raw_refs = x.raw_refs().to_vec();
        }
    }
    if w & LOCS != 0 {
        e.locs = items(x.node_locations(), |l| {
            tick();
            let mut p = Pos {
                nlat: l.nano_lat(),
                nlon: l.nano_lon(),
                ..Pos::default()
            };
            if w & DEG != 0 {
                p.dlat = Some(l.decimicro_lat());
                p.dlon = Some(l.decimicro_lon());
                p.lat = l.lat();
                p.lon = l.lon();
            }
            p
        });
    }
    e
}

pub fn mtype(t: &RelMemberType) -> u8 {
    match t {
        RelMemberType::Node => 0,
        RelMemberType::Way => 1,
        RelMemberType::Relation => 2,
    }
}

pub fn of_rel(x: &Relation<'_>, w: u32) -> Elem {
    tick();
    let mut e = Elem {
        kind: EK::Rel,
        id: x.id(),
        ..Elem::default()
    };
    if w & TAGS != 0 {
        e.tags = stags(x.tags());
        if w & RAW != 0 {
            e.raw_tags = rtags(x.raw_tags());
        }
    }
    if w & INFO != 0 {
        e.info = Some(info_of(&x.info()));
    }
    if w & MEMB != 0 {
        e.members = items(x.members(), |m| {
            tick();
            (
                mtype(&m.member_type),
                m.member_id,
                if w & RAW != 0 { m.role_sid } else { 0 },
                StrO::of(m.role()),
            )
        });
    }
    e
}

pub fn of_elem(x: &Element<'_>, w: u32) -> Elem {
    let c;
    let x = if next_style() % 8 == 3 {
        c = x.clone();
        &c
    } else {
        x
    };
    match x {
        Element::Node(n) => of_node(n, w),
        Element::DenseNode(n) => of_dense(n, w),
        Element::Way(n) => of_way(n, w),
        Element::Relation(n) => of_rel(n, w),
    }
}

pub fn hash_elem(e: &Elem) -> u64 {
    crate::gen::hash_bytes(format!("{e:?}").as_bytes())
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct HeaderO {
    pub bbox: Option<[f64; 4]>,
    pub required: Vec<String>,
    pub optional: Vec<String>,
    pub program: Option<String>,
    pub source: Option<String>,
    pub ts: Option<i64>,
    pub seq: Option<i64>,
    pub url: Option<String>,
}

pub fn of_header(h: &HeaderBlock) -> HeaderO {
    HeaderO {
        bbox: h.bbox().map(|b| [b.left, b.right, b.top, b.bottom]),
        required: h.required_features().to_vec(),
        optional: h.optional_features().to_vec(),
        program: h.writing_program().map(String::from),
        source: h.source().map(String::from),
        ts: h.osmosis_replication_timestamp(),
        seq: h.osmosis_replication_sequence_number(),
        url: h.osmosis_replication_base_url().map(String::from),
    }
}

pub fn same_f64(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-15 * a.abs().max(b.abs())
}

pub fn check_header(got: &HeaderO, m: &HeaderM) -> R {
    match (&got.bbox, &m.bbox) {
        (None, None) => {}
        (Some(g), Some(b)) => {
            let e = [b.0, b.1, b.2, b.3];
            for (k, name) in ["left", "right", "top", "bottom"].iter().enumerate() {
                let x = e[k] as f64 * 1e-9;
                ensure!(same_f64(g[k], x), "bbox {name}: got {:?}, stored {} nanodegrees", g[k], e[k]);
            }
        }
        (g, b) => bail!("bbox: got {g:?}, stored {b:?}"),
    }
    ensure!(got.required == m.required, "required features: got {:?}, stored {:?}", got.required, m.required);
    ensure!(got.optional == m.optional, "optional features: got {:?}, stored {:?}", got.optional, m.optional);
    ensure!(got.program == m.program, "writing program: got {:?}, stored {:?}", got.program, m.program);
    ensure!(got.source == m.source, "source: got {:?}, stored {:?}", got.source, m.source);
    ensure!(got.ts == m.ts, "replication timestamp: got {:?}, stored {:?}", got.ts, m.ts);
    ensure!(got.seq == m.seq, "replication sequence number: got {:?}, stored {:?}", got.seq, m.seq);
    ensure!(got.url == m.url, "replication url: got {:?}, stored {:?}", got.url, m.url);
    Ok(())
}

// ------------------------------------------------------------- expectations

pub fn exp_str(b: &BlockM, i: usize) -> StrO {
    match b.strings.get(i) {
        None => StrO::Oob(i),
        Some(s) => match std::str::from_utf8(s) {
            Ok(s) => StrO::Ok(s.to_string()),
            Err(_) => StrO::Utf8(i),
        },
    }
}

fn exp_tags(b: &BlockM, t: &[(u32, u32)], e: &mut Elem, w: u32) {
    if w & TAGS != 0 {
        let s = |i: u32| String::from_utf8_lossy(&b.strings[i as usize]).into_owned();
        e.tags = t.iter().map(|x| (s(x.0), s(x.1))).collect();
        if w & RAW != 0 {
            e.raw_tags = t.iter().map(|x| (i64::from(x.0), i64::from(x.1))).collect();
        }
    }
}

pub fn exp_pos(nlat: i64, nlon: i64, w: u32) -> Pos {
    let mut p = Pos {
        nlat,
        nlon,
        ..Pos::default()
    };
    if w & DEG != 0 {
        p.dlat = i32::try_from(nlat / 100).ok();
        p.dlon = i32::try_from(nlon / 100).ok();
        p.lat = nlat as f64 * 1e-9;
        p.lon = nlon as f64 * 1e-9;
    }
    p
}

fn exp_info(b: &BlockM, i: &Option<InfoM>) -> InfoO {
    match i {
        None => InfoO {
            visible: true,
            ..InfoO::default()
        },
        Some(i) => InfoO {
            version: i.version,
            milli: i.ts.map(|t| b.milli(t)),
            cs: i.cs,
            uid: i.uid,
            user: i.user_sid.map(|s| exp_str(b, s as usize)),
            visible: i.visible.unwrap_or(true),
            deleted: !i.visible.unwrap_or(true),
            absent: false,
        },
    }
}

pub fn exp_node(b: &BlockM, n: &NodeM, w: u32) -> Elem {
    let mut e = Elem {
        kind: EK::Node,
        id: n.id,
        ..Elem::default()
    };
    exp_tags(b, &n.tags, &mut e, w);
    if w & POS != 0 {
        e.pos = Some(exp_pos(b.lat_nano(n.lat), b.lon_nano(n.lon), w));
    }
    if w & INFO != 0 {
        e.info = Some(exp_info(b, &n.info));
    }
    e
}

pub fn exp_dense(b: &BlockM, d: &DenseM, n: &DNodeM, w: u32) -> Elem {
    let mut e = Elem {
        kind: EK::Dense,
        id: n.id,
        ..Elem::default()
    };
    exp_tags(b, &n.tags, &mut e, w);
    if w & POS != 0 {
        e.pos = Some(exp_pos(b.lat_nano(n.lat), b.lon_nano(n.lon), w));
    }
    if w & INFO != 0 {
        e.info = Some(if d.full_info() {
            let i = &n.info;
            let vis = !d.has_visible || i.visible;
            InfoO {
                version: Some(i.version),
                milli: Some(b.milli(i.ts)),
                cs: Some(i.cs),
                uid: Some(i.uid),
                user: Some(exp_str(b, i.user_sid as usize)),
                visible: vis,
                deleted: !vis,
                absent: false,
            }
        } else {
            InfoO {
                absent: true,
                visible: true,
                ..InfoO::default()
            }
        });
    }
    e
}

pub fn exp_way(b: &BlockM, x: &WayM, w: u32) -> Elem {
    let mut e = Elem {
        kind: EK::Way,
        id: x.id,
        ..Elem::default()
    };
    exp_tags(b, &x.tags, &mut e, w);
    if w & INFO != 0 {
        e.info = Some(exp_info(b, &x.info));
    }
    if w & REFS != 0 {
        e.refs = x.refs.clone();
        if w & RAW != 0 {
            let mut p = 0i64;
            for r in &x.refs {
                e.raw_refs.push(r.wrapping_sub(p));
                p = *r;
            }
        }
    }
    if w & LOCS != 0 {
        if let Some(l) = &x.locs {
            e.locs = l.iter().map(|p| exp_pos(b.lat_nano(p.0), b.lon_nano(p.1), w)).collect();
        }
    }
    e
}

pub fn exp_rel(b: &BlockM, x: &RelM, w: u32) -> Elem {
    let mut e = Elem {
        kind: EK::Rel,
        id: x.id,
        ..Elem::default()
    };
    exp_tags(b, &x.tags, &mut e, w);
    if w & INFO != 0 {
        e.info = Some(exp_info(b, &x.info));
    }
    if w & MEMB != 0 {
        e.members = x
            .members
            .iter()
            .map(|m| {
                (
                    m.ty,
                    m.id,
                    if w & RAW != 0 { m.role } else { 0 },
                    exp_str(b, m.role as usize),
                )
            })
            .collect();
    }
    e
}

/// The elements of one group, ordered by kind.
pub fn exp_group(b: &BlockM, g: &GroupM, w: u32) -> Vec<Elem> {
    let mut v = Vec::with_capacity(g.count());
    v.extend(g.nodes.iter().map(|x| exp_node(b, x, w)));
    if let Some(d) = &g.dense {
        v.extend(d.nodes.iter().map(|x| exp_dense(b, d, x, w)));
    }
    v.extend(g.ways.iter().map(|x| exp_way(b, x, w)));
    v.extend(g.rels.iter().map(|x| exp_rel(b, x, w)));
    v
}

/// Per group (only groups with elements), over the given blocks.
pub fn exp_blocks<'a>(bs: impl Iterator<Item = &'a BlockM>, w: u32) -> Vec<Vec<Elem>> {
    let mut out = vec![];
    for b in bs {
        for g in &b.groups {
            let v = exp_group(b, g, w);
            if !v.is_empty() {
                out.push(v);
            }
        }
    }
    out
}

pub fn exp_file(f: &FileM, w: u32) -> Vec<Vec<Elem>> {
    exp_blocks(f.blocks(), w)
}

fn same_pos(g: &Pos, e: &Pos) -> std::result::Result<(), String> {
    ensure!(g.nlat == e.nlat, "nanodegree latitude {} instead of {}", g.nlat, e.nlat);
    ensure!(g.nlon == e.nlon, "nanodegree longitude {} instead of {}", g.nlon, e.nlon);
    if e.dlat.is_some() {
        ensure!(g.dlat == e.dlat, "decimicro latitude {:?} instead of {:?}", g.dlat, e.dlat);
    }
    if e.dlon.is_some() {
        ensure!(g.dlon == e.dlon, "decimicro longitude {:?} instead of {:?}", g.dlon, e.dlon);
    }
    ensure!(same_f64(g.lat, e.lat), "latitude {:?} instead of {:?} degrees", g.lat, e.lat);
    ensure!(same_f64(g.lon, e.lon), "longitude {:?} instead of {:?} degrees", g.lon, e.lon);
    Ok(())
}

fn seq<T: PartialEq + std::fmt::Debug>(what: &str, g: &[T], e: &[T]) -> R {
    if g == e {
        return Ok(());
    }
    let i = g.iter().zip(e).position(|(a, b)| a != b).unwrap_or(g.len().min(e.len()));
    Err(format!(
        "{what}: got {} entries, expected {}; first difference at {i}: got {:?}, expected {:?}",
        g.len(),
        e.len(),
        g.get(i),
        e.get(i)
    ))
}

/// Compare an observed element with the expected one.
pub fn same_elem(g: &Elem, e: &Elem) -> R {
    ensure!(g.kind == e.kind, "kind {:?} (id {}) instead of {:?} (id {})", g.kind, g.id, e.kind, e.id);
    ensure!(g.id == e.id, "id {} instead of {}", g.id, e.id);
    seq("tags", &g.tags, &e.tags)?;
    seq("raw tags", &g.raw_tags, &e.raw_tags)?;
    match (&g.pos, &e.pos) {
        (Some(a), Some(b)) => same_pos(a, b)?,
        (None, None) => {}
        _ => bail!("harness: position observed on one side only"),
    }
    if g.info != e.info {
        bail!("metadata: got {:?}, expected {:?}", g.info, e.info);
    }
    seq("refs", &g.refs, &e.refs)?;
    seq("raw refs", &g.raw_refs, &e.raw_refs)?;
    ensure!(g.locs.len() == e.locs.len(), "node locations: got {}, expected {}", g.locs.len(), e.locs.len());
    for (i, (a, b)) in g.locs.iter().zip(&e.locs).enumerate() {
        same_pos(a, b).map_err(|m| format!("node location {i}: {m}"))?;
    }
    seq("members", &g.members, &e.members)
}

/// Compare a delivered sequence with the expected groups: within one group,
/// only the order among elements of the same kind is fixed.
pub fn compare_seq(got: &[Elem], exp: &[Vec<Elem>]) -> R {
    let mut at = 0;
    for (gi, ex) in exp.iter().enumerate() {
        let n = ex.len();
        if got.len() < at + n {
            bail!(
                "only {} elements delivered, {} expected (group {gi} incomplete)",
                got.len(),
                exp.iter().map(|v| v.len()).sum::<usize>()
            );
        }
        let mut part: Vec<&Elem> = got[at..at + n].iter().collect();
        part.sort_by_key(|e| e.kind);
        for (i, (a, b)) in part.iter().zip(ex).enumerate() {
            same_elem(a, b).map_err(|m| {
                format!("group {gi}, element {i} ({:?} {}, position {}): {m}", b.kind, b.id, at + i)
            })?;
        }
        at += n;
    }
    if got.len() > at {
        bail!("{} elements delivered, only {at} expected; first extra: {:?}", got.len(), got[at]);
    }
    Ok(())
}

pub fn ek(e: &Error) -> String {
    match e.kind() {
        ErrorKind::Io(e) => format!("Io({:?})", e.kind()),
        ErrorKind::Protobuf { .. } => "Protobuf".into(),
        ErrorKind::StringtableUtf8 { index, .. } => format!("Utf8({index})"),
        ErrorKind::StringtableIndexOutOfBounds { index } => format!("OutOfBounds({index})"),
        ErrorKind::Blob(b) => format!("Blob({b:?})"),
        _ => "other".into(),
    }
}

pub fn block_elems(b: &PrimitiveBlock, w: u32) -> Vec<Elem> {
    items(b.elements(), |e| of_elem(&e, w))
}

pub fn group_elems(g: &PrimitiveGroup<'_>, w: u32) -> Vec<Elem> {
    let mut v = vec![];
    v.extend(items(g.nodes(), |x| of_node(&x, w)));
    v.extend(items(g.dense_nodes(), |x| of_dense(&x, w)));
    v.extend(items(g.ways(), |x| of_way(&x, w)));
    v.extend(items(g.relations(), |x| of_rel(&x, w)));
    v
}

#[derive(Clone, Debug, PartialEq)]
pub enum Dec {
    Header(HeaderO),
    Data(Vec<Elem>),
    Unknown(String),
    Err(String),
}

pub fn of_decode(d: Result<BlobDecode<'_>>, w: u32) -> Dec {
    match d {
        Ok(BlobDecode::OsmHeader(h)) => Dec::Header(of_header(&h)),
        Ok(BlobDecode::OsmData(b)) => Dec::Data(block_elems(&b, w)),
        Ok(BlobDecode::Unknown(s)) => Dec::Unknown(s.to_string()),
        Err(e) => Dec::Err(ek(&e)),
    }
}

/// What decoding one conforming blob must yield.
pub fn check_dec(got: &Dec, b: &BlobM, w: u32) -> R {
    match (got, &b.kind) {
        (Dec::Header(h), Kind::Header(m)) => check_header(h, m),
        (Dec::Data(v), Kind::Data(m)) => compare_seq(v, &exp_blocks(std::iter::once(m), w)),
        (Dec::Unknown(t), Kind::Unknown(m, _)) => {
            ensure!(t == m, "unknown blob type {t:?} instead of {m:?}");
            Ok(())
        }
        (Dec::Err(e), _) => Err(format!("decoding a valid {:?} blob failed: {e}", b.type_name())),
        (d, _) => Err(format!("blob of type {:?} decoded as {}", b.type_name(), dec_name(d))),
    }
}

pub fn dec_name(d: &Dec) -> &'static str {
    match d {
        Dec::Header(_) => "a header block",
        Dec::Data(_) => "a primitive block",
        Dec::Unknown(_) => "an unknown blob",
        Dec::Err(_) => "an error",
    }
}

/// Sequential reading: what was delivered, and how it ended.
pub fn seq_read<R: std::io::Read + Send>(r: R, w: u32) -> (Vec<Elem>, std::result::Result<(), String>) {
    let mut v = vec![];
    let res = ElementReader::new(r).for_each(|e| v.push(of_elem(&e, w)));
    (v, res.map_err(|e| ek(&e)))
}
