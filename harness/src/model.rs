//! Model of a PBF file: absolute values, generator, encoder.

use crate::gen::{mix, Gen};
use crate::wire::{Enc, Msg, Style};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct InfoM {
    pub version: Option<i32>,
    pub ts: Option<i64>,
    pub cs: Option<i64>,
    pub uid: Option<i32>,
    pub user_sid: Option<u32>,
    pub visible: Option<bool>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct NodeM {
    pub id: i64,
    pub lat: i64,
    pub lon: i64,
    pub tags: Vec<(u32, u32)>,
    pub info: Option<InfoM>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct DInfoM {
    pub version: i32,
    pub ts: i64,
    pub cs: i64,
    pub uid: i32,
    pub user_sid: i32,
    pub visible: bool,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct DNodeM {
    pub id: i64,
    pub lat: i64,
    pub lon: i64,
    pub tags: Vec<(u32, u32)>,
    pub info: DInfoM,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct DenseM {
    pub nodes: Vec<DNodeM>,
    pub has_info: bool,
    pub has_visible: bool,
    /// metadata columns that are not stored (bit 0 version, 1 timestamp,
    /// 2 changeset, 3 user id, 4 user name)
    pub missing: u8,
    /// write the tag column even if no node has tags
    pub tag_col: bool,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct WayM {
    pub id: i64,
    pub tags: Vec<(u32, u32)>,
    pub info: Option<InfoM>,
    pub refs: Vec<i64>,
    /// (lat, lon) raw
    pub locs: Option<Vec<(i64, i64)>>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MemberM {
    pub ty: u8,
    pub id: i64,
    pub role: i32,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct RelM {
    pub id: i64,
    pub tags: Vec<(u32, u32)>,
    pub info: Option<InfoM>,
    pub members: Vec<MemberM>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct GroupM {
    pub nodes: Vec<NodeM>,
    pub dense: Option<DenseM>,
    pub ways: Vec<WayM>,
    pub rels: Vec<RelM>,
    pub changesets: Vec<i64>,
}

impl GroupM {
    pub fn kinds(&self) -> usize {
        usize::from(!self.nodes.is_empty())
            + usize::from(self.dense.as_ref().is_some_and(|d| !d.nodes.is_empty()))
            + usize::from(!self.ways.is_empty())
            + usize::from(!self.rels.is_empty())
    }
    pub fn count(&self) -> usize {
        self.nodes.len()
            + self.dense.as_ref().map_or(0, |d| d.nodes.len())
            + self.ways.len()
            + self.rels.len()
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct BlockM {
    pub strings: Vec<Vec<u8>>,
    pub groups: Vec<GroupM>,
    pub gran: Option<i32>,
    pub lat_off: Option<i64>,
    pub lon_off: Option<i64>,
    pub date_gran: Option<i32>,
}

impl BlockM {
    pub fn gran_v(&self) -> i64 {
        i64::from(self.gran.unwrap_or(100))
    }
    pub fn date_v(&self) -> i64 {
        i64::from(self.date_gran.unwrap_or(1000))
    }
    pub fn lat_nano(&self, raw: i64) -> i64 {
        to64(i128::from(self.lat_off.unwrap_or(0)) + i128::from(self.gran_v()) * i128::from(raw))
    }
    pub fn lon_nano(&self, raw: i64) -> i64 {
        to64(i128::from(self.lon_off.unwrap_or(0)) + i128::from(self.gran_v()) * i128::from(raw))
    }
    pub fn milli(&self, ts: i64) -> i64 {
        to64(i128::from(ts) * i128::from(self.date_v()))
    }
    pub fn count(&self) -> usize {
        self.groups.iter().map(|g| g.count()).sum()
    }
}

fn to64(v: i128) -> i64 {
    i64::try_from(v).expect("generator bug: value outside 64 bits")
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct HeaderM {
    /// left, right, top, bottom
    pub bbox: Option<(i64, i64, i64, i64)>,
    pub required: Vec<String>,
    pub optional: Vec<String>,
    pub program: Option<String>,
    pub source: Option<String>,
    pub ts: Option<i64>,
    pub seq: Option<i64>,
    pub url: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Header(HeaderM),
    Data(BlockM),
    Unknown(String, Vec<u8>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pay {
    Raw,
    Zlib(u8),
    /// lzma, bzip2, lz4, zstd field numbers: payload stored verbatim
    Other(u32),
    /// no data field at all
    Missing,
}

#[derive(Clone, Debug, PartialEq)]
pub struct BlobM {
    pub kind: Kind,
    pub pay: Pay,
    pub indexdata: Option<Vec<u8>>,
    pub raw_size: bool,
    pub raw_size_last: bool,
    pub style: Style,
}

impl BlobM {
    pub fn new(kind: Kind) -> BlobM {
        BlobM {
            kind,
            pay: Pay::Raw,
            indexdata: None,
            raw_size: false,
            raw_size_last: false,
            style: Style::default(),
        }
    }
    pub fn type_name(&self) -> &str {
        match &self.kind {
            Kind::Header(_) => "OSMHeader",
            Kind::Data(_) => "OSMData",
            Kind::Unknown(s, _) => s,
        }
    }
    pub fn is_data(&self) -> bool {
        matches!(self.kind, Kind::Data(_))
    }
    pub fn block(&self) -> Option<&BlockM> {
        match &self.kind {
            Kind::Data(b) => Some(b),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct FileM {
    pub blobs: Vec<BlobM>,
}

impl FileM {
    pub fn blocks(&self) -> impl Iterator<Item = &BlockM> {
        self.blobs.iter().filter_map(|b| b.block())
    }
    pub fn count(&self) -> usize {
        self.blocks().map(|b| b.count()).sum()
    }
}

// ---------------------------------------------------------------- generator

#[derive(Clone, Debug)]
pub struct Cfg {
    pub max_blobs: usize,
    pub max_groups: usize,
    pub max_elems: usize,
    /// weights: nodes, dense, ways, rels, empty, mixed
    pub kinds: [u32; 6],
    pub tags: bool,
    pub info: bool,
    /// one in `big` element lists is large (0: never)
    pub big: u64,
    pub big_cap: usize,
    /// further limit on the number of elements of a group
    pub elem_cap: usize,
    /// one in `many` files has many blobs/groups
    pub many: u64,
    pub bad_utf8: bool,
    /// probability out of 16 of a non-canonical wire style per blob
    pub style16: u64,
    /// weights: data, header, unknown
    pub blob_kinds: [u32; 3],
    pub changesets: bool,
    pub geo: bool,
    /// ids drawn from a small range so that they collide
    pub id_overlap: bool,
    pub id_limit: i64,
    pub zlib: bool,
}

impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            max_blobs: 6,
            max_groups: 4,
            max_elems: 8,
            kinds: [20, 25, 20, 15, 8, 6],
            tags: true,
            info: true,
            big: 120,
            big_cap: 9000,
            elem_cap: usize::MAX,
            many: 60,
            bad_utf8: false,
            style16: 2,
            blob_kinds: [70, 18, 12],
            changesets: true,
            geo: true,
            id_overlap: false,
            id_limit: 1 << 62,
            zlib: true,
        }
    }
}

const WORDS: &[&str] = &[
    "", "building", "yes", "no", "highway", "residential", "name", "triangle", "natural", "source", "ref",
    "outer", "inner", "type", "multipolygon", "user", "a", "b", "key", "value", "rel_key", "rel_value",
    "test_role", "created_by", "amenity", "0", "1",
];

pub fn gen_text(g: &mut Gen) -> Vec<u8> {
    match g.weighted(&[50, 12, 12, 10, 8, 8]) {
        0 => g.pick(WORDS).as_bytes().to_vec(),
        1 => {
            let l = &crate::gen::lits().strs;
            let s = g.pick(l).clone();
            if std::str::from_utf8(&s).is_ok() {
                s
            } else {
                b"lit".to_vec()
            }
        }
        2 => {
            let n = g.below(12);
            (0..n).map(|_| 0x20 + g.below(0x5f) as u8).collect()
        }
        3 => {
            const U: &[&str] = &[
                "Straße", "é", "日本語", "🌍", "a\u{0301}", "\u{feff}", "\u{10ffff}", "\u{80}", "\u{7ff}\u{800}",
                "\u{ffff}", "Αθήνα", "\u{202e}rtl",
            ];
            g.pick(U).as_bytes().to_vec()
        }
        4 => {
            const C: &[&str] = &["\0", " ", "\n", "a\0b", "\t", " x ", "=", "a=b", "\u{7f}", "'\"\\"];
            g.pick(C).as_bytes().to_vec()
        }
        _ => {
            let n = *g.pick(&[64usize, 126, 127, 128, 129, 255, 256, 300, 1000, 5000]);
            let c = b'a' + g.below(26) as u8;
            vec![c; n]
        }
    }
}

pub fn gen_string(g: &mut Gen) -> String {
    String::from_utf8(gen_text(g)).unwrap_or_default()
}

pub fn gen_bad_utf8(g: &mut Gen) -> Vec<u8> {
    const B: &[&[u8]] = &[
        b"\xff",
        b"\xc3",
        b"abc\xff",
        b"ok\xe2\x82",
        b"\xed\xa0\x80",
        b"\xf4\x90\x80\x80",
        b"\xc0\x80",
        b"M\xfcller",
        b"\x80",
        b"valid prefix \xf0\x9f\x8c and more",
    ];
    let bad = g.pick(B).to_vec();
    if g.chance(4, 5) {
        return bad;
    }
    // at the end, in the middle or at the start of a longer string, often
    // with a total length around a power of two
    let n = match g.below(3) {
        0 => g.below(40),
        1 => g.below(1200),
        _ => (*g.pick(&[16usize, 32, 64, 127, 128, 255, 256, 512, 1024, 4096]) + g.below(3)).saturating_sub(1 + bad.len()),
    };
    let mut s: Vec<u8> = if g.chance(1, 3) {
        "é".as_bytes().iter().copied().cycle().take(n / 2 * 2).collect()
    } else {
        vec![b'a' + g.below(26) as u8; n]
    };
    let at = match g.below(3) {
        0 => 0,
        1 => s.len(),
        _ => s.len() / 2,
    };
    s.splice(at..at, bad);
    // an inserted fragment may have become valid
    if std::str::from_utf8(&s).is_ok() {
        s.push(0xff);
    }
    s
}

pub fn gen_strings(g: &mut Gen, cfg: &Cfg) -> Vec<Vec<u8>> {
    // entry 0 is usually empty, since it cannot be used by tags of dense nodes
    let mut v: Vec<Vec<u8>> = vec![if g.chance(1, 12) { gen_text(g) } else { vec![] }];
    if cfg.big > 0 && g.chance(1, cfg.big) {
        let n = g.big_len(cfg.big_cap.max(200));
        let mut pre = gen_text(g);
        if pre.len() > 130 {
            pre.truncate(130);
        }
        for i in 1..n {
            let mut s = if i % 7 == 0 { pre.clone() } else { vec![] };
            s.extend_from_slice(format!("s{i}").as_bytes());
            v.push(s);
        }
    } else {
        let n = g.len(14);
        for _ in 0..n {
            g.open();
            let s = if cfg.bad_utf8 && g.chance(1, 5) {
                gen_bad_utf8(g)
            } else {
                gen_text(g)
            };
            v.push(s);
            g.close();
        }
    }
    v
}

/// A string index >= 1, or None if the table has only entry 0.
pub fn gen_sid(g: &mut Gen, n: usize) -> Option<u32> {
    if n <= 1 {
        None
    } else if n > 64 && g.chance(1, 2) {
        // near the end or at varint/integer size boundaries
        let c = [n - 1, n.saturating_sub(2), 127, 128, 129, 255, 256, 16383, 16384, 32767, 32768, 65535, 65536];
        let i = *g.pick(&c);
        Some((i.clamp(1, n - 1)) as u32)
    } else {
        Some(1 + g.below(n - 1) as u32)
    }
}

/// Tags of an element that is not a dense node: index 0 is an entry like
/// any other.
pub fn gen_tags0(g: &mut Gen, cfg: &Cfg, nstr: usize) -> Vec<(u32, u32)> {
    let mut t = gen_tags(g, cfg, nstr);
    if !t.is_empty() && g.chance(1, 10) {
        let i = g.below(t.len());
        match g.draw(3) {
            0 => t[i].0 = 0,
            1 => t[i].1 = 0,
            _ => t[i] = (0, 0),
        }
    }
    t
}

pub fn gen_tags(g: &mut Gen, cfg: &Cfg, nstr: usize) -> Vec<(u32, u32)> {
    if !cfg.tags || nstr <= 1 {
        return vec![];
    }
    if cfg.big > 0 && g.chance(1, cfg.big * 2) {
        let n = g.big_len(cfg.big_cap.min(3000));
        let a = gen_sid(g, nstr).unwrap();
        return (0..n as u32)
            .map(|i| {
                let m = nstr as u32 - 1;
                (1 + (a + i) % m, 1 + (a + i * 3) % m)
            })
            .collect();
    }
    let n = g.len(5);
    (0..n)
        .map(|_| (gen_sid(g, nstr).unwrap(), gen_sid(g, nstr).unwrap()))
        .collect()
}

fn gen_ts(g: &mut Gen, date: i64) -> i64 {
    let lim = (1i64 << 62) / date.abs().max(1);
    if g.chance(1, 2) {
        (1_100_000_000 + g.draw(700_000_000) as i64).min(lim)
    } else {
        g.int(lim)
    }
}

pub fn gen_info(g: &mut Gen, cfg: &Cfg, b: &BlockM) -> Option<InfoM> {
    if !cfg.info || g.chance(1, 3) {
        return None;
    }
    let date = b.date_v();
    let all = g.chance(1, 2);
    let f = |g: &mut Gen| all || g.chance(1, 2);
    Some(InfoM {
        version: if f(g) { Some(g.int(i64::from(i32::MAX)) as i32) } else { None },
        ts: if f(g) { Some(gen_ts(g, date)) } else { None },
        cs: if f(g) { Some(g.int(i64::MAX)) } else { None },
        uid: if f(g) { Some(g.int(i64::from(i32::MAX)) as i32) } else { None },
        user_sid: if f(g) {
            Some(if g.chance(1, 4) { 0 } else { gen_sid(g, b.strings.len()).unwrap_or(0) })
        } else {
            None
        },
        visible: if f(g) { Some(g.chance(1, 2)) } else { None },
    })
}

fn raw_limit(b: &BlockM) -> i64 {
    ((1i64 << 61) / b.gran_v().abs().max(1)).min(1 << 61)
}

pub fn gen_raw(g: &mut Gen, b: &BlockM, cfg: &Cfg) -> i64 {
    let lim = raw_limit(b);
    if cfg.geo && g.chance(1, 2) {
        // a real-world coordinate
        let nano = g.range(-180_000_000_000, 180_000_000_000);
        (nano / b.gran_v().abs().max(1)).clamp(-lim, lim)
    } else {
        g.int(lim)
    }
}

/// A latitude and a longitude, now and then one of the points that other
/// programs use for "nowhere", in whatever unit they count.
pub fn gen_point(g: &mut Gen, b: &BlockM, cfg: &Cfg) -> (i64, i64) {
    let lat = gen_raw(g, b, cfg);
    if !g.chance(1, 6) {
        return (lat, gen_raw(g, b, cfg));
    }
    let lim = raw_limit(b);
    let degrees = |v: i64| v.wrapping_mul(1_000_000_000) / b.gran_v().abs().max(1);
    let (x, y) = match g.draw(8) {
        0 => (lat, lat),
        1 => (lat, -lat),
        2 => {
            let v = *g.pick(&[0, 1, -1, i64::from(i32::MAX), i64::from(i32::MIN), i64::from(u32::MAX), 1 << 31, i64::MAX, -i64::MAX]);
            (v, v)
        }
        3 => {
            let v = g.lit_int();
            (v, v)
        }
        4 => (g.lit_int(), g.lit_int()),
        5 => {
            let v = degrees(*g.pick(&[90, -90, 91, 180, -180, 181, 200, 255, -999]));
            (v, v)
        }
        6 => (degrees(*g.pick(&[90, -90, 91, -91])), degrees(*g.pick(&[180, -180, 181, -181, 0]))),
        _ => (0, 0),
    };
    (x.clamp(-lim, lim), y.clamp(-lim, lim))
}

fn gen_id(g: &mut Gen, cfg: &Cfg) -> i64 {
    if cfg.id_overlap {
        match g.weighted(&[70, 25, 5]) {
            0 => g.range(1, 24),
            1 => g.range(-12, 40),
            _ => *g.pick(&[-(1 << 61), 1 << 62, 1 << 31, -(1 << 31), (1 << 32) + 3, 3 - (1 << 32), 1 << 53]),
        }
    } else {
        g.int(cfg.id_limit)
    }
}

fn gen_ids(g: &mut Gen, cfg: &Cfg, n: usize) -> Vec<i64> {
    if cfg.id_overlap && n <= 64 {
        let mut v: Vec<i64> = (0..n).map(|_| gen_id(g, cfg)).collect();
        if g.chance(1, 2) {
            v.sort_unstable();
        }
        v
    } else if cfg.id_overlap {
        g.int_seq(n, 4000)
    } else {
        g.int_seq(n, cfg.id_limit)
    }
}

/// The number of elements in a list, and how many of them are drawn individually.
fn gen_n(g: &mut Gen, cfg: &Cfg) -> usize {
    if cfg.big > 0 && g.chance(1, cfg.big) {
        g.big_len(cfg.big_cap.min(cfg.elem_cap))
    } else {
        1 + g.len(cfg.max_elems.saturating_sub(1))
    }
}

const TMPL: usize = 24;

fn expand<T: Clone>(n: usize, t: &[T]) -> impl Iterator<Item = T> + '_ {
    // a fixed, uneven reuse of the templates
    (0..n).map(move |i| {
        if i < t.len() {
            t[i].clone()
        } else {
            t[(i * 7 + i / 13) % t.len()].clone()
        }
    })
}

pub fn gen_nodes(g: &mut Gen, cfg: &Cfg, b: &BlockM) -> Vec<NodeM> {
    let n = gen_n(g, cfg);
    let ids = gen_ids(g, cfg, n);
    let mut t = vec![];
    for _ in 0..n.min(TMPL) {
        g.open();
        let (lat, lon) = gen_point(g, b, cfg);
        t.push(NodeM {
            id: 0,
            lat,
            lon,
            tags: gen_tags0(g, cfg, b.strings.len()),
            info: gen_info(g, cfg, b),
        });
        g.close();
    }
    expand(n, &t)
        .zip(ids)
        .enumerate()
        .map(|(i, (mut x, id))| {
            x.id = id;
            if i >= TMPL {
                x.lat = bump(x.lat, i);
                if x.tags.len() > 16 {
                    x.tags.truncate(3);
                }
            }
            x
        })
        .collect()
}

fn bump(v: i64, i: usize) -> i64 {
    // stays within the raw limit's slack
    if v > 0 {
        v - (i as i64).min(v)
    } else {
        v + (i as i64).min(-v)
    }
}

impl BlockM {
    fn uses_strings(&self) -> bool {
        let info = |i: &Option<InfoM>| i.as_ref().is_some_and(|i| i.user_sid.is_some());
        self.groups.iter().any(|x| {
            x.nodes.iter().any(|e| !e.tags.is_empty() || info(&e.info))
                || x.dense.as_ref().is_some_and(|d| d.has_info || d.nodes.iter().any(|e| !e.tags.is_empty()))
                || x.ways.iter().any(|e| !e.tags.is_empty() || info(&e.info))
                || x.rels.iter().any(|e| !e.tags.is_empty() || !e.members.is_empty() || info(&e.info))
        })
    }
}

impl DenseM {
    /// Only with all five columns do the nodes have a metadata record: the
    /// interface has no way to tell that a single one is absent.
    pub fn full_info(&self) -> bool {
        self.has_info && self.missing & 31 == 0
    }
}

pub fn gen_dense(g: &mut Gen, cfg: &Cfg, b: &BlockM) -> DenseM {
    let n = gen_n(g, cfg);
    let ids = gen_ids(g, cfg, n);
    let has_info = cfg.info && !g.chance(1, 4);
    let has_visible = has_info && g.chance(1, 2);
    let tagged = cfg.tags && g.chance(2, 3);
    let date = b.date_v();
    let mut t = vec![];
    for _ in 0..n.min(TMPL) {
        g.open();
        let (lat, lon) = gen_point(g, b, cfg);
        let tags = if tagged && g.chance(1, 2) {
            // the key tells where the tags end, index 0 is a value like any other
            let mut t = gen_tags(g, cfg, b.strings.len());
            if !t.is_empty() && g.chance(1, 12) {
                let i = g.below(t.len());
                t[i].1 = 0;
            }
            t
        } else {
            vec![]
        };
        let info = if has_info {
            DInfoM {
                version: g.int(i64::from(i32::MAX)) as i32,
                ts: gen_ts(g, date),
                cs: g.int(1 << 61),
                uid: g.int(1 << 29) as i32,
                user_sid: if g.chance(1, 4) { 0 } else { gen_sid(g, b.strings.len()).unwrap_or(0) as i32 },
                visible: if has_visible { !g.chance(1, 2) } else { true },
            }
        } else {
            DInfoM::default()
        };
        t.push(DNodeM {
            id: 0,
            lat,
            lon,
            tags,
            info,
        });
        g.close();
    }
    let nodes = expand(n, &t)
        .zip(ids)
        .enumerate()
        .map(|(i, (mut x, id))| {
            x.id = id;
            if i >= TMPL {
                x.lat = bump(x.lat, i);
                x.lon = bump(x.lon, i / 3);
                if x.tags.len() > 16 {
                    x.tags.truncate(2);
                }
            }
            x
        })
        .collect();
    DenseM {
        nodes,
        has_info,
        has_visible,
        tag_col: g.chance(1, 4),
        missing: if !has_info || !g.chance(1, 8) {
            0
        } else if g.chance(1, 2) {
            1 << g.below(5)
        } else {
            g.draw(32) as u8
        },
    }
}

pub fn gen_way(g: &mut Gen, cfg: &Cfg, b: &BlockM) -> WayM {
    let id = gen_id(g, cfg);
    let tags = gen_tags0(g, cfg, b.strings.len());
    let info = gen_info(g, cfg, b);
    let n = if cfg.big > 0 && g.chance(1, cfg.big) {
        g.big_len(cfg.big_cap)
    } else {
        g.len(10)
    };
    let refs = gen_ids(g, cfg, n);
    let locs = if g.chance(1, 3) {
        // usually, but not necessarily, one per reference
        let n = if g.chance(1, 8) { g.len(20) } else { n };
        let k = n.min(TMPL);
        let t: Vec<(i64, i64)> = (0..k).map(|_| gen_point(g, b, cfg)).collect();
        Some(if n == 0 {
            vec![]
        } else {
            (0..n)
                .map(|i| {
                    if i < k {
                        return t[i];
                    }
                    let x = t[(i * 5 + i / 11) % k];
                    (bump(x.0, i), bump(x.1, i / 2))
                })
                .collect()
        })
    } else {
        None
    };
    WayM {
        id,
        tags,
        info,
        refs,
        locs,
    }
}

pub fn gen_ways(g: &mut Gen, cfg: &Cfg, b: &BlockM) -> Vec<WayM> {
    let n = gen_n(g, cfg);
    let ids = gen_ids(g, cfg, n);
    let mut t = vec![];
    for _ in 0..n.min(TMPL) {
        g.open();
        t.push(gen_way(g, cfg, b));
        g.close();
    }
    expand(n, &t)
        .zip(ids)
        .enumerate()
        .map(|(i, (mut x, id))| {
            x.id = id;
            if i >= TMPL && x.refs.len() > 40 {
                x.refs.truncate(3);
                if let Some(l) = &mut x.locs {
                    l.truncate(3);
                }
            }
            if i >= TMPL {
                x.tags.truncate(16);
            }
            x
        })
        .collect()
}

pub fn gen_rel(g: &mut Gen, cfg: &Cfg, b: &BlockM) -> RelM {
    let id = gen_id(g, cfg);
    let tags = gen_tags0(g, cfg, b.strings.len());
    let info = gen_info(g, cfg, b);
    let n = if cfg.big > 0 && g.chance(1, cfg.big) {
        g.big_len(cfg.big_cap)
    } else {
        g.len(10)
    };
    let ids = gen_ids(g, cfg, n);
    let k = n.min(TMPL);
    let t: Vec<(u8, i32)> = (0..k)
        .map(|_| {
            (
                g.below(3) as u8,
                if g.chance(1, 4) { 0 } else { gen_sid(g, b.strings.len()).unwrap_or(0) as i32 },
            )
        })
        .collect();
    let members = ids
        .into_iter()
        .enumerate()
        .map(|(i, id)| {
            let x = if i < k { t[i] } else { t[(i * 5 + i / 7) % k] };
            MemberM {
                ty: x.0,
                id,
                role: x.1,
            }
        })
        .collect();
    RelM {
        id,
        tags,
        info,
        members,
    }
}

pub fn gen_rels(g: &mut Gen, cfg: &Cfg, b: &BlockM) -> Vec<RelM> {
    let n = gen_n(g, cfg);
    let ids = gen_ids(g, cfg, n);
    let mut t = vec![];
    for _ in 0..n.min(TMPL) {
        g.open();
        t.push(gen_rel(g, cfg, b));
        g.close();
    }
    expand(n, &t)
        .zip(ids)
        .enumerate()
        .map(|(i, (mut x, id))| {
            x.id = id;
            if i >= TMPL {
                x.members.truncate(3);
                x.tags.truncate(16);
            }
            x
        })
        .collect()
}

pub fn gen_group(g: &mut Gen, cfg: &Cfg, b: &BlockM) -> GroupM {
    let mut gr = GroupM::default();
    match g.weighted(&cfg.kinds) {
        0 => gr.nodes = gen_nodes(g, cfg, b),
        1 => gr.dense = Some(gen_dense(g, cfg, b)),
        2 => gr.ways = gen_ways(g, cfg, b),
        3 => gr.rels = gen_rels(g, cfg, b),
        4 => {
            if g.chance(1, 4) {
                gr.dense = Some(DenseM::default());
            }
        }
        _ => {
            if g.chance(1, 2) {
                gr.nodes = gen_nodes(g, cfg, b);
            }
            if g.chance(1, 2) {
                gr.dense = Some(gen_dense(g, cfg, b));
            }
            if g.chance(1, 2) {
                gr.ways = gen_ways(g, cfg, b);
            }
            if g.chance(1, 2) {
                gr.rels = gen_rels(g, cfg, b);
            }
        }
    }
    if cfg.changesets && g.chance(1, 12) {
        let n = 1 + g.below(3);
        gr.changesets = (0..n).map(|_| g.int(1 << 40)).collect();
    }
    gr
}

pub fn gen_block_params(g: &mut Gen, b: &mut BlockM) {
    if g.chance(2, 5) {
        b.gran = Some(match g.weighted(&[30, 40, 30]) {
            0 => 100,
            1 => *g.pick(&[1, 10, 1000, 10_000, 10_000_000, 1_000_000_000, 99, 101, 7, i32::MAX, 0, -1, -100, i32::MIN]),
            _ => g.int_in(1, i64::from(i32::MAX)) as i32,
        });
    }
    let off = |g: &mut Gen| match g.weighted(&[20, 40, 40]) {
        0 => 0,
        1 => g.range(-180_000_000_000, 180_000_000_000),
        _ => g.int(1 << 60),
    };
    if g.chance(1, 3) {
        b.lat_off = Some(off(g));
    }
    if g.chance(1, 3) {
        b.lon_off = Some(off(g));
    }
    if g.chance(1, 3) {
        b.date_gran = Some(match g.weighted(&[30, 40, 30]) {
            0 => 1000,
            1 => *g.pick(&[1, 10, 100, 999, 60_000, 3_600_000, i32::MAX, 0, -1, -1000]),
            _ => g.int_in(1, i64::from(i32::MAX)) as i32,
        });
    }
}

pub fn gen_block(g: &mut Gen, cfg: &Cfg) -> BlockM {
    let mut b = BlockM {
        strings: gen_strings(g, cfg),
        ..BlockM::default()
    };
    gen_block_params(g, &mut b);
    let n = if cfg.many > 0 && g.chance(1, cfg.many * 2) {
        g.big_len(600)
    } else {
        g.len(cfg.max_groups)
    };
    let mut t = vec![];
    for _ in 0..n.min(TMPL) {
        g.open();
        let gr = gen_group(g, cfg, &b);
        t.push(gr);
        g.close();
    }
    b.groups = expand(n, &t)
        .enumerate()
        .map(|(i, x)| if i >= TMPL && x.count() > 60 { GroupM::default() } else { x })
        .collect();
    let refs: usize = b
        .groups
        .iter()
        .map(|x| {
            let t = |n: usize| 2 * n + 1;
            x.nodes.iter().map(|e| t(e.tags.len())).sum::<usize>()
                + x.dense.as_ref().map_or(0, |d| d.nodes.iter().map(|e| t(e.tags.len())).sum())
                + x.ways.iter().map(|e| t(e.tags.len())).sum::<usize>()
                + x.rels.iter().map(|e| t(e.tags.len() + e.members.len())).sum::<usize>()
        })
        .sum();
    if !b.uses_strings() && g.chance(1, 3) {
        b.strings.clear();
    }
    if refs > 5000 {
        // long strings used very often only cost memory
        for s in &mut b.strings {
            if s.len() > 130 && s.is_ascii() {
                s.truncate(130);
            }
        }
    }
    b
}

pub fn gen_header(g: &mut Gen) -> HeaderM {
    const F: &[&str] = &[
        "OsmSchema-V0.6", "DenseNodes", "HistoricalInformation", "LocationsOnWays", "Sort.Type_then_ID",
        "Has_Metadata", "Unknown-Feature",
    ];
    let feat = |g: &mut Gen| {
        let n = if g.chance(1, 30) { g.big_len(300) } else { g.len(5) };
        let t: Vec<String> = (0..n.min(8))
            .map(|_| if g.chance(2, 3) { (*g.pick(F)).to_string() } else { gen_string(g) })
            .collect();
        (0..n).map(|i| t[i % t.len()].clone()).collect::<Vec<String>>()
    };
    let ostr = |g: &mut Gen| if g.chance(1, 2) { Some(gen_string(g)) } else { None };
    let oint = |g: &mut Gen| if g.chance(1, 2) { Some(g.int(i64::MAX)) } else { None };
    HeaderM {
        bbox: if g.chance(1, 2) {
            let f = |g: &mut Gen| {
                if g.chance(2, 3) {
                    g.range(-180_000_000_000, 180_000_000_000)
                } else {
                    g.int(i64::MAX)
                }
            };
            Some((f(g), f(g), f(g), f(g)))
        } else {
            None
        },
        required: feat(g),
        optional: feat(g),
        program: ostr(g),
        source: ostr(g),
        ts: oint(g),
        seq: oint(g),
        url: ostr(g),
    }
}

pub fn gen_style(g: &mut Gen) -> Style {
    Style {
        seed: g.draw(1 << 20),
        unpacked: g.chance(1, 3),
        split: g.chance(1, 3),
        shuffle: g.chance(1, 2),
        nonmin: g.chance(1, 3),
        unknown: g.chance(1, 2),
        dup: g.chance(1, 3),
        empty_packed: g.chance(1, 3),
    }
}

pub fn gen_unknown_type(g: &mut Gen) -> String {
    const T: &[&str] = &[
        "", "_private", "OSMheader", "OSMHeader ", " OSMData", "OSMDat", "OSMDataX", "osmdata", "OSMHEADER",
        "OSMHeaderOSMData", "Index", "é", "OSMData\0", "OSMHeade", "OSMDATA", "OSMHeaderr", "_OSMData",
    ];
    match g.weighted(&[50, 18, 32]) {
        0 => (*g.pick(T)).to_string(),
        2 => {
            // a known type with one small change
            let t: Vec<char> = g.pick(&["OSMData", "OSMHeader"]).chars().collect();
            const C: &[char] = &[
                ' ', '\n', '\t', '\0', '\r', 'X', '.', '/', '2', '_', '-', '\u{a0}', '\u{feff}', '\u{301}', '\u{200b}', '\u{1d}', ';', ',', ':', 's', '"',
            ];
            let mut t = t;
            let i = match g.below(3) {
                0 => 0,
                1 => t.len() - 1,
                _ => g.below(t.len()),
            };
            match g.below(6) {
                0 => t.push(*g.pick(C)),
                1 => t.insert(0, *g.pick(C)),
                2 => t.insert(i, *g.pick(C)),
                3 => {
                    t.remove(i);
                }
                4 => {
                    t[i] = if t[i].is_lowercase() { t[i].to_ascii_uppercase() } else { t[i].to_ascii_lowercase() };
                }
                _ => t[i] = *g.pick(C),
            }
            t.into_iter().collect()
        }
        _ => {
            let s = gen_string(g);
            if s == "OSMData" || s == "OSMHeader" {
                format!("{s}2")
            } else {
                s
            }
        }
    }
}

pub fn gen_pay(g: &mut Gen, cfg: &Cfg) -> Pay {
    if cfg.zlib && g.chance(1, 2) {
        Pay::Zlib(match g.weighted(&[85, 15]) {
            0 => *g.pick(&[6u8, 0, 1, 9, 3]),
            _ => SHAPED + g.draw(200) as u8,
        })
    } else {
        Pay::Raw
    }
}

pub fn gen_blob(g: &mut Gen, cfg: &Cfg) -> BlobM {
    let kind = match g.weighted(&cfg.blob_kinds) {
        0 => Kind::Data(gen_block(g, cfg)),
        1 => Kind::Header(gen_header(g)),
        _ => {
            let t = gen_unknown_type(g);
            let p = match g.weighted(&[30, 30, 40]) {
                0 => vec![],
                1 => {
                    let n = g.below(40);
                    (0..n).map(|_| g.draw(256) as u8).collect()
                }
                _ => {
                    // what would be a valid block under another type
                    let b = gen_block(
                        g,
                        &Cfg {
                            big: 0,
                            many: 0,
                            max_groups: 2,
                            max_elems: 3,
                            ..cfg.clone()
                        },
                    );
                    encode_block(&b, &mut Enc::new(Style::default()))
                }
            };
            Kind::Unknown(t, p)
        }
    };
    let mut blob = BlobM::new(kind);
    blob.pay = gen_pay(g, cfg);
    if matches!(blob.kind, Kind::Unknown(..)) && g.chance(1, 4) {
        blob.pay = *g.pick(&[Pay::Other(4), Pay::Other(5), Pay::Other(6), Pay::Other(7), Pay::Missing]);
    }
    if g.chance(1, 6) {
        let n = if g.chance(1, 8) { *g.pick(&[200usize, 4000, 4090, 4096, 4100, 9000, 30_000, 60_000]) } else { g.below(20) };
        let c = g.draw(256) as u8;
        blob.indexdata = Some(vec![c; n]);
    }
    blob.raw_size = g.chance(2, 3);
    blob.raw_size_last = g.chance(1, 3);
    if cfg.style16 > 0 && g.chance(cfg.style16, 16) {
        blob.style = gen_style(g);
    }
    blob
}

pub fn gen_file(g: &mut Gen, cfg: &Cfg) -> FileM {
    let n = if cfg.many > 0 && g.chance(1, cfg.many) {
        g.big_len(300)
    } else {
        g.len(cfg.max_blobs)
    };
    let mut t: Vec<BlobM> = vec![];
    if g.chance(3, 4) {
        let mut b = BlobM::new(Kind::Header(gen_header(g)));
        b.pay = gen_pay(g, cfg);
        t.push(b);
    }
    for _ in 0..n.min(10) {
        g.open();
        t.push(gen_blob(g, cfg));
        g.close();
    }
    let mut blobs = t.clone();
    if n > 10 {
        for i in 10..n {
            let x = t[(i * 3 + i / 5) % t.len()].clone();
            if x.block().is_some_and(|b| b.count() > 200) {
                continue;
            }
            blobs.push(x);
        }
    }
    FileM { blobs }
}

// ------------------------------------------------------------------ encoder

fn delta(v: impl Iterator<Item = i64>) -> Vec<i64> {
    let mut p = 0i64;
    v.map(|x| {
        let d = x.wrapping_sub(p);
        p = x;
        d
    })
    .collect()
}

fn delta32(v: impl Iterator<Item = i32>) -> Vec<i32> {
    let mut p = 0i32;
    v.map(|x| {
        let d = x.wrapping_sub(p);
        p = x;
        d
    })
    .collect()
}

fn enc_tags(m: &mut Msg, e: &mut Enc, tags: &[(u32, u32)]) {
    let k: Vec<u32> = tags.iter().map(|t| t.0).collect();
    let v: Vec<u32> = tags.iter().map(|t| t.1).collect();
    m.packed_uint32(e, 2, &k);
    m.packed_uint32(e, 3, &v);
}

fn enc_info(m: &mut Msg, e: &mut Enc, info: &Option<InfoM>) {
    if let Some(i) = info {
        let mut s = Msg::new();
        if let Some(x) = i.version {
            s.int32(e, 1, x);
        }
        if let Some(x) = i.ts {
            s.int64(e, 2, x);
        }
        if let Some(x) = i.cs {
            s.int64(e, 3, x);
        }
        if let Some(x) = i.uid {
            s.int32(e, 4, x);
        }
        if let Some(x) = i.user_sid {
            s.uint32(e, 5, x);
        }
        if let Some(x) = i.visible {
            s.boolean(e, 6, x);
        }
        let b = s.finish(e);
        m.bytes(4, &b);
    }
}

fn enc_node(n: &NodeM, e: &mut Enc) -> Vec<u8> {
    let mut m = Msg::new();
    m.sint64(e, 1, n.id);
    enc_tags(&mut m, e, &n.tags);
    enc_info(&mut m, e, &n.info);
    m.sint64(e, 8, n.lat);
    m.sint64(e, 9, n.lon);
    m.finish(e)
}

fn enc_dense(d: &DenseM, e: &mut Enc) -> Vec<u8> {
    let mut m = Msg::new();
    m.packed_sint64(e, 1, &delta(d.nodes.iter().map(|n| n.id)));
    if d.has_info {
        let mut s = Msg::new();
        let has = |k: u8| d.missing >> k & 1 == 0;
        if has(0) {
            let v: Vec<i32> = d.nodes.iter().map(|n| n.info.version).collect();
            s.packed_int32(e, 1, &v);
        }
        if has(1) {
            s.packed_sint64(e, 2, &delta(d.nodes.iter().map(|n| n.info.ts)));
        }
        if has(2) {
            s.packed_sint64(e, 3, &delta(d.nodes.iter().map(|n| n.info.cs)));
        }
        if has(3) {
            s.packed_sint32(e, 4, &delta32(d.nodes.iter().map(|n| n.info.uid)));
        }
        if has(4) {
            s.packed_sint32(e, 5, &delta32(d.nodes.iter().map(|n| n.info.user_sid)));
        }
        if d.has_visible {
            let v: Vec<u64> = d.nodes.iter().map(|n| u64::from(n.info.visible)).collect();
            // booleans are always written minimally
            let keep = e.st.nonmin;
            e.st.nonmin = false;
            s.packed(e, 6, &v);
            e.st.nonmin = keep;
        }
        let b = s.finish(e);
        m.bytes(5, &b);
    }
    m.packed_sint64(e, 8, &delta(d.nodes.iter().map(|n| n.lat)));
    m.packed_sint64(e, 9, &delta(d.nodes.iter().map(|n| n.lon)));
    if d.tag_col || d.nodes.iter().any(|n| !n.tags.is_empty()) {
        let mut kv: Vec<i32> = vec![];
        for n in &d.nodes {
            for t in &n.tags {
                kv.push(t.0 as i32);
                kv.push(t.1 as i32);
            }
            kv.push(0);
        }
        m.packed_int32(e, 10, &kv);
    }
    m.finish(e)
}

fn enc_way(w: &WayM, e: &mut Enc) -> Vec<u8> {
    let mut m = Msg::new();
    m.int64(e, 1, w.id);
    enc_tags(&mut m, e, &w.tags);
    enc_info(&mut m, e, &w.info);
    m.packed_sint64(e, 8, &delta(w.refs.iter().copied()));
    if let Some(l) = &w.locs {
        m.packed_sint64(e, 9, &delta(l.iter().map(|x| x.0)));
        m.packed_sint64(e, 10, &delta(l.iter().map(|x| x.1)));
    }
    m.finish(e)
}

fn enc_rel(r: &RelM, e: &mut Enc) -> Vec<u8> {
    let mut m = Msg::new();
    m.int64(e, 1, r.id);
    enc_tags(&mut m, e, &r.tags);
    enc_info(&mut m, e, &r.info);
    let roles: Vec<i32> = r.members.iter().map(|x| x.role).collect();
    m.packed_int32(e, 8, &roles);
    m.packed_sint64(e, 9, &delta(r.members.iter().map(|x| x.id)));
    let ty: Vec<u64> = r.members.iter().map(|x| u64::from(x.ty)).collect();
    m.packed(e, 10, &ty);
    m.finish(e)
}

pub fn enc_group(g: &GroupM, e: &mut Enc) -> Vec<u8> {
    let mut m = Msg::new();
    for n in &g.nodes {
        let b = enc_node(n, e);
        m.bytes(1, &b);
    }
    if let Some(d) = &g.dense {
        let b = enc_dense(d, e);
        m.bytes(2, &b);
    }
    for w in &g.ways {
        let b = enc_way(w, e);
        m.bytes(3, &b);
    }
    for r in &g.rels {
        let b = enc_rel(r, e);
        m.bytes(4, &b);
    }
    for c in &g.changesets {
        let mut s = Msg::new();
        s.int64(e, 1, *c);
        let b = s.finish(e);
        m.bytes(5, &b);
    }
    m.finish(e)
}

pub fn block_msg(b: &BlockM, e: &mut Enc) -> Msg {
    let mut m = Msg::new();
    let mut st = Msg::new();
    for s in &b.strings {
        st.bytes(1, s);
    }
    let sb = st.finish(e);
    m.bytes(1, &sb);
    for g in &b.groups {
        let x = enc_group(g, e);
        m.bytes(2, &x);
    }
    if let Some(x) = b.gran {
        m.int32(e, 17, x);
    }
    if let Some(x) = b.date_gran {
        m.int32(e, 18, x);
    }
    if let Some(x) = b.lat_off {
        m.int64(e, 19, x);
    }
    if let Some(x) = b.lon_off {
        m.int64(e, 20, x);
    }
    m
}

pub fn encode_block(b: &BlockM, e: &mut Enc) -> Vec<u8> {
    let m = block_msg(b, e);
    m.finish(e)
}

pub fn encode_header(h: &HeaderM, e: &mut Enc) -> Vec<u8> {
    let mut m = Msg::new();
    if let Some((l, r, t, bt)) = h.bbox {
        let mut s = Msg::new();
        s.sint64(e, 1, l);
        s.sint64(e, 2, r);
        s.sint64(e, 3, t);
        s.sint64(e, 4, bt);
        let b = s.finish(e);
        m.bytes(1, &b);
    }
    for f in &h.required {
        m.bytes(4, f.as_bytes());
    }
    for f in &h.optional {
        m.bytes(5, f.as_bytes());
    }
    if let Some(s) = &h.program {
        m.string(e, 16, s.as_bytes());
    }
    if let Some(s) = &h.source {
        m.string(e, 17, s.as_bytes());
    }
    if let Some(x) = h.ts {
        m.int64(e, 32, x);
    }
    if let Some(x) = h.seq {
        m.int64(e, 33, x);
    }
    if let Some(s) = &h.url {
        m.string(e, 34, s.as_bytes());
    }
    m.finish(e)
}

/// The uncompressed content of a blob.
pub fn content(b: &BlobM, e: &mut Enc) -> Vec<u8> {
    match &b.kind {
        Kind::Header(h) => encode_header(h, e),
        Kind::Data(d) => encode_block(d, e),
        Kind::Unknown(_, p) => p.clone(),
    }
}

/// A zlib stream: of one of the usual levels (up to 10), or, from
/// `SHAPED` on, of a form that the format allows but few compressors emit.
pub fn zlib(data: &[u8], level: u8) -> Vec<u8> {
    match level.checked_sub(SHAPED) {
        None => miniz_oxide::deflate::compress_to_vec_zlib(data, level),
        Some(k) => zlib_shaped(data, u64::from(k)),
    }
}

pub const SHAPED: u8 = 32;

#[derive(Default)]
struct Bits {
    out: Vec<u8>,
    acc: u64,
    n: u32,
}

impl Bits {
    fn put(&mut self, v: u32, n: u32) {
        self.acc |= u64::from(v) << self.n;
        self.n += n;
        while self.n >= 8 {
            self.out.push(self.acc as u8);
            self.acc >>= 8;
            self.n -= 8;
        }
    }
    /// A Huffman code, most significant bit first.
    fn code(&mut self, v: u32, n: u32) {
        self.put(v.reverse_bits() >> (32 - n), n);
    }
    fn align(&mut self) {
        if self.n > 0 {
            self.put(0, 8 - self.n);
        }
    }
}

/// Stored and fixed-Huffman blocks of various sizes, empty blocks, any
/// window size and level in the stream header.
fn zlib_shaped(data: &[u8], k: u64) -> Vec<u8> {
    let mut s = mix(k, 4711);
    let mut draw = |n: u64| {
        s = mix(s, 1);
        s % n
    };
    // matches reach one byte back only, every window will do
    let cmf = 8 | (if draw(2) == 0 { 7 } else { draw(8) as u32 }) << 4;
    let flg = (draw(4) as u32) << 6;
    let flg = flg + (31 - (cmf * 256 + flg) % 31) % 31;
    let mut w = Bits::default();
    w.put(cmf, 8);
    w.put(flg, 8);
    // at most some thousand blocks
    let unit = match draw(4) {
        0 => 1,
        1 => 7,
        2 => 1000,
        _ => 65_535,
    };
    let unit = unit.max(data.len() / 2000 + 1).min(65_535);
    let kinds = draw(3);
    let empties = draw(3);
    let mut rest = data;
    loop {
        let empty = empties > 0 && draw(3) == 0;
        let (part, left) = rest.split_at(if empty { 0 } else { rest.len().min(unit) });
        rest = left;
        let last = rest.is_empty() && (empties < 2 || draw(2) == 0);
        w.put(u32::from(last), 1);
        if kinds == 0 || kinds == 1 && draw(2) == 0 {
            w.put(0, 2);
            w.align();
            w.put(part.len() as u32, 16);
            w.put(!(part.len() as u32) & 0xffff, 16);
            w.out.extend_from_slice(part);
        } else {
            w.put(1, 2);
            let mut i = 0;
            while i < part.len() {
                let b = u32::from(part[i]);
                if b < 144 {
                    w.code(0x30 + b, 8);
                } else {
                    w.code(0x190 + b - 144, 9);
                }
                let run = part[i + 1..].iter().take(10).take_while(|x| **x == part[i]).count();
                i += 1;
                if run >= 3 {
                    w.code(run as u32 - 2, 7);
                    w.code(0, 5);
                    i += run;
                }
            }
            w.code(0, 7);
        }
        if last {
            break;
        }
    }
    w.align();
    let (mut a, mut b) = (1u32, 0u32);
    for x in data {
        a = (a + u32::from(*x)) % 65_521;
        b = (b + a) % 65_521;
    }
    w.out.extend_from_slice(&(b << 16 | a).to_be_bytes());
    w.out
}

/// The encoded `Blob` message for already encoded payload bytes.
pub fn blob_msg(pay: Pay, stored: &[u8], raw_size: Option<i32>, raw_size_last: bool, e: &mut Enc) -> Vec<u8> {
    let mut m = Msg::new();
    if let (Some(n), false) = (raw_size, raw_size_last) {
        m.int32(e, 2, n);
    }
    if e.st.dup && e.coin(4) {
        // an earlier member of the oneof, overridden by the real one
        match pay {
            Pay::Raw => m.bytes(1, b"overridden"),
            Pay::Zlib(_) => m.bytes(3, b"overridden"),
            _ => {}
        }
    }
    match pay {
        Pay::Raw => m.bytes(1, stored),
        Pay::Zlib(_) => m.bytes(3, stored),
        Pay::Other(f) => m.bytes(f, stored),
        Pay::Missing => {}
    }
    if let (Some(n), true) = (raw_size, raw_size_last) {
        m.int32(e, 2, n);
    }
    m.finish(e)
}

pub fn header_msg(ty: &[u8], indexdata: Option<&[u8]>, datasize: i32, e: &mut Enc) -> Vec<u8> {
    let mut m = Msg::new();
    m.string(e, 1, ty);
    if let Some(x) = indexdata {
        m.bytes(2, x);
    }
    m.int32(e, 3, datasize);
    m.finish(e)
}

pub fn frame(out: &mut Vec<u8>, header: &[u8], data: &[u8]) -> Span {
    let start = out.len();
    out.extend_from_slice(&(header.len() as u32).to_be_bytes());
    out.extend_from_slice(header);
    let data_start = out.len();
    out.extend_from_slice(data);
    Span {
        start,
        data: data_start,
        end: out.len(),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Span {
    pub start: usize,
    pub data: usize,
    pub end: usize,
}

pub fn encode_blob(out: &mut Vec<u8>, b: &BlobM) -> Span {
    let mut e = Enc::new(b.style);
    let c = content(b, &mut e);
    let stored = match b.pay {
        Pay::Zlib(l) => zlib(&c, l),
        _ => c.clone(),
    };
    let rs = if b.raw_size { Some(c.len() as i32) } else { None };
    let data = blob_msg(b.pay, &stored, rs, b.raw_size_last, &mut e);
    let h = header_msg(b.type_name().as_bytes(), b.indexdata.as_deref(), data.len() as i32, &mut e);
    frame(out, &h, &data)
}

pub fn encode_file(f: &FileM) -> (Vec<u8>, Vec<Span>) {
    let mut out = vec![];
    let spans = f.blobs.iter().map(|b| encode_blob(&mut out, b)).collect();
    (out, spans)
}
