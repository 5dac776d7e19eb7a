//! C01-C08, C20, C21: what conforming files deliver.

use crate::case::{Case, Tmp, R};
use crate::driver::Prop;
use crate::gen::Gen;
use crate::io::{gen_frag, plain, plan, TestReader};
use crate::model::*;
use crate::obs::*;
use crate::wire::{Enc, Style};
use osmpbf::*;
use std::io::Cursor;
use std::sync::Arc;

/// A short picture of a file.
pub fn show(f: &FileM) -> String {
    let mut o = format!("{} blobs:", f.blobs.len());
    for (i, b) in f.blobs.iter().enumerate() {
        if i >= 12 {
            o.push_str(" …");
            break;
        }
        let pay = match b.pay {
            Pay::Raw => "raw".to_string(),
            Pay::Zlib(l) => format!("zlib{l}"),
            Pay::Other(k) => format!("field{k}"),
            Pay::Missing => "no payload".to_string(),
        };
        match &b.kind {
            Kind::Header(h) => o.push_str(&format!(" [header {pay} {h:?}]")),
            Kind::Unknown(t, p) => o.push_str(&format!(" [type {t:?} {pay} {} bytes]", p.len())),
            Kind::Data(d) => {
                o.push_str(&format!(
                    " [data {pay}{} gran {:?} off {:?}/{:?} date {:?} {} strings:",
                    if b.style == Style::default() { "" } else { " restyled" },
                    d.gran,
                    d.lat_off,
                    d.lon_off,
                    d.date_gran,
                    d.strings.len()
                ));
                for (k, g) in d.groups.iter().enumerate() {
                    if k >= 6 {
                        o.push_str(" …");
                        break;
                    }
                    o.push_str(&format!(" {}", show_group(g)));
                }
                o.push(']');
            }
        }
    }
    o
}

pub fn show_group(g: &GroupM) -> String {
    if g.count() <= 2 {
        return format!("{g:?}").replace("GroupM ", "");
    }
    let mut s = String::from("{");
    if !g.nodes.is_empty() {
        s.push_str(&format!("{} nodes ", g.nodes.len()));
    }
    if let Some(d) = &g.dense {
        s.push_str(&format!(
            "{} dense (info {}, vis {}, tagged {}) ",
            d.nodes.len(),
            d.full_info(),
            d.has_visible,
            d.nodes.iter().filter(|n| !n.tags.is_empty()).count()
        ));
    }
    if !g.ways.is_empty() {
        s.push_str(&format!("{} ways ({} refs) ", g.ways.len(), g.ways.iter().map(|w| w.refs.len()).sum::<usize>()));
    }
    if !g.rels.is_empty() {
        s.push_str(&format!(
            "{} relations ({} members) ",
            g.rels.len(),
            g.rels.iter().map(|w| w.members.len()).sum::<usize>()
        ));
    }
    s.push('}');
    s
}

/// All blobs of a file, opened in the way chosen for this case. The closure
/// gets the number of the blob, its type and its decoded content.
pub fn each_blob(bytes: &Arc<Vec<u8>>, mut f: impl FnMut(usize, &str, Result<BlobDecode<'_>>) -> R) -> R {
    fn stream<T: std::io::Read + Send>(rd: Result<BlobReader<T>>, f: &mut impl FnMut(usize, &str, Result<BlobDecode<'_>>) -> R) -> R {
        let rd = rd.map_err(|e| format!("opening the file: {}", ek(&e)))?;
        for (i, b) in rd.enumerate() {
            let b = b.map_err(|e| format!("blob {i}: {}", ek(&e)))?;
            f(i, b.get_type().as_str(), b.decode())?;
        }
        Ok(())
    }
    let v = via();
    let r = match v {
        Via::Stream => stream(Ok(BlobReader::new(plain(bytes))), &mut f),
        Via::Seekable => stream(BlobReader::new_seekable(plain(bytes)), &mut f),
        Via::Path => stream(BlobReader::from_path(&Tmp::new(bytes).0), &mut f),
        Via::SeekPath => stream(BlobReader::seekable_from_path(&Tmp::new(bytes).0), &mut f),
        Via::Map => {
            let t = Tmp::new(bytes);
            let m = super::access::map_file(&t)?;
            for (i, b) in m.blob_iter().enumerate() {
                let b = b.map_err(|e| format!("blob {i}: {}", ek(&e)))?;
                f(i, b.get_type().as_str(), b.decode())?;
            }
            Ok(())
        }
    };
    r.map_err(|e| if v == Via::Stream { e } else { format!("[{v:?}] {e}") })
}

/// All elements of a file, opened in the way chosen for this case.
pub fn read_file(bytes: &Arc<Vec<u8>>, w: u32) -> (Vec<Elem>, std::result::Result<(), String>) {
    match via() {
        Via::Stream => seq_read(plain(bytes), w),
        Via::Path => {
            let mut v = vec![];
            let t = Tmp::new(bytes);
            let r = ElementReader::from_path(&t.0).and_then(|r| r.for_each(|e| v.push(of_elem(&e, w))));
            (v, r.map_err(|e| ek(&e)))
        }
        _ => {
            let mut v = vec![];
            let r = each_blob(bytes, |i, _, d| {
                match d.map_err(|e| format!("blob {i}: {}", ek(&e)))? {
                    BlobDecode::OsmData(b) => v.extend(block_elems(&b, w)),
                    BlobDecode::OsmHeader(_) | BlobDecode::Unknown(_) => {}
                }
                Ok(())
            });
            (v, r)
        }
    }
}

/// Read a whole file sequentially and compare with the model.
pub fn check_sequential(f: &FileM, bytes: &Arc<Vec<u8>>, w: u32) -> R {
    let (got, res) = read_file(bytes, w);
    if let Err(e) = res {
        bail!("reading a conforming file failed after {} elements: {e}", got.len());
    }
    compare_seq(&got, &exp_file(f, w))
}

/// Every block on its own, through the group walk.
pub fn check_blocks(f: &FileM, bytes: &Arc<Vec<u8>>, w: u32) -> R {
    let mut n = 0;
    each_blob(bytes, |i, ty, dec| {
        n += 1;
        let Some(m) = f.blobs.get(i) else { bail!("more blobs than stored") };
        let Kind::Data(d) = &m.kind else { return Ok(()) };
        ensure!(ty == "OSMData", "blob {i}: type {ty:?}");
        let blk = match dec {
            Ok(BlobDecode::OsmData(b)) => b,
            Ok(_) => bail!("blob {i}: data blob decoded as something else"),
            Err(e) => bail!("blob {i}: {}", ek(&e)),
        };
        let all = block_elems(&blk, w);
        compare_seq(&all, &exp_blocks(std::iter::once(d), w)).map_err(|m| format!("blob {i}, element iterator: {m}"))?;
        let gs = items(blk.groups(), |x| x);
        ensure!(gs.len() == d.groups.len(), "blob {i}: {} groups instead of {}", gs.len(), d.groups.len());
        for (k, (g, mg)) in gs.iter().zip(&d.groups).enumerate() {
            let got = group_elems(g, w);
            let e = exp_group(d, mg, w);
            compare_seq(&got, std::slice::from_ref(&e)).map_err(|m| format!("blob {i} group {k}: {m}"))?;
        }
        Ok(())
    })?;
    ensure!(n == f.blobs.len(), "blob iteration ended after {n} of {} blobs", f.blobs.len());
    Ok(())
}

fn begin(f: &FileM, c: &mut Case) -> Arc<Vec<u8>> {
    let (bytes, _) = encode_file(f);
    c.file(&bytes);
    c.note(|| show(f));
    Arc::new(bytes)
}

fn label_file(f: &FileM, c: &mut Case) {
    c.label_if(f.blobs.iter().any(|b| matches!(b.pay, Pay::Zlib(_))), "zlib payload");
    c.label_if(f.blobs.iter().any(|b| b.style != Style::default()), "unusual encoding");
    c.label_if(f.blobs.len() > 50, "more than 50 blobs");
    for b in f.blocks() {
        c.label_if(b.groups.is_empty(), "empty block");
        c.label_if(b.groups.iter().any(|g| g.count() == 0), "empty group");
        c.label_if(b.groups.iter().any(|g| g.count() >= 100), "group of 100 or more elements");
        c.label_if(b.groups.iter().any(|g| g.count() >= 8000), "group of 8000 or more elements");
        c.label_if(b.groups.iter().any(|g| g.kinds() > 1), "group of mixed kinds");
    }
}

// --------------------------------------------------------------------- C01

fn c01(g: &mut Gen, c: &mut Case) -> R {
    let cfg = Cfg {
        tags: g.chance(1, 3),
        info: g.chance(1, 3),
        big: 25,
        many: 14,
        ..Cfg::default()
    };
    let f = gen_file(g, &cfg);
    let bytes = begin(&f, c);
    label_file(&f, c);
    let full = f.blocks().filter(|b| b.count() > 0).count();
    let hollow = f.blocks().any(|b| b.groups.is_empty() || b.groups.iter().any(|x| x.count() == 0))
        || f.blobs.iter().any(|b| matches!(b.kind, Kind::Unknown(..)));
    c.label_if(full >= 2, "two or more data blobs with elements");
    c.nontrivial = full >= 2 || (full == 1 && (hollow || f.count() >= 100));
    let (fs, fm) = gen_frag(g);
    let (got, res) = match via() {
        Via::Stream => seq_read(TestReader::new(&bytes, &plan(bytes.len(), fs, fm)), 0),
        _ => read_file(&bytes, 0),
    };
    if let Err(e) = res {
        bail!("reading a conforming file failed after {} elements: {e}", got.len());
    }
    let exp = exp_file(&f, 0);
    compare_seq(&got, &exp)?;
    check_blocks(&f, &bytes, 0)?;
    // block by block through the element iterator and the callback
    let mut v = vec![];
    let mut v2 = vec![];
    for b in BlobReader::new(Cursor::new(&bytes[..])) {
        let b = b.map_err(|e| format!("blob iteration: {}", ek(&e)))?;
        if let BlobDecode::OsmData(d) = b.decode().map_err(|e| format!("decode: {}", ek(&e)))? {
            v.extend(block_elems(&d, 0));
            d.for_each_element(|e| v2.push(of_elem(&e, 0)));
        }
    }
    compare_seq(&v, &exp).map_err(|m| format!("element iterator: {m}"))?;
    compare_seq(&v2, &exp).map_err(|m| format!("element callback: {m}"))
}

fn c01_seed(c: &mut Case, name: &str, n: usize) -> R {
    let b = std::fs::read(format!("/verif/harness/seeds/{name}")).map_err(|e| format!("harness: seed {name}: {e}"))?;
    c.file(&b);
    let (got, res) = seq_read(plain(&Arc::new(b)), 0);
    res?;
    ensure!(got.len() == n, "{name}: {} elements instead of {n}", got.len());
    Ok(())
}

pub static C01: Prop = Prop {
    id: "C01",
    run: c01,
    pinned: &[
        ("repository test file", |c| c01_seed(c, "test.osm.pbf", 5)),
        ("70,003 blobs", super::large::blobs),
        ("70,003 groups in a block", super::large::groups),
        ("140,006 empty groups in a block", super::large::hollow_groups),
        ("210,009 elements in a block", super::large::elements),
        ("a million elements of each kind", super::huge::elements),
        ("a million groups", super::huge::groups),
        ("a million blobs", super::huge::blobs),
    ],
    rule: "random conforming files (any number of header/data/unknown blobs, groups, elements; raw or zlib; several wire styles) encoded by an independent encoder and read through for_each, blob-wise element iterator, element callback and groups; oracle: the generating model. Non-trivial: at least two data blobs with elements, or one with at least 100 elements or with empty groups, empty blocks or unknown blobs around it.",
    quick: 30_000,
    thorough: 1_200_000,
    workers: 8,
    fuzz: (1_200, 60_000),
};

// --------------------------------------------------------------------- C02

fn to_plain(b: &BlockM) -> BlockM {
    let mut p = b.clone();
    for g in &mut p.groups {
        if let Some(d) = g.dense.take() {
            for n in &d.nodes {
                g.nodes.push(NodeM {
                    id: n.id,
                    lat: n.lat,
                    lon: n.lon,
                    tags: n.tags.clone(),
                    info: if d.full_info() {
                        Some(InfoM {
                            version: Some(n.info.version),
                            ts: Some(n.info.ts),
                            cs: Some(n.info.cs),
                            uid: Some(n.info.uid),
                            user_sid: Some(n.info.user_sid as u32),
                            visible: if d.has_visible { Some(n.info.visible) } else { None },
                        })
                    } else {
                        None
                    },
                });
            }
        }
    }
    p
}

fn c02(g: &mut Gen, c: &mut Case) -> R {
    let cfg = Cfg {
        kinds: [0, 90, 2, 0, 4, 4],
        max_blobs: 3,
        max_elems: 12,
        big: 40,
        many: 0,
        blob_kinds: [95, 2, 3],
        id_limit: 1 << 62,
        ..Cfg::default()
    };
    let f = gen_file(g, &cfg);
    let bytes = begin(&f, c);
    let w = TAGS | POS | INFO | RAW;
    let mut groups = 0;
    for b in f.blocks() {
        for gr in &b.groups {
            if let Some(d) = &gr.dense {
                groups += usize::from(d.nodes.len() > 1);
                let tagged = d.nodes.iter().filter(|n| !n.tags.is_empty()).count();
                c.label_if(tagged > 0 && tagged < d.nodes.len(), "tagged and untagged nodes mixed");
                c.label_if(tagged == 0 && !d.tag_col && !d.nodes.is_empty(), "tag column absent");
                c.label_if(tagged == 0 && d.tag_col && !d.nodes.is_empty(), "tag column of delimiters only");
                c.label_if(!d.has_info && !d.nodes.is_empty(), "no metadata");
                c.label_if(d.has_info && !d.full_info() && !d.nodes.is_empty(), "some metadata columns absent");
                c.label_if(d.full_info() && !d.has_visible, "metadata without visibility column");
                c.label_if(d.has_visible, "visibility column");
                c.label_if(d.nodes.len() >= 1000, "1000 or more nodes");
                c.nontrivial |= d.nodes.len() > 1 && (tagged > 0 || d.has_info);
            }
        }
    }
    c.label_if(groups > 1, "several dense groups");
    check_sequential(&f, &bytes, w)?;
    check_blocks(&f, &bytes, w)?;
    // the same nodes stored plainly read the same
    if f.count() <= 400 {
        let p = FileM {
            blobs: f
                .blobs
                .iter()
                .map(|b| {
                    let mut x = b.clone();
                    if let Kind::Data(d) = &mut x.kind {
                        *d = to_plain(d);
                        for gr in &mut d.groups {
                            gr.ways.clear();
                            gr.rels.clear();
                        }
                    }
                    x
                })
                .collect(),
        };
        let (pb, _) = encode_file(&p);
        let (pl, r) = seq_read(plain(&Arc::new(pb)), w);
        r.map_err(|e| format!("plain counterpart: {e}"))?;
        let (de, r) = read_file(&bytes, w);
        r?;
        let norm = |mut v: Vec<Elem>| -> Vec<(i64, String)> {
            v.retain(|e| matches!(e.kind, EK::Node | EK::Dense));
            let mut o: Vec<(i64, String)> = v
                .into_iter()
                .map(|mut e| {
                    e.kind = EK::Node;
                    if let Some(i) = &mut e.info {
                        i.absent = false;
                    }
                    (e.id, format!("{:?}", e))
                })
                .collect();
            if f.blocks().any(|b| b.groups.iter().any(|x| x.kinds() > 1)) {
                o.sort();
            }
            o
        };
        let (a, b) = (norm(de), norm(pl));
        if a != b {
            let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            bail!("stored densely {:?}, stored plainly {:?} (node {i})", a.get(i), b.get(i));
        }
    }
    Ok(())
}

pub static C02: Prop = Prop {
    id: "C02",
    run: c02,
    pinned: &[
        ("140,006 dense nodes, 70,003 strings", super::large::dense),
        ("four million dense nodes", super::huge::dense),
        ("four million dense nodes almost without tags", super::huge::dense_untagged),
        ("70,003 tags on a dense node", super::large::dense_tags),
    ],
    rule: "random files of dense groups (any length, deltas over 62 bits, tagged/untagged mixes, tag/metadata/visibility columns present or absent, also single metadata columns, several groups and blocks) compared node by node with the model, and with the same nodes stored plainly. Non-trivial: a dense group of at least two nodes with tags or metadata.",
    quick: 100_000,
    thorough: 4_000_000,
    workers: 8,
    fuzz: (3_000, 120_000),
};

// --------------------------------------------------------------------- C03

fn c03(g: &mut Gen, c: &mut Case) -> R {
    let cfg = Cfg {
        kinds: [35, 35, 30, 0, 0, 3],
        max_blobs: 4,
        tags: false,
        info: false,
        big: 200,
        big_cap: 2000,
        many: 0,
        blob_kinds: [95, 3, 2],
        style16: 1,
        ..Cfg::default()
    };
    let mut f = gen_file(g, &cfg);
    // coordinates aimed at a nanodegree value: boundaries of the derived forms
    let edge = [
        0i64, 1, 99, 100, 101, 199, -1, -99, -100, -101, 50, -50, 149, 180_000_000_000, -180_000_000_000, 90_000_000_000,
        214_748_364_700, 214_748_364_799, -214_748_364_800, -214_748_364_899, 214_748_364_699, 1_000_000_000, -1_000_000_001,
    ];
    for b in &mut f.blobs {
        if let Kind::Data(d) = &mut b.kind {
            if g.chance(1, 2) {
                d.gran = Some(*g.pick(&[1, 1, 2, 3, 7, 10, 50, 99, 101, 1000]));
                d.lat_off = Some(g.range(-250, 250));
                d.lon_off = Some(g.range(-250, 250));
                let gran = d.gran_v();
                let (la, lo) = (d.lat_off.unwrap(), d.lon_off.unwrap());
                let lim = (1i64 << 61) / gran;
                for gr in &mut d.groups {
                    gr.nodes.iter_mut().for_each(|n| (n.lat, n.lon) = (n.lat.clamp(-lim, lim), n.lon.clamp(-lim, lim)));
                    for x in gr.dense.iter_mut() {
                        x.nodes.iter_mut().for_each(|n| (n.lat, n.lon) = (n.lat.clamp(-lim, lim), n.lon.clamp(-lim, lim)));
                    }
                    for l in gr.ways.iter_mut().filter_map(|x| x.locs.as_mut()) {
                        l.iter_mut().for_each(|p| *p = (p.0.clamp(-lim, lim), p.1.clamp(-lim, lim)));
                    }
                }
                let mut aim = |off: i64| {
                    let t = *g.pick(&edge) + g.range(-2, 2);
                    (t - off).div_euclid(gran)
                };
                for gr in &mut d.groups {
                    for n in gr.nodes.iter_mut().take(12) {
                        n.lat = aim(la);
                        n.lon = aim(lo);
                    }
                    if let Some(x) = &mut gr.dense {
                        for n in x.nodes.iter_mut().take(12) {
                            n.lat = aim(la);
                            n.lon = aim(lo);
                        }
                    }
                    for x in gr.ways.iter_mut().take(4) {
                        if let Some(l) = &mut x.locs {
                            for p in l.iter_mut().take(8) {
                                *p = (aim(la), aim(lo));
                            }
                        }
                    }
                }
                c.label("aimed at boundaries");
            }
        }
    }
    let bytes = begin(&f, c);
    let mut settings = std::collections::HashSet::new();
    for b in f.blocks().filter(|b| b.count() > 0) {
        settings.insert((b.gran_v(), b.lat_off, b.lon_off));
        c.label_if(b.gran.is_none(), "default granularity");
        c.label_if(b.lat_off.is_some() != b.lon_off.is_some(), "only one offset stored");
        for gr in &b.groups {
            c.label_if(gr.ways.iter().any(|w| w.locs.as_ref().is_some_and(|l| !l.is_empty())), "locations on ways");
            c.label_if(gr.nodes.iter().any(|n| b.lat_nano(n.lat) < 0), "negative plain latitude");
        }
        c.nontrivial |= b.gran.is_some_and(|x| x != 100) || b.lat_off.is_some_and(|x| x != 0) || b.lon_off.is_some_and(|x| x != 0);
    }
    c.label_if(settings.len() > 1, "blocks with different settings");
    check_sequential(&f, &bytes, POS | LOCS | DEG)
}

pub static C03: Prop = Prop {
    id: "C03",
    run: c03,
    pinned: &[],
    rule: "random nodes, dense nodes and way locations in blocks with any granularity/offsets (nanodegree values fitting 64 bits), half of them aimed at truncation and 32-bit boundaries; nano, decimicro (when it fits 32 bits) and degree values compared with exact arithmetic. Non-trivial: a block with elements whose granularity or offset differs from the default.",
    quick: 400_000,
    thorough: 12_000_000,
    workers: 8,
    fuzz: (8_000, 300_000),
};

// --------------------------------------------------------------------- C04

fn c04(g: &mut Gen, c: &mut Case) -> R {
    let cfg = Cfg {
        kinds: [2, 2, 90, 0, 3, 3],
        max_blobs: 3,
        tags: g.chance(1, 4),
        info: g.chance(1, 4),
        big: 40,
        many: 0,
        blob_kinds: [95, 2, 3],
        ..Cfg::default()
    };
    let f = gen_file(g, &cfg);
    let bytes = begin(&f, c);
    for b in f.blocks() {
        for gr in &b.groups {
            let k = gr.ways.iter().filter(|w| !w.refs.is_empty()).count();
            c.nontrivial |= k > 1;
            c.label_if(k > 1, "several ways with references in a group");
            for w in &gr.ways {
                c.label_if(w.locs.is_some(), "locations stored");
                c.label_if(w.locs.as_ref().is_some_and(|l| l.len() != w.refs.len()), "not as many locations as references");
                c.label_if(w.refs.is_empty(), "way without references");
                c.label_if(w.refs.len() >= 1000, "1000 or more references");
                c.label_if(w.refs.len() >= 2000, "2000 or more references");
                c.label_if(w.refs.windows(2).any(|x| x[1] < x[0]), "decreasing reference");
                c.label_if(w.refs.first().is_some_and(|x| w.refs.len() > 2 && Some(x) == w.refs.last()), "closed way");
            }
        }
    }
    let w = REFS | LOCS | RAW;
    check_sequential(&f, &bytes, w)?;
    check_blocks(&f, &bytes, w)
}

pub static C04: Prop = Prop {
    id: "C04",
    run: c04,
    pinned: &[
        ("140,006 references on a way", super::large::way),
        ("sixteen million references", super::huge::refs),
        ("eight million locations", super::huge::locations),
    ],
    rule: "random ways (0 to 9000 references over 62-bit ids, any steps, repeated and closed, with or without locations, several per group) compared with the model: references, raw differences, locations. Non-trivial: at least two ways with references in one group.",
    quick: 100_000,
    thorough: 4_000_000,
    workers: 8,
    fuzz: (3_000, 120_000),
};

// --------------------------------------------------------------------- C05

fn c05(g: &mut Gen, c: &mut Case) -> R {
    let cfg = Cfg {
        kinds: [2, 2, 2, 90, 3, 3],
        max_blobs: 3,
        tags: g.chance(1, 4),
        info: g.chance(1, 4),
        big: 40,
        many: 0,
        blob_kinds: [95, 2, 3],
        ..Cfg::default()
    };
    let f = gen_file(g, &cfg);
    let bytes = begin(&f, c);
    for b in f.blocks() {
        for gr in &b.groups {
            let k = gr.rels.iter().filter(|w| !w.members.is_empty()).count();
            c.label_if(k > 1, "several relations with members in a group");
            for r in &gr.rels {
                let kinds: std::collections::HashSet<u8> = r.members.iter().map(|m| m.ty).collect();
                c.nontrivial |= kinds.len() > 1;
                c.label_if(kinds.len() == 3, "all three member types");
                c.label_if(r.members.iter().any(|m| b.strings[m.role as usize].is_empty()), "empty role");
                c.label_if(r.members.len() >= 1000, "1000 or more members");
                c.label_if(r.members.windows(2).any(|x| x[1].id < x[0].id), "decreasing member id");
                c.label_if(r.members.is_empty(), "relation without members");
                c.label_if(r.members.windows(2).any(|x| x[1] == x[0]), "repeated member");
            }
        }
    }
    let w = MEMB | RAW;
    check_sequential(&f, &bytes, w)?;
    check_blocks(&f, &bytes, w)
}

pub static C05: Prop = Prop {
    id: "C05",
    run: c05,
    pinned: &[
        ("140,006 members of a relation", super::large::relation),
        ("eight million members", super::huge::members),
    ],
    rule: "random relations (0 to 9000 members, any mix of types, ids over 62 bits with any steps, roles anywhere in the table including empty) compared with the model: type, id, role index and role string per member. Non-trivial: a relation with members of different types.",
    quick: 90_000,
    thorough: 4_000_000,
    workers: 8,
    fuzz: (3_000, 120_000),
};

// --------------------------------------------------------------------- C06

/// Which string index does this value stand for?
fn c06(g: &mut Gen, c: &mut Case) -> R {
    let hostile = g.chance(1, 2);
    let cfg = Cfg {
        kinds: [25, 30, 20, 25, 2, 8],
        max_blobs: 3,
        max_groups: 3,
        bad_utf8: hostile,
        big: 60,
        big_cap: 70_000,
        elem_cap: 3000,
        many: 0,
        blob_kinds: [96, 2, 2],
        geo: false,
        ..Cfg::default()
    };
    let mut f = gen_file(g, &cfg);
    if f.count() > 30_000 {
        // a huge element list adds nothing here
        for b in &mut f.blobs {
            if let Kind::Data(d) = &mut b.kind {
                d.groups.retain(|x| x.count() < 5000);
            }
        }
    }
    if hostile {
        // some indices beyond the table
        for b in &mut f.blobs {
            if let Kind::Data(d) = &mut b.kind {
                let n = d.strings.len() as u32;
                let out = |g: &mut Gen, x: &mut u32| {
                    if g.chance(1, 12) {
                        *x = *g.pick(&[n, n + 1, n + 1000, i32::MAX as u32, n + 255, n + 256, n + 65536, 1 << 31, u32::MAX, u32::MAX - n]);
                    }
                };
                for gr in &mut d.groups {
                    for t in gr
                        .nodes
                        .iter_mut()
                        .flat_map(|x| x.tags.iter_mut())
                        .chain(gr.ways.iter_mut().flat_map(|x| x.tags.iter_mut()))
                        .chain(gr.rels.iter_mut().flat_map(|x| x.tags.iter_mut()))
                        .take(30)
                    {
                        out(g, &mut t.0);
                        out(g, &mut t.1);
                    }
                    for m in gr.rels.iter_mut().flat_map(|x| x.members.iter_mut()).take(20) {
                        let mut v = m.role as u32;
                        out(g, &mut v);
                        m.role = v as i32;
                    }
                    for i in gr
                        .nodes
                        .iter_mut()
                        .map(|x| &mut x.info)
                        .chain(gr.ways.iter_mut().map(|x| &mut x.info))
                        .chain(gr.rels.iter_mut().map(|x| &mut x.info))
                        .take(20)
                        .flatten()
                    {
                        if let Some(u) = &mut i.user_sid {
                            out(g, u);
                        }
                    }
                    if let Some(x) = &mut gr.dense {
                        for nd in x.nodes.iter_mut().take(12) {
                            for t in nd.tags.iter_mut().take(6) {
                                out(g, &mut t.0);
                                out(g, &mut t.1);
                            }
                            let mut v = nd.info.user_sid as u32;
                            // keep the 32-bit differences representable
                            if g.chance(1, 12) {
                                v = *g.pick(&[n, n + 1, n + 1000, 1 << 29, u32::MAX, u32::MAX - 999, -(1i32 << 29) as u32]);
                            }
                            nd.info.user_sid = v as i32;
                        }
                    }
                }
            }
        }
    }
    let bytes = begin(&f, c);
    let mut rd = BlobReader::new(plain(&bytes));
    for (i, m) in f.blobs.iter().enumerate() {
        let blob = match rd.next() {
            Some(Ok(b)) => b,
            Some(Err(e)) => bail!("blob {i}: {}", ek(&e)),
            None => bail!("blob {i}: iteration ended early"),
        };
        let Kind::Data(d) = &m.kind else { continue };
        let blk = blob.to_primitiveblock().map_err(|e| format!("blob {i}: {}", ek(&e)))?;
        ensure!(blk.raw_stringtable() == &d.strings[..], "blob {i}: raw string table differs from the stored one");
        let mut seen = std::collections::HashSet::new();
        let dup = d.strings.iter().any(|s| !seen.insert(s));
        c.label_if(dup, "duplicate strings in a table");
        c.label_if(d.strings.len() > 300, "table of more than 300 strings");
        c.label_if(d.strings.len() > 32768, "table of more than 32768 strings");
        let gs: Vec<_> = blk.groups().collect();
        ensure!(gs.len() == d.groups.len(), "blob {i}: group count");
        for (k, (gl, mg)) in gs.iter().zip(&d.groups).enumerate() {
            let at = |m: String| format!("blob {i} group {k}: {m}");
            let ns: Vec<_> = gl.nodes().collect();
            ensure!(ns.len() == mg.nodes.len(), "node count");
            for (n, x) in ns.iter().zip(&mg.nodes) {
                ensure!(std::ptr::eq(n.raw_stringtable(), blk.raw_stringtable()) || n.raw_stringtable() == &d.strings[..], "node string table");
                tags(d, &x.tags, n.tags().collect(), rt(n.raw_tags()), c).map_err(at)?;
                user(d, x.info.as_ref().and_then(|i| i.user_sid), n.info().user(), c).map_err(at)?;
            }
            if let Some(md) = &mg.dense {
                let ns: Vec<_> = gl.dense_nodes().collect();
                ensure!(ns.len() == md.nodes.len(), "dense node count");
                for (n, x) in ns.iter().zip(&md.nodes) {
                    tags(d, &x.tags, n.tags().collect(), n.raw_tags().map(|(a, b)| (i64::from(a as u32), i64::from(b as u32))).collect(), c)
                        .map_err(at)?;
                    if md.full_info() {
                        let Some(inf) = n.info() else { bail!("dense metadata missing") };
                        string(d, i64::from(x.info.user_sid), inf.user(), "user name", c).map_err(at)?;
                    }
                }
            }
            let ns: Vec<_> = gl.ways().collect();
            ensure!(ns.len() == mg.ways.len(), "way count");
            for (n, x) in ns.iter().zip(&mg.ways) {
                ensure!(std::ptr::eq(n.raw_stringtable(), blk.raw_stringtable()) || n.raw_stringtable() == &d.strings[..], "way string table");
                tags(d, &x.tags, n.tags().collect(), rt(n.raw_tags()), c).map_err(at)?;
                user(d, x.info.as_ref().and_then(|i| i.user_sid), n.info().user(), c).map_err(at)?;
            }
            let ns: Vec<_> = gl.relations().collect();
            ensure!(ns.len() == mg.rels.len(), "relation count");
            for (n, x) in ns.iter().zip(&mg.rels) {
                ensure!(std::ptr::eq(n.raw_stringtable(), blk.raw_stringtable()) || n.raw_stringtable() == &d.strings[..], "relation string table");
                tags(d, &x.tags, n.tags().collect(), rt(n.raw_tags()), c).map_err(at)?;
                user(d, x.info.as_ref().and_then(|i| i.user_sid), n.info().user(), c).map_err(at)?;
                let ms: Vec<_> = n.members().collect();
                ensure!(ms.len() == x.members.len(), "member count");
                for (a, b) in ms.iter().zip(&x.members) {
                    ensure!(a.role_sid == b.role, "role index {} instead of {}", a.role_sid, b.role);
                    string(d, i64::from(b.role), a.role(), "role", c).map_err(at)?;
                }
            }
        }
    }
    Ok(())
}

fn rt(it: RawTagIter<'_>) -> Vec<(i64, i64)> {
    it.map(|(a, b)| (i64::from(a), i64::from(b))).collect()
}

fn string(d: &BlockM, sid: i64, got: Result<&str>, what: &str, c: &mut Case) -> R {
    let g = StrO::of(got);
    if sid < 0 {
        // how a negative index is named is open, it must not be a string's
        c.label("negative user name or role index");
        ensure!(matches!(g, StrO::Oob(i) if i >= d.strings.len()), "{what} with index {sid}: got {g:?}");
        return Ok(());
    }
    let e = exp_str(d, sid as usize);
    match &e {
        StrO::Ok(s) => c.label_if(!s.is_ascii(), "non-ASCII string resolved"),
        StrO::Utf8(_) => c.label("invalid UTF-8 behind a user name or role"),
        StrO::Oob(_) => c.label("user name or role index outside the table"),
        StrO::Other(_) => {}
    }
    ensure!(g == e, "{what} with index {sid}: got {g:?}, expected {e:?}");
    Ok(())
}

fn user(d: &BlockM, sid: Option<u32>, got: Option<Result<&str>>, c: &mut Case) -> R {
    match (sid, got) {
        (None, None) => Ok(()),
        (Some(s), Some(r)) => string(d, i64::from(s), r, "user name", c),
        (None, Some(r)) => Err(format!("no user name stored, got {:?}", StrO::of(r))),
        (Some(s), None) => Err(format!("user name index {s} stored, none reported")),
    }
}

fn tags(d: &BlockM, t: &[(u32, u32)], got: Vec<(&str, &str)>, raw: Vec<(i64, i64)>, c: &mut Case) -> R {
    let er: Vec<(i64, i64)> = t.iter().map(|x| (i64::from(x.0), i64::from(x.1))).collect();
    ensure!(raw == er, "raw tags: got {raw:?}, stored {er:?}");
    let dec: Vec<Option<(String, String)>> = t
        .iter()
        .map(|x| match (exp_str(d, x.0 as usize), exp_str(d, x.1 as usize)) {
            (StrO::Ok(a), StrO::Ok(b)) => Some((a, b)),
            _ => None,
        })
        .collect();
    let first_bad = dec.iter().position(Option::is_none);
    c.nontrivial |= !t.is_empty();
    match first_bad {
        None => {
            ensure!(
                got.len() == dec.len() && got.iter().zip(&dec).all(|(a, b)| b.as_ref().is_some_and(|b| a.0 == b.0 && a.1 == b.1)),
                "tags: got {got:?}, stored {dec:?}"
            );
        }
        Some(k) => {
            c.label("undecodable tag");
            ensure!(got.len() >= k, "tags before the first undecodable one are missing: got {got:?}, stored {dec:?}");
            // everything delivered is a subsequence of the stored decodable pairs,
            // and its start is everything before the first undecodable one
            let mut it = dec.iter();
            for (i, p) in got.iter().enumerate() {
                if i < k {
                    let e = it.next().and_then(|x| x.as_ref());
                    ensure!(e.is_some_and(|e| e.0 == p.0 && e.1 == p.1), "tag {i}: got {p:?}, stored {e:?}");
                } else {
                    ensure!(
                        it.any(|x| x.as_ref().is_some_and(|e| e.0 == p.0 && e.1 == p.1)),
                        "tag {i}: {p:?} is not a stored pair at that place: {dec:?}"
                    );
                }
            }
        }
    }
    Ok(())
}

pub static C06: Prop = Prop {
    id: "C06",
    run: c06,
    pinned: &[
        ("70,003 tags on an element", super::large::tags),
        ("a million tags, two million strings", super::huge::tags),
        ("70,003 tags on a dense node", super::large::dense_tags),
        ("a string of a mebibyte", super::large::long_string),
    ],
    rule: "random string tables (up to 70000 entries, duplicates, any bytes, invalid UTF-8) and random tag/user/role indices, in half of the cases also outside the table, on nodes, dense nodes, ways and relations; resolved strings, raw indices, raw tables and errors compared with the model. Non-trivial: an element with at least one tag.",
    quick: 120_000,
    thorough: 4_000_000,
    workers: 8,
    fuzz: (3_000, 120_000),
};

// --------------------------------------------------------------------- C07

fn c07(g: &mut Gen, c: &mut Case) -> R {
    let cfg = Cfg {
        kinds: [25, 30, 20, 20, 2, 4],
        max_blobs: 4,
        tags: false,
        big: 200,
        big_cap: 3000,
        many: 0,
        blob_kinds: [95, 2, 3],
        geo: false,
        ..Cfg::default()
    };
    let f = gen_file(g, &cfg);
    let bytes = begin(&f, c);
    let mut dates = std::collections::HashSet::new();
    for b in f.blocks() {
        if b.count() > 0 {
            dates.insert(b.date_v());
        }
        for gr in &b.groups {
            let infos = gr
                .nodes
                .iter()
                .map(|x| &x.info)
                .chain(gr.ways.iter().map(|x| &x.info))
                .chain(gr.rels.iter().map(|x| &x.info));
            for i in infos {
                match i {
                    None => c.label("metadata record absent"),
                    Some(i) => {
                        let k = [i.version.is_some(), i.ts.is_some(), i.cs.is_some(), i.uid.is_some(), i.user_sid.is_some()]
                            .iter()
                            .filter(|x| **x)
                            .count();
                        c.label_if(k > 0 && k < 5, "metadata record partly filled");
                        c.label_if(i.visible == Some(false), "deleted element");
                        c.label_if(i.visible == Some(true), "explicitly visible element");
                        c.label_if(i.ts.is_some_and(|t| t < 0), "negative timestamp");
                        c.nontrivial |= k > 0;
                    }
                }
            }
            if let Some(d) = &gr.dense {
                c.nontrivial |= d.has_info && !d.nodes.is_empty();
                c.label_if(d.has_info && !d.full_info() && !d.nodes.is_empty(), "some dense metadata columns absent");
                c.label_if(d.has_visible && d.nodes.iter().any(|n| !n.info.visible), "deleted dense node");
                c.label_if(d.has_info && !d.has_visible, "dense metadata without visibility column");
            }
        }
    }
    c.label_if(dates.len() > 1, "blocks with different date granularities");
    check_sequential(&f, &bytes, INFO)?;
    check_blocks(&f, &bytes, INFO)
}

/// One metadata column of a dense group is stored, the others are not. The
/// stored values should be delivered; see KNOWN_FINDINGS.
fn lone_columns(c: &mut Case) -> R {
    let mut lost = vec![];
    for (k, name) in ["version", "timestamp", "changeset", "user id", "user name"].iter().enumerate() {
        let f = FileM {
            blobs: vec![BlobM::new(Kind::Data(BlockM {
                strings: vec![vec![], b"mapper".to_vec()],
                groups: vec![GroupM {
                    dense: Some(DenseM {
                        nodes: (1..4)
                            .map(|i| DNodeM {
                                id: i,
                                info: DInfoM {
                                    version: 7,
                                    ts: 8,
                                    cs: 9,
                                    uid: 10,
                                    user_sid: 1,
                                    visible: true,
                                },
                                ..DNodeM::default()
                            })
                            .collect(),
                        has_info: true,
                        missing: 31 & !(1 << k),
                        ..DenseM::default()
                    }),
                    ..GroupM::default()
                }],
                ..BlockM::default()
            }))],
        };
        let (bytes, _) = encode_file(&f);
        c.file(&bytes);
        let (v, r) = read_file(&Arc::new(bytes), INFO);
        r?;
        ensure!(v.len() == 3, "{} instead of 3 nodes with only a {name} column", v.len());
        for e in &v {
            match &e.info {
                Some(i) if i.absent => {}
                i => bail!("only the {name} column is stored, reported is {i:?}"),
            }
        }
        lost.push(*name);
    }
    c.nontrivial = true;
    bail!("a dense metadata column stored without the others is reported as absent: {}", lost.join(", "))
}

pub static C07: Prop = Prop {
    id: "C07",
    run: c07,
    pinned: &[
        ("metadata columns on their own", lone_columns),
        ("210,009 elements with metadata", super::large::elements),
        ("140,006 dense nodes with metadata", super::large::dense),
        ("two million dense nodes with metadata", super::huge::dense_info),
    ],
    rule: "random metadata on all four element representations (any subset of fields, any values, any date granularity, dense columns with and without visibility, some or all columns absent, absent records) compared field by field with the model. Non-trivial: an element with at least one stored metadata field.",
    quick: 250_000,
    thorough: 8_000_000,
    workers: 8,
    fuzz: (8_000, 300_000),
};

// --------------------------------------------------------------------- C08

fn c08(g: &mut Gen, c: &mut Case) -> R {
    let n = 1 + g.below(3);
    let mut f = FileM::default();
    let cfg = Cfg {
        max_groups: 2,
        max_elems: 2,
        big: 0,
        many: 0,
        ..Cfg::default()
    };
    for _ in 0..n {
        if g.chance(1, 4) {
            f.blobs.push(gen_blob(g, &cfg));
        }
        g.open();
        let mut b = BlobM::new(Kind::Header(gen_header(g)));
        b.pay = gen_pay(g, &cfg);
        b.raw_size = g.chance(1, 2);
        if g.chance(1, 3) {
            b.style = gen_style(g);
        }
        f.blobs.push(b);
        g.close();
    }
    let bytes = begin(&f, c);
    for b in &f.blobs {
        if let Kind::Header(h) = &b.kind {
            let k = [h.bbox.is_some(), h.program.is_some(), h.source.is_some(), h.ts.is_some(), h.seq.is_some(), h.url.is_some()]
                .iter()
                .filter(|x| **x)
                .count();
            c.label_if(h.bbox.is_some(), "bounding box");
            c.label_if(k == 6, "all optional fields");
            c.label_if(k == 0, "no optional field");
            c.label_if(h.required.len() > 1, "several required features");
            c.label_if(h.optional.len() > 1, "several optional features");
            c.label_if([&h.program, &h.source, &h.url].iter().any(|s| s.as_deref() == Some("")), "empty string stored");
            c.label_if([h.ts, h.seq].contains(&Some(0)), "zero stored");
            c.nontrivial |= k > 0 || !h.required.is_empty() || !h.optional.is_empty();
        }
    }
    for (i, b) in BlobReader::new(plain(&bytes)).enumerate() {
        let b = b.map_err(|e| format!("blob {i}: {}", ek(&e)))?;
        let Some(m) = f.blobs.get(i) else { bail!("more blobs than stored") };
        let Kind::Header(h) = &m.kind else { continue };
        ensure!(b.get_type() == BlobType::OsmHeader, "blob {i}: type {:?}", b.get_type());
        let x = b.to_headerblock().map_err(|e| format!("blob {i}: {}", ek(&e)))?;
        check_header(&of_header(&x), h).map_err(|m| format!("blob {i}: {m}"))?;
        match b.decode().map_err(|e| format!("blob {i}: {}", ek(&e)))? {
            BlobDecode::OsmHeader(x) => check_header(&of_header(&x), h).map_err(|m| format!("blob {i} (decode): {m}"))?,
            _ => bail!("blob {i}: header blob decoded as something else"),
        }
    }
    if via() != Via::Stream {
        let t = Tmp::new(&bytes);
        let mm = unsafe { Mmap::from_path(&t.0) }.map_err(|e| format!("harness: mmap: {e}"))?;
        for (i, b) in mm.blob_iter().enumerate() {
            let b = b.map_err(|e| format!("mmap blob {i}: {}", ek(&e)))?;
            let Kind::Header(h) = &f.blobs[i].kind else { continue };
            match b.decode().map_err(|e| format!("mmap blob {i}: {}", ek(&e)))? {
                BlobDecode::OsmHeader(x) => check_header(&of_header(&x), h).map_err(|m| format!("mmap blob {i}: {m}"))?,
                _ => bail!("mmap blob {i}: header blob decoded as something else"),
            }
        }
    }
    Ok(())
}

pub static C08: Prop = Prop {
    id: "C08",
    run: c08,
    pinned: &[],
    rule: "random header blocks (any subset of fields, any strings, 64-bit values, several headers per file, raw/zlib, wire styles) read through to_headerblock, decode and the memory map; compared with the model. Non-trivial: at least one field or feature stored.",
    quick: 500_000,
    thorough: 15_000_000,
    workers: 8,
    fuzz: (10_000, 400_000),
};

// --------------------------------------------------------------------- C20

fn perm_strings(g: &mut Gen, b: &BlockM) -> BlockM {
    if b.strings.is_empty() {
        return b.clone();
    }
    let n = b.strings.len();
    let extra = g.below(4);
    // new table: entry 0 stays, the rest shuffled, some entries doubled
    let mut order: Vec<usize> = (1..n).collect();
    let lim = order.len().min(60);
    for i in (1..lim).rev() {
        let j = g.below(i + 1);
        order.swap(i, j);
    }
    let mut table = vec![b.strings[0].clone()];
    let mut map: Vec<Vec<u32>> = vec![vec![0]; n];
    for m in map.iter_mut().skip(1) {
        m.clear();
    }
    for (k, o) in order.iter().enumerate() {
        map[*o].push(table.len() as u32);
        table.push(b.strings[*o].clone());
        if k < 20 && g.chance(1, 6) {
            map[*o].push(table.len() as u32);
            table.push(b.strings[*o].clone());
        }
    }
    for _ in 0..extra {
        table.push(gen_text(g));
    }
    let s = g.draw(1 << 16);
    let mut cnt = s;
    let mut re = |i: u32| -> u32 {
        let m = &map[i as usize];
        cnt = cnt.wrapping_add(1);
        m[(cnt % m.len() as u64) as usize]
    };
    let mut o = b.clone();
    o.strings = table;
    for gr in &mut o.groups {
        for x in &mut gr.nodes {
            for t in &mut x.tags {
                *t = (re(t.0), re(t.1));
            }
            if let Some(u) = x.info.as_mut().and_then(|i| i.user_sid.as_mut()) {
                *u = re(*u);
            }
        }
        if let Some(d) = &mut gr.dense {
            for x in &mut d.nodes {
                for t in &mut x.tags {
                    *t = (re(t.0), re(t.1));
                }
                x.info.user_sid = re(x.info.user_sid as u32) as i32;
            }
        }
        for x in &mut gr.ways {
            for t in &mut x.tags {
                *t = (re(t.0), re(t.1));
            }
            if let Some(u) = x.info.as_mut().and_then(|i| i.user_sid.as_mut()) {
                *u = re(*u);
            }
        }
        for x in &mut gr.rels {
            for t in &mut x.tags {
                *t = (re(t.0), re(t.1));
            }
            if let Some(u) = x.info.as_mut().and_then(|i| i.user_sid.as_mut()) {
                *u = re(*u);
            }
            for m in &mut x.members {
                m.role = re(m.role as u32) as i32;
            }
        }
    }
    o
}

fn split_group(g: &mut Gen, gr: &GroupM) -> Vec<GroupM> {
    let n = gr.count();
    if n < 2 || gr.kinds() > 1 || !g.chance(1, 2) {
        return vec![gr.clone()];
    }
    let k = 1 + g.below(n - 1);
    let mut a = GroupM::default();
    let mut b = GroupM::default();
    if !gr.nodes.is_empty() {
        a.nodes = gr.nodes[..k].to_vec();
        b.nodes = gr.nodes[k..].to_vec();
    }
    if let Some(d) = &gr.dense {
        if !d.nodes.is_empty() {
            let mut x = d.clone();
            let mut y = d.clone();
            x.nodes = d.nodes[..k].to_vec();
            y.nodes = d.nodes[k..].to_vec();
            a.dense = Some(x);
            b.dense = Some(y);
        }
    }
    if !gr.ways.is_empty() {
        a.ways = gr.ways[..k].to_vec();
        b.ways = gr.ways[k..].to_vec();
    }
    if !gr.rels.is_empty() {
        a.rels = gr.rels[..k].to_vec();
        b.rels = gr.rels[k..].to_vec();
    }
    vec![a, b]
}

fn c20(g: &mut Gen, c: &mut Case) -> R {
    let cfg = Cfg {
        max_blobs: 4,
        big: 150,
        big_cap: 2000,
        many: 0,
        style16: 0,
        changesets: false,
        zlib: false,
        kinds: [22, 25, 22, 18, 5, 0],
        ..Cfg::default()
    };
    let a = gen_file(g, &cfg);
    // another writer's version of the same data
    let mut blobs: Vec<BlobM> = vec![];
    let noise = |g: &mut Gen, blobs: &mut Vec<BlobM>| {
        if g.chance(1, 4) {
            let mut b = match g.below(3) {
                0 => BlobM::new(Kind::Data(BlockM {
                    strings: vec![vec![]],
                    ..BlockM::default()
                })),
                1 => BlobM::new(Kind::Data(BlockM {
                    strings: vec![vec![]],
                    groups: vec![GroupM::default(), GroupM { changesets: vec![7, -7], ..GroupM::default() }],
                    ..BlockM::default()
                })),
                _ => {
                    let t = gen_unknown_type(g);
                    let p = if g.chance(1, 2) {
                        // what would be a valid block under another type
                        let cfg = Cfg { big: 0, many: 0, max_groups: 2, max_elems: 3, ..Cfg::default() };
                        encode_block(&gen_block(g, &cfg), &mut Enc::new(Style::default()))
                    } else {
                        let n = g.below(30);
                        (0..n).map(|_| g.draw(256) as u8).collect()
                    };
                    BlobM::new(Kind::Unknown(t, p))
                }
            };
            b.pay = if matches!(b.kind, Kind::Unknown(..)) {
                *g.pick(&[Pay::Raw, Pay::Zlib(6), Pay::Other(4), Pay::Other(5), Pay::Other(6), Pay::Other(7), Pay::Missing])
            } else {
                *g.pick(&[Pay::Raw, Pay::Zlib(6)])
            };
            blobs.push(b);
        }
    };
    let mut marks = vec![];
    for b in &a.blobs {
        noise(g, &mut blobs);
        g.open();
        let mut parts: Vec<BlobM> = vec![];
        match &b.kind {
            Kind::Data(d) => {
                let d2 = perm_strings(g, d);
                let mut groups = vec![];
                for gr in &d2.groups {
                    if g.chance(1, 8) {
                        groups.push(GroupM::default());
                    }
                    groups.extend(split_group(g, gr));
                }
                for gr in groups.iter_mut().take(10) {
                    if g.chance(1, 10) {
                        gr.changesets = vec![g.int(1 << 40), 3];
                    }
                }
                let mut one = d2.clone();
                one.groups = groups;
                if one.groups.len() > 1 && g.chance(1, 3) {
                    let k = 1 + g.below(one.groups.len() - 1);
                    let mut two = one.clone();
                    two.groups = one.groups.split_off(k);
                    parts.push(BlobM::new(Kind::Data(one)));
                    parts.push(BlobM::new(Kind::Data(two)));
                    c.label("block split in two");
                } else {
                    parts.push(BlobM::new(Kind::Data(one)));
                }
            }
            k => parts.push(BlobM::new(k.clone())),
        }
        for mut p in parts {
            p.pay = match &p.kind {
                Kind::Unknown(..) => b.pay,
                _ => *g.pick(&[Pay::Raw, Pay::Zlib(1), Pay::Zlib(6), Pay::Zlib(0), Pay::Zlib(9)]),
            };
            p.style = if g.chance(3, 4) { gen_style(g) } else { Style::default() };
            p.raw_size = g.chance(1, 2);
            p.raw_size_last = g.chance(1, 2);
            if g.chance(1, 5) {
                let n = g.below(50);
                p.indexdata = Some(vec![g.draw(256) as u8; n]);
            }
            blobs.push(p);
        }
        g.close();
    }
    noise(g, &mut blobs);
    let b = FileM { blobs };
    let (ab, _) = encode_file(&a);
    let (bb, _) = encode_file(&b);
    c.file(&ab);
    c.file(&bb);
    c.note(|| format!("as written by one writer: {} / by another: {}", show(&a), show(&b)));
    c.nontrivial = a.count() > 0 && ab != bb;
    for x in &b.blobs {
        let s = x.style;
        c.label_if(s.unpacked, "unpacked arrays");
        c.label_if(s.split, "split packed arrays");
        c.label_if(s.shuffle, "field order shuffled");
        c.label_if(s.nonmin, "non-minimal varints");
        c.label_if(s.unknown, "unknown fields");
        c.label_if(s.dup, "overridden earlier occurrences");
        c.label_if(matches!(x.pay, Pay::Zlib(_)), "zlib");
        c.label_if(matches!(x.pay, Pay::Other(_)), "unknown blob with other compression");
        c.label_if(x.indexdata.is_some(), "index data");
    }
    let w = TAGS | POS | INFO | REFS | LOCS | MEMB;
    let (ga, ra) = seq_read(plain(&Arc::new(ab)), w);
    ra.map_err(|e| format!("plain encoding: {e}"))?;
    let bb = Arc::new(bb);
    let (gb, rb) = read_file(&bb, w);
    rb.map_err(|e| format!("other encoding: {e}"))?;
    for (i, (x, y)) in ga.iter().zip(&gb).enumerate() {
        same_elem(y, x).map_err(|m| format!("element {i} ({:?} {}) reads differently from an equivalent encoding: {m}", x.kind, x.id))?;
    }
    ensure!(ga.len() == gb.len(), "{} elements from one encoding, {} from an equivalent one", ga.len(), gb.len());
    compare_seq(&gb, &exp_file(&a, w))?;
    // headers: same, wherever they are
    let heads = |f: &FileM| -> Vec<HeaderM> {
        f.blobs
            .iter()
            .filter_map(|b| match &b.kind {
                Kind::Header(h) => Some(h.clone()),
                _ => None,
            })
            .collect()
    };
    let hs = heads(&b);
    marks.extend(hs.iter().cloned());
    let mut k = 0;
    each_blob(&bb, |i, ty, dec| {
        ensure!(i < b.blobs.len(), "more blobs than stored");
        ensure!(ty == b.blobs[i].type_name(), "blob {i}: type {ty:?} instead of {:?}", b.blobs[i].type_name());
        let d = of_decode(dec, w);
        check_dec(&d, &b.blobs[i], w).map_err(|m| format!("blob {i}: {m}"))?;
        if let Dec::Header(h) = d {
            check_header(&h, &hs[k])?;
            k += 1;
        }
        Ok(())
    })?;
    ensure!(k == marks.len(), "{k} headers instead of {}", marks.len());
    // indexed access, too
    if f_small(&b) {
        let mut ix = IndexedReader::new(plain(&bb)).map_err(|e| ek(&e))?;
        let mut v = vec![];
        ix.for_each_node(|e| v.push(of_elem(&e, w))).map_err(|e| format!("indexed nodes: {}", ek(&e)))?;
        let nodes: Vec<Elem> = ga.iter().filter(|e| matches!(e.kind, EK::Node | EK::Dense)).cloned().collect();
        ensure!(v.len() == nodes.len(), "indexed: {} nodes instead of {}", v.len(), nodes.len());
        for (x, y) in v.iter().zip(&nodes) {
            same_elem(x, y).map_err(|m| format!("indexed node {}: {m}", y.id))?;
        }
    }
    Ok(())
}

fn f_small(f: &FileM) -> bool {
    f.count() < 300
}

pub static C20: Prop = Prop {
    id: "C20",
    run: c20,
    pinned: &[],
    rule: "pairs of files holding the same data, one in canonical encoding, one rewritten (zlib levels, packed/unpacked/split arrays, shuffled fields, non-minimal varints, unknown fields, overridden duplicates, index data, permuted/duplicated string table, groups and blocks split, empty groups/blocks, changesets and unknown blobs inserted); the library must read both identically and as the model says. Non-trivial: the data has elements and the encodings differ.",
    quick: 100_000,
    thorough: 4_000_000,
    workers: 8,
    fuzz: (4_000, 150_000),
};

// --------------------------------------------------------------------- C21

/// All the ways to consume an iterator must agree with stepping.
fn laws<I, K, F>(g: &mut Gen, c: &mut Case, it: I, n: usize, key: F, what: &'static str, exact: bool) -> R
where
    I: Iterator + Clone,
    K: PartialEq + std::fmt::Debug,
    F: Fn(I::Item) -> K,
{
    if n >= 2 {
        c.nontrivial = true;
        c.label(what);
    }
    let full: Vec<K> = it.clone().map(&key).collect();
    if full.len() != n {
        bail!("{what}: {} items delivered, {n} stored", full.len());
    }
    // stepping, with announced lengths
    let mut a = it.clone();
    let every = n <= 64;
    for i in 0..n {
        if every || i < 8 || i + 8 > n || i % 97 == 0 {
            let (lo, hi) = a.size_hint();
            if exact {
                ensure!(lo == n - i && hi == Some(n - i), "{what}: announces {lo}..{hi:?} items with {} left of {n}", n - i);
            } else {
                ensure!(lo <= n - i && hi.is_none_or(|h| h >= n - i), "{what}: announces {lo}..{hi:?} items with {} left", n - i);
            }
        }
        match a.next() {
            Some(x) => {
                let k = key(x);
                ensure!(k == full[i], "{what}: step {i} gives {k:?}, an independent clone gave {:?}", full[i]);
            }
            None => bail!("{what}: ended at step {i} of {n}"),
        }
    }
    for _ in 0..3 {
        let (lo, hi) = a.size_hint();
        if exact {
            ensure!(lo == 0 && hi == Some(0), "{what}: announces {lo}..{hi:?} items when exhausted");
        } else {
            ensure!(lo == 0, "{what}: announces {lo} items when exhausted");
        }
        ensure!(a.next().is_none(), "{what}: delivers an item after its end");
    }
    ensure!(a.clone().next().is_none(), "{what}: a clone of the exhausted iterator delivers an item");
    // clone at a point, advance both separately
    let p = g.below(n + 1);
    let mut a = it.clone();
    for _ in 0..p {
        a.next();
    }
    let b = a.clone();
    let adv = g.below(4);
    for _ in 0..adv {
        a.next();
    }
    let rb: Vec<K> = b.clone().map(&key).collect();
    ensure!(rb[..] == full[p..], "{what}: a clone taken at {p} of {n} delivers {} items instead of {} or different ones", rb.len(), n - p);
    let q = (p + adv).min(n);
    let ra: Vec<K> = a.map(&key).collect();
    ensure!(ra[..] == full[q..], "{what}: advancing after a clone changed what is delivered");
    // count, last, nth, skip
    ensure!(b.clone().count() == n - p, "{what}: count() from {p} of {n} gives {}", b.clone().count());
    let l = b.clone().last().map(&key);
    ensure!(l.as_ref() == full[p..].last(), "{what}: last() from {p} of {n} gives {l:?}");
    let k = g.below(n - p + 2);
    let mut d = b.clone();
    let x = d.nth(k).map(&key);
    ensure!(x.as_ref() == full.get(p + k), "{what}: nth({k}) from {p} of {n} gives {x:?}");
    let after = (p + k + 1).min(n);
    let rest: Vec<K> = d.map(&key).collect();
    ensure!(rest[..] == full[after..], "{what}: after nth({k}) from {p} of {n}: {} items left instead of {}", rest.len(), n - after);
    let st = 1 + g.below(3);
    let e: Vec<K> = b.clone().step_by(st).map(&key).collect();
    let want: Vec<&K> = full[p..].iter().step_by(st).collect();
    ensure!(e.iter().collect::<Vec<_>>() == want, "{what}: step_by({st}) from {p} differs from stepping");
    // internal iteration
    let mut f = vec![];
    b.for_each(|x| f.push(key(x)));
    ensure!(f[..] == full[p..], "{what}: for_each from {p} differs from stepping");
    Ok(())
}

fn len_of<I: ExactSizeIterator>(i: &I, n: usize, what: &str) -> R {
    ensure!(i.len() == n, "{what}: len() is {} with {n} items", i.len());
    Ok(())
}

fn c21(g: &mut Gen, c: &mut Case) -> R {
    let cfg = Cfg {
        max_groups: 3,
        max_elems: 5,
        big: 100,
        big_cap: 1500,
        many: 200,
        ..Cfg::default()
    };
    let m = gen_block(g, &cfg);
    let mut bl = BlobM::new(Kind::Data(m.clone()));
    if g.chance(1, 4) {
        bl.style = gen_style(g);
    }
    let f = FileM { blobs: vec![bl] };
    let bytes = begin(&f, c);
    let blob = BlobReader::new(plain(&bytes)).next().ok_or("no blob")?.map_err(|e| ek(&e))?;
    let blk = blob.to_primitiveblock().map_err(|e| ek(&e))?;
    let w = TAGS | POS | REFS | MEMB;
    laws(g, c, blk.elements(), m.count(), |e| format!("{:?}", of_elem(&e, 0)), "elements", false)?;
    len_of(&blk.groups(), m.groups.len(), "groups")?;
    laws(g, c, blk.groups(), m.groups.len(), |e| group_elems(&e, 0).len(), "groups", true)?;
    let mut budget = 40usize;
    for (gr, mg) in blk.groups().zip(&m.groups) {
        if budget == 0 {
            break;
        }
        budget -= 1;
        laws(g, c, gr.nodes(), mg.nodes.len(), |e| hash_elem(&of_node(&e, w)), "nodes", true)?;
        len_of(&gr.nodes(), mg.nodes.len(), "nodes")?;
        let dn = mg.dense.as_ref().map_or(0, |d| d.nodes.len());
        let wi = w | INFO;
        laws(g, c, gr.dense_nodes(), dn, |e| hash_elem(&of_dense(&e, wi)), "dense nodes", true)?;
        len_of(&gr.dense_nodes(), dn, "dense nodes")?;
        laws(g, c, gr.ways(), mg.ways.len(), |e| hash_elem(&of_way(&e, w)), "ways", true)?;
        len_of(&gr.ways(), mg.ways.len(), "ways")?;
        laws(g, c, gr.relations(), mg.rels.len(), |e| hash_elem(&of_rel(&e, w)), "relations", true)?;
        len_of(&gr.relations(), mg.rels.len(), "relations")?;
        for (x, y) in gr.nodes().zip(&mg.nodes).take(4) {
            laws(g, c, x.tags(), y.tags.len(), |t| t, "tags", true)?;
            laws(g, c, x.raw_tags(), y.tags.len(), |t| t, "raw tags", true)?;
            len_of(&x.tags(), y.tags.len(), "tags")?;
            len_of(&x.raw_tags(), y.tags.len(), "raw tags")?;
        }
        if let Some(d) = &mg.dense {
            for (x, y) in gr.dense_nodes().zip(&d.nodes).take(6) {
                laws(g, c, x.tags(), y.tags.len(), |t| t, "dense tags", true)?;
                laws(g, c, x.raw_tags(), y.tags.len(), |t| t, "dense raw tags", true)?;
                len_of(&x.tags(), y.tags.len(), "dense tags")?;
                len_of(&x.raw_tags(), y.tags.len(), "dense raw tags")?;
            }
        }
        for (x, y) in gr.ways().zip(&mg.ways).take(4) {
            laws(g, c, x.tags(), y.tags.len(), |t| t, "way tags", true)?;
            laws(g, c, x.raw_tags(), y.tags.len(), |t| t, "raw way tags", true)?;
            laws(g, c, x.refs(), y.refs.len(), |t| t, "references", true)?;
            len_of(&x.refs(), y.refs.len(), "references")?;
            let n = y.locs.as_ref().map_or(0, Vec::len);
            laws(g, c, x.node_locations(), n, |t| (t.nano_lat(), t.nano_lon()), "node locations", true)?;
            len_of(&x.node_locations(), n, "node locations")?;
        }
        for (x, y) in gr.relations().zip(&mg.rels).take(4) {
            laws(g, c, x.tags(), y.tags.len(), |t| t, "relation tags", true)?;
            laws(g, c, x.raw_tags(), y.tags.len(), |t| t, "raw relation tags", true)?;
            laws(
                g,
                c,
                x.members(),
                y.members.len(),
                |t| (mtype(&t.member_type), t.member_id, t.role_sid),
                "members",
                true,
            )?;
            len_of(&x.members(), y.members.len(), "members")?;
        }
    }
    Ok(())
}

pub static C21: Prop = Prop {
    id: "C21",
    run: c21,
    pinned: &[],
    rule: "random conforming blocks; on every iterator type: announced length at every step, fusedness, clones at random points advanced independently, nth/last/count/step_by/internal iteration against plain stepping, item count against the model. Non-trivial: some iterator with at least two items.",
    quick: 120_000,
    thorough: 5_000_000,
    workers: 8,
    fuzz: (4_000, 150_000),
};

/// Encode one block for tests elsewhere.
pub fn block_bytes(b: &BlockM) -> Vec<u8> {
    encode_block(b, &mut Enc::new(Style::default()))
}
