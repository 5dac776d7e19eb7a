//! C12: indexed queries. C13: histories of operations on one indexed reader.

use crate::case::{tick, Case, Tmp, R};
use crate::driver::Prop;
use crate::gen::{hash_bytes, mix, Gen};
use crate::io::{gen_frag, plan, On, TestReader, FAULTS};
use crate::model::*;
use crate::obs::*;
use crate::props::content::show;
use crate::props::damage::gen_defective;
use osmpbf::*;
use std::collections::BTreeSet;
use std::io::{Read, Seek};
use std::sync::Arc;

const W: u32 = TAGS | REFS | POS | INFO;

/// A way filter; it depends on the way only.
#[derive(Clone, Debug)]
pub enum Filt {
    All,
    Nothing,
    IdMod(i64, i64),
    IdIn(BTreeSet<i64>),
    Tag(String),
    Hash(u64, u64),
    MinRefs(usize),
    HasRef(i64),
}

impl Filt {
    fn accept(&self, e: &Elem) -> bool {
        match self {
            Filt::All => true,
            Filt::Nothing => false,
            Filt::IdMod(m, r) => e.id.rem_euclid(*m) == *r,
            Filt::IdIn(s) => s.contains(&e.id),
            Filt::Tag(k) => e.tags.iter().any(|t| t.0 == *k),
            Filt::Hash(s, m) => {
                let mut h = mix(*s, e.id as u64);
                for r in &e.refs {
                    h = mix(h, *r as u64);
                }
                for t in &e.tags {
                    h = mix(h, hash_bytes(t.0.as_bytes()));
                }
                h % m == 0
            }
            Filt::MinRefs(n) => e.refs.len() >= *n,
            Filt::HasRef(x) => e.refs.contains(x),
        }
    }
}

pub fn gen_filter(g: &mut Gen, f: &FileM) -> Filt {
    let way_ids: Vec<i64> = f.blocks().flat_map(|b| b.groups.iter().flat_map(|g| g.ways.iter().map(|w| w.id))).take(64).collect();
    match g.weighted(&[22, 8, 12, 26, 8, 14, 5, 5]) {
        0 => Filt::All,
        1 => Filt::Nothing,
        2 => {
            let m = 2 + g.range(0, 3);
            Filt::IdMod(m, g.range(0, m - 1))
        }
        3 => {
            let n = 1 + g.len(3);
            let mut s = BTreeSet::new();
            for _ in 0..n {
                if !way_ids.is_empty() {
                    s.insert(*g.pick(&way_ids));
                }
            }
            Filt::IdIn(s)
        }
        4 => Filt::Tag(g.pick(&["building", "highway", "name", "", "a", "ref"]).to_string()),
        5 => Filt::Hash(g.draw(1000), 2 + g.draw(3)),
        6 => Filt::MinRefs(1 + g.below(4)),
        _ => Filt::HasRef(g.range(1, 24)),
    }
}

/// What a query must deliver: every way (for the filter), the accepted ways
/// and the nodes, per group.
struct Answer {
    consulted: Vec<Elem>,
    ways: Vec<Vec<Elem>>,
    nodes: Vec<Vec<Elem>>,
}

fn ask(f: &FileM, flt: &Filt) -> Answer {
    let mut a = Answer {
        consulted: vec![],
        ways: vec![],
        nodes: vec![],
    };
    let mut ids: BTreeSet<i64> = BTreeSet::new();
    for b in f.blocks() {
        for gr in &b.groups {
            let mut acc = vec![];
            for x in &gr.ways {
                let e = exp_way(b, x, W);
                if flt.accept(&e) {
                    ids.extend(x.refs.iter().copied());
                    acc.push(e.clone());
                }
                a.consulted.push(e);
            }
            if !acc.is_empty() {
                a.ways.push(acc);
            }
        }
    }
    for b in f.blocks() {
        for gr in &b.groups {
            let mut acc: Vec<Elem> = gr.nodes.iter().filter(|n| ids.contains(&n.id)).map(|n| exp_node(b, n, W)).collect();
            if let Some(d) = &gr.dense {
                acc.extend(d.nodes.iter().filter(|n| ids.contains(&n.id)).map(|n| exp_dense(b, d, n, W)));
            }
            if !acc.is_empty() {
                a.nodes.push(acc);
            }
        }
    }
    a
}

fn all_nodes(f: &FileM) -> Vec<Vec<Elem>> {
    let mut out = vec![];
    for b in f.blocks() {
        for gr in &b.groups {
            let mut v: Vec<Elem> = gr.nodes.iter().map(|n| exp_node(b, n, W)).collect();
            if let Some(d) = &gr.dense {
                v.extend(d.nodes.iter().map(|n| exp_dense(b, d, n, W)));
            }
            if !v.is_empty() {
                out.push(v);
            }
        }
    }
    out
}

/// What an operation did.
#[derive(Default)]
pub struct Seen {
    pub consulted: Vec<Elem>,
    pub out: Vec<Elem>,
    pub end: Option<String>,
}

#[derive(Clone, Debug)]
pub enum Op {
    Create,
    Nodes,
    Query(Filt),
}

impl Op {
    pub fn name(&self) -> String {
        match self {
            Op::Create => "create_index".into(),
            Op::Nodes => "for_each_node".into(),
            Op::Query(f) => format!("query({f:?})"),
        }
    }
}

pub fn perform<T: Read + Seek + Send>(ix: &mut IndexedReader<T>, op: &Op) -> Seen {
    let mut s = Seen::default();
    let r = match op {
        Op::Create => ix.create_index(),
        Op::Nodes => ix.for_each_node(|e| {
            tick();
            s.out.push(of_elem(&e, W));
        }),
        Op::Query(flt) => {
            let (c, o) = (&mut s.consulted, &mut s.out);
            ix.read_ways_and_deps(
                |x| {
                    tick();
                    let e = of_way(x, W);
                    let r = flt.accept(&e);
                    c.push(e);
                    r
                },
                |e| {
                    tick();
                    o.push(of_elem(e, W));
                },
            )
        }
    };
    s.end = r.err().map(|e| ek(&e));
    s
}

fn split(v: &[Elem]) -> (Vec<Elem>, Vec<Elem>, usize) {
    let ways: Vec<Elem> = v.iter().filter(|e| e.kind == EK::Way).cloned().collect();
    let nodes: Vec<Elem> = v.iter().filter(|e| matches!(e.kind, EK::Node | EK::Dense)).cloned().collect();
    let rest = v.len() - ways.len() - nodes.len();
    (ways, nodes, rest)
}

/// Does a completed operation's outcome match the model?
pub fn check_op(f: &FileM, op: &Op, s: &Seen) -> R {
    match op {
        Op::Create => Ok(()),
        Op::Nodes => compare_seq(&s.out, &all_nodes(f)).map_err(|m| format!("nodes: {m}")),
        Op::Query(flt) => {
            let a = ask(f, flt);
            let direct = s.consulted.len() == a.consulted.len()
                && s.consulted.iter().zip(&a.consulted).all(|(x, y)| same_elem(x, y).is_ok());
            if !direct {
                // the order of consultation is not promised, the ways are
                let key = |v: &[Elem]| {
                    let mut k: Vec<(i64, u64)> = v.iter().map(|e| (e.id, hash_elem(&Elem { pos: None, locs: vec![], ..e.clone() }))).collect();
                    k.sort_unstable();
                    k
                };
                let (x, y) = (key(&s.consulted), key(&a.consulted));
                if x != y {
                    bail!(
                        "the filter was consulted {} times (way ids {:?}), the file has {} ways ({:?})",
                        x.len(),
                        x.iter().map(|k| k.0).take(20).collect::<Vec<_>>(),
                        y.len(),
                        y.iter().map(|k| k.0).take(20).collect::<Vec<_>>()
                    );
                }
            }
            let (ways, nodes, rest) = split(&s.out);
            ensure!(rest == 0, "{rest} relations delivered by a query for ways");
            compare_seq(&ways, &a.ways).map_err(|m| format!("ways: {m}"))?;
            compare_seq(&nodes, &a.nodes).map_err(|m| format!("nodes of the accepted ways: {m}"))
        }
    }
}

pub fn cfg12(g: &mut Gen) -> Cfg {
    Cfg {
        max_blobs: 6,
        max_groups: 4,
        max_elems: 6,
        kinds: [24, 24, 30, 6, 4, 12],
        tags: true,
        info: g.chance(1, 4),
        big: 150,
        big_cap: 2500,
        many: 50,
        style16: 1,
        blob_kinds: [86, 6, 8],
        id_overlap: true,
        ..Cfg::default()
    }
}

/// Many nodes in few blobs, in any order, and ways which need many of them.
fn crowd(g: &mut Gen, zlib: bool) -> FileM {
    let blobs = 1 + g.below(4);
    let cap = *g.pick(&[300u64, 3_000, 30_000]);
    let spread = *g.pick(&[1i64, 2, 3, 1000]);
    let mut f = FileM { blobs: vec![] };
    let mut ids: Vec<i64> = vec![];
    let mut next = -(g.draw(cap) as i64);
    for _ in 0..blobs {
        let n = 1 + g.draw(cap) as usize;
        let s = g.draw(1 << 16);
        let mut v: Vec<i64> = (0..n)
            .map(|i| {
                next += 1 + (mix(s, i as u64) % spread as u64) as i64;
                next
            })
            .collect();
        match g.below(6) {
            0 | 1 => {}
            2 => v.reverse(),
            3 => {
                let k = g.below(n);
                v.rotate_left(k);
            }
            4 => v.sort_by_key(|x| mix(s, *x as u64)),
            _ => {
                // all but sorted, with some ids twice
                for _ in 0..1 + g.below(4) {
                    let (i, k) = (g.below(n), g.below(n));
                    v[i] = v[k];
                }
            }
        }
        if g.chance(1, 4) {
            // the same range of ids again
            next -= n as i64;
        }
        ids.extend(&v);
        let cut = match g.below(3) {
            0 => 0,
            1 => n,
            _ => g.below(n),
        };
        let mut groups = vec![];
        if cut > 0 {
            groups.push(GroupM {
                nodes: v[..cut].iter().map(|id| NodeM { id: *id, ..NodeM::default() }).collect(),
                ..GroupM::default()
            });
        }
        if cut < n {
            groups.push(GroupM {
                dense: Some(DenseM {
                    nodes: v[cut..].iter().map(|id| DNodeM { id: *id, ..DNodeM::default() }).collect(),
                    has_info: false,
                    has_visible: false,
                    missing: 0,
                    tag_col: false,
                }),
                ..GroupM::default()
            });
        }
        f.blobs.push(BlobM::new(Kind::Data(BlockM { strings: vec![vec![]], groups, ..BlockM::default() })));
    }
    let ways = 1 + g.below(4);
    let mut group = GroupM::default();
    for k in 0..ways {
        let s = g.draw(1 << 16);
        let keep = *g.pick(&[1u64, 2, 10, 100, 1000]);
        let mut refs: Vec<i64> = ids.iter().copied().filter(|i| mix(s, *i as u64) % keep == 0).collect();
        if g.chance(1, 2) {
            refs.sort_by_key(|x| mix(s ^ 1, *x as u64));
        }
        group.ways.push(WayM { id: k as i64, refs, ..WayM::default() });
    }
    let b = BlobM::new(Kind::Data(BlockM { strings: vec![vec![]], groups: vec![group], ..BlockM::default() }));
    let at = g.below(f.blobs.len() + 1);
    f.blobs.insert(at, b);
    if zlib {
        for b in &mut f.blobs {
            b.pay = Pay::Zlib(1);
        }
    }
    f
}

fn classify(c: &mut Case, f: &FileM) {
    let mut mixed = false;
    let mut apart = (false, false);
    for b in f.blocks() {
        let w = b.groups.iter().any(|x| !x.ways.is_empty());
        let n = b.groups.iter().any(|x| !x.nodes.is_empty() || x.dense.as_ref().is_some_and(|d| !d.nodes.is_empty()));
        mixed |= w && n;
        apart.0 |= w && !n;
        apart.1 |= n && !w;
        for x in &b.groups {
            let unsorted = |v: Vec<i64>| v.windows(2).any(|p| p[0] > p[1]);
            c.label_if(unsorted(x.nodes.iter().map(|n| n.id).collect()), "unsorted nodes");
            if let Some(d) = &x.dense {
                c.label_if(unsorted(d.nodes.iter().map(|n| n.id).collect()), "unsorted dense nodes");
            }
            c.label_if(x.kinds() > 1, "group of mixed kinds");
        }
    }
    c.label_if(mixed, "ways and nodes in one blob");
    c.label_if(apart.0 && apart.1, "ways and nodes in separate blobs");
    c.label_if(f.blobs.len() > 40, "more than 40 blobs");
}

fn c12(g: &mut Gen, c: &mut Case) -> R {
    if g.chance(1, 60) {
        return super::sparse::queries(g, c);
    }
    let many = g.chance(1, 80);
    let f = if many {
        let z = g.chance(1, 4);
        crowd(g, z)
    } else {
        let cfg = cfg12(g);
        gen_file(g, &cfg)
    };
    c.label_if(many, "many nodes in any order");
    let (b, _) = encode_file(&f);
    c.file(&b);
    let bytes = Arc::new(b);
    classify(c, &f);
    let (fs, fm) = if many { (0, 0) } else { gen_frag(g) };
    let n = 1 + g.below(3);
    for _ in 0..n {
        g.open();
        let op = if g.chance(1, 5) { Op::Nodes } else { Op::Query(gen_filter(g, &f)) };
        let on_disk = g.chance(1, 12);
        let s = if on_disk {
            let t = Tmp::new(&bytes);
            let mut ix = IndexedReader::from_path(&t.0).map_err(|e| format!("opening failed: {}", ek(&e)))?;
            perform(&mut ix, &op)
        } else {
            let p = plan(bytes.len(), fs, fm);
            let mut ix = IndexedReader::new(TestReader::new(&bytes, &p)).map_err(|e| format!("creating the reader failed: {}", ek(&e)))?;
            perform(&mut ix, &op)
        };
        g.close();
        c.note(|| op.name());
        ensure!(s.end.is_none(), "{} on a conforming file failed with {:?}", op.name(), s.end);
        check_op(&f, &op, &s).map_err(|m| format!("{}: {m}", op.name()))?;
        if let Op::Query(flt) = &op {
            let a = ask(&f, flt);
            let total: usize = all_nodes(&f).iter().map(Vec::len).sum();
            let w: usize = a.ways.iter().map(Vec::len).sum();
            let k: usize = a.nodes.iter().map(Vec::len).sum();
            if w > 0 && k > 0 && k < total {
                c.nontrivial = true;
                c.label("some nodes needed, others not");
            }
            c.label_if(w > 0 && w < a.consulted.len(), "some ways accepted, others not");
            c.label_if(a.ways.iter().flatten().any(|x| x.refs.is_empty()), "accepted way without references");
        } else {
            c.label("node iteration");
            c.nontrivial |= f.blobs.len() > 2 && !s.out.is_empty();
        }
    }
    c.note(|| show(&f));
    Ok(())
}

pub static C12: Prop = Prop {
    id: "C12",
    run: c12,
    pinned: &[
        ("70,003 blobs in an index", super::large::indexed_blobs),
        ("35,002 ways of 70,003 with their nodes", super::large::indexed),
        ("a million nodes of a way", super::huge::indexed),
    ],
    rule: "random conforming files (nodes, dense nodes and ways with small colliding, negative, duplicate, missing and extreme ids, sorted and unsorted, in any distribution over groups and blobs) x random way filters (all, none, by id, tag, references, hash of the way) and node iteration; oracle: the model's ways, accepted ways in file order, and nodes with a referenced id in file order. Non-trivial: a query which needs some nodes of the file and not others, or node iteration over several blobs.",
    quick: 60_000,
    thorough: 2_000_000,
    workers: 8,
    fuzz: (6_000, 200_000),
};

// --------------------------------------------------------------------- C13

fn c13(g: &mut Gen, c: &mut Case) -> R {
    let mut cfg = cfg12(g);
    cfg.max_blobs = 5;
    cfg.max_groups = 3;
    cfg.max_elems = 4;
    cfg.info = false;
    let defective = g.chance(1, 8);
    let (f, b) = if defective {
        let d = gen_defective(g, &cfg);
        c.label("defective file");
        c.note(|| d.what.clone());
        (d.file, d.bytes)
    } else {
        let f = gen_file(g, &cfg);
        let (b, _) = encode_file(&f);
        (f, b)
    };
    c.file(&b);
    let bytes = Arc::new(b);
    let (fs, fm) = gen_frag(g);
    let p = plan(bytes.len(), fs, fm);
    let start = match g.weighted(&[50, 30, 20]) {
        0 => 0,
        1 => g.draw(bytes.len() as u64 + 1),
        _ => bytes.len() as u64 + g.draw(50),
    };
    c.label_if(start != 0, "stream not at its start");
    let mut ix = IndexedReader::new(TestReader::new(&bytes, &p).at(start)).map_err(|e| format!("creating the reader failed: {}", ek(&e)))?;
    let n = 2 + g.below(6);
    let mut trace: Vec<String> = vec![];
    let mut failed = 0;
    for step in 0..n {
        g.open();
        let op = match g.weighted(&[16, 32, 52]) {
            0 => Op::Create,
            1 => Op::Nodes,
            _ => Op::Query(gen_filter(g, &f)),
        };
        p.refill(crate::io::budget_for(bytes.len()));
        let armed = g.chance(2, 5);
        if armed {
            let after = if g.chance(2, 3) { g.draw(24) } else { g.draw(160) };
            let kind = g.below(FAULTS);
            let on = *g.pick(&[On::Any, On::Reads, On::Seeks]);
            p.arm(after, kind, on, g.chance(1, 2));
        }
        let s = perform(&mut ix, &op);
        let fired = armed && p.fired();
        p.disarm();
        p.clear_fired();
        g.close();
        c.mixkey(mix(step as u64 + 16 * u64::from(fired), hash_bytes(op.name().as_bytes())));
        trace.push(format!(
            "{}{}{}",
            op.name(),
            if fired { " with fault" } else { "" },
            s.end.as_ref().map_or(String::new(), |e| format!(" -> {e}"))
        ));
        let ctx = |m: String| format!("step {step} of {}: {m}", trace.join(", "));
        if fired {
            // an error, or in spite of the fault everything
            if s.end.is_some() {
                failed += 1;
                c.label(match op {
                    Op::Create => "fault while indexing",
                    Op::Nodes => "fault during node iteration",
                    Op::Query(_) => "fault during a query",
                });
                continue;
            }
        }
        if defective {
            // exactly as a fresh reader
            let mut fresh = IndexedReader::new(TestReader::new(&bytes, &plan(bytes.len(), 0, 0)))
                .map_err(|e| format!("creating the reader failed: {}", ek(&e)))?;
            let t = perform(&mut fresh, &op);
            ensure!(
                s.end.is_some() == t.end.is_some(),
                "{}",
                ctx(format!("ends with {:?}, a fresh reader's with {:?}", s.end, t.end))
            );
            if s.end.is_none() {
                // the blobs such an operation needs are in order: it is complete
                ensure!(s.out == t.out && s.consulted == t.consulted, "{}", ctx("differs from a fresh reader's result".into()));
            } else {
                ensure!(
                    s.out == t.out,
                    "{}",
                    ctx(format!("{} elements before the error, a fresh reader delivers {}", s.out.len(), t.out.len()))
                );
            }
            continue;
        }
        ensure!(s.end.is_none(), "{}", ctx("failed without a fault".into()));
        check_op(&f, &op, &s).map_err(ctx)?;
        if failed > 0 {
            c.label("success after a failure");
        }
        if step > 0 && f.blocks().count() > 1 {
            c.nontrivial = true;
        }
    }
    c.note(|| format!("start {start}: {}", trace.join(", ")));
    c.note(|| show(&f));
    Ok(())
}

pub static C13: Prop = Prop {
    id: "C13",
    run: c13,
    pinned: &[],
    rule: "random histories of create_index, for_each_node and way queries with random filters on one IndexedReader over random files, the stream anywhere at the start, with temporary read and seek faults (any kind, once or lasting for the operation) injected into 2 of 5 operations; one file in eight is defective. Oracle: the model's answer for every operation that succeeds, an error for every operation that met a fault (unless complete all the same), on defective files the result of a fresh reader. Non-trivial: at least two operations on a file of several data blobs.",
    quick: 80_000,
    thorough: 3_000_000,
    workers: 8,
    fuzz: (8_000, 300_000),
};
