//! C09: the parallel map/reduce is the sequential pass.

use crate::case::{Case, R};
use crate::driver::Prop;
use crate::gen::{mix, Gen};
use crate::io::{gen_frag, plain, TestReader};
use crate::model::*;
use crate::obs::*;
use crate::props::content::show;
use crate::props::damage::{gen_defective, Broken};
use osmpbf::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

thread_local! {
    static POOLS: RefCell<BTreeMap<usize, Arc<rayon::ThreadPool>>> = const { RefCell::new(BTreeMap::new()) };
}

pub fn pool(n: usize) -> Arc<rayon::ThreadPool> {
    POOLS.with(|p| {
        p.borrow_mut()
            .entry(n)
            .or_insert_with(|| {
                Arc::new(
                    rayon::ThreadPoolBuilder::new()
                        .num_threads(n)
                        .stack_size(16 << 20)
                        .build()
                        .expect("harness: cannot build a thread pool"),
                )
            })
            .clone()
    })
}

/// A commutative monoid that misses nothing: counts, sums, extremes and the
/// multiset of everything observed.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Acc {
    pub count: u64,
    pub kinds: [u64; 4],
    pub sum: u64,
    pub xor: u64,
    pub max: Option<i64>,
    pub min: Option<i64>,
    pub all: BTreeMap<u64, u64>,
}

impl Acc {
    pub fn one(e: &Elem) -> Acc {
        let h = hash_elem(e);
        let mut a = Acc {
            count: 1,
            sum: h,
            xor: h.rotate_left(17),
            max: Some(e.id),
            min: Some(e.id),
            ..Acc::default()
        };
        a.kinds[e.kind as usize] = 1;
        a.all.insert(h, 1);
        a
    }
    pub fn join(mut self, o: Acc) -> Acc {
        self.count += o.count;
        for i in 0..4 {
            self.kinds[i] += o.kinds[i];
        }
        self.sum = self.sum.wrapping_add(o.sum);
        self.xor ^= o.xor;
        self.max = self.max.into_iter().chain(o.max).max();
        self.min = self.min.into_iter().chain(o.min).min();
        if self.all.len() < o.all.len() {
            return Acc {
                all: merge(o.all, self.all),
                ..self
            };
        }
        self.all = merge(self.all, o.all);
        self
    }
}

fn merge(mut a: BTreeMap<u64, u64>, b: BTreeMap<u64, u64>) -> BTreeMap<u64, u64> {
    for (k, v) in b {
        *a.entry(k).or_default() += v;
    }
    a
}

pub fn diff(got: &Acc, want: &Acc) -> String {
    if got.count != want.count || got.kinds != want.kinds {
        format!(
            "{} elements {:?} (nodes, dense, ways, relations) reduced instead of {} {:?}",
            got.count, got.kinds, want.count, want.kinds
        )
    } else if got.all != want.all {
        let m = want.all.iter().filter(|(k, v)| got.all.get(k) != Some(v)).count();
        format!("{m} elements were mapped with other contents or another number of times")
    } else {
        format!(
            "sum {} xor {} max {:?} min {:?} instead of sum {} xor {} max {:?} min {:?}",
            got.sum, got.xor, got.max, got.min, want.sum, want.xor, want.max, want.min
        )
    }
}

/// Parallel reduction in a pool of `n` threads: result and number of map calls.
pub fn par<R: std::io::Read + Send>(rd: R, n: usize, w: u32, yields: bool) -> (std::result::Result<Acc, String>, u64) {
    let calls = AtomicU64::new(0);
    let r = pool(n).install(|| {
        ElementReader::new(rd).par_map_reduce(
            |e| {
                let k = calls.fetch_add(1, SeqCst);
                if yields && mix(k, 3) % 3 == 0 {
                    std::thread::yield_now();
                }
                Acc::one(&of_elem(&e, w))
            },
            Acc::default,
            Acc::join,
        )
    });
    (r.map_err(|e| ek(&e)), calls.load(SeqCst))
}

fn c09(g: &mut Gen, c: &mut Case) -> R {
    let shape = g.weighted(&[45, 25, 15, 15]);
    let cfg = Cfg {
        max_blobs: if shape == 1 { 40 } else { 8 },
        max_groups: 3,
        max_elems: 6,
        many: if shape == 2 { 4 } else { 60 },
        big: 60,
        big_cap: if shape == 2 { 9000 } else { 1200 },
        ..Cfg::default()
    };
    let broken = g.weighted(&[60, 25, 15]);
    let (f, bytes) = match broken {
        0 => {
            let f = gen_file(g, &cfg);
            let (b, _) = encode_file(&f);
            (f, b)
        }
        1 => {
            let d: Broken = gen_defective(g, &cfg);
            c.label("one defective blob");
            c.note(|| d.what.clone());
            (d.file, d.bytes)
        }
        _ => {
            let f = gen_file(g, &cfg);
            let (mut b, _) = encode_file(&f);
            if !b.is_empty() {
                let n = g.below(b.len());
                b.truncate(n);
            }
            c.label("truncated");
            (f, b)
        }
    };
    let w = *g.pick(&[0, TAGS | REFS | MEMB, POS | INFO | LOCS]);
    let threads = 1 + g.below(8);
    let (fs, fm) = gen_frag(g);
    let yields = g.chance(1, 2);
    c.file(&bytes);
    c.mixkey(threads as u64);
    c.note(|| format!("{threads} threads; {}", show(&f)));
    let bytes = Arc::new(bytes);

    let mut seq = Acc::default();
    let sr = ElementReader::new(plain(&bytes)).for_each(|e| {
        let a = Acc::one(&of_elem(&e, w));
        seq = std::mem::take(&mut seq).join(a);
    });
    let data = f.blocks().filter(|b| b.count() > 0).count();
    c.nontrivial = threads > 1 && (data >= 2 || sr.is_err());
    c.label_if(threads == 1, "one thread");
    c.label_if(threads > 1, "several threads");
    c.label_if(data >= 8, "eight or more data blobs");
    c.label_if(f.blobs.len() >= 100, "100 or more blobs");
    c.label_if(data == 0, "no elements");
    c.label_if(sr.is_err(), "sequential pass fails");

    for round in 0..2 {
        let n = if round == 0 { threads } else { 1 + (threads * 3 + round) % 8 };
        let p = crate::io::plan_yielding(bytes.len(), fs, fm, yields);
        let (r, calls) = par(TestReader::new(&bytes, &p), n, w, yields);
        match (&r, &sr) {
            (Ok(a), Ok(())) => {
                ensure!(*a == seq, "{n} threads: {}", diff(a, &seq));
                ensure!(calls == seq.count, "{n} threads: {calls} map calls for {} elements", seq.count);
            }
            (Ok(a), Err(e)) => bail!(
                "{n} threads: the parallel pass succeeds ({} elements) where the sequential pass fails with {}",
                a.count,
                ek(e)
            ),
            (Err(e), Ok(())) => bail!("{n} threads: the parallel pass fails with {e} where the sequential pass succeeds"),
            (Err(_), Err(_)) => {}
        }
    }
    if broken == 0 {
        let e = exp_file(&f, w);
        let n: usize = e.iter().map(Vec::len).sum();
        ensure!(sr.is_ok(), "reading a conforming file failed: {:?}", sr.map_err(|e| ek(&e)));
        ensure!(seq.count == n as u64, "{} elements instead of {n}", seq.count);
    }
    // a value that is not the elements' own: the identity may appear anywhere
    if seq.count < 500 {
        let (_, calls) = par(plain(&bytes), 3, 0, false);
        if sr.is_ok() {
            ensure!(calls == seq.count, "3 threads: {calls} map calls for {} elements", seq.count);
        }
    }
    Ok(())
}

pub static C09: Prop = Prop {
    id: "C09",
    run: c09,
    pinned: &[
        ("70,003 blobs in parallel", super::large::blobs_parallel),
        ("140,006 elements in a blob in parallel", super::large::dense_parallel),
    ],
    rule: "random files (conforming; with one defective blob; truncated) reduced with par_map_reduce in pools of 1 to 8 threads, reading through fragmenting, yielding readers, into a commutative monoid holding count, sum, xor, extremes and the multiset of all observed elements; oracle: the same reduction over the sequential pass (fails iff it fails; equal value; one map call per element). Non-trivial: more than one thread and at least two data blobs with elements, or a failing file.",
    quick: 15_000,
    thorough: 500_000,
    workers: 4,
    fuzz: (0, 0),
};
