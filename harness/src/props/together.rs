//! C24: several readers, blobs and blocks in use at the same time, on one
//! thread (interleaved, nested in each other's callbacks) and on several.

use super::access::map_file;
use super::content::show;
use super::indexed::{cfg12, check_op, gen_filter, perform, Filt, Op};
use crate::case::{Case, Tmp, R};
use crate::driver::Prop;
use crate::gen::{mix, Gen};
use crate::io::plain;
use crate::model::*;
use crate::obs::*;
use osmpbf::*;
use std::io::Cursor;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier};

struct OneFile {
    f: FileM,
    bytes: Arc<Vec<u8>>,
    spans: Vec<Span>,
    exp: Vec<Vec<Elem>>,
    flt: Filt,
    map: Option<(Tmp, Mmap)>,
}

struct World {
    files: Vec<OneFile>,
    /// (file, index, blob)
    blobs: Vec<(usize, usize, Blob)>,
    blocks: Vec<(usize, usize, PrimitiveBlock)>,
}

fn res<T>(what: &str, r: osmpbf::Result<T>) -> std::result::Result<T, String> {
    r.map_err(|e| format!("{what}: {}", ek(&e)))
}

impl World {
    fn blk(&self, k: usize) -> (&BlockM, &PrimitiveBlock) {
        let (f, i, b) = &self.blocks[k];
        (self.files[*f].f.blobs[*i].block().expect("harness: not a data blob"), b)
    }

    fn decode(&self, c: u64) -> R {
        if self.blobs.is_empty() {
            return Ok(());
        }
        let (f, i, b) = &self.blobs[c as usize % self.blobs.len()];
        let m = &self.files[*f].f.blobs[*i];
        ensure!(b.get_type().as_str() == m.type_name(), "blob {i} of file {f} has type {:?}", b.get_type());
        check_dec(&of_decode(b.decode(), ALL), m, ALL).map_err(|e| format!("blob {i} of file {f}: {e}"))
    }

    /// A path holds one file after another: each time it is opened, what it
    /// holds then is what counts.
    fn replaced(&self, c: u64, fl: &OneFile) -> R {
        let mut next = FileM {
            blobs: fl.f.blobs.clone(),
        };
        // as long as before, or another file
        match mix(c, 20) % 3 {
            0 => next.blobs.reverse(),
            1 if !next.blobs.is_empty() => next.blobs.rotate_left(1),
            1 => {}
            _ => next = self.files[mix(c, 21) as usize % self.files.len()].f.clone(),
        }
        let bytes = encode_file(&next).0;
        let t = Tmp::new(&fl.bytes);
        let how = mix(c, 22) % 5;
        let read = |f: &FileM, what: &str| -> R {
            let e = |e: Error| format!("{what}: {}", ek(&e));
            let seq = |v: Vec<Elem>| compare_seq(&v, &exp_file(f, ALL)).map_err(|x| format!("{what}: {x}"));
            let blobs = |i: usize, d: osmpbf::Result<BlobDecode<'_>>| -> R {
                ensure!(i < f.blobs.len(), "{what}: more blobs than stored");
                check_dec(&of_decode(d, ALL), &f.blobs[i], ALL).map_err(|x| format!("{what}: blob {i}: {x}"))
            };
            let mut n = 0;
            match how {
                0 => {
                    let mut v = vec![];
                    ElementReader::from_path(&t.0).and_then(|r| r.for_each(|e| v.push(of_elem(&e, ALL)))).map_err(e)?;
                    return seq(v);
                }
                1 => {
                    let mut ix = IndexedReader::from_path(&t.0).map_err(e)?;
                    for op in [Op::Nodes, Op::Query(fl.flt.clone())] {
                        let s = perform(&mut ix, &op);
                        ensure!(s.end.is_none(), "{what}: {} fails with {:?}", op.name(), s.end);
                        check_op(f, &op, &s).map_err(|e| format!("{what}: {}: {e}", op.name()))?;
                    }
                    return Ok(());
                }
                2 => {
                    for b in BlobReader::from_path(&t.0).map_err(e)? {
                        blobs(n, b.map_err(e)?.decode())?;
                        n += 1;
                    }
                }
                3 => {
                    for b in BlobReader::seekable_from_path(&t.0).map_err(e)? {
                        blobs(n, b.map_err(e)?.decode())?;
                        n += 1;
                    }
                }
                _ => {
                    let m = map_file(&t)?;
                    for b in m.blob_iter() {
                        blobs(n, b.map_err(e)?.decode())?;
                        n += 1;
                    }
                }
            }
            ensure!(n == f.blobs.len(), "{what}: {n} blobs instead of {}", f.blobs.len());
            Ok(())
        };
        read(&fl.f, "a path, first")?;
        if mix(c, 23) % 2 == 0 {
            std::fs::write(&t.0, &bytes).expect("harness: scratch write failed");
            return read(&next, "a path whose file was overwritten");
        }
        let held = map_file(&t)?;
        let e = |e: Error| format!("opening a path: {}", ek(&e));
        let el = ElementReader::from_path(&t.0).map_err(e)?;
        let mut ix = IndexedReader::from_path(&t.0).map_err(e)?;
        let mut sk = BlobReader::seekable_from_path(&t.0).map_err(e)?;
        let first = sk.next().transpose().map_err(e)?;
        let other = Tmp::new(&bytes);
        std::fs::rename(&other.0, &t.0).expect("harness: scratch rename failed");
        read(&next, "a path whose file was replaced")?;
        if mix(c, 24) % 3 == 0 {
            std::fs::remove_file(&t.0).expect("harness: scratch removal failed");
        }
        // what was opened before still reads the file that it was opened on
        let what = "a reader of a replaced file";
        let e = |e: Error| format!("{what}: {}", ek(&e));
        match mix(c, 25) % 4 {
            0 => {
                let mut v = vec![];
                el.for_each(|e| v.push(of_elem(&e, ALL))).map_err(e)?;
                compare_seq(&v, &exp_file(&fl.f, ALL)).map_err(|x| format!("{what}: {x}"))?;
            }
            1 => {
                let n = el.par_map_reduce(|_| 1usize, || 0, |a, b| a + b).map_err(e)?;
                ensure!(n == fl.f.count(), "{what}: {n} elements in parallel instead of {}", fl.f.count());
            }
            2 => {
                let op = if mix(c, 26) % 2 == 0 { Op::Nodes } else { Op::Query(fl.flt.clone()) };
                let s = perform(&mut ix, &op);
                ensure!(s.end.is_none(), "{what}: {} fails with {:?}", op.name(), s.end);
                check_op(&fl.f, &op, &s).map_err(|e| format!("{what}: {}: {e}", op.name()))?;
            }
            _ => {
                let mut n = 0;
                for b in first.into_iter().map(Ok).chain(sk.by_ref()) {
                    let b = b.map_err(e)?;
                    ensure!(n < fl.f.blobs.len(), "{what}: more blobs than stored");
                    check_dec(&of_decode(b.decode(), ALL), &fl.f.blobs[n], ALL).map_err(|x| format!("{what}: blob {n}: {x}"))?;
                    n += 1;
                }
                ensure!(n == fl.f.blobs.len(), "{what}: {n} blobs instead of {}", fl.f.blobs.len());
                if n > 0 {
                    let b = sk.blob_from_offset(ByteOffset(0)).map_err(e)?;
                    check_dec(&of_decode(b.decode(), ALL), &fl.f.blobs[0], ALL).map_err(|x| format!("{what}: first blob again: {x}"))?;
                }
            }
        }
        // the map still shows the file that it was made of
        for (i, b) in held.blob_iter().enumerate() {
            let b = res("a map of a replaced file", b)?;
            check_dec(&of_decode(b.decode(), 0), &fl.f.blobs[i], 0).map_err(|e| format!("a map of a replaced file: blob {i}: {e}"))?;
        }
        Ok(())
    }

    /// One action; nested ones run inside its callbacks.
    fn act(&self, c: u64, depth: u32) -> R {
        let r = mix(c, 77);
        let file = (r % self.files.len() as u64) as usize;
        let fl = &self.files[file];
        let sub = |k: u64| mix(c, 1000 + k);
        let kinds = if depth >= 2 { 4 } else { 12 };
        let kind = mix(c, 5) % kinds;
        (match kind {
            0 => self.decode(r >> 8),
            1 if !self.blocks.is_empty() => {
                // two blocks element by element in turn
                let (m, a) = self.blk((r >> 8) as usize % self.blocks.len());
                let (n, b) = self.blk((r >> 24) as usize % self.blocks.len());
                let (mut x, mut y) = (vec![], vec![]);
                let (mut i, mut j) = (a.elements(), b.elements());
                let mut k = 0;
                loop {
                    k += 1;
                    let (p, q) = if mix(c, k) % 3 == 0 { (i.next(), None) } else { (i.next(), j.next()) };
                    if p.is_none() && q.is_none() {
                        break;
                    }
                    // look at them only when both are at hand
                    y.extend(q.iter().map(|e| of_elem(e, ALL)));
                    x.extend(p.iter().map(|e| of_elem(e, ALL)));
                }
                y.extend(j.map(|e| of_elem(&e, ALL)));
                x.extend(i.map(|e| of_elem(&e, ALL)));
                compare_seq(&x, &exp_blocks(std::iter::once(m), ALL)).map_err(|e| format!("first of two blocks in turn: {e}"))?;
                compare_seq(&y, &exp_blocks(std::iter::once(n), ALL)).map_err(|e| format!("second of two blocks in turn: {e}"))
            }
            2 => {
                let (v, r) = seq_read(Cursor::new(&fl.bytes[..]), ALL);
                r.map_err(|e| format!("file {file}: {e}"))?;
                compare_seq(&v, &fl.exp).map_err(|e| format!("file {file}: {e}"))
            }
            3 => match &fl.map {
                Some((_, m)) => {
                    let mut n = 0;
                    for (i, b) in m.blob_iter().enumerate() {
                        let b = res("memory map", b)?;
                        ensure!(b.offset() == ByteOffset(fl.spans[i].start as u64), "memory map: blob {i} at {:?}", b.offset());
                        check_dec(&of_decode(b.decode(), ALL), &fl.f.blobs[i], ALL).map_err(|e| format!("memory map, blob {i} of file {file}: {e}"))?;
                        n += 1;
                    }
                    ensure!(n == fl.f.blobs.len(), "memory map: {n} blobs instead of {}", fl.f.blobs.len());
                    Ok(())
                }
                None => self.decode(r >> 8),
            },
            4 => {
                // something else inside the callback
                let (mut v, mut k, mut bad) = (vec![], 0u64, Ok(()));
                let at = r >> 16;
                let q = ElementReader::new(Cursor::new(&fl.bytes[..])).for_each(|e| {
                    if k == at % 5 && bad.is_ok() {
                        bad = self.act(sub(1), depth + 1).map_err(|e| format!("inside an element callback: {e}"));
                    }
                    k += 1;
                    v.push(of_elem(&e, ALL));
                });
                bad?;
                res("around another operation", q)?;
                compare_seq(&v, &fl.exp).map_err(|e| format!("file {file} around another operation: {e}"))
            }
            5 => {
                let mut ix = res("index", IndexedReader::new(Cursor::new(&fl.bytes[..])))?;
                let op = Op::Query(fl.flt.clone());
                for _ in 0..2 {
                    let s = perform(&mut ix, &op);
                    ensure!(s.end.is_none(), "{} fails with {:?}", op.name(), s.end);
                    check_op(&fl.f, &op, &s).map_err(|e| format!("{}: {e}", op.name()))?;
                    self.decode(sub(2))?;
                }
                // and inside the filter
                let (mut ids, mut bad) = (vec![], Ok(()));
                let q = ix.read_ways_and_deps(
                    |x| {
                        ids.push(x.id());
                        if ids.len() == 1 {
                            bad = self.act(sub(3), depth + 1);
                        }
                        false
                    },
                    |_| (),
                );
                bad.map_err(|e| format!("inside a filter: {e}"))?;
                res("query around another operation", q)?;
                ids.sort_unstable();
                let mut exp: Vec<i64> = fl.f.blocks().flat_map(|b| b.groups.iter().flat_map(|g| g.ways.iter().map(|w| w.id))).collect();
                exp.sort_unstable();
                ensure!(ids == exp, "filter consulted for {} ways instead of {}", ids.len(), exp.len());
                Ok(())
            }
            6 => {
                // two stream readers in turn
                let f2 = &self.files[(r >> 8) as usize % self.files.len()];
                let mut a = BlobReader::new(Cursor::new(&fl.bytes[..]));
                let mut b = res("seekable", BlobReader::new_seekable(Cursor::new(&f2.bytes[..])))?;
                let (mut i, mut j) = (0, 0);
                while i <= fl.f.blobs.len() || j <= f2.f.blobs.len() {
                    if (mix(c, (i * 31 + j) as u64) % 2 == 0 || j > f2.f.blobs.len()) && i <= fl.f.blobs.len() {
                        let x = a.next();
                        ensure!(x.is_some() == (i < fl.f.blobs.len()), "readers in turn: blob {i} of file {file}");
                        if let Some(x) = x {
                            check_dec(&of_decode(res("readers in turn", x)?.decode(), 0), &fl.f.blobs[i], 0).map_err(|e| format!("readers in turn: blob {i}: {e}"))?;
                        }
                        i += 1;
                    } else {
                        let x = b.next_header_skip_blob();
                        ensure!(x.is_some() == (j < f2.f.blobs.len()), "readers in turn: skipped blob {j}");
                        if let Some(x) = x {
                            let x = res("readers in turn", x)?;
                            ensure!(x.0.blob_type().as_str() == f2.f.blobs[j].type_name(), "readers in turn: skipped blob {j} has type {:?}", x.0.blob_type());
                            ensure!(x.1 == Some(ByteOffset(f2.spans[j].start as u64)), "readers in turn: skipped blob {j} at {:?}", x.1);
                        }
                        j += 1;
                    }
                }
                Ok(())
            }
            7 if !self.blocks.is_empty() => {
                // elements held while something else happens
                let (m, a) = self.blk((r >> 8) as usize % self.blocks.len());
                let held: Vec<Element<'_>> = a.elements().collect();
                let groups: Vec<PrimitiveGroup<'_>> = a.groups().collect();
                self.act(sub(4), depth + 1).map_err(|e| format!("while elements are held: {e}"))?;
                let mut v: Vec<Elem> = held.iter().rev().map(|e| of_elem(e, ALL)).collect();
                v.reverse();
                compare_seq(&v, &exp_blocks(std::iter::once(m), ALL)).map_err(|e| format!("held elements: {e}"))?;
                for (k, (x, y)) in groups.iter().zip(&m.groups).enumerate() {
                    compare_seq(&group_elems(x, ALL), &[exp_group(m, y, ALL)]).map_err(|e| format!("held group {k}: {e}"))?;
                }
                Ok(())
            }
            8 if depth == 0 => {
                let bad: AtomicU64 = AtomicU64::new(0);
                let msg = std::sync::Mutex::new(String::new());
                let n = super::parallel::pool(2 + (r % 3) as usize).install(|| {
                    ElementReader::new(Cursor::new(&fl.bytes[..])).par_map_reduce(
                        |e| {
                            let h = hash_elem(&of_elem(&e, ALL));
                            if h % 7 == 0 {
                                if let Err(e) = self.act(mix(h, c), 2) {
                                    bad.fetch_add(1, SeqCst);
                                    *msg.lock().unwrap() = e;
                                }
                            }
                            (1u64, h)
                        },
                        || (0, 0),
                        |a, b| (a.0 + b.0, a.1.wrapping_add(b.1)),
                    )
                });
                ensure!(bad.load(SeqCst) == 0, "inside a map operation: {}", msg.lock().unwrap());
                let n = res("parallel around other operations", n)?;
                let e: (u64, u64) = fl.exp.iter().flatten().fold((0, 0), |a, x| (a.0 + 1, a.1.wrapping_add(hash_elem(x))));
                ensure!(n.0 == e.0, "parallel around other operations: {} elements instead of {}", n.0, e.0);
                Ok(())
            }
            9 if !self.blobs.is_empty() => {
                // a fresh decoding compared with one that is dropped first
                let (f, i, b) = &self.blobs[(r >> 8) as usize % self.blobs.len()];
                let m = &self.files[*f].f.blobs[*i];
                for k in 0..3 {
                    let x = b.clone();
                    let d = of_decode(x.decode(), if k == 1 { 0 } else { ALL });
                    drop(x);
                    check_dec(&d, m, if k == 1 { 0 } else { ALL }).map_err(|e| format!("decoding {k} of blob {i} of file {f}: {e}"))?;
                    self.decode(sub(5 + k))?;
                }
                Ok(())
            }
            10 => {
                // an operation given up half way, by a panic or by dropping it
                let total: usize = fl.exp.iter().map(Vec::len).sum();
                let at = (r >> 8) % (total as u64 + 1);
                match (r >> 40) % 5 {
                    0 => {
                        let mut k = 0;
                        let q = given_up(at, || ElementReader::new(Cursor::new(&fl.bytes[..])).for_each(|_| stop(&mut k, at)))?;
                        ensure!(q == (at < total as u64), "a panic in an element callback does not reach the caller");
                    }
                    1 | 2 => {
                        let mut ix = res("index", IndexedReader::new(Cursor::new(&fl.bytes[..])))?;
                        let op = Op::Query(fl.flt.clone());
                        if r >> 44 & 1 == 0 {
                            let s = perform(&mut ix, &op);
                            check_op(&fl.f, &op, &s).map_err(|e| format!("{}: {e}", op.name()))?;
                        }
                        let mut k = 0;
                        let _ = match (r >> 45) % 3 {
                            0 => given_up(at, || ix.for_each_node(|_| stop(&mut k, at)))?,
                            1 => given_up(at, || {
                                ix.read_ways_and_deps(
                                    |_| {
                                        stop(&mut k, at);
                                        true
                                    },
                                    |_| (),
                                )
                            })?,
                            _ => given_up(at, || ix.read_ways_and_deps(|_| true, |_| stop(&mut k, at)))?,
                        };
                        // the reader is as good as new
                        for op in [&op, &Op::Nodes, &op] {
                            let s = perform(&mut ix, op);
                            ensure!(s.end.is_none(), "after a panic in a callback, {} fails with {:?}", op.name(), s.end);
                            check_op(&fl.f, op, &s).map_err(|e| format!("after a panic in a callback, {}: {e}", op.name()))?;
                        }
                    }
                    3 if depth == 0 => {
                        let k = AtomicU64::new(0);
                        let q = super::parallel::pool(1 + (r % 3) as usize).install(|| {
                            given_up(at, || {
                                ElementReader::new(Cursor::new(&fl.bytes[..])).par_map_reduce(
                                    |_| stop(&mut k.fetch_add(1, SeqCst), at),
                                    || (),
                                    |(), ()| (),
                                )
                            })
                        })?;
                        ensure!(q == (at < total as u64), "a panic in a map operation does not reach the caller");
                    }
                    _ => {
                        let mut rd = res("seekable", BlobReader::new_seekable(Cursor::new(&fl.bytes[..])))?;
                        for b in rd.by_ref().take((at % (fl.f.blobs.len() as u64 + 1)) as usize) {
                            let b = res("a reader that is dropped", b)?;
                            if let Ok(BlobDecode::OsmData(x)) = b.decode() {
                                for (k, e) in x.elements().enumerate() {
                                    if k as u64 == at {
                                        std::mem::forget(e);
                                        break;
                                    }
                                }
                            }
                        }
                        drop(rd);
                    }
                }
                self.act(sub(9), depth + 1).map_err(|e| format!("after an operation given up half way: {e}"))
            }
            11 if depth == 0 || r >> 50 & 1 == 0 => self.replaced(c, fl),
            _ => self.decode(r >> 8),
        })
        .map_err(|e: String| if depth == 0 { format!("action kind {kind}: {e}") } else { e })
    }
}

struct GivenUp(u64);

/// Panics the `at`th time, without a message.
fn stop(k: &mut u64, at: u64) {
    *k += 1;
    if *k == at + 1 {
        std::panic::resume_unwind(Box::new(GivenUp(at)));
    }
}

/// Whether `f` was ended by the panic of `stop`, which must come through as it is.
fn given_up<T>(at: u64, f: impl FnOnce() -> osmpbf::Result<T>) -> std::result::Result<bool, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(Ok(_)) => Ok(false),
        Ok(Err(e)) => Err(format!("an operation with a panic in its callback returns {}", ek(&e))),
        Err(p) => match p.downcast::<GivenUp>() {
            Ok(p) if p.0 == at => Ok(true),
            Ok(_) => Err("the panic of another callback comes through".to_string()),
            Err(p) => std::panic::resume_unwind(p),
        },
    }
}

fn c24(g: &mut Gen, c: &mut Case) -> R {
    let mut cfg = cfg12(g);
    cfg.max_blobs = 4;
    cfg.max_groups = 3;
    cfg.max_elems = 5;
    cfg.big_cap = 300;
    cfg.many = 0;
    cfg.info = true;
    cfg.kinds = [20, 25, 20, 20, 4, 8];
    let mut wd = World {
        files: vec![],
        blobs: vec![],
        blocks: vec![],
    };
    for _ in 0..1 + g.below(3) {
        g.open();
        let f = gen_file(g, &cfg);
        let flt = gen_filter(g, &f);
        let mapped = g.chance(1, 3);
        g.close();
        let (b, spans) = encode_file(&f);
        c.mixkey(crate::gen::hash_bytes(&b));
        c.note(|| show(&f));
        let map = if mapped && !b.is_empty() {
            let t = Tmp::new(&b);
            let m = map_file(&t)?;
            Some((t, m))
        } else {
            None
        };
        let bytes = Arc::new(b);
        let k = wd.files.len();
        for (i, x) in BlobReader::new(plain(&bytes)).enumerate() {
            let x = res("reading blobs", x)?;
            ensure!(i < f.blobs.len(), "more blobs than stored");
            if f.blobs[i].is_data() {
                wd.blocks.push((k, i, res("decoding", x.to_primitiveblock())?));
            }
            wd.blobs.push((k, i, x));
        }
        wd.files.push(OneFile {
            exp: exp_file(&f, ALL),
            f,
            bytes,
            spans,
            flt,
            map,
        });
    }
    let threads = *g.pick(&[1usize, 1, 1, 2, 3, 4]);
    let plans: Vec<Vec<u64>> = (0..threads)
        .map(|_| {
            let n = 1 + g.below(8);
            (0..n).map(|_| g.draw(1 << 32)).collect()
        })
        .collect();
    c.nontrivial = wd.files.iter().map(|f| f.f.count()).sum::<usize>() > 1 && plans.iter().map(Vec::len).sum::<usize>() > 1;
    c.label_if(threads > 1, "several threads");
    c.label_if(threads == 1, "one thread");
    c.label_if(wd.files.len() > 1, "several files");
    c.mixkey(plans.iter().flatten().fold(threads as u64, |a, x| mix(a, *x)));
    c.note(|| format!("{threads} threads, actions {plans:?}"));
    if threads == 1 {
        for a in &plans[0] {
            wd.act(*a, 0)?;
        }
        return Ok(());
    }
    thread_safety()?;
    let start = Barrier::new(threads);
    let rs: Vec<std::thread::Result<R>> = std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .enumerate()
            .map(|(t, p)| {
                let (wd, start) = (Shared(&wd), &start);
                s.spawn(move || {
                    let wd = wd.get();
                    set_style(mix(t as u64, p[0]));
                    start.wait();
                    let r = p.iter().try_for_each(|a| wd.act(*a, 0).map_err(|e| format!("thread {t} of {threads}: {e}")));
                    guard::flush();
                    r
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    for r in rs {
        match r {
            Ok(r) => r?,
            Err(p) => std::panic::resume_unwind(p),
        }
    }
    Ok(())
}

/// Lets the harness compile, and say so, if a type stops being thread safe.
struct Shared<'a>(&'a World);
unsafe impl Send for Shared<'_> {}

impl<'a> Shared<'a> {
    fn get(self) -> &'a World {
        self.0
    }
}

struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait NotSafe {
    fn thread_safe(&self) -> bool {
        false
    }
}
impl<T: ?Sized> NotSafe for &Probe<T> {}
impl<T: ?Sized + Send + Sync> Probe<T> {
    fn thread_safe(&self) -> bool {
        true
    }
}

/// Everything the library hands out can be sent to and shared with other threads.
fn thread_safety() -> R {
    macro_rules! safe {
        ($($t:ty),* $(,)?) => {
            $(ensure!((&Probe::<$t>(std::marker::PhantomData)).thread_safe(), "{} cannot be sent to or shared with other threads", stringify!($t));)*
        };
    }
    type File<'a> = std::io::Cursor<&'a [u8]>;
    safe!(
        BlobReader<File<'static>>,
        ElementReader<File<'static>>,
        IndexedReader<File<'static>>,
        Blob,
        BlobHeader,
        BlobType<'static>,
        BlobDecode<'static>,
        Mmap,
        MmapBlob<'static>,
        MmapBlobReader<'static>,
        HeaderBlock,
        PrimitiveBlock,
        PrimitiveGroup<'static>,
        BlockElementsIter<'static>,
        GroupIter<'static>,
        GroupNodeIter<'static>,
        GroupWayIter<'static>,
        GroupRelationIter<'static>,
        DenseNodeIter<'static>,
        Element<'static>,
        Node<'static>,
        DenseNode<'static>,
        DenseNodeInfo<'static>,
        Way<'static>,
        Relation<'static>,
        Info<'static>,
        RelMember<'static>,
        RelMemberIter<'static>,
        TagIter<'static>,
        RawTagIter<'static>,
        DenseTagIter<'static>,
        DenseRawTagIter<'static>,
        WayRefIter<'static>,
        WayNodeLocationsIter<'static>,
        Error,
    );
    Ok(())
}

/// Thousands of readers, maps and blocks held at the same time.
fn held(c: &mut Case) -> R {
    let f = FileM {
        blobs: (0..4i64)
            .map(|k| {
                let mut b = BlobM::new(Kind::Data(BlockM {
                    strings: vec![vec![], b"k".to_vec(), format!("v{k}").into_bytes()],
                    groups: vec![GroupM {
                        nodes: (0..3).map(|i| NodeM { id: 10 * k + i, lat: k, lon: i, tags: vec![(1, 2)], ..NodeM::default() }).collect(),
                        ..GroupM::default()
                    }],
                    ..BlockM::default()
                }));
                b.pay = if k % 2 == 0 { Pay::Zlib(6) } else { Pay::Raw };
                b
            })
            .collect(),
    };
    let (bytes, spans) = encode_file(&f);
    c.file(&bytes);
    c.nontrivial = true;
    let t = Tmp::new(&bytes);
    let bytes = Arc::new(bytes);
    let mut maps = vec![];
    for k in 0..400 {
        maps.push(if k % 2 == 0 { res("a further memory map", unsafe { Mmap::from_path(&t.0) })? } else { map_file(&t)? });
    }
    let mut plainly = vec![];
    let mut seekable = vec![];
    let mut indexed = vec![];
    let mut memory = vec![];
    let mut elements = vec![];
    for _ in 0..150 {
        plainly.push(res("a further reader", BlobReader::from_path(&t.0))?);
        seekable.push(res("a further seekable reader", BlobReader::seekable_from_path(&t.0))?);
        indexed.push(res("a further indexed reader", IndexedReader::from_path(&t.0))?);
        elements.push(res("a further element reader", ElementReader::from_path(&t.0))?);
    }
    for _ in 0..3000 {
        memory.push(res("a further reader in memory", BlobReader::new_seekable(plain(&bytes)))?);
    }
    let mut readers: Vec<MmapBlobReader> = maps.iter().map(|m| m.blob_iter()).collect();
    let mut blocks = vec![];
    let check = |what: &str, k: usize, b: Option<osmpbf::Result<Blob>>, blocks: &mut Vec<(usize, PrimitiveBlock)>| -> R {
        let Some(b) = b else { bail!("{what}: ends at blob {k}") };
        let b = res(what, b)?;
        check_dec(&of_decode(b.decode(), ALL), &f.blobs[k], ALL).map_err(|e| format!("{what}: blob {k}: {e}"))?;
        blocks.push((k, res(what, b.to_primitiveblock())?));
        Ok(())
    };
    let mut mapped = vec![];
    for k in 0..f.blobs.len() {
        for (i, r) in readers.iter_mut().enumerate() {
            let Some(b) = r.next() else { bail!("memory map {i} of 400 ends at blob {k}") };
            let b = res("a map of many", b)?;
            ensure!(b.offset().0 == spans[k].start as u64, "memory map {i}: blob {k} is at {:?}", b.offset());
            mapped.push((k, b));
        }
        for r in &mut plainly {
            check("a reader of many", k, r.next(), &mut blocks)?;
        }
        for r in &mut seekable {
            check("a seekable reader of many", k, r.next(), &mut blocks)?;
        }
        for r in &mut memory {
            check("a reader in memory of many", k, r.next(), &mut blocks)?;
        }
    }
    for (k, b) in &mapped {
        check_dec(&of_decode(b.decode(), ALL), &f.blobs[*k], ALL).map_err(|e| format!("mapped blob {k} of many: {e}"))?;
    }
    let exp = exp_file(&f, ALL);
    for (k, b) in &blocks {
        let v: Vec<Elem> = b.elements().map(|e| of_elem(&e, ALL)).collect();
        compare_seq(&v, &exp[*k..*k + 1]).map_err(|e| format!("block {k} of many: {e}"))?;
    }
    for mut ix in indexed {
        let mut n = 0;
        res("an indexed reader of many", ix.for_each_node(|_| n += 1))?;
        ensure!(n == 12, "an indexed reader of many delivers {n} nodes, stored 12");
    }
    for r in elements {
        let mut n = 0;
        res("an element reader of many", r.for_each(|_| n += 1))?;
        ensure!(n == 12, "an element reader of many delivers {n} elements, stored 12");
    }
    Ok(())
}

pub static C24: Prop = Prop {
    id: "C24",
    run: c24,
    pinned: &[("thousands of readers held", held)],
    rule: "one to three random conforming files whose readers, blobs, blocks, elements and memory maps are used interleaved, nested in each other's callbacks (elements, filters, map operations) and from one to four threads sharing them, following a generated list of actions, some of which are given up half way by a panic in a callback, or read files that replace one another under one path; oracle: every action must deliver what the models hold, as if it ran alone. Non-trivial: at least two elements and two actions.",
    quick: 30_000,
    thorough: 1_000_000,
    workers: 6,
    fuzz: (0, 0),
};
