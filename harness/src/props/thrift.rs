//! C25: how much of a file each operation reads.

use crate::case::{Case, R};
use crate::driver::Prop;
use crate::gen::{hash_bytes, mix, Gen};
use crate::io::gen_frag;
use crate::model::*;
use crate::obs::*;
use crate::props::content::show;
use crate::props::indexed::{cfg12, check_op, gen_filter, perform, Op};
use osmpbf::*;
use std::collections::BTreeSet;
use std::io::{Read, Result as IoResult, Seek, SeekFrom};
use std::sync::{Arc, Mutex};

/// What a reader may read ahead per blob without being charged for it.
const SLACK: u64 = 64 << 10;

/// A reader which records what is read from it.
#[derive(Clone)]
struct Watch {
    data: Arc<Vec<u8>>,
    pos: u64,
    frag: (u64, u64),
    log: Arc<Mutex<Vec<(u64, u64)>>>,
    n: u64,
}

impl Read for Watch {
    fn read(&mut self, b: &mut [u8]) -> IoResult<usize> {
        let rest = (self.data.len() as u64).saturating_sub(self.pos) as usize;
        let mut n = b.len().min(rest);
        self.n += 1;
        if n == 0 {
            return Ok(0);
        }
        if self.frag.1 > 0 {
            n = n.min(256 + (mix(self.frag.0, self.n) % self.frag.1) as usize);
        }
        let at = self.pos as usize;
        b[..n].copy_from_slice(&self.data[at..at + n]);
        self.pos += n as u64;
        self.log.lock().expect("harness: lock").push((at as u64, self.pos));
        Ok(n)
    }
}

impl Seek for Watch {
    fn seek(&mut self, to: SeekFrom) -> IoResult<u64> {
        let t = match to {
            SeekFrom::Start(x) => i128::from(x),
            SeekFrom::End(d) => self.data.len() as i128 + i128::from(d),
            SeekFrom::Current(d) => i128::from(self.pos) + i128::from(d),
        };
        self.pos = u64::try_from(t).map_err(|_| std::io::Error::from(std::io::ErrorKind::InvalidInput))?;
        Ok(self.pos)
    }
}

struct Meter {
    spans: Vec<Span>,
    log: Arc<Mutex<Vec<(u64, u64)>>>,
}

impl Meter {
    /// How much of each blob's payload has been read since the last time.
    fn take(&self) -> Vec<u64> {
        let l = std::mem::take(&mut *self.log.lock().expect("harness: lock"));
        self.spans
            .iter()
            .map(|s| {
                l.iter()
                    .map(|&(a, b)| b.min(s.end as u64).saturating_sub(a.max(s.data as u64)))
                    .sum()
            })
            .collect()
    }
    /// Has no payload been read more often than allowed?
    fn check(&self, what: &str, allowed: &dyn Fn(usize) -> u64) -> R {
        for (i, n) in self.take().into_iter().enumerate() {
            let len = (self.spans[i].end - self.spans[i].data) as u64;
            let k = allowed(i);
            ensure!(
                n <= k * len + SLACK,
                "{what} reads {n} bytes of the data of blob {i} ({len} bytes), which it needs {k} times"
            );
        }
        Ok(())
    }
}

/// Bytes that do not compress.
fn junk(n: usize, seed: u64) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 8);
    let mut i = 0;
    while v.len() < n {
        v.extend_from_slice(&mix(seed, i).to_le_bytes());
        i += 1;
    }
    v.truncate(n);
    v
}

/// Add so much to most blobs that reading them shows.
fn fatten(g: &mut Gen, f: &mut FileM) {
    for b in &mut f.blobs {
        if matches!(b.pay, Pay::Other(_) | Pay::Missing) {
            b.pay = Pay::Raw;
        }
        if let Pay::Zlib(l) = &mut b.pay {
            *l = (*l).min(1);
        }
        g.open();
        if g.chance(9, 10) {
            let n = *g.pick(&[80_000, 100_000, 140_000]) + g.below(1000);
            let seed = g.draw(1000);
            match &mut b.kind {
                Kind::Data(x) => {
                    if x.strings.is_empty() {
                        x.strings.push(vec![]);
                    }
                    x.strings.push(junk(n, seed));
                }
                Kind::Header(h) => h.optional.push("x".repeat(n)),
                Kind::Unknown(_, d) => *d = junk(n, seed),
            }
            if matches!(b.kind, Kind::Header(_)) {
                b.pay = Pay::Raw;
            }
        }
        g.close();
    }
}

fn node_ids(b: &BlockM) -> Vec<i64> {
    b.groups
        .iter()
        .flat_map(|x| {
            x.nodes
                .iter()
                .map(|n| n.id)
                .chain(x.dense.iter().flat_map(|d| d.nodes.iter().map(|n| n.id)))
        })
        .collect()
}

/// Histories of index operations.
fn by_index(g: &mut Gen, c: &mut Case, f: &FileM, m: &Meter, rd: Watch) -> R {
    let mut ix = IndexedReader::new(rd).map_err(|e| format!("creating the reader failed: {}", ek(&e)))?;
    m.check("creating an indexed reader", &|_| 0)?;
    let blocks: Vec<Option<&BlockM>> = f.blobs.iter().map(BlobM::block).collect();
    let ranges: Vec<Option<(i64, i64)>> = blocks
        .iter()
        .map(|b| {
            let ids = node_ids((*b)?);
            Some((*ids.iter().min()?, *ids.iter().max()?))
        })
        .collect();
    let has_ways: Vec<bool> = blocks.iter().map(|b| b.is_some_and(|b| b.groups.iter().any(|x| !x.ways.is_empty()))).collect();
    let mut known = vec![false; blocks.len()];
    let n = 1 + g.below(5);
    let mut trace = vec![];
    for _ in 0..n {
        g.open();
        let op = match g.weighted(&[16, 40, 44]) {
            0 => Op::Create,
            1 => Op::Nodes,
            _ => Op::Query(gen_filter(g, f)),
        };
        g.close();
        c.mixkey(hash_bytes(op.name().as_bytes()));
        let s = perform(&mut ix, &op);
        trace.push(op.name());
        let what = trace.join(", then ");
        ensure!(s.end.is_none(), "{what} on a conforming file failed with {:?}", s.end);
        check_op(f, &op, &s).map_err(|e| format!("{what}: {e}"))?;
        let mut allowed = vec![0; blocks.len()];
        match &op {
            Op::Create => {}
            Op::Nodes => {
                for i in 0..blocks.len() {
                    if blocks[i].is_some() && (!known[i] || ranges[i].is_some()) {
                        allowed[i] = 1;
                        known[i] = true;
                    }
                }
            }
            Op::Query(_) => {
                let refs: BTreeSet<i64> = s.out.iter().filter(|e| e.kind == EK::Way).flat_map(|e| e.refs.iter().copied()).collect();
                for i in 0..blocks.len() {
                    if blocks[i].is_some() && (!known[i] || has_ways[i]) {
                        allowed[i] += 1;
                        known[i] = true;
                    }
                    if let Some((a, b)) = ranges[i] {
                        if refs.range(a..=b).next().is_some() {
                            allowed[i] += 1;
                        }
                    }
                }
            }
        }
        let spared = (0..blocks.len()).any(|i| blocks[i].is_some() && allowed[i] == 0) && !matches!(op, Op::Create);
        c.label_if(spared, "index: data blobs left out");
        c.nontrivial |= spared;
        m.check(&what, &|i| allowed[i])?;
    }
    c.note(|| trace.join(", "));
    Ok(())
}

/// Histories of reading, skipping and seeking.
fn by_blob(g: &mut Gen, c: &mut Case, f: &FileM, m: &Meter, rd: Watch) -> R {
    let plain = g.chance(1, 4);
    let mut r = if plain {
        BlobReader::new(rd)
    } else {
        BlobReader::new_seekable(rd).map_err(|e| format!("creating the reader failed: {}", ek(&e)))?
    };
    m.check("creating a reader", &|_| 0)?;
    let total = f.blobs.len();
    let mut at = 0;
    let mut trace: Vec<String> = vec![];
    let n = 1 + g.below(8);
    let mut skipped = false;
    for _ in 0..n {
        g.open();
        let k = g.weighted(&[30, if plain { 0 } else { 34 }, if plain { 0 } else { 16 }, if plain { 0 } else { 20 }]);
        let to = g.below(total);
        g.close();
        c.mixkey(mix(k as u64, to as u64));
        let mut need = None;
        let fail = |t: &[String], e: &Error| format!("{} on a conforming file failed: {}", t.join(", "), ek(e));
        let mut got = None;
        match k {
            0 => {
                trace.push("next".into());
                match r.next() {
                    Some(b) => got = Some(b.map_err(|e| fail(&trace, &e))?),
                    None => ensure!(at == total, "{}: no blob {at}", trace.join(", ")),
                }
                if at < total {
                    need = Some(at);
                    at += 1;
                }
            }
            1 => {
                trace.push("next_header_skip_blob".into());
                match r.next_header_skip_blob() {
                    Some(h) => {
                        h.map_err(|e| fail(&trace, &e))?;
                    }
                    None => ensure!(at == total, "{}: no blob {at}", trace.join(", ")),
                }
                skipped |= at < total;
                at = total.min(at + 1);
            }
            2 => {
                trace.push(format!("seek to blob {to}"));
                let p = m.spans[to].start as u64;
                if g.chance(1, 2) {
                    r.seek(ByteOffset(p)).map_err(|e| fail(&trace, &e))?;
                } else {
                    let end = m.spans[total - 1].end as i64;
                    let now = m.spans.get(at).map_or(end, |s| s.start as i64);
                    let to = match g.below(3) {
                        0 => SeekFrom::Start(p),
                        1 => SeekFrom::End(p as i64 - end),
                        _ => SeekFrom::Current(p as i64 - now),
                    };
                    r.seek_raw(to).map_err(|e| fail(&trace, &e))?;
                }
                at = to;
            }
            _ => {
                trace.push(format!("blob_from_offset of blob {to}"));
                got = Some(r.blob_from_offset(ByteOffset(m.spans[to].start as u64)).map_err(|e| fail(&trace, &e))?);
                need = Some(to);
                at = to + 1;
            }
        }
        m.check(&trace.join(", "), &|i| u64::from(need == Some(i)))?;
        if let Some(b) = got {
            // what is in a blob has been read with it
            b.decode().map_err(|e| fail(&trace, &e))?;
            ensure!(m.take().iter().all(|&n| n == 0), "{}: decoding a blob reads from the file", trace.join(", "));
        }
    }
    c.label_if(skipped, "blobs skipped by their headers");
    c.nontrivial |= total > 1;
    drop(r);
    m.check("dropping a reader", &|_| 0)?;
    c.note(|| trace.join(", "));
    Ok(())
}

/// Whole passes.
fn by_pass(g: &mut Gen, c: &mut Case, f: &FileM, m: &Meter, rd: Watch) -> R {
    let r = ElementReader::new(rd);
    m.check("creating an element reader", &|_| 0)?;
    let n: usize = f.blocks().map(BlockM::count).sum();
    let mut k = 0;
    let (what, res) = if g.chance(1, 2) {
        ("for_each", r.for_each(|_| k += 1))
    } else {
        ("par_map_reduce", r.par_map_reduce(|_| 1, || 0, |a, b| a + b).map(|n| k = n))
    };
    res.map_err(|e| format!("{what} on a conforming file failed: {}", ek(&e)))?;
    ensure!(n == k, "{what} sees {k} of {n} elements");
    c.label(what);
    c.nontrivial |= f.blobs.len() > 1;
    m.check(what, &|_| 1)
}

fn c25(g: &mut Gen, c: &mut Case) -> R {
    let mut cfg = cfg12(g);
    cfg.max_blobs = 6;
    cfg.max_groups = 2;
    cfg.max_elems = 4;
    cfg.info = false;
    cfg.big = 0;
    cfg.many = 0;
    cfg.style16 = 0;
    let mut f = gen_file(g, &cfg);
    fatten(g, &mut f);
    if f.blobs.is_empty() {
        return Ok(());
    }
    let (b, spans) = encode_file(&f);
    c.file(&b);
    let log = Arc::new(Mutex::new(vec![]));
    let rd = Watch {
        data: Arc::new(b),
        pos: 0,
        frag: gen_frag(g),
        log: log.clone(),
        n: 0,
    };
    let m = Meter { spans, log };
    match g.weighted(&[60, 32, 8]) {
        0 => by_index(g, c, &f, &m, rd)?,
        1 => by_blob(g, c, &f, &m, rd)?,
        _ => by_pass(g, c, &f, &m, rd)?,
    }
    c.note(|| show(&f));
    Ok(())
}

pub static C25: Prop = Prop {
    id: "C25",
    run: c25,
    pinned: &[],
    rule: "random conforming files whose blobs are mostly padded to some 100 kB, read through a reader which records every read, fragmented at random: histories of create_index, for_each_node and way queries; of next, next_header_skip_blob, seek and blob_from_offset with decoding of what they return; whole passes. Oracle: for each operation, how often the model says it needs each blob's data (never, once, or twice), plus 64 KiB of reading ahead per blob. Non-trivial: an index operation which needs not all data blobs, or reading blobs of a file of several.",
    quick: 20_000,
    thorough: 400_000,
    workers: 8,
    fuzz: (0, 0),
};
