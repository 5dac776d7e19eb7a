//! C10: access paths agree. C11: histories of seeks and reads.

use crate::case::{tick, Case, Tmp, R};
use crate::driver::Prop;
use crate::gen::Gen;
use crate::io::{gen_frag, plain, plan, On, Plan, TestReader};
use crate::model::*;
use crate::obs::*;
use crate::props::content::show;
use crate::props::damage::{gen_broken_framing, gen_broken_payload, Broken, Frm};
use osmpbf::*;
use std::fs::File;
use std::io::{BufReader, Cursor, Read, Seek, SeekFrom};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub struct BlobO {
    pub ty: String,
    pub off: Option<u64>,
    pub dec: Dec,
}

/// One whole iteration: the blobs, and the error that ended it, if any.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Walk {
    pub blobs: Vec<BlobO>,
    pub end: Option<String>,
    /// what further calls yielded after the end
    pub after: Option<String>,
}

pub fn obs_blob(b: &Blob, w: u32) -> BlobO {
    BlobO {
        ty: b.get_type().as_str().to_string(),
        off: b.offset().map(|o| o.0),
        dec: of_decode(b.decode(), w),
    }
}

pub fn obs_mmap(b: &MmapBlob<'_>, w: u32) -> BlobO {
    BlobO {
        ty: b.get_type().as_str().to_string(),
        off: Some(b.offset().0),
        dec: of_decode(b.decode(), w),
    }
}

/// Iterate to the end, and see whether it stays ended.
fn walk<T>(mut it: impl Iterator<Item = Result<T>>, f: impl Fn(&T) -> BlobO, what: &str) -> std::result::Result<Walk, String> {
    let mut o = Walk::default();
    loop {
        tick();
        match it.next() {
            Some(Ok(b)) => o.blobs.push(f(&b)),
            Some(Err(e)) => {
                o.end = Some(ek(&e));
                break;
            }
            None => break,
        }
    }
    for _ in 0..3 {
        let x = it.next();
        if x.is_some() {
            let y = x.map(|r| r.map(|b| f(&b).ty).map_err(|e| ek(&e)));
            o.after = Some(format!("after the end of the {what} ({:?}), next() yields {y:?}", o.end));
            break;
        }
    }
    Ok(o)
}

pub fn walk_stream<R: Read + Send>(rd: BlobReader<R>, w: u32) -> std::result::Result<Walk, String> {
    walk(rd, |b| obs_blob(b, w), "stream iteration")
}

pub fn walk_mmap(m: &Mmap, w: u32) -> std::result::Result<Walk, String> {
    walk(m.blob_iter(), |b| obs_mmap(b, w), "memory-map iteration")
}

pub fn map_file(t: &Tmp) -> std::result::Result<Mmap, String> {
    unsafe { Mmap::from_path(&t.0) }.map_err(|e| format!("memory-mapping a file failed: {}", ek(&e)))
}

/// Types, offsets and sizes seen by skipping from header to header.
pub fn walk_skip<R: Read + Seek + Send>(
    rd: &mut BlobReader<R>,
) -> (Vec<(String, Option<u64>, i32)>, Option<String>) {
    let mut v = vec![];
    loop {
        tick();
        match rd.next_header_skip_blob() {
            Some(Ok((h, o))) => v.push((h.blob_type().as_str().to_string(), o.map(|x| x.0), h.get_blob_size())),
            Some(Err(e)) => return (v, Some(ek(&e))),
            None => return (v, None),
        }
    }
}

/// Same blobs; offsets only have to agree where both are known.
pub fn same_walk(a: &Walk, b: &Walk, what: &str, offsets: bool) -> R {
    for (i, (x, y)) in a.blobs.iter().zip(&b.blobs).enumerate() {
        ensure!(x.ty == y.ty, "{what}: blob {i} has type {:?} here and {:?} there", x.ty, y.ty);
        if offsets {
            if let (Some(p), Some(q)) = (x.off, y.off) {
                ensure!(p == q, "{what}: blob {i} reported at offset {p} here and {q} there");
            }
        }
        if x.dec != y.dec {
            bail!("{what}: blob {i} decodes differently: {} here, {} there", cut(&format!("{:?}", x.dec)), cut(&format!("{:?}", y.dec)));
        }
    }
    ensure!(a.blobs.len() == b.blobs.len(), "{what}: {} blobs here, {} there", a.blobs.len(), b.blobs.len());
    Ok(())
}

fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}

// --------------------------------------------------------------------- C10

/// What is opened by a path need not be a regular file: here it is a pipe that
/// another thread writes to.
fn piped(bytes: &[u8], c: &mut Case, f: impl FnOnce(&std::path::Path) -> R) -> R {
    use std::io::Write;
    use std::os::fd::AsRawFd;
    let Ok((rx, mut tx)) = std::io::pipe() else {
        return Ok(());
    };
    let p = std::path::PathBuf::from(format!("/proc/self/fd/{}", rx.as_raw_fd()));
    if File::open(&p).is_err() {
        return Ok(());
    }
    c.label("pipe opened by its path");
    std::thread::scope(|s| {
        s.spawn(move || {
            // fails when the other end has enough
            let _ = tx.write_all(bytes);
        });
        // both ends are closed at the end, or the writer would wait for ever
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&p)));
        drop(rx);
        match r {
            Ok(r) => r,
            Err(e) => std::panic::resume_unwind(e),
        }
    })
}

fn c10(g: &mut Gen, c: &mut Case) -> R {
    if g.chance(1, 150) {
        return super::sparse::positions(g, c);
    }
    let cfg = Cfg {
        max_blobs: 6,
        max_groups: 3,
        max_elems: 5,
        big: 150,
        big_cap: 1500,
        many: 40,
        ..Cfg::default()
    };
    let mode = g.weighted(&[60, 20, 20]);
    let (f, mut bytes, spans, what) = match mode {
        1 => {
            let d = gen_broken_payload(g, &cfg);
            c.label("undecodable payload");
            (d.file, d.bytes, d.spans, d.what)
        }
        _ => {
            let f = gen_file(g, &cfg);
            let (b, s) = encode_file(&f);
            (f, b, s, String::new())
        }
    };
    let mut whole = true;
    if mode == 2 && !bytes.is_empty() {
        let p = g.below(bytes.len());
        bytes.truncate(p);
        whole = p == 0 || spans.iter().any(|s| s.end == p);
        c.label_if(!whole, "truncated");
    }
    c.file(&bytes);
    c.note(|| format!("{what} {} ({} bytes)", show(&f), bytes.len()));
    c.nontrivial = f.blobs.len() >= 2 && f.count() > 0;
    let (fs, fm) = gen_frag(g);
    let w = *g.pick(&[TAGS | REFS | MEMB, POS | INFO, ALL, 0]);
    let bytes = Arc::new(bytes);
    let tmp = Tmp::new(&bytes);

    let base = walk_stream(BlobReader::new(plain(&bytes)), w)?;
    let n = base.blobs.len();
    // start offsets: wherever they are known they are the true ones
    for (i, b) in base.blobs.iter().enumerate() {
        if let Some(o) = b.off {
            ensure!(o == spans[i].start as u64, "blob {i}: offset {o} instead of {}", spans[i].start);
        }
    }
    ensure!(base.end.is_none() == whole, "iteration ended with {:?}, file {}", base.end, if whole { "complete" } else { "truncated" });

    let pl = plan(bytes.len(), fs, fm);
    let sk = BlobReader::new_seekable(TestReader::new(&bytes, &pl)).map_err(|e| format!("new_seekable: {}", ek(&e)))?;
    let sk = walk_stream(sk, w)?;
    same_walk(&sk, &base, "seekable reader / stream reader", true)?;
    ensure!(sk.end.is_some() == base.end.is_some(), "seekable reader ends with {:?}, stream reader with {:?}", sk.end, base.end);
    let fp = BlobReader::from_path(&tmp.0).map_err(|e| format!("from_path: {}", ek(&e)))?;
    let fp = walk_stream(fp, w)?;
    same_walk(&fp, &base, "reader from a path / stream reader", true)?;
    ensure!(fp.end.is_some() == base.end.is_some(), "reader from a path ends with {:?}, stream reader with {:?}", fp.end, base.end);
    let sp = BlobReader::seekable_from_path(&tmp.0).map_err(|e| format!("seekable_from_path: {}", ek(&e)))?;
    let sp = walk_stream(sp, w)?;
    same_walk(&sp, &base, "seekable reader from a path / stream reader", true)?;
    ensure!(sp.end.is_some() == base.end.is_some(), "seekable reader from a path ends with {:?}, stream reader with {:?}", sp.end, base.end);
    for (x, name) in [(&sk, "seekable reader"), (&fp, "reader from a path"), (&sp, "seekable reader from a path")] {
        for (i, b) in x.blobs.iter().enumerate() {
            ensure!(b.off == Some(spans[i].start as u64), "{name}: blob {i} at {:?} instead of {}", b.off, spans[i].start);
        }
    }
    if g.chance(1, 8) {
        piped(&bytes, c, |p| {
            let rd = BlobReader::from_path(p).map_err(|e| format!("from_path of a pipe: {}", ek(&e)))?;
            let x = walk_stream(rd, w)?;
            same_walk(&x, &base, "pipe opened by its path / stream reader", true)?;
            ensure!(x.end.is_some() == base.end.is_some(), "pipe opened by its path ends with {:?}, stream reader with {:?}", x.end, base.end);
            for (i, b) in x.blobs.iter().enumerate() {
                ensure!(b.off == Some(spans[i].start as u64), "pipe: blob {i} at {:?} instead of {}", b.off, spans[i].start);
            }
            Ok(())
        })?;
        piped(&bytes, c, |p| {
            let mut v = vec![];
            let r = ElementReader::from_path(p)
                .map_err(|e| format!("ElementReader::from_path of a pipe: {}", ek(&e)))?
                .for_each(|e| v.push(of_elem(&e, w)));
            let (v2, r2) = seq_read(plain(&bytes), w);
            ensure!(r.is_err() == r2.is_err(), "element reader of a pipe ends with {:?}, of a stream with {r2:?}", r.map_err(|e| ek(&e)));
            ensure!(v == v2, "element reader of a pipe delivers {} elements, of a stream {}, or other ones", v.len(), v2.len());
            Ok(())
        })?;
    }
    for from_file in [false, true] {
        let m = if from_file {
            let mut f = File::open(&tmp.0).map_err(|e| format!("harness: open: {e}"))?;
            if g.chance(1, 2) {
                // the handle has been used before
                let at = g.draw(bytes.len() as u64 + 1);
                f.seek(SeekFrom::Start(at)).map_err(|e| format!("harness: seek: {e}"))?;
            }
            unsafe { Mmap::from_file(&f) }.map_err(|e| format!("mmap from_file: {}", ek(&e)))?
        } else {
            map_file(&tmp)?
        };
        let mm = walk_mmap(&m, w)?;
        same_walk(&mm, &base, "memory map / stream reader", true)?;
        ensure!(mm.end.is_some() == base.end.is_some(), "memory map ends with {:?}, stream reader with {:?}", mm.end, base.end);
        for (i, b) in mm.blobs.iter().enumerate() {
            ensure!(b.off == Some(spans[i].start as u64), "memory map: blob {i} at {:?} instead of {}", b.off, spans[i].start);
        }
        // decoding from a clone, and again
        for (i, b) in MmapBlobReader::new(&m).flatten().enumerate() {
            let k = b.clone();
            ensure!(of_decode(k.decode(), w) == mm.blobs[i].dec, "memory map: blob {i} decodes differently the second time");
        }
    }
    // header to header
    let mut rd = BlobReader::new_seekable(plain(&bytes)).map_err(|e| ek(&e))?;
    let (hs, he) = walk_skip(&mut rd);
    if whole {
        ensure!(he.is_none(), "header skipping fails with {he:?} on a file that reads fine");
        ensure!(hs.len() == n, "header skipping sees {} blobs, reading {n}", hs.len());
    } else {
        ensure!(hs.len() >= n, "header skipping sees {} blobs, reading {n} complete ones", hs.len());
        ensure!(hs.len() <= n + 1, "header skipping sees {} blobs, only {n} are complete", hs.len());
    }
    for (i, h) in hs.iter().enumerate() {
        let s = &spans[i];
        let ty = f.blobs[i].type_name();
        ensure!(h.0 == ty, "header skipping: blob {i} has type {:?} instead of {ty:?}", h.0);
        ensure!(h.1 == Some(s.start as u64), "header skipping: blob {i} at {:?} instead of {}", h.1, s.start);
        ensure!(h.2 as usize == s.end - s.data, "header skipping: blob {i} size {} instead of {}", h.2, s.end - s.data);
    }
    // each blob on its own: repeatable, consistent with its type and with
    // asking for the block kind directly, same by all walks over the block
    for (i, b) in BlobReader::new(plain(&bytes)).flatten().enumerate() {
        let d0 = &base.blobs[i].dec;
        ensure!(of_decode(b.decode(), w) == *d0, "blob {i} decodes differently the second time");
        let k = b.clone();
        ensure!(obs_blob(&k, w).dec == *d0, "a clone of blob {i} decodes differently");
        match (b.get_type(), d0) {
            (_, Dec::Err(e)) => {
                let r = match b.get_type() {
                    BlobType::OsmHeader => b.to_headerblock().err(),
                    BlobType::OsmData => b.to_primitiveblock().err(),
                    BlobType::Unknown(_) => bail!("blob {i} of unknown type does not decode: {e}"),
                };
                ensure!(r.as_ref().map(ek).as_ref() == Some(e), "blob {i}: decode fails with {e}, the direct form with {:?}", r.as_ref().map(ek));
            }
            (BlobType::OsmHeader, Dec::Header(h)) => {
                let x = b.to_headerblock().map_err(|e| format!("blob {i}: decode works, to_headerblock fails: {}", ek(&e)))?;
                ensure!(of_header(&x) == *h, "blob {i}: to_headerblock differs from decode");
            }
            (BlobType::OsmData, Dec::Data(v)) => {
                let x = b.to_primitiveblock().map_err(|e| format!("blob {i}: decode works, to_primitiveblock fails: {}", ek(&e)))?;
                ensure!(block_elems(&x, w) == *v, "blob {i}: to_primitiveblock differs from decode");
                let mut cb = vec![];
                x.for_each_element(|e| cb.push(of_elem(&e, w)));
                let mut at = 0;
                for gr in x.groups() {
                    let ge = group_elems(&gr, w);
                    let key = |e: &Elem| e.kind;
                    for (name, list) in [("iterator", v), ("callback", &cb)] {
                        ensure!(list.len() >= at + ge.len(), "blob {i}: the element {name} delivers fewer elements than the groups hold");
                        let mut part = list[at..at + ge.len()].to_vec();
                        part.sort_by_key(key);
                        ensure!(part == ge, "blob {i}: the element {name} and the group walk differ");
                    }
                    at += ge.len();
                }
                ensure!(v.len() == at && cb.len() == at, "blob {i}: {} elements by iterator, {} by callback, {at} by groups", v.len(), cb.len());
            }
            (BlobType::Unknown(t), Dec::Unknown(u)) => ensure!(t == u, "blob {i}: type {t:?} reported, {u:?} decoded"),
            (t, d) => bail!("blob {i} of type {t:?} decodes as {}", dec_name(d)),
        }
    }
    // whole-file readers
    let mut all = vec![];
    let mut bad = base.end.is_some();
    for b in &base.blobs {
        match &b.dec {
            Dec::Data(v) => all.extend(v.iter().cloned()),
            Dec::Err(_) => {
                bad = true;
                break;
            }
            _ => {}
        }
    }
    let mut v = vec![];
    let r = ElementReader::from_path(&tmp.0)
        .map_err(|e| format!("ElementReader::from_path: {}", ek(&e)))?
        .for_each(|e| v.push(of_elem(&e, w)));
    ensure!(r.is_err() == bad, "element reader from a path ends with {:?}, blob-wise reading {}", r.map_err(|e| ek(&e)), if bad { "fails" } else { "succeeds" });
    // the order of the kinds within one group may differ between the paths
    let mixed = f.blocks().any(|b| b.groups.iter().any(|x| x.kinds() > 1));
    let same = |v: &[Elem]| {
        let of = |x: &[Elem], k: EK| x.iter().filter(|e| e.kind == k).cloned().collect::<Vec<_>>();
        v == all || (mixed && v.len() == all.len() && [EK::Node, EK::Dense, EK::Way, EK::Rel].iter().all(|k| of(v, *k) == of(&all, *k)))
    };
    ensure!(same(&v), "element reader from a path delivers {} elements, blob-wise reading {}, or other ones", v.len(), all.len());
    let (v, r) = seq_read(TestReader::new(&bytes, &plan(bytes.len(), fs, fm)), w);
    ensure!(r.is_err() == bad && same(&v), "element reader delivers {} elements ({r:?}), blob-wise reading {}, or other ones", v.len(), all.len());
    let data_bad = base.blobs.iter().any(|b| b.ty == "OSMData" && matches!(b.dec, Dec::Err(_)));
    let nodes: Vec<Elem> = all.iter().filter(|e| matches!(e.kind, EK::Node | EK::Dense)).cloned().collect();
    if data_bad || !bad {
        let mut iv = vec![];
        let mut ix = IndexedReader::from_path(&tmp.0).map_err(|e| format!("IndexedReader::from_path: {}", ek(&e)))?;
        let r = ix.for_each_node(|e| iv.push(of_elem(&e, w)));
        if data_bad {
            ensure!(r.is_err(), "indexed node iteration succeeds although a data blob cannot be decoded");
        } else {
            if let Err(e) = r {
                bail!("indexed node iteration fails on a file that reads fine: {}", ek(&e));
            }
            let key = |e: &Elem| hash_elem(e);
            let (mut a, mut b): (Vec<u64>, Vec<u64>) = (iv.iter().map(key).collect(), nodes.iter().map(key).collect());
            a.sort_unstable();
            b.sort_unstable();
            ensure!(a == b, "indexed node iteration delivers {} nodes, sequential reading {}, or other ones", a.len(), b.len());
        }
    }
    Ok(())
}

pub static C10: Prop = Prop {
    id: "C10",
    run: c10,
    pinned: &[("70,003 blobs by memory map and headers", super::large::blobs_everywhere), ("empty file", |c| {
        let b = Arc::new(vec![]);
        c.file(&b);
        let t = Tmp::new(&b);
        let s = walk_stream(BlobReader::new(plain(&b)), 0)?;
        let p = walk_stream(BlobReader::from_path(&t.0).map_err(|e| ek(&e))?, 0)?;
        let m = walk_mmap(&map_file(&t)?, 0)?;
        ensure!(s == Walk::default() && p == s && m == s, "an empty file: stream {s:?}, path {p:?}, memory map {m:?}");
        Ok(())
    })],
    rule: "random files (conforming; one undecodable payload inside intact framing; truncated) read through BlobReader::new/new_seekable/from_path/seekable_from_path, Mmap from path and from file, next_header_skip_blob, ElementReader (stream and path), IndexedReader, and pipes opened by their path; oracle: all agree with each other on count, types, offsets, decoded content or failure, repeatedly and through clones. Non-trivial: at least two blobs and some elements.",
    quick: 50_000,
    thorough: 2_000_000,
    workers: 8,
    fuzz: (1_000, 40_000),
};

// --------------------------------------------------------------------- C11

struct World<'a> {
    f: &'a FileM,
    bytes: &'a [u8],
    spans: &'a [Span],
    /// index of a blob with broken framing or payload
    bad: Option<(usize, Option<Frm>)>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum At {
    Blob(usize),
    BadFrame,
    End,
    Garbage,
}

impl World<'_> {
    fn at(&self, pos: u64) -> At {
        if pos >= self.bytes.len() as u64 {
            return At::End;
        }
        match self.spans.iter().position(|s| s.start as u64 == pos) {
            Some(i) => match self.bad {
                Some((b, Some(_))) if b == i => At::BadFrame,
                _ => At::Blob(i),
            },
            None => At::Garbage,
        }
    }
    /// The blobs from this position to the end of the file, if all of them
    /// are well framed.
    fn rest(&self, pos: u64) -> Option<std::ops::Range<usize>> {
        match self.at(pos) {
            At::End => Some(0..0),
            At::Blob(i) if !matches!(self.bad, Some((b, Some(_))) if b >= i) => Some(i..self.spans.len()),
            _ => None,
        }
    }
    fn check(&self, i: usize, ty: &str, d: impl FnOnce() -> Dec) -> R {
        let m = &self.f.blobs[i];
        ensure!(ty == m.type_name(), "blob {i} has type {ty:?} instead of {:?}", m.type_name());
        let d = d();
        if self.bad.is_some_and(|b| b.0 == i) && !matches!(m.kind, Kind::Unknown(..)) {
            ensure!(matches!(d, Dec::Err(_)), "blob {i} with an undecodable payload decodes as {}", dec_name(&d));
            return Ok(());
        }
        check_dec(&d, m, 0)
    }
}

fn pick_target(g: &mut Gen, wd: &World<'_>) -> u64 {
    let len = wd.bytes.len() as u64;
    match g.weighted(&[70, 8, 8, 14]) {
        0 if !wd.spans.is_empty() => wd.spans[g.below(wd.spans.len())].start as u64,
        1 => len,
        2 => *g.pick(&[len + 1, len + 1000, 1 << 40, (1 << 32) + 1]),
        _ => g.draw(len + 1),
    }
}

/// Known position, or unknown until the next absolute seek.
#[derive(Clone, Copy, Debug)]
struct St {
    pos: Option<u64>,
    /// an error was reported; nothing more may come until a seek
    dead: bool,
    /// offsets must be reported (else: absent or true)
    exact: bool,
    /// a seek failed: yielding nothing is acceptable
    lax: bool,
}

#[allow(clippy::type_complexity)]
fn drive<T: Read + Seek + Send>(
    g: &mut Gen,
    c: &mut Case,
    wd: &World<'_>,
    mut rd: BlobReader<T>,
    start: u64,
    exact: bool,
    pl: Option<&Arc<Plan>>,
    dup: Option<fn(&BlobReader<T>) -> BlobReader<T>>,
) -> R {
    let mut st = St {
        pos: Some(start),
        dead: false,
        exact,
        lax: false,
    };
    let n = 2 + g.below(28);
    let mut trace: Vec<String> = vec![];
    let mut seeks_after_trouble = 0;
    let mut trouble = false;
    for step in 0..n {
        g.open();
        let armed = match pl {
            Some(p) if g.chance(1, 8) => {
                p.arm(g.draw(4), g.below(12), *g.pick(&[On::Any, On::Reads, On::Seeks]), false);
                true
            }
            _ => false,
        };
        let mut op = g.weighted(&[34, 20, 22, 10, 12, 4, 8]);
        let rest = match st.pos {
            Some(p) if !armed && !st.dead && !st.lax => wd.rest(p),
            _ => None,
        };
        if op == 6 && rest.is_none() {
            op = 0;
        }
        if let Some(r) = &rest {
            let (lo, hi) = rd.size_hint();
            ensure!(
                lo <= r.len() && hi.is_none_or(|h| h >= r.len()),
                "size hint {:?} where {} blobs are left",
                (lo, hi),
                r.len()
            );
        }
        let before = st;
        let res: R = (|| {
            let fired = |p: Option<&Arc<Plan>>| p.is_some_and(|p| armed && p.fired());
            match op {
                // next, or the same by skipping the content
                0 | 1 => {
                    let got = if op == 0 {
                        rd.next().map(|r| r.map(|b| (b.get_type().as_str().to_string(), b.offset(), Some(b), None)))
                    } else {
                        rd.next_header_skip_blob()
                            .map(|r| r.map(|(h, o)| (h.blob_type().as_str().to_string(), o, None, Some(h.get_blob_size()))))
                    };
                    trace.push(format!(
                        "{}={}",
                        if op == 0 { "next" } else { "skip" },
                        match &got {
                            None => "None".to_string(),
                            Some(Ok(x)) => format!("{}@{:?}", x.0, x.1.map(|o| o.0)),
                            Some(Err(e)) => ek(e),
                        }
                    ));
                    if fired(pl) {
                        match got {
                            Some(Err(_)) => {
                                st.dead = true;
                                trouble = true;
                                return Ok(());
                            }
                            x => bail!("a read failed but the operation yields {:?}", x.map(|r| r.map(|y| y.0).map_err(|e| ek(&e)))),
                        }
                    }
                    if st.dead {
                        ensure!(got.is_none(), "iteration goes on after an error");
                        return Ok(());
                    }
                    let Some(pos) = st.pos else {
                        if let Some(Err(_)) = got {
                            st.dead = true;
                        }
                        return Ok(());
                    };
                    match wd.at(pos) {
                        At::End => {
                            ensure!(got.is_none(), "at or behind the end of the file ({pos}), something other than the end is reported");
                            trouble = true;
                        }
                        At::BadFrame => match got {
                            Some(Err(_)) => {
                                st.dead = true;
                                trouble = true;
                            }
                            None if st.lax => {}
                            None => bail!("blob with broken framing at {pos}: silently ended"),
                            Some(Ok(x)) => {
                                // skipping need not see a declared size beyond the end;
                                // an undecodable blob message may show only when decoded
                                let frm = wd.bad.and_then(|b| b.1);
                                let fine = match (op, &x.2) {
                                    (1, _) => matches!(frm, Some(Frm::PastEof | Frm::BlobBad)),
                                    (_, Some(b)) => frm == Some(Frm::BlobBad) && matches!(b.decode(), Err(_) | Ok(BlobDecode::Unknown(_))),
                                    _ => false,
                                };
                                ensure!(fine, "blob with broken framing at {pos} was delivered");
                                st.pos = None;
                            }
                        },
                        At::Garbage => {
                            st.pos = None;
                            if let Some(Err(_)) = got {
                                st.dead = true;
                            }
                        }
                        At::Blob(i) => {
                            let (ty, off, b, size) = match got {
                                Some(Ok(x)) => x,
                                None if st.lax => return Ok(()),
                                None => bail!("no blob at {pos}, where blob {i} starts"),
                                Some(Err(e)) => bail!("blob {i} at {pos} fails with {}", ek(&e)),
                            };
                            wd.check(i, &ty, || match &b {
                                Some(b) => of_decode(b.decode(), 0),
                                None => {
                                    if wd.bad.is_some_and(|x| x.0 == i) {
                                        Dec::Err(String::new())
                                    } else {
                                        exp_dec(&wd.f.blobs[i])
                                    }
                                }
                            })?;
                            if let Some(s) = size {
                                let e = wd.spans[i].end - wd.spans[i].data;
                                ensure!(s as usize == e, "blob {i}: size {s} instead of {e}");
                            }
                            match off {
                                Some(o) => ensure!(o.0 == pos, "blob {i}: offset {} instead of {pos}", o.0),
                                None => ensure!(!st.exact || st.lax, "blob {i} at {pos}: offset unknown"),
                            }
                            st.pos = Some(wd.spans[i].end as u64);
                        }
                    }
                }
                2 => {
                    let t = pick_target(g, wd);
                    let raw = g.weighted(&[40, 25, 20, 15]);
                    let cur = st.pos;
                    let len = wd.bytes.len() as u64;
                    // relative seeks need a known position (a dead reader's is not)
                    let (r, name) = match raw {
                        1 => (rd.seek_raw(SeekFrom::Start(t)), "seek_raw(Start)"),
                        2 if t < 1 << 50 => (rd.seek_raw(SeekFrom::End(t as i64 - len as i64)), "seek_raw(End)"),
                        3 if cur.is_some() && !st.dead && t < 1 << 50 && cur.unwrap_or(0) < 1 << 50 => (
                            rd.seek_raw(SeekFrom::Current(t as i64 - cur.unwrap_or(0) as i64)),
                            "seek_raw(Current)",
                        ),
                        _ => (rd.seek(ByteOffset(t)).map(|()| t), "seek"),
                    };
                    trace.push(format!("{name}->{t}={}", if r.is_ok() { "ok" } else { "Err" }));
                    match r {
                        Ok(p) => {
                            ensure!(!fired(pl), "a seek failed but the operation reports success");
                            ensure!(p == t, "{name} to {t} reports position {p}");
                            st = St {
                                pos: Some(t),
                                dead: false,
                                exact: true,
                                lax: false,
                            };
                            if trouble {
                                seeks_after_trouble += 1;
                            }
                        }
                        Err(e) => {
                            ensure!(fired(pl), "{name} to {t} fails with {}", ek(&e));
                            trouble = true;
                            st.lax = true;
                        }
                    }
                }
                3 => {
                    // an impossible seek reports an error and breaks nothing
                    let r = rd.seek_raw(SeekFrom::End(-(wd.bytes.len() as i64) - 1 - g.draw(100) as i64));
                    trace.push("seek before start".into());
                    ensure!(r.is_err(), "seeking before the start of the file succeeds: {:?}", r.map_err(|e| ek(&e)));
                    trouble = true;
                    st.lax = true;
                }
                4 => {
                    let t = pick_target(g, wd);
                    let r = rd.blob_from_offset(ByteOffset(t));
                    trace.push(format!("blob_from_offset({t})={}", r.as_ref().map_or_else(ek, |b| b.get_type().as_str().to_string())));
                    if fired(pl) {
                        ensure!(r.is_err(), "a read or seek failed but blob_from_offset reports success");
                        st.pos = None;
                        st.dead = false;
                        trouble = true;
                        return Ok(());
                    }
                    match wd.at(t) {
                        At::Blob(i) => {
                            let b = r.map_err(|e| format!("reading blob {i} from its offset {t} fails with {}", ek(&e)))?;
                            wd.check(i, b.get_type().as_str(), || of_decode(b.decode(), 0))?;
                            ensure!(b.offset() == Some(ByteOffset(t)), "blob {i} read from {t} reports offset {:?}", b.offset());
                            st = St {
                                pos: Some(wd.spans[i].end as u64),
                                dead: false,
                                exact: true,
                                lax: false,
                            };
                            if trouble {
                                seeks_after_trouble += 1;
                            }
                        }
                        At::End => {
                            ensure!(r.is_err(), "reading a blob from {t}, at or behind the end of the file, succeeds");
                            st = St {
                                pos: Some(t),
                                dead: false,
                                exact: true,
                                lax: false,
                            };
                            trouble = true;
                        }
                        At::BadFrame => {
                            match r {
                                Err(_) => {}
                                Ok(b) => ensure!(
                                    wd.bad.and_then(|b| b.1) == Some(Frm::BlobBad)
                                        && matches!(b.decode(), Err(_) | Ok(BlobDecode::Unknown(_))),
                                    "reading a blob with broken framing from {t} succeeds"
                                ),
                            }
                            st = St {
                                pos: None,
                                dead: wd.bad.and_then(|b| b.1) != Some(Frm::BlobBad),
                                exact: true,
                                lax: false,
                            };
                            trouble = true;
                        }
                        At::Garbage => {
                            let r2 = BlobReader::new(Cursor::new(&wd.bytes[t as usize..])).next();
                            let r2 = r2.map(|x| x.is_ok()).unwrap_or(false);
                            ensure!(r.is_ok() == r2, "reading from {t} succeeds: {}, reading the same bytes on their own: {r2}", r.is_ok());
                            st.dead = r.is_err();
                            st.pos = None;
                            trouble = true;
                        }
                    }
                }
                6 => {
                    // skipping blobs by position, and consuming a clone
                    let r = rest.clone().unwrap_or(0..0);
                    let k = match g.below(4) {
                        0 => g.below(3),
                        1 => r.len(),
                        _ => g.below(r.len() + 2),
                    };
                    if let Some(f) = dup.filter(|_| g.chance(1, 3)) {
                        trace.push("count and last of clones".into());
                        let n = f(&rd).count();
                        ensure!(n == r.len(), "a clone counts {n} blobs, {} are left", r.len());
                        let n = f(&rd).fold(0, |n, _| n + 1);
                        ensure!(n == r.len(), "folding a clone sees {n} blobs, {} are left", r.len());
                        match (f(&rd).last(), r.is_empty()) {
                            (None, true) => {}
                            (Some(Ok(b)), false) => wd.check(r.end - 1, b.get_type().as_str(), || of_decode(b.decode(), 0))?,
                            (x, _) => bail!("last yields {:?} with {} blobs left", x.map(|r| r.map(|_| ()).map_err(|e| ek(&e))), r.len()),
                        }
                    }
                    let got = rd.nth(k);
                    trace.push(format!("nth({k})"));
                    c.label("blobs skipped by position");
                    match got {
                        None => {
                            ensure!(k >= r.len(), "nth({k}) yields nothing with {} blobs left", r.len());
                            st.pos = st.pos.map(|p| p.max(wd.bytes.len() as u64));
                            trouble = true;
                        }
                        Some(Err(e)) => bail!("nth({k}) with {} blobs left fails with {}", r.len(), ek(&e)),
                        Some(Ok(b)) => {
                            ensure!(k < r.len(), "nth({k}) yields a blob with {} blobs left", r.len());
                            let i = r.start + k;
                            wd.check(i, b.get_type().as_str(), || of_decode(b.decode(), 0))?;
                            match b.offset() {
                                Some(o) => ensure!(o.0 == wd.spans[i].start as u64, "nth({k}): offset {} instead of {}", o.0, wd.spans[i].start),
                                None => ensure!(!st.exact, "nth({k}): offset unknown"),
                            }
                            st.pos = Some(wd.spans[i].end as u64);
                        }
                    }
                }
                _ => {
                    // a clone continues on its own
                    if let Some(f) = dup {
                        let mut k = f(&rd);
                        trace.push("clone".into());
                        if let Some(p) = pl {
                            p.disarm();
                        }
                        let a = k.next();
                        if let (Some(pos), false) = (st.pos, st.dead) {
                            if let At::Blob(i) = wd.at(pos) {
                                match a {
                                    Some(Ok(b)) => wd.check(i, b.get_type().as_str(), || of_decode(b.decode(), 0))?,
                                    None if st.lax => {}
                                    x => bail!("a clone at {pos} yields {:?}", x.map(|r| r.map(|_| ()).map_err(|e| ek(&e)))),
                                }
                            }
                        }
                    }
                }
            }
            Ok(())
        })();
        if let Some(p) = pl {
            p.disarm();
            p.clear_fired();
        }
        g.close();
        if let Err(m) = res {
            c.note(|| format!("operations: {}", trace.join(", ")));
            bail!("step {step} of {} (before: position {:?}, dead {}): {m}", trace.join(", "), before.pos, before.dead);
        }
    }
    c.note(|| format!("operations: {}", trace.join(", ")));
    c.label_if(seeks_after_trouble > 0, "seek after the end or an error");
    c.nontrivial |= wd.f.blobs.len() >= 2 && n >= 4;
    for t in &trace {
        c.mixkey(crate::gen::hash_bytes(t.as_bytes()));
    }
    Ok(())
}

fn exp_dec(b: &BlobM) -> Dec {
    match &b.kind {
        Kind::Header(h) => Dec::Header(HeaderO {
            bbox: h.bbox.map(|b| [b.0 as f64 * 1e-9, b.1 as f64 * 1e-9, b.2 as f64 * 1e-9, b.3 as f64 * 1e-9]),
            required: h.required.clone(),
            optional: h.optional.clone(),
            program: h.program.clone(),
            source: h.source.clone(),
            ts: h.ts,
            seq: h.seq,
            url: h.url.clone(),
        }),
        Kind::Data(d) => Dec::Data(exp_blocks(std::iter::once(d), 0).concat()),
        Kind::Unknown(t, _) => Dec::Unknown(t.clone()),
    }
}

fn drive_mmap(g: &mut Gen, c: &mut Case, wd: &World<'_>, m: &Mmap) -> R {
    let mut rd = m.blob_iter();
    let mut pos: Option<u64> = Some(0);
    let mut dead = false;
    let n = 2 + g.below(28);
    let mut trace: Vec<String> = vec![];
    let mut trouble = false;
    for step in 0..n {
        let mut op = g.weighted(&[60, 34, 6, 10]);
        let rest = if dead { None } else { pos.and_then(|p| wd.rest(p)) };
        if op == 3 && rest.is_none() {
            op = 0;
        }
        if let Some(r) = &rest {
            let (lo, hi) = rd.size_hint();
            ensure!(
                lo <= r.len() && hi.is_none_or(|h| h >= r.len()),
                "memory map: size hint {:?} where {} blobs are left",
                (lo, hi),
                r.len()
            );
        }
        g.open();
        let res: R = (|| {
            match op {
                0 => {
                    let got = rd.next();
                    trace.push(match &got {
                        None => "next=None".to_string(),
                        Some(Ok(b)) => format!("next={}@{}", b.get_type().as_str(), b.offset().0),
                        Some(Err(e)) => format!("next={}", ek(e)),
                    });
                    if dead {
                        ensure!(got.is_none(), "iteration goes on after an error");
                        return Ok(());
                    }
                    let Some(p) = pos else {
                        dead = matches!(got, Some(Err(_)));
                        return Ok(());
                    };
                    match wd.at(p) {
                        At::End => {
                            ensure!(got.is_none(), "at or behind the end ({p}), something other than the end is reported");
                            trouble = true;
                        }
                        At::BadFrame => {
                            if matches!(wd.bad, Some((_, Some(Frm::BlobBad)))) {
                                // noticed when decoding at the latest
                                pos = None;
                                match got {
                                    Some(Ok(b)) => ensure!(
                                        matches!(b.decode(), Err(_) | Ok(BlobDecode::Unknown(_))),
                                        "an undecodable blob message is delivered as {}",
                                        dec_name(&of_decode(b.decode(), 0))
                                    ),
                                    Some(Err(_)) => dead = true,
                                    None => bail!("blob with broken framing at {p}: silently ended"),
                                }
                            } else {
                                ensure!(matches!(got, Some(Err(_))), "blob with broken framing at {p} is not reported as an error");
                                dead = true;
                            }
                            trouble = true;
                        }
                        At::Garbage => {
                            pos = None;
                            dead = matches!(got, Some(Err(_)));
                        }
                        At::Blob(i) => {
                            let b = match got {
                                Some(Ok(b)) => b,
                                None => bail!("no blob at {p}, where blob {i} starts"),
                                Some(Err(e)) => bail!("blob {i} at {p} fails with {}", ek(&e)),
                            };
                            wd.check(i, b.get_type().as_str(), || of_decode(b.decode(), 0))?;
                            ensure!(b.offset().0 == p, "blob {i}: offset {} instead of {p}", b.offset().0);
                            pos = Some(wd.spans[i].end as u64);
                        }
                    }
                }
                1 => {
                    let t = pick_target(g, wd);
                    rd.seek(ByteOffset(t));
                    trace.push(format!("seek->{t}"));
                    pos = Some(t);
                    dead = false;
                    c.label_if(trouble, "seek after the end or an error");
                }
                3 => {
                    // skipping blobs by position, and consuming a clone
                    let r = rest.clone().unwrap_or(0..0);
                    let k = match g.below(4) {
                        0 => g.below(3),
                        1 => r.len(),
                        _ => g.below(r.len() + 2),
                    };
                    if g.chance(1, 3) {
                        trace.push("count and last of clones".into());
                        let n = rd.clone().count();
                        ensure!(n == r.len(), "a clone counts {n} blobs, {} are left", r.len());
                        let n = rd.clone().fold(0, |n, _| n + 1);
                        ensure!(n == r.len(), "folding a clone sees {n} blobs, {} are left", r.len());
                        match (rd.clone().last(), r.is_empty()) {
                            (None, true) => {}
                            (Some(Ok(b)), false) => wd.check(r.end - 1, b.get_type().as_str(), || of_decode(b.decode(), 0))?,
                            (x, _) => bail!("last yields {:?} with {} blobs left", x.map(|r| r.map(|_| ()).map_err(|e| ek(&e))), r.len()),
                        }
                    }
                    trace.push(format!("nth({k})"));
                    c.label("blobs skipped by position");
                    match rd.nth(k) {
                        None => {
                            ensure!(k >= r.len(), "nth({k}) yields nothing with {} blobs left", r.len());
                            pos = pos.map(|p| p.max(wd.bytes.len() as u64));
                            trouble = true;
                        }
                        Some(Err(e)) => bail!("nth({k}) with {} blobs left fails with {}", r.len(), ek(&e)),
                        Some(Ok(b)) => {
                            ensure!(k < r.len(), "nth({k}) yields a blob with {} blobs left", r.len());
                            let i = r.start + k;
                            wd.check(i, b.get_type().as_str(), || of_decode(b.decode(), 0))?;
                            ensure!(b.offset().0 == wd.spans[i].start as u64, "nth({k}): offset {} instead of {}", b.offset().0, wd.spans[i].start);
                            pos = Some(wd.spans[i].end as u64);
                        }
                    }
                }
                _ => {
                    let mut k = rd.clone();
                    trace.push("clone".into());
                    k.seek(ByteOffset(0));
                    let _ = k.next();
                }
            }
            Ok(())
        })();
        g.close();
        if let Err(m) = res {
            c.note(|| format!("memory map operations: {}", trace.join(", ")));
            bail!("memory map, step {step} of {}: {m}", trace.join(", "));
        }
    }
    c.note(|| format!("memory map operations: {}", trace.join(", ")));
    c.nontrivial |= wd.f.blobs.len() >= 2 && n >= 4;
    for t in &trace {
        c.mixkey(crate::gen::hash_bytes(t.as_bytes()));
    }
    Ok(())
}

fn c11(g: &mut Gen, c: &mut Case) -> R {
    if g.chance(1, 60) {
        return super::sparse::positions(g, c);
    }
    let cfg = Cfg {
        max_blobs: 6,
        max_groups: 2,
        max_elems: 3,
        tags: false,
        info: false,
        big: 400,
        big_cap: 1200,
        many: 60,
        style16: 3,
        ..Cfg::default()
    };
    let (f, bytes, spans, bad) = match g.weighted(&[60, 15, 25]) {
        0 => {
            let f = gen_file(g, &cfg);
            let (b, s) = encode_file(&f);
            (f, b, s, None)
        }
        1 => {
            let d: Broken = gen_broken_payload(g, &cfg);
            c.label("undecodable payload");
            c.note(|| d.what.clone());
            (d.file, d.bytes, d.spans, Some((d.bad, None)))
        }
        _ => {
            let d: Broken = gen_broken_framing(g, &cfg);
            c.label("broken framing");
            c.note(|| d.what.clone());
            (d.file, d.bytes, d.spans, Some((d.bad, d.frm)))
        }
    };
    c.file(&bytes);
    c.note(|| show(&f));
    let wd = World {
        f: &f,
        bytes: &bytes,
        spans: &spans,
        bad,
    };
    let data = Arc::new(bytes.clone());
    let (fs, fm) = gen_frag(g);
    let pl = plan(bytes.len(), fs, fm);
    let start = if g.chance(1, 3) { pick_target(g, &wd) } else { 0 };
    match g.weighted(&[26, 14, 18, 12, 10, 20]) {
        0 => {
            c.label("seekable reader");
            c.label_if(start != 0, "created at another position");
            let rd = BlobReader::new_seekable(TestReader::new(&data, &pl).at(start)).map_err(|e| ek(&e))?;
            drive(g, c, &wd, rd, start, true, Some(&pl), Some(|r| r.clone()))
        }
        1 => {
            c.label("plain reader");
            let rd = BlobReader::new(TestReader::new(&data, &pl));
            drive(g, c, &wd, rd, 0, false, Some(&pl), Some(|r| r.clone()))
        }
        2 => {
            c.label("buffered reader");
            c.label_if(start != 0, "created at another position");
            let cap = *g.pick(&[1usize, 7, 64, 8192]);
            let br = BufReader::with_capacity(cap, TestReader::new(&data, &pl).at(start));
            let rd = BlobReader::new_seekable(br).map_err(|e| ek(&e))?;
            drive(g, c, &wd, rd, start, true, None, None)
        }
        3 => {
            c.label("seekable reader from a path");
            let t = Tmp::new(&bytes);
            let rd = BlobReader::seekable_from_path(&t.0).map_err(|e| ek(&e))?;
            drive(g, c, &wd, rd, 0, true, None, None)
        }
        4 => {
            c.label("reader from a path");
            let t = Tmp::new(&bytes);
            let rd = BlobReader::from_path(&t.0).map_err(|e| ek(&e))?;
            drive(g, c, &wd, rd, 0, true, None, None)
        }
        _ => {
            c.label("memory map");
            let t = Tmp::new(&bytes);
            let m = map_file(&t)?;
            drive_mmap(g, c, &wd, &m)
        }
    }
}

pub static C11: Prop = Prop {
    id: "C11",
    run: c11,
    pinned: &[],
    rule: "stateful model-based: random files (conforming, with an undecodable payload, with broken framing) and random histories of next, nth, next_header_skip_blob, seek, seek_raw (start/current/end, valid, beyond the end, into garbage, before the start), blob_from_offset, clone, with injected one-shot read and seek faults, over plain, seekable, buffered and path readers created at any position, and next/nth/seek/clone over memory maps; size hints and consumed clones (count, last) along the way; oracle: a position model (which blob starts where). Non-trivial: at least two blobs and four operations.",
    quick: 250_000,
    thorough: 8_000_000,
    workers: 8,
    fuzz: (5_000, 200_000),
};
