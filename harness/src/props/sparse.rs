//! Files of several GiB that are mostly hole: positions that do not fit 31 or
//! 32 bits, at the cost of the few blobs that are really there.

use super::indexed::{cfg12, check_op, gen_filter, perform, Op};
use crate::case::{Case, Tmp, R};
use crate::gen::Gen;
use crate::model::*;
use crate::obs::*;
use crate::wire::{Enc, Style};
use osmpbf::*;
use std::io::{BufReader, Read, Result as IoResult, Seek, SeekFrom, Write};
use std::sync::Arc;

pub struct Item {
    /// index into the model's blobs, or none for a hole
    blob: Option<usize>,
    ty: String,
    start: u64,
    size: u64,
}

pub struct Sparse {
    f: FileM,
    items: Vec<Item>,
    parts: Vec<(u64, Vec<u8>)>,
    len: u64,
}

#[derive(Clone)]
pub struct SparseReader {
    s: Arc<Sparse>,
    pos: u64,
}

impl Read for SparseReader {
    fn read(&mut self, buf: &mut [u8]) -> IoResult<usize> {
        if buf.is_empty() || self.pos >= self.s.len {
            return Ok(0);
        }
        let i = self.s.parts.partition_point(|p| p.0 <= self.pos);
        let next = self.s.parts.get(i).map_or(self.s.len, |p| p.0);
        let n;
        match i.checked_sub(1).map(|k| &self.s.parts[k]) {
            Some((a, b)) if self.pos < a + b.len() as u64 => {
                let o = (self.pos - a) as usize;
                n = buf.len().min(b.len() - o);
                buf[..n].copy_from_slice(&b[o..o + n]);
            }
            _ => {
                n = buf.len().min((next - self.pos).min(1 << 30) as usize);
                buf[..n].fill(0);
            }
        }
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for SparseReader {
    fn seek(&mut self, p: SeekFrom) -> IoResult<u64> {
        let t = match p {
            SeekFrom::Start(x) => i128::from(x),
            SeekFrom::Current(x) => i128::from(self.pos) + i128::from(x),
            SeekFrom::End(x) => i128::from(self.s.len) + i128::from(x),
        };
        self.pos = u64::try_from(t).map_err(|_| std::io::Error::new(std::io::ErrorKind::InvalidInput, "seek out of range"))?;
        Ok(self.pos)
    }
}

fn gen_sparse(g: &mut Gen, cfg: &Cfg) -> Sparse {
    let f = gen_file(g, cfg);
    let n = f.blobs.len();
    let mut holes: Vec<(usize, u64)> = (0..2 + g.below(3))
        .map(|_| {
            let size = match g.weighted(&[50, 20, 20, 10]) {
                0 => i32::MAX as u64 - g.draw(40),
                1 => (1 << 30) + g.draw(1 << 29),
                2 => (1u64 << 31) - 1 - g.draw(1 << 16),
                _ => g.draw(1 << 20),
            };
            (if g.chance(1, 3) { 0 } else { g.below(n + 1) }, size)
        })
        .collect();
    holes.sort_by_key(|h| h.0);
    let mut s = Sparse {
        f: f.clone(),
        items: vec![],
        parts: vec![],
        len: 0,
    };
    let mut h = holes.into_iter().peekable();
    for i in 0..=n {
        while let Some((_, size)) = h.next_if(|x| x.0 <= i) {
            let mut e = Enc::new(Style::default());
            let ty = "Hole";
            let hd = header_msg(ty.as_bytes(), None, size as i32, &mut e);
            let mut p = (hd.len() as u32).to_be_bytes().to_vec();
            p.extend_from_slice(&hd);
            let l = p.len() as u64;
            s.parts.push((s.len, p));
            s.items.push(Item {
                blob: None,
                ty: ty.into(),
                start: s.len,
                size,
            });
            s.len += l + size;
        }
        if i < n {
            let mut p = vec![];
            let sp = encode_blob(&mut p, &f.blobs[i]);
            s.items.push(Item {
                blob: Some(i),
                ty: f.blobs[i].type_name().into(),
                start: s.len,
                size: (sp.end - sp.data) as u64,
            });
            let l = p.len() as u64;
            s.parts.push((s.len, p));
            s.len += l;
        }
    }
    s
}

fn label(s: &Sparse, c: &mut Case) {
    for i in &s.items {
        if i.blob.is_some() {
            c.label_if(i.start > 1 << 31, "blob behind 2 GiB");
            c.label_if(i.start > 1 << 32, "blob behind 4 GiB");
        }
    }
    c.nontrivial |= s.items.iter().any(|i| i.blob.is_some() && i.start > 1 << 32);
    c.note(|| {
        s.items
            .iter()
            .map(|i| format!("{} of {} bytes at {}", i.ty, i.size, i.start))
            .collect::<Vec<_>>()
            .join(", ")
    });
    for (a, b) in &s.parts {
        c.mixkey(*a ^ crate::gen::hash_bytes(b));
    }
}

/// Headers, then reads and seeks around the file.
fn drive<T: Read + Seek + Send>(g: &mut Gen, s: &Sparse, mut rd: BlobReader<T>) -> R {
    for (k, i) in s.items.iter().enumerate() {
        match rd.next_header_skip_blob() {
            Some(Ok((h, o))) => {
                ensure!(h.blob_type().as_str() == i.ty, "blob {k} has type {:?} instead of {:?}", h.blob_type(), i.ty);
                ensure!(h.get_blob_size() as i64 == i.size as i64, "blob {k} has size {} instead of {}", h.get_blob_size(), i.size);
                ensure!(o == Some(ByteOffset(i.start)), "blob {k} reports offset {o:?} instead of {}", i.start);
            }
            Some(Err(e)) => bail!("skipping blob {k} at {}: {}", i.start, ek(&e)),
            None => bail!("iteration ends in front of blob {k} at {}", i.start),
        }
    }
    ensure!(rd.next_header_skip_blob().is_none(), "more blobs than stored");
    if s.items.is_empty() {
        return Ok(());
    }
    let mut pos = s.len;
    for _ in 0..2 + g.below(10) {
        let k = g.below(s.items.len());
        let i = &s.items[k];
        g.open();
        let r: R = (|| {
            let mut at = |rd: &mut BlobReader<T>, g: &mut Gen| -> R {
                match g.below(3) {
                    0 => rd.seek(ByteOffset(i.start)).map_err(|e| format!("seek to {}: {}", i.start, ek(&e)))?,
                    1 => {
                        let r = rd.seek_raw(SeekFrom::End(i.start as i64 - s.len as i64)).map_err(|e| format!("seek to {} from the end: {}", i.start, ek(&e)))?;
                        ensure!(r == i.start, "seek from the end reports {r} instead of {}", i.start);
                    }
                    _ => {
                        let r = rd.seek_raw(SeekFrom::Current(i.start as i64 - pos as i64)).map_err(|e| format!("relative seek from {pos} to {}: {}", i.start, ek(&e)))?;
                        ensure!(r == i.start, "relative seek from {pos} reports {r} instead of {}", i.start);
                    }
                }
                pos = i.start;
                Ok(())
            };
            match i.blob {
                Some(b) if g.chance(3, 4) => {
                    let blob = if g.chance(1, 2) {
                        rd.blob_from_offset(ByteOffset(i.start)).map_err(|e| format!("blob from offset {}: {}", i.start, ek(&e)))?
                    } else {
                        at(&mut rd, g)?;
                        match rd.next() {
                            Some(r) => r.map_err(|e| format!("blob at {}: {}", i.start, ek(&e)))?,
                            None => bail!("no blob at {}", i.start),
                        }
                    };
                    ensure!(blob.offset() == Some(ByteOffset(i.start)), "blob at {} reports {:?}", i.start, blob.offset());
                    check_dec(&of_decode(blob.decode(), 0), &s.f.blobs[b], 0).map_err(|m| format!("blob at {}: {m}", i.start))?;
                }
                _ => {
                    at(&mut rd, g)?;
                    match rd.next_header_skip_blob() {
                        Some(Ok((h, o))) => {
                            ensure!(h.blob_type().as_str() == i.ty, "blob at {} has type {:?} instead of {:?}", i.start, h.blob_type(), i.ty);
                            ensure!(o == Some(ByteOffset(i.start)), "blob at {} reports {o:?}", i.start);
                        }
                        Some(Err(e)) => bail!("skipping the blob at {}: {}", i.start, ek(&e)),
                        None => bail!("no blob at {}", i.start),
                    }
                }
            }
            pos = s.items.get(k + 1).map_or(s.len, |n| n.start);
            // the blob after this one follows
            if let Some(n) = s.items.get(k + 1) {
                if g.chance(1, 3) {
                    match rd.next_header_skip_blob() {
                        Some(Ok((_, o))) => ensure!(o == Some(ByteOffset(n.start)), "the blob following that at {} reports {o:?} instead of {}", i.start, n.start),
                        x => bail!("the blob following that at {}: {:?}", i.start, x.map(|r| r.map(|_| ()).map_err(|e| ek(&e)))),
                    }
                    pos = s.items.get(k + 2).map_or(s.len, |n| n.start);
                }
            }
            Ok(())
        })();
        g.close();
        r?;
    }
    Ok(())
}

fn on_disk(s: &Sparse) -> Option<Tmp> {
    let t = Tmp::new(&[]);
    let mut w = std::fs::OpenOptions::new().write(true).open(&t.0).ok()?;
    w.set_len(s.len).ok()?;
    for (a, b) in &s.parts {
        w.seek(SeekFrom::Start(*a)).ok()?;
        w.write_all(b).ok()?;
    }
    Some(t)
}

/// C10, C11: positions.
pub fn positions(g: &mut Gen, c: &mut Case) -> R {
    let cfg = Cfg {
        max_blobs: 4,
        max_groups: 2,
        max_elems: 3,
        big: 0,
        many: 0,
        ..Cfg::default()
    };
    let s = Arc::new(gen_sparse(g, &cfg));
    label(&s, c);
    match g.below(4) {
        0 | 1 => {
            c.label("sparse stream");
            let rd = BlobReader::new_seekable(SparseReader { s: s.clone(), pos: 0 }).map_err(|e| ek(&e))?;
            drive(g, &s, rd)
        }
        2 => {
            let Some(t) = on_disk(&s) else { return Ok(()) };
            c.label("sparse file");
            if g.chance(1, 2) {
                drive(g, &s, BlobReader::seekable_from_path(&t.0).map_err(|e| ek(&e))?)
            } else {
                let h = std::fs::File::open(&t.0).map_err(|e| format!("harness: {e}"))?;
                let h = BufReader::with_capacity(1 + g.below(9000), h);
                drive(g, &s, BlobReader::new_seekable(h).map_err(|e| ek(&e))?)
            }
        }
        _ => {
            let Some(t) = on_disk(&s) else { return Ok(()) };
            c.label("sparse memory map");
            let m = unsafe { Mmap::from_path(&t.0) }.map_err(|e| format!("mapping {} bytes: {}", s.len, ek(&e)))?;
            let mut it = m.blob_iter();
            let one = |k: usize, x: Option<osmpbf::Result<MmapBlob<'_>>>| -> R {
                let i = &s.items[k];
                match x {
                    Some(Ok(b)) => {
                        ensure!(b.get_type().as_str() == i.ty, "blob {k} has type {:?} instead of {:?}", b.get_type(), i.ty);
                        ensure!(b.offset() == ByteOffset(i.start), "blob {k} reports offset {:?} instead of {}", b.offset(), i.start);
                        match i.blob {
                            Some(j) => check_dec(&of_decode(b.decode(), 0), &s.f.blobs[j], 0).map_err(|m| format!("blob at {}: {m}", i.start)),
                            None => Ok(()),
                        }
                    }
                    Some(Err(e)) => bail!("blob {k} at {}: {}", i.start, ek(&e)),
                    None => bail!("iteration ends in front of blob {k} at {}", i.start),
                }
            };
            for k in 0..s.items.len() {
                one(k, it.next())?;
            }
            ensure!(it.next().is_none(), "more blobs than stored");
            for _ in 0..g.below(6) {
                if s.items.is_empty() {
                    break;
                }
                let k = g.below(s.items.len());
                it.seek(ByteOffset(s.items[k].start));
                one(k, it.next())?;
            }
            it.seek(ByteOffset(s.len + g.draw(1 << 33)));
            ensure!(it.next().is_none(), "a blob behind the end");
            Ok(())
        }
    }
}

/// C12: queries.
pub fn queries(g: &mut Gen, c: &mut Case) -> R {
    let mut cfg = cfg12(g);
    cfg.max_blobs = 5;
    cfg.big = 0;
    cfg.many = 0;
    let s = Arc::new(gen_sparse(g, &cfg));
    label(&s, c);
    let ops: Vec<Op> = (0..1 + g.below(3)).map(|_| if g.chance(1, 3) { Op::Nodes } else { Op::Query(gen_filter(g, &s.f)) }).collect();
    let run = |ix: &mut dyn FnMut(&Op) -> super::indexed::Seen| -> R {
        for op in &ops {
            let r = ix(op);
            ensure!(r.end.is_none(), "{} on a conforming file failed with {:?}", op.name(), r.end);
            check_op(&s.f, op, &r).map_err(|m| format!("{}: {m}", op.name()))?;
        }
        Ok(())
    };
    if g.chance(1, 3) {
        if let Some(t) = on_disk(&s) {
            c.label("indexed sparse file");
            let mut ix = IndexedReader::from_path(&t.0).map_err(|e| ek(&e))?;
            return run(&mut |op| perform(&mut ix, op));
        }
    }
    c.label("indexed sparse stream");
    let mut ix = IndexedReader::new(SparseReader { s: s.clone(), pos: 0 }).map_err(|e| ek(&e))?;
    run(&mut |op| perform(&mut ix, op))
}
