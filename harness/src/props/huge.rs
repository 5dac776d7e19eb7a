//! Blocks filled up to the content limit of 32 MiB with one kind of thing, as
//! pinned cases: beyond 2^20, 2^22 or 2^24 of it, wherever the format has room.

use crate::case::{Case, R};
use crate::gen::mix;
use crate::io::plain;
use crate::model::frame;
use crate::obs::ek;
use crate::wire::{put_varint, zz};
use osmpbf::*;
use std::sync::Arc;

fn len_field(out: &mut Vec<u8>, f: u64, v: &[u8]) {
    put_varint(out, f << 3 | 2);
    put_varint(out, v.len() as u64);
    out.extend_from_slice(v);
}

fn int_field(out: &mut Vec<u8>, f: u64, v: u64) {
    put_varint(out, f << 3);
    put_varint(out, v);
}

fn one(f: u64, v: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(v.len() + 8);
    len_field(&mut o, f, v);
    o
}

fn packed(n: usize, v: impl Fn(usize) -> u64) -> Vec<u8> {
    let mut o = Vec::with_capacity(n);
    for i in 0..n {
        put_varint(&mut o, v(i));
    }
    o
}

/// A single byte step.
fn step(s: u64, i: usize) -> i64 {
    (mix(s, i as u64) % 127) as i64 - 63
}

fn steps(s: u64, n: usize) -> Vec<u8> {
    packed(n, |i| zz(step(s, i)))
}

fn block(strings: &[&[u8]], groups: &[Vec<u8>]) -> Vec<u8> {
    let mut st = vec![];
    for s in strings {
        len_field(&mut st, 1, s);
    }
    let mut o = one(1, &st);
    for g in groups {
        len_field(&mut o, 2, g);
    }
    assert!(o.len() < 32 << 20, "harness: content of {} bytes", o.len());
    o
}

fn blob_into(out: &mut Vec<u8>, content: &[u8]) {
    let mut data = one(1, content);
    int_field(&mut data, 2, content.len() as u64);
    let mut h = one(1, b"OSMData");
    int_field(&mut h, 3, data.len() as u64);
    frame(out, &h, &data);
}

fn with_block(c: &mut Case, content: &[u8], f: impl FnOnce(&PrimitiveBlock) -> R) -> R {
    let mut out = vec![];
    blob_into(&mut out, content);
    c.mixkey(mix(out.len() as u64, content.len() as u64));
    c.nontrivial = true;
    let blob = match BlobReader::new(plain(&Arc::new(out))).next() {
        Some(Ok(b)) => b,
        Some(Err(e)) => bail!("reading the blob: {}", ek(&e)),
        None => bail!("no blob"),
    };
    let b = blob.to_primitiveblock().map_err(|e| format!("decoding: {}", ek(&e)))?;
    f(&b)
}

/// 2^22 dense nodes, every third with a tag.
pub fn dense(c: &mut Case) -> R {
    dense_with(c, |i| i % 3 == 0)
}

/// 2^22 dense nodes of which only the last, or only the first, has a tag, or none.
pub fn dense_untagged(c: &mut Case) -> R {
    dense_with(c, |_| false)?;
    dense_with(c, |i| i == 0)?;
    dense_with(c, |i| i == (1 << 22) + 4)
}

fn dense_with(c: &mut Case, tagged: fn(usize) -> bool) -> R {
    const N: usize = (1 << 22) + 5;
    let mut kv = Vec::with_capacity(2 * N);
    for i in 0..N {
        if tagged(i) {
            kv.extend([1 + (i % 2) as u8, 1 + (i / 2 % 2) as u8]);
        }
        kv.push(0);
    }
    let mut d = one(1, &steps(1, N));
    len_field(&mut d, 8, &steps(2, N));
    len_field(&mut d, 9, &steps(3, N));
    len_field(&mut d, 10, &kv);
    with_block(c, &block(&[b"", b"a", b"b"], &[one(2, &d)]), |b| {
        let (mut id, mut lat, mut lon, mut n) = (0, 0, 0, 0);
        for e in b.elements() {
            let Element::DenseNode(e) = e else { bail!("element {n} is no dense node") };
            id += step(1, n);
            lat += step(2, n);
            lon += step(3, n);
            ensure!(
                (e.id(), e.nano_lat(), e.nano_lon()) == (id, 100 * lat, 100 * lon),
                "dense node {n}: {:?}, stored {:?}",
                (e.id(), e.nano_lat(), e.nano_lon()),
                (id, 100 * lat, 100 * lon)
            );
            let want = tagged(n).then_some((1 + (n % 2) as i32, 1 + (n / 2 % 2) as i32));
            let mut t = e.raw_tags();
            ensure!(t.next() == want && t.next().is_none(), "dense node {n}: raw tags {:?}, stored {want:?}", e.raw_tags().collect::<Vec<_>>());
            n += 1;
        }
        ensure!(n == N, "{n} dense nodes, stored {N}");
        Ok(())
    })
}

/// 2^21 dense nodes with metadata.
pub fn dense_info(c: &mut Case) -> R {
    const N: usize = (1 << 21) + 5;
    let mut i = one(1, &packed(N, |i| (i % 120) as u64));
    for f in 2..6 {
        len_field(&mut i, f, &steps(f, N));
    }
    // user names alternate between entries 1 and 2
    let sid = |i: usize| 1 + (mix(7, i as u64) % 2) as i64;
    let mut i5 = one(1, &packed(N, |i| (i % 120) as u64));
    for f in 2..5 {
        len_field(&mut i5, f, &steps(f, N));
    }
    len_field(&mut i5, 5, &packed(N, |i| zz(sid(i) - if i == 0 { 0 } else { sid(i - 1) })));
    len_field(&mut i5, 6, &packed(N, |i| u64::from(mix(9, i as u64) % 2)));
    drop(i);
    let mut d = one(1, &steps(1, N));
    len_field(&mut d, 5, &i5);
    len_field(&mut d, 8, &steps(2, N));
    len_field(&mut d, 9, &steps(3, N));
    with_block(c, &block(&[b"", b"a", b"b"], &[one(2, &d)]), |b| {
        let (mut ts, mut cs, mut uid, mut n) = (0i64, 0i64, 0i64, 0);
        for e in b.groups().flat_map(|g| g.dense_nodes()) {
            ts += step(2, n);
            cs += step(3, n);
            uid += step(4, n);
            let Some(x) = e.info() else { bail!("dense node {n} without metadata") };
            let got = (x.version(), x.milli_timestamp(), x.changeset(), i64::from(x.uid()), x.user().ok(), x.visible());
            let want = ((n % 120) as i32, 1000 * ts, cs, uid, Some(["a", "b"][sid(n) as usize - 1]), mix(9, n as u64) % 2 == 1);
            ensure!(got == want, "dense node {n}: metadata {got:?}, stored {want:?}");
            n += 1;
        }
        ensure!(n == N, "{n} dense nodes, stored {N}");
        Ok(())
    })
}

/// More than 2^24 references.
pub fn refs(c: &mut Case) -> R {
    const N: usize = (1 << 24) + 7;
    let mut w = vec![];
    int_field(&mut w, 1, 5);
    len_field(&mut w, 8, &steps(1, N));
    let mut v = vec![];
    int_field(&mut v, 1, 6);
    len_field(&mut v, 8, &steps(2, 3));
    let mut g = one(3, &w);
    len_field(&mut g, 3, &v);
    with_block(c, &block(&[b""], &[g]), |b| {
        let ways: Vec<Way> = b.groups().flat_map(|g| g.ways()).collect();
        ensure!(ways.len() == 2, "{} ways", ways.len());
        for (w, (s, len)) in ways.iter().zip([(1, N), (2, 3)]) {
            ensure!(w.refs().len() == len, "{} references announced, stored {len}", w.refs().len());
            let (mut id, mut n) = (0, 0);
            for r in w.refs() {
                id += step(s, n);
                ensure!(r == id, "reference {n}: {r}, stored {id}");
                n += 1;
            }
            ensure!(n == len, "{n} references, stored {len}");
        }
        Ok(())
    })
}

/// More than 2^23 node locations.
pub fn locations(c: &mut Case) -> R {
    const N: usize = (1 << 23) + 7;
    let mut w = vec![];
    int_field(&mut w, 1, 5);
    len_field(&mut w, 8, &steps(1, N));
    len_field(&mut w, 9, &steps(2, N));
    len_field(&mut w, 10, &steps(3, N));
    with_block(c, &block(&[b""], &[one(3, &w)]), |b| {
        let Some(Element::Way(w)) = b.elements().next() else { bail!("no way") };
        let (mut lat, mut lon, mut n) = (0, 0, 0);
        for l in w.node_locations() {
            lat += step(2, n);
            lon += step(3, n);
            ensure!((l.nano_lat(), l.nano_lon()) == (100 * lat, 100 * lon), "location {n}: {:?}", (l.nano_lat(), l.nano_lon()));
            n += 1;
        }
        ensure!(n == N, "{n} locations, stored {N}");
        Ok(())
    })
}

/// More than 2^23 members.
pub fn members(c: &mut Case) -> R {
    const N: usize = (1 << 23) + 7;
    let ty = |i: usize| mix(4, i as u64) % 3;
    let role = |i: usize| mix(5, i as u64) % 3;
    let mut r = vec![];
    int_field(&mut r, 1, 5);
    len_field(&mut r, 8, &packed(N, role));
    len_field(&mut r, 9, &steps(1, N));
    len_field(&mut r, 10, &packed(N, ty));
    with_block(c, &block(&[b"", b"a", b"b"], &[one(4, &r)]), |b| {
        let Some(Element::Relation(r)) = b.elements().next() else { bail!("no relation") };
        let (mut id, mut n) = (0, 0);
        for m in r.members() {
            id += step(1, n);
            let t = match m.member_type {
                RelMemberType::Node => 0,
                RelMemberType::Way => 1,
                RelMemberType::Relation => 2,
            };
            let got = (t, m.member_id, m.role().ok());
            let want = (ty(n), id, Some(["", "a", "b"][role(n) as usize]));
            ensure!(got == want, "member {n}: {got:?}, stored {want:?}");
            n += 1;
        }
        ensure!(n == N, "{n} members, stored {N}");
        Ok(())
    })
}

/// 2^21 strings and tags on an element of each kind.
pub fn tags(c: &mut Case) -> R {
    const S: usize = (1 << 21) + 5;
    const N: usize = (1 << 20) + 3;
    let mut st = vec![];
    for i in 0..S {
        // the number in base 128, without zero bytes
        let s: Vec<u8> = [i & 63, i >> 6 & 63, i >> 12 & 63, i >> 18].iter().map(|d| b'0' + *d as u8).collect();
        len_field(&mut st, 1, &s);
    }
    let text = |i: usize| [i & 63, i >> 6 & 63, i >> 12 & 63, i >> 18].iter().map(|d| (b'0' + *d as u8) as char).collect::<String>();
    let key = |s: u64, i: usize| mix(s, i as u64) % S as u64;
    let mut groups = vec![];
    for k in 0..3u64 {
        let mut m = vec![];
        int_field(&mut m, 1, 4);
        len_field(&mut m, 2, &packed(N, |i| key(k, i)));
        len_field(&mut m, 3, &packed(N, |i| key(k + 10, i)));
        if k == 0 {
            int_field(&mut m, 8, 2);
            int_field(&mut m, 9, 2);
        }
        groups.push(one([1, 3, 4][k as usize], &m));
        // one kind at a time fits the limit
        let mut content = one(1, &st);
        len_field(&mut content, 2, &groups[k as usize]);
        with_block(c, &content, |b| {
            ensure!(b.raw_stringtable().len() == S, "{} strings", b.raw_stringtable().len());
            let e = b.elements().next();
            let (t, raw) = match &e {
                Some(Element::Node(e)) => (e.tags(), e.raw_tags()),
                Some(Element::Way(e)) => (e.tags(), e.raw_tags()),
                Some(Element::Relation(e)) => (e.tags(), e.raw_tags()),
                _ => bail!("no element"),
            };
            ensure!(t.len() == N && raw.len() == N, "{} and {} tags announced, stored {N}", t.len(), raw.len());
            let mut n = 0;
            for (x, r) in t.zip(raw) {
                let want = (key(k, n), key(k + 10, n));
                ensure!((u64::from(r.0), u64::from(r.1)) == want, "tag {n}: raw {r:?}, stored {want:?}");
                ensure!(x.0 == text(want.0 as usize) && x.1 == text(want.1 as usize), "tag {n}: {x:?}, stored {want:?}");
                n += 1;
            }
            ensure!(n == N, "{n} tags, stored {N}");
            Ok(())
        })?;
    }
    Ok(())
}

/// More than 2^20 plain elements of one kind in a group.
pub fn elements(c: &mut Case) -> R {
    const N: usize = (1 << 20) + 9;
    for (k, f) in [1u64, 3, 4].into_iter().enumerate() {
        let mut g = vec![];
        for i in 0..N {
            let mut m = vec![];
            let id = mix(k as u64, i as u64) % 1000 + i as u64;
            int_field(&mut m, 1, if k == 0 { zz(id as i64) } else { id });
            if k == 0 {
                int_field(&mut m, 8, 2);
                int_field(&mut m, 9, 2);
            }
            len_field(&mut g, f, &m);
        }
        with_block(c, &block(&[b""], &[g]), |b| {
            let mut n = 0;
            let check = |n: usize, e: &Element| -> R {
                let (kk, id) = match e {
                    Element::Node(e) => (0, e.id()),
                    Element::Way(e) => (1, e.id()),
                    Element::Relation(e) => (2, e.id()),
                    Element::DenseNode(_) => bail!("element {n} is a dense node"),
                };
                let want = (mix(k as u64, n as u64) % 1000) as i64 + n as i64;
                ensure!(kk == k && id == want, "element {n}: kind {kk} id {id}, stored kind {k} id {want}");
                Ok(())
            };
            for e in b.elements() {
                check(n, &e)?;
                n += 1;
            }
            ensure!(n == N, "{n} elements, stored {N}");
            let (mut m, mut r) = (0, Ok(()));
            b.for_each_element(|e| {
                if r.is_ok() {
                    r = check(m, &e);
                }
                m += 1;
            });
            r?;
            ensure!(m == N, "{m} elements by callback, stored {N}");
            Ok(())
        })?;
    }
    Ok(())
}

/// More than 2^20 groups in a block.
pub fn groups(c: &mut Case) -> R {
    const N: usize = (1 << 20) + 9;
    let mut w = vec![];
    int_field(&mut w, 1, 3);
    let w = one(3, &w);
    let gs: Vec<Vec<u8>> = (0..N).map(|i| if i % 5 == 0 || i + 1 == N { w.clone() } else { vec![] }).collect();
    with_block(c, &block(&[b""], &gs), |b| {
        ensure!(b.groups().len() == N, "{} groups announced, stored {N}", b.groups().len());
        let want = (0..N).filter(|i| i % 5 == 0 || i + 1 == N).count();
        for (n, how) in [
            (b.elements().count(), "elements"),
            (b.groups().map(|g| g.ways().len()).sum(), "ways by group"),
        ] {
            ensure!(n == want, "{n} {how}, stored {want}");
        }
        Ok(())
    })
}

/// A million blobs, one element in some of them, in sequence, in parallel and
/// through the index.
pub fn blobs(c: &mut Case) -> R {
    const N: usize = (1 << 20) + 9;
    let mk = |id: i64| {
        let mut m = vec![];
        int_field(&mut m, 1, zz(id));
        int_field(&mut m, 8, 2);
        int_field(&mut m, 9, 2);
        block(&[], &[one(1, &m)])
    };
    let empty = block(&[], &[]);
    let mut out = vec![];
    let mut want = vec![];
    for i in 0..N {
        if i % 16 == 0 || i + 1 == N {
            want.push(i as i64);
            blob_into(&mut out, &mk(i as i64));
        } else {
            blob_into(&mut out, &empty);
        }
    }
    c.nontrivial = true;
    c.mixkey(out.len() as u64);
    let bytes = Arc::new(out);
    let id = |e: &Element| match e {
        Element::Node(n) => n.id(),
        _ => -1,
    };
    let mut got = vec![];
    ElementReader::new(plain(&bytes)).for_each(|e| got.push(id(&e))).map_err(|e| format!("in sequence: {}", ek(&e)))?;
    ensure!(got == want, "in sequence: {} elements, stored {}", got.len(), want.len());
    let sum = |v: &[i64]| (v.len() as i64, v.iter().sum::<i64>());
    let r = ElementReader::new(plain(&bytes))
        .par_map_reduce(|e| (1, id(&e)), || (0, 0), |a, b| (a.0 + b.0, a.1 + b.1))
        .map_err(|e| format!("in parallel: {}", ek(&e)))?;
    ensure!(r == sum(&want), "in parallel: {r:?}, expected {:?}", sum(&want));
    let mut ix = IndexedReader::new(plain(&bytes)).map_err(|e| ek(&e))?;
    for k in 0..2 {
        got.clear();
        ix.for_each_node(|e| got.push(id(&e))).map_err(|e| format!("through the index: {}", ek(&e)))?;
        ensure!(got == want, "through the index, time {k}: {} elements, stored {}", got.len(), want.len());
    }
    Ok(())
}

/// A way which needs more than 2^20 nodes of twice as many.
pub fn indexed(c: &mut Case) -> R {
    const N: usize = (1 << 20) + 11;
    const B: usize = 8;
    let mut out = vec![];
    let mut w = vec![];
    int_field(&mut w, 1, 77);
    len_field(&mut w, 8, &packed(N, |_| zz(4)));
    for k in 0..B {
        // ids 0, 2, 4, ... over the blobs, descending in every other one
        let n = 2 * N / B;
        let first = |i: usize| (2 * k * n + 2 * i) as i64;
        let down = k % 2 == 1;
        let start = if down { first(n - 1) } else { first(0) };
        let mut d = one(1, &packed(n, |i| zz(if i == 0 { start } else if down { -2 } else { 2 })));
        len_field(&mut d, 8, &vec![0; n]);
        len_field(&mut d, 9, &vec![0; n]);
        blob_into(&mut out, &block(&[b""], &[one(2, &d)]));
        if k == 2 {
            blob_into(&mut out, &block(&[b""], &[one(3, &w)]));
        }
    }
    c.nontrivial = true;
    c.mixkey(out.len() as u64);
    let last = (2 * (B * (2 * N / B)) - 2) as i64;
    let bytes = Arc::new(out);
    let mut ix = IndexedReader::new(plain(&bytes)).map_err(|e| ek(&e))?;
    for k in 0..2 {
        let (mut ways, mut nodes) = (vec![], vec![]);
        ix.read_ways_and_deps(
            |_| true,
            |e| match e {
                Element::Way(w) => ways.push((w.id(), w.refs().len())),
                Element::DenseNode(n) => nodes.push(n.id()),
                _ => nodes.push(-1),
            },
        )
        .map_err(|e| ek(&e))?;
        ensure!(ways == [(77, N)], "query {k}: ways {ways:?}");
        nodes.sort_unstable();
        let want: Vec<i64> = (1..=N as i64).map(|i| 4 * i).filter(|i| *i <= last).collect();
        ensure!(nodes == want, "query {k}: {} nodes, needed are {}", nodes.len(), want.len());
    }
    Ok(())
}
