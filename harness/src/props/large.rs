//! Files beyond 65,536 of everything, as pinned cases: counts, indexes and
//! lengths that no longer fit 16 bits (or any buffer of a round size).

use super::content::{check_blocks, check_sequential};
use crate::case::{Case, R};
use crate::gen::mix;
use crate::io::plain;
use crate::model::*;
use crate::obs::*;
use osmpbf::*;
use std::sync::Arc;

const N: usize = 70_003;

fn val(s: u64, i: usize, lim: i64) -> i64 {
    (mix(s, i as u64) % (2 * lim as u64 + 1)) as i64 - lim
}

fn strings(n: usize) -> Vec<Vec<u8>> {
    let mut v = vec![vec![]];
    v.extend((1..n).map(|i| format!("s{i}").into_bytes()));
    v
}

fn data(b: BlockM) -> BlobM {
    BlobM::new(Kind::Data(b))
}

fn group(g: GroupM) -> GroupM {
    g
}

fn file_of(groups: Vec<GroupM>, nstr: usize) -> FileM {
    FileM {
        blobs: vec![
            BlobM::new(Kind::Header(HeaderM::default())),
            data(BlockM {
                strings: strings(nstr),
                groups,
                ..BlockM::default()
            }),
        ],
    }
}

fn dense_nodes(n: usize, nstr: usize, s: u64) -> DenseM {
    let ix = |k: u64, i: usize| (mix(s ^ k, i as u64) % (nstr as u64 - 1)) as u32 + 1;
    DenseM {
        nodes: (0..n)
            .map(|i| DNodeM {
                id: val(s, i, 1 << 60),
                lat: val(s ^ 1, i, 900_000_000),
                lon: val(s ^ 2, i, 1_800_000_000),
                tags: (0..mix(s ^ 9, i as u64) % 3).map(|k| (ix(10 + k, i), ix(20 + k, i))).collect(),
                info: DInfoM {
                    version: (i % 100) as i32,
                    ts: val(s ^ 3, i, 1 << 40),
                    cs: val(s ^ 4, i, 1 << 60),
                    uid: val(s ^ 5, i, 1 << 29) as i32,
                    user_sid: ix(30, i) as i32,
                    visible: i % 7 != 0,
                },
            })
            .collect(),
        has_info: true,
        has_visible: true,
        missing: 0,
        tag_col: true,
    }
}

fn all(f: &FileM, c: &mut Case, w: u32) -> R {
    let (bytes, _) = encode_file(f);
    c.file(&bytes);
    c.nontrivial = true;
    let bytes = Arc::new(bytes);
    check_sequential(f, &bytes, w)?;
    check_blocks(f, &bytes, w)
}

pub fn dense(c: &mut Case) -> R {
    let g = GroupM {
        dense: Some(dense_nodes(2 * N, N, 7)),
        ..GroupM::default()
    };
    all(&file_of(vec![group(g)], N), c, TAGS | POS | INFO | RAW)
}

/// One dense node with more than 65,536 tags, its neighbours with one.
pub fn dense_tags(c: &mut Case) -> R {
    let mut d = dense_nodes(3, N, 8);
    d.nodes[0].tags = vec![(1, 2)];
    d.nodes[1].tags = (0..N).map(|i| (1 + (i % (N - 1)) as u32, 1 + ((i * 7) % (N - 1)) as u32)).collect();
    d.nodes[2].tags = vec![(3, 4)];
    let g = GroupM {
        dense: Some(d),
        ..GroupM::default()
    };
    all(&file_of(vec![g], N), c, TAGS | POS | INFO | RAW)
}

pub fn way(c: &mut Case) -> R {
    let mk = |s: u64, n: usize| WayM {
        id: s as i64,
        refs: (0..n).map(|i| val(s, i, 1 << 60)).collect(),
        locs: Some((0..n).map(|i| (val(s ^ 1, i, 900_000_000), val(s ^ 2, i, 1_800_000_000))).collect()),
        ..WayM::default()
    };
    let g = GroupM {
        ways: vec![mk(1, 3), mk(2, 2 * N), mk(3, 5)],
        ..GroupM::default()
    };
    all(&file_of(vec![g], 3), c, REFS | LOCS | RAW)
}

pub fn relation(c: &mut Case) -> R {
    let mk = |s: u64, n: usize| RelM {
        id: s as i64,
        members: (0..n)
            .map(|i| MemberM {
                ty: (mix(s, i as u64) % 3) as u8,
                id: val(s ^ 1, i, 1 << 60),
                role: (mix(s ^ 2, i as u64) % N as u64) as i32,
            })
            .collect(),
        ..RelM::default()
    };
    let g = GroupM {
        rels: vec![mk(1, 3), mk(2, 2 * N), mk(3, 5)],
        ..GroupM::default()
    };
    all(&file_of(vec![g], N), c, MEMB | RAW)
}

/// Every kind of element with tags spread over (and more than) 65,536 strings.
pub fn tags(c: &mut Case) -> R {
    let t = |s: u64, n: usize| -> Vec<(u32, u32)> {
        (0..n).map(|i| ((mix(s, i as u64) % N as u64) as u32, (mix(s ^ 1, i as u64) % N as u64) as u32)).collect()
    };
    let g = GroupM {
        nodes: vec![
            NodeM { id: 1, tags: t(1, 4), ..NodeM::default() },
            NodeM { id: 2, tags: t(2, N), ..NodeM::default() },
            NodeM { id: 3, tags: t(3, 4), ..NodeM::default() },
        ],
        ..GroupM::default()
    };
    let h = GroupM {
        ways: vec![WayM { id: 4, tags: t(4, N), ..WayM::default() }, WayM { id: 5, tags: t(5, 3), ..WayM::default() }],
        ..GroupM::default()
    };
    let k = GroupM {
        rels: vec![RelM { id: 6, tags: t(6, N), ..RelM::default() }, RelM { id: 7, tags: t(7, 3), ..RelM::default() }],
        ..GroupM::default()
    };
    all(&file_of(vec![g, h, k], N), c, TAGS | RAW)
}

/// One string of a mebibyte, as key, value, role and user.
pub fn long_string(c: &mut Case) -> R {
    let mut f = file_of(vec![], 4);
    if let Kind::Data(b) = &mut f.blobs[1].kind {
        b.strings[3] = (0..1 << 20).map(|i| b'a' + (i % 23) as u8).collect();
        b.groups = vec![
            GroupM {
                dense: Some(dense_nodes(40, 4, 3)),
                ..GroupM::default()
            },
            GroupM {
                ways: vec![WayM { id: 4, tags: vec![(3, 3), (1, 3), (3, 2)], ..WayM::default() }],
                ..GroupM::default()
            },
            GroupM {
                rels: vec![RelM { id: 4, tags: vec![(3, 1)], members: vec![MemberM { ty: 1, id: 7, role: 3 }], ..RelM::default() }],
                ..GroupM::default()
            },
        ];
    }
    all(&f, c, TAGS | INFO | MEMB | RAW)
}

/// Plain elements of each kind, more than 65,536 in one group.
pub fn elements(c: &mut Case) -> R {
    let i = |k: usize| {
        Some(InfoM {
            version: Some(k as i32),
            ts: Some(val(1, k, 1 << 40)),
            cs: Some(k as i64),
            uid: Some(k as i32),
            user_sid: Some((k % N) as u32),
            visible: Some(k % 3 == 0),
        })
    };
    let g = vec![
        GroupM {
            nodes: (0..N).map(|k| NodeM { id: val(5, k, 1 << 60), lat: val(6, k, 900_000_000), lon: val(7, k, 900_000_000), tags: vec![], info: i(k) }).collect(),
            ..GroupM::default()
        },
        GroupM {
            ways: (0..N).map(|k| WayM { id: val(8, k, 1 << 60), info: i(k), ..WayM::default() }).collect(),
            ..GroupM::default()
        },
        GroupM {
            rels: (0..N).map(|k| RelM { id: val(9, k, 1 << 60), info: i(k), ..RelM::default() }).collect(),
            ..GroupM::default()
        },
    ];
    all(&file_of(g, N), c, POS | INFO)
}

fn small_block(k: usize) -> BlockM {
    let mut b = BlockM {
        strings: strings(2),
        ..BlockM::default()
    };
    if k % 5 != 0 {
        b.groups.push(GroupM {
            nodes: vec![NodeM { id: k as i64, ..NodeM::default() }],
            ..GroupM::default()
        });
    }
    b
}

pub fn many_blobs() -> FileM {
    FileM {
        blobs: (0..N).map(|k| if k % 97 == 0 { BlobM::new(Kind::Unknown("X".into(), vec![1])) } else { data(small_block(k)) }).collect(),
    }
}

pub fn groups(c: &mut Case) -> R {
    let g = (0..N)
        .map(|k| GroupM {
            nodes: if k % 3 == 0 { vec![NodeM { id: k as i64, ..NodeM::default() }] } else { vec![] },
            ways: if k % 3 == 1 { vec![WayM { id: k as i64, ..WayM::default() }] } else { vec![] },
            ..GroupM::default()
        })
        .collect();
    all(&file_of(g, 1), c, 0)
}

/// More than 65,536 empty groups in front of one element, and in front of none.
pub fn hollow_groups(c: &mut Case) -> R {
    let mut g: Vec<GroupM> = (0..N).map(|_| GroupM::default()).collect();
    g.push(GroupM {
        nodes: vec![NodeM { id: 5, ..NodeM::default() }],
        ..GroupM::default()
    });
    g.extend((0..N).map(|_| GroupM::default()));
    all(&file_of(g, 1), c, 0)
}

pub fn blobs(c: &mut Case) -> R {
    let f = many_blobs();
    all(&f, c, 0)
}

pub fn blobs_parallel(c: &mut Case) -> R {
    let f = many_blobs();
    let (bytes, _) = encode_file(&f);
    c.file(&bytes);
    c.nontrivial = true;
    let bytes = Arc::new(bytes);
    let mut e = super::parallel::Acc::default();
    for v in exp_file(&f, 0) {
        for x in v {
            e = e.join(super::parallel::Acc::one(&x));
        }
    }
    for n in [1, 4] {
        let (r, calls) = super::parallel::par(plain(&bytes), n, 0, false);
        let r = r.map_err(|m| format!("{n} threads: {m}"))?;
        ensure!(r == e, "{n} threads: {}", super::parallel::diff(&r, &e));
        ensure!(calls == e.count, "{n} threads: {calls} map calls for {} elements", e.count);
    }
    Ok(())
}

/// A single blob with far more than 65,536 elements, in parallel.
pub fn dense_parallel(c: &mut Case) -> R {
    let g = GroupM {
        dense: Some(dense_nodes(2 * N, 50, 4)),
        ..GroupM::default()
    };
    let f = file_of(vec![g], 50);
    let (bytes, _) = encode_file(&f);
    c.file(&bytes);
    c.nontrivial = true;
    let (r, _) = super::parallel::par(plain(&Arc::new(bytes)), 4, POS, false);
    let r = r?;
    ensure!(r.count == 2 * N as u64, "{} elements instead of {}", r.count, 2 * N);
    Ok(())
}

/// More than 65,536 ways and wanted nodes through the index.
pub fn indexed(c: &mut Case) -> R {
    let node = |k: usize| NodeM { id: k as i64 * 3, ..NodeM::default() };
    let mut blobs = vec![];
    for b in 0..40 {
        blobs.push(data(BlockM {
            strings: strings(1),
            groups: vec![GroupM {
                nodes: (b * 5000..(b + 1) * 5000).map(node).collect(),
                ..GroupM::default()
            }],
            ..BlockM::default()
        }));
    }
    blobs.push(data(BlockM {
        strings: strings(1),
        groups: vec![GroupM {
            ways: (0..N)
                .map(|k| WayM {
                    id: k as i64,
                    refs: vec![(k as i64 * 6) % 600_000, (k as i64 * 12 + 6) % 600_000],
                    ..WayM::default()
                })
                .collect(),
            ..GroupM::default()
        }],
        ..BlockM::default()
    }));
    let f = FileM { blobs };
    let (bytes, _) = encode_file(&f);
    c.file(&bytes);
    c.nontrivial = true;
    let mut ix = IndexedReader::new(plain(&Arc::new(bytes))).map_err(|e| ek(&e))?;
    let (mut ways, mut nodes) = (vec![], vec![]);
    ix.read_ways_and_deps(
        |w| w.id() % 2 == 0,
        |e| match e {
            Element::Way(w) => ways.push(w.id()),
            Element::Node(n) => nodes.push(n.id()),
            _ => nodes.push(-1),
        },
    )
    .map_err(|e| ek(&e))?;
    ways.sort_unstable();
    nodes.sort_unstable();
    let ew: Vec<i64> = (0..N as i64).filter(|k| k % 2 == 0).collect();
    let mut en: Vec<i64> = ew.iter().flat_map(|k| [(k * 6) % 600_000, (k * 12 + 6) % 600_000]).collect();
    en.sort_unstable();
    en.dedup();
    ensure!(ways == ew, "{} ways instead of {}", ways.len(), ew.len());
    ensure!(nodes == en, "{} nodes instead of {}", nodes.len(), en.len());
    let mut n = 0usize;
    ix.for_each_node(|_| n += 1).map_err(|e| ek(&e))?;
    ensure!(n == 200_000, "{n} nodes instead of 200000");
    Ok(())
}

/// Nodes and ways alternating over 70,003 blobs, through one index.
pub fn indexed_blobs(c: &mut Case) -> R {
    let one = |k: usize| {
        let k = k as i64;
        data(BlockM {
            groups: vec![if k % 2 == 0 {
                GroupM {
                    nodes: vec![NodeM { id: k, ..NodeM::default() }],
                    ..GroupM::default()
                }
            } else {
                GroupM {
                    ways: vec![WayM {
                        id: k,
                        refs: vec![k - 1, k + 1],
                        ..WayM::default()
                    }],
                    ..GroupM::default()
                }
            }],
            ..BlockM::default()
        })
    };
    let f = FileM {
        blobs: (0..N).map(one).collect(),
    };
    let (bytes, _) = encode_file(&f);
    c.file(&bytes);
    c.nontrivial = true;
    let mut ix = IndexedReader::new(plain(&Arc::new(bytes))).map_err(|e| ek(&e))?;
    for step in 8..11 {
        let (mut ways, mut nodes) = (vec![], vec![]);
        ix.read_ways_and_deps(
            |w| w.id() % step == 1,
            |e| match e {
                Element::Way(w) => ways.push(w.id()),
                Element::Node(n) => nodes.push(n.id()),
                _ => nodes.push(-1),
            },
        )
        .map_err(|e| ek(&e))?;
        let ew: Vec<i64> = (0..N as i64).filter(|k| k % 2 == 1 && k % step == 1).collect();
        let mut en: Vec<i64> = ew.iter().flat_map(|k| [k - 1, k + 1]).filter(|k| *k < N as i64).collect();
        en.dedup();
        ensure!(ways == ew, "{} ways instead of {}", ways.len(), ew.len());
        ensure!(nodes == en, "{} nodes instead of {}", nodes.len(), en.len());
        let mut nodes = vec![];
        ix.for_each_node(|e| nodes.push(if let Element::Node(n) = e { n.id() } else { -1 })).map_err(|e| ek(&e))?;
        let en: Vec<i64> = (0..N as i64).filter(|k| k % 2 == 0).collect();
        ensure!(nodes == en, "{} nodes instead of {}", nodes.len(), en.len());
    }
    Ok(())
}

/// The same 70,003 blobs by the memory map and from header to header.
pub fn blobs_everywhere(c: &mut Case) -> R {
    let f = many_blobs();
    let (bytes, spans) = encode_file(&f);
    c.file(&bytes);
    c.nontrivial = true;
    let t = crate::case::Tmp::new(&bytes);
    let m = super::access::map_file(&t)?;
    let mut n = 0;
    for b in m.blob_iter() {
        let b = b.map_err(|e| format!("memory map: blob {n}: {}", ek(&e)))?;
        ensure!(n < spans.len(), "the memory map yields more than {} blobs", spans.len());
        ensure!(b.offset().0 == spans[n].start as u64, "memory map: blob {n} at {} instead of {}", b.offset().0, spans[n].start);
        check_dec(&of_decode(b.decode(), 0), &f.blobs[n], 0).map_err(|e| format!("memory map: blob {n}: {e}"))?;
        n += 1;
    }
    ensure!(n == spans.len(), "the memory map yields {n} blobs instead of {}", spans.len());
    let mut rd = BlobReader::new_seekable(plain(&Arc::new(bytes))).map_err(|e| ek(&e))?;
    let mut n = 0;
    while let Some(r) = rd.next_header_skip_blob() {
        let (h, o) = r.map_err(|e| format!("header skipping: blob {n}: {}", ek(&e)))?;
        ensure!(n < spans.len(), "header skipping yields more than {} blobs", spans.len());
        ensure!(o == Some(ByteOffset(spans[n].start as u64)), "header skipping: blob {n} at {o:?} instead of {}", spans[n].start);
        ensure!(h.blob_type().as_str() == f.blobs[n].type_name(), "header skipping: blob {n} has type {:?}", h.blob_type());
        n += 1;
    }
    ensure!(n == spans.len(), "header skipping yields {n} blobs instead of {}", spans.len());
    for i in (0..spans.len()).rev().step_by(4999) {
        let b = rd.blob_from_offset(ByteOffset(spans[i].start as u64)).map_err(|e| format!("blob {i}: {}", ek(&e)))?;
        check_dec(&of_decode(b.decode(), 0), &f.blobs[i], 0).map_err(|e| format!("blob {i} by its offset: {e}"))?;
    }
    Ok(())
}
