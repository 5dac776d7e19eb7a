//! One generated case, what it observed about itself, and scratch files.

use std::cell::Cell;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

pub type R = Result<(), String>;

#[derive(Default)]
pub struct Case {
    /// classification labels, counted in the evidence
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    /// identity of the case for the distinct count (0: derive from the tape)
    pub key: u64,
    /// build a description?
    pub want: bool,
    pub desc: String,
    /// the PBF bytes, if the case has some (written beside the replay file)
    pub pbf: Vec<u8>,
    pub thorough: bool,
}

impl Case {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want {
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            self.desc.push_str(&f());
        }
    }
    /// Record the file bytes of this case.
    pub fn file(&mut self, b: &[u8]) {
        self.key = crate::gen::mix(self.key, crate::gen::hash_bytes(b));
        if self.want {
            self.pbf = b.to_vec();
        }
    }
    pub fn mixkey(&mut self, v: u64) {
        self.key = crate::gen::mix(self.key, v);
    }
}

static DIR: OnceLock<PathBuf> = OnceLock::new();
static NEXT: AtomicU64 = AtomicU64::new(0);

fn scratch_dir() -> &'static PathBuf {
    DIR.get_or_init(|| {
        let pid = std::process::id();
        for base in ["/dev/shm", "/tmp"] {
            let d = PathBuf::from(format!("{base}/osmpbf-verif-{pid}"));
            if std::fs::create_dir_all(&d).is_ok() && std::fs::write(d.join("w"), b"x").is_ok() {
                return d;
            }
        }
        panic!("harness: no scratch directory");
    })
}

pub fn cleanup() {
    if let Some(d) = DIR.get() {
        let _ = std::fs::remove_dir_all(d);
    }
}

/// All kinds of file names.
fn scratch_name(n: u64) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let mut v = format!("f{n}").into_bytes();
    v.extend_from_slice(match crate::obs::name_kind() {
        1 => b".pbf".as_slice(),
        2 => b"",
        3 => b" with spaces .osm.pbf",
        4 => b"-caf\xe9.osm.pbf",
        5 => "-Straße-日本.osm.pbf".as_bytes(),
        6 => b"-\xff\xfe",
        7 => b"\n.osm.pbf",
        8 => b".osm.pbf ",
        9 => b"\\x.osm",
        10 => b"%20?x=#y&.PBF",
        11 => b".gz",
        12 => &[b'n'; 200],
        _ => b".osm.pbf",
    });
    std::ffi::OsString::from_vec(v)
}

/// A scratch file holding the given bytes; removed on drop.
pub struct Tmp(pub PathBuf, Option<PathBuf>);

impl Tmp {
    pub fn new(b: &[u8]) -> Tmp {
        let n = NEXT.fetch_add(1, Ordering::Relaxed);
        let mut p = scratch_dir().join(scratch_name(n));
        std::fs::write(&p, b).expect("harness: scratch write failed");
        let mut real = None;
        if crate::obs::name_kind() == 13 {
            let link = scratch_dir().join(format!("link{n}"));
            std::os::unix::fs::symlink(&p, &link).expect("harness: symlink failed");
            real = Some(std::mem::replace(&mut p, link));
        }
        Tmp(p, real)
    }
    pub fn missing() -> Tmp {
        let n = NEXT.fetch_add(1, Ordering::Relaxed);
        Tmp(scratch_dir().join(format!("missing{n}.osm.pbf")), None)
    }
}

impl Drop for Tmp {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
        if let Some(p) = &self.1 {
            let _ = std::fs::remove_file(p);
        }
    }
}

thread_local! {
    static ITEMS: Cell<u64> = const { Cell::new(0) };
    static ITEM_CAP: Cell<u64> = const { Cell::new(u64::MAX) };
}

pub const BUDGET_MARK: &str = "VERIF-BUDGET";

pub fn set_item_cap(cap: u64) {
    ITEMS.with(|c| c.set(0));
    ITEM_CAP.with(|c| c.set(cap));
}

/// Count one delivered item; more than the cap means the iteration is not
/// bounded by its input.
#[inline]
pub fn tick() {
    ITEMS.with(|c| {
        let n = c.get() + 1;
        c.set(n);
        if n > ITEM_CAP.with(|x| x.get()) {
            ITEM_CAP.with(|x| x.set(u64::MAX));
            panic!("{BUDGET_MARK}: more items delivered than the input can hold");
        }
    });
}
