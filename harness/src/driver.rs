//! Runs a property: pinned cases, random cases on all cores, a
//! coverage-guided campaign, shrinking, replay files and evidence.

use crate::case::{cleanup, set_item_cap, Case, BUDGET_MARK, R};
use crate::gen::{mix, Choice, Gen};
use guard;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Gen, &mut Case) -> R,
    pub pinned: &'static [(&'static str, fn(&mut Case) -> R)],
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub workers: usize,
    /// coverage-guided runs per process, quick and thorough (0: none)
    pub fuzz: (u64, u64),
}

#[derive(Clone, Debug)]
pub enum Src {
    Pinned(usize),
    Seed(u64),
    Tape(Vec<u64>),
    Bytes(Vec<u8>),
}

pub enum Fail {
    Violation(String),
    Harness(String),
}

static MOST_STEPS: AtomicU64 = AtomicU64::new(0);
static MOST_MEM: AtomicU64 = AtomicU64::new(0);
static MOST_MEM_PINNED: AtomicU64 = AtomicU64::new(0);
const STEP_CAP: u64 = 2_500_000_000;
const ITEM_CAP: u64 = 60_000_000;
/// Bytes one case may hold at once on its thread.
const MEM_CAP: i64 = 2 << 30;
const MEM_CAP_PINNED: i64 = 3 << 30;

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static CURRENT: RefCell<Option<(&'static str, Src)>> = const { RefCell::new(None) };
}
static ANY_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);
static TIER_THOROUGH: AtomicBool = AtomicBool::new(false);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(no message)".to_string()
        };
        let loc = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg.clone(), loc.clone())));
        if let Ok(mut g) = ANY_PANIC.lock() {
            *g = Some((msg, loc));
        }
    }));
}

/// Run one case.
pub fn exec(p: &'static Prop, src: &Src, want: bool) -> (Result<(), Fail>, Case, Gen) {
    let mut g = match src {
        Src::Pinned(_) => Gen::from_tape(&[]),
        Src::Seed(s) => Gen::from_seed(*s),
        Src::Tape(t) => Gen::from_tape(t),
        Src::Bytes(b) => Gen::from_bytes(b),
    };
    let mut c = Case {
        want,
        thorough: TIER_THOROUGH.load(SeqCst),
        ..Case::default()
    };
    set_item_cap(ITEM_CAP);
    crate::obs::set_style(match src {
        Src::Pinned(_) => 0,
        _ => g.draw(1 << 20),
    });
    CURRENT.with(|x| *x.borrow_mut() = Some((p.id, src.clone())));
    LAST_PANIC.with(|x| *x.borrow_mut() = None);
    let running = Running::new(p.id, src);
    guard::arm_steps(if matches!(src, Src::Pinned(_)) { 4 * STEP_CAP } else { STEP_CAP });
    let pinned = matches!(src, Src::Pinned(_));
    guard::arm_mem(if pinned { MEM_CAP_PINNED } else { MEM_CAP });
    let r = catch_unwind(AssertUnwindSafe(|| match src {
        Src::Pinned(i) => (p.pinned[*i].1)(&mut c),
        _ => (p.run)(&mut g, &mut c),
    }));
    MOST_STEPS.fetch_max(guard::steps(), SeqCst);
    let most = if pinned { &MOST_MEM_PINNED } else { &MOST_MEM };
    most.fetch_max(guard::mem().0.max(0) as u64, SeqCst);
    guard::disarm();
    drop(running);
    CURRENT.with(|x| *x.borrow_mut() = None);
    let res = match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) if m.contains("harness:") => Err(Fail::Harness(m)),
        Ok(Err(m)) => Err(Fail::Violation(m)),
        Err(_) => {
            let lp = LAST_PANIC
                .with(|x| x.borrow_mut().take())
                .or_else(|| ANY_PANIC.lock().ok().and_then(|mut x| x.take()))
                .unwrap_or_default();
            let (msg, loc) = lp;
            if msg.contains(BUDGET_MARK) {
                Err(Fail::Violation(msg))
            } else if msg.starts_with("harness:") || msg.starts_with("generator bug") || loc.starts_with("src/") {
                Err(Fail::Harness(format!("panic in the harness at {loc}: {msg}")))
            } else {
                Err(Fail::Violation(format!("the library panicked at {loc}: {msg}")))
            }
        }
    };
    if c.key == 0 {
        let mut h = 7u64;
        for x in &g.rec {
            h = mix(h, x.v);
        }
        c.key = h;
    }
    (res, c, g)
}

// ------------------------------------------------------------------ shrink

fn fails(p: &'static Prop, t: &[u64]) -> Option<(Vec<Choice>, Vec<(usize, usize)>)> {
    let (r, _, g) = exec(p, &Src::Tape(t.to_vec()), false);
    match r {
        Err(Fail::Violation(_)) => Some((g.rec, g.spans)),
        _ => None,
    }
}

/// Simplest (shortest, then smallest) failing tape found within the budget.
pub fn shrink(p: &'static Prop, tape: Vec<u64>) -> Vec<u64> {
    let start = Instant::now();
    let mut left = 4000u32;
    let mut best = tape;
    let Some((rec, mut spans)) = fails(p, &best) else {
        return best;
    };
    best = rec.iter().map(|c| c.v).collect();
    let trim = |t: &mut Vec<u64>| {
        while t.last() == Some(&0) {
            t.pop();
        }
    };
    trim(&mut best);
    let simpler = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    let mut progress = true;
    while progress && left > 0 && start.elapsed() < Duration::from_secs(45) {
        progress = false;
        let mut attempt = |t: Vec<u64>, best: &mut Vec<u64>, spans: &mut Vec<(usize, usize)>| -> bool {
            if left == 0 || start.elapsed() > Duration::from_secs(45) {
                return false;
            }
            left -= 1;
            let mut t = t;
            while t.last() == Some(&0) {
                t.pop();
            }
            if !simpler(&t, best) {
                return false;
            }
            if let Some((rec, sp)) = fails(p, &t) {
                let mut n: Vec<u64> = rec.iter().map(|c| c.v).collect();
                while n.last() == Some(&0) {
                    n.pop();
                }
                *best = if simpler(&n, &t) { n } else { t };
                *spans = sp;
                true
            } else {
                false
            }
        };
        // drop generated sub-structures, decrementing an enclosing length
        let mut sp = spans.clone();
        sp.sort_by_key(|s| std::cmp::Reverse(s.1 - s.0));
        for (a, b) in sp {
            if b <= best.len() && a < b {
                let mut t = best.clone();
                t.drain(a..b);
                if attempt(t.clone(), &mut best, &mut spans) {
                    progress = true;
                    continue;
                }
                for k in (0..a).rev().take(12) {
                    if t[k] > 0 {
                        let mut u = t.clone();
                        u[k] -= 1;
                        if attempt(u, &mut best, &mut spans) {
                            progress = true;
                            break;
                        }
                    }
                }
            }
        }
        // drop and zero chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                let mut t = best.clone();
                t.drain(i..i + size);
                if attempt(t, &mut best, &mut spans) {
                    progress = true;
                    continue;
                }
                if best[i..(i + size).min(best.len())].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    t[i..i + size].iter_mut().for_each(|x| *x = 0);
                    if attempt(t, &mut best, &mut spans) {
                        progress = true;
                    }
                }
                i += size;
            }
            size /= 2;
        }
        // minimise single values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            let mut lo = 0u64;
            let mut hi = v;
            let mut tries = 0;
            while lo < hi && tries < 40 {
                let mid = lo + (hi - lo) / 2;
                let mut t = best.clone();
                if i >= t.len() {
                    break;
                }
                t[i] = mid;
                if attempt(t, &mut best, &mut spans) {
                    progress = true;
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
                tries += 1;
            }
            i += 1;
        }
    }
    best
}

// ------------------------------------------------------------------ output

fn out_dir() -> PathBuf {
    let d = PathBuf::from(std::env::var("VERIF_OUT").unwrap_or_else(|_| "/verif/out".into()));
    let _ = std::fs::create_dir_all(&d);
    d
}

fn src_text(s: &Src) -> String {
    match s {
        Src::Pinned(i) => format!("pinned {i}"),
        Src::Seed(x) => format!("seed {x}"),
        Src::Tape(t) => {
            let mut o = String::from("tape");
            for v in t {
                let _ = write!(o, " {v}");
            }
            o
        }
        Src::Bytes(b) => {
            let mut o = String::from("bytes ");
            for v in b {
                let _ = write!(o, "{v:02x}");
            }
            o
        }
    }
}

fn parse_src(l: &str) -> Option<Src> {
    let mut it = l.split_ascii_whitespace();
    match it.next()? {
        "pinned" => Some(Src::Pinned(it.next()?.parse().ok()?)),
        "seed" => Some(Src::Seed(it.next()?.parse().ok()?)),
        "tape" => it.map(|x| x.parse().ok()).collect::<Option<Vec<u64>>>().map(Src::Tape),
        "bytes" => {
            let h = it.next().unwrap_or("");
            (0..h.len() / 2)
                .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok())
                .collect::<Option<Vec<u8>>>()
                .map(Src::Bytes)
        }
        _ => None,
    }
}

fn write_replay(id: &str, src: &Src, msg: &str, desc: &str, pbf: &[u8]) -> PathBuf {
    let d = out_dir();
    let tag = std::env::var("VERIF_BACKEND").map(|b| format!("-{b}")).unwrap_or_default();
    let path = d.join(format!("{id}{tag}.replay"));
    let mut s = format!("property: {id}\nsource: {}\nmessage: {}\n", src_text(src), msg.replace('\n', " "));
    if !desc.is_empty() {
        let _ = writeln!(s, "case: {}", desc.replace('\n', " "));
    }
    if !pbf.is_empty() {
        let f = d.join(format!("{id}{tag}.replay.osm.pbf"));
        if std::fs::write(&f, pbf).is_ok() {
            let _ = writeln!(s, "file: {}", f.display());
        }
    }
    let _ = writeln!(s, "replay with: /verif/run.sh replay {}", path.display());
    let _ = std::fs::write(&path, s);
    path
}

/// The cases being executed right now.
static RUNNING: Mutex<BTreeMap<u64, (&'static str, Src)>> = Mutex::new(BTreeMap::new());
static RUN_ID: AtomicU64 = AtomicU64::new(1);

struct Running(u64);

impl Running {
    fn new(id: &'static str, src: &Src) -> Running {
        let n = RUN_ID.fetch_add(1, SeqCst);
        if let Ok(mut m) = RUNNING.lock() {
            m.insert(n, (id, src.clone()));
        }
        Running(n)
    }
}

impl Drop for Running {
    fn drop(&mut self) {
        if let Ok(mut m) = RUNNING.lock() {
            m.remove(&self.0);
        }
    }
}

/// Is every thread of this process but the caller asleep?
fn all_asleep() -> bool {
    let Ok(me) = std::fs::read_link("/proc/thread-self") else { return false };
    let Ok(d) = std::fs::read_dir("/proc/self/task") else { return false };
    for e in d.flatten() {
        if Some(e.file_name().as_os_str()) == me.file_name() {
            continue;
        }
        let Ok(t) = std::fs::read_to_string(e.path().join("stat")) else { return false };
        let st = t.rsplit(')').next().and_then(|x| x.trim().chars().next());
        if st != Some('S') {
            return false;
        }
    }
    true
}

/// Reports a deadlock: a case is running, yet no thread is doing anything.
fn watch_for_deadlock() {
    std::thread::spawn(|| {
        let mut n = 0u32;
        loop {
            std::thread::sleep(Duration::from_millis(700));
            let first = RUNNING.lock().ok().and_then(|m| m.iter().next().map(|x| x.1.clone()));
            let Some((id, src)) = first else {
                n = 0;
                continue;
            };
            n = if all_asleep() { n + 1 } else { n.saturating_sub(6) };
            if n >= 40 {
                if let Ok(p) = PENDING.try_lock() {
                    if let Some((id, path, _)) = &*p {
                        finish_violation(id, path);
                    }
                }
                let msg = "the operations of this case wait for each other forever (all threads asleep)";
                println!("{id}: {msg}");
                let path = write_replay(id, &src, msg, "", &[]);
                finish_violation(id, &path);
            }
        }
    });
}

static PENDING: Mutex<Option<(String, PathBuf, String)>> = Mutex::new(None);
static EVID: OnceLock<(Mutex<Stats>, &'static Prop, u64, bool, Instant)> = OnceLock::new();

fn fatal_hook(msg: &str) {
    // a bound was exceeded where unwinding is not possible
    if std::env::var("VERIF_FUZZ_CHILD").is_ok() {
        eprintln!("VERIF-FATAL {msg}");
        std::process::abort();
    }
    if let Ok(p) = PENDING.try_lock() {
        if let Some((id, path, _)) = &*p {
            finish_violation(id, path);
        }
    }
    // on a thread of a pool: any of the cases being executed
    let cur = CURRENT
        .with(|x| x.borrow().clone())
        .or_else(|| RUNNING.try_lock().ok().and_then(|m| m.values().next().cloned()));
    if let Some((id, src)) = cur {
        println!("{id}: {msg}");
        let path = write_replay(id, &src, msg, "", &[]);
        finish_violation(id, &path);
    }
    eprintln!("HARNESS-ERROR: {msg} outside a case");
    std::process::exit(2);
}

fn finish_violation(id: &str, path: &Path) -> ! {
    if let Some((st, p, seed, thorough, t0)) = EVID.get() {
        let st = match st.try_lock() {
            Ok(g) => g.clone(),
            Err(_) => Stats::default(),
        };
        write_evidence(p, &st, *seed, *thorough, t0.elapsed(), 1);
    }
    println!("VIOLATION property={id} replay={}", path.display());
    cleanup();
    std::process::exit(1);
}

#[derive(Default, Clone)]
struct Stats {
    evals: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    pinned: u64,
    samples: Vec<String>,
    fuzz: Vec<String>,
    fuzz_runs: u64,
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn cut(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{t}…")
    }
}

fn write_evidence(p: &Prop, st: &Stats, seed: u64, thorough: bool, wall: Duration, violations: u32) {
    let path = match std::env::var("VERIF_EVIDENCE") {
        Ok(x) => PathBuf::from(x),
        Err(_) => PathBuf::from(format!("/verif/evidence/{}.json", p.id)),
    };
    if let Some(d) = path.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    let labels: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
    let samples: Vec<String> = st.samples.iter().map(|s| json_str(&cut(s, 1200))).collect();
    let fuzz: Vec<String> = st.fuzz.iter().map(|s| json_str(s)).collect();
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"pinned_cases\": {},\n  \"random_cases\": {},\n  \"coverage_guided_runs\": {},\n  \"coverage_guided\": [{}],\n  \"classes\": {{{}}},\n  \"samples\": [\n   {}\n  ]\n }},\n \"wall_s\": {:.2},\n \"violations\": {violations}\n}}\n",
        json_str(p.id),
        if thorough { "thorough" } else { "quick" },
        st.evals + st.fuzz_runs,
        st.nontrivial.len(),
        json_str(p.rule),
        st.pinned,
        st.evals - st.pinned,
        st.fuzz_runs,
        fuzz.join(", "),
        labels.join(", "),
        samples.join(",\n   "),
        wall.as_secs_f64()
    );
    if let Err(e) = std::fs::write(&path, s) {
        eprintln!("HARNESS-ERROR: cannot write evidence {}: {e}", path.display());
        std::process::exit(2);
    }
}

fn harness_error(m: &str) -> ! {
    eprintln!("HARNESS-ERROR: {m}");
    println!("HARNESS-ERROR: {m}");
    cleanup();
    std::process::exit(2);
}

// ---------------------------------------------------------- known findings

struct Known {
    prop: String,
    needle: String,
    text: String,
}

/// Lines "known: property=<id> match=<substring of the failure> :: <text>".
fn known_findings(id: &str) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string("/verif/KNOWN_FINDINGS") else {
        return vec![];
    };
    s.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| {
            let (prop, r) = l.split_once(" match=")?;
            let (needle, text) = r.split_once(" :: ")?;
            Some(Known {
                prop: prop.to_string(),
                needle: needle.to_string(),
                text: text.to_string(),
            })
        })
        .filter(|k| k.prop == id)
        .collect()
}

// --------------------------------------------------------------------- run

fn report(p: &'static Prop, src: Src, first: &str, st: &Mutex<Stats>) -> ! {
    let (mut r, mut c, mut g) = exec(p, &src, true);
    for _ in 0..40 {
        // a schedule-dependent failure may need several attempts
        if r.is_err() {
            break;
        }
        (r, c, g) = exec(p, &src, true);
    }
    let msg = match &r {
        Err(Fail::Violation(m)) => m.clone(),
        Err(Fail::Harness(m)) => harness_error(m),
        Ok(()) => format!("{first} (seen once; depends on scheduling)"),
    };
    let path = write_replay(p.id, &src, &msg, &c.desc, &c.pbf);
    println!("{}: {}", p.id, cut(&msg, 600));
    let _ = st;
    *PENDING.lock().unwrap() = Some((p.id.to_string(), path.clone(), msg));
    if !matches!(src, Src::Pinned(_)) {
        let small = shrink(p, g.tape());
        let s2 = Src::Tape(small);
        let (r2, c2, _) = exec(p, &s2, true);
        if let Err(Fail::Violation(m2)) = r2 {
            println!("{}: minimised: {}", p.id, cut(&m2, 600));
            let pth = write_replay(p.id, &s2, &m2, &c2.desc, &c2.pbf);
            finish_violation(p.id, &pth);
        }
    }
    finish_violation(p.id, &path)
}

fn case_seed(seed: u64, id: &str, i: u64) -> u64 {
    let s = mix(seed ^ 0x05f3_7599, crate::gen::hash_bytes(id.as_bytes()));
    mix(s, i.wrapping_add(1))
}

pub fn run_check(p: &'static Prop, seed: u64, thorough: bool, fuzz_bin: Option<PathBuf>) {
    TIER_THOROUGH.store(thorough, SeqCst);
    install_panic_hook();
    guard::set_hook(fatal_hook);
    let _ = crate::gen::lits();
    watch_for_deadlock();
    let t0 = Instant::now();
    let _ = EVID.set((Mutex::new(Stats::default()), p, seed, thorough, t0));
    let stats = &EVID.get().unwrap().0;

    let known = known_findings(p.id);
    let suppressed = |m: &str| known.iter().any(|k| m.contains(&k.needle));
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", p.id, k.text);
    }

    for i in 0..p.pinned.len() {
        let (r, c, _) = exec(p, &Src::Pinned(i), false);
        match r {
            Ok(()) => {}
            Err(Fail::Violation(m)) if suppressed(&m) => {}
            Err(Fail::Violation(m)) => {
                println!("{}: pinned case '{}': {}", p.id, p.pinned[i].0, cut(&m, 600));
                report(p, Src::Pinned(i), &m, stats)
            }
            Err(Fail::Harness(m)) => harness_error(&format!("pinned case '{}': {m}", p.pinned[i].0)),
        }
        let mut s = stats.lock().unwrap();
        s.evals += 1;
        s.pinned += 1;
        if c.nontrivial {
            s.nontrivial.insert(c.key);
        }
    }

    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let total = ((if thorough { p.thorough } else { p.quick }) as f64 * scale) as u64;
    let next = AtomicU64::new(0);
    let fail_at = AtomicU64::new(u64::MAX);
    let harness_msg: Mutex<Option<String>> = Mutex::new(None);
    let fail_msg: Mutex<String> = Mutex::new(String::new());
    let workers = p.workers.min(std::thread::available_parallelism().map_or(8, |x| x.get())).max(1);
    let begun: Vec<AtomicU64> = (0..workers).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicU64::new(0);
    let sample_at: Mutex<Vec<u64>> = Mutex::new(vec![]);
    let t1 = Instant::now();
    let longest = Duration::from_secs(if thorough { 24 * 3600 } else { 330 });
    std::thread::scope(|sc| {
        for w in 0..workers {
            let (next, fail_at, fail_msg, harness_msg, begun, done, sample_at) =
                (&next, &fail_at, &fail_msg, &harness_msg, &begun, &done, &sample_at);
            let suppressed = &suppressed;
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let mut nt: HashSet<u64> = HashSet::new();
                    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let mut n = 0u64;
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= total || i > fail_at.load(SeqCst) || harness_msg.lock().unwrap().is_some() {
                            break;
                        }
                        if t1.elapsed() > longest {
                            // much slower than usual: an answer on fewer cases is better than none
                            break;
                        }
                        begun[w].store(t0.elapsed().as_secs() + 1, SeqCst);
                        let (r, c, _) = exec(p, &Src::Seed(case_seed(seed, p.id, i)), false);
                        begun[w].store(0, SeqCst);
                        n += 1;
                        match r {
                            Ok(()) => {}
                            Err(Fail::Violation(m)) if suppressed(&m) => {}
                            Err(Fail::Violation(m)) => {
                                let mut fm = fail_msg.lock().unwrap();
                                if i < fail_at.fetch_min(i, SeqCst) {
                                    *fm = m;
                                }
                            }
                            Err(Fail::Harness(m)) => {
                                *harness_msg.lock().unwrap() = Some(m);
                            }
                        }
                        for l in &c.labels {
                            *labels.entry(l).or_default() += 1;
                        }
                        if c.nontrivial {
                            nt.insert(c.key);
                            if i < 400 {
                                sample_at.lock().unwrap().push(i);
                            }
                        }
                    }
                    let mut s = stats.lock().unwrap();
                    s.evals += n;
                    s.nontrivial.extend(nt);
                    for (k, v) in labels {
                        *s.labels.entry(k).or_default() += v;
                    }
                    done.fetch_add(1, SeqCst);
                })
                .expect("harness: cannot start a thread");
        }
        while done.load(SeqCst) < workers as u64 {
            std::thread::sleep(Duration::from_millis(20));
            let now = t0.elapsed().as_secs() + 1;
            for b in &begun {
                let s = b.load(SeqCst);
                if s > 0 && now > s + 300 {
                    harness_error("watchdog: one case has been running for 300 s (inconclusive)");
                }
            }
        }
    });
    if let Some(m) = harness_msg.lock().unwrap().take() {
        harness_error(&m);
    }
    let fa = fail_at.load(SeqCst);
    if fa != u64::MAX {
        let m = fail_msg.lock().unwrap().clone();
        report(p, Src::Seed(case_seed(seed, p.id, fa)), &m, stats);
    }

    // write out a few of the non-trivial cases
    let mut at = sample_at.lock().unwrap().clone();
    at.sort_unstable();
    let step = (at.len() / 4).max(1);
    for i in at.iter().step_by(step).take(5) {
        let (_, c, g) = exec(p, &Src::Seed(case_seed(seed, p.id, *i)), true);
        let mut d = c.desc.clone();
        if d.is_empty() {
            d = format!("{} draws", g.rec.len());
        }
        stats.lock().unwrap().samples.push(format!("case {i}: {} [{}]", cut(&d, 1000), c.labels.join(", ")));
    }

    if let Some(bin) = fuzz_bin {
        let runs = ((if thorough { p.fuzz.1 } else { p.fuzz.0 }) as f64 * scale) as u64;
        if runs > 0 {
            fuzz_phase(p, seed, runs, &bin, stats, thorough, &suppressed);
        }
    }
    let st = stats.lock().unwrap().clone();
    let wall = t0.elapsed();
    write_evidence(p, &st, seed, thorough, wall, 0);
    if std::env::var_os("VERIF_DEBUG").is_some() {
        println!("{}: at most {} steps in one case, {} MiB ({} MiB pinned), {} MiB left", p.id, MOST_STEPS.load(SeqCst),
            MOST_MEM.load(SeqCst) >> 20, MOST_MEM_PINNED.load(SeqCst) >> 20, guard::total() >> 20);
    }
    println!(
        "{}: held on {} cases ({} distinct non-trivial, {} coverage-guided) in {:.1} s",
        p.id,
        st.evals + st.fuzz_runs,
        st.nontrivial.len(),
        st.fuzz_runs,
        wall.as_secs_f64()
    );
    cleanup();
}

fn fuzz_phase(
    p: &'static Prop,
    seed: u64,
    runs: u64,
    bin: &Path,
    stats: &Mutex<Stats>,
    thorough: bool,
    suppressed: &dyn Fn(&str) -> bool,
) {
    let base = out_dir().join(format!("fuzz-{}-{}", p.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&base);
    let procs = 8u64;
    let mut kids = vec![];
    for k in 0..procs {
        let corpus = base.join(format!("corpus{k}"));
        let art = base.join(format!("art{k}/"));
        if std::fs::create_dir_all(&corpus).is_err() || std::fs::create_dir_all(&art).is_err() {
            harness_error("cannot create fuzz directories");
        }
        if k > 0 {
            // small generated cases as starting corpus (none for process 0)
            let mut kept = 0;
            let t = Instant::now();
            for i in 0..600u64 {
                if t.elapsed() > Duration::from_secs(8) {
                    break;
                }
                let mut g = Gen::from_seed(case_seed(seed ^ 0xf022, p.id, i * procs + k));
                let mut c = Case::default();
                set_item_cap(ITEM_CAP);
                let _ = catch_unwind(AssertUnwindSafe(|| (p.run)(&mut g, &mut c)));
                let b = g.to_bytes();
                if b.len() <= 3000 {
                    let _ = std::fs::write(corpus.join(format!("s{i}")), &b);
                    kept += 1;
                    if kept >= 60 {
                        break;
                    }
                }
            }
        }
        let log = base.join(format!("log{k}"));
        let f = std::fs::File::create(&log).expect("harness: log");
        let mut cmd = std::process::Command::new(bin);
        cmd.env("VERIF_FUZZ_CHILD", "1")
            .env("VERIF_FUZZ_PROP", p.id)
            .env("VERIF_TIER", if thorough { "thorough" } else { "quick" })
            .arg(format!("-runs={runs}"))
            .arg(format!("-seed={}", (mix(seed, 77 + k) & 0x7fff_ffff) | 1))
            .arg("-max_len=4096")
            .arg("-len_control=20")
            .arg("-timeout=120")
            .arg("-rss_limit_mb=0")
            .arg("-malloc_limit_mb=3000")
            .arg("-print_final_stats=1")
            .arg("-verbosity=1")
            .arg(format!("-artifact_prefix={}", art.display()))
            .arg(&corpus)
            .stdout(std::process::Stdio::null())
            .stderr(f);
        match cmd.spawn() {
            Ok(c) => kids.push((k, c, art, log)),
            Err(e) => harness_error(&format!("cannot start the fuzzer: {e}")),
        }
    }
    let limit = Duration::from_secs(if thorough { 3000 } else { 240 });
    let t = Instant::now();
    let mut found: Vec<Vec<u8>> = vec![];
    for (k, mut c, art, log) in kids {
        loop {
            match c.try_wait() {
                Ok(Some(_)) => break,
                _ if t.elapsed() > limit => {
                    let _ = c.kill();
                    let _ = c.wait();
                    break;
                }
                _ => std::thread::sleep(Duration::from_millis(30)),
            }
        }
        let text = String::from_utf8_lossy(&std::fs::read(&log).unwrap_or_default()).into_owned();
        let done: u64 = text
            .lines()
            .filter_map(|l| l.strip_prefix("stat::number_of_executed_units:"))
            .filter_map(|x| x.trim().parse().ok())
            .next()
            .unwrap_or(0);
        let cov = text
            .lines()
            .rev()
            .find(|l| l.contains(" cov: "))
            .and_then(|l| l.split(" cov: ").nth(1))
            .and_then(|l| l.split(" exec/s").next())
            .unwrap_or("?")
            .trim()
            .to_string();
        let mut s = stats.lock().unwrap();
        s.fuzz_runs += done;
        s.fuzz.push(format!("process {k}: {done} runs, edges and features: {cov}"));
        drop(s);
        let mut files: Vec<_> = std::fs::read_dir(&art)
            .map(|r| r.flatten().map(|e| e.path()).collect())
            .unwrap_or_default();
        files.sort();
        for f in files {
            let name = f.file_name().unwrap_or_default().to_string_lossy().into_owned();
            if name.starts_with("crash-") {
                if let Ok(b) = std::fs::read(&f) {
                    found.push(b);
                }
            }
        }
    }
    if std::env::var("VERIF_KEEP").is_err() {
        let _ = std::fs::remove_dir_all(&base);
    }
    for b in found {
        // believed only if the uninstrumented run shows it too
        let src = Src::Bytes(b);
        let (r, _, _) = exec(p, &src, false);
        match r {
            Err(Fail::Violation(m)) if !suppressed(&m) => report(p, src, &m, stats),
            Err(Fail::Harness(m)) => harness_error(&m),
            _ => {}
        }
    }
}

/// One coverage-guided execution; aborts on a violation.
pub fn fuzz_one(find: fn(&str) -> Option<&'static Prop>, data: &[u8]) {
    static P: OnceLock<&'static Prop> = OnceLock::new();
    let p = P.get_or_init(|| {
        install_panic_hook();
        guard::set_hook(fatal_hook);
        TIER_THOROUGH.store(std::env::var("VERIF_TIER").is_ok_and(|x| x == "thorough"), SeqCst);
        find(&std::env::var("VERIF_FUZZ_PROP").unwrap_or_default()).expect("harness: no property")
    });
    let (r, _, _) = exec(p, &Src::Bytes(data.to_vec()), false);
    match r {
        Ok(()) => {}
        Err(Fail::Violation(m)) => {
            eprintln!("VERIF-VIOLATION {m}");
            std::process::abort();
        }
        Err(Fail::Harness(m)) => {
            eprintln!("VERIF-HARNESS {m}");
            std::process::abort();
        }
    }
}

pub fn replay(find: fn(&str) -> Option<&'static Prop>, file: &str) -> i32 {
    install_panic_hook();
    guard::set_hook(fatal_hook);
    watch_for_deadlock();
    let Ok(s) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k).map(str::trim));
    let (Some(id), Some(src)) = (get("property:"), get("source:").and_then(parse_src)) else {
        eprintln!("not a replay file: {file}");
        return 2;
    };
    let Some(p) = find(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let (r, c, _) = exec(p, &src, true);
    println!("case: {}", c.desc);
    let code = match r {
        Ok(()) => {
            println!("{id}: holds on this case");
            0
        }
        Err(Fail::Violation(m)) => {
            println!("{id}: {m}");
            println!("VIOLATION property={id} replay={file}");
            1
        }
        Err(Fail::Harness(m)) => {
            println!("HARNESS-ERROR: {m}");
            2
        }
    };
    cleanup();
    code
}
