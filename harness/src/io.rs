//! Readers with fragmentation, fault injection and an operation budget.

use crate::case::BUDGET_MARK;
use crate::gen::{mix, Gen};
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::InvalidData,
    ErrorKind::ConnectionReset,
    ErrorKind::PermissionDenied,
    ErrorKind::NotFound,
    ErrorKind::InvalidInput,
    ErrorKind::ConnectionAborted,
    ErrorKind::OutOfMemory,
];

/// An error with a message, of one of the kinds; beyond them, without a
/// message, and as the operating system reports them.
pub fn fault(k: usize) -> Error {
    let kind = KINDS[k % KINDS.len()];
    match k / KINDS.len() {
        0 => Error::new(kind, "injected fault"),
        1 => kind.into(),
        // EIO, ESTALE, EBADF, EISDIR, ENOSPC
        _ => Error::from_raw_os_error([5, 116, 9, 21, 28][k % 5]),
    }
}

/// How many different faults there are.
pub const FAULTS: usize = 24 + 12;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum On {
    Reads,
    Seeks,
    Any,
}

/// State shared between the reader and the test.
#[derive(Default)]
pub struct Plan {
    ops: AtomicU64,
    budget: AtomicU64,
    /// operations left until the fault; negative: disarmed
    countdown: AtomicI64,
    sticky: AtomicBool,
    kind: AtomicU64,
    on: AtomicU64,
    fired: AtomicU64,
    /// position after the last successful byte handed out
    high: AtomicU64,
    /// 0: as many bytes as asked for
    pub frag_seed: u64,
    pub frag_max: u64,
    /// yield the thread now and then
    pub yields: bool,
    /// interrupt reads now and then (0: never)
    pub interrupts: u64,
    /// the number of the one read which finds the end of the data (0: none)
    pub pause: u64,
    reads: AtomicU64,
}

impl Plan {
    pub fn arm(&self, after: u64, kind: usize, on: On, sticky: bool) {
        self.kind.store(kind as u64, SeqCst);
        self.on.store(on as u64, SeqCst);
        self.sticky.store(sticky, SeqCst);
        self.fired.store(0, SeqCst);
        self.countdown.store(after as i64, SeqCst);
    }
    pub fn disarm(&self) {
        self.countdown.store(-1, SeqCst);
    }
    pub fn fired(&self) -> bool {
        self.fired.load(SeqCst) > 0
    }
    pub fn clear_fired(&self) {
        self.fired.store(0, SeqCst);
    }
    pub fn ops(&self) -> u64 {
        self.ops.load(SeqCst)
    }
    pub fn high(&self) -> u64 {
        self.high.load(SeqCst)
    }
    pub fn refill(&self, budget: u64) {
        self.ops.store(0, SeqCst);
        self.budget.store(budget, SeqCst);
    }
    fn op(&self, is_seek: bool) -> Result<()> {
        let n = self.ops.fetch_add(1, SeqCst) + 1;
        if n > self.budget.load(SeqCst) {
            self.budget.store(u64::MAX, SeqCst);
            panic!("{BUDGET_MARK}: reader operation budget exhausted, the operation does not terminate");
        }
        if self.yields && n % 5 == 1 {
            std::thread::yield_now();
        }
        if self.interrupts > 0 && !is_seek && mix(self.interrupts, n) % 3 == 0 {
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let on = self.on.load(SeqCst);
        let applies = on == On::Any as u64 || (on == On::Seeks as u64) == is_seek;
        if applies {
            let c = self.countdown.load(SeqCst);
            if c == 0 {
                if !self.sticky.load(SeqCst) {
                    self.countdown.store(-1, SeqCst);
                }
                self.fired.fetch_add(1, SeqCst);
                let k = self.kind.load(SeqCst) as usize;
                return Err(fault(k));
            } else if c > 0 {
                self.countdown.store(c - 1, SeqCst);
            }
        }
        Ok(())
    }
}

#[derive(Clone)]
pub struct TestReader {
    data: Arc<Vec<u8>>,
    pos: u64,
    plan: Arc<Plan>,
}

impl TestReader {
    pub fn new(data: &Arc<Vec<u8>>, plan: &Arc<Plan>) -> TestReader {
        TestReader {
            data: data.clone(),
            pos: 0,
            plan: plan.clone(),
        }
    }
    pub fn at(mut self, pos: u64) -> TestReader {
        self.pos = pos;
        self
    }
}

pub fn budget_for(len: usize) -> u64 {
    200_000 + 64 * len as u64
}

/// A plan without faults.
pub fn plan(len: usize, frag_seed: u64, frag_max: u64) -> Arc<Plan> {
    let p = Plan {
        frag_seed,
        frag_max,
        ..Plan::default()
    };
    p.refill(budget_for(len));
    p.disarm();
    Arc::new(p)
}

/// A plan whose reads are now and then interrupted.
pub fn plan_interrupted(len: usize, frag_seed: u64, frag_max: u64, seed: u64) -> Arc<Plan> {
    let p = Plan {
        frag_seed,
        frag_max,
        interrupts: seed,
        ..Plan::default()
    };
    p.refill(2 * budget_for(len));
    p.disarm();
    Arc::new(p)
}

/// A plan in which the given read finds the end of the data for the moment.
pub fn plan_pausing(len: usize, frag_seed: u64, frag_max: u64, pause: u64) -> Arc<Plan> {
    let p = Plan {
        frag_seed,
        frag_max,
        pause,
        ..Plan::default()
    };
    p.refill(budget_for(len));
    p.disarm();
    Arc::new(p)
}

/// A plan without faults whose reads now and then yield the thread.
pub fn plan_yielding(len: usize, frag_seed: u64, frag_max: u64, yields: bool) -> Arc<Plan> {
    let p = Plan {
        frag_seed,
        frag_max,
        yields,
        ..Plan::default()
    };
    p.refill(budget_for(len));
    p.disarm();
    Arc::new(p)
}

/// An unfragmented, faultless reader with an operation budget.
pub fn plain(data: &Arc<Vec<u8>>) -> TestReader {
    TestReader::new(data, &plan(data.len(), 0, 0))
}

pub fn gen_frag(g: &mut Gen) -> (u64, u64) {
    match g.weighted(&[30, 20, 20, 15, 15]) {
        0 => (0, 0),
        1 => (1, 1),
        2 => (g.draw(1 << 16), 2 + g.draw(6)),
        3 => (g.draw(1 << 16), 1 + g.draw(100)),
        _ => (g.draw(1 << 16), 1 + g.draw(5000)),
    }
}

impl Read for TestReader {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if let Err(e) = self.plan.op(false) {
            // what a failing read leaves in the buffer means nothing
            let k = buf.len().min(64);
            buf[..k].fill(0x2a);
            return Err(e);
        }
        if self.plan.pause > 0 && self.plan.reads.fetch_add(1, SeqCst) + 1 == self.plan.pause {
            self.plan.fired.fetch_add(1, SeqCst);
            return Ok(0);
        }
        let len = self.data.len() as u64;
        if self.pos >= len {
            return Ok(0);
        }
        let avail = (len - self.pos) as usize;
        let mut n = buf.len().min(avail);
        if self.plan.frag_max > 0 {
            let r = mix(self.plan.frag_seed, self.plan.ops());
            n = n.min(1 + (r % self.plan.frag_max) as usize);
        }
        let p = self.pos as usize;
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        // nor does what is behind the bytes read
        let k = buf.len().min(n + 16);
        buf[n..k].fill(0x15);
        self.pos += n as u64;
        self.plan.high.fetch_max(self.pos, SeqCst);
        Ok(n)
    }
}

impl Seek for TestReader {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.plan.op(true)?;
        let t: i128 = match to {
            SeekFrom::Start(x) => i128::from(x),
            SeekFrom::End(d) => self.data.len() as i128 + i128::from(d),
            SeekFrom::Current(d) => i128::from(self.pos) + i128::from(d),
        };
        if t < 0 || t > i128::from(i64::MAX) {
            return Err(Error::new(ErrorKind::InvalidInput, "invalid seek"));
        }
        self.pos = t as u64;
        Ok(self.pos)
    }
}
