use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering};

/// Payload of panics that end an execution because of a violated check.
pub struct Violation(pub String);

thread_local! {
    static PANICS_OK: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static PENDING: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn fail_now(msg: String) -> ! {
    std::panic::panic_any(Violation(msg))
}

/// Record a violation at a place that must not unwind (destructors, closures run by the code under test).
pub fn fail_later(msg: String) {
    PENDING.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_none() {
            *p = Some(msg);
        }
    });
}

pub fn take_pending() -> Option<String> {
    PENDING.with(|p| p.borrow_mut().take())
}

/// Run `f`; a panic of the code under test becomes `Err(message)`, a violated check passes through.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<Violation>() {
                std::panic::resume_unwind(p)
            }
            Err(panic_text(&*p))
        }
    }
}

/// Run `f`, in which no panic is acceptable.
pub fn nopanic<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match catch(f) {
        Ok(r) => r,
        Err(m) => fail_now(format!("{what}: unexpected panic: {m}")),
    }
}

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    let t = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(v) = p.downcast_ref::<Violation>() {
        v.0.clone()
    } else {
        "(non-string panic payload)".into()
    };
    let loc = LAST_PANIC.with(|l| l.borrow().clone());
    if loc.is_empty() { t } else { format!("{t} [at {loc}]") }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        // No output: panics are part of the explored behaviour. The formatting allocates through the
        // checking global allocator with tracking off.
        let _g = crate::galloc::pause();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() { *l = loc; }
        });
    }));
}

/// Trace of the running execution, visible to the parent process.
#[repr(C)]
pub struct Shared {
    pub beat: AtomicU64,
    pub len: AtomicU32,
    pub choices: [AtomicU32; MAXTRACE],
}
pub const MAXTRACE: usize = 60_000;

pub struct Ctx {
    prefix: Vec<u32>,
    trace: Vec<(u32, u32)>,
    pos: usize,
    pub depth: u32,
    pub replay: bool,
    pub stream: bool,
    pub labels: Vec<String>,
    labelling: bool,
    /// canonical state -> largest number of remaining steps it was explored with
    seen: HashMap<u128, u32, BuildId>,
    outcomes: HashMap<u64, (), BuildId>,
    pub executions: u64,
    pub transitions: u64,
    pub pruned: u64,
    pub probe_checks: u64,
    pub samples: Vec<String>,
    pub outcomes_capped: bool,
    shared: *const Shared,
    part: (u32, u32, usize),
    part_hash: u64,
    skip: bool,
    cost: u32,
}

#[derive(Default, Clone)]
pub struct BuildId;
impl std::hash::BuildHasher for BuildId {
    type Hasher = IdHasher;
    fn build_hasher(&self) -> IdHasher { IdHasher(0) }
}
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.0 ^= u64::from_le_bytes(x);
        }
    }
    fn write_u64(&mut self, i: u64) { self.0 ^= i }
    fn write_u128(&mut self, i: u128) { self.0 ^= i as u64 }
}

/// A 128 bit hash (two differently seeded 64 bit mixes) of a hashable value.
pub fn hash128(v: &impl Hash) -> u128 {
    let mut a = Mix(0x9E37_79B9_7F4A_7C15, 0xD6E8_FEB8_6659_FD93);
    v.hash(&mut a);
    (a.0 as u128) << 64 | a.1 as u128
}
struct Mix(u64, u64);
impl Mix {
    #[inline]
    fn step(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0xff51_afd7_ed55_8ccd);
        self.0 ^= self.0 >> 32;
        self.1 = (self.1.rotate_left(23) ^ x.wrapping_mul(0x9FB2_1C65_1E98_DF25)).wrapping_mul(0xc4ce_b9fe_1a85_ec53);
        self.1 ^= self.1 >> 29;
    }
}
impl Hasher for Mix {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.step(u64::from_le_bytes(x));
        }
        self.step(b.len() as u64);
    }
    fn write_u8(&mut self, i: u8) { self.step(i as u64) }
    fn write_u16(&mut self, i: u16) { self.step(i as u64) }
    fn write_u32(&mut self, i: u32) { self.step(i as u64) }
    fn write_u64(&mut self, i: u64) { self.step(i) }
    fn write_usize(&mut self, i: usize) { self.step(i as u64) }
}

pub static NONDET: AtomicBool = AtomicBool::new(false);

pub enum Outcome { Complete, Capped(String), Failed(String) }

impl Ctx {
    pub fn new(shared: *const Shared, depth: u32, part: (u32, u32, usize)) -> Ctx {
        Ctx {
            prefix: vec![], trace: vec![], pos: 0, depth, replay: false, stream: false, labels: vec![], labelling: false,
            seen: HashMap::with_hasher(BuildId), outcomes: HashMap::with_hasher(BuildId),
            executions: 0, transitions: 0, pruned: 0, probe_checks: 0, samples: vec![], outcomes_capped: false, shared, part, part_hash: 0,
            skip: false, cost: 0,
        }
    }

    /// Nondeterministic choice among `0..n`.
    pub fn choose(&mut self, n: usize) -> usize {
        let _g = crate::galloc::pause();
        assert!(n > 0 && n <= u32::MAX as usize);
        let c = if self.pos < self.prefix.len() {
            let c = self.prefix[self.pos];
            if c as usize >= n || (self.pos < self.trace.len() && self.trace[self.pos].1 != n as u32) {
                NONDET.store(true, Ordering::SeqCst);
                panic!("HARNESS: nondeterministic replay at choice {} ({c} of {n})", self.pos);
            }
            c
        } else {
            0
        };
        if self.pos < self.trace.len() {
            self.trace[self.pos] = (c, n as u32);
        } else {
            self.trace.push((c, n as u32));
        }
        if !self.shared.is_null() && self.pos < MAXTRACE {
            let s = unsafe { &*self.shared };
            s.choices[self.pos].store(c, Ordering::Relaxed);
            s.len.store(self.pos as u32 + 1, Ordering::Relaxed);
        }
        self.pos += 1;
        if self.part.1 > 1 && self.pos <= self.part.2 {
            self.part_hash = (self.part_hash ^ (c as u64 + 1)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            self.part_hash ^= self.part_hash >> 29;
            if self.pos == self.part.2 && self.part_hash % self.part.1 as u64 != self.part.0 as u64 && !self.replay {
                self.skip = true;
            }
        }
        c as usize
    }

    /// Choice of an item.
    pub fn pick<T: Clone>(&mut self, items: &[T]) -> T {
        items[self.choose(items.len())].clone()
    }

    pub fn flag(&mut self) -> bool { self.choose(2) == 1 }

    /// True when this part of the search space belongs to another worker: leave the execution at once.
    pub fn skipped(&self) -> bool { self.skip }

    /// Record the canonical state. Returns false if the rest of this execution is already covered.
    pub fn visit(&mut self, state: &impl Hash, remaining: u32) -> bool {
        let _g = crate::galloc::pause();
        if self.skip { return false }
        if self.replay { return true }
        if self.pos < self.prefix.len() { return true }
        let h = hash128(state);
        match self.seen.get_mut(&h) {
            Some(r) if *r >= remaining => { self.pruned += 1; false }
            Some(r) => { *r = remaining; true }
            None => { self.seen.insert(h, remaining); true }
        }
    }

    /// Count a state without pruning on it.
    pub fn note(&mut self, state: &impl Hash) {
        let _g = crate::galloc::pause();
        if self.pos < self.prefix.len() { return }
        let h = hash128(state);
        self.seen.entry(h).or_insert(0);
    }

    pub fn outcome(&mut self, o: &impl Hash) {
        let _g = crate::galloc::pause();
        if self.outcomes.len() > 2_000_000 { self.outcomes_capped = true; return }
        self.outcomes.insert(hash128(o) as u64, ());
    }

    /// One executed operation of the code under test; the label is kept for replays and samples.
    pub fn op(&mut self, label: impl FnOnce() -> String) {
        let _g = crate::galloc::pause();
        if self.pos >= self.prefix.len() { self.transitions += 1 }
        if self.labelling {
            let l = label();
            if self.stream { println!("STEP {}", l.replace('\n', " ")); } else { self.labels.push(l); }
        }
        if self.executions & 0xff == 0 && !self.shared.is_null() {
            unsafe { &*self.shared }.beat.fetch_add(1, Ordering::Relaxed);
        }
    }

    pub fn states(&self) -> usize { self.seen.len() }
    pub fn distinct_outcomes(&self) -> usize { self.outcomes.len() }
    pub fn spend(&mut self, c: u32) { self.cost += c }
    pub fn spent(&self) -> u32 { self.cost }

    pub fn choices(&self) -> Vec<u32> { self.trace[..self.pos].iter().map(|x| x.0).collect() }

    fn run_once(&mut self, body: &dyn Fn(&mut Ctx)) -> Result<(), String> {
        self.pos = 0;
        self.part_hash = 0;
        self.skip = false;
        self.cost = 0;
        self.labels.clear();
        if !self.shared.is_null() {
            let s = unsafe { &*self.shared };
            s.len.store(0, Ordering::Relaxed);
            s.beat.fetch_add(1, Ordering::Relaxed);
        }
        crate::ledger::reset();
        crate::galloc::reset();
        let _ = take_pending();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(self)));
        crate::galloc::stop();
        let pend = take_pending();
        match (r, pend) {
            (_, Some(m)) => Err(m),
            (Ok(()), None) => Ok(()),
            (Err(p), None) => match p.downcast_ref::<Violation>() {
                Some(v) => Err(v.0.clone()),
                None => Err(format!("unexpected panic: {}", panic_text(&*p))),
            },
        }
    }

    /// Replay one recorded choice sequence with labels.
    pub fn replay(&mut self, choices: &[u32], verbose: bool, body: &dyn Fn(&mut Ctx)) -> Result<(), String> {
        self.prefix = choices.to_vec();
        self.trace.clear();
        self.labelling = true;
        self.replay = verbose;
        // A replay never prunes.
        let r = self.run_once(body);
        self.labelling = false;
        self.replay = false;
        r
    }

    /// Explore everything.
    pub fn explore(&mut self, cap_s: f64, cap_mem_states: usize, body: &dyn Fn(&mut Ctx)) -> Outcome {
        let start = std::time::Instant::now();
        let mut next_sample = 1u64;
        loop {
            self.labelling = self.executions + 1 == next_sample && self.samples.len() < 6;
            let labelled = self.labelling;
            let r = self.run_once(body);
            self.labelling = false;
            if !self.skip { self.executions += 1; }
            if let Err(m) = r {
                return Outcome::Failed(m);
            }
            if labelled {
                if !self.labels.is_empty() { self.samples.push(self.labels.join("; ")); }
                next_sample = next_sample * 17 + 3;
            }
            // backtrack
            let mut t: Vec<(u32, u32)> = std::mem::take(&mut self.trace);
            t.truncate(self.pos);
            while let Some(&(c, n)) = t.last() {
                if c + 1 < n { break }
                t.pop();
            }
            match t.last_mut() {
                None => return Outcome::Complete,
                Some(l) => l.0 += 1,
            }
            self.prefix.clear();
            self.prefix.extend(t.iter().map(|x| x.0));
            self.trace = t;
            if self.executions & 0x3f == 0 {
                let el = start.elapsed().as_secs_f64();
                if el > cap_s { return Outcome::Capped(format!("time cap {cap_s} s")) }
                if self.seen.len() > cap_mem_states { return Outcome::Capped(format!("state cap {cap_mem_states}")) }
            }
        }
    }
}
