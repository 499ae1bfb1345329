//! Threads allocating from one Bump, judged by the set of all linearizations that explain what was seen.
use crate::sched::{self, alias, ctx, memory, s, NT};
use crate::sys;
use alloc_traits::{LocalAlloc, NonZeroLayout};
use mcx::mem::align_up;
use mcx::{check, fail, Ctx};
use static_alloc::bump::{Failure, Level};
use static_alloc::leaked::LeakBox;
use static_alloc::Bump;
use std::alloc::{GlobalAlloc, Layout};
use std::mem::{size_of, MaybeUninit};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum At { Init, Known }
use At::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Raw(u8, usize, usize),
    RawAt(u8, usize, usize, At),
    Typed(u8, u8),
    TypedAt(u8, u8, At),
    Level,
    /// Reallocation of the last block: GlobalAlloc, LocalAlloc, LocalAlloc to alignment 4.
    Grow(u8, usize),
    /// Deallocation of the last block: GlobalAlloc, LocalAlloc.
    Free(u8),
}
use Op::*;

#[repr(align(16))]
#[derive(Clone, Copy)]
pub struct Z16;

macro_rules! with_type { ($i:expr, $V:ident => $e:expr) => { match $i { 0 => { type $V = u8; $e } 1 => { type $V = u16; $e } 2 => { type $V = u32; $e } 3 => { type $V = u64; $e } 4 => { type $V = [u8; 3]; $e } 5 => { type $V = (); $e } 6 => { type $V = Z16; $e } _ => unreachable!() } } }
const TYPES: [&str; 7] = ["u8", "u16", "u32", "u64", "[u8; 3]", "()", "Z16"];

impl Op {
    fn layout(self) -> Layout {
        match self {
            Raw(_, s, a) | RawAt(_, s, a, _) => Layout::from_size_align(s, a).unwrap(),
            Typed(_, t) | TypedAt(_, t, _) => with_type!(t, V => Layout::new::<V>()),
            Level | Free(_) => Layout::new::<()>(),
            Grow(f, n) => Layout::from_size_align(n, if f == 2 { 4 } else { 1 }).unwrap(),
        }
    }
    fn at(self) -> Option<At> { match self { RawAt(_, _, _, a) | TypedAt(_, _, a) => Some(a), _ => None } }
    pub fn text(self) -> String {
        match self {
            Raw(f, s, a) => format!("{}({s}, align {a})", ["Bump::alloc", "get_layout", "GlobalAlloc::alloc", "GlobalAlloc::alloc_zeroed", "LocalAlloc::alloc"][f as usize]),
            RawAt(f, s, a, at) => format!("{}({s}, align {a}, {at:?})", ["alloc_at", "get_layout_at"][f as usize]),
            Typed(f, t) => format!("{}::<{}>", ["get", "leak", "leak_box"][f as usize], TYPES[t as usize]),
            TypedAt(f, t, at) => format!("{}::<{}>({at:?})", ["get_at", "leak_at", "leak_box_at"][f as usize], TYPES[t as usize]),
            Level => "level()".into(),
            Grow(f, n) => format!("{}(last block, {n}{})", if f == 0 { "GlobalAlloc::realloc" } else { "LocalAlloc::realloc" }, if f == 2 { ", align 4" } else { "" }),
            Free(f) => format!("{}::dealloc(last block)", ["GlobalAlloc", "LocalAlloc"][f as usize]),
        }
    }
}

#[derive(Clone, Debug)]
enum Res { Got(usize, Option<Lv>), Fail, Exhausted, Mismatch(Lv), Lev(Lv), Skip, Bad(String) }
type Lv = static_alloc::bump::Level;

fn bytes_of<V: Copy>(tag: u8) -> V {
    let mut v = MaybeUninit::<V>::uninit();
    unsafe { std::ptr::write_bytes(v.as_mut_ptr() as *mut u8, tag, size_of::<V>()); v.assume_init() }
}
fn is_tag<V: Copy>(v: &V, tag: u8) -> bool { unsafe { std::slice::from_raw_parts(v as *const V as *const u8, size_of::<V>()).iter().all(|b| *b == tag) } }
fn fl(f: Failure) -> Res { match f { Failure::Exhausted => Res::Exhausted, Failure::Mismatch { observed } => Res::Mismatch(observed) } }

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
struct Config { used: u16, lin: [u16; NT] }

struct Run {
    bump: *const (),
    exec: fn(*const (), Op, Lv, Option<(usize, usize)>, u8) -> Res,
    progs: Vec<Vec<Op>>,
    known: [Lv; NT],
    arg: [Lv; NT],
    last: [Option<(usize, usize, u8)>; NT],
    owned: Vec<(usize, usize, u8)>,
    configs: Vec<Config>,
    base: usize,
    cap: usize,
    levels: Vec<Lv>,
    pending: [Option<Op>; NT],
}
static mut RUN: *mut Run = std::ptr::null_mut();
fn run() -> &'static mut Run { unsafe { &mut *RUN } }

fn local<'a>(addr: usize, len: usize) -> alloc_traits::Allocation<'a> {
    alloc_traits::Allocation { ptr: std::ptr::NonNull::new(addr as *mut u8).unwrap(), layout: NonZeroLayout::from_layout(Layout::from_size_align(len, 1).unwrap().into()).unwrap(), lifetime: Default::default() }
}

fn exec<T: 'static>(b: *const (), op: Op, at: Lv, last: Option<(usize, usize)>, tag: u8) -> Res {
    let b: &'static Bump<T> = unsafe { &*(b as *const Bump<T>) };
    let p = |x: *mut u8, l: Option<Lv>| Res::Got(x as usize, l);
    match op {
        Raw(f, ..) => {
            let l = op.layout();
            let nz = || NonZeroLayout::from_layout(l.into()).unwrap();
            let nn = |x: *mut u8| if x.is_null() { Res::Fail } else { Res::Got(x as usize, None) };
            match f {
                0 => b.alloc(l).map_or(Res::Fail, |x| p(x.as_ptr(), None)),
                1 => b.get_layout(l).map_or(Res::Fail, |x| p(x.ptr.as_ptr(), Some(x.level))),
                2 => nn(unsafe { GlobalAlloc::alloc(b, l) }),
                3 => nn(unsafe { GlobalAlloc::alloc_zeroed(b, l) }),
                _ => LocalAlloc::alloc(b, nz()).map_or(Res::Fail, |x| p(x.ptr.as_ptr(), None)),
            }
        }
        RawAt(f, ..) => match f { 0 => b.alloc_at(op.layout(), at), _ => b.get_layout_at(op.layout(), at) }.map_or_else(fl, |x| p(x.ptr.as_ptr(), Some(x.level))),
        Typed(f, t) => with_type!(t, V => match f {
            0 => b.get::<V>().map_or(Res::Fail, |x| p(x.ptr.as_ptr() as *mut u8, Some(x.level))),
            1 => match b.leak::<V>(bytes_of(tag)) {
                Ok(r) => p(r as *mut V as *mut u8, None),
                Err(e) if e.kind() != Failure::Exhausted => Res::Bad(format!("an unconditional leak reports {:?}", e.kind())),
                Err(e) => if is_tag(&e.into_inner(), tag) { Res::Fail } else { Res::Bad("the value in the error was changed".into()) },
            },
            _ => b.leak_box::<V>(bytes_of(tag)).map_or(Res::Fail, |x| p(LeakBox::into_raw(x) as *mut u8, None)),
        }),
        TypedAt(f, t, _) => with_type!(t, V => match f {
            0 => b.get_at::<V>(at).map_or_else(fl, |x| p(x.ptr.as_ptr() as *mut u8, Some(x.level))),
            1 => match b.leak_at::<V>(bytes_of(tag), at) {
                Ok((r, l)) => p(r as *mut V as *mut u8, Some(l)),
                Err(e) => { let k = e.kind(); if is_tag(&e.into_inner(), tag) { fl(k) } else { Res::Bad("the value in the error was changed".into()) } }
            },
            _ => b.leak_box_at::<V>(bytes_of(tag), at).map_or_else(fl, |x| p(LeakBox::into_raw(x) as *mut u8, None)),
        }),
        Level => Res::Lev(b.level()),
        Grow(f, n) => match last {
            None => Res::Skip,
            Some((a, len)) if f == 0 => { let x = unsafe { GlobalAlloc::realloc(b, a as *mut u8, Layout::from_size_align(len, 1).unwrap(), n) }; if x.is_null() { Res::Fail } else { Res::Got(x as usize, None) } }
            Some((a, len)) => match unsafe { LocalAlloc::realloc(b, local(a, len), NonZeroLayout::from_layout(op.layout().into()).unwrap()) } {
                None => Res::Fail,
                Some(x) if Layout::from(x.layout) != op.layout() => Res::Bad(format!("a block of layout {:?}", x.layout)),
                Some(x) => Res::Got(x.ptr.as_ptr() as usize, None),
            },
        },
        Free(f) => {
            match last {
                None => {}
                Some((a, len)) if f == 0 => unsafe { GlobalAlloc::dealloc(b, a as *mut u8, Layout::from_size_align(len, 1).unwrap()) },
                Some((a, len)) => unsafe { LocalAlloc::dealloc(b, local(a, len)) },
            }
            Res::Skip
        }
    }
}

fn tag(t: usize, op: usize) -> u8 { 1 + ((t * 64 + op) % 255) as u8 }

impl Run {
    fn u_of(&self, l: Lv) -> Option<usize> { self.levels.iter().position(|x| *x == l) }
    fn fit(&self, u: usize, l: Layout) -> Option<(usize, usize)> {
        let st = align_up(self.base + u, l.align()) - self.base;
        match st.checked_add(l.size()) { Some(e) if e <= self.cap => Some((st, e)), _ => None }
    }
    /// What may happen when the call takes effect with `u` bytes used: (variant, used afterwards).
    fn effects(&self, t: usize, op: Op, u: usize) -> Vec<(u8, usize)> {
        let l = op.layout();
        let k = self.u_of(self.arg[t]).unwrap_or(usize::MAX);
        let zst = l.size() == 0;
        match op {
            Level | Free(_) => vec![(0, u)],
            Raw(..) | Typed(..) => if zst { vec![(0, u)] } else { match self.fit(u, l) { Some((_, e)) => vec![(0, e)], None => vec![(1, u)] } },
            RawAt(..) | TypedAt(..) => {
                if u == k {
                    if zst { vec![(0, u)] } else { match self.fit(u, l) { Some((_, e)) => vec![(0, e)], None => vec![(2, u)] } }
                } else if zst || self.fit(k, l).is_some() { vec![(3, u)] } else { vec![(3, u), (2, u)] }
            }
            Grow(_, n) => {
                let Some((a, len, _)) = self.last[t] else { return vec![(0, u)] };
                let o = a - self.base;
                let mut v = vec![];
                let stays = a % l.align() == 0;
                if n <= len && stays { v.push((2, u)) }
                match self.fit(u, l) { Some((_, e)) => v.push((0, e)), None => if n > len || !stays { v.push((1, u)) } }
                if n > len && stays && o + len == u && o + n <= self.cap { v.push((3, o + n)) }
                v
            }
        }
    }
    fn matches(&self, t: usize, op: Op, code: u16, r: &Res) -> bool {
        let (u, variant) = (((code - 1) / 4) as usize, (code - 1) % 4);
        let l = op.layout();
        match (op, variant, r) {
            (Level, _, Res::Lev(x)) => self.levels[u] == *x,
            (Grow(..), 2 | 3, Res::Got(a, None)) => *a == self.last[t].unwrap().0,
            (_, 0, Res::Skip) => true,
            (_, 0, Res::Got(a, lv)) => {
                if l.size() == 0 { *a != 0 && a % l.align() == 0 && lv.map_or(true, |x| x == self.levels[u]) }
                else { let (st, e) = self.fit(u, l).unwrap(); *a == self.base + st && lv.map_or(true, |x| x == self.levels[e]) }
            }
            (_, 1, Res::Fail) => true,
            (_, 2, Res::Exhausted) => true,
            (_, 3, Res::Mismatch(x)) => self.levels[u] == *x,
            _ => false,
        }
    }
    fn expand(&self, t: usize) -> Vec<Config> {
        // all ways to let pending calls take effect
        let mut all = self.configs.clone();
        let mut i = 0;
        while i < all.len() {
            let c = all[i];
            i += 1;
            for p in 0..self.progs.len() {
                let Some(op) = self.pending[p] else { continue };
                if c.lin[p] != 0 { continue }
                for (variant, used) in self.effects(p, op, c.used as usize) {
                    let mut d = c;
                    d.lin[p] = 1 + c.used * 4 + variant as u16;
                    d.used = used as u16;
                    if !all.contains(&d) { all.push(d) }
                }
            }
        }
        all.retain(|c| c.lin[t] != 0);
        all
    }
    fn show(&self, r: &Res) -> String {
        let lv = |x: &Lv| match self.u_of(*x) { Some(u) => format!("level {u}"), None => format!("{x:?}, which the allocator never had") };
        match r {
            Res::Got(a, l) => format!("offset {}{}", a.wrapping_sub(self.base) as isize, l.as_ref().map_or(String::new(), |l| format!(", {}", lv(l)))),
            Res::Mismatch(l) => format!("mismatch, {}", lv(l)),
            Res::Lev(l) => lv(l),
            Res::Bad(m) => m.clone(),
            x => format!("{x:?}"),
        }
    }
    fn returned(&mut self, t: usize, i: usize, op: Op, r: Res) -> Result<(), String> {
        let what = op.text();
        let arg = op.at().map_or(String::new(), |_| format!(" at level {:?}", self.u_of(self.arg[t])));
        if let Res::Bad(m) = &r { return Err(format!("{what}: {m}")) }
        let mut c = self.expand(t);
        c.retain(|c| self.matches(t, op, c.lin[t], &r));
        if c.is_empty() {
            let mut seen: Vec<usize> = self.configs.iter().map(|c| c.used as usize).collect();
            seen.sort(); seen.dedup();
            return Err(format!("thread {t}: {what}{arg} returned {}; no order of the calls explains this (capacity {}, possible consumed bytes before: {seen:?})", self.show(&r), self.cap));
        }
        for c in &mut c { c.lin[t] = 0 }
        c.sort(); c.dedup();
        self.configs = c;
        self.pending[t] = None;
        // content and disjointness
        let tg = tag(t, i);
        let l = op.layout();
        match &r {
            Res::Got(a, lv) => {
                if let Some(x) = lv { self.known[t] = *x }
                if l.size() > 0 {
                    let p = alias(*a) as *mut u8;
                    let get = |k: usize| unsafe { *p.add(k) };
                    match op {
                        Raw(3, ..) => if let Some(k) = (0..l.size()).find(|k| get(*k) != 0) { return Err(format!("thread {t}: {what}: byte {k} is {:#x}", get(k))) },
                        Typed(1 | 2, _) | TypedAt(1 | 2, ..) => if let Some(k) = (0..l.size()).find(|k| get(*k) != tg) { return Err(format!("thread {t}: {what}: byte {k} of the stored value is {:#x}", get(k))) },
                        Grow(_, n) => {
                            let (oa, ol, ot) = self.last[t].unwrap();
                            if let Some(k) = (0..n.min(ol)).find(|k| get(*k) != ot) { return Err(format!("thread {t}: {what}: byte {k} was not copied, it is {:#x}", get(k))) }
                            self.owned.retain(|o| o.0 != oa);
                        }
                        _ => {}
                    }
                    for &(oa, ol, _) in &self.owned {
                        if *a < oa + ol && oa < *a + l.size() { return Err(format!("thread {t}: {what}: offset {} overlaps an earlier allocation at offset {}", *a - self.base, oa - self.base)) }
                    }
                    unsafe { std::ptr::write_bytes(p, tg, l.size()) }
                    self.owned.push((*a, l.size(), tg));
                    if matches!(op, Raw(..) | Grow(..)) && l.align() == 1 { self.last[t] = Some((*a, l.size(), tg)) } else if matches!(op, Grow(..)) { self.last[t] = None }
                }
            }
            Res::Mismatch(x) | Res::Lev(x) => self.known[t] = *x,
            Res::Skip if matches!(op, Free(_)) => if let Some((a, ..)) = self.last[t].take() { self.owned.retain(|o| o.0 != a) },
            _ => {}
        }
        self.contents("after the call")
    }
    fn contents(&self, when: &str) -> Result<(), String> {
        for &(a, l, tg) in &self.owned {
            let b = unsafe { std::slice::from_raw_parts(alias(a) as *const u8, l) };
            if let Some(k) = b.iter().position(|x| *x != tg) { return Err(format!("{when}: byte {k} of the allocation at offset {} was changed", a - self.base)) }
        }
        let (o, n) = s().object;
        let start = alias(o);
        let around = |a: usize, n: usize| unsafe { std::slice::from_raw_parts(a as *const u8, n).iter().all(|b| *b == 0x6E) };
        if !around(start - 64, 64) || !around(start + n, 64) { return Err(format!("{when}: memory outside of the allocator was changed")) }
        Ok(())
    }
}

fn begin(t: usize) {
    let r = run();
    let op = r.progs[t][s().th[t].op];
    r.pending[t] = Some(op);
}

fn thread_main(t: usize) {
    let n = run().progs[t].len();
    for i in 0..n {
        let r = run();
        let op = r.progs[t][i];
        s().th[t].op = i;
        s().th[t].begun = false;
        s().th[t].obs = 0;
        r.arg[t] = match op.at() { Some(Known) => r.known[t], _ => r.levels[0] };
        let (f, b, at, last) = (r.exec, r.bump, r.arg[t], r.last[t].map(|l| (l.0, l.1)));
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(b, op, at, last, tag(t, i))));
        let res = match res { Ok(x) => x, Err(p) => Res::Bad(format!("panicked: {}", mcx::ctx::panic_text(&*p))) };
        if !s().th[t].begun { s().th[t].begun = true; begin(t) }
        ctx().op(|| format!("  thread {t}: {} returns {}", op.text(), run().show(&res)));
        if let Err(m) = run().returned(t, i, op, res) { sched::fail_in_thread(m) }
    }
}

pub struct Setup {
    pub offset: usize,
    pub threads: Vec<Vec<Vec<Op>>>,
    /// Choose the programs of equal alphabets only up to the order of the threads.
    pub symmetric: bool,
    pub prune: bool,
    pub preemptions: Option<u32>,
    pub spurious: u32,
    /// Only schedules in which the threads strictly take turns, with any turn lengths up to this one.
    pub turns: usize,
}

pub fn explore<T: 'static>(c: &mut Ctx, set: &Setup) {
    sched::init();
    if set.spurious > 0 && !sched::SHIM { return }
    // programs
    let mut progs: Vec<Vec<Op>> = vec![];
    let mut idx: Vec<Vec<usize>> = vec![];
    for th in &set.threads {
        let mut p = vec![];
        let mut ix = vec![];
        for alpha in th { let k = c.choose(alpha.len()); ix.push(k); p.push(alpha[k]) }
        if set.symmetric && idx.last().map_or(false, |l| *l > ix) { return }
        if c.skipped() { return }
        idx.push(ix);
        progs.push(p);
    }
    let at = unsafe { sys::TWIN.user as usize } + 512 + set.offset;
    let size = size_of::<Bump<T>>();
    let cap = size_of::<T>();
    let st = s();
    st.object = (at, size);
    st.ctx = c;
    st.spurious_left = set.spurious;
    let place = || unsafe {
        let a = alias(at) as *mut u8;
        std::ptr::write_bytes(a.sub(64), 0x6E, size + 128);
        std::ptr::write_bytes(a, 0x5C, size);
        (at as *mut Bump<T>).write(Bump::uninit());
        &mut *(at as *mut Bump<T>)
    };
    sched::stop();
    let one = Layout::new::<u8>();
    let b = place();
    let mut levels = vec![b.level()];
    let mut base = 0;
    for i in 0..cap {
        let Some(p) = b.alloc(one) else { fail!("allocation of byte {} of {cap} fails", i + 1) };
        if i == 0 { base = p.as_ptr() as usize }
        check!(p.as_ptr() as usize == base + i, "byte {i} is placed at {p:?}, not at {:#x}", base + i);
        levels.push(b.level());
    }
    check!(cap == 0 || (base >= at && base + cap <= at + size), "storage outside of the allocator");
    for i in 0..levels.len() { check!(levels[..i].iter().all(|l| *l < levels[i]), "levels do not increase: {:?}", levels) }
    let b = place();
    let n = progs.len();
    let mut r = Run {
        bump: b as *const Bump<T> as *const (), exec: exec::<T>, progs, known: [levels[0]; NT], arg: [levels[0]; NT], last: [None; NT], owned: vec![],
        configs: vec![Config { used: 0, lin: [0; NT] }], base, cap, levels, pending: [None; NT],
    };
    unsafe { RUN = &mut r }
    c.op(|| format!("Bump of {cap} bytes; {}", run().progs.iter().enumerate().map(|(t, p)| format!("thread {t}: {}", p.iter().map(|o| o.text()).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join("; ")));
    sched::start(n, thread_main, begin);
    let res = schedule(c, set, n);
    sched::stop();
    sched::restore();
    match res { Err(m) => fail!("{m}"), Ok(false) => return, Ok(true) => {} }
    // quiescent
    let r = run();
    let l = b.level();
    let Some(used) = r.u_of(l) else { fail!("final level {l:?} was never reached") };
    check!(r.configs.iter().any(|c| c.used as usize == used), "finally {used} bytes are consumed, the results allow only {:?}", r.configs.iter().map(|c| c.used).collect::<Vec<_>>());
    if let Err(m) = r.contents("finally") { fail!("{m}") }
    for i in used..cap {
        let p = b.alloc(one);
        check!(p.map(|p| p.as_ptr() as usize) == Some(r.base + i), "afterwards: one byte more with {i} of {cap} consumed gives {p:?}");
    }
    check!(b.alloc(one).is_none(), "afterwards: a full allocator hands out a byte");
    if let Err(m) = r.contents("afterwards") { fail!("{m}") }
    b.reset();
    check!(b.level() == r.levels[0], "level after reset");
    if cap > 0 { check!(b.alloc(one).map(|p| p.as_ptr() as usize) == Some(r.base), "the first byte after reset") }
    let mut o: Vec<(usize, usize, u8)> = r.owned.iter().map(|o| (o.0 - r.base, o.1, o.2)).collect();
    o.sort();
    c.outcome(&(&r.progs, o, used));
}

fn schedule(c: &mut Ctx, set: &Setup, n: usize) -> Result<bool, String> {
    // Up to the first access nothing is shared.
    for t in 0..n {
        sched::resume(t);
        if let Some(m) = s().fail.take() { return Err(m) }
    }
    let mut cur = n;
    let mut spent = 0u32;
    let turn: Vec<usize> = if set.turns > 0 { (0..n).map(|_| 1 + c.choose(set.turns)).collect() } else { vec![] };
    let mut left = if set.turns > 0 { c.choose(set.turns + 1) } else { 0 };
    if set.turns > 0 { cur = 0 }
    loop {
        let alive: Vec<usize> = (0..n).filter(|t| !s().th[*t].done).collect();
        if alive.is_empty() { return Ok(true) }
        let bound = set.preemptions.unwrap_or(u32::MAX);
        let remaining = bound - spent;
        if set.prune {
            let r = run();
            let mut owned = r.owned.clone();
            owned.sort();
            let th: Vec<_> = s().th[..n].iter().enumerate().map(|(t, x)| (x.done, x.op, x.obs, x.begun, r.u_of(r.known[t]), r.u_of(r.arg[t]), r.last[t])).collect();
            let foreign: Vec<_> = s().foreign.iter().map(|f| (f.0, f.3)).collect();
            let state = (&r.progs, memory(), th, &r.configs.iter().map(|c| (c.used, c.lin)).collect::<Vec<_>>(), owned, foreign, s().spurious_left, if set.preemptions.is_some() { cur } else { 0 });
            if !c.visit(&state, remaining) { return Ok(false) }
        }
        let mut opts = vec![];
        if set.turns > 0 {
            while left == 0 || !alive.contains(&cur) { cur = (cur + 1) % n; left = turn[cur] }
            left -= 1;
            opts.push(cur);
        } else if alive.contains(&cur) { opts.push(cur); if remaining > 0 { opts.extend(alive.iter().copied().filter(|t| *t != cur)) } } else { opts = alive.clone() }
        let k = if opts.len() == 1 { 0 } else { c.choose(opts.len()) };
        let t = opts[k];
        if alive.contains(&cur) && t != cur && set.preemptions.is_some() { spent += 1 }
        cur = t;
        c.op(|| {
            let th = &s().th[t];
            let op = run().progs[t][th.op];
            let o = s().object;
            let place = if th.at >= o.0 && th.at < o.0 + o.1 { format!("allocator byte {}", th.at - o.0) } else { "another place".into() };
            let kind = ["load", "store", "read-modify-write", "compare-exchange", "weak compare-exchange", "fence", "spin"].get(th.kind as usize).copied().unwrap_or("access");
            format!("thread {t}, in {}: {kind} of {place}", op.text())
        });
        sched::resume(t);
        if let Some(m) = s().fail.take() { return Err(m) }
    }
}
