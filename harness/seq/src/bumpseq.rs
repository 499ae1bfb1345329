//! All sequences of calls on a bump allocator, compared step by step with an interval model.
use crate::for_type;
use crate::vals::{type_layout, type_name};
use mcx::ctx::nopanic;
use mcx::mem::{align_up, Owned, Region};
use mcx::{check, fail, Ctx};
use static_alloc::bump::{Failure, Level};
use std::alloc::Layout;
use std::mem::MaybeUninit;

/// The calls, for the static and for the unsync allocator. Pointers are passed as addresses.
pub trait Api {
    const NAME: &'static str;
    /// Raw call forms for a layout (index < RAW).
    const RAW: usize;
    const RAW_AT: usize;
    const TYPED: usize;
    const TYPED_AT: usize;
    /// From this form on typed calls store a value.
    const STORES_FROM: usize = 1;
    /// Result: address and, where the call reports it, the level after.
    fn raw(&self, form: usize, l: Layout) -> Option<(usize, Option<Level>)>;
    fn raw_at(&self, form: usize, l: Layout, at: Level) -> Result<(usize, Option<Level>), Failure>;
    fn typed<V: Copy + 'static>(&self, form: usize) -> Result<(usize, Option<Level>), Option<Failure>>;
    fn typed_at<V: Copy + 'static>(&self, form: usize, at: Level) -> Result<(usize, Option<Level>), Failure>;
    /// Array allocation, if there is one.
    fn array<V: 'static>(&self, n: usize) -> Option<Result<(usize, usize), Failure>>;
    fn level(&self) -> Level;
    fn reset(&mut self);
    fn capacity(&self) -> Option<usize> { None }
    fn data_addr(&self) -> Option<usize> { None }
    /// Ways to give a block back.
    const RELEASE: usize = 0;
    unsafe fn release(&self, _form: usize, _addr: usize, _l: Layout) {}
}

fn a<T>(p: std::ptr::NonNull<T>) -> usize { p.as_ptr() as *mut u8 as usize }

impl<T> Api for static_alloc::Bump<T> {
    const NAME: &'static str = "Bump";
    const RAW: usize = 2;
    const RAW_AT: usize = 2;
    const TYPED: usize = 3;
    const TYPED_AT: usize = 3;
    fn raw(&self, form: usize, l: Layout) -> Option<(usize, Option<Level>)> {
        match form {
            0 => self.alloc(l).map(|p| (a(p), None)),
            _ => self.get_layout(l).map(|x| (a(x.ptr), Some(x.level))),
        }
    }
    fn raw_at(&self, form: usize, l: Layout, at: Level) -> Result<(usize, Option<Level>), Failure> {
        match form {
            0 => self.alloc_at(l, at).map(|x| (a(x.ptr), Some(x.level))),
            _ => self.get_layout_at(l, at).map(|x| (a(x.ptr), Some(x.level))),
        }
    }
    fn typed<V: Copy + 'static>(&self, form: usize) -> Result<(usize, Option<Level>), Option<Failure>> {
        match form {
            0 => self.get::<V>().map(|x| (a(x.ptr), Some(x.level))).ok_or(None),
            1 => self.leak(pattern::<V>()).map(|p| (p as *mut V as *mut u8 as usize, None)).map_err(|e| Some(e.kind())),
            _ => self.leak_box(pattern::<V>()).map(|b| (static_alloc::leaked::LeakBox::into_raw(b) as *mut u8 as usize, None)).ok_or(None),
        }
    }
    fn typed_at<V: Copy + 'static>(&self, form: usize, at: Level) -> Result<(usize, Option<Level>), Failure> {
        match form {
            0 => self.get_at::<V>(at).map(|x| (a(x.ptr), Some(x.level))),
            1 => self.leak_at(pattern::<V>(), at).map(|(p, l)| (p as *mut V as *mut u8 as usize, Some(l))).map_err(|e| e.kind()),
            _ => self.leak_box_at(pattern::<V>(), at).map(|b| (static_alloc::leaked::LeakBox::into_raw(b) as *mut u8 as usize, None)),
        }
    }
    fn array<V: 'static>(&self, _: usize) -> Option<Result<(usize, usize), Failure>> { None }
    fn level(&self) -> Level { static_alloc::Bump::level(self) }
    fn reset(&mut self) { static_alloc::Bump::reset(self) }
    const RELEASE: usize = 2;
    unsafe fn release(&self, form: usize, addr: usize, l: Layout) {
        use alloc_traits::{AllocTime, Allocation, LocalAlloc, NonZeroLayout};
        let ptr = addr as *mut u8;
        match form {
            0 => std::alloc::GlobalAlloc::dealloc(self, ptr, l),
            _ => LocalAlloc::dealloc(self, Allocation { ptr: std::ptr::NonNull::new_unchecked(ptr), layout: NonZeroLayout::from_layout(l.into()).unwrap(), lifetime: AllocTime::default() }),
        }
    }
}

impl Api for static_alloc::unsync::MemBump {
    const NAME: &'static str = "MemBump";
    const STORES_FROM: usize = 99;
    const RAW: usize = 1;
    const RAW_AT: usize = 1;
    const TYPED: usize = 2;
    const TYPED_AT: usize = 1;
    fn raw(&self, _: usize, l: Layout) -> Option<(usize, Option<Level>)> { self.alloc(l).map(|p| (a(p), None)) }
    fn raw_at(&self, _: usize, l: Layout, at: Level) -> Result<(usize, Option<Level>), Failure> { self.alloc_at(l, at).map(|p| (a(p), None)) }
    fn typed<V: Copy + 'static>(&self, form: usize) -> Result<(usize, Option<Level>), Option<Failure>> {
        match form {
            0 => self.get::<V>().map(|x| (a(x.ptr), Some(x.level))).ok_or(None),
            _ => self.bump_box::<V>().map(|b| (static_alloc::leaked::LeakBox::into_raw(b) as *mut u8 as usize, None)).map_err(Some),
        }
    }
    fn typed_at<V: Copy + 'static>(&self, _: usize, at: Level) -> Result<(usize, Option<Level>), Failure> {
        self.get_at::<V>(at).map(|x| (a(x.ptr), Some(x.level)))
    }
    fn array<V: 'static>(&self, n: usize) -> Option<Result<(usize, usize), Failure>> {
        Some(self.bump_array::<V>(n).map(|b| {
            let s = static_alloc::leaked::LeakBox::leak(b);
            (s.as_mut_ptr() as usize, s.len())
        }))
    }
    fn level(&self) -> Level { static_alloc::unsync::MemBump::level(self) }
    fn reset(&mut self) { static_alloc::unsync::MemBump::reset(self) }
    fn capacity(&self) -> Option<usize> { Some(static_alloc::unsync::MemBump::capacity(self)) }
    fn data_addr(&self) -> Option<usize> { Some(a(self.data_ptr())) }
}

/// The alphabet of a scenario.
#[derive(Clone)]
pub struct Alphabet {
    pub layouts: Vec<(usize, usize)>,
    pub types: Vec<usize>,
    pub arrays: Vec<(usize, usize)>,
    pub conditional: bool,
    pub reset: bool,
    pub forms: bool,
}

/// Model of one allocator with known placement.
pub struct Model {
    pub base: usize,
    pub cap: usize,
    pub used: usize,
    pub owned: Owned,
    /// blocks which may still be given back, oldest first
    pub blocks: Vec<(usize, Layout)>,
    /// levels seen so far, with the consumed amount they stand for
    pub levels: Vec<(usize, Level)>,
    /// bytes beyond this offset were never handed out; their expected content if known
    pub high: usize,
    pub init: Option<Vec<u8>>,
    pub has_reset: bool,
}

impl Model {
    pub fn fit(&self, at: usize, l: Layout) -> Option<(usize, usize)> {
        let s = align_up(self.base + at, l.align()) - self.base;
        match s.checked_add(l.size()) { Some(e) if e <= self.cap => Some((s, e)), _ => None }
    }
    pub fn take(&mut self, what: &str, addr: usize, l: Layout, stored: bool) {
        let (s, e) = self.fit(self.used, l).unwrap();
        check!(addr % l.align() == 0, "{what}: pointer {addr:#x} is not aligned to {}", l.align());
        check!(addr == self.base + s, "{what}: expected offset {s}, got offset {} (of capacity {})", addr.wrapping_sub(self.base) as isize, self.cap);
        if stored {
            for i in 0..l.size() {
                let b = unsafe { *((addr + i) as *const u8) };
                check!(b == pat(i), "{what}: byte {i} of the stored value reads back as {b:#x} instead of {:#x}", pat(i));
            }
        } else if let Some(init) = &self.init {
            for i in s.max(self.high)..e {
                let b = unsafe { *((self.base + i) as *const u8) };
                check!(b == init[i], "{what}: fresh byte at offset {i} is {b:#x}, the storage was created with {:#x}", init[i]);
            }
        }
        self.owned.add(what, addr, l.size());
        self.blocks.push((addr, l));
        self.used = e;
        self.high = self.high.max(e);
    }
    /// Check a level reported by the allocator against the consumed amount it must stand for.
    pub fn level(&mut self, what: &str, used: usize, l: Level) {
        for &(u, k) in &self.levels {
            check!((u == used) == (k == l) && (u < used) == (k < l), "{what}: reported level {l:?} with {used} bytes consumed, but {u} bytes consumed were reported as {k:?}");
        }
        if !self.levels.iter().any(|x| x.0 == used) { self.levels.push((used, l)); }
    }
}

fn expect_failure(what: &str, m: &mut Model, f: Failure, at: usize, l: Layout) {
    let fits_there = m.fit(at, l).is_some();
    match f {
        Failure::Mismatch { observed } => {
            check!(at != m.used, "{what}: reports a mismatch although the level is the current one");
            let u = m.used;
            m.level(what, u, observed);
        }
        Failure::Exhausted => {
            check!(!fits_there, "{what}: reports exhaustion although the request fits at the given level (offset {at}, capacity {})", m.cap);
        }
    }
}

/// One step, chosen from the alphabet. Returns a short code of the outcome.
pub fn step<A: Api + ?Sized>(ctx: &mut Ctx, api: &mut A, m: &mut Model, al: &Alphabet) {
    let nf = |n: usize| if al.forms { n } else { 1 };
    let (r, ra, t, ta) = (nf(A::RAW), nf(A::RAW_AT), nf(A::TYPED), nf(A::TYPED_AT));
    let (nl, nt) = (al.layouts.len(), al.types.len());
    let n_raw = nl * r;
    let n_typed = nt * t;
    let n_arr = al.arrays.len();
    let n_cond = if al.conditional { nl * ra + nt * ta } else { 0 };
    let n_rel = if al.forms { A::RELEASE * 2 } else { 0 };
    let n_reset = al.reset as usize;
    let mut c = ctx.choose(n_raw + n_typed + n_arr + n_cond + n_reset + n_rel);
    if c >= n_raw + n_typed + n_arr + n_cond + n_reset {
        c -= n_raw + n_typed + n_arr + n_cond + n_reset;
        let (form, newest) = (c / 2, c % 2 == 0);
        if m.blocks.is_empty() || (!newest && m.blocks.len() == 1) { return }
        let (addr, l) = if newest { m.blocks.pop().unwrap() } else { m.blocks.remove(0) };
        let what = format!("dealloc#{form}(offset {}, size {}, align {})", addr - m.base, l.size(), l.align());
        ctx.op(|| format!("{what} with {} of {} bytes used", m.used, m.cap));
        m.owned.remove(addr);
        nopanic(&what, || unsafe { api.release(form, addr, l) });
        return;
    }
    if c < n_raw {
        let (form, (size, align)) = (c / nl, al.layouts[c % nl]);
        let l = Layout::from_size_align(size, align).unwrap();
        let what = format!("alloc#{form}(size {size}, align {align})");
        ctx.op(|| format!("{what} with {} of {} bytes used", m.used, m.cap));
        let got = nopanic(&what, || api.raw(form, l));
        return unconditional(m, &what, l, false, got);
    }
    c -= n_raw;
    if c < n_typed {
        let (form, ty) = (c / nt, al.types[c % nt]);
        let l = type_layout(ty);
        let what = format!("get#{form}::<{}>", type_name(ty));
        ctx.op(|| format!("{what} with {} of {} bytes used", m.used, m.cap));
        let got = nopanic(&what, || for_type!(ty, V => api.typed::<V>(form)));
        if let Err(Some(f)) = got {
            check!(f == Failure::Exhausted, "{what}: an unconditional request reports {f:?}");
        }
        return unconditional(m, &what, l, form >= A::STORES_FROM, got.ok());
    }
    c -= n_typed;
    if c < n_arr {
        let (ty, n) = al.arrays[c];
        let el = type_layout(ty);
        let what = format!("array::<{}>({n})", type_name(ty));
        ctx.op(|| format!("{what} with {} of {} bytes used", m.used, m.cap));
        let got = nopanic(&what, || for_type!(ty, V => api.array::<V>(n))).expect("array call");
        let size = n.checked_mul(el.size()).filter(|s| *s <= isize::MAX as usize - 128);
        match size {
            None => check!(got == Err(Failure::Exhausted), "{what}: impossible size gives {got:?}"),
            Some(size) => {
                if let Ok((_, len)) = got { check!(len == n, "{what}: slice of length {len}"); }
                if let Err(f) = got { check!(f == Failure::Exhausted, "{what}: an unconditional request reports {f:?}"); }
                return unconditional(m, &what, Layout::from_size_align(size, el.align()).unwrap(), false, got.ok().map(|g| (g.0, None)));
            }
        }
        return;
    }
    c -= n_arr;
    if c < n_cond {
        // a level seen before, or the current one
        let mut known: Vec<(usize, Level)> = m.levels.clone();
        let cur = nopanic("level", || api.level());
        let u = m.used;
        m.level("level()", u, cur);
        known.retain(|x| x.0 != u);
        known.sort();
        if known.len() > 3 { let k = known.len(); known = vec![known[0], known[k / 2], known[k - 1]]; }
        known.insert(0, (u, cur));
        let (at, lv) = known[ctx.choose(known.len())];
        if c < nl * ra {
            let (form, (size, align)) = (c / nl, al.layouts[c % nl]);
            let l = Layout::from_size_align(size, align).unwrap();
            let what = format!("alloc_at#{form}(size {size}, align {align}, level of {at})");
            ctx.op(|| format!("{what} with {} of {} bytes used", m.used, m.cap));
            let got = nopanic(&what, || api.raw_at(form, l, lv));
            return conditional(m, &what, l, false, at, got);
        }
        c -= nl * ra;
        let (form, ty) = (c / nt, al.types[c % nt]);
        let l = type_layout(ty);
        let what = format!("get_at#{form}::<{}>(level of {at})", type_name(ty));
        ctx.op(|| format!("{what} with {} of {} bytes used", m.used, m.cap));
        let got = nopanic(&what, || for_type!(ty, V => api.typed_at::<V>(form, lv)));
        return conditional(m, &what, l, form >= A::STORES_FROM, at, got);
    }
    ctx.op(|| "reset".into());
    nopanic("reset", || api.reset());
    m.used = 0;
    m.owned.clear();
    m.blocks.clear();
    m.has_reset = true;
}

fn unconditional(m: &mut Model, what: &str, l: Layout, stored: bool, got: Option<(usize, Option<Level>)>) {
    if l.size() == 0 {
        let Some((addr, lv)) = got else { fail!("{what}: a zero-sized request failed") };
        check!(addr != 0 && addr % l.align() == 0, "{what}: zero-sized request gives bad pointer {addr:#x}");
        let u = m.used;
        if let Some(lv) = lv { m.level(what, u, lv); }
        return;
    }
    match (m.fit(m.used, l), got) {
        (None, None) => {}
        (None, Some((addr, _))) => fail!("{what}: returned {addr:#x} although the request does not fit"),
        (Some(_), None) => fail!("{what}: failed although the request fits ({} of {} bytes used)", m.used, m.cap),
        (Some(_), Some((addr, lv))) => {
            m.take(what, addr, l, stored);
            let u = m.used;
            if let Some(lv) = lv { m.level(what, u, lv); }
        }
    }
}

fn conditional(m: &mut Model, what: &str, l: Layout, stored: bool, at: usize, got: Result<(usize, Option<Level>), Failure>) {
    if l.size() == 0 {
        match got {
            Ok((addr, lv)) => {
                check!(at == m.used, "{what}: zero-sized request at a stale level succeeded");
                check!(addr != 0 && addr % l.align() == 0, "{what}: zero-sized request gives bad pointer {addr:#x}");
                let u = m.used;
                if let Some(lv) = lv { m.level(what, u, lv); }
            }
            Err(f) => {
                check!(at != m.used, "{what}: zero-sized request at the current level failed with {f:?}");
                match f {
                    Failure::Mismatch { observed } => { let u = m.used; m.level(what, u, observed) }
                    Failure::Exhausted => fail!("{what}: zero-sized request reports exhaustion"),
                }
            }
        }
        return;
    }
    match got {
        Ok((addr, lv)) => {
            check!(at == m.used, "{what}: succeeded although {} bytes are consumed", m.used);
            check!(m.fit(m.used, l).is_some(), "{what}: returned {addr:#x} although the request does not fit");
            m.take(what, addr, l, stored);
            let u = m.used;
            if let Some(lv) = lv { m.level(what, u, lv); }
        }
        Err(f) => {
            check!(at != m.used || m.fit(m.used, l).is_none(), "{what}: failed with {f:?} although the level is current and the request fits");
            expect_failure(what, m, f, at, l);
        }
    }
}

/// After a step: nothing outside of the allocations changed, the level is right.
pub fn audit<A: Api + ?Sized>(what: &str, api: &A, m: &mut Model, region: &Region) {
    m.owned.verify(what);
    check!(region.intact(), "{what}: memory outside of the allocator was changed");
    let l = nopanic("level", || api.level());
    let u = m.used;
    m.level("level() after the call", u, l);
    if let Some(c) = api.capacity() { check!(c == m.cap, "{what}: capacity {c}, expected {}", m.cap); }
    if let Some(d) = api.data_addr() { check!(d == m.base, "{what}: data pointer moved"); }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ctor { Uninit, Zeroed, New }

/// A static Bump over storage `T`, constructed in a region.
pub fn sync_body<T: 'static>(ctx: &mut Ctx, offset: usize, ctor: Ctor, al: &Alphabet, prune: bool) {
    use static_alloc::Bump;
    let region = Region::new(offset, std::mem::size_of::<Bump<T>>(), 0x3C);
    let cap = std::mem::size_of::<T>();
    let bump: &'static mut Bump<T> = unsafe {
        match ctor {
            Ctor::Uninit => region.place(Bump::uninit()),
            Ctor::Zeroed => region.place(Bump::zeroed()),
            Ctor::New => region.place(Bump::new(pattern::<T>())),
        }
    };
    let init = match ctor {
        Ctor::Uninit => None,
        Ctor::Zeroed => Some(vec![0u8; cap]),
        Ctor::New => Some((0..cap).map(pat).collect()),
    };
    // Where is the storage? The first byte of a fresh allocator tells.
    let base = {
        let probe: &Bump<T> = bump;
        match nopanic("first allocation", || probe.alloc(Layout::from_size_align(1, 1).unwrap())) {
            Some(p) => { let x = a(p); nopanic("reset", || bump.reset()); x }
            None => { check!(cap == 0, "a fresh allocator over {cap} bytes refuses one byte"); region.addr() }
        }
    };
    check!(cap == 0 || (region.contains(base, cap) && base % std::mem::align_of::<T>() == 0), "storage of {cap} bytes at {base:#x} is not inside the allocator or misaligned");
    let mut m = Model { base, cap, used: 0, owned: Owned::new(), blocks: vec![], levels: vec![], high: 0, init, has_reset: false };
    run(ctx, bump, &mut m, al, &region, prune);
}

pub fn pat(i: usize) -> u8 { (i as u8).wrapping_mul(7) ^ 0x91 }
pub fn pattern<T>() -> T {
    let mut t = MaybeUninit::<T>::uninit();
    for i in 0..std::mem::size_of::<T>() { unsafe { (t.as_mut_ptr() as *mut u8).add(i).write(pat(i)) } }
    unsafe { t.assume_init() }
}

pub fn run<A: Api + ?Sized>(ctx: &mut Ctx, api: &mut A, m: &mut Model, al: &Alphabet, region: &Region, prune: bool) {
    audit("construction", api, m, region);
    for i in 0..ctx.depth {
        let mut lv: Vec<usize> = if al.conditional { m.levels.iter().map(|x| x.0).collect() } else { vec![] };
        lv.sort();
        let state = (m.used, m.high, lv, m.has_reset);
        if prune { if !ctx.visit(&state, ctx.depth - i) { return } } else { ctx.note(&state); if ctx.skipped() { return } }
        step(ctx, api, m, al);
        audit("after the call", api, m, region);
    }
    ctx.outcome(&(m.used, m.owned.ranges.len()));
}

// ---- large storages, few calls ----

/// Zeroed pages, mapped once per size and worker, reserved only when written.
pub fn pages(len: usize) -> *mut u8 {
    extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; }
    thread_local! { static MAPPED: std::cell::RefCell<Vec<(usize, usize)>> = const { std::cell::RefCell::new(vec![]) }; }
    let _g = mcx::galloc::pause();
    MAPPED.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(x) = m.iter().find(|x| x.0 == len) { return x.1 as *mut u8 }
        // private, anonymous, no reservation
        let p = unsafe { mmap(std::ptr::null_mut(), len + 262144, 3, 2 | 0x20 | 0x4000, -1, 0) };
        assert!(p as isize != -1, "HARNESS: cannot map {len} bytes");
        let p = (p as usize + 131071) / 131072 * 131072;
        m.push((len, p));
        p as *mut u8
    })
}

/// Offsets to start from: all of them, or those around the ends and around powers of two.
pub fn marks(cap: usize, dense: bool) -> Vec<usize> {
    if dense { return (0..=cap).collect() }
    let mut v: Vec<usize> = (0..=9).collect();
    for p in 4..63 { let x = 1usize << p; v.extend([x - 1, x, x + 1]) }
    v.extend([cap / 2, cap / 3]);
    v.extend((0..=9).map(|k| cap.wrapping_sub(k)));
    v.retain(|x| *x <= cap);
    v.sort();
    v.dedup();
    v
}

/// Sizes of interest when `rest` bytes remain.
fn requests(rest: usize, dense: bool) -> Vec<usize> {
    let mut v: Vec<usize> = vec![1, 2, 3, 7, 8, 9, 16, 24];
    for k in [0usize, 1, 2, 3, 4, 6, 7, 8, 12, 15, 16, 24, 31, 32, 48, 63, 64, 96, 127, 128, 255, 256, 4095, 4096] { v.push(rest.wrapping_sub(k)) }
    v.extend([rest + 1, rest + 2, rest + 8]);
    if !dense { for p in 5..63 { let x = 1usize << p; v.extend([x - 1, x, x + 1]) } }
    v.retain(|x| *x > 0 && *x <= isize::MAX as usize - 4096 && (*x <= rest + 8 || !dense));
    v.sort();
    v.dedup();
    v
}

/// A first request of any size, a second one of any size and alignment, and what is left afterwards.
pub fn wide<A: Api + ?Sized>(ctx: &mut Ctx, api: &mut A, base: usize, cap: usize, dense: bool, conditional: bool) {
    let mut m = Model { base, cap, used: 0, owned: Owned::new(), blocks: vec![], levels: vec![], high: 0, init: None, has_reset: false };
    let one = Layout::from_size_align(1, 1).unwrap();
    let l0 = api.level();
    m.level("level()", 0, l0);
    let p = ctx.pick(&marks(cap, dense));
    // The second request: with an alignment, in a form.
    let aligns: &[usize] = if dense { &[1, 2, 4, 8, 16, 32, 64, 128] } else { &[1, 2, 8, 16, 64, 4096, 1 << 16, 1 << 21] };
    let align = ctx.pick(aligns);
    let form = ctx.choose(if conditional { A::RAW_AT } else { A::RAW });
    let at_start = p > 0 && conditional && ctx.flag();
    if ctx.skipped() { return }
    let place = |m: &mut Model, what: &str, l: Layout, got: Option<(usize, Option<Level>)>| {
        match (m.fit(m.used, l), got) {
            (None, None) => {}
            (None, Some((x, _))) => fail!("{what}: returned {x:#x} although the request does not fit ({} of {cap} bytes used)", m.used),
            (Some(_), None) => fail!("{what}: failed although the request fits ({} of {cap} bytes used)", m.used),
            (Some((s, e)), Some((x, lv))) => {
                check!(x == base.wrapping_add(s), "{what}: expected offset {s}, got offset {} (of capacity {cap})", x.wrapping_sub(base) as isize);
                m.used = e;
                if let Some(lv) = lv { m.level(what, e, lv) }
            }
        }
    };
    if p > 0 {
        let l = Layout::from_size_align(p, 1).unwrap();
        let what = format!("alloc({p} bytes)");
        ctx.op(|| format!("{what}, 0 of {cap} bytes used"));
        let got = nopanic(&what, || api.raw(form % A::RAW, l));
        place(&mut m, &what, l, got);
    }
    let lp = api.level();
    m.level("level()", p, lp);
    let size = ctx.pick(&requests(cap - p, dense));
    let Ok(l) = Layout::from_size_align(size, align) else { return };
    let what = format!("{}#{form}(size {size}, align {align}{})", if conditional { "alloc_at" } else { "alloc" }, if at_start { ", initial level" } else { "" });
    ctx.op(|| format!("{what}, {p} of {cap} bytes used"));
    if conditional {
        match nopanic(&what, || api.raw_at(form, l, if at_start { l0 } else { lp })) {
            Ok(g) => { check!(!at_start, "{what}: succeeded at a stale level, {p} bytes are consumed"); place(&mut m, &what, l, Some(g)) }
            Err(f) => {
                if !at_start { check!(m.fit(p, l).is_none(), "{what}: {f:?} although the request fits at the current level ({p} of {cap} bytes used)") }
                expect_failure(&what, &mut m, f, if at_start { 0 } else { p }, l);
            }
        }
    } else {
        let got = nopanic(&what, || api.raw(form, l));
        place(&mut m, &what, l, got);
    }
    let u = m.used;
    let after = nopanic("level", || api.level());
    m.level("level() after the call", u, after);
    ctx.note(&(p, u));
    ctx.outcome(&(p, size, align, u));
    // What is left is left, and only that.
    if u < cap { let got = nopanic("alloc", || api.raw(0, one)); place(&mut m, "alloc of one more byte", one, got); }
    let u = m.used;
    if u < cap { let l = Layout::from_size_align(cap - u, 1).unwrap(); let got = nopanic("alloc", || api.raw(0, l)); place(&mut m, "alloc of the rest", l, got); }
    let got = nopanic("alloc", || api.raw(0, one));
    check!(got.is_none(), "a byte was allocated from a full allocator");
    if u > 0 && cap > 0 {
        let r = nopanic("alloc_at", || api.raw_at(0, one, l0));
        check!(r.is_err(), "a request at the initial level succeeded with all {cap} bytes used");
    }
    let full = nopanic("level", || api.level());
    m.level("level() when full", m.cap, full);
    if let Some(c) = api.capacity() { check!(c == cap, "capacity {c}, expected {cap}") }
    nopanic("reset", || api.reset());
    m.used = 0;
    let l = nopanic("level", || api.level());
    m.level("level() after reset", 0, l);
}

/// [`wide`] on a static Bump over storage `T` of plain words.
pub fn sync_wide<T: Copy + 'static>(ctx: &mut Ctx, offset: usize, dense: bool, conditional: bool) {
    use static_alloc::Bump;
    let cap = std::mem::size_of::<T>();
    // All zero is a fresh allocator, if that holds for a small one.
    let small = Bump::<[u64; 4]>::zeroed();
    let zero = unsafe { std::slice::from_raw_parts(&small as *const _ as *const u8, std::mem::size_of_val(&small)) }.iter().all(|b| *b == 0);
    let p = unsafe { pages(std::mem::size_of::<Bump<T>>() + offset).add(offset) };
    check!(p as usize % std::mem::align_of::<Bump<T>>() == 0, "HARNESS: offset");
    let bump: &'static mut Bump<T> = unsafe {
        if zero {
            let b = &mut *(p as *mut Bump<T>);
            nopanic("reset", || b.reset());
            b
        } else if cap < 1 << 20 {
            (p as *mut Bump<T>).write(Bump::uninit());
            &mut *(p as *mut Bump<T>)
        } else { return }
    };
    let probe: &Bump<T> = bump;
    let base = match nopanic("first allocation", || probe.alloc(Layout::from_size_align(1, 1).unwrap())) { Some(q) => a(q), None => fail!("a fresh allocator over {cap} bytes refuses one byte") };
    nopanic("reset", || bump.reset());
    check!(base >= p as usize && base + cap <= p as usize + std::mem::size_of::<Bump<T>>(), "the storage is not inside the allocator");
    wide(ctx, bump, base, cap, dense, conditional);
}

/// A Bump over some hundred thousand bytes, for values of large sizes and alignments.
pub fn sync_huge<T: Copy + 'static>(ctx: &mut Ctx, offset: usize, al: &Alphabet) {
    use static_alloc::Bump;
    let cap = std::mem::size_of::<T>();
    let p = unsafe { pages(std::mem::size_of::<Bump<T>>() + offset).add(offset) };
    let bump: &'static mut Bump<T> = unsafe { (p as *mut Bump<T>).write(Bump::uninit()); &mut *(p as *mut Bump<T>) };
    let probe: &Bump<T> = bump;
    let base = match nopanic("first allocation", || probe.alloc(Layout::from_size_align(1, 1).unwrap())) { Some(q) => a(q), None => fail!("a fresh allocator over {cap} bytes refuses one byte") };
    nopanic("reset", || bump.reset());
    check!(base >= p as usize && base + cap <= p as usize + std::mem::size_of::<Bump<T>>(), "the storage is not inside the allocator");
    let mut m = Model { base, cap, used: 0, owned: Owned::new(), blocks: vec![], levels: vec![], high: 0, init: None, has_reset: false };
    run(ctx, bump, &mut m, al, &Region::new(0, 0, 0), true);
}

pub fn huge_alphabet(conditional: bool) -> Alphabet {
    Alphabet { layouts: vec![(1, 1), (65535, 1), (65536, 2), (70000, 8), (1, 8192), (3, 65536), (8192, 65536)], types: if conditional { vec![3, 20, 21, 22, 23] } else { vec![0, 3, 16, 20, 21, 22, 23] }, arrays: vec![], conditional, reset: true, forms: true }
}

/// [`wide`] on a MemBump in borrowed memory.
pub fn mem_wide(ctx: &mut Ctx, offset: usize, len: usize, dense: bool, conditional: bool) {
    use static_alloc::unsync::MemBump;
    let p = unsafe { pages(len + offset).add(offset) };
    let mem = unsafe { std::slice::from_raw_parts_mut(p as *mut MaybeUninit<u8>, len) };
    let mut b = match nopanic("from_mem", || MemBump::from_mem(mem)) { Ok(b) => b, Err(_) => fail!("from_mem refused {len} bytes") };
    let (base, cap) = (b.data_ptr().as_ptr() as usize, b.capacity());
    check!(base >= p as usize && base + cap <= p as usize + len && cap + 4 * 8 >= len, "data area [{base:#x}, +{cap}) of memory [{p:?}, +{len})");
    wide(ctx, &mut *b, base, cap, dense, conditional);
}
