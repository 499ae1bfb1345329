//! P20: the default operations of LocalAlloc on allocators that may do anything their contract
//! allows, and the layout types.
use alloc_traits::util::defaults;
use alloc_traits::{AllocTime, Allocation, LocalAlloc, NonZeroLayout};
use mcx::ctx::{nopanic, Ctx};
use mcx::driver::Meta;
use mcx::{check, Scenario, Tier};
use std::alloc::Layout;
use std::cell::{Cell, RefCell};
use std::convert::TryFrom;
use std::ptr::NonNull;

/// Memory for the blocks: slots of 35 pages, each followed by an inaccessible one. Blocks end as
/// close to the inaccessible page as their alignment permits.
const PAGE: usize = 4096;
const USE: usize = 35 * PAGE;
const SLOT: usize = USE + PAGE;
const SLOTS: usize = 24;
extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn mprotect(a: *mut u8, l: usize, p: i32) -> i32; }
fn arena() -> usize {
    thread_local!(static A: Cell<usize> = const { Cell::new(0) });
    A.with(|a| {
        if a.get() == 0 {
            unsafe {
                let p = mmap(std::ptr::null_mut(), SLOT * (SLOTS + 1), 0, 0x22, -1, 0) as usize;
                assert!(p as isize > 0);
                let p = (p + SLOT - 1) / SLOT * SLOT;
                for i in 0..SLOTS { assert!(mprotect((p + i * SLOT) as *mut u8, USE, 3) == 0) }
                a.set(p)
            }
        }
        a.get()
    })
}
const OUTSIDE: u8 = 0x7C;
const FREED: u8 = 0xDD;
const FRESH: u8 = 0xA9;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Beh { Fail, Exact, Larger(usize), Double, Aligned, LargerAligned }

#[derive(Clone, Copy, Debug)]
struct Blk { ptr: usize, lay: Layout, live: bool }

#[derive(Default)]
struct State { blocks: RefCell<Vec<Blk>>, beh: Cell<Option<Beh>>, reuse: Cell<bool>, allocs: Cell<usize>, frees: RefCell<Vec<usize>> }

impl State {
    fn window(ptr: usize, size: usize) -> (usize, usize) {
        // the part of the slot that is compared: up to 128 bytes before, and the end of the slot
        let slot = (ptr - arena()) / SLOT * SLOT + arena();
        (slot.max(ptr.saturating_sub(128)), (slot + USE).min(ptr + size + 128))
    }
    fn get(&self, l: NonZeroLayout) -> Option<(usize, Layout)> {
        let l: Layout = l.into();
        self.allocs.set(self.allocs.get() + 1);
        let (mut size, mut al) = (l.size(), l.align());
        match self.beh.get().unwrap_or(Beh::Exact) {
            Beh::Fail => return None,
            Beh::Exact => {}
            Beh::Larger(n) => size += n,
            Beh::Double => size *= 2,
            Beh::Aligned => al *= 4,
            Beh::LargerAligned => { al *= 2; size += 33 }
        }
        let lay = Layout::from_size_align(size, al).unwrap();
        let mut b = self.blocks.borrow_mut();
        // reuse released memory first, or never
        let slot = match (0..b.len()).rev().find(|i| self.reuse.get() && !b[*i].live && !b.iter().any(|o| o.live && (o.ptr - arena()) / SLOT == (b[*i].ptr - arena()) / SLOT)) {
            Some(i) => { let s = (b[i].ptr - arena()) / SLOT; b.remove(i); s }
            None => (0..SLOTS).find(|s| !b.iter().any(|o| (o.ptr - arena()) / SLOT == *s)).expect("HARNESS: out of slots"),
        };
        let end = arena() + slot * SLOT + USE;
        let ptr = (end - size) / al * al;
        assert!(ptr >= arena() + slot * SLOT + 128);
        let w = Self::window(ptr, size);
        unsafe {
            std::ptr::write_bytes(w.0 as *mut u8, OUTSIDE, w.1 - w.0);
            std::ptr::write_bytes(ptr as *mut u8, FRESH, size);
        }
        b.push(Blk { ptr, lay, live: true });
        Some((ptr, lay))
    }
    fn put(&self, ptr: usize, lay: Layout) {
        let mut b = self.blocks.borrow_mut();
        match b.iter_mut().rfind(|b| b.ptr == ptr && b.live) {
            None => mcx::ctx::fail_later(format!("released {} which is no live block", if b.iter().any(|b| b.ptr == ptr) { "a block twice or one" } else { "a pointer" })),
            Some(b) => {
                if b.lay != lay { mcx::ctx::fail_later(format!("the block obtained with {:?} was released with {lay:?}", b.lay)) }
                b.live = false;
                self.frees.borrow_mut().push(ptr);
                unsafe { std::ptr::write_bytes(ptr as *mut u8, FREED, b.lay.size()) }
            }
        }
    }
    /// Nothing outside of blocks or in released blocks was written.
    fn audit(&self, what: &str) {
        for b in self.blocks.borrow().iter() {
            let w = Self::window(b.ptr, b.lay.size());
            for a in w.0..w.1 {
                let v = unsafe { *(a as *const u8) };
                let inside = a >= b.ptr && a < b.ptr + b.lay.size();
                if !inside { check!(v == OUTSIDE, "{what}: byte {} relative to a block of {} bytes was written", a as isize - b.ptr as isize, b.lay.size()) }
                if inside && !b.live { check!(v == FREED, "{what}: byte {} of a released block was written", a - b.ptr) }
            }
        }
    }
}

fn wrap<'a>(r: Option<(usize, Layout)>) -> Option<Allocation<'a>> {
    r.map(|(p, l)| Allocation { ptr: NonNull::new(p as *mut u8).unwrap(), layout: NonZeroLayout::from_layout(l.into()).unwrap(), lifetime: AllocTime::default() })
}

/// Only the required methods.
struct Plain(State);
unsafe impl<'a> LocalAlloc<'a> for Plain {
    fn alloc(&'a self, l: NonZeroLayout) -> Option<Allocation<'a>> { wrap(self.0.get(l)) }
    unsafe fn dealloc(&'a self, a: Allocation<'a>) { self.0.put(a.ptr.as_ptr() as usize, a.layout.into()) }
}
/// Overridden methods falling back to the defaults, as documented.
struct Super(State, Cell<u32>);
unsafe impl<'a> LocalAlloc<'a> for Super {
    fn alloc(&'a self, l: NonZeroLayout) -> Option<Allocation<'a>> { wrap(self.0.get(l)) }
    unsafe fn dealloc(&'a self, a: Allocation<'a>) { self.0.put(a.ptr.as_ptr() as usize, a.layout.into()) }
    fn alloc_zeroed(&'a self, l: NonZeroLayout) -> Option<Allocation<'a>> {
        self.1.set(self.1.get() + 1);
        check!(self.1.get() < 50, "the default alloc_zeroed calls the overridden methods without end");
        defaults::local::alloc_zeroed(self, l)
    }
    unsafe fn realloc(&'a self, a: Allocation<'a>, l: NonZeroLayout) -> Option<Allocation<'a>> {
        self.1.set(self.1.get() + 1);
        check!(self.1.get() < 50, "the default realloc calls the overridden methods without end");
        defaults::local::realloc(self, a, l)
    }
}
trait Mock: for<'a> LocalAlloc<'a> + 'static { fn make() -> Self; fn st(&self) -> &State; const NAME: &'static str; }
impl Mock for Plain { fn make() -> Self { Plain(Default::default()) } fn st(&self) -> &State { &self.0 } const NAME: &'static str = "provided methods"; }
impl Mock for Super { fn make() -> Self { Super(Default::default(), Cell::new(0)) } fn st(&self) -> &State { &self.0 } const NAME: &'static str = "overridden methods calling the defaults"; }

struct Live { a: Allocation<'static>, tag: u8, valid: usize }

fn lay(s: usize, a: usize) -> NonZeroLayout { NonZeroLayout::from_layout(Layout::from_size_align(s, a).unwrap().into()).unwrap() }

/// How the calls are made.
#[derive(Clone, Copy, PartialEq)]
enum Via { Method, Dyn, Function }

#[derive(Clone)]
struct Al { layouts: &'static [(usize, usize)], behs: &'static [Beh], max: usize, prune: bool, reuse: bool, via: Via }

fn seqs<M: Mock>(ctx: &mut Ctx, al: Al) {
    let boxed = Box::new(M::make());
    let m: &'static M = unsafe { &*(&*boxed as *const M) };
    let st = m.st();
    st.reuse.set(al.reuse);
    let mut live: Vec<Live> = vec![];
    let mut tag = 1u8;
    for i in 0..ctx.depth {
        if al.prune {
            let mut s: Vec<_> = live.iter().map(|l| { let x: Layout = l.a.layout.into(); (x.size(), x.align(), l.valid) }).collect();
            s.sort();
            if !ctx.visit(&s, ctx.depth - i) { break }
        }
        let (nl, nb) = (al.layouts.len(), al.behs.len());
        let room = live.len() < al.max;
        // 0 alloc, 1 alloc_zeroed, 2.. realloc of a block, then dealloc of a block
        let op = ctx.choose(2 + live.len() + live.len());
        let before: Vec<(usize, Layout)> = live.iter().map(|l| (l.a.ptr.as_ptr() as usize, l.a.layout.into())).collect();
        let frees = st.frees.borrow().len();
        let dynamic: &'static dyn LocalAlloc<'static> = m;
        let what;
        let mut expect = before.clone();
        if op < 2 + live.len() {
            let (s, a) = al.layouts[ctx.choose(nl)];
            let beh = al.behs[ctx.choose(nb)];
            if op < 2 && !room { break }
            st.beh.set(Some(beh));
            let l = lay(s, a);
            let r;
            let mut released = None;
            match op {
                0 => { what = format!("alloc of size {s} align {a} ({beh:?})"); ctx.op(|| what.clone()); r = nopanic(&what, || m.alloc(l)) }
                1 => {
                    what = format!("alloc_zeroed of size {s} align {a} (allocator: {beh:?})"); ctx.op(|| what.clone());
                    r = nopanic(&what, || match al.via { Via::Method => m.alloc_zeroed(l), Via::Dyn => dynamic.alloc_zeroed(l), Via::Function => defaults::local::alloc_zeroed(m, l) });
                }
                _ => {
                    let old = &live[op - 2];
                    let ol: Layout = old.a.layout.into();
                    what = format!("realloc of a block of size {} align {} to size {s} align {a} (allocator: {beh:?})", ol.size(), ol.align()); ctx.op(|| what.clone());
                    let oa = old.a;
                    r = nopanic(&what, || unsafe { match al.via { Via::Method => m.realloc(oa, l), Via::Dyn => dynamic.realloc(oa, l), Via::Function => defaults::local::realloc(m, oa, l) } });
                    if r.is_some() { released = Some(op - 2) }
                }
            }
            check!(r.is_some() == (beh != Beh::Fail), "{what}: reports {}", if r.is_some() { "success" } else { "failure" });
            let mut old = None;
            if let Some(k) = released { expect.remove(k); old = Some(live.remove(k)) }
            if let Some(n) = r {
                let (p, nl): (usize, Layout) = (n.ptr.as_ptr() as usize, n.layout.into());
                check!(nl.size() >= s && nl.align() >= a && p % a == 0, "{what}: gives {nl:?} at {p:#x}");
                expect.push((p, nl));
                let bytes = unsafe { std::slice::from_raw_parts_mut(p as *mut u8, nl.size()) };
                // the blocks the allocator really has
                check!(st.blocks.borrow().iter().any(|b| b.live && b.ptr == p && b.lay == nl), "{what}: returns {nl:?} at {p:#x}, which is not a live block of the allocator");
                st.audit(&what);
                match op {
                    0 => {}
                    1 => check!(bytes.iter().all(|b| *b == 0), "{what}: byte {} of the {} bytes is not zero", bytes.iter().position(|b| *b != 0).unwrap(), nl.size()),
                    _ => {
                        let o = old.take().unwrap();
                        let keep = s.min(o.valid);
                        for i in 0..keep { check!(bytes[i] == o.tag ^ i as u8, "{what}: byte {i} of the first {keep} was not kept") }
                    }
                }
                for (i, b) in bytes.iter_mut().enumerate() { *b = tag ^ i as u8 }
                live.push(Live { a: n, tag, valid: nl.size() });
                tag = tag.wrapping_add(37).max(1);
            }
        } else {
            let k = op - 2 - live.len();
            let l = live.remove(k);
            what = format!("dealloc of a block of {} bytes", l.valid);
            ctx.op(|| what.clone());
            expect.remove(k);
            nopanic(&what, || unsafe { m.dealloc(l.a) });
        }
        // exactly the expected blocks are live
        let mut have: Vec<_> = st.blocks.borrow().iter().filter(|b| b.live).map(|b| (b.ptr, b.lay.size(), b.lay.align())).collect();
        let mut want: Vec<_> = expect.iter().map(|(p, l)| (*p, l.size(), l.align())).collect();
        have.sort(); want.sort();
        check!(have == want, "{what}: the allocator has the live blocks (address, size, align) {have:x?}, expected {want:x?}");
        let gone = st.frees.borrow().len() - frees;
        check!(gone <= 1, "{what}: released {gone} blocks");
        for l in &live {
            let b = unsafe { std::slice::from_raw_parts(l.a.ptr.as_ptr(), l.valid) };
            for (i, v) in b.iter().enumerate() { check!(*v == l.tag ^ i as u8, "{what}: byte {i} of another live block was changed") }
        }
        st.audit(&what);
    }
    ctx.outcome(&live.iter().map(|l| l.valid).collect::<Vec<_>>());
    for l in live { unsafe { m.dealloc(l.a) } }
    let left = st.blocks.borrow().iter().filter(|b| b.live).count();
    check!(left == 0, "the allocator still has {left} blocks after all were released");
    drop(boxed);
}

const SIZES: [usize; 20] = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 4095, 4096, 4097];

/// All valid std layouts of interest.
fn all_layouts() -> Vec<Layout> {
    let mut v = vec![];
    for p in 0..64 {
        let a = 1usize << p;
        let top = isize::MAX as usize - (a - 1).min(isize::MAX as usize);
        for s in SIZES.into_iter().chain([a - 1, a, a.wrapping_add(1), top, top.wrapping_sub(1), top / 2, top / 2 + 1]) {
            if let Ok(l) = Layout::from_size_align(s, a) { if !v.contains(&l) { v.push(l) } }
        }
    }
    v
}

fn layouts(ctx: &mut Ctx) {
    use alloc_traits::Layout as AL;
    let all = all_layouts();
    let l = ctx.pick(&all);
    ctx.op(|| format!("{l:?}"));
    let a = AL::from(l);
    check!(a.size() == l.size() && a.align() == l.align(), "Layout from {l:?} has size {} align {}", a.size(), a.align());
    check!(Layout::from(a) == l, "Layout from {l:?} converts back to {:?}", Layout::from(a));
    let via = [NonZeroLayout::from_layout(a), NonZeroLayout::try_from(a).ok(), NonZeroLayout::try_from(l).ok()];
    for (i, n) in via.iter().enumerate() {
        let how = ["from_layout", "try_from Layout", "try_from std Layout"][i];
        check!(n.is_some() == (l.size() > 0), "NonZeroLayout {how} of {l:?}: {n:?}");
        if let Some(n) = n {
            let n = *n;
            let s = nopanic("size", || n.size().get());
            check!(s == l.size() && n.align() == l.align(), "NonZeroLayout {how} of {l:?} has size {s} align {}", n.align());
            check!(Layout::from(n) == l, "NonZeroLayout {how} of {l:?} converts back to {:?}", Layout::from(n));
            check!(n == via[0].unwrap(), "NonZeroLayout {how} of {l:?} differs from the others");
        }
    }
    for m in &all {
        let b = AL::from(*m);
        check!((a == b) == (l == *m) && (a != b) == (l != *m), "comparison of the layouts {l:?} and {m:?}");
        if let (Some(x), Some(y)) = (via[0], NonZeroLayout::from_layout(b)) { check!((x == y) == (l == *m) && (x != y) == (l != *m), "comparison of the non-zero layouts {l:?} and {m:?}") }
    }
    let c = a; // Copy
    check!(c == a, "copy of {l:?}");
    ctx.outcome(&(l.size(), l.align()));
}

fn types(ctx: &mut Ctx) {
    use alloc_traits::Layout as AL;
    macro_rules! tys { ($($t:ty),*) => {{
        let fs: &[(&str, fn() -> (AL, Option<NonZeroLayout>, Layout))] = &[$((stringify!($t), || (AL::new::<$t>(), NonZeroLayout::new::<$t>(), Layout::new::<$t>()))),*];
        let (n, f) = fs[ctx.choose(fs.len())];
        (n, f())
    }} }
    #[repr(align(1))] struct U; #[repr(align(16))] struct A16; #[repr(align(4096))] struct A4096; #[repr(align(64))] struct B64(#[allow(dead_code)] u8);
    #[repr(C)] struct Pad(u8, u64, u8); #[repr(packed)] struct Packed(u8, u64, u8);
    enum Void {}
    let _ = (U, A16, A4096, B64(0), Pad(0, 0, 0), Packed(0, 0, 0));
    let (n, (a, nz, l)) = tys!((), u8, u16, u32, u64, u128, usize, f32, char, bool, [u8; 0], [u8; 3], [u64; 0], [u64; 5], [u128; 0], U, A16, A4096, B64, [A16; 4], [A4096; 0], [B64; 3], Pad, Packed, &u8, &[u8], &dyn std::any::Any, Option<&u8>, Option<u32>, Void, [Void; 0], fn(), String, (u8, u16, u32), std::marker::PhantomData<u64>, [u8; 1 << 30], [[u64; 1 << 20]; 1 << 10]);
    ctx.op(|| n.to_string());
    check!(a.size() == l.size() && a.align() == l.align() && Layout::from(a) == l, "Layout::new::<{n}>() is {a:?} instead of {l:?}");
    check!(nz.is_some() == (l.size() > 0), "NonZeroLayout::new::<{n}>() is {nz:?}");
    if let Some(z) = nz { check!(Layout::from(z) == l && z.size().get() == l.size() && z.align() == l.align(), "NonZeroLayout::new::<{n}>() is {z:?}") }
    ctx.outcome(&n);
}

fn allocation_values(ctx: &mut Ctx) {
    // Copy, comparison of allocations: equal exactly if pointer and layout are
    let ps = [0x10usize, 0x20, usize::MAX];
    let ls = [(1usize, 1usize), (1, 2), (2, 1), (16, 16)];
    let mk = |c: &mut Ctx| { let p = c.pick(&ps); let l = c.pick(&ls); (Allocation { ptr: NonNull::new(p as *mut u8).unwrap(), layout: lay(l.0, l.1), lifetime: AllocTime::default() }, (p, l)) };
    let ((a, ka), (b, kb)) = (mk(ctx), mk(ctx));
    ctx.op(|| format!("compare {ka:?} {kb:?}"));
    check!((a == b) == (ka == kb) && (a != b) == (ka != kb), "comparison of allocations");
    let c = a;
    check!(c == a && AllocTime::default() == a.lifetime && a.lifetime.cmp(&b.lifetime).is_eq(), "copy of an allocation");
    check!(!format!("{a:?} {:?}", a.lifetime).is_empty(), "debug");
    ctx.outcome(&(ka, kb));
}

const L_FEW: &[(usize, usize)] = &[(1, 1), (5, 1), (8, 8), (24, 4)];
const L_SOME: &[(usize, usize)] = &[(1, 1), (3, 1), (8, 8), (12, 4), (24, 8), (64, 64), (1, 16)];
const L_MANY: &[(usize, usize)] = &[(1, 1), (2, 1), (3, 1), (4, 4), (5, 1), (7, 1), (8, 8), (9, 1), (12, 4), (16, 16), (17, 1), (24, 8), (31, 1), (32, 32), (33, 1), (40, 8), (63, 1), (64, 64), (100, 2), (128, 128), (1, 16), (1, 64), (1000, 8), (1023, 1), (2048, 2), (4095, 1), (4096, 1), (512, 1024)];
const B_FEW: &[Beh] = &[Beh::Exact, Beh::Fail, Beh::Larger(7)];
const B_ALL: &[Beh] = &[Beh::Exact, Beh::Fail, Beh::Larger(1), Beh::Larger(100), Beh::Double, Beh::Aligned, Beh::LargerAligned];

fn add<M: Mock>(v: &mut Vec<Scenario>, q: bool) {
    for (vn, via) in [("method", Via::Method), ("trait object", Via::Dyn), ("function", Via::Function)] {
        for reuse in [false, true] {
            let n = format!("{}, by {vn}, memory {}reused", M::NAME, if reuse { "" } else { "not " });
            let mut put = |kind: &str, depth: u32, al: Al| v.push(Scenario::new(format!("{n}: {kind}"), depth, move |c| seqs::<M>(c, al.clone())));
            put("all pairs of layouts", 2, Al { layouts: L_MANY, behs: B_ALL, max: 2, prune: false, reuse, via });
            put("all sequences", 3, Al { layouts: if q { L_FEW } else { L_SOME }, behs: if q { B_FEW } else { B_ALL }, max: 3, prune: false, reuse, via });
            put("all longer sequences", 4, Al { layouts: if q { &L_FEW[1..3] } else { L_FEW }, behs: B_FEW, max: 3, prune: false, reuse, via });
            put("pruned", if q { 6 } else { 8 }, Al { layouts: if q { L_FEW } else { L_SOME }, behs: if q { B_FEW } else { B_ALL }, max: 3, prune: true, reuse, via });
        }
    }
}

/// One block of every size of a list, grown or shrunk to every other one, then once more.
fn sweep<M: Mock>(ctx: &mut Ctx, sizes: &[usize], aligns: &[usize], via: Via) {
    let boxed = Box::new(M::make());
    let m: &'static M = unsafe { &*(&*boxed as *const M) };
    let st = m.st();
    st.reuse.set(ctx.flag());
    let mut cur: Option<Live> = None;
    let mut tag = 1u8;
    let dynamic: &'static dyn LocalAlloc<'static> = m;
    for step in 0..ctx.depth {
        let (s, al) = (ctx.pick(sizes), ctx.pick(aligns));
        let beh = ctx.pick(&[Beh::Exact, Beh::Larger(3), Beh::Aligned]);
        st.beh.set(Some(beh));
        let l = lay(s, al);
        let (r, what) = match &cur {
            None => {
                let what = format!("alloc_zeroed of {s} bytes align {al} ({beh:?})");
                ctx.op(|| what.clone());
                (nopanic("alloc_zeroed", || match via { Via::Method => m.alloc_zeroed(l), Via::Dyn => dynamic.alloc_zeroed(l), Via::Function => defaults::local::alloc_zeroed(m, l) }), what)
            }
            Some(o) => {
                let oa = o.a;
                let what = format!("realloc from {} bytes to {s} bytes align {al} ({beh:?})", o.valid);
                ctx.op(|| what.clone());
                (nopanic("realloc", || unsafe { match via { Via::Method => m.realloc(oa, l), Via::Dyn => dynamic.realloc(oa, l), Via::Function => defaults::local::realloc(m, oa, l) } }), what)
            }
        };
        let n = r.unwrap_or_else(|| mcx::fail!("{what}: fails"));
        let (p, nl): (usize, Layout) = (n.ptr.as_ptr() as usize, n.layout.into());
        check!(nl.size() >= s && nl.align() >= al && p % al == 0, "{what}: gives {nl:?} at {p:#x}");
        let live: Vec<_> = st.blocks.borrow().iter().filter(|b| b.live).copied().collect();
        check!(live.len() == 1 && live[0].ptr == p && live[0].lay == nl, "{what}: returns {nl:?} at {p:#x}, the allocator has {live:?}");
        st.audit(&what);
        let bytes = unsafe { std::slice::from_raw_parts_mut(p as *mut u8, nl.size()) };
        match &cur {
            None => check!(bytes.iter().all(|b| *b == 0), "{what}: byte {} is not zero", bytes.iter().position(|b| *b != 0).unwrap()),
            Some(o) => for i in 0..s.min(o.valid) { check!(bytes[i] == content(o.tag, i), "{what}: byte {i} was not kept") },
        }
        for (i, b) in bytes.iter_mut().enumerate() { *b = content(tag, i) }
        cur = Some(Live { a: n, tag, valid: nl.size() });
        tag = tag.wrapping_add(37).max(1);
        ctx.outcome(&(step, nl.size(), nl.align()));
    }
    if let Some(l) = cur { unsafe { m.dealloc(l.a) } }
    check!(!st.blocks.borrow().iter().any(|b| b.live), "blocks are left");
    drop(boxed);
}
/// Content that does not repeat after 256 bytes.
fn content(tag: u8, i: usize) -> u8 { tag ^ (i as u8) ^ ((i >> 8) as u8).wrapping_mul(31) }

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    add::<Plain>(&mut v, q);
    add::<Super>(&mut v, q);
    for via in [Via::Method, Via::Dyn, Via::Function] {
        let few: Vec<usize> = (1..if q { 34 } else { 130 }).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]).collect();
        let (few2, dense) = (few.clone(), (1..if q { 700 } else { 4200 }).collect::<Vec<usize>>());
        let i = via as usize;
        v.push(Scenario::new(format!("every size to every other one ({i})"), 2, move |c| sweep::<Plain>(c, &few, &[1, 8, 64], via)).split(if q { 1 } else { 8 }, 2));
        v.push(Scenario::new(format!("every size to every other one, overridden ({i})"), 2, move |c| sweep::<Super>(c, &few2, &[1, 256], via)).split(if q { 1 } else { 8 }, 2));
        v.push(Scenario::new(format!("zeroed blocks of every size ({i})"), 1, move |c| sweep::<Plain>(c, &dense, &[1, 2, 16, 512], via)));
        let three: Vec<usize> = vec![1, 2, 5, 8, 13, 100, 128, 129, 300, 1024, 2000];
        v.push(Scenario::new(format!("three sizes in a row ({i})"), 3, move |c| sweep::<Plain>(c, &three, &[1, 32], via)));
    }
    for via in [Via::Method, Via::Dyn, Via::Function] {
        let big = vec![3usize, 4464, 32767, 32769, 65535, 65536, 65537, 70000, 131072, 131075];
        let (big2, i) = (big.clone(), via as usize);
        v.push(Scenario::new(format!("sizes of more than 16 bits ({i})"), if q { 2 } else { 3 }, move |c| sweep::<Plain>(c, &big, &[1, 64], via)));
        v.push(Scenario::new(format!("sizes of more than 16 bits, overridden ({i})"), 2, move |c| sweep::<Super>(c, &big2, &[1, 256], via)));
    }
    v.push(Scenario::new("layouts", 1, layouts));
    v.push(Scenario::new("layouts of types", 1, types));
    v.push(Scenario::new("allocations as values", 1, allocation_values));
    v
}

fn main() {
    mcx::main(Meta {
        property: "P20",
        what: "every sequence of alloc, alloc_zeroed, realloc and dealloc on mock allocators that implement the required methods and, at each call, fail, or give exactly the requested block, or a larger or more aligned one, from memory that is or is not reused; called as method, through a trait object, as function, and from overriding methods: layout of the result, zeroes, kept bytes, contents of all other blocks, set of live blocks with the layout each is released with, writes outside of blocks or after release, reads past the end of a block (inaccessible page); all layouts of a list of sizes and alignments including the extremes, compared pairwise",
        bounds: "all sequences of 2 calls over 28 layouts and 7 behaviours, of 3 (and 4) calls over 4 or 2 (7 or 4) layouts and 3 (7) behaviours, pruned sequences of 6 (8) calls; at most 3 live blocks; one block: every size to every other one of 55 (151) sizes up to 4097, zeroed blocks of all sizes below 700 (4200), three sizes in a row, every size to every other one of 10 up to 131075",
        assumptions: &["pruned scenarios: the multiset of live block sizes and alignments determines the future"],
    }, scenarios)
}
