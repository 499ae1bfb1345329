//! P04: Bump as GlobalAlloc and LocalAlloc.
use alloc_traits::{Allocation, LocalAlloc, NonZeroLayout};
use mcx::ctx::{nopanic, Ctx};
use mcx::driver::Meta;
use mcx::mem::Region;
use mcx::{check, fail, Scenario, Tier};
use seq::bumpseq::Ctor;
use seq::vals::*;
use static_alloc::Bump;
use std::alloc::{GlobalAlloc, Layout};

struct Block { addr: usize, layout: Layout, tag: u8 }

struct World<'a, T> { bump: &'a mut Bump<T>, region: Region, blocks: Vec<Block>, next: u8, high: usize, resets: u32, max_live: usize, base: usize, cap: usize, top: usize }

/// The content of a block.
fn byte(tag: u8, i: usize) -> u8 { tag.wrapping_add((i as u8).wrapping_mul(3)).wrapping_add((i >> 8) as u8) }
fn lay(s: usize, a: usize) -> Layout { Layout::from_size_align(s, a).unwrap() }
fn nz(l: Layout) -> NonZeroLayout { NonZeroLayout::from_layout(l.into()).unwrap() }

impl<T> World<'_, T> {
    fn audit(&self, what: &str) {
        check!(self.region.intact(), "{what}: memory outside of the allocator was changed");
        for b in &self.blocks {
            for i in 0..b.layout.size() {
                let v = unsafe { *((b.addr + i) as *const u8) };
                check!(v == byte(b.tag, i), "{what}: byte {i} of live block [{:#x}, +{}) was changed", b.addr, b.layout.size());
            }
        }
    }
    fn accept(&mut self, what: &str, addr: usize, layout: Layout) {
        check!(addr % layout.align() == 0, "{what}: block {addr:#x} is not aligned to {}", layout.align());
        check!(self.region.contains(addr, layout.size()), "{what}: block [{addr:#x}, +{}) is not inside of the allocator [{:#x}, +{})", layout.size(), self.region.addr(), self.region.len());
        for b in &self.blocks {
            check!(addr + layout.size() <= b.addr || b.addr + b.layout.size() <= addr, "{what}: block [{addr:#x}, +{}) overlaps live block [{:#x}, +{})", layout.size(), b.addr, b.layout.size());
        }
        self.top = self.top.max(addr + layout.size());
        self.high = self.high.max(addr + layout.size() - self.region.addr());
        let tag = self.next;
        self.next = if tag >= 250 { 1 } else { tag + 1 };
        for i in 0..layout.size() { unsafe { *((addr + i) as *mut u8) = byte(tag, i) } }
        self.blocks.push(Block { addr, layout, tag });
    }
    fn level(&self) -> usize {
        let l = self.bump.level();
        if std::mem::size_of_val(&l) == 8 { unsafe { std::mem::transmute_copy(&l) } } else { 0 }
    }
    fn state(&self) -> impl std::hash::Hash {
        let mut v: Vec<(usize, usize, usize)> = self.blocks.iter().map(|b| (b.addr - self.region.addr(), b.layout.size(), b.layout.align())).collect();
        v.sort();
        (v, self.level(), self.high, self.top, self.resets.min(1))
    }
    /// Does a request certainly fit behind everything handed out since the last reset?
    fn fits(&self, l: Layout) -> bool {
        let at = mcx::mem::align_up(self.top.max(self.base), l.align());
        at.checked_add(l.size()).is_some_and(|e| e <= self.base + self.cap)
    }
}

#[derive(Clone)]
struct Al { layouts: Vec<(usize, usize)>, sizes: Vec<usize>, relayouts: Vec<(usize, usize)> }

fn checked_local(what: &str, a: Option<Allocation<'_>>, want: Layout) -> Option<(usize, Layout)> {
    a.map(|a| {
        let got: Layout = a.layout.into();
        check!(got.size() >= want.size() && got.align() >= want.align(), "{what}: returned layout {got:?} is less than the requested {want:?}");
        (a.ptr.as_ptr() as usize, got)
    })
}

/// One block of any size, reallocated to any size or replaced by a zeroed one.
fn wide<T: 'static>(ctx: &mut Ctx, sizes: &[usize]) {
    let region = Region::new(64, std::mem::size_of::<Bump<T>>(), 0xFF);
    wide_in::<T>(ctx, region, sizes, &[1, 8, 32], &[1, 16, 64])
}

/// The same with alignments larger than pages.
fn wide_aligned<T: 'static>(ctx: &mut Ctx, sizes: &[usize]) {
    let off = ctx.pick(&[0usize, 8, 8192]);
    let len = std::mem::size_of::<Bump<T>>();
    let p = unsafe { seq::bumpseq::pages(len + off).add(off) };
    wide_in::<T>(ctx, Region::foreign(p, len), sizes, &[1, 4096, 8192, 65536], &[1, 8192, 65536])
}

fn wide_in<T: 'static>(ctx: &mut Ctx, region: Region, sizes: &[usize], aligns: &[usize], realigns: &[usize]) {
    let bump: &'static mut Bump<T> = unsafe { region.place(Bump::uninit()) };
    let cap = std::mem::size_of::<T>();
    let base = nopanic("first allocation", || Bump::alloc(bump, lay(1, 1))).map_or(region.addr(), |p| p.as_ptr() as usize);
    nopanic("reset", || bump.reset());
    let mut w = World { bump, region, blocks: vec![], next: 1, high: 0, resets: 0, max_live: 4, base, cap, top: 0 };
    let (pre, a) = (ctx.pick(&[0usize, 1, 7, 8]), ctx.pick(sizes));
    let align = ctx.pick(aligns);
    if ctx.skipped() { return }
    let old = lay(a, align);
    let op = ctx.choose(6);
    if op < 2 {
        // all of the memory was used before
        let l = lay(cap, 1);
        let Some(p) = nopanic("alloc", || Bump::alloc(w.bump, l)) else { fail!("alloc({cap}) on a fresh allocator failed") };
        unsafe { std::ptr::write_bytes(p.as_ptr(), 0xFF, cap) };
        nopanic("reset", || w.bump.reset());
    }
    if pre > 0 { let l = lay(pre, 1); let Some(p) = nopanic("alloc", || Bump::alloc(w.bump, l)) else { fail!("alloc({pre}) failed") }; w.accept("alloc", p.as_ptr() as usize, l) }
    let what = ["GlobalAlloc::alloc_zeroed", "LocalAlloc::alloc_zeroed", "GlobalAlloc::alloc", "LocalAlloc::alloc", "GlobalAlloc::alloc", "LocalAlloc::alloc"][op];
    ctx.op(|| format!("{what}({a}, {align}) behind {pre} bytes"));
    let p = nopanic(what, || unsafe { match op {
        0 => Some((GlobalAlloc::alloc_zeroed(w.bump, old) as usize, old)).filter(|x| x.0 != 0),
        1 => checked_local(what, LocalAlloc::alloc_zeroed(&*w.bump, nz(old)), old),
        2 | 4 => Some((GlobalAlloc::alloc(w.bump, old) as usize, old)).filter(|x| x.0 != 0),
        _ => checked_local(what, LocalAlloc::alloc(&*w.bump, nz(old)), old),
    } });
    let Some((addr, old)) = p else { check!(!w.fits(old), "{what} of {a} bytes failed"); return };
    if op < 2 {
        check!(w.region.contains(addr, old.size()), "{what}: outside of the allocator");
        for i in 0..old.size() { check!(unsafe { *((addr + i) as *const u8) } == 0, "{what}({a}, {align}): byte {i} is not zero") }
        w.accept(what, addr, old);
        w.audit(what);
        ctx.outcome(&(op, pre, a, align, w.level()));
        return;
    }
    w.accept(what, addr, old);
    let b = w.blocks.pop().unwrap();
    let follow = op >= 4;
    if follow { let l = lay(1, 1); if let Some(p) = nopanic("alloc", || Bump::alloc(w.bump, l)) { w.accept("alloc", p.as_ptr() as usize, l) } }
    let to = ctx.pick(sizes);
    let local = ctx.choose(1 + realigns.len());
    let new = lay(to, if local == 0 { old.align() } else { realigns[local - 1] });
    let what = format!("{}::realloc(block of size {}, align {}, to size {to}, align {})", if local == 0 { "GlobalAlloc" } else { "LocalAlloc" }, old.size(), old.align(), new.align());
    ctx.op(|| format!("{what}, block {}", if follow { "followed by another" } else { "the last one" }));
    let p = nopanic(&what, || unsafe {
        if local == 0 { Some((w.bump.realloc_g(b.addr as *mut u8, old, to) as usize, new)).filter(|x| x.0 != 0) }
        else { checked_local(&what, LocalAlloc::realloc(&*w.bump, Allocation { ptr: std::ptr::NonNull::new(b.addr as *mut u8).unwrap(), layout: nz(old), lifetime: Default::default() }, nz(new)), new) }
    });
    match p {
        None => { check!(!w.fits(new), "{what}: reports exhaustion although the request fits"); w.blocks.push(b) }
        Some((addr, got)) => {
            check!(w.region.contains(addr, got.size()), "{what}: block [{addr:#x}, +{}) is not inside of the allocator", got.size());
            for i in 0..old.size().min(to) { let v = unsafe { *((addr + i) as *const u8) }; check!(v == byte(b.tag, i), "{what}: byte {i} was not preserved") }
            w.accept(&what, addr, got);
        }
    }
    // whatever was freed may be handed out again, but nothing else
    let l = lay(a, 1);
    if let Some(p) = nopanic("alloc", || Bump::alloc(w.bump, l)) { w.accept("alloc afterwards", p.as_ptr() as usize, l) }
    w.audit("afterwards");
    ctx.outcome(&(op, local, pre, a, to, w.level()));
}

fn step<T>(ctx: &mut Ctx, w: &mut World<'_, T>, al: &Al) {
    let (nl, ns, nr, nb) = (al.layouts.len(), al.sizes.len(), al.relayouts.len(), w.blocks.len());
    let mut c = ctx.choose(nl * 4 + nb * (ns + nr + 2) + 1);
    if c < nl * 4 {
        let (s, a) = al.layouts[c % nl];
        let l = lay(s, a);
        let form = c / nl;
        let what = ["GlobalAlloc::alloc", "GlobalAlloc::alloc_zeroed", "LocalAlloc::alloc", "LocalAlloc::alloc_zeroed"][form];
        let what = format!("{what}(size {s}, align {a})");
        ctx.op(|| format!("{what} with {nb} live blocks"));
        let p = nopanic(&what, || unsafe {
            match form {
                0 => Some((GlobalAlloc::alloc(w.bump, l) as usize, l)).filter(|x| x.0 != 0),
                1 => Some((GlobalAlloc::alloc_zeroed(w.bump, l) as usize, l)).filter(|x| x.0 != 0),
                2 => checked_local(&what, LocalAlloc::alloc(&*w.bump, nz(l)), l),
                _ => checked_local(&what, LocalAlloc::alloc_zeroed(&*w.bump, nz(l)), l),
            }
        });
        if let Some((addr, got)) = p {
            if form & 1 == 1 && w.region.contains(addr, got.size()) {
                for i in 0..got.size() {
                    let v = unsafe { *((addr + i) as *const u8) };
                    check!(v == 0, "{what}: byte {i} of zeroed memory is {v:#x}");
                }
            }
            w.accept(&what, addr, got);
        } else {
            check!(!w.fits(l), "{what}: reports exhaustion although the request fits into the {} bytes never handed out", w.base + w.cap - w.top.max(w.base));
        }
        return;
    }
    c -= nl * 4;
    if c < nb * (ns + nr) {
        let i = c % nb;
        let k = c / nb;
        let b = w.blocks.remove(i);
        let old = b.layout;
        if k < ns && Layout::from_size_align(al.sizes[k], old.align()).is_err() {
            // No layout has this size.
            let what = format!("GlobalAlloc::realloc(block of size {}, align {}, to size {})", old.size(), old.align(), al.sizes[k]);
            ctx.op(|| format!("{what} with {nb} live blocks"));
            let p = nopanic(&what, || unsafe { w.bump.realloc_g(b.addr as *mut u8, old, al.sizes[k]) });
            check!(p.is_null(), "{what}: returned {p:?} instead of null");
            w.blocks.push(b);
            return;
        }
        let (what, new) = if k < ns {
            (format!("GlobalAlloc::realloc(block of size {}, align {}, to size {})", old.size(), old.align(), al.sizes[k]), match Layout::from_size_align(al.sizes[k], old.align()) { Ok(l) => l, Err(_) => { w.blocks.push(b); return } })
        } else {
            let (s, a) = al.relayouts[k - ns];
            (format!("LocalAlloc::realloc(block of size {}, align {}, to size {s}, align {a})", old.size(), old.align()), lay(s, a))
        };
        ctx.op(|| format!("{what} with {nb} live blocks"));
        // Some(addr) or failure
        let p = nopanic(&what, || unsafe {
            if k < ns {
                Some((w.bump.realloc_g(b.addr as *mut u8, old, new.size()) as usize, new)).filter(|x| x.0 != 0)
            } else {
                let x = Allocation { ptr: std::ptr::NonNull::new(b.addr as *mut u8).unwrap(), layout: nz(old), lifetime: Default::default() };
                checked_local(&what, LocalAlloc::realloc(&*w.bump, x, nz(new)), new)
            }
        });
        match p {
            None => {
                check!(!w.fits(new), "{what}: reports exhaustion although the request fits into the {} bytes never handed out", w.base + w.cap - w.top.max(w.base));
                w.blocks.push(b)
            }
            Some((addr, got)) => {
                check!(w.region.contains(addr, got.size()), "{what}: block [{addr:#x}, +{}) is not inside of the allocator", got.size());
                for i in 0..old.size().min(new.size()) {
                    let v = unsafe { *((addr + i) as *const u8) };
                    check!(v == byte(b.tag, i), "{what}: byte {i} was not preserved");
                }
                w.accept(&what, addr, got);
            }
        }
        return;
    }
    c -= nb * (ns + nr);
    if c < nb * 2 {
        let b = w.blocks.remove(c % nb);
        let local = c / nb == 1;
        let what = format!("{}::dealloc(block of size {}, align {})", if local { "LocalAlloc" } else { "GlobalAlloc" }, b.layout.size(), b.layout.align());
        ctx.op(|| format!("{what} with {nb} live blocks"));
        nopanic(&what, || unsafe {
            if local {
                LocalAlloc::dealloc(&*w.bump, Allocation { ptr: std::ptr::NonNull::new(b.addr as *mut u8).unwrap(), layout: nz(b.layout), lifetime: Default::default() })
            } else {
                GlobalAlloc::dealloc(w.bump, b.addr as *mut u8, b.layout)
            }
        });
        return;
    }
    ctx.op(|| "reset".into());
    nopanic("reset", || w.bump.reset());
    w.blocks.clear();
    w.top = 0;
    w.resets += 1;
}

trait G { unsafe fn realloc_g(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8; }
impl<T> G for Bump<T> { unsafe fn realloc_g(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { GlobalAlloc::realloc(self, p, l, n) } }

fn body<T: 'static>(ctx: &mut Ctx, offset: usize, ctor: Ctor, al: &Al, prune: bool, max_live: usize) {
    let region = Region::new(offset, std::mem::size_of::<Bump<T>>(), 0xFF);
    // Where is the storage inside of the type?
    let base = {
        let probe: &'static mut Bump<T> = unsafe { region.place(Bump::uninit()) };
        nopanic("first allocation", || Bump::alloc(probe, lay(1, 1))).map_or(region.addr(), |p| p.as_ptr() as usize)
    };
    let bump: &'static mut Bump<T> = unsafe {
        match ctor {
            Ctor::Zeroed => region.place(Bump::zeroed()),
            _ => region.place(Bump::uninit()),
        }
    };
    let mut w = World { bump, region, blocks: vec![], next: 1, high: 0, resets: 0, max_live, base, cap: std::mem::size_of::<T>(), top: 0 };
    for i in 0..ctx.depth {
        if prune { if !ctx.visit(&w.state(), ctx.depth - i) { return } } else { ctx.note(&w.state()); if ctx.skipped() { return } }
        step(ctx, &mut w, al);
        w.audit("after the call");
        if w.blocks.len() > w.max_live { fail!("HARNESS: too many blocks") }
    }
    ctx.outcome(&w.state());
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    let max = isize::MAX as usize;
    macro_rules! ty { ($($t:ty),*) => { $( {
        let cap = std::mem::size_of::<$t>();
        let st = std::mem::align_of::<Bump<$t>>();
        let mut sizes: Vec<usize> = vec![1, 2, 3, 5, 8, cap / 2, cap.saturating_sub(1), cap, cap + 1];
        sizes.retain(|s| *s > 0); sizes.sort(); sizes.dedup();
        let wide = Al {
            layouts: sizes.iter().flat_map(|s| [1, 4, 16, 64].map(|a| (*s, a))).chain([(1, 4096), (max - 63, 64), (max, 1)]).collect(),
            sizes: sizes.iter().copied().chain([max - 4095, max - 63, max, max + 1, usize::MAX - 7, usize::MAX]).collect(),
            relayouts: sizes.iter().flat_map(|s| [1, 8, 32].map(|a| (*s, a))).chain([(max - 63, 64)]).collect(),
        };
        let small = Al { layouts: vec![(1, 1), (4, 4), (3, 2), (cap.max(1), 1)], sizes: vec![1, 5, 8], relayouts: vec![(2, 1), (4, 8), (9, 1)] };
        let tiny = Al { layouts: vec![(1, 1), (4, 4)], sizes: vec![1, 5], relayouts: vec![(4, 8)] };
        let offs: Vec<usize> = if q { vec![0, st] } else { (0..(64 / st).max(2)).map(|i| i * st).collect() };
        for off in offs {
            for ctor in [Ctor::Uninit, Ctor::Zeroed] {
                if q && off != 0 && ctor == Ctor::Zeroed { continue }
                let d = if q { if off == 0 && cap <= 24 { 4 } else { 3 } } else { 5 };
                let al = wide.clone();
                v.push(Scenario::new(format!("{}+{off} {ctor:?} wide", stringify!($t)), d, move |c| body::<$t>(c, off, ctor, &al, true, 64)));
                let d = if q { 6 } else { 8 };
                let al = small.clone();
                v.push(Scenario::new(format!("{}+{off} {ctor:?} small, pruned", stringify!($t)), d, move |c| body::<$t>(c, off, ctor, &al, true, 64)));
                let d = if q { 5 } else { 6 };
                let al = tiny.clone();
                v.push(Scenario::new(format!("{}+{off} {ctor:?} tiny, every sequence", stringify!($t)), d, move |c| body::<$t>(c, off, ctor, &al, false, 64)));
            }
        }
    } )* } }
    ty!([u8; 0], [u8; 1], [u8; 7], [u64; 2], [u8; 24], [u64; 4], B32A32, B64A64);
    if !q { ty!([u8; 2], [u8; 12], [u16; 9], [u64; 8], B128A128, B32A16); }
    let sizes: Vec<usize> = if q { (1..=24).chain([31, 32, 33, 40, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]).collect() } else { (1..=140).chain([191, 192, 193, 255, 256, 257, 300, 511, 512, 513, 600]).collect() };
    v.push(Scenario::new("two blocks of any size in [u8; 700]", 2, { let s = sizes.clone(); move |c| wide::<[u8; 700]>(c, &s) }).split(if q { 4 } else { 16 }, 3));
    v.push(Scenario::new("two blocks of any size in [B32A32; 20]", 2, { let s = sizes.clone(); move |c| wide::<[B32A32; 20]>(c, &s) }).split(if q { 4 } else { 16 }, 3));
    v.push(Scenario::new("two blocks of any size in [u64; 3000]", 2, move |c| wide::<[u64; 3000]>(c, &[1, 2, 100, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 10000, 23999, 24000])).split(2, 3));
    v.push(Scenario::new("two blocks of any size in [u64; 40000]", 2, move |c| wide::<[u64; 40000]>(c, &[1, 255, 256, 257, 65535, 65536, 65537, 70000, 131072, 140000, 200000, 319999, 320000])).split(2, 3));
    v.push(Scenario::new("two blocks of large alignments in [u64; 40000]", 2, move |c| wide_aligned::<[u64; 40000]>(c, &[1, 257, 8192, 65536, 65537, 140000, 300000])).split(2, 3));
    v
}

fn main() {
    mcx::main(Meta {
        property: "P04",
        what: "every sequence of GlobalAlloc/LocalAlloc alloc, alloc_zeroed, realloc, dealloc (interfaces mixed freely) and reset on the real Bump placed in guarded memory; every live block is filled with its own byte and checked after each call for alignment, bounds, overlap, preserved prefix, zero content",
        bounds: "single blocks of sizes 1..300 (600) and around powers of two to 320000, alignments up to 65536, reallocated to all these sizes, to sizes without a layout, or zeroed; sequences: 8-14 storage types, sizes around every boundary plus impossible ones, alignments 1..64 and 4096; wide alphabet to depth 3 (4), small alphabet to depth 5 (7), both pruned by (live blocks, level, high-water mark, was reset); tiny alphabet unpruned to depth 4 (6)",
        assumptions: &["blocks passed to realloc/dealloc are live and given with the layout they were last obtained with, as the traits require"],
    }, scenarios)
}
