//! P05: ownership of values placed in bump allocators.
use mcx::ctx::{catch, nopanic, Ctx};
use mcx::driver::Meta;
use mcx::ledger::{self, *};
use mcx::mem::Region;
use mcx::{check, fail, Scenario, Tier};
use static_alloc::bump::{Failure, Level};
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::{self, MemBump};
use static_alloc::Bump;
use std::mem::{ManuallyDrop, MaybeUninit};
use std::pin::Pin;

/// Object-safe view for boxes that were unsized.
trait DynId { fn did(&self) -> u32; fn daddr(&self) -> usize; }
impl<V: Identity> DynId for V {
    fn did(&self) -> u32 { self.id() }
    fn daddr(&self) -> usize { self as *const V as usize }
}

enum H<V: Identity> {
    Box(LeakBox<'static, V>),
    Uninit(LeakBox<'static, MaybeUninit<V>>),
    UninitSlice(LeakBox<'static, [MaybeUninit<V>]>),
    Raw(*mut V),
    Leaked(&'static mut V),
    Pinned(Pin<LeakBox<'static, V>>),
    Dyn(LeakBox<'static, dyn DynId>),
    Slice(LeakBox<'static, [V]>),
    LeakedSlice(&'static mut [V]),
    Taken(V),
}

struct Entry<V: Identity> { h: H<V>, ids: Vec<u32>, addr: usize }

#[derive(Clone, Copy)]
enum Src { Sync(*mut Bump<[u64; 7]>), SyncBig(*mut Bump<[u64; 20000]>), SyncTok(*mut Bump<[Tok; 4]>), Unsync(*mut unsync::Bump<[u64; 7]>), Mem(*mut MemBump) }

struct World<V: Identity> {
    src: Src,
    ents: Vec<Entry<V>>,
    drops: Vec<u32>,
    zdrops: usize,
    region: Region,
    outside: Box<[MaybeUninit<V>; 2]>,
    outside_used: usize,
    level0: Option<Level>,
    resets: usize,
}

/// The common call forms of the allocators that take a value.
fn place<V: Identity>(src: Src, form: usize, v: V, stale: Option<Level>) -> Result<H<V>, (Option<V>, Option<Failure>)> {
    macro_rules! sync { ($b:expr) => { {
        let b = unsafe { &*$b };
        match form {
            0 => b.leak(v).map(H::Leaked).map_err(|e| { let k = e.kind(); (Some(e.into_inner()), Some(k)) }),
            1 => b.leak_at(v, stale.unwrap_or_else(|| b.level())).map(|x| H::Leaked(x.0)).map_err(|e| { let k = e.kind(); (Some(e.into_inner()), Some(k)) }),
            2 => b.leak_box(v).map(H::Box).ok_or((None, None)),
            3 => b.leak_box_at(v, stale.unwrap_or_else(|| b.level())).map(H::Box).map_err(|k| (None, Some(k))),
            4 => match b.get::<V>() { Some(a) => Ok(H::Leaked(unsafe { a.leak(v) })), None => Err((Some(v), None)) },
            5 => match b.get::<V>() { Some(a) => Ok(H::Box(unsafe { a.boxed(v) })), None => Err((Some(v), None)) },
            6 => match b.get::<V>() { Some(a) => Ok(H::Leaked(unsafe { a.uninit() }.write(v))), None => Err((Some(v), None)) },
            7 => match b.leak_box(MaybeUninit::<V>::uninit()) { Some(u) => Ok(H::Box(LeakBox::write(u, v))), None => Err((Some(v), None)) },
            // the error itself is dropped
            _ => match b.leak(v) { Ok(r) => Ok(H::Leaked(r)), Err(e) => { let k = e.kind(); drop(e); Err((None, Some(k))) } },
        }
    } } }
    macro_rules! unsync { ($b:expr) => { {
        let b: &'static MemBump = unsafe { &*$b };
        match form {
            4 | 0 => match b.get::<V>() { Some(a) => Ok(H::Leaked(unsafe { a.leak(v) })), None => Err((Some(v), None)) },
            1 => match b.get_at::<V>(stale.unwrap_or_else(|| b.level())) { Ok(a) => Ok(H::Leaked(unsafe { a.leak(v) })), Err(k) => Err((Some(v), Some(k))) },
            5 | 2 => match b.get::<V>() { Some(a) => Ok(H::Box(unsafe { a.boxed(v) })), None => Err((Some(v), None)) },
            3 => match b.get_at::<V>(stale.unwrap_or_else(|| b.level())) { Ok(a) => Ok(H::Box(unsafe { a.boxed(v) })), Err(k) => Err((Some(v), Some(k))) },
            6 => match b.get::<V>() { Some(a) => Ok(H::Leaked(unsafe { a.uninit() }.write(v))), None => Err((Some(v), None)) },
            _ => match b.bump_box::<V>() { Ok(u) => Ok(H::Box(LeakBox::write(u, v))), Err(k) => Err((Some(v), Some(k))) },
        }
    } } }
    match src {
        Src::Sync(b) => sync!(b),
        Src::SyncBig(b) => sync!(b),
        Src::SyncTok(b) => sync!(b),
        Src::Unsync(b) => unsync!((unsafe { &**b }) as *const MemBump),
        Src::Mem(b) => unsync!(b as *const MemBump),
    }
}
const FORMS: usize = 9;

fn uninit_box<V: Identity>(src: Src) -> Option<LeakBox<'static, MaybeUninit<V>>> {
    unsafe {
        match src {
            Src::Sync(b) => (*b).leak_box(MaybeUninit::uninit()),
            Src::SyncBig(b) => (*b).leak_box(MaybeUninit::uninit()),
            Src::SyncTok(b) => (*b).leak_box(MaybeUninit::uninit()),
            Src::Unsync(b) => (*b).bump_box().ok(),
            Src::Mem(b) => (*b).bump_box().ok(),
        }
    }
}
fn uninit_slice<V: Identity>(src: Src, n: usize) -> Option<LeakBox<'static, [MaybeUninit<V>]>> {
    unsafe {
        match src {
            Src::Unsync(b) => (*b).bump_array(n).ok(),
            Src::Mem(b) => (*b).bump_array(n).ok(),
            _ => None,
        }
    }
}
fn level(src: Src) -> Level {
    unsafe {
        match src {
            Src::Sync(b) => (*b).level(),
            Src::SyncBig(b) => (*b).level(),
            Src::SyncTok(b) => (*b).level(),
            Src::Unsync(b) => (*b).level(),
            Src::Mem(b) => (*b).level(),
        }
    }
}
fn reset(src: Src) {
    unsafe {
        match src {
            Src::Sync(b) => (*b).reset(),
            Src::SyncBig(b) => (*b).reset(),
            Src::SyncTok(b) => (*b).reset(),
            Src::Unsync(b) => (*b).reset(),
            Src::Mem(b) => (*b).reset(),
        }
    }
}

impl<V: Identity> World<V> {
    fn dropped(&mut self, ids: &[u32]) { if V::ZST { self.zdrops += ids.len() } else { self.drops.extend(ids) } }
    fn audit(&self, what: &str) {
        if V::ZST {
            let d = ledger::with(|l| l.zst_dropped);
            check!(d == self.zdrops, "{what}: {d} values were dropped so far, expected {}", self.zdrops);
        } else {
            let d = ledger::drop_ids();
            check!(d == self.drops, "{what}: values dropped so far {d:?}, expected {:?}", self.drops);
        }
        check!(self.region.intact(), "{what}: memory outside of the allocator was changed");
        for e in &self.ents {
            let want = |i: usize| e.ids[i];
            let one = |v: &V| {
                check!(v.id() == want(0), "{what}: handle shows value {} instead of {}", v.id(), want(0));
                check!(v as *const V as usize == e.addr || e.addr == 0, "{what}: value moved from {:#x} to {:p}", e.addr, v);
            };
            match &e.h {
                H::Box(b) => one(b),
                H::Raw(p) => one(unsafe { &**p }),
                H::Leaked(r) => one(r),
                H::Pinned(p) => one(p),
                H::Taken(v) => one(v),
                H::Dyn(d) => {
                    check!(d.did() == want(0), "{what}: handle shows value {} instead of {}", d.did(), want(0));
                    check!(d.daddr() == e.addr, "{what}: value moved");
                }
                H::Slice(s) => slice_ok(what, s, e),
                H::LeakedSlice(s) => slice_ok(what, s, e),
                H::Uninit(u) => check!(u.as_ptr() as usize == e.addr, "{what}: uninitialised box moved"),
                H::UninitSlice(u) => check!(u.as_ptr() as usize == e.addr && u.len() == e.ids.len(), "{what}: uninitialised slice changed"),
            }
        }
    }
    fn state(&self) -> impl std::hash::Hash {
        let base = self.region.addr();
        let v: Vec<(u8, usize, usize)> = self.ents.iter().map(|e| {
            let k = match e.h { H::Box(_) => 0, H::Uninit(_) => 1, H::UninitSlice(_) => 2, H::Raw(_) => 3, H::Leaked(_) => 4, H::Pinned(_) => 5, H::Dyn(_) => 6, H::Slice(_) => 7, H::LeakedSlice(_) => 8, H::Taken(_) => 9 };
            (k, if e.addr == 0 || self.region.contains(e.addr, 0) { e.addr.wrapping_sub(base) } else { 1 << 40 }, e.ids.len())
        }).collect();
        let l = level(self.src);
        let l: usize = if std::mem::size_of_val(&l) == 8 { unsafe { std::mem::transmute_copy(&l) } } else { 0 };
        (v, l, self.outside_used, self.level0.is_some(), self.resets.min(1))
    }
    fn in_region(&self, what: &str, addr: usize, n: usize) {
        let size = n * std::mem::size_of::<V>();
        check!(addr % std::mem::align_of::<V>() == 0, "{what}: value at misaligned address {addr:#x}");
        check!(size == 0 || self.region.contains(addr, size), "{what}: value at {addr:#x} outside of the allocator");
    }
}
fn slice_ok<V: Identity>(what: &str, s: &[V], e: &Entry<V>) {
    check!(s.len() == e.ids.len(), "{what}: slice has {} elements instead of {}", s.len(), e.ids.len());
    check!(s.as_ptr() as usize == e.addr, "{what}: slice moved");
    for (i, v) in s.iter().enumerate() { check!(v.id() == e.ids[i], "{what}: element {i} is value {} instead of {}", v.id(), e.ids[i]) }
}

fn addr_of<V: Identity>(h: &H<V>) -> usize {
    match h {
        H::Box(b) => &**b as *const V as usize,
        H::Raw(p) => *p as usize,
        H::Leaked(r) => &**r as *const V as usize,
        _ => unreachable!(),
    }
}

fn step<V: Identity>(ctx: &mut Ctx, w: &mut World<V>, bombs: bool) {
    let n = w.ents.len();
    // 0..FORMS place; then: place at a stale level (1, 3); uninit box; uninit slice(2); outside box; remember level; reset; per entry 6 operations
    let c = ctx.choose(FORMS + 2 + 5 + n * 6);
    if c < FORMS + 2 {
        let (form, stale) = match c { c if c < FORMS => (c, None), c if c == FORMS => (1, w.level0), _ => (3, w.level0) };
        if c >= FORMS && stale.is_none() { return }
        let v = V::make();
        let id = v.id();
        let what = format!("placing value {id} with form {form}{}", if stale.is_some() { " at a remembered level" } else { "" });
        ctx.op(|| what.clone());
        match nopanic(&what, || place(w.src, form, v, stale)) {
            Ok(h) => {
                let addr = addr_of(&h);
                w.in_region(&what, addr, 1);
                w.ents.push(Entry { h, ids: vec![id], addr });
            }
            Err((back, kind)) => {
                if let Some(k) = kind { if stale.is_none() { check!(k == Failure::Exhausted, "{what}: failed with {k:?}") } }
                match back {
                    Some(v) => {
                        check!(v.id() == id, "{what}: error holds value {} instead of {id}", v.id());
                        w.audit(&what);
                        drop(v);
                        w.dropped(&[id]);
                    }
                    None => w.dropped(&[id]),
                }
            }
        }
        return;
    }
    let c = c - FORMS - 2;
    match c {
        0 => {
            ctx.op(|| "uninitialised box".into());
            if let Some(b) = nopanic("uninitialised box", || uninit_box::<V>(w.src)) {
                let addr = b.as_ptr() as usize;
                w.in_region("uninitialised box", addr, 1);
                w.ents.push(Entry { h: H::Uninit(b), ids: vec![], addr });
            }
        }
        1 => {
            ctx.op(|| "uninitialised slice of 2".into());
            if let Some(b) = nopanic("uninitialised slice", || uninit_slice::<V>(w.src, 2)) {
                let addr = b.as_ptr() as usize;
                w.in_region("uninitialised slice", addr, 2);
                check!(b.len() == 2, "slice of {} elements", b.len());
                w.ents.push(Entry { h: H::UninitSlice(b), ids: vec![0, 0], addr });
            }
        }
        2 => {
            if w.outside_used >= 2 { return }
            let p: *mut MaybeUninit<V> = &mut w.outside[w.outside_used];
            w.outside_used += 1;
            ctx.op(|| "box around a MaybeUninit, or around an owned value".into());
            if ctx.flag() {
                let b = LeakBox::from(unsafe { &mut *p });
                w.ents.push(Entry { h: H::Uninit(b), ids: vec![], addr: p as usize });
            } else {
                let v = V::make();
                let id = v.id();
                let md: &'static mut ManuallyDrop<V> = unsafe { &mut *(p as *mut ManuallyDrop<V>) };
                unsafe { std::ptr::write(md, ManuallyDrop::new(v)) };
                let b = unsafe { LeakBox::from_mut_unchecked(&mut **md) };
                w.ents.push(Entry { h: H::Box(b), ids: vec![id], addr: p as usize });
            }
        }
        3 => { ctx.op(|| "remember level".into()); w.level0 = Some(level(w.src)); }
        4 => {
            // Everything still in the allocator is forgotten, values moved out stay.
            ctx.op(|| "forget all handles, reset".into());
            let ents = std::mem::take(&mut w.ents);
            for e in ents {
                match e.h { H::Taken(_) => w.ents.push(e), h => std::mem::forget(h) }
            }
            w.level0 = None;
            w.outside_used = 2;
            w.resets += 1;
            nopanic("reset", || reset(w.src));
        }
        c => {
            let c = c - 5;
            let (i, k) = (c / 6, c % 6);
            entry_op(ctx, w, i, k, bombs);
        }
    }
}

fn do_drop<V: Identity>(ctx: &mut Ctx, w: &mut World<V>, what: &str, ids: &[u32], bombs: bool, f: impl FnOnce()) {
    let bomb = if bombs && !ids.is_empty() && !V::ZST { let b = ctx.choose(ids.len() + 1); if b == 0 { None } else { Some(ids[b - 1]) } } else { None };
    ledger::set_bomb(bomb);
    let r = catch(f);
    ledger::set_bomb(None);
    check!(r.is_err() == bomb.is_some(), "{what}: {}", if bomb.is_some() { "the destructor's panic was swallowed or the destructor not run" } else { "unexpected panic" });
    w.dropped(ids);
}

fn entry_op<V: Identity>(ctx: &mut Ctx, w: &mut World<V>, i: usize, k: usize, bombs: bool) {
    let e = w.ents.remove(i);
    let Entry { h, ids, addr } = e;
    macro_rules! put { ($h:expr) => { w.ents.insert(i, Entry { h: $h, ids: ids.clone(), addr }) } }
    match (h, k) {
        (H::Box(b), 0) => { ctx.op(|| format!("drop box of {ids:?}")); do_drop(ctx, w, "dropping a box", &ids, bombs, || drop(b)); }
        (H::Box(b), 1) => { ctx.op(|| format!("into_raw of {ids:?}")); put!(H::Raw(LeakBox::into_raw(b))); }
        (H::Box(b), 2) => { ctx.op(|| format!("leak of {ids:?}")); put!(H::Leaked(LeakBox::leak(b))); }
        (H::Box(b), 3) => {
            ctx.op(|| format!("take of {ids:?}"));
            let v = LeakBox::take(b);
            w.ents.insert(i, Entry { h: H::Taken(v), ids, addr: 0 });
        }
        (H::Box(b), 4) => { ctx.op(|| format!("into_pin of {ids:?}")); put!(H::Pinned(LeakBox::into_pin(b))); }
        (H::Box(b), 5) => {
            ctx.op(|| format!("unsize {ids:?}"));
            let p: *mut V = LeakBox::into_raw(b);
            let p: *mut dyn DynId = p;
            put!(H::Dyn(unsafe { LeakBox::from_raw(p) }));
        }
        (H::Raw(p), 0) => { ctx.op(|| format!("from_raw of {ids:?}")); put!(H::Box(unsafe { LeakBox::from_raw(p) })); }
        (H::Pinned(p), 0) => { ctx.op(|| format!("drop pinned box of {ids:?}")); do_drop(ctx, w, "dropping a pinned box", &ids, bombs, || drop(p)); }
        (H::Pinned(p), 1) => { ctx.op(|| format!("forget pinned box of {ids:?}")); std::mem::forget(p); put!(H::Raw(addr as *mut V)); }
        (H::Dyn(d), 0) => { ctx.op(|| format!("drop unsized box of {ids:?}")); do_drop(ctx, w, "dropping an unsized box", &ids, bombs, || drop(d)); }
        (H::Dyn(d), 1) => { ctx.op(|| format!("into_raw of unsized box of {ids:?}")); put!(H::Raw(LeakBox::into_raw(d) as *mut V)); }
        (H::Uninit(u), 0) => {
            let v = V::make();
            let id = v.id();
            ctx.op(|| format!("write value {id} into an uninitialised box"));
            let b = nopanic("LeakBox::write", || LeakBox::write(u, v));
            w.ents.insert(i, Entry { h: H::Box(b), ids: vec![id], addr });
        }
        (H::Uninit(mut u), 1) => {
            let v = V::make();
            let id = v.id();
            ctx.op(|| format!("initialise box in place with {id}, assume_init"));
            (*u).write(v);
            let b = unsafe { LeakBox::assume_init(u) };
            w.ents.insert(i, Entry { h: H::Box(b), ids: vec![id], addr });
        }
        (H::Uninit(u), 2) => { ctx.op(|| "drop an uninitialised box".into()); nopanic("drop", || drop(u)); }
        (H::UninitSlice(mut u), 0) => {
            ctx.op(|| "initialise slice".into());
            let mut ids = vec![];
            for x in u.iter_mut() { let v = V::make(); ids.push(v.id()); x.write(v); }
            let p = LeakBox::into_raw(u) as *mut [V];
            w.ents.insert(i, Entry { h: H::Slice(unsafe { LeakBox::from_raw(p) }), ids, addr });
        }
        (H::UninitSlice(u), 1) => { ctx.op(|| "drop an uninitialised slice".into()); nopanic("drop", || drop(u)); }
        (H::Slice(s), 0) => { ctx.op(|| format!("drop slice box of {ids:?}")); do_drop(ctx, w, "dropping a slice box", &ids, bombs, || drop(s)); }
        (H::Slice(s), 1) => { ctx.op(|| format!("leak slice of {ids:?}")); put!(H::LeakedSlice(LeakBox::leak(s))); }
        (H::Taken(v), 0) => { ctx.op(|| format!("drop taken value {ids:?}")); do_drop(ctx, w, "dropping a value", &ids, false, || drop(v)); }
        // nothing to do for this kind of handle
        (h, _) => put!(h),
    }
}

fn body<V: Identity>(ctx: &mut Ctx, kind: usize, prune: bool, bombs: bool) {
    let region = match kind {
        0 => Region::new(0, std::mem::size_of::<Bump<[u64; 7]>>(), 0xFF),
        1 => Region::new(0, std::mem::size_of::<Bump<[Tok; 4]>>(), 0xFF),
        2 => Region::new(0, std::mem::size_of::<unsync::Bump<[u64; 7]>>(), 0xFF),
        4 => Region::new(0, std::mem::size_of::<Bump<[u64; 20000]>>(), 0xFF),
        5 => Region::new(3, 160000, 0xFF),
        _ => Region::new(3, 70, 0xFF),
    };
    let mut memlife = None;
    let src = unsafe {
        match kind {
            0 => Src::Sync(region.place(Bump::uninit())),
            1 => Src::SyncTok(region.place(Bump::uninit())),
            4 => Src::SyncBig(region.place(Bump::uninit())),
            2 => Src::Unsync(region.place(unsync::Bump::uninit())),
            _ => {
                let b = memlife.insert(MemBump::from_mem(region.slice()).unwrap());
                Src::Mem(&mut **b)
            }
        }
    };
    let mut w = World::<V> { src, ents: vec![], drops: vec![], zdrops: 0, region, outside: Box::new([const { MaybeUninit::uninit() }; 2]), outside_used: 0, level0: None, resets: 0 };
    for i in 0..ctx.depth {
        if prune { if !ctx.visit(&w.state(), ctx.depth - i) { return end(w, memlife) } } else { ctx.note(&w.state()); if ctx.skipped() { return end(w, memlife) } }
        step(ctx, &mut w, bombs);
        w.audit("after the call");
    }
    ctx.outcome(&(w.state(), &w.drops, w.zdrops));
    end(w, memlife)
}

/// The allocator goes out of scope while every kind of handle may have been forgotten or leaked.
fn end<V: Identity>(mut w: World<V>, memlife: Option<LeakBox<'static, MemBump>>) {
    let ents = std::mem::take(&mut w.ents);
    for e in ents {
        match e.h { H::Taken(_) => { w.ents.push(e) } h => std::mem::forget(h) }
    }
    nopanic("drop of the allocator", || unsafe {
        match w.src {
            Src::Sync(b) => std::ptr::drop_in_place(b),
            Src::SyncBig(b) => std::ptr::drop_in_place(b),
            Src::SyncTok(b) => std::ptr::drop_in_place(b),
            Src::Unsync(b) => std::ptr::drop_in_place(b),
            Src::Mem(_) => drop(memlife),
        }
    });
    w.audit("drop of the allocator");
    for e in std::mem::take(&mut w.ents) {
        let ids = e.ids.clone();
        drop(e);
        w.dropped(&ids);
    }
    w.audit("end");
    if w.drops.len() > 1000 { fail!("HARNESS") }
}

/// Boxed slices of many lengths, and many boxes at once.
fn slices<V: Identity>(ctx: &mut Ctx, list: &[usize]) {
    let n = ctx.pick(list);
    let sync = ctx.flag();
    let many = ctx.flag();
    let room = (n + 3) * std::mem::size_of::<V>() + 512;
    let region = Region::new(8, room, 0xFF);
    let mut mem = MemBump::from_mem(unsafe { region.slice() }).unwrap_or_else(|_| fail!("HARNESS: memory"));
    let big: std::boxed::Box<Bump<[u64; 8192]>> = unsafe { std::boxed::Box::new_uninit().assume_init() };
    let big: &'static mut Bump<[u64; 8192]> = std::boxed::Box::leak(big);
    let raw: *mut Bump<[u64; 8192]> = big;
    unsafe { raw.write(Bump::uninit()) };
    struct Free(*mut Bump<[u64; 8192]>);
    impl Drop for Free { fn drop(&mut self) { unsafe { drop(std::boxed::Box::from_raw(self.0)) } } }
    let _free = Free(raw);
    let audit = |what: &str, want: &[u32], zst: usize| {
        let d = ledger::drop_ids();
        check!(d == want, "{what}: values dropped so far {d:?}, expected {want:?}");
        let z = ledger::with(|l| l.zst_dropped);
        check!(z == zst, "{what}: {z} zero-sized values dropped, expected {zst}");
    };
    let bomb_at = |ctx: &mut Ctx, n: usize| -> Option<usize> {
        if V::ZST || n == 0 { return None }
        let mut l: Vec<usize> = if n < 20 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
        l.push(usize::MAX);
        let k = ctx.pick(&l);
        (k < n).then_some(k)
    };
    if many {
        // boxes of single values, dropped in some order
        let order = ctx.choose(4);
        ctx.op(|| format!("{n} boxes in {}, order {order}", if sync { "Bump" } else { "MemBump" }));
        let mut v: Vec<(LeakBox<'_, V>, u32, usize)> = vec![];
        for _ in 0..n {
            let x = V::make();
            let id = x.id();
            let b = if sync { unsafe { &*raw }.leak_box(x) } else { mem.get::<V>().map(|a| unsafe { a.boxed(x) }) };
            let Some(b) = b else { break };
            let at = &*b as *const V as usize;
            v.push((b, id, at));
        }
        let made = ledger::created() + ledger::with(|l| l.zst_made);
        if !sync { check!(v.len() == n, "only {} of {n} values fit", v.len()) }
        let mut want = vec![];
        let mut zst = 0;
        if v.len() < made { if V::ZST { zst += 1 } else { want.push(made as u32 - 1) } }
        audit("placing", &want, zst);
        let mut i = 0;
        let mut kept = vec![];
        while !v.is_empty() {
            for (b, id, at) in v.iter().step_by(1 + v.len() / 40) { check!(b.id() == *id && &**b as *const V as usize == *at, "box shows value {} instead of {id}", b.id()) }
            let k = match order { 0 => 0, 1 => v.len() - 1, 2 => if i % 2 == 0 { 0 } else { v.len() - 1 }, _ => v.len() / 2 };
            let (b, id, _) = v.remove(k);
            if i % 5 == 4 {
                let x = LeakBox::take(b);
                check!(x.id() == id, "take gives another value");
                kept.push((x, id));
            } else if i % 7 == 6 { LeakBox::leak(b); }
            else { drop(b); if V::ZST { zst += 1 } else { want.push(id) } }
            i += 1;
            audit("dropping a box", &want, zst);
        }
        for (x, id) in kept { drop(x); if V::ZST { zst += 1 } else { want.push(id) } }
        audit("dropping the taken values", &want, zst);
        ctx.outcome(&(n, order, sync, want.len(), zst));
        return;
    }
    let how = ctx.choose(4);
    ctx.op(|| format!("slice of {n}{}, {}", if sync { " (whole array)" } else { "" }, ["drop", "leak", "into_raw, from_raw, drop", "forget"][how]));
    let mut u = match mem.bump_array::<V>(n) { Ok(u) => u, Err(e) => fail!("bump_array({n}) failed: {e:?}") };
    check!(u.len() == n && u.as_ptr() as usize % std::mem::align_of::<V>() == 0, "slice of {} elements", u.len());
    let at = u.as_ptr() as usize;
    let mut ids = vec![];
    for x in u.iter_mut() { let v = V::make(); ids.push(v.id()); x.write(v); }
    let s: LeakBox<'_, [V]> = unsafe { LeakBox::from_raw(LeakBox::into_raw(u) as *mut [V]) };
    let look = |s: &[V]| { check!(s.len() == n && s.as_ptr() as usize == at, "slice of {} elements at {:p}", s.len(), s.as_ptr()); for (v, id) in s.iter().zip(&ids) { check!(v.id() == *id, "element is value {} instead of {id}", v.id()) } };
    look(&s);
    audit("before", &[], 0);
    ctx.outcome(&(n, how, sync));
    let k = if how == 1 || how == 3 { None } else { bomb_at(ctx, n) };
    if let Some(k) = k { ctx.op(|| format!("element {k} panics in its destructor")); ledger::set_bomb(Some(ids[k])) }
    let dropped = how != 1 && how != 3;
    let r = match how {
        0 => catch(|| drop(s)),
        1 => { look(LeakBox::leak(s)); Ok(()) }
        2 => { let p = LeakBox::into_raw(s); let s = unsafe { LeakBox::from_raw(p) }; look(&s); catch(|| drop(s)) }
        _ => { std::mem::forget(s); Ok(()) }
    };
    ledger::set_bomb(None);
    check!(r.is_err() == k.is_some(), "{r:?}");
    if dropped { if V::ZST { audit("after", &[], n) } else { audit("after", &ids, 0) } } else { audit("after", &[], 0) }
    check!(region.intact(), "memory outside was changed");
}

/// A box around a borrowed plain value shows, changes and keeps that very value.
fn copies<V: Copy + PartialEq + std::fmt::Debug + 'static>(ctx: &mut Ctx, a: V, b: V) {
    let mut place = [a, b, a];
    let at = &place[1] as *const V as usize;
    let how = ctx.choose(5);
    ctx.op(|| format!("from_mut of a {}, {}", std::any::type_name::<V>(), ["drop", "write, drop", "take", "leak, write", "into_raw, from_raw, write"][how]));
    let x = LeakBox::from_mut(&mut place[1]);
    check!(&*x as *const V as usize == at && *x == b, "box shows {:?} at {:p} instead of {b:?} at {at:#x}", *x, &*x);
    let mut want = b;
    match how {
        0 => drop(x),
        1 => { let mut x = x; *x = a; want = a; drop(x) }
        2 => { let y = LeakBox::take(x); check!(y == b, "take gives {y:?} instead of {b:?}") }
        3 => { let r = LeakBox::leak(x); check!(r as *const V as usize == at, "leaked elsewhere"); *r = a; want = a }
        _ => { let p = LeakBox::into_raw(x); check!(p as usize == at, "raw pointer elsewhere"); let mut x = unsafe { LeakBox::from_raw(p) }; *x = a; want = a }
    }
    check!(place == [a, want, a], "memory now holds {place:?}");
    ctx.outcome(&(how, std::any::type_name::<V>()));
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    for kind in 0..4 {
        macro_rules! ty { ($($t:ty),*) => { $(
            let name = format!("{} in {}", stringify!($t), ["Bump<[u64;7]>", "Bump<[Tok;4]>", "unsync::Bump", "MemBump"][kind]);
            v.push(Scenario::new(format!("{name}, pruned"), if !q { 10 } else if kind % 3 == 0 && stringify!($t) == "Tok" { 7 } else { 6 }, move |c| body::<$t>(c, kind, true, false)));
            v.push(Scenario::new(format!("{name}, every sequence, panicking destructors"), if q { 4 } else { 5 }, move |c| body::<$t>(c, kind, false, true)));
            if q && kind % 3 == 0 && stringify!($t) == "Tok" { v.push(Scenario::new(format!("{name}, every longer sequence, panicking destructors"), 5, move |c| body::<$t>(c, kind, false, true)).split(2, 3).only_in(if kind == 0 { "checked" } else { "release" })) }
        )* } }
        ty!(Tok, TokBig, Tok16, Zst, Zst16);
        if !q { ty!(Tok32, Tok64); }
    }
    for kind in [4, 5] {
        let name = ["Bump<[u64;20000]>", "large MemBump"][kind - 4];
        v.push(Scenario::new(format!("TokHuge in {name}, pruned"), if q { 4 } else { 7 }, move |c| body::<TokHuge>(c, kind, true, false)));
        v.push(Scenario::new(format!("TokHuge in {name}, every sequence"), if q { 3 } else { 4 }, move |c| body::<TokHuge>(c, kind, false, false)));
    }
    v.push(Scenario::new("boxes around plain values", 1, |c| match c.choose(6) {
        0 => copies(c, 1u8, 2), 1 => copies(c, 1u64, 2), 2 => copies(c, [1u8; 3], [7; 3]), 3 => copies(c, (), ()), 4 => copies(c, "a", "b"), _ => copies(c, [5u128; 4], [6; 4]),
    }));
    macro_rules! ty { ($($t:ty),*) => { $( {
        let list: Vec<usize> = (0..if q { 36 } else { 140 }).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300]).collect();
        v.push(Scenario::new(format!("slices and many boxes of {}", stringify!($t)), 1, move |c| slices::<$t>(c, &list)).split(if q { 1 } else { 4 }, 1));
    } )* } }
    ty!(Tok, TokBig, Tok16, Tok64, Tok128, Zst, Zst16);
    v
}

fn main() {
    mcx::main(Meta {
        property: "P05",
        what: "every sequence of leak/leak_at/leak_box/leak_box_at/get+leak/boxed/uninit, uninitialised boxes and slices, write/assume_init, into_raw/from_raw/leak/take/into_pin/unsize/drop, forgetting, reset and drop of the allocator on the real types, with values that carry an identity; after each call the ledger of destructor runs, the identity seen through every handle and its address are compared with the model; destructor panics are injected",
        bounds: "4 allocators of about 56 bytes (so that placing fails) and 2 of 160000 bytes with values of 73728 bytes, 5-7 value types incl. zero-sized and over-aligned; depth 6-7 (10) pruned by state, depth 4-5 (5) without pruning and with every destructor bomb; slices of 0 to 35 (139) and up to 300 values, as many boxes at once",
        assumptions: &["unsafe constructors are used according to their documentation"],
    }, scenarios)
}
