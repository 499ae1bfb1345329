//! P16: Rc and Weak.
use mcx::ctx::{catch, fail_later, nopanic, Ctx};
use mcx::driver::Meta;
use mcx::ledger::{self, Identity};
use mcx::mem::Region;
use mcx::{check, Scenario, Tier};
use seq::{for_val, vdyn::VAL_NAMES};
use std::cell::{Cell, RefCell};
use std::mem::{align_of, size_of};
use std::ptr::NonNull;
use without_alloc::rc::{Rc, Weak};
use without_alloc::{Box, Uninit};

type R<T> = Rc<'static, T>;
type W<T> = Weak<'static, T>;

/// What is shared.
trait Item: Sized + 'static {
    const NODE: bool;
    const ZST: bool;
    fn make() -> Self;
    fn id(&self) -> u32;
    fn own(&self) -> Option<&RefCell<Option<W<Self>>>> { None }
}

/// A plain value.
struct Plain<E>(E);
impl<E: Identity> Item for Plain<E> {
    const NODE: bool = false;
    const ZST: bool = E::ZST;
    fn make() -> Self { Plain(E::make()) }
    fn id(&self) -> u32 { self.0.id() }
}

/// A value whose destructor uses the handles that exist to it, among them one inside of itself.
struct Node<E: Identity> { e: E, own: RefCell<Option<W<Node<E>>>> }
impl<E: Identity> Item for Node<E> {
    const NODE: bool = true;
    const ZST: bool = E::ZST;
    fn make() -> Self { Node { e: E::make(), own: RefCell::new(None) } }
    fn id(&self) -> u32 { self.e.id() }
    fn own(&self) -> Option<&RefCell<Option<W<Self>>>> { Some(&self.own) }
}

thread_local! { static WORLD: Cell<*mut ()> = const { Cell::new(std::ptr::null_mut()) }; }

const ACTIONS: [&str; 7] = ["", "the destructor uses the weak handle in the value", "the destructor uses a weak handle", "the destructor drops a weak handle", "the destructor clones a weak handle", "the destructor drops a strong handle of another value", "the destructor unwraps the weak handle in the value"];

impl<E: Identity> Drop for Node<E> {
    fn drop(&mut self) {
        let w = WORLD.with(|w| w.get()) as *mut World<Self>;
        if w.is_null() { return }
        let at = self as *const Self as usize;
        unsafe {
            let Some(g) = (*w).groups.iter().position(|g| g.region.addr() == at && g.dying) else { return };
            let action = std::mem::take(&mut (*w).action);
            let probe = |h: W<Self>, name: &str| -> Option<W<Self>> {
                if h.strong_count() != 0 { fail_later(format!("while the value is being dropped, {name} reports {} strong handles", h.strong_count())) }
                if let Some(r) = h.upgrade() { fail_later(format!("{name} was upgraded while the value is being dropped")); std::mem::forget(r) }
                match h.try_unwrap() {
                    Ok(m) => { fail_later(format!("{name} handed the memory back ({} bytes) while the value in it is being dropped", m.size())); None }
                    Err(h) => Some(h),
                }
            };
            match action {
                1 => if let Some(h) = &*self.own.borrow() {
                    if h.strong_count() != 0 { fail_later("while the value is being dropped, the weak handle in it reports strong handles".into()) }
                    if let Some(r) = h.upgrade() { fail_later("the weak handle in the value was upgraded while the value is being dropped".into()); std::mem::forget(r) }
                    let c = h.clone();
                    probe(c, "a clone of the weak handle in the value");
                }
                2 => if let Some(h) = (*w).groups[g].weaks.pop() { if let Some(h) = probe(h, "a weak handle") { (*w).groups[g].weaks.push(h) } }
                3 => if let Some(h) = (*w).groups[g].weaks.pop() { drop(h) }
                4 => if let Some(h) = (*w).groups[g].weaks.last() { let h = h.clone(); (*w).groups[g].weaks.push(h) }
                5 => {
                    let n = (*w).groups.len();
                    if let Some(o) = (0..n).find(|o| *o != g && (&(*w).groups)[*o].rcs.len() > 0) { drop_rc(w, o) }
                }
                6 => {
                    let h = self.own.borrow_mut().take();
                    if let Some(h) = h { (*w).groups[g].own = false; if let Some(h) = probe(h, "the weak handle taken out of the value") { (*w).groups[g].weaks.push(h) } }
                }
                _ => {}
            }
        }
    }
}

struct Group<T: Item> { rcs: Vec<R<T>>, weaks: Vec<W<T>>, raw: Option<Uninit<'static, T>>, mem: Option<Uninit<'static, ()>>, region: Region, size: usize, id: u32, own: bool, dying: bool }
struct World<T: Item> { groups: Vec<Group<T>>, outside: Vec<(T, u32, Option<usize>)>, dropped: Vec<u32>, zdropped: usize, action: u8, leaked: usize }

impl<T: Item> World<T> {
    fn gone(&mut self, id: u32) { if T::ZST { self.zdropped += 1 } else { self.dropped.push(id) } }
    fn check(&self, what: &str) {
        let mut d = ledger::drop_ids();
        let mut e = self.dropped.clone();
        d.sort(); e.sort();
        check!(d == e, "{what}: dropped values are {d:?}, expected {e:?}");
        let z = ledger::with(|l| l.zst_dropped);
        check!(z == self.zdropped, "{what}: {z} zero-sized values were dropped, expected {}", self.zdropped);
        for (gi, g) in self.groups.iter().enumerate() {
            check!(g.region.intact(), "{what}: memory around value {gi} was written");
            let s = g.rcs.len();
            let w = g.weaks.len() + g.own as usize;
            let total = w + (s > 0) as usize;
            for r in &g.rcs {
                check!(Rc::strong_count(r) == s, "{what}: strong_count {} with {s} strong handles", Rc::strong_count(r));
                check!(Rc::weak_count(r) == total, "{what}: weak_count {} with {w} weak handles and {s} strong ones", Rc::weak_count(r));
                check!(r.id() == g.id, "{what}: handle shows value {} instead of {}", r.id(), g.id);
                check!(&**r as *const T as usize == g.region.addr(), "{what}: value is not at the start of the memory");
                check!(<R<T> as AsRef<T>>::as_ref(r) as *const T == &**r as *const T && std::borrow::Borrow::<T>::borrow(r) as *const T == &**r as *const T, "{what}: as_ref or borrow show another value");
            }
            for h in &g.weaks {
                check!(h.strong_count() == s, "{what}: Weak::strong_count {} with {s} strong handles", h.strong_count());
                check!(h.weak_count() == total, "{what}: Weak::weak_count {} with {w} weak handles and {s} strong ones", h.weak_count());
            }
            if let Some(m) = &g.mem { check!(m.as_ptr() as usize == g.region.addr() && m.size() == g.size, "{what}: memory handle of {} bytes at {:p} instead of {} at {:#x}", m.size(), m.as_ptr(), g.size, g.region.addr()) }
            if let Some(u) = &g.raw { check!(u.as_ptr() as usize == g.region.addr() && u.size() == g.size, "{what}: raw handle of {} bytes at {:p} instead of {} at {:#x}", u.size(), u.as_ptr(), g.size, g.region.addr()); check!(unsafe { u.as_ref() }.id() == g.id, "{what}: raw memory holds another value") }
            let tail = unsafe { std::slice::from_raw_parts(g.region.ptr().add(Rc::<T>::layout().size()), g.size - Rc::<T>::layout().size()) };
            check!(tail.iter().all(|b| *b == 0x5D), "{what}: memory behind the shared value was written");
        }
        for (a, ga) in self.groups.iter().enumerate() { for (b, gb) in self.groups.iter().enumerate() {
            if let (Some(x), Some(y)) = (ga.rcs.first(), gb.rcs.last()) { check!(Rc::ptr_eq(x, y) == (a == b), "{what}: ptr_eq of handles to value {a} and {b} is {}", Rc::ptr_eq(x, y)) }
        } }
        for (v, id, _) in &self.outside { check!(v.id() == *id, "{what}: an unwrapped value changed") }
    }
    fn kinds(&self) -> Vec<(usize, usize, bool, bool, bool)> { self.groups.iter().map(|g| (g.rcs.len(), g.weaks.len(), g.own, g.raw.is_some(), g.mem.is_some())).collect() }
}

/// Drop one strong handle. Called also from a destructor, so it must not unwind for a violation.
unsafe fn drop_rc<T: Item>(w: *mut World<T>, g: usize) {
    let r = (&mut (*w).groups)[g].rcs.pop().unwrap();
    let last = (&(*w).groups)[g].rcs.is_empty();
    let id = (&(*w).groups)[g].id;
    (&mut (*w).groups)[g].dying = last;
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(r)));
    (&mut (*w).groups)[g].dying = false;
    if last { (*w).gone(id); (&mut (*w).groups)[g].own = false; }
    if let Err(p) = res { std::panic::resume_unwind(p) }
}

fn op<T: Item>(ctx: &mut Ctx, w: *mut World<T>, max: usize, bombs: bool) {
    let world = unsafe { &mut *w };
    let k = ctx.choose(world.groups.len() + (!world.outside.is_empty()) as usize);
    let what: String;
    if k == world.groups.len() {
        let (v, id, at) = world.outside.pop().unwrap();
        what = format!("drop unwrapped value {id}");
        ctx.op(|| what.clone());
        // its own weak handle goes with it
        nopanic(&what, || drop(v));
        let world = unsafe { &mut *w };
        if let Some(g) = at { world.groups[g].own = false }
        world.gone(id);
        world.check(&what);
        return;
    }
    let g = &mut world.groups[k];
    let (s, wk) = (g.rcs.len(), g.weaks.len());
    if s == 0 && wk == 0 && g.raw.is_none() && g.mem.is_none() {
        // no handle is left: the memory may be used for something else
        what = format!("Rc::new in memory {k}");
        if g.own { ctx.op(|| "nothing".into()); return }
        g.mem = Some(unsafe { Uninit::from_memory(NonNull::new(g.region.ptr()).unwrap(), g.size) });
        unsafe { std::ptr::write_bytes(g.region.ptr(), 0x5D, g.size) };
        ctx.op(|| what.clone());
    } else if g.mem.is_some() {
        what = format!("Rc::new in memory {k}");
        let v = T::make();
        g.id = v.id();
        let m = g.mem.take().unwrap();
        ctx.op(|| format!("{what}, value {}", g.id));
        g.rcs.push(nopanic(&what, || Rc::new(v, m)));
    } else if g.raw.is_some() {
        let o = ctx.choose(3);
        what = ["Rc::from_raw", "Box::from_raw and drop", "mutate the raw value, then Rc::from_raw"][o].to_string();
        ctx.op(|| format!("{what} of {k}"));
        let mut u = g.raw.take().unwrap();
        match o {
            0 => g.rcs.push(nopanic(&what, || unsafe { Rc::from_raw(u) })),
            1 => { let b = unsafe { Box::from_raw(u) }; let id = g.id; nopanic(&what, || drop(b)); unsafe { &mut *w }.gone(id) }
            _ => {
                let v = T::make();
                let new = v.id();
                let old = std::mem::replace(unsafe { u.as_mut() }, v);
                let oid = g.id;
                check!(old.id() == oid, "{what}: another value");
                g.id = new;
                g.rcs.push(nopanic(&what, || unsafe { Rc::from_raw(u) }));
                drop(old);
                unsafe { &mut *w }.gone(oid);
            }
        }
    } else {
        let node = T::NODE;
        // (enabled operations)
        let mut ops: Vec<u8> = vec![];
        if s > 0 { ops.extend([0, 4, 5, 6]); if s < max { ops.push(1) } if wk < max { ops.push(2) } if node { ops.push(3) } }
        if wk > 0 { ops.extend([8, 11]); if s < max { ops.push(10) } if wk < max { ops.push(9) } }
        let (gi, ng) = (k, world.groups.len());
        let src = |i: usize| (gi + i) % ng;
        let n_of = |w: &World<T>, i: usize| (w.groups[i].rcs.len(), w.groups[i].weaks.len());
        // the source of an assignment by clone_from: the same value or the other one
        for i in 0..ng {
            let (os, ow) = n_of(world, src(i));
            if s > 0 && (if i == 0 { s > 1 } else { os > 0 && os < max }) { ops.push(12 + i as u8) }
            if wk > 0 && (if i == 0 { wk > 1 } else { ow > 0 && ow < max }) { ops.push(16 + i as u8) }
        }
        let g = &mut world.groups[k];
        match ctx.pick(&ops) {
            x @ 12..16 => {
                let o = src(x as usize - 12);
                what = "Rc::clone_from".into();
                ctx.op(|| format!("{what}: a handle to {k} becomes one to {o}"));
                let mut d = g.rcs.pop().unwrap();
                let last = g.rcs.is_empty();
                let id = g.id;
                g.dying = last;
                nopanic(&what, || d.clone_from(unsafe { &(&(*w).groups)[o].rcs[0] }));
                let world = unsafe { &mut *w };
                world.groups[k].dying = false;
                if last { world.groups[k].own = false; world.gone(id) }
                world.groups[o].rcs.push(d);
            }
            x @ 16.. => {
                let o = src(x as usize - 16);
                what = "Weak::clone_from".into();
                ctx.op(|| format!("{what}: a weak handle to {k} becomes one to {o}"));
                let mut d = g.weaks.pop().unwrap();
                nopanic(&what, || d.clone_from(unsafe { &(&(*w).groups)[o].weaks[0] }));
                unsafe { &mut *w }.groups[o].weaks.push(d);
            }
            0 => {
                what = "drop an Rc".into();
                let last = s == 1;
                let bomb = last && bombs && !T::ZST && ctx.flag();
                let action = if last && node { ctx.choose(ACTIONS.len()) } else { 0 };
                ctx.op(|| format!("drop a handle to {k} ({s} strong, {wk} weak){}{}{}", if bomb { ", the value panics in its destructor" } else { "" }, if action > 0 { ", " } else { "" }, ACTIONS[action]));
                let id = g.id;
                if bomb { ledger::set_bomb(Some(id)) }
                world.action = action as u8;
                let r = catch(|| unsafe { drop_rc(w, k) });
                ledger::set_bomb(None);
                unsafe { (*w).action = 0 };
                check!(r.is_err() == bomb, "{what}: {r:?}");
            }
            1 => { what = "Rc::clone".into(); ctx.op(|| format!("{what} {k}")); let r = nopanic(&what, || g.rcs[0].clone()); g.rcs.push(r) }
            2 => { what = "Rc::downgrade".into(); ctx.op(|| format!("{what} {k}")); let h = nopanic(&what, || Rc::downgrade(&g.rcs[s - 1])); g.weaks.push(h) }
            3 => {
                what = "store a weak handle in the value, or remove it".into();
                ctx.op(|| format!("{what} {k}"));
                let new = if g.own { None } else { Some(Rc::downgrade(&g.rcs[0])) };
                let old = std::mem::replace(&mut *g.rcs[0].own().unwrap().borrow_mut(), new);
                drop(old);
                g.own = !g.own;
            }
            4 => {
                what = "get_mut".into();
                ctx.op(|| format!("{what} {k}"));
                let unique = s == 1 && wk == 0 && !g.own;
                let oid = g.id;
                let v = T::make();
                let new = v.id();
                let mut r = g.rcs.pop().unwrap();
                let old = match Rc::get_mut(&mut r) {
                    Some(m) => { check!(unique, "get_mut granted with {s} strong and {} weak handles", wk + g.own as usize); check!(m.id() == oid, "get_mut shows another value"); g.id = new; std::mem::replace(m, v) }
                    None => { check!(!unique, "get_mut refused for a unique handle"); v }
                };
                g.rcs.push(r);
                let gone = old.id();
                drop(old);
                unsafe { &mut *w }.gone(gone);
            }
            5 => {
                what = "Rc::try_unwrap".into();
                ctx.op(|| format!("{what} {k} ({s} strong, {wk} weak)"));
                let r = g.rcs.pop().unwrap();
                match nopanic(&what, || Rc::try_unwrap(r)) {
                    Ok((v, h)) => {
                        check!(s == 1, "try_unwrap moved the value out although there are {s} strong handles");
                        check!(v.id() == g.id, "try_unwrap returned another value");
                        g.weaks.push(h);
                        let id = g.id;
                        let at = g.own.then_some(k);
                        world.outside.push((v, id, at));
                    }
                    Err(r) => { check!(s != 1, "try_unwrap refused for the only strong handle"); g.rcs.push(r) }
                }
            }
            6 => {
                what = "Rc::into_raw".into();
                ctx.op(|| format!("{what} {k} ({s} strong, {wk} weak)"));
                let unique = s == 1 && wk == 0 && !g.own;
                let r = g.rcs.pop().unwrap();
                match nopanic(&what, || Rc::into_raw(r)) {
                    Ok(u) => { check!(unique, "into_raw granted with {s} strong and {} weak handles", wk + g.own as usize); g.raw = Some(u) }
                    Err(r) => { check!(!unique, "into_raw refused for a unique handle"); g.rcs.push(r) }
                }
            }
            8 => { what = "drop a Weak".into(); ctx.op(|| format!("{what} of {k}")); let h = g.weaks.pop().unwrap(); nopanic(&what, || drop(h)) }
            9 => { what = "Weak::clone".into(); ctx.op(|| format!("{what} {k}")); let h = nopanic(&what, || g.weaks[0].clone()); g.weaks.push(h) }
            10 => {
                what = "Weak::upgrade".into();
                ctx.op(|| format!("{what} {k} ({s} strong, {wk} weak)"));
                match nopanic(&what, || g.weaks[wk - 1].upgrade()) {
                    Some(r) => { if s == 0 { std::mem::forget(r); mcx::fail!("upgrade succeeded although no strong handle exists") } g.rcs.push(r) }
                    None => check!(s == 0, "upgrade failed although {s} strong handles exist"),
                }
            }
            _ => {
                what = "Weak::try_unwrap".into();
                ctx.op(|| format!("{what} {k} ({s} strong, {wk} weak)"));
                let only = s == 0 && wk == 1 && !g.own;
                let h = g.weaks.pop().unwrap();
                match nopanic(&what, || h.try_unwrap()) {
                    Ok(m) => {
                        check!(only, "memory handed back with {s} strong and {} weak handles", wk + g.own as usize);
                        check!(m.as_ptr() as usize == g.region.addr() && m.size() == g.size, "memory handed back is {} bytes at {:p}, given were {} at {:#x}", m.size(), m.as_ptr(), g.size, g.region.addr());
                        unsafe { std::ptr::write_bytes(m.as_ptr() as *mut u8, 0x5D, m.size()) };
                        g.mem = Some(m);
                    }
                    Err(h) => { check!(!only, "memory refused for the last handle"); g.weaks.push(h) }
                }
            }
        }
    }
    unsafe { &*w }.check(&what);
}

fn body<T: Item>(ctx: &mut Ctx, extra: usize, n: usize, max: usize, prune: bool, bombs: bool) {
    let l = Rc::<T>::layout();
    check!(l.size() >= size_of::<T>() && l.size() > 0 && l.align() >= align_of::<T>(), "layout {l:?} is not sufficient for the value");
    let mk = |i: usize| {
        let size = l.size() + if i == 0 { extra } else { 0 };
        let region = Region::new(l.align(), size, 0x5D);
        let mem = unsafe { Uninit::from_memory(NonNull::new(region.ptr()).unwrap(), size) };
        Group { rcs: vec![], weaks: vec![], raw: None, mem: Some(mem), region, size, id: 0, own: false, dying: false }
    };
    let mut world = World::<T> { groups: (0..n).map(mk).collect(), outside: vec![], dropped: vec![], zdropped: 0, action: 0, leaked: 0 };
    let w: *mut World<T> = &mut world;
    WORLD.with(|x| x.set(w as *mut ()));
    struct Off;
    impl Drop for Off { fn drop(&mut self) { WORLD.with(|x| x.set(std::ptr::null_mut())) } }
    let _off = Off;
    for i in 0..ctx.depth {
        let st = unsafe { ((*w).kinds(), (*w).outside.iter().map(|o| o.2).collect::<Vec<_>>()) };
        if prune { if !ctx.visit(&st, ctx.depth - i) { break } } else { ctx.note(&st); if ctx.skipped() { break } }
        op(ctx, w, max, bombs);
    }
    unsafe {
        ctx.outcome(&((*w).kinds(), (*w).dropped.clone()));
        // everything goes away
        for g in 0..n {
            while !(&(*w).groups)[g].rcs.is_empty() { nopanic("drop", || drop_rc(w, g)); (*w).check("dropping the remaining strong handles") }
            while let Some(h) = (&mut (*w).groups)[g].weaks.pop() { nopanic("drop", || drop(h)); (*w).check("dropping the remaining weak handles") }
            if let Some(u) = (&mut (*w).groups)[g].raw.take() { drop(u); (*w).leaked += 1; (*w).check("dropping raw memory") }
        }
        while let Some((v, id, at)) = (*w).outside.pop() { drop(v); if let Some(g) = at { (&mut (*w).groups)[g].own = false } (*w).gone(id) }
        (*w).check("dropping everything");
        let made = ledger::created() + ledger::with(|l| l.zst_made);
        check!(made == (*w).dropped.len() + (*w).zdropped + (*w).leaked, "{made} values were made, {} dropped, {} leaked by request", (*w).dropped.len() + (*w).zdropped, (*w).leaked);
    }
}

/// Memory that is too small or misaligned is refused.
fn refuse<T: Item>(ctx: &mut Ctx) {
    let l = Rc::<T>::layout();
    let off = ctx.choose(l.align().min(16) * 2);
    let len = ctx.choose(l.size() + 3);
    let region = Region::new(off, len, 0x5D);
    ctx.op(|| format!("Rc::new in {len} bytes at offset {off}"));
    ctx.note(&(off, len));
    let v = T::make();
    let id = v.id();
    let m = unsafe { Uninit::from_memory(NonNull::new(region.ptr()).unwrap(), len) };
    let fits = region.addr() % l.align() == 0 && len >= l.size();
    let r = catch(|| Rc::new(v, m));
    check!(r.is_ok() == fits, "Rc::new in {len} bytes at {:#x}, needed is {l:?}: {}", region.addr(), if r.is_ok() { "accepted" } else { "panicked" });
    ctx.outcome(&fits);
    if let Ok(r) = r { check!(r.id() == id && Rc::strong_count(&r) == 1 && Rc::weak_count(&r) == 1, "new handle is wrong"); drop(r) }
    let n = ledger::drop_ids().len() + ledger::with(|l| l.zst_dropped);
    check!(n == 1, "value dropped {n} times");
    check!(region.intact(), "memory around was written");
}

/// Many handles to one value.
fn many<T: Item>(ctx: &mut Ctx, list: &[usize]) {
    let l = Rc::<T>::layout();
    let s = ctx.pick(list).max(1);
    let k = ctx.pick(list);
    let order = ctx.choose(6);
    let route = ctx.choose(3);
    ctx.op(|| format!("{s} strong and {k} weak handles made by {}; {}", ["clone and downgrade of the first", "clone and downgrade of the last", "weak clones and upgrades"][route],
        ["strong handles go first", "weak handles go first", "alternating", "strong handles go first, oldest first", "unwrap the last strong handle", "into_raw of the last handle"][order]));
    ctx.note(&(s, k, order, route));
    let region = Region::new(l.align(), l.size() + 8, 0x5D);
    let mem = unsafe { Uninit::from_memory(NonNull::new(region.ptr()).unwrap(), region.len()) };
    let v = T::make();
    let id = v.id();
    let mut rcs = std::collections::VecDeque::from([Rc::new(v, mem)]);
    let mut weaks: std::collections::VecDeque<W<T>> = Default::default();
    let steps = if s + k > 1000 { 61 } else { 1 };
    fn look<T: Item>(rcs: &std::collections::VecDeque<R<T>>, weaks: &std::collections::VecDeque<W<T>>, id: u32) {
        let (s, w) = (rcs.len(), weaks.len() + !rcs.is_empty() as usize);
        for r in rcs.front().into_iter().chain(rcs.back()) {
            check!(Rc::strong_count(r) == s && Rc::weak_count(r) == w, "strong_count {} and weak_count {} with {s} strong and {} weak handles", Rc::strong_count(r), Rc::weak_count(r), weaks.len());
            check!(r.id() == id, "handle shows another value");
        }
        for h in weaks.front().into_iter().chain(weaks.back()) {
            check!(h.strong_count() == s && h.weak_count() == w, "Weak: strong_count {} and weak_count {} with {s} strong and {} weak handles", h.strong_count(), h.weak_count(), weaks.len());
        }
    }
    for i in 0..s.max(k) {
        match route {
            0 => { if i < k { weaks.push_back(Rc::downgrade(&rcs[0])) } if i + 1 < s { let r = rcs[0].clone(); rcs.push_back(r) } }
            1 => { if i + 1 < s { let r = rcs.back().unwrap().clone(); rcs.push_back(r) } if i < k { weaks.push_back(Rc::downgrade(rcs.back().unwrap())) } }
            _ => {
                if i < k { let h = weaks.back().map(|h| h.clone()).unwrap_or_else(|| Rc::downgrade(&rcs[0])); weaks.push_back(h) }
                if i + 1 < s { let r = weaks.front().and_then(|h| h.upgrade()).unwrap_or_else(|| rcs[0].clone()); rcs.push_back(r) }
            }
        }
        if i % steps == 0 || i + 3 > s.max(k) { look(&rcs, &weaks, id) }
    }
    look(&rcs, &weaks, id);
    ctx.outcome(&(s, k, order));
    // no access while another handle exists
    let unique = s == 1 && k == 0;
    check!(Rc::get_mut(rcs.back_mut().unwrap()).is_some() == unique, "get_mut with {s} strong and {k} weak handles");
    let dead = |n: usize, what: &str| { let d = ledger::drop_ids().len() + ledger::with(|l| l.zst_dropped); check!(d == n, "{what}: {d} values were dropped, expected {n}") };
    let mut outside = None;
    let mut value = 1;
    let mut i = 0;
    while !rcs.is_empty() || !weaks.is_empty() {
        let strong = match order { 1 => weaks.is_empty(), 2 => (i % 2 == 0 && !rcs.is_empty()) || weaks.is_empty(), _ => !rcs.is_empty() };
        if strong {
            let last = rcs.len() == 1;
            let r = if order == 3 { rcs.pop_front().unwrap() } else { rcs.pop_back().unwrap() };
            let r = if !last || i % 7 == 3 { match Rc::try_unwrap(r) { Err(r) if !last => r, Ok((v, h)) if last => { weaks.push_back(h); outside = Some(v); value = 0; i += 1; continue } _ => mcx::fail!("try_unwrap with {} strong handles", rcs.len() + 1) } } else { r };
            match order {
                4 if last => { let (v, h) = match Rc::try_unwrap(r) { Ok(x) => x, Err(r) => { std::mem::forget(r); mcx::fail!("try_unwrap refused for the only strong handle") } }; outside = Some(v); value = 0; weaks.push_back(h) }
                5 if last && weaks.is_empty() => { let u = match Rc::into_raw(r) { Ok(u) => u, Err(r) => { std::mem::forget(r); mcx::fail!("into_raw refused for the only handle") } }; check!(u.size() == region.len(), "memory of {} bytes", u.size()); rcs.push_back(unsafe { Rc::from_raw(u) }); look(&rcs, &weaks, id); drop(rcs.pop_back()); dead(value, "dropping the last handle") }
                5 if last => { let r = match Rc::into_raw(r) { Err(r) => r, Ok(_) => mcx::fail!("into_raw granted with {} weak handles", weaks.len()) }; drop(r); dead(value, "dropping the last strong handle") }
                _ => { drop(r); if last { dead(value, "dropping the last strong handle") } }
            }
        } else {
            let last = weaks.len() == 1 && rcs.is_empty();
            let h = weaks.pop_back().unwrap();
            check!(rcs.is_empty() == h.upgrade().map(|r| std::mem::drop(r)).is_none(), "upgrade with {} strong handles", rcs.len());
            match h.try_unwrap() {
                Ok(m) => { check!(last, "memory handed back with {} strong and {} other weak handles", rcs.len(), weaks.len()); check!(m.as_ptr() as usize == region.addr() && m.size() == region.len(), "memory handed back is {} bytes at {:p}", m.size(), m.as_ptr()) }
                Err(h) => { check!(!last, "memory refused for the last handle"); drop(h) }
            }
        }
        i += 1;
        if i % steps == 0 || rcs.len() + weaks.len() < 4 { look(&rcs, &weaks, id); if !rcs.is_empty() { dead(0, "while strong handles exist") } }
    }
    check!(region.intact(), "memory around was written");
    let n = outside.is_some() as usize;
    drop(outside);
    dead(1, if n == 1 { "dropping the unwrapped value" } else { "dropping everything" });
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    for t in 0..7 {
        let name = VAL_NAMES[t];
        v.push(Scenario::new(format!("{name}, every sequence"), if q { 8 } else { 10 }, move |c| for_val!(t, V => body::<Plain<V>>(c, 0, 1, 3, false, true))).split(if q { 1 } else { 8 }, 6));
        v.push(Scenario::new(format!("node with {name}, every sequence"), if q { 7 } else { 9 }, move |c| for_val!(t, V => body::<Node<V>>(c, 8, 1, 3, false, true))).split(if q { 1 } else { 8 }, 6));
        v.push(Scenario::new(format!("{name}, two values, pruned"), if q { 12 } else { 20 }, move |c| for_val!(t, V => body::<Plain<V>>(c, 24, 2, if q { 2 } else { 4 }, true, true))));
        v.push(Scenario::new(format!("node with {name}, two values, pruned"), if q { 11 } else { 18 }, move |c| for_val!(t, V => body::<Node<V>>(c, 0, 2, if q { 2 } else { 3 }, true, true))));
        v.push(Scenario::new(format!("{name}, memory that may not fit"), 1, move |c| for_val!(t, V => refuse::<Plain<V>>(c))));
    }
    for extra in [255, 256, 4096, 65536, 70001] { v.push(Scenario::new(format!("{extra} bytes more than needed"), if q { 5 } else { 8 }, move |c| body::<Plain<ledger::Tok>>(c, extra, 1, 2, true, true))) }
    v.push(Scenario::new("large value, every sequence", if q { 5 } else { 7 }, move |c| body::<Plain<ledger::TokHuge>>(c, 0, 1, 2, false, true)).split(if q { 1 } else { 4 }, 3));
    v.push(Scenario::new("node with a large value", if q { 5 } else { 6 }, move |c| body::<Node<ledger::TokHuge>>(c, 8, 1, 2, false, true)).split(if q { 1 } else { 4 }, 3));
    v.push(Scenario::new("large value, two of them, pruned", if q { 5 } else { 10 }, move |c| body::<Plain<ledger::TokHuge>>(c, 70000, 2, 2, true, true)));
    let mut list: Vec<usize> = (0..if q { 12 } else { 40 }).chain([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258]).collect();
    list.sort(); list.dedup();
    let l2 = list.clone();
    v.push(Scenario::new("many handles", 1, move |c| many::<Plain<ledger::Tok>>(c, &list)).split(if q { 1 } else { 8 }, 1));
    v.push(Scenario::new("many handles to a zero-sized value", 1, move |c| many::<Plain<ledger::Zst>>(c, &l2)).split(if q { 1 } else { 8 }, 1));
    for n in [32767, 32768, 32769, 65534, 65535, 65536, 65537] { for list in [[1, n], [n, 0]] {
        if q && n % 2 == 1 && list[1] == n { continue }
        v.push(Scenario::new(format!("{} strong, {} weak handles", list[0], list[1]), 1, move |c| many::<Plain<ledger::Tok>>(c, &list)));
    } }
    v
}

fn main() {
    mcx::main(Meta {
        property: "P16",
        what: "every sequence of creating, cloning (also onto an existing handle), downgrading, upgrading, dropping, unwrapping, raw conversion and mutable access on handles to one or two shared values, with destructors that panic or use, drop, clone or unwrap handles to the value (also one stored in the value itself) or drop a handle to another value; counts, uniqueness, identity, the moment of the drop and the memory handed back are compared with a model after each call",
        bounds: "7 plain types and 7 node types (alignment 1 to 64), up to 3 strong and 3 weak handles to one value: all sequences of 8 (10) calls for plain values, 7 (9) for nodes; two values with 2 (4, 3) handles of each kind: depth 12 (20) and 11 (18) with pruning; every pair of 0 to 11 (39) and up to 258 handles of each kind, up to 65537 of one kind, in six orders of going away; every too small or misaligned memory; a value of 73728 bytes and memory of up to 70001 bytes more than needed",
        assumptions: &["handles of one kind to one value are interchangeable (they are equal pointers)", "pruned scenarios: the canonical state is the number of handles of each kind to each value"],
    }, scenarios)
}
