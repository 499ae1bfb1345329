//! P19: unsizing pointers.
#![feature(layout_for_ptr)]
use mcx::ctx::{nopanic, Ctx};
use mcx::driver::Meta;
use mcx::galloc;
use mcx::ledger::{self, Identity, Tok, Zst};
use mcx::mem::Region;
use mcx::{check, Scenario, Tier};
use seq::vdyn::*;
use seq::{for_arr, for_val};
use std::any::Any;
use std::fmt::{Debug, Display};
use std::mem::{align_of, size_of};
use std::pin::Pin;
use std::ptr::NonNull;
use std::rc::{Rc, Weak as WeakRc};
use std::sync::{Arc, Weak as WeakArc};
use unsize::{CoerceUnsized, CoerciblePtr, Coercion};
use without_alloc::uninit::{Uninit, UninitView};

/// A way to unsize values of type `T`.
trait Target<T: Val>: 'static {
    type U: ?Sized + 'static;
    const NAME: &'static str;
    fn apply<P: CoerciblePtr<Self::U, Pointee = T>>(p: P) -> P::Output;
    /// The value as seen through the unsized pointer.
    fn ids(u: &Self::U) -> Vec<u32>;
}
struct ToDynamic; struct ToMacro; struct ToSafe; struct ToAny; struct ToAnyMacro; struct ToDebug; struct ToSlice; struct ToSlicePtr;
impl<T: Val> Target<T> for ToDynamic {
    type U = dyn Dynamic;
    const NAME: &'static str = "Coercion::new to dyn Dynamic";
    fn apply<P: CoerciblePtr<dyn Dynamic, Pointee = T>>(p: P) -> P::Output { p.unsize(unsafe { Coercion::new(|p: *const T| p as *const dyn Dynamic) }) }
    fn ids(u: &(dyn Dynamic + 'static)) -> Vec<u32> { check!(u.dyn_addr() == u as *const dyn Dynamic as *const u8 as usize, "the value sees another address"); u.dyn_ids() }
}
impl<T: Val> Target<T> for ToMacro {
    type U = dyn Dynamic;
    const NAME: &'static str = "Coercion!(to dyn Dynamic)";
    fn apply<P: CoerciblePtr<dyn Dynamic, Pointee = T>>(p: P) -> P::Output { p.unsize(unsize::Coercion!(to dyn Dynamic)) }
    fn ids(u: &(dyn Dynamic + 'static)) -> Vec<u32> { <ToDynamic as Target<T>>::ids(u) }
}
impl<T: Val + Send + Sync> Target<T> for ToSafe {
    type U = dyn Dynamic + Send + Sync;
    const NAME: &'static str = "Coercion!(to dyn Dynamic + Send + Sync)";
    fn apply<P: CoerciblePtr<Self::U, Pointee = T>>(p: P) -> P::Output { p.unsize(unsize::Coercion!(to dyn Dynamic + Send + Sync)) }
    fn ids(u: &Self::U) -> Vec<u32> { <ToDynamic as Target<T>>::ids(u) }
}
impl<T: Val> Target<T> for ToAny {
    type U = dyn Any;
    const NAME: &'static str = "Coercion::to_any";
    fn apply<P: CoerciblePtr<dyn Any, Pointee = T>>(p: P) -> P::Output { p.unsize(Coercion::to_any()) }
    fn ids(u: &(dyn Any + 'static)) -> Vec<u32> { u.downcast_ref::<T>().unwrap_or_else(|| mcx::fail!("the type behind dyn Any is another one")).ids() }
}
impl<T: Val> Target<T> for ToAnyMacro {
    type U = dyn Any;
    const NAME: &'static str = "Coercion!(to dyn Any)";
    fn apply<P: CoerciblePtr<dyn Any, Pointee = T>>(p: P) -> P::Output { p.unsize(unsize::Coercion!(to dyn Any)) }
    fn ids(u: &(dyn Any + 'static)) -> Vec<u32> { <ToAny as Target<T>>::ids(u) }
}
impl<T: Val> Target<T> for ToDebug {
    type U = dyn Debug;
    const NAME: &'static str = "Coercion::to_debug";
    fn apply<P: CoerciblePtr<dyn Debug, Pointee = T>>(p: P) -> P::Output { p.unsize(Coercion::to_debug()) }
    fn ids(u: &(dyn Debug + 'static)) -> Vec<u32> {
        // T<id>, Z, or a list of these
        format!("{u:?}").split(|c: char| !c.is_ascii_alphanumeric()).filter_map(|x| if x == "Z" { Some(0) } else { x.strip_prefix('T').and_then(|n| n.parse().ok()) }).collect()
    }
}
impl<E: Identity, const N: usize> Target<[E; N]> for ToSlice {
    type U = [E];
    const NAME: &'static str = "Coercion::to_slice";
    fn apply<P: CoerciblePtr<[E], Pointee = [E; N]>>(p: P) -> P::Output { p.unsize(Coercion::to_slice()) }
    fn ids(u: &[E]) -> Vec<u32> { u.iter().map(|e| e.id()).collect() }
}
impl<E: Identity, const N: usize> Target<[E; N]> for ToSlicePtr {
    type U = [E];
    const NAME: &'static str = "Coercion::new to a slice";
    fn apply<P: CoerciblePtr<[E], Pointee = [E; N]>>(p: P) -> P::Output { p.unsize(unsafe { Coercion::new(|p: *const [E; N]| p as *const [E]) }) }
    fn ids(u: &[E]) -> Vec<u32> { u.iter().map(|e| e.id()).collect() }
}

fn addr<U: ?Sized>(p: *const U) -> usize { p as *const u8 as usize }

/// Address and metadata of an unsized pointer.
fn same<T, U: ?Sized>(what: &str, p: *const U, at: usize) {
    check!(addr(p) == at, "{what}: address {:#x} instead of {at:#x}", addr(p));
    let (s, a) = unsafe { (std::mem::size_of_val_raw(p), std::mem::align_of_val_raw(p)) };
    check!(s == size_of::<T>() && a == align_of::<T>(), "{what}: the pointer describes size {s} align {a}, the value has size {} align {}", size_of::<T>(), align_of::<T>());
}

fn audit(what: &str, dropped: &[u32], zst: usize) {
    let d = ledger::drop_ids();
    check!(d == dropped, "{what}: dropped values are {d:?}, expected {dropped:?}");
    let z = ledger::with(|l| l.zst_dropped);
    check!(z == zst, "{what}: {z} zero-sized values were dropped, expected {zst}");
}

/// References, raw pointers, pins: one conversion each, in any order.
fn plain<T: Val, G: Target<T>>(ctx: &mut Ctx) {
    let slack = ctx.pick(&[0usize, 1, 9, 64]);
    let region = Region::new(align_of::<T>(), size_of::<T>() + slack, 0x5D);
    let total = size_of::<T>() + slack;
    let memory = || -> Uninit<'static, T> { unsafe { Uninit::from_memory(NonNull::new_unchecked(region.ptr()), total) }.cast().unwrap_or_else(|_| mcx::fail!("HARNESS: cast")) };
    let p = region.ptr() as *mut T;
    unsafe { p.write(T::new()) };
    let mut ids = unsafe { &*p }.ids();
    let at = p as usize;
    let mut dropped: Vec<u32> = vec![];
    let mut zst = 0;
    for _ in 0..ctx.depth {
        let k = ctx.choose(9);
        let what = format!("{} of {}", G::NAME, ["&T", "&mut T", "*const T", "*mut T", "NonNull", "Pin<&mut T>", "Uninit", "UninitView", "without_alloc::Box, pinned"][k]);
        ctx.op(|| what.clone());
        let seen = |u: &G::U, w: &str| check!(G::ids(u) == ids, "{w}: reads {:?} instead of {ids:?}", G::ids(u));
        unsafe {
            match k {
                0 => { let u: &G::U = nopanic(&what, || G::apply(&*p)); same::<T, _>(&what, u, at); seen(u, &what) }
                1 => { let u: &mut G::U = nopanic(&what, || G::apply(&mut *p)); same::<T, _>(&what, u, at); seen(u, &what) }
                2 => { let u = nopanic(&what, || G::apply(p as *const T)); same::<T, _>(&what, u, at); seen(&*u, &what) }
                3 => { let u = nopanic(&what, || G::apply(p)); same::<T, _>(&what, u, at); seen(&*u, &what) }
                4 => { let u = nopanic(&what, || G::apply(NonNull::new_unchecked(p))); same::<T, _>(&what, u.as_ptr(), at); seen(u.as_ref(), &what) }
                5 => { let u: Pin<&mut G::U> = nopanic(&what, || G::apply(Pin::new_unchecked(&mut *p))); same::<T, _>(&what, &*u, at); seen(&u, &what) }
                6 => {
                    let m = memory();
                    let u: Uninit<'static, G::U> = nopanic(&what, || G::apply(m));
                    same::<T, _>(&what, u.as_ptr(), at);
                    check!(u.size() == total, "{what}: covers {} bytes", u.size());
                    seen(u.as_ref(), &what);
                    let back: Uninit<'static, ()> = u.as_memory();
                    check!(back.as_ptr() as usize == at && back.size() == total, "{what}: the memory behind it is another one");
                }
                7 => {
                    let m: UninitView<'static, T> = memory().into();
                    let u: UninitView<'static, G::U> = nopanic(&what, || G::apply(m));
                    same::<T, _>(&what, u.as_ptr(), at);
                    check!(u.size() == total, "{what}: covers {} bytes", u.size());
                    seen(u.as_ref(), &what);
                }
                _ => {
                    let m = memory();
                    let b = Pin::new_unchecked(without_alloc::Box::from_raw(m));
                    let u = nopanic(&what, || galloc::tracked(|| G::apply(b)));
                    same::<T, _>(&what, &*u, at);
                    seen(&u, &what);
                    drop(nopanic(&what, || u));
                    if T::Elem::ZST { zst += T::N } else { dropped.extend(&ids) }
                    audit(&what, &dropped, zst);
                    p.write(T::new());
                    ids = (*p).ids();
                }
            }
        }
        audit(&what, &dropped, zst);
        check!(region.intact(), "{what}: memory around the value was written");
    }
    ctx.outcome(&dropped);
    unsafe { p.drop_in_place() }
}

/// Pointers that must not be dereferenced: null, dangling, misaligned, in other memory.
fn invalid<T: Val, G: Target<T>>(ctx: &mut Ctx) {
    let a = ctx.pick(&[0usize, 1, align_of::<T>(), 0x1000, 0x1001, usize::MAX, usize::MAX - 15, 1 << 63, 0xdead_beef]);
    let k = ctx.choose(3);
    if k == 2 && a == 0 { return }
    let what = format!("{} of the {} {a:#x}", G::NAME, ["*const T", "*mut T", "NonNull"][k]);
    ctx.op(|| what.clone());
    match k {
        0 => same::<T, G::U>(&what, nopanic(&what, || G::apply(a as *const T)), a),
        1 => same::<T, G::U>(&what, nopanic(&what, || G::apply(a as *mut T)), a),
        _ => same::<T, G::U>(&what, nopanic(&what, || G::apply(NonNull::new(a as *mut T).unwrap())).as_ptr(), a),
    }
    ctx.outcome(&(a, k));
}

/// Owned boxes on the heap.
fn boxed<T: Val, G: Target<T>>(ctx: &mut Ctx) {
    enum H<T, U: ?Sized> { B(Box<T>), D(Box<U>), P(Pin<Box<U>>) }
    galloc::reset();
    let mut h: H<T, G::U> = { let v = T::new(); H::B(galloc::tracked(|| Box::new(v))) };
    let (mut ids, at) = match &h { H::B(b) => (b.ids(), addr(&**b)), _ => unreachable!() };
    let (mut dropped, mut zst): (Vec<u32>, usize) = (vec![], 0);
    let live = galloc::live();
    for _ in 0..ctx.depth {
        let what;
        h = match h {
            H::B(mut b) => {
                let k = ctx.choose(3);
                what = ["unsize Box", "unsize Pin<Box>", "*box = new value"][k];
                ctx.op(|| format!("{what}: {}", G::NAME));
                match k {
                    0 => H::D(nopanic(what, || galloc::tracked(|| G::apply(b)))),
                    1 => H::P(nopanic(what, || galloc::tracked(|| G::apply(Box::into_pin(b))))),
                    _ => { let n = T::new(); let new = n.ids(); *b = n; if T::Elem::ZST { zst += T::N } else { dropped.extend(&ids) } ids = new; H::B(b) }
                }
            }
            H::D(d) => {
                let k = ctx.choose(3);
                what = ["back to Box<T>", "pin", "leak and restore"][k];
                ctx.op(|| what.to_string());
                match k {
                    0 => H::B(unsafe { Box::from_raw(Box::into_raw(d) as *mut T) }),
                    1 => H::P(Box::into_pin(d)),
                    _ => H::D(unsafe { Box::from_raw(Box::leak(d)) }),
                }
            }
            H::P(p) => { what = "unpin"; ctx.op(|| what.to_string()); H::D(unsafe { Pin::into_inner_unchecked(p) }) }
        };
        let (i, a): (Vec<u32>, usize) = match &h {
            H::B(b) => (b.ids(), addr(&**b)),
            H::D(d) => { same::<T, _>(what, &**d, at); (G::ids(d), addr(&**d)) }
            H::P(d) => { same::<T, _>(what, &**d, at); (G::ids(d), addr(&**d)) }
        };
        check!(i == ids && a == at, "{what}: holds {i:?} at {a:#x}, expected {ids:?} at {at:#x}");
        check!(galloc::live() == live, "{what}: {} heap blocks instead of {live}", galloc::live());
        audit(what, &dropped, zst);
    }
    let k = match &h { H::B(_) => 0, H::D(_) => 1, H::P(_) => 2 };
    ctx.outcome(&(k, &dropped));
    drop(h);
    if T::Elem::ZST { zst += T::N } else { dropped.extend(&ids) }
    audit("final drop", &dropped, zst);
    check!(galloc::live() == 0, "final drop: heap block not released");
    galloc::check_zones();
}

macro_rules! counted {
    ($fname:ident, $Rc:ident, $Weak:ident) => {
        /// Shared owners: strong and weak handles, sized and unsized, in any mixture.
        fn $fname<T: Val, G: Target<T>>(ctx: &mut Ctx, max: usize, prune: bool) {
            enum H<T, U: ?Sized> { S(Option<$Rc<T>>), D(Option<$Rc<U>>), W(Option<$Weak<T>>), WD(Option<$Weak<U>>), N(Option<$Weak<T>>), ND(Option<$Weak<U>>) }
            impl<T, U: ?Sized> H<T, U> { fn kind(&self) -> u8 { match self { H::S(_) => 0, H::D(_) => 1, H::W(_) => 2, H::WD(_) => 3, H::N(_) => 4, H::ND(_) => 5 } } }
            galloc::reset();
            let v = T::new(); let first = galloc::tracked(|| $Rc::new(v));
            let (ids, at) = (first.ids(), addr(&*first));
            let mut hs: Vec<H<T, G::U>> = vec![H::S(Some(first))];
            if ctx.flag() { hs.push(H::N(Some($Weak::new()))) }
            let mut alive = true;
            let (mut dropped, mut zst): (Vec<u32>, usize) = (vec![], 0);
            let name = stringify!($Rc);
            for i in 0..ctx.depth {
                if hs.is_empty() { break }
                let kinds: Vec<u8> = hs.iter().map(|h| h.kind()).collect();
                if prune { let mut k = kinds.clone(); k.sort(); if !ctx.visit(&(k, alive), ctx.depth - i) { break } } else { ctx.note(&(&kinds, alive)); if ctx.skipped() { break } }
                let k = ctx.choose(hs.len());
                let room = hs.len() < max;
                // 0 drop, 1 unsize or back to the sized type, 2 clone, 3 downgrade or upgrade, 4 through raw
                let o = ctx.choose(5);
                if !room && (o == 2 || o == 3) { break }
                let what = format!("{} of a {} handle", ["drop", "conversion", "clone", "downgrade/upgrade", "into_raw and from_raw"][o], ["strong", "strong unsized", "weak", "weak unsized", "empty weak", "empty weak unsized"][hs[k].kind() as usize]);
                ctx.op(|| format!("{name}, {}: {what}", G::NAME));
                match o {
                    0 => { drop(nopanic(&what, || hs.swap_remove(k))); }
                    1 => match &mut hs[k] {
                        H::S(x) => { let x = x.take().unwrap(); hs[k] = H::D(Some(nopanic(&what, || galloc::tracked(|| G::apply(x))))) }
                        H::D(x) => { let x = $Rc::into_raw(x.take().unwrap()) as *const T; hs[k] = H::S(Some(unsafe { $Rc::from_raw(x) })) }
                        H::W(x) => { let x = x.take().unwrap(); hs[k] = H::WD(Some(nopanic(&what, || galloc::tracked(|| G::apply(x))))) }
                        H::WD(x) => { let x = $Weak::into_raw(x.take().unwrap()) as *const T; hs[k] = H::W(Some(unsafe { $Weak::from_raw(x) })) }
                        H::N(x) => { let x = x.take().unwrap(); let before = addr(x.as_ptr()); let d: $Weak<G::U> = nopanic(&what, || galloc::tracked(|| G::apply(x))); same::<T, _>(&what, d.as_ptr(), before); hs[k] = H::ND(Some(d)) }
                        H::ND(x) => { let x = $Weak::into_raw(x.take().unwrap()) as *const T; hs[k] = H::N(Some(unsafe { $Weak::from_raw(x) })) }
                    },
                    2 => { let n = match &hs[k] { H::S(x) => H::S(x.clone()), H::D(x) => H::D(x.clone()), H::W(x) => H::W(x.clone()), H::WD(x) => H::WD(x.clone()), H::N(x) => H::N(x.clone()), H::ND(x) => H::ND(x.clone()) }; hs.push(n) }
                    3 => {
                        let n = match &hs[k] {
                            H::S(Some(x)) => Some(H::W(Some($Rc::downgrade(x)))),
                            H::D(Some(x)) => Some(H::WD(Some($Rc::downgrade(x)))),
                            H::W(Some(x)) => { let u = x.upgrade(); check!(u.is_some() == alive, "{what}: gives {} while the value is {}", u.is_some(), if alive { "alive" } else { "gone" }); u.map(|u| H::S(Some(u))) }
                            H::WD(Some(x)) => { let u = x.upgrade(); check!(u.is_some() == alive, "{what}: gives {} while the value is {}", u.is_some(), if alive { "alive" } else { "gone" }); u.map(|u| H::D(Some(u))) }
                            H::N(Some(x)) => { check!(x.upgrade().is_none(), "{what}: succeeds"); None }
                            H::ND(Some(x)) => { check!(x.upgrade().is_none(), "{what}: succeeds"); None }
                            _ => unreachable!(),
                        };
                        hs.extend(n);
                    }
                    _ => match &mut hs[k] {
                        H::S(x) => *x = Some(unsafe { $Rc::from_raw($Rc::into_raw(x.take().unwrap())) }),
                        H::D(x) => *x = Some(unsafe { $Rc::from_raw($Rc::into_raw(x.take().unwrap())) }),
                        H::W(x) | H::N(x) => *x = Some(unsafe { $Weak::from_raw($Weak::into_raw(x.take().unwrap())) }),
                        H::WD(x) | H::ND(x) => *x = Some(unsafe { $Weak::from_raw($Weak::into_raw(x.take().unwrap())) }),
                    },
                }
                // counts, contents, addresses
                let strong = hs.iter().filter(|h| h.kind() < 2).count();
                let weak = hs.iter().filter(|h| h.kind() == 2 || h.kind() == 3).count();
                if alive && strong == 0 { alive = false; if T::Elem::ZST { zst += T::N } else { dropped.extend(&ids) } }
                audit(&what, &dropped, zst);
                for h in &hs {
                    let (s, w) = match h {
                        H::S(Some(x)) => { check!(x.ids() == ids && addr(&**x) == at, "{what}: strong handle sees {:?} at {:#x}", x.ids(), addr(&**x)); ($Rc::strong_count(x), $Rc::weak_count(x)) }
                        H::D(Some(x)) => { same::<T, _>(&what, &**x, at); check!(G::ids(x) == ids, "{what}: unsized handle sees {:?} instead of {ids:?}", G::ids(x)); ($Rc::strong_count(x), $Rc::weak_count(x)) }
                        H::W(Some(x)) => { check!(addr(x.as_ptr()) == at, "{what}: weak handle points to {:?}", x.as_ptr()); (x.strong_count(), if strong == 0 { weak } else { x.weak_count() }) }
                        H::WD(Some(x)) => { same::<T, _>(&what, x.as_ptr(), at); (x.strong_count(), if strong == 0 { weak } else { x.weak_count() }) }
                        H::N(Some(x)) => { check!(x.strong_count() == 0 && x.weak_count() == 0, "{what}: an empty weak handle counts"); (strong, weak) }
                        H::ND(Some(x)) => { check!(x.strong_count() == 0 && x.weak_count() == 0, "{what}: an empty weak handle counts"); (strong, weak) }
                        _ => unreachable!(),
                    };
                    check!(s == strong && w == weak, "{what}: counts are {s} and {w}, there are {strong} strong and {weak} weak handles");
                }
                let live = galloc::live();
                check!(live == (strong + weak > 0) as usize, "{what}: {live} heap blocks with {strong} strong and {weak} weak handles");
            }
            ctx.outcome(&(hs.iter().map(|h| h.kind()).collect::<Vec<_>>(), alive));
            let had = alive;
            drop(hs);
            if had { if T::Elem::ZST { zst += T::N } else { dropped.extend(&ids) } }
            audit("dropping all handles", &dropped, zst);
            check!(galloc::live() == 0, "dropping all handles: the heap block was not released");
            galloc::check_zones();
        }
    };
}
counted!(rc, Rc, WeakRc);
counted!(arc, Arc, WeakArc);

/// The coercions to functions, iterators, futures, display.
fn calls(ctx: &mut Ctx) {
    galloc::reset();
    let t = if ctx.flag() { Some(Tok::new()) } else { None };
    let id = t.as_ref().map_or(7, |t| t.id());
    let zero = t.is_none();
    let which = ctx.choose(12);
    let how = ctx.choose(3);
    let what = format!("{} behind {}{}", ["Fn()", "Fn(A)", "Fn(A, B)", "Fn x 3", "Fn x 4", "Fn x 5", "Fn x 6", "FnMut", "FnOnce", "Iterator", "Future", "Display"][which], ["Box", "Rc", "Pin<Box>"][how], if zero { " (captures nothing)" } else { "" });
    ctx.op(|| what.clone());
    macro_rules! go { ($v:expr, $co:ident, $dyn:ty, |$b:ident| $use:expr) => {{
        let v = $v;
        let sz = std::mem::size_of_val(&v);
        match how {
            0 => { let b = galloc::tracked(|| Box::new(v)); let at = addr(&*b); #[allow(unused_mut)] let mut $b: Box<$dyn> = nopanic(&what, || galloc::tracked(|| b.unsize(Coercion::<_, $dyn>::$co()))); check!(addr(&*$b) == at && std::mem::size_of_val(&*$b) == sz, "{what}: wrong pointer"); $use }
            1 => { let b = galloc::tracked(|| Rc::new(v)); let at = addr(&*b); #[allow(unused_mut)] let mut r: Rc<$dyn> = nopanic(&what, || galloc::tracked(|| b.unsize(Coercion::<_, $dyn>::$co()))); check!(addr(&*r) == at && std::mem::size_of_val(&*r) == sz, "{what}: wrong pointer"); #[allow(unused_variables)] let $b = unsafe { &mut *(Rc::as_ptr(&r) as *mut $dyn) }; $use }
            _ => { let b = galloc::tracked(|| Box::pin(v)); let at = addr(&*b); let p: Pin<Box<$dyn>> = nopanic(&what, || galloc::tracked(|| b.unsize(Coercion::<_, $dyn>::$co()))); check!(addr(&*p) == at && std::mem::size_of_val(&*p) == sz, "{what}: wrong pointer"); #[allow(unused_mut)] let mut $b: Box<$dyn> = unsafe { Pin::into_inner_unchecked(p) }; $use }
        }
    }} }
    fn want(what: &str, got: u32, want: u32) { check!(got == want, "{what}: the call gives {got}, expected {want}") }
    let cap = move |x: u32| { let _k = &t; x };
    match which {
        0 => go!(move || { cap(id) }, to_fn, dyn Fn() -> u32, |f| want(&what, f(), id)),
        1 => go!(move |a: u32| { cap(id) + a }, to_fn, dyn Fn(u32) -> u32, |f| want(&what, f(1), id + 1)),
        2 => go!(move |a: u32, b: u8| { cap(id) + a + b as u32 }, to_fn, dyn Fn(u32, u8) -> u32, |f| want(&what, f(10, 2), id + 12)),
        3 => go!(move |a: u32, b: u8, c: u64| { cap(id) + a + b as u32 + c as u32 }, to_fn, dyn Fn(u32, u8, u64) -> u32, |f| want(&what, f(10, 2, 100), id + 112)),
        4 => go!(move |a: u32, b: u8, c: u64, d: u16| { cap(id) + a + b as u32 + c as u32 + d as u32 }, to_fn, dyn Fn(u32, u8, u64, u16) -> u32, |f| want(&what, f(10, 2, 100, 1000), id + 1112)),
        5 => go!(move |a: u32, b: u8, c: u64, d: u16, e: i8| { cap(id) + a + b as u32 + c as u32 + d as u32 + e as u32 }, to_fn, dyn Fn(u32, u8, u64, u16, i8) -> u32, |f| want(&what, f(10, 2, 100, 1000, 5), id + 1117)),
        6 => go!(move |a: u32, b: u8, c: u64, d: u16, e: i8, g: usize| { cap(id) + a + b as u32 + c as u32 + d as u32 + e as u32 + g as u32 }, to_fn, dyn Fn(u32, u8, u64, u16, i8, usize) -> u32, |f| want(&what, f(10, 2, 100, 1000, 5, 7), id + 1124)),
        7 => { let mut n = 0; go!(move |a: u32| { n += a; cap(id) + n }, to_fn_mut, dyn FnMut(u32) -> u32, |f| { want(&what, f(1), id + 1); want(&what, f(2), id + 3) }) }
        8 => match how {
            1 => drop(cap),
            _ => { let b: Box<dyn FnOnce(u32) -> u32> = { let v = move |a: u32| { cap(id) + a }; galloc::tracked(|| Box::new(v)) }.unsize(Coercion::<_, dyn FnOnce(u32) -> u32>::to_fn_once()); want(&what, b(3), id + 3) }
        },
        9 => go!((0..3u32).map(move |i| cap(id) + i), to_iterator, dyn Iterator<Item = u32>, |f| { for i in 0..3 { check!(f.next() == Some(id + i), "{what}: item {i}") } check!(f.next().is_none(), "{what}: more items") }),
        10 => go!(std::future::poll_fn(move |_| std::task::Poll::Ready(cap(id))), to_future, dyn std::future::Future<Output = u32>, |f| {
            let mut c = std::task::Context::from_waker(std::task::Waker::noop());
            match unsafe { Pin::new_unchecked(&mut *f) }.poll(&mut c) { std::task::Poll::Ready(x) => want(&what, x, id), _ => mcx::fail!("{what}: pending") }
        }),
        _ => {
            struct D<F: Fn(u32) -> u32>(F, u32);
            impl<F: Fn(u32) -> u32> Display for D<F> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "<{}>", (self.0)(self.1)) } }
            go!(D(cap, id), to_display, dyn Display, |f| check!(format!("{f}") == format!("<{id}>"), "{what}: shows {f}"))
        }
    }
    let d = ledger::drop_ids();
    check!(d == if zero { vec![] } else { vec![id] }, "{what}: dropped values {d:?}");
    check!(galloc::live() == 0, "{what}: heap block not released");
    galloc::check_zones();
    ctx.outcome(&(which, how, zero));
}

fn add<T: Val, G: Target<T>>(v: &mut Vec<Scenario>, ty: &str, q: bool) {
    let g = G::NAME;
    v.push(Scenario::new(format!("{ty}, {g}: references, raw and pinned pointers, memory handles"), if q { 3 } else { 5 }, plain::<T, G>));
    v.push(Scenario::new(format!("{ty}, {g}: pointers to nowhere"), 1, invalid::<T, G>));
    v.push(Scenario::new(format!("{ty}, {g}: Box"), if q { 7 } else { 10 }, boxed::<T, G>));
    v.push(Scenario::new(format!("{ty}, {g}: Rc"), if q { 5 } else { 6 }, move |c| rc::<T, G>(c, 3, false)));
    v.push(Scenario::new(format!("{ty}, {g}: Arc"), if q { 5 } else { 6 }, move |c| arc::<T, G>(c, 3, false)));
    v.push(Scenario::new(format!("{ty}, {g}: Rc, pruned"), if q { 9 } else { 14 }, move |c| rc::<T, G>(c, if q { 4 } else { 5 }, true)));
    v.push(Scenario::new(format!("{ty}, {g}: Arc, pruned"), if q { 9 } else { 14 }, move |c| arc::<T, G>(c, if q { 4 } else { 5 }, true)));
}

fn add_few<T: Val, G: Target<T>>(v: &mut Vec<Scenario>, ty: &str, q: bool) {
    let g = G::NAME;
    v.push(Scenario::new(format!("{ty}, {g}: references, raw and pinned pointers, memory handles"), if q { 2 } else { 3 }, plain::<T, G>));
    v.push(Scenario::new(format!("{ty}, {g}: pointers to nowhere"), 1, invalid::<T, G>));
    v.push(Scenario::new(format!("{ty}, {g}: Box"), if q { 4 } else { 6 }, boxed::<T, G>));
    v.push(Scenario::new(format!("{ty}, {g}: Rc, pruned"), if q { 4 } else { 8 }, move |c| rc::<T, G>(c, 4, true)));
    v.push(Scenario::new(format!("{ty}, {g}: Arc, pruned"), if q { 4 } else { 8 }, move |c| arc::<T, G>(c, 4, true)));
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    for i in 0..7 {
        let n = VAL_NAMES[i];
        for_val!(i, V => {
            add::<V, ToDynamic>(&mut v, n, q);
            if i < 1 || !q { add::<V, ToMacro>(&mut v, n, q); add::<V, ToSafe>(&mut v, n, q); add::<V, ToAnyMacro>(&mut v, n, q); }
            if i < 1 || i == 6 || !q { add::<V, ToAny>(&mut v, n, q); add::<V, ToDebug>(&mut v, n, q); }
        });
        let n = ARR_NAMES[i];
        for_arr!(i, V => {
            add::<V, ToSlice>(&mut v, n, q);
            if i < 1 || !q { add::<V, ToSlicePtr>(&mut v, n, q); add::<V, ToDynamic>(&mut v, n, q); add::<V, ToAny>(&mut v, n, q); add::<V, ToDebug>(&mut v, n, q); }
        });
    }
    // longer arrays, larger alignments
    macro_rules! arrays { ($($n:literal)*) => { $( add_few::<[Tok; $n], ToSlice>(&mut v, concat!("array of ", $n), q); )* } }
    arrays! { 4 5 8 9 16 17 32 33 64 65 128 256 257 1025 }
    macro_rules! more { ($($t:ident $n:literal)*) => { $( add_few::<[ledger::$t; $n], ToSlice>(&mut v, concat!("array of ", $n, " ", stringify!($t)), q); )* } }
    more! { Tok32 8 Tok64 1025 Tok128 0 Tok128 9 Tiny 8 Tiny 31 Zst 65537 Zst16 256 }
    add_few::<ledger::Tok32, ToDynamic>(&mut v, "align 32", q);
    add_few::<ledger::Tok128, ToDynamic>(&mut v, "align 128", q);
    add_few::<ledger::Tok128, ToAny>(&mut v, "align 128", q);
    v.push(Scenario::new("functions, iterators, futures, display", 1, calls));
    let _ = Zst::make;
    v
}

fn main() {
    mcx::main(Meta {
        property: "P19",
        what: "every sequence of unsizing and using references, raw, non-null and pinned pointers, memory handles, Box, and any mixture of strong, weak and empty weak Rc/Arc handles, to trait objects and slices: address, size, alignment and value behind the result, reference counts, upgrades, drops, heap blocks with their layouts are compared with a model after each step; all function, iterator, future and display coercions; pointers to nowhere",
        bounds: "7 value types, 7 array types (size 0 to 64, alignment 1 to 64), 8 coercions (quick: a selection per type); counted pointers: 3 handles, all sequences of 5 (6) steps, 4 (5) handles and 9 (14) steps when pruned; Box: 7 (10) steps; plain pointers: 3 (5) steps; 25 further types (arrays of up to 1025 values, of up to 65537 zero-sized ones, alignment up to 128) with fewer steps",
        assumptions: &["pruned scenarios: the canonical state is the multiset of handle kinds and whether the value is alive"],
    }, scenarios)
}
