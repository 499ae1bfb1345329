//! Stands in for `core` inside of static-alloc when it is built with `--cfg static_alloc_mc`: everything
//! is re-exported, except that atomic operations report to the scheduler of the exploration before they
//! take effect. Without an installed callback they behave like the real ones.
#![no_std]
#![allow(deprecated, clippy::all)]
pub use ::core::*;

/// What the scheduler is told before and after an access; `spurious` decides whether a weak exchange that
/// could succeed fails spuriously.
#[derive(Clone, Copy)]
pub struct Hooks {
    pub before: fn(addr: usize, size: usize, kind: u8),
    pub spurious: fn() -> bool,
    pub after: fn(addr: usize, size: usize, kind: u8, old: u64, new: u64),
}
pub static mut HOOKS: Option<Hooks> = None;

pub const LOAD: u8 = 0;
pub const STORE: u8 = 1;
pub const RMW: u8 = 2;
pub const CAS: u8 = 3;
pub const WEAK: u8 = 4;
pub const FENCE: u8 = 5;
pub const SPIN: u8 = 6;

#[inline(never)]
fn before(addr: usize, size: usize, kind: u8) {
    if let Some(h) = unsafe { HOOKS } { (h.before)(addr, size, kind) }
}
#[inline(never)]
fn spurious() -> bool {
    match unsafe { HOOKS } { Some(h) => (h.spurious)(), None => false }
}
#[inline(never)]
fn after(addr: usize, size: usize, kind: u8, old: u64, new: u64) {
    if let Some(h) = unsafe { HOOKS } { (h.after)(addr, size, kind, old, new) }
}

pub mod hint {
    pub use ::core::hint::*;
    pub fn spin_loop() { super::before(0, 0, super::SPIN); }
}

pub mod sync {
    pub use ::core::sync::*;
    pub mod atomic {
        pub use ::core::sync::atomic::*;
        use crate::{after, before, spurious};
        use crate::{CAS, FENCE, LOAD, RMW, SPIN, STORE, WEAK};

        pub fn fence(_: Ordering) { before(0, 0, FENCE); }
        pub fn spin_loop_hint() { before(0, 0, SPIN); }

        const R: Ordering = Ordering::SeqCst;

        macro_rules! common {
            ($name:ident, $real:ty, $val:ty, [$($g:tt)*], |$v:ident| $to:expr) => {
                impl<$($g)*> $name<$($g)*> {
                    pub const fn new(v: $val) -> Self { Self(<$real>::new(v)) }
                    fn at(&self) -> usize { self as *const Self as usize }
                    const SIZE: usize = ::core::mem::size_of::<$real>();
                    fn word($v: $val) -> u64 { $to }
                    pub fn load(&self, _: Ordering) -> $val {
                        before(self.at(), Self::SIZE, LOAD);
                        let o = self.0.load(R);
                        after(self.at(), Self::SIZE, LOAD, Self::word(o), Self::word(o));
                        o
                    }
                    pub fn store(&self, v: $val, _: Ordering) {
                        before(self.at(), Self::SIZE, STORE);
                        let o = self.0.swap(v, R);
                        after(self.at(), Self::SIZE, STORE, Self::word(o), Self::word(v));
                    }
                    pub fn swap(&self, v: $val, _: Ordering) -> $val {
                        before(self.at(), Self::SIZE, RMW);
                        let o = self.0.swap(v, R);
                        after(self.at(), Self::SIZE, RMW, Self::word(o), Self::word(v));
                        o
                    }
                    fn cas(&self, e: $val, v: $val, kind: u8) -> Result<$val, $val> {
                        before(self.at(), Self::SIZE, kind);
                        let o = self.0.load(R);
                        if o == e && !(kind == WEAK && spurious()) {
                            self.0.store(v, R);
                            after(self.at(), Self::SIZE, kind, Self::word(o), Self::word(v));
                            Ok(o)
                        } else {
                            after(self.at(), Self::SIZE, kind, Self::word(o), Self::word(o));
                            Err(o)
                        }
                    }
                    pub fn compare_exchange(&self, e: $val, v: $val, _: Ordering, _: Ordering) -> Result<$val, $val> { self.cas(e, v, CAS) }
                    pub fn compare_exchange_weak(&self, e: $val, v: $val, _: Ordering, _: Ordering) -> Result<$val, $val> { self.cas(e, v, WEAK) }
                    pub fn compare_and_swap(&self, e: $val, v: $val, _: Ordering) -> $val { match self.cas(e, v, CAS) { Ok(x) => x, Err(x) => x } }
                    pub fn fetch_update(&self, s: Ordering, l: Ordering, mut f: impl FnMut($val) -> Option<$val>) -> Result<$val, $val> {
                        let mut p = self.load(l);
                        while let Some(n) = f(p) {
                            match self.compare_exchange_weak(p, n, s, l) { x @ Ok(_) => return x, Err(o) => p = o }
                        }
                        Err(p)
                    }
                    pub fn try_update(&self, s: Ordering, l: Ordering, f: impl FnMut($val) -> Option<$val>) -> Result<$val, $val> { self.fetch_update(s, l, f) }
                    pub fn update(&self, s: Ordering, l: Ordering, mut f: impl FnMut($val) -> $val) -> $val {
                        match self.fetch_update(s, l, |x| Some(f(x))) { Ok(x) => x, Err(x) => x }
                    }
                    pub fn get_mut(&mut self) -> &mut $val { self.0.get_mut() }
                    pub const fn into_inner(self) -> $val where $val: Copy { unsafe { ::core::mem::transmute_copy(&::core::mem::ManuallyDrop::new(self)) } }
                    pub const fn as_ptr(&self) -> *mut $val { self as *const Self as *mut $val }
                    pub const unsafe fn from_ptr<'a>(p: *mut $val) -> &'a Self { unsafe { &*(p as *const Self) } }
                    pub fn from_mut(v: &mut $val) -> &mut Self { unsafe { &mut *(v as *mut $val as *mut Self) } }
                    fn rmw(&self, f: impl FnOnce(&$real) -> $val) -> $val {
                        before(self.at(), Self::SIZE, RMW);
                        let o = f(&self.0);
                        after(self.at(), Self::SIZE, RMW, Self::word(o), Self::word(self.0.load(R)));
                        o
                    }
                }
                impl<$($g)*> ::core::ops::Deref for $name<$($g)*> { type Target = $real; fn deref(&self) -> &$real { &self.0 } }
                impl<$($g)*> ::core::fmt::Debug for $name<$($g)*> { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { ::core::fmt::Debug::fmt(&self.0, f) } }
                impl<$($g)*> From<$val> for $name<$($g)*> { fn from(v: $val) -> Self { Self::new(v) } }
            };
        }
        macro_rules! int {
            ($($name:ident $val:ident $align:literal)*) => { $(
                #[repr(C, align($align))]
                pub struct $name(::core::sync::atomic::$name);
                common!($name, ::core::sync::atomic::$name, $val, [], |v| v as u64);
                impl Default for $name { fn default() -> Self { Self::new(0) } }
                impl $name {
                    pub fn fetch_add(&self, v: $val, _: Ordering) -> $val { self.rmw(|a| a.fetch_add(v, R)) }
                    pub fn fetch_sub(&self, v: $val, _: Ordering) -> $val { self.rmw(|a| a.fetch_sub(v, R)) }
                    pub fn fetch_and(&self, v: $val, _: Ordering) -> $val { self.rmw(|a| a.fetch_and(v, R)) }
                    pub fn fetch_nand(&self, v: $val, _: Ordering) -> $val { self.rmw(|a| a.fetch_nand(v, R)) }
                    pub fn fetch_or(&self, v: $val, _: Ordering) -> $val { self.rmw(|a| a.fetch_or(v, R)) }
                    pub fn fetch_xor(&self, v: $val, _: Ordering) -> $val { self.rmw(|a| a.fetch_xor(v, R)) }
                    pub fn fetch_max(&self, v: $val, _: Ordering) -> $val { self.rmw(|a| a.fetch_max(v, R)) }
                    pub fn fetch_min(&self, v: $val, _: Ordering) -> $val { self.rmw(|a| a.fetch_min(v, R)) }
                }
            )* };
        }
        int!(AtomicUsize usize 8 AtomicIsize isize 8 AtomicU64 u64 8 AtomicI64 i64 8 AtomicU32 u32 4 AtomicI32 i32 4 AtomicU16 u16 2 AtomicI16 i16 2 AtomicU8 u8 1 AtomicI8 i8 1);

        #[repr(C)]
        pub struct AtomicBool(::core::sync::atomic::AtomicBool);
        common!(AtomicBool, ::core::sync::atomic::AtomicBool, bool, [], |v| v as u64);
        impl Default for AtomicBool { fn default() -> Self { Self::new(false) } }
        impl AtomicBool {
            pub fn fetch_and(&self, v: bool, _: Ordering) -> bool { self.rmw(|a| a.fetch_and(v, R)) }
            pub fn fetch_nand(&self, v: bool, _: Ordering) -> bool { self.rmw(|a| a.fetch_nand(v, R)) }
            pub fn fetch_or(&self, v: bool, _: Ordering) -> bool { self.rmw(|a| a.fetch_or(v, R)) }
            pub fn fetch_xor(&self, v: bool, _: Ordering) -> bool { self.rmw(|a| a.fetch_xor(v, R)) }
            pub fn fetch_not(&self, _: Ordering) -> bool { self.rmw(|a| a.fetch_xor(true, R)) }
        }

        #[repr(C)]
        pub struct AtomicPtr<T>(::core::sync::atomic::AtomicPtr<T>);
        common!(AtomicPtr, ::core::sync::atomic::AtomicPtr<T>, *mut T, [T], |v| v as usize as u64);
        impl<T> Default for AtomicPtr<T> { fn default() -> Self { Self::new(::core::ptr::null_mut()) } }
    }
}
