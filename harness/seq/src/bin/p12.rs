//! Reachability of all handles on a piece of uninitialised memory.
use mcx::ctx::nopanic;
use mcx::driver::Meta;
use mcx::mem::Region;
use mcx::{check, Ctx, Scenario, Tier};
use seq::for_type;
use seq::vals::*;
use std::alloc::Layout;
use std::mem::{align_of, size_of, MaybeUninit};
use std::ptr::NonNull;
use without_alloc::uninit::UninitView;
use without_alloc::Uninit;

/// What the model knows about a handle: its kind and its bytes relative to the region.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Kind { One(usize), Slice(usize) }
const UNIT: usize = 11;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Model { mutable: bool, kind: Kind, off: usize, len: usize }

/// Observations on a handle.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Info { addr: usize, addr2: usize, size: usize, bytes: usize, meta: Option<usize>, begin: Option<usize>, cap: Option<usize>, debug: String, fits: Vec<bool> }

#[derive(Clone, Copy, Debug)]
enum Op { SplitAtByte(usize), SplitLayout(Layout), SplitCast(usize), SplitSlice(usize), Cast(usize), CastSlice(usize), SplitToFit, SplitAt(usize), Shrink, First, Last, AsMemory, Borrow, BorrowMut, View, FromView, FromViewUnsafe }

/// The remaining handle (if not consumed) and the part split off or the converted handle.
struct Res { rest: Option<Box<dyn Handle>>, part: Option<Box<dyn Handle>> }

trait Handle {
    fn info(&self) -> Info;
    fn apply(self: Box<Self>, op: Op) -> Res;
    /// Use the memory: returns (address, number) of bytes that were set to the value, or that can be read.
    fn write(self: Box<Self>, v: u8, how: usize) -> (usize, usize);
}

struct U<T: 'static>(Uninit<'static, T>);
struct S<T: 'static>(Uninit<'static, [T]>);
struct VU<T: 'static>(UninitView<'static, T>);
struct VS<T: 'static>(UninitView<'static, [T]>);

fn bx<H: Handle + 'static>(h: H) -> Box<dyn Handle> { Box::new(h) }
const LAYOUTS: &[(usize, usize)] = &[(0, 1), (1, 1), (3, 1), (0, 2), (2, 2), (5, 2), (8, 8), (0, 8), (9, 8), (0, 16), (7, 16), (1, 32), (0, 64), (64, 64), (1, 4096), (4096, 4096), (0, 65536), (65536, 65536), (70001, 1)];
fn layout(i: usize) -> Layout { Layout::from_size_align(LAYOUTS[i].0, LAYOUTS[i].1).unwrap() }

/// A second handle on the same memory for a conversion that borrows; the first is not used meanwhile.
unsafe fn long<'a, T: ?Sized>(x: &mut T) -> &'a mut T { &mut *(x as *mut T) }

fn split<A: Handle + 'static, B: Handle + 'static>(a: A, b: Option<B>) -> Res { Res { rest: Some(bx(a)), part: b.map(bx) } }
fn conv<A: Handle + 'static, B: Handle + 'static>(r: Result<A, B>) -> Res { match r { Ok(a) => Res { rest: None, part: Some(bx(a)) }, Err(b) => Res { rest: Some(bx(b)), part: None } } }

macro_rules! common_info { ($h:expr, $T:ty) => { Info {
    addr: $h.as_ptr() as *const u8 as usize, addr2: $h.as_non_null().as_ptr() as *const u8 as usize, size: $h.size(), bytes: $h.byte_capacity(), meta: None, begin: None, cap: None,
    debug: format!("{:?}", $h), fits: (0..LAYOUTS.len()).map(|i| $h.fits(layout(i))).collect(),
} } }

// The operations which exist only for untyped memory.
macro_rules! unit_ops { ($U:ident, $S:ident, $h:expr, $op:expr) => { {
    let h = $h as *mut _ as *mut _;
    match $op {
        Op::SplitLayout(l) => { let h: &mut $U<()> = unsafe { &mut *h }; let p = h.0.split_layout(l); Some(p.map(|p| bx($U(p)))) }
        Op::SplitCast(t) => { let h: &mut $U<()> = unsafe { &mut *h }; Some(for_type!(t, V => h.0.split_cast::<V>().map(|p| bx($U(p))))) }
        Op::SplitSlice(t) => { let h: &mut $U<()> = unsafe { &mut *h }; Some(for_type!(t, V => h.0.split_slice::<V>().map(|p| bx($S(p))))) }
        _ => None,
    }
} } }

impl<T: Copy + 'static> Handle for U<T> {
    fn info(&self) -> Info { common_info!(self.0, T) }
    fn apply(self: Box<Self>, op: Op) -> Res {
        let mut s = *self;
        if std::any::TypeId::of::<T>() == std::any::TypeId::of::<()>() {
            // The caller asks for these operations only for untyped memory; the handle stays in place.
            let r = unit_ops!(U, S, &mut s, op);
            if let Some(part) = r { return Res { rest: Some(bx(s)), part } }
        }
        match op {
            Op::SplitAtByte(n) => { let p = s.0.split_at_byte(n); split(s, p.map(U)) }
            Op::SplitToFit => { let p = s.0.split_to_fit(); split(s, Some(U(p))) }
            Op::Cast(t) => for_type!(t, V => conv(s.0.cast::<V>().map(U).map_err(U))),
            Op::CastSlice(t) => for_type!(t, V => conv(s.0.cast_slice::<V>().map(S).map_err(U))),
            Op::AsMemory => conv::<_, U<T>>(Ok(U(s.0.as_memory()))),
            Op::Borrow => { let b = unsafe { long(&mut s) }.0.borrow(); split(s, Some(VU(b))) }
            Op::BorrowMut => { let b = unsafe { long(&mut s) }.0.borrow_mut(); split(s, Some(U(b))) }
            Op::View => conv::<_, U<T>>(Ok(VU(UninitView::from(s.0)))),
            Op::FromViewUnsafe => { let v: UninitView<T> = s.0.into(); conv::<_, U<T>>(Ok(U(unsafe { Uninit::from_view(v) }))) }
            _ => unreachable!(),
        }
    }
    fn write(self: Box<Self>, v: u8, how: usize) -> (usize, usize) {
        let val: T = unsafe { let mut m = MaybeUninit::<T>::uninit(); std::ptr::write_bytes(m.as_mut_ptr() as *mut u8, v, size_of::<T>()); m.assume_init() };
        let p = match how {
            0 => self.0.init(val) as *mut T,
            1 => self.0.into_maybe_uninit().write(val) as *mut T,
            2 => { let b = self.0.into_box(val); let p = &*b as *const T as *mut T; let (back, raw) = without_alloc::Box::take(b); let _ = raw; check!(unsafe { same(&back, v) }, "the value in a box differs from the one put in"); p }
            _ => unsafe { let p = self.0.as_ptr(); p.write(val); let r: &T = self.0.as_ref(); check!(r as *const T == p && same(r, v) && same(&self.0.read(), v), "as_ref or read show other bytes"); let q = self.0.into_mut() as *mut T; check!(q == p, "into_mut moved"); q },
        };
        (p as usize, size_of::<T>())
    }
}
unsafe fn same<T>(t: &T, v: u8) -> bool { std::slice::from_raw_parts(t as *const T as *const u8, size_of::<T>()).iter().all(|b| *b == v) }

impl<T: Copy + 'static> Handle for S<T> {
    fn info(&self) -> Info {
        let mut i = common_info!(self.0, T);
        i.meta = Some(self.0.as_ptr().len());
        if self.0.as_non_null().len() != self.0.as_ptr().len() { i.meta = Some(usize::MAX - 1) }
        i.begin = Some(self.0.as_begin_ptr() as usize);
        i.cap = Some(self.0.capacity());
        i
    }
    fn apply(self: Box<Self>, op: Op) -> Res {
        let mut s = *self;
        match op {
            Op::SplitAt(n) => { let p = s.0.split_at(n); split(s, p.map(S)) }
            Op::Shrink => { let p = s.0.shrink_to_fit(); split(s, Some(U(p))) }
            Op::First => { let p = s.0.split_first(); split(s, p.map(U)) }
            Op::Last => { let p = s.0.split_last(); split(s, p.map(U)) }
            Op::AsMemory => conv::<_, S<T>>(Ok(U(s.0.as_memory()))),
            Op::Borrow => { let b = unsafe { long(&mut s) }.0.borrow(); split(s, Some(VS(b))) }
            Op::BorrowMut => { let b = unsafe { long(&mut s) }.0.borrow_mut(); split(s, Some(S(b))) }
            _ => unreachable!(),
        }
    }
    fn write(self: Box<Self>, v: u8, how: usize) -> (usize, usize) {
        if size_of::<T>() == 0 { return (self.0.as_begin_ptr() as usize, 0) }
        let (p, n) = match how {
            0 => { let m = self.0.into_maybe_uninit_slice(); (m.as_mut_ptr() as *mut u8, m.len()) }
            // The pointer to the whole slice.
            _ => { let m = self.0.as_ptr(); (m as *mut u8, m.len()) }
        };
        unsafe { std::ptr::write_bytes(p, v, n * size_of::<T>()) };
        (p as usize, n * size_of::<T>())
    }
}

impl<T: Copy + 'static> Handle for VU<T> {
    fn info(&self) -> Info { common_info!(self.0, T) }
    fn apply(self: Box<Self>, op: Op) -> Res {
        let mut s = *self;
        if std::any::TypeId::of::<T>() == std::any::TypeId::of::<()>() {
            let r = unit_ops!(VU, VS, &mut s, op);
            if let Some(part) = r { return Res { rest: Some(bx(s)), part } }
        }
        match op {
            Op::SplitAtByte(n) => { let p = s.0.split_at_byte(n); split(s, p.map(VU)) }
            Op::SplitToFit => { let p = s.0.split_to_fit(); split(s, Some(VU(p))) }
            Op::Cast(t) => for_type!(t, V => conv(s.0.cast::<V>().map(VU).map_err(VU))),
            Op::CastSlice(t) => for_type!(t, V => conv(s.0.cast_slice::<V>().map(VS).map_err(VU))),
            Op::Borrow => { let b = unsafe { long(&mut s) }.0.borrow(); split(s, Some(VU(b))) }
            Op::FromView => conv::<_, VU<T>>(Ok(U(unsafe { Uninit::from_view(s.0) }))),
            _ => unreachable!(),
        }
    }
    fn write(self: Box<Self>, v: u8, how: usize) -> (usize, usize) {
        // Only reads: all bytes of the region hold the same value.
        unsafe { match how {
            0 => { let m = self.0.into_maybe_uninit(); check!(same(m, v), "view shows other bytes"); (m as *const _ as usize, size_of::<T>()) }
            1 => { let r = self.0.as_ref(); check!(same(r, v), "view shows other bytes"); (r as *const T as usize, size_of::<T>()) }
            _ => { let r = self.0.into_ref(); check!(same(r, v), "view shows other bytes"); (r as *const T as usize, size_of::<T>()) }
        } }
    }
}

impl<T: Copy + 'static> Handle for VS<T> {
    fn info(&self) -> Info {
        let mut i = common_info!(self.0, T);
        i.meta = Some(self.0.as_ptr().len());
        if self.0.as_non_null().len() != self.0.as_ptr().len() { i.meta = Some(usize::MAX - 1) }
        i.begin = Some(self.0.as_begin_ptr() as usize);
        i.cap = Some(self.0.capacity());
        i
    }
    fn apply(self: Box<Self>, op: Op) -> Res {
        let mut s = *self;
        match op {
            Op::SplitAt(n) => { let p = s.0.split_at(n); split(s, p.map(VS)) }
            Op::Shrink => { let p = s.0.shrink_to_fit(); split(s, Some(VU(p))) }
            Op::First => { let p = s.0.split_first(); split(s, p.map(VU)) }
            Op::Last => { let p = s.0.split_last(); split(s, p.map(VU)) }
            Op::Cast(t) => for_type!(t, V => conv(s.0.cast::<V>().map(VU).map_err(VS))),
            Op::Borrow => { let b = unsafe { long(&mut s) }.0.borrow(); split(s, Some(VS(b))) }
            _ => unreachable!(),
        }
    }
    fn write(self: Box<Self>, v: u8, how: usize) -> (usize, usize) {
        if size_of::<T>() == 0 { return (self.0.as_begin_ptr() as usize, 0) }
        unsafe {
            let (p, n): (*const u8, usize) = match how {
                0 => { let m = self.0.into_maybe_uninit_slice(); (m.as_ptr() as *const u8, m.len()) }
                1 => { let m = self.0.as_ref(); (m.as_ptr() as *const u8, m.len()) }
                _ => { let m = self.0.into_ref(); (m.as_ptr() as *const u8, m.len()) }
            };
            // A wrong length shows up in the comparison with the model, do not read outside of it here.
            (p as usize, n.saturating_mul(size_of::<T>()))
        }
    }
}

struct Opts { types: &'static [usize], layouts: &'static [usize], bytes: bool }

fn ops(m: &Model, o: &Opts) -> Vec<Op> {
    let mut v = vec![];
    match m.kind {
        Kind::One(t) => {
            if t == UNIT {
                for l in o.layouts { v.push(Op::SplitLayout(layout(*l))) }
                v.push(Op::SplitLayout(Layout::from_size_align(m.len, 1).unwrap()));
                v.push(Op::SplitLayout(Layout::from_size_align(m.len + 1, 1).unwrap()));
                v.push(Op::SplitLayout(Layout::from_size_align(isize::MAX as usize, 1).unwrap()));
                v.push(Op::SplitLayout(Layout::from_size_align(1, 1 << 62).unwrap()));
                for t in o.types { v.push(Op::SplitCast(*t)); v.push(Op::SplitSlice(*t)); }
            }
            let sz = type_layout(t).size();
            if o.bytes && m.len > 700 { for n in seq::bumpseq::marks(m.len, false).into_iter().chain([m.len + 1, m.len + 2]) { v.push(Op::SplitAtByte(n)) } }
            else if o.bytes { for n in 0..=m.len + 2 { v.push(Op::SplitAtByte(n)) } }
            else { let mut c = vec![0, 1, 3, 4, 8, 16, sz, sz + 1, sz.saturating_sub(1), m.len / 2, m.len.saturating_sub(1), m.len, m.len + 1]; c.sort(); c.dedup(); for n in c { v.push(Op::SplitAtByte(n)) } }
            for n in [usize::MAX, usize::MAX / 2, isize::MAX as usize] { v.push(Op::SplitAtByte(n)) }
            v.push(Op::SplitToFit);
            for t in o.types { v.push(Op::Cast(*t)); v.push(Op::CastSlice(*t)); }
            v.push(Op::Borrow);
            if m.mutable { v.extend([Op::AsMemory, Op::BorrowMut, Op::View, Op::FromViewUnsafe]) } else { v.push(Op::FromView) }
        }
        Kind::Slice(t) => {
            let sz = type_layout(t).size();
            let cap = if sz == 0 { 4 } else { m.len / sz };
            if o.bytes && cap > 700 { for n in seq::bumpseq::marks(cap, false).into_iter().chain([cap + 1, cap + 2]) { v.push(Op::SplitAt(n)) } }
            else if o.bytes { for n in 0..=cap + 2 { v.push(Op::SplitAt(n)) } }
            else { let mut c = vec![0, 1, 2, cap / 2, cap.saturating_sub(1), cap, cap + 1]; c.sort(); c.dedup(); for n in c { v.push(Op::SplitAt(n)) } }
            for n in [usize::MAX, usize::MAX / 2 + 1, (usize::MAX / sz.max(1)).wrapping_add(1)] { v.push(Op::SplitAt(n)) }
            v.extend([Op::Shrink, Op::First, Op::Last, Op::Borrow]);
            if m.mutable { v.extend([Op::AsMemory, Op::BorrowMut]) } else { for t in o.types { v.push(Op::Cast(*t)) } }
        }
    }
    v
}

/// The reference: (the handle that stays, the new handle).
fn model(m: Model, op: Op, base: usize) -> (Option<Model>, Option<Model>) {
    let addr = base + m.off;
    let pad = |al: usize| ((addr as u128 + al as u128 - 1) / al as u128 * al as u128 - addr as u128) as usize;
    let with = |kind| Model { kind, ..m };
    // front keeps n bytes
    let cut = |n: usize, k: Kind| (Some(Model { len: n, ..m }), Some(Model { kind: k, off: m.off + n, len: m.len - n, ..m }));
    let (t, slice) = match m.kind { Kind::One(t) => (t, false), Kind::Slice(t) => (t, true) };
    let size = type_layout(t).size();
    let lay = |l: Layout, k: Kind| { let p = pad(l.align()); if p as u128 + l.size() as u128 <= m.len as u128 { cut(p, k) } else { (Some(m), None) } };
    let cast = |l: Layout, k: Kind| if pad(l.align()) == 0 && l.size() <= m.len { (None, Some(with(k))) } else { (Some(m), None) };
    let at = |n: usize| match n.checked_mul(size) { Some(b) if b <= m.len => Some(b), _ => None };
    match op {
        Op::SplitAtByte(n) => if n <= m.len && n >= size { cut(n, Kind::One(UNIT)) } else { (Some(m), None) },
        Op::SplitToFit => cut(size, Kind::One(UNIT)),
        Op::SplitLayout(l) => lay(l, Kind::One(UNIT)),
        Op::SplitCast(t) => lay(type_layout(t), Kind::One(t)),
        Op::SplitSlice(t) => lay(Layout::from_size_align(0, type_layout(t).align()).unwrap(), Kind::Slice(t)),
        Op::Cast(t) => cast(type_layout(t), Kind::One(t)),
        Op::CastSlice(t) => cast(Layout::from_size_align(0, type_layout(t).align()).unwrap(), Kind::Slice(t)),
        Op::SplitAt(n) => match at(n) { Some(b) => cut(b, m.kind), None => (Some(m), None) },
        Op::Shrink => cut(if size == 0 { 0 } else { m.len / size * size }, Kind::One(UNIT)),
        Op::First => match at(1) { Some(b) => { let (f, r) = cut(b, m.kind); (r, f.map(|f| Model { kind: Kind::One(t), ..f })) } None => (Some(m), None) },
        Op::Last => if size == 0 { cut(0, Kind::One(t)) } else if m.len / size == 0 { (Some(m), None) } else { cut((m.len / size - 1) * size, Kind::One(t)) },
        Op::AsMemory => (None, Some(with(Kind::One(UNIT)))),
        Op::Borrow => (Some(m), Some(Model { mutable: false, ..m })),
        Op::BorrowMut => (Some(m), Some(m)),
        Op::View => (None, Some(Model { mutable: false, ..m })),
        Op::FromView => (None, Some(Model { mutable: true, ..m })),
        Op::FromViewUnsafe => { let _ = slice; (None, Some(m)) }
    }
}

fn check_info(what: &str, i: &Info, m: &Model, base: usize) {
    let addr = base + m.off;
    check!(i.addr == addr, "{what}: handle points to byte {} instead of {}", i.addr as isize - base as isize, m.off);
    check!(i.addr2 == addr, "{what}: as_non_null and as_ptr differ");
    check!(i.size == m.len, "{what}: handle owns {} bytes, expected {}", i.size, m.len);
    check!(i.bytes == m.len, "{what}: byte_capacity is {} for {} bytes", i.bytes, m.len);
    for (k, f) in i.fits.iter().enumerate() {
        let l = layout(k);
        check!(*f == (addr % l.align() == 0 && l.size() <= m.len), "{what}: fits({l:?}) is {f} at address % 64 = {} with {} bytes", addr % 64, m.len);
    }
    let (t, slice) = match m.kind { Kind::One(t) => (t, false), Kind::Slice(t) => (t, true) };
    let l = type_layout(t);
    check!(addr % l.align() == 0, "{what}: handle for {} is misaligned", type_name(t));
    if !slice { check!(m.len >= l.size(), "{what}: handle too small for {}", type_name(t)) }
    if slice && l.size() > 0 {
        let n = m.len / l.size();
        check!(i.cap == Some(n), "{what}: capacity {:?} for {} bytes of {}", i.cap, m.len, type_name(t));
        check!(i.meta == Some(n), "{what}: slice pointer has length {:?} but the handle owns {n} elements", i.meta);
        check!(i.begin == Some(addr), "{what}: as_begin_ptr differs");
    }
    if slice && l.size() == 0 { check!(i.begin == Some(addr), "{what}: as_begin_ptr differs") }
}

#[derive(Clone, Copy, Debug)]
enum Start { Memory, MaybeUninit(usize), Slice(usize, usize), FromRef(usize), FromSliceRef(usize, usize), ViewMemory, ViewMaybeUninit(usize), ViewSlice(usize, usize), New(usize), ViewNew(usize) }

fn start(region: &Region, st: Start) -> (Box<dyn Handle>, Model) {
    let p = NonNull::new(region.ptr()).unwrap();
    let len = region.len();
    let m = |mutable, kind, len| Model { mutable, kind, off: 0, len };
    unsafe { match st {
        Start::Memory => (bx(U(Uninit::from_memory(p, len))), m(true, Kind::One(UNIT), len)),
        Start::ViewMemory => (bx(VU(UninitView::from_memory(p, len))), m(false, Kind::One(UNIT), len)),
        Start::MaybeUninit(t) => for_type!(t, V => (bx(U(Uninit::from_maybe_uninit(&mut *(p.as_ptr() as *mut MaybeUninit<V>)))), m(true, Kind::One(t), size_of::<V>()))),
        Start::FromRef(t) => for_type!(t, V => (bx(U(Uninit::from(&mut *(p.as_ptr() as *mut MaybeUninit<V>)))), m(true, Kind::One(t), size_of::<V>()))),
        Start::ViewMaybeUninit(t) => for_type!(t, V => (bx(VU(UninitView::from_maybe_uninit(&*(p.as_ptr() as *mut MaybeUninit<V>)))), m(false, Kind::One(t), size_of::<V>()))),
        Start::Slice(t, n) => for_type!(t, V => (bx(S(Uninit::from_maybe_uninit_slice(std::slice::from_raw_parts_mut(p.as_ptr() as *mut MaybeUninit<V>, n)))), m(true, Kind::Slice(t), n * size_of::<V>()))),
        Start::FromSliceRef(t, n) => for_type!(t, V => (bx(S(Uninit::from(std::slice::from_raw_parts_mut(p.as_ptr() as *mut MaybeUninit<V>, n)))), m(true, Kind::Slice(t), n * size_of::<V>()))),
        Start::ViewSlice(t, n) => for_type!(t, V => (bx(VS(UninitView::from(std::slice::from_raw_parts(p.as_ptr() as *const MaybeUninit<V>, n)))), m(false, Kind::Slice(t), n * size_of::<V>()))),
        Start::New(t) => for_type!(t, V => (bx(U(Uninit::new(p.cast::<V>(), len))), m(true, Kind::One(t), len))),
        Start::ViewNew(t) => for_type!(t, V => (bx(VU(UninitView::new(p.cast::<V>(), len))), m(false, Kind::One(t), len))),
    } }
}

const FILL: u8 = 0x3C;
const MARK: u8 = 0xE1;

/// Every handle on a part of the region and every operation on it.
fn all_states(ctx: &mut Ctx, off: usize, len: usize, o: &Opts) {
    let region = Region::new(off, len, FILL);
    let base = region.addr();
    let from = ctx.choose(len + 1);
    let size = ctx.choose(len + 1 - from);
    if ctx.skipped() { return }
    let mutable = ctx.flag();
    let addr = base + from;
    let mut kinds = vec![];
    for &t in o.types {
        let l = type_layout(t);
        if addr % l.align() != 0 { continue }
        if l.size() <= size { kinds.push(Kind::One(t)) }
        kinds.push(Kind::Slice(t));
    }
    let kind = ctx.pick(&kinds);
    let p = NonNull::new(addr as *mut u8).unwrap();
    let m = Model { mutable, kind, off: from, len: size };
    let built: Option<Box<dyn Handle>> = unsafe { match (mutable, kind) {
        (true, Kind::One(t)) => for_type!(t, V => Uninit::from_memory(p, size).cast::<V>().ok().map(|u| bx(U(u)))),
        (false, Kind::One(t)) => for_type!(t, V => UninitView::from_memory(p, size).cast::<V>().ok().map(|u| bx(VU(u)))),
        (true, Kind::Slice(t)) => for_type!(t, V => Uninit::from_memory(p, size).cast_slice::<V>().ok().map(|u| bx(S(u)))),
        (false, Kind::Slice(t)) => for_type!(t, V => UninitView::from_memory(p, size).cast_slice::<V>().ok().map(|u| bx(VS(u)))),
    } };
    let h = built.unwrap_or_else(|| mcx::fail!("cast to {kind:?} of {size} bytes at address % 64 = {} refused", addr % 64));
    ctx.op(|| format!("handle {m:?}, region at address % 64 = {}", base % 64));
    check_info("cast", &h.info(), &m, base);
    ctx.note(&m);
    step(ctx, &region, h, m, o);
}

/// A few handles on larger memory and every operation on them.
fn large(ctx: &mut Ctx, off: usize, len: usize, o: &Opts) {
    // beyond this size the memory is not touched
    let region = if len > 1 << 20 { Region::foreign(unsafe { seq::bumpseq::pages(len + off).add(off) }, len) } else { Region::new(off, len, FILL) };
    let base = region.addr();
    let from = ctx.pick(if len > 1 << 17 { &[0usize, 1, 8, 32, 4096, 65536] } else { &[0usize, 1, 8, 32] });
    let size = len - from - ctx.pick(&[0usize, 1, 7, 64, len / 2]);
    if ctx.skipped() { return }
    let mutable = ctx.flag();
    let addr = base + from;
    let mut kinds = vec![];
    for &t in o.types {
        if addr % type_layout(t).align() != 0 { continue }
        if type_layout(t).size() <= size { kinds.push(Kind::One(t)) }
        kinds.push(Kind::Slice(t));
    }
    let kind = ctx.pick(&kinds);
    let p = NonNull::new(addr as *mut u8).unwrap();
    let m = Model { mutable, kind, off: from, len: size };
    let built: Option<Box<dyn Handle>> = unsafe { match (mutable, kind) {
        (true, Kind::One(t)) => for_type!(t, V => Uninit::from_memory(p, size).cast::<V>().ok().map(|u| bx(U(u)))),
        (false, Kind::One(t)) => for_type!(t, V => UninitView::from_memory(p, size).cast::<V>().ok().map(|u| bx(VU(u)))),
        (true, Kind::Slice(t)) => for_type!(t, V => Uninit::from_memory(p, size).cast_slice::<V>().ok().map(|u| bx(S(u)))),
        (false, Kind::Slice(t)) => for_type!(t, V => UninitView::from_memory(p, size).cast_slice::<V>().ok().map(|u| bx(VS(u)))),
    } };
    let h = built.unwrap_or_else(|| mcx::fail!("cast to {kind:?} of {size} bytes at address % 64 = {} refused", addr % 64));
    ctx.op(|| format!("handle {m:?}, region at address % 64 = {}", base % 64));
    check_info("cast", &h.info(), &m, base);
    ctx.note(&m);
    step(ctx, &region, h, m, o);
}

fn body(ctx: &mut Ctx, off: usize, len: usize, st: Start, o: &Opts) {
    let region = Region::new(off, len, FILL);
    ctx.op(|| format!("{st:?} on {len} bytes at address % 64 = {}", region.addr() % 64));
    let (mut h, mut m) = nopanic("construction", || start(&region, st));
    check_info("construction", &h.info(), &m, region.addr());
    for _ in 0..ctx.depth {
        if ctx.skipped() { return }
        ctx.note(&m);
        match step(ctx, &region, h, m, o) { Some(n) => { h = n.0; m = n.1 } None => return }
    }
}

fn step(ctx: &mut Ctx, region: &Region, h: Box<dyn Handle>, m: Model, o: &Opts) -> Option<(Box<dyn Handle>, Model)> {
    let base = region.addr();
    let len = region.len();
    let list = ops(&m, o);
    let writes = if m.mutable { match m.kind { Kind::One(_) => 4, Kind::Slice(_) => 2 } } else { 3 };
    let c = ctx.choose(list.len() + writes);
    if c < writes {
        if region.is_foreign() { return None }
        let what = format!("{} {m:?} (way {c})", if m.mutable { "initialise" } else { "read" });
        ctx.op(|| what.clone());
        let v = if m.mutable { MARK } else { FILL };
        let (a, n) = nopanic(&what, || h.write(v, c));
        let (t, slice) = match m.kind { Kind::One(t) => (t, false), Kind::Slice(t) => (t, true) };
        let size = type_layout(t).size();
        let want = if slice { if size == 0 { 0 } else { m.len / size * size } } else { size };
        check!(a == base + m.off && n == want, "{what}: touched {n} bytes at {}, expected {want} at {}", a as isize - base as isize, m.off);
        check!(region.intact(), "{what}: bytes outside of the memory changed");
        let all = unsafe { std::slice::from_raw_parts(region.ptr(), len) };
        for (k, b) in all.iter().enumerate() {
            let e = if m.mutable && k >= m.off && k < m.off + want { MARK } else { FILL };
            check!(*b == e, "{what}: byte {k} is {b:#x}");
        }
        ctx.outcome(&(m, c));
        return None;
    }
    let op = list[c - writes];
    let what = format!("{op:?} on {m:?}");
    ctx.op(|| what.clone());
    let r = nopanic(&what, || h.apply(op));
    let (er, ep) = model(m, op, base);
    ctx.outcome(&(m, c, er, ep));
    check!(r.rest.is_some() == er.is_some() && r.part.is_some() == ep.is_some(), "{what}: {}", if r.part.is_some() { "succeeded although the memory does not fit" } else { "failed although the memory fits" });
    if let (Some(r), Some(e)) = (&r.rest, &er) { check_info(&format!("{what}, remaining handle"), &r.info(), e, base) }
    if let (Some(r), Some(e)) = (&r.part, &ep) { check_info(&format!("{what}, resulting handle"), &r.info(), e, base) }
    if ctx.depth == 1 { return None }
    // Follow one of them.
    Some(match (r.rest, r.part) {
        (Some(a), Some(b)) => if ctx.flag() { (b, ep.unwrap()) } else { (a, er.unwrap()) },
        (Some(a), None) => (a, er.unwrap()),
        (None, Some(b)) => (b, ep.unwrap()),
        (None, None) => unreachable!(),
    })
}

/// Handles without memory.
fn empties(ctx: &mut Ctx) {
    let t = ctx.choose(ALL_TYPES.len());
    let k = ctx.choose(4);
    ctx.op(|| format!("empty or invented handle for {} ({k})", type_name(t)));
    for_type!(t, V => {
        let al = align_of::<V>();
        if k == 0 || k == 1 {
            let (a, n, c, s) = if k == 0 { let u = Uninit::<[V]>::empty(); (u.as_begin_ptr() as usize, u.as_ptr().len(), u.capacity(), u.size()) } else { let u = UninitView::<[V]>::default(); (u.as_begin_ptr() as usize, u.as_ptr().len(), u.capacity(), u.size()) };
            check!(a % al == 0 && a != 0 && s == 0, "empty handle for {}: address {a:#x}, {s} bytes", type_name(t));
            if size_of::<V>() > 0 { check!(n == 0 && c == 0, "empty handle for {}: length {n}, capacity {c}", type_name(t)); }
            let m = if k == 0 { Uninit::<[V]>::default().split_first().is_some() } else { UninitView::<[V]>::empty().split_first().is_some() };
            check!(m == (size_of::<V>() == 0), "split_first of an empty handle for {}: {m}", type_name(t));
        } else {
            let r = mcx::ctx::catch(|| if k == 2 { let u = Uninit::<V>::invent_for_zst(); (u.as_ptr() as usize, u.size()) } else { let u = UninitView::<V>::invent_for_zst(); (u.as_ptr() as usize, u.size()) });
            check!(r.is_ok() == (size_of::<V>() == 0), "invent_for_zst::<{}>: {r:?}", type_name(t));
            if let Ok((a, s)) = r { check!(a % al == 0 && a != 0 && s == 0, "invent_for_zst::<{}>: address {a:#x}, {s} bytes", type_name(t)) }
        }
    });
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    const WIDE: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];
    const LAYS: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];
    // One transition from every state: induction over the closure of reachable handles.
    for &(off, len) in if q { &[(0, 40), (1, 48), (61, 30)][..] } else { &[(0, 48), (1, 40), (29, 80), (60, 60)][..] } {
        v.push(Scenario::new(format!("every handle within {len} bytes at {off}"), 1, move |c| all_states(c, off, len, &Opts { types: WIDE, layouts: LAYS, bytes: true })).split(8, 2));
    }
    for &(off, len) in if q { &[(0, 290), (0, 66000), (8, 5 << 30)][..] } else { &[(0, 290), (32, 600), (0, 5000), (8, 66000), (0, 1 << 20), (8, 5 << 30), (0, 1 << 40)][..] } {
        v.push(Scenario::new(format!("handles on {len} bytes at {off}"), 1, move |c| large(c, off, len, &Opts { types: WIDE, layouts: LAYS, bytes: true })).split(if q { 2 } else { 8 }, 2));
    }
    v.push(Scenario::new("handles on 1 MiB, values beyond 16 bits", 1, |c| large(c, 0, (1 << 20) + 5, &Opts { types: &[0, 3, 15, 16, 17, 19, 20, 21, 22, 23], layouts: &[0, 3, 14, 15, 16, 17, 18], bytes: true })).split(if q { 2 } else { 8 }, 2));
    v.push(Scenario::new("handles on 200000 bytes, values beyond 16 bits", 1, |c| large(c, 0, 200000, &Opts { types: &[3, 16, 17, 22], layouts: &[14, 15, 18], bytes: false })).split(if q { 2 } else { 8 }, 2));
    // Large types
    for &(off, len) in if q { &[(0, 70), (60, 136)][..] } else { &[(0, 140), (63, 131)][..] } {
        v.push(Scenario::new(format!("every handle within {len} bytes at {off}, large types"), 1, move |c| all_states(c, off, len, &Opts { types: &[9, 10, 11, 13, 14], layouts: &[0, 11, 12, 13], bytes: false })).split(8, 2));
    }
    // Sequences from the very start, following one handle.
    const FEW: &[usize] = &[0, 2, 5, 12];
    let lens: Vec<usize> = if q { vec![0, 1, 4, 7, 8, 12, 17, 20] } else { (0..=24).collect() };
    for &len in &lens { for off in [0, 3] {
        for st in [Start::Memory, Start::ViewMemory] {
            v.push(Scenario::new(format!("{st:?} {len} bytes at {off}"), 3, move |c| body(c, off, len, st, &Opts { types: FEW, layouts: &[0, 3, 8], bytes: false })));
        }
    } }
    if !q {
        for st in [Start::Memory, Start::ViewMemory] {
            v.push(Scenario::new(format!("{st:?} 9 bytes, sequences of 4"), 4, move |c| body(c, 3, 9, st, &Opts { types: &[0, 2, 12], layouts: &[3], bytes: false })).split(16, 2));
        }
    }
    let d = if q { 2 } else { 3 };
    let o = || Opts { types: FEW, layouts: &[0, 3, 8], bytes: true };
    for t in ALL_TYPES {
        let l = type_layout(t);
        let off = l.align();
        for st in [Start::MaybeUninit(t), Start::FromRef(t), Start::ViewMaybeUninit(t)] {
            v.push(Scenario::new(format!("{st:?} {}", type_name(t)), d, move |c| body(c, off, l.size(), st, &o())));
        }
        for extra in [0, 1, 7, 16] {
            for st in [Start::New(t), Start::ViewNew(t)] {
                v.push(Scenario::new(format!("{st:?} {} +{extra}", type_name(t)), d, move |c| body(c, off, l.size() + extra, st, &o())));
            }
        }
        for n in [0, 1, 2, 3, 5] {
            for st in [Start::Slice(t, n), Start::FromSliceRef(t, n), Start::ViewSlice(t, n)] {
                v.push(Scenario::new(format!("{st:?} {}", type_name(t)), d, move |c| body(c, off, n * l.size(), st, &o())));
            }
        }
    }
    v.push(Scenario::new("empty and invented handles", 1, empties));
    v
}

fn main() {
    mcx::main(Meta {
        property: "P12",
        what: "every handle (Uninit and UninitView, typed and slices) on every subrange of a piece of memory and every split, cast, borrow and shrink with every split position on it: address, byte size, capacity, slice length and fits() of both resulting handles against an exact byte range model (an induction over all reachable handles); every way to initialise or read through each handle, with canaries and all other bytes compared; and every sequence of operations from each constructor",
        bounds: "every subrange of 40, 48 and 30 (48, 40, 80, 60) bytes at various alignments with 14 types and 14 layouts (all 19 for fits()), of 70 and 136 (140) bytes with large types; handles on 290 bytes to 5 GiB (1 TiB) with all or, for the larger ones, many split positions, types and layouts of up to 70001 bytes and alignment 65536; sequences of 3 (4) operations from raw memory of 8 (25) lengths, of 2 (3) from MaybeUninit references and slices of 15 types",
        assumptions: &["the future behaviour of a handle depends only on kind, address, size and slice length"],
    }, scenarios)
}
