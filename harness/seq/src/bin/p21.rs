//! P21: comparison, ordering, hashing, borrowing and formatting of pointers and vectors.
use mcx::ctx::{catch, Ctx};
use mcx::driver::Meta;
use mcx::mem::Region;
use mcx::{check, Scenario, Tier};
use static_alloc::bump::Failure;
use static_alloc::leaked::LeakBox;
use static_alloc::Bump;
use std::borrow::{Borrow, BorrowMut};
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt::{self, Debug, Display, Write};
use std::hash::{Hash, Hasher};
use std::mem::{align_of, size_of, MaybeUninit};
use without_alloc::rc::Rc;
use without_alloc::{Box as WBox, FixedVec, Uninit};

thread_local! { static DROPS: Cell<usize> = const { Cell::new(0) }; static ARMED: Cell<bool> = const { Cell::new(false) }; }

/// A value whose drops are counted and whose operations are those of the inner one.
#[derive(PartialEq, PartialOrd, Eq, Ord, Hash)]
struct V<T>(T);
impl<T> Drop for V<T> { fn drop(&mut self) { DROPS.with(|d| d.set(d.get() + 1)) } }
impl<T: Debug> Debug for V<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.fmt(f) } }
impl<T: Display> Display for V<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.fmt(f) } }

/// Subsets: ordered by inclusion, so that some are not comparable.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Set(u8);
impl PartialOrd for Set {
    fn partial_cmp(&self, o: &Set) -> Option<Ordering> {
        if self == o { Some(Ordering::Equal) } else if self.0 & o.0 == self.0 { Some(Ordering::Less) } else if self.0 & o.0 == o.0 { Some(Ordering::Greater) } else { None }
    }
}
/// Equal if the keys are, whatever the rest. Ordered in reverse.
#[derive(Clone, Copy, Debug)]
struct Key(u8, u8);
impl PartialEq for Key { fn eq(&self, o: &Key) -> bool { self.0 == o.0 } }
impl Eq for Key {}
impl PartialOrd for Key { fn partial_cmp(&self, o: &Key) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Key { fn cmp(&self, o: &Key) -> Ordering { o.0.cmp(&self.0) } }
impl Hash for Key { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl Display for Key { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}={}", self.0, self.1) } }
/// Operations with some values panic.
#[derive(Clone, Copy)]
struct Bomb(u8);
impl Bomb { fn go(&self) -> u8 { if self.0 == 9 && ARMED.with(|a| a.get()) { panic!("bomb") } self.0 } }
impl PartialEq for Bomb { fn eq(&self, o: &Bomb) -> bool { self.go() == o.go() } }
impl Eq for Bomb {}
impl PartialOrd for Bomb { fn partial_cmp(&self, o: &Bomb) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Bomb { fn cmp(&self, o: &Bomb) -> Ordering { self.go().cmp(&o.go()) } }
impl Hash for Bomb { fn hash<H: Hasher>(&self, h: &mut H) { self.go().hash(h) } }
impl Debug for Bomb { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "<")?; write!(f, "{}>", self.go()) } }
impl Display for Bomb { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { if self.0 == 8 { return Err(fmt::Error) } write!(f, "({})", self.go()) } }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[repr(align(32))]
struct Wide(i8);
impl Display for Wide { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.pad("wide")?; Display::fmt(&self.0, f) } }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Unit;
impl Display for Unit { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.pad("unit") } }

trait Dom: PartialEq + PartialOrd + Debug + Copy + 'static { const NAME: &'static str; fn all() -> Vec<Self>; }
macro_rules! dom { ($($t:ty: $name:expr => $all:expr;)*) => { $(impl Dom for $t { const NAME: &'static str = $name; fn all() -> Vec<$t> { $all } })* } }
dom! {
    f32: "f32" => vec![f32::NAN, 0.0, -0.0, 1.5, f32::INFINITY, f32::NEG_INFINITY, -2.0, f32::MIN_POSITIVE];
    f64: "f64" => vec![f64::NAN, 0.0, -0.0, 1.0];
    Set: "subsets" => (0..8).map(Set).collect();
    i8: "i8" => vec![-1, 0, 1, i8::MIN, i8::MAX];
    u8: "u8" => vec![0, 1, 255];
    u64: "u64" => vec![0, 1, 1 << 32, (1 << 32) - 1, u64::MAX];
    i128: "i128" => vec![0, 1, -1, 1 << 64, i128::MIN];
    bool: "bool" => vec![false, true];
    char: "char" => vec!['a', '\u{10ffff}', '"', '\n'];
    &'static str: "str" => vec!["", "a", "b", "aa", "\"\n", "äöü"];
    (i8, f32): "(i8, f32)" => vec![(0, f32::NAN), (0, 0.0), (1, f32::NAN), (1, 0.0)];
    Option<u8>: "Option" => vec![None, Some(0), Some(1)];
    [u8; 3]: "[u8; 3]" => vec![[0; 3], [0, 0, 1], [1, 0, 0]];
    Key: "keyed" => vec![Key(0, 0), Key(0, 1), Key(1, 0), Key(2, 7)];
    Bomb: "panicking" => vec![Bomb(1), Bomb(2), Bomb(9), Bomb(8)];
    Wide: "over-aligned" => vec![Wide(0), Wide(1), Wide(-1)];
    Unit: "zero-sized" => vec![Unit];
}

/// Everything written to a hasher.
#[derive(Default, PartialEq, Debug)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) { self.0.push(b.len() as u8); self.0.extend(b) }
    fn finish(&self) -> u64 { 0 }
}
fn hashed<T: Hash + ?Sized>(t: &T) -> (Vec<u8>, u64) {
    let mut r = Rec::default();
    t.hash(&mut r);
    let mut d = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut d);
    (r.0, d.finish())
}

/// What a value is, to see that it is not changed: its bytes, or its text if it has padding.
fn bytes<T: Dom>(t: &T) -> Vec<u8> {
    if matches!(T::NAME, "(i8, f32)" | "Option" | "over-aligned") { return format!("{t:?}").into_bytes() }
    unsafe { std::slice::from_raw_parts(t as *const T as *const u8, size_of::<T>()) }.to_vec()
}

/// Both give the same value, or both panic.
fn same<R: PartialEq + Debug>(what: impl Fn() -> String, got: impl FnOnce() -> R, want: impl FnOnce() -> R) {
    let arm = |on| ARMED.with(|a| a.set(on));
    arm(true);
    let (g, w) = (catch(got), catch(want));
    arm(false);
    match (&g, &w) {
        (Ok(g), Ok(w)) => check!(g == w, "{}: gives {g:?}, for the contents {w:?}", what()),
        (Err(_), Err(_)) => {}
        _ => check!(false, "{}: gives {g:?}, for the contents {w:?}", what()),
    }
}

fn cmp_all<C: PartialEq + PartialOrd, T: PartialEq + PartialOrd + Debug + ?Sized>(kind: &str, x: &C, y: &C, a: &T, b: &T) {
    let w = |op: &'static str| move || format!("{kind}: {a:?} {op} {b:?}");
    same(w("=="), || x == y, || a == b);
    same(w("!="), || x != y, || a != b);
    same(w("<"), || x < y, || a < b);
    same(w("<="), || x <= y, || a <= b);
    same(w(">"), || x > y, || a > b);
    same(w(">="), || x >= y, || a >= b);
    same(w("partial_cmp"), || x.partial_cmp(y), || a.partial_cmp(b));
}

fn ord_all<C: Ord + Hash, T: Ord + Hash + Debug + ?Sized>(kind: &str, x: &C, y: &C, a: &T, b: &T) {
    let w = |op: &'static str| move || format!("{kind}: {a:?} {op} {b:?}");
    same(w("cmp"), || x.cmp(y), || a.cmp(b));
    same(w("max is the second"), || { let m: &C = std::cmp::max::<&C>(x, y); std::ptr::eq(m, y) }, || a.cmp(b) != Ordering::Greater || std::ptr::eq(x, y));
    same(w("min is the first"), || { let m: &C = std::cmp::min::<&C>(x, y); std::ptr::eq(m, x) }, || a.cmp(b) != Ordering::Greater || std::ptr::eq(x, y));
    same(w("hash of the first"), || hashed(x), || hashed(a));
    same(w("hash of the second"), || hashed(y), || hashed(b));
    // slices of them
    let two = std::mem::ManuallyDrop::new(unsafe { [std::ptr::read(x), std::ptr::read(y)] });
    same(w("hash of the slice of both"), || hashed(&two[..]), || hashed(&[a, b][..]));
    same(w("hash of the slice of one"), || hashed(&two[..1]), || hashed(&[a][..]));
    same(w("hash_slice"), || { let mut r = Rec::default(); C::hash_slice(&two[..], &mut r); r.0 }, || { let mut r = Rec::default(); a.hash(&mut r); b.hash(&mut r); r.0 });
    if x == y {
        let (p, q) = (hashed(x), hashed(y));
        check!(p == q, "{kind}: {a:?} and {b:?} are equal but their hashes are not");
    }
}

/// The greater and the lesser of two: one of them is given back, the other one is dropped.
fn ord_end<C: Ord>(ctx: &mut Ctx, kind: &str, x: C, y: C, addr: impl Fn(&C) -> usize, cmp: Ordering, of_x: usize, of_y: usize) {
    let n = DROPS.with(|d| d.get());
    let (ax, ay) = (addr(&x), addr(&y));
    let how = ctx.choose(3);
    if how == 0 { drop((x, y)) }
    else {
        ctx.op(|| ["", "max", "min"][how].to_string());
        let first = if how == 1 { cmp == Ordering::Greater } else { cmp != Ordering::Greater };
        let m = if how == 1 { x.max(y) } else { x.min(y) };
        check!(addr(&m) == if first { ax } else { ay }, "{kind}: max or min gave the wrong one");
        drops("max or min", n + if first { of_y } else { of_x });
        drop(m);
    }
    drops("dropping both", n + of_x + of_y);
}

/// A sink with limited space.
struct Limited(String, usize);
impl Write for Limited {
    fn write_str(&mut self, s: &str) -> fmt::Result { if self.0.len() + s.len() > self.1 { return Err(fmt::Error) } self.0.push_str(s); Ok(()) }
}
macro_rules! fmt_as { ($kind:expr, $c:expr, $t:expr, [$($f:literal),*]) => {{
    let (c, t) = (&$c, &$t);
    $( for room in [usize::MAX, 0, 1, 2, 3, 5] {
        let run = |c: &dyn Fn(&mut Limited) -> fmt::Result| { let mut l = Limited(String::new(), room); let r = c(&mut l); (l.0, r.is_ok()) };
        same(|| format!("{} formatted with {}, room for {room} bytes", $kind, $f), || run(&|l| write!(l, $f, *c)), || run(&|l| write!(l, $f, *t)));
    } )*
}} }
fn debug_all<C: Debug + ?Sized, T: Debug + ?Sized>(kind: &str, c: &C, t: &T) {
    fmt_as!(kind, c, t, ["{:?}", "{:#?}", "{:9?}|", "{:<7?}|", "{:+.1?}", "{:08.3?}", "{:x?}", "{:#X?}", "{:*^12?}"]);
}
fn display_all<C: Display + ?Sized, T: Display + ?Sized>(kind: &str, c: &C, t: &T) {
    fmt_as!(kind, c, t, ["{}", "{:>9}", "{:*^11}", "{:+}", "{:.1}", "{:08}", "{:#}", "{:<12.2}|"]);
}
/// The address of the contents, or (for slices and trait objects) the whole pointer.
fn pointer_all<C: fmt::Pointer, T: ?Sized>(kind: &str, c: &C, t: &T) {
    let (fat, thin) = (t as *const T, t as *const T as *const u8);
    macro_rules! go { ($($f:literal),*) => { $({
        let (g, w, v) = (format!($f, *c), format!($f, fat), format!($f, thin));
        check!(g == w || g == v, "{kind} formatted with {}: gives {g:?}, the contents are at {w:?}", $f);
    })* } }
    go!("{:p}", "{:24p}|", "{:<24p}|", "{:#p}", "{:024p}");
}

fn block<T>(extra: usize) -> Region { Region::new(align_of::<T>(), size_of::<T>() + extra, 0x3B) }
fn mem<T: 'static>(r: &Region) -> Uninit<'static, T> { unsafe { Uninit::from(&mut *(r.ptr() as *mut MaybeUninit<T>)) } }
fn slice_mem<T: 'static>(r: &Region, n: usize) -> Uninit<'static, [T]> { unsafe { Uninit::from(std::slice::from_raw_parts_mut(r.ptr() as *mut MaybeUninit<T>, n)) } }

fn drops(what: &str, n: usize) { let d = DROPS.with(|d| d.get()); check!(d == n, "{what}: {d} values were dropped, expected {n}") }

/// Boxes: pairs of values, then pairs after a modification through the box.
macro_rules! boxes { ($name:ident, ($($bound:tt)*), |$k:ident, $x:ident, $y:ident| $more:expr, |$c:ident, $ox:ident, $oy:ident| $end:expr) => {
    fn $name<T: Dom $($bound)*>(ctx: &mut Ctx) {
        DROPS.with(|d| d.set(0));
        let all = T::all();
        let (mut a, b) = (ctx.pick(&all), ctx.pick(&all));
        ctx.op(|| format!("Box of {a:?} and Box of {b:?}"));
        let (r, s) = (block::<V<T>>(0), block::<V<T>>(0));
        let (mut x, y) = (WBox::new(V(a), mem(&r)), WBox::new(V(b), mem(&s)));
        for round in 0..ctx.depth {
            if round > 0 {
                a = ctx.pick(&all);
                let how = ctx.choose(3);
                ctx.op(|| format!("set the first to {a:?} through {}", ["DerefMut", "AsMut", "BorrowMut"][how]));
                let before = DROPS.with(|d| d.get());
                match how { 0 => *x = V(a), 1 => *AsMut::as_mut(&mut x) = V(a), _ => *BorrowMut::<V<T>>::borrow_mut(&mut x) = V(a) }
                drops("assignment", before + 1);
            }
            let n = DROPS.with(|d| d.get());
            let $k = "Box";
            for (u, v) in [(&x, &y), (&y, &x), (&x, &x)] { cmp_all($k, u, v, &**u, &**v) }
            { let ($x, $y) = (&x, &y); $more }
            debug_all($k, &x, &*x);
            pointer_all($k, &x, &*x);
            let at = r.addr();
            check!(&*x as *const V<T> as usize == at && AsRef::as_ref(&x) as *const V<T> as usize == at && Borrow::<V<T>>::borrow(&x) as *const V<T> as usize == at, "Box: a borrow points elsewhere");
            check!(AsMut::as_mut(&mut x) as *mut V<T> as usize == at && BorrowMut::<V<T>>::borrow_mut(&mut x) as *mut V<T> as usize == at && &mut *x as *mut V<T> as usize == at, "Box: a mutable borrow points elsewhere");
            drops("reading operations on Box", n);
            check!(bytes(&x.0) == bytes(&a) && bytes(&y.0) == bytes(&b) && r.intact() && s.intact(), "Box: contents were changed");
        }
        ctx.outcome(&(bytes(&a), bytes(&b)));
        let n = DROPS.with(|d| d.get());
        { let ($c, $ox, $oy) = (ctx, x, y); $end }
        drops("dropping both boxes", n + 2);
    }
} }
boxes!(boxes_partial, (), |_k, _x, _y| (), |_c, x, y| drop((x, y)));
boxes!(boxes_total, (+ Ord + Hash), |k, x, y| for (u, v) in [(x, y), (y, x), (x, x)] { ord_all(k, u, v, &**u, &**v) },
    |c, x, y| { let o = (*x).cmp(&*y); ord_end(c, "Box", x, y, |b| &**b as *const V<T> as usize, o, 1, 1) });

macro_rules! rcs { ($name:ident, ($($bound:tt)*), |$k:ident, $x:ident, $y:ident| $more:expr, |$c:ident, $ox:ident, $oy:ident| $end:expr) => {
    fn $name<T: Dom $($bound)*>(ctx: &mut Ctx) {
        DROPS.with(|d| d.set(0));
        let all = T::all();
        let (a, b) = (ctx.pick(&all), ctx.pick(&all));
        ctx.op(|| format!("Rc of {a:?} and Rc of {b:?}"));
        let lay = Rc::<V<T>>::layout();
        let new = |r: &Region, v: T| Rc::new(V(v), unsafe { Uninit::from_memory(std::ptr::NonNull::new_unchecked(r.ptr()), r.len()) });
        let (r, s) = (Region::new(lay.align(), lay.size(), 1), Region::new(lay.align(), lay.size(), 1));
        let (x, y) = (new(&r, a), new(&s, b));
        let w = Rc::downgrade(&x);
        let z = x.clone();
        let _ = &w;
        let $k = "Rc";
        for (u, v) in [(&x, &y), (&y, &x), (&x, &x), (&x, &z), (&z, &y)] {
            cmp_all($k, u, v, &**u, &**v);
            let ($x, $y) = (u, v);
            $more
        }
        debug_all($k, &x, &*x);
        pointer_all($k, &x, &*x);
        pointer_all($k, &z, &*x);
        let at = &*x as *const V<T> as usize;
        check!(AsRef::as_ref(&x) as *const V<T> as usize == at && Borrow::<V<T>>::borrow(&x) as *const V<T> as usize == at && &*z as *const V<T> as usize == at, "Rc: a borrow points elsewhere");
        check!(r.contains(at, size_of::<T>()), "Rc: the value is outside of the memory");
        drops("reading operations on Rc", 0);
        check!(bytes(&x.0) == bytes(&a) && bytes(&y.0) == bytes(&b) && r.intact() && s.intact(), "Rc: contents were changed");
        check!(Rc::strong_count(&x) == 2 && Rc::weak_count(&x) == 2 && Rc::strong_count(&y) == 1, "Rc: counts were changed");
        ctx.outcome(&(bytes(&a), bytes(&b)));
        drop(x);
        { let ($c, $ox, $oy) = (ctx, z, y); $end }
        drops("dropping all handles", 2);
    }
} }
rcs!(rcs_partial, (), |_k, _x, _y| (), |_c, x, y| drop((x, y)));
rcs!(rcs_total, (+ Ord + Hash), |k, x, y| ord_all(k, x, y, &**x, &**y), |c, x, y| {
    let o = (*x).cmp(&*y);
    let at = |r: &Rc<V<T>>| &**r as *const V<T> as usize;
    // between bounds: equal ones keep the first
    let (lo, hi) = if o == Ordering::Greater { (&y, &x) } else { (&x, &y) };
    for v in [&x, &y] { let m = v.clone().clamp(lo.clone(), hi.clone()); check!(*m == **v && (at(&m) == at(v)), "Rc: clamp gave another one") }
    check!(at(&hi.clone().clamp(lo.clone(), lo.clone())) == if o == Ordering::Equal { at(hi) } else { at(lo) }, "Rc: clamp did not limit");
    check!(at(&lo.clone().clamp(hi.clone(), hi.clone())) == if o == Ordering::Equal { at(lo) } else { at(hi) }, "Rc: clamp did not limit");
    drops("clamp", 0);
    ord_end(c, "Rc", x, y, at, o, 1, 1)
});

fn rc_display<T: Dom + Display>(ctx: &mut Ctx) {
    let all = T::all();
    let a = ctx.pick(&all);
    ctx.op(|| "display".to_string());
    let lay = Rc::<V<T>>::layout();
    let r = Region::new(lay.align(), lay.size(), 1);
    let x = Rc::new(V(a), unsafe { Uninit::from_memory(std::ptr::NonNull::new_unchecked(r.ptr()), r.len()) });
    display_all("Rc", &x, &*x);
    let r = block::<T>(0);
    unsafe { (r.ptr() as *mut T).write(a) };
    let x = unsafe { LeakBox::from_raw(r.ptr() as *mut T) };
    display_all("LeakBox", &x, &a);
    ctx.outcome(&bytes(&a));
}

/// A vector of up to n elements of the domain.
fn content<T: Dom>(ctx: &mut Ctx, all: &[T], max: usize) -> Vec<T> { let n = ctx.choose(max + 1); (0..n).map(|_| ctx.pick(all)).collect() }

fn make<T: Copy + 'static>(r: &Region, extra: usize, v: &[T], how: usize) -> FixedVec<'static, V<T>> {
    let n = v.len();
    match how {
        // plain
        0 => { let mut x = FixedVec::new(slice_mem(r, n + extra)); for e in v { check!(x.push(V(*e)).is_ok(), "push") } x }
        // the rear part of a split
        1 => {
            let mut x = FixedVec::new(slice_mem(r, n + extra + 1));
            for e in v.first().into_iter().chain(v) { check!(x.push(V(*e)).is_ok(), "push") }
            let k = x.len() - n;
            let rest = x.split_and_shrink_to(k);
            std::mem::forget(x);
            rest
        }
        // after removals
        _ => {
            let mut x = FixedVec::new(slice_mem(r, n + extra + 1));
            if let Some(e) = v.first() { check!(x.push(V(*e)).is_ok(), "push") }
            for e in v { check!(x.push(V(*e)).is_ok(), "push") }
            if !v.is_empty() { x.drain(..1).for_each(std::mem::forget) }
            x
        }
    }
}

macro_rules! vecs { ($name:ident, ($($bound:tt)*), |$k:ident, $x:ident, $y:ident| $more:expr, |$c:ident, $ox:ident, $oy:ident| $end:expr) => {
    fn $name<T: Dom $($bound)*>(ctx: &mut Ctx, max: usize, few: usize) {
        DROPS.with(|d| d.set(0));
        let mut all = T::all();
        all.truncate(few);
        let (a, b) = (content(ctx, &all, max), content(ctx, &all, max));
        let how = ctx.choose(3);
        ctx.op(|| format!("FixedVec of {a:?}{} and of {b:?}", ["", ", split off", ", after drain"][how]));
        let (r, s) = (block::<[V<T>; 8]>(0), block::<[V<T>; 8]>(0));
        let (mut x, y) = (make(&r, 1, &a, how), make(&s, 0, &b, 0));
        check!(x.len() == a.len() && y.len() == b.len(), "HARNESS: vectors");
        let n = DROPS.with(|d| d.get());
        let $k = "FixedVec";
        for (u, v) in [(&x, &y), (&y, &x), (&x, &x)] {
            cmp_all($k, u, v, &**u, &**v);
            // and with the plain slices of the same values
            same(|| format!("FixedVec {a:?} == {b:?}"), || u == v, || u.iter().map(|e| &e.0).eq(v.iter().map(|e| &e.0)));
            let ($x, $y) = (u, v);
            $more
        }
        let p: *const [V<T>] = &*x;
        check!(p == x.as_slice() as *const _ && p == AsRef::<[V<T>]>::as_ref(&x) as *const _ && p == Borrow::<[V<T>]>::borrow(&x) as *const _, "FixedVec: a borrow points elsewhere");
        check!(p == x.as_mut_slice() as *const _ && p == AsMut::<[V<T>]>::as_mut(&mut x) as *const _ && p == BorrowMut::<[V<T>]>::borrow_mut(&mut x) as *const _ && p == &mut *x as *const _, "FixedVec: a mutable borrow points elsewhere");
        check!(x.as_ptr() == p as *const _ && x.as_mut_ptr() as *const _ == p as *const V<T>, "FixedVec: a pointer points elsewhere");
        drops("reading operations on FixedVec", n);
        let eq = |v: &[V<T>], w: &[T]| v.len() == w.len() && v.iter().zip(w).all(|(v, w)| bytes(&v.0) == bytes(w));
        check!(eq(&x, &a) && eq(&y, &b), "FixedVec: contents were changed");
        check!(r.intact() && s.intact(), "FixedVec: memory outside was changed");
        ctx.outcome(&(a.iter().map(bytes).collect::<Vec<_>>(), b.iter().map(bytes).collect::<Vec<_>>()));
        { let ($c, $ox, $oy) = (ctx, x, y); $end }
        drops("dropping both vectors", n + a.len() + b.len());
    }
} }
vecs!(vecs_partial, (), |_k, _x, _y| (), |_c, x, y| drop((x, y)));
vecs!(vecs_total, (+ Ord + Hash), |k, x, y| ord_all(k, x, y, &**x, &**y),
    |c, x, y| { let (o, m, n) = ((*x).cmp(&*y), x.len(), y.len()); ord_end(c, "FixedVec", x, y, |v| v.as_slice().as_ptr() as usize, o, m, n) });

/// Long vectors that differ at one place, in length, or not at all.
fn long<T: Dom + Ord + Hash>(ctx: &mut Ctx, lens: &[usize]) {
    DROPS.with(|d| d.set(0));
    let all = T::all();
    let n = ctx.pick(lens);
    let less = ctx.pick(&[0usize, 1, 2, 8, 256, 65536]);
    if less > n { return }
    let at = if n < 200 { ctx.choose(n + 1) } else { ctx.pick(&[0, 1, n / 2, 256.min(n), n.saturating_sub(257), n - 2, n - 1, n]) };
    let base = if at < n { ctx.choose(2) } else { 0 };
    let a: Vec<T> = (0..n).map(|i| all[(i * base) % all.len()]).collect();
    let mut b = a.clone();
    if at < n { b[at] = all[(at * base + 1) % all.len()] }
    b.truncate(n - less);
    let how = ctx.choose(3);
    ctx.op(|| format!("FixedVec of {n} elements{}, and of {} elements, different at {at}", ["", ", split off", ", after drain"][how], n - less));
    let (r, s) = (Region::new(align_of::<V<T>>(), size_of::<V<T>>() * (n + 2), 0x3B), Region::new(align_of::<V<T>>(), size_of::<V<T>>() * n, 0x3B));
    let (mut x, y) = (make(&r, 1, &a, how), make(&s, less, &b, 0));
    check!(x.len() == a.len() && y.len() == b.len(), "HARNESS: vectors");
    let d = DROPS.with(|d| d.get());
    for (u, v) in [(&x, &y), (&y, &x), (&x, &x)] {
        cmp_all("FixedVec", u, v, &**u, &**v);
        ord_all("FixedVec", u, v, &**u, &**v);
        same(|| format!("FixedVec {a:?} == {b:?}"), || u == v, || u.iter().map(|e| &e.0).eq(v.iter().map(|e| &e.0)));
        same(|| format!("FixedVec {a:?} cmp {b:?}"), || u.cmp(v), || u.iter().map(|e| &e.0).cmp(v.iter().map(|e| &e.0)));
    }
    same(|| "index".to_string(), || x[at].0 == a[at], || { let _ = a[at]; true });
    same(|| "index".to_string(), || { let z: &mut [V<T>] = &mut x[at..]; z.len() }, || a[at..].len());
    drops("reading operations on FixedVec", d);
    check!(r.intact() && s.intact(), "FixedVec: memory outside was changed");
    ctx.outcome(&(n, less, at, base));
    drop((x, y));
    drops("dropping both vectors", d + a.len() + b.len());
}

/// Indexing with everything, in and out of bounds.
fn index(ctx: &mut Ctx, max: usize) {
    let n = ctx.choose(max + 1);
    let how = ctx.choose(3);
    let v: Vec<u16> = (0..n as u16).map(|i| i * 7 + 1).collect();
    let r = block::<[V<u16>; 8]>(0);
    DROPS.with(|d| d.set(0));
    let mut x = make(&r, 1, &v, how);
    let drops0 = DROPS.with(|d| d.get());
    let mut c: Vec<V<u16>> = v.iter().map(|e| V(*e)).collect();
    let ends: Vec<usize> = (0..=n + 2).chain([usize::MAX, usize::MAX - 1, 1 << 63]).collect();
    let (i, j) = (ctx.pick(&ends), ctx.pick(&ends));
    ctx.op(|| format!("index a vector of {n} elements with {i}, {j}"));
    macro_rules! go { ($($ix:expr),*) => { $({
        same(|| format!("FixedVec of {n}[{}]", stringify!($ix)), || format!("{:?}", &x[$ix]), || format!("{:?}", &c[$ix]));
        same(|| format!("&mut FixedVec of {n}[{}]", stringify!($ix)), || format!("{:?}", &mut x[$ix]), || format!("{:?}", &mut c[$ix]));
        let base = x.as_ptr() as usize;
        let cb = c.as_ptr() as usize;
        same(|| format!("address of FixedVec of {n}[{}]", stringify!($ix)), || &x[$ix] as *const _ as *const u8 as usize - base, || &c[$ix] as *const _ as *const u8 as usize - cb);
    })* } }
    go!(i, .., i.., ..i, ..=i, i..j, i..=j, (std::ops::Bound::Excluded(i), std::ops::Bound::Included(j)), (std::ops::Bound::Included(i), std::ops::Bound::Unbounded));
    if i < n { x[i].0 = 999; c[i].0 = 999; check!(x.iter().map(|e| e.0).eq(c.iter().map(|e| e.0)), "an assignment by index went elsewhere") }
    if i <= j && j <= n { for e in &mut x[i..j] { e.0 += 1 } for e in &mut c[i..j] { e.0 += 1 } check!(x.iter().map(|e| e.0).eq(c.iter().map(|e| e.0)), "an assignment by range went elsewhere") }
    drops("indexing", drops0);
    check!(r.intact(), "memory outside was changed");
    ctx.outcome(&(n, how, i, j));
}

fn leak_box<T: Dom + Hash>(ctx: &mut Ctx, max: usize) {
    let all = T::all();
    DROPS.with(|d| d.set(0));
    let bump: Bump<[u128; 16]> = Bump::uninit();
    let a = ctx.pick(&all);
    let v = content(ctx, &all[..all.len().min(3)], max);
    ctx.op(|| format!("LeakBox of {a:?} and of {v:?}"));
    let mut x: LeakBox<V<T>> = bump.leak_box(V(a)).unwrap();
    let at = &*x as *const V<T> as usize;
    check!(AsRef::as_ref(&x) as *const V<T> as usize == at && AsMut::as_mut(&mut x) as *mut V<T> as usize == at && &mut *x as *mut V<T> as usize == at, "LeakBox: a borrow points elsewhere");
    debug_all("LeakBox", &x, &*x);
    debug_all("LeakBox", &x, &a);
    pointer_all("LeakBox", &x, &*x);
    same(|| format!("hash of LeakBox of {a:?}"), || hashed(&x), || hashed(&a));
    // slices and trait objects
    let r = block::<[V<T>; 4]>(0);
    let p = r.ptr() as *mut V<T>;
    for (i, e) in v.iter().enumerate() { unsafe { p.add(i).write(V(*e)) } }
    let s: LeakBox<[V<T>]> = unsafe { LeakBox::from_raw(std::ptr::slice_from_raw_parts_mut(p, v.len())) };
    check!(&*s as *const [V<T>] == AsRef::<[V<T>]>::as_ref(&s) as *const [V<T>] && s.len() == v.len() && s.as_ptr() == p, "LeakBox: a slice points elsewhere");
    debug_all("LeakBox of a slice", &s, &*s);
    pointer_all("LeakBox of a slice", &s, &*s);
    same(|| format!("hash of LeakBox of {v:?}"), || hashed(&s), || hashed(&*s));
    let d = bump.leak_box(V(a)).map(|x| unsafe { LeakBox::<dyn Debug>::from_raw(LeakBox::into_raw(x) as *mut dyn Debug) });
    let d = d.unwrap_or_else(|| mcx::fail!("leak_box failed"));
    debug_all("LeakBox of dyn Debug", &d, &a);
    pointer_all("LeakBox of dyn Debug", &d, &*d);
    drops("reading operations on LeakBox", 0);
    check!(bytes(&x.0) == bytes(&a) && s.iter().zip(&v).all(|(s, v)| bytes(&s.0) == bytes(v)) && r.intact(), "LeakBox: contents were changed");
    drop((x, s, d));
    drops("dropping the boxes", 2 + v.len());
    ctx.outcome(&(bytes(&a), v.len()));
}

fn leak_str(ctx: &mut Ctx) {
    let all = <&'static str>::all();
    let a = ctx.pick(&all);
    ctx.op(|| format!("LeakBox<str> of {a:?}"));
    let mut s = a.to_string();
    let x: LeakBox<str> = LeakBox::from(unsafe { LeakBox::from_mut_unchecked(&mut *(s.as_mut_str() as *mut str)) });
    debug_all("LeakBox<str>", &x, a);
    display_all("LeakBox<str>", &x, a);
    pointer_all("LeakBox<str>", &x, &*x);
    same(|| "hash".to_string(), || hashed(&x), || hashed(a));
    check!(&*x == a && x.as_ref().as_ptr() == x.as_ptr(), "LeakBox<str>: contents were changed");
    drop(x);
    check!(s == a, "contents were changed");
    ctx.outcome(&a);
}

/// Levels are ordered like the consumption they stand for; results as plain values.
fn levels(ctx: &mut Ctx) {
    let bump: Bump<[u8; 24]> = Bump::uninit();
    let mut seen = vec![(bump.level(), 0usize)];
    let mut used = 0;
    let mut errs = vec![];
    for _ in 0..ctx.depth {
        let n = ctx.choose(4) * 3;
        let k = ctx.choose(seen.len());
        ctx.op(|| format!("get_at {n} bytes at an earlier level"));
        if n > 0 {
            let l = std::alloc::Layout::from_size_align(n, 1).unwrap();
            let (at, was) = seen[k];
            match bump.alloc_at(l, at) {
                Ok(a) => { check!(was == used, "allocation at another level"); used += n; check!(a.level == bump.level() && a == a, "level of the allocation"); seen.push((a.level, used)) }
                Err(f) => { check!(was != used || used + n > 24, "allocation failed"); errs.push((f, match f { Failure::Exhausted => usize::MAX, Failure::Mismatch { observed } => seen.iter().find(|s| s.0 == observed).map_or(usize::MAX - 1, |s| s.1) })) }
            }
        }
        for (p, i) in &seen { for (q, j) in &seen {
            check!(p.cmp(q) == i.cmp(j) && p.partial_cmp(q) == Some(i.cmp(j)) && (p == q) == (i == j) && (p < q) == (i < j) && (p >= q) == (i >= j), "levels after {i} and {j} bytes compare as {:?}", p.cmp(q));
            check!(i != j || hashed(p) == hashed(q), "hashes of levels after {i} and {j} bytes");
        } }
        for (p, i) in &errs { for (q, j) in &errs {
            check!((p == q) == (i == j) && (p != q) == (i != j), "failures {p:?} and {q:?} compare wrongly");
            if i == j { check!(hashed(p) == hashed(q), "hashes of equal failures") }
        } }
    }
    ctx.outcome(&(used, seen.len()));
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    let rounds = if q { 2 } else { 3 };
    macro_rules! partial { ($($t:ty),*) => { $({
        let n = <$t as Dom>::NAME;
        v.push(Scenario::new(format!("Box of {n}"), rounds, boxes_partial::<$t>));
        v.push(Scenario::new(format!("Rc of {n}"), 1, rcs_partial::<$t>));
        v.push(Scenario::new(format!("FixedVec of {n}"), 1, move |c| vecs_partial::<$t>(c, if q { 3 } else { 4 }, if q { 4 } else { 5 })));
        v.push(Scenario::new(format!("FixedVec of {n}, longer"), 1, move |c| vecs_partial::<$t>(c, if q { 5 } else { 6 }, 2)));
    })* } }
    macro_rules! total { ($($t:ty),*) => { $({
        let n = <$t as Dom>::NAME;
        v.push(Scenario::new(format!("Box of {n}"), rounds, boxes_total::<$t>));
        v.push(Scenario::new(format!("Rc of {n}"), 1, rcs_total::<$t>));
        v.push(Scenario::new(format!("FixedVec of {n}"), 1, move |c| vecs_total::<$t>(c, if q { 3 } else { 4 }, if q { 4 } else { 5 })));
        v.push(Scenario::new(format!("FixedVec of {n}, longer"), 1, move |c| vecs_total::<$t>(c, if q { 5 } else { 6 }, 2)));
        v.push(Scenario::new(format!("LeakBox of {n}"), 1, move |c| leak_box::<$t>(c, 3)));
    })* } }
    macro_rules! display { ($($t:ty),*) => { $( v.push(Scenario::new(format!("display of {}", <$t as Dom>::NAME), 1, rc_display::<$t>)); )* } }
    partial!(f32, f64, Set, (i8, f32));
    total!(i8, u8, u64, i128, bool, char, &'static str, Option<u8>, [u8; 3], Key, Bomb, Wide, Unit);
    display!(f32, f64, i8, u8, u64, i128, bool, char, &'static str, Key, Bomb, Wide, Unit);
    v.push(Scenario::new("LeakBox of str", 1, leak_str));
    for k in 0..6 {
        let lens: Vec<usize> = if q { (4..20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513]).collect() } else { (4..70).chain([127, 128, 129, 255, 256, 257, 511, 512, 513, 1025, 4097]).collect() };
        let lens: Vec<usize> = if k == 0 || (k == 3 && !q) { lens.iter().copied().chain([65535, 65536, 65537]).collect() } else { lens };
        v.push(Scenario::new(format!("long vectors {k}"), 1, move |c| match k { 0 => long::<u8>(c, &lens), 1 => long::<i128>(c, &lens), 2 => long::<Key>(c, &lens), 3 => long::<&'static str>(c, &lens), 4 => long::<Wide>(c, &lens), _ => long::<u64>(c, &lens) }).split(if q { 1 } else { 4 }, 2));
    }
    v.push(Scenario::new("indexing", 1, move |c| index(c, if q { 4 } else { 6 })));
    v.push(Scenario::new("levels and failures", if q { 4 } else { 5 }, levels));
    v
}

fn main() {

    mcx::main(Meta {
        property: "P21",
        what: "every pair of values of small domains (floats with NaN and signed zero, sets ordered by inclusion, integers, strings, types with their own equality, panicking and failing operations, over-aligned and zero-sized types) held in Box, Rc (two owners, or handles of one), FixedVec (plain, split off, after a drain) and LeakBox (also slices, str, trait objects): all comparison operators, partial_cmp, cmp, max, min (also by value), clamp, the exact sequence of bytes hashed (alone and in slices), debug, display and pointer formatting with many flags into sinks of limited size, all borrows, indexing with all ranges, compared with the same operation on the contents, which are compared bytewise before and after; drops are counted; levels of a bump ordered like its consumption",
        bounds: "17 domains of up to 8 values; vectors of up to 3 (4) elements of 4 (5) values and 5 (6) elements of 2 values; of 4 to 513 (4097) and about 65536 elements that differ at any one position or in length; 2 (3) rounds of modification through the box",
        assumptions: &["contents obey the laws of the comparison traits"],
    }, scenarios)
}
