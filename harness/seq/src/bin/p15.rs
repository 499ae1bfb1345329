//! P15: without-alloc Box.
use mcx::ctx::{catch, nopanic, Ctx};
use mcx::driver::Meta;
use mcx::ledger::{self, Identity};
use mcx::mem::Region;
use mcx::{check, Scenario, Tier};
use seq::vdyn::*;
use seq::{for_arr, for_val};
use std::mem::{align_of, size_of, MaybeUninit};
use std::ptr::NonNull;
use unsize::{CoerceUnsized, Coercion};
use without_alloc::{Box, Uninit};

/// How arrays become slices; other values do not.
trait Shape: Val {
    fn to_slice(b: Box<'static, Self>) -> Result<Box<'static, [Self::Elem]>, Box<'static, Self>>;
}
macro_rules! flat { ($($t:ident)*) => { $( impl Shape for mcx::ledger::$t {
    fn to_slice(b: Box<'static, Self>) -> Result<Box<'static, [Self::Elem]>, Box<'static, Self>> { Err(b) }
} )* } }
flat!(Tok TokBig Tok16 Tok64 TokHuge Tiny Zst Zst16);
impl<E: Identity, const N: usize> Shape for [E; N] {
    fn to_slice(b: Box<'static, Self>) -> Result<Box<'static, [E]>, Box<'static, Self>> { Ok(b.unsize(Coercion::to_slice())) }
}

enum H<T: Shape> {
    Gone,
    Mem(Uninit<'static, T>),
    Box(Box<'static, T>),
    Raw(Uninit<'static, T>),
    Dyn(Box<'static, dyn Dynamic>),
    RawDyn(Uninit<'static, dyn Dynamic>),
    Slice(Box<'static, [T::Elem]>),
    RawSlice(Uninit<'static, [T::Elem]>),
    Leaked(&'static mut T),
}

struct Cell<T: Shape> { h: H<T>, region: Region, size: usize, ids: Vec<u32> }

struct Env { dropped: Vec<u32>, zdropped: usize, leaked: usize, bombs: bool }

impl Env {
    fn gone<T: Val>(&mut self, ids: &[u32]) { if T::Elem::ZST { self.zdropped += ids.len() } else { self.dropped.extend(ids) } }
    fn audit(&self, what: &str) {
        let d = ledger::drop_ids();
        check!(d == self.dropped, "{what}: dropped values are {d:?}, expected {:?}", self.dropped);
        let z = ledger::with(|l| l.zst_dropped);
        check!(z == self.zdropped, "{what}: {z} zero-sized values were dropped, expected {}", self.zdropped);
    }
    fn bomb<T: Val>(&self, ctx: &mut Ctx, ids: &[u32]) -> Option<u32> {
        if !self.bombs || T::Elem::ZST || ids.is_empty() { return None }
        let c = ctx.choose(ids.len() + 1);
        let b = if c == 0 { None } else { Some(ids[c - 1]) };
        ledger::set_bomb(b);
        b
    }
}
fn bomb_text(b: Option<u32>) -> String { b.map_or(String::new(), |b| format!(", value {b} panics in its destructor")) }

fn memory<T: 'static>(ctx: &mut Ctx, region: &Region, size: usize) -> Uninit<'static, T> {
    unsafe {
        let p = NonNull::new(region.ptr()).unwrap();
        let form = ctx.choose(if size == size_of::<T>() { 3 } else { 1 });
        match form {
            0 => Uninit::from_memory(p, size).cast::<T>().unwrap_or_else(|_| mcx::fail!("suitable memory cannot be cast")),
            1 => Uninit::from(&mut *(p.as_ptr() as *mut MaybeUninit<T>)),
            _ => Uninit::new(p.cast(), size),
        }
    }
}

impl<T: Shape> Cell<T> {
    fn kind(&self) -> u8 { match self.h { H::Gone => 0, H::Mem(_) => 1, H::Box(_) => 2, H::Raw(_) => 3, H::Dyn(_) => 4, H::RawDyn(_) => 5, H::Slice(_) => 6, H::RawSlice(_) => 7, H::Leaked(_) => 8 } }
    fn check(&mut self, what: &str) {
        let base = self.region.addr();
        let (mut ids, mut addr, mut size) = (self.ids.clone(), base, self.size);
        fn list<E: Identity>(s: &[E]) -> Vec<u32> { s.iter().map(|e| e.id()).collect() }
        match &mut self.h {
            H::Gone => {}
            H::Mem(u) => { addr = u.as_ptr() as usize; size = u.size(); }
            H::Box(b) => {
                ids = b.ids();
                addr = &**b as *const T as usize;
                check!(&mut **b as *mut T as usize == addr && &**b as *const T as *const u8 as usize == addr, "{what}: deref and deref_mut disagree");
                check!(<Box<T> as AsRef<T>>::as_ref(b) as *const T as usize == addr && <Box<T> as AsMut<T>>::as_mut(b) as *mut T as usize == addr, "{what}: as_ref or as_mut is another value");
                check!(std::borrow::Borrow::<T>::borrow(b) as *const T as usize == addr, "{what}: borrow is another value");
            }
            H::Raw(u) => { ids = unsafe { u.as_ref() }.ids(); addr = u.as_ptr() as usize; size = u.size(); let m = unsafe { u.as_mut() } as *mut T as usize; check!(m == addr, "{what}: as_mut is another value") }
            H::Dyn(b) => {
                ids = b.dyn_ids();
                addr = &**b as *const dyn Dynamic as *const u8 as usize;
                check!(b.dyn_addr() == addr && std::mem::size_of_val(&**b) == size_of::<T>() && std::mem::align_of_val(&**b) == align_of::<T>(), "{what}: wrong address or layout behind the trait object");
                check!(&mut **b as *mut dyn Dynamic as *mut u8 as usize == addr, "{what}: deref and deref_mut disagree");
            }
            H::RawDyn(u) => { ids = unsafe { u.as_ref() }.dyn_ids(); addr = u.as_ptr() as *mut u8 as usize; size = u.size(); }
            H::Slice(b) => { ids = list(b); addr = b.as_ptr() as usize; check!(b.len() == T::N && b.as_mut_ptr() as usize == addr, "{what}: slice of length {} instead of {}", b.len(), T::N) }
            H::RawSlice(u) => { let s = unsafe { u.as_ref() }; ids = list(s); addr = u.as_ptr() as *mut u8 as usize; size = u.size(); check!(s.len() == T::N, "{what}: slice of length {} instead of {}", s.len(), T::N) }
            H::Leaked(r) => { ids = r.ids(); addr = *r as *const T as usize; }
        }
        check!(ids == self.ids, "{what}: holds {ids:?}, expected {:?}", self.ids);
        check!(addr == base, "{what}: value at {addr:#x}, the memory is at {base:#x}");
        check!(size == self.size, "{what}: memory handle covers {size} bytes, expected {}", self.size);
        check!(self.region.intact(), "{what}: memory around the box was written");
        let tail = unsafe { std::slice::from_raw_parts(self.region.ptr().add(size_of::<T>()), self.size - size_of::<T>()) };
        check!(tail.iter().all(|b| *b == 0x5D), "{what}: memory behind the value was written");
    }
}

fn op<T: Shape>(ctx: &mut Ctx, cells: &mut Vec<Cell<T>>, k: usize, env: &mut Env) {
    let other = cells.len() > 1;
    let c = &mut cells[k];
    let what: String;
    match std::mem::replace(&mut c.h, H::Gone) {
        H::Gone => {
            what = format!("memory {k} used again");
            ctx.op(|| what.clone());
            c.ids = vec![];
            c.h = H::Mem(memory(ctx, &c.region, c.size));
        }
        H::Mem(m) => {
            let v = T::new();
            let ids = v.ids();
            let o = ctx.choose(5);
            what = ["Box::new", "into_box", "init", "into_raw of ManuallyDrop, then from_raw", "borrow_mut().init, then from_raw"][o].to_string();
            ctx.op(|| format!("{what}({ids:?}) in memory {k}"));
            c.ids = ids;
            c.h = nopanic(&what, || match o {
                0 => H::Box(Box::new(v, m)),
                1 => H::Box(m.into_box(v)),
                2 => H::Leaked(m.init(v)),
                3 => { let u = m; unsafe { u.as_ptr().write(v) }; H::Raw(u) }
                _ => { let mut u = m; u.borrow_mut().init(v); H::Box(unsafe { Box::from_raw(u) }) }
            });
        }
        H::Box(mut b) => {
            let o = ctx.choose(if other { 11 } else { 10 });
            let ids = c.ids.clone();
            match o {
                0 => {
                    what = "drop(box)".into();
                    let bomb = env.bomb::<T>(ctx, &ids);
                    ctx.op(|| format!("{what} {k}{}", bomb_text(bomb)));
                    let r = catch(|| drop(b));
                    ledger::set_bomb(None);
                    check!(r.is_err() == bomb.is_some(), "{what}: {r:?}");
                    env.gone::<T>(&ids);
                    c.ids = vec![];
                }
                1 | 2 | 3 => {
                    what = ["take, drop the value", "take, forget the value", "take, place the value again"][o - 1].into();
                    ctx.op(|| format!("{what} {k}"));
                    let (v, m) = nopanic("take", || Box::take(b));
                    check!(v.ids() == ids, "take returned {:?} instead of {ids:?}", v.ids());
                    env.audit("take");
                    match o {
                        1 => { drop(v); env.gone::<T>(&ids); c.ids = vec![]; c.h = H::Mem(m) }
                        2 => { std::mem::forget(v); env.leaked += ids.len(); c.ids = vec![]; c.h = H::Mem(m) }
                        _ => { let b = nopanic("Box::new", || Box::new(v, m)); c.h = H::Box(b) }
                    }
                }
                4 => { what = "into_raw".into(); ctx.op(|| format!("{what} {k}")); c.h = H::Raw(nopanic(&what, || Box::into_raw(b))) }
                5 => { what = "leak".into(); ctx.op(|| format!("{what} {k}")); c.h = H::Leaked(nopanic(&what, || Box::leak(b))) }
                6 => {
                    what = "unsize to a trait object".into();
                    ctx.op(|| format!("{what} {k}"));
                    c.h = H::Dyn(nopanic(&what, || b.unsize(unsafe { Coercion::new(|p: *const T| p as *const dyn Dynamic) })));
                }
                7 => {
                    what = "unsize to a slice".into();
                    ctx.op(|| format!("{what} {k}"));
                    c.h = match nopanic(&what, || T::to_slice(b)) { Ok(s) => H::Slice(s), Err(b) => H::Box(b) };
                }
                8 => {
                    what = "*box = new value".into();
                    let v = T::new();
                    let new = v.ids();
                    let bomb = env.bomb::<T>(ctx, &ids);
                    ctx.op(|| format!("{what} {new:?} {k}{}", bomb_text(bomb)));
                    let r = catch(|| *b = v);
                    ledger::set_bomb(None);
                    check!(r.is_err() == bomb.is_some(), "{what}: {r:?}");
                    env.gone::<T>(&ids);
                    c.ids = new;
                    c.h = H::Box(b);
                }
                9 => {
                    what = "move the box, mem::replace".into();
                    let v = T::new();
                    let new = v.ids();
                    ctx.op(|| format!("{what} {k}"));
                    let mut moved = Some(b);
                    let old = std::mem::replace(&mut **moved.as_mut().unwrap(), v);
                    check!(old.ids() == ids, "{what} returned {:?} instead of {ids:?}", old.ids());
                    drop(old);
                    env.gone::<T>(&ids);
                    c.ids = new;
                    c.h = H::Box(moved.take().unwrap());
                }
                _ => {
                    what = "swap with the other box".into();
                    let (a, z) = cells.split_at_mut(1);
                    let (c, d) = if k == 0 { (&mut a[0], &mut z[0]) } else { (&mut z[0], &mut a[0]) };
                    if let H::Box(x) = &mut d.h {
                        ctx.op(|| what.clone());
                        std::mem::swap(&mut *b, x);
                        std::mem::swap(&mut c.ids, &mut d.ids);
                    }
                    c.h = H::Box(b);
                }
            }
        }
        H::Raw(u) => {
            let o = ctx.choose(5);
            what = ["Box::from_raw", "drop the raw memory", "into_mut", "as_memory and back", "read the value out"][o].into();
            ctx.op(|| format!("{what} {k}"));
            match o {
                0 => c.h = H::Box(unsafe { Box::from_raw(u) }),
                1 => { drop(u); env.leaked += c.ids.len(); c.ids = vec![] }
                2 => c.h = H::Leaked(unsafe { u.into_mut() }),
                3 => c.h = H::Raw(u.as_memory().cast::<T>().unwrap_or_else(|_| mcx::fail!("memory of the value cannot be cast back"))),
                _ => { let v = unsafe { u.read() }; check!(v.ids() == c.ids, "read another value"); drop(v); let ids = std::mem::take(&mut c.ids); env.gone::<T>(&ids); c.h = H::Mem(u) }
            }
        }
        H::Dyn(mut b) => {
            let ids = c.ids.clone();
            let o = ctx.choose(4);
            what = ["drop(box of a trait object)", "into_raw of a trait object", "leak a trait object", "replace the value behind the trait object"][o].into();
            match o {
                0 => {
                    let bomb = env.bomb::<T>(ctx, &ids);
                    ctx.op(|| format!("{what} {k}{}", bomb_text(bomb)));
                    let r = catch(|| drop(b));
                    ledger::set_bomb(None);
                    check!(r.is_err() == bomb.is_some(), "{what}: {r:?}");
                    env.gone::<T>(&ids);
                    c.ids = vec![];
                }
                1 => { ctx.op(|| format!("{what} {k}")); c.h = H::RawDyn(nopanic(&what, || Box::into_raw(b))) }
                2 => {
                    ctx.op(|| format!("{what} {k}"));
                    let r = nopanic(&what, || Box::leak(b));
                    check!(r.dyn_ids() == ids, "{what}: another value");
                    c.h = H::Leaked(unsafe { &mut *(r as *mut dyn Dynamic as *mut T) });
                }
                _ => { ctx.op(|| format!("{what} {k}")); c.ids = nopanic(&what, || b.renew()); env.gone::<T>(&ids); c.h = H::Dyn(b) }
            }
        }
        H::RawDyn(u) => {
            let o = ctx.choose(2);
            what = ["Box::from_raw of a trait object", "trait object memory back to the type"][o].into();
            ctx.op(|| format!("{what} {k}"));
            if o == 0 { c.h = H::Dyn(unsafe { Box::from_raw(u) }) }
            else { c.h = H::Raw(u.as_memory().cast::<T>().unwrap_or_else(|_| mcx::fail!("memory of the value cannot be cast back"))) }
        }
        H::Slice(mut b) => {
            let ids = c.ids.clone();
            let o = ctx.choose(4);
            what = ["drop(boxed slice)", "into_raw of a slice", "leak a slice", "reverse the slice"][o].into();
            match o {
                0 => {
                    let bomb = env.bomb::<T>(ctx, &ids);
                    ctx.op(|| format!("{what} {k}{}", bomb_text(bomb)));
                    let r = catch(|| drop(b));
                    ledger::set_bomb(None);
                    check!(r.is_err() == bomb.is_some(), "{what}: {r:?}");
                    env.gone::<T>(&ids);
                    c.ids = vec![];
                }
                1 => { ctx.op(|| format!("{what} {k}")); c.h = H::RawSlice(nopanic(&what, || Box::into_raw(b))) }
                2 => {
                    ctx.op(|| format!("{what} {k}"));
                    let r = nopanic(&what, || Box::leak(b));
                    check!(r.len() == T::N, "{what}: length {}", r.len());
                    c.h = H::Leaked(unsafe { &mut *(r.as_mut_ptr() as *mut T) });
                }
                _ => { ctx.op(|| format!("{what} {k}")); b.reverse(); c.ids.reverse(); c.h = H::Slice(b) }
            }
        }
        H::RawSlice(u) => {
            let o = ctx.choose(2);
            what = ["Box::from_raw of a slice", "slice memory back to the type"][o].into();
            ctx.op(|| format!("{what} {k}"));
            if o == 0 { c.h = H::Slice(unsafe { Box::from_raw(u) }) }
            else { c.h = H::Raw(u.as_memory().cast::<T>().unwrap_or_else(|_| mcx::fail!("memory of the value cannot be cast back"))) }
        }
        H::Leaked(r) => {
            let o = ctx.choose(2);
            what = ["the leaked value stays", "box the leaked value again"][o].into();
            ctx.op(|| format!("{what} {k}"));
            if o == 0 { c.h = H::Leaked(r) }
            else { c.h = H::Box(unsafe { Box::from_raw(Uninit::new(NonNull::from(r), c.size)) }) }
        }
    }
    for c in cells.iter_mut() { c.check(&what) }
    env.audit(&what);
}

fn body<T: Shape>(ctx: &mut Ctx, extra: usize, n: usize, prune: bool, bombs: bool) {
    let size = size_of::<T>() + extra;
    let mut cells: Vec<Cell<T>> = (0..n).map(|_| {
        let region = Region::new(align_of::<T>(), size, 0x5D);
        Cell { h: H::Gone, region, size, ids: vec![] }
    }).collect();
    for c in &mut cells { c.h = H::Mem(memory(ctx, &c.region, size)); c.check("new") }
    let mut env = Env { dropped: vec![], zdropped: 0, leaked: 0, bombs };
    let mut pruned = false;
    for i in 0..ctx.depth {
        let st: Vec<u8> = cells.iter().map(|c| c.kind()).collect();
        if prune { if !ctx.visit(&st, ctx.depth - i) { pruned = true; break } } else { ctx.note(&st); if ctx.skipped() { return } }
        let k = ctx.choose(n);
        op(ctx, &mut cells, k, &mut env);
        // an operation that reuses memory loses track of the leaked value in it
    }
    let _ = pruned;
    ctx.outcome(&(cells.iter().map(|c| (c.kind(), c.ids.clone())).collect::<Vec<_>>(), env.dropped.clone(), env.leaked));
    for c in &mut cells {
        let ids = c.ids.clone();
        let own = matches!(c.h, H::Box(_) | H::Dyn(_) | H::Slice(_));
        nopanic("drop", || c.h = H::Gone);
        if own { env.gone::<T>(&ids) } else { env.leaked += ids.len() }
        env.audit("dropping everything");
    }
    let made = ledger::created() + ledger::with(|l| l.zst_made);
    check!(made == env.dropped.len() + env.zdropped + env.leaked, "{made} values entered, {} were dropped, {} leaked by request", env.dropped.len() + env.zdropped, env.leaked);
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    for t in 0..7 {
        for extra in [0usize, 1, 8, 40] {
            let full = extra == 0 || extra == 8;
            v.push(Scenario::new(format!("{} with {extra} extra bytes, every sequence", VAL_NAMES[t]), if !full { 4 } else if q { 6 } else { 7 }, move |c| for_val!(t, V => body::<V>(c, extra, 1, false, true))).split(if q { 1 } else { 8 }, 5));
            v.push(Scenario::new(format!("{} with {extra} extra bytes, every sequence", ARR_NAMES[t]), if !full { 4 } else if q { 5 } else { 6 }, move |c| for_arr!(t, V => body::<V>(c, extra, 1, false, true))).split(if q { 1 } else { 8 }, 5));
        }
        v.push(Scenario::new(format!("two boxes of {}, every sequence", VAL_NAMES[t]), if q { 4 } else { 5 }, move |c| for_val!(t, V => body::<V>(c, 0, 2, false, false))).split(if q { 1 } else { 8 }, 5));
        v.push(Scenario::new(format!("two boxes of {}, pruned", VAL_NAMES[t]), if q { 7 } else { 12 }, move |c| for_val!(t, V => body::<V>(c, 8, 2, true, true))));
        v.push(Scenario::new(format!("two boxes of {}, pruned", ARR_NAMES[t]), if q { 7 } else { 12 }, move |c| for_arr!(t, V => body::<V>(c, 8, 2, true, true))));
    }
    // memory of many sizes behind the value
    for t in 0..7 {
        v.push(Scenario::new(format!("{} in memory of many sizes", VAL_NAMES[t]), 3, move |c| {
            let list: Vec<usize> = (0..if q { 70 } else { 300 }).chain([127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 4095, 4096, 4097, 65535, 65536, 65537, 70000]).collect();
            let extra = c.pick(&list);
            for_val!(t, V => body::<V>(c, extra, 1, false, false))
        }));
    }
    macro_rules! arrays { ($($n:literal)*) => { $(
        v.push(Scenario::new(format!("array of {} values", $n), if q { 3 } else { 5 }, move |c| body::<[ledger::Tok; $n]>(c, 8 * ($n % 3), 1, true, $n <= 65)));
        if $n <= 33 { v.push(Scenario::new(format!("array of {} small values", $n), if q { 3 } else { 5 }, move |c| body::<[ledger::Tiny; $n]>(c, $n % 3, 1, true, false))) }
    )* } }
    arrays! { 4 5 7 8 9 15 16 17 31 32 33 63 64 65 127 128 }
    macro_rules! more { ($($n:literal)*) => { $( v.push(Scenario::new(format!("array of {} values", $n), if q { 3 } else { 4 }, move |c| body::<[ledger::Tok; $n]>(c, 8 * ($n % 3), 1, true, false))); )* } }
    more! { 129 255 256 257 511 512 513 1024 1025 }
    for n in [0usize, 70000, 150000] { v.push(Scenario::new(format!("large value with {n} extra bytes"), if q { 3 } else { 4 }, move |c| body::<ledger::TokHuge>(c, n, 1, false, true))) }
    v.push(Scenario::new("two large values, pruned", if q { 4 } else { 8 }, move |c| body::<ledger::TokHuge>(c, 8, 2, true, true)));
    v.push(Scenario::new("array of 4097 values", 3, move |c| body::<[ledger::Tok; 4097]>(c, 8, 1, true, false)));
    v.push(Scenario::new("array of 65537 small values", 3, move |c| body::<[ledger::Zst; 65537]>(c, 8, 1, true, false)));
    v
}

fn main() {
    mcx::main(Meta {
        property: "P15",
        what: "every sequence of creating, dropping (with a panicking destructor), taking, leaking, converting to raw memory and back, unsizing to trait objects and slices and back, assigning, replacing and swapping boxed values in one or two memories; identity, address, drop count, bytes handed back and untouched surroundings are compared with a model after each call",
        bounds: "7 value types and 7 array types (sizes 0 to 64, alignment 1 to 64), memory larger than the value by 0, 1, 8 or 40 bytes (0 to 69 or 299 and up to 70000 in sequences of 3), arrays of 3 to 4097 values (65537 zero-sized ones) in sequences of 3 (5), a value of 73728 bytes and alignment 4096; one memory: all sequences of 6 (7; arrays 5, 6) calls; two memories: 4 (5), with pruning 7 (12)",
        assumptions: &["pruned scenarios: the canonical state is the form of the handle of each memory"],
    }, scenarios)
}
