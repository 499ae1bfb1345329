//! P17: the allocating extension methods, on allocators that may do anything their contract allows.
use alloc_traits::{Allocation, AllocTime, LocalAlloc, NonZeroLayout};
use mcx::ctx::{nopanic, Ctx};
use mcx::driver::Meta;
use mcx::ledger::{self, Identity};
use mcx::mem::Region;
use mcx::{check, Scenario, Tier};
use seq::for_type;
use seq::stackseq::tok_name;
use seq::for_tok;
use seq::vals::*;
use std::alloc::Layout;
use std::cell::{Cell, RefCell};
use std::mem::{align_of, size_of, ManuallyDrop};
use std::ptr::NonNull;
use without_alloc::alloc::LocalAllocLeakExt;
use without_alloc::rc::Rc;
use without_alloc::{Box as WBox, FixedVec};

/// What the allocator does with one call.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Beh { Fail, Exact, Larger(usize), Double, Aligned, LargerAligned, Real }
const BEHS: [Beh; 8] = [Beh::Exact, Beh::Fail, Beh::Larger(1), Beh::Larger(7), Beh::Larger(100), Beh::Double, Beh::Aligned, Beh::LargerAligned];

#[derive(Clone, Copy, Debug)]
struct Call { size: usize, align: usize, block: Option<(usize, usize)> }

struct Mock { beh: Cell<Beh>, calls: RefCell<Vec<Call>>, blocks: RefCell<Vec<Region>>, real: Option<std::boxed::Box<static_alloc::Bump<[u8; 128]>>> }

impl Mock {
    fn new(real: bool) -> Mock { Mock { beh: Cell::new(if real { Beh::Real } else { Beh::Exact }), calls: Default::default(), blocks: Default::default(), real: real.then(|| std::boxed::Box::new(static_alloc::Bump::uninit())) } }
}

unsafe impl<'a> LocalAlloc<'a> for Mock {
    fn alloc(&'a self, layout: NonZeroLayout) -> Option<Allocation<'a>> {
        let l: Layout = layout.into();
        let (mut extra, mut off, mut al) = (0, l.align(), l.align());
        match self.beh.get() {
            Beh::Fail => { self.calls.borrow_mut().push(Call { size: l.size(), align: l.align(), block: None }); return None }
            Beh::Exact => {}
            Beh::Larger(n) => extra = n,
            Beh::Double => extra = l.size(),
            Beh::Aligned => { off = 0; al = 256.max(al) }
            Beh::LargerAligned => { off = 0; al = (al * 2).min(4096).max(al); extra = 33 }
            Beh::Real => {
                let a = self.real.as_ref().unwrap();
                let a: &'a static_alloc::Bump<[u8; 128]> = unsafe { &*(&**a as *const _) };
                let r = LocalAlloc::alloc(a, layout);
                self.calls.borrow_mut().push(Call { size: l.size(), align: l.align(), block: r.map(|r| (r.ptr.as_ptr() as usize, r.layout.size().get())) });
                return r;
            }
        }
        let size = l.size() + extra;
        let region = Region::new(off, size, 0xC9);
        let ptr = NonNull::new(region.ptr()).unwrap();
        self.calls.borrow_mut().push(Call { size: l.size(), align: l.align(), block: Some((region.addr(), size)) });
        self.blocks.borrow_mut().push(region);
        Some(Allocation { ptr, layout: NonZeroLayout::from_layout(Layout::from_size_align(size, al).unwrap().into()).unwrap(), lifetime: AllocTime::default() })
    }
    unsafe fn dealloc(&'a self, _: Allocation<'a>) { mcx::ctx::fail_later("a leaked allocation was deallocated".into()) }
}

/// An object that was built, to be checked again later.
struct Obj { name: String, check: std::boxed::Box<dyn Fn() -> bool>, bytes: (usize, usize), drop: Option<std::boxed::Box<dyn FnOnce()>> }

struct Env { mock: &'static Mock, objs: Vec<Obj>, dropped: Vec<u32>, zdropped: usize }

impl Env {
    fn gone<V: Identity>(&mut self, id: u32) { if V::ZST { self.zdropped += 1 } else { self.dropped.push(id) } }
    fn audit(&self, what: &str) {
        let d = ledger::drop_ids();
        check!(d == self.dropped, "{what}: dropped values are {d:?}, expected {:?}", self.dropped);
        let z = ledger::with(|l| l.zst_dropped);
        check!(z == self.zdropped, "{what}: {z} zero-sized values were dropped, expected {}", self.zdropped);
        for o in &self.objs { check!((o.check)(), "{what}: the {} changed", o.name) }
        for b in self.mock.blocks.borrow().iter() { check!(b.intact(), "{what}: memory outside of the block was written") }
        // bytes of blocks outside of the objects in them
        for b in self.mock.blocks.borrow().iter() {
            for i in 0..b.len() {
                let a = b.addr() + i;
                let used = self.objs.iter().any(|o| a >= o.bytes.0 && a < o.bytes.0 + o.bytes.1);
                check!(used || unsafe { *(a as *const u8) } == 0xC9, "{what}: byte {i} of a block of {} bytes was written although it is not part of the object", b.len());
            }
        }
    }
    /// Exactly `n` calls since `from`, sufficient for the size and alignment; the block.
    fn block(&self, what: &str, from: usize, size: usize, align: usize) -> Option<(usize, usize)> {
        let calls = self.mock.calls.borrow();
        check!(calls.len() == from + 1, "{what}: {} calls of the allocator instead of one", calls.len() - from);
        let c = calls[from];
        check!(c.size >= size && c.align >= align, "{what}: requested {} bytes aligned to {}, needed are {size} aligned to {align}", c.size, c.align);
        c.block
    }
    fn none(&self, what: &str, from: usize) { check!(self.mock.calls.borrow().len() == from, "{what}: the allocator was called") }
    fn inside(&mut self, what: &str, block: Option<(usize, usize)>, addr: usize, size: usize, align: usize) {
        check!(addr % align == 0 && addr != 0, "{what}: result at {addr:#x} is not aligned to {align}");
        if size == 0 { return }
        let Some((b, n)) = block else { mcx::fail!("{what}: succeeded although the allocator failed") };
        check!(addr >= b && addr + size <= b + n, "{what}: result [{addr:#x}, +{size}) is not inside the block [{b:#x}, +{n})");
        for o in &self.objs { check!(o.bytes.1 == 0 || addr >= o.bytes.0 + o.bytes.1 || addr + size <= o.bytes.0, "{what}: overlaps the {}", o.name) }
    }
}

fn beh(ctx: &mut Ctx, env: &Env) -> String {
    if env.mock.real.is_some() { return String::new() }
    let b = BEHS[ctx.choose(BEHS.len())];
    env.mock.beh.set(b);
    format!(", allocator: {b:?}")
}

fn pattern(n: usize) -> Vec<u8> { (0..n).map(|i| 0x11 + ((i * 5 + i / 37 + i / 1021) % 181) as u8).collect() }

/// Operations on values with identity.
fn value_op<V: Identity>(ctx: &mut Ctx, env: &mut Env, fresh: bool) {
    let (sz, al) = (size_of::<V>(), align_of::<V>());
    let from = env.mock.calls.borrow().len();
    let mock = env.mock;
    match ctx.choose(6) {
        0 => {
            let b = beh(ctx, env);
            let v = V::make();
            let id = v.id();
            let what = "boxed";
            ctx.op(|| format!("{what}({id}){b}"));
            let r = nopanic(what, || mock.boxed(v));
            let block = if sz == 0 { env.none(what, from); None } else { env.block(what, from, sz, al) };
            match r {
                None => { check!(sz > 0 && block.is_none(), "boxed failed although the allocator succeeded"); env.gone::<V>(id) }
                Some(b) => {
                    env.inside(what, block, &*b as *const V as usize, sz, al);
                    let raw = WBox::into_raw(b);
                    check!(raw.size() >= sz && block.map_or(raw.size() == 0, |k| raw.size() <= k.1), "boxed: the box owns {} bytes of a block of {block:?}", raw.size());
                    let b = unsafe { WBox::from_raw(raw) };
                    check!(b.id() == id, "boxed holds another value");
                    env.objs.push(obj(format!("box of {id}"), (&*b as *const V as usize, sz), b, move |b| b.id() == id));
                }
            }
        }
        1 => {
            let b = beh(ctx, env);
            let v = V::make();
            let id = v.id();
            let what = "rc";
            ctx.op(|| format!("{what}({id}){b}"));
            let r = nopanic(what, || mock.rc(v));
            let l = Rc::<V>::layout();
            let block = env.block(what, from, l.size(), l.align());
            match r {
                None => { check!(block.is_none(), "rc failed although the allocator succeeded"); env.gone::<V>(id) }
                Some(r) => {
                    let a = &*r as *const V as usize;
                    env.inside(what, block, a, l.size(), l.align());
                    check!(r.id() == id && Rc::strong_count(&r) == 1 && Rc::weak_count(&r) == 1, "rc: wrong value or counts");
                    let w = Rc::downgrade(&r);
                    env.objs.push(obj(format!("rc of {id}"), (a, l.size()), (r, w), move |b| b.0.id() == id && Rc::strong_count(&b.0) == 1 && b.1.strong_count() == 1));
                }
            }
        }
        2 => {
            let most = if fresh { 5 } else { 3 };
            let caps = [usize::MAX, usize::MAX / sz.max(1), isize::MAX as usize / sz.max(1) + 1, isize::MAX as usize / sz.max(1), 1 << 62];
            let c = ctx.choose(most + if fresh { caps.len() } else { 1 });
            let cap = if c < most { c } else { caps[c - most] };
            let b = beh(ctx, env);
            let what = "fixed_vec";
            let valid = sz == 0 || cap.checked_mul(sz).is_some_and(|n| Layout::from_size_align(n, al).is_ok());
            if sz > 0 && cap > 1000 && valid {
                // the layout exists, but no allocator has that much memory
                if env.mock.real.is_none() { env.mock.beh.set(Beh::Fail) }
            }
            ctx.op(|| format!("{what}::<{}>({cap}){b}", std::any::type_name::<V>()));
            let r = nopanic(what, || mock.fixed_vec::<V>(cap));
            if !valid { env.none(what, from); check!(r.is_none(), "fixed_vec of impossible capacity {cap} succeeded"); }
            else {
                let size = sz * cap;
                let block = if size == 0 { env.none(what, from); None } else { env.block(what, from, size, al) };
                match r {
                    None => check!(size > 0 && block.is_none(), "fixed_vec failed although the allocator succeeded"),
                    Some(mut v) => {
                        let a = v.as_ptr() as usize;
                        let have = v.capacity();
                        check!(have >= cap && v.is_empty(), "fixed_vec({cap}) has capacity {have}, length {}", v.len());
                        if sz > 0 { env.inside(what, block, a, have * sz, al) } else { env.inside(what, None, a, 0, al) }
                        let n = have.min(cap.saturating_add(1)).min(4);
                        let ids: Vec<u32> = (0..n).map(|_| { let x = V::make(); let id = x.id(); check!(v.push(x).is_ok(), "push refused"); id }).collect();
                        env.objs.push(obj("vector".into(), (a, have * sz), v, move |v: &FixedVec<'static, V>| v.iter().map(|x| x.id()).collect::<Vec<_>>() == ids));
                    }
                }
            }
        }
        3 => {
            let b = beh(ctx, env);
            let what = "alloc_t";
            ctx.op(|| format!("{what}::<{}>(){b}", std::any::type_name::<V>()));
            let r = nopanic(what, || mock.alloc_t::<V>());
            let block = if sz == 0 { env.none(what, from); None } else { env.block(what, from, sz, al) };
            match r {
                None => check!(sz > 0 && block.is_none(), "alloc_t failed although the allocator succeeded"),
                Some(l) => {
                    let a = l.uninit.as_ptr() as usize;
                    let n = l.uninit.size();
                    env.inside(what, block, a, n.max(sz), al);
                    check!(l.uninit.fits(Layout::new::<V>()), "alloc_t: the memory does not fit the type");
                    let v = V::make();
                    let id = v.id();
                    let b = l.uninit.into_box(v);
                    env.objs.push(obj(format!("value {id} in typed memory"), (a, sz), b, move |b| b.id() == id));
                }
            }
        }
        4 => {
            // a moved dynamically sized value
            let b = beh(ctx, env);
            let what = "copy_dst";
            let v = V::make();
            let id = v.id();
            ctx.op(|| format!("{what}(dyn, {id}){b}"));
            let v = ManuallyDrop::new(v);
            trait Id: 'static { fn the_id(&self) -> u32; }
            impl<V: Identity> Id for V { fn the_id(&self) -> u32 { self.id() } }
            let d: &ManuallyDrop<dyn Id> = &v;
            let r = nopanic(what, || unsafe { mock.copy_dst::<dyn Id>(d) });
            let block = if sz == 0 { env.none(what, from); None } else { env.block(what, from, sz, al) };
            match r {
                None => { check!(sz > 0 && block.is_none(), "copy_dst failed although the allocator succeeded"); drop(ManuallyDrop::into_inner(v)); env.gone::<V>(id) }
                Some(r) => {
                    let a = r as *mut dyn Id as *mut u8 as usize;
                    env.inside(what, block, a, sz, al);
                    check!(std::mem::size_of_val(r) == sz && std::mem::align_of_val(r) == al && r.the_id() == id, "copy_dst: another value or type");
                    struct Owner(*mut dyn Id);
                    impl Drop for Owner { fn drop(&mut self) { unsafe { std::ptr::drop_in_place(self.0) } } }
                    env.objs.push(obj(format!("moved dyn value {id}"), (a, sz), Owner(r), move |o| unsafe { &*o.0 }.the_id() == id));
                }
            }
        }
        _ => {
            let b = beh(ctx, env);
            let what = "alloc_layout";
            let size = if sz == 0 { 1 } else { sz };
            let l = Layout::from_size_align(size, al).unwrap();
            ctx.op(|| format!("{what}({size}, {al}){b}"));
            let r = nopanic(what, || mock.alloc_layout(NonZeroLayout::from_layout(l.into()).unwrap()));
            let block = env.block(what, from, size, al);
            match r {
                None => check!(block.is_none(), "alloc_layout failed although the allocator succeeded"),
                Some(m) => {
                    let (a, n) = (m.uninit.as_ptr() as usize, m.uninit.size());
                    check!(n >= size, "alloc_layout: memory of {n} bytes");
                    env.inside(what, block, a, n, al);
                    unsafe { std::ptr::write_bytes(a as *mut u8, 0x77, n) };
                    env.objs.push(Obj { name: "memory".into(), check: std::boxed::Box::new(move || unsafe { std::slice::from_raw_parts(a as *const u8, n) }.iter().all(|b| *b == 0x77)), bytes: (a, n), drop: None });
                }
            }
        }
    }
}

fn obj<X: 'static>(name: String, bytes: (usize, usize), x: X, check: impl Fn(&X) -> bool + 'static) -> Obj {
    let x = std::rc::Rc::new(RefCell::new(Some(x)));
    let y = x.clone();
    Obj { name, bytes, check: std::boxed::Box::new(move || x.borrow().as_ref().map_or(true, |x| check(x))), drop: Some(std::boxed::Box::new(move || { let v = y.borrow_mut().take(); drop(v) })) }
}

/// Copies of slices, strings and dynamically sized values.
fn copy_op<T: Copy + std::fmt::Debug + PartialEq + 'static>(ctx: &mut Ctx, env: &mut Env, lens: &[usize]) {
    let (sz, al) = (size_of::<T>(), align_of::<T>());
    let from = env.mock.calls.borrow().len();
    let mock = env.mock;
    let op = ctx.choose(4);
    let n = ctx.pick(lens);
    // where the source starts
    let shift = if lens.len() > 10 && sz > 0 && sz < 64 { ctx.choose(if op % 2 == 1 { 9 } else { 3 }) } else { 0 };
    let b = if lens.len() > 10 { env.mock.beh.set(BEHS[ctx.pick(&[0, 1, 3, 6])]); format!(", allocator: {:?}", env.mock.beh.get()) } else { beh(ctx, env) };
    let bytes = n * if op == 1 || op == 3 { 1 } else { sz };
    let al = if op == 1 || op == 3 { 1 } else { al };
    let data = pattern((n + 1) * sz.max(1));
    let src: Vec<T> = (0..n + shift).map(|i| unsafe { if sz == 0 { std::mem::zeroed() } else { std::ptr::read_unaligned(data[i.saturating_sub(shift) * sz..].as_ptr() as *const T) } }).collect();
    let text: String = (0..n + shift).map(|i| (b'!' + ((i * 5 + i / 37 + i / 1021) % 90) as u8) as char).collect();
    let (src, text) = (&src[shift..], &text[shift..]);
    let what = ["copy_slice", "copy_str", "copy_dst of a slice", "copy_dst of a string"][op];
    ctx.op(|| format!("{what} of {n} x {}{b}", if op % 2 == 1 { "u8" } else { std::any::type_name::<T>() }));
    let got: Option<(usize, usize, usize)> = match op {
        0 => nopanic(what, || mock.copy_slice(src)).map(|r| { let o = (r.as_ptr() as usize, r.len(), std::mem::size_of_val(r)); (o.0, o.1, o.2) }),
        1 => nopanic(what, || mock.copy_str(text)).map(|r| (r.as_ptr() as usize, r.len(), r.len())),
        2 => {
            let m: &ManuallyDrop<[T]> = unsafe { &*(src as *const [T] as *const ManuallyDrop<[T]>) };
            nopanic(what, || unsafe { mock.copy_dst::<[T]>(m) }).map(|r| (r.as_ptr() as usize, r.len(), std::mem::size_of_val(r)))
        }
        _ => {
            let m: &ManuallyDrop<str> = unsafe { &*(text as *const str as *const ManuallyDrop<str>) };
            nopanic(what, || unsafe { mock.copy_dst::<str>(m) }).map(|r| (r.as_ptr() as usize, r.len(), r.len()))
        }
    };
    let block = if bytes == 0 { env.none(what, from); None } else { env.block(what, from, bytes, al) };
    let Some((a, len, size)) = got else { check!(bytes > 0 && block.is_none(), "{what} failed although the allocator succeeded"); return };
    check!(len == n, "{what} of {n} elements has length {len}");
    check!(size == bytes, "{what} of {bytes} bytes has {size} bytes");
    env.inside(what, block, a, size, al);
    let want: Vec<u8> = if op % 2 == 1 { text.as_bytes().to_vec() } else { unsafe { std::slice::from_raw_parts(src.as_ptr() as *const u8, bytes) }.to_vec() };
    let o = Obj { name: "copy".into(), check: std::boxed::Box::new(move || unsafe { std::slice::from_raw_parts(a as *const u8, size) } == &want[..]), bytes: (a, size), drop: None };
    check!((o.check)(), "{what}: other contents");
    env.objs.push(o);
}

/// Vectors and slices of memory of many lengths, used to the end.
fn vec_wide<V: Identity>(ctx: &mut Ctx, env: &mut Env, lens: &[usize]) {
    let (sz, al) = (size_of::<V>(), align_of::<V>());
    let cap = ctx.pick(lens);
    env.mock.beh.set(BEHS[ctx.pick(&[0, 1, 3, 5, 6])]);
    let b = env.mock.beh.get();
    let from = env.mock.calls.borrow().len();
    ctx.op(|| format!("fixed_vec::<{}>({cap}), allocator: {b:?}", std::any::type_name::<V>()));
    let mock = env.mock;
    let r = nopanic("fixed_vec", || mock.fixed_vec::<V>(cap));
    let size = sz * cap;
    let block = if size == 0 { env.none("fixed_vec", from); None } else { env.block("fixed_vec", from, size, al) };
    match r {
        None => check!(size > 0 && block.is_none(), "fixed_vec failed although the allocator succeeded"),
        Some(mut v) => {
            let a = v.as_ptr() as usize;
            let have = v.capacity();
            check!(have >= cap && v.is_empty(), "fixed_vec({cap}) has capacity {have}, length {}", v.len());
            env.inside("fixed_vec", block, a, if sz == 0 { 0 } else { have * sz }, al);
            let n = have.min(cap + 1);
            let ids: Vec<u32> = (0..n).map(|_| { let x = V::make(); let id = x.id(); check!(v.push(x).is_ok(), "push refused"); id }).collect();
            env.objs.push(obj("vector".into(), (a, have * sz), v, move |v: &FixedVec<'static, V>| v.iter().map(|x| x.id()).collect::<Vec<_>>() == ids));
        }
    }
}

/// One copy or one vector, of many lengths.
fn wide(ctx: &mut Ctx, types: &'static [usize], dense: usize) {
    let mock = std::boxed::Box::into_raw(std::boxed::Box::new(Mock::new(false)));
    struct Free(*mut Mock);
    impl Drop for Free { fn drop(&mut self) { unsafe { drop(std::boxed::Box::from_raw(self.0)) } } }
    let _free = Free(mock);
    let mut env = Env { mock: unsafe { &*mock }, objs: vec![], dropped: vec![], zdropped: 0 };
    let mut lens: Vec<usize> = (0..=dense).collect();
    lens.extend([255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537].iter().filter(|l| **l > dense));
    let t = ctx.choose(types.len() + 6);
    if t < types.len() {
        let s = for_type!(types[t], V => size_of::<V>());
        lens.retain(|l| *l <= 64 || l * s <= 70000);
        for_type!(types[t], V => copy_op::<V>(ctx, &mut env, &lens));
    } else {
        let k = [0usize, 1, 2, 5, 4, 7][t - types.len()];
        lens.retain(|l| *l <= 1100);
        for_tok!(k, V => vec_wide::<V>(ctx, &mut env, &lens));
    }
    if ctx.skipped() { return }
    env.audit("call");
    ctx.outcome(&(env.objs.iter().map(|o| (o.name.clone(), o.bytes.1)).collect::<Vec<_>>(), env.mock.calls.borrow().iter().map(|c| (c.size, c.align, c.block.map(|b| b.1))).collect::<Vec<_>>()));
    for i in 0..env.objs.len() { if let Some(d) = env.objs[i].drop.take() { nopanic("dropping an object", d) } }
    check!(ledger::alive_ids().is_empty() && ledger::with(|l| l.zst_made == l.zst_dropped), "values were never dropped");
    for b in env.mock.blocks.borrow().iter() { check!(b.intact(), "memory outside of a block was written") }
}

fn body(ctx: &mut Ctx, real: bool, toks: &'static [usize], types: &'static [usize], fresh: bool) {
    let mock = std::boxed::Box::into_raw(std::boxed::Box::new(Mock::new(real)));
    struct Free(*mut Mock);
    impl Drop for Free { fn drop(&mut self) { unsafe { drop(std::boxed::Box::from_raw(self.0)) } } }
    let _free = Free(mock);
    let mut env = Env { mock: unsafe { &*mock }, objs: vec![], dropped: vec![], zdropped: 0 };
    for _ in 0..ctx.depth {
        let t = ctx.choose(toks.len() + types.len());
        if ctx.skipped() { break }
        if t < toks.len() { for_tok!(toks[t], V => value_op::<V>(ctx, &mut env, fresh)) }
        else { for_type!(types[t - toks.len()], V => copy_op::<V>(ctx, &mut env, if fresh { &[0, 1, 2, 3, 4, 5] } else { &[0, 1, 2] })) }
        ctx.note(&(env.objs.iter().map(|o| (o.name.clone(), o.bytes.1)).collect::<Vec<_>>()));
        env.audit("call");
    }
    ctx.outcome(&(env.objs.iter().map(|o| (o.name.clone(), o.bytes.1)).collect::<Vec<_>>(), env.dropped.clone(), env.mock.calls.borrow().iter().map(|c| (c.size, c.align, c.block.map(|b| b.1))).collect::<Vec<_>>()));
    for i in 0..env.objs.len() {
        if let Some(d) = env.objs[i].drop.take() { nopanic("dropping an object", d) }
    }
    let alive = ledger::alive_ids();
    check!(alive.is_empty(), "values {alive:?} were never dropped");
    check!(ledger::with(|l| l.zst_made == l.zst_dropped), "zero-sized values were lost");
    for b in env.mock.blocks.borrow().iter() { check!(b.intact(), "memory outside of a block was written") }
}

static TOKS: [usize; 8] = [0, 1, 2, 4, 5, 6, 7, 8];
static TYPES: [usize; 14] = [0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14];
static FEW_TOKS: [usize; 4] = [0, 2, 6, 8];
static FEW_TYPES: [usize; 4] = [0, 3, 5, 12];

static BIG_TOKS: [usize; 1] = [9];
static BIG_TYPES: [usize; 6] = [15, 16, 17, 18, 19, 22];

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let q = tier == Tier::Quick;
    let _ = tok_name;
    vec![
        Scenario::new("one copy or vector, many lengths", 1, move |c| wide(c, &TYPES, if q { 140 } else { 600 })).split(if q { 2 } else { 16 }, 3),
        Scenario::new("one call, every type", 1, |c| body(c, false, &TOKS, &TYPES, true)),
        Scenario::new("one call, large types", 1, |c| body(c, false, &BIG_TOKS, &BIG_TYPES, true)),
        Scenario::new("two calls, large types", 2, |c| body(c, false, &BIG_TOKS, &BIG_TYPES[3..], false)).split(8, 3),
        Scenario::new("one copy or vector of large types, many lengths", 1, |c| wide(c, &BIG_TYPES, 20)),
        Scenario::new("one call, every type, on a Bump", 1, |c| body(c, true, &TOKS, &TYPES, true)),
        Scenario::new("two calls, every type", 2, |c| body(c, false, &TOKS, &TYPES, false)).split(4, 1),
        Scenario::new("sequences of calls", if q { 2 } else { 3 }, |c| body(c, false, &FEW_TOKS, &FEW_TYPES, false)).split(if q { 1 } else { 16 }, 5),
        Scenario::new("sequences of calls on a Bump", if q { 3 } else { 4 }, |c| body(c, true, &FEW_TOKS, &FEW_TYPES, false)).split(8, 3),
    ]
}

fn main() {
    mcx::main(Meta {
        property: "P17",
        what: "every sequence of alloc_layout, alloc_t, boxed, rc, fixed_vec, copy_slice, copy_str and copy_dst (trait object, slice, string) on an allocator that for each call fails, returns the exact block, a larger one or a more aligned one, and on a real Bump that becomes exhausted; requests, placement, contents, length, untouched bytes of the block and around it, and the fate of the value are checked after each call",
        bounds: "8 identity types and 14 plain types (sizes 0 to 128, alignment 1 to 128), values of 73728 bytes and alignment 4096, lengths 0-5, 8 allocator behaviours: every pair of calls; single copies and vectors of length 0-140 (600) and around powers of two to 65537, with shifted sources; sequences of 2 (3) with 8 types, of 3 (4) on a Bump of 128 bytes; capacities around every overflow limit",
        assumptions: &["the allocator fulfils its contract"],
    }, scenarios)
}
