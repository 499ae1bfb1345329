//! P07: MemBump in borrowed memory.
use mcx::ctx::{nopanic, Ctx};
use mcx::driver::Meta;
use mcx::mem::{Owned, Region};
use mcx::{check, Scenario, Tier};
use seq::for_type;
use seq::vals::*;
use static_alloc::bump::Level;
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::MemBump;
use std::mem::MaybeUninit;

struct World {
    region: Region,
    bump: Option<LeakBox<'static, MemBump>>,
    mem: Option<&'static mut [MaybeUninit<u8>]>,
    /// (type, level before, offset from the start of the region)
    allocs: Vec<(usize, Level, usize)>,
    /// what the memory looked like: (address of the allocator, size, capacity, data address, level)
    shape: Option<(usize, usize, usize, usize, Level)>,
    owned: Owned,
    reattached: u32,
    moved: u32,
}

fn header() -> (usize, usize) {
    let r = Region::new(0, 256, 0);
    let b = MemBump::from_mem(unsafe { r.slice() }).ok().expect("256 bytes hold an allocator");
    let h = b.data_ptr().as_ptr() as usize - (&*b as *const MemBump as *const u8 as usize);
    (h, std::mem::align_of_val(&*b))
}

fn shape(b: &MemBump) -> (usize, usize, usize, usize, Level) {
    (b as *const MemBump as *const u8 as usize, std::mem::size_of_val(b), b.capacity(), b.data_ptr().as_ptr() as usize, b.level())
}

fn lv(l: Level) -> usize { if std::mem::size_of_val(&l) == 8 { unsafe { std::mem::transmute_copy(&l) } } else { 0 } }

fn inside(w: &World, what: &str) {
    let b = w.bump.as_ref().unwrap();
    let (addr, size, cap, data, _) = shape(b);
    check!(w.region.contains(addr, size), "{what}: the allocator [{addr:#x}, +{size}) is not inside of the memory [{:#x}, +{})", w.region.addr(), w.region.len());
    check!(w.region.contains(data, cap) && data + cap <= addr + size && data >= addr, "{what}: the data area [{data:#x}, +{cap}) is not inside of the allocator");
}

fn audit(w: &World, what: &str) {
    check!(w.region.intact(), "{what}: bytes outside of the borrowed memory were changed");
    w.owned.verify(what);
    if let Some(b) = &w.bump {
        inside(w, what);
        for &(ty, level, off) in &w.allocs {
            let got = for_type!(ty, V => unsafe { nopanic("get_unchecked", || b.get_unchecked::<V>(level)).ptr.as_ptr() as usize });
            check!(got == w.region.addr() + off, "{what}: looking up the {} allocated at offset {off} by its level gives offset {}", type_name(ty), got.wrapping_sub(w.region.addr()) as isize);
        }
    }
}

fn step(ctx: &mut Ctx, w: &mut World, types: &[usize]) {
    if let Some(mem) = w.mem.take() {
        let old = w.shape.unwrap();
        let at = mem.as_ptr() as usize;
        match ctx.choose(3) {
            0 => {
                ctx.op(|| "from_mem_unchecked".into());
                w.bump = Some(nopanic("from_mem_unchecked", || unsafe { MemBump::from_mem_unchecked(mem) }));
                w.reattached += 1;
            }
            1 => {
                // The documentation allows to copy the bytes; offsets stay valid. The other place has the same alignment.
                ctx.op(|| "copy the memory elsewhere, from_mem_unchecked".into());
                let off = w.region.addr() % 4096;
                let r = Region::new(off, w.region.len(), 0x11);
                unsafe { std::ptr::copy_nonoverlapping(w.region.ptr(), r.ptr(), r.len()) };
                let delta = r.addr().wrapping_sub(w.region.addr());
                unsafe { std::ptr::write_bytes(w.region.ptr(), 0xEE, w.region.len()) };
                for o in &mut w.owned.ranges { o.0 = o.0.wrapping_add(delta) }
                let mem2 = unsafe { &mut r.slice()[at - w.region.addr()..][..mem.len()] };
                w.region = r;
                w.bump = Some(nopanic("from_mem_unchecked", || unsafe { MemBump::from_mem_unchecked(mem2) }));
                w.moved += 1;
                let s = w.shape.as_mut().unwrap();
                s.0 = s.0.wrapping_add(delta); s.3 = s.3.wrapping_add(delta);
            }
            _ => {
                ctx.op(|| "from_mem (start over)".into());
                let b = nopanic("from_mem", || MemBump::from_mem(mem));
                check!(b.is_ok(), "from_mem on memory returned from into_mem failed");
                w.bump = b.ok();
                let (a, s, c, d, l) = shape(w.bump.as_ref().unwrap());
                check!((a, s, c, d) == (old.0, old.1, old.2, old.3), "an allocator in the returned memory has another shape");
                check!(lv(l) == 0 || l == w.allocs.first().map_or(l, |x| x.1), "a fresh allocator is not empty");
                w.allocs.clear();
                w.owned.clear();
                return;
            }
        }
        let s = shape(w.bump.as_ref().unwrap());
        check!(s == w.shape.unwrap(), "re-attached allocator differs: (address, size, capacity, data, level) {s:?}, before {:?}", w.shape.unwrap());
        return;
    }
    let c = ctx.choose(types.len() * 4 + 2);
    if c < types.len() * 4 {
        let (form, ty) = (c / types.len(), types[c % types.len()]);
        let b = w.bump.as_ref().unwrap();
        let level = b.level();
        ctx.op(|| format!("allocate {} with form {form} at {level:?}", type_name(ty)));
        let (size, addr) = for_type!(ty, V => (std::mem::size_of::<V>(), nopanic("allocation", || match form {
            0 => b.get::<V>().map(|x| x.ptr.as_ptr() as usize),
            1 => b.get_at::<V>(level).ok().map(|x| x.ptr.as_ptr() as usize),
            2 => b.bump_box::<V>().ok().map(|x| LeakBox::into_raw(x) as *mut u8 as usize),
            _ => b.bump_array::<V>(2).ok().map(|x| LeakBox::into_raw(x) as *mut u8 as usize),
        })));
        let size = if form == 3 { size * 2 } else { size };
        if let Some(addr) = addr {
            if size > 0 {
                check!(w.region.contains(addr, size), "allocation [{addr:#x}, +{size}) outside of the borrowed memory");
                w.owned.add("allocation", addr, size);
                w.allocs.push((ty, level, addr - w.region.addr()));
            }
        }
        return;
    }
    if c == types.len() * 4 {
        ctx.op(|| "into_mem".into());
        let b = w.bump.take().unwrap();
        let s = shape(&b);
        w.shape = Some(s);
        let mem = nopanic("into_mem", || MemBump::into_mem(b));
        check!(mem.as_ptr() as usize == s.0 && mem.len() == s.1, "into_mem returns [{:p}, +{}) instead of [{:#x}, +{})", mem.as_ptr(), mem.len(), s.0, s.1);
        // keep our own provenance
        let off = s.0 - w.region.addr();
        w.mem = Some(unsafe { &mut w.region.slice()[off..off + s.1] });
    } else {
        ctx.op(|| "reset".into());
        nopanic("reset", || w.bump.as_mut().unwrap().reset());
        w.allocs.clear();
        w.owned.clear();
    }
}

fn body(ctx: &mut Ctx, offs: &[usize], lens: &[usize], types: &[usize], prune: bool) {
    let off = ctx.pick(offs);
    let len = ctx.pick(lens);
    if ctx.skipped() { return }
    let (h, ha) = header();
    let region = Region::new(off, len, 0xB3);
    let pad = (ha - region.addr() % ha) % ha;
    let expect = pad + h <= len;
    ctx.op(|| format!("from_mem({len} bytes at an address of {off} modulo 4096)"));
    let mem = unsafe { region.slice() };
    let b = nopanic("from_mem", || MemBump::from_mem(mem));
    check!(b.is_ok() == expect, "from_mem on {len} bytes at offset {off}: {}", if expect { "refused although an aligned header fits" } else { "accepted although no aligned header fits" });
    check!(region.intact(), "from_mem changed bytes outside of the memory");
    let Ok(b) = b else {
        let s = unsafe { std::slice::from_raw_parts(region.ptr(), len) };
        ctx.outcome(&(off, len, 0));
        let _ = s;
        return;
    };
    let mut w = World { region, bump: Some(b), mem: None, allocs: vec![], shape: None, owned: Owned::new(), reattached: 0, moved: 0 };
    inside(&w, "from_mem");
    {
        // empty: all of the capacity can be allocated
        let b = w.bump.as_ref().unwrap();
        let c = b.capacity();
        if c > 0 {
            let l = std::alloc::Layout::from_size_align(c, 1).unwrap();
            check!(nopanic("alloc", || b.alloc(l)).is_some(), "a fresh allocator does not provide its capacity of {c} bytes");
            nopanic("reset", || w.bump.as_mut().unwrap().reset());
        }
    }
    for i in 0..ctx.depth {
        let l = w.bump.as_ref().map_or_else(|| w.shape.unwrap().4, |b| b.level());
        let st = (off, len, lv(l), w.bump.is_some(), w.allocs.iter().map(|x| (x.0, lv(x.1), x.2)).collect::<Vec<_>>(), w.reattached.min(1), w.moved.min(1));
        if prune { if !ctx.visit(&st, ctx.depth - i) { return } } else { ctx.note(&st); if ctx.skipped() { return } }
        step(ctx, &mut w, types);
        audit(&w, "after the call");
    }
    ctx.outcome(&(off, len, w.allocs.iter().map(|x| (x.0, x.2)).collect::<Vec<_>>()));
}

/// Any number of bytes, then a value, then conversions.
fn wide(ctx: &mut Ctx, len: usize, dense: bool) {
    let off = ctx.choose(9);
    let marks = seq::bumpseq::marks(len, dense);
    let p = ctx.pick(&marks);
    if ctx.skipped() { return }
    let region = Region::new(off, len, 0xB3);
    let Ok(b) = nopanic("from_mem", || MemBump::from_mem(unsafe { region.slice() })) else { mcx::fail!("from_mem refused {len} bytes") };
    let mut w = World { region, bump: Some(b), mem: None, allocs: vec![], shape: None, owned: Owned::new(), reattached: 0, moved: 0 };
    inside(&w, "from_mem");
    let b = w.bump.as_ref().unwrap();
    if p > 0 {
        let l = std::alloc::Layout::from_size_align(p, 1).unwrap();
        let fits = p <= b.capacity();
        ctx.op(|| format!("alloc({p}) in {len} bytes at an address of {off} modulo 4096"));
        let got = nopanic("alloc", || b.alloc(l));
        check!(got.is_some() == fits, "alloc({p}) of {} bytes: {}", b.capacity(), got.is_some());
        let Some(a) = got else { return };
        check!(w.region.contains(a.as_ptr() as usize, p), "allocation outside of the borrowed memory");
        w.owned.add("allocation", a.as_ptr() as usize, p);
    }
    step(ctx, &mut w, &[0, 3, 7, 10, 13]);
    audit(&w, "after the call");
    for _ in 0..if w.mem.is_some() { 2 } else { 3 } {
        if w.mem.is_none() && w.bump.is_some() && w.shape.is_none() {
            ctx.op(|| "into_mem".into());
            let b = w.bump.take().unwrap();
            let s = shape(&b);
            w.shape = Some(s);
            let mem = nopanic("into_mem", || MemBump::into_mem(b));
            check!(mem.as_ptr() as usize == s.0 && mem.len() == s.1, "into_mem returns [{:p}, +{}) instead of [{:#x}, +{})", mem.as_ptr(), mem.len(), s.0, s.1);
            let o = s.0 - w.region.addr();
            w.mem = Some(unsafe { &mut w.region.slice()[o..o + s.1] });
        } else { step(ctx, &mut w, &[3, 7]) }
        audit(&w, "after the call");
    }
    ctx.outcome(&(off, p, w.allocs.iter().map(|x| (x.0, x.2)).collect::<Vec<_>>()));
}

/// Values of large sizes and alignments, looked up in re-attached memory of some hundred thousand bytes.
fn huge(ctx: &mut Ctx) {
    let len = 400000usize;
    let off = ctx.pick(&[0usize, 1, 8, 4096]);
    let types: &[usize] = &[3, 14, 15, 16, 17, 19, 20, 21, 22, 23];
    if ctx.skipped() { return }
    let region = Region::foreign(unsafe { seq::bumpseq::pages(len + off).add(off) }, len);
    let b = nopanic("from_mem", || MemBump::from_mem(unsafe { region.slice() }));
    let Ok(b) = b else { mcx::fail!("from_mem refused {len} bytes") };
    let mut w = World { region, bump: Some(b), mem: None, allocs: vec![], shape: None, owned: Owned::new(), reattached: 0, moved: 0 };
    inside(&w, "from_mem");
    for i in 0..ctx.depth {
        let pre = ctx.pick(&[0usize, 1, 63, 300, 5000, 66000]);
        let (form, ty) = (ctx.choose(4), ctx.pick(types));
        let b = w.bump.as_ref().unwrap();
        if pre > 0 { if let Some(p) = nopanic("alloc", || b.alloc(std::alloc::Layout::from_size_align(pre, 1).unwrap())) { w.owned.add("allocation", p.as_ptr() as usize, pre) } }
        let level = b.level();
        ctx.op(|| format!("{pre} bytes, then {} with form {form} at {level:?}", type_name(ty)));
        let n = if form == 3 { 3 } else { 1 };
        let (size, addr) = for_type!(ty, V => (std::mem::size_of::<V>() * n, nopanic("allocation", || match form {
            0 => b.get::<V>().map(|x| x.ptr.as_ptr() as usize),
            1 => b.get_at::<V>(level).ok().map(|x| x.ptr.as_ptr() as usize),
            2 => b.bump_box::<V>().ok().map(|x| LeakBox::into_raw(x) as *mut u8 as usize),
            _ => b.bump_array::<V>(n).ok().map(|x| LeakBox::into_raw(x) as *mut u8 as usize),
        })));
        if let Some(addr) = addr {
            check!(addr % type_layout(ty).align() == 0, "allocation {addr:#x} is not aligned to {}", type_layout(ty).align());
            if size > 0 {
                check!(w.region.contains(addr, size), "allocation [{addr:#x}, +{size}) outside of the borrowed memory");
                w.owned.add("allocation", addr, size);
                w.allocs.push((ty, level, addr - w.region.addr()));
            }
        }
        audit(&w, "after the call");
        if i + 1 < ctx.depth && ctx.flag() { continue }
        let b = w.bump.take().unwrap();
        let s = shape(&b);
        let mem = nopanic("into_mem", || MemBump::into_mem(b));
        check!(mem.as_ptr() as usize == s.0 && mem.len() == s.1, "into_mem returns [{:p}, +{}) instead of [{:#x}, +{})", mem.as_ptr(), mem.len(), s.0, s.1);
        let o = s.0 - w.region.addr();
        let mem = unsafe { &mut w.region.slice()[o..o + s.1] };
        w.bump = Some(nopanic("from_mem_unchecked", || unsafe { MemBump::from_mem_unchecked(mem) }));
        let now = shape(w.bump.as_ref().unwrap());
        check!(s == now, "re-attached allocator differs: (address, size, capacity, data, level) {now:?}, before {s:?}");
        audit(&w, "after re-attaching");
    }
    ctx.outcome(&w.allocs.iter().map(|x| (x.0, x.2)).collect::<Vec<_>>());
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    let lens: Vec<usize> = if q { (0..=42).chain([56, 63, 64, 65, 100]).collect() } else { (0..=140).collect() };
    for o in 0..if q { 16 } else { 64 } {
        let (lens1, lens2) = (lens.clone(), lens.clone());
        v.push(Scenario::new(format!("offset {o}, all types"), if q { 4 } else { 5 }, move |c| body(c, &[o], &lens1, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13], true)));
        v.push(Scenario::new(format!("offset {o}, few types, every sequence"), if q { 4 } else { 5 }, move |c| body(c, &[o], &lens2.iter().copied().filter(|l| l % if q { 8 } else { 4 } < 2).collect::<Vec<_>>(), &[0, 2, 7], false)));
    }
    for (len, dense) in if q { vec![(150usize, true), (4200, false), (66000, false)] } else { vec![(150, true), (300, true), (1100, true), (4200, false), (66000, false), (200000, false)] } {
        v.push(Scenario::new(format!("any level in {len} bytes"), 5, move |c| wide(c, len, dense)).split(if q { 2 } else { 16 }, 2));
    }
    v.push(Scenario::new("values beyond 16 bits", 2, huge).split(if q { 8 } else { 16 }, 4));
    if q { v.last_mut().unwrap().depth = 1; } else { v.push(Scenario::new("values beyond 16 bits, one", 1, huge)); }
    v
}

fn main() {
    mcx::main(Meta {
        property: "P07",
        what: "for every start offset and length: from_mem, then every sequence of allocations (four call forms), reset, into_mem, re-attaching in place or after moving the bytes, starting over; after each call canaries, bounds, shape, content of all allocations and the address found by level are checked",
        bounds: "16 (64) start offsets, lengths 0..42 and some larger (0..140), 13 types of alignment 1..64; any level in 150 to 66000 (200000) bytes followed by a value and conversions; values of up to 70001 bytes and alignment 65536 in 400000 bytes; depth 3 (4) with pruning over all types, depth 4 (5) without pruning over few types",
        assumptions: &["moved memory keeps its address modulo 4096"],
    }, scenarios)
}
