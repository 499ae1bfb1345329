use mcx::ctx::nopanic;
use mcx::driver::Meta;
use mcx::mem::{Owned, Region};
use mcx::{check, Ctx, Scenario, Tier};
use seq::bumpseq::*;
use seq::vals::*;
use static_alloc::unsync::{Bump, MemBump};

fn model(base: usize, cap: usize, init: Option<Vec<u8>>) -> Model {
    Model { base, cap, used: 0, owned: Owned::new(), blocks: vec![], levels: vec![], high: 0, init, has_reset: false }
}

/// `unsync::Bump<T>` by value in a region.
fn typed_body<T: 'static>(ctx: &mut Ctx, offset: usize, zeroed: bool, al: &Alphabet, prune: bool) {
    let size = std::mem::size_of::<Bump<T>>();
    let region = Region::new(offset, size, 0x3C);
    let bump: &'static mut Bump<T> = unsafe { if zeroed { region.place(Bump::zeroed()) } else { region.place(Bump::uninit()) } };
    let cap = nopanic("capacity", || bump.capacity());
    let base = nopanic("data_ptr", || bump.data_ptr().as_ptr() as usize);
    check!(region.contains(base, cap), "data area [{base:#x}, +{cap}) is not inside of the allocator [{:#x}, +{size})", region.addr());
    // At least one T must fit a fresh allocator.
    let (ts, ta) = (std::mem::size_of::<T>(), std::mem::align_of::<T>());
    let need = (base + ta - 1) / ta * ta - base + ts;
    check!(need <= cap, "a fresh allocator (data area of {cap} bytes) cannot hold one value of size {ts}, align {ta}");
    let got = nopanic("get::<T>", || bump.get::<T>().is_some());
    check!(got, "a fresh unsync Bump refuses one value of its own type (size {ts}, align {ta})");
    nopanic("reset", || bump.reset());
    let mut m = model(base, cap, None);
    // The probe above consumed memory; afterwards the allocator is as fresh, by the reset property.
    m.high = cap;
    let mem: &mut MemBump = nopanic("deref_mut", || &mut **bump);
    run(ctx, mem, &mut m, al, &region, prune);
}

/// `unsync::Bump<T>` zeroed: fresh memory is zero, also without any probe.
fn zeroed_body<T: 'static>(ctx: &mut Ctx, offset: usize, al: &Alphabet) {
    let size = std::mem::size_of::<Bump<T>>();
    let region = Region::new(offset, size, 0x3C);
    let bump: &'static mut Bump<T> = unsafe { region.place(Bump::zeroed()) };
    let cap = nopanic("capacity", || bump.capacity());
    let base = nopanic("data_ptr", || bump.data_ptr().as_ptr() as usize);
    check!(region.contains(base, cap), "data area outside of the allocator");
    let ts = std::mem::size_of::<T>();
    // Only the bytes of T itself are promised to be zero.
    let start = (base + std::mem::align_of::<T>() - 1) / std::mem::align_of::<T>() * std::mem::align_of::<T>() - base;
    for i in start..start + ts { let b = unsafe { *((base + i) as *const u8) }; check!(b == 0, "byte {i} of zeroed storage is {b:#x}"); }
    let mut m = model(base, cap, None);
    let mem: &mut MemBump = &mut **bump;
    run(ctx, mem, &mut m, al, &region, true);
}

/// MemBump on the heap.
fn heap_body(ctx: &mut Ctx, cap: usize, al: &Alphabet, prune: bool) {
    mcx::galloc::dirty(true);
    let mut b = nopanic("MemBump::new", || mcx::galloc::tracked(|| MemBump::new(cap)));
    let c = b.capacity();
    check!(c == cap, "capacity {c} instead of {cap}");
    let base = b.data_ptr().as_ptr() as usize;
    check!(mcx::galloc::live() == 1, "the heap allocator owns {} blocks", mcx::galloc::live());
    check!(mcx::galloc::block_of(base, cap).is_some(), "data area is not inside of the heap block");
    let region = Region::new(0, 0, 0);
    let mut m = model(base, cap, None);
    run(ctx, &mut *b, &mut m, al, &region, prune);
    mcx::galloc::check_zones();
    mcx::galloc::tracked(|| drop(b));
    check!(mcx::galloc::live() == 0, "heap memory leaked");
    mcx::galloc::check_zones();
}

/// MemBump in borrowed memory.
fn mem_body(ctx: &mut Ctx, offset: usize, len: usize, al: &Alphabet, prune: bool) {
    let region = Region::new(offset, len, 0xFF);
    let mem = unsafe { region.slice() };
    let mut b = match nopanic("from_mem", || MemBump::from_mem(mem)) { Ok(b) => b, Err(_) => return };
    let cap = b.capacity();
    let base = b.data_ptr().as_ptr() as usize;
    check!(region.contains(base, cap), "data area is not inside of the borrowed memory");
    let mut m = model(base, cap, None);
    run(ctx, &mut *b, &mut m, al, &region, prune);
}

/// Large allocators.
fn typed_wide<T: 'static>(ctx: &mut Ctx, offset: usize, dense: bool, cond: bool) {
    let p = unsafe { pages(std::mem::size_of::<Bump<T>>() + offset).add(offset) } as *mut Bump<T>;
    let bump: &'static mut Bump<T> = unsafe { p.write(Bump::uninit()); &mut *p };
    let (cap, base) = (bump.capacity(), bump.data_ptr().as_ptr() as usize);
    check!(cap >= std::mem::size_of::<T>() && base >= p as usize && base + cap <= p as usize + std::mem::size_of::<Bump<T>>(), "data area is not inside of the allocator");
    let mem: &mut MemBump = &mut **bump;
    wide(ctx, mem, base, cap, dense, cond);
}
fn heap_wide(ctx: &mut Ctx, cap: usize, dense: bool, cond: bool) {
    mcx::galloc::dirty(true);
    let mut b = nopanic("MemBump::new", || mcx::galloc::tracked(|| MemBump::new(cap)));
    check!(b.capacity() == cap, "capacity {} instead of {cap}", b.capacity());
    let base = b.data_ptr().as_ptr() as usize;
    check!(mcx::galloc::block_of(base, cap).is_some(), "data area is not inside of the heap block");
    wide(ctx, &mut *b, base, cap, dense, cond);
    mcx::galloc::check_zones();
    mcx::galloc::tracked(|| drop(b));
    check!(mcx::galloc::live() == 0, "heap memory leaked");
}

/// Arrays of every length behind every alignment phase.
fn arrays_body(ctx: &mut Ctx, cap: usize) {
    let region = Region::new(8, cap + 8, 0xFF);
    let mem = unsafe { region.slice() };
    let Ok(mut b) = nopanic("from_mem", || MemBump::from_mem(mem)) else { mcx::fail!("from_mem refused {} bytes", cap + 8) };
    let (base, cap) = (b.data_ptr().as_ptr() as usize, b.capacity());
    let t = ctx.choose(seq::vals::MORE_TYPES.end);
    let pre = ctx.choose(17);
    if ctx.skipped() { return }
    let el = type_layout(t);
    let n = ctx.choose(if el.size() == 0 { 3 } else { cap / el.size() + 3 });
    if pre > 0 { check!(b.alloc(std::alloc::Layout::from_size_align(pre, 1).unwrap()).is_some(), "alloc({pre}) failed") }
    let mut m = model(base, cap, None);
    m.used = pre;
    let what = format!("bump_array::<{}>({n}) with {pre} of {cap} bytes used", type_name(t));
    ctx.op(|| what.clone());
    let got = nopanic(&what, || seq::for_type!(t, V => Api::array::<V>(&*b, n))).unwrap();
    let l = std::alloc::Layout::from_size_align(n * el.size(), el.align()).unwrap();
    match got {
        Err(_) => check!(l.size() > 0 && m.fit(pre, l).is_none(), "{what}: failed although it fits"),
        Ok((a, len)) => {
            check!(len == n && a % el.align() == 0, "{what}: slice of length {len} at {a:#x}");
            if l.size() > 0 { m.take(&what, a, l, false) }
        }
    }
    audit(&what, &mut *b, &mut m, &region);
    ctx.outcome(&(t, pre, n, m.used));
}

/// Arrays of more elements than 8 or 16 bits count.
fn long_arrays(ctx: &mut Ctx) {
    let len = 1200000usize;
    let b = nopanic("from_mem", || MemBump::from_mem(unsafe { std::slice::from_raw_parts_mut(pages(len) as *mut std::mem::MaybeUninit<u8>, len) }));
    let Ok(mut b) = b else { mcx::fail!("from_mem refused {len} bytes") };
    let (base, cap) = (b.data_ptr().as_ptr() as usize, b.capacity());
    let t = ctx.choose(seq::vals::MORE_TYPES.end);
    let n = ctx.pick(&[200usize, 255, 256, 257, 4095, 4097, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65600, 70000, 100000, 131072, 131075]);
    let pre = ctx.pick(&[0usize, 1, 65537]);
    if ctx.skipped() { return }
    let el = type_layout(t);
    if pre > 0 { check!(b.alloc(std::alloc::Layout::from_size_align(pre, 1).unwrap()).is_some(), "alloc({pre}) failed") }
    let mut m = model(base, cap, None);
    m.used = pre;
    let what = format!("bump_array::<{}>({n}) with {pre} of {cap} bytes used", type_name(t));
    ctx.op(|| what.clone());
    let got = nopanic(&what, || seq::for_type!(t, V => Api::array::<V>(&*b, n))).unwrap();
    let l = std::alloc::Layout::from_size_align(n * el.size(), el.align()).unwrap();
    let fit = m.fit(pre, l);
    let used = match got {
        Err(_) => { check!(l.size() > 0 && fit.is_none(), "{what}: failed although it fits"); pre }
        Ok((a, len)) => {
            check!(len == n && a % el.align() == 0, "{what}: slice of length {len} at {a:#x}");
            if l.size() == 0 { pre } else {
                check!(fit.is_some(), "{what}: succeeded although it does not fit");
                check!(a >= base + pre && a + l.size() <= base + cap, "{what}: slice at offset {}", a - base);
                a + l.size() - base
            }
        }
    };
    // The next byte comes behind the array.
    let r = nopanic("alloc", || b.alloc(std::alloc::Layout::new::<u8>()));
    match r {
        None => check!(used >= cap, "{what}: nothing left behind it although {used} of {cap} bytes are used"),
        Some(p) => check!(p.as_ptr() as usize == base + used, "{what}: the next byte is at offset {} instead of {used}", p.as_ptr() as usize - base),
    }
    ctx.outcome(&(t, pre, n, used));
}

/// Values of large sizes and alignments.
fn huge_body(ctx: &mut Ctx, offset: usize, cond: bool) {
    let len = 330000usize;
    let mem = unsafe { std::slice::from_raw_parts_mut(pages(len + offset).add(offset) as *mut std::mem::MaybeUninit<u8>, len) };
    let b = nopanic("from_mem", || MemBump::from_mem(mem));
    let Ok(mut b) = b else { mcx::fail!("from_mem refused {len} bytes") };
    let mut m = model(b.data_ptr().as_ptr() as usize, b.capacity(), None);
    let mut al = huge_alphabet(cond);
    al.arrays = vec![(20, 2), (20, 9), (21, 2), (22, 3), (23, 70000), (0, 65537), (1, 65536)];
    run(ctx, &mut *b, &mut m, &al, &Region::new(0, 0, 0), true);
}
fn huge_typed<T: 'static>(ctx: &mut Ctx, offset: usize) {
    let p = unsafe { pages(std::mem::size_of::<Bump<T>>() + offset).add(offset) } as *mut Bump<T>;
    let bump: &'static mut Bump<T> = unsafe { p.write(Bump::uninit()); &mut *p };
    let (cap, base) = (bump.capacity(), bump.data_ptr().as_ptr() as usize);
    let end = p as usize + std::mem::size_of::<Bump<T>>();
    check!(cap >= std::mem::size_of::<T>() && base >= p as usize && base + cap <= end, "data area is not inside of the allocator");
    check!(nopanic("get::<T>", || bump.get::<T>().is_some()), "a fresh unsync Bump refuses one value of its own type");
    nopanic("reset", || bump.reset());
    let mut m = model(base, cap, None);
    let mem: &mut MemBump = &mut **bump;
    run(ctx, mem, &mut m, &huge_alphabet(false), &Region::new(0, 0, 0), true);
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    let all: Vec<usize> = ALL_TYPES.collect();
    let arrays = vec![(0, 0), (0, 3), (3, 0), (3, 1), (3, 2), (2, 3), (11, 0), (11, 5), (13, 3), (9, 1), (0, usize::MAX), (1, usize::MAX / 2 + 1), (3, usize::MAX / 8), (11, usize::MAX)];
    let wide = |cap: usize, cond: bool| {
        let mut sizes: Vec<usize> = vec![1, 2, 3, 4, 5, 7, 8, 9, 16, cap / 2, cap.saturating_sub(1), cap, cap + 1];
        sizes.retain(|s| *s > 0); sizes.sort(); sizes.dedup();
        if cond { sizes.retain(|s| [1, 3, 8, cap, cap + 1].contains(s)); }
        let aligns: &[usize] = if cond { &[1, 4, 16] } else { &[1, 2, 4, 8, 16, 32, 64] };
        let layouts = sizes.iter().flat_map(|s| aligns.iter().map(move |a| (*s, *a))).chain([(1, 4096), (isize::MAX as usize - 63, 64)]).collect();
        Alphabet { layouts, types: if cond { vec![0, 3, 7, 9, 11, 13] } else { all.clone() }, arrays: arrays.clone(), conditional: cond, reset: true, forms: true }
    };
    let small = Alphabet { layouts: vec![(1, 1), (3, 2), (4, 4), (8, 8), (2, 16)], types: vec![0, 3, 11], arrays: vec![(1, 2), (11, 2)], conditional: false, reset: true, forms: true };
    let smallc = Alphabet { layouts: vec![(1, 1), (4, 4)], types: vec![0, 3, 11], arrays: vec![(1, 2)], conditional: true, reset: true, forms: false };
    macro_rules! ty { ($($t:ty),*) => { $( {
        let cap = std::mem::size_of::<$t>();
        let st = std::mem::align_of::<Bump<$t>>();
        let offs: Vec<usize> = if q { if cap > 24 { vec![0] } else { vec![0, st, 2 * st] } } else { (0..(128 / st).max(2)).map(|i| i * st).collect() };
        for off in offs {
            let al = wide(cap, false);
            let d = if q { 10 } else { 24 };
            v.push(Scenario::new(format!("Bump<{}>+{off} wide, pruned", stringify!($t)), d, move |c| typed_body::<$t>(c, off, false, &al, true)));
            let al = wide(cap, true);
            let d = if q { if cap <= 24 { 4 } else { 3 } } else { 6 };
            v.push(Scenario::new(format!("Bump<{}>+{off} conditional, pruned", stringify!($t)), d, move |c| typed_body::<$t>(c, off, true, &al, true)));
            let al = small.clone();
            v.push(Scenario::new(format!("Bump<{}>+{off} small, every sequence", stringify!($t)), if q { 3 } else { 5 }, move |c| typed_body::<$t>(c, off, false, &al, false)));
            let al = small.clone();
            v.push(Scenario::new(format!("Bump<{}>+{off} zeroed", stringify!($t)), if q { 3 } else { 5 }, move |c| zeroed_body::<$t>(c, off, &al)));
        }
    } )* } }
    ty!([u8; 0], [u8; 1], [u8; 8], [u8; 13], [u32; 3], [u64; 3], B16A16, B32A32, B64A64, Z64, B256A256, Z4096);
    if !q { ty!([u8; 2], [u8; 7], [u8; 9], [u8; 16], [u8; 31], [u64; 8], B128A128, B32A16, Z8); }
    let caps: Vec<usize> = if q { vec![0, 1, 5, 7, 8, 9, 16, 17, 24, 33] } else { (0..48).collect() };
    for cap in caps {
        let al = wide(cap, false);
        v.push(Scenario::new(format!("heap({cap}) wide, pruned"), if q { 8 } else { 20 }, move |c| heap_body(c, cap, &al, true)));
        let al = wide(cap, true);
        v.push(Scenario::new(format!("heap({cap}) conditional, pruned"), if q { 3 } else { 6 }, move |c| heap_body(c, cap, &al, true)));
        let al = small.clone();
        v.push(Scenario::new(format!("heap({cap}) small, every sequence"), if q { 3 } else { 5 }, move |c| heap_body(c, cap, &al, false)));
        let al = smallc.clone();
        v.push(Scenario::new(format!("heap({cap}) small conditional, every sequence"), if q { 3 } else { 4 }, move |c| heap_body(c, cap, &al, false)));
    }
    let places: Vec<(usize, usize)> = if q { vec![(0, 8), (0, 16), (0, 33), (1, 31), (3, 40), (7, 15), (4, 44)] } else { (0..9).flat_map(|o| [0, 7, 8, 9, 15, 16, 17, 24, 31, 40, 48, 64].map(|l| (o, l))).collect() };
    for (o, l) in places {
        let al = wide(l.saturating_sub(8), false);
        v.push(Scenario::new(format!("mem({l})+{o} wide, pruned"), if q { 8 } else { 20 }, move |c| mem_body(c, o, l, &al, true)));
        let al = wide(l.saturating_sub(8), true);
        v.push(Scenario::new(format!("mem({l})+{o} conditional, pruned"), if q { 3 } else { 6 }, move |c| mem_body(c, o, l, &al, true)));
        let al = small.clone();
        v.push(Scenario::new(format!("mem({l})+{o} small, every sequence"), if q { 3 } else { 5 }, move |c| mem_body(c, o, l, &al, false)));
    }
    v.push(Scenario::new("arrays of every length", 1, move |c| arrays_body(c, if q { 150 } else { 600 })).split(if q { 1 } else { 8 }, 2));
    v.push(Scenario::new("arrays of more elements than 16 bits", 1, long_arrays));
    for off in if q { vec![5] } else { vec![0, 1, 5, 4096] } {
        v.push(Scenario::new(format!("values beyond 16 bits in memory+{off}"), if q { 3 } else { 4 }, move |c| huge_body(c, off, false)));
        v.push(Scenario::new(format!("values beyond 16 bits in memory+{off}, conditional"), if q { 2 } else { 3 }, move |c| huge_body(c, off, true)));
    }
    macro_rules! huge { ($($t:ty),*) => { $( v.push(Scenario::new(format!("values beyond 16 bits in Bump<{}>", stringify!($t)), if q { 2 } else { 3 }, move |c| huge_typed::<$t>(c, 0))); )* } }
    huge!(B8192A8192, B65536A65536, B70001, Z65536, [B65536A65536; 3]);
    for cond in [false, true] {
        let n = if cond { "conditional requests" } else { "two requests" };
        let parts = if q { 1 } else { 4 };
        macro_rules! wide { ($($t:ty, $off:expr, $dense:expr;)*) => { $( v.push(Scenario::new(format!("{n} on Bump<{}>", stringify!($t)), 2, move |c| typed_wide::<$t>(c, $off, $dense, cond)).split(parts, 2)); )* } }
        wide!([u8; 200], 0, true; B4096A4096, 0, false; B1001, 0, false; B128A128, 0, true; [u64; 1024], 0, false;);
        let mems: &[(usize, usize, bool)] = if q { &[(3, 280, true), (0, 65700, false), (5, (5 << 30) + 3, false)] } else { &[(3, 280, true), (8, 600, true), (0, 65700, false), (1, 1 << 20, false), (5, (5 << 30) + 3, false), (0, 1 << 39, false)] };
        for &(off, len, dense) in mems { v.push(Scenario::new(format!("{n} in memory of {len} bytes"), 2, move |c| mem_wide(c, off, len, dense, cond)).split(parts, 2)) }
        for cap in if q { vec![300, 65700] } else { vec![300, 511, 1000, 65535, 65700, (1 << 20) + 5] } { v.push(Scenario::new(format!("{n} on heap({cap})"), 2, move |c| heap_wide(c, cap, cap < 400, cond)).split(parts, 2)) }
    }
    v
}

fn main() {
    mcx::main(Meta {
        property: "P06",
        what: "every sequence of alloc/alloc_at/get/get_at/bump_box/bump_array/level/reset on the real unsync allocator, in lockstep with an interval model; each way of creating it is a separate scenario; heap blocks come from a checking allocator that hands out dirty memory",
        bounds: "Bump<T> for 10-19 storage types with alignments 1..128, MemBump::new and from_mem with all listed capacities/offsets; sizes around every boundary plus impossible ones, alignments 1..64, 4096 and 65536, values of up to 70001 bytes; two requests (conditional or not) of any size on memory of 128 bytes to 5 GiB (512 GiB), arrays of every length up to the capacity and of up to 131075 elements; sequences pruned by (consumed, high-water mark, levels, was reset) to the full depth, unpruned to a smaller depth",
        assumptions: &["the abstraction used for pruning determines future behaviour; scenarios without pruning guard against hidden state"],
    }, scenarios)
}
