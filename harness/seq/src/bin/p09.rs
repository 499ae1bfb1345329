//! P09: Chain of bumps.
use mcx::ctx::{nopanic, Ctx};
use mcx::driver::Meta;
use mcx::galloc::{self, tracked};
use mcx::mem::align_up;
use mcx::{check, fail, Scenario, Tier};
use seq::for_type;
use seq::vals::*;
use static_alloc::bump::Failure;
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::Chain;

struct Val { addr: usize, len: usize, tag: u8, block: usize }
struct C { chain: Chain, base: usize, cap: usize, used: usize, block: usize, blocks: Vec<usize>, vals: Vec<Val> }

struct World { cs: Vec<C>, off: usize, tag: u8 }

fn root_block(c: usize) -> usize { c }

/// Offset of the data area in a heap block.
fn data_offset() -> usize {
    let c = tracked(|| Chain::new(64)).ok().expect("64 bytes");
    let b = c.bump_box::<u8>().expect("one byte of 64");
    let addr = LeakBox::into_raw(b) as *mut u8 as usize;
    let blk = galloc::block_of(addr, 1);
    let Some((p, _)) = blk else { fail!("a box is not inside of the memory that the chain allocated") };
    let r = addr - p;
    tracked(|| drop(c));
    galloc::reset();
    r
}

fn new_blocks(before: &[usize]) -> Vec<usize> { galloc::blocks().into_iter().filter(|b| !before.contains(b)).collect() }

fn audit(w: &World, what: &str) {
    galloc::check_zones();
    let live = galloc::blocks();
    for (i, c) in w.cs.iter().enumerate() {
        for b in &c.blocks { check!(live.contains(b), "{what}: memory of chain {i} was released although the chain is alive") }
        for v in &c.vals {
            let s = unsafe { std::slice::from_raw_parts(v.addr as *const u8, v.len) };
            if let Some(k) = s.iter().position(|b| *b != v.tag) { fail!("{what}: byte {k} of a value of {} bytes in chain {i} was changed", v.len) }
        }
        let cap = c.chain.capacity();
        check!(cap == c.cap, "{what}: chain {i} has capacity {cap} instead of {}", c.cap);
        let rem = c.chain.remaining_capacity();
        check!(rem == c.cap - c.used, "{what}: chain {i} has {rem} bytes remaining instead of {}", c.cap - c.used);
    }
    let owned: usize = w.cs.iter().map(|c| c.blocks.len()).sum();
    check!(live.len() == owned, "{what}: {} heap blocks alive, the chains own {owned}", live.len());
}

fn step(ctx: &mut Ctx, w: &mut World, sizes: &[usize], types: &[usize], max_chains: usize, faults: bool) {
    let n = w.cs.len();
    let new = sizes.len() * (1 + faults as usize) + 3;
    let c = ctx.choose(new + n * types.len() + n * n);
    let before = galloc::blocks();
    if c < new {
        let fault = c >= sizes.len() && c < new - 3;
        let size = if c < new - 3 { sizes[c % sizes.len()] } else { [usize::MAX, isize::MAX as usize - 7, isize::MAX as usize - 64][c - (new - 3)] };
        ctx.op(|| format!("Chain::new({size}){}", if fault { " with a failing global allocator" } else { "" }));
        if n >= max_chains && size < 1 << 20 && !fault { return }
        if fault { galloc::fail_at(1) }
        let r = nopanic("Chain::new", || tracked(|| Chain::new(size)));
        galloc::fail_at(0);
        match r {
            Err(e) => {
                let told = e.allocation_size();
                check!(told >= size && (told - size < 128 || size > isize::MAX as usize - 128), "Chain::new({size}) reports that {told} bytes could not be allocated");
                check!(fault || size > 1 << 26, "Chain::new({size}) failed");
                check!(galloc::blocks() == before, "a failed Chain::new leaks memory");
            }
            Ok(chain) => {
                check!(!fault && size <= 1 << 26, "Chain::new({size}) succeeded although the memory could not be allocated");
                let nb = new_blocks(&before);
                check!(nb.len() == 1, "Chain::new took {} blocks of memory", nb.len());
                let base = nb[0] + w.off;
                check!(galloc::block_of(base, size).is_some(), "the memory of a chain of capacity {size} is too small");
                w.cs.push(C { chain, base, cap: size, used: 0, block: nb[0], blocks: nb, vals: vec![] });
            }
        }
        return;
    }
    let c = c - new;
    if c < n * types.len() {
        let (i, ty) = (c / types.len(), types[c % types.len()]);
        let l = type_layout(ty);
        ctx.op(|| format!("bump_box::<{}> on chain {i} with {} of {} bytes used", type_name(ty), w.cs[i].used, w.cs[i].cap));
        let e = &mut w.cs[i];
        let r = nopanic("bump_box", || for_type!(ty, V => e.chain.bump_box::<V>().map(|b| LeakBox::into_raw(b) as *mut u8 as usize)));
        if l.size() == 0 {
            match r {
                Ok(p) => check!(p != 0 && p % l.align() == 0, "zero-sized box at {p:#x}"),
                Err(f) => fail!("a zero-sized box could not be allocated: {f:?}"),
            }
            return;
        }
        let s = align_up(e.base + e.used, l.align());
        let fits = s + l.size() <= e.base + e.cap;
        match r {
            Err(f) => { check!(!fits, "bump_box::<{}> failed although it fits the newest link ({} of {} bytes used)", type_name(ty), e.used, e.cap); check!(f == Failure::Exhausted, "failure is {f:?}") }
            Ok(p) => {
                check!(p % l.align() == 0, "box at {p:#x} is not aligned to {}", l.align());
                check!(fits, "bump_box::<{}> succeeded although it does not fit", type_name(ty));
                check!(p >= e.base && p + l.size() <= e.base + e.cap, "box [{p:#x}, +{}) is not inside of the newest link [{:#x}, +{})", l.size(), e.base, e.cap);
                for v in &e.vals { check!(p + l.size() <= v.addr || v.addr + v.len <= p, "box [{p:#x}, +{}) overlaps an earlier one [{:#x}, +{})", l.size(), v.addr, v.len) }
                check!(p == s, "box at offset {} instead of {}", p - e.base, s - e.base);
                w.tag = if w.tag >= 250 { 1 } else { w.tag + 1 };
                unsafe { std::ptr::write_bytes(p as *mut u8, w.tag, l.size()) };
                let block = root_block(e.block);
                e.vals.push(Val { addr: p, len: l.size(), tag: w.tag, block });
                e.used = p + l.size() - e.base;
            }
        }
        return;
    }
    let c = c - n * types.len();
    let (i, j) = (c / n, c % n);
    if i == j {
        ctx.op(|| format!("drop chain {i}"));
        let e = w.cs.remove(i);
        nopanic("drop of a chain", || tracked(|| drop(e.chain)));
        let live = galloc::blocks();
        for b in &e.blocks { check!(!live.contains(b), "dropping the chain leaks the memory of one of its links") }
    } else {
        ctx.op(|| format!("join chain {j} into chain {i}"));
        let mut src = w.cs.remove(j);
        let i = if j < i { i - 1 } else { i };
        let e = &mut w.cs[i];
        nopanic("Chain::chain", || tracked(|| e.chain.chain(src.chain)));
        let live = galloc::blocks();
        check!(live.contains(&src.block), "joining released the newest link of the joined chain");
        // Older links of the joined chain are released now, as documented, or kept.
        src.blocks.retain(|b| live.contains(b));
        src.vals.retain(|v| live.contains(&v.block));
        e.base = src.base; e.cap = src.cap; e.used = src.used; e.block = src.block;
        e.blocks.extend(src.blocks);
        e.vals.extend(src.vals);
    }
}

fn body(ctx: &mut Ctx, sizes: &[usize], types: &[usize], max_chains: usize, faults: bool, prune: bool) {
    galloc::dirty(true);
    let off = data_offset();
    galloc::dirty(true);
    let mut w = World { cs: vec![], off, tag: 0 };
    for i in 0..ctx.depth {
        let mut all: Vec<usize> = w.cs.iter().flat_map(|c| c.blocks.iter().copied()).collect();
        all.sort();
        let st: Vec<_> = w.cs.iter().map(|c| (c.cap, c.used, c.blocks.len(), c.vals.iter().map(|v| (v.addr.wrapping_sub(v.block), v.len, c.blocks.iter().position(|b| *b == v.block))).collect::<Vec<_>>())).collect();
        if prune { if !ctx.visit(&st, ctx.depth - i) { break } } else { ctx.note(&st); if ctx.skipped() { break } }
        step(ctx, &mut w, sizes, types, max_chains, faults);
        audit(&w, "after the call");
    }
    ctx.outcome(&w.cs.iter().map(|c| (c.cap, c.used, c.blocks.len(), c.vals.len())).collect::<Vec<_>>());
    // The remaining chains go out of scope.
    let blocks: Vec<usize> = w.cs.iter().flat_map(|c| c.blocks.clone()).collect();
    let cs = std::mem::take(&mut w.cs);
    for c in cs { let ch = c.chain; nopanic("drop of a chain", || tracked(|| drop(ch))); }
    check!(galloc::live() == 0, "{} of {} links leaked at the end", galloc::live(), blocks.len());
    galloc::check_zones();
}

/// Chains of many links are dropped without using much stack.
fn long(ctx: &mut Ctx) {
    let n = ctx.pick(&[1usize, 2, 3, 10, 1000, 20000]);
    let new_is_long = ctx.flag();
    ctx.op(|| format!("join {n} chains on a small stack{}, drop", if new_is_long { ", join the result into another" } else { "" }));
    ctx.note(&(n, new_is_long));
    let ok = std::thread::Builder::new().stack_size(128 << 10).spawn(move || {
        let c = Chain::new(8).ok().unwrap();
        for _ in 0..n { c.chain(Chain::new(8).ok().unwrap()); }
        if new_is_long {
            let d = Chain::new(8).ok().unwrap();
            d.chain(c);
            drop(d);
        } else {
            drop(c);
        }
    }).unwrap().join().is_ok();
    check!(ok, "panic while dropping a chain of {n} links");
    ctx.outcome(&(n, new_is_long));
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let q = tier == Tier::Quick;
    let mut v = vec![Scenario::new("long chains", 1, long)];
    v.push(Scenario::new("many sizes, one chain", if q { 5 } else { 7 }, |c| body(c, &[0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 64, 100], &ALL_TYPES.collect::<Vec<_>>(), 1, true, true)));
    v.push(Scenario::new("several chains, pruned", if q { 7 } else { 9 }, |c| body(c, &[0, 1, 8, 13, 24], &[0, 2, 7, 11], 3, true, true)).split(if q { 4 } else { 8 }, 2));
    v.push(Scenario::new("up to four chains, pruned", if q { 8 } else { 11 }, |c| body(c, &[8, 20], &[0, 3], 4, false, true)).split(if q { 4 } else { 8 }, 2));
    v.push(Scenario::new("several chains, every sequence", if q { 5 } else { 7 }, |c| body(c, &[8, 13], &[0, 2, 7], 3, true, false)).split(if q { 2 } else { 8 }, 2));
    let big: &'static [usize] = if q { &[257, 65535, 65537, (1 << 20) + 3] } else { &[255, 257, 4097, 65535, 65536, 65537, (1 << 20) + 3, (1 << 24) + 9] };
    v.push(Scenario::new("links of more than 16 bits", if q { 4 } else { 5 }, move |c| body(c, big, &[0, 7], 2, true, true)).split(if q { 2 } else { 8 }, 2));
    v.push(Scenario::new("values beyond 16 bits", if q { 4 } else { 5 }, |c| body(c, &[70000, 200000, (1 << 20) + 3], &[0, 16, 20, 21, 22, 23], 2, false, false)).split(if q { 2 } else { 8 }, 2));
    v
}

fn main() {
    mcx::main(Meta {
        property: "P09",
        what: "every sequence of Chain::new (valid, impossible and failing sizes), bump_box, chain (joining any chain into any other) and drop on the real types, on a checking global allocator that records blocks, layouts, double frees and writes outside of blocks, in lockstep with a model of links; contents of all boxes are checked after each call",
        bounds: "up to 3-4 chains at a time, depth 5 to 8 (7 to 11), link sizes 0..100, 15 types, and up to 1 MiB (16 MiB), values of up to 70001 bytes and alignment 65536; long chains of up to 20000 links on a 128 KiB stack",
        assumptions: &["links of the joined chain other than its newest may be released by joining, as documented; nothing can borrow from them at that point"],
    }, scenarios)
}
