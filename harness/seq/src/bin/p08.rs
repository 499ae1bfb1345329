//! P08: Alloca.
use mcx::ctx::{catch, fail_later, nopanic, Ctx};
use mcx::driver::Meta;
use mcx::ledger::{self, Identity, Tok};
use mcx::{check, Scenario, Tier};
use seq::for_type;
use seq::vals::*;
use static_alloc::leaked::Alloca;
use std::hint::black_box;
use std::mem::MaybeUninit;

const MAX: usize = 1 << 20;

/// The (type, length) pairs of one run.
fn lens(ty: usize, dense: usize) -> Vec<usize> {
    let size = type_layout(ty).size();
    if size == 0 { return vec![0, 1, 2, 3, 7, 100, 1 << 30, usize::MAX / 2, usize::MAX - 1] }
    let mut v: Vec<usize> = (0..=dense).collect();
    for k in 3..=20 {
        let b = (1usize << k) / size;
        for d in 0..6 { v.push((b + d).saturating_sub(3)); }
    }
    v.retain(|l| (l + 1) * size <= MAX);
    v.sort();
    v.dedup();
    v
}

#[inline(never)]
fn shift<const N: usize, R>(f: impl FnOnce() -> R) -> R {
    let pad = black_box([0u64; N]);
    let r = f();
    black_box(&pad);
    r
}
fn shifted<R>(n: usize, f: impl FnOnce() -> R) -> R {
    match n {
        0 => shift::<1, R>(f), 1 => shift::<3, R>(f), 2 => shift::<5, R>(f), 3 => shift::<7, R>(f),
        4 => shift::<9, R>(f), 5 => shift::<11, R>(f), 6 => shift::<13, R>(f), _ => shift::<15, R>(f),
    }
}

struct Frame { addr: usize, len: usize, tag: u8 }

/// Run one Alloca with everything below it, given by the plan.
fn run_plan(plan: &[(usize, usize, bool)], frames: &mut Vec<Frame>, tok: Tok, panic_inside: bool) -> Tok {
    let Some(&(ty, len, twice)) = plan.first() else {
        if panic_inside { drop(tok); panic!("inner panic") }
        return tok;
    };
    for_type!(ty, V => {
        let a = nopanic("Alloca::new", || Alloca::<V>::new(len));
        let Some(a) = a else { mcx::fail!("Alloca::new({len}) refuses a valid length") };
        let mut tok = tok;
        for round in 0..1 + twice as usize {
            let id = tok.id();
            let mut calls = 0;
            let depth = frames.len();
            let last = round == twice as usize;
            let r = a.run(|s: &mut [MaybeUninit<V>]| {
                calls += 1;
                if calls > 1 { fail_later("the closure was called more than once".into()) }
                let (al, sz) = (std::mem::align_of::<V>(), std::mem::size_of::<V>());
                let addr = s.as_ptr() as usize;
                if s.len() != len { fail_later(format!("asked for {len} elements of {}, got {}", type_name(ty), s.len())); return tok }
                if addr % al != 0 { fail_later(format!("slice of {} at misaligned address (alignment {al})", type_name(ty))); return tok }
                let bytes = len * sz;
                for f in frames.iter() {
                    if bytes > 0 && f.len > 0 && addr < f.addr + f.len && f.addr < addr + bytes { fail_later("the slice overlaps the slice of an enclosing run".into()); return tok }
                }
                let tag = 0x40 + frames.len() as u8;
                unsafe { std::ptr::write_bytes(addr as *mut u8, tag, bytes) };
                frames.push(Frame { addr, len: bytes, tag });
                let tok = if last { run_plan(&plan[1..], frames, tok, panic_inside) } else { tok };
                for f in frames.iter() {
                    let s = unsafe { std::slice::from_raw_parts(black_box(f.addr) as *const u8, f.len) };
                    if let Some(i) = s.iter().position(|b| *b != f.tag) { fail_later(format!("byte {i} of a slice of {} bytes was changed while its run is active", f.len)); break }
                }
                frames.truncate(depth);
                tok
            });
            check!(calls == 1, "the closure was called {calls} times");
            check!(r.id() == id, "run returned another value than its closure");
            tok = r;
        }
        tok
    })
}

fn exec(ctx: &mut Ctx, plan: &[(usize, usize, bool)], phase: usize, panic_inside: bool) {
    ctx.op(|| format!("runs {:?}, stack phase {phase}{}", plan.iter().map(|p| format!("{}x{}{}", type_name(p.0), p.1, if p.2 { " twice" } else { "" })).collect::<Vec<_>>(), if panic_inside { ", innermost closure panics" } else { "" }));
    ctx.note(&(plan, panic_inside, phase));
    let tok = Tok::new();
    let id = tok.id();
    let mut frames = vec![];
    let r = shifted(phase, || catch(|| run_plan(plan, &mut frames, tok, panic_inside)));
    match r {
        Ok(t) => {
            check!(!panic_inside, "a panic in the closure did not propagate");
            check!(t.id() == id, "run returned another value");
            check!(ledger::drop_ids().is_empty(), "the result was dropped");
            drop(t);
        }
        Err(m) => check!(panic_inside && m.starts_with("inner panic"), "unexpected panic: {m}"),
    }
    check!(ledger::drop_ids() == [id], "value dropped {} times", ledger::drop_ids().len());
    ctx.outcome(&plan);
}

fn single(ctx: &mut Ctx, ty: usize, dense: usize) {
    let ls = lens(ty, dense);
    let len = ctx.pick(&ls);
    if ctx.skipped() { return }
    let phase = ctx.choose(8);
    let p = ctx.flag();
    exec(ctx, &[(ty, len, phase & 1 == 1)], phase, p);
}

fn nested(ctx: &mut Ctx, levels: usize, types: &[usize], lens: &[usize]) {
    let mut plan = vec![];
    for _ in 0..levels {
        let ty = ctx.pick(types);
        let len = ctx.pick(lens);
        let size = type_layout(ty).size();
        let twice = ctx.flag();
        if (len + 1) * size > MAX { return }
        plan.push((ty, len, twice));
        if ctx.skipped() { return }
    }
    let phase = ctx.choose(2) * 3;
    let p = ctx.flag();
    exec(ctx, &plan, phase, p);
}

/// Construction for valid and invalid lengths.
fn construct(ctx: &mut Ctx) {
    let ty = ctx.choose(HUGE_TYPES.end);
    let size = type_layout(ty).size().max(1);
    let top = isize::MAX as usize;
    let mut ls = vec![0, 1, top, top - 1, top + 1, usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / size];
    for k in [top / size, (top - type_layout(ty).align() + 1) / size, usize::MAX / size] { for d in 0..7usize { ls.push(k.wrapping_add(d).wrapping_sub(3)); } }
    for k in 0..64 { ls.push((1usize << k) - 1); ls.push(1usize << k); }
    ls.sort();
    ls.dedup();
    let len = ctx.pick(&ls);
    ctx.op(|| format!("Alloca::<{}>::new({len})", type_name(ty)));
    let ok = nopanic(&format!("Alloca::<{}>::new({len})", type_name(ty)), || for_type!(ty, V => Alloca::<V>::new(len).is_some()));
    let (valid, padded) = for_type!(ty, V => (std::alloc::Layout::array::<V>(len).is_ok(), len.checked_add(1).is_some_and(|l| std::alloc::Layout::array::<V>(l).is_ok())));
    ctx.note(&(ty, len));
    ctx.outcome(&(ty, len, ok));
    if valid == padded { check!(ok == valid, "Alloca::<{}>::new({len}) is {}", type_name(ty), if ok { "accepted although the length has no valid layout" } else { "refused although the length has a valid layout" }) }
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let q = tier == Tier::Quick;
    let mut v = vec![Scenario::new("construction", 1, construct)];
    for ty in 0..HUGE_TYPES.end {
        let dense = if q { 1100 } else { 9000 };
        v.push(Scenario::new(format!("one run of {}", type_name(ty)), 1, move |c| single(c, ty, dense)));
    }
    v.push(Scenario::new("two nested runs", 2, move |c| nested(c, 2, &MORE_TYPES.collect::<Vec<_>>(), &[0, 1, 2, 3, 5, 8, 13, 31, 64, 200])).split(if q { 4 } else { 4 }, 2));
    if q {
        v.push(Scenario::new("three nested runs", 3, |c| nested(c, 3, &[0, 2, 7, 9, 11, 13], &[0, 1, 3, 9])).split(4, 2));
    } else {
        v.push(Scenario::new("three nested runs", 3, |c| nested(c, 3, &[0, 1, 3, 4, 5, 7, 9, 10, 11, 13, 14], &[0, 1, 2, 3, 9, 40])).split(8, 2));
        v.push(Scenario::new("four nested runs", 4, |c| nested(c, 4, &[0, 3, 9, 13], &[0, 1, 5])).split(8, 2));
    }
    v
}

fn main() {
    mcx::main(Meta {
        property: "P08",
        what: "every (element type, length, stack phase, panic in closure) within bounds, singly, twice on the same Alloca and nested up to depth 3 (4): the closure is called once, with the right length, alignment, memory disjoint from enclosing runs whose content is checked, and its result is returned; construction for valid and impossible lengths",
        bounds: "24 element types of size 0..70001 and alignment 1..65536; all lengths 0..1100 (0..9000) and around every power of two of bytes up to the documented 1 MiB, 8 stack phases modulo 128 bytes",
        assumptions: &["for lengths whose own layout is valid but whose padded layout is not, either outcome of construction is accepted", "stack phases depend on how the compiler lays out frames"],
    }, scenarios)
}
