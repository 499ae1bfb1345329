use conc::bumpseq::{sync_body, sync_wide, Alphabet, Ctor};
use conc::conc::Op::*;
use conc::conc::*;
use mcx::driver::Meta;
use mcx::{Scenario, Tier};

fn all() -> Vec<Op> {
    use At::*;
    vec![
        RawAt(0, 1, 1, Known), RawAt(1, 4, 4, Known), RawAt(0, 3, 2, Init), RawAt(1, 8, 8, Known), RawAt(0, 7, 1, Known), RawAt(1, 100, 1, Known),
        TypedAt(0, 0, Known), TypedAt(1, 1, Known), TypedAt(2, 2, Known), TypedAt(0, 5, Known), TypedAt(1, 6, Init), TypedAt(2, 5, Known), TypedAt(1, 4, Init),
        Level, Raw(1, 1, 1), Typed(0, 1), Typed(0, 5), Raw(1, 100, 1), Grow(2, 2), Free(1), Free(0),
    ]
}
fn some() -> Vec<Op> { use At::*; vec![RawAt(0, 1, 1, Known), TypedAt(1, 1, Known), RawAt(1, 4, 4, Init), TypedAt(0, 5, Known), Level, Raw(1, 2, 1), TypedAt(2, 0, Known)] }
fn few() -> Vec<Op> { use At::*; vec![RawAt(1, 1, 1, Known), TypedAt(1, 1, Known), Level, Raw(1, 2, 1)] }

fn add<T: 'static>(v: &mut Vec<Scenario>, ty: &str, offset: usize, q: bool) {
    let mut go = |build: &'static str, name: &str, t: usize, n: usize, al: Vec<Op>, prune: bool, preemptions: Option<u32>, parts: u32| {
        let set = Setup { offset, threads: vec![vec![al; n]; t], symmetric: true, prune, preemptions, spurious: if build == "instrumented" { 2 } else { 0 }, turns: 0 };
        v.push(Scenario::new(format!("{build} {ty}+{offset} {t} threads x {n} {name}"), 1, move |c| explore::<T>(c, &set)).split(parts, 2).only_in(build));
    };
    go("instrumented", "of all calls, every interleaving", 2, 2, all(), false, None, if q { 2 } else { 8 });
    go("instrumented", "of all calls, every interleaving", 3, 1, all(), false, None, if q { 1 } else { 4 });
    go("instrumented", "calls, pruned by state", 2, 3, if q { few() } else { some() }, true, None, if q { 1 } else { 8 });
    go("instrumented", "calls, pruned by state", 3, 2, if q { few()[..3].to_vec() } else { some() }, true, None, if q { 1 } else { 8 });
    go("plain", "of all calls, every interleaving of accesses", 2, 1, all(), false, None, 1);
    if offset == 0 || !q { go("plain", "calls, pruned by state", 2, 2, if q { few() } else { some() }, true, None, if q { 1 } else { 4 }); }
    if !q {
        go("plain", "of all calls, pruned by state", 3, 1, all(), true, None, 8);
        go("plain", "of all calls, pruned by state, up to 3 preemptions", 2, 2, all(), true, Some(3), 16);
        go("instrumented", "of all calls, pruned by state, up to 2 preemptions", 2, 3, all(), true, Some(2), 16);
        go("instrumented", "of all calls, pruned by state, up to 2 preemptions", 3, 2, all(), true, Some(2), 16);
        go("instrumented", "of all calls, pruned by state", 4, 1, all(), true, None, 8);
        go("instrumented", "calls, pruned by state", 3, 3, few(), true, None, 16);
        go("instrumented", "calls, pruned by state", 2, 5, few(), true, None, 16);
    }
}

fn seq<T: 'static>(v: &mut Vec<Scenario>, ty: &str, offset: usize, q: bool) {
    let cap = std::mem::size_of::<T>();
    let mut sizes = vec![1, 2, 3, 4, 8, cap, cap + 1, cap.saturating_sub(1)];
    sizes.retain(|s| *s > 0); sizes.sort(); sizes.dedup();
    let layouts: Vec<(usize, usize)> = sizes.iter().flat_map(|s| [1usize, 2, 8, 16].map(|a| (*s, a))).chain([(isize::MAX as usize - 63, 64)]).collect();
    let wide = Alphabet { layouts, types: (0..14).collect(), arrays: vec![], conditional: true, reset: true, forms: true };
    let small = Alphabet { layouts: vec![(1, 1), (3, 2), (4, 4)], types: vec![0, 7, 11], arrays: vec![], conditional: true, reset: false, forms: false };
    let d = if q { 5 } else { 10 };
    v.push(Scenario::new(format!("checked sequences on {ty}+{offset}, all calls, pruned by state"), d, move |c| sync_body::<T>(c, offset, Ctor::New, &wide, true)));
    let d = if q { 3 } else { 5 };
    v.push(Scenario::new(format!("checked sequences on {ty}+{offset}, small, every sequence"), d, move |c| sync_body::<T>(c, offset, Ctor::Uninit, &small, false)));
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    macro_rules! st { ($($t:ty, $off:expr);* $(;)?) => { $( add::<$t>(&mut v, stringify!($t), $off, q); )* } }
    macro_rules! sq { ($($t:ty, $off:expr);* $(;)?) => { $( for s in [$off] { let n = v.len(); seq::<$t>(&mut v, stringify!($t), s, q); for x in &mut v[n..] { x.only_in = "plain" } } )* } }
    st!([u8; 4], 0; [u8; 9], 8; [u64; 2], 0);
    sq!([u8; 0], 0; [u8; 1], 0; [u8; 7], 8; [u8; 12], 0; [u16; 5], 0; [u64; 2], 8);
    for build in ["instrumented", "plain"] {
        for (i, n) in [(1usize, 60usize), (2, 30)] {
            let t = vec![vec![all(); i], vec![vec![Raw(0, 1, 1)]; n]];
            let set = Setup { offset: 0, threads: t.clone(), symmetric: false, prune: false, preemptions: None, spurious: 0, turns: 4 };
            if build == "plain" && i == 2 { continue }
            v.push(Scenario::new(format!("{build} [u8; 64] {i} calls against {n} allocations, taking turns"), 1, move |c| explore::<[u8; 64]>(c, &set)).only_in(build));
        }
    }
    {
        // More interruptions than a plausible limit on attempts, and more spurious failures.
        for (build, alpha, n, turns) in [("instrumented", all(), 5000usize, 2usize), ("instrumented", few(), 1100, 4), ("plain", few(), 1100, 2)] {
            let set = Setup { offset: 0, threads: vec![vec![alpha; 1], vec![vec![Raw(0, 1, 1)]; n]], symmetric: false, prune: false, preemptions: None, spurious: 0, turns };
            v.push(Scenario::new(format!("{build} [u8; 5001] 1 call against {n} allocations, turns up to {turns}"), 1, move |c| explore::<[u8; 5001]>(c, &set)).split(if q { 4 } else { 8 }, 2).only_in(build));
        }
        let set = Setup { offset: 0, threads: vec![vec![all(); 2]], symmetric: false, prune: false, preemptions: None, spurious: 40, turns: 0 };
        v.push(Scenario::new("instrumented [u64; 2] 1 thread x 2 calls, up to 40 spurious failures", 1, move |c| explore::<[u64; 2]>(c, &set)).only_in("instrumented"));
    }
    macro_rules! wide { ($($t:ty, $off:expr, $dense:expr;)*) => { $(
        v.push(Scenario::new(format!("conditional request on {}+{}", stringify!($t), $off), 2, move |c| sync_wide::<$t>(c, $off, $dense, true)).split(if q { 1 } else { 4 }, 2).only_in("plain"));
    )* } }
    wide!([u8; 200], 0, true; [u64; 512], 8, false; [u8; 65600], 8, false; [u64; 640 << 20], 0, false;);
    if !q { st!([u8; 0], 0; [u8; 1], 0; [u8; 8], 0; [u8; 8], 8; [u16; 5], 0; [u32; 3], 0); sq!([u8; 24], 0; [u8; 33], 8; [u64; 4], 0; [u8; 3], 0; [u16; 9], 0); }
    v
}

fn main() {
    mcx::main(Meta {
        property: "P02",
        what: "level-conditional calls of the real static Bump: every interleaving of 2..4 threads mixing conditional and unconditional calls (steps as in P01, each result explained by a sequential order consistent with real time, where a conditional call succeeds exactly if its level is the current one and the request fits, a mismatch names the level of that moment, failures and zero-sized requests consume nothing), and all sequential histories with current and outdated levels against the interval model",
        bounds: "21 calls (conditional, unconditional, realloc, dealloc), levels: initial and the one the thread saw last (from level(), a success or a mismatch); storages of 0..33 bytes; conditional requests of any size at the current and the initial level on storages of 200 bytes to 5 GiB; sequences to depth 3..10 with every level seen before; one call interrupted up to 5000 times; up to 2 spurious failures of weak exchanges, 40 in single calls",
        assumptions: &["sequentially consistent interleavings", "pruning state as in P01 and P03"],
    }, scenarios)
}
