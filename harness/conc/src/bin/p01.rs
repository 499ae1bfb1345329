use conc::conc::Op::*;
use conc::conc::*;
use mcx::driver::Meta;
use mcx::{Scenario, Tier};

/// Every entry point, with requests around alignment and size boundaries.
fn all() -> Vec<Op> {
    vec![
        Raw(0, 1, 1), Raw(1, 4, 4), Raw(2, 8, 8), Raw(0, 3, 2), Raw(3, 2, 1), Raw(4, 2, 2), Raw(1, 7, 1), Raw(2, 100, 1),
        Typed(0, 1), Typed(1, 2), Typed(2, 0), Typed(1, 4), Typed(0, 5), Typed(2, 6), Level, Grow(0, 3), Grow(1, 4), Free(1),
        RawAt(0, 2, 2, At::Known), TypedAt(1, 1, At::Init), TypedAt(2, 0, At::Known), TypedAt(0, 5, At::Known),
    ]
}
fn some() -> Vec<Op> { vec![Raw(0, 1, 1), Raw(1, 4, 4), Typed(1, 1), Raw(3, 2, 1), Typed(0, 5), Level, TypedAt(1, 0, At::Known)] }
fn few() -> Vec<Op> { vec![Raw(0, 1, 1), Typed(1, 1), Raw(1, 4, 4), TypedAt(0, 0, At::Known)] }

struct Add<'a> { v: &'a mut Vec<Scenario> }
impl Add<'_> {
    #[allow(clippy::too_many_arguments)]
    fn go<T: 'static>(&mut self, build: &'static str, name: &str, ty: &str, offset: usize, threads: Vec<Vec<Vec<Op>>>, symmetric: bool, prune: bool, preemptions: Option<u32>, parts: u32) {
        let set = Setup { offset, threads, symmetric, prune, preemptions, spurious: if build == "instrumented" { 2 } else { 0 }, turns: 0 };
        let b = if build.is_empty() { "" } else { build };
        self.v.push(Scenario::new(format!("{b} {ty}+{offset} {name}"), 1, move |c| explore::<T>(c, &set)).split(parts, 2).only_in(build));
    }
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let mut a = Add { v: &mut v };
    let q = tier == Tier::Quick;
    let sq = |al: Vec<Op>, t: usize, n: usize| vec![vec![al; n]; t];
    macro_rules! st { ($($t:ty, $off:expr);* $(;)?) => { $(
        let ty = stringify!($t);
        let off: usize = $off;
        // atomic operations as steps
        a.go::<$t>("instrumented", "2 threads x 2 of all calls, every interleaving", ty, off, sq(all(), 2, 2), true, false, None, if q { 2 } else { 8 });
        a.go::<$t>("instrumented", "3 threads x 1 of all calls, every interleaving", ty, off, sq(all(), 3, 1), true, false, None, if q { 1 } else { 4 });
        a.go::<$t>("instrumented", "2 threads x 3 calls, pruned by state", ty, off, sq(if q { few() } else { some() }, 2, 3), true, true, None, if q { 1 } else { 8 });
        a.go::<$t>("instrumented", "3 threads x 2 calls, pruned by state", ty, off, sq(if q { few()[..3].to_vec() } else { some() }, 3, 2), true, true, None, if q { 1 } else { 8 });
        // memory accesses of the machine code as steps
        a.go::<$t>("plain", "2 threads x 1 of all calls, every interleaving of accesses", ty, off, sq(all(), 2, 1), true, false, None, 1);
        if off == 0 {
            a.go::<$t>("plain", "2 threads x 2 calls, pruned by state", ty, off, sq(if q { few() } else { some() }, 2, 2), true, true, None, if q { 1 } else { 4 });
        }
        if !q {
            a.go::<$t>("plain", "3 threads x 1 of all calls, pruned by state", ty, off, sq(all(), 3, 1), true, true, None, 8);
            a.go::<$t>("plain", "2 threads x 2 of all calls, pruned by state, up to 3 preemptions", ty, off, sq(all(), 2, 2), true, true, Some(3), 16);
            a.go::<$t>("instrumented", "2 threads x 3 of all calls, pruned by state, up to 2 preemptions", ty, off, sq(all(), 2, 3), true, true, Some(2), 16);
            a.go::<$t>("instrumented", "3 threads x 2 of all calls, pruned by state, up to 2 preemptions", ty, off, sq(all(), 3, 2), true, true, Some(2), 16);
            a.go::<$t>("instrumented", "4 threads x 1 of all calls, pruned by state", ty, off, sq(all(), 4, 1), true, true, None, 8);
            a.go::<$t>("instrumented", "3 threads x 3 calls, pruned by state", ty, off, sq(few(), 3, 3), true, true, None, 16);
            a.go::<$t>("instrumented", "4 threads x 2 calls, pruned by state", ty, off, sq(few(), 4, 2), true, true, None, 16);
        }
    )* } }
    st!([u8; 4], 0; [u8; 9], 8; [u16; 4], 0; [u64; 2], 0);
    // Calls interrupted again and again.
    for build in ["instrumented", "plain"] {
        for (i, n) in [(1usize, 60usize), (2, 30)] {
            let t = vec![vec![all(); i], vec![vec![Raw(0, 1, 1)]; n]];
            let set = Setup { offset: 0, threads: t.clone(), symmetric: false, prune: false, preemptions: None, spurious: 0, turns: 4 };
            if build == "plain" && i == 2 { continue }
            a.v.push(Scenario::new(format!("{build} [u8; 64] {i} calls against {n} allocations, taking turns"), 1, move |c| explore::<[u8; 64]>(c, &set)).only_in(build));
        }
    }
    {
        // More interruptions than a plausible limit on attempts, and more spurious failures.
        for (build, alpha, n, turns) in [("instrumented", all(), 5000usize, 2usize), ("instrumented", few(), 1100, 4), ("plain", few(), 1100, 2)] {
            let set = Setup { offset: 0, threads: vec![vec![alpha; 1], vec![vec![Raw(0, 1, 1)]; n]], symmetric: false, prune: false, preemptions: None, spurious: 0, turns };
            a.v.push(Scenario::new(format!("{build} [u8; 5001] 1 call against {n} allocations, turns up to {turns}"), 1, move |c| explore::<[u8; 5001]>(c, &set)).split(if q { 4 } else { 8 }, 2).only_in(build));
        }
        let set = Setup { offset: 0, threads: vec![vec![all(); 2]], symmetric: false, prune: false, preemptions: None, spurious: 40, turns: 0 };
        a.v.push(Scenario::new("instrumented [u64; 2] 1 thread x 2 calls, up to 40 spurious failures", 1, move |c| explore::<[u64; 2]>(c, &set)).only_in("instrumented"));
    }
    if !q { st!([u8; 0], 0; [u8; 1], 0; [u8; 8], 0; [u8; 8], 8; [u32; 3], 0; [u8; 13], 0); }
    v
}

fn main() {
    mcx::main(Meta {
        property: "P01",
        what: "every interleaving of 2..4 threads calling the real static Bump, in two builds: one where each machine instruction that touches the allocator's memory is a step (page protection, unmodified code) and one where each atomic operation is a step (instrumented core, with spurious failures of weak exchanges). The set of all sequential orders consistent with real time is tracked; every result (address, level, failure) must be explained by one of them. Placement in bounds, disjointness, content, final level, remaining capacity, bounded own steps are checked",
        bounds: "storages of 0..16 bytes at aligned and misaligned places; all programs of up to 2 calls per thread over 22 calls (all entry points, zero-sized, oversized, conditional, realloc, dealloc) for two threads and one call for three; up to 3 (4) threads with 2..3 calls over smaller alphabets; one call interrupted up to 5000 times; up to 2 spurious failures, 40 in single calls",
        assumptions: &["sequentially consistent interleavings of the accesses (all shared state of the allocator is a single atomic word accessed with SeqCst)", "the state used for pruning (memory of the allocator, per-thread observations of the running call, possible linearizations, blocks handed out) determines the future; scenarios marked `every interleaving` do not prune", "x86_64 machine code for the page build"],
    }, scenarios)
}
