use mcx::driver::Meta;
use mcx::{Scenario, Tier};
use seq::for_tok;
use seq::stackseq::tok_name;
use seq::vecseq::*;

static ALL: Opts = Opts { bombs: true, forget: true, prune: false, max_vecs: 2, wide: false, big: 0 };
static PRUNED: Opts = Opts { bombs: true, forget: true, prune: true, max_vecs: 2, wide: false, big: 0 };
static WIDE: Opts = Opts { bombs: true, forget: true, prune: false, max_vecs: 2, wide: true, big: 0 };
static BIG: Opts = Opts { bombs: true, forget: true, prune: false, max_vecs: 3, wide: false, big: 1 };
static HUGE: Opts = Opts { bombs: true, forget: true, prune: false, max_vecs: 3, wide: false, big: 2 };

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    for t in [0usize, 1, 2, 4, 5, 8] {
        let zst = t == 5;
        v.push(Scenario::new(format!("{} one operation on every vector", tok_name(t)), 1, move |c| for_tok!(t, V => one_step::<V>(c, if q { 5 } else { 7 }, &WIDE))).split(if q { 2 } else { 16 }, 3));
        for n in 0..=if q { 3 } else { 4 } {
            if zst && n > 0 { continue }
            v.push(Scenario::new(format!("{} capacity {n}, pruned", tok_name(t)), if q { 5 } else { 8 }, move |c| for_tok!(t, V => body::<V>(c, Place::Slice(n), &PRUNED))));
        }
        for n in [2, 4] {
            if zst && n > 2 { continue }
            v.push(Scenario::new(format!("{} capacity {n}, every sequence", tok_name(t)), if q { 2 } else { 3 }, move |c| for_tok!(t, V => body::<V>(c, Place::Slice(n), &ALL))).split(if q { 1 } else { 16 }, 4));
        }
        v.push(Scenario::new(format!("{} one operation on larger vectors", tok_name(t)), 1, move |c| for_tok!(t, V => big_step::<V>(c, if q { &[9, 20] } else { &[9, 20, 33] }, &BIG))).split(if q { 2 } else { 16 }, 3));
        v.push(Scenario::new(format!("{} drain through other methods of iterators", tok_name(t)), 1, move |c| for_tok!(t, V => drain_adaptors::<V>(c, if q { &[0, 1, 2, 3, 4] } else { &[0, 1, 2, 3, 4, 5, 6, 12, 40] }, true))).split(if q { 1 } else { 4 }, 3));
        // identities of one byte do not suffice for these
        if t != 8 { v.push(Scenario::new(format!("{} one operation on large vectors", tok_name(t)), 1, move |c| for_tok!(t, V => big_step::<V>(c, if q { &[65, 130, 257, 300] } else { &[65, 130, 257, 300, 513, 1025] }, &HUGE))).split(if q { 1 } else { 16 }, 3)) }
    }
    for cap in [258, 65538] {
        let places: &[usize] = if cap < 300 { &[0, 1, 127, 128, 255, 256, 257] } else if q { &[0, 1, 256, 65535, 65536] } else { &[0, 1, 2, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537] };
        v.push(Scenario::new(format!("one operation on {cap} elements"), 1, move |c| huge_step(c, cap, places, true)).split(if q { 2 } else { 16 }, 3));
    }
    v
}

fn main() {
    mcx::main(Meta {
        property: "P14",
        what: "every sequence of FixedVec operations with every choice of one panicking destructor or panicking iterator call per operation, forgotten drains and split parts; each value is tracked from creation to drop: no double drop, no exposure after a drop, the vector is consistent after the panic, truncate, clear, fill, extend and drop lose nothing",
        bounds: "one operation at every combination of places around the powers of two on vectors of up to 258 and 65538 elements, ranges written in every form; drains of vectors of up to 4 (40) elements through 26 provided iterator methods with every argument; 6 element types, capacities 0-4, every single operation on every vector of up to 5 (7) slots; depth 5 (8) pruned by (length, capacity) of both vectors, 2 (3) without pruning; one panic per operation",
        assumptions: &["a drain whose element panics on drop may leak other elements (as the documentation of Drain allows)", "zero-sized values are only counted and do not panic"],
    }, scenarios)
}
