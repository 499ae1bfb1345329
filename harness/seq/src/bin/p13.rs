use mcx::driver::Meta;
use mcx::{Scenario, Tier};
use seq::for_tok;
use seq::stackseq::tok_name;
use seq::vecseq::*;

static PLAIN: Opts = Opts { bombs: false, forget: false, prune: false, max_vecs: 3, wide: false, big: 0 };
static PRUNED: Opts = Opts { bombs: false, forget: false, prune: true, max_vecs: 3, wide: false, big: 0 };
static WIDE: Opts = Opts { bombs: false, forget: false, prune: false, max_vecs: 3, wide: true, big: 0 };
static BIG: Opts = Opts { bombs: false, forget: false, prune: false, max_vecs: 3, wide: false, big: 1 };
static HUGE: Opts = Opts { bombs: false, forget: false, prune: false, max_vecs: 3, wide: false, big: 2 };

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    for t in [0usize, 1, 2, 4, 5, 6, 8] {
        let add = |v: &mut Vec<Scenario>, place: Place, depth: u32, parts: u32| {
            v.push(Scenario::new(format!("{} {place:?}", tok_name(t)), depth, move |c| for_tok!(t, V => body::<V>(c, place, &PLAIN))).split(parts, 4));
        };
        v.push(Scenario::new(format!("{} one operation on every vector", tok_name(t)), 1, move |c| for_tok!(t, V => one_step::<V>(c, if q { 5 } else { 8 }, &WIDE))).split(if q { 2 } else { 16 }, 3));
        let zst = t == 5 || t == 6;
        for n in [0, 1, 2, 3, 4] {
            // the number of slots does not matter for zero-sized elements
            if zst && n != 0 && n != 3 { continue }
            add(&mut v, Place::Slice(n), if q { if zst && (t == 6 || n == 0) { 2 } else { 3 } } else { 4 }, 1);
            v.push(Scenario::new(format!("{} Slice({n}) pruned", tok_name(t)), if q { 5 } else { 9 }, move |c| for_tok!(t, V => body::<V>(c, Place::Slice(n), &PRUNED))));
        }
        add(&mut v, Place::Empty, if zst && q { 2 } else { 3 }, 1);
        let s: usize = for_tok!(t, V => std::mem::size_of::<V>());
        let mut extras = vec![1, s.saturating_sub(1).max(1)];
        extras.dedup();
        for extra in extras { add(&mut v, Place::Cast { len: 3 * s + extra }, if q { if zst { 2 } else { 3 } } else { 4 }, 1); }
        // every misalignment
        v.push(Scenario::new(format!("{} in unaligned memory", tok_name(t)), if q { 1 } else { 2 }, move |c| for_tok!(t, V => unaligned::<V>(c, &PLAIN))).split(if q { 1 } else { 8 }, 3));
        v.push(Scenario::new(format!("{} one operation on larger vectors", tok_name(t)), 1, move |c| for_tok!(t, V => big_step::<V>(c, if q { &[9, 18, 27, 36] } else { &[12, 24, 40, 48, 66] }, &BIG))).split(if q { 2 } else { 16 }, 3));
        v.push(Scenario::new(format!("{} drain through other methods of iterators", tok_name(t)), 1, move |c| for_tok!(t, V => drain_adaptors::<V>(c, if q { &[0, 1, 2, 3, 4, 5] } else { &[0, 1, 2, 3, 4, 5, 6, 7, 12, 40] }, false))).split(if q { 1 } else { 4 }, 3));
        // identities of one byte do not suffice for these
        if t != 8 { v.push(Scenario::new(format!("{} one operation on large vectors", tok_name(t)), 1, move |c| for_tok!(t, V => big_step::<V>(c, if q { &[65, 130, 257, 300] } else { &[65, 130, 257, 300, 513, 1025] }, &HUGE))).split(if q { 1 } else { 16 }, 3)) }
    }
    for cap in [258, 65538] {
        let places: &[usize] = if cap < 300 { &[0, 1, 127, 128, 255, 256, 257] } else if q { &[0, 1, 256, 65535, 65536] } else { &[0, 1, 2, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537] };
        v.push(Scenario::new(format!("one operation on {cap} elements"), 1, move |c| huge_step(c, cap, places, false)).split(if q { 2 } else { 16 }, 3));
    }
    v
}

fn main() {
    mcx::main(Meta {
        property: "P13",
        what: "every sequence of push, pop, truncate, clear, fill, extend, drain (every range in every notation, consumed from both ends to every extent), split_borrowed (with operations on the part), split_and_shrink_to, shrink_to_fit, reordering and moving, on up to three vectors split from one; contents, length, capacity, addresses, refusals, number of iterator calls and invalid arguments are compared with a Vec model after each call",
        bounds: "one operation at every combination of places around the powers of two on vectors of up to 258 and 65538 elements, ranges written in every form; drains of vectors of up to 5 (40) elements through 26 provided iterator methods with every argument; 7 element types (sizes 0 to 64, alignment 1 to 64); every single operation on every vector of up to 5 (8) slots; capacities 0-4: depth 5 (9) pruned by (length, capacity, bytes) of all vectors, 3 (4) without pruning; every misalignment and length of unaligned memory up to 2 alignments with sequences of 1 (2)",
        assumptions: &["elements are treated uniformly: the canonical state ignores their identity in pruned scenarios"],
    }, scenarios)
}
