use mcx::driver::Meta;
use mcx::ledger::*;
use mcx::{Scenario, Tier};
use seq::stackseq::*;
use seq::vals::*;

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    macro_rules! ty { ($name:ident, $($t:ty),*) => { $( {
        let al = std::mem::align_of::<exit_stack::ExitStack<$t>>();
        let offs: Vec<usize> = if q { vec![0, al, 3 * al] } else { (0..(256 / al).max(2)).map(|i| i * al).collect() };
        for off in offs {
            v.push(Scenario::new(format!("ExitStack<{}>+{off} all types, pruned", stringify!($t)), if q { 6 } else { 8 }, move |c| $name::<$t>(c, off, &Opts { types: &[0, 1, 2, 3, 4, 5, 6, 7], bombs: false, set: true, calibrate: true, prune: true, unpin: false, max_slots: 8, holes: true, local: false })));
            v.push(Scenario::new(format!("ExitStack<{}>+{off} every sequence", stringify!($t)), if q { 6 } else { 8 }, move |c| $name::<$t>(c, off, &Opts { types: &[0, 2, 5], bombs: true, set: true, calibrate: true, prune: false, unpin: false, max_slots: 8, holes: true, local: false })));
        }
    } )* } }
    ty!(body_mem, (), u8, [u64; 3], [u64; 16], [u8; 250], B16A16, B64A64, B128A128, Z64);
    ty!(body_set, Tok, TokBig, Tok16, Tok32, Tok64, Tok128, Zst, Zst16);
    macro_rules! many { ($($t:ty),*) => { $( for off in [0, std::mem::align_of::<exit_stack::ExitStack<$t>>()] {
        v.push(Scenario::new(format!("ExitStack<{}>+{off}, many values", stringify!($t)), 1, move |c| long::<$t>(c, off, true, if q { 400 } else { 2000 })));
    } )* } }
    many!([u64; 64], [u64; 300], [u8; 3000], [u64; 1024], [u64; 8192], [u8; 65537], [B64A64; 40]);
    macro_rules! large { ($($t:ty),*) => { $( for off in [8usize, 4088] {
        v.push(Scenario::new(format!("ExitStack<{}>+{off} values beyond 16 bits, pruned", stringify!($t)), if q { 5 } else { 7 }, move |c| body_mem::<$t>(c, off, &Opts { types: &[0, 9, 4, 5], bombs: false, set: false, calibrate: true, prune: true, unpin: false, max_slots: 3, holes: true, local: false })));
    } )* } }
    large!([u64; 30000], [u64; 10000], [u64; 9216]);
    v.push(Scenario::new("ExitStack<TokHuge> values beyond 16 bits", if q { 5 } else { 7 }, move |c| body_set::<TokHuge>(c, 0, &Opts { types: &[0, 9, 5], bombs: false, set: true, calibrate: true, prune: true, unpin: false, max_slots: 2, holes: true, local: false })));
    v
}

fn main() {
    mcx::main(Meta {
        property: "P11",
        what: "every sequence of slot, pin in any order, dropping slots, pop_all, set and drop; slot availability is compared with a packing model (whose bookkeeping size is calibrated against the code and skipped if it does not apply) and with a fresh stack performing the same acquisitions; alignment, bounds and disjointness of all values; set must succeed",
        bounds: "17 memory types of alignment 1..128, 3 (up to 32) start offsets, 8 value types; depth 6 (8) pruned, 6 (8) unpruned; up to 34, and 63 to 200 or until full, values of six mixtures of types in stacks of 512 to 65537 bytes; values of 73728 bytes and alignment 4096 in stacks of up to 240000 bytes",
        assumptions: &["after a destructor panicked, availability is only checked from the next successful pop_all or set on"],
    }, scenarios)
}
