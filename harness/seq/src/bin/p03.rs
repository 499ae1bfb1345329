use mcx::driver::Meta;
use mcx::{Scenario, Tier};
use seq::bumpseq::*;
use seq::vals::*;

fn alpha(layouts: &[(usize, usize)], types: &[usize], forms: bool) -> Alphabet {
    Alphabet { layouts: layouts.to_vec(), types: types.to_vec(), arrays: vec![], conditional: false, reset: true, forms }
}

fn add<T: 'static>(v: &mut Vec<Scenario>, name: &str, tier: Tier) {
    let cap = std::mem::size_of::<T>();
    let step = std::mem::align_of::<static_alloc::Bump<T>>();
    // sizes around every boundary of this storage
    let mut sizes: Vec<usize> = vec![1, 2, 3, 4, 5, 7, 8, 9, 16, cap.saturating_sub(1), cap, cap + 1, cap / 2];
    sizes.retain(|s| *s > 0); sizes.sort(); sizes.dedup();
    let big: Vec<(usize, usize)> = sizes.iter().flat_map(|s| [1usize, 2, 4, 8, 16, 32, 64].map(|a| (*s, a))).chain([(1, 4096), (isize::MAX as usize / 2, 1), (isize::MAX as usize - 63, 64), (1 << 40, 1 << 20)]).collect();
    let small = [(1usize, 1usize), (1, 4), (3, 2), (4, 4), (8, 8), (5, 1), (2, 16)];
    let all_types: Vec<usize> = ALL_TYPES.collect();
    let offs: Vec<usize> = if tier == Tier::Quick { vec![0, step, 2 * step, 4 * step] } else { (0..(128 / step).max(1)).map(|i| i * step).collect() };
    let offs = if tier == Tier::Quick && cap >= 32 { vec![0] } else { offs };
    for off in offs {
        for ctor in [Ctor::Uninit, Ctor::Zeroed, Ctor::New] {
            if tier == Tier::Quick && (off != 0 || cap >= 32) && ctor != Ctor::New { continue }
            let d = if tier == Tier::Quick { 12 } else { 24 };
            let al = alpha(&big, &all_types, true);
            v.push(Scenario::new(format!("{name}+{off} {ctor:?} wide, pruned by state"), d, move |c| sync_body::<T>(c, off, ctor, &al, true)));
        }
        let al = alpha(&small, &[0, 3, 7, 11], false);
        let d = if tier == Tier::Quick { if off == 0 { 4 } else { 3 } } else if off == 0 { 6 } else { 5 };
        v.push(Scenario::new(format!("{name}+{off} small, every sequence"), d, move |c| sync_body::<T>(c, off, Ctor::New, &al, false)));
    }
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    macro_rules! st { ($($t:ty),*) => { $( add::<$t>(&mut v, stringify!($t), tier); )* } }
    st!([u8; 0], [u8; 1], [u8; 2], [u8; 7], [u8; 8], [u8; 9], [u8; 16], [u8; 17], [u8; 24], [u16; 5], [u32; 3], [u64; 1], [u64; 3], B16A16, B32A32, B64A64);
    if tier == Tier::Thorough { st!([u8; 3], [u8; 4], [u8; 5], [u8; 12], [u8; 31], [u8; 32], [u8; 33], [u8; 48], [u8; 64], [u8; 100], B32A16, [B16A16; 3], B128A128, [u64; 9]); }
    macro_rules! wide { ($($t:ty, $off:expr, $dense:expr;)*) => { $(
        v.push(Scenario::new(format!("two requests on {}+{}", stringify!($t), $off), 2, move |c| sync_wide::<$t>(c, $off, $dense, false)).split(if tier == Tier::Quick { 1 } else { 4 }, 2));
    )* } }
    wide!([u8; 300], 0, true; [u64; 512], 8, false; [u8; 65600], 8, false; [u64; 640 << 20], 0, false; B4096A4096, 0, false; B1001, 0, false;);
    if tier == Tier::Thorough { wide!([u8; 700], 8, true; [u8; 1030], 0, true; [u16; 2049], 0, true; [u8; 4096], 16, false; [u64; 1 << 17], 0, false; [u8; (1 << 20) + 77], 0, false; [u8; (1 << 32) + 13], 8, false; [u64; 1 << 36], 0, false;); }
    // large types
    macro_rules! large { ($($t:ty),*) => { $( for off in [0, std::mem::align_of::<static_alloc::Bump<$t>>()] {
        let al = alpha(&[(1, 1), (1000, 8), (4095, 1)], &[0, 14, 15, 16, 17, 18, 19], true);
        v.push(Scenario::new(format!("{}+{off} large values, pruned by state", stringify!($t)), if tier == Tier::Quick { 3 } else { 5 }, move |c| sync_body::<$t>(c, off, Ctor::New, &al, true)));
    } )* } }
    large!([u8; 13000], B4096A4096, B256A256, Z4096, [B4096A4096; 2], [u64; 520]);
    for off in [0, 8, 4096, 65536] {
        v.push(Scenario::new(format!("[u64; 40000]+{off} values beyond 16 bits, pruned by state"), if tier == Tier::Quick { 3 } else { 4 }, move |c| sync_huge::<[u64; 40000]>(c, off, &huge_alphabet(false))));
        v.push(Scenario::new(format!("[u64; 40000]+{off} values beyond 16 bits, conditional"), if tier == Tier::Quick { 2 } else { 3 }, move |c| sync_huge::<[u64; 40000]>(c, off, &huge_alphabet(true))));
    }
    v
}

fn main() {
    mcx::main(Meta {
        property: "P03",
        what: "every sequence of get/leak/leak_box/alloc/get_layout/reset calls on the real static Bump, in lockstep with an interval model (exact placement, success iff fits, disjointness by content, canaries around the allocator, initial content of fresh storage, levels)",
        bounds: "storages of 0..128 bytes with alignments 1..128 at several start offsets; sizes around every boundary of the storage plus huge ones, alignments 1..64, 4096 and 65536, 24 types incl. zero-sized, 70001 bytes, alignment 65536; two requests of any size on storages of 300 bytes to 5 GiB (512 GiB); sequences pruned by (consumed, high-water mark, known levels, was reset) to the full depth, and without pruning to a smaller depth",
        assumptions: &["the abstraction used for pruning (consumed bytes, high-water mark, levels seen, whether reset) determines future behaviour; scenarios without pruning guard against hidden state", "single thread (P01 covers schedules)"],
    }, scenarios)
}
