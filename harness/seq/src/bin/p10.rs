use exit_stack::ExitStack;
use mcx::driver::Meta;
use mcx::ledger::*;
use mcx::{Ctx, Scenario, Tier};
use std::pin::Pin;
use seq::stackseq::*;
use seq::vals::*;
#[allow(unused_imports)]
use seq::{NotUnpin, Probe};

#[allow(dead_code)]
pub struct Fixed(u64, std::marker::PhantomPinned);
#[allow(dead_code)]
struct Mem200([u64; 25]);

/// More values than 16 bits count.
fn crowd(ctx: &mut Ctx) {
    use std::cell::RefCell;
    thread_local! { static DROPS: RefCell<Vec<(u32, usize)>> = const { RefCell::new(vec![]) }; }
    struct One(u32);
    impl Drop for One { fn drop(&mut self) { DROPS.with(|d| d.borrow_mut().push((self.0, self as *const _ as usize))) } }
    struct Two(u32, [u64; 2]);
    impl Drop for Two { fn drop(&mut self) { let ok = self.1 == [self.0 as u64; 2]; DROPS.with(|d| d.borrow_mut().push((if ok { self.0 } else { u32::MAX }, self as *const _ as usize))) } }
    type Mem = [u64; 600000];
    let n = ctx.pick(&[255usize, 256, 257, 4097, 65535, 65536, 65537, 100000]);
    let mixed = ctx.flag();
    let by_drop = ctx.flag();
    ctx.op(|| format!("{n} values{}, {}", if mixed { " of two types" } else { "" }, if by_drop { "drop of the stack" } else { "pop_all, twice" }));
    if ctx.skipped() { return }
    ctx.note(&(n, mixed, by_drop));
    let size = std::mem::size_of::<ExitStack<Mem>>();
    let stack = seq::bumpseq::pages(size) as *mut ExitStack<Mem>;
    unsafe { stack.write(ExitStack::new()) };
    DROPS.with(|d| d.borrow_mut().clear());
    for round in 0..if by_drop { 1 } else { 2 } {
        let mut want: Vec<(u32, usize)> = vec![];
        for i in 0..n {
            let id = (round * 1000000 + i) as u32;
            let st = unsafe { Pin::new_unchecked(&*(stack as *const ExitStack<Mem>)) };
            let addr = if mixed && i % 3 == 1 {
                let Some(s) = st.slot::<Two>() else { mcx::fail!("no slot for value {i}") };
                let p = s.pin(Two(id, [id as u64; 2]));
                mcx::check!(p.0 == id, "pin returns another value");
                &*p as *const _ as usize
            } else {
                let Some(s) = st.slot::<One>() else { mcx::fail!("no slot for value {i}") };
                let p = s.pin(One(id));
                mcx::check!(p.0 == id, "pin returns another value");
                &*p as *const _ as usize
            };
            mcx::check!(addr >= stack as usize && addr < stack as usize + size, "value {i} is outside of the stack");
            want.push((id, addr));
        }
        mcx::check!(DROPS.with(|d| d.borrow().is_empty()), "values were dropped early");
        if by_drop { mcx::ctx::nopanic("drop", || unsafe { std::ptr::drop_in_place(stack) }) } else { mcx::ctx::nopanic("pop_all", || unsafe { Pin::new_unchecked(&mut *stack).pop_all() }) }
        let got = DROPS.with(|d| std::mem::take(&mut *d.borrow_mut()));
        mcx::check!(got.len() == n, "{} of {n} values were dropped", got.len());
        want.reverse();
        if let Some(k) = (0..n).find(|k| got[*k] != want[*k]) { mcx::fail!("drop {k} is of value {} at {:#x}, expected value {} at {:#x}", got[k].0, got[k].1, want[k].0, want[k].1) }
    }
    if !by_drop { unsafe { std::ptr::drop_in_place(stack) } }
    mcx::check!(DROPS.with(|d| d.borrow().is_empty()), "values of an empty stack were dropped");
    ctx.outcome(&(n, mixed, by_drop));
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    macro_rules! unpin { ($t:ty) => { (&Probe::<ExitStack<$t>>(std::marker::PhantomData)).is_unpin() } }
    macro_rules! ty { ($name:ident, $($t:ty),*) => { $( {
        let unpin = unpin!($t);
        v.push(Scenario::new(format!("ExitStack<{}> pruned", stringify!($t)), if q { 9 } else { 11 }, move |c| $name::<$t>(c, 0, &Opts { types: &[0, 2, 5], bombs: true, set: true, calibrate: false, prune: true, unpin, max_slots: 3, holes: true, local: false })));
        v.push(Scenario::new(format!("ExitStack<{}> all types, pruned", stringify!($t)), if q { 7 } else { 9 }, move |c| $name::<$t>(c, 128, &Opts { types: &[0, 1, 2, 3, 4, 5, 6, 7], bombs: true, set: true, calibrate: false, prune: true, unpin, max_slots: 3, holes: true, local: false })));
        v.push(Scenario::new(format!("ExitStack<{}> every sequence", stringify!($t)), if q { 8 } else { 10 }, move |c| $name::<$t>(c, 0, &Opts { types: &[0, 1], bombs: true, set: true, calibrate: false, prune: false, unpin, max_slots: 2, holes: true, local: false })));
        v.push(Scenario::new(format!("ExitStack<{}> pin and pin_local, pruned", stringify!($t)), if q { 7 } else { 9 }, move |c| $name::<$t>(c, 0, &Opts { types: &[0, 5, 3], bombs: true, set: true, calibrate: false, prune: true, unpin, max_slots: 2, holes: true, local: true })));
    } )* } }
    ty!(body_mem, [u64; 16], Mem200, Fixed, [u8; 300], B64A64);
    ty!(body_set, Tok, Tok64, Zst, Zst16, TokBig);
    macro_rules! many { ($($t:ty),*) => { $( for off in [0, std::mem::align_of::<exit_stack::ExitStack<$t>>()] {
        v.push(Scenario::new(format!("ExitStack<{}>+{off}, many values", stringify!($t)), 1, move |c| long::<$t>(c, off, false, if q { 400 } else { 2000 })));
    } )* } }
    many!([u64; 64], [u64; 300], [u8; 3000], [u64; 1024], [u64; 8192], [u8; 65537], [B64A64; 40]);
    macro_rules! large { ($($t:ty),*) => { $( {
        let unpin = unpin!($t);
        v.push(Scenario::new(format!("ExitStack<{}> values beyond 16 bits, pruned", stringify!($t)), if q { 6 } else { 9 }, move |c| body_mem::<$t>(c, 8, &Opts { types: &[0, 9, 4, 5], bombs: true, set: false, calibrate: false, prune: true, unpin, max_slots: 2, holes: true, local: true })));
    } )* } }
    large!([u64; 30000], [u64; 10000], [u64; 9216]);
    v.push(Scenario::new("ExitStack<TokHuge> values beyond 16 bits", if q { 5 } else { 8 }, move |c| body_set::<TokHuge>(c, 0, &Opts { types: &[0, 9, 5], bombs: true, set: true, calibrate: false, prune: true, unpin: unpin!(TokHuge), max_slots: 2, holes: true, local: false })));
    v.push(Scenario::new("more values than 16 bits count", 1, crowd));
    v
}

fn main() {
    mcx::main(Meta {
        property: "P10",
        what: "every sequence of slot (several types), pin and pin_local in any order, dropping unused slots, pop_all, set, moving the stack if it is Unpin, and drop of the stack, with every possible panicking destructor; after each call the order and address of all destructor runs, the identity of every pinned value and canaries around the stack are compared with a LIFO model",
        bounds: "10 memory types, 8 value types incl. zero-sized and aligned to 128; depth 7-9 (9-11) pruned by (open slots, pinned values, acquisitions), 8 (10) without pruning; up to 34, and 63 to 200 or until full, values of six mixtures of types in stacks of 512 to 65537 bytes, filled twice; up to 100000 values of two types; values of 73728 bytes and alignment 4096 in stacks of up to 240000 bytes; one panicking destructor per operation",
        assumptions: &["two destructors panicking in the same operation abort the process by design and are not explored"],
    }, scenarios)
}
