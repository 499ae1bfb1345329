//! Values (single or arrays) with identity, usable behind trait objects and slices.
use mcx::ledger::*;

/// A value made of identities.
pub trait Val: Sized + std::fmt::Debug + 'static {
    type Elem: Identity;
    const N: usize;
    fn new() -> Self;
    fn elems(&self) -> &[Self::Elem];
    fn ids(&self) -> Vec<u32> { self.elems().iter().map(|e| e.id()).collect() }
}
/// The same behind a trait object.
pub trait Dynamic: std::fmt::Debug {
    fn dyn_ids(&self) -> Vec<u32>;
    fn dyn_addr(&self) -> usize;
    fn renew(&mut self) -> Vec<u32>;
}
impl<T: Val> Dynamic for T {
    fn dyn_ids(&self) -> Vec<u32> { self.ids() }
    fn dyn_addr(&self) -> usize { self as *const T as usize }
    fn renew(&mut self) -> Vec<u32> { *self = T::new(); self.ids() }
}
macro_rules! single { ($($t:ident)*) => { $( impl Val for $t {
    type Elem = $t;
    const N: usize = 1;
    fn new() -> Self { <$t as Identity>::make() }
    fn elems(&self) -> &[$t] { std::slice::from_ref(self) }
} )* } }
single!(Tok TokBig Tok16 Tok32 Tok64 Tok128 TokHuge Tiny Zst Zst16);

/// An array of identities.
impl<E: Identity, const N: usize> Val for [E; N] {
    type Elem = E;
    const N: usize = N;
    fn new() -> Self { std::array::from_fn(|_| E::make()) }
    fn elems(&self) -> &[E] { self }
}

/// Run an expression for a value type with a given number.
#[macro_export]
macro_rules! for_val {
    ($i:expr, $V:ident => $e:expr) => {{
        use mcx::ledger::*;
        match $i {
            0 => { type $V = Tok; $e }
            1 => { type $V = TokBig; $e }
            2 => { type $V = Tok16; $e }
            3 => { type $V = Tok64; $e }
            4 => { type $V = Tiny; $e }
            5 => { type $V = Zst; $e }
            6 => { type $V = Zst16; $e }
            _ => unreachable!(),
        }
    }};
}
#[macro_export]
macro_rules! for_arr {
    ($i:expr, $V:ident => $e:expr) => {{
        use mcx::ledger::*;
        match $i {
            0 => { type $V = [Tok; 3]; $e }
            1 => { type $V = [Tok16; 2]; $e }
            2 => { type $V = [Tiny; 3]; $e }
            3 => { type $V = [Zst; 2]; $e }
            4 => { type $V = [Tok; 0]; $e }
            5 => { type $V = [Zst16; 3]; $e }
            6 => { type $V = [Tok64; 1]; $e }
            _ => unreachable!(),
        }
    }};
}
pub const VAL_NAMES: [&str; 7] = ["Tok", "TokBig", "Tok16", "Tok64", "Tiny", "Zst", "Zst16"];
pub const ARR_NAMES: [&str; 7] = ["[Tok; 3]", "[Tok16; 2]", "[Tiny; 3]", "[Zst; 2]", "[Tok; 0]", "[Zst16; 3]", "[Tok64; 1]"];
