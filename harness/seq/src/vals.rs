//! Plain data types with various sizes and alignments.
macro_rules! al { ($n:ident, $a:literal, $s:literal) => {
    #[repr(C, align($a))] #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct $n(pub [u8; $s]);
    impl Default for $n { fn default() -> Self { $n([0; $s]) } }
} }
al!(B3, 1, 3);
al!(B6A2, 2, 6);
al!(B12A4, 4, 12);
al!(B16A16, 16, 16);
al!(B32A16, 16, 32);
al!(B32A32, 32, 32);
al!(B64A64, 64, 64);
al!(B128A128, 128, 128);
al!(Z1, 1, 0);
al!(Z8, 8, 0);
al!(Z64, 64, 0);
al!(B256A256, 256, 256);
al!(B4096A4096, 4096, 4096);
al!(Z4096, 4096, 0);
al!(B24A8, 8, 24);
al!(B1001, 1, 1001);
macro_rules! big { ($n:ident, $a:literal, $s:literal) => {
    #[repr(C, align($a))] #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct $n(pub [u8; $s]);
} }
big!(B8192A8192, 8192, 8192);
big!(B65536A65536, 65536, 65536);
big!(B70001, 1, 70001);
big!(Z65536, 65536, 0);

/// Run an expression for the type with a given number.
#[macro_export]
macro_rules! for_type {
    ($i:expr, $V:ident => $e:expr) => {{
        use $crate::vals::*;
        match $i {
            0 => { type $V = u8; $e }
            1 => { type $V = u16; $e }
            2 => { type $V = u32; $e }
            3 => { type $V = u64; $e }
            4 => { type $V = B3; $e }
            5 => { type $V = B6A2; $e }
            6 => { type $V = B12A4; $e }
            7 => { type $V = B16A16; $e }
            8 => { type $V = B32A16; $e }
            9 => { type $V = B32A32; $e }
            10 => { type $V = B64A64; $e }
            11 => { type $V = (); $e }
            12 => { type $V = Z8; $e }
            13 => { type $V = Z64; $e }
            14 => { type $V = B128A128; $e }
            15 => { type $V = B256A256; $e }
            16 => { type $V = B4096A4096; $e }
            17 => { type $V = Z4096; $e }
            18 => { type $V = B24A8; $e }
            19 => { type $V = B1001; $e }
            20 => { type $V = B8192A8192; $e }
            21 => { type $V = B65536A65536; $e }
            22 => { type $V = B70001; $e }
            23 => { type $V = Z65536; $e }
            _ => unreachable!(),
        }
    }};
}
pub const ALL_TYPES: std::ops::Range<usize> = 0..15;
/// Also less common ones.
pub const MORE_TYPES: std::ops::Range<usize> = 0..20;
/// Sizes and alignments beyond a page, some beyond 16 bits.
pub const HUGE_TYPES: std::ops::Range<usize> = 20..24;
pub fn type_name(i: usize) -> &'static str { for_type!(i, V => std::any::type_name::<V>()).rsplit("::").next().unwrap() }
pub fn type_layout(i: usize) -> std::alloc::Layout { for_type!(i, V => std::alloc::Layout::new::<V>()) }
