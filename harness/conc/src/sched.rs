//! Cooperative threads on the real code. A thread runs until its next access to shared memory; there the
//! exploration decides who goes on. In the page build every machine instruction that touches the memory of
//! the allocator is such a point, in the instrumented build every atomic operation is.
use crate::sys;
use mcx::Ctx;

pub const NT: usize = 4;
pub const STACK: usize = 256 << 10;
/// So many accesses without progress of another thread are not allowed.
pub const LIMIT: u32 = 150;
pub const SHIM: bool = cfg!(static_alloc_mc);

#[derive(Clone, Copy)]
pub struct Th {
    sp: usize, stack: *mut u8, pub done: bool, pub obs: u64, pub op: usize, pub begun: bool,
    steps: u32, seen: u64, changes: u64, pub at: usize, pub kind: u8,
}
const TH: Th = Th { sp: 0, stack: std::ptr::null_mut(), done: true, obs: 0, op: 0, begun: false, steps: 0, seen: 0, changes: 0, at: 0, kind: 0 };

pub struct S {
    pub th: [Th; NT],
    pub n: usize,
    pub cur: usize,
    main_sp: usize,
    pub fail: Option<String>,
    pub ctx: *mut Ctx,
    pub spurious_left: u32,
    /// atomics outside of the allocator's memory: address, size, first and last value
    pub foreign: Vec<(usize, usize, u64, u64)>,
    pub object: (usize, usize),
    main: Option<fn(usize)>,
    begin: Option<fn(usize)>,
    active: bool,
}
pub static mut S: S = S { th: [TH; NT], n: 0, cur: 0, main_sp: 0, fail: None, ctx: std::ptr::null_mut(), spurious_left: 0, foreign: vec![], object: (0, 0), main: None, begin: None, active: false };

pub fn s() -> &'static mut S { unsafe { &mut *std::ptr::addr_of_mut!(S) } }
pub fn ctx() -> &'static mut Ctx { unsafe { &mut *s().ctx } }

pub fn alias(a: usize) -> usize { unsafe { a - sys::TWIN.user as usize + sys::TWIN.alias as usize } }

/// The allocator object, read through the unprotected mapping.
pub fn memory() -> &'static [u8] {
    let (a, l) = s().object;
    unsafe { std::slice::from_raw_parts(alias(a) as *const u8, l) }
}

fn mix(h: u64, x: u64) -> u64 { let h = (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15); h ^ h >> 29 }
pub fn mix_bytes(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) { let mut x = [0u8; 8]; x[..c.len()].copy_from_slice(c); h = mix(h, u64::from_le_bytes(x)) }
    mix(h, b.len() as u64)
}

fn to_main() {
    let s = s();
    let c = s.cur;
    unsafe { sys::switch(&mut s.th[c].sp, s.main_sp) }
}

pub fn fail_in_thread(m: String) -> ! {
    if s().fail.is_none() { s().fail = Some(m) }
    loop { to_main() }
}

fn arrive(addr: usize, kind: u8) {
    let s = s();
    let c = s.cur;
    s.th[c].at = addr;
    s.th[c].kind = kind;
    to_main();
    let s = self::s();
    if !s.th[c].begun { s.th[c].begun = true; s.th[c].steps = 0; if let Some(b) = s.begin { b(c) } }
    let others: u64 = (0..s.n).filter(|t| *t != c).map(|t| s.th[t].changes).sum();
    let th = &mut s.th[c];
    if others != th.seen { th.seen = others; th.steps = 0 }
    th.steps += 1;
    if th.steps > LIMIT { fail_in_thread(format!("the call of thread {c} does not finish although no other thread makes progress ({LIMIT} accesses)")) }
}

fn page_point(addr: usize) {
    arrive(addr, 255);
    let c = s().cur;
    s().th[c].obs = mix_bytes(mix(s().th[c].obs, addr as u64), memory());
}

fn active() -> bool { s().active }
fn before(addr: usize, _size: usize, kind: u8) { if active() { arrive(addr, kind) } }
fn spurious() -> bool {
    if !active() || s().spurious_left == 0 { return false }
    if ctx().flag() { s().spurious_left -= 1; let c = s().cur; ctx().op(|| format!("    (the weak exchange of thread {c} fails spuriously)")); true } else { false }
}
fn after(addr: usize, size: usize, kind: u8, old: u64, new: u64) {
    if !active() { return }
    let s = s();
    let c = s.cur;
    if kind != 1 { s.th[c].obs = mix(mix(s.th[c].obs, old), new) } else { s.th[c].obs = mix(s.th[c].obs, 77) }
    if old != new { s.th[c].changes += 1 }
    if addr < s.object.0 || addr >= s.object.0 + s.object.1 {
        match s.foreign.iter_mut().find(|f| f.0 == addr) { Some(f) => f.3 = new, None => s.foreign.push((addr, size, old, new)) }
    }
}

extern "C" fn entry() -> ! {
    let c = s().cur;
    (s().main.unwrap())(c);
    s().th[c].done = true;
    loop { to_main() }
}

pub fn init() {
    sys::init(2, page_point);
    #[cfg(static_alloc_mc)]
    unsafe {
        static_alloc_mc_core::HOOKS = Some(static_alloc_mc_core::Hooks { before, spurious, after });
    }
    let _ = (before as fn(usize, usize, u8), spurious as fn() -> bool, after as fn(usize, usize, u8, u64, u64));
}

/// Start `n` threads (none runs yet).
pub fn start(n: usize, main: fn(usize), begin: fn(usize)) {
    let s = s();
    s.n = n;
    s.main = Some(main);
    s.begin = Some(begin);
    s.fail = None;
    for t in 0..n {
        if s.th[t].stack.is_null() { s.th[t].stack = sys::map_stack(STACK) }
        let stack = s.th[t].stack;
        s.th[t] = Th { done: false, stack, sp: sys::prepare(stack, STACK, entry), ..TH };
    }
    for t in n..NT { s.th[t].done = true }
    restore();
    if SHIM { s.active = true } else { sys::protect(true) }
}
pub fn stop() {
    s().active = false;
    if !SHIM { sys::protect(false) }
}
/// Statics of the code under test get their first value back.
pub fn restore() {
    for f in std::mem::take(&mut s().foreign) {
        unsafe { match f.1 { 1 => *(f.0 as *mut u8) = f.2 as u8, 2 => *(f.0 as *mut u16) = f.2 as u16, 4 => *(f.0 as *mut u32) = f.2 as u32, _ => *(f.0 as *mut u64) = f.2 } }
    }
}

/// Let thread `t` perform its pending access and run up to the next one.
pub fn resume(t: usize) {
    let before = if SHIM { 0 } else { mix_bytes(0, memory()) };
    let st = s();
    st.cur = t;
    unsafe { sys::switch(&mut st.main_sp, st.th[t].sp) }
    if !SHIM && mix_bytes(0, memory()) != before { s().th[t].changes += 1 }
}
