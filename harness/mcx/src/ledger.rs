//! Values with identity. Creation, drops and the address of each drop are recorded; a double drop or the
//! drop of a value that was never created is reported as a violation at the end of the execution.
use crate::ctx::fail_later;
use std::cell::RefCell;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Life { Alive, Dropped }

#[derive(Default)]
pub struct Ledger {
    pub life: Vec<Life>,
    pub drops: Vec<(u32, usize)>,
    pub bomb: Option<u32>,
    pub bomb_any: bool,
    pub zst_made: usize,
    pub zst_dropped: usize,
}

thread_local! {
    static L: RefCell<Ledger> = RefCell::new(Ledger::default());
}

pub fn reset() {
    let _g = crate::galloc::pause();
    L.with(|l| *l.borrow_mut() = Ledger::default())
}
pub fn with<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    let _g = crate::galloc::pause();
    L.with(|l| f(&mut l.borrow_mut()))
}

/// Panic in the destructor of this token (after recording the drop), once.
pub fn set_bomb(id: Option<u32>) { with(|l| l.bomb = id) }
pub fn drops() -> Vec<(u32, usize)> { with(|l| l.drops.clone()) }
pub fn drop_ids() -> Vec<u32> { with(|l| l.drops.iter().map(|d| d.0).collect()) }
pub fn alive(id: u32) -> bool { with(|l| l.life.get(id as usize) == Some(&Life::Alive)) }
pub fn alive_ids() -> Vec<u32> { with(|l| (0..l.life.len() as u32).filter(|i| l.life[*i as usize] == Life::Alive).collect()) }
pub fn created() -> usize { with(|l| l.life.len()) }

pub const MAGIC: u32 = 0x51C0_7E57;
pub const DEAD: u32 = 0xDEAD_0BAD;

fn new_id() -> u32 { with(|l| { l.life.push(Life::Alive); l.life.len() as u32 - 1 }) }

fn on_drop(id: u32, magic: u32, addr: usize, check: u32) {
    let boom = with(|l| {
        if magic != MAGIC || check != !id {
            if magic == DEAD {
                fail_later(format!("value {id} dropped although it was dropped before (at {addr:#x} it is dead)"));
            } else {
                fail_later(format!("destructor run on memory that does not hold a value (id {id:#x}, magic {magic:#x})"));
            }
            return false;
        }
        match l.life.get(id as usize) {
            Some(Life::Alive) => l.life[id as usize] = Life::Dropped,
            Some(Life::Dropped) => { fail_later(format!("value {id} dropped twice")); return false }
            None => { fail_later(format!("drop of value {id} which never existed")); return false }
        }
        l.drops.push((id, addr));
        if l.bomb == Some(id) { l.bomb = None; true } else { false }
    });
    if boom { panic!("bomb {id}") }
}

/// What fills a value up.
trait Pad { fn ok(&self) -> bool { true } }
impl Pad for () {}
impl Pad for [u64; 3] {}
struct Filler([u8; 70000], u64);
impl Default for Filler { fn default() -> Self { Filler([0xA7; 70000], 0x8877665544332211) } }
impl Pad for Filler { fn ok(&self) -> bool { self.1 == 0x8877665544332211 && self.0.iter().all(|b| *b == 0xA7) } }

macro_rules! tok {
    ($name:ident, $pad:ty, $($attr:meta),*) => {
        $(#[$attr])*
        /// A value with identity.
        pub struct $name { magic: u32, id: u32, check: u32, _pad: $pad }
        impl $name {
            pub fn new() -> Self { let id = new_id(); Self { magic: MAGIC, id, check: !id, _pad: Default::default() } }
        }
        impl Identity for $name {
            fn make() -> Self { Self::new() }
            fn id(&self) -> u32 {
                if self.magic != MAGIC || self.check != !self.id {
                    fail_later(format!("a handle exposes memory that does not hold a live value (magic {:#x}, id {:#x})", self.magic, self.id));
                    return u32::MAX;
                }
                if !Pad::ok(&self._pad) { fail_later(format!("value {} was not moved or kept completely", self.id)); }
                if !alive(self.id) { fail_later(format!("a handle exposes value {} after its drop", self.id)); }
                self.id
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                let (id, magic, check) = (self.id, self.magic, self.check);
                unsafe { std::ptr::write_volatile(&mut self.magic, DEAD) };
                on_drop(id, magic, self as *mut Self as usize, check);
            }
        }
        impl std::fmt::Debug for $name { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "T{}", self.id) } }
    };
}

/// Types whose values have an identity (zero-sized ones have none, they are only counted).
pub trait Identity: Sized + std::fmt::Debug + 'static {
    const ZST: bool = false;
    fn make() -> Self;
    fn id(&self) -> u32;
}

tok!(Tok, (), repr(C));
tok!(TokBig, [u64; 3], repr(C));
tok!(Tok16, (), repr(C, align(16)));
tok!(Tok32, (), repr(C, align(32)));
tok!(Tok64, (), repr(C, align(64)));
tok!(Tok128, (), repr(C, align(128)));
// of more bytes than 16 bits count, in pages of its own
tok!(TokHuge, Filler, repr(C, align(4096)));

/// A value of one byte. After its drop the byte is 0xFF, which is never an identity.
pub struct Tiny(u8);
impl Identity for Tiny {
    fn make() -> Self { let id = new_id(); assert!(id < 250, "HARNESS: too many one-byte values"); Tiny(id as u8) }
    fn id(&self) -> u32 {
        if !alive(self.0 as u32) { fail_later(format!("a handle exposes value {} which is not alive", self.0)); return u32::MAX }
        self.0 as u32
    }
}
impl Drop for Tiny {
    fn drop(&mut self) {
        let id = self.0 as u32;
        unsafe { std::ptr::write_volatile(&mut self.0, 0xFF) };
        on_drop(id, MAGIC, self as *mut Self as usize, !id);
    }
}
impl std::fmt::Debug for Tiny { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "T{}", self.0) } }

macro_rules! ztok {
    ($name:ident, $($attr:meta),*) => {
        $(#[$attr])*
        pub struct $name { _p: () }
        impl Identity for $name {
            const ZST: bool = true;
            fn make() -> Self { with(|l| l.zst_made += 1); $name { _p: () } }
            fn id(&self) -> u32 {
                if (self as *const Self as usize) % std::mem::align_of::<Self>() != 0 { fail_later("misaligned reference to a zero-sized value".into()) }
                0
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                let a = self as *mut Self as usize;
                if a % std::mem::align_of::<Self>() != 0 { fail_later("drop through a misaligned reference to a zero-sized value".into()) }
                let boom = with(|l| {
                    l.zst_dropped += 1;
                    if l.zst_dropped > l.zst_made { fail_later(format!("{} zero-sized values dropped but only {} made", l.zst_dropped, l.zst_made)); }
                    if l.bomb == Some(0) && l.bomb_any { l.bomb = None; true } else { false }
                });
                if boom { panic!("bomb zst") }
            }
        }
        impl std::fmt::Debug for $name { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Z") } }
    };
}
ztok!(Zst, repr(C));
ztok!(Zst16, repr(C, align(16)));
