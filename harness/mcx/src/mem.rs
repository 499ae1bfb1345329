//! Guarded memory regions.
use std::alloc::Layout;

const GUARD: usize = 256;

/// A region of `len` bytes at a chosen offset behind a 4096-aligned base, surrounded by canaries.
pub struct Region { raw: *mut u8, total: usize, start: usize, len: usize, foreign: bool }

pub const CANARY: u8 = 0x6E;

impl Region {
    pub fn new(offset: usize, len: usize, fill: u8) -> Region {
        let _g = crate::galloc::pause();
        let start = 4096 + offset;
        let total = start + len + GUARD;
        let total = (total + 4095) / 4096 * 4096;
        let raw = unsafe { std::alloc::alloc(Layout::from_size_align(total, 4096).unwrap()) };
        assert!(!raw.is_null());
        unsafe {
            std::ptr::write_bytes(raw.add(start - GUARD), CANARY, GUARD + len + GUARD.min(total - start - len));
            std::ptr::write_bytes(raw.add(start), fill, len);
        }
        Region { raw, total, start, len, foreign: false }
    }
    /// Memory of someone else, without canaries.
    pub fn foreign(raw: *mut u8, len: usize) -> Region { Region { raw, total: len, start: 0, len, foreign: true } }
    pub fn is_foreign(&self) -> bool { self.foreign }
    pub fn ptr(&self) -> *mut u8 { unsafe { self.raw.add(self.start) } }
    pub fn addr(&self) -> usize { self.ptr() as usize }
    pub fn len(&self) -> usize { self.len }
    pub fn is_empty(&self) -> bool { self.len == 0 }
    #[allow(clippy::mut_from_ref)]
    pub unsafe fn slice(&self) -> &'static mut [std::mem::MaybeUninit<u8>] {
        std::slice::from_raw_parts_mut(self.ptr() as *mut _, self.len)
    }
    pub fn intact(&self) -> bool {
        if self.foreign { return true }
        unsafe {
            let lo = std::slice::from_raw_parts(self.raw.add(self.start - GUARD), GUARD);
            let hi = std::slice::from_raw_parts(self.raw.add(self.start + self.len), GUARD);
            lo.iter().chain(hi).all(|b| *b == CANARY)
        }
    }
    pub fn contains(&self, addr: usize, len: usize) -> bool {
        addr >= self.addr() && addr + len <= self.addr() + self.len
    }
    /// Place a value at the start of the region.
    #[allow(clippy::mut_from_ref)]
    pub unsafe fn place<T>(&self, v: T) -> &'static mut T {
        assert!(std::mem::size_of::<T>() <= self.len && self.addr() % std::mem::align_of::<T>() == 0);
        let p = self.ptr() as *mut T;
        p.write(v);
        &mut *p
    }
}

impl Drop for Region {
    fn drop(&mut self) {
        if self.foreign { return }
        let _g = crate::galloc::pause();
        unsafe { std::alloc::dealloc(self.raw, Layout::from_size_align(self.total, 4096).unwrap()) }
    }
}

/// Ranges handed out to the user, each filled with its own byte; detects overlap and later modification.
#[derive(Default, Clone)]
pub struct Owned { pub ranges: Vec<(usize, usize, u8)>, next: u8 }

impl Owned {
    pub fn new() -> Owned { Owned { ranges: vec![], next: 1 } }
    /// Take ownership of a range: it must not overlap any other one.
    pub fn add(&mut self, what: &str, addr: usize, len: usize) {
        let _g = crate::galloc::pause();
        for &(a, l, _) in &self.ranges {
            if len > 0 && l > 0 && addr < a + l && a < addr + len {
                crate::fail!("{what}: memory [{addr:#x}, +{len}) overlaps memory [{a:#x}, +{l}) handed out before");
            }
        }
        let b = self.next;
        self.next = if b >= 250 { 1 } else { b + 1 };
        unsafe { std::ptr::write_bytes(addr as *mut u8, b, len) };
        self.ranges.push((addr, len, b));
    }
    pub fn verify(&self, what: &str) {
        for &(a, l, b) in &self.ranges {
            let s = unsafe { std::slice::from_raw_parts(a as *const u8, l) };
            if let Some(i) = s.iter().position(|x| *x != b) {
                crate::fail!("{what}: byte {i} of memory [{a:#x}, +{l}) handed out before was changed");
            }
        }
    }
    pub fn remove(&mut self, addr: usize) { self.ranges.retain(|r| r.0 != addr) }
    pub fn clear(&mut self) { self.ranges.clear() }
}

pub fn align_up(x: usize, a: usize) -> usize { (x + a - 1) / a * a }
