//! Global allocator that, while tracking is on, checks the allocator contract from the caller's side:
//! every block is freed at most once and with the layout it was obtained with, nothing is written
//! outside of blocks or after their release, and the number of live blocks is known (leaks).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub struct Checker;
#[global_allocator]
static GLOBAL: Checker = Checker;

const MAX: usize = 512;
const ZONE: usize = 64;
const ZONE_BYTE: u8 = 0xB7;
const FREED_BYTE: u8 = 0xDD;

#[derive(Clone, Copy)]
struct Rec { ptr: usize, base: usize, size: usize, align: usize, zoned: usize, freed: bool }

struct Table { n: usize, recs: [Rec; MAX], fail_at: u64, count: u64, dirty: bool, overflow: bool }
struct TableCell(UnsafeCell<Table>);
unsafe impl Sync for TableCell {}
static TABLE: TableCell = TableCell(UnsafeCell::new(Table {
    n: 0, recs: [Rec { ptr: 0, base: 0, size: 0, align: 0, zoned: 0, freed: false }; MAX], fail_at: 0, count: 0, dirty: false, overflow: false,
}));

thread_local! {
    static TRACK: Cell<u32> = const { Cell::new(0) };
    static OWNER: Cell<bool> = const { Cell::new(false) };
}

fn table() -> &'static mut Table { unsafe { &mut *TABLE.0.get() } }

/// Turn tracking on for the calling thread (there is a single exploring thread per process).
pub fn start() { OWNER.with(|o| o.set(true)); TRACK.with(|t| t.set(1)); }
pub fn stop() { TRACK.with(|t| t.set(0)); }
/// Also fill fresh blocks with a pattern, so that nothing relies on zeroed memory by luck.
pub fn dirty(on: bool) { table().dirty = on; }

pub struct Paused(u32);
pub fn pause() -> Paused {
    Paused(TRACK.try_with(|t| t.replace(0)).unwrap_or(0))
}
impl Drop for Paused { fn drop(&mut self) { let _ = TRACK.try_with(|t| t.set(self.0)); } }

/// Run `f` with tracking on.
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    OWNER.with(|o| o.set(true));
    let old = TRACK.with(|t| t.replace(1));
    struct Restore(u32);
    impl Drop for Restore { fn drop(&mut self) { TRACK.with(|t| t.set(self.0)); } }
    let _r = Restore(old);
    f()
}

/// Make the `n`-th (1-based) tracked allocation from now on fail; 0 = never.
pub fn fail_at(n: u64) { let t = table(); t.count = 0; t.fail_at = n; }

pub fn live() -> usize { let t = table(); t.recs[..t.n].iter().filter(|r| !r.freed).count() }
pub fn live_bytes() -> usize { let t = table(); t.recs[..t.n].iter().filter(|r| !r.freed).map(|r| r.size).sum() }
/// The live tracked block containing the given address range.
pub fn block_of(addr: usize, len: usize) -> Option<(usize, usize)> {
    let t = table();
    t.recs[..t.n].iter().find(|r| !r.freed && r.ptr <= addr && addr + len <= r.ptr + r.size).map(|r| (r.ptr, r.size))
}
/// Addresses of all live tracked blocks.
pub fn blocks() -> Vec<usize> { let _p = pause(); let t = table(); t.recs[..t.n].iter().filter(|r| !r.freed).map(|r| r.ptr).collect() }
pub fn allocs() -> u64 { table().count }

fn zones_ok(r: &Rec) -> bool {
    unsafe {
        let lo = std::slice::from_raw_parts(r.base as *const u8, r.ptr - r.base);
        let hi = std::slice::from_raw_parts((r.ptr + r.size) as *const u8, r.base + r.zoned - r.ptr - r.size);
        lo.iter().all(|b| *b == ZONE_BYTE) && hi.iter().all(|b| *b == ZONE_BYTE)
    }
}

fn freed_ok(r: &Rec) -> bool {
    unsafe { std::slice::from_raw_parts(r.ptr as *const u8, r.size) }.iter().all(|b| *b == FREED_BYTE)
}

fn report(m: &str) {
    let _p = pause();
    crate::ctx::fail_later(m.to_string());
}

/// Check all red zones and quarantined blocks.
pub fn check_zones() {
    let t = table();
    for r in &t.recs[..t.n] {
        if !zones_ok(r) { report("memory outside of an allocated heap block was overwritten"); }
        if r.freed && !freed_ok(r) { report("heap memory was written after its release"); }
    }
    if t.overflow { report("HARNESS: allocation table overflow"); }
}

/// Release everything that is still in the table and forget all records.
pub fn reset() {
    let _p = pause();
    let t = table();
    for i in 0..t.n {
        let r = t.recs[i];
        unsafe { System.dealloc(r.base as *mut u8, Layout::from_size_align_unchecked(r.zoned, r.align.max(ZONE))) }
    }
    t.n = 0; t.fail_at = 0; t.count = 0; t.dirty = false; t.overflow = false;
}

impl Checker {
    unsafe fn tracked_alloc(&self, layout: Layout, zero: bool) -> *mut u8 {
        let t = table();
        t.count += 1;
        if t.count == t.fail_at { return std::ptr::null_mut() }
        if layout.size() > 1 << 26 { return std::ptr::null_mut() }
        if t.n == MAX { t.overflow = true; return std::ptr::null_mut() }
        let al = layout.align().max(ZONE);
        let pre = al;
        let zoned = pre + layout.size() + ZONE;
        let base = System.alloc(Layout::from_size_align_unchecked(zoned, al));
        if base.is_null() { return base }
        std::ptr::write_bytes(base, ZONE_BYTE, zoned);
        let ptr = base.add(pre);
        std::ptr::write_bytes(ptr, if zero { 0 } else if t.dirty { 0xA5 } else { 0xC3 }, layout.size());
        t.recs[t.n] = Rec { ptr: ptr as usize, base: base as usize, size: layout.size(), align: layout.align(), zoned, freed: false };
        t.n += 1;
        ptr
    }
}

unsafe impl GlobalAlloc for Checker {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if TRACK.try_with(|t| t.get()).unwrap_or(0) != 0 { self.tracked_alloc(layout, false) } else { System.alloc(layout) }
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if TRACK.try_with(|t| t.get()).unwrap_or(0) != 0 { self.tracked_alloc(layout, true) } else { System.alloc_zeroed(layout) }
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if OWNER.try_with(|o| o.get()).unwrap_or(false) {
            let t = table();
            for i in (0..t.n).rev() {
                if t.recs[i].ptr == ptr as usize {
                    let r = t.recs[i];
                    if r.freed { report("heap block released twice"); return }
                    if r.size != layout.size() || r.align != layout.align() {
                        report(&format!("heap block of layout (size {}, align {}) released with layout (size {}, align {})", r.size, r.align, layout.size(), layout.align()));
                    }
                    std::ptr::write_bytes(ptr, FREED_BYTE, r.size);
                    t.recs[i].freed = true;
                    return;
                }
                let r = t.recs[i];
                if (ptr as usize) >= r.base && (ptr as usize) < r.base + r.zoned {
                    report("release of a pointer into the middle of a heap block");
                    return;
                }
            }
            if TRACK.try_with(|t| t.get()).unwrap_or(0) == 2 {
                report("release of a pointer that was never allocated");
                return;
            }
        }
        System.dealloc(ptr, layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        let tracked = OWNER.try_with(|o| o.get()).unwrap_or(false) && (TRACK.try_with(|t| t.get()).unwrap_or(0) != 0 || { let t = table(); t.recs[..t.n].iter().any(|r| r.ptr == ptr as usize) });
        if !tracked { return System.realloc(ptr, layout, new) }
        let nl = Layout::from_size_align_unchecked(new, layout.align());
        let np = self.alloc(nl);
        if !np.is_null() {
            std::ptr::copy_nonoverlapping(ptr, np, layout.size().min(new));
            self.dealloc(ptr, layout);
        }
        np
    }
}
