//! Memory whose every access can be intercepted, and coroutines. x86_64 Linux.
use std::arch::naked_asm;

pub const PAGE: usize = 4096;

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn ftruncate(fd: i32, len: i64) -> i32;
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    fn sigaltstack(new: *const StackT, old: *mut StackT) -> i32;
}
#[repr(C)]
struct SigAction { handler: usize, mask: [u64; 16], flags: i32, restorer: usize }
#[repr(C)]
struct StackT { sp: *mut u8, flags: i32, size: usize }

/// The same memory twice: `user` can be protected, `alias` is always accessible.
pub struct Twin { pub user: *mut u8, pub alias: *mut u8, pub len: usize }

pub static mut TWIN: Twin = Twin { user: std::ptr::null_mut(), alias: std::ptr::null_mut(), len: 0 };
static mut GRANTED: bool = false;
static mut PROTECT: bool = false;
static mut FAULT: usize = 0;
static mut POINT: Option<fn(usize)> = None;

pub fn map_stack(len: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x22 | 0x4000, -1, 0) };
    assert!(p as isize != -1);
    p
}

/// Set up the twin memory and the handlers, once per process.
pub fn init(pages: usize, point: fn(usize)) {
    unsafe {
        if !TWIN.user.is_null() { return }
        let fd = memfd_create(b"twin\0".as_ptr(), 0);
        assert!(fd >= 0 && ftruncate(fd, (pages * PAGE) as i64) == 0);
        let u = mmap(std::ptr::null_mut(), pages * PAGE, 3, 1, fd, 0);
        let a = mmap(std::ptr::null_mut(), pages * PAGE, 3, 1, fd, 0);
        assert!(u as isize != -1 && a as isize != -1);
        TWIN = Twin { user: u, alias: a, len: pages * PAGE };
        POINT = Some(point);
        let st = StackT { sp: map_stack(1 << 16), flags: 0, size: 1 << 16 };
        assert!(sigaltstack(&st, std::ptr::null_mut()) == 0);
        for (sig, h) in [(11, on_segv as extern "C" fn(i32, *const u8, *mut u8) as usize), (5, on_trap as extern "C" fn(i32, *const u8, *mut u8) as usize)] {
            // SA_SIGINFO | SA_ONSTACK
            let sa = SigAction { handler: h, mask: [0; 16], flags: 0x4 | 0x0800_0000, restorer: 0 };
            assert!(sigaction(sig, &sa, std::ptr::null_mut()) == 0);
        }
    }
}

/// From now on every access to the user side is a scheduling point (or, again, is not).
pub fn protect(on: bool) {
    unsafe {
        GRANTED = false;
        PROTECT = on;
        mprotect(TWIN.user, TWIN.len, if on { 0 } else { 3 });
    }
}

const GREGS: usize = 40;
unsafe fn greg(uc: *mut u8, i: usize) -> &'static mut u64 { &mut *(uc.add(GREGS + 8 * i) as *mut u64) }
const RSP: usize = 15;
const RIP: usize = 16;
const EFL: usize = 17;

extern "C" fn on_segv(_: i32, info: *const u8, uc: *mut u8) {
    unsafe {
        let addr = *(info.add(16) as *const usize);
        if !PROTECT || addr < TWIN.user as usize || addr >= TWIN.user as usize + TWIN.len {
            // A genuine crash: let it happen.
            let sa = SigAction { handler: 0, mask: [0; 16], flags: 0, restorer: 0 };
            sigaction(11, &sa, std::ptr::null_mut());
            return;
        }
        if GRANTED {
            // Let this one instruction access the memory.
            mprotect(TWIN.user, TWIN.len, 3);
            *greg(uc, EFL) |= 0x100;
        } else {
            FAULT = addr;
            let sp = *greg(uc, RSP) - 128 - 8;
            *(sp as *mut u64) = *greg(uc, RIP);
            *greg(uc, RSP) = sp;
            *greg(uc, RIP) = trampoline as unsafe extern "C" fn() as usize as u64;
        }
    }
}

extern "C" fn on_trap(_: i32, _: *const u8, uc: *mut u8) {
    unsafe {
        *greg(uc, EFL) &= !0x100;
        GRANTED = false;
        if PROTECT { mprotect(TWIN.user, TWIN.len, 0); }
    }
}

extern "C" fn on_point() {
    unsafe {
        let a = FAULT;
        if let Some(p) = POINT { p(a) }
        GRANTED = true;
    }
}

/// Runs in place of an instruction that was about to access the memory; that instruction is executed
/// after the return.
#[unsafe(naked)]
unsafe extern "C" fn trampoline() {
    naked_asm!(
        "pushfq", "push rax", "push rcx", "push rdx", "push rsi", "push rdi", "push r8", "push r9", "push r10", "push r11",
        "push rbx", "push rbp", "push r12", "push r13", "push r14", "push r15",
        "cld",
        "mov rbp, rsp",
        "sub rsp, 12288", "and rsp, -64",
        "lea rdi, [rsp+512]", "xor eax, eax", "mov ecx, 8", "rep stosq",
        "mov eax, -1", "mov edx, -1", "xsave64 [rsp]",
        "call {p}",
        "mov eax, -1", "mov edx, -1", "xrstor64 [rsp]",
        "mov rsp, rbp",
        "pop r15", "pop r14", "pop r13", "pop r12", "pop rbp", "pop rbx",
        "pop r11", "pop r10", "pop r9", "pop r8", "pop rdi", "pop rsi", "pop rdx", "pop rcx", "pop rax", "popfq",
        "ret 128",
        p = sym on_point,
    )
}

#[unsafe(naked)]
pub unsafe extern "C" fn switch(save: *mut usize, to: usize) {
    naked_asm!(
        "push rbp", "push rbx", "push r12", "push r13", "push r14", "push r15",
        "mov [rdi], rsp", "mov rsp, rsi",
        "pop r15", "pop r14", "pop r13", "pop r12", "pop rbx", "pop rbp",
        "ret",
    )
}

/// Prepare a stack so that switching to the returned value calls `entry`, which must not return.
pub fn prepare(stack: *mut u8, len: usize, entry: extern "C" fn() -> !) -> usize {
    unsafe {
        let top = (stack as usize + len) & !63;
        let slot = |o: usize| (top - o) as *mut usize;
        *slot(8) = 0;
        *slot(16) = entry as usize;
        for i in 0..6 { *slot(24 + 8 * i) = 0; }
        top - 16 - 48
    }
}
