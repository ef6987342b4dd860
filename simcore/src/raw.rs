//! System calls made by the simulator itself, never intercepted.
use std::arch::asm;
use std::sync::atomic::AtomicU32;

#[inline]
pub unsafe fn syscall6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    asm!("syscall", inlateout("rax") n as isize => ret, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}
pub fn futex_wait(w: &AtomicU32, val: u32) {
    unsafe { syscall6(202, w as *const _ as usize, 128, val as usize, 0, 0, 0); }
}
pub fn futex_wake(w: &AtomicU32, n: u32) {
    unsafe { syscall6(202, w as *const _ as usize, 129, n as usize, 0, 0, 0); }
}
pub fn exit_group(code: i32) -> ! {
    unsafe { syscall6(231, code as usize, 0, 0, 0, 0, 0); }
    loop {}
}
pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { syscall6(1, fd as usize, b.as_ptr() as usize, b.len(), 0, 0, 0) };
        if r <= 0 { return; }
        b = &b[r as usize..];
    }
}
