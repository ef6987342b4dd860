//! C library entry points taken over by the simulator. On simulated threads blocking, time and randomness
//! are the simulator's; everywhere else the calls go straight to the kernel.
use simcore::raw::syscall6;

pub unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
pub unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

/// One unit of simulated time is a microsecond.
pub const NS: u64 = 1000;
const EPOCH: u64 = 1_700_000_000;

unsafe fn futex(addr: usize, op: usize, val: usize, timeout: usize) -> i64 {
    match op & 0x7f {
        0 | 9 => {
            simcore::step("futex wait");
            if *(addr as *const u32) != val as u32 {
                set_errno(libc::EAGAIN);
                return -1;
            }
            let t = if timeout == 0 {
                None
            } else {
                let ts = &*(timeout as *const libc::timespec);
                let mut units = (ts.tv_sec as u64).saturating_mul(1_000_000).saturating_add(ts.tv_nsec as u64 / NS);
                if op & 0x7f == 9 {
                    let base = if op & 256 != 0 { EPOCH * 1_000_000 } else { 0 };
                    units = units.saturating_sub(base).saturating_sub(simcore::now());
                }
                Some(units.min(1 << 40))
            };
            if simcore::block(addr, "futex", t) {
                0
            } else {
                set_errno(libc::ETIMEDOUT);
                -1
            }
        }
        1 | 10 => {
            let n = simcore::wake(addr, val.min(1 << 20));
            simcore::step("futex wake");
            n as i64
        }
        _ => {
            set_errno(libc::ENOSYS);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_futex && simcore::in_sim() {
        return futex(a, b, c, d);
    }
    if n == libc::SYS_getrandom && simcore::on_sim_thread() {
        fill(a as *mut u8, b);
        return b as i64;
    }
    if n == libc::SYS_statx && simcore::in_sim() {
        return crate::disk::do_statx(a as i32, b as *const _, c as i32, d as u32, e as *mut _) as i64;
    }
    ret(syscall6(n, a, b, c, d, e, f)) as i64
}

unsafe fn fill(p: *mut u8, n: usize) {
    let mut i = 0;
    while i < n {
        let r = simcore::entropy().to_le_bytes();
        for k in 0..8 {
            if i + k < n {
                *p.add(i + k) = r[k];
            }
        }
        i += 8;
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if simcore::on_sim_thread() {
        fill(p, n);
        return n as isize;
    }
    ret(syscall6(libc::SYS_getrandom, p as usize, n, flags as usize, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if simcore::in_sim() {
        simcore::yield_now("sched_yield");
        return 0;
    }
    ret(syscall6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if simcore::on_sim_thread() {
        let t = simcore::now();
        let base = if id == libc::CLOCK_REALTIME { EPOCH } else { 0 };
        (*ts).tv_sec = (base + t / 1_000_000) as i64;
        (*ts).tv_nsec = ((t % 1_000_000) * NS) as i64;
        return 0;
    }
    ret(syscall6(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if simcore::in_sim() {
        simcore::sleep((*req).tv_sec as u64 * 1_000_000 + (*req).tv_nsec as u64 / NS);
        return 0;
    }
    ret(syscall6(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as i32
}
