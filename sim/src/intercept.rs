//! Clock seam: on simulation threads `clock_gettime` is answered with simulated time, so any code
//! that asks for the time sees skews, jumps and long pauses.
//! Randomness seam: `getrandom` (and the raw system call) is answered from a seeded generator on
//! simulation threads, so session ids and hash-map orders are functions of the seed.
//! Socket seam: on threads that simulate a network (see http.rs) new sockets lead to its server.
//! The futex and allocator hooks serve the thread simulation (see threads.rs).

use std::cell::Cell;

thread_local! {
    static RND: Cell<Option<u64>> = const { Cell::new(None) };
    /// Wall-clock and monotonic time in ms.
    static CLOCK: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
}

/// What this thread's clocks show from now on; None gives it the real ones back.
pub fn set_clock(c: Option<(i64, i64)>) {
    CLOCK.with(|x| x.set(c));
}
/// # Safety
/// libc contract.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if let Ok(Some((wall, mono))) = CLOCK.try_with(|c| c.get()) {
        let ms = match clk {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI => Some(wall),
            libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_BOOTTIME => {
                Some(mono)
            }
            _ => None,
        };
        if let Some(ms) = ms {
            (*ts).tv_sec = ms.div_euclid(1000);
            (*ts).tv_nsec = ms.rem_euclid(1000) * 1_000_000;
            return 0;
        }
    }
    ret(raw(libc::SYS_clock_gettime, [clk as i64, ts as i64, 0, 0, 0, 0])) as libc::c_int
}

/// From now on this thread's randomness is a function of `seed`.
pub fn seed_thread(seed: u64) {
    RND.with(|r| r.set(Some(seed)));
}

fn fill(buf: *mut u8, len: usize) -> bool {
    RND.with(|r| {
        let Some(mut s) = r.get() else { return false };
        for i in 0..len {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let mut z = s ^ (s >> 33);
            z = z.wrapping_mul(0xff51afd7ed558ccd);
            unsafe { *buf.add(i) = (z >> 40) as u8 };
        }
        r.set(Some(s));
        true
    })
}

unsafe fn raw(n: i64, a: [i64; 6]) -> i64 {
    let ret: i64;
    core::arch::asm!("syscall", inlateout("rax") n => ret,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}
unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

/// # Safety
/// libc contract.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if fill(buf, len) {
        return len as isize;
    }
    ret(raw(libc::SYS_getrandom, [buf as i64, len as i64, flags as i64, 0, 0, 0])) as isize
}

/// # Safety
/// libc contract (a variadic function, called with up to six register arguments).
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_getrandom && fill(a as *mut u8, b as usize) {
        return b;
    }
    if n == libc::SYS_futex {
        let op = (b as i32) & 0x7f;
        if (op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET) && crate::threads::futex_wait(a as usize) {
            // A spurious wake-up: the caller re-checks.
            return 0;
        }
    }
    ret(raw(n, [a, b, c, d, e, f]))
}

/// # Safety
/// libc contract.
#[no_mangle]
pub unsafe extern "C" fn socket(domain: libc::c_int, ty: libc::c_int, proto: libc::c_int) -> libc::c_int {
    if let Some(fd) = crate::http::socket(domain) {
        return fd;
    }
    ret(raw(libc::SYS_socket, [domain as i64, ty as i64, proto as i64, 0, 0, 0])) as libc::c_int
}
/// # Safety
/// libc contract.
#[no_mangle]
pub unsafe extern "C" fn connect(fd: libc::c_int, addr: *const libc::sockaddr, len: libc::socklen_t) -> libc::c_int {
    match crate::http::connect(fd, addr, len) {
        Some(0) => 0,
        Some(e) => {
            *libc::__errno_location() = e;
            -1
        }
        None => ret(raw(libc::SYS_connect, [fd as i64, addr as i64, len as i64, 0, 0, 0])) as libc::c_int,
    }
}
/// # Safety
/// libc contract.
#[no_mangle]
pub unsafe extern "C" fn setsockopt(
    fd: libc::c_int,
    level: libc::c_int,
    name: libc::c_int,
    value: *const libc::c_void,
    len: libc::socklen_t,
) -> libc::c_int {
    if crate::http::is_mine(fd) {
        return 0;
    }
    ret(raw(libc::SYS_setsockopt, [fd as i64, level as i64, name as i64, value as i64, len as i64, 0])) as libc::c_int
}

pub struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        crate::threads::alloc_point();
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        crate::threads::alloc_point();
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        crate::threads::alloc_point();
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        crate::threads::alloc_point();
        std::alloc::System.alloc_zeroed(l)
    }
}
#[global_allocator]
static A: Alloc = Alloc;
