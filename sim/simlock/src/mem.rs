//! Seams below the lock API, for code that synchronises without `parking_lot`: compiled with
//! `-Zsanitizer=thread` (see rustc-wrap.sh), every atomic operation of the crate under test
//! calls one of the hooks here, which makes it a scheduling point; blocking futex calls block in
//! the simulator; clocks read simulated time. All of it only while a simulated thread is
//! inside a library call; everything else passes straight through.
use crate::{race, sim};
use std::sync::atomic::*;
use Ordering::SeqCst;

macro_rules! plain {
    ($($n:ident $f:ident $k:expr),*) => { $(#[no_mangle] pub extern "C" fn $n(p: usize) { race::$f(p, $k) })* };
}
plain!(__tsan_read1 read 1, __tsan_read2 read 2, __tsan_read4 read 4, __tsan_read8 read 8, __tsan_read16 read 16,
    __tsan_write1 write 1, __tsan_write2 write 2, __tsan_write4 write 4, __tsan_write8 write 8, __tsan_write16 write 16,
    __tsan_unaligned_read1 read 1, __tsan_unaligned_read2 read 2, __tsan_unaligned_read4 read 4, __tsan_unaligned_read8 read 8, __tsan_unaligned_read16 read 16,
    __tsan_unaligned_write1 write 1, __tsan_unaligned_write2 write 2, __tsan_unaligned_write4 write 4, __tsan_unaligned_write8 write 8, __tsan_unaligned_write16 write 16);
#[no_mangle]
pub extern "C" fn __tsan_vptr_read(_: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_update(_: usize, _: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_read_range(p: usize, n: usize) {
    race::read(p, n)
}
#[no_mangle]
pub extern "C" fn __tsan_write_range(p: usize, n: usize) {
    race::write(p, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    race::read(s as usize, n);
    race::write(d as usize, n);
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    race::read(s as usize, n);
    race::write(d as usize, n);
    std::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    race::write(d as usize, n);
    std::ptr::write_bytes(d, c as u8, n);
    d
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    race::join_all();
    fence(SeqCst)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

macro_rules! rmw {
    ($T:ty, $A:ty, $($n:ident $m:ident),*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n(p: *const $A, v: $T, o: i32) -> $T {
            sim::atomic_point();
            race::atomic_touch(p as usize, std::mem::size_of::<$T>());
            let was = (*p).$m(v, SeqCst);
            race::atomic(p as usize, Some(was as u64), Some((*p).load(SeqCst) as u64), o);
            was
        }
    )* };
}
macro_rules! atomics {
    ($T:ty, $A:ty, $load:ident, $store:ident, $cv:ident, $cs:ident, $cw:ident, $($n:ident $m:ident),*) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $A, o: i32) -> $T {
            sim::atomic_point();
            race::atomic_touch(p as usize, std::mem::size_of::<$T>());
            let v = (*p).load(SeqCst);
            race::atomic(p as usize, Some(v as u64), None, o);
            sim::looked(p as usize, v as u64);
            v
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *const $A, v: $T, o: i32) {
            sim::atomic_point();
            race::atomic_touch(p as usize, std::mem::size_of::<$T>());
            (*p).store(v, SeqCst);
            race::atomic(p as usize, None, Some(v as u64), o);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cv(p: *const $A, c: $T, v: $T, o: i32, f: i32) -> $T {
            sim::atomic_point();
            race::atomic_touch(p as usize, std::mem::size_of::<$T>());
            match (*p).compare_exchange(c, v, SeqCst, SeqCst) {
                Ok(x) => {
                    race::atomic(p as usize, Some(x as u64), Some(v as u64), o);
                    x
                }
                Err(x) => {
                    race::atomic(p as usize, Some(x as u64), None, f);
                    sim::looked(p as usize, x as u64);
                    x
                }
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cs(p: *const $A, c: *mut $T, v: $T, o: i32, f: i32) -> i32 {
            let was = *c;
            *c = $cv(p, was, v, o, f);
            (*c == was) as i32
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cw(p: *const $A, c: *mut $T, v: $T, o: i32, f: i32) -> i32 {
            $cs(p, c, v, o, f)
        }
        rmw!($T, $A, $($n $m),*);
    };
}
atomics!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_compare_exchange_val,
    __tsan_atomic8_compare_exchange_strong, __tsan_atomic8_compare_exchange_weak,
    __tsan_atomic8_exchange swap, __tsan_atomic8_fetch_add fetch_add, __tsan_atomic8_fetch_sub fetch_sub,
    __tsan_atomic8_fetch_and fetch_and, __tsan_atomic8_fetch_or fetch_or, __tsan_atomic8_fetch_xor fetch_xor, __tsan_atomic8_fetch_nand fetch_nand);
atomics!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_compare_exchange_val,
    __tsan_atomic16_compare_exchange_strong, __tsan_atomic16_compare_exchange_weak,
    __tsan_atomic16_exchange swap, __tsan_atomic16_fetch_add fetch_add, __tsan_atomic16_fetch_sub fetch_sub,
    __tsan_atomic16_fetch_and fetch_and, __tsan_atomic16_fetch_or fetch_or, __tsan_atomic16_fetch_xor fetch_xor, __tsan_atomic16_fetch_nand fetch_nand);
atomics!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_compare_exchange_val,
    __tsan_atomic32_compare_exchange_strong, __tsan_atomic32_compare_exchange_weak,
    __tsan_atomic32_exchange swap, __tsan_atomic32_fetch_add fetch_add, __tsan_atomic32_fetch_sub fetch_sub,
    __tsan_atomic32_fetch_and fetch_and, __tsan_atomic32_fetch_or fetch_or, __tsan_atomic32_fetch_xor fetch_xor, __tsan_atomic32_fetch_nand fetch_nand);
atomics!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_compare_exchange_val,
    __tsan_atomic64_compare_exchange_strong, __tsan_atomic64_compare_exchange_weak,
    __tsan_atomic64_exchange swap, __tsan_atomic64_fetch_add fetch_add, __tsan_atomic64_fetch_sub fetch_sub,
    __tsan_atomic64_fetch_and fetch_and, __tsan_atomic64_fetch_or fetch_or, __tsan_atomic64_fetch_xor fetch_xor, __tsan_atomic64_fetch_nand fetch_nand);

// ------------------------------------------------------------------ calls into the system
const SYS_FUTEX: i64 = 202;
const SYS_CLOCK_GETTIME: i64 = 228;
const SYS_NANOSLEEP: i64 = 35;
const SYS_CLOCK_NANOSLEEP: i64 = 230;
const SYS_SCHED_YIELD: i64 = 24;
const EAGAIN: i32 = 11;
const ETIMEDOUT: i32 = 110;

unsafe fn raw(n: i64, a: [i64; 6]) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
extern "C" {
    fn __errno_location() -> *mut i32;
}
unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

/// libc's `syscall`: std's locks, condition variables and parking come through here
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_FUTEX && sim::inside() {
        match b & 0x7f {
            // FUTEX_WAIT, FUTEX_WAIT_BITSET
            0 | 9 => {
                sim::atomic_point();
                if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 {
                    return ret(-EAGAIN as i64);
                }
                return if sim::futex_wait(a as usize, d != 0) { 0 } else { ret(-ETIMEDOUT as i64) };
            }
            // FUTEX_WAKE, FUTEX_WAKE_BITSET
            1 | 10 => {
                sim::atomic_point();
                return sim::futex_wake(a as usize);
            }
            _ => {}
        }
    }
    ret(raw(n, [a, b, c, d, e, f]))
}
/// how fast simulated time goes, and whether the wall clock jumps
pub static PACE: AtomicU64 = AtomicU64::new(0);
#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Timespec) -> i32 {
    if sim::inside() {
        let seed = PACE.load(SeqCst);
        // a step takes from a microsecond to a quarter of an hour
        let us = sim::now().wrapping_mul([1, 1, 1000, 1_000_000, 1_000_000_000][seed as usize % 5]);
        let mut sec = 1_000_000 + (us / 1_000_000) as i64;
        if id == 0 && seed & 0x100 != 0 {
            // somebody sets the wall clock now and then
            sec += [0, -3600, 86_400, -1][(sim::mix(seed ^ sim::now() / 40) & 3) as usize];
        }
        *t = Timespec { sec, nsec: (us % 1_000_000 * 1000) as i64 };
        return 0;
    }
    ret(raw(SYS_CLOCK_GETTIME, [id as i64, t as i64, 0, 0, 0, 0])) as i32
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const Timespec, rem: *mut Timespec) -> i32 {
    if sim::inside() {
        race::work(1000);
        sim::spin();
        return 0;
    }
    ret(raw(SYS_NANOSLEEP, [t as i64, rem as i64, 0, 0, 0, 0])) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, t: *const Timespec, rem: *mut Timespec) -> i32 {
    if sim::inside() {
        race::work(1000);
        sim::spin();
        return 0;
    }
    -raw(SYS_CLOCK_NANOSLEEP, [id as i64, fl as i64, t as i64, rem as i64, 0, 0]) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if sim::inside() {
        race::work(1000);
        sim::spin();
        return 0;
    }
    ret(raw(SYS_SCHED_YIELD, [0; 6])) as i32
}
