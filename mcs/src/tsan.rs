//! What the compiler's thread-sanitizer instrumentation calls, implemented by the explorer.
use crate::sched::{self, Acc};
use core::sync::atomic::Ordering;

fn ord(m: i32) -> Ordering {
    match m {
        0 => Ordering::Relaxed,
        1 | 2 => Ordering::Acquire,
        3 => Ordering::Release,
        4 => Ordering::AcqRel,
        _ => Ordering::SeqCst,
    }
}

#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_pc: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_end() {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_update(_p: usize, _v: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_read(p: usize) {
    sched::access(p, 8, Acc::Read)
}
#[no_mangle]
pub extern "C" fn __tsan_read_range(p: usize, n: usize) {
    if n > 0 {
        sched::access(p, n, Acc::Read)
    }
}
#[no_mangle]
pub extern "C" fn __tsan_write_range(p: usize, n: usize) {
    if n > 0 {
        sched::access(p, n, Acc::Write)
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    __tsan_read_range(s as usize, n);
    __tsan_write_range(d as usize, n);
    libc::memmove(d.cast(), s.cast(), n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    __tsan_memcpy(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    __tsan_write_range(d as usize, n);
    libc::memset(d.cast(), v, n);
    d
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(m: i32) {
    sched::fence(ord(m))
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_m: i32) {}
#[no_mangle]
pub extern "C" fn __tsan_read1(p: usize) {
    sched::access(p, 1, Acc::Read)
}
#[no_mangle]
pub extern "C" fn __tsan_volatile_read1(p: usize) {
    sched::access(p, 1, Acc::Read)
}
#[no_mangle]
pub extern "C" fn __tsan_write1(p: usize) {
    sched::access(p, 1, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_volatile_write1(p: usize) {
    sched::access(p, 1, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_read_write1(p: usize) {
    sched::access(p, 1, Acc::Read);
    sched::access(p, 1, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_read2(p: usize) {
    sched::access(p, 2, Acc::Read)
}
#[no_mangle]
pub extern "C" fn __tsan_unaligned_read2(p: usize) {
    sched::access(p, 2, Acc::Read)
}
#[no_mangle]
pub extern "C" fn __tsan_volatile_read2(p: usize) {
    sched::access(p, 2, Acc::Read)
}
#[no_mangle]
pub extern "C" fn __tsan_unaligned_volatile_read2(p: usize) {
    sched::access(p, 2, Acc::Read)
}
#[no_mangle]
pub extern "C" fn __tsan_write2(p: usize) {
    sched::access(p, 2, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_unaligned_write2(p: usize) {
    sched::access(p, 2, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_volatile_write2(p: usize) {
    sched::access(p, 2, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_unaligned_volatile_write2(p: usize) {
    sched::access(p, 2, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_read_write2(p: usize) {
    sched::access(p, 2, Acc::Read);
    sched::access(p, 2, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_unaligned_read_write2(p: usize) {
    sched::access(p, 2, Acc::Read);
    sched::access(p, 2, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_read4(p: usize) {
    sched::access(p, 4, Acc::Read)
}
#[no_mangle]
pub extern "C" fn __tsan_unaligned_read4(p: usize) {
    sched::access(p, 4, Acc::Read)
}
#[no_mangle]
pub extern "C" fn __tsan_volatile_read4(p: usize) {
    sched::access(p, 4, Acc::Read)
}
#[no_mangle]
pub extern "C" fn __tsan_unaligned_volatile_read4(p: usize) {
    sched::access(p, 4, Acc::Read)
}
#[no_mangle]
pub extern "C" fn __tsan_write4(p: usize) {
    sched::access(p, 4, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_unaligned_write4(p: usize) {
    sched::access(p, 4, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_volatile_write4(p: usize) {
    sched::access(p, 4, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_unaligned_volatile_write4(p: usize) {
    sched::access(p, 4, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_read_write4(p: usize) {
    sched::access(p, 4, Acc::Read);
    sched::access(p, 4, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_unaligned_read_write4(p: usize) {
    sched::access(p, 4, Acc::Read);
    sched::access(p, 4, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_read8(p: usize) {
    sched::access(p, 8, Acc::Read)
}
#[no_mangle]
pub extern "C" fn __tsan_unaligned_read8(p: usize) {
    sched::access(p, 8, Acc::Read)
}
#[no_mangle]
pub extern "C" fn __tsan_volatile_read8(p: usize) {
    sched::access(p, 8, Acc::Read)
}
#[no_mangle]
pub extern "C" fn __tsan_unaligned_volatile_read8(p: usize) {
    sched::access(p, 8, Acc::Read)
}
#[no_mangle]
pub extern "C" fn __tsan_write8(p: usize) {
    sched::access(p, 8, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_unaligned_write8(p: usize) {
    sched::access(p, 8, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_volatile_write8(p: usize) {
    sched::access(p, 8, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_unaligned_volatile_write8(p: usize) {
    sched::access(p, 8, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_read_write8(p: usize) {
    sched::access(p, 8, Acc::Read);
    sched::access(p, 8, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_unaligned_read_write8(p: usize) {
    sched::access(p, 8, Acc::Read);
    sched::access(p, 8, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_read16(p: usize) {
    sched::access(p, 16, Acc::Read)
}
#[no_mangle]
pub extern "C" fn __tsan_unaligned_read16(p: usize) {
    sched::access(p, 16, Acc::Read)
}
#[no_mangle]
pub extern "C" fn __tsan_volatile_read16(p: usize) {
    sched::access(p, 16, Acc::Read)
}
#[no_mangle]
pub extern "C" fn __tsan_unaligned_volatile_read16(p: usize) {
    sched::access(p, 16, Acc::Read)
}
#[no_mangle]
pub extern "C" fn __tsan_write16(p: usize) {
    sched::access(p, 16, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_unaligned_write16(p: usize) {
    sched::access(p, 16, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_volatile_write16(p: usize) {
    sched::access(p, 16, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_unaligned_volatile_write16(p: usize) {
    sched::access(p, 16, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_read_write16(p: usize) {
    sched::access(p, 16, Acc::Read);
    sched::access(p, 16, Acc::Write)
}
#[no_mangle]
pub extern "C" fn __tsan_unaligned_read_write16(p: usize) {
    sched::access(p, 16, Acc::Read);
    sched::access(p, 16, Acc::Write)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_load(p: *const u8, m: i32) -> u8 {
    sched::load(p as usize, 1, ord(m), || p.read_volatile() as u64) as u8
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_store(p: *mut u8, v: u8, m: i32) {
    sched::update(p as usize, 1, false, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u8), |_| Some(v as u64));
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_compare_exchange_val(p: *mut u8, c: u8, v: u8, m: i32, fm: i32) -> u8 {
    sched::update(p as usize, 1, true, ord(m), ord(fm), || p.read_volatile() as u64, |v| p.write_volatile(v as u8), |o| if o as u8 == c { Some(v as u64) } else { None }) as u8
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_exchange(p: *mut u8, v: u8, m: i32) -> u8 {
    sched::update(p as usize, 1, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u8), |_o| Some((v) as u64)) as u8
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_fetch_add(p: *mut u8, v: u8, m: i32) -> u8 {
    sched::update(p as usize, 1, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u8), |o| Some(((o as u8).wrapping_add(v)) as u64)) as u8
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_fetch_sub(p: *mut u8, v: u8, m: i32) -> u8 {
    sched::update(p as usize, 1, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u8), |o| Some(((o as u8).wrapping_sub(v)) as u64)) as u8
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_fetch_and(p: *mut u8, v: u8, m: i32) -> u8 {
    sched::update(p as usize, 1, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u8), |o| Some(((o as u8) & v) as u64)) as u8
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_fetch_or(p: *mut u8, v: u8, m: i32) -> u8 {
    sched::update(p as usize, 1, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u8), |o| Some(((o as u8) | v) as u64)) as u8
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_fetch_xor(p: *mut u8, v: u8, m: i32) -> u8 {
    sched::update(p as usize, 1, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u8), |o| Some(((o as u8) ^ v) as u64)) as u8
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic8_fetch_nand(p: *mut u8, v: u8, m: i32) -> u8 {
    sched::update(p as usize, 1, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u8), |o| Some((!((o as u8) & v)) as u64)) as u8
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_load(p: *const u16, m: i32) -> u16 {
    sched::load(p as usize, 2, ord(m), || p.read_volatile() as u64) as u16
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_store(p: *mut u16, v: u16, m: i32) {
    sched::update(p as usize, 2, false, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u16), |_| Some(v as u64));
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_compare_exchange_val(p: *mut u16, c: u16, v: u16, m: i32, fm: i32) -> u16 {
    sched::update(p as usize, 2, true, ord(m), ord(fm), || p.read_volatile() as u64, |v| p.write_volatile(v as u16), |o| if o as u16 == c { Some(v as u64) } else { None }) as u16
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_exchange(p: *mut u16, v: u16, m: i32) -> u16 {
    sched::update(p as usize, 2, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u16), |_o| Some((v) as u64)) as u16
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_fetch_add(p: *mut u16, v: u16, m: i32) -> u16 {
    sched::update(p as usize, 2, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u16), |o| Some(((o as u16).wrapping_add(v)) as u64)) as u16
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_fetch_sub(p: *mut u16, v: u16, m: i32) -> u16 {
    sched::update(p as usize, 2, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u16), |o| Some(((o as u16).wrapping_sub(v)) as u64)) as u16
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_fetch_and(p: *mut u16, v: u16, m: i32) -> u16 {
    sched::update(p as usize, 2, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u16), |o| Some(((o as u16) & v) as u64)) as u16
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_fetch_or(p: *mut u16, v: u16, m: i32) -> u16 {
    sched::update(p as usize, 2, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u16), |o| Some(((o as u16) | v) as u64)) as u16
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_fetch_xor(p: *mut u16, v: u16, m: i32) -> u16 {
    sched::update(p as usize, 2, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u16), |o| Some(((o as u16) ^ v) as u64)) as u16
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic16_fetch_nand(p: *mut u16, v: u16, m: i32) -> u16 {
    sched::update(p as usize, 2, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u16), |o| Some((!((o as u16) & v)) as u64)) as u16
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_load(p: *const u32, m: i32) -> u32 {
    sched::load(p as usize, 4, ord(m), || p.read_volatile() as u64) as u32
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_store(p: *mut u32, v: u32, m: i32) {
    sched::update(p as usize, 4, false, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u32), |_| Some(v as u64));
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_compare_exchange_val(p: *mut u32, c: u32, v: u32, m: i32, fm: i32) -> u32 {
    sched::update(p as usize, 4, true, ord(m), ord(fm), || p.read_volatile() as u64, |v| p.write_volatile(v as u32), |o| if o as u32 == c { Some(v as u64) } else { None }) as u32
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_exchange(p: *mut u32, v: u32, m: i32) -> u32 {
    sched::update(p as usize, 4, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u32), |_o| Some((v) as u64)) as u32
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_fetch_add(p: *mut u32, v: u32, m: i32) -> u32 {
    sched::update(p as usize, 4, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u32), |o| Some(((o as u32).wrapping_add(v)) as u64)) as u32
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_fetch_sub(p: *mut u32, v: u32, m: i32) -> u32 {
    sched::update(p as usize, 4, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u32), |o| Some(((o as u32).wrapping_sub(v)) as u64)) as u32
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_fetch_and(p: *mut u32, v: u32, m: i32) -> u32 {
    sched::update(p as usize, 4, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u32), |o| Some(((o as u32) & v) as u64)) as u32
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_fetch_or(p: *mut u32, v: u32, m: i32) -> u32 {
    sched::update(p as usize, 4, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u32), |o| Some(((o as u32) | v) as u64)) as u32
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_fetch_xor(p: *mut u32, v: u32, m: i32) -> u32 {
    sched::update(p as usize, 4, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u32), |o| Some(((o as u32) ^ v) as u64)) as u32
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic32_fetch_nand(p: *mut u32, v: u32, m: i32) -> u32 {
    sched::update(p as usize, 4, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u32), |o| Some((!((o as u32) & v)) as u64)) as u32
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_load(p: *const u64, m: i32) -> u64 {
    sched::load(p as usize, 8, ord(m), || p.read_volatile() as u64) as u64
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_store(p: *mut u64, v: u64, m: i32) {
    sched::update(p as usize, 8, false, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u64), |_| Some(v as u64));
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_compare_exchange_val(p: *mut u64, c: u64, v: u64, m: i32, fm: i32) -> u64 {
    sched::update(p as usize, 8, true, ord(m), ord(fm), || p.read_volatile() as u64, |v| p.write_volatile(v as u64), |o| if o as u64 == c { Some(v as u64) } else { None }) as u64
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_exchange(p: *mut u64, v: u64, m: i32) -> u64 {
    sched::update(p as usize, 8, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u64), |_o| Some((v) as u64)) as u64
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_fetch_add(p: *mut u64, v: u64, m: i32) -> u64 {
    sched::update(p as usize, 8, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u64), |o| Some(((o as u64).wrapping_add(v)) as u64)) as u64
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_fetch_sub(p: *mut u64, v: u64, m: i32) -> u64 {
    sched::update(p as usize, 8, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u64), |o| Some(((o as u64).wrapping_sub(v)) as u64)) as u64
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_fetch_and(p: *mut u64, v: u64, m: i32) -> u64 {
    sched::update(p as usize, 8, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u64), |o| Some(((o as u64) & v) as u64)) as u64
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_fetch_or(p: *mut u64, v: u64, m: i32) -> u64 {
    sched::update(p as usize, 8, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u64), |o| Some(((o as u64) | v) as u64)) as u64
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_fetch_xor(p: *mut u64, v: u64, m: i32) -> u64 {
    sched::update(p as usize, 8, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u64), |o| Some(((o as u64) ^ v) as u64)) as u64
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic64_fetch_nand(p: *mut u64, v: u64, m: i32) -> u64 {
    sched::update(p as usize, 8, true, ord(m), Ordering::Relaxed, || p.read_volatile() as u64, |v| p.write_volatile(v as u64), |o| Some((!((o as u64) & v)) as u64)) as u64
}
