//! Ledger allocator: every heap block of an execution is recorded, surrounded by red zones,
//! filled before use, poisoned and quarantined after release, and checked for being released
//! exactly once with the layout it was allocated with.
use core::alloc::{GlobalAlloc, Layout};
use core::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::alloc::System;

pub struct Ledger;

const MAGIC: u64 = 0xB10C_A11C_B10C_A11C;
const FREED: u64 = 0xDEAD_B10C_DEAD_B10C;
const RZ: usize = 32;
const FILL: u8 = 0xA5;
const TAIL: u8 = 0xCB;
const POISON: u8 = 0xDD;

#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    align_epoch: u64, // align << 32 | epoch
    next: *mut Head,  // quarantine link
}

static EPOCH: AtomicU32 = AtomicU32::new(0); // 0: not tracking
static LAST: AtomicU32 = AtomicU32::new(0);
static LIVE: AtomicI64 = AtomicI64::new(0);
static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
static QUAR: AtomicUsize = AtomicUsize::new(0);
static QUAR_BYTES: AtomicUsize = AtomicUsize::new(0);
static ERR: AtomicU32 = AtomicU32::new(0);
static ERR_A: AtomicU64 = AtomicU64::new(0);
static ERR_B: AtomicU64 = AtomicU64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
/// allocations seen in this case (tracked only)
static CASE_ALLOCS: AtomicU64 = AtomicU64::new(0);
/// n > 0: the n-th tracked allocation from now fails
static FAIL_AT: AtomicI64 = AtomicI64::new(0);
static FAIL_RUN: AtomicI64 = AtomicI64::new(0);
static FAIL_HIT: AtomicU32 = AtomicU32::new(0);
/// called for every tracked allocation (true) and release (false), with address and size
static ON_EVENT: AtomicUsize = AtomicUsize::new(0);
#[allow(dead_code)]
pub fn on_event(f: Option<fn(bool, usize, usize)>) {
    ON_EVENT.store(f.map_or(0, |f| f as usize), Relaxed);
}
fn event(alloc: bool, p: usize, n: usize) {
    let f = ON_EVENT.load(Relaxed);
    if f != 0 {
        let f: fn(bool, usize, usize) = unsafe { core::mem::transmute(f) };
        f(alloc, p, n);
    }
}
/// largest block handed out in a case
pub const HUGE: usize = 1 << 28;

fn err(code: u32, a: u64, b: u64) {
    if ERR.compare_exchange(0, code, Relaxed, Relaxed).is_ok() {
        ERR_A.store(a, Relaxed);
        ERR_B.store(b, Relaxed);
    }
}

// The blocks carry a header in front of what callers get: the optimiser, which knows what an allocator may do,
// must not see through these functions.
unsafe impl GlobalAlloc for Ledger {
    #[inline(never)]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let n = core::hint::black_box(self.alloc(Layout::from_size_align_unchecked(new, l.align())));
        if !n.is_null() {
            core::ptr::copy_nonoverlapping(p, n, l.size().min(new));
            self.dealloc(core::hint::black_box(p), l);
        }
        n
    }

    #[inline(never)]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let ep = EPOCH.load(Relaxed);
        if ep != 0 {
            CASE_ALLOCS.fetch_add(1, Relaxed);
            let f = FAIL_AT.load(Relaxed);
            if f > 0 {
                FAIL_AT.store(f - 1, Relaxed);
                if f == 1 {
                    let run = FAIL_RUN.load(Relaxed);
                    if run > 1 {
                        FAIL_RUN.store(run - 1, Relaxed);
                        FAIL_AT.store(1, Relaxed);
                    }
                    FAIL_HIT.store(1, Relaxed);
                    return core::ptr::null_mut();
                }
            }
            if l.size() == 0 {
                err(6, 0, l.align() as u64);
            }
            if l.size() > HUGE || LIVE_BYTES.load(Relaxed) > (1 << 30) {
                return core::ptr::null_mut();
            }
        }
        let lead = l.align().max(RZ);
        let Ok(full) = Layout::from_size_align(lead + l.size() + RZ, lead) else {
            return core::ptr::null_mut();
        };
        let base = System.alloc(full);
        if base.is_null() {
            return base;
        }
        let p = base.add(lead);
        let h = p.sub(RZ) as *mut Head;
        h.write(Head { magic: MAGIC, size: l.size(), align_epoch: (l.align() as u64) << 32 | ep as u64, next: core::ptr::null_mut() });
        if ep != 0 {
            core::ptr::write_bytes(p, FILL, l.size());
            LIVE.fetch_add(1, Relaxed);
            LIVE_BYTES.fetch_add(l.size() as i64, Relaxed);
            ALLOCS.fetch_add(1, Relaxed);
            event(true, p as usize, l.size());
        }
        core::ptr::write_bytes(p.add(l.size()), TAIL, RZ);
        core::hint::black_box(p)
    }

    #[inline(never)]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let p = core::hint::black_box(p);
        let h = p.sub(RZ) as *mut Head;
        let m = core::ptr::read_unaligned(core::ptr::addr_of!((*h).magic));
        if m == FREED {
            return err(1, l.size() as u64, l.align() as u64);
        }
        if m != MAGIC {
            return err(2, l.size() as u64, l.align() as u64);
        }
        let hd = core::ptr::read(h);
        let al = (hd.align_epoch >> 32) as usize;
        let ep = hd.align_epoch as u32;
        if hd.size != l.size() || al != l.align() {
            err(3, (hd.size as u64) << 32 | al as u64, (l.size() as u64) << 32 | l.align() as u64);
        }
        if let Some(i) = first_other(p.add(hd.size), RZ, TAIL) {
            err(4, hd.size as u64, i as u64);
        }
        if ep != 0 && ep == LAST.load(Relaxed) {
            event(false, p as usize, hd.size);
            LIVE.fetch_sub(1, Relaxed);
            LIVE_BYTES.fetch_sub(hd.size as i64, Relaxed);
            core::ptr::write_bytes(p, POISON, hd.size);
            (*h).magic = FREED;
            if hd.size <= 1 << 20 && QUAR_BYTES.load(Relaxed) < 32 << 20 {
                QUAR_BYTES.fetch_add(hd.size, Relaxed);
                (*h).next = QUAR.load(Relaxed) as *mut Head;
                QUAR.store(h as usize, Relaxed);
                return;
            }
        }
        release(p, hd.size, al);
    }
}

/// Offset of the first byte that is not `v`.
unsafe fn first_other(p: *const u8, n: usize, v: u8) -> Option<usize> {
    let w = u64::from_ne_bytes([v; 8]);
    let mut i = 0;
    while i + 8 <= n {
        if (p.add(i) as *const u64).read_unaligned() != w {
            break;
        }
        i += 8;
    }
    while i < n {
        if p.add(i).read() != v {
            return Some(i);
        }
        i += 1;
    }
    None
}

unsafe fn release(p: *mut u8, size: usize, al: usize) {
    let lead = al.max(RZ);
    (*(p.sub(RZ) as *mut Head)).magic = FREED;
    System.dealloc(p.sub(lead), Layout::from_size_align_unchecked(lead + size + RZ, lead));
}

/// Starts a tracked case.
pub fn begin() {
    let e = LAST.load(Relaxed).wrapping_add(1).max(1);
    LAST.store(e, Relaxed);
    LIVE.store(0, Relaxed);
    LIVE_BYTES.store(0, Relaxed);
    CASE_ALLOCS.store(0, Relaxed);
    ERR.store(0, Relaxed);
    FAIL_AT.store(0, Relaxed);
    FAIL_HIT.store(0, Relaxed);
    EPOCH.store(e, Relaxed);
}

pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
pub fn case_allocs() -> u64 {
    CASE_ALLOCS.load(Relaxed)
}

/// Fails the n-th allocation from now (1 = the next).
pub fn fail_at(n: i64) {
    fail_run(n, 1)
}
/// Fails `run` successive allocations beginning with the n-th from now.
pub fn fail_run(n: i64, run: i64) {
    FAIL_RUN.store(run, Relaxed);
    FAIL_HIT.store(0, Relaxed);
    FAIL_AT.store(n, Relaxed);
}
/// Allocations succeed again (called once a refusal has been acted on).
pub fn fail_stop() {
    FAIL_AT.store(0, Relaxed);
}
pub fn fail_hit() -> bool {
    FAIL_AT.store(0, Relaxed);
    FAIL_HIT.swap(0, Relaxed) != 0
}

// (out of line: callers may be instrumented)
#[inline(never)]
pub fn swap_epoch(e: u32) -> u32 {
    EPOCH.swap(e, Relaxed)
}
#[inline(never)]
#[allow(dead_code)]
pub fn last_epoch() -> u32 {
    LAST.load(Relaxed)
}

/// Runs `f` with its allocations left out of the ledger.
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    let e = swap_epoch(0);
    let r = f();
    swap_epoch(e);
    r
}

/// Runs `f` with its allocations in the ledger, inside of `untracked`.
#[allow(dead_code)]
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    let e = swap_epoch(last_epoch());
    let r = f();
    swap_epoch(e);
    r
}

pub fn pending_error() -> Option<String> {
    let c = ERR.load(Relaxed);
    let (a, b) = (ERR_A.load(Relaxed), ERR_B.load(Relaxed));
    untracked(|| match c {
        0 => None,
        1 => Some(format!("double free of a block (size {a}, align {b})")),
        2 => Some(format!("free of a pointer that is not a live block (size {a}, align {b})")),
        3 => Some(format!("block allocated with size {} align {} but released with size {} align {}", a >> 32, a as u32, b >> 32, b as u32)),
        4 => Some(format!("write past the end of a block of size {a} (at +{b})")),
        5 => Some(format!("write after free in a block of size {a} (at +{b})")),
        6 => Some(format!("zero-sized allocation requested (align {b})")),
        _ => Some(format!("ledger error {c}")),
    })
}

/// Ends a case: releases the quarantine and reports corruption or (when `leaks`) live blocks.
pub fn end(leaks: bool) -> Option<String> {
    EPOCH.store(0, Relaxed);
    let mut h = QUAR.swap(0, Relaxed) as *mut Head;
    QUAR_BYTES.store(0, Relaxed);
    unsafe {
        while !h.is_null() {
            let hd = core::ptr::read(h);
            let p = (h as *mut u8).add(RZ);
            if let Some(i) = first_other(p, hd.size, POISON) {
                err(5, hd.size as u64, i as u64);
            }
            release(p, hd.size, (hd.align_epoch >> 32) as usize);
            h = hd.next;
        }
    }
    let e = pending_error();
    ERR.store(0, Relaxed);
    if e.is_some() {
        return e;
    }
    let l = LIVE.load(Relaxed);
    if leaks && l != 0 {
        return Some(format!("{l} heap block(s), {} bytes still allocated after every handle is gone", LIVE_BYTES.load(Relaxed)));
    }
    None
}
