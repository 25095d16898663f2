//! Controlled scheduler for the real code: the threads of a case are coroutines on one operating
//! system thread; every atomic operation (seen through the compiler's thread-sanitizer
//! instrumentation, whatever the source calls it) and every shard lock is a scheduling point, and
//! the explorer enumerates all orders (up to commuting independent operations, by sleep sets) and,
//! for loads, every older value the memory model still allows. Vector clocks follow the orderings
//! the code asks for; every instrumented plain access to the case's heap is checked against them.
use crate::alloc::untracked;
use crate::explore::*;
use core::sync::atomic::Ordering;
use std::any::Any;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const N: usize = 4; // up to 3 threads; the last entry is the main thread
pub const MAIN: usize = N - 1;
pub type Vc = [u32; N];

fn join(a: &mut Vc, b: &Vc) {
    for i in 0..N {
        a[i] = a[i].max(b[i]);
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Load,
    Store,
    Rmw,
    Fence,
    LockShared,
    LockExclusive,
    UnlockShared,
    UnlockExclusive,
    TryShared,
    TryExclusive,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Start,
    Op(Op),
    /// asks which of n values a load sees
    Ask(usize),
    /// ran into a violation
    Bad,
    Spin,
    Done,
}
#[derive(Clone, Copy, Debug)]
struct Pend {
    addr: usize,
    kind: Kind,
    ord: Ordering,
}

struct Co {
    sp: usize,
    pend: Pend,
    clock: Vc,
    acq: Vc,
    relf: Vc,
    spun: u64,
    /// the location read last, the number of writes then, and how often in a row
    again: (usize, u64, u32),
    payload: Option<Box<dyn Any + Send>>,
    body: Option<Box<dyn FnOnce()>>,
}

struct Store {
    val: u64,
    who: usize,
    time: u32,
    rel: Vc,
}
struct Loc {
    addr: usize,
    hist: Vec<Store>,
    seen: [usize; N],
    readers: i32,
    writer: bool,
    rel_w: Vc,
    rel_all: Vc,
}
/// When each thread last touched a byte, by kind of access.
#[derive(Clone, Copy, Default)]
struct Cell {
    r: Vc,
    w: Vc,
    ar: Vc,
    aw: Vc,
}
struct Block {
    a: usize,
    b: usize,
    who: usize,
    time: u32,
    freed: bool,
    cells: Vec<Cell>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Acc {
    Read,
    Write,
    AtomicRead,
    AtomicWrite,
}

pub struct Sched {
    ctx: *mut Ctx,
    cos: Vec<Co>,
    cur: usize,
    main_sp: usize,
    locs: Vec<Loc>,
    blocks: Vec<Block>,
    sleep: Vec<usize>,
    drain: bool,
    writes: u64,
    steps: usize,
    bad: Option<(String, String)>,
    /// frees are not judged (a synchronisation the explorer does not see guards them)
    trusted: [bool; N],
    on: bool,
    main_clock: Vc,
    answer: usize,
    stack_lo: usize,
}

static mut S: *mut Sched = core::ptr::null_mut();
fn s() -> &'static mut Sched {
    unsafe { &mut *S }
}

const STACK: usize = 512 * 1024;
static mut STACKS: Vec<usize> = Vec::new();

fn stack() -> usize {
    #[allow(static_mut_refs)]
    unsafe {
        if let Some(p) = STACKS.pop() {
            return p;
        }
        let p = libc::mmap(core::ptr::null_mut(), STACK, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED, "engine: no memory for a stack");
        libc::mprotect(p, 4096, libc::PROT_NONE);
        p as usize
    }
}

core::arch::global_asm!(
    ".global mcc_switch",
    "mcc_switch:",
    "push rbx",
    "push rbp",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbp",
    "pop rbx",
    "ret",
);
extern "C" {
    fn mcc_switch(save: *mut usize, to: usize);
}

extern "C" fn entry() -> ! {
    let c = s().cur;
    let f = s().cos[c].body.take().unwrap();
    let r = catch_unwind(AssertUnwindSafe(f));
    let me = &mut s().cos[c];
    me.payload = r.err();
    me.pend = Pend { addr: 0, kind: Kind::Done, ord: Ordering::Relaxed };
    let mut dummy = 0usize;
    unsafe { mcc_switch(&mut dummy, s().main_sp) };
    unreachable!()
}

fn resume(i: usize) {
    s().cur = i;
    let to = s().cos[i].sp;
    let save: *mut usize = &mut s().main_sp;
    unsafe { mcc_switch(save, to) };
    s().cur = MAIN;
}

fn pause(p: Pend) {
    let c = s().cur;
    s().cos[c].pend = p;
    let to = s().main_sp;
    let save: *mut usize = &mut s().cos[c].sp;
    // the ledger's mode belongs to the thread
    let e = crate::alloc::swap_epoch(0);
    unsafe { mcc_switch(save, to) };
    crate::alloc::swap_epoch(e);
}

/// The explorer's threads are running (calls come from one of them).
fn inside() -> bool {
    unsafe { !S.is_null() && s().on && s().cur != MAIN }
}

fn clock() -> &'static mut Vc {
    let c = s().cur;
    if c == MAIN {
        &mut s().main_clock
    } else {
        &mut s().cos[c].clock
    }
}

fn tick() -> (usize, u32) {
    let c = s().cur;
    let k = clock();
    k[c] += 1;
    (c, k[c])
}

fn flag(key: &str, msg: String) {
    if s().drain || s().bad.is_some() || std::thread::panicking() {
        return;
    }
    s().bad = Some((key.to_string(), msg));
    if inside() {
        // not resumed
        pause(Pend { addr: 0, kind: Kind::Bad, ord: Ordering::Relaxed });
    }
}

fn heap_live(addr: usize) -> Option<usize> {
    s().blocks.iter().rposition(|b| b.a <= addr && addr < b.b)
}

/// A thread of the case touches memory.
#[inline(never)]
pub fn access(addr: usize, size: usize, kind: Acc) {
    if !inside() || s().drain || private(addr) || std::thread::panicking() {
        return;
    }
    let Some(i) = heap_live(addr) else { return };
    untracked(|| touch(i, addr, size, kind))
}

fn touch(i: usize, addr: usize, size: usize, kind: Acc) {
    let c = s().cur;
    let k = s().cos[c].clock;
    let t = k[c];
    let what = match kind {
        Acc::Read => "reads",
        Acc::Write => "writes",
        Acc::AtomicRead => "atomically reads",
        Acc::AtomicWrite => "atomically writes",
    };
    let b = &mut s().blocks[i];
    let n = b.b - b.a;
    let at = addr - b.a;
    if b.freed {
        let who = b.who;
        flag("use after free", format!("thread {c} {what} a released block of {n} bytes (allocated by thread {who})"));
        return;
    }
    if k[b.who] < b.time {
        let who = b.who;
        flag("unpublished", format!("thread {c} {what} a block thread {who} set up, without synchronising with it"));
        return;
    }
    if at + size > n {
        // the ledger's red zone: not part of any object
        flag("out of bounds", format!("thread {c} {what} {size} bytes at +{at} of a block of {n}"));
        return;
    }
    if b.cells.is_empty() {
        b.cells.resize(n, Cell::default());
    }
    let mut clash: Option<(usize, &str)> = None;
    for x in &mut b.cells[at..at + size] {
        for o in 0..N {
            if o == c {
                continue;
            }
            if k[o] < x.w[o] {
                clash = Some((o, "write"));
            }
            match kind {
                Acc::Read => {
                    if k[o] < x.aw[o] {
                        clash = Some((o, "atomic write"));
                    }
                }
                Acc::Write => {
                    if k[o] < x.r[o] {
                        clash = Some((o, "read"));
                    }
                    if k[o] < x.aw[o] || k[o] < x.ar[o] {
                        clash = Some((o, "atomic operation"));
                    }
                }
                Acc::AtomicRead => {}
                Acc::AtomicWrite => {
                    if k[o] < x.r[o] {
                        clash = Some((o, "read"));
                    }
                }
            }
        }
        match kind {
            Acc::Read => x.r[c] = t,
            Acc::Write => x.w[c] = t,
            Acc::AtomicRead => x.ar[c] = t,
            Acc::AtomicWrite => x.aw[c] = t,
        }
    }
    if let Some((o, w)) = clash {
        flag("race", format!("thread {c} {what} bytes +{at}..+{} of a block of {n}, unordered with a {w} by thread {o}", at + size));
    }
}

/// A read by the harness (which is instrumented as well; this covers what the standard library
/// does on its behalf).
#[inline(never)]
pub fn read(p: &[u8]) {
    if !p.is_empty() {
        access(p.as_ptr() as usize, p.len(), Acc::Read);
    }
}
#[inline(never)]
pub fn write(p: &[u8]) {
    if !p.is_empty() {
        access(p.as_ptr() as usize, p.len(), Acc::Write);
    }
}
/// Start of the heap block `p` lies in.
#[inline(never)]
pub fn block_of(p: *const u8) -> Option<usize> {
    if unsafe { S.is_null() } {
        return None;
    }
    heap_live(p as usize).map(|i| s().blocks[i].a)
}
/// The current thread's position, to be compared by `ordered`.
#[inline(never)]
pub fn now() -> (usize, u32) {
    tick()
}
/// Whether the event happens before the current thread's present.
#[inline(never)]
pub fn ordered(e: (usize, u32)) -> bool {
    clock()[e.0] >= e.1
}
/// Frees by the current thread are (not) guarded by something the explorer does not see.
#[inline(never)]
pub fn trust(v: bool) {
    if !unsafe { S.is_null() } {
        let c = s().cur;
        s().trusted[c] = v;
    }
}
#[inline(never)]
pub fn draining() -> bool {
    unsafe { !S.is_null() && s().drain }
}

fn on_heap(alloc: bool, p: usize, size: usize) {
    untracked(|| {
        if alloc {
            let (c, t) = tick();
            let s = s();
            s.locs.retain(|l| l.addr < p || l.addr >= p + size);
            s.blocks.push(Block { a: p, b: p + size.max(1), who: c, time: t, freed: false, cells: Vec::new() });
        } else {
            let Some(i) = s().blocks.iter().rposition(|b| b.a == p) else { return };
            let c = s().cur;
            let k = *clock();
            let tr = s().trusted[c] || s().drain;
            let b = &mut s().blocks[i];
            if b.freed {
                return; // the ledger reports it
            }
            b.freed = true;
            if tr {
                return;
            }
            let n = b.b - b.a;
            if k[b.who] < b.time {
                let a = b.who;
                flag("release race", format!("thread {c} releases a block of {n} bytes unordered with its set-up by thread {a}"));
                return;
            }
            let mut clash = None;
            for x in &b.cells {
                for o in 0..N {
                    if o != c && (k[o] < x.r[o] || k[o] < x.w[o] || k[o] < x.ar[o] || k[o] < x.aw[o]) {
                        clash = Some(o);
                    }
                }
            }
            if let Some(o) = clash {
                flag("release race", format!("thread {c} releases a block of {n} bytes while a use by thread {o} is not ordered before it"));
            }
        }
    })
}

fn name(op: Kind) -> &'static str {
    match op {
        Kind::Op(Op::Load) => "load",
        Kind::Op(Op::Store) => "store",
        Kind::Op(Op::Rmw) => "read-modify-write",
        Kind::Op(Op::Fence) => "fence",
        Kind::Op(Op::LockShared) => "lock shared",
        Kind::Op(Op::LockExclusive) => "lock exclusive",
        Kind::Op(Op::UnlockShared) => "unlock shared",
        Kind::Op(Op::UnlockExclusive) => "unlock exclusive",
        Kind::Op(Op::TryShared) => "try shared",
        Kind::Op(Op::TryExclusive) => "try exclusive",
        Kind::Start => "start",
        Kind::Ask(_) | Kind::Bad => "",
        Kind::Spin => "wait",
        Kind::Done => "end",
    }
}

fn loc(addr: usize, latest: u64) -> &'static mut Loc {
    let s = s();
    let i = match s.locs.iter().position(|l| l.addr == addr) {
        Some(i) => i,
        None => {
            s.locs.push(Loc { addr, hist: Vec::new(), seen: [0; N], readers: 0, writer: false, rel_w: [0; N], rel_all: [0; N] });
            s.locs.len() - 1
        }
    };
    let l = &mut s.locs[i];
    if l.hist.last().map(|h| h.val) != Some(latest) {
        // first use, or written outside of the explorer's view (by its exclusive owner)
        l.hist.clear();
        l.seen = [0; N];
        l.hist.push(Store { val: latest, who: MAIN, time: 0, rel: [0; N] });
    }
    l
}

fn acquires(o: Ordering) -> bool {
    matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst)
}
fn releases(o: Ordering) -> bool {
    matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst)
}

fn got(rel: Vc, o: Ordering) {
    let c = s().cur;
    if c == MAIN {
        join(&mut s().main_clock, &rel);
        return;
    }
    let me = &mut s().cos[c];
    if acquires(o) {
        join(&mut me.clock, &rel);
    } else {
        join(&mut me.acq, &rel);
    }
}

/// On the running thread's own stack.
fn private(addr: usize) -> bool {
    addr.wrapping_sub(s().stack_lo) < STACK
}

/// The thread has seen no change for a while.
fn waiting(c: usize) -> bool {
    s().cos[c].again.2 >= 6
}

/// Scheduling point before an atomic operation.
fn before(addr: usize, size: usize, op: Op, ord: Ordering) {
    let c = s().cur;
    let w = s().writes;
    let a = &mut s().cos[c].again;
    *a = if a.0 == addr && a.1 == w { (addr, w, a.2 + 1) } else { (addr, w, 0) };
    if waiting(c) && a.2 % 4 == 0 {
        // looks at the same thing over and over: goes on when something has changed
        spin();
    }
    if !std::thread::panicking() {
        untracked(|| pause(Pend { addr, kind: Kind::Op(op), ord }));
    }
    s().steps += 1;
    if op != Op::Fence {
        access(addr, size, if op == Op::Load { Acc::AtomicRead } else { Acc::AtomicWrite });
    }
}

/// An atomic load: `get` reads the latest value; returns what the thread sees.
pub fn load(addr: usize, size: usize, ord: Ordering, get: impl Fn() -> u64) -> u64 {
    if !inside() || private(addr) {
        return get();
    }
    before(addr, size, Op::Load, ord);
    untracked(|| {
        let latest = get();
        let c = s().cur;
        let k = *clock();
        let heap = heap_live(addr).is_some_and(|i| !s().blocks[i].freed);
        let l = loc(addr, latest);
        let last = l.hist.len() - 1;
        let mut lo = l.seen[c];
        for (i, h) in l.hist.iter().enumerate() {
            if k[h.who] >= h.time {
                lo = lo.max(i);
            }
        }
        if ord == Ordering::SeqCst || !heap || s().drain || s().cos[c].again.2 >= 4 {
            lo = last;
        }
        let n = last - lo + 1;
        let mut d = 0;
        if n > 1 && !std::thread::panicking() {
            pause(Pend { addr, kind: Kind::Ask(n), ord });
            d = s().answer;
        }
        let l = loc(addr, latest);
        let i = last - d;
        l.seen[c] = i;
        let (v, rel) = (l.hist[i].val, l.hist[i].rel);
        got(rel, ord);
        if d > 0 {
            note(|| format!("    (sees an older value, {d} behind)"));
        }
        v
    })
}

/// A store (`rmw` false) or read-modify-write: `f` gives the new value, or `None` to leave it (a
/// failed exchange, ordered by `ford`). Returns the old value.
pub fn update(addr: usize, size: usize, rmw: bool, ord: Ordering, ford: Ordering, get: impl Fn() -> u64, put: impl Fn(u64), f: impl Fn(u64) -> Option<u64>) -> u64 {
    if !inside() || private(addr) {
        let old = get();
        if let Some(n) = f(old) {
            put(n);
        }
        return old;
    }
    before(addr, size, if rmw { Op::Rmw } else { Op::Store }, ord);
    untracked(|| {
        let old = get();
        let c = s().cur;
        let l = loc(addr, old);
        let prev = l.hist.last().unwrap().rel;
        let Some(new) = f(old) else {
            l.seen[c] = l.hist.len() - 1;
            got(prev, ford);
            return old;
        };
        put(new);
        if rmw {
            got(prev, ord);
        }
        let (who, time) = tick();
        let me = &s().cos[c];
        let mut rel = if releases(ord) { me.clock } else { me.relf };
        if rmw {
            join(&mut rel, &prev);
        }
        l.hist.push(Store { val: new, who, time, rel });
        l.seen[c] = l.hist.len() - 1;
        s().writes += 1;
        // what follows is later than what was released
        tick();
        old
    })
}

pub fn fence(ord: Ordering) {
    if !inside() {
        return;
    }
    let c = s().cur;
    let me = &mut s().cos[c];
    if acquires(ord) {
        let a = me.acq;
        join(&mut me.clock, &a);
    }
    if releases(ord) {
        me.relf = me.clock;
        tick();
    }
}

/// The thread waits for something another thread does.
pub fn spin() {
    if !inside() || std::thread::panicking() {
        return;
    }
    let c = s().cur;
    s().cos[c].spun = s().writes;
    untracked(|| pause(Pend { addr: 0, kind: Kind::Spin, ord: Ordering::Relaxed }));
}

/// What a lock keeps; not part of the memory the threads race for.
pub struct LockCell(core::cell::Cell<isize>);
impl LockCell {
    pub const fn new() -> Self {
        Self(core::cell::Cell::new(0))
    }
    #[inline(never)]
    pub fn get(&self) -> isize {
        self.0.get()
    }
    #[inline(never)]
    pub fn set(&self, v: isize) {
        self.0.set(v)
    }
}

/// A lock operation; `false`: not granted (only the `Try` forms).
pub fn lock(addr: usize, op: Op) -> bool {
    if !inside() {
        return true;
    }
    untracked(|| {
        if !std::thread::panicking() {
            pause(Pend { addr, kind: Kind::Op(op), ord: Ordering::AcqRel });
        }
        s().steps += 1;
        access(addr, 1, Acc::AtomicRead);
        let l = loc(addr, 0);
        match op {
            Op::LockShared | Op::TryShared => {
                if l.writer {
                    return false;
                }
                l.readers += 1;
                let r = l.rel_w;
                got(r, Ordering::Acquire);
            }
            Op::LockExclusive | Op::TryExclusive => {
                if l.writer || l.readers > 0 {
                    return false;
                }
                l.writer = true;
                let r = l.rel_all;
                got(r, Ordering::Acquire);
            }
            Op::UnlockShared => {
                l.readers -= 1;
                let k = *clock();
                join(&mut l.rel_all, &k);
            }
            Op::UnlockExclusive => {
                l.writer = false;
                let k = *clock();
                join(&mut l.rel_all, &k);
                join(&mut l.rel_w, &k);
            }
            _ => {}
        }
        tick();
        s().writes += 1;
        true
    })
}

fn enabled(i: usize) -> bool {
    let p = s().cos[i].pend;
    match p.kind {
        Kind::Done => false,
        Kind::Spin => s().writes > s().cos[i].spun,
        Kind::Op(Op::LockShared) => !s().locs.iter().any(|l| l.addr == p.addr && l.writer),
        Kind::Op(Op::LockExclusive) => !s().locs.iter().any(|l| l.addr == p.addr && (l.writer || l.readers > 0)),
        _ => true,
    }
}

fn independent(a: Pend, b: Pend) -> bool {
    if a.kind == Kind::Spin || b.kind == Kind::Spin {
        return false;
    }
    if a.kind == Kind::Op(Op::Fence) || b.kind == Kind::Op(Op::Fence) {
        return true;
    }
    if a.addr != b.addr {
        return true;
    }
    let shared = |k: Kind| matches!(k, Kind::Op(Op::LockShared) | Kind::Op(Op::TryShared) | Kind::Op(Op::UnlockShared));
    (a.kind == Kind::Op(Op::Load) && b.kind == Kind::Op(Op::Load)) || (shared(a.kind) && shared(b.kind))
}

pub fn note(f: impl FnOnce() -> String) {
    if unsafe { !S.is_null() } && !s().drain {
        unsafe { (*s().ctx).note(f) }
    }
}

/// Begins following the main thread's allocations and operations.
pub fn begin(c: &mut Ctx) {
    untracked(|| unsafe {
        if S.is_null() {
            S = Box::into_raw(Box::new(Sched {
                ctx: c,
                cos: Vec::new(),
                cur: MAIN,
                main_sp: 0,
                locs: Vec::new(),
                blocks: Vec::new(),
                sleep: Vec::new(),
                drain: false,
                writes: 0,
                steps: 0,
                bad: None,
                trusted: [false; N],
                on: false,
                main_clock: [0; N],
                answer: 0,
                stack_lo: 0,
            }));
        }
        let s = s();
        s.ctx = c;
        s.cos.clear();
        s.cur = MAIN;
        s.locs.clear();
        s.blocks.clear();
        s.sleep.clear();
        s.drain = false;
        s.writes = 0;
        s.steps = 0;
        s.bad = None;
        s.trusted = [false; N];
        s.on = true;
        s.main_clock = [0; N];
    });
    crate::alloc::on_event(Some(on_heap));
}

/// Runs the threads to their end in every order. Everything the main thread did before happens
/// before them, and they happen before everything it does afterwards.
pub fn run(c: &mut Ctx, bodies: Vec<Box<dyn FnOnce()>>) {
    let out = untracked(|| run_inner(c, bodies));
    if let Some(p) = out {
        s().on = false;
        crate::alloc::on_event(None);
        std::panic::resume_unwind(p);
    }
}

fn take_payload() -> Option<Box<dyn Any + Send>> {
    s().cos.iter_mut().find_map(|c| c.payload.take())
}

fn run_inner(ctx: &mut Ctx, bodies: Vec<Box<dyn FnOnce()>>) -> Option<Box<dyn Any + Send>> {
    assert!(bodies.len() < N, "engine: too many threads");
    s().main_clock[MAIN] += 1;
    let k0 = s().main_clock;
    let mut stacks = Vec::new();
    for (i, f) in bodies.into_iter().enumerate() {
        let base = stack();
        stacks.push(base);
        let top = base + STACK - 64;
        // the layout `mcc_switch` pops: six registers, then the entry point; aligned as after a call
        let sp = top - 8 * 8;
        unsafe {
            for j in 0..6 {
                ((sp + 8 * j) as *mut usize).write(0);
            }
            ((sp + 48) as *mut usize).write(entry as extern "C" fn() -> ! as usize);
            ((sp + 56) as *mut usize).write(0);
        }
        let mut clock = k0;
        clock[i] += 1;
        s().cos.push(Co { sp, pend: Pend { addr: 0, kind: Kind::Start, ord: Ordering::Relaxed }, clock, acq: [0; N], relf: [0; N], spun: 0, again: (0, 0, 0), payload: None, body: Some(f) });
    }
    let n = s().cos.len();
    // allocations of the threads belong to the case
    let lows = stacks.clone();
    let r = steps(ctx, n, &lows);
    // unfinished threads are abandoned where they are
    #[allow(static_mut_refs)]
    unsafe {
        STACKS.extend_from_slice(&stacks)
    };
    r
}

fn steps(ctx: &mut Ctx, n: usize, lows: &[usize]) -> Option<Box<dyn Any + Send>> {
    let go = |i: usize, ctx: &mut Ctx| -> bool {
        loop {
            s().stack_lo = lows[i];
            crate::alloc::tracked(|| resume(i));
            match s().cos[i].pend.kind {
                Kind::Ask(m) => {
                    let r = catch_unwind(AssertUnwindSafe(|| ctx.choose(m)));
                    match r {
                        Ok(a) => s().answer = a,
                        Err(p) => {
                            s().cos[i].payload = Some(p);
                            return false;
                        }
                    }
                }
                _ => return true,
            }
        }
    };
    for i in 0..n {
        if !go(i, ctx) {
            break;
        }
        if s().bad.is_some() {
            break;
        }
    }
    loop {
        if let Some((k, m)) = s().bad.take() {
            return Some(Box::new(Violation { key: k, msg: m }));
        }
        if let Some(p) = take_payload() {
            if s().drain {
                break;
            }
            return Some(p);
        }
        let mut en: Vec<usize> = (0..n).filter(|&i| enabled(i)).collect();
        if en.is_empty() {
            // only threads that look at something over and over; let them (up to the step limit)
            en = (0..n).filter(|&i| s().cos[i].pend.kind == Kind::Spin).collect();
        }
        if en.is_empty() {
            if s().cos.iter().all(|c| c.pend.kind == Kind::Done) {
                break;
            }
            if s().drain {
                break;
            }
            return Some(Box::new(Violation { key: "deadlock".into(), msg: "no thread can go on although not all are done".into() }));
        }
        if s().steps > 600 {
            if s().drain {
                break;
            }
            return Some(Box::new(Violation { key: "livelock".into(), msg: "more than 600 steps".into() }));
        }
        let t;
        if s().drain {
            t = en[0];
        } else {
            let cand: Vec<usize> = en.iter().copied().filter(|i| !s().sleep.contains(i)).collect();
            if cand.is_empty() {
                // every continuation is equivalent to one explored elsewhere; finish to clean up
                s().drain = true;
                continue;
            }
            let j = if cand.len() > 1 { ctx.choose(cand.len()) } else { 0 };
            t = cand[j];
            let p = s().cos[t].pend;
            let mut sl: Vec<usize> = Vec::new();
            for &x in s().sleep.iter().chain(cand[..j].iter()) {
                if independent(s().cos[x].pend, p) {
                    sl.push(x);
                }
            }
            s().sleep = sl;
            note(|| format!("thread {t}: {} {} {:?}", name(p.kind), label(p.addr), p.ord));
            ctx.bulk(1);
        }
        go(t, ctx);
    }
    if s().drain {
        return Some(Box::new(Skip));
    }
    for i in 0..n {
        let k = s().cos[i].clock;
        join(&mut s().main_clock, &k);
    }
    None
}

fn label(addr: usize) -> String {
    match heap_live(addr) {
        Some(i) => format!("block{}+{}", i, addr - s().blocks[i].a),
        None if addr == 0 => String::new(),
        None => "stack".into(),
    }
}

/// Ends the following; reports what the main thread itself ran into.
pub fn end() {
    crate::alloc::on_event(None);
    s().on = false;
    let b = s().bad.take();
    if let Some((k, m)) = b {
        fail(&k, m);
    }
}
