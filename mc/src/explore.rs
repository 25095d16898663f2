//! Stateless exhaustive exploration: a body draws every decision from `Ctx::choose`; the explorer
//! re-runs it for every possible choice vector (depth-first, odometer order).
use crate::alloc;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Skip;
pub struct Violation {
    pub key: String,
    pub msg: String,
}

#[derive(Default, Clone, Copy)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}
type Set = HashSet<u64, BuildHasherDefault<Ident>>;

pub fn mix(mut h: u64, v: u64) -> u64 {
    h ^= v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    h = (h ^ (h >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    h ^ (h >> 32)
}
pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    h = mix(h, b.len() as u64 + 1);
    for c in b.chunks(8) {
        let mut w = [0; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(w));
    }
    h
}

const MAXD: usize = 4096;

/// Shared with the supervising process: survives a crash of this one.
pub struct Progress(*mut u64);
impl Progress {
    pub fn open(path: &str) -> Self {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("progress file");
        f.set_len(16384).expect("progress file");
        let p = unsafe { libc::mmap(core::ptr::null_mut(), 16384, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED);
        Progress(p as *mut u64)
    }
    pub fn none() -> Self {
        let v: &'static mut [u64] = Box::leak(vec![0u64; 2048].into_boxed_slice());
        Progress(v.as_mut_ptr())
    }
    fn beat(&self) {
        unsafe { self.0.write_volatile(self.0.read_volatile().wrapping_add(1)) }
    }
    fn len(&self, n: usize) {
        unsafe { self.0.add(1).write_volatile(n as u64) }
    }
    fn set(&self, i: usize, v: u16) {
        unsafe { (self.0.add(2) as *mut u16).add(i).write_volatile(v) }
    }
}

pub struct Ctx {
    path: Vec<(u32, u32)>,
    pos: usize,
    shard: u64,
    nshards: u64,
    product: u64,
    shard_hash: u64,
    sharded: bool,
    pub logging: bool,
    pub log: Vec<String>,
    pub thorough: bool,
    pub transitions: u64,
    states: Set,
    prog: Progress,
    replaying: bool,
    pub tag: u64,
}

impl Ctx {
    /// Draws a value in `0..n`.
    pub fn choose(&mut self, n: usize) -> usize {
        if n == 0 {
            resume_unwind(Box::new(Skip));
        }
        let i = self.pos;
        if i >= MAXD {
            fail("engine", "execution draws more than the supported number of choices".into());
        }
        if i == self.path.len() {
            if self.replaying {
                // past the recorded prefix: first alternative
            }
            self.path.push((0, n as u32));
        } else {
            assert!(self.path[i].1 == n as u32 || self.path[i].1 == u32::MAX, "engine: nondeterministic body: choice {i} had {} alternatives, now {n}", self.path[i].1);
            self.path[i].1 = n as u32;
        }
        let v = self.path[i].0;
        assert!((v as usize) < n, "engine: replayed choice {v} out of {n}");
        self.prog.set(i, v as u16);
        self.prog.len(i + 1);
        self.pos += 1;
        if !self.sharded {
            self.shard_hash = mix(self.shard_hash, v as u64 + 1);
            self.product = self.product.saturating_mul(n as u64);
            if self.product >= 64 * self.nshards {
                self.sharded = true;
                if !self.replaying && self.shard_hash % self.nshards != self.shard {
                    resume_unwind(Box::new(Skip));
                }
            }
        }
        v as usize
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.choose(xs.len());
        xs[i].clone()
    }
    /// Abandons the current execution (redundant or out of the alphabet).
    pub fn skip(&mut self) -> ! {
        resume_unwind(Box::new(Skip))
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.logging {
            alloc::untracked(|| {
                let s = f();
                self.log.push(s);
            })
        }
    }
    /// Counts one operation on the implementation and records the state it led to.
    pub fn step(&mut self, h: u64) {
        self.transitions += 1;
        let h = mix(self.tag, h);
        alloc::untracked(|| {
            if self.states.len() < 4_000_000 {
                self.states.insert(h);
            }
        });
    }
    /// Counts `n` further operations done in one execution.
    pub fn bulk(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    /// Whether this execution belongs to the running shard although few choices were drawn.
    fn owns_leaf(&self) -> bool {
        self.sharded || self.replaying || self.shard_hash % self.nshards == self.shard
    }
}

pub fn fail(key: &str, msg: String) -> ! {
    alloc::untracked(|| {
        let v = Box::new(Violation { key: key.to_string(), msg });
        resume_unwind(v)
    })
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $key:expr, $($arg:tt)*) => {
        if !($cond) {
            $crate::explore::fail($key, $crate::alloc::untracked(|| format!($($arg)*)))
        }
    };
}

/// Runs a call that may panic; `None` means it did.
pub fn attempt<R>(f: impl FnOnce() -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(p) => {
            if p.is::<Skip>() || p.is::<Violation>() {
                resume_unwind(p);
            }
            drop(p);
            None
        }
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<(String, String)> = const { std::cell::RefCell::new((String::new(), String::new())) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        alloc::untracked(|| {
            let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if m.starts_with("engine:") {
                eprintln!("{m} at {l}");
            }
            LAST_PANIC.with(|p| *p.borrow_mut() = (m, l));
        })
    }));
}

#[derive(Clone, Copy)]
pub struct Suite {
    pub prop: &'static str,
    pub name: &'static str,
    pub body: fn(&mut Ctx),
    /// value leaks are not judged (state kept alive on purpose)
    pub leaks: bool,
}

#[derive(Default)]
pub struct Outcome {
    pub execs: u64,
    pub transitions: u64,
    pub states: Vec<u64>,
    pub exhaustive: bool,
    pub max_depth: usize,
    pub engine_error: Option<String>,
    pub violations: Vec<(String, String, Vec<u32>, Vec<String>)>,
    pub samples: Vec<String>,
}

enum Res {
    Ok,
    Skip,
    Bad(String, String),
    Engine(String),
}

fn run_once(s: &Suite, c: &mut Ctx) -> Res {
    c.pos = 0;
    c.product = 1;
    c.shard_hash = 0x1234;
    c.sharded = c.nshards == 1;
    c.tag = 0;
    c.prog.len(0);
    c.prog.beat();
    crate::reps::reset_owners();
    alloc::begin();
    let r = catch_unwind(AssertUnwindSafe(|| (s.body)(c)));
    let res = match r {
        Ok(()) => Res::Ok,
        Err(p) => {
            if p.is::<Skip>() {
                Res::Skip
            } else if p.is::<Violation>() {
                let v = p.downcast::<Violation>().unwrap();
                alloc::untracked(|| Res::Bad(v.key.clone(), v.msg.clone()))
            } else {
                drop(p);
                alloc::untracked(|| {
                    let (m, l) = LAST_PANIC.with(|x| x.borrow().clone());
                    if m.starts_with("engine:") {
                        Res::Engine(m)
                    } else {
                        let short: String = m.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(80).collect();
                        Res::Bad(format!("panic: {short}"), format!("unexpected panic '{m}' at {l}"))
                    }
                })
            }
        }
    };
    let e = alloc::end(matches!(res, Res::Ok) && s.leaks);
    match (res, e) {
        (Res::Ok, Some(m)) => {
            let k: String = m.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
            Res::Bad(format!("memory: {k}"), m)
        }
        (Res::Ok, None) => {
            if let Some(m) = crate::reps::owners_error(s.leaks) {
                Res::Bad("owner".into(), m)
            } else {
                Res::Ok
            }
        }
        (r, _) => r,
    }
}

fn new_ctx(shard: u64, nshards: u64, thorough: bool, prog: Progress) -> Ctx {
    let mut path = Vec::new();
    path.reserve(MAXD + 8);
    Ctx {
        path,
        pos: 0,
        shard,
        nshards,
        product: 1,
        shard_hash: 0,
        sharded: nshards == 1,
        logging: false,
        log: Vec::new(),
        thorough,
        transitions: 0,
        states: Set::default(),
        prog,
        replaying: false,
        tag: 0,
    }
}

const AFTER_BAD: Duration = Duration::from_secs(45);

pub fn explore(s: &Suite, shard: u64, nshards: u64, thorough: bool, cap: Duration, prog: Progress) -> Outcome {
    let t0 = Instant::now();
    let mut c = new_ctx(shard, nshards, thorough, prog);
    let mut out = Outcome { exhaustive: true, ..Default::default() };
    let mut keys: BTreeMap<String, u32> = BTreeMap::new();
    let mut n = 0u64;
    let mut first_bad: Option<Instant> = None;
    loop {
        let res = run_once(s, &mut c);
        n += 1;
        match res {
            Res::Ok => {
                if c.owns_leaf() {
                    out.execs += 1;
                    if out.samples.len() < 3 && (out.execs == 1 || out.execs.is_power_of_two() && out.execs > 500) {
                        let p: Vec<u32> = c.path[..c.pos].iter().map(|x| x.0).collect();
                        out.samples.push(format!("{}{:?}", s.name, p));
                    }
                }
                out.max_depth = out.max_depth.max(c.pos);
            }
            Res::Skip => {}
            Res::Engine(m) => {
                out.engine_error = Some(m);
                out.exhaustive = false;
                break;
            }
            Res::Bad(k, m) => {
                out.execs += 1;
                first_bad.get_or_insert_with(Instant::now);
                let cnt = keys.entry(k.clone()).or_insert(0);
                *cnt += 1;
                if *cnt == 1 && out.violations.len() < 200 {
                    let choices: Vec<u32> = c.path[..c.pos].iter().map(|x| x.0).collect();
                    // once more with the trace written down; must fail the same way
                    let saved = c.path.clone();
                    let tr = c.transitions;
                    c.logging = true;
                    c.log.clear();
                    let again = run_once(s, &mut c);
                    c.logging = false;
                    c.transitions = tr;
                    let log = std::mem::take(&mut c.log);
                    c.path.clear();
                    c.path.extend_from_slice(&saved);
                    c.pos = choices.len();
                    match again {
                        Res::Bad(k2, _) if k2 == k => out.violations.push((k, m, choices, log)),
                        Res::Bad(k2, m2) => out.violations.push((k.clone(), format!("{m} [on replay: {k2}: {m2}]"), choices, log)),
                        _ => out.violations.push((k, format!("{m} [not reproduced on immediate replay]"), choices, log)),
                    }
                }
            }
        }
        // next choice vector
        c.path.truncate(c.pos);
        while let Some(&(v, n)) = c.path.last() {
            if v + 1 < n {
                let l = c.path.len() - 1;
                c.path[l].0 += 1;
                break;
            }
            c.path.pop();
        }
        if c.path.is_empty() {
            break;
        }
        // (enough counterexamples: what is left unexplored cannot change the verdict)
        if n % 256 == 0 && (t0.elapsed() > cap || first_bad.is_some_and(|t| t.elapsed() > AFTER_BAD)) {
            out.exhaustive = false;
            break;
        }
    }
    out.transitions = c.transitions;
    out.states = c.states.into_iter().collect();
    out
}

/// Replays one choice vector (twice) and prints what happens.
pub fn replay(s: &Suite, choices: &[u32], thorough: bool) -> bool {
    let mut got = Vec::new();
    for round in 0..2 {
        let mut c = new_ctx(0, 1, thorough, Progress::none());
        c.replaying = true;
        c.logging = true;
        for v in choices {
            c.path.push((*v, u32::MAX));
        }
        let r = run_once(s, &mut c);
        if round == 0 {
            for l in &c.log {
                println!("  {l}");
            }
        }
        got.push(match r {
            Res::Ok => "ok".to_string(),
            Res::Skip => "skipped".to_string(),
            Res::Engine(m) => m,
            Res::Bad(k, m) => format!("{k}: {m}"),
        });
    }
    println!("result: {}", got[0]);
    if got[0] != got[1] {
        println!("second run differs: {}", got[1]);
    }
    got[0] != "ok"
}
