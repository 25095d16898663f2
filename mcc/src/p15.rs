//! C15: one interner used by several threads, in every interleaving.
use crate::check;
use crate::explore::*;
use crate::sched;
use bytedata::interning::{ByteInterning, StaticInterning};
use bytedata::{ByteData, SharedBytes, StringData};
use core::sync::atomic::{AtomicU32, Ordering};
use std::cell::RefCell;
use std::rc::Rc;

const CONTENTS: [&str; 2] = ["abcdefghijklmnopqr", "abcdefghijklmnopqs"];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    /// borrowed from memory that is gone afterwards
    Int(usize),
    /// text in shared storage of the thread's own
    IntText(usize),
    Always(usize),
    Get(usize),
    GetText(usize),
    Clear,
    /// go on with a clone of the interner
    Fork,
    /// drop the last clone made
    Unfork,
    /// a message to (and from) the other threads
    Sync,
}
use Op::*;
const OPS: &[Op] = &[Int(0), IntText(0), Always(0), Get(0), GetText(0), Int(1), Get(1), Clear, Fork, Unfork, Sync];

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    Put(usize),
    Found(usize),
    Missing,
    Clear,
}
/// A finished request, for the comparison with a sequential history.
struct Rec {
    /// content; requests for different contents do not influence each other (`Clear` concerns all)
    content: usize,
    what: What,
    /// records finished before this one began
    after: Vec<usize>,
    end: (usize, u32),
}

struct Log {
    recs: Vec<Rec>,
}
type L = Rc<RefCell<Log>>;

fn begun(l: &L) -> Vec<usize> {
    crate::alloc::untracked(|| {
        let l = l.borrow();
        (0..l.recs.len()).filter(|&i| sched::ordered(l.recs[i].end)).collect()
    })
}
fn ended(l: &L, content: usize, what: What, after: &Vec<usize>) {
    let end = sched::now();
    crate::alloc::untracked(|| l.borrow_mut().recs.push(Rec { content, what, after: after.clone(), end }));
}

/// Is there an order of the records, respecting which came after which, that one thread could
/// have seen?
fn explain(recs: &[&Rec], ids: &[usize], done: u32, store: Option<usize>) -> bool {
    if done == (1 << recs.len()) - 1 {
        return true;
    }
    for i in 0..recs.len() {
        if done & 1 << i != 0 || recs[i].after.iter().any(|a| ids.iter().position(|x| x == a).is_some_and(|p| done & 1 << p == 0)) {
            continue;
        }
        let next = match (recs[i].what, store) {
            (What::Put(a), None) => Some(a),
            (What::Put(a), Some(b)) if a == b => store,
            (What::Found(a), Some(b)) if a == b => store,
            (What::Missing, None) => None,
            (What::Clear, _) => None,
            _ => continue,
        };
        if explain(recs, ids, done | 1 << i, next) {
            return true;
        }
    }
    false
}

struct Me {
    held: Vec<(ByteData<'static>, usize)>,
    forks: Vec<StaticInterning>,
}

fn got(h: ByteData<'static>, i: usize, me: &mut Me, what: &str) -> usize {
    sched::read(h.as_slice());
    check!(h.as_slice() == CONTENTS[i].as_bytes(), "content", "{what} of {:?} gives {:?}", CONTENTS[i], h.as_slice());
    let a = h.as_slice().as_ptr() as usize;
    crate::alloc::untracked(|| me.held.push((h, i)));
    a
}

fn step(op: Op, me: &mut Me, base: &StaticInterning, l: &L, bell: &AtomicU32) {
    let forked;
    let it: &StaticInterning = match me.forks.last() {
        Some(f) => {
            forked = f as *const StaticInterning;
            unsafe { &*forked }
        }
        None => base,
    };
    let after = begun(l);
    match op {
        Int(i) => {
            let tmp = CONTENTS[i].as_bytes().to_vec();
            let r = it.intern(ByteData::from_borrowed(unsafe { core::slice::from_raw_parts(tmp.as_ptr(), tmp.len()) }));
            drop(tmp);
            match r {
                Ok(h) => {
                    let a = got(h, i, me, "intern");
                    ended(l, i, What::Put(a), &after);
                }
                Err(_) => fail("refused", "intern refuses content within the limit".into()),
            }
        }
        IntText(i) => {
            let v = StringData::try_from(ByteData::from_shared(SharedBytes::from_slice(CONTENTS[i].as_bytes()))).ok().unwrap();
            match it.intern_str(v) {
                Ok(h) => {
                    let a = got(h.into_bytedata(), i, me, "intern_str");
                    ended(l, i, What::Put(a), &after);
                }
                Err(_) => fail("refused", "intern_str refuses content within the limit".into()),
            }
        }
        Always(i) => {
            let h = it.intern_always(ByteData::from_static(CONTENTS[i].as_bytes()));
            let a = got(h, i, me, "intern_always");
            ended(l, i, What::Put(a), &after);
        }
        Get(i) => {
            let r = it.get(ByteData::from_static(CONTENTS[i].as_bytes()));
            match r {
                Ok(h) => {
                    let a = got(h, i, me, "get");
                    ended(l, i, What::Found(a), &after);
                }
                Err(v) => {
                    check!(v.as_slice() == CONTENTS[i].as_bytes(), "given back", "get gives back {:?}", v.as_slice());
                    ended(l, i, What::Missing, &after);
                }
            }
        }
        GetText(i) => match it.get_str(StringData::from_static(CONTENTS[i])) {
            Ok(h) => {
                let a = got(h.into_bytedata(), i, me, "get_str");
                ended(l, i, What::Found(a), &after);
            }
            Err(v) => {
                check!(v.as_str() == CONTENTS[i], "given back", "get_str gives back {:?}", v.as_str());
                ended(l, i, What::Missing, &after);
            }
        },
        Clear => {
            it.clear();
            ended(l, usize::MAX, What::Clear, &after);
        }
        Fork => {
            let f = it.clone();
            crate::alloc::untracked(|| me.forks.push(f));
        }
        Unfork => {
            let f = me.forks.pop();
            drop(f);
        }
        Sync => {
            bell.fetch_add(1, Ordering::AcqRel);
        }
    }
    for (h, i) in &me.held {
        sched::read(h.as_slice());
        check!(h.as_slice() == CONTENTS[*i].as_bytes(), "handle changed", "a handle reads {:?}", h.as_slice());
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    /// not initialised; used by reference
    Lazy,
    /// initialised; used by reference
    Ready,
    /// every thread has a clone of its own, and drops it when done
    Clones,
}

fn programs(c: &mut Ctx, lens: &[(usize, usize)], ops: &[Op], kinds: &[Kind]) {
    let kind = c.pick(kinds);
    let mut progs: Vec<Vec<Op>> = Vec::new();
    for (lo, hi) in lens {
        let n = lo + c.choose(hi + 1 - lo);
        let mut p = Vec::new();
        let mut forks = 0;
        for _ in 0..n {
            let o = c.pick(ops);
            match o {
                Fork => forks += 1,
                Unfork => {
                    if forks == 0 {
                        c.skip();
                    }
                    forks -= 1;
                }
                _ => {}
            }
            p.push(o);
        }
        progs.push(p);
    }
    let key = |p: &Vec<Op>| -> Vec<usize> { p.iter().map(|o| OPS.iter().position(|x| x == o).unwrap()).collect() };
    if lens.windows(2).all(|w| w[0] == w[1]) && progs.windows(2).any(|w| key(&w[0]) > key(&w[1])) {
        c.skip();
    }
    // lone messages say nothing
    if progs.iter().filter(|p| p.contains(&Sync)).count() == 1 {
        c.skip();
    }
    let pid = hash_bytes(kind as u64, format!("{progs:?}").as_bytes());
    c.note(|| format!("{kind:?}, programs {progs:?}"));
    sched::begin(c);
    let l: L = crate::alloc::untracked(|| Rc::new(RefCell::new(Log { recs: Vec::with_capacity(32) })));
    let bell = crate::alloc::untracked(|| Rc::new(AtomicU32::new(0)));
    let base: Rc<StaticInterning> = {
        let i = match kind {
            Kind::Lazy => StaticInterning::new_const(20),
            _ => StaticInterning::new(20),
        };
        crate::alloc::untracked(|| Rc::new(i))
    };
    let mut own: Vec<Option<StaticInterning>> = Vec::new();
    for _ in 0..progs.len() {
        own.push(if kind == Kind::Clones { Some((*base).clone()) } else { None });
    }
    let hands: Rc<RefCell<Vec<(ByteData<'static>, usize)>>> = crate::alloc::untracked(|| Rc::new(RefCell::new(Vec::with_capacity(32))));
    let clears = progs.iter().flatten().any(|o| *o == Clear);
    let bodies: Vec<Box<dyn FnOnce()>> = crate::alloc::untracked(|| {
        progs
            .into_iter()
            .zip(own.iter_mut())
            .map(|(p, o)| {
                let (l, base, bell, hands) = (l.clone(), base.clone(), bell.clone(), hands.clone());
                let mine = o.take();
                Box::new(move || {
                    let mut me = crate::alloc::untracked(|| Me { held: Vec::with_capacity(16), forks: Vec::with_capacity(8) });
                    for op in &p {
                        sched::note(|| format!("  {op:?}"));
                        step(*op, &mut me, mine.as_ref().unwrap_or(&base), &l, &bell);
                    }
                    while let Some(f) = me.forks.pop() {
                        drop(f);
                    }
                    drop(mine);
                    crate::alloc::untracked(move || {
                        hands.borrow_mut().append(&mut me.held);
                        drop((me, p, l, base, bell, hands))
                    });
                }) as Box<dyn FnOnce()>
            })
            .collect()
    });
    drop(own);
    sched::run(c, bodies);
    // afterwards: what is remembered agrees with some order of the requests
    {
        let mut me = crate::alloc::untracked(|| Me { held: Vec::with_capacity(16), forks: Vec::new() });
        for i in 0..CONTENTS.len() {
            step(Get(i), &mut me, &base, &l, &bell);
        }
        crate::alloc::untracked(|| {
            let l = l.borrow();
            for i in 0..CONTENTS.len() {
                let ids: Vec<usize> = (0..l.recs.len()).filter(|&x| l.recs[x].content == i || l.recs[x].what == What::Clear).collect();
                let recs: Vec<&Rec> = ids.iter().map(|&x| &l.recs[x]).collect();
                if !explain(&recs, &ids, 0, None) {
                    let list: Vec<String> = recs
                        .iter()
                        .map(|r| match r.what {
                            What::Put(a) => format!("t{} interned@{}", r.end.0, a % 9973),
                            What::Found(a) => format!("t{} found@{}", r.end.0, a % 9973),
                            What::Missing => format!("t{} missing", r.end.0),
                            What::Clear => format!("t{} clear", r.end.0),
                        })
                        .collect();
                    let key = if clears { "not explicable" } else { "not canonical" };
                    fail(key, format!("no order of the requests for {:?} explains the handles: {}", CONTENTS[i], list.join(", ")));
                }
            }
        });
        drop(me.held);
    }
    let base = Rc::try_unwrap(base).ok().unwrap();
    drop(base);
    for (h, i) in hands.borrow().iter() {
        check!(h.as_slice() == CONTENTS[*i].as_bytes(), "handle changed", "after the interner is gone a handle reads {:?}", h.as_slice());
    }
    let hs = std::mem::take(&mut *hands.borrow_mut());
    drop(hs);
    sched::end();
    crate::alloc::untracked(move || drop((l, bell, hands)));
    c.step(pid);
}

const KINDS: &[Kind] = &[Kind::Lazy, Kind::Ready, Kind::Clones];

fn pairs(c: &mut Ctx) {
    programs(c, &[(0, 2), (0, 2)], OPS, KINDS);
}
/// Three requests each, of the kinds that matter most.
fn deep_pairs(c: &mut Ctx) {
    let ops: &[Op] = if c.thorough { &[Int(0), IntText(0), Get(0), Clear, Fork, Unfork] } else { &[Int(0), Get(0), Clear] };
    programs(c, &[(3, 3), (2, 3)], ops, KINDS);
}
/// A longer history against one request.
fn long_short(c: &mut Ctx) {
    let n = c.q(3, 4);
    programs(c, &[(1, 1), (n, n)], OPS, KINDS);
}
fn triples(c: &mut Ctx) {
    let n = c.q(1, 2);
    programs(c, &[(1, n), (1, 1), (1, 1)], OPS, KINDS);
}

pub const SUITES: &[Suite] = &[
    Suite { prop: "C15", name: "pairs", body: pairs, leaks: true },
    Suite { prop: "C15", name: "deep_pairs", body: deep_pairs, leaks: true },
    Suite { prop: "C15", name: "long_short", body: long_short, leaks: true },
    Suite { prop: "C15", name: "triples", body: triples, leaks: true },
];
