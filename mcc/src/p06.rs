//! C06: handles shared between threads, in every interleaving.
use crate::check;
use crate::explore::*;
use crate::reps;
use crate::sched;
use bytedata::{ByteData, SharedBytes, SharedBytesBuilder};
use std::cell::RefCell;
use std::rc::Rc;

const LEN: usize = 20;

/// One handle and what it must read.
enum H {
    Bd(ByteData<'static>),
    Sb(SharedBytes),
    By(bytes::Bytes),
}
struct Item {
    h: H,
    at: usize,
    len: usize,
    id: usize,
}

/// Every handle to the storage under test: when (and by whom) it was given up.
struct Reg {
    gone: Vec<Option<(usize, u32)>>,
    /// the heap block the handle's bytes lie in
    block: Vec<Option<usize>>,
}
type R = Rc<RefCell<Reg>>;

fn new_id(r: &R, h: &H) -> usize {
    crate::alloc::untracked(|| {
        let mut r = r.borrow_mut();
        r.gone.push(None);
        r.block.push(sched::block_of(bytes_of(h).as_ptr()));
        r.gone.len() - 1
    })
}
fn gone(r: &R, id: usize) {
    r.borrow_mut().gone[id] = Some(sched::now());
}
/// Exclusive ownership was granted to the holder of `id`.
fn exclusive(r: &R, id: usize, what: &str) {
    let r = r.borrow();
    for (i, g) in r.gone.iter().enumerate() {
        if i == id || r.block[i] != r.block[id] {
            continue;
        }
        match g {
            None => fail("exclusive with others", format!("{what} granted exclusive ownership while another handle exists")),
            Some(e) => check!(sched::ordered(*e), "exclusive unordered", "{what} granted exclusive ownership without ordering the other handles' use before it"),
        }
    }
}

fn bytes_of(h: &H) -> &[u8] {
    match h {
        H::Bd(b) => b.as_slice(),
        H::Sb(b) => b.as_slice(),
        H::By(b) => b.as_ref(),
    }
}

fn verify(s: &[u8], at: usize, len: usize, what: &str) {
    sched::read(s);
    check!(s == &reps::pattern(LEN)[at..at + len], "content", "{what}: reads {:x?}, must be bytes {at}..{} of the original", s, at + len);
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Clone,
    Read,
    Drop,
    Slice,
    Unique,
    ToVec,
    ToBuilder,
    ToBytes,
    FromBytes,
    ToMut,
    ToShared,
    FromRoot,
    SliceRoot,
    Reslice,
    ViaQueue,
}
use Op::*;
const OPS: &[Op] = &[Clone, Drop, Slice, Unique, ToVec, ToBuilder, ToBytes, FromBytes, ToMut, ToShared, Read, Reslice, ViaQueue, FromRoot, SliceRoot];

fn clone_h(h: &H) -> H {
    match h {
        H::Bd(b) => H::Bd(b.clone()),
        H::Sb(b) => H::Sb(b.clone()),
        H::By(b) => H::By(b.clone()),
    }
}
fn slice_h(h: &H) -> H {
    match h {
        H::Bd(b) => H::Bd(b.sliced(2..19)),
        H::Sb(b) => H::Sb(b.sliced(2, 17)),
        H::By(b) => H::By(b.slice(2..19)),
    }
}
fn to_bd(h: H) -> ByteData<'static> {
    match h {
        H::Bd(b) => b,
        H::Sb(b) => ByteData::from_shared(b),
        H::By(b) => ByteData::from(b),
    }
}
fn to_bytes(h: H) -> bytes::Bytes {
    match h {
        H::Bd(b) => bytes::Bytes::from(b),
        H::Sb(b) => bytes::Bytes::from(b),
        H::By(b) => b,
    }
}

/// Whether the operation means anything for this kind of handle (others would only repeat).
fn applies(op: Op, h: &H) -> bool {
    match op {
        Unique => !matches!(h, H::Bd(_)),
        ToBytes => !matches!(h, H::By(_)),
        ToMut | FromBytes => matches!(h, H::By(_)),
        ToShared => matches!(h, H::Bd(_)),
        _ => true,
    }
}

/// Where the result lives: same block as the storage before?
fn same_block(old: Option<usize>, p: *const u8) -> bool {
    old.is_some() && sched::block_of(p) == old
}

fn step(op: Op, hand: &mut Vec<Item>, r: &R, root: Option<&'static H>, foreign: bool) {
    if matches!(op, FromRoot | SliceRoot) {
        if let Some(b) = root {
            let (h, at, len) = if op == FromRoot { (clone_h(b), 0, LEN) } else { (slice_h(b), 2, 17) };
            verify(bytes_of(&h), at, len, "handle taken from the shared value");
            let id = new_id(r, &h);
            crate::alloc::untracked(|| hand.push(Item { h, at, len, id }));
        }
        return;
    }
    let Some(last) = hand.last() else { return };
    if !applies(op, &last.h) {
        return;
    }
    verify(bytes_of(&last.h), last.at, last.len, "before the operation");
    let (at, len, id) = (last.at, last.len, last.id);
    let push = |hand: &mut Vec<Item>, h: H, at: usize, len: usize| {
        let id = new_id(r, &h);
        verify(bytes_of(&h), at, len, "result");
        crate::alloc::untracked(|| hand.push(Item { h, at, len, id }));
    };
    match op {
        Read => {}
        Clone => {
            let h = clone_h(&last.h);
            push(hand, h, at, len);
        }
        Slice => {
            if len < LEN {
                return;
            }
            let h = slice_h(&last.h);
            push(hand, h, 2, 17);
        }
        Drop => {
            let i = hand.pop().unwrap();
            gone(r, id);
            drop(i.h);
        }
        Unique => {
            let u = match &last.h {
                H::Sb(b) => b.is_unique(),
                H::By(b) => b.is_unique(),
                H::Bd(_) => false,
            };
            // (the order a foreign buffer asks for when it counts its own handles is its own affair)
            if u && !foreign {
                exclusive(r, id, "is_unique");
            }
        }
        ToVec => {
            let i = hand.pop().unwrap();
            let old = sched::block_of(bytes_of(&i.h).as_ptr());
            gone(r, id);
            let mut v: Vec<u8> = match i.h {
                H::Bd(b) => Vec::from(b),
                H::Sb(b) => Vec::from(ByteData::from_shared(b)),
                H::By(b) => Vec::from(b),
            };
            verify(&v, at, len, "vector");
            if same_block(old, v.as_ptr()) {
                exclusive(r, id, "the vector");
            }
            sched::write(&v);
            v.fill(0x11);
            drop(v);
        }
        ToBuilder => {
            let i = hand.pop().unwrap();
            let old = sched::block_of(bytes_of(&i.h).as_ptr());
            gone(r, id);
            let sb: SharedBytes = match i.h {
                H::Sb(b) => b,
                o => SharedBytes::from(to_bd(o)),
            };
            let mut bd = SharedBytesBuilder::from(sb);
            verify(bd.as_slice(), at, len, "builder");
            if same_block(old, bd.as_slice().as_ptr()) {
                exclusive(r, id, "the builder");
            }
            sched::write(bd.as_slice());
            bd.as_slice_mut().fill(0x22);
            let b = bd.build();
            sched::read(b.as_slice());
            check!(b.as_slice().iter().all(|x| *x == 0x22) && b.len() == len, "content", "rebuilt value reads {:x?}", b.as_slice());
            drop(b);
        }
        ToBytes => {
            let i = hand.pop().unwrap();
            gone(r, id);
            let b = to_bytes(i.h);
            push(hand, H::By(b), at, len);
        }
        FromBytes => {
            let i = hand.pop().unwrap();
            gone(r, id);
            let b = to_bd(i.h);
            push(hand, H::Bd(b), at, len);
        }
        ToShared => {
            let i = hand.pop().unwrap();
            gone(r, id);
            let b = SharedBytes::from(to_bd(i.h));
            push(hand, H::Sb(b), at, len);
        }
        ToMut => {
            let i = hand.pop().unwrap();
            let old = sched::block_of(bytes_of(&i.h).as_ptr());
            let H::By(b) = i.h else { unreachable!() };
            gone(r, id);
            let mut m: bytes::BytesMut = match b.try_into_mut() {
                Ok(m) => {
                    exclusive(r, id, "try_into_mut");
                    m
                }
                Err(b) => b.into(),
            };
            verify(&m, at, len, "mutable buffer");
            if same_block(old, m.as_ptr()) {
                exclusive(r, id, "the mutable buffer");
            }
            sched::write(&m);
            m.fill(0x33);
            drop(m);
        }
        Reslice => {
            if len < 17 {
                return;
            }
            let l = hand.last_mut().unwrap();
            match &mut l.h {
                H::Bd(b) => b.make_sliced(1..),
                H::Sb(b) => *b = b.sliced(1, len - 1),
                H::By(b) => *b = b.slice(1..),
            }
            l.at += 1;
            l.len -= 1;
        }
        ViaQueue => {
            let i = hand.pop().unwrap();
            gone(r, id);
            let mut q = bytedata::ByteQueue::new();
            q.push_back(to_bd(i.h));
            let mut q2 = q.clone();
            let f = q2.pop_front().unwrap();
            verify(f.as_slice(), at, len, "chunk of a queue's clone");
            drop(f);
            let b = ByteData::from(q);
            drop(q2);
            push(hand, H::Bd(b), at, len);
        }
        FromRoot | SliceRoot => {}
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Root {
    Shared,
    SharedFlat,
    ExtVec,
    ExtOwner,
    BytesOfShared,
    Foreign,
}
use Root::*;

fn make(k: Root) -> H {
    let p = reps::pattern(LEN);
    match k {
        Shared => H::Bd(ByteData::from_shared(SharedBytes::from_slice(p))),
        SharedFlat => H::Sb(SharedBytes::from_slice(p)),
        ExtVec => H::Bd(ByteData::from_external(p.to_vec())),
        ExtOwner => H::Bd(reps::make(reps::Rep::ExtHeap, p).unwrap()),
        BytesOfShared => H::By(bytes::Bytes::from(SharedBytes::from_slice(p))),
        Foreign => H::Bd(ByteData::from_external(bytes::Bytes::from(p.to_vec()))),
    }
}

/// `nthreads` threads, each with a handle of its own to one storage (and, when `borrow`, a
/// reference to one more that outlives them), run a program each and drop what they hold.
fn programs(c: &mut Ctx, lens: &[(usize, usize)], ops: &[Op], roots: &[Root]) {
    let nthreads = lens.len();
    let k = c.pick(roots);
    let borrow = c.flag();
    let ops: Vec<Op> = ops.iter().copied().filter(|o| !matches!(o, FromRoot | SliceRoot) || borrow).collect();
    let mut progs = Vec::new();
    for (lo, hi) in lens {
        let n = lo + c.choose(hi + 1 - lo);
        let mut p: Vec<Op> = Vec::new();
        for _ in 0..n {
            p.push(c.pick(&ops));
        }
        progs.push(p);
    }
    // threads are alike: one order of the programs is enough
    if lens.windows(2).all(|w| w[0] == w[1]) && progs.windows(2).any(|w| w[0].iter().map(|o| *o as u8).cmp(w[1].iter().map(|o| *o as u8)).is_gt()) {
        c.skip();
    }
    let pid = hash_bytes(k as u64 * 2 + borrow as u64, format!("{progs:?}").as_bytes());
    c.note(|| format!("root {k:?}, borrowed {borrow}, programs {progs:?}"));
    sched::begin(c);
    let r: R = crate::alloc::untracked(|| Rc::new(RefCell::new(Reg { gone: Vec::with_capacity(64), block: Vec::with_capacity(64) })));
    let root = make(k);
    let rid = new_id(&r, &root);
    let mut firsts = Vec::new();
    for _ in 0..nthreads {
        let h = clone_h(&root);
        let id = new_id(&r, &h);
        firsts.push(Some(Item { h, at: 0, len: LEN, id }));
    }
    let keep = if borrow {
        Some(crate::alloc::untracked(|| Box::new(root)))
    } else {
        gone(&r, rid);
        drop(root);
        None
    };
    let bref: Option<&'static H> = keep.as_ref().map(|b| unsafe { &*(&**b as *const H) });
    let bodies: Vec<Box<dyn FnOnce()>> = crate::alloc::untracked(|| {
        progs
            .into_iter()
            .zip(firsts.iter_mut())
            .map(|(p, f)| {
                let r = r.clone();
                let first = f.take().unwrap();
                Box::new(move || {
                    let mut hand: Vec<Item> = crate::alloc::untracked(|| {
                        let mut v = Vec::with_capacity(16);
                        v.push(first);
                        v
                    });
                    for op in &p {
                        sched::note(|| format!("  {op:?}"));
                        step(*op, &mut hand, &r, bref, k == Foreign);
                    }
                    while let Some(i) = hand.pop() {
                        verify(bytes_of(&i.h), i.at, i.len, "at the end");
                        gone(&r, i.id);
                        drop(i.h);
                    }
                    crate::alloc::untracked(move || drop((hand, p, r)));
                }) as Box<dyn FnOnce()>
            })
            .collect()
    });
    drop(firsts);
    sched::run(c, bodies);
    if let Some(h) = keep {
        verify(bytes_of(&h), 0, LEN, "the shared value afterwards");
        drop(*h);
    }
    sched::end();
    crate::alloc::untracked(move || drop(r));
    c.step(pid);
}

const ROOTS: &[Root] = &[Shared, SharedFlat, ExtVec, ExtOwner, BytesOfShared, Foreign];

fn pairs(c: &mut Ctx) {
    let max = c.q(2, 3);
    programs(c, &[(0, max), (0, max)], OPS, ROOTS);
}

/// A longer history against a short one.
fn long_short(c: &mut Ctx) {
    let n = c.q(3, 4);
    programs(c, &[(0, 1), (n, n)], OPS, ROOTS);
}

fn triples(c: &mut Ctx) {
    let max = c.q(1, 2);
    programs(c, &[(0, max), (0, max), (0, max)], OPS, ROOTS);
}

pub const SUITES: &[Suite] = &[
    Suite { prop: "C06", name: "pairs", body: pairs, leaks: true },
    Suite { prop: "C06", name: "long_short", body: long_short, leaks: true },
    Suite { prop: "C06", name: "triples", body: triples, leaks: true },
];
