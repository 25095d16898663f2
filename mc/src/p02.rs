//! C02: a byte queue behaves as one flat byte sequence under any operation history.
use crate::check;
use crate::explore::*;
use crate::ranges::R;
pub use crate::inv::*;
use crate::reps::*;
use bytedata::{ByteData, ByteQueue, StringData, StringQueue};

pub const SUITES: &[Suite] = &[
    Suite { prop: "C02", name: "small_depth", body: small_depth, leaks: true },
    Suite { prop: "C02", name: "layouts_ops", body: layouts_ops, leaks: true },
    Suite { prop: "C02", name: "runs", body: runs, leaks: true },
    Suite { prop: "C02", name: "append_pairs", body: append_pairs, leaks: true },
    Suite { prop: "C02", name: "constructors", body: constructors, leaks: true },
    Suite { prop: "C02", name: "string_queue", body: string_queue, leaks: true },
];

pub fn hash(q: &ByteQueue<'_>, m: &[u8]) -> u64 {
    let mut h = hash_bytes(3, m);
    for c in q.chunks() {
        h = mix(h, c.len() as u64);
    }
    h
}

const ALL: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789abcdefghijklmnopqrstuvwxyz";

/// A supply of distinguishable chunks.
pub struct Feed(usize);
impl Feed {
    pub fn new() -> Self {
        Feed(0)
    }
    pub fn next(&mut self, len: usize, rep: Rep) -> (ByteData<'static>, &'static [u8]) {
        let a = (self.0 * 5 + 1) % 52;
        self.0 += 1;
        let s = &ALL[a..a + len];
        (make(rep, s).unwrap_or_else(|| ByteData::from_static(s)), s)
    }
}

pub struct Q {
    pub q: ByteQueue<'static>,
    pub m: Vec<u8>,
    pub feed: Feed,
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    PushBack(usize, Rep),
    PushFront(usize, Rep),
    PopFront,
    PopBack,
    Consume(usize),
    Drain(R, usize),
    SplitLeft(usize),
    SplitRight(usize),
    Slice(R),
    TakeWhileKeep(usize),
    TakeWhileTake(usize),
    Replace(R, usize, Rep),
    AppendSmall(usize),
    PrependTo(usize),
    Extend(usize),
    Clone,
    Recollect,
    Flatten,
    Rejoin(usize),
    RevCollect,
}

impl Q {
    pub fn new() -> Self {
        Q { q: ByteQueue::new(), m: Vec::new(), feed: Feed::new() }
    }
    pub fn apply(&mut self, op: Op) {
        let Q { q, m, feed } = self;
        match op {
            Op::PushBack(n, r) => {
                let (d, s) = feed.next(n, r);
                q.push_back(d);
                m.extend_from_slice(s);
            }
            Op::PushFront(n, r) => {
                let (d, s) = feed.next(n, r);
                q.push_front(d);
                m.splice(0..0, s.iter().copied());
            }
            Op::PopFront => {
                let f = q.front().map(|f| f.len());
                match q.pop_front() {
                    None => check!(m.is_empty() && f.is_none(), "pop_front", "None with {} bytes", m.len()),
                    Some(d) => {
                        check!(m.starts_with(&d) && Some(d.len()) == f, "pop_front", "gave {:02x?}", d.as_slice());
                        m.drain(..d.len());
                    }
                }
            }
            Op::PopBack => {
                let f = q.back().map(|f| f.len());
                match q.pop_back() {
                    None => check!(m.is_empty() && f.is_none(), "pop_back", "None with {} bytes", m.len()),
                    Some(d) => {
                        check!(m.ends_with(&d) && Some(d.len()) == f, "pop_back", "gave {:02x?}", d.as_slice());
                        m.truncate(m.len() - d.len());
                    }
                }
            }
            Op::Consume(n) => {
                q.consume(n);
                m.drain(..n);
            }
            Op::Drain(r, k) => {
                let (a, b) = r.window(m.len()).unwrap();
                let mut it = q.drain(r.bounds());
                check!(it.size_hint() == (b - a, Some(b - a)), "drain", "size_hint {:?} for {} bytes", it.size_hint(), b - a);
                for i in 0..k.min(b - a) {
                    let x = it.next();
                    check!(x == Some(m[a + i]), "drain", "element {i} is {x:?}");
                }
                if k > b - a {
                    check!(it.next().is_none(), "drain", "too many elements");
                }
                drop(it);
                m.drain(a..b);
            }
            Op::SplitLeft(p) => {
                let r = q.split_off(p);
                same(&r, &m[p..], "split_off (returned part)");
                m.truncate(p);
            }
            Op::SplitRight(p) => {
                let r = q.split_off(p);
                same(q, &m[..p], "split_off (kept part)");
                *q = r;
                m.drain(..p);
            }
            Op::Slice(r) => {
                let (a, b) = r.window(m.len()).unwrap();
                let s = q.slice(r.bounds());
                same(q, m, "slice changed its receiver");
                *q = s;
                *m = m[a..b].to_vec();
            }
            Op::TakeWhileKeep(p) | Op::TakeWhileTake(p) => {
                let mut n = 0;
                let mut ok = true;
                let t = q.take_while(|b| {
                    ok &= n < m.len() && b == m[n];
                    n += 1;
                    n <= p
                });
                check!(ok, "take_while", "predicate saw other bytes");
                same(&t, &m[..p], "take_while (taken)");
                if matches!(op, Op::TakeWhileKeep(_)) {
                    m.drain(..p);
                } else {
                    same(q, &m[p..], "take_while (rest)");
                    *q = t;
                    m.truncate(p);
                }
            }
            Op::Replace(r, n, rep) => {
                let (a, b) = r.window(m.len()).unwrap();
                let (d, s) = feed.next(n, rep);
                q.replace_range(r.bounds(), d);
                m.splice(a..b, s.iter().copied());
            }
            Op::AppendSmall(k) => {
                let mut o = ByteQueue::new();
                for _ in 0..k {
                    let (d, s) = feed.next(2, Rep::Shared);
                    o.push_back(d);
                    m.extend_from_slice(s);
                }
                q.append(o);
            }
            Op::PrependTo(k) => {
                let mut o = ByteQueue::new();
                let mut n = Vec::new();
                for _ in 0..k {
                    let (d, s) = feed.next(2, Rep::Shared);
                    o.push_back(d);
                    n.extend_from_slice(s);
                }
                o.append(core::mem::take(q));
                *q = o;
                n.extend_from_slice(m);
                *m = n;
            }
            Op::Extend(k) => {
                let (_, a) = feed.next(3, Rep::Static);
                let (_, b) = feed.next(16, Rep::Static);
                let st = |x: &'static [u8]| core::str::from_utf8(x).unwrap();
                match k {
                    0 => q.extend([ByteData::from_shared(a.into()), ByteData::from_static(b)]),
                    1 => q.extend([a, &[][..], b]),
                    2 => q.extend([a.to_vec(), Vec::new(), b.to_vec()]),
                    3 => q.extend([StringData::from_static(st(a)), StringData::from_static(st(b))]),
                    4 => q.extend([st(a), "", st(b)]),
                    _ => q.extend([st(a).to_string(), String::new(), st(b).to_string()]),
                }
                m.extend_from_slice(a);
                m.extend_from_slice(b);
            }
            Op::Clone => {
                let c = q.clone();
                same(&c, m, "clone");
                *q = c;
            }
            Op::Recollect => *q = core::mem::take(q).into_iter().collect(),
            Op::RevCollect => {
                let mut n = ByteQueue::new();
                for x in core::mem::take(q).into_iter().rev() {
                    n.push_front(x);
                }
                *q = n;
            }
            Op::Flatten => *q = ByteQueue::from(ByteData::from(core::mem::take(q))),
            Op::Rejoin(p) => {
                let r = q.split_off(p);
                q.append(r);
            }
        }
    }
}

fn ext_op(k: usize) -> Op {
    Op::Extend(k)
}

fn small_depth(c: &mut Ctx) {
    let mut s = Q::new();
    let depth = c.q(7, 8);
    for _ in 0..depth {
        let n = s.m.len();
        let mut ops = vec![Op::PushBack(2, Rep::Shared), Op::PushFront(1, Rep::Static), Op::PopFront, Op::PopBack, Op::AppendSmall(2)];
        if n > 0 {
            ops.extend_from_slice(&[Op::Consume(1), Op::SplitRight(n / 2), Op::Replace(R::Half(n / 2, n / 2 + 1), 1, Rep::Static), Op::Drain(R::Half(n - 1, n), 1), Op::Rejoin(1)]);
        }
        if n > 2 {
            ops.extend_from_slice(&[Op::SplitLeft(n - 1), Op::Slice(R::Half(1, n)), Op::Drain(R::Half(1, n - 1), 0), Op::Replace(R::Half(1, n - 1), 0, Rep::Static)]);
        }
        let op = c.pick(&ops);
        c.note(|| format!("{op:?}"));
        s.apply(op);
        same(&s.q, &s.m, "after op");
        c.step(hash(&s.q, &s.m));
    }
    same_full(&s.q, &s.m, "final");
}

/// How a starting queue was brought about: pushes at the back, pops at the front, pushes at the
/// front, pops at the back. Covers every ring offset class and several nodes.
pub fn layout(nb: usize, pf: usize, nf: usize, pb: usize, sizes: usize) -> Q {
    let mut s = Q::new();
    let reps = [Rep::Static, Rep::Shared, Rep::ExtHeap];
    let sz = |i: usize| if sizes == 0 { 1 } else { 1 + i % 3 };
    for i in 0..nb {
        s.apply(Op::PushBack(sz(i), reps[i % 3]));
    }
    for _ in 0..pf.min(nb) {
        s.apply(Op::PopFront);
    }
    for i in 0..nf {
        s.apply(Op::PushFront(sz(i + 1), reps[(i + 1) % 3]));
    }
    for _ in 0..pb {
        s.apply(Op::PopBack);
    }
    s
}

pub fn draw_layout(c: &mut Ctx, big: bool) -> Q {
    let nbs: &[usize] = if big { c.q(&[0, 1, 2, 3, 15, 16, 17, 18, 31, 32, 46], &[0, 1, 2, 3, 4, 14, 15, 16, 17, 18, 30, 31, 32, 33, 46, 47, 48, 61]) } else { &[0, 1, 2, 3, 16, 17, 32] };
    let nb = c.pick(nbs);
    let pfs: Vec<usize> = {
        let mut v = vec![0, 1, 2, 15, 16, 17, nb.saturating_sub(1), nb];
        v.retain(|x| *x <= nb);
        v.sort();
        v.dedup();
        v
    };
    let pf = c.pick(&pfs);
    let nf = c.pick(if big { &[0usize, 1, 2, 15, 17] } else { &[0, 1, 16] });
    let pbs: &[usize] = &[0, 1, 15];
    let pb = if nb - pf + nf > 0 { c.pick(&pbs[..if nb - pf + nf > 15 { 3 } else { 2 }]) } else { 0 };
    c.note(|| format!("start: {nb} x push_back, {pf} x pop_front, {nf} x push_front, {pb} x pop_back"));
    layout(nb, pf, nf, pb, 1)
}

fn positions(s: &Q, few: bool) -> Vec<usize> {
    let n = s.m.len();
    let mut b = vec![0];
    let mut at = 0;
    for ch in s.q.chunks() {
        at += ch.len();
        b.push(at);
    }
    let k = b.len();
    let mut v = vec![0, n, 1, n.saturating_sub(1)];
    for i in if few { vec![1, k / 2] } else { vec![1, 2, k / 2, 15, 16, 17, k.saturating_sub(2)] } {
        if i < k {
            v.push(b[i]);
            if !few {
                v.push(b[i] + 1);
                v.push(b[i].saturating_sub(1));
            }
        }
    }
    v.retain(|x| *x <= n);
    v.sort();
    v.dedup();
    v
}

fn all_ops(s: &Q, few: bool) -> Vec<Op> {
    let n = s.m.len();
    let pos = positions(s, few);
    let mut v = vec![
        Op::PushBack(3, Rep::Shared),
        Op::PushFront(3, Rep::ExtHeap),
        Op::PopFront,
        Op::PopBack,
        Op::AppendSmall(1),
        Op::AppendSmall(17),
        Op::PrependTo(1),
        Op::PrependTo(2),
        Op::PrependTo(17),
        Op::PushBack(0, Rep::Static),
        Op::PushFront(0, Rep::Shared),
        Op::Recollect,
        Op::RevCollect,
        Op::Flatten,
        Op::Clone,
    ];
    if !few {
        v.extend((0..6).map(ext_op));
    }
    for &p in &pos {
        v.extend_from_slice(&[Op::Consume(p), Op::SplitLeft(p), Op::SplitRight(p), Op::Rejoin(p)]);
        if !few {
            v.extend_from_slice(&[Op::TakeWhileKeep(p), Op::TakeWhileTake(p)]);
        }
    }
    for (i, &a) in pos.iter().enumerate() {
        for &b in &pos[i..] {
            if few && (b - a) > 3 && a > 1 && b < n {
                continue;
            }
            v.push(Op::Drain(R::Half(a, b), 0));
            v.push(Op::Slice(R::Half(a, b)));
            v.push(Op::Replace(R::Half(a, b), 2, Rep::Shared));
            v.push(Op::Replace(R::Half(a, b), 0, Rep::Static));
            if !few {
                v.push(Op::Drain(R::Half(a, b), 1));
                v.push(Op::Drain(R::Half(a, b), usize::MAX));
            }
        }
        if !few {
            v.push(Op::Slice(R::From(a)));
            v.push(Op::Slice(R::To(a)));
            v.push(Op::Drain(R::From(a), 2));
            v.push(Op::Drain(R::To(a), 2));
            v.push(Op::Replace(R::To(a), 1, Rep::ExtHeap));
            if a < n {
                v.push(Op::Slice(R::ToIncl(a)));
                v.push(Op::Drain(R::ToIncl(a), 0));
                v.push(Op::Slice(R::Incl(a, n - 1)));
                v.push(Op::Replace(R::ToIncl(a), 1, Rep::ExtHeap));
            }
        }
    }
    v
}

fn layouts_ops(c: &mut Ctx) {
    let mut s = draw_layout(c, true);
    same(&s.q, &s.m, "start");
    let ops = all_ops(&s, false);
    let op = c.pick(&ops);
    c.note(|| format!("{op:?}"));
    s.apply(op);
    same(&s.q, &s.m, "after op");
    c.step(hash(&s.q, &s.m));
    if c.thorough {
        let ops = all_ops(&s, true);
        let op = c.pick(&ops);
        c.note(|| format!("{op:?}"));
        s.apply(op);
        same(&s.q, &s.m, "after second op");
        c.step(hash(&s.q, &s.m));
    }
    // the state must be sound, whatever follows: fixed follow-ups
    same_full(&s.q, &s.m, "after op (full)");
    s.apply(Op::PushBack(1, Rep::Shared));
    s.apply(Op::PushFront(1, Rep::Shared));
    same(&s.q, &s.m, "after op, push_back, push_front");
    s.apply(Op::PopFront);
    s.apply(Op::PopFront);
    s.apply(Op::PopBack);
    s.apply(Op::PopBack);
    same(&s.q, &s.m, "after op and two pops at either end");
    let r = s.q.split_off(s.m.len() / 2);
    let mut r2 = r;
    r2.append(core::mem::take(&mut s.q));
    let h = s.m.len() / 2;
    s.m.rotate_left(h);
    same(&r2, &s.m, "after op, pops and rotation by split_off/append");
}

fn runs(c: &mut Ctx) {
    let mut s = Q::new();
    let segs = c.q(4, 5);
    let lens: &[usize] = c.q(&[1, 2, 15, 17], &[1, 2, 15, 16, 17, 31]);
    let mut prev = 4;
    for _ in 0..segs {
        let mut k = c.choose(if prev < 4 { 3 } else { 4 });
        if k >= prev {
            k += 1;
        }
        prev = k;
        let n = c.pick(lens);
        c.note(|| format!("{n} x {}", ["push_back", "push_front", "pop_front", "pop_back"][k]));
        for i in 0..n {
            s.apply(match k {
                0 => Op::PushBack(1 + i % 2, if i % 4 == 0 { Rep::Shared } else { Rep::Static }),
                1 => Op::PushFront(1 + i % 2, if i % 4 == 1 { Rep::Shared } else { Rep::Static }),
                2 => Op::PopFront,
                _ => Op::PopBack,
            });
        }
        same(&s.q, &s.m, "after run");
        c.step(hash(&s.q, &s.m));
    }
    same_full(&s.q, &s.m, "final");
}

fn append_pairs(c: &mut Ctx) {
    let mut a = draw_layout(c, false);
    let mut b = draw_layout(c, c.thorough);
    c.note(|| format!("append {} chunks to {} chunks", b.q.chunk_len(), a.q.chunk_len()));
    let k = c.choose(3);
    let n = a.m.len();
    match k {
        0 => {
            a.q.append(b.q);
            a.m.extend_from_slice(&b.m);
        }
        1 => {
            a.q.extend(b.q.into_iter());
            a.m.extend_from_slice(&b.m);
        }
        _ => {
            // replace a middle range by way of append of the tail
            let p = n / 2;
            let mut t = a.q.split_off(p);
            let tm = a.m.split_off(p);
            a.q.append(core::mem::take(&mut b.q));
            a.m.extend_from_slice(&b.m);
            t.consume(tm.len().min(1));
            a.q.append(t);
            a.m.extend_from_slice(&tm[tm.len().min(1)..]);
        }
    }
    same_full(&a.q, &a.m, "after append");
    c.step(hash(&a.q, &a.m));
    let ops = [Op::PushBack(2, Rep::Shared), Op::PushFront(2, Rep::Shared), Op::PopFront, Op::PopBack, Op::AppendSmall(2), Op::PrependTo(2), Op::SplitLeft(a.m.len() / 2), Op::SplitRight(a.m.len() / 2)];
    let op = c.pick(&ops);
    c.note(|| format!("{op:?}"));
    a.apply(op);
    same_full(&a.q, &a.m, "after append and op");
    c.step(hash(&a.q, &a.m));
}

fn constructors(c: &mut Ctx) {
    let lens = [0usize, 1, 5, 14, 15, 40];
    let n = c.pick(&lens);
    let s = pattern(n);
    let t = core::str::from_utf8(&ALL[..n]).unwrap();
    let k = c.choose(11);
    c.note(|| format!("constructor {k}, {n} bytes"));
    if k == 0 {
        let rep = c.pick(REPS);
        let Some(d) = make(rep, s) else { c.skip() };
        let q = ByteQueue::with_item(d);
        return same_full(&q, s, "with_item");
    }
    if k == 9 {
        // a value that became empty while keeping external storage
        let rep = c.pick(REPS);
        let Some(d) = make(rep, s) else { c.skip() };
        let mut e = d;
        e.make_sliced(n / 2..n / 2);
        let f = make(rep, s).unwrap().into_shared_range(n..n);
        let mut q = ByteQueue::with_item(e.clone());
        q.push_back(e.clone());
        q.push_back(f.clone());
        q.push_front(f.clone());
        same_full(&q, b"", "empty slices pushed");
        q.push_back(ByteData::from_static(b"x"));
        q.push_back(f.clone());
        q.push_front(e.clone());
        q.replace_range(0..0, f);
        q.replace_range(1..1, e);
        same_full(&q, b"x", "empty slices around one byte");
        return;
    }
    let q: ByteQueue = match k {
        1 => make(Rep::Shared, s).unwrap().into(),
        2 => s.into(),
        3 => s.to_vec().into(),
        4 => return same_full(&ByteQueue::from(t.to_string()), t.as_bytes(), "from String"),
        5 => std::borrow::Cow::Borrowed(s).into(),
        6 => std::borrow::Cow::<[u8]>::Owned(s.to_vec()).into(),
        7 => return same_full(&ByteQueue::from(std::borrow::Cow::<str>::Owned(t.to_string())), t.as_bytes(), "from Cow<str>"),
        8 => s.chunks(3).map(ByteData::from_borrowed).collect(),
        10 => {
            let mut q = ByteQueue::new();
            for x in s.chunks(2) {
                use core::fmt::Write;
                match core::str::from_utf8(x) {
                    Ok(x) => q.write_str(x).unwrap(),
                    Err(_) => q.push_back(x),
                }
            }
            q
        }
        _ => unreachable!(),
    };
    same_full(&q, s, "constructor");
    check!(ByteQueue::default().is_empty() && !q.is_full(), "constructor", "default/is_full");
    c.step(hash(&q, s));
}

fn string_queue(c: &mut Ctx) {
    let pieces: [&'static str; 5] = ["a", "å", "€x", "😀", "0123456789abcdef"];
    let mut q = StringQueue::new();
    let mut m = String::new();
    let start = c.choose(4);
    for i in 0..[0usize, 2, 4, 18][start] {
        q.push_back(StringData::from_static(pieces[i % 4]));
        m.push_str(pieces[i % 4]);
    }
    c.note(|| format!("start: {m:?}"));
    for _ in 0..c.q(2, 3) {
        let bs: Vec<usize> = (0..=m.len()).filter(|i| m.is_char_boundary(*i)).collect();
        let bs = if bs.len() > 7 { vec![bs[0], bs[1], bs[2], bs[bs.len() / 2], bs[bs.len() - 2], bs[bs.len() - 1]] } else { bs };
        let wins: Vec<(usize, usize)> = bs.iter().flat_map(|&a| bs.iter().filter(move |&&b| a <= b).map(move |&b| (a, b))).collect();
        let k = c.choose(17);
        c.note(|| format!("op {k}"));
        match k {
            0 | 1 => {
                let p = c.pick(&pieces);
                if k == 0 {
                    q.push_back(make_str(Rep::Shared, p).unwrap());
                    m.push_str(p);
                } else {
                    q.push_front(p);
                    m.insert_str(0, p);
                }
            }
            2 => {
                if let Some(x) = q.pop_front() {
                    check!(m.starts_with(x.as_str()), "pop_front", "{x:?}");
                    m.drain(..x.len());
                } else {
                    check!(m.is_empty(), "pop_front", "None");
                }
            }
            3 => {
                if let Some(x) = q.pop_back() {
                    check!(m.ends_with(x.as_str()), "pop_back", "{x:?}");
                    m.truncate(m.len() - x.len());
                } else {
                    check!(m.is_empty(), "pop_back", "None");
                }
            }
            4 | 5 => {
                let p = c.pick(&bs);
                let r = q.split_off(p);
                sq_same(&r, &m[p..], "split_off");
                sq_same(&q, &m[..p], "split_off");
                if k == 4 {
                    q = r;
                    m.drain(..p);
                } else {
                    m.truncate(p);
                }
            }
            6 => {
                let (a, b) = c.pick(&wins);
                let s = q.slice(a..b);
                sq_same(&q, &m, "slice receiver");
                q = s;
                m = m[a..b].to_string();
            }
            7 => {
                let (a, b) = c.pick(&wins);
                let got: String = q.drain(a..b).collect();
                check!(got == m[a..b], "drain", "{got:?} expected {:?}", &m[a..b]);
                m.drain(a..b);
            }
            8 => {
                let (a, b) = c.pick(&wins);
                let mut d = q.drain(a..b);
                let x = d.next();
                check!(x == m[a..b].chars().next(), "drain", "{x:?}");
                drop(d);
                m.drain(a..b);
            }
            9 => {
                let (a, b) = c.pick(&wins);
                let r = c.pick(&["", "ß"]);
                q.replace_range(a..b, StringData::from_static(r));
                m.replace_range(a..b, r);
            }
            10 => {
                let p = c.pick(&bs);
                let mut at = 0;
                let t = q.take_while(|ch| {
                    at += ch.len_utf8();
                    at <= p
                });
                sq_same(&t, &m[..p], "take_while");
                m.drain(..p);
            }
            11 => q.extend(["", "xø"]).also(|| m.push_str("xø")),
            12 => q.extend([String::from("ø"), String::new()]).also(|| m.push('ø')),
            13 => q.extend([StringData::from_static("yø")]).also(|| m.push_str("yø")),
            14 => {
                let s: String = q.into();
                check!(s == m, "into String", "{s:?} expected {m:?}");
                q = StringQueue::from(s);
            }
            15 => q = q.into_iter().collect(),
            _ => {
                let s: StringData = q.into();
                check!(s == *m, "into StringData", "{s:?} expected {m:?}");
                q = StringQueue::with_item(s);
            }
        }
        sq_same(&q, &m, "after op");
        c.step(hash(q.as_bytequeue(), m.as_bytes()));
    }
    check!(q.into_chars().eq(m.chars()), "into_chars", "differs for {m:?}");
}

trait Also {
    fn also(self, f: impl FnOnce());
}
impl Also for () {
    fn also(self, f: impl FnOnce()) {
        f()
    }
}
