//! C21: without allocation the queue is a ring of fixed capacity; within it everything is as ever, at its
//! edge a push is refused and changes nothing.
use crate::check;
use crate::explore::*;
use crate::p02::{same, same_full, sq_same};
use crate::ranges::R;
use crate::reps::*;
use crate::with_range;
use bytedata::{ByteData, ByteQueue, StringData, StringQueue};

pub const SUITES: &[Suite] = &[
    Suite { prop: "C21", name: "edge", body: edge, leaks: true },
    Suite { prop: "C21", name: "small", body: small, leaks: true },
    Suite { prop: "C21", name: "full", body: full, leaks: true },
    Suite { prop: "C21", name: "text_edge", body: text_edge, leaks: true },
    Suite { prop: "C21", name: "constructors", body: constructors, leaks: true },
    Suite { prop: "C21", name: "data", body: data, leaks: true },
    Suite { prop: "C21", name: "text", body: text, leaks: true },
    Suite { prop: "C21", name: "serde", body: serde, leaks: true },
];

/// How many chunks fit: what the queue itself says.
fn capacity() -> usize {
    let mut q = ByteQueue::new();
    let mut n = 0;
    while !q.is_full() {
        q.push_back(ByteData::from_static(b"x"));
        n += 1;
        check!(q.chunk_len() == n, "capacity", "chunk_len {} after {n} pushes", q.chunk_len());
        if n > 4096 {
            fail("capacity", "never full".into());
        }
    }
    check!(n >= 8, "capacity", "full after {n} chunks, 8 are promised");
    n
}

struct Q {
    q: ByteQueue<'static>,
    m: Vec<u8>,
    fresh: u8,
}
impl Q {
    fn new() -> Q {
        Q { q: ByteQueue::new(), m: Vec::new(), fresh: 0 }
    }
    /// The next chunk, all bytes distinguishable; inline and static chunks alternate.
    fn chunk(&mut self, n: usize) -> (ByteData<'static>, Vec<u8>) {
        let v: Vec<u8> = (0..n)
            .map(|_| {
                self.fresh = self.fresh.wrapping_add(1);
                self.fresh
            })
            .collect();
        let d = if self.fresh % 2 == 0 && n <= 14 { ByteData::from_chunk_slice(&v) } else { ByteData::from_static(stat(&v)) };
        (d, v)
    }
    fn back(&mut self, n: usize) {
        let (d, v) = self.chunk(n);
        self.q.push_back(d);
        self.m.extend(v);
    }
    /// `n` chunks, the first of them in slot `offset` of the ring.
    fn at(offset: usize, n: usize) -> Q {
        let mut s = Q::new();
        for _ in 0..offset {
            s.back(1);
            let x = s.q.pop_front();
            check!(x.is_some(), "pop_front", "nothing there");
            s.m.remove(0);
        }
        for i in 0..n {
            s.back(1 + i % 3);
        }
        s
    }
    fn is(&self, cap: usize, what: &str) {
        same(&self.q, &self.m, what);
        check!(self.q.is_full() == (self.q.chunk_len() == cap), what, "is_full {} with {} of {cap} chunks", self.q.is_full(), self.q.chunk_len());
    }
    /// A push that may be refused.
    fn push(&mut self, front: bool, n: usize, cap: usize) {
        let (d, v) = self.chunk(n);
        let before = self.q.chunk_len();
        let was_full = before == cap;
        let r = attempt(|| if front { self.q.push_front(d) } else { self.q.push_back(d) });
        check!(r.is_none() == (was_full && n > 0), if front { "push_front" } else { "push_back" }, "{} with {before} of {cap} chunks", if r.is_none() { "refused" } else { "accepted" });
        if r.is_some() {
            if front {
                self.m.splice(0..0, v);
            } else {
                self.m.extend(v);
            }
        } else {
            check!(self.q.chunk_len() == before, "refused push", "{} chunks, {before} before", self.q.chunk_len());
        }
    }
}

#[derive(Clone, Debug)]
enum Op {
    PushBack(usize),
    PushFront(usize),
    PopBack,
    PopFront,
    Consume(usize),
    SplitOff(usize),
    Drain(usize, usize),
    Replace(usize, usize, usize),
    Append(usize, usize),
    Extend(usize),
    Slice(usize, usize),
    TakeWhile(usize),
    Clone,
    Iter,
    Find(usize),
}

/// Positions worth cutting at: the ends, inside and at the edges of the outer chunks.
fn cuts(s: &Q, few: bool) -> Vec<usize> {
    let n = s.m.len();
    let mut v = vec![0, 1, 2, n / 2, n.saturating_sub(1), n];
    if !few {
        let mut at = 0;
        for c in s.q.chunks() {
            at += c.len();
            v.push(at);
            if c.len() > 1 {
                v.push(at - 1);
            }
        }
    }
    v.retain(|x| *x <= n);
    v.sort_unstable();
    v.dedup();
    v
}

fn ops(s: &Q, few: bool) -> Vec<Op> {
    let mut v = vec![Op::PushBack(1), Op::PushFront(1), Op::PopBack, Op::PopFront, Op::PushBack(0), Op::PushFront(20), Op::PushBack(2), Op::Extend(3), Op::Clone, Op::Iter];
    for n in [0, 1, 2] {
        for o in [0, 7] {
            v.push(Op::Append(n, o));
        }
    }
    let p = cuts(s, few);
    for &a in &p {
        v.push(Op::Consume(a));
        v.push(Op::SplitOff(a));
        v.push(Op::TakeWhile(a));
        v.push(Op::Find(a));
    }
    let p = cuts(s, true);
    for &a in &p {
        for &b in &p {
            if a <= b {
                v.push(Op::Drain(a, b));
                v.push(Op::Slice(a, b));
                v.push(Op::Replace(a, b, 2));
                v.push(Op::Replace(a, b, 0));
            }
        }
    }
    v
}

/// Applies one operation to queue and reference. `false`: the queue refused for lack of room part-way through
/// and its content is only required to be consistent from here.
fn apply(s: &mut Q, op: Op, cap: usize) -> bool {
    match op {
        Op::PushBack(n) => s.push(false, n, cap),
        Op::PushFront(n) => s.push(true, n, cap),
        Op::PopFront => {
            let g = s.q.pop_front();
            match &g {
                Some(d) => check!(!d.is_empty() && s.m.starts_with(d), "pop_front", "{:02x?} of {:02x?}", d.as_slice(), s.m),
                None => check!(s.m.is_empty(), "pop_front", "nothing of {:02x?}", s.m),
            }
            s.m.drain(..g.map_or(0, |d| d.len()));
        }
        Op::PopBack => {
            let g = s.q.pop_back();
            match &g {
                Some(d) => check!(!d.is_empty() && s.m.ends_with(d), "pop_back", "{:02x?} of {:02x?}", d.as_slice(), s.m),
                None => check!(s.m.is_empty(), "pop_back", "nothing of {:02x?}", s.m),
            }
            let n = s.m.len();
            s.m.truncate(n - g.map_or(0, |d| d.len()));
        }
        Op::Consume(n) => {
            s.q.consume(n);
            s.m.drain(..n);
        }
        Op::SplitOff(at) => {
            let t = s.q.split_off(at);
            same_full(&t, &s.m[at..], "split_off");
            s.m.truncate(at);
        }
        Op::Drain(a, b) => {
            // removing from the middle of a chunk leaves two
            let room = s.q.chunk_len() < cap;
            let r = attempt(|| s.q.drain(a..b).collect::<Vec<u8>>());
            match r {
                Some(g) => {
                    check!(g == s.m[a..b], "drain", "{a}..{b} gives {g:02x?} of {:02x?}", s.m);
                    s.m.drain(a..b);
                }
                None => {
                    check!(!room, "drain", "{a}..{b} refused with {} of {cap} chunks", s.q.chunk_len());
                    return false;
                }
            }
        }
        Op::Replace(a, b, n) => {
            let (d, v) = s.chunk(n);
            let room = s.q.chunk_len() + 2 <= cap;
            let r = attempt(|| s.q.replace_range(a..b, d));
            match r {
                Some(()) => {
                    s.m.splice(a..b, v);
                }
                None => {
                    check!(!room, "replace_range", "{a}..{b} refused with {} of {cap} chunks", s.q.chunk_len());
                    return false;
                }
            }
        }
        Op::Append(n, o) => {
            let t = Q::at(o, n);
            let chunks: Vec<Vec<u8>> = t.q.chunks().map(|x| x.as_slice().to_vec()).collect();
            let before = s.q.chunk_len();
            let q = t.q;
            let r = attempt(|| s.q.append(q));
            check!(r.is_some() == (before + n <= cap), "append", "{n} chunks to {before} of {cap}: {}", if r.is_some() { "accepted" } else { "refused" });
            if r.is_some() {
                s.m.extend(t.m);
            } else {
                // what fitted, chunk by chunk
                let k = s.q.chunk_len().saturating_sub(before);
                check!(k <= n, "append", "{k} chunks more, {n} given");
                s.m.extend(chunks[..k.min(n)].concat());
            }
        }
        Op::Extend(n) => {
            let before = s.q.chunk_len();
            let parts: Vec<(ByteData, Vec<u8>)> = (0..n).map(|i| s.chunk(i)).collect();
            let real = n.saturating_sub(1);
            let vs: Vec<Vec<u8>> = parts.iter().map(|x| x.1.clone()).filter(|x| !x.is_empty()).collect();
            let r = attempt(|| s.q.extend(parts.into_iter().map(|x| x.0)));
            check!(r.is_some() == (before + real <= cap), "extend", "{real} chunks to {before} of {cap}: {}", if r.is_some() { "accepted" } else { "refused" });
            let k = s.q.chunk_len().saturating_sub(before).min(real);
            s.m.extend(vs[..k].concat());
        }
        Op::Slice(a, b) => {
            let t = s.q.slice(a..b);
            same_full(&t, &s.m[a..b], "slice");
        }
        Op::TakeWhile(n) => {
            let mut i = 0;
            let t = s.q.take_while(|_| {
                i += 1;
                i <= n
            });
            same_full(&t, &s.m[..n], "take_while");
            s.m.drain(..n);
        }
        Op::Clone => {
            let t = s.q.clone();
            same_full(&t, &s.m, "clone");
            check!(t == s.q && t == s.m[..], "clone", "unequal");
            s.q = t;
        }
        Op::Iter => same_full(&s.q, &s.m, "iter"),
        Op::Find(p) => {
            for n in [1, 2, 3, 5, s.m.len()] {
                let nd = &s.m[p..(p + n).min(s.m.len())];
                let w = crate::p03::find(&s.m, nd, 0);
                check!(s.q.find_slice(nd) == w, "find_slice", "{nd:02x?}: {:?}, expected {w:?}", s.q.find_slice(nd));
                check!(s.q.exists_at(p, nd), "exists_at", "{nd:02x?} at {p}");
                let mut x = nd.to_vec();
                if let Some(l) = x.last_mut() {
                    *l ^= 0x80;
                    let w = crate::p03::find(&s.m, &x, 0);
                    check!(s.q.find_slice(&x) == w && s.q.exists_at(p, &x) == s.m[p..].starts_with(&x), "find_slice", "{x:02x?}");
                }
            }
            check!(s.q.starts_with(&s.m[..p]) && s.q.ends_with(&s.m[p..]), "starts/ends_with", "at {p}");
        }
    }
    true
}

fn step(c: &mut Ctx, s: &mut Q, few: bool, cap: usize) -> bool {
    let v = ops(s, few);
    let op = c.pick(&v);
    c.note(|| format!("{op:?}"));
    let before = s.q.chunk_len();
    let ok = apply(s, op, cap);
    c.step(mix(hash_bytes((before * 64 + s.q.chunk_len()) as u64, &s.m), 0));
    if !ok {
        // refused part-way: no bytes from elsewhere, and the queue agrees with itself
        let flat: Vec<u8> = s.q.bytes().collect();
        s.m = flat;
    }
    s.is(cap, if ok { "after the operation" } else { "after a refusal" });
    ok
}

/// Every ring offset, every fill level close to empty or full, one or two operations of every kind.
fn edge(c: &mut Ctx) {
    let cap = capacity();
    let o = c.choose(cap);
    let fill: Vec<usize> = if c.thorough { (0..=cap).collect() } else { vec![0, 1, cap / 2, cap - 2, cap - 1, cap] };
    let n = c.pick(&fill);
    let mut s = Q::at(o, n);
    c.note(|| format!("{n} of {cap} chunks from slot {o}"));
    s.is(cap, "set up");
    for i in 0..2 {
        if i == 1 && !c.thorough && !(o % 4 == 0 || o + 1 == cap) {
            break;
        }
        if !step(c, &mut s, i > 0 || o % 4 != 0, cap) {
            break;
        }
    }
    same_full(&s.q, &s.m, "at the end");
}

/// Short histories from an empty queue.
fn small(c: &mut Ctx) {
    let cap = capacity();
    let mut s = Q::new();
    let d = c.q(3, 4);
    for _ in 0..d {
        if !step(c, &mut s, true, cap) {
            break;
        }
    }
    same_full(&s.q, &s.m, "at the end");
}

/// Pushes and pops only, all sequences, on a ring close to full and at the wrap.
fn full(c: &mut Ctx) {
    let cap = capacity();
    let o = c.pick(&[0, 1, cap / 2, cap - 2, cap - 1]);
    let n = c.pick(&[cap - 2, cap - 1, cap]);
    let mut s = Q::at(o, n);
    c.note(|| format!("{n} of {cap} chunks from slot {o}"));
    for _ in 0..c.q(5, 7) {
        let op = c.pick(&[Op::PushBack(1), Op::PushFront(2), Op::PopBack, Op::PopFront]);
        c.note(|| format!("{op:?}"));
        apply(&mut s, op, cap);
        c.step(hash_bytes(s.q.chunk_len() as u64, &s.m));
        s.is(cap, "after the operation");
    }
    same_full(&s.q, &s.m, "at the end");
}

const CH: [&str; 4] = ["a", "é", "日", "😀"];

/// Text queues at the edge.
fn text_edge(c: &mut Ctx) {
    let cap = capacity();
    let o = c.choose(cap);
    let n = c.pick(&[0, 1, 2, cap - 1, cap]);
    let mut q = StringQueue::new();
    let mut m = String::new();
    let mut k = 0usize;
    let mut next = || {
        k += 1;
        format!("{}{}", CH[k % 4], CH[k / 4 % 4])
    };
    for _ in 0..o {
        q.push_back(StringData::from_static("x"));
        check!(q.pop_front().as_deref() == Some("x"), "pop_front", "");
    }
    for _ in 0..n {
        let t = next();
        q.push_back(StringData::from_static(stat_str(&t)));
        m.push_str(&t);
    }
    c.note(|| format!("{n} of {cap} chunks from slot {o}: {m:?}"));
    for _ in 0..2 {
        let room = q.chunk_len() < cap;
        let pos: Vec<usize> = {
            let mut v = vec![0, 1, 2, 3, m.len() / 2, m.len().saturating_sub(1), m.len()];
            v.retain(|x| *x <= m.len());
            v.sort_unstable();
            v.dedup();
            v
        };
        match c.choose(9) {
            0 | 1 => {
                let front = c.flag();
                let t = next();
                c.note(|| format!("push {t:?} front {front}"));
                let d = StringData::from_static(stat_str(&t));
                let r = attempt(|| if front { q.push_front(d) } else { q.push_back(d) });
                check!(r.is_some() == room, "push", "with {} of {cap} chunks: {}", q.chunk_len(), r.is_some());
                if room {
                    m.insert_str(if front { 0 } else { m.len() }, &t);
                }
            }
            2 => {
                c.note(|| "pop_front".into());
                let g = q.pop_front();
                check!(g.as_ref().map_or(m.is_empty(), |x| m.starts_with(x.as_str()) && !x.is_empty()), "pop_front", "{g:?} of {m:?}");
                m.drain(..g.map_or(0, |x| x.len()));
            }
            3 => {
                c.note(|| "pop_back".into());
                let g = q.pop_back();
                check!(g.as_ref().map_or(m.is_empty(), |x| m.ends_with(x.as_str()) && !x.is_empty()), "pop_back", "{g:?} of {m:?}");
                m.truncate(m.len() - g.map_or(0, |x| x.len()));
            }
            4 => {
                let p = c.pick(&pos);
                c.note(|| format!("split_off {p}"));
                let ok = m.is_char_boundary(p);
                match attempt(|| q.split_off(p)) {
                    Some(t) => {
                        check!(ok, "split_off", "{p} of {m:?} accepted");
                        sq_same(&t, &m[p..], "split_off");
                        m.truncate(p);
                    }
                    None => check!(!ok, "split_off", "{p} of {m:?} refused"),
                }
            }
            5 => {
                let (a, b) = (c.pick(&pos), c.pick(&pos));
                c.note(|| format!("slice {a}..{b}"));
                let w = m.get(a..b);
                match (attempt(|| q.slice(a..b)), w) {
                    (Some(t), Some(w)) => sq_same(&t, w, "slice"),
                    (None, None) => {}
                    (g, w) => fail("slice", format!("{a}..{b} of {m:?}: {:?}, expected {w:?}", g.map(|x| x.to_string()))),
                }
            }
            6 => {
                let (a, b) = (c.pick(&pos), c.pick(&pos));
                c.note(|| format!("drain {a}..{b}"));
                let ok = m.get(a..b).is_some();
                match attempt(|| q.drain(a..b).collect::<String>()) {
                    Some(g) => {
                        check!(ok && g == m[a..b], "drain", "{a}..{b} of {m:?} gives {g:?}");
                        m.drain(a..b);
                    }
                    None => {
                        check!(!ok || !room, "drain", "{a}..{b} of {m:?} refused");
                        if ok {
                            m = q.chars().collect();
                        }
                    }
                }
            }
            7 => {
                let (a, b) = (c.pick(&pos), c.pick(&pos));
                c.note(|| format!("replace_range {a}..{b}"));
                let ok = m.get(a..b).is_some();
                let room = q.chunk_len() + 2 <= cap;
                match attempt(|| q.replace_range(a..b, StringData::from_static("ß"))) {
                    Some(()) => {
                        check!(ok, "replace_range", "{a}..{b} of {m:?} accepted");
                        m.replace_range(a..b, "ß");
                    }
                    None => {
                        check!(!ok || !room, "replace_range", "{a}..{b} of {m:?} refused");
                        if ok {
                            m = q.chars().collect();
                        }
                    }
                }
            }
            _ => {
                let k = c.choose(3);
                c.note(|| format!("take_while {k}"));
                let mut i = 0;
                let t = q.take_while(|_| {
                    i += 1;
                    i <= k
                });
                let p = m.char_indices().nth(k).map_or(m.len(), |x| x.0);
                sq_same(&t, &m[..p], "take_while");
                m.drain(..p);
            }
        }
        sq_same(&q, &m, "after the operation");
        check!(q.is_full() == (q.chunk_len() == cap), "is_full", "{} with {} of {cap}", q.is_full(), q.chunk_len());
        check!(q.to_string() == m && q.chars().eq(m.chars()) && q == *m, "content", "{q} expected {m}");
        c.step(hash_bytes((q.chunk_len() * 64 + o) as u64, m.as_bytes()));
    }
    let mut it = q.into_chars();
    for ch in m.chars() {
        check!(it.next() == Some(ch), "into_chars", "{ch:?} missing");
    }
    check!(it.next().is_none(), "into_chars", "too many");
}

fn constructors(c: &mut Ctx) {
    let n = c.pick(&[0usize, 1, 2, 14, 15, 40]);
    let m = pattern(n);
    let rep = c.pick(&[Rep::Static, Rep::Borrowed, Rep::Inline]);
    let Some(d) = make(rep, m) else { c.skip() };
    let k = c.choose(9);
    c.note(|| format!("{n} bytes as {rep:?}, way {k}"));
    let t = StringData::from_static(stat_str(&"é".repeat(n)));
    let q: ByteQueue = match k {
        0 => ByteQueue::with_item(d),
        1 => ByteQueue::from(d),
        2 => ByteQueue::from(m),
        3 => {
            let mut q = ByteQueue::new();
            q.push_back(d);
            q
        }
        4 => {
            let mut q = ByteQueue::default();
            q.push_front(d);
            q
        }
        5 => [d].into_iter().collect(),
        6 => {
            let mut q = ByteQueue::new();
            q.extend([d]);
            q
        }
        7 => {
            let mut q = ByteQueue::new();
            q.append(ByteQueue::with_item(d));
            q
        }
        _ => {
            let s = match c.choose(4) {
                0 => StringQueue::with_item(t.clone()),
                1 => StringQueue::from(t.clone()),
                2 => StringQueue::from(stat_str(&"é".repeat(n))),
                _ => [t.clone()].into_iter().collect(),
            };
            sq_same(&s, &t, "text constructor");
            check!(s.chunk_len() == (n > 0) as usize, "text constructor", "{} chunks", s.chunk_len());
            check!(format!("{s}") == t.as_str(), "text constructor", "{s}");
            let mut s2 = s.clone();
            s2.push_back("z");
            sq_same(&s2, &format!("{}z", t.as_str()), "push to a constructed text queue");
            c.step(mix(n as u64, k as u64));
            return;
        }
    };
    same_full(&q, m, "constructor");
    check!(q.chunk_len() == (n > 0) as usize, "constructor", "{} chunks for {n} bytes", q.chunk_len());
    let mut q2 = q.clone();
    q2.push_front(ByteData::from_static(b"<"));
    q2.push_back(ByteData::from_static(b">"));
    let w = [b"<", m, b">"].concat();
    same_full(&q2, &w, "push to a constructed queue");
    c.step(mix(n as u64, k as u64));
}

/// Slicing and dividing byte data.
fn data(c: &mut Ctx) {
    let n = c.pick(&[0usize, 1, 2, 5, 13, 14, 15, 16, 30]);
    let m = pattern(n);
    let rep = c.pick(&[Rep::Static, Rep::Borrowed, Rep::Inline]);
    let Some(mut d) = make(rep, m) else { c.skip() };
    let mut m = m;
    c.note(|| format!("{n} bytes as {rep:?}"));
    for _ in 0..c.q(2, 3) {
        let n = m.len();
        check!(d.len() == n && d.is_empty() == (n == 0) && d.as_slice() == m && *d == *m, "content", "{:02x?}, expected {m:02x?}", d.as_slice());
        check!(d.clone() == d && d.clone().as_slice() == m, "clone", "{:02x?}", d.clone().as_slice());
        match c.choose(6) {
            k @ 0..=2 => {
                let mut rs = Vec::new();
                let mut pos = vec![0, 1, 2, n / 2, n.saturating_sub(1), n, n + 1, 14, 15, usize::MAX];
                pos.sort_unstable();
                pos.dedup();
                rs.push(R::Full);
                for &a in &pos {
                    rs.extend([R::From(a), R::To(a), R::ToIncl(a)]);
                    for &b in &pos {
                        rs.extend([R::Half(a, b), R::Incl(a, b)]);
                    }
                }
                let r = c.pick(&rs);
                c.note(|| format!("{} {r:?}", ["sliced", "into_sliced", "make_sliced"][k]));
                let w = r.window(n).map(|(a, b)| &m[a..b]);
                let g = match k {
                    0 => attempt(|| with_range!(r, |x| d.sliced(x))),
                    1 => {
                        let e = d.clone();
                        attempt(|| with_range!(r, |x| e.into_sliced(x)))
                    }
                    _ => {
                        let mut e = d.clone();
                        let g = attempt(|| {
                            with_range!(r, |x| {
                                e.make_sliced(x);
                            })
                        });
                        check!(g.is_some() || e.as_slice() == m, "make_sliced", "refused, left {:02x?}", e.as_slice());
                        g.map(|()| e)
                    }
                };
                match (g, w) {
                    (Some(g), Some(w)) => {
                        check!(g.as_slice() == w, "slice", "{r:?} gives {:02x?}, expected {w:02x?}", g.as_slice());
                        d = g;
                        m = w;
                    }
                    (None, None) => {}
                    (g, w) => fail("slice", format!("{r:?} of {m:02x?}: {:02x?}, expected {w:02x?}", g.as_ref().map(|x| x.as_slice()))),
                }
            }
            3 => {
                let p = c.pick(&[0, 1, n / 2, n.saturating_sub(1), n, n + 1]);
                c.note(|| format!("split_at {p}"));
                let e = d.clone();
                match attempt(|| e.split_at(p)) {
                    Some((a, b)) => {
                        check!(p <= n && a.as_slice() == &m[..p] && b.as_slice() == &m[p..], "split_at", "{p} of {n}: {:02x?} {:02x?}", a.as_slice(), b.as_slice());
                        (d, m) = if c.flag() { (a, &m[..p]) } else { (b, &m[p..]) };
                    }
                    None => check!(p > n, "split_at", "{p} of {n} refused"),
                }
            }
            4 => {
                let k = c.choose(n.min(3) + 1);
                c.note(|| format!("take_while {k}"));
                let mut i = 0;
                let t = ByteData::take_while(&mut d, |_| {
                    i += 1;
                    i <= k
                });
                check!(t.as_slice() == &m[..k], "take_while", "{:02x?}", t.as_slice());
                m = &m[k..];
            }
            _ => {
                c.note(|| "each byte".into());
                let mut v = Vec::new();
                let mut e = d.clone();
                while let Some(x) = e.next() {
                    v.push(x);
                }
                check!(v == m && e.is_empty(), "next", "{v:02x?}");
            }
        }
        c.step(hash_bytes(rep as u64, m));
    }
    check!(d.as_slice() == m, "content", "{:02x?}, expected {m:02x?}", d.as_slice());
}

/// Text accepts exactly what a str accepts.
fn text(c: &mut Ctx) {
    let n = c.choose(c.q(3, 4));
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(c.pick(&CH));
    }
    if c.flag() {
        s.push_str("0123456789abcd");
    }
    let m = stat_str(&s);
    let rep = c.pick(&[Rep::Static, Rep::Borrowed, Rep::Inline]);
    let Some(t) = make_str(rep, m) else { c.skip() };
    c.note(|| format!("{m:?} as {rep:?}"));
    let far = [m.len() + 1, usize::MAX];
    for a in (0..=m.len()).chain(far) {
        for b in (0..=m.len()).chain(far) {
            let w = m.get(a..b);
            let g = attempt(|| t.sliced(a..b));
            check!(g.as_ref().map(|x| x.as_str()) == w, "text slice", "{a}..{b} of {m:?}: {g:?}, expected {w:?}");
            let e = t.clone();
            let g = attempt(|| e.into_sliced(a..b));
            check!(g.as_ref().map(|x| x.as_str()) == w, "text slice", "into {a}..{b} of {m:?}: {g:?}, expected {w:?}");
            c.bulk(2);
        }
        let e = t.clone();
        let w = m.is_char_boundary(a).then(|| m.split_at(a));
        let g = attempt(|| e.split_at(a));
        check!(g.as_ref().map(|x| (x.0.as_str(), x.1.as_str())) == w, "text split_at", "{a} of {m:?}: {g:?}, expected {w:?}");
    }
    let mut e = t.clone();
    for ch in m.chars() {
        check!(e.next() == Some(ch), "text next", "{ch:?} missing");
    }
    check!(e.next().is_none() && e.is_empty(), "text next", "too many");
    // bytes that are no text
    for p in 0..m.len() {
        for x in [0x80u8, 0xff, 0xc0, 0xe9] {
            let mut b = m.as_bytes().to_vec();
            b[p] = x;
            let ok = core::str::from_utf8(&b).is_ok();
            let b = stat(&b);
            let g = make(rep, b).map(|d| StringData::try_from_bytedata(d));
            if let Some(g) = g {
                check!(g.is_ok() == ok, "text construct", "{b:02x?}: {}", g.is_ok());
                if let Err(e) = g {
                    check!(e.as_slice() == b, "text construct", "rejected value changed to {:02x?}", e.as_slice());
                }
            }
        }
    }
    c.step(hash_bytes(rep as u64, m.as_bytes()));
}

/// Reading through serde: what is borrowed stays, what is passing is copied if it fits inline and refused if not.
fn serde(c: &mut Ctx) {
    use ::serde::de::value::{BorrowedBytesDeserializer, BorrowedStrDeserializer, BytesDeserializer, Error, StrDeserializer};
    use ::serde::de::DeserializeSeed;
    use ::serde::Deserialize;
    use std::marker::PhantomData;
    fn data<'a>(g: Result<ByteData<'a>, Error>, m: &[u8], ok: bool, what: &str) {
        match g {
            Ok(d) => check!(ok && d.as_slice() == m, what, "{:02x?} from {m:02x?}", d.as_slice()),
            Err(e) => check!(!ok, what, "{m:02x?} refused: {e}"),
        }
    }
    fn text<'a>(g: Result<StringData<'a>, Error>, m: &str, ok: bool, what: &str) {
        match g {
            Ok(d) => check!(ok && d.as_str() == m, what, "{:?} from {m:?}", d.as_str()),
            Err(e) => check!(!ok, what, "{m:?} refused: {e}"),
        }
    }
    let n = c.choose(c.q(20, 64));
    let m = pattern(n);
    let t: String = m.iter().map(|b| (b & 0x7f) as char).collect();
    let fits = n <= 14;
    c.note(|| format!("{n} bytes"));
    data(ByteData::deserialize(BorrowedBytesDeserializer::new(m)), m, true, "borrowed bytes");
    data(ByteData::deserialize(BytesDeserializer::new(m)), m, fits, "passing bytes");
    data(ByteData::deserialize_static(BorrowedBytesDeserializer::new(m)), m, fits, "static, borrowed bytes");
    data(ByteData::deserialize_static(BytesDeserializer::new(m)), m, fits, "static, passing bytes");
    data(PhantomData::<ByteData>.deserialize(BytesDeserializer::new(m)), m, fits, "seeded bytes");
    text(StringData::deserialize(BorrowedStrDeserializer::new(&t)), &t, true, "borrowed text");
    text(StringData::deserialize(StrDeserializer::new(&t)), &t, fits, "passing text");
    text(StringData::deserialize_static(BorrowedStrDeserializer::new(&t)), &t, fits, "static, borrowed text");
    text(StringData::deserialize_static(StrDeserializer::new(&t)), &t, fits, "static, passing text");
    let d = ByteData::from_static(m);
    let j = serde_json::to_string(&StringData::from_borrowed(&t)).unwrap();
    check!(j == serde_json::to_string(&t).unwrap(), "serialize", "{j}");
    let j = serde_json::to_string(&d).unwrap();
    check!(j == serde_json::to_string(m).unwrap(), "serialize", "{j}");
    c.step(hash_bytes(n as u64, m));
}
