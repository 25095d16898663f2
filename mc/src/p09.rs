//! C09: equality, ordering and hashing depend on content only.
use crate::check;
use crate::explore::*;
use crate::reps::*;
#[cfg(not(feature = "bare"))]
use bytedata::SharedBytes;
use bytedata::{ByteData, ByteQueue, StringData, StringQueue};
use core::cmp::Ordering;
use std::borrow::Borrow;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};

pub const SUITES: &[Suite] = &[
    Suite { prop: "C09", name: "data_pairs", body: data_pairs, leaks: true },
    Suite { prop: "C09", name: "queue_pairs", body: queue_pairs, leaks: true },
    Suite { prop: "C09", name: "text_pairs", body: text_pairs, leaks: true },
    Suite { prop: "C09", name: "mixed_pairs", body: mixed_pairs, leaks: true },
    Suite { prop: "C09", name: "long", body: long, leaks: true },
    Suite { prop: "C09", name: "hash", body: hashes, leaks: true },
    Suite { prop: "C09", name: "laws", body: laws, leaks: true },
];

fn pc<A: PartialOrd<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> Option<Ordering> {
    a.partial_cmp(b)
}
fn oc<A: Ord + ?Sized>(a: &A, b: &A) -> Ordering {
    Ord::cmp(a, b)
}

fn byte_contents(thorough: bool) -> Vec<&'static [u8]> {
    crate::alloc::untracked(|| {
        let al = [0u8, b'a', 0xff];
        let mut out: Vec<Vec<u8>> = vec![vec![]];
        let mut last = out.clone();
        for _ in 0..if thorough { 4 } else { 3 } {
            let mut next = vec![];
            for v in &last {
                for x in al {
                    let mut w = v.clone();
                    w.push(x);
                    next.push(w);
                }
            }
            out.extend(next.iter().cloned());
            last = next;
        }
        out.iter().map(|v| stat(v)).collect()
    })
}
fn texts() -> &'static [&'static str] {
    &["", "\0", "a", "b", "é", "aa", "ab", "aé", "éa", "a\0", "\u{7f}", "\u{10ffff}", "€", "abc", "ab€", "aaa", "A", "z\u{800}"]
}

/// Both directions of every comparison two operands offer.
macro_rules! eqs {
    ($a:expr, $b:expr, $w:expr, $what:expr) => {{
        check!(($a == $b) == ($w == Ordering::Equal), $what, "== gives {}, contents compare {:?}", $a == $b, $w);
        check!(($a != $b) == ($w != Ordering::Equal), $what, "!= gives {}, contents compare {:?}", $a != $b, $w);
    }};
}
macro_rules! ords {
    ($a:expr, $b:expr, $w:expr, $what:expr) => {{
        let g = pc(&$a, &$b);
        check!(g == Some($w), $what, "partial_cmp gives {g:?}, contents compare {:?}", $w);
        check!(($a < $b) == ($w == Ordering::Less) && ($a <= $b) == ($w != Ordering::Greater) && ($a > $b) == ($w == Ordering::Greater) && ($a >= $b) == ($w != Ordering::Less), $what, "operators disagree, contents compare {:?}", $w);
    }};
}
macro_rules! both {
    ($a:expr, $b:expr, $w:expr, $what:expr) => {{
        eqs!($a, $b, $w, $what);
        eqs!($b, $a, $w, $what);
    }};
}
macro_rules! both_ord {
    ($a:expr, $b:expr, $w:expr, $what:expr) => {{
        both!($a, $b, $w, $what);
        ords!($a, $b, $w, $what);
        ords!($b, $a, $w.reverse(), $what);
    }};
}

fn data_pairs(c: &mut Ctx) {
    let cs = byte_contents(c.thorough);
    let x = c.pick(&cs);
    let ra = c.pick(REPS);
    let Some(a) = make(ra, x) else { c.skip() };
    let y = c.pick(&cs);
    let rb = c.pick(if c.thorough { REPS } else { CORE });
    let Some(b) = make(rb, y) else { c.skip() };
    crate::alloc::untracked(|| drop(cs));
    let w = x.cmp(y);
    c.note(|| format!("{ra:?} {x:02x?} against {rb:?} {y:02x?}"));
    both_ord!(a, b, w, "data with data");
    check!(oc(&a, &b) == w && oc(&b, &a) == w.reverse(), "data with data", "cmp {:?}", oc(&a, &b));
    check!(a.eq_const(&b) == (x == y) && a.eq_slice(y) == (x == y), "eq_const", "{} {}", a.eq_const(&b), a.eq_slice(y));
    both_ord!(a, *y, w, "data with slice");
    both!(a, y, w, "data with slice reference");
    let v = y.to_vec();
#[cfg(not(feature = "bare"))]
    both_ord!(a, v, w, "data with vector");
    #[cfg(not(feature = "bare"))]
    {
    let s = SharedBytes::from(b);
    // shared bytes: equality with slices and vectors in one direction or both
    check!((s == *x) == (x == y) && (*x == s) == (x == y) && (s == x) == (x == y), "shared with slice", "{s:02x?} {x:02x?}");
    check!(pc(&s, x) == Some(w.reverse()) && pc(x, &s) == Some(w), "shared with slice", "order");
    check!(PartialOrd::<&[u8]>::partial_cmp(&s, &x) == Some(w.reverse()), "shared with slice", "order");
    let t = SharedBytes::from(a);
    check!((s == t) == (x == y) && oc(&t, &s) == w && pc(&t, &s) == Some(w), "shared with shared", "{:?}", oc(&t, &s));
    check!(t.eq_const(&s) == (x == y) && t.eq_slice(y) == (x == y), "shared eq_const", "");
    check!((t == v) == (x == y) && (v == t) == (x == y) && pc(&t, &v) == Some(w) && pc(&v, &t) == Some(w.reverse()), "shared with vector", "");
    }
    c.step(mix(hash_bytes(ra as u64, x), hash_bytes(rb as u64, y)));
}

/// `m` cut into chunks as the bits of `cut` say.
fn chunked(m: &'static [u8], cut: usize, rot: usize) -> ByteQueue<'static> {
    let mut q = ByteQueue::new();
    let mut st = 0;
    let mut k = 0;
    for i in 1..=m.len() {
        if i == m.len() || cut >> (i - 1) & 1 == 1 {
            let rep = [Rep::Static, Rep::Shared, Rep::Borrowed, Rep::ExtHeap][(rot + k) % 4];
            q.push_back(make(rep, stat(&m[st..i])).unwrap_or(ByteData::from_static(stat(&m[st..i]))));
            st = i;
            k += 1;
        }
    }
    q
}
fn pick_queue(c: &mut Ctx, m: &'static [u8]) -> ByteQueue<'static> {
    let cut = if m.len() > 1 { c.choose(1 << (m.len() - 1)) } else { 0 };
    chunked(m, cut, cut)
}

fn queue_pairs(c: &mut Ctx) {
    let cs = byte_contents(c.thorough);
    let x = c.pick(&cs);
    let a = pick_queue(c, x);
    let y = c.pick(&cs);
    let b = pick_queue(c, y);
    crate::alloc::untracked(|| drop(cs));
    let w = x.cmp(y);
    c.note(|| format!("queue {:02x?} against queue {:02x?}", a.chunks().map(|x| x.as_slice()).collect::<Vec<_>>(), b.chunks().map(|x| x.as_slice()).collect::<Vec<_>>()));
    both_ord!(a, b, w, "queue with queue");
    check!(oc(&a, &b) == w, "queue with queue", "cmp {:?}", oc(&a, &b));
    both_ord!(a, *y, w, "queue with slice");
    both!(a, y, w, "queue with slice reference");
    let v = y.to_vec();
    #[cfg(not(feature = "bare"))]
    both_ord!(a, v, w, "queue with vector");
    let d = ByteData::from_borrowed(y);
    both!(a, d, w, "queue with data");
    if let Ok(s) = core::str::from_utf8(y) {
        both!(a, *s, w, "queue with str");
        both!(a, s, w, "queue with str reference");
        let t = StringData::from_borrowed(s);
        both!(a, t, w, "queue with text");
    }
    c.step(mix(hash_bytes(a.chunk_len() as u64, x), hash_bytes(b.chunk_len() as u64, y)));
}

fn char_chunked(s: &'static str, cut: usize) -> StringQueue<'static> {
    let mut q = StringQueue::new();
    let mut st = 0;
    let idx: Vec<usize> = s.char_indices().map(|x| x.0).skip(1).chain([s.len()]).collect();
    for (k, i) in idx.iter().enumerate() {
        if *i == s.len() || cut >> k & 1 == 1 {
            if *i > st {
                let rep = [Rep::Static, Rep::Shared, Rep::Borrowed, Rep::ExtHeap][k % 4];
                q.push_back(make_str(rep, stat_str(&s[st..*i])).unwrap_or(StringData::from_static(stat_str(&s[st..*i]))));
                st = *i;
            }
        }
    }
    q
}
fn pick_squeue(c: &mut Ctx, s: &'static str) -> StringQueue<'static> {
    let n = s.chars().count();
    let cut = if n > 1 { c.choose(1 << (n - 1)) } else { 0 };
    char_chunked(s, cut)
}

fn text_pairs(c: &mut Ctx) {
    let x = c.pick(texts());
    let ra = c.pick(REPS);
    let Some(a) = make_str(ra, x) else { c.skip() };
    let y = c.pick(texts());
    let rb = c.pick(CORE);
    let Some(b) = make_str(rb, y) else { c.skip() };
    let w = x.cmp(y);
    c.note(|| format!("{ra:?} {x:?} against {rb:?} {y:?}"));
    both_ord!(a, b, w, "text with text");
    check!(oc(&a, &b) == w, "text with text", "cmp {:?}", oc(&a, &b));
    check!(a.eq_const(&b) == (x == y) && a.eq_slice(y.as_bytes()) == (x == y) && a.eq_str(y) == (x == y), "text eq_const", "");
    both_ord!(a, *y, w, "text with str");
    both!(a, y, w, "text with str reference");
    let yb = y.as_bytes();
    both_ord!(a, *yb, w, "text with slice");
    both!(a, yb, w, "text with slice reference");
    let v = yb.to_vec();
    #[cfg(not(feature = "bare"))]
    both_ord!(a, v, w, "text with vector");
    let v = y.to_string();
    #[cfg(not(feature = "bare"))]
    both_ord!(a, v, w, "text with string");
    let d = make(rb, yb).unwrap_or_else(|| ByteData::from_borrowed(yb));
    both_ord!(a, d, w, "text with data");
    c.step(mix(hash_bytes(ra as u64, x.as_bytes()), hash_bytes(rb as u64, y.as_bytes())));
}

fn mixed_pairs(c: &mut Ctx) {
    let x = c.pick(texts());
    let a = pick_squeue(c, x);
    let y = c.pick(texts());
    let b = pick_squeue(c, y);
    let w = x.cmp(y);
    c.note(|| format!("text queue {:?} against {:?}", a.chunks().collect::<Vec<_>>(), b.chunks().collect::<Vec<_>>()));
    both_ord!(a, b, w, "text queue with text queue");
    check!(oc(&a, &b) == w, "text queue with text queue", "cmp {:?}", oc(&a, &b));
    let bq = b.as_bytequeue();
    both_ord!(a, *bq, w, "text queue with queue");
    both_ord!(a, *y, w, "text queue with str");
    both!(a, y, w, "text queue with str reference");
    ords!(a, y, w, "text queue with str reference");
    let yb = y.as_bytes();
    both_ord!(a, *yb, w, "text queue with slice");
    both!(a, yb, w, "text queue with slice reference");
    ords!(a, yb, w, "text queue with slice reference");
    let t = StringData::from_borrowed(y);
    both_ord!(a, t, w, "text queue with text");
    let d = ByteData::from_borrowed(yb);
    both_ord!(a, d, w, "text queue with data");
    // byte queues with everything the text queue offers
    let aq = a.as_bytequeue();
    both!(*aq, t, w, "queue with text");
    both!(*aq, d, w, "queue with data");
    both!(*aq, *y, w, "queue with str");
    c.step(mix(hash_bytes(a.chunk_len() as u64, x.as_bytes()), hash_bytes(b.chunk_len() as u64, yb)));
}

/// Long values differing at one place only, over every boundary position.
fn long(c: &mut Ctx) {
    let n = c.pick(&[13usize, 14, 15, 16, 33]);
    let x = pattern(n);
    let p = c.choose(n + 2);
    let y: &'static [u8] = crate::alloc::untracked(|| {
        let mut y = x.to_vec();
        if p < n {
            y[p] ^= 0x81;
        } else if p == n {
            y.pop();
        }
        stat(&y)
    });
    let w = x.cmp(y);
    let ra = c.pick(REPS);
    let (Some(a), Some(b)) = (make(ra, x), make(Rep::Borrowed, y)) else { c.skip() };
    let rb = c.pick(CORE);
    let Some(b2) = make(rb, y) else { c.skip() };
    c.note(|| format!("{n} bytes as {ra:?}, second differs at {p} as {rb:?}"));
    both_ord!(a, b, w, "data with data");
    both_ord!(a, b2, w, "data with data");
    let k = c.pick(&[1, n / 2, n - 1, p.clamp(1, n - 1)]);
    let mut qa = ByteQueue::new();
    qa.push_back(a.sliced(..k));
    qa.push_back(a.sliced(k..));
    let l = c.pick(&[1, y.len() / 2, k.min(y.len())]);
    let mut qb = ByteQueue::new();
    qb.push_back(b2.sliced(..l));
    qb.push_back(b2.sliced(l..));
    both_ord!(qa, qb, w, "queue with queue");
    both_ord!(qa, *y, w, "queue with slice");
    both!(qa, b2, w, "queue with data");
    c.step(mix(hash_bytes(ra as u64, x), hash_bytes((rb as u64) << 32 | (k * 64 + l) as u64, y)));
}

/// Sees where one `write` ends and the next begins.
#[derive(Default)]
pub struct Picky(u64);
impl Hasher for Picky {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        self.0 = hash_bytes(self.0.wrapping_add(0x51), b);
    }
    fn write_u8(&mut self, b: u8) {
        self.0 = mix(self.0, b as u64 + 3);
    }
    fn write_usize(&mut self, b: usize) {
        self.0 = mix(self.0, b as u64 + 0x1234567);
    }
}
fn h2<T: Hash + ?Sized>(t: &T) -> (u64, u64) {
    let mut a = DefaultHasher::new();
    t.hash(&mut a);
    let mut b = Picky::default();
    t.hash(&mut b);
    (a.finish(), b.finish())
}

fn hashes(c: &mut Ctx) {
    let k = c.choose(3);
    match k {
        0 => {
            let cs = byte_contents(c.thorough);
            let x = c.pick(&cs);
            crate::alloc::untracked(|| drop(cs));
            let x = if c.flag() { x } else { pattern(x.len() + 13) };
            let r = c.pick(REPS);
            let Some(d) = make(r, x) else { c.skip() };
            c.note(|| format!("data {x:02x?} as {r:?}"));
            let b: &[u8] = d.borrow();
            check!(b == x, "borrow", "{b:02x?}");
            check!(h2(&d) == h2(x), "hash", "data {x:02x?} does not hash as its slice");
            let mut m: HashMap<ByteData, u32> = HashMap::new();
            m.insert(d.clone(), 7);
            check!(m.get(x) == Some(&7), "lookup", "not found by slice");
            let mut m: BTreeMap<ByteData, u32> = BTreeMap::new();
            m.insert(d.clone(), 8);
            check!(m.get(x) == Some(&8), "lookup", "not found by slice in an ordered map");
            #[cfg(not(feature = "bare"))]
            let (s, s2) = (SharedBytes::from(d), SharedBytes::from_slice_aligned(x, 64));
            #[cfg(not(feature = "bare"))]
            check!(s == s2 && h2(&s) == h2(&s2), "hash", "equal shared bytes hash differently");
            c.step(hash_bytes(r as u64, x));
        }
        1 => {
            let x = c.pick(texts());
            let x = if c.flag() { x } else { "longer text, über fifteen bytes" };
            let r = c.pick(REPS);
            let Some(d) = make_str(r, x) else { c.skip() };
            c.note(|| format!("text {x:?} as {r:?}"));
            let b: &str = d.borrow();
            check!(b == x, "borrow", "{b:?}");
            check!(h2(&d) == h2(x), "hash", "text {x:?} does not hash as its str");
            let mut m: HashMap<StringData, u32> = HashMap::new();
            m.insert(d.clone(), 7);
            check!(m.get(x) == Some(&7), "lookup", "not found by str");
            let mut m: BTreeMap<StringData, u32> = BTreeMap::new();
            m.insert(d, 8);
            check!(m.get(x) == Some(&8), "lookup", "not found by str in an ordered map");
            c.step(hash_bytes(r as u64, x.as_bytes()));
        }
        _ => {
            let n = c.pick(&[0usize, 1, 2, 3, 5, 7]);
            let x = pattern(n);
            let a = pick_queue(c, x);
            let b = pick_queue(c, x);
            c.note(|| format!("queues {:02x?} and {:02x?}", a.chunks().map(|x| x.as_slice()).collect::<Vec<_>>(), b.chunks().map(|x| x.as_slice()).collect::<Vec<_>>()));
            check!(a == b, "equality", "equal content, unequal queues");
            check!(h2(&a) == h2(&b), "hash", "equal queues hash differently");
            let mut m: HashMap<ByteQueue, u32> = HashMap::new();
            m.insert(a, 7);
            check!(m.get(&b) == Some(&7), "lookup", "equal queue not found");
            c.step(hash_bytes(b.chunk_len() as u64, x));
        }
    }
}

/// Reflexive, symmetric, transitive over triples of different kinds, as sorting relies on it.
fn laws(c: &mut Ctx) {
    let cs = [&b""[..], b"a", b"ab", b"b", b"a\0"];
    let mut v = Vec::new();
    for _ in 0..3 {
        let x = c.pick(&cs);
        let k = if x.len() > 1 { c.choose(2) } else { 0 };
        v.push((x, chunked(x, k, k)));
    }
    for (_, a) in &v {
        check!(a == a && oc(a, a) == Ordering::Equal, "reflexive", "");
        for (_, b) in &v {
            check!((a == b) == (b == a) && oc(a, b) == oc(b, a).reverse(), "symmetric", "");
            check!((a == b) == (oc(a, b) == Ordering::Equal), "consistent", "");
            for (_, d) in &v {
                if a <= b && b <= d {
                    check!(a <= d, "transitive", "");
                }
                if a == b && b == d {
                    check!(a == d, "transitive", "");
                }
            }
        }
    }
    let mut s: Vec<&ByteQueue> = v.iter().map(|x| &x.1).collect();
    s.sort();
    let mut w: Vec<&[u8]> = v.iter().map(|x| x.0).collect();
    w.sort();
    check!(s.iter().zip(&w).all(|(a, b)| **a == **b), "sort", "");
    c.step(w.iter().fold(9, |h, x| hash_bytes(h, x)));
}
