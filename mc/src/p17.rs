//! C17: every iterator yields the flat content exactly once, from either end.
use crate::check;
use crate::explore::*;
use crate::reps::*;
#[cfg(not(feature = "bare"))]
use bytedata::{SharedBytes, SharedBytesBuilder};
use bytedata::{ByteData, ByteQueue, StringData, StringQueue, Utf8CharIndices};
use std::fmt::Debug;

pub const SUITES: &[Suite] = &[
    Suite { prop: "C17", name: "bytes", body: bytes, leaks: true },
    Suite { prop: "C17", name: "chunks", body: chunks, leaks: true },
    #[cfg(not(feature = "bare"))]
    Suite { prop: "C17", name: "chunks_wide", body: chunks_wide, leaks: true },
    Suite { prop: "C17", name: "chars", body: chars, leaks: true },
    Suite { prop: "C17", name: "drains", body: drains, leaks: true },
    Suite { prop: "C17", name: "values", body: values, leaks: true },
    #[cfg(not(feature = "bare"))]
    Suite { prop: "C17", name: "collect", body: collect, leaks: true },
];

struct Caps<I: Iterator> {
    back: Option<fn(&mut I) -> Option<I::Item>>,
    len: Option<fn(&I) -> usize>,
    empty: Option<fn(&I) -> bool>,
    skip: Option<fn(I, usize) -> I>,
    skip_mut: Option<fn(&mut I, usize)>,
    take: Option<fn(I, usize) -> I>,
    exact: bool,
}
fn caps<I: Iterator>() -> Caps<I> {
    Caps { back: None, len: None, empty: None, skip: None, skip_mut: None, take: None, exact: false }
}

fn counts(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3, n / 2, n.saturating_sub(1), n, n + 1, usize::MAX];
    v.sort_unstable();
    v.dedup();
    v
}

/// Any mix of steps on `it`, which has to yield `want`.
fn drive<I: Iterator, K: PartialEq + Debug + Clone>(c: &mut Ctx, it: I, want: &[K], key: impl Fn(I::Item) -> K, caps: Caps<I>, depth: usize) {
    let mut it = it;
    let (mut lo, mut hi) = (0, want.len());
    let judge = |it: &I, lo: usize, hi: usize| {
        let n = hi - lo;
        let (a, b) = it.size_hint();
        if caps.exact {
            check!((a, b) == (n, Some(n)), "size_hint", "size_hint {:?} with {n} to come", (a, b));
        } else {
            check!(a <= n && b.map_or(true, |b| b >= n), "size_hint", "size_hint {:?} with {n} to come", (a, b));
        }
        if let Some(f) = caps.len {
            let g = f(it);
            check!(g == n, "len", "len {g} with {n} to come");
        }
        if let Some(f) = caps.empty {
            let g = f(it);
            check!(g == (n == 0), "is_empty", "is_empty {g} with {n} to come");
        }
    };
    judge(&it, lo, hi);
    for _ in 0..depth {
        let n = hi - lo;
        let w = |i: usize| -> Option<K> { want[lo..hi].get(i).cloned() };
        // which call
        let mut ops: Vec<u8> = vec![9, 0, 1, 2, 3, 4, 5];
        if caps.back.is_some() {
            ops.push(6);
            ops.push(7);
        }
        if caps.skip.is_some() {
            ops.push(10);
        }
        if caps.skip_mut.is_some() {
            ops.push(11);
        }
        if caps.take.is_some() {
            ops.push(12);
        }
        let op = c.pick(&ops);
        match op {
            0 => {
                c.note(|| "next".into());
                let g = it.next().map(&key);
                check!(g == w(0), "next", "next gives {g:?}, expected {:?}", w(0));
                lo += (n > 0) as usize;
            }
            1 => {
                let k = c.pick(&counts(n));
                c.note(|| format!("nth({k})"));
                let g = it.nth(k).map(&key);
                check!(g == w(k), "nth", "nth({k}) gives {g:?}, expected {:?}", w(k));
                lo = (lo + k.min(n) + 1).min(hi);
            }
            2 => {
                c.note(|| "count".into());
                let g = it.count();
                check!(g == n, "count", "count gives {g}, expected {n}");
                c.step(mix(n as u64, 2));
                return;
            }
            3 => {
                c.note(|| "last".into());
                let g = it.last().map(&key);
                let e = want[lo..hi].last().cloned();
                check!(g == e, "last", "last gives {g:?}, expected {e:?}");
                c.step(mix(n as u64, 3));
                return;
            }
            4 => {
                c.note(|| "collect".into());
                let g: Vec<K> = it.map(&key).collect();
                check!(g == want[lo..hi], "collect", "collect gives {g:?}, expected {:?}", &want[lo..hi]);
                c.step(mix(n as u64, 4));
                return;
            }
            5 => {
                let k = c.pick(&counts(n));
                c.note(|| format!("by_ref().take({k})"));
                let g: Vec<K> = it.by_ref().take(k).map(&key).collect();
                let e = &want[lo..lo + k.min(n)];
                check!(g == e, "by_ref take", "by_ref().take({k}) gives {g:?}, expected {e:?}");
                lo += k.min(n);
            }
            6 => {
                c.note(|| "next_back".into());
                let g = caps.back.unwrap()(&mut it).map(&key);
                let e = want[lo..hi].last().cloned();
                check!(g == e, "next_back", "next_back gives {g:?}, expected {e:?}");
                hi -= (n > 0) as usize;
            }
            7 => {
                c.note(|| "all from the back".into());
                let f = caps.back.unwrap();
                for i in (lo..hi).rev() {
                    let g = f(&mut it).map(&key);
                    check!(g.as_ref() == Some(&want[i]), "next_back", "next_back gives {g:?}, expected {:?}", want[i]);
                }
                hi = lo;
            }
            9 => break,
            10 => {
                let k = c.pick(&counts(n));
                c.note(|| format!("skip({k})"));
                it = caps.skip.unwrap()(it, k);
                lo += k.min(n);
            }
            11 => {
                let k = c.pick(&counts(n));
                c.note(|| format!("skip_mut({k})"));
                caps.skip_mut.unwrap()(&mut it, k);
                lo += k.min(n);
            }
            _ => {
                let k = c.pick(&counts(n));
                c.note(|| format!("take({k})"));
                it = caps.take.unwrap()(it, k);
                hi = lo + k.min(n);
            }
        }
        judge(&it, lo, hi);
        c.step(mix(lo as u64, hi as u64));
    }
    for i in lo..hi {
        let g = it.next().map(&key);
        check!(g.as_ref() == Some(&want[i]), "next", "next gives {g:?}, expected {:?}", want[i]);
        judge(&it, i + 1, hi);
    }
    for _ in 0..2 {
        check!(it.next().is_none(), "exhausted", "another element after the last");
        if let Some(f) = caps.back {
            check!(f(&mut it).is_none(), "exhausted", "another element from the back after the last");
        }
        judge(&it, hi, hi);
    }
}

const REP3: [Rep; 4] = [Rep::Static, Rep::Shared, Rep::ExtHeap, Rep::Inline];

fn queue_of(lens: &[usize]) -> (ByteQueue<'static>, Vec<u8>) {
    let n: usize = lens.iter().sum();
    let m = pattern(n);
    let mut q = ByteQueue::new();
    let mut at = 0;
    for (i, l) in lens.iter().enumerate() {
        let b = &m[at..at + l];
        at += l;
        let d = make(REP3[i % 4], b).or_else(|| make(Rep::Shared, b)).unwrap_or(ByteData::from_static(b));
        q.push_back(d);
    }
    (q, m.to_vec())
}

fn shape(c: &mut Ctx) -> Vec<usize> {
    let k = c.choose(c.q(4, 5));
    let v: Vec<usize> = (0..k).map(|_| c.pick(&[1usize, 2, 3, 16])).collect();
    c.note(|| format!("chunk lengths {v:?}"));
    v
}

fn bytes(c: &mut Ctx) {
    let lens = shape(c);
    let (q, m) = queue_of(&lens);
    let d = c.q(3, 4);
    match c.choose(2) {
        0 => {
            c.note(|| "ByteQueue::bytes".into());
            let mut k = caps::<bytedata::queue::ByteIter>();
            k.len = Some(|i| ExactSizeIterator::len(i));
            k.empty = Some(|i| i.is_empty());
            k.skip = Some(|i, n| i.skip(n));
            k.take = Some(|i, n| i.take(n));
            k.exact = true;
            drive(c, q.bytes(), &m, |x| x, k, d);
            let left: Vec<u8> = q.bytes().collect();
            check!(left == m, "source", "the queue changed");
        }
        _ => {
            c.note(|| "ByteQueue::into_bytes".into());
            let mut k = caps::<bytedata::queue::OwnedByteIter>();
            k.len = Some(|i| ExactSizeIterator::len(i));
            k.empty = Some(|i| i.is_empty());
            k.skip = Some(|i, n| i.skip(n));
            k.take = Some(|i, n| i.take(n));
            k.exact = true;
            drive(c, q.into_bytes(), &m, |x| x, k, d);
        }
    }
}

/// A text queue with the same chunk lengths, half of them pushed in front.
fn text_of(q: &ByteQueue<'static>, want: &[Vec<u8>]) -> (StringQueue<'static>, Vec<Vec<u8>>) {
    let w: Vec<Vec<u8>> = want.iter().map(|x| x.iter().map(|b| b & 0x7f).collect()).collect();
    let mut t = StringQueue::new();
    let h = q.chunk_len() / 2;
    let mk = |i: usize| {
        let s = std::str::from_utf8(&w[i]).unwrap();
        make_str(Rep::StrString, stat_str(s)).unwrap_or(StringData::from_static(stat_str(s)))
    };
    for i in h..w.len() {
        t.push_back(mk(i));
    }
    for i in (0..h).rev() {
        t.push_front(mk(i));
    }
    (t, w)
}

fn run_chunks(c: &mut Ctx, q: ByteQueue<'static>, want: &[Vec<u8>], d: usize) {
    let key = |x: ByteData<'static>| x.as_slice().to_vec();
    match c.choose(8) {
        0 | 1 => {
            let which = c.choose(3);
            c.note(|| format!("chunks/iter/&queue {which}"));
            let it = match which {
                0 => q.chunks(),
                1 => q.iter(),
                _ => (&q).into_iter(),
            };
            let mut k = caps::<bytedata::queue::LinkedIter>();
            k.len = Some(|i| ExactSizeIterator::len(i));
            k.skip = Some(|i, n| i.skip(n));
            k.skip_mut = Some(|i, n| {
                i.skip_mut(n);
            });
            k.exact = true;
            drive(c, it, want, |x| x.as_slice().to_vec(), k, d);
        }
        2 | 3 => {
            let which = c.choose(2);
            c.note(|| format!("into_iter {which}"));
            let it = if which == 0 { q.into_iter() } else { IntoIterator::into_iter(q) };
            let mut k = caps::<bytedata::queue::ChunkIter>();
            k.len = Some(|i| ExactSizeIterator::len(i));
            k.back = Some(|i| i.next_back());
            k.exact = true;
            drive(c, it, want, key, k, d);
        }
        4 | 5 => {
            c.note(|| "text chunks".into());
            let (q, want) = text_of(&q, want);
            let want = &want[..];
            let mut k = caps::<bytedata::queue::LinkedStrIter>();
            k.len = Some(|i| ExactSizeIterator::len(i));
            k.exact = true;
            drive(c, q.chunks(), want, |x| x.as_bytes().to_vec(), k, d);
        }
        _ => {
            let which = c.choose(2);
            c.note(|| format!("text into_iter {which}"));
            let (q, want) = text_of(&q, want);
            let want = &want[..];
            let it = if which == 0 { q.into_iter() } else { IntoIterator::into_iter(q) };
            let mut k = caps::<bytedata::queue::StrChunkIter>();
            k.len = Some(|i| ExactSizeIterator::len(i));
            k.back = Some(|i| i.next_back());
            k.exact = true;
            drive(c, it, want, |x| x.as_bytes().to_vec(), k, d);
        }
    }
}

fn chunks(c: &mut Ctx) {
    let lens = shape(c);
    let (q, m) = queue_of(&lens);
    let mut at = 0;
    let want: Vec<Vec<u8>> = lens
        .iter()
        .map(|l| {
            at += l;
            m[at - l..at].to_vec()
        })
        .collect();
    let d = c.q(3, 4);
    run_chunks(c, q, &want, d);
}

#[cfg(not(feature = "bare"))]
/// Queues that span nodes and wrap around within them.
fn chunks_wide(c: &mut Ctx) {
    let s = crate::p02::draw_layout(c, c.thorough);
    let q = s.q;
    let want: Vec<Vec<u8>> = {
        // by popping a copy: does not rely on the borrowing iterator
        let mut x = q.clone();
        let mut v = Vec::new();
        while let Some(d) = x.pop_front() {
            v.push(d.as_slice().to_vec());
        }
        v
    };
    check!(want.concat() == s.m, "pops", "popping gives {:02x?}", want);
    let d = c.q(2, 3);
    if c.flag() {
        if c.flag() {
            let mut k = caps::<bytedata::queue::ByteIter>();
            k.len = Some(|i| ExactSizeIterator::len(i));
            k.skip = Some(|i, n| i.skip(n));
            k.take = Some(|i, n| i.take(n));
            k.exact = true;
            drive(c, q.bytes(), &s.m, |x| x, k, d);
        } else {
            let mut k = caps::<bytedata::queue::OwnedByteIter>();
            k.len = Some(|i| ExactSizeIterator::len(i));
            k.skip = Some(|i, n| i.skip(n));
            k.take = Some(|i, n| i.take(n));
            k.exact = true;
            drive(c, q.into_bytes(), &s.m, |x| x, k, d);
        }
        return;
    }
    run_chunks(c, q, &want, d);
}

const TEXTS: &[&str] = &["", "a", "é", "aé", "日", "😀", "é😀", "a日é", "ab\u{7f}\u{80}", "\u{7ff}\u{800}\u{ffff}", "\u{d7ff}\u{e000}\u{10000}\u{10ffff}", "xé日😀y"];

fn text_queue(c: &mut Ctx) -> (StringQueue<'static>, &'static str) {
    let t = c.pick(TEXTS);
    let cuts: Vec<usize> = t.char_indices().map(|x| x.0).skip(1).collect();
    let mask = c.choose(1 << cuts.len());
    let mut q = StringQueue::new();
    let mut from = 0;
    let mut k = 0;
    for (i, &p) in cuts.iter().chain([t.len()].iter()).enumerate() {
        if p > from && (p == t.len() || mask >> i & 1 == 1) {
            let d = make_str(REP3[k % 4], &t[from..p]).or_else(|| make_str(Rep::Shared, &t[from..p])).unwrap_or(StringData::from_static(&t[from..p]));
            q.push_back(d);
            from = p;
            k += 1;
        }
    }
    c.note(|| format!("{t:?} in {k} chunk(s), mask {mask:b}"));
    (q, t)
}

fn chars(c: &mut Ctx) {
    let (q, t) = text_queue(c);
    let d = c.q(3, 4);
    let w: Vec<char> = t.chars().collect();
    match c.choose(5) {
        0 => {
            c.note(|| "chars".into());
            drive(c, q.chars(), &w, |x| x, caps(), d)
        }
        1 => {
            c.note(|| "chars_indecies".into());
            let w: Vec<(usize, char)> = t.char_indices().collect();
            drive(c, q.chars_indecies(), &w, |x| x, caps(), d)
        }
        2 => {
            c.note(|| "into_chars".into());
            drive(c, q.into_chars(), &w, |x| x, caps(), d)
        }
        3 => {
            c.note(|| "text queue bytes".into());
            let mut k = caps::<bytedata::queue::ByteIter>();
            k.len = Some(|i| ExactSizeIterator::len(i));
            k.skip = Some(|i, n| i.skip(n));
            k.take = Some(|i, n| i.take(n));
            k.exact = true;
            drive(c, q.bytes(), t.as_bytes(), |x| x, k, d)
        }
        _ => {
            c.note(|| "text queue into_bytes".into());
            let mut k = caps::<bytedata::queue::OwnedByteIter>();
            k.len = Some(|i| ExactSizeIterator::len(i));
            k.skip = Some(|i, n| i.skip(n));
            k.take = Some(|i, n| i.take(n));
            k.exact = true;
            drive(c, q.into_bytes(), t.as_bytes(), |x| x, k, d)
        }
    }
}

fn drains(c: &mut Ctx) {
    if c.flag() {
        let lens = {
            let k = c.choose(5);
            let v: Vec<usize> = (0..k).map(|_| c.pick(&[1usize, 2, 4])).collect();
            c.note(|| format!("chunk lengths {v:?}"));
            v
        };
        let (mut q, mut m) = queue_of(&lens);
        let a = c.choose(m.len() + 1);
        let b = a + c.choose(m.len() - a + 1);
        c.note(|| format!("drain({a}..{b})"));
        let mut k = caps::<bytedata::queue::DrainBytes>();
        k.len = Some(|i| ExactSizeIterator::len(i));
        k.exact = true;
        let d = c.q(2, 3);
        drive(c, q.drain(a..b), &m[a..b], |x| x, k, d);
        m.drain(a..b);
        crate::p02::same(&q, &m, "after drain");
    } else {
        let (mut q, t) = text_queue(c);
        let ps: Vec<usize> = (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect();
        let a = c.pick(&ps);
        let b = c.pick(&ps);
        if b < a {
            c.skip()
        }
        c.note(|| format!("drain({a}..{b})"));
        let w: Vec<char> = t[a..b].chars().collect();
        let d = c.q(2, 3);
        drive(c, q.drain(a..b), &w, |x| x, caps(), d);
        let mut m = t.to_string();
        m.drain(a..b);
        crate::p02::sq_same(&q, &m, "after drain");
    }
}

/// Values that are iterators themselves.
fn values(c: &mut Ctx) {
    let d = c.q(3, 4);
    match c.choose(5) {
        0 => {
            let n = c.pick(&[0usize, 1, 2, 3, 14, 15, 20]);
            let rep = c.pick(REPS);
            c.note(|| format!("{n} bytes as {rep:?}, ByteData as iterator"));
            let Some(x) = make(rep, pattern(n)) else { c.skip() };
            let keep = x.clone();
            drive(c, x, pattern(n), |x| x, caps(), d);
            check!(keep.as_slice() == pattern(n), "clone", "the clone changed");
        }
        1 => {
            let t = c.pick(TEXTS);
            let rep = c.pick(REPS);
            c.note(|| format!("{t:?} as {rep:?}, StringData as iterator"));
            let Some(x) = make_str(rep, t) else { c.skip() };
            let keep = x.clone();
            let w: Vec<char> = t.chars().collect();
            drive(c, x, &w, |x| x, caps(), d);
            check!(keep.as_str() == t, "clone", "the clone changed");
        }
        2 => {
            let t = c.pick(TEXTS);
            let rep = c.pick(REPS);
            let Some(x) = make_str(rep, t) else { c.skip() };
            let w: Vec<char> = t.chars().collect();
            let mut k = caps::<std::str::Chars>();
            k.back = Some(|i| i.next_back());
            c.note(|| format!("{t:?} as {rep:?}, iter"));
            let it = if c.flag() { x.iter() } else { (&x).into_iter() };
            drive(c, it, &w, |x| x, k, d);
        }
        3 => {
            let t = c.pick(TEXTS);
            let w: Vec<(usize, char)> = t.char_indices().collect();
            c.note(|| format!("{t:?} Utf8CharIndices"));
            drive(c, Utf8CharIndices::new(t.as_bytes()), &w, |x| x.expect("valid"), caps(), d);
        }
        _ => {
            let t = c.pick(TEXTS);
            let rep = c.pick(REPS);
            let Some(x) = make_str(rep, t) else { c.skip() };
            c.note(|| format!("{t:?} as {rep:?}, char_indices of a slice"));
            let w: Vec<(usize, char)> = t.char_indices().collect();
            let mut k = caps::<std::str::CharIndices>();
            k.back = Some(|i| i.next_back());
            drive(c, x.as_str().char_indices(), &w, |x| x, k, d);
        }
    }
}

/// An iterator that is right about what it yields and says what it is told to say about how much.
struct Says<I>(I, (usize, Option<usize>));
impl<I: Iterator> Iterator for Says<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let x = self.0.next();
        if x.is_some() {
            self.1 = (self.1 .0.saturating_sub(1), self.1 .1.map(|x| x.saturating_sub(1)));
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}

/// Collecting from iterators, whatever (truthful) bounds they claim.
#[cfg(not(feature = "bare"))]
fn collect(c: &mut Ctx) {
    let n = c.pick(&[0usize, 1, 2, 8, 14, 15, 33]);
    let m = pattern(n);
    let his = [None, Some(n), Some(n + 1), Some(n + 100), Some(1 << 20), Some(u32::MAX as usize), Some(u32::MAX as usize * 8), Some(usize::MAX / 2), Some(usize::MAX)];
    let lo = c.pick(&[0usize, n / 2, n]);
    let hi = c.pick(&his);
    let hint = (lo, hi);
    let what = c.choose(9);
    c.note(|| format!("collect {n} with size hint {hint:?}, way {what}"));
    let strs: Vec<&'static str> = m.iter().map(|x| ["a", "é", "日本", "😀", ""][*x as usize % 5]).collect();
    let flat: String = strs.concat();
    let slices: Vec<&'static [u8]> = strs.iter().map(|x| x.as_bytes()).collect();
    match what {
        0 => {
            let d: ByteData = Says(m.iter().copied(), hint).collect();
            check!(d.as_slice() == m, "collect", "ByteData collects {d:?}");
        }
        1 => {
            let mut b = SharedBytesBuilder::new();
            b.extend(Says(m.iter().copied(), hint));
            check!(b.as_slice() == m, "collect", "builder extends to {:02x?}", b.as_slice());
        }
        2 => {
            let mut b = SharedBytesBuilder::new();
            b.extend(Says(m.iter(), hint));
            check!(b.as_slice() == m, "collect", "builder extends to {:02x?}", b.as_slice());
        }
        3 => {
            let mut b = SharedBytesBuilder::new();
            b.extend(Says(slices.iter().copied(), hint));
            check!(b.as_slice() == flat.as_bytes(), "collect", "builder extends to {:02x?}", b.as_slice());
        }
        4 => {
            let mut b = SharedBytesBuilder::new();
            b.extend(Says(strs.iter().copied(), hint));
            check!(b.as_slice() == flat.as_bytes(), "collect", "builder extends to {:02x?}", b.as_slice());
        }
        5 => {
            let q: ByteQueue = Says(slices.iter().map(|x| ByteData::from_static(x)), hint).collect();
            crate::p02::same(&q, flat.as_bytes(), "collect");
        }
        6 => {
            let q: StringQueue = Says(strs.iter().map(|x| StringData::from_static(x)), hint).collect();
            crate::p02::sq_same(&q, &flat, "collect");
        }
        7 => {
            let mut q = ByteQueue::new();
            q.extend(Says(slices.iter().copied(), hint));
            q.extend(Says(strs.iter().copied(), hint));
            crate::p02::same(&q, flat.repeat(2).as_bytes(), "collect");
        }
        _ => {
            let d: SharedBytes = m.to_vec().into();
            check!(d.as_slice() == m, "collect", "SharedBytes");
        }
    }
    c.step(n as u64);
}
