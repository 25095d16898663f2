//! C19: bad positions and ranges are rejected, exactly where the standard slice rejects them.
use crate::explore::*;
use crate::p02;
use crate::p04::all_ranges;
use crate::ranges::*;
use crate::reps::*;
use crate::{check, with_range};
use bytedata::{ByteChunk, ByteData, ByteQueue, SharedBytes, SharedBytesBuilder};
use core::ops::Bound;

pub const SUITES: &[Suite] = &[
    Suite { prop: "C19", name: "bytes_range", body: bytes_range, leaks: true },
    Suite { prop: "C19", name: "bytes_pos", body: bytes_pos, leaks: true },
    Suite { prop: "C19", name: "shared", body: shared_bytes, leaks: true },
    Suite { prop: "C19", name: "chunk", body: chunk, leaks: true },
    Suite { prop: "C19", name: "queue_range", body: queue_range, leaks: true },
    Suite { prop: "C19", name: "queue_pos", body: queue_pos, leaks: true },
    Suite { prop: "C19", name: "text_range", body: text_range, leaks: true },
    Suite { prop: "C19", name: "builder", body: builder, leaks: true },
    Suite { prop: "C19", name: "twice", body: twice, leaks: true },
];

/// Positions at every place of a value of length n and at the far end of the integer range.
pub fn positions(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=n + 2).collect();
    let max = usize::MAX;
    v.extend_from_slice(&[15, 16, 255, 256, 257, 1 << 16, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + n, max / 2, max / 2 + 1, max - n, (max - n).saturating_add(1), max - 16, max - 8, max - 1, max]);
    v.sort();
    v.dedup();
    v
}

fn few(n: usize) -> Vec<usize> {
    let max = usize::MAX;
    let mut v = vec![0, 1, n / 2, n.saturating_sub(1), n, n + 1, 1 << 32, (1 << 32) + 1, max / 2, max - n, max - 1, max];
    v.sort();
    v.dedup();
    v
}

pub fn bound_pairs(pos: &[usize]) -> Vec<(Bound<usize>, Bound<usize>)> {
    let mut b = vec![Bound::Unbounded];
    for &p in pos {
        b.extend([Bound::Included(p), Bound::Excluded(p)]);
    }
    b.iter().flat_map(|&x| b.iter().map(move |&y| (x, y))).collect()
}

pub fn window(b: (Bound<usize>, Bound<usize>), n: usize) -> Option<(usize, usize)> {
    let a = match b.0 {
        Bound::Unbounded => 0,
        Bound::Included(a) => a,
        Bound::Excluded(a) => a.checked_add(1)?,
    };
    let e = match b.1 {
        Bound::Unbounded => n,
        Bound::Excluded(a) => a,
        Bound::Included(a) => a.checked_add(1)?,
    };
    (a <= e && e <= n).then_some((a, e))
}

/// Compares the outcome of a call with what a plain slice does.
pub fn judge(got: Option<&[u8]>, want: Option<&[u8]>, what: &str, arg: impl Fn() -> String) {
    match (got, want) {
        (None, None) => {}
        (Some(g), Some(w)) => check!(g == w, what, "{} gave {g:02x?}, a slice gives {w:02x?}", arg()),
        (Some(g), None) => fail(&format!("{what} accepted"), crate::alloc::untracked(|| format!("{} gave {} bytes; a slice refuses it", arg(), g.len()))),
        (None, Some(w)) => fail(&format!("{what} refused"), crate::alloc::untracked(|| format!("{} panicked; a slice gives {} bytes", arg(), w.len()))),
    }
}

fn intact(d: &ByteData<'_>, m: &[u8], what: &str) {
    check!(d.as_slice() == m && d.len() == m.len(), what, "receiver is {:02x?} ({} bytes) afterwards, expected {m:02x?}", d.as_slice(), d.len());
}

const LENS: [usize; 7] = [0, 1, 5, 14, 15, 16, 30];

fn draw(c: &mut Ctx, lens: &[usize]) -> (ByteData<'static>, &'static [u8]) {
    let n = c.pick(lens);
    let rep = c.pick(REPS);
    let s = pattern(n);
    c.tag = rep as u64;
    c.note(|| format!("{rep:?} of {n} bytes"));
    (make(rep, s).unwrap_or_else(|| c.skip()), s)
}

/// A range argument in one of the standard shapes, or as a pair of bounds.
fn slice_by(k: usize, d: &mut ByteData<'static>, m: &[u8], r: (Bound<usize>, Bound<usize>), shape: Option<R>) -> Option<Vec<u8>> {
    macro_rules! go {
        ($x:expr) => {
            match k {
                0 => attempt(|| d.sliced($x)).map(|e| e.as_slice().to_vec()),
                1 => {
                    let e = d.clone();
                    attempt(|| e.into_sliced($x)).map(|e| e.as_slice().to_vec())
                }
                2 => {
                    let mut e = d.clone();
                    let ok = attempt(|| e.make_sliced($x)).is_some();
                    if !ok {
                        intact(&e, m, "after refused make_sliced");
                        // and still fully usable
                        e.make_sliced(..);
                        intact(&e, m, "after refused make_sliced");
                    }
                    ok.then(|| e.as_slice().to_vec())
                }
                _ => {
                    let e = d.clone();
                    attempt(|| e.into_shared_range($x)).map(|e| e.as_slice().to_vec())
                }
            }
        };
    }
    match shape {
        None => go!(r),
        Some(s) => with_range!(s, |x| go!(x.clone())),
    }
}

fn bytes_range(c: &mut Ctx) {
    let lens = c.q(&[0usize, 5, 14, 15, 20][..], &LENS[..]);
    let (mut d, m) = draw(c, lens);
    let k = c.choose(4);
    let n = m.len();
    let names = ["sliced", "into_sliced", "make_sliced", "into_shared_range"];
    let shaped = c.flag();
    if shaped {
        let pos = if n <= 5 { positions(n) } else { few(n) };
        let a = c.pick(&pos);
        let b = c.pick(&pos);
        let mut rs = vec![R::Half(a, b), R::Incl(a, b)];
        if a == b {
            rs.extend([R::From(a), R::To(a), R::ToIncl(a), R::Full]);
        }
        for r in rs {
            c.note(|| format!("{} {r:?}", names[k]));
            let w = r.window(n).map(|(a, b)| &m[a..b]);
            let g = slice_by(k, &mut d, m, r.bounds(), Some(r));
            judge(g.as_deref(), w, names[k], || format!("{r:?} of {n} bytes"));
            intact(&d, m, names[k]);
            c.step(mix(a as u64, mix(b as u64, k as u64)));
        }
    } else {
        let bp = bound_pairs(&[0, n, n + 1, usize::MAX]);
        let r = c.pick(&bp);
        c.note(|| format!("{} {r:?}", names[k]));
        let w = window(r, n).map(|(a, b)| &m[a..b]);
        let g = slice_by(k, &mut d, m, r, None);
        judge(g.as_deref(), w, names[k], || format!("{r:?} of {n} bytes"));
        intact(&d, m, names[k]);
        c.step(k as u64);
    }
}

fn bytes_pos(c: &mut Ctx) {
    let (mut d, m) = draw(c, &LENS);
    let n = m.len();
    let pos = positions(n);
    let p = c.pick(&pos);
    c.note(|| format!("position {p}"));
    judge(attempt(|| d[p]).as_ref().map(core::slice::from_ref), m.get(p).map(core::slice::from_ref), "index", || format!("[{p}] of {n} bytes"));
    let e = d.clone();
    match attempt(|| e.split_at(p)) {
        Some((a, b)) => {
            check!(p <= n, "split_at accepted", "{p} of {n} bytes");
            check!(a.as_slice() == &m[..p] && b.as_slice() == &m[p..], "split_at", "at {p}");
        }
        None => check!(p > n, "split_at refused", "{p} of {n} bytes"),
    }
    match attempt(|| d.take_bytes(p)) {
        Some(t) => {
            check!(p <= n, "take_bytes accepted", "{p} of {n} bytes");
            check!(t.as_slice() == &m[..p], "take_bytes", "{p}");
            intact(&d, &m[p..], "take_bytes");
        }
        None => {
            check!(p > n, "take_bytes refused", "{p} of {n} bytes");
            intact(&d, m, "after refused take_bytes");
        }
    }
    c.step(mix(p as u64, n as u64));
}

fn shared_bytes(c: &mut Ctx) {
    let n = c.pick(&[0usize, 1, 5, 20]);
    let rep = c.pick(&[Rep::Shared, Rep::SharedMid, Rep::SharedAl64, Rep::SharedSpare, Rep::SharedUnaligned]);
    let m = pattern(n);
    let mut s: SharedBytes = shared(rep, m).unwrap();
    c.note(|| format!("{rep:?} of {n} bytes"));
    let k = c.choose(3);
    if k == 0 {
        // offset and length
        let pos = positions(n);
        let a = c.pick(&pos);
        let b = c.pick(&pos);
        let w = a.checked_add(b).and_then(|e| m.get(a..e));
        c.note(|| format!("offset {a} length {b}"));
        let arg = || format!("(offset {a}, length {b}) of {n} bytes");
        let g = attempt(|| s.sliced(a, b));
        judge(g.as_ref().map(|x| x.as_slice()), w, "sliced", arg);
        let e = s.clone();
        let g = attempt(|| e.into_sliced(a, b));
        judge(g.as_ref().map(|x| x.as_slice()), w, "into_sliced", arg);
        let mut e = s.clone();
        let ok = attempt(|| {
            e.make_sliced(a, b);
        });
        judge(ok.map(|()| e.as_slice()), w, "make_sliced", arg);
        if w.is_none() {
            check!(e.as_slice() == m, "after refused make_sliced", "{:02x?}", e.as_slice());
        }
        c.step(mix(a as u64, b as u64));
    } else if k == 1 {
        let pos = if n <= 5 { positions(n) } else { few(n) };
        let bp = bound_pairs(&few(n));
        let r = if c.flag() { c.pick(&bp) } else { (Bound::Included(c.pick(&pos)), Bound::Excluded(c.pick(&pos))) };
        let w = window(r, n).map(|(a, b)| &m[a..b]);
        let arg = || format!("{r:?} of {n} bytes");
        c.note(|| format!("range {r:?}"));
        let g = attempt(|| s.sliced_range(r));
        judge(g.as_ref().map(|x| x.as_slice()), w, "sliced_range", arg);
        let e = s.clone();
        let g = attempt(|| e.into_sliced_range(r));
        judge(g.as_ref().map(|x| x.as_slice()), w, "into_sliced_range", arg);
        let mut e = s.clone();
        let ok = attempt(|| {
            e.make_sliced_range(r);
        });
        judge(ok.map(|()| e.as_slice()), w, "make_sliced_range", arg);
        if w.is_none() {
            check!(e.as_slice() == m, "after refused make_sliced_range", "{:02x?}", e.as_slice());
            e.make_sliced_range(..);
            check!(e.as_slice() == m, "after refused make_sliced_range", "{:02x?}", e.as_slice());
        }
        c.step(k as u64);
    } else {
        let pos = positions(n);
        let p = c.pick(&pos);
        judge(attempt(|| s[p]).as_ref().map(core::slice::from_ref), m.get(p).map(core::slice::from_ref), "index", || format!("[{p}] of {n} bytes"));
        judge(attempt(|| &s[p..]), m.get(p..), "index", || format!("[{p}..] of {n} bytes"));
        judge(attempt(|| &s[..p]), m.get(..p), "index", || format!("[..{p}] of {n} bytes"));
        for q in few(n) {
            judge(attempt(|| &s[p..q]), m.get(p..q), "index", || format!("[{p}..{q}] of {n} bytes"));
        }
        s.make_sliced_range(..);
        c.step(p as u64);
    }
    check!(s.as_slice() == m && s.len() == n, "receiver", "{:02x?}", s.as_slice());
}

fn chunk(c: &mut Ctx) {
    let n = c.choose(15);
    let m = pattern(n);
    let mut d = ByteChunk::from_slice(m);
    let pos = few(n);
    let a = c.pick(&pos);
    let b = c.pick(&pos);
    let shapes = [R::Half(a, b), R::Incl(a, b), R::From(a), R::To(b), R::ToIncl(b)];
    for r in shapes {
        c.note(|| format!("{n} bytes, {r:?}"));
        let w = r.window(n).map(|(a, b)| &m[a..b]);
        let g = attempt(|| with_range!(r, |x| d.sliced(x)));
        judge(g.as_ref().map(|x| x.as_slice()), w, "chunk sliced", || format!("{r:?} of {n} bytes"));
        let g = attempt(|| with_range!(r, |x| d.into_sliced(x)));
        judge(g.as_ref().map(|x| x.as_slice()), w, "chunk into_sliced", || format!("{r:?} of {n} bytes"));
        let mut e = d;
        let ok = attempt(|| with_range!(r, |x| e.make_sliced(x)));
        judge(ok.map(|()| e.as_slice()), w, "chunk make_sliced", || format!("{r:?} of {n} bytes"));
        if w.is_none() {
            check!(e.as_slice() == m, "after refused make_sliced", "{:02x?}", e.as_slice());
        }
        c.step(mix(a as u64, b as u64));
    }
    for r in [(Bound::Excluded(a), Bound::Included(b)), (Bound::Excluded(a), Bound::Excluded(b)), (Bound::Excluded(a), Bound::Unbounded)] {
        let w = window(r, n).map(|(a, b)| &m[a..b]);
        let g = attempt(|| d.sliced(r));
        judge(g.as_ref().map(|x| x.as_slice()), w, "chunk sliced", || format!("{r:?} of {n} bytes"));
        let g = attempt(|| d.into_sliced(r));
        judge(g.as_ref().map(|x| x.as_slice()), w, "chunk into_sliced", || format!("{r:?} of {n} bytes"));
    }
    let r = (Bound::Excluded(a), Bound::Included(b));
    let w = window(r, n).map(|(a, b)| &m[a..b]);
    let ok = attempt(|| d.make_sliced(r));
    judge(ok.map(|()| d.as_slice()), w, "chunk make_sliced", || format!("{r:?} of {n} bytes"));
}

fn some_queue(c: &mut Ctx) -> (ByteQueue<'static>, Vec<u8>) {
    let shapes: &[&[usize]] = &[&[], &[1], &[3], &[2, 3], &[1, 1, 1], &[20], &[5, 20, 1], &[1; 18], &[2; 34]];
    let sh = c.pick(shapes);
    let mut feed = p02::Feed::new();
    let mut q = ByteQueue::new();
    let mut m = Vec::new();
    let rep = c.pick(&[Rep::Static, Rep::Shared, Rep::ExtHeap]);
    let front = c.flag();
    for &l in sh {
        let (d, s) = feed.next(l, rep);
        if front {
            q.push_front(d);
            m.splice(0..0, s.iter().copied());
        } else {
            q.push_back(d);
            m.extend_from_slice(s);
        }
    }
    c.note(|| format!("queue of chunks {sh:?} pushed {} in {rep:?}", if front { "front" } else { "back" }));
    (q, m)
}

fn queue_range(c: &mut Ctx) {
    let (mut q, mut m) = some_queue(c);
    let n = m.len();
    let pos = if n <= 6 { positions(n) } else { few(n) };
    let bp = bound_pairs(&pos);
    let r = c.pick(&bp);
    let win = window(r, n);
    let w = win.map(|(a, b)| m[a..b].to_vec());
    c.note(|| format!("range {r:?}"));
    let g = attempt(|| q.slice(r));
    let g = g.map(|x| Vec::<u8>::from(x));
    judge(g.as_deref(), w.as_deref(), "queue slice", || format!("{r:?} of {n} bytes"));
    p02::same(&q, &m, "queue slice receiver");
    let k = c.choose(3);
    match k {
        0 => {
            let g = attempt(|| q.drain(r).collect::<Vec<u8>>());
            judge(g.as_deref(), w.as_deref(), "queue drain", || format!("{r:?} of {n} bytes"));
            if let Some((a, b)) = win {
                m.drain(a..b);
            }
        }
        1 => {
            // never advanced, or advanced half way
            let adv = c.choose(2);
            let g = attempt(|| {
                let mut d = q.drain(r);
                for _ in 0..adv {
                    d.next();
                }
            });
            check!(g.is_some() == w.is_some(), "queue drain", "{r:?} of {n} bytes: accepted {}", g.is_some());
            if let Some((a, b)) = win {
                m.drain(a..b);
            }
        }
        _ => {
            let g = attempt(|| q.replace_range(r, ByteData::from_static(b"<<replacement>>")));
            check!(g.is_some() == w.is_some(), "queue replace_range", "{r:?} of {n} bytes: accepted {}", g.is_some());
            if let Some((a, b)) = win {
                m.splice(a..b, b"<<replacement>>".iter().copied());
            }
        }
    }
    p02::same(&q, &m, "queue afterwards");
    q.push_back(ByteData::from_static(b"!"));
    m.push(b'!');
    p02::same(&q, &m, "queue afterwards");
    c.step(p02::hash(&q, &m));
}

fn queue_pos(c: &mut Ctx) {
    let (mut q, mut m) = some_queue(c);
    let n = m.len();
    let pos = positions(n);
    let p = c.pick(&pos);
    match c.choose(4) {
        0 => {
            c.note(|| format!("consume {p}"));
            let ok = attempt(|| q.consume(p)).is_some();
            check!(ok == (p <= n), "consume", "{p} of {n}: accepted {ok}");
            if ok {
                m.drain(..p);
            }
        }
        1 => {
            c.note(|| format!("split_off {p}"));
            match attempt(|| q.split_off(p)) {
                Some(r) => {
                    check!(p <= n, "split_off accepted", "{p} of {n}");
                    p02::same(&r, &m[p..], "split_off");
                    m.truncate(p);
                }
                None => check!(p > n, "split_off refused", "{p} of {n}"),
            }
        }
        2 => {
            c.note(|| format!("exists_at {p}"));
            for l in [0usize, 1, 2, n, n + 1] {
                let nd: Vec<u8> = m.get(p..).map_or(vec![m.first().copied().unwrap_or(7); l], |x| x.iter().copied().chain([9; 64]).take(l).collect());
                let want = p.checked_add(l).and_then(|e| m.get(p..e)).map_or(false, |x| x == nd);
                check!(q.exists_at(p, &nd) == want, "exists_at", "{l} bytes at {p} of {n}: expected {want}");
                let naive = if p <= n { (p..=n.wrapping_sub(l).min(n)).find(|&i| l <= n && i + l <= n && m[i..i + l] == nd) } else { None };
                check!(q.find_slice_after(&nd, p) == naive, "find_slice_after", "{l} bytes after {p} of {n}: {:?}, expected {naive:?}", q.find_slice_after(&nd, p));
            }
        }
        _ => {
            c.note(|| format!("skipping {p}"));
            let got: Vec<u8> = attempt(|| q.bytes().skip(p).collect()).unwrap_or_else(|| fail("bytes().skip", format!("{p} of {n} panicked")));
            check!(got == m.get(p..).unwrap_or(&[]), "bytes().skip", "{p} of {n}: {got:02x?}");
            let got: Vec<u8> = q.bytes().take(p).collect();
            check!(got == &m[..p.min(n)], "bytes().take", "{p} of {n}: {got:02x?}");
            let got: Vec<u8> = q.clone().into_bytes().skip(p).collect();
            check!(got == m.get(p..).unwrap_or(&[]), "into_bytes().skip", "{p} of {n}: {got:02x?}");
            let got: Vec<u8> = q.clone().into_bytes().take(p).collect();
            check!(got == &m[..p.min(n)], "into_bytes().take", "{p} of {n}: {got:02x?}");
            let cl = q.chunk_len();
            check!(q.chunks().skip(p).count() == cl.saturating_sub(p), "chunks().skip", "{p} of {cl}");
            check!(q.bytes().nth(p) == m.get(p).copied(), "bytes().nth", "{p} of {n}");
            check!(q.chunks().nth(p).is_some() == (p < cl), "chunks().nth", "{p} of {cl}");
        }
    }
    p02::same(&q, &m, "queue afterwards");
    c.step(p02::hash(&q, &m));
}

fn text_range(c: &mut Ctx) {
    let m = c.pick(&["", "a", "aå", "€😀", "0123456789abcdå€"]);
    let rep = c.pick(CORE);
    let Some(t) = make_str(rep, m) else { c.skip() };
    let n = m.len();
    let pos = few(n);
    let bp = bound_pairs(&pos);
    let r = c.pick(&bp);
    let w = window(r, n).and_then(|(a, b)| m.get(a..b)).map(|x| x.as_bytes());
    c.note(|| format!("{rep:?} {m:?} range {r:?}"));
    let g = attempt(|| t.sliced(r));
    judge(g.as_ref().map(|x| x.as_bytes()), w, "text sliced", || format!("{r:?} of {m:?}"));
    let e = t.clone();
    let g = attempt(|| e.into_sliced(r));
    judge(g.as_ref().map(|x| x.as_bytes()), w, "text into_sliced", || format!("{r:?} of {m:?}"));
    let mut e = t.clone();
    let ok = attempt(|| e.make_sliced(r));
    judge(ok.map(|_| e.as_bytes()), w, "text make_sliced", || format!("{r:?} of {m:?}"));
    if w.is_none() {
        check!(e.as_str() == m, "after refused make_sliced", "{:?}", e.as_str());
    }
    let e = t.clone();
    let g = attempt(|| e.into_shared_range(r));
    judge(g.as_ref().map(|x| x.as_bytes()), w, "text into_shared_range", || format!("{r:?} of {m:?}"));
    check!(t.as_str() == m, "receiver", "{:?}", t.as_str());
    let mut q = bytedata::StringQueue::from(t);
    q.push_back("å!");
    let m = format!("{m}å!");
    let w = window(r, m.len()).and_then(|(a, b)| m.get(a..b)).map(|x| x.as_bytes());
    let g = attempt(|| q.slice(r)).map(|x| Vec::from(x.into_bytequeue()));
    judge(g.as_deref(), w, "text queue slice", || format!("{r:?} of {m:?}"));
    let g = attempt(|| q.drain(r).collect::<String>());
    judge(g.as_ref().map(|x| x.as_bytes()), w, "text queue drain", || format!("{r:?} of {m:?}"));
    c.step(hash_bytes(rep as u64, m.as_bytes()));
}

fn builder(c: &mut Ctx) {
    let n = c.pick(&[0usize, 1, 5, 20]);
    let m = pattern(n);
    let al = c.pick(&[1usize, 16]);
    let mut b = SharedBytesBuilder::with_alignment(al);
    if c.flag() {
        b.reserve(n + 9);
    }
    b.extend_from_slice(m);
    let mut m = m.to_vec();
    c.note(|| format!("builder with {n} bytes, alignment {al}, capacity {}", b.capacity()));
    match c.choose(5) {
        0 => {
            let pos = positions(n);
            let p = c.pick(&pos);
            c.note(|| format!("truncate {p}"));
            check!(attempt(|| b.truncate(p)).is_some(), "truncate", "{p} of {n} panicked");
            m.truncate(p);
        }
        1 => {
            let spare = b.capacity() - b.len();
            let pos: Vec<usize> = positions(spare).into_iter().filter(|p| *p <= spare + 2 || *p > 1 << 20).collect();
            let p = c.pick(&pos);
            c.note(|| format!("apply_unfilled reporting {p} of {spare}"));
            let ok = attempt(|| {
                b.apply_unfilled(|x| {
                    check!(x.len() == spare, "apply_unfilled", "was given {} bytes, capacity leaves {spare}", x.len());
                    for y in x.iter_mut() {
                        y.write(b'w');
                    }
                    ((), p)
                })
            });
            check!(ok.is_some() == (p <= spare), "apply_unfilled", "{p} of {spare}: accepted {}", ok.is_some());
            if p <= spare {
                m.resize(n + p, b'w');
            }
        }
        2 => {
            let pos = positions(n);
            let p = c.pick(&pos);
            let s: &[u8] = &b;
            judge(attempt(|| &s[p..]), m.get(p..), "index", || format!("[{p}..]"));
            judge(attempt(|| b[p]).as_ref().map(core::slice::from_ref), m.get(p).map(core::slice::from_ref), "index", || format!("[{p}]"));
        }
        3 => {
            // more than a block can ever hold
            let p = c.pick(&[(1usize << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 0x8000, 1 << 40, usize::MAX / 2, usize::MAX - 40, usize::MAX]);
            c.note(|| format!("reserve {p}"));
            let ok = attempt(|| b.reserve(p)).is_some();
            check!(!ok || b.capacity() - b.len() >= p, "reserve", "{p} accepted, but only {} bytes are available", b.capacity() - b.len());
        }
        _ => {
            let p = c.pick(&[(1usize << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, usize::MAX / 2, usize::MAX]);
            let al = c.pick(&[1usize, 4, 16, 512]);
            c.note(|| format!("with capacity {p}, alignment {al}"));
            for ok in [attempt(|| SharedBytesBuilder::with_capacity(p)), attempt(|| SharedBytesBuilder::with_aligned_capacity(p, al)), attempt(|| { let mut b = SharedBytesBuilder::with_alignment(al); b.reserve(p); b })] {
                if let Some(b) = ok {
                    check!(b.capacity() >= p, "capacity", "{p} accepted, capacity is {}", b.capacity());
                }
            }
            for al in [0usize, 3, 1024, 513, usize::MAX] {
                check!(attempt(|| SharedBytesBuilder::with_alignment(al)).is_none(), "alignment", "{al} accepted");
                check!(attempt(|| SharedBytesBuilder::with_aligned_capacity(4, al)).is_none(), "alignment", "{al} accepted");
            }
        }
    }
    check!(b.as_slice() == m && b.len() == m.len() && b.capacity() >= b.len(), "builder afterwards", "{:02x?} expected {m:02x?}", b.as_slice());
    b.extend_from_slice(b"after");
    m.extend_from_slice(b"after");
    check!(b.as_slice() == m, "builder afterwards", "{:02x?} expected {m:02x?}", b.as_slice());
    c.step(hash_bytes(b.capacity() as u64, &m));
}

/// A refused call, then every kind of call once more.
fn twice(c: &mut Ctx) {
    let (mut d, m) = draw(c, &[5, 15, 30]);
    let n = m.len();
    let rs = all_ranges(2);
    let _ = rs;
    let bad = [R::From(n + 1), R::To(n + 1), R::Half(3, 2), R::Incl(4, 2), R::ToIncl(n), R::ToIncl(usize::MAX), R::Half(usize::MAX, 1), R::Incl(usize::MAX, usize::MAX), R::Half(1, usize::MAX)];
    let r = c.pick(&bad);
    c.note(|| format!("make_sliced {r:?}"));
    check!(attempt(|| with_range!(r, |x| d.make_sliced(x))).is_none(), "make_sliced accepted", "{r:?} of {n} bytes");
    intact(&d, m, "after refused make_sliced");
    let o = crate::p01::ops(n, &[0, 1, n / 2, n]);
    let o = c.pick(&o);
    c.note(|| format!("then {o:?}"));
    let mut side = Vec::new();
    let (d, m) = crate::p01::apply(o, (d, m), &mut side);
    intact(&d, m, "operation after a refused call");
    for (d, m) in &side {
        intact(d, m, "other handle after a refused call");
    }
    c.step(hash_bytes(n as u64, m));
}
