//! C01: a byte value is exactly its bytes, whatever its storage and history.
use crate::explore::*;
use crate::ranges::*;
use crate::reps::*;
use crate::{check, with_range};
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, StringData};
use std::borrow::Cow;

pub const SUITES: &[Suite] = &[
    Suite { prop: "C01", name: "construct", body: construct, leaks: true },
    Suite { prop: "C01", name: "one_op", body: one_op, leaks: true },
    Suite { prop: "C01", name: "sequences", body: sequences, leaks: true },
    Suite { prop: "C01", name: "shared_ops", body: shared_ops, leaks: true },
    Suite { prop: "C01", name: "string_ops", body: string_ops, leaks: true },
    Suite { prop: "C01", name: "chunk", body: chunk, leaks: true },
    Suite { prop: "C01", name: "concat", body: concat, leaks: true },
    Suite { prop: "C01", name: "traits", body: traits, leaks: true },
];

/// Cheap observation, used after every step.
pub fn same(d: &ByteData<'_>, m: &[u8], what: &str) {
    check!(d.as_slice() == m, what, "content is {:02x?}, expected {:02x?}", d.as_slice(), m);
    check!(d.len() == m.len(), what, "len() is {}, expected {}", d.len(), m.len());
    check!(d.is_empty() == m.is_empty(), what, "is_empty() is {} for length {}", d.is_empty(), m.len());
}

/// Every read accessor.
pub fn same_full(d: &ByteData<'_>, m: &[u8], what: &str) {
    same(d, m, what);
    check!(&**d == m && AsRef::<[u8]>::as_ref(d) == m && core::borrow::Borrow::<[u8]>::borrow(d) == m, what, "deref/as_ref/borrow differ from as_slice");
    if let Some(b) = d.as_borrowed() {
        check!(b == m, what, "as_borrowed gives {b:02x?}, expected {m:02x?}");
    }
    for i in 0..m.len() {
        check!(d[i] == m[i], what, "index {i} gives {:#x}, expected {:#x}", d[i], m[i]);
    }
    check!(attempt(|| d[m.len()]).is_none(), what, "index {} (= len) did not panic", m.len());
    check!(d.eq_slice(m) && *d == *m && d.starts_with(m) && d.ends_with(m), what, "not equal to its own content");
    let c = d.clone();
    same(&c, m, what);
    let mut n = 0;
    for x in c {
        check!(n < m.len() && x == m[n], what, "iteration differs at {n}");
        n += 1;
    }
    check!(n == m.len(), what, "iterator gave {n} bytes of {}", m.len());
    let c: Vec<u8> = Vec::from(d.clone());
    check!(c == m, what, "into Vec gives {c:02x?}");
    let c: Cow<'_, [u8]> = Cow::from(d.clone());
    check!(&*c == m, what, "into Cow gives {c:02x?}");
    let c: SharedBytes = SharedBytes::from(d.clone());
    check!(c.as_slice() == m && c.len() == m.len() && c.is_empty() == m.is_empty(), what, "into SharedBytes gives {:02x?}", c.as_slice());
    let c = d.clone().into_shared();
    same(&c, m, what);
    same(d, m, what);
}

fn lens(c: &Ctx) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=c.q(34, 70)).collect();
    v.extend_from_slice(&[63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 70001]);
    v
}

fn construct(c: &mut Ctx) {
    let ls = lens(c);
    let n = c.pick(&ls);
    let rep = c.pick(REPS);
    let s = pattern(n);
    c.note(|| format!("content = {n} patterned bytes, storage {rep:?}"));
    let Some(d) = make(rep, s) else { c.skip() };
    if n <= 300 {
        same_full(&d, s, "construct");
    } else {
        same(&d, s, "construct");
        let cuts = [0, 1, n / 2, 65535.min(n), n - 1, n];
        for a in cuts {
            for b in cuts {
                if a <= b {
                    let e = d.sliced(a..b);
                    same(&e, &s[a..b], "construct/slice of long value");
                    let e = e.into_shared();
                    same(&e, &s[a..b], "construct/shared slice of long value");
                }
            }
        }
        let v: Vec<u8> = d.into();
        check!(v == s, "construct", "into Vec of {n} bytes differs");
    }
    c.step(hash_bytes(rep as u64, s));
}

pub type H = (ByteData<'static>, &'static [u8]);

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Sliced(R),
    IntoSliced(R),
    MakeSliced(R),
    IntoShared,
    IntoSharedRange(R),
    Take(usize),
    SplitAt(usize),
    TakeWhile(usize),
    Next,
    ViaVec,
    ViaShared,
    ViaCow,
    Statically,
    ViaString,
    ViaBuilder,
    ViaQueue,
    ViaBytes,
    CloneKeep,
    CloneDrop,
    Collect,
    ViaSharedStr,
}
impl PartialEq for R {
    fn eq(&self, o: &R) -> bool {
        format!("{self:?}") == format!("{o:?}")
    }
}

pub fn ops(n: usize, pos: &[usize]) -> Vec<Op> {
    use Op::*;
    let mut v = vec![IntoShared, Next, ViaVec, ViaShared, ViaCow, Statically, ViaString, ViaBuilder, ViaQueue, ViaBytes, CloneKeep, CloneDrop, Collect, ViaSharedStr];
    for r in valid(pos, n) {
        v.push(Sliced(r));
        v.push(IntoSliced(r));
        v.push(MakeSliced(r));
        v.push(IntoSharedRange(r));
    }
    for &p in pos {
        v.push(Take(p));
        v.push(SplitAt(p));
        v.push(TakeWhile(p));
    }
    v
}

/// Applies `op` to the current handle; other handles that stay alive go to `side`.
pub fn apply(op: Op, cur: H, side: &mut Vec<H>) -> H {
    let (mut d, m) = cur;
    match op {
        Op::Sliced(r) => {
            let (a, b) = r.window(m.len()).unwrap();
            let e = with_range!(r, |x| d.sliced(x));
            side.push((d, m));
            (e, &m[a..b])
        }
        Op::IntoSliced(r) => {
            let (a, b) = r.window(m.len()).unwrap();
            (with_range!(r, |x| d.into_sliced(x)), &m[a..b])
        }
        Op::MakeSliced(r) => {
            let (a, b) = r.window(m.len()).unwrap();
            with_range!(r, |x| {
                d.make_sliced(x);
            });
            (d, &m[a..b])
        }
        Op::IntoShared => (d.into_shared(), m),
        Op::IntoSharedRange(r) => {
            let (a, b) = r.window(m.len()).unwrap();
            (with_range!(r, |x| d.into_shared_range(x)), &m[a..b])
        }
        Op::Take(p) => {
            let t = d.take_bytes(p);
            side.push((t, &m[..p]));
            (d, &m[p..])
        }
        Op::SplitAt(p) => {
            let (l, r) = d.split_at(p);
            side.push((r, &m[p..]));
            (l, &m[..p])
        }
        Op::TakeWhile(p) => {
            let mut n = 0;
            let mut seen = true;
            let t = ByteData::take_while(&mut d, |x| {
                seen &= n < m.len() && x == m[n];
                n += 1;
                n <= p
            });
            check!(seen, "take_while", "predicate was not given the bytes in order");
            check!(n == (p + 1).min(m.len()), "take_while", "predicate called {n} times for a run of {p} in {} bytes", m.len());
            side.push((t, &m[..p]));
            (d, &m[p..])
        }
        Op::Next => {
            let x = d.next();
            check!(x == m.first().copied(), "next", "next() gave {x:?}, expected {:?}", m.first());
            (d, if m.is_empty() { m } else { &m[1..] })
        }
        Op::ViaVec => {
            let v: Vec<u8> = d.into();
            check!(v == m, "into Vec", "{v:02x?} expected {m:02x?}");
            (ByteData::from(v), m)
        }
        Op::ViaShared => {
            let v: SharedBytes = d.into();
            check!(v.as_slice() == m, "into SharedBytes", "{:02x?} expected {m:02x?}", v.as_slice());
            (ByteData::from(v), m)
        }
        Op::ViaCow => {
            let v: Cow<'static, [u8]> = d.into();
            check!(*v == *m, "into Cow", "{v:02x?} expected {m:02x?}");
            (ByteData::from_cow_static(v), m)
        }
        Op::Statically => (d.statically_borrowed(), m),
        Op::ViaString => match StringData::try_from_bytedata(d) {
            Ok(s) => {
                check!(core::str::from_utf8(m).is_ok(), "try_from_bytedata", "accepted invalid UTF-8");
                (s.into_bytedata(), m)
            }
            Err(d) => {
                check!(core::str::from_utf8(m).is_err(), "try_from_bytedata", "rejected valid UTF-8");
                (d, m)
            }
        },
        Op::ViaBuilder => {
            let mut b: SharedBytesBuilder = SharedBytes::from(d).into();
            check!(b.as_slice() == m && b.len() == m.len(), "into builder", "{:02x?} expected {m:02x?}", b.as_slice());
            b.extend_from_slice(b"zz");
            b.truncate(m.len());
            (b.into(), m)
        }
        Op::ViaQueue => {
            let q = ByteQueue::from(d);
            check!(q.len() == m.len() && q.is_empty() == m.is_empty(), "into queue", "len {} expected {}", q.len(), m.len());
            (q.into(), m)
        }
        Op::ViaBytes => {
            let v: bytes::Bytes = d.into();
            check!(*v == *m, "into Bytes", "{v:02x?} expected {m:02x?}");
            (v.into(), m)
        }
        Op::CloneKeep => {
            let e = d.clone();
            side.push((d, m));
            (e, m)
        }
        Op::CloneDrop => {
            let e = d.clone();
            drop(d);
            (e, m)
        }
        Op::Collect => (d.collect::<ByteData<'static>>(), m),
        Op::ViaSharedStr => {
            let v: SharedBytes = d.into();
            match StringData::try_from_shared(v) {
                Ok(s) => {
                    check!(s.as_bytes() == m, "try_from_shared", "content changed");
                    (s.into(), m)
                }
                Err(v) => (v.into(), m),
            }
        }
    }
}

fn one_op(c: &mut Ctx) {
    let n = c.choose(c.q(19, 34));
    let rep = c.pick(REPS);
    let s = pattern(n);
    let Some(d) = make(rep, s) else { c.skip() };
    let pos: Vec<usize> = if n <= c.q(6, 18) { (0..=n).collect() } else { cuts(n) };
    let os = ops(n, &pos);
    let op = c.pick(&os);
    c.note(|| format!("{rep:?} holding {n} bytes, then {op:?}"));
    let mut side = Vec::new();
    let (d, m) = apply(op, (d, s), &mut side);
    same_full(&d, m, "after op");
    for (d, m) in &side {
        same_full(d, m, "other handle after op");
    }
    c.step(hash_bytes(rep as u64, m));
}

fn sequences(c: &mut Ctx) {
    let ns: &[usize] = c.q(&[4, 15, 17], &[0, 1, 4, 14, 15, 16, 30]);
    let n = c.pick(ns);
    let depth = 3;
    let rep = c.pick(c.q(CORE, REPS));
    let s = pattern(n);
    let Some(d) = make(rep, s) else { c.skip() };
    c.note(|| format!("{rep:?} holding {n} bytes"));
    let mut side = Vec::new();
    let mut h = (d, s);
    c.tag = rep as u64;
    for i in 0..depth {
        let n = h.1.len();
        let pos: Vec<usize> = {
            let mut p = vec![0, 1, n.saturating_sub(1), n];
            p.retain(|x| *x <= n);
            p.sort();
            p.dedup();
            if i > 0 && p.len() > 3 {
                p.remove(0);
            }
            p
        };
        let mut os = vec![Op::IntoShared, Op::Next, Op::ViaVec, Op::ViaShared, Op::ViaBuilder, Op::ViaBytes, Op::CloneKeep];
        for &a in &pos {
            os.push(Op::Take(a));
            os.push(Op::SplitAt(a));
        }
        for r in [R::Full].into_iter().chain(pos.iter().flat_map(|&a| pos.iter().filter(move |&&b| a <= b).map(move |&b| R::Half(a, b)))) {
            os.push(Op::Sliced(r));
            os.push(Op::IntoSliced(r));
            os.push(Op::MakeSliced(r));
            os.push(Op::IntoSharedRange(r));
        }
        let op = c.pick(&os);
        c.note(|| format!("{op:?}"));
        h = apply(op, h, &mut side);
        same(&h.0, h.1, "after op");
        for (d, m) in &side {
            same(d, m, "other handle after op");
        }
        c.step(hash_bytes(side.len() as u64, h.1));
    }
    drop(h);
    for (d, m) in &side {
        same(d, m, "other handle after drop");
    }
}

pub const SHARED_REPS: &[Rep] = &[Rep::Shared, Rep::SharedMid, Rep::SharedSpare, Rep::SharedAl1, Rep::SharedAl64, Rep::SharedUnaligned];

fn sb_same(d: &SharedBytes, m: &[u8], what: &str) {
    check!(d.as_slice() == m && d.len() == m.len() && d.is_empty() == m.is_empty(), what, "content {:02x?} len {}, expected {m:02x?}", d.as_slice(), d.len());
    check!(&**d == m && AsRef::<[u8]>::as_ref(d) == m && d.eq_slice(m) && *d == *m, what, "views differ");
    check!(d.starts_with(m) && d.ends_with(m), what, "prefix/suffix of itself");
    if !m.is_empty() {
        check!(d[0] == m[0] && d[m.len() - 1] == m[m.len() - 1], what, "index");
        check!(d[..] == *m && d[1..] == m[1..] && d[..1] == m[..1] && d[0..1] == m[0..1], what, "range index");
    }
    check!(attempt(|| d[m.len()]).is_none(), what, "index len did not panic");
}

fn shared_ops(c: &mut Ctx) {
    let ns: &[usize] = c.q(&[0, 1, 5, 16], &[0, 1, 2, 5, 7, 8, 9, 15, 16, 17, 33, 64]);
    let n = c.pick(ns);
    let rep = c.pick(SHARED_REPS);
    let mut m: &'static [u8] = pattern(n);
    let mut d = shared(rep, m).unwrap();
    c.note(|| format!("{rep:?} of {n} bytes"));
    c.tag = rep as u64;
    let mut side: Vec<(SharedBytes, &'static [u8])> = Vec::new();
    for _ in 0..c.q(2, 3) {
        let pos = cuts(m.len());
        let k = c.choose(8);
        match k {
            0..=5 => {
                let wins: Vec<(usize, usize)> = pos.iter().flat_map(|&a| pos.iter().filter(move |&&b| a <= b).map(move |&b| (a, b))).collect();
                if k < 3 {
                    let (a, b) = c.pick(&wins);
                    c.note(|| format!("slice[{k}] off {a} len {}", b - a));
                    match k {
                        0 => {
                            let e = d.sliced(a, b - a);
                            side.push((d, m));
                            d = e;
                        }
                        1 => d = d.into_sliced(a, b - a),
                        _ => {
                            d.make_sliced(a, b - a);
                        }
                    }
                    m = &m[a..b];
                } else {
                    let rs = valid(&pos, m.len());
                    let r = c.pick(&rs);
                    c.note(|| format!("slice_range[{k}] {r:?}"));
                    let (a, b) = r.window(m.len()).unwrap();
                    match k {
                        3 => {
                            let e = d.sliced_range(r.bounds());
                            side.push((d, m));
                            d = e;
                        }
                        4 => d = d.into_sliced_range(r.bounds()),
                        _ => {
                            d.make_sliced_range(r.bounds());
                        }
                    }
                    m = &m[a..b];
                }
            }
            6 => {
                c.note(|| "clone, keep both".into());
                let e = d.clone();
                if !m.is_empty() {
                    check!(!e.is_unique() && !d.is_unique(), "is_unique", "unique although cloned");
                }
                side.push((d, m));
                d = e;
            }
            _ => {
                c.note(|| "to builder and back".into());
                let b = SharedBytesBuilder::from(d);
                check!(b.as_slice() == m && b.capacity() >= m.len(), "to builder", "{:02x?} expected {m:02x?}", b.as_slice());
                d = b.build();
            }
        }
        sb_same(&d, m, "after op");
        for (d, m) in &side {
            sb_same(d, m, "other handle after op");
        }
        c.step(hash_bytes(side.len() as u64, m));
    }
}

fn string_ops(c: &mut Ctx) {
    let texts: &[&'static str] = &["", "a", "hej", "å", "añ€😀z", "0123456789abcd", "0123456789abcde", "ååååååå", "åååååååå", " \t é \u{2003}"];
    let t = c.pick(texts);
    let rep = c.pick(REPS);
    let Some(mut d) = make_str(rep, t) else { c.skip() };
    let mut m: &'static str = t;
    c.note(|| format!("{rep:?} holding {t:?}"));
    c.tag = rep as u64;
    let mut side: Vec<(StringData<'static>, &'static str)> = Vec::new();
    for _ in 0..2 {
        let pos: Vec<usize> = (0..=m.len()).filter(|i| m.is_char_boundary(*i)).collect();
        let pos: Vec<usize> = if pos.len() > 6 { vec![pos[0], pos[1], pos[pos.len() / 2], pos[pos.len() - 2], pos[pos.len() - 1]] } else { pos };
        let k = c.choose(17);
        c.note(|| format!("op {k}"));
        match k {
            0..=3 => {
                let rs: Vec<R> = valid(&pos, m.len()).into_iter().filter(|r| r.window(m.len()).map_or(false, |(a, b)| m.is_char_boundary(a) && m.is_char_boundary(b))).collect();
                let r = c.pick(&rs);
                c.note(|| format!("{r:?}"));
                let (a, b) = r.window(m.len()).unwrap();
                match k {
                    0 => {
                        let e = with_range!(r, |x| d.sliced(x));
                        side.push((d, m));
                        d = e;
                    }
                    1 => d = with_range!(r, |x| d.into_sliced(x)),
                    2 => with_range!(r, |x| {
                        d.make_sliced(x);
                    }),
                    _ => d = with_range!(r, |x| d.into_shared_range(x)),
                }
                m = &m[a..b];
            }
            4 => {
                let p = c.pick(&pos);
                let (l, r) = d.split_at(p);
                side.push((l, &m[..p]));
                d = r;
                m = &m[p..];
            }
            5 => {
                let e = d.trim();
                side.push((d, m));
                d = e;
                m = m.trim();
            }
            6 => {
                let e = d.trim_start();
                side.push((d, m));
                d = e;
                m = m.trim_start();
            }
            7 => {
                let e = d.trim_end();
                side.push((d, m));
                d = e;
                m = m.trim_end();
            }
            8 => d = d.into_shared(),
            9 => {
                let s: String = d.into();
                check!(s == m, "into String", "{s:?} expected {m:?}");
                d = StringData::from(s);
            }
            10 => {
                let s: Cow<'static, str> = d.into();
                check!(s == m, "into Cow", "{s:?} expected {m:?}");
                d = StringData::from_cow_static(s);
            }
            11 => {
                let x = d.next();
                check!(x == m.chars().next(), "next", "{x:?} expected {:?}", m.chars().next());
                if let Some(x) = x {
                    m = &m[x.len_utf8()..];
                }
            }
            12 => {
                let e = d.clone();
                side.push((d, m));
                d = e;
            }
            13 => d = d.statically_borrowed(),
            14 => {
                let b: bytedata::SharedStrBuilder = d.into();
                check!(b.as_str() == m && b.len() == m.len(), "into builder", "{:?} expected {m:?}", b.as_str());
                d = b.into();
            }
            15 => {
                let q: bytedata::StringQueue = d.into();
                d = q.into();
            }
            _ => {
                let v: Vec<u8> = d.into();
                check!(v == m.as_bytes(), "into Vec", "{v:02x?} expected {m:?}");
                d = StringData::try_from_bytedata(ByteData::from(v)).ok().expect("text rejected");
            }
        }
        for (d, m) in side.iter().map(|(d, m)| (d, *m)).chain([(&d, m)]) {
            check!(d.as_str() == m && d.as_bytes() == m.as_bytes() && d.len() == m.len() && d.is_empty() == m.is_empty(), "text", "{:?} expected {m:?}", d.as_str());
            check!(&**d == m && AsRef::<str>::as_ref(d) == m && AsRef::<[u8]>::as_ref(d) == m.as_bytes() && core::borrow::Borrow::<str>::borrow(d) == m, "text", "views differ");
            check!(d.as_borrowed().map_or(true, |b| b == m), "text", "as_borrowed");
            check!(d.iter().eq(m.chars()), "text", "chars of {m:?}");
            check!(d.clone().eq(m.chars()) && (&*d).into_iter().eq(m.chars()), "text", "iteration of {m:?}");
            check!(d.as_bytedata().as_slice() == m.as_bytes(), "text", "as_bytedata");
        }
        c.step(hash_bytes(side.len() as u64, m.as_bytes()));
    }
}

fn chunk(c: &mut Ctx) {
    use bytedata::ByteChunk;
    let n = c.choose(15);
    let s = pattern(n);
    let mut m: &[u8] = s;
    let mut d = ByteChunk::from_slice(s);
    check!(ByteChunk::from_slice(b"").is_empty() && ByteChunk::default().len() == 0, "chunk", "empty");
    check!(attempt(|| ByteChunk::from_slice(pattern(15))).is_none(), "chunk", "15 bytes accepted inline");
    if n == 1 {
        check!(ByteChunk::from_byte(s[0]).as_slice() == s && ByteData::from_byte(s[0]).as_slice() == s, "chunk", "from_byte");
    }
    macro_rules! arr { ($($l:literal)*) => { match n { $($l => { let mut a = [0u8; $l]; a.copy_from_slice(s); check!(ByteChunk::from_array(&a).as_slice() == s && ByteData::from_chunk(&a).as_slice() == s, "chunk", "from_array {n}"); })* _ => {} } } }
    arr!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14);
    for _ in 0..2 {
        let pos: Vec<usize> = (0..=m.len()).collect();
        let rs = valid(&pos, m.len());
        let r = c.pick(&rs);
        let k = c.choose(3);
        c.note(|| format!("chunk slice {r:?} [{k}]"));
        let (a, b) = r.window(m.len()).unwrap();
        match k {
            0 => {
                let e = with_range!(r, |x| d.sliced(x));
                check!(d.as_slice() == m, "chunk", "sliced changed its receiver");
                d = e;
            }
            1 => d = with_range!(r, |x| d.into_sliced(x)),
            _ => with_range!(r, |x| {
                d.make_sliced(x);
            }),
        }
        m = &m[a..b];
        check!(d.as_slice() == m && d.len() == m.len() && d.is_empty() == m.is_empty(), "chunk", "{:02x?} expected {m:02x?}", d.as_slice());
        c.step(hash_bytes(7, m));
    }
}

fn concat(c: &mut Ctx) {
    let ls = [0usize, 1, 7, 13, 14, 15, 40];
    let k = c.choose(4);
    let mut parts: Vec<&'static [u8]> = Vec::new();
    for i in 0..k {
        let n = c.pick(&ls);
        parts.push(&pattern(200)[i * 50..i * 50 + n]);
    }
    c.note(|| format!("from_concat of lengths {:?}", parts.iter().map(|p| p.len()).collect::<Vec<_>>()));
    let m: Vec<u8> = parts.concat();
    same_full(&ByteData::from_concat(&parts), &m, "from_concat");
    let strs: Vec<&str> = (0..k).map(|i| &"åäöåäöåäö"[..parts[i].len().min(18) / 2 * 2]).collect();
    let ms = strs.concat();
    let d = StringData::from_concat(&strs);
    check!(d.as_str() == ms, "from_concat", "{:?} expected {ms:?}", d.as_str());
    c.step(hash_bytes(1, &m));
}

/// Every conversion trait between the crate's types and the standard ones, on text of every
/// interesting length and width, in every storage.
fn traits(c: &mut Ctx) {
    use std::borrow::Borrow;
    let lens = [0usize, 1, 2, 13, 14, 15, 16, 17, 40, 300];
    let n = c.pick(&lens);
    let s: &'static str = match c.choose(3) {
        0 => core::str::from_utf8(&crate::pool::TEXT[..n.min(60)]).unwrap_or(""),
        1 => stat_str(&"é€".chars().cycle().take(n / 2).collect::<String>()),
        _ => stat_str(&"x".repeat(n)),
    };
    let rep = c.pick(REPS);
    let b = s.as_bytes();
    let Some(t) = make_str(rep, s) else { c.skip() };
    c.note(|| format!("{s:?} as {rep:?}"));
    macro_rules! is {
        ($what:expr, $got:expr) => {{
            match $got {
                g => {
                    let g: &[u8] = g.as_ref();
                    check!(g == b, concat!("conversion ", $what), "gives {g:02x?}, expected {b:02x?}");
                }
            }
        }};
    }
    let d = t.as_bytedata().clone();
    is!("into_bytedata", t.clone().into_bytedata().as_slice());
    is!("ByteData from StringData", ByteData::from(t.clone()).as_slice());
    is!("AsRef<ByteData>", AsRef::<ByteData>::as_ref(&t).as_slice());
    is!("AsRef<[u8]>", AsRef::<[u8]>::as_ref(&t));
    is!("AsRef<str>", AsRef::<str>::as_ref(&t));
    is!("Borrow<str>", Borrow::<str>::borrow(&t));
    is!("Deref", &*t);
    if let Some(x) = t.as_borrowed() {
        is!("StringData::as_borrowed", x);
    }
    match Cow::from(t.clone()) {
        Cow::Borrowed(x) => is!("Cow<str>", x),
        Cow::Owned(x) => is!("Cow<str>", x),
    }
    is!("String", String::from(t.clone()));
    is!("Vec from StringData", Vec::<u8>::from(t.clone()));
    is!("Vec from ByteData", Vec::<u8>::from(d.clone()));
    is!("SharedStrBuilder from StringData", bytedata::SharedStrBuilder::from(t.clone()).as_str());
    is!("StringQueue from StringData", String::from(bytedata::StringQueue::from(t.clone())));
    is!("StringData from StringQueue", StringData::from(bytedata::StringQueue::from(t.clone())).as_str());
    is!("ByteQueue from ByteData", Vec::<u8>::from(ByteQueue::from(d.clone())));
    is!("ByteData from ByteQueue", ByteData::from(ByteQueue::from(d.clone())).as_slice());
    is!("SharedBytes from ByteQueue", SharedBytes::from(ByteQueue::from(d.clone())).as_slice());
    is!("SharedBytes from ByteData", SharedBytes::from(d.clone()).as_slice());
    is!("builder from SharedBytes", SharedBytesBuilder::from(SharedBytes::from(d.clone())).as_slice());
    match StringData::try_from(SharedBytes::from(d.clone())) {
        Ok(x) => is!("StringData from SharedBytes", x.as_str()),
        Err(_) => fail("conversion StringData from SharedBytes", format!("{s:?} refused")),
    }
    match StringData::try_from(d.clone()) {
        Ok(x) => is!("StringData from ByteData", x.as_str()),
        Err(_) => fail("conversion StringData from ByteData", format!("{s:?} refused")),
    }
    // from the standard types
    is!("StringData from &str", StringData::from(s).as_str());
    is!("StringData from String", StringData::from(s.to_string()).as_str());
    is!("StringData::from_owned", StringData::from_owned(s.to_string()).as_str());
    for owned in [false, true] {
        let cs = || if owned { Cow::Owned(s.to_string()) } else { Cow::Borrowed(s) };
        let cb = || if owned { Cow::Owned(b.to_vec()) } else { Cow::Borrowed(b) };
        is!("StringData from Cow", StringData::from(cs()).as_str());
        is!("StringData::from_cow", StringData::from_cow(cs()).as_str());
        is!("StringData::from_cow_static", StringData::from_cow_static(cs()).as_str());
        is!("ByteData from Cow<str>", ByteData::from(cs()).as_slice());
        is!("ByteData from Cow", ByteData::from(cb()).as_slice());
        is!("ByteData::from_cow", ByteData::from_cow(cb()).as_slice());
        is!("ByteData::from_cow_static", ByteData::from_cow_static(cb()).as_slice());
        is!("ByteQueue from Cow", Vec::<u8>::from(ByteQueue::from(cb())));
        is!("ByteQueue from Cow<str>", Vec::<u8>::from(ByteQueue::from(cs())));
        is!("StringQueue from Cow", String::from(bytedata::StringQueue::from(cs())));
    }
    is!("StringQueue from &str", String::from(bytedata::StringQueue::from(s)));
    is!("StringQueue from String", String::from(bytedata::StringQueue::from(s.to_string())));
    is!("SharedBytes from &[u8]", SharedBytes::from(b).as_slice());
    is!("SharedBytes from Vec", SharedBytes::from(b.to_vec()).as_slice());
    is!("SharedBytes from String", SharedBytes::from(s.to_string()).as_slice());
    is!("SharedBytes from_str", s.parse::<SharedBytes>().unwrap().as_slice());
    is!("SharedStrBuilder from_str", s.parse::<bytedata::SharedStrBuilder>().unwrap().as_str());
    {
        use bytedata::SharedStrBuilder as S;
        let x = S::from(s);
        is!("SharedStrBuilder Borrow", Borrow::<str>::borrow(&x));
        is!("SharedBytes from SharedStrBuilder", SharedBytes::from(S::from(s)).as_slice());
        is!("ByteData from SharedStrBuilder", ByteData::from(S::from(s)).as_slice());
        is!("StringData from SharedStrBuilder", StringData::from(S::from(s)).as_str());
        is!("SharedBytesBuilder from SharedStrBuilder", SharedBytesBuilder::from(S::from(s)).as_slice());
        match S::try_from(SharedBytesBuilder::from(SharedBytes::from_slice(b))) {
            Ok(x) => is!("SharedStrBuilder from SharedBytesBuilder", x.as_str()),
            Err(_) => fail("conversion SharedStrBuilder from SharedBytesBuilder", format!("{s:?} refused")),
        }
        is!("ByteData from SharedBytesBuilder", ByteData::from(SharedBytesBuilder::from(SharedBytes::from_slice(b))).as_slice());
    }
    is!("external Box<str>", ByteData::from_external(Box::<str>::from(s)).as_slice());
    is!("external Arc<str>", ByteData::from_external(std::sync::Arc::<str>::from(s)).as_slice());
    is!("external String", ByteData::from_external(s.to_string()).as_slice());
    is!("external String, to Vec", Vec::<u8>::from(ByteData::from_external(s.to_string())));
    if n == 0 {
        check!(ByteData::default().is_empty() && StringData::default().is_empty() && SharedBytes::default().is_empty(), "default", "not empty");
        check!(ByteQueue::default().is_empty() && bytedata::StringQueue::default().is_empty() && SharedBytesBuilder::default().is_empty() && bytedata::SharedStrBuilder::default().is_empty(), "default", "not empty");
        check!(bytedata::ByteChunk::default().is_empty(), "default", "not empty");
    }
    macro_rules! arr {
        ($($l:literal)*) => {$(
            if let Ok(a) = <&[u8; $l]>::try_from(b) {
                is!("ByteData::from_chunk", ByteData::from_chunk(a).as_slice());
                is!("ByteChunk::from_array", bytedata::ByteChunk::from_array(a).as_slice());
            }
        )*};
    }
    arr!(0 1 2 13 14);
    c.bulk(60);
    c.step(hash_bytes(rep as u64, b));
}
