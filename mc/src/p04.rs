//! C04: text types only hold valid UTF-8 and accept exactly the positions a standard string accepts.
use crate::explore::*;
use crate::ranges::*;
use crate::reps::*;
use crate::{check, with_range};
use bytedata::{ByteData, SharedBytes, SharedBytesBuilder, SharedStrBuilder, StringData, StringQueue};
use core::ops::Bound;

pub const SUITES: &[Suite] = &[
    Suite { prop: "C04", name: "construct", body: construct, leaks: true },
    Suite { prop: "C04", name: "text", body: text, leaks: true },
    Suite { prop: "C04", name: "queue", body: queue, leaks: true },
    Suite { prop: "C04", name: "queue_pairs", body: queue_pairs, leaks: true },
    Suite { prop: "C04", name: "builder", body: builder, leaks: true },
];

pub const CHARS: [&str; 4] = ["a", "å", "€", "😀"];

/// Bytes at the edge of every range the encoding distinguishes.
pub const EDGE: [u8; 25] = [
    0x41, 0x00, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xFF,
];

fn construct(c: &mut Ctx) {
    // where the questionable bytes sit, so that every storage kind sees them at its own edges
    let pre = c.pick(&[0usize, 13, 30]);
    let n = c.choose(c.q(4, 5));
    let mut v: Vec<u8> = b"0123456789abcdefghijklmnopqrst"[..pre].to_vec();
    for _ in 0..n {
        v.push(c.pick(&EDGE));
    }
    let post = c.flag();
    if post {
        v.push(b'z');
    }
    c.note(|| format!("bytes {v:02x?}"));
    let s = stat(&v);
    drop(v);
    let want = core::str::from_utf8(s).is_ok();
    for rep in [Rep::Borrowed, Rep::Inline, Rep::Shared, Rep::SharedMid, Rep::ExtHeap, Rep::ExtMid] {
        let Some(d) = make(rep, s) else { continue };
        let f = c.transitions % 2 == 0;
        let r = if f { StringData::try_from_bytedata(d) } else { StringData::try_from(d) };
        match r {
            Ok(t) => {
                check!(want, "invalid accepted", "{rep:?}: {s:02x?} accepted as text");
                check!(t.as_bytes() == s, "construct", "{rep:?}: holds {:02x?} instead of {s:02x?}", t.as_bytes());
            }
            Err(b) => {
                check!(!want, "valid rejected", "{rep:?}: {s:02x?} rejected");
                check!(b.as_slice() == s, "construct", "{rep:?}: rejected value changed to {:02x?}", b.as_slice());
            }
        }
        c.step(hash_bytes(rep as u64, s));
    }
    let r = StringData::try_from_shared(SharedBytes::from_slice(s));
    check!(r.is_ok() == want, "try_from_shared", "{s:02x?}: accepted {}, expected {want}", r.is_ok());
    if let Err(b) = &r {
        check!(b.as_slice() == s, "try_from_shared", "rejected value changed");
    }
    let r = StringData::try_from(SharedBytes::from_slice(s));
    check!(r.is_ok() == want, "try_from shared", "{s:02x?}: accepted {}, expected {want}", r.is_ok());
    let mut b = SharedBytesBuilder::new();
    b.extend_from_slice(s);
    match SharedStrBuilder::try_from(b) {
        Ok(t) => check!(want && t.as_bytes() == s, "builder try_from", "{s:02x?} accepted"),
        Err(_) => check!(!want, "builder try_from", "{s:02x?} rejected"),
    }
}

/// A text of up to n characters, every combination.
fn draw_text(c: &mut Ctx, n: usize) -> &'static str {
    let k = c.choose(n + 1);
    let mut s = String::new();
    for _ in 0..k {
        s.push_str(c.pick(&CHARS));
    }
    stat_str(&s)
}

pub fn all_ranges(n: usize) -> Vec<R> {
    let far = [n + 1, n + 2, usize::MAX - 1, usize::MAX];
    let pos: Vec<usize> = (0..=n).chain(far).collect();
    let mut v = vec![R::Full];
    for &a in &pos {
        v.push(R::From(a));
        v.push(R::To(a));
        v.push(R::ToIncl(a));
        for &b in &pos {
            v.push(R::Half(a, b));
            v.push(R::Incl(a, b));
        }
    }
    v
}

fn get<'a>(s: &'a str, r: R) -> Option<&'a str> {
    let (a, b) = r.window(s.len())?;
    s.get(a..b)
}

fn ok_text(t: &StringData<'_>, m: &str, what: &str) {
    check!(core::str::from_utf8(t.as_bytes()).is_ok(), what, "text holds invalid bytes {:02x?}", t.as_bytes());
    check!(t.as_bytes() == m.as_bytes() && t.len() == m.len(), what, "text is {:?}, expected {m:?}", t.as_str());
}

fn text(c: &mut Ctx) {
    let mut m = draw_text(c, c.q(3, 4));
    if c.flag() {
        // long enough not to fit inline
        m = stat_str(&format!("0123456789abcd{m}"));
    }
    let rep = c.pick(CORE);
    let Some(mut t) = make_str(rep, m) else { c.skip() };
    c.note(|| format!("{rep:?} text {m:?}"));
    let rounds = c.q(1, 2);
    for _ in 0..rounds {
        let k = c.choose(8);
        match k {
            0..=3 => {
                let rs = all_ranges(m.len());
                let r = c.pick(&rs);
                let want = get(m, r);
                c.note(|| format!("{} {r:?}, standard string gives {want:?}", ["sliced", "into_sliced", "make_sliced", "into_shared_range"][k]));
                let got = match k {
                    0 => attempt(|| with_range!(r, |x| t.sliced(x))),
                    1 => {
                        let t2 = t.clone();
                        attempt(|| with_range!(r, |x| t2.into_sliced(x)))
                    }
                    2 => {
                        let mut t2 = t.clone();
                        let r2 = attempt(|| with_range!(r, |x| {
                            t2.make_sliced(x);
                        }));
                        if r2.is_none() {
                            ok_text(&t2, m, "after refused make_sliced");
                        }
                        r2.map(|()| t2)
                    }
                    _ => {
                        let t2 = t.clone();
                        attempt(|| with_range!(r, |x| t2.into_shared_range(x)))
                    }
                };
                match (&got, want) {
                    (Some(g), Some(w)) => ok_text(g, w, "slice"),
                    (None, None) => {}
                    (Some(g), None) => fail("slice accepted", crate::alloc::untracked(|| format!("range {r:?} of {m:?} gave {:02x?}; a string refuses it", g.as_bytes()))),
                    (None, Some(w)) => fail("slice refused", crate::alloc::untracked(|| format!("range {r:?} of {m:?} panicked; a string gives {w:?}"))),
                }
                ok_text(&t, m, "receiver after slice");
                if let (Some(g), Some(w)) = (got, want) {
                    t = g;
                    m = w;
                }
            }
            4 => {
                let p = c.choose(m.len() + 3);
                let p = if p == m.len() + 2 { usize::MAX } else { p };
                let want = m.is_char_boundary(p);
                let t2 = t.clone();
                c.note(|| format!("split_at {p}"));
                match attempt(|| t2.split_at(p)) {
                    Some((a, b)) => {
                        check!(want, "split_at accepted", "position {p} of {m:?} gave {:02x?} / {:02x?}", a.as_bytes(), b.as_bytes());
                        ok_text(&a, &m[..p], "split_at");
                        ok_text(&b, &m[p..], "split_at");
                        t = b;
                        m = &m[p..];
                    }
                    None => check!(!want, "split_at refused", "position {p} of {m:?}"),
                }
            }
            5 => {
                let x = t.next();
                check!(x == m.chars().next(), "next", "{x:?}");
                let mut it = m.chars();
                it.next();
                m = it.as_str();
            }
            6 => {
                let n = c.choose(m.chars().count() + 1);
                let mut i = 0;
                let x = StringData::take_while(&mut t, |_| {
                    i += 1;
                    i <= n
                });
                let p = m.char_indices().nth(n).map_or(m.len(), |x| x.0);
                c.note(|| format!("take_while of {n} characters"));
                ok_text(&x, &m[..p], "take_while");
                m = &m[p..];
            }
            _ => {
                let needle = c.pick(&CHARS);
                c.note(|| format!("split_once_on {needle:?}"));
                match t.clone().split_once_on(needle) {
                    Ok((a, b)) => {
                        // documented: split at the first occurrence, which stays with the second part
                        let w = m.find(needle).map(|i| m.split_at(i));
                        check!(w.is_some(), "split_once_on", "found {needle:?} in {m:?}");
                        let w = w.unwrap();
                        ok_text(&a, w.0, "split_once_on");
                        ok_text(&b, w.1, "split_once_on");
                    }
                    Err(x) => {
                        check!(!m.contains(needle), "split_once_on", "{needle:?} not found in {m:?}");
                        ok_text(&x, m, "split_once_on");
                    }
                }
                for x in t.clone().split_on(needle) {
                    check!(core::str::from_utf8(x.as_bytes()).is_ok(), "split_on", "piece {:02x?}", x.as_bytes());
                }
            }
        }
        ok_text(&t, m, "text");
        c.step(hash_bytes(rep as u64 * 16 + k as u64, m.as_bytes()));
    }
}

pub fn ok_queue(q: &StringQueue<'_>, m: &str, what: &str) {
    let mut at = 0;
    for ch in q.byte_chunks() {
        check!(core::str::from_utf8(ch.as_slice()).is_ok(), what, "chunk at {at} holds {:02x?}", ch.as_slice());
        check!(m.as_bytes()[at.min(m.len())..].starts_with(ch.as_slice()), what, "chunk at {at} is {:02x?}, expected text {m:?}", ch.as_slice());
        at += ch.len();
    }
    check!(at == m.len() && q.len() == m.len(), what, "holds {at} bytes, len() {}, expected {m:?}", q.len());
}

/// A chunking of the text at character boundaries, every combination.
fn draw_queue(c: &mut Ctx, m: &'static str, reps: &[Rep]) -> StringQueue<'static> {
    let mut q = StringQueue::new();
    let mut at = 0;
    let rep = c.pick(reps);
    for i in 1..=m.len() {
        if m.is_char_boundary(i) && (i == m.len() || c.flag()) {
            q.push_back(make_str(rep, &m[at..i]).unwrap_or(StringData::from_static(&m[at..i])));
            at = i;
        }
    }
    c.note(|| format!("queue of {:?} in {rep:?}", q.chunks().map(|x| x.as_str().to_string()).collect::<Vec<_>>()));
    q
}

fn window(b: (Bound<usize>, Bound<usize>), n: usize) -> Option<(usize, usize)> {
    let a = match b.0 {
        Bound::Unbounded => 0,
        Bound::Included(a) => a,
        Bound::Excluded(a) => a.checked_add(1)?,
    };
    let e = match b.1 {
        Bound::Unbounded => n,
        Bound::Excluded(a) => a,
        Bound::Included(a) => a.checked_add(1)?,
    };
    (a <= e && e <= n).then_some((a, e))
}

/// One operation at any position, valid or not. Returns whether it was refused.
fn one_queue_op(c: &mut Ctx, q: &mut StringQueue<'static>, m: &mut String, all: bool) {
    let n = m.len();
    let far = [n + 1, usize::MAX];
    let k = c.choose(6);
    if k < 4 {
        let (a, b);
        if all {
            let ai = c.choose(n + 3);
            let bi = c.choose(n + 3);
            a = if ai > n { far[ai - n - 1] } else { ai };
            b = if bi > n { far[bi - n - 1] } else { bi };
        } else {
            a = c.choose(n + 2);
            b = c.choose(n + 2);
        }
        let form = if all { c.choose(5) } else { 0 };
        let r: (Bound<usize>, Bound<usize>) = match form {
            0 => (Bound::Included(a), Bound::Excluded(b)),
            1 => (Bound::Included(a), Bound::Included(b)),
            2 if a == b => (Bound::Included(a), Bound::Unbounded),
            3 if a == b => (Bound::Unbounded, Bound::Included(b)),
            4 => (Bound::Excluded(a), Bound::Excluded(b)),
            _ => c.skip(),
        };
        let win = window(r, n);
        let want = win.and_then(|(a, b)| m.get(a..b));
        let key = ["slice", "drain", "drain partly", "replace_range"][k];
        c.note(|| format!("{key} {r:?}, standard string gives {want:?}"));
        let got: Option<()> = match k {
            0 => attempt(|| q.slice(r)).map(|s| {
                if let Some(w) = want {
                    ok_queue(&s, w, key);
                } else {
                    check!(false, "slice accepted", "range {r:?} of {m:?} gave {} bytes", s.len());
                }
            }),
            1 => attempt(|| {
                let s: String = q.drain(r).collect();
                check!(Some(&*s) == want, key, "drained {s:?}, expected {want:?}");
            }),
            2 => attempt(|| {
                let mut d = q.drain(r);
                let x = d.next();
                if let Some(w) = want {
                    check!(x == w.chars().next(), key, "first drained {x:?} of {w:?}");
                }
                drop(d);
            }),
            _ => attempt(|| q.replace_range(r, StringData::from_static("é0123456789abcde"))),
        };
        check!(got.is_some() == want.is_some(), if got.is_some() { "accepted" } else { "refused" }, "{key} {r:?} of {m:?}: {} but a string {}", if got.is_some() { "accepted" } else { "panicked" }, if want.is_some() { "accepts it" } else { "refuses it" });
        if got.is_some() {
            let (a, b) = win.unwrap();
            match k {
                0 => {}
                1 | 2 => {
                    m.drain(a..b);
                }
                _ => m.replace_range(a..b, "é0123456789abcde"),
            }
        }
        ok_queue(q, m, key);
    } else if k == 4 {
        let p = c.choose(n + 3);
        let p = if p > n { far[p - n - 1] } else { p };
        c.note(|| format!("split_off {p}"));
        match attempt(|| q.split_off(p)) {
            Some(r) => {
                check!(m.is_char_boundary(p), "accepted", "split_off {p} of {m:?} gave {} bytes", r.len());
                ok_queue(&r, &m[p..], "split_off");
                m.truncate(p);
            }
            None => check!(!m.is_char_boundary(p), "refused", "split_off {p} of {m:?}"),
        }
        ok_queue(q, m, "split_off");
    } else {
        let x = c.choose(m.chars().count() + 1);
        let p = m.char_indices().nth(x).map_or(n, |x| x.0);
        let mut i = 0;
        let t = q.take_while(|_| {
            i += 1;
            i <= x
        });
        c.note(|| format!("take_while of {x} characters"));
        ok_queue(&t, &m[..p], "take_while");
        m.drain(..p);
        ok_queue(q, m, "take_while");
    }
}

fn queue(c: &mut Ctx) {
    let m = draw_text(c, c.q(4, 5));
    let mut q = draw_queue(c, m, &[Rep::Static]);
    let mut m = m.to_string();
    one_queue_op(c, &mut q, &mut m, true);
    c.step(crate::p02::hash(q.as_bytequeue(), m.as_bytes()));
}

fn queue_pairs(c: &mut Ctx) {
    let m = draw_text(c, c.q(2, 3));
    let mut q = draw_queue(c, m, c.q(&[Rep::Inline][..], &[Rep::Inline, Rep::Shared, Rep::ExtHeap][..]));
    let mut m = m.to_string();
    for _ in 0..2 {
        one_queue_op(c, &mut q, &mut m, false);
        c.step(crate::p02::hash(q.as_bytequeue(), m.as_bytes()));
    }
}

fn builder(c: &mut Ctx) {
    let mut b;
    let mut m;
    match c.choose(5) {
        0 => {
            b = SharedStrBuilder::new();
            m = String::new();
        }
        1 => {
            b = SharedStrBuilder::with_capacity(c.pick(&[0usize, 1, 5, 40]));
            m = String::new();
        }
        2 => {
            b = SharedStrBuilder::from("a€");
            m = "a€".to_string();
        }
        3 => {
            // take over a unique shared text
            let rep = c.pick(CORE);
            let Some(t) = make_str(rep, "å€😀") else { c.skip() };
            c.note(|| format!("builder from {rep:?} text"));
            b = t.into();
            m = "å€😀".to_string();
        }
        _ => {
            // a text whose storage somebody else also holds
            let rep = c.pick(CORE);
            let Some(t) = make_str(rep, "å€😀") else { c.skip() };
            let keep = t.clone();
            c.note(|| format!("builder from {rep:?} text also held elsewhere"));
            b = t.into();
            b.push('x');
            ok_text(&keep, "å€😀", "other holder");
            m = "å€😀x".to_string();
        }
    }
    for _ in 0..c.q(3, 4) {
        let k = c.choose(7);
        match k {
            0 => {
                let s = c.pick(&CHARS);
                b.push(s.chars().next().unwrap());
                m.push_str(s);
                c.note(|| format!("push {s:?}"));
            }
            1 => {
                let s = c.pick(&["", "å", "0123456789abcdef€"]);
                b.push_str(s);
                m.push_str(s);
                c.note(|| format!("push_str {s:?}"));
            }
            2 => {
                let p = c.choose(m.len() + 3);
                let p = if p == m.len() + 2 { usize::MAX } else { p };
                let want = p <= m.len() && m.is_char_boundary(p);
                c.note(|| format!("truncate {p}"));
                let r = attempt(|| b.truncate(p));
                // a position past the end may be ignored (as String does) or refused
                if p <= m.len() {
                    check!(r.is_some() == want, if want { "refused" } else { "accepted" }, "truncate {p} of {m:?}");
                }
                if want {
                    m.truncate(p);
                }
            }
            3 => {
                b.clear();
                m.clear();
                c.note(|| "clear".into());
            }
            4 => {
                use core::fmt::Write;
                check!(write!(b, "{}{}", "€", 7).is_ok(), "write", "failed");
                m.push_str("€7");
            }
            5 => {
                // through the byte builder and back
                let bb: SharedBytesBuilder = if c.flag() { b.into() } else { b.into_shared_bytes_builder() };
                b = match SharedStrBuilder::try_from(bb) {
                    Ok(x) => x,
                    Err(_) => fail("round trip", "text builder rejected its own bytes".into()),
                };
                c.note(|| "through a byte builder".into());
            }
            _ => {
                let t: StringData<'static> = match c.choose(3) {
                    0 => b.build_str(),
                    1 => b.into(),
                    _ => StringData::try_from_bytedata(ByteData::from(b)).ok().unwrap(),
                };
                ok_text(&t, &m, "built");
                b = t.into();
                c.note(|| "built and taken over again".into());
            }
        }
        check!(core::str::from_utf8(b.as_bytes()).is_ok(), "invalid", "builder holds {:02x?}", b.as_bytes());
        check!(b.as_bytes() == m.as_bytes() && b.as_str() == m && b.len() == m.len() && b.is_empty() == m.is_empty(), "builder", "holds {:?}, expected {m:?}", b.as_str());
        check!(b.capacity() >= b.len(), "builder", "capacity");
        c.step(hash_bytes(b.capacity() as u64, m.as_bytes()));
    }
}
