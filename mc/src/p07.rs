//! C07: the builders behave as growable arrays, with honoured alignment.
use crate::alloc;
use crate::check;
use crate::explore::*;
use crate::reps::*;
use bytedata::{ByteData, SharedBytes, SharedBytesBuilder, SharedStrBuilder, StringData};
use std::fmt::Write as _;
use std::future::Future;
use std::io::Write as _;
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

pub const SUITES: &[Suite] = &[
    Suite { prop: "C07", name: "history", body: history, leaks: true },
    Suite { prop: "C07", name: "sizes", body: sizes, leaks: true },
    Suite { prop: "C07", name: "refusal", body: refusal, leaks: true },
    Suite { prop: "C07", name: "shared_origin", body: shared_origin, leaks: true },
    Suite { prop: "C07", name: "text", body: text, leaks: true },
];

pub struct B {
    pub b: SharedBytesBuilder,
    pub m: Vec<u8>,
    pub al: usize,
    next: u8,
}

impl B {
    pub fn check(&self, at: &str) {
        let (b, m) = (&self.b, &self.m);
        check!(b.as_slice() == &m[..], at, "holds {:02x?}, expected {m:02x?}", b.as_slice());
        check!(b.len() == m.len(), at, "length {} for {} bytes", b.len(), m.len());
        check!(b.is_empty() == m.is_empty(), at, "is_empty {} for {} bytes", b.is_empty(), m.len());
        check!(b.capacity() >= m.len(), at, "capacity {} below length {}", b.capacity(), m.len());
        if b.capacity() > 0 {
            let p = if m.is_empty() { b.as_slice().as_ptr() as usize } else { b.as_slice().as_ptr() as usize };
            check!(m.is_empty() || p % self.al == 0, "alignment", "bytes at {p:#x} after {at}, requested alignment {}", self.al);
        }
        let r: &[u8] = b.as_ref();
        let d: &[u8] = b;
        check!(r == &m[..] && d == &m[..], at, "views differ");
    }
    fn fresh(&mut self, n: usize) -> Vec<u8> {
        alloc::untracked(|| {
            (0..n)
                .map(|_| {
                    self.next = self.next.wrapping_add(1) | 0x80;
                    self.next
                })
                .collect()
        })
    }
    fn h(&self) -> u64 {
        hash_bytes((self.b.capacity() * 1024 + self.al) as u64, &self.m)
    }
}

pub const ALIGNS: [usize; 5] = [1, 4, 16, 64, 512];

pub fn start(c: &mut Ctx, caps: &[usize]) -> B {
    let k = c.choose(5);
    let (b, al) = match k {
        0 => (SharedBytesBuilder::new(), 1),
        1 => {
            let n = c.pick(caps);
            let b = SharedBytesBuilder::with_capacity(n);
            check!(b.capacity() >= n, "with_capacity", "{} for {n}", b.capacity());
            (b, 1)
        }
        2 => {
            let al = c.pick(&ALIGNS);
            (SharedBytesBuilder::with_alignment(al), al)
        }
        3 => {
            let al = c.pick(&ALIGNS);
            let n = c.pick(caps);
            let b = SharedBytesBuilder::with_aligned_capacity(n, al);
            check!(b.capacity() >= n, "with_aligned_capacity", "{} for {n}", b.capacity());
            (b, al)
        }
        _ => (SharedBytes::builder(), 1),
    };
    c.note(|| format!("builder kind {k} capacity {} alignment {al}", b.capacity()));
    B { b, m: Vec::with_capacity(4096), al, next: 0x80 }
}

const OPS: usize = 13;

struct YieldOnce(bool);
impl Future for YieldOnce {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            Poll::Pending
        }
    }
}

fn fill(x: &mut [MaybeUninit<u8>], src: &[u8]) {
    for (a, b) in x.iter_mut().zip(src) {
        a.write(*b);
    }
}

/// One operation on builder and model alike.
pub fn op(c: &mut Ctx, s: &mut B, sizes: &[usize]) {
    let k = c.choose(OPS);
    match k {
        0 => {
            let n = c.pick(sizes);
            let v = s.fresh(n);
            c.note(|| format!("extend_from_slice {n}"));
            s.b.extend_from_slice(&v);
            s.m.extend_from_slice(&v);
            alloc::untracked(|| drop(v));
        }
        1 => {
            let way = c.choose(6);
            c.note(|| format!("append way {way}"));
            match way {
                0 => {
                    s.b.extend([1u8, 2, 3]);
                    s.m.extend([1u8, 2, 3]);
                }
                1 => {
                    s.b.extend([4u8, 5].iter());
                    s.m.extend([4u8, 5].iter());
                }
                2 => {
                    s.b.extend([&b"ab"[..], b"", b"cde"]);
                    s.m.extend_from_slice(b"abcde");
                }
                3 => {
                    s.b.extend(["xy", "", "é"]);
                    s.m.extend_from_slice("xyé".as_bytes());
                }
                4 => {
                    check!(s.b.write_str("fmt").is_ok(), "write_str", "failed");
                    s.m.extend_from_slice(b"fmt");
                }
                _ => {
                    let r = s.b.write(b"io-bytes");
                    check!(matches!(r, Ok(8)), "io write", "{r:?}");
                    let r = s.b.write_all(b"!");
                    check!(r.is_ok() && std::io::Write::flush(&mut s.b).is_ok(), "io write_all", "failed");
                    s.m.extend_from_slice(b"io-bytes!");
                }
            }
        }
        2 => {
            let n = c.pick(sizes);
            c.note(|| format!("reserve {n}"));
            s.b.reserve(n);
            check!(s.b.capacity() - s.b.len() >= n, "reserve", "{n} asked, {} available", s.b.capacity() - s.b.len());
            if n > 0 {
                let c0 = s.b.capacity();
                let k = s.m.len();
                let p = if k > 0 { s.b.as_slice().as_ptr() as usize } else { 0 };
                let v = s.fresh(n);
                s.b.extend_from_slice(&v);
                check!(s.b.capacity() == c0 && (k == 0 || s.b.as_slice().as_ptr() as usize == p), "reserve", "appending the {n} reserved bytes reallocated");
                s.m.extend_from_slice(&v);
                alloc::untracked(|| drop(v));
            }
        }
        3 => {
            let l = s.m.len();
            let mut pos: Vec<usize> = vec![0, 1, l / 2, l.saturating_sub(1), l, l + 1, usize::MAX];
            pos.sort_unstable();
            pos.dedup();
            let n = c.pick(&pos);
            c.note(|| format!("truncate {n}"));
            s.b.truncate(n);
            s.m.truncate(n);
        }
        4 => {
            let c0 = s.b.capacity();
            c.note(|| "clear".into());
            s.b.clear();
            s.m.clear();
            check!(s.b.capacity() >= c0.min(1), "clear", "capacity");
        }
        5 => {
            c.note(|| "write in place".into());
            let way = c.choose(3);
            let x: &mut [u8] = match way {
                0 => s.b.as_slice_mut(),
                1 => s.b.as_mut(),
                _ => &mut s.b,
            };
            check!(x.len() == s.m.len(), "as_slice_mut", "{} bytes", x.len());
            for (i, y) in x.iter_mut().enumerate() {
                *y = y.wrapping_add((i as u8).wrapping_mul(3).wrapping_add(1));
            }
            for (i, y) in s.m.iter_mut().enumerate() {
                *y = y.wrapping_add((i as u8).wrapping_mul(3).wrapping_add(1));
            }
        }
        6 => {
            let spare = s.b.capacity() - s.b.len();
            let mut w: Vec<usize> = vec![0, 1.min(spare), spare / 2, spare];
            w.sort_unstable();
            w.dedup();
            let n = c.pick(&w);
            c.note(|| format!("apply_unfilled {n} of {spare}"));
            let v = s.fresh(n);
            let r = s.b.apply_unfilled(|x| {
                check!(x.len() == spare, "apply_unfilled", "given {} of {spare}", x.len());
                fill(x, &v);
                (42, n)
            });
            check!(r == 42, "apply_unfilled", "result lost");
            s.m.extend_from_slice(&v);
            alloc::untracked(|| drop(v));
        }
        7 => {
            // a callback that writes everywhere and panics, or claims too much
            let spare = s.b.capacity() - s.b.len();
            let way = c.choose(3);
            c.note(|| format!("apply_unfilled failing, way {way}"));
            let r = attempt(|| {
                s.b.apply_unfilled(|x| {
                    for y in x.iter_mut() {
                        y.write(0xDD);
                    }
                    match way {
                        0 => panic!("callback"),
                        1 => ((), spare + 1),
                        _ => ((), usize::MAX),
                    }
                })
            });
            check!(r.is_none(), "apply_unfilled", "accepted a claim beyond the {spare} spare bytes");
        }
        8 => {
            let spare = s.b.capacity() - s.b.len();
            let n = spare.min(3);
            let way = c.choose(4);
            c.note(|| format!("apply_unfilled_async, way {way}"));
            let v = s.fresh(n);
            let vv: &[u8] = &v;
            let mut cx = Context::from_waker(Waker::noop());
            let polls = match way {
                0 | 1 => 1,
                _ => 2,
            };
            let claim = if way == 3 { spare + 1 } else { n };
            let pend = way != 0;
            let r = attempt(|| {
                // the callback's future must be Send and live as long as the borrow
                let vv: &'static [u8] = unsafe { core::mem::transmute(vv) };
                let mut f = Box::pin(s.b.apply_unfilled_async(move |mut x: Pin<&mut [MaybeUninit<u8>]>| async move {
                    fill(&mut x, vv);
                    if pend {
                        YieldOnce(false).await;
                    }
                    (7u8, claim)
                }));
                let mut out = None;
                for _ in 0..polls {
                    if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
                        out = Some(r);
                        break;
                    }
                }
                out
            });
            match way {
                0 | 2 => {
                    check!(r == Some(Some(7)), "apply_unfilled_async", "{r:?}");
                    s.m.extend_from_slice(&v);
                }
                1 => check!(r == Some(None), "apply_unfilled_async", "{r:?}"),
                _ => check!(r.is_none(), "apply_unfilled_async", "claim beyond capacity accepted: {r:?}"),
            }
            alloc::untracked(|| drop(v));
        }
        9 => {
            let spare = s.b.capacity() - s.b.len();
            let n = c.pick(&[0usize, 1, 2, 1000]).min(spare);
            let way = c.choose(2);
            c.note(|| format!("apply_borrowed_buf {n} of {spare}, way {way}"));
            let v = s.fresh(n);
            let vv: &[u8] = &v;
            let r = attempt(|| {
                s.b.apply_borrowed_buf(|bb| {
                    check!(bb.capacity() == spare && bb.len() == 0, "apply_borrowed_buf", "given {} of {spare}", bb.capacity());
                    bb.unfilled().append(vv);
                    if way == 1 {
                        panic!("callback");
                    }
                    9
                })
            });
            if way == 0 {
                check!(r == Some(9), "apply_borrowed_buf", "{r:?}");
                s.m.extend_from_slice(&v);
            } else {
                check!(r.is_none(), "apply_borrowed_buf", "panic swallowed");
            }
            alloc::untracked(|| drop(v));
        }
        10 => {
            // freeze and thaw
            let keep = c.choose(3);
            c.note(|| format!("freeze and thaw, way {keep}"));
            let f = core::mem::take(&mut s.b).build();
            check!(f.as_slice() == &s.m[..], "build", "{:02x?} expected {:02x?}", f.as_slice(), s.m);
            check!(s.m.is_empty() || f.as_slice().as_ptr() as usize % s.al == 0, "alignment", "frozen bytes not aligned to {}", s.al);
            if s.m.is_empty() {
                s.al = 1;
            }
            let other = if keep == 1 { Some(f.clone()) } else { None };
            let f = if keep == 2 {
                let d = ByteData::from(f);
                SharedBytes::from(d)
            } else {
                f
            };
            if keep == 2 {
                // small values may have been stored inline meanwhile
                s.al = if f.as_slice().as_ptr() as usize % s.al == 0 { s.al } else { 1 };
            }
            s.b = SharedBytesBuilder::from(f);
            s.check("thaw");
            s.b.extend_from_slice(b"+");
            s.m.push(b'+');
            if let Some(o) = other {
                check!(o.as_slice() == &s.m[..s.m.len() - 1], "freeze", "frozen copy became {:02x?}", o.as_slice());
            }
        }
        11 => {
            // freeze, keep a part, thaw
            let l = s.m.len();
            if l < 2 {
                c.skip();
            }
            let (a, n) = c.pick(&[(0, l - 1), (1, l - 1), (1, 1), (l - 1, 1), (l / 2, l - l / 2), (0, 0), (l, 0)]);
            let dup = c.flag();
            c.note(|| format!("thaw part {a}+{n}, second handle {dup}"));
            let f = core::mem::take(&mut s.b).build();
            let o = dup.then(|| f.clone());
            s.b = SharedBytesBuilder::from(f.into_sliced(a, n));
            if let Some(o) = o {
                check!(o.as_slice() == &s.m[..], "freeze", "other handle became {:02x?}", o.as_slice());
            }
            s.m.drain(..a);
            s.m.truncate(n);
            if n == 0 {
                s.al = 1;
            }
        }
        _ => {
            c.note(|| "through ByteData".into());
            let m = &s.m;
            let d = ByteData::from(core::mem::take(&mut s.b));
            check!(d == &m[..], "into ByteData", "{:02x?} expected {m:02x?}", d.as_slice());
            s.b = SharedBytesBuilder::default();
            s.b.extend_from_slice(&d);
            s.al = 1;
        }
    }
}

fn history(c: &mut Ctx) {
    let mut s = start(c, &[0, 1, 5, 16]);
    let depth = c.q(3, 4);
    let n = c.choose(depth + 1);
    for _ in 0..n {
        op(c, &mut s, &[0, 1, 7, 20]);
        s.check("history");
        let h = s.h();
        c.step(h);
    }
    let m = core::mem::take(&mut s.m);
    let al = s.al;
    match c.choose(4) {
        0 => drop(s),
        1 => {
            let f = s.b.build();
            check!(f.as_slice() == &m[..], "build", "{:02x?} expected {m:02x?}", f.as_slice());
            check!(m.is_empty() || f.as_slice().as_ptr() as usize % al == 0, "alignment", "frozen bytes not aligned to {al}");
        }
        2 => {
            let f = SharedBytes::from(s.b);
            check!(f.is_unique(), "build", "a frozen builder is not unique");
            check!(f.as_slice() == &m[..], "build", "{:02x?} expected {m:02x?}", f.as_slice());
        }
        _ => {
            let f = ByteData::from(s.b);
            check!(f == &m[..], "build", "{:02x?} expected {m:02x?}", f.as_slice());
            let v = Vec::from(f);
            check!(v == m, "to vec", "{v:02x?} expected {m:02x?}");
        }
    }
}

/// Growth across every size class boundary.
fn sizes(c: &mut Ctx) {
    let mut s = start(c, &[0, 1, 31, 32, 33]);
    let l = c.pick(&[0usize, 1, 3, 4, 5, 11, 12, 13, 19, 20, 21, 31, 32, 51, 52, 53, 115, 116, 117, 244, 500, 1012, 4084, 16372, 32739, 32740, 32755, 32756, 32757, 32768, 65523, 65524, 65525, 98304]);
    c.note(|| format!("first {l} bytes"));
    let v = s.fresh(l);
    s.b.extend_from_slice(&v);
    s.m.extend_from_slice(&v);
    alloc::untracked(|| drop(v));
    s.check("first");
    let how = c.choose(3);
    let n = c.pick(&[0usize, 1, 2, 8, 13, 32755, 32756, 32757, 65536]);
    c.note(|| format!("way {how}, then {n} bytes"));
    match how {
        0 => {}
        1 => {
            s.b.reserve(n);
            check!(s.b.capacity() - s.b.len() >= n, "reserve", "{n} asked, {} available", s.b.capacity() - s.b.len());
            s.check("reserved");
        }
        _ => {
            s.b.truncate(l / 2);
            s.m.truncate(l / 2);
            s.check("truncated");
        }
    }
    let v = s.fresh(n);
    s.b.extend_from_slice(&v);
    s.m.extend_from_slice(&v);
    alloc::untracked(|| drop(v));
    s.check("second");
    let h = s.h();
    c.step(h);
    let f = s.b.build();
    check!(f.as_slice() == &s.m[..], "build", "differs");
}

/// Allocation refused at any point: the call panics or copes, content is kept.
fn refusal(c: &mut Ctx) {
    let mut s = start(c, &[0, 5]);
    let pre = c.choose(3);
    for _ in 0..pre {
        let n = c.pick(&[1usize, 9, 40]);
        let v = s.fresh(n);
        s.b.extend_from_slice(&v);
        s.m.extend_from_slice(&v);
        alloc::untracked(|| drop(v));
    }
    let what = c.choose(4);
    let n = c.pick(&[3usize, 30, 300]);
    let run = 1 + c.choose(3) as i64;
    c.note(|| format!("{} bytes held, call {what} of size {n}, {run} allocation(s) refused", s.m.len()));
    let v = s.fresh(n);
    let before = s.m.clone();
    alloc::fail_run(1, run);
    let ok = match what {
        0 => attempt(|| s.b.extend_from_slice(&v)).is_some(),
        1 => attempt(|| s.b.reserve(n)).is_some(),
        2 => attempt(|| s.b.extend(v.iter().copied())).is_some(),
        _ => attempt(|| s.b.write_all(&v).is_ok()).unwrap_or(false),
    };
    let hit = alloc::fail_hit();
    if ok {
        match what {
            1 => check!(s.b.capacity() - s.b.len() >= n, "reserve", "granted {} of {n}", s.b.capacity() - s.b.len()),
            _ => s.m.extend_from_slice(&v),
        }
    } else {
        check!(hit, "growth", "failed although no allocation was refused");
        if what == 2 {
            // byte by byte: what was appended before the refusal stays
            let k = s.b.len().saturating_sub(before.len());
            s.m.extend_from_slice(&v[..k.min(v.len())]);
        }
    }
    s.check("after refusal");
    s.b.extend_from_slice(b"go on");
    s.m.extend_from_slice(b"go on");
    s.check("going on");
    alloc::untracked(|| {
        drop(v);
    });
    let h = s.h();
    c.step(h);
    // the conversions as well
    let f = s.b.build();
    let o = f.clone();
    alloc::fail_run(1, run);
    let t = attempt(|| SharedBytesBuilder::from(o));
    alloc::fail_hit();
    check!(f.as_slice() == &s.m[..], "after refused thaw", "{:02x?}", f.as_slice());
    if let Some(t) = t {
        check!(t.as_slice() == &s.m[..], "thaw", "{:02x?}", t.as_slice());
    }
    check!(f.is_unique(), "after refused thaw", "a handle was lost");
}

/// A builder taken from shared data of any origin, uniquely held or not.
fn shared_origin(c: &mut Ctx) {
    let n = c.pick(&[0usize, 1, 5, 14, 15, 40]);
    let m = pattern(n);
    let al = c.pick(&[0usize, 1, 2, 4, 8, 32, 512, 1024, 4096]);
    let f = if al == 0 { SharedBytes::from_slice(m) } else { SharedBytes::from_slice_aligned(m, al) };
    let al = al.max(1);
    check!(f.as_slice() == m, "from_slice_aligned", "{:02x?}", f.as_slice());
    check!(n == 0 || f.as_slice().as_ptr() as usize % al == 0, "alignment", "shared bytes not aligned to {al}");
    let (a, k) = c.pick(&[(0, n), (0, n / 2), (n / 2, n - n / 2), (n, 0), (0, n.min(1)), (n - n.min(1), n.min(1))]);
    let way = c.choose(4);
    c.note(|| format!("{n} bytes aligned {al}, part {a}+{k}, way {way}"));
    let (part, other) = match way {
        0 => (f.into_sliced(a, k), None),
        1 => (f.sliced(a, k), Some(f)),
        2 => {
            let p = f.sliced(a, k);
            drop(f);
            (p, None)
        }
        _ => {
            let o = f.clone();
            (f.into_sliced(a, k), Some(o))
        }
    };
    let alone = other.is_none();
    let old = part.as_slice().as_ptr() as usize;
    check!(k == 0 || part.is_unique() == alone, "is_unique", "{} with{} another handle", part.is_unique(), if alone { "out" } else { "" });
    let b = SharedBytesBuilder::from(part);
    let mut s = B { b, m: m[a..a + k].to_vec(), al: if k == 0 { 1 } else { al }, next: 0 };
    s.check("from shared");
    if !alone && k > 0 {
        check!(s.b.as_slice().as_ptr() as usize != old, "from shared", "a builder was given storage that another handle still reads");
    }
    for _ in 0..c.choose(c.q(2, 3)) {
        op(c, &mut s, &[1, 16, 60]);
        s.check("after thaw");
        let h = s.h();
        c.step(h);
    }
    if let Some(o) = other {
        let w = if way == 1 || way == 3 { m } else { m };
        check!(o.as_slice() == w, "other handle", "{:02x?} expected {w:02x?}", o.as_slice());
    }
}

/// The text builder against a String.
fn text(c: &mut Ctx) {
    let mut m = String::with_capacity(4096);
    let k = c.choose(4);
    let mut b = match k {
        0 => SharedStrBuilder::new(),
        1 => SharedStrBuilder::with_capacity(c.pick(&[0usize, 3, 40])),
        2 => {
            m.push_str("añ€");
            SharedStrBuilder::from("añ€")
        }
        _ => {
            m.push_str("some long text held in shared storage");
            let t = StringData::from(SharedStrBuilder::from(&*m));
            let dup = if c.flag() { Some(t.clone()) } else { None };
            let b = SharedStrBuilder::from(t);
            drop(dup);
            b
        }
    };
    c.note(|| format!("text builder kind {k}: {m:?}"));
    for _ in 0..c.choose(c.q(4, 5)) {
        let k = c.choose(7);
        match k {
            0 => {
                let ch = c.pick(&['\0', 'z', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}']);
                b.push(ch);
                m.push(ch);
            }
            1 => {
                let t = c.pick(&["", "q", "€", "text of more than fifteen bytes"]);
                b.push_str(t);
                m.push_str(t);
            }
            2 => {
                let n = c.pick(&[0usize, 1, 50]);
                b.reserve(n);
                check!(b.capacity() - b.len() >= n, "reserve", "{n}");
            }
            3 => {
                b.clear();
                m.clear();
            }
            4 => {
                let l = m.len();
                let n = c.pick(&[0, 1, l / 2, l.saturating_sub(1), l, l + 1]);
                let a = attempt(|| b.truncate(n)).is_some();
                let legal = n >= l || m.is_char_boundary(n);
                check!(a == legal, "truncate", "{n} of {m:?}: accepted {a}");
                if legal {
                    m.truncate(n);
                }
            }
            5 => {
                check!(write!(b, "{}-{:>3}", 7, "x").is_ok(), "write", "failed");
                m.push_str("7-  x");
            }
            _ => {
                let f = b.build();
                check!(f.as_slice() == m.as_bytes(), "build", "{:02x?}", f.as_slice());
                b = match SharedStrBuilder::try_from(SharedBytesBuilder::from(f)) {
                    Ok(b) => b,
                    Err(e) => fail("thaw", format!("{e}")),
                };
            }
        }
        c.note(|| format!("op {k}: {m:?}"));
        check!(b.as_str() == m && b.as_bytes() == m.as_bytes() && b.len() == m.len() && b.is_empty() == m.is_empty() && b.capacity() >= b.len(), "text builder", "{:?} expected {m:?}", b.as_str());
        c.step(hash_bytes(b.capacity() as u64, m.as_bytes()));
    }
    match c.choose(4) {
        0 => {
            let t = b.build_str();
            check!(t == *m, "build_str", "{:?}", t.as_str());
        }
        1 => {
            let t = StringData::from(b);
            check!(t == *m, "into text", "{:?}", t.as_str());
        }
        2 => {
            let t = ByteData::from(b);
            check!(t == m.as_bytes(), "into bytes", "{:?}", t.as_slice());
        }
        _ => {
            let t = SharedBytes::from(b);
            check!(t == m.as_bytes(), "into shared", "{:?}", t.as_slice());
        }
    }
}
