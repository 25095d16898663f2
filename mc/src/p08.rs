//! C08: handles sharing storage are isolated from one another.
use crate::explore::*;
use crate::pool::*;
use crate::reps::*;
use crate::{alloc, check};
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, StringData, StringQueue};

pub const SUITES: &[Suite] = &[
    Suite { prop: "C08", name: "siblings", body: siblings, leaks: true },
    Suite { prop: "C08", name: "mutators", body: mutators, leaks: true },
    Suite { prop: "C08", name: "source", body: source, leaks: true },
];

/// Two or three handles on one block from the start, any operations after that.
fn siblings(c: &mut Ctx) {
    let Some((h, m)) = seed(c, REPS, &[40, 16]) else { c.skip() };
    let H::Data(d) = h else { c.skip() };
    let mut p = Pool::new(3);
    let n = m.len();
    let (a, b) = c.pick(&[(0, n), (1, n), (0, n - 1), (n / 2, n), (0, n / 2)]);
    let e = d.sliced(a..b);
    c.note(|| format!("second handle on {a}..{b}"));
    p.add(H::Data(d), m);
    p.add(H::Data(e), &m[a..b]);
    p.verify("at the start");
    let d = c.q(2, 3);
    p.run(c, d);
    p.finish(c);
}

/// Every way to obtain something mutable from one of several handles, then mutation.
fn mutators(c: &mut Ctx) {
    let rep = c.pick(REPS);
    let n = c.pick(&[16usize, 40]);
    let m = stat(&TEXT[..n]);
    let Some(d) = make(rep, m) else { c.skip() };
    let n = m.len();
    // pieces: every handle a window of the block, the original dropped or not
    let wins = [(0, n), (0, n / 2), (n / 2, n), (1, n), (0, n - 1)];
    let mut hs: Vec<(ByteData<'static>, usize, usize)> = Vec::new();
    let k = 1 + c.choose(3);
    for _ in 0..k {
        let (a, b) = c.pick(&wins);
        hs.push((d.sliced(a..b), a, b));
    }
    if c.flag() {
        hs.push((d, 0, n));
    } else {
        drop(d);
    }
    c.note(|| format!("{rep:?}: windows {:?}", hs.iter().map(|x| (x.1, x.2)).collect::<Vec<_>>()));
    for round in 0..2 {
        if hs.is_empty() {
            break;
        }
        let i = if round == 0 { 0 } else { hs.len() - 1 };
        let (d, a, b) = hs.remove(i);
        let w = &m[a..b];
        let k = c.choose(10);
        c.note(|| format!("window {a}..{b} made mutable, way {k}"));
        match k {
            0 => {
                let mut v = Vec::from(d);
                check!(v == w, "into vec", "{v:02x?}");
                v.iter_mut().for_each(|x| *x = 0xFF);
                v.extend_from_slice(&[0xFE; 64]);
            }
            1 => {
                let mut x = SharedBytesBuilder::from(SharedBytes::from(d));
                check!(x.as_slice() == w, "into builder", "{:02x?}", x.as_slice());
                x.as_slice_mut().iter_mut().for_each(|x| *x = 0xFF);
                x.extend_from_slice(&[0xFE; 64]);
            }
            2 => {
                // writing into what lies behind the window within the block
                let mut x = SharedBytesBuilder::from(SharedBytes::from(d));
                x.apply_unfilled(|s| {
                    s.iter_mut().for_each(|y| {
                        y.write(0xFD);
                    });
                    ((), s.len())
                });
                check!(&x.as_slice()[..w.len()] == w, "into builder", "{:02x?}", x.as_slice());
            }
            3 => {
                let s = StringData::try_from(d).unwrap();
                let mut s = String::from(s);
                check!(s.as_bytes() == w, "into string", "{s:?}");
                s.make_ascii_uppercase();
                s.push_str("appended to the string for good measure");
            }
            4 => {
                let mut x = bytes::BytesMut::from(bytes::Bytes::from(d));
                check!(x == w, "into foreign", "{x:02x?}");
                x.iter_mut().for_each(|x| *x = 0xFF);
                x.extend_from_slice(&[0xFE; 64]);
            }
            5 => {
                if let Ok(mut x) = bytes::Bytes::from(d).try_into_mut() {
                    check!(x == w, "into foreign", "{x:02x?}");
                    x.iter_mut().for_each(|x| *x = 0xFF);
                    x.resize(200, 0xFE);
                }
            }
            6 => {
                let mut x = std::borrow::Cow::<[u8]>::from(d);
                check!(*x == *w, "into cow", "{x:02x?}");
                x.to_mut().iter_mut().for_each(|x| *x = 0xFF);
            }
            7 => {
                let mut q = ByteQueue::from(d);
                q.replace_range(0..w.len() / 2, ByteData::from_static(&[0xFF; 32]));
                q.push_back(ByteData::from_static(&[0xFE; 8]));
                let mut v = Vec::from(ByteData::from(q));
                v.iter_mut().for_each(|x| *x = 0xFF);
            }
            8 => {
                let mut v: Vec<u8> = StringData::try_from(d).unwrap().into();
                check!(v == w, "text into vec", "{v:02x?}");
                v.iter_mut().for_each(|x| *x = 0xFF);
                v.resize(100, 0xFE);
            }
            _ => {
                let mut v: Vec<u8> = ByteQueue::from(d).into();
                check!(v == w, "queue into vec", "{v:02x?}");
                v.iter_mut().for_each(|x| *x = 0xFF);
                v.resize(100, 0xFE);
            }
        }
        for (d, a, b) in &hs {
            check!(d.as_slice() == &m[*a..*b], "sibling", "window {a}..{b} became {:02x?}", d.as_slice());
        }
        c.step(mix(a as u64 * 64 + b as u64, k as u64 * 100 + rep as u64));
    }
}

/// Made shared or owned, then the borrowed source is overwritten and freed.
fn source(c: &mut Ctx) {
    let n = c.pick(&[0usize, 1, 3, 13, 14, 15, 16, 40]);
    let m = &TEXT[..n];
    let mut src: Vec<u8> = m.to_vec();
    let kind = c.choose(18);
    let pre = c.choose(3);
    c.note(|| format!("{n} bytes, way {kind}, prelude {pre}"));
    let ranges = [(0, n), (0, n / 2), (n / 2, n), (n.min(1), n), (n, n)];
    let (a, b) = c.pick(&ranges);
    enum O {
        D(ByteData<'static>),
        S(SharedBytes),
        V(Vec<u8>),
        Q(ByteQueue<'static>),
        T(StringData<'static>),
        Bb(bytes::Bytes),
        Str(String),
    }
    // the value whose content must survive its source
    let (o, w): (O, &[u8]) = {
        let mut d = ByteData::from_borrowed(&src);
        let mut w = m;
        match pre {
            0 => {}
            1 => {
                d.make_sliced(a..b);
                w = &m[a..b];
            }
            _ => {
                d = d.sliced(a..b).clone();
                w = &m[a..b];
            }
        }
        let k = w.len();
        let (x, y) = if k < 2 { (0, k) } else { (1, k) };
        let text = || unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(src.as_ptr(), n)) };
        match kind {
            0 => (O::D(d.into_shared()), w),
            1 => (O::D(d.into_shared_range(x..y)), &w[x..y]),
            2 => (O::S(SharedBytes::from(d)), w),
            3 => (O::V(Vec::from(d)), w),
            4 => (O::Bb(bytes::Bytes::from(d)), w),
            5 => (O::T(StringData::try_from(d).unwrap().into_shared()), w),
            6 => (O::T(StringData::try_from(d).unwrap().into_shared_range(x..y)), &w[x..y]),
            7 => (O::Str(String::from(StringData::try_from(d).unwrap())), w),
            8 => (O::D(ByteData::from_chunk_slice(&src[..n.min(14)])), &m[..n.min(14)]),
            9 => (O::S(SharedBytes::from_slice(&src)), m),
            10 => {
                let mut q = ByteQueue::from(d);
                q.push_back(&src[..]);
                let all: ByteQueue<'static> = q.into_iter().map(|x| x.into_shared()).collect();
                check!(all.len() == w.len() + n, "queue into shared", "length {}", all.len());
                let mut all = all;
                let r = all.split_off(w.len());
                check!(Vec::from(r) == m, "queue into shared", "second chunk");
                (O::Q(all), w)
            }
            11 => (O::D(ByteData::from_concat(&[&src[..n / 2], &src[n / 2..], b"tail that is long enough"]).concat_fix(n).into_shared()), m),
            12 => (O::D(ByteData::from_cow(std::borrow::Cow::<[u8]>::Owned(src.clone()))), m),
            13 => {
                let q = StringQueue::from(text());
                (O::Str(String::from(q)), m)
            }
            14 => {
                let q = ByteQueue::from(d);
                (O::Bb(bytes::Bytes::from(q)), w)
            }
            15 => {
                let mut q = ByteQueue::from(d);
                q.push_back(ByteData::from_borrowed(&src[..n.min(1)]));
                let mut v: Vec<u8> = q.into();
                v.truncate(w.len());
                (O::V(v), w)
            }
            16 => {
                let q = ByteQueue::from(d);
                (O::S(SharedBytes::from(q)), w)
            }
            _ => {
                let mut q = ByteQueue::from(d);
                q.push_front(&src[..n / 2]);
                let s = SharedBytes::from(q);
                (O::S(s.into_sliced(n / 2, w.len())), w)
            }
        }
    };
    let look = |o: &O, at: &str| match o {
        O::D(d) => check!(d.as_slice() == w, at, "{:02x?} expected {w:02x?}", d.as_slice()),
        O::S(d) => check!(d.as_slice() == w, at, "{:02x?} expected {w:02x?}", d.as_slice()),
        O::V(d) => check!(&d[..] == w, at, "{d:02x?} expected {w:02x?}"),
        O::Q(d) => {
            let v: Vec<u8> = d.bytes().collect();
            check!(v == w, at, "{v:02x?} expected {w:02x?}");
        }
        O::T(d) => check!(d.as_bytes() == w, at, "{:02x?} expected {w:02x?}", d.as_bytes()),
        O::Bb(d) => check!(d == w, at, "{d:02x?} expected {w:02x?}"),
        O::Str(d) => check!(d.as_bytes() == w, at, "{d:02x?} expected {w:02x?}"),
    };
    look(&o, "before the source is gone");
    src.iter_mut().for_each(|x| *x = 0xEE);
    look(&o, "after the source was overwritten");
    drop(src);
    let filler = vec![0xABu8; n.max(1)];
    look(&o, "after the source was freed");
    drop(filler);
    c.step(hash_bytes(kind as u64, w));
    let _ = alloc::live();
}

trait ConcatFix {
    fn concat_fix(self, n: usize) -> Self;
}
impl<'a> ConcatFix for ByteData<'a> {
    fn concat_fix(self, n: usize) -> Self {
        self.into_sliced(..n)
    }
}
