//! A pool of handles of every kind, each with the bytes it must show; operations on one handle,
//! checks on all of them.
use crate::check;
use crate::explore::*;
use crate::alloc::untracked;
use crate::reps::*;
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, StringData, StringQueue};
use bytes::{Buf, BufMut, Bytes, BytesMut};
use std::borrow::Cow;

pub const TEXT: &[u8] = b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";

pub enum H {
    Data(ByteData<'static>),
    Shared(SharedBytes),
    Builder(SharedBytesBuilder),
    Vecd(Vec<u8>),
    Text(StringData<'static>),
    Str(String),
    Queue(ByteQueue<'static>),
    SQueue(StringQueue<'static>),
    Fb(Bytes),
    Fm(BytesMut),
}
use H::*;

pub struct Pool {
    pub hs: Vec<(H, Vec<u8>)>,
    max: usize,
}

fn cuts3(n: usize) -> Vec<usize> {
    untracked(|| {
        let mut v = vec![0, 1, n / 2, n.saturating_sub(1), n];
        v.retain(|x| *x <= n);
        v.sort_unstable();
        v.dedup();
        v
    })
}

fn parts(n: usize) -> Vec<(usize, usize)> {
    untracked(|| {
        let mut v = vec![(0, n), (0, n / 2), (n / 2, n), (1.min(n), n), (0, n.saturating_sub(1)), (n / 2, n / 2)];
        v.sort_unstable();
        v.dedup();
        v
    })
}

fn mv(b: &[u8]) -> Vec<u8> {
    untracked(|| {
        let mut v = Vec::with_capacity(256);
        v.extend_from_slice(b);
        v
    })
}

impl Drop for Pool {
    fn drop(&mut self) {
        for (_, m) in &mut self.hs {
            let m = core::mem::take(m);
            untracked(|| drop(m));
        }
        let v = core::mem::take(&mut self.hs);
        let mut v = v;
        while let Some((h, _)) = v.pop() {
            drop(h);
        }
        untracked(|| drop(v));
    }
}

pub fn verify(h: &H, m: &[u8], at: &str) {
    match h {
        Data(d) => {
            check!(d.as_slice() == m, at, "data shows {:02x?}, expected {m:02x?}", d.as_slice());
            check!(d.len() == m.len() && d.is_empty() == m.is_empty(), at, "data length {}", d.len());
        }
        Shared(d) => check!(d.as_slice() == m && d.len() == m.len(), at, "shared bytes show {:02x?}, expected {m:02x?}", d.as_slice()),
        Builder(d) => check!(d.as_slice() == m && d.len() == m.len() && d.capacity() >= m.len(), at, "builder shows {:02x?}, expected {m:02x?}", d.as_slice()),
        Vecd(d) => check!(d == m, at, "vector shows {d:02x?}, expected {m:02x?}"),
        Text(d) => {
            check!(d.as_bytes() == m, at, "text shows {:02x?}, expected {m:02x?}", d.as_bytes());
        }
        Str(d) => check!(d.as_bytes() == m, at, "string shows {d:?}, expected {m:02x?}"),
        Queue(d) => queue(d, m, at),
        SQueue(d) => queue(d.as_bytequeue(), m, at),
        Fb(d) => check!(d == m, at, "foreign buffer shows {d:02x?}, expected {m:02x?}"),
        Fm(d) => check!(d == m, at, "foreign mutable buffer shows {d:02x?}, expected {m:02x?}"),
    }
}

fn queue(q: &ByteQueue, m: &[u8], at: &str) {
    check!(q.len() == m.len() && q.is_empty() == m.is_empty(), at, "queue length {}, expected {}", q.len(), m.len());
    let mut i = 0;
    let mut k = 0;
    for x in q.chunks() {
        let e = i + x.len();
        check!(!x.is_empty() && e <= m.len() && x.as_slice() == &m[i..e], at, "queue chunk {k} shows {:02x?}, expected part of {m:02x?}", x.as_slice());
        i = e;
        k += 1;
    }
    check!(i == m.len() && k == q.chunk_len(), at, "queue chunks hold {i} of {} bytes, {k} chunks of {}", m.len(), q.chunk_len());
}

impl Pool {
    pub fn new(max: usize) -> Self {
        Pool { hs: untracked(|| std::vec::Vec::with_capacity(max + 2)), max }
    }
    pub fn add(&mut self, h: H, m: &[u8]) {
        let m = mv(m);
        self.hs.push((h, m));
    }
    pub fn verify(&self, at: &str) {
        for (h, m) in &self.hs {
            verify(h, m, at);
        }
    }
    pub fn hash(&self) -> u64 {
        let mut x = 7;
        for (h, m) in &self.hs {
            x = hash_bytes(x ^ core::mem::discriminant(h).hash_u64(), m);
        }
        x
    }
    pub fn kill(&mut self, i: usize) {
        let (h, m) = self.hs.remove(i);
        untracked(|| drop(m));
        drop(h);
    }

    /// One operation on handle `i`.
    pub fn op(&mut self, c: &mut Ctx, i: usize) {
        let full = self.hs.len() >= self.max;
        let (h, m) = self.hs.remove(i);
        let n = m.len();
        // (handle that takes its place, content), further handles
        let put = |p: &mut Self, h: H, b: &[u8]| {
            let b = mv(b);
            p.hs.insert(i, (h, b));
        };
        let mut more: Option<(H, std::vec::Vec<u8>)> = None;
        match h {
            Data(mut d) => {
                let k = c.choose(if full { 12 } else { 18 });
                c.note(|| format!("handle {i} (data, {n} bytes): op {k}"));
                match k {
                    0 => drop(d),
                    1 => {
                        let (a, b) = c.pick(&parts(n));
                        let r = d.into_sliced(a..b);
                        put(self, Data(r), &m[a..b]);
                    }
                    2 => {
                        let (a, b) = c.pick(&parts(n));
                        d.make_sliced(a..b);
                        put(self, Data(d), &m[a..b]);
                    }
                    3 => put(self, Data(d.into_shared()), &m),
                    4 => put(self, Shared(SharedBytes::from(d)), &m),
                    5 => put(self, Vecd(std::vec::Vec::from(d)), &m),
                    6 => put(self, Fb(bytes::Bytes::from(d)), &m),
                    7 => put(self, Queue(ByteQueue::from(d)), &m),
                    8 => {
                        let r = d.next();
                        check!(r == m.first().copied(), "iterate", "{r:?}");
                        put(self, Data(d), m.get(1..).unwrap_or(&[]));
                    }
                    9 => match StringData::try_from(d) {
                        Ok(t) => put(self, Text(t), &m),
                        Err(e) => fail("into text", format!("{e:?}")),
                    },
                    10 => {
                        let r = Cow::from(d).into_owned();
                        put(self, Vecd(r), &m);
                    }
                    11 => {
                        let (a, b) = c.pick(&parts(n));
                        put(self, Data(d.into_shared_range(a..b)), &m[a..b]);
                    }
                    12 => {
                        let e = d.clone();
                        put(self, Data(d), &m);
                        more = Some((Data(e), mv(&m)));
                    }
                    13 => {
                        let (a, b) = c.pick(&parts(n));
                        let e = d.sliced(a..b);
                        put(self, Data(d), &m);
                        more = Some((Data(e), mv(&m[a..b])));
                    }
                    14 => {
                        let p = c.pick(&cuts3(n));
                        let e = d.take_bytes(p);
                        put(self, Data(d), &m[p..]);
                        more = Some((Data(e), mv(&m[..p])));
                    }
                    15 => {
                        let p = c.pick(&cuts3(n));
                        let (a, b) = d.split_at(p);
                        put(self, Data(a), &m[..p]);
                        more = Some((Data(b), mv(&m[p..])));
                    }
                    16 => {
                        let p = c.pick(&cuts3(n));
                        let e = d.copy_to_bytes(p);
                        put(self, Data(d), &m[p..]);
                        more = Some((Fb(e), mv(&m[..p])));
                    }
                    _ => {
                        // a refused operation in the middle of a history
                        let r = attempt(|| d.make_sliced(n + 1..));
                        check!(r.is_none(), "make_sliced", "range past the end accepted");
                        let e = d.clone();
                        let r = attempt(|| e.into_sliced(1..n + 1));
                        check!(r.is_none(), "into_sliced", "range past the end accepted");
                        put(self, Data(d), &m);
                    }
                }
            }
            Shared(mut d) => {
                let k = c.choose(if full { 7 } else { 9 });
                c.note(|| format!("handle {i} (shared, {n} bytes): op {k}"));
                match k {
                    0 => drop(d),
                    1 => {
                        let (a, b) = c.pick(&parts(n));
                        put(self, Shared(d.into_sliced(a, b - a)), &m[a..b]);
                    }
                    2 => put(self, Builder(SharedBytesBuilder::from(d)), &m),
                    3 => put(self, Data(ByteData::from(d)), &m),
                    4 => put(self, Fb(bytes::Bytes::from(d)), &m),
                    5 => {
                        let p = c.pick(&cuts3(n));
                        Buf::advance(&mut d, p);
                        put(self, Shared(d), &m[p..]);
                    }
                    6 => {
                        let r = attempt(|| {
                            d.make_sliced(1, n);
                        });
                        check!(r.is_none(), "make_sliced", "range past the end accepted");
                        put(self, Shared(d), &m);
                    }
                    7 => {
                        let e = d.clone();
                        put(self, Shared(d), &m);
                        more = Some((Shared(e), mv(&m)));
                    }
                    _ => {
                        let (a, b) = c.pick(&parts(n));
                        let e = d.sliced_range(a..b);
                        put(self, Shared(d), &m);
                        more = Some((Shared(e), mv(&m[a..b])));
                    }
                }
            }
            Builder(mut d) => {
                let k = c.choose(7);
                c.note(|| format!("handle {i} (builder, {n} bytes): op {k}"));
                let mut m2 = mv(&m);
                match k {
                    0 => drop(d),
                    1 => {
                        for x in d.as_slice_mut() {
                            *x ^= 0x20;
                        }
                        for x in &mut m2 {
                            *x ^= 0x20;
                        }
                        put(self, Builder(d), &m2);
                    }
                    2 => {
                        d.extend_from_slice(b"-appended-");
                        m2.extend_from_slice(b"-appended-");
                        put(self, Builder(d), &m2);
                    }
                    3 => {
                        d.truncate(n / 2);
                        d.extend_from_slice(b"!");
                        m2.truncate(n / 2);
                        m2.push(b'!');
                        put(self, Builder(d), &m2);
                    }
                    4 => put(self, Shared(d.build()), &m),
                    5 => {
                        d.clear();
                        d.put_slice(b"new");
                        put(self, Builder(d), b"new");
                    }
                    _ => {
                        d.reserve(3);
                        let k = d.apply_unfilled(|x| {
                            for y in x.iter_mut() {
                                y.write(b'u');
                            }
                            (x.len().min(3), x.len().min(3))
                        });
                        for _ in 0..k {
                            m2.push(b'u');
                        }
                        put(self, Builder(d), &m2);
                    }
                }
                untracked(|| drop(m2));
            }
            Vecd(mut d) => {
                let k = c.choose(4);
                c.note(|| format!("handle {i} (vector, {n} bytes): op {k}"));
                match k {
                    0 => drop(d),
                    1 => {
                        for x in &mut d {
                            *x = b'v';
                        }
                        let m2 = untracked(|| vec![b'v'; n]);
                        d.push(b'V');
                        d.pop();
                        put(self, Vecd(d), &m2);
                        untracked(|| drop(m2));
                    }
                    2 => put(self, Data(ByteData::from(d)), &m),
                    _ => put(self, Shared(SharedBytes::from(d)), &m),
                }
            }
            Text(mut d) => {
                let k = c.choose(if full { 7 } else { 10 });
                c.note(|| format!("handle {i} (text, {n} bytes): op {k}"));
                match k {
                    0 => drop(d),
                    1 => put(self, Data(d.into_bytedata()), &m),
                    2 => put(self, Str(String::from(d)), &m),
                    3 => {
                        let (a, b) = c.pick(&parts(n));
                        d.make_sliced(a..b);
                        put(self, Text(d), &m[a..b]);
                    }
                    4 => put(self, Vecd(std::vec::Vec::from(d)), &m),
                    5 => put(self, SQueue(StringQueue::from(d)), &m),
                    6 => put(self, Text(d.into_shared()), &m),
                    7 => {
                        let e = d.clone();
                        put(self, Text(d), &m);
                        more = Some((Text(e), mv(&m)));
                    }
                    8 => {
                        let p = c.pick(&cuts3(n));
                        let (a, b) = d.split_at(p);
                        put(self, Text(a), &m[..p]);
                        more = Some((Text(b), mv(&m[p..])));
                    }
                    _ => {
                        let mut left = n / 2;
                        let e = StringData::take_while(&mut d, |_| {
                            left = left.wrapping_sub(1);
                            left != usize::MAX
                        });
                        put(self, Text(d), &m[n / 2..]);
                        more = Some((Text(e), mv(&m[..n / 2])));
                    }
                }
            }
            Str(mut d) => {
                let k = c.choose(4);
                c.note(|| format!("handle {i} (string, {n} bytes): op {k}"));
                match k {
                    0 => drop(d),
                    1 => {
                        d.make_ascii_uppercase();
                        let mut m2 = mv(&m);
                        m2.make_ascii_uppercase();
                        put(self, Str(d), &m2);
                        untracked(|| drop(m2));
                    }
                    2 => put(self, Text(StringData::from(d)), &m),
                    _ => put(self, Data(ByteData::from(d)), &m),
                }
            }
            Queue(mut q) => {
                let k = c.choose(if full { 11 } else { 17 });
                c.note(|| format!("handle {i} (queue, {n} bytes in {} chunks): op {k}", q.chunk_len()));
                match k {
                    0 => drop(q),
                    1 => {
                        let p = c.pick(&cuts3(n));
                        q.consume(p);
                        put(self, Queue(q), &m[p..]);
                    }
                    2 => put(self, Data(ByteData::from(q)), &m),
                    3 => put(self, Fb(bytes::Bytes::from(q)), &m),
                    4 => put(self, Vecd(std::vec::Vec::from(q)), &m),
                    5 => {
                        let p = n / 2;
                        q.replace_range(p..p, ByteData::from_static(b"RR"));
                        let mut m2 = mv(&m);
                        untracked(|| drop(m2.splice(p..p, *b"RR")));
                        put(self, Queue(q), &m2);
                        untracked(|| drop(m2));
                    }
                    6 => {
                        // drain, abandoned half way
                        let (a, b) = c.pick(&parts(n));
                        let t = c.pick(&[0usize, 1, 1000]);
                        {
                            let mut it = q.drain(a..b);
                            for _ in 0..t {
                                if it.next().is_none() {
                                    break;
                                }
                            }
                        }
                        let mut m2 = mv(&m);
                        untracked(|| drop(m2.drain(a..b)));
                        put(self, Queue(q), &m2);
                        untracked(|| drop(m2));
                    }
                    7 => {
                        // owned iteration, abandoned half way
                        let t = c.pick(&[0usize, 1, 5]);
                        let mut it = q.into_bytes();
                        for j in 0..t {
                            let r = it.next();
                            check!(r == m.get(j).copied(), "into_bytes", "{r:?}");
                        }
                        drop(it);
                    }
                    8 => {
                        let mut it = q.into_iter();
                        if c.flag() {
                            it.next();
                        } else {
                            it.next_back();
                        }
                        drop(it);
                    }
                    9 => {
                        let r = attempt(|| q.drain(1..n + 1).count());
                        check!(r.is_none(), "drain", "range past the end accepted");
                        let r = attempt(|| q.slice(n + 1..));
                        check!(r.is_none(), "slice", "range past the end accepted");
                        put(self, Queue(q), &m);
                    }
                    10 => put(self, Shared(SharedBytes::from(q)), &m),
                    11 => {
                        let e = q.pop_front();
                        let k = e.as_ref().map_or(0, |e| e.len());
                        put(self, Queue(q), &m[k..]);
                        more = e.map(|e| (Data(e), mv(&m[..k])));
                    }
                    12 => {
                        let e = q.pop_back();
                        let k = n - e.as_ref().map_or(0, |e| e.len());
                        put(self, Queue(q), &m[..k]);
                        more = e.map(|e| (Data(e), mv(&m[k..])));
                    }
                    13 => {
                        let e = q.clone();
                        put(self, Queue(q), &m);
                        more = Some((Queue(e), mv(&m)));
                    }
                    14 => {
                        let p = c.pick(&cuts3(n));
                        let e = q.split_off(p);
                        put(self, Queue(q), &m[..p]);
                        more = Some((Queue(e), mv(&m[p..])));
                    }
                    15 => {
                        let (a, b) = c.pick(&parts(n));
                        let e = q.slice(a..b);
                        put(self, Queue(q), &m);
                        more = Some((Queue(e), mv(&m[a..b])));
                    }
                    _ => {
                        let p = c.pick(&cuts3(n));
                        let e = q.copy_to_bytes(p);
                        put(self, Queue(q), &m[p..]);
                        more = Some((Fb(e), mv(&m[..p])));
                    }
                }
            }
            SQueue(mut q) => {
                let k = c.choose(if full { 5 } else { 7 });
                c.note(|| format!("handle {i} (text queue, {n} bytes): op {k}"));
                match k {
                    0 => drop(q),
                    1 => put(self, Queue(q.into_bytequeue()), &m),
                    2 => put(self, Str(String::from(q)), &m),
                    3 => put(self, Text(StringData::from(q)), &m),
                    4 => {
                        let (a, b) = c.pick(&parts(n));
                        drop(q.drain(a..b));
                        let mut m2 = mv(&m);
                        untracked(|| drop(m2.drain(a..b)));
                        put(self, SQueue(q), &m2);
                        untracked(|| drop(m2));
                    }
                    5 => {
                        let p = c.pick(&cuts3(n));
                        let e = q.split_off(p);
                        put(self, SQueue(q), &m[..p]);
                        more = Some((SQueue(e), mv(&m[p..])));
                    }
                    _ => {
                        let e = q.clone();
                        put(self, SQueue(q), &m);
                        more = Some((SQueue(e), mv(&m)));
                    }
                }
            }
            Fb(mut d) => {
                let k = c.choose(if full { 8 } else { 11 });
                c.note(|| format!("handle {i} (foreign, {n} bytes): op {k}"));
                match k {
                    0 => drop(d),
                    1 => put(self, Data(ByteData::from(d)), &m),
                    2 => put(self, Vecd(std::vec::Vec::from(d)), &m),
                    3 => match d.try_into_mut() {
                        Ok(b) => put(self, Fm(b), &m),
                        Err(d) => put(self, Fb(d), &m),
                    },
                    4 => put(self, Shared(SharedBytes::from(d)), &m),
                    5 => {
                        let (a, b) = c.pick(&parts(n));
                        d = d.slice(a..b);
                        put(self, Fb(d), &m[a..b]);
                    }
                    6 => put(self, Queue(ByteQueue::from(d)), &m),
                    7 => put(self, Fm(bytes::BytesMut::from(d)), &m),
                    8 => {
                        let e = d.clone();
                        put(self, Fb(d), &m);
                        more = Some((Fb(e), mv(&m)));
                    }
                    9 => {
                        let p = c.pick(&cuts3(n));
                        let e = d.split_to(p);
                        put(self, Fb(d), &m[p..]);
                        more = Some((Fb(e), mv(&m[..p])));
                    }
                    _ => {
                        let p = c.pick(&cuts3(n));
                        let e = d.split_off(p);
                        put(self, Fb(d), &m[..p]);
                        more = Some((Fb(e), mv(&m[p..])));
                    }
                }
            }
            Fm(mut d) => {
                let k = c.choose(3);
                c.note(|| format!("handle {i} (foreign mutable, {n} bytes): op {k}"));
                match k {
                    0 => drop(d),
                    1 => {
                        for x in d.iter_mut() {
                            *x = b'M';
                        }
                        d.extend_from_slice(b"++");
                        let mut m2 = untracked(|| vec![b'M'; n]);
                        untracked(|| m2.extend_from_slice(b"++"));
                        put(self, Fm(d), &m2);
                        untracked(|| drop(m2));
                    }
                    _ => put(self, Fb(d.freeze()), &m),
                }
            }
        }
        untracked(|| drop(m));
        if let Some((h, m)) = more {
            self.hs.push((h, m));
        }
    }

    /// Any handle, any operation, `depth` times.
    pub fn run(&mut self, c: &mut Ctx, depth: usize) {
        for _ in 0..depth {
            if self.hs.is_empty() {
                return;
            }
            let i = c.choose(self.hs.len());
            self.op(c, i);
            self.verify("after the operation");
            c.step(self.hash());
        }
    }
    /// Drops the handles in a chosen order, the others staying intact.
    pub fn finish(&mut self, c: &mut Ctx) {
        while self.hs.len() > 1 {
            let i = c.choose(self.hs.len());
            self.kill(i);
            self.verify("after a drop");
        }
        if !self.hs.is_empty() {
            self.kill(0);
        }
    }
}

trait HashU64 {
    fn hash_u64(&self) -> u64;
}
impl<T> HashU64 for core::mem::Discriminant<T> {
    fn hash_u64(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = Ident::default();
        self.hash(&mut h);
        h.finish()
    }
}

/// The first handle of a pool.
pub fn seed(c: &mut Ctx, reps: &[Rep], lens: &[usize]) -> Option<(H, &'static [u8])> {
    let rep = c.pick(reps);
    let n = c.pick(lens);
    let m = stat(&TEXT[..n]);
    c.note(|| format!("{n} bytes stored as {rep:?}"));
    Some((Data(make(rep, m)?), m))
}
