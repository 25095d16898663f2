//! C11: interoperation with the bytes crate preserves content, cursor and ownership.
use crate::check;
use crate::explore::*;
use crate::pool::*;
use crate::reps::*;
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder};
use bytes::{Buf, BufMut, Bytes, BytesMut};
use std::io::IoSlice;

pub const SUITES: &[Suite] = &[
    Suite { prop: "C11", name: "convert", body: convert, leaks: true },
    Suite { prop: "C11", name: "foreign_pool", body: foreign_pool, leaks: true },
    Suite { prop: "C11", name: "cursor", body: cursor, leaks: true },
    Suite { prop: "C11", name: "cursor_numbers", body: cursor_numbers, leaks: true },
    Suite { prop: "C11", name: "writer", body: writer, leaks: true },
    Suite { prop: "C11", name: "put_sources", body: put_sources, leaks: true },
];

/// Foreign buffers of every kind the other crate has.
fn foreign(k: usize, m: &'static [u8]) -> Bytes {
    match k {
        0 => Bytes::from_static(m),
        1 => Bytes::copy_from_slice(m),
        2 => Bytes::from(m.to_vec()),
        3 => {
            let mut v = Vec::with_capacity(m.len() + 9);
            v.extend_from_slice(m);
            Bytes::from(v)
        }
        4 => BytesMut::from(m).freeze(),
        5 => {
            let mut b = BytesMut::with_capacity(m.len() + 4);
            b.put_slice(b"xy");
            b.put_slice(m);
            b.advance(2);
            b.freeze()
        }
        6 => {
            let b = Bytes::from(m.to_vec());
            let c = b.clone();
            drop(b);
            c
        }
        7 => Bytes::from(SharedBytes::from_slice(m)),
        8 => Bytes::from(ByteData::from_static(m)),
        _ => Bytes::from_owner(m.to_vec()),
    }
}

fn convert(c: &mut Ctx) {
    let n = c.pick(&[0usize, 1, 13, 14, 15, 40]);
    let m = stat(&TEXT[..n]);
    let a = c.pick(&[0, 1.min(n), n / 2, n]);
    let b = a + c.pick(&[0, (n - a) / 2, n - a]);
    let w = &m[a..b];
    match c.choose(5) {
        0 => {
            // ours, sliced, to theirs, sliced, and back
            let rep = c.pick(REPS);
            let Some(mut d) = make(rep, m) else { c.skip() };
            c.note(|| format!("{n} bytes as {rep:?}, {a}..{b}"));
            let mut keep: Option<ByteData<'static>> = None;
            match c.choose(3) {
                0 => d.make_sliced(a..b),
                1 => {
                    keep = Some(d.clone());
                    d = d.into_sliced(a..b);
                }
                _ => {
                    keep = Some(d.clone());
                    d = keep.as_ref().unwrap().sliced(a..b);
                }
            }
            let f: Bytes = d.into();
            check!(&f[..] == w, "to foreign", "{f:02x?}, expected {w:02x?}");
            let k = w.len() / 2;
            let g = f.slice(k..);
            let back = ByteData::from(f);
            check!(back.as_slice() == w && back.len() == w.len(), "from foreign", "{back:?}");
            let back2 = ByteData::from(g.clone());
            let back3 = SharedBytes::from(g.clone());
            let back4 = ByteQueue::from(g.clone());
            drop(g);
            check!(back2.as_slice() == &w[k..] && back3.as_slice() == &w[k..], "from foreign", "{back2:?} {back3:?}");
            crate::p02::same(&back4, &w[k..], "from foreign");
            drop(back);
            check!(back2.as_slice() == &w[k..], "from foreign", "after a drop {back2:?}");
            if let Some(k) = keep {
                check!(k.as_slice() == m, "source", "{k:?}");
            }
        }
        1 => {
            // theirs, sliced, to ours and back
            let k = c.choose(10);
            let mut f = foreign(k, m);
            c.note(|| format!("{n} bytes, foreign kind {k}, {a}..{b}"));
            let keep = if c.flag() { Some(f.clone()) } else { None };
            match c.choose(3) {
                0 => f = f.slice(a..b),
                1 => {
                    f.truncate(b);
                    f.advance(a);
                }
                _ => {
                    let mut x = f.split_to(b);
                    drop(f);
                    f = x.split_off(a);
                }
            }
            match c.choose(4) {
                0 => {
                    let d: ByteData = f.into();
                    check!(d.as_slice() == w && d.len() == w.len(), "from foreign", "{d:?}");
                    let e = d.clone();
                    drop(d);
                    let f: Bytes = e.into();
                    check!(&f[..] == w, "round trip", "{f:?}");
                }
                1 => {
                    let d: SharedBytes = f.into();
                    check!(d.as_slice() == w, "from foreign", "{d:?}");
                    let f: Bytes = d.into();
                    check!(&f[..] == w, "round trip", "{f:?}");
                }
                2 => {
                    let d: ByteQueue = f.into();
                    crate::p02::same(&d, w, "from foreign");
                    let f: Bytes = d.into();
                    check!(&f[..] == w, "round trip", "{f:?}");
                }
                _ => {
                    // as an external owner
                    let d = ByteData::from_external(f);
                    check!(d.as_slice() == w, "external", "{d:?}");
                    let s = d.sliced(w.len() / 2..);
                    let f: Bytes = s.into();
                    check!(f[..] == w[w.len() / 2..], "external round trip", "{f:?}");
                    let f: Bytes = d.into();
                    check!(&f[..] == w, "external round trip", "{f:?}");
                }
            }
            if let Some(k) = keep {
                check!(&k[..] == m, "source", "{k:?}");
            }
        }
        2 => {
            // theirs, whole or already sliced, as an external owner, cut inside ours, and back
            let k = c.choose(10);
            let pre = c.pick(&[0usize, 1]).min(n);
            let f = foreign(k, m).slice(pre..);
            let (m, a) = (&m[pre..], a.min(n - pre));
            let b = b.clamp(a, n - pre);
            let w = &m[a..b];
            c.note(|| format!("{n} bytes, foreign kind {k} from {pre} as external owner, {a}..{b}"));
            let keep = if c.flag() { Some(f.clone()) } else { None };
            let mut d = ByteData::from_external(f);
            check!(d.as_slice() == m, "external", "{d:?}");
            let mut other = None;
            match c.choose(4) {
                0 => d.make_sliced(a..b),
                1 => {
                    other = Some(d.clone());
                    d = d.into_sliced(a..b);
                }
                2 => {
                    let e = d.sliced(a..b);
                    other = Some(std::mem::replace(&mut d, e));
                }
                _ => {
                    // in two cuts, the end first
                    d.make_sliced(..b);
                    d.make_sliced(a..);
                }
            }
            check!(d.as_slice() == w && d.len() == w.len(), "external", "{d:?}, expected {w:02x?}");
            match c.choose(4) {
                0 => {
                    let f: Bytes = d.into();
                    check!(f.len() == w.len() && &f[..] == w, "external round trip", "{f:?}, expected {w:02x?}");
                    let g = ByteData::from(f.clone());
                    drop(f);
                    check!(g.as_slice() == w, "external round trip", "{g:?}");
                }
                1 => {
                    let f: Bytes = d.clone().into();
                    drop(d);
                    check!(&f[..] == w, "external round trip", "{f:?}, expected {w:02x?}");
                    match f.try_into_mut() {
                        Ok(mut x) => {
                            check!(x[..] == w[..], "try_into_mut", "{x:?}");
                            x.iter_mut().for_each(|y| *y = 0xee);
                        }
                        Err(f) => check!(f[..] == w[..], "try_into_mut", "{f:?}"),
                    }
                }
                2 => {
                    let mut q = ByteQueue::from(d);
                    if c.flag() {
                        q.push_back(ByteData::from_static(b"--"));
                        drop(q.pop_back());
                    }
                    let f: Bytes = q.into();
                    check!(&f[..] == w, "external round trip", "{f:?}, expected {w:02x?}");
                }
                _ => {
                    let mut v: Vec<u8> = d.into();
                    check!(v == w, "external to vec", "{v:?}, expected {w:02x?}");
                    v.iter_mut().for_each(|y| *y = 0xee);
                }
            }
            if let Some(o) = other {
                check!(o.as_slice() == m, "source", "{o:?}");
            }
            if let Some(k) = keep {
                check!(&k[..] == m, "source", "{k:?}");
            }
        }
        3 => {
            // queues of several chunks
            let k = c.pick(&[0usize, 1, 2, 3, 7]);
            let (q, w) = chunked(c, w, k);
            let f: Bytes = q.into();
            check!(f[..] == w[..], "queue to foreign", "{f:?}, expected {w:02x?}");
        }
        _ => {
            // empty and unique conversions
            let s = SharedBytes::from_slice(m);
            let f: Bytes = s.sliced(a, b - a).into();
            c.note(|| format!("{n} bytes, {a}..{b}, uniqueness"));
            let held = c.flag();
            let s = if held { Some(s) } else { None };
            match f.try_into_mut() {
                Ok(mut x) => {
                    if let Some(s) = &s {
                        // (a copy is as good as a refusal)
                        let (sa, xa) = (s.as_slice().as_ptr_range(), x.as_ptr_range());
                        check!(w.is_empty() || sa.end <= xa.start || xa.end <= sa.start, "uniqueness", "handed out for writing although shared");
                    }
                    check!(x[..] == w[..], "try_into_mut", "{x:?}");
                    for y in x.iter_mut() {
                        *y = 0;
                    }
                }
                Err(f) => check!(f[..] == w[..], "try_into_mut", "{f:?}"),
            }
            if let Some(s) = s {
                check!(s.as_slice() == m, "source", "{s:?}");
            }
        }
    }
    c.step(hash_bytes(1, w));
}

fn foreign_pool(c: &mut Ctx) {
    let Some((h, m)) = seed(c, REPS, &[40, 16]) else { c.skip() };
    let H::Data(d) = h else { unreachable!() };
    let mut p = Pool::new(3);
    p.add(H::Fb(Bytes::from(d)), m);
    let d = c.q(3, 4);
    p.run(c, d);
    p.finish(c);
}

/// A queue over `m` cut every `k` bytes, storage kinds alternating.
fn chunked(c: &mut Ctx, m: &'static [u8], k: usize) -> (ByteQueue<'static>, Vec<u8>) {
    const R: [Rep; 4] = [Rep::Static, Rep::SharedMid, Rep::ExtMid, Rep::Inline];
    let mut q = ByteQueue::new();
    if k == 0 {
        q.push_back(ByteData::from_static(m));
        return (q, m.to_vec());
    }
    let rot = c.choose(4);
    c.note(|| format!("queue of {} bytes, cut every {k}, storage from {rot}", m.len()));
    for (i, x) in m.chunks(k).enumerate() {
        let r = R[(i + rot) % 4];
        let d = make(r, x).or_else(|| make(Rep::Shared, x)).unwrap();
        q.push_back(d);
    }
    (q, m.to_vec())
}

fn view(b: &impl Buf, m: &[u8], what: &str) {
    check!(b.remaining() == m.len() && b.has_remaining() == !m.is_empty(), "remaining", "{what}: {} remaining, expected {}", b.remaining(), m.len());
    let k = b.chunk();
    check!(m.starts_with(k) && k.is_empty() == m.is_empty(), "chunk", "{what}: chunk {k:02x?} of {m:02x?}");
    for n in 0..4 {
        const MARK: &[u8] = b"untouched";
        let mut io = [IoSlice::new(MARK); 4];
        let g = b.chunks_vectored(&mut io[..n]);
        check!(g <= n, "chunks_vectored", "{what}: {g} of {n}");
        let flat: Vec<u8> = io[..g].iter().flat_map(|x| x.iter().copied()).collect();
        check!(m.starts_with(&flat), "chunks_vectored", "{what}: {flat:02x?} of {m:02x?}");
        check!(n == 0 || m.is_empty() || !flat.is_empty(), "chunks_vectored", "{what}: nothing of {m:02x?} in {n}");
        check!(io[g..].iter().all(|x| &x[..] == MARK), "chunks_vectored", "{what}: touches slices it does not count");
    }
}

/// Cursor steps on `b`, compared with a slice cursor.
fn steps<B: Buf>(c: &mut Ctx, mut b: B, m: &[u8], depth: usize, what: &str) {
    let mut r: &[u8] = m;
    view(&b, r, what);
    for _ in 0..depth {
        let n = r.len();
        let mut ks = vec![0, 1, 2, n / 2, n.saturating_sub(1), n, n + 1, usize::MAX];
        ks.sort_unstable();
        ks.dedup();
        match c.choose(8) {
            0 => break,
            1 => {
                let k = c.pick(&ks);
                c.note(|| format!("advance {k} of {n}"));
                let g = attempt(|| b.advance(k));
                check!(g.is_some() == (k <= n), "advance", "{what}: advance {k} of {n} {}", if g.is_some() { "accepted" } else { "refused" });
                if k <= n {
                    r = &r[k..];
                }
            }
            2 => {
                let k = c.pick(&ks);
                c.note(|| format!("copy_to_bytes {k} of {n}"));
                let g = attempt(|| b.copy_to_bytes(k));
                check!(g.is_some() == (k <= n), "copy_to_bytes", "{what}: {k} of {n} {}", if g.is_some() { "accepted" } else { "refused" });
                if let Some(g) = g {
                    check!(g[..] == r[..k], "copy_to_bytes", "{what}: {g:02x?}, expected {:02x?}", &r[..k]);
                    r = &r[k..];
                    // the copy is a value of its own
                    let h = g.clone();
                    drop(g);
                    check!(h.len() == k, "copy_to_bytes", "clone");
                }
            }
            3 => {
                let k = c.pick(&ks).min(n + 1);
                c.note(|| format!("copy_to_slice {k} of {n}"));
                let mut x = vec![0xEE; k];
                let g = attempt(|| b.copy_to_slice(&mut x));
                check!(g.is_some() == (k <= n), "copy_to_slice", "{what}: {k} of {n}");
                if k <= n {
                    check!(x == r[..k], "copy_to_slice", "{what}: {x:02x?}");
                    r = &r[k..];
                }
            }
            4 => {
                c.note(|| format!("get_u8 of {n}"));
                let g = attempt(|| b.get_u8());
                check!(g == r.first().copied(), "get_u8", "{what}: {g:?}");
                r = r.get(1..).unwrap_or(&[]);
            }
            5 => {
                let k = c.pick(&ks);
                c.note(|| format!("by_ref().take({k}) of {n}"));
                let mut t = (&mut b).take(k);
                let e = k.min(n);
                check!(t.remaining() == e, "take", "{what}: {} remaining", t.remaining());
                let x = if c.flag() {
                    t.copy_to_bytes(e)
                } else {
                    let mut x = vec![0; e];
                    t.copy_to_slice(&mut x);
                    x.into()
                };
                check!(x[..] == r[..e], "take", "{what}: {x:02x?}");
                r = &r[e..];
            }
            6 => {
                c.note(|| format!("chain, copy all {n}"));
                let mut t = (&mut b).chain(&b"tail"[..]);
                let x = t.copy_to_bytes(n + 2);
                check!(x[..n] == *r && &x[n..] == b"ta", "chain", "{what}: {x:02x?}");
                r = &[];
            }
            _ => {
                let k = c.pick(&ks).min(n + 3);
                c.note(|| format!("reader, read {k} of {n}"));
                let mut x = vec![0xEE; k];
                let g = std::io::Read::read(&mut (&mut b).reader(), &mut x).unwrap();
                check!(g == k.min(n) && x[..g] == r[..g], "reader", "{what}: {g} bytes {x:02x?}");
                r = &r[g..];
            }
        }
        view(&b, r, what);
        c.step(hash_bytes(7, r));
    }
    let k = r.len();
    let mut x = vec![0; k];
    b.copy_to_slice(&mut x);
    check!(x == r, "drain", "{what}: {x:02x?}, expected {r:02x?}");
    view(&b, &[], what);
}

fn cursor(c: &mut Ctx) {
    let d = c.q(3, 4);
    let n = c.pick(&[0usize, 1, 3, 14, 20]);
    let m = stat(&TEXT[..n]);
    match c.choose(4) {
        0 => {
            let rep = c.pick(REPS);
            c.note(|| format!("ByteData of {n} bytes as {rep:?}"));
            let Some(x) = make(rep, m) else { c.skip() };
            let keep = x.clone();
            steps(c, x, m, d, "ByteData");
            check!(keep.as_slice() == m, "isolation", "the clone changed");
        }
        1 => {
            let held = c.choose(3);
            c.note(|| format!("SharedBytes of {n} bytes, {held}"));
            let base = SharedBytes::from_slice(&TEXT[..n + 5]);
            let x = if held == 0 { SharedBytes::from_slice(m) } else { base.sliced(0, n) };
            if held == 1 {
                drop(base);
                steps(c, x, m, d, "SharedBytes");
            } else {
                steps(c, x, m, d, "SharedBytes");
                check!(base.as_slice() == &TEXT[..n + 5], "isolation", "the other handle changed");
            }
        }
        _ => {
            let k = c.pick(&[1usize, 2, 3, 7]);
            let (q, m) = chunked(c, m, k);
            let keep = q.clone();
            steps(c, q, &m, d, "ByteQueue");
            crate::p02::same(&keep, &m, "isolation");
        }
    }
}

/// Numbers read across chunk boundaries.
fn cursor_numbers(c: &mut Ctx) {
    let n = c.pick(&[0usize, 1, 2, 3, 4, 7, 8, 15, 16, 17]);
    let k = c.pick(&[0usize, 1, 2, 3, 5, 16]);
    let (mut q, m) = if c.flag() {
        chunked(c, stat(&TEXT[..n]), k)
    } else {
        let v: Vec<u8> = (0..n).map(|i| 0xff - i as u8 * 3).collect();
        let v = stat(&v);
        chunked(c, v, k)
    };
    let mut d = ByteData::from_owned(m.clone());
    let mut s = SharedBytes::from_slice(&m);
    let mut r: &[u8] = &m;
    macro_rules! num {
        ($($i:literal $f:ident $t:tt;)*) => {
            match c.choose(20) {
                $($i => {
                    c.note(|| stringify!($f).into());
                    let e = attempt(|| r.$f $t);
                    let a = attempt(|| q.$f $t);
                    let b = attempt(|| d.$f $t);
                    let x = attempt(|| s.$f $t);
                    check!(a.map(|x| x.to_be_bytes()) == e.map(|x| x.to_be_bytes()), stringify!($f), "queue gives {a:?}, slice {e:?}");
                    check!(b.map(|x| x.to_be_bytes()) == e.map(|x| x.to_be_bytes()), stringify!($f), "data gives {b:?}, slice {e:?}");
                    check!(x.map(|x| x.to_be_bytes()) == e.map(|x| x.to_be_bytes()), stringify!($f), "shared gives {x:?}, slice {e:?}");
                })*
                _ => unreachable!(),
            }
        };
    }
    for _ in 0..c.q(2, 3) {
        num! {
            0 get_u8 (); 1 get_i8 (); 2 get_u16 (); 3 get_u16_le (); 4 get_i16 (); 5 get_u32 (); 6 get_u32_le (); 7 get_i32_le ();
            8 get_u64 (); 9 get_u64_le (); 10 get_i64 (); 11 get_u128 (); 12 get_u128_le (); 13 get_f32 (); 14 get_f64_le ();
            15 get_uint (3); 16 get_uint_le (5); 17 get_int (3); 18 get_int_le (7); 19 get_i128 ();
        }
        c.step(hash_bytes(8, r));
    }
}

/// The write cursor of the builder against a vector.
fn writer(c: &mut Ctx) {
    let start = c.pick(&[0usize, 3, 40]);
    let cap = c.pick(&[0usize, 1, 8, 64]);
    let align = c.pick(&[1usize, 8, 512]);
    c.note(|| format!("builder with {start} bytes, capacity {cap}, alignment {align}"));
    let mut b = if start > 0 && cap == 0 { SharedBytesBuilder::from(SharedBytes::from_slice(&TEXT[..start])) } else { SharedBytesBuilder::with_aligned_capacity(cap, align) };
    let mut m: Vec<u8> = Vec::new();
    if start > 0 && cap == 0 {
        m.extend_from_slice(&TEXT[..start]);
    } else {
        b.extend_from_slice(&TEXT[..start]);
        m.extend_from_slice(&TEXT[..start]);
    }
    for _ in 0..c.q(4, 5) {
        match c.choose(11) {
            0 => break,
            1 => {
                let k = c.pick(&[0usize, 1, 9, 100]);
                c.note(|| format!("put_bytes {k}"));
                b.put_bytes(0x5a, k);
                m.put_bytes(0x5a, k);
            }
            2 => {
                let k = c.pick(&[0usize, 1, 9]);
                c.note(|| format!("put_slice {k}"));
                b.put_slice(&TEXT[..k]);
                m.put_slice(&TEXT[..k]);
            }
            3 => {
                c.note(|| "put_u16, put_i32_le".into());
                b.put_u16(0x1234);
                m.put_u16(0x1234);
                b.put_i32_le(-77);
                m.put_i32_le(-77);
            }
            4 => {
                let k = c.pick(&[0usize, 1, 5]);
                c.note(|| format!("chunk_mut, write {k}, advance_mut"));
                let ch = b.chunk_mut();
                check!(ch.len() > 0, "chunk_mut", "no room in the chunk");
                let k = k.min(ch.len());
                ch[..k].copy_from_slice(&TEXT[..k]);
                unsafe { b.advance_mut(k) };
                m.extend_from_slice(&TEXT[..k]);
            }
            5 => {
                c.note(|| "chunk_mut, write all".into());
                let ch = b.chunk_mut();
                let k = ch.len();
                check!(k > 0, "chunk_mut", "no room in the chunk");
                for i in 0..k {
                    ch.write_byte(i, i as u8);
                    m.push(i as u8);
                }
                unsafe { b.advance_mut(k) };
            }
            6 => {
                c.note(|| "put a queue".into());
                let mut q = ByteQueue::new();
                q.push_back(ByteData::from_static(b"abc"));
                q.push_back(ByteData::from_owned(vec![b'd'; 33]));
                m.extend_from_slice(b"abc");
                m.extend_from_slice(&[b'd'; 33]);
                b.put(q);
            }
            7 => {
                let k = c.pick(&[0usize, 2, 40]);
                c.note(|| format!("limit {k}"));
                let mut l = (&mut b).limit(k);
                check!(l.remaining_mut() == k, "limit", "{} remain", l.remaining_mut());
                let over = attempt(|| l.put_slice(&TEXT[..k + 1]));
                check!(over.is_none(), "limit", "more than the limit accepted");
                // what was written before the refusal is not specified; a fitting write is
                drop(l);
                if b.len() != m.len() {
                    b.truncate(m.len());
                }
                let mut l = (&mut b).limit(k);
                l.put_slice(&TEXT[..k]);
                check!(l.remaining_mut() == 0, "limit", "{} remain", l.remaining_mut());
                m.extend_from_slice(&TEXT[..k]);
            }
            8 => {
                c.note(|| "writer".into());
                use std::io::Write;
                let g = (&mut b).writer().write(b"written").unwrap();
                m.extend_from_slice(&b"written"[..g]);
                check!(g == 7, "writer", "{g}");
            }
            9 => {
                c.note(|| "put_uint, put_f64".into());
                b.put_uint(0x010203, 3);
                m.put_uint(0x010203, 3);
                b.put_f64(1.5);
                m.put_f64(1.5);
            }
            _ => {
                c.note(|| "refused put_bytes".into());
                let k = b.remaining_mut();
                let g = attempt(|| b.put_bytes(1, k + 1));
                check!(g.is_none(), "put_bytes", "more than remaining_mut accepted");
            }
        }
        check!(b.as_slice() == m, "content", "{:02x?}, expected {m:02x?}", b.as_slice());
        check!(b.remaining_mut() > 0 && b.has_remaining_mut() && b.remaining_mut() <= u32::MAX as usize - m.len(), "remaining_mut", "{}", b.remaining_mut());
        check!(m.is_empty() || b.as_slice().as_ptr() as usize % align == 0 || (start > 0 && cap == 0), "alignment", "content at {:p}", b.as_slice().as_ptr());
        c.step(hash_bytes(9, &m));
    }
    let s = b.build();
    check!(s.as_slice() == m, "build", "{:02x?}, expected {m:02x?}", s.as_slice());
}

/// A source that hands out its bytes in chunks of `k`.
struct Parts<'a>(&'a [u8], usize);
impl Buf for Parts<'_> {
    fn remaining(&self) -> usize {
        self.0.len()
    }
    fn chunk(&self) -> &[u8] {
        &self.0[..self.1.min(self.0.len())]
    }
    fn advance(&mut self, cnt: usize) {
        self.0 = &self.0[cnt..];
    }
}

fn put_sources(c: &mut Ctx) {
    let n = c.pick(&[0usize, 1, 7, 8, 40]);
    let k = c.pick(&[1usize, 3, 8, 64]);
    let cap = c.pick(&[0usize, 4, 100]);
    let pre = c.pick(&[0usize, 5]);
    let kind = c.choose(6);
    c.note(|| format!("{n} bytes in chunks of {k} into a builder with {pre} bytes, capacity {cap}; source {kind}"));
    let m = &TEXT[..n];
    let mut b = SharedBytesBuilder::with_capacity(cap);
    b.put_slice(&TEXT[10..10 + pre]);
    match kind {
        0 => b.put(Parts(m, k)),
        1 => b.put(m),
        2 => b.put(Bytes::copy_from_slice(m)),
        3 => b.put(Parts(m, k).take(n / 2).chain(Parts(&m[n / 2..], 2))),
        4 => b.put(ByteData::from_borrowed(m)),
        _ => {
            let mut src = Parts(m, k);
            b.put(&mut src);
            check!(src.remaining() == 0, "put", "{} left in the source", src.remaining());
        }
    }
    let e: Vec<u8> = [&TEXT[10..10 + pre], m].concat();
    check!(b.as_slice() == e, "put", "{:02x?}, expected {e:02x?}", b.as_slice());
    c.step(hash_bytes(4, &e));
}
