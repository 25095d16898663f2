//! C10: reader and writer implementations lose, duplicate or invent no byte.
use crate::check;
use crate::explore::*;
use crate::reps::*;
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder};
use std::io::{BufRead, ErrorKind, IoSlice, IoSliceMut, Read, Write};

pub const SUITES: &[Suite] = &[
    Suite { prop: "C10", name: "data", body: data, leaks: true },
    Suite { prop: "C10", name: "shared", body: shared_reader, leaks: true },
    Suite { prop: "C10", name: "queue", body: queue, leaks: true },
    Suite { prop: "C10", name: "queue_deep", body: queue_deep, leaks: true },
    Suite { prop: "C10", name: "writers", body: writers, leaks: true },
    Suite { prop: "C10", name: "copy", body: copy, leaks: true },
];

pub trait Left {
    fn left(&self) -> Vec<u8>;
    fn count(&self) -> usize;
}
impl Left for ByteData<'_> {
    fn left(&self) -> Vec<u8> {
        self.as_slice().to_vec()
    }
    fn count(&self) -> usize {
        self.len()
    }
}
impl Left for SharedBytes {
    fn left(&self) -> Vec<u8> {
        self.as_slice().to_vec()
    }
    fn count(&self) -> usize {
        self.len()
    }
}
impl Left for ByteQueue<'_> {
    fn left(&self) -> Vec<u8> {
        self.chunks().flat_map(|x| x.as_slice().iter().copied()).collect()
    }
    fn count(&self) -> usize {
        self.len()
    }
}

fn dedup(mut v: Vec<usize>) -> Vec<usize> {
    v.sort_unstable();
    v.dedup();
    v
}

/// One call through the reading traits; `m` is what is still to be delivered.
fn read_op<R: Read + BufRead + Left>(c: &mut Ctx, r: &mut R, m: &mut &'static [u8]) {
    let n = m.len();
    let k = c.choose(12);
    match k {
        0 => {
            let l = c.pick(&dedup(vec![0, 1, 2, n / 2, n.saturating_sub(1), n, n + 1, n + 20]));
            c.note(|| format!("read into {l} of {n} left"));
            let mut buf = vec![0xEEu8; l];
            let g = r.read(&mut buf);
            match g {
                Ok(g) => {
                    check!(g <= l && g <= n, "read", "claims {g} bytes for a buffer of {l} with {n} left");
                    check!(g > 0 || l == 0 || n == 0, "read", "returns nothing although {n} bytes are left");
                    check!(buf[..g] == m[..g], "read", "delivered {:02x?}, expected {:02x?}", &buf[..g], &m[..g]);
                    *m = &m[g..];
                }
                Err(e) => fail("read", format!("error {e:?}")),
            }
        }
        1 => {
            let shapes: Vec<Vec<usize>> = vec![vec![], vec![0], vec![0, 0, 0], vec![n + 5], vec![1, n + 5], vec![1, 1, 1], vec![0, 2, 0, 3], vec![n, n], vec![n / 2, n], vec![n.saturating_sub(1), 1, 1], vec![3, 0, 5, 2, 40]];
            let s = c.pick(&shapes);
            c.note(|| format!("read_vectored {s:?} of {n} left"));
            let total: usize = s.iter().sum();
            let mut bufs: Vec<Vec<u8>> = s.iter().map(|l| vec![0xEEu8; *l]).collect();
            let g = {
                let mut v: Vec<IoSliceMut> = bufs.iter_mut().map(|b| IoSliceMut::new(b)).collect();
                r.read_vectored(&mut v)
            };
            match g {
                Ok(g) => {
                    check!(g <= total && g <= n, "read_vectored", "claims {g} bytes of {total} with {n} left");
                    check!(g > 0 || total == 0 || n == 0, "read_vectored", "returns nothing although {n} bytes are left");
                    let flat: Vec<u8> = bufs.concat();
                    check!(flat[..g] == m[..g], "read_vectored", "delivered {:02x?}, expected {:02x?}", &flat[..g], &m[..g]);
                    *m = &m[g..];
                }
                Err(e) => fail("read_vectored", format!("error {e:?}")),
            }
        }
        2 => {
            let l = c.pick(&dedup(vec![0, 1, n / 2, n, n + 1]));
            c.note(|| format!("read_exact {l} of {n} left"));
            let mut buf = vec![0xEEu8; l];
            match r.read_exact(&mut buf) {
                Ok(()) => {
                    check!(l <= n, "read_exact", "{l} of {n} satisfied");
                    check!(buf == m[..l], "read_exact", "{buf:02x?}");
                    *m = &m[l..];
                }
                Err(e) => {
                    check!(l > n && e.kind() == ErrorKind::UnexpectedEof, "read_exact", "{l} of {n}: {e:?}");
                    // how much was taken is unspecified, but it is a suffix that remains
                    let left = r.left();
                    check!(m.ends_with(&left), "read_exact", "left with {left:02x?}");
                    *m = &m[n - left.len()..];
                }
            }
        }
        3 => {
            c.note(|| "read_to_end".into());
            let mut v = b"had".to_vec();
            let g = r.read_to_end(&mut v);
            check!(matches!(g, Ok(g) if g == n), "read_to_end", "{g:?} of {n}");
            check!(v[..3] == *b"had" && v[3..] == **m, "read_to_end", "{v:02x?}");
            *m = &[];
        }
        4 => {
            c.note(|| "read_to_string".into());
            let mut v = "hé".to_string();
            match (r.read_to_string(&mut v), core::str::from_utf8(m)) {
                (Ok(g), Ok(s)) => {
                    check!(g == n && v[3..] == *s && v.starts_with("hé"), "read_to_string", "{g} {v:?}");
                    *m = &[];
                }
                (Err(e), Err(_)) => {
                    check!(e.kind() == ErrorKind::InvalidData && v == "hé", "read_to_string", "{e:?} {v:?}");
                    let left = r.left();
                    check!(m.ends_with(&left), "read_to_string", "left with {left:02x?}");
                    *m = &m[n - left.len()..];
                }
                (g, w) => fail("read_to_string", format!("{g:?}, standard {w:?}")),
            }
        }
        5 => {
            let g: Vec<u8> = match r.fill_buf() {
                Ok(g) => g.to_vec(),
                Err(e) => fail("fill_buf", format!("{e:?}")),
            };
            check!(m.starts_with(&g) && (!g.is_empty() || n == 0), "fill_buf", "{g:02x?} of {m:02x?}");
            let l = c.pick(&dedup(vec![0, 1.min(g.len()), g.len() / 2, g.len()]));
            c.note(|| format!("fill_buf gives {}, consume {l}", g.len()));
            r.consume(l);
            *m = &m[l..];
        }
        6 | 7 => {
            let stop = c.pick(&[m.get(n / 2).copied().unwrap_or(1), m.last().copied().unwrap_or(2), m.first().copied().unwrap_or(3), 0x03]);
            c.note(|| format!("read/skip until {stop:#x}"));
            let w = m.iter().position(|x| *x == stop).map_or(n, |i| i + 1);
            if k == 6 {
                let mut v = b"had".to_vec();
                let g = r.read_until(stop, &mut v);
                check!(matches!(g, Ok(g) if g == w) && v[..3] == *b"had" && v[3..] == m[..w], "read_until", "{g:?} {v:02x?}, expected {w}");
            } else {
                let g = r.skip_until(stop);
                check!(matches!(g, Ok(g) if g == w), "skip_until", "{g:?}, expected {w}");
            }
            *m = &m[w..];
        }
        8 => {
            c.note(|| "read_line".into());
            let w = m.iter().position(|x| *x == b'\n').map_or(n, |i| i + 1);
            let mut v = "hé".to_string();
            match (r.read_line(&mut v), core::str::from_utf8(&m[..w])) {
                (Ok(g), Ok(s)) => {
                    check!(g == w && v[3..] == *s, "read_line", "{g} {v:?}");
                    *m = &m[w..];
                }
                (Err(e), Err(_)) => {
                    check!(e.kind() == ErrorKind::InvalidData && v == "hé", "read_line", "{e:?} {v:?}");
                    let left = r.left();
                    check!(m.ends_with(&left), "read_line", "left with {left:02x?}");
                    *m = &m[n - left.len()..];
                }
                (g, w) => fail("read_line", format!("{g:?}, standard {w:?}")),
            }
        }
        9 => {
            let l = c.pick(&dedup(vec![0, 1, n / 2, n + 2])) as u64;
            c.note(|| format!("take({l}).read_to_end"));
            let mut v = Vec::new();
            let w = n.min(l as usize);
            let g = r.by_ref().take(l).read_to_end(&mut v);
            check!(matches!(g, Ok(g) if g == w) && v == m[..w], "take", "{g:?} {v:02x?}");
            *m = &m[w..];
        }
        10 => {
            c.note(|| "three single bytes".into());
            let g: Result<Vec<u8>, _> = r.by_ref().bytes().take(3).collect();
            let w = n.min(3);
            check!(matches!(&g, Ok(g) if *g == m[..w]), "bytes", "{g:?}");
            *m = &m[w..];
        }
        _ => {
            c.note(|| "std::io::copy".into());
            let mut v = Vec::new();
            let g = std::io::copy(r, &mut v);
            check!(matches!(g, Ok(g) if g == n as u64) && v == **m, "copy", "{g:?} {v:02x?}");
            *m = &[];
        }
    }
    let left = r.left();
    check!(left == **m && r.count() == m.len(), "left", "{left:02x?} is left, expected {m:02x?}");
    if m.is_empty() {
        let mut b = [0xEE; 2];
        let g = r.read(&mut b);
        check!(matches!(g, Ok(0)) && b == [0xEE; 2], "end", "read at the end gives {g:?}");
        let g = r.fill_buf().map(|x| x.len());
        check!(matches!(g, Ok(0)), "end", "fill_buf at the end gives {g:?}");
    }
}

fn contents() -> &'static [&'static [u8]] {
    &[b"", b"a", b"ab\nc", b"\xc3\xa9\n\xc3\xbc", b"x\xff\ny", b"0123456789abcd", b"0123456\n9abcdef", b"0123456789\nbcdefghijklmnop\nqrst"]
}

fn data(c: &mut Ctx) {
    let x = c.pick(contents());
    let rep = c.pick(REPS);
    let Some(mut d) = make(rep, x) else { c.skip() };
    let other = if c.flag() { Some(d.clone()) } else { None };
    c.note(|| format!("{x:02x?} as {rep:?}"));
    let mut m = x;
    for _ in 0..c.q(2, 3) {
        read_op(c, &mut d, &mut m);
        c.step(hash_bytes(rep as u64, m));
    }
    if let Some(o) = other {
        check!(o == x, "other handle", "{o:02x?}");
    }
}

fn shared_reader(c: &mut Ctx) {
    let x = c.pick(contents());
    let rep = c.pick(&[Rep::Shared, Rep::SharedMid, Rep::SharedAl64, Rep::SharedSpare, Rep::SharedUnaligned]);
    let Some(mut d) = crate::reps::shared(rep, x) else { c.skip() };
    let other = if c.flag() { Some(d.clone()) } else { None };
    c.note(|| format!("{x:02x?} as {rep:?}"));
    let mut m = x;
    for _ in 0..c.q(2, 3) {
        read_op(c, &mut d, &mut m);
        c.step(hash_bytes(rep as u64, m));
    }
    if let Some(o) = other {
        check!(o == x, "other handle", "{o:02x?}");
    }
}

fn cut_queue(x: &'static [u8], cuts: &[usize], rot: usize) -> ByteQueue<'static> {
    let mut q = ByteQueue::new();
    let mut st = 0;
    for (k, e) in cuts.iter().copied().chain([x.len()]).enumerate() {
        let e = e.min(x.len());
        if e > st {
            let rep = [Rep::Static, Rep::Shared, Rep::ExtHeap, Rep::Borrowed][(k + rot) % 4];
            q.push_back(make(rep, stat(&x[st..e])).unwrap());
            st = e;
        }
    }
    q
}

fn queue(c: &mut Ctx) {
    let x = c.pick(contents());
    let n = x.len();
    let shapes: Vec<Vec<usize>> = vec![vec![], vec![1], vec![n / 2], vec![n.saturating_sub(1)], vec![1, 2, 3], (1..n).collect(), vec![3, 5, n / 2, n.saturating_sub(2)]];
    let s = c.pick(&shapes);
    let rot = c.choose(2);
    let mut q = cut_queue(x, &s, rot);
    c.note(|| format!("{x:02x?} cut at {s:?}"));
    let mut m = x;
    for _ in 0..c.q(3, 4) {
        read_op(c, &mut q, &mut m);
        c.step(hash_bytes(q.chunk_len() as u64, m));
    }
}

/// Every chunking of a short content, two calls deep.
fn queue_deep(c: &mut Ctx) {
    let x: &'static [u8] = c.pick(&[&b"a\nb\nc"[..], "€\né".as_bytes(), b"\n\n\xff\n", b"abcdefg"]);
    let cut = c.choose(1 << (x.len() - 1));
    let cuts: Vec<usize> = (1..x.len()).filter(|i| cut >> (i - 1) & 1 == 1).collect();
    let mut q = cut_queue(x, &cuts, cut);
    c.note(|| format!("{x:02x?} cut at {cuts:?}"));
    let mut m = x;
    for _ in 0..c.q(2, 3) {
        read_op(c, &mut q, &mut m);
        c.step(hash_bytes(q.chunk_len() as u64, m));
    }
}

fn write_op<W: Write>(c: &mut Ctx, w: &mut W, m: &mut Vec<u8>) {
    let n = c.pick(&[0usize, 1, 13, 14, 15, 16, 40]);
    let x = pattern(n);
    let k = c.choose(5);
    c.note(|| format!("writer op {k}, {n} bytes"));
    match k {
        0 => match w.write(x) {
            Ok(g) => {
                check!(g <= n && (g > 0 || n == 0), "write", "accepted {g} of {n}");
                m.extend_from_slice(&x[..g]);
            }
            Err(e) => fail("write", format!("{e:?}")),
        },
        1 => {
            let r = w.write_all(x);
            check!(r.is_ok(), "write_all", "{r:?}");
            m.extend_from_slice(x);
        }
        2 => {
            let parts: Vec<&[u8]> = match c.choose(5) {
                0 => vec![],
                1 => vec![&[], x],
                2 => vec![&x[..n / 2], &x[n / 2..]],
                3 => vec![&x[..n / 3], &[], &x[n / 3..n / 2], &x[n / 2..], b"tail"],
                _ => vec![&[], &[]],
            };
            let flat = parts.concat();
            let v: Vec<IoSlice> = parts.iter().map(|x| IoSlice::new(x)).collect();
            match w.write_vectored(&v) {
                Ok(g) => {
                    check!(g <= flat.len() && (g > 0 || flat.is_empty()), "write_vectored", "accepted {g} of {}", flat.len());
                    m.extend_from_slice(&flat[..g]);
                }
                Err(e) => fail("write_vectored", format!("{e:?}")),
            }
        }
        3 => {
            let r = write!(w, "{}-{:>5}", n, "é");
            check!(r.is_ok(), "write!", "{r:?}");
            m.extend_from_slice(format!("{}-{:>5}", n, "é").as_bytes());
        }
        _ => {
            let r = w.flush();
            check!(r.is_ok(), "flush", "{r:?}");
            let r = w.by_ref().write_all(x);
            check!(r.is_ok(), "by_ref", "{r:?}");
            m.extend_from_slice(x);
        }
    }
}

fn writers(c: &mut Ctx) {
    let kind = c.choose(4);
    let mut m = Vec::new();
    let depth = c.q(3, 4);
    if kind < 2 {
        let mut b = if kind == 0 { SharedBytesBuilder::new() } else { SharedBytesBuilder::with_capacity(10) };
        for _ in 0..depth {
            write_op(c, &mut b, &mut m);
            check!(b.as_slice() == m, "builder writer", "{:02x?} expected {m:02x?}", b.as_slice());
            c.step(hash_bytes(kind as u64, &m));
        }
    } else {
        let mut q = ByteQueue::new();
        if kind == 3 {
            q.push_back(ByteData::from_static(b"first"));
            m.extend_from_slice(b"first");
        }
        for _ in 0..depth {
            write_op(c, &mut q, &mut m);
            let l = q.left();
            check!(l == m && q.len() == m.len() && q.chunks().all(|x| !x.is_empty()), "queue writer", "{l:02x?} expected {m:02x?}");
            c.step(hash_bytes(kind as u64, &m));
        }
    }
}

/// Through std's adaptors from one of ours into another.
fn copy(c: &mut Ctx) {
    let x = c.pick(contents());
    let rep = c.pick(CORE);
    let Some(d) = make(rep, x) else { c.skip() };
    let k = c.choose(5);
    c.note(|| format!("{x:02x?} as {rep:?}, way {k}"));
    match k {
        0 => {
            let mut q = ByteQueue::new();
            let mut d = d;
            let g = std::io::copy(&mut d, &mut q);
            check!(matches!(g, Ok(g) if g == x.len() as u64) && q == *x && d.is_empty(), "copy", "{g:?}");
        }
        1 => {
            let mut b = SharedBytesBuilder::new();
            let cap = c.pick(&[1usize, 3, 100]);
            let mut r = std::io::BufReader::with_capacity(cap, d);
            let g = std::io::copy(&mut r, &mut b);
            check!(matches!(g, Ok(g) if g == x.len() as u64) && b.as_slice() == x, "copy", "{g:?}");
        }
        2 => {
            let q = ByteQueue::from(d.clone());
            let mut v = Vec::new();
            let g = q.chain(d).read_to_end(&mut v);
            check!(g.is_ok() && v == [x, x].concat(), "chain", "{v:02x?}");
        }
        3 => {
            let w: Vec<Vec<u8>> = BufRead::split(x, b'\n').map(|x| x.unwrap()).collect();
            let s = SharedBytes::from(d.clone());
            let g: Vec<Vec<u8>> = BufRead::split(s, b'\n').map(|x| x.unwrap()).collect();
            check!(g == w, "split", "{g:02x?}");
            let q = ByteQueue::from(d);
            let g: Vec<Vec<u8>> = BufRead::split(q, b'\n').map(|x| x.unwrap()).collect();
            check!(g == w, "split", "{g:02x?}");
        }
        _ => {
            let w: Vec<Option<String>> = x.lines().map(|x| x.ok()).collect();
            let g: Vec<Option<String>> = BufRead::lines(d).map(|x| x.ok()).collect();
            check!(g == w, "lines", "{g:02x?}");
        }
    }
    c.step(hash_bytes(k as u64, x));
}
