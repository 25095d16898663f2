//! C05: every allocation and owner released exactly once, as allocated, whatever the order.
use crate::explore::*;
use crate::pool::*;
use crate::reps::*;
use crate::{alloc, check};
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, StringData, StringQueue};

pub const SUITES: &[Suite] = &[
    Suite { prop: "C05", name: "pool", body: pool, leaks: true },
    Suite { prop: "C05", name: "pool_text", body: pool_text, leaks: true },
    Suite { prop: "C05", name: "pool_queue", body: pool_queue, leaks: true },
    Suite { prop: "C05", name: "owners", body: owners, leaks: true },
    Suite { prop: "C05", name: "iterators", body: iterators, leaks: true },
    Suite { prop: "C05", name: "refused", body: refused, leaks: false },
];

fn pool(c: &mut Ctx) {
    let Some((h, m)) = seed(c, REPS, &[40, 16]) else { c.skip() };
    let mut p = Pool::new(3);
    p.add(h, m);
    let d = c.q(3, 4);
    p.run(c, d);
    p.finish(c);
    check!(owners_live() <= 0 || !p.hs.is_empty(), "owner", "owner outlives every handle");
}

fn pool_text(c: &mut Ctx) {
    let rep = c.pick(REPS);
    let m = stat(&TEXT[..c.pick(&[40usize, 16])]);
    let Some(t) = make_str(rep, core::str::from_utf8(m).unwrap()) else { c.skip() };
    c.note(|| format!("text stored as {rep:?}"));
    let mut p = Pool::new(3);
    if c.flag() {
        p.add(H::Text(t), m);
    } else {
        p.add(H::SQueue(StringQueue::with_item(t)), m);
    }
    let d = c.q(3, 4);
    p.run(c, d);
    p.finish(c);
}

/// Queues of several chunks of different storage, some sharing one block.
fn pool_queue(c: &mut Ctx) {
    let m = stat(&TEXT[..60]);
    let k = c.pick(&[1usize, 2, 5, 9]);
    let base = SharedBytes::from_slice(m);
    let mut q = ByteQueue::new();
    let step = 60 / k;
    let rot = c.choose(4);
    for i in 0..k {
        let (a, b) = (i * step, if i + 1 == k { 60 } else { (i + 1) * step });
        let s = stat(&m[a..b]);
        q.push_back(match (i + rot) % 4 {
            0 => ByteData::from(base.sliced(a, b - a)),
            1 => make(Rep::ExtHeap, s).unwrap(),
            2 => ByteData::from_borrowed(s),
            _ => ByteData::from_owned(s.to_vec()),
        });
    }
    c.note(|| format!("queue of {k} chunks, storage rotation {rot}"));
    let mut p = Pool::new(3);
    if c.flag() {
        p.add(H::Shared(base), m);
    }
    p.add(H::Queue(q), m);
    let d = c.q(3, 4);
    p.run(c, d);
    p.finish(c);
}

/// The owner lives exactly as long as the last handle onto it.
fn owners(c: &mut Ctx) {
    let rep = c.pick(&[Rep::ExtHeap, Rep::ExtInline, Rep::ExtWide, Rep::ExtMid]);
    let n = c.pick(&[15usize, 16, 30, 40]);
    let m = pattern(n);
    let Some(d) = make(rep, m) else { c.skip() };
    c.note(|| format!("{n} bytes owned by {rep:?}"));
    check!(owners_live() == 1, "owner", "{} owners after construction", owners_live());
    // handles that still refer to the owner's bytes, and copies that need not
    let mut hs: Vec<(ByteData<'static>, usize, usize)> = vec![(d, 0, n)];
    for _ in 0..c.q(5, 7) {
        let i = c.choose(hs.len());
        match c.choose(6) {
            0 => {
                let e = hs[i].0.clone();
                let (_, a, b) = hs[i];
                hs.push((e, a, b));
            }
            1 => {
                let (d, a, b) = &hs[i];
                let (a, b) = (*a, *b);
                let k = (b - a) / 2;
                let e = d.sliced(k..);
                hs.push((e, a + k, b));
            }
            2 => {
                let (d, a, b) = &mut hs[i];
                let k = (*b - *a).min(1);
                d.make_sliced(k..);
                *a += k;
                let _ = b;
            }
            3 => {
                let (d, a, b) = hs.remove(i);
                hs.push((d.into_shared(), a, b));
            }
            4 => {
                let (d, a, b) = hs.remove(i);
                let v = Vec::from(d);
                check!(v == &m[a..b], "to vec", "{v:02x?}");
            }
            _ => drop(hs.remove(i)),
        }
        c.note(|| format!("{} handles, {} owners", hs.len(), owners_live()));
        for (d, a, b) in &hs {
            check!(d.as_slice() == &m[*a..*b], "content", "{:02x?} expected {:02x?}", d.as_slice(), &m[*a..*b]);
        }
        // more than an inline value's worth of bytes can only be shown by the owner
        let need = hs.iter().any(|(_, a, b)| b - a > 14);
        check!(!need || owners_live() == 1, "owner", "{} owners while a handle needs it", owners_live());
        check!((0..=1).contains(&owners_live()), "owner", "{} owners", owners_live());
        if hs.is_empty() {
            check!(owners_live() == 0, "owner", "{} owners without a handle", owners_live());
            break;
        }
        c.step(hash_bytes(owners_live() as u64, &hs.iter().flat_map(|(_, a, b)| [*a as u8, *b as u8]).collect::<Vec<_>>()));
    }
    drop(hs);
    check!(owners_live() == 0, "owner", "{} owners without a handle", owners_live());
}

/// Iterators of every kind abandoned anywhere; forgotten ones at least do not corrupt.
fn iterators(c: &mut Ctx) {
    let k = c.pick(&[1usize, 3, 6, 9]);
    let cl = c.pick(&[1usize, 20]);
    let mut q = ByteQueue::new();
    let mut m = Vec::new();
    let rot = c.choose(3);
    for i in 0..k {
        let s = stat(&TEXT[i..i + cl]);
        m.extend_from_slice(s);
        q.push_back(match (i + rot) % 3 {
            0 => make(Rep::ExtHeap, s).unwrap(),
            1 => ByteData::from(SharedBytes::from_slice(s)),
            _ => ByteData::from_static(s),
        });
    }
    let n = m.len();
    let what = c.choose(6);
    let t = c.pick(&[0usize, 1, 2, cl, cl + 1, n, n + 3]);
    c.note(|| format!("{k} chunks of {cl}, iterator {what} stepped {t} times"));
    match what {
        0 => {
            let mut it = q.into_bytes();
            for i in 0..t {
                let r = it.next();
                check!(r == m.get(i).copied(), "into_bytes", "{r:?} at {i}");
            }
        }
        1 => {
            let mut it = q.into_iter();
            let back = c.flag();
            for _ in 0..t {
                let r = if back { it.next_back() } else { it.next() };
                if let Some(r) = r {
                    check!(r.len() == cl, "into_iter", "chunk of {}", r.len());
                }
            }
        }
        2 => {
            let keep = q.clone();
            let mut it = q.into_iter();
            let a = it.next();
            let b = it.next_back();
            drop(it);
            drop(keep);
            check!(a.is_some() && (b.is_some() == (k > 1)), "into_iter", "ends");
        }
        3 => {
            let s: StringQueue = q.into_iter().map(|x| StringData::try_from(x).unwrap()).collect();
            let mut it = s.into_chars();
            for i in 0..t {
                let r = it.next();
                check!(r == m.get(i).map(|x| *x as char), "into_chars", "{r:?} at {i}");
            }
        }
        4 => {
            let a = c.pick(&[0, 1, cl.min(n), n / 2]);
            let b = c.pick(&[n, n - 1, n / 2 + 1]).max(a);
            {
                let mut it = q.drain(a..b);
                for i in 0..t {
                    let r = it.next();
                    check!(r == m[a..b].get(i).copied(), "drain", "{r:?} at {i}");
                }
            }
            m.drain(a..b);
            check!(Vec::from(q) == m, "drain", "rest");
        }
        _ => {
            let d = ByteData::from(q);
            let mut it = d.clone();
            for i in 0..t {
                let r = it.next();
                check!(r == m.get(i).copied(), "ByteData as iterator", "{r:?} at {i}");
            }
            drop(it);
            check!(d == &m[..], "ByteData as iterator", "other handle changed");
        }
    }
    c.step(t as u64 + 100 * what as u64 + 10000 * k as u64);
}

/// Every allocation of an operation refused in turn: nothing is lost, nothing is freed twice.
fn refused(c: &mut Ctx) {
    let Some((h, m)) = seed(c, REPS, &[40, 16, 3]) else { c.skip() };
    let mut p = Pool::new(3);
    p.add(h, m);
    let pre = c.choose(2);
    if pre == 1 {
        let H::Data(d) = &p.hs[0].0 else { c.skip() };
        let e = d.clone();
        p.add(H::Data(e), m);
    }
    let nth = 1 + c.choose(3) as i64;
    let k = c.choose(10);
    c.note(|| format!("operation {k} with allocation {nth} refused"));
    let H::Data(d) = p.hs.remove(0).0 else { c.skip() };
    alloc::fail_at(nth);
    let r = attempt(|| -> H {
        match k {
            0 => H::Data(d.clone()),
            1 => H::Data(d.into_shared()),
            2 => H::Vecd(Vec::from(d)),
            3 => H::Shared(SharedBytes::from(d)),
            4 => H::Fb(bytes::Bytes::from(d)),
            5 => H::Queue(ByteQueue::from(d)),
            6 => H::Builder(SharedBytesBuilder::from(SharedBytes::from(d))),
            7 => H::Data(d.sliced(..)),
            8 => {
                let mut q = ByteQueue::from(d);
                let e = q.clone();
                q.append(e);
                q.consume(q.len() / 2);
                H::Queue(q)
            }
            _ => H::Data(ByteData::from_external(HeapOwner::new(m))),
        }
    });
    alloc::fail_hit();
    if let Some(h) = r {
        verify(&h, m, "after a refusal");
    }
    p.verify("after a refusal");
    c.step(k as u64 * 8 + nth as u64);
}
