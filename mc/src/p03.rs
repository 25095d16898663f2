//! C03: searching and splitting agree with a naive search over the flat bytes.
use crate::check;
use crate::explore::*;
use crate::reps::*;
#[cfg(not(feature = "bare"))]
use bytedata::SharedBytes;
use bytedata::{ByteData, ByteQueue, StringData, StringQueue};

pub const SUITES: &[Suite] = &[
    Suite { prop: "C03", name: "bytes", body: bytes, leaks: true },
    Suite { prop: "C03", name: "queue", body: queue, leaks: true },
    Suite { prop: "C03", name: "queue_nodes", body: queue_nodes, leaks: true },
    Suite { prop: "C03", name: "text", body: text, leaks: true },
    Suite { prop: "C03", name: "text_queue", body: text_queue, leaks: true },
];

/// First match at or after `from`.
pub fn find(h: &[u8], n: &[u8], from: usize) -> Option<usize> {
    (from..=h.len()).find(|&i| h[i..].starts_with(n))
}
/// Pieces between matches; no piece for an empty haystack, one piece where nothing can match.
pub fn pieces<'x>(h: &'x [u8], n: &[u8], max: usize) -> Vec<&'x [u8]> {
    let mut v = Vec::new();
    if h.is_empty() {
        return v;
    }
    let mut at = 0;
    while let (false, Some(i)) = (n.is_empty() || v.len() + 1 == max, find(h, n, at)) {
        v.push(&h[at..i]);
        at = i + n.len();
    }
    v.push(&h[at..]);
    v
}

/// Drains a splitting iterator against the expected pieces; bounded, so that non-termination shows.
fn run_split<T>(mut it: impl Iterator<Item = T>, want: &[&[u8]], what: &str, eq: impl Fn(&T, &[u8]) -> Option<String>) {
    for (i, w) in want.iter().enumerate() {
        let left = want.len() - i;
        let (lo, hi) = it.size_hint();
        check!(lo <= left && hi.map_or(true, |h| h >= left), what, "size_hint {:?} with {left} piece(s) to come", (lo, hi));
        match it.next() {
            None => fail(what, format!("ended after {i} piece(s) of {}", want.len())),
            Some(x) => {
                if let Some(g) = eq(&x, w) {
                    fail(what, format!("piece {i} is {g}, expected {w:02x?} (of {} pieces)", want.len()))
                }
            }
        }
    }
    for _ in 0..2 {
        check!(it.size_hint().0 == 0, what, "size_hint {:?} at the end", it.size_hint());
        check!(it.next().is_none(), what, "another piece after the last ({} expected)", want.len());
    }
}

fn word(c: &mut Ctx, alphabet: &[u8], max: usize) -> Vec<u8> {
    let n = c.choose(max + 1);
    (0..n).map(|_| c.pick(alphabet)).collect()
}

fn bytes(c: &mut Ctx) {
    let h = word(c, b"ab", c.q(10, 13));
    let n = word(c, b"ab", 4);
    let hs = stat(&h);
    c.note(|| format!("haystack {:?} needle {:?}", h.escape_ascii().to_string(), n.escape_ascii().to_string()));
    let split = pieces(hs, &n, 0);
    let first = find(hs, &n, 0);
    let run = hs.iter().position(|x| *x != b'a').unwrap_or(hs.len());
    for rep in [Rep::Static, Rep::Inline, Rep::Shared, Rep::SharedMid, Rep::ExtMid] {
        let Some(d) = make(rep, hs) else { continue };
        check!(d.starts_with(&n) == hs.starts_with(&n), "starts_with", "{rep:?}: {}", d.starts_with(&n));
        check!(d.ends_with(&n) == hs.ends_with(&n), "ends_with", "{rep:?}: {}", d.ends_with(&n));
        match (d.clone().split_once_on(&n), first) {
            (Ok((a, b)), Some(i)) => check!(*a == hs[..i] && *b == hs[i..], "split_once_on", "{rep:?}: {:?} | {:?}", a.escape_ascii().to_string(), b.escape_ascii().to_string()),
            (Err(e), None) => check!(*e == *hs, "split_once_on", "{rep:?}: rejected value changed"),
            (Ok(_), None) => fail("split_once_on", format!("{rep:?}: found a match that is not there")),
            (Err(_), Some(i)) => fail("split_once_on", format!("{rep:?}: missed the match at {i}")),
        }
        run_split(d.clone().split_on(&n), &split, "split_on", |p, w| (p.as_slice() != w || p.len() != w.len()).then(|| format!("{:02x?}", p.as_slice())));
        let mut r = d.clone();
        let t = ByteData::take_while(&mut r, |b| b == b'a');
        check!(*t == hs[..run] && *r == hs[run..], "take_while", "{rep:?}: {:02x?} | {:02x?}", t.as_slice(), r.as_slice());
        #[cfg(not(feature = "bare"))]
        if let Some(s) = shared(rep, hs) {
            let s: SharedBytes = s;
            check!(s.starts_with(&n) == hs.starts_with(&n) && s.ends_with(&n) == hs.ends_with(&n), "starts_with", "SharedBytes {rep:?}");
        }
        check!(*d == *hs, "receiver", "{rep:?}: receiver changed");
        c.step(hash_bytes(first.map_or(99, |x| x as u64), hs));
    }
}

fn cut(h: &[u8], mask: usize) -> ByteQueue<'static> {
    let hs = stat(h);
    let mut q = ByteQueue::new();
    let mut at = 0;
    for i in 1..=hs.len() {
        if i == hs.len() || mask >> (i - 1) & 1 == 1 {
            q.push_back(ByteData::from_static(&hs[at..i]));
            at = i;
        }
    }
    q
}

pub fn judge_queue(q: &ByteQueue<'static>, h: &[u8], n: &[u8]) {
    check!(q.starts_with(n) == h.starts_with(n), "queue starts_with", "{}", q.starts_with(n));
    check!(q.ends_with(n) == h.ends_with(n), "queue ends_with", "{}", q.ends_with(n));
    for i in 0..=h.len() + 1 {
        let want = i <= h.len() && h[i..].starts_with(n);
        check!(q.exists_at(i, n) == want, "exists_at", "at {i}: {}", q.exists_at(i, n));
        let want = find(h, n, i);
        let got = q.find_slice_after(n, i);
        check!(got == want, "find_slice_after", "from {i}: {got:?}, expected {want:?}");
    }
    for i in [usize::MAX, usize::MAX - 1, 1 << 40] {
        check!(!q.exists_at(i, n), "exists_at", "at {i}");
        check!(q.find_slice_after(n, i).is_none(), "find_slice_after", "from {i}");
    }
    check!(q.find_slice(n) == find(h, n, 0), "find_slice", "{:?} expected {:?}", q.find_slice(n), find(h, n, 0));
    let w = pieces(h, n, 0);
    let eq = |p: &ByteQueue<'_>, w: &[u8]| {
        let flat: Vec<u8> = p.bytes().collect();
        (flat != w || p.len() != w.len() || p.is_empty() != w.is_empty() || p.chunks().any(|x| x.is_empty())).then(|| format!("{flat:02x?} (len {})", p.len()))
    };
    run_split(q.split_on(n), &w, "queue split_on", eq);
    for max in 0..=w.len() + 1 {
        let w = pieces(h, n, max);
        run_split(q.splitn_on(n, max), &w, "queue splitn_on", eq);
    }
    for t in [b'a', b'b'] {
        let at = h.iter().position(|x| *x == t);
        check!(q.find_byte(|b| b == t) == at, "find_byte", "{:?} expected {at:?}", q.find_byte(|b| b == t));
        let mut r = q.clone();
        let k = h.iter().position(|x| *x != t).unwrap_or(h.len());
        let f = r.take_while(|b| b == t);
        check!(f.bytes().eq(h[..k].iter().copied()) && r.bytes().eq(h[k..].iter().copied()) && f.len() == k && r.len() == h.len() - k, "queue take_while", "run of {k}");
    }
}

fn queue(c: &mut Ctx) {
    let h = word(c, b"ab", c.q(7, 9));
    let mask = if h.len() > 1 { c.choose(1 << (h.len() - 1)) } else { 0 };
    let n = word(c, b"ab", 4);
    let q = cut(&h, mask);
    c.note(|| format!("chunks {:?} needle {:?}", q.chunks().map(|x| x.escape_ascii().to_string()).collect::<Vec<_>>(), n.escape_ascii().to_string()));
    judge_queue(&q, &h, &n);
    c.step(hash_bytes(mask as u64, &h));
}

/// Many one-byte chunks: matches and near-matches across the internal node boundaries.
fn queue_nodes(c: &mut Ctx) {
    let len = c.pick(&[18usize, 33, 35]);
    let p = c.choose(len);
    let r = c.choose(len - p);
    let step = c.pick(&[1usize, 2]);
    let mut h = vec![b'a'; len];
    h[p] = b'b';
    h[p + r] = b'b';
    let needles: &[&[u8]] = &[b"b", b"ab", b"ba", b"aab", b"bb", b"baab", b"aaab", b"abab", b"aaaaaaaaaaaaaaaaab", b"baaaaaaaaaaaaaaaab", b"aaaaaaaaaaaaaaaa"];
    let n = c.pick(needles);
    if cfg!(feature = "bare") && len.div_ceil(step) > 23 {
        c.skip();
    }
    let mut q = ByteQueue::new();
    for x in stat(&h).chunks(step) {
        q.push_back(ByteData::from_static(x));
    }
    c.note(|| format!("{} bytes in chunks of {step}, 'b' at {p} and {}, needle {:?}", len, p + r, n.escape_ascii().to_string()));
    judge_queue(&q, &h, n);
    c.step(hash_bytes(step as u64, &h));
}

const CH: [char; 4] = ['a', '\n', 'å', '€'];

fn text_word(c: &mut Ctx, max: usize) -> String {
    let n = c.choose(max + 1);
    (0..n).map(|_| c.pick(&CH)).collect()
}

fn text(c: &mut Ctx) {
    let h = text_word(c, c.q(4, 6));
    let n = text_word(c, 2);
    let hs = stat_str(&h);
    c.note(|| format!("text {h:?} needle {n:?}"));
    let split = pieces(hs.as_bytes(), n.as_bytes(), 0);
    for rep in [Rep::Static, Rep::Inline, Rep::SharedMid, Rep::ExtMid] {
        let Some(d) = make_str(rep, hs) else { continue };
        check!(d.starts_with(&n) == hs.starts_with(&n) && d.ends_with(&n) == hs.ends_with(&n), "text starts/ends_with", "{rep:?}");
        match (d.clone().split_once_on(&n), hs.find(&n)) {
            (Ok((a, b)), Some(i)) => check!(a == hs[..i] && b == hs[i..], "text split_once_on", "{rep:?}: {a:?} | {b:?}"),
            (Err(e), None) => check!(e == *hs, "text split_once_on", "{rep:?}: rejected value changed"),
            (g, w) => fail("text split_once_on", format!("{rep:?}: {} expected {w:?}", g.is_ok())),
        }
        run_split(d.clone().split_on(&n), &split, "text split_on", |p, w| (p.as_bytes() != w).then(|| format!("{:02x?}", p.as_bytes())));
        for ch in CH {
            let k = hs.find(|x| x != ch).unwrap_or(hs.len());
            let mut r = d.clone();
            let t = StringData::take_while(&mut r, |x| x == ch);
            check!(t == hs[..k] && r == hs[k..], "text take_while", "{rep:?} {ch:?}: {t:?} | {r:?}");
        }
        let mut r = d.clone();
        let mut rest = hs;
        for i in 0..=hs.len() + 1 {
            let k = rest.find('\n').map_or(rest.len(), |x| x + 1);
            let t = r.take_line();
            check!(t == rest[..k] && r == rest[k..], "take_line", "{rep:?} line {i}: {t:?} | {r:?}, expected {:?} | {:?}", &rest[..k], &rest[k..]);
            rest = &rest[k..];
        }
        check!(d == *hs, "receiver", "changed");
        c.step(hash_bytes(rep as u64, hs.as_bytes()));
    }
}

fn text_queue(c: &mut Ctx) {
    let nch = c.choose(c.q(5, 7));
    let chars: Vec<char> = (0..nch).map(|_| c.pick(&CH)).collect();
    let mask = if nch > 1 { c.choose(1 << (nch - 1)) } else { 0 };
    let n = text_word(c, 2);
    let h: String = chars.iter().collect();
    let hs = stat_str(&h);
    let mut q = StringQueue::new();
    let mut at = 0;
    let mut end = 0;
    for (i, ch) in chars.iter().enumerate() {
        end += ch.len_utf8();
        if i + 1 == nch || mask >> i & 1 == 1 {
            q.push_back(StringData::from_static(&hs[at..end]));
            at = end;
        }
    }
    c.note(|| format!("chunks {:?} needle {n:?}", q.chunks().map(|x| x.as_str().to_string()).collect::<Vec<_>>()));
    check!(q.starts_with(&n) == hs.starts_with(&n) && q.ends_with(n.as_bytes()) == hs.ends_with(&n), "text queue starts/ends_with", "");
    for ch in CH {
        check!(q.find_char(|x| x == ch) == hs.find(ch), "find_char", "{ch:?}: {:?} expected {:?}", q.find_char(|x| x == ch), hs.find(ch));
        let k = hs.find(|x| x != ch).unwrap_or(hs.len());
        let mut r = q.clone();
        let t = r.take_while(|x| x == ch);
        check!(t == hs[..k] && r == hs[k..] && t.len() == k && r.len() == hs.len() - k, "text queue take_while", "{ch:?} run of {k} bytes");
    }
    let mut r = q.clone();
    let mut rest = hs;
    for i in 0..=nch + 1 {
        let k = rest.find('\n').map_or(rest.len(), |x| x + 1);
        let t = r.take_line();
        check!(t == rest[..k] && r == rest[k..] && t.len() == k, "text queue take_line", "line {i}: {t:?} | {r:?}");
        rest = &rest[k..];
    }
    let eqs = |p: &StringQueue<'_>, w: &[u8]| {
        let flat: Vec<u8> = p.bytes().collect();
        (flat != w || p.chunks().any(|x| core::str::from_utf8(x.as_bytes()).is_err())).then(|| format!("{flat:02x?}"))
    };
    let eqb = |p: &ByteQueue<'_>, w: &[u8]| {
        let flat: Vec<u8> = p.bytes().collect();
        (flat != w).then(|| format!("{flat:02x?}"))
    };
    let w = pieces(hs.as_bytes(), n.as_bytes(), 0);
    run_split(q.split_on(&n), &w, "text queue split_on", eqs);
    run_split(q.split_on_bytes(n.as_bytes()), &w, "text queue split_on_bytes", eqb);
    for max in 0..=w.len() + 1 {
        let w = pieces(hs.as_bytes(), n.as_bytes(), max);
        run_split(q.splitn_on(&n, max), &w, "text queue splitn_on", eqs);
        run_split(q.splitn_on_bytes(n.as_bytes(), max), &w, "text queue splitn_on_bytes", eqb);
    }
    // cutting inside a character is fine for bytes
    if let Some(b) = n.as_bytes().get(1..2) {
        let w = pieces(hs.as_bytes(), b, 0);
        run_split(q.split_on_bytes(b), &w, "text queue split_on_bytes", eqb);
    }
    check!(q == *hs, "receiver", "changed");
    c.step(hash_bytes(mask as u64, hs.as_bytes()));
}
