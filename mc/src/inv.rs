//! What holds of every queue, whatever its history.
use crate::check;
use crate::explore::*;
use bytedata::{ByteQueue, StringQueue};

/// Invariants and content.
pub fn same(q: &ByteQueue<'_>, m: &[u8], what: &str) {
    check!(q.len() == m.len(), what, "len() is {}, expected {}", q.len(), m.len());
    check!(q.is_empty() == m.is_empty(), what, "is_empty() is {} with {} bytes", q.is_empty(), m.len());
    let mut at = 0;
    let mut n = 0;
    for ch in q.chunks() {
        check!(!ch.as_slice().is_empty(), what, "chunk {n} is empty");
        let e = at + ch.len();
        check!(e <= m.len() && ch.as_slice() == &m[at..e], what, "chunk {n} at byte {at} is {:02x?}, flat content there is {:02x?}", ch.as_slice(), &m[at.min(m.len())..e.min(m.len())]);
        at = e;
        n += 1;
    }
    check!(at == m.len(), what, "chunks hold {at} bytes, expected {}", m.len());
    check!(q.chunk_len() == n, what, "chunk_len() is {}, {n} chunks are yielded", q.chunk_len());
    match (q.front(), q.back()) {
        (None, None) => check!(m.is_empty(), what, "no front/back with {} bytes", m.len()),
        (Some(f), Some(b)) => check!(m.starts_with(f) && m.ends_with(b) && !f.is_empty() && !b.is_empty(), what, "front {:02x?} / back {:02x?} of {m:02x?}", f.as_slice(), b.as_slice()),
        _ => fail(what, "front and back disagree".into()),
    }
}

/// Content, through every consuming path.
pub fn same_full(q: &ByteQueue<'static>, m: &[u8], what: &str) {
    same(q, m, what);
    check!(q.bytes().eq(m.iter().copied()), what, "bytes() differs");
    check!(q.iter().map(|c| c.len()).sum::<usize>() == m.len(), what, "iter() differs");
    let mut c = q.clone();
    same(&c, m, what);
    let mut at = 0;
    while let Some(p) = c.pop_front() {
        check!(m[at..].starts_with(&p) && !p.is_empty(), what, "pop_front gave {:02x?} at {at}", p.as_slice());
        at += p.len();
        if at % 3 == 0 {
            same(&c, &m[at..], what);
        }
    }
    check!(at == m.len() && c.is_empty() && c.len() == 0, what, "pop_front ended at {at} of {}", m.len());
    let mut c = q.clone();
    let mut end = m.len();
    while let Some(p) = c.pop_back() {
        check!(m[..end].ends_with(&p) && !p.is_empty(), what, "pop_back gave {:02x?} before {end}", p.as_slice());
        end -= p.len();
        if end % 3 == 0 {
            same(&c, &m[..end], what);
        }
    }
    check!(end == 0 && c.is_empty(), what, "pop_back ended at {end}");
    #[cfg(not(feature = "bare"))]
    {
        let v: Vec<u8> = q.clone().into();
        check!(v == m, what, "into Vec differs");
        let d: bytedata::ByteData = q.clone().into();
        check!(d.as_slice() == m, what, "into ByteData differs");
    }
    check!(q.clone().into_bytes().eq(m.iter().copied()), what, "into_bytes differs");
    let mut back = ByteQueue::new();
    for x in q.clone() {
        back.push_back(x);
    }
    same(&back, m, what);
}

pub fn sq_same(q: &StringQueue<'_>, m: &str, what: &str) {
    same(q.as_bytequeue(), m.as_bytes(), what);
    check!(q.len() == m.len() && q.is_empty() == m.is_empty() && q.chunk_len() == q.chunks().count(), what, "len {} expected {}", q.len(), m.len());
    let mut at = 0;
    for ch in q.chunks() {
        check!(core::str::from_utf8(ch.as_bytes()).is_ok(), what, "chunk at {at} is not UTF-8: {:02x?}", ch.as_bytes());
        at += ch.len();
    }
    check!(q.chars().eq(m.chars()), what, "chars() differ for {m:?}");
    check!(q.chars_indecies().eq(m.char_indices()), what, "char indices differ for {m:?}");
    check!(q.front().map_or(m.is_empty(), |f| m.starts_with(f.as_str())) && q.back().map_or(m.is_empty(), |f| m.ends_with(f.as_str())), what, "front/back");
}
