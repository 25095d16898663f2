//! C16: constant helpers and UTF-8 decoding agree with the standard library.
use crate::check;
use crate::explore::*;
use bytedata::*;

pub const SUITES: &[Suite] = &[
    Suite { prop: "C16", name: "decode", body: decode, leaks: true },
    Suite { prop: "C16", name: "decode_mixed", body: decode_mixed, leaks: true },
    Suite { prop: "C16", name: "decode_chars", body: decode_chars, leaks: true },
    Suite { prop: "C16", name: "words", body: words, leaks: true },
    Suite { prop: "C16", name: "slices", body: slices, leaks: true },
    Suite { prop: "C16", name: "str_words", body: str_words, leaks: true },
    Suite { prop: "C16", name: "build", body: build, leaks: true },
    Suite { prop: "C16", name: "concat", body: concat, leaks: true },
];

/// The character at the front of `b` according to the standard library.
fn front(b: &[u8]) -> Option<(char, usize)> {
    for w in 1..=b.len().min(4) {
        if let Ok(s) = std::str::from_utf8(&b[..w]) {
            return Some((s.chars().next().unwrap(), w));
        }
    }
    None
}

/// Judges both decoders on one input, at every position they reach.
fn judge(b: &[u8]) {
    let (v, w) = const_utf8_char_next(b);
    match front(b) {
        Some((ch, n)) => check!((v, w) == (ch as u32, n as u32), "const_utf8_char_next", "{b:02x?} gives {:?}, expected {:?}", (v, w), (ch as u32, n)),
        None => check!((v, w) == (0, 0), "const_utf8_char_next", "{b:02x?} gives {:?}, expected a rejection", (v, w)),
    }
    let mut it = Utf8CharIndices::new(b);
    let mut cc = Utf8CharIndices::new(b);
    let mut at = 0;
    loop {
        let rest = &b[at..];
        check!(it.remaining() == rest && cc.remaining() == rest, "remaining", "{b:02x?} at {at}: remaining {:02x?}", it.remaining());
        let (lo, hi) = it.size_hint();
        check!(Iterator::size_hint(&it) == (lo, Some(hi)), "size_hint", "{b:02x?} at {at}: two size hints");
        if rest.is_empty() {
            check!((lo, hi) == (0, 0), "size_hint", "{b:02x?} at the end: {:?}", (lo, hi));
            for _ in 0..2 {
                let g = it.next();
                check!(g.is_none(), "Utf8CharIndices", "{b:02x?}: {g:?} at the end");
            }
            match cc.next_const() {
                Err((_, e)) => check!(e.error_len == 0 && e.valid_up_to == at, "Utf8CharIndices", "{b:02x?}: {e:?} at the end"),
                Ok(_) => fail("Utf8CharIndices", format!("{b:02x?}: next_const gives something at the end")),
            }
            return;
        }
        let e = front(rest);
        let g = it.next();
        let h = cc.next_const();
        match e {
            Some((ch, n)) => {
                check!(g == Some(Ok((at, ch))), "Utf8CharIndices", "{b:02x?} at {at}: {g:?}, expected {ch:?}");
                match h {
                    Ok((next, o, c2)) => {
                        check!((o, c2) == (at, ch), "next_const", "{b:02x?} at {at}: {:?}", (o, c2));
                        cc = next;
                    }
                    Err((_, x)) => fail("next_const", format!("{b:02x?} at {at}: {x:?}, expected {ch:?}")),
                }
                at += n;
            }
            None => {
                match g {
                    Some(Err(x)) => check!(x.valid_up_to == at && x.error_len >= 1 && x.error_len as usize <= rest.len().min(4), "Utf8CharIndices", "{b:02x?} at {at}: {x:?}"),
                    _ => fail("Utf8CharIndices", format!("{b:02x?} at {at}: {g:?}, expected a rejection")),
                }
                match h {
                    Err((next, x)) => {
                        check!(x.valid_up_to == at && x.error_len >= 1, "next_const", "{b:02x?} at {at}: {x:?}");
                        cc = next;
                    }
                    Ok((_, o, c2)) => fail("next_const", format!("{b:02x?} at {at}: {:?}, expected a rejection", (o, c2))),
                }
                at += 1;
            }
        }
    }
}

/// Every sequence of up to three bytes; thorough: four.
fn decode(c: &mut Ctx) {
    if c.choose(2) == 0 {
        // in a buffer of exactly this length, so that a read past the end is seen
        judge(&[]);
        for a in 0..=255 {
            judge(&Box::new([a])[..]);
            for b in 0..=255 {
                judge(&Box::new([a, b])[..]);
            }
        }
        c.bulk(256 * 257 + 1);
        return;
    }
    let a = c.choose(256) as u8;
    let b = c.choose(256) as u8;
    c.note(|| format!("starting with {a:02x} {b:02x}"));
    let mut s = Box::new([a, b, 0]);
    for x in 0..=255 {
        s[2] = x;
        judge(&s[..]);
    }
    c.bulk(256);
    c.step(mix(a as u64, b as u64));
    // four bytes: quick takes boundary values for the last two
    if a < 0x80 && !c.thorough {
        return;
    }
    let mut s = Box::new([a, b, 0, 0]);
    const EDGE: &[u8] = &[0, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbe, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff];
    if c.thorough {
        for x in 0..=255 {
            for y in 0..=255 {
                s[2] = x;
                s[3] = y;
                judge(&s[..]);
            }
        }
        c.bulk(65536);
    } else {
        for x in EDGE {
            for y in EDGE {
                s[2] = *x;
                s[3] = *y;
                judge(&s[..]);
            }
        }
        c.bulk(21 * 21);
    }
}

/// Longer sequences over the bytes where the decoders can go one way or another.
fn decode_mixed(c: &mut Ctx) {
    const A: &[u8] = &[0x61, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc1, 0xc2, 0xe0, 0xe1, 0xed, 0xf0, 0xf1, 0xf4, 0xf5];
    let n = c.choose(c.q(6, 7));
    let mut s = Vec::new();
    for _ in 0..n {
        s.push(c.pick(A));
    }
    c.note(|| format!("{s:02x?}"));
    judge(&s);
    c.step(hash_bytes(5, &s));
}

/// Every character there is, alone, cut short, followed and preceded.
fn decode_chars(c: &mut Ctx) {
    let hi = c.choose(0x110000 >> 8) as u32;
    let ctx = c.choose(3);
    c.note(|| format!("characters {:x}00..", hi));
    for lo in 0..256 {
        let Some(ch) = char::from_u32(hi << 8 | lo) else { continue };
        let mut v: Vec<u8> = Vec::with_capacity(12);
        match ctx {
            0 => v.extend_from_slice(ch.to_string().as_bytes()),
            1 => v.extend_from_slice(format!("é{ch}a").as_bytes()),
            _ => v.extend_from_slice(&ch.to_string().as_bytes()[..ch.len_utf8() - 1]),
        }
        let v = v.into_boxed_slice();
        judge(&v);
    }
    c.bulk(256);
}

fn word(c: &mut Ctx, max: usize) -> Vec<u8> {
    let n = c.choose(max + 1);
    (0..n).map(|_| b'a' + c.choose(2) as u8).collect()
}

fn words(c: &mut Ctx) {
    let h = word(c, c.q(8, 10));
    let n = word(c, c.q(5, 6));
    c.note(|| format!("{h:?} and {n:?}"));
    let g = const_eq(&h, &n);
    check!(g == (h == n), "const_eq", "{h:?} == {n:?} gives {g}");
    let g = const_starts_with(&h, &n);
    check!(g == h.starts_with(&n), "const_starts_with", "{h:?}, {n:?} gives {g}");
    let g = const_ends_with(&h, &n);
    check!(g == h.ends_with(&n), "const_ends_with", "{h:?}, {n:?} gives {g}");
    let e = crate::p03::find(&h, &n, 0);
    let g = const_find_bytes(&h, &n);
    check!(g == e, "const_find_bytes", "{h:?}, {n:?} gives {g:?}, expected {e:?}");
    let g = const_split_once_bytes(&h, &n);
    let w = e.map(|i| (&h[..i], &h[i..]));
    check!(g == w, "const_split_once_bytes", "{h:?}, {n:?} gives {g:?}, expected {w:?}");
    for b in [b'a', b'b', b'c'] {
        let g = const_split_once_byte(&h, b);
        let w = h.iter().position(|x| *x == b).map(|i| (&h[..i], &h[i..]));
        check!(g == w, "const_split_once_byte", "{h:?}, {b} gives {g:?}, expected {w:?}");
    }
    c.bulk(8);
    c.step(hash_bytes(hash_bytes(1, &h), &n));
}

const TEXTS: &[&str] = &["", "a", "é", "ab", "aé", "éa", "日", "a日b", "😀", "é日😀", "a\u{7f}\u{80}\u{7ff}\u{800}\u{ffff}\u{10000}b"];

fn slices(c: &mut Ctx) {
    let t = c.pick(TEXTS);
    let n = t.len();
    let mut ps: Vec<usize> = (0..=n + 2).collect();
    ps.extend([usize::MAX - 1, usize::MAX]);
    let a = c.pick(&ps);
    let b = c.pick(&ps);
    c.note(|| format!("{t:?}[{a}..{b}]"));
    // exactly sized copy: a read past the end is seen
    let owned: Box<str> = t.into();
    let t: &str = &owned;
    let g = const_slice(t.as_bytes(), a..b);
    let e = t.as_bytes().get(a..b);
    check!(g == e, "const_slice", "{t:?}[{a}..{b}] gives {g:?}, expected {e:?}");
    if let Some(g) = g {
        check!(g.as_ptr() == e.unwrap().as_ptr(), "const_slice", "elsewhere");
    }
    let g = const_slice_str(t, a..b);
    let e = t.get(a..b);
    let want = match e {
        Some(s) => StrSliceResult::Success(s),
        None if a > b || b > n => StrSliceResult::OutOfBounds,
        None => StrSliceResult::InvalidUtf8,
    };
    check!(g == want, "const_slice_str", "{t:?}[{a}..{b}] gives {g:?}, expected {want:?}");
    check!(g.ok() == e && g.is_ok() == e.is_some() && g.is_err() == e.is_none(), "StrSliceResult", "{g:?}: ok/is_ok/is_err");
    check!(g.err() == if e.is_some() { None } else { Some(want) }, "StrSliceResult", "{g:?}: err");
    let u = attempt(|| g.unwrap());
    check!(u == e, "StrSliceResult", "{g:?}: unwrap gives {u:?}");
    check!(const_or_str(g.ok(), "dflt") == e.unwrap_or("dflt"), "const_or_str", "{g:?}");
    check!(const_or_bytes(const_slice(t.as_bytes(), a..b), b"dflt") == t.as_bytes().get(a..b).unwrap_or(b"dflt"), "const_or_bytes", "{g:?}");
    c.step(mix(a as u64, b as u64));
}

fn str_words(c: &mut Ctx) {
    const A: &[char] = &['a', 'é', 'ê', '日', '😀'];
    let n = c.choose(c.q(5, 6));
    let h: String = (0..n).map(|_| c.pick(A)).collect();
    let k = c.choose(3);
    let m: String = (0..k).map(|_| c.pick(A)).collect();
    c.note(|| format!("{h:?} and {m:?}"));
    let g = const_split_once_str(&h, &m);
    let e = h.find(&m).map(|i| h.split_at(i));
    check!(g == e, "const_split_once_str", "{h:?}, {m:?} gives {g:?}, expected {e:?}");
    let g = const_find_bytes(h.as_bytes(), m.as_bytes());
    check!(g == h.find(&m), "const_find_bytes", "{h:?}, {m:?} gives {g:?}");
    c.step(hash_bytes(hash_bytes(2, h.as_bytes()), m.as_bytes()));
}

fn one<const N: usize>(inputs: &[&[u8]]) {
    let flat = inputs.concat();
    let g = attempt(|| build_const_bytes::<N>([0xEE; N], inputs));
    match g {
        Some((a, n)) => {
            check!(flat.len() <= N, "build_const_bytes", "{inputs:?} into {N} is accepted");
            check!(n == flat.len() && a[..n] == flat[..] && a[n..].iter().all(|x| *x == 0xEE), "build_const_bytes", "{inputs:?} into {N} gives {a:02x?}, {n}");
        }
        None => check!(flat.len() > N, "build_const_bytes", "{inputs:?} into {N} is refused"),
    }
}

fn build(c: &mut Ctx) {
    let k = c.choose(c.q(4, 5));
    let v: Vec<&[u8]> = (0..k).map(|_| c.pick(&[&b""[..], b"a", b"bc", b"def"])).collect();
    c.note(|| format!("{v:?}"));
    one::<0>(&v);
    one::<1>(&v);
    one::<2>(&v);
    one::<3>(&v);
    one::<4>(&v);
    one::<6>(&v);
    one::<9>(&v);
    one::<12>(&v);
    c.bulk(7);
    c.step(hash_bytes(3, &v.concat()));
}

fn concat(c: &mut Ctx) {
    if c.flag() {
        for (g, parts) in crate::cat::strs() {
            check!(g == parts.concat(), "concat_str_static", "{parts:?} gives {g:?}");
            c.step(hash_bytes(4, g.as_bytes()));
        }
    } else {
        for (g, parts) in crate::cat::bytes() {
            check!(g == parts.concat(), "concat_bytes_static", "{parts:?} gives {g:?}");
            c.step(hash_bytes(5, g));
        }
    }
}
