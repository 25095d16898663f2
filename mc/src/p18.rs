//! C18: textual renderings describe the content faithfully, whatever the chunking.
use crate::check;
use crate::explore::*;
use crate::specs;
use bytedata::*;
use std::fmt::{Debug, Display, LowerHex, UpperHex, Write};

pub const SUITES: &[Suite] = &[
    Suite { prop: "C18", name: "literals", body: literals, leaks: true },
    Suite { prop: "C18", name: "literals_long", body: literals_long, leaks: true },
    Suite { prop: "C18", name: "hex", body: hex, leaks: true },
    Suite { prop: "C18", name: "display", body: display, leaks: true },
    Suite { prop: "C18", name: "bounded_writer", body: bounded_writer, leaks: true },
#[cfg(not(feature = "bare"))]
    Suite { prop: "C18", name: "writers", body: writers, leaks: true },
#[cfg(not(feature = "bare"))]
    Suite { prop: "C18", name: "macros", body: macros, leaks: true },
];

/// Reads the inside of a byte-string literal; `None` if it is not one.
fn unescape(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'\\' => {
                i += 1;
                match *b.get(i)? {
                    b'\\' => v.push(b'\\'),
                    b'"' => v.push(b'"'),
                    b'\'' => v.push(b'\''),
                    b'n' => v.push(b'\n'),
                    b'r' => v.push(b'\r'),
                    b't' => v.push(b'\t'),
                    b'0' => v.push(0),
                    b'x' => {
                        let h = s.get(i + 1..i + 3)?;
                        if !h.bytes().all(|x| x.is_ascii_hexdigit()) {
                            return None;
                        }
                        v.push(u8::from_str_radix(h, 16).ok()?);
                        i += 2;
                    }
                    _ => return None,
                }
            }
            b'"' => return None,
            x if (0x20..0x7f).contains(&x) => v.push(x),
            _ => return None,
        }
        i += 1;
    }
    Some(v)
}

fn quoted(s: &str) -> Option<Vec<u8>> {
    unescape(s.strip_prefix("b\"")?.strip_suffix('"')?)
}

fn literal(what: &str, g: &str, m: &[u8]) {
    let d = quoted(g);
    check!(d.as_deref() == Some(m), "literal", "{what} of {m:02x?} renders as {g:?}, which reads back as {d:02x?}");
}
fn inside(what: &str, g: &str, m: &[u8]) {
    let d = unescape(g);
    check!(d.as_deref() == Some(m), "literal", "{what} of {m:02x?} renders as {g:?}, which reads back as {d:02x?}");
}

fn cut(m: &[u8], mask: usize) -> ByteQueue<'static> {
    let mut q = ByteQueue::new();
    let mut from = 0;
    for i in 1..=m.len() {
        if i == m.len() || mask >> (i - 1) & 1 == 1 {
            let b = &m[from..i];
            #[cfg(not(feature = "bare"))]
            let d = if i % 2 == 0 { ByteData::from_owned(b.to_vec()) } else { ByteData::from_shared(SharedBytes::from_slice(b)) };
            #[cfg(feature = "bare")]
            let d = if i % 2 == 0 && b.len() <= 14 { ByteData::from_chunk_slice(b) } else { ByteData::from_static(crate::reps::stat(b)) };
            q.push_back(d);
            from = i;
        }
    }
    q
}

/// All literal renderings of one content.
fn all_literals(m: &[u8], masks: usize) {
    let r = ByteStringRender::from_slice(m);
    inside("ByteStringRender Display", &format!("{r}"), m);
    literal("ByteStringRender Debug", &format!("{r:?}"), m);
    check!(r.as_slice() == m, "ByteStringRender", "as_slice");
    check!(format!("{:?}", ByteStringRender::from(m)) == format!("{r:?}"), "ByteStringRender", "From");
    check!(format!("{:?}", ByteStringRender::from_ref(&m.to_vec())) == format!("{r:?}"), "ByteStringRender", "from_ref");
    if let Ok(s) = std::str::from_utf8(m) {
        check!(format!("{:?}", ByteStringRender::from_str(s)) == format!("{r:?}"), "ByteStringRender", "from_str");
        check!(format!("{:?}", ByteStringRender::from(s)) == format!("{r:?}"), "ByteStringRender", "From<str>");
        #[cfg(not(feature = "bare"))]
        let t = StringData::from_owned(s.to_string());
        #[cfg(feature = "bare")]
        let t = StringData::from_static(crate::reps::stat_str(s));
        check!(format!("{t:?}") == format!("{s:?}") && format!("{t:#?}") == format!("{s:#?}"), "StringData Debug", "{t:?} for {s:?}");
        let mut q = StringQueue::new();
        q.push_back(t.clone());
        let g = format!("{q:?}");
        check!(g.contains(&format!("{s:?}")) || s.is_empty(), "StringQueue Debug", "{g} for {s:?}");
        #[cfg(not(feature = "bare"))]
        {
            let b = SharedStrBuilder::from(s);
            let g = format!("{b:?}");
            check!(g.contains(&format!("{s:?}")), "SharedStrBuilder Debug", "{g} for {s:?}");
        }
    }
    literal("ByteData Debug", &format!("{:?}", ByteData::from_borrowed(m)), m);
    if m.len() <= 14 {
        literal("ByteChunk Debug", &format!("{:?}", ByteChunk::from_slice(m)), m);
        literal("ByteData Debug (inline)", &format!("{:?}", ByteData::from_chunk_slice(m)), m);
    }
    #[cfg(not(feature = "bare"))]
    {
        let s = SharedBytes::from_slice(m);
        let g = format!("{s:?}");
        check!(g.contains(&format!("{r:?}")), "SharedBytes Debug", "{g} does not show {r:?}");
        literal("ByteData Debug (shared)", &format!("{:?}", ByteData::from_shared(s)), m);
    }
    for mask in 0..masks {
        let q = cut(m, mask);
        literal("ByteQueue Debug", &format!("{q:?}"), m);
        check!(format!("{q:?}") == format!("{r:?}"), "literal", "queue cut as {mask:b} renders as {q:?}, the slice as {r:?}");
        let parts: Vec<Vec<u8>> = q.chunks().map(|x| x.as_slice().to_vec()).collect();
        let mr = MultiByteStringRender::new(&parts);
        check!(format!("{mr:?}") == format!("{r:?}") && format!("{mr}") == format!("{r}"), "literal", "parts {parts:02x?} render as {mr:?}");
    }
}

/// Every byte and every pair of bytes.
fn literals(c: &mut Ctx) {
    let a = c.choose(256) as u8;
    let k = c.choose(9);
    c.note(|| format!("{a:02x} and {:02x}..", k * 32));
    if k == 8 {
        all_literals(&[a], 1);
        all_literals(&[], 1);
    } else {
        for b in k * 32..k * 32 + 32 {
            let m = [a, b as u8];
            // pairs where the two could run together get every rendering, others the essential ones
            let ra = ByteStringRender::from_slice(&m);
            inside("ByteStringRender Display", &format!("{ra}"), &m);
            literal("ByteStringRender Debug", &format!("{ra:?}"), &m);
            if c.thorough || b % 8 == 1 {
                all_literals(&m, 2);
            }
        }
        c.bulk(31);
    }
    c.step(mix(a as u64, k as u64));
}

fn literals_long(c: &mut Ctx) {
    const A: &[u8] = &[b'a', b'"', b'\\', b'\n', b'x', b'0', 0, 0x7f, 0xc3, 0xa9, b'\'', 0xff];
    let n = c.choose(c.q(5, 6));
    let m: Vec<u8> = (0..n).map(|_| c.pick(A)).collect();
    c.note(|| format!("{m:02x?}"));
    all_literals(&m, 1 << n.saturating_sub(1));
    c.step(hash_bytes(1, &m));
}

fn one_hex<T: LowerHex + UpperHex>(what: &str, t: &T, m: &[u8], first: &mut Vec<(String, String)>) {
    let lo: String = m.iter().map(|x| format!("{x:02x}")).collect();
    let hi = lo.to_uppercase();
    for k in 0..specs::NHEX {
        for w in [0, 1, 2 * m.len(), 2 * m.len() + 1, 2 * m.len() + 5] {
            let (a, b) = specs::hex(k, t, w);
            let len = if k == 0 || k == 6 || k == 8 { lo.len() } else { lo.len().max(w) };
            check!(a.ends_with(&lo) && b.ends_with(&hi) && a.len() == len && b.len() == len, "hex", "{what} of {m:02x?}, spec {k} width {w}: {a:?} {b:?}");
            check!(a[..len - lo.len()] == b[..len - lo.len()], "hex", "{what}: padding {a:?} {b:?}");
            check!(a[..len - lo.len()].bytes().all(|x| x == b'0' || x == b' '), "hex", "{what}: padding {a:?}");
            let i = k * 5 + [0, 1, 2 * m.len(), 2 * m.len() + 1, 2 * m.len() + 5].iter().position(|x| *x == w).unwrap();
            let _ = i;
        }
        let g = specs::hex(k, t, 2 * m.len() + 3);
        if first.len() == k {
            first.push(g);
        } else {
            check!(first[k] == g, "hex", "{what} of {m:02x?}, spec {k}: {g:?}, elsewhere {:?}", first[k]);
        }
    }
}

fn hex(c: &mut Ctx) {
    let m: Vec<u8> = if c.flag() {
        let hi = c.choose(16) as u8;
        vec![hi << 4, hi << 4 | c.choose(16) as u8, 0xff - hi]
    } else {
        let n = c.choose(6);
        (0..n).map(|_| c.pick(&[0u8, 0x0a, 0xa0, 0xff])).collect()
    };
    c.note(|| format!("{m:02x?}"));
    let mut f = Vec::new();
    one_hex("ByteData", &ByteData::from_borrowed(&m), &m, &mut f);
#[cfg(not(feature = "bare"))]
    one_hex("ByteData (shared)", &ByteData::from_shared(SharedBytes::from_slice(&m)), &m, &mut f);
    one_hex("ByteData (inline)", &ByteData::from_chunk_slice(&m), &m, &mut f);
#[cfg(not(feature = "bare"))]
    one_hex("SharedBytes", &SharedBytes::from_slice(&m), &m, &mut f);
#[cfg(not(feature = "bare"))]
    one_hex("SharedBytesBuilder", &SharedBytesBuilder::from(SharedBytes::from_slice(&m)), &m, &mut f);
    one_hex("ByteStringRender", &ByteStringRender::from_slice(&m), &m, &mut f);
    for mask in 0..1 << m.len().saturating_sub(1) {
        one_hex("ByteQueue", &cut(&m, mask), &m, &mut f);
    }
    c.step(hash_bytes(2, &m));
}

fn char_cut(t: &str, mask: usize) -> StringQueue<'static> {
    let mut q = StringQueue::new();
    let cuts: Vec<usize> = t.char_indices().map(|x| x.0).skip(1).chain([t.len()]).collect();
    let mut from = 0;
    for (i, &p) in cuts.iter().enumerate() {
        if p > from && (p == t.len() || mask >> i & 1 == 1) {
            #[cfg(not(feature = "bare"))]
            let d = StringData::from_owned(t[from..p].to_string());
            #[cfg(not(feature = "bare"))]
            let d = if i % 2 == 0 { d } else { d.into_shared() };
            #[cfg(feature = "bare")]
            let d = StringData::from_static(crate::reps::stat_str(&t[from..p]));
            q.push_back(d);
            from = p;
        }
    }
    q
}

fn draw(c: &mut Ctx, max: usize) -> String {
    const A: &[char] = &['a', 'é', '日', '😀', '\n', '{'];
    let n = c.choose(max + 1);
    (0..n).map(|_| c.pick(A)).collect()
}

fn one_display<T: Display>(what: &str, t: &T, s: &str, k: usize, w: usize, p: usize) {
    let g = specs::show(k, t, w, p);
    let e = specs::show(k, s, w, p);
    check!(g == e, "display", "{what} of {s:?} with {{:{}}} w={w} p={p}: {g:?}, expected {e:?}", specs::name(k));
}

fn display(c: &mut Ctx) {
    let s = draw(c, c.q(3, 4));
    let n = s.chars().count();
    let mask = c.choose(1 << n.saturating_sub(1));
    let q = char_cut(&s, mask);
    c.note(|| format!("{s:?} cut as {mask:b}"));
    #[cfg(not(feature = "bare"))]
    let t = StringData::from_owned(s.clone());
    #[cfg(feature = "bare")]
    let t = StringData::from_static(crate::reps::stat_str(&s));
    #[cfg(not(feature = "bare"))]
    let b = SharedStrBuilder::from(&*s);
    #[cfg(feature = "bare")]
    let b = t.clone();
    check!(t.to_string() == s && q.to_string() == s && b.to_string() == s, "display", "to_string of {s:?}");
    for k in 0..specs::N {
        for w in [0, 1, n, n + 1, n + 4] {
            for p in [0, 1, n.saturating_sub(1), n, n + 1] {
                if mask == 0 {
                    one_display("StringData", &t, &s, k, w, p);
                    one_display("SharedStrBuilder", &b, &s, k, w, p);
                }
                one_display("StringQueue", &q, &s, k, w, p);
                c.bulk(1);
            }
        }
    }
    c.step(mix(mask as u64, hash_bytes(3, s.as_bytes())));
}

/// Accepts `left` bytes, then refuses.
struct Bounded(String, usize);
impl Write for Bounded {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.1 {
            return Err(std::fmt::Error);
        }
        self.1 -= s.len();
        self.0.push_str(s);
        Ok(())
    }
}

/// A refusing writer is reported, whatever was written is a prefix.
fn bounded_writer(c: &mut Ctx) {
    let s = draw(c, 3);
    let mask = c.choose(1 << s.chars().count().saturating_sub(1));
    let q = char_cut(&s, mask);
    let bq = cut(s.as_bytes(), mask);
    #[cfg(not(feature = "bare"))]
    let t = StringData::from_owned(s.clone());
    #[cfg(feature = "bare")]
    let t = StringData::from_static(crate::reps::stat_str(&s));
    let which = c.choose(10);
    let pre = c.choose(2);
    fn go<T: ?Sized>(c: &mut Ctx, t: &T, f: impl Fn(&T, &mut dyn Write) -> std::fmt::Result) {
        let mut full = Bounded(String::new(), usize::MAX);
        let g = f(t, &mut full);
        check!(g.is_ok(), "bounded writer", "fails without a bound");
        let full = full.0;
        for n in 0..=full.len() {
            let mut w = Bounded(String::new(), n);
            let g = f(t, &mut w);
            check!(full.starts_with(&w.0), "bounded writer", "{n} of {full:?}: wrote {:?}", w.0);
            check!(g.is_ok() == (n >= full.len()), "bounded writer", "{n} of {full:?}: {g:?} after {:?}", w.0);
            c.bulk(1);
        }
        // the bounded writer of the library itself
        let mut w = ByteChunk::from_slice(b"");
        let g = f(t, &mut w);
        let b = w.as_slice();
        check!(full.as_bytes().starts_with(b) && g.is_ok() == (full.len() <= 14), "bounded writer", "into a chunk: {g:?} with {b:02x?} of {full:?}");
        check!(g.is_err() || b == full.as_bytes(), "bounded writer", "into a chunk: {b:02x?} of {full:?}");
    }
    c.note(|| format!("{s:?} cut as {mask:b}, rendering {which}"));
    let w = if pre == 0 { 0 } else { 7 };
    match which {
        0 => go(c, &q, |q, f| write!(f, "{q}")),
        1 => go(c, &q, |q, f| write!(f, "{q:>w$}")),
        2 => go(c, &q, |q, f| write!(f, "{q:^w$.2}")),
        3 => go(c, &bq, |q, f| write!(f, "{q:?}")),
        4 => go(c, &bq, |q, f| write!(f, "{q:w$x}")),
        5 => go(c, &t, |q, f| write!(f, "{q:w$}")),
        6 => go(c, &t, |q, f| write!(f, "{q:?}")),
        7 => go(c, &ByteStringRender::from_str(&s), |q, f| write!(f, "{q}")),
        8 => go(c, &ByteStringRender::from_str(&s), |q, f| write!(f, "{q:w$X}")),
        _ => go(c, &q, |q, f| write!(f, "{q:?}")),
    }
}

/// The text writers of the library append exactly what they accept.
#[cfg(not(feature = "bare"))]
fn writers(c: &mut Ctx) {
    let n = c.choose(c.q(4, 5));
    let parts: Vec<&str> = (0..n).map(|_| c.pick(&["", "a", "é日", "0123456789", "0123456789abcde"])).collect();
    let pre = c.pick(&["", "é"]);
    c.note(|| format!("{pre:?} then {parts:?}"));
    let flat = format!("{pre}{}", parts.concat());
    let mut b = SharedBytesBuilder::from(SharedBytes::from_slice(pre.as_bytes()));
    let mut s = SharedStrBuilder::from(pre);
    let mut q = ByteQueue::from(ByteData::from_owned(pre.as_bytes().to_vec()));
    let mut t = StringQueue::from(StringData::from_owned(pre.to_string()));
    let mut k = ByteChunk::from_slice(pre.as_bytes());
    let mut km = pre.to_string();
    for (i, x) in parts.iter().enumerate() {
        match i % 3 {
            0 => {
                b.write_str(x).unwrap();
                s.write_str(x).unwrap();
                Write::write_str(&mut q, x).unwrap();
                Write::write_str(&mut t, x).unwrap();
            }
            1 => {
                for ch in x.chars() {
                    b.write_char(ch).unwrap();
                    s.write_char(ch).unwrap();
                    Write::write_char(&mut q, ch).unwrap();
                    Write::write_char(&mut t, ch).unwrap();
                }
            }
            _ => {
                write!(b, "{x}").unwrap();
                write!(s, "{x}").unwrap();
                write!(&mut q, "{x}").unwrap();
                write!(&mut t, "{x}").unwrap();
            }
        }
        let g = k.write_str(x);
        let fits = km.len() + x.len() <= 14;
        if fits {
            km.push_str(x);
        }
        check!(g.is_ok() == fits && k.as_slice() == km.as_bytes(), "ByteChunk write_str", "{x:?}: {g:?}, {:02x?}, expected {km:?}", k.as_slice());
        c.step(hash_bytes(4, km.as_bytes()));
    }
    check!(b.as_slice() == flat.as_bytes(), "write_str", "builder has {:02x?}, expected {flat:?}", b.as_slice());
    check!(s.as_str() == flat, "write_str", "text builder has {:?}, expected {flat:?}", s.as_str());
    crate::p02::same(&q, flat.as_bytes(), "write_str");
    crate::p02::sq_same(&t, &flat, "write_str");
}

#[cfg(not(feature = "bare"))]
fn macros(c: &mut Ctx) {
    let a = draw(c, 2);
    let b = draw(c, 2);
    let x = c.pick(&[0u32, 7, 12345]);
    let w = c.pick(&[0usize, 1, 3, 15]);
    c.note(|| format!("{a:?} {b:?} {x} width {w}"));
    macro_rules! all {
        ($($t:tt)*) => {{
            let e = format!($($t)*);
            let s: StringData = format_shared!($($t)*);
            check!(s.as_str() == e, "format_shared", "{:?}, expected {e:?} for {}", s.as_str(), stringify!($($t)*));
            let q: StringQueue = format_queue!($($t)*);
            crate::p02::sq_same(&q, &e, "format_queue");
            c.step(hash_bytes(6, e.as_bytes()));
        }};
    }
    all!("");
    all!("lit é {{}}");
    all!("{}", a);
    all!("{a}");
    all!("{a}{b}");
    all!("{0}{1}{0}", a, b);
    all!("<{a}|{b:?}|{x}>");
    all!("{:>w$}{:*^9}", a, b, w = w);
    all!("{x:#06x} {x:w$} {a:.1}");
    all!("{}{}", StringData::from_owned(a.clone()), char_cut(&b, 1));
    all!("{:?}", ByteData::from_borrowed(a.as_bytes()));
}
