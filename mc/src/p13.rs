//! C13: parser input implementations match nom's own slices and strings.
use crate::check;
use crate::explore::*;
use crate::p02::{same, sq_same};
use crate::reps::*;
use bytedata::{ByteData, ByteQueue, StringData, StringQueue};
use nom::error::{Error, ErrorKind};
use nom::*;
use std::fmt::Debug;
use std::ops::{Range, RangeFrom, RangeFull, RangeTo};

pub const SUITES: &[Suite] = &[
    Suite { prop: "C13", name: "ops_bytes", body: ops_bytes, leaks: true },
    Suite { prop: "C13", name: "ops_text", body: ops_text, leaks: true },
    Suite { prop: "C13", name: "parsers_bytes", body: parsers_bytes, leaks: true },
    Suite { prop: "C13", name: "parsers_text", body: parsers_text, leaks: true },
    Suite { prop: "C13", name: "numbers", body: numbers, leaks: true },
    Suite { prop: "C13", name: "grammar", body: grammar, leaks: true },
    Suite { prop: "C13", name: "storage", body: storage, leaks: true },
];

/// An outcome, stripped of the input type.
#[derive(PartialEq, Eq, Debug, Clone)]
enum R {
    Ok(Vec<u8>, String),
    Error(Vec<u8>, ErrorKind),
    Failure(Vec<u8>, ErrorKind),
    Incomplete(Needed),
    Panic,
}

pub trait Elem: Copy + PartialEq + AsChar + Debug + 'static {}
impl Elem for u8 {}
impl Elem for char {}

/// What every input offers.
pub trait In:
    Clone
    + PartialEq
    + InputIter<Item = Self::E>
    + InputLength
    + InputTake
    + InputTakeAtPosition<Item = Self::E>
    + Slice<Range<usize>>
    + Slice<RangeTo<usize>>
    + Slice<RangeFrom<usize>>
    + Slice<RangeFull>
    + Compare<&'static [u8]>
    + Compare<&'static str>
    + FindSubstring<&'static str>
    + FindToken<u8>
    + FindToken<char>
    + for<'x> FindToken<&'x u8>
{
    type E: Elem;
    fn content(&self) -> Vec<u8>;
    fn hex(&self, n: usize) -> String;
    fn hex_from(&self, n: usize, from: usize) -> String;
}
macro_rules! input {
    ($t:ty, $e:ty, $x:ident => $c:expr, $h:expr) => {
        impl In for $t {
            type E = $e;
            fn content(&self) -> Vec<u8> {
                let $x = self;
                $c
            }
            fn hex(&self, n: usize) -> String {
                let $x = self;
                ($h).to_hex(n)
            }
            fn hex_from(&self, n: usize, from: usize) -> String {
                let $x = self;
                ($h).to_hex_from(n, from)
            }
        }
    };
}
fn queue_content(q: &ByteQueue) -> Vec<u8> {
    let v: Vec<u8> = q.chunks().flat_map(|c| c.as_slice().to_vec()).collect();
    same(q, &v, "outcome");
    v
}
fn squeue_content(q: &StringQueue) -> Vec<u8> {
    let v: String = q.chunks().flat_map(|c| c.as_str().chars().collect::<Vec<char>>()).collect();
    sq_same(q, &v, "outcome");
    v.into_bytes()
}
input!(&'static [u8], u8, x => x.to_vec(), **x);
input!(&'static str, char, x => x.as_bytes().to_vec(), **x);
input!(ByteData<'static>, u8, x => x.as_slice().to_vec(), x);
input!(StringData<'static>, char, x => x.as_bytes().to_vec(), x);
input!(ByteQueue<'static>, u8, x => queue_content(x), x);
input!(StringQueue<'static>, char, x => squeue_content(x), x);

fn run<I: In, O>(f: impl FnOnce() -> IResult<I, O, Error<I>>, out: impl FnOnce(O) -> String) -> R {
    match attempt(f) {
        None => R::Panic,
        Some(Ok((r, o))) => R::Ok(r.content(), out(o)),
        Some(Err(Err::Error(e))) => R::Error(e.input.content(), e.code),
        Some(Err(Err::Failure(e))) => R::Failure(e.input.content(), e.code),
        Some(Err(Err::Incomplete(n))) => R::Incomplete(n),
    }
}
fn raw<I: In>(o: I) -> String {
    show(&o.content())
}
fn show(b: &[u8]) -> String {
    b.iter().map(|x| if x.is_ascii_graphic() { (*x as char).to_string() } else { format!("<{x:02x}>") }).collect()
}
fn dbg<O: Debug>(o: O) -> String {
    format!("{o:?}")
}

/// Everything the traits say about one input; named.
fn facts<I: In>(i: &I, elems: &[I::E], needles: &[&'static str], f: &mut dyn FnMut(&str, &dyn Debug)) {
    let n = i.content().len();
    f("input_len", &i.input_len());
    f("iter_indices", &i.iter_indices().collect::<Vec<_>>());
    f("iter_elements", &i.iter_elements().collect::<Vec<_>>());
    for k in 0..n + 2 {
        f("slice_index", &(k, i.slice_index(k)));
        f("take", &(k, attempt(|| i.take(k)).map(|x| x.content())));
        f("take_split", &(k, attempt(|| i.take_split(k)).map(|(x, y)| (x.content(), y.content()))));
        f("slice ..k", &(k, attempt(|| Slice::<RangeTo<usize>>::slice(i, ..k)).map(|x| x.content())));
        f("slice k..", &(k, attempt(|| Slice::<RangeFrom<usize>>::slice(i, k..)).map(|x| x.content())));
        for j in k..n + 2 {
            f("slice k..j", &(k, j, attempt(|| Slice::<Range<usize>>::slice(i, k..j)).map(|x| x.content())));
        }
        if k > 0 {
            f("to_hex", &(k, i.hex(k)));
            for from in [0, 1, 0x10, 0x1_0000] {
                f("to_hex_from", &(k, from, i.hex_from(k, from)));
            }
        }
    }
    f("slice ..", &Slice::<RangeFull>::slice(i, ..).content());
    for (m, e) in elems.iter().map(|e| (0, Some(*e))).chain(elems.iter().map(|e| (1, Some(*e)))).chain([(2, None), (3, None)]) {
        let p = |x: I::E| match m {
            0 => Some(x) == e,
            1 => Some(x) != e,
            2 => true,
            _ => false,
        };
        let w = (["until =", "until !=", "at once", "never"][m], e);
        f("position", &(w, i.position(p)));
        f("split_at_position", &(w, run(|| i.split_at_position(p), raw)));
        f("split_at_position1", &(w, run(|| i.split_at_position1(p, ErrorKind::Digit), raw)));
        f("split_at_position_complete", &(w, run(|| i.split_at_position_complete(p), raw)));
        f("split_at_position1_complete", &(w, run(|| i.split_at_position1_complete(p, ErrorKind::Alpha), raw)));
    }
    for &s in needles {
        f("compare text", &(s, Compare::<&'static str>::compare(i, s)));
        f("compare_no_case text", &(s, Compare::<&'static str>::compare_no_case(i, s)));
        f("compare bytes", &(s, Compare::<&'static [u8]>::compare(i, s.as_bytes())));
        f("compare_no_case bytes", &(s, Compare::<&'static [u8]>::compare_no_case(i, s.as_bytes())));
        f("find_substring", &(s, i.find_substring(s)));
    }
    for b in [b'a', b'A', b'B', b'1', b' ', 0xC3, 0xA9, 0x80, 0xF0] {
        f("find_token byte", &(b, FindToken::<u8>::find_token(i, b)));
        f("find_token &byte", &(b, FindToken::<&u8>::find_token(i, &b)));
    }
    for ch in ['a', 'A', 'B', '1', ' '] {
        f("find_token char", &(ch, FindToken::<char>::find_token(i, ch)));
    }
}

fn record<I: In>(i: &I, elems: &[I::E], needles: &[&'static str]) -> Vec<String> {
    let mut v = Vec::new();
    facts(i, elems, needles, &mut |k, x| v.push(format!("{k}: {x:?}")));
    v
}
fn judge<I: In>(i: &I, what: &str, elems: &[I::E], needles: &[&'static str], want: &[String]) -> u64 {
    let mut k = 0;
    let mut buf = String::new();
    facts(i, elems, needles, &mut |name, x| {
        use std::fmt::Write;
        buf.clear();
        let _ = write!(buf, "{name}: {x:?}");
        let w = want.get(k).map_or("", |s| s);
        if buf != w {
            fail(&format!("{what} {name}"), format!("{what} gives {buf}, the reference gives {w}"));
        }
        k += 1;
    });
    check!(k == want.len(), "count", "{k} facts, {} expected", want.len());
    k as u64
}

/// Content over an alphabet, and a chunking of it.
fn draw(c: &mut Ctx, abc: &[&str], max: usize) -> (&'static str, Vec<usize>) {
    let n = c.choose(max + 1);
    let mut s = String::new();
    let mut ends = vec![];
    for _ in 0..n {
        s.push_str(c.pick(abc));
        ends.push(s.len());
    }
    let mut cuts = vec![];
    let mut w = String::new();
    for (i, e) in ends.iter().enumerate() {
        if i + 1 < n && c.flag() {
            cuts.push(*e);
            w.push_str(&format!("{e} "));
        }
    }
    let s = stat_str(&s);
    c.note(|| format!("{s:?} cut at [{w}]"));
    (s, cuts)
}
fn draw_bytes(c: &mut Ctx, abc: &[u8], max: usize) -> (&'static [u8], Vec<usize>) {
    let n = c.choose(max + 1);
    let mut s = Vec::new();
    for _ in 0..n {
        s.push(c.pick(abc));
    }
    let mut cuts = vec![];
    for e in 1..n {
        if c.flag() {
            cuts.push(e);
        }
    }
    let s = stat(&s);
    c.note(|| format!("{} cut at {cuts:?}", show(s)));
    (s, cuts)
}
const MIX: &[Rep] = &[Rep::Static, Rep::Shared, Rep::Inline, Rep::ExtHeap];

fn pieces<'x>(s: &'x [u8], cuts: &[usize]) -> Vec<&'x [u8]> {
    let mut v = vec![];
    let mut a = 0;
    for e in cuts.iter().copied().chain([s.len()]) {
        v.push(&s[a..e]);
        a = e;
    }
    v
}
fn bq(s: &'static [u8], cuts: &[usize]) -> ByteQueue<'static> {
    if s.is_empty() {
        return ByteQueue::new();
    }
    pieces(s, cuts).into_iter().enumerate().map(|(i, p)| make(MIX[i % 4], p).unwrap_or_else(|| ByteData::from_static(p))).collect()
}
fn sq(s: &'static str, cuts: &[usize]) -> StringQueue<'static> {
    if s.is_empty() {
        return StringQueue::new();
    }
    pieces(s.as_bytes(), cuts).into_iter().enumerate().map(|(i, p)| make_str(MIX[i % 4], unsafe { core::str::from_utf8_unchecked(p) }).unwrap()).collect()
}

const NEEDLES: &[&str] = &["", "a", "A", "aa", "aB", "ab", "AB", "Ba", "1", "1a", "a1", " ", "é", "É", "aé", "éa", "ÉB", "aba", "aaa", "aaB", "aaBa", "BBBBBBB", "aaaaaaaa"];
const TNEEDLES: &[&str] = &["", "a", "A", "aB", "ab", "AB", "Ba", "é", "É", "aé", "éa", "ÉB", "éé", "😀", "a😀", "😀B", "i̇", "İ", "aİ", "éaB", "éAb", "aaBa", "BBBBBBB", "é😀é😀é"];

fn ops_bytes(c: &mut Ctx) {
    let abc: &[u8] = &[b'a', b'B', 0xC3, 0xA9];
    let (s, cuts) = draw_bytes(c, abc, c.q(5, 6));
    let els = [b'a', b'B', b'z', 0xC3];
    let want = record(&s, &els, NEEDLES);
    let mut k = 0;
    if cuts.is_empty() {
        k += judge(&ByteData::from_static(s), "byte data", &els, NEEDLES, &want);
        k += judge(&make(Rep::SharedMid, s).unwrap(), "byte data", &els, NEEDLES, &want);
        more_bytes(&ByteData::from_static(s), s);
    }
    let q = bq(s, &cuts);
    k += judge(&q, "byte queue", &els, NEEDLES, &want);
    more_queue(&q, s);
    c.bulk(k);
    c.step(hash_bytes(cuts.len() as u64, s));
}

fn ops_text(c: &mut Ctx) {
    let abc = &["a", "B", "é", "😀", "İ"];
    let (s, cuts) = draw(c, abc, c.q(4, 5));
    let els = ['a', 'B', 'é', 'z', '😀'];
    let want = record(&s, &els, TNEEDLES);
    let mut k = 0;
    if cuts.is_empty() {
        k += judge(&StringData::from_static(s), "text", &els, TNEEDLES, &want);
        k += judge(&make_str(Rep::SharedMid, s).unwrap(), "text", &els, TNEEDLES, &want);
        more_text(&StringData::from_static(s), s);
    }
    let q = sq(s, &cuts);
    k += judge(&q, "text queue", &els, TNEEDLES, &want);
    more_squeue(&q, s);
    c.bulk(k);
    c.step(hash_bytes(cuts.len() as u64, s.as_bytes()));
}

/// The implementations that take the crate's own types as arguments.
macro_rules! more {
    ($name:ident, $t:ty, $r:ty, cmp $($cmp:ident)?, text $($find:ident)?, chars $chars:expr) => {
        fn $name(i: &$t, r: $r) {
            for s in NEEDLES.iter().chain(TNEEDLES) {
                let b = ByteData::from_static(s.as_bytes());
                let t = StringData::from_static(s);
                let wb = (Compare::<&[u8]>::compare(&r, s.as_bytes()), Compare::<&[u8]>::compare_no_case(&r, s.as_bytes()));
                let ws = (Compare::<&str>::compare(&r, *s), Compare::<&str>::compare_no_case(&r, *s));
                check!(i.compare(&b) == wb.0 && i.compare(b.clone()) == wb.0 && i.compare_no_case(&b) == wb.1 && i.compare_no_case(b.clone()) == wb.1, "compare data", "{s:?}: {:?} {:?}, expected {wb:?}", i.compare(&b), i.compare_no_case(&b));
                let _ = (&t, &ws);
                $(check!(i.$cmp(&t) == ws.0 && i.$cmp(t.clone()) == ws.0 && i.compare_no_case(&t) == ws.1 && i.compare_no_case(t.clone()) == ws.1, "compare text data", "{s:?}: {:?} {:?}, expected {ws:?}", i.$cmp(&t), i.compare_no_case(&t));)?
                let wf = <&[u8] as FindSubstring<&str>>::find_substring(&AsRef::<[u8]>::as_ref(r), s);
                check!(i.find_substring(&b) == wf && i.find_substring(b.clone()) == wf && i.find_substring(s.as_bytes()) == wf && i.find_substring(*s) == wf, "find_substring data", "{s:?}: {:?}, expected {wf:?}", i.find_substring(&b));
                $(check!(i.$find(&t) == wf && i.$find(t.clone()) == wf, "find_substring text data", "{s:?}: {:?}, expected {wf:?}", i.$find(&t));)?
            }
            for ch in ['a', 'A', 'B', '1', 'é', 'É', '😀', 'İ', '\u{80}', '\u{161}', '\u{142}', '\u{1C3}'] {
                let got = (i.find_token(ch), i.find_token(&ch));
                let refs = FindToken::<char>::find_token(&r, ch);
                // for bytes the reference truncates the character to one byte; looking for its
                // encoded form is accepted just as well
                let other = if $chars { String::from_utf8_lossy(AsRef::<[u8]>::as_ref(r)).contains(ch) } else { refs };
                check!(got.0 == got.1 && (got.0 == refs || got.0 == other), "find_token char", "{ch:?}: {got:?}, expected {refs}");
            }
        }
    };
}
more!(more_bytes, ByteData<'static>, &'static [u8], cmp, text, chars true);
more!(more_queue, ByteQueue<'static>, &'static [u8], cmp compare, text, chars true);
more!(more_text, StringData<'static>, &'static str, cmp compare, text find_substring, chars false);
more!(more_squeue, StringQueue<'static>, &'static str, cmp compare, text, chars false);

/// nom's own parsers, streaming and complete.
fn parsers<I: In>(i: &I, f: &mut dyn FnMut(&str, R)) {
    use nom::bytes::{complete as bc, streaming as bs};
    use nom::character::{complete as cc, streaming as cs};
    use nom::combinator as cb;
    macro_rules! p {
        ($n:expr, $p:expr, $o:expr) => {
            f($n, run(|| ($p)(i.clone()), $o))
        };
    }
    macro_rules! both {
        ($n:expr, $m:ident, $c:ident, $e:expr, $o:expr) => {{
            {
                use bc as $m;
                #[allow(unused_imports)]
                use cc as $c;
                p!(concat!($n, " complete"), $e, $o);
            }
            {
                use bs as $m;
                #[allow(unused_imports)]
                use cs as $c;
                p!(concat!($n, " streaming"), $e, $o);
            }
        }};
    }
    both!("tag a", m, c, m::tag("a"), raw);
    both!("tag aB", m, c, m::tag("aB"), raw);
    both!("tag long", m, c, m::tag("aBa1 aBa1 "), raw);
    both!("tag empty", m, c, m::tag(""), raw);
    both!("tag_no_case Ab", m, c, m::tag_no_case("Ab"), raw);
    for k in 0..7usize {
        both!("take", m, c, m::take(k), raw);
    }
    both!("take_while alpha", m, c, m::take_while(|x: I::E| x.is_alpha()), raw);
    both!("take_while1 alpha", m, c, m::take_while1(|x: I::E| x.is_alpha()), raw);
    both!("take_till digit", m, c, m::take_till(|x: I::E| x.is_dec_digit()), raw);
    both!("take_till1 digit", m, c, m::take_till1(|x: I::E| x.is_dec_digit()), raw);
    for (a, b) in [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2), (2, 4), (3, 9)] {
        both!("take_while_m_n", m, c, m::take_while_m_n(a, b, |x: I::E| x.is_alpha()), raw);
    }
    both!("take_until a", m, c, m::take_until("a"), raw);
    both!("take_until1 a", m, c, m::take_until1("a"), raw);
    both!("take_until 1B", m, c, m::take_until("1B"), raw);
    both!("take_until nl", m, c, m::take_until("\n"), raw);
    both!("is_a", m, c, m::is_a(Set("aB")), raw);
    both!("is_not", m, c, m::is_not(Set("aB")), raw);
    both!("alpha0", m, c, c::alpha0, raw);
    both!("alpha1", m, c, c::alpha1, raw);
    both!("digit0", m, c, c::digit0, raw);
    both!("digit1", m, c, c::digit1, raw);
    both!("hex_digit0", m, c, c::hex_digit0, raw);
    both!("hex_digit1", m, c, c::hex_digit1, raw);
    both!("oct_digit0", m, c, c::oct_digit0, raw);
    both!("oct_digit1", m, c, c::oct_digit1, raw);
    both!("alphanumeric0", m, c, c::alphanumeric0, raw);
    both!("alphanumeric1", m, c, c::alphanumeric1, raw);
    both!("space0", m, c, c::space0, raw);
    both!("space1", m, c, c::space1, raw);
    both!("multispace0", m, c, c::multispace0, raw);
    both!("multispace1", m, c, c::multispace1, raw);
    both!("char", m, c, c::char('a'), dbg);
    both!("one_of", m, c, c::one_of(Set("a1")), dbg);
    both!("none_of", m, c, c::none_of(Set("a1")), dbg);
    both!("satisfy", m, c, c::satisfy(|x| x != 'a'), dbg);
    both!("anychar", m, c, c::anychar, dbg);
    both!("newline", m, c, c::newline, dbg);
    both!("crlf", m, c, c::crlf, raw);
    both!("line_ending", m, c, c::line_ending, raw);
    both!("not_line_ending", m, c, c::not_line_ending, raw);
    both!("u16", m, c, c::u16, dbg);
    p!("eof", cb::eof, raw);
    p!("rest", cb::rest, raw);
    p!("rest_len", cb::rest_len, dbg);
    p!("all_consuming", cb::all_consuming(cc::alpha0), raw);
    p!("peek", cb::peek(cc::alpha1), raw);
    p!("not", cb::not(cc::alpha1), dbg);
    p!("opt", cb::opt(cc::alpha1), |o: Option<I>| format!("{:?}", o.map(raw)));
    p!("opt streaming", cb::opt(cs::alpha1), |o: Option<I>| format!("{:?}", o.map(raw)));
    p!("cut", cb::cut(cc::digit1), raw);
    p!("verify", cb::verify(bc::take(1usize), |x: &I| x.content() == b"a"), raw);
    let many = |v: Vec<I>| format!("{:?}", v.into_iter().map(raw).collect::<Vec<_>>());
    p!("many0", multi::many0(branch::alt((cc::digit1, bc::tag("a")))), many);
    p!("many1", multi::many1(branch::alt((cc::digit1, bc::tag("a")))), many);
    p!("many_till", multi::many_till(bc::take(1usize), bc::tag("B")), |(v, e): (Vec<I>, I)| format!("{:?} {}", v.into_iter().map(raw).collect::<Vec<_>>(), raw(e)));
    p!("separated_list0", multi::separated_list0(bc::tag(" "), cc::alpha1), many);
    p!("separated_list1", multi::separated_list1(bc::tag(" "), cc::alpha1), many);
    p!("count", multi::count(bc::take(1usize), 3), many);
    p!("delimited", sequence::delimited(bc::tag("a"), cc::digit0, bc::tag("B")), raw);
    p!("alt streaming", branch::alt((bs::tag("aB"), bs::tag("a1"), cs::digit1)), raw);
    p!("fold_many0", multi::fold_many0(cc::alphanumeric1, String::new, |mut a: String, x: I| {
        a.push_str(&raw(x));
        a
    }), |s| s);
}

/// A token set the reference and the crate's inputs are all asked with.
#[derive(Clone, Copy)]
struct Set(&'static str);
impl<E: Elem> FindToken<E> for Set {
    fn find_token(&self, t: E) -> bool {
        self.0.contains(t.as_char())
    }
}

fn record_parsers<I: In>(i: &I) -> Vec<(String, R)> {
    let mut v = vec![];
    parsers(i, &mut |n, r| v.push((n.to_string(), r)));
    v
}
fn judge_parsers<I: In>(i: &I, what: &str, want: &[(String, R)]) -> u64 {
    let mut k = 0;
    parsers(i, &mut |n, r| {
        if k >= want.len() || want[k].0 != n || want[k].1 != r {
            fail(&format!("{what} {n}"), format!("{what}, {n}: {r:?}, expected {:?}", want.get(k)));
        }
        k += 1;
    });
    k as u64
}

fn parsers_bytes(c: &mut Ctx) {
    let (s, cuts) = draw_bytes(c, &[b'a', b'B', b'1', b' ', b'\r', b'\n', 0xC3], c.q(5, 6));
    let want = record_parsers(&s);
    let mut k = 0;
    if cuts.is_empty() {
        k += judge_parsers(&make(Rep::Shared, s).unwrap(), "byte data", &want);
    }
    k += judge_parsers(&bq(s, &cuts), "byte queue", &want);
    c.bulk(k);
    c.step(hash_bytes(cuts.len() as u64, s));
}
fn parsers_text(c: &mut Ctx) {
    let (s, cuts) = draw(c, &["a", "B", "1", " ", "\r", "\n", "é"], c.q(5, 6));
    let want = record_parsers(&s);
    let mut k = 0;
    if cuts.is_empty() {
        k += judge_parsers(&make_str(Rep::Shared, s).unwrap(), "text", &want);
    }
    k += judge_parsers(&sq(s, &cuts), "text queue", &want);
    c.bulk(k);
    c.step(hash_bytes(cuts.len() as u64, s.as_bytes()));
}

fn number<I: In<E = u8>>(i: &I, f: &mut dyn FnMut(&str, R)) {
    use nom::number::{complete as nc, streaming as ns, Endianness};
    macro_rules! n {
        ($($x:ident)*) => {$(
            f(concat!(stringify!($x), " complete"), run(|| nc::$x(i.clone()), dbg));
            f(concat!(stringify!($x), " streaming"), run(|| ns::$x(i.clone()), dbg));
        )*};
    }
    n!(be_u8 be_u16 be_u24 be_u32 be_u64 be_u128 be_i8 be_i16 be_i24 be_i32 be_i64 be_i128 le_u8 le_u16 le_u24 le_u32 le_u64 le_u128 le_i8 le_i16 le_i24 le_i32 le_i64 le_i128 be_f32 be_f64 le_f32 le_f64 u8 i8);
    f("u32 native", run(|| nc::u32(Endianness::Native)(i.clone()), dbg));
    f("length_data", run(|| multi::length_data(nc::be_u8)(i.clone()), raw));
    f("length_data streaming", run(|| multi::length_data(ns::be_u8)(i.clone()), raw));
    f("length_count", run(|| multi::length_count(nc::be_u8, nc::be_u16)(i.clone()), dbg));
    f("many u16", run(|| multi::many0(nc::be_u16)(i.clone()), dbg));
}
fn numbers(c: &mut Ctx) {
    let n = c.choose(c.q(19, 34));
    let first = c.pick(&[0u8, 1, 3, 17, 200]);
    let mut v: Vec<u8> = (0..n).map(|i| (i * 37 + 129) as u8).collect();
    if let Some(x) = v.first_mut() {
        *x = first;
    }
    let s = stat(&v);
    // up to three cuts
    let mut cuts = vec![];
    let mut a = 1;
    for _ in 0..3 {
        if a >= n {
            break;
        }
        let e = a + c.choose(n - a + 1);
        if e >= n {
            break;
        }
        cuts.push(e);
        a = e + 1;
    }
    c.note(|| format!("{n} bytes starting with {first} cut at {cuts:?}"));
    let mut want = vec![];
    number(&s, &mut |x, r| want.push((x.to_string(), r)));
    let q = bq(s, &cuts);
    let mut k = 0;
    number(&q, &mut |x, r| {
        check!(want[k] == (x.to_string(), r.clone()), &format!("byte queue {x}"), "byte queue, {x}: {r:?}, expected {:?}", want[k]);
        k += 1;
    });
    if cuts.is_empty() {
        let mut k = 0;
        number(&make(Rep::Shared, s).unwrap(), &mut |x, r| {
            check!(want[k] == (x.to_string(), r.clone()), &format!("byte data {x}"), "byte data, {x}: {r:?}, expected {:?}", want[k]);
            k += 1;
        });
    }
    c.bulk(k as u64);
    c.step(mix(n as u64, cuts.len() as u64));
}

/// A small language: key=value pairs with quoted values, blanks and commas.
fn pairs<I: In>(i: I) -> IResult<I, Vec<(String, String)>, Error<I>> {
    use nom::bytes::complete::*;
    use nom::character::complete::*;
    let value = branch::alt((sequence::delimited(char('"'), take_until("\""), combinator::cut(char('"'))), take_while1(|x: I::E| x.is_alphanum())));
    let pair = sequence::separated_pair(alpha1, sequence::tuple((space0, tag("="), space0)), value);
    let p = combinator::map(pair, |(a, b): (I, I)| (raw(a), raw(b)));
    combinator::all_consuming(multi::separated_list0(tag(","), p))(i)
}
fn grammar(c: &mut Ctx) {
    let (s, cuts) = draw(c, &["a", "=", "\"", ",", " ", "é"], c.q(6, 7));
    let want = run(|| pairs(s), dbg);
    let got = run(|| pairs(sq(s, &cuts)), dbg);
    check!(got == want, "text queue grammar", "{got:?}, expected {want:?}");
    let wantb = run(|| pairs(s.as_bytes()), dbg);
    let got = run(|| pairs(bq(s.as_bytes(), &cuts)), dbg);
    check!(got == wantb, "byte queue grammar", "{got:?}, expected {wantb:?}");
    if cuts.is_empty() {
        let got = run(|| pairs(make_str(Rep::Shared, s).unwrap()), dbg);
        check!(got == want, "text grammar", "{got:?}, expected {want:?}");
        let got = run(|| pairs(make(Rep::Shared, s.as_bytes()).unwrap()), dbg);
        check!(got == wantb, "byte data grammar", "{got:?}, expected {wantb:?}");
    }
    c.bulk(1);
    c.step(hash_bytes(cuts.len() as u64, s.as_bytes()));
}

/// Every storage kind, contiguous, around the inline limit.
fn storage(c: &mut Ctx) {
    const TEXT: &str = "aB1 aé\r\n😀Ba1İ z9é aB1";
    let rep = c.pick(REPS);
    let ends: Vec<usize> = (0..=TEXT.len()).filter(|i| TEXT.is_char_boundary(*i)).collect();
    let n = c.pick(&ends);
    let s = stat_str(&TEXT[..n]);
    let b = s.as_bytes();
    let Some(d) = make(rep, b) else { c.skip() };
    let Some(t) = make_str(rep, s) else { c.skip() };
    c.note(|| format!("{s:?} as {rep:?}"));
    let mut k = 0;
    let (be, te) = ([b'a', b'B', b'z', 0xC3], ['a', 'B', 'é', '😀']);
    k += judge(&d, "byte data", &be, NEEDLES, &record(&b, &be, NEEDLES));
    k += judge(&t, "text", &te, TNEEDLES, &record(&s, &te, TNEEDLES));
    k += judge_parsers(&d, "byte data", &record_parsers(&b));
    k += judge_parsers(&t, "text", &record_parsers(&s));
    check!(AsBytes::as_bytes(&d) == b && AsBytes::as_bytes(&t) == b, "as_bytes", "{:?} {:?}", AsBytes::as_bytes(&d), AsBytes::as_bytes(&t));
    more_bytes(&d, b);
    more_text(&t, s);
    let q: ByteQueue = [d].into_iter().collect();
    k += judge(&q, "byte queue", &be, NEEDLES, &record(&b, &be, NEEDLES));
    c.bulk(k);
    c.step(mix(n as u64, rep as u64));
}
