//! C14: serialised values read back unchanged.
use crate::check;
use crate::explore::*;
use crate::reps::*;
use bincode::Options;
use bytedata::{ByteData, SharedBytes, StringData};
use serde::de::value::*;
use serde::de::{Deserializer, IntoDeserializer, Visitor};
use serde::{Deserialize, Serialize, Serializer};

pub const SUITES: &[Suite] = &[
    Suite { prop: "C14", name: "byte_formats", body: byte_formats, leaks: true },
    Suite { prop: "C14", name: "text_formats", body: text_formats, leaks: true },
    Suite { prop: "C14", name: "short_bytes", body: short_bytes, leaks: true },
    Suite { prop: "C14", name: "short_text", body: short_text, leaks: true },
    Suite { prop: "C14", name: "visitors", body: visitors, leaks: true },
    Suite { prop: "C14", name: "mutations", body: mutations, leaks: true },
];

/// The plain byte buffer that documents are compared with.
#[derive(PartialEq, Debug, Clone)]
struct Raw(Vec<u8>);
impl Serialize for Raw {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de> Deserialize<'de> for Raw {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Raw;
            fn expecting(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<Raw, E> {
                Ok(Raw(v.to_vec()))
            }
            fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Raw, E> {
                Ok(Raw(v))
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut s: A) -> Result<Raw, A::Error> {
                let mut v = vec![];
                while let Some(b) = s.next_element()? {
                    v.push(b);
                }
                Ok(Raw(v))
            }
        }
        d.deserialize_byte_buf(V)
    }
}

#[derive(Serialize, Deserialize)]
struct Doc<T> {
    pre: u8,
    v: T,
    post: u16,
}
#[derive(Serialize)]
struct DocRef<'x, T> {
    pre: u8,
    v: &'x T,
    post: u16,
}
#[derive(Deserialize)]
struct BorrowB<'a> {
    pre: u8,
    #[serde(borrow)]
    v: ByteData<'a>,
    post: u16,
}
#[derive(Deserialize)]
struct BorrowT<'a> {
    pre: u8,
    #[serde(borrow)]
    v: StringData<'a>,
    post: u16,
}
#[derive(Deserialize)]
struct StaticB {
    pre: u8,
    #[serde(deserialize_with = "ByteData::deserialize_static")]
    v: ByteData<'static>,
    post: u16,
}
#[derive(Deserialize)]
struct StaticT {
    pre: u8,
    #[serde(deserialize_with = "StringData::deserialize_static")]
    v: StringData<'static>,
    post: u16,
}
#[derive(Deserialize)]
struct OptB {
    pre: u8,
    #[serde(deserialize_with = "ByteData::deserialize_static_opt")]
    v: Option<ByteData<'static>>,
    post: u16,
}
#[derive(Deserialize)]
struct OptT {
    pre: u8,
    #[serde(deserialize_with = "StringData::deserialize_static_opt")]
    v: Option<StringData<'static>>,
    post: u16,
}
#[derive(Deserialize)]
struct VecB {
    pre: u8,
    #[serde(deserialize_with = "ByteData::deserialize_static_vec")]
    v: Vec<ByteData<'static>>,
    post: u16,
}
#[derive(Deserialize)]
struct VecT {
    pre: u8,
    #[serde(deserialize_with = "StringData::deserialize_static_vec")]
    v: Vec<StringData<'static>>,
    post: u16,
}

#[derive(Deserialize)]
struct RefOptB {
    pre: u8,
    #[serde(deserialize_with = "Option::deserialize")]
    v: Option<Raw>,
    post: u16,
}
#[derive(Deserialize)]
struct RefOptT {
    pre: u8,
    #[serde(deserialize_with = "Option::deserialize")]
    v: Option<String>,
    post: u16,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fmt {
    Bincode,
    BincodeFix,
    Cbor,
    Json,
}
const FMTS: &[Fmt] = &[Fmt::Bincode, Fmt::BincodeFix, Fmt::Cbor, Fmt::Json];

fn write<T: Serialize>(f: Fmt, t: &T) -> Vec<u8> {
    match f {
        Fmt::Bincode => bincode::DefaultOptions::new().with_limit(1 << 20).serialize(t).unwrap(),
        Fmt::BincodeFix => bincode::serialize(t).unwrap(),
        Fmt::Cbor => {
            let mut v = vec![];
            ciborium::into_writer(t, &mut v).unwrap();
            v
        }
        Fmt::Json => serde_json::to_vec(t).unwrap(),
    }
}
/// Gives its bytes one at a time.
struct Drip<'x>(&'x [u8]);
impl std::io::Read for Drip<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() || self.0.is_empty() {
            return Ok(0);
        }
        b[0] = self.0[0];
        self.0 = &self.0[1..];
        Ok(1)
    }
}
/// From a slice that may be borrowed from.
fn borrowed<'de, T: Deserialize<'de>>(f: Fmt, b: &'de [u8]) -> Result<T, String> {
    match f {
        Fmt::Bincode => bincode::DefaultOptions::new().with_limit(1 << 20).deserialize(b).map_err(|e| e.to_string()),
        Fmt::BincodeFix => bincode::deserialize(b).map_err(|e| e.to_string()),
        Fmt::Cbor => Err("no borrowing".into()),
        Fmt::Json => serde_json::from_slice(b).map_err(|e| e.to_string()),
    }
}
/// From something that is gone afterwards. Mode 0: a slice; 1: a stream, byte by byte; 2: a tree.
fn owned<T: serde::de::DeserializeOwned>(f: Fmt, mode: usize, b: &[u8]) -> Option<Result<T, String>> {
    Some(match (f, mode) {
        (Fmt::Bincode, 0) => bincode::DefaultOptions::new().with_limit(1 << 20).deserialize(b).map_err(|e| e.to_string()),
        (Fmt::Bincode, 1) => bincode::DefaultOptions::new().with_limit(1 << 20).deserialize_from(Drip(b)).map_err(|e| e.to_string()),
        (Fmt::BincodeFix, 0) => bincode::deserialize(b).map_err(|e| e.to_string()),
        (Fmt::BincodeFix, 1) => bincode::DefaultOptions::new().with_fixint_encoding().with_limit(1 << 20).allow_trailing_bytes().deserialize_from(Drip(b)).map_err(|e| e.to_string()),
        (Fmt::Cbor, 0) => ciborium::from_reader(b).map_err(|e| e.to_string()),
        (Fmt::Cbor, 1) => ciborium::from_reader(Drip(b)).map_err(|_| "error".into()),
        (Fmt::Cbor, _) => match ciborium::from_reader::<ciborium::Value, _>(b) {
            Ok(v) => v.deserialized().map_err(|e| e.to_string()),
            Err(e) => Err(e.to_string()),
        },
        (Fmt::Json, 0) => serde_json::from_slice(b).map_err(|e| e.to_string()),
        (Fmt::Json, 1) => serde_json::from_reader(Drip(b)).map_err(|e| e.to_string()),
        (Fmt::Json, _) => match serde_json::from_slice::<serde_json::Value>(b) {
            Ok(v) => serde_json::from_value(v).map_err(|e| e.to_string()),
            Err(e) => Err(e.to_string()),
        },
        _ => return None,
    })
}

macro_rules! expect {
    ($r:expr, $want:expr, $what:expr, |$d:ident| $g:expr) => {
        match $r {
            Err(e) => fail($what, format!("does not read back: {e}")),
            Ok($d) => {
                check!($d.pre == 7 && $d.post == 0x1234, $what, "the neighbouring fields are {} and {:#x}", $d.pre, $d.post);
                check!($g == $want, $what, "reads back as {:?}, expected {:?}", $g, $want);
            }
        }
    };
}

fn doc<T: Serialize>(t: &T) -> DocRef<'_, T> {
    DocRef { pre: 7, v: t, post: 0x1234 }
}

fn back_bytes(f: Fmt, d: &[u8], m: &[u8]) {
    let w = |x: &[u8]| x.to_vec();
    if f != Fmt::Cbor {
        expect!(borrowed::<BorrowB>(f, d), m.to_vec(), "borrowed", |x| w(x.v.as_slice()));
    }
    for mode in 0..3 {
        if let Some(r) = owned::<StaticB>(f, mode, d) {
            expect!(r, m.to_vec(), "static", |x| w(x.v.as_slice()));
        }
        if let Some(r) = owned::<Doc<SharedBytes>>(f, mode, d) {
            expect!(r, m.to_vec(), "shared", |x| w(x.v.as_slice()));
        }
        if let Some(r) = owned::<Doc<OwnB>>(f, mode, d) {
            expect!(r, m.to_vec(), "data from stream", |x| x.v.0.clone());
        }
    }
}
/// Borrowed deserialisation, but of input that cannot be borrowed from.
struct OwnB(Vec<u8>);
impl<'de> Deserialize<'de> for OwnB {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let x = ByteData::<'de>::deserialize(d)?;
        Ok(OwnB(x.as_slice().to_vec()))
    }
}
struct OwnT(String);
impl<'de> Deserialize<'de> for OwnT {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let x = StringData::<'de>::deserialize(d)?;
        check!(core::str::from_utf8(x.as_bytes()).is_ok(), "utf8", "text {:02x?}", x.as_bytes());
        Ok(OwnT(x.as_str().to_string()))
    }
}
fn back_text(f: Fmt, d: &[u8], m: &str) {
    let w = |x: &StringData| String::from_utf8(x.as_bytes().to_vec()).unwrap_or_else(|_| "invalid".into());
    if f != Fmt::Cbor {
        expect!(borrowed::<BorrowT>(f, d), m, "borrowed", |x| w(&x.v));
    }
    for mode in 0..3 {
        if let Some(r) = owned::<StaticT>(f, mode, d) {
            expect!(r, m, "static", |x| w(&x.v));
        }
        if let Some(r) = owned::<Doc<OwnT>>(f, mode, d) {
            expect!(r, m, "text from stream", |x| x.v.0.as_str());
        }
    }
}

fn byte_formats(c: &mut Ctx) {
    let n = c.pick(&[0usize, 1, 2, 13, 14, 15, 16, 23, 24, 40, 255, 256, 1000, 4095, 4096, 4097, 10_000]);
    let rep = c.pick(REPS);
    let f = c.pick(FMTS);
    let m = pattern(n);
    let Some(d) = make(rep, m) else { c.skip() };
    c.note(|| format!("{n} bytes as {rep:?}, {f:?}"));
    let raw = Raw(m.to_vec());
    let want = write(f, &doc(&raw));
    let got = write(f, &doc(&d));
    check!(got == want, "document", "{} bytes, {} expected", got.len(), want.len());
    back_bytes(f, &got, m);
    let s: SharedBytes = shared(Rep::SharedMid, m).unwrap();
    check!(write(f, &doc(&s)) == want, "document", "of shared bytes");
    // optional and repeated
    let some = write(f, &doc(&Some(d.clone())));
    check!(some == write(f, &doc(&Some(raw.clone()))), "document", "of an optional value");
    let k = c.choose(4);
    let many: Vec<_> = (0..k).map(|_| d.clone()).collect();
    let manyd = write(f, &doc(&many));
    check!(manyd == write(f, &doc(&vec![raw.clone(); k])), "document", "of a list");
    let none = write(f, &doc(&None::<ByteData>));
    drop((d, many));
    for mode in 0..3 {
        if let Some(r) = owned::<OptB>(f, mode, &some) {
            expect!(r, Some(m.to_vec()), "optional", |x| x.v.as_ref().map(|x| x.as_slice().to_vec()));
        }
        if let Some(r) = owned::<OptB>(f, mode, &none) {
            expect!(r, None::<Vec<u8>>, "optional", |x| x.v.as_ref().map(|x| x.as_slice().to_vec()));
        }
        if let Some(r) = owned::<VecB>(f, mode, &manyd) {
            expect!(r, vec![m.to_vec(); k], "list", |x| x.v.iter().map(|x| x.as_slice().to_vec()).collect::<Vec<_>>());
        }
    }
    c.bulk(8);
    c.step(mix(n as u64, rep as u64 * 8 + f as u64));
}

fn text_formats(c: &mut Ctx) {
    const TEXT: &str = "a\"b\\c\u{0}\n\u{7f}é\u{2028}😀/x<ä>";
    let n = c.choose(24);
    let rep = c.pick(REPS);
    let f = c.pick(FMTS);
    let mut t = String::new();
    if n < 20 {
        t.extend(TEXT.chars().take(n));
    } else {
        let k = [13, 255, 4096, 5000][n - 20];
        while t.len() < k {
            t.push(if n % 2 == 0 { 'x' } else { 'é' });
        }
    }
    let m = stat_str(&t);
    let Some(d) = make_str(rep, m) else { c.skip() };
    c.note(|| format!("{} bytes of text as {rep:?}, {f:?}", m.len()));
    let want = write(f, &doc(&m));
    let got = write(f, &doc(&d));
    check!(got == want, "document", "{} bytes, {} expected", got.len(), want.len());
    back_text(f, &got, m);
    let some = write(f, &doc(&Some(d.clone())));
    check!(some == write(f, &doc(&Some(m))), "document", "of an optional value");
    let k = c.choose(4);
    let many: Vec<_> = (0..k).map(|_| d.clone()).collect();
    let manyd = write(f, &doc(&many));
    check!(manyd == write(f, &doc(&vec![m; k])), "document", "of a list");
    let none = write(f, &doc(&None::<StringData>));
    drop((d, many));
    for mode in 0..3 {
        if let Some(r) = owned::<OptT>(f, mode, &some) {
            expect!(r, Some(m.to_string()), "optional", |x| x.v.as_ref().map(|x| x.as_str().to_string()));
        }
        if let Some(r) = owned::<OptT>(f, mode, &none) {
            expect!(r, None::<String>, "optional", |x| x.v.as_ref().map(|x| x.as_str().to_string()));
        }
        if let Some(r) = owned::<VecT>(f, mode, &manyd) {
            expect!(r, vec![m.to_string(); k], "list", |x| x.v.iter().map(|x| x.as_str().to_string()).collect::<Vec<_>>());
        }
    }
    c.bulk(8);
    c.step(mix(m.len() as u64, rep as u64 * 8 + f as u64));
}

/// Every byte string of length one and two (and longer over an alphabet).
fn short_bytes(c: &mut Ctx) {
    let n = c.choose(c.q(7, 8));
    let mut v = vec![];
    for _ in 0..n {
        v.push(if n <= 2 { c.choose(256) as u8 } else { c.pick(&[0, b'a', 0x7F, 0x80, 0xFF]) });
    }
    c.note(|| format!("{v:02x?}"));
    let d = ByteData::from_borrowed(&v);
    for f in FMTS {
        let got = write(*f, &doc(&d));
        check!(got == write(*f, &doc(&Raw(v.clone()))), "document", "{f:?}: {got:02x?}");
        back_bytes(*f, &got, &v);
        // and the value as a whole document
        let bare = write(*f, &d);
        check!(bare == write(*f, &Raw(v.clone())), "document", "{f:?}: {bare:02x?}");
        c.bulk(2);
    }
    c.step(hash_bytes(1, &v));
}
fn short_text(c: &mut Ctx) {
    let n = c.choose(c.q(6, 7));
    let mut v = String::new();
    for _ in 0..n {
        v.push_str(c.pick(&["a", "\"", "\\", "\n", "\u{0}", "é", "😀", "/"]));
    }
    c.note(|| format!("{v:?}"));
    let d = StringData::from_borrowed(&v);
    for f in FMTS {
        let got = write(*f, &doc(&d));
        check!(got == write(*f, &doc(&v)), "document", "{f:?}: {got:02x?}");
        back_text(*f, &got, &v);
        c.bulk(1);
    }
    c.step(hash_bytes(1, v.as_bytes()));
}

/// A deserializer that offers its value in one chosen form, whatever is asked for.
#[derive(Clone, Copy, Debug)]
enum Form {
    Bytes,
    BorrowedBytes,
    ByteBuf,
    Str,
    BorrowedStr,
    String,
    Seq,
    Unit,
    None,
    SomeBytes,
    SomeBuf,
    SomeBorrowed,
    SomeStr,
    SomeString,
    SomeBorrowedStr,
    Bool,
    I64,
    U64,
    F64,
    Char,
    Map,
    Newtype,
    Enum,
    SeqOfBytes,
    SeqOfStr,
    I8,
    I16,
    I32,
    I128,
    U8,
    U16,
    U32,
    U128,
    F32,
}
const FORMS: &[Form] = {
    use Form::*;
    &[
        Bytes, BorrowedBytes, ByteBuf, Str, BorrowedStr, String, Seq, Unit, None, SomeBytes, SomeBuf, SomeBorrowed, SomeStr, SomeString, SomeBorrowedStr, Bool, I64, U64, F64, Char, Map, Newtype, Enum, SeqOfBytes,
        SeqOfStr, I8, I16, I32, I128, U8, U16, U32, U128, F32,
    ]
};
#[derive(Clone, Copy)]
struct D<'de>(Form, &'de [u8]);
type E = serde::de::value::Error;
impl<'de> D<'de> {
    fn text(self) -> Result<&'de str, E> {
        core::str::from_utf8(self.1).map_err(|_| serde::de::Error::custom("not text"))
    }
}
impl<'de> IntoDeserializer<'de, E> for D<'de> {
    type Deserializer = Self;
    fn into_deserializer(self) -> Self {
        self
    }
}
impl<'de> Deserializer<'de> for D<'de> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let tmp = self.1.to_vec();
        match self.0 {
            Form::Bytes => v.visit_bytes(&tmp),
            Form::BorrowedBytes => v.visit_borrowed_bytes(self.1),
            Form::ByteBuf => v.visit_byte_buf(tmp),
            Form::Str => v.visit_str(&self.text()?.to_string()),
            Form::BorrowedStr => v.visit_borrowed_str(self.text()?),
            Form::String => v.visit_string(self.text()?.to_string()),
            Form::Seq => v.visit_seq(SeqDeserializer::new(self.1.iter().copied())),
            Form::Unit => v.visit_unit(),
            Form::None => v.visit_none(),
            Form::SomeBytes => v.visit_some(D(Form::Bytes, self.1)),
            Form::SomeBuf => v.visit_some(D(Form::ByteBuf, self.1)),
            Form::SomeBorrowed => v.visit_some(D(Form::BorrowedBytes, self.1)),
            Form::SomeStr => v.visit_some(D(Form::Str, self.1)),
            Form::SomeString => v.visit_some(D(Form::String, self.1)),
            Form::SomeBorrowedStr => v.visit_some(D(Form::BorrowedStr, self.1)),
            Form::Bool => v.visit_bool(true),
            Form::I64 => v.visit_i64(-5),
            Form::U64 => v.visit_u64(5),
            Form::F64 => v.visit_f64(0.5),
            Form::I8 => v.visit_i8(-5),
            Form::I16 => v.visit_i16(-5),
            Form::I32 => v.visit_i32(-5),
            Form::I128 => v.visit_i128(-5),
            Form::U8 => v.visit_u8(5),
            Form::U16 => v.visit_u16(5),
            Form::U32 => v.visit_u32(5),
            Form::U128 => v.visit_u128(5),
            Form::F32 => v.visit_f32(0.5),
            Form::Char => v.visit_char('x'),
            Form::Map => v.visit_map(MapDeserializer::new([(1u8, 2u8)].into_iter())),
            Form::Newtype => v.visit_newtype_struct(D(Form::Bytes, self.1)),
            Form::Enum => v.visit_enum(StrDeserializer::new("x")),
            Form::SeqOfBytes => v.visit_seq(SeqDeserializer::new([D(Form::Bytes, self.1), D(Form::ByteBuf, self.1), D(Form::BorrowedBytes, self.1)].into_iter())),
            Form::SeqOfStr => v.visit_seq(SeqDeserializer::new([D(Form::Str, self.1), D(Form::String, self.1), D(Form::BorrowedStr, self.1)].into_iter())),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
/// Each visitor method with every kind of value it may be handed.
fn visitors(c: &mut Ctx) {
    let n = c.pick(&[0usize, 1, 13, 14, 15, 16, 40, 300, 5000]);
    let kind = c.choose(4);
    let m: &'static [u8] = match kind {
        0 => pattern(n),
        1 => stat("a".repeat(n).as_bytes()),
        2 => stat(&"é".repeat(n / 2).into_bytes()),
        _ => {
            // not text
            let mut v = vec![b'x'; n];
            if let Some(x) = v.last_mut() {
                *x = 0xC3;
            }
            stat(&v)
        }
    };
    let form = c.pick(FORMS);
    let d = D(form, m);
    c.note(|| format!("{n} bytes of kind {kind} offered as {form:?}"));
    use Form::*;
    let is_text = core::str::from_utf8(m).ok();
    let byteish = matches!(form, Bytes | BorrowedBytes | ByteBuf | Seq);
    let textish = matches!(form, Str | BorrowedStr | String) && is_text.is_some();
    // Ok: the value; Err: refused
    type B = Option<Vec<u8>>;
    let jb = |what: &str, r: Option<Result<Vec<u8>, E>>, want: B, free: bool| match r {
        Option::None => fail(what, format!("{form:?} panics")),
        Some(Ok(v)) => check!(free && v == m || Some(&v) == want.as_ref(), what, "{form:?} gives {v:02x?}, expected {want:02x?}"),
        Some(Err(e)) => check!(free || want.is_none(), what, "{form:?} is refused: {e}"),
    };
    let want: B = if byteish { Some(m.to_vec()) } else { Option::None };
    // (text for bytes, and wrapped values, may be accepted or refused, but never altered)
    let free = matches!(form, Str | BorrowedStr | String | Newtype | SomeBytes | SomeBuf | SomeBorrowed | SomeStr | SomeString | SomeBorrowedStr);
    jb("data", attempt(|| ByteData::deserialize(d).map(|x| x.as_slice().to_vec())), want.clone(), free);
    jb("static data", attempt(|| ByteData::deserialize_static(d).map(|x| x.as_slice().to_vec())), want.clone(), free);
    jb("shared", attempt(|| SharedBytes::deserialize(d).map(|x| x.as_slice().to_vec())), want, free);
    let wantt: B = if textish { Some(m.to_vec()) } else { Option::None };
    let freet = is_text.is_some() && (matches!(form, Bytes | BorrowedBytes | ByteBuf | Newtype | SomeBytes | SomeBuf | SomeBorrowed | SomeStr | SomeString | SomeBorrowedStr));
    let charx = matches!(form, Char);
    if !charx {
        jb("text", attempt(|| StringData::deserialize(d).map(|x| x.as_bytes().to_vec())), wantt.clone(), freet);
        jb("static text", attempt(|| StringData::deserialize_static(d).map(|x| x.as_bytes().to_vec())), wantt.clone(), freet);
    }
    // optional
    let jo = |what: &str, r: Option<Result<Option<Vec<u8>>, E>>, some: bool, free: bool| match r {
        Option::None => fail(what, format!("{form:?} panics")),
        Some(Ok(v)) => {
            let none_ok = matches!(form, Unit | None);
            check!(if none_ok { v.is_none() } else { (some || free) && v.as_deref() == Some(m) }, what, "{form:?} gives {v:02x?}");
        }
        Some(Err(e)) => check!(!some && !matches!(form, Unit | None), what, "{form:?} is refused: {e}"),
    };
    let sb = matches!(form, Bytes | BorrowedBytes | ByteBuf | Seq | SomeBytes | SomeBuf | SomeBorrowed);
    let st = is_text.is_some() && matches!(form, Str | BorrowedStr | String | SomeStr | SomeString | SomeBorrowedStr);
    jo("optional data", attempt(|| ByteData::deserialize_static_opt(d).map(|x| x.map(|x| x.as_slice().to_vec()))), sb, free);
    if !charx {
        jo("optional text", attempt(|| StringData::deserialize_static_opt(d).map(|x| x.map(|x| x.as_bytes().to_vec()))), st, freet);
    }
    // lists
    match attempt(|| ByteData::deserialize_static_vec(d)) {
        Option::None => fail("list", format!("{form:?} panics")),
        Some(Ok(v)) => check!((matches!(form, SeqOfBytes | SeqOfStr) && v.len() == 3 && v.iter().all(|x| x.as_slice() == m)) || (matches!(form, Seq) && m.is_empty() && v.is_empty()), "list", "{form:?} gives {v:?}"),
        Some(Err(e)) => check!(!matches!(form, SeqOfBytes), "list", "{form:?} is refused: {e}"),
    }
    match attempt(|| StringData::deserialize_static_vec(d)) {
        Option::None => fail("list", format!("{form:?} panics")),
        Some(Ok(v)) => check!((matches!(form, SeqOfBytes | SeqOfStr) && v.len() == 3 && v.iter().all(|x| x.as_bytes() == m)) || (matches!(form, Seq) && m.is_empty() && v.is_empty()), "list", "{form:?} gives {v:?}"),
        Some(Err(e)) => check!(!matches!(form, SeqOfStr) || is_text.is_none(), "list", "{form:?} is refused: {e}"),
    }
    c.bulk(9);
    c.step(mix(mix(n as u64, kind as u64), form as u64));
}

/// Documents with one byte replaced or cut off somewhere: same verdict as the plain types.
fn mutations(c: &mut Ctx) {
    let f = c.pick(FMTS);
    let text = c.flag();
    let which = c.choose(3);
    let t: &'static str = ["", "aé\"", "inline limit é"][which];
    let mut d = if text { write(f, &doc(&t)) } else { write(f, &doc(&Raw(t.as_bytes().to_vec()))) };
    let pos = c.choose(d.len());
    let cut = c.flag();
    if cut {
        d.truncate(pos);
    } else {
        d[pos] = c.choose(256) as u8;
    }
    c.note(|| format!("{f:?}, {}, {t:?}, {} at {pos}: {d:02x?}", if text { "text" } else { "bytes" }, if cut { "cut" } else { "replaced" }));
    macro_rules! same {
        ($what:expr, $got:expr, $want:expr, |$g:ident| $ge:expr, |$w:ident| $we:expr) => {
            match (attempt(|| $got), $want) {
                (None, _) => fail($what, "panics".into()),
                (Some(Ok($g)), Ok($w)) => check!(($g.pre, $g.post) == ($w.pre, $w.post) && $ge == $we, $what, "{:?}, expected {:?}", $ge, $we),
                (Some(Err(_)), Err(_)) => {}
                (Some(Ok($g)), Err(e)) => fail($what, format!("accepted as {:?}, but the reference says {e}", $ge)),
                (Some(Err(e)), Ok($w)) => fail($what, format!("refused ({e}), but the reference reads {:?}", $we)),
            }
        };
    }
    if text {
        if f != Fmt::Cbor {
            same!("borrowed text", borrowed::<BorrowT>(f, &d), borrowed::<Doc<String>>(f, &d), |g| g.v.as_str(), |w| w.v.as_str());
        }
        for mode in 0..3 {
            if let Some(w) = owned::<Doc<String>>(f, mode, &d) {
                same!("static text", owned::<StaticT>(f, mode, &d).unwrap(), w, |g| g.v.as_str(), |w| w.v.as_str());
                let w = owned::<Doc<String>>(f, mode, &d).unwrap();
                same!("text", owned::<Doc<OwnT>>(f, mode, &d).unwrap(), w, |g| g.v.0.as_str(), |w| w.v.as_str());
                let w = owned::<RefOptT>(f, mode, &d).unwrap();
                same!("optional text", owned::<OptT>(f, mode, &d).unwrap(), w, |g| g.v.as_ref().map(|x| x.as_str()), |w| w.v.as_deref());
            }
        }
    } else {
        if f != Fmt::Cbor {
            same!("borrowed data", borrowed::<BorrowB>(f, &d), borrowed::<Doc<Raw>>(f, &d), |g| g.v.as_slice(), |w| w.v.0.as_slice());
        }
        for mode in 0..3 {
            if let Some(w) = owned::<Doc<Raw>>(f, mode, &d) {
                same!("static data", owned::<StaticB>(f, mode, &d).unwrap(), w, |g| g.v.as_slice(), |w| w.v.0.as_slice());
                let w = owned::<Doc<Raw>>(f, mode, &d).unwrap();
                same!("data", owned::<Doc<OwnB>>(f, mode, &d).unwrap(), w, |g| g.v.0.as_slice(), |w| w.v.0.as_slice());
                let w = owned::<Doc<Raw>>(f, mode, &d).unwrap();
                same!("shared", owned::<Doc<SharedBytes>>(f, mode, &d).unwrap(), w, |g| g.v.as_slice(), |w| w.v.0.as_slice());
                let w = owned::<RefOptB>(f, mode, &d).unwrap();
                same!("optional data", owned::<OptB>(f, mode, &d).unwrap(), w, |g| g.v.as_ref().map(|x| x.as_slice()), |w| w.v.as_ref().map(|x| x.0.as_slice()));
            }
        }
    }
    c.bulk(4);
    c.step(hash_bytes(f as u64, &d));
}
