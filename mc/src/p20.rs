//! C20: generated arbitrary values are well formed and stay within their input.
use crate::check;
use crate::explore::*;
use crate::p02::{same, sq_same};
use crate::reps::*;
use arbitrary::{Arbitrary, Error, Unstructured};
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, StringData, StringQueue};

pub const SUITES: &[Suite] = &[
    Suite { prop: "C20", name: "short", body: short, leaks: true },
    Suite { prop: "C20", name: "long", body: long, leaks: true },
    Suite { prop: "C20", name: "ends", body: ends, leaks: true },
];

/// What a value looks like: its pieces, in order.
#[derive(PartialEq, Debug)]
struct Look(Vec<Vec<u8>>);

trait Val<'a>: Arbitrary<'a> {
    const TEXT: bool;
    fn look(&self) -> Look;
}
impl<'a> Val<'a> for ByteData<'a> {
    const TEXT: bool = false;
    fn look(&self) -> Look {
        check!(self.len() == self.as_slice().len() && self.is_empty() == (self.len() == 0), "length", "{} of {:?}", self.len(), self.as_slice());
        Look(vec![self.as_slice().to_vec()])
    }
}
impl<'a> Val<'a> for SharedBytes {
    const TEXT: bool = false;
    fn look(&self) -> Look {
        check!(self.len() == self.as_slice().len(), "length", "{} of {:?}", self.len(), self.as_slice());
        Look(vec![self.as_slice().to_vec()])
    }
}
impl<'a> Val<'a> for SharedBytesBuilder {
    const TEXT: bool = false;
    fn look(&self) -> Look {
        check!(self.len() == self.as_slice().len(), "length", "{} of {:?}", self.len(), self.as_slice());
        Look(vec![self.as_slice().to_vec()])
    }
}
impl<'a> Val<'a> for StringData<'a> {
    const TEXT: bool = true;
    fn look(&self) -> Look {
        check!(core::str::from_utf8(self.as_bytes()).is_ok(), "utf8", "{:02x?}", self.as_bytes());
        Look(vec![self.as_bytes().to_vec()])
    }
}
impl<'a> Val<'a> for ByteQueue<'a> {
    const TEXT: bool = false;
    fn look(&self) -> Look {
        let v: Vec<Vec<u8>> = self.chunks().map(|c| c.as_slice().to_vec()).collect();
        same(self, &v.concat(), "queue");
        Look(v)
    }
}
impl<'a> Val<'a> for StringQueue<'a> {
    const TEXT: bool = true;
    fn look(&self) -> Look {
        let v: Vec<Vec<u8>> = self.chunks().map(|c| c.as_bytes().to_vec()).collect();
        for c in &v {
            check!(core::str::from_utf8(c).is_ok(), "utf8", "{c:02x?}");
        }
        sq_same(self, &String::from_utf8(v.concat()).unwrap(), "queue");
        Look(v)
    }
}

fn window(hay: &[u8], p: &[u8]) -> bool {
    p.is_empty() || hay.windows(p.len()).any(|w| w == p)
}

fn one<'a, T: Val<'a>>(name: &str, input: &'a [u8]) {
    let (lo, hi) = T::size_hint(0);
    let mut first: Option<(Option<Look>, usize)> = None;
    for round in 0..2 {
        let mut u = Unstructured::new(input);
        let r = attempt(|| T::arbitrary(&mut u));
        let used = input.len() - u.len();
        let v = match r {
            None => fail(name, format!("arbitrary panics on {} bytes {:02x?}", input.len(), &input[..input.len().min(64)])),
            Some(Err(Error::NotEnoughData | Error::IncorrectFormat | Error::EmptyChoose)) => None,
            Some(Err(e)) => fail(name, format!("{e:?}")),
            Some(Ok(v)) => Some(v),
        };
        if let Some(h) = hi {
            check!(used <= h, name, "{used} bytes used, the size hint allows {h}");
        }
        check!(v.is_none() || used >= lo.min(input.len()), name, "{used} bytes used, the size hint needs {lo}");
        let look = v.as_ref().map(|v| v.look());
        if let (Some(l), false) = (&look, T::TEXT) {
            for p in &l.0 {
                check!(window(input, p), name, "a piece {p:02x?} is no part of the input {:02x?}", &input[..input.len().min(64)]);
            }
        }
        if let Some(l) = &look {
            let n: usize = l.0.iter().map(|p| p.len()).sum();
            check!(n <= input.len(), name, "{n} bytes out of {} of input", input.len());
        }
        match &first {
            None => first = Some((look, u.len())),
            Some(f) => check!(*f == (look, u.len()), name, "round {round} differs"),
        }
    }
    let mut firstr: Option<Option<Look>> = None;
    for _ in 0..2 {
        let v = match attempt(|| T::arbitrary_take_rest(Unstructured::new(input))) {
            None => fail(name, format!("arbitrary_take_rest panics on {} bytes {:02x?}", input.len(), &input[..input.len().min(64)])),
            Some(r) => r.ok(),
        };
        let look = v.as_ref().map(|v| v.look());
        if let (Some(l), false) = (&look, T::TEXT) {
            for p in &l.0 {
                check!(window(input, p), name, "take_rest: a piece {p:02x?} is no part of the input {:02x?}", &input[..input.len().min(64)]);
            }
        }
        if let Some(l) = &look {
            let n: usize = l.0.iter().map(|p| p.len()).sum();
            check!(n <= input.len() + 3, name, "take_rest: {n} bytes out of {} of input", input.len());
        }
        match &firstr {
            None => firstr = Some(look),
            Some(f) => check!(*f == look, name, "take_rest differs"),
        }
    }
}

fn all(c: &mut Ctx, input: &[u8]) {
    one::<ByteData>("byte data", input);
    one::<SharedBytes>("shared bytes", input);
    one::<SharedBytesBuilder>("builder", input);
    one::<StringData>("text", input);
    one::<ByteQueue>("byte queue", input);
    one::<StringQueue>("text queue", input);
    // empty input still makes a value of the plain kinds, as documented by the trait's zero fill
    c.bulk(24);
    c.step(hash_bytes(input.len() as u64, input));
}

fn short(c: &mut Ctx) {
    let n = c.choose(c.q(6, 7));
    let mut v = vec![];
    for _ in 0..n {
        v.push(c.pick(&[0u8, 1, 2, 3, 5, b'a', 0x80, 0xC3, 0xF0, 0xFF]));
    }
    c.note(|| format!("{v:02x?}"));
    all(c, &v);
}

/// Long enough for text, several chunks, and two-byte lengths.
fn long(c: &mut Ctx) {
    let n = c.pick(&[8usize, 13, 14, 15, 16, 17, 18, 19, 20, 24, 32, 40, 64, 255, 256, 257, 258, 300, 1000, 65_536, 65_537, 65_538, 65_600]);
    let huge = n > 60_000;
    // what the middle looks like
    let kind = c.choose(if huge { 3 } else { 7 });
    let mut v: Vec<u8> = match kind {
        0 => pattern(n).to_vec(),
        1 => vec![b'a'; n],
        2 => (0..n).map(|i| [0xC3, 0xA9][i % 2]).collect(),
        3 => (0..n).map(|i| [0x01, 0xE9, 0x00, 0x00, 0x00][i % 5]).collect(),
        4 => (0..n).map(|i| [0x01, 0x00, 0xF6, 0x01, 0x00][i % 5]).collect(),
        5 => (0..n).map(|i| [0x03, 0x41, 0x00, 0x00, 0x00, 0x01, 0x02][i % 7]).collect(),
        _ => vec![0xFF; n],
    };
    // the choice up front, lengths at the end
    v[0] = c.choose(3) as u8;
    v[1] = if huge { 1 } else { c.pick(&[0, 1, 2, 0x41, 0xFF]) };
    let k = v.len();
    v[k - 1] = c.pick(&[0, 1, 2, 13, 14, 15, 16, 40, 0x7F, 0xFE, 0xFF]);
    v[k - 2] = c.pick(&[0, 1, 5, 15, 0xFF]);
    c.note(|| format!("{n} bytes of kind {kind}, starting {:02x?}, ending {:02x?}", &v[..2], &v[k - 2..]));
    all(c, &v);
}

/// Characters of every encoded length around the inline limit.
fn ends(c: &mut Ctx) {
    let choice = c.choose(3) as u8;
    let n = c.choose(c.q(7, 8));
    // from arbitrary_iter: a flag, then four bytes; from take_rest: four bytes
    let flagged = c.flag();
    let mut v = vec![choice];
    // quick filler of plain letters to get near the inline limit
    let fill = c.pick(&[0usize, 8, 11, 12, 13]);
    let mut put = |v: &mut Vec<u8>, ch: char| {
        if flagged {
            v.push(1);
        }
        v.extend_from_slice(&(ch as u32).to_le_bytes());
    };
    for _ in 0..fill {
        put(&mut v, 'x');
    }
    for _ in 0..n.min(3) {
        put(&mut v, c.pick(&['a', 'é', '€', '😀', '\0']));
    }
    for _ in 3..n {
        put(&mut v, 'é');
    }
    let t = c.choose(3);
    v.extend_from_slice(&[1, 0, 7][..t]);
    c.note(|| format!("{v:02x?}"));
    all(c, &v);
}
