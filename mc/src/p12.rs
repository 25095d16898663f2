//! C12: HTTP bodies stream exactly the content.
use crate::check;
use crate::explore::*;
use crate::reps::*;
use bytedata::{ByteData, ByteQueue, SharedBytes};
use core::pin::Pin;
use core::task::{Context, Poll, Waker};

pub const SUITES: &[Suite] = &[
    Suite { prop: "C12", name: "data", body: data, leaks: true },
    Suite { prop: "C12", name: "queue", body: queue, leaks: true },
    Suite { prop: "C12", name: "queue_layouts", body: queue_layouts, leaks: true },
];

pub enum Got {
    Data(ByteData<'static>),
    Shared(SharedBytes),
}
impl Got {
    fn bytes(&self) -> &[u8] {
        match self {
            Got::Data(d) => d.as_slice(),
            Got::Shared(d) => d.as_slice(),
        }
    }
}

/// One body under either version of the trait.
#[derive(Clone)]
pub enum B {
    Data4(ByteData<'static>),
    Shared4(SharedBytes),
    Data1(ByteData<'static>),
    Shared1(SharedBytes),
    Queue1(ByteQueue<'static>),
}

/// Ok(None) is the end of the stream.
fn poll4<T: http_body_04::Body + Unpin>(b: &mut T, wrap: fn(T::Data) -> Got) -> Option<Got> {
    let mut cx = Context::from_waker(Waker::noop());
    match Pin::new(&mut *b).poll_data(&mut cx) {
        Poll::Ready(None) => {
            match Pin::new(b).poll_trailers(&mut cx) {
                Poll::Ready(Ok(None)) => {}
                Poll::Ready(Ok(Some(h))) => fail("trailers", format!("{h:?}")),
                Poll::Ready(Err(_)) => fail("error", "trailers are an error".into()),
                Poll::Pending => fail("pending", "trailers are pending".into()),
            }
            None
        }
        Poll::Ready(Some(Ok(d))) => Some(wrap(d)),
        Poll::Ready(Some(Err(_))) => fail("error", "polling gives an error".into()),
        Poll::Pending => fail("pending", "polling is pending though everything is there".into()),
    }
}
fn poll1<T: http_body_1::Body + Unpin>(b: &mut T, wrap: fn(T::Data) -> Got) -> Option<Got> {
    let mut cx = Context::from_waker(Waker::noop());
    match Pin::new(b).poll_frame(&mut cx) {
        Poll::Ready(None) => None,
        Poll::Ready(Some(Ok(f))) => match f.into_data() {
            Ok(d) => Some(wrap(d)),
            Err(_) => fail("trailers", "a frame is not data".into()),
        },
        Poll::Ready(Some(Err(_))) => fail("error", "polling gives an error".into()),
        Poll::Pending => fail("pending", "polling is pending though everything is there".into()),
    }
}
macro_rules! hint {
    ($t:path, $b:expr) => {{
        use $t as Body;
        let h = Body::size_hint($b);
        (h.lower(), h.upper(), h.exact(), Body::is_end_stream($b))
    }};
}

impl B {
    fn poll(&mut self) -> Option<Got> {
        match self {
            B::Data4(b) => poll4(b, Got::Data),
            B::Shared4(b) => poll4(b, Got::Shared),
            B::Data1(b) => poll1(b, Got::Data),
            B::Shared1(b) => poll1(b, Got::Shared),
            B::Queue1(b) => poll1(b, Got::Data),
        }
    }
    fn look(&self, rest: usize, at: &str) {
        let (lo, hi, ex, end) = match self {
            B::Data4(b) => hint!(http_body_04::Body, b),
            B::Shared4(b) => hint!(http_body_04::Body, b),
            B::Data1(b) => hint!(http_body_1::Body, b),
            B::Shared1(b) => hint!(http_body_1::Body, b),
            B::Queue1(b) => hint!(http_body_1::Body, b),
        };
        let r = rest as u64;
        check!(lo == r && hi == Some(r) && ex == Some(r), "size hint", "{at}: {rest} bytes left, hint is {lo}..{hi:?} ({ex:?})");
        check!(end == (rest == 0), "end of stream", "{at}: {rest} bytes left, is_end_stream is {end}");
    }
}

/// Polls to the end and beyond. Frames and copies of the body live as the choices say.
fn drive(c: &mut Ctx, mut b: B, m: &[u8], at: &mut usize) {
    let mut kept: Vec<(Got, usize, usize)> = Vec::new();
    let mut n = 0;
    b.look(m.len() - *at, "before");
    let keep = c.flag();
    let copy_at = c.choose(3);
    let mut copy: Option<(B, usize)> = None;
    loop {
        if n == copy_at {
            copy = Some((b.clone(), *at));
        }
        match b.poll() {
            None => {
                check!(*at == m.len(), "early end", "the stream ends at {} of {}", *at, m.len());
                break;
            }
            Some(g) => {
                let l = g.bytes().len();
                check!(l > 0, "empty frame", "frame {n} at {} is empty", *at);
                check!(*at + l <= m.len() && g.bytes() == &m[*at..*at + l], "content", "frame {n} of {l} bytes at {} of {}", *at, m.len());
                let a = *at;
                *at += l;
                if keep {
                    kept.push((g, a, *at));
                }
                b.look(m.len() - *at, "between");
                c.bulk(1);
                c.step(mix(mix(n as u64, l as u64), *at as u64));
                n += 1;
            }
        }
    }
    for _ in 0..2 {
        b.look(0, "after the end");
        if let Some(g) = b.poll() {
            fail("after the end", format!("a frame of {} bytes after the end", g.bytes().len()));
        }
    }
    if let Some((mut b, mut at)) = copy {
        b.look(m.len() - at, "copy");
        while let Some(g) = b.poll() {
            let l = g.bytes().len();
            check!(l > 0 && at + l <= m.len() && g.bytes() == &m[at..at + l], "content", "copy: frame of {l} bytes at {at} of {}", m.len());
            at += l;
            b.look(m.len() - at, "copy");
        }
        check!(at == m.len(), "early end", "the copy's stream ends at {at} of {}", m.len());
    }
    drop(b);
    for (g, a, e) in kept {
        check!(g.bytes() == &m[a..e], "content", "frame {a}..{e} changed afterwards");
    }
}

const LENS: &[usize] = &[0, 1, 14, 15, 40, 255, 256, 0x7FFF, 0xFFFE, 0xFFFF, 0x1_0000, 0x1_0001, 0x1_FFFD, 0x1_FFFE, 0x1_FFFF, 0x2_0000, 0x2_FFFD, 0x2_FFFE];

fn data(c: &mut Ctx) {
    let n = c.pick(LENS);
    let m = pattern(n);
    let kind = c.choose(4);
    c.note(|| format!("{n} bytes, {}", ["data, version 0.4", "data, version 1", "shared, version 0.4", "shared, version 1"][kind]));
    let (b, m): (B, &[u8]) = if kind < 2 {
        let rep = c.pick(REPS);
        let Some(mut d) = make(rep, m) else { c.skip() };
        c.note(|| format!("as {rep:?}"));
        // a window of it
        let (f, t) = c.pick(&[(0, 0), (1, 0), (0, 1), (3, 2)]);
        if f + t > n {
            c.skip();
        }
        d.make_sliced(f..n - t);
        (if kind == 0 { B::Data4(d) } else { B::Data1(d) }, &m[f..n - t])
    } else {
        let rep = c.pick(REPS);
        let Some(mut d) = shared(rep, m) else { c.skip() };
        let (f, t) = c.pick(&[(0, 0), (1, 0), (0, 1), (3, 2)]);
        if f + t > n {
            c.skip();
        }
        d.make_sliced(f, n - t - f);
        (if kind == 2 { B::Shared4(d) } else { B::Shared1(d) }, &m[f..n - t])
    };
    drive(c, b, m, &mut 0);
}

fn queue(c: &mut Ctx) {
    let k = c.choose(c.q(4, 6));
    let whole = pattern(0x2_0005 * 6);
    let mut q = ByteQueue::new();
    let mut pos = 0;
    for _ in 0..k {
        let l = c.pick(&[1, 14, 40, 0xFFFF, 0x1_0000, 0x1_FFFE, 0x2_0000]);
        let rep = c.pick(CORE);
        let Some(d) = make(rep, stat_window(whole, pos, l)) else { c.skip() };
        c.note(|| format!("{l} bytes as {rep:?}"));
        q.push_back(d);
        pos += l;
    }
    drive(c, B::Queue1(q), &whole[..pos], &mut 0);
}

fn stat_window(w: &'static [u8], a: usize, l: usize) -> &'static [u8] {
    &w[a..a + l]
}

/// Every chamber layout of a queue, streamed.
fn queue_layouts(c: &mut Ctx) {
    let l = crate::p02::draw_layout(c, true);
    let m = l.m.clone();
    c.note(|| format!("queue of {} bytes", m.len()));
    drive(c, B::Queue1(l.q), &m, &mut 0);
}
