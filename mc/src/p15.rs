//! C15: interning (one thread; the concurrent part is in mcc).
use crate::check;
use crate::explore::*;
use crate::reps::*;
use bytedata::interning::{ByteInterning, StaticInterning};
use bytedata::{ByteData, StringData};
use std::collections::HashMap;

pub const SUITES: &[Suite] = &[
    Suite { prop: "C15", name: "lengths", body: lengths, leaks: true },
    Suite { prop: "C15", name: "histories", body: histories, leaks: true },
    Suite { prop: "C15", name: "two_interners", body: two_interners, leaks: true },
];

/// Longest content kept inside of the value itself.
const INLINE: usize = 14;

/// n bytes of text; `v` distinguishes contents of equal length in the last byte.
fn content(n: usize, v: u8) -> &'static str {
    let mut s = String::new();
    for i in 0..n {
        s.push((b'a' + (i % 26) as u8) as char);
    }
    if n > 0 && v > 0 {
        s.pop();
        s.push((b'0' + v) as char);
    }
    crate::reps::stat_str(&s)
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    No,
    /// short contents need not be remembered
    Maybe,
    /// remembered; the storage, unless inside of the handle
    Yes(Option<usize>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
    /// borrowed from memory that is gone right afterwards
    Temp,
    Of(Rep),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Intern,
    Always,
    Get,
}

/// Interners sharing one map.
struct Group {
    ins: Vec<StaticInterning>,
    map: HashMap<&'static str, St>,
    max: usize,
}

fn place(b: &ByteData<'_>) -> Option<usize> {
    let a = b.as_slice().as_ptr() as usize;
    let s = b as *const _ as usize;
    if (s..s + core::mem::size_of::<ByteData<'_>>()).contains(&a) || b.is_empty() {
        None
    } else {
        Some(a)
    }
}

/// The call; `None`: the request was refused (and the value came back as it was).
fn call(i: &StaticInterning, how: How, form: Form, text: bool, s: &'static str) -> Option<Option<ByteData<'static>>> {
    let mut keep = String::new();
    let v: StringData<'_> = match form {
        Form::Temp => {
            keep.push_str(s);
            StringData::from_borrowed(unsafe { &*(keep.as_str() as *const str) })
        }
        Form::Of(r) => make_str(r, s)?,
    };
    let was = v.as_bytes().as_ptr() as usize;
    let me = &v as *const _ as usize;
    let inline = (me..me + core::mem::size_of_val(&v)).contains(&was);
    let r: Result<ByteData<'static>, ByteData<'_>> = if text {
        match how {
            How::Intern => i.intern_str(v).map(|x| x.into_bytedata()).map_err(|x| x.into_bytedata()),
            How::Always => Ok(i.intern_always_str(v).into_bytedata()),
            How::Get => i.get_str(v).map(|x| x.into_bytedata()).map_err(|x| x.into_bytedata()),
        }
    } else {
        let v = v.into_bytedata();
        match how {
            How::Intern => i.intern(v),
            How::Always => Ok(i.intern_always(v)),
            How::Get => i.get(v),
        }
    };
    match r {
        Ok(h) => {
            drop(keep);
            Some(Some(h))
        }
        Err(b) => {
            check!(b.as_slice() == s.as_bytes(), "given back", "{how:?} gave back {:?} for {s:?}", b.as_slice());
            check!(inline || s.is_empty() || b.as_slice().as_ptr() as usize == was, "given back", "{how:?} gave back a copy instead of the value itself");
            drop(b);
            Some(None)
        }
    }
}

fn request(g: &mut Group, held: &mut Vec<(ByteData<'static>, &'static str)>, how: How, form: Form, text: bool, s: &'static str) -> bool {
    let n = s.len();
    let st = *g.map.get(s).unwrap_or(&St::No);
    let Some(got) = call(g.ins.last().unwrap(), how, form, text, s) else { return false };
    let Some(h) = got else {
        match how {
            How::Intern => check!(n > g.max && n > INLINE, "refused", "intern of {n} bytes is refused (limit {})", g.max),
            How::Get => check!(!matches!(st, St::Yes(_)), "lost", "look-up of {n} bytes finds nothing though it was interned"),
            How::Always => unreachable!(),
        }
        return true;
    };
    check!(h.as_slice() == s.as_bytes(), "content", "{how:?} of {s:?} gives {:?}", h.as_slice());
    let at = place(&h);
    let short = how == How::Intern && n <= INLINE;
    match how {
        How::Intern => check!(n <= INLINE || n <= g.max, "accepted", "intern of {n} bytes is accepted (limit {})", g.max),
        How::Get => check!(st != St::No, "invented", "look-up of {n} bytes finds {:?} though it was never interned", h.as_slice()),
        How::Always => {}
    }
    if let (St::Yes(Some(a)), false) = (st, short) {
        check!(at == Some(a), "not canonical", "{how:?} of {n} bytes gives storage other than the earlier handle's");
    }
    let new = match st {
        St::Yes(Some(a)) => St::Yes(Some(a)),
        _ if short => if st == St::No { St::Maybe } else { st },
        _ => St::Yes(at),
    };
    g.map.insert(s, new);
    held.push((h, s));
    true
}

fn group(c: &mut Ctx, max: usize) -> Group {
    let i = match c.choose(3) {
        0 => StaticInterning::new(max),
        1 => StaticInterning::new_const(max),
        _ => {
            if max != 128 {
                c.skip();
            }
            StaticInterning::default()
        }
    };
    Group { ins: vec![i], map: HashMap::new(), max }
}

fn all_good(held: &[(ByteData<'static>, &'static str)]) {
    for (h, s) in held {
        check!(h.as_slice() == s.as_bytes(), "handle changed", "a handle to {s:?} reads {:?}", h.as_slice());
    }
}

/// Every length around the limits x every limit x every storage x every request, followed by a
/// second request of every kind in another form.
fn lengths(c: &mut Ctx) {
    let max = c.pick(&[0usize, 1, 13, 14, 15, 16, 20, 40, 128, usize::MAX]);
    let mut lens = vec![0usize, 1, 13, 14, 15, 16];
    for d in [max.wrapping_sub(1), max, max.wrapping_add(1)] {
        if d < 200 && !lens.contains(&d) {
            lens.push(d);
        }
    }
    let n = c.pick(&lens);
    let s = content(n, 0);
    let mut forms = vec![Form::Temp];
    forms.extend(REPS.iter().map(|r| Form::Of(*r)));
    let (h1, f1, t1) = (c.pick(&[How::Intern, How::Always, How::Get]), c.pick(&forms), c.flag());
    let mut g = group(c, max);
    let mut held = Vec::new();
    c.note(|| format!("limit {max}: {h1:?} {n} bytes as {f1:?} (text {t1})"));
    if !request(&mut g, &mut held, h1, f1, t1, s) {
        c.skip();
    }
    c.step(1);
    let forms2 = if c.thorough { forms.clone() } else { vec![Form::Temp, Form::Of(Rep::Shared), Form::Of(Rep::ExtHeap)] };
    let (h2, f2, t2) = (c.pick(&[How::Intern, How::Always, How::Get]), c.pick(&forms2), c.flag());
    c.note(|| format!("{h2:?} as {f2:?} (text {t2})"));
    if !request(&mut g, &mut held, h2, f2, t2, s) {
        c.skip();
    }
    if c.flag() {
        let near = content(n, 1);
        request(&mut g, &mut held, How::Get, Form::Temp, false, near);
    }
    all_good(&held);
    drop(g);
    all_good(&held);
    c.step(2);
}

#[derive(Clone, Copy, Debug)]
enum Act {
    Do(How, Form, bool, usize),
    Clear,
    Clone,
    DropOne,
    DropHandles,
}

/// All histories over an alphabet of requests, clears, clones and drops.
fn histories(c: &mut Ctx) {
    use How::*;
    let contents = [content(16, 0), content(16, 1), content(14, 0), content(21, 0), content(20, 0)];
    let sh = Form::Of(Rep::Shared);
    let ext = Form::Of(Rep::ExtHeap);
    let mid = Form::Of(Rep::SharedMid);
    let acts = [
        Act::Do(Intern, Form::Temp, false, 0),
        Act::Do(Intern, sh, true, 0),
        Act::Do(Always, mid, false, 0),
        Act::Do(Get, Form::Temp, true, 0),
        Act::Clear,
        Act::Clone,
        Act::DropOne,
        Act::DropHandles,
        Act::Do(Intern, ext, true, 1),
        Act::Do(Get, sh, false, 1),
        Act::Do(Intern, sh, false, 2),
        Act::Do(Always, ext, false, 2),
        Act::Do(Get, Form::Temp, false, 2),
        Act::Do(Intern, Form::Temp, true, 3),
        Act::Do(Always, Form::Temp, true, 3),
        Act::Do(Get, ext, false, 3),
        Act::Do(Intern, Form::Of(Rep::Static), false, 4),
    ];
    let mut g = group(c, 20);
    let mut held: Vec<(ByteData<'static>, &'static str)> = Vec::new();
    let depth = c.q(5, 6);
    for _ in 0..depth {
        let k = c.choose(acts.len() + 1);
        if k == 0 {
            break;
        }
        let a = acts[k - 1];
        c.note(|| format!("{a:?}"));
        match a {
            Act::Do(how, form, text, i) => {
                request(&mut g, &mut held, how, form, text, contents[i]);
            }
            Act::Clear => {
                g.ins.last().unwrap().clear();
                g.map.clear();
            }
            Act::Clone => {
                let i = g.ins.last().unwrap().clone();
                g.ins.push(i);
            }
            Act::DropOne => {
                if g.ins.len() == 1 {
                    c.skip();
                }
                g.ins.remove(0);
            }
            Act::DropHandles => held.clear(),
        }
        all_good(&held);
        c.step(k as u64);
    }
    // what is remembered is still there, for every clone
    for i in 0..g.ins.len() {
        for s in contents {
            let st = *g.map.get(s).unwrap_or(&St::No);
            match g.ins[i].get(ByteData::from_borrowed(s.as_bytes())) {
                Ok(h) => {
                    check!(st != St::No, "invented", "at the end, {} bytes are found though not interned", s.len());
                    check!(h.as_slice() == s.as_bytes(), "content", "at the end, {s:?} is {:?}", h.as_slice());
                    if let St::Yes(Some(a)) = st {
                        check!(place(&h) == Some(a), "not canonical", "at the end, {s:?} is elsewhere");
                    }
                }
                Err(_) => check!(!matches!(st, St::Yes(_)), "lost", "at the end, {} interned bytes are not found", s.len()),
            }
        }
    }
    drop(g);
    all_good(&held);
}

/// Two interners do not know of each other; a handle of one may be interned in the other.
fn two_interners(c: &mut Ctx) {
    let mut a = group(c, 20);
    let mut b = group(c, 18);
    let s = content(c.pick(&[14usize, 16, 18, 19, 20, 21]), 0);
    let mut held = Vec::new();
    let depth = c.q(3, 4);
    for _ in 0..depth {
        let k = c.choose(10);
        c.note(|| format!("action {k}"));
        match k {
            0 => break,
            1 => drop(request(&mut a, &mut held, How::Intern, Form::Temp, false, s)),
            2 => drop(request(&mut b, &mut held, How::Intern, Form::Temp, true, s)),
            3 => drop(request(&mut a, &mut held, How::Get, Form::Temp, true, s)),
            4 => drop(request(&mut b, &mut held, How::Get, Form::Temp, false, s)),
            5 | 6 => {
                // pass a handle on
                let Some((h, _)) = held.last() else { c.skip() };
                let h = h.clone();
                let g = if k == 5 { &mut a } else { &mut b };
                let st = *g.map.get(s).unwrap_or(&St::No);
                let r = g.ins[0].intern_always(h);
                check!(r.as_slice() == s.as_bytes(), "content", "interned handle reads {:?}", r.as_slice());
                let at = place(&r);
                if let St::Yes(Some(p)) = st {
                    check!(at == Some(p), "not canonical", "interning another interner's handle gives other storage");
                } else {
                    g.map.insert(s, St::Yes(at));
                }
                held.push((r, s));
            }
            7 => {
                a.ins[0].clear();
                a.map.clear();
            }
            8 => {
                b.ins[0].clear();
                b.map.clear();
            }
            _ => {
                // the first one goes away; a new one takes its place
                a.ins = vec![StaticInterning::new_const(20)];
                a.map.clear();
            }
        }
        all_good(&held);
        c.step(k as u64);
    }
    drop(a);
    all_good(&held);
    drop(b);
    all_good(&held);
}
