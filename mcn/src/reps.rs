//! The storage kinds there are without allocation, under the names the shared suites use.
use crate::alloc::untracked;
use bytedata::{ByteData, StringData};
use std::cell::RefCell;
use std::collections::HashMap;

thread_local! {
    static STATICS: RefCell<HashMap<Vec<u8>, &'static [u8]>> = RefCell::new(HashMap::new());
}

/// A `'static` copy of `b` (cached; not part of the ledger).
pub fn stat(b: &[u8]) -> &'static [u8] {
    untracked(|| {
        STATICS.with(|m| {
            let mut m = m.borrow_mut();
            if let Some(s) = m.get(b) {
                return *s;
            }
            let s: &'static [u8] = Box::leak(b.to_vec().into_boxed_slice());
            m.insert(b.to_vec(), s);
            s
        })
    })
}
pub fn stat_str(b: &str) -> &'static str {
    unsafe { core::str::from_utf8_unchecked(stat(b.as_bytes())) }
}

/// n bytes, all positions distinguishable.
pub fn pattern(n: usize) -> &'static [u8] {
    thread_local!(static P: RefCell<Vec<Option<&'static [u8]>>> = const { RefCell::new(Vec::new()) });
    P.with(|p| {
        let mut p = p.borrow_mut();
        if let Some(Some(s)) = p.get(n) {
            return *s;
        }
        untracked(|| {
            let v: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(7).wrapping_add(0x41).wrapping_add(((i >> 8) as u8).wrapping_mul(3))).collect();
            if p.len() <= n {
                p.resize(n + 1, None);
            }
            let s: &'static [u8] = Box::leak(v.into_boxed_slice());
            p[n] = Some(s);
            s
        })
    })
}

pub fn reset_owners() {}
pub fn owners_error(_leaks: bool) -> Option<String> {
    None
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rep {
    Static,
    Borrowed,
    Inline,
    Shared,
    SharedAl64,
    SharedMid,
    SharedSpare,
    Vec,
    VecSpare,
    ExtHeap,
    ExtMid,
    ExtInline,
    ExtPlain,
    ExtWide,
    BoxSlice,
    ArcSlice,
    StrString,
    BytesStatic,
    BytesVec,
    BytesShared,
    Queue2,
    SharedDup,
    ExtDup,
    SharedAl1,
    SharedUnaligned,
}
use Rep::{ArcSlice, Borrowed, BoxSlice, BytesShared, BytesStatic, BytesVec, ExtDup, ExtHeap, ExtInline, ExtMid, ExtPlain, ExtWide, Inline, Queue2, Shared, SharedAl1, SharedAl64, SharedDup, SharedMid, SharedSpare, SharedUnaligned, Static, StrString, VecSpare};
use Rep::Vec as RVec;
pub const REPS: &[Rep] = &[
    Borrowed, Static, Inline, Shared, SharedMid, ExtHeap, ExtMid, RVec, SharedAl64, SharedSpare, VecSpare, ExtInline, ExtPlain, ExtWide, BoxSlice, ArcSlice, StrString, BytesStatic, BytesVec, BytesShared, Queue2, SharedDup, ExtDup, SharedAl1, SharedUnaligned,
];
/// One of each kind of storage: enough where the storage is only a nuisance parameter.
pub const CORE: &[Rep] = &[Borrowed, Static, Inline, Shared, SharedMid, ExtHeap, ExtMid, SharedSpare];

impl Rep {
    pub fn owned(self) -> bool {
        !matches!(self, Static | Borrowed | BytesStatic)
    }
}

/// Builds content `s` in storage `rep`; `None` where that storage does not exist here.
pub fn make(rep: Rep, s: &'static [u8]) -> Option<ByteData<'static>> {
    Some(match rep {
        Static => ByteData::from_static(s),
        Borrowed => ByteData::from_borrowed(s),
        Inline => {
            if s.len() > 14 {
                return None;
            }
            ByteData::from_chunk_slice(s)
        }
        _ => return None,
    })
}

pub fn make_str(rep: Rep, s: &'static str) -> Option<StringData<'static>> {
    StringData::try_from_bytedata(make(rep, s.as_bytes())?).ok()
}
