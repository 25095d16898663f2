//! Every storage kind a byte value can have, behind one constructor.
use crate::alloc::untracked;
use bytedata::{ByteData, SharedBytes, SharedBytesBuilder, StringData};
use std::cell::RefCell;
use std::collections::HashMap;

thread_local! {
    static STATICS: RefCell<HashMap<Vec<u8>, &'static [u8]>> = RefCell::new(HashMap::new());
    static OWN: RefCell<(i64, Option<String>)> = const { RefCell::new((0, None)) };
}

/// A `'static` copy of `b` (cached; not part of the ledger).
pub fn stat(b: &[u8]) -> &'static [u8] {
    untracked(|| {
        STATICS.with(|m| {
            let mut m = m.borrow_mut();
            if let Some(s) = m.get(b) {
                return *s;
            }
            let s: &'static [u8] = Box::leak(b.to_vec().into_boxed_slice());
            m.insert(b.to_vec(), s);
            s
        })
    })
}
pub fn stat_str(b: &str) -> &'static str {
    unsafe { core::str::from_utf8_unchecked(stat(b.as_bytes())) }
}

/// n bytes, all positions distinguishable.
pub fn pattern(n: usize) -> &'static [u8] {
    thread_local!(static P: RefCell<Vec<Option<&'static [u8]>>> = const { RefCell::new(Vec::new()) });
    P.with(|p| {
        let mut p = p.borrow_mut();
        if let Some(Some(s)) = p.get(n) {
            return *s;
        }
        untracked(|| {
            let v: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(7).wrapping_add(0x41).wrapping_add(((i >> 8) as u8).wrapping_mul(3))).collect();
            if p.len() <= n {
                p.resize(n + 1, None);
            }
            let s: &'static [u8] = Box::leak(v.into_boxed_slice());
            p[n] = Some(s);
            s
        })
    })
}

pub fn reset_owners() {
    OWN.with(|o| {
        let mut o = o.borrow_mut();
        o.0 = 0;
        untracked(|| o.1 = None);
    })
}
pub fn owners_live() -> i64 {
    OWN.with(|o| o.borrow().0)
}
pub fn owners_error(leaks: bool) -> Option<String> {
    OWN.with(|o| {
        let o = o.borrow();
        if let Some(e) = &o.1 {
            return Some(e.clone());
        }
        if leaks && o.0 != 0 {
            return Some(format!("{} external owner(s) never dropped", o.0));
        }
        None
    })
}

const ALIVE: u64 = 0xA11E_A11E_A11E_A11E;
const GONE: u64 = 0x60E_60E_60E_60E;

/// Tracks that the enclosing owner is dropped exactly once.
pub struct Canary(u64);
impl Canary {
    pub fn new() -> Self {
        OWN.with(|o| o.borrow_mut().0 += 1);
        Canary(ALIVE)
    }
}
impl Drop for Canary {
    fn drop(&mut self) {
        let ok = self.0 == ALIVE;
        self.0 = GONE;
        OWN.with(|o| {
            let mut o = o.borrow_mut();
            if ok {
                o.0 -= 1;
            } else {
                untracked(|| o.1 = Some("external owner dropped although it was already gone or never valid".into()));
            }
        })
    }
}

/// Owner whose bytes live in a heap buffer.
pub struct HeapOwner {
    _c: Canary,
    v: Vec<u8>,
}
/// Owner whose bytes live inside the owner itself (moving it moves the bytes).
#[repr(align(32))]
pub struct InlineOwner {
    b: [u8; 80],
    n: usize,
    _c: Canary,
}
/// Owner without storage of its own and without drop glue.
pub struct PlainOwner(pub &'static [u8]);
/// Zero-sized owner.
pub struct ZstOwner;
pub const ZST_BYTES: &[u8] = b"zero-sized owner bytes!!";
/// Over-aligned owner.
#[repr(align(256))]
pub struct WideOwner {
    _c: Canary,
    b: [u8; 40],
    n: usize,
}

macro_rules! ext {
    ($t:ty, $f:expr) => {
        impl bytedata::external::ExternalBytes for $t {
            const OPS: bytedata::external::ExternalOps<Self> = bytedata::external::ExternalOps::new($f);
        }
    };
}
ext!(HeapOwner, |o| &o.v);
ext!(InlineOwner, |o| &o.b[..o.n]);
ext!(PlainOwner, |o| o.0);
ext!(ZstOwner, |_| ZST_BYTES);
ext!(WideOwner, |o| &o.b[..o.n]);

impl HeapOwner {
    pub fn new(b: &[u8]) -> Self {
        HeapOwner { v: b.to_vec(), _c: Canary::new() }
    }
}
impl InlineOwner {
    pub fn new(s: &[u8]) -> Self {
        let mut b = [0xEE; 80];
        b[..s.len()].copy_from_slice(s);
        InlineOwner { b, n: s.len(), _c: Canary::new() }
    }
}
impl WideOwner {
    pub fn new(s: &[u8]) -> Self {
        let mut b = [0xEE; 40];
        b[..s.len()].copy_from_slice(s);
        WideOwner { b, n: s.len(), _c: Canary::new() }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rep {
    Static,
    Borrowed,
    Inline,
    Shared,
    SharedAl64,
    SharedMid,
    SharedSpare,
    Vec,
    VecSpare,
    ExtHeap,
    ExtMid,
    ExtInline,
    ExtPlain,
    ExtWide,
    BoxSlice,
    ArcSlice,
    StrString,
    BytesStatic,
    BytesVec,
    BytesShared,
    Queue2,
    SharedDup,
    ExtDup,
    SharedAl1,
    SharedUnaligned,
    /// A foreign buffer as external owner, cut at both ends.
    ExtBytes,
}
use Rep::{ArcSlice, Borrowed, BoxSlice, BytesShared, BytesStatic, BytesVec, ExtBytes, ExtDup, ExtHeap, ExtInline, ExtMid, ExtPlain, ExtWide, Inline, Queue2, Shared, SharedAl1, SharedAl64, SharedDup, SharedMid, SharedSpare, SharedUnaligned, Static, StrString, VecSpare};
use Rep::Vec as RVec;
pub const REPS: &[Rep] = &[
    Borrowed, Static, Inline, Shared, SharedMid, ExtHeap, ExtMid, RVec, SharedAl64, SharedSpare, VecSpare, ExtInline, ExtPlain, ExtWide, BoxSlice, ArcSlice, StrString, BytesStatic, BytesVec, BytesShared, Queue2, SharedDup, ExtDup, SharedAl1, SharedUnaligned, ExtBytes,
];
/// One of each kind of storage: enough where the storage is only a nuisance parameter.
pub const CORE: &[Rep] = &[Borrowed, Static, Inline, Shared, SharedMid, ExtHeap, ExtMid, SharedSpare];

impl Rep {
    pub fn owned(self) -> bool {
        !matches!(self, Static | Borrowed | BytesStatic)
    }
}

/// A shared block that a second handle keeps alive.
pub struct Extra(pub Option<ByteData<'static>>);

pub fn shared(rep: Rep, s: &'static [u8]) -> Option<SharedBytes> {
    Some(match rep {
        Shared => SharedBytes::from_slice(s),
        SharedAl1 => SharedBytes::from_slice_aligned(s, 1),
        SharedAl64 => SharedBytes::from_slice_aligned(s, 64),
        SharedMid => {
            let mut b = SharedBytesBuilder::new();
            b.extend_from_slice(b"<<<");
            b.extend_from_slice(s);
            b.extend_from_slice(b">>");
            b.build().into_sliced(3, s.len())
        }
        SharedUnaligned => {
            let mut b = SharedBytesBuilder::with_aligned_capacity(s.len() + 1, 16);
            b.extend_from_slice(b"#");
            b.extend_from_slice(s);
            b.build().into_sliced(1, s.len())
        }
        SharedSpare => {
            let mut b = SharedBytesBuilder::with_capacity(s.len() + 9);
            b.extend_from_slice(s);
            b.build()
        }
        _ => return None,
    })
}

/// Builds content `s` in storage `rep`; `None` where that storage cannot hold it.
pub fn make(rep: Rep, s: &'static [u8]) -> Option<ByteData<'static>> {
    Some(match rep {
        Static => ByteData::from_static(s),
        Borrowed => ByteData::from_borrowed(s),
        Inline => {
            if s.len() > 14 {
                return None;
            }
            ByteData::from_chunk_slice(s)
        }
        Shared | SharedAl1 | SharedAl64 | SharedMid | SharedSpare | SharedUnaligned => ByteData::from_shared(shared(rep, s)?),
        RVec => ByteData::from_owned(s.to_vec()),
        VecSpare => {
            let mut v = std::vec::Vec::with_capacity(s.len() + 5);
            v.extend_from_slice(s);
            ByteData::from_owned(v)
        }
        ExtHeap => ByteData::from_external(HeapOwner::new(s)),
        ExtMid => {
            let mut v = s.to_vec();
            v.insert(0, b'<');
            v.extend_from_slice(b">>>");
            let n = s.len();
            let mut d = ByteData::from_external(HeapOwner { v, _c: Canary::new() });
            d.make_sliced(1..n + 1);
            d
        }
        ExtInline => {
            if s.len() > 80 {
                return None;
            }
            ByteData::from_external(InlineOwner::new(s))
        }
        ExtPlain => ByteData::from_external(PlainOwner(s)),
        ExtWide => {
            if s.len() > 40 {
                return None;
            }
            ByteData::from_external(WideOwner::new(s))
        }
        BoxSlice => ByteData::from_external(s.to_vec().into_boxed_slice()),
        ArcSlice => ByteData::from_external(std::sync::Arc::<[u8]>::from(s)),
        StrString => ByteData::from(String::from(core::str::from_utf8(s).ok()?)),
        BytesStatic => ByteData::from(bytes::Bytes::from_static(s)),
        BytesVec => ByteData::from(bytes::Bytes::from(s.to_vec())),
        BytesShared => {
            let mut v = std::vec::Vec::with_capacity(s.len() + 6);
            v.extend_from_slice(b"##");
            v.extend_from_slice(s);
            ByteData::from(bytes::Bytes::from(v).slice(2..2 + s.len()))
        }
        Queue2 => {
            let mut q = bytedata::ByteQueue::new();
            let h = s.len() / 2;
            q.push_back(ByteData::from_static(&s[..h]));
            q.push_back(ByteData::from_borrowed(&s[h..]));
            ByteData::from(q)
        }
        SharedDup => {
            let d = ByteData::from_shared(SharedBytes::from_slice(s));
            let e = d.clone();
            drop(d);
            e
        }
        ExtDup => {
            let d = ByteData::from_external(HeapOwner::new(s));
            let e = d.clone();
            drop(d);
            e
        }
        ExtBytes => {
            let mut v = s.to_vec();
            v.insert(0, b'<');
            v.extend_from_slice(b">>");
            let n = s.len();
            let mut d = ByteData::from_external(bytes::Bytes::from(v));
            d.make_sliced(1..n + 1);
            d
        }
    })
}

pub fn make_str(rep: Rep, s: &'static str) -> Option<StringData<'static>> {
    StringData::try_from_bytedata(make(rep, s.as_bytes())?).ok()
}
