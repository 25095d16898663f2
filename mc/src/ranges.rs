//! Range arguments as data, dispatched to the concrete std range types.
use core::ops::Bound;

#[derive(Clone, Copy, Debug)]
pub enum R {
    Full,
    From(usize),
    To(usize),
    Half(usize, usize),
    Incl(usize, usize),
    ToIncl(usize),
}

#[macro_export]
macro_rules! with_range {
    ($r:expr, |$x:ident| $e:expr) => {
        match $r {
            $crate::ranges::R::Full => { let $x = ..; $e }
            $crate::ranges::R::From(a) => { let $x = a..; $e }
            $crate::ranges::R::To(b) => { let $x = ..b; $e }
            $crate::ranges::R::Half(a, b) => { let $x = a..b; $e }
            $crate::ranges::R::Incl(a, b) => { let $x = a..=b; $e }
            $crate::ranges::R::ToIncl(b) => { let $x = ..=b; $e }
        }
    };
}

impl R {
    /// As a pair of bounds (for methods that take any `RangeBounds`).
    pub fn bounds(self) -> (Bound<usize>, Bound<usize>) {
        use Bound::*;
        match self {
            R::Full => (Unbounded, Unbounded),
            R::From(a) => (Included(a), Unbounded),
            R::To(b) => (Unbounded, Excluded(b)),
            R::Half(a, b) => (Included(a), Excluded(b)),
            R::Incl(a, b) => (Included(a), Included(b)),
            R::ToIncl(b) => (Unbounded, Included(b)),
        }
    }
    /// The half-open window on a value of length n, if valid.
    pub fn window(self, n: usize) -> Option<(usize, usize)> {
        let (a, b) = match self {
            R::Full => (0, n),
            R::From(a) => (a, n),
            R::To(b) => (0, b),
            R::Half(a, b) => (a, b),
            R::Incl(a, b) => (a, b.checked_add(1)?),
            R::ToIncl(b) => (0, b.checked_add(1)?),
        };
        (a <= b && b <= n).then_some((a, b))
    }
}

/// Every valid range over positions drawn from `pos` (sorted, all <= n), simplest first.
pub fn valid(pos: &[usize], n: usize) -> Vec<R> {
    let mut v = vec![R::Full];
    for &a in pos {
        v.push(R::From(a));
        v.push(R::To(a));
        if a < n {
            v.push(R::ToIncl(a));
        }
    }
    for &a in pos {
        for &b in pos {
            if a <= b {
                v.push(R::Half(a, b));
            }
            if a <= b + 1 && b < n {
                v.push(R::Incl(a, b));
            }
        }
    }
    v
}

/// Interesting positions of a value of length n.
pub fn cuts(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, n / 2, n.saturating_sub(1), n];
    v.extend_from_slice(&[13, 14, 15]);
    if n > 15 {
        v.extend_from_slice(&[n - 14, n - 15]);
    }
    v.retain(|x| *x <= n);
    v.sort();
    v.dedup();
    v
}
