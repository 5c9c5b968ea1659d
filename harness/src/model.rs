//! Operands and their meaning.  Every operand of the algebra is generated together with the list
//! of intervals it denotes; membership, overlap and emptiness over that list are the oracle.
//! The oracle uses non-short-circuit operators so that it does not split paths.
use crate::sym::*;
use rangetools::*;
use std::ops;

/// A bound: None = unbounded, Some((value, included)).
pub type B = Option<(u8, bool)>;

#[derive(Clone, Copy)]
pub struct Comp {
    pub lo: B,
    pub hi: B,
}

/// `lo` lies below `hi` with something between them in a dense order.
#[inline(always)]
pub fn room(lo: B, hi: B) -> bool {
    match (lo, hi) {
        (Some((a, ai)), Some((b, bi))) => (a < b) | ((a == b) & ai & bi),
        _ => true,
    }
}

impl Comp {
    #[inline(always)]
    pub fn has(&self, t: u8) -> bool {
        let l = match self.lo {
            None => true,
            Some((v, i)) => (t > v) | (i & (t == v)),
        };
        let h = match self.hi {
            None => true,
            Some((v, i)) => (t < v) | (i & (t == v)),
        };
        l & h
    }
    #[inline(always)]
    pub fn empty(&self) -> bool {
        !room(self.lo, self.hi)
    }
    /// The two intervals share a point of a dense order.
    #[inline(always)]
    pub fn overlaps(&self, o: &Comp) -> bool {
        room(self.lo, self.hi) & room(self.lo, o.hi) & room(o.lo, self.hi) & room(o.lo, o.hi)
    }
}

pub const MAXC: usize = 26;

#[derive(Clone, Copy)]
pub struct Oracle {
    pub n: usize,
    pub c: [Comp; MAXC],
}

impl Oracle {
    pub fn new() -> Oracle {
        Oracle { n: 0, c: [Comp { lo: None, hi: None }; MAXC] }
    }
    pub fn push(&mut self, lo: B, hi: B) {
        self.c[self.n] = Comp { lo, hi };
        self.n += 1;
    }
    pub fn has(&self, t: u8) -> bool {
        let mut r = false;
        for i in 0..self.n {
            r |= self.c[i].has(t);
        }
        r
    }
    pub fn empty(&self) -> bool {
        let mut r = true;
        for i in 0..self.n {
            r &= self.c[i].empty();
        }
        r
    }
    pub fn overlaps(&self, o: &Oracle) -> bool {
        let mut r = false;
        for i in 0..self.n {
            for j in 0..o.n {
                r |= self.c[i].overlaps(&o.c[j]);
            }
        }
        r
    }
}

pub fn lb(b: (u8, bool)) -> LowerBound<u8> {
    if b.1 {
        LowerBound::included(b.0)
    } else {
        LowerBound::excluded(b.0)
    }
}
pub fn ub(b: (u8, bool)) -> UpperBound<u8> {
    if b.1 {
        UpperBound::included(b.0)
    } else {
        UpperBound::excluded(b.0)
    }
}
pub fn any_bound() -> (u8, bool) {
    let v = any_u8();
    (v, any_bool())
}

/// A kind of operand.
pub trait Kind {
    type T: Clone;
    fn gen(o: &mut Oracle) -> Self::T;
    fn has(x: &Self::T, t: u8) -> bool;
}

macro_rules! kind {
    ($n:ident, $t:ty, |$o:ident| $gen:block, |$x:ident, $p:ident| $has:expr) => {
        pub struct $n;
        impl Kind for $n {
            type T = $t;
            fn gen($o: &mut Oracle) -> $t $gen
            fn has($x: &$t, $p: u8) -> bool { $has }
        }
    };
}

kind!(R, ops::Range<u8>, |o| {
    let (a, b) = (any_u8(), any_u8());
    o.push(Some((a, true)), Some((b, false)));
    a..b
}, |x, t| x.contains(&t));
kind!(RI, ops::RangeInclusive<u8>, |o| {
    let (a, b) = (any_u8(), any_u8());
    o.push(Some((a, true)), Some((b, true)));
    a..=b
}, |x, t| x.contains(&t));
kind!(RF, ops::RangeFrom<u8>, |o| {
    let a = any_u8();
    o.push(Some((a, true)), None);
    a..
}, |x, t| x.contains(&t));
kind!(RT, ops::RangeTo<u8>, |o| {
    let a = any_u8();
    o.push(None, Some((a, false)));
    ..a
}, |x, t| x.contains(&t));
kind!(RTI, ops::RangeToInclusive<u8>, |o| {
    let a = any_u8();
    o.push(None, Some((a, true)));
    ..=a
}, |x, t| x.contains(&t));
kind!(RFULL, ops::RangeFull, |o| {
    o.push(None, None);
    ..
}, |_x, _t| true);
kind!(BR, BoundedRange<u8>, |o| {
    let (a, b) = (any_bound(), any_bound());
    o.push(Some(a), Some(b));
    BoundedRange::new(lb(a), ub(b))
}, |x, t| x.contains(t));
kind!(LBR, LowerBoundedRange<u8>, |o| {
    let a = any_bound();
    o.push(Some(a), None);
    LowerBoundedRange::new(lb(a))
}, |x, t| x.contains(t));
kind!(UBR, UpperBoundedRange<u8>, |o| {
    let a = any_bound();
    o.push(None, Some(a));
    UpperBoundedRange::new(ub(a))
}, |x, t| x.contains(t));
kind!(UR, UnboundedRange, |o| {
    o.push(None, None);
    UnboundedRange::new()
}, |x, t| x.contains(t));
kind!(ER, EmptyRange<u8>, |_o| { EmptyRange::new() }, |x, t| x.contains(t));

/// Between `0` and `k` non-empty, ascending, pairwise disjoint intervals, all above `floor` (if
/// any) in the sense that they do not overlap the interval ending there.
pub fn chain(o: &mut Oracle, k: u8, floor: Option<(u8, bool)>) -> u8 {
    let n = choose(k);
    let mut last = floor;
    for _ in 0..n {
        let (a, b) = (any_bound(), any_bound());
        if let Some(f) = last {
            assume(!room(Some(a), Some(f)));
        }
        assume(room(Some(a), Some(b)));
        o.push(Some(a), Some(b));
        last = Some(b);
    }
    n
}
/// The i-th interval (counted from `first`) as a range of the crate.
pub fn piece(o: &Oracle, i: usize) -> BoundedRange<u8> {
    BoundedRange::new(lb(o.c[i].lo.unwrap()), ub(o.c[i].hi.unwrap()))
}
/// Adds intervals first..first+n to a set, ascending or descending (the latter leaves a different
/// physical layout in the set's ring buffer).
macro_rules! fill {
    ($s:expr, $o:expr, $first:expr, $n:expr, $desc:expr) => {{
        let mut s = $s;
        let mut i = 0;
        while i < $n {
            let k = if $desc { $first + ($n - 1 - i) } else { $first + i };
            s = Rangetools::union(s, piece($o, k));
            i += 1;
        }
        s
    }};
}
pub(crate) use fill;

/// Sets with at most K intervals between their unbounded ends; DESC: insertion order.
pub struct BS<const K: u8, const DESC: bool>;
impl<const K: u8, const DESC: bool> Kind for BS<K, DESC> {
    type T = BoundedSet<u8>;
    fn gen(o: &mut Oracle) -> BoundedSet<u8> {
        let f = o.n;
        let n = chain(o, K, None) as usize;
        fill!(BoundedSet::empty(), o, f, n, DESC)
    }
    fn has(x: &Self::T, t: u8) -> bool {
        x.contains(t)
    }
}
pub struct LBS<const K: u8, const DESC: bool>;
impl<const K: u8, const DESC: bool> Kind for LBS<K, DESC> {
    type T = LowerBoundedSet<u8>;
    fn gen(o: &mut Oracle) -> LowerBoundedSet<u8> {
        let f = o.n;
        let n = chain(o, K, None) as usize;
        let a = any_bound();
        if n > 0 {
            assume(!room(Some(a), o.c[f + n - 1].hi));
        }
        o.push(Some(a), None);
        fill!(LowerBoundedSet::from(LowerBoundedRange::new(lb(a))), o, f, n, DESC)
    }
    fn has(x: &Self::T, t: u8) -> bool {
        x.contains(t)
    }
}
pub struct UBS<const K: u8, const DESC: bool>;
impl<const K: u8, const DESC: bool> Kind for UBS<K, DESC> {
    type T = UpperBoundedSet<u8>;
    fn gen(o: &mut Oracle) -> UpperBoundedSet<u8> {
        let a = any_bound();
        o.push(None, Some(a));
        let f = o.n;
        let n = chain(o, K, Some(a)) as usize;
        fill!(UpperBoundedSet::from(UpperBoundedRange::new(ub(a))), o, f, n, DESC)
    }
    fn has(x: &Self::T, t: u8) -> bool {
        x.contains(t)
    }
}
/// Unbounded set with gaps.
pub struct US<const K: u8, const DESC: bool>;
impl<const K: u8, const DESC: bool> Kind for US<K, DESC> {
    type T = UnboundedSet<u8>;
    fn gen(o: &mut Oracle) -> UnboundedSet<u8> {
        let a = any_bound();
        o.push(None, Some(a));
        let f = o.n;
        let n = chain(o, K, Some(a)) as usize;
        let b = any_bound();
        assume(!room(Some(b), o.c[o.n - 1].hi));
        o.push(Some(b), None);
        fill!(UnboundedSet::new(UpperBoundedRange::new(ub(a)), LowerBoundedRange::new(lb(b))), o, f, n, DESC)
    }
    fn has(x: &Self::T, t: u8) -> bool {
        x.contains(t)
    }
}
// The unbounded set without gaps.
kind!(USF, UnboundedSet<u8>, |o| {
    o.push(None, None);
    UnboundedSet::Full
}, |x, t| x.contains(t));

// ---- wide sets: exactly K pieces, the kinds of their bounds fixed by position ----------------
/// The i-th piece's bounds: [ ), [ ], ( ), ( ].
fn flavour(i: usize) -> (bool, bool) {
    (i % 4 < 2, i % 2 == 1)
}
/// K non-empty, ascending, pairwise disjoint intervals above `floor`.
pub fn wide(o: &mut Oracle, k: usize, floor: Option<(u8, bool)>) {
    let mut last = floor;
    for i in 0..k {
        let (x, y) = flavour(i);
        let (a, b) = ((any_u8(), x), (any_u8(), y));
        if let Some(f) = last {
            assume(!room(Some(a), Some(f)));
        }
        assume(room(Some(a), Some(b)));
        o.push(Some(a), Some(b));
        last = Some(b);
    }
}
/// Insertion orders: 0 ascending, 1 descending, 2 from the middle outwards.
macro_rules! fill3 {
    ($s:expr, $o:expr, $first:expr, $n:expr, $ord:expr) => {{
        let mut s = $s;
        for i in 0..$n {
            let k = match $ord {
                0 => i,
                1 => $n - 1 - i,
                _ => if i % 2 == 0 { $n / 2 + i / 2 } else { $n / 2 - 1 - i / 2 },
            };
            s = Rangetools::union(s, piece($o, $first + k));
        }
        s
    }};
}
pub struct WBS<const K: usize, const ORD: u8>;
impl<const K: usize, const ORD: u8> Kind for WBS<K, ORD> {
    type T = BoundedSet<u8>;
    fn gen(o: &mut Oracle) -> BoundedSet<u8> {
        wide(o, K, None);
        fill3!(BoundedSet::empty(), o, 0, K, ORD)
    }
    fn has(x: &Self::T, t: u8) -> bool {
        x.contains(t)
    }
}
pub struct WLBS<const K: usize, const ORD: u8>;
impl<const K: usize, const ORD: u8> Kind for WLBS<K, ORD> {
    type T = LowerBoundedSet<u8>;
    fn gen(o: &mut Oracle) -> LowerBoundedSet<u8> {
        wide(o, K, None);
        let a = (any_u8(), true);
        if K > 0 {
            assume(!room(Some(a), o.c[K - 1].hi));
        }
        o.push(Some(a), None);
        fill3!(LowerBoundedSet::from(LowerBoundedRange::new(lb(a))), o, 0, K, ORD)
    }
    fn has(x: &Self::T, t: u8) -> bool {
        x.contains(t)
    }
}
pub struct WUBS<const K: usize, const ORD: u8>;
impl<const K: usize, const ORD: u8> Kind for WUBS<K, ORD> {
    type T = UpperBoundedSet<u8>;
    fn gen(o: &mut Oracle) -> UpperBoundedSet<u8> {
        let a = (any_u8(), false);
        o.push(None, Some(a));
        wide(o, K, Some(a));
        fill3!(UpperBoundedSet::from(UpperBoundedRange::new(ub(a))), o, 1, K, ORD)
    }
    fn has(x: &Self::T, t: u8) -> bool {
        x.contains(t)
    }
}
pub struct WUS<const K: usize, const ORD: u8>;
impl<const K: usize, const ORD: u8> Kind for WUS<K, ORD> {
    type T = UnboundedSet<u8>;
    fn gen(o: &mut Oracle) -> UnboundedSet<u8> {
        let a = (any_u8(), false);
        o.push(None, Some(a));
        wide(o, K, Some(a));
        let b = (any_u8(), true);
        assume(!room(Some(b), o.c[K].hi));
        o.push(Some(b), None);
        fill3!(UnboundedSet::new(UpperBoundedRange::new(ub(a)), LowerBoundedRange::new(lb(b))), o, 1, K, ORD)
    }
    fn has(x: &Self::T, t: u8) -> bool {
        x.contains(t)
    }
}

// ---- long sets: K pieces of width 6 at every tenth value, shifted by an offset 0..=3 of the
// solver's choosing (or none), so that the other operand meets many pieces ----------------------
pub fn long(o: &mut Oracle, k: usize, shift: bool) -> u8 {
    let d = if shift { any_u8() } else { 0 };
    assume(d < 4);
    for i in 0..k {
        let (x, y) = flavour(i);
        let a = d + 10 * (i as u8 + 1);
        o.push(Some((a, x)), Some((a + 6, y)));
    }
    d
}
macro_rules! long_kind {
    ($n:ident, $t:ty, |$o:ident, $k:ident, $s:ident| $gen:expr) => {
        pub struct $n<const K: usize, const ORD: u8, const SHIFT: bool>;
        impl<const K: usize, const ORD: u8, const SHIFT: bool> Kind for $n<K, ORD, SHIFT> {
            type T = $t;
            fn gen($o: &mut Oracle) -> $t {
                let ($k, $s) = (K, SHIFT);
                let r = $gen;
                fill3!(r.0, $o, r.1, K, ORD)
            }
            fn has(x: &Self::T, t: u8) -> bool {
                x.contains(t)
            }
        }
    };
}
long_kind!(NBS, BoundedSet<u8>, |o, k, s| {
    long(o, k, s);
    (BoundedSet::empty(), 0)
});
long_kind!(NLBS, LowerBoundedSet<u8>, |o, k, s| {
    let d = long(o, k, s);
    let a = (d + 10 * (k as u8 + 1), true);
    o.push(Some(a), None);
    (LowerBoundedSet::from(LowerBoundedRange::new(lb(a))), 0)
});
long_kind!(NUBS, UpperBoundedSet<u8>, |o, k, s| {
    let a = (4, false);
    o.push(None, Some(a));
    long(o, k, s);
    (UpperBoundedSet::from(UpperBoundedRange::new(ub(a))), 1)
});
long_kind!(NUS, UnboundedSet<u8>, |o, k, s| {
    let a = (4, false);
    o.push(None, Some(a));
    let d = long(o, k, s);
    let b = (d + 10 * (k as u8 + 1), true);
    o.push(Some(b), None);
    (UnboundedSet::new(UpperBoundedRange::new(ub(a)), LowerBoundedRange::new(lb(b))), 1)
});

/// Membership, whatever type an operation returns.
pub trait Probe {
    fn probe(&self, t: u8) -> bool;
}
macro_rules! probe {
    ($($t:ty),*) => {$(
        impl Probe for $t {
            #[inline(always)]
            fn probe(&self, t: u8) -> bool { self.contains(t) }
        }
    )*};
}
probe!(
    rangetools::BoundedRange<u8>, rangetools::LowerBoundedRange<u8>, rangetools::UpperBoundedRange<u8>, rangetools::UnboundedRange, rangetools::EmptyRange<u8>,
    rangetools::BoundedSet<u8>, rangetools::LowerBoundedSet<u8>, rangetools::UpperBoundedSet<u8>, rangetools::UnboundedSet<u8>
);
macro_rules! probe_std {
    ($($t:ty),*) => {$(
        impl Probe for $t {
            #[inline(always)]
            fn probe(&self, t: u8) -> bool { core::ops::RangeBounds::contains(self, &t) }
        }
    )*};
}
probe_std!(
    core::ops::Range<u8>, core::ops::RangeInclusive<u8>, core::ops::RangeFrom<u8>, core::ops::RangeTo<u8>, core::ops::RangeToInclusive<u8>, core::ops::RangeFull
);
