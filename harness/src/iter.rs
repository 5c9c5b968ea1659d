//! Iterator properties against a positional model.
use crate::elem::*;
use crate::sym::*;
use rangetools::*;
use std::iter::FusedIterator;

pub fn any_range<T: El>() -> (BoundedRange<T>, Span<T::I>) {
    let (a, ai, b, bi) = (T::any(), coin(), T::any(), coin());
    (mk(a, ai, b, bi), Span::new::<T>(a, ai, b, bi))
}
pub fn mk<T: El>(a: T, ai: bool, b: T, bi: bool) -> BoundedRange<T> {
    BoundedRange::new(
        if ai { LowerBound::included(a) } else { LowerBound::excluded(a) },
        if bi { UpperBound::included(b) } else { UpperBound::excluded(b) },
    )
}

/// The values still to be produced: indices lo..=hi, or nothing.
#[derive(Clone, Copy)]
pub struct Span<I> {
    pub lo: I,
    pub hi: I,
    pub empty: bool,
}
impl<I: Ix> Span<I> {
    pub fn new<T: El<I = I>>(a: T, ai: bool, b: T, bi: bool) -> Span<I> {
        let (a, b) = (a.ix(), b.ix());
        let no = (!ai & (a == T::MAXI)) | (!bi & (b == T::MINI));
        let lo = a.plus(!ai as u64);
        let hi = b.minus(!bi as u64);
        Span { lo, hi, empty: no | (lo > hi) }
    }
    /// n-th from the front
    pub fn nth(&mut self, n: u64) -> Option<I> {
        if self.empty | !self.hi.diff(self.lo).covers(n) {
            self.empty = true;
            return None;
        }
        let r = self.lo.plus(n);
        self.empty = r == self.hi;
        self.lo = r.plus(1);
        Some(r)
    }
    pub fn nth_back(&mut self, n: u64) -> Option<I> {
        if self.empty | !self.hi.diff(self.lo).covers(n) {
            self.empty = true;
            return None;
        }
        let r = self.hi.minus(n);
        self.empty = r == self.lo;
        self.hi = r.minus(1);
        Some(r)
    }
    /// number of values, if it can be expressed
    pub fn size(&self) -> Option<usize> {
        if self.empty {
            return Some(0);
        }
        self.hi.diff(self.lo).count()
    }
    pub fn first(&self) -> Option<I> {
        if self.empty { None } else { Some(self.lo) }
    }
    pub fn last(&self) -> Option<I> {
        if self.empty { None } else { Some(self.hi) }
    }
}

pub fn same<T: El>(got: Option<T>, want: Option<T::I>, id: u32) {
    match (got, want) {
        (Some(g), Some(w)) => {
            check(g.ix() == w, id);
            observe(w.low());
        }
        (None, None) => {}
        _ => check(false, id),
    }
}

/// Everything one can ask an iterator whose remaining values are `m`.
fn ends<T: El, I: ExactSizeIterator<Item = T> + DoubleEndedIterator + FusedIterator + Clone>(it: &I, m: &Span<T::I>) {
    match choose(6) {
        0 => {
            let (lo, hi) = it.size_hint();
            match m.size() {
                Some(n) => {
                    check(lo == n, 20);
                    check(hi == Some(n), 21);
                }
                None => check(hi.is_none(), 23),
            }
        }
        1 => same(it.clone().last(), m.last(), 24),
        2 => same(it.clone().min(), m.first(), 25),
        3 => same(it.clone().max(), m.last(), 26),
        4 => {
            if let Some(n) = m.size() {
                check(it.clone().count() == n, 27);
            }
        }
        5 => {
            if let Some(n) = m.size() {
                check(it.len() == n, 22);
            }
        }
        _ => {
            if m.empty {
                let mut a = it.clone();
                check(a.next().is_none(), 28);
                check(a.next_back().is_none(), 29);
                check(a.next().is_none(), 30);
            }
        }
    }
}

/// L arbitrary iterator calls on an arbitrary bounded range.
pub fn range_history<T: El>(l: u32) {
    let (r, mut m) = any_range::<T>();
    let mut it = r.into_iter();
    for i in 0..l {
        match choose(3) {
            0 => same(it.next(), m.nth(0), 1 + i),
            1 => same(it.next_back(), m.nth_back(0), 5 + i),
            2 => {
                let n = any_u64();
                same(it.nth(n as usize), m.nth(n), 9 + i)
            }
            _ => {
                let n = any_u64();
                same(it.nth_back(n as usize), m.nth_back(n), 13 + i)
            }
        }
    }
    ends(&it, &m);
}

/// Whole traversals (loops, folds, in both directions) of ranges with at most `max` values.
pub fn range_walk<T: El>(max: usize) {
    let (r, m) = any_range::<T>();
    let n = match m.size() {
        Some(n) => n,
        None => usize::MAX,
    };
    assume(n <= max);
    match choose(3) {
        0 => {
            let mut k = 0;
            for v in r {
                check(v.ix() == m.lo.plus(k as u64), 1);
                k += 1;
                check(k <= n, 2);
            }
            check(k == n, 3);
        }
        1 => {
            let mut k = 0;
            for v in r.into_iter().rev() {
                check(v.ix() == m.hi.minus(k as u64), 4);
                k += 1;
            }
            check(k == n, 5);
        }
        2 => {
            let k = r.into_iter().fold(0usize, |k, v| {
                check(v.ix() == m.lo.plus(k as u64), 6);
                k + 1
            });
            check(k == n, 7);
        }
        _ => {
            let k = r.into_iter().rfold(0usize, |k, v| {
                check(v.ix() == m.hi.minus(k as u64), 8);
                k + 1
            });
            check(k == n, 9);
        }
    }
}

/// Empty ranges produce nothing.
pub fn empty_walk<T: El>() {
    let e = EmptyRange::<T>::new();
    let mut it = e.into_iter();
    check(it.next().is_none(), 1);
    check(it.next_back().is_none(), 2);
    check(it.size_hint() == (0, Some(0)), 3);
}

/// Up to `k` ascending disjoint ranges, as a set and as a list of spans.
pub const MAXP: usize = 12;
pub struct Pieces<I> {
    pub n: usize,
    pub s: [Span<I>; MAXP],
}
impl<I: Ix> Pieces<I> {
    /// Total number of values, if it can be expressed.
    pub fn size(&self) -> Option<usize> {
        let mut t = 0usize;
        for i in 0..self.n {
            t = t.checked_add(self.s[i].size()?)?;
        }
        Some(t)
    }
    /// Take n values from the front (back) and then one more.
    pub fn nth(&mut self, fwd: bool, mut n: u64) -> Option<I> {
        for j in 0..self.n {
            let s = &mut self.s[if fwd { j } else { self.n - 1 - j }];
            if s.empty {
                continue;
            }
            let d = s.hi.diff(s.lo);
            if d.covers(n) {
                return if fwd { s.nth(n) } else { s.nth_back(n) };
            }
            s.empty = true;
            n = n.wrapping_sub(d.low()).wrapping_sub(1);
        }
        None
    }
    /// As `nth` from the front; what is left of n if there are not enough values.
    pub fn nth_or_rest(&mut self, mut n: u64) -> Result<I, u64> {
        for j in 0..self.n {
            let s = &mut self.s[j];
            if s.empty {
                continue;
            }
            let d = s.hi.diff(s.lo);
            if d.covers(n) {
                return s.nth(n).ok_or(0);
            }
            s.empty = true;
            n = n.wrapping_sub(d.low()).wrapping_sub(1);
        }
        Err(n)
    }
    pub fn end(&self, fwd: bool) -> Option<I> {
        for j in 0..self.n {
            let s = &self.s[if fwd { j } else { self.n - 1 - j }];
            if !s.empty {
                return Some(if fwd { s.lo } else { s.hi });
            }
        }
        None
    }
}
pub fn any_set<T: El>(k: u8, desc: bool) -> (BoundedSet<T>, Pieces<T::I>, Option<(T, bool)>) {
    let n = choose(k) as usize;
    let e = T::default();
    let mut raw = [(e, false, e, false); MAXP];
    let mut p = Pieces { n, s: [Span { lo: T::MINI, hi: T::MINI, empty: true }; MAXP] };
    let mut prev: Option<(T, bool)> = None;
    for i in 0..n {
        let (a, ai, b, bi) = (T::any(), coin(), T::any(), coin());
        if let Some((e, ei)) = prev {
            assume((e < a) | ((e == a) & !(ei & ai)));
        }
        assume((a < b) | ((a == b) & ai & bi));
        raw[i] = (a, ai, b, bi);
        p.s[i] = Span::new::<T>(a, ai, b, bi);
        prev = Some((b, bi));
    }
    let mut s = BoundedSet::empty();
    for i in 0..n {
        let r = raw[if desc { n - 1 - i } else { i }];
        s = Rangetools::union(s, mk(r.0, r.1, r.2, r.3));
    }
    (s, p, prev)
}

/// Exactly n pieces whose bounds' kinds are fixed by position (starting at `f`): deeper, fewer paths.
pub fn wide_set<T: El>(n: usize, desc: bool, f: usize) -> (BoundedSet<T>, Pieces<T::I>, Option<(T, bool)>) {
    let e = T::default();
    let mut raw = [(e, false, e, false); MAXP];
    let mut p = Pieces { n, s: [Span { lo: T::MINI, hi: T::MINI, empty: true }; MAXP] };
    let mut prev: Option<(T, bool)> = None;
    for i in 0..n {
        let (ai, bi) = ((i + f) % 4 < 2, (i + f) % 2 == 1);
        let (a, b) = (T::any(), T::any());
        if let Some((e, ei)) = prev {
            assume((e < a) | ((e == a) & !(ei & ai)));
        }
        assume((a < b) | ((a == b) & ai & bi));
        raw[i] = (a, ai, b, bi);
        p.s[i] = Span::new::<T>(a, ai, b, bi);
        prev = Some((b, bi));
    }
    let mut s = BoundedSet::empty();
    for i in 0..n {
        let r = raw[if desc { n - 1 - i } else { i }];
        s = Rangetools::union(s, mk(r.0, r.1, r.2, r.3));
    }
    (s, p, prev)
}

/// n concrete pieces of four values each.
pub fn long_set(n: usize, desc: bool) -> (BoundedSet<u8>, Pieces<u8>, Option<(u8, bool)>) {
    let mut p = Pieces { n, s: [Span { lo: 0, hi: 0, empty: true }; MAXP] };
    let mut s = BoundedSet::empty();
    for i in 0..n {
        let j = if desc { n - 1 - i } else { i };
        let a = 10 * j as u8;
        p.s[j] = Span::new::<u8>(a, true, a + 3, true);
        s = Rangetools::union(s, mk(a, true, a + 3, true));
    }
    (s, p, if n > 0 { Some((10 * (n as u8 - 1) + 3, true)) } else { None })
}
pub fn long_history(n: usize, desc: bool, l: u32) {
    let (s, p, _) = long_set(n, desc);
    history(s, p, l);
}
pub fn long_lower_history(n: usize, desc: bool, l: u32) {
    lower_history(long_set(n, desc), true, l);
}

/// L arbitrary iterator calls on an arbitrary bounded set, then one arbitrary question.
pub fn set_history<T: El>(k: u8, desc: bool, l: u32) {
    let (s, p, _) = any_set::<T>(k, desc);
    history(s, p, l);
}
pub fn wide_history<T: El>(n: usize, desc: bool, f: usize, l: u32) {
    let (s, p, _) = wide_set::<T>(n, desc, f);
    history(s, p, l);
}
fn history<T: El>(s: BoundedSet<T>, mut p: Pieces<T::I>, l: u32) {
    let mut it = s.into_iter();
    for i in 0..l {
        match choose(3) {
            0 => same(it.next(), p.nth(true, 0), 1 + i),
            1 => same(it.next_back(), p.nth(false, 0), 5 + i),
            2 => {
                let n = any_u64();
                same(it.nth(n as usize), p.nth(true, n), 9 + i)
            }
            _ => {
                let n = any_u64();
                same(it.nth_back(n as usize), p.nth(false, n), 13 + i)
            }
        }
    }
    match choose(6) {
        0 => {
            let (lo, hi) = it.size_hint();
            match p.size() {
                Some(n) => {
                    check(lo == n, 20);
                    check(hi == Some(n), 21);
                }
                None => check(hi.is_none(), 22),
            }
        }
        1 => {
            // `last` may walk through everything that is left (see set_last for more)
            assume(match p.size() {
                Some(n) => n <= 4,
                None => false,
            });
            same(it.last(), p.end(false), 23)
        }
        2 => same(it.clone().min(), p.end(true), 24),
        3 => same(it.max(), p.end(false), 25),
        4 => {
            if let Some(n) = p.size() {
                check(it.count() == n, 26);
            }
        }
        5 => {
            if let Some(n) = p.size() {
                check(it.clone().len() == n, 27);
            }
        }
        _ => {
            if p.end(true).is_none() {
                check(it.next().is_none(), 28);
                check(it.next_back().is_none(), 29);
                check(it.next().is_none(), 30);
            }
        }
    }
}

/// The last value of a set of any size, fresh or after one step.
pub fn set_last<T: El>(n: usize, desc: bool, f: usize) {
    let (s, mut p, _) = wide_set::<T>(n, desc, f);
    let mut it = s.into_iter();
    match choose(2) {
        0 => {}
        1 => same(it.next(), p.nth(true, 0), 1),
        _ => same(it.next_back(), p.nth(false, 0), 2),
    }
    same(it.last(), p.end(false), 3);
}

/// Whole traversals of sets with at most `max` values.
pub fn set_walk<T: El>(k: u8, desc: bool, max: usize) {
    let (s, p, _) = any_set::<T>(k, desc);
    let n = match p.size() {
        Some(n) => n,
        None => usize::MAX,
    };
    assume(n <= max);
    match choose(3) {
        0 => {
            let mut p = p;
            for v in s {
                same(Some(v), p.nth(true, 0), 1);
            }
            check(p.end(true).is_none(), 2);
        }
        1 => {
            let mut p = p;
            for v in s.into_iter().rev() {
                same(Some(v), p.nth(false, 0), 3);
            }
            check(p.end(true).is_none(), 4);
        }
        2 => {
            let p = s.into_iter().fold(p, |mut p, v| {
                same(Some(v), p.nth(true, 0), 5);
                p
            });
            check(p.end(true).is_none(), 6);
        }
        _ => {
            let p = s.into_iter().rfold(p, |mut p, v| {
                same(Some(v), p.nth(false, 0), 7);
                p
            });
            check(p.end(true).is_none(), 8);
        }
    }
}

/// The values a range without an upper bound still has to produce: everything from `at`.
pub struct Tail<I: Ix> {
    at: I,
    room: I::D,
}

/// L calls on a range without an upper bound.  Like the standard library's unbounded ranges,
/// producing a value also steps past it, so producing the last value of the type overflows:
/// a panic with overflow checks (`strict`), anything without.
pub fn from_history<T: El>(l: u32, strict: bool) {
    let (a, ai) = (T::any(), coin());
    let r = LowerBoundedRange::new(if ai { LowerBound::included(a) } else { LowerBound::excluded(a) });
    let none = !ai & (a.ix() == T::MAXI);
    panic_ok(none);
    let mut it = r.into_iter();
    panic_ok(false);
    if none {
        // an iterator over no value at all: building it may panic, and it has nothing to produce
        panic_ok(true);
        check((it.next().is_none()) | !strict, 1);
        return;
    }
    let mut m = Tail { at: a.ix().plus(!ai as u64), room: T::MAXI.diff(a.ix()).less(!ai as u64) };
    for i in 0..l {
        let op = choose(1);
        let n = if op == 1 { any_u64() } else { 0 };
        let over = !m.room.covers(n) | (m.room == Dx::from(n));
        panic_ok(over);
        let got = if op == 0 { it.next() } else { it.nth(n as usize) };
        panic_ok(false);
        if over {
            // the last value itself may come out; beyond it there is nothing to return
            let last = m.room.covers(n);
            match got {
                Some(v) if last => check(v.ix() == T::MAXI, 14 + i),
                _ => check(!strict, 2 + i),
            }
            return;
        }
        same(got, Some(m.at.plus(n)), 6 + i);
        m.at = m.at.plus(n).plus(1);
        m.room = m.room.less(n).less(1);
    }
    check(it.size_hint().1.is_none(), 10);
    if m.room != Dx::from(0) {
        same(it.clone().min(), Some(m.at), 11);
    }
}

/// L calls on a set without an upper bound, away from the end of the type.
pub fn lower_set_history<T: El>(k: u8, desc: bool, l: u32) {
    let x = any_set::<T>(k, desc);
    lower_history(x, coin(), l);
}
pub fn wide_lower_history<T: El>(n: usize, desc: bool, f: usize, l: u32) {
    let x = wide_set::<T>(n, desc, f);
    lower_history(x, f % 2 == 0, l);
}
fn lower_history<T: El>((s, mut p, prev): (BoundedSet<T>, Pieces<T::I>, Option<(T, bool)>), ai: bool, l: u32) {
    let a = T::any();
    if let Some((e, ei)) = prev {
        assume((e < a) | ((e == a) & !(ei & ai)));
    }
    assume(ai | (a.ix() != T::MAXI));
    let mut m = Tail { at: a.ix().plus(!ai as u64), room: T::MAXI.diff(a.ix()).less(!ai as u64) };
    let s = Rangetools::union(s, LowerBoundedRange::new(if ai { LowerBound::included(a) } else { LowerBound::excluded(a) }));
    let mut it = s.into_iter();
    for i in 0..l {
        let op = choose(1);
        let n = if op == 1 { any_u64() } else { 0 };
        let want = match p.nth_or_rest(n) {
            Ok(v) => v,
            Err(n) => {
                // stay inside the type
                assume(m.room.covers(n) & (m.room != Dx::from(n)));
                let v = m.at.plus(n);
                m.at = v.plus(1);
                m.room = m.room.less(n).less(1);
                v
            }
        };
        let got = if op == 0 { it.next() } else { it.nth(n as usize) };
        same(got, Some(want), 1 + i);
    }
    if choose(1) == 0 {
        check(it.size_hint().1.is_none(), 5);
    } else {
        match p.end(true) {
            Some(v) => same(it.clone().min(), Some(v), 6),
            None if m.room != Dx::from(0) => same(it.min(), Some(m.at), 7),
            _ => {}
        }
    }
}
