//! Conversions between range types, and the meaning of each type.
use crate::elem::*;
use crate::sym::*;
use rangetools::*;
use std::ops;

/// x lies above the lower bound / below the upper bound.
#[inline(always)]
fn above<T: Ord>(x: &T, a: &T, inc: bool) -> bool {
    (x > a) | (inc & (x == a))
}
#[inline(always)]
fn below<T: Ord>(x: &T, b: &T, inc: bool) -> bool {
    (x < b) | (inc & (x == b))
}
fn lbt<T>(a: T, i: bool) -> LowerBound<T> {
    if i { LowerBound::included(a) } else { LowerBound::excluded(a) }
}
fn ubt<T>(a: T, i: bool) -> UpperBound<T> {
    if i { UpperBound::included(a) } else { UpperBound::excluded(a) }
}

/// Membership, standard -> crate, to_inner, to_set, `From` into sets: every value keeps its
/// membership.
pub fn into_crate<T: El>() {
    let (a, b, t) = (T::any(), T::any(), T::any());
    let (ai, bi) = (any_bool(), any_bool());
    let two = above(&t, &a, true) & below(&t, &b, false);
    let twoi = above(&t, &a, true) & below(&t, &b, true);
    let lo = above(&t, &a, true);
    let up = below(&t, &b, false);
    let upi = below(&t, &b, true);
    let gen = above(&t, &a, ai) & below(&t, &b, bi);
    let (glo, gup) = (above(&t, &a, ai), below(&t, &b, bi));
    match choose(11) {
        0 => {
            check(BoundedRange::from(a..b).contains(t) == two, 1);
            check((a..b).to_inner().contains(t) == two, 2);
            check((a..b).to_set().contains(t) == two, 3);
        }
        1 => {
            check(BoundedRange::from(a..=b).contains(t) == twoi, 4);
            check((a..=b).to_inner().contains(t) == twoi, 5);
            check((a..=b).to_set().contains(t) == twoi, 6);
        }
        2 => {
            check(LowerBoundedRange::from(a..).contains(t) == lo, 7);
            check((a..).to_inner().contains(t) == lo, 8);
            check((a..).to_set().contains(t) == lo, 9);
        }
        3 => {
            check(UpperBoundedRange::from(..b).contains(t) == up, 10);
            check((..b).to_inner().contains(t) == up, 11);
            check((..b).to_set().contains(t) == up, 12);
        }
        4 => {
            check(UpperBoundedRange::from(..=b).contains(t) == upi, 13);
            check((..=b).to_inner().contains(t) == upi, 14);
            check((..=b).to_set().contains(t) == upi, 15);
        }
        5 => {
            check(UnboundedRange::from(..).contains(t), 16);
            check((..).to_inner().contains(t), 17);
            check(UnboundedSet::<T>::from(UnboundedRange::new()).contains(t), 18);
            let s: UnboundedSet<T> = UnboundedSet::from(UnboundedRange::from(ops::RangeFull::from(UnboundedRange::new())));
            check(s.contains(t), 19);
        }
        6 => {
            let r = BoundedRange::new(lbt(a, ai), ubt(b, bi));
            check(r.contains(t) == gen, 20);
            check(r.to_inner().contains(t) == gen, 21);
            check(r.to_set().contains(t) == gen, 22);
            check(BoundedSet::from(r).contains(t) == gen, 23);
            check(r.to_set().to_set().contains(t) == gen, 24);
            check(BoundedSet::from(r).to_inner().contains(t) == gen, 25);
        }
        7 => {
            let r = LowerBoundedRange::new(lbt(a, ai));
            check(r.contains(t) == glo, 26);
            check(r.to_inner().contains(t) == glo, 27);
            check(r.to_set().contains(t) == glo, 28);
            check(LowerBoundedSet::from(r).contains(t) == glo, 29);
            check(LowerBoundedSet::from(r).to_set().contains(t) == glo, 30);
            check(LowerBoundedSet::from(r).to_inner().contains(t) == glo, 31);
        }
        8 => {
            let r = UpperBoundedRange::new(ubt(b, bi));
            check(r.contains(t) == gup, 32);
            check(r.to_inner().contains(t) == gup, 33);
            check(r.to_set().contains(t) == gup, 34);
            check(UpperBoundedSet::from(r).contains(t) == gup, 35);
            check(UpperBoundedSet::from(r).to_set().contains(t) == gup, 36);
            check(UpperBoundedSet::from(r).to_inner().contains(t) == gup, 37);
        }
        9 => {
            // an unbounded set from its two ends, in any arrangement
            let s = UnboundedSet::new(UpperBoundedRange::new(ubt(b, bi)), LowerBoundedRange::new(lbt(a, ai)));
            check(s.contains(t) == (gup | glo), 38);
            check(s.clone().to_set().contains(t) == (gup | glo), 39);
            check(s.to_inner().contains(t) == (gup | glo), 40);
        }
        10 => {
            check(!EmptyRange::<T>::new().contains(t), 41);
            check(!EmptyRange::<T>::default().contains(t), 42);
            check(!EmptyRange::<T>::new().to_inner().contains(t), 43);
            check(!EmptyRange::<T>::new().to_set().contains(t), 44);
            check(!BoundedSet::<T>::empty().contains(t), 45);
        }
        _ => {
            // the parts of a bound
            let l = lbt(a, ai);
            let u = ubt(b, bi);
            check(LowerBound::from(l.to_bound()) == l, 46);
            check(UpperBound::from(u.to_bound()) == u, 47);
            check(l.to_bound() == if ai { Bound::Included(a) } else { Bound::Excluded(a) }, 48);
            check(u.to_bound() == if bi { Bound::Included(b) } else { Bound::Excluded(b) }, 49);
        }
    }
}

/// crate -> standard: the result has the same members; it panics only if the standard type cannot
/// express them.
pub fn into_std<T: El>() {
    let (a, b, t) = (T::any(), T::any(), T::any());
    let (ai, bi) = (any_bool(), any_bool());
    let gen = above(&t, &a, ai) & below(&t, &b, bi);
    let (glo, gup) = (above(&t, &a, ai), below(&t, &b, bi));
    let (at_max, at_min) = (b.ix() == T::MAXI, b.ix() == T::MINI);
    match choose(6) {
        0 => {
            // ..=MAX has no half-open equivalent, unless the range is empty anyway
            panic_ok(bi & at_max);
            let r = ops::Range::<T>::from(BoundedRange::new(lbt(a, ai), ubt(b, bi)));
            panic_ok(false);
            check(((t >= r.start) & (t < r.end)) == gen, 1);
        }
        1 => {
            let r = ops::RangeInclusive::<T>::from(BoundedRange::new(lbt(a, ai), ubt(b, bi)));
            check(((t >= *r.start()) & (t <= *r.end())) == gen, 2);
            check(r.contains(&t) == gen, 3);
        }
        2 => {
            panic_ok(!ai & (a.ix() == T::MAXI));
            let r = ops::RangeFrom::<T>::from(LowerBoundedRange::new(lbt(a, ai)));
            panic_ok(false);
            check((t >= r.start) == glo, 4);
        }
        3 => {
            panic_ok(bi & at_max);
            let r = ops::RangeTo::<T>::from(UpperBoundedRange::new(ubt(b, bi)));
            panic_ok(false);
            check((t < r.end) == gup, 5);
        }
        4 => {
            panic_ok(!bi & at_min);
            let r = ops::RangeToInclusive::<T>::from(UpperBoundedRange::new(ubt(b, bi)));
            panic_ok(false);
            check((t <= r.end) == gup, 6);
        }
        5 => {
            let r = ops::Range::<T>::from(EmptyRange::<T>::new());
            check(!((t >= r.start) & (t < r.end)), 7);
        }
        _ => {
            let r = ops::RangeInclusive::<T>::from(EmptyRange::<T>::new());
            check(!((t >= *r.start()) & (t <= *r.end())), 8);
        }
    }
}

/// Order of bounds: lower bounds by the ranges they begin, upper bounds by the ranges they end.
pub fn bound_order<T: El>() {
    use std::cmp::Ordering::*;
    let (a, b) = (T::any(), T::any());
    let (ai, bi) = (coin(), coin());
    // position of a bound on the line: twice the value, shifted by the side it leaves out
    let low = match a.cmp(&b) {
        Less => Less,
        Greater => Greater,
        Equal => match (ai, bi) {
            (true, false) => Less,
            (false, true) => Greater,
            _ => Equal,
        },
    };
    let up = match a.cmp(&b) {
        Less => Less,
        Greater => Greater,
        Equal => match (ai, bi) {
            (true, false) => Greater,
            (false, true) => Less,
            _ => Equal,
        },
    };
    let (l, m) = (lbt(a, ai), lbt(b, bi));
    let (u, v) = (ubt(a, ai), ubt(b, bi));
    match choose(5) {
        0 => {
            check(l.cmp(&m) == low, 1);
            check(l.partial_cmp(&m) == Some(low), 2);
            check(m.cmp(&l) == low.reverse(), 3);
            check((l == m) == (low == Equal), 4);
        }
        1 => {
            check((l < m) == (low == Less), 5);
            check((l <= m) == (low != Greater), 6);
            check((l > m) == (low == Greater), 7);
            check((l >= m) == (low != Less), 8);
            check(l.min(m) == if low == Greater { m } else { l }, 9);
            check(l.max(m) == if low == Less { m } else { l }, 10);
        }
        2 => {
            check(u.cmp(&v) == up, 11);
            check(u.partial_cmp(&v) == Some(up), 12);
            check(v.cmp(&u) == up.reverse(), 13);
            check((u == v) == (up == Equal), 14);
        }
        3 => {
            check((u < v) == (up == Less), 15);
            check((u <= v) == (up != Greater), 16);
            check((u > v) == (up == Greater), 17);
            check((u >= v) == (up != Less), 18);
            check(u.min(v) == if up == Greater { v } else { u }, 19);
            check(u.max(v) == if up == Less { v } else { u }, 20);
        }
        4 => {
            // every value: the smaller lower bound and the larger upper bound let it through
            let t = T::any();
            let inl = LowerBoundedRange::new(l).contains(t);
            let inm = LowerBoundedRange::new(m).contains(t);
            check(LowerBoundedRange::new(l.min(m)).contains(t) == (inl | inm), 21);
            check(LowerBoundedRange::new(l.max(m)).contains(t) == (inl & inm), 22);
            let inu = UpperBoundedRange::new(u).contains(t);
            let inv = UpperBoundedRange::new(v).contains(t);
            check(UpperBoundedRange::new(u.max(v)).contains(t) == (inu | inv), 23);
            check(UpperBoundedRange::new(u.min(v)).contains(t) == (inu & inv), 24);
        }
        _ => {
            // flipping and mapping
            let x = if ai { Bound::Included(a) } else { Bound::Excluded(a) };
            let f = x.flipped();
            check(f == if ai { Bound::Excluded(a) } else { Bound::Included(a) }, 25);
            check(f != x, 26);
            check(f.flipped() == x, 27);
            let g = |_: T| b;
            check(x.map(g) == if ai { Bound::Included(b) } else { Bound::Excluded(b) }, 28);
            check(l.map(g) == lbt(b, ai), 29);
            check(u.map(g) == ubt(b, ai), 30);
            check(l.to_bound() == x, 31);
            check(u.to_bound() == x, 32);
        }
    }
}
/// Three bounds: the order is transitive.
pub fn bound_trans<T: El>() {
    let (a, b, c) = (T::any(), T::any(), T::any());
    let (ai, bi, ci) = (coin(), coin(), coin());
    if coin() {
        let (x, y, z) = (lbt(a, ai), lbt(b, bi), lbt(c, ci));
        check(!((x <= y) & (y <= z)) | (x <= z), 1);
        check(!((x < y) & (y <= z)) | (x < z), 2);
    } else {
        let (x, y, z) = (ubt(a, ai), ubt(b, bi), ubt(c, ci));
        check(!((x <= y) & (y <= z)) | (x <= z), 3);
        check(!((x < y) & (y <= z)) | (x < z), 4);
    }
}
/// Element types whose order is partial: incomparable values make incomparable bounds.
#[derive(Clone, Copy, PartialEq)]
pub struct Part(u8);
impl PartialOrd for Part {
    fn partial_cmp(&self, o: &Part) -> Option<std::cmp::Ordering> {
        if (self.0 ^ o.0) & 1 == 1 {
            None
        } else {
            self.0.partial_cmp(&o.0)
        }
    }
}
pub fn bound_partial() {
    let (a, b) = (Part(any_u8()), Part(any_u8()));
    let (ai, bi) = (coin(), coin());
    let c = a.partial_cmp(&b);
    let l = lbt(a, ai).partial_cmp(&lbt(b, bi));
    let u = ubt(a, ai).partial_cmp(&ubt(b, bi));
    if c.is_none() {
        check(l.is_none(), 1);
        check(u.is_none(), 2);
    } else if c != Some(std::cmp::Ordering::Equal) {
        check(l == c, 3);
        check(u == c, 4);
    } else {
        use std::cmp::Ordering::*;
        check(l == Some(if ai == bi { Equal } else if ai { Less } else { Greater }), 5);
        check(u == Some(if ai == bi { Equal } else if ai { Greater } else { Less }), 6);
    }
}

/// A standard inclusive range that was partly iterated converts to what is left of it.  (One that
/// ran into the type's last value is flagged as used up; what its ends are then is left open by the
/// standard library, so it is not asked about.)
pub fn used<T: El>()
where
    ops::RangeInclusive<T>: DoubleEndedIterator<Item = T>,
{
    let (a, b, t) = (T::any(), T::any(), T::any());
    let mut r = a..=b;
    for _ in 0..2 {
        match choose(4) {
            0 => drop(r.next()),
            1 => drop(r.next_back()),
            2 => drop(r.nth(any_u64() as usize)),
            _ => drop(r.nth_back(any_u64() as usize)),
        }
    }
    assume(matches!(ops::RangeBounds::end_bound(&r), ops::Bound::Included(_)));
    let want = r.contains(&t);
    check(BoundedRange::from(r.clone()).contains(t) == want, 1);
    check(r.clone().to_inner().contains(t) == want, 2);
    check(r.clone().to_set().contains(t) == want, 3);
    let empty = ops::RangeInclusive::is_empty(&r);
    check(Rangetools::is_empty(&r) == empty, 4);
    check(BoundedRange::from(r).is_empty() == empty, 5);
}
