//! Iterating the results of operations: the values come in strictly ascending order, every value
//! is a member, and no member is left out (an arbitrary member `t` never lies between two
//! consecutive values, below the first or above the last).
use crate::model::*;
use crate::sym::*;
use rangetools::*;

/// An iterator that has an end.
pub fn bounded<I: Iterator<Item = u8> + DoubleEndedIterator>(mut it: I, t: u8, has: impl Fn(u8) -> bool) {
    match choose(2) {
        // from the front
        0 => match it.next() {
            Some(v) => {
                check(has(v), 1);
                check(!(has(t) & (t < v)), 2);
                observe(v as u64);
            }
            None => check(!has(t), 3),
        },
        // from the back
        1 => match it.next_back() {
            Some(v) => {
                check(has(v), 4);
                check(!(has(t) & (t > v)), 5);
                observe(v as u64);
            }
            None => check(!has(t), 6),
        },
        // anywhere in the middle
        _ => {
            let k = any_u8();
            if let Some(v) = it.nth(k as usize) {
                check(has(v), 7);
                observe(v as u64);
                match it.next() {
                    Some(w) => {
                        check(has(w), 8);
                        check(v < w, 9);
                        check(!(has(t) & (v < t) & (t < w)), 10);
                    }
                    None => check(!(has(t) & (v < t)), 11),
                }
            }
        }
    }
}
/// Small values: the whole result, front to back, back to front, or from both ends in turn.
pub fn all<I: Iterator<Item = u8> + DoubleEndedIterator>(mut it: I, t: u8, has: impl Fn(u8) -> bool) {
    let mut seen = false;
    match choose(2) {
        0 => {}
        1 => {
            let mut last: Option<u8> = None;
            for v in it.rev() {
                check(has(v), 4);
                if let Some(l) = last {
                    check(l > v, 5);
                }
                last = Some(v);
                seen |= v == t;
            }
            check(seen == has(t), 6);
            return;
        }
        _ => {
            let (mut lo, mut hi): (Option<u8>, Option<u8>) = (None, None);
            let mut front = true;
            loop {
                let v = match if front { it.next() } else { it.next_back() } {
                    Some(v) => v,
                    None => break,
                };
                check(has(v), 7);
                check(lo.is_none_or(|l| l < v) & hi.is_none_or(|h| v < h), 8);
                *(if front { &mut lo } else { &mut hi }) = Some(v);
                front = !front;
                seen |= v == t;
            }
            check(seen == has(t), 9);
            return;
        }
    }
    let mut last: Option<u8> = None;
    for v in it {
        check(has(v), 1);
        if let Some(l) = last {
            check(l < v, 2);
        }
        last = Some(v);
        seen |= v == t;
    }
    check(seen == has(t), 3);
}
/// The first n values of a result that has no end.
pub fn prefix<I: Iterator<Item = u8> + Clone>(mut it: I, n: usize, t: u8, has: impl Fn(u8) -> bool) {
    let skip = choose(2);
    if skip > 0 {
        // skipping gives what single steps give
        let mut one = it.clone();
        for _ in 0..skip {
            one.next();
        }
        let w = one.next();
        check(w.is_some() & (it.nth(skip as usize) == w), 6);
        check(it.next() == one.next(), 7);
        return;
    }
    let mut last: Option<u8> = None;
    let mut k = 0;
    for v in it.take(n) {
        check(has(v), 1);
        match last {
            Some(l) => {
                check(l < v, 2);
                check(!(has(t) & (l < t) & (t < v)), 3);
            }
            None => check(!(has(t) & (t < v)), 4),
        }
        last = Some(v);
        k += 1;
    }
    check(k == n, 5);
}
macro_rules! prefix_union {
    ($m:expr, $n:expr, $A:ty, $B:ty) => {{
        let (a, oa, b, ob, t) = two!($A, $B);
        resiter::small(&oa, $m);
        resiter::small(&ob, $m);
        let u = Rangetools::union(a, b);
        resiter::prefix(u.into_iter(), $n, t, |v| oa.has(v) | ob.has(v));
    }};
}
macro_rules! prefix_inter {
    ($m:expr, $n:expr, $A:ty, $B:ty) => {{
        let (a, oa, b, ob, t) = two!($A, $B);
        resiter::small(&oa, $m);
        resiter::small(&ob, $m);
        let u = Rangetools::intersection(a, b);
        resiter::prefix(u.into_iter(), $n, t, |v| oa.has(v) & ob.has(v));
    }};
}
macro_rules! prefix_compl {
    ($m:expr, $n:expr, $A:ty) => {{
        let (a, oa, t) = one!($A);
        resiter::small(&oa, $m);
        let u = Rangetools::complement(a);
        resiter::prefix(u.into_iter(), $n, t, |v| !oa.has(v));
    }};
}
macro_rules! all_union {
    ($m:expr, $A:ty, $B:ty) => {{
        let (a, oa, b, ob, t) = two!($A, $B);
        resiter::small(&oa, $m);
        resiter::small(&ob, $m);
        let u = Rangetools::union(a, b);
        resiter::all(u.into_iter(), t, |v| oa.has(v) | ob.has(v));
    }};
}
macro_rules! all_inter {
    ($m:expr, $A:ty, $B:ty) => {{
        let (a, oa, b, ob, t) = two!($A, $B);
        resiter::small(&oa, $m);
        resiter::small(&ob, $m);
        let u = Rangetools::intersection(a, b);
        resiter::all(u.into_iter(), t, |v| oa.has(v) & ob.has(v));
    }};
}
macro_rules! all_compl {
    ($m:expr, $A:ty) => {{
        let (a, oa, t) = one!($A);
        resiter::small(&oa, $m);
        let u = Rangetools::complement(a);
        resiter::all(u.into_iter(), t, |v| !oa.has(v));
    }};
}
pub fn small(o: &Oracle, m: u8) {
    for i in 0..o.n {
        if let Some((v, _)) = o.c[i].lo {
            assume(v < m);
        }
        if let Some((v, _)) = o.c[i].hi {
            assume(v < m);
        }
    }
}
macro_rules! iter_union {
    ($A:ty, $B:ty) => {{
        let (a, oa, b, ob, t) = two!($A, $B);
        let u = Rangetools::union(a, b);
        resiter::bounded(u.into_iter(), t, |v| oa.has(v) | ob.has(v));
    }};
}
macro_rules! iter_inter {
    ($A:ty, $B:ty) => {{
        let (a, oa, b, ob, t) = two!($A, $B);
        let u = Rangetools::intersection(a, b);
        resiter::bounded(u.into_iter(), t, |v| oa.has(v) & ob.has(v));
    }};
}
/// The only complement that can be iterated.
macro_rules! iter_compl {
    ($A:ty) => {{
        let (a, oa, t) = one!($A);
        let u = Rangetools::complement(a);
        resiter::bounded(u.into_iter(), t, |v| !oa.has(v));
    }};
}
pub(crate) use {prefix_compl, prefix_inter, prefix_union, all_compl, all_inter, all_union, iter_compl, iter_inter, iter_union};
