//! Equality, hashing, cloning.
use crate::model::*;
use crate::sym::*;
use rangetools::*;
use std::hash::{Hash, Hasher};

/// Records everything written to it.
#[derive(Clone)]
pub struct Rec {
    pub v: [u64; 64],
    pub n: usize,
}
impl Rec {
    pub fn of<T: Hash>(t: &T) -> Rec {
        let mut r = Rec { v: [0; 64], n: 0 };
        t.hash(&mut r);
        r
    }
    fn push(&mut self, x: u64) {
        if self.n < 64 {
            self.v[self.n] = x;
        }
        self.n += 1;
    }
    pub fn same(&self, o: &Rec) -> bool {
        if self.n != o.n {
            return false;
        }
        let mut r = true;
        let mut i = 0;
        while i < self.n && i < 64 {
            r &= self.v[i] == o.v[i];
            i += 1;
        }
        r
    }
}
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        // writing bytes one by one or together is the same stream
        for &x in b {
            self.push(x as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.push(i as u64 | 1 << 8);
    }
    fn write_u64(&mut self, i: u64) {
        self.push(i);
    }
    fn write_usize(&mut self, i: usize) {
        self.push(i as u64);
    }
    fn write_isize(&mut self, i: isize) {
        self.push(i as u64);
    }
    fn write_i64(&mut self, i: i64) {
        self.push(i as u64);
    }
}

/// Two independent values: equal ones have the same members and the same hash; cloning preserves
/// all of it.
macro_rules! eq_pair {
    ($A:ty) => {{
        let mut oa = Oracle::new();
        let a = <$A as Kind>::gen(&mut oa);
        let mut ob = Oracle::new();
        let b = <$A as Kind>::gen(&mut ob);
        let t = any_u8();
        let eq = a == b;
        check(eq == (b == a), 1);
        check(eq != (a != b), 2);
        // touching pieces apart, the pieces of a set are determined by what it holds
        let same = eqhash::same_pieces(&oa, &ob);
        if same {
            check(eq, 5);
        } else if !eqhash::touching(&oa) && !eqhash::touching(&ob) {
            check(!eq, 6);
        }
        if eq {
            check(oa.has(t) == ob.has(t), 3);
            check(eqhash::Rec::of(&a).same(&eqhash::Rec::of(&b)), 4);
        }
    }};
}
/// The same members built in two different ways: equal, equal hashes.
macro_rules! eq_built {
    ($A:ty, $B:ty, $n:expr) => {{
        // generate with one insertion order, rebuild with the other
        let mut oa = Oracle::new();
        let a = <$A as Kind>::gen(&mut oa);
        let b = <$B as eqhash::Rebuild>::rebuild(&oa);
        check(a == b, 1);
        check(eqhash::Rec::of(&a).same(&eqhash::Rec::of(&b)), 2);
        let c = a.clone();
        check(c == a, 3);
        check(eqhash::Rec::of(&c).same(&eqhash::Rec::of(&a)), 4);
    }};
}
pub(crate) use {eq_built, eq_pair};

fn same_bound(a: B, b: B) -> bool {
    match (a, b) {
        (Some((v, i)), Some((w, j))) => (v == w) & (i == j),
        (None, None) => true,
        _ => false,
    }
}
pub fn same_pieces(a: &Oracle, b: &Oracle) -> bool {
    if a.n != b.n {
        return false;
    }
    let mut r = true;
    for i in 0..a.n {
        r &= same_bound(a.c[i].lo, b.c[i].lo) & same_bound(a.c[i].hi, b.c[i].hi);
    }
    r
}
/// Some piece begins exactly where the one before ends.
pub fn touching(a: &Oracle) -> bool {
    let mut r = false;
    for i in 1..a.n {
        if let (Some((v, i)), Some((w, j))) = (a.c[i - 1].hi, a.c[i].lo) {
            r |= (v == w) & (i != j);
        }
    }
    r
}

/// Builds the value of a kind from its intervals.
pub trait Rebuild {
    type T;
    fn rebuild(o: &Oracle) -> Self::T;
}
impl<const K: u8, const D: bool> Rebuild for BS<K, D> {
    type T = BoundedSet<u8>;
    fn rebuild(o: &Oracle) -> Self::T {
        fill!(BoundedSet::empty(), o, 0, o.n, D)
    }
}
impl<const K: u8, const D: bool> Rebuild for LBS<K, D> {
    type T = LowerBoundedSet<u8>;
    fn rebuild(o: &Oracle) -> Self::T {
        let n = o.n - 1;
        let r = LowerBoundedRange::new(lb(o.c[n].lo.unwrap()));
        if D {
            // the bounded part first, then the unbounded end
            let s = fill!(BoundedSet::empty(), o, 0, n, D);
            Rangetools::union(s, r)
        } else {
            fill!(LowerBoundedSet::from(r), o, 0, n, D)
        }
    }
}
impl<const K: u8, const D: bool> Rebuild for UBS<K, D> {
    type T = UpperBoundedSet<u8>;
    fn rebuild(o: &Oracle) -> Self::T {
        let n = o.n - 1;
        let r = UpperBoundedRange::new(ub(o.c[0].hi.unwrap()));
        if D {
            let s = fill!(BoundedSet::empty(), o, 1, n, D);
            Rangetools::union(s, r)
        } else {
            fill!(UpperBoundedSet::from(r), o, 1, n, D)
        }
    }
}
impl<const K: u8, const D: bool> Rebuild for US<K, D> {
    type T = UnboundedSet<u8>;
    fn rebuild(o: &Oracle) -> Self::T {
        let n = o.n - 2;
        let u = UpperBoundedRange::new(ub(o.c[0].hi.unwrap()));
        let l = LowerBoundedRange::new(lb(o.c[n + 1].lo.unwrap()));
        if D {
            let s = fill!(BoundedSet::empty(), o, 1, n, D);
            Rangetools::union(Rangetools::union(s, u), l)
        } else {
            let s = fill!(LowerBoundedSet::from(l), o, 1, n, D);
            Rangetools::union(u, s)
        }
    }
}
impl Rebuild for BR {
    type T = BoundedRange<u8>;
    fn rebuild(o: &Oracle) -> Self::T {
        BoundedRange { start: lb(o.c[0].lo.unwrap()), end: ub(o.c[0].hi.unwrap()) }
    }
}
impl Rebuild for LBR {
    type T = LowerBoundedRange<u8>;
    fn rebuild(o: &Oracle) -> Self::T {
        LowerBoundedRange { start: lb(o.c[0].lo.unwrap()) }
    }
}
impl Rebuild for UBR {
    type T = UpperBoundedRange<u8>;
    fn rebuild(o: &Oracle) -> Self::T {
        UpperBoundedRange { end: ub(o.c[0].hi.unwrap()) }
    }
}
/// Bounds: equality is equality of value and side, for hashes too.
pub fn eq_bounds() {
    let (a, b) = (any_u8(), any_u8());
    let (ai, bi) = (any_bool(), any_bool());
    let (x, y) = (lb((a, ai)), lb((b, bi)));
    let (u, v) = (ub((a, ai)), ub((b, bi)));
    let e = (a == b) & (ai == bi);
    check((x == y) == e, 1);
    check((u == v) == e, 2);
    check((x.to_bound() == y.to_bound()) == e, 3);
    if e {
        check(Rec::of(&x).same(&Rec::of(&y)), 4);
        check(Rec::of(&u).same(&Rec::of(&v)), 5);
    }
    let r = BoundedRange::new(x, v);
    let s = BoundedRange::new(y, u);
    check((r == s) == e, 6);
    check(r == r.clone(), 7);
}
/// Types without data.
pub fn eq_units() {
    check(EmptyRange::<u8>::new() == EmptyRange::<u8>::default(), 1);
    check(UnboundedRange::new() == UnboundedRange::default(), 2);
    check(UnboundedSet::<u8>::Full == UnboundedSet::<u8>::Full, 3);
    let (a, b) = (any_bound(), any_bound());
    let s = UnboundedSet::new(UpperBoundedRange::new(ub(a)), LowerBoundedRange::new(lb(b)));
    // the full set is written as such exactly when the two ends overlap
    check((s == UnboundedSet::Full) == room(Some(b), Some(a)), 4);
}
