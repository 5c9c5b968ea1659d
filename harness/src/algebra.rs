//! Bodies for the set-algebra properties.  Macros, because the output type of an operation is a
//! function of both operand types.

/// Generates two operands and a probe.
macro_rules! two {
    ($A:ty, $B:ty) => {{
        let mut oa = Oracle::new();
        let a = <$A as Kind>::gen(&mut oa);
        let mut ob = Oracle::new();
        let b = <$B as Kind>::gen(&mut ob);
        (a, oa, b, ob, any_u8())
    }};
}
macro_rules! one {
    ($A:ty) => {{
        let mut oa = Oracle::new();
        let a = <$A as Kind>::gen(&mut oa);
        (a, oa, any_u8())
    }};
}
macro_rules! seen {
    ($x:expr) => {{
        let v: bool = $x;
        observe(v as u64);
        v
    }};
}

// ---- union: t is in the result exactly when it is in one of the operands
macro_rules! union_pair {
    ($A:ty, $B:ty) => {{
        let (a, oa, b, ob, t) = two!($A, $B);
        let u = Rangetools::union(a, b);
        check(seen!(u.probe(t)) == (oa.has(t) | ob.has(t)), 1);
    }};
}
// ---- intersection: t is in the result exactly when it is in both operands
macro_rules! inter_pair {
    ($A:ty, $B:ty) => {{
        let (a, oa, b, ob, t) = two!($A, $B);
        let u = Rangetools::intersection(a, b);
        check(seen!(u.contains(t)) == (oa.has(t) & ob.has(t)), 1);
    }};
}
// ---- complement: t is in the result exactly when it is not in the operand
macro_rules! compl {
    ($A:ty) => {{
        let (a, oa, t) = one!($A);
        let c = Rangetools::complement(a);
        check(seen!(c.contains(t)) == !oa.has(t), 1);
    }};
}
macro_rules! compl2 {
    ($A:ty) => {{
        let (a, oa, t) = one!($A);
        let c = Rangetools::complement(Rangetools::complement(a));
        check(seen!(c.contains(t)) == oa.has(t), 1);
    }};
}
/// The only bounded result of a complement: empty exactly when no gap of the operand has room.
macro_rules! compl_empty {
    ($A:ty) => {{
        let (a, oa, _t) = one!($A);
        let c = Rangetools::complement(a);
        let mut gap = false;
        for i in 1..oa.n {
            let lo = oa.c[i - 1].hi.map(|(v, inc)| (v, !inc));
            let hi = oa.c[i].lo.map(|(v, inc)| (v, !inc));
            gap |= room(lo, hi);
        }
        check(seen!(Rangetools::is_empty(&c)) == !gap, 1);
    }};
}

// ---- emptiness, disjointness
macro_rules! empty_one {
    ($A:ty) => {{
        let (a, oa, t) = one!($A);
        let e = seen!(Rangetools::is_empty(&a));
        check(e == oa.empty(), 1);
        check(!(e & oa.has(t)), 2);
    }};
}
macro_rules! disjoint_pair {
    ($A:ty, $B:ty) => {{
        let (a, oa, b, ob, _t) = two!($A, $B);
        let over = oa.overlaps(&ob);
        check(seen!(Rangetools::disjoint(a.clone(), b.clone())) == !over, 1);
        check(seen!(Rangetools::intersects(a.clone(), b.clone())) == over, 2);
        check(seen!(Rangetools::is_empty(&Rangetools::intersection(a, b))) == !over, 3);
    }};
}
macro_rules! union_empty_pair {
    ($A:ty, $B:ty) => {{
        let (a, oa, b, ob, _t) = two!($A, $B);
        let u = Rangetools::union(a, b);
        check(seen!(Rangetools::is_empty(&u)) == (oa.empty() & ob.empty()), 1);
    }};
}

// ---- one canonical value per operation, whatever the order and grouping
macro_rules! commute_union {
    ($A:ty, $B:ty) => {{
        let (a, _oa, b, _ob, _t) = two!($A, $B);
        let u = Rangetools::union(a.clone(), b.clone());
        let v = Rangetools::union(b, a);
        check(seen!(u == v), 1);
    }};
}
macro_rules! commute_inter {
    ($A:ty, $B:ty) => {{
        let (a, _oa, b, _ob, _t) = two!($A, $B);
        let u = Rangetools::intersection(a.clone(), b.clone());
        let v = Rangetools::intersection(b, a);
        check(seen!(u == v), 1);
    }};
}
macro_rules! assoc_union {
    ($A:ty, $B:ty, $C:ty) => {{
        let (a, _oa, b, _ob, _t) = two!($A, $B);
        let mut oc = Oracle::new();
        let c = <$C as Kind>::gen(&mut oc);
        let u = Rangetools::union(Rangetools::union(a.clone(), b.clone()), c.clone());
        let v = Rangetools::union(a, Rangetools::union(b, c));
        check(seen!(u == v), 1);
    }};
}
/// s ∪ s = s, s ∩ s = s as values
macro_rules! idem {
    ($A:ty) => {{
        let (a, _oa, _t) = one!($A);
        let a = Rangetools::to_set(a);
        check(seen!(Rangetools::union(a.clone(), a.clone()) == a), 1);
        check(seen!(Rangetools::intersection(a.clone(), a.clone()) == a), 2);
    }};
}
/// (a ∪ b) ∩ c = (a ∩ c) ∪ (b ∩ c) as values
macro_rules! distrib {
    ($A:ty, $B:ty, $C:ty) => {{
        let (a, _oa, b, _ob, _t) = two!($A, $B);
        let mut oc = Oracle::new();
        let c = <$C as Kind>::gen(&mut oc);
        let u = Rangetools::to_set(Rangetools::intersection(Rangetools::union(a.clone(), b.clone()), c.clone()));
        let v = Rangetools::to_set(Rangetools::union(Rangetools::intersection(a, c.clone()), Rangetools::intersection(b, c)));
        check(seen!(u == v), 1);
    }};
}
/// (a ∩ b) ∪ c = (a ∪ c) ∩ (b ∪ c) as values
macro_rules! distrib2 {
    ($A:ty, $B:ty, $C:ty) => {{
        let (a, _oa, b, _ob, _t) = two!($A, $B);
        let mut oc = Oracle::new();
        let c = <$C as Kind>::gen(&mut oc);
        let u = Rangetools::to_set(Rangetools::union(Rangetools::intersection(a.clone(), b.clone()), c.clone()));
        let v = Rangetools::to_set(Rangetools::intersection(Rangetools::union(a, c.clone()), Rangetools::union(b, c)));
        check(seen!(u == v), 1);
    }};
}
macro_rules! assoc_inter {
    ($A:ty, $B:ty, $C:ty) => {{
        let (a, _oa, b, _ob, _t) = two!($A, $B);
        let mut oc = Oracle::new();
        let c = <$C as Kind>::gen(&mut oc);
        let u = Rangetools::to_set(Rangetools::intersection(Rangetools::intersection(a.clone(), b.clone()), c.clone()));
        let v = Rangetools::to_set(Rangetools::intersection(a, Rangetools::intersection(b, c)));
        check(seen!(u == v), 1);
    }};
}
/// A union or intersection of two bounded sets is the set of its pieces, in whatever order they
/// are put together.
macro_rules! pieces_union {
    ($A:ty, $B:ty) => {{
        let (a, oa, b, ob, _t) = two!($A, $B);
        let u = Rangetools::union(a, b);
        let mut s = BoundedSet::empty();
        for i in 0..oa.n {
            s = Rangetools::union(s, piece(&oa, oa.n - 1 - i));
        }
        for i in 0..ob.n {
            s = Rangetools::union(piece(&ob, i), s);
        }
        check(seen!(u == s), 1);
    }};
}
macro_rules! pieces_inter {
    ($A:ty, $B:ty) => {{
        let (a, oa, b, ob, _t) = two!($A, $B);
        let u = Rangetools::intersection(a, b);
        let mut s = BoundedSet::empty();
        for i in 0..oa.n {
            for j in 0..ob.n {
                let p = Rangetools::intersection(piece(&oa, oa.n - 1 - i), piece(&ob, j));
                s = Rangetools::union(s, p);
            }
        }
        check(seen!(u == s), 1);
    }};
}
pub(crate) use {assoc_inter, distrib, distrib2, pieces_inter, pieces_union};
pub(crate) use {assoc_union, commute_inter, commute_union, compl, compl2, compl_empty, disjoint_pair, empty_one, idem, inter_pair, one, seen, two, union_empty_pair, union_pair};

// ---- chained expressions
macro_rules! op {
    (u, $a:expr, $b:expr) => {
        Rangetools::union($a, $b)
    };
    (i, $a:expr, $b:expr) => {
        Rangetools::intersection($a, $b)
    };
}
macro_rules! opm {
    (u, $a:expr, $b:expr) => {
        $a | $b
    };
    (i, $a:expr, $b:expr) => {
        $a & $b
    };
}
/// ((a op1 b) op2 c)
macro_rules! chain3 {
    ($o1:ident, $o2:ident, $A:ty, $B:ty, $C:ty) => {{
        let (a, oa, b, ob, t) = two!($A, $B);
        let mut oc = Oracle::new();
        let c = <$C as Kind>::gen(&mut oc);
        let r = op!($o2, op!($o1, a, b), c);
        let m = opm!($o2, (opm!($o1, oa.has(t), ob.has(t))), oc.has(t));
        check(seen!(r.contains(t)) == m, 1);
    }};
}
/// ¬(a op1 b) op2 c
macro_rules! chain3n {
    ($o1:ident, $o2:ident, $A:ty, $B:ty, $C:ty) => {{
        let (a, oa, b, ob, t) = two!($A, $B);
        let mut oc = Oracle::new();
        let c = <$C as Kind>::gen(&mut oc);
        let r = op!($o2, Rangetools::complement(op!($o1, a, b)), c);
        let m = opm!($o2, !(opm!($o1, oa.has(t), ob.has(t))), oc.has(t));
        check(seen!(r.contains(t)) == m, 1);
    }};
}
/// (a op1 b) op3 (c op2 d)
macro_rules! chain4 {
    ($o1:ident, $o2:ident, $o3:ident, $A:ty, $B:ty, $C:ty, $D:ty) => {{
        let (a, oa, b, ob, t) = two!($A, $B);
        let (mut oc, mut od) = (Oracle::new(), Oracle::new());
        let c = <$C as Kind>::gen(&mut oc);
        let d = <$D as Kind>::gen(&mut od);
        let r = op!($o3, op!($o1, a, b), op!($o2, c, d));
        let m = opm!($o3, (opm!($o1, oa.has(t), ob.has(t))), (opm!($o2, oc.has(t), od.has(t))));
        check(seen!(r.contains(t)) == m, 1);
    }};
}
/// A history of L operations on a bounded set, each chosen among ∪ r, ∩ r and \ r.
macro_rules! prog_bounded {
    ($L:expr) => {{
        let t = any_u8();
        let mut s: BoundedSet<u8> = BoundedSet::empty();
        let mut m = false;
        for _ in 0..$L {
            let k = choose(2);
            let mut o = Oracle::new();
            let r = BR::gen(&mut o);
            let h = o.has(t);
            s = match k {
                0 => {
                    m |= h;
                    Rangetools::union(s, r)
                }
                1 => {
                    m &= h;
                    Rangetools::intersection(s, r)
                }
                _ => {
                    m &= !h;
                    Rangetools::intersection(s, Rangetools::complement(r))
                }
            };
        }
        check(seen!(s.contains(t)) == m, 1);
    }};
}
/// A history of L operations on an unbounded set, each chosen among ∪ r, ∪ (r..), ∪ (..r), \ r and
/// double complement.
macro_rules! prog_unbounded {
    ($L:expr) => {{
        let t = any_u8();
        let mut s: UnboundedSet<u8> = UnboundedSet::Full;
        let mut m = true;
        for _ in 0..$L {
            let k = choose(3);
            let mut o = Oracle::new();
            s = match k {
                0 => {
                    let r = BR::gen(&mut o);
                    m &= !o.has(t);
                    Rangetools::intersection(s, Rangetools::complement(r))
                }
                1 => {
                    let r = BR::gen(&mut o);
                    m |= o.has(t);
                    Rangetools::union(s, r)
                }
                2 => {
                    let r = LBR::gen(&mut o);
                    m |= o.has(t);
                    Rangetools::union(s, r)
                }
                _ => {
                    let r = UBR::gen(&mut o);
                    m |= o.has(t);
                    Rangetools::union(s, r)
                }
            };
        }
        check(seen!(s.contains(t)) == m, 1);
        check(seen!(Rangetools::complement(s).contains(t)) == !m, 2);
    }};
}
/// A history on a half-bounded set.
macro_rules! prog_lower {
    ($L:expr) => {{
        let t = any_u8();
        let mut o = Oracle::new();
        let mut s: LowerBoundedSet<u8> = Rangetools::to_set(LBR::gen(&mut o));
        let mut m = o.has(t);
        for _ in 0..$L {
            let k = choose(3);
            let mut o = Oracle::new();
            s = match k {
                0 => {
                    let r = BR::gen(&mut o);
                    m |= o.has(t);
                    Rangetools::union(s, r)
                }
                1 => {
                    let r = BR::gen(&mut o);
                    m &= !o.has(t);
                    Rangetools::intersection(s, Rangetools::complement(r))
                }
                2 => {
                    let r = LBR::gen(&mut o);
                    m |= o.has(t);
                    Rangetools::union(s, r)
                }
                _ => {
                    let r = LBR::gen(&mut o);
                    m &= o.has(t);
                    Rangetools::intersection(s, r)
                }
            };
        }
        check(seen!(s.contains(t)) == m, 1);
    }};
}
macro_rules! prog_upper {
    ($L:expr) => {{
        let t = any_u8();
        let mut o = Oracle::new();
        let mut s: UpperBoundedSet<u8> = Rangetools::to_set(UBR::gen(&mut o));
        let mut m = o.has(t);
        for _ in 0..$L {
            let k = choose(3);
            let mut o = Oracle::new();
            s = match k {
                0 => {
                    let r = BR::gen(&mut o);
                    m |= o.has(t);
                    Rangetools::union(s, r)
                }
                1 => {
                    let r = BR::gen(&mut o);
                    m &= !o.has(t);
                    Rangetools::intersection(s, Rangetools::complement(r))
                }
                2 => {
                    let r = UBR::gen(&mut o);
                    m |= o.has(t);
                    Rangetools::union(s, r)
                }
                _ => {
                    let r = UBR::gen(&mut o);
                    m &= o.has(t);
                    Rangetools::intersection(s, r)
                }
            };
        }
        check(seen!(s.contains(t)) == m, 1);
    }};
}
pub(crate) use {chain3, chain3n, chain4, op, opm, prog_bounded, prog_lower, prog_unbounded, prog_upper};
