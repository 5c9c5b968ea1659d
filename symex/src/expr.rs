//! Hash-consed bit-vector expressions with a simplifier.
use std::collections::HashMap;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Slt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Not(Id),
    Ite(Id, Id, Id),
    Extract(Id, u32),
    SExt(Id),
    /// high, low
    Concat(Id, Id),
    Bin(Op, Id, Id),
}

pub struct Exprs {
    nodes: Vec<(Node, u32)>,
    /// number of leaves if the node is an ite-tree over constants, otherwise 0
    ctree: Vec<u16>,
    /// variables a node depends on (bit 127: all variables from 127 on)
    vmask: Vec<u128>,
    map: HashMap<(Node, u32), Id>,
    pub vars: Vec<Id>,
    scratch: Vec<u128>,
    stamp: Vec<u32>,
    gen: u32,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

/// Concrete semantics of every binary operator (comparison results have width 1).
/// None: division by zero / overflow (undefined behaviour in LLVM).
pub fn bin_c(op: Op, w: u32, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                return None;
            }
            a / b
        }
        Op::URem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        Op::SDiv => {
            if b == 0 {
                return None;
            }
            (sx(a, w).wrapping_div(sx(b, w)) as u128) & m
        }
        Op::SRem => {
            if b == 0 {
                return None;
            }
            (sx(a, w).wrapping_rem(sx(b, w)) as u128) & m
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sx(a, w) >> s.min(127)) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
    })
}

impl Exprs {
    pub fn new() -> Self {
        Exprs { nodes: vec![], ctree: vec![], vmask: vec![], map: HashMap::new(), vars: vec![], scratch: vec![], stamp: vec![], gen: 0 }
    }
    pub fn len(&self) -> usize {
        self.nodes.len()
    }
    pub fn node(&self, e: Id) -> Node {
        self.nodes[e as usize].0
    }
    pub fn width(&self, e: Id) -> u32 {
        self.nodes[e as usize].1
    }
    pub fn as_const(&self, e: Id) -> Option<u128> {
        match self.node(e) {
            Node::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn ctree(&self, e: Id) -> u32 {
        self.ctree[e as usize] as u32
    }

    pub fn vmask(&self, e: Id) -> u128 {
        self.vmask[e as usize]
    }

    // ---- linear normal form: sum of coefficient * term + constant (mod 2^w)
    fn linear(&self, e: Id, k: u128, t: &mut Vec<(Id, u128)>, c: &mut u128) {
        match self.node(e) {
            Node::Const(v) => *c = c.wrapping_add(v.wrapping_mul(k)),
            Node::Bin(Op::Add, a, b) => {
                self.linear(a, k, t, c);
                self.linear(b, k, t, c);
            }
            Node::Bin(Op::Sub, a, b) => {
                self.linear(a, k, t, c);
                self.linear(b, k.wrapping_neg(), t, c);
            }
            Node::Bin(Op::Mul, a, b) if self.as_const(b).is_some() => {
                let v = self.as_const(b).unwrap();
                self.linear(a, k.wrapping_mul(v), t, c);
            }
            _ => match t.iter_mut().find(|x| x.0 == e) {
                Some(x) => x.1 = x.1.wrapping_add(k),
                None => t.push((e, k)),
            },
        }
    }
    fn is_linear(&self, e: Id) -> bool {
        matches!(self.node(e), Node::Bin(Op::Add | Op::Sub, _, _))
    }
    fn lin_build(&mut self, t: &[(Id, u128)], c: u128, w: u32) -> Id {
        let m = mask(w);
        let mut acc: Option<Id> = None;
        for &(e, k) in t {
            if k != m {
                let e = if k == 1 {
                    e
                } else {
                    let k = self.c(k, w);
                    self.intern(Node::Bin(Op::Mul, e, k), w)
                };
                acc = Some(match acc {
                    None => e,
                    Some(a) => self.intern(Node::Bin(Op::Add, a, e), w),
                });
            }
        }
        let mut c = c & m;
        if acc.is_none() {
            acc = Some(self.c(c, w));
            c = 0;
        }
        let mut acc = acc.unwrap();
        for &(e, k) in t {
            if k == m {
                acc = self.intern(Node::Bin(Op::Sub, acc, e), w);
            }
        }
        if c != 0 {
            let c = self.c(c, w);
            acc = self.intern(Node::Bin(Op::Add, acc, c), w);
        }
        acc
    }
    pub fn lin_terms(&self, parts: &[(Id, u128)], w: u32) -> (Vec<(Id, u128)>, u128) {
        let m = mask(w);
        let mut t = vec![];
        let mut c = 0;
        for &(e, k) in parts {
            self.linear(e, k, &mut t, &mut c);
        }
        for x in t.iter_mut() {
            x.1 &= m;
        }
        t.retain(|x| x.1 != 0);
        t.sort();
        (t, c & m)
    }

    fn intern(&mut self, n: Node, w: u32) -> Id {
        if let Some(&i) = self.map.get(&(n, w)) {
            return i;
        }
        let i = self.nodes.len() as Id;
        let ct = match n {
            Node::Const(_) => 1,
            Node::Ite(_, a, b) => {
                let (x, y) = (self.ctree[a as usize], self.ctree[b as usize]);
                if x > 0 && y > 0 && x + y <= 16 {
                    x + y
                } else {
                    0
                }
            }
            _ => 0,
        };
        let vm = match n {
            Node::Const(_) => 0,
            Node::Var(v) => 1u128 << v.min(127),
            Node::Not(a) | Node::Extract(a, _) | Node::SExt(a) => self.vmask[a as usize],
            Node::Concat(a, b) | Node::Bin(_, a, b) => self.vmask[a as usize] | self.vmask[b as usize],
            Node::Ite(a, b, c) => self.vmask[a as usize] | self.vmask[b as usize] | self.vmask[c as usize],
        };
        self.nodes.push((n, w));
        self.ctree.push(ct);
        self.vmask.push(vm);
        self.map.insert((n, w), i);
        i
    }
    pub fn c(&mut self, v: u128, w: u32) -> Id {
        self.intern(Node::Const(v & mask(w)), w)
    }
    pub fn fresh(&mut self, w: u32) -> Id {
        let n = self.vars.len() as u32;
        let i = self.intern(Node::Var(n), w);
        self.vars.push(i);
        i
    }
    pub fn t(&mut self) -> Id {
        self.c(1, 1)
    }

    pub fn not(&mut self, a: Id) -> Id {
        debug_assert!(self.width(a) == 1);
        match self.node(a) {
            Node::Const(v) => self.c(v ^ 1, 1),
            Node::Not(x) => x,
            _ => self.intern(Node::Not(a), 1),
        }
    }

    pub fn ite(&mut self, q: Id, a: Id, b: Id) -> Id {
        if let Some(v) = self.as_const(q) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Node::Not(x) = self.node(q) {
            return self.ite(x, b, a);
        }
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let a = match self.node(a) {
            Node::Ite(q2, x, _) if q2 == q => x,
            _ => a,
        };
        let b = match self.node(b) {
            Node::Ite(q2, _, y) if q2 == q => y,
            _ => b,
        };
        if a == b {
            return a;
        }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return q,
                (Some(0), Some(1)) => return self.not(q),
                (Some(1), _) => return self.bin(Op::Or, q, b),
                (Some(0), _) => {
                    let n = self.not(q);
                    return self.bin(Op::And, n, b);
                }
                (_, Some(0)) => return self.bin(Op::And, q, a),
                (_, Some(1)) => {
                    let n = self.not(q);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        self.intern(Node::Ite(q, a, b), w)
    }

    pub fn extract(&mut self, e: Id, lo: u32, w: u32) -> Id {
        let ew = self.width(e);
        debug_assert!(lo + w <= ew && w > 0);
        if lo == 0 && w == ew {
            return e;
        }
        match self.node(e) {
            Node::Const(v) => self.c(v >> lo, w),
            Node::Extract(x, l) => self.extract(x, l + lo, w),
            Node::Concat(h, l) => {
                let lw = self.width(l);
                if lo >= lw {
                    self.extract(h, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(l, lo, w)
                } else {
                    let a = self.extract(l, lo, lw - lo);
                    let b = self.extract(h, 0, lo + w - lw);
                    self.concat(b, a)
                }
            }
            Node::SExt(x) => {
                let xw = self.width(x);
                if lo + w <= xw {
                    self.extract(x, lo, w)
                } else if lo < xw {
                    let y = self.extract(x, lo, xw - lo);
                    self.sext(y, w)
                } else {
                    let s = self.extract(x, xw - 1, 1);
                    self.sext(s, w)
                }
            }
            Node::Ite(q, a, b) => {
                let a = self.extract(a, lo, w);
                let b = self.extract(b, lo, w);
                self.ite(q, a, b)
            }
            // single bits of bitwise expressions (sign tests of overflow patterns)
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), a, b) if w == 1 => {
                let a = self.extract(a, lo, 1);
                let b = self.extract(b, lo, 1);
                self.bin(op, a, b)
            }
            _ => self.intern(Node::Extract(e, lo), w),
        }
    }

    /// Low bits of an arithmetic value (pushed into sums, unlike the pieces memory is made of).
    pub fn trunc(&mut self, e: Id, w: u32) -> Id {
        match self.node(e) {
            Node::Bin(op @ (Op::Add | Op::Sub), a, b) if self.width(e) > w => {
                let a = self.trunc(a, w);
                let b = self.trunc(b, w);
                self.bin(op, a, b)
            }
            _ => self.extract(e, 0, w),
        }
    }

    /// Merge two adjacent pieces into one node when that is trivially possible.
    fn merge(&mut self, h: Id, l: Id) -> Option<Id> {
        let w = self.width(h) + self.width(l);
        let lw = self.width(l);
        match (self.node(h), self.node(l)) {
            (Node::Const(a), Node::Const(b)) => Some(self.c((a << lw) | b, w)),
            (Node::Extract(x, l2), Node::Extract(y, l1)) if x == y && l2 == l1 + lw => Some(self.extract(x, l1, w)),
            (Node::Extract(x, l2), _) if x == l && l2 == lw => Some(self.extract(x, 0, w)),
            (Node::Ite(q, a, b), Node::Ite(q2, c, d)) if q == q2 => {
                let x = self.concat(a, c);
                let y = self.concat(b, d);
                Some(self.ite(q, x, y))
            }
            (Node::Ite(q, a, b), Node::Const(_)) if self.ctree(h) > 0 => {
                let x = self.concat(a, l);
                let y = self.concat(b, l);
                Some(self.ite(q, x, y))
            }
            (Node::Const(_), Node::Ite(q, a, b)) if self.ctree(l) > 0 => {
                let x = self.concat(h, a);
                let y = self.concat(h, b);
                Some(self.ite(q, x, y))
            }
            _ => None,
        }
    }
    pub fn concat(&mut self, h: Id, l: Id) -> Id {
        let w = self.width(h) + self.width(l);
        debug_assert!(w <= 128);
        if let Node::Concat(h1, h2) = self.node(h) {
            let l2 = self.concat(h2, l);
            return self.concat(h1, l2);
        }
        if let Some(m) = self.merge(h, l) {
            return m;
        }
        if let Node::Concat(m, l2) = self.node(l) {
            if let Some(x) = self.merge(h, m) {
                return self.concat(x, l2);
            }
        }
        self.intern(Node::Concat(h, l), w)
    }
    pub fn zext(&mut self, e: Id, w: u32) -> Id {
        let ew = self.width(e);
        if ew == w {
            return e;
        }
        let z = self.c(0, w - ew);
        self.concat(z, e)
    }
    pub fn sext(&mut self, e: Id, w: u32) -> Id {
        let ew = self.width(e);
        if ew == w {
            return e;
        }
        match self.node(e) {
            Node::Const(v) => self.c(sx(v, ew) as u128, w),
            Node::SExt(x) => self.sext(x, w),
            Node::Concat(h, _) if matches!(self.node(h), Node::Const(v) if v >> (self.width(h) - 1) == 0) => self.zext(e, w),
            Node::Ite(q, a, b) if self.ctree(e) > 0 => {
                let a = self.sext(a, w);
                let b = self.sext(b, w);
                self.ite(q, a, b)
            }
            _ => self.intern(Node::SExt(e), w),
        }
    }

    /// pieces of e from low to high
    fn pieces(&self, e: Id, out: &mut Vec<Id>) {
        let mut cur = e;
        let mut rev = vec![];
        while let Node::Concat(h, l) = self.node(cur) {
            rev.push(h);
            cur = l;
        }
        out.push(cur);
        out.extend(rev.into_iter().rev());
    }

    fn bitwise_pieces(&mut self, op: Op, a: Id, b: Id) -> Option<Id> {
        let w = self.width(a);
        let mut pa = vec![];
        let mut pb = vec![];
        self.pieces(a, &mut pa);
        self.pieces(b, &mut pb);
        if pa.len() == 1 && pb.len() == 1 && self.as_const(a).is_none() && self.as_const(b).is_none() {
            return None;
        }
        let mut cuts: Vec<u32> = vec![0, w];
        for p in [&pa, &pb] {
            let mut o = 0;
            for &x in p.iter() {
                if let Some(v) = self.as_const(x) {
                    // split constants into runs
                    let xw = self.width(x);
                    let mut prev = v & 1;
                    for i in 1..xw {
                        let bit = (v >> i) & 1;
                        if bit != prev {
                            cuts.push(o + i);
                            prev = bit;
                        }
                    }
                }
                o += self.width(x);
                cuts.push(o);
            }
        }
        cuts.sort();
        cuts.dedup();
        if cuts.len() > 24 {
            return None;
        }
        let mut segs = vec![];
        for i in 0..cuts.len() - 1 {
            let (lo, sw) = (cuts[i], cuts[i + 1] - cuts[i]);
            let x = self.extract(a, lo, sw);
            let y = self.extract(b, lo, sw);
            let (cx, cy) = (self.as_const(x), self.as_const(y));
            let m = mask(sw);
            let r = match (cx, cy) {
                (Some(p), Some(q)) => self.c(bin_c(op, sw, p, q).unwrap(), sw),
                (Some(p), None) | (None, Some(p)) => {
                    let o = if cx.is_some() { y } else { x };
                    match op {
                        Op::And if p == 0 => self.c(0, sw),
                        Op::And if p == m => o,
                        Op::Or if p == 0 => o,
                        Op::Or if p == m => self.c(m, sw),
                        Op::Xor if p == 0 => o,
                        Op::Xor if sw == 1 => self.not(o),
                        _ => return None,
                    }
                }
                _ if x == y => match op {
                    Op::Xor => self.c(0, sw),
                    _ => x,
                },
                // joining two single bits stays a boolean operation
                _ if sw == 1 && w > 1 => self.bin(op, x, y),
                _ => return None,
            };
            segs.push(r);
        }
        let mut r = segs[0];
        for &s in &segs[1..] {
            r = self.concat(s, r);
        }
        Some(r)
    }

    pub fn bin(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        let rw = match op {
            Op::Eq | Op::Ult | Op::Slt => 1,
            _ => w,
        };
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(v) = bin_c(op, w, x, y) {
                return self.c(v, rw);
            }
        }
        // push into ite-trees over constants
        if self.ctree(a) > 0 && self.ctree(b) > 0 && self.ctree(a) * self.ctree(b) <= 16 && !matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
            if let Node::Ite(q, x, y) = self.node(a) {
                let l = self.bin(op, x, b);
                let r = self.bin(op, y, b);
                return self.ite(q, l, r);
            }
            if let Node::Ite(q, x, y) = self.node(b) {
                let l = self.bin(op, a, x);
                let r = self.bin(op, a, y);
                return self.ite(q, l, r);
            }
        }
        let commutative = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        let (a, b, ca, cb) = if commutative && (ca.is_some() || (cb.is_none() && a > b)) { (b, a, cb, ca) } else { (a, b, ca, cb) };
        let m = mask(w);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                let (t, c) = self.lin_terms(&[(a, 1), (b, 1)], w);
                return self.lin_build(&t, c, w);
            }
            Op::Sub => {
                if a == b {
                    return self.c(0, w);
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                if let Some(k) = cb {
                    let n = self.c(0u128.wrapping_sub(k), w);
                    return self.bin(Op::Add, a, n);
                }
                let (t, c) = self.lin_terms(&[(a, 1), (b, u128::MAX)], w);
                return self.lin_build(&t, c, w);
            }
            Op::Mul => match cb {
                Some(0) => return self.c(0, w),
                Some(1) => return a,
                Some(k) if k.is_power_of_two() => {
                    let s = self.c(k.trailing_zeros() as u128, w);
                    return self.bin(Op::Shl, a, s);
                }
                _ => {}
            },
            Op::UDiv => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.c(k - 1, w);
                        return self.bin(Op::And, a, s);
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let k = k as u32;
                    let x = self.extract(a, 0, w - k);
                    let z = self.c(0, k);
                    return self.concat(x, z);
                }
            }
            Op::LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let k = k as u32;
                    let x = self.extract(a, k, w - k);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let k = (k as u32).min(w - 1);
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if a == b {
                    return if op == Op::Xor { self.c(0, w) } else { a };
                }
                match (op, cb) {
                    (Op::And, Some(0)) => return b,
                    (Op::And, Some(k)) if k == m => return a,
                    (Op::Or, Some(0)) => return a,
                    (Op::Or, Some(k)) if k == m => return b,
                    (Op::Xor, Some(0)) => return a,
                    _ => {}
                }
                if w == 1 {
                    if op == Op::Xor && cb == Some(1) {
                        return self.not(a);
                    }
                    let na = self.not(a);
                    if na == b {
                        return match op {
                            Op::And => self.c(0, 1),
                            _ => self.c(1, 1),
                        };
                    }
                } else if op == Op::Xor && cb == Some(m) && !matches!(self.node(a), Node::Concat(..)) {
                    // !x = -1 - x
                    return self.bin(Op::Sub, b, a);
                } else if op == Op::Xor && cb == Some(1u128 << (w - 1)) && !matches!(self.node(a), Node::Concat(..)) {
                    return self.bin(Op::Add, a, b);
                } else if let Some((o, h, l)) = [(a, b), (b, a)].iter().find_map(|&(o, z)| match self.node(z) {
                    Node::Concat(h, l) if self.as_const(h) == Some(0) => Some((o, h, l)),
                    _ => None,
                }) {
                    // zero-extended operand: only the low part matters (and) or changes (or, xor)
                    let (hw, lw) = (self.width(h), self.width(l));
                    let ol = self.extract(o, 0, lw);
                    let low = self.bin(op, ol, l);
                    let high = if op == Op::And { h } else { self.extract(o, lw, hw) };
                    return self.concat(high, low);
                } else if let Some(r) = self.bitwise_pieces(op, a, b) {
                    return r;
                } else if op == Op::And && ca.is_none() && cb.is_none() {
                    let z = self.lead_zero(a).max(self.lead_zero(b));
                    if z > 0 && z < w {
                        let x = self.extract(a, 0, w - z);
                        let y = self.extract(b, 0, w - z);
                        let low = self.bin(op, x, y);
                        let high = self.c(0, z);
                        return self.concat(high, low);
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.c(1, 1);
                }
                if w == 1 {
                    match cb {
                        Some(1) => return a,
                        Some(_) => return self.not(a),
                        None => {
                            let x = self.bin(Op::Xor, a, b);
                            return self.not(x);
                        }
                    }
                }
                if self.is_linear(a) || self.is_linear(b) {
                    let (t, c) = self.lin_terms(&[(a, 1), (b, u128::MAX)], w);
                    if t.is_empty() {
                        return self.c((c == 0) as u128, 1);
                    }
                    // smallest term on the left, terms with coefficient -1 (relative to it) on the right
                    // (the sign is fixed by the first term whose coefficient is not its own negation)
                    let flip = t.iter().map(|x| (x.1, x.1.wrapping_neg() & m)).find(|(k, n)| k != n).map_or(false, |(k, n)| k > n);
                    let (mut l, mut r) = (vec![], vec![]);
                    for &(e, k) in &t {
                        let k = if flip { k.wrapping_neg() & m } else { k };
                        if k == m {
                            r.push((e, 1));
                        } else {
                            l.push((e, k));
                        }
                    }
                    let c = if flip { c } else { c.wrapping_neg() } & m;
                    let l = self.lin_build(&l, 0, w);
                    let r = self.lin_build(&r, c, w);
                    if (l, r) != (a, b) && (r, l) != (a, b) {
                        return self.bin(Op::Eq, l, r);
                    }
                }
                if let (Some(0), Node::Bin(Op::Xor, x, y)) = (cb, self.node(a)) {
                    return self.bin(Op::Eq, x, y);
                }
                let cat = match (self.node(a), self.node(b)) {
                    (Node::Concat(_, l), _) => Some(self.width(l)),
                    (_, Node::Concat(_, l)) => Some(self.width(l)),
                    _ => None,
                };
                if let Some(lw) = cat {
                    let (ah, al) = (self.extract(a, lw, w - lw), self.extract(a, 0, lw));
                    let (bh, bl) = (self.extract(b, lw, w - lw), self.extract(b, 0, lw));
                    let p = self.bin(Op::Eq, ah, bh);
                    if self.as_const(p) == Some(0) {
                        return p;
                    }
                    let q = self.bin(Op::Eq, al, bl);
                    return self.bin(Op::And, p, q);
                }
                if let (Some(k), Node::Ite(q, x, y)) = (cb, self.node(a)) {
                    // one constant leaf: eq(ite(q,k1,y),k)
                    if let Some(k1) = self.as_const(x) {
                        let r = self.bin(Op::Eq, y, b);
                        let l = self.c((k1 == k) as u128, 1);
                        return self.ite(q, l, r);
                    }
                    if let Some(k1) = self.as_const(y) {
                        let l = self.bin(Op::Eq, x, b);
                        let r = self.c((k1 == k) as u128, 1);
                        return self.ite(q, l, r);
                    }
                }
            }
            Op::Ult => {
                if a == b || cb == Some(0) || ca == Some(m) {
                    return self.c(0, 1);
                }
                if w == 1 {
                    let n = self.not(a);
                    return self.bin(Op::And, n, b);
                }
                if cb == Some(1) {
                    let z = self.c(0, w);
                    return self.bin(Op::Eq, a, z);
                }
                if ca == Some(0) {
                    let z = self.c(0, w);
                    let e = self.bin(Op::Eq, b, z);
                    return self.not(e);
                }
                let za = self.lead_zero(a);
                let zb = self.lead_zero(b);
                if let (Some(k), za) = (cb, za) {
                    if za > 0 && k >= (1u128 << (w - za)) {
                        return self.c(1, 1);
                    }
                }
                if let (Some(k), zb) = (ca, zb) {
                    if zb > 0 && k >= (1u128 << (w - zb)) - 1 {
                        return self.c(0, 1);
                    }
                }
                let z = za.min(zb);
                if z > 0 && z < w {
                    let x = self.extract(a, 0, w - z);
                    let y = self.extract(b, 0, w - z);
                    return self.bin(Op::Ult, x, y);
                }
            }
            Op::Slt => {
                if a == b {
                    return self.c(0, 1);
                }
                if cb == Some(0) {
                    return self.extract(a, w - 1, 1);
                }
                let za = self.lead_zero(a) > 0;
                let zb = self.lead_zero(b) > 0;
                if za && zb {
                    return self.bin(Op::Ult, a, b);
                }
                if za && cb.is_some() {
                    return self.c(0, 1); // b negative
                }
                if zb && ca.is_some() {
                    return self.c(1, 1); // a negative
                }
            }
            _ => {}
        }
        self.intern(Node::Bin(op, a, b), rw)
    }

    /// Rewrite e with `facts` (sub-expression -> replacement); `memo` is valid for one set of facts.
    pub fn rewrite(&mut self, e: Id, facts: &HashMap<Id, Id>, fmask: u128, memo: &mut HashMap<Id, Id>) -> Id {
        if let Some(&r) = facts.get(&e) {
            return r;
        }
        let n = self.node(e);
        if matches!(n, Node::Const(_) | Node::Var(_)) || self.vmask(e) & fmask == 0 {
            return e;
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let r = match n {
            Node::Const(_) | Node::Var(_) => e,
            Node::Not(a) => {
                let a2 = self.rewrite(a, facts, fmask, memo);
                if a2 == a { e } else { self.not(a2) }
            }
            Node::Extract(a, lo) => {
                let a2 = self.rewrite(a, facts, fmask, memo);
                let w = self.width(e);
                if a2 == a { e } else { self.extract(a2, lo, w) }
            }
            Node::SExt(a) => {
                let a2 = self.rewrite(a, facts, fmask, memo);
                let w = self.width(e);
                if a2 == a { e } else { self.sext(a2, w) }
            }
            Node::Concat(a, b) => {
                let a2 = self.rewrite(a, facts, fmask, memo);
                let b2 = self.rewrite(b, facts, fmask, memo);
                if (a2, b2) == (a, b) { e } else { self.concat(a2, b2) }
            }
            Node::Bin(op, a, b) => {
                let a2 = self.rewrite(a, facts, fmask, memo);
                let b2 = self.rewrite(b, facts, fmask, memo);
                if (a2, b2) == (a, b) { e } else { self.bin(op, a2, b2) }
            }
            Node::Ite(q, a, b) => {
                let q2 = self.rewrite(q, facts, fmask, memo);
                match self.as_const(q2) {
                    Some(1) => self.rewrite(a, facts, fmask, memo),
                    Some(_) => self.rewrite(b, facts, fmask, memo),
                    None => {
                        let a2 = self.rewrite(a, facts, fmask, memo);
                        let b2 = self.rewrite(b, facts, fmask, memo);
                        if (q2, a2, b2) == (q, a, b) { e } else { self.ite(q2, a2, b2) }
                    }
                }
            }
        };
        // the rewritten expression may itself be a known fact
        let r = facts.get(&r).copied().unwrap_or(r);
        memo.insert(e, r);
        r
    }

    fn lead_zero(&self, e: Id) -> u32 {
        let w = self.width(e);
        match self.node(e) {
            Node::Const(v) => {
                if w == 128 {
                    v.leading_zeros()
                } else {
                    w - (128 - v.leading_zeros())
                }
            }
            Node::Concat(h, _) if self.as_const(h) == Some(0) => self.width(h),
            Node::Ite(_, a, b) if matches!((self.node(a), self.node(b)), (Node::Const(_), Node::Const(_))) => self.lead_zero(a).min(self.lead_zero(b)),
            _ => 0,
        }
    }

    /// Evaluate under an assignment to the variables.
    pub fn eval(&mut self, e: Id, m: &[u128]) -> u128 {
        self.gen += 1;
        if self.stamp.len() < self.nodes.len() {
            self.stamp.resize(self.nodes.len(), 0);
            self.scratch.resize(self.nodes.len(), 0);
        }
        self.ev(e, m)
    }
    fn ev(&mut self, e: Id, m: &[u128]) -> u128 {
        let i = e as usize;
        let (n, w) = self.nodes[i];
        match n {
            Node::Const(v) => return v,
            Node::Var(v) => return m.get(v as usize).copied().unwrap_or(0),
            _ => {}
        }
        if self.stamp[i] == self.gen {
            return self.scratch[i];
        }
        let r = match n {
            Node::Const(_) | Node::Var(_) => unreachable!(),
            Node::Not(a) => self.ev(a, m) ^ 1,
            Node::Ite(q, a, b) => {
                if self.ev(q, m) == 1 {
                    self.ev(a, m)
                } else {
                    self.ev(b, m)
                }
            }
            Node::Extract(a, lo) => (self.ev(a, m) >> lo) & mask(w),
            Node::SExt(a) => {
                let aw = self.width(a);
                (sx(self.ev(a, m), aw) as u128) & mask(w)
            }
            Node::Concat(h, l) => {
                let lw = self.width(l);
                (self.ev(h, m) << lw) | self.ev(l, m)
            }
            Node::Bin(op, a, b) => {
                let aw = self.width(a);
                let x = self.ev(a, m);
                let y = self.ev(b, m);
                // SMT-LIB semantics for division by zero
                bin_c(op, aw, x, y).unwrap_or(match op {
                    Op::UDiv => mask(aw),
                    Op::URem | Op::SRem => x,
                    Op::SDiv => {
                        if sx(x, aw) < 0 {
                            1
                        } else {
                            mask(aw)
                        }
                    }
                    _ => 0,
                })
            }
        };
        self.stamp[i] = self.gen;
        self.scratch[i] = r;
        r
    }
    pub fn show(&self, e: Id, depth: u32) -> String {
        if depth == 0 {
            return format!("#{e}");
        }
        let d = depth - 1;
        match self.node(e) {
            Node::Const(v) => format!("{v}:{}", self.width(e)),
            Node::Var(v) => format!("v{v}:{}", self.width(e)),
            Node::Not(a) => format!("!{}", self.show(a, d)),
            Node::Ite(q, a, b) => format!("({} ? {} : {})", self.show(q, d), self.show(a, d), self.show(b, d)),
            Node::Extract(a, lo) => format!("{}[{}+{}]", self.show(a, d), lo, self.width(e)),
            Node::SExt(a) => format!("sext{}({})", self.width(e), self.show(a, d)),
            Node::Concat(a, b) => format!("{{{}, {}}}", self.show(a, d), self.show(b, d)),
            Node::Bin(op, a, b) => format!("({op:?} {} {})", self.show(a, d), self.show(b, d)),
        }
    }
}
