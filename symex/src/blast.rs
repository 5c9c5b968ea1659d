//! Bit-blasting of expressions into the SAT solver, incremental under assumptions.
use crate::expr::{Exprs, Id, Node, Op};
use crate::sat::{neg, Lit, Sat};
use std::collections::HashMap;

pub struct Blaster {
    pub sat: Sat,
    t: Lit,
    memo: Vec<Option<Box<[Lit]>>>,
    ands: HashMap<(Lit, Lit), Lit>,
    xors: HashMap<(Lit, Lit), Lit>,
    adders: HashMap<[Lit; 3], (Lit, Lit)>,
    /// SAT variables created while blasting a node (its own gates)
    own: Vec<(u32, u32)>,
    stamp: Vec<u32>,
    gen: u32,
    floor: usize,
    pub rebuilds: u64,
    pub order_queries: u64,
    /// bit-level encoding (otherwise: order encoding)
    pub bits: bool,
    ocmp: HashMap<(Op, Id, Id), Lit>,
    /// order variables (expression, signed)
    ovars: Vec<(Id, bool)>,
    /// lt atoms: [i][j] = literal of ovars[i] < ovars[j]
    olt: Vec<Vec<Lit>>,
}

/// The query is not a boolean combination of comparisons between plain variables.
struct Impure;

impl Blaster {
    pub fn new() -> Blaster {
        let mut sat = Sat::new();
        let t = sat.new_var();
        sat.add(&[t]);
        Blaster { sat, t, memo: vec![], ands: HashMap::new(), xors: HashMap::new(), adders: HashMap::new(), own: vec![], stamp: vec![], gen: 0, floor: 0, rebuilds: 0, order_queries: 0, bits: false, ocmp: HashMap::new(), ovars: vec![], olt: vec![] }
    }
    fn f(&self) -> Lit {
        neg(self.t)
    }
    fn and(&mut self, a: Lit, b: Lit) -> Lit {
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if a == self.t {
            return b;
        }
        if b == self.t {
            return a;
        }
        if a == self.f() || b == self.f() || a == neg(b) {
            return self.f();
        }
        if a == b {
            return a;
        }
        if let Some(&g) = self.ands.get(&(a, b)) {
            return g;
        }
        let g = self.sat.new_var();
        self.sat.add(&[neg(g), a]);
        self.sat.add(&[neg(g), b]);
        self.sat.add(&[g, neg(a), neg(b)]);
        self.ands.insert((a, b), g);
        g
    }
    fn or(&mut self, a: Lit, b: Lit) -> Lit {
        neg(self.and(neg(a), neg(b)))
    }
    fn xor(&mut self, a: Lit, b: Lit) -> Lit {
        let flip = (a & 1) ^ (b & 1);
        let (a, b) = (a & !1, b & !1);
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        let r = if a == b {
            self.f()
        } else if a == self.t {
            neg(b)
        } else if b == self.t {
            neg(a)
        } else if let Some(&g) = self.xors.get(&(a, b)) {
            g
        } else {
            let g = self.sat.new_var();
            self.sat.add(&[neg(g), a, b]);
            self.sat.add(&[neg(g), neg(a), neg(b)]);
            self.sat.add(&[g, neg(a), b]);
            self.sat.add(&[g, a, neg(b)]);
            self.xors.insert((a, b), g);
            g
        };
        r ^ flip
    }
    fn mux(&mut self, c: Lit, a: Lit, b: Lit) -> Lit {
        if c == self.t || a == b {
            return a;
        }
        if c == self.f() {
            return b;
        }
        if a == neg(b) {
            return neg(self.xor(c, a));
        }
        if a == self.t {
            return self.or(c, b);
        }
        if a == self.f() {
            return self.and(neg(c), b);
        }
        if b == self.t {
            return self.or(neg(c), a);
        }
        if b == self.f() {
            return self.and(c, a);
        }
        let g = self.sat.new_var();
        self.sat.add(&[neg(c), neg(a), g]);
        self.sat.add(&[neg(c), a, neg(g)]);
        self.sat.add(&[c, neg(b), g]);
        self.sat.add(&[c, b, neg(g)]);
        self.sat.add(&[neg(a), neg(b), g]);
        self.sat.add(&[a, b, neg(g)]);
        g
    }
    fn maj(&mut self, a: Lit, b: Lit, c: Lit) -> Lit {
        let x = self.and(a, b);
        let y = self.or(a, b);
        let z = self.and(y, c);
        self.or(x, z)
    }
    /// Full adder with direct clauses (sum and carry constrain each other).
    fn full(&mut self, a: Lit, b: Lit, c: Lit) -> (Lit, Lit) {
        let k = |l: Lit| l >> 1 == self.t >> 1;
        if k(a) || k(b) || k(c) || a >> 1 == b >> 1 || a >> 1 == c >> 1 || b >> 1 == c >> 1 {
            let x = self.xor(a, b);
            let s = self.xor(x, c);
            let m = self.maj(a, b, c);
            return (s, m);
        }
        let mut v = [a, b, c];
        v.sort();
        if let Some(&r) = self.adders.get(&v) {
            return r;
        }
        let s = self.sat.new_var();
        let m = self.sat.new_var();
        for bits in 0..8u32 {
            // clause for one row of the truth table
            let l: Vec<Lit> = (0..3).map(|i| v[i] ^ ((bits >> i) & 1)).collect();
            let ones = bits.count_ones();
            self.sat.add(&[l[0], l[1], l[2], s ^ (1 ^ (ones & 1))]);
        }
        for (x, y) in [(0, 1), (0, 2), (1, 2)] {
            self.sat.add(&[neg(v[x]), neg(v[y]), m]);
            self.sat.add(&[v[x], v[y], neg(m)]);
        }
        // redundant: sum and carry
        for i in 0..3 {
            self.sat.add(&[neg(m), neg(s), v[i]]);
            self.sat.add(&[m, s, neg(v[i])]);
        }
        self.sat.add(&[neg(m), s, neg(v[0]), neg(v[1]), neg(v[2])]);
        self.adders.insert(v, (s, m));
        (s, m)
    }
    fn add(&mut self, a: &[Lit], b: &[Lit], cin: Lit) -> (Vec<Lit>, Lit) {
        let mut c = cin;
        let mut o = vec![];
        for i in 0..a.len() {
            let (s, m) = self.full(a[i], b[i], c);
            o.push(s);
            c = m;
        }
        (o, c)
    }
    fn inv(a: &[Lit]) -> Vec<Lit> {
        a.iter().map(|&l| neg(l)).collect()
    }
    fn ult(&mut self, a: &[Lit], b: &[Lit]) -> Lit {
        // from the least significant bit: lt = (!a & b) | (!(a^b) & lt)
        let mut lt = self.f();
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            lt = self.mux(x, b[i], lt);
        }
        lt
    }
    fn udivrem(&mut self, a: &[Lit], b: &[Lit]) -> (Vec<Lit>, Vec<Lit>) {
        let w = a.len();
        let f = self.f();
        let mut r = vec![f; w];
        let mut q = vec![f; w];
        for i in (0..w).rev() {
            let top = r[w - 1];
            let mut s = vec![a[i]];
            s.extend_from_slice(&r[..w - 1]);
            // s (w+1 bits with top) >= b ?
            let lt = self.ult(&s, b);
            let ge = self.or(top, neg(lt));
            let nb = Self::inv(b);
            let t = self.t;
            let (d, _) = self.add(&s, &nb, t);
            for k in 0..w {
                r[k] = self.mux(ge, d[k], s[k]);
            }
            q[i] = ge;
        }
        (q, r)
    }
    fn negate(&mut self, a: &[Lit]) -> Vec<Lit> {
        let n = Self::inv(a);
        let z = vec![self.f(); a.len()];
        let t = self.t;
        self.add(&n, &z, t).0
    }
    fn muxv(&mut self, c: Lit, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
        (0..a.len()).map(|i| self.mux(c, a[i], b[i])).collect()
    }

    fn get(&self, e: Id) -> &[Lit] {
        self.memo[e as usize].as_ref().unwrap()
    }

    fn blast(&mut self, x: &Exprs, e: Id) -> Result<(), Impure> {
        if self.memo.len() < x.len() {
            self.memo.resize(x.len(), None);
            self.own.resize(x.len(), (0, 0));
        }
        if self.memo[e as usize].is_some() {
            return Ok(());
        }
        let n = x.node(e);
        if !self.bits {
            // order encoding: comparisons of plain variables become atoms
            match n {
                Node::Var(_) if x.width(e) > 1 => return Err(Impure),
                Node::Bin(op @ (Op::Eq | Op::Ult | Op::Slt), a, b) if Self::order_term(x, a) || Self::order_term(x, b) => {
                    let l = self.oc(x, op, a, b)?;
                    self.memo[e as usize] = Some(vec![l].into_boxed_slice());
                    return Ok(());
                }
                _ => {}
            }
        }
        match n {
            Node::Const(_) | Node::Var(_) => {}
            Node::Not(a) | Node::Extract(a, _) | Node::SExt(a) => self.blast(x, a)?,
            Node::Ite(q, a, b) => {
                self.blast(x, q)?;
                self.blast(x, a)?;
                self.blast(x, b)?;
            }
            Node::Concat(a, b) | Node::Bin(_, a, b) => {
                self.blast(x, a)?;
                self.blast(x, b)?;
            }
        }
        let w = x.width(e) as usize;
        let first = self.sat.nvars() as u32;
        let r: Vec<Lit> = match n {
            Node::Const(v) => (0..w).map(|i| if (v >> i) & 1 == 1 { self.t } else { neg(self.t) }).collect(),
            Node::Var(_) => (0..w)
                .map(|_| {
                    let l = self.sat.new_var();
                    self.sat.decision(l >> 1);
                    l
                })
                .collect(),
            Node::Not(a) => vec![neg(self.get(a)[0])],
            Node::Extract(a, lo) => self.get(a)[lo as usize..lo as usize + w].to_vec(),
            Node::SExt(a) => {
                let a = self.get(a).to_vec();
                (0..w).map(|i| a[i.min(a.len() - 1)]).collect()
            }
            Node::Concat(h, l) => {
                let mut v = self.get(l).to_vec();
                v.extend_from_slice(self.get(h));
                v
            }
            Node::Ite(q, a, b) => {
                let q = self.get(q)[0];
                let a = self.get(a).to_vec();
                let b = self.get(b).to_vec();
                self.muxv(q, &a, &b)
            }
            Node::Bin(op, a, b) => {
                let a = self.get(a).to_vec();
                let b = self.get(b).to_vec();
                let f = self.f();
                let t = self.t;
                match op {
                    Op::And => (0..w).map(|i| self.and(a[i], b[i])).collect(),
                    Op::Or => (0..w).map(|i| self.or(a[i], b[i])).collect(),
                    Op::Xor => (0..w).map(|i| self.xor(a[i], b[i])).collect(),
                    Op::Add => self.add(&a, &b, f).0,
                    Op::Sub => {
                        let nb = Self::inv(&b);
                        self.add(&a, &nb, t).0
                    }
                    Op::Mul => {
                        let mut acc = vec![f; w];
                        for i in 0..w {
                            if b[i] == f {
                                continue;
                            }
                            let mut row = vec![f; i];
                            for k in 0..w - i {
                                row.push(self.and(a[k], b[i]));
                            }
                            acc = self.add(&acc, &row, f).0;
                        }
                        acc
                    }
                    Op::UDiv => self.udivrem(&a, &b).0,
                    Op::URem => self.udivrem(&a, &b).1,
                    Op::SDiv | Op::SRem => {
                        let (sa, sb) = (a[w - 1], b[w - 1]);
                        let na = self.negate(&a);
                        let nb = self.negate(&b);
                        let ua = self.muxv(sa, &na, &a);
                        let ub = self.muxv(sb, &nb, &b);
                        let (q, r) = self.udivrem(&ua, &ub);
                        if op == Op::SDiv {
                            let s = self.xor(sa, sb);
                            let nq = self.negate(&q);
                            self.muxv(s, &nq, &q)
                        } else {
                            let nr = self.negate(&r);
                            self.muxv(sa, &nr, &r)
                        }
                    }
                    Op::Shl | Op::LShr | Op::AShr => {
                        let fill = if op == Op::AShr { a[w - 1] } else { f };
                        let mut cur = a.clone();
                        let mut k = 0;
                        while (1usize << k) < w {
                            let s = 1usize << k;
                            let sh: Vec<Lit> = (0..w)
                                .map(|i| match op {
                                    Op::Shl => {
                                        if i >= s {
                                            cur[i - s]
                                        } else {
                                            f
                                        }
                                    }
                                    _ => {
                                        if i + s < w {
                                            cur[i + s]
                                        } else {
                                            fill
                                        }
                                    }
                                })
                                .collect();
                            cur = self.muxv(b[k], &sh, &cur);
                            k += 1;
                        }
                        // any higher shift bit set, or shift >= w for non powers of two
                        let mut big = f;
                        for &l in &b[k.min(w)..] {
                            big = self.or(big, l);
                        }
                        if !w.is_power_of_two() {
                            let wc: Vec<Lit> = (0..w).map(|i| if (w >> i.min(63)) & 1 == 1 && i < 63 { t } else { f }).collect();
                            let lt = self.ult(&b, &wc);
                            big = self.or(big, neg(lt));
                        }
                        let fv = vec![fill; w];
                        self.muxv(big, &fv, &cur)
                    }
                    Op::Eq => {
                        let mut r = t;
                        for i in 0..a.len() {
                            let d = self.xor(a[i], b[i]);
                            r = self.and(r, neg(d));
                        }
                        vec![r]
                    }
                    Op::Ult => vec![self.ult(&a, &b)],
                    Op::Slt => {
                        let mut a = a;
                        let mut b = b;
                        let n = a.len() - 1;
                        a[n] = neg(a[n]);
                        b[n] = neg(b[n]);
                        vec![self.ult(&a, &b)]
                    }
                }
            }
        };
        self.own[e as usize] = (first, self.sat.nvars() as u32);
        self.memo[e as usize] = Some(r.into_boxed_slice());
        Ok(())
    }
    fn order_term(x: &Exprs, mut e: Id) -> bool {
        loop {
            match x.node(e) {
                Node::Var(_) => return x.width(e) > 1,
                Node::Ite(_, a, _) => e = a,
                _ => return false,
            }
        }
    }
    fn lit(&mut self, x: &Exprs, e: Id) -> Result<Lit, Impure> {
        self.blast(x, e)?;
        Ok(self.get(e)[0])
    }

    fn cone(x: &Exprs, e: Id, own: &[(u32, u32)], stamp: &mut [u32], gen: u32, out: &mut Vec<u32>) {
        let i = e as usize;
        if stamp[i] == gen {
            return;
        }
        stamp[i] = gen;
        let (a, b) = own[i];
        out.extend(a..b);
        match x.node(e) {
            Node::Const(_) | Node::Var(_) => {}
            Node::Not(a) | Node::Extract(a, _) | Node::SExt(a) => Self::cone(x, a, own, stamp, gen, out),
            Node::Ite(q, a, b) => {
                Self::cone(x, q, own, stamp, gen, out);
                Self::cone(x, a, own, stamp, gen, out);
                Self::cone(x, b, own, stamp, gen, out);
            }
            Node::Concat(a, b) | Node::Bin(_, a, b) => {
                Self::cone(x, a, own, stamp, gen, out);
                Self::cone(x, b, own, stamp, gen, out);
            }
        }
    }

    // ------------------------------------------------------------ order encoding
    //
    // Queries built only from one-bit variables and comparisons (<, =) between plain variables of
    // one width are encoded with one atom per ordered pair of variables plus the axioms of a total
    // preorder.  A bit-vector of width w realises every total preorder of at most 2^w elements, so
    // this is equisatisfiable with the bit-level encoding.
    fn ovar(&mut self, x: &Exprs, e: Id, signed: bool) -> Result<usize, Impure> {
        if let Some(i) = self.ovars.iter().position(|&(v, _)| v == e) {
            return if self.ovars[i].1 == signed { Ok(i) } else { Err(Impure) };
        }
        let n = self.ovars.len();
        let w = x.width(e);
        if w < 8 && n + 1 > 1 << w || n > 60 {
            return Err(Impure);
        }
        self.ovars.push((e, signed));
        let f = self.f();
        let mut row = vec![];
        for i in 0..n {
            let (a, b) = if x.width(self.ovars[i].0) == w && self.ovars[i].1 == signed { (self.sat.new_var(), self.sat.new_var()) } else { (f, f) };
            if a != f {
                self.sat.decision(a >> 1);
                self.sat.decision(b >> 1);
            }
            // a: old < new, b: new < old
            self.olt[i].push(a);
            row.push(b);
        }
        row.push(f);
        self.olt.push(row);
        for i in 0..n {
            if self.olt[i][n] == f {
                continue;
            }
            let (x1, x2) = (neg(self.olt[i][n]), neg(self.olt[n][i]));
            self.sat.add(&[x1, x2]);
            for j in 0..n {
                if i == j || self.olt[j][n] == f {
                    continue;
                }
                // over the triple {i, j, n}: p < q ∧ q <= r → p < r ; p <= q ∧ q < r → p < r
                for (p, q, r) in [(i, j, n), (i, n, j), (n, i, j)] {
                    let (pq, qp, qr, rq, pr) = (self.olt[p][q], self.olt[q][p], self.olt[q][r], self.olt[r][q], self.olt[p][r]);
                    self.sat.add(&[neg(pq), rq, pr]);
                    self.sat.add(&[qp, neg(qr), pr]);
                }
            }
        }
        Ok(n)
    }
    fn oc(&mut self, x: &Exprs, op: Op, a: Id, b: Id) -> Result<Lit, Impure> {
        if a == b {
            return Ok(if op == Op::Eq { self.t } else { self.f() });
        }
        if let Some(&l) = self.ocmp.get(&(op, a, b)) {
            return Ok(l);
        }
        let l = match (x.node(a), x.node(b)) {
            (Node::Ite(c, p, q), _) => {
                let c = self.lit(x, c)?;
                let p = self.oc(x, op, p, b)?;
                let q = self.oc(x, op, q, b)?;
                self.mux(c, p, q)
            }
            (_, Node::Ite(c, p, q)) => {
                let c = self.lit(x, c)?;
                let p = self.oc(x, op, a, p)?;
                let q = self.oc(x, op, a, q)?;
                self.mux(c, p, q)
            }
            (Node::Const(p), Node::Const(q)) => {
                if crate::expr::bin_c(op, x.width(a), p, q) == Some(1) {
                    self.t
                } else {
                    self.f()
                }
            }
            (Node::Var(_), Node::Var(_)) => {
                // equality does not fix a signedness: use that of an existing use, else unsigned
                let signed = match op {
                    Op::Ult => false,
                    Op::Slt => true,
                    _ => self.ovars.iter().find(|v| v.0 == a || v.0 == b).map_or(false, |v| v.1),
                };
                let i = self.ovar(x, a, signed)?;
                let j = self.ovar(x, b, signed)?;
                let (ij, ji) = (self.olt[i][j], self.olt[j][i]);
                if op == Op::Eq {
                    self.and(neg(ij), neg(ji))
                } else {
                    ij
                }
            }
            _ => return Err(Impure),
        };
        self.ocmp.insert((op, a, b), l);
        Ok(l)
    }
    fn model_of(&self, x: &Exprs) -> Vec<u128> {
        let mut m = Vec::with_capacity(x.vars.len());
        for &v in &x.vars {
            let mut val = 0u128;
            if let Some(Some(l)) = self.memo.get(v as usize) {
                for (i, &b) in l.iter().enumerate() {
                    if self.sat.model(b) {
                        val |= 1 << i;
                    }
                }
            }
            m.push(val);
        }
        let n = self.ovars.len();
        for i in 0..n {
            // rank = number of distinct classes strictly below
            let (e, signed) = self.ovars[i];
            let w = x.width(e);
            let below: Vec<usize> = (0..n).filter(|&j| self.sat.model(self.olt[j][i])).collect();
            let same = |j: usize, k: usize| !self.sat.model(self.olt[j][k]) && !self.sat.model(self.olt[k][j]);
            let rank = below.iter().filter(|&&j| !below.iter().any(|&k| k < j && same(j, k))).count() as u128;
            let step = (crate::expr::mask(w.min(64)) / (n as u128 + 1)).min(9).max(1);
            let mut v = (step > 1) as u128 + rank * step;
            if signed {
                v = v.wrapping_add(1 << (w - 1)) & crate::expr::mask(w);
            }
            if let Node::Var(k) = x.node(e) {
                m[k as usize] = v;
            }
        }
        m
    }
    /// Drop everything encoded so far (keeps memory and propagation bounded by what is live).
    fn restart(&mut self, bits: bool) {
        let (o, r, c, p) = (self.order_queries, self.rebuilds, self.sat.conflicts, self.sat.propagations);
        *self = Blaster::new();
        self.bits = bits;
        self.order_queries = o;
        self.rebuilds = r + 1;
        self.sat.conflicts = c;
        self.sat.propagations = p;
    }

    /// Is pc ∧ extra satisfiable?
    pub fn check(&mut self, x: &Exprs, pc: &[Id], extra: Id, budget: u64) -> Option<Option<Vec<u128>>> {
        let cap = if self.bits { 20_000 + 4 * self.floor } else { 100 + 2 * self.floor };
        if self.sat.nvars() > cap {
            self.restart(self.bits);
        }
        let fresh = self.memo.is_empty();
        let mut i = 0;
        while i <= pc.len() {
            let e = if i < pc.len() { pc[i] } else { extra };
            if self.memo.get(e as usize).map_or(true, |m| m.is_none()) {
                self.sat.reset();
                if self.blast(x, e).is_err() {
                    if std::env::var("SYMEX_IMPURE").is_ok() {
                        eprintln!("impure: {}", x.show(e, 8));
                    }
                    self.restart(true);
                    i = 0;
                    continue;
                }
            }
            i += 1;
        }
        if fresh {
            self.floor = self.sat.nvars();
        }
        if !self.bits {
            self.order_queries += 1;
        }
        let asm: Vec<Lit> = pc.iter().chain([&extra]).map(|&e| self.get(e)[0]).collect();
        let Blaster { sat, own, stamp, gen, bits, .. } = self;
        let mut cone = || {
            if !*bits {
                // atoms and one-bit inputs are decision variables already
                return vec![];
            }
            *gen += 1;
            if stamp.len() < x.len() {
                stamp.resize(x.len(), 0);
            }
            let mut rel = vec![];
            for &e in pc.iter().chain([&extra]) {
                Self::cone(x, e, own, stamp, *gen, &mut rel);
            }
            rel
        };
        match sat.solve(&asm, &mut cone, budget) {
            None => None,
            Some(false) => Some(None),
            Some(true) => Some(Some(self.model_of(x))),
        }
    }
}
