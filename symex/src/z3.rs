//! Minimal FFI to the Z3 C API (libz3), plus an incremental solver wrapper.
#![allow(non_camel_case_types)]
use crate::expr::{Exprs, Id, Node, Op};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) }.to_string_lossy().to_string();
    eprintln!("z3 error: {m}");
    println!("{{\"error\":\"z3 error: {}\"}}", m.replace('"', "'"));
    std::process::exit(3);
}

pub enum Res {
    Sat(Vec<u128>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    ctx: P,
    solver: P,
    memo: Vec<P>,
    sorts: Vec<P>,
    bool_sort: P,
    asserted: Vec<Id>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub solver_us: u64,
    pub dump: Option<std::path::PathBuf>,
    pub dumped: u64,
    pub dump_every: u64,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()) }.to_string_lossy().to_string()
}

impl Z3 {
    pub fn new(kind: &str, timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(ctx, on_err);
            let solver = if kind == "smt" {
                Z3_mk_solver(ctx)
            } else {
                let l = CString::new(if kind == "fd" { "QF_FD" } else { "QF_BV" }).unwrap();
                Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()))
            };
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let t = CString::new("rlimit").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, solver, p);
            let bool_sort = Z3_mk_bool_sort(ctx);
            Z3_inc_ref(ctx, bool_sort);
            Z3 {
                ctx,
                solver,
                memo: vec![],
                sorts: vec![std::ptr::null_mut(); 257],
                bool_sort,
                asserted: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                solver_us: 0,
                dump: None,
                dumped: 0,
                dump_every: 1,
            }
        }
    }

    fn sort(&mut self, w: u32) -> P {
        let s = self.sorts[w as usize];
        if !s.is_null() {
            return s;
        }
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, w);
            Z3_inc_ref(self.ctx, s);
            self.sorts[w as usize] = s;
            s
        }
    }

    /// as bit-vector (width-1 nodes live as Bool in the memo)
    fn bv(&mut self, x: &Exprs, e: Id) -> P {
        let a = self.ast(x, e);
        if x.width(e) == 1 {
            unsafe {
                let s = self.sort(1);
                let one = Z3_mk_numeral(self.ctx, c"1".as_ptr(), s);
                Z3_inc_ref(self.ctx, one);
                let zero = Z3_mk_numeral(self.ctx, c"0".as_ptr(), s);
                Z3_inc_ref(self.ctx, zero);
                let r = Z3_mk_ite(self.ctx, a, one, zero);
                Z3_inc_ref(self.ctx, r);
                r
            }
        } else {
            a
        }
    }

    fn ast(&mut self, x: &Exprs, e: Id) -> P {
        let i = e as usize;
        if self.memo.len() <= i {
            self.memo.resize(x.len().max(i + 1), std::ptr::null_mut());
        }
        if !self.memo[i].is_null() {
            return self.memo[i];
        }
        let c = self.ctx;
        let w = x.width(e);
        let r = unsafe {
            match x.node(e) {
                Node::Const(v) => {
                    if w == 1 {
                        if v == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        let s = self.sort(w);
                        let t = CString::new(v.to_string()).unwrap();
                        Z3_mk_numeral(c, t.as_ptr(), s)
                    }
                }
                Node::Var(n) => {
                    let t = CString::new(format!("v{n}")).unwrap();
                    let s = if w == 1 { self.bool_sort } else { self.sort(w) };
                    Z3_mk_const(c, Z3_mk_string_symbol(c, t.as_ptr()), s)
                }
                Node::Not(a) => {
                    let a = self.ast(x, a);
                    Z3_mk_not(c, a)
                }
                Node::Ite(q, a, b) => {
                    let q = self.ast(x, q);
                    let a = self.ast(x, a);
                    let b = self.ast(x, b);
                    Z3_mk_ite(c, q, a, b)
                }
                Node::Extract(a, lo) => {
                    let aa = self.bv(x, a);
                    let r = Z3_mk_extract(c, lo + w - 1, lo, aa);
                    if w == 1 {
                        Z3_inc_ref(c, r);
                        let s = self.sort(1);
                        let one = Z3_mk_numeral(c, c"1".as_ptr(), s);
                        Z3_inc_ref(c, one);
                        Z3_mk_eq(c, r, one)
                    } else {
                        r
                    }
                }
                Node::SExt(a) => {
                    let aw = x.width(a);
                    let a = self.bv(x, a);
                    Z3_mk_sign_ext(c, w - aw, a)
                }
                Node::Concat(h, l) => {
                    let lw = x.width(l);
                    if x.as_const(h) == Some(0) {
                        let l = self.bv(x, l);
                        Z3_mk_zero_ext(c, w - lw, l)
                    } else {
                        let h = self.bv(x, h);
                        let l = self.bv(x, l);
                        Z3_mk_concat(c, h, l)
                    }
                }
                Node::Bin(op, a, b) => {
                    let boolean = x.width(a) == 1;
                    let aa = self.ast(x, a);
                    let bb = self.ast(x, b);
                    match (op, boolean) {
                        (Op::And, true) => Z3_mk_and(c, 2, [aa, bb].as_ptr()),
                        (Op::Or, true) => Z3_mk_or(c, 2, [aa, bb].as_ptr()),
                        (Op::Xor, true) | (Op::Add, true) | (Op::Sub, true) => Z3_mk_xor(c, aa, bb),
                        (Op::Eq, _) => Z3_mk_eq(c, aa, bb),
                        (_, true) => {
                            // rare width-1 operation: go through bit-vectors of width 1
                            let aa = self.bv(x, a);
                            let bb = self.bv(x, b);
                            match op {
                                Op::Ult => Z3_mk_bvult(c, aa, bb),
                                Op::Slt => Z3_mk_bvslt(c, aa, bb),
                                _ => {
                                    let f = self.binf(op);
                                    let r = f(c, aa, bb);
                                    Z3_inc_ref(c, r);
                                    let s = self.sort(1);
                                    let one = Z3_mk_numeral(c, c"1".as_ptr(), s);
                                    Z3_inc_ref(c, one);
                                    Z3_mk_eq(c, r, one)
                                }
                            }
                        }
                        (_, false) => self.binf(op)(c, aa, bb),
                    }
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.memo[i] = r;
        r
    }

    fn binf(&self, op: Op) -> unsafe extern "C" fn(P, P, P) -> P {
        match op {
            Op::Add => Z3_mk_bvadd,
            Op::Sub => Z3_mk_bvsub,
            Op::Mul => Z3_mk_bvmul,
            Op::UDiv => Z3_mk_bvudiv,
            Op::URem => Z3_mk_bvurem,
            Op::SDiv => Z3_mk_bvsdiv,
            Op::SRem => Z3_mk_bvsrem,
            Op::Shl => Z3_mk_bvshl,
            Op::LShr => Z3_mk_bvlshr,
            Op::AShr => Z3_mk_bvashr,
            Op::And => Z3_mk_bvand,
            Op::Or => Z3_mk_bvor,
            Op::Xor => Z3_mk_bvxor,
            Op::Eq => Z3_mk_eq,
            Op::Ult => Z3_mk_bvult,
            Op::Slt => Z3_mk_bvslt,
        }
    }

    /// Is pc ∧ extra satisfiable?  pc is synchronised incrementally with the solver stack.
    pub fn check(&mut self, x: &Exprs, pc: &[Id], extra: Id) -> Res {
        let t0 = Instant::now();
        unsafe {
            let mut n = 0;
            while n < pc.len() && n < self.asserted.len() && pc[n] == self.asserted[n] {
                n += 1;
            }
            if self.asserted.len() > n {
                Z3_solver_pop(self.ctx, self.solver, (self.asserted.len() - n) as c_uint);
                self.asserted.truncate(n);
            }
            for &c in &pc[n..] {
                let a = self.ast(x, c);
                Z3_solver_push(self.ctx, self.solver);
                Z3_solver_assert(self.ctx, self.solver, a);
                self.asserted.push(c);
            }
            let a = self.ast(x, extra);
            Z3_solver_push(self.ctx, self.solver);
            Z3_solver_assert(self.ctx, self.solver, a);
            self.queries += 1;
            let r = Z3_solver_check(self.ctx, self.solver);
            let out = match r {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut vals = Vec::with_capacity(x.vars.len());
                    for &v in &x.vars {
                        let a = self.ast(x, v);
                        let mut o: P = std::ptr::null_mut();
                        Z3_model_eval(self.ctx, m, a, true, &mut o);
                        Z3_inc_ref(self.ctx, o);
                        if x.width(v) == 1 {
                            vals.push((Z3_get_bool_value(self.ctx, o) == 1) as u128);
                        } else {
                            let s = CStr::from_ptr(Z3_get_numeral_string(self.ctx, o));
                            vals.push(s.to_str().unwrap().parse::<u128>().unwrap());
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Res::Sat(vals)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => Res::Unknown,
            };
            if let Some(d) = &self.dump {
                if self.queries % self.dump_every == 0 {
                    let s = CStr::from_ptr(Z3_solver_to_string(self.ctx, self.solver)).to_string_lossy().to_string();
                    let ans = match r {
                        1 => "sat",
                        -1 => "unsat",
                        _ => "unknown",
                    };
                    let f = d.join(format!("q{}.{}.smt2", self.queries, ans));
                    let _ = std::fs::write(f, format!("(set-logic QF_BV)\n{s}\n(check-sat)\n"));
                    self.dumped += 1;
                }
            }
            Z3_solver_pop(self.ctx, self.solver, 1);
            self.solver_us += t0.elapsed().as_micros() as u64;
            out
        }
    }
}

/// Bit-vector queries as linear integer arithmetic: every term is an integer in [0, 2^w), sums and
/// slices introduce quotients.  Covers sums, comparisons, extensions, concatenations, slices and
/// conditionals; anything else is refused.
pub struct Int {
    ctx: P,
    solver: P,
    int: P,
    boolean: P,
    memo: Vec<P>,
    side: Vec<Vec<P>>,
    refused: Vec<bool>,
    fresh: u64,
    stamp: Vec<u32>,
    gen: u32,
    pub queries: u64,
    pub unknown: u64,
}
struct Refused;
type R = Result<P, Refused>;

impl Int {
    pub fn new(rlimit: u32) -> Int {
        unsafe {
            for (k, v) in [(c"smt.arith.solver", c"2"), (c"smt.relevancy", c"0")] {
                Z3_global_param_set(k.as_ptr(), v.as_ptr());
            }
            let ctx = Z3_mk_context_rc(Z3_mk_config());
            Z3_set_error_handler(ctx, on_err);
            let solver = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let t = CString::new("rlimit").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, t.as_ptr()), rlimit);
            Z3_solver_set_params(ctx, solver, p);
            let int = Z3_mk_int_sort(ctx);
            Z3_inc_ref(ctx, int);
            let boolean = Z3_mk_bool_sort(ctx);
            Z3_inc_ref(ctx, boolean);
            Int { ctx, solver, int, boolean, memo: vec![], side: vec![], refused: vec![], fresh: 0, stamp: vec![], gen: 0, queries: 0, unknown: 0 }
        }
    }
    fn keep(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.ctx, a) };
        a
    }
    fn num(&self, s: &str) -> P {
        let t = CString::new(s).unwrap();
        self.keep(unsafe { Z3_mk_numeral(self.ctx, t.as_ptr(), self.int) })
    }
    fn pow(&self, w: u32) -> String {
        if w == 128 {
            "340282366920938463463374607431768211456".into()
        } else {
            (1u128 << w).to_string()
        }
    }
    fn var(&mut self, name: String, sort: P) -> P {
        let t = CString::new(name).unwrap();
        self.keep(unsafe { Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, t.as_ptr()), sort) })
    }
    fn fresh(&mut self) -> P {
        self.fresh += 1;
        let n = format!("k{}", self.fresh);
        let s = self.int;
        self.var(n, s)
    }
    fn add(&self, a: &[P]) -> P {
        self.keep(unsafe { Z3_mk_add(self.ctx, a.len() as c_uint, a.as_ptr()) })
    }
    fn scale(&self, k: &str, a: P) -> P {
        let k = self.num(k);
        self.keep(unsafe { Z3_mk_mul(self.ctx, 2, [k, a].as_ptr()) })
    }
    fn le(&self, a: P, b: P) -> P {
        self.keep(unsafe { Z3_mk_le(self.ctx, a, b) })
    }
    fn lt(&self, a: P, b: P) -> P {
        self.keep(unsafe { Z3_mk_lt(self.ctx, a, b) })
    }
    fn eq(&self, a: P, b: P) -> P {
        self.keep(unsafe { Z3_mk_eq(self.ctx, a, b) })
    }
    fn ite(&self, q: P, a: P, b: P) -> P {
        self.keep(unsafe { Z3_mk_ite(self.ctx, q, a, b) })
    }
    /// 0 <= v < 2^w
    fn bound(&self, v: P, w: u32, side: &mut Vec<P>) {
        let z = self.num("0");
        let m = self.num(&self.pow(w));
        side.push(self.le(z, v));
        side.push(self.lt(v, m));
    }
    /// as an integer
    fn int(&mut self, x: &Exprs, e: Id) -> R {
        let a = self.ast(x, e)?;
        if x.width(e) == 1 {
            let (o, z) = (self.num("1"), self.num("0"));
            Ok(self.ite(a, o, z))
        } else {
            Ok(a)
        }
    }
    fn signed(&mut self, x: &Exprs, e: Id) -> R {
        let w = x.width(e);
        let a = self.int(x, e)?;
        let h = self.num(&self.pow(w - 1));
        let neg = self.le(h, a);
        let m = self.num(&format!("-{}", self.pow(w)));
        let s = self.add(&[a, m]);
        Ok(self.ite(neg, s, a))
    }
    /// e = high * 2^k + low
    fn split(&mut self, a: P, w: u32, k: u32, side: &mut Vec<P>) -> (P, P) {
        let h = self.fresh();
        let l = self.fresh();
        self.bound(h, w - k, side);
        self.bound(l, k, side);
        let hs = self.scale(&self.pow(k), h);
        let sum = self.add(&[hs, l]);
        side.push(self.eq(a, sum));
        (h, l)
    }
    fn ast(&mut self, x: &Exprs, e: Id) -> R {
        let i = e as usize;
        if self.memo.len() <= i {
            let n = x.len().max(i + 1);
            self.memo.resize(n, std::ptr::null_mut());
            self.side.resize(n, vec![]);
            self.refused.resize(n, false);
        }
        if !self.memo[i].is_null() {
            return Ok(self.memo[i]);
        }
        if self.refused[i] {
            return Err(Refused);
        }
        match self.build(x, e) {
            Ok((r, side)) => {
                self.memo[i] = r;
                self.side[i] = side;
                Ok(r)
            }
            Err(_) => {
                self.refused[i] = true;
                Err(Refused)
            }
        }
    }
    fn build(&mut self, x: &Exprs, e: Id) -> Result<(P, Vec<P>), Refused> {
        let c = self.ctx;
        let w = x.width(e);
        let mut side = vec![];
        let r = match x.node(e) {
            Node::Const(v) => {
                if w == 1 {
                    self.keep(unsafe { if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } })
                } else {
                    self.num(&v.to_string())
                }
            }
            Node::Var(n) => {
                let s = if w == 1 { self.boolean } else { self.int };
                let v = self.var(format!("v{n}"), s);
                if w > 1 {
                    self.bound(v, w, &mut side);
                }
                v
            }
            Node::Not(a) => {
                let a = self.ast(x, a)?;
                self.keep(unsafe { Z3_mk_not(c, a) })
            }
            Node::Ite(q, a, b) => {
                let q = self.ast(x, q)?;
                let a = self.ast(x, a)?;
                let b = self.ast(x, b)?;
                self.ite(q, a, b)
            }
            Node::Extract(a, lo) => {
                let aw = x.width(a);
                let mut v = self.int(x, a)?;
                let mut vw = aw;
                if lo + w < aw {
                    v = self.split(v, vw, lo + w, &mut side).1;
                    vw = lo + w;
                }
                if lo > 0 {
                    v = self.split(v, vw, lo, &mut side).0;
                }
                if w == 1 {
                    let one = self.num("1");
                    self.eq(v, one)
                } else {
                    v
                }
            }
            Node::SExt(a) => {
                let aw = x.width(a);
                let v = self.int(x, a)?;
                let h = self.num(&self.pow(aw - 1));
                let neg = self.le(h, v);
                let d = if w == 128 { (u128::MAX - ((1u128 << aw) - 1)).to_string() } else { ((1u128 << w) - (1u128 << aw)).to_string() };
                let d = self.num(&d);
                let s = self.add(&[v, d]);
                self.ite(neg, s, v)
            }
            Node::Concat(h, l) => {
                let lw = x.width(l);
                let h = self.int(x, h)?;
                let l = self.int(x, l)?;
                let hs = self.scale(&self.pow(lw), h);
                self.add(&[hs, l])
            }
            Node::Bin(op, a, b) => {
                let aw = x.width(a);
                if aw == 1 {
                    let p = self.ast(x, a)?;
                    let q = self.ast(x, b)?;
                    let n = |v: P| self.keep(unsafe { Z3_mk_not(c, v) });
                    self.keep(unsafe {
                        match op {
                            Op::And | Op::Mul => Z3_mk_and(c, 2, [p, q].as_ptr()),
                            Op::Or => Z3_mk_or(c, 2, [p, q].as_ptr()),
                            Op::Xor | Op::Add | Op::Sub => Z3_mk_xor(c, p, q),
                            Op::Eq => Z3_mk_eq(c, p, q),
                            Op::Ult => Z3_mk_and(c, 2, [n(p), q].as_ptr()),
                            _ => return Err(Refused),
                        }
                    })
                } else {
                    match op {
                        Op::Eq => {
                            let p = self.int(x, a)?;
                            let q = self.int(x, b)?;
                            self.eq(p, q)
                        }
                        Op::Ult => {
                            let p = self.int(x, a)?;
                            let q = self.int(x, b)?;
                            self.lt(p, q)
                        }
                        Op::Slt => {
                            let p = self.signed(x, a)?;
                            let q = self.signed(x, b)?;
                            self.lt(p, q)
                        }
                        Op::Add | Op::Sub => {
                            // one quotient for the whole sum
                            let (t, k) = x.lin_terms(&[(e, 1)], w);
                            let m = crate::expr::mask(w);
                            let half = 1u128 << (w - 1);
                            let mut parts = vec![];
                            let (mut lo, mut hi) = (0i64, 0i64);
                            for (e, k) in t {
                                let p = self.int(x, e)?;
                                if k < half {
                                    if k > 1 << 20 {
                                        return Err(Refused);
                                    }
                                    hi += k as i64;
                                    parts.push(self.scale(&k.to_string(), p));
                                } else {
                                    let k = (m - k).wrapping_add(1);
                                    if k > 1 << 20 {
                                        return Err(Refused);
                                    }
                                    lo -= k as i64;
                                    parts.push(self.scale(&format!("-{k}"), p));
                                }
                            }
                            if k != 0 {
                                if k < half {
                                    hi += 1;
                                    parts.push(self.num(&k.to_string()));
                                } else {
                                    lo -= 1;
                                    parts.push(self.num(&format!("-{}", (m - k).wrapping_add(1))));
                                }
                            }
                            // r = sum - q * 2^w
                            let q = self.fresh();
                            let (l, h) = (self.num(&lo.to_string()), self.num(&hi.to_string()));
                            side.push(self.le(l, q));
                            side.push(self.le(q, h));
                            let mq = self.scale(&format!("-{}", self.pow(w)), q);
                            parts.push(mq);
                            let r = self.add(&parts);
                            self.bound(r, w, &mut side);
                            r
                        }
                        _ => return Err(Refused),
                    }
                }
            }
        };
        Ok((r, side))
    }
    fn sides(&mut self, x: &Exprs, e: Id) {
        let i = e as usize;
        if self.stamp.len() < self.memo.len() {
            self.stamp.resize(self.memo.len(), 0);
        }
        if self.memo[i].is_null() || self.stamp[i] == self.gen {
            return;
        }
        self.stamp[i] = self.gen;
        for k in 0..self.side[i].len() {
            unsafe { Z3_solver_assert(self.ctx, self.solver, self.side[i][k]) };
        }
        match x.node(e) {
            Node::Const(_) | Node::Var(_) => {}
            Node::Not(a) | Node::Extract(a, _) | Node::SExt(a) => self.sides(x, a),
            Node::Ite(q, a, b) => {
                self.sides(x, q);
                self.sides(x, a);
                self.sides(x, b);
            }
            Node::Bin(Op::Add | Op::Sub, _, _) if x.width(e) > 1 => {
                for (t, _) in x.lin_terms(&[(e, 1)], x.width(e)).0 {
                    self.sides(x, t);
                }
            }
            Node::Concat(a, b) | Node::Bin(_, a, b) => {
                self.sides(x, a);
                self.sides(x, b);
            }
        }
    }
    /// None: outside the fragment, or not decided within the resource limit.
    pub fn check(&mut self, x: &Exprs, pc: &[Id], extra: Id) -> Res {
        let mut asts = vec![];
        for &c in pc.iter().chain([&extra]) {
            match self.ast(x, c) {
                Ok(a) => asts.push(a),
                Err(_) => return Res::Unknown,
            }
        }
        self.queries += 1;
        self.gen += 1;
        unsafe {
            Z3_solver_reset(self.ctx, self.solver);
            for &c in pc.iter().chain([&extra]) {
                self.sides(x, c);
            }
            for a in asts {
                Z3_solver_assert(self.ctx, self.solver, a);
            }
            match Z3_solver_check(self.ctx, self.solver) {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut vals = Vec::with_capacity(x.vars.len());
                    for &v in &x.vars {
                        let a = self.memo.get(v as usize).copied().unwrap_or(std::ptr::null_mut());
                        if a.is_null() || self.stamp[v as usize] != self.gen {
                            vals.push(0);
                            continue;
                        }
                        let mut o: P = std::ptr::null_mut();
                        Z3_model_eval(self.ctx, m, a, true, &mut o);
                        Z3_inc_ref(self.ctx, o);
                        if x.width(v) == 1 {
                            vals.push((Z3_get_bool_value(self.ctx, o) == 1) as u128);
                        } else {
                            let s = CStr::from_ptr(Z3_get_numeral_string(self.ctx, o));
                            vals.push(s.to_str().unwrap().parse::<u128>().unwrap());
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Res::Sat(vals)
                }
                -1 => Res::Unsat,
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            }
        }
    }
}
