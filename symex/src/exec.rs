//! The symbolic executor.
use crate::expr::{bin_c, mask, sx, Exprs, Id, Node, Op};
use crate::ir::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    E(Id),
    Agg(Rc<Vec<Val>>),
}

/// Memory object: concrete bytes plus, per byte, an expression id (0 = concrete; otherwise id+1).
#[derive(Clone)]
pub struct Obj {
    data: Vec<u8>,
    sym: Vec<u32>,
    heap: bool,
}
impl Obj {
    fn new(n: usize, heap: bool) -> Obj {
        Obj { data: vec![0; n], sym: vec![], heap }
    }
}

#[derive(Clone)]
struct Frame {
    f: Rc<Func>,
    regs: Vec<Val>,
    block: u32,
    prev: u32,
    ip: usize,
    ret_dst: Option<u32>,
    ret_block: Option<u32>,
    allocas: Vec<u64>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    dynm: Vec<Option<Rc<Obj>>>,
    gmut: BTreeMap<u32, Rc<Obj>>,
    pc: Vec<Id>,
    known: Vec<Id>,
    model: Rc<Vec<u128>>,
    inputs: Vec<Id>, // symbolic inputs in call order
    panic_ok: Option<Val>,
    observes: Vec<(Val, u32)>,
    steps: u64,
    checks: u32,
    live: i64,
}

pub enum Stop {
    /// path finished (normally or pruned)
    End(&'static str),
    /// the engine cannot continue soundly
    Err(String),
}
type X<T> = Result<T, Stop>;

pub struct Violation {
    pub kind: String,
    pub id: u64,
    pub inputs: Vec<u128>,
    pub place: String,
}

pub struct Limits {
    pub max_steps: u64,
    pub max_depth: usize,
    pub max_paths: u64,
    pub deadline: Instant,
    pub max_violations: usize,
    pub samples: usize,
}

pub struct Sample {
    pub inputs: Vec<u128>,
    pub observes: Vec<u128>,
    pub outcome: &'static str,
}

#[derive(Default)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub solver_us: u64,
    pub crosschecked: u64,
    pub cross_unknown: u64,
    /// answered by rewriting under the path condition / from the query cache / by the solver
    pub rewritten: u64,
    pub cached: u64,
    pub decided: u64,
    pub int_decided: u64,
}

/// Cross-check sampling: `batch` samples at gap 1, then `batch` at gap 2, ...
pub struct Xs {
    pub batch: u64,
    pub gap: u64,
    pub seen: u64,
    pub done: u64,
}

pub struct Engine {
    pub m: Module,
    pub x: Exprs,
    pub z: Z3,
    pub b: crate::blast::Blaster,
    pub st: Stats,
    /// every n-th UNSAT answer of a property check / of a feasibility query is re-decided by Z3
    pub xcheck: Xs,
    pub xfeas: Xs,
    pub only_z3: bool,
    pub i: crate::z3::Int,
    /// conflicts allowed at bit level before the integer encoding is tried
    pub easy: u64,
    /// Fork on data selections too (keeps path conditions conjunctive).
    pub fork_select: bool,
    /// rewritten path condition: (conjunct, rewritten, undo mark, variable mask before)
    spc: Vec<(Id, Id, usize, u128)>,
    facts: HashMap<Id, Id>,
    undo: Vec<(Id, Option<Id>)>,
    fmask: u128,
    rmemo: HashMap<Id, Id>,
    qcache: HashMap<Vec<Id>, Option<Rc<Vec<u128>>>>,
    funcs: HashMap<Rc<str>, Rc<Func>>,
    gcache: HashMap<u32, Rc<Obj>>,
    gconst: HashMap<u32, bool>,
    stack: Vec<State>,
    pub lim: Limits,
    input_vars: HashMap<(u32, usize), Id>,
    pub paths: u64,
    pub completed: u64,
    pub panics: u64,
    pub pruned: u64,
    pub forks: u64,
    pub steps: u64,
    pub check_queries: u64,
    pub checks_hit: BTreeMap<u64, u64>,
    pub violations: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub seen_fns: HashSet<Rc<str>>,
    pub seen_dbg: HashSet<u32>,
    seen_blocks: HashSet<(usize, u32)>,
    pub max_path_steps: u64,
    pub max_frames: usize,
    pub undef_reads: u64,
    rng: u64,
    pub trace: bool,
    pub dead_checks: HashSet<u64>,
}

fn end<T>(s: &'static str) -> X<T> {
    Err(Stop::End(s))
}
fn err<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Err(s.into()))
}

impl Engine {
    pub fn new(m: Module, z: Z3, lim: Limits, seed: u64) -> Engine {
        Engine {
            m,
            x: Exprs::new(),
            z,
            b: crate::blast::Blaster::new(),
            st: Stats::default(),
            xcheck: Xs { batch: 8, gap: 1, seen: 0, done: 0 },
            xfeas: Xs { batch: 8, gap: 1, seen: 0, done: 0 },
            only_z3: false,
            i: crate::z3::Int::new(20_000_000),
            easy: 100,
            fork_select: false,
            spc: vec![],
            facts: HashMap::new(),
            undo: vec![],
            fmask: 0,
            rmemo: HashMap::new(),
            qcache: HashMap::new(),
            funcs: HashMap::new(),
            gcache: HashMap::new(),
            gconst: HashMap::new(),
            stack: vec![],
            lim,
            input_vars: HashMap::new(),
            paths: 0,
            completed: 0,
            panics: 0,
            pruned: 0,
            forks: 0,
            steps: 0,
            check_queries: 0,
            checks_hit: BTreeMap::new(),
            violations: vec![],
            samples: vec![],
            seen_fns: HashSet::new(),
            seen_dbg: HashSet::new(),
            seen_blocks: HashSet::new(),
            max_path_steps: 0,
            max_frames: 0,
            undef_reads: 0,
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            trace: false,
            dead_checks: HashSet::new(),
        }
    }

    fn func(&mut self, name: &str) -> X<Rc<Func>> {
        if let Some(f) = self.funcs.get(name) {
            return Ok(f.clone());
        }
        match self.m.parse_fn(name) {
            Ok(f) => {
                let f = Rc::new(f);
                self.funcs.insert(f.name.clone(), f.clone());
                self.seen_fns.insert(f.name.clone());
                if f.dbg != 0 {
                    self.seen_dbg.insert(f.dbg);
                }
                Ok(f)
            }
            Err(e) => err(format!("parse {name}: {e}")),
        }
    }

    // ---------------------------------------------------------------- values
    fn id(&mut self, v: &Val, w: u32) -> Id {
        match v {
            Val::C(c) => self.x.c(*c, w),
            Val::E(e) => *e,
            Val::Agg(_) => panic!("aggregate where scalar expected"),
        }
    }
    fn val(&self, e: Id) -> Val {
        match self.x.as_const(e) {
            Some(c) => Val::C(c),
            None => Val::E(e),
        }
    }
    fn cv(c: &Cv) -> Val {
        match c {
            Cv::Int(v) => Val::C(*v),
            Cv::Undef => Val::C(0),
            Cv::Agg(v) => Val::Agg(Rc::new(v.iter().map(Self::cv).collect())),
        }
    }
    fn get(&self, st: &State, o: &Opr) -> Val {
        match o {
            Opr::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opr::C(c) => Self::cv(c),
        }
    }
    fn bin(&mut self, op: Op, w: u32, a: &Val, b: &Val) -> X<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return match bin_c(op, w, *x, *y) {
                Some(v) => Ok(Val::C(v)),
                None => err("division by zero in IR"),
            };
        }
        let x = self.id(a, w);
        let y = self.id(b, w);
        let r = self.x.bin(op, x, y);
        Ok(self.val(r))
    }
    fn not1(&mut self, a: &Val) -> Val {
        match a {
            Val::C(v) => Val::C(v ^ 1),
            Val::E(e) => {
                let r = self.x.not(*e);
                self.val(r)
            }
            _ => panic!(),
        }
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        let f = |s: &mut Self, op, x: &Val, y: &Val| s.bin(op, w, x, y).ok().unwrap();
        match p {
            Pred::Eq => f(self, Op::Eq, a, b),
            Pred::Ne => {
                let r = f(self, Op::Eq, a, b);
                self.not1(&r)
            }
            Pred::Ult => f(self, Op::Ult, a, b),
            Pred::Ugt => f(self, Op::Ult, b, a),
            Pred::Uge => {
                let r = f(self, Op::Ult, a, b);
                self.not1(&r)
            }
            Pred::Ule => {
                let r = f(self, Op::Ult, b, a);
                self.not1(&r)
            }
            Pred::Slt => f(self, Op::Slt, a, b),
            Pred::Sgt => f(self, Op::Slt, b, a),
            Pred::Sge => {
                let r = f(self, Op::Slt, a, b);
                self.not1(&r)
            }
            Pred::Sle => {
                let r = f(self, Op::Slt, b, a);
                self.not1(&r)
            }
        }
    }
    fn ite(&mut self, c: &Val, a: &Val, b: &Val, ty: &Ty) -> Val {
        match c {
            Val::C(v) => {
                if *v == 1 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            Val::E(q) => match (a, b) {
                (Val::Agg(x), Val::Agg(y)) => {
                    let v = (0..x.len()).map(|i| self.ite(c, &x[i].clone(), &y[i].clone(), &ty.field(i))).collect();
                    Val::Agg(Rc::new(v))
                }
                _ => {
                    let w = ty.bits();
                    let x = self.id(a, w);
                    let y = self.id(b, w);
                    let r = self.x.ite(*q, x, y);
                    self.val(r)
                }
            },
            _ => panic!(),
        }
    }
    fn zext(&mut self, v: &Val, from: u32, to: u32) -> Val {
        match v {
            Val::C(c) => Val::C(*c),
            Val::E(e) => {
                let _ = from;
                let r = self.x.zext(*e, to);
                self.val(r)
            }
            _ => panic!(),
        }
    }
    fn sext(&mut self, v: &Val, from: u32, to: u32) -> Val {
        match v {
            Val::C(c) => Val::C(sx(*c, from) as u128 & mask(to)),
            Val::E(e) => {
                let r = self.x.sext(*e, to);
                self.val(r)
            }
            _ => panic!(),
        }
    }
    fn trunc(&mut self, v: &Val, to: u32) -> Val {
        match v {
            Val::C(c) => Val::C(*c & mask(to)),
            Val::E(e) => {
                let r = self.x.trunc(*e, to);
                self.val(r)
            }
            _ => panic!(),
        }
    }

    // ---------------------------------------------------------------- solver
    /// Decide pc ∧ extra: bit-blasting + CDCL; every model is validated by evaluation,
    /// and a share of the UNSAT answers is re-decided by Z3.
    fn solve(&mut self, st: &State, extra: Id, check: bool) -> Res {
        let t0 = Instant::now();
        self.st.queries += 1;
        if self.b.bits && !self.only_z3 {
            // rewrite under the path condition, keep what the question depends on, look it up
            let model = st.model.clone();
            self.sync(&st.pc);
            let ex = self.x.rewrite(extra, &self.facts, self.fmask, &mut self.rmemo);
            if let Some(v) = self.x.as_const(ex) {
                if v == 0 {
                    self.st.rewritten += 1;
                    self.st.unsat += 1;
                    self.cross(st, extra, check);
                    return Res::Unsat;
                }
            }
            let mut m = self.x.vmask(ex);
            let mut take = vec![false; self.spc.len()];
            loop {
                let old = m;
                for (i, s) in self.spc.iter().enumerate() {
                    let v = self.x.vmask(s.1);
                    if !take[i] && v & m != 0 {
                        take[i] = true;
                        m |= v;
                    }
                }
                if old == m {
                    break;
                }
            }
            let sl: Vec<Id> = self.spc.iter().zip(&take).filter(|x| *x.1).map(|x| x.0 .1).collect();
            let mut key = sl.clone();
            key.sort();
            key.push(ex);
            let hit = self.qcache.get(&key).cloned();
            if hit.is_some() {
                self.st.cached += 1;
            }
            let r = match hit {
                Some(r) => r,
                None => {
                    let r = self.decide_query(&sl, ex, t0);
                    let r = match r {
                        Res::Sat(v) => Some(Rc::new(v)),
                        Res::Unsat => None,
                        Res::Unknown => return Res::Unknown,
                    };
                    if self.qcache.len() > 2_000_000 {
                        self.qcache.clear();
                    }
                    self.qcache.insert(key, r.clone());
                    r
                }
            };
            let out = match r {
                None => {
                    self.st.unsat += 1;
                    self.cross(st, extra, check);
                    Res::Unsat
                }
                Some(v) => {
                    self.st.sat += 1;
                    let n = self.x.vars.len();
                    let full: Vec<u128> = (0..n)
                        .map(|i| {
                            let from = if m >> i.min(127) & 1 == 1 { &v } else { &model };
                            from.get(i).copied().unwrap_or(0)
                        })
                        .collect();
                    for &c in st.pc.iter().chain([&extra]) {
                        if self.x.eval(c, &full) != 1 {
                            panic!("solver model does not satisfy the query");
                        }
                    }
                    Res::Sat(full)
                }
            };
            self.st.solver_us += t0.elapsed().as_micros() as u64;
            return out;
        }
        let r = self.decide_query(&st.pc, extra, t0);
        match &r {
            Res::Sat(m) => {
                self.st.sat += 1;
                for &c in st.pc.iter().chain([&extra]) {
                    if self.x.eval(c, m) != 1 {
                        panic!("solver model does not satisfy the query");
                    }
                }
            }
            Res::Unsat => {
                self.st.unsat += 1;
                self.cross(st, extra, check);
            }
            Res::Unknown => {}
        }
        self.st.solver_us += t0.elapsed().as_micros() as u64;
        r
    }
    /// Bring the rewritten path condition and its facts in step with `pc`.
    fn sync(&mut self, pc: &[Id]) {
        let mut n = 0;
        while n < pc.len() && n < self.spc.len() && pc[n] == self.spc[n].0 {
            n += 1;
        }
        if n == pc.len() && n == self.spc.len() {
            return;
        }
        self.rmemo.clear();
        while self.spc.len() > n {
            let (_, _, k, m) = self.spc.pop().unwrap();
            for (e, old) in self.undo.drain(k..).rev() {
                match old {
                    Some(o) => self.facts.insert(e, o),
                    None => self.facts.remove(&e),
                };
            }
            self.fmask = m;
        }
        for &c in &pc[n..] {
            let r = self.x.rewrite(c, &self.facts, self.fmask, &mut self.rmemo);
            let (k, m) = (self.undo.len(), self.fmask);
            self.spc.push((c, r, k, m));
            self.fact(r, true);
            self.fact(c, true);
            self.rmemo.clear();
        }
    }
    fn put(&mut self, e: Id, v: Id) {
        if e == v || self.x.as_const(e).is_some() {
            return;
        }
        let old = self.facts.insert(e, v);
        self.undo.push((e, old));
        self.fmask |= self.x.vmask(e);
    }
    fn fact(&mut self, e: Id, v: bool) {
        if self.x.as_const(e).is_some() {
            return;
        }
        let c = self.x.c(v as u128, 1);
        self.put(e, c);
        match (self.x.node(e), v) {
            (Node::Not(a), _) => self.fact(a, !v),
            (Node::Bin(Op::And, a, b), true) | (Node::Bin(Op::Or, a, b), false) if self.x.width(a) == 1 => {
                self.fact(a, v);
                self.fact(b, v);
            }
            (Node::Bin(Op::Eq, a, b), true) => {
                if self.x.as_const(b).is_some() {
                    self.put(a, b);
                }
            }
            (Node::Bin(op @ (Op::Ult | Op::Slt), a, b), true) => {
                let f = self.x.c(0, 1);
                let r = self.x.bin(op, b, a);
                self.put(r, f);
                let q = self.x.bin(Op::Eq, a, b);
                self.put(q, f);
            }
            (Node::Bin(Op::Ult | Op::Slt, a, b), false) => {
                // a >= b; with b >= a known: equal
                if let Node::Bin(op, _, _) = self.x.node(e) {
                    let r = self.x.bin(op, b, a);
                    let q = self.x.bin(Op::Eq, a, b);
                    let f = self.x.c(0, 1);
                    let t = self.x.c(1, 1);
                    if self.facts.get(&r) == Some(&f) {
                        self.put(q, t);
                    } else if self.facts.get(&q) == Some(&f) {
                        self.put(r, t);
                    }
                }
            }
            _ => {}
        }
    }
    fn decide_query(&mut self, pc: &[Id], extra: Id, t0: Instant) -> Res {
        self.st.decided += 1;
        if t0 > self.lim.deadline {
            return Res::Unknown;
        }
        let r = if self.only_z3 {
            self.z.check(&self.x, pc, extra)
        } else {
            let conv = |r| match r {
                None => Res::Unknown,
                Some(Some(m)) => Res::Sat(m),
                Some(None) => Res::Unsat,
            };
            // bit level while it is easy, then integer arithmetic, then bit level without mercy
            let budget = if self.b.bits { self.easy } else { 5_000_000 };
            let mut r = conv(self.b.check(&self.x, pc, extra, budget));
            if let Res::Unknown = r {
                r = self.i.check(&self.x, pc, extra);
                self.st.int_decided += !matches!(r, Res::Unknown) as u64;
            }
            if let Res::Unknown = r {
                r = conv(self.b.check(&self.x, pc, extra, 5_000_000));
            }
            r
        };
        if let Ok(d) = std::env::var("SYMEX_SLOW") {
            let ms = t0.elapsed().as_millis();
            if ms > 300 {
                let t1 = Instant::now();
                self.z.dump = Some(d.clone().into());
                self.z.dump_every = 1;
                let _ = std::fs::create_dir_all(&d);
                let cs = self.b.sat.conflicts;
                let _ = std::fs::write(format!("{d}/q{}.cnf", self.z.queries + 1), self.b.sat.dimacs());
                let _ = self.z.check(&self.x, pc, extra);
                eprint!("total conflicts {cs} int {} ", self.st.int_decided);
                eprintln!("slow query: {} ms ({}), z3 {} ms, dumped {}", ms, matches!(r, Res::Sat(_)), t1.elapsed().as_millis(), self.z.queries);
            }
        }
        match &r {
            Res::Sat(m) => {
                for &c in pc.iter().chain([&extra]) {
                    if self.x.eval(c, m) != 1 {
                        panic!("solver model does not satisfy the query");
                    }
                }
            }
            _ => {}
        }
        r
    }
    /// Re-decide a sample of the UNSAT answers with Z3, on the original query: the gap between
    /// samples grows as the run gets longer.
    fn cross(&mut self, st: &State, extra: Id, check: bool) {
        let s = if check { &mut self.xcheck } else { &mut self.xfeas };
        s.seen += 1;
        if !self.only_z3 && s.batch > 0 && s.seen % s.gap == 0 {
            s.done += 1;
            if s.done % s.batch == 0 {
                s.gap *= 2;
            }
            match self.z.check(&self.x, &st.pc, extra) {
                Res::Unsat => self.st.crosschecked += 1,
                Res::Sat(_) => panic!("solvers disagree: built-in UNSAT, Z3 SAT"),
                Res::Unknown => self.st.cross_unknown += 1,
            }
        }
    }
    fn eval(&mut self, e: Id, m: &Rc<Vec<u128>>) -> u128 {
        self.x.eval(e, m)
    }
    /// Decide a symbolic condition on this path, forking when both sides are feasible.
    /// The forked state re-executes the current instruction; so nothing must have been
    /// modified by the current instruction before this is called.
    fn decide(&mut self, st: &mut State, c: &Val) -> X<bool> {
        let e = match c {
            Val::C(v) => return Ok(*v == 1),
            Val::E(e) => *e,
            _ => return err("agg condition"),
        };
        let ne = self.x.not(e);
        if st.known.contains(&e) {
            return Ok(true);
        }
        if st.known.contains(&ne) {
            return Ok(false);
        }
        let m = st.model.clone();
        let cur = self.eval(e, &m) == 1;
        let (yes, no) = if cur { (e, ne) } else { (ne, e) };
        match self.solve(st, no, false) {
            Res::Unsat => {
                st.known.push(yes);
                Ok(cur)
            }
            Res::Sat(model) => {
                self.forks += 1;
                let mut o = st.clone();
                o.pc.push(no);
                o.known.push(no);
                o.model = Rc::new(model);
                self.stack.push(o);
                st.pc.push(yes);
                st.known.push(yes);
                Ok(cur)
            }
            Res::Unknown => err("solver returned unknown"),
        }
    }
    /// Make a value concrete on this path, forking over all feasible values.
    fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> X<u128> {
        let e = match v {
            Val::C(c) => return Ok(*c),
            Val::E(e) => *e,
            _ => return err("agg concretize"),
        };
        for &k in &st.known {
            if let Node::Bin(Op::Eq, a, b) = self.x.node(k) {
                if a == e {
                    if let Some(c) = self.x.as_const(b) {
                        return Ok(c);
                    }
                }
            }
        }
        let m = st.model.clone();
        let val = self.eval(e, &m);
        let c = self.x.c(val, w);
        let eq = self.x.bin(Op::Eq, e, c);
        // simplification may have turned the equality into something else: record it explicitly
        let d = self.val(eq);
        let r = self.decide(st, &d)?;
        debug_assert!(r);
        Ok(val)
    }

    fn inputs(&mut self, st: &State, model: &Rc<Vec<u128>>) -> Vec<u128> {
        let ids = st.inputs.clone();
        ids.iter().map(|&i| self.eval(i, model)).collect()
    }
    fn place(&self, st: &State) -> String {
        let mut s = vec![];
        for f in st.frames.iter().rev().take(4) {
            s.push(f.f.name.to_string());
        }
        s.join(" < ")
    }

    // ---------------------------------------------------------------- memory
    fn new_obj(&mut self, st: &mut State, o: Obj) -> u128 {
        let n = st.dynm.len() as u64;
        st.dynm.push(Some(Rc::new(o)));
        ((DYN_FIRST + n) as u128) << SLOT
    }
    fn global_obj(&mut self, id: u32) -> X<Rc<Obj>> {
        if let Some(o) = self.gcache.get(&id) {
            return Ok(o.clone());
        }
        let (ty, init, constant) = match self.m.parse_global(id) {
            Ok(t) => t,
            Err(e) => return err(format!("global {}: {e}", self.m.global_list[id as usize].name)),
        };
        let mut o = Obj::new(ty.size() as usize, false);
        match init {
            Some(c) => write_const(&mut o.data, 0, &ty, &c),
            None => return err(format!("external global {}", self.m.global_list[id as usize].name)),
        }
        let o = Rc::new(o);
        self.gcache.insert(id, o.clone());
        self.gconst.insert(id, constant);
        Ok(o)
    }
    fn obj(&mut self, st: &State, addr: u128, n: u64, what: &str) -> X<(Rc<Obj>, usize)> {
        let slot = (addr >> SLOT) as u64;
        let off = (addr & 0xffff_ffff) as usize;
        let o = if slot >= DYN_FIRST {
            match st.dynm.get((slot - DYN_FIRST) as usize) {
                Some(Some(o)) => o.clone(),
                _ => return err(format!("{what}: access to freed/unknown object {addr:#x}")),
            }
        } else if slot >= 1 && (slot as usize) <= self.m.global_list.len() {
            let id = slot as u32 - 1;
            match st.gmut.get(&id) {
                Some(o) => o.clone(),
                None => self.global_obj(id)?,
            }
        } else {
            return err(format!("{what}: bad address {addr:#x} ({})", self.place(st)));
        };
        if off as u64 + n > o.data.len() as u64 {
            return err(format!("{what}: out of bounds {addr:#x}+{n} of {} ({})", o.data.len(), self.place(st)));
        }
        Ok((o, off))
    }
    fn with_mut<T>(&mut self, st: &mut State, addr: u128, n: u64, f: impl FnOnce(&mut Obj, usize) -> T) -> X<T> {
        let slot = (addr >> SLOT) as u64;
        let off = (addr & 0xffff_ffff) as usize;
        if slot >= DYN_FIRST {
            if let Some(Some(o)) = st.dynm.get_mut((slot - DYN_FIRST) as usize) {
                if off as u64 + n > o.data.len() as u64 {
                    return err(format!("store out of bounds {addr:#x}+{n} of {}", o.data.len()));
                }
                return Ok(f(Rc::make_mut(o), off));
            }
            return err("store to freed object");
        }
        if slot >= 1 && (slot as usize) <= self.m.global_list.len() {
            let id = slot as u32 - 1;
            let base = self.global_obj(id)?;
            if self.gconst[&id] {
                return err("store to constant global");
            }
            let o = st.gmut.entry(id).or_insert(base);
            if off as u64 + n > o.data.len() as u64 {
                return err("global store out of bounds");
            }
            return Ok(f(Rc::make_mut(o), off));
        }
        err(format!("store to bad address {addr:#x}"))
    }

    fn read_int(&mut self, st: &State, addr: u128, w: u32) -> X<Val> {
        let n = w.div_ceil(8) as usize;
        let (o, off) = self.obj(st, addr, n as u64, "load")?;
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|&s| s == 0) {
            let mut v = 0u128;
            for i in (0..n).rev() {
                v = (v << 8) | o.data[off + i] as u128;
            }
            return Ok(Val::C(v & mask(w)));
        }
        let mut r: Option<Id> = None;
        for i in 0..n {
            let b = if o.sym[off + i] != 0 { o.sym[off + i] - 1 } else { self.x.c(o.data[off + i] as u128, 8) };
            r = Some(match r {
                None => b,
                Some(l) => self.x.concat(b, l),
            });
        }
        let mut r = r.unwrap();
        if w as usize != n * 8 {
            r = self.x.extract(r, 0, w);
        }
        Ok(self.val(r))
    }
    fn write_int(&mut self, st: &mut State, addr: u128, w: u32, v: &Val) -> X<()> {
        let n = w.div_ceil(8) as usize;
        match v {
            Val::C(c) => {
                let c = *c;
                self.with_mut(st, addr, n as u64, |o, off| {
                    for i in 0..n {
                        o.data[off + i] = (c >> (8 * i)) as u8;
                    }
                    if !o.sym.is_empty() {
                        o.sym[off..off + n].fill(0);
                    }
                })
            }
            Val::E(e) => {
                let e = if w as usize != n * 8 { self.x.zext(*e, n as u32 * 8) } else { *e };
                let mut bytes = vec![];
                for i in 0..n {
                    let b = self.x.extract(e, 8 * i as u32, 8);
                    bytes.push((b, self.x.as_const(b)));
                }
                self.with_mut(st, addr, n as u64, |o, off| {
                    if o.sym.is_empty() {
                        o.sym = vec![0; o.data.len()];
                    }
                    for (i, (b, c)) in bytes.into_iter().enumerate() {
                        match c {
                            Some(c) => {
                                o.data[off + i] = c as u8;
                                o.sym[off + i] = 0;
                            }
                            None => o.sym[off + i] = b + 1,
                        }
                    }
                })
            }
            Val::Agg(_) => err("agg write_int"),
        }
    }
    fn load_at(&mut self, st: &State, addr: u128, ty: &Ty) -> X<Val> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                if ty.bits() > 128 {
                    return err("wide load");
                }
                self.read_int(st, addr, ty.bits())
            }
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                if let Ty::Vec(_, t) = ty {
                    if t.bits() % 8 != 0 {
                        return err("sub-byte vector load");
                    }
                }
                let mut v = vec![];
                for i in 0..ty.count() {
                    v.push(self.load_at(st, addr + ty.field_off(i) as u128, &ty.field(i))?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => err("load type"),
        }
    }
    fn store_at(&mut self, st: &mut State, addr: u128, ty: &Ty, v: &Val) -> X<()> {
        match (ty, v) {
            (_, Val::Agg(a)) => {
                if let Ty::Vec(_, t) = ty {
                    if t.bits() % 8 != 0 {
                        return err("sub-byte vector store");
                    }
                }
                for i in 0..ty.count() {
                    self.store_at(st, addr + ty.field_off(i) as u128, &ty.field(i), &a[i])?;
                }
                Ok(())
            }
            _ => {
                if ty.bits() > 128 {
                    return err("wide store");
                }
                self.write_int(st, addr, ty.bits(), v)
            }
        }
    }
    /// leaves of an ite-tree address: (condition, address)
    fn addr_leaves(&mut self, e: Id, cond: Option<Id>, out: &mut Vec<(Option<Id>, u128)>) {
        match self.x.node(e) {
            Node::Const(c) => out.push((cond, c)),
            Node::Ite(q, a, b) => {
                let nq = self.x.not(q);
                let ca = match cond {
                    None => q,
                    Some(c) => self.x.bin(Op::And, c, q),
                };
                let cb = match cond {
                    None => nq,
                    Some(c) => self.x.bin(Op::And, c, nq),
                };
                self.addr_leaves(a, Some(ca), out);
                self.addr_leaves(b, Some(cb), out);
            }
            _ => unreachable!(),
        }
    }
    fn load(&mut self, st: &mut State, p: &Val, ty: &Ty) -> X<Val> {
        match p {
            Val::C(a) => self.load_at(st, *a, ty),
            Val::E(e) => {
                let ct = self.x.ctree(*e);
                if ct > 0 && ct <= 8 && ty.scalar() {
                    let mut l = vec![];
                    self.addr_leaves(*e, None, &mut l);
                    let mut r: Option<Val> = None;
                    for (c, a) in l.into_iter().rev() {
                        // a leaf may be infeasible (e.g. null): fall back to forking then
                        let v = match self.load_at(st, a, ty) {
                            Ok(v) => v,
                            Err(_) => {
                                r = None;
                                break;
                            }
                        };
                        r = Some(match r {
                            None => v,
                            Some(o) => {
                                let c = Val::E(c.unwrap());
                                self.ite(&c, &v, &o, ty)
                            }
                        });
                    }
                    if let Some(v) = r {
                        return Ok(v);
                    }
                }
                let a = self.concretize(st, p, 64)?;
                self.load_at(st, a, ty)
            }
            _ => err("agg ptr"),
        }
    }
    fn store(&mut self, st: &mut State, p: &Val, ty: &Ty, v: &Val) -> X<()> {
        match p {
            Val::C(a) => self.store_at(st, *a, ty, v),
            Val::E(e) => {
                let ct = self.x.ctree(*e);
                if ct > 0 && ct <= 8 && ty.scalar() {
                    let mut l = vec![];
                    self.addr_leaves(*e, None, &mut l);
                    let mut news = vec![];
                    let mut ok = true;
                    for (c, a) in &l {
                        match self.load_at(st, *a, ty) {
                            Ok(old) => {
                                let c = Val::E(c.unwrap());
                                let n = self.ite(&c, v, &old, ty);
                                news.push((*a, n));
                            }
                            Err(_) => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    // overlapping leaves would be wrong; only accept distinct non-overlapping cells
                    let n = ty.size() as u128;
                    for i in 0..news.len() {
                        for j in 0..i {
                            let (a, b) = (news[i].0, news[j].0);
                            if a < b + n && b < a + n {
                                ok = false;
                            }
                        }
                    }
                    if ok {
                        for (a, n) in news {
                            self.store_at(st, a, ty, &n)?;
                        }
                        return Ok(());
                    }
                }
                let a = self.concretize(st, p, 64)?;
                self.store_at(st, a, ty, v)
            }
            _ => err("agg ptr"),
        }
    }
    fn copy(&mut self, st: &mut State, d: u128, s: u128, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.obj(st, s, n, "memcpy")?;
        let n = n as usize;
        let data = o.data[off..off + n].to_vec();
        let sym = if o.sym.is_empty() { vec![] } else { o.sym[off..off + n].to_vec() };
        self.with_mut(st, d, n as u64, |o, off| {
            o.data[off..off + n].copy_from_slice(&data);
            if sym.is_empty() {
                if !o.sym.is_empty() {
                    o.sym[off..off + n].fill(0);
                }
            } else {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                o.sym[off..off + n].copy_from_slice(&sym);
            }
        })
    }
    fn byte(&mut self, st: &State, a: u128) -> X<Val> {
        self.read_int(st, a, 8)
    }

    // ---------------------------------------------------------------- run
    pub fn run(&mut self, harness: &str) -> Result<(), String> {
        // identical functions are merged into one with several names
        let target = if self.m.fns.contains_key(harness) { None } else { self.m.alias_target(harness) };
        let harness = target.as_deref().unwrap_or(harness);
        let f = match self.func(harness) {
            Ok(f) => f,
            Err(Stop::Err(e)) => return Err(e),
            Err(_) => return Err("no harness".into()),
        };
        let st = State {
            frames: vec![Frame { regs: vec![Val::C(0); f.nregs as usize], f, block: 0, prev: 0, ip: 0, ret_dst: None, ret_block: None, allocas: vec![] }],
            dynm: vec![],
            gmut: BTreeMap::new(),
            pc: vec![],
            known: vec![],
            model: Rc::new(vec![]),
            inputs: vec![],
            panic_ok: None,
            observes: vec![],
            steps: 0,
            checks: 0,
            live: 0,
        };
        self.stack.push(st);
        while let Some(mut st) = self.stack.pop() {
            let r = self.run_path(&mut st);
            self.paths += 1;
            self.max_path_steps = self.max_path_steps.max(st.steps);
            match r {
                Ok(()) => unreachable!(),
                Err(Stop::End(o)) => {
                    match o {
                        "ok" => self.completed += 1,
                        "panic" => self.panics += 1,
                        _ => self.pruned += 1,
                    }
                    if self.trace {
                        let m = st.model.clone();
                        let inp = self.inputs(&st, &m);
                        eprintln!("path {o} steps={} pc={} inputs={:?}", st.steps, st.pc.len(), inp);
                    }
                    if o == "ok" || o == "panic" {
                        self.sample(&st, o);
                    }
                }
                Err(Stop::Err(e)) => {
                    let m = st.model.clone();
                    let inp = self.inputs(&st, &m);
                    return Err(format!("{e} [inputs {inp:?}] at {}", self.place(&st)));
                }
            }
            if self.violations.len() >= self.lim.max_violations {
                return Ok(());
            }
            if self.paths >= self.lim.max_paths {
                return Err("path limit reached".into());
            }
            if Instant::now() > self.lim.deadline {
                return Err(format!("time limit reached after {} paths, {} pending", self.paths, self.stack.len()));
            }
        }
        Ok(())
    }

    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    fn sample(&mut self, st: &State, o: &'static str) {
        // reservoir sampling
        let seen = self.completed + self.panics;
        let slot = if self.samples.len() < self.lim.samples {
            self.samples.len()
        } else {
            let k = (self.rnd() % seen) as usize;
            if k >= self.lim.samples {
                return;
            }
            k
        };
        let m = st.model.clone();
        let inputs = self.inputs(st, &m);
        let mut observes = vec![];
        for (v, w) in st.observes.clone() {
            let e = self.id(&v, w);
            observes.push(self.eval(e, &m));
        }
        let s = Sample { inputs, observes, outcome: o };
        if slot == self.samples.len() {
            self.samples.push(s);
        } else {
            self.samples[slot] = s;
        }
    }

    fn violation(&mut self, st: &State, kind: &str, id: u64, model: &Rc<Vec<u128>>) {
        let inputs = self.inputs(st, model);
        let place = self.place(st);
        self.violations.push(Violation { kind: kind.into(), id, inputs, place });
    }

    fn on_panic(&mut self, st: &mut State, why: &str) -> X<()> {
        // violation unless panic_ok holds
        let ok = st.panic_ok.clone().unwrap_or(Val::C(0));
        let bad = self.not1(&ok);
        match bad {
            Val::C(0) => {}
            Val::C(_) => {
                let m = st.model.clone();
                self.violation(st, &format!("panic: {why}"), 0, &m);
            }
            Val::E(e) => {
                self.check_queries += 1;
                match self.solve(st, e, true) {
                    Res::Unsat => {}
                    Res::Sat(m) => {
                        let m = Rc::new(m);
                        self.violation(st, &format!("panic: {why}"), 0, &m);
                    }
                    Res::Unknown => return err("solver unknown"),
                }
            }
            _ => {}
        }
        end("panic")
    }

    fn run_path(&mut self, st: &mut State) -> X<()> {
        let mut n = 0u32;
        loop {
            if let Err(e) = self.step(st) {
                if std::env::var("SYMEX_WHERE").is_ok() && Instant::now() > self.lim.deadline {
                    eprintln!("out of time after {} steps, {} conditions: {}", st.steps, st.pc.len(), self.place(st));
                }
                return Err(e);
            }
            n += 1;
            if n & 0xfff == 0 && Instant::now() > self.lim.deadline {
                return err("time limit reached");
            }
            if st.steps > self.lim.max_steps {
                let m = st.model.clone();
                self.violation(st, "hang: step limit", 0, &m);
                return end("limit");
            }
            if st.frames.len() > self.lim.max_depth {
                let m = st.model.clone();
                self.violation(st, "hang: recursion limit", 0, &m);
                return end("limit");
            }
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) -> X<()> {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.block;
        fr.prev = from;
        fr.block = to;
        fr.ip = 0;
        let f = fr.f.clone();
        let key = (Rc::as_ptr(&f) as usize, to);
        if self.seen_blocks.insert(key) {
            for i in &f.blocks[to as usize].insts {
                if i.dbg != 0 {
                    self.seen_dbg.insert(i.dbg);
                }
            }
        }
        // phis in parallel
        let mut news = vec![];
        for i in &f.blocks[to as usize].insts {
            match &i.kind {
                Kind::Phi { inc, .. } => {
                    let v = inc.iter().find(|(b, _)| *b == from).map(|(_, v)| v);
                    let v = match v {
                        Some(v) => self.get(st, v),
                        None => return err("phi: unknown predecessor"),
                    };
                    news.push((i.dst.unwrap(), v));
                }
                _ => break,
            }
        }
        let k = news.len();
        let fr = st.frames.last_mut().unwrap();
        for (d, v) in news {
            fr.regs[d as usize] = v;
        }
        fr.ip = k;
        Ok(())
    }

    fn set(&mut self, st: &mut State, d: Option<u32>, v: Val) {
        if let Some(d) = d {
            st.frames.last_mut().unwrap().regs[d as usize] = v;
        }
    }

    fn elementwise2(&mut self, a: &Val, b: &Val, ty: &Ty, f: &mut dyn FnMut(&mut Self, &Val, &Val, u32) -> X<Val>) -> X<Val> {
        match (a, b) {
            (Val::Agg(x), Val::Agg(y)) => {
                let w = ty.field(0).bits();
                let mut v = vec![];
                for i in 0..x.len() {
                    v.push(f(self, &x[i], &y[i], w)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            (Val::Agg(_), _) | (_, Val::Agg(_)) => err("mixed vector operands"),
            _ => f(self, a, b, ty.bits()),
        }
    }

    fn step(&mut self, st: &mut State) -> X<()> {
        st.steps += 1;
        self.steps += 1;
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let inst = &f.blocks[fr.block as usize].insts[fr.ip];
        let mut advance = true;
        match &inst.kind {
            Kind::Nop => {}
            Kind::Alloca { size, count } => {
                let c = self.get(st, count);
                let c = self.concretize(st, &c, 64)?;
                let a = self.new_obj(st, Obj::new((*size as u128 * c) as usize, false));
                let slot = (a >> SLOT) as u64 - DYN_FIRST;
                st.frames.last_mut().unwrap().allocas.push(slot);
                self.set(st, inst.dst, Val::C(a));
            }
            Kind::Load { ty, ptr } => {
                let p = self.get(st, ptr);
                let v = self.load(st, &p, ty)?;
                self.set(st, inst.dst, v);
            }
            Kind::Store { ty, val, ptr } => {
                let p = self.get(st, ptr);
                let v = self.get(st, val);
                self.store(st, &p, ty, &v)?;
            }
            Kind::Gep { base, off, idx } => {
                let mut v = self.get(st, base);
                if *off != 0 {
                    v = self.bin(Op::Add, 64, &v, &Val::C(*off as u128 & mask(64)))?;
                }
                for (o, w, stride) in idx {
                    let mut i = self.get(st, o);
                    if *w < 64 {
                        i = self.sext(&i, *w, 64);
                    } else if *w > 64 {
                        i = self.trunc(&i, 64);
                    }
                    let i = self.bin(Op::Mul, 64, &i, &Val::C(*stride as u128 & mask(64)))?;
                    v = self.bin(Op::Add, 64, &v, &i)?;
                }
                self.set(st, inst.dst, v);
            }
            Kind::Bin { op, ty, a, b } => {
                let a = self.get(st, a);
                let b = self.get(st, b);
                if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && !matches!(b, Val::C(_)) {
                    let z = self.icmp(Pred::Eq, ty.bits(), &b, &Val::C(0));
                    if self.decide(st, &z)? {
                        return err("division by zero in IR");
                    }
                }
                let op = *op;
                let v = self.elementwise2(&a, &b, ty, &mut |s, x, y, w| s.bin(op, w, x, y))?;
                self.set(st, inst.dst, v);
            }
            Kind::Icmp { p, ty, a, b } => {
                let a = self.get(st, a);
                let b = self.get(st, b);
                let p = *p;
                let v = self.elementwise2(&a, &b, ty, &mut |s, x, y, w| Ok(s.icmp(p, w, x, y)))?;
                self.set(st, inst.dst, v);
            }
            Kind::Select { c, a, b, ty, .. } => {
                let c = self.get(st, c);
                let a = self.get(st, a);
                let b = self.get(st, b);
                let v = match &c {
                    Val::Agg(cs) => {
                        let (Val::Agg(x), Val::Agg(y)) = (&a, &b) else { return err("vector select") };
                        let t = ty.field(0);
                        Val::Agg(Rc::new((0..x.len()).map(|i| self.ite(&cs[i], &x[i], &y[i], &t)).collect()))
                    }
                    Val::E(_) if self.fork_select && !matches!((&a, &b), (Val::C(_), Val::C(_))) && !matches!(ty, Ty::Int(1)) => {
                        if self.decide(st, &c)? {
                            a
                        } else {
                            b
                        }
                    }
                    _ => self.ite(&c, &a, &b, ty),
                };
                self.set(st, inst.dst, v);
            }
            Kind::Phi { .. } => return err("phi executed"),
            Kind::Br(b) => {
                self.jump(st, *b)?;
                advance = false;
            }
            Kind::CondBr(c, a, b) => {
                let c = self.get(st, c);
                let t = self.decide(st, &c)?;
                self.jump(st, if t { *a } else { *b })?;
                advance = false;
            }
            Kind::Switch { w, v, default, cases } => {
                let v = self.get(st, v);
                let mut to = None;
                match &v {
                    Val::C(c) => {
                        to = cases.iter().find(|(k, _)| k == c).map(|x| x.1);
                    }
                    Val::E(_) => {
                        // group cases by target to fork less
                        let mut targets: Vec<(u32, Vec<u128>)> = vec![];
                        for (k, t) in cases {
                            match targets.iter_mut().find(|x| x.0 == *t) {
                                Some(x) => x.1.push(*k),
                                None => targets.push((*t, vec![*k])),
                            }
                        }
                        for (t, ks) in targets {
                            if t == *default {
                                continue;
                            }
                            let mut c = Val::C(0);
                            for k in ks {
                                let e = self.icmp(Pred::Eq, *w, &v, &Val::C(k));
                                c = self.bin(Op::Or, 1, &c, &e)?;
                            }
                            if self.decide(st, &c)? {
                                to = Some(t);
                                break;
                            }
                        }
                    }
                    _ => return err("agg switch"),
                }
                self.jump(st, to.unwrap_or(*default))?;
                advance = false;
            }
            Kind::Call { name, target, args, ret, noreturn, normal } => {
                let name: Rc<str> = match name {
                    Some(n) => n.clone(),
                    None => {
                        let t = self.get(st, target);
                        let a = self.concretize(st, &t, 64)?;
                        if a < FN_BASE || (a - FN_BASE) / 16 >= self.m.fn_names.len() as u128 {
                            return err(format!("indirect call to {a:#x}"));
                        }
                        Rc::from(self.m.fn_names[((a - FN_BASE) / 16) as usize].as_str())
                    }
                };
                let nr = *noreturn || self.m.fns.get(&*name).map(|f| f.noreturn).unwrap_or(false);
                if nr {
                    let w = short(&name);
                    return self.on_panic(st, &w);
                }
                let vals: Vec<Val> = args.iter().map(|(_, o)| self.get(st, o)).collect();
                let has_body = self.m.fns.get(&*name).map(|f| f.body.is_some()).unwrap_or(false);
                if has_body {
                    let callee = self.func(&name)?;
                    let fr = st.frames.last_mut().unwrap();
                    fr.ip += 1;
                    let mut regs = vec![Val::C(0); callee.nregs as usize];
                    for (i, p) in callee.params.iter().enumerate() {
                        if i < vals.len() {
                            regs[*p as usize] = vals[i].clone();
                        }
                    }
                    st.frames.push(Frame { f: callee, regs, block: 0, prev: 0, ip: 0, ret_dst: inst.dst, ret_block: *normal, allocas: vec![] });
                    self.max_frames = self.max_frames.max(st.frames.len());
                    let key = (Rc::as_ptr(&st.frames.last().unwrap().f) as usize, 0);
                    if self.seen_blocks.insert(key) {
                        let f = st.frames.last().unwrap().f.clone();
                        for i in &f.blocks[0].insts {
                            if i.dbg != 0 {
                                self.seen_dbg.insert(i.dbg);
                            }
                        }
                    }
                    return Ok(());
                }
                let tys: Vec<Ty> = args.iter().map(|(t, _)| t.clone()).collect();
                let v = self.builtin(st, &name, &vals, &tys, ret)?;
                self.set(st, inst.dst, v);
                if let Some(b) = normal {
                    self.jump(st, *b)?;
                    advance = false;
                }
            }
            Kind::Ret(v) => {
                let v = v.as_ref().map(|(_, o)| self.get(st, o));
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas {
                    st.dynm[a as usize] = None;
                }
                if st.frames.is_empty() {
                    return end("ok");
                }
                if let (Some(d), Some(v)) = (fr.ret_dst, v) {
                    st.frames.last_mut().unwrap().regs[d as usize] = v;
                }
                if let Some(b) = fr.ret_block {
                    self.jump(st, b)?;
                }
                return Ok(());
            }
            Kind::Unreachable => return err("reached unreachable (undefined behaviour)"),
            Kind::Cast { k, from, to, v } => {
                let v = self.get(st, v);
                let r = match (&v, from, to) {
                    (Val::Agg(x), Ty::Vec(_, ft), Ty::Vec(_, tt)) if *k != CastK::Bit => {
                        let (fw, tw) = (ft.bits(), tt.bits());
                        Val::Agg(Rc::new(x.iter().map(|e| self.cast1(*k, e, fw, tw)).collect()))
                    }
                    (Val::Agg(_), _, _) | (_, _, Ty::Vec(..)) => {
                        // bit cast through a flat integer
                        let total = (from.size() * 8).max(to.size() * 8) as u32;
                        if total > 128 || *k != CastK::Bit {
                            return err("vector cast");
                        }
                        let flat = match (&v, from) {
                            (Val::Agg(x), Ty::Vec(_, t)) => {
                                let w = t.bits();
                                let mut r: Option<Id> = None;
                                for e in x.iter() {
                                    let e = self.id(e, w);
                                    r = Some(match r {
                                        None => e,
                                        Some(l) => self.x.concat(e, l),
                                    });
                                }
                                let r = r.unwrap();
                                self.val(r)
                            }
                            _ => v.clone(),
                        };
                        match to {
                            Ty::Vec(n, t) => {
                                let w = t.bits();
                                let tot = w * *n as u32;
                                let e = self.id(&flat, tot);
                                let mut o = vec![];
                                for i in 0..*n as u32 {
                                    let b = self.x.extract(e, i * w, w);
                                    o.push(self.val(b));
                                }
                                Val::Agg(Rc::new(o))
                            }
                            _ => flat,
                        }
                    }
                    _ => self.cast1(*k, &v, from.bits(), to.bits()),
                };
                self.set(st, inst.dst, r);
            }
            Kind::ExtractValue { v, idx } => {
                let mut v = self.get(st, v);
                for i in idx {
                    v = match &v {
                        Val::Agg(a) => a[*i].clone(),
                        _ => return err("extractvalue"),
                    };
                }
                self.set(st, inst.dst, v);
            }
            Kind::InsertValue { v, e, idx, .. } => {
                let v = self.get(st, v);
                let e = self.get(st, e);
                let r = insert(&v, idx, e);
                match r {
                    Some(r) => self.set(st, inst.dst, r),
                    None => return err("insertvalue"),
                }
            }
            Kind::Freeze(v) => {
                let v = self.get(st, v);
                self.set(st, inst.dst, v);
            }
            Kind::ExtractElem { v, i } => {
                let v = self.get(st, v);
                let i = self.get(st, i);
                let i = self.concretize(st, &i, 64)?;
                match &v {
                    Val::Agg(a) if (i as usize) < a.len() => {
                        let r = a[i as usize].clone();
                        self.set(st, inst.dst, r)
                    }
                    _ => return err("extractelement"),
                }
            }
            Kind::InsertElem { v, e, i, .. } => {
                let v = self.get(st, v);
                let e = self.get(st, e);
                let i = self.get(st, i);
                let i = self.concretize(st, &i, 64)? as usize;
                match insert(&v, &[i], e) {
                    Some(r) => self.set(st, inst.dst, r),
                    None => return err("insertelement"),
                }
            }
            Kind::Shuffle { n, a, b, m } => {
                let a = self.get(st, a);
                let b = self.get(st, b);
                let (Val::Agg(x), Val::Agg(y)) = (&a, &b) else { return err("shuffle") };
                let v = m
                    .iter()
                    .map(|&k| {
                        if k < 0 {
                            Val::C(0)
                        } else if (k as usize) < *n {
                            x[k as usize].clone()
                        } else {
                            y[k as usize - n].clone()
                        }
                    })
                    .collect();
                self.set(st, inst.dst, Val::Agg(Rc::new(v)));
            }
            Kind::AtomicRmw { op, ty, ptr, val } => {
                let p = self.get(st, ptr);
                let v = self.get(st, val);
                let old = self.load(st, &p, ty)?;
                let w = ty.bits();
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(Op::Add, w, &old, &v)?,
                    "sub" => self.bin(Op::Sub, w, &old, &v)?,
                    "and" => self.bin(Op::And, w, &old, &v)?,
                    "or" => self.bin(Op::Or, w, &old, &v)?,
                    "xor" => self.bin(Op::Xor, w, &old, &v)?,
                    _ => return err("atomicrmw op"),
                };
                self.store(st, &p, ty, &new)?;
                self.set(st, inst.dst, old);
            }
            Kind::CmpXchg { ty, ptr, cmp, new } => {
                let p = self.get(st, ptr);
                let c = self.get(st, cmp);
                let n = self.get(st, new);
                let old = self.load(st, &p, ty)?;
                let eq = self.icmp(Pred::Eq, ty.bits(), &old, &c);
                let ok = self.decide(st, &eq)?;
                if ok {
                    self.store(st, &p, ty, &n)?;
                }
                self.set(st, inst.dst, Val::Agg(Rc::new(vec![old, Val::C(ok as u128)])));
            }
            Kind::Unsupported(s) => return err(format!("unsupported instruction: {s}")),
        }
        if advance {
            st.frames.last_mut().unwrap().ip += 1;
        }
        Ok(())
    }

    fn cast1(&mut self, k: CastK, v: &Val, fw: u32, tw: u32) -> Val {
        match k {
            CastK::Zext => self.zext(v, fw, tw),
            CastK::Sext => self.sext(v, fw, tw),
            CastK::Trunc => self.trunc(v, tw),
            CastK::Bit => v.clone(),
        }
    }

    // ---------------------------------------------------------------- builtins
    fn builtin(&mut self, st: &mut State, name: &str, a: &[Val], tys: &[Ty], ret: &Ty) -> X<Val> {
        if let Some(i) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, i, a, tys, ret);
        }
        let unit = Val::C(0);
        match name {
            "sym_bool" => self.input(st, 1, ret),
            "sym_u8" => self.input(st, 8, ret),
            "sym_u16" => self.input(st, 16, ret),
            "sym_u32" => self.input(st, 32, ret),
            "sym_u64" => self.input(st, 64, ret),
            "sym_assume" => {
                match self.bool1(&a[0], &tys[0]) {
                    Val::C(1) => {}
                    Val::C(_) => return end("assume"),
                    Val::E(e) => {
                        if !st.known.contains(&e) {
                            let m = st.model.clone();
                            if self.eval(e, &m) != 1 {
                                match self.solve(st, e, false) {
                                    Res::Sat(m) => st.model = Rc::new(m),
                                    Res::Unsat => return end("assume"),
                                    Res::Unknown => return err("solver unknown"),
                                }
                            }
                            st.pc.push(e);
                            st.known.push(e);
                        }
                    }
                    _ => return err("assume agg"),
                }
                Ok(unit)
            }
            "sym_check" => {
                let id = self.concretize(st, &a[1], 32)? as u64;
                *self.checks_hit.entry(id).or_insert(0) += 1;
                st.checks += 1;
                let c = self.bool1(&a[0], &tys[0]);
                let bad = self.not1(&c);
                match bad {
                    Val::C(0) => {}
                    Val::C(_) => {
                        let m = st.model.clone();
                        self.violation(st, "check", id, &m);
                        return end("violated");
                    }
                    Val::E(e) => {
                        self.check_queries += 1;
                        match self.solve(st, e, true) {
                            Res::Unsat => {
                                let g = self.x.not(e);
                                st.known.push(g);
                            }
                            Res::Sat(m) => {
                                let m = Rc::new(m);
                                self.violation(st, "check", id, &m);
                                return end("violated");
                            }
                            Res::Unknown => return err("solver unknown"),
                        }
                    }
                    _ => return err("check agg"),
                }
                Ok(unit)
            }
            "sym_panic_ok" => {
                let c = self.bool1(&a[0], &tys[0]);
                st.panic_ok = Some(c);
                Ok(unit)
            }
            "sym_observe" => {
                st.observes.push((a[0].clone(), 64));
                Ok(unit)
            }
            "malloc" | "__rust_alloc" => {
                let n = self.concretize(st, &a[0], 64)?;
                if n > 1 << 24 {
                    return err("huge malloc");
                }
                st.live += 1;
                Ok(Val::C(self.new_obj(st, Obj::new(n as usize, true))))
            }
            "aligned_alloc" => {
                let n = self.concretize(st, &a[1], 64)?;
                st.live += 1;
                Ok(Val::C(self.new_obj(st, Obj::new(n as usize, true))))
            }
            "calloc" => {
                let x = self.concretize(st, &a[0], 64)?;
                let y = self.concretize(st, &a[1], 64)?;
                if x * y > 1 << 24 {
                    return err("huge calloc");
                }
                st.live += 1;
                Ok(Val::C(self.new_obj(st, Obj::new((x * y) as usize, true))))
            }
            "posix_memalign" => {
                let n = self.concretize(st, &a[2], 64)?;
                if n > 1 << 24 {
                    return err("huge memalign");
                }
                st.live += 1;
                let p = self.new_obj(st, Obj::new(n as usize, true));
                self.store(st, &a[0], &Ty::Ptr, &Val::C(p))?;
                Ok(Val::C(0))
            }
            "realloc" => {
                let p = self.concretize(st, &a[0], 64)?;
                let n = self.concretize(st, &a[1], 64)?;
                if n > 1 << 24 {
                    return err("huge realloc");
                }
                let new = self.new_obj(st, Obj::new(n as usize, true));
                let (o, off) = self.obj(st, p, 0, "realloc")?;
                if off != 0 || !o.heap {
                    return err("realloc of non-heap pointer");
                }
                let k = (o.data.len() as u128).min(n);
                self.copy(st, new, p, k as u64)?;
                st.dynm[((p >> SLOT) as u64 - DYN_FIRST) as usize] = None;
                Ok(Val::C(new))
            }
            "free" => {
                let p = self.concretize(st, &a[0], 64)?;
                if p != 0 {
                    let (o, off) = self.obj(st, p, 0, "free")?;
                    if off != 0 || !o.heap {
                        return err("free of non-heap pointer");
                    }
                    st.live -= 1;
                    st.dynm[((p >> SLOT) as u64 - DYN_FIRST) as usize] = None;
                }
                Ok(unit)
            }
            "memcpy" | "memmove" => {
                self.mem_copy(st, a)?;
                Ok(a[0].clone())
            }
            "memset" => {
                self.mem_set(st, a)?;
                Ok(a[0].clone())
            }
            "bcmp" | "memcmp" => {
                let n = self.concretize(st, &a[2], 64)? as u64;
                if n == 0 {
                    return Ok(Val::C(0));
                }
                let p = self.concretize(st, &a[0], 64)?;
                let q = self.concretize(st, &a[1], 64)?;
                let mut r = Val::C(0);
                for i in (0..n).rev() {
                    let x = self.byte(st, p + i as u128)?;
                    let y = self.byte(st, q + i as u128)?;
                    let eq = self.icmp(Pred::Eq, 8, &x, &y);
                    let lt = self.icmp(Pred::Ult, 8, &x, &y);
                    let d = if name == "bcmp" { Val::C(1) } else { self.ite(&lt, &Val::C(0xffff_ffff), &Val::C(1), &Ty::Int(32)) };
                    r = self.ite(&eq, &r, &d, &Ty::Int(32));
                }
                Ok(r)
            }
            "strlen" => {
                let p = self.concretize(st, &a[0], 64)?;
                let mut n = 0u128;
                loop {
                    let b = self.byte(st, p + n)?;
                    let z = self.icmp(Pred::Eq, 8, &b, &Val::C(0));
                    if self.decide(st, &z)? {
                        return Ok(Val::C(n));
                    }
                    n += 1;
                }
            }
            "memchr" => {
                let p = self.concretize(st, &a[0], 64)?;
                let n = self.concretize(st, &a[2], 64)?;
                let c = self.trunc(&a[1], 8);
                for i in 0..n {
                    let b = self.byte(st, p + i)?;
                    let z = self.icmp(Pred::Eq, 8, &b, &c);
                    if self.decide(st, &z)? {
                        return Ok(Val::C(p + i));
                    }
                }
                Ok(Val::C(0))
            }
            _ => err(format!("call to unknown function {name}")),
        }
    }
    fn bool1(&mut self, v: &Val, t: &Ty) -> Val {
        if t.bits() == 1 {
            v.clone()
        } else {
            self.icmp(Pred::Ne, t.bits(), v, &Val::C(0))
        }
    }
    fn input(&mut self, st: &mut State, w: u32, ret: &Ty) -> X<Val> {
        // inputs are identified by width and by call order within the width, so that paths share variables
        let x = &self.x;
        let k = st.inputs.iter().filter(|&&i| x.width(i) == w).count();
        let id = match self.input_vars.get(&(w, k)) {
            Some(&v) => v,
            None => {
                let v = self.x.fresh(w);
                self.input_vars.insert((w, k), v);
                v
            }
        };
        st.inputs.push(id);
        let v = Val::E(id);
        Ok(if ret.bits() != w { self.zext(&v, w, ret.bits()) } else { v })
    }
    fn mem_copy(&mut self, st: &mut State, a: &[Val]) -> X<()> {
        let n = self.concretize(st, &a[2], 64)? as u64;
        if n == 0 {
            return Ok(());
        }
        if let (Val::E(_), _) | (_, Val::E(_)) = (&a[0], &a[1]) {
            // small copies through ite-tree pointers merge instead of forking
            if n <= 16 {
                let ty = Ty::Int(n as u32 * 8);
                let ok = |s: &Self, v: &Val| match v {
                    Val::E(e) => (1..=8).contains(&s.x.ctree(*e)),
                    _ => true,
                };
                if ok(self, &a[0]) && ok(self, &a[1]) {
                    let v = self.load(st, &a[1], &ty)?;
                    return self.store(st, &a[0], &ty, &v);
                }
            }
        }
        let d = self.concretize(st, &a[0], 64)?;
        let s = self.concretize(st, &a[1], 64)?;
        self.copy(st, d, s, n)
    }
    fn mem_set(&mut self, st: &mut State, a: &[Val]) -> X<()> {
        let n = self.concretize(st, &a[2], 64)? as u64;
        if n == 0 {
            return Ok(());
        }
        let d = self.concretize(st, &a[0], 64)?;
        let v = self.trunc(&a[1], 8);
        for i in 0..n {
            self.write_int(st, d + i as u128, 8, &v)?;
        }
        Ok(())
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, a: &[Val], tys: &[Ty], ret: &Ty) -> X<Val> {
        let unit = Val::C(0);
        let base: &str = name;
        let starts = |p: &str| base == p || base.starts_with(&format!("{p}."));
        if starts("lifetime") || starts("experimental.noalias") || starts("assume") || starts("dbg") || starts("invariant") || starts("donothing") || starts("prefetch") || starts("x86.sse2.pause") || starts("sideeffect") {
            return Ok(unit);
        }
        if starts("memcpy") || starts("memmove") {
            self.mem_copy(st, a)?;
            return Ok(unit);
        }
        if starts("memset") {
            self.mem_set(st, a)?;
            return Ok(unit);
        }
        if starts("expect") || starts("threadlocal") || starts("launder") || starts("strip") || starts("ssa.copy") {
            return Ok(a[0].clone());
        }
        if starts("is.constant") {
            return Ok(Val::C(matches!(a[0], Val::C(_)) as u128));
        }
        if starts("trap") || starts("ubsantrap") || starts("debugtrap") {
            self.on_panic(st, "trap")?;
            return Ok(unit);
        }
        if starts("objectsize") {
            return Ok(Val::C(mask(ret.bits())));
        }
        // elementwise vectors
        if let Ty::Vec(n, t) = ret {
            if a.iter().all(|v| matches!(v, Val::Agg(_))) {
                let mut o = vec![];
                for i in 0..*n as usize {
                    let ai: Vec<Val> = a
                        .iter()
                        .map(|v| match v {
                            Val::Agg(x) => x[i].clone(),
                            _ => unreachable!(),
                        })
                        .collect();
                    let ti: Vec<Ty> = tys.iter().map(|t| t.field(0)).collect();
                    o.push(self.intrinsic(st, name, &ai, &ti, t)?);
                }
                return Ok(Val::Agg(Rc::new(o)));
            }
        }
        if let Some(r) = name.strip_prefix("vector.reduce.") {
            if let (Val::Agg(x), Ty::Vec(_, t)) = (&a[0], &tys[0]) {
                let w = t.bits();
                let op = match r.split('.').next().unwrap() {
                    "or" => Op::Or,
                    "and" => Op::And,
                    "xor" => Op::Xor,
                    "add" => Op::Add,
                    "mul" => Op::Mul,
                    _ => return err(format!("intrinsic {name}")),
                };
                let mut v = x[0].clone();
                for e in &x[1..] {
                    v = self.bin(op, w, &v, e)?;
                }
                return Ok(v);
            }
        }
        let w = tys.first().map(|t| t.bits()).unwrap_or(0);
        let head = name.split('.').next().unwrap();
        match head {
            "umin" | "umax" | "smin" | "smax" => {
                let p = match head {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.icmp(p, w, &a[0], &a[1]);
                return Ok(self.ite(&c, &a[0], &a[1], &tys[0]));
            }
            "abs" => {
                let n = self.icmp(Pred::Slt, w, &a[0], &Val::C(0));
                let m = self.bin(Op::Sub, w, &Val::C(0), &a[0])?;
                return Ok(self.ite(&n, &m, &a[0], &tys[0]));
            }
            "ucmp" | "scmp" => {
                let (l, g) = if head == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let lt = self.icmp(l, w, &a[0], &a[1]);
                let gt = self.icmp(g, w, &a[0], &a[1]);
                let m = mask(ret.bits());
                let r = self.ite(&gt, &Val::C(1), &Val::C(0), ret);
                return Ok(self.ite(&lt, &Val::C(m), &r, ret));
            }
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" => {
                let op = match &head[1..] {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Mul,
                };
                let signed = head.starts_with('s');
                let r = self.bin(op, w, &a[0], &a[1])?;
                let ov = match (op, signed) {
                    (Op::Add, false) => self.icmp(Pred::Ult, w, &r, &a[0]),
                    (Op::Sub, false) => self.icmp(Pred::Ult, w, &a[0], &a[1]),
                    (Op::Add, true) => {
                        let x = self.bin(Op::Xor, w, &a[0], &r)?;
                        let y = self.bin(Op::Xor, w, &a[1], &r)?;
                        let z = self.bin(Op::And, w, &x, &y)?;
                        self.icmp(Pred::Slt, w, &z, &Val::C(0))
                    }
                    (Op::Sub, true) => {
                        let x = self.bin(Op::Xor, w, &a[0], &a[1])?;
                        let y = self.bin(Op::Xor, w, &a[0], &r)?;
                        let z = self.bin(Op::And, w, &x, &y)?;
                        self.icmp(Pred::Slt, w, &z, &Val::C(0))
                    }
                    (_, sg) => {
                        if w > 64 {
                            if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) {
                                if sg {
                                    Val::C((x.wrapping_mul(*y) as i128 != 0 && (*x as i128).checked_mul(*y as i128).is_none()) as u128)
                                } else {
                                    Val::C(x.checked_mul(*y).is_none() as u128)
                                }
                            } else {
                                return err("wide mul overflow");
                            }
                        } else {
                            let d = 2 * w;
                            let (x, y) = if sg { (self.sext(&a[0], w, d), self.sext(&a[1], w, d)) } else { (self.zext(&a[0], w, d), self.zext(&a[1], w, d)) };
                            let p = self.bin(Op::Mul, d, &x, &y)?;
                            let q = if sg { self.sext(&r, w, d) } else { self.zext(&r, w, d) };
                            self.icmp(Pred::Ne, d, &p, &q)
                        }
                    }
                };
                if name.contains("with.overflow") {
                    return Ok(Val::Agg(Rc::new(vec![r, ov])));
                }
                if name.contains(".sat") {
                    let sat = match (op, signed) {
                        (Op::Add, false) => Val::C(mask(w)),
                        (Op::Sub, false) => Val::C(0),
                        (_, true) => {
                            // saturate towards the sign of a
                            let n = self.icmp(Pred::Slt, w, &a[0], &Val::C(0));
                            self.ite(&n, &Val::C(1u128 << (w - 1)), &Val::C(mask(w - 1)), &tys[0])
                        }
                        _ => return err("mul sat"),
                    };
                    return Ok(self.ite(&ov, &sat, &r, &tys[0]));
                }
            }
            "fshl" | "fshr" => {
                let s = self.concretize(st, &a[2], w)? % w as u128;
                let s = s as u32;
                let left = if head == "fshl" { s } else { (w - s) % w };
                if left == 0 {
                    return Ok(if head == "fshl" { a[0].clone() } else { a[1].clone() });
                }
                let x = self.bin(Op::Shl, w, &a[0], &Val::C(left as u128))?;
                let y = self.bin(Op::LShr, w, &a[1], &Val::C((w - left) as u128))?;
                return self.bin(Op::Or, w, &x, &y);
            }
            "bswap" | "bitreverse" => {
                let chunk = if head == "bswap" { 8 } else { 1 };
                let e = self.id(&a[0], w);
                let mut r: Option<Id> = None;
                let mut lo = 0;
                while lo < w {
                    let b = self.x.extract(e, lo, chunk);
                    r = Some(match r {
                        None => b,
                        Some(h) => self.x.concat(h, b),
                    });
                    lo += chunk;
                }
                let r = r.unwrap();
                return Ok(self.val(r));
            }
            "ctpop" | "ctlz" | "cttz" => {
                if let Val::C(v) = a[0] {
                    return Ok(Val::C(match head {
                        "ctpop" => v.count_ones() as u128,
                        "ctlz" => (v.leading_zeros() - (128 - w)) as u128,
                        _ => (v.trailing_zeros().min(w)) as u128,
                    }));
                }
                let e = self.id(&a[0], w);
                let mut r = if head == "ctpop" { self.x.c(0, w) } else { self.x.c(w as u128, w) };
                for i in 0..w {
                    let k = if head == "ctlz" { i } else { w - 1 - i };
                    let b = self.x.extract(e, k, 1);
                    if head == "ctpop" {
                        let z = self.x.zext(b, w);
                        r = self.x.bin(Op::Add, r, z);
                    } else {
                        let v = if head == "ctlz" { w - 1 - k } else { k };
                        let c = self.x.c(v as u128, w);
                        r = self.x.ite(b, c, r);
                    }
                }
                return Ok(self.val(r));
            }
            "load" if name.starts_with("load.relative") => {
                let p = self.concretize(st, &a[0], 64)?;
                let o = self.concretize(st, &a[1], 64)?;
                let v = self.load_at(st, (p + o) & mask(64), &Ty::Int(32))?;
                let v = self.sext(&v, 32, 64);
                return self.bin(Op::Add, 64, &Val::C(p), &v);
            }
            _ => {}
        }
        err(format!("intrinsic llvm.{name}"))
    }
}

fn short(n: &str) -> String {
    n.chars().take(160).collect()
}

fn insert(v: &Val, idx: &[usize], e: Val) -> Option<Val> {
    match v {
        Val::Agg(a) => {
            let mut x = (**a).clone();
            if idx.len() == 1 {
                *x.get_mut(idx[0])? = e;
            } else {
                let n = insert(&x[idx[0]], &idx[1..], e)?;
                x[idx[0]] = n;
            }
            Some(Val::Agg(Rc::new(x)))
        }
        _ => None,
    }
}

fn write_const(d: &mut [u8], off: usize, ty: &Ty, c: &Cv) {
    match c {
        Cv::Undef => {}
        Cv::Int(v) => {
            let n = ty.bits().div_ceil(8) as usize;
            for i in 0..n {
                d[off + i] = (v >> (8 * i)) as u8;
            }
        }
        Cv::Agg(v) => {
            for (i, e) in v.iter().enumerate() {
                write_const(d, off + ty.field_off(i) as usize, &ty.field(i), e);
            }
        }
    }
}

pub fn deadline(secs: u64) -> Instant {
    Instant::now() + Duration::from_secs(secs)
}
