//! A small incremental CDCL SAT solver (two-watched literals, VSIDS, phase saving,
//! Luby restarts, LBD-based clause reduction, solving under assumptions).

pub type Lit = u32; // var << 1 | sign
pub fn neg(l: Lit) -> Lit {
    l ^ 1
}
fn var(l: Lit) -> usize {
    (l >> 1) as usize
}

const UNDEF: u8 = 2;
const NOREASON: u32 = u32::MAX;

struct Clause {
    start: u32,
    len: u32,
    learnt: bool,
    lbd: u32,
    dead: bool,
}

#[derive(Clone, Copy)]
struct Watch {
    c: u32,
    blocker: Lit,
}

pub struct Sat {
    lits: Vec<Lit>,
    clauses: Vec<Clause>,
    watches: Vec<Vec<Watch>>,
    assign: Vec<u8>, // per var: 0 true, 1 false, 2 undef  (value of positive literal: 0=true)
    level: Vec<u32>,
    reason: Vec<u32>,
    phase: Vec<u8>,
    activity: Vec<f64>,
    inc: f64,
    heap: Vec<u32>,
    hpos: Vec<i32>,
    trail: Vec<Lit>,
    lim: Vec<usize>,
    qhead: usize,
    seen: Vec<bool>,
    relevant: Vec<u8>,
    last: Vec<Lit>,
    ok: bool,
    n_learnt: usize,
    max_learnt: usize,
    pub conflicts: u64,
    pub propagations: u64,
}

impl Sat {
    pub fn new() -> Sat {
        Sat {
            lits: vec![],
            clauses: vec![],
            watches: vec![],
            assign: vec![],
            level: vec![],
            reason: vec![],
            phase: vec![],
            activity: vec![],
            inc: 1.0,
            heap: vec![],
            hpos: vec![],
            trail: vec![],
            lim: vec![],
            qhead: 0,
            seen: vec![],
            relevant: vec![],
            last: vec![],
            ok: true,
            n_learnt: 0,
            max_learnt: 6000,
            conflicts: 0,
            propagations: 0,
        }
    }
    pub fn new_var(&mut self) -> Lit {
        let v = self.assign.len() as u32;
        self.assign.push(UNDEF);
        self.level.push(0);
        self.reason.push(NOREASON);
        self.phase.push(1);
        self.activity.push(0.0);
        self.hpos.push(-1);
        self.seen.push(false);
        self.relevant.push(0);
        self.watches.push(vec![]);
        self.watches.push(vec![]);
        v << 1
    }
    /// 0 true, 1 false, 2 undef
    fn value(&self, l: Lit) -> u8 {
        let a = self.assign[var(l)];
        if a == UNDEF {
            UNDEF
        } else {
            a ^ (l & 1) as u8
        }
    }
    pub fn model(&self, l: Lit) -> bool {
        self.value(l) == 0
    }

    pub fn add(&mut self, c: &[Lit]) {
        debug_assert!(self.lim.is_empty());
        if !self.ok {
            return;
        }
        let mut v: Vec<Lit> = c.to_vec();
        v.sort();
        v.dedup();
        for i in 1..v.len() {
            if v[i] == neg(v[i - 1]) {
                return;
            }
        }
        // level-0 simplification
        if v.iter().any(|&l| self.value(l) == 0) {
            return;
        }
        v.retain(|&l| self.value(l) != 1);
        match v.len() {
            0 => self.ok = false,
            1 => {
                self.enqueue(v[0], NOREASON);
                if self.propagate().is_some() {
                    self.ok = false;
                }
            }
            _ => {
                self.attach(&v, false, 0);
            }
        }
    }
    fn attach(&mut self, v: &[Lit], learnt: bool, lbd: u32) -> u32 {
        let c = self.clauses.len() as u32;
        let start = self.lits.len() as u32;
        self.lits.extend_from_slice(v);
        self.clauses.push(Clause { start, len: v.len() as u32, learnt, lbd, dead: false });
        self.watches[neg(v[0]) as usize].push(Watch { c, blocker: v[1] });
        self.watches[neg(v[1]) as usize].push(Watch { c, blocker: v[0] });
        if learnt {
            self.n_learnt += 1;
        }
        c
    }
    fn enqueue(&mut self, l: Lit, r: u32) {
        let v = var(l);
        self.assign[v] = (l & 1) as u8;
        self.level[v] = self.lim.len() as u32;
        self.reason[v] = r;
        self.trail.push(l);
    }
    fn propagate(&mut self) -> Option<u32> {
        while self.qhead < self.trail.len() {
            let p = self.trail[self.qhead];
            self.qhead += 1;
            self.propagations += 1;
            let mut ws = std::mem::take(&mut self.watches[p as usize]);
            let mut i = 0;
            let mut j = 0;
            let mut confl = None;
            'next: while i < ws.len() {
                let w = ws[i];
                i += 1;
                if self.value(w.blocker) == 0 {
                    ws[j] = w;
                    j += 1;
                    continue;
                }
                let cl = &self.clauses[w.c as usize];
                if cl.dead {
                    continue;
                }
                let (s, n) = (cl.start as usize, cl.len as usize);
                let np = neg(p);
                if self.lits[s] == np {
                    self.lits.swap(s, s + 1);
                }
                let first = self.lits[s];
                if first != w.blocker && self.value(first) == 0 {
                    ws[j] = Watch { c: w.c, blocker: first };
                    j += 1;
                    continue;
                }
                for k in 2..n {
                    let l = self.lits[s + k];
                    if self.value(l) != 1 {
                        self.lits.swap(s + 1, s + k);
                        self.watches[neg(l) as usize].push(Watch { c: w.c, blocker: first });
                        continue 'next;
                    }
                }
                ws[j] = Watch { c: w.c, blocker: first };
                j += 1;
                if self.value(first) == 1 {
                    confl = Some(w.c);
                    self.qhead = self.trail.len();
                    while i < ws.len() {
                        ws[j] = ws[i];
                        j += 1;
                        i += 1;
                    }
                    break;
                } else {
                    self.enqueue(first, w.c);
                }
            }
            ws.truncate(j);
            self.watches[p as usize] = ws;
            if confl.is_some() {
                return confl;
            }
        }
        None
    }
    fn cancel(&mut self, lvl: usize) {
        if self.lim.len() > lvl {
            let t = self.lim[lvl];
            for i in (t..self.trail.len()).rev() {
                let l = self.trail[i];
                let v = var(l);
                self.phase[v] = (l & 1) as u8;
                self.assign[v] = UNDEF;
                if self.relevant[v] != 0 && self.hpos[v] < 0 {
                    self.hinsert(v as u32);
                }
            }
            self.trail.truncate(t);
            self.lim.truncate(lvl);
            self.qhead = t;
        }
    }

    // --- heap
    fn hless(&self, a: u32, b: u32) -> bool {
        self.activity[a as usize] > self.activity[b as usize]
    }
    fn hup(&mut self, mut i: usize) {
        let x = self.heap[i];
        while i > 0 {
            let p = (i - 1) / 2;
            if self.hless(x, self.heap[p]) {
                self.heap[i] = self.heap[p];
                self.hpos[self.heap[i] as usize] = i as i32;
                i = p;
            } else {
                break;
            }
        }
        self.heap[i] = x;
        self.hpos[x as usize] = i as i32;
    }
    fn hdown(&mut self, mut i: usize) {
        let x = self.heap[i];
        loop {
            let l = 2 * i + 1;
            if l >= self.heap.len() {
                break;
            }
            let r = l + 1;
            let c = if r < self.heap.len() && self.hless(self.heap[r], self.heap[l]) { r } else { l };
            if self.hless(self.heap[c], x) {
                self.heap[i] = self.heap[c];
                self.hpos[self.heap[i] as usize] = i as i32;
                i = c;
            } else {
                break;
            }
        }
        self.heap[i] = x;
        self.hpos[x as usize] = i as i32;
    }
    fn hinsert(&mut self, v: u32) {
        self.heap.push(v);
        self.hpos[v as usize] = (self.heap.len() - 1) as i32;
        self.hup(self.heap.len() - 1);
    }
    fn hpop(&mut self) -> Option<u32> {
        if self.heap.is_empty() {
            return None;
        }
        let x = self.heap[0];
        let last = self.heap.pop().unwrap();
        self.hpos[x as usize] = -1;
        if !self.heap.is_empty() {
            self.heap[0] = last;
            self.hpos[last as usize] = 0;
            self.hdown(0);
        }
        Some(x)
    }
    fn bump(&mut self, v: usize) {
        self.activity[v] += self.inc;
        if self.activity[v] > 1e100 {
            for a in self.activity.iter_mut() {
                *a *= 1e-100;
            }
            self.inc *= 1e-100;
        }
        if self.hpos[v] >= 0 {
            let i = self.hpos[v] as usize;
            self.hup(i);
        }
    }

    fn analyze(&mut self, mut confl: u32) -> (Vec<Lit>, usize, u32) {
        let mut out: Vec<Lit> = vec![0];
        let mut count = 0;
        let mut p: Option<Lit> = None;
        let mut idx = self.trail.len();
        let cur = self.lim.len() as u32;
        let mut clear = vec![];
        loop {
            let (s, n) = {
                let c = &self.clauses[confl as usize];
                (c.start as usize, c.len as usize)
            };
            for k in 0..n {
                let q = self.lits[s + k];
                if Some(q) == p {
                    continue;
                }
                let v = var(q);
                if !self.seen[v] && self.level[v] > 0 {
                    self.seen[v] = true;
                    clear.push(v);
                    self.bump(v);
                    if self.level[v] >= cur {
                        count += 1;
                    } else {
                        out.push(q);
                    }
                }
            }
            loop {
                idx -= 1;
                if self.seen[var(self.trail[idx])] {
                    break;
                }
            }
            let l = self.trail[idx];
            p = Some(l);
            confl = self.reason[var(l)];
            self.seen[var(l)] = false;
            count -= 1;
            if count == 0 {
                out[0] = neg(l);
                break;
            }
        }
        // simple minimisation: drop literals whose reason is subsumed
        let mut keep = vec![out[0]];
        for &l in &out[1..] {
            let r = self.reason[var(l)];
            let mut redundant = false;
            if r != NOREASON {
                let c = &self.clauses[r as usize];
                redundant = (0..c.len as usize).all(|k| {
                    let q = self.lits[c.start as usize + k];
                    q == neg(l) || self.seen[var(q)] || self.level[var(q)] == 0
                });
            }
            if !redundant {
                keep.push(l);
            }
        }
        for v in clear {
            self.seen[v] = false;
        }
        let mut bt = 0;
        if keep.len() > 1 {
            let mut m = 1;
            for i in 2..keep.len() {
                if self.level[var(keep[i])] > self.level[var(keep[m])] {
                    m = i;
                }
            }
            keep.swap(1, m);
            bt = self.level[var(keep[1])] as usize;
        }
        let mut lv: Vec<u32> = keep.iter().map(|&l| self.level[var(l)]).collect();
        lv.sort();
        lv.dedup();
        (keep, bt, lv.len() as u32)
    }

    fn reduce(&mut self) {
        // called at decision level 0
        let mut ls: Vec<u32> = (0..self.clauses.len() as u32)
            .filter(|&c| {
                let k = &self.clauses[c as usize];
                k.learnt && !k.dead && k.lbd > 3
            })
            .collect();
        ls.sort_by_key(|&c| std::cmp::Reverse((self.clauses[c as usize].lbd, self.clauses[c as usize].len)));
        let n = ls.len() / 2;
        for &c in &ls[..n] {
            self.clauses[c as usize].dead = true;
            self.n_learnt -= 1;
        }
        self.max_learnt += 1000;
    }

    /// Solve under assumptions.  Decision variables are those registered with `decision`
    /// (circuit inputs; every gate is functionally determined by them) and, once a query turns
    /// out to be hard, the variables in `cone`.
    /// The part of the trail that belongs to the common prefix with the previous call's
    /// assumptions is kept.
    /// Some(true)=sat, Some(false)=unsat, None=budget exhausted.
    pub fn solve(&mut self, assumptions: &[Lit], cone: &mut dyn FnMut() -> Vec<u32>, budget: u64) -> Option<bool> {
        if !self.ok {
            return Some(false);
        }
        if self.n_learnt > self.max_learnt {
            self.cancel(0);
            self.reduce();
        }
        let mut keep = 0;
        while keep < self.lim.len() && keep < assumptions.len() && keep < self.last.len() && self.last[keep] == assumptions[keep] {
            keep += 1;
        }
        self.cancel(keep);
        self.last.clear();
        self.last.extend_from_slice(assumptions);
        let mut widened = false;
        let mut spent = 0u64;
        let mut left = budget;
        let mut restart = 0u32;
        let mut until = 100 * luby(restart);
        loop {
            if let Some(c) = self.propagate() {
                self.conflicts += 1;
                if left == 0 {
                    self.cancel(0);
                    return None;
                }
                left -= 1;
                spent += 1;
                if spent == 60 && !widened {
                    widened = true;
                    for v in cone() {
                        self.decision(v);
                    }
                }
                if self.lim.is_empty() {
                    self.ok = false;
                    return Some(false);
                }
                let (cl, bt, lbd) = self.analyze(c);
                self.cancel(bt);
                if cl.len() == 1 {
                    self.enqueue(cl[0], NOREASON);
                } else {
                    let k = self.attach(&cl, true, lbd);
                    self.enqueue(cl[0], k);
                }
                self.inc /= 0.95;
                until = until.saturating_sub(1);
            } else {
                if until == 0 {
                    restart += 1;
                    until = 100 * luby(restart);
                    self.cancel(0);
                    continue;
                }
                let mut next = None;
                while self.lim.len() < assumptions.len() {
                    let a = assumptions[self.lim.len()];
                    match self.value(a) {
                        0 => {
                            let t = self.trail.len();
                            self.lim.push(t);
                        }
                        1 => return Some(false),
                        _ => {
                            next = Some(a);
                            break;
                        }
                    }
                }
                if next.is_none() {
                    while let Some(v) = self.hpop() {
                        if self.assign[v as usize] == UNDEF {
                            next = Some((v << 1) | self.phase[v as usize] as u32);
                            break;
                        }
                    }
                }
                match next {
                    None => return Some(true),
                    Some(l) => {
                        let t = self.trail.len();
                        self.lim.push(t);
                        self.enqueue(l, NOREASON);
                    }
                }
            }
        }
    }
    pub fn decision(&mut self, v: u32) {
        if self.relevant[v as usize] == 0 {
            self.relevant[v as usize] = 1;
            if self.assign[v as usize] == UNDEF && self.hpos[v as usize] < 0 {
                self.hinsert(v);
            }
        }
    }
    /// The problem in DIMACS, assumptions as unit clauses (debugging aid).
    pub fn dimacs(&self) -> String {
        let mut o = String::new();
        let mut n = 0;
        let l = |x: Lit| if x & 1 == 1 { -((x >> 1) as i64 + 1) } else { (x >> 1) as i64 + 1 };
        let lvl0 = self.lim.first().copied().unwrap_or(self.trail.len());
        for &t in self.trail[..lvl0].iter().chain(self.last.iter()) {
            o += &format!("{} 0\n", l(t));
            n += 1;
        }
        for c in &self.clauses {
            if !c.learnt && !c.dead {
                for k in 0..c.len {
                    o += &format!("{} ", l(self.lits[(c.start + k) as usize]));
                }
                o += "0\n";
                n += 1;
            }
        }
        format!("p cnf {} {}\n{}", self.nvars(), n, o)
    }
    pub fn reset(&mut self) {
        self.cancel(0);
    }
    pub fn nvars(&self) -> usize {
        self.assign.len()
    }
}

fn luby(mut x: u32) -> u64 {
    let mut size = 1u32;
    let mut seq = 0u32;
    while size < x + 1 {
        seq += 1;
        size = 2 * size + 1;
    }
    while size - 1 != x {
        size = (size - 1) >> 1;
        seq -= 1;
        x %= size;
    }
    1u64 << seq
}
