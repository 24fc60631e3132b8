//! Per-path symbolic state: term arena, path condition, forking.
use crate::poly::*;
use crate::solver::{self, Res, Sort, VarDecl};
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::cell::RefCell;
use crate::poly::{HashMap, HashSet};
use std::collections::BTreeSet;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    Fin(Rc<Poly>),
    PInf,
    NInf,
    NaN,
}

#[derive(Clone, Debug)]
pub struct Node {
    pub v: V,
    pub lo: Option<Q>,
    pub hi: Option<Q>,
    /// the value is a multiple of 2^gran
    pub gran: Option<i32>,
}

#[derive(Clone, Debug)]
pub enum Def {
    Input,
    Div(Poly, Poly),
    Sqrt(Poly),
    Err,
    Min(Vec<Poly>, bool),
    /// another name for a polynomial
    Alias(Poly),
    Free,
}

#[derive(Clone, Debug)]
pub struct Var {
    pub name: String,
    pub sort: Sort,
    pub lo: Option<Q>,
    pub hi: Option<Q>,
    pub gran: Option<i32>,
    pub def: Def,
}

/// One recorded decision of a path.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum D {
    B(bool),
    /// structural choice
    C(usize),
    /// concretised to this value
    Val(i64),
    /// concretise to something that is none of these
    NotIn(Vec<i64>),
    /// structural choice, not one of the first k
    NotC(usize),
}

#[derive(Clone, Debug)]
pub struct Job {
    pub prefix: Vec<D>,
    pub model: Option<HashMap<u32, Q>>,
}

pub enum Abort {
    Infeasible,
    Budget,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Opts {
    /// add rounding-error variables of this relative size (2^-k) to operations not certified exact
    pub err: Option<i32>,
    /// concretise symbolic divisors whose value is known to be a small integer
    pub concretize_div: bool,
    pub max_decisions: usize,
    pub max_ops: u64,
    pub timeout_ms: u64,
    pub assert_ms: u64,
    pub mant: i32,
    /// turn min/max/abs into fresh variables instead of forking
    pub merge_minmax: bool,
    /// in error mode, name every rounded result (polynomials stay small) and state that rounding keeps signs
    pub name_rounded: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            err: None,
            concretize_div: false,
            max_decisions: 600,
            max_ops: 3_000_000,
            timeout_ms: 1_500,
            assert_ms: 20_000,
            mant: 24,
            merge_minmax: false,
            name_rounded: false,
        }
    }
}

#[derive(Default, Clone, Debug)]
pub struct PathStats {
    pub ops: u64,
    pub exact_ops: u64,
    pub inexact_ops: u64,
    pub forks: u64,
    pub unknown_forks: u64,
}

pub struct Ctx {
    no_narrow: bool,
    pub nodes: Vec<Node>,
    pub vars: Vec<Var>,
    pub cons: Vec<(Cond, Vec<u32>)>,
    pub conset: HashSet<Cond>,
    /// definitions of derived variables, used only in queries that mention them
    pub defs: HashMap<u32, Vec<Cond>>,
    pub wit: Option<HashMap<u32, Q>>,
    pub seed_model: Option<HashMap<u32, Q>>,
    pub prefix: Vec<D>,
    pub pos: usize,
    pub trace: Vec<D>,
    pub new_jobs: Vec<Job>,
    pub opts: Opts,
    pub stats: PathStats,
    pub requires: Vec<(String, Cond)>,
    pub covers: BTreeSet<String>,
    pub choices: Vec<usize>,
    pub memo: HashMap<String, u32>,
    pub notes: BTreeSet<String>,
    pub trig: crate::trig::Trig,
    pub scratch: HashMap<String, Vec<u32>>,
}

thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::new(Job { prefix: vec![], model: None }, Opts::default()));
}

pub fn abort(a: Abort) -> ! {
    std::panic::resume_unwind(Box::new(a))
}
pub fn unsupported(s: &str) -> ! {
    abort(Abort::Unsupported(s.to_string()))
}

impl Ctx {
    pub fn new(job: Job, opts: Opts) -> Ctx {
        let mut c = Ctx {
            nodes: vec![],
            vars: vec![],
            cons: vec![],
            no_narrow: false,
            conset: HashSet::default(),
            defs: HashMap::default(),
            wit: Some(HashMap::default()),
            seed_model: job.model.clone(),
            prefix: job.prefix,
            pos: 0,
            trace: vec![],
            new_jobs: vec![],
            opts,
            stats: PathStats::default(),
            requires: vec![],
            covers: BTreeSet::new(),
            choices: vec![],
            memo: HashMap::default(),
            notes: BTreeSet::new(),
            trig: Default::default(),
            scratch: HashMap::default(),
        };
        if job.model.is_none() && !c.prefix.is_empty() {
            c.wit = None; // feasibility unknown
        }
        c.push_const(Q::zero()); // Sym(0)
        c.push_const(Q::one()); // Sym(1)
        c
    }
    pub fn push_const(&mut self, q: Q) -> u32 {
        let g = gran_of(&q);
        self.nodes.push(Node {
            v: V::Fin(Rc::new(Poly::konst(q.clone()))),
            lo: Some(q.clone()),
            hi: Some(q),
            gran: g,
        });
        (self.nodes.len() - 1) as u32
    }
    pub fn push_special(&mut self, v: V) -> u32 {
        self.nodes.push(Node { v, lo: None, hi: None, gran: None });
        (self.nodes.len() - 1) as u32
    }
    pub fn push_node(&mut self, n: Node) -> u32 {
        if let V::Fin(p) = &n.v {
            if let Some(q) = p.as_const() {
                return self.push_const(q);
            }
        }
        self.nodes.push(n);
        (self.nodes.len() - 1) as u32
    }
    /// new solver variable, with its witness value
    pub fn new_var(&mut self, v: Var) -> u32 {
        let id = self.vars.len() as u32;
        let mut val: Option<Q> = self.seed_model.as_ref().and_then(|m| m.get(&id).cloned());
        if let (Some(x), Def::Input | Def::Free | Def::Err) = (&val, &v.def) {
            // a model value outside the declared range cannot come from this variable
            if v.lo.as_ref().is_some_and(|l| x < l) || v.hi.as_ref().is_some_and(|h| x > h) {
                val = None;
            }
        }
        if let Some(w) = &self.wit {
            let computed: Option<Q> = match &v.def {
                Def::Div(n, d) => match (n.eval(w), d.eval(w)) {
                    (Some(n), Some(d)) if !d.is_zero() => Some(n / d),
                    _ => None,
                },
                Def::Sqrt(p) => p.eval(w).and_then(|x| rat_sqrt(&x)),
                Def::Alias(p) => p.eval(w),
                Def::Min(ps, max) => {
                    let vs: Option<Vec<Q>> = ps.iter().map(|p| p.eval(w)).collect();
                    vs.map(|vs| {
                        if *max {
                            vs.into_iter().max().unwrap()
                        } else {
                            vs.into_iter().min().unwrap()
                        }
                    })
                }
                Def::Err => val.clone().or(Some(Q::zero())),
                Def::Input | Def::Free => val.clone().or_else(|| {
                    let mut x = Q::zero();
                    if let Some(l) = &v.lo {
                        if &x < l {
                            x = l.clone();
                        }
                    }
                    if let Some(h) = &v.hi {
                        if &x > h {
                            x = h.clone();
                        }
                    }
                    Some(x)
                }),
            };
            match computed {
                Some(q) => {
                    self.wit.as_mut().unwrap().insert(id, q);
                }
                None => self.wit = None,
            }
        }
        self.vars.push(v);
        id
    }
    /// the polynomial is a multiple of two to this power
    pub fn poly_gran(&self, p: &Poly) -> Option<i32> {
        let mut g = 1000;
        for (m, q) in &p.0 {
            let mut k = gran_of(q)?;
            for (v, e) in &m.0 {
                k += self.vars[*v as usize].gran? * *e as i32;
            }
            g = g.min(k);
        }
        Some(g)
    }
    pub fn poly_interval(&self, p: &Poly) -> (Option<Q>, Option<Q>) {
        let mut lo = Some(Q::zero());
        let mut hi = Some(Q::zero());
        for (m, q) in &p.0 {
            let (mut a, mut b) = (Some(q.clone()), Some(q.clone()));
            for (v, e) in &m.0 {
                let var = &self.vars[*v as usize];
                let (l, h) = pow_interval(&var.lo, &var.hi, *e);
                (a, b) = mul_interval(&a, &b, &l, &h);
            }
            lo = match (lo, a) {
                (Some(x), Some(y)) => Some(x + y),
                _ => None,
            };
            hi = match (hi, b) {
                (Some(x), Some(y)) => Some(x + y),
                _ => None,
            };
            if lo.is_none() && hi.is_none() {
                break;
            }
        }
        (lo, hi)
    }
    /// fold a condition with the variables' ranges and the path condition
    pub fn fold(&self, c: &Cond) -> Cond {
        match c {
            Cond::T | Cond::F => c.clone(),
            Cond::And(v) => Cond::and(v.iter().map(|c| self.fold(c)).collect()),
            Cond::Or(v) => Cond::or(v.iter().map(|c| self.fold(c)).collect()),
            _ => {
                if self.conset.contains(c) {
                    return Cond::T;
                }
                if self.conset.contains(&c.not()) {
                    return Cond::F;
                }
                match c {
                    Cond::Lt(p) => {
                        let (lo, hi) = self.poly_interval(p);
                        if hi.as_ref().is_some_and(|h| h.is_negative()) {
                            return Cond::T;
                        }
                        if lo.as_ref().is_some_and(|l| !l.is_negative()) {
                            return Cond::F;
                        }
                        if self.conset.contains(&Cond::Eq(p.clone())) {
                            return Cond::F;
                        }
                    }
                    Cond::Le(p) => {
                        let (lo, hi) = self.poly_interval(p);
                        if hi.as_ref().is_some_and(|h| !h.is_positive()) {
                            return Cond::T;
                        }
                        if lo.as_ref().is_some_and(|l| l.is_positive()) {
                            return Cond::F;
                        }
                        if self.conset.contains(&Cond::Lt(p.clone())) {
                            return Cond::T;
                        }
                    }
                    Cond::Eq(p) | Cond::Ne(p) => {
                        let (lo, hi) = self.poly_interval(p);
                        let ne = hi.as_ref().is_some_and(|h| h.is_negative())
                            || lo.as_ref().is_some_and(|l| l.is_positive())
                            || self.conset.contains(&Cond::Lt(p.clone()))
                            || self.conset.contains(&Cond::Lt(Rc::new(p.neg())));
                        if ne {
                            return Cond::konst(matches!(c, Cond::Ne(_)));
                        }
                    }
                    _ => {}
                }
                c.clone()
            }
        }
    }
    /// a bound on a single variable narrows its range
    fn narrow(&mut self, c: &Cond) {
        if self.no_narrow {
            return;
        }
        let (p, eq) = match c {
            Cond::Le(p) | Cond::Lt(p) => (p, false),
            Cond::Eq(p) => (p, true),
            _ => return,
        };
        // a * x + b, the constant first or absent
        let (b, (m, a)) = match &p.0[..] {
            [(m, a)] => (Q::zero(), (m, a)),
            [(k, b), (m, a)] if k.0.is_empty() => (b.clone(), (m, a)),
            [(m, a), (k, b)] if k.0.is_empty() => (b.clone(), (m, a)),
            _ => return,
        };
        let [(v, 1)] = m.0[..] else { return };
        let x = -b / a;
        let var = &mut self.vars[v as usize];
        if (eq || a.is_positive()) && var.hi.as_ref().is_none_or(|h| &x < h) {
            var.hi = Some(x.clone());
        }
        if (eq || a.is_negative()) && var.lo.as_ref().is_none_or(|l| &x > l) {
            var.lo = Some(x);
        }
    }
    pub fn add_con(&mut self, c: Cond) {
        match c {
            Cond::T => {}
            Cond::And(v) => {
                for c in v.iter() {
                    self.add_con(c.clone());
                }
            }
            c => {
                if self.conset.insert(c.clone()) {
                    self.narrow(&c);
                    let mut vs = vec![];
                    c.vars(&mut vs);
                    vs.sort();
                    vs.dedup();
                    self.cons.push((c, vs));
                }
            }
        }
    }
    pub fn decls(&self, vs: &BTreeSet<u32>) -> Vec<VarDecl> {
        vs.iter()
            .map(|&id| {
                let v = &self.vars[id as usize];
                VarDecl { id, sort: v.sort, lo: v.lo.clone(), hi: v.hi.clone() }
            })
            .collect()
    }
    /// constraints (and the definitions of derived variables) connected to these variables
    pub fn relevant(&self, seed: &[u32], everything: bool) -> (BTreeSet<u32>, Vec<Cond>) {
        let mut vs: BTreeSet<u32> = seed.iter().copied().collect();
        let mut used = vec![everything; self.cons.len()];
        let mut done: BTreeSet<u32> = BTreeSet::new();
        let mut conds = vec![];
        if everything {
            for c in &self.cons {
                vs.extend(c.1.iter().copied());
            }
        }
        loop {
            let mut changed = false;
            for (i, (_, cv)) in self.cons.iter().enumerate() {
                if !used[i] && cv.iter().any(|v| vs.contains(v)) {
                    used[i] = true;
                    changed = true;
                    vs.extend(cv.iter().copied());
                }
            }
            let todo: Vec<u32> = vs.iter().filter(|v| !done.contains(v)).copied().collect();
            for v in todo {
                done.insert(v);
                for c in self.defs.get(&v).map(|v| v.as_slice()).unwrap_or(&[]) {
                    let mut l = vec![];
                    c.vars(&mut l);
                    vs.extend(l);
                    conds.push(c.clone());
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        for (i, u) in used.iter().enumerate() {
            if *u {
                conds.push(self.cons[i].0.clone());
            }
        }
        (vs, conds)
    }
    /// known sign of a polynomial (1, -1) from ranges and path condition
    fn known_sign(&self, p: &Poly) -> Option<i32> {
        let (lo, hi) = self.poly_interval(p);
        if lo.is_some_and(|l| l.is_positive()) || self.conset.contains(&lt0(p.neg())) {
            return Some(1);
        }
        if hi.is_some_and(|h| h.is_negative()) || self.conset.contains(&lt0(p.clone())) {
            return Some(-1);
        }
        None
    }
    /// replace quotients by numerator and denominator where the denominator's sign is known
    pub fn norm(&self, c: &Cond) -> Cond {
        // comparisons with a minimum or maximum become disjunctions or conjunctions
        if let Cond::Lt(p) | Cond::Le(p) = c {
            for (m, k) in p.0.iter().rev() {
                let [(v, 1)] = m.0[..] else { continue };
                let Def::Min(ps, max) = &self.vars[v as usize].def else { continue };
                if p.0.iter().any(|(m2, _)| m2 != m && m2.0.iter().any(|x| x.0 == v)) {
                    continue;
                }
                let parts = ps
                    .iter()
                    .map(|q| {
                        let r = p.subst(&|x| (x == v).then(|| q.clone()));
                        self.norm(&if matches!(c, Cond::Lt(_)) { lt0(r) } else { le0(r) })
                    })
                    .collect();
                return if *max == k.is_positive() { Cond::and(parts) } else { Cond::or(parts) };
            }
        }
        match c {
            Cond::T | Cond::F => c.clone(),
            Cond::And(v) => Cond::and(v.iter().map(|c| self.norm(c)).collect()),
            Cond::Or(v) => Cond::or(v.iter().map(|c| self.norm(c)).collect()),
            Cond::Lt(p) => match self.norm_poly(p) {
                Some(p) => lt0(p),
                None => c.clone(),
            },
            Cond::Le(p) => match self.norm_poly(p) {
                Some(p) => le0(p),
                None => c.clone(),
            },
            Cond::Eq(p) => match self.norm_poly(p) {
                Some(p) => eq0(p),
                None => c.clone(),
            },
            Cond::Ne(p) => match self.norm_poly(p) {
                Some(p) => eq0(p).not(),
                None => c.clone(),
            },
        }
    }
    fn norm_poly(&self, p: &Poly) -> Option<Poly> {
        let mut r: Option<Poly> = None;
        // latest definitions first: a numerator may contain earlier quotients
        let mut vs = vec![];
        p.vars(&mut vs);
        let mut todo: BTreeSet<u32> = vs.into_iter().collect();
        while let Some(v) = todo.pop_last() {
            let Def::Div(n, d) = &self.vars[v as usize].def else { continue };
            let cur = r.as_ref().unwrap_or(p);
            let e = cur.0.iter().flat_map(|(m, _)| m.0.iter()).filter(|(x, _)| *x == v).map(|(_, e)| *e).max().unwrap_or(0);
            if e == 0 {
                continue;
            }
            let sg = if e % 2 == 0 { 1 } else { match self.known_sign(d) { Some(s) => s, None => continue } };
            if cur.0.len() > 200 || e > 4 {
                continue;
            }
            let (mut np, mut dp) = (vec![Poly::int(1)], vec![Poly::int(1)]);
            for k in 0..e as usize {
                np.push(np[k].mul(n));
                dp.push(dp[k].mul(d));
            }
            let mut out = Poly::zero();
            for (m, q) in &cur.0 {
                let k = m.0.iter().find(|(x, _)| *x == v).map(|(_, e)| *e).unwrap_or(0) as usize;
                let rest = Mono(m.0.iter().filter(|(x, _)| *x != v).cloned().collect());
                out = out.add(&Poly(vec![(rest, q.clone())]).mul(&np[k]).mul(&dp[e as usize - k]));
            }
            if sg < 0 {
                out = out.neg();
            }
            let out = self.trig.reduce(out);
            if out.0.len() > 400 {
                continue;
            }
            let mut vs = vec![];
            out.vars(&mut vs);
            todo.extend(vs.into_iter().filter(|x| *x < v));
            r = Some(out);
        }
        r
    }
    /// is path-condition && extra satisfiable? Model is merged with the witness.
    pub fn check(&self, extra: &Cond, timeout_ms: u64) -> Res {
        let mut seed = vec![];
        extra.vars(&mut seed);
        let (mut vs, mut conds) = self.relevant(&seed, self.wit.is_none());
        conds.push(extra.clone());
        if self.wit.is_none() {
            vs.extend(0..self.vars.len() as u32);
        } else if let Some(m) = self.guess(&vs, &conds) {
            return Res::Sat(m, true);
        }
        match solver::check(&self.decls(&vs), &conds, timeout_ms) {
            Res::Sat(m, complete) => match &self.wit {
                Some(w) => {
                    let mut r = w.clone();
                    for v in &vs {
                        r.remove(v);
                    }
                    r.extend(m);
                    Res::Sat(r, complete)
                }
                None => Res::Sat(m, complete),
            },
            r => r,
        }
    }
    /// look for a model near the witness (only to save solver time on satisfiable queries)
    fn guess(&self, vs: &BTreeSet<u32>, conds: &[Cond]) -> Option<HashMap<u32, Q>> {
        let w = self.wit.as_ref()?;
        // a derived variable is recomputed; its inputs must be in the slice
        let mut inputs = vec![];
        for &v in vs {
            match &self.vars[v as usize].def {
                Def::Input => inputs.push(v),
                Def::Div(..) | Def::Sqrt(..) | Def::Min(..) | Def::Alias(..) => {}
                Def::Err | Def::Free => return None,
            }
        }
        if inputs.is_empty() {
            return None;
        }
        let mut seed: u64 = 0x9E3779B97F4A7C15 ^ (self.trace.len() as u64).wrapping_mul(0xD1B54A32D192ED03) ^ self.cons.len() as u64;
        let mut rnd = |n: u64| -> u64 {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            (seed >> 20) % n
        };
        for round in 0..48 {
            let mut m = w.clone();
            let k = if round % 3 == 0 { inputs.len() as u64 } else { 1 + rnd(2) };
            for _ in 0..k {
                let v = inputs[rnd(inputs.len() as u64) as usize];
                let var = &self.vars[v as usize];
                let q = match rnd(4) {
                    0 => {
                        // copy another input
                        w.get(&inputs[rnd(inputs.len() as u64) as usize]).cloned()?
                    }
                    1 => {
                        let cur = m.get(&v).cloned().unwrap_or_else(Q::zero);
                        cur + qi(rnd(7) as i64 - 3)
                    }
                    2 => qi(rnd(9) as i64 - 4),
                    _ => {
                        let r = 1i64 << rnd(7);
                        qi(rnd(2 * r as u64 + 1) as i64 - r)
                    }
                };
                if var.lo.as_ref().is_some_and(|l| &q < l) || var.hi.as_ref().is_some_and(|h| &q > h) {
                    continue;
                }
                if matches!(var.sort, Sort::Int) && !q.is_integer() {
                    continue;
                }
                m.insert(v, q);
            }
            // derived variables, in order of definition
            let mut ok = true;
            for (i, var) in self.vars.iter().enumerate() {
                let x = match &var.def {
                    Def::Div(n, d) => match (n.eval(&m), d.eval(&m)) {
                        (Some(n), Some(d)) if !d.is_zero() => Some(n / d),
                        _ => None,
                    },
                    Def::Sqrt(p) => p.eval(&m).and_then(|x| rat_sqrt(&x)),
                    Def::Alias(p) => p.eval(&m),
                    Def::Min(ps, max) => {
                        let l: Option<Vec<Q>> = ps.iter().map(|p| p.eval(&m)).collect();
                        l.map(|l| if *max { l.into_iter().max().unwrap() } else { l.into_iter().min().unwrap() })
                    }
                    _ => continue,
                };
                match x {
                    Some(x) => {
                        m.insert(i as u32, x);
                    }
                    None => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok && conds.iter().all(|c| c.eval(&m) == Some(true)) {
                // derived variables outside the slice may have moved: the whole path must still hold
                let derived = self.vars.iter().any(|v| !matches!(v.def, Def::Input | Def::Err | Def::Free));
                if !derived || self.cons.iter().all(|c| c.0.eval(&m) == Some(true)) {
                    return Some(m);
                }
            }
        }
        None
    }
    /// a replayed constraint that the witness does not satisfy invalidates the witness
    fn recheck(&mut self, c: &Cond) {
        if self.wit.as_ref().is_some_and(|w| c.eval(w) != Some(true)) {
            self.wit = None;
        }
    }
    fn budget(&mut self) {
        if self.trace.len() > self.opts.max_decisions {
            abort(Abort::Budget);
        }
    }
    pub fn fork(&mut self, c: &Cond) -> bool {
        let c = self.fold(&self.norm(c));
        match c {
            Cond::T => return true,
            Cond::F => return false,
            _ => {}
        }
        self.budget();
        self.stats.forks += 1;
        if self.pos < self.prefix.len() {
            let d = match &self.prefix[self.pos] {
                D::B(b) => *b,
                x => panic!("engine: decision mismatch at {}: {:?} for {:?}", self.pos, x, c),
            };
            self.pos += 1;
            self.trace.push(D::B(d));
            let c = if d { c } else { c.not() };
            self.recheck(&c);
            self.add_con(c);
            return d;
        }
        let w = self.wit.as_ref().and_then(|w| c.eval(w));
        let to = self.opts.timeout_ms;
        let take = match w {
            Some(b) => {
                let other = if b { c.not() } else { c.clone() };
                match self.check(&other, to) {
                    Res::Sat(m, complete) => self.push_job(D::B(!b), complete.then_some(m)),
                    Res::Unsat => {}
                    Res::Unknown => {
                        self.stats.unknown_forks += 1;
                        self.push_job(D::B(!b), None)
                    }
                }
                b
            }
            None => {
                let a = self.check(&c, to);
                let n = self.check(&c.not(), to);
                match (a, n) {
                    (Res::Unsat, Res::Unsat) => abort(Abort::Infeasible),
                    (Res::Unsat, r) => {
                        if let Res::Sat(m, true) = r {
                            self.wit = Some(m);
                        }
                        false
                    }
                    (r, Res::Unsat) => {
                        if let Res::Sat(m, true) = r {
                            self.wit = Some(m);
                        }
                        true
                    }
                    (a, n) => {
                        let nm = match n {
                            Res::Sat(m, true) => Some(m),
                            Res::Unknown => {
                                self.stats.unknown_forks += 1;
                                None
                            }
                            _ => None,
                        };
                        self.push_job(D::B(false), nm);
                        match a {
                            Res::Sat(m, true) => self.wit = Some(m),
                            Res::Unknown => self.stats.unknown_forks += 1,
                            _ => {}
                        }
                        true
                    }
                }
            }
        };
        self.trace.push(D::B(take));
        self.add_con(if take { c } else { c.not() });
        take
    }
    pub fn push_job(&mut self, d: D, model: Option<HashMap<u32, Q>>) {
        let mut p = self.trace.clone();
        p.push(d);
        self.new_jobs.push(Job { prefix: p, model });
    }
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            self.choices.push(0);
            return 0;
        }
        self.budget();
        let mut from = 0;
        if self.pos < self.prefix.len() {
            match self.prefix[self.pos].clone() {
                D::C(k) => {
                    self.pos += 1;
                    self.trace.push(D::C(k));
                    self.choices.push(k);
                    return k;
                }
                D::NotC(k) => {
                    self.pos += 1;
                    from = k;
                }
                x => panic!("engine: decision mismatch (choice): {x:?}"),
            }
        }
        if from + 1 < n {
            let m = self.wit.clone();
            let m = m.map(|mut m| {
                if let Some(s) = &self.seed_model {
                    for (k, v) in s {
                        m.entry(*k).or_insert_with(|| v.clone());
                    }
                }
                m
            });
            self.push_job(D::NotC(from + 1), m);
        }
        self.trace.push(D::C(from));
        self.choices.push(from);
        from
    }
    /// Fork over integers v with cell(v) covering the value of p.
    pub fn concretize(&mut self, p: &Poly, of: &dyn Fn(&Q) -> Q, cell: &dyn Fn(&Poly, i64) -> Cond) -> i64 {
        if let Some(q) = p.as_const() {
            return of(&q).to_integer().to_i64().unwrap_or_else(|| unsupported("huge integer"));
        }
        self.budget();
        let mut excl: Vec<i64> = vec![];
        if self.pos < self.prefix.len() {
            match self.prefix[self.pos].clone() {
                D::Val(v) => {
                    self.pos += 1;
                    self.trace.push(D::Val(v));
                    let c = self.fold(&self.norm(&cell(p, v)));
                    self.recheck(&c);
                    self.add_con(c);
                    return v;
                }
                D::NotIn(e) => {
                    self.pos += 1;
                    excl = e;
                }
                x => panic!("engine: decision mismatch (value): {x:?}"),
            }
        }
        let n0 = self.cons.len();
        let set0 = self.conset.clone();
        for v in &excl {
            let c = self.norm(&cell(p, *v)).not();
            self.no_narrow = true;
            self.add_con(c);
            self.no_narrow = false;
        }
        let mut w = self.wit.as_ref().and_then(|w| p.eval(w));
        if w.is_none() {
            match self.check(&Cond::T, self.opts.timeout_ms) {
                Res::Sat(m, true) => {
                    self.wit = Some(m);
                    w = self.wit.as_ref().and_then(|w| p.eval(w));
                }
                Res::Unsat => abort(Abort::Infeasible),
                _ => {}
            }
        }
        let Some(w) = w else { unsupported("no model to concretise with") };
        let v = of(&w).to_integer().to_i64().unwrap_or_else(|| unsupported("huge integer"));
        let c = self.fold(&self.norm(&cell(p, v)));
        if c != Cond::T {
            if excl.len() > 400 {
                abort(Abort::Budget);
            }
            let mut e2 = excl.clone();
            e2.push(v);
            match self.check(&c.not(), self.opts.timeout_ms) {
                Res::Sat(m, complete) => self.push_job(D::NotIn(e2), complete.then_some(m)),
                Res::Unsat => {}
                Res::Unknown => {
                    self.stats.unknown_forks += 1;
                    self.push_job(D::NotIn(e2), None)
                }
            }
        }
        // the exclusions are implied by the chosen cell
        self.cons.truncate(n0);
        self.conset = set0;
        self.trace.push(D::Val(v));
        self.stats.forks += 1;
        self.add_con(c);
        v
    }
    pub fn assume(&mut self, c: &Cond) {
        let c = self.fold(&self.norm(c));
        match c {
            Cond::T => return,
            Cond::F => abort(Abort::Infeasible),
            _ => {}
        }
        let w = self.wit.as_ref().and_then(|w| c.eval(w));
        if self.pos < self.prefix.len() {
            // replaying: solved once, when the prefix was found
            self.recheck(&c);
        } else if w != Some(true) {
            match self.check(&c, self.opts.timeout_ms) {
                Res::Unsat => abort(Abort::Infeasible),
                Res::Sat(m, true) => self.wit = Some(m),
                _ => self.wit = None,
            }
        }
        self.add_con(c);
    }
}

pub fn rat_sqrt(q: &Q) -> Option<Q> {
    if q.is_negative() {
        return None;
    }
    let n = q.numer().sqrt();
    let d = q.denom().sqrt();
    if &(&n * &n) == q.numer() && &(&d * &d) == q.denom() {
        Some(Q::new(n, d))
    } else {
        None
    }
}

type OQ = Option<Q>;
pub fn mul_interval(a: &OQ, b: &OQ, c: &OQ, d: &OQ) -> (OQ, OQ) {
    // [a,b]*[c,d] with None = unbounded
    let is_zero = |l: &OQ, h: &OQ| {
        l.as_ref().is_some_and(|x| x.is_zero()) && h.as_ref().is_some_and(|x| x.is_zero())
    };
    if is_zero(a, b) || is_zero(c, d) {
        return (Some(Q::zero()), Some(Q::zero()));
    }
    match (a, b, c, d) {
        (Some(a), Some(b), Some(c), Some(d)) => {
            let v = [a * c, a * d, b * c, b * d];
            (v.iter().min().cloned(), v.iter().max().cloned())
        }
        _ => {
            let nonneg = |l: &OQ| l.as_ref().is_some_and(|x| !x.is_negative());
            let nonpos = |h: &OQ| h.as_ref().is_some_and(|x| !x.is_positive());
            if (nonneg(a) && nonneg(c)) || (nonpos(b) && nonpos(d)) {
                (Some(Q::zero()), None)
            } else if (nonneg(a) && nonpos(d)) || (nonpos(b) && nonneg(c)) {
                (None, Some(Q::zero()))
            } else {
                (None, None)
            }
        }
    }
}
pub fn pow_interval(l: &OQ, h: &OQ, e: u32) -> (OQ, OQ) {
    let (mut a, mut b) = (l.clone(), h.clone());
    if e == 1 {
        return (a, b);
    }
    if e % 2 == 0 {
        // |x|^e
        let m = match (l, h) {
            (Some(l), Some(h)) => Some(l.abs().max(h.abs())),
            _ => None,
        };
        let lo = if l.as_ref().is_some_and(|x| x.is_positive()) {
            l.clone().unwrap()
        } else if h.as_ref().is_some_and(|x| x.is_negative()) {
            -h.clone().unwrap()
        } else {
            Q::zero()
        };
        let p = |x: &Q| {
            let mut r = Q::one();
            for _ in 0..e {
                r *= x;
            }
            r
        };
        return (Some(p(&lo)), m.map(|m| p(&m)));
    }
    for _ in 1..e {
        (a, b) = mul_interval(&a, &b, l, h);
    }
    (a, b)
}
