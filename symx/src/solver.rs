//! Persistent SMT solver process (z3), one per worker thread, with a text-level query cache.
use crate::poly::*;
use num_bigint::BigInt;
use num_traits::{One, Zero};
use crate::poly::HashMap;
use std::collections::BTreeSet;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc::{channel, Receiver};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub static QUERIES: AtomicU64 = AtomicU64::new(0);
pub static CACHE_HITS: AtomicU64 = AtomicU64::new(0);
pub static SAT: AtomicU64 = AtomicU64::new(0);
pub static UNSAT: AtomicU64 = AtomicU64::new(0);
pub static UNKNOWN: AtomicU64 = AtomicU64::new(0);
pub static SOLVER_US: AtomicU64 = AtomicU64::new(0);
pub static MAX_US: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Debug)]
pub enum Res {
    Sat(HashMap<u32, Q>, bool), // model, complete (all rational)
    Unsat,
    Unknown,
}

struct Proc {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
}

impl Proc {
    fn spawn(cmd: &[&str]) -> Proc {
        let mut child = Command::new(cmd[0])
            .args(&cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("solver process");
        let stdin = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        Proc { child, stdin, rx }
    }
    /// send text, collect lines until the marker
    fn run(&mut self, text: &str, to: Duration) -> Option<Vec<String>> {
        let t = format!("{text}\n(echo \"@done\")\n");
        if self.stdin.write_all(t.as_bytes()).is_err() || self.stdin.flush().is_err() {
            return None;
        }
        let end = Instant::now() + to;
        let mut r = vec![];
        loop {
            let left = end.saturating_duration_since(Instant::now());
            match self.rx.recv_timeout(left) {
                Ok(l) => {
                    let l = l.trim().to_string();
                    if l.contains("@done") {
                        return Some(r);
                    }
                    r.push(l);
                }
                Err(_) => return None,
            }
        }
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

static POOL: Mutex<Vec<Proc>> = Mutex::new(Vec::new());

static CACHE: Mutex<Option<HashMap<String, Res>>> = Mutex::new(None);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sort {
    Real,
    Int,
    /// k * 2^g with integer k
    Grid(i32),
}

pub struct VarDecl {
    pub id: u32,
    pub sort: Sort,
    pub lo: Option<Q>,
    pub hi: Option<Q>,
}

fn text_of(decls: &[VarDecl], conds: &[Cond], timeout_ms: u64, tactic: Option<&str>) -> String {
    let mut s = String::with_capacity(4096);
    s.push_str("(reset)\n");
    s.push_str(&format!("(set-option :timeout {timeout_ms})\n"));
    let has_int = decls.iter().any(|d| d.sort != Sort::Real);
    let deg = conds.iter().map(|c| c.degree()).max().unwrap_or(0);
    if !has_int && tactic.is_none() {
        s.push_str(if deg > 1 {
            "(set-logic QF_NRA)\n"
        } else {
            "(set-logic QF_LRA)\n"
        });
    }
    for d in decls {
        match d.sort {
            Sort::Real => s.push_str(&format!("(declare-const v{} Real)\n", d.id)),
            Sort::Int => s.push_str(&format!(
                "(declare-const k{0} Int)\n(define-fun v{0} () Real (to_real k{0}))\n",
                d.id
            )),
            Sort::Grid(g) => {
                let mut q = String::new();
                smt_q(&q2(g), &mut q);
                s.push_str(&format!(
                    "(declare-const k{0} Int)\n(define-fun v{0} () Real (* {1} (to_real k{0})))\n",
                    d.id, q
                ))
            }
        }
        if let Some(lo) = &d.lo {
            let mut q = String::new();
            smt_q(lo, &mut q);
            s.push_str(&format!("(assert (>= v{} {}))\n", d.id, q));
        }
        if let Some(hi) = &d.hi {
            let mut q = String::new();
            smt_q(hi, &mut q);
            s.push_str(&format!("(assert (<= v{} {}))\n", d.id, q));
        }
    }
    for c in conds {
        s.push_str("(assert ");
        c.smt(&mut s);
        s.push_str(")\n");
    }
    match tactic {
        None => s.push_str("(check-sat)\n"),
        Some(t) => s.push_str(&format!("(check-sat-using {t})\n")),
    }
    s
}

fn collect_eqs(c: &Cond, out: &mut Vec<Poly>) {
    match c {
        Cond::Eq(p) => out.push((**p).clone()),
        Cond::And(v) => v.iter().for_each(|c| collect_eqs(c, out)),
        _ => {}
    }
}

/// eliminate real variables that a conjunct defines linearly, then decide
pub fn check(decls: &[VarDecl], conds: &[Cond], timeout_ms: u64) -> Res {
    if conds.iter().map(|c| c.degree()).max().unwrap_or(0) <= 1 {
        return check1(decls, conds, timeout_ms);
    }
    let mut conds: Vec<Cond> = conds.to_vec();
    let mut keep: Vec<VarDecl> = decls.iter().map(|d| VarDecl { id: d.id, sort: d.sort, lo: d.lo.clone(), hi: d.hi.clone() }).collect();
    let mut elim: Vec<(u32, Poly)> = vec![];
    let mut rounds = 0;
    'outer: while rounds < 40 {
        rounds += 1;
        let mut eqs = vec![];
        conds.iter().for_each(|c| collect_eqs(c, &mut eqs));
        for p in eqs {
            // v occurs only as k*v, the other monomials are free of it
            for (m, k) in &p.0 {
                if m.0.len() != 1 || m.0[0].1 != 1 {
                    continue;
                }
                let v = m.0[0].0;
                let Some(pos) = keep.iter().position(|d| d.id == v && d.sort == Sort::Real) else { continue };
                if p.0.iter().any(|(m2, _)| m2 != m && m2.0.iter().any(|x| x.0 == v)) {
                    continue;
                }
                let rest = Poly(p.0.iter().filter(|(m2, _)| m2 != m).cloned().collect());
                // a nonlinear definition is only inlined when it is short
                if rest.degree() > 1 && rest.0.len() > 3 {
                    continue;
                }
                let def = rest.scale(&(-Q::one() / k));
                let d = keep.remove(pos);
                conds = conds.iter().map(|c| c.subst(&|x| (x == v).then(|| def.clone()))).filter(|c| *c != Cond::T).collect();
                if let Some(lo) = d.lo {
                    conds.push(le0(Poly::konst(lo).sub(&def)));
                }
                if let Some(hi) = d.hi {
                    conds.push(le0(def.sub(&Poly::konst(hi))));
                }
                for e in elim.iter_mut() {
                    e.1 = e.1.subst(&|x| (x == v).then(|| def.clone()));
                }
                elim.push((v, def));
                if conds.iter().any(|c| *c == Cond::F) {
                    return Res::Unsat;
                }
                continue 'outer;
            }
        }
        break;
    }
    match check1(&keep, &conds, timeout_ms) {
        Res::Sat(mut m, mut complete) => {
            for (v, p) in &elim {
                match p.eval(&m) {
                    Some(q) => {
                        m.insert(*v, q);
                    }
                    None => complete = false,
                }
            }
            Res::Sat(m, complete)
        }
        r => r,
    }
}

fn check1(decls: &[VarDecl], conds: &[Cond], timeout_ms: u64) -> Res {
    let text = text_of(decls, conds, timeout_ms, None);
    if let Some(r) = CACHE
        .lock()
        .unwrap()
        .get_or_insert_with(HashMap::default)
        .get(&text)
    {
        CACHE_HITS.fetch_add(1, Ordering::Relaxed);
        return r.clone();
    }
    let t0 = Instant::now();
    let deg = conds.iter().map(|c| c.degree()).max().unwrap_or(0);
    let all_real = decls.iter().all(|d| d.sort == Sort::Real);
    let mut r = Res::Unknown;
    if deg > 1 {
        // linear relaxations first: monomials become variables, so unsat carries over
        r = relax(decls, conds, false, 3000.min(2 * timeout_ms));
        if matches!(r, Res::Unknown) {
            r = run_one(&text_of(decls, conds, 400.min(timeout_ms), None), decls, 400.min(timeout_ms));
        }
        if matches!(r, Res::Unknown) {
            r = relax(decls, conds, true, timeout_ms.min(6000));
        }
    }
    if matches!(r, Res::Unknown) {
        r = run_one(&text, decls, timeout_ms);
    }
    if matches!(r, Res::Unknown) && all_real {
        let t2 = text_of(
            decls,
            conds,
            timeout_ms,
            Some("(then simplify propagate-values solve-eqs purify-arith qfnra-nlsat)"),
        );
        r = run_one(&t2, decls, timeout_ms);
    }
    let us = t0.elapsed().as_micros() as u64;
    QUERIES.fetch_add(1, Ordering::Relaxed);
    SOLVER_US.fetch_add(us, Ordering::Relaxed);
    MAX_US.fetch_max(us, Ordering::Relaxed);
    match r {
        Res::Sat(..) => SAT.fetch_add(1, Ordering::Relaxed),
        Res::Unsat => UNSAT.fetch_add(1, Ordering::Relaxed),
        Res::Unknown => UNKNOWN.fetch_add(1, Ordering::Relaxed),
    };
    if us > 2_000_000 && std::env::var("SYMX_SLOW").is_ok() {
        eprintln!("slow query {} ms: {:?}\n{}", us / 1000, matches!(r, Res::Unknown), text);
    }
    let mut c = CACHE.lock().unwrap();
    let c = c.get_or_insert_with(HashMap::default);
    if c.len() < 200_000 {
        c.insert(text, r.clone());
    }
    r
}

const MONO: u32 = 1_000_000;

struct Lin {
    map: HashMap<Mono, u32>,
    list: Vec<Mono>,
}
impl Lin {
    fn poly(&mut self, p: &Poly) -> Poly {
        let mut r: Vec<(Mono, Q)> = vec![];
        for (m, q) in &p.0 {
            if m.degree() <= 1 {
                r.push((m.clone(), q.clone()));
            } else {
                let id = match self.map.get(m) {
                    Some(id) => *id,
                    None => {
                        let id = MONO + self.list.len() as u32;
                        self.map.insert(m.clone(), id);
                        self.list.push(m.clone());
                        id
                    }
                };
                r.push((Mono(vec![(id, 1)]), q.clone()));
            }
        }
        r.sort();
        Poly(r)
    }
    fn cond(&mut self, c: &Cond) -> Cond {
        match c {
            Cond::T | Cond::F => c.clone(),
            Cond::Lt(p) => lt0(self.poly(p)),
            Cond::Le(p) => le0(self.poly(p)),
            Cond::Eq(p) => eq0(self.poly(p)),
            Cond::Ne(p) => eq0(self.poly(p)).not(),
            Cond::And(v) => Cond::and(v.iter().map(|c| self.cond(c)).collect()),
            Cond::Or(v) => Cond::or(v.iter().map(|c| self.cond(c)).collect()),
        }
    }
}

/// linear polynomials known to be >= 0
fn facts(c: &Cond, deg: u32, out: &mut Vec<Poly>) {
    match c {
        Cond::Lt(p) | Cond::Le(p) if p.degree() <= deg => out.push(p.neg()),
        Cond::Eq(p) if p.degree() <= deg => {
            out.push(p.neg());
            out.push((**p).clone());
        }
        Cond::And(v) => v.iter().for_each(|c| facts(c, deg, out)),
        _ => {}
    }
}

pub static RELAX_UNSAT: AtomicU64 = AtomicU64::new(0);

/// Monomials of degree >= 2 become fresh variables; true facts about them are added. Only unsat is meaningful,
/// and a model that happens to satisfy the original conditions.
fn relax(decls: &[VarDecl], conds: &[Cond], products: bool, timeout_ms: u64) -> Res {
    let mut lin = Lin { map: HashMap::default(), list: vec![] };
    let mut out: Vec<Cond> = conds.iter().map(|c| lin.cond(c)).collect();
    // squares of differences and sums of variables multiplied somewhere
    let n0 = lin.list.len();
    for i in 0..n0 {
        let m = lin.list[i].clone();
        match &m.0[..] {
            [(_, e)] if e % 2 == 0 => {
                let p = lin.poly(&Poly(vec![(m.clone(), Q::one())]));
                out.push(le0(p.neg()));
            }
            [(x, 1), (y, 1)] => {
                for d in [Poly::var(*x).sub(&Poly::var(*y)), Poly::var(*x).add(&Poly::var(*y))] {
                    let p = lin.poly(&d.mul(&d));
                    out.push(le0(p.neg()));
                }
            }
            _ => {}
        }
    }
    if products {
        let mut f = vec![];
        for c in conds {
            facts(c, 1, &mut f);
        }
        f.sort();
        f.dedup();
        f.truncate(40);
        for i in 0..f.len() {
            for j in 0..=i {
                let p = lin.poly(&f[i].mul(&f[j]));
                out.push(le0(p.neg()));
            }
        }
    }
    let rng: HashMap<u32, (Option<Q>, Option<Q>)> =
        decls.iter().map(|d| (d.id, (d.lo.clone(), d.hi.clone()))).collect();
    let mut d2: Vec<VarDecl> = decls
        .iter()
        .map(|d| VarDecl { id: d.id, sort: Sort::Real, lo: d.lo.clone(), hi: d.hi.clone() })
        .collect();
    for (i, m) in lin.list.iter().enumerate() {
        let (mut lo, mut hi) = (Some(Q::one()), Some(Q::one()));
        for (v, e) in &m.0 {
            let (l, h) = rng.get(v).cloned().unwrap_or((None, None));
            let (l, h) = crate::ctx::pow_interval(&l, &h, *e);
            (lo, hi) = crate::ctx::mul_interval(&lo, &hi, &l, &h);
        }
        d2.push(VarDecl { id: MONO + i as u32, sort: Sort::Real, lo, hi });
    }
    let text = text_of(&d2, &out, timeout_ms, None);
    match run_one(&text, &d2, timeout_ms) {
        Res::Unsat => {
            RELAX_UNSAT.fetch_add(1, Ordering::Relaxed);
            Res::Unsat
        }
        Res::Sat(m, true) => {
            let m: HashMap<u32, Q> = m.into_iter().filter(|(k, _)| *k < MONO).collect();
            let int_ok = decls.iter().all(|d| match d.sort {
                Sort::Real => true,
                Sort::Int => m.get(&d.id).is_some_and(|q| q.is_integer()),
                Sort::Grid(g) => m.get(&d.id).is_some_and(|q| (q / q2(g)).is_integer()),
            });
            if int_ok && conds.iter().all(|c| c.eval(&m) == Some(true)) {
                Res::Sat(m, true)
            } else {
                Res::Unknown
            }
        }
        _ => Res::Unknown,
    }
}

fn run_one(text: &str, decls: &[VarDecl], timeout_ms: u64) -> Res {
    let mut slot = POOL.lock().unwrap().pop();
    let r = run_in(&mut slot, text, decls, timeout_ms);
    if let Some(p) = slot {
        POOL.lock().unwrap().push(p);
    }
    r
}

fn run_in(z: &mut Option<Proc>, text: &str, decls: &[VarDecl], timeout_ms: u64) -> Res {
    {
        let wall = Duration::from_millis(timeout_ms * 2 + 3000);
        for _ in 0..2 {
            if z.is_none() {
                *z = Some(Proc::spawn(&["z3-new", "-in", "-smt2"]));
            }
            let out = z.as_mut().unwrap().run(text, wall);
            let out = match out {
                Some(o) => o,
                None => {
                    let dead = z.as_mut().unwrap().child.try_wait().ok().flatten().is_some();
                    *z = None;
                    if dead {
                        continue;
                    }
                    return Res::Unknown;
                }
            };
            if out.iter().any(|l| l.starts_with("(error")) {
                if std::env::var("SYMX_DEBUG").is_ok() {
                    eprintln!("solver error: {out:?}\n{text}");
                }
                return Res::Unknown;
            }
            match out.last().map(|s| s.as_str()) {
                Some("unsat") => return Res::Unsat,
                Some("sat") => {
                    if decls.is_empty() {
                        return Res::Sat(HashMap::default(), true);
                    }
                    let mut q = String::from("(get-value (");
                    for d in decls {
                        q.push_str(&format!("v{} ", d.id));
                    }
                    q.push_str("))");
                    let o = match z.as_mut().unwrap().run(&q, wall) {
                        Some(o) => o.join(" "),
                        None => {
                            *z = None;
                            return Res::Sat(HashMap::default(), false);
                        }
                    };
                    let (m, complete) = parse_model(&o);
                    let complete = complete && m.len() == decls.len();
                    return Res::Sat(m, complete);
                }
                _ => return Res::Unknown,
            }
        }
        Res::Unknown
    }
}

#[derive(Debug)]
enum SExp {
    A(String),
    L(Vec<SExp>),
}
fn parse_sexp(t: &str) -> Option<SExp> {
    let mut stack: Vec<Vec<SExp>> = vec![];
    let mut cur = String::new();
    let mut res = None;
    for ch in t.chars() {
        match ch {
            '(' | ')' | ' ' | '\n' | '\t' => {
                if !cur.is_empty() {
                    let a = SExp::A(std::mem::take(&mut cur));
                    stack.last_mut()?.push(a);
                }
                if ch == '(' {
                    stack.push(vec![]);
                } else if ch == ')' {
                    let l = SExp::L(stack.pop()?);
                    if let Some(p) = stack.last_mut() {
                        p.push(l);
                    } else {
                        res = Some(l);
                    }
                }
            }
            c => cur.push(c),
        }
    }
    res
}
fn num_of(e: &SExp) -> Option<Q> {
    match e {
        SExp::A(s) => parse_q(s),
        SExp::L(l) => match &l[..] {
            [SExp::A(op), x] if op == "-" => Some(-num_of(x)?),
            [SExp::A(op), x] if op == "to_real" => num_of(x),
            [SExp::A(op), x, y] if op == "/" => {
                let d = num_of(y)?;
                if d.is_zero() {
                    None
                } else {
                    Some(num_of(x)? / d)
                }
            }
            _ => None,
        },
    }
}
/// "12", "12.5", "-3/4"
pub fn parse_q(s: &str) -> Option<Q> {
    if let Some((a, b)) = s.split_once('/') {
        return Some(parse_q(a)? / parse_q(b)?);
    }
    let (neg, s) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let q = if let Some((a, b)) = s.split_once('.') {
        let n: BigInt = format!("{a}{b}").parse().ok()?;
        let mut d = BigInt::one();
        for _ in 0..b.len() {
            d *= 10;
        }
        Q::new(n, d)
    } else {
        Q::from_integer(s.parse().ok()?)
    };
    Some(if neg { -q } else { q })
}
fn parse_model(t: &str) -> (HashMap<u32, Q>, bool) {
    let mut m = HashMap::default();
    let mut complete = true;
    if let Some(SExp::L(l)) = parse_sexp(t) {
        for e in l {
            if let SExp::L(p) = e {
                if let [SExp::A(n), v] = &p[..] {
                    if let Some(id) = n.strip_prefix('v').and_then(|x| x.parse().ok()) {
                        match num_of(v) {
                            Some(q) => {
                                m.insert(id, q);
                            }
                            None => complete = false,
                        }
                    }
                }
            }
        }
    }
    (m, complete)
}

/// indices of conditions transitively sharing variables with `seed`
pub fn slice(seed: &[u32], conds: &[(Cond, Vec<u32>)]) -> Vec<usize> {
    let mut set: BTreeSet<u32> = seed.iter().copied().collect();
    let mut used = vec![false; conds.len()];
    loop {
        let mut changed = false;
        for (i, (_, vs)) in conds.iter().enumerate() {
            if !used[i] && vs.iter().any(|v| set.contains(v)) {
                used[i] = true;
                changed = true;
                set.extend(vs.iter().copied());
            }
        }
        if !changed {
            break;
        }
    }
    used.iter()
        .enumerate()
        .filter(|(_, u)| **u)
        .map(|(i, _)| i)
        .collect()
}
