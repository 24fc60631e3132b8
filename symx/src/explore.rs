//! Path exploration, assertion checking, concretisation of counterexamples and native replay.
use crate::ctx::*;
use crate::env::*;
use crate::poly::*;
use crate::solver::{self, Res, Sort};
use crate::sym::with;
use num_traits::Signed;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::Command;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy)]
pub struct Harness {
    pub name: &'static str,
    pub sym: fn(&mut SymEnv),
    pub f64: fn(&mut NatEnv<f64>),
    pub f32: fn(&mut NatEnv<f32>),
    /// functions of the library this harness executes
    pub funcs: &'static [&'static str],
}

#[derive(Clone)]
pub struct Inst {
    pub h: Harness,
    pub params: Vec<(&'static str, i64)>,
    pub opts: Opts,
    pub covers: Vec<&'static str>,
    pub bounds: String,
    /// which native instantiations replay a counterexample
    pub nat: &'static [&'static str],
    /// a failure under the rounding model that does not reproduce is only noted
    pub soft: bool,
    pub proc: bool,
    /// part of the code is replaced by a specification: a model says little about the inputs
    pub abstracted: bool,
    /// run every path in a fresh thread (deterministic hash keys)
    pub fresh: bool,
    /// validate every path's witness natively
    pub validate: bool,
    pub secs: u64,
}
impl Inst {
    pub fn new(h: Harness, params: Vec<(&'static str, i64)>, bounds: &str) -> Inst {
        Inst {
            h,
            params,
            opts: Opts::default(),
            covers: vec![],
            bounds: bounds.to_string(),
            nat: &["f64", "f32"],
            soft: false,
            proc: false,
            abstracted: false,
            fresh: false,
            validate: true,
            secs: 200,
        }
    }
    pub fn covers(mut self, c: &[&'static str]) -> Self {
        self.covers = c.to_vec();
        self
    }
    pub fn opt(mut self, f: impl FnOnce(&mut Opts)) -> Self {
        f(&mut self.opts);
        self
    }
    pub fn secs(mut self, s: u64) -> Self {
        self.secs = s;
        self
    }
    pub fn fresh(mut self) -> Self {
        self.fresh = true;
        self
    }
    pub fn nat(mut self, n: &'static [&'static str]) -> Self {
        self.nat = n;
        self
    }
    /// run the code natively in a separate process only (it may not return)
    pub fn proc(mut self) -> Self {
        self.proc = true;
        self
    }
    pub fn abstracted(mut self) -> Self {
        self.abstracted = true;
        self
    }
    pub fn soft(mut self) -> Self {
        self.soft = true;
        self
    }
    pub fn no_validate(mut self) -> Self {
        self.validate = false;
        self
    }
    pub fn label(&self) -> String {
        let p: Vec<String> = self.params.iter().map(|(k, v)| format!("{k}={v}")).collect();
        let m = match self.opts.err {
            Some(k) => format!(", rounding<=2^-{k}"),
            None => String::new(),
        };
        format!("{}({}{})", self.h.name, p.join(","), m)
    }
}

#[derive(Default, Debug, Clone)]
pub struct Report {
    pub label: String,
    pub bounds: String,
    pub funcs: Vec<&'static str>,
    pub paths: usize,
    pub infeasible: usize,
    pub decisions: u64,
    pub max_depth: usize,
    pub asserts: usize,
    pub asserts_trivial: usize,
    pub asserts_unsat: usize,
    pub asserts_unknown: usize,
    pub unknown_forks: u64,
    pub validated: usize,
    pub validated_runs: usize,
    pub exact_ops: u64,
    pub inexact_ops: u64,
    pub covers: BTreeMap<String, usize>,
    pub missing_covers: Vec<String>,
    pub names: BTreeMap<String, usize>,
    pub unsupported: BTreeMap<String, usize>,
    pub engine_errors: Vec<String>,
    pub violations: Vec<(String, String)>, // (what, case file)
    pub unconfirmed: Vec<String>,
    pub notes: BTreeSet<String>,
    pub samples: Vec<String>,
    pub incomplete: bool,
    pub secs: f64,
    pub queries: u64,
    pub solver_s: f64,
}

struct Shared {
    jobs: Mutex<(Vec<Job>, usize)>, // worklist, number of busy workers
    cv: Condvar,
    stop: AtomicBool,
    report: Mutex<Report>,
    unconf: AtomicUsize,
}

pub fn work_dir() -> String {
    let d = std::env::var("SYMX_WORK").unwrap_or_else(|_| "/verif/evidence/replays".into());
    let _ = std::fs::create_dir_all(&d);
    d
}

pub fn run(inst: &Inst, property: &str, deadline: Instant) -> Report {
    let t0 = Instant::now();
    let q0 = solver::QUERIES.load(Ordering::Relaxed);
    let s0 = solver::SOLVER_US.load(Ordering::Relaxed);
    let end = deadline.min(t0 + Duration::from_secs(inst.secs));
    let sh = Shared {
        jobs: Mutex::new((vec![Job { prefix: vec![], model: None }], 0)),
        cv: Condvar::new(),
        stop: AtomicBool::new(false),
        report: Mutex::new(Report {
            label: inst.label(),
            bounds: inst.bounds.clone(),
            funcs: inst.h.funcs.to_vec(),
            ..Default::default()
        }),
        unconf: AtomicUsize::new(0),
    };
    let nthreads = std::env::var("SYMX_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    std::thread::scope(|sc| {
        for _ in 0..nthreads {
            let sh = &sh;
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(sc, move || worker(inst, property, sh, end))
                .unwrap();
        }
    });
    let mut r = sh.report.into_inner().unwrap();
    if !sh.jobs.lock().unwrap().0.is_empty() && !sh.stop.load(Ordering::Relaxed) {
        r.incomplete = true;
    }
    for c in &inst.covers {
        if !r.covers.contains_key(*c) {
            r.missing_covers.push(c.to_string());
        }
    }
    r.secs = t0.elapsed().as_secs_f64();
    r.queries = solver::QUERIES.load(Ordering::Relaxed) - q0;
    r.solver_s = (solver::SOLVER_US.load(Ordering::Relaxed) - s0) as f64 / 1e6;
    r
}

fn worker(inst: &Inst, property: &str, sh: &Shared, end: Instant) {
    let mut tick: u64 = 88172645463325252;
    loop {
        let job = {
            let mut g = sh.jobs.lock().unwrap();
            loop {
                if sh.stop.load(Ordering::Relaxed) || Instant::now() > end {
                    sh.cv.notify_all();
                    return;
                }
                // every other job comes from a random place, so that a truncated run is spread out
                tick = tick.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                if tick >> 63 == 1 && g.0.len() > 64 {
                    let (n, k) = (g.0.len(), (tick >> 33) as usize);
                    g.0.swap(k % n, n - 1);
                }
                if let Some(j) = g.0.pop() {
                    g.1 += 1;
                    break j;
                }
                if g.1 == 0 {
                    sh.cv.notify_all();
                    return;
                }
                g = sh.cv.wait_timeout(g, Duration::from_millis(100)).unwrap().0;
            }
        };
        let new = if inst.fresh {
            std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(1 << 30)
                    .spawn_scoped(s, || one_path(inst, property, sh, job))
                    .unwrap()
                    .join()
                    .unwrap_or_default()
            })
        } else {
            one_path(inst, property, sh, job)
        };
        let mut g = sh.jobs.lock().unwrap();
        g.0.extend(new);
        g.1 -= 1;
        sh.cv.notify_all();
    }
}

fn one_path(inst: &Inst, property: &str, sh: &Shared, job: Job) -> Vec<Job> {
    with(|c| *c = Ctx::new(job, inst.opts.clone()));
    let params: HashMap<String, i64> = inst.params.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    let res = catch_unwind(AssertUnwindSafe(|| (inst.h.sym)(&mut SymEnv { params })));
    let mut ctx = with(|c| {
        std::mem::replace(c, Ctx::new(Job { prefix: vec![], model: None }, Opts::default()))
    });
    let new = std::mem::take(&mut ctx.new_jobs);
    let mut local = Report::default();
    local.decisions = ctx.stats.forks;
    local.max_depth = ctx.trace.len();
    local.exact_ops = ctx.stats.exact_ops;
    local.inexact_ops = ctx.stats.inexact_ops;
    local.unknown_forks = ctx.stats.unknown_forks;
    local.notes = ctx.notes.clone();
    let mut candidate: Option<(String, Cond)> = None;
    match res {
        Ok(()) => {
            local.paths = 1;
            for c in &ctx.covers {
                *local.covers.entry(c.clone()).or_default() += 1;
            }
        }
        Err(p) => match p.downcast::<Abort>() {
            Ok(a) => match *a {
                Abort::Infeasible => {
                    local.infeasible = 1;
                    merge(sh, local);
                    return new;
                }
                Abort::Budget => candidate = Some(("does not terminate within the step budget".into(), Cond::T)),
                Abort::Unsupported(m) => {
                    local.unsupported.insert(m, 1);
                }
            },
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into());
                if m.starts_with("engine:") {
                    local.engine_errors.push(m);
                } else {
                    local.paths = 1;
                    candidate = Some((format!("panic: {m}"), Cond::T));
                }
            }
        },
    }
    let mut violated = false;
    if let Some((what, c)) = candidate {
        local.asserts += 1;
        violated = true;
        handle_candidate(inst, property, sh, &ctx, &what, &c, false, &mut local);
    } else if local.paths == 1 {
        let reqs = std::mem::take(&mut ctx.requires);
        for (name, c) in reqs {
            local.asserts += 1;
            *local.names.entry(name.clone()).or_default() += 1;
            let c = ctx.fold(&ctx.norm(&c));
            if c == Cond::T {
                local.asserts_trivial += 1;
                continue;
            }
            let neg = c.not();
            // a witness that already violates needs no query, otherwise ask
            let r = match ctx.wit.as_ref().and_then(|w| neg.eval(w)) {
                Some(true) => Res::Sat(ctx.wit.clone().unwrap(), true),
                _ => {
                    // one query per disjunct of the negated assertion
                    let parts: Vec<Cond> = match &neg {
                        Cond::Or(v) => v.to_vec(),
                        c => vec![c.clone()],
                    };
                    let mut r = Res::Unsat;
                    for p in parts {
                        match ctx.check(&p, inst.opts.assert_ms) {
                            Res::Unsat => {}
                            Res::Unknown => r = Res::Unknown,
                            s => {
                                r = s;
                                break;
                            }
                        }
                    }
                    r
                }
            };
            match r {
                Res::Unsat => local.asserts_unsat += 1,
                Res::Unknown => {
                    local.asserts_unknown += 1;
                    local.notes.insert(format!("undecided: {name}"));
                    // a counterexample of the linear part may be a real one
                    let conds: Vec<Cond> = ctx.cons.iter().map(|c| c.0.clone()).chain(ctx.defs.values().flatten().cloned()).filter(|c| c.degree() <= 1).chain([neg.clone()]).collect();
                    let all: BTreeSet<u32> = (0..ctx.vars.len() as u32).collect();
                    let d = ctx.decls(&all);
                    if let (true, Res::Sat(m, _)) = (neg.degree() <= 1, solver::check(&d, &conds, 2000)) {
                        let mut c2 = Ctx::new(Job { prefix: vec![], model: None }, inst.opts.clone());
                        std::mem::swap(&mut c2.vars, &mut ctx.vars);
                        std::mem::swap(&mut c2.trig, &mut ctx.trig);
                        c2.choices = ctx.choices.clone();
                        c2.wit = Some(m);
                        handle_candidate(inst, property, sh, &c2, &name, &neg, true, &mut local);
                        std::mem::swap(&mut c2.vars, &mut ctx.vars);
                        std::mem::swap(&mut c2.trig, &mut ctx.trig);
                    }
                }
                Res::Sat(m, complete) => {
                    violated = true;
                    let mut c2 = Ctx::new(Job { prefix: vec![], model: None }, inst.opts.clone());
                    std::mem::swap(&mut c2.cons, &mut ctx.cons);
                    std::mem::swap(&mut c2.defs, &mut ctx.defs);
                    std::mem::swap(&mut c2.vars, &mut ctx.vars);
                    c2.choices = ctx.choices.clone();
                    c2.wit = if complete { Some(m) } else { None };
                    handle_candidate(inst, property, sh, &c2, &name, &neg, false, &mut local);
                    std::mem::swap(&mut c2.cons, &mut ctx.cons);
                    std::mem::swap(&mut c2.defs, &mut ctx.defs);
                    std::mem::swap(&mut c2.vars, &mut ctx.vars);
                    break;
                }
            }
        }
    }
    // translation validation: the path's witness must satisfy the property natively as well
    if local.paths == 1 && !violated && inst.validate {
        if let Some(w) = &ctx.wit {
            if on_grid(&ctx, w) {
                let case = make_case(inst, property, &ctx, w);
                local.validated = 1;
                for n in inst.nat {
                    match native_inproc(inst, n, &case) {
                        NatRes::Ok(_) => local.validated_runs += 1,
                        NatRes::Invalid(_) => {}
                        NatRes::Fail(f, _) => {
                            confirm(inst, property, sh, &case, &format!("{} (native run of a path witness, {n})", f.join("; ")), &mut local);
                        }
                    }
                }
                if with_sample() {
                    local.samples.push(case.write().replace('\n', "; "));
                }
            }
        }
    }
    merge(sh, local);
    new
}

fn with_sample() -> bool {
    static N: AtomicUsize = AtomicUsize::new(0);
    let k = N.fetch_add(1, Ordering::Relaxed);
    k < 2 || (k % 97 == 0 && k < 400)
}

fn merge(sh: &Shared, l: Report) {
    let mut r = sh.report.lock().unwrap();
    r.paths += l.paths;
    r.infeasible += l.infeasible;
    r.decisions += l.decisions;
    r.max_depth = r.max_depth.max(l.max_depth);
    r.asserts += l.asserts;
    r.asserts_trivial += l.asserts_trivial;
    r.asserts_unsat += l.asserts_unsat;
    r.asserts_unknown += l.asserts_unknown;
    r.unknown_forks += l.unknown_forks;
    r.validated += l.validated;
    r.validated_runs += l.validated_runs;
    r.exact_ops += l.exact_ops;
    r.inexact_ops += l.inexact_ops;
    for (k, v) in l.covers {
        *r.covers.entry(k).or_default() += v;
    }
    for (k, v) in l.names {
        *r.names.entry(k).or_default() += v;
    }
    for (k, v) in l.unsupported {
        *r.unsupported.entry(k).or_default() += v;
    }
    if r.engine_errors.len() < 5 {
        r.engine_errors.extend(l.engine_errors);
    }
    r.violations.extend(l.violations);
    r.unconfirmed.extend(l.unconfirmed);
    r.notes.extend(l.notes);
    if r.samples.len() < 6 {
        r.samples.extend(l.samples);
    }
}

fn on_grid(ctx: &Ctx, w: &HashMap<u32, Q>) -> bool {
    ctx.vars.iter().enumerate().all(|(i, v)| {
        !matches!(v.def, Def::Input)
            || w.get(&(i as u32)).is_some_and(|q| {
                gran_of(q).is_some_and(|g| g >= v.gran.unwrap_or(-1000))
            })
    })
}

fn make_case(inst: &Inst, property: &str, ctx: &Ctx, w: &HashMap<u32, Q>) -> Case {
    let mut vals = HashMap::default();
    for (i, v) in ctx.vars.iter().enumerate() {
        if matches!(v.def, Def::Input) {
            if let Some(q) = w.get(&(i as u32)) {
                vals.insert(v.name.clone(), q.clone());
            }
        }
    }
    Case {
        property: property.to_string(),
        harness: inst.h.name.to_string(),
        params: inst.params.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
        vals,
        choices: ctx.choices.clone(),
    }
}

pub enum NatRes {
    Ok(Vec<String>),
    Fail(Vec<String>, Vec<String>),
    Invalid(String),
}

fn nat_run<T: NatScal>(f: fn(&mut NatEnv<T>), case: &Case) -> NatRes {
    let mut e = NatEnv::<T>::new(case.clone());
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut e)));
    match r {
        Ok(()) => {
            if e.failed.is_empty() {
                NatRes::Ok(e.log)
            } else {
                NatRes::Fail(e.failed, e.log)
            }
        }
        Err(p) => match p.downcast::<NatAbort>() {
            Ok(a) => {
                if !e.failed.is_empty() {
                    return NatRes::Fail(e.failed, e.log);
                }
                let NatAbort::Invalid(s) = *a;
                NatRes::Invalid(s)
            }
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into());
                e.failed.push(format!("panic: {m}"));
                NatRes::Fail(e.failed, e.log)
            }
        },
    }
}
pub fn native_run(h: &Harness, scalar: &str, case: &Case) -> NatRes {
    match scalar {
        "f32" => nat_run(h.f32, case),
        _ => nat_run(h.f64, case),
    }
}
fn native_inproc(inst: &Inst, scalar: &str, case: &Case) -> NatRes {
    if inst.proc {
        static N: AtomicUsize = AtomicUsize::new(0);
        let k = N.fetch_add(1, Ordering::Relaxed);
        let path = format!("{}/native_{k}.case", work_dir());
        std::fs::write(&path, case.write()).expect("write case");
        let r = replay_proc(&path, scalar);
        let _ = std::fs::remove_file(&path);
        return match r {
            Some(d) => NatRes::Fail(vec![d], vec![]),
            None => NatRes::Ok(vec![]),
        };
    }
    if inst.fresh {
        return std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || native_run(&inst.h, scalar, case))
                .unwrap()
                .join()
                .unwrap_or(NatRes::Invalid("native thread".into()))
        });
    }
    native_run(&inst.h, scalar, case)
}

/// run the case in a separate process; Some(description) when the failure reproduces
fn replay_proc(path: &str, scalar: &str) -> Option<String> {
    let exe = std::env::current_exe().unwrap();
    let out = Command::new("sh")
        .arg("-c")
        .arg(format!(
            "ulimit -v 8000000; exec timeout -k 1 10 '{}' replay '{}' {}",
            exe.display(),
            path,
            scalar
        ))
        .output()
        .ok()?;
    let txt = String::from_utf8_lossy(&out.stdout).to_string();
    match out.status.code() {
        Some(10) => Some(format!(
            "{scalar}: {}",
            txt.lines().filter(|l| l.starts_with("FAIL")).collect::<Vec<_>>().join("; ")
        )),
        Some(0) | Some(11) | Some(2) => None,
        Some(124) | Some(137) => Some(format!("{scalar}: does not terminate (killed after 10 s)")),
        c => Some(format!("{scalar}: crashed ({c:?})")),
    }
}

fn confirm(inst: &Inst, property: &str, sh: &Shared, case: &Case, what: &str, local: &mut Report) -> bool {
    static N: AtomicUsize = AtomicUsize::new(0);
    let k = N.fetch_add(1, Ordering::Relaxed);
    let path = format!("{}/{}_{}_{}.case", work_dir(), property, inst.h.name, k);
    std::fs::write(&path, case.write()).expect("write case");
    for n in inst.nat {
        if let Some(d) = replay_proc(&path, n) {
            let mut t = case.write();
            t += &format!("# {what}\n# reproduced: {d}\n# replay: symx replay {path} {n}\n");
            std::fs::write(&path, t).ok();
            local.violations.push((format!("{what} [{d}]"), path));
            sh.stop.store(true, Ordering::Relaxed);
            return true;
        }
    }
    let _ = std::fs::remove_file(&path);
    false
}

fn handle_candidate(inst: &Inst, property: &str, sh: &Shared, ctx: &Ctx, what: &str, neg: &Cond, relaxed: bool, local: &mut Report) {
    if sh.stop.load(Ordering::Relaxed) {
        return;
    }
    let full = |sorts: Option<i32>| -> Option<(HashMap<u32, Q>, bool)> {
        let mut conds: Vec<Cond> = ctx.cons.iter().map(|c| c.0.clone()).chain(ctx.defs.values().flatten().cloned()).collect();
        conds.push(neg.clone());
        let all: BTreeSet<u32> = (0..ctx.vars.len() as u32).collect();
        let mut d = ctx.decls(&all);
        if let Some(g) = sorts {
            for x in d.iter_mut() {
                if matches!(ctx.vars[x.id as usize].def, Def::Input) && x.sort == Sort::Real {
                    x.sort = Sort::Grid(g);
                }
            }
        }
        match solver::check(&d, &conds, 10_000) {
            Res::Sat(m, c) => Some((m, c)),
            _ => None,
        }
    };
    let mut models: Vec<HashMap<u32, Q>> = vec![];
    if let Some(w) = &ctx.wit {
        models.push(w.clone());
    }
    if !relaxed {
        if let Some((m, _)) = full(None) {
            models.push(m);
        }
    }
    let try_model = |m: &HashMap<u32, Q>, local: &mut Report| -> bool {
        let c = make_case(inst, property, ctx, m);
        confirm(inst, property, sh, &c, what, local)
    };
    for m in &models {
        if try_model(m, local) {
            return;
        }
    }
    // rounded variants of the models
    for m in &models {
        for g in [0, -1, -2, -4, -8, -12, -20] {
            let r: HashMap<u32, Q> = m
                .iter()
                .map(|(k, q)| (*k, (q / q2(g)).round() * q2(g)))
                .collect();
            if try_model(&r, local) {
                return;
            }
        }
    }
    for g in [0, -1, -2, -3, -5, -8, -16] {
        if sh.stop.load(Ordering::Relaxed) {
            return;
        }
        if relaxed {
            break;
        }
        if let Some((m, _)) = full(Some(g)) {
            if try_model(&m, local) {
                return;
            }
        }
    }
    // neighbourhoods of the model: rounding decides some counterexamples
    let mut rng = 0x9E3779B97F4A7C15u64 ^ (std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1u64));
    let mut next = || {
        rng ^= rng << 13;
        rng ^= rng >> 7;
        rng ^= rng << 17;
        (rng >> 11) as f64 / (1u64 << 53) as f64
    };
    for m in models.iter().take(2) {
        for round in 0..200 {
            let scale = [1e-12, 1e-6, 1e-3, 0.05][round % 4];
            let r: HashMap<u32, Q> = m
                .iter()
                .map(|(k, q)| {
                    let v = &ctx.vars[*k as usize];
                    let mut x = q + q.abs().max(qr(1, 10)) * qf(scale * (2.0 * next() - 1.0));
                    if let Some(l) = &v.lo {
                        if &x < l {
                            x = l.clone();
                        }
                    }
                    if let Some(h) = &v.hi {
                        if &x > h {
                            x = h.clone();
                        }
                    }
                    (*k, x)
                })
                .collect();
            let c = make_case(inst, property, ctx, &r);
            for n in inst.nat {
                if let NatRes::Fail(..) = guarded_native(inst, n, &c, what) {
                    if confirm(inst, property, sh, &c, what, local) {
                        return;
                    }
                }
            }
        }
    }
    // abstracted functions (angles, rounding) leave the inputs of a model loose: look all over their ranges
    if inst.abstracted || ctx.opts.err.is_some() || ctx.trig.pi.is_some() || !ctx.trig.atoms.is_empty() {
        for round in 0..600 {
            // every other time with some inputs next to zero or exactly there
            let small: Vec<i32> = ctx.vars.iter().map(|_| if round % 2 == 0 { 0 } else { ((next() * 3.0) as i32 - 1) * (next() * 50.0) as i32 }).collect();
            let r: HashMap<u32, Q> = ctx
                .vars
                .iter()
                .enumerate()
                .filter_map(|(k, v)| match (&v.def, &v.lo, &v.hi) {
                    (Def::Input, Some(l), Some(h)) => {
                        let g = q2(v.gran.unwrap_or(-20).max(-40));
                        let x = l + (h - l) * qf(next());
                        let zero = l <= &qi(0) && &qi(0) <= h;
                        let x = match small[k] {
                            j if j > 0 && zero => x * q2(-j),
                            j if j < 0 && zero => qi(0),
                            _ => x,
                        };
                        Some((k as u32, (x / &g).round() * g))
                    }
                    _ => None,
                })
                .collect();
            let c = make_case(inst, property, ctx, &r);
            for n in inst.nat {
                if let NatRes::Fail(..) = guarded_native(inst, n, &c, what) {
                    if confirm(inst, property, sh, &c, what, local) {
                        return;
                    }
                }
            }
        }
    }
    if relaxed {
        return;
    }
    if std::env::var("SYMX_DEBUG").is_ok() {
        eprintln!("candidate {what}: neg {neg:?}\n wit {:?}", ctx.wit.is_some());
        for c in ctx.cons.iter().map(|c| c.0.clone()).chain(ctx.defs.values().flatten().cloned()) {
            eprintln!("   {c:?}  -> {:?}", models.first().and_then(|m| c.eval(m)));
        }
    }
    let mut d = format!("{what}: ");
    if let Some(m) = models.first() {
        d += &make_case(inst, property, ctx, m).write().replace('\n', "; ");
    }
    if inst.soft {
        local.notes.insert(format!("under the rounding model only, not reproduced natively: {what}"));
    } else {
        local.unconfirmed.push(d);
    }
    if sh.unconf.fetch_add(1, Ordering::Relaxed) > 30 {
        sh.stop.store(true, Ordering::Relaxed);
    }
}
fn guarded_native(inst: &Inst, n: &str, c: &Case, what: &str) -> NatRes {
    if what.contains("terminate") && !inst.proc {
        return NatRes::Invalid("skipped".into());
    }
    native_inproc(inst, n, c)
}
