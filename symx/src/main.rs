#![allow(dead_code)]
mod ck;
mod ctx;
mod env;
mod explore;
mod harness;
mod nf;
mod poly;
mod solver;
mod sym;
mod trig;

use env::Case;
use explore::NatRes;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push(' '),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn list(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(", "))
}

fn main() {
    harness::align::install();
    if std::env::var("SYMX_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let case = Case::read(&std::fs::read_to_string(&a[2]).expect("case file"));
            let h = match harness::find(&case.harness) {
                Some(h) => h,
                None => {
                    println!("no harness {}", case.harness);
                    std::process::exit(2)
                }
            };
            let sc = a.get(3).map(|s| s.as_str()).unwrap_or("f64");
            // a large stack: the code under test may recurse
            let r = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn({
                    let sc = sc.to_string();
                    move || explore::native_run(&h, &sc, &case)
                })
                .unwrap()
                .join();
            match r {
                Ok(NatRes::Ok(l)) => {
                    println!("{}", l.join("\n"));
                    println!("OK: the property holds for this input ({sc})");
                }
                Ok(NatRes::Fail(f, l)) => {
                    println!("{}", l.join("\n"));
                    for x in f {
                        println!("FAIL {}", x.replace('\n', " "));
                    }
                    std::process::exit(10);
                }
                Ok(NatRes::Invalid(s)) => {
                    println!("INVALID {s}");
                    std::process::exit(11);
                }
                Err(_) => std::process::exit(2),
            }
        }
        Some("check") => {
            let id = a[2].clone();
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let only = std::env::var("SYMX_ONLY").ok();
            let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            let total: u64 = std::env::var("SYMX_SECS")
                .ok()
                .and_then(|x| x.parse().ok())
                .unwrap_or(if tier == "quick" { 420 } else { 3000 });
            let t0 = Instant::now();
            let deadline = t0 + Duration::from_secs(total);
            let insts = harness::plan(&id, &tier);
            if insts.is_empty() {
                println!("no harness for {id}");
                std::process::exit(2);
            }
            let mut reps = vec![];
            for i in insts {
                if only.as_ref().is_some_and(|o| !i.label().contains(o.as_str())) {
                    continue;
                }
                let r = explore::run(&i, &id, deadline);
                eprintln!(
                    "{}: {:.1}s paths {} (infeasible {}) decisions {} depth {} asserts {} (trivial {}, unsat {}, unknown {}) queries {} solver {:.1}s validated {}/{} exact ops {} inexact {} {}{}",
                    r.label, r.secs, r.paths, r.infeasible, r.decisions, r.max_depth, r.asserts, r.asserts_trivial,
                    r.asserts_unsat, r.asserts_unknown, r.queries, r.solver_s, r.validated, r.validated_runs, r.exact_ops, r.inexact_ops,
                    if r.incomplete { "INCOMPLETE " } else { "" },
                    if r.unknown_forks > 0 { format!("unknown forks {} ", r.unknown_forks) } else { String::new() }
                );
                for (k, v) in &r.unsupported {
                    eprintln!("  unsupported: {k} ({v} paths)");
                }
                for x in &r.engine_errors {
                    eprintln!("  {x}");
                }
                for x in r.unconfirmed.iter().take(5) {
                    eprintln!("  unconfirmed: {x}");
                }
                for x in &r.notes {
                    eprintln!("  note: {x}");
                }
                if !r.missing_covers.is_empty() {
                    eprintln!("  not covered: {:?}", r.missing_covers);
                }
                if std::env::var("SYMX_COVERS").is_ok() {
                    eprintln!("  covers {:?}\n  names {:?}", r.covers, r.names);
                }
                let stop = !r.violations.is_empty();
                reps.push(r);
                if stop {
                    break;
                }
            }
            finish(&id, &tier, seed, t0, reps);
        }
        _ => {
            eprintln!("usage: symx check <ID> | symx replay <case> [f32|f64]");
            std::process::exit(2);
        }
    }
}

fn finish(id: &str, tier: &str, seed: i64, t0: Instant, reps: Vec<explore::Report>) {
    use std::sync::atomic::Ordering::Relaxed;
    let sum = |f: fn(&explore::Report) -> u64| -> u64 { reps.iter().map(f).sum() };
    let mut funcs: Vec<String> = reps.iter().flat_map(|r| r.funcs.iter().map(|s| s.to_string())).collect();
    funcs.sort();
    funcs.dedup();
    let harnesses = list(reps.iter().map(|r| {
        format!(
            "{{\"harness\": {}, \"bounds\": {}, \"paths\": {}, \"infeasible_paths\": {}, \"max_decisions_on_a_path\": {}, \"assertions\": {}, \"closed_by_simplification\": {}, \"closed_by_solver_unsat\": {}, \"undecided\": {}, \"candidates_not_reproduced\": {}, \"undecided_branches\": {}, \"queries\": {}, \"solver_s\": {:.2}, \"wall_s\": {:.2}, \"explored_completely\": {}, \"float_ops_certified_exact\": {}, \"float_ops_taken_as_real_or_with_error_term\": {}, \"reached\": {}, \"assertion_names\": {}, \"notes\": {}}}",
            esc(&r.label), esc(&r.bounds), r.paths, r.infeasible, r.max_depth, r.asserts, r.asserts_trivial, r.asserts_unsat,
            r.asserts_unknown, r.unconfirmed.len(), r.unknown_forks, r.queries, r.solver_s, r.secs, !r.incomplete && r.unsupported.is_empty(), r.exact_ops, r.inexact_ops,
            format!("{{{}}}", r.covers.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ")),
            format!("{{{}}}", r.names.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ")),
            list(r.notes.iter().map(|s| esc(s)).chain(r.unsupported.iter().map(|(k, v)| esc(&format!("unsupported on {v} paths: {k}"))))),
        )
    }));
    let viol: Vec<(String, String)> = reps.iter().flat_map(|r| r.violations.iter().cloned()).collect();
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n  \"functions_encoded\": {},\n  \"assertions_checked\": {}, \"assertions_undecided\": {}, \"queries\": {}, \"queries_sat\": {}, \"queries_unsat\": {}, \"queries_unknown\": {}, \"query_cache_hits\": {}, \"solver_s\": {:.2}, \"longest_query_s\": {:.2},\n  \"explanation\": \"states = feasible symbolic paths of the real code, transitions = branch decisions on symbolic conditions, traces = path witnesses re-run natively at f32/f64\",\n  \"samples\": {},\n  \"harnesses\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        esc(id), esc(tier), seed,
        sum(|r| r.paths as u64), sum(|r| r.decisions), sum(|r| r.validated as u64),
        list(funcs.iter().map(|s| esc(s))),
        sum(|r| r.asserts as u64), sum(|r| r.asserts_unknown as u64),
        solver::QUERIES.load(Relaxed), solver::SAT.load(Relaxed), solver::UNSAT.load(Relaxed), solver::UNKNOWN.load(Relaxed), solver::CACHE_HITS.load(Relaxed),
        solver::SOLVER_US.load(Relaxed) as f64 / 1e6, solver::MAX_US.load(Relaxed) as f64 / 1e6,
        list(reps.iter().flat_map(|r| r.samples.iter().take(2).map(|s| esc(s)))),
        harnesses,
        list(harness::assumptions(id).iter().map(|s| esc(s))),
        t0.elapsed().as_secs_f64(),
        viol.len()
    );
    if let Some(o) = std::env::var("SYMX_NESTED").ok().and_then(|p| std::fs::read_to_string(p).ok()) {
        // the evidence of the run against the no_std build
        let at = s.find("\n  \"harnesses\"").unwrap();
        s.insert_str(at, &format!("\n  \"no_std_build\": {},", o.trim()));
    }
    let ev = std::env::var("SYMX_EVIDENCE").unwrap_or_else(|_| format!("/verif/evidence/{id}.json"));
    if let Some(p) = std::path::Path::new(&ev).parent() {
        let _ = std::fs::create_dir_all(p);
    }
    std::fs::write(&ev, s).expect("write evidence");
    if let Some((w, p)) = viol.first() {
        println!("{id}: {w}");
        println!("VIOLATION property={id} replay={p}");
        std::process::exit(1);
    }
    let mut err = false;
    // development runs treat every loose end as an error
    let strict = std::env::var("SYMX_STRICT").is_ok();
    let loose = if strict { "error" } else { "note" };
    for r in &reps {
        for u in r.unconfirmed.iter().take(3) {
            println!("{loose}: undecided, a candidate of {} did not reproduce natively: {u}", r.label);
            err |= strict;
        }
        for u in &r.engine_errors {
            println!("error: {u}");
            err = true;
        }
        if !r.missing_covers.is_empty() && !r.incomplete {
            println!("{loose}: {} never reached {:?}", r.label, r.missing_covers);
            err |= strict;
        }
        if r.paths == 0 {
            println!("{loose}: {} explored no path", r.label);
            err |= strict && !r.incomplete;
        }
        for (k, v) in &r.unsupported {
            println!("{loose}: {}: {v} paths need {k}", r.label);
            err |= strict;
        }
        if r.incomplete || r.asserts_unknown > 0 {
            println!("note: {} explored {} paths, incomplete: {}, undecided assertions: {}", r.label, r.paths, r.incomplete, r.asserts_unknown);
        }
    }
    println!(
        "{id}: {} paths, {} assertions, {} queries, {:.1} s",
        sum(|r| r.paths as u64), sum(|r| r.asserts as u64), solver::QUERIES.load(Relaxed), t0.elapsed().as_secs_f64()
    );
    if sum(|r| r.paths as u64) == 0 {
        println!("error: nothing was explored");
        err = true;
    }
    std::process::exit(if err { 2 } else { 0 });
}
