#![allow(dead_code)]
mod exec;
mod expr;
mod icp;
mod ir;
mod mem;
mod solver;

use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<T: AsRef<str>>(v: impl IntoIterator<Item = T>) -> String {
    format!("[{}]", v.into_iter().map(|s| js(s.as_ref())).collect::<Vec<_>>().join(","))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let ll = get("--ir").expect("--ir");
    let native = get("--native").expect("--native");
    let harnesses: Vec<String> = get("--harness").expect("--harness").split(',').map(|s| s.to_string()).collect();
    let tier: u64 = get("--tier").map(|s| (s == "thorough") as u64).unwrap_or(0);
    let secs: u64 = get("--seconds").map(|s| s.parse().unwrap()).unwrap_or(300);
    let threads: usize = get("--threads").map(|s| s.parse().unwrap()).unwrap_or(8);
    let seed: u64 = get("--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let scratch = std::path::PathBuf::from(get("--scratch").unwrap_or_else(|| "/tmp".into()));
    let out = get("--out");
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("read IR");
    let m = match ir::Parser::parse(&text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("cannot parse the IR: {e}");
            std::process::exit(2);
        }
    };
    drop(text);
    let parse_s = t0.elapsed().as_secs_f64();
    let base = exec::base_objs(&m);
    let natives = exec::native_table(&m);
    solver::set_limit(Duration::from_secs(secs).saturating_sub(t0.elapsed()));
    struct Queue { jobs: Vec<(usize, Vec<u64>)>, active: usize }
    let mut jobs = vec![];
    for (i, h) in harnesses.iter().enumerate().rev() {
        if !m.func_ids.contains_key(h) {
            eprintln!("no harness {h} in the IR");
            std::process::exit(2);
        }
        jobs.push((i, vec![]));
    }
    // development: only tasks that start with these cases
    let only: Vec<u64> = std::env::var("IRSYM_ONLY").map(|s| s.split(',').map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let q = Mutex::new(Queue { jobs, active: 0 });
    let cv = Condvar::new();
    let reports: Mutex<Vec<(usize, Vec<u64>, f64, exec::Report)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, || loop {
                let job = {
                    let mut g = q.lock().unwrap();
                    loop {
                        if let Some(j) = g.jobs.pop() { g.active += 1; break Some(j); }
                        if g.active == 0 { break None; }
                        g = cv.wait(g).unwrap();
                    }
                };
                let Some((hi, cases)) = job else { cv.notify_all(); return };
                let cfg = exec::Cfg {
                    tier,
                    branch_ms: if tier == 1 { 3000 } else { 1000 },
                    check_ms: if tier == 1 { 10000 } else { 4000 },
                    portfolio_ms: if tier == 1 { 120000 } else { 30000 },
                    max_ins_path: 60_000_000,
                    native: native.clone(),
                    harness: harnesses[hi].clone(),
                    scratch: scratch.clone(),
                    validate: if tier == 1 { 24 } else { 8 },
                    seed,
                    log: std::env::var("IRSYM_LOG").is_ok(),
                };
                let t1 = Instant::now();
                if solver::over() {
                    let mut g = q.lock().unwrap();
                    g.active -= 1;
                    cv.notify_all();
                    drop(g);
                    let mut r = exec::Report::default();
                    r.inconclusive.push("time limit before this case".into());
                    reports.lock().unwrap().push((hi, cases, 0.0, r));
                    continue;
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut t = exec::Task::new(&m, &base, &natives, cfg, cases.clone());
                    t.run(m.func_ids[&harnesses[hi]]);
                    std::mem::take(&mut t.rep)
                }));
                let rep = match r {
                    Ok(r) => r,
                    Err(e) => {
                        let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        let mut r = exec::Report::default();
                        r.inconclusive.push(format!("engine failure: {s}"));
                        r
                    }
                };
                if rep.violations.iter().any(|v| v.reproduced) { solver::found(); }
                let mut g = q.lock().unwrap();
                g.active -= 1;
                if let Some((_, n)) = rep.new_cases {
                    for k in (0..n).rev() {
                        let mut c = cases.clone();
                        c.push(k);
                        if only.len() >= c.len() && only[c.len() - 1] != k { continue; }
                        g.jobs.push((hi, c));
                    }
                }
                cv.notify_all();
                drop(g);
                if std::env::var("IRSYM_LIVE").is_ok() && rep.new_cases.is_none() { eprintln!("{} {cases:?} {:.2}s paths {} queries {} unknown {}", harnesses[hi], t1.elapsed().as_secs_f64(), rep.paths, rep.stats.queries, rep.stats.unknown); }
                reports.lock().unwrap().push((hi, cases, t1.elapsed().as_secs_f64(), rep));
            }).unwrap();
        }
    });
    let reports = reports.into_inner().unwrap();
    // aggregate per harness
    let mut js_h = vec![];
    let mut bad = false;
    for (hi, h) in harnesses.iter().enumerate() {
        let rs: Vec<_> = reports.iter().filter(|r| r.0 == hi).collect();
        let mut tot = exec::Report::default();
        let mut funcs: BTreeSet<String> = BTreeSet::new();
        let mut tasks = 0;
        let mut cpu = 0.0;
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        for (_, cases, t, r) in rs.iter() {
            cpu += t;
            if r.new_cases.is_some() { continue; }
            tasks += 1;
            if std::env::var("IRSYM_VERBOSE").is_ok() { eprintln!("{h} {cases:?} {t:.2}s paths {} ins {} queries {} solver {:.2}s unknown {}", r.paths, r.ins, r.stats.queries, r.stats.time, r.stats.unknown); }
            tot.paths += r.paths; tot.paths_dead += r.paths_dead; tot.paths_panic_ok += r.paths_panic_ok; tot.forks += r.forks; tot.ins += r.ins;
            tot.checks += r.checks; tot.checks_solver += r.checks_solver; tot.validated += r.validated; tot.validated_traces += r.validated_traces;
            tot.stats.queries += r.stats.queries; tot.stats.sat += r.stats.sat; tot.stats.unsat += r.stats.unsat; tot.stats.unknown += r.stats.unknown; tot.stats.time += r.stats.time; tot.stats.portfolio += r.stats.portfolio; tot.stats.pruned += r.stats.pruned;
            tot.rounded += r.rounded; tot.unrounded += r.unrounded; tot.exact |= r.exact;
            tot.violations.extend(r.violations.iter().cloned());
            tot.inconclusive.extend(r.inconclusive.iter().map(|s| format!("cases {cases:?}: {s}")));
            tot.reached.extend(r.reached.iter().cloned());
            if tot.bounds.len() < 40 { tot.bounds.extend(r.bounds.iter().cloned()); }
            tot.stubs.extend(r.stubs.iter().cloned());
            if tot.samples.len() < 3 { tot.samples.extend(r.samples.iter().take(1).cloned()); }
            for (l, n) in &r.check_labels { *labels.entry(l.clone()).or_insert(0) += n; }
            for f in &r.funcs { let n = exec::demangle(&m.funcs[*f as usize].name); if n.starts_with("surfrs") || n.contains("surfrs::") { funcs.insert(n); } }
        }
        if tot.paths == 0 && tot.violations.is_empty() { tot.inconclusive.push("no path reached the end: vacuous".into()); }
        if !tot.inconclusive.is_empty() || !tot.violations.is_empty() { bad = true; }
        println!("{h}: {} tasks, {} paths ({} infeasible), {} checks ({} by solver), {} queries ({} unknown), {:.1}s cpu, {:.1}s solver, {} replayed, {} violations, {} inconclusive", tasks, tot.paths, tot.paths_dead, tot.checks, tot.checks_solver, tot.stats.queries, tot.stats.unknown, cpu, tot.stats.time, tot.validated, tot.violations.len(), tot.inconclusive.len());
        for v in &tot.violations { println!("  {} {:?} cases {:?} inputs {:?} native {:?}", if v.reproduced { "VIOLATED" } else { "not reproduced:" }, v.label, v.cases, v.inputs, v.native); }
        for v in tot.inconclusive.iter().take(12) { println!("  inconclusive: {v}"); }
        let viol: Vec<String> = tot.violations.iter().map(|v| format!("{{\"label\":{},\"reproduced\":{},\"cases\":[{}],\"raw\":{},\"inputs\":{{{}}},\"native\":{}}}", js(&v.label), v.reproduced, v.cases.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","), arr(&v.raw), v.inputs.iter().map(|(k, x)| format!("{}:{}", js(k), js(x))).collect::<Vec<_>>().join(","), js(&v.native))).collect();
        js_h.push(format!("{{\"harness\":{},\"tasks\":{},\"paths\":{},\"infeasible\":{},\"panic_ok\":{},\"forks\":{},\"instructions\":{},\"checks\":{},\"checks_by_solver\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"portfolio\":{},\"pruned\":{},\"solver_s\":{:.3},\"cpu_s\":{:.3},\"validated\":{},\"validated_trace_values\":{},\"rounded_ops\":{},\"unrounded_ops\":{},\"exact_mode\":{},\"functions\":{},\"reached\":{},\"bounds\":{},\"stubs\":{},\"samples\":{},\"labels\":{{{}}},\"inconclusive\":{},\"violations\":[{}]}}",
            js(h), tasks, tot.paths, tot.paths_dead, tot.paths_panic_ok, tot.forks, tot.ins, tot.checks, tot.checks_solver, tot.stats.queries, tot.stats.sat, tot.stats.unsat, tot.stats.unknown, tot.stats.portfolio, tot.stats.pruned, tot.stats.time, cpu, tot.validated, tot.validated_traces, tot.rounded, tot.unrounded, tot.exact, arr(&funcs), arr(&tot.reached), arr(&tot.bounds), arr(&tot.stubs), arr(&tot.samples), labels.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","), arr(&tot.inconclusive), viol.join(",")));
    }
    if let Some(o) = out {
        let _ = std::fs::write(o, format!("{{\"parse_s\":{:.3},\"wall_s\":{:.3},\"harnesses\":[\n{}\n]}}\n", parse_s, t0.elapsed().as_secs_f64(), js_h.join(",\n")));
    }
    let _ = Arc::new(0);
    std::process::exit(if bad { 1 } else { 0 });
}
