//! symx check PROP TIER | symx replay FILE | symx dev PROP [filter] | symx list PROP
mod ctx;
mod engine;
mod mem;
mod poly;
mod props;
mod rat;
mod solver;
mod sym;

use ctx::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

fn root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT").map(Into::into).unwrap_or_else(|_| std::env::current_dir().unwrap())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("SYMX_PANICS").is_ok() {
            eprintln!("{}", i);
        }
    }));
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args[2], &args[3]),
        Some("replay") => replay(&args[2]),
        Some("dev") => dev(&args[2], args.get(3).map(|s| s.as_str()).unwrap_or("")),
        Some("list") => {
            for j in props::jobs(&args[2], true).unwrap() {
                println!("{}", j.name);
            }
            0
        }
        _ => {
            eprintln!("usage: symx check PROP quick|thorough | replay FILE | dev PROP [filter]");
            2
        }
    };
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

fn spawn_explore(j: Job) -> Report {
    let name = j.name.clone();
    match std::thread::Builder::new().stack_size(512 << 20).spawn(move || explore(&j)).unwrap().join() {
        Ok(r) => r,
        Err(p) => {
            let mut r = Report::default();
            r.cuts.push(format!("{}: internal error: {}", name, panic_text(&p)));
            r.internal = true;
            r
        }
    }
}

fn dev(prop: &str, filt: &str) -> i32 {
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let mut jobs: Vec<Job> = props::jobs(prop, thorough).unwrap().into_iter().filter(|j| j.name.contains(filt)).collect();
    let n = std::env::var("SYMX_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize);
    jobs.reverse();
    let q = Arc::new(Mutex::new(jobs));
    let hs: Vec<_> = (0..n)
        .map(|_| {
            let q = q.clone();
            std::thread::spawn(move || loop {
                let j = match q.lock().unwrap().pop() {
                    Some(j) => j,
                    None => return,
                };
                let t = Instant::now();
                let n = j.name.clone();
                let r = spawn_explore(j);
                let s = &r.stats;
                let mut o = String::new();
                let _ = write!(
                    o,
                    "{:<34} {:6.2}s paths {} (inf {} exc {} cut {} valid {}) claims {} = nf {} z3 {} part {} und {} sat {} | q {} unk {} solver {:.1}s terms {} ex {}",
                    n, t.elapsed().as_secs_f64(), s.paths, s.infeasible, s.exceptional, s.cut, s.validated, s.claims, s.claims_nf, s.claims_z3,
                    s.claims_part, s.claims_undecided, s.claims_sat, r.solver.queries, r.solver.unknown, r.solver.secs, s.maxterms, r.exhaustive
                );
                for v in r.violations.iter().take(3) {
                    let _ = write!(o, "\n  VIOL {:?}", v);
                }
                for v in r.unconfirmed.iter().take(3) {
                    let _ = write!(o, "\n  UNCONFIRMED {:?}", v);
                }
                for v in r.cuts.iter().take(4) {
                    let _ = write!(o, "\n  cut {}", v);
                }
                let mut u: Vec<_> = r.undecided.clone();
                u.sort();
                u.dedup();
                for v in u.iter().take(6) {
                    let _ = write!(o, "\n  undecided {}", v);
                }
                println!("{}", o);
                if !r.violations.is_empty() && std::env::var("SYMX_FIRST").is_ok() {
                    std::process::exit(1);
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    0
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jarr(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "))
}

fn known_findings(prop: &str) -> Vec<(String, String, String)> {
    // known: property=<id> job=<job name prefix> claim=<claim prefix> | text
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(root().join("known_findings.txt")) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let (head, text) = r.split_once(" | ").unwrap_or((r, ""));
                let mut m = BTreeMap::new();
                for kv in head.split_whitespace() {
                    if let Some((k, x)) = kv.split_once('=') {
                        m.insert(k.to_string(), x.to_string());
                    }
                }
                if m.get("property").map(|x| x == prop).unwrap_or(false) {
                    v.push((m.get("job").cloned().unwrap_or_default(), m.get("claim").cloned().unwrap_or_default(), text.to_string()));
                }
            }
        }
    }
    v
}

fn check(prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let jobs = match props::jobs(prop, thorough) {
        Some(j) => j,
        None => {
            eprintln!("unknown property {}", prop);
            return 2;
        }
    };
    let info = props::info(prop);
    let total_jobs = jobs.len();
    let known = known_findings(prop);
    let limit = Duration::from_secs(if thorough { 3600 } else { 660 });
    let mut order: Vec<Job> = jobs;
    // longest budgets first
    order.sort_by_key(|j| (j.secs, j.max_paths));
    let q = Arc::new(Mutex::new(order));
    let out = Arc::new(Mutex::new(Vec::<(String, String, Report, f64)>::new()));
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 8);
    let skipped = Arc::new(Mutex::new(Vec::<String>::new()));
    let hs: Vec<_> = (0..nthreads)
        .map(|_| {
            let (q, out, skipped, known) = (q.clone(), out.clone(), skipped.clone(), known.clone());
            std::thread::spawn(move || loop {
                let mut j = match q.lock().unwrap().pop() {
                    Some(j) => j,
                    None => return,
                };
                let left = limit.saturating_sub(t0.elapsed()).as_secs();
                if left < 2 || engine::STOP.load(Ordering::Relaxed) {
                    skipped.lock().unwrap().push(j.name.clone());
                    continue;
                }
                j.secs = j.secs.min(left);
                let (n, d) = (j.name.clone(), j.desc.clone());
                let t = Instant::now();
                let r = spawn_explore(j);
                if r.violations.iter().any(|v| !known.iter().any(|k| v.job.starts_with(&k.0) && v.claim.starts_with(&k.1))) {
                    engine::STOP.store(true, Ordering::Relaxed);
                }
                out.lock().unwrap().push((n, d, r, t.elapsed().as_secs_f64()));
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let mut reps = std::mem::take(&mut *out.lock().unwrap());
    reps.sort_by(|a, b| a.0.cmp(&b.0));
    let skipped = std::mem::take(&mut *skipped.lock().unwrap());

    let mut st = engine::Stats::default();
    let mut so = solver::SolverStats::default();
    let (mut viol, mut unconf, mut undecided, mut cuts, mut samples) = (vec![], vec![], vec![], vec![], vec![]);
    let mut exhaustive = skipped.is_empty();
    let mut max_err = 0.0f64;
    let mut vacuous = vec![];
    let mut internal = false;
    let mut witness = 0;
    let mut jobtxt = vec![];
    for (n, d, r, secs) in &reps {
        st.add(&r.stats);
        so.queries += r.solver.queries;
        so.sat += r.solver.sat;
        so.unsat += r.solver.unsat;
        so.unknown += r.solver.unknown;
        so.secs += r.solver.secs;
        viol.extend(r.violations.iter().cloned());
        unconf.extend(r.unconfirmed.iter().cloned());
        undecided.extend(r.undecided.iter().cloned());
        cuts.extend(r.cuts.iter().cloned());
        if let Some(s) = r.samples.first() {
            samples.push(s.clone());
        }
        exhaustive &= r.exhaustive;
        max_err = max_err.max(r.max_err);
        internal |= r.internal;
        witness += r.witness;
        if r.stats.claims == 0 && r.violations.is_empty() && !engine::STOP.load(Ordering::Relaxed) {
            vacuous.push(n.clone());
        }
        jobtxt.push(format!(
            "{} [{}]: {} paths, {} claims, {} queries, {:.1}s{}",
            n,
            d,
            r.stats.paths,
            r.stats.claims,
            r.solver.queries,
            secs,
            if r.exhaustive { "" } else { ", paths beyond the bound not explored" }
        ));
    }
    undecided.sort();
    undecided.dedup();
    cuts.sort();
    cuts.dedup();
    // split known and new
    let mut fresh = vec![];
    let mut hit = vec![false; known.len()];
    for v in viol {
        match known.iter().position(|k| v.job.starts_with(&k.0) && v.claim.starts_with(&k.1)) {
            Some(i) => hit[i] = true,
            None => fresh.push(v),
        }
    }
    for (i, k) in known.iter().enumerate() {
        // a listed finding is reported whether or not this run stumbled on it
        println!("KNOWN-FINDING: property={} {}{}", prop, k.2, if hit[i] { "" } else { " (not met in this run)" });
    }
    let mut lines = vec![];
    if !fresh.is_empty() {
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let user = build_user();
        for (i, v) in fresh.iter().take(5).enumerate() {
            let p = dir.join(format!("{}-{}-{}.replay", prop, tier, i));
            let mut t = format!("property {}\ntier {}\njob {}\nclaim {}\ndetail {}\n", prop, tier, v.job, v.claim, v.detail.replace('\n', " "));
            for (n, x) in &v.inputs {
                let _ = writeln!(t, "input {} {:016x} {:e}", n, x.to_bits(), x);
            }
            let _ = std::fs::write(&p, &t);
            let note = match &user {
                Some(u) => {
                    let r = std::process::Command::new(u).args(["replay", p.to_str().unwrap()]).output();
                    match r {
                        Ok(o) if o.status.code() == Some(1) => "reproduced with and without debug assertions",
                        Ok(_) => "reproduced with debug assertions only",
                        Err(_) => "optimised profile not run",
                    }
                }
                None => "optimised profile not built",
            };
            let _ = std::fs::write(&p, format!("{}note {}\n", t, note));
            println!("  {} / {}: {} ({}) inputs {:?}", v.job, v.claim, v.detail, note, v.inputs);
            lines.push(format!("VIOLATION property={} replay={}", prop, p.display()));
        }
    }
    for u in unconf.iter().take(5) {
        println!("  solver counterexample that the compiled code does not reproduce: {} / {}: {} inputs {:?}", u.job, u.claim, u.detail, u.inputs);
    }
    for u in &unconf {
        undecided.push(format!("{}: {}: solver model not reproduced by the compiled code ({})", u.job, u.claim, u.detail));
    }
    for v in &vacuous {
        undecided.push(format!("{}: no claim reached", v));
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"samples\": {},\n  \"exhaustive\": {},\n  \"jobs\": {}, \"jobs_run\": {}, \"jobs_skipped\": {},\n  \"paths\": {}, \"paths_infeasible\": {}, \"paths_outside_real_encoding\": {}, \"paths_cut\": {},\n  \"branch_forks\": {}, \"branch_feasibility_unknown\": {}, \"path_models_run_natively\": {},\n  \"claims\": {}, \"claims_closed_by_normal_form\": {}, \"normal_form_claims_rechecked_by_solver\": {}, \"claims_unsat_by_solver\": {}, \"claims_unsat_with_inputs_partly_fixed\": {}, \"claims_undecided\": {}, \"claims_refuted\": {},\n  \"solver_queries\": {}, \"solver_sat\": {}, \"solver_unsat\": {}, \"solver_unknown\": {}, \"solver_s\": {:.2}, \"solver\": \"z3 5.3.2 (z3-new), QF_NRA\",\n  \"largest_normal_form_terms\": {}, \"largest_term_graph\": {}, \"largest_relative_gap_encoding_vs_f64\": {:e},\n  \"functions_encoded\": {},\n  \"bounds\": {},\n  \"undecided\": {},\n  \"cuts\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        esc(prop), esc(tier), seed,
        st.states + st.paths, st.decisions, st.validated,
        jarr(&samples.iter().take(12).cloned().collect::<Vec<_>>()),
        exhaustive, total_jobs, reps.len(), skipped.len(),
        st.paths, st.infeasible, st.exceptional, st.cut, st.forks, st.feas_unknown, witness,
        st.claims, st.claims_nf, st.nf_rechecked, st.claims_z3, st.claims_part, st.claims_undecided, st.claims_sat,
        so.queries, so.sat, so.unsat, so.unknown, so.secs, st.maxterms, st.nodes, max_err,
        jarr(&info.functions), jarr(&jobtxt), jarr(&undecided.iter().take(60).cloned().collect::<Vec<_>>()),
        jarr(&cuts.iter().take(60).cloned().collect::<Vec<_>>()), jarr(&info.assumptions), wall, fresh.len()
    );
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", prop)), ev).expect("evidence");
    println!(
        "{} {}: {} jobs, {} paths, {} claims ({} normal form, {} solver, {} partly fixed, {} undecided), {} queries, {:.1}s solver, {:.1}s wall",
        prop, tier, reps.len(), st.paths, st.claims, st.claims_nf, st.claims_z3, st.claims_part, st.claims_undecided, so.queries, so.secs, wall
    );
    for l in &lines {
        println!("{}", l);
    }
    if !lines.is_empty() {
        return 1;
    }
    if !vacuous.is_empty() {
        println!("vacuous jobs (no claim reached): {:?}", vacuous);
        if vacuous.len() * 2 > reps.len() {
            return 3;
        }
    }
    if internal {
        println!("internal errors (jobs without an answer): {:?}", cuts);
        if reps.iter().filter(|r| r.2.internal).count() * 2 > reps.len() {
            return 3;
        }
    }
    // a model the compiled code does not reproduce is no alarm: it is listed with the undecided claims
    0
}

/// The profile users run, built only when a violation has to be replayed in it.
fn build_user() -> Option<std::path::PathBuf> {
    let dir = root().join("symx");
    let ok = std::process::Command::new("cargo")
        .args(["build", "--profile", "user", "--offline", "--quiet"])
        .current_dir(&dir)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .map(|s| s.success())
        .unwrap_or(false);
    let target = std::env::var("CARGO_TARGET_DIR").map(std::path::PathBuf::from).unwrap_or_else(|_| dir.join("target"));
    let p = target.join("user").join("symx");
    if ok && p.exists() {
        Some(p)
    } else {
        None
    }
}

fn replay(file: &str) -> i32 {
    let t = std::fs::read_to_string(file).expect("replay file");
    let (mut prop, mut job, mut tier, mut vals) = (String::new(), String::new(), String::new(), vec![]);
    for l in t.lines() {
        if let Some(x) = l.strip_prefix("property ") {
            prop = x.into()
        } else if let Some(x) = l.strip_prefix("job ") {
            job = x.into()
        } else if let Some(x) = l.strip_prefix("tier ") {
            tier = x.into()
        } else if let Some(x) = l.strip_prefix("input ") {
            let w: Vec<&str> = x.rsplitn(3, ' ').collect();
            vals.push(f64::from_bits(u64::from_str_radix(w[1], 16).unwrap()));
        }
    }
    let j = match props::jobs(&prop, tier == "thorough").unwrap().into_iter().find(|j| j.name == job) {
        Some(j) => j,
        None => {
            println!("no such job {}", job);
            return 2;
        }
    };
    println!("replaying {} / {} with {:?}", prop, job, vals);
    match run_native(&j, vals, 10) {
        Native::Done(f, _) if f.is_empty() => {
            println!("no claim fails");
            0
        }
        Native::Done(f, _) => {
            for x in f {
                println!("FAILS {}: {}", x.claim, x.detail);
            }
            1
        }
        Native::Panic(p) => {
            println!("PANIC {}", p);
            1
        }
        Native::Hang => {
            println!("does not return within 10 s");
            1
        }
        Native::Skipped => {
            println!("inputs outside the assumptions");
            0
        }
    }
}
