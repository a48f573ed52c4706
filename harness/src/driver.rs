//! Runs a property over generated cases, minimises failures, writes replay files and evidence.
use crate::case::{Case, shrink};
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Debug, Clone)]
pub enum Stop {
    /// the case does not fall under the property (counted, by reason)
    Skip(&'static str),
    /// the property is violated: (name of the failed clause, details)
    Fail(&'static str, String),
}
pub type R = Result<(), Stop>;

pub fn skip<T>(why: &'static str) -> Result<T, Stop> {
    Err(Stop::Skip(why))
}
pub fn fail<T>(what: &'static str, msg: String) -> Result<T, Stop> {
    Err(Stop::Fail(what, msg))
}

/// Per-case bookkeeping.
#[derive(Default)]
pub struct Cx {
    pub labels: Vec<String>,
    pub nontrivial: bool,
    /// comparisons made
    pub checks: u64,
    /// largest |error|/tolerance per clause
    pub ratios: BTreeMap<&'static str, f64>,
}
/// Share of each tolerance that may be used up. Less than one only for tuning (GLMCHECK_LIMIT).
fn limit() -> f64 {
    static L: std::sync::OnceLock<f64> = std::sync::OnceLock::new();
    *L.get_or_init(|| std::env::var("GLMCHECK_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(1.))
}

impl Cx {
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    pub fn close(&mut self, what: &'static str, got: f64, want: f64, tol: f64) -> R {
        self.checks += 1;
        let err = (got - want).abs();
        if got == want {
            return Ok(());
        }
        let ratio = err / tol;
        let e = self.ratios.entry(what).or_insert(0.);
        if ratio > *e {
            *e = ratio;
        }
        if !(err <= tol * limit()) {
            return fail(what, format!("got {got:e}, expected {want:e}, |difference| {err:e} > tolerance {tol:e}"));
        }
        Ok(())
    }
    pub fn close_v(&mut self, what: &'static str, got: &[f64], want: &[f64], tol: impl Fn(usize) -> f64) -> R {
        if got.len() != want.len() {
            return fail(what, format!("length {} instead of {}", got.len(), want.len()));
        }
        for i in 0..got.len() {
            if let Err(Stop::Fail(w, m)) = self.close(what, got[i], want[i], tol(i)) {
                return fail(w, format!("[{i}] {m}"));
            }
        }
        Ok(())
    }
    pub fn check(&mut self, what: &'static str, ok: bool, msg: impl FnOnce() -> String) -> R {
        self.checks += 1;
        if ok { Ok(()) } else { fail(what, msg()) }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    pub r#gen: fn(&mut Rng) -> Case,
    pub check: fn(&Case, &mut Cx) -> R,
    /// number of generated cases: (quick, thorough)
    pub cases: (usize, usize),
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static LAST_PANIC: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
}
static HOOK: std::sync::Once = std::sync::Once::new();

pub fn install_hook() {
    HOOK.call_once(|| {
        std::panic::set_hook(Box::new(|info| {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = (msg, loc));
        }));
    });
}

pub enum Eval {
    Pass,
    Skip(&'static str),
    Fail(&'static str, String),
    /// the harness itself broke
    Broken(String),
}

/// A panic raised by the code under test or its dependencies, as opposed to the harness.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    install_hook();
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (m, l) = LAST_PANIC.with(|p| p.borrow().clone());
            if m.starts_with("HARNESS") || l.starts_with("src/") || l.contains("/harness/src/") {
                panic!("HARNESS panic re-raised: {m} at {l}");
            }
            Err(format!("{m} at {l}"))
        }
    }
}

pub fn eval(p: &Prop, c: &Case, cx: &mut Cx) -> Eval {
    install_hook();
    match catch_unwind(AssertUnwindSafe(|| (p.check)(c, cx))) {
        Ok(Ok(())) => Eval::Pass,
        Ok(Err(Stop::Skip(s))) => Eval::Skip(s),
        Ok(Err(Stop::Fail(w, m))) => Eval::Fail(w, m),
        Err(_) => {
            let (m, l) = LAST_PANIC.with(|p| p.borrow().clone());
            if m.starts_with("HARNESS") || l.starts_with("src/") || l.contains("/harness/src/") {
                Eval::Broken(format!("{m} at {l}"))
            } else {
                Eval::Fail("panic", format!("library panicked: {m} at {l}"))
            }
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub clause: String,
    pub message: String,
    pub seed: u64,
    pub shrink_steps: usize,
    pub case: Case,
}

fn minimise(p: &Prop, c: &Case, clause: &'static str, budget_s: f64) -> (Case, String, usize) {
    let t = Instant::now();
    let mut cur = c.clone();
    let mut msg = String::new();
    let mut steps = 0;
    if let Eval::Fail(_, m) = eval(p, &cur, &mut Cx::default()) {
        msg = m;
    }
    'outer: loop {
        for cand in shrink(&cur) {
            if t.elapsed().as_secs_f64() > budget_s {
                break 'outer;
            }
            if cand == cur {
                continue;
            }
            if let Eval::Fail(w, m) = eval(p, &cand, &mut Cx::default()) {
                if w == clause {
                    cur = cand;
                    msg = m;
                    steps += 1;
                    continue 'outer;
                }
            }
        }
        break;
    }
    (cur, msg, steps)
}

#[derive(Default)]
struct Shard {
    evals: u64,
    passed: u64,
    nontrivial: HashSet<u64>,
    skips: BTreeMap<&'static str, u64>,
    labels: BTreeMap<String, u64>,
    ratios: BTreeMap<&'static str, f64>,
    checks: u64,
    samples: Vec<Case>,
    fails: Vec<(Case, &'static str, String)>,
    fail_count: u64,
    known_hits: BTreeMap<String, u64>,
    broken: Option<String>,
}

#[derive(Deserialize, Clone)]
pub struct Known {
    pub status: String,
    #[serde(default)]
    pub property: String,
    #[serde(default)]
    pub clause: String,
    #[serde(default)]
    pub signature: String,
    #[serde(default)]
    pub what: String,
}

fn case_hash(c: &Case) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    serde_json::to_string(c).unwrap().hash(&mut h);
    h.finish()
}

pub fn seed_for(seed: u64, id: &str, shard: u64) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ shard.wrapping_mul(0xD1B54A32D192ED03)
}

fn load_known(base: &Path, id: &str) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(base.join("known_findings.json")) else { return vec![] };
    let v: Vec<Known> = serde_json::from_str(&s).unwrap_or_else(|e| {
        println!("ERROR: known_findings.json does not parse: {e}");
        std::process::exit(3)
    });
    v.into_iter().filter(|k| k.status == "known" && k.property == id).collect()
}

fn hang(p: &Prop, tier: &str, seed: u64, base: &Path, c: &Case) -> ! {
    let rdir = base.join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&rdir);
    let path = rdir.join(format!("{}-{}-hang.json", p.id, tier));
    let message = "the library did not return within 60 s".to_string();
    let rep = Replay { property: p.id.into(), clause: "terminates".into(), message: message.clone(), seed, shrink_steps: 0, case: c.clone() };
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap());
    let ev = json!({"property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": p.rule, "samples": [c]},
        "assumptions": p.assumptions, "wall_s": 60., "violations": 1});
    let _ = std::fs::write(base.join("evidence").join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap());
    println!("VIOLATION property={} replay={}", p.id, path.display());
    println!("  clause terminates: {message}");
    std::process::exit(1);
}

fn own_tid() -> u64 {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok()).unwrap_or(0)
}

/// Seconds of processor time which a thread of this process has used.
fn cpu_time(tid: u64) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let f: Vec<&str> = s.rsplit(')').next()?.split_whitespace().collect();
    Some((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) * 0.01)
}

/// Exit status: 0 held, 1 violation, 3 harness trouble.
pub fn run(p: &Prop, tier: &str, seed: u64, base: &Path, cases_override: Option<usize>, verbose: bool) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let known = load_known(base, p.id);
    let total = cases_override.unwrap_or(if tier == "thorough" { p.cases.1 } else { p.cases.0 });
    let shards = 8usize;
    let wall_cap = if tier == "thorough" { 3000. } else { 420. };
    let stop = AtomicBool::new(false);
    let done = AtomicUsize::new(0);
    let slow: Option<f64> = std::env::var("GLMCHECK_SLOW").ok().and_then(|s| s.parse().ok());
    let current: Vec<Mutex<Option<(Instant, Case)>>> = (0..shards).map(|_| Mutex::new(None)).collect();
    let tids: Vec<Mutex<u64>> = (0..shards).map(|_| Mutex::new(0)).collect();
    let finished = AtomicBool::new(false);
    let results: Vec<Shard> = std::thread::scope(|s| {
        // A case that doesn't come back at all is a violation too (ordinary cases take well under a
        // millisecond).
        // Judged by processor time, so that a busy machine isn't taken for a hang.
        s.spawn(|| {
            let mut seen: Vec<Option<(Instant, f64)>> = vec![None; shards];
            while !finished.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(50));
                for (sh, m) in current.iter().enumerate() {
                    if let Some((t, c)) = &*m.lock().unwrap() {
                        let wall = t.elapsed().as_secs_f64();
                        if wall < 5. {
                            continue;
                        }
                        let cpu = cpu_time(*tids[sh].lock().unwrap());
                        match seen[sh] {
                            Some((u, c0)) if u == *t => {
                                if cpu.is_some_and(|x| x - c0 > 60.) || wall > 400. {
                                    hang(p, tier, seed, base, c);
                                }
                            }
                            _ => seen[sh] = Some((*t, cpu.unwrap_or(0.))),
                        }
                    }
                }
            }
        });
        let hs: Vec<_> = (0..shards)
            .map(|sh| {
                let known = &known;
                let stop = &stop;
                let done = &done;
                let current = &current;
                let tids = &tids;
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(s, move || {
                        *tids[sh].lock().unwrap() = own_tid();
                        let mut o = Shard::default();
                        let per = total / shards + usize::from(sh < total % shards);
                        let mut r = Rng::new(seed_for(seed, p.id, sh as u64));
                        for idx in 0..per {
                            if stop.load(Ordering::Relaxed) || (idx % 32 == 0 && t0.elapsed().as_secs_f64() > wall_cap) {
                                break;
                            }
                            let c = (p.r#gen)(&mut r);
                            let mut cx = Cx::default();
                            *current[sh].lock().unwrap() = Some((Instant::now(), c.clone()));
                            let began = Instant::now();
                            let e = eval(p, &c, &mut cx);
                            if slow.is_some_and(|l| began.elapsed().as_secs_f64() > l) {
                                println!("  slow {:.2} s: {}", began.elapsed().as_secs_f64(), serde_json::to_string(&c).unwrap());
                            }
                            *current[sh].lock().unwrap() = None;
                            o.evals += 1;
                            o.checks += cx.checks;
                            done.fetch_add(1, Ordering::Relaxed);
                            match e {
                                Eval::Pass => {
                                    for (k, v) in &cx.ratios {
                                        let e = o.ratios.entry(k).or_insert(0.);
                                        if *v > *e {
                                            *e = *v;
                                        }
                                    }
                                    o.passed += 1;
                                    for l in cx.labels {
                                        *o.labels.entry(l).or_insert(0) += 1;
                                    }
                                    if cx.nontrivial {
                                        let h = case_hash(&c);
                                        if o.nontrivial.insert(h) && o.samples.len() < 2 && c.n() * (c.p + 1) < 60 {
                                            o.samples.push(c);
                                        }
                                    }
                                }
                                Eval::Skip(w) => *o.skips.entry(w).or_insert(0) += 1,
                                Eval::Fail(w, m) => {
                                    let sig = format!("{w}: {m}");
                                    if let Some(k) = known.iter().find(|k| k.clause == w && sig.contains(&k.signature)) {
                                        *o.known_hits.entry(k.what.clone()).or_insert(0) += 1;
                                        continue;
                                    }
                                    o.fail_count += 1;
                                    if verbose {
                                        *o.labels.entry(format!("FAIL {w} {:?}", c.fam)).or_insert(0) += 1;
                                    }
                                    if o.fails.iter().filter(|f| f.1 == w).count() < 2 {
                                        o.fails.push((c, w, m));
                                    }
                                    if !verbose || o.fail_count > 2000 {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                                Eval::Broken(m) => {
                                    o.broken = Some(format!("{m}\n  case: {}", serde_json::to_string(&c).unwrap()));
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        o
                    })
                    .unwrap()
            })
            .collect();
        let r = hs.into_iter().map(|h| h.join().expect("worker")).collect();
        finished.store(true, Ordering::Relaxed);
        r
    });

    let mut all = Shard::default();
    for o in results {
        all.evals += o.evals;
        all.passed += o.passed;
        all.checks += o.checks;
        all.fail_count += o.fail_count;
        all.nontrivial.extend(o.nontrivial);
        for (k, v) in o.skips {
            *all.skips.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.labels {
            *all.labels.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.known_hits {
            *all.known_hits.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.ratios {
            let e = all.ratios.entry(k).or_insert(0.);
            if v > *e {
                *e = v;
            }
        }
        all.samples.extend(o.samples);
        all.fails.extend(o.fails);
        all.broken = all.broken.or(o.broken);
    }
    if let Some(b) = &all.broken {
        println!("ERROR: the harness itself failed while checking {}: {b}", p.id);
        return 3;
    }
    let mut violations = 0;
    let mut lines = vec![];
    // minimise and record: one per failing clause
    let mut seen: Vec<&'static str> = vec![];
    let rdir = base.join("evidence").join("replay");
    for (c, w, _m) in &all.fails {
        if seen.contains(w) {
            continue;
        }
        seen.push(w);
        let (mc, msg, steps) = minimise(p, c, w, if seen.len() == 1 { 25. } else { 8. });
        violations += 1;
        let _ = std::fs::create_dir_all(&rdir);
        let path: PathBuf = rdir.join(format!("{}-{}-{}.json", p.id, tier, violations));
        let rep = Replay {
            property: p.id.into(),
            clause: w.to_string(),
            message: msg.clone(),
            seed,
            shrink_steps: steps,
            case: mc.clone(),
        };
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap());
        lines.push(format!("VIOLATION property={} replay={}", p.id, path.display()));
        lines.push(format!("  clause {w}: {msg}"));
        lines.push(format!("  case (after {steps} shrink steps): {}", serde_json::to_string(&mc).unwrap()));
    }
    let wall = t0.elapsed().as_secs_f64();
    let samples: Vec<_> = all.samples.iter().take(3).map(|c| serde_json::to_value(c).unwrap()).collect();
    let ev = json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": all.evals,
            "distinct_nontrivial": all.nontrivial.len(),
            "rule": p.rule,
            "samples": samples,
            "cases_passed": all.passed,
            "comparisons": all.checks,
            "outside_precondition": all.skips,
            "distribution": all.labels,
            "largest_error_over_tolerance": all.ratios,
            "known_findings_hit": all.known_hits,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let edir = base.join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    if let Err(e) = std::fs::write(edir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()) {
        println!("ERROR: cannot write evidence: {e}");
        return 3;
    }
    for k in &known {
        let n = all.known_hits.get(&k.what).copied().unwrap_or(0);
        println!("KNOWN-FINDING: property={} {} ({n} generated cases)", p.id, k.what);
    }
    println!(
        "{} [{}] seed {} : {} cases, {} passed, {} non-trivial distinct, {} comparisons, {:.1} s",
        p.id, tier, seed, all.evals, all.passed, all.nontrivial.len(), all.checks, wall
    );
    if verbose {
        println!("  skips: {:?}", all.skips);
        println!("  labels: {:?}", all.labels.iter().filter(|(k, _)| !k.starts_with("FAIL")).collect::<Vec<_>>());
        for (k, v) in all.labels.iter().filter(|(k, _)| k.starts_with("FAIL")) {
            println!("  {k}: {v}");
        }
        for (k, v) in &all.ratios {
            println!("  ratio {k}: {v:.3e}");
        }
        println!("  failing cases: {}", all.fail_count);
    }
    for l in &lines {
        println!("{l}");
    }
    if violations > 0 {
        return 1;
    }
    if all.nontrivial.len() < 50.min(total / 20) {
        println!("ERROR: {} reached only {} non-trivial cases; the run decides nothing", p.id, all.nontrivial.len());
        return 3;
    }
    0
}

/// Print the fit of a replay case next to the reference (for debugging).
pub fn show(file: &str) -> i32 {
    use crate::refm::Ref;
    let s = std::fs::read_to_string(file).expect("HARNESS: read");
    let rep: Replay = serde_json::from_str(&s).expect("HARNESS: parse");
    let c = rep.case;
    println!("{}", serde_json::to_string(&c).unwrap());
    let r = Ref::new(&c);
    let o = if c.l1 > 0. { r.fit_l1().map(|b| r.to_ext(&b)) } else { r.fit() };
    println!("sd {:?} mean {:?}", r.sd, r.mean);
    match &o {
        Some(b) => println!("reference {:?} objective {:e} mu {:?}", b, r.ll(&r.at(b)), r.at(b).mu),
        None => println!("reference: none"),
    }
    match crate::api::with_fit(&c, |f| (f.result(), f.model_like(), f.history())) {
        Ok((b, l, h)) => {
            println!("library {:?} likelihood {:e}, reference objective there {:e}", b, l, r.ll(&r.at(&b)));
            for (i, (b, l)) in h.iter().enumerate() {
                println!("  {:3} {:?} {:e}", i + 1, b, l);
            }
        }
        Err(e) => println!("library error {e:?}"),
    }
    0
}

pub fn replay(props: &[Prop], file: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(file) else {
        println!("ERROR: cannot read {file}");
        return 3;
    };
    let rep: Replay = match serde_json::from_str(&s) {
        Ok(r) => r,
        Err(e) => {
            println!("ERROR: {e}");
            return 3;
        }
    };
    let Some(p) = props.iter().find(|p| p.id == rep.property) else {
        println!("ERROR: unknown property {}", rep.property);
        return 3;
    };
    let mut cx = Cx::default();
    match eval(p, &rep.case, &mut cx) {
        Eval::Pass => {
            println!("replay of {}: passes ({} comparisons)", p.id, cx.checks);
            0
        }
        Eval::Skip(w) => {
            println!("replay of {}: outside the precondition ({w})", p.id);
            0
        }
        Eval::Fail(w, m) => {
            println!("clause {w}: {m}");
            println!("VIOLATION property={} replay={}", p.id, file);
            1
        }
        Eval::Broken(m) => {
            println!("ERROR: {m}");
            3
        }
    }
}
