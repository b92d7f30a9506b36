//! Driver: runs a property's monitor over many deterministic cases on all cores, under a supervisor
//! process that turns aborts (stack overflow, double panic) and hangs into verdicts, writes the
//! evidence file and prints VIOLATION / KNOWN-FINDING lines.
use crate::rng::{hash_str, mix, Rng};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    /// what a case is and what makes it non-trivial
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// counters that must reach these values, or the run is inconclusive
    pub need: &'static [(&'static str, u64)],
    pub case: fn(&mut Ctx),
    pub probes: fn(&mut Ctx),
    pub assumptions: &'static [&'static str],
}
pub fn no_probes(_: &mut Ctx) {}

#[derive(Clone, Debug)]
pub struct Viol { pub sig: String, pub detail: String, pub case: String }

pub struct Ctx {
    pub rng: Rng,
    /// 0.. : grows over the run, a hint for generator sizes
    pub size: usize,
    pub thorough: bool,
    pub verbose: bool,
    pub case_id: String,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<J>,
    pub viols: Vec<Viol>,
    sample_budget: usize,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static IN_SUT: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| l.file().to_string()).unwrap_or_default();
        let line = i.location().map(|l| l.line()).unwrap_or(0);
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        if !IN_SUT.with(|x| *x.borrow()) { eprintln!("harness panic at {loc}:{line}: {msg}"); }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((format!("{loc}:{line}"), msg)));
    }));
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool) -> Ctx {
        Ctx { rng: Rng::new(seed), size: 0, thorough, verbose: false, case_id: String::new(), evals: 0, distinct: HashSet::new(), counters: BTreeMap::new(), samples: vec![], viols: vec![], sample_budget: 3 }
    }
    pub fn obs(&mut self, k: &str) { self.add(k, 1) }
    pub fn add(&mut self, k: &str, n: u64) { if let Some(x) = self.counters.get_mut(k) { *x += n } else { self.counters.insert(k.to_string(), n); } }
    /// One evaluated case; non-trivial ones are counted distinct by `key`.
    pub fn eval(&mut self, nontrivial: bool, key: &str) { self.evals += 1; if nontrivial { self.distinct.insert(hash_str(key)); } }
    pub fn sample(&mut self, f: impl FnOnce() -> J) { if self.samples.len() < self.sample_budget { let v = f(); self.samples.push(v) } }
    pub fn fail(&mut self, sig: &str, detail: String) {
        let case = self.case_id.clone();
        if self.verbose { eprintln!("FAIL [{sig}]\n{detail}\n"); }
        self.viols.push(Viol { sig: sig.to_string(), detail, case });
    }
    /// Run code under test; a panic there is a violation of the property being checked.
    pub fn sut<R>(&mut self, what: &str, input: impl FnOnce() -> String, f: impl FnOnce() -> R) -> Option<R> {
        match sut_raw(f) {
            Ok(r) => Some(r),
            Err((loc, msg)) => { let i = input(); self.fail(&format!("panic:{what}"), format!("panic in {what} at {loc}: {msg}\n--- input\n{i}")); None }
        }
    }
}
pub fn sut_raw<R>(f: impl FnOnce() -> R) -> Result<R, (String, String)> {
    let old = IN_SUT.with(|x| std::mem::replace(&mut *x.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|x| *x.borrow_mut() = old);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into())))
}

fn verif_dir() -> PathBuf { std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif")) }
fn seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }
pub fn case_seed(p: &Prop, k: u64) -> u64 { mix(mix(seed()) ^ hash_str(p.id) ^ mix(k.wrapping_mul(0x9E37_79B9))) }

fn run_case(p: &Prop, ctx: &mut Ctx, k: u64, total: u64) {
    ctx.rng = Rng::new(case_seed(p, k));
    ctx.case_id = k.to_string();
    ctx.size = ((k * 10) / total.max(1)).min(9) as usize;
    (p.case)(ctx);
}

struct Slot { case: AtomicU64, start_ms: AtomicU64 }

const STACK: usize = 32 << 20;

fn worker(p: &'static Prop, thorough: bool, dir: &Path, cap: Duration) -> i32 {
    install_hook();
    let total = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
    let nthreads: usize = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let t0 = Instant::now();
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let slots: Arc<Vec<Slot>> = Arc::new((0..nthreads + 1).map(|_| Slot { case: AtomicU64::new(u64::MAX), start_ms: AtomicU64::new(0) }).collect());
    let merged: Arc<Mutex<Ctx>> = Arc::new(Mutex::new(Ctx::new(0, thorough)));
    let harness_err = Arc::new(AtomicBool::new(false));
    // in-flight table for the supervisor: one 8-byte record per thread
    let table = dir.join("inflight");
    std::fs::write(&table, vec![0xffu8; 8 * (nthreads + 1)]).unwrap();
    // hang monitor
    {
        let slots = slots.clone(); let dir = dir.to_path_buf();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = t0.elapsed().as_millis() as u64;
            for s in slots.iter() {
                let c = s.case.load(SeqCst);
                if c != u64::MAX && now.saturating_sub(s.start_ms.load(SeqCst)) > 60_000 {
                    let _ = std::fs::write(dir.join("hang"), c.to_string());
                    std::process::exit(43);
                }
            }
        });
    }
    let mut hs = vec![];
    for ti in 0..nthreads {
        let (next, stop, slots, merged, herr, table) = (next.clone(), stop.clone(), slots.clone(), merged.clone(), harness_err.clone(), table.clone());
        hs.push(std::thread::Builder::new().stack_size(STACK).spawn(move || {
            use std::os::unix::fs::FileExt;
            let f = std::fs::OpenOptions::new().write(true).open(table).unwrap();
            let mut ctx = Ctx::new(0, thorough);
            if ti == 0 {
                // fixed probes first (case number u64::MAX - 1)
                let _ = f.write_at(&(u64::MAX - 1).to_le_bytes(), 0);
                ctx.case_id = "probes".into();
                ctx.rng = Rng::new(hash_str(p.id));
                if catch_unwind(AssertUnwindSafe(|| (p.probes)(&mut ctx))).is_err() { herr.store(true, SeqCst) }
            }
            loop {
                if stop.load(SeqCst) || t0.elapsed() > cap { break }
                let k = next.fetch_add(1, SeqCst);
                if k >= total { break }
                let _ = f.write_at(&k.to_le_bytes(), 8 * ti as u64);
                slots[ti].start_ms.store(t0.elapsed().as_millis() as u64, SeqCst);
                slots[ti].case.store(k, SeqCst);
                let r = catch_unwind(AssertUnwindSafe(|| run_case(p, &mut ctx, k, total)));
                slots[ti].case.store(u64::MAX, SeqCst);
                if r.is_err() { eprintln!("harness panic in case {k}"); herr.store(true, SeqCst); stop.store(true, SeqCst) }
                if ctx.viols.iter().filter(|v| !v.sig.starts_with("probe:")).count() >= 2 { stop.store(true, SeqCst) }
            }
            let _ = f.write_at(&u64::MAX.to_le_bytes(), 8 * ti as u64);
            let mut m = merged.lock().unwrap();
            m.evals += ctx.evals;
            m.distinct.extend(ctx.distinct);
            for (k, v) in ctx.counters { *m.counters.entry(k).or_default() += v }
            if m.samples.len() < 6 { m.samples.extend(ctx.samples.into_iter().take(2)) }
            m.viols.extend(ctx.viols);
        }).unwrap());
    }
    for h in hs { if h.join().is_err() { harness_err.store(true, SeqCst) } }
    let m = merged.lock().unwrap();
    let j = json!({
        "evaluations": m.evals, "distinct_nontrivial": m.distinct.len(), "observed": m.counters, "samples": m.samples,
        "viols": m.viols.iter().map(|v| json!({"sig": v.sig, "detail": v.detail, "case": v.case})).collect::<Vec<_>>(),
        "cases_run": next.load(SeqCst).min(total), "cases_planned": total, "wall_s": t0.elapsed().as_secs_f64(),
        "harness_error": harness_err.load(SeqCst),
    });
    std::fs::write(dir.join("result.json"), serde_json::to_string(&j).unwrap()).unwrap();
    0
}

fn single(p: &'static Prop, case: &str, thorough: bool, verbose: bool) -> i32 {
    install_hook();
    let case = case.to_string();
    std::thread::Builder::new().stack_size(STACK).spawn(move || {
        let mut ctx = Ctx::new(0, thorough);
        ctx.verbose = verbose;
        if case == "probes" { ctx.case_id = case; ctx.rng = Rng::new(hash_str(p.id)); (p.probes)(&mut ctx) }
        else {
            let total = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
            run_case(p, &mut ctx, case.parse().unwrap(), total)
        }
        if verbose { eprintln!("observed: {:?}", ctx.counters); for s in &ctx.samples { eprintln!("sample: {s}"); } }
        if ctx.viols.iter().any(|v| !v.sig.starts_with("probe:")) { 1 } else { 0 }
    }).unwrap().join().unwrap_or(2)
}

/// Wait for a child with a wall limit; None = killed on timeout.
fn wait(mut c: std::process::Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() { return Some(s) }
        if t.elapsed() > limit { let _ = c.kill(); let _ = c.wait(); return None }
        std::thread::sleep(Duration::from_millis(20));
    }
}

pub fn main(props: &'static [Prop]) -> ! {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    let Some(p) = props.iter().find(|p| p.id == id) else { eprintln!("unknown property {id}"); std::process::exit(2) };
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let cap = Duration::from_secs(std::env::var("VERIF_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1500 } else { 150 }));
    match a.get(2).map(String::as_str) {
        Some("--worker") => std::process::exit(worker(p, thorough, Path::new(&a[3]), cap)),
        Some("--case") => std::process::exit(single(p, &a[3], thorough, true)),
        Some("--quiet-case") => std::process::exit(single(p, &a[3], thorough, false)),
        _ => {}
    }
    let t0 = Instant::now();
    let vd = verif_dir();
    let ev = vd.join("evidence");
    let dir = ev.join(format!(".run-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let child = std::process::Command::new(&exe).arg(p.id).arg("--worker").arg(&dir).spawn().unwrap();
    let st = wait(child, cap + Duration::from_secs(120));
    let mut viols: Vec<Viol> = vec![];
    let mut inconclusive: Option<String> = None;
    let res: Option<J> = std::fs::read_to_string(dir.join("result.json")).ok().and_then(|s| serde_json::from_str(&s).ok());
    if res.is_none() {
        // died: find the case that kills the process
        let mut suspects: Vec<u64> = std::fs::read(dir.join("inflight")).unwrap_or_default().chunks(8).filter(|c| c.len() == 8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|c| *c != u64::MAX).collect();
        let hang = std::fs::read_to_string(dir.join("hang")).ok().and_then(|s| s.trim().parse::<u64>().ok());
        if let Some(h) = hang { suspects.retain(|x| *x != h); suspects.insert(0, h) }
        for s in suspects {
            let name = if s == u64::MAX - 1 { "probes".to_string() } else { s.to_string() };
            let c = std::process::Command::new(&exe).arg(p.id).arg("--quiet-case").arg(&name).stderr(std::process::Stdio::null()).spawn().unwrap();
            match wait(c, Duration::from_secs(150)) {
                None => viols.push(Viol { sig: "hang".into(), detail: format!("case {name} does not terminate (150 s for a case that normally takes milliseconds)"), case: name }),
                Some(st) if st.code().is_none() => viols.push(Viol { sig: "abort".into(), detail: format!("case {name} kills the process: {st}"), case: name }),
                Some(st) if st.code() == Some(1) => viols.push(Viol { sig: "case".into(), detail: format!("case {name} fails"), case: name }),
                _ => {}
            }
            if !viols.is_empty() { break }
        }
        if viols.is_empty() { inconclusive = Some(format!("worker ended without a result ({st:?})")) }
    }
    let res = res.unwrap_or(json!({"evaluations": 0, "distinct_nontrivial": 0, "observed": {}, "samples": []}));
    for v in res["viols"].as_array().cloned().unwrap_or_default() {
        viols.push(Viol { sig: v["sig"].as_str().unwrap().into(), detail: v["detail"].as_str().unwrap().into(), case: v["case"].as_str().unwrap().into() });
    }
    if res["harness_error"].as_bool() == Some(true) && inconclusive.is_none() { inconclusive = Some("harness error".into()) }
    // known findings
    let kf = std::fs::read_to_string(vd.join("known_findings.jsonl")).unwrap_or_default();
    let known: Vec<(String, String)> = kf.lines().filter(|l| l.starts_with('{')).filter_map(|l| serde_json::from_str::<J>(l).ok())
        .filter(|j| j["property"] == p.id && j["signature"].is_string()).map(|j| (j["signature"].as_str().unwrap().to_string(), j["what"].as_str().unwrap_or("").to_string())).collect();
    let mut known_hit: Vec<String> = vec![];
    let mut real = vec![];
    for v in viols { if known.iter().any(|(s, _)| *s == v.sig) { if !known_hit.contains(&v.sig) { known_hit.push(v.sig) } } else { real.push(v) } }
    for s in &known_hit { let what = &known.iter().find(|(k, _)| k == s).unwrap().1; println!("KNOWN-FINDING: property={} {} ({})", p.id, what, s); }
    if inconclusive.is_none() && real.is_empty() {
        for (k, n) in p.need {
            let got = res["observed"][*k].as_u64().unwrap_or(0);
            if got < *n { inconclusive = Some(format!("observed {k} only {got} times (need {n})")); }
        }
        if res["evaluations"].as_u64() == Some(0) { inconclusive = Some("nothing evaluated".into()) }
    }
    // evidence
    let rep = ev.join("replay");
    std::fs::create_dir_all(&rep).unwrap();
    let samples = res["samples"].clone();
    let evidence = json!({
        "property": p.id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed(), "level": "exploration",
        "coverage": {
            "evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"], "rule": p.rule, "samples": samples,
            "cases_run": res["cases_run"], "cases_planned": res["cases_planned"], "observed": res["observed"], "known_findings_observed": known_hit,
            "inconclusive": inconclusive,
        },
        "assumptions": p.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": real.len(),
    });
    std::fs::write(ev.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&evidence).unwrap() + "\n").unwrap();
    let mut seen = HashSet::new();
    let mut code = 0;
    for v in &real {
        if !seen.insert(v.sig.clone()) || seen.len() > 5 { continue }
        let path = rep.join(format!("{}-{}.txt", p.id, v.case));
        let body = format!("property {}\nseed {}\ntier {}\nsignature {}\nrerun: VERIF_SEED={} VERIF_TIER={} {}/check.sh {} --case {}\n\n{}\n", p.id, seed(), if thorough { "thorough" } else { "quick" }, v.sig, seed(), if thorough { "thorough" } else { "quick" }, vd.display(), p.id, v.case, v.detail);
        let _ = std::fs::write(&path, body);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        println!("  {}: {}", v.sig, v.detail.lines().take(14).collect::<Vec<_>>().join("\n  "));
        code = 1;
    }
    let _ = std::fs::remove_file(dir.join("result.json")); let _ = std::fs::remove_file(dir.join("inflight")); let _ = std::fs::remove_file(dir.join("hang"));
    let _ = std::fs::remove_dir(&dir);
    if code == 0 { if let Some(w) = inconclusive { println!("INCONCLUSIVE property={} {}", p.id, w); code = 2 } }
    println!("{}: {} evaluations, {} distinct non-trivial, {} cases, {:.1}s, exit {}", p.id, res["evaluations"], res["distinct_nontrivial"], res["cases_run"], t0.elapsed().as_secs_f64(), code);
    std::process::exit(code)
}
