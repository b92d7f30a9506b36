use bjmon::props::san;
use bjmon::rng::{hash_str, mix, Rng};
use bjmon::run::{main as go, Prop};
use serde_json::{json, Value as J};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
static PROPS: &[Prop] = &[
    Prop { id: "C26", rule: "a case is one pair of schemas with documents and texts, worked on in several orders and by several threads; every distinct one counts, and so does every run under a sanitizer or in the interpreter", quick: 400, thorough: 6000,
        need: &[("schemas", 200), ("views", 500), ("shared-schema", 500), ("asan:jobs", 20), ("asan:held-references", 50), ("tsan:jobs", 20), ("tsan:shared-schema", 80), ("miri:jobs", 1)], case: san::c26, probes: san::c26_probes, assumptions: &["data races can only come through types that claim Sync: those are found out at compile time and shared", "the reference to a value of another type is not handed to another thread"] },
];
#[derive(Clone, Copy, PartialEq)]
enum How { Asan, Tsan, Miri, MiriTree, MiriFast }
impl How {
    fn name(self) -> &'static str { match self { How::Asan => "asan", How::Tsan => "tsan", How::Miri => "miri", How::MiriTree => "miri-tree", How::MiriFast => "miri-fast" } }
    fn target(self) -> PathBuf { san::harness().join("target").join(match self { How::Asan => "asan", How::Tsan => "tsan", _ => "miri" }) }
    /// cargo with everything the instrumentation needs
    fn cargo(self, verb: &[&str]) -> Command {
        let mut c = Command::new("cargo");
        c.current_dir(san::harness()).env("RUSTUP_TOOLCHAIN", "nightly").env("CARGO_TARGET_DIR", self.target());
        c.args(verb).args(["--offline", "--no-default-features", "--bin", "san_run", "--target", "x86_64-unknown-linux-gnu"]);
        match self {
            How::Asan => { c.env("RUSTFLAGS", "-Zsanitizer=address"); }
            How::Tsan => { c.env("RUSTFLAGS", "-Zsanitizer=thread").arg("-Zbuild-std"); }
            How::Miri | How::MiriTree | How::MiriFast => { c.env_remove("RUSTFLAGS"); }
        }
        c
    }
    fn exe(self) -> PathBuf { self.target().join("x86_64-unknown-linux-gnu/debug/san_run") }
}
const T: &str = "4";
struct Run { how: How, seed: u64, file: PathBuf, from: usize, to: usize, threads: usize }
impl Run {
    fn command(&self, budget: u64) -> Command {
        let mut c = match self.how {
            How::Asan => { let mut c = Command::new(self.how.exe()); c.env("ASAN_OPTIONS", "detect_leaks=0:detect_stack_use_after_return=1:exitcode=66"); c }
            How::Tsan => { let mut c = Command::new(self.how.exe()); c.env("TSAN_OPTIONS", "halt_on_error=1:exitcode=66"); c }
            _ => {
                let mut c = self.how.cargo(&["miri", "run", "-q"]);
                c.env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-seed={} -Zmiri-preemption-rate=0.05{}", self.seed, match self.how { How::MiriTree => " -Zmiri-tree-borrows", How::MiriFast => " -Zmiri-disable-stacked-borrows", _ => "" }));
                c.arg("--");
                c
            }
        };
        c.arg(&self.file).args([self.from.to_string(), self.to.to_string(), self.threads.to_string(), budget.to_string()]);
        c
    }
}
/// output and exit code, or nothing when the time ran out
fn finish(mut c: Command, limit: Duration, log: PathBuf) -> (String, Option<i32>) {
    let f = std::fs::File::create(&log).unwrap();
    c.stdin(Stdio::null()).stdout(f.try_clone().unwrap()).stderr(f);
    let mut p = match c.spawn() { Ok(p) => p, Err(e) => return (format!("{e}"), Some(127)) };
    let t0 = Instant::now();
    let code = loop {
        match p.try_wait() { Ok(Some(s)) => break Some(s.code().unwrap_or(-1)), _ if t0.elapsed() > limit => { let _ = Command::new("pkill").args(["-KILL", "-P", &p.id().to_string()]).status(); let _ = p.kill(); let _ = p.wait(); break None } _ => std::thread::sleep(Duration::from_millis(50)) }
    };
    (String::from_utf8_lossy(&std::fs::read(&log).unwrap_or_default()).into_owned(), code)
}
fn inconclusive(why: &str) -> ! { println!("{why}"); println!("INCONCLUSIVE property=C26 an instrumented build could not be made or run"); std::process::exit(2) }
/// what an ended run says: a report of the tool, of the monitor, or neither
fn judge(r: &Run, out: &str, code: Option<i32>) -> J {
    let seen: J = out.lines().rev().find_map(|l| l.strip_prefix("SAN ")).and_then(|s| serde_json::from_str(s).ok()).unwrap_or(json!({}));
    let tool = ["ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "error: Undefined Behavior", "error: unsupported operation", "unsafe precondition(s) violated", "SANFAIL", "error: memory leaked", "error: the evaluated program deadlocked"].iter().filter_map(|m| out.find(m).map(|p| (p, *m))).min();
    let seen = if seen == json!({}) && out.contains("JOB") { json!({"unfinished": 1}) } else { seen };
    let report = match (tool, code) {
        (Some((_, "error: unsupported operation")), _) => Err(format!("the interpreter does not support an operation:\n{out}")),
        (Some((p, _)), _) => { let job = out[..p].lines().rev().find_map(|l| l.strip_prefix("JOB ")).unwrap_or("?"); Ok(Some(format!("job {job} of {}: {}", r.file.display(), out[p..].chars().take(6000).collect::<String>()))) }
        (None, Some(0)) => Ok(None),
        (None, None) => Ok(None), // out of time: what was done had no report
        (None, Some(c)) if c == 66 || c < 0 || c == 134 || c == 139 => { let job = out.lines().rev().find_map(|l| l.strip_prefix("JOB ")).unwrap_or("?"); Ok(Some(format!("job {job} of {} ended with {c}: {}", r.file.display(), out.chars().rev().take(3000).collect::<Vec<_>>().into_iter().rev().collect::<String>()))) }
        (None, Some(c)) => Err(format!("ended with {c}:\n{out}")),
    };
    match report {
        Ok(rep) => json!({"how": r.how.name(), "jobs": format!("{} {}..{} seed {}", r.file.file_name().unwrap().to_string_lossy(), r.from, r.to, r.seed), "complete": code == Some(0), "seen": seen, "report": rep}),
        Err(e) => inconclusive(&e.chars().take(4000).collect::<String>()),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let env = |k: &str, d: u64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let seed = env("VERIF_SEED", 1);
    // only the process the user started builds and runs; its workers read the results
    if a.len() == 2 || a.get(2).map_or(false, |x| x == "--case") && a.get(3).map_or(false, |x| x == "probes") {
        let dir = san::dir();
        std::fs::create_dir_all(&dir).unwrap();
        let (big, tiny) = if thorough { (1600, 400) } else { (env("SAN_BIG", 160) as usize, env("SAN_TINY", 80) as usize) };
        let make = |tiny: bool, n: usize| { let f = dir.join(if tiny { "tiny" } else { "big" }); let jobs: Vec<san::Job> = (0..n as u64).map(|k| san::job(&mut Rng::new(mix(seed ^ mix(k) ^ hash_str(if tiny { "tiny" } else { "big" }))), tiny)).collect(); std::fs::write(&f, san::write_jobs(&jobs)).unwrap(); f };
        let (fb, ft) = (make(false, big), make(true, tiny));
        let secs = if thorough { 900 } else { env("SAN_SECS", 140) };
        let log = |n: String| dir.join(format!("{n}.log"));
        // the three builds at once, then the runs of each as soon as it is there
        let results: Vec<J> = std::thread::scope(|sc| {
            let h: Vec<_> = [How::Asan, How::Tsan, How::Miri].into_iter().map(|how| { let (fb, ft) = (&fb, &ft); sc.spawn(move || -> Result<Vec<J>, String> {
                let t0 = Instant::now();
                // the interpreter builds when it first runs: on no job
                let b = if how == How::Miri { Run { how, seed: 0, file: ft.clone(), from: 0, to: 0, threads: 1 }.command(1) } else { how.cargo(&["build"]) };
                let (out, code) = finish(b, Duration::from_secs(600), log(format!("build-{}", how.name())));
                if code != Some(0) { return Err(format!("{}: {}", how.name(), out.chars().rev().take(3000).collect::<Vec<_>>().into_iter().rev().collect::<String>())) }
                eprintln!("{} built in {:?}", how.name(), t0.elapsed());
                let mut runs = vec![];
                let (lanes, n, file) = match how { How::Miri | How::MiriTree | How::MiriFast => (8, tiny, ft), How::Asan => (3, big, fb), How::Tsan => (3, big, fb) };
                for l in 0..lanes { let (from, to) = (n * l / lanes, n * (l + 1) / lanes); runs.push(Run { how: if how == How::Miri && l % 8 == 5 { How::MiriTree } else if how == How::Miri && l % 4 == 2 { How::MiriFast } else { how }, seed: seed * 100 + l as u64, file: file.clone(), from, to, threads: if how == How::Miri { 2 } else { T.parse().unwrap() } }) }
                let js: Vec<J> = std::thread::scope(|sc| { let h: Vec<_> = runs.iter().enumerate().map(|(i, r)| sc.spawn(move || { let (o, c) = finish(r.command(secs), Duration::from_secs(secs + 120), log(format!("{}-{i}", r.how.name()))); judge(r, &o, c) })).collect(); h.into_iter().map(|x| x.join().unwrap()).collect() });
                eprintln!("{} done in {:?}", how.name(), t0.elapsed());
                Ok(js)
            }) }).collect();
            h.into_iter().map(|x| x.join().unwrap()).collect::<Result<Vec<_>, _>>().unwrap_or_else(|e| inconclusive(&e)).into_iter().flatten().collect()
        });
        std::fs::write(dir.join("results.json"), serde_json::to_string_pretty(&json!({"runs": results})).unwrap()).unwrap();
    }
    go(PROPS)
}
