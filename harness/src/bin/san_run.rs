//! The process that runs under a sanitizer or in the interpreter: jobs FROM..TO of FILE with THREADS
//! threads. Prints what it saw; exits with 3 when the library's output was wrong.
use bjmon::work as san;
use std::collections::BTreeMap;
use std::io::Write;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let jobs = san::read_jobs(&std::fs::read_to_string(&a[1]).unwrap());
    let (from, to, threads): (usize, usize, usize) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    let budget: u64 = a[5].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = std::time::Instant::now();
    let mut n: BTreeMap<&'static str, u64> = BTreeMap::new();
    for k in from..to.min(jobs.len()) {
        if t0.elapsed().as_secs() > budget { break }
        println!("JOB {k}"); std::io::stdout().flush().unwrap();
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| san::run_job(&jobs[k], threads))) {
            Ok(s) => { for (k, v) in s.n { *n.entry(k).or_default() += v } if let Some(b) = s.bad.first() { println!("SANFAIL {b}"); std::process::exit(3) } }
            Err(_) => *n.entry("stopped-by-panic").or_default() += 1,
        }
        *n.entry("jobs").or_default() += 1;
        println!("SAN {}", serde_json::to_string(&n).unwrap());
    }
}
