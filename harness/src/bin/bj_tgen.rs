use bjmon::props::tgen;
use bjmon::rng::Rng;
use bjmon::run::{case_seed, main as go, Prop};
use serde_json::json;
static PROPS: &[Prop] = &[
    Prop { id: "C24", rule: "a case is one schema with one document, generated with one or all of the three codecs, compiled, and run on responses and inputs; every distinct module counts", quick: 100, thorough: 600,
        need: &[("modules:serde", 5), ("modules:borrow", 5), ("modules:miniserde", 5), ("decoded", 300), ("encoded", 100), ("rejected", 20), ("rejected-module", 30), ("member", 20), ("unknown-member", 3), ("unknown-enum-value", 10), ("absent-conditional", 10)], case: tgen::c24, probes: tgen::c24_probes, assumptions: &["names stay distinct and usable as identifiers after the documented renaming, and no name becomes Other", "no response name occurs twice in one selection set"] },
];
/// the parent process builds and runs the generated crate; workers read its results
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let p = &PROPS[0];
    let total: u64 = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
    let which: Option<Vec<u64>> = match a.get(2).map(String::as_str) { None => Some((0..total).collect()), Some("--case") => Some(a[3].parse().ok().into_iter().collect()), _ => None };
    if let Some(w) = which {
        let t0 = std::time::Instant::now();
        let (mut all, mut neg) = (json!({}), json!({}));
        let mut bad = None;
        for chunk in w.chunks(60) {
            if thorough && t0.elapsed().as_secs() > 1500 { break }
            let (mut ms, mut ns) = (vec![], vec![]);
            for k in chunk { let mut r = Rng::new(case_seed(p, *k)); let m = tgen::generate(&mut r); ns.extend(tgen::negatives_of(&m, *k, &mut r).into_iter().map(|(n, _, s)| (n, s))); ms.push((*k, m)) }
            match tgen::batch(&ms) { Ok(r) => for (k, v) in r { all[k.to_string()] = v }, Err(e) => { bad = Some(e); break } }
            match tgen::negatives(&ns) { Ok(r) => for (k, v) in r { neg[k] = json!(v) }, Err(e) => { bad = Some(e); break } }
        }
        let mut probes = json!({});
        if bad.is_none() && (a.len() < 3 || a.get(3).map_or(false, |x| x == "probes")) { match tgen::probe_runs() { Ok(p) => probes = p, Err(e) => bad = Some(e) } }
        if let Some(e) = bad { println!("{e}"); println!("INCONCLUSIVE property=C24 the generated crate could not be built or run"); std::process::exit(2) }
        std::fs::write(tgen::results_file(), json!({"cases": all, "neg": neg, "probes": probes}).to_string()).unwrap();
    }
    go(PROPS)
}
