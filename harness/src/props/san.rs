//! C26: jobs for the sanitized, interpreted and native runs, and what those runs reported.
use crate::emit::{doc_text, layout, plain, Emit};
use crate::gendoc::{self, GD};
use crate::genschema::{self, GS};
use crate::gensyn as g;
use crate::model::SDoc;
use crate::props::pipe;
use crate::rng::Rng;
use crate::rschema::RS;
use crate::run::{sut_raw, Ctx};
use crate::schedit;
pub use crate::work::*;
use serde_json::{json, Value as J};
use std::path::PathBuf;

// ---- jobs ----
pub fn job(r: &mut Rng, tiny: bool) -> Job {
    let mut j = Job { seed: r.u64(), ..Default::default() };
    let gs = if tiny { GS { dirs: 4, defaults: 20, descs: 4, ..GS::default() } } else { GS { dirs: 20, cost: 20, wild_strings: r.p(40), ..GS::default() } };
    let mut sd = genschema::schema(r, &gs);
    if tiny { let mut best = sd.clone(); let mut n = usize::MAX; let small = r.r(350, 600); for _ in 0..400 { if n < small { break } let s = genschema::schema(r, &gs); let l = crate::emit::sdoc_text(&s).len(); if l < n { n = l; best = s } } sd = best }
    if !tiny && r.p(12) { let n = *r.pick(&[40usize, 120, 300]); genschema::crowd(&mut sd, r, n) }
    let good = RS::new(&sd);
    let text = |r: &mut Rng, s: &SDoc| { let mut e = Emit::new(Some(r.fork())); e.sdoc(s); if tiny || r.p(50) { plain(&e.t) } else { layout(&e.t, r).0 } };
    if !tiny && r.p(30) { schedit::wild(&mut sd, r) }
    j.sdl = text(r, &sd);
    let mut other = sd.clone(); for _ in 0..if tiny { 1 } else { r.r(1, 4) } { schedit::break_one(&mut other, r); }
    j.sdl2 = text(r, &other);
    for _ in 0..if tiny { 2 } else { 6 } {
        let one = |r: &mut Rng| gendoc::doc(r, &good, &if tiny { GD { depth: 2, ops: (1, 1), frags: 1, width: 3, ..GD::default() } } else { GD { depth: 4, ..GD::default() } });
        let mut d = one(r);
        if tiny { for _ in 0..12 { let o = one(r); let l = |d| { let n = doc_text(d).len(); if n < 60 { 1000 } else { n } }; if l(&o) < l(&d) { d = o } } }
        for _ in 0..*r.pick(&[0usize, 0, 1, 3]) { gendoc::mutate(r, &good, &mut d); }
        let t = if tiny || r.p(60) { doc_text(&d) } else { let mut e = Emit::new(Some(r.fork())); e.doc(&d); layout(&e.t, r).0 };
        j.docs.push(t);
    }
    for _ in 0..if tiny { 2 } else { 10 } { let t = match r.n(6) { 0 | 1 => pipe::soup(r), 2 => pipe::hard(r), 3 => { let d = r.pick(&j.docs).clone(); g::edit_text(&d, r) } 4 => g::edit_text(&j.sdl, r), _ => { let mut t = String::new(); for _ in 0..3 { t = g::edit_text(&t, r); t.push_str(&g::string(r)) } t } }; if crate::refparse::nesting(&t) <= 60 && (!tiny || t.len() < 80) { j.texts.push(t) } }
    j
}
// ---- the instrumented runs ----
pub fn harness() -> PathBuf { PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into())).join("harness") }
pub fn dir() -> PathBuf { harness().join("target/san") }
pub fn results() -> &'static J { static R: std::sync::OnceLock<J> = std::sync::OnceLock::new(); R.get_or_init(|| serde_json::from_str(&std::fs::read_to_string(dir().join("results.json")).expect("results of the instrumented runs")).unwrap()) }

/// natively, with the checks that debug builds make
pub fn c26(c: &mut Ctx) {
    let j = job(&mut c.rng, false);
    c.eval(true, &format!("{}{}{:?}", j.sdl, j.sdl2, j.docs));
    match sut_raw(|| run_job(&j, 4)) {
        Ok(s) => { for (k, n) in &s.n { c.add(k, *n) } c.sample(|| json!({"schema": j.sdl, "documents": j.docs})); if let Some(b) = s.bad.first() { c.fail("native", format!("{b}\n--- schema\n{}\n--- other schema\n{}\n--- documents\n{}", j.sdl, j.sdl2, j.docs.join("\n---\n"))) } }
        Err(_) => c.obs("stopped-by-panic"),
    }
}
pub fn c26_probes(c: &mut Ctx) {
    let runs = results()["runs"].as_array().cloned().unwrap_or_default();
    for r in &runs {
        let how = r["how"].as_str().unwrap_or("?");
        c.eval(true, &format!("{how} {}", r["jobs"]));
        if let Some(m) = r["seen"].as_object() { for (k, n) in m { let k: &'static str = Box::leak(format!("{how}:{k}").into_boxed_str()); c.add(k, n.as_u64().unwrap_or(0)) } }
        if let Some(b) = r["report"].as_str() { c.fail(how, format!("{how}: {b}")) }
    }
}
