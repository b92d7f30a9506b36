//! C04: whatever the text, the whole public pipeline ends, without a panic and with a definite answer.
use crate::bj;
use crate::coin::CoinWarden;
use crate::deep;
use crate::emit::{layout, plain, Emit};
use crate::gendoc::{self, GD};
use crate::genschema::{self, GS};
use crate::gensyn as g;
use crate::props::oper::{alone, payload, together};
use crate::refoper::Payload;
use crate::refparse::nesting;
use crate::rng::{hash_str, mix, Rng};
use crate::rschema::RS;
use crate::run::Ctx;
use crate::schedit;
use crate::sys::{DDoc, Schema};
use bluejay_core::definition as cd;
use bluejay_core::definition::{prelude::*, SchemaDefinition, TypeDefinitionReference as TR};
use bluejay_core::executable::OperationDefinition as _;
use bluejay_parser::ast::definition as pd;
use bluejay_parser::ast::definition::{DefaultContext, DefinitionDocument, SchemaDefinition as PSchema};
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::ast::{Parse, ParseOptions, Value, VariableValue};
use bluejay_parser::Error as PErr;
use bluejay_printer::definition::SchemaDefinitionPrinter;
use bluejay_printer::executable::ExecutableDocumentPrinter;
use bluejay_printer::value::ValuePrinter;
use bluejay_validator::definition::BuiltinRulesValidator as DefRules;
use bluejay_validator::executable::document::{BuiltinRules, BuiltinRulesValidator, Orchestrator as DocOrch};
use bluejay_validator::executable::Cache;
use bluejay_visibility as bv;
use serde_json::{json, Value as J};

/// nesting of brackets that inputs stay below
const DEEP: usize = 150;

// ---- texts ----
const KEYWORDS: &[&str] = &["query", "mutation", "subscription", "fragment", "on", "type", "input", "enum", "union", "interface", "scalar", "schema", "directive", "implements", "repeatable", "extend", "true", "false", "null"];
const EXTRA: &[&str] = &["Int", "Float", "String", "Boolean", "ID", "Query", "Mutation", "Subscription", "__Schema", "__Type", "__TypeKind", "__Directive", "__typename", "__schema", "__type", "deprecated", "specifiedBy", "skip", "include", "oneOf", "Nope", "if", "reason", "url", "name", "_", "__"];
fn is_name(t: &str) -> bool { t.starts_with(|x: char| x.is_ascii_alphabetic() || x == '_') && !KEYWORDS.contains(&t) }
/// exchange names (and variables) of a document for others, keeping its grammar
fn confuse(t: &mut [String], r: &mut Rng, foreign: &[String], n: usize) {
    let names: Vec<usize> = (0..t.len()).filter(|i| is_name(&t[*i])).collect();
    let vars: Vec<usize> = (0..t.len()).filter(|i| t[*i].starts_with('$')).collect();
    for _ in 0..n {
        if !vars.is_empty() && r.p(15) { let (a, b) = (*r.pick(&vars), *r.pick(&vars)); if r.p(30) { t[a] = "$nope".into() } else { t[a] = t[b].clone() } continue }
        if names.is_empty() { return }
        let a = *r.pick(&names);
        t[a] = match r.n(10) { 0 | 1 => r.ps(EXTRA).to_string(), 2..=4 if !foreign.is_empty() => r.pick(foreign).clone(), _ => { let b = *r.pick(&names); t[b].clone() } };
    }
}
pub fn soup(r: &mut Rng) -> String {
    let n = match r.n(10) { 0 => 0, 1..=6 => r.r(1, 30), _ => r.r(30, 300) };
    let mut s = String::new();
    let style = r.n(4);
    for _ in 0..n {
        match style {
            0 => { let k = r.n(8); let b: Vec<u8> = (0..k).map(|_| r.n(256) as u8).collect(); s.push_str(&String::from_utf8_lossy(&b)) }
            1 => if let Some(ch) = char::from_u32(if r.p(70) { r.n(0x80) as u32 } else { r.n(0x110000) as u32 }) { s.push(ch) },
            2 => { let mut t = vec![]; g::edit_tokens(&mut t, r); s.push_str(&t.join(" ")); s.push_str(r.ps(&[" ", "", "\n", ","])) }
            _ => { s = g::edit_text(&s, r); if r.p(50) { let mut t = vec![]; g::edit_tokens(&mut t, r); s.push_str(&t.join(" ")) } }
        }
    }
    s
}
/// unfinished or over-long lexical elements and deep brackets
pub fn hard(r: &mut Rng) -> String {
    let k = *r.pick(&[1usize, 2, 7, 30, 80, DEEP - 5]);
    let open = |a: &str, b: &str| format!("{}{}", a.repeat(k), b);
    match r.n(16) {
        0 => open("{a", " b"), 1 => format!("{}{}", "{a".repeat(k), "}".repeat(k)), 2 => format!("query(${}", "a:[".repeat(k)), 3 => format!("query($a:{}Int{}){{a}}", "[".repeat(k), "]".repeat(k)),
        4 => format!("{{a(b:{}1{})}}", "[".repeat(k), "]".repeat(k)), 5 => format!("{{a(b:{}1{})}}", "{c:".repeat(k), "}".repeat(k)), 6 => format!("{{{}a{}}}", "...{".repeat(k), "}".repeat(k)),
        7 => format!("type Query{{a:{}Int{}}}", "[".repeat(k), "]!".repeat(k)), 8 => format!("type Query{{a(b:Int={}1{}):Int}}", "[".repeat(k), "]".repeat(k)),
        9 => open("\"", ""), 10 => open("\"\"\"", "x"), 11 => format!("{{a(b:{})}}", "9".repeat(k * 50)), 12 => format!("{{a(b:1e{})}}", "9".repeat(k)), 13 => format!("{{{}}}", "a".repeat(k * 100)),
        14 => format!("#{}\n{{a}}", "#".repeat(k * 40)), _ => format!("{{a(b:\"{}\")}}", r.ps(&["\\u", "\\uD83D", "\\uDE00", "\\uD83D\\u", "\\\\", "\\\"", "\\u00", "\\uD83D\\uDE00"]).repeat(k)),
    }
}
/// very wide, not deep
fn wide(r: &mut Rng, n: usize) -> String {
    let rep = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(" ");
    match r.n(13) {
        0 => format!("{{{}}}", rep(&|i| format!("f{i}"))), 1 => format!("{{f({})}}", rep(&|i| format!("a{i}:{i}"))), 2 => format!("{{f(a:[{}])}}", rep(&|i| format!("{i}"))), 3 => format!("{{f(a:{{{}}})}}", rep(&|i| format!("k{i}:\"v\""))),
        4 => rep(&|i| format!("query Q{i}{{a}}")), 5 => format!("{{...F0}} {}", rep(&|i| format!("fragment F{i} on Query{{a}}"))), 6 => format!("query({}){{a}}", rep(&|i| format!("$v{i}:Int=1"))), 7 => format!("{{a {}}}", rep(&|i| format!("@d{i}"))),
        8 => format!("type Query{{{}}}", rep(&|i| format!("f{i}:T{i}"))), 9 => format!("type Query{{a:E}} enum E{{{}}}", rep(&|i| format!("V{i}"))), 10 => format!("type Query{{a:Int}} {}", rep(&|i| format!("input I{i}{{a:I{}}}", (i + 1) % n))),
        11 => format!("type Query{{a:Int}} {}", rep(&|i| format!("interface I{i} implements I{}{{a:Int}}", (i + 1) % n))), _ => format!("type Query{{a:U}} union U={}", rep(&|i| format!("|T{i}"))),
    }
}

// ---- stages ----
fn errors(c: &mut Ctx, what: &str, text: &str, make: &dyn Fn() -> Vec<PErr>) {
    let n = c.sut(&format!("report {what}"), || text.to_string(), || {
        let n = make().len();
        for e in make() { assert!(!e.message().is_empty(), "an error has no message"); }
        let g = PErr::into_graphql_errors(text, make());
        let short = text.len() < 20_000 && n < 50;
        let f = if short || n < 3 { PErr::format_errors(text, None, make()) } else { "-".into() };
        (n, g.len(), f.len())
    });
    if let Some((n, gq, f)) = n { if n == 0 || gq == 0 || f == 0 { c.fail("no-error", format!("{what}: refused with {n} errors, converted to {gq}, rendered as {f} bytes\n{text}")) } c.add("errors", n as u64) }
}
/// the text as every kind of thing that can be parsed
fn parse_all(c: &mut Ctx, text: &str) {
    c.eval(!text.trim().is_empty(), text); c.obs("texts");
    for ruby in [false, true] {
        let opt = || ParseOptions { graphql_ruby_compatibility: ruby };
        let Some(r) = c.sut("parse executable", || text.to_string(), || ExecutableDocument::parse_with_options(text, opt())) else { return };
        match r {
            Ok(d) => { c.obs("parsed-executable"); c.sut("print executable", || text.to_string(), || { let m = bj::doc(&d); let p = ExecutableDocumentPrinter::to_string(&d); (m.ops.len(), p.len()) }); }
            Err(_) => errors(c, "executable", text, &|| ExecutableDocument::parse_with_options(text, opt()).err().map(|e| e.into_iter().collect()).unwrap_or_default()),
        }
        let Some(r) = c.sut("parse definition", || text.to_string(), || DDoc::parse_with_options(text, opt())) else { return };
        match r {
            Ok(d) => { c.obs("parsed-definition"); build(c, text, &d) }
            Err(_) => errors(c, "definition", text, &|| DDoc::parse_with_options(text, opt()).err().map(|e| e.into_iter().collect()).unwrap_or_default()),
        }
    }
    let Some(r) = c.sut("parse value", || text.to_string(), || (VariableValue::parse(text), Value::<true>::parse(text))) else { return };
    for (i, ok) in [r.0.is_ok(), r.1.is_ok()].iter().enumerate() {
        if *ok { c.obs("parsed-value"); c.sut("print value", || text.to_string(), || if i == 0 { ValuePrinter::to_string(r.0.as_ref().unwrap()).len() } else { ValuePrinter::to_string(r.1.as_ref().unwrap()).len() }); }
        else { errors(c, "value", text, &|| if i == 0 { VariableValue::parse(text).err().map(|e| e.into_iter().collect()).unwrap_or_default() } else { Value::<true>::parse(text).err().map(|e| e.into_iter().collect()).unwrap_or_default() }) }
    }
}
fn build(c: &mut Ctx, text: &str, d: &DDoc) {
    let Some(r) = c.sut("build schema", || text.to_string(), || Schema::try_from(d)) else { return };
    match r {
        Ok(s) => { c.obs("schemas"); schema(c, text, &s) }
        Err(_) => { c.obs("refused-schemas"); errors(c, "schema", text, &|| Schema::try_from(d).err().map(|e| e.into_iter().map(PErr::from).collect()).unwrap_or_default()) }
    }
}
fn walk<S: SchemaDefinition>(s: &S) -> usize { let d = deep::check(s); let v = bj::view(s, true); d.refs as usize + v.types.len() }
/// everything that can be done with one schema
fn schema(c: &mut Ctx, text: &str, s: &Schema) {
    c.sut("walk schema", || text.to_string(), || walk(s));
    let p = c.sut("print schema", || text.to_string(), || SchemaDefinitionPrinter::to_string(s));
    if let Some(p) = p { if p.len() < 50_000 { c.sut("parse printed schema", || p.clone(), || DDoc::parse(&p).map(|d| Schema::try_from(&d).is_ok()).unwrap_or(false)); } }
    c.sut("compare", || text.to_string(), || { let r = bluejay_schema_comparator::compare(s, s); r.changes.iter().map(|x| x.message().len() + x.path().len()).sum::<usize>() });
    c.sut("definition rules", || text.to_string(), || if let Ok(d) = DefinitionDocument::<DefaultContext>::parse(text) { if let Ok(s) = PSchema::try_from(&d) {
        let n = DefRules::validate(&s).count();
        let e: Vec<PErr> = DefRules::validate(&s).map(PErr::from).collect();
        assert_eq!(n, e.len());
        if n < 50 { PErr::format_errors(text, Some("x"), e); }
        c_n(n)
    } else { 0 } } else { 0 });
    for _ in 0..2 {
        let coin = crate::coin::Coin { seed: c.rng.u64(), rate: *c.rng.pick(&[0, 3, 10, 30, 60, 95]) };
        let tag = format!("{} {}", coin.seed, coin.rate);
        let cache = bv::Cache::new(CoinWarden::of(coin), s);
        let Some(v) = c.sut("filter", || format!("{tag}\n{text}"), || bv::SchemaDefinition::new(&cache)) else { return };
        let Ok(v) = v else { c.obs("no-view"); continue };
        c.obs("views");
        c.sut("walk view", || format!("{tag}\n{text}"), || (walk(&v), SchemaDefinitionPrinter::to_string(&v).len(), bluejay_schema_comparator::compare(&v, &v).changes.len()));
    }
}
fn c_n(n: usize) -> usize { n }

/// everything that can be done with one document and one schema, valid or not
fn document(c: &mut Ctx, sdl: &str, s: &Schema, doc: &str, vars: &Payload) {
    let inp = || format!("{doc}\n--- variables\n{}\n--- schema\n{sdl}", J::Object(vars.clone()));
    let Some(d) = c.sut("parse executable", inp, || ExecutableDocument::parse(doc)) else { return };
    let Ok(d) = d else { return parse_all(c, doc) };
    c.eval(true, &format!("{doc}{sdl}")); c.obs("documents");
    c.sut("print executable", inp, || { let p = ExecutableDocumentPrinter::to_string(&d); if p.len() < 50_000 { ExecutableDocument::parse(&p).is_ok() } else { true } });
    let cache = match c.sut("cache", inp, || Cache::new(&d, s)) { Some(x) => x, None => return };
    let Some(n) = c.sut("validate", inp, || BuiltinRulesValidator::validate(&d, s, &cache).count()) else { return };
    c.obs(if n == 0 { "valid-documents" } else { "invalid-documents" });
    if n > 0 { errors(c, "validation", doc, &|| BuiltinRulesValidator::validate(&d, s, &cache).map(PErr::from).collect()) }
    c.sut("analyze document", inp, || (DocOrch::<_, _, crate::props::trav::Log>::analyze(&d, s, &cache).ev.len(), DocOrch::<_, _, (BuiltinRules<_, _>, crate::props::trav::Log)>::validate_and_analyze(&d, s, &cache).1.ev.len()));
    let mut names: Vec<Option<String>> = d.operation_definitions().iter().map(|o| o.as_ref().name().map(str::to_string)).take(3).collect();
    names.push(None); names.push(Some("Nope".into())); names.dedup();
    for nm in &names {
        let max = *c.rng.pick(&[0usize, 1, 50]);
        let Some(a) = c.sut("analyze", inp, || alone(s, doc, nm.as_deref(), vars, max)) else { return };
        let how = c.rng.n(4);
        let Some(b) = c.sut("analyze together", inp, || together(s, doc, nm.as_deref(), vars, max, how)) else { return };
        c.obs(if a.is_ok() { "analysed" } else { "not-analysed" });
        if a.is_ok() != b.is_ok() { c.fail("analyses", format!("alone: {a:?}\ntogether: {b:?}\n{}", inp())) }
    }
    let coin = crate::coin::Coin { seed: c.rng.u64(), rate: *c.rng.pick(&[0, 3, 10, 30]) };
    let vc = bv::Cache::new(CoinWarden::of(coin), s);
    if let Some(Ok(v)) = c.sut("filter", inp, || bv::SchemaDefinition::new(&vc)) {
        c.sut("validate against a view", inp, || { let k = Cache::new(&d, &v); BuiltinRulesValidator::validate(&d, &v, &k).map(|e| PErr::from(e).message().len()).sum::<usize>() });
    }
}
fn wild_json(r: &mut Rng, d: usize) -> J {
    match r.n(if d == 0 { 9 } else { 13 }) {
        0 => J::Null, 1 => json!(r.p(50)), 2 => json!(g::int(r)), 3 => json!(u64::MAX), 4 => json!(i64::MIN), 5 => json!(*r.pick(&[1.5f64, 1e308, -0.0, 4e9, 2147483648.0, 5e-324])), 6 | 7 => json!(g::string(r)), 8 => json!(*r.pick(&["", "A", "RED", "1", "true"])),
        9 | 10 => J::Array((0..r.n(4)).map(|_| wild_json(r, d - 1)).collect()),
        _ => { let n = r.n(4); J::Object((0..n).map(|_| (if r.p(50) { r.ps(&["a", "id", "name", "in", "k", "first"]).to_string() } else { g::name(r) }, wild_json(r, d - 1))).collect()) }
    }
}

pub fn c04(c: &mut Ctx) {
    match c.rng.n(10) {
        0 => { for _ in 0..12 { let t = soup(&mut c.rng); if nesting(&t) <= DEEP { parse_all(c, &t) } } }
        1 => { for _ in 0..6 { let mut t = hard(&mut c.rng); if c.rng.p(30) { t = g::edit_text(&t, &mut c.rng) } if nesting(&t) <= DEEP { c.obs(if nesting(&t) > 50 { "deep" } else { "hard" }); parse_all(c, &t) } } }
        2 => { // edited texts
            let schema = c.rng.p(50);
            let r2 = c.rng.fork(); let mut e = Emit::new(Some(r2));
            if schema { let d = g::sdoc(&mut c.rng); e.sdoc(&d) } else { let d = g::doc(&mut c.rng, c.size); e.doc(&d) }
            for _ in 0..4 {
                let mut t = e.t.clone();
                for _ in 0..c.rng.n(4) { g::edit_tokens(&mut t, &mut c.rng); }
                let (mut x, _) = layout(&t, &mut c.rng);
                for _ in 0..c.rng.n(3) { x = g::edit_text(&x, &mut c.rng) }
                if nesting(&x) <= DEEP { parse_all(c, &x) }
            }
        }
        3 if c.rng.p(6) => { let n = *c.rng.pick(&[200usize, 700]); let t = wide(&mut c.rng, n); c.obs("wide"); parse_all(c, &t); with(c, "type Query { a(b: Int, c: [Int!]): Int f(a: [Int]): Query }", &[t]) }
        _ => semantic(c),
    }
}
fn with(c: &mut Ctx, sdl: &str, docs: &[String]) {
    let Ok(d) = DDoc::parse(sdl) else { return };
    let Some(Ok(s)) = c.sut("build schema", || sdl.to_string(), || Schema::try_from(&d)) else { return };
    for t in docs { document(c, sdl, &s, t, &Payload::new()) }
}
/// a schema with broken content, what becomes of it, and documents against it
fn semantic(c: &mut Ctx) {
    let gs = GS { dirs: 25, cost: *c.rng.pick(&[0, 30]), wild_strings: c.rng.p(30), ..GS::default() };
    let mut sd = genschema::schema(&mut c.rng, &gs); if c.rng.n(150) == 0 { let n = *c.rng.pick(&[20usize, 70, 150]); genschema::crowd(&mut sd, &mut c.rng, n); c.obs("crowded") }
    let good = RS::new(&sd);
    if c.rng.p(50) { schedit::wild(&mut sd, &mut c.rng) }
    for _ in 0..*c.rng.pick(&[0usize, 0, 0, 1, 3]) { schedit::break_one(&mut sd, &mut c.rng); }
    let mut e = Emit::new(None); e.sdoc(&sd);
    let words: Vec<String> = e.t.iter().filter(|t| is_name(t)).cloned().collect();
    let n = *c.rng.pick(&[0usize, 0, 1, 1, 2, 4, 20]); confuse(&mut e.t, &mut c.rng, &[], n);
    let sdl = plain(&e.t);
    let Some(d) = c.sut("parse definition", || sdl.clone(), || DDoc::parse(&sdl)) else { return };
    let Ok(d) = d else { return parse_all(c, &sdl) };
    c.eval(true, &sdl); c.obs("schema-texts");
    let Some(s) = c.sut("build schema", || sdl.clone(), || Schema::try_from(&d)) else { return };
    let Ok(s) = s else { c.obs("refused-schemas"); return errors(c, "schema", &sdl, &|| Schema::try_from(&d).err().map(|e| e.into_iter().map(PErr::from).collect()).unwrap_or_default()) };
    c.obs("schemas");
    if n > 0 { c.obs("broken-schemas") }
    c.sample(|| json!({"schema": sdl}));
    schema(c, &sdl, &s);
    // against another schema
    let mut other = sd.clone(); for _ in 0..*c.rng.pick(&[0usize, 0, 0, 1]) { schedit::break_one(&mut other, &mut c.rng); }
    let mut e2 = Emit::new(None); e2.sdoc(&other); let n2 = *c.rng.pick(&[0usize, 1, 2, 4]); confuse(&mut e2.t, &mut c.rng, &words, n2);
    let t2 = plain(&e2.t);
    if let Ok(d2) = DDoc::parse(&t2) { if let Some(Ok(s2)) = c.sut("build schema", || t2.clone(), || Schema::try_from(&d2)) {
        c.obs("compared");
        c.sut("compare", || format!("{sdl}\n--- and\n{t2}"), || { let mut n = 0; for (a, b) in [(&s, &s2), (&s2, &s)] { let r = bluejay_schema_comparator::compare(a, b); n += r.changes.iter().map(|x| x.message().len() + x.path().len() + x.breaking() as usize + x.criticality().reason().len()).sum::<usize>() } n });
    } }
    for _ in 0..5 {
        let depth = c.rng.r(1, 5); let mut dc = gendoc::doc(&mut c.rng, &good, &GD { depth, ..GD::default() });
        let mut vars = dc.ops.first().map(|o| payload(&mut c.rng, &good, o)).unwrap_or_default();
        for _ in 0..*c.rng.pick(&[0usize, 0, 1, 2, 6]) { gendoc::mutate(&mut c.rng, &good, &mut dc); }
        for o in &dc.ops { for v in &o.vars { if c.rng.p(30) { let x = wild_json(&mut c.rng, 3); vars.insert(v.name.clone(), x); } } }
        if c.rng.p(10) { vars.insert("nope".into(), J::Null); }
        let mut e = Emit::new(None); e.doc(&dc);
        let n = *c.rng.pick(&[0usize, 1, 1, 3, 10, 40]); confuse(&mut e.t, &mut c.rng, &words, n);
        let t = plain(&e.t);
        if nesting(&t) > DEEP { continue }
        document(c, &sdl, &s, &t, &vars);
    }
}
/// processor time of this thread, in nanoseconds
fn cpu() -> u64 { std::fs::read_to_string("/proc/thread-self/schedstat").ok().and_then(|s| s.split(' ').next().and_then(|x| x.parse().ok())).unwrap_or_else(|| std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as u64) }
/// Work on a family of texts must not multiply with every few elements that are added. `f` does the work on the n-th text.
fn growth(c: &mut Ctx, sig: &str, family: &str, top: usize, f: &dyn Fn(usize)) {
    let mut before = u64::MAX;
    let mut n = 4;
    while n <= top {
        // the least of three, so that a disturbance does not count
        let mut t = u64::MAX;
        for k in 0..3 {
            let t0 = cpu();
            if c.sut(&format!("growth {family}"), || format!("{n} elements"), || f(n)).is_none() { return }
            t = t.min(cpu().saturating_sub(t0).max(1));
            if t < 20_000_000 || (k == 0 && t > 2_000_000_000) { break }
        }
        c.obs("growth-steps");
        if t > 20_000_000 && before != u64::MAX && t / before.max(20_000) >= 9 { return c.fail(sig, format!("{family}: {} elements take {} microseconds, {n} elements take {} microseconds", n - 4, before / 1000, t / 1000)) }
        before = t; n += 4;
    }
}
fn growths(c: &mut Ctx) {
    let ns = |lo: usize, n: usize, f: &dyn Fn(usize) -> String| (lo..n).map(f).collect::<Vec<_>>().join(" ");
    let spreads = |lo: usize, n: usize| ns(lo, n, &|j| format!("...F{j}"));
    let docs: Vec<(&str, Box<dyn Fn(usize) -> String>, bool)> = vec![
        ("fragments spread twice", Box::new(move |n| format!("{} fragment F{n} on Query{{a}}", ns(0, n, &|i| format!("fragment F{i} on Query{{a ...F{j} ...F{j}}}", j = i + 1)))), true),
        ("fragments spread under two names", Box::new(move |n| format!("{} fragment F{n} on Query{{a}}", ns(0, n, &|i| format!("fragment F{i} on Query{{x:f{{...F{j}}} y:f{{...F{j}}}}}", j = i + 1)))), true),
        ("fragments spread twice under one name", Box::new(move |n| format!("{} fragment F{n} on Query{{a}}", ns(0, n, &|i| format!("fragment F{i} on Query{{f{{...F{j}}} f{{...F{j}}}}}", j = i + 1)))), true),
        ("fragments spread twice under each of two names", Box::new(move |n| format!("{} fragment F{n} on Query{{a}}", ns(0, n, &|i| format!("fragment F{i} on Query{{x:f{{...F{j}}} x:f{{...F{j}}} y:f{{...F{j}}} y:f{{...F{j}}}}}", j = i + 1)))), true),
        ("fragments spread in inline fragments", Box::new(move |n| format!("{} fragment F{n} on Query{{a}}", ns(0, n, &|i| format!("fragment F{i} on Query{{...{{...F{j}}} ...on Query{{...F{j}}}}}", j = i + 1)))), true),
        ("differing arguments under fragments", Box::new(move |n| format!("{} fragment F{n} on Query{{a}}", ns(0, n, &|i| format!("fragment F{i} on Query{{g(x:1){{...F{j}}} g(x:2){{...F{j}}}}}", j = i + 1)))), true),
        ("fragments that spread all later ones", Box::new(move |n| ns(0, n + 1, &|i| format!("fragment F{i} on Query{{a {}}}", spreads(i + 1, n + 1)))), true),
        ("fragments that spread each other", Box::new(move |n| ns(0, n + 1, &|i| format!("fragment F{i} on Query{{a {}}}", spreads(0, n + 1)))), true),
        ("fragments that spread each other under fields", Box::new(move |n| ns(0, n + 1, &|i| format!("fragment F{i} on Query{{a {}}}", ns(0, n + 1, &|j| format!("x{j}:f{{...F{j}}}"))))), true),
        ("fragments that use variables along many paths", Box::new(move |n| format!("query Q($v:Int){{...F0}} {}", ns(0, n + 1, &|i| format!("fragment F{i} on Query{{z{i}:g(x:$v){{a}} {}}}", spreads(i + 1, n + 1))))), true),
        ("nested fields", Box::new(|n| format!("fragment F0 on Query{{{}a{}}}", "f{a ".repeat(n), " a} f{a}".repeat(n))), false),
        ("nested inline fragments", Box::new(|n| format!("fragment F0 on Query{{{}a{}}}", "...{a ...on Query{a} ".repeat(n), " a}".repeat(n))), false),
        ("operations", Box::new(move |n| format!("fragment F0 on Query{{a}} {}", ns(0, n * 5, &|i| format!("query Q{i}{{...F0 ...F0}}")))), false),
        ("nested input", Box::new(|n| format!("fragment F0 on Query{{b(i:{}{{}}{})}}", "{i:".repeat(n), "}".repeat(n))), false),
        ("repeated fields", Box::new(|n| format!("fragment F0 on Query{{{}}}", "f{f{a a} f{a a}} ".repeat(n * 4))), false),
    ];
    let sdl = "type Query{a:Int f:Query g(x:Int):Query b(i:I):Int} input I{i:I j:[I]}";
    let d = DDoc::parse(sdl).unwrap();
    let Ok(s) = Schema::try_from(&d) else { return };
    for (family, mk, spread) in &docs {
        let text = |n: usize| format!("{{...F0}} {}", mk(n));
        growth(c, "growth:parse", family, 24, &|n| { let t = text(n); let d = ExecutableDocument::parse(&t).unwrap(); ExecutableDocumentPrinter::to_string(&d); });
        growth(c, "growth:validate", family, 24, &|n| { let t = text(n); let d = ExecutableDocument::parse(&t).unwrap(); let k = Cache::new(&d, &s); BuiltinRulesValidator::validate(&d, &s, &k).count(); });
        growth(c, if *spread { "probe:analysis-paths" } else { "growth:analyze" }, family, 24, &|n| { let t = text(n); let _ = alone(&s, &t, None, &Payload::new(), 10); });
    }
    let sdls: Vec<(&str, Box<dyn Fn(usize) -> String>)> = vec![
        ("input objects that require the next twice", Box::new(move |n| format!("type Query{{a(x:I0):Int}} {} input I{n}{{z:Int}}", ns(0, n, &|i| format!("input I{i}{{a:I{j}! b:I{j}!}}", j = i + 1))))),
        ("input objects that require all later ones", Box::new(move |n| format!("type Query{{a(x:I0):Int}} {} input I{n}{{z:Int}}", ns(0, n, &|i| format!("input I{i}{{{}}}", ns(i + 1, n + 1, &|j| format!("f{j}:I{j}!"))))))),
        ("input objects that require each other", Box::new(move |n| format!("type Query{{a(x:I0):Int}} {}", ns(0, n, &|i| format!("input I{i}{{{}}}", ns(0, n, &|j| format!("f{j}:I{j}!"))))))),
        ("input objects that allow each other", Box::new(move |n| format!("type Query{{a(x:I0):Int}} {}", ns(0, n, &|i| format!("input I{i}{{{}}}", ns(0, n, &|j| format!("f{j}:I{j}"))))))),
        ("types that refer to each other", Box::new(move |n| format!("type Query{{a:T0}} {}", ns(0, n, &|i| format!("type T{i}{{{}}}", ns(0, n, &|j| format!("f{j}:T{j}"))))))),
        ("types that refer to the next twice", Box::new(move |n| format!("type Query{{a:T0}} {} type T{n}{{a:Int}}", ns(0, n, &|i| format!("type T{i}{{a:T{j} b:T{j}}}", j = i + 1))))),
        ("interfaces that implement all before", Box::new(move |n| format!("type Query{{a:I0}} {} type O implements {}{{a:Int}}", ns(0, n, &|i| format!("interface I{i}{}{{a:Int}}", if i == 0 { String::new() } else { format!(" implements {}", (0..i).map(|j| format!("I{j}")).collect::<Vec<_>>().join("&")) })), (0..n).map(|j| format!("I{j}")).collect::<Vec<_>>().join("&")))),
        ("interfaces that implement each other", Box::new(move |n| format!("type Query{{a:I0}} {}", ns(0, n, &|i| format!("interface I{i} implements {}{{a:Int}}", (0..n).filter(|j| *j != i).map(|j| format!("I{j}")).collect::<Vec<_>>().join("&")))))),
        ("directives on the arguments of directives", Box::new(move |n| format!("type Query{{a:Int @d0}} {} directive @d{n}(a:Int) on ARGUMENT_DEFINITION", ns(0, n, &|i| format!("directive @d{i}(a:Int @d{j} b:Int @d{j}) on ARGUMENT_DEFINITION|FIELD_DEFINITION", j = i + 1))))),
        ("unions and members that refer to each other", Box::new(move |n| format!("type Query{{a:U0}} {}", ns(0, n, &|i| format!("type T{i}{{{}}} union U{i}={}", ns(0, n, &|j| format!("f{j}:U{j}")), (0..n).map(|j| format!("T{j}")).collect::<Vec<_>>().join("|")))))),
        ("unresolved references", Box::new(move |n| format!("type Query{{a:T0}} {}", ns(0, n * 4, &|i| format!("type T{i} implements X{i}{{a:Y{i} b(c:Z{i}):Int}}"))))),
    ];
    for (family, mk) in &sdls {
        growth(c, "growth:schema", family, 24, &|n| {
            let t = mk(n); let d = DDoc::parse(&t).unwrap();
            match Schema::try_from(&d) {
                Ok(s) => { SchemaDefinitionPrinter::to_string(&s); bluejay_schema_comparator::compare(&s, &s); let k: bv::Cache<'_, Schema<'_>, bv::NullWarden<Schema<'_>>> = bv::Cache::new(Default::default(), &s); if let Ok(v) = bv::SchemaDefinition::new(&k) { walk(&v); } }
                Err(e) => { PErr::into_graphql_errors(&t, e); }
            }
        });
        growth(c, "growth:definition-rules", family, 24, &|n| { let t = mk(n); let d = DefinitionDocument::<DefaultContext>::parse(&t).unwrap(); if let Ok(s) = PSchema::try_from(&d) { DefRules::validate(&s).count(); } });
    }
}
pub fn c04_probes(c: &mut Ctx) {
    growths(c);
    // one pass over every wide and deep shape, at full size
    for n in [3000usize] { for _ in 0..26 { let t = wide(&mut c.rng, n); c.obs("wide"); parse_all(c, &t) } }
    with(c, "type Query { a(b: Int, c: [Int!]): Int f(a: [Int]): Query }", &[
        format!("{{{}}}", (0..1500).map(|i| format!("k{i}:a ")).collect::<String>()), format!("{{f(a:[{}]){{a}}}}", "1 ".repeat(20000)),
        format!("{{{}a{}}}", "f{".repeat(DEEP), "}".repeat(DEEP)), format!("{{{}a{}}}", "...{".repeat(DEEP), "}".repeat(DEEP)),
        format!("{{...F0}} {}", (0..300).map(|i| format!("fragment F{i} on Query{{a f{{...F{}}}}}", (i + 1) % 300)).collect::<String>()),
        format!("{{...F0}} {}fragment F300 on Query{{a}}", (0..300).map(|i| format!("fragment F{i} on Query{{a f{{...F{}}}}}", i + 1)).collect::<String>()),
    ]);
}
