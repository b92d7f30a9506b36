//! C23: schema definition rules against a reference judgement.
use crate::rng::Rng;
use crate::run::Ctx;
use bluejay_core::definition::{self as cd, prelude::*, SchemaDefinition, TypeDefinitionReference as TR};
use bluejay_core::AsIter;
use bluejay_parser::ast::definition::{DefaultContext, DefinitionDocument, SchemaDefinition as PS};
use bluejay_parser::ast::Parse;
use bluejay_parser::Error as PErr;
use bluejay_validator::definition::{BuiltinRulesValidator, Error};
use bluejay_visibility::{self as bv, Cache, NullWarden};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

fn p<T>(x: &T) -> usize { x as *const T as *const () as usize }

#[derive(Clone, Debug)]
struct In { name: String, line: usize, fields: Vec<(String, String, usize)> } // name, type, line
#[derive(Clone, Debug)]
struct En { name: String, values: Vec<(String, usize)> }
#[derive(Clone, Debug, Default)]
struct M { ins: Vec<In>, ens: Vec<En>, text: String }

fn gen(r: &mut Rng) -> M {
    let style = r.n(6);
    let n = match style { 0 => r.r(1, 3), 5 => r.r(10, 40), _ => r.r(2, 9) };
    let ne = r.r(1, 4);
    let pre = r.ps(&["T", "Inp", "T1", "_", "é_no"]).replace('é', "E");
    let name = |i: usize| format!("{pre}{i}");
    // how readily a field requires another input object
    let (refs, req) = match style { 1 => (80, 30), 2 => (40, 90), 3 => (90, 60), 5 => (50, 60), _ => (60, 55) };
    let dup = *r.pick(&[0, 0, 10, 40]);
    let mut ins: Vec<In> = (0..n).map(|i| In { name: name(i), line: 0, fields: vec![] }).collect();
    let ring = r.p(40); let len = r.r(1, n);
    for i in 0..n {
        let k = r.r(1, 5);
        for j in 0..k {
            let b = if r.p(refs) { let t = r.n(n); name(t) } else { r.ps(&["Int", "String", "E0", "Blob", "ID"]).to_string() };
            let t = match r.n(10) { 0 => format!("[{b}]"), 1 => format!("[{b}!]!"), 2 => format!("[[{b}!]!]!"), 3 => format!("[{b}!]"), _ => if r.p(req) { format!("{b}!") } else { b } };
            let f = if !ins[i].fields.is_empty() && r.p(dup) { let z = r.n(ins[i].fields.len()); ins[i].fields[z].0.clone() } else { format!("{}{j}", r.ps(&["f", "g", "f1"])) };
            let at = r.n(ins[i].fields.len() + 1);
            ins[i].fields.insert(at, (f, t, 0));
        }
    }
    if ring { for i in 0..len { let b = name((i + 1) % len); let q = if r.p(60) { 1 } else { 4 }; let t = match r.n(q) { 0 => format!("{b}!"), 1 => b, 2 => format!("[{b}!]!"), _ => format!("{b}!") }; let at = r.n(ins[i].fields.len() + 1); ins[i].fields.insert(at, ("ring".into(), t, 0)); } }
    let mut ens: Vec<En> = (0..ne).map(|i| { let k = r.r(1, 6); let mut v: Vec<(String, usize)> = vec![]; for j in 0..k { let x = if !v.is_empty() && r.p(dup) { let z = r.n(v.len()); v[z].0.clone() } else { format!("{}{j}", r.ps(&["A", "a", "A1"])) }; v.push((x, 0)) } En { name: format!("E{i}"), values: v } }).collect();
    // an enum sharing value names with another is fine
    if ens.len() > 1 && r.p(30) { ens[1].values = ens[0].values.iter().take(2).cloned().collect() }
    // text, one element per line
    let mut order: Vec<usize> = (0..n + ne + 3).collect(); r.shuffle(&mut order);
    let mut text = String::new(); let mut line = 1;
    let mut put = |s: String, line: &mut usize| { text.push_str(&s); text.push('\n'); *line += 1; };
    for o in order {
        if o < n {
            let t = &mut ins[o];
            if r.p(20) { put("# a comment, {T0! T1!}".into(), &mut line) }
            t.line = line;
            put(format!("input {}{} {{", t.name, if r.p(6) { " @oneOf" } else { "" }), &mut line);
            for f in &mut t.fields { f.2 = line; put(format!("  {}: {}", f.0, f.1), &mut line) }
            put("}".into(), &mut line);
        } else if o < n + ne {
            let t = &mut ens[o - n];
            put(format!("enum {} {{", t.name), &mut line);
            for f in &mut t.values { f.1 = line; put(format!("  {}{}", f.0, if r.p(10) { " @deprecated" } else { "" }), &mut line) }
            put("}".into(), &mut line);
        } else if o == n + ne { let a = r.n(n); put(format!("type Query {{ a(x: {}!, y: Int): E0 }}", name(a)), &mut line) }
        else if o == n + ne + 1 { put("scalar Blob".into(), &mut line) }
        else { let a = r.n(n); put(format!("directive @d(x: {}!) on FIELD", name(a)), &mut line) }
    }
    M { ins, ens, text }
}

/// One line per error, with the elements it must name.
fn want(m: &M, keep: &dyn Fn(&str) -> bool) -> Vec<String> {
    let mut out = vec![];
    for e in &m.ens { if !keep(&e.name) { continue } let mut g: BTreeMap<&str, Vec<usize>> = BTreeMap::new(); for v in &e.values { g.entry(&v.0).or_default().push(v.1) } for (n, l) in g { if l.len() > 1 { out.push(format!("value {n} at {l:?}")) } } }
    for e in &m.ins { if !keep(&e.name) { continue } let mut g: BTreeMap<&str, Vec<usize>> = BTreeMap::new(); for v in &e.fields { g.entry(&v.0).or_default().push(v.2) } for (n, l) in g { if l.len() > 1 { out.push(format!("field {n} at {l:?}")) } } }
    let req = |t: &str| -> Option<String> { t.strip_suffix('!').filter(|b| !b.starts_with('[')).map(str::to_string) };
    let idx: BTreeMap<&str, usize> = m.ins.iter().enumerate().map(|(i, t)| (t.name.as_str(), i)).collect();
    for (i, t) in m.ins.iter().enumerate() {
        if !keep(&t.name) { continue }
        let mut seen: BTreeSet<usize> = [i].into(); let mut todo = vec![i]; let mut hits = vec![];
        while let Some(k) = todo.pop() {
            for f in &m.ins[k].fields { if let Some(b) = req(&f.1) { if let Some(&j) = idx.get(b.as_str()) { if j == i { hits.push(f.2) } else if seen.insert(j) { todo.push(j) } } } }
        }
        hits.sort();
        if !hits.is_empty() { out.push(format!("cycle {} at {} through {hits:?}", t.name, t.line)) }
    }
    out.sort(); out
}
fn reported<S: SchemaDefinition>(s: &S, m: &M) -> Vec<String> {
    let mut at: BTreeMap<usize, usize> = BTreeMap::new(); // address of an element of the view -> line
    for t in s.type_definitions() {
        match t {
            TR::Enum(e) => if let Some(x) = m.ens.iter().find(|x| x.name == e.name()) { for (a, b) in e.enum_value_definitions().iter().zip(&x.values) { at.insert(p(a), b.1); } },
            TR::InputObject(e) => if let Some(x) = m.ins.iter().find(|x| x.name == e.name()) { for (a, b) in e.input_field_definitions().iter().zip(&x.fields) { at.insert(p(a), b.2); at.insert(p(a.r#type()) ^ 1 << 63, b.2); } },
            _ => {}
        }
    }
    let l = |x: usize| at.get(&x).copied().unwrap_or(0);
    let mut out: Vec<String> = BuiltinRulesValidator::validate(s).map(|e| match e {
        Error::NonUniqueEnumValueDefinitionNames { name, enum_value_definitions: v } => format!("value {name} at {:?}", v.iter().map(|x| l(p(*x))).collect::<Vec<_>>()),
        Error::NonUniqueInputValueDefinitionNames { name, input_value_definitions: v } => format!("field {name} at {:?}", v.iter().map(|x| l(p(*x))).collect::<Vec<_>>()),
        Error::InputObjectTypeDefinitionCircularReferences { input_object_type_definition: t, circular_references: c } => { let n = cd::InputObjectTypeDefinition::name(t); let mut h: Vec<usize> = c.iter().map(|x| l(p(*x) ^ 1 << 63)).collect(); h.sort(); format!("cycle {n} at {} through {h:?}", m.ins.iter().find(|x| x.name == n).map_or(0, |x| x.line)) }
    }).collect();
    out.sort(); out
}

pub fn c23(c: &mut Ctx) {
    for _ in 0..4 {
        let m = gen(&mut c.rng);
        let d: DefinitionDocument<DefaultContext> = match DefinitionDocument::parse(m.text.as_str()) { Ok(d) => d, Err(e) => { c.fail("schema", format!("{:?}\n{}", e.first(), m.text)); return } };
        let Some(s) = c.sut("build", || m.text.clone(), || PS::try_from(&d).ok()) else { return };
        let Some(s) = s else { c.fail("schema", format!("does not build\n{}", m.text)); return };
        let w = want(&m, &|_| true);
        let Some(g) = c.sut("validate", || m.text.clone(), || reported(&s, &m)) else { return };
        c.eval(true, &m.text);
        c.sample(|| json!({"schema": m.text, "violations": w}));
        c.obs(if w.is_empty() { "sound" } else { "broken" });
        for x in &w { c.obs(&format!("rule:{}", x.split(' ').next().unwrap())); if x.starts_with("cycle") && x.contains(", ") { c.obs("cycle:several-references") } }
        if g != w {
            let miss: Vec<_> = w.iter().filter(|x| !g.contains(x)).collect(); let extra: Vec<_> = g.iter().filter(|x| !w.contains(x)).collect();
            return c.fail("rules", format!("missed {miss:?}\nspurious {extra:?}\n(numbers are lines)\n{}", numbered(&m.text)))
        }
        // for a user: a name repeated is reported at each occurrence, a cycle at the input object
        let Some(ge) = c.sut("into_graphql_errors", || m.text.clone(), || PErr::into_graphql_errors(&m.text, BuiltinRulesValidator::validate(&s).collect::<Vec<_>>())) else { return };
        let mut gl: Vec<usize> = ge.iter().flat_map(|e| e.locations.iter().map(|l| l.line)).collect(); gl.sort();
        let mut wl: Vec<usize> = w.iter().flat_map(|x| { let a = x.split(" at ").nth(1).unwrap(); let a = a.split(" through").next().unwrap(); a.trim_matches(|c| c == '[' || c == ']').split(", ").map(|z| z.parse::<usize>().unwrap()).collect::<Vec<_>>() }).collect(); wl.sort();
        if gl != wl { return c.fail("locations", format!("converted errors are located on lines {gl:?}, the offending elements are on {wl:?}\n{ge:?}\n{}", numbered(&m.text))) }
        // and the same through a view that hides nothing, for what is reachable
        let cache: Cache<'_, PS<'_>, NullWarden<PS<'_>>> = Cache::new(NullWarden::default(), &s);
        if let Ok(v) = bv::SchemaDefinition::new(&cache) {
            let reach: BTreeSet<String> = v.type_definitions().map(|t| t.name().to_string()).collect();
            let w = want(&m, &|n| reach.contains(n));
            let Some(g) = c.sut("validate", || m.text.clone(), || reported(&v, &m)) else { return };
            if g != w { return c.fail("rules:view", format!("through a view that hides nothing: {g:?}, should be {w:?}\n{}", numbered(&m.text))) }
            c.obs("view");
        };
    }
}
fn numbered(t: &str) -> String { t.lines().enumerate().map(|(i, l)| format!("{:4} {l}\n", i + 1)).collect() }
