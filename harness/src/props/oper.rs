//! C13-C18: operation analyses against the reference semantics.
use crate::emit::doc_text;
use crate::gendoc::{self, GD};
use crate::genschema::{self, GS};
use crate::model::*;
use crate::props::valid::{ie_kind, kind, on_sdoc, self_check};
use crate::refcoerce::Wrong;
use crate::refoper::{self, Env, Inc, Model, Payload};
use crate::refval;
use crate::rng::Rng;
use crate::rschema::RS;
use crate::run::Ctx;
use crate::sys::{self, Schema};
use bluejay_core::executable as ce;
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::ast::Parse;
use bluejay_validator::executable::document::{BuiltinRules, Orchestrator as DocOrch};
use bluejay_validator::executable::operation::analyzers::complexity_cost::{DefaultCostComputer, RelayCostComputer};
use bluejay_validator::executable::operation::analyzers::{ComplexityCost, Deprecation, InputSize, QueryDepth, VariableValueError, VariableValuesAreValid};
use bluejay_validator::executable::operation::{OperationResolutionError, Orchestrator};
use bluejay_validator::executable::Cache;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};


/// Canonical results of the analyses of one operation.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Out { pub depth: usize, pub cost: usize, pub relay: usize, pub sizes: Vec<(usize, String)>, pub deps: Vec<(String, String, String)>, pub vars: Vec<String> }

macro_rules! c_siz { ($v:expr) => {{ let mut o: Vec<(usize, String)> = $v.into_iter().map(|x| (x.size, x.name)).collect(); o.sort(); o }} }
macro_rules! c_dep { ($v:expr) => {{ let mut o: Vec<(String, String, String)> = $v.into_iter().map(|x| (format!("{:?}", x.offense_type), x.name.to_string(), x.reason.to_string())).collect(); o.sort(); o }} }
macro_rules! c_var { ($v:expr) => {{ let mut o: Vec<String> = $v.iter().map(|x| { assert!(!x.message().is_empty()); match x {
    VariableValueError::MissingValue { variable_definition: d } => format!("missing:{}", ce::VariableDefinition::variable(*d)),
    VariableValueError::InvalidValue { variable_definition: d, errors, .. } => { let mut e: Vec<Wrong> = errors.iter().map(ie_kind).collect(); e.sort(); format!("invalid:{}:{e:?}", ce::VariableDefinition::variable(*d)) }
    VariableValueError::UnusedValue { key, .. } => format!("unused:{key}"),
} }).collect(); o.sort(); o }} }
macro_rules! an { ($A:ty, $d:expr, $s:expr, $n:expr, $v:expr, $c:expr, $x:expr) => { Orchestrator::<_, _, Payload, $A>::analyze($d, $s, $n, $v, $c, $x) } }
macro_rules! Cst { () => { ComplexityCost<_, _, _, DefaultCostComputer> } }
macro_rules! Rly { () => { ComplexityCost<_, _, _, RelayCostComputer<_, _, _>> } }

fn res(e: OperationResolutionError) -> String { assert!(!e.message().is_empty()); match e { OperationResolutionError::NoOperationWithName { name } => format!("no-operation:{name}"), OperationResolutionError::AnonymousNotEligible => "not-eligible".into() } }

/// every analysis alone
pub fn alone(schema: &Schema, text: &str, name: Option<&str>, vars: &Payload, max: usize) -> Result<Out, String> {
    let d = ExecutableDocument::parse(text).map_err(|e| format!("unparseable {:?}", e.first()))?;
    let c = Cache::new(&d, schema);
    Ok(Out {
        depth: an!(QueryDepth, &d, schema, name, vars, &c, ()).map_err(res)?,
        cost: an!(Cst!(), &d, schema, name, vars, &c, ()).map_err(res)?,
        relay: an!(Rly!(), &d, schema, name, vars, &c, ()).map_err(res)?,
        sizes: c_siz!(an!(InputSize<_, _>, &d, schema, name, vars, &c, max).map_err(res)?),
        deps: c_dep!(an!(Deprecation<_, _, _>, &d, schema, name, vars, &c, ()).map_err(res)?),
        vars: c_var!(an!(VariableValuesAreValid<_, _, _>, &d, schema, name, vars, &c, ()).map_err(res)?),
    })
}
/// all at once, in several orders and arities
pub fn together(schema: &Schema, text: &str, name: Option<&str>, vars: &Payload, max: usize, how: usize) -> Result<Out, String> {
    let d = ExecutableDocument::parse(text).map_err(|e| format!("unparseable {:?}", e.first()))?;
    let c = Cache::new(&d, schema);
    Ok(match how {
        0 => { let (a, b, r, s, p, v) = an!((QueryDepth, Cst!(), Rly!(), InputSize<_, _>, Deprecation<_, _, _>, VariableValuesAreValid<_, _, _>), &d, schema, name, vars, &c, ((), (), (), max, (), ())).map_err(res)?; Out { depth: a, cost: b, relay: r, sizes: c_siz!(s), deps: c_dep!(p), vars: c_var!(v) } }
        1 => { let (v, p, s, r, b, a) = an!((VariableValuesAreValid<_, _, _>, Deprecation<_, _, _>, InputSize<_, _>, Rly!(), Cst!(), QueryDepth), &d, schema, name, vars, &c, ((), (), max, (), (), ())).map_err(res)?; Out { depth: a, cost: b, relay: r, sizes: c_siz!(s), deps: c_dep!(p), vars: c_var!(v) } }
        2 => {
            let (r, a) = an!((Rly!(), QueryDepth), &d, schema, name, vars, &c, ((), ())).map_err(res)?;
            let (s, v, b) = an!((InputSize<_, _>, VariableValuesAreValid<_, _, _>, Cst!()), &d, schema, name, vars, &c, (max, (), ())).map_err(res)?;
            let (s2, p) = an!((InputSize<_, _>, Deprecation<_, _, _>), &d, schema, name, vars, &c, (max + 1000, ())).map_err(res)?;
            let s2 = c_siz!(s2); if s2.iter().any(|x| x.0 <= max + 1000) { return Err("the maximum of another analysis is used".into()) }
            Out { depth: a, cost: b, relay: r, sizes: c_siz!(s), deps: c_dep!(p), vars: c_var!(v) }
        }
        _ => {
            let (a, b, s, p, v, r, a2, b2, v2, s2) = an!((QueryDepth, Cst!(), InputSize<_, _>, Deprecation<_, _, _>, VariableValuesAreValid<_, _, _>, Rly!(), QueryDepth, Cst!(), VariableValuesAreValid<_, _, _>, InputSize<_, _>), &d, schema, name, vars, &c, ((), (), max, (), (), (), (), (), (), max)).map_err(res)?;
            let o = Out { depth: a, cost: b, relay: r, sizes: c_siz!(s), deps: c_dep!(p), vars: c_var!(v) };
            if a2 != o.depth || b2 != o.cost || c_var!(v2) != o.vars || c_siz!(s2) != o.sizes { return Err(format!("the same analysis twice in one run differs: {a2} {b2} against {o:?}")) }
            o
        }
    })
}

// ---------------- payloads ----------------
fn long_lists(r: &mut Rng, d: &mut Doc, p: u32) { gendoc::walk_vals(d, &mut |v| if let Val::List(l) = v { if !l.is_empty() && r.p(p) { let n = r.r(1, 5); for _ in 0..n { let x = r.pick(l).clone(); l.push(x) } } }) }
fn long_json(r: &mut Rng, j: &mut J, p: u32) {
    match j { J::Array(a) => { if !a.is_empty() && r.p(p) { let n = r.r(1, 5); for _ in 0..n { let x = r.pick(a).clone(); a.push(x) } } for x in a { long_json(r, x, p) } } J::Object(o) => for x in o.values_mut() { long_json(r, x, p) }, _ => {} }
}
/// a payload that fits the operation
pub fn payload(r: &mut Rng, rs: &RS, op: &Op) -> Payload {
    let mut m = Payload::new();
    for v in &op.vars {
        let must = v.ty.req() && v.default.is_none();
        if !must && r.p(40) { continue }
        let boolish = v.ty.base() == "Boolean";
        let x = loop { let x = genschema::value(r, rs, &v.ty, 3); if !(boolish && x == Val::Null) || r.p(20) { break x } };
        let mut j = refoper::val_json(&x); long_json(r, &mut j, 20);
        m.insert(v.name.clone(), j);
    }
    m
}
fn count_json(j: &J) -> usize { 1 + match j { J::Array(a) => a.iter().map(count_json).sum(), J::Object(o) => o.values().map(count_json).sum(), _ => 0 } }
fn edit_json(j: &mut J, k: &mut isize, f: &mut dyn FnMut(&mut J)) {
    *k -= 1; if *k == -1 { f(j); return }
    match j { J::Array(a) => for x in a { edit_json(x, k, f) }, J::Object(o) => for x in o.values_mut() { edit_json(x, k, f) }, _ => {} }
}
fn bad_json(r: &mut Rng, rs: &RS) -> J {
    match r.n(12) { 0 => J::Null, 1 => json!(3), 2 => json!("RED"), 3 => json!([]), 4 => json!({}), 5 => json!(1.5), 6 => json!(true), 7 => json!(2147483648i64), 8 => json!([null]), 9 => json!([[1]]), 10 => json!("nope"), _ => refoper::val_json(&gendoc::bad_val(r, rs)) }
}
pub fn spoil(r: &mut Rng, rs: &RS, m: &mut Payload) -> &'static str {
    let ks: Vec<String> = m.keys().cloned().collect();
    match r.n(8) {
        0 => { m.insert(r.ps(&["extra", "v", "V0", "$v0", ""]).into(), bad_json(r, rs)); "extra" }
        1 if !ks.is_empty() => { m.remove(r.pick(&ks)); "omit" }
        2 if !ks.is_empty() => { m.insert(r.pick(&ks).clone(), J::Null); "null" }
        _ if !ks.is_empty() => {
            let k = r.pick(&ks).clone(); let v = m.get_mut(&k).unwrap(); let mut at = r.n(count_json(v)) as isize; let b = bad_json(r, rs); let w = r.n(7);
            edit_json(v, &mut at, &mut |x| match (w, &mut *x) {
                (0, J::Object(o)) => { if let Some(k) = o.keys().next().cloned() { o.remove(&k); } }
                (1, J::Object(o)) => { o.insert("zz".into(), b.clone()); }
                (2, J::Array(a)) => a.push(b.clone()),
                (3, J::Object(o)) => { if let Some(v) = o.values_mut().last() { *v = J::Null } }
                (4, y) => { let t = y.take(); *y = J::Array(vec![t]) }
                (5, J::Array(a)) if a.len() == 1 => { let t = a[0].take(); *x = t }
                (_, y) => *y = b.clone(),
            });
            "value"
        }
        _ => { m.insert("extra".into(), J::Null); "extra" }
    }
}
fn base_name(o: &Op) -> Option<&str> { o.name.as_deref() }
fn context(sdl: &str, text: &str, name: Option<&str>, vars: &Payload) -> String { format!("--- operation {name:?}\n--- variables\n{}\n--- document\n{text}\n--- schema\n{sdl}", J::Object(vars.clone())) }

/// the schema with cost directives, deprecated directive arguments and connection-like fields
fn cost_schema(r: &mut Rng) -> SDoc {
    let mut s = genschema::schema(r, &GS { descs: 0, dirs: 5, ..GS::default() });
    let str_arg = |n: &str| InputVal { desc: None, name: n.into(), ty: Ty::named("String"), default: None, dirs: vec![] };
    let seed = r.u64();
    // the same field name is a connection everywhere, weights differ by type
    for t in s.types_mut() {
        let tn = t.name.clone();
        if let Some(fs) = t.fields_mut() {
            for f in fs {
                let mut k = Rng::new(seed ^ crate::rng::hash_str(&f.name));
                let mut args = vec![];
                if k.p(35) { args.push(("kind".to_string(), Val::Str(if k.p(85) { "connection" } else { "other" }.into()))) }
                let mut w = Rng::new(seed ^ crate::rng::hash_str(&format!("{tn}.{}", f.name)));
                if w.p(55) { args.push(("weight".to_string(), Val::Str(w.ps(&["0", "1", "2", "3", "5", "10", "1.5", "0.9", "-2", "abc", "7", "100", "3000000", "1e30", "0", "4"]).into()))) }
                if !args.is_empty() { f.dirs.push(Dir { name: "cost".into(), args }) }
            }
        }
    }
    // connections proper: both sizing arguments, `nodes` and `edges` below them
    let composite: Vec<String> = s.types().filter(|t| t.is_composite()).map(|t| t.name.clone()).collect();
    let q = s.schemas().next().and_then(|d| d.roots.iter().find(|r| r.0 == OpKind::Query).map(|r| r.1.clone())).unwrap_or_else(|| "Query".into());
    let int = |n: &str, r: &mut Rng| InputVal { desc: None, name: n.into(), ty: Ty::named("Int"), default: if r.p(15) { Some(Val::Int(r.n(40) as i32)) } else { None }, dirs: vec![] };
    for i in 0..r.n(3) {
        let mut fields = vec![];
        for n in ["nodes", "edges", "total"] {
            let t = r.pick(&composite).clone();
            let ty = if n == "total" { Ty::named("Int") } else if r.p(70) { Ty::list(Ty::named(&t)) } else { Ty::named(&t) };
            let dirs = if r.p(40) { vec![Dir { name: "cost".into(), args: vec![("weight".into(), Val::Str(r.ps(&["2", "0", "7"]).into()))] }] } else { vec![] };
            fields.push(FieldDef { desc: None, name: n.into(), args: vec![], ty, dirs });
        }
        s.defs.push(SDef::Type(TypeDef { desc: None, name: format!("Conn{i}"), dirs: vec![], kind: Kind::Object { ifaces: vec![], fields } }));
        let mut f = FieldDef { desc: None, name: format!("conn{i}"), args: vec![int("first", r), int("last", r)], ty: Ty::named(&format!("Conn{i}")), dirs: vec![Dir { name: "cost".into(), args: vec![("kind".into(), Val::Str("connection".into()))] }] };
        if r.p(30) { f.args.reverse() }
        if let Some(t) = s.types_mut().find(|t| t.name == q) { if let Some(fs) = t.fields_mut() { let at = r.n(fs.len() + 1); fs.insert(at, f) } }
    }
    s.defs.push(SDef::Dir(DirDef { desc: None, name: "cost".into(), args: vec![str_arg("weight"), str_arg("kind")], repeatable: false, locs: vec!["FIELD_DEFINITION".into()] }));
    s
}
fn dep_schema(r: &mut Rng) -> SDoc {
    let mut s = genschema::schema(r, &GS { descs: 0, dirs: 5, deprecations: 40, ..GS::default() });
    for d in s.dirs_mut() { for a in &mut d.args { if !a.ty.req() && r.p(40) { a.dirs.push(Dir { name: "deprecated".into(), args: vec![("reason".into(), Val::Str("dir".into()))] }) } } }
    s
}

/// Generates valid documents over a schema and calls `f` for each operation with several payloads.
fn ops(c: &mut Ctx, sd: &SDoc, gd: &GD, docs: usize, payloads: usize, long: u32, f: &mut dyn FnMut(&mut Ctx, &RS, &Schema, &str, &Doc, &str, &Op, &Payload)) {
    on_sdoc(c, sd, |c, rs, schema, sdl| {
        for _ in 0..docs {
            let mut d = gendoc::doc(&mut c.rng, rs, gd);
            self_check(rs, sdl, &d);
            if long > 0 { long_lists(&mut c.rng, &mut d, long); let v = refval::validate(rs, &d); if v.gave_up || !v.must.is_empty() || !v.may.is_empty() { continue } }
            let text = doc_text(&d);
            for op in &d.ops.clone() { for _ in 0..payloads { let p = payload(&mut c.rng, rs, op); f(c, rs, schema, sdl, &d, &text, op, &p) } }
        }
    })
}
fn sized(c: &mut Ctx) -> GD { GD { depth: c.rng.r(2, 5), width: c.rng.r(2, 5), frags: c.rng.r(0, 6), ..GD::default() } }

pub fn c13(c: &mut Ctx) {
    let sd = genschema::schema(&mut c.rng, &GS { descs: 0, deprecations: 0, ..GS::default() });
    let gd = GD { vars: 75, var_defaults: 35, depth: 2, ..GD::default() };
    ops(c, &sd, &gd, 3, 1, 0, &mut |c, rs, schema, sdl, d, text, op, p| {
        if op.vars.is_empty() && c.rng.p(80) { return }
        for k in 0..8 {
            let mut p = p.clone();
            if k > 0 { for _ in 0..c.rng.r(1, 2) { let l = spoil(&mut c.rng, rs, &mut p); c.obs(&format!("edit:{l}")); } }
            let env = Env { rs, doc: d, op, vars: &p };
            let (miss, bad, unused, open) = env.payload();
            if k == 0 && !(miss.is_empty() && bad.is_empty() && unused.is_empty()) { panic!("generated payload does not fit: {miss:?} {bad:?} {unused:?}\n{}", context(sdl, text, base_name(op), &p)) }
            let Some(got) = c.sut("VariableValuesAreValid", || context(sdl, text, base_name(op), &p), || {
                let e = ExecutableDocument::parse(text).unwrap(); let ca = Cache::new(&e, schema);
                an!(VariableValuesAreValid<_, _, _>, &e, schema, base_name(op), &p, &ca, ()).map_err(res).map(|v| {
                    let (mut m, mut b, mut u) = (BTreeSet::new(), BTreeMap::new(), BTreeSet::new());
                    for x in &v { match x {
                        VariableValueError::MissingValue { variable_definition: d } => { m.insert(ce::VariableDefinition::variable(*d).to_string()); }
                        VariableValueError::InvalidValue { variable_definition: d, errors, .. } => { b.insert(ce::VariableDefinition::variable(*d).to_string(), errors.iter().map(ie_kind).collect::<Vec<_>>()); }
                        VariableValueError::UnusedValue { key, .. } => { u.insert(key.to_string()); }
                    } }
                    (v.len(), m, b, u)
                })
            }) else { return };
            let (n, m, b, u) = match got { Ok(x) => x, Err(e) => return c.fail("unresolved", format!("{e}\n{}", context(sdl, text, base_name(op), &p))) };
            c.eval(!op.vars.is_empty(), &format!("{text}{:?}{p:?}", op.name));
            c.sample(|| json!({"document": text, "operation": op.name, "variables": p, "missing": miss, "invalid": format!("{bad:?}"), "unused": unused}));
            let fits = miss.is_empty() && bad.is_empty() && unused.is_empty();
            c.obs(if fits { "fits" } else { "refused" });
            if !miss.is_empty() { c.obs("missing") } if !bad.is_empty() { c.obs("invalid") } if !unused.is_empty() { c.obs("unused") }
            let doc = |w: String| format!("{w}\n--- reported missing {m:?} invalid {b:?} unused {u:?}\n--- expected missing {miss:?} invalid {bad:?} unused {unused:?}\n{}", context(sdl, text, base_name(op), &p));
            if m != miss { return c.fail("missing", doc("missing variables differ".into())) }
            if u != unused { return c.fail("unused", doc("unused variables differ".into())) }
            for v in &op.vars {
                if open.contains(&v.name) { c.obs("left-open"); continue }
                match (bad.get(&v.name), b.get(&v.name)) {
                    (None, None) => {}
                    (Some(_), None) => return c.fail("invalid:accepted", doc(format!("${} does not coerce but is accepted", v.name))),
                    (None, Some(_)) => return c.fail("invalid:rejected", doc(format!("${} coerces but is rejected", v.name))),
                    (Some(w), Some(g)) => { if g.is_empty() { return c.fail("invalid:empty", doc(format!("${} is refused without a reason", v.name))) } if let Some(x) = g.iter().find(|x| !w.contains(x)) { return c.fail("invalid:blames", doc(format!("${}: {x:?} is reported but that part is right", v.name))) } }
                }
            }
            if n != m.len() + b.len() + u.len() { return c.fail("repeated", doc("an error is reported twice".into())) }
        }
    })
}
pub fn c13_probes(c: &mut Ctx) {
    let sdl = "type Query { f(id: ID): Int }";
    let r = sys::with_schema(sdl, |s| alone(s, "query($i: ID) { f(id: $i) }", None, json!({"i": 5000000000i64}).as_object().unwrap(), 5));
    match r { Ok(Ok(o)) if o.vars.is_empty() => {} x => c.fail("probe:id-beyond-32-bits", format!("{x:?}")) }
}

pub fn c14(c: &mut Ctx) {
    let sd = genschema::schema(&mut c.rng, &GS { descs: 0, dirs: 0, deprecations: 0, ..GS::default() });
    let gd = GD { skips: 25, vars: 20, depth: c.rng.r(2, 6), var_defaults: 50, ..sized(c) };
    ops(c, &sd, &gd, 5, 2, 0, &mut |c, rs, schema, sdl, d, text, op, p| {
        let env = Env { rs, doc: d, op, vars: p };
        let (lo, hi) = env.depth();
        let Some(got) = c.sut("QueryDepth", || context(sdl, text, base_name(op), p), || depth(schema, text, base_name(op), p)) else { return };
        let got = match got { Ok(x) => x, Err(e) => return c.fail("unresolved", format!("{e}\n{}", context(sdl, text, base_name(op), p))) };
        c.eval(hi > 1, &format!("{text}{:?}{p:?}", op.name));
        c.obs(&format!("depth:{}", lo.min(9))); if lo == hi { c.obs("exact") }
        let mut cut = false; env.events(&mut |e| if let refoper::Ev::Enter { inc: Inc::No, .. } = e { cut = true }); if cut { c.obs("skipped-selections") }
        c.sample(|| json!({"document": text, "operation": op.name, "variables": p, "depth": lo}));
        if got < lo || got > hi { return c.fail("depth", format!("depth {got}, expected {lo}..{hi}\n{}", context(sdl, text, base_name(op), p))) }
        // an equivalent way of writing it
        let mut m = d.clone(); let l = rewrite(&mut c.rng, rs, &mut m); if m == *d { return }
        let t2 = doc_text(&m);
        c.obs(&format!("rewrite:{l}"));
        let Some(g2) = c.sut("QueryDepth", || context(sdl, &t2, base_name(op), p), || depth(schema, &t2, base_name(op), p)) else { return };
        if g2.as_ref() != Ok(&got) { c.fail("depth:rewrite", format!("depth {got}, but {g2:?} after {l}\n--- before\n{text}\n{}", context(sdl, &t2, base_name(op), p))) }
    })
}
fn depth(schema: &Schema, text: &str, name: Option<&str>, p: &Payload) -> Result<usize, String> {
    let e = ExecutableDocument::parse(text).map_err(|e| format!("{:?}", e.first()))?; let ca = Cache::new(&e, schema);
    an!(QueryDepth, &e, schema, name, p, &ca, ()).map_err(res)
}

/// Rewrites that change neither the response nor the cost.
pub fn rewrite(r: &mut Rng, rs: &RS, d: &mut Doc) -> &'static str {
    let n = gendoc::count_sets(rs, d); if n == 0 { return "none" }
    let j = r.n(n); let mut i = 0; let what = r.n(6);
    let seed = r.u64(); let used: Vec<String> = d.frags.iter().map(|f| f.name.clone()).collect();
    let mut newf: Option<Frag> = None; let mut l = "none";
    gendoc::walk_sets(rs, d, &mut |s, p| {
        if i == j { let mut r = Rng::new(seed); match (what, p) {
            (0, _) => { let x = s.clone(); s.extend(x); l = "repeat" }
            (1, _) => { r.shuffle(s); l = "reorder" }
            (2, Some(p)) => { let x = std::mem::take(s); s.push(Sel::Inline { cond: if r.p(50) { Some(p.to_string()) } else { None }, dirs: vec![], sel: x }); l = "inline" }
            (3, Some(p)) if !s.is_empty() => { let k = r.r(1, s.len()); let tail = s.split_off(s.len() - k); let name = (0..).map(|k| format!("New{k}")).find(|n| !used.contains(n)).unwrap(); newf = Some(Frag { name: name.clone(), cond: p.to_string(), dirs: vec![], sel: tail }); s.push(Sel::Spread { name, dirs: vec![] }); l = "fragment" }
            (4, _) if !s.is_empty() => { let k = r.n(s.len()); let x = s[k].clone(); let at = r.n(s.len() + 1); s.insert(at, x); l = "repeat-one" }
            (5, _) if !s.is_empty() => { let k = r.n(s.len()); let mut x = s[k].clone(); x.dirs_mut().retain(|d| d.name != "skip"); x.dirs_mut().push(Dir { name: "skip".into(), args: vec![("if".into(), Val::Bool(true))] }); s.insert(r.n(s.len() + 1), x); l = "skipped-copy" }
            _ => {}
        } }
        i += 1;
    });
    if let Some(f) = newf { d.frags.push(f) }
    l
}

pub fn c15(c: &mut Ctx) {
    let sd = cost_schema(&mut c.rng);
    let gd = GD { skips: 12, vars: 25, depth: c.rng.r(2, 5), dirs: 0, ..sized(c) };
    let rounds = 6;
    ops(c, &sd, &gd, rounds, 2, 0, &mut |c, rs, schema, sdl, d, text, op, p| {
        let env = Env { rs, doc: d, op, vars: p };
        for m in [Model::Unit, Model::Relay] {
            let (lo, hi) = env.cost(m);
            let Some(got) = c.sut("ComplexityCost", || context(sdl, text, base_name(op), p), || cost(schema, text, base_name(op), p, m)) else { return };
            let got = match got { Ok(x) => x, Err(e) => return c.fail("unresolved", format!("{e}\n{}", context(sdl, text, base_name(op), p))) };
            c.eval(hi > 1, &format!("{m:?}{text}{:?}{p:?}", op.name));
            c.obs(&format!("model:{m:?}")); if lo == hi { c.obs("exact") } else { c.obs("bounds-differ") }
            if hi == u64::MAX as u128 { c.obs("saturated") }
            if m == Model::Relay && env.both_sized() { c.obs("first-and-last-differ") }
            if m == Model::Relay && lo > 20 { c.obs("relay-above-20") }
            c.sample(|| json!({"model": format!("{m:?}"), "document": text, "operation": op.name, "variables": p, "cost": lo.to_string(), "schema": sdl}));
            if (got as u128) < lo || got as u128 > hi { return c.fail(&format!("cost:{m:?}"), format!("cost {got}, expected {lo}..{hi} ({m:?})\n{}", context(sdl, text, base_name(op), p))) }
            let mut x = d.clone(); let l = rewrite(&mut c.rng, rs, &mut x); if x == *d { continue }
            let t2 = doc_text(&x);
            c.obs(&format!("rewrite:{l}"));
            let Some(g2) = c.sut("ComplexityCost", || context(sdl, &t2, base_name(op), p), || cost(schema, &t2, base_name(op), p, m)) else { return };
            if g2.as_ref() != Ok(&got) { return c.fail("cost:rewrite", format!("cost {got}, but {g2:?} after {l} ({m:?})\n--- before\n{text}\n{}", context(sdl, &t2, base_name(op), p))) }
        }
    })
}
fn cost(schema: &Schema, text: &str, name: Option<&str>, p: &Payload, m: Model) -> Result<usize, String> {
    let e = ExecutableDocument::parse(text).map_err(|e| format!("{:?}", e.first()))?; let ca = Cache::new(&e, schema);
    match m { Model::Unit => an!(Cst!(), &e, schema, name, p, &ca, ()), Model::Relay => an!(Rly!(), &e, schema, name, p, &ca, ()) }.map_err(res)
}

pub fn c16(c: &mut Ctx) {
    let sd = genschema::schema(&mut c.rng, &GS { descs: 0, deprecations: 0, defaults: 60, dirs: 0, ..GS::default() });
    let gd = GD { vars: 40, skips: 12, var_defaults: 55, dirs: 15, ..sized(c) };
    ops(c, &sd, &gd, 6, 2, 30, &mut |c, rs, schema, sdl, d, text, op, p| {
        let max = c.rng.r(1, 4);
        let env = Env { rs, doc: d, op, vars: p };
        let b = env.sizes(max);
        let Some(got) = c.sut("InputSize", || context(sdl, text, base_name(op), p), || { let e = ExecutableDocument::parse(text).unwrap(); let ca = Cache::new(&e, schema); an!(InputSize<_, _>, &e, schema, base_name(op), p, &ca, max).map_err(res).map(|v| c_siz!(v)) }) else { return };
        let got: BTreeSet<(usize, String)> = match got { Ok(x) => x.into_iter().collect(), Err(e) => return c.fail("unresolved", format!("{e}\n{}", context(sdl, text, base_name(op), p))) };
        let mut any = false; env.events(&mut |e| if let refoper::Ev::Arg { val, .. } = e { if matches!(val, Val::List(_) | Val::Obj(_) | Val::Var(_)) { any = true } });
        c.eval(any, &format!("{max}{text}{:?}{p:?}", op.name));
        c.obs(if b.must.is_empty() { "none" } else { "oversized" });
        if b.must.len() > 1 { c.obs("several") }
        c.sample(|| json!({"max": max, "document": text, "operation": op.name, "variables": p, "oversized": b.must}));
        let doc = |w: String| format!("{w}; maximum {max}\n--- reported {got:?}\n--- required {:?}\n--- allowed {:?}\n{}", b.must, b.may, context(sdl, text, base_name(op), p));
        if let Some(x) = b.must.iter().find(|x| !got.contains(x)) { return c.fail("missed", doc(format!("{x:?} is not reported"))) }
        if let Some(x) = got.iter().find(|x| !b.may.contains(x)) { return c.fail("spurious", doc(format!("{x:?} is reported wrongly"))) }
    })
}

pub fn c17(c: &mut Ctx) {
    let sd = dep_schema(&mut c.rng);
    let gd = GD { vars: 35, skips: 12, var_defaults: 50, dirs: 15, ..sized(c) };
    ops(c, &sd, &gd, 6, 2, 0, &mut |c, rs, schema, sdl, d, text, op, p| {
        let env = Env { rs, doc: d, op, vars: p };
        let b = env.deprecations();
        let Some(got) = c.sut("Deprecation", || context(sdl, text, base_name(op), p), || { let e = ExecutableDocument::parse(text).unwrap(); let ca = Cache::new(&e, schema); an!(Deprecation<_, _, _>, &e, schema, base_name(op), p, &ca, ()).map_err(res).map(|v| c_dep!(v)) }) else { return };
        let got: BTreeSet<(String, String, String)> = match got { Ok(x) => x.into_iter().collect(), Err(e) => return c.fail("unresolved", format!("{e}\n{}", context(sdl, text, base_name(op), p))) };
        c.eval(!b.may.is_empty(), &format!("{text}{:?}{p:?}", op.name));
        c.obs(if b.must.is_empty() { "none" } else { "deprecated" });
        for x in &b.must { c.obs(&format!("use:{}", x.0)) }
        c.sample(|| json!({"document": text, "operation": op.name, "variables": p, "uses": b.must}));
        let doc = |w: String| format!("{w}\n--- reported {got:?}\n--- required {:?}\n--- allowed {:?}\n{}", b.must, b.may, context(sdl, text, base_name(op), p));
        let st = |x: &refoper::Dep| (x.0.to_string(), x.1.clone(), x.2.clone());
        if let Some(x) = b.must.iter().find(|x| !got.contains(&st(x))) { return c.fail("missed", doc(format!("{x:?} is not reported"))) }
        if let Some(x) = got.iter().find(|x| !b.may.iter().any(|y| st(y) == **x)) { return c.fail("spurious", doc(format!("{x:?} is reported wrongly"))) }
    })
}

// ---------------- C18 ----------------
fn errors(schema: &Schema, text: &str) -> Vec<String> {
    let d = ExecutableDocument::parse(text).unwrap(); let c = Cache::new(&d, schema);
    let mut v: Vec<String> = DocOrch::<_, _, BuiltinRules<_, _>>::validate(&d, schema, &c).map(|e| kind(&e).to_string()).collect(); v.sort(); v
}
/// Which operation an analysis by `name` must pick.
fn pick<'a>(d: &'a Doc, name: Option<&str>) -> Result<&'a Op, String> {
    match name { Some(n) => d.ops.iter().find(|o| o.name.as_deref() == Some(n)).ok_or(format!("no-operation:{n}")), None => if d.ops.len() == 1 { Ok(&d.ops[0]) } else { Err("not-eligible".into()) } }
}
pub fn c18(c: &mut Ctx) {
    let sd = if c.rng.p(50) { cost_schema(&mut c.rng) } else { dep_schema(&mut c.rng) };
    let gd = GD { skips: 15, vars: 35, var_defaults: 40, ops: (1, 4), ..sized(c) };
    on_sdoc(c, &sd, |c, rs, schema, sdl| {
        let mut jobs: Vec<(String, Option<String>, Payload, usize, Result<Out, String>, Vec<String>)> = vec![];
        for _ in 0..3 {
            let mut d = gendoc::doc(&mut c.rng, rs, &gd);
            long_lists(&mut c.rng, &mut d, 15);
            if c.rng.p(30) { let l = gendoc::mutate(&mut c.rng, rs, &mut d); c.obs(&format!("edit:{l}")); }
            let dup = d.ops.iter().enumerate().any(|(i, o)| d.ops[..i].iter().any(|x| x.name == o.name && x.name.is_some()));
            let valid = { let v = refval::validate(rs, &d); if v.gave_up { continue } v.must.is_empty() && v.may.is_empty() };
            c.obs(if valid { "valid-document" } else { "invalid-document" });
            let text = doc_text(&d);
            let mut names: Vec<Option<String>> = vec![None, Some("Nope".into()), Some(String::new())];
            for o in &d.ops { names.push(o.name.clone()); if let Some(n) = &o.name { names.push(Some(n.to_lowercase())); names.push(Some(format!("{n}0"))) } }
            for name in names {
                let want = pick(&d, name.as_deref());
                let max = c.rng.r(1, 4);
                let p = match &want { Ok(o) => { let mut p = payload(&mut c.rng, rs, o); if c.rng.p(30) { spoil(&mut c.rng, rs, &mut p); } p } Err(_) => Payload::new() };
                let Some(a) = c.sut("analyses", || context(sdl, &text, name.as_deref(), &p), || alone(schema, &text, name.as_deref(), &p, max)) else { return };
                c.eval(want.is_ok(), &format!("{text}{name:?}{p:?}"));
                let doc = |w: String, x: &dyn std::fmt::Debug| format!("{w}\n--- alone {a:?}\n--- other {x:?}\n{}", context(sdl, &text, name.as_deref(), &p));
                match (&want, &a) {
                    (Err(e), Err(g)) => { c.obs("unresolved"); if e != g { return c.fail("resolution", doc(format!("expected {e}"), &())) } continue }
                    (Err(e), Ok(_)) => return c.fail("resolution", doc(format!("an operation is picked, expected {e}"), &())),
                    (Ok(_), Err(e)) => return c.fail("resolution", doc(format!("no operation is picked ({e})"), &())),
                    _ => c.obs("resolved"),
                }
                let op = want.unwrap();
                if valid && !dup {
                    // the right operation: its reference results
                    let env = Env { rs, doc: &d, op, vars: &p };
                    let o = a.as_ref().unwrap(); let (lo, hi) = env.depth(); let (cl, ch) = env.cost(Model::Unit);
                    let (m, b, u, open) = env.payload();
                    let nvars: BTreeSet<String> = m.iter().map(|x| format!("missing:{x}")).chain(b.keys().filter(|k| !open.contains(*k)).map(|x| format!("invalid:{x}"))).chain(u.iter().map(|x| format!("unused:{x}"))).collect();
                    let gvars: BTreeSet<String> = o.vars.iter().map(|x| x.splitn(3, ':').take(2).collect::<Vec<_>>().join(":")).collect();
                    let sz = env.sizes(max); let dp = env.deprecations();
                    let fits = m.is_empty() && b.is_empty();
                    if fits && (o.depth < lo || o.depth > hi || (o.cost as u128) < cl || o.cost as u128 > ch) || !nvars.is_subset(&gvars) || sz.must.iter().any(|x| !o.sizes.contains(x)) || dp.must.iter().any(|x| !o.deps.iter().any(|y| x.0 == y.0 && x.1 == y.1 && x.2 == y.2)) { return c.fail("operation", doc("the results are not those of the requested operation".into(), &(lo, hi, cl, ch, nvars))) }
                    if let Some(x) = o.sizes.iter().find(|x| !sz.may.contains(x)) { return c.fail("operation", doc(format!("the results are not those of the requested operation: {x:?}"), &())) }
                    // the document without the other operations
                    let mut only = d.clone(); only.ops = vec![op.clone()]; let t2 = doc_text(&only);
                    for n in [name.as_deref(), None] {
                        let Some(x) = c.sut("analyses", || context(sdl, &t2, n, &p), || alone(schema, &t2, n, &p, max)) else { return };
                        if x != a { return c.fail("other-operations", doc(format!("removing the other operations changes the results ({n:?})"), &x)) }
                    }
                }
                for how in 0..4 {
                    let Some(x) = c.sut("combined analyses", || context(sdl, &text, name.as_deref(), &p), || together(schema, &text, name.as_deref(), &p, max, how)) else { return };
                    c.obs("combined");
                    if x != a { return c.fail("combined", doc(format!("combined run {how} differs"), &x)) }
                }
                let Some(x) = c.sut("analyses", || context(sdl, &text, name.as_deref(), &p), || alone(schema, &text, name.as_deref(), &p, max)) else { return };
                if x != a { return c.fail("repeat", doc("a second run differs".into(), &x)) }
                let e = match c.sut("validate", || text.clone(), || errors(schema, &text)) { Some(e) => e, None => return };
                jobs.push((text.clone(), name.clone(), p, max, a, e));
            }
            // validation alone, repeated, with another rule set and with an analyzer
            let r = c.sut("validate_and_analyze", || format!("{text}\n{sdl}"), || {
                let d = ExecutableDocument::parse(text.as_str()).unwrap(); let ca = Cache::new(&d, schema);
                let (e, ev) = DocOrch::<_, _, (BuiltinRules<_, _>, crate::props::trav::Log)>::validate_and_analyze(&d, schema, &ca);
                let mut e: Vec<String> = e.map(|e| kind(&e).to_string()).collect(); e.sort();
                let alone = DocOrch::<_, _, crate::props::trav::Log>::analyze(&d, schema, &ca);
                let (x, y) = DocOrch::<_, _, (crate::props::trav::Log, crate::props::trav::Log)>::analyze(&d, schema, &ca);
                (e, ev == alone && x == alone && y == alone, errors(schema, &text))
            });
            let Some((e, same, again)) = r else { return };
            c.obs("validate-and-analyze");
            if e != again { return c.fail("validate_and_analyze", format!("errors differ: {e:?} against {again:?}\n{text}\n{sdl}")) }
            if !same { return c.fail("analyze:combined", format!("a combined document analysis sees other events\n{text}\n{sdl}")) }
        }
        // several threads sharing the schema, each in its own order
        if jobs.is_empty() { return }
        let seed = c.rng.u64();
        let bad: Vec<String> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..4u64).map(|t| { let jobs = &jobs; std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                let mut r = Rng::new(seed ^ t); let mut ix: Vec<usize> = (0..jobs.len()).collect(); r.shuffle(&mut ix);
                for i in ix {
                    let (text, name, p, max, a, e) = &jobs[i];
                    let x = crate::run::sut_raw(|| (if r.p(50) { alone(schema, text, name.as_deref(), p, *max) } else { together(schema, text, name.as_deref(), p, *max, 0) }, errors(schema, text)));
                    match x { Err(x) => return Some(format!("panic {x:?}\n{text}")), Ok((x, y)) => if x != *a || y != *e { return Some(format!("{name:?} {p:?}: {x:?} {y:?} against {a:?} {e:?}\n{text}")) } }
                }
                None
            }).unwrap() }).collect();
            hs.into_iter().filter_map(|h| h.join().unwrap()).collect()
        });
        c.add("thread-runs", 4 * jobs.len() as u64);
        if let Some(b) = bad.first() { c.fail("threads", format!("a run on another thread differs\n{b}\n{sdl}")) }
        c.sample(|| json!({"document": jobs[0].0, "operation": jobs[0].1, "variables": jobs[0].2, "results": format!("{:?}", jobs[0].4)}));
    });
}
