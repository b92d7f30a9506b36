//! C25: recording visitors checked against the reference traversal.
use crate::bj;
use crate::emit::{doc_text, val_text};
use crate::gendoc::{self, GD};
use crate::genschema::{self, GS};
use crate::model::*;
use crate::props::oper::payload;
use crate::props::valid::{kind, on_sdoc};
use crate::refoper::{Env, Ev, Inc, Payload};
use crate::refval;
use crate::rschema::RS;
use crate::run::Ctx;
use crate::sys::Schema;
use bluejay_core::definition::{self as cd, DirectiveLocation, SchemaDefinition, TypeDefinitionReference};
use bluejay_core::executable::{self as ce, ExecutableDocument as EDoc, OperationDefinition as _};
use bluejay_core::{Argument as _, AsIter};
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::ast::Parse;
use bluejay_validator::executable::document as vd;
use bluejay_validator::executable::operation as vo;
use bluejay_validator::executable::Cache;
use serde_json::json;
use std::collections::BTreeMap;

/// document visitor: one line per call, "kind|details"
#[derive(Debug, Clone, PartialEq)]
pub struct Log { pub ev: Vec<String> }

fn r_dirs(d: &[Dir]) -> String { d.iter().map(|d| format!("@{}({})", d.name, r_args(&d.args))).collect() }
fn r_args(a: &[(String, Val)]) -> String { a.iter().map(|(n, v)| format!("{n}:{} ", val_text(v))).collect() }
fn r_field(f: &Field) -> String { format!("{}={}({}){} [{}]", f.key(), f.name, r_args(&f.args), r_dirs(&f.dirs), f.sel.len()) }
fn r_fdef(f: &FieldDef) -> String { format!("{}({}):{}", f.name, f.args.iter().map(r_idef).collect::<String>(), f.ty.show()) }
fn r_idef(i: &InputVal) -> String { format!("{}:{}{} ", i.name, i.ty.show(), i.default.as_ref().map(|d| format!("={}", val_text(d))).unwrap_or_default()) }
fn r_sel(s: &[Sel]) -> String { s.iter().map(|x| match x { Sel::Field(f) => format!("{} ", r_field(f)), Sel::Spread { name, dirs } => format!("...{name}{} ", r_dirs(dirs)), Sel::Inline { cond, dirs, sel } => format!("...on {cond:?}{} [{}] ", r_dirs(dirs), sel.len()) }).collect() }
fn r_var(v: &VarDef) -> String { format!("${}:{}{}{}", v.name, v.ty.show(), v.default.as_ref().map(|d| format!("={}", val_text(d))).unwrap_or_default(), r_dirs(&v.dirs)) }
fn r_op(o: &Op) -> String { format!("{} {:?} {} [{}]", o.kind.s(), o.name, r_dirs(&o.dirs), o.sel.len()) }

fn root<E: EDoc>(p: &vd::Path<'_, E>) -> String { match p.root() { vd::PathRoot::Operation(o) => format!("op {:?}", o.as_ref().name()), vd::PathRoot::Fragment(f) => format!("fragment {}", ce::FragmentDefinition::name(*f)) } }
fn m_field<F: ce::Field>(f: &F) -> Field { Field { alias: f.alias().map(str::to_string), name: f.name().to_string(), args: bj::args(f.arguments()), dirs: bj::dirs(f.directives()), sel: f.selection_set().map(|s| bj::sel(s)).unwrap_or_default() } }
fn m_var<V: ce::VariableDefinition>(v: &V) -> VarDef { VarDef { name: v.variable().to_string(), ty: bj::vty(v.r#type()), default: v.default_value().map(|v| bj::val(v)), dirs: bj::dirs(v.directives()) } }

impl Log { fn p(&mut self, k: &str, s: String) { self.ev.push(format!("{k}|{s}")) } }
impl<'a, E: EDoc, S: SchemaDefinition> vd::Visitor<'a, E, S> for Log {
    fn new(_: &'a E, _: &'a S, _: &'a Cache<'a, E, S>) -> Self { Log { ev: vec![] } }
    fn visit_operation_definition(&mut self, o: &'a E::OperationDefinition) { self.p("operation", r_op(&bj::op(o))) }
    fn visit_selection_set(&mut self, s: &'a E::SelectionSet, t: TypeDefinitionReference<'a, S::TypeDefinition>) { self.p("selection-set", format!("{}: {}", t.name(), r_sel(&bj::sel(s)))) }
    fn visit_field(&mut self, f: &'a E::Field, d: &'a S::FieldDefinition, p: &vd::Path<'a, E>) { self.p("field", format!("{} as {} in {}", r_field(&m_field(f)), r_fdef(&bj::field_def(d)), root(p))) }
    fn visit_const_directive(&mut self, d: &'a E::Directive<true>, l: DirectiveLocation) { self.p("const-directive", format!("@{}({}) at {l}", bluejay_core::Directive::name(d), r_args(&bj::args(bluejay_core::Directive::arguments(d))))) }
    fn visit_variable_directive(&mut self, d: &'a E::Directive<false>, l: DirectiveLocation) { self.p("directive", format!("@{}({}) at {l}", bluejay_core::Directive::name(d), r_args(&bj::args(bluejay_core::Directive::arguments(d))))) }
    fn visit_const_directives(&mut self, d: &'a E::Directives<true>, l: DirectiveLocation) { let d = bj::dirs(Some(d)); if !d.is_empty() { self.p("const-directives", format!("{} at {l}", r_dirs(&d))) } }
    fn visit_variable_directives(&mut self, d: &'a E::Directives<false>, l: DirectiveLocation) { let d = bj::dirs(Some(d)); if !d.is_empty() { self.p("directives", format!("{} at {l}", r_dirs(&d))) } }
    fn visit_fragment_definition(&mut self, f: &'a E::FragmentDefinition) { use ce::FragmentDefinition as FD; self.p("fragment", format!("{} on {}", FD::name(f), FD::type_condition(f))) }
    fn visit_inline_fragment(&mut self, i: &'a E::InlineFragment, t: TypeDefinitionReference<'a, S::TypeDefinition>) { use ce::InlineFragment as IF; self.p("inline", format!("{:?} in {}: {}", IF::type_condition(i), t.name(), r_sel(&bj::sel(IF::selection_set(i))))) }
    fn visit_fragment_spread(&mut self, s: &'a E::FragmentSpread, t: TypeDefinitionReference<'a, S::TypeDefinition>, p: &vd::Path<'a, E>) { self.p("spread", format!("{} in {} of {}", ce::FragmentSpread::name(s), t.name(), root(p))) }
    fn visit_const_argument(&mut self, a: &'a E::Argument<true>, d: &'a S::InputValueDefinition) { self.p("const-argument", format!("{}:{} as {}", a.name(), val_text(&bj::val(a.value())), r_idef(&bj::input_val(d)))) }
    fn visit_variable_argument(&mut self, a: &'a E::Argument<false>, d: &'a S::InputValueDefinition, p: &vd::Path<'a, E>) { self.p("argument", format!("{}:{} as {} in {}", a.name(), val_text(&bj::val(a.value())), r_idef(&bj::input_val(d)), root(p))) }
    fn visit_variable_definition(&mut self, v: &'a E::VariableDefinition) { self.p("variable", r_var(&m_var(v))) }
    fn visit_variable_definitions(&mut self, v: &'a E::VariableDefinitions) { let v: Vec<String> = v.iter().map(|x| r_var(&m_var(x))).collect(); if !v.is_empty() { self.p("variables", v.join(" ")) } }
}
impl<'a, E: EDoc, S: SchemaDefinition> vd::Analyzer<'a, E, S> for Log { type Output = Log; fn into_output(self) -> Log { self } }
/// the same recorder as a rule
pub struct LogRule(Log);
macro_rules! fwd { ($($n:ident($($a:ident: $t:ty),*);)*) => { $(fn $n(&mut self, $($a: $t),*) { vd::Visitor::<E, S>::$n(&mut self.0, $($a),*) })* } }
impl<'a, E: EDoc, S: SchemaDefinition> vd::Visitor<'a, E, S> for LogRule {
    fn new(e: &'a E, s: &'a S, c: &'a Cache<'a, E, S>) -> Self { LogRule(vd::Visitor::<E, S>::new(e, s, c)) }
    fwd! {
        visit_operation_definition(o: &'a E::OperationDefinition);
        visit_selection_set(s: &'a E::SelectionSet, t: TypeDefinitionReference<'a, S::TypeDefinition>);
        visit_field(f: &'a E::Field, d: &'a S::FieldDefinition, p: &vd::Path<'a, E>);
        visit_const_directive(d: &'a E::Directive<true>, l: DirectiveLocation);
        visit_variable_directive(d: &'a E::Directive<false>, l: DirectiveLocation);
        visit_const_directives(d: &'a E::Directives<true>, l: DirectiveLocation);
        visit_variable_directives(d: &'a E::Directives<false>, l: DirectiveLocation);
        visit_fragment_definition(f: &'a E::FragmentDefinition);
        visit_inline_fragment(i: &'a E::InlineFragment, t: TypeDefinitionReference<'a, S::TypeDefinition>);
        visit_fragment_spread(s: &'a E::FragmentSpread, t: TypeDefinitionReference<'a, S::TypeDefinition>, p: &vd::Path<'a, E>);
        visit_const_argument(a: &'a E::Argument<true>, d: &'a S::InputValueDefinition);
        visit_variable_argument(a: &'a E::Argument<false>, d: &'a S::InputValueDefinition, p: &vd::Path<'a, E>);
        visit_variable_definition(v: &'a E::VariableDefinition);
        visit_variable_definitions(v: &'a E::VariableDefinitions);
    }
}
impl<'a, E: EDoc + 'a, S: SchemaDefinition + 'a> vd::Rule<'a, E, S> for LogRule { type Error = String; type Errors = std::vec::IntoIter<String>; fn into_errors(self) -> Self::Errors { self.0.ev.into_iter() } }

/// operation visitor
pub struct OpLog { ev: Vec<String> }
impl<'a, E: EDoc, S: SchemaDefinition, V: vo::VariableValues> vo::Visitor<'a, E, S, V> for OpLog {
    type ExtraInfo = ();
    fn new(_: &'a E::OperationDefinition, _: &'a S, _: &'a V, _: &'a Cache<'a, E, S>, _: ()) -> Self { OpLog { ev: vec![] } }
    fn visit_variable_argument(&mut self, a: &'a E::Argument<false>, d: &'a S::InputValueDefinition) { self.ev.push(format!("argument|{}:{} as {}", a.name(), val_text(&bj::val(a.value())), r_idef(&bj::input_val(d)))) }
    fn visit_field(&mut self, f: &'a E::Field, d: &'a S::FieldDefinition, t: TypeDefinitionReference<'a, S::TypeDefinition>, i: bool) { self.ev.push(format!("path|enter {} as {} in {} {i}", r_field(&m_field(f)), r_fdef(&bj::field_def(d)), t.name())) }
    fn leave_field(&mut self, f: &'a E::Field, _: &'a S::FieldDefinition, t: TypeDefinitionReference<'a, S::TypeDefinition>, i: bool) { self.ev.push(format!("path|leave {} in {} {i}", ce::Field::response_name(f), t.name())) }
    fn visit_variable_definition(&mut self, v: &'a E::VariableDefinition) { self.ev.push(format!("variable|{}", ce::VariableDefinition::variable(v))) }
}
impl<'a, E: EDoc, S: SchemaDefinition, V: vo::VariableValues> vo::Analyzer<'a, E, S, V> for OpLog { type Output = Vec<String>; fn into_output(self) -> Vec<String> { self.ev } }

// ---------------- reference ----------------
struct R<'a> { rs: &'a RS, ev: Vec<String>, root: String }
impl<'a> R<'a> {
    fn p(&mut self, k: &str, s: String) { self.ev.push(format!("{k}|{s}")) }
    fn args(&mut self, a: &[(String, Val)], defs: &[InputVal], c: bool) {
        for (n, v) in a { if let Some(d) = defs.iter().find(|d| &d.name == n) { let r = self.root.clone(); if c { self.p("const-argument", format!("{n}:{} as {}", val_text(v), r_idef(d))) } else { self.p("argument", format!("{n}:{} as {} in {r}", val_text(v), r_idef(d))) } } }
    }
    fn dirs(&mut self, d: &[Dir], loc: &str, c: bool) {
        if d.is_empty() { return }
        let pre = if c { "const-directive" } else { "directive" };
        self.p(&format!("{pre}s"), format!("{} at {loc}", r_dirs(d)));
        for x in d { self.p(pre, format!("@{}({}) at {loc}", x.name, r_args(&x.args))); if let Some(def) = self.rs.dir(&x.name) { self.args(&x.args, &def.args.clone(), c) } }
    }
    fn sels(&mut self, s: &[Sel], t: &str) {
        self.p("selection-set", format!("{t}: {}", r_sel(s)));
        for x in s { match x {
            Sel::Field(f) => {
                let Some(d) = self.rs.field(t, &f.name).cloned() else { continue };
                let r = self.root.clone();
                self.p("field", format!("{} as {} in {r}", r_field(f), r_fdef(&d)));
                self.dirs(&f.dirs, "FIELD", false); self.args(&f.args, &d.args, false);
                if !f.sel.is_empty() && self.rs.ty(d.ty.base()).is_some() { self.sels(&f.sel, d.ty.base()) }
            }
            Sel::Inline { cond, dirs, sel } => {
                self.dirs(dirs, "INLINE_FRAGMENT", false);
                let c = cond.clone().unwrap_or(t.to_string());
                if self.rs.ty(&c).is_some() { self.sels(sel, &c) }
                self.p("inline", format!("{cond:?} in {t}: {}", r_sel(sel)));
            }
            Sel::Spread { name, dirs } => { self.dirs(dirs, "FRAGMENT_SPREAD", false); let r = self.root.clone(); self.p("spread", format!("{name} in {t} of {r}")) }
        } }
    }
    fn doc(&mut self, d: &Doc) {
        for o in &d.ops {
            self.root = format!("op {:?}", o.name.as_deref());
            self.p("operation", r_op(o));
            self.dirs(&o.dirs, match o.kind { OpKind::Query => "QUERY", OpKind::Mutation => "MUTATION", OpKind::Subscription => "SUBSCRIPTION" }, false);
            if !o.vars.is_empty() { self.p("variables", o.vars.iter().map(r_var).collect::<Vec<_>>().join(" ")) }
            for v in &o.vars { self.dirs(&v.dirs, "VARIABLE_DEFINITION", true); self.p("variable", r_var(v)) }
            if let Some(r) = self.rs.root(o.kind).map(str::to_string) { self.sels(&o.sel, &r) }
        }
        for f in &d.frags {
            self.root = format!("fragment {}", f.name);
            if self.rs.ty(&f.cond).is_some() { self.sels(&f.sel, &f.cond) }
            self.dirs(&f.dirs, "FRAGMENT_DEFINITION", false);
            self.p("fragment", format!("{} on {}", f.name, f.cond));
        }
    }
}
/// kinds whose calls come in textual order; the others are compared as multisets
const ORDERED: &[&str] = &["operation", "selection-set", "field", "spread", "fragment", "variable", "variables", "path"];
fn by_kind(ev: &[String]) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for e in ev { let (k, r) = e.split_once('|').unwrap(); m.entry(k.to_string()).or_default().push(r.to_string()) }
    for (k, v) in &mut m { if !ORDERED.contains(&k.as_str()) { v.sort() } }
    m
}
fn diff(want: &[String], got: &[String]) -> Option<(String, String)> {
    let (w, g) = (by_kind(want), by_kind(got));
    let e = vec![];
    for k in w.keys().chain(g.keys()) {
        let (a, b) = (w.get(k).unwrap_or(&e), g.get(k).unwrap_or(&e));
        if a != b { let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len())); return Some((k.clone(), format!("{k} call {i} of {}/{}: expected {:?}, got {:?}", a.len(), b.len(), a.get(i), b.get(i)))) }
    }
    None
}
pub fn c25(c: &mut Ctx) {
    let sd = genschema::schema(&mut c.rng, &GS { descs: 0, dirs: 25, ..GS::default() });
    let gd = GD { dirs: 35, skips: 15, vars: 30, frags: 6, ops: (1, 4), depth: c.rng.r(2, 5), ..GD::default() };
    on_sdoc(c, &sd, |c, rs, schema, sdl| {
        for _ in 0..5 {
            let d = gendoc::doc(&mut c.rng, rs, &gd);
            one(c, rs, schema, sdl, &d, true);
            for _ in 0..2 { let mut m = d.clone(); for _ in 0..c.rng.r(1, 3) { gendoc::mutate(&mut c.rng, rs, &mut m); } if m != d { one(c, rs, schema, sdl, &m, false) } }
        }
    })
}
fn one(c: &mut Ctx, rs: &RS, schema: &Schema, sdl: &str, d: &Doc, clean: bool) {
    let v = refval::validate(rs, d);
    if v.gave_up { return }
    // ambiguous fragment names: which definition a spread means is open
    let vague = v.vague;
    let text = doc_text(d);
    let mut r = R { rs, ev: vec![], root: String::new() }; r.doc(d); let want = r.ev;
    let Some((got, as_rule, errs)) = c.sut("document visitor", || format!("{text}\n{sdl}"), || {
        let e = ExecutableDocument::parse(text.as_str()).unwrap(); let ca = Cache::new(&e, schema);
        let a = vd::Orchestrator::<_, _, Log>::analyze(&e, schema, &ca).ev;
        let b: Vec<String> = vd::Orchestrator::<_, _, (LogRule, LogRule)>::validate(&e, schema, &ca).collect();
        // next to the built-in rules
        let (x, l) = vd::Orchestrator::<_, _, (vd::BuiltinRules<_, _>, Log)>::validate_and_analyze(&e, schema, &ca);
        let n: Vec<&'static str> = x.map(|e| kind(&e)).collect();
        let mut b2 = b.clone(); let k = b.len() / 2; let first: Vec<String> = b2.drain(..k).collect();
        (a, if first == b2 && l.ev == first { first } else { vec!["mismatch|the recorders of one run differ".to_string()] }, n.len())
    }) else { return };
    let _ = errs;
    c.eval(want.len() > 3, &text);
    c.add("document-events", got.len() as u64);
    c.obs(if clean { "valid-document" } else { "edited-document" });
    for e in &want { c.obs(&format!("event:{}", e.split('|').next().unwrap())) }
    c.sample(|| json!({"document": text, "events": want.len(), "first": want.iter().take(6).collect::<Vec<_>>()}));
    if let Some((k, w)) = diff(&want, &got) { return c.fail(&format!("document:{k}"), format!("{w}\n--- document\n{text}\n--- schema\n{sdl}")) }
    if as_rule != got { return c.fail("document:rule", format!("recorders running as rules see other events\n--- document\n{text}\n--- schema\n{sdl}")) }
    if vague { return }
    for (i, o) in d.ops.iter().enumerate() {
        if d.ops[..i].iter().any(|x| x.name == o.name) || (o.name.is_none() && d.ops.len() != 1) { continue }
        let p: Payload = payload(&mut c.rng, rs, o);
        let env = Env { rs, doc: d, op: o, vars: &p };
        let mut want = vec![]; let mut unknown = false;
        env.events(&mut |e| match e {
            Ev::Enter { field, def, owner, inc } => { if inc == Inc::Unknown { unknown = true } want.push(format!("path|enter {} as {} in {owner} {}", r_field(&field), r_fdef(&def), inc == Inc::Yes)) }
            Ev::Leave { key, owner, inc } => want.push(format!("path|leave {key} in {owner} {}", inc == Inc::Yes)),
            Ev::Arg { name, val, def, .. } => want.push(format!("argument|{name}:{} as {}", val_text(&val), r_idef(&def))),
            Ev::VarDef { name } => want.push(format!("variable|{name}")),
        });
        let Some((got, both)) = c.sut("operation visitor", || format!("{:?} {p:?}\n{text}\n{sdl}", o.name), || {
            let e = ExecutableDocument::parse(text.as_str()).unwrap(); let ca = Cache::new(&e, schema);
            let a = vo::Orchestrator::<_, _, Payload, OpLog>::analyze(&e, schema, o.name.as_deref(), &p, &ca, ()).unwrap();
            let (x, y) = vo::Orchestrator::<_, _, Payload, (OpLog, OpLog)>::analyze(&e, schema, o.name.as_deref(), &p, &ca, ((), ())).unwrap();
            let same = x == a && y == a; (a, same)
        }) else { return };
        if !both { return c.fail("operation:combined", format!("recorders of one run differ\n{:?} {p:?}\n{text}\n{sdl}", o.name)) }
        c.add("operation-events", got.len() as u64);
        if unknown { c.obs("open-inclusion"); continue }
        if want.iter().any(|e| e.ends_with("false") && e.starts_with("path|enter")) { c.obs("excluded-fields") }
        if let Some((k, w)) = diff(&want, &got) { return c.fail(&format!("operation:{k}"), format!("{w}\n--- operation {:?} variables {p:?}\n--- document\n{text}\n--- schema\n{sdl}", o.name)) }
    }
    let _ = cd::DirectiveLocation::Field;
}
