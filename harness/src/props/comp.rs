//! C19 C20: schema comparison against a reference diff and against client documents.
use crate::bj;
use crate::emit::{doc_text, val_text};
use crate::gendoc::{self, GD};
use crate::genschema::{self, GS};
use crate::model::*;
use crate::refbuild;
use crate::refval::{self, MERGE};
use crate::rng::Rng;
use crate::rschema::RS;
use crate::run::Ctx;
use crate::schevo::{self, Class};
use crate::sys::{vtext, with_schema};
use bluejay_core::definition::{self as cd, prelude::*, SchemaDefinition};
use bluejay_core::{Argument as _, Directive as _};
use bluejay_schema_comparator::{compare, Change, Criticality};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

// ---- the reference diff: one line per difference ----
/// Values compare without regard to the order of object fields.
pub fn canon(v: &Val) -> String {
    match v {
        Val::Obj(o) => { let m: BTreeMap<&str, String> = o.iter().map(|(k, v)| (k.as_str(), canon(v))).collect(); format!("{{{}}}", m.iter().map(|(k, v)| format!("{k}:{v}")).collect::<Vec<_>>().join(",")) }
        Val::List(l) => format!("[{}]", l.iter().map(canon).collect::<Vec<_>>().join(",")),
        Val::Float(f) if f.0 == 0.0 => "0.0".into(),
        Val::Float(f) => format!("{:e}f", f.0),
        Val::Str(s) => format!("{s:?}"),
        v => val_text(v),
    }
}
fn dv(d: &Option<Val>) -> String { d.as_ref().map(canon).unwrap_or("none".into()) }
fn dd(d: &Option<String>) -> String { format!("{d:?}") }
fn dargs(a: &[(String, Val)]) -> String { let mut v: Vec<String> = a.iter().map(|(n, v)| format!("{n}:{}", canon(v))).collect(); v.sort(); v.join(",") }

struct D(Vec<String>);
impl D {
    fn p(&mut self, kind: &str, path: impl AsRef<str>, detail: impl AsRef<str>) { self.0.push(format!("{kind}|{}|{}", path.as_ref(), detail.as_ref())) }
    fn dirs(&mut self, a: &[Dir], b: &[Dir], loc: &str, member: &str) {
        let names: BTreeSet<&str> = a.iter().chain(b).map(|d| d.name.as_str()).collect();
        for n in names {
            let x: Vec<&Dir> = a.iter().filter(|d| d.name == n).collect(); let y: Vec<&Dir> = b.iter().filter(|d| d.name == n).collect();
            for i in 0..x.len().max(y.len()) {
                match (x.get(i), y.get(i)) {
                    (Some(d), None) => self.p("DirectiveRemoved", n, format!("{loc} {member} ({})", dargs(&d.args))),
                    (None, Some(d)) => self.p("DirectiveAdded", n, format!("{loc} {member} ({})", dargs(&d.args))),
                    (Some(o), Some(w)) => {
                        for (k, v) in &o.args { match w.args.iter().find(|z| &z.0 == k) { None => self.p("DirectiveArgumentRemoved", format!("@{n}.{k}"), canon(v)), Some(z) => if canon(v) != canon(&z.1) { self.p("DirectiveArgumentValueChanged", format!("@{n}.{k}"), format!("{} -> {}", canon(v), canon(&z.1))) } } }
                        for (k, v) in &w.args { if !o.args.iter().any(|z| &z.0 == k) { self.p("DirectiveArgumentAdded", format!("@{n}.{k}"), canon(v)) } }
                    }
                    _ => {}
                }
            }
        }
    }
    fn input(&mut self, prefix: &str, path: &str, a: &InputVal, b: &InputVal, loc: &str) {
        if a.desc != b.desc { self.p(&format!("{prefix}DescriptionChanged"), path, format!("{} -> {}", dd(&a.desc), dd(&b.desc))) }
        if a.ty != b.ty { self.p(&format!("{prefix}TypeChanged"), path, format!("{} -> {}", a.ty.show(), b.ty.show())) }
        if dv(&a.default) != dv(&b.default) { self.p(&format!("{prefix}DefaultValueChanged"), path, format!("{} -> {}", dv(&a.default), dv(&b.default))) }
        self.dirs(&a.dirs, &b.dirs, loc, &a.name);
    }
    fn inputs(&mut self, prefix: &str, base: &str, a: &[InputVal], b: &[InputVal], loc: &str) {
        for x in a { let path = format!("{base}.{}", x.name); match b.iter().find(|y| y.name == x.name) { None => self.p(&format!("{prefix}Removed"), path, x.ty.show()), Some(y) => self.input(prefix, &path, x, y, loc) } }
        for y in b { if !a.iter().any(|x| x.name == y.name) { self.p(&format!("{prefix}Added"), format!("{base}.{}", y.name), y.ty.show()) } }
    }
    fn fields(&mut self, t: &str, a: &[FieldDef], b: &[FieldDef]) {
        for x in a {
            let path = format!("{t}.{}", x.name);
            let Some(y) = b.iter().find(|y| y.name == x.name) else { self.p("FieldRemoved", path, x.ty.show()); continue };
            if x.desc != y.desc { self.p("FieldDescriptionChanged", &path, format!("{} -> {}", dd(&x.desc), dd(&y.desc))) }
            if x.ty != y.ty { self.p("FieldTypeChanged", &path, format!("{} -> {}", x.ty.show(), y.ty.show())) }
            self.inputs("FieldArgument", &path, &x.args, &y.args, "ARGUMENT_DEFINITION");
            self.dirs(&x.dirs, &y.dirs, "FIELD_DEFINITION", &x.name);
        }
        for y in b { if !a.iter().any(|x| x.name == y.name) { self.p("FieldAdded", format!("{t}.{}", y.name), y.ty.show()) } }
    }
    fn typ(&mut self, a: &TypeDef, b: &TypeDef) {
        let n = &a.name;
        if a.desc != b.desc { self.p("TypeDescriptionChanged", n, format!("{} -> {}", dd(&a.desc), dd(&b.desc))) }
        let loc = match (&a.kind, &b.kind) {
            (Kind::Scalar, Kind::Scalar) => "SCALAR",
            (Kind::Object { ifaces: i, fields: f }, Kind::Object { ifaces: j, fields: g }) => {
                for x in i { if !j.contains(x) { self.p("ObjectInterfaceRemoval", n, x) } }
                for x in j { if !i.contains(x) { self.p("ObjectInterfaceAddition", n, x) } }
                self.fields(n, f, g); "OBJECT"
            }
            (Kind::Interface { fields: f, .. }, Kind::Interface { fields: g, .. }) => { self.fields(n, f, g); "INTERFACE" }
            (Kind::Union { members: i }, Kind::Union { members: j }) => {
                for x in i { if !j.contains(x) { self.p("UnionMemberRemoved", n, x) } }
                for x in j { if !i.contains(x) { self.p("UnionMemberAdded", n, x) } }
                "UNION"
            }
            (Kind::Enum { values: f }, Kind::Enum { values: g }) => {
                for x in f { match g.iter().find(|y| y.name == x.name) { None => self.p("EnumValueRemoved", format!("{n}.{}", x.name), ""), Some(y) => { if x.desc != y.desc { self.p("EnumValueDescriptionChanged", format!("{n}.{}", x.name), format!("{} -> {}", dd(&x.desc), dd(&y.desc))) } self.dirs(&x.dirs, &y.dirs, "ENUM_VALUE", &x.name) } } }
                for y in g { if !f.iter().any(|x| x.name == y.name) { self.p("EnumValueAdded", format!("{n}.{}", y.name), "") } }
                "ENUM"
            }
            (Kind::Input { fields: f }, Kind::Input { fields: g }) => { self.inputs("InputField", n, f, g, "INPUT_FIELD_DEFINITION"); "INPUT_OBJECT" }
            _ => { self.p("TypeKindChanged", n, format!("{} -> {}", word(&a.kind), word(&b.kind))); return }
        };
        self.dirs(&a.dirs, &b.dirs, loc, n);
    }
}
fn word(k: &Kind) -> &'static str { match k { Kind::Scalar => "SCALAR", Kind::Object { .. } => "OBJECT", Kind::Interface { .. } => "INTERFACE", Kind::Union { .. } => "UNION", Kind::Enum { .. } => "ENUM", Kind::Input { .. } => "INPUT_OBJECT" } }

pub fn diff(a: &RS, b: &RS) -> Vec<String> {
    let mut d = D(vec![]);
    // the root query type has two more fields than it declares
    let meta = |rs: &RS, t: &TypeDef| -> TypeDef { let mut t = t.clone(); if t.name == rs.query { if let Some(f) = t.fields_mut() { f.push(FieldDef { desc: None, name: "__schema".into(), args: vec![], ty: Ty::named("__Schema").nn(), dirs: vec![] }); f.push(FieldDef { desc: None, name: "__type".into(), args: vec![InputVal { desc: None, name: "name".into(), ty: Ty::named("String").nn(), default: None, dirs: vec![] }], ty: Ty::named("__Type"), dirs: vec![] }) } } if matches!(t.kind, Kind::Object { .. } | Kind::Interface { .. }) { if let Some(f) = t.fields_mut() { f.push(FieldDef { desc: None, name: "__typename".into(), args: vec![], ty: Ty::named("String").nn(), dirs: vec![] }) } } t };
    for (n, t) in &a.types { match b.types.get(n) { None => d.p("TypeRemoved", n, word(&t.kind)), Some(u) => d.typ(&meta(a, t), &meta(b, u)) } }
    for (n, u) in &b.types { if !a.types.contains_key(n) { d.p("TypeAdded", n, word(&u.kind)) } }
    for (n, t) in &a.dirs {
        let path = format!("@{n}");
        let Some(u) = b.dirs.get(n) else { d.p("DirectiveDefinitionRemoved", path, ""); continue };
        if t.desc != u.desc { d.p("DirectiveDefinitionDescriptionChanged", &path, format!("{} -> {}", dd(&t.desc), dd(&u.desc))) }
        for l in &t.locs { if !u.locs.contains(l) { d.p("DirectiveDefinitionLocationRemoved", &path, l) } }
        for l in &u.locs { if !t.locs.contains(l) { d.p("DirectiveDefinitionLocationAdded", &path, l) } }
        d.inputs("DirectiveDefinitionArgument", &path, &t.args, &u.args, "ARGUMENT_DEFINITION");
    }
    for n in b.dirs.keys() { if !a.dirs.contains_key(n) { d.p("DirectiveDefinitionAdded", format!("@{n}"), "") } }
    d.dirs(&a.schema_dirs, &b.schema_dirs, "SCHEMA", "");
    d.0
}

// ---- what bluejay reported, in the same form ----
fn iv<I: cd::InputValueDefinition>(k: &str, a: &I, b: &I) -> String {
    let (a, b) = (bj::input_val(a), bj::input_val(b));
    if k.ends_with("DescriptionChanged") { format!("{} -> {}", dd(&a.desc), dd(&b.desc)) } else if k.ends_with("TypeChanged") { format!("{} -> {}", a.ty.show(), b.ty.show()) } else { format!("{} -> {}", dv(&a.default), dv(&b.default)) }
}
pub fn key<S: SchemaDefinition>(c: &Change<'_, S>) -> String {
    use Change as C;
    let k = c.as_ref();
    let ds = |a: Option<&str>, b: Option<&str>| format!("{} -> {}", dd(&a.map(str::to_string)), dd(&b.map(str::to_string)));
    let kd = |t: &cd::TypeDefinitionReference<'_, S::TypeDefinition>| word(&bj::typedef(*t, true).kind);
    let detail = match c {
        C::TypeRemoved { removed_type_definition: t } | C::TypeAdded { added_type_definition: t } => kd(t).to_string(),
        C::TypeKindChanged { old_type_definition: a, new_type_definition: b } => format!("{} -> {}", kd(a), kd(b)),
        C::TypeDescriptionChanged { old_type_definition: a, new_type_definition: b } => ds(a.description(), b.description()),
        C::FieldAdded { added_field_definition: f, .. } | C::FieldRemoved { removed_field_definition: f, .. } => bj::oty(f.r#type()).show(),
        C::FieldDescriptionChanged { old_field_definition: a, new_field_definition: b, .. } => ds(a.description(), b.description()),
        C::FieldTypeChanged { old_field_definition: a, new_field_definition: b, .. } => format!("{} -> {}", bj::oty(a.r#type()).show(), bj::oty(b.r#type()).show()),
        C::FieldArgumentAdded { argument_definition: a, .. } | C::FieldArgumentRemoved { argument_definition: a, .. } | C::DirectiveDefinitionArgumentAdded { argument_definition: a, .. } | C::DirectiveDefinitionArgumentRemoved { argument_definition: a, .. } | C::InputFieldAdded { added_field_definition: a, .. } | C::InputFieldRemoved { removed_field_definition: a, .. } => bj::ity(a.r#type()).show(),
        C::FieldArgumentDescriptionChanged { old_argument_definition: a, new_argument_definition: b, .. } | C::FieldArgumentDefaultValueChanged { old_argument_definition: a, new_argument_definition: b, .. } | C::FieldArgumentTypeChanged { old_argument_definition: a, new_argument_definition: b, .. }
        | C::DirectiveDefinitionArgumentDescriptionChanged { old_argument_definition: a, new_argument_definition: b, .. } | C::DirectiveDefinitionArgumentDefaultValueChanged { old_argument_definition: a, new_argument_definition: b, .. } | C::DirectiveDefinitionArgumentTypeChanged { old_argument_definition: a, new_argument_definition: b, .. }
        | C::InputFieldDescriptionChanged { old_field_definition: a, new_field_definition: b, .. } | C::InputFieldTypeChanged { old_field_definition: a, new_field_definition: b, .. } | C::InputFieldDefaultValueChanged { old_field_definition: a, new_field_definition: b, .. } => iv(k, *a, *b),
        C::ObjectInterfaceAddition { interface_implementation: i, .. } | C::ObjectInterfaceRemoval { interface_implementation: i, .. } => i.name().to_string(),
        C::EnumValueAdded { .. } | C::EnumValueRemoved { .. } => String::new(),
        C::EnumValueDescriptionChanged { old_enum_value_definition: a, new_enum_value_definition: b, .. } => ds(a.description(), b.description()),
        C::UnionMemberAdded { union_member_type: m, .. } | C::UnionMemberRemoved { union_member_type: m, .. } => m.name().to_string(),
        C::DirectiveDefinitionAdded { .. } | C::DirectiveDefinitionRemoved { .. } => String::new(),
        C::DirectiveDefinitionLocationAdded { location, .. } | C::DirectiveDefinitionLocationRemoved { location, .. } => location.to_string(),
        C::DirectiveDefinitionDescriptionChanged { old_directive_definition: a, new_directive_definition: b } => ds(a.description(), b.description()),
        C::DirectiveAdded { location, member_name, directive } | C::DirectiveRemoved { location, member_name, directive } => format!("{location} {member_name} ({})", dargs(&bj::args(directive.arguments()))),
        C::DirectiveArgumentAdded { argument, .. } | C::DirectiveArgumentRemoved { argument, .. } => canon(&bj::val(argument.value())),
        C::DirectiveArgumentValueChanged { old_argument: a, new_argument: b, .. } => format!("{} -> {}", canon(&bj::val(a.value())), canon(&bj::val(b.value()))),
    };
    format!("{k}|{}|{detail}", c.path())
}
#[derive(Clone, Debug)]
struct Rep { key: String, crit: char, message: String }
fn reported(old: &str, new: &str) -> Result<Vec<Rep>, String> {
    with_schema(old, |a| with_schema(new, |b| compare(a, b).changes.iter().map(|c| {
        let crit = match c.criticality() { Criticality::Breaking { .. } => 'B', Criticality::Dangerous { .. } => 'D', Criticality::Safe { .. } => 'S' };
        assert_eq!((c.breaking(), c.dangerous(), c.non_breaking()), (crit == 'B', crit == 'D', crit == 'S'), "the predicates disagree with the criticality of {}", key(c));
        assert!(!c.criticality().reason().is_empty());
        Rep { key: key(c), crit, message: c.message() }
    }).collect()))?
}
fn bag(v: &[String]) -> BTreeMap<&str, i32> { let mut m = BTreeMap::new(); for x in v { *m.entry(x.as_str()).or_insert(0) += 1 } m }

fn judge19(c: &mut Ctx, old: &SDoc, new: &SDoc, how: &str) {
    let (a, b) = (vtext(old), vtext(new));
    let input = || format!("--- edits: {how}\n--- old\n{a}\n--- new\n{b}");
    let Some(r) = c.sut("compare", input, || reported(&a, &b)) else { return };
    let got = match r { Ok(g) => g, Err(e) => { c.fail("unbuildable", format!("{e}\n{}", input())); return } };
    let want = diff(&RS::new(old), &RS::new(new));
    let gk: Vec<String> = got.iter().map(|r| r.key.clone()).collect();
    let (w, g) = (bag(&want), bag(&gk));
    c.eval(true, &format!("{a}\u{0}{b}"));
    c.add("changes", want.len() as u64);
    for k in &want { c.obs(&format!("change:{}", k.split('|').next().unwrap())) }
    c.obs(if want.is_empty() { "equal" } else { "different" });
    c.sample(|| json!({"old": a, "new": b, "edits": how, "differences": want}));
    for (k, n) in &w { let m = g.get(k).copied().unwrap_or(0); if m < *n { return c.fail(&format!("missed:{}", k.split('|').next().unwrap()), format!("difference `{k}` is not reported (reported: {gk:#?})\n{}", input())) } }
    for (k, n) in &g { if w.get(k).copied().unwrap_or(0) < *n { return c.fail(&format!("spurious:{}", k.split('|').next().unwrap()), format!("`{k}` is reported but is not a difference, or not that often (differences: {want:#?})\n{}", input())) } }
    // a message names what changed, old before new
    for r in &got {
        let p: Vec<&str> = r.key.split('|').collect();
        let last = p[1].rsplit('.').next().unwrap().trim_start_matches('@');
        if !r.message.contains(last) { return c.fail("message:element", format!("the message of `{}` does not name the element: {}\n{}", r.key, r.message, input())) }
        if p[0].ends_with("TypeChanged") { if let Some((o, n)) = p[2].split_once(" -> ") { if !r.message.contains(&format!("from `{o}` to `{n}`")) && r.message.contains(&format!("from `{n}` to `{o}`")) { return c.fail("message:direction", format!("the message of `{}` has the wrong direction: {}\n{}", r.key, r.message, input())) } } }
    }
}
/// same definitions in another order
fn reorder(r: &mut Rng, d: &SDoc) -> SDoc {
    let mut d = d.clone(); r.shuffle(&mut d.defs);
    for t in d.types_mut() { match &mut t.kind { Kind::Object { ifaces, fields } | Kind::Interface { ifaces, fields } => { r.shuffle(ifaces); r.shuffle(fields); for f in fields { r.shuffle(&mut f.args); by_name(r, &mut f.dirs) } } Kind::Union { members } => r.shuffle(members), Kind::Enum { values } => { r.shuffle(values); for v in values { by_name(r, &mut v.dirs) } } Kind::Input { fields } => { r.shuffle(fields); for v in fields { by_name(r, &mut v.dirs) } } _ => {} } by_name(r, &mut t.dirs) }
    for x in d.dirs_mut() { r.shuffle(&mut x.locs); r.shuffle(&mut x.args) }
    d
}
/// shuffles directives, leaving the relative order of equally named ones
fn by_name(r: &mut Rng, v: &mut Vec<Dir>) {
    let mut names: Vec<String> = v.iter().map(|d| d.name.clone()).collect(); r.shuffle(&mut names);
    let mut out = vec![]; let mut used = vec![false; v.len()];
    for n in names { let i = (0..v.len()).find(|i| !used[*i] && v[*i].name == n).unwrap(); used[i] = true; let mut d = v[i].clone(); r.shuffle(&mut d.args); out.push(d) }
    *v = out;
}
/// applies directives to the arguments of directive definitions now and then
fn on_dir_args(r: &mut Rng, d: &mut SDoc) {
    if !r.p(40) { return }
    for x in d.dirs_mut() { for a in &mut x.args { if !a.ty.req() && r.p(30) { a.dirs.push(Dir { name: "deprecated".into(), args: if r.p(50) { vec![("reason".into(), Val::Str(r.ps(&["x", "y"]).into()))] } else { vec![] } }) } } }
}
fn base(c: &mut Ctx) -> SDoc {
    let gs = GS { descs: 25, dirs: 30, wild_strings: true, ..GS::default() };
    loop { let mut d = genschema::schema(&mut c.rng, &gs); if c.rng.n(150) == 0 { let n = *c.rng.pick(&[20usize, 70, 150]); genschema::crowd(&mut d, &mut c.rng, n); c.obs("crowded") } on_dir_args(&mut c.rng, &mut d); if refbuild::reasons(&d).is_empty() { return d } c.obs("unbuildable-base") }
}

pub fn c19(c: &mut Ctx) {
    let old = base(c);
    let r = reorder(&mut c.rng, &old);
    judge19(c, &old, &old, "none"); judge19(c, &old, &r, "reorder only");
    for k in 0..6 {
        let mut new = if c.rng.p(30) { r.clone() } else { old.clone() };
        let n = if k < 3 { 1 } else { c.rng.r(2, 8) };
        let mut how = vec![]; let mut tries = 0;
        while how.len() < n && tries < 40 { tries += 1; if let Some(l) = schevo::edit(&mut new, &mut c.rng, Class::Any) { c.obs(&format!("edit:{l}")); how.push(l) } }
        let how = how.join(", ");
        judge19(c, &old, &new, &how);
        judge19(c, &new, &old, &format!("{how} (backwards)"));
    }
    let other = base(c);
    judge19(c, &old, &other, "unrelated schemas");
}
fn none_reported(old: &str, new: &str) -> bool { reported(old, new).map_or(false, |r| r.is_empty()) }
pub fn c19_probes(c: &mut Ctx) {
    let q = "type Query { a: Int } type M { a: Int }";
    for (sig, a, b) in [
        ("probe:root-operation", format!("schema {{ query: Query }} {q}"), format!("schema {{ query: Query mutation: M }} {q}")),
        ("probe:repeatable", format!("directive @d repeatable on FIELD {q}"), format!("directive @d on FIELD {q}")),
        ("probe:interface-implements", format!("interface I implements J {{ a: Int }} interface J {{ a: Int }} {q}"), format!("interface I {{ a: Int }} interface J {{ a: Int }} {q}")),
        ("probe:schema-description", format!("\"one\" schema {{ query: Query }} {q}"), format!("\"two\" schema {{ query: Query }} {q}")),
    ] { if none_reported(&a, &b) { c.fail(sig, format!("nothing is reported\n--- old\n{a}\n--- new\n{b}")) } }
}

// ---- C20 ----
fn out_ok(a: &Ty, b: &Ty) -> bool { (b.req() || !a.req()) && match (a, b) { (Ty::Named(x, _), Ty::Named(y, _)) => x == y, (Ty::List(x, _), Ty::List(y, _)) => out_ok(x, y), _ => false } }
fn in_ok(a: &Ty, b: &Ty) -> bool { out_ok(b, a) }
fn mandatory(i: &InputVal) -> bool { i.ty.req() && i.default.is_none() }
fn inputs_lost(o: &mut Vec<String>, path: &str, a: &[InputVal], b: &[InputVal]) {
    for x in a { match b.iter().find(|y| y.name == x.name) { None => o.push(format!("{path}.{} is gone", x.name)), Some(y) => { if !in_ok(&x.ty, &y.ty) { o.push(format!("{path}.{} no longer takes {} but {}", x.name, x.ty.show(), y.ty.show())) } else if mandatory(y) && !mandatory(x) { o.push(format!("{path}.{} became mandatory", x.name)) } } } }
    for y in b { if mandatory(y) && !a.iter().any(|x| x.name == y.name) { o.push(format!("{path}.{} is new and mandatory", y.name)) } }
}
/// what a client of `a` can no longer do with `b`
pub fn lost(a: &RS, b: &RS) -> Vec<String> {
    let mut o = vec![];
    for (n, t) in &a.types {
        let Some(u) = b.types.get(n) else { o.push(format!("type {n} is gone")); continue };
        if word(&t.kind) != word(&u.kind) { o.push(format!("{n} is another kind")); continue }
        for f in t.fields() { match u.field(&f.name) { None => o.push(format!("{n}.{} is gone", f.name)), Some(g) => { if !out_ok(&f.ty, &g.ty) { o.push(format!("{n}.{} gives {} instead of {}", f.name, g.ty.show(), f.ty.show())) } inputs_lost(&mut o, &format!("{n}.{}", f.name), &f.args, &g.args) } } }
        if t.is_object() { for i in t.ifaces() { if !u.ifaces().contains(i) { o.push(format!("{n} no longer implements {i}")) } } }
        for m in t.members() { if !u.members().contains(m) { o.push(format!("{n} lost member {m}")) } }
        for v in t.values() { if !u.values().iter().any(|w| w.name == v.name) { o.push(format!("{n} lost value {}", v.name)) } }
        if matches!(t.kind, Kind::Input { .. }) { inputs_lost(&mut o, n, t.input_fields(), u.input_fields()); if b.is_one_of(n) && !a.is_one_of(n) { o.push(format!("{n} became one-of")) } }
    }
    if a.query != b.query { o.push("the query root is another type".into()) }
    for (n, t) in &a.dirs {
        let exec = t.locs.iter().any(|l| EXEC_LOCS.contains(&l.as_str())); if !exec { continue }
        let Some(u) = b.dirs.get(n) else { o.push(format!("@{n} is gone")); continue };
        for l in &t.locs { if EXEC_LOCS.contains(&l.as_str()) && !u.locs.contains(l) { o.push(format!("@{n} is no longer allowed on {l}")) } }
        inputs_lost(&mut o, &format!("@{n}"), &t.args, &u.args);
    }
    o
}
pub fn c20(c: &mut Ctx) {
    let old = base(c);
    let ra = RS::new(&old); let a = vtext(&old);
    for _ in 0..5 {
        let class = match c.rng.n(10) { 0..=3 => Class::Ext, 4..=7 => Class::Mild, _ => Class::Any };
        let mut new = old.clone(); let n = c.rng.r(1, 4);
        let mut how = vec![]; let mut tries = 0;
        while how.len() < n && tries < 40 { tries += 1; if let Some(l) = schevo::edit(&mut new, &mut c.rng, class) { c.obs(&format!("edit:{l}")); how.push(l) } }
        let b = vtext(&new); let rb = RS::new(&new);
        let how = how.join(", ");
        let input = || format!("--- edits: {how}\n--- old\n{a}\n--- new\n{b}");
        let Some(r) = c.sut("compare", input, || reported(&a, &b)) else { return };
        let got = match r { Ok(g) => g, Err(e) => { c.fail("unbuildable", format!("{e}\n{}", input())); return } };
        let breaking: Vec<&Rep> = got.iter().filter(|r| r.crit == 'B').collect();
        c.eval(true, &format!("{a}\u{0}{b}"));
        for r in &got { c.obs(&format!("{}:{}", r.key.split('|').next().unwrap(), r.crit)) }
        if let (Class::Ext, Some(x)) = (class, breaking.first()) { return c.fail(&format!("extension-is-breaking:{}", x.key.split('|').next().unwrap()), format!("only extensions, but `{}` is reported as breaking\n{}", x.key, input())) }
        let l = lost(&ra, &rb);
        c.obs(match (breaking.is_empty(), l.is_empty()) { (true, _) => "no-breaking-change", (false, true) => "breaking-though-nothing-lost", (false, false) => "breaking" });
        if !breaking.is_empty() { continue }
        c.sample(|| json!({"old": a, "new": b, "edits": how, "changes": got.iter().map(|r| format!("{} {}", r.crit, r.key)).collect::<Vec<_>>()}));
        if let Some(x) = l.first() { return c.fail("silent-break", format!("no breaking change is reported, but {x}\n{}", input())) }
        let gd = GD { vars: 45, dirs: 25, ..GD::default() };
        for _ in 0..5 {
            let d = gendoc::doc(&mut c.rng, &ra, &gd);
            let v = refval::validate(&ra, &d); if v.gave_up || !v.must.is_empty() { c.obs("unusable-document"); continue }
            let w = refval::validate(&rb, &d); if w.gave_up { continue }
            c.obs("documents");
            if w.must.is_empty() { continue }
            // known: an output type made non-null next to one left nullable no longer merges
            if w.must.iter().all(|k| *k == MERGE[2]) { c.obs("no-longer-merges"); continue }
            return c.fail("client-broken", format!("no breaking change is reported, but a document valid on the old schema is invalid on the new one: {:?}\n{}\n--- document\n{}", w.must, input(), doc_text(&d)))
        }
    }
}
pub fn c20_probes(c: &mut Ctx) {
    let silent = |a: &str, b: &str| reported(a, b).map_or(false, |r| r.iter().all(|x| x.crit != 'B'));
    let q = "type Query { a: Int } type M { a: Int }";
    for (sig, a, b) in [
        ("probe:root-removed", format!("schema {{ query: Query mutation: M }} {q}"), format!("schema {{ query: Query }} {q}")),
        ("probe:repeatable-removed", format!("directive @d repeatable on FIELD {q}"), format!("directive @d on FIELD {q}")),
        ("probe:output-merge", "type Query { u: U } union U = A | B type A { x: Int } type B { y: Int }".to_string(), "type Query { u: U } union U = A | B type A { x: Int! } type B { y: Int }".to_string()),
    ] { if silent(&a, &b) { c.fail(sig, format!("no breaking change is reported\n--- old\n{a}\n--- new\n{b}")) } }
}
