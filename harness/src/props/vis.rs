//! C21 C22: schema views filtered by a warden, against a reference filter of the original's own view.
use crate::bj;
use crate::deep;
use crate::emit::{doc_text, val_text};
use crate::gendoc::{self, GD};
use crate::genschema::{self, GS};
use crate::model::*;
use crate::refparse;
use crate::refval::{self, MERGE};
use crate::rng::Rng;
use crate::rschema::RS;
use crate::run::Ctx;
use crate::sys::{vtext, with_schema, MonCtx, Schema};
use crate::props::valid::kind;
use bluejay_core::definition::{self as cd, prelude::*, SchemaDefinition, TypeDefinitionReference as TR};
use bluejay_core::AsIter;
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::ast::{definition as pd, Parse, Value};
use bluejay_printer::definition::SchemaDefinitionPrinter;
use bluejay_validator::executable::document::BuiltinRulesValidator;
use bluejay_validator::executable::Cache as VCache;
use bluejay_visibility::{self as bv, Cache, NullWarden, Warden};
use serde_json::json;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashSet};

fn p<T>(x: &T) -> usize { x as *const T as *const () as usize }

// ---- everything a schema exposes ----
#[derive(Clone, Debug, Default)]
pub struct Full {
    pub desc: Option<String>, pub dirs: Vec<Dir>, pub roots: Vec<(OpKind, String)>,
    pub types: BTreeMap<String, TypeDef>, pub directives: BTreeMap<String, DirDef>,
    pub builtin: BTreeSet<String>,
}
pub fn full<S: SchemaDefinition>(s: &S) -> Full {
    let mut f = Full { desc: s.description().map(str::to_string), dirs: bj::dirs(s.directives()), ..Default::default() };
    f.roots.push((OpKind::Query, s.query().name().to_string()));
    if let Some(m) = s.mutation() { f.roots.push((OpKind::Mutation, m.name().to_string())) }
    if let Some(m) = s.subscription() { f.roots.push((OpKind::Subscription, m.name().to_string())) }
    for t in s.type_definitions() { if t.is_builtin() { f.builtin.insert(t.name().to_string()); } f.types.insert(t.name().to_string(), bj::typedef(t, true)); }
    for d in s.directive_definitions() { let n = cd::DirectiveDefinition::name(d).to_string(); if d.is_builtin() { f.builtin.insert(format!("@{n}")); } f.directives.insert(n, bj::dirdef(d)); }
    f
}

/// Flattened: element path -> attributes, and parent -> children in order.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Flat { pub el: BTreeMap<String, String>, pub order: BTreeMap<String, Vec<String>> }
impl Flat {
    fn put(&mut self, parent: &str, path: String, attr: String) { self.order.entry(parent.to_string()).or_default().push(path.clone()); self.el.insert(path, attr); }
    fn dirs(&mut self, el: &str, d: &[Dir]) {
        let mut n: BTreeMap<&str, usize> = BTreeMap::new();
        for x in d { let k = n.entry(&x.name).or_default(); let path = format!("{el} has @{}#{k}", x.name); *k += 1; self.put(&format!("{el} directives"), path, x.args.iter().map(|(n, v)| format!("{n}: {}", val_text(v))).collect::<Vec<_>>().join(", ")) }
    }
    fn inputs(&mut self, parent: &str, v: &[InputVal]) { for i in v { let path = format!("{parent}.{}", i.name); self.put(parent, path.clone(), format!("{:?} {} = {}", i.desc, i.ty.show(), i.default.as_ref().map(val_text).unwrap_or_default())); self.dirs(&path, &i.dirs) } }
    pub fn typ(&mut self, t: &TypeDef) {
        let n = &t.name;
        self.el.insert(n.clone(), format!("{} {:?}", t.kind.word(), t.desc));
        self.dirs(n, &t.dirs);
        for f in t.fields() { let path = format!("{n}.{}", f.name); self.put(n, path.clone(), format!("{:?} {}", f.desc, f.ty.show())); self.dirs(&path, &f.dirs); self.inputs(&path, &f.args) }
        for i in t.ifaces() { self.put(&format!("{n} interfaces"), format!("{n} implements {i}"), String::new()) }
        for m in t.members() { self.put(&format!("{n} members"), format!("{n} = {m}"), String::new()) }
        for v in t.values() { let path = format!("{n}.{}", v.name); self.put(n, path.clone(), format!("{:?}", v.desc)); self.dirs(&path, &v.dirs) }
        self.inputs(n, t.input_fields());
    }
    pub fn dir(&mut self, d: &DirDef) { let path = format!("@{}", d.name); self.el.insert(path.clone(), format!("{:?} repeatable={} on {:?}", d.desc, d.repeatable, d.locs)); self.inputs(&path, &d.args) }
}
pub fn flat(f: &Full, builtins: bool) -> Flat {
    let mut o = Flat::default();
    o.el.insert("schema".into(), format!("{:?}", f.desc));
    o.dirs("schema", &f.dirs);
    for (k, n) in &f.roots { o.el.insert(format!("root {}", k.s()), n.clone()); }
    for t in f.types.values() { if builtins { o.typ(t) } else if !f.builtin.contains(&t.name) { let mut t = t.clone(); if let Some(x) = t.fields_mut() { x.retain(|f| !f.name.starts_with("__")) } o.typ(&t) } }
    for d in f.directives.values() { if builtins || !f.builtin.contains(&format!("@{}", d.name)) { o.dir(d) } }
    o
}
/// (leaks, losses and changes) of `got` against `want`
pub fn differ(want: &Flat, got: &Flat) -> (Vec<String>, Vec<String>) {
    let mut leak = vec![]; let mut loss = vec![];
    for (k, v) in &got.el { match want.el.get(k) { None => leak.push(format!("exposed: {k} ({v})")), Some(w) => if w != v { if k.starts_with("root ") { leak.push(format!("{k}: {v}, should be {w}")) } loss.push(format!("{k}: {v}\n   should be: {w}")) } } }
    for (k, v) in &want.el { if !got.el.contains_key(k) { loss.push(format!("missing: {k} ({v})")) } }
    if leak.is_empty() && loss.is_empty() { for (k, v) in &want.order { let g = got.order.get(k); if g != Some(v) { loss.push(format!("order of {k}: {g:?}\n   should be: {v:?}")) } } }
    (leak, loss)
}

// ---- the warden ----
#[derive(Default, Clone)]
pub struct Hide { ptr: HashSet<(char, usize)>, no_default: HashSet<usize>, no_args: HashSet<usize>, hook: bool }
pub struct HideWarden<'a> { h: Hide, _s: std::marker::PhantomData<Schema<'a>> }
impl<'a> HideWarden<'a> { fn vis<T>(&self, k: char, x: &T) -> bool { !self.h.ptr.contains(&(k, p(x))) } }
const HOOK: &str = "the warden's rule";
impl<'a> Warden for HideWarden<'a> {
    type SchemaDefinition = Schema<'a>;
    type TypeDefinitionsForName<'b> = std::option::IntoIter<TR<'b, pd::TypeDefinition<'a, MonCtx>>> where Self: 'b;
    fn is_field_definition_visible(&self, x: &pd::FieldDefinition<'a, MonCtx>) -> bool { self.vis('F', x) }
    fn is_input_value_definition_visible(&self, x: &pd::InputValueDefinition<'a, MonCtx>) -> bool { self.vis('A', x) }
    fn is_enum_value_definition_visible(&self, x: &pd::EnumValueDefinition<'a, MonCtx>) -> bool { self.vis('V', x) }
    fn is_union_member_type_visible(&self, x: &pd::UnionMemberType<'a, MonCtx>) -> bool { self.vis('M', x) }
    fn is_interface_implementation_visible(&self, x: &pd::InterfaceImplementation<'a, MonCtx>) -> bool { self.vis('I', x) }
    fn is_directive_definition_visible(&self, x: &pd::DirectiveDefinition<'a, MonCtx>) -> bool { self.vis('D', x) }
    fn is_custom_scalar_type_definition_visible(&self, x: &pd::CustomScalarTypeDefinition<'a, MonCtx>) -> bool { self.vis('T', x) }
    fn is_enum_type_definition_visible(&self, x: &pd::EnumTypeDefinition<'a, MonCtx>) -> bool { self.vis('T', x) }
    fn is_input_object_type_definition_visible(&self, x: &pd::InputObjectTypeDefinition<'a, MonCtx>) -> bool { self.vis('T', x) }
    fn is_interface_type_definition_visible(&self, x: &pd::InterfaceTypeDefinition<'a, MonCtx>) -> bool { self.vis('T', x) }
    fn is_object_type_definition_visible(&self, x: &pd::ObjectTypeDefinition<'a, MonCtx>) -> bool { self.vis('T', x) }
    fn is_union_type_definition_visible(&self, x: &pd::UnionTypeDefinition<'a, MonCtx>) -> bool { self.vis('T', x) }
    fn input_value_definition_default_value<'b>(&self, x: &bv::InputValueDefinition<'b, Schema<'a>, Self>) -> Option<&'b pd_value::V<'a>> { if self.h.no_default.contains(&p(x.inner())) { None } else { x.inner().default_value() } }
    fn directive_arguments<'b>(&self, x: &bv::Directive<'b, Schema<'a>, Self>) -> Option<&'b pd_value::Args<'a>> { if self.h.no_args.contains(&p(x.inner())) { None } else { bluejay_core::Directive::arguments(x.inner()) } }
    fn custom_scalar_definition_coerce_input<const CONST: bool>(&self, x: &pd::CustomScalarTypeDefinition<'a, MonCtx>, value: &impl bluejay_core::Value<CONST>) -> Result<(), Cow<'static, str>> {
        if self.h.hook && matches!(value.as_ref(), bluejay_core::ValueReference::String(s) if s == "hooked") { return Err(Cow::Borrowed(HOOK)) }
        x.coerce_input(value)
    }
    fn type_definitions_for_name<'b>(&self, s: &'b Schema<'a>, n: &str) -> Self::TypeDefinitionsForName<'b> { s.get_type_definition(n).into_iter() }
}
mod pd_value {
    use super::*;
    pub type V<'a> = <pd::InputValueDefinition<'a, MonCtx> as cd::InputValueDefinition>::Value;
    pub type Args<'a> = <<Schema<'a> as SchemaDefinition>::Directive as bluejay_core::Directive<true>>::Arguments;
}

/// Walk the original, decide what to hide, and build the reference: the visible elements.
struct Plan<'r> { r: &'r mut Rng, rate: u32, want: usize, intro: bool, hide: Hide, hidden: Vec<String>, no_default: u32, no_args: u32, kinds: &'static str }
impl<'r> Plan<'r> {
    fn cand(&mut self, k: char, ptr: usize, path: &str) -> bool {
        if !self.kinds.contains(k) || self.hidden.len() >= self.want { return false }
        let h = self.r.n(1000) < self.rate as usize;
        if h { self.hide.ptr.insert((k, ptr)); self.hidden.push(format!("{k} {path}")); }
        h
    }
}
type PS<'a> = Schema<'a>;
fn plan_dirs<'a>(pl: &mut Plan, d: Option<&<PS<'a> as SchemaDefinition>::Directives>, hid: &BTreeSet<String>) -> Vec<Dir> {
    let mut v = vec![];
    if let Some(d) = d { for x in d.iter() {
        let mut m = bj::dirs_one(x);
        if hid.contains(&m.name) { continue }
        if pl.no_args > 0 && pl.r.p(pl.no_args) { pl.hide.no_args.insert(p(x)); m.args.clear() }
        v.push(m)
    } }
    v
}
/// Type visibility first (types and directives), then members.
fn plan<'a>(s: &PS<'a>, pl: &mut Plan) -> (Full, Full) {
    let mut ht: BTreeSet<String> = BTreeSet::new(); let mut hd: BTreeSet<String> = BTreeSet::new();
    let q = s.query().name().to_string();
    let mut ts: Vec<_> = s.type_definitions().collect(); ts.sort_by(|a, b| a.name().cmp(b.name()));
    let mut ds: Vec<_> = s.directive_definitions().collect(); ds.sort_by(|a, b| cd::DirectiveDefinition::name(*a).cmp(cd::DirectiveDefinition::name(*b)));
    // start the lottery at a random place, so that a bound on the number of hidden things is fair
    let k = pl.r.n(3);
    let orig = full(s);
    let mut member_first = BTreeMap::new();
    if k == 0 { for t in &ts { if !t.is_builtin() && pl.r.p(30) { member_first.insert(t.name().to_string(), ()); } } }
    if k != 0 || pl.want > 3 {
        for t in &ts {
            if (t.is_builtin() && !pl.intro) || matches!(t, TR::BuiltinScalar(_)) || (t.name() == q && !pl.r.p(4)) { continue }
            if pl.cand('T', deep::addr(t).1, t.name()) { ht.insert(t.name().to_string()); }
        }
        for d in &ds { if !d.is_builtin() && pl.cand('D', p(*d), cd::DirectiveDefinition::name(*d)) { hd.insert(cd::DirectiveDefinition::name(*d).to_string()); } }
    }
    let shown = |t: &Ty| !ht.contains(t.base());
    let mut f = Full { desc: orig.desc.clone(), builtin: orig.builtin.clone(), ..Default::default() };
    for (k, n) in &orig.roots { if !ht.contains(n) { f.roots.push((*k, n.clone())) } }
    f.dirs = plan_dirs(pl, s.directives(), &hd);
    fn input<'a>(pl: &mut Plan, x: &pd::InputValueDefinition<'a, MonCtx>, at: &str, fixed: bool, hd: &BTreeSet<String>, shown: &dyn Fn(&Ty) -> bool) -> Option<InputVal> {
        let mut m = bj::input_val(x);
        let hide = !fixed && pl.cand('A', p(x), &format!("{at}.{}", m.name));
        m.dirs = plan_dirs(pl, x.directives(), hd);
        if pl.no_default > 0 && m.default.is_some() && pl.r.p(pl.no_default) { pl.hide.no_default.insert(p(x)); m.default = None }
        (!hide && shown(&m.ty)).then_some(m)
    }
    fn fields<'a>(pl: &mut Plan, fd: &<PS<'a> as SchemaDefinition>::FieldsDefinition, at: &str, hd: &BTreeSet<String>, shown: &dyn Fn(&Ty) -> bool) -> Vec<FieldDef> {
        let mut v = vec![]; let mut taken: BTreeSet<String> = BTreeSet::new();
        for x in fd.iter() {
            let mut m = bj::field_def(x);
            let fixed = if x.is_builtin() { m.name == "__typename" || !pl.intro } else { false };
            let path = format!("{at}.{}", m.name);
            let mut hide = !fixed && pl.cand('F', p(x), &path);
            // of fields with the same name at most one is visible
            if !hide && shown(&m.ty) && !taken.insert(m.name.clone()) { hide = true; pl.hide.ptr.insert(('F', p(x))); pl.hidden.push(format!("F {path} (again)")); }
            m.dirs = plan_dirs(pl, x.directives(), hd);
            m.args = x.arguments_definition().map(|a| a.iter().filter_map(|i| input(pl, i, &path, fixed, hd, shown)).collect()).unwrap_or_default();
            if !hide && shown(&m.ty) { v.push(m) }
        }
        v
    }
    fn ifaces<'a>(pl: &mut Plan, i: Option<&<PS<'a> as SchemaDefinition>::InterfaceImplementations>, at: &str, ht: &BTreeSet<String>) -> Vec<String> {
        let mut v = vec![];
        if let Some(i) = i { for x in i.iter() { let n = x.name().to_string(); let h = pl.cand('I', p(x), &format!("{at} implements {n}")); if !h && !ht.contains(&n) { v.push(n) } } }
        v
    }
    if pl.r.p(50) { ts.reverse() }
    for t in &ts {
        let n = t.name().to_string();
        let mut m = bj::typedef(*t, true);
        let bi = t.is_builtin() && !pl.intro;
        m.dirs = match t { TR::BuiltinScalar(_) => vec![], TR::CustomScalar(x) => plan_dirs(pl, x.directives(), &hd), TR::Object(x) => plan_dirs(pl, x.directives(), &hd), TR::Interface(x) => plan_dirs(pl, x.directives(), &hd), TR::Union(x) => plan_dirs(pl, cd::HasDirectives::directives(*x), &hd), TR::Enum(x) => plan_dirs(pl, x.directives(), &hd), TR::InputObject(x) => plan_dirs(pl, x.directives(), &hd) };
        let kinds = pl.kinds; if bi { pl.kinds = "" }
        m.kind = match t {
            TR::BuiltinScalar(_) | TR::CustomScalar(_) => Kind::Scalar,
            TR::Object(o) => Kind::Object { fields: fields(pl, o.fields_definition(), &n, &hd, &shown), ifaces: ifaces(pl, o.interface_implementations(), &n, &ht) },
            TR::Interface(o) => Kind::Interface { fields: fields(pl, o.fields_definition(), &n, &hd, &shown), ifaces: ifaces(pl, o.interface_implementations(), &n, &ht) },
            TR::Union(u) => Kind::Union { members: u.union_member_types().iter().filter_map(|x| { let k = cd::UnionMemberType::name(x).to_string(); let h = pl.cand('M', p(x), &format!("{n} = {k}")); (!h && !ht.contains(&k)).then_some(k) }).collect() },
            TR::Enum(e) => Kind::Enum { values: e.enum_value_definitions().iter().filter_map(|x| { let h = pl.cand('V', p(x), &format!("{n}.{}", x.name())); let dirs = plan_dirs(pl, x.directives(), &hd); (!h).then(|| EnumVal { desc: x.description().map(str::to_string), name: x.name().to_string(), dirs }) }).collect() },
            TR::InputObject(i) => Kind::Input { fields: i.input_field_definitions().iter().filter_map(|x| input(pl, x, &n, false, &hd, &shown)).collect() },
        };
        pl.kinds = kinds;
        if !ht.contains(&n) { f.types.insert(n, m); }
    }
    for d in &ds {
        let n = cd::DirectiveDefinition::name(*d).to_string();
        let mut m = bj::dirdef(*d);
        m.args = d.arguments_definition().map(|a| a.iter().filter_map(|i| input(pl, i, &format!("@{n}"), d.is_builtin(), &hd, &shown)).collect()).unwrap_or_default();
        if !hd.contains(&n) { f.directives.insert(n, m); }
    }
    (orig, f)
}

/// The part of `f` reachable from its roots and from directives usable in documents.
pub fn reachable(f: &Full) -> Full {
    struct V<'a> { f: &'a Full, t: BTreeSet<String>, d: BTreeSet<String>, todo: Vec<String> }
    impl<'a> V<'a> {
        fn dirs(&mut self, d: &[Dir]) { for x in d { self.dir(&x.name) } }
        fn dir(&mut self, n: &str) { if let Some(d) = self.f.directives.get(n) { if self.d.insert(n.to_string()) { self.inputs(&d.args) } } }
        fn inputs(&mut self, v: &[InputVal]) { for i in v { self.dirs(&i.dirs); self.ty(i.ty.base()) } }
        fn ty(&mut self, n: &str) { if self.f.types.contains_key(n) && self.t.insert(n.to_string()) { self.todo.push(n.to_string()) } }
    }
    let mut v = V { f, t: BTreeSet::new(), d: BTreeSet::new(), todo: vec![] };
    v.dirs(&f.dirs);
    for (n, d) in &f.directives { if f.builtin.contains(&format!("@{n}")) || d.locs.iter().any(|l| EXEC_LOCS.contains(&l.as_str())) { v.dir(n) } }
    for (_, n) in &f.roots { v.ty(n) }
    while let Some(n) = v.todo.pop() {
        let t = &f.types[&n];
        v.dirs(&t.dirs);
        for x in t.fields() { v.dirs(&x.dirs); v.inputs(&x.args); v.ty(x.ty.base()) }
        for i in t.ifaces() { v.ty(i) }
        for m in t.members() { v.ty(m) }
        for e in t.values() { v.dirs(&e.dirs) }
        v.inputs(t.input_fields());
        if matches!(t.kind, Kind::Interface { .. }) { for o in f.types.values() { if o.is_object() && o.ifaces().contains(&n) { v.ty(&o.name) } } }
    }
    let mut o = f.clone();
    o.types.retain(|k, _| v.t.contains(k)); o.directives.retain(|k, _| v.d.contains(k));
    o
}

fn one_type(t: &TypeDef) -> Flat { let mut f = Flat::default(); f.typ(t); f }
fn one_dir(t: &DirDef) -> Flat { let mut f = Flat::default(); f.dir(t); f }

struct Out { leak: Vec<String>, loss: Vec<String> }
/// Observe a view by a random sequence of accesses, each answer compared with the reference.
fn observe<S: SchemaDefinition>(c: &mut Ctx, view: &S, orig: &Full, vis: &Full, reach: &Full, impls: &BTreeMap<String, Vec<String>>, script: &mut Vec<String>) -> Out {
    let mut o = Out { leak: vec![], loss: vec![] };
    let names: Vec<String> = orig.types.keys().cloned().collect();
    let users: Vec<String> = names.iter().filter(|n| !orig.builtin.contains(*n)).cloned().collect();
    let dnames: Vec<String> = orig.directives.keys().cloned().collect();
    let n = c.rng.r(4, 24);
    let mut unreach: BTreeMap<String, bool> = BTreeMap::new();
    for _ in 0..n {
        let t = if c.rng.p(90) && !users.is_empty() { c.rng.pick(&users).clone() } else { c.rng.pick(&names).clone() };
        let w = c.rng.n(12);
        let mut hit = |o: &mut Out, what: String, want: Option<Flat>, got: Option<Flat>| {
            match (want, got) {
                (None, None) => {}
                (None, Some(_)) => o.leak.push(format!("{what}: finds something, should find nothing")),
                (Some(_), None) => o.loss.push(format!("{what}: finds nothing, should find it")),
                (Some(a), Some(b)) => { let (x, y) = differ(&a, &b); o.leak.extend(x.into_iter().map(|z| format!("{what}: {z}"))); o.loss.extend(y.into_iter().map(|z| format!("{what}: {z}"))) }
            }
        };
        // a visible type that nothing visible leads to: found by name or not, but always alike
        let mut reach_ok = |o: &mut Out, t: &str, found: bool| -> bool {
            if reach.types.contains_key(t) || !vis.types.contains_key(t) { return true }
            if let Some(b) = unreach.insert(t.to_string(), found) { if b != found { o.loss.push(format!("type {t} is sometimes found by name and sometimes not")) } }
            found
        };
        c.obs(&format!("access:{w}"));
        match w {
            0 | 1 => {
                script.push(format!("get_type_definition({t})"));
                let g = view.get_type_definition(&t);
                if reach_ok(&mut o, &t, g.is_some()) { hit(&mut o, format!("get_type_definition({t})"), vis.types.get(&t).map(one_type), g.map(|x| one_type(&bj::typedef(x, true)))) }
            }
            2 | 3 | 4 => {
                // lookup of one field or input field, before or after enumerating
                let Some(ot) = orig.types.get(&t) else { continue };
                let mut fs: Vec<String> = ot.fields().iter().map(|f| f.name.clone()).chain(ot.input_fields().iter().map(|f| f.name.clone())).collect(); fs.push("nope".into());
                let f = c.rng.pick(&fs).clone();
                script.push(format!("lookup {t}.{f}"));
                let g = view.get_type_definition(&t);
                if !reach_ok(&mut o, &t, g.is_some()) { continue }
                let Some(g) = g else { if vis.types.contains_key(&t) { o.loss.push(format!("type {t} is not found by name")) } continue };
                let what = format!("lookup of {t}.{f}");
                let wf = vis.types.get(&t).and_then(|x| x.field(&f)).map(|f| { let mut x = TypeDef { desc: None, name: t.clone(), dirs: vec![], kind: Kind::Interface { ifaces: vec![], fields: vec![f.clone()] } }; x.dirs.clear(); one_type(&x) });
                match g {
                    TR::Object(x) => field(&mut o, &mut hit, &t, &f, what, wf, x.fields_definition()),
                    TR::Interface(x) => field(&mut o, &mut hit, &t, &f, what, wf, x.fields_definition()),
                    TR::InputObject(x) => {
                        let w = vis.types.get(&t).and_then(|x| x.input_fields().iter().find(|i| i.name == f)).map(|i| one_type(&TypeDef { desc: None, name: t.clone(), dirs: vec![], kind: Kind::Input { fields: vec![i.clone()] } }));
                        let g = cd::InputFieldsDefinition::get(x.input_field_definitions(), &f).map(|i| one_type(&TypeDef { desc: None, name: t.clone(), dirs: vec![], kind: Kind::Input { fields: vec![bj::input_val(i)] } }));
                        hit(&mut o, what, w, g)
                    }
                    TR::Enum(x) => { let wn: Vec<String> = vis.types.get(&t).map(|x| x.values().iter().map(|v| v.name.clone()).collect()).unwrap_or_default(); let gn: Vec<String> = x.enum_value_definitions().iter().map(|v| v.name().to_string()).collect(); for v in &gn { if !wn.contains(v) { o.leak.push(format!("enum value {t}.{v} is exposed")) } } if wn.iter().any(|v| !gn.contains(v)) { o.loss.push(format!("enum values of {t}: {gn:?}, should be {wn:?}")) } }
                    TR::Union(x) => for m in &users { let w = vis.types.get(&t).map_or(false, |u| u.members().contains(m)); let g = x.union_member_types().contains_type(m); if g && !w { o.leak.push(format!("{t} contains {m}, which is hidden there")) } if w && !g { o.loss.push(format!("{t} does not contain {m}")) } },
                    _ => {}
                }
            }
            5 => {
                let d = c.rng.pick(&dnames).clone(); script.push(format!("get_directive_definition({d})"));
                hit(&mut o, format!("get_directive_definition({d})"), vis.directives.get(&d).map(one_dir), view.get_directive_definition(&d).map(|x| one_dir(&bj::dirdef(x))));
            }
            6 => {
                let Some(TR::Interface(i)) = view.get_type_definition(&t) else { continue };
                script.push(format!("get_interface_implementors({t})"));
                let want: Vec<&String> = impls.get(&t).map(|v| v.iter().filter(|o| vis.types.get(*o).map_or(false, |x| x.ifaces().contains(&t))).collect()).unwrap_or_default();
                let got: Vec<String> = view.get_interface_implementors(i).map(|o| o.name().to_string()).collect();
                for g in &got { if !want.contains(&g) { o.leak.push(format!("{g} is exposed as an implementor of {t}")) } }
                if want.iter().any(|w| !got.contains(w)) || (want.len() != got.len() && got.iter().all(|g| want.contains(&g))) { o.loss.push(format!("implementors of {t}: {got:?}, should be {want:?}")) }
                else if want.iter().map(|x| x.as_str()).ne(got.iter().map(|x| x.as_str())) && got.iter().all(|g| want.contains(&g)) { o.loss.push(format!("order of the implementors of {t}: {got:?}, should be {want:?}")) }
                c.obs("implementors");
            }
            7 => {
                script.push("type_definitions()".into());
                let g: Vec<String> = view.type_definitions().map(|t| t.name().to_string()).collect();
                let w: Vec<String> = reach.types.keys().cloned().collect();
                cmp_names(&mut o, "types", &w, g);
            }
            8 => {
                script.push("directive_definitions()".into());
                let g: Vec<String> = view.directive_definitions().map(|t| cd::DirectiveDefinition::name(t).to_string()).collect();
                let w: Vec<String> = reach.directives.keys().cloned().collect();
                cmp_names(&mut o, "directives", &w, g);
            }
            9 => {
                script.push("roots".into());
                let g = [Some(view.query().name().to_string()), view.mutation().map(|x| x.name().to_string()), view.subscription().map(|x| x.name().to_string())];
                for (k, g) in OpKind::ALL.iter().zip(g) { let w = vis.roots.iter().find(|x| x.0 == *k).map(|x| x.1.clone()); if g != w { if g.is_some() { o.leak.push(format!("{} root: {g:?}, should be {w:?}", k.s())) } else { o.loss.push(format!("{} root is lost", k.s())) } } }
            }
            10 => {
                script.push("everything".into());
                let (x, y) = differ(&flat(reach, true), &flat(&full(view), true)); o.leak.extend(x); o.loss.extend(y);
            }
            _ => {
                script.push("print".into());
                let text = SchemaDefinitionPrinter::to_string(view);
                printed(c, &mut o, &text, reach, "printed schema");
            }
        }
        if !o.leak.is_empty() || !o.loss.is_empty() { return o }
    }
    // finally everything, and its internal consistency
    script.push("everything, then consistency".into());
    let (x, y) = differ(&flat(reach, true), &flat(&full(view), true)); o.leak.extend(x); o.loss.extend(y);
    let d = deep::check(view);
    c.add("references-resolved", d.refs);
    o.loss.extend(d.problems);
    o
}
fn cmp_names(o: &mut Out, what: &str, w: &[String], g: Vec<String>) {
    let (ws, gs): (BTreeSet<&String>, BTreeSet<&String>) = (w.iter().collect(), g.iter().collect());
    for x in &gs { if !ws.contains(*x) { o.leak.push(format!("the enumeration of {what} exposes {x}")) } }
    for x in &ws { if !gs.contains(*x) { o.loss.push(format!("the enumeration of {what} misses {x}")) } }
    if gs.len() != g.len() { o.loss.push(format!("the enumeration of {what} repeats itself: {g:?}")) }
}
fn field<D: cd::FieldsDefinition>(o: &mut Out, hit: &mut dyn FnMut(&mut Out, String, Option<Flat>, Option<Flat>), t: &str, f: &str, what: String, want: Option<Flat>, d: &D) {
    if d.contains_field(f) != want.is_some() { if want.is_some() { o.loss.push(format!("contains_field({t}.{f}) is false")) } else { o.leak.push(format!("contains_field({t}.{f}) is true")) } }
    let got = d.get(f).map(|x| one_type(&TypeDef { desc: None, name: t.to_string(), dirs: vec![], kind: Kind::Interface { ifaces: vec![], fields: vec![bj::field_def(x)] } }));
    hit(o, what, want, got)
}
fn printed(c: &mut Ctx, o: &mut Out, text: &str, reach: &Full, what: &str) {
    let hollow = reach.types.values().any(|t| !reach.builtin.contains(&t.name) && match &t.kind { Kind::Scalar => false, Kind::Object { fields, .. } | Kind::Interface { fields, .. } => fields.iter().all(|f| f.name.starts_with("__")), Kind::Union { members } => members.is_empty(), Kind::Enum { values } => values.is_empty(), Kind::Input { fields } => fields.is_empty() });
    if hollow { c.obs("print:hollow"); return }
    let d = match refparse::parse_sdoc(text) { Ok(d) => d, Err(e) => { o.loss.push(format!("{what} does not parse: {e:?}\n{text}")); return } };
    let rs = RS::new(&d);
    let mut f = Full { desc: rs.desc.clone(), dirs: rs.schema_dirs.clone(), ..Default::default() };
    for k in OpKind::ALL { if let Some(n) = rs.root(k) { f.roots.push((k, n.to_string())) } }
    f.types = d.types().map(|t| (t.name.clone(), t.clone())).collect(); f.directives = d.dirs().map(|t| (t.name.clone(), t.clone())).collect();
    if f.types.len() != d.types().count() { o.loss.push(format!("{what} repeats a type\n{text}")) }
    let (x, y) = differ(&flat(reach, false), &flat(&f, false));
    c.obs("print");
    o.leak.extend(x.into_iter().map(|z| format!("{what}: {z}\n{text}"))); o.loss.extend(y.into_iter().map(|z| format!("{what}: {z}\n{text}")));
}

/// A reference schema of the visible elements, for judging documents.
fn visible_sdoc(sd: &SDoc, vis: &Full) -> SDoc {
    let mut o = SDoc::default();
    for d in &sd.defs {
        match d {
            SDef::Schema(s) => { let mut s = s.clone(); s.roots.retain(|r| vis.roots.contains(r)); s.dirs = vis.dirs.clone(); o.defs.push(SDef::Schema(s)) }
            SDef::Type(t) => if let Some(t) = vis.types.get(&t.name) { let mut t = t.clone(); if let Some(f) = t.fields_mut() { f.retain(|f| !f.name.starts_with("__")) } o.defs.push(SDef::Type(t)) },
            SDef::Dir(t) => if let Some(t) = vis.directives.get(&t.name) { o.defs.push(SDef::Dir(t.clone())) },
        }
    }
    o
}

fn gen(c: &mut Ctx) -> SDoc {
    let gs = GS { descs: 10, deprecations: 6, dirs: *c.rng.pick(&[0, 25, 60, 60]), ..GS::default() };
    let mut sd = genschema::schema(&mut c.rng, &gs); if c.rng.n(150) == 0 { let n = *c.rng.pick(&[20usize, 70, 150]); genschema::crowd(&mut sd, &mut c.rng, n); c.obs("crowded") }
    // the same field twice, with another type or description; only one will be visible
    if c.rng.p(15) {
        let scal = Ty::named("String");
        let r = &mut c.rng;
        let n = sd.types().filter(|t| !t.fields().is_empty()).count();
        if n > 0 { let i = r.n(n); if let Some(t) = sd.types_mut().filter(|t| !t.fields().is_empty()).nth(i) { let f = t.fields_mut().unwrap(); let k = r.n(f.len()); let mut x = f[k].clone(); x.ty = scal; x.desc = Some("again".into()); let at = r.n(f.len() + 1); f.insert(at, x); } }
    }
    sd
}

fn run(c: &mut Ctx, leaks: bool) {
    let sd = gen(c);
    let dup = sd.types().any(|t| { let mut s = BTreeSet::new(); t.fields().iter().any(|f| !s.insert(&f.name)) });
    let sdl = vtext(&sd);
    let r = with_schema(&sdl, |s| {
        let impls: BTreeMap<String, Vec<String>> = s.type_definitions().filter_map(|t| if let TR::Interface(i) = t { Some((i.name().to_string(), s.get_interface_implementors(i).map(|o| o.name().to_string()).collect())) } else { None }).collect();
        for _ in 0..3 {
            let intro = c.rng.p(12);
            let mut rng = c.rng.fork();
            let (rate, want) = *rng.pick(&[(0u32, 0usize), (25, 1), (25, 1), (30, 2), (40, 4), (60, usize::MAX), (120, usize::MAX), (300, usize::MAX), (500, usize::MAX)]);
            let kinds = *rng.pick(&["TFAVMID", "TFAVMID", "T", "F", "MI", "AV", "TD", "D"]);
            let hooks = rng.p(15);
            let mut pl = Plan { r: &mut rng, rate, want, intro, hide: Hide { hook: c.rng.p(30), ..Hide::default() }, hidden: vec![], no_default: if hooks { 40 } else { 0 }, no_args: if hooks { 40 } else { 0 }, kinds };
            let (orig, vis) = plan(s, &mut pl);
            let hide = pl.hide.clone(); let hidden = pl.hidden.clone();
            let reach = reachable(&vis);
            c.obs(if hidden.is_empty() { "hides:nothing" } else if hidden.len() < 4 { "hides:few" } else { "hides:many" });
            for h in &hidden { c.obs(&format!("hidden:{}", &h[..1])) }
            c.add("unreachable-types", (vis.types.len() - reach.types.len()) as u64);
            let ctx = |script: &[String]| format!("--- hidden\n{}\n--- accesses\n{}\n--- schema\n{sdl}", hidden.join("\n"), script.join("\n"));
            let mut first: Option<BTreeMap<String, String>> = None;
            for round in 0..2 {
                let cache = Cache::new(HideWarden { h: hide.clone(), _s: Default::default() }, s);
                let Some(view) = c.sut("view", || ctx(&[]), || bv::SchemaDefinition::new(&cache).ok()) else { return };
                let root_ok = vis.roots.iter().any(|r| r.0 == OpKind::Query);
                let Some(view) = view else { c.obs("query-root-hidden"); if root_ok && !leaks { c.fail("loss:query", format!("no view although the query root is visible\n{}", ctx(&[]))) } break };
                if !root_ok { if leaks { c.fail("leak:query", format!("a view exists although the query root is hidden\n{}", ctx(&[]))) } break }
                let mut script = vec![];
                let out = { let (v, sc) = (&view, &mut script); let cc: *mut Ctx = c; c.sut("observe", || ctx(&[]), || observe(unsafe { &mut *cc }, v, &orig, &vis, &reach, &impls, sc)) };
                let Some(out) = out else { return };
                c.eval(round == 0, &format!("{sdl}{hidden:?}{script:?}"));
                let bad = if leaks { &out.leak } else { &out.loss };
                // with nothing hidden, the original is the reference for both directions
                let bad: Vec<&String> = if !leaks && hidden.is_empty() { out.leak.iter().chain(&out.loss).collect() } else { bad.iter().collect() };
                if let Some(b) = bad.first() { return c.fail(if leaks { "leak" } else { "loss" }, format!("{b}\n{}", ctx(&script))) }
                if round == 1 || dup { continue }
                c.sample(|| json!({"schema": sdl, "hidden": hidden, "accesses": script}));
                let _ = &mut first;
                if intro || hooks { continue }
                documents(c, &sd, &vis, &view, &ctx(&script), leaks, hide.hook);
                scalars(c, &vis, &view, hide.hook, leaks, &ctx(&script));
            }
        }
        // hiding nothing at all
        if !dup {
            let orig = full(s); let reach = reachable(&orig);
            let cache: Cache<'_, Schema<'_>, NullWarden<Schema<'_>>> = Cache::new(NullWarden::default(), s);
            let Ok(view) = bv::SchemaDefinition::new(&cache) else { if !leaks { c.fail("loss:null", format!("no view with a warden that hides nothing\n{sdl}")) } return };
            let mut script = vec![];
            let out = { let (v, sc) = (&view, &mut script); let cc: *mut Ctx = c; c.sut("observe", || sdl.clone(), || observe(unsafe { &mut *cc }, v, &orig, &orig, &reach, &impls, sc)) };
            let Some(out) = out else { return };
            c.obs("null-warden");
            let bad: Vec<&String> = if leaks { out.leak.iter().collect() } else { out.leak.iter().chain(&out.loss).collect() };
            if let Some(b) = bad.first() { return c.fail("null-warden", format!("{b}\n--- accesses\n{}\n{sdl}", script.join("\n"))) }
        }
    });
    if let Err(e) = r { c.fail("schema", format!("{e}\n{sdl}")) }
}

fn documents<S: SchemaDefinition>(c: &mut Ctx, sd: &SDoc, vis: &Full, view: &S, ctx: &str, leaks: bool, hook: bool) {
    let rs = RS::new(sd); let vrs = RS::new(&visible_sdoc(sd, vis));
    let gd = GD { depth: c.rng.r(1, 4), ops: (1, 2), ..GD::default() };
    for _ in 0..4 {
        let d = gendoc::doc(&mut c.rng, &rs, &gd);
        let text = doc_text(&d);
        let v = refval::validate(&vrs, &d);
        if v.gave_up || (hook && text.contains("hooked")) { continue }
        let Some(got) = c.sut("validate", || format!("{text}\n{ctx}"), || {
            let pd = ExecutableDocument::parse(text.as_str()).map_err(|e| format!("{:?}", e.first()))?;
            let cache = VCache::new(&pd, view);
            Ok::<_, String>(BuiltinRulesValidator::validate(&pd, view, &cache).map(|e| kind(&e)).collect::<BTreeSet<_>>())
        }) else { return };
        let Ok(got) = got else { continue };
        c.eval(true, &format!("{text}{ctx}"));
        c.obs(if v.must.is_empty() && v.may.is_empty() { "document:visible" } else { "document:hidden" });
        let doc = |what: &str| format!("{what}\n--- reported\n{got:?}\n--- violated\n{:?} (possibly {:?})\n--- document\n{text}\n{ctx}", v.must, v.may);
        if leaks {
            if let Some(k) = v.must.iter().find(|k| if MERGE.contains(k) { !got.iter().any(|g| MERGE.contains(g)) } else { !got.contains(*k) }) { return c.fail("leak:document", doc(&format!("a document that uses hidden elements ({k}) is not refused for it"))) }
        } else if let Some(k) = got.iter().find(|k| !v.vague && !v.must.contains(*k) && !v.may.contains(*k)) { return c.fail("loss:document", doc(&format!("{k} is reported although everything it concerns is visible"))) }
    }
}
fn scalars<S: SchemaDefinition>(c: &mut Ctx, vis: &Full, view: &S, hook: bool, leaks: bool, ctx: &str) {
    if leaks { return }
    for t in vis.types.values() {
        let Some(TR::CustomScalar(x)) = view.get_type_definition(&t.name) else { continue };
        for text in ["\"hooked\"", "2", "3", "null", "[1]"] {
            let v = Value::<true>::parse(text).unwrap();
            let want = if hook && text == "\"hooked\"" { Err(HOOK.to_string()) } else if crate::refcoerce::custom_ok(&t.name, &bj::val(&v)) { Ok(()) } else { Err("custom scalar rule".to_string()) };
            let got = x.coerce_input(&v).map_err(|e| e.to_string());
            c.obs("scalar");
            if got != want { return c.fail("loss:scalar", format!("coerce_input of {text} as {}: {got:?}, should be {want:?}\n{ctx}", t.name)) }
        }
    }
}

pub fn c21(c: &mut Ctx) { run(c, true) }
pub fn c22(c: &mut Ctx) { run(c, false) }

pub fn c21_probes(c: &mut Ctx) {
    // a type nothing leads to is not part of the view, yet it is found by name
    let sdl = "type Query { a: Int } type Orphan { b: Int }";
    let found = with_schema(sdl, |s| {
        let cache: Cache<'_, Schema<'_>, NullWarden<Schema<'_>>> = Cache::new(NullWarden::default(), s);
        let v = match bv::SchemaDefinition::new(&cache) { Ok(v) => v, Err(_) => panic!("no view") };
        let r = (v.get_type_definition("Orphan").is_some(), v.type_definitions().any(|t| t.name() == "Orphan")); r
    }).unwrap();
    c.eval(true, sdl);
    if found.0 && !found.1 { c.fail("probe:unreachable-by-name", format!("get_type_definition(\"Orphan\") finds a type that is not reachable from the roots and not enumerated\n{sdl}")) }
}
pub fn c22_probes(_: &mut Ctx) {}
