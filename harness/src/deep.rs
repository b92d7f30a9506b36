//! Generic consistency check of any `SchemaDefinition`: every reference resolves, by identity, to
//! the definition of that name; enumerations, lookups and helper accessors agree.
use bluejay_core::definition as cd;
use bluejay_core::definition::{prelude::*, TypeDefinitionReference as TR};
use bluejay_core::{AsIter, Directive as _};
use std::collections::{BTreeMap, BTreeSet};

fn p<T>(x: &T) -> usize { x as *const T as *const () as usize }
pub fn addr<T: cd::TypeDefinition>(t: &TR<'_, T>) -> (&'static str, usize) {
    match t {
        TR::BuiltinScalar(b) => ("builtin", cd_name(b.name())),
        TR::CustomScalar(x) => ("scalar", p(*x)), TR::Object(x) => ("object", p(*x)), TR::InputObject(x) => ("input", p(*x)),
        TR::Enum(x) => ("enum", p(*x)), TR::Union(x) => ("union", p(*x)), TR::Interface(x) => ("interface", p(*x)),
    }
}
fn cd_name(n: &str) -> usize { crate::rng::hash_str(n) as usize }

pub struct Deep { pub problems: Vec<String>, pub refs: u64 }

struct W<'s, S: cd::SchemaDefinition> { s: &'s S, out: Deep }
impl<'s, S: cd::SchemaDefinition> W<'s, S> {
    fn bad(&mut self, m: String) { if self.out.problems.len() < 20 { self.out.problems.push(m) } }
    fn at(&mut self, what: &str, name: &str, got: (&'static str, usize), got_name: &str) {
        self.out.refs += 1;
        if got_name != name { return self.bad(format!("{what}: reference to {name} resolves to {got_name}")) }
        match self.s.get_type_definition(name) {
            None => self.bad(format!("{what}: reference to {name} resolves, but looking {name} up by name finds nothing")),
            Some(t) => { let a = addr(&t); if a != got { self.bad(format!("{what}: reference to {name} resolves to a {} other than the definition found by name ({})", got.0, a.0)) } }
        }
    }
    fn dirs(&mut self, what: &str, d: Option<&<S as cd::SchemaDefinition>::Directives>) {
        let Some(d) = d else { return };
        for x in d.iter() {
            self.out.refs += 1;
            let def = cd::Directive::definition(x, self.s);
            if cd::DirectiveDefinition::name(def) != x.name() { self.bad(format!("{what}: directive @{} resolves to @{}", x.name(), cd::DirectiveDefinition::name(def))) }
            match self.s.get_directive_definition(x.name()) { Some(y) if p(y) == p(def) => {} other => self.bad(format!("{what}: directive @{} resolves, lookup by name finds {}", x.name(), if other.is_some() { "another definition" } else { "nothing" })) }
        }
    }
    fn input(&mut self, what: &str, i: &S::InputValueDefinition) {
        let what = format!("{what}.{}", i.name());
        let t = i.r#type();
        let (mut sh, mut base) = (t.as_shallow_ref(), String::new());
        let mut rf = cd::InputType::as_ref(t, self.s);
        if sh.is_required() != i.is_required() && i.default_value().is_none() { self.bad(format!("{what}: is_required() is {}, the type says {}", i.is_required(), sh.is_required())) }
        if t.is_required() != sh.is_required() { self.bad(format!("{what}: is_required of the type disagrees")) }
        loop {
            match (sh, rf) {
                (cd::ShallowInputTypeReference::Base(n, r), cd::InputTypeReference::Base(b, r2)) => {
                    base.push_str(n); if r != r2 { self.bad(format!("{what}: nullability differs")) }
                    let td: TR<'_, S::TypeDefinition> = b.into();
                    self.at(&what, n, addr(&td), b.name()); break
                }
                (cd::ShallowInputTypeReference::List(a, r), cd::InputTypeReference::List(b, r2)) => { if r != r2 || p(a) != p(b) { self.bad(format!("{what}: list differs")) } sh = a.as_shallow_ref(); rf = cd::InputType::as_ref(b, self.s); }
                _ => { self.bad(format!("{what}: shape of the type differs between accessors")); break }
            }
        }
        let b = cd::InputType::base(t, self.s);
        if b.name() != base { self.bad(format!("{what}: base() is {} not {base}", b.name())) }
        self.dirs(&what, i.directives());
    }
    fn args(&mut self, what: &str, a: Option<&S::ArgumentsDefinition>) {
        let Some(a) = a else { return };
        let mut seen = BTreeSet::new();
        for i in a.iter() { self.input(what, i); if seen.insert(i.name().to_string()) && cd::ArgumentsDefinition::get(a, i.name()).map(p) != Some(p(i)) { self.bad(format!("{what}: looking argument {} up finds another", i.name())) } }
        if cd::ArgumentsDefinition::get(a, "no_such_argument").is_some() { self.bad(format!("{what}: finds an argument that does not exist")) }
    }
    fn fields(&mut self, what: &str, f: &S::FieldsDefinition) {
        let mut seen = BTreeSet::new();
        for x in f.iter() {
            let what = format!("{what}.{}", x.name());
            if seen.insert(x.name().to_string()) { if cd::FieldsDefinition::get(f, x.name()).map(p) != Some(p(x)) || !f.contains_field(x.name()) { self.bad(format!("{what}: looking the field up by name does not find it")) } }
            let t = x.r#type();
            let (mut sh, mut base) = (t.as_shallow_ref(), String::new());
            let mut rf = cd::OutputType::as_ref(t, self.s);
            if t.is_required() != sh.is_required() { self.bad(format!("{what}: is_required disagrees")) }
            loop {
                match (sh, rf) {
                    (cd::ShallowOutputTypeReference::Base(n, r), cd::OutputTypeReference::Base(b, r2)) => {
                        base.push_str(n); if r != r2 { self.bad(format!("{what}: nullability differs")) }
                        let td: TR<'_, S::TypeDefinition> = b.into();
                        self.at(&what, n, addr(&td), b.name()); break
                    }
                    (cd::ShallowOutputTypeReference::List(a, r), cd::OutputTypeReference::List(b, r2)) => { if r != r2 || p(a) != p(b) { self.bad(format!("{what}: list differs")) } sh = a.as_shallow_ref(); rf = cd::OutputType::as_ref(b, self.s); }
                    _ => { self.bad(format!("{what}: shape of the type differs between accessors")); break }
                }
            }
            let b = cd::OutputType::base(t, self.s);
            if b.name() != base { self.bad(format!("{what}: base() is {} not {base}", b.name())) }
            self.args(&what, x.arguments_definition());
            self.dirs(&what, x.directives());
        }
        if f.contains_field("no_such_field") || cd::FieldsDefinition::get(f, "no_such_field").is_some() { self.bad(format!("{what}: finds a field that does not exist")) }
    }
    fn ifaces(&mut self, what: &str, i: Option<&S::InterfaceImplementations>) {
        let Some(i) = i else { return };
        for x in i.iter() { let t = cd::InterfaceImplementation::interface(x, self.s); let td: TR<'_, S::TypeDefinition> = TR::Interface(t); let a = addr(&td); let n = t.name().to_string(); self.at(&format!("{what} implements"), cd::InterfaceImplementation::name(x), a, &n) }
    }
}

pub fn check<S: cd::SchemaDefinition>(s: &S) -> Deep {
    let mut w = W { s, out: Deep { problems: vec![], refs: 0 } };
    let mut seen: BTreeMap<String, (&'static str, usize)> = BTreeMap::new();
    let mut impls: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for t in s.type_definitions() {
        let n = t.name().to_string();
        if seen.insert(n.clone(), addr(&t)).is_some() { w.bad(format!("type {n} is enumerated twice")) }
        let a = addr(&t); w.at("enumeration", &n, a, &n);
        let d = t.directives(); w.dirs(&n, d);
        match t {
            TR::Object(o) => { w.fields(&n, o.fields_definition()); w.ifaces(&n, o.interface_implementations()); if let Some(i) = o.interface_implementations() { for x in i.iter() { impls.entry(cd::InterfaceImplementation::name(x).to_string()).or_default().insert(n.clone()); } } }
            TR::Interface(o) => { w.fields(&n, o.fields_definition()); w.ifaces(&n, o.interface_implementations()); }
            TR::Union(u) => {
                for m in u.union_member_types().iter() { let t = cd::UnionMemberType::member_type(m, s); let td: TR<'_, S::TypeDefinition> = TR::Object(t); let nm = t.name().to_string(); w.at(&format!("{n} member"), cd::UnionMemberType::name(m), addr(&td), &nm); if !u.union_member_types().contains_type(t.name()) { w.bad(format!("{n}: contains_type({}) is false", t.name())) } }
                if u.union_member_types().contains_type("NoSuchType") { w.bad(format!("{n}: contains a type that does not exist")) }
                w.fields(&n, u.fields_definition());
                if u.fields_definition().iter().count() != 1 { w.bad(format!("{n}: a union has fields {:?}", u.fields_definition().iter().map(|f| f.name().to_string()).collect::<Vec<_>>())) }
            }
            TR::Enum(e) => for v in e.enum_value_definitions().iter() { w.dirs(&format!("{n}.{}", v.name()), v.directives()) },
            TR::InputObject(i) => {
                let f = i.input_field_definitions(); let mut seen = BTreeSet::new();
                for x in f.iter() { w.input(&n, x); if seen.insert(x.name().to_string()) && cd::InputFieldsDefinition::get(f, x.name()).map(p) != Some(p(x)) { w.bad(format!("{n}: looking input field {} up finds another", x.name())) } }
                if cd::InputFieldsDefinition::get(f, "no_such_field").is_some() { w.bad(format!("{n}: finds an input field that does not exist")) }
            }
            TR::BuiltinScalar(_) | TR::CustomScalar(_) => {}
        }
    }
    for t in s.type_definitions() {
        if let TR::Interface(i) = t {
            let got: Vec<String> = s.get_interface_implementors(i).map(|o| o.name().to_string()).collect();
            let set: BTreeSet<String> = got.iter().cloned().collect();
            let want = impls.get(i.name()).cloned().unwrap_or_default();
            if set != want { w.bad(format!("implementors of {}: {set:?}, the object types say {want:?}", i.name())) }
            if set.len() != got.len() { w.bad(format!("implementors of {}: an object type is listed twice: {got:?}", i.name())) }
            for o in s.get_interface_implementors(i) { let td: TR<'_, S::TypeDefinition> = TR::Object(o); let nm = o.name().to_string(); w.at("implementor", &nm.clone(), addr(&td), &nm) }
        }
    }
    for (k, o) in [("query", Some(s.query())), ("mutation", s.mutation()), ("subscription", s.subscription())] {
        if let Some(o) = o { let td: TR<'_, S::TypeDefinition> = TR::Object(o); let nm = o.name().to_string(); w.at(k, &nm.clone(), addr(&td), &nm); if !seen.contains_key(&nm) { w.bad(format!("the {k} root {nm} is not enumerated")) } }
    }
    let mut ds = BTreeSet::new();
    for d in s.directive_definitions() {
        let n = cd::DirectiveDefinition::name(d).to_string();
        if !ds.insert(n.clone()) { w.bad(format!("directive @{n} is enumerated twice")) }
        if s.get_directive_definition(&n).map(p) != Some(p(d)) { w.bad(format!("looking @{n} up by name does not find it")) }
        w.args(&format!("@{n}"), d.arguments_definition());
    }
    w.dirs("schema", s.directives());
    if s.get_type_definition("NoSuchType").is_some() || s.get_directive_definition("noSuchDirective").is_some() { w.bad("an undefined name is found".into()) }
    w.out
}
