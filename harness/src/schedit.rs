//! Model-level edits of schema documents: wild but harmless content, and edits that break references.
use crate::gensyn as g;
use crate::model::*;
use crate::rng::Rng;
use std::collections::BTreeMap;

pub fn each_ty(d: &mut SDoc, mut f: impl FnMut(&mut Ty)) { each_ty_kind(d, |t, _| f(t)) }
/// (type, is_input position)
pub fn each_ty_kind(d: &mut SDoc, mut f: impl FnMut(&mut Ty, bool)) {
    for def in &mut d.defs {
        match def {
            SDef::Schema(_) => {}
            SDef::Dir(x) => for a in &mut x.args { f(&mut a.ty, true) },
            SDef::Type(t) => {
                if let Some(fs) = t.fields_mut() { for fd in fs { f(&mut fd.ty, false); for a in &mut fd.args { f(&mut a.ty, true) } } }
                if let Kind::Input { fields } = &mut t.kind { for a in fields { f(&mut a.ty, true) } }
            }
        }
    }
}
pub fn each_input(d: &mut SDoc, mut f: impl FnMut(&mut InputVal)) {
    for def in &mut d.defs {
        match def {
            SDef::Schema(_) => {}
            SDef::Dir(x) => x.args.iter_mut().for_each(&mut f),
            SDef::Type(t) => {
                if let Some(fs) = t.fields_mut() { for fd in fs { fd.args.iter_mut().for_each(&mut f) } }
                if let Kind::Input { fields } = &mut t.kind { fields.iter_mut().for_each(&mut f) }
            }
        }
    }
}
pub fn each_dirs(d: &mut SDoc, mut f: impl FnMut(&mut Vec<Dir>, &'static str)) {
    for def in &mut d.defs {
        match def {
            SDef::Schema(s) => f(&mut s.dirs, "SCHEMA"),
            SDef::Dir(x) => for a in &mut x.args { f(&mut a.dirs, "DIRECTIVE_ARGUMENT") },
            SDef::Type(t) => {
                f(&mut t.dirs, match t.kind { Kind::Scalar => "SCALAR", Kind::Object { .. } => "OBJECT", Kind::Interface { .. } => "INTERFACE", Kind::Union { .. } => "UNION", Kind::Enum { .. } => "ENUM", Kind::Input { .. } => "INPUT_OBJECT" });
                match &mut t.kind {
                    Kind::Object { fields, .. } | Kind::Interface { fields, .. } => for fd in fields { f(&mut fd.dirs, "FIELD_DEFINITION"); for a in &mut fd.args { f(&mut a.dirs, "ARGUMENT_DEFINITION") } },
                    Kind::Input { fields } => for a in fields { f(&mut a.dirs, "INPUT_FIELD_DEFINITION") },
                    Kind::Enum { values } => for v in values { f(&mut v.dirs, "ENUM_VALUE") },
                    _ => {}
                }
            }
        }
    }
}
pub fn each_desc(d: &mut SDoc, mut f: impl FnMut(&mut Option<String>)) {
    for def in &mut d.defs {
        match def {
            SDef::Schema(s) => f(&mut s.desc),
            SDef::Dir(x) => { f(&mut x.desc); for a in &mut x.args { f(&mut a.desc) } }
            SDef::Type(t) => {
                f(&mut t.desc);
                match &mut t.kind {
                    Kind::Object { fields, .. } | Kind::Interface { fields, .. } => for fd in fields { f(&mut fd.desc); for a in &mut fd.args { f(&mut a.desc) } },
                    Kind::Input { fields } => for a in fields { f(&mut a.desc) },
                    Kind::Enum { values } => for v in values { f(&mut v.desc) },
                    _ => {}
                }
            }
        }
    }
}
/// every place that names a type: field/argument types, interfaces, members, roots
pub fn each_name(d: &mut SDoc, mut f: impl FnMut(&mut String, &'static str)) {
    each_ty_kind(d, |t, i| { let mut b = t.base().to_string(); f(&mut b, if i { "input" } else { "output" }); t.set_base(&b) });
    for def in &mut d.defs {
        match def {
            SDef::Schema(s) => for (_, n) in &mut s.roots { f(n, "root") },
            SDef::Type(t) => match &mut t.kind {
                Kind::Object { ifaces, .. } | Kind::Interface { ifaces, .. } => for n in ifaces { f(n, "interface") },
                Kind::Union { members } => for n in members { f(n, "member") },
                _ => {}
            },
            _ => {}
        }
    }
}
pub fn rename(d: &mut SDoc, m: &BTreeMap<String, String>) {
    each_name(d, |n, _| if let Some(x) = m.get(n) { *n = x.clone() });
    for t in d.types_mut() { if let Some(x) = m.get(&t.name) { t.name = x.clone() } }
}

const TNAMES: &[&str] = &["type", "input", "enum", "union", "interface", "schema", "scalar", "directive", "on", "query", "mutation", "extend", "implements", "repeatable", "_", "_T", "true", "null", "Mutation", "Subscription", "Query", "fragment", "X1", "aLongTypeName_0123456789", "string", "int"];

/// Content that any buildable schema may have: odd names, arbitrary constants, texts and directives.
pub fn wild(d: &mut SDoc, r: &mut Rng) {
    let explicit = d.schemas().next().is_some();
    if r.p(50) {
        let mut used: Vec<String> = d.types().map(|t| t.name.clone()).collect();
        let mut m = BTreeMap::new();
        for t in d.types() {
            if !r.p(35) || (!explicit && ["Query", "Mutation", "Subscription"].contains(&t.name.as_str())) { continue }
            let n = r.ps(TNAMES).to_string();
            if used.contains(&n) || (!explicit && ["Query", "Mutation", "Subscription"].contains(&n.as_str())) { continue }
            used.push(n.clone()); m.insert(t.name.clone(), n);
        }
        rename(d, &m);
    }
    let p = *r.pick(&[0u32, 20, 60]);
    each_input(d, |i| if r.p(p) && (i.default.is_some() || r.p(30)) { i.default = Some(g::val(r, true, 3)) });
    each_desc(d, |x| if r.p(p) { *x = if r.p(80) { Some(g::string(r)) } else { None } });
    let names: Vec<String> = d.dirs().map(|x| x.name.clone()).chain(["skip", "deprecated", "oneOf", "specifiedBy"].map(str::to_string)).collect();
    each_dirs(d, |v, _| if r.p(p / 3) { for _ in 0..r.r(1, 2) { v.push(Dir { name: r.pick(&names).clone(), args: if r.p(60) { let n = r.r(1, 3); (0..n).map(|_| (g::name(r), g::val(r, true, 2))).collect() } else { vec![] } }) } });
    if r.p(40) { for t in d.types_mut() { if let Some(fs) = t.fields_mut() { for f in fs { if r.p(10) { f.name = g::name_not(r, &["__typename"]); } for a in &mut f.args { if r.p(10) { a.name = g::name(r) } } } } if let Kind::Enum { values } = &mut t.kind { for v in values { if r.p(15) { v.name = g::name_not(r, &["true", "false", "null"]) } } } } }
    // override built-in scalars, redefine built-in directives
    if r.p(15) { let n = r.ps(&BUILTIN_SCALARS); d.defs.push(SDef::Type(TypeDef { desc: None, name: n.into(), dirs: vec![], kind: Kind::Scalar })) }
    if r.p(15) {
        let (n, args, locs): (&str, &str, &[&str]) = *r.pick(&[("deprecated", "reason: String", &["FIELD_DEFINITION", "ENUM_VALUE"][..]), ("skip", "if: Boolean!", &["FIELD", "FRAGMENT_SPREAD", "INLINE_FRAGMENT"][..]), ("include", "if: Boolean!", &["FIELD", "FRAGMENT_SPREAD", "INLINE_FRAGMENT"][..]), ("specifiedBy", "url: String!", &["SCALAR"][..]), ("oneOf", "", &["INPUT_OBJECT"][..])]);
        if !d.dirs().any(|x| x.name == n) {
            let a = if args.is_empty() { vec![] } else { let (k, t) = args.split_once(": ").unwrap(); vec![InputVal { desc: None, name: k.into(), ty: if let Some(b) = t.strip_suffix('!') { Ty::named(b).nn() } else { Ty::named(t) }, default: None, dirs: vec![] }] };
            d.defs.push(SDef::Dir(DirDef { desc: if r.p(40) { Some(g::string(r)) } else { None }, name: n.into(), args: a, repeatable: r.p(20), locs: locs.iter().map(|s| s.to_string()).collect() }));
        }
    }
    // a type that merely has the name of a root operation
    if explicit && r.p(25) {
        let n = r.ps(&["Mutation", "Subscription", "Query"]).to_string();
        if !d.types().any(|t| t.name == n) {
            let kind = match r.n(3) { 0 => Kind::Scalar, 1 => Kind::Enum { values: vec![EnumVal { desc: None, name: "A".into(), dirs: vec![] }] }, _ => Kind::Object { ifaces: vec![], fields: vec![FieldDef { desc: None, name: "f".into(), args: vec![], ty: Ty::named("Int"), dirs: vec![] }] } };
            d.defs.push(SDef::Type(TypeDef { desc: None, name: n, dirs: vec![], kind }));
        }
    }
    // explicit schema that could be left out
    if explicit && r.p(30) {
        let m: BTreeMap<String, String> = [("RootQ", "Query"), ("RootM", "Mutation"), ("RootS", "Subscription")].map(|(a, b)| (a.to_string(), b.to_string())).into();
        if !d.types().any(|t| m.values().any(|v| *v == t.name)) { rename(d, &m); if r.p(50) { for x in &mut d.defs { if let SDef::Schema(s) = x { if r.p(60) { s.desc = None } if r.p(60) { s.dirs.clear() } if r.p(40) && s.roots.len() > 1 { let i = r.r(1, s.roots.len() - 1); s.roots.remove(i); } } } } }
    }
    if r.p(30) { let mut x = std::mem::take(&mut d.defs); r.shuffle(&mut x); d.defs = x }
}

/// One edit that may break a reference or a uniqueness rule.
pub fn break_one(d: &mut SDoc, r: &mut Rng) -> String {
    let tn: Vec<String> = d.types().map(|t| t.name.clone()).chain(["Int", "String", "__Type", "__TypeKind", "Nope", "Query"].map(str::to_string)).collect();
    let dn: Vec<String> = d.dirs().map(|t| t.name.clone()).chain(["skip", "deprecated", "nope", "oneOf"].map(str::to_string)).collect();
    match r.n(12) {
        0..=3 => { // retarget one reference
            let mut n = 0; each_name(d, |_, _| n += 1); if n == 0 { return "none".into() }
            let k = r.n(n); let mut i = 0; let to = r.pick(&tn).clone(); let mut what = "";
            each_name(d, |x, w| { if i == k { *x = to.clone(); what = w } i += 1 });
            format!("retarget-{what}")
        }
        4 | 5 => { // a directive somewhere
            let mut n = 0; each_dirs(d, |_, _| n += 1); if n == 0 { return "none".into() }
            let k = r.n(n); let mut i = 0; let to = r.pick(&dn).clone(); let mut what = "";
            each_dirs(d, |v, w| { if i == k { let x = Dir { name: to.clone(), args: vec![] }; if v.is_empty() || i % 2 == 0 { v.push(x) } else { v[0] = x } what = w } i += 1 });
            format!("directive-{what}")
        }
        6 => { // rename a definition
            let n = d.defs.len(); let k = r.n(n); let to = r.pick(&tn).clone(); let td = r.pick(&dn).clone();
            match &mut d.defs[k] { SDef::Type(t) => { t.name = to; "rename-type".into() } SDef::Dir(x) => { x.name = td; "rename-directive".into() } SDef::Schema(s) => { s.roots.reverse(); "none".into() } }
        }
        7 => { let k = r.n(d.defs.len()); let mut x = d.defs[k].clone(); if r.p(30) { if let SDef::Type(t) = &mut x { t.kind = Kind::Scalar } } d.defs.push(x); "duplicate-definition".into() }
        8 => { let k = r.n(d.defs.len()); d.defs.remove(k); "remove-definition".into() }
        9 => { // change the kind of a type
            let ts: Vec<usize> = d.defs.iter().enumerate().filter(|(_, x)| matches!(x, SDef::Type(_))).map(|x| x.0).collect();
            if ts.is_empty() { return "none".into() }
            let k = *r.pick(&ts);
            if let SDef::Type(t) = &mut d.defs[k] {
                let fs = vec![FieldDef { desc: None, name: "f".into(), args: vec![], ty: Ty::named("Int"), dirs: vec![] }];
                t.kind = match r.n(5) { 0 => Kind::Scalar, 1 => Kind::Object { ifaces: vec![], fields: fs }, 2 => Kind::Interface { ifaces: vec![], fields: fs }, 3 => Kind::Enum { values: vec![EnumVal { desc: None, name: "A".into(), dirs: vec![] }] }, _ => Kind::Input { fields: vec![InputVal { desc: None, name: "a".into(), ty: Ty::named("Int"), default: None, dirs: vec![] }] } };
            }
            "change-kind".into()
        }
        10 => { // the schema definition
            let q = tn[r.n(tn.len())].clone();
            let i = d.defs.iter().position(|x| matches!(x, SDef::Schema(_)));
            match i {
                None => { let mut roots = vec![(OpKind::Query, if r.p(70) { "Query".into() } else { q.clone() })]; if r.p(40) { roots.push((*r.pick(&OpKind::ALL), q)) } if r.p(15) { roots.remove(0); } if roots.is_empty() { roots.push((OpKind::Mutation, "Obj0".into())) } d.defs.push(SDef::Schema(SchemaDef { desc: None, dirs: vec![], roots })); "add-schema".into() }
                Some(i) => {
                    if r.p(20) { let x = d.defs[i].clone(); d.defs.push(x); return "two-schemas".into() }
                    if let SDef::Schema(s) = &mut d.defs[i] {
                        match r.n(4) { 0 => s.roots.push((*r.pick(&OpKind::ALL), q)), 1 => { if s.roots.len() > 1 { let k = r.n(s.roots.len()); s.roots.remove(k); } } 2 => { let k = r.n(s.roots.len()); s.roots[k].0 = *r.pick(&OpKind::ALL) } _ => { let k = r.n(s.roots.len()); s.roots[k].1 = q } }
                    }
                    "edit-schema".into()
                }
            }
        }
        _ => { let m: BTreeMap<String, String> = [(r.pick(&tn).clone(), r.ps(&["Query", "Mutation", "Subscription", "Renamed", "__Schema", "ID"]).to_string())].into(); rename(d, &m); "rename-consistently".into() }
    }
}
