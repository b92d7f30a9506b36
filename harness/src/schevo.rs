//! Schema evolution: edits that keep a schema buildable.
use crate::genschema::value;
use crate::gensyn;
use crate::model::*;
use crate::refbuild;
use crate::rng::Rng;
use crate::rschema::RS;

/// What an edit may do to a client: `Ext` only extends, `Mild` may be harmless, `Any` anything.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class { Ext, Mild, Any }

fn fresh(r: &mut Rng, taken: &[String], p: &str) -> String { loop { let n = format!("{p}{}", r.n(40)); if !taken.contains(&n) { return n } } }
fn pick_type<'a>(d: &'a mut SDoc, r: &mut Rng, f: impl Fn(&TypeDef) -> bool) -> Option<&'a mut TypeDef> {
    let n = d.types().filter(|t| f(t)).count(); if n == 0 { return None }
    let k = r.n(n); d.types_mut().filter(|t| f(t)).nth(k)
}
fn pick_field<'a>(d: &'a mut SDoc, r: &mut Rng) -> Option<&'a mut FieldDef> { let t = pick_type(d, r, |t| !t.fields().is_empty())?; let f = t.fields_mut()?; let k = r.n(f.len()); Some(&mut f[k]) }
/// any argument, input field or directive argument
fn pick_input<'a>(d: &'a mut SDoc, r: &mut Rng) -> Option<&'a mut InputVal> {
    let mut v: Vec<&mut InputVal> = vec![];
    for def in &mut d.defs {
        match def {
            SDef::Dir(x) => v.extend(x.args.iter_mut()),
            SDef::Type(t) => match &mut t.kind { Kind::Object { fields, .. } | Kind::Interface { fields, .. } => for f in fields { v.extend(f.args.iter_mut()) }, Kind::Input { fields } => v.extend(fields.iter_mut()), _ => {} },
            _ => {}
        }
    }
    if v.is_empty() { return None } let k = r.n(v.len()); Some(v.swap_remove(k))
}
fn at_depth(t: &mut Ty, r: &mut Rng, f: &mut dyn FnMut(&mut bool)) { match t { Ty::Named(_, q) => f(q), Ty::List(i, q) => if r.p(50) { f(q) } else { at_depth(i, r, f) } } }
fn dirs_of<'a>(d: &'a mut SDoc, r: &mut Rng) -> Option<(&'a mut Vec<Dir>, &'static str)> {
    let mut v: Vec<(&mut Vec<Dir>, &'static str)> = vec![];
    for def in &mut d.defs {
        match def {
            SDef::Schema(s) => v.push((&mut s.dirs, "SCHEMA")),
            SDef::Dir(x) => for a in &mut x.args { v.push((&mut a.dirs, "ARGUMENT_DEFINITION")) },
            SDef::Type(t) => {
                v.push((&mut t.dirs, match t.kind { Kind::Scalar => "SCALAR", Kind::Object { .. } => "OBJECT", Kind::Interface { .. } => "INTERFACE", Kind::Union { .. } => "UNION", Kind::Enum { .. } => "ENUM", Kind::Input { .. } => "INPUT_OBJECT" }));
                match &mut t.kind {
                    Kind::Object { fields, .. } | Kind::Interface { fields, .. } => for f in fields { v.push((&mut f.dirs, "FIELD_DEFINITION")); for a in &mut f.args { v.push((&mut a.dirs, "ARGUMENT_DEFINITION")) } },
                    Kind::Input { fields } => for f in fields { v.push((&mut f.dirs, "INPUT_FIELD_DEFINITION")) },
                    Kind::Enum { values } => for f in values { v.push((&mut f.dirs, "ENUM_VALUE")) },
                    _ => {}
                }
            }
        }
    }
    if v.is_empty() { return None } let k = r.n(v.len()); Some(v.swap_remove(k))
}
fn input_type(r: &mut Rng, d: &SDoc) -> Ty {
    let mut n: Vec<String> = BUILTIN_SCALARS.iter().map(|s| s.to_string()).collect(); n.extend(d.types().filter(|t| t.is_input()).map(|t| t.name.clone()));
    let s: &String = r.pick(&n); let mut t = Ty::named(s); if r.p(30) { if r.p(40) { t = t.nn() } t = Ty::list(t) } t
}
fn output_type(r: &mut Rng, d: &SDoc) -> Ty {
    let mut n: Vec<String> = BUILTIN_SCALARS.iter().map(|s| s.to_string()).collect(); n.extend(d.types().filter(|t| t.is_output()).map(|t| t.name.clone()));
    let s: &String = r.pick(&n); let mut t = Ty::named(s); if r.p(30) { if r.p(40) { t = t.nn() } t = Ty::list(t) } if r.p(30) { t = t.nn() } t
}
fn new_input(r: &mut Rng, d: &SDoc, rs: &RS, taken: &[String], opt: bool) -> InputVal {
    let name = fresh(r, taken, "arg"); let mut ty = input_type(r, d); let mut default = None;
    if opt { if r.p(30) { ty = ty.nn(); default = Some(value(r, rs, &ty, 1)) } } else { if r.p(60) { ty = ty.nn() } if r.p(40) { default = Some(value(r, rs, &ty, 1)) } }
    InputVal { desc: None, name, ty, default, dirs: vec![] }
}

/// Tries one edit; `None` when it does not apply or would not build. Returns its name.
pub fn edit(d: &mut SDoc, r: &mut Rng, class: Class) -> Option<&'static str> {
    let before = d.clone();
    let rs = RS::new(d);
    let label = go(d, r, class, &rs);
    match label { Some(l) if *d != before && !hollow(d) && finite(d) && refbuild::reasons(d).is_empty() => Some(l), _ => { *d = before; None } }
}
/// every input object has a value
fn finite(d: &SDoc) -> bool {
    let rs = RS::new(d); let mut ok: Vec<String> = vec![];
    let leaf = |n: &str| !matches!(rs.ty(n).map(|t| &t.kind), Some(Kind::Input { .. }));
    loop {
        let n = ok.len();
        for t in d.types() { if let Kind::Input { fields } = &t.kind { if ok.contains(&t.name) { continue }
            let fin = |f: &InputVal| matches!(f.ty, Ty::List(..)) || leaf(f.ty.base());
            let good = if rs.is_one_of(&t.name) { fields.iter().any(fin) } else { fields.iter().all(|f| !f.ty.req() || f.default.is_some() || fin(f) || ok.iter().any(|x| x == f.ty.base())) };
            if good { ok.push(t.name.clone()) } } }
        if ok.len() == n { break }
    }
    d.types().all(|t| !matches!(t.kind, Kind::Input { .. }) || ok.contains(&t.name))
}
/// a body without members cannot be written
fn hollow(d: &SDoc) -> bool { d.types().any(|t| match &t.kind { Kind::Scalar => false, Kind::Object { fields, .. } | Kind::Interface { fields, .. } => fields.is_empty(), Kind::Union { members } => members.is_empty(), Kind::Enum { values } => values.is_empty(), Kind::Input { fields } => fields.is_empty() }) || d.dirs().any(|x| x.locs.is_empty()) }
fn go(d: &mut SDoc, r: &mut Rng, class: Class, rs: &RS) -> Option<&'static str> {
    let snap = d.clone();
    let ext = ["add-type", "add-field", "add-optional-argument", "add-optional-input-field", "add-enum-value", "add-member", "add-interface", "add-directive", "add-location", "output-non-null", "input-nullable", "describe", "deprecate", "change-default", "add-default", "reorder", "add-optional-directive-argument"];
    let mild = ["remove-default", "add-oneOf", "directive-argument-change", "apply-directive", "remove-directive-arguments", "wrap-value"];
    let any = ["remove-type", "kind", "remove-field", "field-type", "add-argument", "remove-argument", "input-type", "remove-interface", "remove-enum-value", "remove-member", "remove-input-field", "add-input-field", "remove-directive", "remove-location", "unapply-directive", "add-directive-argument", "remove-directive-argument", "output-nullable", "input-non-null", "clear-directive-arguments"];
    let k = match class { Class::Ext => ext.len(), Class::Mild => ext.len() + mild.len(), Class::Any => ext.len() + mild.len() + any.len() };
    let i = r.n(k);
    let l: &'static str = if i < ext.len() { ext[i] } else if i < ext.len() + mild.len() { mild[i - ext.len()] } else { any[i - ext.len() - mild.len()] };
    let taken_types: Vec<String> = d.types().map(|t| t.name.clone()).collect();
    let fd = |r: &mut Rng, name: String| FieldDef { desc: None, name, args: vec![], ty: output_type(r, &snap), dirs: vec![] };
    match l {
        "add-type" => {
            let name = fresh(r, &taken_types, "New");
            let mut t = pick_type(d, r, |_| true)?.clone(); t.name = name; t.dirs.retain(|x| x.name != "oneOf");
            let at = r.n(d.defs.len() + 1); d.defs.insert(at, SDef::Type(t));
        }
        "remove-type" => { let n = r.pick(&taken_types).clone(); d.defs.retain(|x| !matches!(x, SDef::Type(t) if t.name == n)); if r.p(70) { drop_refs(d, &n) } }
        "kind" => {
            let k = match r.n(6) { 0 => Kind::Scalar, 1 => Kind::Object { ifaces: vec![], fields: vec![fd(r, "id".into())] }, 2 => Kind::Interface { ifaces: vec![], fields: vec![fd(r, "id".into())] }, 3 => Kind::Enum { values: vec![EnumVal { desc: None, name: "A".into(), dirs: vec![] }] }, 4 => Kind::Union { members: vec![snap.types().find(|t| t.is_object())?.name.clone()] }, _ => Kind::Input { fields: vec![InputVal { desc: None, name: "id".into(), ty: Ty::named("Int"), default: None, dirs: vec![] }] } };
            let t = pick_type(d, r, |_| true)?; t.dirs.clear(); t.kind = k;
        }
        "add-field" => {
            let t = pick_type(d, r, |t| !t.fields().is_empty())?; let taken: Vec<String> = t.fields().iter().map(|f| f.name.clone()).collect();
            let n = if r.p(50) { fresh(r, &taken, "field") } else { let c: Vec<String> = ["id", "name", "a", "b", "c", "count"].iter().map(|s| s.to_string()).filter(|s| !taken.contains(s)).collect(); if c.is_empty() { return None } r.pick(&c).clone() };
            let f = fd(r, n); let fs = t.fields_mut()?; let at = r.n(fs.len() + 1); fs.insert(at, f);
        }
        "remove-field" => { let t = pick_type(d, r, |t| t.fields().len() > 1)?; let fs = t.fields_mut()?; let k = r.n(fs.len()); fs.remove(k); }
        "field-type" => { let n = output_type(r, &snap); let f = pick_field(d, r)?; match r.n(4) { 0 => f.ty = Ty::list(f.ty.clone()), 1 => if let Ty::List(i, _) = f.ty.clone() { f.ty = *i }, 2 => { let b = n.base().to_string(); f.ty.set_base(&b) } _ => f.ty = n } }
        "output-non-null" | "output-nullable" => { let f = pick_field(d, r)?; let q0 = l == "output-non-null"; let mut t = f.ty.clone(); at_depth(&mut t, r, &mut |q| *q = q0); f.ty = t; }
        "input-nullable" | "input-non-null" => { let i = pick_input(d, r)?; let q0 = l == "input-non-null"; let mut t = i.ty.clone(); at_depth(&mut t, r, &mut |q| *q = q0); i.ty = t; if l == "input-non-null" && i.default == Some(Val::Null) { i.default = None } }
        "add-argument" | "add-optional-argument" => { let f = pick_field(d, r)?; let taken: Vec<String> = f.args.iter().map(|a| a.name.clone()).collect(); let a = new_input(r, &snap, rs, &taken, l == "add-optional-argument"); let at = r.n(f.args.len() + 1); f.args.insert(at, a) }
        "remove-argument" => { let mut c: Vec<&mut FieldDef> = d.types_mut().filter_map(|t| t.fields_mut()).flatten().filter(|f| !f.args.is_empty()).collect(); if c.is_empty() { return None } let k = r.n(c.len()); let f = &mut c[k]; let j = r.n(f.args.len()); f.args.remove(j); }
        "add-input-field" | "add-optional-input-field" => {
            let t = pick_type(d, r, |t| !t.input_fields().is_empty())?; let one = t.dirs.iter().any(|x| x.name == "oneOf");
            let taken: Vec<String> = t.input_fields().iter().map(|a| a.name.clone()).collect(); let mut a = new_input(r, &snap, rs, &taken, l == "add-optional-input-field"); if one { a.ty = a.ty.nullable(); a.default = None }
            if let Kind::Input { fields } = &mut t.kind { let at = r.n(fields.len() + 1); fields.insert(at, a) }
        }
        "remove-input-field" => { let t = pick_type(d, r, |t| t.input_fields().len() > 1)?; if let Kind::Input { fields } = &mut t.kind { let k = r.n(fields.len()); fields.remove(k); } }
        "input-type" => { let n = input_type(r, &snap); let i = pick_input(d, r)?; match r.n(4) { 0 => i.ty = Ty::list(i.ty.clone()), 1 => if let Ty::List(x, _) = i.ty.clone() { i.ty = *x }, 2 => { let b = n.base().to_string(); i.ty.set_base(&b) } _ => i.ty = n } i.default = None }
        "change-default" | "add-default" | "remove-default" => {
            let i = pick_input(d, r)?; let has = i.default.is_some();
            match (l, has) { ("change-default", true) | ("add-default", false) => { let v = value(r, rs, &i.ty, 2); if v == Val::Null && i.ty.req() { return None } i.default = Some(v) } ("remove-default", true) => i.default = None, _ => return None }
        }
        "wrap-value" => { let i = pick_input(d, r)?; let Some(v) = i.default.clone() else { return None }; i.default = Some(match v { Val::Int(x) => Val::Float(F(x as f64)), Val::List(mut l) => { l.reverse(); Val::List(l) } Val::Obj(mut o) => { o.reverse(); Val::Obj(o) } Val::Str(s) => Val::Str(s + " "), x => Val::List(vec![x]) }) }
        "add-enum-value" => { let t = pick_type(d, r, |t| !t.values().is_empty())?; let taken: Vec<String> = t.values().iter().map(|v| v.name.clone()).collect(); let name = fresh(r, &taken, "V"); if let Kind::Enum { values } = &mut t.kind { let at = r.n(values.len() + 1); values.insert(at, EnumVal { desc: None, name, dirs: vec![] }) } }
        "remove-enum-value" => { let t = pick_type(d, r, |t| t.values().len() > 1)?; if let Kind::Enum { values } = &mut t.kind { let k = r.n(values.len()); values.remove(k); } }
        "add-member" => { let objs: Vec<String> = d.types().filter(|t| t.is_object()).map(|t| t.name.clone()).collect(); let t = pick_type(d, r, |t| matches!(t.kind, Kind::Union { .. }))?; if let Kind::Union { members } = &mut t.kind { let c: Vec<String> = objs.into_iter().filter(|o| !members.contains(o)).collect(); if c.is_empty() { return None } let at = r.n(members.len() + 1); members.insert(at, r.pick(&c).clone()) } }
        "remove-member" => { let t = pick_type(d, r, |t| t.members().len() > 1)?; if let Kind::Union { members } = &mut t.kind { let k = r.n(members.len()); members.remove(k); } }
        "add-interface" => {
            let ifs: Vec<TypeDef> = d.types().filter(|t| matches!(t.kind, Kind::Interface { .. })).cloned().collect(); let t = pick_type(d, r, |t| t.is_object())?;
            if let Kind::Object { ifaces, fields } = &mut t.kind { let c: Vec<&TypeDef> = ifs.iter().filter(|i| !ifaces.contains(&i.name)).collect(); if c.is_empty() { return None } let i = *r.pick(&c); ifaces.push(i.name.clone()); for f in i.fields() { if !fields.iter().any(|x| x.name == f.name) { fields.push(f.clone()) } } }
        }
        "remove-interface" => { let t = pick_type(d, r, |t| t.is_object() && !t.ifaces().is_empty())?; if let Kind::Object { ifaces, .. } = &mut t.kind { let k = r.n(ifaces.len()); ifaces.remove(k); } }
        "add-directive" => { let taken: Vec<String> = d.dirs().map(|x| x.name.clone()).collect(); let name = fresh(r, &taken, "newdir"); d.defs.push(SDef::Dir(DirDef { desc: None, name, args: vec![], repeatable: r.p(30), locs: vec![r.ps(&["FIELD", "QUERY", "OBJECT", "FIELD_DEFINITION"]).into()] })) }
        "remove-directive" => { let c: Vec<String> = d.dirs().map(|x| x.name.clone()).collect(); if c.is_empty() { return None } let n = r.pick(&c).clone(); d.defs.retain(|x| !matches!(x, SDef::Dir(t) if t.name == n)); if r.p(70) { crate::schedit::each_dirs(d, |v, _| v.retain(|x| x.name != n)) } }
        "add-location" => { let all: Vec<&str> = ["QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "VARIABLE_DEFINITION", "SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION"].to_vec(); let n = d.dirs().count(); if n == 0 { return None } let k = r.n(n); let x = d.dirs_mut().nth(k)?; let c: Vec<&str> = all.into_iter().filter(|a| !x.locs.iter().any(|b| a == b)).collect(); if c.is_empty() { return None } x.locs.push(r.ps(&c).to_string()) }
        "remove-location" => { let n = d.dirs().filter(|x| x.locs.len() > 1).count(); if n == 0 { return None } let k = r.n(n); let x = d.dirs_mut().filter(|x| x.locs.len() > 1).nth(k)?; let j = r.n(x.locs.len()); x.locs.remove(j); }
        "add-directive-argument" | "add-optional-directive-argument" => { let n = d.dirs().count(); if n == 0 { return None } let k = r.n(n); let x = d.dirs_mut().nth(k)?; let taken: Vec<String> = x.args.iter().map(|a| a.name.clone()).collect(); let a = new_input(r, &snap, rs, &taken, l == "add-optional-directive-argument"); x.args.push(a) }
        "remove-directive-argument" => { let n = d.dirs().filter(|x| !x.args.is_empty()).count(); if n == 0 { return None } let k = r.n(n); let x = d.dirs_mut().filter(|x| !x.args.is_empty()).nth(k)?; if r.p(40) { x.args.clear() } else { let j = r.n(x.args.len()); x.args.remove(j); } }
        "describe" => { let mut n = 0; crate::schedit::each_desc(d, |_| n += 1); if n == 0 { return None } let k = r.n(n); let mut i = 0; let new = if r.p(25) { None } else if r.p(30) { Some(String::new()) } else { Some(r.ps(&["changed", "one\ntwo", "Ünï"]).to_string()) }; crate::schedit::each_desc(d, |x| { if i == k { *x = new.clone() } i += 1 }) }
        "deprecate" => { let (v, loc) = dirs_of(d, r)?; if !["FIELD_DEFINITION", "ENUM_VALUE", "ARGUMENT_DEFINITION", "INPUT_FIELD_DEFINITION"].contains(&loc) || v.iter().any(|x| x.name == "deprecated") { return None } v.push(Dir { name: "deprecated".into(), args: if r.p(60) { vec![("reason".into(), Val::Str("old".into()))] } else { vec![] } }) }
        "add-oneOf" => { let t = pick_type(d, r, |t| matches!(t.kind, Kind::Input { .. }) && !t.dirs.iter().any(|x| x.name == "oneOf"))?; t.dirs.push(Dir { name: "oneOf".into(), args: vec![] }); if let Kind::Input { fields } = &mut t.kind { for f in fields { if f.ty.req() || f.default.is_some() { return None } } } }
        "apply-directive" => { let defs: Vec<(String, Vec<String>, bool, Vec<String>)> = d.dirs().map(|x| (x.name.clone(), x.locs.clone(), x.repeatable, x.args.iter().map(|a| a.name.clone()).collect())).collect(); let (v, loc) = dirs_of(d, r)?; let c: Vec<&(String, Vec<String>, bool, Vec<String>)> = defs.iter().filter(|x| x.1.iter().any(|l| l == loc) && (x.2 || !v.iter().any(|y| y.name == x.0))).collect(); if c.is_empty() { return None } let x = *r.pick(&c); let args = x.3.iter().filter_map(|a| if r.p(60) { Some((a.clone(), gensyn::val(r, true, 1))) } else { None }).collect(); v.push(Dir { name: x.0.clone(), args }) }
        "unapply-directive" => { let (v, _) = dirs_of(d, r)?; let n = v.len(); if n == 0 { return None } v.truncate(n - 1) }
        "directive-argument-change" => { let (v, _) = dirs_of(d, r)?; let k = uniq(v, r)?; let x = &mut v[k]; if x.args.is_empty() || r.p(20) { if x.args.iter().any(|a| a.0 == "k") { return None } x.args.push(("k".into(), gensyn::val(r, true, 1))) } else { let j = r.n(x.args.len()); x.args[j].1 = gensyn::val(r, true, 1) } }
        "remove-directive-arguments" => { let (v, _) = dirs_of(d, r)?; let k = uniq(v, r)?; let x = &mut v[k]; if x.args.is_empty() { return None } let j = r.n(x.args.len()); x.args.remove(j); }
        "clear-directive-arguments" => { let (v, _) = dirs_of(d, r)?; let k = uniq(v, r)?; if v[k].args.is_empty() { return None } v[k].args.clear() }
        "reorder" => {
            let mut defs = std::mem::take(&mut d.defs); r.shuffle(&mut defs); d.defs = defs;
            for t in d.types_mut() { match &mut t.kind { Kind::Object { ifaces, fields } | Kind::Interface { ifaces, fields } => { r.shuffle(ifaces); r.shuffle(fields); for f in fields { r.shuffle(&mut f.args) } } Kind::Union { members } => r.shuffle(members), Kind::Enum { values } => r.shuffle(values), Kind::Input { fields } => r.shuffle(fields), _ => {} } }
            for x in d.dirs_mut() { r.shuffle(&mut x.locs); r.shuffle(&mut x.args) }
        }
        _ => return None,
    }
    Some(l)
}
/// a directive that is applied once
fn uniq(v: &[Dir], r: &mut Rng) -> Option<usize> { let c: Vec<usize> = (0..v.len()).filter(|i| v.iter().filter(|x| x.name == v[*i].name).count() == 1).collect(); if c.is_empty() { None } else { Some(*r.pick(&c)) } }
fn drop_refs(d: &mut SDoc, n: &str) {
    for t in d.types_mut() { match &mut t.kind {
        Kind::Object { ifaces, fields } | Kind::Interface { ifaces, fields } => { ifaces.retain(|x| x != n); if fields.iter().any(|f| f.ty.base() != n) { fields.retain(|f| f.ty.base() != n) } for f in fields { f.args.retain(|a| a.ty.base() != n) } }
        Kind::Union { members } => members.retain(|x| x != n),
        Kind::Input { fields } => if fields.iter().any(|f| f.ty.base() != n) { fields.retain(|f| f.ty.base() != n) },
        _ => {}
    } }
    for x in d.dirs_mut() { x.args.retain(|a| a.ty.base() != n) }
}
