//! Random valid schemas.
use crate::gensyn;
use crate::model::*;
use crate::rng::Rng;
use crate::rschema::RS;

#[derive(Clone, Debug)]
pub struct GS { pub descs: u32, pub deprecations: u32, pub one_of: bool, pub dirs: u32, pub cost: u32, pub roots: bool, pub defaults: u32, pub wild_strings: bool, pub subs: bool, pub iface_ifaces: bool, pub rand_desc_long: bool }
impl Default for GS { fn default() -> Self { GS { descs: 10, deprecations: 12, one_of: true, dirs: 10, cost: 0, roots: true, defaults: 40, wild_strings: false, subs: true, iface_ifaces: true, rand_desc_long: false } } }

const FNAMES: &[&str] = &["id", "name", "a", "b", "c", "node", "items", "edges", "nodes", "owner", "count", "tags", "self", "next", "kind", "value", "on", "type", "query", "x1", "first"];
const ANAMES: &[&str] = &["first", "last", "id", "in", "filter", "k", "v", "list", "flag", "a"];
const ENAMES: &[&str] = &["RED", "GREEN", "BLUE", "A", "B", "C", "on", "type", "x", "_1"];

pub fn desc(r: &mut Rng, g: &GS) -> Option<String> {
    if !r.p(g.descs) { return None }
    Some(if g.rand_desc_long { gensyn::string(r) } else { r.ps(&["words", "two words", "", "line one\nline two", "quote \" and \\ back", "  indented", "ünï", "trailing \"", "a\n\n  b"]).to_string() })
}

/// random literal that coerces to `ty`; variables are never used
pub fn value(r: &mut Rng, rs: &RS, ty: &Ty, d: usize) -> Val {
    if !ty.req() && r.p(12) { return Val::Null }
    match ty {
        Ty::List(i, _) => {
            // single item promotion, except around nested lists
            if r.p(20) { let v = value(r, rs, &i.clone().nn(), d); if v != Val::Null && !matches!(v, Val::List(_)) { return v } }
            let n = if d == 0 { 0 } else { r.n(4) };
            Val::List((0..n).map(|_| item(r, rs, i, d.saturating_sub(1))).collect())
        }
        Ty::Named(n, _) => named(r, rs, n, d),
    }
}
/// an item of a list: nested single-item promotion is not allowed there
pub fn item(r: &mut Rng, rs: &RS, ty: &Ty, d: usize) -> Val {
    if !ty.req() && r.p(12) { return Val::Null }
    match ty { Ty::List(i, _) => { let n = if d == 0 { 0 } else { r.n(3) }; Val::List((0..n).map(|_| item(r, rs, i, d.saturating_sub(1))).collect()) } Ty::Named(n, _) => named(r, rs, n, d) }
}
fn named(r: &mut Rng, rs: &RS, n: &str, d: usize) -> Val {
    match n {
        "Int" => return Val::Int(if r.p(60) { r.n(20) as i32 } else { gensyn::int(r) }),
        "Float" => return if r.p(50) { Val::Int(r.n(9) as i32) } else { Val::Float(F(r.n(1000) as f64 / 8.0)) },
        "String" => return Val::Str(r.ps(&["", "s", "hello", "a b", "q\"uote", "RED"]).to_string()),
        "Boolean" => return Val::Bool(r.p(50)),
        "ID" => return if r.p(50) { Val::Int(r.n(100) as i32) } else { Val::Str("id1".into()) },
        "Even" => return Val::Int(2 * r.n(50) as i32),
        "Blob" => return if r.p(50) { Val::Str("blob".into()) } else { Val::Obj(vec![("k".into(), Val::Int(1)), ("l".into(), Val::List(vec![Val::Str("x".into()), Val::Null]))]) },
        _ => {}
    }
    let Some(t) = rs.ty(n) else { return Val::Null };
    match &t.kind {
        Kind::Scalar => loop { let v = gensyn::val(r, true, 2); if v != Val::Null && !crate::refval::has_dup(&v) { break v } },
        Kind::Enum { values } => Val::Enum(r.pick(values).name.clone()),
        Kind::Input { fields } => {
            if rs.is_one_of(n) { let f = pick_cheap(r, rs, fields, d); let v = value(r, rs, &f.ty.clone().nn(), d.saturating_sub(1)); return Val::Obj(vec![(f.name.clone(), v)]) }
            let mut o = vec![];
            for f in fields {
                let must = f.ty.req() && f.default.is_none();
                if must || (d > 0 && r.p(50)) { o.push((f.name.clone(), value(r, rs, &f.ty, d.saturating_sub(1)))) }
            }
            if r.p(40) { r.shuffle(&mut o) }
            Val::Obj(o)
        }
        _ => Val::Null,
    }
}
fn pick_cheap<'a>(r: &mut Rng, rs: &RS, fs: &'a [InputVal], d: usize) -> &'a InputVal {
    let leaf: Vec<&InputVal> = fs.iter().filter(|f| rs.kind_is_leaf(f.ty.base()) || matches!(f.ty, Ty::List(..))).collect();
    if (d == 0 || r.p(60)) && !leaf.is_empty() { leaf[r.n(leaf.len())] } else { r.pick(fs) }
}

fn wrap(r: &mut Rng, n: &str) -> Ty {
    let mut t = Ty::named(n); if r.p(35) { t = t.nn() }
    let k = if r.p(70) { 0 } else if r.p(75) { 1 } else { 2 };
    for _ in 0..k { t = Ty::list(t); if r.p(35) { t = t.nn() } }
    t
}

struct B<'a> { r: &'a mut Rng, g: &'a GS, scalars: Vec<String>, enums: Vec<String>, inputs: Vec<String>, objs: Vec<String>, ifaces: Vec<String>, unions: Vec<String>, ts_dirs: Vec<DirDef> }
impl<'a> B<'a> {
    fn input_ty(&mut self, upto: Option<usize>) -> Ty {
        // `upto`: non-null direct references to input objects only to lower indexes
        let c = self.r.n(100);
        let n = if c < 45 { self.r.ps(&BUILTIN_SCALARS).to_string() } else if c < 55 { self.pick(&self.scalars.clone()) } else if c < 72 { self.pick(&self.enums.clone()) } else { self.pick(&self.inputs.clone()) };
        let n = if n.is_empty() { "Int".to_string() } else { n };
        let mut t = wrap(self.r, &n);
        if let Some(i) = upto { if let (Ty::Named(m, true), Some(j)) = (&t, self.inputs.iter().position(|x| x == &n)) { if j >= i { t = Ty::Named(m.clone(), false) } } }
        t
    }
    fn pick(&mut self, v: &[String]) -> String { if v.is_empty() { String::new() } else { self.r.pick(v).clone() } }
    fn output_ty(&mut self) -> Ty {
        let c = self.r.n(100);
        let n = if c < 35 { self.r.ps(&BUILTIN_SCALARS).to_string() } else if c < 40 { self.pick(&self.scalars.clone()) } else if c < 48 { self.pick(&self.enums.clone()) } else if c < 72 { self.pick(&self.objs.clone()) } else if c < 88 { self.pick(&self.ifaces.clone()) } else { self.pick(&self.unions.clone()) };
        let n = if n.is_empty() { "Int".to_string() } else { n };
        wrap(self.r, &n)
    }
    fn names(&mut self, pool: &[&'static str], lo: usize, hi: usize) -> Vec<String> {
        let mut v: Vec<String> = vec![]; let n = self.r.r(lo, hi);
        while v.len() < n { let x = self.r.ps(pool).to_string(); if !v.contains(&x) { v.push(x) } }
        v
    }
    fn args(&mut self, p: u32) -> Vec<InputVal> {
        if !self.r.p(p) { return vec![] }
        self.names(ANAMES, 1, 3).into_iter().map(|n| { let ty = if n == "first" || n == "last" { if self.r.p(70) { Ty::named("Int") } else { self.input_ty(None) } } else { self.input_ty(None) }; self.input_val(n, ty, "ARGUMENT_DEFINITION") }).collect()
    }
    fn input_val(&mut self, name: String, ty: Ty, loc: &str) -> InputVal {
        let mut dirs = self.ts(loc);
        if !ty.req() && self.r.p(self.g.deprecations) { dirs.push(self.depr()) }
        InputVal { desc: desc(self.r, self.g), name, ty, default: None, dirs }
    }
    fn depr(&mut self) -> Dir { let a = if self.r.p(50) { vec![] } else { vec![("reason".to_string(), Val::Str(self.r.ps(&["old", "use b", "", "no\"pe"]).to_string()))] }; Dir { name: "deprecated".into(), args: a } }
    fn ts(&mut self, loc: &str) -> Vec<Dir> {
        let c: Vec<DirDef> = self.ts_dirs.iter().filter(|d| d.locs.iter().any(|l| l == loc)).cloned().collect();
        let mut v = vec![];
        for d in c { if self.r.p(self.g.dirs) { let n = if d.repeatable { self.r.r(1, 2) } else { 1 }; for _ in 0..n { v.push(Dir { name: d.name.clone(), args: self.dir_args(&d) }) } } }
        v
    }
    fn dir_args(&mut self, d: &DirDef) -> Vec<(String, Val)> {
        let empty = RS::new(&SDoc::default());
        d.args.iter().filter_map(|a| { let must = a.ty.req() && a.default.is_none(); if must || self.r.p(50) { Some((a.name.clone(), value(self.r, &empty, &a.ty, 1))) } else { None } }).collect()
    }
    fn field(&mut self, name: String) -> FieldDef {
        let mut dirs = self.ts("FIELD_DEFINITION"); if self.r.p(self.g.deprecations) { dirs.push(self.depr()) }
        FieldDef { desc: desc(self.r, self.g), name, args: self.args(35), ty: self.output_ty(), dirs }
    }
}

pub fn schema(r: &mut Rng, g: &GS) -> SDoc {
    let named = |p: &str, n: usize| -> Vec<String> { (0..n).map(|i| format!("{p}{i}")).collect() };
    let (no, ni, nu, ne, nn) = (r.r(2, 5), r.n(4), r.n(3), r.r(1, 2), r.r(1, 4));
    let mut b = B { objs: named("Obj", no), ifaces: named("Ifc", ni), unions: named("Uni", nu), enums: named("Enm", ne), inputs: named("Inp", nn), scalars: vec!["Any0".into(), "Even".into(), "Blob".into()], ts_dirs: vec![], r, g };
    // directive definitions
    let mut dirdefs: Vec<DirDef> = vec![];
    let nd = b.r.n(4);
    for i in 0..nd {
        let mut locs: Vec<String> = vec![];
        let ts_only = i % 2 == 0 && b.r.p(35);
        if !ts_only { for l in EXEC_LOCS { if b.r.p(35) { locs.push(l.to_string()) } } }
        if i % 2 == 0 || locs.is_empty() { for l in TS_LOCS { if b.r.p(35) { locs.push(l.to_string()) } } }
        if locs.is_empty() { locs.push("FIELD".into()) }
        let ts = locs.iter().any(|l| TS_LOCS.contains(&l.as_str()));
        let args = b.names(ANAMES, 0, 2).into_iter().map(|n| {
            let ty = if ts { let x = b.r.ps(&BUILTIN_SCALARS); wrap(b.r, x) } else { b.input_ty(None) };
            InputVal { desc: desc(b.r, g), name: n, ty, default: None, dirs: vec![] }
        }).collect();
        dirdefs.push(DirDef { desc: desc(b.r, g), name: format!("dir{i}"), args, repeatable: b.r.p(40), locs });
    }
    b.ts_dirs = dirdefs.iter().filter(|d| d.locs.iter().any(|l| TS_LOCS.contains(&l.as_str()))).cloned().collect();
    let mut types: Vec<TypeDef> = vec![];
    for n in b.scalars.clone() {
        let mut dirs = b.ts("SCALAR"); if b.r.p(15) { dirs.push(Dir { name: "specifiedBy".into(), args: vec![("url".into(), Val::Str("http://x.y/z".into()))] }) }
        types.push(TypeDef { desc: desc(b.r, g), name: n, dirs, kind: Kind::Scalar });
    }
    for n in b.enums.clone() {
        let values = b.names(ENAMES, 1, 5).into_iter().map(|name| { let mut dirs = b.ts("ENUM_VALUE"); if b.r.p(g.deprecations) { dirs.push(b.depr()) } EnumVal { desc: desc(b.r, g), name, dirs } }).collect();
        types.push(TypeDef { desc: desc(b.r, g), name: n, dirs: b.ts("ENUM"), kind: Kind::Enum { values } });
    }
    for (i, n) in b.inputs.clone().into_iter().enumerate() {
        let one = g.one_of && b.r.p(25);
        let mut first = true;
        let fields = b.names(FNAMES, 1, 5).into_iter().map(|f| { let mut ty = b.input_ty(Some(i)); if one { if first && b.inputs.contains(&ty.base().to_string()) && !matches!(ty, Ty::List(..)) { ty = Ty::named("Int") } first = false; ty = ty.nullable() } b.input_val(f, ty, "INPUT_FIELD_DEFINITION") }).collect();
        let mut dirs = b.ts("INPUT_OBJECT"); if one { dirs.push(Dir { name: "oneOf".into(), args: vec![] }) }
        types.push(TypeDef { desc: desc(b.r, g), name: n, dirs, kind: Kind::Input { fields } });
    }
    // interface fields come from one registry, so that implementing several never clashes
    let reg: Vec<FieldDef> = b.names(FNAMES, 5, 9).into_iter().map(|n| b.field(n)).collect();
    let mut ifs: Vec<(String, Vec<String>, Vec<FieldDef>)> = vec![];
    for n in b.ifaces.clone() {
        let mut im: Vec<String> = vec![];
        if g.iface_ifaces { for (m, mi, _) in &ifs { if b.r.p(30) { for x in mi.iter().chain([m]) { if !im.contains(x) { im.push(x.clone()) } } } } }
        let mut fs: Vec<FieldDef> = vec![];
        for m in &im { for f in &ifs.iter().find(|x| &x.0 == m).unwrap().2 { if !fs.iter().any(|y| y.name == f.name) { fs.push(f.clone()) } } }
        let k = b.r.r(1, 3); for _ in 0..k { let f = b.r.pick(&reg).clone(); if !fs.iter().any(|y| y.name == f.name) { fs.push(f) } }
        ifs.push((n, im, fs));
    }
    for (n, im, fs) in &ifs { types.push(TypeDef { desc: desc(b.r, g), name: n.clone(), dirs: b.ts("INTERFACE"), kind: Kind::Interface { ifaces: im.clone(), fields: fs.clone() } }) }
    let mut objdefs = vec![];
    for n in b.objs.clone() {
        let mut im: Vec<String> = vec![];
        for (m, mi, _) in &ifs { if b.r.p(45) { for x in mi.iter().chain([m]) { if !im.contains(x) { im.push(x.clone()) } } } }
        let mut fs: Vec<FieldDef> = vec![];
        for m in &im { for f in &ifs.iter().find(|x| &x.0 == m).unwrap().2 { if !fs.iter().any(|y| y.name == f.name) {
            let mut f = f.clone(); if b.r.p(25) { f.ty = f.ty.nn() }
            if b.r.p(15) && !f.args.iter().any(|a| a.name == "extra") { f.args.push(InputVal { desc: None, name: "extra".into(), ty: Ty::named("Int"), default: None, dirs: vec![] }) }
            fs.push(f)
        } } }
        let k = b.r.r(1, 4); let more = b.names(FNAMES, k, k + 2);
        for m in more { if !fs.iter().any(|y| y.name == m) && !reg.iter().any(|x| x.name == m && b.r.p(70)) { let f = b.field(m); fs.push(f) } }
        if fs.is_empty() { let f = b.field("id".into()); fs.push(f) }
        if b.r.p(30) { b.r.shuffle(&mut fs) }
        objdefs.push(TypeDef { desc: desc(b.r, g), name: n, dirs: b.ts("OBJECT"), kind: Kind::Object { ifaces: im, fields: fs } });
    }
    // covariant narrowing to an implementing object / union member where possible
    for t in &objdefs.clone() { let _ = t; }
    types.extend(objdefs);
    for n in b.unions.clone() {
        let mut m = b.objs.clone(); b.r.shuffle(&mut m); let k = b.r.r(1, m.len().min(3)); m.truncate(k);
        types.push(TypeDef { desc: desc(b.r, g), name: n, dirs: b.ts("UNION"), kind: Kind::Union { members: m } });
    }
    // roots
    let explicit = g.roots && b.r.p(50);
    let names = if explicit { ["RootQ", "RootM", "RootS"] } else { ["Query", "Mutation", "Subscription"] };
    let mut roots = vec![];
    for (i, k) in OpKind::ALL.iter().enumerate() {
        if i == 1 && !b.r.p(50) || i == 2 && !(g.subs && b.r.p(45)) { continue }
        let mut fs: Vec<FieldDef> = b.names(FNAMES, 2, 6).into_iter().map(|n| b.field(n)).collect();
        // make sure composite types are reachable
        if i == 0 { for (j, o) in b.objs.clone().iter().chain(&b.ifaces.clone()).chain(&b.unions.clone()).enumerate() { if b.r.p(60) { fs.push(FieldDef { desc: None, name: format!("get{j}"), args: b.args(25), ty: wrap(b.r, o), dirs: vec![] }) } } }
        roots.push((*k, names[i].to_string()));
        types.push(TypeDef { desc: desc(b.r, g), name: names[i].into(), dirs: b.ts("OBJECT"), kind: Kind::Object { ifaces: vec![], fields: fs } });
    }
    if g.roots && explicit && b.r.p(10) && roots.len() > 1 { roots[1].1 = roots[0].1.clone() }
    let mut defs: Vec<SDef> = types.into_iter().map(SDef::Type).collect();
    if explicit { let dirs = b.ts("SCHEMA"); defs.push(SDef::Schema(SchemaDef { desc: desc(b.r, g), dirs, roots })) }
    defs.extend(dirdefs.into_iter().map(SDef::Dir));
    if b.r.p(60) { b.r.shuffle(&mut defs) }
    let mut d = SDoc { defs };
    // defaults, now that every input type is known
    let rs = RS::new(&d);
    let p = g.defaults;
    let mut fill = |i: &mut InputVal, r: &mut Rng, ok: bool| if ok && r.p(p) && i.ty.base() != "Any0" { i.default = Some(value(r, &rs, &i.ty, 1)) };
    for def in &mut d.defs {
        match def {
            SDef::Type(t) => {
                let one = t.dirs.iter().any(|d| d.name == "oneOf");
                match &mut t.kind {
                    // defaults of input fields: leaf types only (object defaults would need the defaults of other types)
                    Kind::Input { fields } => for f in fields { let leaf = rs.kind_is_leaf(f.ty.base()); fill(f, b.r, leaf && !one) },
                    _ => {}
                }
                // interface and object copies of a field must agree, so argument defaults are derived from the name
                if let Some(fs) = t.fields_mut() { for f in fs { for a in &mut f.args { let mut rr = Rng::new(crate::rng::hash_str(&format!("{}{}{:?}", f.name, a.name, a.ty))); fill(a, &mut rr, true) } } }
            }
            SDef::Dir(x) => for a in &mut x.args { fill(a, b.r, true) },
            _ => {}
        }
    }
    d
}

/// Makes a schema crowded: `n` more types of every kind, most of them reachable from the query root.
pub fn crowd(sd: &mut SDoc, r: &mut Rng, n: usize) {
    let q = RS::new(sd).query.clone();
    if sd.types().any(|t| t.name.starts_with("Crowd")) || !sd.types().any(|t| t.name == q && t.field("crowd").is_none() && t.is_object()) { return }
    let fd = |name: &str, ty: Ty, args: Vec<InputVal>| FieldDef { desc: None, name: name.into(), args, ty, dirs: vec![] };
    let iv = |name: &str, ty: Ty| InputVal { desc: None, name: name.into(), ty, default: None, dirs: vec![] };
    let mut names = vec![];
    let mut defs = vec![];
    let kinds: Vec<usize> = (0..n).map(|_| r.n(12)).collect();
    let input = |r: &mut Rng| { let i = r.n(n); if kinds[i] == 8 || kinds[i] == 9 { format!("Crowd{i}") } else { r.ps(&["Int", "String", "ID"]).to_string() } };
    let output = |r: &mut Rng| { let i = r.n(n); if kinds[i] == 8 { "Int".to_string() } else { format!("Crowd{i}") } };
    let objs: Vec<String> = (0..n).filter(|i| kinds[*i] < 6).map(|i| format!("Crowd{i}")).collect();
    let ifs: Vec<String> = (0..n).filter(|i| kinds[*i] == 6).map(|i| format!("Crowd{i}")).collect();
    for i in 0..n {
        let name = format!("Crowd{i}");
        let own = |r: &mut Rng| -> Vec<FieldDef> { let mut v = vec![fd("name", Ty::named("String"), vec![])]; for k in 0..r.r(1, 3) { let t = output(r); let a = if r.p(30) { vec![iv("k", Ty::named(&input(r)))] } else { vec![] }; v.push(fd(&format!("f{k}"), if r.p(30) { Ty::list(Ty::named(&t)) } else { Ty::named(&t) }, a)) } v };
        let kind = match kinds[i] {
            0..=5 => Kind::Object { ifaces: if ifs.is_empty() || r.p(50) { vec![] } else { vec![r.pick(&ifs).clone()] }, fields: own(r) },
            6 => Kind::Interface { ifaces: vec![], fields: vec![fd("name", Ty::named("String"), vec![])] },
            7 => { let mut m: Vec<String> = (0..1 + r.n(5)).filter_map(|_| (!objs.is_empty()).then(|| r.pick(&objs).clone())).collect(); m.sort(); m.dedup(); if m.is_empty() { m.push(q.clone()) } Kind::Union { members: m } }
            8 => Kind::Input { fields: vec![iv("a", Ty::named("Int")), iv("b", Ty::named(&input(r)))] },
            9 => Kind::Enum { values: (0..1 + r.n(12)).map(|k| EnumVal { desc: None, name: format!("V{k}"), dirs: vec![] }).collect() },
            _ => Kind::Scalar,
        };
        names.push(name.clone());
        defs.push(SDef::Type(TypeDef { desc: None, name, dirs: vec![], kind }));
    }
    let t = sd.types_mut().find(|t| t.name == q).unwrap();
    for k in 0..4 { let o = output(r); let n = if k == 0 { "crowd".to_string() } else { format!("crowd{k}") }; if let Some(f) = t.fields_mut() { f.push(fd(&n, Ty::named(&o), vec![])) } }
    if r.p(50) { r.shuffle(&mut defs) }
    sd.defs.extend(defs);
}
