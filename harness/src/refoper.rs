//! Reference semantics of operations: expansion, inclusion, depth, cost, list sizes, deprecations, payloads.
use crate::model::*;
use crate::refcoerce::{self, Wrong};
use crate::rschema::{deprecation, RS};
use serde_json::{Map, Value as J};
use std::collections::{BTreeMap, BTreeSet};

pub type Payload = Map<String, J>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Inc { No, Unknown, Yes }

pub fn json_val(j: &J) -> Val {
    match j {
        J::Null => Val::Null, J::Bool(b) => Val::Bool(*b), J::String(s) => Val::Str(s.clone()),
        J::Number(n) => match n.as_i64() { Some(i) if i >= i32::MIN as i64 && i <= i32::MAX as i64 => Val::Int(i as i32), _ => Val::Float(F(n.as_f64().unwrap())) },
        J::Array(a) => Val::List(a.iter().map(json_val).collect()),
        J::Object(o) => Val::Obj(o.iter().map(|(k, v)| (k.clone(), json_val(v))).collect()),
    }
}
pub fn val_json(v: &Val) -> J {
    match v {
        Val::Null | Val::Var(_) => J::Null, Val::Bool(b) => J::Bool(*b), Val::Str(s) | Val::Enum(s) => J::String(s.clone()), Val::Int(i) => J::from(*i),
        Val::Float(f) => serde_json::Number::from_f64(f.0).map(J::Number).unwrap_or(J::Null),
        Val::List(l) => J::Array(l.iter().map(val_json).collect()),
        Val::Obj(o) => J::Object(o.iter().map(|(k, v)| (k.clone(), val_json(v))).collect()),
    }
}

/// What a visitor of one operation is told, in order.
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Enter { field: Field, def: FieldDef, owner: String, inc: Inc },
    /// an argument of a field or of a directive on a selection or operation
    Arg { name: String, val: Val, def: InputVal, inc: Inc },
    Leave { key: String, owner: String, inc: Inc },
    VarDef { name: String },
}

pub struct Env<'a> { pub rs: &'a RS, pub doc: &'a Doc, pub op: &'a Op, pub vars: &'a Payload }
impl<'a> Env<'a> {
    fn truth(&self, v: &Val) -> Option<bool> {
        match v {
            Val::Bool(b) => Some(*b),
            Val::Var(n) => {
                let d = self.op.vars.iter().find(|d| &d.name == n && matches!(&d.ty, Ty::Named(t, _) if t == "Boolean"))?;
                match self.vars.get(n) { Some(J::Bool(b)) => Some(*b), Some(_) => None, None => match &d.default { Some(Val::Bool(b)) => Some(*b), _ => None } }
            }
            _ => None,
        }
    }
    pub fn included(&self, dirs: &[Dir]) -> Inc {
        let mut r = Inc::Yes;
        for (n, cut) in [("skip", true), ("include", false)] {
            if let Some(d) = dirs.iter().find(|d| d.name == n) {
                match d.args.iter().find(|a| a.0 == "if").and_then(|a| self.truth(&a.1)) { Some(b) if b == cut => return Inc::No, Some(_) => {} None => r = Inc::Unknown }
            }
        }
        r
    }
    fn dir_args(&self, dirs: &[Dir], inc: Inc, f: &mut dyn FnMut(Ev)) {
        for d in dirs { if let Some(def) = self.rs.dir(&d.name) { for (n, v) in &d.args { if let Some(a) = def.args.iter().find(|a| &a.name == n) { f(Ev::Arg { name: n.clone(), val: v.clone(), def: a.clone(), inc }) } } } }
    }
    pub fn events(&self, f: &mut dyn FnMut(Ev)) {
        self.dir_args(&self.op.dirs, Inc::Yes, f);
        if let Some(root) = self.rs.root(self.op.kind) { self.sels(&self.op.sel, root, Inc::Yes, &mut vec![], f) }
        for v in &self.op.vars { f(Ev::VarDef { name: v.name.clone() }) }
    }
    fn sels(&self, sel: &[Sel], scope: &str, inc: Inc, spread: &mut Vec<String>, f: &mut dyn FnMut(Ev)) {
        for s in sel {
            let i = inc.min(self.included(s.dirs()));
            match s {
                Sel::Field(fl) => {
                    let Some(def) = self.rs.field(scope, &fl.name) else { continue };
                    self.dir_args(&fl.dirs, i, f);
                    f(Ev::Enter { field: fl.clone(), def: def.clone(), owner: scope.to_string(), inc: i });
                    for (n, v) in &fl.args { if let Some(a) = def.args.iter().find(|a| &a.name == n) { f(Ev::Arg { name: n.clone(), val: v.clone(), def: a.clone(), inc: i }) } }
                    if self.rs.ty(def.ty.base()).is_some() { self.sels(&fl.sel, def.ty.base(), i, spread, f) }
                    f(Ev::Leave { key: fl.key().to_string(), owner: scope.to_string(), inc: i });
                }
                Sel::Inline { cond, dirs, sel } => {
                    self.dir_args(dirs, i, f);
                    let c = cond.as_deref().unwrap_or(scope);
                    if self.rs.ty(c).is_some() { self.sels(sel, c, i, spread, f) }
                }
                Sel::Spread { name, dirs } => {
                    self.dir_args(dirs, i, f);
                    if spread.contains(name) { continue }
                    if let Some(fr) = self.doc.frags.iter().find(|x| &x.name == name) {
                        if self.rs.ty(&fr.cond).is_some() { spread.push(name.clone()); self.sels(&fr.sel, &fr.cond, i, spread, f); spread.pop(); }
                    }
                }
            }
        }
    }
    /// bounds: with unknown selections left out, and kept
    pub fn depth(&self) -> (usize, usize) {
        let (mut d, mut lo, mut hi) = (0usize, 0, 0);
        self.events(&mut |e| match e { Ev::Enter { inc, .. } => { d += 1; if inc == Inc::Yes { lo = lo.max(d) } if inc >= Inc::Unknown { hi = hi.max(d) } } Ev::Leave { .. } => d -= 1, _ => {} });
        (lo, hi)
    }
}

// ---------------- cost ----------------
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Model { Unit, Relay }

struct Set<'a> { sel: &'a [Sel], scope: String, poss: BTreeSet<String>, inc: Inc, conn: Option<u128> }
struct Occ<'a> { field: &'a Field, def: FieldDef, poss: BTreeSet<String>, inc: Inc, mult: u128, base: u128, conn: Option<u128>, leaf: bool }

fn sat(a: u128) -> u128 { a.min(u64::MAX as u128) }

impl<'a> Env<'a> {
    fn int(&self, v: &Val) -> Option<i32> {
        match v {
            Val::Int(i) => Some(*i),
            Val::Var(n) => {
                let d = self.op.vars.iter().find(|d| &d.name == n && matches!(&d.ty, Ty::Named(t, _) if t == "Int"))?;
                match self.vars.get(n) { Some(j) => if let Val::Int(i) = json_val(j) { Some(i) } else { None }, None => if let Some(Val::Int(i)) = d.default { Some(i) } else { None } }
            }
            _ => None,
        }
    }
    fn cost_arg(def: &FieldDef, a: &str) -> Option<String> {
        let d = def.dirs.iter().find(|d| d.name == "cost")?;
        d.args.iter().find(|x| x.0 == a).and_then(|x| if let Val::Str(s) = &x.1 { Some(s.clone()) } else { None })
    }
    fn base(&self, m: Model, def: &FieldDef) -> u128 {
        if m == Model::Unit { return 1 }
        let dflt = if self.rs.ty(def.ty.base()).map_or(false, |t| t.is_composite()) { 1 } else { 0 };
        match Self::cost_arg(def, "weight").and_then(|w| w.parse::<f32>().ok()) { Some(w) => if w.is_nan() || w <= 0.0 { 0 } else { sat(w as u128) }, None => dflt }
    }
    fn conn(&self, m: Model, def: &FieldDef, f: &Field) -> Option<u128> {
        if m == Model::Unit || Self::cost_arg(def, "kind").as_deref() != Some("connection") { return None }
        let size = ["first", "last"].iter().filter_map(|a| f.args.iter().find(|x| x.0 == *a).and_then(|x| self.int(&x.1))).max().unwrap_or(0).max(0);
        Some(if size > 0 { (2f32 * (size.max(2) as f32).ln()).floor() as u128 } else { 0 })
    }
    /// some selected connection is sized by two arguments that give different multipliers
    pub fn both_sized(&self) -> bool {
        let mut any = false;
        self.events(&mut |e| if let Ev::Enter { field, .. } = e {
            let v: Vec<_> = ["first", "last"].iter().filter_map(|a| field.args.iter().find(|x| x.0 == *a).and_then(|x| self.int(&x.1))).collect();
            if v.len() == 2 && v[0] != v[1] { any = true }
        });
        any
    }
    fn occs<'b>(&'b self, m: Model, s: &Set<'b>, strict: bool, spread: &mut Vec<String>, o: &mut Vec<Occ<'b>>) {
        for x in s.sel {
            let inc = s.inc.min(self.included(x.dirs()));
            if inc == Inc::No || (strict && inc == Inc::Unknown) { continue }
            let narrowed = |c: &str| -> BTreeSet<String> { let p = self.rs.possible(c).cloned().unwrap_or_default(); if strict { p.intersection(&s.poss).cloned().collect() } else { p } };
            match x {
                Sel::Field(f) => {
                    let Some(def) = self.rs.field(&s.scope, &f.name) else { continue };
                    let mult = match s.conn { Some(c) if f.name == "edges" || f.name == "nodes" => c, _ => 1 };
                    let leaf = !self.rs.ty(def.ty.base()).map_or(false, |t| t.is_composite());
                    o.push(Occ { field: f, def: def.clone(), poss: narrowed(&s.scope), inc, mult, base: self.base(m, def), conn: self.conn(m, def, f), leaf });
                }
                Sel::Inline { cond, sel, .. } => {
                    let c = cond.clone().unwrap_or(s.scope.clone());
                    if self.rs.ty(&c).is_none() { continue }
                    let p = narrowed(&c);
                    self.occs(m, &Set { sel, scope: c, poss: p, inc, conn: s.conn }, strict, spread, o);
                }
                Sel::Spread { name, .. } => {
                    if spread.contains(name) { continue }
                    let Some(fr) = self.doc.frags.iter().find(|x| &x.name == name) else { continue };
                    if self.rs.ty(&fr.cond).is_none() { continue }
                    spread.push(name.clone());
                    let p = narrowed(&fr.cond);
                    self.occs(m, &Set { sel: &fr.sel, scope: fr.cond.clone(), poss: p, inc, conn: s.conn }, strict, spread, o);
                    spread.pop();
                }
            }
        }
    }
    fn cost_sets(&self, m: Model, sets: &[Set], strict: bool) -> u128 {
        let mut occ: Vec<Occ> = vec![];
        for s in sets { self.occs(m, s, strict, &mut vec![], &mut occ) }
        let types: BTreeSet<&String> = occ.iter().flat_map(|o| o.poss.iter()).collect();
        let mut best = 0;
        // types with the same applicable selections cost the same
        let mut seen: BTreeMap<Vec<usize>, ()> = BTreeMap::new();
        for t in types {
            let idx: Vec<usize> = (0..occ.len()).filter(|i| occ[*i].poss.contains(t)).collect();
            if seen.insert(idx.clone(), ()).is_some() { continue }
            let mut keys: Vec<&str> = vec![];
            for i in &idx { let k = occ[*i].field.key(); if !keys.contains(&k) { keys.push(k) } }
            let mut sum = 0u128;
            for k in keys {
                let os: Vec<&Occ> = idx.iter().map(|i| &occ[*i]).filter(|o| o.field.key() == k).collect();
                let base = os.iter().map(|o| o.base).max().unwrap();
                // whether a free leaf takes part in a multiplier is left open
                let mult = os.iter().filter(|o| !strict || !(o.leaf && o.base == 0)).map(|o| o.mult).max().unwrap_or(0);
                let subs: Vec<Set> = os.iter().filter(|o| !o.field.sel.is_empty()).map(|o| { let b = o.def.ty.base().to_string(); let poss = self.rs.possible(&b).cloned().unwrap_or_default(); Set { sel: &o.field.sel, scope: b, poss, inc: o.inc, conn: o.conn } }).collect();
                let ch = if subs.is_empty() { 0 } else { self.cost_sets(m, &subs, strict) };
                sum = sat(sum + sat(sat(base + ch) * mult));
            }
            best = best.max(sum);
        }
        best
    }
    /// bounds: only concrete types that every enclosing condition admits, and every type of the nearest condition
    pub fn cost(&self, m: Model) -> (u128, u128) {
        let Some(root) = self.rs.root(self.op.kind) else { return (0, 0) };
        let set = || [Set { sel: &self.op.sel, scope: root.to_string(), poss: [root.to_string()].into(), inc: Inc::Yes, conn: None }];
        (self.cost_sets(m, &set(), true), self.cost_sets(m, &set(), false))
    }
}

// ---------------- list sizes ----------------
#[derive(Clone, Debug, Default)]
pub struct Bounds<T: Ord> { pub must: BTreeSet<T>, pub may: BTreeSet<T> }

impl<'a> Env<'a> {
    fn big(&self, max: usize, name: &str, v: &Val, sure: bool, o: &mut Bounds<(usize, String)>) {
        match v {
            Val::List(l) => {
                let over = l.len() > max;
                if over { if sure { o.must.insert((l.len(), name.to_string())); } o.may.insert((l.len(), name.to_string())); }
                for (i, x) in l.iter().enumerate() { self.big(max, &format!("{name}.{i}"), x, sure && !over, o) }
            }
            Val::Obj(f) => for (k, x) in f { self.big(max, &format!("{name}.{k}"), x, sure, o) },
            Val::Var(n) => match self.vars.get(n) {
                Some(j) => self.big(max, name, &json_val(j), sure, o),
                None => if let Some(d) = self.op.vars.iter().find(|d| &d.name == n).and_then(|d| d.default.as_ref()) { self.big(max, name, d, sure, o) },
            },
            _ => {}
        }
    }
    pub fn sizes(&self, max: usize) -> Bounds<(usize, String)> {
        let mut o = Bounds { must: BTreeSet::new(), may: BTreeSet::new() };
        self.events(&mut |e| if let Ev::Arg { name, val, inc, .. } = e { self.big(max, &name, &val, inc == Inc::Yes, &mut o) });
        o
    }
}

// ---------------- deprecations ----------------
pub type Dep = (&'static str, String, String);
impl<'a> Env<'a> {
    fn dep_val(&self, ty: &Ty, v: &Val, json: bool, name: &str, o: &mut Vec<Dep>) {
        match ty {
            Ty::List(i, _) => match v { Val::List(l) => for x in l { self.dep_val(i, x, json, name, o) }, _ => self.dep_val(i, v, json, name, o) },
            Ty::Named(n, _) => match self.rs.ty(n).map(|t| &t.kind) {
                Some(Kind::Enum { values }) => {
                    let m = match v { Val::Enum(e) => Some(e), Val::Str(s) if json => Some(s), _ => None };
                    if let Some(r) = m.and_then(|m| values.iter().find(|x| &x.name == m)).and_then(|x| deprecation(&x.dirs)) { o.push(("EnumValue", name.to_string(), r)) }
                }
                Some(Kind::Input { fields }) => if let Val::Obj(f) = v {
                    for (k, x) in f { if let Some(d) = fields.iter().find(|d| &d.name == k) { if let Some(r) = deprecation(&d.dirs) { o.push(("InputField", k.clone(), r)) } self.dep_val(&d.ty, x, json, name, o) } }
                },
                _ => {}
            },
        }
    }
    pub fn deprecations(&self) -> Bounds<Dep> {
        let mut b: Bounds<Dep> = Bounds { must: BTreeSet::new(), may: BTreeSet::new() };
        let mut used = BTreeSet::new();
        self.events(&mut |e| {
            let mut o: Vec<Dep> = vec![]; let yes;
            match &e {
                Ev::Enter { field, def, inc, .. } => {
                    if *inc == Inc::No { return }
                    yes = *inc == Inc::Yes;
                    if let Some(r) = deprecation(&def.dirs) { o.push(("Field", field.name.clone(), r)) }
                }
                Ev::Arg { name, val, def, inc } => {
                    yes = *inc == Inc::Yes;
                    if yes { crate::gendoc::uses_of(val, &mut used) }
                    if let Some(r) = deprecation(&def.dirs) { o.push(("Argument", name.clone(), r)) }
                    self.dep_val(&def.ty, val, false, name, &mut o);
                }
                _ => return,
            }
            for d in o { if yes { b.must.insert(d.clone()); } b.may.insert(d); }
        });
        for v in &self.op.vars {
            let p = self.vars.get(&v.name);
            let mut d = vec![]; if let Some(x) = &v.default { self.dep_val(&v.ty, x, false, &v.name, &mut d) }
            let mut j = vec![]; if let Some(x) = p { self.dep_val(&v.ty, &json_val(x), true, &v.name, &mut j) }
            let u = used.contains(&v.name);
            for x in &j { if u { b.must.insert(x.clone()); } b.may.insert(x.clone()); }
            for x in &d { if u && p.is_none() { b.must.insert(x.clone()); } b.may.insert(x.clone()); }
        }
        b
    }
    // ---------------- payload ----------------
    /// missing / invalid (with the wrong parts) / unused; `None` for variables whose judgement is left open
    pub fn payload(&self) -> (BTreeSet<String>, BTreeMap<String, Vec<Wrong>>, BTreeSet<String>, BTreeSet<String>) {
        let (mut miss, mut bad, mut open) = (BTreeSet::new(), BTreeMap::new(), BTreeSet::new());
        for v in &self.op.vars {
            match self.vars.get(&v.name) {
                None => if v.ty.req() && v.default.is_none() { miss.insert(v.name.clone()); },
                Some(j) => {
                    if open_number(self.rs, &v.ty, j) { open.insert(v.name.clone()); }
                    let w = refcoerce::coerce(self.rs, &v.ty, &json_val(j), true, &[]);
                    if !w.is_empty() { bad.insert(v.name.clone(), w); }
                }
            }
        }
        let unused = self.vars.keys().filter(|k| !self.op.vars.iter().any(|v| &v.name == *k)).cloned().collect();
        (miss, bad, unused, open)
    }
}
/// a whole float for Int, or an integer beyond 32 bits for ID, somewhere inside
pub fn open_number(rs: &RS, ty: &Ty, j: &J) -> bool {
    match ty {
        Ty::List(i, _) => match j { J::Array(a) => a.iter().any(|x| open_number(rs, i, x)), _ => open_number(rs, i, j) },
        Ty::Named(n, _) => match (n.as_str(), j) {
            ("Int" | "ID", J::Number(x)) => if x.is_f64() { x.as_f64().unwrap().fract() == 0.0 } else { n == "ID" && !matches!(json_val(j), Val::Int(_)) },
            (_, J::Object(o)) => rs.ty(n).map_or(false, |t| t.input_fields().iter().any(|f| o.get(&f.name).map_or(false, |x| open_number(rs, &f.ty, x)))),
            _ => false,
        },
    }
}
