//! Random executable documents over a schema: valid by construction, and semantic mutations of them.
use crate::genschema::{item, value};
use crate::model::*;
use crate::rng::Rng;
use crate::rschema::RS;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug)]
pub struct GD { pub depth: usize, pub ops: (usize, usize), pub frags: usize, pub vars: u32, pub skips: u32, pub dirs: u32, pub alias_free: bool, pub width: usize, pub all_named: bool, pub var_defaults: u32, pub intro: bool, pub kinds: bool }
impl Default for GD { fn default() -> Self { GD { depth: 3, ops: (1, 3), frags: 4, vars: 35, skips: 8, dirs: 12, alias_free: false, width: 4, all_named: false, var_defaults: 30, intro: true, kinds: true } } }

pub struct G<'a> {
    pub r: &'a mut Rng, pub rs: &'a RS, pub g: &'a GD,
    /// variables of the document: name -> definition
    pub vars: BTreeMap<String, VarDef>,
    /// response key -> (name, args, shape) so that equal keys always merge
    keys: HashMap<String, (String, Vec<(String, Val)>, String)>,
    frags: Vec<(String, String)>,
    cur: usize, // fragments with index >= cur may be spread
    used: BTreeSet<usize>,
    budget: usize,
}

fn shape(rs: &RS, t: &Ty) -> String { let mut t = t.clone(); if !rs.kind_is_leaf(t.base()) { t.set_base("*") } t.show() }

impl<'a> G<'a> {
    fn var_for(&mut self, ty: &Ty, has_default: bool) -> Option<Val> {
        // reuse a variable usable here, or introduce one
        let c: Vec<String> = self.vars.values().filter(|v| crate::refval::usage_allowed(&v.ty, v.default.as_ref(), ty, has_default)).map(|v| v.name.clone()).collect();
        if !c.is_empty() && self.r.p(45) { return Some(Val::Var(self.r.pick(&c).clone())) }
        if self.vars.len() > 7 { return None }
        let name = format!("{}{}", self.r.ps(&["v", "w", "id", "in", "first"]), self.vars.len());
        let mut t = ty.clone(); let mut default = None;
        if self.r.p(self.g.var_defaults) { let d = value(self.r, self.rs, &ty.clone(), 2); if !(ty.req() && d == Val::Null) { if ty.req() && self.r.p(60) { t = t.nullable() } if !(d == Val::Null && ty.req()) { default = Some(d) } } }
        else if !ty.req() && self.r.p(25) { t = t.nn() }
        else if ty.req() && has_default && self.r.p(40) { t = t.nullable() }
        // list items may be stricter than required
        if let Ty::List(i, q) = &t { if self.r.p(15) && default.is_none() { t = Ty::List(Box::new(i.clone().nn()), *q) } }
        if default == Some(Val::Null) && t.req() { default = None }
        let dirs = if self.r.p(self.g.dirs / 2) { self.const_dirs("VARIABLE_DEFINITION") } else { vec![] };
        self.vars.insert(name.clone(), VarDef { name: name.clone(), ty: t, default, dirs });
        Some(Val::Var(name))
    }
    /// a value for a position, possibly with variables inside
    pub fn val(&mut self, ty: &Ty, has_default: bool, d: usize, in_list: bool) -> Val {
        if self.r.p(self.g.vars) { if let Some(v) = self.var_for(ty, has_default) { return v } }
        if d == 0 || !self.r.p(60) { return if in_list { item(self.r, self.rs, ty, d) } else { value(self.r, self.rs, ty, d) } }
        match ty {
            Ty::List(i, _) => { let n = self.r.n(4); Val::List((0..n).map(|_| self.val(i, false, d - 1, true)).collect()) }
            Ty::Named(n, _) => match self.rs.ty(n).map(|t| &t.kind) {
                Some(Kind::Input { fields }) => {
                    if self.rs.is_one_of(n) {
                        let f = self.r.pick(fields).clone();
                        let leaf = self.rs.kind_is_leaf(f.ty.base());
                        let v = if leaf || d > 1 { self.val(&f.ty.clone().nn(), false, d - 1, false) } else { return if in_list { item(self.r, self.rs, ty, d) } else { value(self.r, self.rs, ty, d) } };
                        return Val::Obj(vec![(f.name.clone(), v)])
                    }
                    let fields = fields.clone(); let mut o = vec![];
                    for f in &fields { if (f.ty.req() && f.default.is_none()) || self.r.p(50) { let v = self.val(&f.ty, f.default.as_ref().map_or(false, |x| *x != Val::Null), d - 1, false); o.push((f.name.clone(), v)) } }
                    if self.r.p(40) { self.r.shuffle(&mut o) }
                    Val::Obj(o)
                }
                _ => if in_list { item(self.r, self.rs, ty, d) } else { value(self.r, self.rs, ty, d) },
            },
        }
    }
    pub fn args(&mut self, defs: &[InputVal]) -> Vec<(String, Val)> {
        let mut v = vec![];
        for d in defs { if (d.ty.req() && d.default.is_none()) || self.r.p(45) { let x = self.val(&d.ty, d.default.as_ref().map_or(false, |x| *x != Val::Null), 3, false); v.push((d.name.clone(), x)) } }
        if self.r.p(30) { self.r.shuffle(&mut v) }
        v
    }
    fn exec_dirs(&mut self, loc: &str) -> Vec<Dir> {
        let mut v = vec![];
        if matches!(loc, "FIELD" | "FRAGMENT_SPREAD" | "INLINE_FRAGMENT") {
            for n in ["skip", "include"] { if self.r.p(self.g.skips) {
                let b = Ty::named("Boolean").nn();
                let x = if self.r.p(45) { Val::Bool(self.r.p(50)) } else { self.var_for(&b, false).unwrap_or(Val::Bool(true)) };
                v.push(Dir { name: n.into(), args: vec![("if".into(), x)] })
            } }
        }
        if self.r.p(self.g.dirs) {
            let c: Vec<DirDef> = self.rs.user_dirs.iter().map(|n| self.rs.dirs[n].clone()).filter(|d| d.locs.iter().any(|l| l == loc)).collect();
            if !c.is_empty() { let d = self.r.pick(&c).clone(); let n = if d.repeatable { self.r.r(1, 2) } else { 1 }; for _ in 0..n { let a = self.args(&d.args); v.push(Dir { name: d.name.clone(), args: a }) } }
        }
        if self.r.p(20) { self.r.shuffle(&mut v) }
        v
    }
    fn const_dirs(&mut self, loc: &str) -> Vec<Dir> {
        let c: Vec<DirDef> = self.rs.user_dirs.iter().map(|n| self.rs.dirs[n].clone()).filter(|d| d.locs.iter().any(|l| l == loc)).collect();
        if c.is_empty() { return vec![] }
        let d = self.r.pick(&c).clone(); let mut a = vec![];
        for x in &d.args { if (x.ty.req() && x.default.is_none()) || self.r.p(40) { a.push((x.name.clone(), value(self.r, self.rs, &x.ty, 2))) } }
        vec![Dir { name: d.name, args: a }]
    }
    fn key(&mut self, f: &mut Field, ty: &Ty) {
        let sig = (f.name.clone(), f.args.clone(), shape(self.rs, ty));
        if self.g.alias_free { // any key; clashes are judged by the oracle
            if self.r.p(35) { f.alias = Some(self.r.ps(&["a", "b", "c", "id", "name"]).to_string()) }
            return
        }
        let mut cand: Vec<String> = vec![f.name.clone()];
        if self.r.p(25) { cand.insert(0, self.r.ps(&["a", "z", "id", "alias", "k1"]).to_string()) }
        for i in 0.. {
            let k = if i < cand.len() { cand[i].clone() } else { format!("{}_{}", f.name.trim_start_matches('_'), i) };
            match self.keys.get(&k) { Some(s) if *s != sig => continue, _ => {} }
            self.keys.insert(k.clone(), sig);
            f.alias = if k == f.name { if self.r.p(4) { Some(k) } else { None } } else { Some(k) };
            return
        }
    }
    /// a type condition that can apply inside `parent`
    fn cond(&mut self, parent: &str) -> String {
        let p = self.rs.possible(parent).cloned().unwrap_or_default();
        let c: Vec<String> = self.rs.types.values().filter(|t| t.is_composite() && !t.name.starts_with("__")).filter(|t| self.rs.possible(&t.name).map_or(false, |q| !q.is_disjoint(&p))).map(|t| t.name.clone()).collect();
        if c.is_empty() { parent.to_string() } else { self.r.pick(&c).clone() }
    }
    pub fn sels(&mut self, parent: &str, d: usize) -> Vec<Sel> {
        let t = self.rs.ty(parent).unwrap().clone();
        let mut out = vec![];
        let n = self.r.r(1, self.g.width);
        for _ in 0..n {
            if self.budget == 0 { break }
            self.budget -= 1;
            let c = self.r.n(100);
            if c < 12 && d > 0 && self.rs.possible(parent).map_or(false, |p| !p.is_empty()) {
                let cond = if self.r.p(25) { None } else { Some(self.cond(parent)) };
                let dirs = self.exec_dirs("INLINE_FRAGMENT");
                let p = cond.clone().unwrap_or(parent.to_string());
                let sel = self.sels(&p, d - 1);
                out.push(Sel::Inline { cond, dirs, sel }); continue
            }
            if c < 30 {
                let pp = self.rs.possible(parent).cloned().unwrap_or_default();
                let fs: Vec<usize> = (self.cur..self.frags.len()).filter(|i| self.rs.possible(&self.frags[*i].1).map_or(false, |q| !q.is_disjoint(&pp))).collect();
                if !fs.is_empty() { let i = *self.r.pick(&fs); self.used.insert(i); let name = self.frags[i].0.clone(); let dirs = self.exec_dirs("FRAGMENT_SPREAD"); out.push(Sel::Spread { name, dirs }); continue }
            }
            let mut fs: Vec<FieldDef> = t.fields().to_vec();
            if fs.is_empty() || self.r.p(10) { fs = vec![self.rs.field(parent, "__typename").unwrap().clone()] }
            if self.g.intro && parent == self.rs.query && self.r.p(4) { let m = if self.r.p(50) { "__schema" } else { "__type" }; if let Some(f) = self.rs.field(parent, m) { fs = vec![f.clone()] } }
            let fd = self.r.pick(&fs).clone();
            let leaf = self.rs.kind_is_leaf(fd.ty.base());
            let fd = if !leaf && d == 0 { match t.fields().iter().find(|f| self.rs.kind_is_leaf(f.ty.base())) { Some(f) => f.clone(), None => self.rs.field(parent, "__typename").unwrap().clone() } } else { fd };
            let f = self.field(&fd, d);
            out.push(Sel::Field(f));
        }
        if out.is_empty() { let fd = self.rs.field(parent, "__typename").unwrap().clone(); let f = self.field(&fd, 0); out.push(Sel::Field(f)) }
        out
    }
    fn field(&mut self, fd: &FieldDef, d: usize) -> Field {
        let leaf = self.rs.kind_is_leaf(fd.ty.base());
        let mut f = Field { alias: None, name: fd.name.clone(), args: self.args(&fd.args), dirs: self.exec_dirs("FIELD"), sel: vec![] };
        self.key(&mut f, &fd.ty);
        if !leaf { f.sel = self.sels(fd.ty.base(), d.saturating_sub(1)) }
        f
    }
}

pub fn uses_of(v: &Val, o: &mut BTreeSet<String>) { match v { Val::Var(n) => { o.insert(n.clone()); } Val::List(l) => for x in l { uses_of(x, o) }, Val::Obj(x) => for y in x { uses_of(&y.1, o) }, _ => {} } }
fn uses_dirs(d: &[Dir], o: &mut BTreeSet<String>) { for x in d { for a in &x.args { uses_of(&a.1, o) } } }
pub fn uses_sel(s: &[Sel], o: &mut BTreeSet<String>, sp: &mut BTreeSet<String>) {
    for x in s { uses_dirs(x.dirs(), o); match x { Sel::Field(f) => { for a in &f.args { uses_of(&a.1, o) } uses_sel(&f.sel, o, sp) } Sel::Inline { sel, .. } => uses_sel(sel, o, sp), Sel::Spread { name, .. } => { sp.insert(name.clone()); } } }
}
/// variables an operation uses, with fragments
pub fn op_uses(d: &Doc, op: &Op) -> BTreeSet<String> {
    let mut o = BTreeSet::new(); let mut sp = BTreeSet::new(); uses_dirs(&op.dirs, &mut o); uses_sel(&op.sel, &mut o, &mut sp);
    let mut done = BTreeSet::new();
    while let Some(n) = sp.iter().find(|x| !done.contains(*x)).cloned() { done.insert(n.clone()); if let Some(f) = d.frags.iter().find(|f| f.name == n) { uses_dirs(&f.dirs, &mut o); uses_sel(&f.sel, &mut o, &mut sp) } }
    o
}

pub fn doc(r: &mut Rng, rs: &RS, g: &GD) -> Doc {
    let nf = r.n(g.frags + 1);
    let comp: Vec<String> = rs.types.values().filter(|t| t.is_composite() && !t.name.starts_with("__")).map(|t| t.name.clone()).collect();
    let frags: Vec<(String, String)> = (0..nf).map(|i| (format!("F{i}"), r.pick(&comp).clone())).collect();
    let mut x = G { r, rs, g, vars: BTreeMap::new(), keys: HashMap::new(), frags, cur: 0, used: BTreeSet::new(), budget: 60 };
    let (lo, hi) = g.ops; let nops = x.r.r(lo, hi);
    let mut d = Doc { ops: vec![], frags: vec![], frags_first: x.r.p(20) };
    for i in 0..nops {
        let mut kinds = vec![OpKind::Query]; if g.kinds { if rs.mutation.is_some() { kinds.push(OpKind::Mutation) } if rs.subscription.is_some() { kinds.push(OpKind::Subscription) } }
        let kind = *x.r.pick(&kinds); let root = rs.root(kind).unwrap().to_string();
        let mut sel = if kind == OpKind::Subscription { vec![] } else { x.sels(&root, g.depth) };
        if kind == OpKind::Subscription {
            // one plain root field
            let ok: Vec<FieldDef> = rs.ty(&root).unwrap().fields().to_vec();
            let fd = x.r.pick(&ok).clone(); let f = x.field(&fd, g.depth); sel = vec![Sel::Field(f)];
            let k = x.r.n(4); for _ in 0..k { sel = vec![Sel::Inline { cond: if x.r.p(50) { Some(root.clone()) } else { None }, dirs: vec![], sel }] }
            if x.r.p(20) { let again = sel.clone(); sel.extend(again) }
        }
        let loc = match kind { OpKind::Query => "QUERY", OpKind::Mutation => "MUTATION", OpKind::Subscription => "SUBSCRIPTION" };
        let dirs = x.exec_dirs(loc);
        let name = if nops == 1 && !g.all_named && x.r.p(40) { None } else { Some(format!("Op{i}")) };
        d.ops.push(Op { kind, shorthand: false, name, vars: vec![], dirs, sel });
    }
    // fragments in order: fragment i may spread later ones
    for i in 0..x.frags.len() {
        if !x.used.contains(&i) { continue }
        x.cur = i + 1; x.budget = x.budget.max(12);
        let (n, c) = x.frags[i].clone();
        let dirs = x.exec_dirs("FRAGMENT_DEFINITION");
        let depth = x.r.r(0, g.depth); let sel = x.sels(&c, depth);
        d.frags.push(Frag { name: n, cond: c, dirs, sel });
    }
    let vars = std::mem::take(&mut x.vars);
    for i in 0..d.ops.len() {
        let u = op_uses(&d, &d.ops[i]);
        let mut vs: Vec<VarDef> = u.iter().map(|n| vars[n].clone()).collect();
        for v in &mut vs { // an operation may declare the variable more strictly
            if !v.ty.req() && x.r.p(12) { v.ty = v.ty.clone().nn(); if v.default == Some(Val::Null) { v.default = None } }
        }
        if x.r.p(50) { x.r.shuffle(&mut vs) }
        let o = &mut d.ops[i]; o.vars = vs;
        o.shorthand = o.kind == OpKind::Query && o.name.is_none() && o.vars.is_empty() && o.dirs.is_empty() && x.r.p(70);
    }
    x.r.shuffle(&mut d.frags);
    d
}

// ---------------- semantic mutations ----------------
/// every selection set of the document, mutable, with its (statically known) parent type name
pub fn walk_sets<'a>(rs: &RS, d: &'a mut Doc, f: &mut dyn FnMut(&mut Vec<Sel>, Option<&str>)) {
    fn go(rs: &RS, s: &mut Vec<Sel>, p: Option<&str>, f: &mut dyn FnMut(&mut Vec<Sel>, Option<&str>)) {
        f(s, p);
        for x in s {
            match x {
                Sel::Field(fl) => { let t = p.and_then(|p| rs.field(p, &fl.name)).map(|d| d.ty.base().to_string()); if !fl.sel.is_empty() { go(rs, &mut fl.sel, t.as_deref(), f) } }
                Sel::Inline { cond, sel, .. } => { let c = cond.clone(); go(rs, sel, c.as_deref().or(p), f) }
                Sel::Spread { .. } => {}
            }
        }
    }
    for o in &mut d.ops { let r = rs.root(o.kind).map(|x| x.to_string()); go(rs, &mut o.sel, r.as_deref(), f) }
    for fr in &mut d.frags { let c = fr.cond.clone(); go(rs, &mut fr.sel, Some(&c), f) }
}
pub fn count_sets(rs: &RS, d: &mut Doc) -> usize { let mut n = 0; walk_sets(rs, d, &mut |_, _| n += 1); n }
fn at_set<R>(rs: &RS, d: &mut Doc, k: usize, mut f: impl FnMut(&mut Vec<Sel>, Option<&str>) -> R) -> Option<R> { let mut i = 0; let mut out = None; walk_sets(rs, d, &mut |s, p| { if i == k { out = Some(f(s, p)) } i += 1 }); out }
/// all values of the document, mutable
pub fn walk_vals(d: &mut Doc, f: &mut dyn FnMut(&mut Val)) {
    fn val(v: &mut Val, f: &mut dyn FnMut(&mut Val)) { f(v); match v { Val::List(l) => for x in l { val(x, f) }, Val::Obj(o) => for x in o { val(&mut x.1, f) }, _ => {} } }
    fn args(a: &mut Vec<(String, Val)>, f: &mut dyn FnMut(&mut Val)) { for x in a { val(&mut x.1, f) } }
    fn dirs(a: &mut Vec<Dir>, f: &mut dyn FnMut(&mut Val)) { for x in a { args(&mut x.args, f) } }
    fn sel(s: &mut Vec<Sel>, f: &mut dyn FnMut(&mut Val)) { for x in s { dirs(x.dirs_mut(), f); match x { Sel::Field(y) => { args(&mut y.args, f); sel(&mut y.sel, f) } Sel::Inline { sel: s, .. } => sel(s, f), _ => {} } } }
    for o in &mut d.ops { dirs(&mut o.dirs, f); for v in &mut o.vars { if let Some(x) = &mut v.default { val(x, f) } } sel(&mut o.sel, f) }
    for o in &mut d.frags { dirs(&mut o.dirs, f); sel(&mut o.sel, f) }
}
/// every directive list with a tag
fn walk_dirs(d: &mut Doc, f: &mut dyn FnMut(&mut Vec<Dir>)) {
    fn sel(s: &mut Vec<Sel>, f: &mut dyn FnMut(&mut Vec<Dir>)) { for x in s { f(x.dirs_mut()); match x { Sel::Field(y) => sel(&mut y.sel, f), Sel::Inline { sel: s, .. } => sel(s, f), _ => {} } } }
    for o in &mut d.ops { f(&mut o.dirs); for v in &mut o.vars { f(&mut v.dirs) } sel(&mut o.sel, f) }
    for o in &mut d.frags { f(&mut o.dirs); sel(&mut o.sel, f) }
}
/// every argument list
fn walk_args(d: &mut Doc, f: &mut dyn FnMut(&mut Vec<(String, Val)>)) {
    fn sel(s: &mut Vec<Sel>, f: &mut dyn FnMut(&mut Vec<(String, Val)>)) { for x in s { for y in x.dirs_mut() { f(&mut y.args) } match x { Sel::Field(y) => { f(&mut y.args); sel(&mut y.sel, f) } Sel::Inline { sel: s, .. } => sel(s, f), _ => {} } } }
    for o in &mut d.ops { for y in &mut o.dirs { f(&mut y.args) } for v in &mut o.vars { for y in &mut v.dirs { f(&mut y.args) } } sel(&mut o.sel, f) }
    for o in &mut d.frags { for y in &mut o.dirs { f(&mut y.args) } sel(&mut o.sel, f) }
}
pub const BAD_VALS: usize = 12;
pub fn bad_val(r: &mut Rng, rs: &RS) -> Val {
    match r.n(BAD_VALS) {
        0 => Val::Null, 1 => Val::Int(7), 2 => Val::Float(F(1.5)), 3 => Val::Str("str".into()), 4 => Val::Bool(true), 5 => Val::Enum(r.ps(&["NOPE", "RED", "A"]).into()),
        6 => Val::List(vec![]), 7 => Val::List(vec![Val::List(vec![Val::Int(1)]), Val::Null]), 8 => Val::Obj(vec![]), 9 => Val::Obj(vec![(r.ps(&["id", "zz", "a"]).into(), Val::Int(1))]),
        10 => Val::Int(3),
        _ => { let ins: Vec<&TypeDef> = rs.user_types().filter(|t| t.is_input()).collect(); let t = r.pick(&ins).name.clone(); value(r, rs, &Ty::named(&t).nn(), 1) }
    }
}

/// Apply one random semantic edit; returns its label. The edit may leave the document valid.
pub fn mutate(r: &mut Rng, rs: &RS, d: &mut Doc) -> &'static str { mutate_of(r, rs, d, None) }
fn mutate_of(r: &mut Rng, rs: &RS, d: &mut Doc, which: Option<&[usize]>) -> &'static str {
    let l = mutate_one(r, rs, d, which);
    for o in &mut d.ops { if o.kind != OpKind::Query || o.name.is_some() || !o.vars.is_empty() || !o.dirs.is_empty() { o.shorthand = false } }
    l
}
pub fn mutate_vars(r: &mut Rng, rs: &RS, d: &mut Doc) -> &'static str { mutate_of(r, rs, d, Some(&[25, 25, 27, 27, 30, 31, 31, 16, 38])) }
pub fn mutate_values(r: &mut Rng, rs: &RS, d: &mut Doc) -> &'static str { mutate_of(r, rs, d, Some(&[3, 6, 6, 10, 10, 30])) }
pub fn walk_val(v: &mut Val, f: &mut dyn FnMut(&mut Val)) { f(v); match v { Val::List(l) => for x in l { walk_val(x, f) }, Val::Obj(o) => for x in o { walk_val(&mut x.1, f) }, _ => {} } }
fn mutate_one(r: &mut Rng, rs: &RS, d: &mut Doc, which: Option<&[usize]>) -> &'static str {
    let ns = count_sets(rs, d);
    let composites: Vec<String> = rs.types.values().filter(|t| t.is_composite() && !t.name.starts_with("__")).map(|t| t.name.clone()).collect();
    let k = r.n(ns.max(1));
    let m = match which { None => r.n(40), Some(w) => *r.pick(w) };
    match m {
        0 | 1 => { let nn = r.ps(&["nope", "id", "name", "__typename", "zz"]).to_string(); at_set(rs, d, k, |s, _| { let i = s.iter().position(|x| matches!(x, Sel::Field(_))); if let Some(i) = i { if let Sel::Field(f) = &mut s[i] { f.name = nn.clone() } } }); "rename-field" }
        2 => { // leaf with sub-selection / composite without
            at_set(rs, d, k, |s, _| { let mut i: Vec<usize> = (0..s.len()).filter(|i| matches!(s[*i], Sel::Field(_))).collect(); if i.is_empty() { return } let j = i.remove(r.n(i.len())); if let Sel::Field(f) = &mut s[j] { if f.sel.is_empty() { f.sel = vec![Sel::Field(Field { alias: None, name: "id".into(), args: vec![], dirs: vec![], sel: vec![] })] } else { f.sel.clear() } } }); "leaf-selection" }
        3 | 4 | 5 => { let mut n = 0; walk_args(d, &mut |_| n += 1); if n == 0 { return "none" } let j = r.n(n); let w = r.n(4); let nm = r.ps(&["zz", "first", "if", "id", "in"]).to_string(); let mut i = 0; let bv = bad_val(r, rs);
            walk_args(d, &mut |a| { if i == j { match w { 0 => { if !a.is_empty() { a.remove(0); } } 1 => { if !a.is_empty() { let x = a[0].clone(); a.push(x) } } 2 => a.push((nm.clone(), bv.clone())), _ => if let Some(x) = a.last_mut() { x.0 = nm.clone() } } } i += 1 }); "arguments" }
        6 | 7 | 8 | 9 => { let mut n = 0; walk_vals(d, &mut |_| n += 1); if n == 0 { return "none" } let j = r.n(n); let b = bad_val(r, rs); let mut i = 0; walk_vals(d, &mut |v| { if i == j { *v = b.clone() } i += 1 }); "replace-value" }
        10 | 11 => { let mut n = 0; walk_vals(d, &mut |v| if matches!(v, Val::Obj(_) | Val::List(_)) { n += 1 }); if n == 0 { return "none" } let j = r.n(n); let w = r.n(5); let b = bad_val(r, rs); let mut i = 0;
            walk_vals(d, &mut |v| if matches!(v, Val::Obj(_) | Val::List(_)) { if i == j { match v { Val::Obj(o) => match w { 0 => { o.pop(); } 1 => o.push(("zz".into(), b.clone())), 2 => if let Some(x) = o.first().cloned() { o.push(x) }, 3 => if let Some(x) = o.first_mut() { x.1 = b.clone() }, _ => if let Some(x) = o.first_mut() { x.1 = Val::Null } }, Val::List(l) => if w < 3 { l.push(b.clone()) } else { l.insert(0, Val::Null) }, _ => {} } } i += 1 }); "edit-composite-value" }
        12 | 13 | 14 => { let mut n = 0; walk_dirs(d, &mut |_| n += 1); let j = r.n(n.max(1)); let w = r.n(4); let mut i = 0; let all: Vec<String> = rs.dirs.keys().cloned().collect(); let dn = r.pick(&all).clone(); let def = rs.dirs[&dn].clone();
            let mut args: Vec<(String, Val)> = vec![]; for a in &def.args { if a.ty.req() || r.p(30) { args.push((a.name.clone(), value(r, rs, &a.ty, 2))) } }
            walk_dirs(d, &mut |x| { if i == j { match w { 0 => x.push(Dir { name: "undefinedDir".into(), args: vec![] }), 1 => if let Some(y) = x.first().cloned() { x.push(y) } else { x.push(Dir { name: dn.clone(), args: args.clone() }); x.push(Dir { name: dn.clone(), args: args.clone() }) }, _ => x.push(Dir { name: dn.clone(), args: args.clone() }) } } i += 1 }); "directives" }
        15 => { at_set(rs, d, k, |s, _| { s.push(Sel::Spread { name: "Missing".into(), dirs: vec![] }) }); "undefined-spread" }
        16 | 17 => { if d.frags.is_empty() { return "none" } let i = r.n(d.frags.len()); let n = d.frags[i].name.clone(); at_set(rs, d, k, |s, _| { let j = s.len(); s.insert(j / 2, Sel::Spread { name: n.clone(), dirs: vec![] }) }); "spread-anywhere" }
        18 => { d.frags.push(Frag { name: "Unused".into(), cond: r.pick(&composites).clone(), dirs: vec![], sel: vec![Sel::Field(Field { alias: None, name: "__typename".into(), args: vec![], dirs: vec![], sel: vec![] })] }); if r.p(30) { let c = Sel::Spread { name: "Unused".into(), dirs: vec![] }; d.frags.last_mut().unwrap().sel.push(c) } "unused-fragment" }
        19 => { if let Some(f) = d.frags.first().cloned() { d.frags.push(f) } else if let Some(o) = d.ops.first().cloned() { d.ops.push(o) } "duplicate-definition" }
        20 => { if !d.frags.is_empty() { let i = r.n(d.frags.len()); d.frags[i].cond = match r.n(4) { 0 => "Nope".into(), 1 => "String".into(), 2 => rs.order[r.n(rs.order.len())].clone(), _ => r.pick(&composites).clone() } } "fragment-condition" }
        21 | 22 => { let c = match r.n(5) { 0 => "Nope".to_string(), 1 => "Int".into(), 2 => rs.order[r.n(rs.order.len())].clone(), _ => r.pick(&composites).clone() }; let wrap = r.p(50); at_set(rs, d, k, |s, _| { if wrap { let inner = s.clone(); *s = vec![Sel::Inline { cond: Some(c.clone()), dirs: vec![], sel: inner }] } else { s.push(Sel::Inline { cond: Some(c.clone()), dirs: vec![], sel: vec![Sel::Field(Field { alias: None, name: "__typename".into(), args: vec![], dirs: vec![], sel: vec![] })] }) } }); "inline-condition" }
        23 => { let o = r.n(d.ops.len()); d.ops[o].name = match r.n(3) { 0 => None, 1 => Some("Op0".into()), _ => Some("Other".into()) }; if d.ops[o].name.is_some() { d.ops[o].shorthand = false } "operation-name" }
        24 => { let o = r.n(d.ops.len()); d.ops[o].kind = *r.pick(&OpKind::ALL); d.ops[o].shorthand = false; "operation-kind" }
        25 | 26 => { let o = r.n(d.ops.len()); let op = &mut d.ops[o]; match r.n(5) {
            0 => { if !op.vars.is_empty() { let i = r.n(op.vars.len()); op.vars.remove(i); } }
            1 => { if !op.vars.is_empty() { let i = r.n(op.vars.len()); let v = op.vars[i].clone(); op.vars.push(v) } }
            2 => { op.shorthand = false; op.vars.push(VarDef { name: "unusedVar".into(), ty: Ty::named("Int"), default: None, dirs: vec![] }) }
            3 => { if !op.vars.is_empty() { let i = r.n(op.vars.len()); let t: Vec<&String> = rs.types.keys().collect(); let n = r.pick(&t).to_string(); op.vars[i].ty.set_base(&n) } }
            _ => { if !op.vars.is_empty() { let i = r.n(op.vars.len()); op.vars[i].ty.set_base(r.ps(&["Nope", "Int", "String", "Obj0", "Enm0"])) } } } "variables" }
        27 | 28 | 29 => { let o = r.n(d.ops.len()); let op = &mut d.ops[o]; if op.vars.is_empty() { return "none" } let i = r.n(op.vars.len()); let v = &mut op.vars[i]; match r.n(6) {
            0 => v.ty = v.ty.nullable(), 1 => v.ty = v.ty.clone().nn(), 2 => v.ty = Ty::list(v.ty.clone()), 3 => if let Ty::List(t, _) = &v.ty { v.ty = (**t).clone() }, 4 => v.default = None, _ => v.default = Some(Val::Null) } "variable-type" }
        30 => { let o = r.n(d.ops.len()); let op = &mut d.ops[o]; if op.vars.is_empty() { return "none" } let i = r.n(op.vars.len()); op.vars[i].default = Some(bad_val(r, rs)); "variable-default" }
        31 | 32 => { // use some variable somewhere else
            let vs: Vec<String> = d.ops.iter().flat_map(|o| o.vars.iter().map(|v| v.name.clone())).chain(["undef".to_string()]).collect(); let vn = r.pick(&vs).clone();
            let mut n = 0; walk_vals(d, &mut |_| n += 1); if n == 0 { return "none" } let j = r.n(n); let mut i = 0;
            // constants (defaults) must stay constant
            let skip: Vec<usize> = const_positions(d); if skip.contains(&j) { return "none" }
            walk_vals(d, &mut |v| { if i == j { *v = Val::Var(vn.clone()) } i += 1 }); "use-variable" }
        33 | 34 => { let a = r.ps(&["a", "id", "name", "b", "items"]).to_string(); at_set(rs, d, k, |s, _| { let i: Vec<usize> = (0..s.len()).filter(|i| matches!(s[*i], Sel::Field(_))).collect(); if i.is_empty() { return } let j = i[r.n(i.len())]; if let Sel::Field(f) = &mut s[j] { f.alias = Some(a.clone()) } }); "alias" }
        35 | 36 => { // a second selection with the key of an existing one
            at_set(rs, d, k, |s, p| { let i: Vec<usize> = (0..s.len()).filter(|i| matches!(s[*i], Sel::Field(_))).collect(); if i.is_empty() { return } let j = i[r.n(i.len())];
                let Sel::Field(f) = &s[j] else { return }; let mut g = f.clone();
                match r.n(4) { 0 => { if let Some(t) = p.and_then(|p| rs.ty(p)) { if let Some(x) = t.fields().iter().find(|x| x.name != g.name && rs.kind_is_leaf(x.ty.base())) { g.alias = Some(f.key().to_string()); g.name = x.name.clone(); g.args.clear(); g.sel.clear() } } }
                    1 => { g.args.pop(); } 2 => { if g.args.len() > 1 { g.args.reverse() } } _ => { if let Some(x) = g.args.first_mut() { if x.1 != Val::Null { x.1 = Val::Null } else { x.1 = Val::Int(99) } } } }
                let wrap = r.n(3); let x = Sel::Field(g); s.push(if wrap == 0 { x } else { Sel::Inline { cond: None, dirs: vec![], sel: vec![x] } }) }); "second-selection" }
        37 => { if let Some(o) = d.ops.iter_mut().find(|o| o.kind == OpKind::Subscription) { let x = Sel::Field(Field { alias: if r.p(50) { Some("other".into()) } else { None }, name: "__typename".into(), args: vec![], dirs: vec![], sel: vec![] }); match r.n(3) { 0 => o.sel.push(x), 1 => o.sel = vec![x], _ => if let Some(Sel::Inline { sel, .. }) = o.sel.first_mut() { sel.push(x) } else { o.sel.push(x) } } } "subscription-root" }
        38 => { // move a field to a fragment used in two places
            let mut moved = None; at_set(rs, d, k, |s, p| { if let Some(p) = p { if s.len() > 1 { let x = s.remove(0); moved = Some((x, p.to_string())); s.push(Sel::Spread { name: "Moved".into(), dirs: vec![] }) } } });
            if let Some((x, p)) = moved { if !d.frags.iter().any(|f| f.name == "Moved") { d.frags.push(Frag { name: "Moved".into(), cond: p, dirs: vec![], sel: vec![x] }) } } "move-to-fragment" }
        _ => { at_set(rs, d, k, |s, _| { let x = s.clone(); let i = r.n(x.len()); s.push(x[i].clone()) }); "repeat-selection" }
    }
}
/// indexes (in walk_vals order) of values in constant positions
fn const_positions(d: &mut Doc) -> Vec<usize> {
    // variable defaults are the only constants walked
    let mut marks = vec![]; let mut i = 0;
    let defaults: Vec<Val> = d.ops.iter().flat_map(|o| o.vars.iter().filter_map(|v| v.default.clone())).collect();
    let mut ptrs: Vec<*const Val> = vec![];
    fn all(v: &Val, o: &mut Vec<*const Val>) { o.push(v); match v { Val::List(l) => for x in l { all(x, o) }, Val::Obj(l) => for x in l { all(&x.1, o) }, _ => {} } }
    for o in &d.ops { for v in &o.vars { if let Some(x) = &v.default { all(x, &mut ptrs) } } }
    let _ = defaults;
    walk_vals(d, &mut |v| { if ptrs.contains(&(v as *const Val)) { marks.push(i) } i += 1 });
    marks
}

/// Add a second selection path to some field of an operation, reached through other wrappers, whose
/// last field is the same, takes other arguments, or is another field under the same response name.
/// Everything else of the document stays valid.
pub fn shadow(r: &mut Rng, rs: &RS, d: &mut Doc) -> &'static str {
    let oi = r.n(d.ops.len());
    if d.ops[oi].kind == OpKind::Subscription { return "none" }
    let root = match rs.root(d.ops[oi].kind) { Some(x) => x.to_string(), None => return "none" };
    // a path of fields with the static parent type of each
    let mut path: Vec<(String, Field)> = vec![];
    let (mut parent, mut set) = (root.clone(), d.ops[oi].sel.clone());
    let mut hops = 0;
    while hops < 30 && !set.is_empty() {
        hops += 1;
        let x = r.pick(&set).clone();
        match x {
            Sel::Field(f) => {
                let Some(fd) = rs.field(&parent, &f.name) else { break };
                let b = fd.ty.base().to_string(); let sub = f.sel.clone();
                path.push((parent.clone(), f));
                if sub.is_empty() || r.p(12) { break }
                parent = b; set = sub;
            }
            Sel::Inline { cond, sel, .. } => { if let Some(c) = cond { parent = c } set = sel }
            Sel::Spread { name, .. } => match d.frags.iter().find(|f| f.name == name) { Some(f) => { parent = f.cond.clone(); set = f.sel.clone() } None => break },
        }
    }
    let Some((lp, leaf)) = path.pop() else { return "none" };
    // the parent under which the copy of the last field is selected may be another possible type
    let mut lp2 = lp.clone();
    if r.p(50) { let c: Vec<String> = rs.types.values().filter(|t| t.is_composite() && !t.name.starts_with("__") && rs.possible(&t.name).map_or(false, |q| rs.possible(&lp).map_or(false, |p| !q.is_disjoint(p)))).map(|t| t.name.clone()).collect(); if !c.is_empty() { lp2 = r.pick(&c).clone() } }
    let key = leaf.key().to_string();
    let mut f = leaf.clone(); f.dirs.clear();
    let mut label = "same";
    let other = r.n(6);
    let all: Vec<FieldDef> = { let mut v: Vec<FieldDef> = rs.ty(&lp2).map(|t| t.fields().to_vec()).unwrap_or_default(); v.push(rs.field(&lp2, "__typename").unwrap().clone()); v };
    if other < 3 {
        // another field (preferring the same shape, so that only the names differ)
        let shape0 = rs.field(&lp, &leaf.name).map(|x| shape(rs, &x.ty));
        let same: Vec<&FieldDef> = all.iter().filter(|x| x.name != leaf.name && rs.kind_is_leaf(x.ty.base()) && !x.args.iter().any(|a| a.ty.req() && a.default.is_none()) && (other == 0 || Some(shape(rs, &x.ty)) == shape0)).collect();
        if same.is_empty() { return "none" }
        let x = r.pick(&same); f.name = x.name.clone(); f.args.clear(); f.sel.clear(); label = "other-field";
    } else if other < 5 {
        let Some(x) = all.iter().find(|x| x.name == leaf.name) else { return "none" };
        if x.args.is_empty() { return "none" }
        let i = r.n(x.args.len()); let a = &x.args[i];
        match f.args.iter().position(|y| y.0 == a.name) {
            Some(j) => if r.p(40) && !(a.ty.req() && a.default.is_none()) { f.args.remove(j); } else { f.args[j].1 = value(r, rs, &a.ty, 2) },
            None => { let v = value(r, rs, &a.ty, 2); f.args.push((a.name.clone(), v)) }
        }
        label = "other-arguments";
    } else if !all.iter().any(|x| x.name == leaf.name) { return "none" }
    f.alias = if f.name == key { None } else { Some(key) };
    let mut n = 0;
    let mut wrap = |r: &mut Rng, d: &mut Doc, mut s: Vec<Sel>, ty: &str, outer: &str| -> Vec<Sel> {
        let mut need = ty != outer;
        let k = r.n(3);
        for i in 0..k.max(need as usize) {
            let cond = if need || r.p(50) { Some(ty.to_string()) } else { None };
            need = false; let _ = i;
            if cond.is_some() && r.p(50) { let nm = format!("Sh{}_{}", d.frags.len(), n); n += 1; d.frags.push(Frag { name: nm.clone(), cond: ty.to_string(), dirs: vec![], sel: s }); s = vec![Sel::Spread { name: nm, dirs: vec![] }] }
            else { s = vec![Sel::Inline { cond, dirs: vec![], sel: s }] }
        }
        s
    };
    let outer = path.last().and_then(|(p, f)| rs.field(p, &f.name)).map(|x| x.ty.base().to_string()).unwrap_or(root.clone());
    let mut s = wrap(r, d, vec![Sel::Field(f)], &lp2, &outer);
    while let Some((p, mut f)) = path.pop() {
        f.sel = s; f.dirs.clear();
        if f.alias.as_deref() == Some(f.name.as_str()) { f.alias = None }
        let outer = path.last().and_then(|(p, f)| rs.field(p, &f.name)).map(|x| x.ty.base().to_string()).unwrap_or(root.clone());
        s = wrap(r, d, vec![Sel::Field(f)], &p, &outer);
    }
    let o = &mut d.ops[oi].sel;
    if r.p(50) { o.extend(s) } else { s.extend(o.drain(..)); *o = s }
    label
}
