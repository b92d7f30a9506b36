//! Reference validation of executable documents: section 5 of the specification, written naively.
use crate::model::*;
use crate::refcoerce::coerce;
use crate::rschema::RS;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Clone, Debug, Default)]
pub struct Verdict {
    /// kinds that are certainly violated
    pub must: BTreeSet<&'static str>,
    /// kinds that may be reported too (consequences inside a part whose type is unknown)
    pub may: BTreeSet<&'static str>,
    /// names are ambiguous: beyond `must` nothing is judged
    pub vague: bool,
    /// the reference gave up on merging (too large)
    pub gave_up: bool,
}
pub const MERGE: [&str; 3] = ["FieldSelectionsDoNotMergeDifferingNames", "FieldSelectionsDoNotMergeDifferingArguments", "FieldSelectionsDoNotMergeIncompatibleTypes"];

struct Use { name: String, pos: Option<(Ty, bool)>, soft: bool }
#[derive(Default)]
struct Part<'a> { uses: Vec<Use>, spreads: Vec<(&'a str, bool)> }

struct W<'a> { rs: &'a RS, frags: HashMap<&'a str, &'a Frag>, v: Verdict, soft: usize, part: Part<'a>, unknown: bool }

pub fn validate(rs: &RS, d: &Doc) -> Verdict {
    let mut frags: HashMap<&str, &Frag> = HashMap::new();
    let mut v = Verdict::default();
    for f in &d.frags { if frags.insert(&f.name, f).is_some() { v.must.insert("NonUniqueFragmentDefinitionNames"); v.vague = true; } }
    let mut w = W { rs, frags, v, soft: 0, part: Part::default(), unknown: false };
    // operations
    for (i, o) in d.ops.iter().enumerate() { if let Some(n) = &o.name { if d.ops[..i].iter().any(|x| x.name.as_ref() == Some(n)) { w.v.must.insert("NonUniqueOperationNames"); } } }
    if d.ops.len() != 1 && d.ops.iter().any(|o| o.name.is_none()) { w.v.must.insert("NotLoneAnonymousOperation"); }
    let mut op_parts = vec![];
    for o in &d.ops {
        w.part = Part::default();
        let loc = match o.kind { OpKind::Query => "QUERY", OpKind::Mutation => "MUTATION", OpKind::Subscription => "SUBSCRIPTION" };
        w.dirs(&o.dirs, loc);
        for (i, x) in o.vars.iter().enumerate() {
            if o.vars[..i].iter().any(|y| y.name == x.name) { w.v.must.insert("NonUniqueVariableDefinitionNames"); }
            let input = rs.ty(x.ty.base()).map_or(false, |t| t.is_input());
            if !input { w.v.must.insert("VariableDefinitionTypeNotInput"); }
            if let (true, Some(dv)) = (input, &x.default) { w.value(&x.ty, dv) }
            let keep = std::mem::take(&mut w.part); w.dirs(&x.dirs, "VARIABLE_DEFINITION"); w.part = keep;
        }
        match rs.root(o.kind) {
            None => { w.v.must.insert("OperationTypeNotDefined"); w.unknown = true; w.soft += 1; w.sel(None, &o.sel); w.soft -= 1; }
            Some(r) => w.sel(Some(r), &o.sel),
        }
        op_parts.push(std::mem::take(&mut w.part));
    }
    // fragments
    let mut frag_parts: HashMap<&str, Part> = HashMap::new();
    for f in &d.frags {
        w.part = Part::default();
        w.dirs(&f.dirs, "FRAGMENT_DEFINITION");
        match rs.ty(&f.cond) {
            None => { w.v.must.insert("FragmentDefinitionTargetTypeDoesNotExist"); w.unknown = true; w.soft += 1; w.sel(None, &f.sel); w.soft -= 1 }
            Some(t) if !t.is_composite() => { w.v.must.insert("FragmentDefinitionTargetTypeNotComposite"); w.unknown = true; w.soft += 1; w.sel(None, &f.sel); w.soft -= 1 }
            Some(t) => { let n = t.name.as_str(); w.sel(Some(n), &f.sel) }
        }
        frag_parts.insert(&f.name, std::mem::take(&mut w.part));
    }
    // fragments must be used
    for f in &d.frags {
        let all: Vec<bool> = op_parts.iter().chain(frag_parts.values()).flat_map(|p| p.spreads.iter().filter(|s| s.0 == f.name).map(|s| s.1)).collect();
        if all.is_empty() { w.v.must.insert("FragmentDefinitionUnused"); } else if all.iter().all(|s| *s) { w.v.may.insert("FragmentDefinitionUnused"); }
    }
    // cycles
    let mut cyclic = false;
    for f in &d.frags {
        let mut seen: HashSet<&str> = HashSet::new(); let mut st: Vec<&str> = frag_parts[f.name.as_str()].spreads.iter().map(|s| s.0).collect();
        while let Some(x) = st.pop() {
            if x == f.name { cyclic = true; break }
            if seen.insert(x) { if let Some(p) = frag_parts.get(x) { st.extend(p.spreads.iter().map(|s| s.0)) } }
        }
    }
    if cyclic { w.v.must.insert("FragmentSpreadCycle"); }
    // variables, per operation over the fragments it reaches
    for (o, p) in d.ops.iter().zip(&op_parts) {
        let dup = o.vars.iter().enumerate().any(|(i, x)| o.vars[..i].iter().any(|y| y.name == x.name));
        let mut uses: Vec<(&Use, bool)> = p.uses.iter().map(|u| (u, u.soft)).collect();
        // reach[f] = true when reached by a chain without soft links
        let mut reach: BTreeMap<&str, bool> = BTreeMap::new();
        let mut st: Vec<(&str, bool)> = p.spreads.iter().map(|s| (s.0, !s.1)).collect();
        while let Some((f, hard)) = st.pop() {
            let e = reach.get(f).copied();
            if e == Some(true) || e == Some(hard) { continue }
            reach.insert(f, hard || e == Some(true));
            if let Some(q) = frag_parts.get(f) { st.extend(q.spreads.iter().map(|s| (s.0, hard && !s.1))) }
        }
        for (f, hard) in &reach { if let Some(q) = frag_parts.get(f) { uses.extend(q.uses.iter().map(|u| (u, u.soft || !hard))) } }
        for (u, soft) in &uses {
            let Some(def) = o.vars.iter().find(|x| x.name == u.name) else { w.put("VariableNotDefined", *soft); continue };
            let Some((ty, has_def)) = &u.pos else { continue };
            if !rs.ty(def.ty.base()).map_or(false, |t| t.is_input()) { continue }
            if !usage_allowed(&def.ty, def.default.as_ref(), ty, *has_def) { w.put("InvalidVariableUsage", *soft || dup) }
        }
        for x in &o.vars {
            let s: Vec<bool> = uses.iter().filter(|u| u.0.name == x.name).map(|u| u.1).collect();
            if s.is_empty() { w.v.must.insert("VariableDefinitionUnused"); } else if s.iter().all(|x| *x) { w.v.may.insert("VariableDefinitionUnused"); }
        }
    }
    // subscriptions
    for o in d.ops.iter().filter(|o| o.kind == OpKind::Subscription) {
        let Some(root) = rs.root(o.kind) else { w.v.may.insert("SubscriptionRootNotSingleField"); continue };
        let mut keys: BTreeMap<String, (bool, bool)> = BTreeMap::new(); let mut unsure = false;
        sub_fields(&w, root, &o.sel, &mut vec![], &mut keys, &mut unsure);
        // a response name shared by a plain and an introspection field is a merging error: left open here
        if keys.values().any(|i| i.0 && i.1) { unsure = true }
        let bad = keys.len() != 1 || keys.values().any(|i| i.0);
        if unsure { w.v.may.insert("SubscriptionRootNotSingleField"); if keys.len() > 1 { w.v.must.insert("SubscriptionRootNotSingleField"); } }
        else if bad { w.v.must.insert("SubscriptionRootNotSingleField"); }
    }
    // merging
    if w.unknown || cyclic { w.v.may.extend(MERGE) }
    if !cyclic && !w.v.vague {
        let mut m = Merge { rs, frags: &w.frags, kinds: BTreeSet::new(), budget: 200_000, dup: false };
        for o in &d.ops { if let Some(r) = rs.root(o.kind) { m.every(Some(r), &o.sel) } }
        for f in &d.frags { m.every(Some(&f.cond), &f.sel) }
        if m.budget == 0 { w.v.gave_up = true; w.v.may.extend(MERGE) } else if m.dup { w.v.may.extend(MERGE) } else { w.v.must.extend(m.kinds) }
    }
    if w.v.vague { w.v.must.retain(|k| *k == "NonUniqueFragmentDefinitionNames") }
    w.v
}

/// section 5.8.5, IsVariableUsageAllowed
pub fn usage_allowed(var: &Ty, default: Option<&Val>, loc: &Ty, loc_default: bool) -> bool {
    fn compat(v: &Ty, l: &Ty) -> bool {
        if l.req() { return v.req() && compat(&v.nullable(), &l.nullable()) }
        if v.req() { return compat(&v.nullable(), l) }
        match (v, l) { (Ty::List(a, _), Ty::List(b, _)) => compat(a, b), (Ty::Named(a, _), Ty::Named(b, _)) => a == b, _ => false }
    }
    if loc.req() && !var.req() {
        let has = default.map_or(false, |d| *d != Val::Null);
        if !has && !loc_default { return false }
        return compat(var, &loc.nullable());
    }
    compat(var, loc)
}

fn sub_fields(w: &W, root: &str, s: &[Sel], seen: &mut Vec<String>, keys: &mut BTreeMap<String, (bool, bool)>, unsure: &mut bool) {
    let applies = |c: &str, unsure: &mut bool| match w.rs.possible(c) { Some(p) => p.contains(root), None => { *unsure = true; false } };
    for x in s {
        match x {
            Sel::Field(f) => { let i = f.name.starts_with("__"); let e = keys.entry(f.key().to_string()).or_insert((false, false)); if i { e.0 = true } else { e.1 = true } if w.rs.field(root, &f.name).is_none() { *unsure = true } }
            Sel::Inline { cond, sel, .. } => if cond.as_ref().map_or(true, |c| applies(c, unsure)) { sub_fields(w, root, sel, seen, keys, unsure) },
            Sel::Spread { name, .. } => {
                if seen.contains(name) { continue } seen.push(name.clone());
                match w.frags.get(name.as_str()) { None => *unsure = true, Some(f) => if applies(&f.cond, unsure) { sub_fields(w, root, &f.sel, seen, keys, unsure) } }
            }
        }
    }
}

impl<'a> W<'a> {
    fn put(&mut self, k: &'static str, soft: bool) { if soft { self.v.may.insert(k); } else { self.v.must.insert(k); } }
    fn rep(&mut self, k: &'static str) { let s = self.soft > 0; self.put(k, s) }
    fn value(&mut self, ty: &Ty, v: &Val) { for e in coerce(self.rs, ty, v, false, &[]) { self.rep(e.kind) } }
    fn uses(&mut self, v: &Val, pos: Option<(Ty, bool)>, soft: bool, one_of: bool) {
        match v {
            Val::Var(n) => {
                // a nullable variable in a one-of field is left open by the October 2021 rules
                let _ = one_of;
                self.part.uses.push(Use { name: n.clone(), pos, soft: soft || self.soft > 0 })
            }
            Val::List(l) => for x in l {
                let p = pos.as_ref().and_then(|p| if let Ty::List(i, _) = &p.0 { Some(((**i).clone(), false)) } else { None });
                self.uses(x, p, soft, false)
            },
            Val::Obj(o) => {
                let base = pos.as_ref().map(|p| p.0.base().to_string());
                for (k, x) in o {
                    let p = base.as_ref().and_then(|b| self.rs.ty(b)).and_then(|t| t.input_fields().iter().find(|f| &f.name == k)).map(|f| (f.ty.clone(), f.default.as_ref().map_or(false, |d| *d != Val::Null)));
                    let oo = base.as_ref().map_or(false, |b| self.rs.is_one_of(b));
                    self.uses(x, p, soft, oo)
                }
            }
            _ => {}
        }
    }
    fn args(&mut self, args: &[(String, Val)], defs: Option<&[InputVal]>, unknown: &'static str, missing: &'static str) {
        for (i, a) in args.iter().enumerate() { if args[..i].iter().any(|b| b.0 == a.0) { self.rep("NonUniqueArgumentNames") } }
        let Some(defs) = defs else { for a in args { self.uses(&a.1, None, true, false) } return };
        for (n, v) in args {
            match defs.iter().find(|d| &d.name == n) {
                None => { self.rep(unknown); self.uses(v, None, true, false) }
                Some(d) => { self.value(&d.ty, v); self.uses(v, Some((d.ty.clone(), d.default.as_ref().map_or(false, |x| *x != Val::Null))), false, false) }
            }
        }
        if defs.iter().any(|d| d.ty.req() && d.default.is_none() && !args.iter().any(|a| a.0 == d.name)) { self.rep(missing) }
    }
    fn dirs(&mut self, ds: &[Dir], loc: &str) {
        for (i, d) in ds.iter().enumerate() {
            match self.rs.dir(&d.name).cloned() {
                None => { self.rep("DirectiveDoesNotExist"); self.soft += 1; self.args(&d.args, None, "", ""); self.soft -= 1; }
                Some(def) => {
                    if !def.locs.iter().any(|l| l == loc) { self.rep("DirectiveInInvalidLocation") }
                    if !def.repeatable && ds[..i].iter().any(|x| x.name == d.name) { self.rep("DirectivesNotUniquePerLocation") }
                    self.args(&d.args, Some(&def.args), "ArgumentDoesNotExistOnDirective", "DirectiveMissingRequiredArguments");
                }
            }
        }
    }
    fn sel(&mut self, parent: Option<&str>, s: &'a [Sel]) {
        for x in s {
            match x {
                Sel::Field(f) => {
                    let def = parent.and_then(|p| self.rs.field(p, &f.name)).cloned();
                    match def {
                        None => {
                            if parent.is_some() { self.rep("FieldDoesNotExistOnType") } else { self.v.may.insert("FieldDoesNotExistOnType"); }
                            self.unknown = true; self.soft += 1;
                            self.dirs(&f.dirs, "FIELD"); self.args(&f.args, None, "", ""); self.sel(None, &f.sel);
                            self.soft -= 1;
                        }
                        Some(fd) => {
                            self.dirs(&f.dirs, "FIELD");
                            self.args(&f.args, Some(&fd.args), "ArgumentDoesNotExistOnField", "FieldMissingRequiredArguments");
                            let b = fd.ty.base();
                            if self.rs.kind_is_leaf(b) {
                                if !f.sel.is_empty() { self.rep("LeafFieldSelectionNotEmpty"); self.unknown = true; self.soft += 1; self.sel(None, &f.sel); self.soft -= 1 }
                            } else if f.sel.is_empty() { self.rep("NonLeafFieldSelectionEmpty") } else { self.sel(Some(b), &f.sel) }
                        }
                    }
                }
                Sel::Inline { cond, dirs, sel } => {
                    self.dirs(dirs, "INLINE_FRAGMENT");
                    match cond {
                        None => self.sel(parent, sel),
                        Some(c) => match self.rs.ty(c) {
                            None => { self.rep("InlineFragmentTargetTypeDoesNotExist"); self.unknown = true; self.soft += 1; self.sel(None, sel); self.soft -= 1 }
                            Some(t) if !t.is_composite() => { self.rep("InlineFragmentTargetTypeNotComposite"); self.unknown = true; self.soft += 1; self.sel(None, sel); self.soft -= 1 }
                            Some(_) => { if self.disjoint(parent, c) { self.rep("InlineFragmentSpreadIsNotPossible") } self.sel(Some(c), sel) }
                        },
                    }
                }
                Sel::Spread { name, dirs } => {
                    self.dirs(dirs, "FRAGMENT_SPREAD");
                    let soft = self.soft > 0;
                    match self.frags.get(name.as_str()) {
                        None => self.rep("FragmentSpreadTargetUndefined"),
                        Some(f) => { self.part.spreads.push((name, soft)); let c = f.cond.as_str(); if self.disjoint(parent, c) { self.rep("FragmentSpreadIsNotPossible") } }
                    }
                }
            }
        }
    }
    fn disjoint(&self, parent: Option<&str>, c: &str) -> bool {
        match (parent.and_then(|p| self.rs.possible(p)), self.rs.possible(c)) { (Some(a), Some(b)) => a.is_disjoint(b), _ => false }
    }
}

// ---- field merging, literally section 5.3.2 ----
struct Merge<'a> { rs: &'a RS, frags: &'a HashMap<&'a str, &'a Frag>, kinds: BTreeSet<&'static str>, budget: usize, dup: bool }
#[derive(Clone)]
struct FC<'a> { f: &'a Field, parent: &'a str, def: &'a FieldDef }

impl<'a> Merge<'a> {
    fn every(&mut self, parent: Option<&'a str>, s: &'a [Sel]) {
        let Some(p) = parent else { return };
        if !self.rs.ty(p).map_or(false, |t| t.is_composite()) { return }
        let mut fs = vec![]; self.collect(p, s, &mut vec![], &mut fs);
        self.can_merge(&fs);
        for x in s {
            match x {
                Sel::Field(f) => if let Some(d) = self.rs.field(p, &f.name) { if !f.sel.is_empty() { self.every(Some(d.ty.base()), &f.sel) } },
                Sel::Inline { cond, sel, .. } => self.every(Some(cond.as_deref().unwrap_or(p)), sel),
                Sel::Spread { .. } => {}
            }
        }
    }
    fn collect(&mut self, parent: &'a str, s: &'a [Sel], seen: &mut Vec<&'a str>, out: &mut Vec<FC<'a>>) {
        if self.budget < 10 { self.budget = 0; return }
        for x in s {
            self.budget = self.budget.saturating_sub(1);
            match x {
                Sel::Field(f) => if let Some(def) = self.rs.field(parent, &f.name) { out.push(FC { f, parent, def }) },
                Sel::Inline { cond, sel, .. } => { let p = cond.as_deref().unwrap_or(parent); if self.rs.possible(p).is_some() { self.collect(p, sel, seen, out) } }
                Sel::Spread { name, .. } => if let Some(f) = self.frags.get(name.as_str()) {
                    if seen.contains(&name.as_str()) { continue } seen.push(name);
                    if self.rs.possible(&f.cond).is_some() { self.collect(&f.cond, &f.sel, seen, out) }
                },
            }
        }
    }
    fn groups(fs: &[FC<'a>]) -> Vec<Vec<FC<'a>>> {
        let mut g: Vec<(&str, Vec<FC<'a>>)> = vec![];
        for f in fs { let k = f.f.key(); if let Some(x) = g.iter_mut().find(|x| x.0 == k) { x.1.push(f.clone()) } else { g.push((k, vec![f.clone()])) } }
        g.into_iter().map(|x| x.1).collect()
    }
    fn sub(&mut self, a: &FC<'a>, b: &FC<'a>) -> Vec<FC<'a>> {
        let mut o = vec![]; let mut seen = vec![];
        self.collect(a.def.ty.base(), &a.f.sel, &mut seen, &mut o);
        // fragments seen through one field may contribute under another parent type: visit again
        let mut seen = vec![];
        if !std::ptr::eq(a.f, b.f) { self.collect(b.def.ty.base(), &b.f.sel, &mut seen, &mut o) }
        o
    }
    fn can_merge(&mut self, fs: &[FC<'a>]) {
        for g in Self::groups(fs) {
            for i in 0..g.len() { for j in i + 1..g.len() {
                if self.budget < 10 { self.budget = 0; return }
                self.budget -= 1;
                let (a, b) = (&g[i], &g[j]);
                self.shape(a, b);
                let obj = |n: &str| self.rs.ty(n).map_or(false, |t| t.is_object());
                if a.parent == b.parent || !obj(a.parent) || !obj(b.parent) {
                    if a.f.name != b.f.name { self.kinds.insert(MERGE[0]); continue }
                    if !self.same_args(a.f, b.f) { self.kinds.insert(MERGE[1]); continue }
                    let m = self.sub(a, b); self.can_merge(&m);
                }
            } }
        }
    }
    fn shape(&mut self, a: &FC<'a>, b: &FC<'a>) {
        if self.budget < 10 { self.budget = 0; return }
        self.budget -= 1;
        let (mut x, mut y) = (&a.def.ty, &b.def.ty);
        loop {
            if x.req() != y.req() { self.kinds.insert(MERGE[2]); return }
            match (x, y) {
                (Ty::List(i, _), Ty::List(j, _)) => { x = i; y = j }
                (Ty::Named(m, _), Ty::Named(n, _)) => {
                    if self.rs.kind_is_leaf(m) || self.rs.kind_is_leaf(n) { if m != n { self.kinds.insert(MERGE[2]); } return }
                    break
                }
                _ => { self.kinds.insert(MERGE[2]); return }
            }
        }
        let m = self.sub(a, b);
        for g in Self::groups(&m) { for i in 0..g.len() { for j in i + 1..g.len() { let (p, q) = (g[i].clone(), g[j].clone()); self.shape(&p, &q) } } }
    }
    fn same_args(&mut self, a: &Field, b: &Field) -> bool {
        for f in [a, b] { for (i, x) in f.args.iter().enumerate() { if f.args[..i].iter().any(|y| y.0 == x.0) || has_dup(&x.1) { self.dup = true } } }
        a.args.len() == b.args.len() && a.args.iter().all(|x| b.args.iter().any(|y| x.0 == y.0 && same_val(&x.1, &y.1)))
    }
}
pub fn has_dup(v: &Val) -> bool {
    match v { Val::List(l) => l.iter().any(has_dup), Val::Obj(o) => o.iter().enumerate().any(|(i, x)| has_dup(&x.1) || o[..i].iter().any(|y| y.0 == x.0)), _ => false }
}
pub fn same_val(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Float(x), Val::Float(y)) => x.0 == y.0,
        (Val::List(x), Val::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_val(p, q)),
        (Val::Obj(x), Val::Obj(y)) => x.len() == y.len() && x.iter().all(|p| y.iter().any(|q| p.0 == q.0 && same_val(&p.1, &q.1))),
        _ => a == b,
    }
}
