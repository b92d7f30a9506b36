//! C24: modules generated by the typegen macro for random schemas and queries are compiled and run;
//! what they decode and encode is compared with values computed from the documented rules.
use crate::emit::{doc_text, plain, Emit};
use crate::model::*;
use crate::rng::Rng;
use crate::rschema::RS;
use crate::run::Ctx;
use crate::{gendoc, genschema, refparse, refval};
use convert_case::{Case, Casing};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::process::Command;

/// names as documented, made into identifiers where the case conversion leaves something that is not one
fn fix(s: String) -> String { match s.as_str() { "self" | "Self" | "super" | "crate" => s + "_", "" => "__".into(), x if x.as_bytes()[0].is_ascii_digit() => format!("_{x}"), _ => s } }
pub fn pascal(s: &str) -> String { fix(s.to_case(Case::Pascal)) }
pub fn snake(s: &str) -> String { fix(s.to_case(Case::Snake)) }
fn module(s: &str) -> String { let m = ident(&snake(s)); if m == ident(&pascal(s)) { m + "_" } else { m } }
const KW: &[&str] = &["as", "break", "const", "continue", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "static", "struct", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "union"];
fn ident(s: &str) -> String { if KW.contains(&s) { format!("r#{s}") } else { s.to_string() } }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Codec { Serde, Borrow, Mini }
impl Codec {
    fn args(self) -> &'static str { match self { Codec::Serde => "", Codec::Borrow => ", borrow = true", Codec::Mini => ", codec = \"miniserde\"" } }
    fn de(self) -> &'static str { if self == Codec::Mini { "::miniserde::json::from_str" } else { "::serde_json::from_str" } }
}

#[derive(Clone, Debug)]
pub enum Want { Dec(String), Eq, Enc(J), Err }
#[derive(Clone, Debug)]
pub struct Test { pub what: String, pub code: [String; 3], pub want: Want, pub json: String }

pub struct Module { pub schema: SDoc, pub stext: String, pub doc: Doc, pub dtext: String, pub codecs: Vec<Codec>, pub inline_schema: bool, pub inline_doc: bool, pub tests: Vec<Test>, pub obs: BTreeMap<&'static str, u64> }

#[derive(Clone, Debug)]
struct Out { json: String, dbg: String, expr: String }

const FANCY: &[&str] = &["firstName", "last_name", "URLValue", "htmlURL", "out", "k", "state", "data", "_id", "x2y", "isOK", "loop", "async", "match", "ref", "box", "try", "dyn", "Upper", "_private", "some", "none", "ok", "err", "result", "map", "key", "finish", "visited", "place", "typeOf", "a1", "SHOUT", "camelCase", "snake_case_name", "mixed_caseName", "v2", "move", "use", "where", "s", "m", "f", "begin", "string", "self", "Self", "super", "crate", "_", "_1", "__2"];
const FANCY_T: &[&str] = &["blog_post", "HTTPThing", "Option", "Result", "Vec", "Node2D", "other_thing", "Cow", "Error", "lowercase", "Box", "Some_Thing", "Map", "Visitor", "Deserialize", "Fragment", "Str", "Place", "self", "_7"];
const FANCY_E: &[&str] = &["V1_ALPHA", "snake_value", "camelValue", "NONE", "SOME", "OK", "ERR", "DEFAULT", "Mixed_Case", "Lower", "true_ish", "NULL_", "X1Y2", "IF", "match", "LOOP", "_HIDDEN", "self", "_2", "SUPER", "_"];

fn names(r: &mut Rng, s: &SDoc) -> SDoc {
    let mut map: HashMap<String, String> = HashMap::new();
    let mut taken: BTreeSet<String> = BTreeSet::new();
    for f in ["id", "name", "a", "b", "c", "node", "items", "edges", "nodes", "owner", "count", "tags", "next", "kind", "value", "x1", "first", "last", "in", "filter", "k", "v", "list", "flag", "extra", "type", "on", "query"] { taken.insert(snake(f)); }
    for f in ["id", "name", "a", "b", "c", "node", "items", "edges", "nodes", "owner", "count", "tags", "next", "kind", "value", "x1", "self"] {
        if r.p(45) { loop { let n = *r.pick(FANCY); if taken.insert(snake(n)) { map.insert(f.into(), n.into()); break } if r.p(30) { break } } }
    }
    let mut te: BTreeSet<String> = ["Red", "Green", "Blue", "A", "B", "C", "On", "Type", "X", "Other"].iter().map(|s| s.to_string()).collect();
    for f in ["RED", "GREEN", "BLUE", "A", "B", "C", "_1"] {
        if r.p(40) { loop { let n = *r.pick(FANCY_E); if te.insert(pascal(n)) { map.insert(f.into(), n.into()); break } if r.p(30) { break } } }
    }
    let mut tt: BTreeSet<String> = BTreeSet::new();
    for t in s.types() { if t.name.ends_with(|c: char| c.is_ascii_digit()) && t.name != "Any0" && r.p(35) { let n = *r.pick(FANCY_T); if tt.insert(pascal(n)) { map.insert(t.name.clone(), n.into()); } } }
    let mut e = Emit::new(None); e.sdoc(s);
    for t in &mut e.t { let (p, n) = if let Some(x) = t.strip_prefix('$') { ("$", x.to_string()) } else { ("", t.clone()) }; if let Some(x) = map.get(&n) { *t = format!("{p}{x}") } }
    refparse::parse_sdoc(&plain(&e.t)).expect("renamed schema")
}

/// text that survives tokenisation by Rust
fn inline_ok(t: &str) -> bool { !t.contains("\"\"\"") && !t.contains("\\u") && !t.contains("\\b") && !t.contains("\\f") && !t.contains("\\/") && !t.contains('#') && t.chars().all(|c| c == '\n' || !c.is_control()) }

struct Gn<'a> { r: &'a mut Rng, rs: &'a RS, frags: Vec<Frag>, tops: BTreeSet<String>, obs: &'a mut BTreeMap<&'static str, u64>, flag: bool }
impl<'a> Gn<'a> {
    fn o(&mut self, k: &'static str) { *self.obs.entry(k).or_default() += 1 }
    fn top(&mut self, pool: &[&str]) -> String {
        loop { let n = format!("{}{}", pool[self.r.n(pool.len())], if self.r.p(50) { String::new() } else { self.r.n(9).to_string() }); if n != "Query" && self.tops.insert(pascal(&n)) { return n } }
    }
    /// selection set of a composite type, within the documented subset
    fn sels(&mut self, ty: &str, d: usize) -> Vec<Sel> {
        if self.r.p(14) && self.frags.len() < 6 { return vec![self.spread(ty, d)] }
        match self.rs.ty(ty).map(|t| t.kind.clone()) {
            Some(Kind::Union { members }) => {
                self.o("union-selection");
                let mut v = vec![self.field("__typename", None, ty, 0)];
                let mut m = members.clone(); self.r.shuffle(&mut m);
                let n = self.r.r(0, m.len());
                for x in m.into_iter().take(n) { if pascal(&x) == "Other" { continue } let mut s = self.fields(&x, d.saturating_sub(1), false); if s.is_empty() { s.push(self.field("__typename", None, &x, 0)) } v.push(Sel::Inline { cond: Some(x), dirs: vec![], sel: s }) }
                v
            }
            _ => self.fields(ty, d, true),
        }
    }
    fn spread(&mut self, ty: &str, d: usize) -> Sel {
        let t = self.rs.ty(ty).unwrap().clone();
        let mut conds = vec![ty.to_string()];
        conds.extend(t.ifaces().iter().cloned());
        if t.is_object() { conds.extend(self.rs.user_types().filter(|u| u.members().iter().any(|m| m == ty)).map(|u| u.name.clone())) }
        if let Kind::Union { members } = &t.kind { if let Some(m) = members.first() { for i in self.rs.ty(m).unwrap().ifaces() { if members.iter().all(|m| self.rs.ty(m).unwrap().ifaces().contains(i)) { conds.push(i.clone()) } } } }
        let old: Vec<String> = self.frags.iter().filter(|f| conds.contains(&f.cond)).map(|f| f.name.clone()).collect();
        let name = if !old.is_empty() && self.r.p(50) { self.r.pick(&old).clone() } else {
            let cond = self.r.pick(&conds).clone();
            if cond != ty { self.o("spread-on-wider-type") }
            let name = self.top(&["Parts", "lower_frag", "PlayerBits", "HTMLFrag", "fragmentX", "Builder"]);
            let sel = self.sels(&cond, d);
            if let [Sel::Spread { .. }] = sel[..] { self.o("fragment-of-a-fragment") }
            self.frags.push(Frag { name: name.clone(), cond, dirs: vec![], sel });
            name
        };
        self.o("spread");
        Sel::Spread { name, dirs: vec![] }
    }
    fn field(&mut self, name: &str, alias: Option<String>, ty: &str, d: usize) -> Sel {
        let f = self.rs.field(ty, name).unwrap().clone();
        let mut args = vec![];
        for a in &f.args { if (a.ty.req() && a.default.is_none()) || self.r.p(20) { args.push((a.name.clone(), genschema::value(self.r, self.rs, &a.ty, 1))) } }
        let sel = if self.rs.kind_is_leaf(f.ty.base()) { vec![] } else { self.sels(f.ty.base(), d.saturating_sub(1)) };
        let mut dirs = vec![];
        if name != "__typename" && self.r.p(7) { self.flag = true; self.o("conditional-field"); dirs.push(Dir { name: self.r.ps(&["skip", "include"]).into(), args: vec![("if".into(), Val::Var("flag".into()))] }) }
        Sel::Field(Field { alias, name: name.into(), args, dirs, sel })
    }
    fn fields(&mut self, ty: &str, d: usize, typename: bool) -> Vec<Sel> {
        let t = self.rs.ty(ty).unwrap().clone();
        let mut pool: Vec<String> = t.fields().iter().filter(|f| d > 0 || self.rs.kind_is_leaf(f.ty.base())).map(|f| f.name.clone()).collect();
        if self.r.p(if typename { 25 } else { 10 }) { pool.push("__typename".into()) }
        if ty == self.rs.query && self.r.p(6) { pool.push("__schema".into()) }
        if pool.is_empty() { pool.push("__typename".into()) }
        self.r.shuffle(&mut pool);
        let n = self.r.r(1, 5); let mut v = vec![]; let mut seen: BTreeSet<String> = BTreeSet::new(); let mut seenp: BTreeSet<String> = BTreeSet::new();
        for i in 0..n {
            let name = if i < pool.len() { pool[i].clone() } else { self.r.pick(&pool).clone() };
            if name == "__typename" && i > 0 && self.r.p(70) { continue }
            let alias = if (self.r.p(20) || i >= pool.len()) && (name != "__typename" || typename) { Some(self.r.pick(FANCY).to_string()) } else { None };
            let key = alias.clone().unwrap_or(name.clone());
            if seen.contains(&snake(&key)) || seenp.contains(&pascal(&key)) { continue }
            seen.insert(snake(&key)); seenp.insert(pascal(&key));
            v.push(self.field(&name, alias, ty, d));
        }
        if v.is_empty() { v.push(self.field("__typename", None, ty, 0)) }
        v
    }
}

/// responses with the value they must decode to
struct Rp<'a> { r: &'a mut Rng, rs: &'a RS, frags: &'a [Frag], obs: &'a mut BTreeMap<&'static str, u64>, plain: bool, sab: Option<usize>, hit: bool }
impl<'a> Rp<'a> {
    fn o(&mut self, k: &'static str) { *self.obs.entry(k).or_default() += 1 }
    fn text(&mut self) -> String { let s = match self.r.n(4) { 0 => "plain".to_string(), 1 => crate::gensyn::string(self.r), _ => self.r.ps(&["", "Other", "a \"q\" \\ /", "é√ 😀", "line\nbreak\t", "null", "__typename", "12"]).to_string() }; s }
    fn string(&mut self) -> Out { let s = self.text(); Out { json: serde_json::to_string(&s).unwrap(), dbg: format!("{s:?}"), expr: format!("{s:?}.into()") } }
    fn int(&mut self) -> Out { let i = crate::gensyn::int(self.r); Out { json: i.to_string(), dbg: i.to_string(), expr: format!("{i}i32") } }
    fn leaf(&mut self, n: &str) -> Out {
        match n {
            "Int" => self.int(),
            "Even" => self.int(),
            "Float" => {
                let (j, f) = match self.r.n(5) { 0 => { let i = self.r.n(2000) as i64 - 1000; (i.to_string(), i as f64) } 1 => ("1e300".into(), 1e300), 2 => ("-0.5".into(), -0.5), 3 => ("123456789.125".into(), 123456789.125), _ => { let f = self.r.n(100000) as f64 / 64.0; (serde_json::to_string(&f).unwrap(), f) } };
                Out { json: j, dbg: format!("{f:?}"), expr: format!("({f:?}f64)") }
            }
            "Boolean" => { let b = self.r.p(50); Out { json: b.to_string(), dbg: b.to_string(), expr: b.to_string() } }
            "String" | "ID" | "Blob" => self.string(),
            "Any0" => { let v: Vec<i64> = (0..self.r.n(3)).map(|_| self.r.n(1000) as i64 - 5).collect(); Out { json: format!("{v:?}"), dbg: format!("{v:?}"), expr: format!("vec!{v:?}") } }
            _ => {
                let t = self.rs.ty(n).unwrap();
                let e = format!("schema::{}", ident(&pascal(n)));
                if self.r.p(15) { self.o("unknown-enum-value"); let j = self.r.ps(&["NOT_A_VALUE_9", "Other", "", "red_ish"]); return Out { json: format!("{j:?}"), dbg: "Other".into(), expr: format!("{e}::Other") } }
                self.o("enum-value");
                let v = self.r.pick(t.values()).name.clone(); let p = pascal(&v);
                Out { json: format!("{v:?}"), dbg: p.clone(), expr: format!("{e}::{}", ident(&p)) }
            }
        }
    }
    fn typed(&mut self, ty: &Ty, f: &Field, mods: &str, top: bool) -> Out {
        let some = |o: Out| Out { json: o.json, dbg: format!("Some({})", o.dbg), expr: format!("Some({})", o.expr) };
        let req = ty.req() && top;
        if !ty.req() && self.r.p(22) { self.o("null"); return Out { json: "null".into(), dbg: "None".into(), expr: "None".into() } }
        let o = match ty {
            Ty::List(i, _) => {
                self.o("list");
                let v: Vec<Out> = (0..self.r.n(4)).map(|_| self.typed(i, f, mods, true)).collect();
                let j = |g: fn(&Out) -> &String| v.iter().map(|x| g(x).as_str()).collect::<Vec<_>>().join(", ");
                Out { json: format!("[{}]", j(|x| &x.json)), dbg: format!("[{}]", j(|x| &x.dbg)), expr: format!("vec![{}]", j(|x| &x.expr)) }
            }
            Ty::Named(n, _) if self.rs.kind_is_leaf(n) => self.leaf(n),
            Ty::Named(n, _) => self.composite(n, &f.sel, f.key(), mods),
        };
        let _ = req;
        if ty.req() { o } else { some(o) }
    }
    fn composite(&mut self, ty: &str, sel: &[Sel], parent: &str, mods: &str) -> Out {
        let p: Vec<String> = self.rs.possible(ty).map(|p| p.iter().cloned().collect()).unwrap_or_default();
        if p.is_empty() { return self.object("", ty, sel, parent, mods) }
        let rt = self.r.pick(&p).clone();
        self.object(&rt, ty, sel, parent, mods)
    }
    /// `sel` on static type `ty`, answered by an object of type `rt`
    fn object(&mut self, rt: &str, ty: &str, sel: &[Sel], parent: &str, mods: &str) -> Out {
        if let [Sel::Spread { name, .. }] = sel {
            let f = self.frags.iter().find(|f| &f.name == name).unwrap();
            return self.object(rt, &f.cond.clone(), &f.sel.clone(), &f.name.clone(), "schema::query");
        }
        let tn = pascal(parent);
        let path = format!("{mods}::{}", ident(&tn));
        let inner = format!("{mods}::{}", module(parent));
        if let Some(Kind::Union { .. }) = self.rs.ty(ty).map(|t| &t.kind) {
            if self.r.p(10) && !self.plain { self.o("unknown-member"); return Out { json: "{\"__typename\":\"NewMember\"}".into(), dbg: "Other".into(), expr: format!("{path}::Other") } }
            let Some(s) = sel.iter().find_map(|s| match s { Sel::Inline { cond: Some(c), sel, .. } if c == rt => Some(sel.clone()), _ => None }) else { self.o("uncovered-member"); return Out { json: format!("{{\"__typename\":{rt:?}}}"), dbg: "Other".into(), expr: format!("{path}::Other") } };
            self.o("member");
            let vn = pascal(rt);
            let (j, d, e) = self.members(rt, rt, &s, &format!("{inner}::{}", module(rt)), true);
            let j = if j.is_empty() { String::new() } else { format!(",{j}") };
            return Out { json: format!("{{\"__typename\":{rt:?}{j}}}"), dbg: braces(&vn, &d), expr: format!("{path}::{} {{ {e} }}", ident(&vn)) };
        }
        let (j, d, e) = self.members(rt, ty, sel, &inner, false);
        Out { json: format!("{{{j}}}"), dbg: braces(&tn, &d), expr: format!("{path} {{ {e} }}") }
    }
    fn members(&mut self, rt: &str, ty: &str, sel: &[Sel], mods: &str, in_union: bool) -> (String, String, String) {
        let (mut js, mut ds, mut es) = (vec![], vec![], vec![]);
        for s in sel {
            let Sel::Field(f) = s else { unreachable!() };
            let key = f.key();
            if in_union && key == "__typename" { self.o("typename-inside-member"); continue }
            let ty = self.rs.field(ty, &f.name).unwrap().ty.clone();
            let cond = f.dirs.iter().any(|d| d.name == "skip" || d.name == "include");
            let n = snake(key);
            if cond && self.r.p(50) { self.o("absent-conditional"); ds.push(format!("{n}: None")); es.push(format!("{}: None", ident(&n))); continue }
            let mut o = if f.name == "__typename" { Out { json: format!("{rt:?}"), dbg: format!("{rt:?}"), expr: format!("{rt:?}.into()") } } else { self.typed(&ty, f, mods, true) };
            if cond && ty.req() { o.dbg = format!("Some({})", o.dbg); o.expr = format!("Some({})", o.expr) }
            if !cond && !self.hit && ty.req() {
                if let Some(k) = self.sab { if k > 0 { self.sab = Some(k - 1) } else {
                    self.hit = true;
                    match self.r.n(3) { 0 => { self.o("missing-field"); continue } 1 => { self.o("null-field"); o.json = "null".into() } _ => { self.o("ill-typed-field"); o.json = self.wrong(&ty) } }
                } }
            }
            js.push(format!("{}:{}", serde_json::to_string(key).unwrap(), o.json));
            ds.push(format!("{n}: {}", o.dbg));
            es.push(format!("{}: {}", ident(&n), o.expr));
        }
        if self.r.p(40) { self.r.shuffle(&mut js) }
        (js.join(","), ds.join(", "), es.join(", "))
    }
    /// JSON that is no value of the type
    fn wrong(&mut self, ty: &Ty) -> String {
        let k: &[&'static str] = match ty {
            Ty::List(..) => &["{}", "\"x\"", "7"],
            Ty::Named(n, _) => match n.as_str() {
                "Int" | "Even" => &["\"5\"", "1.5", "3000000000", "true", "[]", "-2147483649"],
                "Float" => &["\"1.0\"", "false", "{}"],
                "Boolean" => &["0", "\"true\"", "[]"],
                "String" | "ID" | "Blob" => &["5", "[]", "true", "{}"],
                "Any0" => &["\"x\"", "{}", "[true]"],
                _ => match self.rs.ty(n).map(|t| &t.kind) { Some(Kind::Enum { .. }) => &["7", "[]", "true"], Some(Kind::Union { .. }) => &["7", "{}", "{\"__typename\":null}", "\"x\""], _ => &["7", "\"x\"", "true"] },
            },
        };
        self.r.ps(k).to_string()
    }
    /// input value: Rust expression and the JSON it stands for; None = absent
    fn input(&mut self, ty: &Ty, d: usize) -> (String, J) {
        if !ty.req() && self.r.p(30) { return ("None".into(), J::Null) }
        let (e, j) = self.input_nn(ty, d);
        if ty.req() { (e, j) } else { (format!("Some({e})"), j) }
    }
    fn input_nn(&mut self, ty: &Ty, d: usize) -> (String, J) {
        match ty {
            Ty::List(i, _) => { let n = if d == 0 { 0 } else { self.r.n(4) }; let v: Vec<_> = (0..n).map(|_| self.input(i, d.saturating_sub(1))).collect(); (format!("vec![{}]", v.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(", ")), J::Array(v.into_iter().map(|x| x.1).collect())) }
            Ty::Named(n, _) => match self.rs.ty(n).map(|t| t.kind.clone()) {
                Some(Kind::Input { .. }) => { let (e, j) = self.input_obj(n, d); (format!("{e}.into()"), j) }
                Some(Kind::Enum { values }) => { let v = self.r.pick(&values).name.clone(); (format!("schema::{}::{}", ident(&pascal(n)), ident(&pascal(&v))), json!(v)) }
                _ => { let o = self.leaf(n); (o.expr, serde_json::from_str(&o.json).unwrap()) }
            },
        }
    }
    fn input_obj(&mut self, n: &str, d: usize) -> (String, J) {
        let t = self.rs.ty(n).unwrap().clone(); let path = format!("schema::{}", ident(&pascal(n)));
        if self.rs.is_one_of(n) {
            self.o("one-of-input");
            let cheap: Vec<&InputVal> = t.input_fields().iter().filter(|f| self.rs.kind_is_leaf(f.ty.base()) || matches!(f.ty, Ty::List(..))).collect();
            let f = if d == 0 && !cheap.is_empty() { cheap[self.r.n(cheap.len())].clone() } else { self.r.pick(t.input_fields()).clone() };
            let (e, j) = self.input_nn(&f.ty, d.saturating_sub(1));
            return (format!("{path}::{}({e})", ident(&pascal(&f.name))), json!({f.name: j}))
        }
        let mut es = vec![]; let mut o = serde_json::Map::new();
        for f in t.input_fields() {
            let opt = !f.ty.req() || f.default.is_some();
            let deep = d == 0 && !self.rs.kind_is_leaf(f.ty.base());
            let (e, j) = if opt && (deep || self.r.p(35)) { ("None".to_string(), if f.ty.req() { self.o("absent-required-with-default"); None } else { Some(J::Null) }) } else { let (e, j) = self.input_nn(&f.ty, d.saturating_sub(1)); (if opt { format!("Some({e})") } else { e }, Some(j)) };
            es.push(format!("{}: {e}", ident(&snake(&f.name)))); if let Some(j) = j { o.insert(f.name.clone(), j); }
        }
        (format!("{path} {{ {} }}", es.join(", ")), J::Object(o))
    }
}
fn braces(n: &str, fields: &str) -> String { if fields.is_empty() { n.to_string() } else { format!("{n} {{ {fields} }}") } }

fn distinct(r: &RS) -> bool {
    let mut t = BTreeSet::new();
    for x in r.types.values() { if matches!(x.kind, Kind::Enum { .. } | Kind::Input { .. } | Kind::Scalar) && !BUILTIN_SCALARS.contains(&x.name.as_str()) && !t.insert(pascal(&x.name)) { return false } }
    for x in r.user_types() {
        let n: Vec<&str> = x.values().iter().map(|v| v.name.as_str()).chain(x.input_fields().iter().map(|v| v.name.as_str())).collect();
        if x.values().iter().any(|v| pascal(&v.name) == "Other") { return false }
        if n.iter().map(|x| pascal(x)).collect::<BTreeSet<_>>().len() < n.len() || n.iter().map(|x| snake(x)).collect::<BTreeSet<_>>().len() < n.len() { return false }
        let m = x.members(); if m.iter().map(|x| pascal(x)).collect::<BTreeSet<_>>().len() < m.len() || m.iter().map(|x| snake(x)).collect::<BTreeSet<_>>().len() < m.len() { return false }
    }
    true
}

/// drops fragments and variables that are not used, which would make the document invalid
fn prune(doc: &mut Doc) {
    let mut used = BTreeSet::new(); let mut v = BTreeSet::new();
    for o in &doc.ops { gendoc::uses_sel(&o.sel, &mut v, &mut used) }
    let mut todo: Vec<String> = used.iter().cloned().collect();
    while let Some(x) = todo.pop() { if let Some(f) = doc.frags.iter().find(|f| f.name == x) { let mut n = BTreeSet::new(); gendoc::uses_sel(&f.sel, &mut v, &mut n); for y in n { if used.insert(y.clone()) { todo.push(y) } } } }
    doc.frags.retain(|f| used.contains(&f.name));
    for i in 0..doc.ops.len() { let u = gendoc::op_uses(doc, &doc.ops[i]); doc.ops[i].vars.retain(|v| u.contains(&v.name)) }
}
fn each_sel(rs: &RS, sel: &mut Vec<Sel>, ty: &str, f: &mut dyn FnMut(&mut Vec<Sel>, &str)) {
    f(sel, ty);
    for s in sel.iter_mut() { match s {
        Sel::Field(x) if !x.sel.is_empty() => { let t = rs.field(ty, &x.name).map(|d| d.ty.base().to_string()); if let Some(t) = t { each_sel(rs, &mut x.sel, &t, f) } }
        Sel::Inline { cond, sel, .. } => { let t = cond.clone().unwrap_or(ty.to_string()); each_sel(rs, sel, &t, f) }
        _ => {}
    } }
}
fn tn(alias: Option<&str>) -> Sel { Sel::Field(Field { alias: alias.map(Into::into), name: "__typename".into(), args: vec![], dirs: vec![], sel: vec![] }) }
/// A variant of the module that is outside the documented subset: what is wrong with it, and its source, schema and document
pub fn negative(m: &Module, name: &str, r: &mut Rng) -> Option<(&'static str, [String; 3])> {
    let rs = RS::new(&m.schema);
    let codec = *r.pick(&m.codecs);
    let src = |stext: &str, dtext: &str, scalars: &dyn Fn(&mut Vec<(String, String)>), args: &str| {
        let mut al: Vec<(String, String)> = vec![];
        for t in m.schema.types() { if matches!(t.kind, Kind::Scalar) { let (l, ty) = alias(&t.name, codec == Codec::Borrow); al.push((format!("{}{l}", pascal(&t.name)), ty.into())) } }
        scalars(&mut al);
        let text = format!("#[bluejay_typegen::typegen({}{args})]\npub mod schema {{\n{}    #[query({})]\n    pub mod query {{}}\n}}\n", attr(m.inline_schema, stext, &format!("{name}.schema.graphql")), al.iter().map(|(a, t)| format!("    pub type {a} = {t};\n")).collect::<String>(), attr(m.inline_doc, dtext, &format!("{name}.query.graphql")));
        [text, stext.to_string(), dtext.to_string()]
    };
    let no = |_: &mut Vec<(String, String)>| {};
    match r.n(14) {
        0 => return Some(("extra-scalar-alias", src(&m.stext, &m.dtext, &|v| v.push(("NoSuchScalar".into(), "i32".into())), codec.args()))),
        1 => { let n = m.schema.types().filter(|t| matches!(t.kind, Kind::Scalar)).count(); if n == 0 { return None } let k = r.n(n); return Some(("missing-scalar-alias", src(&m.stext, &m.dtext, &|v| { v.remove(k); }, codec.args()))) }
        2 if r.p(40) => return Some(("borrow-with-miniserde", src(&m.stext, &m.dtext, &no, ", borrow = true, codec = \"miniserde\""))),
        3 => {
            // documents that do not validate
            let mut d = m.doc.clone(); let n = r.r(1, 3);
            for _ in 0..n { gendoc::mutate(r, &rs, &mut d); }
            let v = refval::validate(&rs, &d);
            if v.must.is_empty() || v.vague || v.gave_up { return None }
            let t = doc_text(&d); if m.inline_doc && !inline_ok(&t) { return None }
            return Some(("invalid-document", src(&m.stext, &t, &no, codec.args())))
        }
        4 if r.p(40) => { let t = m.dtext.rfind('}').map(|i| m.dtext[..i].to_string()).filter(|_| !m.inline_doc)?; return Some(("unparsable-document", src(&m.stext, &t, &no, codec.args()))) }
        4 => { let t = format!("{} type Twice9 {{ a: Int }} type Twice9 {{ a: Int }}", m.stext); return Some(("invalid-schema", src(&t, &m.dtext, &no, codec.args()))) }
        5 => {
            let mut d = m.doc.clone(); if d.frags.is_empty() { return None }
            let f = r.pick(&d.frags).name.clone(); let n = d.ops.len(); d.ops[r.n(n)].name = Some(f);
            let v = refval::validate(&rs, &d); if v.vague || !v.must.is_empty() || !v.may.is_empty() { return None }
            return Some(("fragment-named-like-operation", src(&m.stext, &doc_text(&d), &no, codec.args())))
        }
        _ => {}
    }
    let mut d = m.doc.clone();
    let mut total = 0usize;
    let walk = |d: &mut Doc, f: &mut dyn FnMut(&mut Vec<Sel>, &str)| {
        for o in &mut d.ops { if o.kind != OpKind::Subscription { let t = rs.root(o.kind).unwrap().to_string(); each_sel(&rs, &mut o.sel, &t, f) } }
        for x in &mut d.frags { let t = x.cond.clone(); each_sel(&rs, &mut x.sel, &t, f) }
    };
    let want = r.n(3);
    let fits = |s: &[Sel], ty: &str| match want { 0 => true, 1 => matches!(rs.ty(ty).map(|t| &t.kind), Some(Kind::Union { .. })), _ => matches!(rs.ty(ty).map(|t| &t.kind), Some(Kind::Interface { .. })) || matches!(s, [Sel::Spread { .. }]) };
    walk(&mut d, &mut |s, t| if fits(s, t) { total += 1 });
    if total == 0 { return None }
    let at = r.n(total); let mut i = 0; let mut what: Option<&'static str> = None; let mut extra: Option<Frag> = None;
    walk(&mut d, &mut |s, ty| {
        if !fits(s, ty) { return }
        i += 1; if i != at + 1 { return }
        let kind = rs.ty(ty).map(|t| t.kind.clone());
        let others = rs.possible(ty).map_or(0, |p| p.len());
        let frag = |cond: &str, extra: &mut Option<Frag>| { *extra = Some(Frag { name: "ExtraFragment9".into(), cond: cond.into(), dirs: vec![], sel: vec![tn(None)] }); Sel::Spread { name: "ExtraFragment9".into(), dirs: vec![] } };
        if let [Sel::Spread { .. }] = s[..] {
            let x = tn(if r.p(50) { None } else { Some("extra9") });
            if r.p(50) { s.push(x) } else { s.insert(0, x) }
            what = Some("spread-with-other-selections"); return
        }
        match kind {
            Some(Kind::Union { members }) => match r.n(9) {
                0 => { s.remove(0); if s.is_empty() { return } what = Some("union-without-typename") }
                1 => { if s.len() < 2 { return } let x = s.remove(0); s.push(x); what = Some("union-typename-not-first") }
                2 => { if let Sel::Field(f) = &mut s[0] { f.alias = Some("kind9".into()) } what = Some("union-typename-aliased") }
                3 => { s.push(tn(Some("again9"))); what = Some("union-with-another-field") }
                4 => { let Some(x) = s.iter().find(|x| matches!(x, Sel::Inline { .. })).cloned() else { return }; s.push(x); what = Some("union-member-twice") }
                5 => { let at = r.r(1, s.len()); s.insert(at, Sel::Inline { cond: if r.p(50) { None } else { Some(ty.to_string()) }, dirs: vec![], sel: vec![tn(None)] }); what = Some("union-fragment-not-on-member") }
                6 => { let x = r.pick(&members).clone(); let f = frag(&x, &mut extra); let at = r.r(0, s.len()); s.insert(at, f); what = Some("union-spread-with-other-selections") }
                7 => { if others < 2 { return } let x = r.pick(&members).clone(); *s = vec![frag(&x, &mut extra)]; what = Some("union-spread-on-member") }
                _ => { let Some(Sel::Inline { sel, cond, .. }) = s.iter_mut().find(|x| matches!(x, Sel::Inline { .. })) else { return }; let c = cond.clone(); sel.push(Sel::Inline { cond: if r.p(50) { None } else { c }, dirs: vec![], sel: vec![tn(None)] }); what = Some("inline-fragment-in-member") }
            },
            k => match r.n(4) {
                0 if matches!(k, Some(Kind::Interface { .. })) => { let Some(p) = rs.possible(ty) else { return }; let p: Vec<String> = p.iter().cloned().collect(); if p.is_empty() { return } let x = r.pick(&p).clone(); *s = vec![frag(&x, &mut extra)]; what = Some("interface-spread-on-object") }
                1 => { let f = frag(ty, &mut extra); let at = r.r(0, s.len()); s.insert(at, f); what = Some("spread-with-other-selections") }
                2 => { let x = std::mem::take(s); *s = vec![Sel::Inline { cond: Some(ty.to_string()), dirs: vec![], sel: x }]; what = Some("inline-fragment-only") }
                _ => { let at = r.r(0, s.len()); s.insert(at, Sel::Inline { cond: if r.p(50) { None } else { Some(ty.to_string()) }, dirs: vec![], sel: vec![tn(None)] }); what = Some("inline-fragment") }
            },
        }
    });
    let what = what?;
    if let Some(f) = extra { d.frags.push(f) }
    prune(&mut d);
    if d.ops.is_empty() { return None }
    let v = refval::validate(&rs, &d);
    if v.vague || v.gave_up || !v.must.is_empty() || !v.may.is_empty() { return None }
    Some((what, src(&m.stext, &doc_text(&d), &no, codec.args())))
}

pub fn generate(r: &mut Rng) -> Module {
    loop {
        let mut obs: BTreeMap<&'static str, u64> = BTreeMap::new();
        let inline_schema = r.p(35);
        let g = genschema::GS { descs: if inline_schema { 0 } else { 12 }, wild_strings: false, ..Default::default() };
        let mut s = genschema::schema(r, &g);
        s = names(r, &s);
        let rs = RS::new(&s);
        if !distinct(&rs) { continue }
        let mut e = Emit::new(if inline_schema { None } else { Some(r.fork()) }); e.sdoc(&s);
        let stext = if inline_schema { plain(&e.t) } else { crate::emit::layout(&e.t, r).0 };
        let inline_schema = inline_schema && inline_ok(&stext);
        // document
        let mut doc = Doc { frags_first: r.p(30), ..Default::default() };
        {
            let mut gn = Gn { r, rs: &rs, frags: vec![], tops: ["Root".to_string()].into(), obs: &mut obs, flag: false };
            let n = gn.r.r(1, 3);
            for i in 0..n {
                let kinds: Vec<OpKind> = OpKind::ALL.iter().copied().filter(|k| rs.root(*k).is_some()).collect();
                let kind = if gn.r.p(65) { OpKind::Query } else { *gn.r.pick(&kinds) };
                let root = rs.root(kind).unwrap().to_string();
                gn.flag = false;
                let sel = if kind == OpKind::Subscription { let mut v = gn.fields(&root, 3, false); v.retain(|s| !matches!(s, Sel::Field(f) if f.name.starts_with("__"))); v.truncate(1); v } else { gn.sels(&root, 3) };
                if sel.is_empty() { continue }
                let name = if n == 1 && gn.r.p(20) { None } else { Some(gn.top(&["GetThings", "player", "my_query", "HTTPQuery", "Q", "listAll", "op"])) };
                let _ = i;
                doc.ops.push(Op { kind, shorthand: false, name, vars: vec![], dirs: vec![], sel });
            }
            doc.frags = std::mem::take(&mut gn.frags);
        }
        if doc.ops.is_empty() { continue }
        for i in 0..doc.ops.len() { let u = gendoc::op_uses(&doc, &doc.ops[i]); if u.contains("flag") { doc.ops[i].vars.push(VarDef { name: "flag".into(), ty: Ty::named("Boolean").nn(), default: None, dirs: vec![] }) } }
        prune(&mut doc);
        let v = refval::validate(&rs, &doc);
        if v.vague || v.gave_up || !v.must.is_empty() || !v.may.is_empty() { continue }
        let dtext = doc_text(&doc);
        let inline_doc = r.p(40) && inline_ok(&dtext);
        let mut codecs = vec![Codec::Serde, Codec::Borrow, Codec::Mini]; r.shuffle(&mut codecs); codecs.truncate(if r.p(30) { 3 } else { 1 });
        // tests
        let mut tests = vec![];
        let de = |ty: &str, json: &str, expr: Option<&str>| -> [String; 3] {
            [Codec::Serde, Codec::Borrow, Codec::Mini].map(|c| match expr {
                None => format!("match {}::<{ty}>({json:?}) {{ Ok(v) => format!(\"ok {{v:?}}\"), Err(e) => format!(\"err {{e}}\") }}", c.de()),
                Some(x) => format!("match {}::<{ty}>({json:?}) {{ Ok(v) => {{ let e: {ty} = {x}; format!(\"ok {{}}\", v == e) }} Err(e) => format!(\"err {{e}}\") }}", c.de()),
            })
        };
        {
            let mut rp = Rp { r, rs: &rs, frags: &doc.frags, obs: &mut obs, plain: false, sab: None, hit: false };
            for op in &doc.ops {
                let root = rs.root(op.kind).unwrap();
                let name = op.name.clone().unwrap_or("Root".into());
                // an operation that is a lone spread still has a type of its own name
                let ty = format!("schema::query::{}", ident(&pascal(&name)));
                for _ in 0..3 { rp.sab = Some(rp.r.n(8)); rp.hit = false; let o = rp.object(root, root, &op.sel, &name, "schema::query"); if rp.hit { tests.push(Test { what: format!("reject {name}"), code: de(&ty, &o.json, None), want: Want::Err, json: o.json }) } rp.sab = None }
                for k in 0..5 { let o = rp.object(root, root, &op.sel, &name, "schema::query"); tests.push(Test { what: format!("decode {name}"), code: de(&ty, &o.json, None), want: Want::Dec(o.dbg.clone()), json: o.json.clone() }); if k == 0 { tests.push(Test { what: format!("compare {name}"), code: de(&ty, &o.json, Some(&o.expr)), want: Want::Eq, json: o.json }) } }
            }
            for f in &doc.frags.to_vec() {
                let ty = format!("schema::query::{}", ident(&pascal(&f.name)));
                for _ in 0..2 { let o = rp.composite(&f.cond, &f.sel, &f.name, "schema::query"); tests.push(Test { what: format!("decode {}", f.name), code: de(&ty, &o.json, None), want: Want::Dec(o.dbg), json: o.json }) }
            }
            for t in rs.user_types() {
                match &t.kind {
                    Kind::Enum { values } => for v in values {
                        let ty = format!("schema::{}", ident(&pascal(&t.name))); let p = pascal(&v.name); let e = format!("{ty}::{}", ident(&p));
                        tests.push(Test { what: format!("decode {}", t.name), code: de(&ty, &format!("{:?}", v.name), None), want: Want::Dec(p), json: v.name.clone() });
                        tests.push(Test { what: format!("encode {}", t.name), code: enc(&ty, &e), want: Want::Enc(json!(v.name)), json: e });
                    },
                    Kind::Input { .. } => for k in 0..4 { let (e, j) = rp.input_obj(&t.name, k.min(3)); let ty = format!("schema::{}", ident(&pascal(&t.name))); tests.push(Test { what: format!("encode {}", t.name), code: enc(&ty, &e), want: Want::Enc(j), json: e }) },
                    _ => {}
                }
            }
        }
        return Module { schema: s, stext, doc, dtext, codecs, inline_schema, inline_doc, tests, obs }
    }
}
fn enc(ty: &str, expr: &str) -> [String; 3] {
    [false, false, true].map(|m| if m { format!("{{ let v: {ty} = {expr}; ::miniserde::json::to_string(&v) }}") } else { format!("{{ let v: {ty} = {expr}; ::serde_json::to_string(&v).unwrap() }}") })
}

fn alias(n: &str, borrow: bool) -> (&'static str, &'static str) { match n { "Even" => ("", "i32"), "Any0" => ("", "::std::vec::Vec<i64>"), _ if borrow => ("<'a>", "::std::borrow::Cow<'a, str>"), _ => ("", "::std::string::String") } }
fn attr(inline: bool, text: &str, file: &str) -> String { if inline { format!("[{text}]") } else { format!("{:?}", format!("src/{file}")) } }
pub fn source(m: &Module, name: &str, c: Codec) -> String {
    let lt = c == Codec::Borrow;
    let mut s = format!("#[bluejay_typegen::typegen({}{})]\npub mod schema {{\n", attr(m.inline_schema, &m.stext, &format!("{name}.schema.graphql")), c.args());
    for t in m.schema.types() { if matches!(t.kind, Kind::Scalar) {
        let (l, ty) = alias(&t.name, lt);
        s += &format!("    pub type {}{l} = {ty};\n", pascal(&t.name));
    } }
    s += &format!("    #[query({})]\n    pub mod query {{}}\n}}\npub fn run(r: &mut dyn FnMut(usize, String)) {{\n", attr(m.inline_doc, &m.dtext, &format!("{name}.query.graphql")));
    for (i, t) in m.tests.iter().enumerate() { s += &format!("    r({i}, {});\n", t.code[c as usize]) }
    s + "}\n"
}

pub fn root_dir() -> PathBuf { PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into())).join("harness/target/tg") }
const BINS: usize = 8;
const TOML: &str = "[package]\nname = \"tg\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[workspace]\nBINS[[bin]]\nname = \"neg\"\npath = \"src/neg.rs\"\n[dependencies]\nbluejay-typegen = { path = \"/repo/bluejay-typegen\", features = [\"serde\", \"miniserde\"] }\nserde_json = \"1\"\nminiserde = \"0.1.39\"\n[profile.dev]\nopt-level = 0\ndebug = false\nincremental = false\n";

pub struct Built { pub ok: bool, pub errors: BTreeMap<String, Vec<String>>, pub other: String }
/// cargo run over the crate; errors grouped by the source file they are reported in
pub fn cargo(dir: &Path, args: &[&str]) -> Built {
    let o = Command::new("timeout").arg("400").arg("cargo").current_dir(dir).args(args).args(["--offline", "--message-format=json"]).env("CARGO_TARGET_DIR", root_dir().join("target")).output().expect("cargo");
    let mut b = Built { ok: o.status.success(), errors: BTreeMap::new(), other: String::new() };
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        let Ok(j) = serde_json::from_str::<J>(l) else { continue };
        if j["reason"] != "compiler-message" || j["message"]["level"] != "error" { continue }
        let text = j["message"]["rendered"].as_str().unwrap_or("").to_string();
        let file = j["message"]["spans"].as_array().and_then(|a| a.iter().find(|s| s["is_primary"] == true).or(a.first())).and_then(|s| s["file_name"].as_str()).unwrap_or("").to_string();
        let stem = file.rsplit('/').next().unwrap_or("").trim_end_matches(".rs").to_string();
        if file.starts_with("src/") { b.errors.entry(stem).or_default().push(text) } else if !text.starts_with("error: aborting") { b.other += &text }
    }
    if !b.ok && b.errors.is_empty() && b.other.is_empty() { b.other = String::from_utf8_lossy(&o.stderr).chars().rev().take(3000).collect::<String>().chars().rev().collect() }
    b
}

/// Compiles and runs the modules of the given cases; results by case and codec.
/// {"case": {"codec": {"error": text} | {"out": [..]}}}
pub fn batch(cases: &[(u64, Module)]) -> Result<BTreeMap<u64, J>, String> {
    let dir = root_dir().join("crate"); let src = dir.join("src");
    let _ = std::fs::remove_dir_all(&dir); std::fs::create_dir_all(&src).unwrap();
    std::fs::write(dir.join("Cargo.toml"), TOML.replace("BINS", &(0..BINS).map(|i| format!("[[bin]]\nname = \"pos{i}\"\npath = \"src/pos{i}.rs\"\n")).collect::<String>()).replace("/repo", &std::env::var("TG_REPO").unwrap_or("/repo".into()))).unwrap();
    std::fs::copy("/repo/Cargo.lock", dir.join("Cargo.lock")).map_err(|e| e.to_string())?;
    std::fs::write(src.join("neg.rs"), "fn main() {}\n").unwrap();
    let mut mods: Vec<(String, u64, Codec)> = vec![];
    for (k, m) in cases { for c in &m.codecs {
        let name = format!("m{k}_{}", format!("{c:?}").to_lowercase());
        std::fs::write(src.join(format!("{name}.rs")), source(m, &name, *c)).unwrap();
        std::fs::write(src.join(format!("{name}.schema.graphql")), &m.stext).unwrap();
        std::fs::write(src.join(format!("{name}.query.graphql")), &m.dtext).unwrap();
        mods.push((name, *k, *c));
    } }
    let mut res: BTreeMap<u64, J> = cases.iter().map(|(k, _)| (*k, json!({}))).collect();
    for _round in 0..6 {
        let mut args = vec!["build".to_string()];
        for i in 0..BINS {
            let mine: Vec<_> = mods.iter().skip(i).step_by(BINS).map(|m| &m.0).collect();
            let mut main = String::from("#![allow(warnings)]\n");
            for n in &mine { main += &format!("mod {n};\n") }
            main += "fn main() {\n    let mut go = |n: &str, f: fn(&mut dyn FnMut(usize, String))| {\n        let r = std::panic::catch_unwind(|| f(&mut |i, s| println!(\"{}\", serde_json::to_string(&(n, i, s)).unwrap())));\n        if r.is_err() { println!(\"{}\", serde_json::to_string(&(n, -1, \"panic\")).unwrap()) }\n    };\n";
            for n in &mine { main += &format!("    go({n:?}, {n}::run);\n") }
            main += "}\n";
            std::fs::write(src.join(format!("pos{i}.rs")), main).unwrap();
            args.extend(["--bin".into(), format!("pos{i}")]);
        }
        let b = cargo(&dir, &args.iter().map(String::as_str).chain(["--keep-going"]).collect::<Vec<_>>());
        if !b.ok {
            if b.errors.keys().all(|k| !mods.iter().any(|m| &m.0 == k)) { return Err(format!("the generated crate does not build: {}\n{:?}", b.other, b.errors.values().flatten().next())) }
            let (bad, good): (Vec<_>, Vec<_>) = mods.into_iter().partition(|m| b.errors.contains_key(&m.0));
            for (n, k, c) in bad { res.get_mut(&k).unwrap()[format!("{c:?}")] = json!({"error": b.errors[&n].iter().take(4).cloned().collect::<Vec<_>>().join("\n")}) }
            mods = good; continue
        }
        let mut outs: HashMap<String, Vec<(i64, String)>> = HashMap::new();
        for i in 0..BINS {
            let o = Command::new(root_dir().join(format!("target/debug/pos{i}"))).output().map_err(|e| e.to_string())?;
            for l in String::from_utf8_lossy(&o.stdout).lines() { if let Ok((n, i, s)) = serde_json::from_str::<(String, i64, String)>(l) { outs.entry(n).or_default().push((i, s)) } }
        }
        for (n, k, c) in &mods { res.get_mut(k).unwrap()[format!("{c:?}")] = json!({"out": outs.remove(n).unwrap_or_default()}) }
        return Ok(res)
    }
    Err("modules keep failing to compile".into())
}
pub fn negatives_of(m: &Module, case: u64, r: &mut Rng) -> Vec<(String, &'static str, [String; 3])> {
    (0..6).filter_map(|i| { let n = format!("n{case}_{i}"); negative(m, &n, r).map(|(w, s)| (n, w, s)) }).collect()
}
/// checks modules that must be rejected; the errors each file got
pub fn negatives(mods: &[(String, [String; 3])]) -> Result<BTreeMap<String, Vec<String>>, String> {
    let src = root_dir().join("crate/src");
    let mut main = String::from("#![allow(warnings)]\n");
    for (n, s) in mods {
        std::fs::write(src.join(format!("{n}.rs")), &s[0]).unwrap(); std::fs::write(src.join(format!("{n}.schema.graphql")), &s[1]).unwrap(); std::fs::write(src.join(format!("{n}.query.graphql")), &s[2]).unwrap();
        main += &format!("mod {n};\n");
    }
    std::fs::write(src.join("neg.rs"), main + "fn main() {}\n").unwrap();
    let b = cargo(&root_dir().join("crate"), &["check", "--bin", "neg"]);
    if !b.ok && b.errors.is_empty() { return Err(b.other) }
    Ok(b.errors)
}

pub fn num_eq(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Number(x), J::Number(y)) => x.as_f64() == y.as_f64(),
        (J::Array(x), J::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| num_eq(a, b)),
        (J::Object(x), J::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| num_eq(v, w))),
        _ => a == b,
    }
}

pub fn results_file() -> PathBuf { root_dir().join("results.json") }
fn results() -> &'static J {
    static R: std::sync::OnceLock<J> = std::sync::OnceLock::new();
    R.get_or_init(|| serde_json::from_str(&std::fs::read_to_string(results_file()).expect("results of the generated crate")).unwrap())
}

pub fn c24(c: &mut Ctx) {
    let m = generate(&mut c.rng);
    let res = &results()["cases"][&c.case_id];
    if res.is_null() { c.obs("not-run"); return }
    let text = |extra: &str| format!("{extra}\n--- schema ({})\n{}\n--- query ({})\n{}", if m.inline_schema { "inline" } else { "file" }, m.stext, if m.inline_doc { "inline" } else { "file" }, m.dtext);
    for cd in &m.codecs {
        let r = &res[format!("{cd:?}")];
        c.eval(true, &format!("{cd:?}{}{}", m.stext, m.dtext));
        if let Some(e) = r["error"].as_str() { return c.fail("compile", text(&format!("the types generated with {cd:?} do not compile\n{e}"))) }
        let out: Vec<(i64, String)> = serde_json::from_value(r["out"].clone()).unwrap_or_default();
        c.obs(match cd { Codec::Serde => "modules:serde", Codec::Borrow => "modules:borrow", Codec::Mini => "modules:miniserde" });
        for (i, t) in m.tests.iter().enumerate() {
            let Some((_, got)) = out.iter().find(|x| x.0 == i as i64) else { return c.fail("panic", text(&format!("no result of `{}` with {cd:?}: the generated code panicked or stopped\ninput {}", t.what, t.json))) };
            let ok = match &t.want { Want::Dec(d) => got == &format!("ok {d}"), Want::Eq => got == "ok true", Want::Err => got.starts_with("err"), Want::Enc(j) => serde_json::from_str::<J>(got).map_or(false, |g| num_eq(&g, j)) };
            c.obs(match &t.want { Want::Dec(_) => "decoded", Want::Eq => "compared", Want::Err => "rejected", Want::Enc(_) => "encoded" });
            if !ok { return c.fail(match &t.want { Want::Enc(_) => "encode", Want::Err => "accept", _ => "decode" }, text(&format!("{} with {cd:?}\ninput {}\ngot  {got}\nwant {:?}", t.what, t.json, t.want))) }
        }
    }
    for (name, what, src) in negatives_of(&m, c.case_id.parse().unwrap_or(0), &mut c.rng) {
        c.eval(true, &format!("{}{}{}", src[0], src[1], src[2]));
        let errs: Vec<String> = serde_json::from_value(results()["neg"][name].clone()).unwrap_or_default();
        if errs.is_empty() { return c.fail(&format!("accept:{what}"), format!("accepted although it is outside the subset ({what})\n{}\n--- schema\n{}\n--- query\n{}", src[0], src[1], src[2])) }
        c.obs("rejected-module"); c.obs(what);
        if errs.iter().any(|e| e.contains("panicked")) { c.obs("rejected-by-panic") }
    }
    for (k, n) in &m.obs { c.add(k, *n) }
    c.obs(if m.inline_schema { "inline-schema" } else { "schema-file" });
    c.obs(if m.inline_doc { "inline-query" } else { "query-file" });
    c.sample(|| json!({"schema": m.stext, "query": m.dtext, "codecs": format!("{:?}", m.codecs), "first_test": format!("{:?}", m.tests.first())}));
}

/// (name, module, statement about its decoded value, what is documented)
const PROBES: &[(&str, &str, &str, &str)] = &[
    ("fragment-in-member", "query Op { u { __typename ... on A { ...F } } } fragment F on A { a }", "::serde_json::from_str::<schema::query::Op>(\"{\\\"u\\\":{\\\"__typename\\\":\\\"A\\\",\\\"a\\\":1}}\").is_ok()", "an object selection set may be exactly one fragment spread, also below an inline fragment on a union member"),
    ("repeated-field", "query Op { n { a a } }", "::serde_json::from_str::<schema::query::Op>(\"{\\\"n\\\":{\\\"a\\\":1}}\").is_ok()", "a valid operation that selects a field twice has one value for it"),
    ("conditional-spread", "query Op($f: Boolean!) { n { ...F @include(if: $f) } } fragment F on A { a b }", "::serde_json::from_str::<schema::query::Op>(\"{\\\"n\\\":{}}\").is_ok()", "a response without the fields of a fragment that was not included decodes"),
    ("other-name", "query Op { e }", "::serde_json::from_str::<schema::query::Op>(\"{\\\"e\\\":\\\"OTHER\\\"}\").is_ok()", "an enum value named OTHER can be told from an unknown value"),
];
pub fn probe_runs() -> Result<J, String> {
    let src = root_dir().join("crate/src"); let mut res = json!({});
    for (name, q, test, _) in PROBES {
        let values = if *name == "other-name" { "ONE OTHER" } else { "ONE" };
        let t = format!("#![allow(warnings)]\n#[bluejay_typegen::typegen([type Query {{ n: A! u: U! e: E }} type A {{ a: Int! b: Int! }} type B {{ a: Int! }} union U = A | B enum E {{ {values} }}])]\npub mod schema {{\n    #[query([{q}])]\n    pub mod query {{}}\n}}\nfn main() {{ println!(\"{{}}\", {test}) }}\n");
        std::fs::write(src.join("neg.rs"), t).unwrap();
        let b = cargo(&root_dir().join("crate"), &["build", "--bin", "neg"]);
        if !b.ok { if b.errors.is_empty() { return Err(b.other) } res[*name] = json!(b.errors.values().flatten().next()); continue }
        let o = Command::new(root_dir().join("target/debug/neg")).output().map_err(|e| e.to_string())?;
        res[*name] = json!(String::from_utf8_lossy(&o.stdout).trim());
    }
    Ok(res)
}
pub fn c24_probes(c: &mut Ctx) {
    for (name, q, _, doc) in PROBES {
        let Some(r) = results()["probes"][*name].as_str() else { continue };
        c.eval(true, name);
        if r != "true" { c.fail(&format!("probe:{name}"), format!("{doc}\nquery {q}\nresult {r}")) }
    }
}
