//! C06 C07 (printing round trips) and C08 (schema construction).
use crate::bj;
use crate::deep;
use crate::emit::{layout, Emit};

use crate::genschema::{self, GS};
use crate::gensyn as g;
use crate::model::*;
use crate::refbuild;
use crate::refparse as rp;
use crate::rschema::{intro, RS};
use crate::run::Ctx;
use crate::schedit;
use bluejay_core::definition::{prelude::*, TypeDefinitionReference as TR};
use bluejay_core::AsIter;
use bluejay_parser::ast::definition::{DefaultContext, DefinitionDocument, SchemaDefinition};
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::ast::{Parse, Value, VariableValue};
use bluejay_printer::definition::SchemaDefinitionPrinter;
use bluejay_printer::executable::ExecutableDocumentPrinter;
use bluejay_printer::value::ValuePrinter;
use serde_json::json;

fn canon(mut d: Doc) -> Doc { d.frags_first = false; for o in &mut d.ops { o.shorthand = false } d }

/// print a parsed document, parse the print, print again
fn roundtrip(c: &mut Ctx, text: &str, want: &Doc) {
    let Some(got) = c.sut("print", || text.to_string(), || -> Result<(String, Doc, String), String> {
        let d = ExecutableDocument::parse(text).map_err(|e| format!("not parsed: {:?}", e.first()))?;
        let p = ExecutableDocumentPrinter::to_string(&d);
        let d2 = match ExecutableDocument::parse(&p) { Ok(x) => x, Err(e) => return Err(format!("PRINT {p}\nthe printed text does not parse: {:?}", e.first())) };
        let p2 = ExecutableDocumentPrinter::new(&d2).to_string();
        let m = bj::doc(&d2);
        drop(d2);
        Ok((p, m, p2))
    }) else { return };
    c.eval(true, text);
    let (p, m, p2) = match got { Ok(x) => x, Err(e) if e.starts_with("PRINT") => return c.fail("print-unparseable", format!("{e}\n--- source\n{text}")), Err(_) => return };
    c.obs("documents");
    let m = canon(m);
    if &m != want { return c.fail("print-differs", format!("the printed document reads back as another document\n--- source\n{text}\n--- printed\n{p}\n--- read back\n{m:?}\n--- original\n{want:?}")) }
    if p != p2 { return c.fail("print-unstable", format!("printing again differs\n--- first\n{p}\n--- second\n{p2}")) }
    // the text is grammatical by the independent parser too, and means the same
    match rp::parse_doc(&p) { Ok(x) if &canon(x.clone()) == want => {} Ok(x) => c.fail("print-differs", format!("the printed text denotes another document (reference parser)\n--- printed\n{p}\n{x:?}\n--- original\n{want:?}")), Err(e) => c.fail("print-unparseable", format!("the printed text is not grammatical at byte {} ({})\n--- printed\n{p}", e.at, e.why)) }
    for f in &want.frags { if !f.dirs.is_empty() { c.obs("fragment-directives") } }
    for o in &want.ops { if o.vars.iter().any(|v| v.default.is_some()) { c.obs("variable-defaults") } if o.vars.iter().any(|v| !v.dirs.is_empty()) { c.obs("variable-directives") } }
}

fn value_roundtrip<'t, const C: bool>(c: &mut Ctx, v: &Val) {
    let text = crate::emit::val_text(v);
    let Some(got) = c.sut("print value", || text.clone(), || -> Result<String, String> {
        if C { Value::<true>::parse(&text).map(|x| ValuePrinter::to_string(&x)).map_err(|e| format!("{e:?}")) } else { VariableValue::parse(&text).map(|x| ValuePrinter::to_string(&x)).map_err(|e| format!("{e:?}")) }
    }) else { return };
    c.eval(text.len() > 2, &text);
    match got {
        Err(e) => c.fail("rejects-valid", format!("{text}: {e}")),
        Ok(p) => match rp::parse_value(&p, C) { Ok(x) if &x == v => c.obs("values"), other => c.fail("value-print", format!("value {text} prints as {p}, which denotes {other:?}")) },
    }
}
fn json_val(v: &Val) -> Option<serde_json::Value> {
    Some(match v {
        Val::Int(i) => json!(i), Val::Float(f) => json!(f.0), Val::Str(s) => json!(s), Val::Bool(b) => json!(b), Val::Null => serde_json::Value::Null,
        Val::List(l) => serde_json::Value::Array(l.iter().map(json_val).collect::<Option<_>>()?),
        Val::Obj(o) => { let mut m = serde_json::Map::new(); for (k, v) in o { if m.insert(k.clone(), json_val(v)?).is_some() { return None } } serde_json::Value::Object(m) }
        _ => return None,
    })
}

pub fn c06(c: &mut Ctx) {
    let d = g::doc(&mut c.rng, c.size);
    let r2 = c.rng.fork();
    let mut e = Emit::new(Some(r2)); e.doc(&d);
    let (text, _) = layout(&e.t, &mut c.rng);
    c.sample(|| json!(text));
    roundtrip(c, &text, &canon(d.clone()));
    // an edited neighbour, if it still is a document
    for _ in 0..3 {
        let mut t = e.t.clone(); g::edit_tokens(&mut t, &mut c.rng);
        let (t, _) = layout(&t, &mut c.rng);
        if rp::nesting(&t) > 80 { continue }
        if let Ok(x) = rp::parse_doc(&t) { roundtrip(c, &t, &canon(x)); c.obs("edited"); }
    }
    for _ in 0..8 {
        let v = g::val(&mut c.rng, false, 4); value_roundtrip::<false>(c, &v);
        let v = g::val(&mut c.rng, true, 4); value_roundtrip::<true>(c, &v);
        if let Some(j) = json_val(&v) {
            let Some(p) = c.sut("print JSON value", || j.to_string(), || ValuePrinter::<true, serde_json::Value>::to_string(&j)) else { continue };
            // JSON object members come in the map's order
            fn sort(v: &Val) -> Val { match v { Val::Obj(o) => { let mut o: Vec<_> = o.iter().map(|(k, v)| (k.clone(), sort(v))).collect(); o.sort_by(|a, b| a.0.cmp(&b.0)); Val::Obj(o) } Val::List(l) => Val::List(l.iter().map(sort).collect()), v => v.clone() } }
            match rp::parse_value(&p, true) { Ok(x) if sort(&x) == sort(&v) => c.obs("json-values"), other => c.fail("value-print", format!("JSON value {j} prints as {p}, which denotes {other:?}")) }
        }
    }
    for _ in 0..6 { let f = g::float(&mut c.rng); value_roundtrip::<true>(c, &Val::Float(F(f))); let s = g::string(&mut c.rng); value_roundtrip::<true>(c, &Val::Str(s)); }
}

pub fn gen(c: &mut Ctx) -> SDoc {
    let g = GS { rand_desc_long: true, descs: *c.rng.pick(&[0, 15, 60]), dirs: *c.rng.pick(&[0, 20, 60]), wild_strings: true, ..GS::default() };
    let mut d = genschema::schema(&mut c.rng, &g); if c.rng.n(150) == 0 { let n = *c.rng.pick(&[20usize, 70, 150]); genschema::crowd(&mut d, &mut c.rng, n); c.obs("crowded") }
    if c.rng.p(75) { schedit::wild(&mut d, &mut c.rng) }
    d
}

pub fn c07(c: &mut Ctx) {
    let mut d = gen(c);
    if c.rng.p(20) { schedit::break_one(&mut d, &mut c.rng); }
    if !refbuild::reasons(&d).is_empty() { c.obs("not-buildable"); return }
    let r2 = c.rng.fork();
    let mut e = Emit::new(Some(r2)); e.sdoc(&d);
    let (text, _) = layout(&e.t, &mut c.rng);
    c.sample(|| json!(text.chars().take(800).collect::<String>()));
    let Some(got) = c.sut("print schema", || text.clone(), || -> Result<(bj::View, String, bj::View, String), String> {
        let doc = DefinitionDocument::<DefaultContext>::parse(&text).map_err(|e| format!("not parsed: {:?}", e.first()))?;
        let s = SchemaDefinition::try_from(&doc).map_err(|e| format!("not built: {:?}", e.first()))?;
        let p = SchemaDefinitionPrinter::to_string(&s);
        let d2 = DefinitionDocument::<DefaultContext>::parse(&p).map_err(|e| format!("PRINT {p}\nthe printed schema does not parse: {:?}", e.first()))?;
        let s2 = SchemaDefinition::try_from(&d2).map_err(|e| format!("PRINT {p}\nthe printed schema does not build: {:?}", e.first()))?;
        Ok((bj::view(&s, true), p.clone(), bj::view(&s2, true), SchemaDefinitionPrinter::new(&s2).to_string()))
    }) else { return };
    c.eval(true, &text);
    let (v1, p, v2, p2) = match got { Ok(x) => x, Err(e) if e.starts_with("PRINT") => return c.fail("print-unparseable", format!("{e}\n--- source\n{text}")), Err(e) => return c.fail("rejects-valid", format!("{e}\n--- source\n{text}")) };
    c.obs("schemas");
    if v1 != v2 { return c.fail("print-differs", format!("the printed schema builds another schema: {}\n--- source\n{text}\n--- printed\n{p}", diff(&v1, &v2))) }
    if p != p2 { return c.fail("print-unstable", format!("printing again differs\n--- first\n{p}\n--- second\n{p2}")) }
    match rp::parse_sdoc(&p) {
        Err(e) => c.fail("print-unparseable", format!("the printed schema is not grammatical at byte {} ({})\n{p}", e.at, e.why)),
        Ok(x) => {
            if let Some(m) = compare_written(&d, &x) { c.fail("print-differs", format!("the printed text denotes another schema (reference parser): {m}\n--- source\n{text}\n--- printed\n{p}")) }
        }
    }
    if d.schemas().next().is_some() { c.obs("explicit") } else { c.obs("implicit") }
}

fn diff(a: &bj::View, b: &bj::View) -> String {
    if (&a.desc, &a.dirs) != (&b.desc, &b.dirs) { return format!("schema description/directives {:?} {:?} vs {:?} {:?}", a.desc, a.dirs, b.desc, b.dirs) }
    if (&a.query, &a.mutation, &a.subscription) != (&b.query, &b.mutation, &b.subscription) { return format!("roots {:?} vs {:?}", (&a.query, &a.mutation, &a.subscription), (&b.query, &b.mutation, &b.subscription)) }
    for (x, y) in a.types.iter().zip(&b.types) { if x != y { return format!("type\n{x:?}\nvs\n{y:?}") } }
    for (x, y) in a.directives.iter().zip(&b.directives) { if x != y { return format!("directive\n{x:?}\nvs\n{y:?}") } }
    format!("{:?} {:?} {:?} {:?}\nvs {:?} {:?} {:?} {:?}", a.types.iter().map(|t| &t.name).collect::<Vec<_>>(), a.directives.iter().map(|t| &t.name).collect::<Vec<_>>(), a.builtin_types, a.builtin_directives, b.types.iter().map(|t| &t.name).collect::<Vec<_>>(), b.directives.iter().map(|t| &t.name).collect::<Vec<_>>(), b.builtin_types, b.builtin_directives)
}
const BUILTIN_DIRS: [&str; 5] = ["skip", "include", "deprecated", "specifiedBy", "oneOf"];

/// definitions as sets by name; redefined built-in directives may or may not be printed
fn compare_written(a: &SDoc, b: &SDoc) -> Option<String> {
    let key = |d: &SDoc| { let mut t: Vec<TypeDef> = d.types().cloned().collect(); t.sort_by(|x, y| x.name.cmp(&y.name)); t };
    let (ta, tb) = (key(a), key(b));
    for (x, y) in ta.iter().zip(&tb) { if x != y { return Some(format!("type\n{x:?}\nvs\n{y:?}")) } }
    if ta.len() != tb.len() { return Some("number of types".into()) }
    let keyd = |d: &SDoc| { let mut t: Vec<DirDef> = d.dirs().filter(|x| !BUILTIN_DIRS.contains(&x.name.as_str())).cloned().collect(); t.sort_by(|x, y| x.name.cmp(&y.name)); t };
    let (da, db) = (keyd(a), keyd(b));
    for (x, y) in da.iter().zip(&db) { if x != y { return Some(format!("directive\n{x:?}\nvs\n{y:?}")) } }
    if da.len() != db.len() { return Some("number of directive definitions".into()) }
    let (ra, rb) = (RS::new(a), RS::new(b));
    if (&ra.query, &ra.mutation, &ra.subscription) != (&rb.query, &rb.mutation, &rb.subscription) { return Some("root operations".into()) }
    if ra.desc != rb.desc || ra.schema_dirs != rb.schema_dirs { return Some(format!("schema description or directives: {:?} {:?} vs {:?} {:?}", ra.desc, ra.schema_dirs, rb.desc, rb.schema_dirs)) }
    None
}

/// judge the construction of `d`, given as `text`
pub fn check_build(c: &mut Ctx, d: &SDoc, text: &str) {
    let want = refbuild::reasons(d);
    enum R { NoParse(String), NoBuild(Vec<String>), Built { view: bj::View, deep: deep::Deep, found: Vec<String>, impls: Vec<(String, Vec<String>)>, meta: Vec<(String, Vec<String>)>, count: usize } }
    let Some(got) = c.sut("build schema", || text.to_string(), || {
        let doc = match DefinitionDocument::<DefaultContext>::parse(text) { Ok(x) => x, Err(e) => return R::NoParse(format!("{:?}", e.first())) };
        let r = match SchemaDefinition::try_from(&doc) {
            Err(e) => { let es: Vec<String> = e.iter().map(|x| format!("{x:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()).collect(); let _ = bluejay_parser::Error::into_graphql_errors(text, e); R::NoBuild(es) }
            Ok(s) => {
                let mut names: Vec<String> = d.types().map(|t| t.name.clone()).chain(BUILTIN_SCALARS.map(str::to_string)).chain(intro().types().map(|t| t.name.clone())).collect();
                names.push("NotThere".into()); names.sort(); names.dedup();
                let found = names.iter().filter(|n| s.get_type_definition(n).is_some()).cloned().collect();
                let mut impls = vec![]; let mut meta = vec![];
                for t in s.type_definitions() {
                    if let TR::Interface(i) = t { impls.push((i.name().to_string(), s.get_interface_implementors(i).map(|o| o.name().to_string()).collect())) }
                    if let Some(f) = t.fields_definition() { meta.push((t.name().to_string(), f.iter().filter(|x| x.is_builtin()).map(|x| x.name().to_string()).collect())) }
                }
                R::Built { view: bj::view(&s, false), deep: deep::check(&s), found, impls, meta, count: s.type_definitions().count() }
            }
        }; r
    }) else { return };
    c.eval(true, text);
    match got {
        R::NoParse(e) => c.fail("rejects-valid", format!("does not parse: {e}\n{text}")),
        R::NoBuild(es) => {
            if want.is_empty() { return c.fail("rejects-buildable", format!("every reference resolves, yet the schema is rejected with {es:?}\n{text}")) }
            c.obs("rejected"); for w in &want { c.obs(&format!("rejected:{w}")) }
            if es.is_empty() { c.fail("no-error", format!("rejected without any error\n{text}")) }
            // the errors are of the kinds that are wrong (reference errors hide root errors)
            for e in &es {
                let kinds: &[&str] = match e.as_str() {
                    "DuplicateTypeDefinitions" => &["duplicate-type"], "DuplicateDirectiveDefinitions" => &["duplicate-directive"],
                    "ReferencedTypeDoesNotExist" => &["unknown-type"], "ReferencedTypeIsNotAnOutputType" => &["not-output"], "ReferencedTypeIsNotAnInputType" => &["not-input"],
                    "ReferencedUnionMemberTypeIsNotAnObject" => &["member-not-object"], "ReferencedTypeIsNotAnInterface" => &["not-interface"], "ReferencedDirectiveDoesNotExist" => &["unknown-directive"],
                    "DuplicateExplicitSchemaDefinitions" => &["several-schema-definitions"], "DuplicateExplicitRootOperationDefinitions" => &["duplicate-root"], "ExplicitRootOperationTypeDoesNotExist" => &["unknown-root"],
                    "ExplicitRootOperationTypeNotAnObject" | "ImplicitRootOperationTypeNotAnObject" => &["root-not-object"],
                    "ExplicitSchemaDefinitionMissingQuery" | "ImplicitSchemaDefinitionMissingQuery" | "NoSchemaDefinition" => &["no-query"],
                    _ => continue,
                };
                if !kinds.iter().any(|k| want.contains(*k)) && !want.contains("duplicate-type") { c.fail("wrong-error", format!("reports {e}, but what is wrong is {want:?}\n{text}")) }
            }
        }
        R::Built { view, deep, found, impls, meta, count } => {
            if !want.is_empty() { return c.fail("accepts-unbuildable", format!("built although {want:?}\n{text}")) }
            c.obs("built"); c.add("references-resolved", deep.refs);
            if !deep.problems.is_empty() { return c.fail("inconsistent-schema", format!("{}\n{text}", deep.problems.join("\n"))) }
            let rs = RS::new(d);
            let mut types: Vec<TypeDef> = d.types().cloned().collect(); types.sort_by(|a, b| a.name.cmp(&b.name));
            let mut directives: Vec<DirDef> = d.dirs().filter(|x| view.directives.iter().any(|y| y.name == x.name) || !BUILTIN_DIRS.contains(&x.name.as_str())).cloned().collect(); directives.sort_by(|a, b| a.name.cmp(&b.name));
            let mut bt: Vec<String> = intro().types().map(|t| t.name.clone()).chain(BUILTIN_SCALARS.iter().map(|s| s.to_string()).filter(|s| !types.iter().any(|t| &t.name == s))).collect(); bt.sort();
            let mut bd: Vec<String> = BUILTIN_DIRS.iter().map(|s| s.to_string()).filter(|s| !directives.iter().any(|t| &t.name == s)).collect(); bd.sort();
            let n = types.len() + bt.len();
            let w = bj::View { desc: rs.desc.clone(), dirs: rs.schema_dirs.clone(), query: rs.query.clone(), mutation: rs.mutation.clone(), subscription: rs.subscription.clone(), types, directives, builtin_types: bt, builtin_directives: bd };
            if w != view { return c.fail("schema-differs", format!("the built schema is not what is written: {}\n{text}", diff(&view, &w))) }
            if count != n { c.fail("schema-differs", format!("{count} types enumerated, {n} expected\n{text}")) }
            if found.len() != n || found.iter().any(|x| x == "NotThere") { c.fail("lookup", format!("lookups by name find {found:?}\n{text}")) }
            for (i, os) in impls {
                let mut os2 = os.clone(); os2.sort();
                let mut want: Vec<String> = rs.types.values().filter(|t| t.is_object() && t.ifaces().contains(&i)).map(|t| t.name.clone()).collect(); want.sort();
                if os2 != want { c.fail("implementors", format!("implementors of {i}: {os:?}, expected {want:?}\n{text}")) }
                if !want.is_empty() { c.obs("interfaces-with-implementors") }
            }
            for (t, fs) in meta {
                let mut fs = fs; fs.sort();
                let want: Vec<&str> = if t == rs.query { vec!["__schema", "__type", "__typename"] } else { vec!["__typename"] };
                if t.starts_with("__") { continue }
                if fs != want { c.fail("meta-fields", format!("{t} has the built-in fields {fs:?}, expected {want:?}\n{text}")) }
            }
        }
    }
}

pub fn c08(c: &mut Ctx) {
    let d = gen(c);
    let one = |c: &mut Ctx, d: &SDoc| { let r2 = c.rng.fork(); let mut e = Emit::new(if c.rng.p(30) { Some(r2) } else { None }); e.sdoc(d); let (text, _) = layout(&e.t, &mut c.rng); text };
    let t = one(c, &d);
    c.sample(|| json!(t.chars().take(800).collect::<String>()));
    if refbuild::reasons(&d).is_empty() { c.obs("generated-buildable") }
    check_build(c, &d, &t);
    for _ in 0..6 {
        let mut x = d.clone();
        let n = if c.rng.p(75) { 1 } else { c.rng.r(2, 3) };
        for _ in 0..n { let l = schedit::break_one(&mut x, &mut c.rng); c.obs(&format!("edit:{l}")); }
        if x.defs.is_empty() { continue }
        // roots on introspection types and meta-named fields are left out: their meta-fields are not specified
        if x.schemas().any(|s| s.roots.iter().any(|r| r.1.starts_with("__"))) { continue }
        let t = one(c, &x);
        check_build(c, &x, &t);
    }
    // small syntactic documents
    let x = g::sdoc(&mut c.rng);
    if !x.schemas().any(|s| s.roots.iter().any(|r| r.1.starts_with("__"))) && !x.types().any(|t| t.fields().iter().any(|f| f.name.starts_with("__"))) {
        let mut x = x; if c.rng.p(60) { x.defs.push(SDef::Type(TypeDef { desc: None, name: "Query".into(), dirs: vec![], kind: Kind::Object { ifaces: vec![], fields: vec![FieldDef { desc: None, name: "f".into(), args: vec![], ty: Ty::named("Int"), dirs: vec![] }] } })) }
        let t = one(c, &x);
        check_build(c, &x, &t);
    }
}
