//! C09 C10 C11 C12: document validation against the reference validator.
use crate::bj;
use crate::emit::{doc_text, val_text};
use crate::gendoc::{self, GD};
use crate::genschema::{self, GS};
use crate::model::*;
use crate::refcoerce::{self, Wrong};
use crate::refparse;
use crate::refval::{self, MERGE};
use crate::rschema::RS;
use crate::run::Ctx;
use crate::sys::{self, Schema};
use bluejay_core::definition::{prelude::*, TypeDefinitionReference as TR};
use bluejay_core::AsIter;
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::ast::{Parse, Value};
use bluejay_validator::executable::document::{ArgumentError, BuiltinRulesValidator, DirectiveError, Error};
use bluejay_validator::executable::Cache;
use bluejay_validator::value::input_coercion::{CoerceInput, Error as IE};
use serde_json::json;
use std::collections::BTreeSet;

pub fn ie_kind<const C: bool, V: bluejay_core::Value<C>>(e: &IE<'_, C, V>) -> Wrong {
    let (k, p) = match e {
        IE::NullValueForRequiredType { path, .. } => ("NullValueForRequiredType", path), IE::NoImplicitConversion { path, .. } => ("NoImplicitConversion", path),
        IE::NoEnumMemberWithName { path, .. } => ("NoEnumMemberWithName", path), IE::NoValueForRequiredFields { path, .. } => ("NoValueForRequiredFields", path),
        IE::NonUniqueFieldNames { path, .. } => ("NonUniqueFieldNames", path), IE::NoInputFieldWithName { path, .. } => ("NoInputFieldWithName", path),
        IE::CustomScalarInvalidValue { path, .. } => ("CustomScalarInvalidValue", path), IE::OneOfInputNullValues { path, .. } => ("OneOfInputNullValues", path),
        IE::OneOfInputNotSingleNonNullValue { path, .. } => ("OneOfInputNotSingleNonNullValue", path),
    };
    Wrong { path: p.to_vec::<String>(), kind: k }
}
fn de<const C: bool, E: bluejay_core::executable::ExecutableDocument, S: bluejay_core::definition::SchemaDefinition>(e: &DirectiveError<'_, C, E, S>) -> &'static str {
    match e { DirectiveError::DirectiveDoesNotExist { .. } => "DirectiveDoesNotExist", DirectiveError::DirectiveInInvalidLocation { .. } => "DirectiveInInvalidLocation", DirectiveError::DirectivesNotUniquePerLocation { .. } => "DirectivesNotUniquePerLocation" }
}
fn ae<const C: bool, E: bluejay_core::executable::ExecutableDocument, S: bluejay_core::definition::SchemaDefinition>(e: &ArgumentError<'_, C, E, S>) -> &'static str {
    match e {
        ArgumentError::NonUniqueArgumentNames { .. } => "NonUniqueArgumentNames", ArgumentError::ArgumentDoesNotExistOnField { .. } => "ArgumentDoesNotExistOnField", ArgumentError::ArgumentDoesNotExistOnDirective { .. } => "ArgumentDoesNotExistOnDirective",
        ArgumentError::DirectiveMissingRequiredArguments { .. } => "DirectiveMissingRequiredArguments", ArgumentError::FieldMissingRequiredArguments { .. } => "FieldMissingRequiredArguments",
    }
}
pub fn kind<E: bluejay_core::executable::ExecutableDocument, S: bluejay_core::definition::SchemaDefinition>(e: &Error<'_, E, S>) -> &'static str {
    macro_rules! k { ($($v:ident),*) => { match e {
        $(Error::$v { .. } => stringify!($v),)*
        Error::InvalidConstValue(x) => ie_kind(x).kind, Error::InvalidVariableValue(x) => ie_kind(x).kind,
        Error::InvalidConstDirective(x) => de(x), Error::InvalidVariableDirective(x) => de(x),
        Error::InvalidConstArgument(x) => ae(x), Error::InvalidVariableArgument(x) => ae(x),
    } } }
    k!(NonUniqueOperationNames, NotLoneAnonymousOperation, SubscriptionRootNotSingleField, FieldDoesNotExistOnType, OperationTypeNotDefined, LeafFieldSelectionNotEmpty, NonLeafFieldSelectionEmpty, NonUniqueFragmentDefinitionNames,
        FragmentDefinitionTargetTypeDoesNotExist, InlineFragmentTargetTypeDoesNotExist, FragmentDefinitionTargetTypeNotComposite, InlineFragmentTargetTypeNotComposite, FragmentDefinitionUnused, FragmentSpreadTargetUndefined, FragmentSpreadCycle,
        FieldSelectionsDoNotMergeIncompatibleTypes, FieldSelectionsDoNotMergeDifferingNames, FieldSelectionsDoNotMergeDifferingArguments, FragmentSpreadIsNotPossible, InlineFragmentSpreadIsNotPossible, NonUniqueVariableDefinitionNames,
        VariableDefinitionTypeNotInput, VariableNotDefined, VariableDefinitionUnused, InvalidVariableUsage)
}

/// kinds reported by the built-in rules
pub fn reported(schema: &Schema, text: &str) -> Result<BTreeSet<&'static str>, String> {
    let d = ExecutableDocument::parse(text).map_err(|e| format!("{:?}", e.first()))?;
    let cache = Cache::new(&d, schema);
    let r = BuiltinRulesValidator::validate(&d, schema, &cache).map(|e| kind(&e)).collect();
    Ok(r)
}

pub const COERCION: &[&str] = &["NullValueForRequiredType", "NoImplicitConversion", "NoEnumMemberWithName", "NoValueForRequiredFields", "NonUniqueFieldNames", "NoInputFieldWithName", "CustomScalarInvalidValue", "OneOfInputNullValues", "OneOfInputNotSingleNonNullValue"];
pub const VARS: &[&str] = &["NonUniqueVariableDefinitionNames", "VariableDefinitionTypeNotInput", "VariableNotDefined", "VariableDefinitionUnused", "InvalidVariableUsage"];

/// Judge one document; only kinds in `scope` are judged (None: all).
pub fn judge(c: &mut Ctx, rs: &RS, schema: &Schema, sdl: &str, d: &Doc, scope: Option<&[&'static str]>) {
    let text = doc_text(d);
    let v = refval::validate(rs, d);
    if v.gave_up { c.obs("reference-gave-up"); return }
    let Some(got) = c.sut("validate", || format!("{sdl}\n--- document\n{text}"), || reported(schema, &text)) else { return };
    let got = match got { Ok(g) => g, Err(e) => { c.fail("unparseable", format!("generated document does not parse: {e}\n{text}")); return } };
    c.eval(true, &text);
    if v.must.is_empty() && v.may.is_empty() { c.obs("valid") } else { c.obs("invalid") }
    for k in &v.must { c.obs(&format!("rule:{k}")) }
    let inn = |k: &str| scope.map_or(true, |s| s.contains(&k));
    let is_merge = |k: &str| MERGE.contains(&k);
    let doc = |what: String| format!("{what}\n--- reported\n{got:?}\n--- violated\n{:?} (possibly also {:?})\n--- schema\n{sdl}\n--- document\n{text}", v.must, v.may);
    for k in &got {
        if !inn(k) || v.vague { continue }
        if !v.must.contains(k) && !v.may.contains(k) { return c.fail(&format!("spurious:{k}"), doc(format!("{k} is reported, but that rule is not violated"))) }
    }
    for k in &v.must {
        if !inn(k) { continue }
        if is_merge(k) { if !got.iter().any(|k| is_merge(k)) { return c.fail("missed:merge", doc(format!("fields do not merge ({k}) but no merging error is reported"))) } continue }
        if !got.contains(k) { return c.fail(&format!("missed:{k}"), doc(format!("{k} is violated but not reported"))) }
    }
}

/// Generate a schema that the reference and bluejay both accept and run `f` on it.
pub fn on_schema(c: &mut Ctx, g: &GS, f: impl FnOnce(&mut Ctx, &RS, &Schema, &str)) {
    let mut sd = genschema::schema(&mut c.rng, g); if c.rng.n(150) == 0 { let n = *c.rng.pick(&[20usize, 70, 150]); genschema::crowd(&mut sd, &mut c.rng, n); c.obs("crowded") }
    on_sdoc(c, &sd, f)
}
pub fn on_sdoc(c: &mut Ctx, sd: &SDoc, f: impl FnOnce(&mut Ctx, &RS, &Schema, &str)) {
    let sdl = sys::vtext(sd);
    let rs = RS::new(sd);
    let d = match sys::DDoc::parse(&sdl) { Ok(d) => d, Err(e) => { c.fail("schema-unparseable", format!("{:?}\n{sdl}", e.first())); return } };
    let Some(r) = c.sut("build schema", || sdl.clone(), || Schema::try_from(&d).map_err(|e| e.iter().map(|x| format!("{x:?}").chars().take(200).collect::<String>()).collect::<Vec<_>>())) else { return };
    match r { Ok(s) => f(c, &rs, &s, &sdl), Err(e) => c.fail("schema-rejected", format!("valid schema rejected: {e:?}\n{sdl}")) }
}

pub fn self_check(rs: &RS, sdl: &str, d: &Doc) {
    let v = refval::validate(rs, d);
    if v.gave_up { return }
    if !v.must.is_empty() || !v.may.is_empty() { panic!("generator produced an invalid document: {:?} {:?}\n{sdl}\n{}", v.must, v.may, doc_text(d)) }
}

pub fn run_docs(c: &mut Ctx, gs: &GS, gd: &GD, docs: usize, muts: usize, scope: Option<&[&'static str]>) {
    let (gs, gd) = (gs.clone(), gd.clone());
    on_schema(c, &gs, |c, rs, schema, sdl| {
        for _ in 0..docs {
            let d = gendoc::doc(&mut c.rng, rs, &gd);
            if !gd.alias_free { self_check(rs, sdl, &d) }
            c.sample(|| json!({"schema": sdl, "document": doc_text(&d)}));
            judge(c, rs, schema, sdl, &d, scope);
            for _ in 0..muts {
                let mut m = d.clone();
                let n = if c.rng.p(75) { 1 } else { c.rng.r(2, 3) };
                for _ in 0..n { let l = gendoc::mutate(&mut c.rng, rs, &mut m); c.obs(&format!("edit:{l}")); }
                if m == d { continue }
                judge(c, rs, schema, sdl, &m, scope);
            }
        }
    })
}

pub fn c09(c: &mut Ctx) { let gd = GD { alias_free: c.rng.p(25), ..GD::default() }; run_docs(c, &GS::default(), &gd, 4, 8, None) }
pub fn c10(c: &mut Ctx) {
    let gd = GD { alias_free: true, vars: 12, skips: 3, dirs: 0, ops: (1, 1), frags: c.rng.r(0, 6), width: c.rng.r(3, 6), depth: c.rng.r(2, 4), ..GD::default() };
    run_docs(c, &GS { defaults: 60, dirs: 0, descs: 0, deprecations: 0, ..GS::default() }, &gd, 8, 3, Some(&MERGE));
    let gd = GD { alias_free: false, ..gd };
    run_docs(c, &GS { dirs: 0, descs: 0, ..GS::default() }, &gd, 2, 8, Some(&MERGE));
    // one extra path to one field: at most one conflict, anywhere
    let gd = GD { frags: 3, width: 3, depth: c.rng.r(2, 5), skips: 0, ..gd };
    on_schema(c, &GS { dirs: 0, descs: 0, deprecations: 0, ..GS::default() }, |c, rs, schema, sdl| {
        for _ in 0..4 {
            let d = gendoc::doc(&mut c.rng, rs, &gd);
            for _ in 0..8 {
                let mut m = d.clone();
                let l = gendoc::shadow(&mut c.rng, rs, &mut m);
                c.obs(&format!("shadow:{l}"));
                if l == "none" { continue }
                let v = refval::validate(rs, &m);
                let conflict = v.must.iter().any(|k| MERGE.contains(k));
                c.obs(if conflict { "single-conflict" } else { "no-conflict" });
                judge(c, rs, schema, sdl, &m, Some(&MERGE));
            }
        }
    })
}
pub fn c11(c: &mut Ctx) {
    let gd = GD { vars: 70, skips: 15, var_defaults: 40, frags: 5, ops: (1, 4), dirs: 20, ..GD::default() };
    let gs = GS { descs: 0, deprecations: 0, ..GS::default() };
    on_schema(c, &gs, |c, rs, schema, sdl| {
        for _ in 0..4 {
            let d = gendoc::doc(&mut c.rng, rs, &gd);
            self_check(rs, sdl, &d);
            c.sample(|| json!({"schema": sdl, "document": doc_text(&d)}));
            judge(c, rs, schema, sdl, &d, Some(VARS));
            for _ in 0..9 {
                let mut m = d.clone();
                for _ in 0..c.rng.r(1, 2) { let l = if c.rng.p(75) { gendoc::mutate_vars(&mut c.rng, rs, &mut m) } else { gendoc::mutate(&mut c.rng, rs, &mut m) }; c.obs(&format!("edit:{l}")); }
                if m != d { judge(c, rs, schema, sdl, &m, Some(VARS)) }
            }
        }
    })
}

/// C12: the coercion entry point on every input type of the schema, and literals in documents.
pub fn c12(c: &mut Ctx) {
    let gs = GS { descs: 0, deprecations: 0, defaults: 50, ..GS::default() };
    on_schema(c, &gs, |c, rs, schema, sdl| {
        let mut n = 0;
        for t in schema.type_definitions() {
            if t.is_builtin() { continue }
            let mut go = |c: &mut Ctx, i: &bluejay_parser::ast::definition::InputType<'_, sys::MonCtx>| { n += 1; if n < 40 { coerce_one(c, rs, schema, sdl, i) } };
            match t {
                TR::Object(o) => for f in o.fields_definition().iter() { if let (false, Some(a)) = (f.is_builtin(), f.arguments_definition()) { for x in a.iter() { go(c, x.r#type()) } } },
                TR::InputObject(o) => for f in o.input_field_definitions().iter() { go(c, f.r#type()) },
                _ => {}
            }
        }
        let gd = GD { vars: 8, ..GD::default() };
        for _ in 0..2 {
            let d = gendoc::doc(&mut c.rng, rs, &gd);
            self_check(rs, sdl, &d);
            judge(c, rs, schema, sdl, &d, Some(COERCION));
            for _ in 0..6 {
                let mut m = d.clone();
                for _ in 0..c.rng.r(1, 2) { let l = gendoc::mutate_values(&mut c.rng, rs, &mut m); c.obs(&format!("edit:{l}")); }
                if m != d { judge(c, rs, schema, sdl, &m, Some(COERCION)) }
            }
        }
    })
}
fn coerce_one(c: &mut Ctx, rs: &RS, schema: &Schema, sdl: &str, it: &bluejay_parser::ast::definition::InputType<'_, sys::MonCtx>) {
    let ty = bj::ity(it);
    for k in 0..6 {
        let mut v = genschema::value(&mut c.rng, rs, &ty, 3);
        if k > 0 { let mut n = 0; gendoc::walk_val(&mut v, &mut |_| n += 1); let j = c.rng.n(n); let b = gendoc::bad_val(&mut c.rng, rs); let w = c.rng.n(8); let mut i = 0;
            gendoc::walk_val(&mut v, &mut |x| { if i == j { match (w, &mut *x) { (0, Val::Obj(o)) => { o.pop(); } (1, Val::Obj(o)) => o.push(("zz".into(), b.clone())), (2, Val::Obj(o)) => { if let Some(y) = o.first().cloned() { o.push(y) } } (3, Val::List(l)) => l.push(b.clone()), (4, Val::Obj(o)) => { if let Some(y) = o.last_mut() { y.1 = Val::Null } } _ => *x = b.clone() } } i += 1 }); }
        let text = val_text(&v);
        let want: BTreeSet<Wrong> = refcoerce::coerce(rs, &ty, &v, false, &["root".to_string()]).into_iter().collect();
        if k == 0 && !want.is_empty() { panic!("generated value is not valid for {}: {text} {want:?}\n{sdl}", ty.show()) }
        let pv = match Value::<true>::parse(text.as_str()) { Ok(v) => v, Err(e) => { c.fail("value-unparseable", format!("{:?}\n{text}", e.first())); return } };
        let _ = refparse::nesting(&text);
        let Some(got) = c.sut("coerce_const_value", || format!("{text} as {}\n{sdl}", ty.show()), || match schema.coerce_const_value(it, &pv, bluejay_validator::Path::new("root")) { Ok(()) => BTreeSet::new(), Err(e) => { let s: BTreeSet<Wrong> = e.iter().map(ie_kind).collect(); assert!(!s.is_empty(), "refused without an error"); s } }) else { return };
        c.eval(true, &format!("{}:{text}", ty.show()));
        c.sample(|| json!({"type": ty.show(), "value": text, "wrong": format!("{want:?}")}));
        c.obs(if want.is_empty() { "fits" } else { "refused" });
        for w in &want { c.obs(&format!("wrong:{}", w.kind)) }
        if want.is_empty() != got.is_empty() { return c.fail(if got.is_empty() { "coercion:accepts" } else { "coercion:rejects" }, format!("value {text} as {}: reported {got:?}, reference {want:?}\n{sdl}", ty.show())) }
        if let Some(x) = got.iter().find(|x| !want.contains(x)) { return c.fail("coercion:blames", format!("value {text} as {}: {x:?} is reported but that part is right (reference {want:?})\n{sdl}", ty.show())) }
    }
}
