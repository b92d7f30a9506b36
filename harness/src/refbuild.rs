//! Reference judgement: can this schema document be built into a schema?
use crate::model::*;
use crate::rschema::intro;
use std::collections::{BTreeMap, BTreeSet};

/// Reasons why the document cannot be built; empty when it can.
pub fn reasons(d: &SDoc) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    let mut kinds: BTreeMap<&str, &Kind> = BTreeMap::new();
    let scalar = Kind::Scalar;
    for b in BUILTIN_SCALARS { kinds.insert(b, &scalar); }
    for t in intro().types() { kinds.insert(&t.name, &t.kind); }
    let mut seen = BTreeSet::new();
    for t in d.types() {
        if !seen.insert(&t.name) || intro().types().any(|x| x.name == t.name) { out.insert("duplicate-type".to_string()); } else { kinds.insert(&t.name, &t.kind); }
    }
    if d.types().any(|t| BUILTIN_SCALARS.contains(&t.name.as_str()) && !matches!(t.kind, Kind::Scalar)) { out.insert("builtin-scalar-kind".into()); }
    let mut dseen = BTreeSet::new();
    for x in d.dirs() { if !dseen.insert(x.name.as_str()) { out.insert("duplicate-directive".to_string()); } }
    for x in intro().dirs() { dseen.insert(&x.name); }

    fn dirs(ds: &[Dir], known: &BTreeSet<&str>, out: &mut BTreeSet<String>) { for x in ds { if !known.contains(x.name.as_str()) { out.insert("unknown-directive".to_string()); } } }
    let inputs = |v: &[InputVal], out: &mut BTreeSet<String>| for i in v {
        match kinds.get(i.ty.base()) { None => { out.insert("unknown-type".into()); } Some(Kind::Scalar | Kind::Enum { .. } | Kind::Input { .. }) => {} _ => { out.insert("not-input".into()); } }
        dirs(&i.dirs, &dseen, out);
    };
    for def in &d.defs {
        match def {
            SDef::Schema(s) => dirs(&s.dirs, &dseen, &mut out),
            SDef::Dir(x) => inputs(&x.args, &mut out),
            SDef::Type(t) => {
                dirs(&t.dirs, &dseen, &mut out);
                for f in t.fields() {
                    match kinds.get(f.ty.base()) { None => { out.insert("unknown-type".into()); } Some(Kind::Input { .. }) => { out.insert("not-output".into()); } _ => {} }
                    inputs(&f.args, &mut out);
                    dirs(&f.dirs, &dseen, &mut out);
                }
                for i in t.ifaces() { match kinds.get(i.as_str()) { None => { out.insert("unknown-type".into()); } Some(Kind::Interface { .. }) => {} _ => { out.insert("not-interface".into()); } } }
                for m in t.members() { match kinds.get(m.as_str()) { None => { out.insert("unknown-type".into()); } Some(Kind::Object { .. }) => {} _ => { out.insert("member-not-object".into()); } } }
                for v in t.values() { dirs(&v.dirs, &dseen, &mut out) }
                inputs(t.input_fields(), &mut out);
            }
        }
    }
    let schemas: Vec<&SchemaDef> = d.schemas().collect();
    if schemas.len() > 1 { out.insert("several-schema-definitions".into()); }
    else if let Some(s) = schemas.first() {
        for k in OpKind::ALL {
            let r: Vec<&(OpKind, String)> = s.roots.iter().filter(|x| x.0 == k).collect();
            if r.len() > 1 { out.insert("duplicate-root".into()); }
            if r.is_empty() && k == OpKind::Query { out.insert("no-query".into()); }
            for (_, n) in r { match kinds.get(n.as_str()) { None => { out.insert("unknown-root".into()); } Some(Kind::Object { .. }) => {} _ => { out.insert("root-not-object".into()); } } }
        }
    } else {
        for n in ["Query", "Mutation", "Subscription"] { match kinds.get(n) { None => { if n == "Query" { out.insert("no-query".into()); } } Some(Kind::Object { .. }) => {} _ => { out.insert("root-not-object".into()); } } }
    }
    out
}
