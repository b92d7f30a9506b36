//! Reference input coercion (section 3, "Input Coercion"), for literals and for JSON values.
use crate::model::*;
use crate::rschema::RS;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Wrong { pub path: Vec<String>, pub kind: &'static str }

/// The custom scalars' own rules (used by the context handed to bluejay and by the oracle).
pub fn custom_ok(name: &str, v: &Val) -> bool {
    match name {
        "Even" => matches!(v, Val::Int(i) if i % 2 == 0),
        "Blob" => matches!(v, Val::Obj(_) | Val::Str(_)),
        _ => true,
    }
}

pub fn coerce(rs: &RS, ty: &Ty, v: &Val, json: bool, path: &[String]) -> Vec<Wrong> {
    let mut o = vec![]; go(rs, ty, v, json, true, &mut path.to_vec(), &mut o); o
}
fn go(rs: &RS, ty: &Ty, v: &Val, json: bool, implicit: bool, p: &mut Vec<String>, o: &mut Vec<Wrong>) {
    let w = |p: &Vec<String>, kind| Wrong { path: p.clone(), kind };
    match v {
        Val::Var(_) => return,
        Val::Null => { if ty.req() { o.push(w(p, "NullValueForRequiredType")) } return }
        _ => {}
    }
    match ty {
        Ty::List(inner, _) => match v {
            Val::List(l) => for (i, x) in l.iter().enumerate() { p.push(i.to_string()); go(rs, inner, x, json, false, p, o); p.pop(); },
            _ if implicit => go(rs, inner, v, json, true, p, o),
            _ => o.push(w(p, "NoImplicitConversion")),
        },
        Ty::Named(n, _) => {
            let Some(t) = rs.ty(n) else { return };
            match &t.kind {
                Kind::Scalar => {
                    let ok = match n.as_str() {
                        "Int" => matches!(v, Val::Int(_)), "Float" => matches!(v, Val::Int(_) | Val::Float(_)),
                        "String" => matches!(v, Val::Str(_)), "Boolean" => matches!(v, Val::Bool(_)), "ID" => matches!(v, Val::Int(_) | Val::Str(_)),
                        _ => { if !custom_ok(n, v) { o.push(w(p, "CustomScalarInvalidValue")) } return }
                    };
                    if !ok { o.push(w(p, "NoImplicitConversion")) }
                }
                Kind::Enum { values } => match v {
                    Val::Enum(e) => if !values.iter().any(|x| &x.name == e) { o.push(w(p, "NoEnumMemberWithName")) },
                    Val::Str(e) if json => if !values.iter().any(|x| &x.name == e) { o.push(w(p, "NoEnumMemberWithName")) },
                    _ => o.push(w(p, "NoImplicitConversion")),
                },
                Kind::Input { fields } => {
                    let Val::Obj(obj) = v else { o.push(w(p, "NoImplicitConversion")); return };
                    let mut missing = false;
                    let mut seen: Vec<&str> = vec![]; let mut dup: Vec<&str> = vec![];
                    for (k, x) in obj {
                        if seen.contains(&k.as_str()) { if !dup.contains(&k.as_str()) { dup.push(k); o.push(w(p, "NonUniqueFieldNames")) } }
                        let first = !seen.contains(&k.as_str()); seen.push(k);
                        match fields.iter().find(|f| &f.name == k) {
                            None => { p.push(k.clone()); o.push(w(p, "NoInputFieldWithName")); p.pop(); }
                            // a repeated field is an error by itself: only its first value is judged further
                            Some(f) => if first { p.push(k.clone()); go(rs, &f.ty, x, json, true, p, o); p.pop(); },
                        }
                    }
                    for f in fields { if f.ty.req() && f.default.is_none() && !seen.contains(&f.name.as_str()) { missing = true } }
                    if missing { o.push(w(p, "NoValueForRequiredFields")) }
                    if rs.is_one_of(n) {
                        if obj.iter().any(|x| x.1 == Val::Null) { o.push(w(p, "OneOfInputNullValues")) }
                        if obj.iter().filter(|x| x.1 != Val::Null).count() != 1 { o.push(w(p, "OneOfInputNotSingleNonNullValue")) }
                    }
                }
                _ => {}
            }
        }
    }
}
