//! C01 C02 C03: parsing against the reference lexer/parser.
use crate::bj;
use crate::emit::{layout, Emit};
use crate::gensyn as g;
use crate::model::*;
use crate::refparse::{self as rp};
use crate::run::Ctx;
use bluejay_parser::ast::definition::{self as bd, DefaultContext, DefinitionDocument};
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::ast::{Parse, Value};
use serde_json::json;

const MAX_NEST: usize = 80;

fn norm(mut d: Doc) -> Doc { d.frags_first = false; d }

/// One monitored execution of the executable parser.
pub fn check_doc(c: &mut Ctx, text: &str, expect: Option<&Doc>) {
    if rp::nesting(text) > MAX_NEST { return }
    let want = match expect { Some(d) => Ok(norm(d.clone())), None => rp::parse_doc(text) };
    let Some(got) = c.sut("ExecutableDocument::parse", || text.to_string(), || ExecutableDocument::parse(text).map(|d| bj::doc(&d)).map_err(|e| format!("{} errors, first: {:?}", e.len(), e.first()))) else { return };
    c.eval(true, text);
    match (&got, &want) {
        (Ok(a), Ok(b)) => { c.obs("accepted"); if a != b { c.fail("ast", format!("parsed document differs from what is written\n--- text\n{text}\n--- parsed\n{a:?}\n--- written\n{b:?}")) } }
        (Err(_), Err(e)) => { c.obs("rejected"); c.obs(&format!("rejected-at:{}", e.why)); }
        (Ok(a), Err(e)) => c.fail("accepts-invalid", format!("accepted, but the grammar rejects it at byte {} ({})\n--- text\n{text}\n--- parsed\n{a:?}", e.at, e.why)),
        (Err(e), Ok(_)) => c.fail("rejects-valid", format!("rejected although the grammar derives it: {e}\n--- text\n{text}")),
    }
}

pub fn c01(c: &mut Ctx) {
    let d = g::doc(&mut c.rng, c.size);
    let r2 = c.rng.fork();
    let mut e = Emit::new(Some(r2)); e.doc(&d);
    let (text, _) = layout(&e.t, &mut c.rng);
    c.sample(|| json!(text));
    // self-check of the machinery: the reference parser must agree with the generator
    match rp::parse_doc(&text) { Ok(x) if x == norm(d.clone()) => {} other => panic!("reference parser disagrees with generator on\n{text}\n{other:?}\n{d:?}") }
    check_doc(c, &text, Some(&d));
    // token edits
    for _ in 0..12 {
        let mut t = e.t.clone();
        let n = if c.rng.p(70) { 1 } else { c.rng.r(2, 4) };
        for _ in 0..n { let l = g::edit_tokens(&mut t, &mut c.rng); c.obs(&format!("edit:{l}")); }
        let (text, _) = layout(&t, &mut c.rng);
        check_doc(c, &text, None);
    }
    // character edits
    for _ in 0..12 {
        let mut t = text.clone();
        for _ in 0..c.rng.r(1, 3) { t = g::edit_text(&t, &mut c.rng) }
        if has_dollar_gap(&t) { continue }
        check_doc(c, &t, None);
    }
    // whole-grammar neighbourhood of a small document: every single-token deletion and replacement
    if c.rng.p(15) && e.t.len() < 60 {
        for i in 0..e.t.len() {
            let mut t = e.t.clone(); t.remove(i); check_doc(c, &t.join(" "), None);
            for x in ["{", "}", "(", ")", ":", "on", "@", "...", "$v", "name", "1", "!"] { let mut t = e.t.clone(); t[i] = x.into(); check_doc(c, &t.join(" "), None); }
            for x in ["{", "}", "(", ")", "[", "]", "name", "$v", "\"s\"", ":", "!", "@d", "..."] { let mut t = e.t.clone(); t.insert(i, x.into()); check_doc(c, &t.join(" "), None); }
        }
        c.obs("exhaustive-neighbourhood");
    }
}
/// `$` separated from its name by ignorable text is grammatical but a recorded finding.
pub fn has_dollar_gap(t: &str) -> bool { let b: Vec<char> = t.chars().collect(); (0..b.len()).any(|i| b[i] == '$' && b.get(i + 1).map_or(true, |c| matches!(c, ' ' | ',' | '\t' | '\n' | '\r' | '#' | '\u{feff}'))) }

pub fn c01_probes(c: &mut Ctx) {
    c.evals += 1;
    let t = "query ($ a: Int) { f(x: $ a) }";
    if ExecutableDocument::parse(t).is_err() { c.fail("probe:dollar-space", format!("`$` and the variable name are separate tokens, so this must parse: {t}")) }
}

fn parse_single(t: &TypeDef, text: &str) -> Result<TypeDef, String> {
    use bluejay_core::definition::TypeDefinitionReference as TR;
    type TD<'a> = bd::TypeDefinition<'a, DefaultContext>;
    macro_rules! go { ($ty:ident, $v:ident) => { bd::$ty::<DefaultContext>::parse(text).map(|x| bj::typedef::<TD>(TR::$v(&x), false)).map_err(|e| format!("{e:?}")) } }
    match t.kind {
        Kind::Scalar => go!(CustomScalarTypeDefinition, CustomScalar), Kind::Object { .. } => go!(ObjectTypeDefinition, Object), Kind::Interface { .. } => go!(InterfaceTypeDefinition, Interface),
        Kind::Union { .. } => go!(UnionTypeDefinition, Union), Kind::Enum { .. } => go!(EnumTypeDefinition, Enum), Kind::Input { .. } => go!(InputObjectTypeDefinition, InputObject),
    }
}

pub fn check_sdoc(c: &mut Ctx, text: &str, expect: Option<&SDoc>) {
    if rp::nesting(text) > MAX_NEST { return }
    let want = match expect { Some(d) => Ok(d.clone()), None => rp::parse_sdoc(text) };
    let Some(got) = c.sut("DefinitionDocument::parse", || text.to_string(), || {
        DefinitionDocument::<DefaultContext>::parse(text).map(|d| {
            use bluejay_core::definition::DirectiveDefinition as _;
            (d.definition_count(), d.directive_definitions().iter().filter(|d| !d.is_builtin()).map(|d| bj::dirdef(d)).collect::<Vec<_>>())
        }).map_err(|e| format!("{} errors, first: {:?}", e.len(), e.first()))
    }) else { return };
    c.eval(true, text);
    match (got, want) {
        (Ok((n, dd)), Ok(w)) => {
            c.obs("accepted");
            if n != w.defs.len() { return c.fail("definition-count", format!("{n} definitions read, {} written\n--- text\n{text}", w.defs.len())) }
            let wd: Vec<DirDef> = w.dirs().cloned().collect();
            let wd: Vec<DirDef> = wd.into_iter().filter(|d| dd.iter().any(|x| x.name == d.name) || !["skip", "include", "deprecated", "specifiedBy", "oneOf"].contains(&d.name.as_str())).collect();
            if dd != wd { return c.fail("directive-definitions", format!("directive definitions differ\n--- text\n{text}\n--- read\n{dd:?}\n--- written\n{wd:?}")) }
            if expect.is_some() {
                // definition by definition
                for t in w.types() {
                    let r = c.rng.fork();
                    let mut e = Emit::new(Some(r)); e.typedef(t);
                    let (txt, _) = layout(&e.t, &mut c.rng);
                    let Some(x) = c.sut("definition parse", || txt.clone(), || parse_single(t, &txt)) else { return };
                    match x {
                        Ok(x) => if &x != t { return c.fail("definition", format!("definition differs from what is written\n--- text\n{txt}\n--- read\n{x:?}\n--- written\n{t:?}")) } else { c.obs(&format!("definition:{}", t.kind.word())) },
                        Err(e) => return c.fail("rejects-valid", format!("single definition rejected: {e}\n--- text\n{txt}")),
                    }
                }
            }
        }
        (Err(_), Err(e)) => { c.obs("rejected"); c.obs(&format!("rejected-at:{}", e.why)); }
        (Ok(_), Err(e)) => c.fail("accepts-invalid", format!("accepted, but the grammar rejects it at byte {} ({})\n--- text\n{text}", e.at, e.why)),
        (Err(e), Ok(_)) => c.fail("rejects-valid", format!("rejected although the grammar derives it: {e}\n--- text\n{text}")),
    }
}

pub fn c02(c: &mut Ctx) {
    let d = g::sdoc(&mut c.rng);
    let r2 = c.rng.fork();
    let mut e = Emit::new(Some(r2)); e.sdoc(&d);
    let (text, _) = layout(&e.t, &mut c.rng);
    c.sample(|| json!(text));
    match rp::parse_sdoc(&text) { Ok(x) if x == d => {} other => panic!("reference parser disagrees with generator on\n{text}\n{other:?}\n{d:?}") }
    check_sdoc(c, &text, Some(&d));
    for _ in 0..14 {
        let mut t = e.t.clone();
        let n = if c.rng.p(70) { 1 } else { c.rng.r(2, 4) };
        for _ in 0..n { let l = g::edit_tokens(&mut t, &mut c.rng); c.obs(&format!("edit:{l}")); }
        let (text, _) = layout(&t, &mut c.rng);
        check_sdoc(c, &text, None);
    }
    for _ in 0..8 {
        let mut t = text.clone();
        for _ in 0..c.rng.r(1, 3) { t = g::edit_text(&t, &mut c.rng) }
        if has_dollar_gap(&t) { continue }
        check_sdoc(c, &t, None);
    }
    if c.rng.p(10) && e.t.len() < 60 {
        for i in 0..e.t.len() {
            let mut t = e.t.clone(); t.remove(i); check_sdoc(c, &t.join(" "), None);
            for x in ["{", "}", "(", ")", ":", "on", "@", "|", "&", "name", "\"d\"", "!"] { let mut t = e.t.clone(); t[i] = x.into(); check_sdoc(c, &t.join(" "), None); }
            for x in ["{", "}", "(", ")", "[", "]", "name", "|", "&", "\"s\"", ":", "!", "@d", "= 1"] { let mut t = e.t.clone(); t.insert(i, x.into()); check_sdoc(c, &t.join(" "), None); }
        }
        c.obs("exhaustive-neighbourhood");
    }
}

fn check_value(c: &mut Ctx, text: &str, nontrivial: bool) {
    if rp::nesting(text) > MAX_NEST { return }
    // as the whole of a single-argument document, so that nothing after the value is ignored
    let src = format!("{{f(a:{text}\n)}}");
    let want = rp::parse_doc(&src);
    let Some(got) = c.sut("parse literal", || src.clone(), || ExecutableDocument::parse(&src).map(|d| bj::doc(&d)).map_err(|e| format!("{:?}", e.first()))) else { return };
    c.eval(nontrivial, text);
    match (&got, &want) {
        (Ok(a), Ok(b)) => { c.obs("decoded"); if a != b { c.fail("value", format!("literal decodes to another value\n--- literal\n{text}\n--- decoded\n{:?}\n--- denotes\n{:?}", a.ops[0].sel, b.ops[0].sel)) } }
        (Err(_), Err(e)) => { c.obs("refused"); c.obs(&format!("refused:{}", e.why)) }
        (Ok(a), Err(e)) => c.fail("accepts-invalid-literal", format!("literal has no value ({}) but is accepted\n--- literal\n{text}\n--- decoded\n{:?}", e.why, a.ops[0].sel)),
        (Err(e), Ok(b)) => c.fail("rejects-valid-literal", format!("literal denotes {:?} but is rejected: {e}\n--- literal\n{text}", b.ops[0].sel)),
    }
    // the same literal alone (no surrounding document)
    if let Ok(v) = rp::parse_value(text, true) {
        let Some(x) = c.sut("parse value", || text.to_string(), || Value::<true>::parse(text).map(|v| bj::val(&v)).map_err(|e| format!("{e:?}"))) else { return };
        if x.as_ref() != Ok(&v) { c.fail("bare-value", format!("bare literal\n{text}\ndecodes to {x:?}, denotes {v:?}")) }
        // and as a description
        if let Val::Str(s) = &v {
            let src = format!("{text}\nscalar S");
            let Some(x) = c.sut("parse description", || src.clone(), || bd::CustomScalarTypeDefinition::<DefaultContext>::parse(&src).map(|x| bluejay_core::definition::ScalarTypeDefinition::description(&x).map(str::to_string)).map_err(|e| format!("{e:?}"))) else { return };
            if x != Ok(Some(s.clone())) { c.fail("description", format!("description\n{text}\nreads as {x:?}, denotes {s:?}")) }
        }
    }
}

pub fn c03(c: &mut Ctx) {
    let r = &mut c.rng;
    let mut lits: Vec<String> = vec![];
    // strings built from source fragments (valid and invalid escapes)
    for _ in 0..6 {
        const F: &[&str] = &["a", "b c", "\\n", "\\t", "\\r", "\\b", "\\f", "\\/", "\\\\", "\\\"", "\\u0041", "\\u00e9", "\\uABCD", "\\uD83D\\uDD25", "\\ud83d\\udd25", "\\u{1F525}", "\\u{41}", "\\u{10FFFF}", "\\u{0}", "\\u{00000041}", "é", "🔥", "\u{2028}", "'", "\t", "{", "#", "  ", "\u{feff}", "\\uDBFF\\uDFFF", "\\uD800\\uDC00", "\\uFFFF", "\\u0000", "\\uE000", "\\uD7FF", "\u{7f}"];
        const BAD: &[&str] = &["\\uD83D", "\\uDD25", "\\u{110000}", "\\u{D800}", "\\u{}", "\\u{g}", "\\u12", "\\x", "\\", "\n", "\r", "\\u", "\\u{", "\\u{41", "\\uDC00\\uD800", "\\uD800\\uD800", "\\u{100000000}", "\\a", "\\uD83D\\u0041", "\\U0041", "\\0", "\\'", "\\u004", "\\uZZZZ"];
        let n = r.r(0, 8);
        let mut s = String::from("\"");
        for _ in 0..n { s.push_str(if r.p(6) { r.ps(BAD) } else { r.ps(F) }) }
        s.push('"'); lits.push(s);
    }
    // block strings from raw fragments
    for _ in 0..8 {
        const F: &[&str] = &["a", "text here", " ", "  ", "    ", "\t", "\n", "\n", "\n", "\r\n", "\r", "\\\"\"\"", "\"", "\"\"", "\\", "\\n", "é", "🔥", "\\u0041", "\n\n", "\n  ", "\n    ", "\n\t", "\n x", "\u{2028}", "\u{a0}", "#", "x"];
        let n = r.r(0, 12);
        let mut s = String::from("\"\"\"");
        for _ in 0..n { s.push_str(r.ps(F)) }
        s.push_str("\"\"\""); if r.p(8) { s = g::edit_text(&s, r) } lits.push(s);
    }
    // numbers
    for _ in 0..8 {
        const D: &[&str] = &["0", "1", "9", "12", "007", "10", "2147483647", "2147483648", "-2147483648", "-2147483649", "-0", "-", "--1", "+1", "00", "01", "9999999999999999999999", "123456789"];
        let mut s = r.pick(D).to_string();
        if r.p(55) { s.push_str(*r.pick(&[".", ".0", ".5", ".00", ".123456789012345678901234567890", ".", "..", ".e1", ".0e5", ".1.2"])) }
        if r.p(50) { s.push_str(*r.pick(&["e", "e1", "E10", "e+5", "e-5", "E-300", "e308", "e309", "e400", "e-400", "E+0", "e00", "e1.5", "e--1"])) }
        if r.p(10) { s.push_str(*r.pick(&["a", "_", "e", "x1", ".", "\"\"", "-1", "$v", "é"])) }
        lits.push(s);
    }
    for _ in 0..3 { let f = g::float(r); lits.push(format!("{:e}", f)); lits.push(format!("{:?}", f)); lits.push(g::int(r).to_string()); }
    // digits with many places around representable boundaries
    for _ in 0..2 { let m = r.u64(); let ex = r.n(40) as i64 - 20; lits.push(format!("{}.{}e{}", m % 1000, r.u64(), ex)); lits.push(format!("{}e{}", m, r.n(330) as i64 - 40)) }
    c.sample(|| json!(lits));
    for l in &lits { check_value(c, l, l.len() > 2) }
    // nested in lists and objects
    let a: Vec<&String> = lits.iter().filter(|l| rp::parse_value(l, true).is_ok()).collect();
    if a.len() >= 3 {
        let (i, j, k) = (c.rng.n(a.len()), c.rng.n(a.len()), c.rng.n(a.len()));
        let t = format!("[{} {{k:{},l:[{}]}} ]", a[i], a[j], a[k]);
        check_value(c, &t, true);
    }
}
