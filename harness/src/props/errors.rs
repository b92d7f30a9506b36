//! C05: errors are complete, located at the offending token and rendered there.
use crate::emit::{layout, Emit};
use crate::gendoc::{self, GD};
use crate::genschema::{self, GS};
use crate::gensyn as g;
use crate::model::*;
use crate::props::valid::kind;
use crate::refparse::{self as rp};
use crate::run::Ctx;
use crate::rschema::RS;
use crate::schedit;
use crate::sys::{self, DDoc, Schema};
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::ast::Parse;
use bluejay_parser::Error as PErr;
use bluejay_validator::executable::document::{ArgumentError, BuiltinRulesValidator, DirectiveError, Error};
use bluejay_validator::executable::Cache;
use bluejay_validator::value::input_coercion::Error as IE;
use serde_json::json;
use std::collections::BTreeMap;

/// (line, column) of every byte offset that starts a character, and of the end: lines end at LF, CR or CRLF, columns count characters.
pub fn positions(text: &str) -> BTreeMap<(usize, usize), usize> {
    let mut m = BTreeMap::new();
    let (mut line, mut col) = (1, 1);
    let cs: Vec<(usize, char)> = text.char_indices().collect();
    for (i, (at, ch)) in cs.iter().enumerate() {
        m.insert((line, col), *at);
        let ends = *ch == '\n' || (*ch == '\r' && cs.get(i + 1).map(|x| x.1) != Some('\n'));
        if ends { line += 1; col = 1 } else { col += 1 }
    }
    m.insert((line, col), text.len());
    m
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct G { pub msg: String, pub at: Vec<usize> }

/// One error, as converted for a user, alone and with the rest of the failure.
pub struct Conv { pub each: Vec<Vec<G>>, pub rendered: String, pub messages: Vec<String> }

fn gql(text: &str, pos: &BTreeMap<(usize, usize), usize>, e: Vec<PErr>) -> Result<Vec<G>, String> {
    PErr::into_graphql_errors(text, e).into_iter().map(|x| {
        let mut at = vec![];
        for l in &x.locations { match pos.get(&(l.line, l.col)) { Some(b) => at.push(*b), None => return Err(format!("{:?} is located at line {} column {}, which does not exist", x.message, l.line, l.col)) } }
        Ok(G { msg: x.message.to_string(), at })
    }).collect()
}

/// Convert and render a failure (`make` yields its errors afresh) and check completeness.
pub fn convert(c: &mut Ctx, what: &str, text: &str, make: &dyn Fn() -> Vec<PErr>) -> Option<Conv> {
    let pos = positions(text);
    let r = c.sut(&format!("convert {what}"), || text.to_string(), || {
        let messages: Vec<String> = make().iter().map(|e| e.message().to_string()).collect();
        let all = gql(text, &pos, make());
        let alone: Vec<_> = make().into_iter().map(|e| gql(text, &pos, vec![e])).collect();
        let rendered = PErr::format_errors(text, Some("the file.graphql"), make());
        let blocks = { let mut b: Vec<String> = vec![]; for l in rendered.split_inclusive('\n') { if l.starts_with("Error: ") || b.is_empty() { b.push(String::new()) } b.last_mut().unwrap().push_str(l) } b.len() };
        (messages, all, alone, rendered, blocks)
    });
    let (messages, all, alone, rendered, blocks) = r?;
    let all = match all { Ok(x) => x, Err(e) => { c.fail("bad-location", format!("{e}\n--- {what}\n{text}")); return None } };
    let mut each = vec![];
    for a in alone { match a { Ok(x) => each.push(x), Err(e) => { c.fail("bad-location", format!("{e}\n--- {what}\n{text}")); return None } } }
    if messages.is_empty() { c.fail("no-error", format!("{what} fails without an error\n{text}")); return None }
    if each.iter().any(|e| e.is_empty()) { c.fail("dropped", format!("an error of {messages:?} is converted to nothing\n--- {what}\n{text}")) }
    let (mut x, mut y): (Vec<G>, Vec<G>) = (all, each.iter().flatten().cloned().collect()); x.sort(); y.sort();
    if x != y { c.fail("dropped", format!("converted together the errors are {x:?}, one at a time {y:?}\n--- {what}\n{text}")) }
    let multi = messages.iter().any(|m| m.contains('\n') || m.contains("Error: "));
    if !multi && blocks != messages.len() { c.fail("rendered-count", format!("{} errors are rendered as {blocks} reports\n{rendered}\n--- {what}\n{text}", messages.len())) }
    for m in &messages { if !rendered.contains(m.as_str()) { c.fail("rendered-message", format!("{m:?} is missing from the rendered errors\n{rendered}\n--- {what}\n{text}")) } }
    c.add("errors", messages.len() as u64); c.add("locations", y.iter().map(|g| g.at.len() as u64).sum());
    // rendered one at a time: file, position and lines
    let inv: BTreeMap<usize, (usize, usize)> = pos.iter().map(|(k, v)| (*v, *k)).collect();
    let exotic = text.chars().any(|ch| matches!(ch, '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}'));
    if !exotic {
        check_rendered(c, what, text, &each, &inv, make);
    }
    Some(Conv { each, rendered, messages })
}

fn check_rendered(c: &mut Ctx, what: &str, text: &str, each: &[Vec<G>], inv: &BTreeMap<usize, (usize, usize)>, make: &dyn Fn() -> Vec<PErr>) {
    // `make` may order its errors differently every time: render and convert the same error values in pairs is
    // not possible (they are consumed), so the comparison is between multisets of (message, positions).
    let mut rendered: Vec<(bool, Option<(usize, usize)>, Vec<usize>)> = vec![];
    for e in make() {
        let primary = format!("{e:?}").contains("primary_annotation: Some(");
        let Some(r) = c.sut("format_errors", || text.to_string(), || PErr::format_errors(text, Some("the file.graphql"), vec![e])) else { return };
        let head = r.lines().find_map(|l| l.split_once("╭─[the file.graphql:")).and_then(|(_, p)| p.strip_suffix(']')).and_then(|p| p.split_once(':')).and_then(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?)));
        let lines: Vec<usize> = r.lines().filter_map(|l| l.trim_start().split_once(" │")).filter_map(|(n, _)| n.parse().ok()).collect();
        rendered.push((primary, head, lines));
    }
    for g in each {
        let at: Vec<(usize, usize)> = g.iter().flat_map(|x| x.at.iter().map(|b| inv[b])).collect();
        // the end of a text that ends its last line has no line of its own to be shown on
        if at.is_empty() || g.iter().any(|x| x.at.contains(&text.len())) { continue }
        let ok = rendered.iter().any(|(primary, head, lines)| match head { Some(h) => (!primary || (g.len() == 1 && at.contains(h))) && at.iter().all(|(l, _)| lines.contains(l)), None => false });
        if !ok { c.fail("rendered-position", format!("no rendered error shows {at:?}: {rendered:?}\n--- {what}\n{text}")); return }
        c.obs("rendered");
    }
}

type Doc0<'a> = ExecutableDocument<'a>;

/// What the token at each location of a validation error must be, by the node the error is about.
fn expected<'a>(e: &Error<'a, Doc0<'a>, Schema<'a>>) -> Option<Vec<String>> {
    use bluejay_core::executable::{ExplicitOperationDefinition as _, Field as _, FragmentDefinition as _, FragmentSpread as _, OperationDefinition as _, VariableDefinition as _};
    use bluejay_core::Variable as _;
    use Error::*;
    let s = |x: &str| Some(vec![x.to_string()]);
    let one = |x: String| Some(vec![x]);
    fn arg<const C: bool>(e: &ArgumentError<'_, C, Doc0<'_>, Schema<'_>>) -> Option<Vec<String>> {
        use bluejay_core::{Argument as _, Directive as _};
        use bluejay_core::executable::Field as _;
        Some(match e {
            ArgumentError::NonUniqueArgumentNames { name, arguments } => vec![name.to_string(); arguments.len()],
            ArgumentError::ArgumentDoesNotExistOnField { argument, .. } => vec![bluejay_core::Argument::name(*argument).to_string()],
            ArgumentError::ArgumentDoesNotExistOnDirective { argument, .. } => vec![bluejay_core::Argument::name(*argument).to_string()],
            ArgumentError::DirectiveMissingRequiredArguments { directive, .. } => vec![format!("@{}", bluejay_core::Directive::name(*directive))],
            ArgumentError::FieldMissingRequiredArguments { field, .. } => vec![bluejay_core::executable::Field::name(*field).to_string()],
        })
    }
    fn dir<const C: bool>(e: &DirectiveError<'_, C, Doc0<'_>, Schema<'_>>) -> Option<Vec<String>> {
        Some(match e {
            DirectiveError::DirectiveDoesNotExist { directive } => vec![format!("@{}", bluejay_core::Directive::name(*directive))],
            DirectiveError::DirectiveInInvalidLocation { directive, .. } => vec![format!("@{}", bluejay_core::Directive::name(*directive))],
            DirectiveError::DirectivesNotUniquePerLocation { directives, .. } => directives.iter().map(|d| format!("@{}", bluejay_core::Directive::name(*d))).collect(),
        })
    }
    fn inp<const C: bool>(e: &IE<'_, C, bluejay_parser::ast::Value<'_, C>>) -> Option<Vec<String>> {
        use bluejay_core::{Value as _, ValueReference as VR};
        let tok = |v: &bluejay_parser::ast::Value<'_, C>| vec![match v.as_ref() { VR::List(_) => "[".to_string(), VR::Object(_) => "{".into(), VR::Variable(x) => format!("${}", bluejay_core::Variable::name(x)), VR::Null => "null".into(), VR::Boolean(b) => b.to_string(), VR::Enum(e) => e.to_string(), VR::Integer(_) => "#int".into(), VR::Float(_) => "#float".into(), VR::String(_) => "#string".into() }];
        Some(match e {
            IE::NullValueForRequiredType { .. } => vec!["null".into()],
            IE::NoImplicitConversion { value, .. } => tok(value),
            IE::NoEnumMemberWithName { value, .. } => tok(value),
            IE::NoValueForRequiredFields { value, .. } => tok(value),
            IE::NonUniqueFieldNames { field_name, keys, .. } => vec![field_name.to_string(); keys.len()],
            IE::NoInputFieldWithName { field, .. } => vec![AsRef::<str>::as_ref(*field).to_string()],
            IE::CustomScalarInvalidValue { value, .. } => tok(value),
            IE::OneOfInputNullValues { value, .. } => tok(value),
            IE::OneOfInputNotSingleNonNullValue { value, .. } => tok(value),
        })
    }
    match e {
        NonUniqueOperationNames { name, operations } => Some(vec![name.to_string(); operations.len()]),
        NotLoneAnonymousOperation { anonymous_operations } => Some(vec!["{".into(); anonymous_operations.len()]),
        SubscriptionRootNotSingleField { .. } => s("{"),
        FieldDoesNotExistOnType { field, .. } => s(bluejay_core::executable::Field::name(*field)),
        OperationTypeNotDefined { operation } => one(operation.as_ref_kind()),
        LeafFieldSelectionNotEmpty { .. } => s("{"),
        NonLeafFieldSelectionEmpty { field, .. } => s(bluejay_core::executable::Field::name(*field)),
        NonUniqueFragmentDefinitionNames { name, fragment_definitions } => Some(vec![name.to_string(); fragment_definitions.len()]),
        FragmentDefinitionTargetTypeDoesNotExist { fragment_definition } | FragmentDefinitionTargetTypeNotComposite { fragment_definition } => s(bluejay_core::executable::FragmentDefinition::type_condition(*fragment_definition)),
        InlineFragmentTargetTypeDoesNotExist { inline_fragment } | InlineFragmentTargetTypeNotComposite { inline_fragment } => s(bluejay_core::executable::InlineFragment::type_condition(*inline_fragment).unwrap_or("")),
        FragmentDefinitionUnused { fragment_definition } => s(bluejay_core::executable::FragmentDefinition::name(*fragment_definition)),
        FragmentSpreadTargetUndefined { fragment_spread } | FragmentSpreadIsNotPossible { fragment_spread, .. } | FragmentSpreadCycle { fragment_spread, .. } => s(bluejay_core::executable::FragmentSpread::name(*fragment_spread)),
        FieldSelectionsDoNotMergeIncompatibleTypes { .. } | FieldSelectionsDoNotMergeDifferingNames { .. } | FieldSelectionsDoNotMergeDifferingArguments { .. } => s("{"),
        InlineFragmentSpreadIsNotPossible { .. } => s("..."),
        NonUniqueVariableDefinitionNames { name, variable_definitions } => Some(vec![format!("${name}"); variable_definitions.len()]),
        VariableDefinitionUnused { variable_definition } => one(format!("${}", bluejay_core::executable::VariableDefinition::variable(*variable_definition))),
        VariableNotDefined { variable, .. } | InvalidVariableUsage { variable, .. } => one(format!("${}", bluejay_core::Variable::name(*variable))),
        VariableDefinitionTypeNotInput { .. } => s("#type"),
        InvalidConstValue(e) => inp(e), InvalidVariableValue(e) => inp(e),
        InvalidConstDirective(e) => dir(e), InvalidVariableDirective(e) => dir(e),
        InvalidConstArgument(e) => arg(e), InvalidVariableArgument(e) => arg(e),
    }
}
trait OpKindText { fn as_ref_kind(&self) -> String; }
impl<T: bluejay_core::executable::ExplicitOperationDefinition> OpKindText for T { fn as_ref_kind(&self) -> String { bluejay_core::executable::ExplicitOperationDefinition::operation_type(self).to_string() } }

fn tok_matches(text: &str, toks: &[rp::T], i: usize, want: &str) -> bool {
    let t = &text[toks[i].at..toks[i].end];
    match want {
        "#int" => matches!(toks[i].k, rp::K::Int(_)), "#float" => matches!(toks[i].k, rp::K::Float(_)), "#string" => matches!(toks[i].k, rp::K::Str(_)),
        "#type" => matches!(toks[i].k, rp::K::Name(_)) || t == "[",
        w if w.starts_with('@') => (t == "@" && toks.get(i + 1).map_or(false, |n| text[n.at..n.end] == w[1..])) || (t == &w[1..] && i > 0 && &text[toks[i - 1].at..toks[i - 1].end] == "@"),
        w => t == w,
    }
}

const MARK: &str = "zzMark";

/// Judge the locations of one failure: every location starts a token, and errors naming the marker are at the marker.
fn judge_tokens(c: &mut Ctx, what: &str, text: &str, toks: &[rp::T], conv: &Conv, messages: &[String]) {
    for g in conv.each.iter().flatten() {
        for at in &g.at {
            if !toks.iter().any(|t| t.at == *at) { return c.fail("not-a-token", format!("{:?} is located at byte {at}, where no token starts\n--- {what}\n{text}", g.msg)) }
        }
    }
    let Some(m) = toks.iter().position(|t| text[t.at..t.end].trim_start_matches('$').trim_matches('"') == MARK) else { return };
    for (e, msg) in conv.each.iter().zip(messages) {
        if !msg.contains(MARK) { continue }
        for g in e {
            for at in &g.at {
                let i = toks.iter().position(|t| t.at == *at).unwrap();
                let pre = |k: usize, p: &str| k > 0 && &text[toks[k - 1].at..toks[k - 1].end] == p;
                let mut j = m;
                if pre(j, "@") { j -= 1 }
                while pre(j, "[") && j > i { j -= 1 }
                c.obs("marker-located");
                let name = pre(m, "@") && i == m;
                if i != j && !name { return c.fail("wrong-token", format!("{msg:?} ({:?}) is located at {:?} (byte {at}), not at the marker (byte {})\n--- {what}\n{text}", g.msg, &text[toks[i].at..toks[i].end], toks[m].at)) }
            }
        }
    }
}

fn plain_tokens(e: &Emit) -> Vec<String> { e.t.clone() }

/// (message, token index) of every error, for comparing layouts.
fn by_index(conv: &Conv, offs: &[usize], len: usize) -> Vec<(String, Vec<String>)> {
    let mut v: Vec<(String, Vec<String>)> = conv.each.iter().flatten().map(|g| (g.msg.clone(), g.at.iter().map(|a| if *a >= len || offs.iter().all(|o| o < a) { "end".to_string() } else { match offs.iter().position(|o| o == a) { Some(i) => i.to_string(), None => format!("byte {a}") } }).collect())).collect();
    v.sort(); v
}

fn validate_errors<'a>(d: &'a Doc0<'a>, s: &'a Schema<'a>, cache: &'a Cache<'a, Doc0<'a>, Schema<'a>>) -> Vec<PErr> { BuiltinRulesValidator::validate(d, s, cache).map(PErr::from).collect() }

fn syntax(c: &mut Ctx, text: &str, schema: bool) -> Option<Conv> {
    let want = if schema { rp::parse_sdoc(text).err() } else { rp::parse_doc(text).err() };
    let want = want?;
    let make = || -> Vec<PErr> { if schema { DDoc::parse(text).err().unwrap_or_default() } else { ExecutableDocument::parse(text).err().unwrap_or_default() } };
    let what = if schema { "schema syntax" } else { "document syntax" };
    let conv = convert(c, what, text, &make)?;
    c.eval(true, text);
    if rp::lex(text).is_err() { c.obs("lexical-errors"); return Some(conv) }
    c.obs(if want.eof { "syntax-eof" } else { "syntax" });
    let toks = rp::lex(text).unwrap();
    let Some(first) = conv.each.iter().flatten().flat_map(|g| g.at.iter().copied()).min() else {
        if !toks.is_empty() { c.fail("no-location", format!("{:?} has no location\n--- {what}\n{text}", conv.messages)) }
        return Some(conv)
    };
    let end = toks.last().map(|t| t.end).unwrap_or(0);
    // a description that describes nothing may be reported instead of the token after it
    let desc = toks.iter().rev().find(|t| t.at < want.at).map_or(false, |t| matches!(t.k, rp::K::Str(_)) && t.at == first);
    let ok = desc || if want.eof { first >= end } else { first == want.at };
    if !ok { c.fail("syntax-location", format!("the first error {:?} is at byte {first}, but the text stops being derivable at byte {} ({})\n--- {what}\n{text}", conv.each, want.at, want.why)) }
    for g in conv.each.iter().flatten() { for at in &g.at { if *at < end && !toks.iter().any(|t| t.at == *at) { c.fail("not-a-token", format!("{:?} at byte {at}, where no token starts\n--- {what}\n{text}", g.msg)) } } }
    Some(conv)
}

pub fn c05(c: &mut Ctx) {
    match c.rng.n(4) { 0 => syntax_case(c), 1 => build_case(c), _ => valid_case(c) }
}

fn syntax_case(c: &mut Ctx) {
    let schema = c.rng.p(50);
    let r2 = c.rng.fork();
    let mut e = Emit::new(Some(r2));
    if schema { let d = g::sdoc(&mut c.rng); e.sdoc(&d) } else { let d = g::doc(&mut c.rng, c.size); e.doc(&d) }
    let base = plain_tokens(&e);
    for _ in 0..8 {
        let mut t = base.clone();
        let n = if c.rng.p(80) { 1 } else { 2 };
        for _ in 0..n { g::edit_tokens(&mut t, &mut c.rng); }
        if c.rng.p(10) { let k = c.rng.n(t.len() + 1); t.truncate(k) }
        let (a, oa) = layout(&t, &mut c.rng);
        if rp::nesting(&a) > 80 { continue }
        let Some(ca) = syntax(c, &a, schema) else { continue };
        let (b, ob) = layout(&t, &mut c.rng);
        if rp::lex(&a).is_err() || rp::lex(&b).is_err() { continue }
        let Some(cb) = syntax(c, &b, schema) else { c.fail("layout", format!("fails in one layout only\n{a}\n---\n{b}")); continue };
        let (x, y) = (by_index(&ca, &oa, a.len()), by_index(&cb, &ob, b.len()));
        c.obs("layout-pairs");
        if x != y { c.fail("layout", format!("the same tokens in two layouts give {x:?} and {y:?}\n{a}\n--- other layout\n{b}")) }
    }
    // characters: any text at all must give at least one well-placed error
    let (text, _) = layout(&base, &mut c.rng);
    for _ in 0..6 {
        let mut t = text.clone();
        for _ in 0..c.rng.r(1, 3) { t = g::edit_text(&t, &mut c.rng) }
        if rp::nesting(&t) > 80 || crate::props::parse::has_dollar_gap(&t) { continue }
        syntax(c, &t, schema);
    }
}

fn build_case(c: &mut Ctx) {
    let mut d = crate::props::print::gen(c);
    let marked = c.rng.p(60);
    let mut e;
    if marked {
        e = Emit::new(None); e.sdoc(&d);
        let names: Vec<usize> = (0..e.t.len()).filter(|i| e.t[*i].starts_with(|x: char| x.is_ascii_alphabetic() || x == '_')).collect();
        if names.is_empty() { return }
        let i = *c.rng.pick(&names); e.t[i] = MARK.into();
    } else {
        for _ in 0..c.rng.r(1, 3) { schedit::break_one(&mut d, &mut c.rng); }
        e = Emit::new(None); e.sdoc(&d);
    }
    let mut seen: Vec<Vec<(String, Vec<String>)>> = vec![];
    let mut texts = vec![];
    for _ in 0..2 {
        let (text, offs) = layout(&e.t, &mut c.rng);
        if rp::parse_sdoc(&text).is_err() { return }
        let Ok(doc) = DDoc::parse(&text) else { return };
        let make = || -> Vec<PErr> { Schema::try_from(&doc).err().map(|e| e.into_iter().map(PErr::from).collect()).unwrap_or_default() };
        if c.sut("build", || text.clone(), || Schema::try_from(&doc).is_ok()) != Some(false) { return }
        let toks = rp::lex(&text).unwrap();
        let Some(conv) = convert(c, "schema", &text, &make) else { return };
        c.eval(true, &text); c.obs("build-failures");
        let messages = conv.messages.clone();
        judge_tokens(c, "schema", &text, &toks, &conv, &messages);
        seen.push(by_index(&conv, &offs, text.len())); texts.push(text);
    }
    c.obs("layout-pairs");
    if seen[0] != seen[1] { c.fail("layout", format!("the same tokens in two layouts give {:?} and {:?}\n{}\n--- other layout\n{}", seen[0], seen[1], texts[0], texts[1])) }
}

fn valid_case(c: &mut Ctx) {
    let gs = GS::default();
    crate::props::valid::on_schema(c, &gs, |c, rs, schema, _| {
        for _ in 0..4 {
            let mut d = gendoc::doc(&mut c.rng, rs, &GD::default());
            let marked = c.rng.p(60);
            if !marked { for _ in 0..c.rng.r(1, 3) { gendoc::mutate(&mut c.rng, rs, &mut d); } }
            let mut e = Emit::new(None); e.doc(&d);
            if marked {
                let names: Vec<usize> = (0..e.t.len()).filter(|i| e.t[*i].starts_with(|x: char| x.is_ascii_alphabetic() || x == '_' || x == '$' || x == '"') && !(*i > 0 && matches!(e.t[*i - 1].as_str(), "query" | "mutation" | "subscription"))).collect();
                if names.is_empty() { continue }
                let i = *c.rng.pick(&names);
                e.t[i] = if e.t[i].starts_with('$') { format!("${MARK}") } else if e.t[i].starts_with('"') { format!("\"{MARK}\"") } else { MARK.into() };
            }
            one_valid(c, rs, schema, &e.t);
        }
    });
}

fn one_valid(c: &mut Ctx, _rs: &RS, schema: &Schema, toks: &[String]) {
    let mut seen: Vec<Vec<(String, Vec<String>)>> = vec![];
    let mut texts = vec![];
    for _ in 0..2 {
        let (text, offs) = layout(toks, &mut c.rng);
        if rp::parse_doc(&text).is_err() { return }
        let Ok(doc) = ExecutableDocument::parse(&text) else { return };
        let cache = Cache::new(&doc, schema);
        // SAFETY-free lifetime shortening: everything lives in this scope
        let n = match c.sut("validate", || text.clone(), || BuiltinRulesValidator::validate(&doc, schema, &cache).count()) { Some(n) => n, None => return };
        if n == 0 { c.obs("valid"); return }
        let rtoks = rp::lex(&text).unwrap();
        // by the node each error is about
        let pos = positions(&text);
        for e in BuiltinRulesValidator::validate(&doc, schema, &cache) {
            let k = kind(&e);
            let Some(want) = expected(&e) else { continue };
            let Some(r) = c.sut("convert", || text.clone(), || gql(&text, &pos, vec![PErr::from(e)])) else { return };
            let at: Vec<usize> = match r { Ok(g) => g.into_iter().flat_map(|g| g.at).collect(), Err(e) => return c.fail("bad-location", format!("{e}\n{text}")) };
            c.obs(&format!("located:{k}"));
            let mut uniq = at.clone(); uniq.sort(); uniq.dedup();
            let ok = at.len() == want.len() && uniq.len() == at.len() && at.iter().zip(&want).all(|(a, w)| rtoks.iter().position(|t| t.at == *a).map_or(false, |i| tok_matches(&text, &rtoks, i, w)));
            if !ok { return c.fail(&format!("wrong-token:{k}"), format!("{k} should be located at {want:?}, but is located at bytes {at:?} ({:?})\n{text}", at.iter().map(|a| text.get(*a..).unwrap_or("").chars().take(12).collect::<String>()).collect::<Vec<_>>())) }
        }
        let make = || validate_errors(&doc, schema, &cache);
        let Some(conv) = convert(c, "document", &text, &make) else { return };
        if conv.messages.len() != n { c.fail("dropped", format!("{n} errors, then {}\n{text}", conv.messages.len())) }
        c.eval(true, &text); c.obs("validation-failures");
        let messages = conv.messages.clone();
        judge_tokens(c, "document", &text, &rtoks, &conv, &messages);
        seen.push(by_index(&conv, &offs, text.len())); texts.push(text);
    }
    c.obs("layout-pairs");
    if seen[0] != seen[1] { c.fail("layout", format!("the same tokens in two layouts give {:?} and {:?}\n{}\n--- other layout\n{}", seen[0], seen[1], texts[0], texts[1])) }
}

pub fn c05_probes(c: &mut Ctx) {
    let t = "# x \u{2028} y\n{ a(";
    let r = PErr::format_errors(t, None, ExecutableDocument::parse(t).err().unwrap());
    if !r.contains(":2:5]") { c.fail("probe:render-exotic-line", format!("{t:?}: {r}")) }
}
