//! The work of C26: what the sanitized, interpreted and native runs do with a job.
use crate::bj;
use crate::coin::CoinWarden;
use crate::deep;
use crate::rng::{hash_str, mix, Rng};
use crate::sys::{DDoc, Schema};
use bluejay_core::definition::{self as cd, prelude::*, SchemaDefinition, TypeDefinitionReference as TR};
use bluejay_core::AsIter;
use bluejay_parser::ast::definition as pd;
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::ast::{Parse, Value, VariableValue};
use bluejay_parser::Error as PErr;
use bluejay_printer::definition::SchemaDefinitionPrinter;
use bluejay_printer::executable::ExecutableDocumentPrinter;
use bluejay_printer::value::ValuePrinter;
use bluejay_validator::definition::BuiltinRulesValidator as DefRules;
use bluejay_validator::executable::document::BuiltinRulesValidator;
use bluejay_validator::executable::operation::analyzers::complexity_cost::{DefaultCostComputer, RelayCostComputer};
use bluejay_validator::executable::operation::analyzers::{ComplexityCost, Deprecation, InputSize, QueryDepth, VariableValuesAreValid};
use bluejay_validator::executable::operation::Orchestrator;
use bluejay_validator::executable::Cache;
use bluejay_visibility as bv;
use std::collections::BTreeMap;
use std::marker::PhantomData;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Job { pub seed: u64, pub sdl: String, pub sdl2: String, pub docs: Vec<String>, pub texts: Vec<String> }

pub fn write_jobs(jobs: &[Job]) -> String {
    let mut o = String::new();
    let mut put = |s: &str| { o.push_str(&format!("{}\n", s.len())); o.push_str(s); o.push('\n') };
    put(&jobs.len().to_string());
    for j in jobs { put(&j.seed.to_string()); put(&j.sdl); put(&j.sdl2); put(&j.docs.len().to_string()); for d in &j.docs { put(d) } put(&j.texts.len().to_string()); for d in &j.texts { put(d) } }
    o
}
pub fn read_jobs(s: &str) -> Vec<Job> {
    let mut at = 0;
    let mut get = || { let nl = at + s[at..].find('\n').unwrap(); let n: usize = s[at..nl].parse().unwrap(); let v = s[nl + 1..nl + 1 + n].to_string(); at = nl + 2 + n; v };
    let n: usize = get().parse().unwrap();
    (0..n).map(|_| { let seed = get().parse().unwrap(); let sdl = get(); let sdl2 = get(); let d: usize = get().parse().unwrap(); let docs = (0..d).map(|_| get()).collect(); let t: usize = get().parse().unwrap(); let texts = (0..t).map(|_| get()).collect(); Job { seed, sdl, sdl2, docs, texts } }).collect()
}

// ---- the work ----
/// what a run saw: every text the library produced, each known to be sound UTF-8
#[derive(Default)]
pub struct Seen { pub light: bool, pub out: String, pub n: BTreeMap<&'static str, u64>, pub bad: Vec<String> }
impl Seen {
    fn o(&mut self, k: &'static str) { *self.n.entry(k).or_default() += 1 }
    fn text(&mut self, what: &'static str, s: &str) {
        self.o(what);
        match std::str::from_utf8(s.as_bytes()) { Ok(s) => { self.out.push_str(s); self.out.push('\n') } Err(e) => self.bad.push(format!("{what} is not UTF-8: {e}")) }
    }
    fn errors(&mut self, text: &str, make: &dyn Fn() -> Vec<PErr>) {
        for e in PErr::into_graphql_errors(text, make()) { let m = e.message.to_string(); self.text("error", &m); for l in e.locations { self.out.push_str(&format!("{}:{} ", l.line, l.col)) } }
        let v = make(); if v.len() < 20 && text.len() < if self.light { if hash_str(text) % 4 == 0 { 40 } else { 0 } } else { 4000 } { let f = PErr::format_errors(text, None, v); self.text("rendered", &f) }
    }
}
/// parsing and everything before a schema exists
pub fn texts(j: &Job, s: &mut Seen) {
    s.light = j.tiny();
    for t in j.texts.iter().chain(&j.docs) {
        match ExecutableDocument::parse(t) {
            Ok(d) => { let p = ExecutableDocumentPrinter::to_string(&d); s.text("printed-document", &p); let m = bj::doc(&d); s.out.push_str(&format!("{} {}", m.ops.len(), m.frags.len())) }
            Err(_) => s.errors(t, &|| ExecutableDocument::parse(t).err().map(|e| e.into_iter().collect()).unwrap_or_default()),
        }
        if s.light && hash_str(t) % 3 > 0 { continue }
        match DDoc::parse(t) { Ok(_) => s.o("definition"), Err(_) => s.errors(t, &|| DDoc::parse(t).err().map(|e| e.into_iter().collect()).unwrap_or_default()) }
        if let Ok(v) = VariableValue::parse(t) { let p = ValuePrinter::to_string(&v); s.text("value", &p) }
        if let Ok(v) = Value::<true>::parse(t) { let p = ValuePrinter::to_string(&v); s.text("value", &p) }
    }
}
pub fn view<S: SchemaDefinition>(v: &S, s: &mut Seen) {
    let d = deep::check(v); s.out.push_str(&format!("{} {:?}", d.refs, d.problems));
    let p = SchemaDefinitionPrinter::to_string(v); s.text("printed-schema", &p);
}
fn parts<S: SchemaDefinition>(t: &TR<'_, S::TypeDefinition>) -> String {
    let mut o = format!("{} {:?}", t.name(), t.description());
    if let Some(f) = t.fields_definition() { for f in f.iter() { o.push_str(&format!(" {}:{}", cd::FieldDefinition::name(f), cd::FieldDefinition::r#type(f).display_name())) } }
    match t {
        TR::Enum(e) => for x in cd::EnumTypeDefinition::enum_value_definitions(*e).iter() { o.push_str(&format!(" {}", cd::EnumValueDefinition::name(x))) },
        TR::Union(u) => for x in cd::UnionTypeDefinition::union_member_types(*u).iter() { o.push_str(&format!(" {}", cd::UnionMemberType::name(x))) },
        TR::InputObject(u) => for x in cd::InputObjectTypeDefinition::input_field_definitions(*u).iter() { o.push_str(&format!(" {}", cd::InputValueDefinition::name(x))) },
        TR::Object(u) => for x in cd::ObjectTypeDefinition::interface_implementations(*u).into_iter().flat_map(|i| i.iter()) { o.push_str(&format!(" &{}", cd::InterfaceImplementation::name(x))) },
        TR::Interface(u) => for x in cd::InterfaceTypeDefinition::interface_implementations(*u).into_iter().flat_map(|i| i.iter()) { o.push_str(&format!(" &{}", cd::InterfaceImplementation::name(x))) },
        _ => {}
    }
    o
}
/// one filtered view, its parts first touched in an order that `how` decides
pub fn filtered<'a>(j: &Job, sch: &Schema<'a>, how: u64, s: &mut Seen) -> Option<String> {
    let rate = [0, 5, 20, 50][(j.seed % 4) as usize];
    let cache = bv::Cache::new(CoinWarden::new(j.seed, rate), sch);
    let v = bv::SchemaDefinition::new(&cache).ok()?;
    s.o("views");
    let mut r = Rng::new(mix(j.seed ^ how));
    let mut held: Vec<(TR<'_, _>, String)> = vec![];
    if how > 0 {
        // references taken early, while nearly nothing was built, stay what they are
        let mut names: Vec<String> = sch.type_definitions().map(|t| t.name().to_string()).collect();
        names.push("Nope".into()); r.shuffle(&mut names);
        for n in names.iter().take(1 + r.n(8)) { if let Some(t) = v.get_type_definition(n) { let p = parts::<bv::SchemaDefinition<_, _>>(&t); held.push((t, p)) } }
        let docs: Vec<&String> = j.docs.iter().collect();
        for d in docs.iter().take(r.n(3)) { if let Ok(d) = ExecutableDocument::parse(d) { let k = Cache::new(&d, &v); s.o("validated"); s.out.push_str(if r.p(50) { "" } else { " " }); BuiltinRulesValidator::validate(&d, &v, &k).count(); } }
        if r.p(50) { for t in v.type_definitions() { let p = parts::<bv::SchemaDefinition<_, _>>(&t); held.push((t, p)) } }
    }
    let mut one = Seen::default(); view(&v, &mut one);
    s.bad.append(&mut one.bad); for (k, n) in one.n { *s.n.entry(k).or_default() += n }
    for (t, p) in &held { s.o("held-references"); let now = parts::<bv::SchemaDefinition<_, _>>(t); if &now != p { s.bad.push(format!("a reference taken early reads {now}, it was {p}")) } }
    let mut out = one.out;
    for d in &j.docs { if let Ok(d) = ExecutableDocument::parse(d) { let k = Cache::new(&d, &v); let mut e: Vec<String> = BuiltinRulesValidator::validate(&d, &v, &k).map(|e| PErr::from(e).message().to_string()).collect(); e.sort(); out.push_str(&e.join(" ")) } }
    Some(out)
}
/// every analysis of one operation
fn analyses<'a, 'd, 'x>(sch: &'x Schema<'a>, d: &'x ExecutableDocument<'d>, k: &'x Cache<'x, ExecutableDocument<'d>, Schema<'a>>, name: Option<&str>) -> String {
    type P = serde_json::Map<String, serde_json::Value>;
    let none = P::new();
    macro_rules! an { ($A:ty, $x:expr, $f:expr) => { Orchestrator::<_, _, P, $A>::analyze(d, sch, name, &none, k, $x).map($f).map_err(|e| e.message().to_string()) } }
    let some = |n: usize, mut v: Vec<String>| { v.sort(); format!("{n} {v:?}") };
    format!("{:?} {:?} {:?} {:?} {:?} {:?}", an!(QueryDepth, (), |x| x), an!(ComplexityCost<_, _, _, DefaultCostComputer>, (), |x| x), an!(ComplexityCost<_, _, _, RelayCostComputer<_, _, _>>, (), |x| x),
        an!(InputSize<_, _>, 1, |x| some(0, x.into_iter().map(|o| format!("{} {}", o.size, o.name)).collect())),
        an!(Deprecation<_, _, _>, (), |x| some(1, x.into_iter().map(|o| format!("{} {}", o.name, o.reason)).collect())),
        an!(VariableValuesAreValid<_, _, _>, (), |x| some(2, x.iter().map(|o| o.message().to_string()).collect())))
}
/// the one big thing an interpreted job does: walk, filter or compare
const BIG: [usize; 4] = [0, 1, 1, 2];
/// what one thread does with a schema that others use at the same time; the text does not depend on them
pub fn shared<'a>(j: &Job, sch: &Schema<'a>, other: Option<&Schema<'a>>, turn: u64, s: &mut Seen) -> String {
    let mut parts: BTreeMap<usize, String> = BTreeMap::new();
    let n = j.docs.len() + 3;
    for i in 0..n {
        let i = (i + turn as usize * 2) % n;
        // in the interpreter a job does only one of the big things, half the time the filtered view
        if j.tiny() && i >= j.docs.len() && BIG[(j.seed >> 8) as usize % 4] != i - j.docs.len() { continue }
        let mut o = String::new();
        if i < j.docs.len() {
            let t = &j.docs[i];
            if let Ok(d) = ExecutableDocument::parse(t) {
                let k = Cache::new(&d, sch);
                s.o("validated");
                let mut e: Vec<String> = BuiltinRulesValidator::validate(&d, sch, &k).map(|e| PErr::from(e).message().to_string()).collect();
                e.sort(); o = e.join("\n");
                for name in d.operation_definitions().iter().take(2).map(|x| bluejay_core::executable::OperationDefinition::as_ref(x).name().map(str::to_string)) { o.push_str(&analyses(sch, &d, &k, name.as_deref())); s.o("analysed") }
            }
        } else if i == j.docs.len() { let mut x = Seen::default(); view(sch, &mut x); s.bad.append(&mut x.bad); s.o("walked"); o = x.out }
        else if i == j.docs.len() + 1 { for how in if j.tiny() { turn..turn + 1 } else { 0..1 + turn % 2 } { o = filtered(j, sch, how, s).unwrap_or_default() } }
        else if let Some(x) = other { s.o("compared"); let mut c: Vec<String> = bluejay_schema_comparator::compare(sch, x).changes.iter().map(|c| format!("{} {}", c.path(), c.message())).collect(); c.sort(); o = c.join("\n") }
        parts.insert(i, o);
    }
    parts.into_values().collect::<Vec<_>>().join("\n--\n")
}

/// whether a type says that it may be shared between threads
pub struct Claim<T>(PhantomData<T>);
pub trait NoClaim { const SYNC: bool = false; }
impl<T> NoClaim for Claim<T> {}
impl<T: Sync> Claim<T> { pub const SYNC: bool = true; }
/// hands a reference to other threads, for types that say they are Sync
struct Hand<'a, T>(&'a T);
unsafe impl<'a, T> Send for Hand<'a, T> {}
unsafe impl<'a, T> Sync for Hand<'a, T> {}
impl<'a, T> Hand<'a, T> { fn get(&self) -> &'a T { self.0 } }
fn in_threads<T: Send>(n: usize, f: &(dyn Fn(usize) -> T + Sync)) -> Vec<T> {
    let gate = std::sync::Barrier::new(n);
    std::thread::scope(|sc| { let h: Vec<_> = (0..n).map(|i| { let gate = &gate; sc.spawn(move || { gate.wait(); for _ in 0..i * 3 { std::thread::yield_now() } f(i) }) }).collect(); h.into_iter().map(|x| x.join().expect("thread")).collect() })
}

/// `f`, or nothing when it panics
fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok() }
const PANIC: &str = "(a panic)";
fn shared_q<'a>(j: &Job, sch: &Schema<'a>, other: Option<&Schema<'a>>, turn: u64, s: &mut Seen) -> String { quiet(|| { let mut m = Seen::default(); let o = shared(j, sch, other, turn, &mut m); (o, m) }).map_or(PANIC.into(), |(o, m)| { s.take(m); o }) }
fn texts_q(j: &Job) -> (String, Seen) { quiet(|| { let mut m = Seen::default(); texts(j, &mut m); (std::mem::take(&mut m.out), m) }).unwrap_or((PANIC.into(), Seen::default())) }
impl Job { /// one for the interpreter, where everything takes a thousand times as long
    pub fn tiny(&self) -> bool { self.sdl.len() < 700 && self.docs.len() < 3 } }
impl Seen { fn take(&mut self, m: Seen) { self.bad.extend(m.bad); for (k, n) in m.n { *self.n.entry(k).or_default() += n } } }

/// One job, done alone and then by several threads at once. Returns what it saw.
pub fn run_job(j: &Job, threads: usize) -> Seen {
    let threads = if j.tiny() && j.seed >> 4 & 1 == 0 { 1 } else { threads };
    let mut s = Seen::default();
    let (first, m) = texts_q(j);
    s.take(m);
    if first == PANIC { s.o("stopped-by-panic") }
    if threads > 1 && !j.tiny() { for (t, m) in in_threads(threads, &|_| texts_q(j)) { s.o("texts-in-threads"); s.take(m); if t != first { s.bad.push(format!("a thread that only parses got\n{t}\n--- alone\n{first}")) } } }
    let compares = !j.tiny() || BIG[(j.seed >> 8) as usize % 4] == 2;
    let built = (DDoc::parse(&j.sdl), compares.then(|| DDoc::parse(&j.sdl2)));
    let (d1, d2) = match &built { (Ok(a), Some(Ok(b))) => (a, Some(b)), (Ok(a), None) => (a, None), _ => { s.o("not-parsed"); return s } };
    if j.tiny() && j.seed % 5 > 0 {} else if let Ok(d) = pd::DefinitionDocument::<pd::DefaultContext>::parse(&j.sdl) { match pd::SchemaDefinition::try_from(&d) { Ok(x) => { s.o("rules"); let e: Vec<PErr> = DefRules::validate(&x).map(PErr::from).collect(); s.out.push_str(&e.len().to_string()) } Err(_) => s.o("refused") } }
    let s2 = d2.and_then(|d| Schema::try_from(d).ok());
    match Schema::try_from(d1) {
        Err(_) => s.errors(&j.sdl, &|| Schema::try_from(d1).err().map(|e| e.into_iter().map(PErr::from).collect()).unwrap_or_default()),
        Ok(sch) => {
            s.o("schemas");
            let want = shared_q(j, &sch, s2.as_ref(), 0, &mut s);
            if want == PANIC { s.o("stopped-by-panic"); return s }
            let turned = if j.tiny() && threads > 1 { want.clone() } else { shared_q(j, &sch, s2.as_ref(), 1, &mut s) };
            if want != turned { s.bad.push(format!("the order of use decides the outcome:\n{want}\n--- in another order\n{turned}")) }
            s.text("outcome", &want);
            if threads > 1 {
                let (h1, h2) = (Hand(&sch), s2.as_ref().map(Hand));
                if Claim::<Schema<'static>>::SYNC {
                    let got = in_threads(threads, &|i| { let mut m = Seen::default(); let o = shared_q(j, h1.get(), h2.as_ref().map(|h| h.get()), i as u64 + j.tiny() as u64, &mut m); m.o("shared-schema"); (o, m) });
                    for (o, m) in got { if o != want { s.bad.push(format!("a thread that shares the schema got\n{o}\n--- alone\n{want}")) } s.take(m) }
                } else { s.o("schema-not-sync") }
                claims(j, &sch, threads, &mut s);
            }
        }
    }
    s
}
type VC<'a> = bv::Cache<'a, Schema<'a>, CoinWarden<'a>>;
type VS<'a> = bv::SchemaDefinition<'a, Schema<'a>, CoinWarden<'a>>;
/// Everything else that says it may be shared is shared too.
fn claims<'a>(j: &Job, sch: &Schema<'a>, threads: usize, s: &mut Seen) {
    if Claim::<ExecutableDocument<'static>>::SYNC { for t in j.docs.iter().take(if j.tiny() { (j.seed % 2) as usize } else { 99 }) { if let Ok(d) = ExecutableDocument::parse(t) {
        s.o("shared-document");
        let (h, hs) = (Hand(&d), Hand(sch));
        let alone = { let k = Cache::new(&d, sch); BuiltinRulesValidator::validate(&d, sch, &k).count() };
        for n in in_threads(threads, &|_| { let (d, sch) = (h.get(), hs.get()); let k = Cache::new(d, sch); (BuiltinRulesValidator::validate(d, sch, &k).count(), ExecutableDocumentPrinter::to_string(d).len()).0 }) { if n != alone { s.bad.push(format!("a shared document has {n} errors in a thread, {alone} alone")) } }
        if Claim::<Cache<'static, ExecutableDocument<'static>, Schema<'static>>>::SYNC {
            s.o("shared-validation-cache");
            let k = Cache::new(&d, sch); let hk = Hand(&k);
            for n in in_threads(threads, &|_| BuiltinRulesValidator::validate(h.get(), hs.get(), hk.get()).count()) { if n != alone { s.bad.push(format!("with a shared cache a thread finds {n} errors, {alone} alone")) } }
        }
    } } }
    let rate = [0, 5, 20, 50][(j.seed % 4) as usize];
    if Claim::<VC<'static>>::SYNC {
        // several views over one cache
        s.o("shared-view-cache");
        let cache = bv::Cache::new(CoinWarden::new(j.seed, rate), sch);
        let h = Hand(&cache);
        let got = in_threads(threads, &|_| { let mut m = Seen::default(); if let Ok(v) = bv::SchemaDefinition::new(h.get()) { view(&v, &mut m) } (m.out, m.bad) });
        for (o, b) in &got { s.bad.extend(b.iter().cloned()); if o != &got[0].0 { s.bad.push("threads that share a visibility cache see different schemas".into()) } }
    }
    let cache = bv::Cache::new(CoinWarden::new(j.seed, rate), sch);
    if let Ok(v) = bv::SchemaDefinition::new(&cache) {
        if Claim::<VS<'static>>::SYNC {
            s.o("shared-view");
            let h = Hand(&v);
            let got = in_threads(threads, &|_| { let mut m = Seen::default(); view(h.get(), &mut m); (m.out, m.bad) });
            for (o, b) in &got { s.bad.extend(b.iter().cloned()); if o != &got[0].0 { s.bad.push("threads that share a view see different schemas".into()) } }
        }
        for t in sch.type_definitions().map(|t| t.name()) { if let Some(t) = v.get_type_definition(t) {
            type W<'a> = CoinWarden<'a>;
            macro_rules! share { ($v:ident $t:ident) => { if let TR::$v(x) = t { if Claim::<bv::$t<'static, Schema<'static>, W<'static>>>::SYNC {
                s.o("shared-type");
                let h = Hand(x);
                let got = in_threads(threads, &|_| parts::<VS>(&TR::$v(h.get())));
                if got.iter().any(|g| g != &got[0]) { s.bad.push(format!("threads that share a type see {got:?}")) }
            } } } }
            share!(Object ObjectTypeDefinition); share!(Interface InterfaceTypeDefinition); share!(Union UnionTypeDefinition); share!(Enum EnumTypeDefinition); share!(InputObject InputObjectTypeDefinition); share!(CustomScalar ScalarTypeDefinition);
        } }
    }
}

