//! Syntactic generators (documents need not be semantically valid) and text mutators.
use crate::model::*;
use crate::rng::Rng;

const NAMES: &[&str] = &["a", "b", "c", "x1", "_", "__typename", "A", "B2", "fooBar", "on", "query", "mutation", "subscription", "fragment", "type", "input", "enum", "union", "interface", "schema", "scalar", "directive", "implements", "repeatable", "extend", "true", "false", "null", "Int", "e1", "E", "_0", "FIELD", "QUERY", "aVeryLongNameThatGoesOnAndOn_0123456789"];
pub fn name(r: &mut Rng) -> String {
    if r.p(75) { return r.pick(NAMES).to_string() }
    let n = r.r(1, 6);
    (0..n).map(|i| { let s: &[u8] = if i == 0 { b"abcXYZ_" } else { b"abcXYZ_019" }; *r.pick(s) as char }).collect()
}
pub fn name_not(r: &mut Rng, bad: &[&str]) -> String { loop { let n = name(r); if !bad.contains(&n.as_str()) { return n } } }

pub fn string(r: &mut Rng) -> String {
    const BITS: &[&str] = &["a", "word", " ", "  ", "\n", "\n\n", "\t", "\"", "\"\"", "\"\"\"", "\\", "\\n", "/", "é", "🔥", "\u{2028}", "\u{feff}", "\u{7f}", "\u{0}", "\u{1}", "\u{8}", "\u{c}", "\r", "\r\n", "#", "$", "{", "}", "\\\"\"\"", "\\u0041", "日本", "\u{10ffff}", "\u{85}", ",", "end"];
    match r.n(10) {
        0 => String::new(),
        1..=3 => r.pick(&["hello", "hello world", "x", "0", "A longer piece of text.", "line1\nline2", "  indented", "  a\n  b", "a\n  b\nc", "trail  ", "\"q\"", "back\\slash"]).to_string(),
        _ => { let n = r.r(1, 7); (0..n).map(|_| *r.pick(BITS)).collect() }
    }
}
pub fn int(r: &mut Rng) -> i32 { match r.n(6) { 0 => 0, 1 => i32::MAX, 2 => i32::MIN, 3 => -(r.n(1000) as i32), _ => r.n(100000) as i32 } }
pub fn float(r: &mut Rng) -> f64 {
    match r.n(12) {
        0 => 0.0, 1 => -0.0, 2 => 1.5, 3 => 0.1, 4 => 1e300, 5 => 5e-324, 6 => f64::MAX, 7 => 1.0 + 1e-12, 8 => 12345678901234567890.0, 9 => -1e-9, 10 => (r.n(2000) as f64 - 1000.0) / 8.0,
        _ => loop { let f = f64::from_bits(r.u64()); if f.is_finite() { return f } },
    }
}
pub fn val(r: &mut Rng, cnst: bool, d: usize) -> Val {
    match r.n(if d == 0 { 7 } else { 9 }) {
        0 => if cnst { Val::Null } else { Val::Var(name(r)) },
        1 => Val::Int(int(r)),
        2 => Val::Float(F(float(r))),
        3 => Val::Str(string(r)),
        4 => Val::Bool(r.p(50)),
        5 => Val::Null,
        6 => Val::Enum(name_not(r, &["true", "false", "null"])),
        7 => { let n = r.n(4); Val::List((0..n).map(|_| val(r, cnst, d - 1)).collect()) }
        _ => { let n = r.n(4); Val::Obj((0..n).map(|_| (name(r), val(r, cnst, d - 1))).collect()) }
    }
}
pub fn args(r: &mut Rng, cnst: bool, p: u32) -> Vec<(String, Val)> { if !r.p(p) { return vec![] } let n = r.r(1, 3); (0..n).map(|_| (name(r), val(r, cnst, 3))).collect() }
pub fn dirs(r: &mut Rng, cnst: bool, p: u32) -> Vec<Dir> { if !r.p(p) { return vec![] } let n = r.r(1, 2); (0..n).map(|_| Dir { name: name(r), args: args(r, cnst, 50) }).collect() }
pub fn ty(r: &mut Rng) -> Ty { let mut t = if r.p(70) { Ty::Named(name(r), false) } else { Ty::List(Box::new(ty(r)), false) }; if r.p(35) { t = t.nn() } t }
pub fn sels(r: &mut Rng, d: usize) -> Vec<Sel> {
    let n = r.r(1, 3);
    (0..n).map(|_| match r.n(if d == 0 { 6 } else { 10 }) {
        4 => Sel::Spread { name: name_not(r, &["on"]), dirs: dirs(r, false, 30) },
        8 | 9 => Sel::Inline { cond: if r.p(70) { Some(name(r)) } else { None }, dirs: dirs(r, false, 30), sel: sels(r, d - 1) },
        k => Sel::Field(Field { alias: if r.p(25) { Some(name(r)) } else { None }, name: name(r), args: args(r, false, 30), dirs: dirs(r, false, 15), sel: if d > 0 && k >= 5 { sels(r, d - 1) } else { vec![] } }),
    }).collect()
}
pub fn doc(r: &mut Rng, size: usize) -> Doc {
    let depth = 1 + size.min(4);
    let n = r.r(1, 3);
    let mut d = Doc { frags_first: r.p(30), ..Default::default() };
    for _ in 0..n {
        if r.p(65) {
            let shorthand = r.p(20);
            d.ops.push(if shorthand { Op { kind: OpKind::Query, shorthand, name: None, vars: vec![], dirs: vec![], sel: sels(r, depth) } } else {
                let nv = if r.p(50) { r.r(1, 3) } else { 0 };
                Op { kind: *r.pick(&OpKind::ALL), shorthand, name: if r.p(70) { Some(name(r)) } else { None },
                    vars: (0..nv).map(|_| VarDef { name: name(r), ty: ty(r), default: if r.p(40) { Some(val(r, true, 2)) } else { None }, dirs: dirs(r, true, 20) }).collect(),
                    dirs: dirs(r, false, 30), sel: sels(r, depth) }
            })
        } else {
            d.frags.push(Frag { name: name_not(r, &["on"]), cond: name(r), dirs: dirs(r, false, 30), sel: sels(r, depth) })
        }
    }
    d
}
fn desc(r: &mut Rng, p: u32) -> Option<String> { if r.p(p) { Some(string(r)) } else { None } }
fn input_val(r: &mut Rng) -> InputVal { InputVal { desc: desc(r, 25), name: name(r), ty: ty(r), default: if r.p(35) { Some(val(r, true, 2)) } else { None }, dirs: dirs(r, true, 20) } }
fn some<T>(r: &mut Rng, lo: usize, hi: usize, mut f: impl FnMut(&mut Rng) -> T) -> Vec<T> { let n = r.r(lo, hi); (0..n).map(|_| f(r)).collect() }
fn field_def(r: &mut Rng) -> FieldDef { FieldDef { desc: desc(r, 25), name: name(r), args: if r.p(35) { some(r, 1, 3, input_val) } else { vec![] }, ty: ty(r), dirs: dirs(r, true, 20) } }
pub fn sdoc(r: &mut Rng) -> SDoc {
    let n = r.r(1, 5);
    let mut d = SDoc::default();
    for _ in 0..n {
        let desc_ = desc(r, 40);
        let def = match r.n(9) {
            0 => SDef::Schema(SchemaDef { desc: desc_, dirs: dirs(r, true, 30), roots: some(r, 1, 3, |r| (*r.pick(&OpKind::ALL), name(r))) }),
            1 => { let mut locs = some(r, 1, 4, |r| if r.p(50) { r.pick(&EXEC_LOCS).to_string() } else { r.pick(&TS_LOCS).to_string() }); if r.p(80) { locs.dedup() } SDef::Dir(DirDef { desc: desc_, name: name(r), args: if r.p(50) { some(r, 1, 3, input_val) } else { vec![] }, repeatable: r.p(30), locs }) }
            k => {
                let nm = name(r);
                let kind = match k {
                    2 => Kind::Scalar,
                    3 | 4 => Kind::Object { ifaces: if r.p(40) { some(r, 1, 3, name) } else { vec![] }, fields: some(r, 1, 4, field_def) },
                    5 => Kind::Interface { ifaces: if r.p(40) { some(r, 1, 3, name) } else { vec![] }, fields: some(r, 1, 3, field_def) },
                    6 => Kind::Union { members: some(r, 1, 3, name) },
                    7 => Kind::Enum { values: some(r, 1, 4, |r| EnumVal { desc: desc(r, 25), name: name_not(r, &["true", "false", "null"]), dirs: dirs(r, true, 20) }) },
                    _ => Kind::Input { fields: some(r, 1, 4, input_val) },
                };
                SDef::Type(TypeDef { desc: desc_, name: nm, dirs: dirs(r, true, 30), kind })
            }
        };
        d.defs.push(def);
    }
    d
}

const TOKS: &[&str] = &["{", "}", "(", ")", "[", "]", ":", "=", "@", "!", "|", "&", "...", "$a", "a", "on", "query", "fragment", "type", "true", "null", "1", "-1", "1.5", "\"s\"", "\"\"\"b\"\"\"", "schema", "directive", "implements", "enum", "union", "input", "interface", "scalar", "extend", "mutation", "repeatable", "FIELD"];
/// One random token-level edit; returns a label.
pub fn edit_tokens(t: &mut Vec<String>, r: &mut Rng) -> &'static str {
    if t.is_empty() { t.push(r.pick(TOKS).to_string()); return "insert" }
    let i = r.n(t.len());
    match r.n(6) {
        0 => { t.remove(i); "delete" }
        1 => { t.insert(i, r.pick(TOKS).to_string()); "insert" }
        2 => { t[i] = r.pick(TOKS).to_string(); "replace" }
        3 => { let x = t[i].clone(); t.insert(i, x); "duplicate" }
        4 => { if i + 1 < t.len() { t.swap(i, i + 1) } "swap" }
        _ => { let j = r.n(t.len()); let (a, b) = (i.min(j), i.max(j)); if b - a < t.len() / 2 + 1 { t.drain(a..b); } "cut" }
    }
}
const CHARS: &[&str] = &["\"", "\\", "\\u", "\\u{", "}", "\\uD83D", "\\uDD25", "\\u0041", "{", "(", "[", "$", "@", "!", ".", "..", "...", "-", "0", "00", "1e", "1e999", "9999999999", "1.", ".5", "#", "\n", "\r", "\t", " ", ",", "\u{feff}", "\u{0}", "\u{1}", "é", "🔥", "\u{2028}", "?", "%", "'", "~", "\u{660}", "\"\"\"", "\\\"\"\"", "&", "|", "=", ":", "_", "e", "E", "+", "12a", "0x1", "1_000", "-0", "- 1", "$ a", "<", ">", "^", "`", ";", "*", "/"];
pub fn edit_text(s: &str, r: &mut Rng) -> String {
    let cs: Vec<char> = s.chars().collect();
    let i = if cs.is_empty() { 0 } else { r.n(cs.len() + 1) };
    let mut o: String = cs[..i].iter().collect();
    match r.n(5) {
        0 => { o.extend(cs[i..].iter().skip(1)); }
        1 => { o.push_str(r.ps(CHARS)); o.extend(cs[i..].iter()); }
        2 => { o.push_str(r.ps(CHARS)); o.extend(cs[i..].iter().skip(1)); }
        3 => { if r.p(30) { return o } o.push_str(r.ps(CHARS)); o.push_str(r.ps(CHARS)); o.extend(cs[i..].iter()); }
        _ => { let n = r.r(1, 5).min(cs.len() - i); o.extend(cs[i + n..].iter()); }
    }
    o
}
