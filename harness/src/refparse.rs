//! Reference lexer and parser, written from the GraphQL specification (October 2021, plus the
//! braced/surrogate unicode escapes of the current draft), independent of bluejay.
use crate::model::*;

#[derive(Clone, Debug, PartialEq)]
pub enum K { P(&'static str), Name(String), Var(String), Int(i32), Float(f64), Str(String) }
#[derive(Clone, Debug)]
pub struct T { pub k: K, pub at: usize, pub end: usize }

#[derive(Clone, Debug, PartialEq)]
pub struct RErr { pub at: usize, pub lex: bool, pub eof: bool, pub why: &'static str }

#[allow(non_snake_case)]
pub fn BLOCK_OK(c: char) -> bool { c == '\t' || c == '\n' || c == '\r' || c as u32 >= 0x20 }

fn is_name_start(c: u8) -> bool { c.is_ascii_alphabetic() || c == b'_' }
fn is_name(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' }

/// BlockStringValue() of the specification on the raw (already unescaped) content.
pub fn block_value(raw: &str) -> String {
    let mut lines: Vec<String> = vec![String::new()];
    let cs: Vec<char> = raw.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '\r' => { lines.push(String::new()); if i + 1 < cs.len() && cs[i + 1] == '\n' { i += 1 } }
            '\n' => lines.push(String::new()),
            c => lines.last_mut().unwrap().push(c),
        }
        i += 1;
    }
    let ws = |c: char| c == ' ' || c == '\t';
    let mut common: Option<usize> = None;
    for l in lines.iter().skip(1) {
        let length = l.chars().count();
        let indent = l.chars().take_while(|c| ws(*c)).count();
        if indent < length && common.map_or(true, |c| indent < c) { common = Some(indent) }
    }
    if let Some(c) = common { for l in lines.iter_mut().skip(1) { *l = l.chars().skip(c).collect() } }
    while lines.first().map_or(false, |l| l.chars().all(ws)) { lines.remove(0); }
    while lines.last().map_or(false, |l| l.chars().all(ws)) { lines.pop(); }
    lines.join("\n")
}

pub fn lex(s: &str) -> Result<Vec<T>, RErr> { let (t, e) = lex_all(s); match e { Some(e) => Err(e), None => Ok(t) } }

/// Tokens up to the first lexical error.
pub fn lex_all(s: &str) -> (Vec<T>, Option<RErr>) {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    macro_rules! bad { ($at:expr, $why:expr) => { return (out, Some(RErr { at: $at, lex: true, eof: false, why: $why })) } }
    while i < b.len() {
        let c = b[i];
        if s[i..].starts_with('\u{feff}') { i += 3; continue }
        match c {
            b' ' | b'\t' | b'\n' | b'\r' | b',' => { i += 1; continue }
            b'#' => { while i < b.len() && b[i] != b'\n' && b[i] != b'\r' { i += 1 } continue }
            _ => {}
        }
        let at = i;
        let punct = match c { b'!' => "!", b'&' => "&", b'(' => "(", b')' => ")", b':' => ":", b'=' => "=", b'@' => "@", b'[' => "[", b']' => "]", b'{' => "{", b'}' => "}", b'|' => "|", _ => "" };
        if !punct.is_empty() { i += 1; out.push(T { k: K::P(punct), at, end: i }); continue }
        if c == b'.' { if s[i..].starts_with("...") { i += 3; out.push(T { k: K::P("..."), at, end: i }); continue } bad!(at, "dot") }
        if c == b'$' {
            let mut j = i + 1;
            if j >= b.len() || !is_name_start(b[j]) { bad!(at, "dollar") }
            while j < b.len() && is_name(b[j]) { j += 1 }
            out.push(T { k: K::Var(s[i + 1..j].to_string()), at, end: j }); i = j; continue
        }
        if is_name_start(c) {
            let mut j = i; while j < b.len() && is_name(b[j]) { j += 1 }
            out.push(T { k: K::Name(s[i..j].to_string()), at, end: j }); i = j; continue
        }
        if c == b'-' || c.is_ascii_digit() {
            let mut j = i; if c == b'-' { j += 1 }
            if j >= b.len() || !b[j].is_ascii_digit() { bad!(at, "minus") }
            if b[j] == b'0' { j += 1 } else { while j < b.len() && b[j].is_ascii_digit() { j += 1 } }
            let mut float = false;
            if j + 1 < b.len() && b[j] == b'.' && b[j + 1].is_ascii_digit() { float = true; j += 1; while j < b.len() && b[j].is_ascii_digit() { j += 1 } }
            if j < b.len() && (b[j] == b'e' || b[j] == b'E') {
                let mut k = j + 1; if k < b.len() && (b[k] == b'+' || b[k] == b'-') { k += 1 }
                if k < b.len() && b[k].is_ascii_digit() { float = true; while k < b.len() && b[k].is_ascii_digit() { k += 1 } j = k }
            }
            // lookahead restriction: not followed by digit, '.', NameStart
            if j < b.len() && (is_name(b[j]) || b[j] == b'.') { bad!(at, "number") }
            let txt = &s[i..j];
            if float {
                match txt.parse::<f64>() { Ok(f) if f.is_finite() => out.push(T { k: K::Float(f), at, end: j }), _ => bad!(at, "float-range") }
            } else {
                match txt.parse::<i64>() { Ok(v) if v >= i32::MIN as i64 && v <= i32::MAX as i64 => out.push(T { k: K::Int(v as i32), at, end: j }), _ => bad!(at, "int-range") }
            }
            i = j; continue
        }
        if c == b'"' {
            if s[i..].starts_with("\"\"\"") {
                let mut raw = String::new();
                let mut j = i + 3;
                loop {
                    if j >= b.len() { bad!(at, "block-eof") }
                    if s[j..].starts_with("\\\"\"\"") { raw.push_str("\"\"\""); j += 4; continue }
                    if s[j..].starts_with("\"\"\"") { j += 3; break }
                    let ch = s[j..].chars().next().unwrap(); raw.push(ch); j += ch.len_utf8();
                }
                out.push(T { k: K::Str(block_value(&raw)), at, end: j }); i = j; continue
            }
            let mut v = String::new();
            let mut j = i + 1;
            let hex4 = |k: usize| -> Option<u32> { if k + 4 <= b.len() && b[k..k + 4].iter().all(|x| x.is_ascii_hexdigit()) { u32::from_str_radix(&s[k..k + 4], 16).ok() } else { None } };
            loop {
                if j >= b.len() { bad!(at, "string-eof") }
                match b[j] {
                    b'"' => { j += 1; break }
                    b'\n' | b'\r' => bad!(at, "string-newline"),
                    b'\\' => {
                        let Some(&e) = b.get(j + 1) else { bad!(at, "string-eof") };
                        match e {
                            b'"' => v.push('"'), b'\\' => v.push('\\'), b'/' => v.push('/'), b'b' => v.push('\u{8}'), b'f' => v.push('\u{c}'),
                            b'n' => v.push('\n'), b'r' => v.push('\r'), b't' => v.push('\t'),
                            b'u' => {
                                if b.get(j + 2) == Some(&b'{') {
                                    let mut k = j + 3; while k < b.len() && b[k].is_ascii_hexdigit() { k += 1 }
                                    if k == j + 3 || b.get(k) != Some(&b'}') { bad!(at, "braced") }
                                    let digits = s[j + 3..k].trim_start_matches('0');
                                    if digits.len() > 6 { bad!(at, "braced-range") }
                                    let cp = if digits.is_empty() { 0 } else { u32::from_str_radix(digits, 16).unwrap() };
                                    match char::from_u32(cp) { Some(ch) => v.push(ch), None => bad!(at, "braced-scalar") }
                                    j = k + 1; continue
                                }
                                let Some(h) = hex4(j + 2) else { bad!(at, "hex4") };
                                if (0xD800..0xDC00).contains(&h) {
                                    let lo = if b.get(j + 6) == Some(&b'\\') && b.get(j + 7) == Some(&b'u') { hex4(j + 8) } else { None };
                                    match lo { Some(l) if (0xDC00..0xE000).contains(&l) => { v.push(char::from_u32(0x10000 + ((h - 0xD800) << 10) + (l - 0xDC00)).unwrap()); j += 12; continue } _ => bad!(at, "lone-lead") }
                                }
                                match char::from_u32(h) { Some(ch) => v.push(ch), None => bad!(at, "lone-trail") }
                                j += 6; continue
                            }
                            _ => bad!(at, "escape"),
                        }
                        j += 2;
                    }
                    _ => { let ch = s[j..].chars().next().unwrap(); v.push(ch); j += ch.len_utf8() }
                }
            }
            out.push(T { k: K::Str(v), at, end: j }); i = j; continue
        }
        bad!(at, "char")
    }
    (out, None)
}

pub struct P<'a> { t: Vec<T>, i: usize, lexerr: Option<RErr>, len: usize, pub src: &'a str, pub allow_bodyless: bool }
type R<X> = Result<X, RErr>;

impl<'a> P<'a> {
    pub fn new(s: &'a str) -> Self { let (t, e) = lex_all(s); P { t, i: 0, lexerr: e, len: s.len(), src: s, allow_bodyless: false } }
    fn peek(&self) -> Option<&K> { self.t.get(self.i).map(|t| &t.k) }
    fn err<X>(&self, why: &'static str) -> R<X> {
        if let Some(t) = self.t.get(self.i) { Err(RErr { at: t.at, lex: false, eof: false, why }) }
        else if let Some(e) = &self.lexerr { Err(e.clone()) }
        else { Err(RErr { at: self.len, lex: false, eof: true, why }) }
    }
    fn done(&self) -> bool { self.i >= self.t.len() }
    fn is(&self, p: &str) -> bool { matches!(self.peek(), Some(K::P(x)) if *x == p) }
    fn eat(&mut self, p: &str) -> bool { if self.is(p) { self.i += 1; true } else { false } }
    fn want(&mut self, p: &'static str) -> R<()> { if self.eat(p) { Ok(()) } else { self.err(p) } }
    fn is_name(&self, n: &str) -> bool { matches!(self.peek(), Some(K::Name(x)) if x == n) }
    fn eat_name(&mut self, n: &str) -> bool { if self.is_name(n) { self.i += 1; true } else { false } }
    fn name(&mut self) -> R<String> { match self.peek() { Some(K::Name(n)) => { let n = n.clone(); self.i += 1; Ok(n) } _ => self.err("name") } }
    fn opt_name(&mut self) -> Option<String> { if matches!(self.peek(), Some(K::Name(_))) { self.name().ok() } else { None } }

    pub fn value(&mut self, cnst: bool) -> R<Val> {
        let k = match self.peek() { Some(k) => k.clone(), None => return self.err("value") };
        match k {
            K::Int(i) => { self.i += 1; Ok(Val::Int(i)) }
            K::Float(f) => { self.i += 1; Ok(Val::Float(F(f))) }
            K::Str(s) => { self.i += 1; Ok(Val::Str(s)) }
            K::Name(n) => { self.i += 1; Ok(match n.as_str() { "true" => Val::Bool(true), "false" => Val::Bool(false), "null" => Val::Null, _ => Val::Enum(n) }) }
            K::Var(v) if !cnst => { self.i += 1; Ok(Val::Var(v)) }
            K::P("[") => { self.i += 1; let mut l = vec![]; while !self.eat("]") { l.push(self.value(cnst)?) } Ok(Val::List(l)) }
            K::P("{") => { self.i += 1; let mut o = vec![]; while !self.eat("}") { let n = self.name()?; self.want(":")?; o.push((n, self.value(cnst)?)) } Ok(Val::Obj(o)) }
            _ => self.err("value"),
        }
    }
    pub fn args(&mut self, cnst: bool) -> R<Vec<(String, Val)>> {
        let mut v = vec![];
        if self.eat("(") { loop { let n = self.name()?; self.want(":")?; v.push((n, self.value(cnst)?)); if self.eat(")") { break } } }
        Ok(v)
    }
    pub fn dirs(&mut self, cnst: bool) -> R<Vec<Dir>> {
        let mut v = vec![];
        while self.eat("@") { let name = self.name()?; let args = self.args(cnst)?; v.push(Dir { name, args }) }
        Ok(v)
    }
    pub fn ty(&mut self) -> R<Ty> {
        let t = if self.eat("[") { let t = self.ty()?; self.want("]")?; Ty::List(Box::new(t), false) } else { Ty::Named(self.name()?, false) };
        Ok(if self.eat("!") { t.nn() } else { t })
    }
    fn sel(&mut self) -> R<Vec<Sel>> {
        self.want("{")?;
        let mut v = vec![];
        loop { v.push(self.selection()?); if self.eat("}") { break } }
        Ok(v)
    }
    fn selection(&mut self) -> R<Sel> {
        if self.eat("...") {
            if matches!(self.peek(), Some(K::Name(n)) if n != "on") { let name = self.name()?; let dirs = self.dirs(false)?; return Ok(Sel::Spread { name, dirs }) }
            let cond = if self.eat_name("on") { Some(self.name()?) } else { None };
            let dirs = self.dirs(false)?; let sel = self.sel()?;
            return Ok(Sel::Inline { cond, dirs, sel });
        }
        let mut name = self.name()?;
        let mut alias = None;
        if self.eat(":") { alias = Some(name); name = self.name()? }
        let args = self.args(false)?; let dirs = self.dirs(false)?;
        let sel = if self.is("{") { self.sel()? } else { vec![] };
        Ok(Sel::Field(Field { alias, name, args, dirs, sel }))
    }
    pub fn doc(&mut self) -> R<Doc> {
        let mut d = Doc::default();
        loop {
            if self.done() { if self.lexerr.is_some() || (d.ops.is_empty() && d.frags.is_empty()) { return self.err("definition") } return Ok(d) }
            if self.is("{") { let sel = self.sel()?; d.ops.push(Op { kind: OpKind::Query, shorthand: true, name: None, vars: vec![], dirs: vec![], sel }); continue }
            let kind = OpKind::ALL.iter().find(|k| self.is_name(k.s())).copied();
            if let Some(kind) = kind {
                self.i += 1;
                let name = self.opt_name();
                let mut vars = vec![];
                if self.eat("(") {
                    loop {
                        let n = match self.peek() { Some(K::Var(v)) => v.clone(), _ => return self.err("variable") };
                        self.i += 1; self.want(":")?; let ty = self.ty()?;
                        let default = if self.eat("=") { Some(self.value(true)?) } else { None };
                        let dirs = self.dirs(true)?;
                        vars.push(VarDef { name: n, ty, default, dirs });
                        if self.eat(")") { break }
                    }
                }
                let dirs = self.dirs(false)?; let sel = self.sel()?;
                d.ops.push(Op { kind, shorthand: false, name, vars, dirs, sel }); continue
            }
            if self.eat_name("fragment") {
                if self.is_name("on") { return self.err("fragment name") }
                let name = self.name()?;
                if !self.eat_name("on") { return self.err("on") }
                let cond = self.name()?; let dirs = self.dirs(false)?; let sel = self.sel()?;
                d.frags.push(Frag { name, cond, dirs, sel }); continue
            }
            return self.err("definition");
        }
    }
    // --- type system ---
    fn desc(&mut self) -> Option<String> { if let Some(K::Str(s)) = self.peek() { let s = s.clone(); self.i += 1; Some(s) } else { None } }
    fn input_val(&mut self) -> R<InputVal> {
        let desc = self.desc(); let name = self.name()?; self.want(":")?; let ty = self.ty()?;
        let default = if self.eat("=") { Some(self.value(true)?) } else { None };
        let dirs = self.dirs(true)?;
        Ok(InputVal { desc, name, ty, default, dirs })
    }
    fn args_def(&mut self) -> R<Vec<InputVal>> {
        let mut v = vec![];
        if self.eat("(") { loop { v.push(self.input_val()?); if self.eat(")") { break } } }
        Ok(v)
    }
    fn ifaces(&mut self) -> R<Vec<String>> {
        let mut v = vec![];
        if self.eat_name("implements") { self.eat("&"); loop { v.push(self.name()?); if !self.eat("&") { break } } }
        Ok(v)
    }
    fn fields(&mut self) -> R<Vec<FieldDef>> {
        let mut v = vec![];
        if self.allow_bodyless && !self.is("{") { return Ok(v) }
        self.want("{")?;
        loop {
            let desc = self.desc(); let name = self.name()?; let args = self.args_def()?; self.want(":")?; let ty = self.ty()?; let dirs = self.dirs(true)?;
            v.push(FieldDef { desc, name, args, ty, dirs });
            if self.eat("}") { break }
        }
        Ok(v)
    }
    pub fn sdoc(&mut self) -> R<SDoc> {
        let mut d = SDoc::default();
        loop {
            if self.done() { if self.lexerr.is_some() || d.defs.is_empty() { return self.err("definition") } return Ok(d) }
            let start = self.i;
            let desc = self.desc();
            let kw = match self.peek() { Some(K::Name(n)) => n.clone(), _ => { let _ = start; return self.err("definition") } };
            match kw.as_str() {
                "schema" => {
                    self.i += 1; let dirs = self.dirs(true)?; self.want("{")?;
                    let mut roots = vec![];
                    loop {
                        let kind = match OpKind::ALL.iter().find(|k| self.is_name(k.s())) { Some(k) => *k, None => return self.err("operation type") };
                        self.i += 1; self.want(":")?; roots.push((kind, self.name()?));
                        if self.eat("}") { break }
                    }
                    d.defs.push(SDef::Schema(SchemaDef { desc, dirs, roots }))
                }
                "scalar" => { self.i += 1; let name = self.name()?; let dirs = self.dirs(true)?; d.defs.push(SDef::Type(TypeDef { desc, name, dirs, kind: Kind::Scalar })) }
                "type" | "interface" => {
                    self.i += 1; let name = self.name()?; let ifaces = self.ifaces()?; let dirs = self.dirs(true)?; let fields = self.fields()?;
                    let kind = if kw == "type" { Kind::Object { ifaces, fields } } else { Kind::Interface { ifaces, fields } };
                    d.defs.push(SDef::Type(TypeDef { desc, name, dirs, kind }))
                }
                "union" => {
                    self.i += 1; let name = self.name()?; let dirs = self.dirs(true)?;
                    let mut members = vec![];
                    if !(self.allow_bodyless && !self.is("=")) { self.want("=")?; self.eat("|"); loop { members.push(self.name()?); if !self.eat("|") { break } } }
                    d.defs.push(SDef::Type(TypeDef { desc, name, dirs, kind: Kind::Union { members } }))
                }
                "enum" => {
                    self.i += 1; let name = self.name()?; let dirs = self.dirs(true)?;
                    let mut values = vec![];
                    if !(self.allow_bodyless && !self.is("{")) {
                        self.want("{")?;
                        loop {
                            let desc = self.desc();
                            if self.is_name("true") || self.is_name("false") || self.is_name("null") { return self.err("enum value") }
                            let name = self.name()?; let dirs = self.dirs(true)?;
                            values.push(EnumVal { desc, name, dirs }); if self.eat("}") { break }
                        }
                    }
                    d.defs.push(SDef::Type(TypeDef { desc, name, dirs, kind: Kind::Enum { values } }))
                }
                "input" => {
                    self.i += 1; let name = self.name()?; let dirs = self.dirs(true)?;
                    let mut fields = vec![];
                    if !(self.allow_bodyless && !self.is("{")) { self.want("{")?; loop { fields.push(self.input_val()?); if self.eat("}") { break } } }
                    d.defs.push(SDef::Type(TypeDef { desc, name, dirs, kind: Kind::Input { fields } }))
                }
                "directive" => {
                    self.i += 1; self.want("@")?; let name = self.name()?; let args = self.args_def()?;
                    let repeatable = self.eat_name("repeatable");
                    if !self.eat_name("on") { return self.err("on") }
                    self.eat("|");
                    let mut locs = vec![];
                    loop {
                        let ok = matches!(self.peek(), Some(K::Name(n)) if EXEC_LOCS.contains(&n.as_str()) || TS_LOCS.contains(&n.as_str()));
                        if !ok { return self.err("location") }
                        locs.push(self.name()?); if !self.eat("|") { break }
                    }
                    d.defs.push(SDef::Dir(DirDef { desc, name, args, repeatable, locs }))
                }
                _ => return self.err("definition"),
            }
        }
    }
}

pub fn parse_doc(s: &str) -> R<Doc> { P::new(s).doc() }
pub fn parse_sdoc(s: &str) -> R<SDoc> { P::new(s).sdoc() }
/// A value followed by nothing else.
pub fn parse_value(s: &str, cnst: bool) -> R<Val> { let mut p = P::new(s); let v = p.value(cnst)?; if p.done() && p.lexerr.is_none() { Ok(v) } else { p.err("end") } }

/// 1-based line and column (in characters) of byte offset `at`.
pub fn line_col(s: &str, at: usize) -> (usize, usize) {
    let mut line = 1; let mut col = 1;
    let mut it = s[..at.min(s.len())].chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '\r' => { if it.peek() == Some(&'\n') { it.next(); } line += 1; col = 1 }
            '\n' => { line += 1; col = 1 }
            _ => col += 1,
        }
    }
    (line, col)
}

/// Deepest bracket nesting of a text (over-approximation), used to keep inputs inside the stack bound.
pub fn nesting(s: &str) -> usize {
    let mut d = 0usize; let mut m = 0usize;
    for c in s.bytes() { match c { b'{' | b'[' | b'(' => { d += 1; m = m.max(d) } b'}' | b']' | b')' => d = d.saturating_sub(1), _ => {} } }
    m
}
