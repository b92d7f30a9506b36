//! Model AST -> tokens -> text in arbitrary layouts.
use crate::model::*;
use crate::refparse::{block_value, BLOCK_OK};
use crate::rng::Rng;

/// Style of literals: None = canonical (plain quoted strings), Some(rng) = random spellings.
pub struct Emit { pub t: Vec<String>, pub rng: Option<Rng> }

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04X}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"'); o
}

fn quote_random(s: &str, r: &mut Rng) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        let must = matches!(c, '"' | '\\' | '\n' | '\r') || (c as u32) < 0x20 && c != '\t';
        if !must && r.p(80) { o.push(c); continue; }
        let short = match c { '"' => Some("\\\""), '\\' => Some("\\\\"), '/' => Some("\\/"), '\u{8}' => Some("\\b"), '\u{c}' => Some("\\f"), '\n' => Some("\\n"), '\r' => Some("\\r"), '\t' => Some("\\t"), _ => None };
        if let Some(x) = short { if r.p(60) { o.push_str(x); continue; } }
        let cp = c as u32;
        if r.p(40) { o.push_str(&match r.n(3) { 0 => format!("\\u{{{:x}}}", cp), 1 => format!("\\u{{{:X}}}", cp), _ => format!("\\u{{{:06X}}}", cp) }); continue; }
        let mut b = [0u16; 2];
        for u in c.encode_utf16(&mut b) { o.push_str(&if r.p(50) { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) }); }
    }
    o.push('"'); o
}

/// A block-string spelling of `s`, when one exists.
pub fn block_random(s: &str, r: &mut Rng) -> Option<String> {
    if !s.chars().all(|c| BLOCK_OK(c) && c != '\r') { return None }
    let nl = *r.pick(&["\n", "\n", "\r\n", "\r"]);
    let ind: String = (0..r.n(5)).map(|_| if r.p(85) { ' ' } else { '\t' }).collect();
    let esc = s.replace("\"\"\"", "\\\"\"\"");
    let mut body = String::new();
    let lead = r.n(3);
    for _ in 0..lead { if r.p(30) { body.push_str("  "); } body.push_str(nl); }
    for (i, l) in esc.split('\n').enumerate() {
        if i > 0 { body.push_str(nl); }
        if i > 0 || lead > 0 { body.push_str(&ind); }
        body.push_str(l);
    }
    for _ in 0..r.n(3) { body.push_str(nl); if r.p(50) { body.push_str(&ind); } }
    if body.ends_with('"') || body.ends_with('\\') { body.push_str(nl); }
    let full = format!("\"\"\"{}\"\"\"", body);
    // self-check with the independent decoder: only offer spellings that denote s
    match crate::refparse::lex(&full) {
        Ok(v) if v.len() == 1 && matches!(&v[0].k, crate::refparse::K::Str(x) if x == s) => Some(full),
        _ => { let _ = block_value; None }
    }
}

impl Emit {
    pub fn new(rng: Option<Rng>) -> Self { Emit { t: vec![], rng } }
    pub fn w(&mut self, s: &str) { self.t.push(s.to_string()) }
    fn opt(&mut self, p: u32) -> bool { self.rng.as_mut().map_or(false, |r| r.p(p)) }
    pub fn string(&mut self, s: &str) {
        let x = match &mut self.rng {
            None => quote(s),
            Some(r) => { let b = if r.p(35) { block_random(s, r) } else { None }; b.unwrap_or_else(|| quote_random(s, r)) }
        };
        self.t.push(x)
    }
    pub fn val(&mut self, v: &Val) {
        match v {
            Val::Var(n) => self.t.push(format!("${n}")),
            Val::Int(i) => self.t.push(i.to_string()),
            Val::Float(f) => {
                let mut s = format!("{:?}", f.0);
                if let Some(r) = &mut self.rng {
                    match r.n(4) {
                        0 => s = format!("{:e}", f.0),
                        1 => s = format!("{:E}", f.0),
                        2 if !s.contains('e') => s.push_str("00"),
                        _ => {}
                    }
                    if r.p(20) && s.contains('e') && !s.contains("e-") { s = s.replace('e', "e+"); }
                }
                self.t.push(s)
            }
            Val::Str(s) => self.string(s),
            Val::Bool(b) => self.w(if *b { "true" } else { "false" }),
            Val::Null => self.w("null"),
            Val::Enum(e) => self.w(e),
            Val::List(l) => { self.w("["); for x in l { self.val(x) } self.w("]") }
            Val::Obj(o) => { self.w("{"); for (k, x) in o { self.w(k); self.w(":"); self.val(x) } self.w("}") }
        }
    }
    pub fn args(&mut self, a: &[(String, Val)]) {
        if a.is_empty() { return }
        self.w("("); for (k, v) in a { self.w(k); self.w(":"); self.val(v) } self.w(")")
    }
    pub fn dirs(&mut self, d: &[Dir]) { for x in d { self.w("@"); self.w(&x.name); self.args(&x.args) } }
    pub fn ty(&mut self, t: &Ty) {
        match t {
            Ty::Named(n, r) => { self.w(n); if *r { self.w("!") } }
            Ty::List(i, r) => { self.w("["); self.ty(i); self.w("]"); if *r { self.w("!") } }
        }
    }
    pub fn sel(&mut self, s: &[Sel]) {
        self.w("{");
        for x in s {
            match x {
                Sel::Field(f) => {
                    if let Some(a) = &f.alias { self.w(a); self.w(":") }
                    self.w(&f.name); self.args(&f.args); self.dirs(&f.dirs);
                    if !f.sel.is_empty() { self.sel(&f.sel) }
                }
                Sel::Spread { name, dirs } => { self.w("..."); self.w(name); self.dirs(dirs) }
                Sel::Inline { cond, dirs, sel } => {
                    self.w("..."); if let Some(c) = cond { self.w("on"); self.w(c) }
                    self.dirs(dirs); self.sel(sel)
                }
            }
        }
        self.w("}")
    }
    pub fn op(&mut self, o: &Op) {
        if !o.shorthand {
            self.w(o.kind.s());
            if let Some(n) = &o.name { self.w(n) }
            if !o.vars.is_empty() {
                self.w("(");
                for v in &o.vars {
                    self.t.push(format!("${}", v.name)); self.w(":"); self.ty(&v.ty);
                    if let Some(d) = &v.default { self.w("="); self.val(d) }
                    self.dirs(&v.dirs);
                }
                self.w(")")
            }
            self.dirs(&o.dirs);
        }
        self.sel(&o.sel)
    }
    pub fn frag(&mut self, f: &Frag) { self.w("fragment"); self.w(&f.name); self.w("on"); self.w(&f.cond); self.dirs(&f.dirs); self.sel(&f.sel) }
    pub fn doc(&mut self, d: &Doc) {
        if d.frags_first { for f in &d.frags { self.frag(f) } }
        for o in &d.ops { self.op(o) }
        if !d.frags_first { for f in &d.frags { self.frag(f) } }
    }
    fn desc(&mut self, d: &Option<String>) { if let Some(s) = d { self.string(s) } }
    fn input_val(&mut self, a: &InputVal) {
        self.desc(&a.desc); self.w(&a.name); self.w(":"); self.ty(&a.ty);
        if let Some(d) = &a.default { self.w("="); self.val(d) }
        self.dirs(&a.dirs)
    }
    fn args_def(&mut self, a: &[InputVal]) { if a.is_empty() { return } self.w("("); for x in a { self.input_val(x) } self.w(")") }
    fn ifaces(&mut self, i: &[String]) {
        if i.is_empty() { return }
        self.w("implements"); if self.opt(25) { self.w("&") }
        for (k, x) in i.iter().enumerate() { if k > 0 { self.w("&") } self.w(x) }
    }
    fn fields(&mut self, f: &[FieldDef]) {
        if f.is_empty() { return }
        self.w("{");
        for x in f { self.desc(&x.desc); self.w(&x.name); self.args_def(&x.args); self.w(":"); self.ty(&x.ty); self.dirs(&x.dirs) }
        self.w("}")
    }
    pub fn typedef(&mut self, t: &TypeDef) {
        self.desc(&t.desc); self.w(t.kind.word()); self.w(&t.name);
        match &t.kind {
            Kind::Scalar => self.dirs(&t.dirs),
            Kind::Object { ifaces, fields } | Kind::Interface { ifaces, fields } => { self.ifaces(ifaces); self.dirs(&t.dirs); self.fields(fields) }
            Kind::Union { members } => {
                self.dirs(&t.dirs);
                if !members.is_empty() {
                    self.w("="); if self.opt(25) { self.w("|") }
                    for (k, x) in members.iter().enumerate() { if k > 0 { self.w("|") } self.w(x) }
                }
            }
            Kind::Enum { values } => {
                self.dirs(&t.dirs);
                if !values.is_empty() { self.w("{"); for v in values { self.desc(&v.desc); self.w(&v.name); self.dirs(&v.dirs) } self.w("}") }
            }
            Kind::Input { fields } => {
                self.dirs(&t.dirs);
                if !fields.is_empty() { self.w("{"); for v in fields { self.input_val(v) } self.w("}") }
            }
        }
    }
    pub fn sdoc(&mut self, d: &SDoc) {
        for x in &d.defs {
            match x {
                SDef::Schema(s) => {
                    self.desc(&s.desc); self.w("schema"); self.dirs(&s.dirs); self.w("{");
                    for (k, n) in &s.roots { self.w(k.s()); self.w(":"); self.w(n) }
                    self.w("}")
                }
                SDef::Type(t) => self.typedef(t),
                SDef::Dir(d) => {
                    self.desc(&d.desc); self.w("directive"); self.w("@"); self.w(&d.name); self.args_def(&d.args);
                    if d.repeatable { self.w("repeatable") }
                    self.w("on"); if self.opt(25) { self.w("|") }
                    for (k, l) in d.locs.iter().enumerate() { if k > 0 { self.w("|") } self.w(l) }
                }
            }
        }
    }
}

fn wordy(c: char) -> bool { c.is_ascii_alphanumeric() || c == '_' }

pub fn needs_sep(a: &str, b: &str) -> bool {
    let (Some(x), Some(y)) = (a.chars().last(), b.chars().next()) else { return false };
    (wordy(x) && (wordy(y) || y == '.' || y == '-')) || (x == '"' && y == '"') || (x == '.' && y == '.') || (x == '-' && wordy(y))
}

/// Join tokens, returning the text and each token's byte offset.
pub fn layout(toks: &[String], r: &mut Rng) -> (String, Vec<usize>) {
    let mode = r.n(5);
    let mut s = String::new();
    let mut offs = Vec::with_capacity(toks.len());
    if r.p(10) { s.push('\u{feff}') }
    let gap = |s: &mut String, r: &mut Rng, need: bool| {
        match mode {
            0 => if need { s.push(' ') },
            1 => s.push(' '),
            2 => s.push_str(*r.pick(&[" ", "\n", "\n  ", "  ", "\t", ",", ", "])),
            3 => s.push_str(*r.pick(&[" ", "\r\n", "\r", "\n\n", ",,", " \u{feff} ", "\t"])),
            _ => match r.n(8) {
                0 => { s.push_str("#"); s.push_str(*r.pick(&["", " c", "\"\"\"", " } { \u{e9}\u{1f525}", "##"])); s.push_str(*r.pick(&["\n", "\r", "\r\n"])) }
                1 => s.push_str(" \n "),
                2 => s.push(','),
                3 => s.push_str("\n\n"),
                _ => if need || r.p(50) { s.push(' ') },
            },
        }
    };
    for (i, t) in toks.iter().enumerate() {
        if i > 0 { gap(&mut s, r, needs_sep(&toks[i - 1], t)) } else if r.p(20) { gap(&mut s, r, true) }
        offs.push(s.len());
        s.push_str(t);
    }
    if r.p(30) { gap(&mut s, r, true) }
    (s, offs)
}

pub fn plain(toks: &[String]) -> String {
    // readable: one space everywhere, newline around braces
    let mut s = String::new();
    let mut d = 0usize;
    for (i, t) in toks.iter().enumerate() {
        if t == "}" { d = d.saturating_sub(1); s.push('\n'); s.push_str(&"  ".repeat(d)); }
        else if i > 0 && !matches!(t.as_str(), ":" | ")" | "]" | "!" | "(") && !matches!(toks[i - 1].as_str(), "(" | "[" | "@" | "{") { s.push(' ') }
        s.push_str(t);
        if t == "{" { d += 1; s.push('\n'); s.push_str(&"  ".repeat(d)); }
        if t == "}" { s.push('\n'); s.push_str(&"  ".repeat(d)); }
    }
    s
}

pub fn doc_text(d: &Doc) -> String { let mut e = Emit::new(None); e.doc(d); plain(&e.t) }
pub fn sdoc_text(d: &SDoc) -> String { let mut e = Emit::new(None); e.sdoc(d); plain(&e.t) }
pub fn val_text(v: &Val) -> String { let mut e = Emit::new(None); e.val(v); e.t.join(" ") }
