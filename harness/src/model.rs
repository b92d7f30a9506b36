//! Model AST shared by generators, the reference parser and the reference semantics.
//! Independent of bluejay's own types.
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, Debug)]
pub struct F(pub f64);
impl PartialEq for F { fn eq(&self, o: &F) -> bool { self.0.to_bits() == o.0.to_bits() } }
impl Eq for F {}
impl Hash for F { fn hash<H: Hasher>(&self, h: &mut H) { self.0.to_bits().hash(h) } }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    Var(String), Int(i32), Float(F), Str(String), Bool(bool), Null, Enum(String),
    List(Vec<Val>), Obj(Vec<(String, Val)>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Dir { pub name: String, pub args: Vec<(String, Val)> }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty { Named(String, bool), List(Box<Ty>, bool) }
impl Ty {
    pub fn named(n: &str) -> Ty { Ty::Named(n.to_string(), false) }
    pub fn nn(self) -> Ty { match self { Ty::Named(n, _) => Ty::Named(n, true), Ty::List(t, _) => Ty::List(t, true) } }
    pub fn nullable(&self) -> Ty { match self { Ty::Named(n, _) => Ty::Named(n.clone(), false), Ty::List(t, _) => Ty::List(t.clone(), false) } }
    pub fn list(t: Ty) -> Ty { Ty::List(Box::new(t), false) }
    pub fn req(&self) -> bool { match self { Ty::Named(_, r) | Ty::List(_, r) => *r } }
    pub fn base(&self) -> &str { match self { Ty::Named(n, _) => n, Ty::List(t, _) => t.base() } }
    pub fn set_base(&mut self, s: &str) { match self { Ty::Named(n, _) => *n = s.to_string(), Ty::List(t, _) => t.set_base(s) } }
    pub fn show(&self) -> String {
        match self {
            Ty::Named(n, r) => format!("{n}{}", if *r { "!" } else { "" }),
            Ty::List(t, r) => format!("[{}]{}", t.show(), if *r { "!" } else { "" }),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum OpKind { Query, Mutation, Subscription }
impl OpKind {
    pub const ALL: [OpKind; 3] = [OpKind::Query, OpKind::Mutation, OpKind::Subscription];
    pub fn s(self) -> &'static str { match self { OpKind::Query => "query", OpKind::Mutation => "mutation", OpKind::Subscription => "subscription" } }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct VarDef { pub name: String, pub ty: Ty, pub default: Option<Val>, pub dirs: Vec<Dir> }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Field { pub alias: Option<String>, pub name: String, pub args: Vec<(String, Val)>, pub dirs: Vec<Dir>, pub sel: Vec<Sel> }
impl Field { pub fn key(&self) -> &str { self.alias.as_deref().unwrap_or(&self.name) } }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Sel {
    Field(Field),
    Spread { name: String, dirs: Vec<Dir> },
    Inline { cond: Option<String>, dirs: Vec<Dir>, sel: Vec<Sel> },
}
impl Sel {
    pub fn dirs(&self) -> &Vec<Dir> { match self { Sel::Field(f) => &f.dirs, Sel::Spread { dirs, .. } | Sel::Inline { dirs, .. } => dirs } }
    pub fn dirs_mut(&mut self) -> &mut Vec<Dir> { match self { Sel::Field(f) => &mut f.dirs, Sel::Spread { dirs, .. } | Sel::Inline { dirs, .. } => dirs } }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Op { pub kind: OpKind, pub shorthand: bool, pub name: Option<String>, pub vars: Vec<VarDef>, pub dirs: Vec<Dir>, pub sel: Vec<Sel> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Frag { pub name: String, pub cond: String, pub dirs: Vec<Dir>, pub sel: Vec<Sel> }

/// Executable document. `order` gives the textual order: (true, i) = ops[i], (false, i) = frags[i].
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Doc { pub ops: Vec<Op>, pub frags: Vec<Frag>, pub frags_first: bool }

// ---- type system ----
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct InputVal { pub desc: Option<String>, pub name: String, pub ty: Ty, pub default: Option<Val>, pub dirs: Vec<Dir> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct FieldDef { pub desc: Option<String>, pub name: String, pub args: Vec<InputVal>, pub ty: Ty, pub dirs: Vec<Dir> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct EnumVal { pub desc: Option<String>, pub name: String, pub dirs: Vec<Dir> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Scalar,
    Object { ifaces: Vec<String>, fields: Vec<FieldDef> },
    Interface { ifaces: Vec<String>, fields: Vec<FieldDef> },
    Union { members: Vec<String> },
    Enum { values: Vec<EnumVal> },
    Input { fields: Vec<InputVal> },
}
impl Kind {
    pub fn word(&self) -> &'static str {
        match self { Kind::Scalar => "scalar", Kind::Object { .. } => "type", Kind::Interface { .. } => "interface", Kind::Union { .. } => "union", Kind::Enum { .. } => "enum", Kind::Input { .. } => "input" }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct TypeDef { pub desc: Option<String>, pub name: String, pub dirs: Vec<Dir>, pub kind: Kind }
impl TypeDef {
    pub fn fields(&self) -> &[FieldDef] { match &self.kind { Kind::Object { fields, .. } | Kind::Interface { fields, .. } => fields, _ => &[] } }
    pub fn fields_mut(&mut self) -> Option<&mut Vec<FieldDef>> { match &mut self.kind { Kind::Object { fields, .. } | Kind::Interface { fields, .. } => Some(fields), _ => None } }
    pub fn ifaces(&self) -> &[String] { match &self.kind { Kind::Object { ifaces, .. } | Kind::Interface { ifaces, .. } => ifaces, _ => &[] } }
    pub fn field(&self, n: &str) -> Option<&FieldDef> { self.fields().iter().find(|f| f.name == n) }
    pub fn input_fields(&self) -> &[InputVal] { match &self.kind { Kind::Input { fields } => fields, _ => &[] } }
    pub fn values(&self) -> &[EnumVal] { match &self.kind { Kind::Enum { values } => values, _ => &[] } }
    pub fn members(&self) -> &[String] { match &self.kind { Kind::Union { members } => members, _ => &[] } }
    pub fn is_object(&self) -> bool { matches!(self.kind, Kind::Object { .. }) }
    pub fn is_composite(&self) -> bool { matches!(self.kind, Kind::Object { .. } | Kind::Interface { .. } | Kind::Union { .. }) }
    pub fn is_abstract(&self) -> bool { matches!(self.kind, Kind::Interface { .. } | Kind::Union { .. }) }
    pub fn is_input(&self) -> bool { matches!(self.kind, Kind::Scalar | Kind::Enum { .. } | Kind::Input { .. }) }
    pub fn is_output(&self) -> bool { !matches!(self.kind, Kind::Input { .. }) }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct DirDef { pub desc: Option<String>, pub name: String, pub args: Vec<InputVal>, pub repeatable: bool, pub locs: Vec<String> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct SchemaDef { pub desc: Option<String>, pub dirs: Vec<Dir>, pub roots: Vec<(OpKind, String)> }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum SDef { Schema(SchemaDef), Type(TypeDef), Dir(DirDef) }

/// Schema document, in textual order.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct SDoc { pub defs: Vec<SDef> }
impl SDoc {
    pub fn types(&self) -> impl Iterator<Item = &TypeDef> { self.defs.iter().filter_map(|d| if let SDef::Type(t) = d { Some(t) } else { None }) }
    pub fn types_mut(&mut self) -> impl Iterator<Item = &mut TypeDef> { self.defs.iter_mut().filter_map(|d| if let SDef::Type(t) = d { Some(t) } else { None }) }
    pub fn dirs(&self) -> impl Iterator<Item = &DirDef> { self.defs.iter().filter_map(|d| if let SDef::Dir(t) = d { Some(t) } else { None }) }
    pub fn dirs_mut(&mut self) -> impl Iterator<Item = &mut DirDef> { self.defs.iter_mut().filter_map(|d| if let SDef::Dir(t) = d { Some(t) } else { None }) }
    pub fn schemas(&self) -> impl Iterator<Item = &SchemaDef> { self.defs.iter().filter_map(|d| if let SDef::Schema(t) = d { Some(t) } else { None }) }
}

pub const EXEC_LOCS: [&str; 8] = ["QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "VARIABLE_DEFINITION"];
pub const TS_LOCS: [&str; 11] = ["SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION"];
pub const BUILTIN_SCALARS: [&str; 5] = ["Int", "Float", "String", "Boolean", "ID"];
