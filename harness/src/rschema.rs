//! Reference schema: an index over the model definitions, with the specification's built-ins added.
use crate::model::*;
use crate::refparse;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const INTRO: &str = r#"
type __Schema { description: String types: [__Type!]! queryType: __Type! mutationType: __Type subscriptionType: __Type directives: [__Directive!]! }
type __Type { kind: __TypeKind! name: String description: String fields(includeDeprecated: Boolean = false): [__Field!] interfaces: [__Type!] possibleTypes: [__Type!] enumValues(includeDeprecated: Boolean = false): [__EnumValue!] inputFields(includeDeprecated: Boolean = false): [__InputValue!] ofType: __Type specifiedByURL: String }
enum __TypeKind { SCALAR OBJECT INTERFACE UNION ENUM INPUT_OBJECT LIST NON_NULL }
type __Field { name: String! description: String args(includeDeprecated: Boolean = false): [__InputValue!]! type: __Type! isDeprecated: Boolean! deprecationReason: String }
type __InputValue { name: String! description: String type: __Type! defaultValue: String }
type __EnumValue { name: String! description: String isDeprecated: Boolean! deprecationReason: String }
type __Directive { name: String! description: String locations: [__DirectiveLocation!]! args(includeDeprecated: Boolean = false): [__InputValue!]! isRepeatable: Boolean! }
enum __DirectiveLocation { QUERY MUTATION SUBSCRIPTION FIELD FRAGMENT_DEFINITION FRAGMENT_SPREAD INLINE_FRAGMENT VARIABLE_DEFINITION SCHEMA SCALAR OBJECT FIELD_DEFINITION ARGUMENT_DEFINITION INTERFACE UNION ENUM ENUM_VALUE INPUT_OBJECT INPUT_FIELD_DEFINITION }
directive @skip(if: Boolean!) on FIELD | FRAGMENT_SPREAD | INLINE_FRAGMENT
directive @include(if: Boolean!) on FIELD | FRAGMENT_SPREAD | INLINE_FRAGMENT
directive @deprecated(reason: String = "No longer supported") on FIELD_DEFINITION | ARGUMENT_DEFINITION | INPUT_FIELD_DEFINITION | ENUM_VALUE
directive @specifiedBy(url: String!) on SCALAR
directive @oneOf on INPUT_OBJECT
"#;

#[derive(Clone, Debug)]
pub struct RS {
    pub types: BTreeMap<String, TypeDef>,
    /// user-defined types in textual order
    pub order: Vec<String>,
    pub dirs: BTreeMap<String, DirDef>,
    pub user_dirs: Vec<String>,
    pub query: String, pub mutation: Option<String>, pub subscription: Option<String>,
    pub desc: Option<String>, pub schema_dirs: Vec<Dir>,
    pub explicit: bool,
    possible: HashMap<String, BTreeSet<String>>,
    meta: [FieldDef; 3],
}

pub fn intro() -> &'static SDoc {
    static D: std::sync::OnceLock<SDoc> = std::sync::OnceLock::new();
    D.get_or_init(|| refparse::parse_sdoc(INTRO).expect("introspection"))
}

impl RS {
    /// The document must be a buildable schema (see refbuild for the judgement).
    pub fn new(d: &SDoc) -> RS {
        let mut types = BTreeMap::new(); let mut dirs = BTreeMap::new();
        for s in BUILTIN_SCALARS { types.insert(s.to_string(), TypeDef { desc: None, name: s.into(), dirs: vec![], kind: Kind::Scalar }); }
        for t in intro().types() { types.insert(t.name.clone(), t.clone()); }
        for t in intro().dirs() { dirs.insert(t.name.clone(), t.clone()); }
        let mut order = vec![]; let mut user_dirs = vec![];
        for t in d.types() { order.push(t.name.clone()); types.insert(t.name.clone(), t.clone()); }
        for t in d.dirs() { user_dirs.push(t.name.clone()); dirs.insert(t.name.clone(), t.clone()); }
        let (mut q, mut m, mut s) = ("Query".to_string(), None, None);
        let mut desc = None; let mut sd = vec![]; let mut explicit = false;
        if let Some(x) = d.schemas().next() {
            explicit = true; desc = x.desc.clone(); sd = x.dirs.clone();
            for (k, n) in &x.roots { match k { OpKind::Query => q = n.clone(), OpKind::Mutation => m = Some(n.clone()), OpKind::Subscription => s = Some(n.clone()) } }
        } else {
            if types.get("Mutation").map_or(false, |t: &TypeDef| t.is_object()) { m = Some("Mutation".into()) }
            if types.get("Subscription").map_or(false, |t: &TypeDef| t.is_object()) { s = Some("Subscription".into()) }
        }
        let mut possible: HashMap<String, BTreeSet<String>> = HashMap::new();
        for t in types.values() {
            let p = match &t.kind {
                Kind::Object { .. } => [t.name.clone()].into(),
                Kind::Union { members } => members.iter().cloned().collect(),
                Kind::Interface { .. } => types.values().filter(|o| o.is_object() && o.ifaces().contains(&t.name)).map(|o| o.name.clone()).collect(),
                _ => continue,
            };
            possible.insert(t.name.clone(), p);
        }
        let f = |n: &str, args: Vec<InputVal>, ty: Ty| FieldDef { desc: None, name: n.into(), args, ty, dirs: vec![] };
        let meta = [
            f("__typename", vec![], Ty::named("String").nn()),
            f("__schema", vec![], Ty::named("__Schema").nn()),
            f("__type", vec![InputVal { desc: None, name: "name".into(), ty: Ty::named("String").nn(), default: None, dirs: vec![] }], Ty::named("__Type")),
        ];
        RS { types, order, dirs, user_dirs, query: q, mutation: m, subscription: s, desc, schema_dirs: sd, explicit, possible, meta }
    }
    pub fn ty(&self, n: &str) -> Option<&TypeDef> { self.types.get(n) }
    pub fn user_types(&self) -> impl Iterator<Item = &TypeDef> { self.order.iter().map(|n| &self.types[n]) }
    pub fn is_builtin_type(&self, n: &str) -> bool { !self.order.iter().any(|x| x == n) }
    pub fn root(&self, k: OpKind) -> Option<&str> { match k { OpKind::Query => Some(&self.query), OpKind::Mutation => self.mutation.as_deref(), OpKind::Subscription => self.subscription.as_deref() } }
    /// concrete object types a composite type can resolve to
    pub fn possible(&self, n: &str) -> Option<&BTreeSet<String>> { self.possible.get(n) }
    /// field lookup including the meta fields
    pub fn field(&self, parent: &str, name: &str) -> Option<&FieldDef> {
        let t = self.ty(parent)?;
        if !t.is_composite() { return None }
        if let Some(f) = t.field(name) { return Some(f) }
        match name {
            "__typename" => Some(&self.meta[0]),
            "__schema" if parent == self.query => Some(&self.meta[1]),
            "__type" if parent == self.query => Some(&self.meta[2]),
            _ => None,
        }
    }
    pub fn kind_is_leaf(&self, n: &str) -> bool { matches!(self.ty(n).map(|t| &t.kind), Some(Kind::Scalar | Kind::Enum { .. })) }
    pub fn is_one_of(&self, n: &str) -> bool { self.ty(n).map_or(false, |t| matches!(t.kind, Kind::Input { .. }) && t.dirs.iter().any(|d| d.name == "oneOf")) }
    pub fn dir(&self, n: &str) -> Option<&DirDef> { self.dirs.get(n) }
}
/// `@deprecated` reason if present
pub fn deprecation(dirs: &[Dir]) -> Option<String> {
    dirs.iter().find(|d| d.name == "deprecated").map(|d| d.args.iter().find(|a| a.0 == "reason").and_then(|a| if let Val::Str(s) = &a.1 { Some(s.clone()) } else { None }).unwrap_or_else(|| "No longer supported".to_string()))
}
