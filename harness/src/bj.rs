//! bluejay (through the bluejay-core accessor traits only) -> model.
use crate::model::*;
use bluejay_core::definition as cd;
use bluejay_core::definition::{prelude::*, TypeDefinitionReference as TR};
use bluejay_core::executable::{self as ce, Selection as _, SelectionReference};
use bluejay_core::{Argument as _, AsIter, Directive as _, ObjectValue as _, OperationType, ValueReference, Variable as _};

pub fn val<const C: bool, V: bluejay_core::Value<C>>(v: &V) -> Val {
    match v.as_ref() {
        ValueReference::Variable(n) => Val::Var(n.name().to_string()),
        ValueReference::Integer(i) => Val::Int(i),
        ValueReference::Float(f) => Val::Float(F(f)),
        ValueReference::String(s) => Val::Str(s.to_string()),
        ValueReference::Boolean(b) => Val::Bool(b),
        ValueReference::Null => Val::Null,
        ValueReference::Enum(e) => Val::Enum(e.to_string()),
        ValueReference::List(l) => Val::List(l.iter().map(|x| val(x)).collect()),
        ValueReference::Object(o) => Val::Obj(o.iter().map(|(k, v)| (k.as_ref().to_string(), val(v))).collect()),
    }
}
pub fn args<const C: bool, A: bluejay_core::Arguments<C>>(a: Option<&A>) -> Vec<(String, Val)> {
    a.map(|a| a.iter().map(|x| (x.name().to_string(), val(x.value()))).collect()).unwrap_or_default()
}
pub fn dirs_one<const C: bool, D: bluejay_core::Directive<C>>(x: &D) -> Dir { Dir { name: x.name().to_string(), args: args(x.arguments()) } }
pub fn dirs<const C: bool, D: bluejay_core::Directives<C>>(d: Option<&D>) -> Vec<Dir> {
    d.map(|d| d.iter().map(|x| Dir { name: x.name().to_string(), args: args(x.arguments()) }).collect()).unwrap_or_default()
}
pub fn vty<T: ce::VariableType>(t: &T) -> Ty {
    match t.as_ref() { ce::VariableTypeReference::Named(n, r) => Ty::Named(n.to_string(), r), ce::VariableTypeReference::List(i, r) => Ty::List(Box::new(vty(i)), r) }
}
pub fn sel<S: ce::SelectionSet>(s: &S) -> Vec<Sel> {
    s.iter().map(|x| match x.as_ref() {
        SelectionReference::Field(f) => Sel::Field(Field {
            alias: ce::Field::alias(f).map(str::to_string), name: ce::Field::name(f).to_string(), args: args(ce::Field::arguments(f)),
            dirs: dirs(ce::Field::directives(f)), sel: ce::Field::selection_set(f).map(|s| sel(s)).unwrap_or_default(),
        }),
        SelectionReference::FragmentSpread(f) => Sel::Spread { name: ce::FragmentSpread::name(f).to_string(), dirs: dirs(ce::FragmentSpread::directives(f)) },
        SelectionReference::InlineFragment(f) => Sel::Inline { cond: ce::InlineFragment::type_condition(f).map(str::to_string), dirs: dirs(ce::InlineFragment::directives(f)), sel: sel(ce::InlineFragment::selection_set(f)) },
    }).collect()
}
pub fn opkind(o: OperationType) -> OpKind { match o { OperationType::Query => OpKind::Query, OperationType::Mutation => OpKind::Mutation, OperationType::Subscription => OpKind::Subscription } }
pub fn op<O: ce::OperationDefinition>(o: &O) -> Op {
    let shorthand = matches!(o.as_ref(), ce::OperationDefinitionReference::Implicit(_));
    let o = o.as_ref();
    Op {
        kind: opkind(o.operation_type()), shorthand, name: o.name().map(str::to_string),
        vars: o.variable_definitions().map(|v| v.iter().map(|d| {
            use ce::VariableDefinition as VD;
            VarDef { name: VD::variable(d).to_string(), ty: vty(VD::r#type(d)), default: VD::default_value(d).map(|v| val(v)), dirs: dirs(VD::directives(d)) }
        }).collect()).unwrap_or_default(),
        dirs: dirs(o.directives()), sel: sel(o.selection_set()),
    }
}
pub fn doc<E: ce::ExecutableDocument>(d: &E) -> Doc {
    Doc {
        ops: d.operation_definitions().map(|o| op(o)).collect(),
        frags: d.fragment_definitions().map(|f| {
            use ce::FragmentDefinition as FD;
            Frag { name: FD::name(f).to_string(), cond: FD::type_condition(f).to_string(), dirs: dirs(FD::directives(f)), sel: sel(FD::selection_set(f)) }
        }).collect(),
        frags_first: false,
    }
}

// ---- type system through the SchemaDefinition traits ----
fn s(d: Option<&str>) -> Option<String> { d.map(str::to_string) }
pub fn ity<I: cd::InputType>(t: &I) -> Ty {
    match t.as_shallow_ref() { cd::ShallowInputTypeReference::Base(n, r) => Ty::Named(n.to_string(), r), cd::ShallowInputTypeReference::List(i, r) => Ty::List(Box::new(ity(i)), r) }
}
pub fn oty<I: cd::OutputType>(t: &I) -> Ty {
    match t.as_shallow_ref() { cd::ShallowOutputTypeReference::Base(n, r) => Ty::Named(n.to_string(), r), cd::ShallowOutputTypeReference::List(i, r) => Ty::List(Box::new(oty(i)), r) }
}
pub fn input_val<I: cd::InputValueDefinition>(i: &I) -> InputVal {
    InputVal { desc: s(i.description()), name: i.name().to_string(), ty: ity(i.r#type()), default: i.default_value().map(|v| val(v)), dirs: dirs(i.directives()) }
}
pub fn args_def<A: cd::ArgumentsDefinition>(a: Option<&A>) -> Vec<InputVal> { a.map(|a| a.iter().map(|x| input_val(x)).collect()).unwrap_or_default() }
pub fn field_def<D: cd::FieldDefinition>(f: &D) -> FieldDef {
    FieldDef { desc: s(f.description()), name: f.name().to_string(), args: args_def(f.arguments_definition()), ty: oty(f.r#type()), dirs: dirs(f.directives()) }
}
/// Fields as written: built-in meta fields (`__typename`, `__schema`, `__type`) are left out unless `builtin`.
pub fn fields<D: cd::FieldsDefinition>(f: &D, builtin: bool) -> Vec<FieldDef> { f.iter().filter(|x| builtin || !x.is_builtin()).map(|x| field_def(x)).collect() }

pub fn typedef<T: cd::TypeDefinition>(t: TR<'_, T>, builtin: bool) -> TypeDef {
    let kind = match &t {
        TR::BuiltinScalar(_) | TR::CustomScalar(_) => Kind::Scalar,
        TR::Object(o) => Kind::Object { ifaces: cd::ObjectTypeDefinition::interface_implementations(*o).map(|i| i.iter().map(|x| x.name().to_string()).collect()).unwrap_or_default(), fields: fields(cd::ObjectTypeDefinition::fields_definition(*o), builtin) },
        TR::Interface(o) => Kind::Interface { ifaces: cd::InterfaceTypeDefinition::interface_implementations(*o).map(|i| i.iter().map(|x| x.name().to_string()).collect()).unwrap_or_default(), fields: fields(cd::InterfaceTypeDefinition::fields_definition(*o), builtin) },
        TR::Union(u) => Kind::Union { members: u.union_member_types().iter().map(|m| m.name().to_string()).collect() },
        TR::Enum(e) => Kind::Enum { values: e.enum_value_definitions().iter().map(|v| EnumVal { desc: s(v.description()), name: v.name().to_string(), dirs: dirs(v.directives()) }).collect() },
        TR::InputObject(i) => Kind::Input { fields: i.input_field_definitions().iter().map(|x| input_val(x)).collect() },
    };
    TypeDef { desc: s(t.description()), name: t.name().to_string(), dirs: dirs(t.directives()), kind }
}
pub fn dirdef<D: cd::DirectiveDefinition>(d: &D) -> DirDef {
    DirDef { desc: s(d.description()), name: d.name().to_string(), args: args_def(d.arguments_definition()), repeatable: d.is_repeatable(), locs: d.locations().iter().map(|l| l.to_string()).collect() }
}

/// A whole schema view: types and directives (sorted by name), roots, description, directives.
#[derive(Clone, Debug, PartialEq)]
pub struct View {
    pub desc: Option<String>, pub dirs: Vec<Dir>,
    pub query: String, pub mutation: Option<String>, pub subscription: Option<String>,
    pub types: Vec<TypeDef>, pub directives: Vec<DirDef>,
    pub builtin_types: Vec<String>, pub builtin_directives: Vec<String>,
}
pub fn view<S: cd::SchemaDefinition>(sd: &S, builtin_fields: bool) -> View {
    let mut types = vec![]; let mut builtin_types = vec![];
    for t in sd.type_definitions() { if t.is_builtin() { builtin_types.push(t.name().to_string()) } else { types.push(typedef(t, builtin_fields)) } }
    let mut directives = vec![]; let mut builtin_directives = vec![];
    for d in sd.directive_definitions() { if d.is_builtin() { builtin_directives.push(d.name().to_string()) } else { directives.push(dirdef(d)) } }
    types.sort_by(|a, b| a.name.cmp(&b.name)); directives.sort_by(|a, b| a.name.cmp(&b.name));
    builtin_types.sort(); builtin_directives.sort();
    View {
        desc: s(sd.description()), dirs: dirs(sd.directives()), query: sd.query().name().to_string(),
        mutation: sd.mutation().map(|o| o.name().to_string()), subscription: sd.subscription().map(|o| o.name().to_string()),
        types, directives, builtin_types, builtin_directives,
    }
}
