//! A warden that hides by kind and name.
use crate::rng::{hash_str, mix};
use crate::sys::{MonCtx, Schema};
use bluejay_core::definition as cd;
use bluejay_core::definition::{prelude::*, SchemaDefinition, TypeDefinitionReference as TR};
use bluejay_parser::ast::definition as pd;
use bluejay_visibility as bv;
use bluejay_visibility::Warden;

#[derive(Clone, Copy)]
pub struct Coin { pub seed: u64, pub rate: u32 }
impl Coin { fn show(&self, k: &str, n: &str) -> bool { (mix(hash_str(n) ^ hash_str(k) ^ self.seed) % 100) as u32 >= self.rate } }
/// hides what a coin says, by kind and name
pub struct CoinWarden<'a> { c: Coin, _s: std::marker::PhantomData<Schema<'a>> }
impl<'a> CoinWarden<'a> { pub fn of(c: Coin) -> Self { CoinWarden { c, _s: Default::default() } }
    pub fn new(seed: u64, rate: u32) -> Self { CoinWarden::of(Coin { seed, rate }) } }
impl<'a> Warden for CoinWarden<'a> {
    type SchemaDefinition = Schema<'a>;
    type TypeDefinitionsForName<'b> = std::option::IntoIter<TR<'b, pd::TypeDefinition<'a, MonCtx>>> where Self: 'b;
    fn is_field_definition_visible(&self, x: &pd::FieldDefinition<'a, MonCtx>) -> bool { self.c.show("F", cd::FieldDefinition::name(x)) }
    fn is_input_value_definition_visible(&self, x: &pd::InputValueDefinition<'a, MonCtx>) -> bool { self.c.show("A", cd::InputValueDefinition::name(x)) }
    fn is_enum_value_definition_visible(&self, x: &pd::EnumValueDefinition<'a, MonCtx>) -> bool { self.c.show("V", cd::EnumValueDefinition::name(x)) }
    fn is_union_member_type_visible(&self, x: &pd::UnionMemberType<'a, MonCtx>) -> bool { self.c.show("M", cd::UnionMemberType::name(x)) }
    fn is_interface_implementation_visible(&self, x: &pd::InterfaceImplementation<'a, MonCtx>) -> bool { self.c.show("I", cd::InterfaceImplementation::name(x)) }
    fn is_directive_definition_visible(&self, x: &pd::DirectiveDefinition<'a, MonCtx>) -> bool { self.c.show("D", cd::DirectiveDefinition::name(x)) }
    fn is_custom_scalar_type_definition_visible(&self, x: &pd::CustomScalarTypeDefinition<'a, MonCtx>) -> bool { self.c.show("T", x.name()) }
    fn is_enum_type_definition_visible(&self, x: &pd::EnumTypeDefinition<'a, MonCtx>) -> bool { self.c.show("T", cd::EnumTypeDefinition::name(x)) }
    fn is_input_object_type_definition_visible(&self, x: &pd::InputObjectTypeDefinition<'a, MonCtx>) -> bool { self.c.show("T", cd::InputObjectTypeDefinition::name(x)) }
    fn is_interface_type_definition_visible(&self, x: &pd::InterfaceTypeDefinition<'a, MonCtx>) -> bool { self.c.show("T", cd::InterfaceTypeDefinition::name(x)) }
    fn is_object_type_definition_visible(&self, x: &pd::ObjectTypeDefinition<'a, MonCtx>) -> bool { self.c.show("T", cd::ObjectTypeDefinition::name(x)) }
    fn is_union_type_definition_visible(&self, x: &pd::UnionTypeDefinition<'a, MonCtx>) -> bool { self.c.show("T", cd::UnionTypeDefinition::name(x)) }
    fn input_value_definition_default_value<'b>(&self, x: &bv::InputValueDefinition<'b, Schema<'a>, Self>) -> Option<&'b V<'a>> { x.inner().default_value() }
    fn directive_arguments<'b>(&self, x: &bv::Directive<'b, Schema<'a>, Self>) -> Option<&'b Args<'a>> { bluejay_core::Directive::arguments(x.inner()) }
    fn custom_scalar_definition_coerce_input<const CONST: bool>(&self, x: &pd::CustomScalarTypeDefinition<'a, MonCtx>, value: &impl bluejay_core::Value<CONST>) -> Result<(), std::borrow::Cow<'static, str>> { x.coerce_input(value) }
    fn type_definitions_for_name<'b>(&self, s: &'b Schema<'a>, n: &str) -> Self::TypeDefinitionsForName<'b> { s.get_type_definition(n).into_iter() }
}
type V<'a> = <pd::InputValueDefinition<'a, MonCtx> as cd::InputValueDefinition>::Value;
type Args<'a> = <<Schema<'a> as SchemaDefinition>::Directive as bluejay_core::Directive<true>>::Arguments;

