//! Helpers around the code under test.
use crate::bj;
use crate::model::*;
use crate::refcoerce;
use bluejay_core::definition::prelude::*;
use bluejay_parser::ast::definition::{Context, CustomScalarTypeDefinition, DefinitionDocument, SchemaDefinition};
use bluejay_parser::ast::Parse;
use std::borrow::Cow;

/// Custom scalars with the rules the reference knows.
#[derive(Debug)]
pub struct MonCtx;
impl Context for MonCtx {
    fn coerce_custom_scalar_input<const CONST: bool>(cstd: &CustomScalarTypeDefinition<Self>, value: &impl bluejay_core::Value<CONST>) -> Result<(), Cow<'static, str>> {
        if refcoerce::custom_ok(cstd.name(), &bj::val(value)) { Ok(()) } else { Err(Cow::Borrowed("custom scalar rule")) }
    }
}
pub type Schema<'a> = SchemaDefinition<'a, MonCtx>;
pub type DDoc<'a> = DefinitionDocument<'a, MonCtx>;

pub fn with_schema<R>(text: &str, f: impl for<'a, 'b> FnOnce(&'b Schema<'a>) -> R) -> Result<R, String> {
    let d = DDoc::parse(text).map_err(|e| format!("does not parse: {:?}", e.first()))?;
    let s = SchemaDefinition::try_from(&d).map_err(|e| format!("does not build: {} errors, first {:?}", e.len(), e.first().map(|x| format!("{x:?}").chars().take(300).collect::<String>())))?;
    Ok(f(&s))
}

pub fn vtext(s: &SDoc) -> String { crate::emit::sdoc_text(s) }
