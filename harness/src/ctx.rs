//! A context in which custom scalars refuse values: what a scalar takes depends on its name (lib/gql.py: TAKES).
use bluejay_core::definition::ScalarTypeDefinition;
use bluejay_core::{Value, ValueReference};
use bluejay_parser::ast::definition::{Context, CustomScalarTypeDefinition};
use std::borrow::Cow;

#[derive(Debug)]
pub struct Ctx;

impl Context for Ctx {
    fn coerce_custom_scalar_input<const CONST: bool>(
        cstd: &CustomScalarTypeDefinition<Self>,
        value: &impl Value<CONST>,
    ) -> Result<(), Cow<'static, str>> {
        let takes: &[&str] = match cstd.name() {
            "Digits" => &["str"],
            "Count" => &["int", "float", "bool"],
            "Shape" => &["list", "obj", "enum"],
            _ => return Ok(()),
        };
        let kind = match value.as_ref() {
            ValueReference::Variable(_) => "var",
            ValueReference::Integer(_) => "int",
            ValueReference::Float(_) => "float",
            ValueReference::String(_) => "str",
            ValueReference::Boolean(_) => "bool",
            ValueReference::Null => "null",
            ValueReference::Enum(_) => "enum",
            ValueReference::List(_) => "list",
            ValueReference::Object(_) => "obj",
        };
        if takes.contains(&kind) {
            Ok(())
        } else {
            Err(Cow::Borrowed(kind))
        }
    }
}
