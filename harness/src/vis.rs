//! A warden that hides what a case asks to hide.
use crate::ctx::Ctx;
use bluejay_core::definition::{
    prelude::*, SchemaDefinition as CoreSchemaDefinition, TypeDefinitionReference,
};
use bluejay_core::{AsIter, Directive as _};
use bluejay_parser::ast::definition::{Directives, SchemaDefinition as ParserSchemaDefinition};
use bluejay_visibility::Warden;
use std::collections::BTreeSet;
use std::marker::PhantomData;

#[derive(Default, Clone)]
pub struct Hide {
    pub types: BTreeSet<String>,
    pub members: BTreeSet<String>,
    pub impls: BTreeSet<String>,
    pub directives: BTreeSet<String>,
}

#[derive(Default)]
pub struct HideWarden<'a>(pub Hide, pub PhantomData<ParserSchemaDefinition<'a, Ctx>>);

type S<'a> = ParserSchemaDefinition<'a, Ctx>;

fn shown(directives: Option<&Directives<'_, Ctx>>) -> bool {
    directives.map_or(true, |d| !d.iter().any(|d| d.name() == "hide"))
}

impl<'a> Warden for HideWarden<'a> {
    type SchemaDefinition = S<'a>;
    type TypeDefinitionsForName<'b>
        = std::option::IntoIter<
        TypeDefinitionReference<'b, <S<'a> as CoreSchemaDefinition>::TypeDefinition>,
    >
    where
        Self: 'b;

    fn is_enum_value_definition_visible(
        &self,
        d: &<S<'a> as CoreSchemaDefinition>::EnumValueDefinition,
    ) -> bool {
        shown(d.directives())
    }
    fn is_field_definition_visible(
        &self,
        d: &<S<'a> as CoreSchemaDefinition>::FieldDefinition,
    ) -> bool {
        shown(d.directives())
    }
    fn is_input_value_definition_visible(
        &self,
        d: &<S<'a> as CoreSchemaDefinition>::InputValueDefinition,
    ) -> bool {
        shown(d.directives())
    }
    fn is_interface_implementation_visible(
        &self,
        d: &<S<'a> as CoreSchemaDefinition>::InterfaceImplementation,
    ) -> bool {
        !self.0.impls.contains(d.name())
    }
    fn is_union_member_type_visible(
        &self,
        d: &<S<'a> as CoreSchemaDefinition>::UnionMemberType,
    ) -> bool {
        !self.0.members.contains(d.name())
    }
    fn is_directive_definition_visible(
        &self,
        d: &<S<'a> as CoreSchemaDefinition>::DirectiveDefinition,
    ) -> bool {
        !self.0.directives.contains(d.name())
    }
    fn is_custom_scalar_type_definition_visible(
        &self,
        d: &<S<'a> as CoreSchemaDefinition>::CustomScalarTypeDefinition,
    ) -> bool {
        !self.0.types.contains(d.name())
    }
    fn is_enum_type_definition_visible(
        &self,
        d: &<S<'a> as CoreSchemaDefinition>::EnumTypeDefinition,
    ) -> bool {
        !self.0.types.contains(d.name())
    }
    fn is_input_object_type_definition_visible(
        &self,
        d: &<S<'a> as CoreSchemaDefinition>::InputObjectTypeDefinition,
    ) -> bool {
        !self.0.types.contains(d.name())
    }
    fn is_interface_type_definition_visible(
        &self,
        d: &<S<'a> as CoreSchemaDefinition>::InterfaceTypeDefinition,
    ) -> bool {
        !self.0.types.contains(d.name())
    }
    fn is_object_type_definition_visible(
        &self,
        d: &<S<'a> as CoreSchemaDefinition>::ObjectTypeDefinition,
    ) -> bool {
        !self.0.types.contains(d.name())
    }
    fn is_union_type_definition_visible(
        &self,
        d: &<S<'a> as CoreSchemaDefinition>::UnionTypeDefinition,
    ) -> bool {
        !self.0.types.contains(d.name())
    }
    fn type_definitions_for_name<'b>(
        &self,
        schema_definition: &'b S<'a>,
        type_name: &str,
    ) -> Self::TypeDefinitionsForName<'b> {
        schema_definition.get_type_definition(type_name).into_iter()
    }
}
