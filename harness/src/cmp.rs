//! What a reported change says, beyond its kind and path.
use crate::dump::dump_value;
use bluejay_core::definition::{prelude::*, *};
use bluejay_core::{Argument as _, Directive as _, Value};
use bluejay_schema_comparator::Change as C;
use serde_json::{json, Value as J};

fn def<V: Value<true>>(v: Option<&V>) -> Vec<J> {
    v.map(|x| dump_value(x)).into_iter().collect()
}

/// (where or what else, old text, new text, old and new value)
pub fn detail<S: SchemaDefinition>(c: &C<S>) -> J {
    let d = |x: Option<&str>| x.unwrap_or("").to_string();
    let on = |x: String| json!({"on":x,"a":"","b":"","v":[]});
    let text = |a: String, b: String| json!({"on":"","a":a,"b":b,"v":[]});
    let vals = |a: Vec<J>, b: Vec<J>| {
        let n = format!("{}{}", a.len(), b.len());
        let v: Vec<J> = [a, b].concat();
        json!({"on":n,"a":"","b":"","v":v})
    };
    match c {
        C::TypeKindChanged {
            old_type_definition: a,
            new_type_definition: b,
        } => text(a.kind().to_string(), b.kind().to_string()),
        C::TypeDescriptionChanged {
            old_type_definition: a,
            new_type_definition: b,
        } => text(d(a.description()), d(b.description())),
        C::FieldDescriptionChanged {
            old_field_definition: a,
            new_field_definition: b,
            ..
        } => text(d(a.description()), d(b.description())),
        C::FieldTypeChanged {
            old_field_definition: a,
            new_field_definition: b,
            ..
        } => text(a.r#type().display_name(), b.r#type().display_name()),
        C::FieldArgumentDescriptionChanged {
            old_argument_definition: a,
            new_argument_definition: b,
            ..
        }
        | C::DirectiveDefinitionArgumentDescriptionChanged {
            old_argument_definition: a,
            new_argument_definition: b,
            ..
        } => text(d(a.description()), d(b.description())),
        C::InputFieldDescriptionChanged {
            old_field_definition: a,
            new_field_definition: b,
            ..
        } => text(d(a.description()), d(b.description())),
        C::FieldArgumentDefaultValueChanged {
            old_argument_definition: a,
            new_argument_definition: b,
            ..
        }
        | C::DirectiveDefinitionArgumentDefaultValueChanged {
            old_argument_definition: a,
            new_argument_definition: b,
            ..
        } => vals(def(a.default_value()), def(b.default_value())),
        C::InputFieldDefaultValueChanged {
            old_field_definition: a,
            new_field_definition: b,
            ..
        } => vals(def(a.default_value()), def(b.default_value())),
        C::FieldArgumentTypeChanged {
            old_argument_definition: a,
            new_argument_definition: b,
            ..
        }
        | C::DirectiveDefinitionArgumentTypeChanged {
            old_argument_definition: a,
            new_argument_definition: b,
            ..
        } => text(a.r#type().display_name(), b.r#type().display_name()),
        C::InputFieldTypeChanged {
            old_field_definition: a,
            new_field_definition: b,
            ..
        } => text(a.r#type().display_name(), b.r#type().display_name()),
        C::ObjectInterfaceAddition {
            interface_implementation: i,
            ..
        }
        | C::ObjectInterfaceRemoval {
            interface_implementation: i,
            ..
        } => on(i.name().to_string()),
        C::EnumValueDescriptionChanged {
            old_enum_value_definition: a,
            new_enum_value_definition: b,
            ..
        } => text(d(a.description()), d(b.description())),
        C::UnionMemberAdded {
            union_member_type: m,
            ..
        }
        | C::UnionMemberRemoved {
            union_member_type: m,
            ..
        } => on(m.name().to_string()),
        C::DirectiveDefinitionLocationAdded { location, .. }
        | C::DirectiveDefinitionLocationRemoved { location, .. } => on(location.to_string()),
        C::DirectiveDefinitionDescriptionChanged {
            old_directive_definition: a,
            new_directive_definition: b,
        } => text(d(a.description()), d(b.description())),
        C::DirectiveAdded {
            location,
            member_name,
            ..
        }
        | C::DirectiveRemoved {
            location,
            member_name,
            ..
        } => on(format!("{location} {member_name}")),
        C::DirectiveArgumentAdded { argument, .. }
        | C::DirectiveArgumentRemoved { argument, .. } => {
            json!({"on":"","a":"","b":"","v":[dump_value(argument.value())]})
        }
        C::DirectiveArgumentValueChanged {
            old_argument: a,
            new_argument: b,
            ..
        } => json!({"on":"","a":"","b":"","v":[dump_value(a.value()), dump_value(b.value())]}),
        _ => on(String::new()),
    }
}
