use crate::dump::{dump_itype, dump_vtype, Ids};
use bluejay_core::definition::{
    DirectiveDefinition, FieldDefinition, InputType, InputValueDefinition, SchemaDefinition,
};
use bluejay_core::executable::{
    Field, FragmentDefinition, FragmentSpread, OperationDefinition, VariableDefinition,
};
use bluejay_core::{Argument, Directive, ObjectValue, Value, Variable};
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::Error as ParserError;
use bluejay_validator::executable::document::{
    ArgumentError, BuiltinRulesValidator, DirectiveError, Error,
};
use bluejay_validator::executable::Cache;
use bluejay_validator::value::input_coercion::Error as CErr;
use serde_json::{json, Value as J};

fn e(k: impl Into<String>, id: i64, x: impl Into<String>) -> J {
    json!({"k":k.into(),"id":id,"x":x.into()})
}

pub struct CoercionFact {
    pub kind: &'static str,
    /// what the error names; one entry per thing named
    pub xs: Vec<String>,
    pub path: String,
}

/// What a coercion error says: its kind, what it names, where (path), and the node it points to.
pub fn coercion_fact<'a, const C: bool, V: Value<C>>(
    err: &CErr<'a, C, V>,
    value_id: &mut dyn FnMut(&V) -> i64,
    key_id: &mut dyn FnMut(&<V::Object as ObjectValue<C>>::Key) -> i64,
) -> (CoercionFact, i64) {
    let names = |v: &Vec<(&<V::Object as ObjectValue<C>>::Key, &V)>| {
        v.iter()
            .map(|(k, _)| k.as_ref().to_string())
            .collect::<Vec<String>>()
    };
    let (kind, xs, path, id): (_, Vec<String>, _, _) = match err {
        CErr::NullValueForRequiredType {
            value,
            input_type_name,
            path,
        } => ("Null", vec![input_type_name.clone()], path, value_id(value)),
        CErr::NoImplicitConversion {
            value,
            input_type_name,
            path,
        } => (
            "NoConversion",
            vec![input_type_name.clone()],
            path,
            value_id(value),
        ),
        CErr::NoEnumMemberWithName {
            name,
            value,
            enum_type_name,
            path,
        } => (
            "NoEnumMember",
            vec![format!("{enum_type_name}.{name}")],
            path,
            value_id(value),
        ),
        CErr::NoValueForRequiredFields {
            value,
            field_names,
            input_object_type_name,
            path,
        } => (
            "MissingFields",
            field_names
                .iter()
                .map(|f| format!("{input_object_type_name}.{f}"))
                .collect(),
            path,
            value_id(value),
        ),
        CErr::NonUniqueFieldNames {
            value,
            field_name,
            path,
            ..
        } => (
            "DuplicateField",
            vec![field_name.to_string()],
            path,
            value_id(value),
        ),
        CErr::NoInputFieldWithName {
            field,
            input_object_type_name,
            path,
        } => (
            "UnknownField",
            vec![format!("{input_object_type_name}.{}", field.as_ref())],
            path,
            key_id(field),
        ),
        CErr::CustomScalarInvalidValue {
            value,
            custom_scalar_type_name,
            message,
            path,
        } => (
            "CustomScalar",
            vec![format!("{custom_scalar_type_name} {message}")],
            path,
            value_id(value),
        ),
        CErr::OneOfInputNullValues {
            value,
            input_object_type_name,
            null_entries,
            path,
        } => (
            "OneOfNull",
            names(null_entries)
                .iter()
                .map(|f| format!("{input_object_type_name}.{f}"))
                .collect(),
            path,
            value_id(value),
        ),
        CErr::OneOfInputNotSingleNonNullValue {
            value,
            input_object_type_name,
            non_null_entries,
            path,
        } => (
            "OneOfNotSingle",
            {
                let _ = names(non_null_entries);
                vec![input_object_type_name.to_string()]
            },
            path,
            value_id(value),
        ),
    };
    let _ = err.message();
    let path: Vec<String> = path.to_vec();
    (
        CoercionFact {
            kind,
            xs,
            path: path.join("/"),
        },
        id,
    )
}

fn args<const C: bool, S: SchemaDefinition>(
    err: &ArgumentError<'_, C, ExecutableDocument<'_>, S>,
    ids: &Ids,
    out: &mut Vec<J>,
) {
    match err {
        ArgumentError::NonUniqueArgumentNames { arguments, name } => {
            for a in arguments {
                out.push(e("DuplicateArgument", ids.get("argument", *a), *name))
            }
        }
        ArgumentError::ArgumentDoesNotExistOnField {
            argument,
            field_definition,
        } => {
            let _ = field_definition.name();
            out.push(e(
                "UnknownArgument",
                ids.get("argument", *argument),
                Argument::name(*argument),
            ))
        }
        ArgumentError::ArgumentDoesNotExistOnDirective {
            argument,
            directive_definition,
        } => {
            let _ = directive_definition.name();
            out.push(e(
                "UnknownArgument",
                ids.get("argument", *argument),
                Argument::name(*argument),
            ))
        }
        ArgumentError::DirectiveMissingRequiredArguments {
            directive,
            missing_argument_definitions,
            ..
        } => {
            for m in missing_argument_definitions {
                out.push(e(
                    "MissingArgument",
                    ids.get("directive", *directive),
                    m.name(),
                ))
            }
        }
        ArgumentError::FieldMissingRequiredArguments {
            field,
            missing_argument_definitions,
            ..
        } => {
            for m in missing_argument_definitions {
                out.push(e("MissingArgument", ids.get("field", *field), m.name()))
            }
        }
    }
}

fn dirs<const C: bool, S: SchemaDefinition>(
    err: &DirectiveError<'_, C, ExecutableDocument<'_>, S>,
    ids: &Ids,
    out: &mut Vec<J>,
) {
    match err {
        DirectiveError::DirectiveDoesNotExist { directive } => out.push(e(
            "UnknownDirective",
            ids.get("directive", *directive),
            Directive::name(*directive),
        )),
        DirectiveError::DirectiveInInvalidLocation {
            directive,
            location,
            ..
        } => out.push(e(
            "DirectiveLocation",
            ids.get("directive", *directive),
            location.as_ref(),
        )),
        DirectiveError::DirectivesNotUniquePerLocation {
            directives,
            directive_definition,
        } => {
            for d in directives {
                out.push(e(
                    "DuplicateDirective",
                    ids.get("directive", *d),
                    directive_definition.name(),
                ))
            }
        }
    }
}

/// Validates and reports every error as a fact about an exact occurrence in the document.
pub fn validate<'a, S: SchemaDefinition>(doc: &'a ExecutableDocument<'a>, schema: &'a S) -> Vec<J> {
    let ids = Ids::number(doc);
    let cache = Cache::new(doc, schema);
    let mut out = Vec::new();
    for err in BuiltinRulesValidator::validate(doc, schema, &cache) {
        facts(&err, &ids, &mut out);
    }
    out
}

/// Every error with its facts and the places it is reported at.
pub fn located<'a, S: SchemaDefinition>(
    src: &str,
    doc: &'a ExecutableDocument<'a>,
    schema: &'a S,
) -> Vec<J> {
    let ids = Ids::number(doc);
    let cache = Cache::new(doc, schema);
    BuiltinRulesValidator::validate(doc, schema, &cache)
        .map(|err| {
            let mut out = Vec::new();
            facts(&err, &ids, &mut out);
            let locs: Vec<J> = ParserError::into_graphql_errors(src, [err])
                .into_iter()
                .flat_map(|e| {
                    e.locations
                        .iter()
                        .map(|l| json!([l.line, l.col]))
                        .collect::<Vec<_>>()
                })
                .collect();
            json!({"facts":out,"locs":locs})
        })
        .collect()
}

fn facts<'a, S: SchemaDefinition>(
    err: &Error<'a, ExecutableDocument<'a>, S>,
    ids: &Ids,
    out: &mut Vec<J>,
) {
    match err {
        Error::NonUniqueOperationNames { name, operations } => {
            for o in operations {
                out.push(e("DuplicateOperation", ids.get("explicit", *o), *name))
            }
        }
        Error::NotLoneAnonymousOperation {
            anonymous_operations,
        } => {
            for o in anonymous_operations {
                out.push(e("LoneAnonymous", ids.get("operation", *o), ""))
            }
        }
        Error::SubscriptionRootNotSingleField { operation } => {
            out.push(e("SubscriptionRoot", ids.get("operation", *operation), ""))
        }
        Error::FieldDoesNotExistOnType { field, r#type } => {
            out.push(e("UnknownField", ids.get("field", *field), r#type.name()))
        }
        Error::OperationTypeNotDefined { operation } => {
            out.push(e("OperationType", ids.get("explicit", *operation), ""))
        }
        Error::LeafFieldSelectionNotEmpty { selection_set, .. } => {
            out.push(e("LeafSelection", ids.get("selset", *selection_set), ""))
        }
        Error::NonLeafFieldSelectionEmpty { field, .. } => {
            out.push(e("NoSelection", ids.get("field", *field), ""))
        }
        Error::NonUniqueFragmentDefinitionNames {
            name,
            fragment_definitions,
        } => {
            for o in fragment_definitions {
                out.push(e("DuplicateFragment", ids.get("fragment", *o), *name))
            }
        }
        Error::FragmentDefinitionTargetTypeDoesNotExist {
            fragment_definition,
        } => out.push(e(
            "UnknownTypeCondition",
            ids.get("fragment", *fragment_definition),
            "",
        )),
        Error::InlineFragmentTargetTypeDoesNotExist { inline_fragment } => out.push(e(
            "UnknownTypeCondition",
            ids.get("inline", *inline_fragment),
            "",
        )),
        Error::FragmentDefinitionTargetTypeNotComposite {
            fragment_definition,
        } => out.push(e(
            "NotComposite",
            ids.get("fragment", *fragment_definition),
            "",
        )),
        Error::InlineFragmentTargetTypeNotComposite { inline_fragment } => {
            out.push(e("NotComposite", ids.get("inline", *inline_fragment), ""))
        }
        Error::FragmentDefinitionUnused {
            fragment_definition,
        } => out.push(e(
            "UnusedFragment",
            ids.get("fragment", *fragment_definition),
            "",
        )),
        Error::FragmentSpreadTargetUndefined { fragment_spread } => out.push(e(
            "UnknownFragment",
            ids.get("spread", *fragment_spread),
            FragmentSpread::name(*fragment_spread),
        )),
        Error::FragmentSpreadCycle {
            fragment_definition,
            fragment_spread,
        } => out.push(e(
            "FragmentCycle",
            ids.get("spread", *fragment_spread),
            FragmentDefinition::name(*fragment_definition),
        )),
        Error::FieldSelectionsDoNotMergeIncompatibleTypes {
            field_a, field_b, ..
        } => {
            out.push(e("MergeTypes", 0, ""));
            assert_eq!(field_a.response_name(), field_b.response_name());
            out.push(e("MergeKey", 0, field_a.response_name()))
        }
        Error::FieldSelectionsDoNotMergeDifferingNames {
            field_a, field_b, ..
        } => {
            assert_eq!(field_a.response_name(), field_b.response_name());
            out.push(e("MergeNames", 0, ""));
            out.push(e("MergeKey", 0, field_a.response_name()))
        }
        Error::FieldSelectionsDoNotMergeDifferingArguments {
            field_a, field_b, ..
        } => {
            assert_eq!(field_a.response_name(), field_b.response_name());
            out.push(e("MergeArgs", 0, ""));
            out.push(e("MergeKey", 0, field_a.response_name()))
        }
        Error::FragmentSpreadIsNotPossible {
            fragment_spread,
            parent_type,
        } => out.push(e(
            "ImpossibleSpread",
            ids.get("spread", *fragment_spread),
            parent_type.name(),
        )),
        Error::InlineFragmentSpreadIsNotPossible {
            inline_fragment,
            parent_type,
        } => out.push(e(
            "ImpossibleSpread",
            ids.get("inline", *inline_fragment),
            parent_type.name(),
        )),
        Error::InvalidConstValue(err) => {
            let (f, id) = coercion_fact(err, &mut |v| ids.get("value", v), &mut |k| {
                ids.get("key", k)
            });
            f.xs.iter()
                .for_each(|x| out.push(e(format!("Value{}", f.kind), id, x)))
        }
        Error::InvalidVariableValue(err) => {
            let (f, id) = coercion_fact(err, &mut |v| ids.get("value", v), &mut |k| {
                ids.get("key", k)
            });
            f.xs.iter()
                .for_each(|x| out.push(e(format!("Value{}", f.kind), id, x)))
        }
        Error::InvalidConstDirective(err) => dirs(err, ids, out),
        Error::InvalidVariableDirective(err) => dirs(err, ids, out),
        Error::InvalidConstArgument(err) => args(err, ids, out),
        Error::InvalidVariableArgument(err) => args(err, ids, out),
        Error::NonUniqueVariableDefinitionNames {
            name,
            variable_definitions,
        } => {
            for v in variable_definitions {
                out.push(e("DuplicateVariable", ids.get("vardef", *v), *name))
            }
        }
        Error::VariableDefinitionTypeNotInput {
            variable_definition,
        } => out.push(e(
            "VariableNotInput",
            ids.get("vardef", *variable_definition),
            VariableDefinition::variable(*variable_definition),
        )),
        Error::VariableNotDefined {
            variable,
            operation_definition,
        } => {
            let _ = OperationDefinition::as_ref(*operation_definition);
            out.push(e(
                "UndefinedVariable",
                ids.get("variable", *variable),
                ids.get("operation", *operation_definition).to_string(),
            ));
            assert!(!Variable::name(*variable).is_empty());
        }
        Error::VariableDefinitionUnused {
            variable_definition,
        } => out.push(e(
            "UnusedVariable",
            ids.get("vardef", *variable_definition),
            VariableDefinition::variable(*variable_definition),
        )),
        Error::InvalidVariableUsage {
            variable,
            variable_type,
            location_type,
        } => {
            let _ = (dump_vtype(*variable_type), dump_itype(*location_type));
            out.push(e(
                "VariableUsage",
                ids.get("variable", *variable),
                format!(
                    "{} {}",
                    bluejay_core::executable::VariableType::as_ref(*variable_type).display_name(),
                    InputType::display_name(*location_type)
                ),
            ))
        }
    }
}
