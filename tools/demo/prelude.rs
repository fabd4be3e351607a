//! What the demonstrations share.
#![allow(dead_code, unused_imports)]
pub use bluejay_core::definition::{prelude::*, SchemaDefinition as CoreSchema};
pub use bluejay_core::AsIter;
pub use bluejay_parser::ast::definition::{DefaultContext, DefinitionDocument, SchemaDefinition};
pub use bluejay_parser::ast::executable::ExecutableDocument;
pub use bluejay_parser::ast::Parse;
pub use bluejay_parser::Error as ParserError;
pub use bluejay_printer::definition::SchemaDefinitionPrinter;
pub use bluejay_printer::executable::ExecutableDocumentPrinter;
pub use bluejay_validator::executable::operation::analyzers::*;
pub use bluejay_validator::executable::operation::Orchestrator;
pub use bluejay_validator::executable::Cache;
pub use bluejay_validator::value::input_coercion::CoerceInput;
pub use serde_json::{json, Map, Value as J};

pub type Vars = Map<String, J>;
pub type E<'a> = ExecutableDocument<'a>;

pub fn with<R>(sdl: &str, f: impl FnOnce(&SchemaDefinition<'_>) -> R) -> R {
    let doc: DefinitionDocument<'_, DefaultContext> = DefinitionDocument::parse(sdl).expect("schema does not parse");
    let sd = SchemaDefinition::try_from(&doc).expect("schema does not build");
    f(&sd)
}

/// the messages of the validation errors of a document, sorted
pub fn errs_in<S: CoreSchema>(sd: &S, src: &str) -> Vec<String> {
    let d = ExecutableDocument::parse(src).expect("document does not parse");
    let cache = Cache::new(&d, sd);
    let errors: Vec<ParserError> =
        bluejay_validator::executable::document::BuiltinRulesValidator::validate(&d, sd, &cache).map(Into::into).collect();
    let mut out: Vec<String> = ParserError::into_graphql_errors(src, errors).into_iter().map(|e| e.message.to_string()).collect();
    out.sort();
    out
}

pub fn errs(sdl: &str, src: &str) -> Vec<String> {
    with(sdl, |sd| errs_in(sd, src))
}

pub fn changes(old: &str, new: &str) -> Vec<String> {
    with(old, |a| {
        with(new, |b| {
            let mut out: Vec<String> = bluejay_schema_comparator::compare(a, b)
                .changes
                .iter()
                .map(|c| {
                    let k = c.criticality();
                    format!("{} {} {}", c.as_ref(), c.path(), if k.is_breaking() { "breaking" } else if k.is_dangerous() { "dangerous" } else { "safe" })
                })
                .collect();
            out.sort();
            out
        })
    })
}

pub fn depth(sdl: &str, src: &str, name: Option<&str>, vars: J) -> usize {
    with(sdl, |sd| {
        let d = ExecutableDocument::parse(src).unwrap();
        let cache = Cache::new(&d, sd);
        type D<'a> = Orchestrator<'a, E<'a>, SchemaDefinition<'a>, Vars, QueryDepth>;
        D::analyze(&d, sd, name, vars.as_object().unwrap(), &cache, ()).unwrap()
    })
}
