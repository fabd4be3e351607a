//! Observes the real code: one JSON case per input line, one JSON observation per output line.
//! A panic of the code under test is an observation ({"panic":...}); a crash or hang of the
//! process is attributed by the driver to the first case without an observation.
#![allow(unused_imports)]
mod cmp;
mod ctx;
mod dump;
mod validate;
mod vis;

use bluejay_core::definition::{prelude::*, SchemaDefinition as _, TypeDefinitionReference};
use bluejay_core::executable::{
    ExecutableDocument as _, Field as _, OperationDefinition as _, Selection as _,
    SelectionReference,
};
use bluejay_core::{Argument as _, AsIter, Directive as _, Value as _, ValueReference};
use bluejay_parser::ast::definition::{DefaultContext, DefinitionDocument};
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::ast::{Parse, ParseOptions};
use bluejay_parser::{Error as ParserError, HasSpan, Span};
use bluejay_printer::definition::SchemaDefinitionPrinter;
use bluejay_printer::executable::ExecutableDocumentPrinter;
use bluejay_validator::executable::operation::analyzers::complexity_cost::RelayCostComputer;
use bluejay_validator::executable::operation::analyzers::{
    ComplexityCost, Deprecation, InputSize, QueryDepth, VariableValuesAreValid,
};
use bluejay_validator::executable::operation::Orchestrator;
use bluejay_validator::executable::Cache as VCache;
use bluejay_validator::value::input_coercion::CoerceInput;
use bluejay_visibility as v;
use ctx::Ctx;
use serde_json::{json, Map, Value as J};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

type Doc<'a> = DefinitionDocument<'a, Ctx>;
type PlainDoc<'a> = DefinitionDocument<'a, DefaultContext>;
type PlainSchema<'a> = bluejay_parser::ast::definition::SchemaDefinition<'a, DefaultContext>;
type SchemaDefinition<'a> = bluejay_parser::ast::definition::SchemaDefinition<'a, Ctx>;

fn s<'a>(j: &'a J, k: &str) -> &'a str {
    j[k].as_str().unwrap_or("")
}

fn graphql_errors(src: &str, errs: Vec<ParserError>) -> J {
    let heads: Vec<String> = errs.iter().map(|e| e.message().to_string()).collect();
    let list: Vec<J> = ParserError::into_graphql_errors(src, errs)
        .into_iter()
        .map(|e| {
            json!({"msg":e.message,"locs":e.locations.iter().map(|l| json!([l.line, l.col])).collect::<Vec<_>>()})
        })
        .collect();
    json!({"heads":heads,"errors":list})
}

/// Parse only. mode: exec | schema. Errors are rendered both ways.
fn op_parse(c: &J) -> J {
    let src = s(c, "src");
    let opts = || ParseOptions {
        graphql_ruby_compatibility: c["ruby"].as_bool().unwrap_or(false),
    };
    if s(c, "mode") == "schema" {
        match Doc::parse_with_options(src, opts()) {
            Ok(d) => json!({"ok":true,"n":d.definition_count()}),
            Err(_) => {
                let errs = Doc::parse_with_options(src, opts()).err().unwrap();
                let n = errs.len();
                let text = ParserError::format_errors(src, Some("f"), errs);
                let errs = Doc::parse_with_options(src, opts()).err().unwrap();
                json!({"ok":false,"errs":n,"rendered":!text.is_empty(),"gql":graphql_errors(src, errs)})
            }
        }
    } else {
        match ExecutableDocument::parse_with_options(src, opts()) {
            Ok(d) => {
                let mut r = json!({"ok":true,"doc":dump::dump_doc(&d)});
                if c["spans"].as_bool().unwrap_or(false) {
                    r["spans"] = spans(&d);
                }
                r
            }
            Err(errs) => {
                let n = errs.len();
                let gql = graphql_errors(src, errs);
                let errs = ExecutableDocument::parse_with_options(src, opts())
                    .err()
                    .unwrap();
                let text = ParserError::format_errors(src, None, errs);
                json!({"ok":false,"errs":n,"rendered":!text.is_empty(),"gql":gql})
            }
        }
    }
}

// ------------------------------------------------------------------ spans
fn sp(out: &mut Vec<J>, k: &str, s: &Span) {
    let r = s.byte_range();
    out.push(json!({"k":k,"a":r.start,"b":r.end}));
}
fn span_value<const C: bool>(out: &mut Vec<J>, v: &bluejay_parser::ast::Value<'_, C>) {
    sp(out, "value", v.span());
    match v.as_ref() {
        ValueReference::List(l) => AsIter::iter(l).for_each(|v| span_value(out, v)),
        ValueReference::Object(o) => bluejay_core::ObjectValue::<C>::iter(o).for_each(|(k, v)| {
            sp(out, "key", k.span());
            span_value(out, v)
        }),
        _ => {}
    }
}
fn span_args<const C: bool>(out: &mut Vec<J>, a: Option<&bluejay_parser::ast::Arguments<'_, C>>) {
    if let Some(a) = a {
        sp(out, "args", a.span());
        a.iter().for_each(|a| {
            sp(out, "arg", a.span());
            sp(out, "argname", a.name().span());
            span_value(out, a.value())
        })
    }
}
fn span_dirs<const C: bool>(out: &mut Vec<J>, d: Option<&bluejay_parser::ast::Directives<'_, C>>) {
    if let Some(d) = d {
        d.iter().for_each(|d| {
            sp(out, "dir", d.span());
            sp(
                out,
                "dirname",
                bluejay_parser::ast::Directive::name(d).span(),
            );
            span_args(out, bluejay_core::Directive::arguments(d))
        })
    }
}
fn span_type(out: &mut Vec<J>, t: &bluejay_parser::ast::executable::VariableType<'_>) {
    use bluejay_core::executable::{VariableType as _, VariableTypeReference as R};
    sp(out, "type", t.span());
    if let R::List(i, _) = t.as_ref() {
        span_type(out, i)
    }
}
fn span_sel(out: &mut Vec<J>, s: &bluejay_parser::ast::executable::SelectionSet<'_>) {
    sp(out, "selset", s.span());
    AsIter::iter(s).for_each(|x| match x.as_ref() {
        SelectionReference::Field(f) => {
            sp(out, "field", f.span());
            sp(
                out,
                "fieldname",
                bluejay_parser::ast::executable::Field::name(f).span(),
            );
            span_args(out, bluejay_core::executable::Field::arguments(f));
            span_dirs(out, f.directives());
            if let Some(s) = bluejay_core::executable::Field::selection_set(f) {
                span_sel(out, s)
            }
        }
        SelectionReference::FragmentSpread(f) => {
            use bluejay_core::executable::FragmentSpread as _;
            sp(out, "spread", f.span());
            sp(
                out,
                "spreadname",
                bluejay_parser::ast::executable::FragmentSpread::name(f).span(),
            );
            span_dirs(out, f.directives());
        }
        SelectionReference::InlineFragment(f) => {
            use bluejay_core::executable::InlineFragment as _;
            sp(out, "inline", f.span());
            span_dirs(out, f.directives());
            span_sel(
                out,
                bluejay_core::executable::InlineFragment::selection_set(f),
            );
        }
    })
}
fn spans(d: &ExecutableDocument<'_>) -> J {
    use bluejay_core::executable::{
        ExplicitOperationDefinition as _, FragmentDefinition as _,
        OperationDefinitionReference as R, VariableDefinition as _,
    };
    let mut out = vec![];
    for o in bluejay_core::executable::ExecutableDocument::operation_definitions(d) {
        sp(&mut out, "op", o.span());
        if let R::Explicit(e) = o.as_ref() {
            sp(
                &mut out,
                "optype",
                bluejay_parser::ast::executable::ExplicitOperationDefinition::operation_type(e)
                    .span(),
            );
            if let Some(n) = bluejay_parser::ast::executable::ExplicitOperationDefinition::name(e) {
                sp(&mut out, "opname", n.span());
            }
            if let Some(vs) = e.variable_definitions() {
                vs.iter().for_each(|v| {
                    sp(
                        &mut out,
                        "varname",
                        bluejay_parser::ast::executable::VariableDefinition::variable(v).span(),
                    );
                    span_type(
                        &mut out,
                        bluejay_parser::ast::executable::VariableDefinition::r#type(v),
                    );
                    if let Some(x) =
                        bluejay_parser::ast::executable::VariableDefinition::default_value(v)
                    {
                        span_value(&mut out, x)
                    }
                    span_dirs(&mut out, v.directives());
                })
            }
            span_dirs(&mut out, e.directives());
        }
        span_sel(
            &mut out,
            bluejay_parser::ast::executable::OperationDefinition::selection_set(o),
        );
    }
    for f in bluejay_core::executable::ExecutableDocument::fragment_definitions(d) {
        sp(&mut out, "frag", f.span());
        sp(
            &mut out,
            "fragname",
            bluejay_parser::ast::executable::FragmentDefinition::name(f).span(),
        );
        sp(
            &mut out,
            "fragon",
            bluejay_parser::ast::executable::FragmentDefinition::type_condition(f)
                .named_type()
                .span(),
        );
        span_dirs(&mut out, f.directives());
        span_sel(
            &mut out,
            bluejay_parser::ast::executable::FragmentDefinition::selection_set(f),
        );
    }
    J::Array(out)
}

// ------------------------------------------------------------------ printing
fn op_print(c: &J) -> J {
    let src = s(c, "src");
    let Ok(d) = ExecutableDocument::parse(src) else {
        return json!({"ok":false});
    };
    let text = ExecutableDocumentPrinter::to_string(&d);
    let again = match ExecutableDocument::parse(text.as_str()) {
        Ok(d2) => {
            let text2 = ExecutableDocumentPrinter::to_string(&d2);
            json!({"ok":true,"doc":dump::dump_doc(&d2),"stable":text2 == text})
        }
        Err(_) => json!({"ok":false}),
    };
    json!({"ok":true,"doc":dump::dump_doc(&d),"text":text,"again":again})
}

// ------------------------------------------------------------------ schemas
fn build_errors<'a, C: bluejay_parser::ast::definition::Context>(
    sdl: &str,
    doc: &'a DefinitionDocument<'a, C>,
) -> J {
    let errs = bluejay_parser::ast::definition::SchemaDefinition::<'a, C>::try_from(doc)
        .err()
        .unwrap();
    let kinds: Vec<String> = errs
        .iter()
        .map(|e| {
            let d = format!("{e:?}");
            d.split(|c: char| !c.is_alphanumeric())
                .next()
                .unwrap()
                .to_string()
        })
        .collect();
    let each: Vec<J> = errs
        .into_iter()
        .zip(kinds)
        .map(|(e, k)| {
            let locs: Vec<J> = ParserError::into_graphql_errors(sdl, [e])
                .into_iter()
                .flat_map(|e| {
                    e.locations
                        .into_iter()
                        .map(|l| json!([l.line, l.col]))
                        .collect::<Vec<_>>()
                })
                .collect();
            json!({"k":k,"locs":locs})
        })
        .collect();
    let errs = bluejay_parser::ast::definition::SchemaDefinition::<'a, C>::try_from(doc)
        .err()
        .unwrap();
    let text = ParserError::format_errors(sdl, None, errs);
    json!({"errors":each,"rendered":!text.is_empty()})
}

fn defrules<S: bluejay_core::definition::SchemaDefinition>(sd: &S) -> J {
    use bluejay_validator::definition::{BuiltinRulesValidator, Error};
    J::Array(
        BuiltinRulesValidator::validate(sd)
            .map(|e| match e {
                Error::NonUniqueInputValueDefinitionNames { name, input_value_definitions } => {
                    json!({"k":"DuplicateInput","x":name,"n":input_value_definitions.len()})
                }
                Error::NonUniqueEnumValueDefinitionNames { name, enum_value_definitions } => {
                    json!({"k":"DuplicateEnumValue","x":name,"n":enum_value_definitions.len()})
                }
                Error::InputObjectTypeDefinitionCircularReferences { input_object_type_definition, circular_references } => {
                    json!({"k":"Circular","x":input_object_type_definition.name(),"n":circular_references.len()})
                }
            })
            .collect(),
    )
}

fn op_schema(c: &J) -> J {
    let sdl = s(c, "sdl");
    let doc = match PlainDoc::parse(sdl) {
        Ok(d) => d,
        Err(e) => return json!({"stage":"parse","gql":graphql_errors(sdl, e)}),
    };
    let sd = match PlainSchema::try_from(&doc) {
        Ok(s) => s,
        Err(_) => {
            return json!({"stage":"build","errs":build_errors(sdl, &doc),"n":doc.definition_count()})
        }
    };
    let mut r = json!({"stage":"ok","n":doc.definition_count()});
    let want = |k: &str| {
        c["want"]
            .as_array()
            .map_or(false, |a| a.iter().any(|x| x == k))
    };
    if want("dump") {
        r["dump"] = dump::dump_schema(&sd);
    }
    if want("rules") {
        r["rules"] = defrules(&sd);
        let errs: Vec<_> =
            bluejay_validator::definition::BuiltinRulesValidator::validate(&sd).collect();
        r["rulesrendered"] = json!(ParserError::format_errors(sdl, None, errs).len());
    }
    if want("print") {
        let text = SchemaDefinitionPrinter::to_string(&sd);
        r["text"] = json!(text);
        r["again"] = match PlainDoc::parse(text.as_str()) {
            Ok(d2) => match PlainSchema::try_from(&d2) {
                Ok(s2) => {
                    json!({"stage":"ok","dump":dump::dump_schema(&s2),"stable":SchemaDefinitionPrinter::to_string(&s2) == text})
                }
                Err(_) => json!({"stage":"build"}),
            },
            Err(_) => json!({"stage":"parse"}),
        };
    }
    r
}

fn with_schema<R>(sdl: &str, f: impl FnOnce(&SchemaDefinition<'_>) -> R) -> Result<R, J> {
    let doc = Doc::parse(sdl)
        .map_err(|e| json!({"bad":"schema does not parse","gql":graphql_errors(sdl, e)}))?;
    let sd = match SchemaDefinition::try_from(&doc) {
        Ok(sd) => sd,
        Err(_) => {
            return Err(json!({"bad":"schema does not build","errs":build_errors(sdl, &doc)}))
        }
    };
    Ok(f(&sd))
}

/// Each item run under its own panic guard, so a panic is attributed to its item.
fn guarded(f: impl FnOnce() -> J) -> J {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|p| json!({"panic":panic_text(p)}))
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into())
}

fn items<'a>(c: &'a J, k: &str) -> impl Iterator<Item = &'a J> {
    c[k].as_array().map(|a| a.as_slice()).unwrap_or(&[]).iter()
}

// ------------------------------------------------------------------ validation
fn op_validate(c: &J) -> J {
    with_schema(s(c, "sdl"), |sd| {
        let out: Vec<J> = items(c, "docs")
            .map(|src| {
                let src = src.as_str().unwrap();
                guarded(|| match ExecutableDocument::parse(src) {
                    Err(_) => json!({"parse":false}),
                    Ok(d) => {
                        let mut r = json!({"parse":true,"errs":validate::validate(&d, sd)});
                        if c["ast"].as_bool().unwrap_or(false) {
                            r["ast"] = dump::dump_doc(&d);
                        }
                        if c["ops"].as_bool().unwrap_or(false) {
                            use bluejay_core::executable::{ExecutableDocument as _, OperationDefinition as _};
                            r["ops"] = d.operation_definitions().iter().map(|o| o.as_ref().name().unwrap_or("")).collect();
                        }
                        if c["locs"].as_bool().unwrap_or(false) {
                            r["located"] = J::Array(validate::located(src, &d, sd));
                        }
                        if c["render"].as_bool().unwrap_or(false) {
                            let cache = VCache::new(&d, sd);
                            let errs: Vec<_> = bluejay_validator::executable::document::BuiltinRulesValidator::validate(&d, sd, &cache).collect();
                            let n = errs.len();
                            r["n"] = json!(n);
                            let text = ParserError::format_errors(src, None, errs);
                            let errs: Vec<ParserError> = bluejay_validator::executable::document::BuiltinRulesValidator::validate(&d, sd, &cache)
                                .map(Into::into)
                                .collect();
                            r["gql"] = graphql_errors(src, errs);
                            r["rendered"] = json!(n == 0 || !text.is_empty());
                        }
                        r
                    }
                })
            })
            .collect();
        json!({"docs":out})
    })
    .unwrap_or_else(|e| e)
}

// ------------------------------------------------------------------ coercion
fn coercion_facts<const C: bool, V: bluejay_core::Value<C>>(
    r: Result<(), Vec<bluejay_validator::value::input_coercion::Error<'_, C, V>>>,
) -> J {
    match r {
        Ok(()) => json!([]),
        Err(es) => {
            let n = es.len();
            assert!(n > 0, "coercion failed without an error");
            J::Array(
                es.iter()
                    .flat_map(|e| {
                        let (f, _) = validate::coercion_fact(e, &mut |_| 0, &mut |_| 0);
                        f.xs.iter()
                            .map(|x| json!({"k":f.kind,"x":x,"path":f.path}))
                            .collect::<Vec<_>>()
                    })
                    .collect(),
            )
        }
    }
}

/// Coerce literals and JSON values to the types of the fields of the input type `Carrier`.
fn coerce_cases<'a, S: bluejay_core::definition::SchemaDefinition>(sd: &'a S, c: &'a J) -> J {
    let Some(TypeDefinitionReference::InputObject(carrier)) = sd.get_type_definition("Carrier")
    else {
        return json!({"bad":"no Carrier"});
    };
    let fields = carrier.input_field_definitions();
    let out: Vec<J> = items(c, "cases")
        .map(|case| {
            guarded(|| {
                let name = s(case, "field");
                let Some(f) = fields.iter().find(|f| f.name() == name) else {
                    return json!({"bad":"no field"});
                };
                if let Some(lit) = case["lit"].as_str() {
                    let src = format!("{{f(x: {lit})}}");
                    let Ok(d) = ExecutableDocument::parse(src.as_str()) else {
                        return json!({"parse":false});
                    };
                    let op = bluejay_core::executable::ExecutableDocument::operation_definitions(&d).next().unwrap();
                    let sel = op.as_ref().selection_set();
                    let field = match AsIter::iter(sel).next().unwrap().as_ref() {
                        SelectionReference::Field(f) => f,
                        _ => unreachable!(),
                    };
                    let arg = AsIter::iter(bluejay_core::executable::Field::arguments(field).unwrap()).next().unwrap();
                    let mut r = json!({"lit":coercion_facts(sd.coerce_value(f.r#type(), arg.value(), Default::default()))});
                    let csrc = format!("query($x: T = {lit}) {{f}}");
                    if let Ok(cd) = ExecutableDocument::parse(csrc.as_str()) {
                        use bluejay_core::executable::VariableDefinition as _;
                        let op = bluejay_core::executable::ExecutableDocument::operation_definitions(&cd).next().unwrap();
                        let v = AsIter::iter(op.as_ref().variable_definitions().unwrap()).next().unwrap();
                        r["clit"] = coercion_facts(sd.coerce_const_value(f.r#type(), v.default_value().unwrap(), Default::default()));
                    }
                    r
                } else {
                    let v = &case["json"];
                    json!({"json":coercion_facts(sd.coerce_const_value(f.r#type(), v, bluejay_validator::Path::new("v")))})
                }
            })
        })
        .collect();
    json!({"cases":out})
}

fn op_coerce(c: &J) -> J {
    with_schema(s(c, "sdl"), |sd| coerce_cases(sd, c)).unwrap_or_else(|e| e)
}

// ------------------------------------------------------------------ analysis
type E<'a> = ExecutableDocument<'a>;
type VV = Map<String, J>;

fn analyze_one<S: bluejay_core::definition::SchemaDefinition>(sd: &S, case: &J) -> J {
    let src = s(case, "src");
    let Ok(d) = ExecutableDocument::parse(src) else {
        return json!({"parse":false});
    };
    let name = case["name"].as_str();
    let empty = Map::new();
    let vars: &VV = case["vars"].as_object().unwrap_or(&empty);
    let cache = VCache::new(&d, sd);
    type D<'a, S> = Orchestrator<'a, E<'a>, S, VV, QueryDepth>;
    type CC<'a, S> = Orchestrator<'a, E<'a>, S, VV, ComplexityCost<'a, E<'a>, S, VV>>;
    type CR<'a, S> = Orchestrator<
        'a,
        E<'a>,
        S,
        VV,
        ComplexityCost<'a, E<'a>, S, VV, RelayCostComputer<'a, E<'a>, S, VV>>,
    >;
    type DP<'a, S> = Orchestrator<'a, E<'a>, S, VV, Deprecation<'a, E<'a>, S, VV>>;
    type IS<'a, S> = Orchestrator<'a, E<'a>, S, VV, InputSize<'a, E<'a>, VV>>;
    type VA<'a, S> = Orchestrator<'a, E<'a>, S, VV, VariableValuesAreValid<'a, E<'a>, S, VV>>;
    type Both<'a, S> =
        Orchestrator<'a, E<'a>, S, VV, (QueryDepth, ComplexityCost<'a, E<'a>, S, VV>)>;
    let mut r = json!({"parse":true});
    let want = |k: &str| {
        case["want"]
            .as_array()
            .map_or(true, |a| a.iter().any(|x| x == k))
    };
    macro_rules! res {
        ($k:expr, $e:expr, $v:ident => $f:expr) => {
            if want($k) {
                r[$k] = guarded(|| match $e {
                    Ok($v) => json!({"ok":true,"v":$f}),
                    Err(e) => {
                        use bluejay_validator::executable::operation::OperationResolutionError as R;
                        let _ = e.message();
                        json!({"ok":false,"e":match e { R::NoOperationWithName{name} => format!("NoOperation {name}"), R::AnonymousNotEligible => "Anonymous".to_string() }})
                    }
                });
            }
        };
    }
    res!("depth", D::analyze(&d, sd, name, vars, &cache, ()), v => json!(v));
    res!("cost", CC::analyze(&d, sd, name, vars, &cache, ()), v => json!(v));
    res!("relay", CR::analyze(&d, sd, name, vars, &cache, ()), v => json!(v));
    res!("both", Both::analyze(&d, sd, name, vars, &cache, ((), ())), v => json!([v.0, v.1]));
    res!("deprecated", DP::analyze(&d, sd, name, vars, &cache, ()), v => {
        J::Array(v.iter().map(|o| json!({"k":format!("{:?}", o.offense_type),"x":o.name,"r":o.reason})).collect())
    });
    let max = case["max"].as_u64().unwrap_or(2) as usize;
    res!("size", IS::analyze(&d, sd, name, vars, &cache, max), v => {
        J::Array(v.iter().map(|o| json!({"n":o.size,"x":o.name})).collect())
    });
    if want("vars") {
        use bluejay_validator::executable::operation::analyzers::VariableValueError as X;
        res!("vars", VA::analyze(&d, sd, name, vars, &cache, ()), v => {
            J::Array(
                v.iter()
                    .map(|e| {
                        let _ = e.message();
                        match e {
                            X::MissingValue { variable_definition } => {
                                json!({"k":"Missing","x":bluejay_core::executable::VariableDefinition::variable(*variable_definition),"errs":[]})
                            }
                            X::InvalidValue { variable_definition, errors, .. } => {
                                let facts: Vec<J> = errors.iter().flat_map(|e| {
                                    let (f, _) = validate::coercion_fact(e, &mut |_| 0, &mut |_| 0);
                                    f.xs.iter().map(|x| json!({"k":f.kind,"x":x,"path":f.path})).collect::<Vec<_>>()
                                }).collect();
                                json!({"k":"Invalid","x":bluejay_core::executable::VariableDefinition::variable(*variable_definition),"errs":facts})
                            }
                            X::UnusedValue { key, .. } => json!({"k":"Unused","x":key,"errs":[]}),
                        }
                    })
                    .collect(),
            )
        });
    }
    r
}

fn op_analyze(c: &J) -> J {
    with_schema(s(c, "sdl"), |sd| {
        json!({"cases":items(c, "cases").map(|case| guarded(|| analyze_one(sd, case))).collect::<Vec<_>>()})
    })
    .unwrap_or_else(|e| e)
}

// ------------------------------------------------------------------ visibility
fn hide(c: &J) -> vis::Hide {
    let set = |k: &str| {
        c[k].as_array()
            .map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
            .unwrap_or_default()
    };
    vis::Hide {
        types: set("types"),
        members: set("members"),
        impls: set("impls"),
        directives: set("directives"),
    }
}

fn observe<S: bluejay_core::definition::SchemaDefinition>(sd: &S, c: &J) -> J {
    let mut r = json!({});
    r["dump"] = guarded(|| dump::dump_schema(sd));
    r["text"] = guarded(|| json!(SchemaDefinitionPrinter::to_string(sd)));
    r["docs"] = J::Array(
        items(c, "docs")
            .map(|src| {
                guarded(|| match ExecutableDocument::parse(src.as_str().unwrap()) {
                    Err(_) => json!({"parse":false}),
                    Ok(d) => json!({"parse":true,"errs":validate::validate(&d, sd)}),
                })
            })
            .collect(),
    );
    if c["cases"].is_array() {
        r["coerce"] = guarded(|| coerce_cases(sd, c));
    }
    if c["analyze"].is_array() {
        r["analyze"] = J::Array(
            items(c, "analyze")
                .map(|case| guarded(|| analyze_one(sd, case)))
                .collect(),
        );
    }
    r["names"] = J::Array(
        items(c, "names")
            .map(|n| guarded(|| read(sd, &["type".into(), n.as_str().unwrap().into()])))
            .collect(),
    );
    r["rules"] = guarded(|| defrules(sd));
    r
}

/// One read of a schema, as a printable answer.
fn read<S: bluejay_core::definition::SchemaDefinition>(sd: &S, r: &[String]) -> J {
    let a = |i: usize| r.get(i).map(|s| s.as_str()).unwrap_or("");
    match a(0) {
        "all" => dump::dump_schema(sd),
        "types" => {
            let mut n: Vec<String> = sd
                .type_definitions()
                .map(|t| t.name().to_string())
                .collect();
            n.sort();
            json!(n)
        }
        "dirs" => {
            let mut n: Vec<String> = sd
                .directive_definitions()
                .map(|t| t.name().to_string())
                .collect();
            n.sort();
            json!(n)
        }
        "roots" => json!([
            sd.query().name(),
            sd.mutation().map(|o| o.name()),
            sd.subscription().map(|o| o.name())
        ]),
        "type" => sd
            .get_type_definition(a(1))
            .map(|t| dump::dump_type(sd, t))
            .unwrap_or(J::Null),
        "dir" => sd
            .get_directive_definition(a(1))
            .map(|d| dump::dump_dirdef(sd, d))
            .unwrap_or(J::Null),
        "impls" => match sd.get_type_definition(a(1)) {
            Some(TypeDefinitionReference::Interface(i)) => {
                let mut n: Vec<String> = sd
                    .get_interface_implementors(i)
                    .map(|o| o.name().to_string())
                    .collect();
                n.sort();
                json!(n)
            }
            _ => J::Null,
        },
        "fieldget" => match sd.get_type_definition(a(1)) {
            Some(TypeDefinitionReference::Object(o)) => o
                .fields_definition()
                .get(a(2))
                .map(|f| dump::dump_field(sd, f))
                .unwrap_or(J::Null),
            Some(TypeDefinitionReference::Interface(o)) => o
                .fields_definition()
                .get(a(2))
                .map(|f| dump::dump_field(sd, f))
                .unwrap_or(J::Null),
            _ => J::Null,
        },
        "contains" => match sd.get_type_definition(a(1)) {
            Some(TypeDefinitionReference::Object(o)) => {
                json!(o.fields_definition().contains_field(a(2)))
            }
            Some(TypeDefinitionReference::Interface(o)) => {
                json!(o.fields_definition().contains_field(a(2)))
            }
            _ => J::Null,
        },
        "members" => match sd.get_type_definition(a(1)) {
            Some(TypeDefinitionReference::Union(u)) => {
                use bluejay_core::definition::UnionMemberTypes;
                json!([
                    u.union_member_types()
                        .iter()
                        .map(|m| m.name().to_string())
                        .collect::<Vec<_>>(),
                    u.union_member_types().contains_type(a(2))
                ])
            }
            _ => J::Null,
        },
        "query" => dump::dump_type(sd, TypeDefinitionReference::Object(sd.query())),
        "validate" => match ExecutableDocument::parse(a(1)) {
            Err(_) => json!("no parse"),
            Ok(d) => {
                let mut v: Vec<String> = validate::validate(&d, sd)
                    .iter()
                    .map(|x| x.to_string())
                    .collect();
                v.sort();
                v.dedup();
                json!(v)
            }
        },
        "print" => json!(SchemaDefinitionPrinter::to_string(sd)),
        x => json!({"bad":format!("read {x}")}),
    }
}

fn op_visible(c: &J) -> J {
    with_schema(s(c, "sdl"), |sd| {
        if c["null"].as_bool().unwrap_or(false) {
            let cache = v::Cache::new(v::NullWarden::default(), sd);
            return match v::SchemaDefinition::new(&cache) {
                Err(e) => json!({"hidden":format!("{e:?}")}),
                Ok(vs) => observe(&vs, c),
            };
        }
        let warden = vis::HideWarden(hide(&c["hide"]), std::marker::PhantomData);
        let cache = v::Cache::new(warden, sd);
        let r = match v::SchemaDefinition::new(&cache) {
            Err(e) => json!({"hidden":format!("{e:?}")}),
            Ok(vs) => observe(&vs, c),
        };
        r
    })
    .unwrap_or_else(|e| e)
}

fn op_plain(c: &J) -> J {
    with_schema(s(c, "sdl"), |sd| observe(sd, c)).unwrap_or_else(|e| e)
}

/// Histories of reads: each history on one filtered schema; also each read on a fresh one.
fn op_reads(c: &J) -> J {
    with_schema(s(c, "sdl"), |sd| {
        let path = |j: &J| -> Vec<String> {
            j.as_array()
                .unwrap()
                .iter()
                .map(|x| x.as_str().unwrap().to_string())
                .collect()
        };
        let out: Vec<J> = items(c, "histories")
            .map(|h| {
                let cache = v::Cache::new(
                    vis::HideWarden(hide(&c["hide"]), std::marker::PhantomData),
                    sd,
                );
                let r = match v::SchemaDefinition::new(&cache) {
                    Err(e) => json!({"hidden":format!("{e:?}")}),
                    Ok(vs) => J::Array(
                        h.as_array()
                            .unwrap()
                            .iter()
                            .map(|x| guarded(|| read(&vs, &path(x))))
                            .collect(),
                    ),
                };
                r
            })
            .collect();
        json!({"histories":out})
    })
    .unwrap_or_else(|e| e)
}

// ------------------------------------------------------------------ comparison
fn changes<S: bluejay_core::definition::SchemaDefinition>(a: &S, b: &S) -> J {
    J::Array(
        bluejay_schema_comparator::compare(a, b)
            .changes
            .iter()
            .map(|c| {
                let cr = c.criticality();
                let kind = if cr.is_breaking() { "breaking" } else if cr.is_dangerous() { "dangerous" } else { "safe" };
                json!({"k":c.as_ref(),"path":c.path(),"x":cmp::detail(c),"crit":kind,"msg":c.message(),"reason":cr.reason(),
                    "b":c.breaking(),"n":c.non_breaking(),"d":c.dangerous()})
            })
            .collect(),
    )
}

fn op_compare(c: &J) -> J {
    with_schema(s(c, "old"), |a| {
        with_schema(s(c, "new"), |b| {
            json!({"fwd":guarded(|| changes(a, b)),"bwd":guarded(|| changes(b, a)),"same":guarded(|| changes(a, a)),"same2":guarded(|| changes(b, b))})
        })
        .unwrap_or_else(|e| e)
    })
    .unwrap_or_else(|e| e)
}

fn run(c: &J) -> J {
    match s(c, "op") {
        "parse" => op_parse(c),
        "print" => op_print(c),
        "schema" => op_schema(c),
        "validate" => op_validate(c),
        "coerce" => op_coerce(c),
        "analyze" => op_analyze(c),
        "visible" => op_visible(c),
        "plain" => op_plain(c),
        "reads" => op_reads(c),
        "compare" => op_compare(c),
        x => json!({"bad":format!("op {x}")}),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let t = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(|| {
            let stdin = std::io::stdin();
            let mut out = std::io::stdout().lock();
            for line in stdin.lock().lines() {
                let line = line.unwrap();
                if line.trim().is_empty() {
                    continue;
                }
                let c: J = serde_json::from_str(&line).unwrap();
                let mut r = guarded(|| run(&c));
                r["id"] = c["id"].clone();
                writeln!(out, "{r}").unwrap();
                out.flush().unwrap();
            }
        })
        .unwrap();
    t.join().unwrap();
}
