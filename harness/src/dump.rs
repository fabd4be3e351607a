//! Structural dumps of documents and schemas, through the public traits of bluejay-core only,
//! in the JSON shape of the TLA+ specification (spec/Ast.md).
use bluejay_core::definition::{
    self as def, prelude::*, InputType, OutputType, SchemaDefinition, TypeDefinitionReference,
};
use bluejay_core::executable::{
    ExecutableDocument, Field, FragmentDefinition, FragmentSpread, InlineFragment,
    OperationDefinition, Selection, SelectionReference, VariableDefinition, VariableType,
    VariableTypeReference,
};
use bluejay_core::{
    Argument, AsIter, Directive, ObjectValue, OperationType, Value, ValueReference, Variable,
};
use serde_json::{json, Value as J};
use std::collections::HashMap;

pub fn float_text(f: f64) -> String {
    format!("{f:e}")
}

pub fn dump_value<const C: bool, V: Value<C>>(v: &V) -> J {
    match v.as_ref() {
        ValueReference::Variable(x) => json!({"k":"var","s":x.name()}),
        ValueReference::Integer(i) => json!({"k":"int","i":i}),
        ValueReference::Float(f) => json!({"k":"float","s":float_text(f)}),
        ValueReference::String(s) => json!({"k":"str","s":s}),
        ValueReference::Boolean(b) => json!({"k":"bool","b":b}),
        ValueReference::Null => json!({"k":"null"}),
        ValueReference::Enum(e) => json!({"k":"enum","s":e}),
        ValueReference::List(l) => {
            json!({"k":"list","l":l.iter().map(dump_value).collect::<Vec<_>>()})
        }
        ValueReference::Object(o) => {
            json!({"k":"obj","o":o.iter().map(|(k, v)| json!({"n":k.as_ref(),"v":dump_value(v)})).collect::<Vec<_>>()})
        }
    }
}

pub fn dump_args<const C: bool, A: bluejay_core::Arguments<C>>(a: Option<&A>) -> J {
    J::Array(
        a.map(|a| {
            a.iter()
                .map(|a| json!({"n":a.name(),"v":dump_value(a.value())}))
                .collect()
        })
        .unwrap_or_default(),
    )
}

pub fn dump_dirs<const C: bool, D: bluejay_core::Directives<C>>(d: Option<&D>) -> J
where
    <D as bluejay_core::Directives<C>>::Directive: Directive<C>,
{
    J::Array(
        d.map(|d| {
            d.iter()
                .map(|d| json!({"n":d.name(),"args":dump_args(d.arguments())}))
                .collect()
        })
        .unwrap_or_default(),
    )
}

pub fn dump_vtype<T: VariableType>(t: &T) -> J {
    match t.as_ref() {
        VariableTypeReference::Named(n, r) => json!({"k":"N","n":n,"r":r}),
        VariableTypeReference::List(i, r) => json!({"k":"L","of":dump_vtype(i),"r":r}),
    }
}

pub fn optype(o: OperationType) -> &'static str {
    match o {
        OperationType::Query => "query",
        OperationType::Mutation => "mutation",
        OperationType::Subscription => "subscription",
    }
}

pub fn dump_sel<E: ExecutableDocument>(s: &E::SelectionSet) -> J {
    J::Array(
        s.iter()
            .map(|s| match s.as_ref() {
                SelectionReference::Field(f) => {
                    json!({"k":"field","alias":f.alias().unwrap_or(""),"name":f.name(),
                    "args":dump_args(f.arguments()),"dirs":dump_dirs(f.directives()),
                    "sel":f.selection_set().map(|s| dump_sel::<E>(s)).unwrap_or(json!([]))})
                }
                SelectionReference::FragmentSpread(f) => {
                    json!({"k":"spr","name":f.name(),"dirs":dump_dirs(f.directives())})
                }
                SelectionReference::InlineFragment(f) => {
                    json!({"k":"inl","on":f.type_condition().unwrap_or(""),
                    "dirs":dump_dirs(f.directives()),"sel":dump_sel::<E>(f.selection_set())})
                }
            })
            .collect(),
    )
}

pub fn dump_doc<E: ExecutableDocument>(d: &E) -> J {
    let ops: Vec<J> = d
        .operation_definitions()
        .map(|o| {
            let r = o.as_ref();
            let vars: Vec<J> = r
                .variable_definitions()
                .map(|v| {
                    v.iter()
                        .map(|v| {
                            json!({"name":v.variable(),"type":dump_vtype(v.r#type()),
                    "def":v.default_value().map(|d| vec![dump_value(d)]).unwrap_or_default(),
                    "dirs":dump_dirs(v.directives())})
                        })
                        .collect()
                })
                .unwrap_or_default();
            let short = matches!(
                r,
                bluejay_core::executable::OperationDefinitionReference::Implicit(_)
            );
            json!({"k":"op","short":short,"op":optype(r.operation_type()),"name":r.name().unwrap_or(""),
                "vars":vars,"dirs":dump_dirs(r.directives()),"sel":dump_sel::<E>(r.selection_set())})
        })
        .collect();
    let frags: Vec<J> = d
        .fragment_definitions()
        .map(|f| {
            json!({"k":"frag","name":f.name(),"on":f.type_condition(),"dirs":dump_dirs(f.directives()),
                "sel":dump_sel::<E>(f.selection_set())})
        })
        .collect();
    json!({"ops":ops,"frags":frags})
}

/// Preorder numbering of the nodes of an executable document; the generator numbers its own
/// tree in the same order, so an error can name the exact occurrence it is about.
#[derive(Default)]
pub struct Ids {
    next: i64,
    map: HashMap<(&'static str, usize), i64>,
}

fn addr<T>(t: &T) -> usize {
    t as *const T as usize
}

impl Ids {
    pub fn get<T>(&self, kind: &'static str, t: &T) -> i64 {
        self.map.get(&(kind, addr(t))).copied().unwrap_or(-1)
    }
    fn put<T>(&mut self, kind: &'static str, t: &T) -> i64 {
        self.next += 1;
        self.map.insert((kind, addr(t)), self.next);
        self.next
    }
    fn alias<T>(&mut self, kind: &'static str, t: &T, id: i64) {
        self.map.insert((kind, addr(t)), id);
    }
    fn value<const C: bool, V: Value<C>>(&mut self, v: &V) {
        let id = self.put("value", v);
        match v.as_ref() {
            ValueReference::Variable(x) => self.alias("variable", x, id),
            ValueReference::List(l) => l.iter().for_each(|v| self.value(v)),
            ValueReference::Object(o) => o.iter().for_each(|(k, v)| {
                let id = self.next + 1;
                self.alias("key", k, id);
                self.value(v)
            }),
            _ => {}
        }
    }
    fn args<const C: bool, A: bluejay_core::Arguments<C>>(&mut self, a: Option<&A>) {
        if let Some(a) = a {
            a.iter().for_each(|a| {
                self.put("argument", a);
                self.value(a.value());
            })
        }
    }
    fn dirs<const C: bool, D: bluejay_core::Directives<C>>(&mut self, d: Option<&D>) {
        if let Some(d) = d {
            d.iter().for_each(|d| {
                self.put("directive", d);
                self.args(d.arguments());
            })
        }
    }
    fn sel<E: ExecutableDocument>(&mut self, s: &E::SelectionSet) {
        s.iter().for_each(|s| match s.as_ref() {
            SelectionReference::Field(f) => {
                let id = self.put("field", f);
                self.args(f.arguments());
                self.dirs(f.directives());
                if let Some(s) = f.selection_set() {
                    self.alias("selset", s, id);
                    self.sel::<E>(s)
                }
            }
            SelectionReference::FragmentSpread(f) => {
                self.put("spread", f);
                self.dirs(f.directives());
            }
            SelectionReference::InlineFragment(f) => {
                let id = self.put("inline", f);
                self.dirs(f.directives());
                self.alias("selset", f.selection_set(), id);
                self.sel::<E>(f.selection_set())
            }
        })
    }
    pub fn number<E: ExecutableDocument>(d: &E) -> Self {
        let mut me = Self::default();
        for o in d.operation_definitions() {
            let id = me.put("operation", o);
            if let bluejay_core::executable::OperationDefinitionReference::Explicit(e) = o.as_ref()
            {
                me.alias("explicit", e, id);
            }
            let r = o.as_ref();
            if let Some(vs) = r.variable_definitions() {
                vs.iter().for_each(|v| {
                    me.put("vardef", v);
                    if let Some(d) = v.default_value() {
                        me.value(d)
                    }
                    me.dirs(v.directives());
                });
            }
            me.dirs(r.directives());
            me.alias("selset", r.selection_set(), id);
            me.sel::<E>(r.selection_set());
        }
        for f in d.fragment_definitions() {
            let id = me.put("fragment", f);
            me.dirs(f.directives());
            me.alias("selset", f.selection_set(), id);
            me.sel::<E>(f.selection_set());
        }
        me
    }
}

// ---------------------------------------------------------------- schemas

fn desc(d: Option<&str>) -> J {
    match d {
        Some(d) => json!([d]),
        None => json!([]),
    }
}

pub fn dump_itype<T: InputType>(t: &T) -> J {
    match t.as_shallow_ref() {
        def::ShallowInputTypeReference::Base(n, r) => json!({"k":"N","n":n,"r":r}),
        def::ShallowInputTypeReference::List(i, r) => json!({"k":"L","of":dump_itype(i),"r":r}),
    }
}

pub fn dump_otype<T: OutputType>(t: &T) -> J {
    match t.as_shallow_ref() {
        def::ShallowOutputTypeReference::Base(n, r) => json!({"k":"N","n":n,"r":r}),
        def::ShallowOutputTypeReference::List(i, r) => json!({"k":"L","of":dump_otype(i),"r":r}),
    }
}

/// The type reference with the kind of the definition it resolves to.
pub fn resolved_in<S: SchemaDefinition>(s: &S, t: &S::InputType) -> String {
    match t.base(s) {
        def::BaseInputTypeReference::BuiltinScalar(b) => format!("BUILTIN {}", b.name()),
        def::BaseInputTypeReference::CustomScalar(b) => format!("SCALAR {}", b.name()),
        def::BaseInputTypeReference::InputObject(b) => format!("INPUT_OBJECT {}", b.name()),
        def::BaseInputTypeReference::Enum(b) => format!("ENUM {}", b.name()),
    }
}
pub fn resolved_out<S: SchemaDefinition>(s: &S, t: &S::OutputType) -> String {
    match t.base(s) {
        def::BaseOutputTypeReference::BuiltinScalar(b) => format!("BUILTIN {}", b.name()),
        def::BaseOutputTypeReference::CustomScalar(b) => format!("SCALAR {}", b.name()),
        def::BaseOutputTypeReference::Enum(b) => format!("ENUM {}", b.name()),
        def::BaseOutputTypeReference::Object(b) => format!("OBJECT {}", b.name()),
        def::BaseOutputTypeReference::Interface(b) => format!("INTERFACE {}", b.name()),
        def::BaseOutputTypeReference::Union(b) => format!("UNION {}", b.name()),
    }
}

pub fn dump_ival<S: SchemaDefinition>(s: &S, v: &S::InputValueDefinition) -> J {
    json!({"name":v.name(),"desc":desc(v.description()),"type":dump_itype(v.r#type()),
        "res":resolved_in(s, v.r#type()),
        "def":v.default_value().map(|d| vec![dump_value(d)]).unwrap_or_default(),
        "dirs":dump_dirs(v.directives())})
}

fn dump_argdefs<S: SchemaDefinition>(s: &S, a: Option<&S::ArgumentsDefinition>) -> J {
    J::Array(
        a.map(|a| a.iter().map(|v| dump_ival(s, v)).collect())
            .unwrap_or_default(),
    )
}

pub fn dump_field<S: SchemaDefinition>(s: &S, f: &S::FieldDefinition) -> J {
    json!({"name":f.name(),"desc":desc(f.description()),"type":dump_otype(f.r#type()),
        "res":resolved_out(s, f.r#type()),
        "args":dump_argdefs(s, f.arguments_definition()),"dirs":dump_dirs(f.directives())})
}

fn dump_fields<S: SchemaDefinition>(s: &S, f: &S::FieldsDefinition) -> J {
    J::Array(
        f.iter()
            .filter(|f| !f.is_builtin())
            .map(|f| dump_field(s, f))
            .collect(),
    )
}

fn dump_ifaces<S: SchemaDefinition>(s: &S, i: Option<&S::InterfaceImplementations>) -> J {
    J::Array(
        i.map(|i| {
            i.iter()
                .map(|i| {
                    let r = i.interface(s);
                    assert_eq!(
                        r.name(),
                        i.name(),
                        "interface implementation resolves to another type"
                    );
                    json!(i.name())
                })
                .collect()
        })
        .unwrap_or_default(),
    )
}

pub fn dump_type<S: SchemaDefinition>(
    s: &S,
    t: TypeDefinitionReference<'_, S::TypeDefinition>,
) -> J {
    match t {
        TypeDefinitionReference::BuiltinScalar(b) => json!({"k":"builtin","name":b.name()}),
        TypeDefinitionReference::CustomScalar(t) => {
            json!({"k":"scalar","name":t.name(),"desc":desc(t.description()),"dirs":dump_dirs(t.directives())})
        }
        TypeDefinitionReference::Object(t) => {
            json!({"k":"object","name":t.name(),"desc":desc(t.description()),"dirs":dump_dirs(t.directives()),
            "ifaces":dump_ifaces(s,t.interface_implementations()),"fields":dump_fields(s,t.fields_definition())})
        }
        TypeDefinitionReference::Interface(t) => {
            json!({"k":"interface","name":t.name(),"desc":desc(t.description()),"dirs":dump_dirs(t.directives()),
            "ifaces":dump_ifaces(s,t.interface_implementations()),"fields":dump_fields(s,t.fields_definition())})
        }
        TypeDefinitionReference::Union(t) => {
            json!({"k":"union","name":t.name(),"desc":desc(t.description()),"dirs":dump_dirs(t.directives()),
            "members":t.union_member_types().iter().map(|m| {
                assert_eq!(m.member_type(s).name(), m.name(), "union member resolves to another type");
                m.name().to_string()
            }).collect::<Vec<_>>()})
        }
        TypeDefinitionReference::Enum(t) => {
            json!({"k":"enum","name":t.name(),"desc":desc(t.description()),"dirs":dump_dirs(t.directives()),
            "values":t.enum_value_definitions().iter().map(|v|
                json!({"name":v.name(),"desc":desc(v.description()),"dirs":dump_dirs(v.directives())})).collect::<Vec<_>>()})
        }
        TypeDefinitionReference::InputObject(t) => {
            json!({"k":"input","name":t.name(),"desc":desc(t.description()),"dirs":dump_dirs(t.directives()),
            "fields":t.input_field_definitions().iter().map(|v| dump_ival(s,v)).collect::<Vec<_>>()})
        }
    }
}

pub fn dump_dirdef<S: SchemaDefinition>(s: &S, d: &S::DirectiveDefinition) -> J {
    json!({"k":"directive","name":d.name(),"desc":desc(d.description()),"rep":d.is_repeatable(),
        "args":dump_argdefs(s, d.arguments_definition()),
        "locs":d.locations().iter().map(|l| l.as_ref().to_string()).collect::<Vec<_>>()})
}

pub fn dump_schema<S: SchemaDefinition>(s: &S) -> J {
    let mut types: Vec<J> = s
        .type_definitions()
        .filter(|t| !t.is_builtin())
        .map(|t| dump_type(s, t))
        .collect();
    types.sort_by_key(|t| t["name"].as_str().unwrap().to_string());
    let mut dirs: Vec<J> = s
        .directive_definitions()
        .filter(|d| !d.is_builtin())
        .map(|d| dump_dirdef(s, d))
        .collect();
    dirs.sort_by_key(|t| t["name"].as_str().unwrap().to_string());
    json!({"desc":desc(s.description()),"dirs":dump_dirs(s.directives()),
        "query":s.query().name(),
        "mutation":s.mutation().map(|o| o.name().to_string()).unwrap_or_default(),
        "subscription":s.subscription().map(|o| o.name().to_string()).unwrap_or_default(),
        "types":types,"directives":dirs})
}
