import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
PA='bluejay-parser/src/'; VA='bluejay-validator/src/executable/document/'; RU=VA+'rules/'; AN='bluejay-validator/src/executable/operation/analyzers/'
p('C01','Parsing any text ends with a document or with errors, never a crash',
 'Parsing any text as an executable document or as a type system document terminates without panicking, and returns either a document or a non-empty list of errors. Every returned error can be rendered, both as an annotated report and as a list of GraphQL errors, without panicking, whatever the text (nesting bounded to a few hundred levels).',
 ['inputs'],'every text: any characters (non-ASCII, control, NUL, unpaired quotes and escapes), any truncation of a valid document, any token sequence, nested at most 200 levels',
 'The tests parse a few dozen fixed documents; truncations, stray characters and error rendering at multi-byte positions are unbounded.',
 [PA+'lexer/logos_lexer.rs',PA+'ast/tokens.rs',PA+'error.rs',PA+'error/format_errors.rs',PA+'ast/executable/executable_document.rs',PA+'ast/definition/definition_document.rs'],
 [('lexer and token lookahead',PA+'ast/tokens.rs'),('error recovery in the two document parsers',PA+'ast/executable/executable_document.rs'),('span to line/column conversion',PA+'error.rs')],
 ['ExecutableDocument::parse','DefinitionDocument::parse','Error::format_errors','Error::into_graphql_errors'])
p('C02','Lexical forms are recognised and literal values decoded exactly',
 'Names, punctuators, integer, float, string and block string literals, comments, commas, byte-order marks and white space are recognised exactly as the GraphQL lexical grammar says, and text that is not lexically valid is rejected. The value a literal denotes (escape sequences, surrogate pairs, block string indentation and blank-line removal, numbers up to 32-bit integers and finite floats) is the value the grammar assigns to it.',
 ['inputs'],'every text over the lexical alphabet placed in value position, alone or beside other tokens',
 'The tests check a handful of literals; escape combinations, number boundaries, indentation shapes and adjacency of tokens form an infinite language.',
 [PA+'lexer/logos_lexer.rs',PA+'lexer/logos_lexer/string_lexer.rs',PA+'lexer/logos_lexer/block_string_lexer.rs',PA+'lexical_token/punctuator.rs'],
 [('token rules',PA+'lexer/logos_lexer.rs'),('escape decoding',PA+'lexer/logos_lexer/string_lexer.rs'),('block string processing',PA+'lexer/logos_lexer/block_string_lexer.rs')],
 ['ExecutableDocument::parse and the values in its tree'])
p('C03','Executable documents: accepted exactly when grammatical, parsed faithfully',
 'A text is accepted as an executable document exactly when it is derivable from the GraphQL executable grammar. The parsed document then contains the operations, fragments, selections, arguments, directives, variable definitions, types and values of the text, in order, with nothing added, dropped, reordered or attached elsewhere.',
 ['inputs'],'every token sequence over the GraphQL tokens, laid out with any ignored tokens between them',
 'Tests show that some documents parse and a few do not; they never compare the whole tree against the grammar, nor try near-miss documents systematically.',
 [PA+'ast/executable/',PA+'ast/value.rs',PA+'ast/argument.rs',PA+'ast/arguments.rs',PA+'ast/directive.rs',PA+'ast/directives.rs'],
 [('recursive descent over a token buffer',PA+'ast/tokens.rs'),('one FromTokens implementation per grammar production',PA+'ast/executable/')],
 ['ExecutableDocument::parse and the bluejay_core executable traits'])
p('C04','Type system documents: accepted exactly when grammatical, parsed faithfully',
 'A text is accepted as a type system document exactly when it is derivable from the grammar of schema, type and directive definitions (descriptions, directives, default values, implements and union lists with optional leading separators included; every type has its non-empty body). The definitions found are those of the text, in order, with nothing added (other than the built-in definitions), dropped or attached elsewhere.',
 ['inputs'],'every token sequence over the GraphQL tokens that consists of definitions, laid out with any ignored tokens between them',
 'Tests parse some fixed schemas and snapshot a few errors; optional parts multiply into far more shapes than they sample.',
 [PA+'ast/definition/'],
 [('one FromTokens implementation per definition',PA+'ast/definition/'),('definition dispatch on keyword and description',PA+'ast/definition/definition_document.rs')],
 ['DefinitionDocument::parse, definition_count and the bluejay_core definition traits'])
p('C05','Positions given for tokens and errors denote the text they are about',
 'The span of every parsed name, value, field, fragment and operation covers exactly the source text of that construct. Every error location given to the user as line and column is the 1-based position of the offending construct in the source, for any layout: LF, CR and CRLF line ends, tabs, comments and non-ASCII text before it.',
 ['inputs'],'every document, valid or not, under every layout of its tokens',
 'Tests snapshot positions for single-line ASCII documents; layouts and multi-byte prefixes are not sampled.',
 [PA+'span.rs',PA+'error.rs',PA+'error/format_errors.rs',PA+'ast/executable/',PA+'lexer/logos_lexer.rs'],
 [('span merge as constructs are parsed',PA+'span.rs'),('span to location conversion',PA+'error.rs')],
 ['HasSpan::span','Error::into_graphql_errors locations'])
p('C06','Printing an executable document and parsing it back gives the same document',
 'Printing any parsed executable document yields text that parses again, and the document parsed from it equals the original: same operations, fragments, directives, arguments and values (strings, floats and integers bit for bit). Printing is stable: printing the re-parsed document yields the same text.',
 ['inputs'],'every executable document the parser accepts',
 'Tests compare prints of a few documents that happen not to contain hard values or directives in every place.',
 ['bluejay-printer/src/executable/','bluejay-printer/src/value.rs','bluejay-printer/src/string_value.rs','bluejay-printer/src/argument.rs','bluejay-printer/src/directive.rs'],
 [('printers per construct','bluejay-printer/src/executable/'),('string quoting','bluejay-printer/src/string_value.rs')],
 ['ExecutableDocumentPrinter::to_string then ExecutableDocument::parse'])
p('C07','Printing a schema and parsing it back gives an equivalent schema',
 'Printing any schema that was built successfully yields text that parses and builds again, and the schema built from it is equivalent to the original: same types, fields, arguments, default values, enum values, members, interfaces, directive definitions, applied directives, descriptions and root operation types.',
 ['inputs'],'every type system document from which a schema builds',
 'Tests print a few schemas; descriptions with quotes, back-slashes or indentation, default values, and root type naming cases are unbounded.',
 ['bluejay-printer/src/definition/','bluejay-printer/src/string_value.rs','bluejay-printer/src/value.rs'],
 [('printers per definition','bluejay-printer/src/definition/'),('implicit schema definition test','bluejay-printer/src/definition/schema_definition.rs'),('description block strings','bluejay-printer/src/string_value.rs')],
 ['SchemaDefinitionPrinter::to_string then DefinitionDocument::parse and SchemaDefinition::try_from'])
p('C08','A schema builds exactly when every reference in it resolves properly',
 'A schema is built from a type system document exactly when: type and directive names are not defined twice, every referenced type exists and is of a kind allowed at that place (input, output, interface, object member, root), every applied directive is defined, and there is exactly one way to determine the root operation types, with a query root. Otherwise the errors name each offending reference, and a schema that builds exposes the definitions as written, resolved to the named types.',
 ['inputs'],'every type system document the parser accepts',
 'Tests snapshot one schema per error; combinations of several faulty references, shadowed built-ins, and references at each kind of place are not sampled.',
 [PA+'ast/definition/definition_document.rs',PA+'ast/definition/definition_document/definition_document_error.rs',PA+'ast/definition/schema_definition.rs',PA+'ast/definition/explicit_schema_definition.rs'],
 [('name indexing and duplicate detection',PA+'ast/definition/definition_document.rs'),('type resolution against the index',PA+'ast/definition/definition_document.rs')],
 ['SchemaDefinition::try_from(&DefinitionDocument) and the bluejay_core SchemaDefinition trait'])
p('C09','Schema rules: duplicate enum values and input fields, input object cycles',
 'Validating a schema reports exactly the enum types that define a value twice, the input object types that define a field twice, and the input object types that cannot be given any finite value because non-null fields that are not lists refer back to them, directly or through other input objects.',
 ['inputs'],'every schema that builds',
 'Tests check one example of each; cycles of any length, through any mix of required, optional and list fields, overlapping or nested, are unbounded.',
 ['bluejay-validator/src/definition/','bluejay-validator/src/definition/rules/input_object_circular_references.rs'],
 [('cycle search over required non-list fields','bluejay-validator/src/definition/rules/input_object_circular_references.rs')],
 ['definition::BuiltinRulesValidator::validate'])
p('C10','Validation: selected fields exist; leaf and composite selections shaped right',
 'For any document and schema, validation reports a field exactly when it is not defined on the type in scope at that place (introspection fields included), a leaf field exactly when it has a selection set, and a composite field exactly when it has none. This holds at any nesting of fields, inline fragments and fragment definitions.',
 ['inputs','configurations'],'every executable document against every schema',
 'Tests exercise each rule on a few fixed documents of one schema; which type is in scope depends on an unbounded nesting of constructs.',
 [VA+'orchestrator.rs',RU+'field_selections.rs',RU+'leaf_field_selections.rs'],
 [('scoped type tracked while visiting selections',VA+'orchestrator.rs'),('per-rule visitors',RU)],
 ['document::BuiltinRulesValidator::validate'])
p('C11','Validation: fields merge only if every response is well defined',
 'Validation reports a field conflict exactly when two selections with the same response name that can apply to the same object differ in field or arguments, or any two selections with the same response name have incompatible shapes, at every depth and through any fragments. In particular no document that passes can, on any data, be asked for two different things under one response key.',
 ['inputs','configurations'],'every executable document against every schema',
 'The rule compares all pairs of selections across fragment spreads, recursively; the tests cover the examples of the specification only.',
 [RU+'field_selection_merging.rs','bluejay-validator/src/executable/cache.rs'],
 [('grouped comparison by response shape and common parents',RU+'field_selection_merging.rs')],
 ['document::BuiltinRulesValidator::validate'])
p('C12','Validation: fragments are unique, defined, used, acyclic and applicable',
 'Validation reports exactly: fragment names defined twice, type conditions naming missing or non-composite types, fragments never spread, spreads of undefined fragments, spreads that take part in a cycle of fragment spreads, and spreads or inline fragments whose type condition shares no possible object type with the type in scope.',
 ['inputs','configurations'],'every executable document against every schema',
 'Tests use one or two fragments; spread graphs and possible-type intersections over objects, interfaces and unions are unbounded.',
 [RU+'fragment_name_uniqueness.rs',RU+'fragment_spread_type_exists.rs',RU+'fragments_on_composite_types.rs',RU+'fragments_must_be_used.rs',RU+'fragment_spread_target_defined.rs',RU+'fragment_spreads_must_not_form_cycles.rs',RU+'fragment_spread_is_possible.rs'],
 [('possible types per composite type','bluejay-validator/src/executable/cache.rs'),('cycle search',RU+'fragment_spreads_must_not_form_cycles.rs')],
 ['document::BuiltinRulesValidator::validate'])
p('C13','Validation: variables are unique, of input types, defined and used',
 'Validation reports exactly: variables defined twice by one operation, variables whose type is not an input type, uses of a variable - in arguments, nested values or directives, directly or through any chain of fragments - that some operation reaching it does not define, and variables that an operation defines but no selection it reaches uses.',
 ['inputs','configurations'],'every executable document against every schema',
 'The rule quantifies over paths from each operation through a fragment graph (possibly cyclic); tests use one or two fragments.',
 [RU+'variable_uniqueness.rs',RU+'variables_are_input_types.rs',RU+'all_variable_uses_defined.rs',RU+'all_variables_used.rs',VA+'path.rs'],
 [('per-root collection of variable uses and spreads, then reachability',RU+'all_variable_uses_defined.rs')],
 ['document::BuiltinRulesValidator::validate'])
p('C14','Validation: a variable is used only where its type fits',
 'Validation reports a variable use exactly when the variable type, taking default values of the variable and of the location into account, is not compatible with the type expected there, wherever the variable occurs: as an argument, in a directive, inside lists and input objects, directly or through fragments. In particular a variable accepted by validation can never deliver null or a differently shaped value to a place that requires otherwise.',
 ['inputs','configurations'],'every executable document against every schema',
 'Types, nullability, defaults, nesting and fragment reachability multiply; tests cover the specification examples.',
 [RU+'all_variable_usages_allowed.rs',VA+'variable_definition_input_type.rs'],
 [('location type tracked through list and object values',RU+'all_variable_usages_allowed.rs')],
 ['document::BuiltinRulesValidator::validate'])
p('C15','Validation: arguments are known, given once, and complete',
 'Validation reports exactly: arguments not defined by the field or directive they are given to, arguments given more than once in one list, and fields or directives lacking an argument that is required (non-null without default).',
 ['inputs','configurations'],'every executable document against every schema',
 'Tests use one field at a time; the rules apply at every field, directive and nesting, and per argument list.',
 [RU+'argument_names.rs',RU+'argument_uniqueness.rs',RU+'required_arguments.rs'],
 [('per-rule visitors',RU)],
 ['document::BuiltinRulesValidator::validate'])
p('C16','Validation: literal values fit the types they are given for',
 'Validation reports a literal value - argument, directive argument, list item, input object field or variable default - exactly when it cannot be coerced to the type expected at its place: wrong kind, null for a non-null type, integer out of range, unknown enum member, unknown, duplicate or missing input fields, and misuse of a one-of input object. A variable inside a literal is taken to fit.',
 ['inputs','configurations'],'every executable document against every schema',
 'Values nest without bound and meet every combination of types; tests sample a few.',
 [RU+'value_is_valid.rs','bluejay-validator/src/value/input_coercion.rs'],
 [('coercion of literals',"bluejay-validator/src/value/input_coercion.rs")],
 ['document::BuiltinRulesValidator::validate'])
p('C17','Validation: directives are defined, in allowed places and not repeated',
 'Validation reports exactly: applied directives that the schema does not define, directives applied where their definition does not allow them (query, mutation, subscription, field, fragment definition, fragment spread, inline fragment, variable definition), and directives applied more than once at one place unless repeatable.',
 ['inputs','configurations'],'every executable document against every schema',
 'Tests check one location; eight locations times definitions times repetition are not sampled.',
 [RU+'directives_are_defined.rs',RU+'directives_are_in_valid_locations.rs',RU+'directives_are_unique_per_location.rs'],
 [('per-rule visitors',RU)],
 ['document::BuiltinRulesValidator::validate'])
p('C18','Validation: operations are unique, lone if anonymous, supported, single-rooted',
 'Validation reports exactly: operation names used twice, anonymous operations that are not the only operation, operations whose root type the schema does not have, and subscription operations that do not select exactly one response key at the root once fragments are expanded.',
 ['inputs','configurations'],'every executable document against every schema',
 'Tests use one or two operations; root selections expand through arbitrary fragments.',
 [RU+'named_operation_name_uniqueness.rs',RU+'lone_anonymous_operation.rs',RU+'operation_type_is_defined.rs',RU+'subscription_operation_single_root_field.rs'],
 [('per-rule visitors',RU)],
 ['document::BuiltinRulesValidator::validate'])
p('C19','Validation and analysis never crash or hang on any parsed document',
 'Validating any parsed document against any built schema, rendering the errors found, selecting an operation, and running every analysis on it (depth, complexity, input sizes, deprecations, variable values) terminate without panicking. This includes documents that are invalid in any number of ways at once: cyclic fragments, unknown types, fields and directives, duplicate names, missing roots.',
 ['inputs','configurations'],'every parsed document, valid or not, against every built schema, with any variable values',
 'Tests give each rule documents with a single error; rules and analyses run over documents every other rule would reject.',
 [VA+'orchestrator.rs','bluejay-validator/src/executable/operation/orchestrator.rs',RU+'fragment_spreads_must_not_form_cycles.rs'],
 [('visited sets guarding fragment expansion',RU),('orchestrators',VA+'orchestrator.rs')],
 ['document::BuiltinRulesValidator::validate','operation::Orchestrator::analyze'])
p('C20','Input values are coerced by type, with each defect reported at its path',
 'Coercing a literal or JSON value to an input type succeeds exactly when the GraphQL coercion rules for that type allow it (null and non-null, list wrapping of single values, integer range, float and ID from integers, enums from names in literals and strings in JSON, input objects with required, unknown and defaulted fields, one-of objects, nesting). When it fails, each error carries the path of the offending part and names it.',
 ['inputs','configurations'],'every literal and JSON value against every input type of every schema',
 'Tests check single-level examples; values and types nest and combine without bound.',
 ['bluejay-validator/src/value/input_coercion.rs','bluejay-validator/src/value/input_coercion/error.rs','bluejay-validator/src/path.rs','bluejay-core/src/value/serde_json.rs'],
 [('recursive coercion','bluejay-validator/src/value/input_coercion.rs')],
 ['CoerceInput::coerce_const_value, coerce_value'])
p('C21','Request variables are accepted exactly when they satisfy their definitions',
 'Checking the variable values of a request reports exactly: provided values for variables the operation does not define, missing or null values of variables that require one and have no default, and provided values that do not coerce to the variable type, each naming the variable.',
 ['inputs','configurations'],'every operation, schema and JSON object of variable values',
 'Tests check a few scalars; types, defaults and values combine without bound.',
 [AN+'variable_values_are_valid.rs','bluejay-validator/src/executable/operation/variable_values.rs'],
 [('comparison of provided values against definitions',AN+'variable_values_are_valid.rs')],
 ['Orchestrator<VariableValuesAreValid>::analyze'])
p('C22','The operation to run is selected by name, or is the only one',
 'Given a name, analysis runs on the operation of that name and fails if there is none; given no name, it runs on the only operation of the document and fails if there is not exactly one. The analysis result depends only on that operation and the fragments it reaches, never on other operations in the document.',
 ['inputs'],'every document and every requested name, present or absent',
 'Tests use documents with one or two operations and never vary the rest of the document.',
 ['bluejay-validator/src/executable/operation/orchestrator.rs'],
 [('operation resolution','bluejay-validator/src/executable/operation/orchestrator.rs')],
 ['Orchestrator::analyze'])
p('C23','Query depth is the deepest nesting of fields that can be executed',
 'The reported depth of an operation is the greatest number of nested fields on any path of its selections, with fragments expanded wherever they are spread and selections skipped by @skip or @include for the given variable values left out.',
 ['inputs','configurations'],'every valid document, schema and variable values',
 'Depth depends on the fragment graph, on nesting and on conditions; tests sample a few shapes.',
 [AN+'query_depth.rs','bluejay-validator/src/executable/operation/orchestrator.rs'],
 [('depth counter over visited fields',AN+'query_depth.rs'),('skip and include evaluation','bluejay-validator/src/executable/operation/orchestrator.rs')],
 ['Orchestrator<QueryDepth>::analyze'])
p('C24','Query complexity is the largest cost over the concrete types a response can have',
 'The reported cost of an operation is never below the cost of any execution of it, and is computed as follows: in every (merged) selection set the cost is that of the most expensive concrete type, each response key is charged once however often it is selected, a selection is charged for exactly the concrete types its innermost type condition allows, sub-selections and the multipliers of connections apply to everything below them, selections skipped by @skip or @include are free, and a cost too large for the number type is reported as the largest number.',
 ['inputs','configurations'],'every valid document, schema and variable values, for the built-in cost computers',
 'The cost is a maximum over combinations of possible types with merging across fragments; tests sample some.',
 [AN+'complexity_cost.rs',AN+'complexity_cost/relay_cost_computer.rs',AN+'complexity_cost/cost_computer.rs',AN+'complexity_cost/arena.rs'],
 [('scopes per type condition, merged at the end',AN+'complexity_cost.rs')],
 ['Orchestrator<ComplexityCost>::analyze'])
p('C25','Input size analysis flags exactly the list inputs above the limit',
 'For any limit, the analysis reports exactly the arguments that carry a list longer than the limit - written as a literal, given by a variable value, or by the default of that variable - including lists nested inside lists and input objects, each with its length and place (a list that is too long is reported once, without searching inside it).',
 ['inputs','configurations'],'every valid document, schema, variable values and limit',
 'Literal, variable and default sources nest without bound; tests sample a few.',
 [AN+'input_size.rs'],[('recursive measurement of values',AN+'input_size.rs')],
 ['Orchestrator<InputSize>::analyze'])
p('C26','Deprecation analysis reports exactly the deprecated things an operation uses',
 'The analysis reports exactly the fields, arguments, input fields and enum values marked deprecated in the schema that the operation uses - fields in selections that are not skipped, in the operation or in fragments it reaches; arguments, input fields and enum values in field and directive arguments, in nested values, in variable values and in variable defaults - with the reason given, and nothing else.',
 ['inputs','configurations'],'every valid document, schema and variable values',
 'Uses occur in unboundedly nested selections and values; tests sample a few.',
 [AN+'deprecation.rs'],[('visitor collecting offenders',AN+'deprecation.rs')],
 ['Orchestrator<Deprecation>::analyze'])
p('C27','A filtered schema is indistinguishable from one without the hidden parts',
 'For any choice of hidden types, fields, arguments, input fields, enum values, union members, interface implementations and directives, everything observable through the filtered schema - the definitions it shows, its printed form, and what validation and value coercion against it accept or report - equals that of a schema from which the hidden parts, and everything that depends on a hidden type, were removed. The definitions it lists are those reachable from the roots and the visible executable directives, whether or not anything is hidden.',
 ['inputs','configurations'],'every schema, every visibility choice, every document validated against the filtered schema',
 'The interplay of hidden definitions across references is combinatorial; tests use a small schema with single hidden items.',
 ['bluejay-visibility/src/schema_definition.rs','bluejay-visibility/src/cache.rs','bluejay-visibility/src/warden.rs','bluejay-visibility/src/type_definition.rs','bluejay-visibility/src/fields_definition.rs'],
 [('filtering wrappers around each definition','bluejay-visibility/src/'),('reachability of types and directives','bluejay-visibility/src/cache.rs')],
 ['bluejay_visibility::SchemaDefinition through the bluejay_core traits'])
p('C28','What a filtered schema shows does not depend on the order of access',
 'Reading a filtered schema in any order and any number of times - types by name, all types, fields, arguments, interfaces, members, roots - gives the same answers as reading it afresh; the cache behind it never changes an answer.',
 ['histories','configurations'],'every sequence of reads of the same filtered schema',
 'Caches are filled lazily on first access; tests read each schema in a single fixed order.',
 ['bluejay-visibility/src/cache.rs','bluejay-visibility/src/schema_definition.rs'],
 [('lazily filled cache of wrapped definitions','bluejay-visibility/src/cache.rs')],
 ['bluejay_visibility::SchemaDefinition through the bluejay_core traits'])
p('C29','Schema comparison reports every difference it covers, once, and nothing else',
 'Comparing two schemas reports each addition, removal and modification - of types, kinds, descriptions, fields, field types, arguments, defaults, input fields, enum values, union members, interfaces of objects, directive definitions with their locations and arguments, and directives with their arguments applied to the schema, types, fields, field arguments, input fields and enum values - exactly once, at the place where it is. Comparing a schema with itself reports nothing, and comparing in the opposite direction reports the mirrored changes.',
 ['inputs','histories'],'every pair of schemas, in particular every sequence of edits from one to the other',
 'Tests compare a couple of fixed pairs with many edits; each kind of edit at each kind of place, alone and combined with others, is not sampled.',
 ['bluejay-schema-comparator/src/diff/','bluejay-schema-comparator/src/changes.rs','bluejay-schema-comparator/src/lib.rs'],
 [('structural diff per kind of definition','bluejay-schema-comparator/src/diff/')],
 ['bluejay_schema_comparator::compare changes'])
p('C30','A change is called safe only if no valid request can break',
 'Every reported change has the criticality its effect on clients deserves: a change classified safe never makes a selection, argument or value of a request that was valid before invalid nor widens the types it is answered with, and a change that can do so is classified breaking, or dangerous when it only affects clients by new values. The result is ordered by criticality and counts breaking changes as such.',
 ['inputs','histories'],'every pair of schemas differing by any single edit, and every request valid before the edit',
 'Criticality depends on nullability, list nesting, defaults and directions; tests assert it for few examples.',
 ['bluejay-schema-comparator/src/changes.rs','bluejay-schema-comparator/src/result.rs'],
 [('criticality per change','bluejay-schema-comparator/src/changes.rs')],
 ['Change::criticality of the changes compare returns'])
p('C31','Generated types decode exactly well-formed responses and encode inputs right',
 'Types generated from a schema and queries within the documented limits compile, decode every response that conforms to the query, giving back each value at its place under the documented names, and refuse any response that lacks a non-null value, has a value of the wrong type, or omits the type discriminator where one is needed. Input objects and enums encode to JSON with the names of the schema, leaving out nothing that was given, and all codecs (serde, serde borrowing, miniserde) agree. Names whose Rust spellings collide or are not identifiers, nullable fields left out, keys not selected or repeated, and a discriminator that is not the first key are outside the property.',
 ['inputs','programs'],'every schema and set of queries within the documented limits, every response to them, conforming or not, and every input value',
 'Tests decode one or two hand-written responses to hand-written queries.',
 ['bluejay-typegen-macro/src/','bluejay-typegen/src/lib.rs'],
 [('type builders','bluejay-typegen-macro/src/executable_definition/'),('input and enum builders','bluejay-typegen-macro/src/input_object_type_definition.rs'),('names','bluejay-typegen-macro/src/names.rs')],
 ['serde_json::from_str / miniserde::json::from_str on the generated types','serde_json::to_string / miniserde::json::to_string on generated inputs'])
p('C32','The type generator accepts exactly the schemas and queries it can decode for',
 'The typegen macro expands, into code that compiles, exactly when its options make sense, the schema builds and keeps the schema rules, every custom scalar and nothing else has a plain type alias, and every query module is a document valid by GraphQL that keeps to the documented shapes: on objects and interfaces fields only or one fragment spread alone; on unions `__typename` first and then inline fragments on distinct members, or one fragment spread alone; a lone spread on an interface or union names a fragment that always applies there; no fragment shares the name of an operation. Otherwise it is refused at compile time, with one error for each departure from those shapes.',
 ['inputs','programs'],'every schema, set of aliases and options, and every query document',
 'Tests expand a dozen hand-written modules; shapes combine and nest without bound, and what is accepted wrongly only fails when a response arrives.',
 ['bluejay-typegen-macro/src/validation/','bluejay-typegen-macro/src/lib.rs','bluejay-typegen-macro/src/input.rs','bluejay-typegen-macro/src/executable_definition.rs'],
 [('shapes of selection sets','bluejay-typegen-macro/src/validation/selections_are_valid.rs'),('name clashes','bluejay-typegen-macro/src/validation/fragment_and_operation_names_do_not_clash.rs'),('schema, aliases, items','bluejay-typegen-macro/src/lib.rs')],
 ['errors the compiler reports for modules with the bluejay_typegen::typegen attribute'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P),[x['id'] for x in P if len(x['title'])>80])
