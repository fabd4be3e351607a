"""property -> (module, function, keyword arguments)"""
REGISTRY = {
    "C01": ("parsing", "run_outcome", {}),
    "C02": ("parsing", "run", {"what": "lex"}),
    "C03": ("parsing", "run", {"what": "exec"}),
    "C04": ("parsing", "run", {"what": "schema"}),
    "C05": ("parsing", "run_positions", {}),
    "C06": ("printing", "run_exec", {}),
    "C07": ("printing", "run_schema", {}),
    "C08": ("schemas", "run", {"rule": "build"}),
    "C09": ("schemas", "run", {"rule": "rules"}),
    "C10": ("validation", "run", {"rule": "fields"}),
    "C11": ("validation", "run", {"rule": "merge"}),
    "C12": ("validation", "run", {"rule": "fragments"}),
    "C13": ("validation", "run", {"rule": "variables"}),
    "C14": ("validation", "run", {"rule": "usages"}),
    "C15": ("validation", "run", {"rule": "arguments"}),
    "C16": ("validation", "run", {"rule": "values"}),
    "C17": ("validation", "run", {"rule": "directives"}),
    "C19": ("journey", "run", {}),
    "C20": ("coercion", "run", {}),
    "C21": ("coercion", "run_vars", {}),
    "C22": ("analysis", "run", {"rule": "select"}),
    "C23": ("analysis", "run", {"rule": "depth"}),
    "C24": ("analysis", "run", {"rule": "cost"}),
    "C25": ("analysis", "run", {"rule": "size"}),
    "C26": ("analysis", "run", {"rule": "deprecated"}),
    "C27": ("visibility", "run", {}),
    "C28": ("visibility", "run_reads", {}),
    "C29": ("compare", "run", {"rule": "diff"}),
    "C30": ("compare", "run", {"rule": "crit"}),
    "C31": ("typegen", "run", {}),
    "C32": ("typegen_rules", "run", {}),
    "C18": ("validation", "run", {"rule": ["operations", "subscriptions"]}),
}

T = "TLA+ specification checked with TLC; trace validation of the real code's observed behaviour"
V_NOTE = ("Every document validated in the run (seeded random schemas and documents, plus every document of a bounded model) "
          "was reported exactly the facts of this rule that the TLA+ specification of GraphQL validation derives for it. "
          "Assumes the harness's projection of errors to facts; documents on which the rule is ambiguous (e.g. duplicate "
          "fragment names) are not compared.")
NOTES = {i: (T, V_NOTE) for i in ("C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18")}

NOTES["C20"] = (T + "; exhaustive bounded model replayed into the code",
                "Every (type, value) pair of a bounded model and every seeded random pair was coerced exactly as the specification says: "
                "the same defects at the same paths, or success. Custom scalars accept what the context of the harness gives them: everything, or some kinds of values only.")
NOTES["C21"] = (T, "Every request checked in the run was reported exactly the unused, missing and invalid variables the specification derives.")
A_NOTE = ("Every request analysed in the run (seeded random schemas, documents, names, variable values) gave the result the TLA+ specification of "
          "the analysis derives. Documents with cyclic fragments or ambiguous names are not compared.")
for _i in ("C22", "C23", "C24", "C25", "C26"):
    NOTES[_i] = (T, A_NOTE)

D_NOTE = ("Every pair of schemas compared in the run (a seeded random schema and the same after 0 to 15 edits, forward, backward and with itself) gave exactly "
          "the changes the TLA+ specification derives{}. The wording of messages, interfaces of interfaces, root operation types, repeatability and directives "
          "on the arguments of directive definitions are outside the property.")
NOTES["C29"] = (T, D_NOTE.format(", at their places"))
NOTES["C30"] = (T, D_NOTE.format(" with their gravity, in order; documents valid before a non-breaking change were validated against the changed schema"))

NOTES["C08"] = (T, "Every document built in the run (seeded random documents in random order, three quarters of them with one or two defects of 20 kinds) was accepted "
                "or rejected as the TLA+ specification says: the same kinds of errors at the same tokens, or the very definitions of the document. "
                "A builtin scalar redefined as something that is not both input and output is outside the property.")
NOTES["C09"] = (T, "For every schema built in the run (seeded random, with repeated enum values and input fields, and random graphs of input objects) the rules reported "
                "exactly the facts the TLA+ specification derives.")

NOTES["C27"] = (T + "; differential run against the document the specification prunes",
                "For every schema and choice of hidden parts in the run, the filtered schema showed exactly what the TLA+ specification leaves of the document, and "
                "coercion, validation, analyses, lookups, printing and rules gave what they give for that pruned document. Changes of reachability are those of the specification.")
NOTES["C28"] = (T + "; exhaustive histories of a bounded model replayed into the code",
                "Every history of reads of a model schema up to the bound, and random long histories on random schemas, was answered as the same reads are answered first thing, "
                "and those answers are the ones the TLA+ specification derives.")

NOTES["C19"] = (T + "; documents enumerated by a bounded model", "Every document of the run (documents of the bounded models; seeded random documents with names, conditions, directives, values and variables rewired; "
                "deep nesting, chains and knots of fragments; against schemas that build but break most rules) was validated, its errors rendered, an operation selected and seven analyses run, each ending with the kind of answer "
                "the TLA+ protocol requires. An answer that takes over 20 s counts as a hang; documents whose expansion is exponential are not generated.")
P_NOTE = ("Every text parsed in the run (seeded random texts: {}) was accepted or rejected as the TLA+ lexical grammar and pushdown machine say, "
          "and the tree of every accepted text denotes exactly the tokens of the text. Assumes the harness reads the tree through the public traits.")
TM = T + "; exhaustive bounded models replayed into the code"
NOTES["C01"] = (TM, "Every text parsed in the run (all short texts over six alphabets, every transition of the grammar's pushdown machine, seeded random garbage, damaged "
                "documents and nesting up to 200 levels), as either kind of document, was answered with a document or with errors that could be shown. A text without an answer within 20 s counts as a hang.")
NOTES["C02"] = (TM, P_NOTE.format("literals, edges of numbers, escapes, block strings, ignored tokens and stray characters"))
NOTES["C03"] = (TM, P_NOTE.format("executable documents, valid and with one to three token edits, under random layouts"))
NOTES["C04"] = (TM, P_NOTE.format("type system documents, valid and with one to three token edits, under random layouts"))
NOTES["C05"] = (T, "The spans of every construct of every accepted text, the location of the first error of every rejected one, and those of every validation error, were those the specification derives "
                "from its own reading of the text (columns in characters). Errors at the end of the text may be placed anywhere after the last token's start.")

PR_NOTE = ("Every {} printed in the run (every string value of a bounded model in every place, seeded random trees with hard strings and numbers) gave a text that denotes, "
           "token for token, the tree that was printed as read by the TLA+ lexical grammar and pushdown machine; the real parser read it back as the same tree, and printing that gave the same text.")
NOTES["C06"] = (TM, PR_NOTE.format("document"))
NOTES["C07"] = (TM, PR_NOTE.format("schema"))

NOTES["C31"] = (TM, "Types were generated, under every codec, for programs of seeded random schemas and queries within the documented limits; every response of the bounded model and "
                "every random response, conforming or damaged, was decoded to exactly the value, or refused, as the TLA+ specification says, and every input was encoded to what it says. "
                "Nothing is promised, and nothing checked, about a nullable field left out, keys not selected or given twice, or a discriminator that is not the first key.")

NOTES["C32"] = (T + "; exhaustive bounded model replayed into the code",
                "Every module compiled in the run (documents of a bounded model over a small schema, conforming documents after up to three edits over random schemas, and modules with "
                "random schemas, aliases, options and items) was expanded or refused as the TLA+ specification says, with the same kinds of errors; in the model what is accepted can always be "
                "decoded; a sample of what was accepted compiled. A response key selected twice in one set, and names that collide or are no identifiers in Rust, are outside the property.")
