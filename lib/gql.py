"""Schemas and documents as plain data (the JSON shape of the specification), their text, their
node numbering, and the constant part of every schema (built-ins, introspection)."""
import json

# ------------------------------------------------------------------ constructors
def N(n, r=False):
    return {"k": "N", "n": n, "r": r}


def L(of, r=False):
    return {"k": "L", "of": of, "r": r}


def base(t):
    return t["n"] if t["k"] == "N" else base(t["of"])


def show(t):
    return (t["n"] if t["k"] == "N" else "[" + show(t["of"]) + "]") + ("!" if t["r"] else "")


def nullable(t):
    return dict(t, r=False)


def nonnull(t):
    return dict(t, r=True)


INT = lambda i: {"k": "int", "i": i}
STR = lambda s: {"k": "str", "s": s}
FLT = lambda s: {"k": "float", "s": s}
ENUM = lambda s: {"k": "enum", "s": s}
VAR = lambda s: {"k": "var", "s": s}
BOOL = lambda b: {"k": "bool", "b": b}
NULL = lambda: {"k": "null"}
LIST = lambda l: {"k": "list", "l": l}
OBJ = lambda o: {"k": "obj", "o": [{"n": n, "v": v} for n, v in o]}


def field(name, alias="", args=(), dirs=(), sel=()):
    return {"k": "field", "alias": alias, "name": name, "args": list(args), "dirs": list(dirs), "sel": list(sel)}


def inl(on, sel, dirs=()):
    return {"k": "inl", "on": on, "dirs": list(dirs), "sel": list(sel)}


def spr(name, dirs=()):
    return {"k": "spr", "name": name, "dirs": list(dirs)}


def arg(n, v):
    return {"n": n, "v": v}


def direc(n, args=()):
    return {"n": n, "args": list(args)}


def op(sel, op="query", name="", vars=(), dirs=(), short=False):
    return {"k": "op", "short": short, "op": op, "name": name, "vars": list(vars), "dirs": list(dirs), "sel": list(sel)}


def frag(name, on, sel, dirs=()):
    return {"k": "frag", "name": name, "on": on, "dirs": list(dirs), "sel": list(sel)}


def vardef(name, type, deflt=None, dirs=()):
    return {"name": name, "type": type, "def": [] if deflt is None else [deflt], "dirs": list(dirs)}


# ------------------------------------------------------------------ schema
def iv(name, type, deflt=None, desc=None, dirs=()):
    return {"name": name, "desc": [] if desc is None else [desc], "type": type,
            "def": [] if deflt is None else [deflt], "dirs": list(dirs)}


def fd(name, type, args=(), desc=None, dirs=()):
    return {"name": name, "desc": [] if desc is None else [desc], "type": type, "args": list(args), "dirs": list(dirs)}


def ty(k, name, **kw):
    t = {"k": k, "name": name, "desc": [], "dirs": [], "ifaces": [], "fields": [], "members": [], "values": []}
    t.update(kw)
    return t


def val(name, desc=None, dirs=()):
    return {"name": name, "desc": [] if desc is None else [desc], "dirs": list(dirs)}


def ddef(name, locs, args=(), rep=False, desc=None):
    return {"name": name, "desc": [] if desc is None else [desc], "rep": rep, "args": list(args), "locs": list(locs)}


def schema(types, query="Query", mutation="", subscription="", directives=(), desc=None, dirs=(), explicit=None):
    return {"desc": [] if desc is None else [desc], "dirs": list(dirs), "query": query, "mutation": mutation,
            "subscription": subscription, "types": list(types), "directives": list(directives), "explicit": explicit}


def find_type(s, n):
    for t in s["types"]:
        if t["name"] == n:
            return t


# ------------------------------------------------------------------ text
def q(s):
    out = ['"']
    for c in s:
        o = ord(c)
        if c == '"':
            out.append('\\"')
        elif c == "\\":
            out.append("\\\\")
        elif c == "\n":
            out.append("\\n")
        elif c == "\r":
            out.append("\\r")
        elif c == "\t":
            out.append("\\t")
        elif o < 32:
            out.append("\\u%04x" % o)
        else:
            out.append(c)
    out.append('"')
    return "".join(out)


def tokens_value(v):
    k = v["k"]
    if k == "int":
        return [str(v["i"])]
    if k == "float":
        return [v.get("text", v["s"])]
    if k == "str":
        return [v.get("text", q(v["s"]))]
    if k == "enum":
        return [v["s"]]
    if k == "bool":
        return ["true" if v["b"] else "false"]
    if k == "null":
        return ["null"]
    if k == "var":
        return ["$" + v["s"]]
    if k == "list":
        return ["["] + [t for x in v["l"] for t in tokens_value(x)] + ["]"]
    return ["{"] + [t for e in v["o"] for t in [e["n"], ":"] + tokens_value(e["v"])] + ["}"]


def tokens_type(t):
    return ([t["n"]] if t["k"] == "N" else ["["] + tokens_type(t["of"]) + ["]"]) + (["!"] if t["r"] else [])


def tokens_args(args):
    return [] if not args else ["("] + [t for a in args for t in [a["n"], ":"] + tokens_value(a["v"])] + [")"]


def tokens_dirs(ds):
    return [t for d in ds for t in ["@", d["n"]] + tokens_args(d["args"])]


def tokens_sel(sels):
    if not sels:
        return []
    out = ["{"]
    for s in sels:
        if s["k"] == "field":
            out += ([s["alias"], ":"] if s["alias"] else []) + [s["name"]] + tokens_args(s["args"]) + \
                tokens_dirs(s["dirs"]) + tokens_sel(s["sel"])
        elif s["k"] == "spr":
            out += ["...", s["name"]] + tokens_dirs(s["dirs"])
        else:
            out += ["..."] + (["on", s["on"]] if s["on"] else []) + tokens_dirs(s["dirs"]) + tokens_sel(s["sel"])
    return out + ["}"]


def tokens_op(o):
    if o["short"]:
        return tokens_sel(o["sel"])
    out = [o["op"]] + ([o["name"]] if o["name"] else [])
    if o["vars"]:
        out.append("(")
        for v in o["vars"]:
            out += ["$" + v["name"], ":"] + tokens_type(v["type"]) + \
                (["="] + tokens_value(v["def"][0]) if v["def"] else []) + tokens_dirs(v["dirs"])
        out.append(")")
    return out + tokens_dirs(o["dirs"]) + tokens_sel(o["sel"])


def tokens_frag(f):
    return ["fragment", f["name"], "on", f["on"]] + tokens_dirs(f["dirs"]) + tokens_sel(f["sel"])


def doc_text(d):
    return " ".join(t for o in d["ops"] for t in tokens_op(o)) + " " + \
        " ".join(t for f in d["frags"] for t in tokens_frag(f))


def desc_tokens(d):
    return [q(d[0])] if d else []


def tokens_iv(v):
    return desc_tokens(v["desc"]) + [v["name"], ":"] + tokens_type(v["type"]) + \
        (["="] + tokens_value(v["def"][0]) if v["def"] else []) + tokens_dirs(v["dirs"])


def tokens_argdefs(args):
    return [] if not args else ["("] + [t for a in args for t in tokens_iv(a)] + [")"]


def tokens_fields(fs):
    if not fs:
        return []
    out = ["{"]
    for f in fs:
        out += desc_tokens(f["desc"]) + [f["name"]] + tokens_argdefs(f["args"]) + [":"] + tokens_type(f["type"]) + tokens_dirs(f["dirs"])
    return out + ["}"]


def tokens_typedef(t):
    out = desc_tokens(t["desc"])
    k = t["k"]
    kw = {"object": "type", "interface": "interface", "union": "union", "enum": "enum", "input": "input", "scalar": "scalar"}[k]
    out += [kw, t["name"]]
    if t["ifaces"]:
        out.append("implements")
        for i, n in enumerate(t["ifaces"]):
            out += (["&"] if i else []) + [n]
    out += tokens_dirs(t["dirs"])
    if k in ("object", "interface"):
        out += tokens_fields(t["fields"])
    elif k == "union" and t["members"]:
        out.append("=")
        for i, n in enumerate(t["members"]):
            out += (["|"] if i else []) + [n]
    elif k == "enum":
        out += ["{"] + [x for v in t["values"] for x in desc_tokens(v["desc"]) + [v["name"]] + tokens_dirs(v["dirs"])] + ["}"]
    elif k == "input":
        out += ["{"] + [x for f in t["fields"] for x in tokens_iv(f)] + ["}"]
    return out


def tokens_ddef(d):
    return desc_tokens(d["desc"]) + ["directive", "@", d["name"]] + tokens_argdefs(d["args"]) + \
        (["repeatable"] if d["rep"] else []) + ["on"] + [x for i, l in enumerate(d["locs"]) for x in ((["|"] if i else []) + [l])]


def needs_schema_block(s):
    names = {t["name"] for t in s["types"] if t["k"] == "object"}
    if s["desc"] or s["dirs"] or s["explicit"]:
        return True
    for r, n in (("query", "Query"), ("mutation", "Mutation"), ("subscription", "Subscription")):
        if s[r] and s[r] != n:
            return True
        if not s[r] and n in {t["name"] for t in s["types"]}:
            return True
    return False


def schema_tokens(s):
    out = []
    if needs_schema_block(s):
        out += desc_tokens(s["desc"]) + ["schema"] + tokens_dirs(s["dirs"]) + ["{"]
        for r in ("query", "mutation", "subscription"):
            if s[r]:
                out += [r, ":", s[r]]
        out.append("}")
    for d in s["directives"]:
        out += tokens_ddef(d)
    for t in s["types"]:
        out += tokens_typedef(t)
    return out


def sdl(s):
    return " ".join(schema_tokens(s))


# ------------------------------------------------------------------ numbering
def number(d):
    """Node ids in the harness's preorder; returns a numbered copy."""
    d = json.loads(json.dumps(d))
    c = [0]

    def put(x):
        c[0] += 1
        x["id"] = c[0]

    def value(v):
        put(v)
        if v["k"] == "list":
            for x in v["l"]:
                value(x)
        elif v["k"] == "obj":
            for e in v["o"]:
                value(e["v"])

    def args(a):
        for x in a:
            put(x)
            value(x["v"])

    def dirs(ds):
        for x in ds:
            put(x)
            args(x["args"])

    def sel(ss):
        for s in ss:
            put(s)
            if s["k"] == "field":
                args(s["args"])
            dirs(s["dirs"])
            if s["k"] != "spr":
                sel(s["sel"])
    for o in d["ops"]:
        put(o)
        for v in o["vars"]:
            put(v)
            for x in v["def"]:
                value(x)
            dirs(v["dirs"])
        dirs(o["dirs"])
        sel(o["sel"])
    for f in d["frags"]:
        put(f)
        dirs(f["dirs"])
        sel(f["sel"])
    return d


def strip(x, keys=("id", "text")):
    if isinstance(x, dict):
        return {k: strip(v, keys) for k, v in x.items() if k not in keys}
    if isinstance(x, list):
        return [strip(v, keys) for v in x]
    return x


# ------------------------------------------------------------------ the specification's schema record
def _f(type, **args):
    return {"type": type, "args": {n: {"type": t, "def": d} for n, (t, d) in args.items()}}


S_, B_ = N("String"), N("Boolean")
_FALSE = [BOOL(False)]
INTROSPECTION = {
    "__Schema": {"description": _f(N("String")), "types": _f(L(N("__Type", True), True)), "queryType": _f(N("__Type", True)),
                 "mutationType": _f(N("__Type")), "subscriptionType": _f(N("__Type")),
                 "directives": _f(L(N("__Directive", True), True))},
    "__Type": {"kind": _f(N("__TypeKind", True)), "name": _f(S_), "description": _f(S_),
               "fields": _f(L(N("__Field", True)), includeDeprecated=(B_, _FALSE)),
               "interfaces": _f(L(N("__Type", True))), "possibleTypes": _f(L(N("__Type", True))),
               "enumValues": _f(L(N("__EnumValue", True)), includeDeprecated=(B_, _FALSE)),
               "inputFields": _f(L(N("__InputValue", True)), includeDeprecated=(B_, _FALSE)),
               "ofType": _f(N("__Type")), "specifiedByURL": _f(S_)},
    "__Field": {"name": _f(N("String", True)), "description": _f(S_),
                "args": _f(L(N("__InputValue", True), True), includeDeprecated=(B_, _FALSE)),
                "type": _f(N("__Type", True)), "isDeprecated": _f(N("Boolean", True)), "deprecationReason": _f(S_)},
    "__InputValue": {"name": _f(N("String", True)), "description": _f(S_), "type": _f(N("__Type", True)),
                     "defaultValue": _f(S_)},
    "__EnumValue": {"name": _f(N("String", True)), "description": _f(S_), "isDeprecated": _f(N("Boolean", True)),
                    "deprecationReason": _f(S_)},
    "__Directive": {"name": _f(N("String", True)), "description": _f(S_),
                    "locations": _f(L(N("__DirectiveLocation", True), True)),
                    "args": _f(L(N("__InputValue", True), True), includeDeprecated=(B_, _FALSE)),
                    "isRepeatable": _f(N("Boolean", True))},
}
TYPE_KINDS = ["SCALAR", "OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT", "LIST", "NON_NULL"]
EXEC_LOCS = ["QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT",
             "VARIABLE_DEFINITION"]
TS_LOCS = ["SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM",
           "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION"]
BUILTIN_DIRECTIVES = {
    "skip": {"locs": ["FIELD", "FRAGMENT_SPREAD", "INLINE_FRAGMENT"], "rep": False,
             "args": {"if": {"type": N("Boolean", True), "def": []}}},
    "include": {"locs": ["FIELD", "FRAGMENT_SPREAD", "INLINE_FRAGMENT"], "rep": False,
                "args": {"if": {"type": N("Boolean", True), "def": []}}},
    "deprecated": {"locs": ["FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INPUT_FIELD_DEFINITION", "ENUM_VALUE"], "rep": False,
                   "args": {"reason": {"type": S_, "def": [STR("No longer supported")]}}},
    "specifiedBy": {"locs": ["SCALAR"], "rep": False, "args": {"url": {"type": N("String", True), "def": []}}},
    "oneOf": {"locs": ["INPUT_OBJECT"], "rep": False, "args": {}},
}
BUILTIN_SCALARS = ["Int", "Float", "String", "Boolean", "ID"]
TYPENAME = _f(N("String", True))


# the kinds of values a custom scalar takes in the context of the harness (harness/src/ctx.rs); others take everything
TAKES = {"Digits": ("str",), "Count": ("int", "float", "bool"), "Shape": ("list", "obj", "enum")}


def tlc_type(k, fields=None, ifaces=(), members=(), values=(), inputs=None, oneof=False):
    return {"k": k, "fields": fields or {}, "ifaces": list(ifaces), "members": list(members), "values": list(values),
            "inputs": inputs or {}, "oneof": oneof}


def _args(a):
    return {x["name"]: {"type": x["type"], "def": x["def"]} for x in a}


def tlc_schema(s):
    """The schema as the record the specification works on."""
    types = {n: tlc_type("builtin") for n in BUILTIN_SCALARS}
    types["__TypeKind"] = tlc_type("enum", values=TYPE_KINDS)
    types["__DirectiveLocation"] = tlc_type("enum", values=EXEC_LOCS + TS_LOCS)
    for n, fs in INTROSPECTION.items():
        types[n] = tlc_type("object", fields=dict(fs, __typename=TYPENAME))
    for t in s["types"]:
        k = t["k"]
        if k in ("object", "interface"):
            f = {x["name"]: {"type": x["type"], "args": _args(x["args"])} for x in t["fields"]}
            f["__typename"] = TYPENAME
            if t["name"] == s["query"]:
                f["__schema"] = _f(N("__Schema", True))
                f["__type"] = _f(N("__Type"), name=(N("String", True), []))
            types[t["name"]] = tlc_type(k, fields=f, ifaces=t["ifaces"])
        elif k == "union":
            types[t["name"]] = tlc_type(k, fields={"__typename": TYPENAME}, members=t["members"])
        elif k == "enum":
            types[t["name"]] = tlc_type(k, values=[v["name"] for v in t["values"]])
        elif k == "input":
            types[t["name"]] = tlc_type(k, inputs=_args(t["fields"]), oneof=any(d["n"] == "oneOf" for d in t["dirs"]))
        else:
            types[t["name"]] = tlc_type("scalar", values=TAKES.get(t["name"], ()))
    dirs = dict(BUILTIN_DIRECTIVES)
    for d in s["directives"]:
        dirs[d["name"]] = {"locs": d["locs"], "rep": d["rep"], "args": _args(d["args"])}
    return {"query": s["query"], "mutation": s["mutation"], "subscription": s["subscription"], "types": types,
            "directives": dirs}
