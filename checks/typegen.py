"""C31: types generated from schemas and queries (spec/Typegen*.tla).

Programs (a schema, documents of queries over it, an alias for each custom scalar) are made from
the seed, written out as Rust source for every codec, and compiled; the program that results
decodes responses and encodes inputs on request."""
import hashlib, os, random, re, subprocess
from lib import core
from lib.gen import *

BUILTIN = ["Int", "Float", "String", "ID", "Boolean"]


# ------------------------------------------------------------------ names in Rust
def words(n):
    out = []
    for part in n.split("_"):
        out += re.findall(r"[A-Z]+(?![a-z])|[A-Z][a-z]*|[a-z]+|[0-9]+", part)
    return out


def snake(n):
    return "_".join(w.lower() for w in words(n))


def pascal(n):
    return "".join(w[0].upper() + w[1:].lower() for w in words(n))


KEYWORDS = set("""as break const continue else enum extern false fn for if impl in let loop match mod move mut pub ref return
 static struct trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof
 unsized virtual yield try union""".split())


def ident(n):
    return n + "_" if n in ("self", "Self", "super", "crate") else "r#" + n if n in KEYWORDS else n


def shown(n):
    """as Debug shows it"""
    return n + "_" if n in ("self", "Self", "super", "crate") else n


FIELDS = ["id", "name", "createdAt", "itemCount", "type", "fn", "out", "k", "state", "data", "URLPath", "old_value", "isOk",
          "self", "value", "key", "visited", "Upper", "SHOUT", "match", "s", "result", "option", "string", "vec", "place", "err",
          "someHTTPThing", "de", "map", "f", "super", "a", "b"]
VALUES = ["RED", "GREEN", "DARK_BLUE", "mixedCase", "NONE", "SOME", "OK", "ERR", "SELF", "lower", "Type", "STRING"]
TYPES = ["User", "Post", "BlogPost", "HTTPThing", "item_kind", "Result", "Option", "Some", "Err", "Node", "Box", "Copy", "string", "Match", "Alpha", "Beta"]
OPS = ["GetUser", "listAll", "Search", "update_it", "Ping", "Fetch", "Load", "Watch", "Vec", "Clone"]
FRAGS = ["UserParts", "postParts", "CommonBits", "node_bits", "Thing", "Pieces", "Info", "Detail"]


def distinct(r, pool, n, taken=()):
    """n names whose Rust spellings differ from each other and from the taken ones"""
    pool = [x for x in pool if snake(x) not in {snake(y) for y in taken}]
    r.shuffle(pool)
    out = []
    for x in pool:
        if len(out) < n and snake(x) not in {snake(y) for y in out} and pascal(x) not in {pascal(y) for y in out}:
            out.append(x)
    return out


# ------------------------------------------------------------------ programs
class Prog:
    pass


def wrap(r, t, p=0.45):
    t = N(t, r.p(0.5))
    while r.p(p):
        t = L(t, r.p(0.5))
        p *= 0.5
    return t


def gen_program(r, borrow_alias=True):
    p = Prog()
    names = distinct(r, list(TYPES), 12)
    take = lambda: names.pop()
    p.alias = {}
    types = []
    for _ in range(r.randrange(0, 3)):
        n = take()
        p.alias[n] = r.choice(["String", "String", "i64", "f64", "bool"])
        types.append(ty("scalar", n, desc=[r.choice(["A scalar.", "with \\ and \" in it"])]) if r.p(0.3) else ty("scalar", n))
    enums = [take() for _ in range(r.randrange(1, 3))]
    for n in enums:
        types.append(ty("enum", n, values=[val(v) for v in distinct(r, list(VALUES), r.randrange(1, 6))]))
    leaves = BUILTIN + enums + list(p.alias)
    ifaces = [take() for _ in range(r.randrange(1, 3))]
    objs = [take() for _ in range(r.randrange(2, 4))]
    unions = [take() for _ in range(r.randrange(1, 3))]
    comps = ifaces + objs + unions
    someleaf = lambda: wrap(r, r.choice(leaves), 0.3)
    ftype = lambda: someleaf() if r.p(0.55) else wrap(r, r.choice(comps), 0.35)
    ifields, extends = {}, {}
    for i, n in enumerate(ifaces):
        extends[n] = [ifaces[0]] if i and r.p(0.6) else []
        inherited = list(ifields[ifaces[0]]) if extends[n] else []
        own = distinct(r, list(FIELDS), r.randrange(1, 4), [f["name"] for f in inherited])
        ifields[n] = inherited + [fd(x, ftype()) for x in own]
        types.append(ty("interface", n, fields=ifields[n], ifaces=extends[n]))
    ofields = {}
    for n in objs:
        imp = []
        have = []
        for i in ifaces:
            if r.p(0.5):
                for j in extends[i] + [i]:
                    if j not in imp and not {snake(f["name"]) for f in ifields[j]} & {snake(f["name"]) for f in have if f not in ifields[j]}:
                        if all(e in imp for e in extends[j]):
                            imp.append(j)
                            have += [f for f in ifields[j] if f not in have]
        own = distinct(r, list(FIELDS), r.randrange(1, 6), [f["name"] for f in have])
        ofields[n] = have + [fd(x, ftype()) for x in own]
        types.append(ty("object", n, fields=ofields[n], ifaces=imp))
    for n in unions:
        types.append(ty("union", n, members=r.sample(objs, r.randrange(1, len(objs) + 1))))
    root = [fd(x, wrap(r, t, 0.35)) for x, t in zip(distinct(r, list(FIELDS), len(comps) + 3), comps + [r.choice(leaves) for _ in range(3)])]
    types.append(ty("object", "QueryRoot", fields=root))
    mutation = r.p(0.3)
    if mutation:
        types.append(ty("object", "MutationRoot", fields=[fd(x, ftype()) for x in distinct(r, list(FIELDS), 2)]))
    # inputs
    ins = distinct(r, ["In", "UserInput", "post_filter", "Args", "Choice", "Range"], r.randrange(1, 4))
    p.inputs = ins
    for i, n in enumerate(ins):
        one = r.p(0.35)
        fs = []
        for x in distinct(r, list(FIELDS), r.randrange(1, 6)):
            # required fields only towards earlier inputs, so that there are values
            b = r.choice(leaves + ins)
            t = wrap(r, b, 0.3)
            if one:
                t = nullable(t)
            elif b in ins and ins.index(b) >= i and t["k"] == "N":
                t = nullable(t)
            d = None
            if not one and r.p(0.2):
                d = LIST([]) if t["k"] == "L" else BOOL(True) if b == "Boolean" else INT(1) if b in ("Int", "Float", "ID") else STR("x") if b == "String" else None
            fs.append(iv(x, t, d))
        if one and all(base(f["type"]) in ins and ins.index(base(f["type"])) >= i for f in fs):
            fs.append(iv("plain", N("Int")))
        types.append(ty("input", n, fields=fs, dirs=[direc("oneOf")] if one else []))
    r.shuffle(types)
    p.s = schema(types, query="QueryRoot", mutation="MutationRoot" if mutation else "", explicit=True)
    p.docs = [gen_document(r, p, ofields, ifields, extends) for _ in range(r.randrange(1, 3))]
    p.file = r.p(0.5) or any(t["desc"] for t in types)
    return finish(p)


def finish(p):
    p.t = tlc_schema(p.s)
    alls = set()

    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ("name", "alias", "n", "on") and isinstance(v, str):
                    alls.add(v)
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(p.s), walk(p.docs)
    alls |= {"Root", "__typename"}
    alls.discard("")
    p.snake = {n: shown(snake(n)) for n in alls}
    p.pascal = {n: shown(pascal(n)) for n in alls}
    return p


def gen_document(r, p, ofields, ifields, extends):
    s = p.s
    kind = {t["name"]: t["k"] for t in s["types"]}
    fields = {t["name"]: t["fields"] for t in s["types"] if t["k"] in ("object", "interface")}
    members = {t["name"]: t["members"] for t in s["types"] if t["k"] == "union"}
    taken = distinct(r, list(FRAGS), r.randrange(0, 4))
    # a fragment is written after those it may spread
    frags = []
    comps = [n for n, k in kind.items() if k in ("object", "interface", "union") and n not in ("QueryRoot", "MutationRoot")]

    objects = [x for x in s["types"] if x["k"] == "object"]

    def possible(t):
        return {t} if kind[t] == "object" else set(members[t]) if kind[t] == "union" else {x["name"] for x in objects if t in x["ifaces"]}

    def fits(t, f):
        if not possible(t) & possible(f["on"]):
            return False
        if kind[t] == "interface":
            return f["on"] == t or f["on"] in extends.get(t, [])
        if kind[t] == "object":
            i = next(x for x in s["types"] if x["name"] == t)["ifaces"]
            return f["on"] == t or f["on"] in i
        return f["on"] == t or possible(t) <= possible(f["on"])

    def leafsel(t, depth):
        b = base(t)
        return [] if kind.get(b, "builtin") in ("scalar", "enum", "builtin") else sels(b, depth)

    def plain(t, depth, used, union=None):
        """fields only; used: the response keys of the set; union: keys of sibling fragments with what they mean"""
        out = []
        fs = [f for f in fields[t] if depth > 0 or kind.get(base(f["type"]), "builtin") not in ("object", "interface", "union")]
        fs = [(f["name"], f["type"]) for f in r.sample(fs, min(len(fs), r.randrange(1, 5)))]
        if r.p(0.25) or not fs:
            fs.insert(r.randrange(0, len(fs) + 1), ("__typename", N("String", True)))
        fs += [r.choice(fs)] if r.p(0.2) else []
        for n, ft in fs:
            sub = leafsel(ft, depth - 1)
            key = n
            sig = json.dumps([n, ft, strip(sub)])
            if r.p(0.2) or snake(key) in used or union and key in union and (sub or union[key] != sig):
                c = [x for x in ["al" + str(i) + "x" for i in range(1, 30)] + FIELDS[:20] if snake(x) not in used and not (union and x in union)]
                key = r.choice(c[:4] + c[-6:])
            if snake(key) in used:
                continue
            if union is not None:
                union[key] = sig
            used.add(snake(key))
            out.append(field(n, "" if key == n else key, sel=sub))
        return out

    def sels(t, depth):
        fit = [f for f in frags if fits(t, f)]
        if fit and (r.p(0.35) or depth <= 0):
            return [spr(r.choice(fit)["name"])]
        if kind[t] == "union":
            seen = {"__typename": json.dumps(["__typename", N("String", True), []])}
            out = [field("__typename")]
            for m in r.sample(members[t], r.randrange(0 if r.p(0.2) else 1, len(members[t]) + 1)):
                fs = plain(m, depth - 1, set(), seen)
                out.append(inl(m, fs))
            return out
        return plain(t, depth, set())

    for n in taken:
        t = r.choice(comps)
        x = sels(t, r.randrange(0, 3))
        frags.append(frag(n, t, x))
    ops = []
    names = distinct(r, list(OPS), r.randrange(1, 4), taken)
    if r.p(0.15):
        names = [""]
    for n in names:
        m = s["mutation"] and r.p(0.4)
        ops.append(op(plain("MutationRoot" if m else "QueryRoot", 3, set()), "mutation" if m else "query", n))
    used = set()

    def spreads(sel):
        for x in sel:
            if x["k"] == "spr" and x["name"] not in used:
                used.add(x["name"])
                spreads(next(f for f in frags if f["name"] == x["name"])["sel"])
            spreads(x.get("sel", []))
    for o in ops:
        spreads(o["sel"])
    return {"ops": ops, "frags": [f for f in frags if f["name"] in used]}


def tla_program(p, i):
    d = p.docs[i]
    roots = [{"op": o["op"], "name": o["name"], "on": "", "sel": o["sel"]} for o in d["ops"]] + \
            [{"op": "fragment", "name": f["name"], "on": f["on"], "sel": f["sel"]} for f in d["frags"]]
    return {"schema": p.t, "roots": roots, "frags": d["frags"], "alias": dict(p.alias, _="String"), "snake": p.snake, "pascal": p.pascal}


# ------------------------------------------------------------------ Rust
def rust_str(x):
    return '"' + x.replace("\\", "\\\\").replace('"', '\\"') + '"'


def source(p, idx, d):
    """modules for every codec, with decode and encode"""
    out = []
    text = sdl(p.s)
    docs = [doc_text(x) for x in p.docs]

    def form(t, file):
        if file:
            f = os.path.join(d, hashlib.sha1(t.encode()).hexdigest()[:16] + ".graphql")
            open(f, "w").write(t)
            return rust_str(f)
        return "[" + t + "]"
    for codec in CODECS:
        js = "bluejay_typegen::miniserde::json" if codec == "miniserde" else "serde_json"
        opts = {"serde": "", "borrow": ", borrow = true", "miniserde": ', codec = "miniserde"'}[codec]
        w = out.append
        w(f"pub mod p{idx}_{codec} {{\n#[bluejay_typegen::typegen({form(text, p.file)}{opts})]\npub mod schema {{")
        for n, a in sorted(p.alias.items()):
            if a == "String" and codec == "borrow":
                w(f"type {ident(pascal(n))}<'a> = ::std::borrow::Cow<'a, str>;")
            else:
                w(f"type {ident(pascal(n))} = {'::std::string::String' if a == 'String' else a};")
        for i, t in enumerate(docs):
            w(f"#[query({form(t, p.file)})] pub mod q{i} {{}}")
        w("}")
        w("pub fn decode(root: &str, t: &str) -> Result<String, String> { match root {")
        for i, x in enumerate(p.docs):
            for n in [o["name"] or "Root" for o in x["ops"]] + [f["name"] for f in x["frags"]]:
                w(f'"{i}.{n}" => {js}::from_str::<schema::q{i}::{ident(pascal(n))}>(t).map(|v| format!("{{:?}}", v)).map_err(|e| format!("{{:?}}", e)),')
        w('_ => unreachable!() } }')
        # documented paths of nested types
        paths = set()
        for i, x in enumerate(p.docs):
            for o in x["ops"] + x["frags"]:
                root = {"query": p.s["query"], "mutation": p.s["mutation"]}[o["op"]] if "op" in o else o["on"]
                type_paths(p, root, o["sel"], f"schema::q{i}", o["name"] or "Root", paths)
        for k, x in enumerate(sorted(paths)):
            w(f"pub fn path{k}(_: &{x}) {{}}")
        # inputs
        for t in p.s["types"]:
            path = "schema::" + ident(pascal(t["name"]))
            if t["k"] == "enum":
                w(f"pub fn mk_{t['name']}(v: &serde_json::Value) -> {path} {{ match v.as_str().unwrap() {{")
                for v in t["values"]:
                    w(f'"{v["name"]}" => {path}::{ident(pascal(v["name"]))},')
                w("_ => unreachable!() } }")
            elif t["k"] == "input":
                life = "<'static>" if codec == "borrow" and borrows(p, t["name"], set()) else ""
                w(f"pub fn mk_{t['name']}(v: &serde_json::Value) -> {path}{life} {{")
                if t["dirs"]:
                    w("let (n, v) = v.as_object().unwrap().iter().next().unwrap(); match n.as_str() {")
                    for f in t["fields"]:
                        w(f'"{f["name"]}" => {path}::{ident(pascal(f["name"]))}({make(p, nonnull(f["type"]), "v", True)}),')
                    w("_ => unreachable!() } }")
                else:
                    w(f"{path} {{")
                    for f in t["fields"]:
                        ft = nullable(f["type"]) if f["def"] else f["type"]
                        w(f'{ident(snake(f["name"]))}: {{ let v = v.get("{f["name"]}").unwrap_or(&serde_json::Value::Null); {make(p, ft, "v", True)} }},')
                    w("} }")
        w("pub fn encode(t: &str, v: &serde_json::Value) -> Result<String, String> { match t {")
        tail = "" if codec == "miniserde" else ".map_err(|e| e.to_string())?"
        for t in p.s["types"]:
            if t["k"] in ("enum", "input"):
                w(f'"{t["name"]}" => Ok({js}::to_string(&mk_{t["name"]}(v)){tail}),')
        w("_ => unreachable!() } }\n}")
    return "\n".join(out)


CODECS = ["serde", "borrow", "miniserde"]


def type_paths(p, tn, sel, module, name, out):
    """the paths the documentation gives to the types of a selection set"""
    if len(sel) == 1 and sel[0]["k"] == "spr":
        return
    out.add(module + "::" + ident(pascal(name)))
    inner = module + "::" + ident(snake(name))
    kinds = {t["name"]: t for t in p.s["types"]}

    def fields(tn, sel, module):
        for f in sel:
            if f["k"] == "field" and f["sel"]:
                ft = next(x for x in kinds[tn]["fields"] if x["name"] == f["name"])["type"]
                type_paths(p, base(ft), f["sel"], module, f["alias"] or f["name"], out)
    if kinds[tn]["k"] == "union":
        for x in sel:
            if x["k"] == "inl":
                fields(x["on"], x["sel"], inner + "::" + ident(snake(x["on"])))
    else:
        fields(tn, sel, inner)


def borrows(p, n, seen):
    t = next(x for x in p.s["types"] if x["name"] == n)
    if n in seen:
        return False
    seen.add(n)
    for f in t["fields"]:
        b = base(f["type"])
        if b in ("String", "ID") or p.alias.get(b) == "String" or b in p.inputs and borrows(p, b, seen):
            return True
    return False


def make(p, t, v, top):
    if not t["r"]:
        return f"if {v}.is_null() {{ None }} else {{ Some({make(p, nonnull(t), v, top)}) }}"
    if t["k"] == "L":
        return f"{v}.as_array().unwrap().iter().map(|v| {make(p, t['of'], 'v', False)}).collect::<Vec<_>>()"
    n = t["n"]
    a = {"Int": "i32", "Float": "f64", "String": "String", "ID": "String", "Boolean": "bool"}.get(n) or p.alias.get(n)
    if a == "i32":
        return f"{v}.as_i64().unwrap() as i32"
    if a == "i64":
        return f"{v}.as_i64().unwrap()"
    if a == "f64":
        return f"{v}.as_f64().unwrap()"
    if a == "bool":
        return f"{v}.as_bool().unwrap()"
    if a == "String":
        return f"{v}.as_str().unwrap().to_string().into()"
    return f"mk_{n}({v})" + (".into()" if n in p.inputs and top else "")


def write_source(progs, d):
    parts = ["// written by checks/typegen.py"]
    for i, p in enumerate(progs):
        parts.append(source(p, i, d))
    parts.append("pub fn decode(m: &str, root: &str, t: &str) -> Result<String, String> { match m {")
    for i in range(len(progs)):
        for c in CODECS:
            parts.append(f'"p{i}_{c}" => p{i}_{c}::decode(root, t),')
    parts.append('_ => unreachable!() } }\npub fn encode(m: &str, t: &str, v: &serde_json::Value) -> Result<String, String> { match m {')
    for i in range(len(progs)):
        for c in CODECS:
            parts.append(f'"p{i}_{c}" => p{i}_{c}::encode(t, v),')
    parts.append("_ => unreachable!() } }\n")
    return "\n".join(parts)


def build(progs):
    """(binary, what did not compile)"""
    d = os.path.join(core.BUILD, "typegen-src")
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    src = os.path.join(d, "programs.rs")
    os.environ["TYPEGEN_SRC"] = src
    open(src, "w").write(write_source(progs, d))
    try:
        return core.build("typegen", "tg"), None
    except core.ToolError as e:
        err = str(e)
    # is it the generated code, or does nothing build?
    open(src, "w").write(write_source([], d))
    core.build("typegen", "tg")
    return None, err


# ------------------------------------------------------------------ what Debug prints
class Debug:
    """derive(Debug) output as a tree"""
    TOK = re.compile(r'\s*(?:("(?:[^"\\]|\\.)*")|(-?[0-9][0-9.]*(?:[eE][-+]?[0-9]+)?)|([A-Za-z_][A-Za-z0-9_]*)|(.))', re.S)

    def __init__(self, s):
        self.t = [m.groups() for m in self.TOK.finditer(s)]
        self.i = 0

    def peek(self):
        return self.t[self.i][3] if self.i < len(self.t) else None

    def take(self, c):
        assert self.peek() == c, (c, self.t[self.i:self.i + 4])
        self.i += 1

    def seq(self, close, item):
        out = []
        while self.peek() != close:
            out.append(item())
            if self.peek() == ",":
                self.i += 1
        self.i += 1
        return out

    def value(self):
        s, n, w, c = self.t[self.i]
        self.i += 1
        if s is not None:
            return {"k": "str", "s": unescape(s[1:-1])}
        if n is not None:
            return {"k": "float", "s": ftext(float(n))} if re.search(r"[.eE]", n) else {"k": "int", "s": n}
        if c == "[":
            return {"k": "list", "l": self.seq("]", self.value)}
        if w in ("true", "false"):
            return {"k": "bool", "s": w}
        if w == "None":
            return {"k": "unit", "s": "None"}
        if self.peek() == "(":
            self.i += 1
            a = self.seq(")", self.value)
            assert w == "Some" and len(a) == 1
            return {"k": "some", "d": a[0]}
        if self.peek() == "{":
            self.i += 1

            def pair():
                n = self.t[self.i][2]
                self.i += 1
                self.take(":")
                return n, self.value()
            return {"k": "struct", "n": w, "o": dict(self.seq("}", pair))}
        return {"k": "unit", "s": w}


def unescape(s):
    return re.sub(r"\\(u\{([0-9a-fA-F]+)\}|.)", lambda m: chr(int(m[2], 16)) if m[2] else
                  {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(m[1], m[1]), s)


def debug(text):
    return Debug(text).value()


def ftext(x):
    return repr(float(x))


# ------------------------------------------------------------------ responses
class Num:
    """a number as it is written"""

    def __init__(self, text):
        self.text = text


class Obj(list):
    """an object as a list of pairs: order and repetition matter"""


def jtext(j, r=None):
    if isinstance(j, Num):
        return j.text
    if isinstance(j, Obj):
        return "{" + ",".join(json.dumps(k) + ":" + jtext(v, r) for k, v in j) + "}"
    if isinstance(j, list):
        return "[" + ",".join(jtext(x, r) for x in j) + "]"
    if isinstance(j, str):
        return json.dumps(j, ensure_ascii=bool(r and r.p(0.5)))
    return json.dumps(j)


def jtree(j):
    """as the specification sees it"""
    if j is None:
        return {"k": "null"}
    if isinstance(j, bool):
        return {"k": "bool", "s": "true" if j else "false"}
    if isinstance(j, int):
        j = Num(str(j))
    if isinstance(j, Num):
        x = float(j.text)
        if re.fullmatch(r"-?[0-9]+", j.text):
            i = int(j.text)
            return {"k": "num", "ik": "int" if -2**31 <= i < 2**31 else "wide", "i": str(i), "f": ftext(x)}
        return {"k": "num", "ik": "whole" if x == int(x) else "frac", "i": "", "f": ftext(x)}
    if isinstance(j, float):
        return jtree(Num(repr(j)))
    if isinstance(j, str):
        return {"k": "str", "s": j}
    if isinstance(j, Obj):
        return {"k": "obj", "o": [{"n": k, "v": jtree(v)} for k, v in j]}
    if isinstance(j, dict):
        return {"k": "obj", "o": [{"n": k, "v": jtree(v)} for k, v in j.items()]}
    return {"k": "list", "l": [jtree(x) for x in j]}


STRINGS = ["", "x", "Auston", "a\"b\\c", "line\nbreak", "tab\t", "\u00e9\u20ac", "\U0001F600", "null", "1", "RED", "\u0001", "/", "__typename"]


def leaf_value(r, p, n):
    a = {"Int": "i32", "Float": "f64", "String": "String", "ID": "String", "Boolean": "bool"}.get(n) or p.alias.get(n)
    if a == "i32":
        return Num(str(r.choice([0, 1, -1, 42, 2**31 - 1, -2**31, r.randrange(-10**6, 10**6)])))
    if a == "i64":
        return Num(str(r.choice([0, 1, -1, 2**31, -2**31 - 1, 2**53, 2**63 - 1, -2**63, r.randrange(-10**12, 10**12)])))
    if a == "f64":
        return Num(r.choice(["0", "1", "-1", "1.5", "-0.25", "1e10", "2.5E-3", "3.0", "2147483648", "0.1", "123456789.125"]))
    if a == "bool":
        return r.p(0.5)
    if a == "String":
        return r.choice(STRINGS)
    return r.choice([v["name"] for v in find_type(p.s, n)["values"]])


def conforming(r, p, d, t, sel, depth=0):
    """a response that conforms"""
    if not t["r"] and r.p(0.2 + 0.1 * depth):
        return None
    if t["k"] == "L":
        return [conforming(r, p, d, t["of"], sel, depth + 1) for _ in range(r.choice([0, 1, 1, 2, 3]) if depth < 4 else r.choice([0, 1]))]
    return conforming_base(r, p, d, t["n"], sel, depth)


def conforming_base(r, p, d, n, sel, depth=0):
    k = "builtin" if n in BUILTIN else find_type(p.s, n)["k"]
    if k in ("builtin", "scalar", "enum"):
        return leaf_value(r, p, n)
    if len(sel) == 1 and sel[0]["k"] == "spr":
        f = next(x for x in d["frags"] if x["name"] == sel[0]["name"])
        return conforming_base(r, p, d, f["on"], f["sel"], depth)
    fields = lambda tn, fs: [(f["alias"] or f["name"], conforming(r, p, d, N("String", True) if f["name"] == "__typename" else
                              next(x for x in find_type(p.s, tn)["fields"] if x["name"] == f["name"])["type"], f["sel"], depth + 1)) for f in fs]
    if k == "union":
        m = r.choice(find_type(p.s, n)["members"])
        arm = [x for x in sel if x["k"] == "inl" and x["on"] == m]
        return Obj([("__typename", m)] + [e for e in (fields(m, arm[0]["sel"]) if arm else []) if e[0] != "__typename"])
    return Obj(fields(n, sel))


WRONG = [None, True, Num("1"), Num("1.5"), Num("1.0"), Num("2147483648"), Num("-2147483649"), Num("1e3"), "x", "", "NOPE", [], Obj(),
         [None], [Num("1")], ["x"], Obj([("v", Num("1"))]), Num("3000000000"), [[]], Obj([("RED", None)]), False, "QueryRoot"]


def places(j, path=()):
    out = [path]
    if isinstance(j, Obj):
        for i, (k, v) in enumerate(j):
            out += places(v, path + (i,))
    elif isinstance(j, list):
        for i, v in enumerate(j):
            out += places(v, path + (i,))
    return out


def get(j, path):
    for i in path:
        j = j[i][1] if isinstance(j, Obj) else j[i]
    return j


def put(j, path, v):
    if not path:
        return v
    j = type(j)(j)
    i = path[0]
    j[i] = (j[i][0], put(j[i][1], path[1:], v)) if isinstance(j, Obj) else put(j[i], path[1:], v)
    return j


def damage(r, j):
    """one defect, or something about which nothing is promised"""
    path = r.choice(places(j))
    x = get(j, path)
    objs = [q for q in places(j) if isinstance(get(j, q), Obj) and get(j, q)]
    k = r.randrange(10)
    if k < 4 or not objs:
        return put(j, path, r.choice(WRONG))
    q = r.choice(objs)
    o = Obj(get(j, q))
    i = r.randrange(len(o))
    if k == 4:
        del o[i]
    elif k == 5:
        o[i] = (o[i][0], None)
    elif k == 6:
        tags = [a for a in objs if get(j, a)[0][0] == "__typename"]
        if tags:
            q = r.choice(tags)
            o = Obj(get(j, q))
            if r.p(0.4):
                del o[0]
            else:
                o[0] = ("__typename", r.choice(["Nope", None, Num("1"), "User", "Post", "Beta", "Alpha", "", "Other"]))
        else:
            o.insert(i, ("zz", r.choice(WRONG)))
    elif k == 7:
        o = [v for _, v in o]
    elif k == 8:
        r.shuffle(o)
    else:
        a = r.choice([x for x in places(j) if isinstance(get(j, x), list)] or [path])
        if isinstance(get(j, a), list) and not isinstance(get(j, a), Obj) and get(j, a):
            y = get(j, a)
            return put(j, a, y + [r.choice([None, y[0], r.choice(WRONG)])] if r.p(0.6) else y[0])
        return put(j, path, [x])
    return put(j, q, o)


# ------------------------------------------------------------------ inputs
def input_value(r, p, t, depth=0, top=None):
    if not t["r"] and (r.p(0.3) or depth > 3):
        return None
    if t["k"] == "L":
        return [input_value(r, p, t["of"], depth + 1) for _ in range(r.choice([0, 1, 2]) if depth < 3 else 0)]
    n = t["n"]
    if n in p.inputs:
        x = find_type(p.s, n)
        fs = x["fields"]
        if x["dirs"]:
            ok = [f for f in fs if base(f["type"]) not in p.inputs] if depth > 1 else fs
            f = r.choice(ok or fs)
            return {f["name"]: input_value(r, p, nonnull(f["type"]), depth + 1)}
        o = {}
        for f in fs:
            v = input_value(r, p, nullable(f["type"]) if f["def"] else f["type"], depth + 1)
            if v is not None or r.p(0.5):
                o[f["name"]] = v
        return o
    v = leaf_value(r, p, n)
    return (float(v.text) if n == "Float" or p.alias.get(n) == "f64" else int(v.text)) if isinstance(v, Num) else v


class Endless(Exception):
    pass


# ------------------------------------------------------------------ the check
def parse_json(text):
    return json.loads(text, object_pairs_hook=Obj, parse_int=Num, parse_float=Num)


def got_decode(x):
    if "panic" in x:
        return None
    return {"ok": True, "d": debug(x["ok"])} if "ok" in x else {"ok": False, "d": {"k": "unit", "s": "?"}}


def got_encode(x):
    return {"ok": True, "j": jtree(parse_json(x["ok"]))} if "ok" in x else {"ok": False, "j": {"k": "null"}}


# what serde's derived decoders let through (known findings); a response is of the class when nothing else is wrong with it
LENIENT = ["list for object", "object for enum", "number for discriminator"]


def report(c, p, i, case, x, codecs, want):
    for z in codecs:
        codec = CODECS[z - 1]
        o = case["obs"][z - 1]
        said = o.get("ok", o.get("err", o.get("panic")))
        text = case["text"]
        if case["k"] == "decode":
            what = f"{codec}: the response {text[:300]} to {case['root']} gave {str(said)[:300]} instead of " + \
                (f"being refused ({', '.join(want['why'])})" if want["v"] == "bad" else f"{json.dumps(want['d'])[:300]}")
        else:
            what = f"{codec}: the input {text[:300]} of type {case['type_name']} was encoded as {str(said)[:300]}"
        replay = {"schema": sdl(p.s), "document": doc_text(p.docs[i]), "alias": p.alias, "case": text, "codec": codec, "root": case.get("root", "")}
        if case["k"] == "decode" and want["v"] == "bad" and codec != "miniserde" and "ok" in o:
            if set(want["why"]) <= set(LENIENT):
                replay["class"] = "derived decoder accepts " + sorted(want["why"])[0]
        c.violation(what, replay)


def run(c, **kw):
    r = Rng(c.seed * 7919 + 31)
    n = c.size(6, 24)
    progs = [model_program()] + [gen_program(Rng(r.randrange(1 << 40))) for _ in range(n)]
    binary, err = build(progs)
    if err:
        # which program?
        for p in progs:
            b, e = build([p])
            if e:
                c.violation("the code generated for a program does not compile: " + first_error(e),
                            {"schema": sdl(p.s), "documents": [doc_text(d) for d in p.docs], "alias": p.alias, "error": e[:4000]})
        if not c.violations:
            c.violation("the code generated for the programs does not compile together: " + first_error(err), {"error": err[:4000]})
        return
    model(c, binary, progs[0])
    responses, inputs = c.size((600, 250), (4000, 1500))
    units = []      # (program index, document, cases)
    for pi, p in enumerate(progs):
        for di, d in enumerate(p.docs):
            cases = []
            roots = [(o["name"] or "Root", p.s[o["op"]], o["sel"], o["name"]) for o in d["ops"]] + [(f["name"], f["on"], f["sel"], f["name"]) for f in d["frags"]]
            for _ in range(responses // len(p.docs)):
                name, tn, sel, key = r.choice(roots)
                j = conforming_base(r, p, d, tn, sel)
                for _ in range(r.choice([0, 0, 1, 1, 1, 2])):
                    j = damage(r, j)
                cases.append({"k": "decode", "root": key, "m": f"{di}.{name}", "j": jtree(j), "text": jtext(j, r)})
            if di == 0:
                names = [t["name"] for t in p.s["types"] if t["k"] in ("enum", "input")]
                for _ in range(inputs if names else 0):
                    t = r.choice(names)
                    v = input_value(r, p, N(t, True))
                    cases.append({"k": "encode", "type": N(t, True), "type_name": t, "j": jtree(v), "text": json.dumps(v), "v": v, "root": ""})
            units.append((pi, di, cases))
    flat = [(pi, x) for pi, _, cases in units for x in cases]
    asks = []
    for pi, x in flat:
        for codec in CODECS:
            asks.append({"op": "decode", "m": f"p{pi}_{codec}", "root": x["m"], "text": x["text"]} if x["k"] == "decode" else
                        {"op": "encode", "m": f"p{pi}_{codec}", "type": x["type_name"], "value": x["v"]})
    obs = core.observe(binary, asks, timeout=20)
    for k, (pi, x) in enumerate(flat):
        x["obs"] = obs[3 * k:3 * k + 3]
    lines = []
    owner = []
    for pi, di, cases in units:
        prog = tla_program(progs[pi], di)
        chunk = 150
        good = []
        for x in cases:
            if any("panic" in o for o in x["obs"]):
                z = next(i for i, o in enumerate(x["obs"]) if "panic" in o)
                c.violation(f"{CODECS[z]}: {x['k']} of {x['text'][:300]} crashed: {x['obs'][z]['panic'][:200]}",
                            {"schema": sdl(progs[pi].s), "document": doc_text(progs[pi].docs[di]), "case": x["text"]})
                continue
            good.append(x)
        for i in range(0, len(good), chunk):
            part = good[i:i + chunk]
            cs = [{"k": "decode", "root": x["root"], "j": x["j"], "got": [got_decode(o) for o in x["obs"]]} if x["k"] == "decode" else
                  {"k": "encode", "type": x["type"], "j": x["j"], "got": [got_encode(o) for o in x["obs"]]} for x in part]
            lines.append({"line": len(owner), "prog": prog, "cases": cs})
            owner.append((pi, di, part))
    recs, states, transitions = core.trace_check("TypegenTrace", lines, name="typegen")
    totals = {"decoded": 0, "refused": 0, "free": 0, "encoded": 0}
    for x in recs:
        totals["decoded"] += x["ok"]
        for k in ("refused", "free", "encoded"):
            totals[k] += x[k]
        pi, di, part = owner[x["line"]]
        for b in x["bad"]:
            report(c, progs[pi], di, part[b["case"] - 1], None, b["codecs"], b["want"])
    c.add(states, transitions, len(flat))
    c.extra.update(programs=len(progs), codecs=len(CODECS), **totals)
    c.sample({"schema": sdl(progs[1].s)[:600], "document": doc_text(progs[1].docs[0])[:600], "case": flat[-1][1]["text"][:300]})


def first_error(e):
    m = re.search(r"(?m)^error[^\n]*\n[^\n]*", e)
    return m.group(0)[:300] if m else e[:300]


# ------------------------------------------------------------------ the bounded model
def model_program():
    p = Prog()
    p.alias = {"Date": "String"}
    obj = lambda n, *fs: ty("object", n, fields=list(fs), ifaces=["I"])
    types = [ty("scalar", "Date"), ty("enum", "E", values=[val("RED"), val("x")]),
             ty("interface", "I", fields=[fd("v", N("Int", True))]),
             obj("A", fd("v", N("Int", True)), fd("w", N("String"))), obj("B", fd("v", N("Int", True)), fd("w", L(N("Int", True)))),
             obj("C", fd("v", N("Int", True))), ty("union", "U", members=["A", "B", "C"])]
    fields, ops, frags = [], [], []
    A = [field("v"), field("w")]
    I = [field("v")]
    U = [field("__typename"), inl("A", [field("v"), field("w")]), inl("B", [field("v"), field("ws", sel=[])])]
    U[2]["sel"] = [field("w", "ws")]
    frags = [frag("FA", "A", A), frag("FI", "I", I), frag("FU", "U", U)]
    what = [("Int", []), ("Float", []), ("String", []), ("ID", []), ("Boolean", []), ("E", []), ("Date", []), ("A", A), ("I", I), ("U", U),
            ("A", [spr("FA")]), ("I", [spr("FI")]), ("U", [spr("FU")]), ("A", [spr("FI")])]
    shapes = [lambda n: N(n), lambda n: N(n, True), lambda n: L(N(n)), lambda n: L(N(n, True), True), lambda n: L(L(N(n, True), True))]
    for b, (n, sel) in enumerate(what):
        for s, f in enumerate(shapes):
            if (s == 4 and n not in ("Int", "U")) or (sel and sel[0]["k"] == "spr" and s in (0, 2)):
                continue
            letters = "abcdefghijklmnop"
            name = "f" + letters[b] + letters[s]
            fields.append(fd(name, f(n)))
            ops.append(op([field(name, sel=json.loads(json.dumps(sel)))], "query", "Op" + letters[b].upper() + letters[s]))
    types.append(ty("object", "Query", fields=fields))
    p.s = schema(types)
    p.inputs = []
    p.docs = [{"ops": ops, "frags": frags}]
    p.file = True
    return finish(p)


def model(c, binary, p):
    d = core.scratch("typegen")
    path = os.path.join(d, "prog.ndjson")
    prog = tla_program(p, 0)
    prog["roots"] = [x for x in prog["roots"] if x["op"] != "fragment"]
    json.dump(prog, open(path, "w"))
    mv = c.size(2, 3)
    t = core.tlc("TypegenModel", f"SPECIFICATION Spec\nCONSTANT MaxV = {mv}\nINVARIANTS Carries NullIsAll ListLike Full Explained Emit\nCHECK_DEADLOCK FALSE\n",
                 env={"PROG": path}, workers=core.CORES, heap="8g")
    if t.violation:
        raise core.ToolError("the specification of generated types is inconsistent: " + t.text[-2500:])
    field_of = {o["name"]: o["sel"][0]["name"] for o in p.docs[0]["ops"]}
    seen, cases = set(), []
    for x in t.lines:
        text = '{"%s":%s}' % (field_of[x["o"]], tree_text(x["j"]))
        if (x["o"], text) not in seen:
            seen.add((x["o"], text))
            cases.append((x, text))
    obs = core.observe(binary, [{"op": "decode", "m": f"p0_{codec}", "root": "0." + x["o"], "text": text} for x, text in cases for codec in CODECS], timeout=20)
    for k, (x, text) in enumerate(cases):
        for z, o in enumerate(obs[3 * k:3 * k + 3]):
            g = got_decode(o)
            if g and (x["v"] == "free" or (x["v"] == "bad" and not g["ok"]) or (x["v"] == "ok" and g["ok"] and g["d"] == plain_d(x["d"]))):
                continue
            report(c, p, 0, {"k": "decode", "root": x["o"], "text": text, "obs": obs[3 * k:3 * k + 3]}, None, [z + 1], x)
    c.add(t.states, t.transitions, len(cases))
    c.extra.update(model_cases=len(cases))


def plain_d(d):
    """TLC prints an empty function as an empty sequence"""
    if d["k"] == "struct":
        return dict(d, o={} if d["o"] == [] else {n: plain_d(v) for n, v in d["o"].items()})
    if d["k"] == "some":
        return dict(d, d=plain_d(d["d"]))
    if d["k"] == "list":
        return dict(d, l=[plain_d(x) for x in d["l"]])
    return d


def tree_text(j):
    k = j["k"]
    if k == "null":
        return "null"
    if k == "bool":
        return j["s"]
    if k == "num":
        return j["i"] or j["f"]
    if k == "str":
        return json.dumps(j["s"])
    if k == "list":
        return "[" + ",".join(tree_text(x) for x in j["l"]) + "]"
    return "{" + ",".join(json.dumps(e["n"]) + ":" + tree_text(e["v"]) for e in j["o"]) + "}"
