"""C29 and C30: schema comparison (spec/Compare*.tla)."""
import json, os
from lib import core
from lib.gen import *
from checks.coercion import noid

DESCS = ["about", "two\nlines", "say \"hi\"", "other", "é", ""]
MDIRS = [ddef("m0", TS_LOCS, [iv("x", N("Int")), iv("y", L(N("String"))), iv("z", N("Boolean"))]),
         ddef("m1", TS_LOCS, [iv("x", N("String")), iv("y", N("Int"))], rep=True)]


def copy(x):
    return json.loads(json.dumps(x))


def full(s):
    """the schema as Compare.tla sees it"""
    dirs = lambda ds: [{"n": d["n"], "args": [{"n": a["n"], "v": a["v"]} for a in d["args"]]} for d in ds]
    inp = lambda x: {"desc": x["desc"], "type": x["type"], "def": x["def"], "dirs": dirs(x["dirs"])}
    inputs = lambda xs: {x["name"]: inp(x) for x in xs}
    types = {}
    for t in s["types"]:
        types[t["name"]] = {
            "k": t["k"], "desc": t["desc"], "dirs": dirs(t["dirs"]), "ifaces": t["ifaces"], "members": t["members"],
            "fields": {f["name"]: {"desc": f["desc"], "type": f["type"], "dirs": dirs(f["dirs"]), "args": inputs(f["args"])}
                       for f in t["fields"]} if t["k"] != "input" else {},
            "inputs": inputs(t["fields"]) if t["k"] == "input" else {},
            "values": {v["name"]: {"desc": v["desc"], "dirs": dirs(v["dirs"])} for v in t["values"]}}
    return noid({"dirs": dirs(s["dirs"]), "types": types, "directives": {
        d["name"]: {"desc": d["desc"], "rep": d["rep"], "locs": d["locs"], "args": inputs(d["args"])} for d in s["directives"]}})


def rdirs(r, p=0.25):
    out = []
    if not r.p(p):
        return out
    if r.p(0.6):
        out.append(direc("m0", r.some([arg("x", INT(r.randint(1, 3))), arg("y", LIST([STR(r.choice("ab"))])), arg("z", BOOL(r.p(0.5)))], 0, 2)))
    for _ in range(r.choice([0, 1, 2, 3])):
        out.append(direc("m1", r.some([arg("x", STR(r.choice("ab"))), arg("y", INT(r.randint(1, 2)))], 0, 2)))
    return out


def holders(s, bare=True):
    """every element that can carry directives and a description: (element, tag)"""
    for t in s["types"]:
        yield t, "type"
        for f in t["fields"]:
            yield f, "input" if t["k"] == "input" else "field"
            for a in f.get("args", []):
                yield a, "arg"
        for v in t["values"]:
            yield v, "value"
    for d in s["directives"]:
        yield d, "ddef"
        for a in d["args"]:
            yield a, "darg"


def grouped(hs):
    """elements by where they stand, so that rare ones are chosen as often as common ones"""
    out = {}
    for h, k in hs:
        out.setdefault(k + ":" + h["k"] if k == "type" else k, []).append(h)
    return list(out.values())


def base_schema(r):
    s = gen_schema(r, deprecations=r.p(0.3))
    s["explicit"] = True
    s["directives"] += copy(MDIRS)
    used = set()
    for h, k in holders(s):
        if r.p(0.25):
            h["desc"] = [r.choice(DESCS)]
        if k not in ("ddef", "darg"):
            h["dirs"] = h["dirs"] + rdirs(r)
    s["dirs"] = rdirs(r, 0.4)
    return s


def references(s):
    out = {s["query"], s["mutation"], s["subscription"]}
    for t in s["types"]:
        out |= set(t["ifaces"]) | set(t["members"])
        for f in t["fields"]:
            out.add(base(f["type"]))
            out |= {base(a["type"]) for a in f.get("args", [])}
    for d in s["directives"]:
        out |= {base(a["type"]) for a in d["args"]}
    return out


def applied(s):
    return {d["n"] for d in s["dirs"]} | {d["n"] for h, k in holders(s) for d in h.get("dirs", [])}


def retype(r, t, pool):
    x = r.random()
    t = copy(t)
    if x < 0.6:
        spots = [t]
        while spots[-1]["k"] == "L":
            spots.append(spots[-1]["of"])
        q = r.choice(spots)
        q["r"] = not q["r"]
        return t
    if x < 0.72:
        return L(t, r.p(0.4))
    if x < 0.84 and t["k"] == "L":
        return t["of"]
    q = t
    while q["k"] == "L":
        q = q["of"]
    q["n"] = r.choice(pool)
    return t


def nudge(r, v):
    """a value that differs from v as little as it can"""
    v = copy(v)
    k = v["k"]
    near = [LIST([v]), NULL() if k != "null" else STR("null")]
    if k == "int":
        i = v["i"]
        near += [INT(abs(i) % 1000 + 1), FLT(r.choice(FLOATS)), STR(str(i))] * 2
    elif k == "float":
        near += [INT(r.choice(INTS)), FLT(r.choice(FLOATS)), STR(v["s"])] * 2
    elif k in ("str", "enum"):
        name = v["s"].isidentifier() and v["s"].isascii() and v["s"] not in ("true", "false", "null")
        near += [STR(v["s"] + " "), STR(v["s"].swapcase() + "x")] + ([ENUM(v["s"]) if k == "str" else STR(v["s"])] * 3 if name else [])
    elif k == "bool":
        near += [BOOL(not v["b"]), STR("true" if v["b"] else "false"), ENUM("TRUE")]
    elif k == "list":
        l = v["l"]
        near += [LIST(l + [NULL()])] + ([LIST(l[1:]), LIST(l[:-1]), LIST(l[::-1]), LIST(l + l[-1:])] if l else [OBJ([])])
        if l:
            q = r.randint(0, len(l) - 1)
            near += [LIST(l[:q] + [nudge(r, l[q])] + l[q + 1:])] * 3 + ([l[0]] if len(l) == 1 else [])
    elif k == "obj":
        o = [(x["n"], x["v"]) for x in v["o"]]
        near += [OBJ(o + [("zz", NULL())])] + ([OBJ(o[1:]), OBJ(o[:-1])] if o else [LIST([])])
        if o:
            q = r.randint(0, len(o) - 1)
            near += [OBJ(o[:q] + [(o[q][0], nudge(r, o[q][1]))] + o[q + 1:])] * 3
    return r.choice(near)


KINDS = ["field+", "field-", "ftype", "arg+", "arg-", "atype", "adef", "desc", "dir+", "dir-", "darg", "value+", "value-", "member+", "member-",
         "iface+", "iface-", "input+", "input-", "itype", "idef", "type+", "type-", "kind", "ddef+", "ddef-", "loc+", "loc-", "ddarg+", "ddarg-",
         "ddtype", "dddef", "order", "oneof", "sdir", "dir+", "dir-", "darg", "dir+", "dir-", "desc"]


class Nothing(Exception):
    """the schema has no element this kind of edit applies to"""


def edit(r, s, kind):
    """apply one edit in place; False if it does not apply"""
    try:
        return edit_some(r, s, kind)
    except (Nothing, RecursionError):  # the latter: no value of a required input cycle can be written
        return False


def edit_some(r, s, kind):
    ins = BUILTIN_SCALARS + [t["name"] for t in s["types"] if t["k"] in ("enum", "scalar", "input")]
    outs = BUILTIN_SCALARS + [t["name"] for t in s["types"] if t["k"] in ("enum", "scalar", "object", "interface", "union")]
    of = lambda *ks: [t for t in s["types"] if t["k"] in ks]
    fresh = "n%d" % r.randint(0, 3)
    comp = of("object", "interface")
    fields = [(t, f) for t in comp for f in t["fields"]]
    args = [(f, a) for t, f in fields for a in f["args"]]
    inputs = [(t, f) for t in of("input") for f in t["fields"]]

    def pick(xs):
        xs = list(xs)
        if not xs:
            raise Nothing()
        return r.choice(xs)

    def new_iv(name):
        t = N(r.choice(ins), r.p(0.5))
        if r.p(0.3):
            t = L(t, r.p(0.4))
        return dict(iv(name, t, const_value(r, s, t, 0, 2) if r.p(0.4) else None, dirs=rdirs(r)), desc=[r.choice(DESCS)] if r.p(0.2) else [])

    def redefault(x):
        if x["def"] and r.p(0.4):
            x["def"] = []
        elif x["def"] and x["def"][0]["k"] == "obj" and r.p(0.3):
            r.shuffle(x["def"][0]["o"])
        elif x["def"] and r.p(0.75):
            x["def"] = [nudge(r, x["def"][0])]
        else:
            x["def"] = [const_value(r, s, x["type"], 0, 2)]

    if kind == "field+":
        t = pick(comp)
        if any(f["name"] == fresh for f in t["fields"]):
            return False
        t["fields"].insert(r.randint(0, len(t["fields"])), fd(fresh, N(r.choice(outs), r.p(0.4)), [new_iv("x")] if r.p(0.4) else [], dirs=rdirs(r)))
    elif kind == "field-":
        t = pick(t for t in comp if len(t["fields"]) > 1)
        if not t:
            return False
        t["fields"].remove(r.choice(t["fields"]))
    elif kind == "ftype":
        f = pick(fields)[1]
        f["type"] = retype(r, f["type"], outs)
    elif kind == "arg+":
        f = pick(fields)[1]
        if any(a["name"] == fresh for a in f["args"]):
            return False
        f["args"].insert(r.randint(0, len(f["args"])), new_iv(fresh))
    elif kind == "arg-":
        q = pick(args)
        if not q:
            return False
        q[0]["args"].remove(q[1])
    elif kind in ("atype", "itype", "adef", "idef", "ddtype", "dddef"):
        pool = args if kind[0] == "a" else inputs if kind[0] == "i" else [(d, a) for d in s["directives"] for a in d["args"]]
        q = pick(pool)
        if not q:
            return False
        if kind.endswith("def"):
            redefault(q[1])
        else:
            q[1]["type"] = retype(r, q[1]["type"], ins)
            if q[1]["def"]:
                q[1]["def"] = [const_value(r, s, q[1]["type"], 0, 2)]
    elif kind == "desc":
        h = pick(pick(grouped(holders(s))))
        h["desc"] = [] if h["desc"] and r.p(0.4) else [r.choice(DESCS)]
    elif kind == "sdir":
        s["dirs"] = rdirs(r, 0.8)
    elif kind in ("dir+", "dir-", "darg"):
        hs = [(h, k) for h, k in holders(s) if k not in ("ddef", "darg")]
        if kind == "dir+":
            h = pick(pick(grouped(hs)))
            d = rdirs(r, 1)
            if any(x["n"] == "m0" for x in h["dirs"]):
                d = [x for x in d if x["n"] != "m0"]
            h["dirs"] = h["dirs"] + d
        else:
            h = pick(pick(grouped((h, k) for h, k in hs if any(d["n"] in ("m0", "m1") for d in h["dirs"]))))
            d = pick(d for d in h["dirs"] if d["n"] in ("m0", "m1"))
            if kind == "dir-":
                h["dirs"].remove(d)
            elif d["args"] and r.p(0.35):
                d["args"].remove(r.choice(d["args"]))
            elif d["args"] and r.p(0.6):
                a = r.choice(d["args"])
                a["v"] = nudge(r, a["v"])
            else:
                n = r.choice(["x", "y", "z"] if d["n"] == "m0" else ["x", "y"])
                d["args"] = [a for a in d["args"] if a["n"] != n] + [arg(n, raw_value(r, 1))]
    elif kind == "value+":
        t = pick(of("enum"))
        if any(v["name"] == "NEW" for v in t["values"]):
            return False
        t["values"].insert(r.randint(0, len(t["values"])), val("NEW"))
    elif kind == "value-":
        t = pick(t for t in of("enum") if len(t["values"]) > 1)
        if not t:
            return False
        t["values"].remove(r.choice(t["values"]))
    elif kind in ("member+", "member-"):
        u = pick(of("union"))
        o = pick(t["name"] for t in of("object") if (t["name"] in u["members"]) == (kind == "member-"))
        if not o or (kind == "member-" and len(u["members"]) < 2):
            return False
        u["members"] = u["members"] + [o] if kind == "member+" else [m for m in u["members"] if m != o]
    elif kind in ("iface+", "iface-"):
        t = pick(t for t in of("object"))
        i = pick(x["name"] for x in of("interface") if (x["name"] in t["ifaces"]) == (kind == "iface-"))
        if not i:
            return False
        t["ifaces"] = t["ifaces"] + [i] if kind == "iface+" else [m for m in t["ifaces"] if m != i]
    elif kind == "input+":
        t = pick(of("input"))
        if any(f["name"] == fresh for f in t["fields"]):
            return False
        t["fields"].insert(r.randint(0, len(t["fields"])), new_iv(fresh))
    elif kind == "input-":
        t = pick(t for t in of("input") if len(t["fields"]) > 1)
        if not t:
            return False
        t["fields"].remove(r.choice(t["fields"]))
    elif kind == "type+":
        n = "New%d" % r.randint(0, 2)
        if find_type(s, n):
            return False
        s["types"].insert(r.randint(0, len(s["types"])), r.choice([
            ty("object", n, fields=[fd("a", N("Int"))], ifaces=[]), ty("enum", n, values=[val("RED")]), ty("scalar", n, dirs=rdirs(r)),
            ty("input", n, fields=[iv("a", N("Int"))]), ty("interface", n, fields=[fd("a", N("Int"))])]))
    elif kind == "type-":
        ref = references(s)
        t = pick(t for t in s["types"] if t["name"] not in ref)
        if not t:
            return False
        s["types"].remove(t)
    elif kind == "kind":
        t = pick(of("enum", "scalar", "input", "union", "object", "interface"))
        n = t["name"]
        roots = (s["query"], s["mutation"], s["subscription"])
        inn = any(base(f["type"]) == n for f2 in [t2["fields"] for t2 in of("input")] for f in f2) or any(base(a["type"]) == n for f, a in args) \
            or any(base(a["type"]) == n for d in s["directives"] for a in d["args"])
        outn = any(base(f["type"]) == n for _, f in fields)
        if n in roots or any(n in u["members"] or n in u["ifaces"] for u in s["types"]):
            return False
        opts = ["enum", "scalar"]
        if not outn:
            opts.append("input")
        if not inn:
            opts += ["object", "interface", "union"]
        k = r.choice([o for o in opts if o != t["k"]])
        new = {"enum": ty("enum", n, values=[val("RED")]), "scalar": ty("scalar", n), "input": ty("input", n, fields=[iv("a", N("Int"))]),
               "object": ty("object", n, fields=[fd("a", N("Int"))]), "interface": ty("interface", n, fields=[fd("a", N("Int"))]),
               "union": ty("union", n, members=[s["query"]])}[k]
        new["desc"] = t["desc"]
        new["dirs"] = rdirs(r)
        s["types"][s["types"].index(t)] = new
    elif kind == "ddef+":
        n = "nd%d" % r.randint(0, 2)
        if any(d["name"] == n for d in s["directives"]):
            return False
        s["directives"].insert(r.randint(0, len(s["directives"])), ddef(n, r.some(EXEC_LOCS + TS_LOCS, 1, 3), [new_iv("x")] if r.p(0.5) else [], rep=r.p(0.3)))
    elif kind == "ddef-":
        ap = applied(s)
        d = pick(d for d in s["directives"] if d["name"] not in ap)
        if not d:
            return False
        s["directives"].remove(d)
    elif kind in ("loc+", "loc-"):
        d = pick(d for d in s["directives"] if d["name"] not in ("m0", "m1"))
        if not d:
            return False
        l = pick(x for x in EXEC_LOCS + TS_LOCS if (x in d["locs"]) == (kind == "loc-"))
        if not l or (kind == "loc-" and len(d["locs"]) < 2):
            return False
        d["locs"] = d["locs"] + [l] if kind == "loc+" else [x for x in d["locs"] if x != l]
    elif kind in ("ddarg+", "ddarg-"):
        d = pick(s["directives"])
        if kind == "ddarg+":
            if any(a["name"] == fresh for a in d["args"]):
                return False
            d["args"].insert(r.randint(0, len(d["args"])), dict(new_iv(fresh), dirs=[]))
        elif d["args"]:
            d["args"].remove(r.choice(d["args"]))
        else:
            return False
    elif kind == "order":
        for t in s["types"]:
            r.shuffle(t["fields"])
            r.shuffle(t["values"])
            r.shuffle(t["members"])
            r.shuffle(t["ifaces"])
        r.shuffle(s["types"])
    elif kind == "oneof":
        t = pick(of("input"))
        if any(d["n"] == "oneOf" for d in t["dirs"]):
            t["dirs"] = [d for d in t["dirs"] if d["n"] != "oneOf"]
        else:
            for f in t["fields"]:
                f["type"]["r"] = False
                f["def"] = []
            t["dirs"] = t["dirs"] + [direc("oneOf")]
    return True


def revalue(r, a):
    """give nearly every argument and input field of a default value; the result differs from it only in such values"""
    vs = [h for h, k in holders(a) if "def" in h] + [x for d in a["directives"] for x in d["args"]]
    for x in vs:
        if not x["def"] and r.p(0.8):
            try:
                x["def"] = [const_value(r, a, x["type"], 0, 2)]
            except RecursionError:
                pass
    b = copy(a)
    for x in [h for h, k in holders(b) if "def" in h] + [x for d in b["directives"] for x in d["args"]]:
        if x["def"] and r.p(0.6):
            x["def"] = [nudge(r, x["def"][0])]
    return b


def pairs(r, n):
    out = []
    for i in range(n):
        a = base_schema(r)
        b = copy(a)
        want = 1 if i % 2 else r.choice([0, 2, 3, 6, 15])
        done = []
        for _ in range(want):
            for _ in range(20):
                k = KINDS[i // 2 % len(KINDS)] if want == 1 else r.choice(KINDS)
                if edit(r, b, k):
                    done.append(k)
                    break
        if i % 20 == 0:
            b = base_schema(r)
            done = ["unrelated"]
        if i % 20 == 10:
            b = revalue(r, a)
            done = ["values"]
        out.append((a, b, done))
    return out


# ------------------------------------------------------------------ every small pair (CompareModel.tla)
def part(s, *p):
    """the part of a schema a path of the full record leads to: (list it stands in, its index or None, element)"""
    where, what, rest = s[p[0]], p[1], p[2:]
    while True:
        i = next((i for i, x in enumerate(where) if x["name"] == what), None)
        if not rest or rest[0] not in ("fields", "inputs", "values", "args"):
            return where, i, rest
        where, what, rest = where[i]["fields" if rest[0] == "inputs" else rest[0]], rest[1], rest[2:]


def slots():
    """(base schema, [(path, forms)]); a form is a value for the part of the path, or None for its absence"""
    I, S, D = N("Int"), N("String"), lambda *xs: [direc("m0", list(x)) if isinstance(x, tuple) else direc(x, []) for x in xs]
    s = schema([ty("object", "Query", fields=[fd("o", N("O")), fd("i", N("Fa")), fd("u", N("U")), fd("e", N("E")), fd("x", N("X"), [iv("in", N("In"))]), fd("g", I, [iv("a", I), iv("p", I), iv("t", I), iv("d", N("In")), iv("e", I)])]),
                ty("object", "O", fields=[fd("x", I), fd("p", I), fd("t", I), fd("d", I), fd("e", I)]), ty("object", "P", fields=[fd("x", I)]), ty("object", "R", fields=[fd("x", I)]),
                ty("interface", "Fa", fields=[fd("x", I), fd("p", I), fd("t", I), fd("a", I, [iv("x", I)])]), ty("interface", "Fb", fields=[fd("x", I)]),
                ty("union", "U", members=["O"]), ty("enum", "E", values=[val("A"), val("B"), val("C")]), ty("scalar", "X"),
                ty("input", "In", fields=[iv("x", I), iv("p", I), iv("t", I), iv("v", L(I)), iv("w", N("In")), iv("e", I)]), ty("scalar", "Y"), ty("scalar", "Z")],
               query="Query", directives=[ddef("d", ["FIELD"], [iv("x", I), iv("p", I), iv("v", S)]), ddef("z", ["QUERY"])] + copy(MDIRS))
    s["explicit"] = True
    types = [I, N("Int", True), S, L(I), L(N("Int", True)), L(I, True), L(L(I))]
    descs = [[], ["one"], ["two\nlines"], [""]]
    dl = [[], D("m1"), D("m1", "m1"), [direc("m1", [arg("y", INT(1))]), direc("m1", [])], [direc("m1", []), direc("m1", [arg("y", INT(1))])], [direc("m1", [arg("y", INT(2)), arg("x", STR("a"))])],
          [direc("m1", [arg("x", STR("a")), arg("y", INT(2))])], [direc("m0", [arg("y", LIST([STR("a")]))])], [direc("m0", [arg("y", LIST([STR("a"), NULL()]))]), direc("m1", [])], [direc("m1", []), direc("m0", [arg("y", LIST([STR("b")]))])]]
    ints = [[], [INT(1)], [INT(2)], [NULL()]]
    lists = [[], [LIST([])], [LIST([INT(1)])], [LIST([INT(1), INT(2)])], [LIST([INT(2), INT(1)])], [LIST([NULL()])], [NULL()], [INT(1)]]
    objs = [[], [OBJ([])], [OBJ([("x", INT(1))])], [OBJ([("x", INT(1)), ("t", INT(2))])], [OBJ([("t", INT(2)), ("x", INT(1))])], [OBJ([("x", INT(2)), ("t", INT(1))])], [OBJ([("w", OBJ([("x", INT(1))]))])], [OBJ([("w", OBJ([("x", NULL())]))])]]
    ivs = lambda n: [None, iv(n, I), iv(n, N("Int", True)), iv(n, N("Int", True), INT(1)), iv(n, I, INT(1)), dict(iv(n, L(N("Int", True), True)), desc=["one"]), iv(n, I, NULL()), iv(n, N("Int", True), INT(1), dirs=D("m1"))]
    fds = lambda n: [None, fd(n, I), fd(n, L(N("Int", True), True), desc="one"), fd(n, I, [iv("y", N("Int", True))]), fd(n, I, dirs=D("m1"))]
    out = [(("dirs",), dl)]
    for T in ("O", "Fa", "U", "E", "In", "X"):
        out += [(("types", T, "dirs"), dl + ([[direc("oneOf")], D("m1") + [direc("oneOf")]] if T == "In" else [])), (("types", T, "desc"), descs)]
    for T in ("O", "Fa"):
        out += [(("types", T, "fields", "p"), fds("p")), (("types", T, "fields", "t", "type"), types)]
    out += [(("types", "O", "fields", "d", "dirs"), dl), (("types", "O", "fields", "d", "desc"), descs), (("types", "O", "ifaces"), [[], ["Fb"], ["Fb", "Fa"], ["Fa"]][:2]), (("types", "U", "members"), [["O"], ["O", "P"], ["P", "O"], ["R", "P"], ["P"]]),
            (("types", "E", "values", "B"), [val("B"), None, val("B", desc="one"), val("B", dirs=[direc("deprecated")])]), (("types", "E", "values", "C", "desc"), descs), (("types", "E", "values", "C", "dirs"), dl)]
    for P, f in ((("types", "Query", "fields", "g", "args"), "d"), (("types", "In", "inputs"), "w")):
        out += [(P + ("p",), ivs("p")), (P + ("t", "type"), types), (P + (f, "def"), objs), (P + ("e", "desc"), descs), (P + ("e", "dirs"), dl), (P + ("e", "def"), ints)]
    out += [(("types", "In", "inputs", "v", "def"), lists), (("types", "Fa", "fields", "a", "args", "x"), ivs("x"))]
    out += [(("directives", "d", "locs"), [["FIELD"], ["FIELD", "QUERY"], ["QUERY", "FIELD"], ["SCALAR"], ["FIELD", "SCALAR", "ENUM"]]), (("directives", "d", "desc"), descs), (("directives", "d", "args", "p"), [dict(x, dirs=[]) if x else None for x in ivs("p")[:-1]]),
            (("directives", "d", "args", "x", "type"), types), (("directives", "d", "args", "x", "desc"), descs), (("directives", "d", "args", "v", "def"), [[], [STR("a")], [STR("b")], [NULL()]]),
            (("directives", "z"), [ddef("z", ["QUERY"]), None, ddef("z", ["QUERY", "FIELD"], [iv("q", N("Int", True))]), ddef("z", ["QUERY"], desc="one")])]
    kinds = [ty("scalar", "Y"), ty("enum", "Y", values=[val("A")]), ty("object", "Y", fields=[fd("x", I)]), ty("interface", "Y", fields=[fd("x", I)]), ty("input", "Y", fields=[iv("x", I)]), ty("union", "Y", members=["O"])]
    out += [(("types", "Y"), [dict(k) for k in kinds] + [None] + [dict(copy(k), desc=["one"], dirs=D("m1")) for k in kinds]), (("types", "Z"), [None, ty("scalar", "Z"), dict(ty("scalar", "Z"), dirs=D("m1"))])]
    return s, out


def put(s, path, form):
    """give a part of a schema a form, in place"""
    if path == ("dirs",):
        s["dirs"] = copy(form)
        return
    where, i, rest = part(s, *path)
    if rest:
        where[i][rest[0]] = copy(form)
    elif form is None:
        if i is not None:
            del where[i]
    elif i is None:
        where.append(copy(form))
    else:
        where[i] = copy(form)


def model(c, limit):
    """[(old, new, what)]: all pairs that differ in one part, and those that differ in more, of fewer forms"""
    b, ss = slots()
    r = Rng(c.seed * 41)
    out = []
    for n, most, cap in ((1, 99, limit), (c.size(2, 2), c.size(2, 4), limit // 2)):
        table = []
        for path, forms in ss:
            fs = []
            for f in forms[:most]:
                x = copy(b)
                put(x, path, f)
                v = full(x)
                for k in path:
                    v = v.get(k) if v is not None else None
                fs.append({"here": v is not None, "x": 0 if v is None else v})
            table.append({"path": list(path), "forms": fs})
        p = os.path.join(core.scratch("model"), "pairs.json")
        json.dump({"n": n, "base": full(b), "slots": table}, open(p, "w"))
        t = core.tlc("CompareModel", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Itself ThereAndBack Additive", env={"MODEL": p}, workers=core.CORES, heap="6g")
        if t.violation:
            raise core.ToolError("CompareModel: " + t.violation)
        c.add(t.states, t.transitions, 0)
        picks = [x for x in t.lines if len(x) == n]
        c.extra["model_%d_parts" % n] = {"pairs": len(picks), "replayed": min(len(picks), cap)}
        if len(picks) > cap:
            picks = r.sample(sorted(picks), cap)
        for ps in picks:
            x, y = copy(b), copy(b)
            for i, u, v in ps:
                put(x, ss[i - 1][0], ss[i - 1][1][u - 1])
                put(y, ss[i - 1][0], ss[i - 1][1][v - 1])
            out.append((x, y, ["model " + "/".join(ss[i - 1][0]) for i, _, _ in ps]))
    return out


def run(c, rule):
    binary = core.build()
    r = Rng(c.seed * 32452843 + 29)
    judge(c, binary, rule, pairs(r, c.size(560, 14000)) + model(c, c.size(700, 30000)), r)


def changes(cs):
    return [{"k": x["k"], "path": x["path"], "crit": x["crit"], "on": x["x"]["on"], "a": x["x"]["a"], "b": x["x"]["b"],
             "v": noid(x["x"]["v"])} for x in cs
            if not {"__schema", "__type"} & set(x["path"].split("."))]  # the query root's own fields come and go with the role


def flags_ok(cs):
    return all((x["b"], x["n"], x["d"]) == (x["crit"] == "breaking", x["crit"] == "safe", x["crit"] == "dangerous") for x in cs)


def judge(c, binary, rule, prs, r):
    cases = [{"op": "compare", "old": sdl(a), "new": sdl(b)} for a, b, _ in prs]
    obs = core.observe(binary, cases)
    dcases, where = [], {}
    for i, ((a, b, _), o) in enumerate(zip(prs, obs)):
        if rule == "crit" and isinstance(o.get("fwd"), list) and o["fwd"] and not any(x["crit"] == "breaking" for x in o["fwd"]):
            docs = [doc_text(DocGen(r, a, noise=0, value_noise=0, names_dup=0, p_arg=0.7, width=4).make()) for _ in range(6)]
            where[i] = len(dcases)
            dcases += [{"op": "validate", "sdl": sdl(a), "docs": docs}, {"op": "validate", "sdl": sdl(b), "docs": docs}]
    dobs = core.observe(binary, dcases) if dcases else []
    lines, back = [], []
    skipped = 0
    for i, ((a, b, done), case, o) in enumerate(zip(prs, cases, obs)):
        if not all(isinstance(o.get(k), list) for k in ("fwd", "bwd", "same", "same2")):
            bad = [o[k]["panic"] for k in o if isinstance(o.get(k), dict) and "panic" in o[k]]
            if bad:
                c.violation("comparison crashed: " + bad[0][:300], {"case": case})
            else:
                skipped += 1
                c.extra["skip_example"] = str(o)[:500]
            continue
        docs = []
        if i in where:
            x, y = dobs[where[i]], dobs[where[i] + 1]
            for t, p, q in zip(dcases[where[i]]["docs"], x.get("docs", []), y.get("docs", [])):
                if "errs" in p and "errs" in q:
                    docs.append({"old": len(p["errs"]), "new": sorted({e["k"] for e in q["errs"]}), "text": t})
        lines.append({"line": len(lines), "old": full(a), "new": full(b), "fwd": changes(o["fwd"]), "bwd": changes(o["bwd"]),
                      "same": len(o["same"]) + len(o["same2"]), "flags": flags_ok(o["fwd"] + o["bwd"]),
                      "docs": [{"old": d["old"], "new": d["new"]} for d in docs]})
        back.append((case, done, o, docs))
    if skipped * 2 > len(prs):
        raise core.ToolError("most schemas could not be built: " + str(c.extra.get("skip_example")))
    os.environ["RULE"] = rule
    recs, st, tr = core.trace_check("CompareTrace", lines)
    total = 0
    for x in recs:
        case, done, o, docs = back[x["line"]]
        total += x["n"]
        if not x["ok"]:
            c.violation(f"comparison after {done}: missing {x['missing']}, unexpected {x['extra']}, reported on itself {lines[x['line']]['same']}"
                        + ("" if x["docs"] else f", documents valid before: {[d for d in docs if d['old'] == 0 and d['new']]}"),
                        {"case": case, "missing": x["missing"], "extra": x["extra"]})
    for case, done, o, docs in back[1:3]:
        c.sample({"edits": done, "changes": [(x["k"], x["path"], x["crit"]) for x in o["fwd"]]})
    c.add(st, tr, len(recs))
    c.extra["schema_pairs"] = {"compared": len(recs), "changes_expected": total, "unbuildable": skipped,
                               "documents_revalidated": sum(len(b[3]) for b in back)}
