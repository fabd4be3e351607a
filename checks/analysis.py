"""C22-C26: operation selection and the analyses (spec/Analysis*.tla)."""
import os
from lib import core
from lib.gen import *
from checks import models
from checks.models import leaf, opened, defs, query, SKIP, INCL, clone
from checks.coercion import jval, noid, to_json

WEIGHTS = [("0", 0), ("2", 2), ("4", 4), ("5", 5), ("7", 7), ("1", 1), ("3", 3), ("2.9", 2), ("-4", 0), ("abc", -1), ("", -1), ("1e1", 10), ("7.0", 7)]


def reason(dirs):
    for d in dirs:
        if d["n"] == "deprecated":
            for a in d["args"]:
                if a["n"] == "reason" and a["v"]["k"] == "str":
                    return [a["v"]["s"]]
            return ["No longer supported."]
    return []


def cost(dirs):
    for d in dirs:
        if d["n"] == "cost":
            a = {x["n"]: x["v"] for x in d["args"]}
            w = dict(WEIGHTS)[a["weight"]["s"]] if a.get("weight", {}).get("k") == "str" else -1
            return w, a.get("kind") == STR("connection")
    return -1, False


def analysis_schema(s):
    rec = noid(tlc_schema(s))
    rec = json.loads(json.dumps(rec))
    by = {t["name"]: t for t in s["types"]}

    def inputs(defs, src):
        for n, x in defs.items():
            x["dep"] = reason(next((y["dirs"] for y in src if y["name"] == n), []))
    for n, t in rec["types"].items():
        src = by.get(n)
        for fn, f in t["fields"].items():
            fs = next((y for y in src["fields"] if y["name"] == fn), None) if src else None
            f["dep"] = reason(fs["dirs"]) if fs else []
            f["w"], f["conn"] = cost(fs["dirs"]) if fs else (-1, False)
            inputs(f["args"], fs["args"] if fs else [])
        inputs(t["inputs"], src["fields"] if src and t["k"] == "input" else [])
        t["deps"] = {v["name"]: reason(v["dirs"]) for v in src["values"]} if src and t["k"] == "enum" else {}
    for d in rec["directives"].values():
        inputs(d["args"], [])
    for d in s["directives"]:
        inputs(rec["directives"][d["name"]]["args"], d["args"])
    return rec


def cost_schema(r):
    """a schema with weights and connections"""
    s = gen_schema(r, deprecations=r.p(0.3))
    s["directives"].append(ddef("cost", ["FIELD_DEFINITION"], [iv("weight", N("String")), iv("kind", N("String"))]))
    comp = [t["name"] for t in s["types"] if t["k"] in ("object", "interface", "union") and t["name"] not in
            (s["query"], s["mutation"], s["subscription"])]
    target = r.choice(comp)
    s["types"].append(ty("object", "Edge", fields=[fd("node", N(target)), fd("cursor", N("String"))]))
    ci = r.p(0.4)
    cf = [fd("edges", L(N("Edge"))), fd("nodes", L(N(target))), fd("total", N("Int"))]
    if ci:
        s["types"].append(ty("interface", "AnyConn", fields=json.loads(json.dumps(cf[:2]))))
    s["types"].append(ty("object", "Conn", ifaces=["AnyConn"] if ci else [], fields=cf))

    def weigh(p):
        out = []
        if r.p(p):
            out.append(arg("weight", STR(r.choice(WEIGHTS)[0])))
        if r.p(0.1):
            out.append(arg("kind", STR(r.choice(["connection", "other", "CONNECTION"]))))
        return [direc("cost", out)] if out else []
    for t in s["types"]:
        if t["k"] in ("object", "interface"):
            for f in t["fields"]:
                f["dirs"] = f["dirs"] + weigh(0.35)
            if t["k"] == "object" and t["name"] not in ("Conn", "Edge") and r.p(0.6):
                t["fields"].append(fd("conn", N(r.choice(["Conn", "AnyConn"]) if ci else "Conn"),
                                      [iv("first", N("Int")), iv("last", N("Int"))],
                                      dirs=[direc("cost", r.some([arg("weight", STR(r.choice(WEIGHTS)[0]))], 0, 1) + [arg("kind", STR("connection"))])]))
    return s


PROFILES = {
    "depth": [dict(depth=5, width=2, p_frag=0.3, p_inl=0.2, frags=4, merge=0.05, p_dir=0.25), dict(noise=0.03, depth=4, p_dir=0.3)],
    "cost": [dict(depth=4, width=3, merge=0.15, p_dir=0.06, frags=3, p_inl=0.3, alias=0.1, p_arg=0.7),
             dict(depth=5, width=2, merge=0.05, p_dir=0.1, frags=3, p_inl=0.25, alias=0.3, p_arg=0.9)],
    "size": [dict(p_arg=0.95, p_var=0.3, merge=0.02, p_dir=0.2, depth=3), dict(p_arg=0.95, p_var=0.7, merge=0.02, p_dir=0.1, depth=2)],
    "deprecated": [dict(p_arg=0.8, p_var=0.3, merge=0.1, p_dir=0.2, depth=3)],
    "select": [dict(ops=4, depth=1, width=1, frags=0, names_dup=0.1, merge=0)],
}
WANT = {"depth": ["depth", "both"], "cost": ["cost", "relay", "both"], "size": ["size"], "deprecated": ["deprecated"],
        "select": ["depth", "cost", "relay", "both", "deprecated", "size", "vars"]}


def given_for(r, s, ops, inputs):
    out = {}
    for o in ops:
        for v in o["vars"]:
            if v["name"] in out or r.p(0.35):
                continue
            if base(v["type"]) in inputs and not r.p(0.05):
                out[v["name"]] = to_json(r, const_value(r, s, v["type"], 0.02, 3))
            else:
                out[v["name"]] = to_json(r, raw_value(r))
    if r.p(0.05):
        out["extra"] = 1
    return out


def settle(s, d):
    """rename response keys so that no two fields of the document can conflict: one key, one field, arguments and type"""
    types = {t["name"]: t for t in s["types"]}
    fr = {f["name"]: f for f in d["frags"]}
    keys = {}

    def go(sels, scope):
        fields = {f["name"]: f for f in types[scope]["fields"]} if scope in types else {}
        for x in sels:
            if x["k"] == "field":
                fdef = fields.get(x["name"])
                sig = json.dumps([x["name"], sorted(json.dumps([a["n"], a["v"]], sort_keys=True) for a in x["args"]),
                                  fdef["type"] if fdef else 0], sort_keys=True)
                key = x["alias"] or x["name"]
                n, name = 0, key
                while keys.setdefault(name, sig) != sig:
                    n += 1
                    name = f"{key}_{n}"
                if name != key:
                    x["alias"] = name
                go(x.get("sel", []), base(fdef["type"]) if fdef else "")
            elif x["k"] == "inl":
                go(x["sel"], x["on"] or scope)
    for o in d["ops"]:
        go(o["sel"], {"query": s["query"], "mutation": s["mutation"], "subscription": s["subscription"]}[o["op"]])
    for f in fr.values():
        go(f["sel"], f["on"])
    return d


# ------------------------------------------------------------------ every small request (AnalysisModel.tla)
def model_schema():
    I, D = N("Int"), lambda why=None: [direc("deprecated", [arg("reason", STR(why))] if why else [])]
    C = lambda w=None, conn=False: [direc("cost", ([arg("weight", STR(w))] if w else []) + ([arg("kind", STR("connection"))] if conn else []))]
    node = lambda: [fd("n", N("Node")), fd("v", I, dirs=C("2")), fd("conn", N("Conn"), [iv("first", I), iv("last", I)], dirs=C("3", True))]
    q = node()[2:] + [fd("a", I), fd("b", I, dirs=C("7")), fd("q", N("Query")), fd("l", L(N("Query"))), fd("n", N("Node"), dirs=C("4")), fd("u", N("U")), fd("old", I, dirs=D("gone")), fd("was", N("Query"), dirs=D()),
         fd("g", I, [iv("x", L(I)), iv("y", L(L(I))), iv("in", N("In")), iv("ins", L(N("In"))), iv("e", N("E")), iv("es", L(N("E"))), iv("o", I, dirs=D("arg"))])]
    return schema([ty("object", "Query", fields=q), ty("interface", "Node", fields=node()), ty("object", "A", ifaces=["Node"], fields=node() + [fd("x", I, dirs=C("5")), fd("k", N("A"))]),
                   ty("object", "B", ifaces=["Node"], fields=node() + [fd("x", I, dirs=C("1")), fd("k", N("Query"))]), ty("union", "U", members=["A", "B"]),
                   ty("object", "Edge", fields=[fd("node", N("Node")), fd("cursor", I, dirs=C("1"))]), ty("object", "Conn", fields=[fd("edges", L(N("Edge"))), fd("nodes", L(N("A"))), fd("total", I, dirs=C("1"))]),
                   ty("enum", "E", values=[val("RED"), val("OLD", dirs=D("value")), val("GREY", dirs=D())]),
                   ty("input", "In", fields=[iv("x", L(I)), iv("e", N("E")), iv("was", I, dirs=D("field")), iv("in", N("In")), iv("l", L(N("In")), dirs=D("list"))]),
                   ty("object", "Mutation", fields=[fd("a", I)])],
                  mutation="Mutation", directives=[ddef("cost", ["FIELD_DEFINITION"], [iv("weight", N("String")), iv("kind", N("String"))]),
                                                   ddef("many", ["FIELD", "QUERY", "FRAGMENT_SPREAD", "INLINE_FRAGMENT"], [iv("x", L(I)), iv("e", N("E")), iv("o", I, dirs=D("darg"))], rep=True)])


def themes(rule):
    """[(items, definitions, quick, thorough, cap)], the given variables, the names asked for"""
    f, V, B, I = field, VAR("v"), N("Boolean"), N("Int")
    d = lambda x, *ds: dict(clone(x), dirs=clone(list(ds)))
    a = f("a")
    bools = [{}, {"v": True}, {"v": False}, {"v": None}, {"v": 1}]
    if rule == "depth":
        vs = defs(query("P", vars=[vardef("v", N("Boolean", True))]), query("P", vars=[vardef("v", B, BOOL(True))]), query("P", vars=[vardef("v", B, BOOL(False))]), query("P", vars=[vardef("w", B)]), query("P", vars=[vardef("v", I, INT(1))]))
        return [(leaf(a, d(a, SKIP(V)), d(a, INCL(V)), d(a, SKIP(BOOL(True))), spr("F"), d(spr("F"), SKIP(V)), d(spr("G"), INCL(V)), f("__typename")) + opened(f("q"), d(f("q"), INCL(V)), d(f("l"), SKIP(V), INCL(BOOL(True))), inl("", []), inl("", [], dirs=[SKIP(V)]), inl("Query", [], dirs=[INCL(BOOL(False))])),
                 vs[1:2] + defs(frag("F", "Query", []), frag("G", "Query", [])), 3, 4, 2),
                (leaf(a, *[d(a, *x) for x in ([SKIP(BOOL(False)), SKIP(BOOL(True))], [INCL(BOOL(False)), INCL(BOOL(True))], [direc("skip", [])], [direc("skip", [arg("x", BOOL(True)), arg("if", BOOL(True))])], [direc("skip", [arg("if", STR("x"))])],
                                                  [direc("skip", [arg("if", BOOL(False)), arg("if", BOOL(True))])], [direc("include", [arg("if", NULL())])], [SKIP(VAR("w"))], [INCL(V), SKIP(V)], [direc("many", []), SKIP(BOOL(True))])]) + opened(f("q"), inl("", [])),
                 vs, 2, 3, 1)], bools, [["P"], []]
    if rule == "cost":
        n = f("n")
        conn = lambda *xs: f("conn", args=[arg(k, v) for k, v in xs])
        return [(leaf(a, f("b"), f("v"), f("x"), f("x", "v"), f("__typename"), spr("F")) + opened(f("q"), n, f("n", "n2"), f("u"), f("k"), inl("A", []), inl("B", []), inl("Node", []), inl("U", [])), defs(query("P", vars=[vardef("v", I)]), frag("F", "Node", []), frag("F", "A", [])), 3, 4, 2),
                (leaf(f("total"), f("v"), f("x"), f("cursor")) + opened(inl("A", []), conn(("first", INT(10))), conn(("first", V)), conn(("last", INT(3)), ("first", INT(50))), conn(), conn(("first", INT(0))), conn(("first", INT(-5)), ("last", V)), f("edges"), f("nodes"), f("node")),
                 defs(query("P", vars=[vardef("v", I)]), query("P", vars=[vardef("v", I, INT(100))])), 4, 5, 1)], [{}, {"v": 20}, {"v": 100000}], [["P"]]
    ls = [LIST([INT(1)] * k) for k in (0, 1, 2, 3)]
    vals = lambda o: {"x": ls + [INT(1), NULL(), VAR("l"), LIST([VAR("v"), INT(1)])], "y": [LIST([ls[2], ls[1]]), LIST([ls[3], VAR("l")]), LIST([ls[1], ls[1]]), VAR("l")],
                      "in": [OBJ([("x", ls[2])]), OBJ([("x", VAR("l")), ("e", ENUM("OLD"))]), OBJ([("in", OBJ([("x", ls[3]), ("was", INT(1))]))]), OBJ([("l", LIST([OBJ([("x", ls[2])]), OBJ([("e", ENUM("GREY"))])])), ("was", NULL())]), VAR("o"), OBJ([("nope", ls[2])])],
                      "ins": [LIST([OBJ([("x", ls[2]), ("was", INT(1))]), VAR("o")]), OBJ([("x", ls[2]), ("e", ENUM("OLD"))])], "e": [ENUM("OLD"), ENUM("RED"), STR("OLD"), VAR("e")], "es": [ENUM("OLD"), LIST([ENUM("OLD"), ENUM("RED"), ENUM("GREY"), ENUM("OLD")]), LIST([VAR("e")])], "o": [INT(1), NULL()],
                      "nope": [ls[3], ENUM("OLD")]}
    gs = [f("g", args=[arg(k, v)]) for k, xs in vals(0).items() for v in xs]
    gs += [f("g", args=[arg("x", ls[2]), arg("y", LIST([ls[2]])), arg("e", ENUM("OLD"))]), d(f("g", args=[arg("x", ls[2]), arg("o", INT(1))]), SKIP(BOOL(True)))]
    many = [direc("many", [arg(k, v)]) for k, v in (("x", ls[2]), ("x", VAR("l")), ("e", ENUM("OLD")), ("o", INT(1)), ("e", VAR("e")))]
    gs += [d(a, m) for m in many] + [d(a, many[0], many[2], many[3]), f("old"), d(f("old"), SKIP(V)), f("nope", args=[arg("x", ls[3])])]
    va = [vardef("l", L(I), ls[2]), vardef("o", N("In"), OBJ([("x", ls[3]), ("was", INT(1)), ("e", ENUM("OLD"))])), vardef("e", N("E"), ENUM("OLD")), vardef("v", B)]
    ops = defs(query("P", vars=va), query("P", vars=[dict(x, **{"def": []}) for x in va]), query("P", vars=[vardef("l", L(L(N("E"))), LIST([ENUM("OLD"), LIST([ENUM("OLD"), ENUM("GREY")])])), vardef("o", L(N("In"))), vardef("e", L(N("E"), True), ENUM("GREY"))]),
               *[query("P", dirs=[m]) for m in many[:4]], query("P", vars=va[:1], dirs=[many[1]]))
    given = [{}, {"l": [1, 2], "o": {"x": [1], "l": [{"was": 2}, {"e": "OLD"}]}, "e": "GREY"}, {"l": [[1, 2, 3], 4], "o": {"in": {"x": [1, 2, 3], "was": None}}, "e": "RED"}, {"l": None, "e": ["OLD"], "o": [{"was": 1}, {"x": [[1, 2]]}], "v": True}, {"l": [["OLD"], "GREY"], "o": 1, "e": None}]
    if rule in ("size", "deprecated"):
        inner = opened(f("q"), f("was"), d(f("was"), SKIP(V)), inl("", []), d(inl("", []), many[0]), inl("Query", [], dirs=[SKIP(BOOL(True)), many[3]]), spr("F"), d(spr("F"), many[2]))
        inner = [dict(x, open=x["node"]["k"] != "spr") for x in inner]
        return [(leaf(*gs), ops, 1, 2, 1), (leaf(a, gs[2], f("old"), gs[-2]) + inner, ops[:2] + defs(frag("F", "Query", [])), 3, 4, 2)], given, [["P"]]
    o = lambda name, k="query": op([], op=k, name=name)
    return [(leaf(a, spr("F"), f("nope")), defs(query(), o("P"), o("Q"), o("P", "mutation"), o("p"), frag("F", "Query", []), frag("P", "Query", []), again=True), 2, 3, 4)], [{}], [[], ["P"], ["Q"], ["p"], [""], ["F"], ["Nope"]]


KEEPS = {"depth": "DepthForms", "cost": "CostForms", "size": "SizeForms", "deprecated": "DeprecatedForms", "select": ""}


def model(c, rule, limit):
    s = model_schema()
    ts, given, names = themes(rule)
    r = Rng(c.seed * 43 + len(rule))
    out = []
    for i, (items, ds, quick, thorough, cap) in enumerate(ts):
        n = c.size(quick, thorough)
        docs = models.documents(c, s, items, ds, n, cap, KEEPS[rule], "AnalysisModel", analysis_schema(s), given=[{k: noid(jval(x)) for k, x in g.items()} for g in given])
        every = [(x, nm, g) for x in range(len(docs)) for nm in names for g in range(len(given))]
        c.extra["model_%d" % i] = {"selections": n, "documents": len(docs), "requests": len(every), "replayed": min(len(every), limit)}
        if len(every) > limit:
            every = r.sample(every, limit)
        for k in range(0, len(every), 40):
            out.append((s, [(docs[x], nm[0] if nm else None, given[g], r.randint(0, 2)) for x, nm, g in every[k:k + 40]]))
    return out


def run(c, rule):
    binary = core.build()
    r = Rng(c.seed * 15485863 + len(rule) * 977 + ord(rule[0]))
    groups = []
    for _ in range(c.size(*((110, 2000) if rule == "cost" else (160, 2400)))):
        s = cost_schema(r) if rule == "cost" else gen_schema(r, deprecations=rule == "deprecated")
        if rule == "deprecated":
            for d in s["directives"]:
                for a in d["args"]:
                    if not (a["type"]["r"] and not a["def"]) and r.p(0.2):
                        a["dirs"] = [direc("deprecated")]
        inputs = BUILTIN_SCALARS + [t["name"] for t in s["types"] if t["k"] in ("enum", "scalar", "input")]
        out = []
        for _ in range(16):
            r.long = rule == "size" and r.p(0.15)
            prof = dict(dict(noise=0, value_noise=0, names_dup=0), **r.choice(PROFILES[rule]))
            for _ in range(20):
                d = DocGen(r, s, **prof).make()
                if count(d) <= 90:
                    break
            if rule == "cost" and r.p(0.6):
                settle(s, d)
            names = [o["name"] for o in d["ops"] if o["name"]]
            x = r.random()
            name = r.choice(names) if names and x < 0.7 else None if x < 0.9 else r.choice(["Nope", "", "q0", "Q"])
            if rule not in ("select",) and len(d["ops"]) > 1 and name is None and names:
                name = r.choice(names)
            out.append((d, name, given_for(r, s, d["ops"], inputs), r.randint(10, 13) if r.long else r.randint(0, 3)))
            r.long = False
        groups.append((s, out))
    judge(c, binary, rule, groups + model(c, rule, c.size(600, 20000)))


def count(d):
    def go(ss):
        return sum(1 + go(s.get("sel", [])) for s in ss)
    return sum(go(x["sel"]) for x in d["ops"] + d["frags"])


def result(rule, g):
    """the part of the observation the rule is about, or None if it crashed"""
    parts = [g[k] for k in WANT[rule]]
    bad = [p["panic"] for p in parts if "panic" in p]
    if bad:
        return {"panic": bad[0]}
    if not all(p["ok"] == parts[0]["ok"] and p.get("e") == parts[0].get("e") for p in parts):
        return {"mixed": parts}
    if not parts[0]["ok"]:
        return {"ok": False, "e": parts[0]["e"], "v": 0}
    if rule == "depth":
        v = g["depth"]["v"]
        if g["both"]["v"][0] != v:
            return {"mixed": parts}
        return {"ok": True, "e": "", "v": v}
    if rule == "cost":
        v = {"unit": g["cost"]["v"], "relay": g["relay"]["v"]}
        if g["both"]["v"][1] != v["unit"]:
            return {"mixed": parts}
        return {"ok": True, "e": "", "v": {k: min(x, 2**31 - 1) for k, x in v.items()}}
    if rule == "select":
        return {"ok": True, "e": "", "v": 0}
    return {"ok": True, "e": "", "v": g[rule]["v"]}


def judge(c, binary, rule, groups):
    cases = [{"op": "analyze", "sdl": sdl(s), "cases": [
        {"src": layout(None, doc_tokens(d), wild=False), "name": name, "vars": given, "max": mx, "want": WANT[rule]}
        for d, name, given, mx in out]} for s, out in groups]
    obs = core.observe(binary, cases)
    lines, back = [], []
    total = skipped = 0
    for (s, out), case, o in zip(groups, cases, obs):
        total += len(out)
        if "cases" not in o:
            skipped += len(out)
            if "panic" in o:
                c.violation("analysis crashed: " + str(o["panic"])[:300], {"case": case})
            continue
        cs, bk = [], []
        for (d, name, given, mx), q, g in zip(out, case["cases"], o["cases"]):
            one = {"op": "analyze", "sdl": case["sdl"], "cases": [q]}
            text = f"{q['src']!r} operation {name} with {json.dumps(given)}" + (f" limit {mx}" if rule == "size" else "")
            if "panic" in g:
                c.violation("analysis crashed: " + text, {"case": one})
                continue
            if not g.get("parse"):
                skipped += 1
                continue
            got = result(rule, g)
            if "panic" in got:
                c.violation(f"analysis crashed ({got['panic'][:200]}): {text}", {"case": one})
                continue
            if "mixed" in got:
                c.violation(f"analyses of one request disagree: {got['mixed']}\n    {text}", {"case": one})
                continue
            cs.append({"doc": noids(number(d)), "name": [] if name is None else [name], "max": mx,
                       "given": {k: noid(jval(x)) for k, x in given.items()}, "got": got})
            bk.append((one, got, text))
        lines.append({"line": len(lines), "schema": analysis_schema(s), "cases": cs})
        back.append(bk)
    if skipped * 2 > total:
        raise core.ToolError("most cases could not be set up")
    os.environ["RULE"] = rule
    bad, st, tr = core.trace_check("AnalysisTrace", lines)
    n = {"clean": 0, "facts": 0, "skipped": 0}
    nbad = 0
    for b in bad:
        for k in n:
            n[k] += b[k]
        nbad += len(b["bad"])
        for x in b["bad"]:
            case, got, text = back[b["line"]][x["case"] - 1]
            c.violation(f"{rule}: reported {got['v'] if got['ok'] else got['e']}, the specification says {x['want']}\n    for {text}",
                        {"case": case, "got": got, "want": x["want"]})
    for bk in back[:2]:
        for case, got, text in bk[:2]:
            c.sample({"case": text, "reported": got})
    c.add(st, tr, n["clean"] + n["facts"] + nbad)
    c.extra["random_requests"] = {"trivial": n["clean"], "nontrivial": n["facts"], "not_compared": n["skipped"], "unparsed": skipped}


def noids(x):
    if isinstance(x, dict):
        return {k: 0 if k == "id" else noids(v) for k, v in x.items()}
    return [noids(v) for v in x] if isinstance(x, list) else x
