"""C19: whatever the document and the schema, validating, rendering, selecting and analysing end and do
not crash. Documents come from the bounded models, from graphs of fragments that TLC enumerates, and
from seeded generators that keep nothing sound; spec/Journey.tla follows each through its stages."""
import json, os
from lib import core, texts
from lib.gen import *
from checks import models
from checks.analysis import cost_schema

ANALYSES = ["depth", "cost", "relay", "both", "deprecated", "size", "vars"]


def clone(x):
    return json.loads(json.dumps(x))


# ------------------------------------------------------------------ schemas that build but keep few rules
def weird(r, s):
    s = clone(s)
    comp = [t for t in s["types"] if t["k"] in ("object", "interface")]
    ifs = [t for t in s["types"] if t["k"] == "interface"]
    ins = [t for t in s["types"] if t["k"] == "input"]
    outs = [t["name"] for t in s["types"] if t["k"] != "input"]
    for _ in range(r.choice([1, 2, 4, 8])):
        how = r.randrange(20)
        t = r.choice(comp)
        if how == 0 and len(t["fields"]) > 1:
            t["fields"].pop(r.randrange(len(t["fields"])))
        elif how == 1 and ifs:
            t["ifaces"].append(r.choice(ifs)["name"])
        elif how == 2:
            t["fields"].append(clone(r.choice(r.choice(comp)["fields"])))
        elif how == 3:
            f = r.choice(t["fields"])
            f["type"] = r.choice([N(r.choice(outs), r.p(0.3)), L(N(r.choice(outs))), L(L(N(r.choice(outs), True), True), True)])
        elif how == 4:
            u = r.choice([x for x in s["types"] if x["k"] == "union"])
            u["members"].append(r.choice([x["name"] for x in s["types"] if x["k"] == "object"]))
        elif how == 5:
            e = r.choice([x for x in s["types"] if x["k"] == "enum"])
            e["values"].append(clone(r.choice(e["values"])))
        elif how == 6:
            i = r.choice(ins)
            i["fields"].append(iv(r.choice(["a", "b", "ring"]), N(r.choice(ins)["name"], r.p(0.7)), r.choice([None, None, OBJ([]), NULL(), raw_value(r, 2, const=True)])))
        elif how == 7:
            i = r.choice(ins)
            i["dirs"] = i["dirs"] + [direc("oneOf")] * r.choice([1, 2])
        elif how == 8:
            f = r.choice(r.choice(ins)["fields"])
            f["def"] = [raw_value(r, 2, const=True)]
        elif how == 9:
            f = r.choice(t["fields"])
            f["args"].append(iv(r.choice(["x", "x", "first", "zz"]), r.choice([N("Int", True), N(r.choice(ins)["name"]), L(N("Int"))]), raw_value(r, 2, const=True) if r.p(0.5) else None))
        elif how == 10 and not any(d["name"] in ("skip", "include") for d in s["directives"]):
            n = r.choice(["skip", "include"])
            s["directives"].append(ddef(n, r.choice([["FIELD"], ["FIELD", "FRAGMENT_SPREAD", "INLINE_FRAGMENT"], ["OBJECT"]]),
                                        r.choice([[], [iv("if", N("String"))], [iv("if", L(N("Boolean")))], [iv("unless", N("Boolean"))], [iv("if", N("Boolean", True)), iv("if", N("Int"))]]), rep=r.p(0.5)))
        elif how == 11 and not any(d["name"] in ("deprecated", "oneOf") for d in s["directives"]):
            s["directives"].append(ddef(r.choice(["deprecated", "oneOf"]), ["FIELD_DEFINITION", "INPUT_OBJECT", "ARGUMENT_DEFINITION"], r.choice([[], [iv("reason", N("Int"))]])))
        elif how == 12:
            f = r.choice(t["fields"])
            f["dirs"] = f["dirs"] + [direc("deprecated", [arg("reason", raw_value(r, 1, const=True))])]
        elif how == 13:
            f = r.choice(t["fields"])
            f["dirs"] = f["dirs"] + [direc("cost", [arg(r.choice(["weight", "kind", "q"]), r.choice([raw_value(r, 1, const=True), STR("connection"), STR("1e400"), STR("9" * 30)]))])]
            if not any(d["name"] == "cost" for d in s["directives"]):
                s["directives"].append(ddef("cost", ["FIELD_DEFINITION"], [iv("weight", N("String")), iv("kind", N("String"))]))
        elif how == 14:
            t["fields"].append(fd(r.choice(["__typename", "__schema", "__type", "edges", "node", "nodes"]), r.choice([N(r.choice(outs)), L(N(r.choice(outs)))])))
        elif how == 15:
            x = r.choice(["mutation", "subscription"])
            s[x] = r.choice([x["name"] for x in s["types"] if x["k"] == "object"])
        elif how == 16 and not any(t["name"] in BUILTIN_SCALARS for t in s["types"]):
            s["types"].append(ty("scalar", r.choice(BUILTIN_SCALARS)))
        elif how == 17 and s["directives"]:
            d = r.choice(s["directives"])
            d["args"].append(iv(r.choice(["x", "if", "self"]), r.choice([N("Int", True), N(r.choice(ins)["name"], True)]), None, dirs=[direc(d["name"])] if r.p(0.3) else []))
        elif how == 18 and s["directives"]:
            d = r.choice(s["directives"])
            d["locs"] = d["locs"] + [r.choice(["FIELD", "QUERY", "VARIABLE_DEFINITION", "SCALAR", "FIELD"])]
        elif how == 19:
            r.shuffle(s["types"])
    return s


# ------------------------------------------------------------------ documents
def scramble(r, d, s, p):
    """rewire a document: names, conditions, values and variables that fit nothing"""
    d = clone(d)
    names = [f["name"] for f in d["frags"]] + ["Zz"]
    types = [t["name"] for t in s["types"]] + BUILTIN_SCALARS + ["Nope", "__Schema", "__TypeKind"]
    vs = [v["name"] for o in d["ops"] for v in o["vars"]] + ["nov"]

    def dirs(x):
        if r.p(p):
            x["dirs"] = x["dirs"] + [direc(r.choice(["skip", "include", "deprecated", "oneOf", "cost", "zz", "d0"]), r.choice([[], [arg("if", raw_value(r, 1, vs))], [arg("if", VAR(r.choice(vs))), arg("if", NULL())]]))] * r.choice([1, 1, 2])

    def go(ss, depth):
        for x in ss:
            dirs(x)
            if x["k"] == "spr":
                if r.p(p):
                    x["name"] = r.choice(names)
                continue
            if x["k"] == "inl":
                if r.p(p):
                    x["on"] = r.choice(types + [""])
            else:
                if r.p(p):
                    x["alias"] = r.choice(["a", "b", "__typename", ""])
                if r.p(p):
                    x["name"] = r.choice(["a", "b", "c", "edges", "nodes", "conn", "__schema", "__type", "types", "fields"])
                if r.p(p):
                    x["args"] = x["args"] + [arg(r.choice(["x", "first", "last", "if", "q"]), raw_value(r, 3, vs))]
            go(x["sel"], depth + 1)
            if depth < 6 and r.p(p * 0.5):
                x["sel"].append(spr(r.choice(names)))
            elif depth < 6 and r.p(p * 0.3):
                x["sel"] = []
        if r.p(p):
            ss.insert(r.randint(0, len(ss)), r.choice([spr(r.choice(names)), field("__typename"), field("x", sel=[field("y")]), inl(r.choice(types), [field("a")])]))
        for x in ss:
            if x["k"] == "inl" and not x["sel"]:
                x["sel"] = [field("a")]
    for o in d["ops"]:
        dirs(o)
        if r.p(p):
            o["op"] = r.choice(["query", "mutation", "subscription"])
            o["short"] = False
        if r.p(p):
            o["vars"].append(vardef(r.choice(vs), r.choice([N(r.choice(types), r.p(0.3)), L(L(N(r.choice(types))))]), raw_value(r, 2, const=True) if r.p(0.5) else None))
            o["short"] = False
        if o["dirs"] or o["name"]:
            o["short"] = False
        go(o["sel"], 0)
    for f in d["frags"]:
        dirs(f)
        if r.p(p):
            f["on"] = r.choice(types)
        if r.p(p * 0.4):
            f["name"] = r.choice(names)
        go(f["sel"], 0)
    return d


def extreme(r, s):
    """deep nesting, long chains and knots of fragments, huge values"""
    root = s["query"]
    ft = next(t for t in s["types"] if t["name"] == root)["fields"][0]
    kind = r.randrange(6)
    n = r.choice([1, 3, 10, 40, 150])
    if kind == 0:
        x = [field("a")]
        for i in range(n):
            x = [field(ft["name"], sel=x)] if r.p(0.5) else [inl(r.choice(["", root, "Zz"]), x)]
        return {"ops": [op(x, short=True)], "frags": []}
    if kind == 1:     # a chain, perhaps closed
        fs = [frag("F%d" % i, root, [spr("F%d" % (i + 1)), field(ft["name"])]) for i in range(n)]
        fs.append(frag("F%d" % n, root, [field(ft["name"])] if r.p(0.5) else [spr("F%d" % r.randint(0, n))]))
        r.shuffle(fs)
        return {"ops": [op([spr("F%d" % r.randint(0, n))], short=True)], "frags": fs}
    if kind == 2:     # everything spreads everything
        k = min(n, r.choice([2, 3, 4]))
        fs = [frag("F%d" % i, root, [spr("F%d" % j) for j in range(k) if r.p(0.7)] + [field("a")]) for i in range(k)]
        return {"ops": [op([spr("F%d" % j) for j in range(k)], name="A")] + [op([spr("F0")], name="B")], "frags": fs}
    if kind == 3:     # a deep value
        v = r.choice([VAR("v"), INT(1), NULL(), OBJ([])])
        for i in range(n):
            v = LIST([v]) if r.p(0.4) else OBJ([(r.choice("abcd"), v)])
        a = ft["args"][0]["name"] if ft["args"] else "x"
        return {"ops": [op([field(ft["name"], args=[arg(a, v)], sel=[field("a")])], name="A", vars=[vardef("v", N("Int"))] if r.p(0.7) else [])], "frags": []}
    if kind == 4:     # a deep type
        t = N(r.choice(["Int", "Nope", "In0", root]), r.p(0.3))
        for i in range(n):
            t = L(t, r.p(0.3))
        return {"ops": [op([field(ft["name"], args=[arg("x", VAR("v"))])], name="A", vars=[vardef("v", t, raw_value(r, 3, const=True))])], "frags": []}
    return {"ops": [op([field(ft["name"], alias="k%d" % (i % 7)) for i in range(n)], name="A")] * r.choice([1, 2]), "frags": []}


def deep_json(r):
    x = r.choice([1, None, "a", 1.5, True, 10 ** 12, -2 ** 63, 1e300, {}])
    for _ in range(r.choice([0, 1, 2, 5, 60])):
        x = [x] * r.choice([1, 1, 2]) if r.p(0.5) and len(json.dumps(x)) < 4000 else {r.choice(["a", "b", "c", "zz"]): x}
    return x


def random_groups(c, r):
    out = []
    for _ in range(c.size(260, 3500)):
        s = cost_schema(r) if r.p(0.4) else gen_schema(r, deprecations=r.p(0.4))
        ds = []
        for _ in range(8):
            x = r.random()
            if x < 0.15:
                d = extreme(r, s)
            elif x < 0.22:
                ds.append((None, texts.layout(r, texts.Tree(r, r.choice([1, 2])).executable())))
                continue
            else:
                for _ in range(20):
                    d = DocGen(r, s, noise=r.choice([0, 0.05, 0.2]), value_noise=r.choice([0, 0.2]), depth=r.choice([2, 4]), frags=4, p_frag=0.3, p_inl=0.2, names_dup=r.choice([0, 0.1])).make()
                    if models_size(d) <= 120:
                        break
                if r.p(0.75):
                    d = scramble(r, d, s, r.choice([0.02, 0.06, 0.15]))
            ds.append((d, doc_text(d)))
        if r.p(0.6):
            s = weird(r, s)
        out.append((s, ds))
    return out


def models_size(d):
    def go(ss):
        return sum(1 + go(x.get("sel", [])) for x in ss)
    return sum(go(x["sel"]) for x in d["ops"] + d["frags"])


def request(r, d):
    names = [o["name"] for o in d["ops"] if o["name"]] if d else []
    name = r.choice(names) if names and r.p(0.6) else r.choice([None, None, None, "Zz", "", "a"])
    vs = [v["name"] for o in d["ops"] for v in o["vars"]] if d else ["v", "w", "a"]
    given = {n: deep_json(r) for n in vs if r.p(0.7)}
    if r.p(0.1):
        given["extra"] = 1
    return name, given, r.choice([0, 0, 1, 2, 5])


THEMES = ["fragments", "variables", "subscriptions", "merge", "fields", "values"]


def run(c):
    binary = core.build()
    r = Rng(c.seed * 49979687 + 5)
    groups = []
    for t in THEMES:
        for s, ds in models.groups(c, t, c.size(400, 12000), less=c.size(1, 0)):
            groups += [(s, ds[k:k + 20]) for k in range(0, len(ds), 20)]
    modelled = sum(len(ds) for _, ds in groups)
    groups += random_groups(c, r)
    lines, back, extra = [], [], {"documents": 0, "from_models": modelled, "invalid": 0, "selected": 0, "unbuilt": 0, "unparsed": 0}
    asks, vcases, acases = [], [], []
    for s, ds in groups:
        text = sdl(s)
        q = [request(r, d) for d, _ in ds]
        asks.append(q)
        vcases.append({"op": "validate", "sdl": text, "docs": [t for _, t in ds], "render": True, "ops": True})
        acases.append({"op": "analyze", "sdl": text, "cases": [{"src": t, "name": n, "vars": g, "max": m} for (_, t), (n, g, m) in zip(ds, q)]})
    vobs = core.observe(binary, vcases, timeout=40)
    aobs = core.observe(binary, acases, timeout=40)
    for (s, ds), q, vc, ac, vo, ao in zip(groups, asks, vcases, acases, vobs, aobs):
        lost = next((x["panic"] for x in (vo, ao) if "panic" in x), None)
        if lost is not None:      # the whole process ended or hung: find the document
            for (d, t), a in zip(ds, ac["cases"]):
                for one in ({"op": "validate", "sdl": vc["sdl"], "docs": [t], "render": True, "ops": True}, {"op": "analyze", "sdl": ac["sdl"], "cases": [a]}):
                    if len(c.violations) < 6 and "panic" in core.observe(binary, [one], timeout=20, procs=1)[0]:
                        c.violation(f"{one['op']}: {lost} for {t[:300]!r}", {"case": one})
            if not c.violations:
                c.violation(f"{lost}", {"case": vc, "then": ac})
            continue
        if "docs" not in vo or "cases" not in ao:
            extra["unbuilt"] += len(ds)
            continue
        for (d, t), a, v, g in zip(ds, ac["cases"], vo["docs"], ao["cases"]):
            if v.get("parse") is False:
                extra["unparsed"] += 1
                continue
            extra["documents"] += 1
            gql = v.get("gql", {}).get("errors", [])
            answers = {}
            for k in ANALYSES:
                x = g.get(k, {"panic": g.get("panic", "no answer")})
                answers[k] = "nothing" if "panic" in x else "value" if x["ok"] else x["e"]
            ops = v.get("ops", [])
            lines.append({"line": len(lines), "ops": ops, "name": [] if a["name"] is None else [a["name"]],
                          "validate": "nothing" if "panic" in v else "invalid" if v["n"] else "valid", "errors": v.get("n", 0), "report": bool(v.get("rendered")),
                          "listed": len(gql), "messages": all(e["msg"] for e in gql), "analyses": answers})
            back.append((vc["sdl"], t, a, v.get("panic"), g))
            extra["invalid"] += v.get("n", 0) > 0
            extra["selected"] += answers["depth"] == "value"
    if extra["documents"] * 2 < sum(len(ds) for _, ds in groups) and not c.violations:
        raise core.ToolError("most cases could not be set up")
    bad, st, tr = core.trace_check("Journey", lines, name="journey")
    c.add(st, tr, len(lines))
    for x in bad[:40]:
        text, t, a, vp, g = back[x["line"]]
        ln = lines[x["line"]]
        crash = vp or next((y["panic"] for y in [g] + [z for z in g.values() if isinstance(z, dict)] if "panic" in y), "")
        one = {"op": "validate", "sdl": text, "docs": [t], "render": True, "ops": True} if "validation" in x["why"] or "rendering" in x["why"] else {"op": "analyze", "sdl": text, "cases": [a]}
        c.violation(f"{x['why']}: {crash[:160]} {'' if crash else ln['analyses']} (expected {x['want']}) for {t[:300]!r}", {"case": one, "line": ln})
    c.extra.update(extra)
    for b in back[:1] + back[modelled:modelled + 2]:
        c.sample({"document": b[1][:300], "operation": b[2]["name"], "variables": b[2]["vars"] if len(json.dumps(b[2]["vars"])) < 300 else "..."})
