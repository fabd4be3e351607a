"""C08 and C09: building schemas from type system documents, and the rules about them (spec/Schema*.tla)."""
import os, time
from lib import core
from lib.gen import *
from lib.sdl import *
from checks.compare import MDIRS, holders, rdirs, copy, DESCS

ROOTS = ("query", "mutation", "subscription")
INTROS = ["__Schema", "__Type", "__Field", "__InputValue", "__EnumValue", "__Directive", "__TypeKind", "__DirectiveLocation"]
BUILTIN_DIRS = ["skip", "include", "deprecated", "specifiedBy", "oneOf"]


def elements(d):
    """(element with directives, tag) in a document"""
    for b in d["schemas"]:
        yield b, "schema"
    for t in d["types"]:
        yield t, "type"
        for f in t["fields"]:
            yield f, "input" if t["k"] == "input" else "field"
            for a in f.get("args", []):
                yield a, "arg"
        for v in t["values"]:
            yield v, "value"
    for x in d["directives"]:
        for a in x["args"]:
            yield a, "darg"


def pick(r, d, *tags):
    groups = {}
    for e, k in elements(d):
        if not tags or k in tags:
            groups.setdefault(k + (":" + e["k"] if k == "type" else ""), []).append(e)
    return r.choice(groups[r.choice(sorted(groups))]) if groups else None


def spot(t):
    while t["k"] == "L":
        t = t["of"]
    return t


def base_document(r):
    s = gen_schema(r, deprecations=r.p(0.3))
    s["directives"] += copy(MDIRS)
    if r.p(0.4):
        s["dirs"] = rdirs(r, 0.6)
    for h, k in holders(s):
        if r.p(0.2):
            h["desc"] = [r.choice(DESCS)]
        if k != "ddef" and r.p(0.3):
            h["dirs"] = h["dirs"] + rdirs(r)
    if s["subscription"] and r.p(0.2):
        s["subscription"] = ""          # a type that is named like a root and is none
    return document(s, explicit=True if r.p(0.3) else None)


DEFECTS = ["dtype", "dtype", "ddir", "intro", "scalar", "builtindir", "dupbuiltindir", "ref", "ref", "ref", "unknowndir", "unknowndir", "schemadir", "blocks",
           "root+", "root-", "rootref", "noblock", "rootkind", "rename", "nothing"]


def break_it(r, d, how):
    names = [t["name"] for t in d["types"]]
    anything = names + BUILTIN_SCALARS + INTROS + ["Nope"]
    if how == "dtype":
        for _ in range(r.choice([1, 1, 2])):
            t = copy(r.choice(d["types"]))
            if r.p(0.5):
                t = ty(r.choice(["scalar", "enum", "input"]), t["name"], values=[val("X")], fields=[iv("q", N(r.choice(anything)))])
            d["types"].insert(r.randint(0, len(d["types"])), t)
    elif how == "ddir":
        x = copy(r.choice(d["directives"]))
        if r.p(0.5):
            x["args"] = [iv("q", N(r.choice(anything)))]
        d["directives"].insert(r.randint(0, len(d["directives"])), x)
    elif how == "intro":
        n = r.choice(INTROS)
        for _ in range(r.choice([1, 1, 2])):
            d["types"].append(r.choice([ty("scalar", n), ty("enum", n, values=[val("X")]), ty("object", n, fields=[fd("x", N("Nope"))])]))
    elif how == "scalar":
        n = r.choice(BUILTIN_SCALARS)
        d["types"].append(r.choice([ty("scalar", n), ty("scalar", n), ty("enum", n, values=[val("X")])]))
    elif how == "builtindir":
        n = r.choice(BUILTIN_DIRS)
        d["directives"].append(ddef(n, r.some(EXEC_LOCS + TS_LOCS, 1, 3), [iv("x", N(r.choice(["Int", "Int", "Nope"])))]))
    elif how == "dupbuiltindir":
        n = r.choice(BUILTIN_DIRS)
        d["directives"] += [ddef(n, ["FIELD"]), ddef(n, ["OBJECT"])]
    elif how == "ref":
        for _ in range(r.randint(1, 2)):
            x = r.random()
            if x < 0.2:
                t = r.choice([t for t in d["types"] if t["k"] in ("object", "interface")])
                t["ifaces"].append({"n": r.choice(anything)})
            elif x < 0.4:
                us = [t for t in d["types"] if t["k"] == "union"]
                if us:
                    r.choice(us)["members"].append({"n": r.choice(anything)})
            else:
                e = pick(r, d, "field", "input", "arg", "darg")
                if e:
                    spot(e["type"])["n"] = r.choice(anything)
    elif how == "unknowndir":
        e = pick(r, d)
        e["dirs"].insert(r.randint(0, len(e["dirs"])), direc(r.choice(["nope", "nope", "m9", "Int"]), [arg("x", INT(1))] if r.p(0.5) else []))
    elif how == "schemadir":
        if not d["schemas"]:
            d["schemas"].append(block([(o, {"query": "Query", "mutation": "Mutation", "subscription": "Subscription"}[o]) for o in ROOTS
                                       if {"query": "Query", "mutation": "Mutation", "subscription": "Subscription"}[o] in names]))
        d["schemas"][0]["dirs"].append(direc("nope"))
    elif how == "blocks":
        for _ in range(r.choice([1, 1, 2]) if d["schemas"] else 2):
            d["schemas"].append(block([("query", r.choice(anything))], [direc("nope")] if r.p(0.3) else []))
    elif how == "root+":
        if not d["schemas"]:
            d["schemas"].append(block([("query", "Query")]))
        for _ in range(r.randint(1, 2)):
            b = r.choice(d["schemas"])
            b["roots"].insert(r.randint(0, len(b["roots"])), {"op": r.choice(ROOTS), "n": r.choice(anything)})
    elif how == "root-":
        if d["schemas"]:
            b = d["schemas"][0]
            b["roots"] = [x for x in b["roots"] if x["op"] != "query"] or [{"op": "mutation", "n": r.choice(names)}]
    elif how == "rootref":
        if d["schemas"] and d["schemas"][0]["roots"]:
            r.choice(d["schemas"][0]["roots"])["n"] = r.choice(anything)
    elif how == "noblock":
        d["schemas"] = []
    elif how == "rootkind":
        n = r.choice(["Query", "Mutation", "Subscription"])
        d["schemas"] = []
        d["types"] = [t for t in d["types"] if t["name"] != n]
        d["types"].append(r.choice([ty("scalar", n), ty("enum", n, values=[val("X")]), ty("interface", n, fields=[fd("x", N("Int"))]),
                                    ty("union", n, members=[{"n": next(t["name"] for t in d["types"] if t["k"] == "object")}])]))
    elif how == "rename":
        t = r.choice(d["types"])
        t["name"] = r.choice(["Zz", "Query", "Mutation", "Subscription"])


def spoil_inputs(r, d):
    """duplicate values and fields, cycles of required references"""
    for t in d["types"]:
        if t["k"] == "enum":
            for _ in range(r.choice([0, 0, 1, 2])):
                t["values"].insert(r.randint(0, len(t["values"])), copy(r.choice(t["values"])))
        elif t["k"] == "input":
            for _ in range(r.choice([0, 0, 1, 2])):
                f = copy(r.choice(t["fields"]))
                if r.p(0.5):
                    f["type"] = N("Int")
                t["fields"].insert(r.randint(0, len(t["fields"])), f)
    ins = [t["name"] for t in d["types"] if t["k"] == "input"]
    n = r.randint(0, 4)
    extra = ["Ring%d" % i for i in range(n)]
    for i, x in enumerate(extra):
        d["types"].append(ty("input", x, fields=[]))
    ins += extra
    by = {t["name"]: t for t in d["types"] if t["k"] == "input"}
    for x in extra + r.some(ins, 0, 2):
        for _ in range(r.choice([1, 1, 2, 3])):
            t = N(r.choice(ins if r.p(0.8) else ["Int", "E0"]), r.p(0.65))
            if r.p(0.12):
                t = L(t, r.p(0.6))
            by[x]["fields"].append(iv("f%d" % len(by[x]["fields"]), t, NULL() if r.p(0.08) and not t["r"] else OBJ([]) if r.p(0.08) else None))
    r.shuffle(d["types"])


def shuffled(r, d):
    """the definitions in any order; the lists of the document follow it"""
    defs = [("schemas", x) for x in d["schemas"]] + [("types", x) for x in d["types"]] + [("directives", x) for x in d["directives"]]
    r.shuffle(defs)
    return defs


def make(r, rule):
    d = base_document(r)
    how = "none"
    if rule == "rules":
        spoil_inputs(r, d)
    elif r.p(0.75):
        how = r.choice(DEFECTS)
        break_it(r, d, how)
        if r.p(0.3):
            break_it(r, d, r.choice(DEFECTS))
    e = Emitter()
    a = e.document(d, shuffled(r, d))
    return e.text(), strip(a), how


# ------------------------------------------------------------------ every small document (SchemaModel.tla)
def vocabulary(rule):
    """theme -> (items, quick size, thorough size, strict); an item is (part, definition, group)"""
    I, F = N("Int"), lambda t, args=(), dirs=(): fd("f", t, list(args), dirs=list(dirs))
    T = {}
    kinds = [ty("object", "O", fields=[fd("f", I)]), ty("interface", "I", fields=[fd("f", I)]), ty("union", "U", members=["O"]), ty("enum", "E", values=[val("A")]),
             ty("input", "In", fields=[iv("f", I)]), ty("scalar", "D")]
    targets = ["O", "I", "U", "E", "In", "D", "Int", "Z", "__Type", "__TypeKind", "Query"]
    q = lambda *fs: ty("object", "Query", fields=list(fs))
    if rule == "rules":
        shapes = [[I], [N("In")], [N("A", True)], [N("B", True)], [N("C", True)], [L(N("A", True), True)], [N("B")], [L(L(N("C", True), True), True), N("B", True)],
                  [N("A", True), N("B", True)], [N("B", True), N("C", True)], [N("C", True), N("C", True), N("A")], [N("E", True), L(N("A"), True), N("C", True)]]
        T["circles"] = ([("types", ty("input", n, fields=[iv("f%d" % i, t) for i, t in enumerate(s)]), g) for g, n in enumerate("ABC", 1) for s in shapes]
                        + [("types", q(fd("x", I)), 4)] + [("types", k, 5 + i) for i, k in enumerate(kinds[3:5])], 5, 6, True)
        vs = [["A"], ["A", "A"], ["A", "B"], ["A", "B", "A"], ["B", "B", "A", "A"], ["A", "a"], ["A", "A", "A"], ["on", "type", "on"]]
        T["repeats"] = ([("types", q(fd("x", I)), 1)] + [("types", ty("enum", n, values=[val(v) for v in x]), 2 + g) for g, n in enumerate(["E", "F"]) for x in vs]
                        + [("types", ty("input", "In", fields=[iv(v, t) for v, t in zip(x, [I, L(I), N("In"), N("String", True)])]), 4) for x in vs]
                        + [("types", ty("input", "On", fields=[iv(v, N("Int")) for v in x], dirs=[direc("oneOf")]), 5) for x in vs[:5]], 4, 5, True)
        return T
    T["output"] = ([("types", q(F(N(n) if i % 2 else L(N(n, True), True))), 1) for i, n in enumerate(targets)]
                   + [("types", q(F(I, [iv("x", N(n) if i % 2 else L(N(n, True)))])), 1) for i, n in enumerate(targets)]
                   + [("types", ty("interface", "J", fields=[F(N(n), [iv("x", N(m))])]), 2) for n, m in zip(targets, targets[3:] + targets[:3])]
                   + [("types", k, 3) for k in kinds], 3, 4, False)
    T["input"] = ([("types", ty("input", "In2", fields=[iv("f", N(n) if i % 2 else L(N(n), True))]), 1) for i, n in enumerate(targets)]
                  + [("directives", ddef("d", ["FIELD"], [iv("x", N(n) if i % 2 else L(N(n), True))]), 2) for i, n in enumerate(targets)]
                  + [("types", ty("union", "V", members=[n] + (["O"] if n != "O" else [])), 3) for n in targets]
                  + [("types", ty(["object", "interface"][i % 2], "P", ifaces=[n], fields=[fd("f", I)]), 4) for i, n in enumerate(targets)]
                  + [("types", q(fd("x", I)), 5)] + [("types", k, 6 + i) for i, k in enumerate(kinds)], 3, 4, True)
    roots = [[("query", "Query")], [("query", "O")], [("query", "O"), ("mutation", "Mutation")], [("mutation", "O")], [("query", "O"), ("query", "O")], [("query", "Z"), ("mutation", "Z")], [("query", "U"), ("subscription", "E")],
             [("query", "O"), ("mutation", "O"), ("subscription", "O")], [("query", "__Type")], [("query", "Int"), ("mutation", "Z")], [("subscription", "Subscription"), ("mutation", "O"), ("query", "O"), ("mutation", "O")]]
    T["roots"] = ([("schemas", block(x), 1) for x in roots]
                  + [("types", ty("object", n, fields=[fd("x", I)]), 2) for n in ("Query", "Mutation", "Subscription", "O")]
                  + [("types", ty("scalar", n), 3) for n in ("Query", "Mutation", "Subscription")] + [("types", ty("input", "Query", fields=[iv("f", I)]), 3), ("types", kinds[3], 3), ("types", kinds[2], 3)], 3, 4, False)
    T["twice"] = ([("types", q(fd("x", I)), 1), ("types", q(fd("y", N("Z"))), 1)] + [("types", ty("scalar", n), 2) for n in ("D", "Int", "ID", "__Type", "__TypeKind", "E")]
                  + [("types", ty("enum", "E", values=[val("B", dirs=[direc("z")])]), 3), ("types", kinds[3], 3)]
                  + [("directives", ddef(n, ["FIELD"], a), 4) for n in ("d", "skip", "deprecated", "oneOf") for a in ([], [iv("x", N("Z"))])]
                  + [("schemas", block([("query", "Query")]), 5), ("types", ty("object", "__Schema", fields=[fd("f", I)]), 6)], 3, 4, False)
    D = [direc("d"), direc("z"), direc("deprecated"), direc("d", [arg("x", INT(1))])]
    T["applied"] = ([("types", x, 1) for d in D for x in (q(fd("x", I, dirs=[d])), q(fd("x", I, [iv("a", I, dirs=[d])])), dict(q(fd("x", I)), dirs=[d, d]))]
                    + [("types", x, 2) for d in D for x in (ty("scalar", "S", dirs=[d]), ty("enum", "E", values=[val("A", dirs=[d])], dirs=[d]), ty("input", "In", fields=[iv("f", I, dirs=[d])]), ty("input", "In", fields=[iv("f", I)], dirs=[d]),
                                                              ty("interface", "I", fields=[fd("f", I, [iv("a", I)], dirs=[d])], dirs=[d]), ty("union", "U", members=["Query"], dirs=[d]))]
                    + [("directives", ddef("d", TS_LOCS, [iv("x", I, dirs=[d])] if d else [iv("x", I)]), 3) for d in D + [None]]
                    + [("schemas", block([("query", "Query")], [d]), 4) for d in D], 4, 4, True)
    return T


def at_place(part, x, place):
    """(tokens, annotated definition) of a definition that starts at line 100 * place + 1"""
    e = Emitter()
    for _ in range(100 * place):
        e.toks.append("")
    a = e.document({"schemas": [], "types": [], "directives": [], part: [x]})
    n = len(e.toks) - 100 * place
    assert n <= 100, x
    return e.toks[100 * place:], strip(a)[part][0]


def model(check, rule, limit):
    """[(text, document, theme)] of SchemaModel"""
    out, tally = [], {}
    r = Rng(check.seed * 37 + len(rule))
    for theme, (items, quick, thorough, strict) in vocabulary(rule).items():
        n = check.size(quick, thorough)
        items = [(p, json.loads(json.dumps(x)), g) for p, x, g in items]
        for p, x, _ in items:
            if p == "types":
                x["ifaces"] = [{"n": i} for i in x["ifaces"]]
                x["members"] = [{"n": i} for i in x["members"]]
        placed = [[at_place(p, x, i) for i in range(n)] for p, x, _ in items]
        t0 = time.time()
        path = os.path.join(core.scratch("model"), "schema.json")
        json.dump({"n": n, "strict": strict, "items": [{"part": p, "group": g, "nodes": [y for _, y in z]} for (p, _, g), z in zip(items, placed)]}, open(path, "w"))
        t = core.tlc("SchemaModel", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\nPROPERTY Monotone" % ("CyclesExact OrderIrrelevant" if rule == "rules" else "OrderIrrelevant Closed"),
                     env={"MODEL": path}, workers=core.CORES, heap="6g")
        if os.environ.get("TIMES"):
            print(theme, t.states, t.transitions, time.time() - t0)
        if t.violation:
            raise core.ToolError("SchemaModel: " + t.violation)
        check.add(t.states, t.transitions, 0)
        fit = sorted((x["e"], x["p"]) for x in t.lines if rule != "rules" or x["e"] == 0)
        picks = [p for _, p in fit]
        if len(picks) > limit:      # half of them build or nearly do
            near = [p for e, p in fit if e < 2]
            near = r.sample(near, min(len(near), limit // 2))
            picks = near + r.sample(picks, limit - len(near))
        tally[theme] = {"definitions": n, "documents": len(t.lines), "that_build": sum(1 for e, _ in fit if e == 0), "replayed": len(picks)}
        for ps in picks:
            toks, d = [], blank_doc()
            for i, k in enumerate(ps):
                toks += [""] * (100 * i - len(toks)) + placed[k - 1][i][0]
                d[items[k - 1][0]].append(placed[k - 1][i][1])
            out.append(("\n".join(toks), d, "model " + theme))
    check.extra["model"] = tally
    return out


def observation(o):
    """the observation in the shape of SchemaTrace.tla"""
    if "panic" in o:
        return {"stage": "panic", "errs": [], "n": -1, "dump": {}, "rules": []}
    errs = [{"k": e["k"], "locs": [l[0] if l[1] == 1 else -l[0] for l in e["locs"]]} for e in o.get("errs", {}).get("errors", [])] if o["stage"] == "build" else []
    return {"stage": o["stage"], "errs": errs, "n": o.get("n", -1), "dump": strip(o.get("dump") or {}), "rules": o.get("rules") or []}


def run(check, rule):
    binary = core.build()
    r = Rng(f"{check.seed}/{rule}/{check.tier}")
    docs = [make(r, rule) for _ in range(check.size(900, 9000))] + model(check, rule, check.size(700, 20000))
    obs = core.observe(binary, [{"op": "schema", "sdl": t, "want": ["dump", "rules"]} for t, _, _ in docs])
    lines, kept, skipped = [], [], 0
    for (t, a, how), o in zip(docs, obs):
        if o.get("stage") == "parse":
            skipped += 1
            continue
        if rule == "rules" and "panic" not in o and o["stage"] != "ok":
            skipped += 1
            continue
        kept.append((t, a, how, o))
        lines.append(dict({"line": len(lines), "doc": a}, **observation(o)))
    if skipped > len(docs) / 2:
        raise core.ToolError("%d of %d documents did not reach the stage under test" % (skipped, len(docs)))
    os.environ["RULE"] = rule
    recs, st, tr = core.trace_check("SchemaTrace", lines)
    check.add(st, tr, len(lines))
    kinds = {}
    for x in recs:
        for e in x["errs"] if rule == "build" else x["facts"]:
            kinds[e["k"]] = kinds.get(e["k"], 0) + 1
        if not x["ok"]:
            t, a, how, o = kept[x["line"]]
            want = x["errs"] if rule == "build" else x["facts"]
            got = observation(o)
            what = ("expected %s, the code gave %s %s" % (json.dumps(want)[:300], got["stage"], json.dumps(got["errs"] if rule == "build" else got["rules"])[:300]))
            check.violation(what, {"op": "schema", "sdl": t, "defect": how, "expected": want, "observed": {k: got[k] for k in ("stage", "errs", "n", "rules")},
                                   "panic": o.get("panic")})
    check.extra["expected_by_kind"] = kinds
    check.extra["documents_skipped"] = skipped
    if kept:
        check.sample({"sdl": kept[0][0].replace("\n", " ")[:600]})
        check.sample({"accepted": sum(1 for x in recs if not x["errs"]), "with_errors": sum(1 for x in recs if x["errs"])})
