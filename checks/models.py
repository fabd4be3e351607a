"""Bounded models of documents (spec/DocModel.tla): TLC reaches every document of at most n selections
over a vocabulary and a small schema, checks that the specification agrees with itself on them, and
prints them. Each is then given to the real code and judged as any other document."""
import json, os
from lib import core
from lib.gen import *


def ifield(n, t, **kw):
    return fd(n, t, **kw)


I, S_, B_ = N("Int"), N("String"), N("Boolean")
NODE = [fd("id", N("ID")), fd("n", N("Node")), fd("v", I)]


def clone(x):
    return json.loads(json.dumps(x))


TYPES = [N("Int"), N("Int", True), L(N("Int")), L(N("Int", True)), L(N("Int"), True), L(N("Int", True), True), L(L(N("Int"))), L(L(N("Int", True), True), True),
         N("Float"), N("In"), N("In", True), N("Digits", True), L(N("Count")), N("Shape")]


def small_schema():
    q = [fd("a", I), fd("b", I, [iv("x", I)]), fd("s", S_), fd("r", N("Int", True)), fd("q", N("Query")), fd("n", N("Node")), fd("u", N("U")),
         fd("l", L(N("Query", True))), fd("e", N("E")), fd("c", N("C")), fd("m", N("Sub")),
         fd("g", I, [iv("x", N("Int", True)), iv("y", N("Int", True), INT(3)), iv("z", N("In"))])]
    q += [fd("t%d" % i, I, [iv("x", t), iv("d", t, INT(1) if base(t) in ("Int", "Float") and t["k"] == "N" else OBJ([]) if base(t) == "In" else LIST([]))])
          for i, t in enumerate(TYPES)]
    types = [
        ty("object", "Query", fields=q),
        ty("interface", "Node", fields=clone(NODE)),
        ty("interface", "Sub", ifaces=["Node"], fields=clone(NODE) + [fd("w", I)]),
        ty("object", "A", ifaces=["Node", "Sub"], fields=clone(NODE) + [fd("w", I), fd("x", N("Int", True)), fd("y", I), fd("k", N("A"))]),
        ty("object", "B", ifaces=["Node"], fields=clone(NODE) + [fd("x", I), fd("y", S_), fd("k", N("B"))]),
        ty("object", "C", fields=[fd("v", I), fd("y", I)]),
        ty("union", "U", members=["A", "B"]),
        ty("union", "W", members=["C"]),
        ty("enum", "E", values=[val("RED"), val("BLUE")]),
        ty("input", "In", fields=[iv("a", I), iv("b", N("Int", True), INT(2)), iv("c", L(N("Int", True))), iv("i", N("In"))]),
        ty("input", "One", fields=[iv("a", I), iv("b", S_)], dirs=[direc("oneOf")]),
        ty("scalar", "Digits"), ty("scalar", "Count"), ty("scalar", "Shape"),
        ty("object", "Mutation", fields=[fd("a", I)]),
        ty("object", "Subscription", fields=[fd("a", I), fd("b", I), fd("q", N("Query"))]),
    ]
    dirs = [ddef("once", ["FIELD", "QUERY", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "FRAGMENT_DEFINITION", "VARIABLE_DEFINITION"], [iv("x", I)]),
            ddef("many", ["FIELD", "MUTATION", "SUBSCRIPTION"], [iv("x", N("Int", True), INT(1)), iv("y", L(I))], rep=True),
            ddef("need", ["FIELD"], [iv("x", N("Int", True))]),
            ddef("elsewhere", ["OBJECT", "ARGUMENT_DEFINITION"])]
    return schema(types, mutation="Mutation", subscription="Subscription", directives=dirs)


f = field
SKIP = lambda v: direc("skip", [arg("if", v)])
INCL = lambda v: direc("include", [arg("if", v)])


def leaf(*nodes):
    return [{"open": False, "node": x} for x in nodes]


def opened(*nodes):
    return [{"open": True, "node": x} for x in nodes]


def defs(*nodes, again=False):
    return [{"frag": x["k"] == "frag", "node": x, "again": again} for x in nodes]


def query(name="", **kw):
    return op([], name=name, short=not name and not kw, **kw)


def themes():
    """rule -> [(items, defs, quick n, thorough n, definitions)]"""
    a, b1, b2, bv = f("a"), f("b", args=[arg("x", INT(1))]), f("b", args=[arg("x", INT(2))]), f("b", args=[arg("x", VAR("v"))])
    al = lambda n, x: dict(x, alias=n)
    one = lambda v, **kw: vardef("v", v, **kw)
    T = {}
    T["operations"] = [
        (leaf(a), defs(query(), query("A"), query("B"), op([], op="mutation", name="A"), op([], op="subscription", name="B"), op([], op="mutation"), again=True), 3, 4, 4)]
    T["subscriptions"] = [
        (leaf(a, f("b"), al("x", a), f("__typename"), spr("F"), spr("G")) + opened(inl("", []), inl("Subscription", [])),
         defs(op([], op="subscription", name="S"), frag("F", "Subscription", []), frag("G", "Subscription", [])), 3, 4, 3),
        (leaf(a, al("a", f("b")), al("x", a), dict(a, dirs=[SKIP(VAR("v"))]), f("b"), f("__typename")) + opened(inl("", []), inl("", [], dirs=[INCL(BOOL(True))]), f("q")),
         defs(op([], op="subscription", name="S", vars=[vardef("v", N("Boolean", True))]), query("Q")), 3, 4, 2)]
    T["fields"] = [
        (leaf(a, f("q"), f("nope"), f("__typename"), f("__schema"), f("__type", args=[arg("name", STR("x"))]), f("v"), f("w"), f("x"), f("n"))
         + opened(f("q"), f("n"), f("u"), f("m"), a, inl("A", []), inl("", []), inl("Nope", []), f("nope")),
         defs(query()), 3, 4, 1),
        (leaf(f("v"), f("w"), f("id"), f("x"), f("__typename"), f("__schema")) + opened(f("n"), inl("Sub", []), inl("W", []), inl("C", []), inl("E", []), f("k")),
         defs(frag("F", "Node", []), frag("F", "U", []), frag("F", "A", []), frag("F", "Mutation", []), frag("F", "Subscription", []), frag("F", "In", []), frag("F", "Zzz", [])), 3, 3, 1)]
    T["fragments"] = [
        (leaf(spr("F"), spr("G"), spr("H"), spr("X"), a) + opened(inl("", []), f("q")),
         defs(query(), frag("F", "Query", []), frag("G", "Query", []), frag("H", "Query", [])), 4, 5, 4),
        (leaf(f("__typename"), spr("F")) + opened(*[inl(t, []) for t in ("A", "B", "C", "Node", "Sub", "U", "W", "Query", "E", "In", "Nope", "")]) + opened(f("n"), f("u"), f("m"), f("c")),
         defs(query(), frag("F", "A", []), frag("F", "Sub", []), frag("F", "W", []), frag("F", "Nope", []), frag("F", "In", []), again=True), 3, 4, 2)]
    T["merge"] = [
        (leaf(a, b1, b2, f("b"), bv, al("a", f("b")), al("x", a), al("x", f("s")), al("b", f("r")), spr("F"))
         + opened(f("q"), al("q", f("l")), inl("Query", [])),
         defs(query("Q", vars=[one(I)]), frag("F", "Query", [])), 3, 4, 2),
        (leaf(f("v"), f("x"), al("x", f("y")), al("v", f("x")), al("k", f("v"))) + opened(inl("A", []), inl("B", []), inl("Sub", []), f("k"), f("n")),
         defs(frag("F", "Node", []), frag("F", "U", [])), 4, 5, 1),
        (leaf(spr("F"), spr("G"), f("x"), al("x", f("v"))) + opened(inl("A", []), inl("B", []), f("n")),
         defs(frag("E", "Node", []), frag("F", "Node", []), frag("G", "Sub", [])), 4, 5, 3)]
    vs = [vardef("v", I), vardef("w", N("In"), OBJ([("a", INT(1))])), vardef("o", N("Query")), vardef("z", N("Zzz"))]
    T["variables"] = [
        (leaf(a, bv, f("g", args=[arg("x", INT(1)), arg("z", OBJ([("i", OBJ([("c", LIST([VAR("v")]))]))]))]), spr("F"), spr("G"), dict(a, dirs=[INCL(VAR("v"))]), spr("F", dirs=[SKIP(VAR("w"))]))
         + opened(f("q"), inl("", [], dirs=[SKIP(VAR("v"))]), inl("", [])),
         defs(query("P", vars=[vs[0]]), query("Q", vars=[vs[1]]), query("Q"), frag("F", "Query", []), frag("G", "Query", [])), 3, 4, 3),
        (leaf(bv, f("b", args=[arg("x", VAR("w"))]), dict(a, dirs=[direc("nope", [arg("q", VAR("v"))])]), f("nope", args=[arg("q", VAR("w"))]), f("b", args=[arg("q", LIST([VAR("v")]))])),
         defs(*[query("Q", vars=clone(x)) for x in ([], [vs[0]], [vs[0], vs[0]], [vs[1], vs[0]], [vs[2]], [vs[3], vs[0]], [dict(vs[0], type=L(N("Query"))), vs[1]], [one(N("E"))], [one(N("U"))])],
              query("Q", vars=[vs[0]], dirs=[direc("once", [arg("x", VAR("v"))])]), query("Q", vars=[dict(vs[0], dirs=[direc("once", [arg("x", INT(1))])])])), 2, 3, 1)]
    places = [f("t%d" % i, args=[arg("x", VAR("v"))]) for i in range(len(TYPES))] + [f("t%d" % i, args=[arg("d", VAR("v"))]) for i in range(len(TYPES))] \
        + [f("t%d" % i, args=[arg("x", LIST([VAR("v")]))]) for i in range(2, 8)] + [f("t6", args=[arg("x", LIST([LIST([VAR("v")])]))])] \
        + [f("t9", args=[arg("x", OBJ([(k, VAR("v"))]))]) for k in "abci"] + [f("t9", args=[arg("x", OBJ([("c", LIST([VAR("v")]))]))])] \
        + [dict(a, dirs=[direc("many", [arg("x", VAR("v"))])]), dict(a, dirs=[direc("need", [arg("x", VAR("v"))])]), dict(a, dirs=[direc("many", [arg("y", LIST([VAR("v")]))])]), spr("F")]
    T["usages"] = [
        (leaf(*places), defs(*[query("Q", vars=[one(t, deflt=d)]) for t in TYPES for d in
                               ([None, NULL(), INT(1)] if base(t) in ("Int", "Float") and t["k"] == "N" else [None, NULL(), OBJ([])] if base(t) == "In" else [None, NULL(), LIST([])])]), 1, 1, 1),
        (leaf(bv, f("g", args=[arg("x", VAR("v"))]), f("g", args=[arg("y", VAR("v"))]), f("g", args=[arg("z", OBJ([("b", VAR("v"))]))]), spr("F")) + opened(inl("", []), f("q")),
         defs(query("P", vars=[one(I)]), query("Q", vars=[one(I, deflt=INT(1))]), query("R", vars=[one(N("Int", True))]), frag("F", "Query", [])), 3, 4, 3)]
    argv = [[], [arg("x", INT(1))], [arg("x", NULL())], [arg("y", INT(1))], [arg("z", OBJ([]))], [arg("x", INT(1)), arg("x", INT(1))], [arg("x", INT(1)), arg("x", INT(1)), arg("x", INT(2))], [arg("y", INT(1)), arg("x", INT(2))],
            [arg("p", INT(1)), arg("x", INT(2))], [arg("p", INT(1)), arg("p", INT(2))], [arg("y", NULL()), arg("x", VAR("v"))], [arg("X", INT(1))]]
    T["arguments"] = [
        (leaf(*[f(n, args=clone(x)) for n in ("a", "b", "g", "nope") for x in argv])
         + leaf(*[dict(a, dirs=[direc(n, clone(x))]) for n in ("once", "many", "need", "nope", "skip") for x in argv])
         + leaf(*[spr("F", dirs=[direc("once", clone(x))]) for x in argv[:7]]) + opened(f("q"), f("q", args=[arg("x", INT(1))]), inl("", [], dirs=[direc("include", [])]), inl("", [], dirs=[direc("once", [arg("y", INT(1))])])),
         defs(query("Q", vars=[one(I)]), frag("F", "Query", []), query("Q", dirs=[direc("once", [arg("y", INT(1))])])), 1, 2, 2)]
    vals = [INT(1), INT(-1), FLT("1.5e0"), STR("x"), ENUM("RED"), ENUM("PINK"), BOOL(True), NULL(), VAR("v"), LIST([]), LIST([INT(1)]), LIST([NULL()]), LIST([LIST([INT(1)])]), LIST([INT(1), STR("x")]), LIST([LIST([STR("x"), NULL()])]),
            OBJ([]), OBJ([("a", INT(1))]), OBJ([("b", NULL())]), OBJ([("a", INT(1)), ("a", INT(2))]), OBJ([("a", INT(1)), ("a", INT(2)), ("a", NULL())]), OBJ([("a", INT(1)), ("b", INT(1)), ("b", INT(2)), ("a", INT(2))]), OBJ([("q", INT(1))]), OBJ([("c", LIST([NULL(), STR("x")]))]), OBJ([("i", OBJ([("b", NULL()), ("q", LIST([]))]))]), OBJ([("i", STR("x"))]), OBJ([("c", VAR("v"))])]
    T["values"] = [
        (leaf(*[f("t%d" % i, args=[arg(k, clone(v))]) for i in range(len(TYPES)) for v in vals for k in "x"], *[f("t%d" % i, args=[arg("d", NULL())]) for i in range(len(TYPES))],
              *[dict(a, dirs=[direc(n, [arg("x", clone(v))])]) for n in ("once", "many") for v in vals]) + opened(f("q", args=[])),
         defs(query("Q", vars=[one(I)]), frag("F", "Query", [])), 1, 2, 1),
        (leaf(a), defs(*[query("Q", vars=[one(t, deflt=v)]) for t in TYPES + [N("E"), N("One"), N("Query"), L(N("U"))] for v in vals if v["k"] != "var"],
                       *[query("Q", vars=[one(N("One"), deflt=v)]) for v in (OBJ([("a", INT(1)), ("b", STR("x"))]), OBJ([("a", NULL())]), OBJ([("a", VAR("w"))]), OBJ([("b", INT(1))]))]), 1, 1, 1)]
    dl = [[], [direc("once")], [direc("many")], [direc("once"), direc("once")], [direc("once"), direc("once"), direc("once")], [direc("many"), direc("many")], [direc("many"), direc("once"), direc("many"), direc("once")], [direc("nope")], [direc("nope"), direc("nope")], [direc("nope"), direc("nope"), direc("nope")],
          [direc("elsewhere")], [direc("elsewhere"), direc("elsewhere")], [SKIP(BOOL(True)), INCL(BOOL(True))], [SKIP(BOOL(True)), SKIP(BOOL(False))], [direc("deprecated")], [direc("need", [arg("x", INT(1))])]]
    D = lambda x, d: dict(clone(x), dirs=clone(d))
    T["directives"] = [
        (leaf(*[D(a, d) for d in dl], *[D(spr("F"), d) for d in dl[1:]]) + opened(*[D(inl("", []), d) for d in dl], *[D(f("q"), d) for d in dl[1:9]]),
         defs(query("Q"), frag("F", "Query", [])), 2, 3, 2),
        (leaf(a), defs(*[dict(op([], op=o, name="O"), dirs=clone(d)) for o in ("query", "mutation", "subscription") for d in dl[1:]], *[D(frag("F", "Query", []), d) for d in dl[1:]],
                       *[query("V", vars=[dict(vardef("v", I), dirs=clone(d))]) for d in dl[1:]]), 2, 2, 2)]
    return T


INVARIANTS = {"merge": "OrderIrrelevant GroupingIrrelevant", "fields": "GroupingFields", "variables": "GroupingVariables CyclesExact", "fragments": "CyclesExact"}


def documents(c, s, items, definitions, n, cap, invariants="", module="DocModel", record=None, **more):
    path = os.path.join(core.scratch("model"), "docs.json")
    zero = {"id": 0}
    fill = lambda x: {k: (0 if k == "id" else fill(v)) for k, v in x.items()} if isinstance(x, dict) else [fill(v) for v in x] if isinstance(x, list) else x
    nodes = number({"ops": [x["node"] for x in definitions if not x["frag"]] + [op([x["node"] for x in items])], "frags": [x["node"] for x in definitions if x["frag"]]})
    nodes = fill(nodes)
    ops, frags, its = iter(nodes["ops"]), iter(nodes["frags"]), iter(nodes["ops"][-1]["sel"])
    ds = [dict(x, node=next(frags if x["frag"] else ops)) for x in definitions]
    its = [dict(x, node=next(its)) for x in items]
    json.dump({"schema": record or tlc_schema(s), **more, "items": its, "defs": ds, "n": n, "cap": cap}, open(path, "w"))
    t = core.tlc(module, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + ("INVARIANTS " + invariants if invariants else ""), env={"MODEL": path}, workers=core.CORES, heap="6g")
    if t.violation:
        raise core.ToolError(module + ": " + t.violation)
    c.add(t.states, t.transitions, 0)
    return t.lines


def groups(c, rule, limit, less=0):
    """[(schema, [(doc, text)])] for a rule: every document of its models, or `limit` of them chosen by the seed"""
    s = small_schema()
    r = Rng(c.seed * 31 + len(rule))
    out, seen = [], {}
    for i, (items, ds, quick, thorough, cap) in enumerate(themes()[rule]):
        n = max(1, c.size(quick, thorough) - less)
        docs = documents(c, s, items, ds, n, cap, INVARIANTS.get(rule, ""))
        seen["model_%s_%d" % (rule, i)] = {"selections": n, "documents": len(docs), "replayed": min(len(docs), limit)}
        if len(docs) > limit:
            docs = r.sample(docs, limit)
        for k in range(0, len(docs), 40):
            out.append((s, [(d, doc_text(d)) for d in docs[k:k + 40]]))
    c.extra.update(seen)
    return out


def references(c, limit):
    """[(schema, [(doc, text)])]: operations and fragments that spread one another in every shape (chains, diamonds,
    cycles; operations sharing some fragments and not others), written in any order, using variables here and there"""
    s = small_schema()
    r = Rng(c.seed * 53 + 7)
    docs = []
    uses = [lambda v: f("b", args=[arg("x", VAR(v))]), lambda v: dict(f("a"), dirs=[INCL(VAR(v))]), lambda v: f("g", args=[arg("x", INT(1)), arg("z", OBJ([("a", VAR(v))]))]),
            lambda v: f("t2", args=[arg("x", VAR(v))]), lambda v: dict(f("a"), dirs=[direc("many", [arg("y", LIST([VAR(v)]))])])]
    for _ in range(limit):
        names = ["F", "G", "H", "I", "J"][:r.randint(2, 5)]
        r.shuffle(names)
        cyclic = r.p(0.15)
        density = r.choice([0.3, 0.5, 0.8])
        vs = ["v", "w"][:r.randint(1, 2)]

        def body(later, use):
            sel = [spr(x) for x in later if r.p(density)]
            if r.p(use) or not sel:
                sel.append(clone(r.choice(uses)(r.choice(vs))) if r.p(0.8) else f("a"))
            r.shuffle(sel)
            return [inl("Query", sel)] if r.p(0.1) else [f("q", sel=sel)] if r.p(0.1) else sel
        frags = [frag(x, "Query", body(names if cyclic else names[i + 1:], 0.35)) for i, x in enumerate(names)]
        ops = []
        for x in ["P", "Q", "R"][:r.randint(1, 3)]:
            kinds = [I, N("Int", True), N("Boolean", True), S_, L(I), None]
            declared = [(v, t) for v in vs for t in [r.choice(kinds)] if t]
            o = query(x, vars=[vardef(v, clone(t), deflt=INT(1) if t is I and r.p(0.2) else None) for v, t in declared])
            o["sel"] = body(names, 0.2)
            ops.append(o)
        r.shuffle(frags)
        d = {"ops": ops, "frags": frags}
        docs.append((d, doc_text(d)))
    return [(s, docs[k:k + 40]) for k in range(0, len(docs), 40)]
