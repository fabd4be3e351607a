"""C27 and C28: filtered schemas (spec/Visibility*.tla)."""
import os
from lib import core
from lib.gen import *
from lib.sdl import *
from checks.compare import MDIRS, holders, rdirs, copy, DESCS

HIDE = ddef("hide", ["FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INPUT_FIELD_DEFINITION", "ENUM_VALUE"])
NOTHING = {"types": [], "members": [], "impls": [], "directives": []}


def filtered_schema(r, plainly=False):
    """(schema, document, hide): plainly = nothing hidden"""
    s = gen_schema(r, deprecations=r.p(0.3))
    s["directives"] += copy(MDIRS) + [copy(HIDE)]
    s["directives"].append(ddef("only", TS_LOCS, [iv("x", N("Lonely"))]))
    s["types"].append(r.choice([ty("scalar", "Lonely"), ty("enum", "Lonely", values=[val("A"), val("B")]), ty("input", "Lonely", fields=[iv("a", N("Int"))])]))
    s["types"] += r.some([ty("object", "Far", fields=[fd("x", N("Farther")), fd("y", N("Int"))]), ty("enum", "Farther", values=[val("A"), val("B")]),
                          ty("union", "Group", members=["Far"] if r.p(0.5) else [t["name"] for t in s["types"] if t["k"] == "object"][:2])], 0, 3)
    names = {t["name"] for t in s["types"]}
    for t in s["types"]:
        t["members"] = [m for m in t["members"] if m in names]
        for f in t["fields"]:
            if base(f["type"]) not in names | set(BUILTIN_SCALARS):
                f["type"] = N("Int")
    s["types"] = [t for t in s["types"] if t["k"] != "union" or t["members"]]
    if r.p(0.5):
        s["dirs"] = rdirs(r, 0.7)
    if r.p(0.3):
        s["desc"] = [r.choice(DESCS)]
    for h, k in holders(s):
        if r.p(0.1):
            h["desc"] = [r.choice(DESCS)]
        if k != "ddef" and r.p(0.3):
            h["dirs"] = h["dirs"] + rdirs(r)
    if r.p(0.4):
        k, e = "", None
        if r.p(0.3):
            e = s
        else:
            hs = [x for x in holders(s) if x[1] != "ddef"]
            e = r.choice(hs)[0]
        e["dirs"] = e["dirs"] + [direc("only")]
    ins = [t["name"] for t in s["types"] if t["k"] in ("enum", "scalar", "input")] + BUILTIN_SCALARS
    s["types"].append(ty("input", "Carrier", fields=[iv("f%d" % i, r.choice([N(n), N(n, True), L(N(n)), L(N(n, True))])) for i, n in enumerate(r.some(ins, 4, 7))]))
    hide = copy(NOTHING)
    doubles = []
    if not plainly:
        heavy = r.p(0.3)
        roots = {s["query"], s["mutation"], s["subscription"]}
        soft = [t["name"] for t in s["types"] if t["name"] not in (s["query"], "Carrier")]
        hide["types"] = r.some(soft, 0, 4 if heavy else 1)
        if r.p(0.02):
            hide["types"].append(s["query"])
        hide["directives"] = r.some([d["name"] for d in s["directives"]], 0, 2 if heavy else 1)
        hide["members"] = r.some([t["name"] for t in s["types"] if t["k"] == "object"], 0, 1 if r.p(0.6) else 0)
        hide["impls"] = r.some([t["name"] for t in s["types"] if t["k"] == "interface"], 0, 1 if r.p(0.6) else 0)
        for t in s["types"]:
            many = t["fields"] + t["values"]
            if t["name"] == "Carrier" or len(many) < 2:
                continue
            for x in r.some(many, 0, 2 if heavy else 1) if r.p(0.4) else []:
                x["dirs"] = x["dirs"] + [direc("hide")]
            for f in t["fields"]:
                for a in f.get("args", []):
                    if r.p(0.12):
                        a["dirs"] = a["dirs"] + [direc("hide")]
        for d in s["directives"]:
            for a in d["args"]:
                if r.p(0.1):
                    a["dirs"] = a["dirs"] + [direc("hide")]
        # two definitions of one field, one of which is hidden
        for t in s["types"]:
            if t["k"] in ("object", "interface") and r.p(0.3):
                f = r.choice(t["fields"])
                g = copy(f)
                g["type"] = copy(r.choice([x["type"] for u in s["types"] if u["k"] == "object" for x in u["fields"]]))
                g["args"] = []
                if not any(x["n"] == "hide" for x in f["dirs"]):
                    g["dirs"] = g["dirs"] + [direc("hide")]
                else:
                    g["dirs"] = [x for x in g["dirs"] if x["n"] != "hide"]
                if r.p(0.5):
                    doubles.append((t["name"], t["fields"].index(f), g))
                else:
                    doubles.append((t["name"], r.randint(0, len(t["fields"])), g))
    d = document(s, explicit=True if r.p(0.5) else None)
    for n, i, g in doubles:
        next(t for t in d["types"] if t["name"] == n)["fields"].insert(i, g)
    # what hides fields must be defined; with a hidden @hide the choice still stands
    return s, d, hide


def hollow(d):
    """a type without content cannot be written down"""
    return any((t["k"] in ("object", "interface", "input") and not t["fields"]) or (t["k"] == "enum" and not t["values"]) or
               (t["k"] == "union" and not t["members"]) for t in d["types"])


def text_of(d):
    e = Emitter()
    a = e.document(d)
    return e.text(), strip(a)


def extras(r, s, n):
    docs, cases, analyses = [], [], []
    for _ in range(n):
        g = DocGen(r, s, noise=r.choice([0, 0.02]), value_noise=0.02, names_dup=0)
        d = g.make()
        t = doc_text(d)
        docs.append(t)
        nm = [o["name"] for o in d["ops"] if o["name"]]
        analyses.append({"src": t, "name": r.choice(nm) if nm else None, "vars": {}, "max": r.randint(0, 3), "want": ["depth", "deprecated", "size", "relay"]})
    car = find_type(s, "Carrier")
    for f in car["fields"]:
        for _ in range(2):
            cases.append({"field": f["name"], "lit": " ".join(tokens_value(const_value(r, s, f["type"], 0.1, 3)))})
    return docs, cases, analyses


def run(c):
    binary = core.build()
    r = Rng(f"{c.seed}/visibility/{c.tier}")
    groups = []
    for _ in range(c.size(700, 6000)):
        plainly = r.p(0.12)
        s, d, hide = filtered_schema(r, plainly)
        text, a = text_of(d)
        docs, cases, analyses = extras(r, s, 3)
        names = [t["name"] for t in s["types"]] + ["Nope"]
        req = {"op": "visible", "sdl": text, "hide": hide, "null": plainly, "docs": docs, "cases": cases, "analyze": analyses, "names": names}
        groups.append((a, req))
    obs = core.observe(binary, [q for _, q in groups])
    lines, kept = [], []
    unbuilt = 0
    for (a, q), o in zip(groups, obs):
        if "panic" in o:
            c.violation("reading the filtered schema crashed: " + str(o["panic"])[:300], {"case": q})
            continue
        if "dump" not in o and "hidden" not in o:
            unbuilt += 1
            continue
        if "panic" in o.get("dump", {}):
            c.violation("reading the filtered schema crashed: " + str(o["dump"]["panic"])[:300], {"case": q})
            continue
        names = [{"n": n, "got": [] if g is None else [strip(g)]} for n, g in zip(q["names"], o.get("names", []))]
        lines.append({"line": len(lines), "doc": a, "hide": q["hide"], "hidden": "hidden" in o, "dump": strip(o.get("dump") or {}), "names": names})
        kept.append((a, q, o))
    if unbuilt * 2 > len(groups):
        raise core.ToolError("most schemas do not build")
    recs, st, tr = core.trace_check("VisibilityTrace", lines)
    c.add(st, tr, len(lines))
    recs = {x["line"]: x for x in recs}
    second = []
    for i, (a, q, o) in enumerate(kept):
        x = recs[i]
        if x["wrong"]:
            c.violation("the filtered schema is not the pruned one: " + describe(x, o), {"case": q, "expected": {k: x[k] for k in ("wrong", "types", "directives")}})
            continue
        if not x["query"] or hollow(x["pruned"]):
            continue
        ft, _ = text_of(x["pruned"])
        lt, _ = text_of(x["listed"])
        second.append((i, "full", dict(q, op="plain", sdl=ft)))
        second.append((i, "listed", {"op": "plain", "sdl": lt, "docs": [], "names": []}))
    obs2 = core.observe(binary, [y for _, _, y in second])
    n = 0
    facts = 0
    for (i, which, y), p in zip(second, obs2):
        a, q, o = kept[i]
        if "dump" not in p:
            if "panic" not in p:
                raise core.ToolError("a pruned schema does not build: " + str(p)[:600] + "\n" + y["sdl"].replace("\n", " ")[:3000])
            continue
        n += 1
        for k in (("docs", "coerce", "analyze", "names") if which == "full" else ("text", "rules")):
            got, want = canon(o[k]), canon(p[k])
            if k == "docs":
                facts += sum(len(z.get("errs", [])) for z in o[k])
            if got != want:
                c.violation(f"{k} of the filtered schema differs from that of the schema without the hidden parts: " + first_difference(got, want),
                            {"case": q, "against": y, "part": k})
                break
    if n < len(kept) / 3:
        raise core.ToolError("too few pruned schemas could be compared: %d of %d" % (n, len(kept)))
    c.traces += n
    c.extra.update(compared_with_pruned=n, validation_facts_compared=facts)
    for a, q, o in kept[:2]:
        c.sample({"sdl": q["sdl"].replace("\n", " ")[:500], "hide": q["hide"]})


def canon(x):
    """lists of errors in any order"""
    if isinstance(x, list) and x and all(isinstance(y, dict) and "k" in y for y in x):
        return sorted((canon(y) for y in x), key=lambda y: json.dumps(y, sort_keys=True))
    if isinstance(x, list):
        return [canon(y) for y in x]
    if isinstance(x, dict):
        return {k: canon(v) for k, v in x.items()}
    return x


def first_difference(a, b):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return first_difference(x, y)
    if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
        for k in a:
            if a[k] != b[k]:
                return k + ": " + first_difference(a[k], b[k])
    if isinstance(a, str) and isinstance(b, str) and len(a) > 200:
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return repr(a[max(0, i - 60):i + 60]) + " instead of " + repr(b[max(0, i - 60):i + 60])
    return json.dumps(a)[:300] + " instead of " + json.dumps(b)[:300]


def describe(x, o):
    if "hidden" in o:
        return "it has no query root"
    d = strip(o["dump"])
    want = {t["name"] for t in x["listed"]["types"]}
    got = {t["name"] for t in d["types"]}
    dw, dg = {t["name"] for t in x["listed"]["directives"]}, {t["name"] for t in d["directives"]}
    if got != want:
        return f"types listed too many {sorted(got - want)}, missing {sorted(want - got)}"
    if dg != dw:
        return f"directives listed too many {sorted(dg - dw)}, missing {sorted(dw - dg)}"
    return "wrong: " + ", ".join(x["wrong"])


# ------------------------------------------------------------------ C28
MODEL_HIDE = {"types": ["H"], "members": ["B"], "impls": ["J"], "directives": []}
MODEL_SDL = {"schemas": [], "directives": [HIDE, ddef("d", ["OBJECT", "FIELD_DEFINITION"], [iv("x", N("E"))])], "types": [
    ty("object", "Query", fields=[fd("a", N("A"), dirs=[direc("hide")]), fd("i", N("I"), [iv("e", N("E")), iv("h", N("H"))]), fd("u", N("U")), fd("a", N("B"))]),
    ty("interface", "I", fields=[fd("x", N("Int")), fd("h", N("H"))]),
    ty("interface", "J", fields=[fd("x", N("Int"))]),
    ty("object", "A", ifaces=[{"n": "I"}, {"n": "J"}], fields=[fd("x", N("Int"), dirs=[direc("hide")]), fd("x", N("String")), fd("b", N("B"), dirs=[direc("d")])]),
    ty("object", "B", ifaces=[{"n": "I"}], fields=[fd("x", N("Int")), fd("f", N("Int"), dirs=[direc("hide")])]),
    ty("union", "U", members=[{"n": "A"}, {"n": "B"}, {"n": "F"}]),
    ty("enum", "E", values=[val("X"), val("Y", dirs=[direc("hide")])]),
    ty("scalar", "H"),
    ty("object", "F", fields=[fd("x", N("Int"))], ifaces=[{"n": "I"}]),
    ty("object", "Z", fields=[fd("z", N("Z")), fd("q", N("Query"))], dirs=[direc("d")])]}
MODEL_READS = [["types"], ["dirs"], ["all"], ["print"], ["type", "Query"], ["type", "A"], ["type", "H"], ["type", "Z"], ["impls", "I"], ["impls", "J"],
               ["contains", "A", "x"], ["contains", "Query", "a"], ["contains", "B", "f"], ["fieldget", "A", "x"], ["fieldget", "Query", "i"],
               ["members", "U", "B"], ["dir", "d"], ["query"], ["validate", "{a{x f}i(e:X){x ...on A{b{x}} ...on Z{z{q{a{x}}}}}u{...on B{x}}}"],
               ["validate", "{a @nope{x} __type(name: \"H\"){name} i(h: 1, e: Y){h}}"]]


def run_reads(c):
    """every order of reads of a model schema, and random long histories on random schemas"""
    binary = core.build()
    r = Rng(f"{c.seed}/reads/{c.tier}")
    cases = []
    text, a = text_of(copy(MODEL_SDL))
    cases.append((text, a, MODEL_HIDE, MODEL_READS))
    d = core.scratch("reads")
    path = os.path.join(d, "cases.ndjson")
    with open(path, "w") as h:
        for t, x, hide, reads in cases:
            h.write(json.dumps({"doc": x, "hide": hide, "reads": reads}) + "\n")
    depth = c.size(3, 4)
    m = core.tlc("VisibilityModel", f"SPECIFICATION Spec\nCONSTANT Depth = {depth}\nINVARIANTS StoreSound OrderFree Emit\nCHECK_DEADLOCK FALSE\n",
                 env={"CASES": path}, workers=core.CORES, heap="8g")
    if m.violation:
        raise core.ToolError("the specification of filtered reading is inconsistent: " + m.text[-2500:])
    c.add(m.states, m.transitions)
    hists = {json.dumps(x["h"]): x for x in m.lines}
    plan = [(cases[x["c"] - 1], [k - 1 for k in x["h"]]) for x in hists.values()]
    # random histories
    for _ in range(c.size(260, 2500)):
        s, dd, hide = filtered_schema(r)
        t, x = text_of(dd)
        reads = reads_for(r, s, dd)
        case = (t, x, hide, reads)
        for _ in range(6):
            plan.append((case, [r.randrange(len(reads)) for _ in range(r.randint(4, 40))]))
    by = {}
    for case, h in plan:
        by.setdefault(case[0], (case, []))[1].append(h)
    reqs, meta = [], []
    for case, hs in by.values():
        t, x, hide, reads = case
        reqs.append({"op": "reads", "sdl": t, "hide": hide, "histories": [[q] for q in reads]})
        meta.append((case, None))
        for i in range(0, len(hs), 500):
            part = hs[i:i + 500]
            reqs.append({"op": "reads", "sdl": t, "hide": hide, "histories": [[reads[k] for k in h] for h in part]})
            meta.append((case, part))
    obs = core.observe(binary, reqs)
    fresh = {}
    lines = []
    skipped = 0
    for (case, part), o in zip(meta, obs):
        if part is not None or "histories" not in o:
            continue
        t, x, hide, reads = case
        if any(isinstance(q, dict) and "hidden" in q for q in o["histories"]):
            continue
        fresh[t] = [q[0] for q in o["histories"]]
        shown = [{"r": q, "got": answer(q, g)} for q, g in zip(reads, fresh[t]) if q[0] not in ("print", "validate", "all")]
        lines.append({"line": len(lines), "doc": x, "hide": hide, "reads": shown, "sdl": t})
    recs, st, tr = core.trace_check("ReadsTrace", [{k: v for k, v in l.items() if k != "sdl"} for l in lines])
    c.add(st, tr, len(lines))
    for x in recs:
        if x["wrong"]:
            l = lines[x["line"]]
            bad = [l["reads"][i - 1] for i in x["wrong"]]
            c.violation("a fresh read is not answered as specified: " + json.dumps(bad)[:500],
                        {"case": {"op": "reads", "sdl": l["sdl"], "hide": l["hide"], "histories": [[b["r"]] for b in bad]}})
    n = 0
    for (case, part), o in zip(meta, obs):
        t, x, hide, reads = case
        if "panic" in o:
            c.violation("reading crashed: " + str(o["panic"])[:200], {"case": {"op": "reads", "sdl": t, "hide": hide}})
            continue
        if part is None or t not in fresh:
            continue
        for h, got in zip(part, o["histories"]):
            n += 1
            for j, (k, g) in enumerate(zip(h, got)):
                if g != fresh[t][k]:
                    c.violation("read %s gives another answer after %s: %s" % (reads[k], [reads[q] for q in h[:j]][-4:], first_difference(g, fresh[t][k])),
                                {"case": {"op": "reads", "sdl": t, "hide": hide, "histories": [[reads[q] for q in h[:j + 1]], [reads[k]]]}})
                    break
    c.add(0, 0, n)
    c.extra.update(model_histories=len(hists), model_depth=depth, histories_replayed=n)
    c.sample({"reads": MODEL_READS[:8], "hide": MODEL_HIDE})


def answer(q, g):
    """the observed answer in the vocabulary of ReadsTrace.tla"""
    k = q[0]
    if isinstance(g, dict) and "panic" in g:
        return {"k": "panic"}
    if g is None:
        return {"k": "null"}
    if k in ("types", "dirs", "impls"):
        return {"k": "set", "x": g}
    if k in ("contains",):
        return {"k": "bool", "x": g}
    if k == "members":
        return {"k": "members", "x": g[0], "has": g[1]}
    if k == "roots":
        return {"k": "roots", "x": [z or "" for z in g]}
    return {"k": "def", "x": strip(g)}


def reads_for(r, s, d):
    comp = [t["name"] for t in s["types"] if t["k"] in ("object", "interface")]
    out = [["types"], ["dirs"], ["all"], ["print"], ["query"], ["roots"]]
    names = [t["name"] for t in s["types"]]
    out += [["type", n] for n in r.some(names, 4, 6)] + [["dir", x["name"]] for x in r.some(s["directives"], 2, 3)]
    out += [["impls", t["name"]] for t in s["types"] if t["k"] == "interface"]
    for t in r.some([t for t in d["types"] if t["k"] in ("object", "interface")], 3, 5):
        for f in r.some(t["fields"], 1, 3):
            out += [["contains", t["name"], f["name"]], ["fieldget", t["name"], f["name"]]]
    for t in s["types"]:
        if t["k"] == "union":
            out.append(["members", t["name"], r.choice([u["name"] for u in s["types"] if u["k"] == "object"])])
    for _ in range(2):
        out.append(["validate", doc_text(DocGen(r, s, noise=0.02, names_dup=0).make())])
    return out
