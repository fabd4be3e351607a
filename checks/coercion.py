"""C20 and C21: input coercion and request variables (spec/Coercion*.tla)."""
import os
from lib import core
from lib.gen import *


def jval(j):
    """a JSON value as the specification sees it"""
    if j is None:
        return NULL()
    if isinstance(j, bool):
        return BOOL(j)
    if isinstance(j, int):
        return INT(j) if -2**31 <= j < 2**31 else FLT("%se0" % j)
    if isinstance(j, float):
        return FLT(repr(j))
    if isinstance(j, str):
        return STR(j)
    if isinstance(j, list):
        return LIST([jval(x) for x in j])
    return OBJ([(k, jval(x)) for k, x in j.items()])


def to_json(r, v):
    """a JSON value from a generated literal; enum names become strings"""
    k = v["k"]
    if k == "int":
        return v["i"]
    if k == "float":
        return r.choice([1.5, -0.25, 1e10, 3.0, 2**31, -2**31 - 1, 2**53, 0.0])
    if k in ("str", "enum"):
        return v["s"]
    if k == "var":
        return r.choice([1, "x", None])
    if k == "bool":
        return v["b"]
    if k == "null":
        return None
    if k == "list":
        return [to_json(r, x) for x in v["l"]]
    return {e["n"]: to_json(r, e["v"]) for e in v["o"]}


def noid(v):
    """values carry no identity here (records of values have k; other keys named id are names)"""
    if isinstance(v, dict):
        value = "k" in v and isinstance(v["k"], str) and v["k"] not in ("N", "L")
        out = {k: noid(x) for k, x in v.items() if not (value and k == "id")}
        if value:
            out["id"] = 0
        return out
    return [noid(x) for x in v] if isinstance(v, list) else v


def model_schema():
    t = lambda k, n, **kw: ty(k, n, **kw)
    return schema([t("enum", "E0", values=[val("RED"), val("GREEN")]), t("scalar", "Digits"), t("scalar", "Shape"),
                   t("input", "In", fields=[iv("a", N("Int", True)), iv("b", L(N("E0", True)), LIST([ENUM("RED")]))]),
                   t("input", "One", fields=[iv("a", N("Digits")), iv("b", N("In"))], dirs=[direc("oneOf")]),
                   t("object", "Query", fields=[fd("q", N("Int"))])])


def with_carrier(s, types):
    """schema s with an input object Carrier whose fields have the given types"""
    s = json.loads(json.dumps(s))
    s["types"].append(ty("input", "Carrier", fields=[iv("f%d" % i, nullable(t) if False else t) for i, t in enumerate(types)]))
    return s


def model(c, binary):
    """behaviours of the model, replayed"""
    s = model_schema()
    d = core.scratch("coercion")
    path = os.path.join(d, "schema.ndjson")
    json.dump(noid(tlc_schema(s)), open(path, "w"))
    mt, mv = c.size((2, 2), (3, 3))
    r = core.tlc("CoercionModel", f"SPECIFICATION Spec\nCONSTANTS MaxT = {mt} MaxV = {mv}\n"
                 "INVARIANTS DefectsComplete ResultConforms NonNullMonotone Emit\nCHECK_DEADLOCK FALSE\n",
                 env={"SCHEMA": path}, workers=core.CORES, heap="8g")
    if r.violation:
        raise core.ToolError("the specification of coercion is inconsistent: " + r.text[-2500:])
    types = []
    index = {}
    cases = []
    seen = set()
    for x in r.lines:
        key = json.dumps([x["t"], x["v"]], sort_keys=True)
        if key in seen:
            continue
        seen.add(key)
        tk = json.dumps(x["t"], sort_keys=True)
        if tk not in index:
            index[tk] = len(types)
            types.append(x["t"])
        cases.append((index[tk], x))
    text = sdl(with_carrier(s, types))
    chunks = [cases[i:i + 2000] for i in range(0, len(cases), 2000)]
    obs = core.observe(binary, [{"op": "coerce", "sdl": text, "cases": [
        {"field": "f%d" % i, "lit": " ".join(tokens_value(x["v"]))} for i, x in ch]} for ch in chunks])
    n = 0
    for ch, o in zip(chunks, obs):
        if "cases" not in o:
            raise core.ToolError("the model's schema does not build: " + str(o)[:500])
        for (i, x), g in zip(ch, o["cases"]):
            lit = " ".join(tokens_value(x["v"]))
            case = {"op": "coerce", "sdl": sdl(with_carrier(s, [types[i]])), "cases": [{"field": "f0", "lit": lit}]}
            if "panic" in g:
                c.violation(f"coercing {lit} to {show(types[i])} crashed: {g['panic'][:200]}", {"case": case})
                continue
            if "lit" not in g:
                continue
            n += 1
            want = canon(x["want"])
            for which in ("lit", "clit"):
                if which in g and canon(g[which]) != want:
                    c.violation(f"coercing {lit} to {show(types[i])}: reported {canon(g[which])}, the specification says {want}",
                                {"case": case, "want": want})
                    break
    if n * 2 < len(cases):
        raise core.ToolError("most literals of the model do not parse")
    c.add(r.states, r.transitions, n)
    c.extra["model_cases_replayed"] = n


def canon(facts):
    return sorted(list(x) for x in {(f["k"], f["x"], f["path"]) for f in facts})


def run(c):
    binary = core.build()
    model(c, binary)
    r = Rng(c.seed * 104729 + 20)
    groups = []
    for _ in range(c.size(64, 1500)):
        s = gen_schema(r)
        inputs = BUILTIN_SCALARS + [t["name"] for t in s["types"] if t["k"] in ("enum", "scalar", "input")]
        types = []
        for _ in range(14):
            t = N(r.choice(inputs + [x for x in inputs if x.startswith("In")] * 2), r.p(0.4))
            while r.p(0.4) and show(t).count("[") < 4:
                t = L(t, r.p(0.4))
            types.append(t)
        cs = []
        for i, t in enumerate(types):
            for _ in range(6):
                noise = r.choice([0, 0.05, 0.2])
                var = (lambda t: VAR("v") if r.p(0.1) else None) if r.p(0.3) else None
                v = const_value(r, s, t, noise, r.choice([2, 3, 4]), var)
                if r.p(0.4):
                    cs.append((i, "json", to_json(r, v)))
                else:
                    cs.append((i, "lit", v))
        groups.append((s, types, cs))
    cases = [{"op": "coerce", "sdl": sdl(with_carrier(s, types)), "cases": [
        {"field": "f%d" % i, "json": v} if m == "json" else {"field": "f%d" % i, "lit": layout(r, tokens_value(v), False)} for i, m, v in cs]}
        for s, types, cs in groups]
    obs = core.observe(binary, cases)
    lines, back = [], []
    total = skipped = 0
    for (s, types, cs), case, o in zip(groups, cases, obs):
        total += len(cs)
        if "cases" not in o:
            skipped += len(cs)
            continue
        out, bk = [], []
        for (i, m, v), g, q in zip(cs, o["cases"], case["cases"]):
            one = {"op": "coerce", "sdl": case["sdl"], "cases": [q]}
            if "panic" in g:
                c.violation(f"coercion crashed: {g['panic'][:200]}", {"case": one})
                continue
            for which in ("lit", "clit", "json"):
                if which in g:
                    out.append({"type": types[i], "v": noid(jval(v) if m == "json" else v), "mode": m,
                                "path": "v" if m == "json" else "", "got": g[which]})
                    bk.append((one, g[which], f"{q.get('lit', json.dumps(q.get('json')))} as {show(types[i])} ({which})"))
            if not any(w in g for w in ("lit", "clit", "json")):
                skipped += 1
        lines.append({"line": len(lines), "schema": noid(tlc_schema(s)), "cases": out})
        back.append(bk)
    if skipped * 2 > total:
        raise core.ToolError("most cases could not be set up")
    finish(c, "coerce", lines, back, "coercion of ")


def finish(c, rule, lines, back, what):
    os.environ["RULE"] = rule
    bad, st, tr = core.trace_check("CoercionTrace", lines)
    clean = facts = nbad = 0
    for b in bad:
        clean += b["clean"]
        facts += b["facts"]
        nbad += len(b["bad"])
        for x in b["bad"]:
            case, got, text = back[b["line"]][x["case"] - 1]
            c.violation(f"{what}{text}: reported {got}, the specification says {x['want']}", {"case": case, "got": got, "want": x["want"]})
    for bk in back[:2]:
        for case, got, text in bk[:2]:
            c.sample({"case": text, "reported": got})
    c.add(st, tr, clean + facts + nbad)
    c.extra["random_cases"] = {"accepted": clean, "with_defects": facts, "skipped": 0}


# ------------------------------------------------------------------ C21
def run_vars(c):
    binary = core.build()
    r = Rng(c.seed * 104729 + 21)
    groups = []
    for _ in range(c.size(220, 3000)):
        s = gen_schema(r)
        inputs = BUILTIN_SCALARS + [t["name"] for t in s["types"] if t["k"] in ("enum", "scalar", "input")]
        out = []
        for _ in range(20):
            ops = []
            for k in range(r.choice([1, 1, 1, 2, 3])):
                vs = []
                for j in range(r.randint(0, 4) if r.p(0.85) else r.randint(5, 9)):
                    t = N(r.choice(inputs) if not r.p(0.04) else r.choice(["Nope", s["query"], "__Type"]), r.p(0.4))
                    while r.p(0.3):
                        t = L(t, r.p(0.4))
                    d = const_value(r, s, t, 0.05, 2) if r.p(0.3) and base(t) in inputs else None
                    vs.append(vardef("v%d" % j if r.p(0.9) else "w%d" % j, t, d))
                vs = list({v["name"]: v for v in vs}.values())
                ops.append(op([field("__typename")], "query", "Q%d" % k if len(ops) or r.p(0.7) else "", vs))
            if len(ops) > 1:
                for k, o in enumerate(ops):
                    o["name"] = "Q%d" % k
            sel = r.choice(ops)
            noise = r.choice([0, 0, 0.1, 0.3, 0.8])
            given = {}
            for v in sel["vars"]:
                if r.p(0.75):
                    if base(v["type"]) in inputs:
                        given[v["name"]] = to_json(r, const_value(r, s, v["type"], noise, 3))
                    else:
                        given[v["name"]] = to_json(r, raw_value(r))
                    if r.p(0.06):
                        given[v["name"]] = None
            if r.p(0.15):
                given[r.choice(["v0", "v1", "v9", "V0", ""])] = to_json(r, raw_value(r))
            if len(ops) > 1 and r.p(0.2):
                for v in r.choice(ops)["vars"]:
                    given.setdefault(v["name"], to_json(r, raw_value(r)))
            out.append((ops, sel, given))
        groups.append((s, out))
    cases = [{"op": "analyze", "sdl": sdl(s), "cases": [
        {"src": doc_text({"ops": ops, "frags": []}), "name": sel["name"] or None, "vars": given, "want": ["vars"]}
        for ops, sel, given in out]} for s, out in groups]
    obs = core.observe(binary, cases)
    lines, back = [], []
    total = skipped = 0
    for (s, out), case, o in zip(groups, cases, obs):
        total += len(out)
        if "cases" not in o:
            skipped += len(out)
            continue
        cs, bk = [], []
        for (ops, sel, given), q, g in zip(out, case["cases"], o["cases"]):
            one = {"op": "analyze", "sdl": case["sdl"], "cases": [q]}
            text = q["src"] + " with " + json.dumps(given)
            if "panic" in g or "panic" in g.get("vars", {}):
                c.violation("checking variable values crashed: " + text, {"case": one})
                continue
            if not g.get("parse"):
                skipped += 1
                continue
            if not g["vars"]["ok"]:
                c.violation("the operation was not found: " + text, {"case": one})
                continue
            cs.append({"defs": [{"name": v["name"], "type": v["type"], "def": noid(v["def"])} for v in sel["vars"]],
                       "given": {k: noid(jval(x)) for k, x in given.items()}, "got": g["vars"]["v"]})
            bk.append((one, g["vars"]["v"], text))
        lines.append({"line": len(lines), "schema": noid(tlc_schema(s)), "cases": cs})
        back.append(bk)
    if skipped * 2 > total:
        raise core.ToolError("most cases could not be set up")
    finish(c, "vars", lines, back, "variable values of ")
