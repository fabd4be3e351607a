"""C01-C05: parsing. The specification reads the same text with its own lexical grammar and pushdown
machine and judges what the real parser answered."""
import itertools, json, os, re
from concurrent.futures import ThreadPoolExecutor
from lib import core, gql, gen, sdl

NUM = re.compile(r"-?(?:0|[1-9][0-9]*)(?:\.[0-9]+)?(?:[eE][+-]?[0-9]+)?")


def canonical(raw):
    """the text Rust's {:e} gives for the double nearest to a literal"""
    x = float(raw)
    if x in (float("inf"), float("-inf")):
        return "inf"
    return rust_e(x)


def rust_e(x):
    if x == 0:
        return "-0e0" if str(x).startswith("-") else "0e0"
    m, e = ("%s" % repr(x)), 0
    from decimal import Decimal
    d = Decimal(repr(x))
    sign, digits, exp = d.as_tuple()
    digits = list(digits)
    while len(digits) > 1 and digits[-1] == 0:
        digits.pop()
        exp += 1
    e = exp + len(digits) - 1
    s = str(digits[0]) + ("." + "".join(map(str, digits[1:])) if len(digits) > 1 else "")
    return ("-" if sign else "") + s + "e" + str(e)


def nums(src):
    out = {"": "0e0"}
    for i, c in enumerate(src):
        if c in "-0123456789":
            m = NUM.match(src, i)
            if m and any(x in m.group(0) for x in ".eE"):
                out[m.group(0)] = canonical(m.group(0))
    return out


def pts(s):
    return [ord(c) for c in s]


def conv(x):
    """observed trees in the shape of the specification: strings as code points, the rest as text"""
    if isinstance(x, list):
        return [conv(y) for y in x]
    if not isinstance(x, dict):
        return x
    k, id = x.get("k"), x.get("id", 0)
    if k in ("int", "float", "str", "enum", "var", "bool", "null") and "name" not in x:
        if k == "str":
            return {"k": "str", "v": pts(x["s"]), "id": id}
        text = str(x["i"]) if k == "int" else ("true" if x["b"] else "false") if k == "bool" else "null" if k == "null" else canonical(x["s"]) if k == "float" else x["s"]
        return {"k": k, "x": text, "id": id}
    r = {"id": id}
    for n, v in x.items():
        if n == "desc":
            r[n] = [pts(d) for d in v]
        elif n != "res":
            r[n] = conv(v)
    return r


def byte_to_point(src):
    m, b = {}, 0
    for i, c in enumerate(src):
        m[b] = i + 1
        b += len(c.encode("utf8", "surrogatepass"))
    m[b] = len(src) + 1
    return m


def line_of(i, case, o, want_spans):
    src = case["src"]
    t = {"line": i, "mode": case["mode"], "src": pts(src), "ruby": case.get("ruby", False), "nums": nums(src),
         "ok": o["ok"], "n": o.get("n", 0), "ast": [], "at": [], "spans": [],
         "errs": [{"facts": e["facts"], "locs": e["locs"]} for e in o.get("located", [])]}
    if o["ok"]:
        if case["mode"] == "exec":
            t["ast"] = [conv(o["doc"])]
        elif "dump" in o:
            t["ast"] = [conv(o["dump"])]
        if want_spans and o.get("spans"):
            m = byte_to_point(src)
            t["spans"] = [{"k": s["k"], "a": m.get(s["a"], -1), "b": m.get(s["b"], -1)} for s in o["spans"]]
    else:
        es = o["gql"]["errors"]
        t["at"] = es[0]["locs"][0] if es and es[0]["locs"] else []
    return t


def observe(c, cases):
    """runs the cases; type system texts that parse are also built, for their definitions"""
    b = core.build()
    obs = core.observe(b, [dict(op="parse", **k) for k in cases])
    again = [i for i, k in enumerate(cases) if k["mode"] == "schema" and obs[i].get("ok") and not k.get("ruby")]
    for i, o in zip(again, core.observe(b, [{"op": "schema", "sdl": cases[i]["src"], "want": ["dump"]} for i in again])):
        if o.get("stage") == "ok":
            obs[i] = dict(obs[i], dump=o["dump"])
    return obs


def judge(c, cases, obs, rule, what):
    os.environ["RULE"] = rule
    lines = [line_of(i, k, o, rule == "places") for i, (k, o) in enumerate(zip(cases, obs)) if "panic" not in o]
    out, st, tr = core.trace_check("ParseTrace", lines, name=what)
    if len(out) != len(lines):
        raise core.ToolError(f"{what}: {len(out)} verdicts for {len(lines)} lines")
    c.add(st, tr, len(lines))
    bad = []
    for r in out:
        if not r["ok"]:
            k = cases[r["line"]]
            bad.append((r, k))
    return out, bad


def report(c, bad, obs_of=None, limit=40):
    for r, k in bad[:limit]:
        c.violation(f"{k['mode']} {r['why']}: {k['src'][:120]!r} specification {r['exp']} parser {r['got']}",
                    {"case": k, "why": r["why"], "exp": r["exp"], "got": r["got"]})


def panics(c, cases, obs, count):
    """a crash is C01's business; elsewhere the case is left out, and too many make the check say so"""
    n = 0
    for k, o in zip(cases, obs):
        if "panic" in o:
            n += 1
            if count:
                c.violation(f"{k['mode']} panic {o['panic'][:100]}: {k['src'][:120]!r}", {"case": k, "panic": o["panic"]})
    if not count and n * 2 > len(cases):
        raise core.ToolError("most texts crash the parser")


from lib import texts
from checks import validation


def lexical_cases(r, n):
    return [{"mode": "exec", "src": texts.lexical(r), "ruby": r.p(0.06)} for _ in range(n)]


def exec_cases(r, n, bad=0.5, spans=False):
    out = []
    for _ in range(n):
        toks = texts.Tree(r, r.choice([0, 1, 1, 2, 2, 3])).executable()
        if r.p(bad):
            toks = texts.mutate(r, toks, r.choice([1, 1, 1, 2, 3]))
        elif r.p(0.05):
            toks = [r.choice(texts.SOUP) for _ in range(r.randint(0, 6))]
        out.append({"mode": "exec", "src": texts.layout(r, toks), "spans": spans})
    return out


def schema_cases(r, n, bad=0.4, built=0.5):
    out = []
    for _ in range(n):
        whole = r.p(built)
        if whole and r.p(0.6):
            toks = texts.Sound(r).system()
        elif whole:
            s = gen.gen_schema(r, size=r.choice([0.4, 0.7]), descs=True, deprecations=r.p(0.5))
            e = sdl.Emitter()
            e.document(sdl.document(s))
            toks = e.toks
        else:
            toks = texts.Tree(r).system()
        if r.p(bad / 2 if whole else bad):
            toks = texts.mutate(r, toks, r.choice([1, 1, 1, 2, 3]))
        out.append({"mode": "schema", "src": texts.layout(r, toks)})
    return out


# ---------------------------------------------------------------- bounded models
THEMES = {
    "numbers": ("{a(x:[", "])}", ["0", "1", "9", "-", "+", ".", "e", "E", "_", "a", " ", "2147483648", "2147483647"], (3, 5)),
    "strings": ("{a(x:[\"", "\"])}", ["\"", "\\", "u", "{", "}", "D83D", "DE00", "041", "n", "/", "a", "\n", "\u00e9"], (3, 4)),
    "surrogates": ("{a(x:[\"", "\"])}", ["\\uD83D", "\\uDE00", "\\u0041", "\\u{1F600}", "\\u{D83D}", "\\u{00000000041}", "\\u{110000}", "\\n", "x"], (3, 5)),
    "bounds": ("{a(x:[\"", "\"])}", ["\\uD800", "\\uDBFF", "\\uDC00", "\\udfff", "\\uD7FF", "\\uE000", "\\uFFFF", "\\u{10FFFF}", "\\u{D7ff}", "\\u{DFFF}", "\\u{e000}"], (3, 4)),
    "blocks": ("{a(x:[\"\"\"", "\"\"\"])}", ["\"", "\\", "\"\"\"", " ", "\t", "\n", "\r", "  ", "a", "\n  b"], (4, 5)),
    "ignored": ("{a(x:[", "])}", [",", "\ufeff", "#", "\n", "\r", " ", "\t", "$", "b", "1", "\"", "\u00a0", "\0", "\u0661", "@", "&"], (3, 4)),
    "puncts": ("{", "b}", ["a", "...", ".", "on ", "@", ":", "(", ")", "$", "{", "}", "#", "\n", "!", "|", "="], (3, 4)),
}


def lex_model(c, theme, less=0):
    before, after, pieces, n = THEMES[theme]
    n = c.size(*n) - less
    table = {}
    if theme == "numbers":
        for k in range(1, n + 1):
            for t in itertools.product(pieces, repeat=k):
                table.update(nums("".join(t)))
    table[""] = "0e0"
    path = os.path.join(core.scratch("model"), theme + ".json")
    json.dump({"pieces": [pts(x) for x in pieces], "before": pts(before), "after": pts(after), "n": n, "nums": table}, open(path, "w"))
    t = core.tlc("LexModel", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Tiled Values Separable\n", env={"MODEL": path}, workers=2)
    if t.violation:
        raise core.ToolError("LexModel: " + t.violation)
    c.add(t.states, t.transitions, 0)
    return [{"mode": "exec", "src": "".join(map(chr, x))} for x in t.lines]


def lex_models(c, less=0):
    with ThreadPoolExecutor(4) as ex:
        return [k for ks in ex.map(lambda th: lex_model(c, th, less), THEMES) for k in ks]


def grammar_model(c, mode):
    """one text per transition of the pushdown machine"""
    t = core.tlc("GrammarModel", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nCONSTRAINT Bound\nINVARIANTS Productive CanEnd NeverCVar\n",
                 env={"MODE": mode, "HEIGHT": c.size("13" if mode == "exec" else "11", "18")}, workers=1)
    if t.violation:
        raise core.ToolError("GrammarModel: " + t.violation)
    c.add(t.states, t.transitions, 0)
    return [{"mode": mode, "src": x} for x in dict.fromkeys(" ".join(x["toks"]) for x in t.lines)]


def run(c, what):
    r = gen.Rng(c.seed * 7919 + 17)
    if what == "lex":
        cases = lex_models(c)
        model = len(cases)
        cases += lexical_cases(r, c.size(8000, 150000))
    elif what == "exec":
        cases = grammar_model(c, "exec")
        model = len(cases)
        cases += exec_cases(r, c.size(2000, 40000))
    else:
        cases = grammar_model(c, "schema")
        model = len(cases)
        cases += schema_cases(r, c.size(1500, 30000))
    obs = observe(c, cases)
    panics(c, cases, obs, False)
    out, bad = judge(c, cases, obs, "tree", what)
    report(c, bad)
    n = sum(1 for o in obs if o.get("ok"))
    c.extra.update(texts=len(cases), from_model=model, accepted=n, rejected=len(cases) - n, compared_trees=sum(1 for k, o in zip(cases, obs) if o.get("ok") and (k["mode"] == "exec" or "dump" in o)))
    for k in cases[:1] + cases[model:model + 3]:
        c.sample({"src": k["src"][:200]})


def run_places(c):
    r = gen.Rng(c.seed * 104729 + 5)
    cases = exec_cases(r, c.size(1400, 24000), bad=0.4, spans=True) + schema_cases(r, c.size(500, 8000), bad=0.9, built=0.1) + \
        [dict(k, spans=True) for k in lexical_cases(r, c.size(1000, 20000))]
    obs = observe(c, cases)
    panics(c, cases, obs, False)
    out, bad = judge(c, cases, obs, "places", "places")
    report(c, bad)


# ---------------------------------------------------------------- places of validation errors
def error_groups(r, schemas, per):
    out = []
    for _ in range(schemas):
        s = gen.gen_schema(r, subscription=r.p(0.4) or None)
        ds = []
        for _ in range(per):
            rule = r.choice(list(validation.PROFILES))
            prof = dict(validation.BASE, **r.choice(validation.PROFILES[rule]))
            prof["noise"] = max(r.choice(prof["noise"]), 0.01)
            for _ in range(20):
                d = gen.DocGen(r, s, **prof).make()
                if validation.size(d) <= 60:
                    break
            ds.append(texts.layout(r, gen.doc_tokens(d)))
        out.append((s, ds))
    return out


def run_errors(c):
    b = core.build()
    r = gen.Rng(c.seed * 15485863 + 3)
    groups = error_groups(r, *c.size((60, 12), (600, 30)))
    cases, obs = [], []
    for (s, ds), o in zip(groups, core.observe(b, [{"op": "validate", "sdl": gql.sdl(s), "docs": ds, "ast": True, "locs": True} for s, ds in groups])):
        for d, x in zip(ds, o.get("docs", [])):
            if x.get("parse") and "panic" not in x:
                cases.append({"mode": "exec", "src": d, "sdl": gql.sdl(s)})
                obs.append({"ok": True, "doc": gql.number(x["ast"]), "located": x["located"]})
    out, bad = judge(c, cases, obs, "errors", "errors")
    for r_, k in bad[:40]:
        c.violation(f"errors out of place: {r_['got']} in {k['src'][:300]!r}", {"case": {"op": "validate", "sdl": k["sdl"], "docs": [k["src"]], "locs": True}, "got": r_["got"]})
    c.extra.update(validated=len(cases), errors=sum(len(o["located"]) for o in obs))
    kinds = {}
    for o in obs:
        for e in o["located"]:
            for f in e["facts"]:
                kinds[f["k"]] = kinds.get(f["k"], 0) + 1
    c.extra["error_kinds"] = kinds


# ---------------------------------------------------------------- any text at all
ODD = ["\0", "\x01", "\x1f", "\x7f", "\x85", "\u00a0", "\u00e9", "e\u0301", "\u0661", "\u2028", "\u2029", "\u3000", "\u4e2d", "\ufeff", "\ufffd", "\uffff",
       "\U0001f600", "\U0001f468\u200d\U0001f469", "\U0010ffff", "\u202e", "\v", "\f", "\r", "\r\n", "\n", "\t", "\u00b2", "\u0660", "\uff11"]
SHARP = list("!$&()[]{}:=@|.,#\"\\'-+_%/<>?;^~`") + ["...", '"""', '\\"""', "\\u", "\\u{", "\\uD800", "#\n", "0", "00", "1.", "1e", "-", "9" * 30, "1e999", "$ ", "on", "query", "type"]


def stray(r):
    return r.choice(ODD) if r.p(0.35) else r.choice(SHARP) if r.p(0.7) else chr(r.choice([r.randint(0, 127), r.randint(0, 0x2ff), r.randint(0x2000, 0x2fff), r.randint(0xe000, 0x10ffff)]))


def nested(r):
    n = r.randint(1, 200)
    whole = r.p(0.5)
    k = r.randint(0, 6)
    close = n if whole else r.randint(0, n + 1)
    if k == 0:
        return "exec", "{a" * n + "}" * close
    if k == 1:
        return "exec", "{a(x:" + "[" * n + "1" + "]" * close + ")}"
    if k == 2:
        return "exec", "{a(x:" + "{b:" * n + "1" + "}" * close + ")}"
    if k == 3:
        return "exec", "query($v:" + "[" * n + "T" + r.choice(["]", "]!"]) * close + "){a}"
    if k == 4:
        return "exec", "{" + "...on T@d(x:[1]){" * n + "a" + "}" * (close + 1)
    if k == 5:
        return "schema", "type T{a:" + "[" * n + "T" + "]" * close + "}"
    return "schema", "input T{a:Int=" + "[{b:" * n + "1" + "}]" * close + "}"


def any_text(r):
    k = r.random()
    mode = r.choice(["exec", "schema"])
    if k < 0.15:
        return mode, "".join(stray(r) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8, 20, 60])))
    if k < 0.25:
        return nested(r)
    if k < 0.35:
        return mode, texts.lexical(r)
    toks = texts.Tree(r, r.choice([0, 1, 2])).executable() if mode == "exec" else texts.Tree(r).system()
    if r.p(0.3):
        toks = texts.mutate(r, toks, r.choice([1, 2, 4]))
    src = texts.layout(r, toks)
    if r.p(0.3):
        src = src[:r.randint(0, len(src))]
    for _ in range(r.choice([0, 1, 1, 2, 5])):
        i = r.randint(0, len(src))
        j = min(len(src), i + r.choice([0, 0, 1, 2, 10]))
        src = src[:i] + (stray(r) if r.p(0.7) else "") + src[j:]
    return mode, src


def run_outcome(c):
    r = gen.Rng(c.seed * 32452843 + 11)
    cases = []
    for k in lex_models(c, 1):
        cases.append(k)
        cases.append(dict(k, mode="schema"))
    cases += grammar_model(c, "exec") + grammar_model(c, "schema")
    model = len(cases)
    for _ in range(c.size(16000, 300000)):
        mode, src = any_text(r)
        cases.append({"mode": mode, "src": src, "ruby": r.p(0.15)})
    b = core.build()
    obs = core.observe(b, [dict(op="parse", **k) for k in cases], timeout=20)
    lines = []
    for i, (k, o) in enumerate(zip(cases, obs)):
        es = o["gql"]["errors"] if "gql" in o else []
        lines.append({"line": i, "src": pts(k["src"]), "answer": "nothing" if "panic" in o else "document" if o["ok"] else "errors",
                      "errors": o.get("errs", 0), "report": bool(o.get("rendered", False)), "listed": len(es), "places": [p for e in es for p in e["locs"]]})
    out, st, tr = core.trace_check("Outcome", lines, name="outcome")
    if len(out) != len(lines):
        raise core.ToolError(f"outcome: {len(out)} verdicts for {len(lines)} lines")
    c.add(st, tr, len(lines))
    for x in [x for x in out if not x["ok"]][:40]:
        k, o = cases[x["line"]], obs[x["line"]]
        c.violation(f"{k['mode']} {x['why']}: {o.get('panic', '')[:100]} for {k['src'][:120]!r}", {"case": dict(op="parse", **k), "observed": o.get("panic", o.get("gql"))})
    n = sum(1 for o in obs if o.get("ok"))
    c.extra.update(texts=len(cases), from_models=model, documents=n, failures=len(cases) - n)
    for k in cases[model:model + 3]:
        c.sample({"src": k["src"][:200], "mode": k["mode"]})


def run_positions(c):
    run_places(c)
    run_errors(c)
