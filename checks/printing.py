"""C06, C07: printing. The specification reads the printed text with its own lexical grammar and
pushdown machine: it must denote the tree that was printed; and reading it again must give that tree."""
import json, os
from lib import core, gen, gql, sdl, texts
from checks import parsing
from checks.parsing import conv, pts, nums

PIECES = [" ", "\t", "\n", "\r", "a", "\"", "\"\"\"", "\\", "\u00e9", "  b"]


def value_model(c):
    n = c.size(3, 5)
    path = os.path.join(core.scratch("model"), "values.json")
    json.dump({"pieces": [pts(x) for x in PIECES], "n": n}, open(path, "w"))
    t = core.tlc("PrintModel", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS QuotedReadsBack BlockReadsBack\n", env={"MODEL": path}, workers=core.CORES)
    if t.violation:
        raise core.ToolError("PrintModel: " + t.violation)
    c.add(t.states, t.transitions, 0)
    return ["".join(map(chr, x)) for x in t.lines] + [""]


def quoted(v):
    """any value as a literal: everything but plain letters is escaped"""
    out = ""
    for ch in v:
        if ch.isalnum() and ch < "\x80":
            out += ch
        else:
            for u in ([ord(ch)] if ord(ch) < 0x10000 else [0xd800 + ((ord(ch) - 0x10000) >> 10), 0xdc00 + ((ord(ch) - 0x10000) & 0x3ff)]):
                out += "\\u%04x" % u
    return '"' + out + '"'


def wild(r):
    """a random string value"""
    ps = PIECES + ["\u2028", "\x85", "\0", "\x07", "\U0001F600", "\ufeff", "\n", "\n ", "\n  c", "#", "\"\"", "\\n", "\\\"\"\"", "\n\n", "x y"]
    return "".join(r.choice(ps) for _ in range(r.randint(0, 8)))


class Values(texts.Sound):
    """trees whose strings have any value and whose numbers are hard"""

    def value(self, const, d=2):
        r = self.r
        if r.p(0.25):
            return [quoted(wild(r))]
        if r.p(0.15):
            m = str(r.randint(1, 10 ** r.choice([1, 3, 9, 17, 20])))
            return [("-" if r.p(0.3) else "") + m + r.choice(["", "." + "".join(r.choice("0123456789") for _ in range(r.randint(1, 18)))]) + "e" + str(r.randint(-330, 285))]
        return super().value(const, d)

    def desc(self, p=0.35):
        return [quoted(wild(self.r))] if self.r.p(p) else []


class Documents(Values):
    name = texts.Tree.name
    dirs = texts.Tree.dirs
    type = texts.Tree.type


def line_of(i, case, o, tree, again):
    return {"line": i, "mode": case["mode"], "src": pts(o["text"]), "ruby": False, "nums": nums(o["text"]), "ok": True, "n": o["n"],
            "ast": [conv(tree)], "at": [], "spans": [], "errs": [],
            "again": [{"ok": again is not None, "doc": [conv(again)] if again is not None else [], "stable": bool(o["again"].get("stable"))}]}


def judge(c, cases, lines, obs, what):
    os.environ["RULE"] = "print"
    out, st, tr = core.trace_check("ParseTrace", lines, name=what)
    if len(out) != len(lines):
        raise core.ToolError(f"{what}: {len(out)} verdicts for {len(lines)} lines")
    c.add(st, tr, len(lines))
    for x in [x for x in out if not x["ok"]][:40]:
        k, o = cases[x["line"]], obs[x["line"]]
        c.violation(f"{x['why']}: {k['src'][:200]!r} was printed as {o['text'][:300]!r}", {"case": k["run"], "why": x["why"], "printed": o["text"]})
    for k, o in list(zip(cases, obs))[:3]:
        if "text" in o:
            c.sample({"src": k["src"][:200], "printed": o["text"][:300]})


def run_exec(c):
    r = gen.Rng(c.seed * 49979687 + 7)
    values = value_model(c)
    srcs = []
    for i in range(0, len(values), 6):
        srcs.append("{a(x:[" + " ".join(quoted(v) for v in values[i:i + 6]) + "])}")
    model = len(srcs)
    for _ in range(c.size(2500, 40000)):
        toks = (Documents if r.p(0.7) else texts.Tree)(r, r.choice([0, 1, 2, 3])).executable()
        srcs.append(texts.layout(r, toks))
    cases = [{"mode": "exec", "src": x, "run": {"op": "print", "src": x}} for x in srcs]
    obs = core.observe(core.build(), [k["run"] for k in cases])
    lines, refused = [], 0
    for i, (k, o) in enumerate(zip(cases, obs)):
        if "panic" in o:
            c.violation(f"printing crashed: {o['panic'][:150]} for {k['src'][:200]!r}", {"case": k["run"]})
        elif not o["ok"]:
            refused += 1
        else:
            o["n"] = len(o["doc"]["ops"]) + len(o["doc"]["frags"])
            lines.append(line_of(i, k, o, o["doc"], o["again"]["doc"] if o["again"]["ok"] else None))
    if refused * 2 > len(cases):
        raise core.ToolError("most documents do not parse")
    judge(c, cases, lines, obs, "print-exec")
    c.extra.update(printed=len(lines), from_model=model, refused_by_parser=refused)


def described(v):
    """a schema with the description v in every place that has one"""
    d = quoted(v)
    return (f"{d} schema {{query: Query}} {d} type Query {{ {d} a({d} x: String = {d}): S }} {d} interface I {{ {d} a: Int }} {d} union U = Query "
            f"{d} enum E {{ {d} A {d} B }} {d} input N {{ {d} a: Int {d} b: String = {d} }} {d} scalar S {d} directive @d({d} x: Int) on FIELD")


def run_schema(c):
    r = gen.Rng(c.seed * 67867967 + 13)
    srcs = [described(v) for v in value_model(c)]
    srcs = srcs if c.tier != "quick" else r.sample(srcs, 350)
    model = len(srcs)
    for _ in range(c.size(700, 12000)):
        if r.p(0.6):
            toks = Values(r).system()
        else:
            s = gen.gen_schema(r, size=r.choice([0.4, 0.8]), descs=True, deprecations=r.p(0.5), custom_roots=r.p(0.3) or None)
            e = sdl.Emitter()
            e.document(sdl.document(s))
            toks = e.toks
        srcs.append(texts.layout(r, toks))
    cases = [{"mode": "schema", "src": x, "run": {"op": "schema", "sdl": x, "want": ["dump", "print"]}} for x in srcs]
    obs = core.observe(core.build(), [k["run"] for k in cases])
    lines, refused = [], 0
    for i, (k, o) in enumerate(zip(cases, obs)):
        if "panic" in o:
            c.violation(f"printing crashed: {o['panic'][:150]} for {k['src'][:200]!r}", {"case": k["run"]})
        elif o["stage"] != "ok":
            refused += 1
        else:
            lines.append(line_of(i, k, o, o["dump"], o["again"]["dump"] if o["again"]["stage"] == "ok" else None))
    if refused * 2 > len(cases):
        raise core.ToolError("most schemas do not build")
    judge(c, cases, lines, obs, "print-schema")
    c.extra.update(printed=len(lines), from_model=model, refused_by_parser=refused)
