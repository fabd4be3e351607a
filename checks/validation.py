"""C10-C18: document validation. Documents are generated over generated schemas, validated by the
real validator, and the facts it reports are checked, document by document, by the trace
specification (spec/ValidationTrace.tla over spec/Validation.tla)."""
from lib import core
from lib.gen import *
from checks import models

KINDS = {
    "operations": ["DuplicateOperation", "LoneAnonymous", "OperationType"],
    "subscriptions": ["SubscriptionRoot"],
    "fields": ["UnknownField", "LeafSelection", "NoSelection"],
    "arguments": ["UnknownArgument", "DuplicateArgument", "MissingArgument"],
    "fragments": ["DuplicateFragment", "UnknownTypeCondition", "NotComposite", "UnusedFragment", "UnknownFragment",
                  "FragmentCycle", "ImpossibleSpread"],
    "directives": ["UnknownDirective", "DirectiveLocation", "DuplicateDirective"],
    "variables": ["DuplicateVariable", "VariableNotInput", "UndefinedVariable", "UnusedVariable"],
    "usages": ["VariableUsage"],
    "merge": ["MergeTypes", "MergeNames", "MergeArgs", "MergeKey"],
}

# how documents are shaped for each rule: (generator options, schema options)
BASE = dict(noise=(0, 0.005, 0.02, 0.06))
PROFILES = {
    "operations": [dict(ops=4, depth=1, width=1, frags=1, names_dup=0.2, noise=(0, 0.05, 0.2), alias=0.05, p_dir=0.02, merge=0)],
    "subscriptions": [dict(ops=2, depth=2, width=2, frags=3, p_frag=0.4, p_inl=0.3, noise=(0, 0.01), alias=0.4, merge=0.3, p_dir=0.05)],
    "fields": [dict(), dict(depth=4, alias=0.1, merge=0.05, noise=(0.0, 0.01, 0.03, 0.1))],
    "arguments": [dict(merge=0.05, noise=(0.0, 0.01, 0.03, 0.1), p_dir=0.25)],
    "fragments": [dict(frags=5, p_frag=0.35, p_inl=0.3, noise=(0, 0.01, 0.04, 0.15), merge=0.05, p_dir=0.05, names_dup=0.01)],
    "values": [dict(merge=0.02, value_noise=0.04, noise=(0, 0.02), p_arg=0.8, p_dir=0.15),
               dict(merge=0.02, value_noise=0.15, noise=(0,), p_arg=0.9, p_var=0.15, p_dir=0.3)],
    "directives": [dict(p_dir=0.5, noise=(0, 0.03, 0.1), merge=0.02, width=2)],
    "variables": [dict(p_var=0.6, frags=5, p_frag=0.35, noise=(0, 0.01, 0.05), merge=0.02, ops=3, names_dup=0.01, p_dir=0.25)],
    "usages": [dict(p_var=0.6, frags=4, p_frag=0.3, noise=(0, 0.02), merge=0.02, ops=2, names_dup=0.0, p_dir=0.3, p_arg=0.85)],
    "merge": [dict(noise=(0, 0.01), alias=0.15, merge=0.35, width=3, depth=3, names_dup=0, p_dir=0.03, value_noise=0.01),
              dict(noise=(0,), alias=0.03, merge=0.5, width=4, depth=3, frags=4, p_frag=0.3, p_inl=0.3, names_dup=0, p_dir=0, value_noise=0)],
}


def plain(d):
    """the document without node identities (merging is about what is selected, not where)"""
    d = number(d)

    def go(x):
        if isinstance(x, dict):
            return {k: 0 if k == "id" else go(v) for k, v in x.items()}
        return [go(v) for v in x] if isinstance(x, list) else x
    return go(d)


def kinds_for(rule, e):
    return e["k"].startswith("Value") if rule == "values" else e["k"] in KINDS[rule]


def gen_docs(r, rule, schemas, per):
    """[(schema, [(doc, text)])]"""
    out = []
    for _ in range(schemas):
        s = gen_schema(r, subscription=True if rule == "subscriptions" else None)
        ds = []
        for _ in range(per):
            prof = dict(BASE, **r.choice(PROFILES[rule]))
            prof["noise"] = r.choice(prof["noise"])
            for _ in range(20):
                d = DocGen(r, s, **prof).make()
                if size(d) <= 160:
                    break
            ds.append((d, layout(r, doc_tokens(d), wild=r.p(0.3))))
        out.append((s, ds))
    return out


def size(d):
    def go(ss):
        return sum(1 + len(s.get("args", [])) + len(s["dirs"]) + go(s.get("sel", [])) for s in ss)
    return sum(go(x["sel"]) for x in d["ops"] + d["frags"])


def run(c, rule):
    binary = core.build()
    for one in [rule] if isinstance(rule, str) else rule:
        r = Rng(c.seed * 7919 + hash_name(one))
        schemas, per = c.size((128, 20), (1280, 40))
        if one != rule:
            schemas = schemas * 3 // 4
        judge(c, binary, one, models.groups(c, one, c.size(2400, 60000)), one + "_model")
        if one in ("variables", "usages", "fragments"):
            judge(c, binary, one, models.references(c, c.size(1200, 12000)), one + "_references")
        judge(c, binary, one, gen_docs(r, one, schemas, per))


def hash_name(s):
    h = 0
    for ch in s:
        h = (h * 131 + ord(ch)) % 1000003
    return h


def judge(c, binary, rule, groups, tag=None):
    tag = tag or rule
    cases = [{"op": "validate", "sdl": sdl(s), "docs": [t for _, t in ds], "ast": True} for s, ds in groups]
    obs = core.observe(binary, cases)
    lines = []
    skipped = total = 0
    for (s, ds), case, o in zip(groups, cases, obs):
        if "docs" not in o:
            skipped += len(ds)
            total += len(ds)
            if "panic" in o:
                c.violation("validation crashed: " + str(o["panic"])[:200], {"case": case})
            continue
        docs = []
        for (d, text), x in zip(ds, o["docs"]):
            total += 1
            if "panic" in x:
                c.violation("validation crashed: " + x["panic"][:200] + "\n" + text,
                            {"case": {"op": "validate", "sdl": case["sdl"], "docs": [text]}})
                continue
            if not x.get("parse") or x["ast"] != strip(d):
                skipped += 1      # the parser's business (C03), not the validator's
                continue
            docs.append({"doc": plain(d) if rule == "merge" else number(d), "got": [e for e in x["errs"] if kinds_for(rule, e)], "text": text})
        lines.append({"line": len(lines), "schema": tlc_schema(s), "docs": docs, "sdl": case["sdl"]})
    if skipped * 2 > total:
        raise core.ToolError("most cases could not be set up (schema build or parse does not work)")
    bad, st, tr = check_lines(rule, lines)
    stats = {"clean": 0, "facts": 0, "skipped": 0}
    n = 0
    for b in bad:
        for k in stats:
            stats[k] += b[k]
        for x in b["bad"]:
            ln = lines[b["line"]]
            d = ln["docs"][x["doc"] - 1]
            want = sorted(x["want"], key=str)
            c.violation(f"{rule}: reported {sorted(d['got'], key=str)} but the specification says {want}\n    for {d['text']!r}",
                        {"case": {"op": "validate", "sdl": ln["sdl"], "docs": [d["text"]]}, "got": d["got"], "want": want})
    for ln in lines[:1]:
        for d in ln["docs"][:2]:
            c.sample({"sdl": ln["sdl"], "document": d["text"], "facts": d["got"]})
    judged = stats["clean"] + stats["facts"] + sum(len(b["bad"]) for b in bad)
    c.add(st, tr, judged)
    c.extra[tag + "_documents"] = dict(stats, unparsed=skipped)


def check_lines(rule, lines):
    import os
    os.environ["RULE"] = rule
    slim = [{"line": l["line"], "schema": l["schema"], "docs": [{"doc": d["doc"], "got": d["got"]} for d in l["docs"]]}
            for l in lines]
    return core.trace_check("ValidationTrace", slim)
