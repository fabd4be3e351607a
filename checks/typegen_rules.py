"""C32: what the type generator accepts (spec/TypegenRules.tla, TypegenRulesModel.tla, TypegenRulesTrace.tla,
TypegenSchemaTrace.tla). Modules with the macro on them are written out and compiled; the errors the macro
gives for each are brought to kinds and judged by the trace specifications."""
import hashlib, json, os, re, subprocess
from lib import core
from lib.gen import *
from lib.sdl import Emitter
from checks import models, schemas, typegen
from checks.typegen import pascal, ident, rust_str, distinct, FRAGS

KINDS = [("fragment spread to be the only selection", "NotAlone"), ("inline fragments on objects", "InlineOnObject"),
         ("inline fragments on interfaces", "InlineOnInterface"), ("field selections directly on union", "FieldOnUnion"),
         ("requires unaliased selection of `__typename`", "NoTypename"), ("inline fragments on union to target", "NotAMember"),
         ("unique type conditions", "MemberTwice"), ("fragment spreads on interfaces", "SpreadOnInterface"),
         ("fragment spreads on unions", "SpreadOnUnion"), ("inline fragments on unions to contain field selections only", "SpreadInMember"), ("fragment and operation names to be unique", "NameClash")]


def kinds(message):
    """the kinds of the errors in one diagnostic of the macro"""
    errs = re.findall(r"(?m)^\s*Error: (.*)$", message)
    if not errs:
        return ["Panic: " + message[:200]] if "panicked" in message else ["Usage"]
    out = []
    for e in errs:
        own = e.startswith("bluejay_typegen")
        out.append(next((k for t, k in KINDS if own and t in e), "Other") if own else "Invalid")
    return out


def folder():
    d = os.path.join(core.BUILD, "typegen-rules-src")
    os.makedirs(d, exist_ok=True)
    return d


def put(text):
    f = os.path.join(folder(), hashlib.sha1(text.encode()).hexdigest()[:20] + ".graphql")
    if not os.path.exists(f):
        open(f, "w").write(text)
    return f


def compile_modules(mods, want_all=False):
    """mods: one line of Rust each; -> the macro's errors (kinds) of each, and with want_all the errors of rustc"""
    src = os.path.join(folder(), "modules.rs")
    open(src, "w").write("\n".join("pub mod m%d { %s }" % (i, m) for i, m in enumerate(mods)) + "\n")
    env = dict(os.environ, RUSTUP_TOOLCHAIN="1.79.0", CARGO_NET_OFFLINE="true", TYPEGEN_RULES=src)
    env.pop("CARGO_TARGET_DIR", None)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--message-format=json", "--target-dir", os.path.join(core.BUILD, "typegen-rules")],
                       cwd=os.path.join(core.VERIF, "typegen-rules"), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    got = [[] for _ in mods]
    rustc = [[] for _ in mods]
    other = []
    for line in r.stdout.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        m = m["message"]
        at = [s for s in m["spans"] if s["is_primary"] and s["file_name"].endswith("modules.rs")]
        if not at:
            if "aborting" not in m["message"]:
                other.append(m["message"])
            continue
        i = at[0]["line_start"] - 1
        # only what the macro says has no code
        if m["code"] is None:
            got[i] += kinds(m["message"])
        else:
            rustc[i].append(m["message"])
    if r.returncode != 0 and not any(got) and not any(rustc):
        raise core.ToolError("build failed:\n" + "\n".join(other)[:2000] + r.stderr[-3000:])
    return (got, rustc) if want_all else got


def module(schema_text, doc_text_, aliases, i=0, dsl=False, codec=None):
    form = (lambda t: "[" + t.replace("\n", " ") + "]") if dsl else (lambda t: rust_str(put(t)))
    opts = ["", ", borrow = true", ', codec = "miniserde"', ', codec = "serde", borrow = false'][i % 4] if codec is None else codec
    als = " ".join(f"type {ident(pascal(n))} = {a};" for n, a in sorted(aliases.items()))
    return f"#[bluejay_typegen::typegen({form(schema_text)}{opts})] pub mod schema {{ {als} #[query({form(doc_text_)})] pub mod q {{}} }}"


# ------------------------------------------------------------------ documents
def themes():
    f, n, u = field, "n", "u"
    out = [
        (models.leaf(f("a"), f("v"), f("__typename"), spr("F")) + models.opened(f("n"), f("u"), inl("A", []), inl("", [])),
         models.defs(models.query(), frag("F", "Node", []), frag("F", "U", []), frag("F", "A", []), frag("F", "Query", [])), 4, 5, 2),
        (models.leaf(f("w"), spr("F"), spr("G"), spr("Q")) + models.opened(f("m"), f("n"), inl("Sub", []), f("q")),
         models.defs(models.query(), models.query("Q"), frag("F", "Sub", []), frag("G", "Node", [f("v")]), frag("Q", "A", [f("x")]), frag("Root", "Query", [f("a")])), 3, 4, 2),
        (models.leaf(f("__typename"), field("__typename", "t"), f("v"), spr("F")) + models.opened(f("u"), inl("A", []), inl("B", []), inl("Node", [])),
         models.defs(models.query(), frag("F", "U", [f("__typename"), inl("B", [f("x")])]), frag("F", "B", [f("x")]), frag("F", "Node", [f("v")]), frag("F", "W", [f("__typename")])), 3, 4, 2),
        (models.leaf(f("__typename"), f("x"), spr("F"), spr("G")) + models.opened(f("u"), f("k"), inl("A", [])),
         models.defs(models.query("Get"), frag("F", "A", []), frag("G", "A", [f("y")]), frag("G", "U", [f("__typename")]), again=False), 4, 5, 2),
    ]
    return out


def model_documents(c, s, r, limit):
    """documents of the model, as many refused as accepted where there are"""
    out = []
    counts = []
    for items, ds, quick, thorough, cap in themes():
        found = models.documents(c, s, items, ds, c.size(quick, thorough), cap, "Judged AcceptedDecodes\nCONSTRAINT Sensible", module="TypegenRulesModel")
        by = {}
        for x in found:
            if "facts" in x:
                key = "+".join(sorted(x["facts"]))
                by.setdefault(key, []).append(x["doc"])
        counts.append({"documents": sum(map(len, by.values())), "verdicts": len(by)})
        # the same number of each verdict, as far as there are
        share = limit // len(themes())
        invalid = by.pop("Invalid", [])
        r.shuffle(invalid)
        pool = []
        for k in sorted(by):
            r.shuffle(by[k])
        while by and len(pool) < share:
            for k in list(by):
                pool.append(by[k].pop())
                if not by[k]:
                    del by[k]
        out += pool[:share] + invalid[:max(20, share // 8)]
    c.extra["model"] = counts
    return out


def selections(d):
    """every selection set of the document, as (list, is it below a definition)"""
    out = []

    def go(sel):
        out.append(sel)
        for x in sel:
            if x.get("sel"):
                go(x["sel"])
    for x in d["ops"] + d["frags"]:
        go(x["sel"])
    return out


def unsettle(r, p, d):
    """one edit, that may or may not be allowed"""
    sets = selections(d)
    sel = r.choice(sets)
    frags = [f["name"] for f in d["frags"]]
    comps = [t["name"] for t in p.s["types"] if t["k"] in ("object", "interface", "union")]
    inls = [(s, i) for s in sets for i, x in enumerate(s) if x["k"] == "inl"]
    tns = [(s, i) for s in sets for i, x in enumerate(s) if x["k"] == "field" and x["name"] == "__typename"]
    how = r.choice(["spread", "spread", "lone", "lone", "lone", "inline", "dropname", "movename", "aliasname", "again", "field", "clash", "unknown", "unused", "typename", "retarget", "retarget", "bare", "on"])
    if how == "spread" and frags:
        sel.insert(r.randrange(0, len(sel) + 1), spr(r.choice(frags)))
    elif how == "lone" and frags:
        sel[:] = [spr(r.choice(frags))]
    elif how == "inline":
        sel.insert(r.randrange(0, len(sel) + 1), inl(r.choice(comps), [field("__typename")]))
    elif how == "dropname" and tns:
        s, i = r.choice(tns)
        if len(s) > 1:
            del s[i]
    elif how == "movename" and tns:
        s, i = r.choice(tns)
        s.append(s.pop(i))
    elif how == "aliasname" and tns:
        s, i = r.choice(tns)
        s[i]["alias"] = "tn"
    elif how == "again" and inls:
        s, i = r.choice(inls)
        s.insert(r.randrange(0, len(s) + 1), inl(s[i]["on"], [field("__typename")]))
    elif how == "field":
        x = [y for s in sets for y in s if y["k"] == "field"]
        sel.insert(r.randrange(0, len(sel) + 1), models.clone(r.choice(x)))
    elif how == "clash" and frags:
        o = r.choice(d["ops"])
        n = r.choice(frags)
        if r.p(0.5):
            o["name"] = n
        else:
            for f in d["frags"]:
                if f["name"] == n:
                    f["name"] = o["name"] or "Root"
            for s in sets:
                for x in s:
                    if x["k"] == "spr" and x["name"] == n:
                        x["name"] = o["name"] or "Root"
    elif how == "unknown":
        sel.append(field("noSuchField"))
    elif how == "unused":
        d["frags"].append(frag("Unused", r.choice(comps), [field("__typename")]))
    elif how == "typename":
        sel.insert(r.choice([0, len(sel)]), field("__typename"))
    elif how == "retarget" and d["frags"]:
        r.choice(d["frags"])["on"] = r.choice(comps)
    elif how == "on" and inls:
        s, i = r.choice(inls)
        s[i]["on"] = r.choice(comps)
    elif how == "bare" and inls:
        s, i = r.choice(inls)
        s[i]["on"] = ""


def repeats(sel):
    """does some set select a response key twice? (the field of the struct would be defined twice)"""
    keys = [x["alias"] or x["name"] for x in sel if x["k"] == "field"]
    return len(keys) != len(set(keys)) or any(repeats(x["sel"]) for x in sel if x.get("sel"))


# ------------------------------------------------------------------ the module itself
ITEMS = {"query": "#[query({q})] pub mod q{i} {{}}", "fn": "fn f{i}() {{}}", "bare": "mod b{i} {{}}", "other": "#[other({q})] mod o{i} {{}}",
         "value": "#[query = {q}] mod v{i} {{}}", "two": "#[query({q})] #[query({q})] mod w{i} {{}}", "file": "#[query(\"no/such/file.graphql\")] mod f{i} {{}}",
         "struct": "pub struct S{i};", "use": "use super as s{i};", "number": "#[query(1)] mod n{i} {{}}", "const": "const C{i}: i32 = 0;"}
OPTS = [("", False, "serde", True), (", borrow = true", True, "serde", True), (', codec = "miniserde"', False, "miniserde", True),
        (', codec = "miniserde", borrow = true', True, "miniserde", True), (', borrow = true, codec = "miniserde"', True, "miniserde", True),
        (', borrow = false, codec = "miniserde"', False, "miniserde", True), (', codec = "serde", borrow = true', True, "serde", True)]
BAD_OPTS = [", borrow = true, borrow = true", ', codec = "bincode"', ", borrow", ", lend = true", ', codec = "serde", codec = "serde"', " borrow = true", ', borrow = "true"']


def module_cases(r, n):
    out = []
    for i in range(n):
        k = r.choice(["plain", "alias", "alias", "items", "opts", "schema", "rules"])
        d = schemas.base_document(r)
        if k == "schema":
            schemas.break_it(r, d, r.choice(schemas.DEFECTS))
        elif k == "rules":
            schemas.spoil_inputs(r, d)
        e = Emitter()
        a = strip(e.document(d, schemas.shuffled(r, d)))
        text = e.text()
        taken = {}
        scalars = sorted({t["name"] for t in a["types"] if t["k"] == "scalar"})
        aliases = [{"name": pascal(x), "lives": 0, "types": 0} for x in scalars]
        opts, borrow, codec, good = r.choice(OPTS)
        if k == "alias":
            for _ in range(r.randrange(1, 3)):
                how = r.choice(["drop", "add", "life", "life2", "type", "const", "kind"])
                if how == "drop" and aliases:
                    aliases.pop(r.randrange(len(aliases)))
                elif how in ("add", "kind"):
                    pool = ["Extra", "Another"] if how == "add" else [pascal(t["name"]) for t in a["types"] if t["k"] != "scalar"]
                    x = r.choice(pool)
                    if x not in [y["name"] for y in aliases]:
                        aliases.append({"name": x, "lives": 0, "types": 0})
                elif aliases:
                    x = r.choice(aliases)
                    x.update({"life": dict(lives=1), "life2": dict(lives=2), "type": dict(types=1), "const": dict(types=1)}.get(how, {}), const=how == "const")
        items = []
        if k == "items":
            items = [r.choice(list(ITEMS)) for _ in range(r.randrange(1, 3))]
        elif r.p(0.5):
            items = ["query"]
        if k == "opts" and r.p(0.6):
            opts, good = r.choice(BAD_OPTS), False
        q = rust_str(put("{ __typename }"))
        als = []
        for x in aliases:
            gen = ["'a%d" % j for j in range(x["lives"])] + (["const N: usize" if x.pop("const", False) else "T"] if x["types"] else [])
            x.pop("const", None)
            als.append("type %s%s = ::std::string::String;" % (ident(x["name"]), "<" + ", ".join(gen) + ">" if gen else ""))
        body = " ".join(als) + " " + " ".join(ITEMS[x].format(q=q, i=j) for j, x in enumerate(items))
        names = {t["name"] for t in a["types"]}
        out.append(("#[bluejay_typegen::typegen(%s%s)] pub mod schema { %s }" % (rust_str(put(text)), opts, body),
                    {"doc": a, "aliases": aliases, "borrow": borrow, "codec": codec, "opts": good, "items": items, "pascal": {x: pascal(x) for x in names} | {"_": "_"}}, text))
    return out


# ------------------------------------------------------------------
def run(c, **kw):
    r = Rng(c.seed * 7919 + 32)
    s = models.small_schema()
    text = sdl(s)
    scal = {t["name"]: "String" for t in s["types"] if t["k"] == "scalar"}
    progs = [typegen.gen_program(Rng(r.randrange(1 << 40))) for _ in range(c.size(12, 60))]
    # [(schema for TLC, sdl, doc, module line)]
    entries = []
    for d in model_documents(c, s, r, c.size(480, 4000)):
        entries.append((0, d, module(text, doc_text(d), scal, len(entries), dsl=r.p(0.1))))
    per = c.size(40, 120)
    for k, p in enumerate(progs):
        t = sdl(p.s)
        for _ in range(per):
            d = models.clone(r.choice(p.docs))
            for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
                unsettle(r, p, d)
            entries.append((k + 1, d, module(t, doc_text(d), p.alias, len(entries))))
    mods = module_cases(r, c.size(160, 1200))
    records = [tlc_schema(s)] + [p.t for p in progs]
    got, rustc = compile_modules([e[2] for e in entries] + [m[0] for m in mods], True)
    # documents
    lines, owners = [], []
    for k in range(len(records)):
        mine = [i for i, e in enumerate(entries) if e[0] == k]
        for j in range(0, len(mine), 40):
            part = mine[j:j + 40]
            owners.append(part)
            lines.append({"line": len(lines), "schema": records[k], "docs": [{"doc": number(entries[i][1]), "got": got[i]} for i in part]})
    recs, st, tr = core.trace_check("TypegenRulesTrace", lines, name="tgrules")
    tally = {}
    accepted = []
    for x in recs:
        part = owners[x["line"]]
        for j, want in enumerate(x["want"]):
            for k in want or ["accepted"]:
                tally[k] = tally.get(k, 0) + 1
            if not want:
                accepted.append(part[j])
        for b in x["bad"]:
            i = part[b - 1]
            k, d, line = entries[i]
            c.violation(f"the generator said {got[i] or 'nothing'} of a document the specification says {x['want'][b - 1] or 'can be accepted'}: {doc_text(d)[:400]!r}",
                        {"schema": text if k == 0 else sdl(progs[k - 1].s), "document": doc_text(d), "got": got[i], "want": x["want"][b - 1], "module": line})
    c.add(st, tr, len(entries))
    # modules
    lines = [dict(m[1], line=i, got=got[len(entries) + i]) for i, m in enumerate(mods)]
    recs, st, tr = core.trace_check("TypegenSchemaTrace", lines, name="tgschema")
    mt = {}
    for x in recs:
        key = "+".join(sorted(x["why"])) or "accepted"
        mt[key] = mt.get(key, 0) + 1
        if not x["ok"]:
            m = mods[x["line"]]
            c.violation(f"the generator said {lines[x['line']]['got'] or 'nothing'} of a module the specification says {sorted(x['why']) or 'can be accepted'}: {m[0][:500]}",
                        {"schema": m[2], "module": m[0], "got": lines[x["line"]]["got"], "want": x["why"]})
    c.add(st, tr, len(mods))
    # what is accepted compiles
    ok = [i for i in accepted if not got[i] and not any(repeats(y["sel"]) for y in entries[i][1]["ops"] + entries[i][1]["frags"])]
    r.shuffle(ok)
    ok = ok[:c.size(60, 400)]
    if ok:
        g, rc = compile_modules([entries[i][2] for i in ok], True)
        for i, a, b in zip(ok, g, rc):
            if a or b:
                c.violation(f"the code generated for an accepted document does not compile: {(a + b)[0][:200]}: {doc_text(entries[i][1])[:300]!r}",
                            {"schema": text if entries[i][0] == 0 else sdl(progs[entries[i][0] - 1].s), "document": doc_text(entries[i][1]), "module": entries[i][2], "errors": (a + b)[:5]})
    c.extra.update(verdicts=tally, modules=mt, compiled=len(ok))
    c.sample({"module": entries[-1][2][:600], "errors": got[len(entries) - 1]})
