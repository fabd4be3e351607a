"""Seeded generators of schemas, documents and values (plain data, see gql.py)."""
import random
from .gql import *

STRINGS = ["", "a", "hello world", "RED", "é", "日本", "x\"y", "b\\s", "line\nbreak", "$v", "# no", "null", "\U0001F525"]
FLOATS = ["1.5e0", "-2.25e-3", "1e10", "0e0", "-1e0", "1.7976931348623157e308", "3e0"]
INTS = [0, 1, -1, 7, 42, 2147483647, -2147483648]


class Rng(random.Random):
    def p(self, x):
        return self.random() < x

    def some(self, xs, lo, hi):
        xs = list(xs)
        self.shuffle(xs)
        return xs[:self.randint(lo, hi)]


# ------------------------------------------------------------------ schemas
def gen_schema(r, size=1.0, subscription=None, deprecations=False, custom_roots=None, descs=False, oneof=True):
    """A well-formed schema: every reference resolves, objects implement their interfaces."""
    custom = r.p(0.3) if custom_roots is None else custom_roots
    Q, M, Su = ("RootQ", "RootM", "RootS") if custom else ("Query", "Mutation", "Subscription")
    if custom and r.p(0.2):  # the usual names of other roots
        Q, M, Su = r.choice([("Mutation", "Query", "RootS"), ("Subscription", "RootM", "Mutation"), ("RootQ", "Subscription", "Query")])
    enums = ["E%d" % i for i in range(r.randint(1, 2))]
    scalars = r.some(["Date", "Digits", "Count", "Shape"], 0, 3)
    inputs = ["In%d" % i for i in range(r.randint(1, 3))]
    ifaces = ["I%d" % i for i in range(r.randint(1, 3))]
    objects = ["O%d" % i for i in range(r.randint(2, 4))]
    unions = ["U%d" % i for i in range(r.randint(1, 2))]
    if custom and r.p(0.4):  # types that have a usual name and are not that root
        for n in r.some([n for n in ("Query", "Mutation", "Subscription") if n not in (Q, M, Su)], 0, 2):
            r.choice([objects, objects, unions, enums, ifaces, inputs])[0] = n
    has_m = r.p(0.6)
    has_s = r.p(0.5) if subscription is None else subscription
    types = []

    def dep(p=0.3):
        if deprecations and r.p(p):
            return [direc("deprecated", [arg("reason", STR(r.choice(["old", "gone", ""])))] if r.p(0.6) else [])]
        return []

    def desc():
        return [r.choice(["about", "two\nlines", "say \"hi\""])] if descs and r.p(0.3) else []

    for e in enums:
        t = ty("enum", e, values=[dict(val(v), desc=desc(), dirs=dep()) for v in r.some(["RED", "GREEN", "BLUE", "on", "type"], 1, 4)])
        t["desc"] = desc()
        types.append(t)
    for x in scalars:
        types.append(ty("scalar", x))

    leafs = BUILTIN_SCALARS + enums + scalars

    def wrap(t, plist=0.3, preq=0.3):
        x = N(t, r.p(preq))
        while r.p(plist):
            x = L(x, r.p(preq))
            plist /= 2
        return x

    def input_type(level=3, plist=0.3):
        cands = leafs + inputs[:level] * 2
        return wrap(r.choice(cands), plist)

    def default_for(t):
        v = const_value(r, {"types": types}, t, 0.0, depth=2)
        return v

    # inputs: required non-list references only to earlier ones, so a finite value exists
    for i, n in enumerate(inputs):
        fs = []
        one = oneof and r.p(0.2)
        for j, fnm in enumerate(r.some(["a", "b", "c", "d"], 1, 4)):
            if one:
                t = nullable(input_type(i))
                fs.append(dict(iv(fnm, t), desc=desc()))
                continue
            t = input_type(i) if r.p(0.7) else nullable(wrap(r.choice(inputs[:i + 1] + leafs)))
            d = None
            if r.p(0.25) and base(t) != n:
                d = default_for(t)
            fs.append(iv(fnm, t, d, dirs=dep() if not (t["r"] and d is None) else []))
            fs[-1]["desc"] = desc()
        types.append(ty("input", n, fields=fs, dirs=[direc("oneOf")] if one else [], desc=desc()))

    outs = leafs + objects + ifaces + unions

    def gen_args(p=0.4):
        if not r.p(p):
            return []
        out = []
        for n in r.some(["x", "y", "z"], 1, 3):
            t = input_type()
            d = default_for(t) if r.p(0.3) else None
            out.append(iv(n, t, d, dirs=dep() if not (t["r"] and d is None) else []))
        return out

    FN = ["a", "b", "c", "d", "id", "on", "type"]

    def gen_field(n):
        return dict(fd(n, wrap(r.choice(outs), 0.25), gen_args(), dirs=dep()), desc=desc())

    idefs = {}
    for i, n in enumerate(ifaces):
        parents = []
        fs = {}
        if i and r.p(0.4):
            parents = [r.choice(ifaces[:i])]
            parents += [p for p in idefs[parents[0]]["ifaces"]]
            for pn in parents:
                for f in idefs[pn]["fields"]:
                    fs[f["name"]] = json.loads(json.dumps(f))
        for fnm in r.some(FN, 1, 3):
            fs.setdefault(fnm, gen_field(fnm))
        idefs[n] = ty("interface", n, ifaces=parents, fields=list(fs.values()), desc=desc())
        types.append(idefs[n])
    for n in objects:
        im = []
        fs = {}
        for i in r.some(ifaces, 0, 2):
            cand = [i] + idefs[i]["ifaces"]
            ok = True
            merged = dict(fs)
            for c in cand:
                for f in idefs[c]["fields"]:
                    g = merged.get(f["name"])
                    if g is None:
                        g = json.loads(json.dumps(f))
                        if r.p(0.25):
                            g["type"] = nonnull(g["type"])
                        merged[f["name"]] = g
                    elif strip(g["args"]) != strip(f["args"]) or nullable(g["type"]) != nullable(f["type"]) or \
                            (f["type"]["r"] and not g["type"]["r"]):
                        ok = False
            if ok:
                fs = merged
                im += [c for c in cand if c not in im]
        for fnm in r.some(FN, 1, 4):
            fs.setdefault(fnm, gen_field(fnm))
        types.append(ty("object", n, ifaces=im, fields=list(fs.values()), desc=desc()))
    for n in unions:
        types.append(ty("union", n, members=r.some(objects, 1, 3), desc=desc()))

    def root(n):
        fs = []
        for f in r.some(FN, 2, 5):
            fs.append(fd(f, wrap(r.choice(objects + ifaces + unions if r.p(0.75) else outs), 0.25), gen_args(0.5), dirs=dep()))
        return ty("object", n, fields=fs)
    types.append(root(Q))
    if has_m:
        types.append(root(M))
    if has_s:
        types.append(root(Su))
    dirs = []
    for i in range(r.randint(1, 3)):
        locs = r.some(EXEC_LOCS, 1, 8) if r.p(0.8) else r.some(TS_LOCS, 1, 3)
        dirs.append(ddef("d%d" % i, locs, gen_args(0.5), rep=r.p(0.4)))
    for d in dirs:
        for a in d["args"]:
            a["dirs"] = []
    r.shuffle(types)
    return schema(types, query=Q, mutation=M if has_m else "", subscription=Su if has_s else "", directives=dirs)


# ------------------------------------------------------------------ values
def items(r, depth):
    """how many elements a list literal has: mostly few, sometimes more than ten"""
    if depth <= 0:
        return 0
    x = r.random()
    if getattr(r, "long", False):
        return r.randint(0, 2) if x < 0.6 else r.randint(9, 13)
    return r.randint(0, 2) if x < 0.92 else r.randint(3, 5) if x < 0.985 else r.randint(9, 13)


def raw_value(r, depth=2, variables=(), const=True):
    k = r.choice(["int", "float", "str", "bool", "null", "enum", "list", "obj"] + ([] if const or not variables else ["var"] * 3))
    if k == "int":
        return INT(r.choice(INTS))
    if k == "float":
        return FLT(r.choice(FLOATS))
    if k == "str":
        return STR(r.choice(STRINGS))
    if k == "bool":
        return BOOL(r.p(0.5))
    if k == "null":
        return NULL()
    if k == "enum":
        return ENUM(r.choice(["RED", "GREEN", "BLUE", "NOPE", "on", "type"]))
    if k == "var":
        return VAR(r.choice(list(variables)))
    if k == "list":
        return LIST([raw_value(r, depth - 1, variables, const) for _ in range(items(r, depth))])
    return OBJ([(n, raw_value(r, depth - 1, variables, const)) for n in r.some(["a", "b", "c", "d", "zz"], 0, 2 if depth > 0 else 0)])


def const_value(r, s, t, noise=0.1, depth=3, var=None):
    """A value for type t; var(type) may return a variable to use instead (or None)."""
    if noise and r.p(noise):
        return raw_value(r, 2, const=var is None, variables=["v0", "v1"] if var else ())
    if var:
        v = var(t)
        if v is not None:
            return v
    if not t["r"] and r.p(0.12 if depth > 0 else 0.6):
        return NULL()
    if t["k"] == "L":
        if noise and r.p(0.15) and (t["of"]["k"] == "N"):
            return const_value(r, s, nonnull(t["of"]), noise, depth - 1, var)
        return LIST([const_value(r, s, t["of"], noise, depth - 1, var) for _ in range(items(r, depth))])
    n = t["n"]
    if n == "Int":
        return INT(r.choice(INTS))
    if n == "Float":
        return FLT(r.choice(FLOATS)) if r.p(0.6) else INT(r.choice(INTS))
    if n == "String":
        return STR(r.choice(STRINGS))
    if n == "Boolean":
        return BOOL(r.p(0.5))
    if n == "ID":
        return STR(r.choice(STRINGS)) if r.p(0.6) else INT(r.choice(INTS))
    td = find_type(s, n)
    if td is None:
        return raw_value(r, 1)
    if td["k"] == "enum":
        return ENUM(r.choice(td["values"])["name"])
    if td["k"] == "scalar":
        takes = TAKES.get(n)
        for _ in range(30):
            v = raw_value(r, 2 if takes else 1)
            if not takes or v["k"] in takes or noise and r.p(noise):
                break
        return v
    if td["k"] == "input":
        if any(d["n"] == "oneOf" for d in td["dirs"]):
            if noise and r.p(0.15):
                fs = r.some(td["fields"], 0, 2)
                return OBJ([(f["name"], const_value(r, s, f["type"], noise, depth - 1, var)) for f in fs])
            f = r.choice(td["fields"])
            return OBJ([(f["name"], const_value(r, s, nonnull(f["type"]), noise, depth - 1, var))])
        out = []
        for f in td["fields"]:
            req = f["type"]["r"] and not f["def"]
            if req and not (noise and r.p(0.05)) or (not req and depth > 0 and r.p(0.5)):
                out.append((f["name"], const_value(r, s, f["type"], noise, depth - 1, var)))
        if noise and r.p(0.06) and out:
            out += [(out[0][0], raw_value(r, 0)) for _ in range(r.choice([1, 1, 2, 3]))]
        if noise and r.p(0.05):
            out.append(("zz", raw_value(r, 0)))
        r.shuffle(out)
        return OBJ(out)
    return raw_value(r, 1)


# ------------------------------------------------------------------ documents
class DocGen:
    """A document for schema s. noise: how often something is deliberately off."""

    def __init__(self, r, s, noise=0.06, frags=3, ops=2, depth=3, width=3, alias=0.25, p_var=0.35, p_dir=0.12, p_frag=0.2,
                 p_inl=0.2, names_dup=0.03, merge=0.2, p_arg=0.55, value_noise=0.06, types_only=None):
        self.__dict__.update(locals())
        self.types = {t["name"]: t for t in s["types"]}
        self.vars = {}
        self.rec = tlc_schema(s)

    # the possible objects of a type
    def poss(self, n):
        t = self.rec["types"].get(n)
        if not t:
            return set()
        if t["k"] == "object":
            return {n}
        if t["k"] == "union":
            return set(t["members"])
        if t["k"] == "interface":
            return {m for m, x in self.rec["types"].items() if x["k"] == "object" and n in x["ifaces"]}
        return set()

    def var_for(self, t):
        r = self.r
        if not r.p(self.p_var):
            return None
        fits = [n for n, (vt, d) in self.vars.items() if base(vt) == base(t)]
        if fits and r.p(0.6):
            return VAR(r.choice(fits))
        if len(self.vars) >= 6:
            return VAR(r.choice(list(self.vars)))
        n = "v%d" % len(self.vars)
        vt = json.loads(json.dumps(t))
        x = r.random()
        if x < 0.25:
            vt = nonnull(vt)
        elif x < 0.45:
            vt = nullable(vt)
        elif x < 0.45 + self.noise:
            vt = r.choice([L(vt), N(r.choice(BUILTIN_SCALARS)), vt["of"] if vt["k"] == "L" else L(vt, True)])
        elif x < 0.55 and vt["k"] == "L":
            vt = dict(vt, of=r.choice([nonnull, nullable])(vt["of"]))
        d = None
        if not vt["r"] and r.p(0.3) or r.p(0.05):
            d = const_value(r, self.s, vt, self.value_noise, depth=2)
        self.vars[n] = (vt, d)
        return VAR(n)

    def value(self, t, const=False):
        return const_value(self.r, self.s, t, self.value_noise, 3, None if const else self.var_for)

    def args(self, defs, const=False):
        r = self.r
        out = []
        for n, d in defs.items():
            req = d["type"]["r"] and not d["def"]
            if (req and not r.p(self.noise)) or (not req and r.p(self.p_arg)):
                out.append(arg(n, self.value(d["type"], const)))
        if r.p(self.noise):
            out.append(arg("zz", raw_value(r, 1)))
        if out and r.p(self.noise * 0.7):
            n = r.choice(out)["n"]
            out += [arg(n, raw_value(r, 1)) for _ in range(r.choice([1, 1, 2, 3]))]
        r.shuffle(out)
        return out

    def dirs(self, loc, const=False):
        r = self.r
        out = []
        if not r.p(self.p_dir):
            return out
        for _ in range(r.randint(1, 3)):
            fit = [n for n, d in self.rec["directives"].items() if loc in d["locs"]]
            if r.p(self.noise * 2) or not fit:
                n = r.choice(list(self.rec["directives"]) + ["nope"])
            else:
                n = r.choice(fit)
            if any(o["n"] == n for o in out) and not self.rec["directives"].get(n, {"rep": True})["rep"] and not r.p(0.3):
                continue
            d = self.rec["directives"].get(n)
            if d is None and r.p(0.5):
                out.append(direc(n, [arg("x", raw_value(r, 1))]))
            else:
                out.append(direc(n, self.args(d["args"], const) if d else []))
                while r.p(self.p_dir * 0.2):
                    out.append(direc(n, self.args(d["args"], const) if d else []))
        return out

    def pick_frag(self, scope):
        r = self.r
        if r.p(self.noise):
            return r.choice(self.frag_names + ["Nope"]) if r.p(0.7) or not self.frag_names else "Nope"
        cand = [n for n in self.frag_names if self.poss(self.frag_on[n]) & self.poss(scope)]
        return r.choice(cand) if cand else None

    def cond(self, scope):
        r = self.r
        if r.p(self.noise):
            return r.choice(list(self.rec["types"]) + ["Nope"])
        c = [n for n, t in self.rec["types"].items() if t["k"] in ("object", "interface", "union") and self.poss(n) & self.poss(scope)
             and not n.startswith("__")]
        return r.choice(c) if c else scope

    def sel(self, scope, depth, avoid=()):
        r = self.r
        out = []
        t = self.rec["types"].get(scope)
        names = sorted(n for n in t["fields"]) if t else []
        if scope in self.types:
            names = [n for n in names if not n.startswith("__") or r.p(0.3)]
        for _ in range(r.randint(1, self.width)):
            x = r.random()
            if x < self.p_frag:
                n = self.pick_frag(scope)
                if n is not None and (n not in avoid or r.p(self.noise)):
                    out.append(spr(n, self.dirs("FRAGMENT_SPREAD")))
                    continue
            if x < self.p_frag + self.p_inl and depth > 0:
                on = self.cond(scope) if r.p(0.8) else ""
                out.append(inl(on, self.sel(on or scope, depth - 1, avoid), self.dirs("INLINE_FRAGMENT")))
                continue
            if not names and not r.p(self.noise):
                fn = "__typename"
            elif r.p(self.noise) or not names:
                fn = r.choice(["a", "b", "c", "zz", "__typename", "__schema"] + ["__schema", "__type"] * (3 if scope in ("Query", "Mutation") else 0))
            else:
                fn = r.choice(names)
            f = t["fields"].get(fn) if t else None
            al = r.choice(["a", "b", "r", fn]) if r.p(self.alias) else ""
            if f is None:
                out.append(field(fn, al, self.args({}), self.dirs("FIELD"), [field("a")] if r.p(0.3) else []))
                continue
            bt = base(f["type"])
            comp = self.rec["types"][bt]["k"] in ("object", "interface", "union")
            if comp and depth <= 0 and not r.p(self.noise):
                leaf = [n for n in names if self.rec["types"][base(t["fields"][n]["type"])]["k"] in ("builtin", "scalar", "enum")]
                fn = r.choice(leaf) if leaf else "__typename"
                if fn not in t["fields"]:
                    continue
                f = t["fields"][fn]
                bt = base(f["type"])
                comp = False
            sub = []
            if comp != r.p(self.noise * 0.7):
                sub = self.sel(bt, depth - 1, avoid) if comp else [field("a")]
            fld = field(fn, al, self.args(f["args"]), self.dirs("FIELD"), sub)
            out.append(fld)
            if r.p(self.merge):
                cp = json.loads(json.dumps(fld))
                if comp and r.p(0.6):
                    cp["sel"] = self.sel(bt, depth - 1, avoid)
                if r.p(0.15):
                    cp["args"] = self.args(f["args"])
                out.append(cp)
        if not out:
            out.append(field("__typename"))
        return out

    def make(self):
        r = self.r
        comp = [n for n, t in self.rec["types"].items() if t["k"] in ("object", "interface", "union") and not n.startswith("__")]
        nf = r.randint(0, self.frags)
        self.frag_names = ["F%d" % i for i in range(nf)]
        self.frag_on = {n: r.choice(comp) if not r.p(self.noise) else r.choice(list(self.rec["types"]) + ["Nope"]) for n in self.frag_names}
        frs = []
        for i, n in enumerate(self.frag_names):
            on = self.frag_on[n]
            frs.append(frag(n, on, self.sel(on, self.depth - 1, avoid=self.frag_names[:i + 1]), self.dirs("FRAGMENT_DEFINITION")))
        ops = []
        nops = r.randint(1, self.ops)
        roots = [(k, self.s[k]) for k in ("query", "mutation", "subscription") if self.s[k]]
        for i in range(nops):
            k, rt = ("query", self.s["query"]) if r.p(0.6) else r.choice(roots)
            if r.p(self.noise):
                k = r.choice(["query", "mutation", "subscription"])
                rt = self.s[k]
            w = self.width
            if k == "subscription" and r.p(0.6):
                self.width = 1
            sel = self.sel(rt or "Nope", self.depth)
            self.width = w
            name = "Q%d" % i
            if r.p(self.names_dup):
                name = "Q0"
            if r.p(self.names_dup) or (nops == 1 and r.p(0.3)):
                name = ""
            ops.append(op(sel, k, name, dirs=self.dirs(k.upper())))
        # make most fragments reachable
        used = set()

        def spreads(ss):
            for s in ss:
                if s["k"] == "spr":
                    used.add(s["name"])
                else:
                    spreads(s["sel"])
        for o in ops:
            spreads(o["sel"])
        for f in frs:
            spreads(f["sel"])
        for n in self.frag_names:
            if n not in used and r.p(0.85):
                for o in ops:
                    if self.s[o["op"]] and self.poss(self.s[o["op"]]) & self.poss(self.frag_on[n]):
                        o["sel"].append(spr(n))
                        break
                else:
                    # wrap under a field whose type overlaps
                    o = r.choice(ops)
                    rt = self.rec["types"].get(self.s[o["op"]])
                    c = [fn for fn, f in (rt["fields"] if rt else {}).items() if self.poss(base(f["type"])) & self.poss(self.frag_on[n])]
                    if c:
                        fn = r.choice(c)
                        o["sel"].append(field(fn, "q" + n, self.args(rt["fields"][fn]["args"]), [], [spr(n)]))
        # declare variables
        fmap = {f["name"]: f for f in frs}
        for o in ops:
            names = []
            seen = set()

            def value(v):
                if v["k"] == "var":
                    if v["s"] not in names:
                        names.append(v["s"])
                elif v["k"] == "list":
                    for x in v["l"]:
                        value(x)
                elif v["k"] == "obj":
                    for e in v["o"]:
                        value(e["v"])

            def walk(n):
                for a in n.get("args", []):
                    value(a["v"])
                for d in n.get("dirs", []):
                    for a in d["args"]:
                        value(a["v"])
                for x in n.get("sel", []):
                    walk(x)
                if n["k"] == "spr" and n["name"] in fmap and n["name"] not in seen:
                    seen.add(n["name"])
                    walk(fmap[n["name"]])
            walk(o)
            vs = [n for n in names if not r.p(self.noise * 0.7)]
            if r.p(self.noise) and self.vars:
                vs.append(r.choice(list(self.vars)))
            if r.p(self.names_dup) and vs:
                vs += [r.choice(vs)] * r.choice([1, 1, 2, 3])
            else:
                vs = list(dict.fromkeys(vs))
            for n in vs:
                vt, d = self.vars.get(n, (N("Int"), None))
                if r.p(self.noise * 0.5):
                    vt = N(r.choice(["Nope"] + comp))
                o["vars"].append(vardef(n, vt, json.loads(json.dumps(d)) if d is not None else None, self.dirs("VARIABLE_DEFINITION", True)))
            if o["name"] == "" and o["op"] == "query" and not o["vars"] and not o["dirs"] and r.p(0.5):
                o["short"] = True
        if frs and r.p(self.names_dup):
            f = r.choice(frs)
            frs += [json.loads(json.dumps(f)) for _ in range(r.choice([1, 1, 2]))]
        return {"ops": ops, "frags": frs}


def layout(r, toks, wild=True):
    """Join tokens with random ignored text; tokens that would fuse are always kept apart."""
    out = []
    prev = ""
    for t in toks:
        if prev:
            sepneeded = (prev[-1].isalnum() or prev[-1] == "_") and (t[0].isalnum() or t[0] in "_-.") or \
                (prev[-1] == '"' and t[0] == '"') or (prev[-1].isdigit() and t[0] in "._$") or (prev[-1] in "." and t[0] == ".")
            if not wild:
                out.append(" ")
            else:
                x = r.random()
                ws = "" if x < 0.3 else " " if x < 0.8 else r.choice(["\n", "\t", ", ", "  ", "\r\n", " # c é\n", ",", "\n\n"])
                out.append(ws if ws or not sepneeded else " ")
        out.append(t)
        prev = t
    return "".join(out)


def doc_tokens(d):
    return [t for o in d["ops"] for t in tokens_op(o)] + [t for f in d["frags"] for t in tokens_frag(f)]
