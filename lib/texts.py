"""Seeded generators of texts: literals piece by piece, token sequences of random syntax trees that no
schema constrains, near-miss mutations of them, and layouts."""
from .gql import *
from .gen import Rng

NAMES = ["a", "b", "Q", "x1", "_", "__typename", "on", "query", "mutation", "subscription", "fragment", "type", "input", "enum", "true",
         "false", "null", "implements", "schema", "scalar", "union", "interface", "directive", "repeatable", "extend", "FIELD", "Int", "zZ9_"]

NUM_PIECES = ["-", "0", "1", "9", "00", "12", "2147483647", "2147483648", "2147483649", "9999999999", ".", ".5", "e", "E", "+", "e5", "e-3", "E+10",
              "_", "a", "1e308", "308", "309", "400", "0.1", "123456789.123456789", " ", ",", "e-400", "-0", "\u0663", "5e-324", "17976931348623157"]
STR_PIECES = ["a", "b c", "\u00e9", "\U0001F525", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0041", "\\uD83D", "\\uDD25", "\\uDEAD",
              "\\u00e9", "\\uFFFF", "\\u{1F525}", "\\u{0}", "\\u{41}", "\\u{110000}", "\\u{D800}", "\\u{}", "\\u{12", "\\u12", "\\uZZZZ", "\\x", "\\'",
              "\\", "\"", "\n", "\r", "\r\n", " ", "\t", "#", ",", "$a", "{", "}", "...", "\\u{10FFFF}", "\\u{000041}", "\\u{0000000041}", "\\ud83d", "\\udd25",
              "\u0085", "\u2028", "\x0b", "\x7f"]
GOOD_STR = [x for x in STR_PIECES if x not in ("\\uD83D", "\\uDD25", "\\uDEAD", "\\u{110000}", "\\u{D800}", "\\u{}", "\\u{12", "\\u12", "\\uZZZZ", "\\x", "\\'", "\\",
                                                "\"", "\n", "\r", "\r\n", "\\ud83d", "\\udd25")] + ["\\uD83D\\uDD25", "\\ud83d\\udd25"] * 2
BLOCK_PIECES = ["a", "b c", "\"", "\"\"", "\\\"\"\"", "\\", "\\n", "\\u0041", "\n", "\n", "\n", "\r", "\r\n", " ", "  ", "\t", "    ", "\u00e9", "\U0001F525",
                "#", "\n  ", "\n    ", "\n\t", "\n \n", "x", "\\\\", "\u00a0", "\u2028", "\u0085"]
FREE_PIECES = ["!", "&", "(", ")", "...", "..", ".", ":", "=", "@", "[", "]", "{", "|", "}", "$", "$a", "$ a", "a", "b1", "_", "1", "-1", "1.5", "\"s\"", "\"\"",
               "\"\"\"b\"\"\"", "# c\n", "# c\r", "#\u00e9 \u2028 x\n", "#", "\ufeff", "\t", " ", "\n", "\r", "\r\n", ",", ",,", "%", "?", ";", "~", "\u00a0", "\u0085", "\u2028",
               "\x0b", "\x0c", "\x00", "\x07", "\u00e9", "\u00aa", "\U0001F525", "\\", "'", "`", "on", "null", "e1", "0", "-"]


def pieces(r, ps, lo, hi):
    return "".join(r.choice(ps) for _ in range(r.randint(lo, hi)))


def literal(r):
    k = r.choice(["num", "num", "str", "str", "gstr", "gstr", "block", "block", "block", "free"])
    if k == "num":
        return ("-" if r.p(0.3) else "") + pieces(r, NUM_PIECES, 1, 4)
    if k == "str":
        return '"' + pieces(r, STR_PIECES, 0, 5) + '"'
    if k == "gstr":
        return '"' + pieces(r, GOOD_STR, 0, 7) + '"'
    if k == "block":
        return '"""' + pieces(r, BLOCK_PIECES, 0, 12) + '"""'
    return pieces(r, FREE_PIECES, 1, 4)


def lexical(r):
    """a text whose interesting part is lexical"""
    x = r.random()
    if x < 0.4:
        return "{a(x:" + literal(r) + ")}"
    if x < 0.7:
        return "{a(x:[" + "".join(literal(r) + r.choice(["", " ", ","]) for _ in range(r.randint(1, 3))) + "])}"
    if x < 0.8:
        return "{a(x:{k:" + literal(r) + "} y:" + literal(r) + ")}"
    if x < 0.9:
        return "{" + pieces(r, FREE_PIECES, 1, 6) + "}"
    return "query" + pieces(r, [" ", "\n", ",", "\ufeff", "#x\n", "\t"], 0, 3) + "($" + pieces(r, [" ", "\n", ",", "\ufeff", "#x\n", "\t", ""], 0, 2) + \
        "a:Int=" + literal(r) + "){b" + pieces(r, FREE_PIECES, 0, 2) + "}"


# ------------------------------------------------------------------ random trees
class Tree:
    def __init__(self, r, depth=3):
        self.r, self.d = r, depth

    def name(self):
        return self.r.choice(NAMES)

    def value(self, const, d=2):
        r = self.r
        k = r.choice(["int", "float", "str", "block", "name", "list", "obj"] + ([] if const else ["var"]))
        if k == "int":
            return [r.choice(["0", "-1", "42", "2147483647", "-2147483648", "-0"])]
        if k == "float":
            return [r.choice(["1.5", "-0.0", "1e10", "2E-3", "3.25e+2", "1.7976931348623157e308", "123456789.123456789", "1e-11", "0.1", "1e21", "5e-324", "12345678901234567890.5"])]
        if k == "str":
            return ['"' + pieces(r, GOOD_STR, 0, 3) + '"']
        if k == "block":
            return ['"""' + pieces(r, [p for p in BLOCK_PIECES if '"' not in p and p not in ("\\", "\\\\")], 0, 6) + '"""']
        if k == "name":
            return [self.name()]
        if k == "var":
            return ["$" + self.name()]
        if k == "list":
            return ["["] + [t for _ in range(r.randint(0, 3) if d else 0) for t in self.value(const, d - 1)] + ["]"]
        return ["{"] + [t for _ in range(r.randint(0, 3) if d else 0) for t in [self.name(), ":"] + self.value(const, d - 1)] + ["}"]

    def args(self, const, p=0.4):
        r = self.r
        return [] if not r.p(p) else ["("] + [t for _ in range(r.randint(1, 2)) for t in [self.name(), ":"] + self.value(const)] + [")"]

    def dirs(self, const=False, p=0.25):
        r = self.r
        out = []
        while r.p(p):
            out += ["@", self.name()] + self.args(const)
        return out

    def type(self, d=2):
        r = self.r
        return (["["] + self.type(d - 1) + ["]"] if d and r.p(0.4) else [self.name()]) + (["!"] if r.p(0.4) else [])

    def default(self):
        return ["="] + self.value(True) if self.r.p(0.3) else []

    def sel(self, d):
        r = self.r
        x = r.random()
        if x < 0.65 or d == 0:
            return ([self.name(), ":"] if r.p(0.25) else []) + [self.name()] + self.args(False, 0.3) + self.dirs() + (self.selset(d - 1) if d and r.p(0.4) else [])
        if x < 0.8:
            return ["...", self.r.choice([n for n in NAMES if n != "on"])] + self.dirs()
        return ["..."] + (["on", self.name()] if r.p(0.6) else []) + self.dirs() + self.selset(d - 1)

    def selset(self, d):
        return ["{"] + [t for _ in range(self.r.randint(1, 3)) for t in self.sel(d)] + ["}"]

    def vardefs(self):
        r = self.r
        return [] if not r.p(0.5) else ["("] + [t for _ in range(r.randint(1, 2)) for t in ["$" + self.name(), ":"] + self.type() + self.default() + self.dirs(True)] + [")"]

    def executable(self):
        r = self.r
        out = []
        for _ in range(r.randint(1, 3)):
            x = r.random()
            if x < 0.25:
                out += self.selset(self.d)
            elif x < 0.65:
                out += [r.choice(["query", "mutation", "subscription"])] + ([self.name()] if r.p(0.6) else []) + self.vardefs() + self.dirs() + self.selset(self.d)
            else:
                out += ["fragment", r.choice([n for n in NAMES if n != "on"]), "on", self.name()] + self.dirs() + self.selset(self.d)
        return out

    # type system
    def desc(self, p=0.3):
        r = self.r
        if not r.p(p):
            return []
        return ['"' + pieces(r, GOOD_STR, 0, 3) + '"'] if r.p(0.4) else \
            ['"""' + pieces(r, [p for p in BLOCK_PIECES if '"' not in p and p not in ("\\", "\\\\")], 0, 6) + '"""']

    def input(self):
        return self.desc() + [self.name(), ":"] + self.type() + self.default() + self.dirs(True, 0.15)

    def many(self, f, lo=1, hi=3):
        return [t for _ in range(self.r.randint(lo, hi)) for t in f()]

    def field(self):
        return self.desc() + [self.name()] + (["("] + self.many(self.input, 1, 2) + [")"] if self.r.p(0.3) else []) + [":"] + self.type() + self.dirs(True, 0.15)

    def listed(self, sep, f):
        r = self.r
        out = [sep] if r.p(0.3) else []
        for i in range(r.randint(1, 3)):
            out += ([sep] if i else []) + f()
        return out

    def definition(self):
        r = self.r
        k = r.choice(["schema", "scalar", "type", "type", "interface", "union", "enum", "input", "directive"])
        out = self.desc()
        if k == "schema":
            return out + ["schema"] + self.dirs(True) + ["{"] + self.many(lambda: [r.choice(["query", "mutation", "subscription"]), ":", self.name()]) + ["}"]
        if k == "scalar":
            return out + ["scalar", self.name()] + self.dirs(True)
        if k in ("type", "interface"):
            return out + [k, self.name()] + (["implements"] + self.listed("&", lambda: [self.name()]) if r.p(0.3) else []) + self.dirs(True) + \
                ["{"] + self.many(self.field) + ["}"]
        if k == "union":
            return out + ["union", self.name()] + self.dirs(True) + ["="] + self.listed("|", lambda: [self.name()])
        if k == "enum":
            return out + ["enum", self.name()] + self.dirs(True) + ["{"] + self.many(lambda: self.desc() + [r.choice(["A", "B", "on", "type", "_x"])] + self.dirs(True, 0.15)) + ["}"]
        if k == "input":
            return out + ["input", self.name()] + self.dirs(True) + ["{"] + self.many(self.input) + ["}"]
        return out + ["directive", "@", self.name()] + (["("] + self.many(self.input, 1, 2) + [")"] if r.p(0.3) else []) + (["repeatable"] if r.p(0.3) else []) + \
            ["on"] + self.listed("|", lambda: [r.choice(["QUERY", "FIELD", "SCHEMA", "ENUM_VALUE", "INPUT_FIELD_DEFINITION", "VARIABLE_DEFINITION"])])

    def system(self):
        return self.many(self.definition, 1, 3)


class Sound(Tree):
    """type system documents whose references resolve, so that a schema builds from them"""
    POOL = {"object": ["type"], "interface": ["on"], "input": ["input"], "enum": ["enum", "query"], "scalar": ["Int", "String", "scalar"], "union": ["union"]}
    DIRS = ["deprecated", "d", "on", "fragment"]

    def dirs(self, const=True, p=0.25):
        r = self.r
        out = []
        while r.p(p):
            out += ["@", r.choice(self.DIRS)] + self.args(True)
        return out

    def type(self, d=2, out=False):
        r = self.r
        ks = ["object", "interface", "enum", "scalar", "union"] if out else ["input", "enum", "scalar"]
        return (["["] + self.type(d - 1, out) + ["]"] if d and r.p(0.4) else [r.choice(self.POOL[r.choice(ks)])]) + (["!"] if r.p(0.4) else [])

    def field(self):
        return self.desc() + [self.name()] + (["("] + self.many(self.input, 1, 2) + [")"] if self.r.p(0.3) else []) + [":"] + self.type(2, True) + self.dirs(True, 0.15)

    def define(self, k, name):
        r = self.r
        out = self.desc()
        if k == "scalar":
            return out + ["scalar", name] + self.dirs(True)
        if k in ("object", "interface"):
            return out + ["type" if k == "object" else k, name] + (["implements"] + self.listed("&", lambda: ["on"]) if r.p(0.3) else []) + \
                self.dirs(True) + ["{"] + self.many(self.field) + ["}"]
        if k == "union":
            return out + ["union", name] + self.dirs(True) + ["="] + self.listed("|", lambda: ["type"])
        if k == "enum":
            return out + ["enum", name] + self.dirs(True) + ["{"] + self.many(lambda: self.desc() + [r.choice(["A", "B", "on", "type", "_x"])] + self.dirs(True, 0.15)) + ["}"]
        if k == "input":
            return out + ["input", name] + self.dirs(True) + ["{"] + self.many(self.input) + ["}"]
        return out + ["directive", "@", name] + (["("] + self.many(self.input, 1, 2) + [")"] if r.p(0.3) else []) + (["repeatable"] if r.p(0.3) else []) + \
            ["on"] + self.listed("|", lambda: [r.choice(["QUERY", "FIELD", "SCHEMA", "ENUM_VALUE", "INPUT_FIELD_DEFINITION", "VARIABLE_DEFINITION"])])

    def system(self):
        r = self.r
        defs = [self.define(k, n) for k, ns in self.POOL.items() for n in ns if n not in ("Int", "String")]
        defs += [self.define(r.choice(list(self.POOL)), "X%d" % i) for i in range(r.randint(0, 2))]
        defs += [self.define("directive", n) for n in self.DIRS[1:]]
        if r.p(0.5):
            q = r.choice(["Query", "type"])
            roots = [["query", ":", q]] + [[o, ":", "Q%d" % j] for j, o in enumerate(["mutation", "subscription"]) if r.p(0.4)]
            defs.append(self.desc() + ["schema"] + self.dirs(True) + ["{"] + sum(r.sample(roots, len(roots)), []) + ["}"])
            defs += [self.define("object", "Q%d" % j) for j in range(2)]
            defs += [self.define(r.choice(["object", "object"] + list(self.POOL)), n) for n in ["Mutation", "Subscription"] if r.p(0.2)]
            defs += [self.define("object", "Query")] if q == "Query" or r.p(0.2) else []
        else:
            defs += [self.define("object", n) for n in ["Query", "Mutation", "Subscription"] if n == "Query" or r.p(0.3)]
            if r.p(0.1) and not any("Mutation" in d for d in defs):
                defs.append(self.define(r.choice(["union", "input", "enum", "scalar", "interface"]), "Mutation"))
        r.shuffle(defs)
        return sum(defs, [])


SOUP = ["!", "&", "(", ")", "...", ":", "=", "@", "[", "]", "{", "|", "}", "$v", "name", "on", "query", "fragment", "type", "schema", "true", "null",
        "implements", "repeatable", "1", "1.5", '"s"', '"""b"""', "FIELD", "directive", "enum", "input", "union", "extend", "subscription", "scalar", "interface"]


def mutate(r, toks, n=1):
    toks = list(toks)
    for _ in range(n):
        i = r.randrange(len(toks) + 1)
        x = r.random()
        if x < 0.25 and toks:
            del toks[min(i, len(toks) - 1)]
        elif x < 0.5:
            toks.insert(i, r.choice(SOUP))
        elif x < 0.75 and toks:
            toks[min(i, len(toks) - 1)] = r.choice(SOUP)
        elif x < 0.85 and len(toks) > 1:
            i = r.randrange(len(toks) - 1)
            toks[i], toks[i + 1] = toks[i + 1], toks[i]
        else:
            toks = toks[:i]
    return toks


IGNORED = [" ", " ", "\n", "\t", ",", "\r\n", "\r", "\ufeff", "# c\n", "#\u00e9\U0001F525 \u2028\u0085\x0b\x0c{\r\n", "#\r", "   ", "\n\n", ",,"]


def fuses(prev, t):
    """would the two tokens be read differently when nothing separates them?"""
    word = prev[-1].isalnum() or prev[-1] == "_"
    return (word and (t[0].isalnum() or t[0] in "_-.")) or (prev[-1] == '"' and t[0] == '"') or (prev[-1] == "." and t[0] == ".") or prev[-1] == "-"


def layout(r, toks, plain=False, split=True):
    out = []
    prev = ""
    lead = "" if plain or r.p(0.7) else r.choice(IGNORED)
    for t in toks:
        if prev:
            if plain:
                out.append(" ")
            else:
                ws = "" if r.p(0.35) else "".join(r.choice(IGNORED) for _ in range(r.choice([1, 1, 1, 2, 3])))
                out.append(ws or (" " if fuses(prev, t) else ""))
        if split and not plain and t[0] == "$" and r.p(0.1):
            t = "$" + r.choice(IGNORED) + t[1:]
        out.append(t)
        prev = t
    return lead + "".join(out) + ("" if plain or r.p(0.7) else r.choice(IGNORED + ["#", "# end"]))
