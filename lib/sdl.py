"""Type system documents with repeated and broken definitions: their text, one token per line, and
the same document annotated with the line of each token an error can be blamed on."""
from .gql import *


def blank_doc():
    return {"schemas": [], "types": [], "directives": []}


def block(roots, dirs=(), desc=None):
    """roots: [(operation, type name)]"""
    return {"desc": [] if desc is None else [desc], "dirs": list(dirs), "roots": [{"op": o, "n": n} for o, n in roots]}


def document(s, explicit=None):
    """the document a schema (gql.schema) is written as"""
    d = {"schemas": [], "types": json.loads(json.dumps(s["types"])), "directives": json.loads(json.dumps(s["directives"]))}
    if needs_schema_block(s) if explicit is None else explicit:
        b = block([(o, s[o]) for o in ("query", "mutation", "subscription") if s[o]], s["dirs"])
        b["desc"] = s["desc"]
        d["schemas"].append(b)
    for t in d["types"]:
        t["ifaces"] = [{"n": n} for n in t["ifaces"]]
        t["members"] = [{"n": n} for n in t["members"]]
    return d


class Emitter:
    """Tokens and the annotated copy, built together. Every token stands on its own line."""

    def __init__(self):
        self.toks = []

    def put(self, *ts):
        self.toks += ts
        return len(self.toks)          # the line of the last one

    def type(self, t):
        if t["k"] == "L":
            self.put("[")
            of = self.type(t["of"])
            self.put("]")
            out = {"k": "L", "of": of, "r": t["r"]}
        else:
            out = {"k": "N", "n": t["n"], "r": t["r"], "at": self.put(t["n"])}
        if t["r"]:
            self.put("!")
        return out

    def dirs(self, ds):
        out = []
        for d in ds:
            at = self.put("@")
            self.put(d["n"], *tokens_args(d["args"]))
            out.append({"n": d["n"], "at": at, "args": d["args"]})
        return out

    def desc(self, d):
        self.put(*desc_tokens(d))
        return d

    def iv(self, v):
        o = {"name": v["name"], "desc": self.desc(v["desc"]), "def": v["def"]}
        self.put(v["name"], ":")
        o["type"] = self.type(v["type"])
        if v["def"]:
            self.put("=", *tokens_value(v["def"][0]))
        o["dirs"] = self.dirs(v["dirs"])
        return o

    def args(self, a):
        if not a:
            return []
        self.put("(")
        out = [self.iv(x) for x in a]
        self.put(")")
        return out

    def refs(self, xs, sep):
        out = []
        for i, x in enumerate(xs):
            if i:
                self.put(sep)
            out.append({"n": x["n"], "at": self.put(x["n"])})
        return out

    def typedef(self, t):
        k = t["k"]
        o = {"k": k, "name": t["name"], "desc": self.desc(t["desc"]), "ifaces": [], "fields": [], "members": [], "values": []}
        self.put({"object": "type", "interface": "interface", "union": "union", "enum": "enum", "input": "input", "scalar": "scalar"}[k])
        o["at"] = self.put(t["name"])
        if t["ifaces"]:
            self.put("implements")
            o["ifaces"] = self.refs(t["ifaces"], "&")
        o["dirs"] = self.dirs(t["dirs"])
        if k in ("object", "interface"):
            self.put("{")
            for f in t["fields"]:
                g = {"name": f["name"], "desc": self.desc(f["desc"])}
                self.put(f["name"])
                g["args"] = self.args(f["args"])
                self.put(":")
                g["type"] = self.type(f["type"])
                g["dirs"] = self.dirs(f["dirs"])
                o["fields"].append(g)
            self.put("}")
        elif k == "union":
            self.put("=")
            o["members"] = self.refs(t["members"], "|")
        elif k == "enum":
            self.put("{")
            for v in t["values"]:
                g = {"name": v["name"], "desc": self.desc(v["desc"])}
                self.put(v["name"])
                g["dirs"] = self.dirs(v["dirs"])
                o["values"].append(g)
            self.put("}")
        elif k == "input":
            self.put("{")
            o["fields"] = [self.iv(f) for f in t["fields"]]
            self.put("}")
        return o

    def ddef(self, d):
        o = {"name": d["name"], "desc": self.desc(d["desc"]), "rep": d["rep"], "locs": d["locs"]}
        self.put("directive", "@")
        o["at"] = self.put(d["name"])
        o["args"] = self.args(d["args"])
        self.put(*((["repeatable"] if d["rep"] else []) + ["on"]))
        for i, l in enumerate(d["locs"]):
            self.put(*((["|"] if i else []) + [l]))
        return o

    def block(self, b):
        o = {"desc": self.desc(b["desc"])}
        o["at"] = self.put("schema")
        o["dirs"] = self.dirs(b["dirs"])
        o["body"] = self.put("{")
        o["roots"] = []
        for x in b["roots"]:
            self.put(x["op"], ":")
            o["roots"].append({"op": x["op"], "n": x["n"], "at": self.put(x["n"])})
        self.put("}")
        return o

    def document(self, d, order=None):
        """order: a shuffled list of (kind, definition); the lists of the result follow it"""
        out = blank_doc()
        for kind, x in order or ([("schemas", b) for b in d["schemas"]] + [("directives", x) for x in d["directives"]] + [("types", t) for t in d["types"]]):
            out[kind].append({"schemas": self.block, "types": self.typedef, "directives": self.ddef}[kind](x))
        return out

    def text(self):
        return "\n".join(self.toks)
