"""Whole-program model assembled from the per-TU extracts."""
import re
from . import extract as X


class Fn:
    __slots__ = ("d", "types", "tu", "name", "q", "usr", "cls", "file", "line", "params", "body", "const", "virt",
                 "static", "ctor", "dtor", "ret", "inits", "over", "dep", "targs", "endline", "internal")

    def __init__(self, d, types, tu):
        self.d, self.types, self.tu = d, types, tu
        f = d["fn"]
        self.name, self.q, self.usr = d["name"], f["q"], f["u"]
        self.cls = f.get("cls")
        self.file, self.line, self.endline = d["file"], d["line"], d["endline"]
        self.params, self.body = d["params"], d["body"]
        self.const, self.virt, self.static = f.get("const", False), f.get("virt", False), f.get("static", False)
        self.ctor = f.get("ctor")
        self.dtor = d.get("dtor", False)
        self.ret = types[d["ret"]]
        self.inits = d.get("inits", [])
        self.over = d.get("over", [])
        self.dep = d.get("dep", False)
        self.targs = f.get("targs")
        self.internal = d.get("internal", False)

    def ty(self, node):
        t = node.get("t")
        return self.types[t] if t is not None else "?"

    def ptype(self, i):
        return self.types[self.params[i]["t"]]

    def where(self, node=None):
        return "%s:%d" % (self.file, (node.get("l") if node else None) or self.line)

    def __repr__(self):
        return "<Fn %s %s:%d>" % (self.q, self.file, self.line)


DOMAINS = ("ball2d", "rigidbody2d", "rigidbody3d")


def domain_of(path):
    top = path.split("/")[0]
    for d in DOMAINS:
        if top.startswith(d):
            return d
    return "scisim"


_cache = {}


def models(config="full"):
    """one model per application: the three applications reuse class names"""
    return [model(d, config) for d in DOMAINS]


def model(domain, config="full"):
    if (domain, config) not in _cache:
        _cache[(domain, config)] = Model(domain, config)
    return _cache[(domain, config)]


class Model:
    def __init__(self, domain, config="full"):
        self.config, self.domain = config, domain
        self.tus = [(s, d) for s, d in X.extract(config) if domain_of(s) in (domain, "scisim")]
        self.fns = {}          # (usr, file) -> Fn
        self.by_usr = {}       # usr -> [Fn]
        self.recs, self.enums, self.globals = {}, {}, {}
        self.errors = {}
        for src, d in self.tus:
            if d["errors"]:
                self.errors[src] = d["errors"]
            types = d["types"]
            for f in d["fns"]:
                fn = Fn(f, types, src)
                key = (fn.usr, fn.file, fn.line)
                if key in self.fns:
                    continue
                self.fns[key] = fn
                self.by_usr.setdefault(fn.usr, []).append(fn)
            for r in d["recs"]:
                r["types"] = types
                self.recs.setdefault(r["q"], r)
            for e in d["enums"]:
                self.enums.setdefault(e["q"], e)
            for g in d["globals"]:
                g["types"] = types
                k = (g["u"], g["file"])
                self.globals.setdefault(k, g)
        self.subs = {}
        for q, r in self.recs.items():
            for b in r["bases"]:
                self.subs.setdefault(b, []).append(q)
        self.overriders = {}   # base method usr -> set of Fn overriding (transitively)
        for fn in list(self.fns.values()):
            for o in fn.over:
                self.overriders.setdefault(o, []).append(fn)
        self.by_q = {}
        for fn in self.fns.values():
            self.by_q.setdefault(fn.q, []).append(fn)
        self.by_name = {}
        for fn in self.fns.values():
            self.by_name.setdefault(fn.name, []).append(fn)

    def resolve(self, fref, caller=None):
        """definition of the function a call refers to (no virtual dispatch)"""
        c = self.by_usr.get(fref["u"])
        if not c:
            return None
        if len(c) == 1:
            return c[0] if not c[0].dep else None
        if caller is not None:
            for x in c:
                if x.file == caller.file and not x.dep:
                    return x
            for x in c:
                if x.tu == caller.tu and not x.dep:
                    return x
        return c[0] if not c[0].dep else None

    def bases(self, q, acc=None):
        acc = [] if acc is None else acc
        for b in self.recs.get(q, {}).get("bases", []):
            if b not in acc:
                acc.append(b)
                self.bases(b, acc)
        return acc

    def derived(self, q, acc=None):
        acc = [] if acc is None else acc
        for b in self.subs.get(q, []):
            if b not in acc:
                acc.append(b)
                self.derived(b, acc)
        return acc

    def concrete(self, q):
        return sorted(x for x in self.derived(q) + [q] if x in self.recs and not self.recs[x]["abstract"])

    def method(self, cls, name, pred=None):
        """most derived definition of a method seen from class cls"""
        for c in [cls] + self.bases(cls):
            for fn in self.by_q.get(c + "::" + name, []):
                if fn.cls == c and not fn.dep and (pred is None or pred(fn)):
                    return fn
        return None

    def overrider_for(self, usr, cls, name):
        return self.method(cls, name)

    def fields(self, cls, inherited=True):
        out = []
        if inherited:
            for b in reversed(self.bases(cls)):
                out += [dict(f, cls=b) for f in self.recs.get(b, {}).get("fields", [])]
        out += [dict(f, cls=cls) for f in self.recs.get(cls, {}).get("fields", [])]
        return out


def walk(n):
    """all dict nodes below n, preorder"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(reversed([v for v in x.values() if isinstance(v, (dict, list))]))
        elif isinstance(x, list):
            st.extend(reversed(x))


def strip_t(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for s in ("const ",):
            if t.startswith(s):
                t = t[len(s):]; ch = True
        for s in (" const", "&", "*const"):
            if t.endswith(s) and s != "*const":
                t = t[:-len(s)].strip(); ch = True
    return t
