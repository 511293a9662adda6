"""P04: the contact cache returns exactly what was stored for that contact."""
from ..model import models
from ..constraints import *
from ..alg import *
from ..ai import State, Undecided, path, base_type
from ..aix import Interp
from ..report import Report
from .. import par

RULE = ("for every concrete contact class, storing and looking up are interpreted abstractly on a generic contact through the simulation's own interface: "
        "the looked-up impulse is the stored one, an empty cache and contacts of other kinds give zero, keys name both participants, clearing empties every table and emptiness looks at every table")
THIS = ("obj", "this")


def tables(m, cls):
    """locations of the maps of the cache inside the simulation object"""
    out = []

    def rec(loc, c, d):
        for f in m.fields(c):
            l = ("fld", loc, f["n"])
            t = base_type(f["t"])
            if t.startswith("std::map<") or t.startswith("std::unordered_map<"):
                out.append((l, f["t"]))
            elif t in m.recs and d < 3:
                rec(l, t, d + 1)
    rec(THIS, cls, 0)
    return out


def used_tables(m, cls):
    """tables reachable from the cache interface (the maps some store, look-up, clear or emptiness function of the interface touches)"""
    names = set()
    seen = set()

    def rec(fn):
        if fn is None or fn.usr in seen:
            return
        seen.add(fn.usr)
        for n in walk(fn.body):
            if n.get("k") == "mem":
                names.add(n["n"])
            f = n.get("f")
            if isinstance(f, dict) and f.get("repo"):
                rec(m.resolve(f, fn))
    for nm in API:
        rec(m.method(cls, nm))
    return [(l, t) for l, t in tables(m, cls) if l[2] in names]


API = ("cacheConstraint", "getCachedConstraintImpulse", "clearConstraintCache", "constraintCacheEmpty")


class Cache:
    def __init__(self, m, cls, rep):
        self.m, self.cls, self.rep = m, cls, rep
        self.tabs = used_tables(m, cls)

    def empty(self):
        st = State()
        for l, _ in self.tabs:
            st.store[l] = ("empty",)
        return st

    def run(self, name, args, st, con=()):
        I = Interp(self.m)
        I.generic = True
        for o, c in con:
            I.dyncls[("obj", o)] = c
        v, s = I.run(self.m.method(self.cls, name), this=THIS, thiscls=self.cls, args=[("loc", ("obj", a)) for a in args], st=st)
        self.rep.saw(I)
        return v, s

    def contents(self, s):
        I = Interp(self.m)
        I.generic = True
        return {l: I.load(s, l, t) for l, t in self.tabs}

    def store(self, c, o="con", st=None):
        return self.run("cacheConstraint", [o, "r_" + o], st or self.empty(), [(o, c)])[1]

    def lookup(self, c, st, o="con"):
        v, s = self.run("getCachedConstraintImpulse", [o, "out"], st, [(o, c)])
        if s is None:
            return Dead
        I = Interp(self.m)
        I.generic = True
        return I.load(s, ("obj", "out"), "Eigen::Matrix<double, -1, 1>")


def copy(st):
    s = State()
    s.store = dict(st.store)
    return s


def iszero(v):
    if isinstance(v, M):
        a = v.as_atom() if v.t else None
        return not v.t or isinstance(a, tuple) and a and a[0] in ("zeros", "zero")
    return v == ZERO or (isinstance(v, V) and all(e == ZERO for e in v.e))


def ids(C):
    """the values that tell one contact of this class from another: its participants"""
    out = []
    for nm in ("getBodyIndices", "getSimulatedBodyIndices"):
        r = C.run(nm)
        if r is None or r is Dead:
            continue
        v, s, I = r
        fn = C.fn(nm)
        for k in ("first", "second"):
            out.append(I.load(s, ("fld", ("obj", fn.params[0]["n"]), k), "int"))
    r = C.run("getStaticObjectIndex")
    if r is not None and r is not Dead:
        out.append(r[0])
    res = []
    for x in out:
        if isinstance(x, P) and not x.is_const() and x not in res and not has_unk(x):
            res.append(x)
    for f in C.m.fields(C.cls):
        n = f["n"].lower()
        if base_type(f["t"]) in ("unsigned int", "int", "unsigned long") and ("idx" in n or "index" in n):
            x = P.atom(("in", "this." + f["n"]))
            if x not in res:
                res.append(x)
    return res


def analyse(rep, item):
    dom, cls = item
    m = model(dom)
    K = Cache(m, cls, rep)
    lab = "%s/%s" % (dom, cls)
    wh = {nm: "%s %s" % (m.method(cls, nm).where(), m.method(cls, nm).q) for nm in API}
    rep.count("tables", len(K.tabs))
    # clear / empty
    _, s = K.run("clearConstraintCache", [], State())
    cont = K.contents(s)
    for l, t in K.tabs:
        rep.decide("%s: clearing empties %s" % (lab, l[2]), cont[l] == ("empty",), wh["clearConstraintCache"], "table still holds %s" % (str(cont[l])[:100],))
    v, _ = K.run("constraintCacheEmpty", [], K.empty())
    rep.decide("%s: an empty cache is reported empty" % lab, True if v is True else False if v is False else None, wh["constraintCacheEmpty"], str(v)[:200])
    for l, t in K.tabs:
        st = K.empty()
        st.store[l] = ("seq", ("empty",), (("kv", ("kv", ONE, ONE), ("in", "r")),))
        v, _ = K.run("constraintCacheEmpty", [], st)
        rep.decide("%s: an entry in %s makes the cache not empty" % (lab, l[2]), True if v is False else False if v is True else None, wh["constraintCacheEmpty"], str(v)[:200])
    # store / look up
    stored = {}
    for c in m.concrete("Constraint"):
        try:
            s = K.store(c)
        except Undecided as e:
            rep.und("%s: storing a %s" % (lab, c), wh["cacheConstraint"], str(e))
            continue
        if s is None:
            rep.count("contact kinds refused by the cache")
            continue
        stored[c] = s
        rep.count("contact kinds stored")
        k = "%s: %s" % (lab, c)
        cont = {l: x for l, x in K.contents(s).items() if x != ("empty",)}
        ent = [(l, e) for l, x in cont.items() if isinstance(x, tuple) and x[0] == "seq" for e in x[2]]
        rep.decide("%s is stored once" % k, True if len(cont) == 1 and len(ent) == 1 else False if len(cont) == 0 or len(ent) > 1 else None, wh["cacheConstraint"],
                   "stored in %s" % [l[2] for l in cont])
        r = K.lookup(c, copy(s))
        if r is Dead:
            rep.bad("%s: the stored impulse is found" % k, wh["getCachedConstraintImpulse"], "the look-up refuses a kind that can be stored")
            continue
        want = M.atom(("in", "r_con"))
        ok = r == want
        rep.decide("%s: the stored impulse is found" % k, True if ok else None if has_unk(r) else False, wh["getCachedConstraintImpulse"], "found %s" % show(r)[:300])
        z = K.lookup(c, K.empty())
        rep.decide("%s: nothing stored gives zero" % k, True if iszero(z) else None if z is Dead or has_unk(z) else False, wh["getCachedConstraintImpulse"], "found %s" % show(z)[:300])
        # the key tells contacts of this kind apart
        if len(ent) == 1 and ent[0][1][0] == "kv":
            key = ent[0][1][1]
            for x in ids(Con(m, c)):
                y = subst(x, lambda a: ("in", "con" + a[1][4:]) if isinstance(a, tuple) and len(a) == 2 and a[0] == "in" and isinstance(a[1], str) and a[1].startswith("this.") else None)
                at = y.as_atom() if isinstance(y, P) else None
                if at is None:
                    continue
                rep.decide("%s: the key depends on %s" % (k, show(x)), True if contains(key, lambda q: q == at) else None if has_unk(key) else False, wh["cacheConstraint"], "key is %s" % show(key)[:300])
    for c, s in stored.items():
        for d in stored:
            if d == c:
                continue
            r = K.lookup(d, copy(s), "other")
            ok = iszero(r) if r is not Dead else True
            rep.decide("%s: storing a %s does not answer for a %s" % (lab, c, d), True if ok else None if has_unk(r) else False, wh["getCachedConstraintImpulse"], "found %s" % show(r)[:300])


def items():
    out = []
    for m in models():
        for c in m.concrete("ConstrainedSystem"):
            if all(m.method(c, n) for n in API):
                out.append((m.domain, c))
    return out


def run(tier):
    rep = Report("P04", RULE, ["std::map keeps at most one value per key"])
    its = items()
    rep.require("simulations with a contact cache", len(its), 3)
    par.each(rep, its, analyse, budget=300, name=lambda it: "%s/%s" % it)
    return rep
