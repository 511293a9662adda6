"""Per-class summaries of the contact constraints (all fields, q, v symbolic)."""
from .alg import *
from .ai import State, Undecided, path
from .aix import Interp
from .model import *

DIM = {"ball2d": 2, "rigidbody2d": 2, "rigidbody3d": 3}
NB = ("nbodies",)


def norm_nb(x):
    """q and v describe the same number of bodies"""
    def f(y):
        if isinstance(y, tuple) and len(y) == 3 and y[0] == "idiv" and isinstance(y[2], P) and y[2].is_const():
            s = y[1]
            a = s.as_atom() if isinstance(s, P) else None
            if isinstance(a, tuple) and a[0] in ("size", "rows"):
                w = a[1].as_atom() if isinstance(a[1], M) else a[1]
                nm = w[1] if isinstance(w, tuple) and len(w) == 2 and w[0] == "in" else ""
                k = int(y[2].cval())
                if (nm == "v" and k == 6) or (nm == "q" and k == 12):
                    return NB
        return None
    return subst(x, f)


def vidx(a):
    """index of a velocity element atom, else None"""
    if isinstance(a, tuple) and len(a) == 3 and a[0] == "el" and a[1] == ("in", "v"):
        return a[2]
    return None


def vcoeffs(p):
    """{index: coefficient}, rest  for an expression linear in v (None if it is not)"""
    d, rest = {}, {}
    out = {}
    for m, c in p.t.items():
        vs = [(i, e) for i, e in m if vidx(atom_of(i)) is not None]
        if not vs:
            rest[m] = c
            continue
        if len(vs) > 1 or vs[0][1] != 1:
            return None, None
        i = vs[0][0]
        out.setdefault(vidx(atom_of(i)), {})[tuple(x for x in m if x[0] != i)] = c
    r = P(rest)
    if contains(r, lambda y: vidx(y) is not None) or any(contains(P(x), lambda y: vidx(y) is not None) for x in out.values()):
        return None, None
    return {k: P(v) for k, v in out.items()}, r


class Dead:
    """the operation ends the program: not supported by this class"""


class Con:
    def __init__(self, m, cls, opaque_helpers=False, rep=None):
        self.m, self.cls, self.dim, self.rep = m, cls, DIM[m.domain], rep
        self.opq = opaque_helpers
        self.memo = {}

    def fn(self, name):
        return self.m.method(self.cls, name)

    def interp(self, hooks=None):
        inl = None
        if self.opq:
            own = {self.cls} | set(self.m.bases(self.cls))
            inl = lambda fn: not (fn.cls in own and not fn.virt and fn.const and not fn.ctor and fn.ret != "void" and not any(
                b in fn.ret for b in ("bool",)))
        I = Interp(self.m, hooks=hooks, inline=inl)
        I.generic = True
        return I

    def run(self, name, args=None, pre=None, hooks=None):
        key = (name, str(args), tuple((pre or {}).items()))
        if key in self.memo:
            return self.memo[key]
        fn = self.fn(name)
        if fn is None:
            r = None
        else:
            I = self.interp(hooks)
            st = State()
            for l, v in (pre or {}).items():
                st.store[l] = v
            a = args
            if a is None:
                a = [("loc", ("obj", CANON.get((name, i), p["n"] or "arg%d" % i))) for i, p in enumerate(fn.params)]
            try:
                v, s = I.run(fn, thiscls=self.cls, args=a, st=st)
            except Undecided as e:
                v, s = ("unk", 0, str(e)), State()
            if self.rep is not None:
                self.rep.saw(I)
            r = (v, s, I) if s is not None else Dead
        self.memo[key] = r
        return r

    def supported(self, name):
        r = self.run(name)
        return r is not None and r is not Dead

    def where(self, name):
        fn = self.fn(name)
        return "%s %s" % (fn.where(), fn.q) if fn else self.cls

    # -------------------------------------------------------------- pieces
    def scalar(self, name):
        r = self.run(name)
        if r is None or r is Dead:
            return r
        v = r[0]
        return norm_nb(v) if isinstance(v, P) else v

    def vec(self, name, k=None, pre=None, hooks=None):
        r = self.run(name, pre=pre, hooks=hooks)
        if r is None or r is Dead:
            return r
        return self.tovec(r[0], k or self.dim)

    def tovec(self, v, k):
        if isinstance(v, V) and len(v.e) == k:
            return norm_nb(V(k, 1, v.e))
        if isinstance(v, M):
            return norm_nb(V(k, 1, [v.el(num(i)) if v.t else ZERO for i in range(k)]))
        return None

    def outvec(self, name, obj, k):
        r = self.run(name)
        if r is None or r is Dead:
            return r
        v, s, I = r
        return self.tovec(I.load(s, ("obj", obj), "Eigen::Matrix<double, -1, 1>"), k)

    def bodies(self, name="getSimulatedBodyIndices"):
        r = self.run(name)
        if r is None or r is Dead:
            return r
        v, s, I = r
        b = ("obj", CANON[(name, 0)])
        x = I.load(s, b, "?")
        g = lambda n: I.load(s, ("fld", b, n), "int")
        return I.as_p(g("first")), I.as_p(g("second"))

    def column(self, name, obj, pre=None, hooks=None):
        """{row: value} of the entries inserted, list of insert events, column index set"""
        r = self.run(name, pre=pre, hooks=hooks)
        if r is None or r is Dead:
            return r
        v, s, I = r
        out, cols = {}, set()
        L = ("obj", obj)
        for k, val in s.store.items():
            if k[0] == "idx" and k[1] == L:
                ix = k[2]
                if isinstance(ix, tuple):
                    out[norm_nb(ix[0])] = norm_nb(val)
                    cols.add(ix[1])
        ins = [e for e in flat(s.ev) if e[0] == "insert" and e[1] == L]
        odd = [e for e in s.ev if e[0] in ("br", "loop")]
        return out, ins, cols, odd, s


def flat(ev):
    out = []
    for e in ev:
        if e[0] == "br":
            out += flat(e[2]) + flat(e[3])
        elif e[0] == "loop":
            out += flat(e[2])
        else:
            out.append(e)
    return out


# argument names used by the analysis (independent of the names in the source)
CANON = {
    ("evalNdotV", 0): "q", ("evalNdotV", 1): "v",
    ("evalgradg", 0): "q", ("evalgradg", 1): "col", ("evalgradg", 2): "G", ("evalgradg", 3): "fsys",
    ("computeRelativeVelocity", 0): "q", ("computeRelativeVelocity", 1): "v",
    ("computeKinematicRelativeVelocity", 0): "q", ("computeKinematicRelativeVelocity", 1): "v",
    ("evalKinematicNormalRelVel", 0): "q", ("evalKinematicNormalRelVel", 1): "strt_idx", ("evalKinematicNormalRelVel", 2): "gdotN",
    ("computeGeneralizedFrictionGivenTangentSample", 0): "q", ("computeGeneralizedFrictionGivenTangentSample", 1): "t",
    ("computeGeneralizedFrictionGivenTangentSample", 2): "column", ("computeGeneralizedFrictionGivenTangentSample", 3): "D",
    ("computeGeneralizedFrictionDisk", 0): "q", ("computeGeneralizedFrictionDisk", 1): "v", ("computeGeneralizedFrictionDisk", 2): "start_column",
    ("computeGeneralizedFrictionDisk", 3): "num_samples", ("computeGeneralizedFrictionDisk", 4): "D", ("computeGeneralizedFrictionDisk", 5): "drel",
    ("evalH", 0): "q", ("evalH", 1): "basis", ("evalH", 2): "H0", ("evalH", 3): "H1",
    ("computeContactBasis", 0): "q", ("computeContactBasis", 1): "v", ("computeContactBasis", 2): "basis",
    ("getSimulatedBodyIndices", 0): "bodies", ("getBodyIndices", 0): "bodies",
    ("resolveImpact", 0): "CoR", ("resolveImpact", 1): "M", ("resolveImpact", 2): "ndotv", ("resolveImpact", 3): "vout", ("resolveImpact", 4): "alpha",
    ("evaluateGapFunction", 0): "q", ("getWorldSpaceContactPoint", 0): "q", ("getWorldSpaceContactPoint", 1): "contact_point",
    ("getWorldSpaceContactNormal", 0): "q", ("getWorldSpaceContactNormal", 1): "contact_normal",
    ("setBodyIndex0", 0): "idx", ("setBodyIndex1", 0): "idx", ("computePenetrationDepth", 0): "q", ("computeOverlapVolume", 0): "q",
}


class Dof:
    """velocity indices of body b"""
    def __init__(self, dom):
        self.dom = dom

    def lin(self, b):
        k = {"ball2d": 2, "rigidbody2d": 3, "rigidbody3d": 3}[self.dom]
        return [num(k) * b + num(i) for i in range(DIM[self.dom])]

    def ang(self, b):
        if self.dom == "ball2d":
            return []
        if self.dom == "rigidbody2d":
            return [num(3) * b + num(2)]
        return [num(3) * P.atom(NB) + num(3) * b + num(i) for i in range(3)]

    def qlin(self, b):
        return self.lin(b)

    def all(self, b):
        return self.lin(b) + self.ang(b)


def vat(i):
    return P.atom(("el", ("in", "v"), i))


def qat(i):
    return P.atom(("el", ("in", "q"), i))


def eqd(a, b):
    """True / False / None"""
    if a == b:
        return True
    if inexact(a) or inexact(b):
        return None
    return False


def path_class(m, cls, names):
    """class of the object reached from an object of class cls through the given fields"""
    for n in names:
        f = next((x for x in m.fields(cls) if x["n"] == n), None)
        if f is None:
            return None
        cls = strip_t(f["t"])
    return cls


def ctors(m, cls):
    """constructors that establish an object from its parts (not copies, not readers of a stream)"""
    out = []
    for fn in m.by_q.get(cls + "::" + cls.split("::")[-1], []):
        ts = [fn.ptype(i) for i in range(len(fn.params))]
        if not fn.ctor or not ts or any("stream" in t for t in ts) or (len(ts) == 1 and strip_t(ts[0]).rstrip("& ") == cls):
            continue
        out.append(fn)
    return out


def ctor_fields(m, fn, names, dim, rep=None):
    """values of the named vector fields after a constructor"""
    I = Interp(m)
    v, s = I.run(fn, thiscls=fn.cls)
    if rep is not None:
        rep.saw(I)
    if s is None:
        return None
    out = []
    for n in names:
        x = I.load(s, ("fld", ("obj", "this"), n), "Eigen::Matrix<double, %d, 1>" % dim)
        out.append(x if isinstance(x, V) else V(dim, 1, [x.el(num(i)) for i in range(dim)]) if isinstance(x, M) else None)
    return out


def field_of(p):
    """(object path, field, index) if p is +-one element of a vector field"""
    a = p.as_atom()
    if isinstance(a, tuple) and a[0] == "el" and isinstance(a[1], tuple) and a[1][0] == "in" and a[1][1].startswith("this."):
        names = a[1][1].split(".")[1:]
        return names[:-1], names[-1], a[2]
    return None


def perp_by_ctor(m, cls, t, n, rep=None):
    """t and n are 2D fields of one object, and every constructor makes t the normal turned by ninety degrees"""
    ft, fn = [field_of(x) for x in t], [field_of(x) for x in n]
    if any(x is None for x in ft + fn) or any(x[0] != ft[0][0] for x in ft + fn) or ft[0][1] != ft[1][1] or fn[0][1] != fn[1][1]:
        return None
    c = path_class(m, cls, ft[0][0])
    cs = ctors(m, c) if c else []
    if not cs:
        return None
    for k in cs:
        r = ctor_fields(m, k, [ft[0][1], fn[0][1]], 2, rep)
        if r is None or any(x is None for x in r):
            return None
        if eqd(r[0], V(2, 1, [-r[1].e[1], r[1].e[0]])) is not True:
            return eqd(r[0], V(2, 1, [-r[1].e[1], r[1].e[0]]))
    return True
