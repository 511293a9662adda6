"""P14: a contact is the touching of two bodies: made exactly when they touch, with their own geometry."""
from ..model import models
from ..proto import *
from ..ai import State, root_of, Undecided, base_type
from ..report import Report
from .. import par
from .p13 import flat2, conds, loops, Sim, bool_equal, bool_atoms, opaque, bodies_count, bool_val
from ..constraints import NB
from fractions import Fraction
import itertools

RULE = ("every place that creates a contact is evaluated as value numbers for each combination of shapes, scripted bodies and periodic images; the condition it depends on and the "
        "normal, arms, partner velocity and bodies of the contact object it creates are compared with the geometry of the two bodies")
DIM = {"ball2d": 2, "rigidbody2d": 2, "rigidbody3d": 3}


def config(fn):
    """names of the routine's configurations, earliest first"""
    return [p["n"] for p in fn.params if "Matrix<double, -1, 1>" in fn.types[p["t"]] and "const" in fn.types[p["t"]]]


class Contact:
    def __init__(self, cls, loc, where):
        self.cls, self.loc, self.where = cls, loc, where
        self.v = {}


class Narrow(Proto):
    """one routine creating contacts, in one situation"""

    def __init__(self, m, fn, apis=(), fixed=None, kind=None, truth=None, args=None, st=None, extra=None, empty=()):
        self.fn, self.fixed, self.kind, self.more = fn, fixed, kind, truth
        self.contacts, self.cls, self.ccds = [], {}, {}
        self.apiset = set(apis)
        self.start = (config(fn) or ["q0"])[0]
        ex = {"CollisionDetectionUtilities::ballBallCCDCollisionHappens": ccd}
        ex.update(extra or {})
        Proto.__init__(self, m, self.pick, decide=self.which, extra=ex)
        self.I.hooks["construct"] = self.built
        self.I.hooks["append"] = [self.added]
        if empty:
            self.I.sizes = {x: ZERO for x in empty}
        self.run(fn, args=args, st=st)
        self.ev = flat2(self.s.ev) if self.s is not None else []

    def pick(self, f):
        return f["n"] in self.apiset or f["q"] in self.apiset or f["q"].split("::")[0] in self.apiset

    def built(self, I, st, loc, cls, f, args, e):
        if loc not in self.cls:
            self.cls[loc] = cls
        return None

    def added(self, I, st, l, e, n):
        while isinstance(e, tuple) and len(e) == 3 and e[0] == "ctorof":
            e = e[2]
        loc = e[1] if isinstance(e, tuple) and len(e) == 2 and e[0] == "ptr" else None
        cls = self.cls.get(loc)
        if cls is None or "Constraint" not in {cls} | set(self.m.bases(cls)):
            return
        c = Contact(cls, loc, I.where(n))
        for name in ("getBodyIndices", "computeRelativeVelocity", "computeKinematicRelativeVelocity", "getWorldSpaceContactNormal", "getWorldSpaceContactPoint", "evalNdotV", "getStaticObjectIndex", "computePenetrationDepth"):
            c.v[name] = self.ask(st, loc, cls, name)
        st.ev.append(("contact", c))

    def ask(self, st, loc, cls, name):
        fn = self.m.method(cls, name)
        if fn is None or not fn.body:
            return None
        I = Interp(self.m)
        I.generic = True
        I.tags = self.I.tags
        s2 = st.fork() if hasattr(st, "fork") else st.copy()
        s2.ev = []
        a = []
        for p in fn.params:
            t = fn.types[p["t"]]
            a.append(("loc", ("obj", "OUT" if "const" not in t else "v" if a else self.start)))
        try:
            v, s = I.run(fn, this=loc, thiscls=cls, args=a, st=s2)
        except Undecided as u:
            return ("unk", 0, str(u))
        if s is None:
            return ("dead",)
        if name == "getBodyIndices":
            return tuple(I.load(s, ("fld", ("obj", "OUT"), x), "int") for x in ("first", "second"))
        if name in ("getWorldSpaceContactPoint", "getWorldSpaceContactNormal"):
            return I.load(s, ("obj", "OUT"), VEC)
        if isinstance(v, tuple) and v and v[0] == "lref":
            v = I.load(s, v[1], "?")
        return v

    def which(self, p, st, c):
        return self.truth(c)

    def truth(self, c):
        if isinstance(c, bool):
            return c
        if isinstance(c, tuple) and c:
            if c[0] in ("and", "or"):
                vs = [self.truth(x) for x in c[1]]
                if c[0] == "and":
                    return False if False in vs else True if all(v is True for v in vs) else None
                return True if True in vs else False if all(v is False for v in vs) else None
            if c[0] == "not":
                v = self.truth(c[1])
                return None if v is None else not v
            return self.leaf(c)
        return None

    def leaf(self, c):
        if c[0] == "bool" and self.fixed is not None:
            i = flag_index(c[1])
            if i is not None:
                return self.fixed(i)
        if c[0] == "eqt" and self.kind is not None:
            k = kind_test(c)
            if k is not None:
                have = self.kind(k[0])
                return None if have is None else have == k[1]
        return self.more(self, c) if self.more else None


def flag_index(v):
    """i when v says whether body i is scripted"""
    a = v.as_atom() if isinstance(v, P) else v
    if isinstance(a, tuple) and len(a) == 3 and a[0] == "el" and "m_fixed" in str(a[1]):
        return a[2]
    return None


def kind_test(c):
    """(index of the shape or body, kind) of a test of a shape's kind"""
    en = [x for x in c[1] if isinstance(x, tuple) and x and x[0] == "enumc"]
    ot = [x for x in c[1] if x not in en]
    if len(en) != 1 or len(ot) != 1 or "Type::" not in str(en[0]):
        return None
    return ot[0], str(en[0][1]).split("::")[-1]


# ---- values -----------------------------------------------------------------------
def zero(p):
    """is p identically zero, denominators cleared"""
    for _ in range(12):
        if not p.t:
            return True
        den = None
        for mo in p.t:
            for i, e in mo:
                a = atom_of(i)
                if isinstance(a, tuple) and (a[0] == "inv" or e < 0):
                    den = (i, a)
        if den is None:
            return False
        i, a = den
        n = a[1] if a[0] == "inv" else None
        low = {}
        for mo, co in p.t.items():
            k = dict(mo).get(i, 0)
            low.setdefault(k, {})[tuple(x for x in mo if x[0] != i)] = co
        if a[0] == "inv":
            top = max(low)
            out = ZERO
            for k, t in low.items():
                f = ONE
                for _ in range(top - k):
                    f = f * n
                out = out + P(t) * f
        else:
            bot = min(low)
            out = ZERO
            for k, t in low.items():
                out = out + P(t) * P.atom(a, k - bot) if k != bot else out + P(t)
        p = out
    return False


def parts(v, n):
    """the n components of a vector value"""
    if isinstance(v, V):
        return list(v.e) if len(v.e) == n else None
    if isinstance(v, M):
        a = v.as_atom()
        if isinstance(a, tuple) and a[0] == "zeros":
            return [ZERO] * n
        return [v.el(num(k)) for k in range(n)]
    return None


def same(got, exp):
    """True / False / None"""
    if got is None or any(not isinstance(x, P) for x in got):
        return None
    if len(got) == len(exp) and all(g == e or zero(g - e) for g, e in zip(got, exp)):
        return True
    return None if any(has_unk(x) for x in got) else False


def unsquare(c):
    """distance <= length as the squares it stands for"""
    if isinstance(c, tuple) and c and c[0] in ("and", "or"):
        return (c[0], frozenset(unsquare(x) for x in c[1]))
    if isinstance(c, tuple) and c and c[0] == "not":
        return b_not(unsquare(c[1]))
    if isinstance(c, tuple) and c and c[0] in ("le", "lt") and isinstance(c[1], P):
        ss = [a for a in c[1].atoms() if isinstance(a, tuple) and a[0] == "sqrt"]
        if len(ss) == 1:
            r = c[1].coeff(ss[0])
            if r is not None and (r[0] == ONE or r[0] == -ONE) and not contains(r[1], lambda y: y == ss[0]):
                s, k = (ss[0][1] if isinstance(ss[0][1], P) else None), r[0]
                if s is not None:
                    d = s - r[1] * r[1] if k == ONE else r[1] * r[1] - s
                    return (c[0], d)
    return c


def cond_same(c, want):
    c = unsquare(c)
    if c == want:
        return True
    if has_unk(c) or contains(c, lambda y: isinstance(y, tuple) and y and y[0] in ("unk", "uninit", "opaque")):
        return None
    r = bool_equal(c, want)
    return r


def vec_in(name, lo, n):
    return [P.atom(("el", ("in", name), lo + num(k))) for k in range(n)]


class Geo:
    """positions and velocities of the bodies of one domain"""

    def __init__(self, m, qs=("q0", "q1")):
        self.m, self.d, self.qs = m, DIM[m.domain], qs
        self.stride = 2 if m.domain == "ball2d" else 3

    def q(self, q):
        return {"q0": self.qs[0], "q1": self.qs[min(1, len(self.qs) - 1)]}.get(q, q)

    def th(self, i, q):
        return P.atom(("el", ("in", self.q(q)), num(3) * i + num(2)))

    def x(self, i, q):
        return vec_in(self.q(q), num(self.stride) * i, self.d)

    def v(self, i):
        return vec_in("v", num(self.stride) * i, self.d)

    def w(self, i):
        if self.m.domain == "ball2d":
            return None
        if self.d == 2:
            return P.atom(("el", ("in", "v"), num(3) * i + num(2)))
        return vec_in("v", num(3) * P.atom(NB) + num(3) * i, 3)

    def R(self, i, q):
        """components of the orientation matrix"""
        if self.d == 2:
            t = self.th(i, q)
            c, s = P.atom(("fn", "cos", t)), P.atom(("fn", "sin", t))
            return [[c, -s], [s, c]]
        e = vec_in(self.q(q), num(3) * P.atom(NB) + num(9) * i, 9)
        return [[e[3 * a + b] for b in range(3)] for a in range(3)]

    def cross(self, w, a):
        if w is None:
            return [ZERO] * self.d
        if self.d == 2:
            return [-w * a[1], w * a[0]]
        return [w[1] * a[2] - w[2] * a[1], w[2] * a[0] - w[0] * a[2], w[0] * a[1] - w[1] * a[0]]

    def at(self, i, arm):
        """velocity of the material point of body i at this arm"""
        return add(self.v(i), self.cross(self.w(i), arm))


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def mul(s, a):
    return [s * x for x in a]


def dot(a, b):
    return sum_(x * y for x, y in zip(a, b))


def unit(a):
    n = sqrt(dot(a, a))
    return [x * n.inv() for x in a]


def size_nb(x):
    """the number of bodies under one name"""
    def f(y):
        if isinstance(y, tuple) and y and y[0] == "idiv" and len(y) == 3:
            a = y[1].as_atom() if isinstance(y[1], P) else None
            if isinstance(a, tuple) and a[0] in ("size", "rows"):
                return NB
        if isinstance(y, tuple) and len(y) == 2 and y[0] == "in" and str(y[1]).endswith("m_nbodies"):
            return NB
        return None
    return subst(x, f)


class Expect:
    """what one contact has to be"""

    def __init__(self, bodies, n, vel, point=None, depth=None, cond=None, static=None):
        self.bodies, self.n, self.vel, self.point, self.depth, self.cond, self.static = bodies, n, vel, point, depth, cond, static

    def sized(self):
        def f(x):
            if isinstance(x, (list, tuple)) and not (isinstance(x, tuple) and x and isinstance(x[0], str)):
                return type(x)(f(y) for y in x)
            return size_nb(x) if x is not None and not isinstance(x, bool) else x
        return Expect(*[f(x) for x in (self.bodies, self.n, self.vel, self.point, self.depth, self.cond, self.static)])


def any3(rs):
    rs = list(rs)
    return True if True in rs else None if None in rs else False


def judge(rep, m, key, c, cond, e):
    """compare a created contact with its definition"""
    d = DIM[m.domain]
    w = c.where + " (" + c.cls + ")"
    e = e.sized()
    got = c.v["getBodyIndices"]
    gb = tuple(size_nb(x) for x in got) if isinstance(got, tuple) and len(got) == 2 and all(isinstance(x, P) for x in got) else None
    rep.decide(key + " joins its two bodies", None if gb is None or any(has_unk(x) for x in gb) else gb == e.bodies, w, "bodies %s, expected %s" % (sh(got, 200), sh(e.bodies, 200)))
    gn = parts(c.v["getWorldSpaceContactNormal"], d)
    if c.v["getWorldSpaceContactNormal"] not in (None, ("dead",)):
        rep.decide(key + " normal", same([size_nb(x) for x in gn] if gn else None, e.n), w, "normal %s, expected %s" % (sh(gn, 400), sh(e.n, 300)))
    gv = parts(c.v["computeRelativeVelocity"], d)
    gv = [size_nb(x) for x in gv] if gv else None
    vels = e.vel if isinstance(e.vel[0], list) else [e.vel]
    rep.decide(key + " relative velocity", any3(same(gv, v) for v in vels), w, "relative velocity %s, expected %s" % (sh(gv, 500), sh(e.vel, 400)))
    gd = c.v["evalNdotV"]
    if isinstance(gd, P):
        rep.decide(key + " normal velocity", any3(same([size_nb(gd)], [dot(e.n, v)]) for v in vels), w, "normal velocity %s" % sh(gd, 400))
    else:
        rep.decide(key + " normal velocity", None, w, sh(gd))
    if e.point is not None and c.v["getWorldSpaceContactPoint"] not in (None, ("dead",)):
        gp = parts(c.v["getWorldSpaceContactPoint"], d)
        gp = [size_nb(x) for x in gp] if gp else None
        alt = e.point if e.point and isinstance(e.point[0], list) else [e.point]
        rep.decide(key + " contact point", any3(same(gp, a) for a in alt), w, "point %s, expected %s" % (sh(gp, 400), sh(e.point, 300)))
    if e.depth is not None and c.v["computePenetrationDepth"] not in (None, ("dead",)) and not declared_unknown(c.v["computePenetrationDepth"]):
        gp = c.v["computePenetrationDepth"]
        gp = size_nb(gp) if isinstance(gp, P) else None
        rep.decide(key + " penetration depth", None if gp is None or has_unk(gp) else gp == minmax("min", ZERO, e.depth), w, "depth %s, expected %s" % (sh(gp, 400), sh(e.depth, 300)))
    if e.static is not None and c.v["getStaticObjectIndex"] not in (None,):
        gs = c.v["getStaticObjectIndex"]
        rep.decide(key + " names its fixed object", (size_nb(gs) == e.static) if isinstance(gs, P) else None if gs != ("dead",) else False, w, "object %s, expected %s" % (sh(gs), sh(e.static)))
    if e.cond is not None:
        cc = size_nb(cond) if not isinstance(cond, bool) else cond
        rep.decide(key + " made exactly when they touch", cond_same(cc, e.cond), w, "made when %s, expected %s" % (sh(cc, 500), sh(e.cond, 400)))


def declared_unknown(v):
    """not a number on purpose: the class says it cannot tell"""
    return contains(v, lambda y: isinstance(y, tuple) and y and y[0] == "lim" and "NaN" in str(y))


def spheres(g, i, j, Xi, Xj, ri, rj, kick=None, real_i=None):
    """two round bodies: normal, relative velocity at the touching point, point, depth"""
    D = sub(Xi, Xj)
    n = unit(D)
    f = ri * (ri + rj).inv()
    ai = mul(f, sub(Xj, Xi))
    aj = sub(add(Xi, ai), Xj)
    vel = sub(g.at(i, ai), g.at(j, aj))
    if kick is not None:
        vel = sub(vel, kick)
    dep = sqrt(dot(D, D)) - ri - rj
    base = real_i if real_i is not None else Xi
    return n, vel, [add(base, ai), add(base, mul(-ri, n))], dep


def touching(Xi, Xj, ri, rj):
    D = sub(Xi, Xj)
    s = ri + rj
    return b_cmp("<=", dot(D, D), s * s)


# ---- routines ---------------------------------------------------------------------
def fields_named(v):
    return [a for a in atoms_in(v)]


def atoms_in(v, out=None):
    out = set() if out is None else out
    contains(v, lambda y: out.add(y) and False if isinstance(y, tuple) and y and y[0] in ("fldof", "el", "in") else False)
    return out


def contacts(r):
    return [(e[1], cx) for e, cx in r.ev if isinstance(e, tuple) and e[0] == "contact"]


def ccd(p, st, n, f, obj, args):
    """the continuous test of two moving balls: named by its polynomial"""
    I = p.I
    if len(args) == 1:
        v = I.eval(st, args[0])
        c = parts(v, 3) if isinstance(v, (V, M)) else None
        if c is None:
            return None
        k = p.n["ccd"] = p.n.get("ccd", 0) + 1
        p.ccds[k] = c
        st.ev.append(("ccd", k, tuple(c), I.where(n)))
        return I.initial("ccd@%d" % k, I.ty(n))
    return None


def ccd_coeffs(x0, x1, q0, q1):
    pass


def ccd_cond(r, g, c, i, j, ri, rj):
    """is the condition exactly: the continuous test of these two balls over the step answers yes"""
    a = c[1].as_atom() if isinstance(c, tuple) and len(c) == 2 and c[0] == "bool" and isinstance(c[1], P) else c[1] if isinstance(c, tuple) and len(c) == 2 and c[0] == "bool" else None
    k = None
    for n in r.ccds:
        if a is not None and contains(a, lambda y: isinstance(y, str) and (y == "ccd@%d" % n or y == "ccd@%d.first" % n)):
            k = n
    if k is None or contains(a, lambda y: isinstance(y, str) and y.endswith("second")):
        return None if has_unk(c) else False
    D0 = sub(g.x(i, "q0"), g.x(j, "q0"))
    D1 = sub(g.x(i, "q1"), g.x(j, "q1"))
    E = sub(D1, D0)
    want = [dot(D0, D0) - (ri + rj) * (ri + rj), num(2) * dot(D0, E), dot(E, E)]
    return same(r.ccds[k], want)


def radius_from(vals, i, names):
    """the value of the radius of body i among everything the contact mentions"""
    found = set()

    def look(y):
        if isinstance(y, tuple) and len(y) == 3 and y[0] == "fldof" and y[2] in names and contains(y[1], lambda z: z == i.as_atom() or z == i):
            found.add(y)
        if isinstance(y, tuple) and len(y) == 3 and y[0] == "el" and isinstance(y[1], tuple) and y[1][0] == "in" and str(y[1][1]).split(".")[-1] in names and (y[2] == i):
            found.add(y)
        return False
    for v in vals:
        contains(v, look)
    return [P.atom(a) for a in found]


def everything(r):
    out = []
    for e, cx in r.ev:
        if isinstance(e, tuple) and e[0] == "contact":
            out += list(e[1].v.values())
            out.append(conds(cx))
        elif isinstance(e, tuple) and e[0] == "ccd":
            out += list(e[2])
        elif isinstance(e, Api):
            out += list(e.args)
    return out


def which_body(x):
    """0 / 1 when x is the first / second body of a candidate pair"""
    for k, nm in enumerate(("first", "second")):
        if contains(x, lambda y: isinstance(y, tuple) and len(y) == 3 and y[0] == "fldof" and y[2] == nm and contains(y[1], lambda z: isinstance(z, str) and z.startswith("getPotentialOverlaps@"))):
            return k
    return None


LIB = {"getPotentialOverlaps", "PlanarPortal", "CircleBoxTools", "BoxBoxTools", "BoxBoxUtilities", "StapleStapleUtilities", "MeshMeshUtilities"}


class Candidates:
    """neither box of a candidate pair is an image; there are portals or there are none"""

    def __init__(self, portals):
        self.portals = portals
        self.sim = Sim.__new__(Sim)
        self.sim.t, self.sim.asked = (False, False), set()

    def __call__(self, r, c):
        if c[0] in ("eq0", "bool") and "ortals" in str(c) and len(str(c)) < 300:
            return not self.portals
        return self.sim.truth(c)


def entry(m):
    fn = next((f for q, fs in m.by_q.items() if q.endswith("Sim::computeActiveSet") and q.split("::")[0] in MAIN for f in fs if f.body), None)
    return fn


MAIN = ("Ball2DSim", "RigidBody2DSim", "RigidBody3DSim")
SHAPES = {"ball2d": (None,), "rigidbody2d": ("CIRCLE", "BOX"), "rigidbody3d": ("SPHERE", "BOX", "STAPLE", "TRIANGLE_MESH")}


def active(rep, m, portals, pair_kinds=None, pair_fixed=(True, True), other_kind=None, other_fixed=True, empty=()):
    fn = entry(m)

    def fixed(i):
        k = which_body(i)
        return other_fixed if k is None else pair_fixed[k]

    def kind(x):
        k = which_body(x)
        return other_kind if k is None else pair_kinds[k] if pair_kinds else None
    r = Narrow(m, fn, apis=LIB, fixed=fixed, kind=kind, truth=Candidates(portals), extra=IMG, empty=empty)
    rep.saw(r.I)
    return r


def pairs(rep, m, ks=None):
    fn = entry(m)
    if fn is None:
        rep.decide(m.domain + " pair of bodies", None, "", "the routine finding contacts was not found")
        return
    g = Geo(m, config(fn))
    for portals in (False, True):
        for fx in ((False, False), (True, False), (False, True), (True, True)) if m.domain != "ball2d" else ((False, False),):
            lab = "%s%s" % (m.domain, " with portals" if portals else "")
            if ks[0]:
                lab += " %s%s and %s%s" % ("scripted " * fx[0], ks[0].lower(), "scripted " * fx[1], ks[1].lower())
            r = active(rep, m, portals, ks, fx)
            pair2(rep, m, g, r, lab, ks, fx, portals)


def members(r):
    """the two bodies of the candidate pair, as this run names them"""
    out = [None, None]

    def look(y):
        k = which_body(y) if isinstance(y, tuple) and len(y) == 3 and y[0] == "fldof" and y[2] in ("first", "second") else None
        if k is not None and out[k] is None:
            out[k] = P.atom(y)
        return False
    for v in everything(r):
        contains(v, look)
    return out


def inside(cx):
    """the context inside the loop over candidate pairs"""
    out, seen = [], False
    for c in cx:
        if seen:
            out.append(c)
        elif c[0] == "loop" and contains(c[1], lambda y: isinstance(y, str) and y.startswith("getPotentialOverlaps@")):
            seen = True
    return tuple(out) if seen else cx


def outside(rep, lab, r, cs0):
    """every candidate pair is looked at"""
    for c, cx in cs0:
        out = []
        for k in cx:
            out.append(k)
            if k[0] == "loop" and contains(k[1], lambda y: isinstance(y, str) and y.startswith("getPotentialOverlaps@")):
                break
        ls = loops(out)
        src = next((a[1] for a in [ls[-1][3].as_atom() if ls and isinstance(ls[-1][3], P) else None] if isinstance(a, tuple) and a[0] == "size"), None)
        rep.decide(lab + ": every candidate pair is looked at", len(ls) == 1 and src is not None and ls[0][2] == ZERO and conds(out) is True and not left_early(r, ls), c.where, "looked at for %s when %s" % (sh(ls, 300), sh(conds(out), 300)))


def exits(r):
    return r.s is None


def pair2(rep, m, g, r, lab, ks, fx, portals=False):
    where = "%s:%s (%s)" % (r.fn.file, r.fn.line, r.fn.q)
    cs = [(c, inside(cx)) for c, cx in contacts(r)]
    IDX = members(r)
    cs = [(c, cx) for c, cx in cs if is_pair(c)]
    outside(rep, lab, r, [(c, cx) for c, cx in contacts(r) if is_pair(c)])
    if all(fx):
        rep.decide(lab + ": no contact", not cs, where, "%d contacts between bodies that both move on rails" % len(cs))
        return
    if exits(r):
        rep.ok(lab + ": refused", where)        # the program ends rather than missing the contact
        return
    if not cs:
        rep.decide(lab + ": contact is made", False, where, "no contact is created")
        return
    if None in IDX:
        rep.decide(lab + ": the pair", None, where, "the bodies of the candidate pair are not recognised")
        return
    o = (1, 0) if fx[0] else (0, 1)             # who comes first
    if m.domain == "rigidbody3d" and ks[0] in ("BOX", "STAPLE", "TRIANGLE_MESH"):
        return solids(rep, m, g, r, lab, ks, fx, cs, IDX)
    if ks[0] in (None, "CIRCLE", "SPHERE") and ks[0] == ks[1]:
        rep.decide(lab + ": one contact", len(cs) == 1, where, "%d contacts" % len(cs))
        c, cx = cs[0]
        cond = conds(cx)
        gb = c.v["getBodyIndices"]
        i, j = (IDX[0], IDX[1]) if not any(fx) and tuple(gb) != (IDX[1], IDX[0]) else (IDX[o[0]], IDX[o[1]])
        if not any(fx) and tuple(gb) == (IDX[1], IDX[0]):
            i, j = IDX[1], IDX[0]
        ri, rj = [radius_from(everything(r), x, ("m_r",)) for x in (i, j)]
        ri, rj = [[y for y in z if not isinstance(y, V)] for z in (ri, rj)]
        if len(ri) != 1 or len(rj) != 1:
            rep.decide(lab + ": radii", None, where, "radii %s %s" % (sh(ri), sh(rj)))
            return
        ri, rj = ri[0], rj[0]
        at_end = cond_same(cond, touching(g.x(i, "q1"), g.x(j, "q1"), ri, rj))
        k = True if at_end is True and (portals or m.domain == "rigidbody3d") else ccd_cond(r, g, cond, i, j, ri, rj)
        if k is not True and not r.ccds:
            k = at_end
        rep.decide(lab + ": made exactly when they touch" + ("" if at_end is True else " during the step"), k, c.where, "made when %s with %s" % (sh(cond, 300), sh(r.ccds, 600)))
        Xi, Xj = g.x(i, "q0"), g.x(j, "q0")
        judge(rep, m, lab + ":", c, cond, round_contact(g, i, j, Xi, Xj, ri, rj, any(fx)))
        return
    api = [(e, cx) for e, cx in r.ev if isinstance(e, Api) and e.nm == "isActive"]
    if len(api) != 1:
        rep.decide(lab + ": the shapes are compared once", None if not api else False, where, "%d comparisons" % len(api))
        return
    q, qx = api[0]
    if set(ks) == {"CIRCLE", "BOX"}:
        ic, ib = (0, 1) if ks[0] == "CIRCLE" else (1, 0)
        i, b = IDX[ic], IDX[ib]
        ri = radius_from(everything(r), i, ("m_r",))
        ri = [x for x in ri if not isinstance(x, V)]
        a = q.args
        ok = conds(qx) is True and same(parts(a[0], 2), g.x(i, "q1")) and len(ri) == 1 and a[1] == ri[0] and same(parts(a[2], 2), g.x(b, "q1")) and a[3] == g.th(b, "q1") and shape_of_body(a[4], b)
        rep.decide(lab + ": compared at the end of the step", bool(ok) if not any(has_unk(x) for x in a[:5]) else None, q.where, "circle and box compared with %s" % sh(a[:5], 600))
        n = [P.atom(("el", ("in", q.tag + ".5"), num(k))) for k in (0, 1)]
        p = [P.atom(("el", ("in", q.tag + ".6"), num(k))) for k in (0, 1)]
        cover = False
        for c, cx in cs:
            gb = c.v["getBodyIndices"]
            swap = isinstance(gb, tuple) and gb == (b, i) and not any(fx)
            f, s = (b, i) if swap else (i, b)
            nn = mul(-ONE, n) if swap else n
            if any(fx):
                e = partner_contact(g, i, b, n, ri[0] if len(ri) == 1 else ZERO)
            else:
                e = Expect((f, s), nn, sub(g.at(f, sub(p, g.x(f, "q0"))), g.at(s, sub(p, g.x(s, "q0")))), p)
            judge(rep, m, lab + ("" if not swap else " (box first)") + ":", c, None, e)
            cover = b_or(cover, conds(cx))
        yes = [a for a in bool_atoms(cover) if isinstance(a, tuple) and a[0] == "bool" and contains(a, lambda y: isinstance(y, str) and y == q.tag + ".ret")]
        rep.decide(lab + ": made exactly when they touch", cond_same(cover, yes[0]) if len(yes) == 1 else False if not opaque(cover) else None, where, "made when %s" % sh(cover, 400))
        return
    a = q.args
    ok = conds(qx) is True
    for k, i in ((0, IDX[0]), (3, IDX[1])):
        ok = ok and same(parts(a[k], 2), g.x(i, "q1")) and a[k + 1] == g.th(i, "q1") and shape_of_body(a[k + 2], i)
    rep.decide(lab + ": compared at the end of the step", bool(ok), q.where, "boxes compared with %s" % sh(a[:6], 600))
    n = [P.atom(("el", ("in", q.tag + ".6"), num(k))) for k in (0, 1)]
    rep.decide(lab + ": one contact per point", len(cs) == 1, where, "%d places" % len(cs))
    c, cx = cs[0]
    ls = loops(cx)
    pt = ("el", ("in", q.tag + ".7"), P.atom(ls[0])) if len(ls) == 1 else None
    full = pt is not None and whole_loop(ls[0], ("in", q.tag + ".7")) and conds(cx) is True and not left_early(r, ls)
    rep.decide(lab + ": every point gives a contact", full, c.where, "for %s when %s" % (sh(ls), sh(conds(cx), 300)))
    p = point_of(c, q.tag + ".7", 2)
    if p is not None:
        judge(rep, m, lab + ":", c, None, Expect((IDX[0], IDX[1]), n, sub(g.at(IDX[0], sub(p, g.x(IDX[0], "q0"))), g.at(IDX[1], sub(p, g.x(IDX[1], "q0")))), p))
    else:
        rep.decide(lab + ": contact at the point found", None, c.where, sh(c.v["getWorldSpaceContactPoint"], 300))


def point_of(c, name, d):
    """the contact point, when it is an entry of this list of points"""
    p = parts(c.v["getWorldSpaceContactPoint"], d)
    if p and all(isinstance(x, P) and x.as_atom() and contains(x.as_atom(), lambda y: y == ("in", name)) for x in p):
        return p
    return None


def left_early(r, ls):
    return any(isinstance(e, tuple) and e[0] == "leave" and any(iv in ls for iv in loops(cx)) and e[1] is not False for e, cx in r.ev)


def whole_loop(iv, src):
    n = iv[3].as_atom() if isinstance(iv[3], P) else None
    return iv[2] == ZERO and isinstance(n, tuple) and n[0] == "size" and n[1] == src


def shape_of_body(v, i):
    """half widths of body i's own shape, components in order"""
    e = parts(v, 2) or parts(v, 3)
    if e is None:
        return False
    for k, x in enumerate(e):
        a = x.as_atom()
        if not (isinstance(a, tuple) and a[0] == "el" and a[2] == num(k) and contains(a, lambda y: y == i.as_atom() or y == i)):
            return False
    return True


def round_contact(g, i, j, Xi, Xj, ri, rj, scripted, kick=None):
    n, vel, pts, dep = spheres(g, i, j, Xi, Xj, ri, rj, kick)
    if not scripted:
        return Expect((i, j), n, vel, pts, dep)
    e = partner_contact(g, i, j, n, ri)
    e.depth = None
    return e


def partner_contact(g, i, j, n, ri):
    """a round body against a body on rails: touched where its own surface faces it"""
    a = mul(-ri, n)
    p = add(g.x(i, "q0"), a)
    vel = sub(g.at(i, a), g.at(j, sub(p, g.x(j, "q0"))))
    if g.d == 3:
        vel = [vel, g.at(i, a)]         # in space the scripted bodies stand still
    return Expect((i, j), n, vel, p)


# ---- periodic images ----------------------------------------------------------------
def side(v):
    """which body's portal this names"""
    t = str(v)
    a, b = "portalIndex0()" in t or "portalIndex0'" in t, "portalIndex1()" in t
    return 0 if a and not b else 1 if b and not a else None


def vecs(v, d):
    return V(d, 1, parts(v, d)) if parts(v, d) is not None else v


def img_name(plane, k, x):
    return "img%s|%s|%s" % (plane, k, sh(V(len(x), 1, list(x)), 2000))


def kick_name(k, what):
    return "kick|%s|%s" % (k, what)


def image(plane):
    def h(p, st, n, f, obj, args):
        I, d = p.I, DIM[p.m.domain]
        x = parts(I.eval(st, args[0]), d)
        l = I.lval(st, args[1]) if len(args) > 1 else None
        if x is None or l is None:
            return None
        k = side(I.obj_loc(st, obj, n.get("arrow")))
        new = I.initial(img_name(plane, k, x), I.ty(args[1]))
        I.clear_under(st, l)
        I.store(st, l, new)
        I.on_write(st, l, new, n)
        return ("void",)
    return h


def kick_ball(p, st, n, f, obj, args):
    I = p.I
    x, r = parts(I.eval(st, args[0]), 2), I.eval(st, args[1])
    if x is None:
        return None
    return I.initial(kick_name(side(I.obj_loc(st, obj, n.get("arrow"))), sh(V(2, 1, x), 2000) + "|" + sh(r, 500)), I.ty(n))


def kick_box(p, st, n, f, obj, args):
    I = p.I
    a, b = parts(I.eval(st, args[0]), 2), parts(I.eval(st, args[1]), 2)
    if a is None or b is None:
        return None
    return I.initial(kick_name(side(I.obj_loc(st, obj, n.get("arrow"))), sh(V(2, 1, a), 3000) + "|" + sh(V(2, 1, b), 3000)), I.ty(n))


def box_of(p, st, n, f, obj, args):
    """the box around a body's shape, named by whose shape and where"""
    I = p.I
    ins = [I.eval(st, a) for a in args[:-2]]
    who = sh(p.who(st, I.obj_loc(st, obj, n.get("arrow"))), 300)
    who = "0" if "geo0" in who or "bodyIndex0()" in who else "1" if "geo1" in who or "bodyIndex1()" in who else "?"
    for a, w in zip(args[-2:], ("min", "max")):
        l = I.lval(st, a)
        if l is None:
            return None
        new = I.initial("aabb%s|%s|%s" % (w, who, sh(vecs(ins[0], 2), 1000) + "|" + sh(ins[1], 300)), I.ty(a))
        I.clear_under(st, l)
        I.store(st, l, new)
        I.on_write(st, l, new, n)
    return ("void",)


IMG = {"PlanarPortal::teleportPointThroughPlaneA": image("A"), "PlanarPortal::teleportPointThroughPlaneB": image("B"),
       "PlanarPortal::getKinematicVelocityOfBall": kick_ball, "PlanarPortal::getKinematicVelocityOfAABB": kick_box,
       "RigidBody2DGeometry::computeAABB": box_of, "RigidBody2DGeometry::computeCollisionAABB": box_of}
BDY = [P.atom(("in", "bodyIndex0()")), P.atom(("in", "bodyIndex1()"))]


class Tele:
    """which of the two bodies is seen through a portal, through which plane, and whether the portal shears"""

    def __init__(self, t, plane, le):
        self.t, self.plane, self.le = t, plane, le

    def __call__(self, r, c):
        if c[0] in ("eq0", "lt", "le") and isinstance(c[1], P):
            for k in (0, 1):
                a = ("in", "portalIndex%d()" % k)
                if a in c[1].atoms():
                    co, rest = c[1].coeff(a)
                    if c[0] == "eq0" and contains(rest, lambda y: isinstance(y, tuple) and y and y[0] == "lim"):
                        return not self.t[k]
                    if c[0] == "lt" and co == ONE:
                        return self.t[k]
                    if c[0] == "le" and co == -ONE:
                        return not self.t[k]
        s = str(c)
        for k in (0, 1):
            if "plane%d()" % k in s and len(s) < 300:
                if c[0] == "eq0":
                    x = c[1]
                    if isinstance(x, P) and x.is_const():
                        return None
                    if isinstance(x, P) and x.as_atom() is not None:
                        return self.plane[k] == 0
                    return self.plane[k] == 1
                if c[0] == "bool":
                    return self.plane[k] == 1
            if c[0] == "bool" and "isLeesEdwards(" in s and side(c) == k:
                return self.le == k
        return None


def tele_cases():
    for t in ((True, False), (False, True), (True, True)):
        for p0 in ((0, 1) if t[0] else (0,)):
            for p1 in ((0, 1) if t[1] else (0,)):
                for le in (None, 0, 1):
                    if le is None or t[le]:
                        yield t, (p0, p1), le


def tele_label(t, pl, le):
    return ", ".join("%s body through plane %s%s" % (("first", "second")[k], "AB"[pl[k]], " of a shearing portal" if le == k else "") for k in (0, 1) if t[k])


def where_of(fn):
    return "%s:%s (%s)" % (fn.file, fn.line, fn.q)


def placed(g, t, pl, k, q):
    """where body k of the pair is seen"""
    x = g.x(BDY[k], q)
    if not t[k]:
        return x
    n = img_name("AB"[pl[k]], k, x)
    return [P.atom(("el", ("in", n), num(c))) for c in range(g.d)]


def tele_radius(r, vals, k):
    for nm in ("geo%d.m_r" % k,):
        a = ("in", nm)
        if any(contains(v, lambda y: y == a) for v in vals):
            return P.atom(a)
    f = radius_from(vals, BDY[k], ("m_r", "r"))
    return f[0] if len(f) == 1 else None


TELE = {"ball2d": ("generateTeleportedBallBallCollision", "teleportedBallBallCollisionHappens"),
        "rigidbody2d": ("dispatchTeleportedNarrowPhaseCollision", "teleportedCollisionIsActive"),
        "rigidbody3d": ("generateTeleportedCollision", "teleportedCollisionHappens")}
ROUND = {"rigidbody2d": "CIRCLE", "rigidbody3d": "SPHERE"}


def tele_fixed(fx):
    def f(i):
        for k in (0, 1):
            if i == BDY[k]:
                return fx[k]
        return None
    return f


def tele_fns(m, name):
    return [f for q, fs in m.by_q.items() if q.endswith("Sim::" + name) for f in fs if f.body]


def images(rep, m):
    g = Geo(m)
    gen, test = TELE[m.domain]
    rk = ROUND.get(m.domain)
    for fn in tele_fns(m, test):
        for t, pl, le in tele_cases():
            if le is not None:
                continue
            lab = "%s touch test of %s" % (m.domain, tele_label(t, pl, le))
            r = Narrow(m, fn, apis={"PlanarPortal", "TeleportedCollision"}, fixed=tele_fixed((False, False)), kind=lambda x: rk, truth=Tele(t, pl, le), extra=IMG)
            rep.saw(r.I)
            v = as_bool(r.v)
            if v is None:
                rep.decide(lab, None, where_of(fn), sh(r.v))
                continue
            q = next((p["n"] for p in fn.params if "Matrix<double, -1, 1>" in fn.types[p["t"]]), "q")
            rs = [tele_radius(r, [v], k) for k in (0, 1)]
            if None in rs:
                rep.decide(lab, None if opaque(v) else False, where_of(fn), "answers %s" % sh(v, 500))
                continue
            want = touching(placed(g, t, pl, 0, q), placed(g, t, pl, 1, q), *rs)
            rep.decide(lab, cond_same(v, want), where_of(fn), "answers %s, expected %s" % (sh(v, 500), sh(want, 500)))
    fns = tele_fns(m, gen)
    if not fns:
        rep.decide("%s contacts of periodic images" % m.domain, None, "", "not found")
    for fn in fns:
        for t, pl, le in tele_cases():
            if le is not None and m.domain == "rigidbody3d":
                continue
            for fx in ((False, False), (True, False), (False, True)) if m.domain == "rigidbody3d" else ((False, False),):
                one_image(rep, m, g, fn, t, pl, le, fx, rk)


def one_image(rep, m, g, fn, t, pl, le, fx, rk):
    lab = "%s %s%s" % (m.domain, tele_label(t, pl, le), "" if not any(fx) else ", %s scripted" % ("first" if fx[0] else "second"))
    r = Narrow(m, fn, apis={"PlanarPortal", "TeleportedCollision"}, fixed=tele_fixed(fx), kind=lambda x: rk, truth=Tele(t, pl, le), extra=IMG)
    rep.saw(r.I)
    cs = contacts(r)
    w = where_of(fn)
    if len(cs) != 1:
        rep.decide(lab + ": one contact", False if not exits(r) or not any(fx) else None, w, "%d contacts" % len(cs))
        return
    c, cx = cs[0]
    vals = everything(r)
    ri, rj = [tele_radius(r, vals, k) for k in (0, 1)]
    o = (1, 0) if fx[0] else (0, 1)
    if m.domain == "ball2d":
        other = lambda x, k: None if x is None else subst(x, lambda y: BDY[k].as_atom() if y == BDY[1 - k].as_atom() else None)
        ri, rj = ri if ri is not None else other(rj, 0), rj if rj is not None else other(ri, 1)
    if (ri if not fx[0] else rj) is None or not any(fx) and rj is None:
        rep.decide(lab + ": radii", None, w, "radii not recognised")
        return
    X = [placed(g, t, pl, k, "q" if any(p["n"] == "q" for p in fn.params) else "q0") for k in (0, 1)]
    q = "q" if any(p["n"] == "q" for p in fn.params) else "q0"
    kick = None
    if le is not None:
        x1 = g.x(BDY[le], "q1")
        rr = (ri, rj)[le]
        if m.domain == "ball2d":
            nm = kick_name(le, sh(V(2, 1, x1), 2000) + "|" + sh(rr, 500))
        else:
            th = g.th(BDY[le], "q1")
            bx = [V(2, 1, [P.atom(("el", ("in", "aabb%s|%d|%s" % (z, le, sh(V(2, 1, x1), 1000) + "|" + sh(th, 300))), num(k))) for k in (0, 1)]) for z in ("min", "max")]
            nm = kick_name(le, sh(bx[0], 3000) + "|" + sh(bx[1], 3000))
        kick = [P.atom(("el", ("in", nm), num(k))) for k in (0, 1)]
        if le == 0:
            kick = mul(-ONE, kick)
    i, j = BDY[o[0]], BDY[o[1]]
    if any(fx):
        n = unit(sub(X[o[0]], X[o[1]]))
        rr = (ri, rj)[o[0]]
        a = mul(-rr, n)
        e = Expect((i, j), n, g.at(i, a), add(g.x(i, q), a))
    else:
        n, vel, pts, dep = spheres(g, i, j, X[0], X[1], ri, rj, kick, real_i=g.x(i, q))
        e = Expect((i, j), n, vel, pts, dep)
    e.cond = touching(placed(g, t, pl, 0, "q1"), placed(g, t, pl, 1, "q1"), ri, rj) if m.domain == "rigidbody2d" else True
    judge(rep, m, lab + ":", c, conds(cx), e)


def as_bool(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, tuple) and len(v) == 4 and v[0] == "phi":
        x, y = as_bool(v[2]), as_bool(v[3])
        return None if x is None or y is None else b_or(b_and(v[1], x), b_and(b_not(v[1]), y))
    if isinstance(v, P):
        a = v.as_atom()
        if isinstance(a, tuple) and a[0] == "bool":
            return a[1] if isinstance(a[1], tuple) and a[1][0] in ("lt", "le", "and", "or", "not", "eq0", "eqt", "bool") else a
        if v.is_const():
            return v.cval() != 0
        if isinstance(a, tuple) and a[0] == "phi":
            x, y = as_bool(a[2]), as_bool(a[3])
            if x is None or y is None:
                return None
            return b_or(b_and(a[1], x), b_and(b_not(a[1]), y))
    if isinstance(v, tuple) and v and v[0] in ("lt", "le", "and", "or", "not", "eq0", "eqt", "bool"):
        return v
    return None



# ---- solids in space -----------------------------------------------------------------
def fits(i, g, a, d, q):
    """a group of arguments names body i's place, orientation and shape at q"""
    x, R, sh_ = a[:3]
    if same([size_nb(y) for y in parts(x, d) or []], [size_nb(y) for y in g.x(i, q)]) is not True:
        return False
    want = g.R(i, q)
    got = matrix(R, d)
    if got is None or same([size_nb(y) for row in got for y in row], [size_nb(y) for row in want for y in row]) is not True:
        return False
    return contains(sh_, lambda y: y == i.as_atom() or isinstance(y, P) and y == i)


def matrix(v, d):
    if isinstance(v, V) and v.r == d and v.c == d:
        return [[v.at(a, b) if hasattr(v, "at") else v.e[a * d + b] for b in range(d)] for a in range(d)]
    if isinstance(v, M):
        return [[v.el2(num(a), num(b)) if hasattr(v, "el2") else P.atom(("el", v, num(a), num(b))) for b in range(d)] for a in range(d)]
    return None


def solids(rep, m, g, r, lab, ks, fx, cs, IDX):
    """boxes, staples and meshes: the touching points come from the shapes' own test at the end of the step"""
    api = [(e, cx) for e, cx in r.ev if isinstance(e, Api) and any(x in e.tag or True for x in ("",)) and len(e.args) >= 6 and which_body(e.args[0]) is not None]
    o = (1, 0) if fx[0] else (0, 1)
    i, j = IDX[o[0]], IDX[o[1]]
    if not api:
        rep.decide(lab + ": the shapes are compared", None, where_of(r.fn), "no comparison found")
        return
    for e, cx in api:
        a = e.args
        ok = fits(i, g, a[0:3], 3, "q1") and fits(j, g, a[3:6], 3, "q1")
        rep.decide(lab + ": compared at the end of the step (%s)" % e.nm, ok if not any(has_unk(x) for x in a[:6]) else None, e.where, "shapes compared with %s" % sh(a[:6], 900))
    rep.decide(lab + ": one contact per point", len(cs) == 1, where_of(r.fn), "%d places" % len(cs))
    c, cx = cs[0]
    ls = loops(cx)
    src = ls[0][3].as_atom() if len(ls) == 1 and isinstance(ls[0][3], P) else None
    src = src[1] if isinstance(src, tuple) and src[0] == "size" and isinstance(src[1], tuple) and src[1][0] == "in" else None
    by = next((e for e, k in api if src is not None and str(src[1]).startswith(e.tag + ".")), None)
    cond = conds(cx)
    yes = cond is True or cond[0] == "bool" and any(contains(cond, lambda y: y == e.tag + ".ret") for e, k in api)
    full = by is not None and ls[0][2] == ZERO and yes and not left_early(r, ls)
    rep.decide(lab + ": every point gives a contact", full, c.where, "for %s when %s" % (sh(ls), sh(cond, 300)))
    if by is None:
        return
    iv = P.atom(ls[0])
    outs = {k: k for k in range(6, 12)}
    p = n = None
    for k in range(6, 12):
        nm = "%s.%d" % (by.tag, k)
        vec = [P.atom(("el", ("el", ("in", nm), iv), num(x))) for x in range(3)]
        one = [P.atom(("el", ("in", nm), num(x))) for x in range(3)]
        for cand in (vec, one):
            if contains(c.v["computeRelativeVelocity"], lambda y: y == cand[0].as_atom()) and cand is vec:
                p = cand
            if contains(c.v["getWorldSpaceContactNormal"], lambda y: y == cand[0].as_atom()):
                n = cand
    if p is None or n is None:
        rep.decide(lab + ": contact at the point found", None, c.where, "%s %s" % (sh(c.v["getWorldSpaceContactNormal"], 300), sh(c.v["computeRelativeVelocity"], 300)))
        return
    own = g.at(i, sub(p, g.x(i, "q0")))
    vel = sub(own, g.at(j, sub(p, g.x(j, "q0"))))
    if any(fx):
        vel = [vel, own]
    judge(rep, m, lab + ":", c, None, Expect((i, j), n, vel, p))


# ---- fixed objects --------------------------------------------------------------------
def fixed_object(m, c):
    """(kind, name of the list, loop over it) of the object a contact is with"""
    s = c.v["getStaticObjectIndex"]
    a = s.as_atom() if isinstance(s, P) else None
    if not (isinstance(a, tuple) and a[0] == "iv" and isinstance(a[3], P)):
        return None
    n = a[3].as_atom()
    if not (isinstance(n, tuple) and n[0] == "size" and isinstance(n[1], tuple) and n[1][0] == "in"):
        return None
    nm = n[1][1]
    for k in ("plane", "drum", "cylinder"):
        if k in nm:
            return k, nm, a
    return None


def obj_field(nm, iv, f, d):
    b = ("fldof", ("el", ("in", nm), P.atom(iv)), f)
    if d == 0:
        return P.atom(b)
    return [P.atom(("el", b, num(k))) for k in range(d)]


def lists_of(m):
    cls = {"ball2d": "Ball2DState", "rigidbody2d": "RigidBody2DState", "rigidbody3d": "RigidBody3DState"}[m.domain]
    out = {}
    for f in m.fields(cls):
        for k in ("plane", "drum", "cylinder"):
            if f["n"].lower().endswith(k + "s") and "vector" in str(f):
                out[k] = f["n"]
    return out


def statics(rep, m, kd):
    fn = entry(m)
    g = Geo(m, config(fn))
    base = "this.%s." % ("m_sim_state" if m.domain == "rigidbody3d" else "m_state")
    ls = lists_of(m)
    for obj in ls:
        other = tuple(base + ls[k] for k in ls if k != obj)
        lab = "%s %s and %s" % (m.domain, kd.lower() if kd else "ball", obj)
        r = active(rep, m, False, other_kind=kd, other_fixed=False, empty=other)
        one_static(rep, m, g, r, lab, kd, obj, base + ls[obj])
        if m.domain != "ball2d":
            r = active(rep, m, False, other_kind=kd, other_fixed=True, empty=other)
            rep.decide(lab + ": no contact for a body on rails", r.s is not None and not contacts(r), where_of(fn), "a scripted body is given %d contacts" % len(contacts(r)))


def is_pair(c):
    gb = c.v["getBodyIndices"]
    return isinstance(gb, tuple) and len(gb) == 2 and any(which_body(x) is not None for x in gb)


def one_static(rep, m, g, r, lab, kd, obj, nm):
    fn = r.fn
    cs = [(c, cx) for c, cx in contacts(r) if not is_pair(c)]
    if exits(r):
        rep.ok(lab + ": refused", where_of(fn))
        return
    if not cs:
        rep.decide(lab + ": contact is made", False, where_of(fn), "no contact is created")
        return
    for n, (c, cx) in enumerate(cs):
        fo = fixed_object(m, c)
        w = c.where
        ivs = [x for x in loops(cx)]
        oiv = next((x for x in ivs if isinstance(x[3], P) and isinstance(x[3].as_atom(), tuple) and x[3].as_atom() == ("size", ("in", nm))), None)
        biv = next((x for x in ivs if x is not oiv and isinstance(x[3], P) and (bodies_count(x[3]) or x[3] == P.atom(NB))), None)
        if oiv is None or biv is None:
            rep.decide(lab + ": every body against every object", False if not opaque(cx) else None, w, "made for %s" % sh(ivs, 400))
            continue
        rep.decide(lab + ": every body against every object", oiv[2] == ZERO and biv[2] == ZERO and not left_early(r, [oiv, biv]), w, "made for %s" % sh(ivs, 400))
        i = P.atom(biv)
        X, N_ = obj_field(nm, oiv, "m_x", g.d), obj_field(nm, oiv, "m_n", g.d)
        x0, x1 = g.x(i, "q0"), g.x(i, "q1")
        rest = [x for x in ivs if x not in (oiv, biv)]
        if kd in (None, "CIRCLE", "SPHERE"):
            ri = [y for y in radius_from(list(c.v.values()) + [conds(cx)], i, ("m_r",)) if not isinstance(y, V)]
            ri = [y for y in ri if not contains(y, lambda z: z == ("in", nm))]
            if len(ri) != 1:
                rep.decide(lab + ": radius", None, w, sh(ri, 300))
                continue
            e = round_static(g, obj, nm, oiv, i, x0, x1, X, N_, ri[0])
            rep.decide(lab + ": one contact", len(cs) == 1 and not rest, w, "%d contacts" % len(cs))
            judge(rep, m, lab + ":", c, conds(cx), e)
            continue
        corners(rep, m, g, r, lab, kd, obj, nm, oiv, i, c, cx, rest, X, N_, n)
    if kd == "BOX":
        want = {s for s in itertools.product((-1, 1), repeat=g.d)}
        rep.decide(lab + ": every corner is tried", r.signs == want, where_of(fn), "corners tried: %s" % sorted(r.signs))


def round_static(g, obj, nm, oiv, i, x0, x1, X, N_, r):
    if obj == "plane":
        n = N_
        cond = b_cmp("<=", dot(n, sub(x1, X)), r)
        h = dot(n, sub(x0, X))
        a = mul(-r, n)
        foot = [sub(sub(x0, X), mul(h, n)), sub(add(x0, a), X)]
        vel = [sub(g.at(i, a), obj_velocity(g, nm, oiv, y)) for y in foot]
        return Expect((i, num(-1)), n, vel, add(x0, a), h - r, cond, P.atom(oiv))
    R = obj_field(nm, oiv, "m_r", 0)

    def radial(x):
        D = sub(x, X)
        if obj == "drum":
            return D
        return sub(D, mul(dot(N_, D), N_))
    d1, d0 = radial(x1), radial(x0)
    n = unit(mul(-ONE, d0))
    cond = b_cmp("<=", (R - r) * (R - r), dot(d1, d1))
    a = mul(-r, n)
    D = sub(x0, X)
    wall = [add(sub(D, mul(dot(n, D), n)), mul(-R, n)), sub(add(x0, a), X)]
    vel = [g.at(i, a) if obj == "drum" else sub(g.at(i, a), obj_velocity(g, nm, oiv, y)) for y in wall]
    if obj == "drum":
        vel = vel[:1]
    return Expect((i, num(-1)), n, vel, add(x0, a), R - sqrt(dot(d0, d0)) - r, cond, P.atom(oiv))


def obj_velocity(g, nm, oiv, arm):
    v = obj_field(nm, oiv, "m_v", g.d)
    if g.stride == 2:
        return v
    w = obj_field(nm, oiv, "m_omega", 0 if g.d == 2 else 3)
    return add(v, g.cross(w, arm))


def entries(v):
    """[(element, condition)] of a list built by appending, or None"""
    out = []
    a = v.as_atom() if isinstance(v, P) else v
    while isinstance(a, tuple) and a and a[0] != "empty":
        if a[0] == "phi" and len(a) == 4:
            x, y = [z.as_atom() if isinstance(z, P) else z for z in a[2:4]]
            if isinstance(y, tuple) and y[0] == "seq" and y[1] == x:
                out.append((y[2:], b_not(a[1])))
                a = x
                continue
            if isinstance(x, tuple) and x[0] == "seq" and x[1] == y:
                out.append((x[2:], a[1]))
                a = y
                continue
            return None
        if a[0] == "seq":
            out.append((a[2:], True))
            a = a[1]
            continue
        return None
    return out if isinstance(a, tuple) and a and a[0] == "empty" else None


def fold(v, at, k):
    """v with the atom replaced by a number and integer operations carried out"""
    def f(y):
        if y == at:
            return num(k)
        if isinstance(y, tuple) and len(y) >= 2 and y[0] in ("mod", ">>", "<<", "idiv", "&"):
            xs = list(y[1:]) if len(y) == 3 else list(y[1]) if isinstance(y[1], tuple) else None
            if xs and len(xs) == 2 and all(isinstance(z, P) and z.is_const() or isinstance(z, int) for z in xs):
                p, q = [int(z.cval()) if isinstance(z, P) else z for z in xs]
                return num({"mod": lambda: p % q, ">>": lambda: p >> q, "<<": lambda: p << q, "idiv": lambda: p // q, "&": lambda: p & q}[y[0]]())
        return None
    return subst(v, f)


def chosen(vals, iv):
    """the one value, depending on the loop, whose bits are taken apart"""
    out = set()

    def look(y):
        if isinstance(y, tuple) and len(y) >= 2 and y[0] in ("mod", ">>", "&", "idiv"):
            for z in (y[1:] if len(y) == 3 else y[1] if isinstance(y[1], tuple) else ()):
                a = z.as_atom() if isinstance(z, P) else None
                if a is not None and not (isinstance(a, tuple) and a[0] in ("mod", ">>", "&", "idiv")) and contains(a, lambda t: t == iv):
                    out.add(a)
        return False
    for v in vals:
        contains(v, look)
    return out.pop() if len(out) == 1 else None


def expand(v):
    """components of a matrix applied to a column, written out"""
    def f(y):
        if isinstance(y, tuple) and len(y) == 3 and y[0] == "el" and isinstance(y[1], tuple) and y[1] and y[1][0] == "word" and len(y[1][1]) == 2 and isinstance(y[2], P) and y[2].is_const():
            (A, ta), (b, tb) = y[1][1]
            A = A[1] if isinstance(A, tuple) and len(A) == 2 and A[0] == "V" else A
            if isinstance(A, V) and A.r == 3 and A.c == 3 and not tb:
                k = int(y[2].cval())
                return sum_((A.at(j, k) if ta else A.at(k, j)) * P.atom(("el", b, num(j))) for j in range(3))
        return None
    return subst(v, f)


def corners(rep, m, g, r, lab, kd, obj, nm, oiv, i, c, cx, rest, X, N_, n):
    """a body of vertices against a fixed object"""
    w = c.where
    if not hasattr(r, "signs"):
        r.signs = set()
    if kd == "BOX":
        hw = half_widths(list(c.v.values()) + [conds(cx)], i, g.d)
        if hw is None:
            rep.decide(lab + ": half widths", None, w, "not recognised")
            return
        variants = [(c.v, conds(cx))]
        if rest:
            L = rest[0][3].as_atom()
            es = entries(L[1]) if len(rest) == 1 and isinstance(L, tuple) and L[0] == "size" else None
            ok = es is not None and rest[0][2] == ZERO and not left_early(r, rest)
            if not ok:
                rep.decide(lab + ": every corner found gives a contact", None if es is None else False, w, sh(rest, 400))
                return
            L = ("size", fold(L[1], None, 0))
            plain = {x: fold(v, None, 0) if v is not None else None for x, v in c.v.items()}
            here = fold(rest[0], None, 0)
            at = chosen(plain.values(), here)
            if at is None:
                rep.decide(lab + ": corner", None, w, "which corner is not recognised")
                return
            variants = []
            for el, present in es:
                k = el[0]
                k = k[0] if isinstance(k, tuple) else k
                if not (isinstance(k, P) and k.is_const()):
                    rep.decide(lab + ": corner", None, w, sh(el))
                    return
                some = fold(conds(cx), None, 0)
                extra = some if some is not True and not contains(some, lambda y: y == ("size", L[1])) else True
                variants.append(({x: fold(v, at, int(k.cval())) if v is not None else None for x, v in plain.items()}, fold(b_and(present, extra), None, 0)))
        for vals, cond in variants:
            done = False
            for sg in itertools.product((-1, 1), repeat=g.d):
                b = [num(x) * y for x, y in zip(sg, hw)]
                a1 = [dot(row, b) for row in g.R(i, "q1")]
                if cond_same(size_nb(cond), size_nb(b_cmp("<=", dot(N_, sub(add(g.x(i, "q1"), a1), X)), ZERO))) is True:
                    done = True
                    r.signs.add(sg)
                    a0 = [dot(row, b) for row in g.R(i, "q0")]
                    cc = Contact(c.cls, c.loc, c.where)
                    cc.v = vals
                    own = g.at(i, a0)
                    judge(rep, m, "%s corner %s:" % (lab, "".join("-+"[x > 0] for x in sg)), cc, None, Expect((i, num(-1)), N_, [own, sub(own, obj_velocity(g, nm, oiv, sub(add(g.x(i, "q0"), a0), X)))], add(g.x(i, "q0"), a0), static=P.atom(oiv)))
            if not done:
                rep.decide(lab + ": made exactly when a corner touches", None if opaque(cond) else False, w, "made when %s" % sh(cond, 600))
        return
    vertices(rep, m, g, r, lab, obj, nm, oiv, i, c, cx, rest, X, N_)


def half_widths(vals, i, d):
    found = {}

    def look(y):
        if isinstance(y, tuple) and len(y) == 3 and y[0] == "el" and isinstance(y[1], tuple) and y[1][0] == "fldof" and y[1][2] in ("m_r", "m_half_widths") and isinstance(y[2], P) and y[2].is_const() and contains(y[1], lambda z: z == i.as_atom() or isinstance(z, P) and z == i):
            found[int(y[2].cval())] = P.atom(y)
        return False
    for v in vals:
        contains(v, look)
    return [found[k] for k in range(d)] if len(found) == d else None


def vertices(rep, m, g, r, lab, obj, nm, oiv, i, c, cx, rest, X, N_):
    w = c.where
    api = [(e, k) for e, k in r.ev if isinstance(e, Api) and "Mesh" in e.nm and contains(e.args, lambda y: y == ("in", nm))]
    if len(api) != 1 or len(rest) != 1:
        rep.decide(lab + ": vertices", None, w, "%d questions" % len(api))
        return
    e, k = api[0]
    a = e.args
    ok = fits(i, g, a[0:3], 3, "q1") and same(parts(a[3], 3), X) is True and same(parts(a[4], 3), N_) is True
    if obj == "cylinder":
        ok = ok and a[5] == obj_field(nm, oiv, "m_r", 0)
    out = ("in", "%s.%d" % (e.tag, 6 if obj == "cylinder" else 5))
    rep.decide(lab + ": vertices tried at the end of the step", ok, e.where, "asked with %s" % sh(a, 900))
    rep.decide(lab + ": every vertex found gives a contact", whole_loop(rest[0], out) and conds(cx) is True and not left_early(r, rest), w, "for %s when %s" % (sh(rest), sh(conds(cx), 300)))
    vert = P.atom(("el", out, P.atom(rest[0])))
    c.v = {x: expand(v) if v is not None else None for x, v in c.v.items()}
    col = None
    found = set()

    def look(y):
        if isinstance(y, tuple) and len(y) == 3 and y[0] == "el" and isinstance(y[1], tuple) and y[1] != out and y[1][0] == "blkof" and contains(y[1], lambda z: z == vert.as_atom() or isinstance(z, P) and z == vert):
            found.add(y)
        return False
    contains(c.v["computeRelativeVelocity"], look)
    if not found:
        rep.decide(lab + ": arm", None, w, sh(c.v["computeRelativeVelocity"], 400))
        return
    b = [P.atom(y) for y in sorted(found, key=lambda y: str(y[2:]))]
    if len(b) != 3:
        rep.decide(lab + ": arm", None, w, sh(b, 600))
        return
    if not all(isinstance(y, P) and y.as_atom()[1][:4] == b[0].as_atom()[1][:4] and y.as_atom()[1][2] == ZERO and contains(y, lambda z: z == i.as_atom()) for y in b):
        rep.decide(lab + ": arm", False, w, "not one vertex of the body's own hull: %s" % sh(b, 600))
        return
    best = None
    for b in [sorted(b, key=lambda y: y.as_atom()[2].cval())]:
        a0 = [dot(row, b) for row in g.R(i, "q0")]
        own = g.at(i, a0)
        gv = parts(c.v["computeRelativeVelocity"], 3)
        if same([size_nb(x) for x in gv], [size_nb(x) for x in own]) is True:
            best = (a0, own, b)
    rep.decide(lab + ": relative velocity of the vertex", best is not None, w, sh(c.v["computeRelativeVelocity"], 500))
    if best is None or obj == "cylinder":
        return
    a0, own, b = best
    judge(rep, m, lab + " vertex:", c, None, Expect((i, num(-1)), N_, [own, sub(own, obj_velocity(g, nm, oiv, sub(add(g.x(i, "q0"), a0), X)))], add(g.x(i, "q0"), a0), static=P.atom(oiv)))


# ---- tests the contacts rest on -----------------------------------------------------
def el3(nm):
    return [P.atom(("el", ("in", nm), num(k))) for k in range(3)]


def mat3(nm):
    return [[P.atom(("el", ("in", nm), (num(a), num(b)))) for b in range(3)] for a in range(3)]


def rot(R, x):
    return [dot(row, x) for row in R]


def tr(R):
    return [[R[b][a] for b in range(3)] for a in range(3)]


def column_of(vals, iv, what):
    """the column of the shape's points the loop runs over: its components and the list they come from"""
    found = {}

    def look(y):
        if isinstance(y, tuple) and len(y) == 3 and y[0] == "el" and isinstance(y[1], tuple) and y[1][0] == "blkof" and y[1][2] == ZERO and y[1][3] == P.atom(iv) and isinstance(y[2], P) and y[2].is_const():
            found[int(y[2].cval())] = y
        return False
    for v in vals:
        contains(v, look)
    src = {y[1][1] for y in found.values()}
    if len(found) != 3 or len(src) != 1:
        return None
    s = src.pop()
    return [P.atom(found[k]) for k in range(3)], s


def all_columns(iv, src):
    n = iv[3].as_atom() if isinstance(iv[3], P) else None
    return iv[2] == ZERO and isinstance(n, tuple) and n[0] == "cols" and n[1] == src


def mesh_tests(rep, m):
    for nm, obj in (("computeMeshHalfPlaneActiveSet", "plane"), ("computeMeshCylinderActiveSet", "cylinder")):
        for fn in [f for q, fs in m.by_q.items() if q == "MeshMeshUtilities::" + nm for f in fs if f.body]:
            lab = "mesh vertices touching a %s" % obj
            r = Narrow(m, fn)
            rep.saw(r.I)
            w = where_of(fn)
            ap = [(e, cx) for e, cx in r.ev if isinstance(e, tuple) and e[0] == "append"]
            if len(ap) != 1 or len(loops(ap[0][1])) != 1:
                rep.decide(lab, None if ap else False, w, "%d places report a vertex" % len(ap))
                continue
            e, cx = ap[0]
            iv = loops(cx)[0]
            cond = expand(conds(cx))
            col = column_of([cond], iv, "")
            if col is None:
                rep.decide(lab, None, w, sh(cond, 600))
                continue
            b, src = col
            ps = [p["n"] for p in fn.params]
            v = add(rot(mat3(ps[1]), b), el3(ps[0]))
            X, A = el3(ps[3]), el3(ps[4])
            if obj == "plane":
                want = b_cmp("<=", dot(A, sub(v, X)), ZERO)
            else:
                D = sub(v, X)
                d = sub(D, mul(dot(A, D), A))
                want = b_cmp("<=", P.atom(("in", ps[5])) * P.atom(("in", ps[5])), dot(d, d))
            rep.decide(lab + ": a vertex is reported exactly when it touches", cond_same(cond, want), e[3], "reported when %s, expected %s" % (sh(cond, 700), sh(want, 700)))
            rep.decide(lab + ": every vertex is tried", all_columns(iv, src) and not left_early(r, [iv]) and e[2] == P.atom(iv), e[3], "vertex %s for %s" % (sh(e[2]), sh(iv)))
            rep.decide(lab + ": the vertices of the hull", "hull" in str(src), e[3], "points %s" % sh(src))
    for fn in [f for f in m.by_q.get("MeshMeshUtilities::computeActiveSet", []) if f.body]:
        mesh_mesh(rep, m, fn)


def mesh_mesh(rep, m, fn):
    r = Narrow(m, fn, apis={"detectCollision"})
    rep.saw(r.I)
    ps = [p["n"] for p in fn.params]
    api = [(e, cx) for e, cx in r.ev if isinstance(e, Api)]
    ap = [(e, cx) for e, cx in r.ev if isinstance(e, tuple) and e[0] == "append"]
    rep.decide("mesh against mesh: each is sampled against the other", len(api) == 2 and {side_mesh(e, ps) for e, cx in api} == {0, 1}, where_of(fn), "%d questions" % len(api))
    for e, cx in api:
        k = side_mesh(e, ps)                    # whose surface is asked about
        if k is None or len(loops(cx)) != 1:
            rep.decide("mesh against mesh: question", None, e.where, sh(e.who))
            continue
        j = 1 - k                               # whose samples are tried
        lab = "samples of the %s mesh" % ("first", "second")[j]
        iv = loops(cx)[0]
        Rk, xk = mat3(ps[3 * k + 1]), el3(ps[3 * k])
        Rj, xj = mat3(ps[3 * j + 1]), el3(ps[3 * j])
        arg = [expand(x) for x in parts(e.args[0], 3)]
        col = column_of(arg, iv, "")
        if col is None:
            rep.decide(lab + ": point asked about", None, e.where, sh(arg, 700))
            continue
        b, src = col
        p = add(rot(Rj, b), xj)
        want = rot(tr(Rk), sub(p, xk))
        rep.decide(lab + ": asked about in the other's own frame", same(arg, want), e.where, "point %s, expected %s" % (sh(arg, 700), sh(want, 500)))
        rep.decide(lab + ": every sample is tried", all_columns(iv, src) and conds(cx) is True and not left_early(r, [iv]) and contains(src, lambda y: isinstance(y, str) and y.split(".")[0] == ps[3 * j + 2]), e.where, "%s over %s" % (sh(iv), sh(src)))
        mine = [(a, c) for a, c in ap if loops(c) == [iv] and contains((a[2], conds(c)), lambda y: isinstance(y, str) and y.startswith(e.tag + "."))]
        outs = [ps[6], ps[7]]
        for o in (0, 1):
            got = [(a, c) for a, c in mine if contains(a[1], lambda y: y == outs[o])]
            if len(got) != 1:
                rep.decide(lab + (": contact point", ": contact normal")[o], False if not opaque(mine) else None, e.where, "%d reports" % len(got))
                continue
            a, c = got[0]
            val = [expand(x) for x in parts(a[2], 3)]
            if o == 0:
                back = add(rot(Rk, [expand(x) for x in parts(e.args[0], 3)]), xk)
                okv = any3([same(val, p), same(val, back)])
            else:
                nn = [P.atom(("el", ("in", e.tag + ".1"), num(x))) for x in range(3)]
                sg = ONE if k == 1 else -ONE
                okv = same(val, mul(sg, rot(Rk, nn)))
            rep.decide(lab + (": contact point", ": contact normal points to the first body")[o], okv, a[3], "value %s" % sh(val, 700))
            cc = conds(c)
            rep.decide(lab + (": point", ": normal")[o] + " reported exactly when the sample is inside", cc[0] == "bool" and contains(cc, lambda y: y == e.tag + ".ret") if cc is not True else False, a[3], "when %s" % sh(cc, 300))


def side_mesh(e, ps):
    s = str(e.who)
    for k in (0, 1):
        if "'%s'" % ps[3 * k + 2] in s or s == ps[3 * k + 2] or "<%s>" % ps[3 * k + 2] in s or ps[3 * k + 2] in s:
            return k
    return None


def roots(rep, m):
    """the answer of the continuous test, from the three coefficients of the squared distance"""
    fns = [f for f in m.by_q.get("CollisionDetectionUtilities::ballBallCCDCollisionHappens", []) if f.body and len(f.params) == 1]
    if not fns:
        rep.decide("swept balls", None, "", "the test was not found")
        return
    fn = fns[0]
    nm = fn.params[0]["n"]
    c, b, a = el3(nm)
    for an in ("curved", "constant"):
        for bs in (1, 0, -1):
            def truth(r, q):
                if q[0] == "eq0" and (q[1] == a or q[1] == -a):
                    return an == "constant"
                if q[0] in ("lt", "le") and q[1] in (b, -b):
                    v = bs if q[1] == b else -bs
                    return v < 0 if q[0] == "lt" else v <= 0
                if q[0] == "eq0" and q[1] in (b, -b):
                    return bs == 0
                return None
            if an == "constant" and bs:
                continue                        # a distance that does not change has no slope
            r = Narrow(m, fn, truth=truth)
            rep.saw(r.I)
            lab = "swept balls, %s distance%s" % (an, "" if an == "constant" else ", " + {1: "opening", 0: "turning", -1: "closing"}[bs])
            v = first_of(r)
            got = as_bool(v)
            if got is None:
                rep.decide(lab, None, where_of(fn), sh(v, 500))
                continue
            if an == "constant":
                rep.decide(lab + ": touching exactly when they overlap", cond_same(got, b_cmp("<=", c, ZERO)), where_of(fn), sh(got, 300))
                continue
            bb = b if bs else ZERO
            z = subst(got, lambda y: ZERO if not bs and y == b.as_atom() else None)
            s = sqrt(b * b - num(4) * a * c)
            if not bs:
                s = sqrt(-num(4) * a * c)
            half = (num(2) * a).inv()
            r0, r1 = (-bb - s) * half, (-bb + s) * half
            want = {"disc": bb * bb - num(4) * a * c, "last": r1, "first": ONE - r0}
            env = {}
            bad = None
            for lf in bool_atoms(z):
                k = which_leaf(lf, want)
                if k is None:
                    bad = lf
                    break
                env[lf] = k
            if bad is not None:
                rep.decide(lab, False if not opaque(bad) else None, where_of(fn), "asks %s, which is neither of the two touching times nor their existence" % sh(bad, 500))
                continue
            good = True
            for bits in itertools.product((False, True), repeat=3):
                val = dict(zip(("disc", "last", "first"), bits))         # each: the quantity is not negative
                x = bool_val(z, {lf: (val[k[0]] if k[1] == "ge" else not val[k[0]]) for lf, k in env.items()})
                if x != all(bits):
                    good = False
            rep.decide(lab + ": touching exactly when the times meet the step", good, where_of(fn), "answers %s" % sh(z, 600))


def which_leaf(lf, want):
    """('last', 'ge') when the condition says: this quantity is not negative"""
    if not (isinstance(lf, tuple) and lf[0] in ("lt", "le") and isinstance(lf[1], P)):
        return None
    for k, v in want.items():
        if lf[0] == "lt" and zero(lf[1] - v):
            return k, "lt"
        if lf[0] == "le" and zero(lf[1] + v):
            return k, "ge"
    return None


def first_of(r):
    """the answer's first part"""
    v = r.v
    if isinstance(v, tuple) and v and v[0] == "objv":
        for k, x in v[2]:
            if k == (("fld", "first"),):
                return x
    return None


def items():
    out = []
    for m in models():
        for ks in itertools.product(SHAPES[m.domain], repeat=2):
            out.append((m.domain, "pairs", ks))
        for k in SHAPES[m.domain]:
            out.append((m.domain, "statics", k))
        out.append((m.domain, "images"))
        if m.domain == "rigidbody3d":
            out.append((m.domain, "meshes"))
        if m.domain == "ball2d":
            out.append((m.domain, "roots"))
    return out


def analyse(rep, it):
    m = next(x for x in models() if x.domain == it[0])
    {"pairs": pairs, "images": images, "statics": statics, "meshes": mesh_tests, "roots": roots}[it[1]](rep, m, *it[2:])


def run(tier):
    rep = Report("P14", RULE, [])
    its = items()
    par.each(rep, its, analyse, budget=300, name=lambda it: "%s/%s" % it[:2] + ("/" + str(it[2]) if len(it) > 2 else ""))
    return rep
