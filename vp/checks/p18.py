"""P18: a body that leaves through one side of a periodic boundary re-enters at the matching place of the other."""
from ..model import models
from ..proto import *
from ..ai import State, base_type
from ..report import Report
from .. import par
from ..alg import subst, _atoms
import itertools
import re

RULE = ("the functions of the periodic boundaries are evaluated as value numbers, once per side of the planes a point is on; positions, velocities, sides and offsets are compared, "
        "modulo the orthonormality of the planes' frames, with the definition of a periodic (and moving) boundary")
DIM = {"ball2d": 2, "rigidbody2d": 2, "rigidbody3d": 3}
T = ("obj", "this")


def xyz(v, d):
    """components of a vector value"""
    if isinstance(v, V) and len(v.e) == d:
        return list(v.e)
    a = v.as_atom() if isinstance(v, M) else v
    if isinstance(v, M) and a is None:
        return None
    if isinstance(a, tuple) and a and a[0] == "in":
        return [P.atom(("el", a, num(k))) for k in range(d)]
    return None


def dot(a, b):
    s = ZERO
    for x, y in zip(a, b):
        s = s + x * y
    return s


def value(r, v, d):
    """what a returned reference refers to"""
    if isinstance(v, tuple) and len(v) == 2 and v[0] == "lref":
        l = v[1]
        if l in r.s.store:
            return r.s.store[l]
        t = next((f["t"] for c in r.m.recs for f in r.m.fields(c) if f["n"] == l[-1]), "double") if l[0] == "fld" else "double"
        return r.I.load(r.s, l, t)
    return v


class Frame:
    """the two planes, offset, speed and period of a portal, by what its queries return"""

    def __init__(self, m, d):
        self.m, self.d, self.ok = m, d, True
        self.tmap, self.sq = {}, []
        self.pl = {}
        for s in "AB":
            fn = m.method("PlanarPortal", "plane" + s)
            r = Proto(m, lambda f: False)
            r.run(fn)
            l = r.v[1] if isinstance(r.v, tuple) and r.v[:1] == ("lref",) else None
            if not isinstance(l, tuple) or l[:2] != ("fld", T):
                self.ok = False
                return
            loc = ("fld", T, l[2])
            self.cls = next(base_type(f["t"]) for f in m.fields("PlanarPortal") if f["n"] == l[2])
            get = lambda name: xyz(self.query(self.cls, name, loc), d)
            if d == 2:
                x, n, t = get("x"), get("n"), get("t")
                if x is None or n is None or t is None:
                    self.ok = False
                    return
                ta = [p.as_atom() for p in t]
                if None not in ta:
                    self.tmap[ta[0]], self.tmap[ta[1]] = -n[1], n[0]
                ts = [t]
            else:
                x, n = get("x"), get("n")
                ts = [[P.atom(("el", ("in", "%s(%s)" % (q, sh(loc, 300))), num(k))) for k in range(3)] for q in ("t0", "t1")]
                if x is None or n is None:
                    self.ok = False
                    return
            last = n[-1].as_atom()
            one = num(1)
            for c in n[:-1]:
                one = one - c * c
            if last is not None:
                self.sq.append((last, one))
            self.pl[s] = (x, n, ts)
        if d == 2:
            b, le = self.query("PlanarPortal", "bounds", T), self.query("PlanarPortal", "isLeesEdwards", T)
            v = None
            for y in walkv(le):
                if isinstance(y, P) and y.as_atom():
                    v = y
            self.b, self.v = b, v
            a = xyz(self.query("PlanarPortal", "transformedAx", T), 2)
            self.dx = None
            if a is not None:
                known = {y for p in self.pl["A"] for q in (p if not isinstance(p[0], list) else p[0]) for y in q.atoms()}
                rest = [y for y in a[0].atoms() if y not in known]
                if len(rest) == 1:
                    self.dx = P.atom(rest[0])
            self.ok = isinstance(b, P) and v is not None and self.dx is not None
        else:
            self.mul = None

    def query(self, cls, name, this):
        fn = self.m.method(cls, name)
        if fn is None:
            return None
        r = Proto(self.m, lambda f: False)
        r.run(fn, this=this)
        return value(r, r.v, self.d)

    # -- canonical form: tangents in terms of normals, normals of unit length ----------------------------------------------------
    def canon(self, p):
        if not isinstance(p, P):
            return p

        def f(y):
            if not isinstance(y, tuple):
                return None
            if y in self.tmap:
                return self.tmap[y]
            if len(y) == 3 and y[0] == "fn" and y[1] == "floor" and isinstance(y[2], P):
                return ("fn", "floor", self.reduce(y[2]))
            if len(y) == 3 and y[0] == "fn" and y[1] == "floor" and isinstance(y[2], tuple) and len(y[2]) == 1 and isinstance(y[2][0], P):
                return ("fn", "floor", (self.reduce(y[2][0]),))
            return None
        return self.reduce(subst(p, f))

    def reduce(self, p):
        for a, one in self.sq:
            for _ in range(6):
                out, hit = ZERO, False
                for mono, c in p.t.items():
                    k = next(((i, e) for i, e in mono if _atoms[i] == a and e >= 2), None)
                    if k is None:
                        out = out + P({mono: c})
                    else:
                        hit = True
                        low = tuple((i, e - 2) if i == k[0] else (i, e) for i, e in mono)
                        out = out + P({tuple((i, e) for i, e in low if e): c}) * one
                p = out
                if not hit:
                    break
        return p


def walkv(x):
    yield x
    if isinstance(x, (tuple, frozenset, list)):
        for y in x:
            yield from walkv(y)


class Side(Proto):
    """one function of the boundary with the signs of given quantities known"""

    def __init__(self, m, fr, name, signs, le=None, args=None, store=None):
        self.fr, self.signs, self.le, self.unknown = fr, [(fr.canon(p), s) for p, s in signs], le, []
        fn = m.method("PlanarPortal", name)
        Proto.__init__(self, m, lambda f: f["q"].split("::")[0] == fr.cls and f["n"] in ("t0", "t1"), decide=lambda p, st, c: self.truth(c, True))
        self.I.hooks["short"] = self.truth
        st = State()
        for k, v in (store or {}).items():
            st.store[k] = v
        self.run(fn, args=args, st=st)

    def truth(self, c, top=False):
        r = self.truth_(c)
        if r is None and top:
            self.unknown.append(c)
        return r

    def truth_(self, c):
        if isinstance(c, bool):
            return c
        if not isinstance(c, tuple) or not c:
            return None
        if c[0] == "not":
            r = self.truth_(c[1])
            return None if r is None else not r
        if c[0] in ("and", "or"):
            rs = [self.truth_(x) for x in (c[1] if isinstance(c[1], (frozenset, set, tuple, list)) else c[1:])]
            if any(r is (c[0] == "or") for r in rs):
                return c[0] == "or"
            return None if any(r is None for r in rs) else c[0] == "and"
        if c[0] in ("lt", "le", "eq0") and isinstance(c[1], P):
            p = self.fr.canon(c[1])
            if p.is_const() if hasattr(p, "is_const") else not p.atoms():
                z = p.cval()
                return z < 0 if c[0] == "lt" else z <= 0 if c[0] == "le" else z == 0
            if self.le is not None and self.fr.v is not None and c[0] == "eq0" and p in (self.fr.v, -self.fr.v):
                return not self.le
            for q, s in self.signs:
                if p == q or p == -q:
                    t = s if p == q else -s
                    return t < 0 if c[0] == "lt" else t <= 0 if c[0] == "le" else t == 0
            a = p.as_atom()
            if c[0] == "eq0" and isinstance(a, tuple) and a[0] == "bool":
                return None
        return None

    def value(self, v):
        """a result with the choices it contains made"""
        while isinstance(v, tuple) and v and v[0] == "phi":
            b = self.truth(v[1], True)
            if b is None:
                return None
            v = v[2] if b else v[3]
        if isinstance(v, P):
            v = self.settle(v)
        return v

    def settle(self, p):
        def f(y):
            if isinstance(y, tuple) and y and y[0] == "phi":
                b = self.truth(y[1], True)
                return None if b is None else (y[2] if b else y[3])
            return None
        return subst(p, f)


def equal(fr, got, want):
    """does a vector equal the expected one: True, False, or None when it holds something not modelled"""
    if got is None:
        return None
    g = [fr.canon(x) for x in got]
    w = [fr.canon(x) for x in want]
    if g == w:
        return True
    known = set()
    for x in w + ([fr.dx, fr.v, fr.b] if fr.d == 2 else []):
        known |= base(x)
    for s in "AB":
        for part in [fr.pl[s][0], fr.pl[s][1]] + fr.pl[s][2]:
            for x in part:
                known |= base(x)
    return False if all(base(x) <= known for x in g) else None


def base(p):
    """names a value is made of"""
    out = set()
    for y in p.atoms():
        for z in walkv(y):
            if isinstance(z, P):
                out |= base(z)
            elif isinstance(z, tuple) and z and z[0] in ("in", "unk", "phi", "call", "word", "uninit"):
                out.add(z)
    return out


def fl(x):
    return P.atom(("fn", "floor", x))


def through(fr, a, b, x, wrap=True):
    """where a point that left through plane a comes back at plane b"""
    (xa, na, ta), (xb, nb, tb) = fr.pl[a], fr.pl[b]
    rel = [p - q for p, q in zip(xa, x)]
    if fr.d == 2:
        t = dot(ta[0], rel) + fr.dx
        if wrap:
            q = fr.canon((t + fr.b) * (num(2) * fr.b).inv())
            t = t - num(2) * fr.b * fr.floor(q)
        c = [dot(na, rel), t]
    else:
        c = [fr.mul[0] * dot(na, rel), fr.mul[1] * dot(ta[0], rel), fr.mul[2] * dot(ta[1], rel)]
    out = list(xb)
    for k, ax in enumerate([nb] + tb):
        out = [o + c[k] * e for o, e in zip(out, ax)]
    return out


def analyse(rep, dom):
    m = next(x for x in models() if x.domain == dom)
    d = DIM[dom]
    fr = Frame(m, d)
    L = "%s periodic boundary" % dom
    if not fr.ok:
        rep.und(L, "", "its planes, offset and period were not recognised")
        return
    meth = lambda n: m.method("PlanarPortal", n)
    at = lambda n: "%s:%s" % (meth(n).file, meth(n).line)
    for n in list({f.name for f in m.fns.values() if f.cls == "PlanarPortal"}):
        f = meth(n)
        if f is not None:
            rep.analysed.add("%s %s" % (f.file, f.q))
    X = [P.atom(("el", ("in", "X"), num(k))) for k in range(d)]
    Rr = P.atom(("in", "R"))
    depth = {s: dot(fr.pl[s][1], [x - y for x, y in zip(X, fr.pl[s][0])]) for s in "AB"}
    arg = lambda *ns: [("loc", ("obj", n)) for n in ns]
    # the rounding used is the one the moving offset uses
    fr.floor = lambda q: P.atom(("fn", "floor", q))
    if d == 2:
        fn = meth("updateMovingPortals")
        r = Proto(m, lambda f: False)
        r.run(fn, args=arg("TIME"))
        key = next((k for k in r.s.store if k[0] == "fld" and sh(r.I.initial("this." + str(k[2]), "double")) == sh(fr.dx)), None)
        v = r.s.store.get(key)
        for y in (v.atoms() if isinstance(v, P) else ()):
            if isinstance(y, tuple) and y[:2] == ("fn", "floor") and isinstance(y[2], tuple):
                fr.floor = lambda q: P.atom(("fn", "floor", (q,)))
        tm = P.atom(("in", "TIME"))
        for le in (True, False):
            s = Side(m, fr, "updateMovingPortals", [], le=le, args=arg("TIME"))
            v = s.value(s.s.store.get(key)) if s.s is not None and key is not None else None
            want = [fr.v * tm - num(2) * fr.b * fr.floor((fr.v * tm + fr.b) * (num(2) * fr.b).inv())]
            what = L + ": a %s boundary is offset by its speed times the time, within one period" % ("moving" if le else "resting")
            if s.unknown or not isinstance(v, P):
                rep.und(what, at("updateMovingPortals"), "value %s" % sh(v, 200))
            elif not le and v == ZERO:
                rep.ok(what, at("updateMovingPortals"))
            else:
                rep.decide(what, equal(fr, [v], want), at("updateMovingPortals"), "offset %s" % sh(v, 300))
        for s in "AB":
            n = "transformed%sx" % s
            if meth(n) is not None:
                got = xyz(fr.query("PlanarPortal", n, T), 2)
                rep.decide(L + ": side %s is shown where it is" % s, equal(fr, got, [x + fr.dx * t for x, t in zip(fr.pl[s][0], fr.pl[s][2][0])]), at(n), "shown at %s" % sh(got, 300))
    else:
        pm = xyz(fr.query("PlanarPortal", "portalMultiplier", T), 3) if meth("portalMultiplier") is not None else None
        if pm is None:
            f = next((g for g in m.fields("PlanarPortal") if "int, 3" in g["t"]), None)
            pm = [P.atom(("el", ("in", "this." + f["n"]), num(k))) for k in range(3)] if f else None
        if pm is None:
            rep.und(L, "", "multipliers not recognised")
            return
        fr.mul = pm

    def outcome(name, signs, args, out, want, what, le=None, store=None, alt=None):
        """result of one function in one situation"""
        s = Side(m, fr, name, signs, le=le, args=args, store=store)
        w = at(name)
        if s.s is None:
            rep.und(what, w, "not analysed")
            return
        v = s.value(s.v if out is None else s.s.store.get(("obj", out)))
        if isinstance(want, bool):
            b = s.truth(v, True) if not isinstance(v, bool) else v
            rep.decide(what, None if b is None or (s.unknown and b is None) else b == want, w, "says %s" % sh(v, 200))
            return
        got = xyz(v, d)
        if got is not None:
            got = [s.value(x) for x in got]
        if s.unknown or got is None or any(not isinstance(x, P) for x in got):
            rep.und(what, w, "%s; depends on %s" % (sh(v, 160), "; ".join(sh(c, 200) for c in s.unknown[:2])))
            return
        e = equal(fr, got, want)
        if e is not True and alt is not None and equal(fr, got, alt) is True:
            e = True
        rep.decide(what, e, w, "gives %s, expected %s" % (sh(got, 500), sh([fr.canon(x) for x in want], 500)))

    les = (True, False) if d == 2 else (None,)
    other = {"A": "B", "B": "A"}
    # a point
    for sa, sb in ((-1, 1), (1, -1), (1, 1)):
        sg = [(depth["A"], sa), (depth["B"], sb)]
        side = "A" if sa < 0 else "B" if sb < 0 else None
        place = "through side %s" % side if side else "between the sides"
        outcome("pointInsidePortal", sg, arg("X"), None, side is not None, L + ": a point %s is %sout" % (place, "" if side else "not "))
        if side:
            for le in les:
                k = "" if le is None else ", moving" if le else ", resting"
                outcome("teleportPointInsidePortal", sg, arg("X", "OUT"), "OUT", through(fr, side, other[side], X), L + ": a point %s comes back as deep at the other side%s" % (place, k), le=le,
                        alt=through(fr, side, other[side], X, wrap=False) if le is False else None)
                if d == 2:
                    vel(outcome, fr, "getKinematicVelocityOfPoint", sg, arg("X"), side, L + ": its velocity changes by that of the other side, point %s%s" % (place, k), le)
    # a caller may pass the same point for both
    if any(n.get("k") == "mcall" and n["f"]["n"] == "teleportPointInsidePortal" and len(n.get("args", [])) == 2 and same(n["args"][0], n["args"][1])
           for f in m.fns.values() if f.body is not None for n in nodes(f.body) if isinstance(n.get("f"), dict)):
        for side in "AB":
            outcome("teleportPointInsidePortal", [(depth["A"], -1 if side == "A" else 1), (depth["B"], -1 if side == "B" else 1)], arg("X", "X"), "X", through(fr, side, other[side], X),
                    L + ": a point through side %s comes back as deep at the other side, moved in place" % side, le=True if d == 2 else None)
    # a round body
    for sa, sb in ((-1, 1), (1, -1), (1, 1)):
        sg = [(depth["A"] - Rr, sa), (depth["B"] - Rr, sb)]
        side = "A" if sa < 0 else "B" if sb < 0 else None
        place = "across side %s" % side if side else "between the sides"
        if meth("ballTouchesPortal") is not None:
            touches(rep, m, fr, "ballTouchesPortal", sg, arg("X", "R", "IDX"), side, L + ": a ball %s" % place, at("ballTouchesPortal"))
        if side and meth("teleportBall") is not None:
            for le in les:
                outcome("teleportBall", sg, arg("X", "R", "OUT"), "OUT", through(fr, side, other[side], X), L + ": the image of a ball %s is where it comes back%s" % (place, ", moving" if le else ""), le=le,
                        alt=through(fr, side, other[side], X, wrap=False) if le is False else None)
        if side and meth("getKinematicVelocityOfBall") is not None:
            vel(outcome, fr, "getKinematicVelocityOfBall", sg, arg("X", "R"), side, L + ": the image of a ball %s moves with the other side" % place, True)
    # a box around a body
    lo, hi = [[P.atom(("el", ("in", n), num(k))) for k in range(d)] for n in ("LO", "HI")]
    corners = [[(lo, hi)[c[k]][k] for k in range(d)] for c in itertools.product((0, 1), repeat=d)]
    cd = {s: [dot(fr.pl[s][1], [x - y for x, y in zip(c, fr.pl[s][0])]) for c in corners] for s in "AB"}
    cases = [(None, None)] + [(s, k) for s in "AB" for k in range(len(corners))]
    for s, k in cases:
        sg = [(q, -1 if (t, j) == (s, k) else 1) for t in "AB" for j, q in enumerate(cd[t])]
        place = "with corner %d across side %s" % (k, s) if s else "between the sides"
        if meth("aabbTouchesPortal") is not None:
            touches(rep, m, fr, "aabbTouchesPortal", sg, arg("LO", "HI", "IDX"), s, L + ": a box %s" % place, at("aabbTouchesPortal"))
        if s and meth("getKinematicVelocityOfAABB") is not None:
            vel(outcome, fr, "getKinematicVelocityOfAABB", sg, arg("LO", "HI"), s, L + ": the image of a body %s moves with the other side" % place, True)
    if meth("teleportPoint") is not None:
        for s in "AB":
            for le in les:
                outcome("teleportPoint", [], arg("X", "IDX", "OUT"), "OUT", through(fr, s, other[s], X), L + ": the image of a body across side %s is where it comes back%s" % (s, ", moving" if le else ""), le=le,
                        store={("obj", "IDX"): s == "B"}, alt=through(fr, s, other[s], X, wrap=False) if le is False else None)
    bounds_rules(rep, m, dom)
    if d == 2:
        frame_rules(rep, m, dom, fr.cls)


def nodes(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from nodes(v)
    elif isinstance(n, list):
        for v in n:
            yield from nodes(v)


def same(a, b):
    strip = lambda n: {k: strip(v) for k, v in n.items() if k != "l"} if isinstance(n, dict) else [strip(v) for v in n] if isinstance(n, list) else n
    return strip(a) == strip(b)


class Plain:
    """quantities compared as they are"""
    v = None
    canon = staticmethod(lambda p: p)


class Box(Proto):
    """the treatment of the bounds of a simulation, with the place of a body's box known"""
    truth, truth_ = Side.truth, Side.truth_

    def __init__(self, m, fn, behaviour, outside):
        self.fr, self.signs, self.le, self.unknown, self.behaviour, self.outside = Plain, [], None, [], behaviour, outside
        Proto.__init__(self, m, lambda f: f["n"] in ("computeAABB", "exit"), decide=self.choice)
        self.I.hooks["short"] = lambda c: self.which(c)
        self.run(fn)
        self.calls = flat(self.s.ev) if self.s is not None else []

    def choice(self, p, st, c):
        r = self.which(c)
        if r is None:
            self.unknown.append(c)
        return r

    def which(self, c):
        if isinstance(c, tuple) and c and c[0] == "not":
            r = self.which(c[1])
            return None if r is None else not r
        if isinstance(c, tuple) and c and c[0] in ("and", "or"):
            rs = [self.which(x) for x in (c[1] if isinstance(c[1], (frozenset, set, tuple, list)) else c[1:])]
            if any(r is (c[0] == "or") for r in rs):
                return c[0] == "or"
            return None if any(r is None for r in rs) else c[0] == "and"
        if isinstance(c, tuple) and c and c[0] == "eqt":
            e = [x for x in c[1] if isinstance(x, tuple) and x and x[0] == "enumc"]
            if len(e) == 1 and "oundary" in str(e[0][1]):
                return e[0][1].split("::")[-1] == self.behaviour
        if isinstance(c, tuple) and c and c[0] in ("lt", "le") and isinstance(c[1], P) and len(c[1].t) == 2:
            box = [(mo, k) for mo, k in c[1].t.items() if "computeAABB@" in str(P({mo: k}))]
            rest = [(mo, k) for mo, k in c[1].t.items() if (mo, k) not in box]
            if len(box) == 1 and len(rest) == 1:
                b, q = P({box[0][0]: num(1).cval()}).as_atom(), P({rest[0][0]: num(1).cval()}).as_atom()
                side = re.search(r"computeAABB@\d+\.(\d+)", str(b))
                if side is None or not isinstance(q, tuple) or q[0] != "el" or not isinstance(b, tuple) or b[0] != "el" or box[0][1] * rest[0][1] != -1:
                    return None
                side, kb, kq = int(side.group(1)) - 2, b[2], q[2]
                lim = str(q[1])
                # the difference is negative when the body's extent is on the outer side of the limit it is compared with
                if kb != kq or self.lim(lim) is None:
                    return self.strange(c, side, kb, kq, lim, box[0][1])
                if self.lim(lim) != side:
                    return self.strange(c, side, kb, kq, lim, box[0][1])
                out = (side, int(str(kb))) == self.outside
                below = box[0][1] > 0       # extent - limit < 0
                return out if below == (side == 0) else not out
        return None

    odd = None

    def strange(self, c, side, kb, kq, lim, k):
        if self.lim(lim) is not None:
            self.odd = sh(c, 200)
        return None

    def lim(self, s):
        return next((i for i, n in enumerate(self.limits) if n is not None and n in s), None)


def bounds_rules(rep, m, dom):
    for fn in list(m.fns.values()):
        if fn.name != "treatSimulationBoundary" or fn.body is None:
            continue
        w = "%s:%s" % (fn.file, fn.line)
        L = "%s bounds of the simulation" % dom
        sf, sc = next(((f["n"], base_type(f["t"])) for f in m.fields(fn.cls) if m.method(base_type(f["t"]), "boundaryMin") is not None), (None, None))
        if sf is None:
            rep.und(L, w, "state not recognised")
            return
        names = []
        for q in ("boundaryMin", "boundaryMax"):
            r = Proto(m, lambda f: False)
            r.run(m.method(sc, q), this=("fld", T, sf))
            v = r.v
            names.append(v[1][2] if isinstance(v, tuple) and v[:1] == ("lref",) else None)
        Box.limits = ["this.%s.%s" % (sf, n) if n else None for n in names]
        cases = [("NONE", (0, 0)), ("EXIT", None)] + [("EXIT", (s, k)) for s in (0, 1) for k in range(3)]
        for beh, out in cases:
            r = Box(m, fn, beh, out)
            what = L + (": not looked at unless asked for" if beh == "NONE" else ": a body inside is left alone" if out is None else ": a body past the %s bound of axis %d ends the run" % (("lower", "upper")[out[0]], out[1]))
            if r.s is None:
                rep.und(what, w, "not analysed")
                continue
            ends = [c for c, ctx in r.calls if c.nm == "exit"]
            want = beh == "EXIT" and out is not None
            if r.odd:
                rep.bad(what, w, "compares %s" % r.odd)
                continue
            if r.unknown:
                rep.und(what, w, "depends on %s" % "; ".join(sh(c, 200) for c in r.unknown[:2]))
                continue
            status = [sh(c.args[0], 20) for c in ends]
            rep.decide(what, bool(ends) == want and not any(x in ("0", "(0)") for x in status), ends[0].where if ends else w, "%s" % ("ends the run with %s" % ", ".join(status) if ends else "goes on"))
            if want:
                c, ctx = next((c, x) for c, x in r.calls if c.nm == "computeAABB")
                ls = [x[1] for x in ctx if x[0] == "loop"]
                good = len(ls) == 1 and ls[0][2] == ZERO and "nbodies" in str(ls[0][3]) and len(ls[0][3].t) == 1 and ls[0][3].as_atom() is not None
                rep.decide(what + ": whichever body it is", True if good else None if len(ls) != 1 else False, c.where, "bodies %s" % sh(ls, 200))
                if good:
                    i = P.atom(ls[0])
                    n = ls[0][3]
                    at = lambda k: P.atom(("el", ("in", "this.%s.m_q" % sf), k))
                    pos = [at(num(3) * i + num(k)) for k in range(3)]
                    rot = [at(num(3) * n + num(9) * i + num(k)) for k in range(9)]
                    g = list(getattr(c.args[0], "e", [])), list(getattr(c.args[1], "e", []))
                    rep.decide(what + ": judged by its own shape", True if contains(c.recv, lambda y: y == ls[0] or isinstance(y, P) and i == y) else None if c.recv is None else False, c.where, "shape %s" % sh(c.recv, 200))
                    rep.decide(what + ": judged by its own pose", True if g == (pos, rot) else None if not g[0] or not g[1] or any("m_q" not in str(x) for x in g[0] + g[1]) else False, c.where, "pose %s" % sh(c.args[:2], 300))
        rep.analysed.add("%s %s" % (fn.file, fn.q))


def vel(outcome, fr, name, sg, args, side, what, le):
    o = "B" if side == "A" else "A"
    # the planes of a moving boundary face each other, so that their tangents are opposite
    outcome(name, sg, args, None, [-fr.v * t for t in fr.pl[side][2][0]], what, le=le, alt=[fr.v * t for t in fr.pl[o][2][0]] if le else [ZERO, ZERO])


def touches(rep, m, fr, name, sg, args, side, what, w):
    s = Side(m, fr, name, sg, args=args)
    if s.s is None:
        rep.und(what, w, "not analysed")
        return
    v = s.value(s.v)
    b = v if isinstance(v, bool) else s.truth(v, True)
    rep.decide(what + ": is%s found to touch" % ("" if side else " not"), None if b is None else b == (side is not None), w, "says %s" % sh(v, 200))
    if side and b is not None:
        i = s.value(s.s.store.get(("obj", "IDX")))
        if isinstance(i, P):
            i = None if i.atoms() else i.cval() != 0
        rep.decide(what + ": the side is told", None if not isinstance(i, bool) else i == (side == "B"), w, "side %s" % sh(i, 100))


def frame_rules(rep, m, dom, cls):
    """a plane's tangent is its normal turned by a right angle"""
    for f in m.fns.values():
        if f.cls != cls or f.name != cls or len(f.params) != 2 or f.body is None:
            continue
        r = Proto(m, lambda g: False)
        r.run(f, args=[("loc", ("obj", "X")), ("loc", ("obj", "N"))])
        if r.s is None:
            continue
        w = "%s:%s" % (f.file, f.line)
        get = lambda name: (lambda g: g.v)(again(m, cls, name, r.s))
        n, t = xyz(get("n"), 2), xyz(get("t"), 2)
        what = "%s plane: its tangent is its normal turned by a right angle" % dom
        if n is None or t is None:
            rep.und(what, w, "normal %s, tangent %s" % (sh(n, 100), sh(t, 100)))
        else:
            good = t == [-n[1], n[0]]
            rep.decide(what, True if good else False if t == [n[1], -n[0]] or dot(n, t) != ZERO else None, w, "tangent %s" % sh(t, 200))
        x = xyz(get("x"), 2)
        rep.decide("%s plane: it passes through the point given" % dom, None if x is None else x == [P.atom(("el", ("in", "X"), num(k))) for k in range(2)], w, "point %s" % sh(x, 200))


def again(m, cls, name, st):
    r = Proto(m, lambda g: False)
    s = st.fork() if hasattr(st, "fork") else st.copy()
    r.run(m.method(cls, name), st=s)
    r.v = value(r, r.v, 2)
    return r


def run(tier):
    rep = Report("P18", RULE, [])
    par.each(rep, [m.domain for m in models()], analyse, budget=300)
    return rep
