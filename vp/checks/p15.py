"""P15: mass, centre of mass and moments of inertia are those of the shape."""
from ..model import models
from ..proto import *
from ..ai import State, base_type
from ..report import Report
from .. import par
from .p13 import accessor, opaque, shape_of
from .p14 import zero, expand, parts, where_of
from fractions import Fraction
import itertools

RULE = ("the mass, centre and moments a shape computes are evaluated as value numbers and compared with the integrals of its density over the shape it describes "
        "(closed forms; for a triangulated solid, the flux form of each integral over every triangle); the mass entries a state stores are the ones the shape computed")

PI_ = P.atom(("pi",))
PIV = Fraction(314159265358979323846264338327950288, 10 ** 35)


def nice(c):
    f = c.limit_denominator(1000000)
    return f if f == c else None


def unpi(p):
    """the number pi by name"""
    if not isinstance(p, P):
        return p
    out = ZERO
    for mo, co in p.t.items():
        t = P({mo: Fraction(1)})
        f = nice(co)
        if f is None:
            x = co / PIV
            f = x.limit_denominator(1000000)
            if f != 0 and abs(x / f - 1) < Fraction(1, 10 ** 13):
                t = t * PI_
            else:
                f = co
        out = out + num(f) * t
    return out


def same(a, b):
    if isinstance(a, list):
        rs = [same(x, y) for x, y in zip(a, b)]
        return False if any(r is False for r in rs) else None if any(r is None for r in rs) else True
    if not isinstance(a, P):
        return None
    a = unpi(a)
    if zero(a - b):
        return True
    return None if opaque(a) else False


class Run:
    def __init__(self, m, fn, st=None, decide=None, name_sums=False):
        self.p = Proto(m, lambda f: False, decide=decide)
        self.fn = fn
        self.sums = {}
        if name_sums:
            self.p.I.hooks["loop_exit"] = self.after
        self.p.run(fn, st=st)

    def after(self, I, st, end, iv):
        """give each total a loop leaves behind a name"""
        for k, v in list(st.store.items()):
            if isinstance(v, P):
                st.store[k] = self.named(v)
            elif isinstance(v, V):
                st.store[k] = V(v.r, v.c, [self.named(x) for x in v.e], v.arr)

    def named(self, v):
        if isinstance(v, P) and any(is_sum(a) for a in v.atoms()):
            a = ("sumof", len(self.sums))
            for b, w in self.sums.items():
                if w == v:
                    return P.atom(b)
            self.sums[a] = v
            return P.atom(a)
        return v

    def out(self, k):
        pr = self.fn.params[k]
        return self.p.I.load(self.p.s, ("obj", pr["n"]), self.fn.types[pr["t"]])


def geometries(m):
    base = {"rigidbody2d": "RigidBody2DGeometry", "rigidbody3d": "RigidBodyGeometry"}.get(m.domain)
    return m.concrete(base) if base else []


def items():
    out = []
    for m in models():
        for c in geometries(m):
            out.append((m.domain, "shape", c))
        if m.domain == "rigidbody3d":
            out.append((m.domain, "solid", None))
        out.append((m.domain, "bodies", None))
    return out


def shape(rep, m, cls):
    fn = m.method(cls, "computeMassAndInertia")
    if fn is None or not fn.body:
        rep.decide("%s: mass and inertia" % cls, None, "", "not found")
        return
    w = where_of(fn)
    R3 = m.domain == "rigidbody3d"
    rho = P.atom(("in", fn.params[0]["n"]))
    I3 = [[ONE if a == b else ZERO for b in range(3)] for a in range(3)]
    r, h, pts, vs = [accessor(m, cls, x) for x in ("r", "halfWidths", "points", "vertices")]
    name = "%s %s" % (m.domain, cls)
    st = None
    if pts is not None:
        return chain(rep, m, cls, fn)
    run = Run(m, fn)
    rep.saw(run.p.I)
    outs = [run.out(k) for k in range(1, len(fn.params))]
    if isinstance(vs, M):
        return stored(rep, m, cls, fn, outs, rho)
    if isinstance(h, V) or isinstance(r, V):
        d = list((h if isinstance(h, V) else r).e)
        mass = rho
        for x in d:
            mass = mass * num(2) * x
        if R3:
            mom = [mass * num(Fraction(1, 3)) * (d[(k + 1) % 3] * d[(k + 1) % 3] + d[(k + 2) % 3] * d[(k + 2) % 3]) for k in range(3)]
        else:
            mom = mass * num(Fraction(1, 3)) * (d[0] * d[0] + d[1] * d[1])
    elif isinstance(r, P):
        if R3:
            mass = rho * num(Fraction(4, 3)) * PI_ * r * r * r
            mom = [mass * num(Fraction(2, 5)) * r * r] * 3
        else:
            mass = rho * PI_ * r * r
            mom = mass * num(Fraction(1, 2)) * r * r
    else:
        rep.decide("%s: mass and inertia" % name, None, w, "shape not recognised")
        return
    rep.decide("%s: mass" % name, same(outs[0], mass), w, "mass %s" % sh(outs[0], 300))
    if not R3:
        rep.decide("%s: moment of inertia about the centre" % name, same(outs[1], mom), w, "inertia %s" % sh(outs[1], 300))
        return
    rep.decide("%s: centre of mass" % name, same(parts(outs[1], 3), [ZERO] * 3), w, "centre %s" % sh(outs[1], 300))
    rep.decide("%s: principal moments" % name, same(parts(outs[2], 3), mom), w, "moments %s" % sh(outs[2], 500))
    rep.decide("%s: principal axes" % name, same(parts(outs[3], 9), [x for row in I3 for x in row]), w, "axes %s" % sh(outs[3], 300))


def positive(p, names):
    """the sign that makes a length positive"""
    for n in names:
        for mo, co in p.t.items():
            if len(mo) == 1 and mo[0][1] == 1 and atom_of(mo[0][0]) == ("in", n):
                return num(1) if co > 0 else num(-1)
    return None


def chain(rep, m, cls, fn):
    """a body made of round bars between consecutive corners"""
    w = where_of(fn)
    name = "%s %s" % (m.domain, cls)
    ctors = [f for f in m.by_q.get("%s::%s" % (cls, cls), []) if f.body is not None and len(f.params) == 3]
    if len(ctors) != 1:
        rep.decide("%s: mass and inertia" % name, None, w, "constructor not recognised")
        return
    c = ctors[0]
    pc = Proto(m, lambda f: False)
    pc.run(c)
    rep.saw(pc.I)
    names = [p["n"] for p in c.params]
    I = pc.I

    def member(meth):
        f = m.method(cls, meth)
        v, s = I.run(f, this=("obj", "this"), thiscls=cls, st=pc.s)
        return (I.load(s, v[1], "?") if isinstance(v, tuple) and v and v[0] == "lref" else v), s, v
    r, _, _ = member("r")
    _, s, ref = member("points")
    loc = ref[1] if isinstance(ref, tuple) and ref and ref[0] == "lref" else None
    if loc is None:
        for f in m.fields(cls):
            if "std::vector" in f["t"]:
                loc = ("fld", ("obj", "this"), f["n"])
    n = I.size_of(I.load(pc.s, loc, "std::vector<Eigen::Matrix<double, 3, 1>>"))
    if not (isinstance(n, P) and n.is_const()):
        rep.decide("%s: corners" % name, None, w, "number of corners %s" % sh(n))
        return
    pts = []
    for k in range(int(n.cval())):
        v = I.load(pc.s, ("idx", loc, num(k)), "Eigen::Matrix<double, 3, 1>")
        pts.append(parts(v, 3))
    args = [("loc", ("obj", p["n"])) for p in fn.params]
    v, s = I.run(fn, this=("obj", "this"), thiscls=cls, args=args, st=pc.s)
    outs = [I.load(s, ("obj", p["n"]), fn.types[p["t"]]) for p in fn.params[1:]]
    rho = P.atom(("in", fn.params[0]["n"]))
    mass, first, mom = ZERO, [ZERO] * 3, [[ZERO] * 3 for _ in range(3)]
    bars = []
    for a, b in zip(pts, pts[1:]):
        d = [expand(y) - expand(x) for x, y in zip(a, b)]
        ax = [k for k in range(3) if not zero(d[k])]
        if len(ax) != 1:
            rep.decide("%s: corners" % name, None if opaque((a, b)) or has_unk((a, b)) else False, where_of(c), "bar from %s to %s" % (sh(a, 200), sh(b, 200)))
            return
        sg = positive(d[ax[0]], names)
        if sg is None:
            rep.decide("%s: corners" % name, None, where_of(c), "length of the bar %s" % sh(d[ax[0]], 200))
            return
        L = sg * d[ax[0]]
        mid = [num(Fraction(1, 2)) * (x + y) for x, y in zip(a, b)]
        mb = rho * PI_ * r * r * L
        bars.append((L, ax[0], mid))
        mass = mass + mb
        for k in range(3):
            first[k] = first[k] + mb * mid[k]
            own = mb * num(Fraction(1, 2)) * r * r if k == ax[0] else mb * num(Fraction(1, 12)) * (num(3) * r * r + L * L)
            o = [x for x in range(3) if x != k]
            mom[k][k] = mom[k][k] + own + mb * (mid[o[0]] * mid[o[0]] + mid[o[1]] * mid[o[1]])
            for j in range(3):
                if j != k:
                    mom[k][j] = mom[k][j] - mb * mid[k] * mid[j]
    rep.decide("%s: mass" % name, same(outs[0], mass), w, "mass %s" % sh(outs[0], 300))
    rep.decide("%s: the corners are given about the centre of mass" % name, same(first, [ZERO] * 3), where_of(c), "first moment %s" % sh(first, 400))
    mids = [[-x for x in b[2]] for b in bars]
    cm = parts(outs[1], 3)
    rep.decide("%s: centre of mass" % name, same(cm, mids[len(mids) // 2]), w, "centre %s from the middle of the crossbar" % sh(cm, 400))
    rep.decide("%s: principal moments" % name, same(parts(outs[2], 3), [mom[k][k] for k in range(3)]), w, "moments %s" % sh(outs[2], 600))
    rep.decide("%s: axes are principal" % name, same([mom[0][1], mom[0][2], mom[1][2]], [ZERO] * 3), w, "")
    rep.decide("%s: principal axes" % name, same(parts(outs[3], 9), [ONE if a == b else ZERO for a in range(3) for b in range(3)]), w, "axes %s" % sh(outs[3], 300))


def stored(rep, m, cls, fn, outs, rho):
    """a solid whose moments per unit density are stored with it"""
    w = where_of(fn)
    name = "%s %s" % (m.domain, cls)

    def of(v, n):
        """the one member all components come from, in order; scaled by the density?"""
        xs = [v] if n == 1 else parts(v, n)
        src = set()
        for k, x in enumerate(xs):
            if not isinstance(x, P) or len(x.t) != 1:
                return None
            (mo, co), = x.t.items()
            at = [(atom_of(i), e) for i, e in mo]
            dens = [a for a, e in at if a == rho.as_atom() and e == 1]
            rest = [a for a, e in at if a != rho.as_atom()]
            if co != 1 or len(rest) != 1 or len(dens) + 1 != len(at):
                return None
            a = rest[0]
            src.add((str(a[1]) if isinstance(a, tuple) and a[0] == "el" else str(a), bool(dens)))
            if n > 1:
                ix = num(k) if n == 3 else (num(k // 3), num(k % 3))
                if not (a[0] == "el" and a[2] == ix):
                    return None
        return src.pop() if len(src) == 1 else None
    want = [("mass", 0, 1, True, "volume"), ("centre of mass", 1, 3, False, "center"), ("principal moments", 2, 3, True, "I"), ("principal axes", 3, 9, False, "R")]
    seen = set()
    for what, k, n, dens, hint in want:
        g = of(outs[k], n)
        ok = None if g is None and opaque(outs[k]) else g is not None and g[1] == dens and g[0] not in seen
        seen.add(g[0] if g else None)
        rep.decide("%s: %s%s" % (name, what, " scale with the density" if dens else ""), ok, w, "%s %s" % (what, sh(outs[k], 300)))


# ---- triangulated solid -------------------------------------------------------------
def flux(v, mono):
    """the ways to write the integral of a monomial over a solid as a sum over its triangles (v: corners)"""
    out = []
    N = cross([b - a for a, b in zip(v[0], v[1])], [b - a for a, b in zip(v[0], v[2])])

    def over(e):
        """integral of x^a y^b z^c over the flat triangle, per unit of 2 x area"""
        tot = ZERO
        fs = [k for k in range(3) for _ in range(e[k])]
        n = len(fs)
        for pick in itertools.product(range(3), repeat=n):
            cnt = [pick.count(j) for j in range(3)]
            c = Fraction(fact(cnt[0]) * fact(cnt[1]) * fact(cnt[2]), fact(n + 2))
            t = num(c)
            for j, k in zip(pick, fs):
                t = t * v[j][k]
            tot = tot + t
        return tot
    for k in range(3):
        e = list(mono)
        e[k] += 1
        out.append(num(Fraction(1, e[k])) * N[k] * over(e))
    tot = ZERO
    for k in range(3):
        e = list(mono)
        e[k] += 1
        tot = tot + N[k] * over(e)
    out.append(num(Fraction(1, 3 + sum(mono))) * tot)
    return out


def fact(n):
    return 1 if n < 2 else n * fact(n - 1)


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def is_sum(a):
    return isinstance(a, tuple) and a and a[0] == "sum"


def per_triangle(p, ivs, sums):
    """p as one sum: the summand; None when it is not a plain sum"""
    out = ZERO
    for mo, co in p.t.items():
        at = [(atom_of(i), e) for i, e in mo]
        if len(at) != 1 or at[0][1] != 1:
            return None
        a = at[0][0]
        if is_sum(a):
            ivs.add(a[1])
            x = a[2]
        elif a in sums:
            x = per_triangle(sums[a], ivs, sums)
            if x is None:
                return None
        else:
            return None
        out = out + num(co) * x
    return out


def any_of(p, groups):
    for c in itertools.product(*groups):
        t = ZERO
        for x in c:
            t = t + x
        if zero(p - t):
            return True
    return False


def solid(rep, m, _):
    fns = [f for f in m.by_q.get("MomentTools::computeMoments", []) if f.body]
    if not fns:
        rep.decide("moments of a triangulated solid", None, "", "not found")
        return
    fn = fns[0]
    w = where_of(fn)
    res = {}
    for flip in (False, True):
        def dec(pr, st, c, flip=flip):
            if isinstance(c, tuple) and c and c[0] in ("lt", "le") and isinstance(c[1], P) and contains(c[1], lambda y: isinstance(y, tuple) and y and y[0] == "eig"):
                d = det_sign(c[1])
                if d is not None:
                    return flip if d > 0 else not flip
            return None
        r = Run(m, fn, decide=dec, name_sums=True)
        sums = r.sums
        rep.saw(r.p.I)
        res[flip] = [r.out(k) for k in range(2, 6)]
    mass, mom, cen, R = res[False]
    vn, xn = fn.params[0]["n"], fn.params[1]["n"]
    ivs = set()
    s0 = per_triangle(mass, ivs, sums)
    if s0 is None or len(ivs) != 1:
        rep.decide("moments of a triangulated solid", None, w, "mass %s" % sh(mass, 400))
        return
    iv, = ivs
    ia = P.atom(iv)

    def vert(a, k):
        return P.atom(("el", ("in", vn), (num(k), P.atom(("el", ("in", xn), (num(a), ia))))))
    v = [[vert(a, k) for k in range(3)] for a in range(3)]
    rep.decide("solid: every triangle contributes", iv[2] == ZERO and contains(iv[3], lambda y: isinstance(y, tuple) and y and y[0] in ("cols", "size") and "cols" in str(y)), w, "sum over %s" % sh(iv, 200))
    rep.decide("solid: volume", tri(any_of(s0, [flux(v, (0, 0, 0))]), s0), w, "per triangle %s" % sh(s0, 500))
    cen = parts(cen, 3)
    firsts = []
    for k in range(3):
        e = [0, 0, 0]
        e[k] = 1
        s = weighted(cen[k], mass)
        t = per_triangle(s, ivs, sums) if s is not None else None
        firsts.append(s)
        rep.decide("solid: centre of mass, %s" % "xyz"[k], None if t is None else tri(any_of(t, [flux(v, tuple(e))]), t), w, "per triangle %s" % sh(t, 500))
    # inertia tensor handed to the eigensolver
    A = None
    for x in parts(mom, 3):
        a = x.as_atom() if isinstance(x, P) else None
        if isinstance(a, tuple) and a[0] == "el" and isinstance(a[1], tuple) and a[1][0] == "eig":
            A = a[1][2] if A is None or A == a[1][2] else False
    if A is None or A is False:
        rep.decide("solid: principal moments", None, w, sh(mom, 400))
        return
    Am = parts(A, 9)
    for a in range(3):
        for b in range(3):
            p = Am[3 * a + b]
            lin = P({mo: co for mo, co in p.t.items() if not any(isinstance(atom_of(i), tuple) and atom_of(i)[0] == "inv" or e < 0 for i, e in mo) and len(mo) == 1})
            rest = p - lin
            o = [x for x in range(3) if x != a]
            if a == b:
                shift = -mass * (cen[o[0]] * cen[o[0]] + cen[o[1]] * cen[o[1]])
            else:
                shift = mass * cen[a] * cen[b]
            t = per_triangle(lin, ivs, sums)
            lab = "solid: inertia tensor entry (%d,%d)" % (a, b)
            if t is None:
                rep.decide(lab, None, w, sh(lin, 300))
                continue
            if a == b:
                gs = []
                for x in o:
                    e = [0, 0, 0]
                    e[x] = 2
                    gs.append(flux(v, tuple(e)))
                ok = any_of(t, gs)
            else:
                e = [0, 0, 0]
                e[a] += 1
                e[b] += 1
                ok = any_of(-t, [flux(v, tuple(e))])
            rep.decide(lab + ", about the origin", tri(ok, t), w, "per triangle %s" % sh(t, 500))
            rep.decide(lab + ", moved to the centre of mass", tri(zero(rest - shift), rest), w, "shifted by %s" % sh(rest, 500))
    E = lambda j, k: P.atom(("el", ("eig", "eigenvectors", A), (num(j), num(k))))
    rep.decide("solid: moments in the order of the axes", all(parts(mom, 3)[k] == P.atom(("el", ("eig", "eigenvalues", A), num(k))) for k in range(3)), w, "moments %s" % sh(mom, 300))
    for flip in (False, True):
        Rm = parts(res[flip][3], 9)
        sg = []
        for k in range(3):
            cols = [Rm[3 * j + k] for j in range(3)]
            sg.append(1 if all(cols[j] == E(j, k) for j in range(3)) else -1 if all(cols[j] == -E(j, k) for j in range(3)) else None)
        ok = None not in sg and (sg[0] * sg[1] * sg[2] == (-1 if flip else 1))
        rep.decide("solid: axes belong to their moments and keep the handedness (%s eigenvectors)" % ("left-handed" if flip else "right-handed"), ok if ok or not opaque(Rm) else None, w, "axes %s" % sh(Rm, 500))


def tri(ok, v):
    return True if ok else None if opaque(v) else False


def weighted(c, mass):
    """c * mass when c is a sum divided by the mass"""
    if not isinstance(c, P):
        return None
    if len(mass.t) == 1:
        return c * mass
    inv = [atom_of(i) for mo in c.t for i, e in mo if isinstance(atom_of(i), tuple) and atom_of(i)[0] == "inv"]
    if not inv or any(x != inv[0] for x in inv):
        return None
    x = c.coeff(inv[0])
    if x is None or not (isinstance(x[1], P) and not x[1].t):
        return None
    d = inv[0][1]
    mo = next(iter(d.t))
    if mo not in mass.t:
        return None
    k = d.t[mo] / mass.t[mo]
    if d != num(k) * mass:
        return None
    return x[0] * num(1 / k)


def det_sign(p):
    """+1 when p is (a positive multiple of) the determinant of the eigenvectors"""
    A = []

    def look(y):
        if isinstance(y, tuple) and y and y[0] == "eig" and y not in A:
            A.append(y)
        return False
    contains(p, look)
    if len(A) != 1:
        return None
    E = [[P.atom(("el", A[0], (num(a), num(b)))) for b in range(3)] for a in range(3)]
    d = ZERO
    for k in range(3):
        d = d + E[0][k] * (E[1][(k + 1) % 3] * E[2][(k + 2) % 3] - E[1][(k + 2) % 3] * E[2][(k + 1) % 3])
    return 1 if p == d else -1 if p == -d else None


NBOD = P.atom(("in", "N"))


class Made:
    """one function that gives a state its bodies"""

    def __init__(self, rep, m, cls, fn, sizes):
        self.rep, self.m, self.cls, self.fn = rep, m, cls, fn
        self.pr = Proto(m, lambda f: f["n"] == "computeMassAndInertia")
        self.pr.I.sizes = sizes
        self.pr.run(fn)
        rep.saw(self.pr.I)
        self.w = where_of(fn)
        self.lab = "%s, bodies from %s" % (m.domain, fn.q.split("::")[-1] if fn.name != cls else "the constructor")
        self.ivs = {}
        for k in self.pr.s.store:
            contains(k, self.note)
        for f in m.fields(cls):
            v = self.pr.s.store.get(("fld", ("obj", "this"), f["n"]))
            if v is not None:
                contains(v, self.note)

    def note(self, y):
        if isinstance(y, tuple) and len(y) == 4 and y[0] == "iv":
            self.ivs[y] = 1
        return False

    def iv(self, n):
        for y in self.ivs:
            if y[2] == ZERO and isinstance(y[3], P) and y[3] == n:
                return P.atom(y)
        return None

    def fld(self, meth):
        from .p13 import field_of
        n = field_of(self.m, self.cls, meth)
        return ("fld", ("obj", "this"), n) if n else None

    def at(self, what, meth, cells):
        loc = self.fld(meth)
        if loc is None:
            self.rep.decide("%s: %s" % (self.lab, what), None, self.w, "no accessor %s" % meth)
            return
        got = [self.pr.I.load(self.pr.s, ("idx", loc, ix), "double") for ix, v in cells]
        ok = [isinstance(g, P) and zero(g - v) for g, (ix, v) in zip(got, cells)]
        self.rep.decide("%s: %s" % (self.lab, what), True if all(ok) else None if opaque(got) else False, self.w, "holds %s" % sh(got, 400))

    def size(self, what, meth, n):
        loc = self.fld(meth)
        if loc is None:
            return
        v = self.pr.s.store.get(loc)
        a = v.as_atom() if isinstance(v, M) else None
        k = a[2] if isinstance(a, tuple) and a[0] == "cresize" else a[1] if isinstance(a, tuple) and a[0] in ("fresh", "zeros") else None
        self.rep.decide("%s: number of %s" % (self.lab, what), None if not isinstance(k, P) else k == n, self.w, "size %s" % sh(v, 300))

    def whole(self, what, meth, name):
        loc = self.fld(meth)
        v = self.pr.s.store.get(loc) if loc else None
        t = sh(v, 200).strip("()") if v is not None else None
        self.rep.decide("%s: %s" % (self.lab, what), None if v is None else t == name, self.w, "holds %s" % t)

    def mass(self, what, meth, cells):
        from .p07 import entries, strip_phi
        loc = self.fld(meth)
        x = strip_phi(self.pr.I.load(self.pr.s, loc, "Eigen::SparseMatrix<double>"), []) if loc else None
        _, e = entries(x) if x is not None else (None, None)
        if not e:
            self.rep.decide("%s: %s" % (self.lab, what), None, self.w, sh(x, 300))
            return
        ok = all((ix, ix) in e and isinstance(e[(ix, ix)], P) and zero(e[(ix, ix)] - v) for ix, v in cells)
        self.rep.decide("%s: %s" % (self.lab, what), True if ok else None if opaque(tuple(e.items())) else False, self.w, "entries %s" % "; ".join("%s: %s" % (sh(k, 80), sh(v, 80)) for k, v in list(e.items())[:4]))


def bodies(rep, m, _):
    in_ = lambda n: P.atom(("in", n))
    N = NBOD
    if m.domain == "ball2d":
        for fn in [f for f in m.by_q.get("Ball2DState::pushBallBack", []) if f.body and len(f.params) == 5]:
            q, v, r, ma, fx = [p["n"] for p in fn.params]
            F = {x: fieldname(m, fn.cls, x) for x in ("q", "v", "r", "fixed")}
            k = Made(rep, m, fn.cls, fn, {"this." + F["q"]: num(2) * N, "this." + F["v"]: num(2) * N, "this." + F["r"]: N, "this.m_fixed": N})
            for nm, src in (("q", q), ("v", v)):
                k.at({"q": "position", "v": "velocity"}[nm], nm, [(num(2) * N + num(j), P.atom(("el", ("in", src), num(j)))) for j in range(2)])
            k.at("radius", "r", [(N, in_(r))])
            k.size("positions", "q", num(2) * N + num(2))
            k.size("velocities", "v", num(2) * N + num(2))
            k.size("radii", "r", N + ONE)
            k.mass("mass", "M", [(num(2) * N, in_(ma)), (num(2) * N + ONE, in_(ma))])
            flag(k, fx, N)
    if m.domain == "rigidbody2d":
        for fn in [f for f in m.by_q.get("RigidBody2DState::addBody", []) if f.body and len(f.params) == 7]:
            x, th, v, om, rho, gi, fx = [p["n"] for p in fn.params]
            k = Made(rep, m, fn.cls, fn, {"this.m_q": num(3) * N, "this.m_v": num(3) * N, "this.m_fixed": N, "this.m_geometry_indices": N})
            el = lambda n: [P.atom(("el", ("in", n), num(j))) for j in range(2)]
            k.at("position and angle", "q", [(num(3) * N + num(j), e) for j, e in enumerate(el(x) + [in_(th)])])
            k.at("velocity and spin", "v", [(num(3) * N + num(j), e) for j, e in enumerate(el(v) + [in_(om)])])
            k.size("positions", "q", num(3) * N + num(3))
            k.size("velocities", "v", num(3) * N + num(3))
            gl = ("fld", ("obj", "this"), "m_geometry_indices")
            g = k.pr.I.load(k.pr.s, ("idx", gl, N), "unsigned")
            rep.decide(k.lab + ": shape", isinstance(g, P) and g == in_(gi), k.w, "shape %s" % sh(g))
            calls = [a for a, cx in flat(k.pr.s.ev) if a.nm == "computeMassAndInertia"]
            good = len(calls) == 1 and calls[0].args[0] == in_(rho) and contains((calls[0].who, calls[0].recv), lambda y: y == in_(gi) or y == ("in", gi))
            rep.decide(k.lab + ": mass of its own shape and density", good, k.w, "asks %s of %s" % (calls, sh(calls[0].who if calls else None)))
            if calls:
                t = calls[0].tag
                k.mass("mass and inertia", "M", [(num(3) * N, in_(t + ".1")), (num(3) * N + ONE, in_(t + ".1")), (num(3) * N + num(2), in_(t + ".2"))])
            flag(k, fx, N)
        for fn in [f for f in m.by_q.get("RigidBody2DState::RigidBody2DState", []) if f.body and len(f.params) == 9]:
            ps = [p["n"] for p in fn.params]
            k = Made(rep, m, fn.cls, fn, {ps[0]: num(3) * N, ps[1]: num(3) * N, ps[2]: num(3) * N, ps[3]: N, ps[4]: N})
            k.whole("positions and angles", "q", ps[0])
            k.whole("velocities and spins", "v", ps[1])
            i = k.iv(num(3) * N)
            if i is None:
                rep.decide(k.lab + ": masses", None, k.w, "no loop over all coordinates")
            else:
                k.mass("masses", "M", [(i, P.atom(("el", ("in", ps[2]), i)))])
    if m.domain == "rigidbody3d":
        for fn in [f for f in m.by_q.get("RigidBody3DState::setState", []) if f.body and len(f.params) == 9]:
            X, V_, Ma, R, om, I0, fx, gi, ge = [p["n"] for p in fn.params]
            k = Made(rep, m, fn.cls, fn, {n: N for n in (X, V_, Ma, R, om, I0, fx, gi)})
            i = k.iv(N)
            if i is None:
                rep.decide(k.lab, None, k.w, "no loop over all bodies")
                return
            el = lambda n, c: [P.atom(("el", ("el", ("in", n), i), num(j))) for j in range(c)]
            k.at("positions", "q", [(num(3) * i + num(j), e) for j, e in enumerate(el(X, 3))])
            k.at("orientations", "q", [(num(3) * N + num(9) * i + num(j), e) for j, e in enumerate(el(R, 9))])
            k.at("velocities", "v", [(num(3) * i + num(j), e) for j, e in enumerate(el(V_, 3))])
            k.at("spins", "v", [(num(3) * N + num(3) * i + num(j), e) for j, e in enumerate(el(om, 3))])
            k.size("positions and orientations", "q", num(12) * N)
            k.size("velocities and spins", "v", num(6) * N)
            mi = P.atom(("el", ("in", Ma), i))
            k.mass("masses", "M", [(num(3) * i + num(j), mi) for j in range(3)])
            k.mass("principal moments", "M0", [(num(3) * i + num(j), mi) for j in range(3)] + [(num(3) * N + num(3) * i + num(j), e) for j, e in enumerate(el(I0, 3))])


def fieldname(m, cls, meth):
    from .p13 import field_of
    return field_of(m, cls, meth) or "m_" + meth


def flag(k, fx, N):
    v = k.pr.s.store.get(("fld", ("obj", "this"), "m_fixed"))
    ok = isinstance(v, tuple) and v[0] == "seq" and contains(v[2], lambda y: y == fx or y == ("in", fx))
    k.rep.decide(k.lab + ": scripted flag", None if v is None else ok, k.w, "flag %s" % sh(v, 200))


def analyse(rep, it):
    m = next(x for x in models() if x.domain == it[0])
    {"shape": shape, "solid": solid, "bodies": bodies}[it[1]](rep, m, it[2])


def run(tier):
    rep = Report("P15", RULE, [])
    par.each(rep, items(), analyse, budget=300, name=lambda it: "%s/%s/%s" % it)
    return rep
