"""P09: each integrator advances a free body by the update it is named after and leaves fixed bodies where they are."""
from ..alg import *
from ..ai import State, is_under
from ..aix import rodrigues, is_iv_atom
from ..model import models, model
from ..report import Report
from ..proto import Proto, flat, VEC
from .. import par
from .p08 import regions, resolve, assignments, Skip

RULE = ("one step of every integrator is interpreted abstractly for a generic body against opaque forces; positions, velocities and orientations after the step equal the update formula of the "
        "integrator, forces are evaluated at the states that formula prescribes, and a fixed body gets back the configuration it had")

B = P.atom(("body",))
N = P.atom(("size", ("in", "bodies")))
DT = P.atom(("in", "dt"))
HALF = num(1) / num(2)
MATS = [("in", x) for x in ("M()", "Minv()", "M0()", "Minv0()")]
MV = ((("in", "M()"), False), (("in", "v0"), False))
FORCE = "FlowableSystem::computeForce"


def solve(pat, k, iv):
    """value of the loop variable iv for which the index pattern hits k; None when there is none, raises Skip when unclear"""
    a, r = pat.coeff(iv)
    if not a.is_const():
        raise Skip("index pattern %s" % show(pat))
    d = k - r
    c = a.cval()
    lo, hi = r + a * iv[2], r + a * (iv[3] - ONE)
    if c > 0 and (nonneg(lo - bound(k, N - ONE) - ONE) or nonneg(bound(k, ZERO) - hi - ONE)):
        return None                         # ranges do not overlap
    if any(x % c for x in d.t.values()):
        if all((x % c) == 0 for m, x in d.t.items() if m):
            return None                     # never a multiple: another component
        raise Skip("index pattern %s against %s" % (show(pat), show(k)))
    return P({m: x / c for m, x in d.t.items()})


def bound(p, at):
    co = p.coeff(("body",))
    return co[1] + co[0] * at if co else p


def in_range(s, iv):
    """True: hit for every body, False: hit for no body, None: for some"""
    lo, hi = iv[2], iv[3]
    first, last = bound(s, ZERO), bound(s, N - ONE)
    a, b = first - lo, hi - last
    if a.is_const() and a.cval() >= 0 and b.is_const() and b.cval() >= 1:
        return True
    o1, o2 = first - hi, lo - last
    if nonneg(o1) or (o2.is_const() and o2.cval() >= 1):
        return False
    return None


def nonneg(p):
    return all(c >= 0 and all(atom_of(i)[0] in ("size", "body") for i, e in m) for m, c in p.t.items())


def ivs_of(p):
    acc = []

    def f(y):
        if is_iv_atom(y) and y not in acc:
            acc.append(y)
        return None
    subst(p, f)
    return acc


def cases(pat, val, k):
    """(value, covered) of one recorded write at index k; None when it does not touch k"""
    iv = ivs_of(pat)
    if not iv:
        d = pat - k
        if d == ZERO:
            return val, True
        if d.is_const() or all((x % 3) == 0 for m, x in d.t.items() if m) and d.t.get((), 0) % 3:
            return None
        return val, None
    if len(iv) > 1:
        raise Skip("nested index pattern %s" % show(pat))
    s = solve(pat, k, iv[0])
    if s is None:
        return None
    cov = in_range(s, iv[0])
    if cov is False:
        return None
    depth = iv[0][1]

    def f(y):
        if is_iv_atom(y) and y[1] == depth:
            return s
        return None
    return subst(val, f), cov


class Reader:
    """element-wise reading of the vectors after the step"""

    def __init__(self, I, st, threeD, scheme):
        self.I, self.st, self.d3 = I, st, threeD
        self.memo = {}

    def element(self, name, k):
        st = self.st
        loc = ("obj", name)
        base = st.store.get(loc)
        base = base if base is not None else M.atom(("in", name))
        # the store keeps the element writes in the order in which they were last made
        return self.overlay([(key[2], v) for key, v in st.store.items()
                             if isinstance(key, tuple) and len(key) == 3 and key[0] == "idx" and key[1] == loc], base, k)

    def overlay(self, writes, base, k):
        hits = []
        for pat, v in writes:
            if not isinstance(pat, P):
                raise Skip("index %s" % str(pat)[:60])
            h = cases(pat, v, k)
            if h is not None:
                hits.append((h, pat))
        last = None
        for n, ((v, cov), pat) in enumerate(hits):
            if cov is True:
                last = n
        if last is None:
            r = self.vec(base, k)
            rest = hits
        else:
            r = self.expand(hits[last][0][0])
            rest = hits[last + 1:]
        for (v, cov), pat in rest:
            r = P.atom(("phi", ("bool", ("covered", show(pat), show(k))), self.expand(v), r))
        return r

    def vec(self, v, k):
        """element k of a vector value"""
        if isinstance(v, V):
            raise Skip("fixed-size value")
        if not isinstance(v, M):
            raise Skip("vector value %s" % str(v)[:60])
        r = ZERO
        for w, c in v.t.items():
            r = r + self.expand(c) * self.word(w, k)
        return r

    def word(self, w, k, full=False):
        if len(w) == 1:
            a, t = w[0]
            return self.atom_el(a, k)
        if self.d3 and not full and w == MV:
            return P.atom(("Mv", k))        # unfolded only when needed
        a, t = w[0]
        rest = w[1:]
        r = ZERO
        for j, e in self.row(a, t, k):
            r = r + e * self.word(rest, j)
        return r

    def atom_el(self, a, k):
        if isinstance(a, tuple) and a and a[0] == "updm":
            return self.overlay(a[2], a[1] if isinstance(a[1], M) else M.atom(a[1]), k)
        if isinstance(a, tuple) and a and a[0] == "in":
            return P.atom(("el", a, k))
        if isinstance(a, tuple) and a and a[0] == "zeros":
            return ZERO
        if isinstance(a, tuple) and a and a[0] == "phi":
            return P.atom(("phi", a[1], self.vec(a[2], k), self.vec(a[3], k)))
        raise Skip("vector %s" % str(a)[:60])

    def place(self, k):
        """(linear?, component) of velocity coordinate k of the generic body"""
        for c in range(3):
            if k == num(3) * B + num(c):
                return True, c
            if k == num(3) * N + num(3) * B + num(c):
                return False, c
        raise Skip("coordinate %s" % show(k))

    def inertia(self, c):
        return P.atom(("inertia", num(c)))

    def entry(self, which, k, j):
        if not self.d3:
            if k != j:
                return ZERO
            m = P.atom(("mass", k))
            return m if which.startswith("M(") or which.startswith("M0(") else m.inv()
        (lk, ck), (lj, cj) = self.place(k), self.place(j)
        m = P.atom(("mass",))
        if lk != lj:
            return ZERO
        inv = which.startswith("Minv")
        if lk:
            return (m.inv() if inv else m) if ck == cj else ZERO
        if "0" in which:
            i = self.inertia(ck)
            return (i.inv() if inv else i) if ck == cj else ZERO
        r = ZERO
        for l in range(3):
            i = self.inertia(l)
            r = r + rot("q0", ck, l) * (i.inv() if inv else i) * rot("q0", cj, l)
        return r

    def row(self, a, t, k):
        if not (isinstance(a, tuple) and a[0] == "in" and a[1] in ("M()", "Minv()", "M0()", "Minv0()")):
            raise Skip("matrix %s" % str(a)[:60])
        if not self.d3:
            return [(k, self.entry(a[1], k, k))]
        lin, c = self.place(k)
        base = num(3) * B if lin else num(3) * N + num(3) * B
        return [(base + num(j), self.entry(a[1], k, base + num(j))) for j in range(3)]

    def expand(self, p):
        """resolve element atoms to the named per-body quantities"""
        if p in self.memo:
            return self.memo[p]

        def f(y):
            if isinstance(y, tuple) and len(y) == 3 and y[0] == "el":
                x, k = y[1], y[2]
                if isinstance(x, tuple) and x and x[0] == "word":
                    return self.word(x[1], k) if x[1][0][0] in MATS else None
                if isinstance(x, tuple) and x and x[0] == "vals" and x[1] == "valuePtr":
                    w = x[2].as_atom() if isinstance(x[2], M) else x[2]
                    if isinstance(w, tuple) and w[0] == "in" and w[1] in ("M0()", "Minv0()"):
                        return self.entry(w[1], k, k)
                    if not self.d3 and isinstance(w, tuple) and w[0] == "in":
                        return self.entry(w[1], k, k)
                    return None
                if isinstance(x, tuple) and x and x[0] == "in" and x[1] in ("M()", "Minv()", "M0()", "Minv0()") and isinstance(k, tuple) and len(k) == 2:
                    return self.entry(x[1], k[0], k[1])
                if isinstance(x, tuple) and x and x[0] == "updm":
                    return self.atom_el(x, k)
                if isinstance(x, M):
                    return self.vec(x, k)
            return None
        r = subst(p, f)
        self.memo[p] = r
        return r


def rot(q, i, j):
    return P.atom(("el", ("in", q), num(3) * N + num(9) * B + num(3 * i + j)))


def scripted(pr, st, n, f, obj, args):
    return ("bool", ("el", ("in", "fixed"), pr.I.as_p(pr.I.eval(st, args[0]))))


def names(m, cls):
    """the string an integrator calls itself"""
    f = m.method(cls, "name")
    I = Proto(m, lambda f: False)
    I.run(f)
    return I.v if isinstance(I.v, str) else None


class Step:
    def __init__(self, rep, m, cls, f, label):
        self.rep, self.m, self.cls, self.f, self.label = rep, m, cls, f, label
        self.d3 = m.domain == "rigidbody3d"
        self.per = {"ball2d": 2, "rigidbody2d": 3, "rigidbody3d": 3}[m.domain]
        nq = 12 if self.d3 else self.per
        nv = 6 if self.d3 else self.per
        pr = self.pr = Proto(m, lambda g: g.get("cls") == "FlowableSystem", extra={"FlowableSystem::isKinematicallyScripted": scripted, "FlowableSystem::numBodies": lambda *a: N,
                                                                                 "FlowableSystem::nqdofs": lambda *a: num(nq) * N, "FlowableSystem::nvdofs": lambda *a: num(nv) * N})
        pr.I.sizes = {"q0": num(nq) * N, "q1": num(nq) * N, "v0": num(nv) * N, "v1": num(nv) * N, "fixed": N}
        self.starts, self.loops = {}, {}
        pr.I.hooks["loop_enter"] = self.enter
        pr.I.hooks["loop_exit"] = self.exit
        ps = [p["n"] for p in f.params]
        want = ["q0", "v0", "fsys", "iteration", "dt", "q1", "v1"] if len(ps) == 7 else ["q0", "v0", "fixed", "dt", "q1"] if len(ps) == 5 else ["q0", "v0", "dt", "q1"]
        st = State()
        args = [("loc", ("obj", w)) for w in want]
        self.st = pr.run(f, args=args, st=st)
        self.calls = [a for a, ctx in flat(self.st.ev) if a.name == FORCE]
        self.ctx = [ctx for a, ctx in flat(self.st.ev) if a.name == FORCE]
        for i, a in enumerate(self.calls):
            pr.I.sizes[a.tag + ".3"] = num(nv) * N
        self.R = Reader(pr.I, self.st, self.d3, None)
        rep.saw(pr.I)

    def enter(self, I, a, iv):
        self.starts[a.depth] = {k: v.as_atom() for k, v in a.store.items() if isinstance(v, P) and v.as_atom() is not None}

    def exit(self, I, st, end, iv):
        """variables a loop leaves with an unknown value: what one iteration makes of them"""
        if end is None:
            return
        start = self.starts.get(end.depth, {})
        for k, v in end.store.items():
            a = st.store.get(k)
            a = a.as_atom() if isinstance(a, P) else None
            if isinstance(v, P) and isinstance(a, tuple) and a and a[0] == "unk" and k in start:
                self.loops[a] = (start[k], v)

    def where(self):
        return self.f.where()

    def key(self, what):
        return "%s/%s: %s" % (self.m.domain, self.label, what)

    def F(self, i, k):
        return P.atom(("el", ("in", self.calls[i].tag + ".3"), k))

    def split(self, got):
        """{fixed?: value}"""
        keys = regions([got])
        out = {}
        for asg in assignments(keys):
            fixed = None
            for k, v in asg.items():
                if "fixed" in str(k):
                    fixed = v
            if any(negative(k, v) for k, v in asg.items()):
                continue
            out.setdefault(fixed, []).append((resolve(got, asg), asg))
        return out

    def same(self, what, got, want, want_fixed=None, rename=None):
        """compare in every region; want_fixed: value for a fixed body (None: no claim)"""
        try:
            got = got() if callable(got) else got
            sp = self.split(got)
        except Skip as e:
            self.rep.und(self.key(what), self.where(), str(e))
            return
        res, det = "ok", ""
        for fixed, vs in sp.items():
            for v, asg in vs:
                for fx, w in ((False, want), (True, want_fixed)):
                    if fixed is not None and fx != fixed or w is None:
                        continue
                    if callable(w):
                        w = w(asg)
                    z = vanishing(asg)
                    w, v_ = at_zero(resolve_like(w, asg), z), at_zero(v, z)
                    d = v_ - w
                    if d.t and contains(d, lambda y: isinstance(y, tuple) and len(y) == 2 and y[0] == "Mv"):
                        d = subst(d, lambda y: self.R.word(MV, y[1], True) if isinstance(y, tuple) and len(y) == 2 and y[0] == "Mv" else None)
                    if d.t:
                        if contains(v, lambda y: isinstance(y, tuple) and y and y[0] == "unk"):
                            res = "und" if res == "ok" else res
                            det = det or "value unknown: %s" % show(v)[:150]
                        else:
                            res = "bad"
                            det = "%s body: got %s, expected %s" % ("fixed" if fx else "free", show(v)[:220], show(w)[:220])
        {"ok": self.rep.ok, "bad": self.rep.bad, "und": self.rep.und}[res](self.key(what), self.where(), det)


def squares(e):
    """the atoms whose squares a sum consists of, through a square root"""
    a = e.as_atom()
    if isinstance(a, tuple) and a[0] == "sqrt":
        e = a[1]
    out = []
    for m, c in e.t.items():
        if c <= 0 or len(m) != 1 or m[0][1] != 2:
            return None
        out.append(atom_of(m[0][0]))
    return out


def negative(k, v):
    """an impossible case: a root or sum of squares below zero"""
    return k[0] != "other" and len(k) > 1 and isinstance(k[1], P) and v < 0 and squares(k[1]) is not None


def vanishing(asg):
    """inputs that are zero in this case"""
    out = set()
    for k, v in asg.items():
        if k[0] == "other" and v is True and isinstance(k[1], tuple) and k[1] and k[1][0] == "eq0" and isinstance(k[1][1], P):
            out |= set(squares(k[1][1]) or ())
    return out


def at_zero(p, z):
    if not z:
        return p

    def f(y):
        if y in z:
            return ZERO
        if isinstance(y, tuple) and len(y) == 2 and y[0] in ("sqrt", "abs") and y[1] == ZERO:
            return ZERO
        if isinstance(y, tuple) and len(y) == 3 and y[0] == "fn" and y[2] == ZERO:
            return {"cos": ONE, "sin": ZERO}.get(y[1])
        return None
    return subst(p, f)


def resolve_like(w, asg):
    try:
        return resolve(w, asg)
    except KeyError:
        return w


def unph(p):
    return p


def q_same(S, call, i):
    """the vector given to a force evaluation, element-wise"""
    return call.args[i]


def force_at(S, i, what, want_elem, coords, arg):
    """force evaluation i got a vector whose elements are want_elem"""
    call = S.calls[i]
    v = call.args[arg]
    for c, k in coords:
        S.same("%s, coordinate %s" % (what, c), lambda k=k: S.R.vec(v, k), lambda k=k: want_elem(k), (lambda k=k: want_elem(k))() if False else None)


def vcoords(S):
    if S.d3:
        return [("x%d" % c, num(3) * B + num(c)) for c in range(3)] + [("w%d" % c, num(3) * N + num(3) * B + num(c)) for c in range(3)]
    return [("%d" % c, num(S.per) * B + num(c)) for c in range(S.per)]


def lincoords(S):
    return vcoords(S)[:3] if S.d3 else vcoords(S)


def rotcoords(S):
    return [("R%d%d" % (i, j), num(3) * N + num(9) * B + num(3 * i + j)) for i in range(3) for j in range(3)]


def el(n, k):
    return P.atom(("el", ("in", n), k))


def minv_f(S, i, k):
    """(Minv F_i)_k"""
    return S.R.word(((("in", "Minv()"), False), (("in", S.calls[i].tag + ".3"), False)), k)


def masked(S):
    return S.m.domain != "ball2d"


def calls_ok(S, n):
    ok = len(S.calls) == n and not any(S.ctx)
    S.rep.decide(S.key("evaluates the forces %d time(s)" % n), ok, S.where(), "force evaluations: %d, inside %s" % (len(S.calls), [str(c)[:40] for c in S.ctx]))
    return ok


def start_force(S):
    ok = S.calls[0].args[0] == M.atom(("in", "q0")) and S.calls[0].args[1] == M.atom(("in", "v0"))
    S.rep.decide(S.key("first forces at the start state"), ok, S.calls[0].where, "evaluated at %s, %s" % (show(S.calls[0].args[0])[:100], show(S.calls[0].args[1])[:100]))


def symplectic(S):
    if not calls_ok(S, 1):
        return
    start_force(S)
    for c, k in vcoords(S):
        a = minv_f(S, 0, k)
        fx = el("v0", k) if masked(S) else None
        v1 = el("v0", k) + DT * a
        S.same("velocity %s" % c, lambda: S.R.element("v1", k), v1, fx)
        S.same("position %s" % c, lambda: S.R.element("q1", k), el("q0", k) + DT * v1, el("q0", k) + DT * el("v0", k) if masked(S) else None)


def verlet(S):
    if not calls_ok(S, 2):
        return
    start_force(S)
    for c, k in vcoords(S):
        a0, a1 = minv_f(S, 0, k), minv_f(S, 1, k)
        m = masked(S)
        q1 = el("q0", k) + DT * el("v0", k) + HALF * DT * DT * a0
        qf = el("q0", k) + DT * el("v0", k) if m else None
        S.same("velocity %s" % c, lambda: S.R.element("v1", k), el("v0", k) + HALF * DT * (a0 + a1), el("v0", k) if m else None)
        S.same("position %s" % c, lambda: S.R.element("q1", k), q1, qf)
        S.same("second forces at the end position %s" % c, lambda: S.R.vec(S.calls[1].args[0], k), q1, qf)


def exponential(S):
    if not calls_ok(S, 1):
        return
    start_force(S)
    for c, k in vcoords(S):
        S.same("velocity %s" % c, lambda: S.R.element("v1", k), el("v0", k) + DT * minv_f(S, 0, k))
    for c, k in lincoords(S):
        S.same("position %s" % c, lambda: S.R.element("q1", k), el("q0", k) + DT * el("v0", k))
    w = [el("v0", num(3) * N + num(3) * B + num(c)) for c in range(3)]
    raw = []
    for i in range(3):
        for j in range(3):
            a, b = (i + 1) % 3, (i + 2) % 3
            raw.append(rot("q0", i, j) + DT * (w[a] * rot("q0", b, j) - w[b] * rot("q0", a, j)))
    for c, k in rotcoords(S):
        i, j = int(c[1]), int(c[2])
        try:
            got = S.R.element("q1", k)
        except Skip as e:
            S.rep.und(S.key("orientation " + c), S.where(), str(e))
            continue
        dec = find(got, lambda y: isinstance(y, tuple) and y and y[0] == "decomp")
        if len(dec) != 1:
            S.rep.decide(S.key("orientation " + c), None if contains(got, lambda y: isinstance(y, tuple) and y and y[0] == "unk") else False, S.where(),
                         "not the projection of one matrix onto the rotations: %s" % show(got)[:200])
            continue
        d = M.atom(dec[0])
        U, W = ("eig", "matrixU", d), ("eig", "matrixV", d)
        arg = dec[0][3]
        e = arg.e if isinstance(arg, V) else None
        ok = e is not None and all(S.R.expand(x) == y for x, y in zip(e, raw)) and got == P.atom(("el", ("word", ((U, False), (W, True))), (num(i), num(j))))
        if not ok and e is not None:
            ok = all(S.R.expand(x) == y for x, y in zip(e, raw)) and [a[1:] for a in []] == [] and shape_uvt(got, i, j)
        S.rep.decide(S.key("orientation " + c), ok, S.where(), "got %s" % show(got)[:300])


def shape_uvt(got, i, j):
    a = got.as_atom()
    if not (isinstance(a, tuple) and a[0] == "el" and isinstance(a[1], tuple) and a[1][0] == "word"):
        return False
    w = a[1][1]
    ix = a[2]
    ok = len(w) == 2 and [str(x[0][1]) if isinstance(x[0], tuple) else "" for x in w] == ["matrixU", "matrixV"] and [x[1] for x in w] == [False, True]
    return ok and tuple(ix) == (num(i), num(j))


def find(x, pred):
    acc = []

    def f(y):
        if pred(y) and y not in acc:
            acc.append(y)
        return None
    subst(x, f)
    return acc


def momentum(S, k):
    """(M v0)_k"""
    return S.R.word(MV, k)


def hamiltonian(S, orient):
    """half kick, drift, half kick; angular part in momentum"""
    if not calls_ok(S, 2):
        return
    start_force(S)
    for c, k in lincoords(S):
        a0, a1 = minv_f(S, 0, k), minv_f(S, 1, k)
        q1 = el("q0", k) + DT * el("v0", k) + HALF * DT * DT * a0
        S.same("velocity %s" % c, lambda: S.R.element("v1", k), el("v0", k) + HALF * DT * (a0 + a1))
        S.same("position %s" % c, lambda: S.R.element("q1", k), q1, el("q0", k))
        S.same("second forces at the end position %s" % c, lambda: S.R.vec(S.calls[1].args[0], k), q1, el("q0", k))
    half = [momentum(S, num(3) * N + num(3) * B + num(c)) + HALF * DT * S.F(0, num(3) * N + num(3) * B + num(c)) for c in range(3)]
    Rv = []
    for c, k in rotcoords(S):
        try:
            Rv.append(S.R.element("q1", k))
        except Skip as e:
            S.rep.und(S.key("orientation " + c), S.where(), str(e))
            return
    orient(S, half, Rv)
    free = [free_of(S, x) for x in Rv]
    for n, (c, k) in enumerate(rotcoords(S)):
        S.same("second forces at the end orientation %s" % c, lambda: S.R.vec(S.calls[1].args[0], k), free[n], el("q0", k))
    sym = {}
    for i, x in enumerate(Rv):
        a = x.as_atom()
        if a is not None and a[0] != "el":
            sym[a] = P.atom(("R1", num(i)))
    R1 = [sym.get(x.as_atom(), free[i]) for i, x in enumerate(Rv)]

    def named(p):
        return subst(p, lambda y: sym.get(y) if isinstance(y, tuple) and y and y[0] in ("phi", "eig") else None)
    for c in range(3):
        k = num(3) * N + num(3) * B + num(c)
        p = [half[l] + HALF * DT * S.F(1, num(3) * N + num(3) * B + num(l)) for l in range(3)]
        body = [sum_((R1[3 * l + m] * p[l] for l in range(3))) * S.R.inertia(m).inv() for m in range(3)]
        want = sum_((R1[3 * c + m] * body[m] for m in range(3)))
        S.same("angular velocity %d" % c, lambda: named(S.R.element("v1", k)), want)


def sum_(xs):
    r = ZERO
    for x in xs:
        r = r + x
    return r


def free_of(S, x):
    for fixed, vs in S.split(x).items():
        if fixed is not True:
            return vs[0][0]
    return x


def splitting(S, half, Rv):
    R = [rot("q0", i, j) for i in range(3) for j in range(3)]
    p = [sum_(R[3 * l + i] * half[l] for l in range(3)) for i in range(3)]
    Rm, pv = V(3, 3, R), V(3, 1, p)
    for ax, w in ((2, HALF), (1, HALF), (0, ONE), (1, HALF), (2, HALF)):
        th = w * DT * pv.e[ax] * S.R.inertia(ax).inv()
        axis = [-ONE if i == ax else ZERO for i in range(3)]
        r = rodrigues(axis, th)
        Rm = Rm.mm(V(3, 3, [r.e[3 * j + i] for i in range(3) for j in range(3)]))
        pv = r.mm(pv)
    for n, (c, k) in enumerate(rotcoords(S)):
        S.same("orientation %s" % c, Rv[n], Rm.e[n], el("q0", k))


def dmv(S, half, Rv):
    """discrete Moser-Veselov: the orientation is advanced by the quaternion (1, c) where c solves
    c_i = (1 + |c|^2) dt p_i / (2 I_i) + (I_j - I_k) / I_i c_j c_k for the body-frame momentum p"""
    free = [free_of(S, x) for x in Rv]
    for n, (c, k) in enumerate(rotcoords(S)):
        S.same("orientation %s of a fixed body" % c, Rv[n], free[n], el("q0", k))
    what = S.key("orientation is advanced by the quaternion the solver found")
    got = set()
    for n, x in enumerate(free):
        a = x.as_atom()
        if not (isinstance(a, tuple) and a[0] == "el" and isinstance(a[1], tuple) and a[1][:2] == ("eig", "toRotationMatrix") and a[2] == (num(n // 3), num(n % 3))):
            S.rep.decide(what, None if contains(x, lambda y: isinstance(y, tuple) and y and y[0] == "unk") else False, S.where(), "entry %d is %s" % (n, show(x)[:200]))
            return
        got.add(a[1][2])
    a = got.pop().as_atom() if len(got) == 1 else None
    if not (isinstance(a, tuple) and a[0] == "eigmut" and a[1] == "normalize" and isinstance(a[2], tuple) and a[2][0] == "objv"):
        S.rep.decide(what, False if len(got) == 0 and a is not None and a[0] != "unk" else None, S.where(), "not a normalised quaternion: %s" % str(a)[:200])
        return
    o = a[2]
    fl = {k[0][1]: v for k, v in o[2]}
    src = o[1]
    ok = isinstance(src, V) and [S.R.expand(e) for e in src.e] == [rot("q0", i, j) for i in range(3) for j in range(3)]
    comp = {}
    for n in "wxyz":
        if not isinstance(fl.get(n), P):
            S.rep.und(what, S.where(), "component %s not tracked" % n)
            return
        for y in find(fl[n], lambda y: isinstance(y, tuple) and len(y) == 3 and y[0] == "fldof"):
            comp[y[2]] = P.atom(y)
    if not ok or set(comp) != set("wxyz"):
        S.rep.bad(what, S.where(), "starts from %s" % str(src)[:150])
        return
    w, x, y, z = (comp[n] for n in "wxyz")
    c = []
    for n in "xyz":
        co = fl["w"].coeff(comp[n].as_atom())
        c.append(-co[0] if co else ZERO)
    want = {"w": w - c[0] * x - c[1] * y - c[2] * z, "x": x + c[0] * w + c[2] * y - c[1] * z, "y": y + c[1] * w + c[0] * z - c[2] * x, "z": z + c[2] * w + c[1] * x - c[0] * y}
    wrong = [n for n in "wxyz" if fl[n] != want[n]]
    S.rep.decide(what, not wrong, S.where(), "component(s) %s" % ", ".join("%s: %s" % (n, show(fl[n])[:200]) for n in wrong))
    what = S.key("quaternion solves the discrete equation for this body's momentum and inertia")
    its = [S.loops.get(x.as_atom()) for x in c]
    if any(i is None for i in its):
        S.rep.und(what, S.where(), "iteration not recognised")
        return
    sym = [P.atom(i[0]) for i in its]
    depth = {y[1] for i in its for y in ivs_of(i[1])}

    def gen(p):
        """the generic body in place of the loop variable"""
        p = subst(p, lambda y: B if is_iv_atom(y) and y[1] == 0 else None)
        return free_of(S, S.R.expand(p))
    new = [gen(i[1]) for i in its]
    p = [sum_(rot("q0", l, i) * half[l] for l in range(3)) for i in range(3)]
    I = [S.R.inertia(i) for i in range(3)]
    al = ONE + sym[0] * sym[0] + sym[1] * sym[1] + sym[2] * sym[2]
    am = [p[i] * DT * HALF * I[i].inv() for i in range(3)]
    fac = [(I[1] - I[2]) * I[0].inv(), (I[2] - I[0]) * I[1].inv(), (I[0] - I[1]) * I[2].inv()]
    u1 = al * am[0] + fac[0] * sym[1] * sym[2]
    # an update may use old or already updated neighbours: the fixed point is the same
    found = False
    for a1 in (sym[0], u1):
        u2 = al * am[1] + fac[1] * a1 * sym[2]
        for a2, b2 in ((sym[0], sym[1]), (a1, sym[1]), (a1, u2)):
            u3 = al * am[2] + fac[2] * a2 * b2
            found = found or [x - y for x, y in zip(new, (u1, u2, u3))] == [ZERO] * 3
    S.rep.decide(what, found, S.where(), "one iteration: %s" % "; ".join(show(x)[:120] for x in new))


def drift2(S):
    for c, k in vcoords(S):
        S.same("position %s" % c, lambda: S.R.element("q1", k), el("q0", k) + DT * el("v0", k))


def drift3(S):
    for c, k in lincoords(S):
        S.same("position %s" % c, lambda: S.R.element("q1", k), el("q0", k) + DT * el("v0", k), el("q0", k))
    w = [el("v0", num(3) * N + num(3) * B + num(c)) for c in range(3)]
    th = sqrt(sum_(x * x for x in w))
    Q0 = V(3, 3, [rot("q0", i, j) for i in range(3) for j in range(3)])
    still = {x.as_atom() for x in w}
    want = rodrigues([x * th.inv() for x in w], th * DT).mm(Q0)
    for n, (c, k) in enumerate(rotcoords(S)):
        S.same("orientation %s" % c, lambda: S.R.element("q1", k), lambda asg: el("q0", k) if vanishing(asg) >= still else want.e[n], el("q0", k))


KINDS = {"symplectic_euler": symplectic, "verlet": verlet, "exponential_euler": exponential, "split_ham": lambda S: hamiltonian(S, splitting), "dmv": lambda S: hamiltonian(S, dmv)}


def run(tier):
    rep = Report("P09", RULE, ["exact arithmetic", "mass matrices have the form established by P07", "forces are arbitrary functions of their arguments"])
    items = []
    for m in models():
        for c in sorted(m.concrete("UnconstrainedMap")):
            f = m.method(c, "flow")
            if f is not None and f.body is not None:
                items.append((m.domain, c, "flow"))
        for f in m.fns.values():
            if f.name.split("::")[-1] == "linearInertialConfigurationUpdate" and f.body is not None and f.cls and f.cls.endswith("Sim"):
                items.append((m.domain, f.cls, "linearInertialConfigurationUpdate"))
            if f.name.split("::")[-1] == "exponentialEuler" and f.body is not None and not f.cls:
                items.append((m.domain, f.name, "free"))

    def one(rep, it):
        m = model(it[0])
        if it[2] == "flow":
            f = m.method(it[1], "flow")
            nm = names(m, it[1])
            S = Step(rep, m, it[1], f, it[1])
            k = KINDS.get(nm)
            if k is None:
                rep.und("%s/%s: known integrator" % (it[0], it[1]), f.where(), "name %r" % (nm,))
                return
            k(S)
        elif it[2] == "free":
            f = [g for g in m.fns.values() if g.name == it[1] and g.body is not None][0]
            S = Step(rep, m, None, f, it[1].split("::")[-1])
            drift3(S)
        else:
            f = m.method(it[1], it[2])
            if it[0] == "rigidbody3d":
                linear3(rep, m, it[1], f)
                return
            S = Step(rep, m, it[1], f, it[2])
            drift2(S)
    par.each(rep, items, one, name=lambda it: "%s/%s" % (it[0], it[1]))
    rep.require("integrators", len([i for i in items if i[2] == "flow"]), 7)
    rep.require("position updates", len([i for i in items if i[2] != "flow"]), 3)
    return rep


def linear3(rep, m, cls, f):
    """the 3D position update hands its arguments and the fixed flags on"""
    pr = Proto(m, lambda g: g["q"].endswith("exponentialEuler"))
    st = pr.run(f)
    calls = [a for a, ctx in flat(st.ev)]
    ps = [p["n"] for p in f.params]
    ok = len(calls) == 1 and calls[0].args[0] == M.atom(("in", ps[0])) and calls[0].args[1] == M.atom(("in", ps[1])) and calls[0].args[3] == P.atom(("in", ps[2])) and "m_fixed" in str(calls[0].args[2])
    if not calls:
        S = Step(rep, m, cls, f, f.name.split("::")[-1])
        drift3(S)
        return
    rep.decide("%s/%s: position update of the given state with the fixed flags" % (m.domain, cls), ok, f.where(), str(calls)[:300])
    rep.saw(pr.I)
