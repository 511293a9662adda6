"""P10: a step with contacts applies exactly the impulses the solver returned, to the right state."""
from ..model import models
from ..proto import *
from ..ai import State, Undecided, path, base_type
from ..report import Report
from .. import par
from fractions import Fraction

RULE = ("each contact map's step is interpreted abstractly with every call through the simulator's interfaces replaced by a named result; "
        "arguments of the solver, stored and exported impulses and the final configuration and velocity are compared, as value numbers, with the step's definition")
CL = {"UnconstrainedMap", "ConstrainedSystem", "FlowableSystem", "ScriptingCallback", "FrictionSolver", "ImpactOperator", "Constraint", "ImpactOperatorUtilities", "ImpactSolution"}
QS = {"ImpactFrictionMap::exportConstraintForcesToBinaryFile", "FrictionOperator::formGeneralizedSmoothFrictionBasis", "constraintSetShouldConserveMomentum", "constraintSetShouldConserveAngularMomentum"}
T = ("obj", "this")
# position of each role in the interfaces' parameter lists
SOLVE = dict(iteration=0, dt=1, fsys=2, M=3, Minv=4, CoR=5, mu=6, q=7, v=8, A=9, bases=10, nrel=11, drel=12, iters=13, tol=14, f=15, alpha=16, beta=17, vout=18)
IMPACT = dict(A=0, M=1, Minv=2, q=3, v=4, v0F=5, N=6, Q=7, nrel=8, CoR=9, alpha=10)


def want(f):
    return f["q"] in QS or f["q"].split("::")[0] in CL


def tok(n):
    return M.atom(("in", n))


def tokp(n):
    return P.atom(("in", n))


def iszero(v):
    if isinstance(v, M):
        a = v.as_atom() if v.t else None
        return not v.t or isinstance(a, tuple) and a and a[0] in ("zeros", "zero") or isinstance(a, tuple) and a and a[0] == "const" and a[1] == ZERO
    return v == ZERO or (isinstance(v, V) and all(e == ZERO for e in v.e))


class Run(Proto):
    def __init__(self, m, cls, contacts, dims, fields):
        self.contacts = contacts
        Proto.__init__(self, m, want, decide=Run.cond, extra={"FlowableSystem::ambientSpaceDimensions": lambda p, st, n, f, o, a: num(dims)})
        self.cls = cls
        st = State()
        names = {f["n"] for f in m.fields(cls)}
        for k, v in fields.items():
            if k in names:
                st.store[("fld", T, k)] = v
        self.fn = next(f for f in m.by_q[cls + "::flow"] if f.body)
        self.run(self.fn, st=st)
        self.calls = [(c, ctx) for c, ctx in flat(self.s.ev)] if self.s is not None else []
        self.alias()

    def result(self, tag, i, t):
        if tag.startswith("computeActiveSet@") and i == 3 and not self.contacts:
            return ("empty",)
        return Proto.result(self, tag, i, t)

    def cond(self, st, c):
        """is there a contact: conditions on the number of contacts"""
        neg = False
        while isinstance(c, tuple) and c and c[0] == "not":
            neg, c = not neg, c[1]
        if self.contacts and isinstance(c, tuple) and len(c) == 2 and c[0] in ("eq0", "lt", "le") and isinstance(c[1], P):
            ats = list(c[1].atoms())
            if len(ats) == 1 and isinstance(ats[0], tuple) and ats[0][0] == "size" and self.is_A(ats[0][1]):
                at = P.atom(ats[0])
                for k in (1, -1):
                    if c[1] == at * num(k):
                        r = {"eq0": False, "lt": k < 0, "le": k < 0}[c[0]]
                        return (not r) if neg else r
        return None

    def is_A(self, v):
        return isinstance(v, tuple) and len(v) == 2 and v[0] == "in" and isinstance(v[1], str) and (v[1].startswith("computeActiveSet@") or v[1] in ("solve@1.9",))

    def alias(self):
        """the contacts handed to the solver are the same contacts afterwards"""
        self.same = {}
        for c, _ in self.calls:
            if c.nm == "solve" and self.is_A(c.args[9]):
                self.same["%s.9" % c.tag] = c.args[9][1]

    def canon(self, v):
        f = lambda y: ("in", self.same[y[1]]) if isinstance(y, tuple) and len(y) == 2 and y[0] == "in" and isinstance(y[1], str) and y[1] in self.same else None
        return subst(v, f)

    def named(self, nm):
        return [(c, ctx) for c, ctx in self.calls if c.nm == nm]

    def final(self, n, t=VEC):
        return self.I.load(self.s, ("obj", n), t)

    def field(self, n, t):
        return self.I.load(self.s, ("fld", T, n), t)

    def producer(self, v, nm, pos):
        """the call of nm whose out parameter pos is v"""
        at = v.as_atom() if isinstance(v, (M, P)) else v
        if isinstance(at, tuple) and len(at) == 2 and at[0] == "in" and isinstance(at[1], str):
            for c, _ in self.calls:
                if c.nm == nm and at[1] == "%s.%d" % (c.tag, pos):
                    return c
        return None


def known(v):
    return not has_unk(v)


class Check:
    def __init__(self, rep, lab, r):
        self.rep, self.lab, self.r = rep, lab, r

    def eq(self, what, got, exp, where):
        got, exp = self.r.canon(got), self.r.canon(exp)
        if got == exp:
            self.rep.ok("%s: %s" % (self.lab, what), where)
        else:
            self.rep.decide("%s: %s" % (self.lab, what), None if not known(got) else False, where, "found %s, expected %s" % (sh(got, 300), sh(exp, 300)))

    def yes(self, what, ok, where, why=""):
        self.rep.decide("%s: %s" % (self.lab, what), ok, where, why)


def unconditional(ctx, allowed=0):
    return [x for x in ctx if x[0] == "if"] == []


def per_contact(ck, ctx, A):
    """the loops around a call are exactly one pass over all contacts, unconditionally"""
    loops = [x[1] for x in ctx if x[0] == "loop"]
    ifs = [x for x in ctx if x[0] == "if"]
    if len(loops) != 1 or ifs:
        return None
    iv = loops[0]
    return iv if iv[2] == ZERO and ck.r.canon(iv[3]) == P.atom(("size", A)) else None


def entries(v):
    at = v.as_atom() if isinstance(v, M) else None
    if isinstance(at, tuple) and at and at[0] == "updm":
        return at[1], dict(at[2])
    return None, None


def initial_impulses(ck, S, pos, mode, dims, A, where, pre):
    r = ck.r
    al, be = S.args[pos["alpha"]], S.args[pos["beta"]] if "beta" in pos else None
    gets = [(c, ctx) for c, ctx in pre if c.nm == "getCachedConstraintImpulse"]
    if mode == "NONE":
        ck.yes("without warm start the solver starts from zero normal impulses", iszero(al) or (None if not known(al) else False), where, "starts from %s" % sh(al))
        if be is not None:
            ck.yes("without warm start the solver starts from zero friction impulses", iszero(be) or (None if not known(be) else False), where, "starts from %s" % sh(be))
        return
    if len(gets) != 1:
        ck.yes("the remembered impulse of every contact is looked up once", False if not gets else None, where, "%d look-ups" % len(gets))
        return
    g, ctx = gets[0]
    iv = per_contact(ck, ctx, A)
    ck.yes("the remembered impulse of every contact is looked up", iv is not None or None, g.where)
    if iv is None:
        return
    i = P.atom(iv)
    ck.eq("the look-up asks for the contact itself", g.args[0], ("derefof", ("el", A, i)), g.where)
    el = lambda n: P.atom(("el", ("in", "%s.1" % g.tag), num(n)))
    base, en = entries(al)
    if en is None:
        ck.yes("normal impulses start from the remembered ones", None if not known(al) else False, where, "starts from %s" % sh(al))
        return
    av = en.get(i)
    if mode == "NORMAL":
        ck.eq("the normal impulse starts from the remembered one", av if av is not None else al, el(0), where)
        if be is not None:
            ck.yes("friction impulses start from zero", iszero(be) or (None if not known(be) else False), where, "starts from %s" % sh(be))
        return
    base, bn = entries(be)
    if bn is None:
        ck.yes("friction impulses start from the remembered ones", None if not known(be) else False, where, "starts from %s" % sh(be))
        return
    if dims == 2:
        ck.eq("the normal impulse starts from the remembered one", av if av is not None else al, el(0), where)
        ck.eq("the friction impulse starts from the remembered one", bn.get(i, be), el(1), where)
        return
    # three dimensions: the remembered world impulse, carried to the current contact frame, in the coordinates of that frame
    b1, b2 = bn.get(i * num(2)), bn.get(i * num(2) + ONE)
    if av is None or b1 is None or b2 is None:
        allk = known(al) and known(be) and all(isinstance(k, P) for k in list(en) + list(bn))
        ck.yes("the remembered impulse is expressed in the contact frame", False if allk else None, where, "alpha %s beta %s" % (sh(al), sh(be)))
        return
    fr = [(c, x) for c, x in pre if c.nm == "computeBasis"]
    if len(fr) == 1:
        c = fr[0][0]
        ck.eq("the frame is that of the contact itself", c.who, ("derefof", ("el", A, i)), c.where)
        ck.eq("the frame is taken at the start configuration", c.args[0], S.args[pos["q"]], c.where)
        ck.eq("the frame is taken with the solver's velocity", c.args[1], S.args[pos["v"]], c.where)
        for k, (nm, x) in enumerate((("normal", av), ("first tangential", b1), ("second tangential", b2))):
            x = nonzero_branch(x)
            cols = columns(x, "%s.2" % c.tag)
            want = {0, k}
            ck.yes("the %s impulse is the component along that axis of the frame" % nm, True if cols == want else False if cols is not None and known(x) else None, where, "uses columns %s" % sorted(cols or ()))
            segs = {int(a[2].cval()) for a in atoms_in(x) if a[0] == "el" and a[1] == ("in", "%s.1" % g.tag) and isinstance(a[2], P) and a[2].is_const()}
            ck.yes("the %s impulse uses the remembered normal and force" % nm, True if segs == {0, 1, 2, 3, 4, 5} else False if known(x) else None, where, "uses entries %s" % sorted(segs))


def atoms_in(v):
    out = []

    def f(y):
        if isinstance(y, tuple) and y and isinstance(y[0], str):
            out.append(y)
        return False
    contains(v, f)
    return out


def nonzero_branch(x):
    at = x.as_atom() if isinstance(x, P) else None
    if isinstance(at, tuple) and at and at[0] == "phi":
        for a in (at[2], at[3]):
            if a != ZERO:
                return a
    return x


def columns(x, basis):
    """columns of the frame that an expression reads"""
    out = set()
    for y in atoms_in(x):
        if y[0] == "blkof" and isinstance(y[1], M) and y[1].as_atom() == ("in", basis):
            if isinstance(y[3], P) and y[3].is_const():
                out.add(int(y[3].cval()))
            else:
                return None
        if y[0] == "el" and y[1] == ("in", basis):
            i = y[2]
            if isinstance(i, tuple) and len(i) == 2 and isinstance(i[1], P) and i[1].is_const():
                out.add(int(i[1].cval()))
            else:
                return None
    return out


def stored_impulses(ck, S, pos, mode, dims, A, where, post):
    r = ck.r
    puts = [(c, ctx) for c, ctx in post if c.nm == "cacheConstraint"]
    if mode == "NONE":
        ck.yes("nothing is remembered without warm start", not puts, where)
        return
    if len(puts) != 1:
        ck.yes("the impulse of every contact is remembered", False if not puts else None, where, "%d stores" % len(puts))
        return
    p, ctx = puts[0]
    iv = per_contact(ck, ctx, A)
    ck.yes("the impulse of every contact is remembered", iv is not None or None, p.where)
    if iv is None:
        return
    i = P.atom(iv)
    ck.eq("an impulse is remembered for the contact it belongs to", p.args[0], ("derefof", ("el", A, i)), p.where)
    al = lambda j: P.atom(("el", ("in", "%s.%d" % (S.tag, pos["alpha"])), j))
    be = lambda j: P.atom(("el", ("in", "%s.%d" % (S.tag, pos["beta"])), j))
    base, en = entries(p.args[1])
    if en is None and isinstance(p.args[1], V):
        en = {num(k): x for k, x in enumerate(p.args[1].e)}
    if en is None:
        ck.yes("the remembered impulse is the solver's", None if not known(p.args[1]) else False, p.where, sh(p.args[1]))
        return
    if mode == "NORMAL" or dims == 2:
        ck.eq("the remembered normal impulse is the solver's", en.get(ZERO, p.args[1]), al(i), p.where)
        if mode != "NORMAL":
            ck.eq("the remembered friction impulse is the solver's", en.get(ONE, p.args[1]), be(i), p.where)
        return
    fr = [c for c, x in post if c.nm == "computeBasis"]
    if len(fr) != 1:
        ck.yes("one contact frame per remembered impulse", None, p.where, "%d frames" % len(fr))
        return
    c = fr[0]
    ck.eq("the remembered frame is that of the contact itself", c.who, ("derefof", ("el", A, i)), c.where)
    ck.eq("the remembered frame is taken at the start configuration", c.args[0], S.args[pos["q"]], c.where)
    ck.eq("the remembered frame is taken with the solver's velocity", c.args[1], S.args[pos["v"]], c.where)
    B = lambda row, col: tok("%s.2" % c.tag).el((num(row), num(col)))
    got = [en.get(num(k)) for k in range(6)]
    if any(x is None for x in got):
        ck.yes("the remembered impulse has six entries", None, p.where, sh(p.args[1]))
        return
    for k in range(3):
        exp = al(i) * B(k, 0) + be(i * num(2)) * B(k, 1) + be(i * num(2) + ONE) * B(k, 2)
        ck.eq("entry %d of the remembered normal is the frame's normal" % k, got[k], B(k, 0), p.where)
        ck.eq("entry %d of the remembered force is the solver's impulse in that frame" % k, got[3 + k], exp, p.where)


def step(rep, m, cls, mode, dims, kind):
    lab = "%s, impulses remembered: %s, %dD" % (cls, mode.lower(), dims)
    warm = mode != "NONE"
    fields = {"m_impulses_to_cache": ("enumc", "ImpulsesToCache::" + mode), "m_warm_start": warm, "m_write_constraint_forces": True}
    r = Run(m, cls, True, dims, fields)
    rep.saw(r.I)
    where = "%s %s" % (r.fn.where(), r.fn.q)
    if r.s is None:
        rep.count("settings refused by the program")
        return
    ck = Check(rep, lab, r)
    pos = IMPACT if kind == "impact" else SOLVE
    nm = "flow" if kind == "impact" else "solve"
    cls_s = "ImpactOperator" if kind == "impact" else "FrictionSolver"
    S = [(c, ctx) for c, ctx in r.calls if c.name == "%s::%s" % (cls_s, nm)]
    AS = r.named("computeActiveSet")
    q0, v0, dt = tok("q0"), tok("v0"), tokp("dt")
    if len(S) != 1 or not unconditional(S[0][1]):
        ck.yes("the solver runs exactly once", False if not S else None, where, "%d solver calls" % len(S))
        return
    S = S[0][0]
    sw = "%s %s" % (S.where, r.fn.q)
    if len(AS) != 1 or not unconditional(AS[0][1]):
        ck.yes("contacts are detected exactly once", False if not AS else None, where, "%d detections" % len(AS))
        return
    a = AS[0][0]
    A = ("in", "%s.3" % a.tag)
    at = r.calls.index(next(x for x in r.calls if x[0] is S))
    pre, post = r.calls[:at], r.calls[at + 1:]
    arg = lambda n: S.args[pos[n]]
    ck.eq("contacts are detected from the start configuration", a.args[0], q0, a.where)
    ck.eq("the solver gets the detected contacts", arg("A"), A, sw)
    ck.eq("the solver gets the start configuration", arg("q"), q0, sw)
    ck.eq("the solver gets the mass matrix", arg("M"), tok("M()"), sw)
    ck.eq("the solver gets the inverse mass matrix", arg("Minv"), tok("Minv()"), sw)
    if kind != "impact":
        ck.eq("the solver gets the time step", arg("dt"), dt, sw)
        ck.eq("the solver gets the iteration", arg("iteration"), tokp("iteration"), sw)
        ck.eq("the solver gets the iteration limit", arg("iters"), tokp("this.m_max_iters"), sw)
        ck.eq("the solver gets the tolerance", arg("tol"), tokp("this.m_abs_tol"), sw)
    n = P.atom(("size", A))
    for what, key, cb, default in (("restitution", "CoR", "restitutionCoefficientCallback", "CoR_default"), ("friction", "mu", "frictionCoefficientCallback", "mu_default")):
        if key not in pos:
            continue
        c = r.producer(arg(key), cb, 1)
        if c is None:
            ck.yes("the solver's %s coefficients went through the script" % what, None if not known(arg(key)) else False, sw, "found %s" % sh(arg(key)))
            continue
        ck.eq("the script sees the contacts when choosing %s" % what, c.args[0], A, c.where)
        ck.eq("%s defaults to the configured value" % what, c.args[1], M.atom(("const", tokp(default), n)), c.where)
    # which velocity
    vin = arg("v")
    U1 = [c for c, _ in pre if c.name == "UnconstrainedMap::flow"]
    F = [c for c, _ in pre if c.nm == "computeForce"]
    vd = None
    if kind == "symplectic":
        if len(F) == 1 and F[0].args[:2] == (q0, v0) and F[0].args[2] == dt:
            Z = [c for c, _ in pre if c.nm == "zeroOutForcesOnFixedBodies"]
            fo = tok("%s.3" % F[0].tag)
            ck.yes("forces on fixed bodies are cleared", any(z.args[0] == fo for z in Z), F[0].where)
            vd = tok("Minv()").mm(tok("%s.0" % Z[0].tag)).scale(dt) if Z else None
        else:
            ck.yes("forces are evaluated at the start state", False if len(F) == 1 and all(known(x) for x in F[0].args[:3]) else None, where)
        ck.eq("the solver starts from the start velocity", vin, v0, sw)
        if vd is not None:
            pv = r.producer(a.args[1], "linearInertialConfigurationUpdate", 3)
            ck.yes("contacts are detected at the predicted configuration", pv is not None and pv.args[:3] == (q0, v0 + vd, dt) or (None if not known(a.args[1]) else False), a.where, sh(a.args[1]))
    else:
        p1 = r.producer(a.args[1], "flow", 5)
        ck.yes("contacts are detected at the predicted configuration", p1 is not None and p1.name == "UnconstrainedMap::flow" and p1.args[:2] == (q0, v0) and p1.args[4] == dt or (None if not known(a.args[1]) else False), a.where, sh(a.args[1]))
        if kind == "stabilized":
            pu = r.producer(vin, "flow", 6)
            ck.yes("the solver starts from the predicted velocity", pu is not None and pu.args[:2] == (q0, v0) and pu.args[4] == dt or (None if not known(vin) else False), sw, sh(vin))
        else:
            ck.eq("the solver starts from the start velocity", vin, v0, sw)
    if kind == "impact":
        ck.eq("the operator gets the same velocity twice", arg("v0F"), v0, sw)
        N = r.producer(arg("N"), "computeN", 3)
        ck.yes("the operator gets the contact gradients at the start configuration", N is not None and N.args[1] == A and N.args[2] == q0 or (None if not known(arg("N")) else False), sw, sh(arg("N")))
        if N is not None:
            Nt = tok("%s.3" % N.tag)
            ck.eq("the operator gets the matching Delassus matrix", arg("Q"), Nt.T().mm(tok("Minv()")).mm(Nt), sw)
        K = r.producer(arg("nrel"), "evalKinematicRelativeVelocityN", 2)
        ck.yes("the operator gets the scripted motion of the contacts", K is not None and K.args[0] == q0 and K.args[1] == A or (None if not known(arg("nrel")) else False), sw, sh(arg("nrel")))
    else:
        b = r.producer(arg("bases"), "computeContactBases", 3)
        if b is None:
            ck.yes("the solver gets the contact bases", None if not known(arg("bases")) else False, sw, sh(arg("bases")))
        else:
            ck.eq("the bases are taken at the start configuration", b.args[0], q0, b.where)
            ck.eq("the bases are taken with the solver's velocity", b.args[1], vin, b.where)
            ck.eq("the bases are those of the contacts", b.args[2], A, b.where)
        empty = lambda x: isinstance(x, M) and x.as_atom() in (("fresh", ZERO), ("zeros", ZERO))
        if kind == "symplectic" and vd is not None:
            extra(ck, S, pos, A, q0, vd, dt, sw, cls, r)
        elif kind != "symplectic":
            ck.yes("no extra normal velocity is given to the solver", empty(arg("nrel")) or (None if not known(arg("nrel")) else False), sw, sh(arg("nrel")))
            ck.yes("no extra tangential velocity is given to the solver", empty(arg("drel")) or (None if not known(arg("drel")) else False), sw, sh(arg("drel")))
        mf = tok("this.m_f")
        if any(f["n"] == "m_f" for f in m.fields(cls)):
            ck.yes("the solver's working force starts from the last one", contains(arg("f"), lambda y: y == ("in", "this.m_f")) or (None if not known(arg("f")) else False), sw, sh(arg("f")))
            ck.eq("the solver's working force is kept for the next step", r.field("m_f", VEC), tok("%s.%d" % (S.tag, pos["f"])), sw)
    initial_impulses(ck, S, pos, mode, dims, A, sw, pre)
    # the cache is emptied between reading and writing
    order = [c.nm for c, ctx in r.calls if c.nm in ("getCachedConstraintImpulse", "clearConstraintCache", "cacheConstraint")]
    if mode != "NONE" and kind != "stabilized":
        ok = "cacheConstraint" in order and "clearConstraintCache" in order[:order.index("cacheConstraint")]
        ck.yes("old impulses are forgotten before new ones are remembered", ok if "cacheConstraint" in order else None, where, str(order))
        if "getCachedConstraintImpulse" in order:
            ck.yes("old impulses are read before they are forgotten", order.index("getCachedConstraintImpulse") < order.index("clearConstraintCache") if "clearConstraintCache" in order else None, where, str(order))
        if "cacheConstraint" in order:
            ck.yes("new impulses are not forgotten again", "clearConstraintCache" not in order[order.index("cacheConstraint"):], where, str(order))
    stored_impulses(ck, S, pos, mode if kind != "stabilized" else "NONE", dims, A, where, post)
    exports(ck, S, pos, A, kind, q0, dt, post, r, where, arg)
    # result
    q1, v1 = r.final("q1"), r.final("v1")
    vs = tok("%s.%d" % (S.tag, pos["vout"])) if kind != "impact" else v0 + tok("Minv()").mm(arg("N")).mm(tok("%s.%d" % (S.tag, pos["alpha"])))
    if kind in ("geometric", "impact"):
        pq, pv = r.producer(q1, "flow", 5), r.producer(v1, "flow", 6)
        ck.yes("configuration and velocity come from one integrator step", pq is not None and pq is pv and pq.name == "UnconstrainedMap::flow" or (None if not (known(q1) and known(v1)) else False), where, "q1 %s v1 %s" % (sh(q1), sh(v1)))
        if pq is not None and pq is pv:
            ck.eq("the integrator continues from the start configuration", pq.args[0], q0, pq.where)
            ck.eq("the integrator continues from the velocity after impact", pq.args[1], vs, pq.where)
            ck.eq("the integrator advances by the time step", pq.args[4], dt, pq.where)
            ck.eq("the integrator gets the iteration", pq.args[3], tokp("iteration"), pq.where)
    else:
        ve = vs if kind == "stabilized" else vs + vd if vd is not None else None
        if ve is not None:
            ck.eq("the final velocity is the one the solver's impulses give", v1, ve, where)
        pq = r.producer(q1, "linearInertialConfigurationUpdate", 3)
        ck.yes("the final configuration is an inertial update", pq is not None or (None if not known(q1) else False), where, sh(q1))
        if pq is not None:
            ck.eq("the update starts from the start configuration", pq.args[0], q0, pq.where)
            ck.eq("the update uses the final velocity", pq.args[1], v1, pq.where)
            ck.eq("the update advances by the time step", pq.args[2], dt, pq.where)


def extra(ck, S, pos, A, q0, vd, dt, sw, cls, r):
    drel, nrel = S.args[pos["drel"]], S.args[pos["nrel"]]
    D = [c for c, _ in r.calls if c.nm == "formGeneralizedSmoothFrictionBasis"]
    N = [c for c, _ in r.calls[:r.calls.index(next(x for x in r.calls if x[0] is S))] if c.nm == "computeN"]
    if len(D) != 1 or len(N) != 1:
        ck.yes("force contribution to the relative velocity", None, sw, "%d %d" % (len(D), len(N)))
        return
    ck.eq("friction directions are those of the contacts", D[0].args[3], A, D[0].where)
    ck.eq("friction directions are taken at the start configuration", D[0].args[2], q0, D[0].where)
    ck.eq("friction directions use the solver's bases", D[0].args[4], S.args[pos["bases"]], D[0].where)
    ck.eq("contact gradients are those of the contacts", N[0].args[1], A, N[0].where)
    ck.eq("contact gradients are taken at the start configuration", N[0].args[2], q0, N[0].where)
    ck.eq("tangential effect of the forces", drel, tok("%s.5" % D[0].tag).T().mm(vd), sw)
    base = tok("%s.3" % N[0].tag).T().mm(vd)
    rest = nrel - base
    # remaining part only under stabilisation
    off = rest
    at = rest.as_atom() if rest.t else None
    if isinstance(at, tuple) and at and at[0] == "phi":
        c = at[1]
        while isinstance(c, tuple) and c and c[0] == "not":
            c = c[1]
    full = nrel.as_atom() if nrel.t else None
    if isinstance(full, tuple) and full and full[0] == "phi":
        neg = isinstance(full[1], tuple) and full[1][0] == "not"
        on, offv = (full[3], full[2]) if neg else (full[2], full[3])
        ck.yes("stabilisation is conditional on its setting", full[1] == ("bool", ("in", "this.m_stabilize")) or neg and full[1][1] == ("bool", ("in", "this.m_stabilize")) or None, sw, sh(full[1]))
        ck.eq("normal effect of the forces", offv, base, sw)
        g = (on - base).scale(dt)
        b, en = entries(g)
        if not en or len(en) != 1:
            ck.yes("stabilisation adds the penetration divided by the time step", None if not known(on) else False, sw, sh(g))
            return
        i, x = list(en.items())[0]
        gap = {y for y in atoms_in(x) if y[0] == "in" and isinstance(y[1], str) and y[1].startswith("evaluateGapFunction(")}
        ck.yes("stabilisation adds the penetration at the start configuration", True if len(gap) == 1 and list(gap)[0][1].endswith(",(q0))") else None if not known(x) else False, sw, sh(x))
        if len(gap) == 1:
            g, t = list(gap)[0], ("in", "this.m_penetration_threshold")
            res = [(piece(x, {g: a, t: b}), e) for a, b, e in ((2, 1, 0), (-2, 1, -2), (-Fraction(1, 2), 1, 0), (-3, 0, -3), (3, 0, 0))]
            ck.yes("only penetrations beyond the threshold are corrected, by their depth", None if any(r_ is None for r_, _ in res) else all(r_ == e for r_, e in res), sw, sh(x, 300))
    else:
        ck.yes("normal effect of the forces", None if not known(nrel) else False, sw, sh(nrel))


def piece(v, env):
    """value of a piecewise linear formula in one region, None when it uses anything else"""
    from fractions import Fraction
    if v is True or v is False:
        return v
    if isinstance(v, P):
        out = Fraction(0)
        for mono, c in v.t.items():
            x = Fraction(c)
            for i, e in mono:
                a = piece(atom_of(i), env)
                if a is None or e < 0 and a == 0:
                    return None
                x *= a ** e
            out += x
        return out
    if v in env:
        return Fraction(env[v])
    if isinstance(v, tuple) and v:
        if v[0] in ("lt", "le", "eq0"):
            a = piece(v[1], env)
            return None if a is None else a < 0 if v[0] == "lt" else a <= 0 if v[0] == "le" else a == 0
        if v[0] == "not":
            a = piece(v[1], env)
            return None if a is None else not a
        if v[0] == "phi":
            c = piece(v[1], env)
            return None if c is None else piece(v[2] if c else v[3], env)
        if v[0] == "abs":
            a = piece(v[1], env)
            return None if a is None else abs(a)
        if v[0] in ("min", "max"):
            xs = [piece(y, env) for y in v[1]]
            return None if None in xs else (min if v[0] == "min" else max)(xs)
        if v[0] in ("and", "or"):
            xs = [piece(y, env) for y in (v[1] if isinstance(v[1], (frozenset, set)) else v[1:])]
            return None if None in xs else (all if v[0] == "and" else any)(xs)
    return None


def atom_of(i):
    from .. import alg
    return alg._atoms[i]


def exports(ck, S, pos, A, kind, q0, dt, post, r, where, arg):
    E = [(c, ctx) for c, ctx in post if c.nm in ("exportConstraintForcesToBinaryFile", "setSolution")]
    if len(E) != 1 or not unconditional(E[0][1]):
        ck.yes("requested contact forces are reported once", False if not E else None, where, "%d reports" % len(E))
    else:
        e = E[0][0]
        ck.eq("reported contacts are located at the start configuration", e.args[0], q0, e.where)
        ck.eq("the reported contacts are the solved ones", e.args[1], A, e.where)
        ck.eq("the reported normal impulses are the solver's", e.args[3], tok("%s.%d" % (S.tag, pos["alpha"])), e.where)
        if kind != "impact":
            ck.eq("the reported bases are the solver's", e.args[2], arg("bases"), e.where)
            ck.eq("the reported friction impulses are the solver's", e.args[4], tok("%s.%d" % (S.tag, pos["beta"])), e.where)
            ck.eq("the reported time step is the step's", e.args[5], dt, e.where)
        else:
            b = r.producer(e.args[2], "computeImpactBases", 2)
            ck.yes("the reported bases are those of the contacts", b is not None and b.args[0] == q0 and r.canon(b.args[1]) == A or (None if not known(e.args[2]) else False), e.where, sh(e.args[2]))
            ck.eq("the reported time step is the step's", e.args[4], dt, e.where)
    flag(ck, r, where)


def flag(ck, r, where):
    if any(f["n"] == "m_write_constraint_forces" for f in r.m.fields(r.cls)):
        v = r.field("m_write_constraint_forces", "bool")
        ck.yes("a request for contact forces holds for one step only", True if v is False else None if not known(v) else False, where, sh(v))


def idle(rep, m, cls, mode, dims, kind):
    """no contacts"""
    lab = "%s, impulses remembered: %s, %dD, no contacts" % (cls, mode.lower(), dims)
    fields = {"m_impulses_to_cache": ("enumc", "ImpulsesToCache::" + mode), "m_warm_start": mode != "NONE", "m_write_constraint_forces": True}
    r = Run(m, cls, False, dims, fields)
    rep.saw(r.I)
    ck = Check(rep, lab, r)
    where = "%s %s" % (r.fn.where(), r.fn.q)
    if r.s is None:
        return
    q0, v0, dt = tok("q0"), tok("v0"), tokp("dt")
    q1, v1 = r.final("q1"), r.final("v1")
    if kind == "symplectic":
        F, Z = r.named("computeForce"), r.named("zeroOutForcesOnFixedBodies")
        if len(F) == 1 and len(Z) == 1:
            ck.yes("forces are evaluated at the start state", F[0][0].args[:3] == (q0, v0, dt) or None, F[0][0].where)
            ve = v0 + tok("Minv()").mm(tok("%s.0" % Z[0][0].tag)).scale(dt)
            ck.eq("the final velocity is the unconstrained one", v1, ve, where)
        pq = r.producer(q1, "linearInertialConfigurationUpdate", 3)
        ck.yes("the final configuration is the inertial update with the final velocity", pq is not None and pq.args[:3] == (q0, v1, dt) or (None if not known(q1) else False), where, sh(q1))
    else:
        pq, pv = r.producer(q1, "flow", 5), r.producer(v1, "flow", 6)
        ck.yes("without contacts the step is the unconstrained one", pq is not None and pq is pv and pq.args[:2] == (q0, v0) and pq.args[4] == dt or (None if not (known(q1) and known(v1)) else False), where, "q1 %s v1 %s" % (sh(q1), sh(v1)))
    if mode != "NONE" and kind != "stabilized":
        C = [c for c, ctx in r.named("clearConstraintCache") if unconditional(ctx)]
        ck.yes("impulses of vanished contacts are forgotten", bool(C), where)
    ck.yes("no impulse is remembered", not r.named("cacheConstraint"), where)
    E = [(c, ctx) for c, ctx in r.calls if c.nm in ("exportConstraintForcesToBinaryFile", "setSolution")]
    ck.yes("an empty report is written when requested", True if len(E) == 1 and unconditional(E[0][1]) else False if not E else None, where)
    if len(E) == 1:
        ck.yes("the report has no contacts", E[0][0].args[1] == ("empty",) and iszero(E[0][0].args[3]) or None, E[0][0].where)
    flag(ck, r, where)


KIND = {"StabilizedImpactFrictionMap": "stabilized", "GeometricImpactFrictionMap": "geometric", "SymplecticEulerImpactFrictionMap": "symplectic", "ImpactMap": "impact"}


def analyse(rep, item):
    dom, cls, mode, dims = item
    m = next(x for x in models() if x.domain == dom)
    step(rep, m, cls, mode, dims, KIND[cls])
    idle(rep, m, cls, mode, dims, KIND[cls])


def items():
    m = next(x for x in models() if x.domain == "ball2d")
    out = []
    for c in m.concrete("ImpactFrictionMap") + ["ImpactMap"]:
        if c not in KIND or not m.by_q.get(c + "::flow"):
            continue
        for mode in ("NONE", "NORMAL", "NORMAL_AND_FRICTION"):
            for d in (2, 3):
                if (c == "ImpactMap" and (mode == "NORMAL_AND_FRICTION" or d == 3)) or (c.startswith("Stab") and mode != "NONE"):
                    continue
                out.append(("ball2d", c, mode, d))
    return out


def run(tier):
    rep = Report("P10", RULE, ["interfaces are implemented as declared (outputs only through their non-const reference parameters)", "solvers keep the order of the contacts they are given"])
    its = items()
    rep.require("contact maps and settings", len(its), 12)
    par.each(rep, its, analyse, budget=300, name=lambda it: "%s/%s/%s/%d" % it)
    return rep
