"""P12: the optimisation problem handed to a contact solver is the one the contacts define."""
from ..model import models
from ..proto import *
from ..ai import State, Undecided, base_type
from ..report import Report
from .. import par

RULE = ("the code that assembles contact matrices, linear terms, bounds and tolerances and drives the numerical solvers is interpreted abstractly with solver and contact interfaces replaced by named results; "
        "what reaches each solver, and what is made of its answer, is compared as value numbers with the definition of the contact problem")
T = ("obj", "this")
CUT = {"Constraint", "SobogusFrictionProblem"}
FLOW = {"ImpactOperator::flow", "FrictionOperator::flow"}
QL = dict(m=0, me=1, mmax=2, n=3, nmax=4, mnn=5, C=6, d=7, A=8, b=9, xl=10, xu=11, x=12, u=13, eps=14, war=19, lwar=20, iwar=21, liwar=22)
IMPACT = dict(A=0, M=1, Minv=2, q=3, v=4, v0F=5, N=6, Q=7, nrel=8, CoR=9, alpha=10)
FRIC = dict(t=0, Minv=1, v0=2, D=3, Q=4, drel=5, mu=6, alpha=7, beta=8)


def tok(n):
    return M.atom(("in", n))


def tokp(n):
    return P.atom(("in", n))


def known(v):
    return not has_unk(v)


def ql(p, st, n, f, obj, args):
    """the Fortran solver: arrays go in and out through pointers"""
    I, vals, locs = p.I, [], []
    for a in args:
        v, l = I.eval(st, a), None
        if isinstance(v, tuple) and v[:1] == ("ptr",):
            l = v[1][1] if v[1][0] == "dat" else v[1]
            v = I.load(st, l, VEC if v[1][0] == "dat" else "int")
        vals.append(v)
        locs.append(l)
    k = p.n["ql"] = p.n.get("ql", 0) + 1
    tag = "ql@%d" % k
    st.ev.append(("api", "ql_", None, tuple(vals), I.where(n), tag, None))
    for i in (12, 13, 17):
        if locs[i] is not None:
            I.clear_under(st, locs[i])
            I.store(st, locs[i], I.initial("%s.%d" % (tag, i), VEC if i != 17 else "int"))
    return ("void",)


def rawptr(p, st, n, f, obj, args):
    v = p.I.eval(st, args[0])
    if isinstance(v, tuple) and len(v) == 3 and v[0] == "ctorof" and isinstance(v[2], tuple) and v[2][:1] == ("ptr",):
        return v[2]
    return None


def optimize(p, st, n, f, obj, args):
    v = p.I.eval(st, args[0])
    if not (isinstance(v, tuple) and len(v) == 3 and v[0] == "ctorof" and isinstance(v[2], tuple) and v[2][:1] == ("ptr",)):
        return None
    l = v[2][1]
    vals = {}
    for k in list(st.store):
        if k[0] == "fld" and k[1] == l:
            x = st.store[k]
            if isinstance(x, tuple) and len(x) == 2 and x[0] in ("ref", "ptr") and isinstance(x[1], tuple):
                p.targets[k[2]] = x[1]
                x = p.I.load(st, x[1], VEC) if k[2] in ("m_Q", "m_A", "m_C", p.unknown) else x
            vals[k[2]] = x
    p.problems.append((vals, p.I.where(n)))
    t = p.targets.get(p.unknown)
    if t is not None:
        p.I.clear_under(st, t)
        k = p.n["ipopt"] = p.n.get("ipopt", 0) + 1
        p.I.store(st, t, M.atom(("in", "ipopt@%d" % k)))
        p.I.on_write(st, t, M.atom(("in", "ipopt@%d" % k)), n)
    return P.atom(("in", "ipopt.status"))


class Run(Proto):
    def __init__(self, m, q, cut=(), types=None, fields=None, unknown=None, decide=None, extra=None, pick=None, args=None):
        self.q, self.problems, self.targets, self.unknown = q, [], {}, unknown
        self.cutq = set(cut)
        ex = {"ql_": ql, "Ipopt::GetRawPtr": rawptr, "Ipopt::IpoptApplication::OptimizeTNLP": optimize}
        ex.update(extra or {})
        Proto.__init__(self, m, self.wanted, decide=decide, extra=ex)
        self.writes = []
        self.I.hooks["write"] = self.on_write
        self.fn = next(f for f in m.by_q.get(q, []) if f.body and (pick is None or pick(f)))
        st = State()
        for k, v in (fields or {}).items():
            st.store[("fld", T, k)] = v
        a = None
        if args:
            a = []
            for i, pr in enumerate(self.fn.params):
                n = pr["n"] or "arg%d" % i
                if n in args:
                    l = ("obj", n)
                    self.I.buffers[l] = args[n]
                    st.store[l] = tok(n)
                    a.append(("val", ("ptr", ("dat", l, "data"))))
                else:
                    a.append(("loc", ("obj", n)))
        self.run(self.fn, st=st, args=a)
        self.calls = flat(self.s.ev) if self.s is not None else []

    def wanted(self, f):
        q = f["q"]
        return q != self.q and (q in FLOW or q in self.cutq or q.split("::")[0] in CUT)

    def on_write(self, *a):
        self.writes.append(a)

    def named(self, nm):
        return [(c, ctx) for c, ctx in self.calls if c.nm == nm]

    def out(self, n, t=VEC):
        return self.I.load(self.s, ("obj", n), t)

    def where(self):
        return "%s:%d (%s)" % (self.fn.file, self.fn.line, self.fn.q)


class Check:
    def __init__(self, rep, r, lab=None):
        self.rep, self.r, self.lab = rep, r, lab or r.q
        rep.saw(r.I)

    def key(self, what):
        return "%s: %s" % (self.lab, what)

    def eq(self, what, got, exp, where=None):
        if got == exp:
            self.rep.ok(self.key(what), where or self.r.where())
            return True
        self.rep.decide(self.key(what), None if not known(got) else False, where or self.r.where(), "found %s, expected %s" % (sh(got, 400), sh(exp, 300)))
        return False

    def among(self, what, got, exps, where=None):
        if got in exps:
            self.rep.ok(self.key(what), where or self.r.where())
        else:
            self.eq(what, got, exps[0], where)

    def yes(self, what, ok, why="", where=None):
        self.rep.decide(self.key(what), ok, where or self.r.where(), why)

    def one(self, nm):
        cs = self.r.named(nm)
        if len(cs) == 1:
            self.rep.ok(self.key("one call of " + nm), cs[0][0].where)
            return cs[0]
        self.yes("one call of " + nm, None, "%d calls" % len(cs))
        return None

    def args(self, c, pos, exp, skip=()):
        for role, v in exp.items():
            got = c.args[pos[role]]
            if isinstance(v, (list, tuple)) and v and v[0] == "any":
                self.among("argument %s of %s" % (role, c.nm), got, list(v[1:]), c.where)
            else:
                self.eq("argument %s of %s" % (role, c.nm), got, v, c.where)


def size(n):
    """number of contacts in a list, or length of a vector"""
    return P.atom(("size", ("in", n) if n in LISTS else tok(n)))


LISTS = {"V", "K", "cons", "constraints", "active_set"}


def loops(ctx):
    return [x[1] for x in ctx if x[0] == "loop"]


def ifs(ctx):
    return [x[1] for x in ctx if x[0] == "if"]


def full(ck, what, iv, counts, where):
    """a loop visits every contact exactly once; counts: expressions for the number of contacts equal under the caller's contract"""
    ck.eq("%s starts at the first contact" % what, iv[2], ZERO, where)
    if iv[3] in counts:
        ck.rep.ok(ck.key("%s ends after the last contact" % what), where)
        return
    short = any((iv[3] - c).is_const() for c in counts)
    ck.yes("%s ends after the last contact" % what, False if short else None, "ends at %s" % sh(iv[3]), where)


def nonempty_only(c):
    """a condition that only says there is something to do"""
    while isinstance(c, tuple) and c and c[0] == "not":
        c = c[1]
    return isinstance(c, tuple) and len(c) == 2 and c[0] in ("eq0", "lt", "le") and isinstance(c[1], P) and all(isinstance(a, tuple) and a[0] in ("size", "cols", "rows", "idiv") for a in c[1].atoms())


def elem(A, i):
    return ("derefof", ("el", ("in", A), i))


def receiver(ck, c, A, i, where):
    who = c.who
    got = who[1] if isinstance(who, tuple) and len(who) == 2 and who[0] == "derefof" else who
    a = got.as_atom() if isinstance(got, (P, M)) else got
    exp = ("el", ("in", A), i)
    if a == exp:
        ck.rep.ok(ck.key("%s is asked of the contact of its own column" % c.nm), where)
    else:
        ck.yes("%s is asked of the contact of its own column" % c.nm, None if has_unk(got) or not (isinstance(a, tuple) and a[:2] == exp[:2]) else False, "asked of %s" % sh(got), where)


# ---------------------------------------------------------------- assembling
def assemble(rep, m):
    r = Run(m, "ImpactOperatorUtilities::computeN")
    ck = Check(rep, r)
    x = ck.one("evalgradg")
    if x:
        c, ctx = x
        L = loops(ctx)
        ck.yes("every contact's gradient is evaluated", True if len(L) == 1 and all(nonempty_only(k) for k in ifs(ctx)) else None, "context %s" % sh(ctx), c.where)
        if len(L) == 1:
            iv = L[0]
            full(ck, "the pass over the contacts", iv, [P.atom(("cols", tok("N"))), size("V")], c.where)
            receiver(ck, c, "V", P.atom(iv), c.where)
            ck.eq("gradient configuration", c.args[0], tok("q"), c.where)
            ck.eq("gradient column", c.args[1], P.atom(iv), c.where)
    r = Run(m, "ImpactOperatorUtilities::computeLCPQPLinearTerm")
    ck = Check(rep, r)
    ck.eq("linear term", r.out("linear_term"), linear_term())
    r = Run(m, "ImpactOperatorUtilities::evalKinematicRelativeVelocityN")
    ck = Check(rep, r)
    x = ck.one("evalKinematicNormalRelVel")
    if x:
        c, ctx = x
        L = loops(ctx)
        ck.yes("every contact's kinematic term is evaluated", True if len(L) == 1 and all(nonempty_only(k) for k in ifs(ctx)) else None, "context %s" % sh(ctx), c.where)
        if len(L) == 1:
            iv = L[0]
            full(ck, "the pass over the contacts", iv, [size("active_set")], c.where)
            receiver(ck, c, "active_set", P.atom(iv), c.where)
            ck.eq("configuration", c.args[0], tok("q"), c.where)
            ck.eq("entry", c.args[1], P.atom(iv), c.where)
    smooth_basis(rep, m)
    disk_basis(rep, m)
    kinematic(rep, m)


def linear_term():
    N, CoR = tok("N"), tok("CoR")
    base = N.T().mm(tok("v0")) + tok("nrel")
    return N.T().mm(tok("v0F")) + tok("nrel") + CoR.cwise(base)


def smooth_basis(rep, m):
    r = Run(m, "FrictionOperator::formGeneralizedSmoothFrictionBasis")
    ck = Check(rep, r)
    x = ck.one("computeGeneralizedFrictionGivenTangentSample")
    if not x:
        return
    c, ctx = x
    L = loops(ctx)
    ck.yes("every contact and tangent direction is visited", True if len(L) == 2 and all(nonempty_only(k) for k in ifs(ctx)) else None, "context %s" % sh(ctx), c.where)
    if len(L) != 2:
        return
    dims = P.atom(("rows", tok("bases")))
    ncs = [tokp("ncons"), size("K")]
    i, s = (L[0], L[1]) if L[0][3] in ncs or L[1][3] == dims - ONE else (L[1], L[0])
    full(ck, "the pass over the contacts", i, ncs, c.where)
    full(ck, "the pass over the tangent directions", s, [dims - ONE], c.where)
    receiver(ck, c, "K", P.atom(i), c.where)
    ck.eq("configuration", c.args[0], tok("q"), c.where)
    ck.eq("column", c.args[2], (dims - ONE) * P.atom(i) + P.atom(s), c.where)
    b = c.args[1].as_atom() if isinstance(c.args[1], M) else None
    if isinstance(b, tuple) and b[0] == "blkof" and b[1] == tok("bases"):
        ck.eq("tangent direction", b[3], dims * P.atom(i) + P.atom(s) + ONE, c.where)
        ck.eq("tangent direction's first row", b[2], ZERO, c.where)
    else:
        ck.yes("tangent direction", None, sh(c.args[1]), c.where)


def disk_basis(rep, m):
    for q, ns, D, K, q0, v0 in (("FrictionOperatorUtilities::formGeneralizedFrictionBasis", tokp("num_samples"), "D", "K", "q0", "v0"),
                                ("LinearMDPOperatorQL::formGeneralizedFrictionBasis", P.atom(("in", "this.m_disk_samples")), "D", "K", "q", "v"),
                                ("BoundConstrainedMDPOperatorQL::formGeneralizedFrictionBasis", ONE, "D", "K", "q", "v")):
        r = Run(m, q)
        ck = Check(rep, r)
        x = ck.one("computeGeneralizedFrictionDisk")
        if not x:
            continue
        c, ctx = x
        L = loops(ctx)
        ck.yes("every contact is visited", True if len(L) == 1 and all(nonempty_only(k) for k in ifs(ctx)) else None, "context %s" % sh(ctx), c.where)
        if len(L) != 1:
            continue
        iv = L[0]
        cols = P.atom(("cols", tok(D)))
        full(ck, "the pass over the contacts", iv, [P.atom(("idiv", cols, ns)) if ns != ONE else cols, size(K)], c.where)
        receiver(ck, c, K, P.atom(iv), c.where)
        ck.eq("configuration", c.args[0], tok(q0), c.where)
        ck.eq("velocity", c.args[1], tok(v0), c.where)
        ns2 = c.args[3]
        ck.eq("number of directions", ns2, ns, c.where)
        ck.eq("first column", c.args[2], ns * P.atom(iv), c.where)
    r = Run(m, "FrictionOperatorUtilities::formLinearFrictionDiskConstraint")
    ck = Check(rep, r)
    a = r.out("E").as_atom()
    if isinstance(a, tuple) and a[0] == "updm" and a[1] == tok("E") and len(a[2]) == 1:
        (row, col), val = a[2][0]
        ck.eq("entries", val, ONE)
        ivs = [y for y in atoms_in((row, col)) if y[0] == "iv"]
        ck.yes("entries of every contact's directions", True if len(ivs) == 2 else None, sh(ivs))
        c = col.as_atom()
        s = [y for y in ivs if y != c]
        if len(ivs) == 2 and c in ivs and len(s) == 1:
            full(ck, "the pass over the contacts", c, [P.atom(("cols", tok("E")))], r.where())
            full(ck, "the pass over the directions", s[0], [tokp("num_samples")], r.where())
            ck.eq("row of a direction", row, tokp("num_samples") * P.atom(c) + P.atom(s[0]))
        else:
            ck.yes("row of a direction", None, sh(a))
    else:
        ck.yes("entries", None, sh(a))


def atoms_in(x):
    acc = []

    def f(y):
        if isinstance(y, tuple) and y and isinstance(y[0], str) and y not in acc:
            acc.append(y)
        return False
    contains(x, f)
    return acc


def kinematic(rep, m):
    r = Run(m, "Constraint::evalKinematicRelVelGivenBases")
    ck = Check(rep, r)
    for nm, tang in (("nrel", False), ("drel", True)):
        a = r.out(nm).as_atom() if isinstance(r.out(nm), M) else None
        what = "kinematic %s velocities" % ("tangential" if tang else "normal")
        if not (isinstance(a, tuple) and a[0] == "updm" and len(a[2]) == 1 and isinstance(a[2][0][1], P)):
            ck.yes(what, None, sh(a))
            continue
        idx, val = a[2][0]
        w = [y for y in val.atoms() if isinstance(y, tuple) and y[0] == "wd"]
        if len(w) != 1 or len(val.t) != 1 or not isinstance(w[0][1], tuple):
            ck.yes(what, None, sh(val))
            continue
        ivs = [y for y in atoms_in(idx) if y[0] == "iv"]
        ck.eq("sign of the " + what, val, -P.atom(w[0]))
        word = [x[0] for x in w[0][1]] if isinstance(w[0][1][0], tuple) else None
        blk = next((x for x in word or [] if isinstance(x, tuple) and x[0] == "blkof"), None)
        vel = next((x for x in word or [] if isinstance(x, tuple) and x[0] == "in"), None)
        if blk is None or vel is None or len(word) != 2:
            ck.yes(what, None, sh(val))
            continue
        per = P.atom(("idiv", size("drel"), size("constraints")))
        outer = next((y for y in ivs if y[3] == size("constraints")), None)
        inner = next((y for y in ivs if y != outer), None)
        if outer is None:
            ck.yes(what, None, "loops %s" % sh(ivs))
            continue
        full(ck, "the pass over the contacts (%s)" % nm, outer, [size("constraints")], r.where())
        oi = P.atom(outer)
        ck.yes("%s come from the contact of their entry" % what, True if ("constraints(%s)" % sh(oi).strip("()")) in vel[1] and "(q),(v)" in vel[1] else None if has_unk(vel) else False, vel[1])
        dims = P.atom(("rows", tok("bases")))
        ck.eq(what + " use the contact's basis", blk[1], tok("bases"))
        if tang:
            if inner is None:
                ck.yes(what + " per direction", None, sh(ivs))
                continue
            full(ck, "the pass over the directions", inner, [per, dims - ONE], r.where())
            ii = P.atom(inner)
            ck.among("entry of the " + what, idx, [per * oi + ii, (dims - ONE) * oi + ii])
            ck.among("direction of the " + what, blk[3], [(per + ONE) * oi + ii + ONE, dims * oi + ii + ONE])
        else:
            ck.eq("entry of the " + what, idx, oi)
            ck.among("direction of the " + what, blk[3], [(per + ONE) * oi, dims * oi])


# ---------------------------------------------------------------- impact operators
def qp_sizes(ck, c, A):
    n = P.atom(("rows", tok("Q")))
    g = lambda k: c.args[QL[k]]
    ck.among("dimension", g("n"), [n, P.atom(("cols", tok("Q"))), size("alpha")], c.where)
    ck.eq("leading dimension", g("nmax"), g("n"), c.where)
    ck.eq("number of multipliers", g("mnn"), g("m") + g("n") * num(2), c.where)
    need = P.atom(("idiv", g("n") * g("n") * num(3), num(2))) + g("n") * num(10) + num(2) + g("mmax") + (g("m") if A else ZERO)
    for nm, s, least in (("war", "lwar", need), ("iwar", "liwar", g("n"))):
        a = g(nm).as_atom() if isinstance(g(nm), M) else None
        if isinstance(a, tuple) and a[0] == "fresh" and len(a) == 2:
            ck.eq("declared size of workspace %s" % nm, g(s), a[1], c.where)
        else:
            ck.yes("declared size of workspace %s" % nm, None, sh(g(nm)), c.where)
        d = g(s) - least
        ck.yes("workspace %s is large enough" % nm, True if d.is_const() and d.cval() >= 0 else False if d.is_const() else None, "%s against %s" % (sh(g(s)), sh(least)), c.where)
    a = g("u").as_atom() if isinstance(g("u"), M) else None
    if isinstance(a, tuple) and a[0] == "fresh":
        ck.eq("room for multipliers", a[1], g("mnn"), c.where)


def inf_vec(v):
    a = v.as_atom() if isinstance(v, M) else None
    return isinstance(a, tuple) and a[0] == "const" and isinstance(a[1], P) and len(list(a[1].atoms())) == 1 and list(a[1].atoms())[0][0] == "lim" and list(a[1].atoms())[0][2] in ("infinity", "max") and a[1] == P.atom(list(a[1].atoms())[0])


def zero_vec(v):
    a = v.as_atom() if isinstance(v, M) and v.t else None
    return isinstance(v, M) and not v.t or isinstance(a, tuple) and a and (a[0] in ("zeros", "zero") or a[0] == "const" and a[1] == ZERO)


def shaped(ck, what, v, f, where):
    ck.yes(what, True if f(v) else None if not known(v) else False, "found %s" % sh(v), where)


def warm(ck, what, v, name, where):
    ck.eq(what, v, tok(name), where)


def lcp(rep, m):
    lt = linear_term()
    r = Run(m, "LCPOperatorQL::flow")
    ck = Check(rep, r)
    x = ck.one("ql_")
    if x:
        c, ctx = x
        g = lambda k: c.args[QL[k]]
        ck.yes("the problem is always solved", True if not ctx else None, sh(ctx), c.where)
        ck.args(c, QL, dict(C=tok("Q"), d=lt, m=ZERO, me=ZERO, x=tok("alpha"), eps=tokp("this.m_tol")))
        shaped(ck, "impulses are bounded below by zero", g("xl"), zero_vec, c.where)
        shaped(ck, "impulses are not bounded above", g("xu"), inf_vec, c.where)
        qp_sizes(ck, c, False)
        ck.eq("impulses", r.out("alpha"), tok(c.tag + ".12"), c.where)
    r = Run(m, "LCPOperatorAPGD::flow", cut={"ProjectionSolvers::APGD"})
    ck = Check(rep, r)
    x = ck.one("APGD")
    if x:
        c, ctx = x
        ck.yes("the problem is always solved", True if not ctx else None, sh(ctx), c.where)
        ck.args(c, dict(tol=5, iters=6, Q=7, b=8, alpha=9), dict(tol=tokp("this.m_tol"), iters=tokp("this.m_max_iters"), Q=tok("Q"), b=lt, alpha=tok("alpha")))
        ck.eq("impulses", r.out("alpha"), tok(c.tag + ".9"), c.where)
    r = Run(m, "LCPOperatorIpopt::flow", unknown="m_alpha")
    ipopt(Check(rep, r), r, dict(m_Q=tok("Q"), m_A=lt), "alpha", True)
    r = Run(m, "LCPOperatorIpopt::solveQP", unknown="m_alpha")
    if r.fn:
        N = tok("N")
        ipopt(Check(rep, r), r, dict(m_Q=N.T().mm(tok("Minv")).mm(N), m_A=tok("b")), "alpha", None)


def ipopt(ck, r, exp, unknown, loop):
    if not r.problems:
        ck.yes("a problem is handed to the solver", None, "no call found")
        return
    vals, where = r.problems[-1]
    for k, v in exp.items():
        if k not in vals:
            ck.yes("problem's %s" % k, None, "not set", where)
        else:
            ck.eq("problem's %s" % k, vals[k], v, where)
    t = r.targets.get(r.unknown)
    ck.yes("the solver writes the caller's impulses", True if t == ("obj", unknown) else None if t is None else False, str(t), where)
    st = vals.get(r.unknown)
    if st is not None:
        ck.yes("every attempt starts from the initial impulses", True if st == tok(unknown) else None if not known(st) or contains(st, lambda y: isinstance(y, tuple) and y and y[0] == "carry") is False and loop is None else False, sh(st), where)


def gauss(rep, m):
    r = Run(m, "GaussSeidelOperator::flow")
    ck = Check(rep, r)
    x = ck.one("resolveImpact")
    if not x:
        return
    c, ctx = x
    L = loops(ctx)
    if len(L) < 2 or not L:
        ck.yes("sweeps over all contacts", None, sh(ctx), c.where)
        return
    iv = L[-1]
    full(ck, "a sweep", iv, [size("cons")], c.where)
    receiver(ck, c, "cons", P.atom(iv), c.where)
    ck.eq("restitution of the contact", c.args[0], P.atom(("el", ("in", "CoR"), P.atom(iv))), c.where)
    ck.eq("masses", c.args[1], tok("M"), c.where)
    v1 = c.args[3]
    nd = [k for k in ifs(ctx)]
    got = c.args[2].as_atom() if isinstance(c.args[2], P) else None
    nm = got[1] if isinstance(got, tuple) and len(got) == 2 and isinstance(got[1], str) else ""
    want_v = "evalNdotV(derefof<cons(%s)>,(q0),%s)" % (sh(P.atom(iv)).strip("()"), sh(v1, 400))
    ck.yes("approach velocity of the contact at the current velocity", True if nm == want_v else None if not nm.startswith("evalNdotV") else False, "%s, expected %s" % (nm, want_v), c.where)
    if len(nd) == 1 and got is not None:
        ck.eq("contacts approaching faster than the tolerance are resolved", nd[0], lt(P.atom(got) + tokp("this.m_v_tol")), c.where)
    else:
        ck.yes("contacts approaching faster than the tolerance are resolved", None, sh(nd), c.where)
    accumulate(ck, r, "alpha", c.tag.split("@")[0], 4, P.atom(iv), c.where)


def lt(p):
    return ("lt", p)


def accumulate(ck, r, name, nm, pos, idx, where):
    """the impulse of this call is added to the contact's entry"""
    ws = [w for w in r.writes if w[2][0] == "idx" and w[2][1] == ("obj", name) and isinstance(w[3], P)] if r.writes else []
    last = None
    for w in ws:
        a = [y for y in w[3].atoms() if isinstance(y, tuple) and len(y) == 2 and y[0] == "in" and isinstance(y[1], str) and y[1].startswith(nm + "@") and y[1].endswith(".%d" % pos)]
        if a:
            last = (w, a[0])
    if last is None:
        ck.yes("the impulse is added to the contact's total", None, "no write found", where)
        return
    w, a = last
    ck.eq("the impulse goes to its own contact", w[2][2], idx, where)
    co = w[3].coeff(a)
    ck.yes("the impulse is added once", True if co is not None and co[0] == ONE and not has_atom(co[1], a) else False, sh(w[3]), where)
    rest = co[1] if co else ZERO
    ck.yes("the impulse is added to what was there", True if rest != ZERO and len(rest.t) == 1 and list(rest.t.values()) == [1] else False if rest == ZERO else None, sh(rest), where)


def has_atom(v, a):
    return contains(v, lambda y: y == a)


def grr(rep, m):
    r = Run(m, "GRROperator::flow")
    ck = Check(rep, r)
    cs = r.named("flow")
    base = dict(A=("in", "cons"), M=tok("M"), Minv=tok("Minv"), q=tok("q0"), v=tok("v0"), v0F=tok("v0F"), N=tok("N"), Q=tok("Q"), nrel=tok("nrel"))
    c0 = P.atom(("el", ("in", "CoR"), ZERO))
    mixed = {}
    for c, ctx in cs:
        ck.args(c, IMPACT, base)
        f = sh(c.who)
        kind = "inelastic" if "m_inelastic" in f else "elastic" if "m_elastic" in f else None
        cor = c.args[IMPACT["CoR"]]
        if kind is None or loops(ctx):
            ck.yes("which operator", None, f, c.where)
            continue
        if cor == tok("CoR"):
            want_c = ("eq0", c0) if kind == "inelastic" else ("eq0", ONE - c0)
            ck.yes("%s operator used alone only at its own restitution" % kind, implied(ctx, want_c, c0), "under %s" % sh(ctx, 300), c.where)
            ck.eq("starting impulses", c.args[IMPACT["alpha"]], tok("alpha"), c.where)
        else:
            a = cor.as_atom() if isinstance(cor, M) and cor.t else None
            val = ZERO if zero_vec(cor) else a[1] if isinstance(a, tuple) and a[0] == "const" else None
            ck.yes("restitution given to the %s operator" % kind, True if val == (ZERO if kind == "inelastic" else ONE) else None if not known(cor) else False, sh(cor), c.where)
            shaped(ck, "%s solve starts from zero" % kind, c.args[IMPACT["alpha"]], zero_vec, c.where)
            mixed[kind] = tok("%s.%d" % (c.tag, IMPACT["alpha"]))
    ck.yes("both solves are blended", True if len(mixed) == 2 else None, str(list(mixed)))
    if len(mixed) == 2:
        v = r.out("alpha")
        want = mixed["inelastic"].scale(ONE - c0) + mixed["elastic"].scale(c0)
        leaves = []
        split(v, leaves)
        ck.yes("blend", True if want in leaves else None if not all(known(x) for x in leaves) else False, "found %s, expected %s" % (sh(v, 300), sh(want)))


def split(v, out):
    a = v.as_atom() if isinstance(v, (M, P)) and v.t else None
    if isinstance(a, tuple) and a and a[0] == "phi":
        split(a[2], out)
        split(a[3], out)
    else:
        out.append(v)


def implied(ctx, c, x):
    """the call only runs where c holds; x is the only unknown of the conditions: decide by the values 0, 1 and one in between"""
    from fractions import Fraction
    want = {("eq0", x): num(0), ("eq0", ONE - x): ONE}[c]
    run_at = []
    for v in (num(0), ONE, num(Fraction(1, 2))):
        t = True
        for k in ifs(ctx):
            e = ev(k, x, v)
            if e is None:
                return None
            t = t and e
        if t:
            run_at.append(v)
    return run_at == [want]


def ev(c, x, v):
    if isinstance(c, bool):
        return c
    if not isinstance(c, tuple):
        return None
    if c[0] == "not":
        e = ev(c[1], x, v)
        return None if e is None else not e
    if c[0] in ("and", "or"):
        es = [ev(k, x, v) for k in c[1]]
        if c[0] == "and":
            return False if False in es else None if None in es else True
        return True if True in es else None if None in es else False
    if c[0] in ("eq0", "lt", "le") and isinstance(c[1], P):
        a = x.as_atom()
        p = subst(c[1], lambda y: v if y == a else None)
        if not p.is_const():
            return None
        k = p.cval()
        return k == 0 if c[0] == "eq0" else k < 0 if c[0] == "lt" else k <= 0
    return None


def gr(rep, m):
    r = Run(m, "GROperator::flow", cut={"MathUtilities::extractColumns"})
    ck = Check(rep, r)
    x = ck.one("flow")
    e = ck.one("extractColumns")
    if not x or not e:
        return
    c, ctx = x
    ec = e[0]
    Nl = tok("%s.2" % ec.tag)
    ck.eq("columns are taken from the contacts' gradients", ec.args[0], tok("N"), ec.where)
    ck.args(c, IMPACT, dict(M=tok("M"), Minv=tok("Minv"), q=tok("q0"), N=Nl, Q=Nl.T().mm(tok("Minv")).mm(Nl)))
    ck.eq("both velocities are the current one", c.args[IMPACT["v"]], c.args[IMPACT["v0F"]], c.where)
    shaped(ck, "sub-problem starts from zero", c.args[IMPACT["alpha"]], zero_vec, c.where)
    maps = []
    for role, src in (("nrel", "nrel"), ("CoR", "CoR")):
        a = c.args[IMPACT[role]].as_atom() if isinstance(c.args[IMPACT[role]], M) else None
        if not (isinstance(a, tuple) and a[0] == "updm" and len(a[2]) == 1 and isinstance(a[2][0][1], P)):
            ck.yes("sub-problem's %s" % role, None, sh(a), c.where)
            continue
        idx, val = a[2][0]
        v = val.as_atom()
        if isinstance(v, tuple) and v[0] == "el" and v[1] == ("in", src) and isinstance(v[2], P):
            maps.append(v[2])
            ck.yes("sub-problem's %s is gathered from the same list" % role, True, "", c.where)
        else:
            ck.yes("sub-problem's %s is gathered from the same list" % role, None if not isinstance(v, tuple) or v[0] != "el" or not isinstance(v[1], tuple) or v[1][0] != "in" else False, sh(val), c.where)
    # scatter: each sub-problem impulse goes back to the contact its data came from
    tag = "flow@"
    ws = [w for w in r.writes if w[2][0] == "idx" and w[2][1] == ("obj", "alpha") and isinstance(w[3], P)]
    hit = None
    for w in ws:
        for y in w[3].atoms():
            if isinstance(y, tuple) and y[0] == "el" and isinstance(y[1], tuple) and y[1][0] == "in" and isinstance(y[1][1], str) and y[1][1].startswith(tag) and y[1][1].endswith(".10"):
                hit = (w, y)
    if hit is None:
        ck.yes("sub-problem impulses are added back", None, "no write found")
        return
    w, y = hit
    co = w[3].coeff(y)
    ck.yes("sub-problem impulses are added once", True if co and co[0] == ONE else False, sh(w[3]))
    ck.yes("sub-problem impulses are accumulated", False if co and co[1] == ZERO else True, sh(w[3]))
    if maps:
        a = maps[0].as_atom()
        b = w[2][2].as_atom() if isinstance(w[2][2], P) else None
        same = isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "el" and b[0] == "el" and isinstance(b[2], P) and b[2] == y[2]
        ck.yes("sub-problem impulses go back to the contacts they were solved for", True if same else False if isinstance(b, tuple) and b[0] == "iv" else None, "index %s for local %s" % (sh(w[2][2]), sh(y[2])))
    # velocity of the next round
    vs = [w for w in r.writes if w[2][0] == "var" and isinstance(w[3], M) and w[3].t and any(("in", "Minv") in [k[0] for k in wd] for wd in w[3].t) and has_atom(w[3], ("in", "v0F"))]
    ck.yes("velocity after each round is recomputed from the total impulses", True if vs and velocity_ok(vs[-1][3]) else None, sh(vs[-1][3]) if vs else "no write found")


def velocity_ok(v):
    rest = v - tok("v0F")
    return len(rest.t) == 1 and [k[0] for k in list(rest.t)[0]][:2] == [("in", "Minv"), ("in", "N")] and list(rest.t.values())[0] == ONE


# ---------------------------------------------------------------- friction operators
def mdp(rep, m):
    D, mu, al = tok("D"), tok("mu"), tok("alpha")
    lin = D.T().mm(tok("v0")) + tok("gdotD")
    bound = mu.cwise(al)
    r = Run(m, "BoundConstrainedMDPOperatorQL::flow")
    ck = Check(rep, r)
    x = ck.one("ql_")
    if x:
        c, ctx = x
        ck.yes("the problem is always solved", True if not ctx else None, sh(ctx), c.where)
        ck.args(c, QL, dict(C=tok("Q"), d=lin, m=ZERO, me=ZERO, x=tok("beta"), eps=tokp("this.m_tol"), xl=-bound, xu=bound))
        qp_sizes(ck, c, False)
        ck.eq("friction impulses", r.out("beta"), tok(c.tag + ".12"), c.where)
    r = Run(m, "LinearMDPOperatorQL::flow")
    ck = Check(rep, r)
    x = ck.one("ql_")
    if x:
        c, ctx = x
        g = lambda k: c.args[QL[k]]
        ck.yes("the problem is always solved", True if not ctx else None, sh(ctx), c.where)
        ck.args(c, QL, dict(C=tok("Q"), d=lin, me=ZERO, x=tok("beta"), eps=tokp("this.m_tol"), b=bound))
        shaped(ck, "impulses are bounded below by zero", g("xl"), zero_vec, c.where)
        shaped(ck, "impulses are not bounded above", g("xu"), inf_vec, c.where)
        # total of a contact's directions is limited: -E' beta + b >= 0
        neg = (-g("A")).T() if isinstance(g("A"), M) else None
        a = neg.as_atom() if neg is not None else None
        if isinstance(a, tuple) and a[0] == "updm" and len(a[2]) == 1:
            (row, col), val = a[2][0]
            ck.eq("limit sums a contact's impulses", val, ONE, c.where)
            i = col.as_atom()
            s = [y for y in atoms_in(row) if y[0] == "iv" and y != i]
            if len(s) == 1:
                ds = P.atom(("in", "this.m_disk_samples"))
                full(ck, "the limits", i, [size("alpha")], c.where)
                full(ck, "the directions of a limit", s[0], [ds], c.where)
                ck.eq("direction of a limit", row, ds * P.atom(i) + P.atom(s[0]), c.where)
            else:
                ck.yes("direction of a limit", None, sh(a), c.where)
        else:
            ck.yes("limit sums a contact's impulses", None if not known(g("A")) or a is None else False, sh(g("A")), c.where)
        mm = [P.atom(("size", bound)), size("alpha"), size("mu")]
        ck.among("number of limits", g("m"), mm, c.where)
        qp_sizes(ck, c, True)
        ck.eq("friction impulses", r.out("beta"), tok(c.tag + ".12"), c.where)
    sq = bound.cwise(bound)
    r = Run(m, "SmoothMDPOperatorIpopt::flow", unknown="m_beta")
    ipopt(Check(rep, r), r, dict(m_Q=tok("Q"), m_A=lin, m_C=bound.cwise(bound)), "beta", True)


# ---------------------------------------------------------------- callbacks of the interior point solver
def callbacks(rep, m):
    N = {"n": None}
    n, mm = tokp("n"), tokp("m")
    x = tok("x")
    Q, A = tok("this.m_Q"), tok("this.m_A")
    half = ONE / num(2)
    for cls, dual, unk_ in (("QPNLP", True, "m_alpha"), ("SmoothMDPNLP", False, "m_beta")):
        r = Run(m, cls + "::eval_f", args={"x": n})
        ck = Check(rep, r)
        ck.eq("objective", r.out("obj_value", "double"), x.T().mm(Q).mm(x).scalar() * half + A.T().mm(x).scalar())
        r = Run(m, cls + "::eval_grad_f", args={"x": n, "grad_f": n})
        Check(rep, r).eq("gradient is the derivative of the objective", r.out("grad_f"), Q.mm(x) + A)
        r = Run(m, cls + "::get_bounds_info", args={"x_l": n, "x_u": n, "g_l": mm, "g_u": mm})
        ck = Check(rep, r)
        big = lambda s: lambda v: (lambda a: isinstance(a, tuple) and a[0] == "const" and a[1].is_const() and s * a[1].cval() >= 10 ** 19)(v.as_atom() if isinstance(v, M) and v.t else None)
        if dual:
            shaped(ck, "impulses are bounded below by zero", r.out("x_l"), zero_vec, r.where())
            shaped(ck, "impulses are not bounded above", r.out("x_u"), big(1), r.where())
        else:
            shaped(ck, "impulses are not bounded below", r.out("x_l"), big(-1), r.where())
            shaped(ck, "impulses are not bounded above", r.out("x_u"), big(1), r.where())
            shaped(ck, "constraints are not bounded below", r.out("g_l"), big(-1), r.where())
            ck.eq("constraint limits", r.out("g_u"), tok("this.m_C"))
        r = Run(m, cls + "::get_starting_point", args={"x": n, "z_L": n, "z_U": n, "lambda": mm}, decide=lambda p, st, c: True if c in (("bool", ("in", "init_x")), ("bool", ("in", "init_z"))) else None)
        ck = Check(rep, r)
        ck.eq("starting point", r.out("x"), tok("this." + unk_))
        if dual:
            ck.eq("starting multipliers", r.out("z_L"), A + Q.mm(tok("this." + unk_)))
        r = Run(m, cls + "::finalize_solution", args={"x": n, "z_L": n, "z_U": n, "g": mm, "lambda": mm})
        ck = Check(rep, r)
        l = ("fld", T, unk_)
        v = r.s.store.get(("deref", l), r.s.store.get(l))
        if v is None:
            ck.yes("solution", None, "no write found")
        else:
            ck.eq("solution", v, x)
        ck.eq("status", r.s.store.get(("fld", T, "m_solve_return_status"), ("none",)), ("in", "status"))
    r = Run(m, "SmoothMDPNLP::eval_g", args={"x": n, "g": mm})
    ck = Check(rep, r)
    ks = [(k, v) for k, v in r.s.store.items() if k[0] == "idx" and k[1] == ("obj", "g")]
    if len(ks) == 1 and isinstance(ks[0][0][2], P) and isinstance(ks[0][0][2].as_atom(), tuple) and ks[0][0][2].as_atom()[0] == "iv":
        iv = ks[0][0][2].as_atom()
        full(ck, "constraints", iv, [mm], r.where())
        i = P.atom(iv)
        e = lambda k: P.atom(("el", ("in", "x"), i * num(2) + num(k)))
        ck.eq("squared length of a contact's friction impulse", ks[0][1], e(0) * e(0) + e(1) * e(1))
    else:
        ck.yes("squared length of a contact's friction impulse", None, sh(ks))
    r = Run(m, "SmoothMDPNLP::eval_jac_g", args={"x": tokp("nele_jac"), "values": tokp("nele_jac")})
    Check(rep, r).eq("derivatives of the constraints", r.out("values"), x.scale(num(2)))
    r = Run(m, "SmoothMDPNLP::eval_h", args={"x": n, "lambda": mm, "values": tokp("nele_hess")})
    ck = Check(rep, r)
    ks = [(k, v) for k, v in r.s.store.items() if k[0] == "idx" and k[1] in (("dat", ("obj", "values"), "data"), ("obj", "values")) and isinstance(v, P)]
    seen = set()
    for k, v in ks:
        a = k[2].as_atom() if isinstance(k[2], P) else None
        if not (isinstance(a, tuple) and a[0] == "el" and "m_diagonal" in sh(a)):
            continue
        iv = next((y for y in atoms_in(a[2]) if y[0] == "iv"), None)
        if iv is None:
            continue
        off = a[2] - P.atom(iv) * num(2)
        lam = P.atom(("el", ("in", "lambda"), P.atom(iv)))
        co = v.coeff(lam.as_atom())
        if off.is_const():
            seen.add(off.cval())
        ck.yes("curvature of a constraint in direction %s" % sh(off), True if off.is_const() and co and co[0] == num(2) else False if off.is_const() and (co is None or co[0].is_const()) else None, sh(v))
    ck.yes("curvature of both directions", True if seen == {0, 1} else None, str(seen))


# ---------------------------------------------------------------- coupled solvers
def staggered(rep, m):
    q = "StaggeredProjections::solve"
    r = Run(m, q, {"FrictionOperator::formGeneralizedSmoothFrictionBasis", "ImpactOperatorUtilities::computeN"})
    ck = Check(rep, r)
    d, k, e = ck.one("formGeneralizedSmoothFrictionBasis"), ck.one("computeN"), ck.one("evalKinematicRelVelGivenBases")
    if not (d and k and e):
        return
    D, N = tok(d[0].tag + ".5"), tok(k[0].tag + ".3")
    nrel, drel = tok(e[0].tag + ".4"), tok(e[0].tag + ".5")
    common(ck, d[0], k[0], e[0])
    Minv, v0 = tok("Minv"), tok("v0")
    for nm, pos, exp in (("flattenMass", 0, [tok("M")]), ("initialize", 0, [("in", "active_set"), tok("contact_bases"), None, tok("q0"), v0, tok("CoR"), tok("mu"), nrel, drel])):
        for c, ctx in r.named(nm):
            for i, x in enumerate(exp):
                if x is not None:
                    ck.eq("argument %d of the error measure's %s" % (i, nm), c.args[i], x, c.where)
    imp = [(c, ctx) for c, ctx in r.calls if c.name == "ImpactOperator::flow"]
    fri = [(c, ctx) for c, ctx in r.calls if c.name == "FrictionOperator::flow"]
    ck.yes("one impact and one friction solve per round and a final impact solve", True if len(imp) == 2 and len(fri) == 1 else None, "%d impact, %d friction" % (len(imp), len(fri)))
    QN = N.T().mm(Minv).mm(N)
    for c, ctx in imp:
        ck.args(c, IMPACT, dict(A=("in", "active_set"), M=tok("M"), Minv=Minv, q=tok("q0"), v=v0, N=N, Q=QN, nrel=nrel, CoR=tok("CoR")))
        rest = c.args[IMPACT["v0F"]] - v0
        ok = len(rest.t) >= 1 and all(w and w[0] == (("in", "Minv"), False) and len(w) == 2 and cf == ONE for w, cf in rest.t.items())
        ck.yes("impact solve sees the friction impulses of the last round", True if ok and len(rest.t) == 1 else None if not known(rest) else False, sh(c.args[IMPACT["v0F"]], 300), c.where)
        warm_start(ck, c.args[IMPACT["alpha"]], "m_warm_start_alpha", c.where)
    for c, ctx in fri:
        prev = imp[0][0]
        al = c.args[FRIC["alpha"]]
        a = al.as_atom() if isinstance(al, M) else None
        isflow = isinstance(a, tuple) and a[0] == "in" and str(a[1]).startswith("flow@") and str(a[1]).endswith(".10")
        ck.yes("friction is limited by this round's normal impulses", True if isflow else None if not known(al) else False, sh(al), c.where)
        ck.args(c, FRIC, dict(t=tokp("iteration") * tokp("dt"), Minv=Minv, D=D, Q=D.T().mm(Minv).mm(D), drel=drel, mu=tok("mu")))
        ck.eq("friction solve sees this round's normal impulses", c.args[FRIC["v0"]], v0 + Minv.mm(N).mm(al), c.where)
        warm_start(ck, c.args[FRIC["beta"]], "m_warm_start_beta", c.where)


NC = P.atom(("in", "ncontacts"))


class Sizes(dict):
    """lengths of the impulse vectors of a problem with k tangential directions per contact"""

    def __init__(self, k):
        self.k = k

    def __bool__(self):
        return True

    def __getitem__(self, x):
        if x == "contact_bases":
            return num(self.k + 1)
        if x == "alpha" or x.startswith("flow@") and x.endswith(".10"):
            return NC
        if x == "beta" or x.startswith("flow@") and x.endswith(".8"):
            return NC * num(self.k)
        return None

    def __contains__(self, x):
        return self[x] is not None


class Rounds(Run):
    """staggered projections with two rounds allowed; values gives the order of the errors, the tolerance and infinity"""

    def __init__(self, m, q, k, values, warm_a, warm_b):
        self.errs, self.values, self.k = {}, dict(values), k
        Run.__init__(self, m, q, {"FrictionOperator::formGeneralizedSmoothFrictionBasis", "ImpactOperatorUtilities::computeN"}, decide=self.order,
                     fields={"m_warm_start_alpha": warm_a, "m_warm_start_beta": warm_b}, extra={"SobogusFrictionProblem::computeError": self.error})

    @staticmethod
    def error(p, st, n, f, obj, args):
        v = p.I.eval(st, args[0])
        i = p.errs.setdefault(v, len(p.errs))
        st.ev.append(("api", f["q"], None, (v,), p.I.where(n), "error%d" % i, None))
        return tokp("error%d" % i)

    def run(self, fn, st=None, args=None):
        self.I.sizes = Sizes(self.k)
        return Proto.run(self, fn, st=st, args=[("val", num(2)) if pr["n"] == "max_iters" else ("loc", ("obj", pr["n"])) for pr in fn.params])

    def order(self, p, st, c):
        if isinstance(c, bool):
            return c
        if not isinstance(c, tuple):
            return None
        if c[0] == "not":
            e = self.order(p, st, c[1])
            return None if e is None else not e
        if c[0] in ("and", "or"):
            es = [self.order(p, st, x) for x in c[1]]
            if c[0] == "and":
                return False if False in es else None if None in es else True
            return True if True in es else None if None in es else False
        if c[0] in ("eq0", "lt", "le") and isinstance(c[1], P):
            def val(y):
                if isinstance(y, tuple) and len(y) == 2 and y[0] == "in" and y[1] in self.values:
                    return num(self.values[y[1]])
                if isinstance(y, tuple) and len(y) == 3 and y[0] == "lim" and y[2] in ("infinity", "max"):
                    return num(10 ** 6)
                return None
            x = subst(c[1], val)
            if not x.is_const():
                return None
            x = x.cval()
            return x == 0 if c[0] == "eq0" else x < 0 if c[0] == "lt" else x <= 0
        return None


ORDERS = [("the first round converges", (1, 0, 0), 1, 0), ("the second round converges", (3, 1, 0), 2, 1), ("both fail, the second is better", (5, 4, 0), 2, 1), ("both fail, the first is better", (4, 5, 0), 2, 0)]


def rounds(rep, m):
    q = "StaggeredProjections::solve"
    N, D, Minv, v0 = tok("computeN@1.3"), tok("formGeneralizedSmoothFrictionBasis@1.5"), tok("Minv"), tok("v0")
    for k in (1, 2):
        for wa, wb in ((True, True), (False, False), (True, False), (False, True)):
            for name, (e0, e1, _), n, pick in ORDERS:
                for last in (1, 7):
                    r = Rounds(m, q, k, {"tol": 2, "error0": e0, "error1": e1, "error%d" % n: last}, wa, wb)
                    ck = Check(rep, r, "%s in %dD, warm starts %d%d, %s, final error %s" % (q, k + 1, wa, wb, name, "accepted" if last == 1 else "too large"))
                    one_run(ck, r, n, pick, last == 1, k, wa, wb, N, D, Minv, v0)


def force(ck, got, al, be, k, where):
    """the per-contact forces whose error is measured are those of the given impulses"""
    what = "error is measured for this round's impulses"
    a = got.as_atom() if isinstance(got, M) and got.t else None
    if not (isinstance(a, tuple) and a[0] == "updm" and zero_vec(a[1])):
        ck.yes(what, None, sh(got, 300), where)
        return
    ivs = {y for i, v in a[2] for y in atoms_in(i) if isinstance(y, tuple) and y[0] == "iv"}
    if len(ivs) != 1:
        ck.yes(what, None, sh(got, 300), where)
        return
    i = P.atom(next(iter(ivs)))
    d = k + 1
    B = tok("contact_bases")
    exp = {}
    for c in range(d):
        e = al.el(i) * B.el((num(c), num(d) * i))
        for s in range(k):
            e = e + be.el(num(k) * i + num(s)) * B.el((num(c), num(d) * i + num(s + 1)))
        exp[num(d) * i + num(c)] = e
    ck.eq(what, dict(a[2]) == exp or sh(a[2], 500), True, where)
    iv = next(iter(ivs))
    ck.eq("error is measured over all contacts", (iv[2], iv[3]), (ZERO, NC), where)


def one_run(ck, r, n, pick, ok, k, wa, wb, N, D, Minv, v0):
    seq = [c for c, ctx in r.calls if c.name in FLOW or c.nm == "computeError"]
    if any(ctx and (c.name in FLOW or c.nm == "computeError") for c, ctx in r.calls):
        ck.yes("sequence of solves", None, "conditional solves")
        return
    kinds = "".join("E" if c.nm == "computeError" else "I" if c.name.startswith("Impact") else "F" for c in seq)
    rounds_ = "".join(x for x in kinds if x != "E")
    ck.yes("impact and friction solves alternate, the solve stops in the round that meets the tolerance, and a last impact solve follows", rounds_ == "IF" * n + "I", "solves: %s" % rounds_)
    if rounds_ != "IF" * n + "I":
        return
    if kinds != "IFE" * n + "IE":
        ck.yes("errors are measured after each round", None, kinds)
        return
    al, be, f = tok("alpha"), tok("beta"), tok("f")
    done = []
    def impact(c, al, f):
        ck.eq("impact solve sees the friction impulses of the last round", c.args[IMPACT["v0F"]], v0 + Minv.mm(f), c.where)
        start(ck, "normal impulses", c.args[IMPACT["alpha"]], al, wa, c.where)
        return tok(c.tag + ".10")
    for j in range(n):
        i, fr, e = seq[3 * j:3 * j + 3]
        al = impact(i, al, f)
        ck.eq("friction is limited by this round's normal impulses", fr.args[FRIC["alpha"]], al, fr.where)
        ck.eq("friction solve sees this round's normal impulses", fr.args[FRIC["v0"]], v0 + Minv.mm(N).mm(al), fr.where)
        start(ck, "friction impulses", fr.args[FRIC["beta"]], be, wb, fr.where)
        be = tok(fr.tag + ".8")
        f = D.mm(be)
        force(ck, e.args[0], al, be, k, e.where)
        done.append((al, be))
    al, be = done[pick]
    f = D.mm(be)
    al = impact(seq[-2], al, f)
    force(ck, seq[-1].args[0], al, be, k, seq[-1].where)
    ck.eq("returned normal impulses are those of the final impact solve", r.out("alpha"), al)
    ck.eq("returned friction impulses are those of the chosen round", r.out("beta"), be)
    ck.eq("outgoing velocity is the incoming one plus both impulses", r.out("vout"), v0 + Minv.mm(N).mm(al) + Minv.mm(f))
    ck.eq("reported error is that of the returned impulses", r.out("error", "double"), tokp("error%d" % n))
    b = r.out("solve_succeeded", "bool")
    d = r.order(r, None, b)
    ck.yes("success means the error is within tolerance", None if d is None else d == ok, sh(b))


def start(ck, what, got, prev, warm_, where):
    if warm_:
        ck.eq("%s start from the previous ones" % what, got, prev, where)
    else:
        shaped(ck, "%s start from zero" % what, got, zero_vec, where)


def warm_start(ck, v, flag, where):
    a = v.as_atom() if isinstance(v, M) and v.t else None
    if isinstance(a, tuple) and a[0] == "phi" and flag in sh(a[1]):
        c, x, y = a[1], a[2], a[3]
        if isinstance(c, tuple) and c[0] == "not":
            c, x, y = c[1], y, x
        ck.yes("impulses are reset unless warm starting (%s)" % flag, True if zero_vec(y) and not zero_vec(x) else False, sh(v), where)
    else:
        ck.yes("impulses are reset unless warm starting (%s)" % flag, None if not known(v) else False, sh(v), where)


def common(ck, d, k, e):
    A, B = ("in", "active_set"), tok("contact_bases")
    if d is not None:
        ck.args(d, dict(ndofs=0, ncons=1, q=2, A=3, bases=4), dict(ndofs=("any", size("v0"), size("q0")), ncons=("any", size("alpha"), P.atom(("size", A)), size("mu"), size("CoR")), q=tok("q0"), A=A, bases=B))
    ck.args(k, dict(A=1, q=2), dict(A=A, q=tok("q0")))
    ck.args(e, dict(q=0, v=1, A=2, bases=3), dict(q=tok("q0"), v=tok("v0"), A=A, bases=B))


def grr_friction(rep, m):
    q = "GRRFriction::solve"
    for lin in (False, True):
        r = Run(m, q, cut={"FrictionOperator::formGeneralizedSmoothFrictionBasis", "ImpactOperatorUtilities::computeN", "FrictionOperator::formGeneralizedFrictionBasis"},
                extra={"FrictionOperator::isLinearized": lambda p, st, n, f, o, a, lin=lin: lin})
        ck = Check(rep, r, q + (" (linearised)" if lin else " (smooth)"))
        k, e = ck.one("computeN"), ck.one("evalKinematicRelVelGivenBases")
        d = ck.one("formGeneralizedFrictionBasis" if lin else "formGeneralizedSmoothFrictionBasis")
        if not (d and k and e):
            continue
        common(ck, None if lin else d[0], k[0], e[0])
        N, nrel = tok(k[0].tag + ".3"), tok(e[0].tag + ".4")
        if lin:
            ck.args(d[0], dict(q=0, v=1, A=2), dict(q=tok("q0"), v=tok("v0"), A=("in", "active_set")))
            D, drel = tok(d[0].tag + ".3"), tok(d[0].tag + ".4")
        else:
            D, drel = tok(d[0].tag + ".5"), tok(e[0].tag + ".5")
        Minv, v0 = tok("Minv"), tok("v0")
        imp = [c for c, ctx in r.calls if c.name == "ImpactOperator::flow"]
        fri = [c for c, ctx in r.calls if c.name == "FrictionOperator::flow"]
        if len(imp) != 1 or len(fri) != 1:
            ck.yes("one impact and one friction solve", None, "%d, %d" % (len(imp), len(fri)))
            continue
        i, f = imp[0], fri[0]
        ck.args(i, IMPACT, dict(A=("in", "active_set"), M=tok("M"), Minv=Minv, q=tok("q0"), v=v0, v0F=v0, N=N, Q=N.T().mm(Minv).mm(N), nrel=nrel, CoR=tok("CoR")))
        shaped(ck, "impact solve starts from zero", i.args[IMPACT["alpha"]], zero_vec, i.where)
        al = tok(i.tag + ".10")
        ck.args(f, FRIC, dict(t=tokp("iteration") * tokp("dt"), Minv=Minv, v0=v0 + Minv.mm(N).mm(al), D=D, Q=D.T().mm(Minv).mm(D), drel=drel, mu=tok("mu"), alpha=al))
        shaped(ck, "friction solve starts from zero", f.args[FRIC["beta"]], zero_vec, f.where)
        be = tok(f.tag + ".8")
        ck.eq("normal impulses", r.out("alpha"), al)
        ck.eq("friction impulses", r.out("beta"), be)
        ck.eq("outgoing velocity is the incoming one plus both impulses", r.out("vout"), v0 + Minv.mm(N).mm(al) + Minv.mm(D).mm(be))


def measures(rep, m):
    """what the iterative solvers stop on, and the projection they use"""
    def over(v):
        """(largest over all entries of f, f, loop variable)"""
        a = v.as_atom() if isinstance(v, P) and v.t else None
        if isinstance(a, tuple) and a[0] == "max" and len(a[1]) == 2 and ZERO in a[1]:
            b = next(x for x in a[1] if x != ZERO).as_atom()
            if isinstance(b, tuple) and b[0] == "maxover":
                return b[1], b[2]
        return None
    for q, f in (("MinMapImpact::operator()", lambda x, y: absp(minmax("min", x, y))), ("FischerBurmeisterImpact::operator()", lambda x, y: absp(sqrt(x * x + y * y) - x - y))):
        r = Run(m, q)
        ck = Check(rep, r)
        o = over(r.v)
        what = "residual is the largest violation of complementarity over all contacts"
        if o is None:
            ck.yes(what, None, sh(r.v, 300))
            continue
        iv, e = o
        i = P.atom(iv)
        a, g = (tok(x["n"]) for x in r.fn.params)
        ck.eq(what, e, f(a.el(i), g.el(i)))
        full(ck, what, iv, [P.atom(("size", a)), P.atom(("size", g))], r.where())
    r = Run(m, "NonNegativeProjection::operator()")
    ck = Check(rep, r)
    x = tok(r.fn.params[0]["n"])
    v = r.out(r.fn.params[0]["n"])
    a = v.as_atom() if isinstance(v, M) and v.t else None
    what = "projection clamps every entry at zero"
    if isinstance(a, tuple) and a[0] == "updm" and a[1] == x and len(a[2]) == 1:
        i, e = a[2][0]
        ck.eq(what, e, minmax("max", ZERO, x.el(i)))
        iv = i.as_atom() if isinstance(i, P) else None
        if isinstance(iv, tuple) and iv[0] == "iv":
            full(ck, what, iv, [P.atom(("size", x))], r.where())
    else:
        ck.eq(what, v, M.atom(("cwmax", frozenset((x, ZERO)))))


def absp(p):
    from ..alg import canon_sign
    return P.atom(("abs", canon_sign(p)))


GROUPS = dict(measures=measures, assemble=assemble, lcp=lcp, gauss=gauss, grr=grr, gr=gr, mdp=mdp, callbacks=callbacks, staggered=staggered, rounds=rounds, grr_friction=grr_friction)


from .p12s import SOBOGUS  # noqa: E402
GROUPS.update(SOBOGUS)


def analyse(rep, name):
    m = next(x for x in models() if x.domain == "ball2d")
    GROUPS[name](rep, m)


def run(tier):
    rep = Report("P12", RULE, ["the numerical solvers themselves are outside the analysis", "callers respect the size contracts asserted by the code"])
    par.each(rep, list(GROUPS), analyse, budget=300, name=str)
    return rep
