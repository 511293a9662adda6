"""P12, continued: the coupled impact and friction problem given to the Sobogus solver."""
from .p12 import *
from ..ai import vals_of

#        ambient dimension, velocity entries per body, configuration entries per body
KINDS = {"Balls2D": (2, 2, 2), "RigidBody2D": (2, 3, 3), "RigidBodies3D": (3, 6, 12)}
SFP = "SobogusFrictionProblem"


class SRun(Run):
    def __init__(self, m, q, kind, pick=None):
        self.starts, self.ends = {}, []
        Run.__init__(self, m, q, fields={"m_solver_type": ("enumc", "SobogusSolverType::" + kind)}, pick=pick)

    def run(self, *a, **k):
        self.I.hooks["loop_enter"] = lambda I, st, iv: self.starts.setdefault(iv, dict(st.store))
        self.I.hooks["loop_exit"] = lambda I, st, end, iv: self.ends.append((iv, end, self.starts.pop(iv, {})))
        return Run.run(self, *a, **k)

    def wanted(self, f):
        q = f["q"]
        if q == "FlowableSystem::numBodies":
            return True
        return q != self.q and ("SobogusInterface" in q or q.startswith("Constraint::") or self.q == "Sobogus::solve" and q.startswith(SFP + "::"))


def ups(v):
    """(base, {index: value}) of an array filled entry by entry"""
    a = v.as_atom() if isinstance(v, M) and v.t else None
    if isinstance(a, tuple) and a[0] == "updm":
        d = {}
        for i, x in a[2]:
            d[i] = x
        return a[1], d
    return None, None


def the_iv(d):
    s = set()
    for i, x in d.items():
        for y in (i if isinstance(i, tuple) else (i,)):
            s |= {z for z in atoms_in(y) if isinstance(z, tuple) and z[0] == "iv"}
    return next(iter(s)) if len(s) == 1 else None


def filled(ck, what, v, n, exp, where, base=None, ranges=None):
    """v is filled for every i below n with exp(i); exp maps index to value (or a tuple of acceptable values)"""
    b, d = ups(v)
    if d is None:
        ck.yes(what, None if not isinstance(v, M) or not known(v) or not v.t or len(v.t) != 1 else None, sh(v, 300), where)
        return None
    iv = the_iv(d)
    if iv is None:
        ck.yes(what, None, sh(v, 300), where)
        return None
    e = exp(P.atom(iv))
    bad = [(i, d.get(i)) for i in list(e) + [k for k in d if k not in e] if i not in e or i not in d or (d[i] not in e[i] if isinstance(e[i], tuple) else d[i] != e[i])]
    vague = any(x is not None and has_unk(x) for _, x in bad) and not getattr(ck, "opaque_ok", False)
    ck.yes(what, True if not bad else None if vague else False, "; ".join("entry %s is %s, expected %s" % (sh(i), sh(x, 200), sh(e.get(i), 200)) for i, x in bad[:2]), where)
    if iv[2] != ZERO or iv[3] not in n:
        short = iv[2] != ZERO or any((iv[3] - c).is_const() for c in n)
        ck.yes(what + ", for all of them", False if short else None, "from %s to %s" % (sh(iv[2]), sh(iv[3])), where)
    else:
        ck.yes(what + ", for all of them", True, "", where)
    if base is not None:
        ck.yes(what + ", everything else unchanged", base(b), sh(b, 200), where)
    return P.atom(iv)


def at(v, r, c):
    a = v.as_atom() if isinstance(v, M) and v.t else None
    if isinstance(v, V):
        return v.at(r, c)
    if isinstance(a, tuple) and a[0] == "V":
        return a[1].at(r, c)
    return v.el((num(r), num(c))) if isinstance(v, M) else None


def vec(v, k):
    a = v.as_atom() if isinstance(v, M) and v.t else None
    if isinstance(v, V):
        return v.e[k] if k < len(v.e) else None
    if isinstance(a, tuple) and a[0] == "V":
        return a[1].e[k] if k < len(a[1].e) else None
    return v.el(num(k)) if isinstance(v, M) else None


def initialise(rep, m):
    q = SFP + "::initialize"
    for kind, (d, nv, nq) in KINDS.items():
        r = SRun(m, q, kind)
        ck = Check(rep, r, "%s (%s)" % (q, kind))
        A = ("in", "active_set")
        ncon = P.atom(("size", A))
        masses, v0 = tok("masses"), tok("v0")
        nb = P.atom(("idiv", P.atom(("size", masses)), num(nv * nv)))
        ft, hh, ids, pr = ck.one("computeForcingTerm"), ck.one("evalH"), ck.one("getSimulatedBodyIndices"), ck.one("fromPrimal")
        if not (ft and hh and ids and pr):
            continue
        for c, ctx in (ft, hh, ids):
            ivs = loops(ctx)
            if len(ivs) != 1 or ifs(ctx):
                ck.yes("%s is asked of every contact" % c.nm, None, sh(ctx), c.where)
                continue
            iv = ivs[0]
            i = P.atom(iv)
            full(ck, "the loop over contacts (%s)" % c.nm, iv, [ncon, P.atom(("size", tok("mu"))), P.atom(("size", tok("CoR"))), P.atom(("size", tok("nrel")))], c.where)
            receiver(ck, c, "active_set", i, c.where)
            if c.nm == "getSimulatedBodyIndices":
                continue
            ck.eq("configuration given to %s" % c.nm, c.args[0], tok("q0"), c.where)
            B = c.args[2] if c.nm == "computeForcingTerm" else c.args[1]
            got = [at(B, x, y) for x in range(d) for y in range(d)]
            ck.eq("contact frame given to %s is the contact's own" % c.nm, tuple(got), tuple(tok("contact_bases").el((num(x), num(d) * i + num(y))) for x in range(d) for y in range(d)), c.where)
            if c.nm == "computeForcingTerm":
                ck.eq("velocity of the restitution term", c.args[1], v0, c.where)
                ck.eq("restitution of the contact", c.args[3], tok("CoR").el(i), c.where)
                ck.eq("normal kinematic velocity of the contact", c.args[4], tok("nrel").el(i), c.where)
                ck.eq("tangential kinematic velocity of the contact", tuple(vec(c.args[5], k) for k in range(d - 1)), tuple(tok("drel").el(num(d - 1) * i + num(k)) for k in range(d - 1)), c.where)
        c = pr[0]
        ck.yes("the problem goes to the solver of this kind of body", c.name.startswith("bogus::" + kind) or None, c.name, c.where)
        ck.eq("number of bodies", c.args[0], nb, c.where)
        ck.eq("masses", c.args[1], masses, c.where)
        ck.eq("number of contacts", c.args[3], ncon, c.where)
        ck.eq("friction coefficients", c.args[4], tok("mu"), c.where)
        ck.eq("contact frames", c.args[5], tok("contact_bases"), c.where)
        def momentum(i):
            out = {}
            if kind == "RigidBodies3D":
                v = [v0.el(num(3) * i + num(k)) for k in range(3)] + [v0.el(num(3) * nb + num(3) * i + num(k)) for k in range(3)]
            else:
                v = [v0.el(num(nv) * i + num(k)) for k in range(nv)]
            for a in range(nv):
                M_ = lambda x, y: masses.el(num(nv * nv) * i + num(nv * x + y))
                if kind == "RigidBodies3D":
                    ways = [sum((-M_(y, a) * v[y] for y in range(6)), ZERO), sum((-M_(a, y) * v[y] for y in range(6)), ZERO)]
                elif kind == "Balls2D":
                    ways = [-M_(0, 0) * v[a], -M_(1, 1) * v[a]]
                else:
                    ways = [-M_(a, a) * v[a]] + ([-M_(1 - a, 1 - a) * v[a]] if a < 2 else [])
                out[num(nv) * i + num(a)] = tuple(ways)
            return out
        filled(ck, "incoming momentum of every body", c.args[2], [nb], momentum, c.where)
        F, H = tok(ft[0].tag + ".6"), (tok(hh[0].tag + ".2"), tok(hh[0].tag + ".3"))
        filled(ck, "forcing term of every contact in its own rows", c.args[6], [ncon], lambda i: {num(d) * i + num(k): F.el(num(k)) for k in range(d)}, c.where)
        for pos, side in ((7, "first"), (8, "second")):
            filled(ck, "%s body of every contact" % side, c.args[pos], [ncon], lambda i, side=side: {i: tokp(ids[0].tag + ".0." + side)}, c.where)
        for pos, h in ((9, 0), (10, 1)):
            filled(ck, "contact map of the %s body in the contact's own rows" % ("first" if not h else "second"), c.args[pos], [ncon],
                   lambda i, h=h: {(num(d) * i + num(x), num(y)): H[h].el((num(x), num(y))) for x in range(d) for y in range(nv)}, c.where)


def coupled_solve(rep, m):
    q = SFP + "::solve"
    for kind, (d, nv, nq) in KINDS.items():
        r = SRun(m, q, kind)
        ck = Check(rep, r, "%s (%s)" % (q, kind))
        s = ck.one("solve")
        if not s:
            continue
        c = s[0]
        H0, nc, nb = tok("this.m_H_0_store"), tokp("this.m_num_collisions"), tokp("this.m_num_bodies")
        cnt = [nc, P.atom(("size", ("in", "active_set"))), P.atom(("size", tok("alpha"))), P.atom(("size", tok("mu")))]
        al, be = tok("alpha"), tok("beta")
        row = lambda i, a, k: H0.el((num(d) * i + num(a), num(k)))
        def startv(i):
            return {num(d) * i + num(k): al.el(i) * row(i, 0, k) + sum((be.el(num(d - 1) * i + num(a)) * row(i, a + 1, k) for a in range(d - 1)), ZERO) for k in range(d)}
        filled(ck, "starting impulses are the given ones in the contact frames", c.args[0], cnt, startv, c.where)
        ck.yes("the solver of this kind of body is run", c.name.startswith("bogus::" + kind) or None, c.name, c.where)
        for what, pos, v in (("tolerance", 4, tokp("tol")), ("iteration limit", 5, tokp("max_iters")), ("error evaluation interval", 6, tokp("eval_every"))):
            ck.eq(what, c.args[pos], v, c.where)
        r_ = tok(c.tag + ".0")
        part = lambda i, a: sum((r_.el(num(d) * i + num(k)) * row(i, a, k) for k in range(d)), ZERO)
        filled(ck, "normal impulses are the normal parts of the solution", r.out("alpha"), cnt, lambda i: {i: part(i, 0)}, r.where())
        def tang(i):
            out = {}
            for a in range(d - 1):
                x = part(i, a + 1)
                out[num(d - 1) * i + num(a)] = (x, phi(("eq0", tok("mu").el(i)), ZERO, x)) if d == 2 else x
            return out
        filled(ck, "friction impulses are the tangential parts of the solution", r.out("beta"), cnt, tang, r.where())
        friction_impulse(ck, r, kind, d, nb, cnt, part, c.where)
        vo = r.out("vout")
        V_ = tok(c.tag + ".1")
        if kind == "RigidBodies3D":
            filled(ck, "outgoing velocities are put back in the order of the state", vo, [nb], lambda i: dict([(num(3) * i + num(k), V_.el(num(6) * i + num(k))) for k in range(3)] + [(num(3) * nb + num(3) * i + num(k), V_.el(num(6) * i + num(3 + k))) for k in range(3)]), r.where())
        elif vo == V_:
            ck.yes("outgoing velocities are put back in the order of the state", True)
        else:
            filled(ck, "outgoing velocities are put back in the order of the state", vo, [nb], lambda i: {num(nv) * i + num(k): V_.el(num(nv) * i + num(k)) for k in range(nv)}, r.where())
        ck.eq("reported error is the solver's", r.out("error", "double"), tokp(c.tag + ".ret"))
        ck.among("success means the error is within tolerance", r.out("succeeded", "bool"), [("lt", tokp(c.tag + ".ret") - tokp("tol")), ("le", tokp(c.tag + ".ret") - tokp("tol"))])


def settle(v, s, valid):
    """v where body s takes part (valid) or is the number -1"""
    def cond(c):
        if not (isinstance(c, tuple) and len(c) == 2):
            return None
        if c[0] == "not":
            x = cond(c[1])
            return None if x is None else not x
        p = c[1]
        if c[0] not in ("lt", "le", "eq0") or not isinstance(p, P) or p.coeff(s) is None:
            return None
        co, k = p.coeff(s)
        if not (co.is_const() and k.is_const()):
            return None
        co, k = co.cval(), k.cval()
        if not valid:
            x = k - co
            return x < 0 if c[0] == "lt" else x <= 0 if c[0] == "le" else x == 0
        if co > 0:
            return False if k > 0 or k == 0 and c[0] == "lt" else None
        if c[0] == "eq0":
            return False if k < 0 else None
        return True if k < 0 or k == 0 and c[0] == "le" else None
    def go(y):
        if isinstance(y, tuple) and len(y) == 4 and y[0] == "phi":
            x = cond(y[1])
            return None if x is None else y[2] if x else y[3]
        return None
    return subst(v, go)


def friction_impulse(ck, r, kind, d, nb, cnt, part, where):
    """f is the sum over the contacts of the tangential impulses on both bodies"""
    F = ("obj", "f")
    its = [x for x in r.ends for iv, end in [x[:2]] if end is not None and iv is not None and any(k[0] == "idx" and k[1] == F for k in end.store)]
    what = "friction impulses of the bodies"
    if len(its) != 1:
        ck.yes(what, None, "%d loops write them" % len(its), where)
        return
    iv, end, start = its[0]
    i = P.atom(iv)
    was = start.get(F)
    ck.yes(what + " start from zero", True if isinstance(was, M) and (not was.t or isinstance(was.as_atom(), tuple) and was.as_atom()[0] == "zeros") else False if was is None or known(was) else None, sh(was), where)
    ck.yes(what + ": every contact is counted", True if iv[2] == ZERO and iv[3] in cnt else None, sh((iv[2], iv[3])), where)
    base = end.store.get(F)
    got = {k[2]: v for k, v in end.store.items() if k[0] == "idx" and k[1] == F}
    gs = [y for k in got if isinstance(k, P) for y in k.atoms() if isinstance(y, tuple) and y[0] == "in" and isinstance(y[1], str) and y[1].startswith("getSimulatedBodyIndices@")]
    if not isinstance(base, M) or not gs:
        ck.yes(what, None, sh(base), where)
        return
    tag = gs[0][1].rsplit(".", 1)[0]
    call = next((c for c, _ in r.calls if c.tag == tag.rsplit(".", 1)[0]), None)
    ck.eq("the bodies are those of the contact", call.who if call else None, ("derefof", ("el", ("in", "active_set"), i)), where)
    fst, snd = ("in", tag + ".first"), ("in", tag + ".second")
    H = [tok("this.m_H_0_store"), tok("this.m_H_1_store")]
    def same(y):
        # the translational part of the contact map is the contact frame for both bodies; the tangential impulse vanishes where friction does
        if isinstance(y, tuple) and len(y) == 3 and y[0] == "el" and y[1] == ("in", "this.m_H_1_store") and isinstance(y[2], tuple) and y[2][1].is_const() and y[2][1].cval() < d:
            return H[0].el(y[2])
        if isinstance(y, tuple) and len(y) == 4 and y[0] == "phi" and y[1] == ("eq0", tok("mu").el(i)) and y[2] == ZERO:
            return y[3]
        return None
    slot = {"Balls2D": lambda b, k: num(2) * b + num(k), "RigidBody2D": lambda b, k: num(3) * b + num(k), "RigidBodies3D": lambda b, k: num(3) * b + num(k) if k < 3 else num(3) * nb + num(3) * b + num(k - 3)}[kind]
    n = KINDS[kind][1]
    for valid in (True, False):
        want = {}
        for body, (b, sgn) in enumerate(((fst, 1), (snd, -1))):
            if body == 1 and not valid:
                continue
            for k in range(n):
                e = sum((part(i, a) * H[body].el((num(d) * i + num(a), num(k))) for a in range(1, d)), ZERO)
                want[slot(P.atom(b), k)] = subst(e * num(sgn), same)
        res, bad = True, ""
        for k in set(got) | set(want):
            delta = subst(settle(got[k], snd, valid) - base.el(k), same) if k in got else ZERO
            if delta != want.get(k, ZERO):
                if not known(delta):
                    res = None if res is True else res
                else:
                    res, bad = False, bad or "entry %s gets %s, expected %s" % (sh(k), sh(delta, 300), sh(want.get(k, ZERO), 300))
        ck.yes("%s, %s" % (what, "two simulated bodies" if valid else "one simulated body"), res, bad, where)


def masses_of(kind, nv, nb, g, vals):
    """entries of the dense mass block of global body g, in the layout of the mass matrix's stored values"""
    e = lambda i: P.atom(("el", vals, i))
    out = {}
    for x in range(nv):
        for y in range(nv):
            k = nv * x + y
            if kind == "RigidBodies3D":
                if x < 3 and y < 3:
                    out[k] = e(num(3) * g + num(x)) if x == y else ZERO
                elif x >= 3 and y >= 3:
                    out[k] = tuple(e(num(3) * nb + num(9) * g + num(3 * a + b)) for a, b in ((x - 3, y - 3), (y - 3, x - 3)))
                else:
                    out[k] = ZERO
            elif kind == "Balls2D":
                out[k] = (e(num(2) * g + num(x)), e(num(2) * g + num(1 - x))) if x == y else ZERO
            else:
                out[k] = ((e(num(3) * g + num(x)),) + ((e(num(3) * g + num(1 - x)),) if x < 2 else ())) if x == y else ZERO
    return out


def flatten(rep, m):
    q = SFP + "::flattenMass"
    for kind, (d, nv, nq) in KINDS.items():
        r = SRun(m, q, kind)
        ck = Check(rep, r, "%s (%s)" % (q, kind))
        nb = P.atom(("idiv", P.atom(("rows", tok("M"))), num(nv)))
        vals = vals_of("valuePtr", tok("M"))
        filled(ck, "mass block of every body", r.out("masses"), [nb], lambda i: {num(nv * nv) * i + num(k): x for k, x in masses_of(kind, nv, nb, i, vals).items()}, r.where())


def local_view(rep, m):
    q = "Sobogus::solve"
    for kind, (d, nv, nq) in KINDS.items():
        r = SRun(m, q, kind)
        ck = Check(rep, r, "%s (%s)" % (q, kind))
        ck.opaque_ok = True
        names = [c.nm for c, _ in r.calls]
        e, i0, s = ck.one("evalKinematicRelVelGivenBases"), ck.one("initialize") if "initialize" in names else ck.one(SFP), ck.one("solve")
        if not (e and i0 and s):
            continue
        e, c, s = e[0], i0[0], s[0]
        off = len(c.args) - 9
        arg = lambda k: c.args[k + off]
        A, B = ("in", "active_set"), tok("contact_bases")
        ck.args(e, dict(q=0, v=1, A=2, bases=3), dict(q=tok("q0"), v=tok("v0"), A=A, bases=B))
        # the map from local to global bodies
        _, dq = ups(arg(3))
        X = None
        if dq:
            for x in dq.values():
                for y in atoms_in(x):
                    if isinstance(y, tuple) and y[0] == "el" and y[1] == ("in", "q0"):
                        for z in atoms_in(y[2]):
                            if isinstance(z, tuple) and z[0] == "el" and X is None and isinstance(z[2], P) and isinstance(z[2].as_atom(), tuple) and z[2].as_atom()[0] == "iv":
                                X = z[1]
        if X is None:
            ck.yes("configurations of the bodies in contact", None, sh(arg(3), 300), c.where)
            continue
        nl, ng = P.atom(("size", M.atom(X))), tokp("numBodies()")
        counts = [nl] if isinstance(X, tuple) else []
        counts += [P.atom(("size", X))]
        g = lambda i: P.atom(("el", X, i))
        def layout(nn, kind_, n, b):
            """entries of body b in a configuration or velocity vector of n bodies"""
            if kind != "RigidBodies3D":
                return [num(nn) * b + num(k) for k in range(nn)]
            t = nn - 3
            return [num(3) * b + num(k) for k in range(3)] + [num(3) * n + num(t) * b + num(k) for k in range(t)]
        nloc = next((z[3] for z in ({y for i in dq for y in atoms_in(i) if isinstance(y, tuple) and y[0] == "iv"})), nl)
        ck.eq("active contacts", arg(0), A, c.where)
        ck.eq("contact frames", arg(1), B, c.where)
        filled(ck, "configurations of the bodies in contact", arg(3), counts, lambda i: dict(zip(layout(nq, kind, nloc, i), [tok("q0").el(k) for k in layout(nq, kind, ng, g(i))])), c.where)
        filled(ck, "velocities of the bodies in contact", arg(4), counts, lambda i: dict(zip(layout(nv, kind, nloc, i), [tok("v0").el(k) for k in layout(nv, kind, ng, g(i))])), c.where)
        vals = vals_of("valuePtr", tok("M"))
        filled(ck, "masses of the bodies in contact", arg(2), counts, lambda i: {num(nv * nv) * i + num(k): x for k, x in masses_of(kind, nv, ng, g(i), vals).items()}, c.where)
        ck.eq("restitution coefficients", arg(5), tok("CoR"), c.where)
        ck.eq("friction coefficients", arg(6), tok("mu"), c.where)
        for k, what, pos in ((7, "nrel_extra", 4), (8, "drel_extra", 5)):
            own, ex = tok("%s.%d" % (e.tag, pos)), tok(what)
            ck.among("kinematic velocities plus the extra ones (%s)" % what, arg(k), [phi(("eq0", P.atom(("size", ex))), own, own + ex), own + ex], c.where)
        for what, pos, v in (("contacts", 0, A), ("friction coefficients", 1, tok("mu")), ("iteration limit", 2, tokp("max_iters")), ("error evaluation interval", 3, tokp("this.m_eval_every")), ("tolerance", 4, tokp("tol")), ("starting normal impulses", 5, tok("alpha")), ("starting friction impulses", 6, tok("beta"))):
            ck.eq("solve gets the %s" % what, s.args[pos], v, s.where)
        ck.eq("normal impulses are the solver's", r.out("alpha"), tok(s.tag + ".5"))
        ck.eq("friction impulses are the solver's", r.out("beta"), tok(s.tag + ".6"))
        ck.eq("success is the solver's", r.out("solve_succeeded", "bool"), ("bool", ("in", s.tag + ".9")))
        ck.eq("error is the solver's", r.out("error", "double"), tokp(s.tag + ".10"))
        back = lambda name: (lambda i: dict(zip(layout(nv, kind, ng, g(i)), [tok(name).el(k) for k in layout(nv, kind, nloc, i)])))
        filled(ck, "outgoing velocities go back to their own bodies", r.out("vout"), counts, back(s.tag + ".8"), r.where(), base=lambda b: b == tok("v0"))
        filled(ck, "friction forces go back to their own bodies", r.out("f"), counts, back(s.tag + ".7"), r.where(), base=lambda b: zero_vec(b))
        remap(ck, r, X, e, c, s)


def remap(ck, r, X, e, c, s):
    """body numbers of the contacts are translated for the solver and back"""
    order = [x for x, _ in r.calls]
    pos = lambda x: next(k for k, y in enumerate(order) if y is x)
    for b in (0, 1):
        sets = r.named("setSimulatedBody%d" % b)
        what = "body %d of every contact" % b
        before = [(x, ctx) for x, ctx in sets if pos(x) < pos(c)]
        after = [(x, ctx) for x, ctx in sets if pos(x) > pos(s)]
        if len(before) != 1 or len(after) != 1 or len(sets) != 2:
            ck.yes("%s is renumbered before the solve and restored after it" % what, False if len(sets) == 1 else None, "%d before, %d after" % (len(before), len(after)))
            continue
        ck.yes("%s is renumbered after its velocity terms were evaluated" % what, pos(e) < pos(before[0][0]), "", before[0][0].where)
        for (x, ctx), back in ((before[0], False), (after[0], True)):
            ivs = loops(ctx)
            if len(ivs) != 1:
                ck.yes("%s is renumbered" % what, None, sh(ctx), x.where)
                continue
            i = P.atom(ivs[0])
            full(ck, "renumbering %s" % what, ivs[0], [P.atom(("size", ("in", "active_set")))], x.where)
            receiver(ck, x, "active_set", i, x.where)
            own = tokp("simulatedBody%d(%s)" % (b, sh(x.who, 300)))
            if b == 1:
                res = []
                for v in (-1, 0, 1):
                    t = True
                    for k in ifs(ctx):
                        w = ev(k, own, num(v))
                        t = None if w is None or t is None else t and w
                    res.append(t)
                ck.yes("%s is renumbered exactly when there is one" % what, None if None in res else res == [False, True, True], sh(ifs(ctx)), x.where)
            elif ifs(ctx):
                ck.yes("%s is renumbered always" % what, None, sh(ifs(ctx)), x.where)
            if back:
                ck.yes("%s gets its global number back" % what, True if x.args[0] == P.atom(("el", X, own)) else None if not lookup_of(x.args[0], X) else False, sh(x.args[0], 300), x.where)
            else:
                f = find_in(x.args[0])
                if f is None:
                    ck.yes("%s gets its local number" % what, None, sh(x.args[0], 300), x.where)
                    continue
                key, content = f
                rep_ = content[2][0] if isinstance(content, tuple) and content[0] == "seq" and len(content[2]) == 1 else None
                ok = isinstance(rep_, tuple) and rep_[0] == "rep" and isinstance(rep_[2], tuple) and rep_[2][0] == "kv"
                ck.yes("%s is looked up by its own global number" % what, key == own, sh(key), x.where)
                if ok:
                    j = P.atom(rep_[1])
                    ck.yes("the lookup table inverts the local numbering", rep_[2][1] == P.atom(("el", X, j)) and rep_[2][2] == j or (False if lookup_of(rep_[2][1], X) or lookup_of(rep_[2][2], X) else None), sh(rep_, 300), x.where)
                else:
                    ck.yes("the lookup table inverts the local numbering", None, sh(content, 300), x.where)


def lookup_of(v, X):
    a = v.as_atom() if isinstance(v, P) and v.t else None
    return isinstance(a, tuple) and len(a) == 3 and a[0] == "el" and a[1] == X


def find_in(v):
    out = []
    def go(y):
        if isinstance(y, tuple) and len(y) == 4 and y[0] == "findres":
            out.append((y[2], y[3]))
        return False
    contains(v, go)
    return out[0] if len(out) == 1 else None


SOBOGUS = dict(sobogus_initialise=initialise, sobogus_solve=coupled_solve, sobogus_masses=flatten, sobogus_local=local_view)
