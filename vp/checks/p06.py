"""P06: the contact operators of every constraint class describe one and the same contact."""
from ..constraints import *
from ..report import Report
from .. import par
from .p08 import regions, resolve, assignments, Skip

RULE = ("for each concrete contact class, with fields, q and v symbolic: normal velocity, constraint gradient, kinematic term, relative velocity, "
        "So-bogus blocks, friction columns, contact basis and reported normal/point are computed as polynomials by value numbering and compared as identities")


def linear_rows(c, rep):
    pass


def dot(a, b):
    return sum_(x * y for x, y in zip(a, b))


def check_class(rep, c, c2):
    m, cls, dim = c.m, c.cls, c.dim
    dom = m.domain
    D = Dof(dom)
    K = "%s/%s" % (dom, cls)

    def decide(key, a, b, where, fa=None, fb=None):
        """a==b, retried with helper functions uninterpreted"""
        r = eqd(a, b)
        if r is not True and fa is not None:
            try:
                if fa(c2) == fb(c2):
                    r = True
            except Exception:
                pass
        rep.decide("%s: %s" % (K, key), r, where, "" if r is True else "%r  versus  %r" % (a, b))
        return r

    nv = c.scalar("evalNdotV")
    bod = c.bodies()
    if not isinstance(nv, P) or bod in (None, Dead):
        rep.und(K + ": normal velocity", c.where("evalNdotV"), "not a resolved expression or unsupported class")
        return False
    if inexact(nv) or contains(nv, lambda y: isinstance(y, tuple) and y[:1] == ("lim",)):
        rep.und(K + ": normal velocity", c.where("evalNdotV"), "not resolved")
        return False
    co, rest = vcoeffs(nv)
    if co is None:
        rep.bad(K + ": normal velocity is linear in v", c.where("evalNdotV"), repr(nv))
        return True
    b0, b1 = bod
    two = not (b1.is_const() and b1.cval() == -1)
    dofs = D.all(b0) + (D.all(b1) if two else [])
    n = [co.get(i, ZERO) for i in D.lin(b0)]
    # -- stray degrees of freedom
    stray = [k for k in co if k not in dofs]
    rep.decide(K + ": normal velocity involves only the bodies in contact", not stray, c.where("evalNdotV"), "velocity indices %r" % stray)
    if two:
        decide("normal velocity is relative", V(dim, 1, [co.get(i, ZERO) for i in D.lin(b1)]), V(dim, 1, [-x for x in n]), c.where("evalNdotV"))
    # -- gradient
    g = c.column("evalgradg", "G")
    if g not in (None, Dead):
        col, ins, cols, odd, s = g
        if odd:
            rep.und(K + ": gradient", c.where("evalgradg"), "branching inserts")
        else:
            w = c.where("evalgradg")
            for k in list(co) + [x for x in col if x not in co]:
                decide("gradient entry for velocity index %r equals the coefficient in the normal velocity" % k, col.get(k, ZERO), co.get(k, ZERO), w,
                       lambda z, k=k: z.column("evalgradg", "G")[0].get(k, ZERO), lambda z, k=k: vcoeffs(z.scalar("evalNdotV"))[0].get(k, ZERO))
            rep.decide(K + ": gradient is written to the requested column", cols == {P.atom(("in", "col"))}, w, repr(cols))
            rows = [e[2][0] for e in ins]
            rep.decide(K + ": gradient entries are inserted once", len(set(rows)) == len(rows) if not has_unk(rows) else None, w, repr(rows))
            ss = c.scalar("impactStencilSize")
            if isinstance(ss, P) and ss.is_const():
                rep.decide(K + ": impact stencil size equals the entries inserted", int(ss.cval()) == len(ins), c.where("impactStencilSize"), "%s declared, %d inserted" % (ss, len(ins)))
    # -- kinematic parts
    kv = c.vec("computeKinematicRelativeVelocity")
    if isinstance(kv, V):
        decide("kinematic part of the normal velocity equals minus the kinematic relative velocity along the normal", rest, -dot(n, kv.e), c.where("evalNdotV"),
               lambda z: vcoeffs(z.scalar("evalNdotV"))[1],
               lambda z: -dot([vcoeffs(z.scalar("evalNdotV"))[0].get(i, ZERO) for i in D.lin(b0)], z.vec("computeKinematicRelativeVelocity").e))
    gk = c.run("evalKinematicNormalRelVel")
    if gk not in (None, Dead):
        v_, s, I = gk
        def gdot(z):
            v_, s, I = z.run("evalKinematicNormalRelVel")
            return norm_nb(I.as_p(I.load(s, ("idx", ("obj", "gdotN"), P.atom(("in", "strt_idx"))), "double")))
        ents = [k for k in s.store if k[0] == "idx" and k[1] == ("obj", "gdotN")]
        rep.decide(K + ": kinematic normal velocity is written to its own slot", ents == [("idx", ("obj", "gdotN"), P.atom(("in", "strt_idx")))], c.where("evalKinematicNormalRelVel"), repr(ents))
        decide("reported kinematic normal velocity equals the kinematic part of the normal velocity", gdot(c), rest, c.where("evalKinematicNormalRelVel"),
               gdot, lambda z: vcoeffs(z.scalar("evalNdotV"))[1])
    # -- relative velocity
    rv = c.vec("computeRelativeVelocity")
    rc = None
    if isinstance(rv, V):
        w = c.where("computeRelativeVelocity")
        rc = [vcoeffs(x) for x in rv.e]
        if any(x[0] is None for x in rc):
            rep.und(K + ": relative velocity", w, "not linear in v")
            rc = None
        else:
            for k in range(dim):
                cs, r = rc[k]
                rep.decide(K + ": relative velocity involves only the bodies in contact [%d]" % k, all(i in dofs for i in cs), w, repr(list(cs)))
                for l, i in enumerate(D.lin(b0)):
                    decide("relative velocity [%d] counts the first body's velocity [%d]" % (k, l), cs.get(i, ZERO), ONE if k == l else ZERO, w)
                if two:
                    for l, i in enumerate(D.lin(b1)):
                        decide("relative velocity [%d] counts minus the second body's velocity [%d]" % (k, l), cs.get(i, ZERO), num(-1) if k == l else ZERO, w)
                if isinstance(kv, V):
                    decide("relative velocity [%d] has the kinematic part" % k, r, -kv.e[k], w,
                           lambda z, k=k: vcoeffs(z.vec("computeRelativeVelocity").e[k])[1], lambda z, k=k: -z.vec("computeKinematicRelativeVelocity").e[k])
            # rotation enters as omega x r
            for b in ([b0] if not two else [b0, b1]):
                A = [[rc[k][0].get(i, ZERO) for i in D.ang(b)] for k in range(dim)]
                if dim == 3:
                    for i in range(3):
                        for j in range(i, 3):
                            decide("rotation of body %r enters the relative velocity as a cross product [%d%d]" % (b, i, j), A[i][j], -A[j][i], w)
            # normal component
            full = {}
            for k in range(dim):
                for i, p in rc[k][0].items():
                    full[i] = full.get(i, ZERO) + n[k] * p
            circ = all(co.get(i, ZERO) == ZERO for b in ([b0, b1] if two else [b0]) for i in D.ang(b))
            for i in dofs:
                if circ and i not in D.lin(b0) and not (two and i in D.lin(b1)):
                    continue
                decide("normal component of the relative velocity equals the normal velocity, velocity index %r" % i, full.get(i, ZERO), co.get(i, ZERO), w)
            # -- So-bogus blocks
            basis = [[n[k] for k in range(dim)]] + [[P.atom(("tb", j, k)) for k in range(dim)] for j in range(1, dim)]
            BV = V(dim, dim, [basis[j][i] for i in range(dim) for j in range(dim)])
            h = c.run("evalH", pre={("obj", "basis"): BV})
            if h not in (None, Dead):
                v_, s, I = h
                wh = c.where("evalH")
                nd = len(D.all(b0))
                def H(s, I, o, r, k):
                    x = I.load(s, ("idx", ("obj", o), (num(r), num(k))), "double")
                    return norm_nb(I.as_p(x))
                def written(s, o):
                    return any(k[0] in ("idx",) and k[1] == ("obj", o) for k in s.store) or ("obj", o) in s.store
                for r in range(dim):
                    t = basis[r]
                    for o, b, sg in (("H0", b0, 1),) + ((("H1", b1, -1),) if two else ()):
                        for k, i in enumerate(D.all(b)):
                            if r == 0 and circ and i not in D.lin(b):
                                want = ZERO
                            else:
                                want = dot(t, [rc[z][0].get(i, ZERO) for z in range(dim)])
                                want = want if sg > 0 else -want
                            got = H(s, I, o, r, k)
                            decide("%s(%d,%d) is the velocity of the contact point along basis vector %d" % (o, r, k, r), got, want, wh)
                if not two:
                    rep.decide(K + ": H1 is left alone for one-body contacts", not written(s, "H1"), wh)
            # -- one friction sample
            f = c.column("computeGeneralizedFrictionGivenTangentSample", "D")
            if f not in (None, Dead):
                friction_cols(rep, K, c, decide, f, "computeGeneralizedFrictionGivenTangentSample", rc, dofs, dim, {P.atom(("in", "column"))},
                              [P.atom(("el", ("in", "t"), num(k))) for k in range(dim)])
            friction_disk(rep, K, c, decide, rc, dofs, dim, n)
    # -- contact basis
    hook = lambda I, st, nd, f, obj, args: V(dim, 1, [P.atom(("relvel", k)) for k in range(dim)]) if f["n"] == "computeRelativeVelocity" else None
    cb = c.run("computeContactBasis", hooks={"call": [hook]})
    if cb not in (None, Dead):
        v_, s, I = cb
        w = c.where("computeContactBasis")
        B = basis_cols(s, I, dim)
        if B is None:
            rep.und(K + ": contact basis", w, "columns not resolved")
        else:
            decide("first basis vector is the contact normal", norm_nb(V(dim, 1, B[0])), V(dim, 1, n), w)
            if dim == 2:
                r = eqd(V(2, 1, B[1]), V(2, 1, [-n[1], n[0]]))
                if r is not True and all(field_of(x) for x in B[1]):
                    r = perp_by_ctor(m, cls, B[1], n, rep)
                rep.decide(K + ": tangent is the normal turned by ninety degrees", r, w, "%r versus normal %r" % (B[1], n))
            elif not inexact(B) and all(x.single() and len(x.atoms()) for x in n):
                N, S, T = (V(3, 1, x) for x in B)
                try:
                    tests = leaves(S, T)
                except Skip as e:
                    rep.und(K + ": tangents", w, str(e))
                    tests = []
                for (cond, s_, t_) in tests:
                    decide("tangent is orthogonal to the normal", unit(s_.dot(N), n), ZERO, w)
                    r = unit_length(s_, n)
                    if r is not None:
                        rep.decide(K + ": tangent has unit length", r, w, show(s_.dot(s_))[:300])
                    x = N.cross(s_)
                    # t is parallel to n x s and points the same way
                    decide("second tangent is orthogonal to the first basis vectors", unit(t_.dot(N), n), ZERO, w)
                    decide("second tangent is along normal x tangent", V(3, 1, [unit(e, n) for e in t_.cross(x).e]), V(3, 1, [ZERO] * 3), w)
    # -- reported normal and point
    wn = c.outvec("getWorldSpaceContactNormal", "contact_normal", dim)
    if isinstance(wn, V):
        decide("reported contact normal is the normal of the impact", wn, V(dim, 1, n), c.where("getWorldSpaceContactNormal"),
               lambda z: z.outvec("getWorldSpaceContactNormal", "contact_normal", dim),
               lambda z: V(dim, 1, [vcoeffs(z.scalar("evalNdotV"))[0].get(i, ZERO) for i in D.lin(b0)]))
    return True


def friction_cols(rep, K, c, decide, f, name, rc, dofs, dim, wantcols, t):
    col, ins, cols, odd, s = f
    w = c.where(name)
    if odd:
        rep.und(K + ": friction column", w, "branching inserts")
        return
    for i in dofs:
        want = dot(t, [rc[k][0].get(i, ZERO) for k in range(dim)])
        decide("friction column entry for velocity index %r is the contact-point velocity along the tangent" % i, col.get(i, ZERO), want, w)
    rep.decide(K + ": friction column touches only the bodies in contact", all(i in dofs for i in col), w, repr([i for i in col if i not in dofs]))
    rep.decide(K + ": friction sample is written to the requested column", cols == wantcols, w, repr(cols))
    ss = c.scalar("frictionStencilSize")
    if isinstance(ss, P) and ss.is_const():
        rep.decide(K + ": friction stencil size equals the entries inserted", int(ss.cval()) == len(ins), c.where("frictionStencilSize"), "%s declared, %d inserted" % (ss, len(ins)))
        rep.count("stencils")


def samples_hook(I, st, nd, f, obj, args):
    """a library routine of the repository that fills a list of sample directions: the directions stay symbolic"""
    if not f.get("repo") or f.get("cls"):
        return None
    pm, hit = f.get("pm", []), False
    for i, a in enumerate(args):
        if i < len(pm) and pm[i] == "r" and "vector<Eigen" in I.ty(a):
            l = I.lval(st, a)
            if l is not None:
                I.store(st, l, I.load(st, ("obj", "samples"), I.ty(a)))
                hit = True
    return ("void",) if hit else None


def friction_disk(rep, K, c, decide, rc, dofs, dim, n):
    name = "computeGeneralizedFrictionDisk"
    fn = c.fn(name)
    if fn is None:
        return

    def hook(I, st, nd, f, obj, args):
        if f["n"] == "computeRelativeVelocity":
            return V(dim, 1, [P.atom(("relvel", k)) for k in range(dim)])
        return samples_hook(I, st, nd, f, obj, args)

    r = c.run(name, hooks={"call": [hook], "inline": None})
    if r is Dead or r is None:
        return
    v_, s, I = r
    w = c.where(name)
    ents = {}
    for k, val in s.store.items():
        if k[0] == "idx" and k[1] == ("obj", "D") and isinstance(k[2], tuple):
            ents.setdefault(k[2][1], {})[norm_nb(k[2][0])] = norm_nb(val)
    if len(ents) == 0:
        rep.und(K + ": friction disk", w, "no entry resolved")
        return
    for colx, rows in ents.items():
        lin = [dofs[k] for k in range(dim)]
        t = [rows.get(i) for i in lin]
        if any(x is None for x in t) or inexact(t):
            rep.und(K + ": friction disk column %r" % colx, w, "tangent not resolved")
            continue
        for i in dofs:
            want = dot(t, [rc[k][0].get(i, ZERO) for k in range(dim)])
            decide("friction disk entry for velocity index %r, column %r" % (i, colx), rows.get(i, ZERO), want, w)
        rep.decide(K + ": friction disk touches only the bodies in contact, column %r" % colx, all(i in dofs for i in rows), w, repr(list(rows)))
        dl = ("idx", ("obj", "drel"), colx)
        if dl in s.store:
            decide("friction disk kinematic term, column %r" % colx, norm_nb(I.as_p(s.store[dl])), dot(t, [rc[k][1] for k in range(dim)]), w)
        else:
            rep.bad(K + ": friction disk kinematic term is set, column %r" % colx, w, "drel not written at this column")
        ss = c.scalar("frictionStencilSize")
        if isinstance(ss, P) and ss.is_const():
            rep.decide(K + ": friction stencil size equals the entries per sample", int(ss.cval()) == len(rows), c.where("frictionStencilSize"), "%s declared, %d inserted" % (ss, len(rows)))


def basis_cols(s, I, dim):
    L = ("obj", "basis")
    v = s.store.get(L)
    cols = [None] * dim
    kids = {k[2]: x for k, x in s.store.items() if k[0] == "idx" and k[1] == L}
    a = v.as_atom() if isinstance(v, M) else None
    while isinstance(a, tuple) and a[0] == "blkset":
        _, whole, i0, j0, r, cc, lin, val = a
        if isinstance(j0, P) and j0.is_const() and cc == 1 and isinstance(val, V) and len(val.e) == dim:
            j = int(j0.cval())
            if j < dim and cols[j] is None:
                cols[j] = list(val.e)
        else:
            return None
        a = whole.as_atom() if isinstance(whole, M) else None
    for ix, x in kids.items():
        if isinstance(ix, tuple) and all(isinstance(y, P) and y.is_const() for y in ix):
            i, j = int(ix[0].cval()), int(ix[1].cval())
            if cols[j] is None:
                cols[j] = [None] * dim
            cols[j][i] = I.as_p(x)
    if any(x is None or any(y is None for y in x) for x in cols):
        return None
    return [[norm_nb(y) for y in x] for x in cols]


def leaves(S, T):
    """one (condition, s, t) triple per combination of branch outcomes appearing in the entries"""
    keys = regions(list(S.e) + list(T.e))
    return [(a, S.map(lambda x: resolve(x, a)), T.map(lambda x: resolve(x, a))) for a in assignments(keys)]


def unit_length(s, n):
    ss = unit(s.dot(s), n)
    if ss == ONE:
        return True
    inv = [atom_of(i) for i in {i for m in ss.t for i, e in m} if isinstance(atom_of(i), tuple) and atom_of(i)[0] == "inv"]
    if len(inv) != 1:
        return None if inv else False
    co = ss.coeff(inv[0])
    if co is None:
        return None
    return unit(co[0] - unit(inv[0][1], n) + co[1] * inv[0][1], n) == ZERO


def unit(p, n):
    """normal form modulo n.n = 1 (the normal is a unit vector)"""
    a = n[-1].as_atom()
    if a is None:
        return p
    i = intern(a)
    repl = ONE - sum_(x * x for x in n[:-1])
    for _ in range(12):
        out, ch = ZERO, False
        for m, cf in p.t.items():
            d = dict(m)
            e = d.get(i, 0)
            if e >= 2:
                ch = True
                d[i] = e - 2
                if not d[i]:
                    del d[i]
                out = out + P({tuple(sorted(d.items())): cf}) * repl
            else:
                out = out + P({m: cf})
        p = out
        if not ch:
            break
    return p


def run(tier):
    rep = Report("P06", RULE, ["the normal is a unit vector (asserted at construction); a body never collides with itself"])
    items = [(m.domain, cls) for m in models() for cls in m.concrete("Constraint")]

    def one(rep, it):
        m = model(it[0])
        return check_class(rep, Con(m, it[1], rep=rep), Con(m, it[1], True))
    r = par.each(rep, items, one, name="/".join)
    rep.require("constraint classes", sum(1 for x in r.values() if x), 6)
    return rep
