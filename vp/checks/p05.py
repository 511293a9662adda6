"""P05: contact impulses act on the two bodies equally and oppositely; conservation claims are honest; pairwise impacts obey Newton's law."""
from ..constraints import *
from ..report import Report
from .. import par
from .p06 import unit, dot

RULE = ("for each concrete contact class, with fields, q and v symbolic: momentum carried by the contact gradient, by each friction column and by the solver blocks sums to zero over "
        "two-body contacts; classes whose conservation flags are true satisfy the momentum identities with fields replaced by what the constructors store; "
        "the pairwise impact response applies the impulse through the gradient and masses and reverses the normal velocity by the restitution coefficient")


def clear_inv(p):
    """multiply an expression by the denominators that occur in it"""
    for _ in range(4):
        inv = {}
        for m in p.t:
            for i, e in m:
                a = atom_of(i)
                if isinstance(a, tuple) and a[0] == "inv" and len(a) == 2 and isinstance(a[1], P):
                    inv[i] = max(inv.get(i, 0), e)
        if not inv:
            return p
        for i, e in inv.items():
            S = atom_of(i)[1]
            out = ZERO
            for m, c in p.t.items():
                d = dict(m)
                k = e - d.pop(i, 0)
                t = P({tuple(sorted(d.items())): c})
                for _ in range(k):
                    t = t * S
                out = out + t
            p = out
    return p


def fields_by_ctor(m, fn, rep):
    """field element/scalar -> expression in the constructor arguments"""
    I = Interp(m)
    I.generic = True
    v, s = I.run(fn, thiscls=fn.cls)
    rep.saw(I)
    if s is None:
        return None
    sub = {}
    for f in m.fields(fn.cls):
        x = I.load(s, ("fld", ("obj", "this"), f["n"]), f["t"])
        sub["this." + f["n"]] = x

    def rep_(y):
        if isinstance(y, tuple) and len(y) == 2 and y[0] == "in" and y[1] in sub and isinstance(sub[y[1]], P):
            return sub[y[1]]
        if isinstance(y, tuple) and len(y) == 3 and y[0] == "el" and isinstance(y[1], tuple) and len(y[1]) == 2 and y[1][0] == "in" and y[1][1] in sub:
            v = sub[y[1][1]]
            if isinstance(v, V) and isinstance(y[2], P) and y[2].is_const():
                return v.e[int(y[2].cval())]
        return None
    return lambda x: subst(x, rep_)


def flag(c, name):
    r = c.run(name)
    if r in (None, Dead):
        return None
    return r[0]


def cross2(a, b):
    return a[0] * b[1] - a[1] * b[0]


def cross3(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def angular(dom, D, bodies, col):
    """total angular momentum carried by a column, as a list of components"""
    tot = None
    for b in bodies:
        x = [qat(i) for i in D.lin(b)]
        f = [col.get(i, ZERO) for i in D.lin(b)]
        t = [col.get(i, ZERO) for i in D.ang(b)]
        l = [cross2(x, f)] if len(f) == 2 else cross3(x, f)
        if t:
            l = [a + b_ for a, b_ in zip(l, t)]
        tot = l if tot is None else [a + b_ for a, b_ in zip(tot, l)]
    return tot


def check_class(rep, m, cls):
    c = Con(m, cls, rep=rep)
    dom, dim = m.domain, c.dim
    D = Dof(dom)
    K = "%s/%s" % (dom, cls)
    bod = c.bodies()
    nv = c.scalar("evalNdotV")
    if bod in (None, Dead) or not isinstance(nv, P) or inexact(nv) or contains(nv, lambda y: isinstance(y, tuple) and y[:1] == ("lim",)):
        rep.und(K + ": class", c.where("evalNdotV"), "not resolved or unsupported")
        return False
    b0, b1 = bod
    two = not (b1.is_const() and b1.cval() == -1)
    bodies = [b0, b1] if two else [b0]
    g = c.column("evalgradg", "G")
    f = c.column("computeGeneralizedFrictionGivenTangentSample", "D")
    cols = []
    if g not in (None, Dead) and not g[3]:
        cols.append(("normal impulse", g[0], "evalgradg"))
    if f not in (None, Dead) and not f[3]:
        cols.append(("friction impulse", f[0], "computeGeneralizedFrictionGivenTangentSample"))
    allowed = [i for b in bodies for i in D.all(b)]
    for what, col, fnm in cols:
        w = c.where(fnm)
        stray = [i for i in col if i not in allowed]
        rep.decide(K + ": %s acts on the bodies in contact only" % what, (None if has_unk(stray) else False) if stray else True, w, repr(stray))
        if two:
            for k in range(dim):
                a, b = col.get(D.lin(b0)[k], ZERO), col.get(D.lin(b1)[k], ZERO)
                rep.decide(K + ": %s on the two bodies is equal and opposite [%d]" % (what, k), eqd(a, -b), w, "%r and %r" % (a, b))
    # friction disk
    from .p06 import samples_hook
    def hook(I, st, nd, ff, obj, args):
        if ff["n"] == "computeRelativeVelocity":
            return V(dim, 1, [P.atom(("relvel", k)) for k in range(dim)])
        return samples_hook(I, st, nd, ff, obj, args)
    r = c.run("computeGeneralizedFrictionDisk", hooks={"call": [hook]})
    if r not in (None, Dead) and two:
        s = r[1]
        ents = {}
        for k, val in s.store.items():
            if k[0] == "idx" and k[1] == ("obj", "D") and isinstance(k[2], tuple):
                ents.setdefault(k[2][1], {})[norm_nb(k[2][0])] = norm_nb(val)
        for colx, rows in ents.items():
            for k in range(dim):
                a, b = rows.get(D.lin(b0)[k], ZERO), rows.get(D.lin(b1)[k], ZERO)
                rep.decide(K + ": sampled friction on the two bodies is equal and opposite [%r,%d]" % (colx, k), eqd(a, -b), c.where("computeGeneralizedFrictionDisk"), "%r and %r" % (a, b))
    # solver blocks
    if two:
        n = [vcoeffs(nv)[0].get(i, ZERO) for i in D.lin(b0)] if vcoeffs(nv)[0] is not None else None
        basis = [[P.atom(("tb", j, k)) for k in range(dim)] for j in range(dim)]
        h = c.run("evalH", pre={("obj", "basis"): V(dim, dim, [basis[j][i] for i in range(dim) for j in range(dim)])})
        if h not in (None, Dead):
            v_, s, I = h
            for rr in range(dim):
                for k in range(dim):
                    a, b = (norm_nb(I.as_p(I.load(s, ("idx", ("obj", o), (num(rr), num(k))), "double"))) for o in ("H0", "H1"))
                    if inexact(a) or inexact(b):
                        rep.und(K + ": solver block", c.where("evalH"), "")
                        continue
                    rep.decide(K + ": solver blocks act on the two bodies equally and oppositely [%d,%d]" % (rr, k), a == b, c.where("evalH"), "%r and %r" % (a, b))
    # flags
    nco = vcoeffs(nv)[0] or {}
    nrm = [nco.get(i, ZERO) for i in D.lin(b0)]
    ft, fa, ff = (flag(c, x) for x in ("conservesTranslationalMomentum", "conservesAngularMomentumUnderImpact", "conservesAngularMomentumUnderImpactAndFriction"))
    w = c.where("conservesTranslationalMomentum")
    if isinstance(ft, bool):
        rep.decide(K + ": translational momentum is claimed to be conserved exactly for contacts between two simulated bodies", ft == two, w, "claims %s, %d simulated bodies" % (ft, len(bodies)))
        if ft:
            rep.count("classes claiming translational conservation")
    for nm, fl, which in (("conservesAngularMomentumUnderImpact", fa, cols[:1]), ("conservesAngularMomentumUnderImpactAndFriction", ff, cols)):
        w = c.where(nm)
        if fl is False or fl is None:
            if fl is None:
                rep.und(K + ": angular claim", w, "not resolved")
            continue
        if not two:
            rep.bad(K + ": a contact with a single simulated body does not claim to conserve angular momentum", w, "claims %r" % (fl,))
            continue
        rep.ok(K + ": angular momentum is claimed only for contacts between two simulated bodies (%s)" % nm, w)
        for k in ctors(m, cls):
            sub = fields_by_ctor(m, k, rep)
            if sub is None:
                continue
            for what, col, fnm in which:
                L = angular(dom, D, bodies, col)
                L = [clear_inv(sub(x)) for x in L]
                zero = all(x == ZERO for x in L)
                if zero:
                    rep.ok(K + ": %s carries no angular momentum, constructor with %d arguments" % (what, len(k.params)), w)
                    continue
                # a normal handed in by the caller is outside this class: nothing to conclude there
                given = any(isinstance(sub(x).as_atom(), tuple) and sub(x).as_atom()[0] == "el" for x in nrm)
                key, det = K + ": %s carries no angular momentum, constructor with %d arguments" % (what, len(k.params)), repr(L)
                if fl is True and not given and not inexact(tuple(L)):
                    rep.bad(key, w, det)
                else:
                    rep.und(key, w, det)
    if ff is True and fa is False:
        rep.bad(K + ": conservation under impact and friction implies conservation under impact", c.where("conservesAngularMomentumUnderImpactAndFriction"))
    # pairwise impact response
    r = c.run("resolveImpact")
    if r not in (None, Dead) and g not in (None, Dead) and not g[3]:
        v_, s, I = r
        w = c.where("resolveImpact")
        G = g[0]
        al = I.as_p(I.load(s, ("obj", "alpha"), "double"))
        ndotv = P.atom(("in", "ndotv"))
        dv = {}
        written = [k[2] for k in s.store if k[0] == "idx" and k[1] == ("obj", "vout")]
        bad = [i for i in written if norm_nb(i) not in allowed]
        rep.decide(K + ": impact response changes only the bodies in contact", (None if has_unk(bad) else False) if bad else True, w, repr(bad))
        mass = lambda i: I.as_p(I.load(s, ("idx", ("dat", ("obj", "M"), "valuePtr"), i), "double"))
        tot = ZERO
        n = [G.get(i, ZERO) for i in D.lin(b0)]
        for b in bodies:
            i0 = D.lin(b)[0]
            for i in D.all(b):
                d = norm_nb(I.as_p(I.load(s, ("idx", ("obj", "vout"), i), "double"))) - P.atom(("el", ("in", "vout"), i))
                tot = tot + d * G.get(i, ZERO)
                if i in D.lin(b):
                    x = clear_inv(d * mass(i0) - al * G.get(i, ZERO))
                    rep.decide(K + ": impact response of velocity index %r is the impulse over the mass" % i, eqd(x, ZERO), w, repr(x))
                else:
                    rep.decide(K + ": impact response of velocity index %r is nil for a central impact" % i, eqd(d, ZERO), w, repr(d))
        x = unit(clear_inv(tot + (ONE + P.atom(("in", "CoR"))) * ndotv), n)
        rep.decide(K + ": impact response reverses the normal velocity scaled by the restitution coefficient", eqd(x, ZERO), w, repr(x))
        rep.count("impact responses")
    return True


def run(tier):
    rep = Report("P05", RULE, ["the normal is a unit vector; the mass matrix is diagonal with equal translational entries per body (asserted by the code, decided by P07)"])
    items = [(m.domain, cls) for m in models() for cls in m.concrete("Constraint")]
    r = par.each(rep, items, lambda rep, it: check_class(rep, model(it[0]), it[1]), name="/".join)
    rep.require("constraint classes", sum(1 for x in r.values() if x), 6)
    return rep
