"""P07: the stored inverse mass matrix is the inverse of the stored mass matrix, and both follow the bodies' masses, inertias and orientations."""
from ..constraints import *
from ..report import Report
from .. import par

RULE = ("every function of a state class that writes a mass matrix or its inverse is interpreted abstractly; entry by entry the product with the matching entry of the inverse "
        "is one (given that the entries it started from had that property), rotated inertia blocks are R D R^T and R D^-1 R^T for the body's own R and D, "
        "and both matrices have entries at the same places")


def pairs(m, cls):
    """(field of the mass matrix, field of its inverse) by the accessors' names"""
    out = []
    for a, b in (("M", "Minv"), ("M0", "Minv0")):
        f = []
        for nm in (a, b):
            fn = m.method(cls, nm)
            if fn is None:
                break
            I = Interp(m)
            v, s = I.run(fn, thiscls=cls)
            if isinstance(v, tuple) and v and v[0] == "lref" and v[1][0] == "fld" and v[1][1] == ("obj", "this"):
                f.append(v[1][2])
        if len(f) == 2:
            out.append(tuple(f))
    return out


def strip_phi(x, conds):
    a = x.as_atom() if isinstance(x, M) else x
    if isinstance(a, tuple) and a and a[0] == "phi":
        conds.append(a[1])
        for y in (a[2], a[3]):
            b = y.as_atom() if isinstance(y, M) else y
            if isinstance(b, tuple) and b and b[0] in ("updm", "phi", "updvals"):
                return strip_phi(y, conds)
    return x


def entries(x):
    """(shape, {index: value}) of a freshly built sparse matrix"""
    a = x.as_atom() if isinstance(x, M) else None
    if isinstance(a, tuple) and a[0] == "updm":
        b = a[1].as_atom() if isinstance(a[1], M) else None
        if isinstance(b, tuple) and b[0] == "fresh":
            return b, dict(a[2])
    if isinstance(a, tuple) and a[0] == "fresh":
        return a, {}
    return None, None


def val_atom(fld, i, nm="valuePtr"):
    return ("el", ("vals", nm, ("in", "this." + fld)), i)


def fold(x, fm, fi):
    """old inverse entry -> 1 / old entry"""
    def f(y):
        if isinstance(y, tuple) and len(y) == 3 and y[0] == "el" and y[1] == ("vals", "valuePtr", ("in", "this." + fi)):
            return P.atom(("el", ("vals", "valuePtr", ("in", "this." + fm)), y[2])).inv()
        if isinstance(y, tuple) and len(y) == 3 and y[0] == "el" and y[1] == ("in", "this." + fi):
            return P.atom(("el", ("in", "this." + fm), y[2])).inv()
        return None
    return subst(x, f)


def dual(p):
    """the expression with every atom of odd degree-one occurrence inverted is not computed: see block()"""


def rank_one(E, idx):
    """entries E[(r,c)] of a 3x3 block written as sum_k d_k u_k u_k^T: {d_k: 3x3 coefficients}"""
    out = {}
    for r in range(3):
        for c in range(3):
            p = E[r][c]
            for m_, cf in p.t.items():
                sq = []
                d = []
                for i, e in m_:
                    a = atom_of(i)
                    (d if idx(a) else sq).append((i, e))
                if len(d) != 1:
                    return None
                out.setdefault(d[0], {}).setdefault((r, c), {})[tuple(sq)] = cf
    return {d: {k: P(v) for k, v in x.items()} for d, x in out.items()}


def check_writer(rep, m, cls, fn, fm, fi):
    K = "%s/%s, after %s" % (m.domain, fm, fn.q.split("::")[-1] + ("(%d arguments)" % len(fn.params)))
    I = Interp(m)
    I.generic = True
    v, s = I.run(fn, thiscls=cls)
    if s is None:
        return False
    base = ("fld", ("obj", "this"))
    lm, li = (("fld", ("obj", "this"), f) for f in (fm, fi))
    wm = [k for k in s.store if k == lm or _under(k, lm)]
    wi = [k for k in s.store if k == li or _under(k, li)]
    if not wm and not wi:
        return False
    rep.saw(I)
    w = fn.where() + " " + fn.q
    if bool(wm) != bool(wi):
        rep.bad(K + ": the mass matrix and its inverse are updated together", w, "only %s is written" % (fm if wm else fi))
        return True
    # in-place updates of coefficients
    inplace = lambda ks, l: {k[2]: s.store[k] for k in ks if k[0] == "idx" and k[1] == ("dat", l, "valuePtr")}
    pm, pi = inplace(wm, lm), inplace(wi, li)
    if pm or pi:
        same = set(pm) == set(pi)
        rep.decide(K + ": the same coefficients of the matrix and the inverse are updated", same if not has_unk(tuple(pm) + tuple(pi)) else None, w, "%r versus %r" % (sorted(map(str, pm)), sorted(map(str, pi))))
        if m.domain == "rigidbody3d":
            inplace_blocks(rep, m, K, w, pm, pi)
        else:
            for ix in pm:
                if ix in pi:
                    x, y = pm[ix], fold(pi[ix], fm, fi)
                    rep.decide(K + ": coefficient %r times its inverse is one" % (ix,), eqd(x * y, ONE) if isinstance(x, P) and isinstance(y, P) else None, w, "%r and %r" % (x, y))
        return True
    c1, c2 = [], []
    xm, xi = strip_phi(I.load(s, lm, "Eigen::SparseMatrix<double>"), c1), strip_phi(I.load(s, li, "Eigen::SparseMatrix<double>"), c2)
    sm, em = entries(xm)
    si, ei = entries(xi)
    if em is None or ei is None:
        for x, f in ((xm, fm), (xi, fi)):
            pass
        ok = xm.as_atom() == ("in", "this." + fm) if isinstance(xm, M) else None
        am, ai = (x.as_atom() if isinstance(x, M) else None for x in (xm, xi))
        rep.und(K + ": product is the identity", w, "matrix not resolved")
        return True
    rep.decide(K + ": built under the same condition", c1 == c2 if not has_unk(tuple(c1) + tuple(c2)) else None, w, "%r versus %r" % (c1, c2))
    rep.decide(K + ": same dimensions", eqd(sm[1], si[1]) if len(sm) == len(si) == 2 else (sm == si or (None if has_unk((sm, si)) else False)), w, "%r versus %r" % (sm, si))
    rep.decide(K + ": entries at the same places", (set(em) == set(ei)) if not has_unk(tuple(em) + tuple(ei)) else None, w, "%r versus %r" % (sorted(map(str, em)), sorted(map(str, ei))))
    off = {}
    for ix, x in em.items():
        if not (isinstance(ix, tuple) and len(ix) == 2):
            continue
        if ix[0] == ix[1] and ix in ei and not rotated(x):
            y = fold(ei[ix], fm, fi)
            r = eqd(x * y, ONE) if isinstance(x, P) and isinstance(y, P) else None
            rep.decide(K + ": entry (%r,%r) times its inverse is one" % ix, r, w, "%r and %r" % (x, ei[ix]))
            rep.count("entries")
        else:
            off[ix] = x
    if off:
        built_blocks(rep, K, w, off, ei)
    return True


def rotated(x):
    return isinstance(x, P) and len(x.t) > 1


def blocks(ents):
    """group entries into 3x3 blocks by their smallest index"""
    rows = sorted({ix[0] for ix in ents} | {ix[1] for ix in ents}, key=lambda p: p.t.get((), 0))
    if len(rows) != 3 or any((a, b) not in ents for a in rows for b in rows):
        return None
    return [[ents[(a, b)] for b in rows] for a in rows]


def built_blocks(rep, K, w, off, ei):
    B, C = blocks(off), blocks({k: v for k, v in ei.items() if k in off})
    if B is None or C is None:
        rep.und(K + ": inertia block", w, "entries %r" % sorted(map(str, off)))
        return
    judge(rep, K, w, B, C, lambda d, e: d[0] == e[0] and d[1] == -e[1])


def coeff(B):
    """split sum_k d_k R_ik R_jk by the atom d_k that does not come from the orientation"""
    # the orientation atoms are those that occur squared on the diagonal
    sq = set()
    for i in range(3):
        for m_ in B[i][i].t:
            for a, e in m_:
                if e == 2:
                    sq.add(a)
    return rank_one(B, lambda a: intern(a) not in sq), sq


def judge(rep, K, w, B, C, inverse_of):
    if any(inexact(x) for r in B + C for x in r):
        rep.und(K + ": inertia block", w, "not resolved")
        return
    (b, sq), (c, sq2) = coeff(B), coeff(C)
    if b is None or c is None or len(b) != 3:
        rep.bad(K + ": inertia block is R D R^T", w, "%r" % (B,))
        return
    rep.ok(K + ": inertia block is a sum of three principal terms", w)
    ok = True
    us = []
    for d, x in b.items():
        e = [y for y in c if inverse_of(d, y)]
        if len(e) != 1:
            rep.bad(K + ": the inverse block uses the inverse principal moment", w, "no partner for %s^%d among %r" % (show(atom_of(d[0])), d[1], [(show(atom_of(y[0])), y[1]) for y in c]))
            ok = False
            continue
        rep.decide(K + ": both blocks use the same principal axis for %s" % show(atom_of(d[0])), x == c[e[0]], w, "%r versus %r" % (x, c[e[0]]))
        u = []
        for i in range(3):
            p = x.get((i, i), ZERO)
            mm = list(p.t.items())
            if len(mm) != 1 or mm[0][1] != 1 or len(mm[0][0]) != 1 or mm[0][0][0][1] != 2:
                u = None
                break
            u.append(atom_of(mm[0][0][0][0]))
        if u is None:
            rep.und(K + ": principal axis", w, "%r" % (x,))
            continue
        us.append((d, u))
        for i in range(3):
            for j in range(3):
                rep.decide(K + ": inertia block entry (%d,%d), %s term" % (i, j, show(atom_of(d[0]))), x.get((i, j), ZERO) == P.atom(u[i]) * P.atom(u[j]), w, "%r" % (x.get((i, j)),))
    # the axes are the columns of the (row-major) orientation
    if len(us) == 3:
        for d, u in us:
            ix = [a[2] if isinstance(a, tuple) and len(a) == 3 and a[0] == "el" else None for a in u]
            if any(x is None for x in ix) or not all(isinstance(x, P) for x in ix):
                rep.und(K + ": principal axes are columns of the orientation", w, repr(u))
                continue
            rep.decide(K + ": principal axis of %s is a column of the orientation" % show(atom_of(d[0])), ix[1] - ix[0] == num(3) and ix[2] - ix[0] == num(6), w, repr(ix))
            # principal moment number k goes with column k
            kd = atom_of(d[0])
            kd = kd[2] if isinstance(kd, tuple) and kd[0] == "el" else None
            us0 = min((list(map(lambda a: a[2], u2))[0] for _, u2 in us), key=lambda p: p.t.get((), 0))
            d0 = min((atom_of(d2[0])[2] for d2, _ in us), key=lambda p: p.t.get((), 0)) if all(isinstance(atom_of(d2[0]), tuple) and atom_of(d2[0])[0] == "el" and isinstance(atom_of(d2[0])[2], P) for d2, _ in us) else None
            if kd is not None and d0 is not None:
                rep.decide(K + ": principal moment %s goes with its own axis" % show(atom_of(d[0])), kd - d0 == ix[0] - us0, w, "%r %r" % (kd - d0, ix[0] - us0))


def inplace_blocks(rep, m, K, w, pm, pi):
    keys = sorted(pm, key=lambda p: p.t.get((), 0))
    if len(keys) != 9 or set(pm) != set(pi) or any(keys[k] - keys[0] != num(k) for k in range(9)):
        rep.und(K + ": inertia block", w, "written coefficients %r" % (keys,))
        return
    B = [[pm[keys[3 * c + r]] for c in range(3)] for r in range(3)]
    C = [[pi[keys[3 * c + r]] for c in range(3)] for r in range(3)]
    prs = pairs(m, "RigidBody3DState")
    tab = dict(prs)
    # partner of an old body-space coefficient: the same coefficient of the inverse body-space matrix

    def inverse_of(d, e):
        a, b = atom_of(d[0]), atom_of(e[0])
        if d[1] == -e[1] and d[0] == e[0]:
            return True
        if not all(isinstance(x, tuple) and x[0] == "el" and isinstance(x[1], tuple) and x[1][0] == "vals" for x in (a, b)):
            return False
        fa, fb = (x[1][2] for x in (a, b))
        fa, fb = (x[1][5:] if isinstance(x, tuple) and x[0] == "in" else None for x in (fa, fb))
        return a[2] == b[2] and d[1] == e[1] == 1 and tab.get(fa) == fb
    judge(rep, K, w, B, C, inverse_of)


def _under(k, top):
    while k is not None:
        if k == top:
            return True
        k = k[1] if k[0] in ("fld", "idx", "deref", "dat") else None
    return False


def state_classes(m):
    return [q for q in m.recs if m.method(q, "M") and m.method(q, "Minv") and any(f["n"] for f in m.fields(q)) and pairs(m, q)]


def writers(m, cls):
    """functions of the class that build or change it (not copies and readers of a stream)"""
    out = []
    for fn in m.fns.values():
        if fn.cls != cls or fn.dep or fn.const or fn.dtor or fn.body is None:
            continue
        ts = [fn.ptype(i) for i in range(len(fn.params))]
        if any("stream" in t for t in ts) or (len(ts) == 1 and strip_t(ts[0]).rstrip("& ") == cls) or fn.name.startswith("operator"):
            continue
        out.append(fn)
    return out


def run(tier):
    rep = Report("P07", RULE, ["orientations are rotation matrices (asserted by the code)", "a sparse matrix built in increasing order keeps the order of its coefficients"])
    items = []
    for m in models():
        for cls in state_classes(m):
            for fm, fi in pairs(m, cls):
                for fn in writers(m, cls):
                    items.append((m.domain, cls, fm, fi, fn.usr + "|" + str(fn.line)))

    def one(rep, it):
        m = model(it[0])
        fn = next(f for f in m.by_usr[it[4].split("|")[0]] if str(f.line) == it[4].split("|")[1])
        return check_writer(rep, m, it[1], fn, it[2], it[3])
    r = par.each(rep, items, one, name=lambda it: "%s %s" % (it[0], it[4][:60]))
    rep.require("functions building a mass matrix", sum(1 for x in r.values() if x), 4)
    return rep
