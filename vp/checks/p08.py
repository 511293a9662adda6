"""P08: forces are the negative gradient of the reported potential; energy and momentum reports are what they say."""
from ..alg import *
from ..ai import is_under
from ..aix import Interp
from ..model import models, model, strip_t
from ..report import Report
from ..proto import Proto, Api, flat, inp
from .. import par

RULE = ("each force law's potential and force are interpreted abstractly for a generic body (or pair of bodies); the force added to a coordinate is minus the symbolic derivative of the potential "
        "with respect to that coordinate, in every region of the case distinctions; energy and momentum reports equal the defining sums over the bodies")


class Skip(Exception):
    pass


# ---- symbolic derivative -------------------------------------------------------------------------------------------------------------------
def diff_(p, x):
    out = ZERO
    for mono, c in p.t.items():
        for n, (i, e) in enumerate(mono):
            da = diff_atom(atom_of(i), x)
            if not da.t:
                continue
            rest = P({tuple(mono[:n] + mono[n + 1:]): c})
            out = out + rest * powi(P.atom(atom_of(i)), e - 1) * num(e) * da
    return out


def powi(p, e):
    r = ONE
    if e < 0:
        return ONE / powi(p, -e)
    for _ in range(e):
        r = r * p
    return r


def diff_atom(a, x):
    if a == x:
        return ONE
    if not contains(a, lambda y: y == x):
        return ZERO
    if isinstance(a, tuple):
        if a[0] == "sqrt":
            return diff_(a[1], x) / (num(2) * P.atom(a))
        if a[0] == "wrap" or a[0] == "inv":
            return diff_(a[1], x)
        if a[0] == "fn" and a[1] == "pow" and not contains(a[3], lambda y: y == x):
            return a[3] * pow_(a[2], a[3] - ONE) * diff_(a[2], x)
        if a[0] == "phi":
            return phi(a[1], diff_(a[2], x), diff_(a[3], x))
        if a[0] == "el":
            return ZERO
    raise Skip("no derivative rule for %s" % show(a)[:80])


def pow_(a, b):
    """a^b with the constant integer part of the exponent made explicit"""
    k = b.t.get((), 0)
    if k != int(k) or not k:
        return P.atom(("fn", "pow", a, b)) if b.t else ONE
    rest = b - num(int(k))
    base = P.atom(("fn", "pow", a, rest)) if rest.t else ONE
    return base * powi(a, int(k))


def norm_pow(p):
    def f(y):
        if isinstance(y, tuple) and len(y) == 4 and y[0] == "fn" and y[1] == "pow" and isinstance(y[2], P) and isinstance(y[3], P):
            return pow_(subst(y[2], f), subst(y[3], f))
        return None
    return subst(p, f)


# ---- regions of the case distinctions -------------------------------------------------------------------------------------------------------
def conds(x, acc):
    def f(y):
        if isinstance(y, tuple) and y and y[0] == "phi":
            atoms(y[1], acc)
        return False
    contains(x, f)
    return acc


def atoms(c, acc):
    if isinstance(c, tuple) and c and c[0] in ("and", "or", "not"):
        for y in c[1:]:
            for z in (y if isinstance(y, (tuple, frozenset, list)) and not (isinstance(y, tuple) and y and isinstance(y[0], str)) else (y,)):
                atoms(z, acc)
    elif not isinstance(c, bool):
        acc.add(c)
    return acc


def region_key(c):
    """a comparison up to its boundary: (polynomial, sign)"""
    if isinstance(c, tuple) and c[0] in ("lt", "le") and len(c) == 2 and isinstance(c[1], P):
        p = square_cmp(c[1])
        q, s = norm_sign(p)
        return ("cmp", q), s
    return ("other", c), 1


def lin(p, a):
    r = p.coeff(a)
    return r[0] if r else None


def norm_sign(p):
    k = sorted(p.t.items(), key=lambda kv: repr_mono(kv[0]))[0][1]
    return (p * num(1 / abs(k)), 1) if k > 0 else (p * num(-1 / abs(k)), -1)


def square_cmp(p):
    """alpha sqrt(A) + beta compared with zero, beta a sum of lengths of one sign: compare the squares"""
    s = {a for a in p.atoms() if isinstance(a, tuple) and a[0] == "sqrt"}
    if len(s) != 1:
        return p
    s = next(iter(s))
    al = lin(p, s)
    if not isinstance(al, P) or not al.is_const():
        return p
    be = p - al * P.atom(s)
    if contains(be, lambda y: y == s) or not be.t:
        return p
    sg = {c > 0 for c in be.t.values()}
    if len(sg) != 1 or not all(isinstance(a, tuple) and a[0] == "el" for a in be.atoms()):
        return p
    if (al.cval() > 0) == sg.pop():
        return p
    r = al * al * s[1] - be * be
    return r if al.cval() > 0 else -r


def regions(xs):
    acc = set()
    for x in xs:
        conds(x, acc)
    keys = sorted({region_key(c)[0] for c in acc}, key=str)
    return keys


def resolve(x, asg):
    def truth(c):
        if isinstance(c, bool):
            return c
        if c[0] == "not":
            return not truth(c[1])
        if c[0] in ("and", "or"):
            ys = c[1] if len(c) == 2 and not (isinstance(c[1], tuple) and c[1] and isinstance(c[1][0], str)) else c[1:]
            ts = [truth(y) for y in ys]
            return all(ts) if c[0] == "and" else any(ts)
        k, s = region_key(c)
        return asg[k] if k[0] == "other" else (asg[k] < 0) == (s > 0)

    def f(y):
        if isinstance(y, tuple) and y and y[0] == "phi":
            return subst(y[2] if truth(y[1]) else y[3], f)
        return None
    return subst(x, f)


def assignments(keys):
    if len(keys) > 6:
        raise Skip("too many case distinctions")
    out = [{}]
    for k in keys:
        out = [dict(a, **{}) | {k: v} for a in out for v in ((True, False) if k[0] == "other" else (-1, 1))]
    return out


# ---- per-iteration contributions --------------------------------------------------------------------------------------------------------------
def pair_ctx(ivs):
    """canonical variables for a loop over all pairs or all bodies: {iv: name} and the domain"""
    if len(ivs) == 1:
        return {ivs[0]: "a"}, ("each", ivs[0][2], ivs[0][3])
    if len(ivs) == 2:
        o, i = ivs
        if i[2] == P.atom(o) + ONE and i[3] == o[3] and not o[2].t:
            return {o: "a", i: "b"}, ("pairs", o[3])
        if not i[2].t and i[3] == P.atom(o) and (not o[2].t or o[2] == ONE):
            return {i: "a", o: "b"}, ("pairs", o[3])
        if i[2] == P.atom(o) + ONE and not o[2].t and o[3] == i[3] - ONE:
            return {o: "a", i: "b"}, ("pairs", i[3])
    return {iv: "i%d" % n for n, iv in enumerate(ivs)}, ("other",) + tuple((iv[2], iv[3]) for iv in ivs)


def rename(x, mp):
    d = {iv[1]: n for iv, n in mp.items()}

    def f(y):
        if isinstance(y, tuple) and len(y) == 4 and y[0] == "iv" and y[1] in d:
            return P.atom(("body", d[y[1]]))
        return None
    return subst(x, f)


def norm_dom(dom):
    """number of bodies: every way of writing it is the same number"""
    def f(y):
        if isinstance(y, tuple) and y and y[0] in ("size", "idiv"):
            return P.atom("nbodies")
        return None
    return tuple(subst(x, f) if isinstance(x, P) else x for x in dom)


def nb(x):
    def f(y):
        if isinstance(y, tuple) and y and y[0] in ("size", "idiv"):
            return P.atom("nbodies")
        return None
    return subst(x, f)


def summands(u):
    """{domain: summand} of a potential"""
    out = {}

    def go(p, ivs):
        rest = ZERO
        for mono, c in p.t.items():
            s = [(i, e) for i, e in mono if isinstance(atom_of(i), tuple) and atom_of(i)[0] == "sum"]
            if len(s) > 1 or (s and s[0][1] != 1):
                raise Skip("product of sums")
            if s:
                a = atom_of(s[0][0])
                co = P({tuple(x for x in mono if x != s[0]): c})
                go(co * a[2], ivs + [a[1]])
            else:
                rest = rest + P({mono: c})
        if rest.t:
            if not ivs:
                raise Skip("a term outside the sum over bodies")
            if len(rest.t) == 1 or True:
                mp, dom = pair_ctx(ivs)
                d = norm_dom(rename(dom, mp) if False else dom)
                out[d] = out.get(d, ZERO) + rename(rest, mp)
    go(u, [])
    return out


class Increments:
    """contributions of each generic iteration to one vector"""
    def __init__(self, loc):
        self.loc = loc
        self.ivs = []
        self.out = []       # (ivs, index, increment)
        self.known = set()

    def enter(self, I, a, iv):
        self.ivs.append(iv)

    def exit(self, I, st, end, iv):
        while self.ivs and self.ivs[-1] != iv:
            self.ivs.pop()
        ivs = list(dict.fromkeys(self.ivs))
        self.ivs = [x for x in ivs if x != iv]
        inner = [c for c in self.out if set(c[0]) > set(ivs)]
        ids = {x for c in inner for x in c[0]} - set(ivs)
        for k, v in end.store.items():
            if not (k != self.loc and is_under(k, self.loc) and k[0] == "idx" and k[1] == self.loc):
                continue
            if contains(k[2], lambda y: y in ids) or not isinstance(v, P):
                continue
            if not contains(k[2], lambda y: y == iv) and not contains(v, lambda y: y == iv):
                continue
            # drop what inner loops contributed
            own = P({mono: c for mono, c in v.t.items() if not any(isinstance(atom_of(i), tuple) and atom_of(i)[0] == "sum" and atom_of(i)[1] in ids for i, e in mono)})
            self.out = [c for c in self.out if c[:2] != (tuple(ivs), k[2])]
            a = own.as_atom()
            if not (isinstance(a, tuple) and (a[0] == "carry" or a == ("el", ("in", self.loc[1]), k[2]))):
                self.out.append((tuple(ivs), k[2], own, I.where()))

    def hooks(self):
        return {"loop_enter": self.enter, "loop_exit": self.exit}


def rename_params(x, mp):
    mp = {a: b for a, b in mp.items() if a != b}
    return subst(x, lambda y: ("in", mp[y[1]]) if isinstance(y, tuple) and len(y) == 2 and y[0] == "in" and y[1] in mp else None) if mp else x


def force_law(rep, m, cls):
    K = "%s/%s" % (m.domain, cls)
    fu, ff = m.method(cls, "computePotential"), m.method(cls, "computeForce")
    I = Interp(m)
    u, s = I.run(fu, thiscls=cls)
    rep.saw(I)
    inc = Increments(("obj", ff.params[-1]["n"]))
    J = Interp(m, hooks=inc.hooks())
    r, st = J.run(ff, thiscls=cls)
    rep.saw(J)
    w = ff.where() + " " + ff.q
    resname = ff.params[-1]["n"]
    qn = ("in", ff.params[0]["n"])
    # name the potential's arguments like the force's
    u = rename_params(u, {fu.params[0]["n"]: ff.params[0]["n"], **{fu.params[-1 - k]["n"]: ff.params[-2 - k]["n"] for k in range(len(fu.params) - 1)}})
    isb = lambda y: isinstance(y, tuple) and y and (y[0] == "carry" or (y[0] == "el" and contains(y[1], lambda z: z == ("in", resname))))
    if not isinstance(u, P) or has_unk(u):
        rep.und(K + ": the potential", fu.where(), "not resolved")
        return
    try:
        U = {d: norm_pow(nb(x)) for d, x in summands(u).items()}
        F = {}
        for ivs, idx, v, wh in inc.out:
            mp, dom = pair_ctx(list(ivs))
            F.setdefault(norm_dom(dom), []).append((nb(rename(idx, mp)), norm_pow(nb(rename(v, mp)))))
        if not F:
            rep.decide(K + ": force", not U, w, "no coordinate receives a force although the potential is not constant")
            return
        doms = set(U) | set(F)
        if len(doms) > 1 and any(d[0] == "other" for d in doms):
            raise Skip("the loops over the bodies are not recognised")
        for d in sorted(doms, key=str):
            pot = U.get(d, ZERO)
            inc_ = {}
            for idx, v in F.get(d, []):
                inc_.setdefault(idx, []).append(v)
            xs = pos_atoms(pot, qn)
            for a in xs:
                inc_.setdefault(a[2], [])
            allx = [pot] + [v for vs in inc_.values() for v in vs]
            if any(has_unk(x) for x in allx):
                raise Skip("a value is not resolved")
            keys = regions(allx)
            for idx in sorted(inc_, key=str):
                cand = [a for a in xs if a[2] == idx]
                key = K + ": force on coordinate %s (%s)" % (show(idx).replace("body<", "").replace(">", ""), d[0])
                if len(set(cand)) > 1:
                    raise Skip("several names for one coordinate")
                bad = None
                for asg in assignments(keys):
                    p = resolve(pot, asg)
                    want = -diff_(p, cand[0]) if cand else ZERO
                    got = ZERO
                    for v in inc_[idx]:
                        v = resolve(v, asg)
                        bs = {a for a in v.atoms() if isb(a)}
                        if len(bs) > 1 or (bs and lin(v, next(iter(bs))) != ONE):
                            bad = (asg, "the force does not add to what is already there: %s" % show(v)[:200])
                            break
                        if not bs:
                            bad = (asg, "the force replaces what is already there: %s" % show(v)[:200])
                            break
                        got = got + v - P.atom(next(iter(bs)))
                    if bad:
                        break
                    a, b = norm_pow(want), norm_pow(got)
                    if a != b:
                        bad = (asg, "force %s, minus the derivative of the potential %s" % (show(b)[:300], show(a)[:300]))
                        break
                rep.decide(key, bad is None, w, bad[1] if bad else "")
    except Skip as e:
        rep.und(K + ": force against potential", w, str(e))


def pos_atoms(p, qn):
    out = set()

    def f(y):
        if isinstance(y, tuple) and len(y) == 3 and y[0] == "el" and y[1] == qn:
            out.add(y)
        return False
    contains(p, f)
    return out


# ---- reports: energy, momentum, total force ---------------------------------------------------------------------------------------------------
DIM = {"ball2d": (2, 2, 2), "rigidbody2d": (3, 3, 2), "rigidbody3d": (12, 6, 3)}     # configuration, velocity and space dimensions per body


class System:
    """members of a state class by what their accessors return; this = how the object is reached"""
    def __init__(self, m, state, prefix):
        self.m, self.state, self.prefix = m, state, prefix
        self.f = {}
        for nm in ("q", "v", "M", "Minv", "M0", "Minv0", "r", "forces", "fixed"):
            for fn in [f for f in m.fns.values() if f.cls == state and f.name == nm and not f.params]:
                I = Interp(m)
                v, st = I.run(fn, thiscls=state)
                if isinstance(v, tuple) and v and v[0] == "lref" and v[1][0] == "fld" and v[1][1] == ("obj", "this"):
                    self.f[nm] = v[1][2]
        self.name = {("in", prefix + "." + f): nm for nm, f in self.f.items()}

    def who(self, x, extra=None):
        if extra and x in extra:
            return extra[x]
        n = self.name.get(x)
        return "stored " + n if n and n in (extra or {}).values() else n


class Canon:
    """rewrites a value in terms of: number of bodies N, body index, mass(i), inertia(i,j,k), q and v components of a body"""
    def __init__(self, S, dom, params=None):
        self.S, self.dom, self.params = S, dom, params or {}
        self.nq, self.nv, self.d = DIM[dom]

    def count(self, x):
        S = self.S

        def f(y):
            if not isinstance(y, tuple) or not y:
                return None
            if y[0] == "size" and len(y) == 2:
                a = y[1].as_atom() if isinstance(y[1], M) else y[1]
                w = S.who(a, self.params)
                if w == "q":
                    return P.atom("N") * num(self.nq)
                if w == "v":
                    return P.atom("N") * num(self.nv)
                if w in ("r", "fixed"):
                    return P.atom("N")
            if y[0] == "in" and y[1].endswith("m_nbodies"):
                return P.atom("N")
            if y[0] in ("idiv", "cdiv") and isinstance(y[1], P) and isinstance(y[2], P) and y[2].is_const() and y[2].t:
                r = y[1] / y[2]
                if all(c.denominator == 1 for c in r.t.values()):
                    return r
            return None
        return subst(x, f)

    def elements(self, x, body="a"):
        """x: polynomial with ("body", a)"""
        i = P.atom(("body", body))
        N = P.atom("N")

        def split(ix, per, base):
            r = ix - base - num(per) * i
            return int(r.cval()) if r.is_const() and 0 <= r.cval() < per else None

        def f(y):
            if not isinstance(y, tuple) or len(y) != 3 or y[0] != "el":
                return None
            ix = y[2]
            if not isinstance(ix, P):
                return None
            w = self.S.who(y[1], self.params)
            v = y[1]
            if isinstance(v, tuple) and v and v[0] == "vals" and len(v) == 3:
                a = v[2].as_atom() if isinstance(v[2], M) else v[2]
                k = self.S.who(a, self.params)
                if k == "M":
                    if self.dom != "rigidbody3d":
                        r = split(ix, self.nv, ZERO)
                        return None if r is None else P.atom(("mass", body)) if r < 2 else P.atom(("inertia", body, 0, 0))
                    r = split(ix, 3, ZERO)
                    if r is not None:
                        return P.atom(("mass", body))
                    r = split(ix, 9, num(3) * N)
                    return None if r is None else P.atom(("inertia", body) + tuple(sorted((r // 3, r % 3))))
                return None
            if w in ("q", "v"):
                if self.dom != "rigidbody3d":
                    per = self.nq if w == "q" else self.nv
                    r = split(ix, per, ZERO)
                    return None if r is None else P.atom((w, body, r))
                r = split(ix, 3, ZERO)
                if r is not None:
                    return P.atom((w, body, r))
                per = 9 if w == "q" else 3
                r = split(ix, per, num(3) * N)
                return None if r is None else P.atom((w, body, 3 + r))
            return None
        return subst(x, f)

    def kinetic(self, body="a"):
        out = ZERO
        for c in range(self.d):
            out = out + P.atom(("mass", body)) * P.atom(("v", body, c)) * P.atom(("v", body, c))
        if self.dom == "rigidbody2d":
            w = P.atom(("v", body, 2))
            out = out + P.atom(("inertia", body, 0, 0)) * w * w
        if self.dom == "rigidbody3d":
            for j in range(3):
                for k in range(3):
                    out = out + P.atom(("inertia", body) + tuple(sorted((j, k)))) * P.atom(("v", body, 3 + j)) * P.atom(("v", body, 3 + k))
        return out

    def per_body(self, p):
        """the summand for body a of a total; raises Skip when it is not a sum over all bodies"""
        # v.(M v) as a whole
        tot = ZERO
        rest = ZERO
        for mono, c in p.t.items():
            at = [(atom_of(i), e) for i, e in mono]
            if len(at) == 1 and at[0][1] == 1 and isinstance(at[0][0], tuple) and at[0][0][0] == "wd":
                ws = [self.S.who(a, self.params) for a, t in at[0][0][1]]
                if ws == ["v", "M", "v"] and at[0][0][1][0][0] == at[0][0][1][2][0]:
                    tot = tot + self.kinetic() * num(c)
                    continue
                if all(ws):
                    raise Wrong("value is %s" % show(p)[:120])
                raise Skip("matrix product %s" % show(at[0][0])[:80])
            rest = rest + P({mono: c})
        if rest.t:
            for d, x in self.sums(rest).items():
                tot = tot + x
        return tot

    def sums(self, p):
        out = {}

        def go(p, ivs):
            r = ZERO
            for mono, c in p.t.items():
                s = [(i, e) for i, e in mono if isinstance(atom_of(i), tuple) and atom_of(i)[0] == "sum"]
                if len(s) > 1 or (s and s[0][1] != 1):
                    raise Skip("product of sums")
                if s:
                    a = atom_of(s[0][0])
                    go(P({tuple(x for x in mono if x != s[0]): c}) * a[2], ivs + [a[1]])
                else:
                    r = r + P({mono: c})
            if r.t:
                if len(ivs) != 1:
                    raise Skip("not a single sum over the bodies: %s" % show(r)[:100])
                lo, hi = self.count(ivs[0][2]), self.count(ivs[0][3])
                if lo.t or hi != P.atom("N"):
                    if contains(hi, lambda y: isinstance(y, tuple) and y and y[0] in ("size", "idiv", "cdiv", "call", "in")):
                        raise Skip("number of bodies: %s" % show(hi)[:80])
                    raise Wrong("the sum runs over bodies %s to %s" % (show(lo), show(hi)))
                x = self.elements(self.count(rename(r, {ivs[0]: "a"})))
                out["each"] = out.get("each", ZERO) + x
        go(p, [])
        return out


class Wrong(Exception):
    pass


def systems(m):
    """(class with reports, state class, how the state is reached)"""
    out = []
    st = [q for q in m.recs if q.endswith("State") and m.method(q, "M") and m.method(q, "forces")]
    for q in sorted(m.recs):
        if q in st:
            out.append((q, q, "this"))
            continue
        for f in m.fields(q):
            if strip_t(f["t"]) in st and (m.method(q, "computeForce")):
                out.append((q, strip_t(f["t"]), "this." + f["n"]))
    return out


def reports(rep, m, cls, state, prefix):
    S = System(m, state, prefix)
    d = m.domain
    K = "%s/%s" % (d, cls)
    nq, nv, dim = DIM[d]
    B = "a"
    mv = [P.atom(("mass", B)) * P.atom(("v", B, c)) for c in range(dim)]
    x = [P.atom(("q", B, c)) for c in range(dim)]
    if dim == 2:
        ang = [x[0] * mv[1] - x[1] * mv[0] + (P.atom(("inertia", B, 0, 0)) * P.atom(("v", B, 2)) if d == "rigidbody2d" else ZERO)]
    else:
        cr = lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        ang = [c + sum_(P.atom(("inertia", B) + tuple(sorted((j, k)))) * P.atom(("v", B, 3 + k)) for k in range(3)) for j, c in enumerate(cr(x, mv))]

    def fn(name, n):
        f = m.method(cls, name)
        return f if f is not None and f.body is not None and len(f.params) == n else None

    def compare(key, f, comps, want, params=None):
        w = f.where() + " " + f.q
        C = Canon(S, d, params)
        if comps is None or len(comps) != len(want):
            rep.und(key, w, "value not resolved")
            return
        for c, (g, e) in enumerate(zip(comps, want)):
            kk = key + (" (component %d)" % c if len(want) > 1 else "")
            if not isinstance(g, P) or has_unk(g):
                rep.und(kk, w, "value not resolved")
                continue
            try:
                got = C.per_body(g)
                left = contains(got, lambda y: isinstance(y, tuple) and y and y[0] in ("el", "call", "fn", "phi"))
                if got != e and left and contains(got, lambda y: isinstance(y, tuple) and y and y[0] in ("call",)):
                    rep.und(kk, w, "contains calls that are not resolved")
                    continue
                rep.decide(kk, got == e, w, "per body %s, defined as %s" % (show(got)[:250], show(e)[:250]))
            except Skip as x_:
                rep.und(kk, w, str(x_))
            except Wrong as x_:
                rep.bad(kk, w, str(x_))

    def comps(v, st, loc, n):
        """components of a returned or stored vector"""
        if isinstance(v, tuple) and v and v[0] == "lref":
            loc = v[1]
        if isinstance(v, V):
            return list(v.e)
        if loc is not None:
            b = st.store.get(loc)
            out = []
            for i in range(n):
                k = ("idx", loc, num(i))
                e = st.store.get(k)
                if e is None and isinstance(b, V):
                    e = b.e[i]
                out.append(e)
            return out if all(e is not None for e in out) else None
        if isinstance(v, P):
            return [v]
        return None
    n = 0
    for name, want in (("computeKineticEnergy", None), ("computeMomentum", mv), ("computeAngularMomentum", ang), ("computeTotalMomentum", mv), ("computeTotalAngularMomentum", ang)):
        for np in (0, 2):
            f = fn(name, np)
            if f is None:
                continue
            n += 1
            I = Interp(m)
            v, st = I.run(f, thiscls=cls)
            rep.saw(I)
            if name == "computeKineticEnergy":
                compare(K + ": kinetic energy", f, [v], [Canon(S, d).kinetic() * num(1) / num(2)])
                continue
            params = {("in", f.params[0]["n"]): "v"} if np else None
            loc = ("obj", f.params[1]["n"]) if np else None
            label = "momentum" if want is mv else "angular momentum"
            compare(K + ": %s, %s" % (label, name), f, comps(None if np else v, st, loc, len(want)), want, params)
    # potential and total energy
    fu, fk, ft = fn("computePotentialEnergy", 0), fn("computeKineticEnergy", 0), fn("computeTotalEnergy", 0)
    vals = {}
    for f in (fu, fk, ft):
        if f is not None:
            I = Interp(m)
            vals[f.name], st = I.run(f, thiscls=cls)
            rep.saw(I)
            n += 1
    if fu is not None:
        potential(rep, S, K, fu, vals[fu.name])
    if ft is not None and fu is not None and fk is not None:
        a, b, c = (vals[f.name] for f in (ft, fu, fk))
        rep.decide(K + ": total energy is kinetic plus potential energy", None if any(not isinstance(y, P) or has_unk(y) for y in (a, b, c)) else a == b + c, ft.where() + " " + ft.q, "%s versus %s" % (show(a)[:200], show(b + c)[:200]))
    ff = fn("computeForce", 4)
    if ff is not None:
        n += 1
        total_force(rep, m, S, K, cls, ff)
    fz = fn("zeroOutForcesOnFixedBodies", 1)
    if fz is not None:
        n += 1
        zeroed(rep, m, S, K, cls, fz)
    return n


def call_args(m, S, q, args, qv):
    """the arguments a force law must be given: configuration, (velocity,) mass matrix and radii of this system"""
    out = []
    for p, a in zip(q.params, args):
        out.append((p["n"], a))
    return out


def potential(rep, S, K, f, v):
    w = f.where() + " " + f.q
    key = K + ": potential energy is the sum over all force laws at the current state"
    if not isinstance(v, P) or has_unk(v):
        rep.und(key, w, "value not resolved")
        return
    a = v.as_atom()
    if not (isinstance(a, tuple) and a[0] == "sum"):
        rep.bad(key, w, "value is %s" % show(v)[:200])
        return
    iv, body = a[1], a[2].as_atom()
    ok = isinstance(body, tuple) and body[0] == "call" and body[1].endswith("::computePotential") and isinstance(body[2], tuple)
    law = body[2] if ok else None
    if ok and law[0] == "derefof" and isinstance(law[1], tuple) and law[1][0] == "el":
        law = ("at", law[1][1], (law[1][2],))
    ok = ok and law[0] == "at"
    if not ok:
        rep.bad(key, w, "summand is %s" % show(a[2])[:200])
        return
    forces = "%s.%s" % (S.prefix, S.f.get("forces"))
    whole = not iv[2].t and iv[3] == P.atom(("size", ("in", forces)))
    rep.decide(K + ": the potential energy sums over all force laws", whole and law[2] == (P.atom(iv),), w, "sum over %s .. %s" % (show(iv[2]), show(iv[3])))
    got = [S.who(x.as_atom() if isinstance(x, M) else x) for x in body[3]]
    want = ["q", "M", "r"][:len(got)]
    rep.decide(K + ": each potential is evaluated at the current state", got == want, w, "arguments %s" % show(body[3])[:200])


class Pre:
    """value of one variable before the first loop, and at the end of each generic iteration"""
    def __init__(self, loc):
        self.loc, self.pre, self.end = loc, None, {}

    def enter(self, I, a, iv):
        if self.pre is None:
            self.pre = I.load(a, self.loc, "?")

    def exit(self, I, st, end, iv):
        self.end[iv] = end.store.get(self.loc)


def is_zero(v):
    if isinstance(v, M):
        if not v.t:
            return True
        v = v.as_atom()
    return isinstance(v, tuple) and bool(v) and v[0] == "zeros" or isinstance(v, V) and all(not e.t for e in v.e)


def total_force(rep, m, S, K, cls, f):
    w = f.where() + " " + f.q
    loc = ("obj", f.params[3]["n"])
    h = Pre(loc)
    I = Interp(m, hooks={"loop_enter": h.enter, "loop_exit": h.exit})
    v, st = I.run(f, thiscls=cls)
    rep.saw(I)
    ev = list(flat(st.ev))
    calls = [e for e in st.ev if e[0] == "loop"]
    inner = [(e[1], x) for e in calls for x in e[2] if x[0] == "call" and x[1].endswith("::computeForce")]
    outer = [e for e in st.ev if e[0] == "call" and e[1].endswith("::computeForce")]
    if len(inner) != 1 or outer:
        rep.decide(K + ": every force law is added exactly once", None if not inner and not outer else False, w, "%d calls per force law, %d others" % (len(inner), len(outer)))
        return
    iv, c = inner[0]
    forces = ("fld", None, S.f.get("forces"))
    fpath = "%s.%s" % (S.prefix, S.f.get("forces"))
    recv = c[2]
    okr = recv[0] == "deref" and recv[1][0] == "idx" and recv[1][1][0] == "fld" and recv[1][1][2] == S.f.get("forces") and recv[1][2] == P.atom(iv)
    rep.decide(K + ": every force law is added exactly once", okr and not iv[2].t and iv[3] == P.atom(("size", ("in", fpath))), c[5], "force law %s for %s .. %s" % (recv, show(iv[2]), show(iv[3])))
    rep.decide(K + ": the accumulated force starts from zero", is_zero(h.pre), w, "starts from %s" % show(h.pre)[:160])
    pn = {("in", f.params[0]["n"]): "the given q", ("in", f.params[1]["n"]): "the given v"}
    got = []
    for x in c[3][:-1]:
        a = x.as_atom() if isinstance(x, M) else x
        got.append(pn.get(a) or S.name.get(a) or show(a)[:60])
    want = ["the given q", "the given v", "M", "r"][:len(got)]
    rep.decide(K + ": the force is evaluated at the given configuration and velocity", got == want, c[5], "evaluated at %s" % got)
    rep.decide(K + ": the force law's result is kept unchanged", c[4][-1] == loc and isinstance(h.end.get(iv), M) and isinstance(h.end[iv].as_atom(), tuple) and h.end[iv].as_atom()[0] == "out", c[5], "afterwards %s" % show(h.end.get(iv))[:160])


def zeroed(rep, m, S, K, cls, f):
    w = f.where() + " " + f.q
    I = Interp(m)
    v, st = I.run(f, thiscls=cls)
    rep.saw(I)
    if st is None or I.isdead(st):
        rep.count("refused by the program")
        return
    scripted = m.method(cls, "isKinematicallyScripted")
    J = Interp(m)
    sv, _ = J.run(scripted, thiscls=cls)
    loc = ("obj", f.params[0]["n"])
    ks = {k: x for k, x in st.store.items() if k[0] == "idx" and k[1] == loc}
    if sv is False:
        ok = all(x == P.atom(("el", ("in", loc[1]), k[2])) for k, x in ks.items())
        rep.decide(K + ": no force is removed from a simulated body", ok, w, "")
        return
    C = Canon(S, m.domain, {("in", loc[1]): "v"})
    seen = {}
    for k, x in ks.items():
        ivs = []
        contains(k[2], lambda y: ivs.append(y) if isinstance(y, tuple) and len(y) == 4 and y[0] == "iv" else False)
        if len(set(ivs)) != 1:
            rep.und(K + ": forces on fixed bodies are removed", w, "index %s" % show(k[2]))
            return
        iv = ivs[0]
        e = C.elements(C.count(rename(P.atom(("el", ("in", loc[1]), k[2])), {iv: "a"}))).as_atom()
        a = x.as_atom() if isinstance(x, P) else None
        cond = subst(sv, lambda y: P.atom(iv) if y == ("in", scripted.params[0]["n"]) else None)
        hi = C.count(iv[3])
        ok = isinstance(a, tuple) and a[0] == "phi" and I.equal(a[1], cond) and not a[2].t and a[3] == P.atom(("el", ("in", loc[1]), k[2])) and not iv[2].t and hi == P.atom("N")
        if isinstance(e, tuple) and e[0] == "v":
            seen[e[2]] = ok
            rep.decide(K + ": force component %d of a fixed body, and of no other, is removed" % e[2], ok, w, show(x)[:200])
        else:
            rep.und(K + ": forces on fixed bodies are removed", w, "component %s" % show(k[2]))
            return
    missing = [c for c in range(DIM[m.domain][1]) if c not in seen]
    rep.decide(K + ": every force component of a fixed body is removed", not missing, w, "components %s are kept" % missing)


def laws(m):
    out = []
    for q in sorted(m.recs):
        if m.method(q, "computePotential") and m.method(q, "computeForce") and q in m.concrete(q):
            out.append(q)
    return out


def run(tier):
    rep = Report("P08", RULE, ["exact arithmetic", "case distinctions are compared up to their boundary", "radii are not negative"])
    items = []
    for m in models():
        for c in laws(m):
            if m.method(c, "computePotential").cls.endswith("Sim") or m.method(c, "computePotential").body is None:
                continue
            items.append((m.domain, "law", c))
        for c, st, pre in systems(m):
            items.append((m.domain, "reports", c, st, pre))

    def one(rep, it):
        m = model(it[0])
        if it[1] == "law":
            force_law(rep, m, it[2])
        else:
            reports(rep, m, *it[2:])
    par.each(rep, items, one, name=lambda it: "%s/%s" % (it[0], it[2]))
    rep.require("force laws", len([i for i in items if i[1] == "law"]), 4)
    rep.require("reports", len([i for i in items if i[1] == "reports"]), 3)
    return rep
