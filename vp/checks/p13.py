"""P13: the broad phase never loses a touching pair."""
from ..model import models
from ..proto import *
from ..ai import State, root_of, Undecided, path, base_type, strip_ic
from ..report import Report
from .. import par
from fractions import Fraction
import itertools

RULE = ("the bounding-box functions of every shape, the box overlap test, the grid's cell ranges, keys and pair loops and the list of boxes every detection routine builds "
        "are evaluated as value numbers (branches as boolean terms, loops by their index sets) and compared with what enclosure and completeness of the candidate pairs require")
SEQS = ("std::vector<", "std::set<")


def flat2(ev, out=None, ctx=()):
    """calls, appends and marks in program order with the loops and branches around them"""
    out = [] if out is None else out
    for e in ev:
        if e[0] == "loop":
            flat2(e[2], out, ctx + (("loop", e[1]),))
        elif e[0] == "br":
            flat2(e[2], out, ctx + (("if", e[1]),))
            flat2(e[3], out, ctx + (("if", b_not(e[1])),))
        else:
            out.append((Api(e) if e[0] == "api" else e, ctx))
    return out


def conds(ctx):
    return b_and(*[c[1] for c in ctx if c[0] == "if"])


def loops(ctx):
    return [c[1] for c in ctx if c[0] == "loop"]


def mems(n):
    for x in walk(n):
        if isinstance(x, dict) and x.get("k") == "mem":
            return x.get("n")
    return None


def field_of(m, cls, meth):
    """the member an accessor returns"""
    fn = m.method(cls, meth)
    f = None
    if fn is not None and fn.body:
        for x in walk(fn.body):
            if isinstance(x, dict) and x.get("k") == "mem":
                f = x.get("n") or x.get("name")
                break
    return f


def accessor(m, cls, meth):
    fn = m.method(cls, meth)
    if fn is None or not fn.body:
        return None
    I = Interp(m)
    v, s = I.run(fn)
    if isinstance(v, tuple) and v and v[0] == "lref":
        v = I.load(s, v[1], base_type(fn.ret) if hasattr(fn, "ret") else "?")
    return v


def opaque(v):
    return has_unk(v) or contains(v, lambda y: isinstance(y, tuple) and y and y[0] in ("uninit", "unk", "opaque"))


# ---- shapes -----------------------------------------------------------------------
def const_nonneg(d):
    return isinstance(d, P) and d.is_const() and d.cval() >= 0


def encloses(got_min, got_max, lo, hi):
    """True / False / None; lo and hi are the exact extremes"""
    if not (isinstance(got_min, V) and isinstance(got_max, V)) or len(got_min.e) != len(lo):
        return None
    r = True
    for a, b, x, y in zip(got_min.e, got_max.e, lo, hi):
        for d in (x - a, b - y):
            if const_nonneg(d):
                continue
            if opaque(d):
                r = None if r is True else r
            else:
                r = False
    return r


def aabs(p):
    if p.is_const():
        return num(abs(p.cval()))
    return P.atom(("abs", canon_sign(p)))


def shape_of(m, cls, R, c):
    """exact extremes (lo, hi) of the shape with orientation R about c, from its public description; None if unknown"""
    n = len(c)
    r = accessor(m, cls, "r")
    h = accessor(m, cls, "halfWidths")
    pts = accessor(m, cls, "points")
    vs = accessor(m, cls, "vertices")
    if isinstance(h, V) or isinstance(r, V):
        h = h if isinstance(h, V) else r
        ex = [sum_(aabs(R[i][j]) * h.e[j] for j in range(n)) for i in range(n)]
        return "box", [x - e for x, e in zip(c, ex)], [x + e for x, e in zip(c, ex)]
    if pts is not None and isinstance(r, P):
        el = lambda k: [P.atom(("el", ("el", pts, num(k)), num(j))) for j in range(3)]
        return "points", pts, r
    if isinstance(vs, M):
        return "mesh", vs, None
    if isinstance(r, P):
        return "ball", [x - r for x in c], [x + r for x in c]
    return None


def minmax_of(I, kind, vals):
    out = vals[0]
    for v in vals[1:]:
        out = minmax(kind, out, v)
    return out


def shapes(rep, m, cls):
    base = "RigidBody2DGeometry" if "RigidBody2DGeometry" in m.recs else "RigidBodyGeometry"
    two = base == "RigidBody2DGeometry"
    n = 2 if two else 3
    for meth in (("computeAABB", "computeCollisionAABB") if two else ("computeAABB",)):
        key = "%s/%s/%s encloses the shape" % (m.domain, cls, meth)
        fn = m.method(cls, meth)
        if fn is None or not fn.body:
            rep.und(key, "", "no definition found")
            continue
        I = Interp(m)
        st = State()
        ps = [p["n"] for p in fn.params]
        V2 = "Eigen::Matrix<double, 2, 1>"
        args, poses = [], []
        if two:
            names = ["x1", "theta1"] if meth == "computeAABB" else ["x0", "theta0", "x1", "theta1"]
        else:
            names = ["cm", "R"]
        names += ["min", "max"]
        args = [("loc", ("obj", x)) for x in names]
        at = lambda nm, k: P.atom(("el", ("in", nm), num(k)))
        I.frozen = None
        v, s = I.run(fn, args=args, st=st)
        rep.saw(I)
        got = []
        for x in ("min", "max"):
            t = base_type(fn.types[fn.params[names.index(x)]["t"]])
            got.append(I.load(s, ("obj", x), t))
        where = "%s:%s" % (fn.file, fn.line)
        if not all(isinstance(g, V) and len(g.e) == n for g in got):
            rep.und(key, where, "box not resolved: %s" % sh(got[0]))
            continue
        if two:
            th = P.atom(("in", "theta1"))
            co, si = trig(th)
            R = [[co, -si], [si, co]]
            c = [at("x1", k) for k in range(2)]
        else:
            Rm = I.load(State(), ("obj", "R"), base_type(fn.types[fn.params[1]["t"]]))
            R = [[Rm.e[3 * i + j] for j in range(3)] for i in range(3)]
            c = [at("cm", k) for k in range(3)]
        sh_ = shape_of(m, cls, R, c)
        if sh_ is None:
            rep.und(key, where, "shape without a public description")
            continue
        if sh_[0] == "points":
            fr = I.load(State(), ("obj", "q"), "?")
            pf = sh_[1]
            cnt = count_points(m, cls)
            if cnt is None:
                rep.und(key, where, "number of corners not found")
                continue
            vals = []
            for k in range(cnt):
                e = [P.atom(("el", ("el", pf, num(k)), num(j))) for j in range(3)]
                vals.append([sum_(R[i][j] * e[j] for j in range(3)) + c[i] for i in range(3)])
            want_lo = [minmax_of(I, "min", [v_[i] for v_ in vals]) - sh_[2] for i in range(3)]
            want_hi = [minmax_of(I, "max", [v_[i] for v_ in vals]) + sh_[2] for i in range(3)]
            rep.decide(key, encloses(got[0], got[1], want_lo, want_hi), where, "box is\n  min %s\n  max %s\nthe shape reaches from\n  %s\nto\n  %s" % (sh(got[0], 600), sh(got[1], 600), sh(want_lo[0], 400), sh(want_hi[0], 400)))
            continue
        if sh_[0] == "mesh":
            rep.decide(key, mesh_box(got, sh_[1], Rm, c), where, "box is\n  min %s\n  max %s\nnot the extremes of the placed vertices" % (sh(got[0], 900), sh(got[1], 900)))
            continue
        res = encloses(got[0], got[1], sh_[1], sh_[2])
        det = "box is\n  min %s\n  max %s\nthe shape reaches from\n  %s\nto\n  %s" % (sh(got[0], 600), sh(got[1], 600), sh(V(n, 1, sh_[1]), 600), sh(V(n, 1, sh_[2]), 600))
        rep.decide(key, res if meth == "computeAABB" else None if res is None else end_of_step(got, sh_, at), where, det)


def end_of_step(got, s, at):
    """the swept box holds the shape at the end of the step, and at its start for shapes tested along the path"""
    def below(a, y):
        d = y - a
        if const_nonneg(d):
            return True
        # min{..} - r below one of its members
        def pick(kind):
            for t in a.atoms():
                if isinstance(t, tuple) and t[0] == kind and isinstance(t[1], frozenset):
                    for z in t[1]:
                        rest = a - P.atom(t) + z
                        if const_nonneg(y - rest if kind == "min" else rest - y):
                            return True
            return False
        return pick("min")
    def above(b, y):
        d = b - y
        if const_nonneg(d):
            return True
        for t in b.atoms():
            if isinstance(t, tuple) and t[0] == "max" and isinstance(t[1], frozenset):
                for z in t[1]:
                    if const_nonneg(b - P.atom(t) + z - y):
                        return True
        return False
    swap = {}
    ends = [(s[1], s[2])]
    if s[0] == "ball":
        tr = lambda y: y[2] if False else None
        start = []
        for seq in (s[1], s[2]):
            start.append([subst(p, lambda y: at("x0", int(y[2].cval())) if isinstance(y, tuple) and len(y) == 3 and y[0] == "el" and y[1] == ("in", "x1") and y[2].is_const() else None) for p in seq])
        ends.append(tuple(start))
    for lo, hi in ends:
        for a, b, x, y in zip(got[0].e, got[1].e, lo, hi):
            if not below(a, x) or not above(b, y):
                return None if opaque(a) or opaque(b) else False
    return True


def trig(th):
    ct = canon_sign(th)
    c, s = P.atom(("fn", "cos", ct)), P.atom(("fn", "sin", ct))
    return c, s if ct == th else -s


def count_points(m, cls):
    """number of corners the constructor makes"""
    for fn in m.by_q.get("%s::%s" % (cls, cls), []):
        if fn.body is None or len(fn.params) < 1:
            continue
        I = Interp(m)
        try:
            v, s = I.run(fn)
        except Exception:
            continue
        for f in m.fields(cls):
            if "std::vector" in f["t"]:
                n = I.size_of(I.load(s, ("fld", ("obj", "this"), f["n"]), f["t"]))
                if n.is_const() and n.cval() > 0:
                    return int(n.cval())
    return None


def mesh_box(got, vs, Rm, c):
    """min over all columns of (R col + cm)"""
    n = M.atom(("cols", vs))
    for k in range(3):
        for g, kind in ((got[0].e[k], "minover"), (got[1].e[k], "maxover")):
            ts = [t for t in g.atoms() if isinstance(t, tuple) and t[0] == kind]
            if len(ts) != 1:
                return None if opaque(g) or not ts else False
            rest = g - P.atom(ts[0])
            if not (rest.is_const() and (rest.cval() <= 0 if kind == "minover" else rest.cval() >= 0)):
                return False
            iv, body = ts[0][1], ts[0][2]
            if iv[2] != ZERO or not contains(iv[3], lambda y: y == vs or y == ("in", path_of(vs))):
                return False
            word = body - c[k]
            a = word.as_atom()
            if a is None or a[0] != "el" or a[2] != num(k):
                return False if not opaque(body) else None
            w = a[1]
            if not contains(w, lambda y: isinstance(y, tuple) and y and y[0] in ("blkof", "col") and contains(y, lambda z: z == iv)):
                return None
            if not contains(w, lambda y: y == ("V", Rm) or y == Rm or isinstance(y, tuple) and y and y[0] == "V" and list(y[1].e if isinstance(y[1], V) else []) == list(Rm.e)):
                return False
            if contains(w, lambda y: isinstance(y, tuple) and len(y) == 2 and y[1] is True and isinstance(y[0], tuple) and y[0] and y[0][0] == "V"):
                return False            # transposed
    return True


def path_of(v):
    a = v.as_atom() if isinstance(v, (M, P)) else None
    return a[1] if isinstance(a, tuple) and a and a[0] == "in" else None


# ---- overlap test -----------------------------------------------------------------
def overlap_terms(m, I, la, lb):
    """closed overlap of two boxes given the locations of the boxes"""
    fa = [m.method("AABB", x) for x in ("min", "max")]
    vals = []
    for l in (la, lb):
        row = []
        for fn in [f for f in fa]:
            f = field_of(m, "AABB", fn.name if hasattr(fn, "name") else fn.q.split("::")[-1])
            t = next(g["t"] for g in m.fields("AABB") if g["n"] == f)
            row.append(I.load(State(), ("fld", l, f), t))
        vals.append(row)
    (amin, amax), (bmin, bmax) = vals
    return b_and(*[b_cmp("<=", x, y) for x, y in list(zip(amin.e, bmax.e)) + list(zip(bmin.e, amax.e))])


def overlaps(rep, m):
    fns = [f for f in m.by_q.get("AABB::overlaps", []) if f.body]
    for fn in fns:
        I = Interp(m)
        v, s = I.run(fn)
        rep.saw(I)
        want = overlap_terms(m, I, ("obj", "this"), ("obj", fn.params[0]["n"] or "arg0"))
        v = as_bool(v)
        ok = True if v == want else None if opaque(v) else bool_equal(v, want)
        rep.decide("%s/AABB::overlaps is the closed overlap of the boxes" % m.domain, ok, "%s:%s" % (fn.file, fn.line), "answer %s\nexpected %s" % (sh(v, 900), sh(want, 900)))
    # a box remembers the corners it was made from
    for fn in [f for f in m.by_q.get("AABB::AABB", []) if f.body and len(f.params) == 2]:
        I = Interp(m)
        v, s = I.run(fn)
        rep.saw(I)
        for k, x in enumerate(("min", "max")):
            f = field_of(m, "AABB", x)
            t = next(g["t"] for g in m.fields("AABB") if g["n"] == f)
            got = I.load(s, ("fld", ("obj", "this"), f), t)
            want = I.load(State(), ("obj", fn.params[k]["n"]), t)
            rep.decide("%s/AABB/%s corner is the one given" % (m.domain, x), got == want, "%s:%s" % (fn.file, fn.line), "got %s" % sh(got, 300))
    return len(fns)


def as_bool(v):
    if isinstance(v, P):
        a = v.as_atom()
        if isinstance(a, tuple) and a and a[0] == "b2n":
            return a[1]
    return v


def bool_atoms(c, out=None):
    out = set() if out is None else out
    if isinstance(c, tuple) and c and c[0] in ("and", "or"):
        for x in c[1]:
            bool_atoms(x, out)
    elif isinstance(c, tuple) and c and c[0] == "not":
        bool_atoms(c[1], out)
    elif not isinstance(c, bool):
        out.add(norm_atom(c)[0])
    return out


def norm_atom(c):
    """(atom, positive?)"""
    if isinstance(c, tuple) and c and c[0] == "le":
        return ("lt", -c[1]), False
    return c, True


def bool_val(c, env):
    if isinstance(c, bool):
        return c
    if isinstance(c, tuple) and c and c[0] == "and":
        return all(bool_val(x, env) for x in c[1])
    if isinstance(c, tuple) and c and c[0] == "or":
        return any(bool_val(x, env) for x in c[1])
    if isinstance(c, tuple) and c and c[0] == "not":
        return not bool_val(c[1], env)
    a, pos = norm_atom(c)
    return env[a] == pos


def bool_equal(a, b, limit=14):
    at = sorted(bool_atoms(a) | bool_atoms(b), key=str)
    if len(at) > limit:
        return None
    for bits in itertools.product((False, True), repeat=len(at)):
        env = dict(zip(at, bits))
        if bool_val(a, env) != bool_val(b, env):
            return False
    return True


def atom_of(i):
    from .. import alg
    return alg._atoms[i]


# ---- grid -------------------------------------------------------------------------
class Grid(Proto):
    """the overlap test stays a named question"""

    def __init__(self, m, fn):
        Proto.__init__(self, m, lambda f: f["q"] == "AABB::overlaps")
        self.fn = fn
        self.I.hooks["call"].insert(0, self.cell)
        self.run(fn)
        self.ev = flat2(self.s.ev)

    def cell(self, I, st, n, f, obj, args):
        if f["q"] == "AABB::overlaps":
            a, b = I.obj_loc(st, obj, n.get("arrow")), I.lval(st, args[0])
            if a is not None and b is not None:
                return ("bool", ("overlap", frozenset((a, b))))
            return None
        if f["n"] in ("emplace_back", "push_back") and obj is not None:
            l = I.obj_loc(st, obj, n.get("arrow"))
            if l is None:
                return None
            keys = self.keys_of(I, st, l, obj)
            if keys:
                v = I.eval(st, args[0])
                st.ev.append(("cellpush", frozenset(keys), freeze(v), I.where(n)))
                return ("void",)
        return None

    def keys_of(self, I, st, l, obj):
        """keys of the map entry a location belongs to"""
        out = set()
        o = strip_ic(obj)
        if o.get("k") == "opcall" and o.get("op") == "[]" and base_type(I.ty(o["args"][0])).startswith("std::map<"):
            out.add(I.eval(st, o["args"][1]))
        while isinstance(l, tuple) and len(l) > 1 and not out:
            if l[0] == "idx" and isinstance(l[2], tuple) and l[2] and l[2][0] == "key":
                out.add(l[2][1])
            if l[0] in ("idx", "fld"):
                l = l[1]
            elif l[0] == "deref":
                self.scan(I.load(st, l[1], "?"), out)
                l = None
            else:
                l = None
        return out

    def scan(self, v, out):
        if isinstance(v, tuple) and v:
            if v[0] in ("findres", "insres"):
                out.add(v[2])
                return
            if v[0] == "ptr":
                l = v[1]
                if isinstance(l, tuple) and l and l[0] == "idx":
                    out.add(l[2])
                    return
            if v[0] == "phi":
                for x in v[2:]:
                    self.scan(x, out)
                return
            for x in v[1:]:
                self.scan(x, out)


def value_at(p, env):
    """number of a polynomial whose atoms are all given"""
    tot = Fraction(0)
    for mono, c in p.t.items():
        for i, e in mono:
            a = atom_of(i)
            if a not in env:
                return None
            c = c * env[a] ** e
        tot += c
    return tot


def element_of(p):
    """(container, index) of an element value"""
    a = p.as_atom() if isinstance(p, P) else None
    if isinstance(a, tuple) and len(a) == 3 and a[0] == "el":
        return a[1], a[2]
    return None


def pairs_cover(ctx, ia, ib, size):
    """the loops around visit every unordered pair of distinct positions below size; False with a witness, None if not readable"""
    ls = [iv for iv in loops(ctx) if iv in ia.atoms() | ib.atoms()]
    while True:
        more = [iv for iv in loops(ctx) if iv not in ls and any(iv in x.atoms() for o in ls for x in o[2:4] if isinstance(x, P))]
        if not more:
            break
        ls = [iv for iv in loops(ctx) if iv in ls + more]
    satom = size.as_atom()
    if satom is None:
        return None, "number of boxes unknown"
    for n in range(0, 7):
        seen = set()
        def rec(k, env):
            if k == len(ls):
                a, b = value_at(ia, env), value_at(ib, env)
                if a is None or b is None:
                    return False
                seen.add((int(a), int(b)))
                return True
            lo, hi = value_at(ls[k][2], env), value_at(ls[k][3], env)
            if lo is None or hi is None:
                return False
            for x in range(int(lo), int(hi)):
                e = dict(env)
                e[ls[k]] = x
                if not rec(k + 1, e):
                    return False
            return True
        if not rec(0, {satom: n}):
            return None, "loop bounds not readable"
        for i in range(n):
            for j in range(i + 1, n):
                if (i, j) not in seen and (j, i) not in seen:
                    return False, "with %d boxes the pair (%d, %d) is never visited" % (n, i, j)
        for a, b in seen:
            if a == b:
                return False, "with %d boxes, box %d is paired with itself" % (n, a)
            if not (0 <= a < n and 0 <= b < n):
                return False, "with %d boxes, position %d is visited" % (n, a if not 0 <= a < n else b)
    return True, ""


def grid(rep, m, fn):
    key = "%s/%s(%s)" % (m.domain, fn.q, ",".join(str(len(fn.params))))
    g = Grid(m, fn)
    I = g.I
    rep.saw(I)
    outp = next((p["n"] for p in fn.params if ("set" in fn.types[p["t"]] or "vector<unsigned" in fn.types[p["t"]]) and "const" not in fn.types[p["t"]].split("<")[0]), None)
    inp_ = next((p["n"] for p in fn.params if "vector" in fn.types[p["t"]] and "AABB" in fn.types[p["t"]]), None)
    where = "%s:%s" % (fn.file, fn.line)
    if outp is None or inp_ is None:
        rep.und(key + " parameters", where, "interface not recognised")
        return
    N = P.atom(("size", ("in", inp_)))
    outs = [(e, c) for e, c in g.ev if isinstance(e, tuple) and e[0] == "append" and e[1] == ("obj", outp)]
    cells = [(e, c) for e, c in g.ev if isinstance(e, tuple) and e[0] == "cellpush"]
    if not outs:
        rep.decide(key + " reports pairs", None if I.notes else False, where, "nothing is ever reported")
        return
    # what is reported
    for e, ctx in outs:
        w = e[3]
        v = e[2]
        if isinstance(v, tuple) and v and v[0] == "kv":
            a, b = v[1], v[2]
        elif isinstance(v, P):
            trial = next((p["n"] for p in fn.params if p["n"] not in (inp_, outp)), None)
            lv = [iv for iv in loops(ctx)]
            cov = len(lv) == 1 and lv[0][2] == ZERO and lv[0][3] == N and v == P.atom(lv[0])
            rep.decide(key + " every box is compared with the trial box", cov, w, "reported %s for %s" % (sh(v), sh(lv)))
            want = ("bool", ("overlap", frozenset((("obj", trial), ("idx", ("obj", inp_), v)))))
            rep.decide(key + " exactly the overlapping boxes are reported", same_cond(conds(ctx), want), w, "reported when %s" % sh(conds(ctx), 600))
            continue
        else:
            rep.und(key + " reported pair", w, sh(v))
            continue
        want = ("bool", ("overlap", frozenset((("idx", ("obj", inp_), a), ("idx", ("obj", inp_), b)))))
        rep.decide(key + " exactly the overlapping pairs are reported, with their own numbers", same_cond(conds(ctx), want), w, "pair (%s, %s) is reported when %s" % (sh(a), sh(b), sh(conds(ctx), 600)))
        ea, eb = element_of(a), element_of(b)
        if ea is None and eb is None:
            ok, why = pairs_cover(ctx, a, b, N)
            rep.decide(key + " every pair of boxes is visited", ok, w, why)
        elif ea and eb:
            if ea[0] != eb[0]:
                rep.bad(key + " pairs come from one cell", w, "%s and %s" % (sh(ea[0]), sh(eb[0])))
                continue
            sizes = [x for iv in loops(ctx) for x in iv[2:4] if isinstance(x, P) and any(isinstance(t, tuple) and t[0] == "size" for t in x.atoms())]
            sat = {t for x in sizes for t in x.atoms() if isinstance(t, tuple) and t[0] == "size" and t[1] == ea[0]}
            if len(sat) != 1:
                rep.und(key + " every pair of a cell is visited", w, "cell size not found")
                continue
            sz = P.atom(next(iter(sat)))
            ok, why = pairs_cover(ctx, ea[1], eb[1], sz)
            rep.decide(key + " every pair of a cell is visited", ok, w, why)
            # the outermost loop visits every cell
            cellloops = [iv for iv in loops(ctx) if contains(ea[0], lambda y: y == iv)]
            full = len(cellloops) == 1 and cellloops[0][2] == ZERO and isinstance(cellloops[0][3], P) and (cellloops[0][3].as_atom() or ("",))[0] == "size"
            rep.decide(key + " every cell is visited", full if cellloops else None, w, "cells %s" % sh(cellloops))
        else:
            rep.und(key + " reported pair", w, "%s, %s" % (sh(a), sh(b)))
    if not cells:
        if any(element_of(x) for e, c in outs if isinstance(e[2], tuple) for x in e[2][1:3]):
            rep.und(key + " cells are filled", where, "no insertion into a cell recognised")
        return
    dim = len(I.load(State(), ("fld", ("idx", ("obj", inp_), ZERO), field_of(m, "AABB", "min")), next(f["t"] for f in m.fields("AABB") if f["n"] == field_of(m, "AABB", "min"))).e)
    for e, ctx in cells:
        w = e[3]
        ls = loops(ctx)
        box = next((iv for iv in ls if e[2] == P.atom(iv)), None)
        rep.decide(key + " a cell lists the boxes that touch it", True if box else None if opaque(e[2]) else False, w, "%s is inserted" % sh(e[2]))
        if box is None:
            continue
        rep.decide(key + " every box is inserted", box[2] == ZERO and box[3] == N, w, "boxes %s" % sh(box))
        c = conds(ctx)
        ok = True if c is True else None if opaque(c) else False
        lit = c[1] if isinstance(c, tuple) and c and c[0] == "not" else c
        if isinstance(lit, tuple) and lit and lit[0] == "bool" and isinstance(lit[1], tuple) and lit[1] and lit[1][0] == "has":
            # only when the cell is already there (or not yet there): the other case has to list the box itself
            rest = [x for x, cx in g.ev if isinstance(x, tuple) and x[0] == "append" and isinstance(x[2], tuple) and x[2] and x[2][0] == "kv" and conds(cx) == b_not(c)]
            ok = None if any(x[2][2] != ("empty",) for x in rest) else False
        rep.decide(key + " insertion is unconditional", ok, w, "only when %s" % sh(c, 500))
        ks = e[1]
        if len(ks) != 1:
            rep.bad(key + " the cell inserted into is the one of the key", w, "keys %s" % " / ".join(sh(k) for k in ks))
            continue
        rep.ok(key + " the cell inserted into is the one of the key", w)
        kk = next(iter(ks))
        axes = [iv for iv in ls if iv != box and contains(kk, lambda y: y == iv)]
        others = [iv for iv in ls if iv != box and iv not in axes]
        if others or len(axes) != dim:
            rep.bad(key + " every cell the box touches is visited along each axis", w, "%d of %d axes" % (len(axes), dim))
            continue
        # ranges
        bel = lambda x, k: below_box(m, I, inp_, box, x, k)
        found, geo, bad = {}, {}, None
        for iv in axes:
            lo, up = iv[2], iv[3] - ONE
            for k in range(dim):
                a, b = bel("min", k), bel("max", k)
                ca, cb = lo.coeff(a), up.coeff(b)
                if ca and ca[0] != ZERO and cb and cb[0] != ZERO:
                    found[iv] = k
                    geo[iv] = (ca, cb)
        if len(set(found.values())) != dim:
            rep.decide(key + " cell range follows the box's corners", None if any(opaque(x) for iv in axes for x in iv[2:4]) else False, w, "ranges %s" % "; ".join(sh(iv[2]) + " .. " + sh(iv[3]) for iv in axes))
            continue
        arr = {}
        for iv in axes:
            k = found[iv]
            (ca, ra), (cb, rb) = geo[iv]
            if ca != cb:
                rep.bad(key + " axis %d: both ends use one cell width" % k, w, "%s and %s" % (sh(ca), sh(cb)))
                continue
            rep.ok(key + " axis %d: both ends use one cell width" % k, w)
            s = (rb - ra) / ca if hasattr(rb, "__truediv__") else None
            s = simplify(s)
            rep.decide(key + " axis %d: the range reaches from the low to the high corner" % k, s.cval() >= 0 if s.is_const() else None if opaque(s) else False, w, "margin %s" % sh(s))
            # origin below every box
            mn = P.atom(("minover", ("iv", 0, ZERO, N), subst(bel("min", k), lambda y: P.atom(("iv", 0, ZERO, N)) if y == box else None)))
            mo = extreme(ra, "minover")
            mx = None
            arr[iv] = (k, ca, ra, rb, mo)
            if mo is None:
                rep.decide(key + " axis %d: the grid starts below every box" % k, None if opaque(ra) else False, w, "origin %s" % sh(-ra / ca, 400))
            else:
                z = simplify((ra + ca * P.atom(mo)) / ca)
                good = is_box_extreme(m, I, inp_, mo, "min", k, N)
                rep.decide(key + " axis %d: the grid starts below every box" % k, good and z.is_const() and z.cval() >= 0, w, "lowest cell position %s, origin from %s" % (sh(z), sh(mo, 300)))
        # key: mixed radix
        ivs = list(axes)
        radix, rest, okk = {}, kk, True
        for iv in ivs:
            cf = kk.coeff(iv)
            if cf is None or contains(cf[0], lambda y: y in ivs):
                okk = False
                break
            radix[iv] = cf[0]
        if not okk:
            rep.decide(key + " different cells have different keys", None if opaque(kk) else False, w, "key %s" % sh(kk, 500))
            continue
        order = [iv for iv in ivs if radix[iv] == ONE]
        cur = ONE
        left = [iv for iv in ivs if iv not in order]
        why = ""
        good = len(order) == 1
        digits = {}
        while good and left:
            prev = order[-1]
            nxt = None
            for iv in left:
                q = simplify(radix[iv] / cur)
                if q.as_atom() is not None:
                    nxt = (iv, q)
                    break
            if nxt is None:
                good = False
                break
            digits[prev] = nxt[1]
            cur = cur * nxt[1]
            order.append(nxt[0])
            left.remove(nxt[0])
        rep.decide(key + " different cells have different keys", good, w, "key %s" % sh(kk, 700))
        if good:
            for iv, d in digits.items():
                if iv not in arr:
                    continue
                k, ca, ra, rb, mo = arr[iv]
                a = d.as_atom()
                if not (isinstance(a, tuple) and a[0] == "fn" and a[1] == "ceil"):
                    rep.decide(key + " axis %d: more cells than the highest cell index" % k, None if opaque(d) or a is None or a[0] != "fn" else False, w, "cells along the axis %s" % sh(d, 400))
                    continue
                mx = extreme(a[2], "maxover")
                if mx is None or not is_box_extreme(m, I, inp_, mx, "max", k, N):
                    rep.bad(key + " axis %d: more cells than the highest cell index" % k, w, "cells along the axis %s" % sh(d, 400))
                    continue
                z = simplify((a[2] - (rb + ca * P.atom(mx))) / ca)
                rep.decide(key + " axis %d: more cells than the highest cell index" % k, z.is_const() and z.cval() > 0, w, "slack %s" % sh(z, 300))


def simplify(p):
    return p


def extreme(p, kind):
    ts = [t for t in p.atoms() if isinstance(t, tuple) and t[0] == kind]
    return ts[0] if len(ts) == 1 else None


def below_box(m, I, name, box, which, k):
    f = field_of(m, "AABB", which)
    t = next(g["t"] for g in m.fields("AABB") if g["n"] == f)
    return I.load(State(), ("fld", ("idx", ("obj", name), P.atom(box)), f), t).e[k].as_atom()


def is_box_extreme(m, I, name, t, which, k, N):
    iv, body = t[1], t[2]
    return iv[2] == ZERO and iv[3] == N and body == P.atom(below_box(m, I, name, iv, which, k))


def same_cond(c, want):
    if c == want:
        return True
    if isinstance(c, tuple) and c and c[0] == "bool" and isinstance(c[1], tuple) and c[1][0] == "overlap":
        return False            # another question than this pair's
    if opaque(c):
        return None
    return bool_equal(c, want)


# ---- the detection routines -------------------------------------------------------
NARROW = {"dispatchNarrowPhaseCollision", "dispatchTeleportedNarrowPhaseCollision", "generateTeleportedCollision", "generateTeleportedBallBallCollision",
          "collisionIsActive", "teleportedCollisionIsActive", "teleportedBallBallCollisionHappens", "teleportedCollisionHappens", "isActive", "ballBallCCDCollisionHappens"}
TEST = {"teleportedCollisionIsActive", "teleportedBallBallCollisionHappens", "teleportedCollisionHappens"}
GEO = {"RigidBody2DGeometry", "RigidBodyGeometry"}


class Sim(Proto):
    """one detection routine; (t0, t1) say whether the two boxes of a candidate pair are images of teleported bodies"""

    def __init__(self, m, fn, t0, t1):
        self.fn, self.t = fn, (t0, t1)
        self.boxes = None
        self.cands = 0
        self.asked = set()
        Proto.__init__(self, m, self.pick, decide=self.which)
        self.I.hooks["call"].insert(0, self.look)
        self.I.hooks["construct"] = self.made
        self.run(fn)
        self.ev = flat2(self.s.ev) if self.s is not None else []

    def pick(self, f):
        return f["n"] == "getPotentialOverlaps" or f.get("cls") == "PlanarPortal" or f.get("cls") in GEO and f["n"] in ("computeAABB", "computeCollisionAABB") or f["n"] in NARROW

    def made(self, I, st, loc, cls, f, args, e):
        if cls in ("TeleportedCollision", "TeleportedBall", "TeleportedBody") and len(args) > 1:
            st.ev.append(("mk", cls, tuple(freeze(I.eval(st, a)) for a in args), I.where(e) if isinstance(e, dict) else "", loc))
        return None

    def elem(self, k):
        return ("fldof", "elem", k)

    def look(self, I, st, n, f, obj, args):
        if f["n"] == "find" and obj is not None and base_type(I.ty(obj)).startswith("std::map<"):
            k = I.eval(st, args[0])
            for i, x in enumerate(("first", "second")):
                if is_member(k, x):
                    return ("ptr", ("obj", "FOUND%d" % i))
            return None
        if f["n"] == "getPotentialOverlaps":
            self.boxes = I.lval(st, args[0])
        if f["n"] in TEST or f["n"] in ("isActive", "collisionIsActive"):
            st.ev.append(("ask", f["n"], tuple(freeze(I.eval(st, a)) for a in args), I.where(n)))
        if f.get("cls") in GEO and f["n"] in ("computeAABB", "computeCollisionAABB"):
            k = self.n.get(f["n"], 0) + 1
            outs = tuple(I.lval(st, a) for a in args[-2:])
            st.ev.append(("boxout", "%s@%d" % (f["n"], k), outs, I.where(n)))
        return None

    def which(self, p, st, c):
        return self.truth(c)

    def truth(self, c):
        """three-valued truth of a condition in this situation"""
        if isinstance(c, bool):
            return c
        if isinstance(c, tuple) and c:
            if c[0] in ("and", "or"):
                vs = [self.truth(x) for x in c[1]]
                if c[0] == "and":
                    return False if False in vs else True if all(v is True for v in vs) else None
                return True if True in vs else False if all(v is False for v in vs) else None
            if c[0] == "not":
                v = self.truth(c[1])
                return None if v is None else not v
            if c[0] in ("lt", "le") and isinstance(c[1], P):
                for i, x in enumerate(("first", "second")):
                    a = next((t for t in c[1].atoms() if is_member(P.atom(t), x)), None)
                    if a is None:
                        continue
                    co, rest = c[1].coeff(a)
                    if c[0] == "lt" and co == ONE and bodies_count(-rest):          # member < number of bodies
                        self.asked.add(i)
                        return not self.t[i]
                    if c[0] == "le" and co == -ONE and bodies_count(rest):          # number of bodies <= member
                        self.asked.add(i)
                        return self.t[i]
        return None


def is_member(v, x):
    """is v the first / second number of a candidate pair"""
    a = v.as_atom() if isinstance(v, P) else None
    return isinstance(a, tuple) and a[0] == "fldof" and a[2] == x and contains(a[1], lambda y: isinstance(y, str) and y.startswith("getPotentialOverlaps@") or isinstance(y, tuple) and y and isinstance(y[0], str) and y[0] == "in" and "getPotentialOverlaps@" in str(y[1]))


def bodies_count(p):
    """is p the number of bodies"""
    a = p.as_atom() if isinstance(p, P) else None
    if a is None:
        s = p.single() if isinstance(p, P) else None
        if not s:
            return False
        at = [atom_of(i) for i, e in s[1]]
        return len(at) == 1 and s[1][0][1] == 1 and at[0][0] == "size" and s[0] in (Fraction(1, 2), Fraction(1, 3), Fraction(1, 12))
    if a[0] == "idiv":
        return bodies_count_raw(a)
    if a[0] == "size":
        return any(contains(a, lambda y: y == ("in", "this.%s" % x) or isinstance(y, str) and y.endswith(x)) for x in ("m_fixed", "m_r", "m_geometry_indices"))
    return a[0] == "in" and "nbodies" in str(a[1]) or a[0] == "in" and "nballs" in str(a[1])


def bodies_count_raw(a):
    q, d = a[1], a[2]
    qa = q.as_atom() if isinstance(q, P) else None
    return isinstance(qa, tuple) and qa[0] == "size" and d.is_const() and d.cval() in (2, 3, 12)


def vec_at(name, lo, n):
    return [P.atom(("el", ("in", name), lo + num(k))) for k in range(n)]


def sim_routine(rep, m, fn):
    key0 = "%s/%s" % (m.domain, fn.q)
    where = "%s:%s" % (fn.file, fn.line)
    r = Sim(m, fn, False, False)
    rep.saw(r.I)
    bset = box_list(rep, m, r, key0, where)
    portals = any(isinstance(e, Api) and e.nm == "getPotentialOverlaps" for e, c in r.ev) and any(isinstance(e, tuple) and e[0] == "append" and isinstance(e[2], tuple) and e[2] and e[2][0] == "kv" for e, c in r.ev)
    cand(rep, m, r, key0, where)
    if portals:
        for t0, t1 in ((True, False), (False, True), (True, True)):
            teleported(rep, m, Sim(m, fn, t0, t1), key0 + " (%s)" % ("both teleported" if t0 and t1 else "first teleported" if t0 else "second teleported"), where)


def pose_args(m, n2, args, q, iv):
    """does the argument list place body iv as in q"""
    i = P.atom(iv) if isinstance(iv, tuple) else iv
    if n2:
        return isinstance(args[0], V) and list(args[0].e) == vec_at(q, num(3) * i, 2) and args[1] == vec_at(q, num(3) * i + num(2), 1)[0]
    return isinstance(args[0], V) and list(args[0].e) == vec_at(q, num(3) * i, 3) and orient(args[1], q, i)


def orient(R, q, i):
    if not isinstance(R, V) or len(R.e) != 9:
        return False
    a = R.e[0].as_atom()
    if not (isinstance(a, tuple) and a[0] == "el" and a[1] == ("in", q)):
        return False
    base = a[2]
    n = base - num(9) * i
    c = n.single()
    return bool(c) and c[0] == 3 and bodies_count(n / num(3)) and list(R.e) == vec_at(q, base, 9)


def box_list(rep, m, r, key, where):
    """the boxes handed to the candidate search"""
    api = next(((e, c) for e, c in r.ev if isinstance(e, Api) and e.nm == "getPotentialOverlaps"), None)
    if api is None or r.boxes is None:
        rep.und(key + " candidate search", where, "call not found")
        return
    rep.decide(key + " the candidate search always runs", True if conds(api[1]) is True and not loops(api[1]) else None, api[0].where, sh(api[1], 300))
    n2 = m.domain != "rigidbody3d"
    outs = {e[1]: e for e, c in r.ev if isinstance(e, tuple) and e[0] == "boxout"}
    calls = {e.tag: (e, c) for e, c in r.ev if isinstance(e, Api) and e.nm in ("computeAABB", "computeCollisionAABB")}
    fmin, fmax = field_of(m, "AABB", "min"), field_of(m, "AABB", "max")
    rows = []           # (ctx, min value, max value, where, index or None, event position)
    for pos, (e, c) in enumerate(r.ev):
        if isinstance(e, tuple) and e[0] == "append" and e[1] == r.boxes:
            mn, mx = part(e[2], fmin), part(e[2], fmax)
            rows.append((c, mn, mx, e[3], None, pos))
        elif isinstance(e, tuple) and e[0] == "boxout":
            l = e[2][0]
            if isinstance(l, tuple) and l[0] == "fld" and isinstance(l[1], tuple) and l[1][0] == "idx" and l[1][1] == r.boxes:
                ok = e[2] == (("fld", l[1], fmin), ("fld", l[1], fmax))
                ok = e[1] if ok else False if all(o[:2] == ("fld", l[1]) for o in e[2]) else None
                rows.append((c, ok, ok, e[3], l[1][2], pos))
    body = [x for x in rows if len(loops(x[0])) == 1]
    tele = [x for x in rows if len(loops(x[0])) > 1]
    if len(body) != 1:
        rep.und(key + " a box for every body", where, "%d places make boxes" % len(body))
        return
    c, mn, mx, w, idx, pos = body[0]
    iv = loops(c)[0]
    rep.decide(key + " a box for every body", not early(r, [iv]) and iv[2] == ZERO and bodies_count(iv[3]) and (idx is None or idx == P.atom(iv)) and conds(c) is True, w, "boxes for %s when %s" % (sh(iv), sh(conds(c), 300)))
    if tele and tele[0][5] < pos:
        rep.bad(key + " a body's box has the body's number", w, "boxes of images come first")
    one_box(rep, m, r, key + " the box of a body is that of its own shape and pose", calls, mn, mx, w, lambda k: iv, n2, None)
    for c, mn, mx, w, idx, pos in tele:
        teleported_box(rep, m, r, key, calls, c, mn, mx, w, pos, n2)


def part(v, f):
    if isinstance(v, tuple) and v and v[0] == "objv":
        for steps, x in v[2]:
            if steps == (("fld", f),):
                return x
    return None


def api_of(calls, mn, mx):
    """the shape's box call that produced both corners, in order"""
    if mn is False:
        return False
    if isinstance(mn, str):
        return calls.get(mn)
    if not (isinstance(mn, V) and isinstance(mx, V)):
        return None
    tag = None
    for v, k in ((mn, -2), (mx, -1)):
        names = {t[1][1].rsplit(".", 1) for e in v.e for t in e.atoms() if False}
    def src(v):
        s = set()
        for i, e in enumerate(v.e):
            a = e.as_atom()
            if not (isinstance(a, tuple) and a[0] == "el" and a[1][0] == "in" and "@" in a[1][1] and a[2] == num(i)):
                return None
            s.add(a[1][1])
        return s.pop() if len(s) == 1 else None
    a, b = src(mn), src(mx)
    if a is None or b is None:
        return None
    ta, ka = a.rsplit(".", 1)
    tb, kb = b.rsplit(".", 1)
    if ta != tb or ta not in calls:
        return False
    n = len(calls[ta][0].args)
    return calls[ta] if (int(ka), int(kb)) == (n - 2, n - 1) else False


def one_box(rep, m, r, key, calls, mn, mx, w, body, n2, moved):
    """moved: elements of the position to expect instead of the body's own"""
    call = api_of(calls, mn, mx)
    if call is False:
        rep.bad(key, w, "corners %s and %s" % (sh(mn, 300), sh(mx, 300)))
        return
    if call is None:
        # the box is made here (balls)
        if not (isinstance(mn, V) and isinstance(mx, V)) or opaque(mn) or opaque(mx):
            rep.und(key, w, "box %s" % sh(mn, 300))
            return
        i = P.atom(body(0))
        rad = radius_of(m, i)
        if rad is None:
            rep.und(key, w, "radius not found")
            return
        c1 = moved or vec_at("q1", num(2) * i, 2)
        ends = [c1]
        if any(contains(e, lambda y: y == ("in", "q0")) for e in mn.e) or any(isinstance(e, Api) and e.nm == "ballBallCCDCollisionHappens" for e, c in r.ev):
            ends.append(vec_at("q0", num(2) * i, 2))
        ok = True
        for cc in ends:
            for a, b, x in zip(mn.e, mx.e, cc):
                ok = ok and reaches(a, x - rad, "min") and reaches(b, x + rad, "max")
        rep.decide(key, ok, w, "box %s to %s, body at %s with radius %s" % (sh(mn, 300), sh(mx, 300), sh(V(2, 1, c1), 200), sh(rad)))
        return
    e, c = call
    iv = body(0)
    i = P.atom(iv)
    if e.nm == "computeAABB":
        if moved is None:
            good = pose_args(m, n2, e.args, "q1", iv)
        else:
            good = isinstance(e.args[0], V) and list(e.args[0].e) == moved and (e.args[1] == vec_at("q1", num(3) * i + num(2), 1)[0] if n2 else orient(e.args[1], "q1", i))
    else:
        good = pose_args(m, n2, e.args[:2], "q0", iv) and pose_args(m, n2, e.args[2:4], "q1", iv)
    ivs = {x for x in loops(c)}
    own = shape_index(m, r, e)
    good = good and (own is None or own == i)
    rep.decide(key, good, w, "shape %s at %s" % (sh(e.who, 200), "; ".join(sh(a, 250) for a in e.args[:-2])))
    rep.decide(key + ": computed in the same pass", True if iv in ivs else False, w, "")


def shape_index(m, r, e):
    """body whose geometry was asked: the index used in the geometry table"""
    out = []
    def go(v):
        if isinstance(v, P):
            for t in v.atoms():
                go(t)
        elif isinstance(v, (tuple, frozenset)):
            if isinstance(v, tuple) and len(v) == 3 and v[0] in ("el", "idx") and isinstance(v[2], P) and str(v[1]).find("ndices") >= 0:
                out.append(v[2])
                return
            for x in v:
                go(x)
    go(e.who)
    return out[0] if len(out) == 1 else None


def reaches(a, y, kind):
    for z in [a] + [a - P.atom(t) + x for t in a.atoms() if isinstance(t, tuple) and t[0] == kind and isinstance(t[1], frozenset) for x in t[1]]:
        d = y - z if kind == "min" else z - y
        if const_nonneg(d):
            return True
    return False


def radius_of(m, i):
    """the state's radius of ball i"""
    for cls in m.recs:
        if cls.endswith("State"):
            for f in m.fields(cls):
                if f["n"] == (field_of(m, cls, "r") or "?"):
                    sim = next((g["n"] for c in m.recs if c.endswith("Sim") for g in m.fields(c) if base_type(g["t"]) == cls), None)
                    if sim:
                        return P.atom(("el", ("in", "this.%s.%s" % (sim, f["n"])), i))
    return None


def teleported_box(rep, m, r, key, calls, c, mn, mx, w, pos, n2):
    key = key + " image of a body in a portal"
    ls = loops(c)
    # which loop runs over portals and which over bodies
    pb = [iv for iv in ls if isinstance(iv[3], P) and (iv[3].as_atom() or ("",))[0] in ("size", "in") and "portal" in str(iv[3].as_atom()).lower()]
    bb = [iv for iv in ls if bodies_count(iv[3])]
    if len(ls) != 2 or len(pb) != 1 or len(bb) != 1:
        rep.decide(key + ": every body in every portal", None if any(opaque(iv[3]) for iv in ls) else False, w, sh(ls, 300))
        return
    pv, bv = pb[0], bb[0]
    rep.decide(key + ": every body in every portal", pv[2] == ZERO and bv[2] == ZERO and not early(r, ls), w, sh(ls, 300))
    i = P.atom(bv)
    apis = [(e, cx, k) for k, (e, cx) in enumerate(r.ev) if isinstance(e, Api) and loops(cx) == ls]
    touch = [x for x in apis if "ouches" in x[0].nm]
    tele = [x for x in apis if x[0].nm.startswith("teleport")]
    if len(touch) != 1 or len(tele) != 1:
        rep.und(key + ": the portal is asked", w, "%d tests, %d moves" % (len(touch), len(tele)))
        return
    tc, tl = touch[0][0], tele[0][0]
    cnd = conds(c)
    yes = ("bool", r.I.initial("%s.ret" % tc.tag, "bool"))
    want = {("bool", P.atom(("in", "%s.ret" % tc.tag))), r.I.initial("%s.ret" % tc.tag, "bool")}
    rep.decide(key + ": made exactly when the body touches the portal", True if cnd in want else None if opaque(cnd) else False, w, "when %s" % sh(cnd, 300))
    for x, nm in ((tc, "test"), (tl, "move")):
        rep.decide(key + ": the %s is the portal's own" % nm, contains(x.who, lambda y: y == pv) and not contains(x.who, lambda y: y == bv), x.where, "portal %s" % sh(x.who, 200))
    # position asked and moved
    q = vec_at("q1", (num(2) if m.domain == "ball2d" else num(3)) * i, 3 if m.domain == "rigidbody3d" else 2)
    fmin, fmax = field_of(m, "AABB", "min"), field_of(m, "AABB", "max")
    a0 = tc.args[0]
    if isinstance(a0, V) and list(a0.e) == q:
        ok = True
    elif isinstance(a0, V) and isinstance(tc.args[1], V):
        ok = all(elem_corner(x, i, f) for v, f in ((a0, fmin), (tc.args[1], fmax)) for x in v.e)
    else:
        ok = False
    rad = [a for a in tc.args[1:] if isinstance(a, P) and not str(a.as_atom()).startswith("('in', 'plane")]
    if m.domain == "ball2d" and rad:
        ok = ok and rad[0] == radius_of(m, i)
    rep.decide(key + ": the body itself is tested", ok, tc.where, "asked about %s" % "; ".join(sh(a, 200) for a in tc.args))
    rep.decide(key + ": the body's own position is moved", isinstance(tl.args[0], V) and list(tl.args[0].e) == q, tl.where, "moved %s" % sh(tl.args[0], 300))
    outk = len(tl.args) - 1
    plane = [k for k, t in enumerate(r.types[tc.tag]) if base_type(t) == "bool"]
    if plane and any(base_type(t) == "bool" for t in r.types[tl.tag]):
        k = next(k for k, t in enumerate(r.types[tl.tag]) if base_type(t) == "bool")
        rep.decide(key + ": moved through the plane it touches", tl.args[k] in ok_bool(r, tc, plane[0]), tl.where, "plane %s" % sh(tl.args[k]))
    moved = [P.atom(("el", ("in", "%s.%d" % (tl.tag, outk)), num(k))) for k in range(len(q))]
    one_box(rep, m, r, key + ": its box is that of the moved body", calls, mn, mx, w, lambda k: bv, n2, moved)
    # remembered under the number of its box
    mk = [(e, cx, k) for k, (e, cx) in enumerate(r.ev) if isinstance(e, tuple) and e[0] == "append" and isinstance(e[2], tuple) and e[2] and e[2][0] == "kv" and loops(cx) == ls]
    mks = [(e, k) for k, (e, cx) in enumerate(r.ev) if isinstance(e, tuple) and e[0] == "mk" and loops(cx) == ls]
    if len(mk) != 1 or len(mks) < 1:
        rep.und(key + ": remembered under its box's number", w, "%d entries" % len(mk))
        return
    e, cx, k = mk[0]
    kk = e[2][1]
    a = kk
    size = next((t for t in kk.atoms() if isinstance(t, tuple) and t[0] == "size" and contains(t, lambda y: y == str(r.boxes) or y == r.boxes or isinstance(y, tuple) and y and y[0] == "carry" and str(r.boxes) in str(y))), None) if isinstance(kk, P) else None
    if size is None:
        rep.decide(key + ": remembered under its box's number", None if isinstance(kk, P) and opaque(kk) else False, e[3], "under %s" % sh(kk, 300))
    else:
        # at the event, the list has one box more than at the start of the pass once the box was added
        rep.decide(key + ": remembered under its box's number", kk == P.atom(size), e[3], "under %s" % sh(kk, 300))
    rep.decide(key + ": remembered whenever it is made", conds(cx) == cnd, e[3], "when %s" % sh(conds(cx), 300))
    vals = mks[-1][0][2]
    good = len(vals) == 3 and vals[0] == i and vals[1] == P.atom(pv) and (not plane or vals[2] in ok_bool(r, tc, plane[0]))
    rep.decide(key + ": remembered with its body, portal and plane", good, e[3], "remembered %s" % "; ".join(sh(x, 120) for x in vals))


def ok_bool(r, tc, k):
    n = "%s.%d" % (tc.tag, k)
    return {("bool", P.atom(("in", n))), P.atom(("in", n)), r.I.initial(n, "bool"), as_bool(r.I.initial(n, "bool"))}


def elem_corner(x, i, f):
    """x is a coordinate of the f corner of the i-th box of the list"""
    a = x.as_atom()
    while isinstance(a, tuple) and a and a[0] == "el":
        a = a[1] if isinstance(a[1], tuple) else None
        if isinstance(a, tuple) and a and a[0] == "fldof":
            b = a[1]
            if isinstance(b, P):
                b = b.as_atom()
            return a[2] == f and isinstance(b, tuple) and b[0] == "el" and b[2] == i
    return False


def member(r, x):
    for e, c in r.ev:
        if isinstance(e, Api) and e.nm == "getPotentialOverlaps":
            return "%s.%d" % (e.tag, len(e.args) - 1)
    return None


def of_pair(ctx):
    """the loop over the candidate pairs"""
    ls = loops(ctx)
    return ls[-1] if ls else None


def cand(rep, m, r, key, where):
    """no image involved: the pair goes to the shape test with its own numbers"""
    goal = [(e, c) for e, c in r.ev if isinstance(e, Api) and e.nm in ("dispatchNarrowPhaseCollision", "isActive", "ballBallCCDCollisionHappens") and any(contains(a, lambda y: is_pairmem(y)) for a in e.args)]
    if len(goal) != 1:
        rep.und(key + " candidate pairs are tested", where, "%d tests" % len(goal))
        return
    e, c = goal[0]
    ls = loops(c)
    full = len(ls) == 1 and ls[0][2] == ZERO and isinstance(ls[0][3], P) and isinstance(ls[0][3].as_atom(), tuple) and ls[0][3].as_atom()[0] == "size" and "getPotentialOverlaps@" in str(ls[0][3].as_atom())
    rep.decide(key + " every candidate pair is tested", full and not early(r, ls), e.where, sh(ls, 200))
    cnd = conds(c)
    rep.decide(key + " no candidate pair is skipped", harmless(r, cnd), e.where, "tested only when %s" % sh(cnd, 500))
    i = [pm(ls[-1], x, r) for x in ("first", "second")] if ls else None
    a = list(e.args)
    if e.nm == "dispatchNarrowPhaseCollision":
        good = a[0] in i[0] and a[1] in i[1] or a[0] in i[1] and a[1] in i[0]
        rep.decide(key + " the pair is tested with its own numbers", good, e.where, "%s, %s" % (sh(a[0]), sh(a[1])))
        rep.decide(key + " the pair is tested at the step's configurations", is_in(a[2], "q0") and is_in(a[3], "q1"), e.where, "%s, %s" % (sh(a[2]), sh(a[3])))
    elif e.nm == "isActive" and len(a) == 4:
        good = a[0] in i[0] and a[1] in i[1] or a[0] in i[1] and a[1] in i[0]
        rep.decide(key + " the pair is tested with its own numbers", good and is_in(a[2], "q1"), e.where, "; ".join(sh(x, 120) for x in a))
    elif e.nm == "ballBallCCDCollisionHappens":
        def row(z):
            return [V(2, 1, vec_at("q0", num(2) * z, 2)), V(2, 1, vec_at("q1", num(2) * z, 2)), radius_of(m, z)]
        def same(w_):
            return all(list(x.e) == list(y.e) if isinstance(x, V) and isinstance(y, V) else x == y for x, y in zip(a, w_))
        rep.decide(key + " the pair is tested along its own paths", any(same(row(f) + row(g)) or same(row(g) + row(f)) for f in i[0] for g in i[1]), e.where, "; ".join(sh(x, 120) for x in a))


def is_in(v, n):
    return isinstance(v, M) and v.as_atom() == ("in", n)


def is_pairmem(y):
    return isinstance(y, tuple) and len(y) == 3 and y[0] == "fldof" and y[2] in ("first", "second") and "getPotentialOverlaps@" in str(y[1])


def pm(iv, x, r):
    """values naming the x member of the pair of this pass"""
    n = member(r, x)
    el = ("el", ("in", n), P.atom(iv))
    return {P.atom(("fldof", el, x)), P.atom(("fldof", P.atom(el), x))}


def harmless(r, c):
    """True: the condition only asks about images and about pairs of scripted bodies"""
    if c is True:
        return True
    if isinstance(c, tuple) and c[0] in ("and",):
        vs = [harmless(r, x) for x in c[1]]
        return False if False in vs else None if None in vs else True
    t = r.truth(c)
    if t is not None:
        return t
    if isinstance(c, tuple) and c[0] == "or":
        # not both scripted
        if len(c[1]) == 2 and all(scripted(b_not(x)) for x in c[1]):
            return True
        vs = [harmless(r, x) for x in c[1]]
        if True in vs:
            return True
        return None if None in vs else False
    return None if opaque(c) else False


def scripted(c):
    """the body is fixed or scripted"""
    return isinstance(c, tuple) and c[0] == "bool" and ("m_fixed" in str(c[1]) or "isKinematicallyScripted" in str(c[1]))


def teleported(rep, m, r, key, where):
    """an image is involved: its body, portal and plane are looked up and the pair is tested and kept"""
    rep.saw(r.I)
    nar = [x for x, cx in r.ev if isinstance(x, Api) and x.nm in ("dispatchNarrowPhaseCollision", "ballBallCCDCollisionHappens") and r.truth(conds(cx)) is not False and any(contains(y, is_pairmem) for y in x.args)]
    rep.decide(key + " the images' numbers are not taken for bodies' numbers", not nar, nar[0].where if nar else where, "")
    mks = [(e, c, k) for k, (e, c) in enumerate(r.ev) if isinstance(e, tuple) and e[0] == "mk" and e[1] == "TeleportedCollision"]
    if len(mks) != 1:
        rep.und(key + " candidate pair", where, "%d collisions built" % len(mks))
        return
    e, c, k = mks[0]
    w = e[3] or where
    ls = loops(c)
    full = len(ls) == 1 and ls[0][2] == ZERO and "getPotentialOverlaps@" in str(ls[0][3])
    rep.decide(key + " every candidate pair is considered", full and not early(r, ls), w, sh(ls, 200))
    if not full or len(e[2]) != 6:
        return
    acc = ("bodyIndex", "portalIndex", "planeIndex")
    cls = next((x for x in ("TeleportedBall", "TeleportedBody") if x in m.recs), None)
    got = [[e[2][0], e[2][2], e[2][4]], [e[2][1], e[2][3], e[2][5]]]
    want = []
    for i, x in enumerate(("first", "second")):
        if r.t[i]:
            row = []
            for nm in acc:
                f = field_of(m, cls, nm)
                t = next((g["t"] for g in m.fields(cls) if g["n"] == f), "unsigned")
                row.append({r.I.load(State(), ("fld", ("fld", ("obj", "FOUND%d" % i), "second"), f), t)})
        else:
            row = [pm(ls[-1], x, r), None, None]
        want.append(row)
    def fits(g, wv, img):
        if g[0] not in wv[0]:
            return False
        if img:
            return g[1] in wv[1] and (g[2] in wv[2] or as_bool(g[2]) in wv[2])
        return isinstance(g[1], P) and "lim" in str(g[1].as_atom())
    good = fits(got[0], want[0], r.t[0]) and fits(got[1], want[1], r.t[1]) or fits(got[0], want[1], r.t[1]) and fits(got[1], want[0], r.t[0])
    rep.decide(key + " tested with its own bodies, portals and planes", good, w, "built from %s, expected %s" % ("; ".join(sh(x, 100) for x in e[2]), sh(want, 400)))
    test = [(a, cx, kk) for kk, (a, cx) in enumerate(r.ev) if isinstance(a, Api) and a.nm in TEST] + [x for x in query_tests(r, c)]
    app = [(a, cx) for kk, (a, cx) in enumerate(r.ev) if kk > k and isinstance(a, tuple) and a[0] == "append" and loops(cx) == ls and isinstance(a[2], tuple) and a[2] and a[2][0] == "objv"]
    if len(app) != 1:
        rep.decide(key + " a touching pair is kept", None if not app else None, w, "%d insertions" % len(app))
        return
    a, cx = app[0]
    cn = conds(cx)
    bad = keep_cond(r, cn, e, got)
    rep.decide(key + " a touching pair is kept", bad, a[3], "kept only when %s" % sh(cn, 700))
    for x, xc in r.ev:
        if isinstance(x, tuple) and x[0] == "ask" and loops(xc) == ls and r.truth(conds(xc)) is not False:
            asked(rep, m, r, key, x, got)
    made(rep, m, r, key, where, a[1])


def asked(rep, m, r, key, x, got):
    """a question about the pair is asked about its own bodies at the configuration of the end of the step"""
    cf = [v.as_atom()[1] for v in x[2] if isinstance(v, M) and isinstance(v.as_atom(), tuple) and v.as_atom()[0] == "in" and v.as_atom()[1] in ("q0", "q1")]
    rep.decide(key + " %s: asked at the end of the step" % x[1], cf in (["q1"], ["q0", "q1"]), x[3], "; ".join(sh(v, 100) for v in x[2]))
    b = [got[0][0], got[1][0]]
    if x[1] in TEST:
        geo = [shape_arg(v) for v in x[2] if shape_arg(v) is not None]
    else:
        rep.decide(key + " %s: asked about its own bodies" % x[1], list(x[2][:2]) in (b, b[::-1]), x[3], "; ".join(sh(v, 100) for v in x[2]))
        geo = [shape_arg(v) for v in x[2] if shape_arg(v) is not None]
        b = list(x[2][:2])
    if geo:
        rep.decide(key + " %s: asked about its own shapes" % x[1], geo == b, x[3], "shapes of %s, bodies %s" % (sh(geo, 200), sh(b, 200)))


def shape_arg(v):
    """the body whose shape is this"""
    s = str(v)
    if "eometry" not in s or isinstance(v, M):
        return None
    out = []
    def go(v):
        if isinstance(v, P):
            for t in v.atoms():
                go(t)
        elif isinstance(v, tuple):
            if len(v) == 3 and v[0] in ("el", "idx") and isinstance(v[2], P) and str(v[1]).find("ndices") >= 0 and str(v[1]).find("m_body_index") < 0:
                out.append(v[2])
                return
            for x in v:
                go(x)
    go(v)
    return out[0] if len(out) == 1 else None


def made(rep, m, r, key, where, kept):
    """each pair kept gives rise to its contact"""
    gen = [(e, c) for e, c in r.ev if isinstance(e, Api) and e.nm in NARROW - TEST and e.nm not in ("isActive", "collisionIsActive", "dispatchNarrowPhaseCollision", "ballBallCCDCollisionHappens")]
    if len(gen) != 1:
        rep.decide(key + " every pair kept gives a contact", None if gen else False, where, "%d places make the contacts" % len(gen))
        return
    e, c = gen[0]
    ls = loops(c)
    el = next((a.as_atom() if isinstance(a, P) else a for a in e.args if contains(a, lambda y: y == ls[0]) and shape_arg(a) is None), None) if len(ls) == 1 else None
    src = el[1] if isinstance(el, tuple) and len(el) == 3 and el[0] == "el" else None
    n = ls[0][3].as_atom() if len(ls) == 1 and isinstance(ls[0][3], P) else None
    full = src is not None and ls[0][2] == ZERO and isinstance(n, tuple) and n[0] == "size" and n[1] == src
    rep.decide(key + " every pair kept gives a contact", (full and not early(r, ls) and conds(c) is True) if not opaque(named(conds(c), src)) else None, e.where, "for %s when %s" % (sh(ls, 200), sh(conds(c), 300)))
    cf = [a.as_atom()[1] for a in e.args if isinstance(a, M) and isinstance(a.as_atom(), tuple) and a.as_atom()[0] == "in" and a.as_atom()[1] in ("q0", "q1")]
    rep.decide(key + " contacts of images use the step's configurations", cf in (["q0"], ["q0", "q1"]), e.where, "%s" % cf)
    geo = [shape_arg(a) for a in e.args if shape_arg(a) is not None]
    if geo:
        cls = "TeleportedCollision"
        f = [field_of(m, cls, "bodyIndex%d" % k) for k in (0, 1)]
        good = len(geo) == 2 and all(isinstance(g.as_atom(), tuple) and g.as_atom()[0] == "fldof" and g.as_atom()[2] == f[k] and contains(g, lambda y: y == el or isinstance(y, P) and y.as_atom() == el) for k, g in enumerate(geo))
        rep.decide(key + " contacts of images use their own shapes", good, e.where, "shapes of %s" % sh(geo, 300))


def named(c, src):
    """the condition with the set of kept pairs given a name"""
    return subst(c, lambda y: P.atom(("in", "kept")) if y == src else None) if src is not None and not isinstance(c, bool) else c


def early(r, ls):
    """one of these passes may be left before its end"""
    return any(isinstance(e, tuple) and e[0] == "leave" and any(iv in ls for iv in loops(c)) and e[1] is not False and r.truth(e[1]) is not False for e, c in r.ev)


def query_tests(r, c):
    return []


def keep_cond(r, c, e, got):
    """kept exactly when the shape test answers yes, unless both are scripted or the pair already touches without images"""
    lits = list(c[1]) if isinstance(c, tuple) and c and c[0] == "and" else [c]
    seen, res = False, True
    for x in lits:
        t = r.truth(x)
        if t is True:
            continue
        if t is False:
            return False
        s = str(x)
        if isinstance(x, tuple) and x[0] == "bool" and any(n in s for n in TEST):
            if "'q0'" in s.split("objv")[0] and "'q1'" not in s and "q1" not in s:
                return False
            seen = True
            continue
        if isinstance(x, tuple) and x[0] == "not" and any(n in str(x) for n in TEST):
            return False
        if isinstance(x, tuple) and x[0] == "not" and ("collisionIsActive" in s or "isActive@" in s or "isActive(" in s):
            if not (r.t[0] and r.t[1]):
                return False
            continue
        if isinstance(x, tuple) and x[0] == "or" and len(x[1]) == 2 and all(scripted(b_not(y)) for y in x[1]):
            continue
        if isinstance(x, tuple) and x[0] == "or" and any(harmless(r, y) is True for y in x[1]):
            continue
        if opaque(x):
            res = None
            continue
        return False
    return res if seen else (None if res is None else False)


# ---- what is remembered about images ----------------------------------------------
def records(rep, m):
    for cls in ("TeleportedBall", "TeleportedBody"):
        for fn in [f for f in m.by_q.get("%s::%s" % (cls, cls), []) if f.body and len(f.params) == 3]:
            I = Interp(m)
            v, s = I.run(fn)
            rep.saw(I)
            for k, x in enumerate(("bodyIndex", "portalIndex", "planeIndex")):
                got = I.run(m.method(cls, x), st=s)[0]
                want = I.load(State(), ("obj", fn.params[k]["n"]), fn.types[fn.params[k]["t"]])
                rep.decide("%s/%s/%s is the one given" % (m.domain, cls, x), as_bool(got) == as_bool(want), "%s:%s" % (fn.file, fn.line), "got %s" % sh(got, 300))
    cls = "TeleportedCollision"
    acc = [["bodyIndex%d" % k, "portalIndex%d" % k, next((x for x in ("plane%d" % k, "planeIndex%d" % k) if m.method(cls, x) is not None), None)] for k in (0, 1)]
    def build(fn, b0, b1, who):
        I = Interp(m)
        st = State()
        a = []
        for p, v in zip(fn.params, (num(b0), num(b1), None, None, None, None)):
            l = ("obj", who + p["n"])
            if v is not None:
                st.store[l] = v
            a.append(("loc", l))
        return I, I.run(fn, this=("obj", who), thiscls=cls, args=a, st=st)[1]
    for fn in [f for f in m.by_q.get("%s::%s" % (cls, cls), []) if f.body and len(f.params) == 6]:
        w = "%s:%s" % (fn.file, fn.line)
        for b0, b1 in ((1, 2), (2, 1)):
            I, s = build(fn, b0, b1, "x")
            rep.saw(I)
            if s is None:
                rep.und("%s/%s of bodies %d and %d" % (m.domain, cls, b0, b1), w, "does not return")
                continue
            rows = []
            for names in acc:
                rows.append([as_bool(I.run(m.method(cls, x), this=("obj", "x"), thiscls=cls, st=s.fork())[0]) if x else None for x in names])
            want = [[num((b0, b1)[k])] + [as_bool(I.load(State(), ("obj", "x" + fn.params[j + k]["n"]), fn.types[fn.params[j + k]["t"]])) for j in (2, 4)] for k in (0, 1)]
            if acc[0][2] is None:
                rows, want = [r[:2] for r in rows], [r[:2] for r in want]
            rep.decide("%s/%s of bodies %d and %d keeps each body with its portal and plane" % (m.domain, cls, b0, b1), rows == want or rows == want[::-1], w, "kept %s of %s" % (sh(rows, 400), sh(want, 400)))
        op = m.method(cls, "operator<")
        if op is None or not op.body:
            rep.und("%s/%s once per pair" % (m.domain, cls), w, "no order")
            continue
        bad, unk_ = None, None
        prs = [(a, b) for a in range(3) for b in range(3) if a != b]
        for x in prs:
            for y in prs:
                I, s = build(fn, x[0], x[1], "x")
                _, s2 = build(fn, y[0], y[1], "y")
                s.store.update({k: v for k, v in s2.store.items() if root_of(k) == ("obj", "y")})
                less = as_bool(I.run(op, this=("obj", "x"), thiscls=cls, args=[("loc", ("obj", "y"))], st=s)[0])
                rep.saw(I)
                same = set(x) == set(y)
                if not isinstance(less, bool):
                    # the answer depends on more than the bodies
                    if same and not opaque(less):
                        bad = bad or (x, y, less)
                    else:
                        unk_ = unk_ or (x, y, less)
                elif same and less:
                    bad = bad or (x, y, less)
                elif not same and less != (sorted(x) < sorted(y)):
                    # any strict order will do, this is the usual one; look at the mirrored question
                    other = order(m, op, fn, build, cls, y, x)
                    if other == less:
                        bad = bad or (x, y, less)
        rep.decide("%s/%s pairs found in either order are one, different pairs are not" % (m.domain, cls), False if bad else None if unk_ else True, "%s:%s" % (op.file, op.line), "pairs %s and %s: %s" % tuple(sh(z, 300) for z in (bad or unk_ or ("", "", ""))))


def order(m, op, fn, build, cls, x, y):
    I, s = build(fn, x[0], x[1], "x")
    _, s2 = build(fn, y[0], y[1], "y")
    s.store.update({k: v for k, v in s2.store.items() if root_of(k) == ("obj", "y")})
    return as_bool(I.run(op, this=("obj", "x"), thiscls=cls, args=[("loc", ("obj", "y"))], st=s)[0])


# ---- the whole detection: every pass is run --------------------------------------
def passes(m, cls):
    """member functions that add contacts to a list they are given"""
    out = {}
    for q, fns in m.by_q.items():
        for f in fns:
            if f.body and f.cls == cls and any("unique_ptr<Constraint>" in f.types[p["t"]] and f.types[p["t"]].strip().endswith("&") and "const " not in f.types[p["t"]].split("<")[0] for p in f.params):
                out.setdefault(q, f)
    return out


def calls_of(f):
    return {n["f"]["q"] for n in walk(f.body) if isinstance(n, dict) and n.get("k") in ("call", "mcall") and isinstance(n.get("f"), dict) and n["f"].get("q")}


def adders(m, ps):
    """those that (transitively) add"""
    add = set()
    while True:
        n = len(add)
        for q, f in ps.items():
            own = any(isinstance(x, dict) and x.get("k") == "mcall" and isinstance(x.get("f"), dict) and x["f"].get("n") in ("push_back", "emplace_back") for x in walk(f.body))
            if own or calls_of(f) & add:
                add.add(q)
        if len(add) == n:
            return add


def whole(rep, m, cls):
    fn = m.method(cls, "computeActiveSet")
    key = "%s/%s" % (m.domain, fn.q)
    where = "%s:%s" % (fn.file, fn.line)
    ps = passes(m, cls)
    add = adders(m, ps) - {fn.q}
    called = set()
    for fs in m.by_q.values():
        for f in fs:
            if f.body and f.q != fn.q:
                called |= calls_of(f) - {f.q}
    roots = {q for q in add if q not in called or q in calls_of(fn)}
    rep.require("%s passes" % cls, len(roots), 2)
    r = Proto(m, lambda f: f.get("q") in add)
    r.run(fn)
    rep.saw(r.I)
    ev = flat2(r.s.ev)
    qs = [p["n"] for p in fn.params[:2]]
    pair = [q for q in roots if any("getPotentialOverlaps" in x for g in reach(ps, q) for x in calls_of(ps[g]))]
    cover = False
    for q in sorted(roots):
        got = [(e, c) for e, c in ev if isinstance(e, Api) and e.nm == q.split("::")[-1]]
        if not got:
            rep.bad(key + " runs " + q.split("::")[-1], where, "not called")
            continue
        for e, c in got:
            cf = [a.as_atom()[1] for a in e.args if isinstance(a, M) and isinstance(a.as_atom(), tuple) and a.as_atom()[0] == "in" and a.as_atom()[1] in qs]
            want = sum(1 for p in ps[q].params[:2] if "Eigen" in ps[q].types[p["t"]] or "VectorXs" in ps[q].types[p["t"]])
            rep.decide(key + " " + e.nm + " gets the step's configurations", cf == qs[:len(cf)] and len(cf) == want, e.where, "%s" % cf)
        cn = b_or(*[conds(c) for e, c in got])
        if q in pair:
            cover = b_or(cover, cn)
        else:
            rep.decide(key + " runs " + got[0][0].nm + " always", True if cn is True else None if opaque(cn) else False, got[0][0].where, "only when %s" % sh(cn, 300))
    cover = cover if cover is True else bool_true(cover)
    rep.decide(key + " looks for touching bodies always", cover, where, "")
    if len(pair) > 1:
        for q in sorted(pair):
            for e, c in ev:
                if isinstance(e, Api) and e.nm == q.split("::")[-1]:
                    has = reads_portals(m, ps, q)
                    cn = conds(c)
                    # the search without images is used only when there are no portals
                    if not has:
                        rep.decide(key + " images are left out only without portals", no_portals(cn), e.where, "when %s" % sh(cn, 300))


def bool_true(c):
    """is the condition a tautology (None: not known)"""
    if c is True:
        return True
    lits = set(c[1]) if isinstance(c, tuple) and c and c[0] == "or" else {c}
    if any(b_not(x) in lits for x in lits):
        return True
    return None if opaque(c) else False


def reach(ps, q):
    seen, todo = set(), [q]
    while todo:
        x = todo.pop()
        if x in seen or x not in ps:
            continue
        seen.add(x)
        todo += list(calls_of(ps[x]))
    return seen


def reads_portals(m, ps, q):
    return any(isinstance(n, dict) and n.get("k") in ("mcall", "call") and isinstance(n.get("f"), dict) and n["f"].get("cls") == "PlanarPortal" for g in reach(ps, q) for n in walk(ps[g].body)) or any("ouchesPortal" in x for g in reach(ps, q) for x in calls_of(ps[g]))


def no_portals(c):
    """does the condition say that there are no portals"""
    lits = list(c[1]) if isinstance(c, tuple) and c and c[0] == "and" else [c]
    for x in lits:
        if isinstance(x, tuple) and x and x[0] in ("le", "eq0", "lt") and isinstance(x[1], P):
            a = list(x[1].atoms())
            if len(a) == 1 and a[0][0] == "size" and "portal" in str(a[0]).lower():
                z = x[1].as_atom()
                return x[0] == "eq0" and z is not None or x[0] == "le" and z is not None or x[0] == "lt" and x[1] - P.atom(a[0]) == num(-1)
    return None if opaque(c) else False


# ---- driver -----------------------------------------------------------------------
def items():
    out = []
    for m in models():
        for base in ("RigidBody2DGeometry", "RigidBodyGeometry"):
            if base in m.recs:
                out += [(m.domain, "shape", c) for c in m.concrete(base)]
        if "AABB" in m.recs:
            out.append((m.domain, "overlaps", ""))
        for q, fns in sorted(m.by_q.items()):
            for k, f in enumerate(fns):
                if f.body and len(f.params) >= 2 and any("AABB" in f.types[p["t"]] and "vector" in f.types[p["t"]] and "const" in f.types[p["t"]] for p in f.params) and any("set<" in f.types[p["t"]] or "vector<unsigned" in f.types[p["t"]] for p in f.params) and q.split("::")[-1].startswith("get"):
                    out.append((m.domain, "grid", (q, k)))
        for q, fns in sorted(m.by_q.items()):
            for k, f in enumerate(fns):
                if f.body and any(isinstance(n, dict) and n.get("k") in ("call", "mcall") and isinstance(n.get("f"), dict) and n["f"].get("n") == "getPotentialOverlaps" for n in walk(f.body)) and f.cls and f.cls.endswith("Sim"):
                    out.append((m.domain, "sim", (q, k)))
        if "TeleportedCollision" in m.recs:
            out.append((m.domain, "records", ""))
        for cls in sorted(m.recs):
            if cls.endswith("Sim") and m.method(cls, "computeActiveSet") is not None and m.method(cls, "computeActiveSet").body:
                out.append((m.domain, "whole", cls))
    return out


def analyse(rep, it):
    m = next(x for x in models() if x.domain == it[0])
    if it[1] == "shape":
        shapes(rep, m, it[2])
    elif it[1] == "overlaps":
        overlaps(rep, m)
    elif it[1] == "grid":
        grid(rep, m, m.by_q[it[2][0]][it[2][1]])
    elif it[1] == "records":
        records(rep, m)
    elif it[1] == "whole":
        whole(rep, m, it[2])
    elif it[1] == "sim":
        sim_routine(rep, m, m.by_q[it[2][0]][it[2][1]])


def run(tier):
    rep = Report("P13", RULE, [])
    its = items()
    rep.require("shapes", sum(1 for i in its if i[1] == "shape"), 6)
    rep.require("candidate searches", sum(1 for i in its if i[1] == "grid"), 3)
    par.each(rep, its, analyse, budget=300, name=lambda it: "%s/%s/%s" % it)
    return rep
