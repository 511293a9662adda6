"""Value-numbering dataflow over the extracted AST.

Each function is analysed once per context: straight-line code updates an abstract
store of normal forms (alg.py), branches are joined with gated merges (phi), loops are
summarised from one generic iteration (sums, element-wise updates, container builds)
and repository callees are analysed in context.  Anything that is not modelled becomes
a unique unknown, so nothing can be concluded from it.
"""
import itertools
import re
from fractions import Fraction
from .alg import *
from .model import strip_t, walk


class Undecided(Exception):
    pass


_unk = [0]


def unk(why=""):
    _unk[0] += 1
    return ("unk", _unk[0], why)


FIX = re.compile(r"^Eigen::(?:Matrix|Array)<(double|float|int|unsigned int|long|char), (-?\d+), (-?\d+)")

DENSE = re.compile(r"^Eigen::(?:DenseBase|MatrixBase|ArrayBase|PlainObjectBase)<Eigen::(?:Matrix|Array)<(double|float|int|unsigned int|long|char), (-?\d+), (-?\d+)")


def base_type(t):
    t = strip_t(t or "?")
    return t


def dims(t):
    """(r,c) for fixed size Eigen types, 'dyn' for dynamic ones, None otherwise"""
    m = FIX.match(base_type(t))
    if m:
        r, c = int(m.group(2)), int(m.group(3))
        return (r, c) if r >= 0 and c >= 0 else "dyn"
    b = base_type(t)
    if b.startswith("Eigen::SparseMatrix<") or b.startswith("Eigen::Map<") or b.startswith("Eigen::Ref<"):
        m = re.search(r"Eigen::(?:Matrix|Array)<(double|float|int|unsigned int|long|char), (-?\d+), (-?\d+)", b)
        if m and int(m.group(2)) >= 0 and int(m.group(3)) >= 0:
            return (int(m.group(2)), int(m.group(3)))
        return "dyn"
    return None


INT_T = {"int", "unsigned int", "unsigned long", "long", "short", "unsigned short", "char", "unsigned char",
         "signed char", "unsigned long long", "long long"}
SCALAR_T = INT_T | {"double", "float", "long double"}


def is_scalar_t(t):
    return base_type(t) in SCALAR_T


def is_eigen_t(t):
    return base_type(t).startswith("Eigen::")


STREAM = ("std::basic_ostream", "std::basic_istream", "std::basic_iostream", "std::basic_ofstream", "std::basic_ifstream",
          "std::basic_stringstream", "std::basic_ostringstream", "std::basic_istringstream")


def is_stream_t(t):
    return base_type(t).startswith(STREAM)


class State:
    __slots__ = ("store", "ev", "q", "depth", "facts")

    def __init__(self, store=None, ev=None, q=None, depth=0, facts=()):
        self.store = {} if store is None else store
        self.ev = [] if ev is None else ev
        self.q = q
        self.depth = depth
        self.facts = facts

    def fork(self):
        return State(dict(self.store), [], self.q, self.depth, self.facts)


class Out:
    """outcome of a statement sequence"""
    __slots__ = ("live", "ret", "retc", "brk", "brkc", "cont", "contc")

    def __init__(self, live, ret=None, retc=False, brk=None, brkc=False, cont=None, contc=False):
        self.live, self.ret, self.retc = live, ret, retc
        self.brk, self.brkc, self.cont, self.contc = brk, brkc, cont, contc


def parent(loc):
    return loc[1] if loc[0] in ("fld", "idx", "deref", "dat") else None


def root_of(loc):
    while parent(loc) is not None:
        loc = parent(loc)
    return loc


def path(loc):
    k = loc[0]
    if k == "fld":
        return path(loc[1]) + "." + loc[2]
    if k == "idx":
        return path(loc[1]) + "[" + show(loc[2]) + "]"
    if k == "deref":
        return path(loc[1])
    if k == "dat":
        return path(loc[1]) + "." + loc[2] + "()"
    if k == "obj":
        return loc[1]
    if k == "glob":
        return loc[1]
    return "%s" % (loc,)


def vals_of(kind, v):
    a = v.as_atom() if isinstance(v, M) else None
    return ("vals", kind, a if a is not None else v)


def lin_off(lin, a, b, r, c):
    """offset of entry (a,b) in a linear layout"""
    if lin == "rows":
        return a * c + b
    if lin == "cols":
        return b * r + a
    if isinstance(lin, tuple):
        return a * lin[1] + b * lin[2]
    return a + b


def extreme(p, sign):
    """largest (sign 1) or smallest value of an index over its loop variables, each taken on its own; None when it is not affine in them"""
    for _ in range(4):
        ivs = [x for x in p.atoms() if isinstance(x, tuple) and len(x) == 4 and x[0] == "iv"]
        if not ivs:
            return p
        iv = max(ivs, key=lambda x: x[1])
        if not (isinstance(iv[2], P) and isinstance(iv[3], P)):
            return None
        co = p.coeff(iv)
        if co is None or not co[0].is_const():
            return None
        p = co[1] + co[0] * ((iv[3] - ONE) if (co[0].cval() > 0) == (sign > 0) else iv[2])
    return None


def positive(p):
    """certainly greater than zero: sizes are not negative"""
    c0 = p.t.get((), 0)
    return c0 > 0 and all(c > 0 and all(isinstance(atom_of(i), tuple) and atom_of(i)[0] in ("size", "idiv", "rows", "cols", "nonZeros") for i, e in m_) for m_, c in p.t.items() if m_)


def is_under(loc, top):
    while loc is not None:
        if loc == top:
            return True
        loc = parent(loc)
    return False


def rebase(loc, src, dst):
    if loc == src:
        return dst
    return (loc[0], rebase(loc[1], src, dst)) + loc[2:]


class Frame:
    __slots__ = ("fn", "env", "this", "thiscls", "n", "lam")

    def __init__(self, fn, this, thiscls, n):
        self.fn, self.env, self.this, self.thiscls, self.n = fn, {}, this, thiscls, n


class Interp:
    MAXDEPTH = 24
    UNROLL = 16

    def __init__(self, model, hooks=None, oracle=None, inline=None):
        self.m = model
        self.hooks = hooks or {}
        self.oracle = oracle or (lambda basetype, path: None)
        self.inline = inline or (lambda fn: True)
        self.stack = []
        self.nframe = 0
        self.ntmp = 0
        self.tags, self.born = {}, {}      # named call results: counters, and the loop depth they were made at
        self.notes = []
        self.analysed = set()
        self.ncalls = 0
        self.aliased = {}
        self.buffers = {}   # loc of a caller's array -> its length
        self.dyncls = {}    # loc -> exact class of constructed objects

    # ------------------------------------------------------------------ memory
    def tmp(self, kind="tmp"):
        self.ntmp += 1
        return (kind, self.ntmp)

    def initial(self, p, t):
        """the symbolic initial value of input path p with type t"""
        d = dims(t)
        if isinstance(d, tuple):
            r, c = d
            if r * c <= 144:
                return V(r, c, [P.atom(("el", ("in", p), num(i))) if c == 1 or r == 1 else P.atom(("el", ("in", p), (num(i), num(j))))
                                for i, j in ([(i, j) for i in range(r) for j in range(c)] if not (c == 1 or r == 1) else [(k, 0) for k in range(r * c)])])
            return M.atom(("in", p))
        if d == "dyn":
            return M.atom(("in", p))
        b = base_type(t)
        if b in SCALAR_T:
            return P.atom(("in", p))
        if b == "bool":
            return ("bool", ("in", p))
        return ("in", p)

    def typed(self, term, t):
        """give an opaque term the shape of type t"""
        d = dims(t)
        if isinstance(d, tuple):
            r, c = d
            if r * c <= 144:
                return V(r, c, [P.atom(("el", term, num(k))) for k in range(r * c)] if (r == 1 or c == 1) else
                         [P.atom(("el", term, (num(i), num(j)))) for i in range(r) for j in range(c)])
            return M.atom(term)
        if d == "dyn":
            return M.atom(term)
        b = base_type(t)
        if b in SCALAR_T or self.is_enum(b):
            return P.atom(term) if b in SCALAR_T else term
        if b == "bool":
            return ("bool", term)
        if is_eigen_t(b):
            return M.atom(term)
        return term

    def is_enum(self, b):
        return b in self.m.enums

    def member_of(self, val, step, t):
        """component of an r-value"""
        if step[0] == "fld":
            if isinstance(val, tuple):
                if val[0] == "in":
                    return self.initial(val[1] + "." + step[1], t)
                if val[0] == "objv":
                    return self.sub_objv(val, step, t)
                if val[0] == "kv":
                    return val[1] if step[1] == "first" else val[2]
                if val[0] == "phi":
                    return phi(val[1], self.member_of(val[2], step, t), self.member_of(val[3], step, t))
            return self.typed(("fldof", val, step[1]), t)
        if step[0] == "idx":
            idx = step[1]
            if isinstance(idx, tuple) and len(idx) == 2 and idx[0] == "key":
                if isinstance(val, tuple) and val and val[0] == "seq":
                    for e in reversed(val[2]):
                        if isinstance(e, tuple) and e and e[0] == "kv" and e[1] == idx[1]:
                            return e
                if isinstance(val, tuple) and len(val) == 4 and val[0] == "phi":
                    return phi(val[1], self.member_of(val[2], step, t), self.member_of(val[3], step, t))
                return self.typed(("el", val, idx), t)
            if isinstance(val, V):
                if isinstance(idx, tuple) and len(idx) == 2 and all(isinstance(x, P) and x.is_const() for x in idx):
                    i, j = int(idx[0].cval()), int(idx[1].cval())
                    if 0 <= i < val.r and 0 <= j < val.c:
                        return val.at(i, j)
                if isinstance(idx, P) and idx.is_const():
                    k = int(idx.cval())
                    if 0 <= k < len(val.e):
                        return val.e[k]
                return self.typed(("el", val, idx), t)
            if isinstance(val, M):
                a = val.as_atom()
                if isinstance(a, tuple) and a[0] == "updm":
                    r = self.upd_lookup(a, idx, t)
                    if r is not None:
                        return r
                return val.el(idx)
            if isinstance(val, tuple) and val[0] == "objv":
                return self.sub_objv(val, step, t)
            if isinstance(val, tuple) and val[0] == "seq" and isinstance(idx, P):
                r = self.seq_at(val, idx)
                if r is not None:
                    return r
            if isinstance(val, tuple) and val[0] == "in":
                return self.initial(val[1] + "[" + show(idx) + "]", t) if not (isinstance(idx, P)) else self.typed(("el", val, idx), t)
            return self.typed(("el", val, idx), t)
        if step[0] == "dat":
            return val if step[1] == "data" else M.atom(vals_of(step[1], val))
        if step[0] == "deref":
            if isinstance(val, tuple) and val[0] == "objv":
                return self.sub_objv(val, step, t)
            if isinstance(val, tuple) and val[0] == "in":
                return self.initial(val[1], t)
            return self.typed(("derefof", val), t)
        return unk("member")

    def seq_at(self, val, idx):
        base, items = val[1], val[2]
        if base == ("empty",):
            if all(not (isinstance(x, tuple) and x and x[0] == "rep") for x in items) and idx.is_const():
                k = int(idx.cval())
                if 0 <= k < len(items):
                    return items[k]
            if len(items) == 1 and isinstance(items[0], tuple) and items[0][0] == "rep":
                _, iv, e = items[0]
                lo = iv[2]
                return subst(e, lambda y: (idx + lo) if y == iv else None)
        return None

    def upd_lookup(self, a, idx, t):
        base, ups = a[1], a[2]
        for i2, v in reversed(ups):
            s = self.same_index(i2, idx)
            if s is True:
                return v
            if s is None:
                u = self.unify(i2, idx)
                if u is not None:
                    return subst(v, u)
                return None
        return self.member_of(base, ("idx", idx), t)

    def unify(self, i2, idx):
        """i2 is an affine function of one loop variable: substitution making it equal idx"""
        if not (isinstance(i2, P) and isinstance(idx, P)):
            return None
        ivs = [a for a in i2.atoms() if isinstance(a, tuple) and a[0] == "iv"]
        if len(ivs) != 1:
            return None
        co = i2.coeff(ivs[0])
        if co is None or not co[0].is_const() or co[0].cval() == 0:
            return None
        sol = (idx - co[1]) * num(1 / co[0].cval())
        if all(c.denominator == 1 for c in sol.t.values()):
            iv = ivs[0]
            return lambda y: sol if y == iv else None
        return None

    def same_index(self, a, b):
        """True/False/None(unknown)"""
        if a == b:
            return True
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a and isinstance(a[0], P) and isinstance(b[0], P):
            rs = [self.same_index(x, y) for x, y in zip(a, b)]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if isinstance(a, P) and isinstance(b, P):
            d = a - b
            if d.is_const():
                return False
            # 3*x+1 vs 3*y+2 : different residues
            g = 0
            import math
            for m_, c in d.t.items():
                if m_:
                    if c.denominator != 1:
                        return None
                    g = math.gcd(g, int(abs(c)))
            c0 = d.cval()
            if g > 1 and c0.denominator == 1 and int(c0) % g != 0:
                return False
            if self.beyond(a, b) or self.beyond(b, a):
                return False
            if self.generic and not any(isinstance(x, tuple) and x and x[0] == "iv" for x in d.atoms()) and not has_unk(d):
                return False
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return None

    def beyond(self, a, b):
        """a runs over an index range that b lies outside of"""
        ivs = [x for x in a.atoms() if isinstance(x, tuple) and x and x[0] == "iv"]
        hi, lo = extreme(a, 1), extreme(b, -1)
        if hi is not None and lo is not None and positive(lo - hi):
            return True
        if len(ivs) != 1 or contains(b, lambda y: y == ivs[0]) or not all(isinstance(x, P) for x in ivs[0][2:4]):
            return False
        iv, d = ivs[0], None
        c = [cf for m_, cf in a.t.items() if any(atom_of(i) == iv for i, e in m_)]
        if len(c) != 1 or c[0] <= 0 or sum(1 for m_ in a.t if any(atom_of(i) == iv for i, e in m_) and len(m_) == 1 and m_[0][1] == 1) != 1:
            return False
        hi = subst(a, lambda y: iv[3] - ONE if y == iv else None)
        lo = subst(a, lambda y: iv[2] if y == iv else None)
        d1, d2 = b - hi, lo - b
        return (d1.is_const() and d1.cval() > 0) or (d2.is_const() and d2.cval() > 0)

    generic = False    # different symbolic indices denote different elements

    def sub_objv(self, val, step, t):
        base, items = val[1], val[2]
        rest = []
        for rel, v in items:
            if rel[0] == step or (rel[0][0] == "idx" and step[0] == "idx" and self.same_index(rel[0][1], step[1]) is True):
                if len(rel) == 1:
                    rest.append(((), v))
                else:
                    rest.append((rel[1:], v))
            elif rel[0][0] == "idx" and step[0] == "idx" and self.same_index(rel[0][1], step[1]) is None:
                return self.typed(unk("may-alias"), t)
        whole = [v for r, v in rest if r == ()]
        b = whole[-1] if whole else (self.member_of(base, step, t) if base is not None else ("uninit",))
        sub = tuple((r, v) for r, v in rest if r != ())
        if not sub:
            return b
        return ("objv", b, sub)

    def children(self, st, loc):
        out = []
        for k in st.store:
            if k != loc and is_under(k, loc):
                out.append(k)
        return out

    def steps(self, loc, top):
        s = []
        while loc != top:
            s.append((loc[0],) + loc[2:])
            loc = parent(loc)
        return tuple(reversed(s))

    def load_nodat(self, st, loc, t="?"):
        """value of a matrix, leaving out writes made through a pointer to its coefficients"""
        kids = [k for k in self.children(st, loc) if not any(x[0] == "dat" for x in self.steps(k, loc))]
        base = st.store[loc] if loc in st.store else self.load_base(st, loc, t)
        return self.assemble(st, loc, base, kids, t) if kids else base

    def load(self, st, loc, t):
        if loc[0] == "blk":
            return self.load_blk(st, loc)
        if loc[0] == "dat" and loc not in st.store:
            v = self.load_nodat(st, loc[1])
            v = v if loc[2] == "data" else M.atom(vals_of(loc[2], v))
            kids = self.children(st, loc)
            return self.assemble(st, loc, v, kids, t) if kids else v
        if loc in st.store:
            kids = self.children(st, loc)
            if not kids:
                return st.store[loc]
            return self.assemble(st, loc, st.store[loc], kids, t)
        kids = self.children(st, loc)
        base = self.load_base(st, loc, t)
        if kids:
            return self.assemble(st, loc, base, kids, t)
        return base

    def alias_element(self, st, par, idx):
        """element of a container whose recorded element writes may or may not hit it: unknown, but the same each time the same memory is read"""
        snap = tuple((x[2], st.store[x]) for x in st.store if x[0] == "idx" and x[1] == par)
        try:
            key = (par, snap, st.store.get(par))
            hash(key)
        except TypeError:
            return unk("may-alias element")
        if key not in self.aliased:
            dep = []

            def f(y):
                if y[0] in ("iv", "carry") and y not in dep:
                    dep.append(y)
                return False
            contains(key, lambda y: isinstance(y, tuple) and len(y) > 1 and f(y))
            self.aliased[key] = unk("may-alias element") + (tuple(dep),)
        return ("el", self.aliased[key], idx)

    def load_base(self, st, loc, t):
        k = loc[0]
        if k in ("fld", "idx", "deref"):
            par = loc[1]
            if k == "idx":
                # other element writes of the same container
                for k2 in reversed([x for x in st.store if x[0] == "idx" and x[1] == par]):
                    s = self.same_index(k2[2], loc[2])
                    if s is True:
                        return st.store[k2]
                    if s is None:
                        u = self.unify(k2[2], loc[2])
                        if u is not None:
                            return subst(st.store[k2], u)
                        return self.typed(self.alias_element(st, par, loc[2]), t)
            if k == "idx" and par[0] == "dat":
                src = self.load_nodat(st, par[1], "?")
                if par[2] == "data":
                    return self.member_of(src, ("idx", loc[2]), t)
                return self.typed(("el", vals_of(par[2], src), loc[2]), t)
            # nearest ancestor with a stored value
            anc = par
            while anc is not None and anc not in st.store:
                anc = parent(anc)
            if anc is not None:
                v = st.store[anc]
                ss = self.steps(loc, anc)
                for i, s in enumerate(ss):
                    v = self.member_of(v, s, t if i == len(ss) - 1 else "?")
                return v
            if k == "idx" :
                if not self.root_known(par):
                    return self.typed(unk("uninit"), t)
                return self.below_element(loc, t) or self.typed(("el", ("in", path(par)), loc[2]), t)
            if self.root_known(loc):
                return self.below_element(loc, t) or self.initial(path(loc), t)
            return self.default_uninit(loc, t)
        if k == "glob":
            v = self.const_by_name(loc[1])
            if v is not None:
                return v
        if k in ("obj", "glob"):
            return self.initial(path(loc), t)
        return self.default_uninit(loc, t)

    def below_element(self, loc, t):
        """initial value of a part of an element whose index is not a constant: the index stays visible in the value"""
        top, c = None, parent(loc)
        while c is not None:
            if c[0] == "idx" and not (isinstance(c[2], P) and c[2].is_const()):
                top = c
            c = parent(c)
        if top is None or top[1][0] == "dat":
            return None
        v = ("el", ("in", path(top[1])), top[2])
        ss = self.steps(loc, top)
        for i, s in enumerate(ss):
            v = self.member_of(v, s, t if i == len(ss) - 1 else "?")
        return v

    def const_by_name(self, q):
        return None

    def default_uninit(self, loc, t):
        return self.typed(("uninit", str(loc)), t)

    def root_known(self, loc):
        while parent(loc) is not None:
            loc = parent(loc)
        return loc[0] in ("obj", "glob")

    def assemble(self, st, loc, base, kids, t):
        if isinstance(base, V):
            v = base
            ok = True
            for kd in kids:
                ss = self.steps(kd, loc)
                if len(ss) == 1 and ss[0][0] == "idx":
                    ix = ss[0][1]
                    val = st.store[kd]
                    if isinstance(ix, P) and ix.is_const() and isinstance(val, P):
                        e = list(v.e)
                        kk = int(ix.cval())
                        if kk < len(e):
                            e[kk] = val
                            v = V(v.r, v.c, e)
                            continue
                    if isinstance(ix, tuple) and len(ix) == 2 and all(isinstance(x, P) and x.is_const() for x in ix):
                        e = list(v.e)
                        kk = int(ix[0].cval()) * v.c + int(ix[1].cval())
                        if kk < len(e):
                            e[kk] = val
                            v = V(v.r, v.c, e)
                            continue
                ok = False
            if ok:
                return v
        if isinstance(base, M) and all(len(self.steps(kd, loc)) == 1 and kd[0] == "idx" for kd in kids):
            ups = tuple((kd[2], st.store[kd]) for kd in kids)
            return M.atom(("updm", base, ups))
        if isinstance(base, M) and any(x[0] == "dat" for kd in kids for x in self.steps(kd, loc)):
            inner = [kd for kd in kids if not any(x[0] == "dat" for x in self.steps(kd, loc))]
            b = self.assemble(st, loc, base, inner, t) if inner else base
            return M.atom(("updvals", b, tuple((self.steps(kd, loc), st.store[kd]) for kd in kids if kd not in inner)))
        items = tuple((self.steps(kd, loc), st.store[kd]) for kd in sorted(kids, key=lambda k: (len(self.steps(k, loc)),)))
        if isinstance(base, tuple) and base and base[0] == "objv":
            items = base[2] + items
            base = base[1]
        return ("objv", base, items)

    def clear_under(self, st, loc):
        for k in self.children(st, loc):
            del st.store[k]

    def store(self, st, loc, val):
        if loc is None:
            return
        if loc[0] == "blk":
            return self.store_blk(st, loc, val)
        # element of a fixed vector held as a whole
        if loc[0] == "idx" and isinstance(st.store.get(loc[1]), V):
            v = st.store[loc[1]]
            ix = loc[2]
            if isinstance(ix, P) and ix.is_const() and 0 <= int(ix.cval()) < len(v.e):
                e = list(v.e)
                e[int(ix.cval())] = self.as_p(val)
                st.store[loc[1]] = V(v.r, v.c, e)
                return
            if isinstance(ix, tuple) and len(ix) == 2 and all(isinstance(x, P) and x.is_const() for x in ix):
                e = list(v.e)
                k = int(ix[0].cval()) * v.c + int(ix[1].cval())
                if 0 <= k < len(e):
                    e[k] = self.as_p(val)
                    st.store[loc[1]] = V(v.r, v.c, e)
                    return
        self.clear_under(st, loc)
        if loc[0] == "idx":
            for k2 in [x for x in st.store if x[0] == "idx" and x[1] == loc[1] and x != loc]:
                s = self.same_index(k2[2], loc[2])
                if s is True:
                    del st.store[k2]
                elif s is None and self.unify(k2[2], loc[2]) is None:
                    st.store[k2] = self.smash(st.store[k2])
            # keep insertion order = write order
            st.store.pop(loc, None)
        if isinstance(val, tuple) and val and val[0] == "objv":
            if val[1] is not None:
                st.store[loc] = val[1]
            else:
                st.store.pop(loc, None)
            for rel, v in val[2]:
                l = loc
                for s in rel:
                    l = (s[0], l) + s[1:]
                st.store[l] = v
            return
        st.store[loc] = val

    def smash(self, v):
        if isinstance(v, P):
            return P.atom(unk("smash"))
        if isinstance(v, V):
            return v.map(lambda x: P.atom(unk("smash")))
        if isinstance(v, M):
            return M.atom(unk("smash"))
        return unk("smash")

    def load_blk(self, st, loc):
        _, L, i0, j0, r, c, lin, t = loc
        # fixed block
        if isinstance(r, int) and isinstance(c, int):
            es = []
            whole = None
            d = dims(t)
            for a in range(r):
                for b in range(c):
                    if lin:
                        ix = i0 + num(lin_off(lin, a, b, r, c))
                    else:
                        ix = (i0 + num(a), j0 + num(b))
                    es.append(self.as_p(self.load(st, ("idx", L, ix), "double")))
            return V(r, c, es)
        whole = self.load(st, L, t)
        return M.atom(("blkof", whole, i0, j0, r, c, lin))

    def store_blk(self, st, loc, val):
        _, L, i0, j0, r, c, lin, t = loc
        if isinstance(r, int) and isinstance(c, int) and isinstance(val, V) and len(val.e) == r * c:
            for a in range(r):
                for b in range(c):
                    ix = i0 + num(lin_off(lin, a, b, r, c)) if lin else (i0 + num(a), j0 + num(b))
                    self.store(st, ("idx", L, ix), val.e[a * c + b])
            return
        if isinstance(r, int) and isinstance(c, int) and isinstance(val, M):
            for a in range(r):
                for b in range(c):
                    ix = i0 + num(lin_off(lin, a, b, r, c)) if lin else (i0 + num(a), j0 + num(b))
                    self.store(st, ("idx", L, ix), val.el(num(a + b) if (r == 1 or c == 1) else (num(a), num(b))) if val.t else ZERO)
            return
        whole = self.load(st, L, t)
        self.store(st, L, M.atom(("blkset", whole, i0, j0, r, c, lin, val)))

    # ------------------------------------------------------------------ coercions
    def as_p(self, v):
        if isinstance(v, P):
            return v
        if isinstance(v, bool):
            return ONE if v else ZERO
        if isinstance(v, V) and len(v.e) == 1:
            return v.e[0]
        if isinstance(v, M):
            return v.scalar()
        if isinstance(v, tuple) and v and v[0] == "phi":
            return phi(v[1], self.as_p(v[2]), self.as_p(v[3]))
        if isinstance(v, tuple) and v and v[0] == "enumc":
            return P.atom(v)
        if v is None:
            return P.atom(unk("none"))
        return P.atom(v)

    def as_b(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, P):
            return b_cmp("!=", v, ZERO)
        if is_bool(v):
            return v
        if isinstance(v, tuple) and v:
            if v[0] == "ptr":
                return True
            if v[0] == "null":
                return False
            if v[0] == "phi":
                return phi(v[1], self.as_b(v[2]), self.as_b(v[3]))
            if v[0] == "in":
                n = self.nullness(v)
                if n is not None:
                    return n
                return ("not", ("eqt", frozenset((v, ("null",)))))
        return ("bool", v)

    def nullness(self, v):
        """True: known non-null"""
        h = self.hooks.get("nonnull")
        return h(v) if h else None

    def as_mat(self, v):
        if isinstance(v, (V, M)):
            return v
        if isinstance(v, P):
            return v
        return M.atom(v if v is not None else unk("mat"))

    # ------------------------------------------------------------------ entry
    def run(self, fn, this=None, thiscls=None, args=None, st=None):
        """analyse fn; args: list of ('loc',Loc) / ('val',value); returns (value, state, Out)"""
        st = st or State()
        vals = args
        if vals is None:
            vals = [("loc", ("obj", p["n"] or "arg%d" % i)) for i, p in enumerate(fn.params)]
        if this is None and fn.cls and not fn.static:
            this = ("obj", "this")
        return self.call_fn(st, fn, this, thiscls or fn.cls, vals)

    def call_fn(self, st, fn, this, thiscls, args):
        self.analysed.add((fn.q, fn.file, fn.line))
        self.ncalls += 1
        if self.ncalls > 60000:
            raise Undecided("analysis budget exceeded")
        self.nframe += 1
        fr = Frame(fn, this, thiscls, self.nframe)
        for i, p in enumerate(fn.params):
            if i >= len(args):
                break
            self.bind(st, fr, p, fn.types[p["t"]], args[i])
        self.stack.append(fr)
        if len(self.stack) > self.MAXDEPTH + 8:
            self.stack.pop()
            raise Undecided("inlining too deep")
        try:
            if fn.ctor:
                self.ctor_inits(st, fr, fn)
            out = self.exec_stmt(st, fn.body)
        finally:
            self.stack.pop()
        res = self.finish(out)
        return res

    def finish(self, out):
        """combine falling off the end with returns -> (value, state or None)"""
        if out.live is not None and out.ret is not None:
            v, s2 = out.ret
            if v is None:
                v = ("void",)
            s = self.join(out.retc, s2, out.live)
            return v, s
        if out.live is not None:
            return ("void",), out.live
        if out.ret is not None:
            return out.ret
        return ("void",), None

    def bind(self, st, fr, p, t, arg):
        key = p["id"]
        k, a = arg
        tt = t.strip()
        isref = tt.endswith("&")
        if isref:
            if k == "loc":
                fr.env[key] = a
            else:
                l = self.tmp()
                fr.env[key] = l
                self.store(st, l, a)
        else:
            l = ("var", fr.n, key)
            fr.env[key] = l
            v = self.load(st, a, t) if k == "loc" else a
            if k == "loc" and a in self.dyncls:
                self.dyncls[l] = self.dyncls[a]
            self.store(st, l, self.coerce(v, t))

    def coerce(self, v, t):
        d = dims(t)
        if isinstance(d, tuple):
            if isinstance(v, M):
                r, c = d
                if not v.t:
                    return V(r, c, [ZERO] * (r * c))
                return V(r, c, [v.el(num(k)) for k in range(r * c)] if (r == 1 or c == 1) else [v.el((num(i), num(j))) for i in range(r) for j in range(c)])
            if isinstance(v, V):
                if (v.r, v.c) != d and len(v.e) == d[0] * d[1] and (v.r == 1 or v.c == 1):
                    return V(d[0], d[1], v.e)
                return V(v.r, v.c, v.e)
            if isinstance(v, P):
                return self.typed(unk("coerce"), t)
            if isinstance(v, tuple):
                return self.typed(v, t)
        b = base_type(t)
        if b in SCALAR_T and not isinstance(v, P):
            return self.as_p(v)
        if b == "bool" and not is_bool(v):
            return self.as_b(v)
        return v

    def ctor_inits(self, st, fr, fn):
        fields = {f["n"]: f for f in self.m.recs.get(fn.cls, {}).get("fields", [])}
        seen = set()
        for i in fn.inits:
            if "field" in i:
                loc = ("fld", fr.this, i["field"])
                seen.add(i["field"])
                t = fields.get(i["field"], {}).get("t", "?")
                if i["e"] is None:
                    continue
                self.init_loc(st, loc, t, i["e"])
            elif "base" in i:
                bt = fn.types[i["base"]]
                e = i["e"]
                if e and e.get("k") in ("ctor", "tctor"):
                    self.construct(st, fr.this, bt, e, asbase=True)
            elif i.get("deleg"):
                e = i["e"]
                if e and e.get("k") in ("ctor", "tctor"):
                    self.construct(st, fr.this, fn.cls, e, asbase=True)

    def init_loc(self, st, loc, t, e):
        """initialise storage loc of type t from expression e"""
        tt = t.strip()
        if tt.endswith("&"):
            l = self.lval(st, e)
            if l is None:
                v = self.eval(st, e)
                self.store(st, loc, v)
            else:
                self.store(st, loc, ("ref", l))
            return
        k = e.get("k")
        if k in ("ctor", "tctor"):
            return self.construct(st, loc, t, e)
        if k == "ilist":
            d = dims(t)
            if d is None and base_type(t) in self.m.recs:
                fs = self.m.fields(base_type(t))
                for f, a in zip(fs, e["args"]):
                    self.init_loc(st, ("fld", loc, f["n"]), f["t"], a)
                if not e["args"]:
                    self.store(st, loc, ("zero",))
                return
            if len(e["args"]) == 1:
                return self.init_loc(st, loc, t, e["args"][0])
            if not e["args"]:
                self.store(st, loc, self.zero_of(t))
                return
            for i, a in enumerate(e["args"]):
                self.store(st, ("idx", loc, num(i)), self.eval(st, a))
            return
        if k == "zeroinit":
            self.store(st, loc, self.zero_of(t))
            return
        l = self.lval(st, e) if k in ("ref", "mem", "sub", "un") else None
        v = self.load(st, l, t) if l is not None else self.eval(st, e)
        if l is not None and l in self.dyncls:
            self.dyncls[loc] = self.dyncls[l]
        self.store(st, loc, self.coerce(v, t))

    def zero_of(self, t):
        d = dims(t)
        if isinstance(d, tuple):
            return V(d[0], d[1], [ZERO] * (d[0] * d[1]))
        b = base_type(t)
        if b in SCALAR_T:
            return ZERO
        if b == "bool":
            return False
        if b.endswith("*"):
            return ("null",)
        return ("zero",)

    # ------------------------------------------------------------------ statements
    def exec_block(self, st, stmts):
        cur = Out(st)
        for s in stmts:
            if cur.live is None:
                break
            o = self.exec_stmt(cur.live, s)
            cur = self.seq(cur, o)
        return cur

    def seq(self, a, b):
        """a happened, its live part continued as b"""
        ret, retc = self.merge_exit(a.ret, a.retc, b.ret, b.retc)
        brk, brkc = self.merge_exit(a.brk, a.brkc, b.brk, b.brkc)
        cont, contc = self.merge_exit(a.cont, a.contc, b.cont, b.contc)
        return Out(b.live, ret, retc, brk, brkc, cont, contc)

    def merge_exit(self, x, xc, y, yc):
        if x is None:
            return y, yc
        if y is None:
            return x, xc
        v = self.join_val(xc, x[0], y[0])
        s = self.join(xc, x[1], y[1])
        return (v, s), b_or(xc, yc)

    def join_val(self, c, a, b):
        if a is None or b is None:
            return a if b is None else b
        return phi(c, a, b)

    def join(self, c, a, b):
        """merge state a (under c) and b; events of a/b were forked from a common prefix"""
        if a is None:
            return b
        if b is None:
            return a
        s = {}
        keys = list(a.store.keys()) + [k for k in b.store if k not in a.store]
        for k in keys:
            va, vb = a.store.get(k), b.store.get(k)
            if k in a.store and k in b.store:
                s[k] = va if va is vb or (type(va) == type(vb) and va == vb) else phi(c, va, vb)
            elif k[0] in ("var", "tmp") and not self._anyanc(b if k in a.store else a, k):
                # local to one side
                s[k] = va if k in a.store else vb
            else:
                other = b if k in a.store else a
                mine = va if k in a.store else vb
                try:
                    ov = self.load_base(other, k, self.type_of_val(mine))
                except Exception:
                    ov = unk("join")
                s[k] = phi(c, mine, ov) if k in a.store else phi(c, ov, mine)
        q = a.q
        if a.q != b.q:
            h = self.hooks.get("joinq")
            q = h(c, a.q, b.q) if h else a.q
        out = State(s, [], q, a.depth, a.facts)
        if a.ev is b.ev:
            out.ev = a.ev
        else:
            out.ev = self.ev_join(c, a.ev, b.ev)
        return out

    @staticmethod
    def ev_join(c, a, b):
        n = 0
        while n < len(a) and n < len(b) and a[n] is b[n]:
            n += 1
        out = list(a[:n])
        if a[n:] or b[n:]:
            out.append(("br", c, tuple(a[n:]), tuple(b[n:])))
        return out

    def _anyanc(self, st, k):
        k = parent(k)
        while k is not None:
            if k in st.store:
                return True
            k = parent(k)
        return False

    def type_of_val(self, v):
        if isinstance(v, P):
            return "double"
        if isinstance(v, V):
            return "Eigen::Matrix<double, %d, %d" % (v.r, v.c)
        if isinstance(v, M):
            return "Eigen::Matrix<double, -1, 1"
        if is_bool(v):
            return "bool"
        return "?"

    def exec_stmt(self, st, s):
        if s is None:
            return Out(st)
        k = s["k"]
        if k == "block":
            return self.exec_block(st, s["s"])
        if k == "tailed":
            o = self.fold_continue(self.exec_stmt(st, s["body"]))
            if o.live is not None:
                for x in s["tail"]:
                    if self.exec_expr(o.live, x):
                        o.live = None
                        break
            return o
        if k == "nop":
            return Out(st)
        if k == "expr":
            x = s["x"]
            dead = self.exec_expr(st, x)
            return Out(None) if dead else Out(st)
        if k == "decl":
            for v in s["vars"]:
                self.exec_var(st, v)
                if self.isdead(st):
                    return Out(None)
            return Out(st)
        if k == "ret":
            v = ("void",)
            if "e" in s and s["e"] is not None:
                fn = self.stack[-1].fn
                rt = fn.ret if not getattr(self.stack[-1], "lam", None) else "?"
                if rt.strip().endswith("&"):
                    l = self.lval(st, s["e"])
                    v = ("lref", l) if l is not None else self.eval(st, s["e"])
                elif s["e"].get("k") in ("ctor", "tctor", "ilist") :
                    tl = self.tmp()
                    self.init_loc(st, tl, rt if rt != "?" else self.ty(s["e"]), s["e"])
                    v = self.load(st, tl, rt)
                    if tl in self.dyncls and isinstance(v, tuple):
                        pass
                else:
                    v = self.eval(st, s["e"])
                    if rt != "?":
                        v = self.coerce(v, rt)
            if self.isdead(st):
                return Out(None)
            return Out(None, (v, st), True)
        if k == "if":
            if s.get("init"):
                o = self.exec_stmt(st, s["init"])
                st = o.live
            if s.get("cv"):
                o = self.exec_stmt(st, s["cv"])
                st = o.live
            c = self.as_b(self.eval(st, s["c"]))
            if self.isdead(st):
                return Out(None)
            return self.exec_if(st, c, lambda x: self.exec_stmt(x, s["a"]), lambda x: self.exec_stmt(x, s.get("b")))
        if k in ("for", "rfor", "while", "do"):
            return self.exec_loop(st, s)
        if k == "switch":
            return self.exec_switch(st, s)
        if k == "break":
            return Out(None, brk=(("void",), st), brkc=True)
        if k == "continue":
            return Out(None, cont=(("void",), st), contc=True)
        if k == "try":
            h = self.hooks.get("throws")
            if h and s.get("h") and h(self, st, s):
                return self.exec_stmt(st, s["h"][0]["body"])
            o = self.exec_stmt(st, s["body"])
            self.note("try/catch treated as non-throwing", s)
            return o
        if k in ("case", "default"):
            return self.exec_stmt(st, s["s"])
        self.note("statement " + str(s.get("cn")), s)
        return Out(st)

    def exec_if(self, st, c, fa, fb):
        if c is True:
            return fa(st)
        if c is False:
            return fb(st)
        h = self.hooks.get("decide")
        if h:
            d = h(self, st, c)
            if d is True:
                return fa(st)
            if d is False:
                return fb(st)
        h = self.hooks.get("fork")
        if h:
            qa, qb, rest = h(self, st, c)
        else:
            qa = qb = st.q
            rest = None
        a, b = st.fork(), st.fork()
        pre = st.ev
        a.ev, b.ev = list(pre), list(pre)
        a.q, b.q = qa, qb
        a.facts = st.facts + (c,)
        b.facts = st.facts + (b_not(c),)
        oa, ob = fa(a), fb(b)
        jh = self.hooks.get("afterfork")
        if jh:
            jh(self, c, oa, ob, rest)
        live = self.join(c, oa.live, ob.live)
        if live is not None:
            live.facts = st.facts
            if oa.live is None and ob.live is not None:
                live.facts = st.facts + (b_not(c),)
            elif ob.live is None and oa.live is not None:
                live.facts = st.facts + (c,)
        def mk(x, xc, y, yc):
            if x is None and y is None:
                return None, False
            if x is None:
                return y, b_and(b_not(c), yc)
            if y is None:
                return x, b_and(c, xc)
            return (self.join_val(c, x[0], y[0]), self.join(c, x[1], y[1])), b_or(b_and(c, xc), b_and(b_not(c), yc))
        ret, retc = mk(oa.ret, oa.retc, ob.ret, ob.retc)
        brk, brkc = mk(oa.brk, oa.brkc, ob.brk, ob.brkc)
        cont, contc = mk(oa.cont, oa.contc, ob.cont, ob.contc)
        # a branch that ends the program does not constrain the value of the condition
        return Out(live, ret, retc, brk, brkc, cont, contc)

    def exec_switch(self, st, s):
        v = self.eval(st, s["c"])
        body = s["body"]["s"] if s["body"]["k"] == "block" else [s["body"]]
        # flatten into groups [(labels, stmts)]
        items = []
        for x in body:
            labels = []
            while x["k"] in ("case", "default"):
                labels.append(x.get("v") if x["k"] == "case" else "default")
                x = x["s"]
            items.append((labels, x))
        def run_from(i):
            def f(x):
                cur = Out(x)
                for labels, stx in items[i:]:
                    if cur.live is None:
                        break
                    cur = self.seq(cur, self.exec_stmt(cur.live, stx))
                # break leaves the switch
                if cur.brk is not None:
                    live = self.join(cur.brkc, cur.brk[1], cur.live)
                    cur = Out(live, cur.ret, cur.retc, None, False, cur.cont, cur.contc)
                return cur
            return f
        cases = []
        dflt = None
        for i, (labels, _) in enumerate(items):
            for lb in labels:
                if lb == "default":
                    dflt = i
                else:
                    cases.append((self.eval(st, lb), i))
        def chain(k):
            def f(x):
                if k == len(cases):
                    if dflt is None:
                        return Out(x)
                    return run_from(dflt)(x)
                c = self.equal(v, cases[k][0])
                return self.exec_if(x, c, run_from(cases[k][1]), chain(k + 1))
            return f
        # exhaustive enum switch without default: last case needs no test
        if dflt is None and s.get("allenum") and cases:
            last = cases[-1]
            if not isinstance(v, tuple) or v[0] != "enumc":
                cs = cases[:-1]
                def chain2(k):
                    def f(x):
                        if k == len(cs):
                            return run_from(last[1])(x)
                        c = self.equal(v, cs[k][0])
                        return self.exec_if(x, c, run_from(cs[k][1]), chain2(k + 1))
                    return f
                return chain2(0)(st)
        return chain(0)(st)

    def isdead(self, st):
        return st.store.get(("dead",)) is True

    def exec_expr(self, st, x):
        self.eval(st, x)
        return self.isdead(st)

    def choose(self, st, loc, la, lb, c, cls, depth=0):
        for k in [cls] + list(self.m.bases(cls)):
            for f in self.m.fields(k):
                b = base_type(f["t"])
                x, y, z = (("fld", l, f["n"]) for l in (loc, la, lb))
                if b in self.m.recs and "*" not in f["t"] and depth < 4:
                    self.choose(st, x, y, z, c, b, depth + 1)
                else:
                    va, vb = self.load(st, y, f["t"]), self.load(st, z, f["t"])
                    st.store[x] = phi(c, self.coerce(va, f["t"]), self.coerce(vb, f["t"]))

    def exec_var(self, st, v):
        fr = self.stack[-1]
        t = fr.fn.types[v["t"]]
        tt = t.strip()
        if v.get("static"):
            fr.env[v["id"]] = ("glob", fr.fn.q + "::" + v["n"])
            return
        if tt.endswith("&") and "init" in v:
            ini = v["init"]
            if ini and ini.get("k") == "ilist" and len(ini.get("args", [])) == 1:
                ini = ini["args"][0]        # T& x{ lvalue }
            l = self.lval(st, ini)
            if l is not None:
                fr.env[v["id"]] = l
                return
            x = ini
            while isinstance(x, dict) and x.get("k") in ("cast", "icast"):
                x = x["e"]
            if isinstance(x, dict) and x.get("k") == "cond" and base_type(t) in self.m.recs:
                la, lb = self.lval(st, x["a"]), self.lval(st, x["b"])
                if la is not None and lb is not None:       # one of two objects: each field is a choice
                    loc = ("var", fr.n, v["id"])
                    self.clear_under(st, loc)
                    st.store.pop(loc, None)
                    fr.env[v["id"]] = loc
                    self.dyncls[loc] = base_type(t)
                    if tt.startswith("const"):
                        self.choose(st, loc, la, lb, self.as_b(self.eval(st, x["c"])), base_type(t))
                    else:
                        st.store[loc] = unk("choice")
                    return
        loc = ("var", fr.n, v["id"])
        self.clear_under(st, loc)
        st.store.pop(loc, None)
        fr.env[v["id"]] = loc
        bt = base_type(t)
        if bt in self.m.recs:
            self.dyncls[loc] = bt
        if bt.startswith("Eigen::Map<") and v.get("init"):
            l = self.map_view(st, bt, v["init"])
            if l is not None:
                fr.env[v["id"]] = l
                return
        if "init" in v and v["init"] is not None:
            self.init_loc(st, loc, t[:-1] if tt.endswith("&") else t, v["init"])
        else:
            st.store[loc] = self.typed(("uninit", v["n"]), t)

    # ------------------------------------------------------------------ loops
    def canon(self, st, s):
        """recognise counting loops: returns (var id or None, lo value, hi value, body stmts, post) or None"""
        k = s["k"]
        if k == "for":
            init, c, inc = s.get("init"), s.get("c"), s.get("inc")
            if not (c and inc):
                return None
            vid, lo = None, None
            if init and init["k"] == "decl" and len(init["vars"]) >= 1:
                vid = init["vars"][0]["id"]
            elif init and init["k"] == "expr" and init["x"]["k"] == "asg" and init["x"]["op"] == "=" and init["x"]["a"]["k"] == "ref":
                vid = init["x"]["a"]["id"]
            if vid is None and c["k"] == "bin":
                a = strip_ic(c["a"])
                if a.get("k") == "ref":
                    vid = a["id"]
            if vid is None:
                return None
            st1 = step_of(inc, vid)
            if st1 is None:
                return None
            return vid, c, st1, s["body"]
        if k == "while":
            c = s["c"]
            body = s["body"]
            if body["k"] != "block" or not body["s"]:
                return None
            last = body["s"][-1]
            cc = strip_ic(c)
            if cc["k"] != "bin":
                return None
            a = strip_ic(cc["a"])
            if a.get("k") != "ref":
                return None
            vid = a["id"]
            if last["k"] != "expr":
                return None
            st1 = step_of(last["x"], vid)
            if st1 is None or any(n.get("k") == "continue" for n in walk(body)):
                return None
            return vid, c, st1, dict(body, s=body["s"][:-1])
        return None

    def split_inc(self, s):
        """for( ...; ...; ++i, ++j ): everything but the loop variable's step becomes the tail of the body"""
        parts, todo = [], [s["inc"]] if s.get("inc") else []
        while todo:
            x = todo.pop()
            if x.get("k") == "bin" and x.get("op") == ",":
                todo += [x["b"], x["a"]]
            elif x.get("k") == "opcall" and x.get("op") == "," and len(x.get("args", ())) == 2:
                todo += [x["args"][1], x["args"][0]]
            else:
                parts.append(x)
        if len(parts) < 2 or not s.get("c"):
            return s
        tested = {n["id"] for n in walk(s["c"]) if n.get("k") == "ref" and "id" in n}
        own = [x for x in parts if any(n.get("k") == "ref" and n.get("id") in tested for n in walk(x))]
        if len(own) != 1:
            return s
        rest = [x for x in parts if x is not own[0]]
        return dict(s, inc=own[0], body={"k": "tailed", "body": s["body"], "tail": rest, "l": s.get("l"), "s": []})

    def exec_loop(self, st, s):
        fr = self.stack[-1]
        if s["k"] == "rfor":
            return self.exec_rfor(st, s)
        if s["k"] == "for" and s.get("init"):
            o = self.exec_stmt(st, s["init"])
            st = o.live
            if st is None:
                return Out(None)
            s = self.split_inc(s)
        it = self.iter_loop(st, s)
        if it is not None:
            return it
        cn = self.canon(st, s)
        if cn is None:
            return self.exec_generic_loop(st, s)
        vid, c, step, body = cn
        loc = fr.env.get(vid)
        if loc is None:
            return self.exec_generic_loop(st, s)
        # the loop variable may not be written by the body
        lo = self.load(st, loc, "int")
        bound = self.loop_bound(st, c, vid, step)
        if bound is None or not isinstance(lo, P):
            return self.exec_generic_loop(st, s)
        if assigns_var(body, vid):
            return self.exec_generic_loop(st, s)
        op, hi = bound
        # exclusive upper bound for upward loops
        if step > 0:
            if op == "<=":
                hi = hi + ONE
            elif op not in ("<", "!="):
                return self.exec_generic_loop(st, s)
        else:
            # downward: i > hi  /  i >= hi
            if op == ">":
                hi = hi + ONE
            elif op != ">=":
                return self.exec_generic_loop(st, s)
            lo, hi = hi, lo + ONE       # same index set, reversed
        trip = hi - lo
        if trip.is_const() and abs(step) != 0:
            n = trip.cval()
            import math
            cnt = max(0, math.ceil(n / abs(step)))
            if cnt <= self.UNROLL:
                seq = [lo + num(i * abs(step)) for i in range(cnt)]
                if step < 0:
                    seq.reverse()
                cur = Out(st)
                for v in seq:
                    if cur.live is None:
                        break
                    self.store(cur.live, loc, v)
                    o = self.exec_stmt(cur.live, body)
                    o = self.fold_continue(o)
                    cur = self.seq(cur, o)
                live = cur.live
                if cur.brk is not None:
                    live = self.join(cur.brkc, cur.brk[1], live)
                if live is not None:
                    self.store(live, loc, hi if step > 0 else lo - ONE)
                return Out(live, cur.ret, cur.retc)
        if abs(step) != 1:
            trip = P.atom(("cdiv", hi - lo, num(abs(step))))
            iv = ("iv", st.depth, ZERO, trip)
            ivp = P.atom(iv)
            val = lo + num(abs(step)) * ivp
        else:
            iv = ("iv", st.depth, lo, hi)
            val = P.atom(iv)
        def setup(x):
            self.store(x, loc, val)
        o = self.summarise(st, iv, setup, body, {loc}, rev=step < 0)
        if o.live is not None:
            self.store(o.live, loc, P.atom(("max", frozenset((lo, hi)))) if not trip.is_const() else hi)
        return o

    def fold_continue(self, o):
        if o.cont is None:
            return o
        live = self.join(o.contc, o.cont[1], o.live)
        return Out(live, o.ret, o.retc, o.brk, o.brkc)

    def loop_bound(self, st, c, vid, step):
        c = strip_ic(c)
        if c["k"] == "opcall" and c["op"] in ("!=", "<"):
            return None
        if c["k"] != "bin":
            return None
        a, b = strip_ic(c["a"]), strip_ic(c["b"])
        op = c["op"]
        if a.get("k") == "ref" and a["id"] == vid:
            hi = self.eval(st, c["b"])
        elif b.get("k") == "ref" and b["id"] == vid:
            hi = self.eval(st, c["a"])
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        else:
            # i + c < n  is  i < n - c
            def shifted(x):
                if x.get("k") == "bin" and x.get("op") == "+":
                    for u, w in ((x["a"], x["b"]), (x["b"], x["a"])):
                        u = strip_ic(u)
                        if u.get("k") == "ref" and u.get("id") == vid:
                            return w
                return None
            off, other = shifted(a), c["b"]
            if off is None:
                off, other = shifted(b), c["a"]
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if off is None:
                return None
            off, hi = self.eval(st, off), self.eval(st, other)
            if not isinstance(off, P) or not off.is_const() or not isinstance(hi, P):
                return None
            hi = hi - off
        if not isinstance(hi, P):
            return None
        return op, hi

    def size_of(self, v):
        if isinstance(v, V):
            return num(len(v.e))
        if isinstance(v, tuple) and v and v[0] == "seq":
            n = self.size_of(v[1])
            for it in v[2]:
                if isinstance(it, tuple) and it and it[0] == "rep":
                    n = n + (it[1][3] - it[1][2])
                else:
                    n = n + ONE
            return n
        if v == ("empty",):
            return ZERO
        if isinstance(v, tuple) and v and v[0] in ("sized", "filled"):
            return v[1]
        if isinstance(v, tuple) and v and v[0] == "resized":
            return v[2]
        if isinstance(v, tuple) and v and v[0] == "objv" and isinstance(v[1], tuple) and v[1] and v[1][0] in ("sized", "filled", "resized", "in"):
            return self.size_of(v[1])
        if isinstance(v, str):
            return num(len(v))
        if self.sizes and isinstance(v, tuple) and len(v) == 2 and v[0] == "in" and v[1] in self.sizes:
            return self.sizes[v[1]]
        return P.atom(("size", v))

    def container_value(self, st, loc, t):
        return self.load(st, loc, t)

    def exec_rfor(self, st, s):
        fr = self.stack[-1]
        rng = s["range"]
        if rng is None:
            return self.exec_generic_loop(st, s)
        # explicit list of values: unroll
        rr = strip_ic(rng)
        vt = fr.fn.types[s["var"]["t"]]
        if rr.get("k") == "ilist":
            cur = Out(st)
            for e in rr["args"]:
                if cur.live is None:
                    break
                v = self.eval(cur.live, e)
                l = ("var", fr.n, s["var"]["id"])
                fr.env[s["var"]["id"]] = l
                self.store(cur.live, l, v)
                o = self.fold_continue(self.exec_stmt(cur.live, s["body"]))
                cur = self.seq(cur, o)
            live = cur.live
            if cur.brk is not None:
                live = self.join(cur.brkc, cur.brk[1], live)
            return Out(live, cur.ret, cur.retc)
        l = self.lval(st, rng)
        if l is None:
            l = self.tmp()
            self.store(st, l, self.eval(st, rng))
        rt = self.ty(rng)
        whole = self.load(st, l, rt)
        n = self.size_of(whole)
        if n.is_const() and n.cval() <= self.UNROLL:
            isref = vt.strip().endswith("&")
            cur = Out(st)
            for k in range(int(n.cval())):
                if cur.live is None:
                    break
                el = ("idx", l, num(k))
                if isref:
                    fr.env[s["var"]["id"]] = el
                else:
                    lv = ("var", fr.n, s["var"]["id"])
                    fr.env[s["var"]["id"]] = lv
                    self.store(cur.live, lv, self.load(cur.live, el, vt))
                o = self.fold_continue(self.exec_stmt(cur.live, s["body"]))
                cur = self.seq(cur, o)
            live = cur.live
            if cur.brk is not None:
                live = self.join(cur.brkc, cur.brk[1], live)
            return Out(live, cur.ret, cur.retc)
        iv = ("iv", st.depth, ZERO, n)
        el = ("idx", l, P.atom(iv))
        isref = vt.strip().endswith("&")
        def setup(x):
            if isref:
                fr.env[s["var"]["id"]] = el
            else:
                lv = ("var", fr.n, s["var"]["id"])
                fr.env[s["var"]["id"]] = lv
                self.store(x, lv, self.load(x, el, vt))
        return self.summarise(st, iv, setup, s["body"], set())

    def iter_loop(self, st, s):
        """for( auto it = c.begin(); it != c.end(); ++it )"""
        if s["k"] != "for" or not s.get("init") or s["init"]["k"] != "decl" or not s["init"]["vars"]:
            return None
        v = s["init"]["vars"][0]
        ini = v.get("init")
        fr = self.stack[-1]
        if ini is None:
            return None
        while ini.get("k") in ("ctor", "tctor", "ilist") and len(ini.get("args", [])) == 1:
            ini = ini["args"][0]
        if ini.get("k") != "mcall" or ini["f"]["n"] not in ("begin", "cbegin"):
            return None
        c = strip_ic(s["c"]) if s.get("c") else None
        if not c or c.get("k") not in ("opcall", "bin") or c.get("op") != "!=":
            return None
        inc = s.get("inc")
        if not inc or inc.get("op") != "++":
            return None
        def bare(x):
            x = strip_ic(x)
            while x.get("k") in ("ctor", "tctor", "ilist") and len(x.get("args", [])) == 1:
                x = strip_ic(x["args"][0])
            return x
        sides = [bare(x) for x in (c["args"] if c["k"] == "opcall" else (c["a"], c["b"]))]
        far = [x for x in sides if not (x.get("k") == "ref" and x.get("id") == v["id"])]
        if len(far) != 1:
            return None
        far = far[0]
        if far.get("k") == "ref":
            far = bare(next((w["init"] for w in s["init"]["vars"][1:] if w["id"] == far.get("id") and w.get("init")), {"k": "?"}))
        if far.get("k") != "mcall" or far["f"]["n"] not in ("end", "cend") or self.lval(st, far["obj"]) != self.lval(st, ini["obj"]):
            return None
        l = self.lval(st, ini["obj"])
        if l is None:
            return None
        n = self.size_of(self.load(st, l, self.ty(ini["obj"])))
        iv = ("iv", st.depth, ZERO, n)
        itloc = ("var", fr.n, v["id"])
        def setup(x):
            fr.env[v["id"]] = itloc
            x.store[itloc] = ("ptr", ("idx", l, P.atom(iv)))
        return self.summarise(st, iv, setup, s["body"], {itloc})

    def exec_generic_loop(self, st, s):
        """unknown trip count: everything written becomes unknown"""
        self.note("loop with unrecognised bounds", s)
        body = s["body"]
        extra = [x for x in (s.get("c"), s.get("inc")) if x]
        a = st.fork()
        a.ev = list(st.ev)
        a.depth += 1
        h = self.hooks.get("loop_enter")
        if h:
            h(self, a, None)
        iv = ("iv", st.depth, ZERO, P.atom(unk("trip")))
        try:
            # two passes: find written locations, then a generic iteration
            pre = dict(a.store)
            b = a.fork(); b.ev = []
            for x in extra[:1]:
                self.eval(b, x)
            o = self.exec_stmt(b, body)
            if o.live is not None:
                for x in extra[1:]:
                    self.eval(o.live, x)
            changed = set()
            for r in (o.live, o.cont and o.cont[1], o.brk and o.brk[1]):
                if r is not None:
                    changed |= self.diff(pre, r.store)
            frame0 = self.stack[-1].n
            for rounds in range(6):
                base = st.fork(); base.ev = []
                base.depth += 1
                for k in sorted(changed, key=lambda k: len(str(k))):
                    self.havoc(base, k)
                start = dict(base.store)
                if h:
                    h(self, base, None)
                if s["k"] != "do":
                    for x in extra[:1]:
                        self.eval(base, x)
                o2 = self.exec_stmt(base, body)
                outs = [x for x in (o2.live, o2.cont and o2.cont[1], o2.brk and o2.brk[1]) if x is not None]
                if o2.live is not None:
                    for x in extra[1:]:
                        self.eval(o2.live, x)
                # places that only a later iteration writes (an element whose index moves, say)
                more = set()
                for r in outs:
                    for k in self.diff(start, r.store):
                        root = k
                        while parent(root) is not None:
                            root = parent(root)
                        if k[0] == "dead" or root[0] in ("tmp", "heap") and root not in start or root[0] == "var" and root[1] > frame0 or any(is_under(k, c) for c in changed):
                            continue
                        while k[0] == "idx" and (has_unk(k[2]) or rounds > 1 or contains(k[2], lambda y: self.made_inside(y, st.depth))):
                            k = k[1]
                        more.add(k)
                if not more:
                    break
                changed |= more
            else:
                raise Undecided("loop does not stabilise")
            ev = outs[0].ev if outs else []
        except Undecided:
            raise
        for k in changed:
            if k[0] == "dead":
                continue
            self.havoc(st, k)
        st.store.pop(("dead",), None)
        if ev:
            st.ev.append(("loop", iv, tuple(ev)))
        h2 = self.hooks.get("loop_exit")
        if h2:
            h2(self, st, outs[0] if outs else None, None)
        ret = o2.ret
        if ret is not None:
            return Out(st, (self.smash_any(ret[0]), ret[1]), ("bool", unk("loop-ret")))
        return Out(st)

    def smash_any(self, v):
        if v == ("void",):
            return v
        if isinstance(v, bool):
            return v
        return self.smash(v)

    def havoc(self, st, k):
        old = st.store.get(k)
        self.clear_under(st, k)
        st.store[k] = self.smash(old) if old is not None else unk("havoc")

    def diff(self, a, b):
        out = set()
        for k, v in b.items():
            if k == ("dead",):
                continue
            if k not in a or not (a[k] is v or (type(a[k]) == type(v) and a[k] == v)):
                out.add(k)
        for k in a:
            if k not in b:
                out.add(k)
        return out

    def summarise(self, st, iv, setup, body, loopvars, rev=False, ind=None, ptrs=True, also=frozenset()):
        """one generic iteration of a counting loop; ind: variables known to advance by a fixed amount per iteration {loc: (start, advance)}"""
        ind = ind or {}
        lo0, hi0 = iv[2], iv[3]
        def adv(old, g, n):
            return V(old.r, old.c, [x + y * n for x, y in zip(old.e, g.e)]) if isinstance(old, V) else old + g * n
        closed = {k: adv(old, g, (P.atom(iv) - lo0) if not rev else (hi0 - ONE - P.atom(iv))) for k, (old, g) in ind.items()}
        lo, hi = iv[2], iv[3]
        fr = self.stack[-1]
        pre = dict(st.store)
        h_in, h_out = self.hooks.get("loop_enter"), self.hooks.get("loop_exit")
        saved_notes = list(self.notes)
        ntmp = self.ntmp
        tags = dict(self.tags)
        made_inside = lambda y: self.made_inside(y, st.depth)
        # pass 1: which locations does an iteration write
        a = st.fork(); a.ev = []
        a.depth += 1
        if h_in:
            h_in(self, a, iv)
        a.store.update(closed)
        setup(a)
        o = self.fold_continue(self.exec_stmt(a, body))
        res = [x for x in (o.live, o.brk and o.brk[1], o.ret and o.ret[1]) if x is not None]
        changed = set()
        for r in res:
            changed |= self.diff(pre, r.store)
        changed = {k for k in changed if not (k in loopvars)}
        # iterators that advance by one place per iteration
        step = {}
        if ptrs and not rev:
            is_place = lambda v: isinstance(v, tuple) and len(v) == 2 and v[0] == "ptr" and isinstance(v[1], tuple) and len(v[1]) == 3 and v[1][0] == "idx" and isinstance(v[1][2], P)
            for k in changed:
                v = pre.get(k)
                if is_place(v) and o.live is not None and o.brk is None and o.ret is None:
                    w = o.live.store.get(k)
                    if is_place(w) and w[1][1] == v[1][1] and (w[1][2] - v[1][2]).is_const():
                        step[k] = (v[1][1], v[1][2], w[1][2] - v[1][2])
            for k, (base, start, c) in step.items():
                closed[k] = ("ptr", ("idx", base, start + c * (P.atom(iv) - lo0)))
        # loop-carried: existed before the loop, or lives under something that did
        def outer(k):
            if k in pre:
                return True
            p = parent(k)
            while p is not None:
                if p in pre or p[0] in ("obj", "glob"):
                    return True
                p = parent(p)
            if k[0] in ("var",):
                return k[1] < fr.n or (k[1] == fr.n and k in pre)
            return k[0] in ("obj", "glob")
        carried = [k for k in sorted(changed, key=str) if outer(k) and not self.iv_indexed(k, iv) and k[0] != "dead" and k not in ind and k not in step and not any(is_under(k, c) for c in also)] + sorted(also, key=str)
        # pass 2
        self.notes = saved_notes
        self.tags.clear(); self.tags.update(tags)
        b = st.fork(); b.ev = []
        b.depth += 1
        carry = {}
        for n, k in enumerate(carried):
            old = pre.get(k)
            if old is None:
                old = self.load_base(st, k, self.type_of_val(next((r.store[k] for r in res if k in r.store), None)))
            sym = ("carry", st.depth, str(k))
            carry[k] = (sym, old)
            self.clear_under(b, k)
            if isinstance(old, P):
                b.store[k] = P.atom(sym)
            elif isinstance(old, V):
                b.store[k] = V(old.r, old.c, [P.atom(("el", sym, num(i))) for i in range(len(old.e))])
            elif isinstance(old, M):
                b.store[k] = M.atom(sym)
            elif is_bool(old):
                b.store[k] = ("bool", sym)
            else:
                b.store[k] = ("seq", sym, ()) if isinstance(old, tuple) and old and old[0] in ("empty", "seq") else sym
        if h_in:
            h_in(self, b, iv)
        b.store.update(closed)
        setup(b)
        o = self.fold_continue(self.exec_stmt(b, body))
        hasbreak = o.brk is not None or o.ret is not None
        end = o.live
        if end is None and not hasbreak:
            # every iteration ends the program or there is nothing left
            st.store[("dead",)] = True
            return Out(None)
        if end is None:
            end = (o.brk or o.ret)[1]
        is_carry = lambda y: isinstance(y, tuple) and len(y) == 3 and y[0] == "carry" and y[1] == st.depth
        is_iv = lambda y: y == iv
        if any(hasbreak or end.store.get(k) != ("ptr", ("idx", base, start + c * (P.atom(iv) - lo0 + ONE))) for k, (base, start, c) in step.items()):
            self.notes = saved_notes
            self.ntmp = ntmp
            self.tags.clear(); self.tags.update(tags)
            return self.summarise(st, iv, setup, body, loopvars, rev, ind, False, also)
        if not ind and not hasbreak:
            found = {}
            for k, (sym, old) in carry.items():
                nv = end.store.get(k)
                if isinstance(nv, V) and isinstance(old, V) and len(nv.e) == len(old.e) and not has_unk(old):
                    gs = [x - P.atom(("el", sym, num(i))) for i, x in enumerate(nv.e)]
                    if any(x.t for x in gs) and all(not x.t or self.invariant(x, is_carry, is_iv) for x in gs) and any(contains(v2, lambda y: y == sym) for k2, v2 in end.store.items() if k2 != k):
                        found[k] = (old, V(old.r, old.c, gs))
                    continue
                if isinstance(nv, P) and isinstance(old, P) and not has_unk(old):
                    g = nv - P.atom(sym)
                    if g.t and self.invariant(g, is_carry, is_iv) and any(k2 is not k and contains(v2, lambda y: y == sym) for k2, v2 in itertools.chain(((x, x) for x in end.store), end.store.items(), (("ev", e) for e in end.ev)) if k2 != k):
                        found[k] = (old, g)
            if found:
                self.notes = saved_notes
                self.ntmp = ntmp
                self.tags.clear(); self.tags.update(tags)
                return self.summarise(st, iv, setup, body, loopvars, rev, found, ptrs, also)
        # places that move with what earlier iterations did: the whole container is carried along
        moving = set()
        for k in end.store:
            if k in pre and pre[k] is end.store[k] or not outer(k) or k in carry and not contains(k, made_inside) or k in ind or k in step or k in loopvars or k[0] == "dead" or self.iv_indexed(k, iv) or any(is_under(k, c) for c in carry if c != k):
                continue
            c = k
            while c is not None and not (c[0] == "idx" and contains(c[2], lambda y: is_carry(y) or made_inside(y))):
                c = parent(c)
            if c is not None:
                moving.add(c[1])
        if moving - also:
            self.notes = saved_notes
            self.ntmp = ntmp
            self.tags.clear(); self.tags.update(tags)
            return self.summarise(st, iv, setup, body, loopvars, rev, ind, ptrs, also | moving)
        nonempty = b_cmp("<", lo, hi)
        def fold(nv, sym, old):
            """running minimum or maximum"""
            at = nv.as_atom()
            if isinstance(at, tuple) and len(at) == 2 and at[0] in ("min", "max") and sym in at[1]:
                rest = [x for x in at[1] if x != sym]
                if not any(contains(x, is_carry) for x in rest):
                    e = rest[0]
                    for x in rest[1:]:
                        e = minmax(at[0], e, x)
                    return minmax(at[0], old, P.atom((at[0] + "over", iv, e)) if contains(e, is_iv) else phi(nonempty, e, old))
            return None
        def after(k, sym, old, nv):
            if hasbreak:
                return self.smash(old)
            if isinstance(nv, P) and isinstance(old, P):
                g = nv - P.atom(sym)
                if not contains(g, is_carry):
                    return old + self.sum_over(iv, g)
                f = fold(nv, P.atom(sym), old)
                if f is not None:
                    return f
            if isinstance(nv, V) and isinstance(old, V) and (nv.r, nv.c) == (old.r, old.c):
                fs = [fold(x, P.atom(("el", sym, num(i))), y) for i, (x, y) in enumerate(zip(nv.e, old.e))]
                if all(x is not None for x in fs):
                    return V(old.r, old.c, fs)
                gs = [x - P.atom(("el", sym, num(i))) for i, x in enumerate(nv.e)]
                if not any(contains(g, is_carry) for g in gs):
                    return V(old.r, old.c, [x + self.sum_over(iv, g) for x, g in zip(old.e, gs)])
            if isinstance(nv, M) and isinstance(old, M):
                g = nv - M.atom(sym)
                if not contains(g, is_carry):
                    if contains(g, lambda y: is_iv(y) or made_inside(y)):
                        return old + M.atom(("summ", iv, g))
                    return old + g.scale(hi - lo)
            if not contains(nv, is_carry):
                if not contains(nv, is_iv):
                    return phi(nonempty, nv, old)
                last = hi - ONE if not rev else lo
                nv2 = subst(nv, lambda y: last if y == iv else None)
                return phi(nonempty, nv2, old)
            if isinstance(nv, tuple) and nv and nv[0] == "seq":
                basec, items = nv[1], nv[2]
                if basec == sym and not any(contains(x, is_carry) for x in items) and isinstance(old, tuple) and old and old[0] in ("empty", "seq"):
                    if len(items) == 1 and not rev:
                        ob, oi = (old, ()) if old[0] == "empty" else (old[1], old[2])
                        return self.norm_seq(("seq", ob, oi + (("rep", iv, items[0]),)))
            # conditional accumulation phi(c, carry + g, carry)
            if isinstance(nv, P) and isinstance(old, P):
                at = nv.as_atom()
                if isinstance(at, tuple) and at[0] == "phi" and not contains(at[1], is_carry) and isinstance(at[2], P) and isinstance(at[3], P):
                    ga, gb = at[2] - P.atom(sym), at[3] - P.atom(sym)
                    if not contains(ga, is_carry) and not contains(gb, is_carry):
                        return old + self.sum_over(iv, phi(at[1], ga, gb))
            return self.smash(old)
        newvals = {}
        for k, (old, g) in ind.items():
            newvals[k] = adv(old, g, hi - lo)
        for k, (base, start, c) in step.items():
            newvals[k] = ("ptr", ("idx", base, start + c * (hi - lo)))
        for k, (sym, old) in carry.items():
            nv = end.store.get(k)
            kids = [x for x in end.store if x != k and is_under(x, k) and not self.iv_indexed(x, iv)]
            if nv is None or k in also:
                newvals[k] = self.smash(old)
            elif kids:
                newvals[k] = self.smash(old)
            else:
                newvals[k] = after(k, sym, old, nv)
        # element-wise updates
        ups = {}
        for k in end.store:
            if self.iv_indexed(k, iv) and outer(k) and (k not in pre or pre[k] is not end.store[k]):
                v = end.store[k]
                if o.brk is not None and o.ret is None and isinstance(v, P) and not contains(v, is_carry):
                    # an earlier iteration may have left the loop: then this element keeps its value
                    was = self.load_base(st, k, "double") if k not in pre else pre[k]
                    ups[k] = P.atom(("phi", ("bool", ("reached", st.depth, self.where(body))), v, was)) if isinstance(was, P) else self.smash(v)
                    continue
                ups[k] = v if not contains(v, is_carry) and not hasbreak else self.smash(v)
        for k, v in newvals.items():
            self.clear_under(st, k)
            st.store[k] = v
        for k, v in ups.items():
            st.store.pop(k, None)
            st.store[k] = v
        for k in end.store:
            if k not in st.store and k not in pre and not outer(k) and root_of(k)[0] == "heap":
                st.store[k] = end.store[k]
        if hasbreak and self.leaves:
            how = [xc for x, xc in ((o.brk, o.brkc), (o.ret, o.retc)) if x is not None]
            st.ev.append(("loop", iv, (("leave", b_or(*how), self.where(body)),)))
        evs = end.ev
        if hasbreak and self.leaves:
            for x, xc in ((o.brk, o.brkc), (o.ret, o.retc)):
                if x is not None and x[1] is not end and x[1].ev is not evs:
                    evs = self.ev_join(xc, x[1].ev, evs)        # what a pass that leaves the loop did
        if evs:
            st.ev.append(("loop", iv, tuple(evs)))
        if h_out:
            h_out(self, st, end, iv)
        ret, retc = None, False
        if o.ret is not None:
            ret, retc = (self.smash_any(o.ret[0]), o.ret[1]), ("bool", ("exists", iv, o.retc) if not has_unk(o.retc) else unk("ret"))
            if not contains(o.ret[0], is_carry) and not contains(o.ret[0], is_iv):
                ret = (o.ret[0], o.ret[1])
            s2 = o.ret[1]
            s2.depth = st.depth
            s2.ev = st.ev
        return Out(st, ret, retc)

    leaves = False          # record that a loop may be left before its end

    def invariant(self, g, is_carry, is_iv):
        """the same value in every iteration: built from the inputs of the analysis only"""
        if g.is_const():
            return True
        bad = lambda y: is_carry(y) or is_iv(y) or (isinstance(y, tuple) and len(y) > 1 and (y[0] == "unk" or (y[0] == "in" and isinstance(y[1], str) and ("@" in y[1] or "(" in y[1]))))
        return not contains(g, bad)

    def made_inside(self, y, depth):
        """the result of an interface call made in a loop deeper than depth"""
        return isinstance(y, tuple) and len(y) == 2 and y[0] == "in" and isinstance(y[1], str) and "@" in y[1] and self.born.get(y[1].split(".")[0], -1) > depth

    def iv_indexed(self, k, iv):
        while k is not None:
            if k[0] == "idx" and contains(k[2], lambda y: y == iv):
                return True
            k = parent(k)
        return False

    def sum_over(self, iv, g):
        if not g.t:
            return ZERO
        varies = lambda y: y == iv or self.made_inside(y, iv[1])
        if not contains(g, varies):
            return g * (iv[3] - iv[2])
        # pull out factors not depending on iv, term by term
        out = ZERO
        for m_, c in g.t.items():
            inside, outside = [], []
            for i, e in m_:
                (inside if contains(atom_of(i), varies) else outside).append((i, e))
            co = P({tuple(outside): c})
            body = P({tuple(inside): Fraction(1)})
            out = out + co * P.atom(("sum", iv, body))
        return out

    def norm_seq(self, v):
        """a container rebuilt element by element from c is c"""
        if v[0] == "seq" and v[1] == ("empty",) and len(v[2]) == 1 and isinstance(v[2][0], tuple) and v[2][0][0] == "rep":
            _, iv, e = v[2][0]
            if iv[2] == ZERO:
                n = iv[3].as_atom()
                if isinstance(n, tuple) and n[0] == "size":
                    c = n[1]
                    if self.is_elem(e, c, iv):
                        return c
        return v

    def is_elem(self, e, c, iv):
        ix = P.atom(iv)
        for t in ("double", "bool", "?"):
            if e == self.member_of(c, ("idx", ix), t):
                return True
        el = ("el", c, ix)
        if e == el:
            return True
        if isinstance(e, tuple) and e and e[0] == "kv":
            a, b = e[1], e[2]
            f = lambda n: {self.norm_k(self.typed(("fldof", el, n), t)) for t in ("double", "?", "bool")}
            if self.norm_k(a) in f("first") and self.norm_k(b) in f("second"):
                return True
            if isinstance(b, V) and self.norm_k(a) in f("first") and b == V(b.r, b.c, [P.atom(("el", ("fldof", el, "second"), num(i))) for i in range(len(b.e))]):
                return True
        if isinstance(e, V) and e == V(e.r, e.c, [P.atom(("el", el, num(i))) for i in range(len(e.e))]):
            return True
        return False

    def norm_k(self, x):
        return x

    # ------------------------------------------------------------------ helpers
    def ty(self, node):
        return self.stack[-1].fn.ty(node)

    def note(self, what, node=None):
        w = self.stack[-1].fn.where(node) if self.stack else ""
        self.notes.append((what, w))

    def where(self, node=None):
        # innermost frame position, and the chain of callers
        return self.stack[-1].fn.where(node)

    def equal(self, a, b):
        """boolean term for a == b"""
        if isinstance(a, P) or isinstance(b, P):
            if isinstance(a, tuple) and a and a[0] == "enumc" or isinstance(b, tuple) and b and b[0] == "enumc":
                pass
            else:
                return b_cmp("==", self.as_p(a), self.as_p(b))
        if isinstance(a, tuple) and a and a[0] == "phi":
            return phi(a[1], self.equal(a[2], b), self.equal(a[3], b))
        if isinstance(b, tuple) and b and b[0] == "phi":
            return self.equal(b, a)
        if type(a) == type(b) and a == b and not has_unk(a):
            return True
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a and b and a[0] == "enumc" and b[0] == "enumc":
                return a[1] == b[1]
            if a == ("null",):
                a, b = b, a
            if b == ("null",) and a and a[0] == "ptr":
                return False
            if b == ("null",):
                n = self.nullness(a)
                if n is not None:
                    return not n
        if is_bool(a) and is_bool(b):
            if isinstance(b, bool):
                return a if b else b_not(a)
            if isinstance(a, bool):
                return b if a else b_not(b)
        return ("eqt", frozenset((a, b)))


def strip_ic(n):
    while n and n.get("k") in ("icast",) or (n and n.get("k") == "cast" and n.get("e")):
        n = n["e"]
    return n


def step_of(inc, vid):
    inc = strip_ic(inc)
    k = inc["k"]
    if k == "un" and inc["op"] in ("++", "--") and strip_ic(inc["e"]).get("id") == vid:
        return 1 if inc["op"] == "++" else -1
    if k == "asg" and inc["op"] in ("+=", "-=") and strip_ic(inc["a"]).get("id") == vid:
        b = strip_ic(inc["b"])
        if b["k"] == "int":
            return int(b["v"]) * (1 if inc["op"] == "+=" else -1)
    if k == "asg" and inc["op"] == "=" and strip_ic(inc["a"]).get("id") == vid:
        b = strip_ic(inc["b"])
        if b["k"] == "bin" and b["op"] in ("+", "-") and strip_ic(b["a"]).get("id") == vid and strip_ic(b["b"])["k"] == "int":
            return int(strip_ic(b["b"])["v"]) * (1 if b["op"] == "+" else -1)
    return None


def assigns_var(body, vid):
    for n in walk(body):
        if n.get("k") == "asg" and strip_ic(n["a"]).get("id") == vid and strip_ic(n["a"]).get("k") == "ref":
            return True
        if n.get("k") == "un" and n["op"] in ("++", "--") and strip_ic(n["e"]).get("id") == vid:
            return True
    return False
