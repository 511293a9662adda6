"""Normal forms used as value numbers.

P  scalars: polynomials with rational coefficients over interned atoms (an atom is any
   hashable term; negative exponents encode division by a single term)
V  fixed-size vectors / matrices of P
M  dynamic vectors / matrices: sums of scalar-weighted words of non-commuting atoms
Everything is immutable, hashable and compared structurally.
"""
import hashlib
from fractions import Fraction

_atoms, _ids = [], {}
LIMIT = 6000


def intern(a):
    i = _ids.get(a)
    if i is None:
        i = _ids[a] = len(_atoms)
        _atoms.append(a)
    return i


def atom_of(i):
    return _atoms[i]


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        n = d.get(i, 0) + e
        if n:
            d[i] = n
        else:
            d.pop(i, None)
    return tuple(sorted(d.items()))


class P:
    __slots__ = ("t", "_k", "_h")

    def __init__(self, t):
        self.t = t
        self._k = None
        self._h = None

    @property
    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(("P", self.key))
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    @staticmethod
    def const(c):
        c = Fraction(c)
        return P({(): c}) if c else ZERO

    @staticmethod
    def atom(a, e=1):
        return P({((intern(a), e),): Fraction(1)})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Fraction(0))

    def single(self):
        """(coef, mono) when a single term"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return c, m
        return None

    def as_atom(self):
        s = self.single()
        if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][1] == 1:
            return _atoms[s[1][0][0]]
        return None

    def __add__(self, o):
        if not self.t:
            return o
        if not o.t:
            return self
        d = dict(self.t)
        for m, c in o.t.items():
            n = d.get(m, 0) + c
            if n:
                d[m] = n
            else:
                d.pop(m, None)
        return P(d)

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if not self.t or not o.t:
            return ZERO
        if self.is_const():
            c0 = self.cval()
            return P({m: c * c0 for m, c in o.t.items()})
        if o.is_const():
            return o * self
        if len(self.t) * len(o.t) > LIMIT:
            return self.wrap() * o.wrap()
        d = {}
        red = False
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                n = d.get(m, 0) + c1 * c2
                if n:
                    d[m] = n
                else:
                    d.pop(m, None)
                if m1 and m2:
                    red = True
        r = P(d)
        return r._reduce() if red else r

    def wrap(self):
        """too large to expand further: one opaque atom (comparisons involving it are not conclusive)"""
        return P.atom(("pw", self)) if len(self.t) > 8 else self

    def _reduce(self):
        """sqrt(x)^2 -> x"""
        for m in self.t:
            for i, e in m:
                if abs(e) >= 2:
                    a = _atoms[i]
                    if isinstance(a, tuple) and a[0] == "sqrt":
                        # rewrite every such monomial
                        out = ZERO
                        for m2, c2 in self.t.items():
                            term = P({(): c2})
                            for j, e2 in m2:
                                b = _atoms[j]
                                if isinstance(b, tuple) and b[0] == "sqrt" and abs(e2) >= 2:
                                    h, rest = divmod(abs(e2), 2)
                                    base = b[1]
                                    if e2 < 0:
                                        base = base.inv()
                                    for _ in range(h):
                                        term = term * base
                                    if rest:
                                        term = P(_scale_mono(term.t, ((j, 1 if e2 > 0 else -1),)))
                                else:
                                    term = P(_scale_mono(term.t, ((j, e2),)))
                            out = out + term
                        return out
        return self

    def inv(self):
        s = self.single()
        if s:
            c, m = s
            return P({tuple((i, -e) for i, e in m): 1 / c})
        if not self.t:
            return P.atom(("inv", self))
        lead = min(self.t.items(), key=lambda x: (repr_mono(x[0])))[1]
        n = P({m: c / lead for m, c in self.t.items()})
        return P({((intern(("inv", n)), 1),): 1 / lead})

    def __truediv__(self, o):
        if o == self and self.t:
            return ONE
        return self * o.inv()

    def atoms(self):
        out = set()
        for m in self.t:
            for i, e in m:
                out.add(_atoms[i])
        return out

    def coeff(self, atom):
        """(coefficient of the atom to the first power, rest) when linear in it, else None"""
        i = _ids.get(atom)
        a, b = {}, {}
        for m, c in self.t.items():
            e = dict(m).get(i, 0) if i is not None else 0
            if e == 0:
                b[m] = c
            elif e == 1:
                a[tuple(x for x in m if x[0] != i)] = c
            else:
                return None
        return P(a), P(b)

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        if len(self.t) > 60:
            return "poly(%d terms #%s)" % (len(self.t), hashlib.md5(skey(self).encode()).hexdigest()[:8])
        for m, c in sorted(self.t.items(), key=lambda x: repr_mono(x[0])):
            s = "*".join(show(_atoms[i]) + ("^%d" % e if e != 1 else "") for i, e in m)
            if not s:
                s = str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = "%s*%s" % (c, s)
            out.append(s)
        return " + ".join(out).replace("+ -", "- ")


def _scale_mono(t, m):
    return {_mono_mul(a, m): c for a, c in t.items()}


_rm = {}


def repr_mono(m):
    r = _rm.get(m)
    if r is None:
        r = _rm[m] = tuple((skey(_atoms[i]), e) for i, e in m)
    return r


ZERO = P({})
ONE = P({(): Fraction(1)})


def num(x):
    return P.const(x)


class V:
    """fixed-size matrix, row major"""
    __slots__ = ("r", "c", "e", "_h", "arr")

    def __init__(self, r, c, e, arr=False):
        self.r, self.c, self.e, self._h, self.arr = r, c, tuple(e), None, arr
        assert len(self.e) == r * c, (r, c, len(self.e))

    def __hash__(self):
        if self._h is None:
            self._h = hash(("V", self.r, self.c, self.e))
        return self._h

    def __eq__(self, o):
        return isinstance(o, V) and (self.r, self.c) == (o.r, o.c) and self.e == o.e

    def __ne__(self, o):
        return not self == o

    def at(self, i, j=0):
        return self.e[i * self.c + j]

    def __getitem__(self, k):
        return self.e[k]

    def map(self, f):
        return V(self.r, self.c, [f(x) for x in self.e], self.arr)

    def __add__(self, o):
        return V(self.r, self.c, [a + b for a, b in zip(self.e, o.e)], self.arr)

    def __sub__(self, o):
        return V(self.r, self.c, [a - b for a, b in zip(self.e, o.e)], self.arr)

    def __neg__(self):
        return self.map(lambda x: -x)

    def scale(self, s):
        return self.map(lambda x: s * x)

    def mm(self, o):
        if self.c != o.r:
            return None
        return V(self.r, o.c, [sum_((self.at(i, k) * o.at(k, j) for k in range(self.c))) for i in range(self.r) for j in range(o.c)])

    def T(self):
        return V(self.c, self.r, [self.at(i, j) for j in range(self.c) for i in range(self.r)], self.arr)

    def dot(self, o):
        return sum_(a * b for a, b in zip(self.e, o.e))

    def cross(self, o):
        a, b = self.e, o.e
        return V(3, 1, [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])

    def block(self, i, j, r, c):
        if i + r > self.r or j + c > self.c:
            return None
        return V(r, c, [self.at(i + a, j + b) for a in range(r) for b in range(c)], self.arr)

    def with_block(self, i, j, o):
        e = list(self.e)
        for a in range(o.r):
            for b in range(o.c):
                e[(i + a) * self.c + j + b] = o.at(a, b)
        return V(self.r, self.c, e)

    def __repr__(self):
        return "[" + ", ".join(map(repr, self.e)) + "]"


def sum_(it):
    s = ZERO
    for x in it:
        s = s + x
    return s


class M:
    """sum of P * word; word = tuple of (atom, transposed?)"""
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = {k: v for k, v in t.items() if v.t}
        self._h = None

    @staticmethod
    def atom(a):
        return M({((a, False),): ONE})

    def __hash__(self):
        if self._h is None:
            self._h = hash(("M", frozenset(self.t.items())))
        return self._h

    def __eq__(self, o):
        return isinstance(o, M) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        d = dict(self.t)
        for w, c in o.t.items():
            d[w] = d[w] + c if w in d else c
        return M(d)

    def __neg__(self):
        return M({w: -c for w, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, s):
        return M({w: s * c for w, c in self.t.items()})

    def mm(self, o):
        d = {}
        for w1, c1 in self.t.items():
            for w2, c2 in o.t.items():
                w = w1 + w2
                c = c1 * c2
                d[w] = d[w] + c if w in d else c
        return M(d)

    def cwise(self, o):
        """entry-wise product"""
        d = {}
        for w1, c1 in self.t.items():
            for w2, c2 in o.t.items():
                c, fs = c1 * c2, []
                head = lambda w: w[0][0] if len(w) == 1 and isinstance(w[0][0], tuple) and w[0][0] else (None,)
                if head(w1)[0] == "const":
                    c, fs = c * head(w1)[1], [w2]
                elif head(w2)[0] == "const":
                    c, fs = c * head(w2)[1], [w1]
                else:
                    fs = [w1, w2]
                fs = [x for w in fs for x in (head(w)[1] if head(w)[0] == "cw" else (M({w: ONE}),))]
                w = next(iter(fs[0].t)) if len(fs) == 1 else ((("cw", tuple(sorted(fs, key=skey))), False),)
                d[w] = d[w] + c if w in d else c
        return M(d)

    def T(self):
        return M({tuple((a, not t) for a, t in reversed(w)): c for w, c in self.t.items()})

    def as_atom(self):
        if len(self.t) == 1:
            (w, c), = self.t.items()
            if c == ONE and len(w) == 1 and not w[0][1]:
                return w[0][0]
        return None

    def scalar(self):
        """value of a 1x1 expression"""
        out = ZERO
        for w, c in self.t.items():
            out = out + c * word_scalar(w)
        return out

    def el(self, idx):
        out = ZERO
        for w, c in self.t.items():
            if len(w) == 1 and isinstance(w[0][0], tuple) and w[0][0]:
                h = w[0][0][0]
                if h == "zeros":
                    continue
                if h == "const":
                    out = out + c * w[0][0][1]
                    continue
                if h == "cw" and not isinstance(idx, tuple):
                    e = c
                    for x in w[0][0][1]:
                        e = e * x.el(idx)
                    out = out + e
                    continue
                if h == "blkof" and not w[0][1] and isinstance(idx, P) and isinstance(w[0][0][1], M) and not w[0][0][6]:
                    _, whole, i0, j0, nr, nc, _ = w[0][0]
                    at = lambda x: x if isinstance(x, P) else num(x)
                    if nr == 1 or nc == 1:
                        out = out + c * whole.el((at(i0), at(j0) + idx) if nr == 1 else (at(i0) + idx, at(j0)))
                        continue
                if h == "comma" and not w[0][1] and isinstance(idx, P) and idx.is_const() and all(isinstance(x, P) for x in w[0][0][1:]):
                    k = int(idx.cval())
                    if 0 <= k < len(w[0][0]) - 1:
                        out = out + c * w[0][0][1 + k]
                        continue
                if h == "V" and not w[0][1] and isinstance(idx, P) and idx.is_const() and 0 <= int(idx.cval()) < len(w[0][0][1].e):
                    out = out + c * w[0][0][1].e[int(idx.cval())]
                    continue
            if len(w) == 1 and not w[0][1]:
                out = out + c * P.atom(("el", w[0][0], idx))
            elif len(w) == 1 and isinstance(idx, tuple) and len(idx) == 2:
                out = out + c * P.atom(("el", w[0][0], (idx[1], idx[0])))
            else:
                out = out + c * P.atom(("el", ("word", w), idx))
        return out

    def __repr__(self):
        if not self.t:
            return "0m"
        return " + ".join(("(%r)*" % c if c != ONE else "") + "*".join(show(a) + ("'" if t else "") for a, t in w) for w, c in sorted(self.t.items(), key=lambda x: skey(x[0])))


def word_scalar(w):
    r = tuple((a, not t) for a, t in reversed(w))
    kw, kr = skey(w), skey(r)
    return P.atom(("wd", w if kw <= kr else r))


MZERO = M({})
_sk = {}


def skey(a):
    """run-independent structural digest, used to order terms"""
    try:
        r = _sk.get((type(a), a))
    except TypeError:
        return str(a)
    if r is None:
        if isinstance(a, P):
            raw = "P" + ";".join(sorted("%s:%s" % (c, ",".join("%s^%d" % (skey(_atoms[i]), e) for i, e in sorted(m, key=lambda x: skey(_atoms[x[0]])))) for m, c in a.t.items()))
        elif isinstance(a, V):
            raw = "V%d,%d" % (a.r, a.c) + ";".join(skey(x) for x in a.e)
        elif isinstance(a, M):
            raw = "M" + ";".join(sorted(skey(w) + ":" + skey(c) for w, c in a.t.items()))
        elif isinstance(a, tuple):
            raw = "(" + ",".join(skey(x) for x in a) + ")"
        elif isinstance(a, frozenset):
            raw = "{" + ",".join(sorted(skey(x) for x in a)) + "}"
        else:
            raw = str(a)
        r = raw if len(raw) <= 80 else raw[:40] + hashlib.md5(raw.encode()).hexdigest()
        _sk[(type(a), a)] = r
    return r


_show = {}


def show(a, depth=0):
    if depth > 6:
        return ".."
    try:
        r = _show.get((type(a), a))
    except TypeError:
        r = None
    if r is None:
        r = _show1(a, depth)
        if len(r) > 400:
            r = r[:360] + "..#" + hashlib.md5(skey(a).encode()).hexdigest()[:8]
        if depth == 0:
            try:
                _show[(type(a), a)] = r
            except TypeError:
                pass
    return r


def _show1(a, depth=0):
    if isinstance(a, (P, V, M)):
        if isinstance(a, P) and len(a.t) > 40:
            return "(poly of %d terms #%s)" % (len(a.t), hashlib.md5(skey(a).encode()).hexdigest()[:8])
        return "(" + repr(a) + ")"
    if isinstance(a, tuple):
        if a and a[0] == "in":
            return a[1]
        if a and a[0] == "el" and len(a) == 3:
            ix = a[2]
            return "%s(%s)" % (show(a[1]), ",".join(repr(x) for x in ix) if isinstance(ix, tuple) else repr(ix))
        if a and a[0] == "iv":
            return "i%s" % (a[1],)
        return "%s<%s>" % (a[0] if a else "", ", ".join(show(x, depth + 1) for x in a[1:])) if a and isinstance(a[0], str) else "(" + ", ".join(show(x) for x in a) + ")"
    if isinstance(a, frozenset):
        return "{" + ", ".join(sorted(show(x, depth + 1) for x in a)) + "}"
    return str(a)


def contains(x, pred, memo=None):
    """does any sub-term satisfy pred"""
    memo = {} if memo is None else memo
    k = id(x)
    if k in memo:
        return memo[k][0]
    r = _contains(x, pred, memo)
    memo[k] = (r, x)
    return r


def _contains(x, pred, memo):
    if isinstance(x, P):
        for m in x.t:
            for i, e in m:
                if contains(_atoms[i], pred, memo):
                    return True
        return False
    if isinstance(x, V):
        return any(contains(y, pred, memo) for y in x.e)
    if isinstance(x, M):
        for w, c in x.t.items():
            if contains(c, pred, memo):
                return True
            for a, t in w:
                if contains(a, pred, memo):
                    return True
        return False
    if pred(x):
        return True
    if isinstance(x, (tuple, frozenset, list)):
        return any(contains(y, pred, memo) for y in x)
    return False


def inexact(x):
    """contains unknowns or terms whose normal form is not canonical"""
    return contains(x, lambda y: isinstance(y, tuple) and len(y) > 0 and y[0] in ("unk", "pw", "uninit"))


def is_unk(x):
    return isinstance(x, tuple) and len(x) >= 1 and x[0] == "unk"


def has_unk(x):
    return contains(x, is_unk)


def subst(x, f, memo=None):
    """bottom-up rewriting of terms; f(term) returns a replacement or None (applied to
    non-algebraic terms and atoms)"""
    memo = {} if memo is None else memo
    k = (type(x), x)
    if k in memo:
        return memo[k]
    r = _subst(x, f, memo)
    memo[k] = r
    return r


def _subst(x, f, memo):
    if isinstance(x, P):
        out = ZERO
        for m, c in x.t.items():
            term = P({(): c})
            for i, e in m:
                a = subst(_atoms[i], f, memo)
                pa = a if isinstance(a, P) else P.atom(a)
                if e < 0:
                    pa = pa.inv()
                for _ in range(abs(e)):
                    term = term * pa
            out = out + term
        return out
    if isinstance(x, V):
        return V(x.r, x.c, [subst(y, f, memo) for y in x.e], x.arr)
    if isinstance(x, M):
        out = MZERO
        for w, c in x.t.items():
            acc = M({(): subst(c, f, memo)})
            for a, t in w:
                b = subst(a, f, memo)
                mb = b if isinstance(b, M) else M.atom(b)
                acc = acc.mm(mb.T() if t else mb)
            out = out + acc
        return out
    if isinstance(x, tuple):
        y = tuple(subst(z, f, memo) for z in x)
        r = f(y)
        if r is None and len(y) == 2 and y[0] in ("min", "max") and isinstance(y[1], frozenset) and y[1] != x[1] and y[1] and all(isinstance(z, P) for z in y[1]):
            zs = sorted(y[1], key=show)
            r = zs[0]
            for z in zs[1:]:
                r = minmax(y[0], r, z)
        if r is None and len(y) == 2 and y[0] == "cw" and y[1] != x[1] and all(isinstance(z, M) for z in y[1]):
            r = y[1][0]
            for z in y[1][1:]:
                r = r.cwise(z)
        return y if r is None else r
    if isinstance(x, frozenset):
        return frozenset(subst(z, f, memo) for z in x)
    r = f(x)
    return x if r is None else r


def sqrt(p):
    if p.is_const():
        c = p.cval()
        if c >= 0:
            import math
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator:
                return num(Fraction(a, b))
    s = p.single()
    if s:
        c, m = s
        if c == 1 and len(m) >= 1 and all(e % 2 == 0 for _, e in m):
            return P.atom(("abs", P({tuple((i, e // 2) for i, e in m): Fraction(1)})))
    return P.atom(("sqrt", p))


# ---- boolean terms -------------------------------------------------------------
TRUE, FALSE = True, False


def b_not(c):
    if c is True:
        return False
    if c is False:
        return True
    if isinstance(c, tuple):
        if c[0] == "not":
            return c[1]
        if c[0] == "lt":       # x < 0  ->  !(x<0) == -x <= 0
            return ("le", -c[1])
        if c[0] == "le":
            return ("lt", -c[1])
        if c[0] == "and":
            return b_or(*[b_not(x) for x in c[1]])
        if c[0] == "or":
            return b_and(*[b_not(x) for x in c[1]])
    return ("not", c)


def b_and(*xs):
    s = set()
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if isinstance(x, tuple) and x[0] == "and":
            s |= set(x[1])
        else:
            s.add(x)
    for x in s:
        if b_not(x) in s:
            return False
    if not s:
        return True
    if len(s) == 1:
        return next(iter(s))
    return ("and", frozenset(s))


def b_or(*xs):
    s = set()
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        if isinstance(x, tuple) and x[0] == "or":
            s |= set(x[1])
        else:
            s.add(x)
    for x in s:
        if b_not(x) in s:
            return True
    if not s:
        return False
    if len(s) == 1:
        return next(iter(s))
    return ("or", frozenset(s))


def canon_sign(p):
    """p or -p, whichever comes first (for symmetric predicates)"""
    if not p.t:
        return p
    lead = min(p.t.items(), key=lambda x: repr_mono(x[0]))[1]
    return p if lead > 0 else -p


def b_cmp(op, a, b):
    d = a - b
    if d.is_const():
        c = d.cval()
        return {"<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]
    if op == "<":
        return ("lt", d)
    if op == ">":
        return ("lt", -d)
    if op == "<=":
        return ("le", d)
    if op == ">=":
        return ("le", -d)
    if op == "==":
        return ("eq0", canon_sign(d))
    return ("not", ("eq0", canon_sign(d)))


def phi(c, a, b):
    """value at a merge: a when c, else b"""
    if c is True:
        return a
    if c is False:
        return b
    if type(a) == type(b) and a == b:
        return a
    if isinstance(c, tuple) and c[0] == "not":
        return phi(c[1], b, a)
    if isinstance(c, tuple) and c[0] == "le":
        # canonical orientation: keep lt
        return phi(("lt", -c[1]), b, a)
    if isinstance(a, bool) and isinstance(b, bool):
        return c if a else b_not(c)
    if is_bool(a) and is_bool(b):
        if a is True:
            return b_or(c, b)
        if a is False:
            return b_and(b_not(c), b)
        if b is False:
            return b_and(c, a)
        if b is True:
            return b_or(b_not(c), a)
        return ("phi", c, a, b)
    if isinstance(a, V) and isinstance(b, V) and (a.r, a.c) == (b.r, b.c):
        return V(a.r, a.c, [phi(c, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, P) and isinstance(b, P):
        if isinstance(c, tuple) and c[0] == "lt":
            d = c[1]
            if a - b == d:            # x<y ? x : y
                return minmax("min", a, b)
            if b - a == d:            # x<y ? y : x
                return minmax("max", a, b)
        return P.atom(("phi", c, a, b))
    if isinstance(a, M) and isinstance(b, M):
        return M.atom(("phi", c, a, b))
    return ("phi", c, a, b)


def infinite(p):
    """1 / -1 for a value no finite number exceeds / falls below"""
    for sg, q in ((1, p), (-1, -p)):
        at = q.as_atom()
        if isinstance(at, tuple) and len(at) == 3 and at[0] == "lim":
            if at[2] in ("infinity", "max"):
                return sg
            if at[2] == "lowest":
                return -sg
    return 0


def minmax(k, a, b):
    xs = []
    for x in (a, b):
        at = x.as_atom()
        xs += sorted(at[1], key=show) if isinstance(at, tuple) and len(at) == 2 and at[0] == k else [x]
    sg = 1 if k == "min" else -1
    fin = [x for x in xs if infinite(x) != sg]
    xs = fin or xs[:1]
    out = []
    for x in xs:
        for i, y in enumerate(out):
            d = x - y
            if d.is_const():
                if d.cval() * sg < 0:
                    out[i] = x
                break
        else:
            out.append(x)
    if len(out) == 1:
        return out[0]
    if len(out) == 2 and out[0] == -out[1]:
        ab = P.atom(("abs", canon_sign(out[0])))
        return ab if k == "max" else -ab
    return P.atom((k, frozenset(out)))


def is_bool(x):
    return isinstance(x, bool) or (isinstance(x, tuple) and len(x) > 0 and x[0] in ("lt", "le", "eq0", "not", "and", "or", "eqt", "bool"))
