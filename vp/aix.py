"""Expression semantics for ai.Interp (mix-in)."""
from fractions import Fraction
import re
from .alg import *
from .ai import *
from .ai import Interp as _Base, Frame, State, Out

PURE_STD = {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log", "floor", "ceil", "fmod", "isnan", "isinf", "signbit", "round", "cbrt", "hypot"}
SEQ_T = ("std::vector<", "std::deque<", "std::list<")
def map_has(mv, k):
    """is key k in the map value mv"""
    if mv == ("empty",):
        return FALSE
    if isinstance(mv, tuple) and mv and mv[0] == "seq" and all(isinstance(e, tuple) and e and e[0] == "kv" for e in mv[2]):
        if any(e[1] == k for e in mv[2]):
            return TRUE
        if all(keys_differ(e[1], k) for e in mv[2]):
            return map_has(mv[1], k)
    if isinstance(mv, tuple) and len(mv) == 4 and mv[0] == "phi":
        a, b = map_has(mv[2], k), map_has(mv[3], k)
        if a is b or a == b:
            return a
    return ("bool", ("has", mv, k))


def keys_differ(a, b):
    if isinstance(a, P) and isinstance(b, P):
        d = a - b
        return d.is_const() and d != ZERO
    if isinstance(a, str) and isinstance(b, str):
        return a != b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 3 and len(b) == 3 and a[0] == b[0] == "kv":
        return keys_differ(a[1], b[1]) or keys_differ(a[2], b[2])
    return False


MAP_T = ("std::map<", "std::unordered_map<", "std::multimap<")
SET_T = ("std::set<", "std::unordered_set<", "std::multiset<")
STR_T = "std::basic_string<"
UPTR_T = ("std::unique_ptr<", "std::shared_ptr<")


def tmpl_args(t):
    """top-level template arguments of a type string"""
    i = t.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in t[i + 1:]:
        if ch == "<":
            d += 1
        elif ch == ">":
            if d == 0:
                break
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


def pointee(t):
    b = base_type(t)
    if b.endswith("*"):
        return strip_t(b[:-1])
    if b.startswith(UPTR_T):
        return strip_t(tmpl_args(b)[0])
    return b


ANGLE_AXIS = ("Eigen::AngleAxis<", "Eigen::RotationBase<Eigen::AngleAxis<")


class Interp(_Base):
    sizes = {}          # known sizes of named inputs

    # ------------------------------------------------------------------ l-values
    def lval(self, st, n):
        if n is None:
            return None
        k = n["k"]
        fr = self.stack[-1]
        if k == "ref":
            if n["dk"] in ("var", "param", "other"):
                l = fr.env.get(n["id"])
                if l is None:
                    return None
                v = st.store.get(l)
                if isinstance(v, tuple) and v and v[0] == "ref":
                    return v[1]
                return l
            if n["dk"] == "global":
                return ("glob", n.get("q") or n["n"])
            if n["dk"] == "staticlocal":
                return fr.env.get(n["id"]) or ("glob", n["n"])
            return None
        if k == "mem":
            b = self.obj_loc(st, n["b"], n.get("arrow"))
            if b is None:
                return None
            l = ("fld", b, n["n"])
            v = st.store.get(l)
            if isinstance(v, tuple) and v and v[0] == "ref":
                return v[1]
            return l
        if k == "sub":
            b = self.lval(st, n["a"])
            if b is None:
                v = self.eval(st, n["a"])
                b = self.ptr_target(v)
                if b is None:
                    return None
            else:
                v = st.store.get(b)
                t = self.ptr_target(v) if v is not None else None
                if t is not None:
                    b = t
            return ("idx", b, self.index_of(self.eval(st, n["b"])))
        if k == "un" and n["op"] == "*":
            return self.obj_loc(st, n["e"], True)
        if k == "un" and n["op"] in ("++", "--") and not n.get("post"):
            self.eval(st, n)
            return self.lval(st, n["e"])
        if (k == "cast" or k == "icast") and not (base_type(self.ty(n)).startswith("Eigen::Map<") and "*" in self.ty(n["e"])):
            return self.lval(st, n["e"])
        if k == "asg":
            self.eval(st, n)
            return self.lval(st, n["a"])
        if k == "opcall":
            return self.lval_opcall(st, n)
        if k == "mcall":
            return self.lval_mcall(st, n)
        if k == "call":
            f = n.get("f")
            if f and f["n"] in ("move", "forward", "ref", "cref") and f["q"].startswith("std::"):
                return self.lval(st, n["args"][0])
            t = self.ty(n)
            if f and f.get("repo"):
                v = self.eval(st, n, want_ref=True)
                if isinstance(v, tuple) and v and v[0] == "lref":
                    return v[1]
                l = self.tmp()
                self.store(st, l, v)
                return l
            return None
        if k == "cond":
            c = self.as_b(self.eval(st, n["c"]))
            if not isinstance(c, bool) and self.hooks.get("short"):
                d = self.hooks["short"](c)
                c = c if d is None else d
            if c is True:
                return self.lval(st, n["a"])
            if c is False:
                return self.lval(st, n["b"])
            return None
        if k in ("ctor", "tctor", "cast", "ilist") and base_type(self.ty(n)).startswith("Eigen::Map<") and "Sparse" not in self.ty(n):
            return self.map_view(st, base_type(self.ty(n)), n)
        return None

    def sparse_map(self, st, args):
        """Map<SparseMatrix>(rows, cols, nnz, outer, inner, values): the matrix whose arrays these are"""
        v = [self.eval(st, a) for a in args]
        r, c, nz = (self.as_p(x) for x in v[:3])
        arr = []
        for p in v[3:6]:
            if not (isinstance(p, tuple) and len(p) == 2 and p[0] == "ptr" and p[1][0] == "dat"):
                return None
            x = self.load_nodat(st, p[1][1])
            a = x.as_atom() if isinstance(x, M) else None
            arr.append(a if p[1][2] == "data" else vals_of(p[1][2], x))
        if all(isinstance(a, tuple) and len(a) == 3 and a[0] == "vals" for a in arr) and [a[1] for a in arr] == ["outerIndexPtr", "innerIndexPtr", "valuePtr"]:
            X = arr[0][2]
            if arr[1][2] == X and arr[2][2] == X:
                Xm = X if isinstance(X, M) else M.atom(X)
                if r == P.atom(("rows", Xm)) and c == P.atom(("cols", Xm)) and nz == P.atom(("nonZeros", Xm)):
                    return Xm
        return M.atom(("spmap", r, c, nz) + tuple(arr))

    def map_view(self, st, bt, e):
        """location an Eigen::Map refers to, or None"""
        while e.get("k") in ("ilist", "ctor", "tctor", "cast", "icast", "paren") and (e.get("args") or e.get("e")):
            if e.get("k") in ("ctor", "tctor") and not base_type(self.ty(e)).startswith("Eigen::Map<"):
                return None
            a = [x for x in (e.get("args") or [e["e"]]) if not x.get("def")]
            if not a:
                return None
            e = a[0]
            if "*" in self.ty(e):
                break
        if "*" not in self.ty(e):
            if not re.match(r"(?:const )?(?:double|float|int|unsigned int|long)\[\d+\]$", self.ty(e)):
                return None
            l = self.lval(st, e)
            if l is None:
                return None
            p = ("ptr", l)
        else:
            p = self.eval(st, e)
        if p[:1] == ("ptr",) and len(p) == 2 and p[1][0] == "dat" and p[1][1] in self.buffers and dims(bt) == "dyn":
            # a caller's buffer of known length, viewed whole
            size = self.eval(st, a[1]) if len(a) == 2 or len(a) == 3 and "Stride<0, 0>" in self.ty(a[2]) else None
            return p[1][1] if size == self.buffers[p[1][1]] else None
        l = p[1] if isinstance(p, tuple) and len(p) == 2 and p[0] == "ptr" else None
        if l is None:
            return None
        off = ZERO
        if l[0] == "idx" and isinstance(l[2], P):
            off, l = l[2], l[1]
        if l[0] == "dat" and l[2] == "data":
            l = l[1]
            if l[0] == "blk":
                if l[6] is not True:
                    return None
                off, l = off + l[2], l[1]
            elif dims(self.ty_of_loc(st, l)) not in (None, "dyn") and 1 not in dims(self.ty_of_loc(st, l)):
                return None
        d = dims(bt)
        if d == "dyn":
            return l if l[0] == "dat" and off == ZERO else None
        if not isinstance(d, tuple):
            return None
        r, c = d
        mm = re.search(r"Eigen::(?:Matrix|Array)<[a-z ]+, (-?\d+), (-?\d+), (\d+)", bt)
        lin = True if 1 in (r, c) else "rows" if mm and int(mm.group(3)) & 1 else "cols"
        return ("blk", l, off, ZERO, r, c, lin, bt)

    def ty_of_loc(self, st, l):
        v = st.store.get(l)
        if isinstance(v, V):
            return "Eigen::Matrix<double, %d, %d>" % (v.r, v.c)
        return "?"

    def ptr_target(self, v):
        if isinstance(v, tuple) and v:
            if v[0] == "ptr":
                return v[1]
            if v[0] == "findres":
                return ("idx", v[1], ("key", freeze(v[2])))
        return None

    def obj_loc(self, st, n, arrow):
        """location of the object denoted by n (n is a pointer/smart pointer/iterator when arrow)"""
        if not arrow:
            l = self.lval(st, n)
            if l is not None:
                return l
            v = self.eval(st, n)
            if isinstance(v, tuple) and v and v[0] == "lref":
                return v[1]
            l = self.tmp()
            self.store(st, l, v)
            return l
        nn = n
        if nn["k"] == "this":
            return self.stack[-1].this
        if nn["k"] == "opcall" and nn["op"] == "->":
            return self.obj_loc(st, nn["args"][0], True)
        l = self.lval(st, nn)
        if l is not None:
            v = self.load(st, l, self.ty(nn))
            t = self.ptr_target(v)
            if t is not None:
                return t
            if isinstance(v, tuple) and v and v[0] == "phi":
                ta, tb = self.ptr_target(v[2]), self.ptr_target(v[3])
                if ta is not None and tb == ("null",):
                    return ta
            return ("deref", l)
        v = self.eval(st, nn)
        t = self.ptr_target(v)
        if t is not None:
            return t
        l = self.tmp()
        self.store(st, l, v)
        return ("deref", l)

    def index_of(self, v):
        if isinstance(v, bool):
            return num(int(v))
        return v

    def lval_opcall(self, st, n):
        op = n["op"]
        a = n["args"]
        t0 = base_type(self.ty(a[0])) if a else "?"
        f = n.get("f", {})
        if op == "[]" or op == "()":
            if f.get("repo"):
                v = self.eval(st, n, want_ref=True)
                if isinstance(v, tuple) and v and v[0] == "lref":
                    return v[1]
                return None
            b = self.obj_loc(st, a[0], False)
            ix = [self.index_of(self.eval(st, x)) for x in a[1:]]
            if t0.startswith(MAP_T):
                return ("fld", ("idx", b, ("key", freeze(ix[0]))), "second")
            if not ix:
                return None
            if b[0] == "blk":
                return self.blk_elem(b, ix)
            if len(ix) == 2:
                d = dims(t0)
                if isinstance(d, tuple) and (d[1] == 1) and ix[1] == ZERO:
                    return ("idx", b, ix[0])
                return ("idx", b, (ix[0], ix[1]))
            return ("idx", b, ix[0])
        if op == "*" and len(a) == 1:
            return self.obj_loc(st, a[0], True)
        if op in ("=", "+=", "-=", "*=", "/=") or (op in ("++", "--") and len(a) == 1):
            self.eval(st, n)
            return self.lval(st, a[0])
        if f.get("repo"):
            v = self.eval(st, n, want_ref=True)
            if isinstance(v, tuple) and v and v[0] == "lref":
                return v[1]
        return None

    def blk_elem(self, b, ix):
        _, L, i0, j0, r, c, lin, t = b
        if isinstance(lin, tuple):
            if len(ix) == 2:
                return ("idx", L, i0 + ix[0] * num(lin[1]) + ix[1] * num(lin[2]))
            if 1 in (r, c):
                return ("idx", L, i0 + ix[0] * num(lin[1] if c == 1 else lin[2]))
            return None
        if lin in ("rows", "cols"):
            if len(ix) == 2:
                return ("idx", L, i0 + (ix[0] * num(c) + ix[1] if lin == "rows" else ix[1] * num(r) + ix[0]))
            return ("idx", L, i0 + ix[0])
        if lin:
            return ("idx", L, i0 + ix[0])
        if len(ix) == 2:
            return ("idx", L, (i0 + ix[0], j0 + ix[1]))
        if c == 1:
            return ("idx", L, (i0 + ix[0], j0))
        if r == 1:
            return ("idx", L, (i0, j0 + ix[0]))
        return None

    EIG_REF = {"noalias", "derived", "const_cast_derived", "eval", "matrix", "const_derived"}

    def lval_mcall(self, st, n):
        f = n.get("f")
        if not f:
            return None
        name = f["n"]
        if f.get("repo"):
            v = self.eval(st, n, want_ref=True)
            if isinstance(v, tuple) and v and v[0] == "lref":
                return v[1]
            if dims(self.ty(n)) is None and base_type(self.ty(n)) in self.m.recs:
                l = self.tmp()
                self.store(st, l, v)
                return l
            return None
        ot = base_type(self.ty(n["obj"]))
        if n.get("arrow"):
            ot = pointee(ot)
        cn = f.get("cn", "")
        if self.is_eigen_method(f):
            d = dims(ot)
            A = n["args"]
            ta = [x for x in (f.get("targs") or [])]
            def tint(i):
                try:
                    v = int(ta[i])
                    return v
                except Exception:
                    return None
            if name in ("x", "y", "z", "w") and not A:
                if "Quaternion" in f["cls"]:
                    return ("fld", self.obj_loc(st, n["obj"], n.get("arrow")), name)
                b = self.obj_loc(st, n["obj"], n.get("arrow"))
                ix = num("xyzw".index(name))
                return self.blk_elem(b, [ix]) if b[0] == "blk" else ("idx", b, ix)
            if name in ("axis", "angle") and "AngleAxis" in f["cls"]:
                return ("fld", self.obj_loc(st, n["obj"], n.get("arrow")), name)
            if name in self.EIG_REF:
                return self.lval(st, n["obj"])
            if name in ("insert", "insertBack") and len(A) in (1, 2):
                b = self.obj_loc(st, n["obj"], n.get("arrow"))
                ix = tuple(self.eval(st, x) for x in A)
                st.ev.append(("insert", b, ix, self.where(n)))
                return ("idx", b, ix if len(ix) == 2 else ix[0])
            if name == "value" and len(A) == 1 and n["obj"].get("k") == "mcall" and n["obj"]["f"]["n"] == "data":
                b = self.obj_loc(st, n["obj"]["obj"], n["obj"].get("arrow"))
                return ("idx", ("dat", b, "valuePtr"), self.index_of(self.eval(st, A[0])))
            if name in ("coeffRef", "coeff") and A:
                b = self.obj_loc(st, n["obj"], n.get("arrow"))
                ix = [self.eval(st, x) for x in A]
                if b[0] == "blk":
                    return self.blk_elem(b, ix)
                return ("idx", b, ix[0] if len(ix) == 1 else (ix[0], ix[1]))
            if name in ("segment", "head", "tail", "col", "row", "block", "topLeftCorner", "topRows", "bottomRows", "leftCols", "rightCols", "middleRows", "middleCols"):
                b = self.obj_loc(st, n["obj"], n.get("arrow"))
                if not isinstance(d, tuple):
                    v = None
                    if b[0] in ("tmp",) or ot.startswith("Eigen::"):
                        v = st.store.get(b)
                    if isinstance(v, V):
                        d = (v.r, v.c)
                av = [self.eval(st, x) for x in A if not x.get("def")]
                def asint(p):
                    if isinstance(p, int):
                        return p
                    return int(p.cval()) if isinstance(p, P) and p.is_const() else p
                off_i, off_j, base, lin0 = ZERO, ZERO, b, None
                if b[0] == "blk":
                    _, base, off_i, off_j, br, bc, lin0, bt = b
                    d = (br, bc) if isinstance(br, int) and isinstance(bc, int) else d
                if name in ("segment", "head", "tail"):
                    nfix = tint(0)
                    if name == "segment":
                        start, sz = av[0], (nfix if nfix is not None else (asint(av[1]) if len(av) > 1 else None))
                    elif name == "head":
                        start, sz = ZERO, (nfix if nfix is not None else asint(av[0]))
                    else:
                        sz = nfix if nfix is not None else asint(av[0])
                        tot = num(d[0] * d[1]) if isinstance(d, tuple) else self.size_of(self.load(st, b, ot))
                        start = tot - (num(sz) if isinstance(sz, int) else sz)
                    if not isinstance(start, P):
                        return None
                    if isinstance(lin0, tuple):
                        if not isinstance(sz, int) or 1 not in (br, bc):
                            return None
                        return ("blk", base, off_i + start * num(lin0[1] if bc == 1 else lin0[2]), None, *((sz, 1) if bc == 1 else (1, sz)), lin0, ot)
                    if lin0 is False and isinstance(sz, int):
                        # segment of a column/row block
                        if d and d[1] == 1:
                            return ("blk", base, off_i + start, off_j, sz, 1, False, ot)
                        return ("blk", base, off_i, off_j + start, 1, sz, False, ot)
                    return ("blk", base, off_i + start, None, sz, 1, True, ot)
                if lin0 in ("rows", "cols") or isinstance(lin0, tuple):
                    rs, cs = (bc, 1) if lin0 == "rows" else (1, br) if lin0 == "cols" else lin0[1:]
                    if name == "col" and isinstance(av[0], P):
                        return ("blk", base, off_i + av[0] * num(cs), None, br, 1, ("str", rs, cs), ot)
                    if name == "row" and isinstance(av[0], P):
                        return ("blk", base, off_i + av[0] * num(rs), None, 1, bc, ("str", rs, cs), ot)
                    if name == "block" and tint(0) is not None and tint(1) is not None and len(av) >= 2 and all(isinstance(x, P) for x in av[:2]):
                        return ("blk", base, off_i + av[0] * num(rs) + av[1] * num(cs), None, tint(0), tint(1), ("str", rs, cs), ot)
                    return None
                if lin0 is True:
                    if name in ("block",) and isinstance(av[0], P):
                        pass
                    return None
                if name == "col" and av:
                    r = d[0] if isinstance(d, tuple) else "rows"
                    return ("blk", base, off_i, off_j + av[0], r, 1, False, ot) if isinstance(av[0], P) else None
                if name == "row" and av:
                    c = d[1] if isinstance(d, tuple) else "cols"
                    return ("blk", base, off_i + av[0], off_j, 1, c, False, ot) if isinstance(av[0], P) else None
                if name == "block":
                    r, c = tint(0), tint(1)
                    if r is not None and c is not None:
                        if len(av) < 2 or not all(isinstance(x, P) for x in av[:2]):
                            return None
                        return ("blk", base, off_i + av[0], off_j + av[1], r, c, False, ot)
                    if len(av) == 4 and all(isinstance(x, P) for x in av):
                        return ("blk", base, off_i + av[0], off_j + av[1], asint(av[2]), asint(av[3]), False, ot)
                return None
            return None
        if name in ("at",) and ot.startswith(MAP_T):
            b = self.obj_loc(st, n["obj"], n.get("arrow"))
            return ("fld", ("idx", b, ("key", freeze(self.eval(st, n["args"][0])))), "second")
        if name in ("at", "operator[]"):
            b = self.obj_loc(st, n["obj"], n.get("arrow"))
            return ("idx", b, self.index_of(self.eval(st, n["args"][0])))
        if name == "front":
            return ("idx", self.obj_loc(st, n["obj"], n.get("arrow")), ZERO)
        if name == "back":
            b = self.obj_loc(st, n["obj"], n.get("arrow"))
            return ("idx", b, self.size_of(self.load(st, b, ot)) - ONE)
        return None

    def is_eigen_method(self, f):
        return f.get("cls", "").startswith("Eigen::") or f["q"].startswith("Eigen::")

    # ------------------------------------------------------------------ r-values
    def eval(self, st, n, want_ref=False):
        if n is None:
            return None
        k = n["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            for key in ("e", "a", "b"):
                if isinstance(n.get(key), dict):
                    self.eval(st, n[key])
            for x in n.get("args", []) or []:
                if isinstance(x, dict) and "k" in x:
                    try:
                        self.eval(st, x)
                    except KeyError:
                        pass
            self.note("expression " + k + " " + str(n.get("cn", "")), n)
            return self.typed(unk(k), self.ty(n))
        if k in ("call", "mcall", "opcall"):
            return m(st, n, want_ref)
        return m(st, n)

    def e_int(self, st, n):
        return num(int(n["v"]))

    def e_char(self, st, n):
        return num(n["v"])

    def e_float(self, st, n):
        try:
            return num(Fraction(n["v"]))
        except Exception:
            return P.atom(("flt", n["v"]))

    def e_str(self, st, n):
        return n["v"]

    def e_bool(self, st, n):
        return bool(n["v"])

    def e_null(self, st, n):
        return ("null",)

    def e_zeroinit(self, st, n):
        return self.zero_of(self.ty(n))

    def e_this(self, st, n):
        return ("ptr", self.stack[-1].this)

    def e_sizeof(self, st, n):
        return num(n["v"]) if "v" in n else P.atom(("sizeof", self.stack[-1].fn.types[n["at"]]))

    def e_assert(self, st, n):
        return ("void",)

    def e_throw(self, st, n):
        st.store[("dead",)] = True
        return ("void",)

    def e_typeid(self, st, n):
        return unk("typeid")

    def e_lambda(self, st, n):
        return ("lambda", _LamKey(n, self.stack[-1]))

    def e_ref(self, st, n):
        dk = n["dk"]
        if dk == "enum":
            if n["q"].startswith("Eigen::") and n.get("v") is not None:
                return num(n["v"])
            return ("enumc", n["q"])
        if dk == "func":
            return ("func", n["f"]["q"])
        if dk == "global":
            g = self.const_global(n)
            if g is not None:
                return g
        l = self.lval(st, n)
        if l is None:
            return self.typed(unk("ref " + n["n"]), self.ty(n))
        return self.load(st, l, self.ty(n))

    def const_global(self, n):
        if not n.get("const"):
            return None
        q = n.get("q") or n["n"]
        for (u, file), g in self.m.globals.items():
            if u == n.get("u") and g.get("init") is not None:
                key = ("cg", u, file)
                if key not in self._cg:
                    self._cg[key] = None
                    try:
                        class _F:  # evaluation context with the right type table
                            pass
                        fnlike = _FnCtx(g["types"], file)
                        self.stack.append(Frame(fnlike, None, None, 0))
                        try:
                            s2 = State()
                            l = ("tmp", "cg")
                            self.init_loc(s2, l, g["t"], g["init"])
                            v = self.load(s2, l, g["t"])
                            if not has_unk(v) and not contains(v, lambda y: isinstance(y, tuple) and y and y[0] == "uninit"):
                                self._cg[key] = v
                        finally:
                            self.stack.pop()
                    except Exception:
                        pass
                return self._cg[key]
        if q in ("Eigen::Dynamic", "Eigen::Infinity"):
            return num(-1)
        if q.startswith(("PI", "MathDefines::")):
            return P.atom(("const", q))
        return None

    def const_by_name(self, q):
        gs = [g for g in self.m.globals.values() if g.get("q") == q and g.get("const") and g.get("init") is not None]
        if len(gs) != 1 or base_type(gs[0]["t"]) not in SCALAR_T:
            return None
        return self.const_global({"const": True, "u": gs[0]["u"], "q": q, "n": q})

    _cg = {}

    def e_mem(self, st, n):
        l = self.lval(st, n)
        if l is None:
            return self.typed(unk("mem"), self.ty(n))
        return self.load(st, l, self.ty(n))

    def e_sub(self, st, n):
        l = self.lval(st, n)
        if l is None:
            return self.typed(unk("sub"), self.ty(n))
        return self.load(st, l, self.ty(n))

    def e_icast(self, st, n):
        v = self.eval(st, n["e"])
        return self.do_cast(st, n, v)

    def do_cast(self, st, n, v):
        ck = n.get("ck")
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingCast"):
            return v if isinstance(v, P) else (self.as_p(v) if isinstance(v, bool) or (isinstance(v, tuple) and v and v[0] != "enumc") else v)
        if ck == "FloatingToIntegral":
            v = self.as_p(v)
            if v.is_const() and v.cval().denominator == 1:
                return v
            return P.atom(("trunc", v))
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.as_b(v)
        return v

    def e_cast(self, st, n):
        t = self.ty(n)
        if n.get("dyn"):
            v = self.eval(st, n["e"])
            return v
        if t == "void":
            self.eval(st, n["e"])
            return ("void",)
        v = self.eval(st, n["e"])
        ck = n.get("ck")
        st_ = base_type(self.ty(n["e"]))
        tt = base_type(t)
        if ck in ("NoOp", "LValueBitCast", "BitCast", "BaseToDerived", "DerivedToBase", "UncheckedDerivedToBase", "ConstructorConversion"):
            return self.coerce(v, t) if ck == "NoOp" and tt in SCALAR_T else v
        if ck in ("IntegralCast", "FloatingToIntegral", "IntegralToFloating", "FloatingCast", "IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            if tt in INT_T and isinstance(v, tuple) and v and v[0] == "enumc":
                return v
            return self.do_cast(st, dict(n, ck=ck), v)
        if ck == "ToVoid":
            return ("void",)
        return v

    def e_un(self, st, n):
        op = n["op"]
        if op == "&":
            l = self.lval(st, n["e"])
            if l is None:
                return unk("addr")
            return ("ptr", l)
        if op == "*":
            l = self.lval(st, n)
            if l is None:
                return self.typed(unk("deref"), self.ty(n))
            return self.load(st, l, self.ty(n))
        if op in ("++", "--"):
            l = self.lval(st, n["e"])
            old = self.load(st, l, self.ty(n["e"])) if l is not None else unk("inc")
            if isinstance(old, P):
                new = old + (ONE if op == "++" else num(-1))
            else:
                new = unk("inc")
            if l is not None:
                self.store(st, l, new)
            return old if n.get("post") else new
        v = self.eval(st, n["e"])
        if op == "!":
            return b_not(self.as_b(v))
        if op == "-":
            return -v if isinstance(v, (P, V, M)) else -self.as_p(v)
        if op == "+":
            return v
        if op == "~":
            return P.atom(("bitnot", self.as_p(v)))
        return self.typed(unk("un"), self.ty(n))

    def e_bin(self, st, n):
        op = n["op"]
        if op in ("&&", "||"):
            a = self.as_b(self.eval(st, n["a"]))
            if not isinstance(a, bool) and self.hooks.get("short"):
                d = self.hooks["short"](a)
                a = a if d is None else d
            if (op == "&&" and a is False) or (op == "||" and a is True):
                return a
            if isinstance(a, bool):
                return self.as_b(self.eval(st, n["b"]))
            b = st.fork()
            b.ev = list(st.ev)
            nev = len(b.ev)
            v = self.as_b(self.eval(b, n["b"]))
            if b.store != st.store or len(b.ev) != nev or b.q != st.q:
                j = self.join(a if op == "&&" else b_not(a), b, st) if not self.isdead(b) else st
                st.store, st.ev, st.q = j.store, j.ev, j.q
            return b_and(a, v) if op == "&&" else b_or(a, v)
        if op == ",":
            self.eval(st, n["a"])
            return self.eval(st, n["b"])
        a, b = self.eval(st, n["a"]), self.eval(st, n["b"])
        return self.binop(st, n, op, a, b)

    def binop(self, st, n, op, a, b):
        if op in ("==", "!="):
            if is_bool(a) != is_bool(b) and (isinstance(a, P) or isinstance(b, P)):
                a, b = self.as_p(a), self.as_p(b)
            e = self.equal(a, b)
            return e if op == "==" else b_not(e)
        if op in ("<", ">", "<=", ">="):
            if isinstance(a, str) or isinstance(b, str):
                return ("bool", unk("strcmp"))
            return b_cmp(op, self.as_p(a), self.as_p(b))
        if isinstance(a, tuple) and a and a[0] == "ptr" and op in ("+", "-"):
            return ("ptr", ("idx", a[1], self.as_p(b)))
        a, b = self.as_p(a), self.as_p(b)
        t = base_type(self.ty(n)) if n else "double"
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if t in INT_T:
                if a.is_const() and b.is_const() and b.cval() != 0:
                    q = abs(a.cval()) // abs(b.cval())
                    return num(q if (a.cval() >= 0) == (b.cval() > 0) else -q)
                if b.is_const() and b.cval() > 0 and a.t and all(c % b.cval() == 0 for c in a.t.values()):
                    return P({m_: c / b.cval() for m_, c in a.t.items()})
                if a.t and b.t and not b.is_const() and len(a.t) == len(b.t):
                    k0 = next(iter(b.t))
                    k = a.t.get(k0, 0) / b.t[k0]
                    if k.denominator == 1 and k and a == b * num(k):
                        return num(k)
                return P.atom(("idiv", a, b))
            if b == ZERO:
                return P.atom(("div0", a))
            return a / b
        if op == "%":
            if a.is_const() and b.is_const() and b.cval() > 0 and a.cval() >= 0:
                return num(a.cval() % b.cval())
            return P.atom(("mod", a, b))
        return P.atom((op, a, b))

    def e_asg(self, st, n):
        op = n["op"]
        l = self.lval(st, n["a"])
        t = self.ty(n["a"])
        if op == "=":
            v = self.eval(st, n["b"])
            v = self.coerce(v, t)
        else:
            old = self.load(st, l, t) if l is not None else unk("asg")
            v = self.binop(st, n, op[:-1], old, self.eval(st, n["b"]))
        if l is not None:
            self.store(st, l, v)
            self.on_write(st, l, v, n)
        return v

    def on_write(self, st, l, v, n):
        h = self.hooks.get("write")
        if h:
            h(self, st, l, v, n)

    def e_cond(self, st, n):
        c = self.as_b(self.eval(st, n["c"]))
        if not isinstance(c, bool) and self.hooks.get("short"):
            d = self.hooks["short"](c)
            c = c if d is None else d
        if c is True:
            return self.eval(st, n["a"])
        if c is False:
            return self.eval(st, n["b"])
        a, b = st.fork(), st.fork()
        a.ev, b.ev = list(st.ev), list(st.ev)
        va, vb = self.eval(a, n["a"]), self.eval(b, n["b"])
        da, db = self.isdead(a), self.isdead(b)
        if da and db:
            st.store[("dead",)] = True
            return unk("dead")
        if da:
            st.store, st.ev, st.q = b.store, b.ev, b.q
            return vb
        if db:
            st.store, st.ev, st.q = a.store, a.ev, a.q
            return va
        j = self.join(c, a, b)
        st.store, st.ev, st.q = j.store, j.ev, j.q
        t = self.ty(n)
        return phi(c, self.coerce(va, t), self.coerce(vb, t))

    def e_new(self, st, n):
        t = self.stack[-1].fn.types[n["nt"]]
        if n.get("array"):
            return ("ptr", self.tmp("heap"))
        l = self.tmp("heap")
        bt = base_type(t)
        if bt in self.m.recs:
            self.dyncls[l] = bt
        if n.get("init"):
            self.init_loc(st, l, t, n["init"])
        return ("ptr", l)

    def e_delete(self, st, n):
        self.eval(st, n["e"])
        return ("void",)

    def e_ilist(self, st, n):
        t = self.ty(n)
        a = n["args"]
        if t == "void" and len(a) == 1:
            return self.eval(st, a[0])
        if len(a) == 1 and dims(t) is None and base_type(t) not in self.m.recs and not base_type(t).startswith(SEQ_T):
            return self.eval(st, a[0])
        l = self.tmp()
        self.init_loc(st, l, t, n)
        return self.load(st, l, t)

    def e_ctor(self, st, n):
        t = self.ty(n)
        bt = base_type(t)
        args = n["args"]
        if n["f"].get("ctor") in ("copy", "move") and len(args) == 1 and bt.startswith(("std::basic_string<",)):
            return self.eval(st, args[0])
        l = self.tmp()
        if bt in self.m.recs:
            self.dyncls[l] = bt
        self.construct(st, l, t, n)
        v = self.load(st, l, t)
        return v

    e_tctor = e_ctor

    def class_value(self, st, loc, t):
        return self.load(st, loc, t)

    # ------------------------------------------------------------------ construction
    def construct(self, st, loc, t, e, asbase=False):
        bt = base_type(t)
        f = e["f"]
        args = [a for a in e["args"]]
        kind = f.get("ctor")
        fr = self.stack[-1]
        if bt.startswith("Eigen::") or dims(bt) is not None:
            return self.construct_eigen(st, loc, bt, args)
        if bt.startswith(STR_T):
            args = [a for a in args if not base_type(self.ty(a)).startswith("std::allocator<")]
            if not args or all(a.get("def") for a in args):
                self.store(st, loc, "")
            elif len([a for a in args if not a.get("def")]) == 1:
                self.store(st, loc, self.eval(st, args[0]))
            else:
                av = tuple(self.eval(st, a) for a in args if not a.get("def"))
                if len(av) == 2 and isinstance(av[0], tuple) and isinstance(av[1], tuple) and av[0][0] == "ptr" and av[1][0] == "end" and av[0][1] == ("idx", av[1][1], ZERO):
                    self.store(st, loc, self.load(st, av[1][1], bt))
                else:
                    self.store(st, loc, ("strctor",) + av)
            return
        if bt.startswith(UPTR_T):
            if not args:
                self.store(st, loc, ("null",))
            else:
                self.store(st, loc, self.eval(st, args[0]))
            return
        if bt.startswith("std::pair<"):
            if len(args) == 2:
                self.store(st, loc, ("kv", self.eval(st, args[0]), self.eval(st, args[1])))
            elif args:
                self.store(st, loc, self.eval(st, args[0]))
            return
        if bt.startswith(SEQ_T + MAP_T + SET_T):
            av = [a for a in args if not a.get("def")]
            if not av:
                self.store(st, loc, ("empty",))
            elif kind in ("copy", "move"):
                l2 = self.lval(st, av[0])
                self.store(st, loc, self.load(st, l2, t) if l2 is not None else self.eval(st, av[0]))
            elif len(av) == 1 and base_type(self.ty(av[0])) in INT_T:
                self.store(st, loc, ("sized", self.as_p(self.eval(st, av[0]))))
            elif av[0].get("k") == "ilist":
                items = tuple(self.eval(st, x) for x in av[0]["args"])
                self.store(st, loc, ("seq", ("empty",), items))
            elif len(av) == 2 and base_type(self.ty(av[0])) in INT_T:
                self.store(st, loc, ("filled", self.as_p(self.eval(st, av[0])), self.eval(st, av[1])))
            else:
                self.store(st, loc, ("ctorof", bt.split("<")[0]) + tuple(self.eval(st, a) for a in av))
            return
        if f.get("cls") in self.m.recs or f.get("repo"):
            cls = f["cls"]
            if not asbase:
                self.dyncls[loc] = cls
            h = self.hooks.get("construct")
            if h and h(self, st, loc, cls, f, args, e):
                return
            fn = self.m.resolve(f, fr.fn)
            if fn is not None and not fn.dep and not f.get("defaulted") and self.can_inline(fn):
                self.clear_under(st, loc) if not asbase else None
                self.invoke(st, fn, loc, cls if not asbase else fr.thiscls, self.bind_args(st, f, args, fn))
                return
            if kind in ("copy", "move") and len(args) == 1:
                l2 = self.lval(st, args[0])
                v = self.load(st, l2, t) if l2 is not None else self.eval(st, args[0])
                if asbase:
                    for fd in self.m.fields(cls):
                        src = ("fld", l2, fd["n"]) if l2 is not None else None
                        if src is not None:
                            self.store(st, ("fld", loc, fd["n"]), self.load(st, src, fd["t"]))
                    return
                self.store(st, loc, v)
                return
            if not args or kind == "default":
                self.default_construct(st, loc, cls)
                return
            vals = tuple(self.eval(st, a) for a in args)
            self.store(st, loc, ("ctorof", cls) + vals)
            return
        av = [self.eval(st, a) for a in args if not a.get("def")]
        if kind in ("copy", "move") and len(av) == 1:
            self.store(st, loc, av[0])
        elif len(av) == 1 and (bt.startswith(("std::function", "std::complex")) or isinstance(av[0], tuple) and av[0] and av[0][0] in ("insres", "ptr") and bt.startswith(("std::_Rb_tree_const_iterator", "__gnu_cxx::__normal_iterator"))):
            self.store(st, loc, av[0])
        else:
            self.store(st, loc, self.typed(("ctorof", bt) + tuple(av), t))

    def default_construct(self, st, loc, cls):
        for fd in self.m.fields(cls):
            l = ("fld", loc, fd["n"])
            if fd.get("init") is not None:
                rec = self.m.recs[fd["cls"]]
                self.stack.append(Frame(_FnCtx(rec["types"], rec["file"]), loc, cls, 0))
                try:
                    self.init_loc(st, l, fd["t"], fd["init"])
                finally:
                    self.stack.pop()
                continue
            b = base_type(fd["t"])
            if b.startswith(SEQ_T + MAP_T + SET_T):
                self.store(st, l, ("empty",))
            elif b.startswith(STR_T):
                self.store(st, l, "")
            elif b.startswith(UPTR_T):
                self.store(st, l, ("null",))
            elif b in self.m.recs:
                self.default_construct(st, l, b)
            else:
                self.store(st, l, self.typed(("uninit", fd["n"]), fd["t"]))

    def construct_eigen(self, st, loc, bt, args):
        av = [a for a in args if not a.get("def")]
        d = dims(bt)
        if len(av) == 1 and av[0].get("k") == "ilist" and len(av[0]["args"]) != 1:
            av = av[0]["args"]
        if not av:
            self.store(st, loc, self.typed(("uninit", str(loc)), bt) if isinstance(d, tuple) else (M.atom(("fresh", ZERO)) if d == "dyn" else ("empty",)))
            return
        if bt.startswith("Eigen::Map<") and "Eigen::SparseMatrix<" in bt and len(av) >= 6:
            v = self.sparse_map(st, av)
            if v is not None:
                self.store(st, loc, v)
                return
        if bt.startswith("Eigen::Map<"):
            l = self.map_view(st, bt, {"k": "ilist", "args": av})
            if l is not None:
                self.store(st, loc, self.load(st, l, bt))
                return
        vals = [self.eval(st, a) for a in av]
        if bt.startswith("Eigen::Map<") and vals and isinstance(vals[0], tuple) and vals[0][:1] == ("ptr",) and vals[0][1][0] == "dat" and vals[0][1][2] == "data" and isinstance(d, tuple):
            src = self.load(st, vals[0][1][1], "?")
            n = d[0] * d[1]
            e = None
            if isinstance(src, V) and len(src.e) >= n and (src.r == 1 or src.c == 1):
                e = list(src.e[:n])
            elif isinstance(src, M):
                e = [src.el(num(k)) for k in range(n)]
            elif isinstance(src, tuple) and src and src[0] == "in":
                e = [P.atom(("el", src, num(k))) for k in range(n)]
            if e is not None:
                mm = re.search(r"Eigen::(?:Matrix|Array)<[a-z ]+, (-?\d+), (-?\d+), (\d+)", bt)
                rowmajor = bool(mm and int(mm.group(3)) & 1)
                if d[0] > 1 and d[1] > 1 and not rowmajor:
                    e = [e[j * d[0] + i] for i in range(d[0]) for j in range(d[1])]
                self.store(st, loc, V(d[0], d[1], e))
                return
        if bt.startswith("Eigen::Map<") and vals and isinstance(vals[0], tuple) and vals[0][:1] == ("ptr",) and vals[0][1][0] == "dat" and vals[0][1][2] != "data" and d == "dyn":
            self.store(st, loc, M.atom(vals_of(vals[0][1][2], self.load(st, vals[0][1][1], "?"))))
            return
        if isinstance(d, tuple):
            if len(vals) == d[0] * d[1] and all(isinstance(x, P) for x in vals):
                self.store(st, loc, V(d[0], d[1], vals))
                return
            if len(vals) == 1:
                self.store(st, loc, self.coerce(vals[0], bt) if not isinstance(vals[0], P) else self.typed(unk("eigen ctor"), bt))
                return
            if len(vals) == 1 or bt.startswith("Eigen::Map"):
                self.store(st, loc, self.typed(("mapof",) + tuple(vals), bt))
                return
            self.store(st, loc, self.typed(unk("eigen ctor"), bt))
            return
        if bt.startswith("Eigen::Matrix") or bt.startswith("Eigen::Array") or bt.startswith("Eigen::SparseMatrix"):
            if len(vals) == 1 and isinstance(vals[0], P) and base_type(self.ty(av[0])) in INT_T:
                self.store(st, loc, M.atom(("fresh", vals[0])))
                return
            if len(vals) == 2 and all(isinstance(x, P) for x in vals):
                self.store(st, loc, M.atom(("fresh", vals[0], vals[1])))
                return
            if len(vals) == 1:
                v = vals[0]
                self.store(st, loc, v if isinstance(v, (M, V)) else M.atom(v))
                return
        if bt.startswith("Eigen::Triplet"):
            self.store(st, loc, ("triplet",) + tuple(vals))
            return
        if bt.startswith("Eigen::AngleAxis") and len(vals) == 2 and isinstance(vals[0], P):
            self.store(st, ("fld", loc, "angle"), vals[0])
            self.store(st, ("fld", loc, "axis"), self.coerce(vals[1], "Eigen::Matrix<double, 3, 1>"))
            return
        if bt.startswith("Eigen::Quaternion"):
            if len(vals) == 4 and all(isinstance(x, P) for x in vals):
                for nm, v in zip("wxyz", vals):
                    self.store(st, ("fld", loc, nm), v)
                return
        if bt.startswith("Eigen::Rotation2D") and len(vals) == 1 and isinstance(vals[0], P):
            self.store(st, loc, self.rot2(vals[0]))
            return
        if len(vals) == 1 and not isinstance(vals[0], P):
            self.store(st, loc, vals[0])
            return
        self.store(st, loc, ("ctorof", bt.split("<")[0]) + tuple(vals))

    def rot3(self, st, n):
        """rotation matrix of an angle-axis expression, or None"""
        if n["k"] in ("mcall", "opcall"):
            v = self.eval(st, n)
            if isinstance(v, V):
                return v
        loc = self.obj_loc(st, n, False)
        ax = self.load(st, ("fld", loc, "axis"), "Eigen::Matrix<double, 3, 1>")
        th = self.load(st, ("fld", loc, "angle"), "double")
        if isinstance(ax, M):
            ax = self.coerce(ax, "Eigen::Matrix<double, 3, 1>")
        if not (isinstance(ax, V) and len(ax.e) == 3 and isinstance(th, P)):
            return None
        return rodrigues(ax.e, th)

    def rotated(self, st, n):
        if base_type(self.ty(n)).startswith(ANGLE_AXIS):
            r = self.rot3(st, n)
            if r is not None:
                return r
        return self.eval(st, n)

    def rot2(self, th):
        c = ONE if th == ZERO else P.atom(("fn", "cos", canon_sign(th)))
        if th == ZERO:
            s_ = ZERO
        else:
            s_ = P.atom(("fn", "sin", canon_sign(th)))
            if canon_sign(th) != th:
                s_ = -s_
        return V(2, 2, [c, -s_, s_, c])

    # ------------------------------------------------------------------ calls
    maxrec = 2

    def can_inline(self, fn):
        if len(self.stack) > self.MAXDEPTH:
            return False
        if any(fr.fn is fn for fr in self.stack):
            if sum(1 for fr in self.stack if fr.fn is fn) >= self.maxrec or not (fn.targs or self.maxrec > 2):
                return False
        return self.inline(fn)

    def bind_args(self, st, f, args, fn):
        out = []
        for i, a in enumerate(args):
            pt = fn.ptype(i) if i < len(fn.params) else "?"
            if pt.strip().endswith("&"):
                l = self.lval(st, a)
                if l is not None:
                    out.append(("loc", l))
                    continue
                # class-typed temporaries keep their exact class
                v = self.eval(st, a)
                tl = self.tmp()
                self.store(st, tl, self.coerce(v, pt))
                bt = base_type(pt)
                if bt in self.m.recs and a.get("k") in ("ctor", "tctor"):
                    self.dyncls[tl] = base_type(self.ty(a))
                out.append(("loc", tl))
            else:
                if base_type(pt) in self.m.recs or a.get("k") in ("ctor", "tctor", "ilist"):
                    tl = self.tmp()
                    self.init_loc(st, tl, pt, a)
                    out.append(("val", self.load(st, tl, pt)))
                else:
                    out.append(("val", self.eval(st, a)))
        return out

    def invoke(self, st, fn, this, thiscls, args):
        s = State(st.store, st.ev, st.q, st.depth, st.facts)
        v, s2 = self.call_fn(s, fn, this, thiscls, args)
        if s2 is None:
            st.store[("dead",)] = True
            return unk("noreturn")
        st.store, st.ev, st.q = s2.store, s2.ev, s2.q
        return v

    def dyn_class(self, st, loc, static_t, exact=False):
        if loc is None:
            return None
        if loc in self.dyncls:
            return self.dyncls[loc]
        fr = self.stack[-1]
        if loc == fr.this:
            return fr.thiscls
        for f2 in reversed(self.stack):
            if f2.this == loc:
                return f2.thiscls
        b = base_type(static_t)
        rec = self.m.recs.get(b)
        if rec is None:
            return b
        if exact or not rec["poly"] or rec.get("final"):
            return b
        if loc[0] == "fld":
            # by-value member?
            pass
        c = self.oracle(b, loc)
        return c

    def ret_ref(self, st, v, n, want_ref):
        if isinstance(v, tuple) and v and v[0] == "lref":
            if want_ref:
                return v
            return self.load(st, v[1], self.ty(n))
        return v

    def e_call(self, st, n, want_ref=False):
        f = n.get("f")
        if f is None:
            cal = self.eval(st, n["callee"]) if n.get("callee") else None
            args = [self.eval(st, a) for a in n["args"]]
            return self.typed(("callv", cal) + tuple(args), self.ty(n))
        for h in self.hooks.get("call", ()):
            r = h(self, st, n, f, None, n["args"])
            if r is not None:
                return r
        q, name = f["q"], f["n"]
        args = n["args"]
        if f.get("noret") or q in ("exit", "std::exit", "abort", "std::abort", "std::terminate", "_exit", "std::_Exit", "__assert_fail"):
            for a in args:
                self.eval(st, a)
            st.ev.append(("exit", q, tuple(self.eval(st, a) for a in args), self.where(n)))
            st.store[("dead",)] = True
            return ("void",)
        if f.get("repo"):
            fn = self.m.resolve(f, self.stack[-1].fn)
            if fn is not None and self.can_inline(fn):
                v = self.invoke(st, fn, None, None, self.bind_args(st, f, args, fn))
                return self.ret_ref(st, v, n, want_ref)
            return self.opaque(st, n, f, None, args)
        r = self.std_call(st, n, f, q, name, args)
        if r is not None:
            return r
        return self.opaque(st, n, f, None, args)

    def std_call(self, st, n, f, q, name, args):
        if name in ("move", "forward") and q.startswith("std::"):
            return self.eval(st, args[0])
        if name in ("sqrt",):
            return sqrt(self.as_p(self.eval(st, args[0])))
        if name in ("fabs", "abs") and len(args) == 1:
            v = self.as_p(self.eval(st, args[0]))
            if v.is_const():
                return num(abs(v.cval()))
            return P.atom(("abs", canon_sign(v)))
        if name == "sin":
            v = self.as_p(self.eval(st, args[0]))
            if v == ZERO:
                return ZERO
            c = canon_sign(v)
            r = P.atom(("fn", "sin", c))
            return r if c == v else -r
        if name == "cos":
            v = self.as_p(self.eval(st, args[0]))
            return ONE if v == ZERO else P.atom(("fn", "cos", canon_sign(v)))
        if name == "pow" and len(args) == 2:
            a, b = self.as_p(self.eval(st, args[0])), self.as_p(self.eval(st, args[1]))
            if b.is_const():
                e = b.cval()
                if (2 * e).denominator == 1 and abs(e) <= 12:
                    n2 = int(2 * abs(e))
                    r = ONE
                    for _ in range(n2 // 2):
                        r = r * a
                    if n2 % 2:
                        r = r * sqrt(a)
                    return r if e >= 0 else r.inv()
            return P.atom(("fn", "pow", a, b))
        if name in ("min", "max", "fmin", "fmax") and len([a for a in args if not a.get("def")]) == 2:
            a, b = self.as_p(self.eval(st, args[0])), self.as_p(self.eval(st, args[1]))
            return minmax(name.replace("f", "", 1) if name.startswith("f") else name, a, b)
        if name in PURE_STD:
            r = ("fn", name) + tuple(self.as_p(self.eval(st, a)) for a in args)
            return ("bool", r) if self.ty(n) == "bool" else P.atom(r)
        if name in ("tie", "make_tuple") and q.startswith("std::"):
            vs = [self.eval(st, a) for a in args]
            return ("tuple",) + tuple(self.as_p(v) if isinstance(v, bool) or is_bool(v) else v for v in vs)
        if name == "make_pair":
            return ("kv", self.eval(st, args[0]), self.eval(st, args[1]))
        if name == "swap" and len(args) == 2:
            a, b = self.lval(st, args[0]), self.lval(st, args[1])
            if a is not None and b is not None:
                t = self.ty(args[0])
                va, vb = self.load(st, a, t), self.load(st, b, t)
                self.store(st, a, vb)
                self.store(st, b, va)
                self.on_write(st, a, vb, n)
                self.on_write(st, b, va, n)
            return ("void",)
        if name in ("make_unique", "make_shared"):
            ta = f.get("targs") or ["?"]
            return self.make_heap(st, n, ta[0], args)
        if name in ("numeric_limits",):
            return None
        if q.startswith("std::numeric_limits<"):
            return P.atom(("lim", q.split("<")[1].split(">")[0], name))
        if name in ("begin", "end", "cbegin", "cend") and len(args) == 1:
            l = self.lval(st, args[0])
            if l is not None:
                return ("ptr", ("idx", l, ZERO)) if "begin" in name else ("end", l)
        if name == "for_each" and len(args) == 3:
            r = self.std_for_each(st, n, args)
            if r is not None:
                return r
        if name in ("accumulate", "copy", "transform", "fill", "sort", "find", "find_if", "all_of", "any_of", "none_of", "count_if", "remove_if"):
            return None
        if name == "operator<<" or name == "operator>>":
            for a in args[1:]:
                self.eval(st, a)
            return ("void",)
        if q.startswith("Eigen::") and name in ("Zero", "Identity", "Ones", "Constant", "UnitX", "UnitY", "UnitZ", "Random"):
            return self.eigen_static(st, n, f, name, args)
        if q.startswith("Eigen::"):
            if name == "Map":
                return self.typed(("mapof",) + tuple(self.eval(st, a) for a in args), self.ty(n))
        return None

    def std_for_each(self, st, n, args):
        b, e = args[0], args[1]
        for x in (b, e):
            while x.get("k") in ("ctor", "tctor") and len(x["args"]) == 1:
                x = x["args"][0]
        fn = self.eval(st, args[2])
        bb = strip_copies(b)
        if bb.get("k") != "mcall" or bb["f"]["n"] not in ("begin", "cbegin") or not (isinstance(fn, tuple) and fn[0] == "lambda"):
            return None
        l = self.lval(st, bb["obj"])
        if l is None:
            return None
        cnt = self.size_of(self.load(st, l, self.ty(bb["obj"])))
        iv = ("iv", st.depth, ZERO, cnt)
        lam, fr0 = fn[1].n, fn[1].fr
        p = lam["params"][0]
        fr = self.stack[-1]
        el = ("idx", l, P.atom(iv))
        t = fr.fn.types[p["t"]]
        def setup(x):
            if t.strip().endswith("&"):
                fr.env[p["id"]] = el
            else:
                lv = ("var", fr.n, p["id"])
                fr.env[p["id"]] = lv
                self.store(x, lv, self.load(x, el, t))
        o = self.summarise(st, iv, setup, lam["body"], set())
        if o.live is None:
            st.store[("dead",)] = True
        return ("void",)

    def make_heap(self, st, n, cls, args):
        l = self.tmp("heap")
        bt = base_type(cls)
        fr = self.stack[-1]
        if bt in self.m.recs:
            self.dyncls[l] = bt
            fn = self.find_ctor(bt, args)
            h = self.hooks.get("construct")
            if h and h(self, st, l, bt, None, args, n):
                return ("ptr", l)
            if fn is not None and self.can_inline(fn):
                self.invoke(st, fn, l, bt, self.bind_args(st, None, args, fn))
            elif len(args) == 1 and base_type(self.ty(args[0])) == bt:
                l2 = self.lval(st, args[0])
                self.store(st, l, self.load(st, l2, bt) if l2 is not None else self.eval(st, args[0]))
            elif not args:
                self.default_construct(st, l, bt)
            else:
                self.store(st, l, ("ctorof", bt) + tuple(self.eval(st, a) for a in args))
        else:
            if len(args) == 1:
                self.store(st, l, self.eval(st, args[0]))
            else:
                self.store(st, l, ("ctorof", bt) + tuple(self.eval(st, a) for a in args))
        return ("ptr", l)

    def find_ctor(self, cls, args):
        """constructor definition matching the argument types (used for forwarding calls)"""
        short = cls.split("::")[-1]
        best = None
        for fn in self.m.by_q.get(cls + "::" + short, []):
            if fn.cls != cls or not fn.ctor or fn.dep:
                continue
            if len(fn.params) != len(args):
                continue
            ok, score = True, 0
            for i, a in enumerate(args):
                at, pt = base_type(self.ty(a)), base_type(fn.ptype(i))
                if at == pt:
                    score += 2
                elif is_stream_t(at) and is_stream_t(pt):
                    score += 2
                elif at in SCALAR_T and pt in SCALAR_T:
                    score += 1
                elif is_eigen_t(at) and is_eigen_t(pt):
                    score += 1
                elif pt in self.m.bases(at):
                    score += 1
                elif at in self.m.enums or pt in self.m.enums:
                    ok = False
                elif (at in SCALAR_T) != (pt in SCALAR_T):
                    ok = False
            if ok and (best is None or score > best[0]):
                best = (score, fn)
        return best[1] if best else None

    def opaque(self, st, n, f, objloc, args):
        """call that is not analysed: an uninterpreted function of its inputs"""
        q = f["q"]
        pm = f.get("pm", [])
        vals, locs = [], []
        for i, a in enumerate(args):
            l = self.lval(st, a) if (i < len(pm) and pm[i] in ("r", "cr", "p", "cp")) else None
            if l is not None:
                v = self.load(st, l, self.ty(a))
                if pm[i] == "r" and is_uninit(v):
                    v = ("undef",)
            else:
                v = self.eval(st, a)
            vals.append(v)
            locs.append(l)
        recv = None
        if objloc is not None:
            recv = self.load(st, objloc, "?")
            ix = tuple(y for y in loc_indices(objloc) if contains(y, is_iv_atom) and not contains(recv, lambda z: z == y.as_atom() if isinstance(y, P) and y.as_atom() is not None else False))
            if ix:
                recv = ("at", recv, ix)
        term = ("call", q, recv, tuple(freeze(v) for v in vals))
        st.ev.append(("call", q, objloc, tuple(vals), tuple(locs), self.where(n), f))
        for i, l in enumerate(locs):
            mode = pm[i] if i < len(pm) else "v"
            tgt = l
            if mode == "p":
                tgt = self.ptr_target(vals[i])
                if tgt is None:
                    continue
            if mode in ("r", "p") and tgt is not None:
                if is_stream_t(self.ty(args[i])):
                    continue
                new = self.typed(("out", i, term), self.ty(args[i]))
                self.store(st, tgt, new)
                self.on_write(st, tgt, new, n)
        if objloc is not None and f.get("cls") and not f.get("const") and not f.get("static"):
            t = f["cls"]
            self.clear_under(st, objloc)
            st.store[objloc] = self.typed(("mut", term), "?")
            self.on_write(st, objloc, st.store[objloc], n)
        rt = self.ty(n)
        return self.typed(term, rt)

    def eigen_static(self, st, n, f, name, args):
        t = self.ty(n)
        cls = f.get("cls", "")
        m = re.search(r"Eigen::(?:Matrix|Array)<(?:double|float|int|unsigned int|long|char), (-?\d+), (-?\d+)", cls + " " + t)
        av = [self.eval(st, a) for a in args]
        if m:
            r, c = int(m.group(1)), int(m.group(2))
            if r > 0 and c > 0:
                if name == "Zero":
                    return V(r, c, [ZERO] * (r * c))
                if name == "Ones":
                    return V(r, c, [ONE] * (r * c))
                if name == "Identity":
                    return V(r, c, [ONE if i == j else ZERO for i in range(r) for j in range(c)])
                if name == "Constant":
                    return V(r, c, [self.as_p(av[-1])] * (r * c))
                if name.startswith("Unit") and len(name) == 5:
                    k = "XYZ".index(name[4])
                    if r > 1 and c > 1:         # the result type names the square identity it is a column of
                        c = 1
                    return V(r, c, [ONE if i == k else ZERO for i in range(r * c)])
                if name == "Random":
                    return self.typed(unk("random"), t)
        if name == "Zero":
            return M.atom(("zeros",) + tuple(av))
        if name == "Ones":
            return M.atom(("const", ONE) + tuple(av))
        if name == "Constant":
            return M.atom(("const", av[-1]) + tuple(av[:-1]))
        if name == "Identity":
            return M.atom(("identity",) + tuple(av))
        return M.atom(unk(name))

    # ---- operators ---------------------------------------------------------------
    def is_eig(self, v):
        return isinstance(v, (V, M))

    def mul(self, a, b, f=None):
        if f and f.get("cls") in ("Eigen::ArrayBase", "Eigen::ArrayWrapper", "Eigen::Array") and isinstance(a, (V, M)) and isinstance(b, (V, M)) and (isinstance(a, M) or isinstance(b, M)):
            return self.as_m(a).cwise(self.as_m(b))
        if isinstance(a, P) and isinstance(b, P):
            return a * b
        if isinstance(a, P):
            return b.scale(a)
        if isinstance(b, P):
            return a.scale(b)
        if isinstance(a, V) and isinstance(b, V):
            if a.arr or b.arr or f and f.get("cls") in ("Eigen::ArrayBase", "Eigen::ArrayWrapper", "Eigen::Array"):
                if (a.r, a.c) == (b.r, b.c):
                    return V(a.r, a.c, [x * y for x, y in zip(a.e, b.e)], True)
                return V(a.r, a.c, [P.atom(unk("arr"))] * len(a.e))
            if len(a.e) == 1 and a.c != b.r:
                return b.scale(a.e[0])
            r = a.mm(b)
            if r is None:
                return M.atom(unk("dims"))
            return r
        if isinstance(a, V) and isinstance(b, M):
            s = self.small(b)
            if s is not None and len(s) == a.c:
                return a.mm(V(a.c, 1, s))
        if isinstance(a, V):
            a = M.atom(("V", a))
        if isinstance(b, V):
            b = M.atom(("V", b))
        return a.mm(b)

    def small(self, v):
        """entries of a dynamic vector of known length that was filled entry by entry"""
        a = v.as_atom() if v.t else None
        if not (isinstance(a, tuple) and a and a[0] == "updm" and isinstance(a[1], M)):
            return None
        b = a[1].as_atom() if a[1].t else None
        if not (isinstance(b, tuple) and b and b[0] in ("fresh", "zeros") and len(b) == 2 and isinstance(b[1], P) and b[1].is_const() and 0 < b[1].cval() <= 16):
            return None
        out = []
        for k in range(int(b[1].cval())):
            x = next((e for i, e in reversed(a[2]) if i == num(k)), ZERO if b[0] == "zeros" else None)
            if not isinstance(x, P):
                return None
            out.append(x)
        return out

    def as_m(self, v):
        return M.atom(("V", v)) if isinstance(v, V) else v

    def add(self, a, b, sign=1):
        if isinstance(a, P) and isinstance(b, P):
            return a + b if sign > 0 else a - b
        if isinstance(a, V) and isinstance(b, V) and (a.r * a.c) == (b.r * b.c):
            if (a.r, a.c) != (b.r, b.c):
                b = V(a.r, a.c, b.e)
            return a + b if sign > 0 else a - b
        if isinstance(a, V) and isinstance(b, P):
            return a.map(lambda x: x + b if sign > 0 else x - b)
        if isinstance(a, P) and isinstance(b, V):
            return b.map(lambda x: a + x if sign > 0 else a - x)
        if isinstance(a, M) and isinstance(b, V):
            a = V(b.r, b.c, [a.el(num(k)) for k in range(len(b.e))]) if a.t else V(b.r, b.c, [ZERO] * len(b.e))
            return a + b if sign > 0 else a - b
        if isinstance(a, V) and isinstance(b, M):
            b = V(a.r, a.c, [b.el(num(k)) for k in range(len(a.e))]) if b.t else V(a.r, a.c, [ZERO] * len(a.e))
            return a + b if sign > 0 else a - b
        if isinstance(a, M) and isinstance(b, M):
            return a + b if sign > 0 else a - b
        return M.atom(unk("add"))

    def e_opcall(self, st, n, want_ref=False):
        op = n["op"]
        a = n["args"]
        f = n.get("f") or {}
        for h in self.hooks.get("call", ()):
            r = h(self, st, n, f, None, a) if f else None
            if r is not None:
                return r
        if op in ("=",) or (op in ("+=", "-=", "*=", "/=")):
            return self.op_assign(st, n, op, a, f)
        if op in ("()", "[]", "*", "->"):
            if op == "()" and not f.get("repo"):
                fv = None
                l0 = self.lval(st, a[0]) if a[0]["k"] == "ref" else None
                if l0 is not None:
                    fv = st.store.get(l0)
                    if isinstance(fv, tuple) and fv and fv[0] == "lambda":
                        return self.call_lambda(st, n, fv, a[1:])
                if a[0].get("k") == "lambda":
                    return self.call_lambda(st, n, self.eval(st, a[0]), a[1:])
            if op == "->" :
                l = self.obj_loc(st, a[0], True)
                return ("ptr", l) if l is not None else unk("->")
            if not f.get("repo"):
                if not (op == "*" and len(a) == 2):
                    if op == "()" and base_type(self.ty(a[0])).startswith("(lambda"):
                        fv = self.eval(st, a[0])
                        if isinstance(fv, tuple) and fv and fv[0] == "lambda":
                            return self.call_lambda(st, n, fv, a[1:])
                    l = self.lval_opcall(st, n)
                    if l is not None:
                        if want_ref:
                            return ("lref", l)
                        return self.load(st, l, self.ty(n))
                    return self.typed(unk("op" + op), self.ty(n))
        if f.get("repo"):
            fn = self.m.resolve(f, self.stack[-1].fn)
            if f.get("cls") and not f.get("static"):
                loc = self.obj_loc(st, a[0], False)
                if fn is not None and self.can_inline(fn) and not f.get("defaulted"):
                    v = self.invoke(st, fn, loc, fn.cls, self.bind_args(st, f, a[1:], fn))
                    return self.ret_ref(st, v, n, want_ref)
                return self.opaque(st, n, f, loc, a[1:])
            if fn is not None and self.can_inline(fn):
                v = self.invoke(st, fn, None, None, self.bind_args(st, f, a, fn))
                return self.ret_ref(st, v, n, want_ref)
            return self.opaque(st, n, f, None, a)
        if op in ("<<", ">>"):
            t0 = base_type(self.ty(a[0]))
            if is_stream_t(t0):
                return self.stream_op(st, n, op, a)
            if op == "<<" and (t0.startswith("Eigen::")):
                l = self.lval(st, a[0])
                v = self.eval(st, a[1])
                return self.comma(st, ("CI", l, t0, ()), v)
        if op == ",":
            l = self.eval(st, a[0])
            if isinstance(l, tuple) and l and l[0] == "CI":
                return self.comma(st, l, self.eval(st, a[1]))
            return self.eval(st, a[1])
        if op in ("++", "--"):
            l = self.lval(st, a[0])
            if l is not None:
                v = self.load(st, l, self.ty(a[0]))
                t = self.ptr_target(v)
                if t is not None and t[0] == "idx" and isinstance(t[2], P):
                    self.store(st, l, ("ptr", ("idx", t[1], t[2] + (ONE if op == "++" else num(-1)))))
                else:
                    self.store(st, l, unk("iter"))
            return unk("iter")
        if len(a) == 1:
            v = self.eval(st, a[0])
            if op == "-":
                return -v if isinstance(v, (P, V, M)) else self.typed(unk("neg"), self.ty(n))
            if op == "!":
                return b_not(self.as_b(v))
            return v
        x, y = self.rotated(st, a[0]), self.rotated(st, a[1])
        if op in ("==", "!="):
            r = self.cmp_obj(st, x, y)
            return r if op == "==" else b_not(r)
        if op in ("<", ">", "<=", ">="):
            if isinstance(x, P) and isinstance(y, P):
                return b_cmp(op, x, y)
            if isinstance(x, tuple) and isinstance(y, tuple) and x[:1] == y[:1] == ("tuple",) and len(x) == len(y) and all(isinstance(z, P) for z in x[1:] + y[1:]):
                # lexicographic
                r = op in ("<=", ">=")
                for p_, q_ in zip(x[:0:-1], y[:0:-1]):
                    r = b_or(b_cmp(op[0], p_, q_), b_and(b_cmp("==", p_, q_), r))
                return r
            return ("bool", ("ocmp", op, x, y)) if not (isinstance(x, V) or isinstance(y, V)) else M.atom(("ocmp", op, x, y))
        if op == "+" and (isinstance(x, str) or isinstance(y, str) or base_type(self.ty(n)).startswith(STR_T)):
            if isinstance(x, str) and isinstance(y, str):
                return x + y
            return ("cat", x, y)
        eig = self.is_eig(x) or self.is_eig(y)
        if eig or isinstance(x, P) or isinstance(y, P):
            if not isinstance(x, (P, V, M)):
                x = self.as_mat(x)
            if not isinstance(y, (P, V, M)):
                y = self.as_mat(y)
            if op == "+":
                return self.add(x, y)
            if op == "-":
                return self.add(x, y, -1)
            if op == "*":
                return self.mul(x, y, f)
            if op == "/":
                if isinstance(y, P):
                    return self.mul(y.inv(), x)
                if isinstance(x, V) and isinstance(y, V):
                    return V(x.r, x.c, [p / q_ for p, q_ in zip(x.e, y.e)], True)
                if isinstance(x, P) and isinstance(y, V):
                    return y.map(lambda q_: x / q_)
        t = self.ty(n)
        return self.typed(("op", op, freeze(x), freeze(y)), t)

    def cmp_obj(self, st, x, y):
        for a, b in ((x, y), (y, x)):
            if isinstance(a, tuple) and a and a[0] == "findres" and isinstance(b, tuple) and b and b[0] == "end":
                return b_not(map_has(a[3], freeze(a[2])))
        return self.equal(x, y)

    def stream_op(self, st, n, op, a):
        h = self.hooks.get("stream")
        if h:
            r = h(self, st, n, op, a)
            if r is not None:
                return r
        for x in a[1:]:
            if x.get("k") in ("call", "mcall", "opcall", "asg", "un"):
                try:
                    self.eval(st, x)
                except KeyError:
                    pass
        if a[0].get("k") == "opcall":
            self.eval(st, a[0])
        return ("stream",)

    def comma(self, st, ci, v):
        _, l, t, items = ci
        if isinstance(v, V):
            items = items + (v,)
        else:
            items = items + (self.as_p(v),)
        d = dims(t)
        cnt = sum(len(x.e) if isinstance(x, V) else 1 for x in items)
        if l is not None and l[0] == "blk" and isinstance(l[4], int) and isinstance(l[5], int):
            d = (l[4], l[5])
        elif l is not None and l[0] == "blk" and not isinstance(d, tuple):
            g = re.search(r", (-?\d+), (-?\d+)(?:, (?:true|false))?>$", t)
            if t.startswith("Eigen::Block<") and g and int(g.group(1)) > 0 and int(g.group(2)) > 0:
                d = (int(g.group(1)), int(g.group(2)))
        if isinstance(d, tuple) and l is not None and cnt == d[0] * d[1]:
            if all(isinstance(x, P) for x in items):
                self.store(st, l, V(d[0], d[1], items))
            else:
                # stacked column vectors, or columns side by side
                ok = False
                if d[1] == 1:
                    e = []
                    for x in items:
                        e += list(x.e) if isinstance(x, V) else [x]
                    self.store(st, l, V(d[0], d[1], e)); ok = True
                elif all(isinstance(x, V) and x.r == d[0] for x in items):
                    rows = [[z for x in items for z in [x.at(i, j) for j in range(x.c)]] for i in range(d[0])]
                    self.store(st, l, V(d[0], d[1], [z for r in rows for z in r])); ok = True
                if not ok:
                    self.store(st, l, self.typed(unk("comma"), t))
        elif l is not None and d == "dyn":
            self.store(st, l, M.atom(("comma",) + items))
        return ("CI", l, t, items)

    def op_assign(self, st, n, op, a, f):
        l = None
        t = self.ty(a[0])
        bt = base_type(t)
        if f.get("repo") and bt in self.m.recs and not f.get("defaulted"):
            fn = self.m.resolve(f, self.stack[-1].fn)
            loc = self.obj_loc(st, a[0], False)
            if fn is not None and self.can_inline(fn):
                v = self.invoke(st, fn, loc, fn.cls, self.bind_args(st, f, a[1:], fn))
                return self.load(st, loc, t)
            return self.opaque(st, n, f, loc, a[1:])
        # r-value first (C++17 order is irrelevant for the modelled values)
        rl = self.lval(st, a[1]) if a[1]["k"] in ("ref", "mem") else None
        v = self.load(st, rl, self.ty(a[1])) if rl is not None else self.eval(st, a[1])
        l = self.lval(st, a[0])
        if l is None:
            # array()-style views: x.array() += s
            r = self.view_assign(st, n, op, a, v)
            if r is not None:
                return r
            self.note("assignment to unmodelled l-value", n)
            return v
        if op == "=":
            if l[0] == "blk":
                self.store(st, l, v if not isinstance(v, P) else V(1, 1, [v]))
            else:
                d = dims(bt)
                if isinstance(d, tuple):
                    v = self.coerce(v, bt)
                elif d == "dyn" and isinstance(v, V):
                    pass
                elif d == "dyn" and isinstance(v, M) and self.iszero(v):
                    pass
                elif bt.startswith(STR_T) and isinstance(v, P):
                    v = ("chr", v)
                if bt.startswith(UPTR_T) and v == ("null",):
                    pass
                self.store(st, l, v)
                if rl is not None and rl in self.dyncls and bt in self.m.recs:
                    self.dyncls[l] = self.dyncls[rl]
            self.on_write(st, l, v, n)
            return v
        old = self.load(st, l, t)
        o = op[:-1]
        if isinstance(old, str) or bt.startswith(STR_T):
            nv = old + v if isinstance(old, str) and isinstance(v, str) else ("cat", old, v)
        elif o == "+":
            nv = self.add(old, v) if isinstance(v, (P, V, M)) and isinstance(old, (P, V, M)) else self.typed(unk("+="), t)
        elif o == "-":
            nv = self.add(old, v, -1) if isinstance(v, (P, V, M)) and isinstance(old, (P, V, M)) else self.typed(unk("-="), t)
        elif o == "*":
            nv = self.mul(old, v, f) if isinstance(v, (P, V, M)) and isinstance(old, (P, V, M)) else self.typed(unk("*="), t)
        elif o == "/" and isinstance(v, P) and isinstance(old, (P, V, M)):
            nv = self.mul(v.inv(), old)
        else:
            nv = self.typed(unk(op), t)
        self.store(st, l, nv)
        self.on_write(st, l, nv, n)
        return nv

    def iszero(self, v):
        return isinstance(v, M) and not v.t

    def view_assign(self, st, n, op, a, v):
        x = a[0]
        if x["k"] == "mcall" and x["f"]["n"] in ("array", "matrix"):
            l = self.lval(st, x["obj"])
            if l is None:
                return None
            old = self.load(st, l, self.ty(x["obj"]))
            if isinstance(old, V):
                oa = V(old.r, old.c, old.e, True)
                if op == "=":
                    nv = v if isinstance(v, V) else old.map(lambda z: P.atom(unk("arr")))
                elif op in ("+=", "-="):
                    nv = self.add(oa, v, 1 if op == "+=" else -1)
                elif op == "*=":
                    nv = self.mul(oa, v)
                elif op == "/=" and isinstance(v, P):
                    nv = self.mul(oa, v.inv())
                elif op == "/=" and isinstance(v, V) and len(v.e) == len(old.e):
                    nv = V(old.r, old.c, [y * z.inv() for y, z in zip(old.e, v.e)])
                else:
                    nv = old.map(lambda z: P.atom(unk("arr")))
                self.store(st, l, V(nv.r, nv.c, nv.e))
                return nv
            if op == "=" and isinstance(v, (V, M)):
                nv = v
            elif op in ("+=", "-=") and isinstance(v, M):
                nv = self.add(old, v, 1 if op == "+=" else -1)
            elif op == "*=" and isinstance(v, P):
                nv = old.scale(v)
            elif op == "*=" and isinstance(v, M):
                nv = old.cwise(v)
            else:
                nv = M.atom(("arrop", op, old, v))
            self.store(st, l, nv)
            return nv
        if x["k"] == "mcall" and x["f"]["n"] in ("diagonal",):
            l = self.lval(st, x["obj"])
            if l is not None:
                self.store(st, l, self.typed(unk("diag"), self.ty(x["obj"])))
            return v
        return None

    def call_lambda(self, st, n, fv, args):
        lam, fr0 = fv[1].n, fv[1].fr
        self.nframe += 1
        fr = Frame(fr0.fn, fr0.this, fr0.thiscls, self.nframe)
        fr.env = dict(fr0.env)
        fr.lam = True
        for p, a in zip(lam["params"], args):
            t = fr0.fn.types[p["t"]]
            given = not isinstance(a, dict)         # a value rather than an expression
            if t.strip().endswith("&"):
                l = None if given else self.lval(st, a)
                if l is None:
                    l = self.tmp()
                    self.store(st, l, a if given else self.eval(st, a))
                fr.env[p["id"]] = l
            else:
                l = ("var", fr.n, p["id"])
                self.store(st, l, a if given else self.eval(st, a))
                fr.env[p["id"]] = l
        if len(self.stack) > self.MAXDEPTH:
            return self.typed(unk("lambda depth"), self.ty(n))
        self.stack.append(fr)
        try:
            o = self.exec_stmt(State(st.store, st.ev, st.q, st.depth, st.facts), lam["body"])
        finally:
            self.stack.pop()
        v, s2 = self.finish(o)
        if s2 is None:
            st.store[("dead",)] = True
            return unk("dead")
        st.store, st.ev, st.q = s2.store, s2.ev, s2.q
        if isinstance(v, tuple) and v and v[0] == "lref":
            return self.load(st, v[1], self.ty(n))
        return v

    # ---- member calls --------------------------------------------------------------
    def e_mcall(self, st, n, want_ref=False):
        f = n.get("f")
        args = n["args"]
        if f is None:
            self.eval(st, n["obj"])
            for a in args:
                self.eval(st, a)
            return self.typed(unk("mcall"), self.ty(n))
        name = f["n"]
        for h in self.hooks.get("call", ()):
            r = h(self, st, n, f, n["obj"], args)
            if r is not None:
                return r
        if f.get("repo"):
            loc = self.obj_loc(st, n["obj"], n.get("arrow"))
            static_t = f["cls"]
            fn = self.m.resolve(f, self.stack[-1].fn)
            cls = None
            if f.get("virt") and not n.get("nonvirt"):
                stt = base_type(self.ty(n["obj"]))
                if n.get("arrow"):
                    stt = pointee(stt)
                cls = self.dyn_class(st, loc, stt)
                if cls is not None:
                    fn = self.m.method(cls, name, lambda x: len(x.params) == len(args) and (x.usr == f["u"] or f["u"] in self.all_over(x))) or self.m.method(cls, name, lambda x: len(x.params) == len(args)) or fn
                    if fn is not None and fn.usr == f["u"] and fn.body is None:
                        fn = None
                else:
                    # all overriders unknown: final?
                    fn = None
            else:
                cls = f["cls"]
                c2 = self.dyn_class(st, loc, f["cls"])
                if c2 is not None and (c2 == cls or cls in self.m.bases(c2)):
                    cls = c2
            if fn is not None and self.can_inline(fn):
                v = self.invoke(st, fn, loc, cls or fn.cls, self.bind_args(st, f, args, fn))
                return self.ret_ref(st, v, n, want_ref)
            return self.opaque(st, n, f, loc, args)
        if self.is_eigen_method(f):
            return self.eigen_method(st, n, f, name, args)
        return self.std_method(st, n, f, name, args)

    def all_over(self, fn, acc=None):
        acc = set() if acc is None else acc
        for u in fn.over:
            if u not in acc:
                acc.add(u)
                for g in self.m.by_usr.get(u, []):
                    self.all_over(g, acc)
                # pure virtual intermediates
                for r in self.m.recs.values():
                    for m in r["methods"]:
                        if m["u"] == u:
                            acc |= set(m["over"])
        return acc

    def eigen_method(self, st, n, f, name, args):
        ot = base_type(self.ty(n["obj"]))
        if n.get("arrow"):
            ot = pointee(ot)
        if ot.startswith(ANGLE_AXIS) and name in ("inverse", "toRotationMatrix", "matrix"):
            r = self.rot3(st, n["obj"])
            if r is not None:
                return V(3, 3, [r.e[3 * j + i] for i in range(3) for j in range(3)]) if name == "inverse" else r
        lv_names = {"axis", "angle", "segment", "head", "tail", "col", "row", "block", "x", "y", "z", "w", "coeff", "coeffRef", "topLeftCorner", "topRows", "bottomRows"}
        if name in lv_names:
            l = self.lval_mcall(st, n)
            if l is not None:
                return self.load(st, l, self.ty(n))
            for a in args:
                self.eval(st, a)
            return self.typed(unk("eigen " + name), self.ty(n))
        if name in ("any", "all") and not args:
            v = self.eval(st, n["obj"])
            a = v.as_atom() if isinstance(v, (M, P)) else None
            if isinstance(a, tuple) and a and a[0] == "ocmp":
                x, y = a[2], a[3]
                k = next((z for z in (x, y) if isinstance(z, V)), None)
                if k is not None:
                    xs, ys = ([z] * len(k.e) if isinstance(z, P) else z.e if isinstance(z, V) and len(z.e) == len(k.e) else None for z in (x, y))
                    if xs and ys:
                        return (b_or if name == "any" else b_and)(*[b_cmp(a[1], p_, q_) for p_, q_ in zip(xs, ys)])
        if name == "unaryExpr" and len(args) == 1:
            v, g = self.eval(st, n["obj"]), self.eval(st, args[0])
            if isinstance(v, V) and isinstance(g, tuple) and g and g[0] == "lambda" and len(g[1].n["params"]) == 1:
                out = []
                for x in v.e:
                    y = self.call_lambda(st, n, g, [x])
                    if not isinstance(y, P):
                        break
                    out.append(y)
                if len(out) == len(v.e):
                    return V(v.r, v.c, out, v.arr)
        if name in ("compute", "factorize", "analyzePattern") and ot.startswith(("Eigen::JacobiSVD", "Eigen::SelfAdjointEigenSolver", "Eigen::EigenSolver", "Eigen::LDLT", "Eigen::LLT", "Eigen::PartialPivLU", "Eigen::FullPivLU")):
            l = self.obj_loc(st, n["obj"], n.get("arrow"))
            v = M.atom(("decomp", ot.split("<")[0], name) + tuple(freeze(self.eval(st, a)) for a in args if not a.get("def")))
            self.store(st, l, v)
            return v
        if name in ("setZero", "setConstant", "setOnes", "setIdentity", "resize", "conservativeResize", "swap", "normalize", "insert", "insertBack",
                    "reserve", "makeCompressed", "setFromTriplets", "transposeInPlace", "prune", "setRandom", "fill", "stableNormalize"):
            return self.eigen_mut(st, n, f, name, args, ot)
        if name in ("Zero", "Identity", "Ones", "Constant", "UnitX", "UnitY", "UnitZ", "Random"):
            return self.eigen_static(st, n, f, name, args)
        if name == "data" or name in ("valuePtr", "innerIndexPtr", "outerIndexPtr", "innerNonZeroPtr"):
            l = self.lval(st, n["obj"])
            if l is None and name != "data":
                v = self.eval(st, n["obj"])
                if isinstance(v, M):
                    l = self.tmp()
                    self.store(st, l, v)
            if l is None:
                return unk("data")
            return ("ptr", ("dat", l, name))
        l = self.lval(st, n["obj"]) if not n.get("arrow") else self.obj_loc(st, n["obj"], True)
        v = self.load(st, l, ot) if l is not None else self.eval(st, n["obj"])
        if not isinstance(v, (P, V, M)):
            v = self.as_mat(v)
        A = [self.eval(st, a) for a in args if not a.get("def")]
        if isinstance(v, V):
            if name == "dot" and isinstance(A[0], M):
                A[0] = self.coerce(A[0], "Eigen::Matrix<double, %d, %d" % (v.r, v.c))
            if name == "dot" and isinstance(A[0], V):
                return v.dot(A[0])
            if name == "cross" and isinstance(A[0], V) and len(v.e) == 3 and len(A[0].e) == 3:
                return v.cross(A[0])
            if name in ("norm", "stableNorm", "blueNorm"):
                return sqrt(v.dot(v))
            if name == "squaredNorm":
                return v.dot(v)
            if name in ("normalized", "stableNormalized"):
                return v.scale(sqrt(v.dot(v)).inv())
            if name == "transpose" or name == "adjoint":
                return v.T()
            if name == "array":
                return V(v.r, v.c, v.e, True)
            if name in ("matrix", "eval", "derived", "noalias", "template cast", "cast", "real"):
                return V(v.r, v.c, v.e)
            if name == "sum":
                return sum_(v.e)
            if name == "prod":
                r = ONE
                for x in v.e:
                    r = r * x
                return r
            if name == "trace":
                return sum_(v.at(i, i) for i in range(min(v.r, v.c)))
            if name == "asDiagonal" or (name == "diagonal" and (v.r == 1 or v.c == 1)):
                k = len(v.e)
                return V(k, k, [v.e[i] if i == j else ZERO for i in range(k) for j in range(k)])
            if name == "diagonal":
                k = min(v.r, v.c)
                return V(k, 1, [v.at(i, i) for i in range(k)])
            if name in ("cwiseProduct",) and isinstance(A[0], V):
                return V(v.r, v.c, [x * y for x, y in zip(v.e, A[0].e)])
            if name == "cwiseQuotient" and isinstance(A[0], V):
                return V(v.r, v.c, [x / y for x, y in zip(v.e, A[0].e)])
            if name in ("cwiseInverse",) or (name == "inverse" and v.arr):
                return v.map(lambda x: x.inv())
            if name in ("cwiseAbs", "abs"):
                return v.map(lambda x: P.atom(("abs", canon_sign(x))))
            if name in ("ceil", "floor", "round", "exp", "log") and not args:
                return v.map(lambda x: P.atom(("fn", name, x)))
            if name in ("square", "cwiseAbs2"):
                return v.map(lambda x: x * x)
            if name in ("cwiseSqrt", "sqrt"):
                return v.map(sqrt)
            if name in ("minCoeff", "maxCoeff") and not A:
                r = v.e[0]
                for x in v.e[1:]:
                    r = minmax(name[:3], r, x)
                return r
            if name in ("min", "max") and A:
                o = A[0]
                if isinstance(o, P):
                    return v.map(lambda x: minmax(name, x, o))
                if isinstance(o, V):
                    return V(v.r, v.c, [minmax(name, x, y) for x, y in zip(v.e, o.e)], v.arr)
            if name in ("cwiseMin", "cwiseMax") and isinstance(A[0], V):
                return V(v.r, v.c, [minmax(name[4:].lower(), x, y) for x, y in zip(v.e, A[0].e)])
            if name == "determinant":
                if (v.r, v.c) == (2, 2):
                    return v.at(0, 0) * v.at(1, 1) - v.at(0, 1) * v.at(1, 0)
                if (v.r, v.c) == (3, 3):
                    a_ = lambda i, j: v.at(i, j)
                    return (a_(0, 0) * (a_(1, 1) * a_(2, 2) - a_(1, 2) * a_(2, 1)) - a_(0, 1) * (a_(1, 0) * a_(2, 2) - a_(1, 2) * a_(2, 0)) +
                            a_(0, 2) * (a_(1, 0) * a_(2, 1) - a_(1, 1) * a_(2, 0)))
            if name == "size":
                return num(len(v.e))
            if name == "rows":
                return num(v.r)
            if name == "cols":
                return num(v.c)
            return self.typed(("eig", name, v) + tuple(freeze(x) for x in A), self.ty(n))
        if isinstance(v, P):
            v = V(1, 1, [v])
            if name in ("value", "eval", "derived", "sum", "coeff"):
                return v.e[0]
        # dynamic
        if isinstance(v, M):
            if name == "dot":
                o = A[0]
                if isinstance(o, V):
                    o = M.atom(("V", o))
                return v.T().mm(o).scalar() if isinstance(o, M) else P.atom(unk("dot"))
            if name == "operator const double":
                return v.scalar()           # a 1x1 product
            if name in ("transpose", "adjoint"):
                return v.T()
            if name in ("eval", "derived", "matrix", "noalias", "cast", "array", "template cast", "selfadjointView", "sparseView"):
                return v
            if name == "squaredNorm":
                return v.T().mm(v).scalar()
            if name == "norm":
                return sqrt(v.T().mm(v).scalar())
            if name in ("size", "rows", "cols", "nonZeros", "outerSize", "innerSize"):
                return self.eig_size(v, name, ot)
            if name == "cwiseProduct" and isinstance(A[0], (V, M)):
                return v.cwise(self.as_m(A[0]))
            if name in ("square", "cwiseAbs2") and (n.get("f") or {}).get("cls", "").startswith("Eigen::"):
                return v.cwise(v)
            if len(A) == 1 and isinstance(A[0], (P, V, M)) and is_eigen_t(self.ty(n)) and name in ("min", "max", "cwiseMin", "cwiseMax"):
                o = A[0] if isinstance(A[0], P) else self.as_m(A[0])
                return M.atom(("cw" + name[-3:].lower(), frozenset((v, o))))
            if not A and name in ("cwiseAbs", "abs", "cwiseSqrt", "sqrt", "cwiseInverse"):
                name = name[5:].lower() if name.startswith("cwise") else name
                name = "cwise" + name.capitalize()
            term = ("eig", name, v) + tuple(freeze(x) for x in A)
            if self.ty(n) == "bool":
                return ("bool", term)
            return self.typed(term, self.ty(n)) if not is_eigen_t(self.ty(n)) else M.atom(term)
        return self.typed(unk("eigen " + name), self.ty(n))

    def eig_size(self, v, name, ot):
        a = v.as_atom() if v.t else None
        while isinstance(a, tuple) and a and a[0] == "updm":
            v = a[1]
            a = v.as_atom() if isinstance(v, M) and v.t else None
        if isinstance(a, tuple) and a and a[0] == "fresh":
            if name == "size":
                r = ONE
                for x in a[1:]:
                    r = r * x
                return r
            if name == "rows":
                return a[1]
            if name == "cols":
                return a[2] if len(a) > 2 else ONE
        if isinstance(a, tuple) and a and a[0] in ("zeros", "const") :
            ds = a[1:] if a[0] == "zeros" else a[2:]
            if ds:
                if name == "size":
                    r = ONE
                    for x in ds:
                        r = r * x
                    return r
                if name == "rows":
                    return ds[0]
                if name == "cols":
                    return ds[1] if len(ds) > 1 else ONE
        m = FIX.match(base_type(ot)) or DENSE.match(base_type(ot))
        if m and name == "cols" and int(m.group(3)) > 0:
            return num(int(m.group(3)))
        if m and name == "rows" and int(m.group(2)) > 0:
            return num(int(m.group(2)))
        if m and m.group(3) == "1" and name == "rows":
            name = "size"
        if name in ("size", "rows") and self.sizes and v.t:
            for w in v.t:
                x = w[-1][0]
                while isinstance(x, tuple) and x and x[0] == "updm" and isinstance(x[1], M) and len(x[1].t) == 1:
                    x = next(iter(x[1].t))[-1][0]
                if isinstance(x, tuple) and len(x) == 2 and x[0] == "in" and x[1] in self.sizes:
                    return self.sizes[x[1]]
        if name in ("outerSize", "innerSize"):
            sp = re.search(r"Eigen::SparseMatrix<[a-z ]+(?:, (\d+))?", base_type(ot))
            if sp:
                name = "cols" if ((sp.group(1) or "0") == "0") == (name == "outerSize") else "rows"
        return P.atom((name, v))

    def eigen_mut(self, st, n, f, name, args, ot):
        l = self.obj_loc(st, n["obj"], n.get("arrow"))
        A = [self.eval(st, a) for a in args if not a.get("def")] if name not in ("swap",) else []
        d = dims(ot)
        if l[0] == "blk" and isinstance(l[4], int) and isinstance(l[5], int):
            d = (l[4], l[5])
        old = None
        if name in ("reserve", "makeCompressed"):
            st.ev.append(("eigmut", name, l, tuple(A), self.where(n)))
            return ("void",)
        if name == "swap":
            l2 = self.lval(st, args[0])
            if l2 is not None:
                va, vb = self.load(st, l, ot), self.load(st, l2, self.ty(args[0]))
                self.store(st, l, vb)
                self.store(st, l2, va)
                self.on_write(st, l, vb, n)
                self.on_write(st, l2, va, n)
            return ("void",)
        if name in ("insert", "insertBack"):
            ix = tuple(A)
            tgt = ("idx", l, ix if len(ix) == 2 else ix[0])
            st.ev.append(("insert", l, ix, self.where(n)))
            return ("lref", tgt)
        if name == "setFromTriplets":
            src = args[0]
            bb = strip_copies(src)
            v = unk("triplets")
            if bb.get("k") == "mcall" and bb["f"]["n"] in ("begin", "cbegin"):
                l2 = self.lval(st, bb["obj"])
                if l2 is not None:
                    v = self.load(st, l2, "?")
            self.store(st, l, M.atom(("fromtriplets", freeze(v))))
            self.on_write(st, l, st.store.get(l), n)
            return ("void",)
        if isinstance(d, tuple):
            r, c = d
            if name == "setZero":
                v = V(r, c, [ZERO] * (r * c))
            elif name in ("setConstant", "fill"):
                v = V(r, c, [self.as_p(A[-1])] * (r * c))
            elif name == "setOnes":
                v = V(r, c, [ONE] * (r * c))
            elif name == "setIdentity":
                v = V(r, c, [ONE if i == j else ZERO for i in range(r) for j in range(c)])
            elif name in ("normalize", "stableNormalize"):
                o = self.load(st, l, ot)
                v = o.scale(sqrt(o.dot(o)).inv()) if isinstance(o, V) else self.typed(unk("norm"), ot)
            elif name in ("resize", "conservativeResize"):
                return ("void",)
            else:
                v = self.typed(unk(name), ot)
            self.store(st, l, v)
            self.on_write(st, l, v, n)
            return ("void",)
        old = self.load(st, l, ot)
        if name == "setZero":
            sz = A if A else None
            v = M.atom(("zeros",) + tuple(A if A else (self.eig_size(old, "size", ot),) if isinstance(old, M) else ()))
        elif name in ("setConstant", "fill"):
            v = M.atom(("const", A[-1]) + tuple(A[:-1]))
        elif name == "setIdentity":
            v = M.atom(("identity",) + tuple(A))
        elif name == "resize":
            v = M.atom(("fresh",) + tuple(A))
        elif name == "conservativeResize":
            v = M.atom(("cresize", freeze(old)) + tuple(A))
        else:
            v = M.atom(("eigmut", name, freeze(old)) + tuple(freeze(x) for x in A))
        self.store(st, l, v)
        self.on_write(st, l, v, n)
        return ("void",)

    def std_method(self, st, n, f, name, args):
        ot = base_type(self.ty(n["obj"]))
        arrow = n.get("arrow")
        if arrow:
            ot = pointee(ot)
        if is_stream_t(ot):
            h = self.hooks.get("streamcall")
            if h:
                r = h(self, st, n, name, args)
                if r is not None:
                    return r
            for a in args:
                self.eval(st, a)
            t = self.ty(n)
            if t == "bool":
                return ("bool", ("stream", name, unk("stream")))
            return self.typed(unk("stream"), t)
        if ot.startswith(UPTR_T):
            l = self.obj_loc(st, n["obj"], arrow)
            if name == "get":
                return self.load(st, l, ot)
            if name == "reset":
                v = self.eval(st, args[0]) if args and not args[0].get("def") else ("null",)
                self.store(st, l, v)
                self.on_write(st, l, v, n)
                return ("void",)
            if name == "release":
                v = self.load(st, l, ot)
                self.store(st, l, ("null",))
                return v
            if name == "swap":
                l2 = self.lval(st, args[0])
                va, vb = self.load(st, l, ot), self.load(st, l2, ot)
                self.store(st, l, vb); self.store(st, l2, va)
                return ("void",)
            if name.startswith("operator bool"):
                return self.as_b(self.load(st, l, ot))
        if name in ("operator bool",):
            return self.as_b(self.eval(st, n["obj"]))
        if ot.startswith(SEQ_T + MAP_T + SET_T) or ot.startswith(STR_T) or ot.startswith("std::array<"):
            return self.container_method(st, n, f, name, args, ot, arrow)
        if ot.startswith("std::pair<") and name == "swap":
            pass
        l = self.obj_loc(st, n["obj"], arrow)
        return self.opaque(st, n, f, l, args)

    def container_method(self, st, n, f, name, args, ot, arrow):
        l = self.obj_loc(st, n["obj"], arrow)
        isstr = ot.startswith(STR_T)
        if name in ("at", "front", "back", "operator[]"):
            lv = self.lval_mcall(st, n)
            if lv is not None:
                return self.load(st, lv, self.ty(n))
        if name in ("size", "length"):
            return self.size_of(self.load(st, l, ot))
        if name == "empty":
            s = self.size_of(self.load(st, l, ot))
            return b_cmp("==", s, ZERO)
        if name in ("reserve", "shrink_to_fit"):
            return ("void",)
        if name == "clear":
            self.store(st, l, "" if isstr else ("empty",))
            self.on_write(st, l, ("empty",), n)
            return ("void",)
        if name in ("c_str",):
            return self.load(st, l, ot)
        if name == "data":
            return ("ptr", ("dat", l, "data"))
        if name in ("begin", "cbegin"):
            return ("ptr", ("idx", l, ZERO))
        if name in ("end", "cend"):
            return ("end", l)
        if name == "find" and ot.startswith(MAP_T + SET_T):
            return ("findres", l, self.eval(st, args[0]), freeze(self.load(st, l, ot)))
        if name == "count" and ot.startswith(MAP_T + SET_T):
            k = self.eval(st, args[0])
            return self.as_p(phi(map_has(freeze(self.load(st, l, ot)), freeze(k)), ONE, ZERO))
        if name == "swap":
            l2 = self.lval(st, args[0])
            if l2 is not None:
                va, vb = self.load(st, l, ot), self.load(st, l2, ot)
                self.store(st, l, vb); self.store(st, l2, va)
                self.on_write(st, l, vb, n); self.on_write(st, l2, va, n)
            return ("void",)
        if name in ("push_back", "emplace_back", "insert", "emplace", "emplace_hint", "try_emplace", "insert_or_assign", "pop_back"):
            old = self.load(st, l, ot)
            if name == "pop_back":
                if isinstance(old, tuple) and old and old[0] == "seq" and old[2] and not (isinstance(old[2][-1], tuple) and old[2][-1] and old[2][-1][0] == "rep"):
                    self.store(st, l, ("seq", old[1], old[2][:-1]))
                else:
                    self.store(st, l, ("mut", name, freeze(old)))
                self.on_write(st, l, st.store.get(l), n)
                return ("void",)
            av = [a for a in args if not a.get("def")]
            if ot.startswith(MAP_T):
                if len(av) == 1:
                    e = self.eval(st, av[0])
                elif len(av) == 2 and name == "insert":         # position hint and value
                    e = self.eval(st, av[1])
                elif len(av) == 2:
                    e = ("kv", self.eval(st, av[0]), self.eval(st, av[1]))
                elif len(av) == 3 and name == "emplace_hint":
                    e = ("kv", self.eval(st, av[1]), self.eval(st, av[2]))
                else:
                    e = unk("map insert")
            elif name == "emplace_back" or (name == "emplace" and ot.startswith(SET_T)):
                et = tmpl_args(ot)[0] if not isstr else "char"
                if base_type(et) in self.m.recs:
                    p = self.make_heap(st, n, et, av)
                    e = self.load(st, p[1], et)
                elif base_type(et).startswith(UPTR_T) or len(av) == 1:
                    e = self.eval(st, av[0]) if av else ("null",)
                    if isinstance(dims(et), tuple):
                        e = self.coerce(e, et)
                elif dims(et) is not None:
                    tl = self.tmp()
                    self.construct_eigen(st, tl, base_type(et), av)
                    e = self.load(st, tl, et)
                elif base_type(et).startswith("std::pair<") and len(av) == 2:
                    e = ("kv", self.eval(st, av[0]), self.eval(st, av[1]))
                elif base_type(et).startswith("Eigen::Triplet"):
                    e = ("triplet",) + tuple(self.eval(st, a) for a in av)
                else:
                    e = ("ctorof", base_type(et)) + tuple(freeze(self.eval(st, a)) for a in av)
            elif ot.startswith(SEQ_T) and name == "insert":
                e = None
                vals = [self.eval(st, a) for a in av]
                self.store(st, l, ("mut", name, freeze(old)) + tuple(freeze(x) for x in vals))
                self.on_write(st, l, st.store.get(l), n)
                return unk("it")
            else:
                e = self.eval(st, av[-1])
                et = tmpl_args(ot)
                if et and not isstr:
                    e = self.coerce(e, et[0]) if dims(et[0]) is not None or base_type(et[0]) in SCALAR_T else e
            e = freeze(e)
            if isstr and isinstance(old, str):
                old = ("strlit", old) if old else ("empty",)
            if isinstance(old, tuple) and old and old[0] == "seq":
                nv = ("seq", old[1], old[2] + (e,))
            else:
                nv = ("seq", freeze(old), (e,))
            self.store(st, l, nv)
            self.on_write(st, l, nv, n)
            st.ev.append(("append", l, e, self.where(n)))
            for h in self.hooks.get("append", ()):
                h(self, st, l, e, n)
            if ot.startswith(MAP_T) and isinstance(e, tuple) and e and e[0] == "kv":
                return ("insres", l, e[1])          # where the entry of this key is
            return unk("it")
        if name == "resize":
            old = self.load(st, l, ot)
            k = self.as_p(self.eval(st, args[0]))
            if old == ("empty",) or (isinstance(old, tuple) and old and old[0] in ("uninit",)):
                if len(args) > 1 and not args[1].get("def"):
                    nv = ("filled", k, self.eval(st, args[1]))
                else:
                    nv = ("sized", k)
            else:
                nv = ("resized", freeze(old), k) + tuple(freeze(self.eval(st, a)) for a in args[1:] if not a.get("def"))
            self.store(st, l, nv)
            self.on_write(st, l, nv, n)
            return ("void",)
        if name == "assign" and len(args) == 2:
            nv = ("filled", self.as_p(self.eval(st, args[0])), self.eval(st, args[1]))
            self.store(st, l, nv)
            return ("void",)
        if name == "erase":
            vals = [self.eval(st, a) for a in args]
            old = self.load(st, l, ot)
            nv = ("mut", "erase", freeze(old)) + tuple(freeze(x) for x in vals)
            self.store(st, l, nv)
            self.on_write(st, l, nv, n)
            return unk("it")
        if f.get("const"):
            v = self.load(st, l, ot)
            r = ("mcall", name, freeze(v)) + tuple(freeze(self.eval(st, a)) for a in args if not a.get("def"))
            return self.typed(r, self.ty(n))
        return self.opaque(st, n, f, l, args)


def rodrigues(k, th):
    ct = canon_sign(th)
    c = ONE if th == ZERO else P.atom(("fn", "cos", ct))
    s = ZERO if th == ZERO else P.atom(("fn", "sin", ct)) if ct == th else -P.atom(("fn", "sin", ct))
    d = ONE - c
    x, y, z = k
    # the axis is a unit vector (or the angle is zero): x^2 + y^2 + z^2 = 1 is not used, so equal axes give equal matrices
    return V(3, 3, [c + d * x * x, d * x * y - s * z, d * x * z + s * y,
                    d * x * y + s * z, c + d * y * y, d * y * z - s * x,
                    d * x * z - s * y, d * y * z + s * x, c + d * z * z])


def loc_indices(l):
    while l is not None:
        if l[0] == "idx":
            yield l[2]
        l = parent(l)


def is_iv_atom(y):
    return isinstance(y, tuple) and len(y) == 4 and y[0] == "iv"


class _LamKey:
    __slots__ = ("n", "fr")

    def __init__(self, n, fr):
        self.n, self.fr = n, fr

    def __hash__(self):
        return id(self.n)

    def __eq__(self, o):
        return isinstance(o, _LamKey) and self.n is o.n

    def __repr__(self):
        return "lambda@%s" % self.n.get("l")


class _FnCtx:
    """minimal function-like context for evaluating initialisers"""
    def __init__(self, types, file):
        self.types, self.file, self.tu, self.line, self.q = types, file, file, 0, "<init>"
        self.ret, self.cls, self.params, self.targs = "?", None, [], None

    def ty(self, node):
        t = node.get("t")
        return self.types[t] if t is not None else "?"

    def where(self, node=None):
        return "%s:%d" % (self.file, (node or {}).get("l", 0))


def strip_copies(n):
    while n and n.get("k") in ("ctor", "tctor", "icast") and (len(n.get("args", [])) == 1 or n.get("e")):
        n = n["args"][0] if n.get("args") else n["e"]
    return n


def is_uninit(v):
    a = v.as_atom() if isinstance(v, (P, M)) else v.e[0].as_atom() if isinstance(v, V) and v.e else v
    while isinstance(a, tuple) and a and a[0] == "el":
        a = a[1]
    return isinstance(a, tuple) and bool(a) and a[0] == "uninit"


def freeze(v):
    return v
