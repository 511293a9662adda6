"""Checkpoint streams: what a writer puts on the stream, and a reader interpreted on exactly that token sequence.

A token is ("wire", bytes, kind, value, where); loops and conditionals around writes stay as ("loop", iv, tokens) / ("br", cond, A, B).
The reader consumes tokens through the same abstract interpreter, so a restored field holds the writer's value exactly when the two agree."""
from .constraints import *
from .ai import base_type, path, parent, vals_of, is_stream_t, unk, State, Undecided
from .alg import *


class Mismatch(Exception):
    pass


def strip_cast(n):
    while n.get("k") in ("cast", "icast", "paren"):
        n = n["e"]
    return n


def size_eq(a, b):
    if a == b:
        return True
    if has_unk(a) or has_unk(b):
        return None
    d = a - b
    if d.is_const():
        return False
    return False if not inexact(d) else None


class Wire:
    def __init__(self, rep=None):
        self.err = []         # (where, text): definite disagreements
        self.und = []
        self.nread = self.nwrite = 0

    # ---- writer
    def w_call(self, I, st, n, name, args):
        if name == "write":
            size = I.as_p(I.eval(st, args[1]))
            p = I.eval(st, args[0])
            e = strip_cast(args[0])
            self.nwrite += 1
            if isinstance(p, tuple) and len(p) == 2 and p[0] == "ptr":
                l = p[1]
                if l[0] == "dat":
                    st.ev.append(("wire", size, "dat:" + l[2], I.load_nodat(st, l[1]), I.where(n)))
                else:
                    t = I.ty(e["e"]) if e.get("k") == "un" and e.get("op") == "&" else "?"
                    st.ev.append(("wire", size, "var", I.load(st, l, t), I.where(n)))
            elif isinstance(p, str) or (isinstance(p, tuple) and p and args[0].get("k") in ("mcall", "ref", "icast")):
                st.ev.append(("wire", size, "dat:data", p, I.where(n)))
            else:
                st.ev.append(("wire", size, "?", unk("write"), I.where(n)))
            return ("stream",)
        return self.common(I, st, n, name, args)

    def common(self, I, st, n, name, args):
        if name in ("good", "is_open", "operator bool"):
            return True
        if name in ("fail", "bad", "eof"):
            return False
        return None

    # ---- reader
    def head(self, I, st):
        """next token, splitting conditionals"""
        q = st.q
        while q:
            t = q[0]
            if t[0] == "br":
                for c in st.facts:
                    if c == t[1]:
                        q = t[2] + q[1:]
                        break
                    if c == b_not(t[1]):
                        q = t[3] + q[1:]
                        break
                else:
                    a, b = t[2], t[3]
                    if a and b and a[0][0] == "wire" and b[0][0] == "wire" and a[0][2] == b[0][2]:
                        st.q = (("br", t[1], a[1:], b[1:]),) + q[1:]
                        return ("wire", phi(t[1], a[0][1], b[0][1]), a[0][2], phi(t[1], a[0][3], b[0][3]), a[0][4])
                    if not a and not b:
                        q = q[1:]
                        continue
                    return t
                continue
            if t[0] == "loop" and not t[2]:
                q = q[1:]
                continue
            st.q = q[1:]
            return t
        st.q = ()
        return None

    def r_call(self, I, st, n, name, args):
        if name != "read":
            return self.common(I, st, n, name, args)
        size = I.as_p(I.eval(st, args[1]))
        p = I.eval(st, args[0])
        w = I.where(n)
        t = self.head(I, st)
        self.nread += 1
        tgt = p[1] if isinstance(p, tuple) and len(p) == 2 and p[0] == "ptr" else None
        if t is not None and t[0] == "opaque":
            raise Undecided("what %s writes is not known" % t[1])
        if t is None:
            raise Mismatch("%s reads %s bytes where the saved data has ended" % (w, size))
        if t[0] == "endloop":
            raise Mismatch("%s reads more per repetition than was written" % w)
        if t[0] != "wire":
            raise Mismatch("%s reads a single value where %s was written" % (w, describe(t)))
        s = size_eq(t[1], size)
        if s is False:
            raise Mismatch("%s reads %s bytes where %s wrote %s bytes" % (w, size, t[4], t[1]))
        if s is None:
            self.und.append((w, "sizes %s / %s" % (size, t[1])))
        if tgt is None:
            self.und.append((w, "read target"))
            return ("stream",)
        v = t[3]
        if tgt[0] == "dat":
            k = t[2][4:] if t[2].startswith("dat:") else None
            l = tgt[1]
            cur = I.ty_of_loc(st, l)
            if k in ("data", "c_str"):
                I.store(st, l, v)
            elif k is not None:
                I.store(st, l, M.atom(vals_of(k, v)))
            else:
                I.store(st, l, ("bytesof", v))
            I.on_write(st, l, v, n)
        else:
            if t[2] != "var":
                v = ("bytesof", v)
            e = strip_cast(args[0])
            ty = I.ty(e["e"]) if e.get("k") == "un" and e.get("op") == "&" else "?"
            if ty != "?":
                v = I.coerce(v, ty) if not isinstance(v, tuple) else v
            I.store(st, tgt, v)
            I.on_write(st, tgt, v, n)
        return ("stream",)

    def fork(self, I, st, c):
        q = st.q
        while q and q[0][0] == "loop" and not q[0][2]:
            q = q[1:]
        if q and q[0][0] == "br":
            if q[0][1] == c:
                return q[0][2] + q[1:], q[0][3] + q[1:], None
            if q[0][1] == b_not(c):
                return q[0][3] + q[1:], q[0][2] + q[1:], None
        return st.q, st.q, None

    def joinq(self, c, a, b):
        if a == b:
            return a
        # common tail
        n = 0
        while n < len(a) and n < len(b) and a[len(a) - 1 - n] == b[len(b) - 1 - n]:
            n += 1
        tail = a[len(a) - n:] if n else ()
        return (("br", c, a[:len(a) - n], b[:len(b) - n]),) + tail

    def loop_enter(self, I, a, iv):
        q = a.q
        while q and q[0][0] == "loop" and not q[0][2]:
            q = q[1:]
        a.q = q
        if q and q[0][0] == "loop" and iv is not None:
            ivw = q[0][1]
            if ivw[2] == iv[2] and size_eq(ivw[3], iv[3]) is True:
                body = subst_toks(q[0][2], ivw, iv)
                a.q = body + (("endloop", iv),) + q[1:]

    def loop_exit(self, I, st, end, iv):
        if end is None:
            return
        q0 = st.q
        while q0 and q0[0][0] == "loop" and not q0[0][2]:
            q0 = q0[1:]
        e = end.q
        if e == q0:
            return
        i = next((k for k, t in enumerate(e) if t[0] == "endloop" and t[1] == iv), None)
        if i == 0:
            st.q = e[1:]
            return
        if i is not None:
            left = e[:i]
            if q0 and q0[0][0] == "loop" and left == subst_toks(q0[0][2], q0[0][1], iv):
                return                      # this loop reads nothing
            raise Mismatch("a loop reading %s leaves %s of each repetition unread" % (iv_text(iv), describe(left[0])))
        raise Mismatch("a loop over %s reads from %s" % (iv_text(iv), describe(q0[0]) if q0 else "the end of the data"))

    def hooks(self, reader):
        if reader:
            return {"streamcall": self.r_call, "fork": self.fork, "joinq": self.joinq, "loop_enter": self.loop_enter, "loop_exit": self.loop_exit}
        return {"streamcall": self.w_call}


def iv_text(iv):
    return "%s repetitions" % (iv[3],) if iv else "an unknown number of repetitions"


def describe(t):
    if t[0] == "wire":
        return "the value %s written at %s" % (show(t[3])[:120], t[4])
    if t[0] == "loop":
        return "%s repetitions of %s" % (t[1][3], describe(t[2][0]) if t[2] else "nothing")
    if t[0] == "br":
        return "a conditional value (%s)" % (show(t[1])[:80],)
    return str(t[0])


def subst_toks(toks, ivw, iv):
    if ivw == iv:
        return toks
    f = lambda y: P.atom(iv) if y == ivw else None
    out = []
    for t in toks:
        if t[0] == "wire":
            out.append(("wire", subst(t[1], f), t[2], subst(t[3], f), t[4]))
        elif t[0] == "loop":
            out.append(("loop", sub_iv(t[1], f), subst_toks(t[2], ivw, iv)))
        elif t[0] == "br":
            out.append(("br", subst(t[1], f), subst_toks(t[2], ivw, iv), subst_toks(t[3], ivw, iv)))
        else:
            out.append(t)
    return tuple(out)


def sub_iv(iv, f):
    return (iv[0], iv[1], subst(iv[2], f), subst(iv[3], f)) + tuple(iv[4:])


def tokens(ev):
    """the part of an event trace that reaches the stream"""
    out = []
    for e in ev:
        if e[0] == "wire":
            out.append(e)
        elif e[0] == "loop":
            b = tokens(e[2])
            if b:
                out.append(("loop", e[1], b))
        elif e[0] == "br":
            a, b = tokens(e[2]), tokens(e[3])
            if a == b:
                out += a
            elif a or b:
                out.append(("br", e[1], a, b))
        elif e[0] == "call" and "serialize" in e[1]:
            out.append(("opaque", e[1], e[5]))
    return tuple(out)


# ------------------------------------------------------------------ pairs of writers and readers
def is_w(fn):
    return not fn.dep and any("std::basic_ostream<" in fn.ptype(i) and "&" in fn.ptype(i) for i in range(len(fn.params)))


def is_r(fn):
    return not fn.dep and any("std::basic_istream<" in fn.ptype(i) and "&" in fn.ptype(i) for i in range(len(fn.params)))


UP = "std::unique_ptr<"


def up_arg(t):
    t = base_type(t)
    if not t.startswith(UP):
        return None
    s, d = t[len(UP):], 0
    for i, ch in enumerate(s):
        if ch == "<":
            d += 1
        elif ch == ">":
            if d == 0:
                return s[:i].strip()
            d -= 1
        elif ch == "," and d == 0:
            return s[:i].strip()
    return None


def vec_arg(t):
    t = base_type(t)
    if not t.startswith("std::vector<"):
        return None
    s, d = t[len("std::vector<"):], 0
    for i, ch in enumerate(s):
        if ch in "<":
            d += 1
        elif ch == ">":
            if d == 0:
                return s[:i].strip()
            d -= 1
        elif ch == "," and d == 0:
            return s[:i].strip()
    return None


class Scenario:
    """which concrete class stands behind each polymorphic base, and which pointers are null"""
    def __init__(self, m, choice=None, null=()):
        self.m, self.choice, self.null = m, dict(choice or {}), set(null)
        self.asked, self.ptrs = {}, []
        self.inner = {}       # class of objects owned by polymorphic objects

    def oracle(self, b, loc):
        if b not in self.asked:
            self.asked[b] = list(self.m.concrete(b))
        if self.nested(loc):
            leaf = [c for c in self.asked[b] if not any(up_arg(f["t"]) for f in self.m.fields(c))]
            pick = self.inner.get(b) or (leaf or self.asked[b] or [None])[0]
            return pick
        c = self.choice.get(b)
        if c is None and self.asked[b]:
            c = self.choice[b] = self.asked[b][0]
        return c

    def nested(self, loc):
        n = 0
        while loc is not None:
            n += loc[0] == "deref"
            loc = parent(loc)
        return n > 1

    def class_at(self, b, loc):
        if not self.m.recs.get(b, {}).get("poly"):
            return b
        return self.oracle(b, loc)

    def nonnull(self, v):
        if v[1] not in self.ptrs:
            self.ptrs.append(v[1])
        return v[1] not in self.null


class Side(Interp):
    """interpreter for one side; non-constant globals of the reading side start out unrelated to the saved ones"""
    fresh = None
    keep = ()
    maxrec = 4

    def initial(self, p, t):
        if self.fresh is not None:
            root = re.split(r"[.\[]", p.replace("::", "\0"), 1)[0].replace("\0", "::")
            if root not in self.keep:
                p = self.fresh + p
        return _Base_initial(self, p, t)


_Base_initial = Interp.initial


def consts(m):
    out = set()
    for (u, file), g in m.globals.items():
        if str(g.get("t", "")).startswith("const ") or g.get("const"):
            out.add(g.get("q") or g.get("n"))
    return out


def write_side(m, fn, this, cls, sc):
    W = Wire()
    I = Side(m, hooks=dict(W.hooks(False), nonnull=sc.nonnull), oracle=sc.oracle)
    I.generic = True
    v, s = I.run(fn, this=this, thiscls=cls)
    return I, W, s


def read_side(m, fn, this, cls, toks, sc):
    R = Wire()
    J = Side(m, hooks=dict(R.hooks(True), nonnull=sc.nonnull), oracle=sc.oracle)
    J.generic = True
    J.fresh, J.keep = "new:", consts(m)
    v, s = J.run(fn, this=this, thiscls=cls, st=State(q=toks))
    return J, R, v, s


def same_value(v, w):
    try:
        return eqd(v, w) is True
    except Exception:
        return False


def single_valued(m, owner, member, t, skip):
    """a by-value member of class type that only ever holds the value its default constructor gives it: no constructor of the owner passes
    it arguments, its class has no data written outside its constructors (other than skipped bookkeeping), and nobody assigns or swaps such objects"""
    c = base_type(t)
    if c not in m.recs:
        return False
    key = ("single", owner, member)
    memo = m.__dict__.setdefault("_single", {})
    if key not in memo:
        memo[key] = _single(m, owner, member, c, skip)
    return memo[key]


def _single(m, owner, member, c, skip):
    data = [f["n"] for f in m.fields(c) if (c, f["n"]) not in skip]
    if not all(base_type(f["t"]) in ("bool", "double", "int", "unsigned int") for f in m.fields(c) if f["n"] in data):
        return False
    mutable = set()
    for fn in m.fns.values():
        if fn.cls == owner and fn.ctor and any(i.get("field") == member and i.get("written") for i in fn.inits):
            return False
        for n in walk(fn.body):
            f = n.get("f")
            if isinstance(f, dict) and (f.get("q") == c + "::operator=" or f.get("n") == "swap" and (c + " &") in str(f.get("sig", f.get("u", "")))):
                return False
            if n.get("k") == "asg" and n["a"].get("k") == "mem" and n["a"].get("cls") == c or n.get("k") == "un" and n.get("op") in ("++", "--", "&") and n["e"].get("k") == "mem" and n["e"].get("cls") == c:
                mutable.add((n.get("a") or n.get("e"))["n"])
    # a non-constant reference to a field escaping through a call would be seen as an argument of reference type
    for fn in m.fns.values():
        if fn.cls != c or fn.const or fn.ctor:
            continue
        for n in walk(fn.body):
            for a in n.get("args", []) if isinstance(n.get("args"), list) else []:
                if isinstance(a, dict) and a.get("k") == "mem" and a.get("cls") == c and a.get("n") in data:
                    mutable.add(a["n"])
    return not mutable & set(data)


class Compare:
    def __init__(self, m, I, J, s, sc):
        self.m, self.I, self.J, self.s, self.sc = m, I, J, s, sc
        self.out = []         # (path, True/False/None, detail)
        self.depth = 0
        self.skip = set()
        self.skip_types = ()

    def add(self, p, ok, detail=""):
        self.out.append((p, ok, detail))

    def obj(self, new, old, cls, name):
        """fields of class cls at the two locations"""
        fs = self.m.fields(cls)
        for f in fs:
            if (cls, f["n"]) in self.skip:
                continue
            if single_valued(self.m, f.get("cls", cls), f["n"], f["t"], self.skip):
                self.add("%s.%s" % (name, f["n"]), True)
                continue
            self.loc(("fld", new, f["n"]), ("fld", old, f["n"]), f["t"], "%s.%s" % (name, f["n"]))

    def loc(self, new, old, t, name):
        b = base_type(t)
        o0 = State()
        if b in self.skip_types:
            return
        if b in self.m.recs:
            base = self.s.store.get(new)
            if base is not None and base == self.I.load(o0, old, t):
                return self.add(name, True)
            return self.obj(new, old, b, name)
        up = up_arg(b)
        if up is not None:
            v = self.J.load(self.s, new, t)
            return self.ptr(v, old, up, name)
        va = vec_arg(b)
        if va is not None and (va in self.m.recs or up_arg(va) or va == "bool" or va.startswith("std::")):
            return self.vec(new, old, t, va, name)
        if b.startswith("std::shared_ptr"):
            return
        if b.startswith("std::map<"):
            return self.map(new, old, t, name)
        v = self.J.load(self.s, new, t)
        w = self.I.load(o0, old, t)
        self.val(v, w, name)

    def val(self, v, w, name):
        if v == w or same_value(v, w):
            return self.add(name, True)
        if has_unk(v) or inexact(v):
            return self.add(name, None, "restored value not resolved: %s" % show(v)[:200])
        self.add(name, False, "restored as %s, saved from %s" % (show(v)[:300], show(w)[:200]))

    def ptr(self, v, old, base, name):
        want = self.sc.class_at(base, ("deref", old))
        isnull = path(old) in self.sc.null
        if v == ("null",):
            return self.add(name, True if isnull else False, "restored as a null pointer")
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "ptr":
            if isnull:
                return self.add(name, False, "a null pointer is restored as an object")
            got = self.J.dyncls.get(v[1])
            if got is None or want is None:
                return self.add(name, None, "class of the restored object not resolved")
            if got != want:
                return self.add(name, False, "a %s is restored as a %s" % (want, got))
            self.add(name + " class", True)
            return self.obj(v[1], ("deref", old), want, name)
        if isinstance(v, tuple) and v and v[0] == "in":
            return self.add(name, False, "not restored (keeps %s)" % v[1])
        self.add(name, None, "restored value not resolved: %s" % show(v)[:200])

    def vec(self, new, old, t, et, name):
        J, s = self.J, self.s
        v = J.load(s, new, t)
        w = self.I.load(State(), old, t)
        if v == w:
            return self.add(name, True)
        if isinstance(v, tuple) and v and v[0] == "in":
            return self.add(name, False, "not restored (keeps %s)" % v[1])
        n = self.I.size_of(w)
        k = J.size_of(v)
        if k != n:
            return self.add(name, None if has_unk(k) or inexact(k) else False, "restored with %s elements, saved with %s" % (k, n))
        iv = ("iv", 0, ZERO, n)
        if isinstance(v, tuple) and v[0] == "seq" and v[1] == ("empty",) and len(v[2]) == 1 and v[2][0][0] == "rep":
            iv2, e = v[2][0][1], v[2][0][2]
            if iv2[2] != ZERO or iv2[3] != n:
                return self.add(name, None, "repetition %s" % (iv2,))
            tmp = ("tmp", "cmp" + name)
            J.store(s, tmp, e)
            return self.elem(tmp, ("idx", old, P.atom(iv2)), et, name + "[]")
        ks = [x for x in s.store if x[0] == "idx" and x[1] == new]
        if len(ks) == 1 and isinstance(ks[0][2], P):
            a = ks[0][2].as_atom()
            if isinstance(a, tuple) and a[0] == "iv" and a[2] == ZERO and a[3] == n:
                return self.elem(ks[0], ("idx", old, P.atom(a)), et, name + "[]")
            d = ks[0][2]
        self.add(name, None, "restored value not resolved: %s" % show(v)[:200])

    def map(self, new, old, t, name):
        v = self.J.load(self.s, new, t)
        w = self.I.load(State(), old, t)
        if v == w:
            return self.add(name, True)
        if isinstance(v, tuple) and v and v[0] == "in":
            return self.add(name, False, "not restored (keeps %s)" % v[1])
        if isinstance(v, tuple) and v[0] == "seq" and v[1] == ("empty",) and len(v[2]) == 1 and v[2][0][0] == "rep":
            iv, e = v[2][0][1], v[2][0][2]
            n = self.I.size_of(w)
            if iv[2] != ZERO or iv[3] != n:
                return self.add(name, None if has_unk(iv[3]) else False, "restored with %s entries, saved with %s" % (iv[3], n))
            el = ("idx", old, P.atom(iv))
            return self.kv(e, el, name + "[]")
        self.add(name, None, "restored value not resolved: %s" % show(v)[:200])

    def kv(self, e, old, name):
        if isinstance(e, tuple) and e and e[0] == "kv":
            self.kv(e[1], ("fld", old, "first"), name + ".first")
            self.kv(e[2], ("fld", old, "second"), name + ".second")
            return
        p = path(old)
        for t in ("double", "bool", "?", "Eigen::Matrix<double, -1, 1>", "Eigen::Matrix<double, 2, 1>", "Eigen::Matrix<double, 3, 1>"):
            w = self.I.load(State(), old, t)
            if e == w:
                return self.add(name, True)
        self.val(e, self.I.load(State(), old, "?"), name)

    def elem(self, new, old, et, name):
        self.loc(new, old, et, name)
