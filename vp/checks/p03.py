"""P03: copies, duplicates and exchanges of simulation objects are complete and independent."""
from ..model import models, model
from ..ai import State, Undecided, base_type
from ..alg import *
from ..report import Report
from ..wire import Side, same_value, up_arg, vec_arg, single_valued
from .. import par

RULE = ("every duplicating function, copy constructor, copy assignment, move and exchange written in the code is evaluated on a symbolic object; each data member of "
        "the result must carry the value number of the same member of the original, owned members must be duplicates of the original's, of the original's class")

THIS = ("obj", "this")


def plain(t):
    return base_type(t.replace("&&", "").replace("&", "").strip())


def single_arg(fn):
    return len(fn.params) == 1 and fn.cls is not None and plain(fn.types[fn.params[0]["t"]]).split("<")[0] == fn.cls


def items(m):
    out = []
    for fn in m.fns.values():
        if fn.dep or fn.d["fn"].get("defaulted") or fn.body is None and not fn.ctor:
            continue
        n = fn.q.split("::")[-1]
        ts = [fn.types[p["t"]] for p in fn.params]
        if n == "clone" and fn.cls and not fn.params:
            out.append(("clone", fn))
        elif (n == "operator=" or fn.ctor) and single_arg(fn) and "&" in ts[0] and fn.params[0]["n"]:
            out.append((("move" if "&&" in ts[0] else "copy") + (" construction" if fn.ctor else " assignment"), fn))
        elif n == "swap" and len(ts) == 2 and ts[0] == ts[1] and plain(ts[0]) in m.recs:
            out.append(("swap", fn))
    return out


class Cmp:
    """is what lies at `new` in state s what lay at `old` before"""

    def __init__(self, m, J, s, deep=False):
        self.m, self.J, self.s = m, J, s
        self.I = Side(m)
        self.I.generic = True
        self.out = []
        self.deep = deep

    def add(self, p, ok, d=""):
        self.out.append((p, ok, d))

    def obj(self, new, old, cls, name):
        for f in self.m.fields(cls):
            self.loc(("fld", new, f["n"]), ("fld", old, f["n"]), f["t"], "%s.%s" % (name, f["n"]))

    def loc(self, new, old, t, name):
        b = base_type(t)
        if b in self.m.recs:
            base = self.s.store.get(new)
            if base is not None and base == self.I.load(State(), old, t):
                return self.add(name, True)
            return self.obj(new, old, b, name)
        if up_arg(b) is not None:
            return self.owned(self.J.load(self.s, new, t), old, up_arg(b), name)
        va = vec_arg(b)
        if va is not None and up_arg(va) is not None:
            return self.owners(new, old, t, va, name)
        v, w = self.J.load(self.s, new, t), self.I.load(State(), old, t)
        if self.deep and ("shared_ptr<" in b or b.endswith("*")) and "const " not in b and v == w:
            return self.add(name, False, "is shared with the original")
        self.val(v, w, name)

    def val(self, v, w, name):
        v = unwrap(v)
        if v == w or same_value(v, w):
            return self.add(name, True)
        if unset(v):
            return self.add(name, False, "is never set")
        if has_unk(v) or inexact(v) or isinstance(v, tuple) and v and v[0] in ("mut", "unk"):
            return self.add(name, None, "not resolved: %s" % show(v)[:200])
        self.add(name, False, "is %s, not %s" % (text(v), text(w)))

    def moved(self, v, old, t):
        return unwrap(v) == self.I.load(State(), old, t)

    def owned(self, v, old, base, name):
        v = unwrap(v)
        if isinstance(v, tuple) and v and v[0] == "cloneof":
            src = strip(v[1])
            return self.add(name, src == old, "" if src == old else "duplicates %s" % self.J_path(src))
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "ptr":
            got = self.J.dyncls.get(v[1])
            if got is None:
                return self.add(name, None, "class not resolved")
            return self.add(name, False, "is always a new %s" % got)
        if v == ("null",):
            return self.add(name, False, "is left empty")
        if v == self.I.load(State(), old, "std::unique_ptr<%s>" % base):
            return self.add(name, True)           # taken over
        if isinstance(v, tuple) and v and v[0] == "in":
            return self.add(name, False, "is %s" % v[1])
        self.add(name, None, "not resolved: %s" % str(v)[:200])

    def J_path(self, l):
        from ..ai import path
        try:
            return path(l)
        except Exception:
            return str(l)

    def owners(self, new, old, t, va, name):
        J, s = self.J, self.s
        v = unwrap(J.load(s, new, t))
        w = self.I.load(State(), old, t)
        if v == w and not any(x[0] == "idx" and x[1] == new for x in s.store):
            return self.add(name, True)           # taken over
        if isinstance(v, tuple) and v and v[0] == "in":
            return self.add(name, False, "is %s" % v[1])
        n = self.I.size_of(w)
        k = J.size_of(v)
        if k != n:
            return self.add(name, None if has_unk(k) or inexact(k) else False, "has %s elements, not %s" % (show(k), show(n)))
        if isinstance(v, tuple) and v[0] == "seq" and v[1] == ("empty",) and len(v[2]) == 1 and v[2][0][0] == "rep":
            iv, e = v[2][0][1], v[2][0][2]
            if iv[2] != ZERO or iv[3] != n:
                return self.add(name, None, "repetition %s" % (iv,))
            return self.owned(e, ("idx", old, P.atom(iv)), up_arg(va), name + "[]")
        ks = [x for x in s.store if x[0] == "idx" and x[1] == new]
        if len(ks) == 1 and isinstance(ks[0][2], P):
            a = ks[0][2].as_atom()
            if isinstance(a, tuple) and a[0] == "iv" and a[3] == n and a[2] == ZERO:
                return self.owned(s.store[ks[0]], ("idx", old, P.atom(a)), up_arg(va), name + "[]")
            if isinstance(a, tuple) and a[0] == "iv":
                return self.add(name, False, "only elements %s to %s are duplicated" % (show(a[2]), show(a[3])))
            return self.add(name, None, "element %s" % show(ks[0][2]))
        if not ks and isinstance(v, tuple) and v[0] == "filled":
            return self.add(name, False, "elements are left empty")
        self.add(name, None, "not resolved: %s" % str(v)[:200])


def unset(v):
    """a value nothing was ever stored in"""
    if isinstance(v, V):
        return all(unset(x) for x in v.e)
    if isinstance(v, P):
        a = v.as_atom()
        while isinstance(a, tuple) and a and a[0] == "el":
            a = a[1]
        return isinstance(a, tuple) and bool(a) and a[0] == "uninit"
    if isinstance(v, M):
        return len(v.t) == 1 and "uninit" in str(v) and not has_in(v)
    return isinstance(v, tuple) and bool(v) and v[0] in ("uninit", "ctorof")


def has_in(v):
    return "('in'" in repr(v)


def text(v):
    try:
        return show(v)[:200]
    except Exception:
        return str(v)[:200]


def unwrap(v):
    """assignment of a library container makes it equal to its argument"""
    while isinstance(v, tuple) and len(v) == 2 and v[0] == "mut" and isinstance(v[1], tuple) and v[1][0] == "call" and v[1][1].split("::")[-1] == "operator=" and v[1][1].startswith("std::") and len(v[1][3]) == 1:
        v = v[1][3][0]
    return v


def strip(l):
    return l[1] if l[0] == "deref" else l


def interp(m):
    def hook(I, st, n, f, obj, args):
        if f["q"].split("::")[-1] == "clone" and obj is not None and not args and m.recs.get(f["q"].rsplit("::", 1)[0], {}).get("poly"):
            return ("cloneof", I.obj_loc(st, obj, n.get("arrow")))
        return None
    def decide(I, st, c):
        if isinstance(c, tuple) and c and c[0] == "not":
            r = decide(I, st, c[1])
            return None if r is None else not r
        if isinstance(c, tuple) and len(c) == 2 and c[0] == "eqt" and all(isinstance(x, tuple) and x[0] == "ptr" for x in c[1]):
            return False        # two different objects
        return None
    J = Side(m, hooks={"call": [hook], "decide": decide})
    J.generic = True
    return J


def analyse(rep, item):
    dom, kind, u = item
    m = model(dom)
    fn = next(f for k, f in items(m) if (k, f.where(), f.q) == (kind, u[0], u[1]))
    where = fn.where()
    lab = "%s/%s" % (dom, fn.cls or plain(fn.types[fn.params[0]["t"]]))
    J = interp(m)
    old = THIS if kind in ("clone",) else ("obj", fn.params[0]["n"])
    try:
        v, s = J.run(fn, this=THIS if fn.cls else None, thiscls=fn.cls, args=[("loc", ("obj", p["n"])) for p in fn.params], st=State())
    except Undecided as e:
        return rep.und("%s: %s" % (lab, kind), where, str(e)[:200])
    rep.saw(J)
    if s is None:
        return rep.bad("%s: %s" % (lab, kind), where, "ends the program")
    C = Cmp(m, J, s, kind == "clone" or kind.startswith("copy"))
    if kind == "clone":
        if isinstance(v, tuple) and v and v[0] == "cloneof":
            return rep.und("%s: duplicate" % lab, where, "delegates to another class")
        if not (isinstance(v, tuple) and len(v) == 2 and v[0] == "ptr"):
            bad = v == ("null",)
            return rep.decide("%s: a duplicate is made" % lab, False if bad else None, where, "result %s" % text(v))
        got = J.dyncls.get(v[1])
        rep.decide("%s: the duplicate is of the same class" % lab, None if got is None else got == fn.cls, where, "it is a %s" % got)
        if got == fn.cls:
            C.obj(v[1], THIS, fn.cls, "duplicate")
    elif kind == "swap":
        a, b = [("obj", p["n"]) for p in fn.params]
        cls = plain(fn.types[fn.params[0]["t"]])
        C.obj(a, b, cls, "first")
        C.obj(b, a, cls, "second")
    else:
        C.obj(THIS, old, fn.cls, kind)
        if kind.startswith("copy"):
            D = Cmp(m, J, s)
            D.obj(old, old, fn.cls, "original after " + kind)
            C.out += D.out
    for p, o, d in C.out:
        rep.decide("%s: %s" % (lab, p), o, where, "%s %s" % (p, d))
    if kind.startswith("move"):
        released(rep, m, fn, J, s, lab, where, kind, old)
    if kind.endswith("assignment"):
        selfie(rep, m, fn, lab, where, kind)


def released(rep, m, fn, J, s, lab, where, kind, old):
    """a handle that its destructor gives back must not stay with the object it was moved from"""
    for f in m.fields(fn.cls):
        b = base_type(f["t"])
        if b in m.recs or b.startswith("std::") or b.startswith("Eigen::"):
            continue
        v, w = J.load(s, ("fld", old, f["n"]), f["t"]), Side(m).load(State(), ("fld", old, f["n"]), f["t"])
        rep.decide("%s: %s gives up the original's %s" % (lab, kind, f["n"]), v != w, where, "both objects hold %s" % text(v))


def selfie(rep, m, fn, lab, where, kind):
    """assigning an object to itself leaves it as it was"""
    J = interp(m)
    try:
        v, s = J.run(fn, this=THIS, thiscls=fn.cls, args=[("loc", THIS)], st=State())
    except Undecided as e:
        return rep.und("%s: self %s" % (lab, kind), where, str(e)[:200])
    if s is None:
        return rep.bad("%s: self %s" % (lab, kind), where, "ends the program")
    C = Cmp(m, J, s)
    C.obj(THIS, THIS, fn.cls, "self " + kind)
    for p, o, d in C.out:
        rep.decide("%s: %s" % (lab, p), o, where, d)


def run(tier):
    rep = Report("P03", RULE, ["library containers, strings and owning pointers copy, move and exchange as the standard says", "copies the compiler generates are memberwise"])
    its, n = [], {}
    for m in models():
        for k, f in items(m):
            its.append((m.domain, k, (f.where(), f.q)))
            n[k] = n.get(k, 0) + 1
    rep.require("duplicating functions", n.get("clone", 0), 3)
    rep.require("copy constructors", n.get("copy construction", 0), 3)
    par.each(rep, its, analyse, budget=200, name=lambda it: "%s/%s %s" % (it[0], it[2][1], it[1]))
    return rep
