"""Interpretation of a driver function with the calls through the simulator's interfaces replaced by named results."""
from .model import *
from .constraints import *
from .ai import State, Undecided, path, base_type, unk
from .aix import Interp, freeze
from .alg import *

VEC = "Eigen::Matrix<double, -1, 1>"


class Api:
    """view of one recorded interface call"""

    def __init__(self, e):
        _, self.name, self.recv, self.args, self.where, self.tag, self.who = e
        self.nm = self.name.split("::")[-1]

    def __repr__(self):
        return "%s(%s)->%s" % (self.name, ", ".join(sh(a) for a in self.args), self.tag)

    def out(self, i, t=None):
        n = "%s.%s" % (self.tag, i)
        return M.atom(("in", n)) if t is None else ("in", n)


def sh(v, n=160):
    try:
        return show(v)[:n]
    except Exception:
        return str(v)[:n]


class Proto:
    def __init__(self, m, apis, decide=None, extra=None, inline=None):
        """apis: set of qualified method names, or a predicate on the function reference"""
        self.m, self.apis, self.cond, self.extra = m, apis, decide, extra or {}
        self.types = {}
        hooks = {"call": [self.hook]}
        if decide:
            hooks["decide"] = self.decide
        self.I = Interp(m, hooks=hooks, inline=inline)
        self.I.generic = True
        self.I.leaves = True

    @property
    def n(self):
        return self.I.tags

    def decide(self, I, st, c):
        return self.cond(self, st, c)

    def who(self, st, recv):
        """value naming the receiver"""
        if recv is None:
            return None
        if recv[0] == "deref":
            v = self.I.load(st, recv[1], "?")
            return v[1] if isinstance(v, tuple) and v and v[0] == "ptr" and len(v) == 2 else ("derefof", v)
        return recv

    def want(self, f):
        return f["q"] in self.apis if not callable(self.apis) else self.apis(f)

    def hook(self, I, st, n, f, obj, args):
        q = f["q"]
        if q in self.extra:
            r = self.extra[q](self, st, n, f, obj, args)
            if r is not None:
                return r
        if not self.want(f):
            return None
        pm = f.get("pm", [])
        vals, locs = [], []
        for i, a in enumerate(args):
            l = I.lval(st, a) if i < len(pm) and pm[i] in ("r", "cr") else None
            v = I.load(st, l, I.ty(a)) if l is not None else I.eval(st, a)
            vals.append(v)
            locs.append(l)
        recv = I.obj_loc(st, obj, n.get("arrow")) if obj is not None else None
        nm = q.split("::")[-1]
        if f.get("const") and not any(x in ("r", "p") for x in pm):
            who = "" if recv is None or recv[0] == "obj" else sh(self.who(st, recv), 300)
            return I.initial("%s(%s)" % (nm, ",".join(([who] if who else []) + [sh(v, 400) for v in vals])), I.ty(n))       # a query: same question, same answer
        k = self.n[nm] = self.n.get(nm, 0) + 1
        tag = "%s@%d" % (nm, k)
        I.born[tag] = st.depth
        self.types[tag] = [I.ty(a) for a in args]
        st.ev.append(("api", q, recv, tuple(freeze(v) for v in vals), I.where(n), tag, self.who(st, recv)))
        for i, l in enumerate(locs):
            if i < len(pm) and pm[i] == "r" and l is not None:
                t = I.ty(args[i])
                if base_type(t) in self.m.recs and l[0] != "var" or "System" in base_type(t):
                    continue            # a system passed along for its callbacks
                I.clear_under(st, l)
                new = self.result(tag, i, t)
                I.store(st, l, new)
                I.on_write(st, l, new, n)
        rt = I.ty(n)
        if base_type(rt) in ("void",):
            return ("void",)
        return I.initial("%s.ret" % tag, rt)

    def result(self, tag, i, t):
        return self.I.initial("%s.%d" % (tag, i), t)

    def run(self, fn, this=("obj", "this"), args=None, st=None):
        a = args or [("loc", ("obj", p["n"] or "arg%d" % i)) for i, p in enumerate(fn.params)]
        self.v, self.s = self.I.run(fn, this=this, thiscls=fn.cls, args=a, st=st or State())
        return self.s


def flat(ev, out=None, ctx=()):
    """recorded calls in program order with the loops and branches around them"""
    out = [] if out is None else out
    for e in ev:
        if e[0] == "api":
            out.append((Api(e), ctx))
        elif e[0] == "loop":
            flat(e[2], out, ctx + (("loop", e[1]),))
        elif e[0] == "br":
            flat(e[2], out, ctx + (("if", e[1]),))
            flat(e[3], out, ctx + (("if", b_not(e[1])),))
    return out


def inp(name, t=VEC):
    if t == VEC or t.startswith("Eigen::"):
        return M.atom(("in", name))
    return P.atom(("in", name))
