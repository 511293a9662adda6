"""P11: one simulation step runs scripts, portals, the contact map and the mass update in order, on the current state."""
from ..model import models
from ..proto import *
from ..ai import State, Undecided, path, base_type
from ..report import Report
from .. import par
from .p10 import tok, tokp, known, entries, atoms_in

RULE = ("every step function of every simulation is interpreted abstractly with scripts, integrators, contact maps and portals replaced by named results; "
        "the sequence of calls, their arguments and the resulting state are compared as value numbers with the definition of a step")
CL = {"PythonScripting", "UnconstrainedMap", "ImpactMap", "ImpactFrictionMap", "PlanarPortal"}
NM = {"updateMandMinv", "treatSimulationBoundary", "startOfStepCallback", "endOfStepCallback"}
T = ("obj", "this")


def want(f):
    return f["q"].split("::")[0] in CL or f["n"] in NM


class Step(Proto):
    def __init__(self, m, cls, fn, portals):
        self.cls = cls
        self.sf, self.st = next((f["n"], base_type(f["t"])) for f in m.fields(cls) if any("PlanarPortal" in g["t"] for g in m.fields(base_type(f["t"]))))
        self.sl = ("fld", T, self.sf)
        self.pl = ("fld", self.sl, next(g["n"] for g in m.fields(self.st) if "PlanarPortal" in g["t"]))
        self.seen = None
        Proto.__init__(self, m, want, extra={})
        st = State()
        st.store[self.pl] = ("empty",) if portals == 0 else ("seq", ("empty",), (("in", "PORTAL"),))
        self.fn = fn
        self.run(fn, st=st)
        self.calls = flat(self.s.ev) if self.s is not None else []

    def hook(self, I, st, n, f, obj, args):
        nm = f["n"]
        if f["q"].split("::")[0] in ("PythonScripting", "ScriptingCallback"):
            if nm == "setState":
                self.seen = I.lval(st, args[0])
                st.ev.append(("api", "script::setState", None, self.qv(I, st), I.where(n), "setState", self.seen))
                return ("void",)
            if nm == "forgetState":
                st.ev.append(("api", "script::forgetState", None, (), I.where(n), "forgetState", None))
                return ("void",)
            if nm in ("startOfStepCallback", "endOfStepCallback"):
                st.ev.append(("api", "script::" + nm, None, tuple(freeze(I.eval(st, a)) for a in args), I.where(n), nm, None))
                for x in ("m_q", "m_v"):            # the script may move scripted bodies
                    l = ("fld", self.sl, x)
                    I.clear_under(st, l)
                    st.store[l] = tok("%s.%s" % (nm, x[2:]))
                return ("void",)
        if nm == "updateMandMinv":
            st.ev.append(("api", "state::updateMandMinv", None, self.qv(I, st), I.where(n), "updateMandMinv", None))
            return ("void",)
        if nm == "treatSimulationBoundary":
            st.ev.append(("api", "sim::" + nm, None, (), I.where(n), nm, None))
            return ("void",)
        return Proto.hook(self, I, st, n, f, obj, args)

    def qv(self, I, st):
        return tuple(freeze(I.load(st, ("fld", self.sl, x), VEC)) for x in ("m_q", "m_v"))


MAPS = {"UnconstrainedMap": dict(q=0, v=1, iteration=3, dt=4, q1=5, v1=6),
        "ImpactMap": dict(script=0, fsys=1, csys=2, umap=3, iop=4, iteration=5, dt=6, CoR=7, q=8, v=9, q1=10, v1=11),
        "ImpactFrictionMap": dict(script=0, fsys=1, csys=2, umap=3, solver=4, iteration=5, dt=6, CoR=7, mu=8, q=9, v=10, q1=11, v1=12)}


def analyse(rep, item):
    dom, cls, k = item
    m = next(x for x in models() if x.domain == dom)
    fn = [f for f in m.by_q[cls + "::flow"] if f.body][k]
    kind = "free" if len(fn.params) <= 4 else "impact" if any("ImpactOperator" in fn.types[p["t"]] for p in fn.params) else "friction"
    lab = "%s/%s (%s)" % (dom, cls, kind)
    where = "%s %s" % (fn.where(), fn.q)
    for portals in (0, 1):
        lb = lab + (", one portal" if portals else ", no portals")
        r = Step(m, cls, fn, portals)
        rep.saw(r.I)
        one(rep, lb, r, where, portals, m)


def one(rep, lb, r, where, portals, m):
    def eq(what, got, exp, w):
        rep.decide("%s: %s" % (lb, what), True if got == exp else None if not known(got) else False, w, "found %s, expected %s" % (sh(got, 300), sh(exp, 300)))

    flows = [(i, c) for i, (c, ctx) in enumerate(r.calls) if c.nm == "flow" and c.name.split("::")[0] in MAPS]
    if len(flows) != 1 or r.calls[flows[0][0]][1]:
        rep.decide("%s: exactly one step is taken" % lb, False if not flows else None, where, "%d map calls" % len(flows))
        return
    at, F = flows[0]
    pos = MAPS[F.name.split("::")[0]]
    seq = [(c.nm, bool(ctx)) for c, ctx in r.calls if c.name.startswith("script::")]
    pre = [c for c, ctx in r.calls[:at] if c.name.startswith("script::") and not ctx]
    post = [c for c, ctx in r.calls[at + 1:] if c.name.startswith("script::") and not ctx]
    rep.decide("%s: the start-of-step script runs once before the step, on the simulation's state" % lb,
               [c.nm for c in pre if c.nm != "forgetState"] == ["setState", "startOfStepCallback"] and pre[0].who == r.sl, where, str([c.nm for c in pre]))
    rep.decide("%s: the end-of-step script runs once after the step, on the simulation's state" % lb,
               [c.nm for c in post if c.nm != "forgetState"] == ["setState", "endOfStepCallback"] and post[0].who == r.sl, where, str([c.nm for c in post]))
    rep.decide("%s: the script lets go of the state after each call" % lb, [c.nm for c in pre][-1:] == ["forgetState"] and [c.nm for c in post][-1:] == ["forgetState"], where, str(seq))
    for c in pre + post:
        if c.nm.endswith("Callback"):
            ok = len(c.args) == 2 and c.args[0] == tokp("iteration") and (c.args[1] == tokp("dt") or c.args[1] == ("in", "dt"))
            rep.decide("%s: the script is told the iteration and time step (%s)" % (lb, c.nm), ok or (None if not known(c.args) else False), c.where, str([sh(a) for a in c.args]))
    eq("the step starts from the configuration after the start-of-step script", F.args[pos["q"]], tok("startOfStepCallback.q"), F.where)
    eq("the step starts from the velocity after the start-of-step script", F.args[pos["v"]], tok("startOfStepCallback.v"), F.where)
    eq("the step is told the iteration", F.args[pos["iteration"]], tokp("iteration"), F.where)
    eq("the step advances by the time step", F.args[pos["dt"]], tokp("dt"), F.where)
    if "CoR" in pos:
        eq("the step uses the given restitution", F.args[pos["CoR"]], tokp("CoR"), F.where)
    if "mu" in pos:
        eq("the step uses the given friction", F.args[pos["mu"]], tokp("mu"), F.where)
    q1, v1 = tok("%s.%d" % (F.tag, pos["q1"])), tok("%s.%d" % (F.tag, pos["v1"]))
    ends = [c for c in post if c.nm == "setState"]
    if not ends:
        return
    qe, ve = ends[0].args
    up = [(i, c) for i, (c, ctx) in enumerate(r.calls) if c.nm == "updateMandMinv" and not ctx]
    if m.method(r.st, "updateMandMinv"):
        last = [c for i, c in up if i > at]
        rep.decide("%s: the mass matrix is brought up to date with the new orientation" % lb, bool(last), where, "no mass update after the step")
        if last:
            g = last[-1].args[0]
            base = g.as_atom() if isinstance(g, M) else None
            b = entries(g)[0] if isinstance(base, tuple) and base and base[0] == "updm" else g
            rep.decide("%s: the mass update sees the new configuration" % lb, b == q1 or (None if not known(g) else False), last[-1].where, sh(g))
    if portals == 0:
        eq("the new configuration is the one the step computed", qe, q1, ends[0].where)
        eq("the new velocity is the one the step computed", ve, v1, ends[0].where)
        return
    # portals move before the step
    mv = [(i, c, ctx) for i, (c, ctx) in enumerate(r.calls) if c.nm == "updateMovingPortals"]
    if m.method("PlanarPortal", "updateMovingPortals"):
        rep.decide("%s: moving portals are advanced before the step" % lb, True if len(mv) == 1 and mv[0][0] < at and not mv[0][2] else False if not mv or all(i > at for i, _, _ in mv) else None, where, "%d updates" % len(mv))
        if len(mv) == 1:
            eq("moving portals are advanced to the end of the step", mv[0][1].args[0], tokp("iteration") * tokp("dt"), mv[0][1].where)
    tele = [(c, ctx) for c, ctx in r.calls[at + 1:] if c.nm == "teleportPointInsidePortal"]
    if len(tele) != 1 or len([x for x in tele[0][1] if x[0] == "loop"]) != 1:
        rep.decide("%s: bodies inside a portal leave it on the other side" % lb, False if not tele else None, where, "%d teleports" % len(tele))
        return
    c, ctx = tele[0]
    iv = [x[1] for x in ctx if x[0] == "loop"][0]
    conds = [x[1] for x in ctx if x[0] == "if"]
    dims = 2 if "2" in r.st.replace("RigidBody2DState", "2").replace("Ball2DState", "2") and "3D" not in r.st else 3
    stride = {"Ball2DState": 2}.get(r.st, 3)
    x = V(dims, 1, [P.atom(("el", ("in", "%s.%d" % (F.tag, pos["q1"])), P.atom(iv) * num(stride) + num(k))) for k in range(dims)])
    rep.decide("%s: every body is tested against the portal" % lb, True if iv[2] == ZERO and contains(iv[3], lambda y: True) and not iv[3].is_const() else None, c.where, sh(iv[3]))
    eq("the position of the body itself is teleported", c.args[0], x, c.where)
    rep.decide("%s: exactly the bodies inside the portal are teleported" % lb,
               True if len(conds) == 1 and is_query(conds[0], "pointInsidePortal", x) else None if not known(conds) or len(conds) != 1 else False, c.where, sh(conds))
    cond = conds[0] if conds else None
    _, en = entries(qe)
    for k in range(dims):
        i = P.atom(iv) * num(stride) + num(k)
        got = (en or {}).get(i)
        exp = phi(cond, P.atom(("el", ("in", "%s.1" % c.tag), num(k))), x.e[k])
        rep.decide("%s: coordinate %d becomes the teleported one" % (lb, k), True if got == exp else None if got is None and not known(qe) or got is not None and not known(got) else False, c.where, "found %s" % sh(got if got is not None else qe, 300))
    for i, g in (en or {}).items():
        if i not in [P.atom(iv) * num(stride) + num(k) for k in range(dims)]:
            rep.decide("%s: teleporting changes nothing else of the configuration (entry %s)" % (lb, sh(i)), None if not known(g) else False, c.where, sh(g))
    # velocity
    if m.method("PlanarPortal", "isLeesEdwards"):
        _, vn = entries(ve)
        for k in range(dims):
            i = P.atom(iv) * num(stride) + num(k)
            old = P.atom(("el", ("in", "%s.%d" % (F.tag, pos["v1"])), i))
            got = (vn or {}).get(i)
            ok = got is not None and lees(got, cond, old, k, x)
            rep.decide("%s: velocity component %d gains the motion of a sheared portal" % (lb, k), True if ok else None if got is None and not known(ve) or got is not None and not known(got) else False, c.where, "found %s" % sh(got if got is not None else ve, 300))
    else:
        eq("teleporting keeps the velocity", ve, v1, c.where)


def is_query(c, nm, x):
    s = sh(c, 2000)
    return nm + "(" in s and not s.startswith("not<") and sh(x, 2000) in s


def lees(got, cond, old, k, x):
    """phi(inside, phi(sheared, old + kick, old), old) in any nesting"""
    def val(g, inside, le):
        while True:
            at = g.as_atom() if isinstance(g, P) else None
            if not (isinstance(at, tuple) and at and at[0] == "phi"):
                return g
            c = at[1]
            t = {True: True, False: False}.get(ev(c, inside, le))
            if t is None:
                return None
            g = at[2] if t else at[3]

    def ev(c, inside, le):
        if c == cond:
            return inside
        if isinstance(c, tuple) and c:
            if c[0] == "not":
                e = ev(c[1], inside, le)
                return None if e is None else not e
            if c[0] in ("and", "or"):
                xs = [ev(y, inside, le) for y in (c[1] if isinstance(c[1], (frozenset, tuple)) and not isinstance(c[1][0] if isinstance(c[1], tuple) and c[1] else None, str) else c[1:])]
                if None in xs:
                    return None
                return all(xs) if c[0] == "and" else any(xs)
            if "isLeesEdwards(" in sh(c, 400):
                return le
        return None
    if val(got, False, False) != old or val(got, False, True) != old:
        return False
    if val(got, True, False) not in (old,):
        d = val(got, True, False)
        if d is None:
            return False
        d = d - old
        if not is_kick(d, k, x):
            return False
    d = val(got, True, True)
    return d is not None and is_kick(d - old, k, x)


def is_kick(d, k, x):
    at = d.as_atom()
    return isinstance(at, tuple) and at[0] == "el" and at[2] == num(k) and isinstance(at[1], tuple) and "getKinematicVelocityOfPoint(" in str(at[1][1]) and sh(x, 2000) in str(at[1][1])


def items():
    out = []
    for m in models():
        for c in m.concrete("ConstrainedSystem"):
            n = len([f for f in m.by_q.get(c + "::flow", []) if f.body])
            out += [(m.domain, c, k) for k in range(n)]
    return out


def run(tier):
    rep = Report("P11", RULE, ["a script changes the state only inside its callbacks"])
    its = items()
    rep.require("step functions", len(its), 9)
    par.each(rep, its, analyse, budget=300, name=lambda it: "%s/%s/%d" % it)
    return rep
