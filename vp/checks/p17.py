"""P17: a run writes every due output once, under its own number, and a failure ends it as a failure."""
from ..model import models
from ..proto import *
from ..ai import State, base_type
from ..report import Report
from .. import par
import re

RULE = ("the drivers of every command-line application are interpreted abstractly once per combination of options and outcomes (which parts the scene has, whether this step is due, "
        "whether an output fails); the sequence of steps, files and values written, the counters left behind and the status returned are compared as value numbers with the definition of a run")

TIME, LATER = "le<(g_end_time - g_iteration*g_dt)>", "lt<(-g_end_time + g_iteration*g_dt)>"
IT, NX, FR, PF = "(g_iteration)", "(1 + g_iteration)", "(g_output_frame)", "(-1 + g_output_frame)"
RATE = ("(g_dt.m_denominator)",)


def want(f):
    q, n = f["q"], f["n"]
    return q.split("::")[0] in ("PythonScripting", "ScriptingCallback") or n == "parseXMLSceneFile" or q.endswith("Sim::flow") or q.split("::")[0] == "HDF5File" or n in ("writeBinaryState", "exportForcesNextStep", "writeSolution", "serialize")


class Run(Proto):
    """one driver function under one combination of options and outcomes"""

    def __init__(self, m, fn, sc, apis=(), fail=(), options=None):
        self.options = options
        self.sc, self.apis_, self.fail = sc, set(apis), set(fail)
        self.unknown, self.texts, self.tries, self.time = [], {}, 0, []
        Proto.__init__(self, m, lambda f: f.get("u") in self.apis_ or want(f), decide=lambda p, st, c: self.truth(c, True))
        self.I.hooks["stream"] = self.stream
        self.I.hooks["streamcall"] = self.streamcall
        self.I.hooks["throws"] = self.throws
        self.I.hooks["short"] = self.truth
        if isinstance(fn, str):
            fn = next(f for f in m.fns.values() if f.name == fn and "cli" in f.file)
        self.run(fn)
        self.calls, self.cond = [], False
        if self.s is not None:
            for a, ctx in flat(self.s.ev):
                self.calls.append(a)
                self.cond_ = bool(ctx)
                self.cond = self.cond or bool(ctx)

    # -- text streams -----------------------------------------------------------------------------------------------------
    def stream(self, I, st, n, op, a):
        chain, x = [], n
        while isinstance(x, dict) and x.get("k") == "opcall" and x["f"]["n"] == "operator<<":
            chain.insert(0, x["args"][1])
            x = x["args"][0]
        if not isinstance(x, dict) or "stringstream" not in I.ty(x):
            return None
        l = I.lval(st, x)
        t = st.store.get(("txt", l), ())
        for c in chain:
            try:
                t = t + (freeze(I.eval(st, c)),)
            except KeyError:
                pass
        st.store[("txt", l)] = t
        return ("stream",)

    def streamcall(self, I, st, n, name, args):
        o = n.get("obj")
        if name == "str" and not args and isinstance(o, dict):
            l = I.lval(st, o)
            if ("txt", l) in st.store:
                return ("text",) + tuple(st.store[("txt", l)])
        if name in ("is_open", "good", "operator bool", "fail", "operator!"):
            v = self.sc.get("open", True)
            return v if name not in ("fail", "operator!") else not v
        return None

    def throws(self, I, st, s):
        self.tries += 1
        return self.sc.get("throw") == self.tries

    # -- interface calls --------------------------------------------------------------------------------------------------
    def hook(self, I, st, n, f, obj, args):
        if f["q"].split("::")[0] == "HDF5File" and f["n"] in ("write", "writeString", "writeMatrix"):
            st.ev.append(("api", f["q"], I.obj_loc(st, obj, n.get("arrow")), tuple(freeze(I.eval(st, a)) for a in args), I.where(n), "write", None))
            return ("void",)
        if f["n"] == "simplify" and f["q"].startswith("Rational"):
            return ("void",)  # the same number
        if self.options is not None and (f["q"].split("::")[0] in ("PythonTools", "PythonScripting", "MathUtilities") or f["n"].startswith("Py") or f["n"] in ("computeNumberOfCollisions", "atexit")):
            return ("void",)
        if f["q"].split("::")[0] == "HDF5File" and f["n"] == "is_open":
            l = I.obj_loc(st, obj, n.get("arrow"))
            return any(a.nm == "open" and a.recv == l for a, c in flat(st.ev))
        if f.get("u") in self.apis_:
            nm = f["n"]
            st.ev.append(("api", f["q"], None, tuple(freeze(I.eval(st, a)) if not self.outp(f, i) else ("in", "arg%d" % i) for i, a in enumerate(args)), I.where(n), nm, None))
            if self.options is not None and f.get("u") == self.options.usr:
                for i, a in enumerate(args):
                    k = base_type(I.ty(a))
                    if self.outp(f, i) and "*" not in k:
                        k = "string" if "string" in k else k
                        I.store(st, I.lval(st, a), self.sc["help"] if k == "bool" else ("in", "opt." + k) if k == "string" else P.atom(("in", "opt." + k.split()[0])))
            t = base_type(I.ty(n))
            if t == "bool":
                return nm not in self.fail
            if t == "int":
                return num(1 if nm in self.fail else 0)
            return None if t != "void" else ("void",)
        return Proto.hook(self, I, st, n, f, obj, args)

    def outp(self, f, i):
        pm = f.get("pm", [])
        return i < len(pm) and pm[i] in ("r", "p")

    # -- outcomes ---------------------------------------------------------------------------------------------------------
    def truth(self, c, top=False):
        r = self.truth_(c)
        if r is None and top:
            self.unknown.append(c)
        return r

    def truth_(self, c):
        if isinstance(c, bool):
            return c
        if isinstance(c, tuple) and c:
            if c[0] == "not":
                r = self.truth(c[1])
                return None if r is None else not r
            if c[0] in ("and", "or"):
                rs = [self.truth(x) for x in (c[1] if isinstance(c[1], (frozenset, set, tuple, list)) else c[1:])]
                if any(r is (c[0] == "or") for r in rs):
                    return c[0] == "or"
                return None if any(r is None for r in rs) else c[0] == "and"
        return self.atom(sh(c, 400))

    def atom(self, s):
        g = self.sc
        table = {"bool<g_output_forces>": g.get("forces"), "bool<g_serialize_snapshots>": g.get("snaps"), "bool<g_overwrite_snapshots>": g.get("over"),
                 "eq0<(mod<(g_iteration), (g_steps_per_save)>)>": g.get("due0"), "eq0<(mod<(1 + g_iteration), (g_steps_per_save)>)>": g.get("due1")}
        if s in table:
            return table[s]
        if s in ("eq0<(g_iteration)>", "eq0<(g_output_frame)>") and "first" in g:
            return g["first"]
        if s in ("lt<(-g_iteration)>", "lt<(-g_output_frame)>") and "first" in g:
            return not g["first"]
        if s.startswith("bool<parseXMLSceneFile@"):
            return g.get("parsed")
        if "g_end_time" in s and g.get("over_") is not None:
            if s not in self.time:
                self.time.append(s)
            if s == TIME:
                return g["over_"]
            if s == LATER:
                return not g["over_"]
            return g["over_"] if s.startswith("le<(g_end_time") or s.startswith("lt<(g_end_time") else not g["over_"]
        if self.options is not None:
            if s == "eq0<(size<opt.string>)>":
                return not g["resume"]
            if s in ("eq0<(1 - argc + optind)>", "eq0<(-1 + argc - optind)>"):
                return g["args"]
            if s in ("lt<(-opt.double)>", "le<(-opt.double)>"):
                return g["end"]
            if s in ("lt<(opt.double)>", "le<(opt.double)>"):
                return not g["end"]
            if s in ("eq0<(opt.unsigned)>", "le<(opt.unsigned)>"):
                return not g["freq"]
            if "lim<double, infinity>" in s and s.startswith("eq0<"):
                return g.get("forever", False)
            if re.match(r"^eq0<\(-?1 [-+] (opt.unsigned|g_dt.m_\w+)(\*(opt.unsigned|g_dt.m_\w+))*\)>$", s):
                return g["whole"]
            if s == "lt<(-opt.unsigned)>":
                return g["freq"]
        if s == "eq0<(size<g_output_dir_name>)>":
            return None if g.get("dir") is None else not g["dir"]
        mode = g.get("mode")
        if mode is not None and s.startswith("eqt<") and "null<>" in s:
            have = {"none": (), "free": ("unconstrained_map",), "impact": ("unconstrained_map", "impact_operator", "impact_map"), "friction": ("unconstrained_map", "friction_solver", "impact_friction_map")}[mode]
            for x in ("unconstrained_map", "impact_operator", "friction_solver", "impact_friction_map", "impact_map"):
                if "g_" + x + "," in s or "g_" + x + "}" in s:
                    return x not in have
        return None


# -- finding the driver functions by what they do -------------------------------------------------------------------------------
def nodes(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from nodes(v)
    elif isinstance(n, list):
        for v in n:
            yield from nodes(v)


class Drivers:
    def __init__(self, m):
        self.m = m
        self.fns = {f.usr: f for f in m.fns.values() if "cli/" in f.file and f.body is not None}
        self.direct = {u: [n["f"] for n in nodes(f.body) if isinstance(n.get("f"), dict)] for u, f in self.fns.items()}
        self.main = next((f for f in self.fns.values() if f.name == "main"), None)

    def reach(self, u, seen=None):
        seen = set() if seen is None else seen
        if u in seen or u not in self.fns:
            return seen
        seen.add(u)
        for g in self.direct[u]:
            self.reach(g.get("u"), seen)
        return seen

    def does(self, u, pred):
        return any(pred(g) for v in self.reach(u) for g in self.direct[v])

    def callees(self, u):
        return [g["u"] for g in self.direct[u] if g.get("u") in self.fns]

    def find(self):
        """(loop, step, export, load, resume, options), each a function or None"""
        flow = lambda g: g["q"].endswith("Sim::flow")
        has = lambda u, p: self.does(u, p)
        mains = self.callees(self.main.usr)
        loop = next((u for u in mains if has(u, flow)), None)
        while loop is not None and not any(n.get("k") in ("while", "for", "do") for n in nodes(self.fns[loop].body)):
            loop = next((u for u in self.callees(loop) if has(u, flow)), None)
        step = next((u for u in self.callees(loop) if has(u, flow)), None) if loop else None
        export = next((u for u in self.callees(loop) if u != step and has(u, lambda g: g["n"] == "writeBinaryState" or g["n"] == "serialize")), None) if loop else None
        load = next((u for u in mains if has(u, lambda g: g["n"] == "parseXMLSceneFile")), None)
        resume = next((u for u in mains if u != loop and has(u, lambda g: g["n"].startswith("deserialize"))), None)
        options = next((u for u in mains if has(u, lambda g: g["n"] in ("getopt_long", "getopt"))), None)
        return [self.fns.get(u) for u in (loop, step, export, load, resume, options)]


def unrolled(fn):
    """the function with its loop replaced by one turn of it: falling off the end stands for the next turn"""
    import copy
    g = copy.copy(fn)
    out = []
    ss = fn.body["s"]
    for i, s in enumerate(ss):
        if s.get("k") in ("while", "for"):
            if isinstance(s.get("init"), dict) and s["init"].get("k"):
                out.append(s["init"])
            body = [s["body"]] + ([{"k": "expr", "x": s["inc"], "l": s.get("l")}] if isinstance(s.get("inc"), dict) else [])
            if not isinstance(s.get("c"), dict) or s["c"].get("k") == "bool":
                out += body
            else:
                out.append({"k": "if", "c": s["c"], "a": {"k": "block", "s": body}, "b": {"k": "block", "s": ss[i + 1:]}, "l": s.get("l")})
            g.body = dict(fn.body, s=out)
            return g
        out.append(s)
    return None


# -- obligations ----------------------------------------------------------------------------------------------------------------
def ids(x):
    """variable a value or location was built in"""
    m = re.search(r"\('?var'?, (\d+), (\d+)\)|var<(\d+), (\d+)>", str(x) if not isinstance(x, str) else x)
    return tuple(g for g in m.groups() if g) if m else None


def words(t):
    return "".join(x for x in t[1:] if isinstance(x, str)) if isinstance(t, tuple) and t and t[0] == "text" else None


def numbers(t):
    return [sh(x, 100) for x in t[1:] if isinstance(x, P)] if isinstance(t, tuple) and t and t[0] == "text" else None


def stem(t):
    """prefix of a generated name"""
    out = []
    for x in t[1:]:
        if isinstance(x, tuple) and x and x[0] == "s":
            x = x[1]
        if isinstance(x, str):
            out.append(x)
        elif isinstance(x, P):
            break
    return "".join(out)


class Story:
    """what one turn wrote, in order: [(kind, ...)]"""

    def __init__(self, r):
        self.items, cur = [], None
        for a in r.calls:
            if a.nm == "open":
                cur = ["file", a.args[0], {}, a.where, ids(sh(a.who, 100)), []]
                self.items.append(cur)
            elif a.nm == "write" and cur is not None:
                k = a.args[0][1] if isinstance(a.args[0], tuple) else a.args[0]
                cur[2][str(k)] = sh(a.args[1], 200)
            elif a.nm == "serialize":
                if not self.items or self.items[-1][0] != "snap":
                    self.items.append(["snap", a.args[1] if len(a.args) > 1 else None, [], a.where])
                self.items[-1][2].append(sh(a.args[0], 200) if a.recv is None else "recv " + sh(a.who, 100))
            else:
                self.items.append([a.nm, a])

    def kinds(self):
        return [x[0] for x in self.items]


def final(r, g, d):
    v = r.s.store.get(("glob", g))
    return d if v is None else sh(settle(r, v), 200)


def settle(r, v):
    """a choice between values, made by what the scenario says"""
    if isinstance(v, P):
        v2 = unphi(v)
        if v2 is not None:
            v = v2
    while isinstance(v, tuple) and v and v[0] == "phi":
        b = r.truth(v[1])
        if b is None:
            break
        v = v[2] if b else v[3]
        if isinstance(v, P):
            v = unphi(v) or v
    return v


def unphi(p):
    a = p.as_atom()
    return a if isinstance(a, tuple) and a and a[0] == "phi" else None


def fname(r, t):
    """name of a file with the choice between fixed and numbered resolved"""
    if isinstance(t, tuple) and t and t[0] == "ctorof":
        t = t[2] if len(t) > 2 else None
        while isinstance(t, tuple) and t and t[0] not in ("text", "phi") and len(t) == 1:
            t = t[0]
    if isinstance(t, tuple) and t and t[0] == "phi":
        b = r.truth(t[1])
        t = t[2] if b else t[3] if b is False else None
    return t


def scenarios():
    for mode in ("none", "free", "impact", "friction"):
        for forces, dr in ((False, False), (False, True), (True, True)):
            for due0 in (False, True):
                for due1 in (False, True):
                    for snaps, over in ((False, False), (True, True), (True, False)):
                        yield dict(mode=mode, forces=forces, dir=dr, due0=due0, due1=due1, snaps=snaps, over=over)


def label(sc):
    return "%s%s%s%s%s" % ({"none": "nothing to simulate", "free": "no contacts", "impact": "impacts", "friction": "friction"}[sc["mode"]],
                           ", forces" + (" due" if sc["due0"] else "") if sc["forces"] else "", ", output due" if sc["due1"] else "", " to a directory" if sc["dir"] else "",
                           (", one snapshot" if sc["over"] else ", snapshots") if sc["snaps"] else "")


def step_rules(rep, m, step, w):
    D = m.domain
    for sc in scenarios():
        r = Run(m, step, dict(sc, open=True))
        L = "%s step (%s)" % (D, label(sc))
        if r.s is None or r.unknown or r.cond:
            rep.und(L, w, "depends on %s" % "; ".join(sh(c, 160) for c in r.unknown[:2]))
            continue
        s = Story(r)
        ff = sc["forces"] and sc["due0"]
        want = (["file"] if ff else []) + {"none": [], "free": ["flow"], "impact": (["exportForcesNextStep"] if ff else []) + ["flow"] + (["writeSolution"] if ff else []),
                                            "friction": (["exportForcesNextStep"] if ff else []) + ["flow"]}[sc["mode"]]
        if sc["due1"]:
            want += (["file", "writeBinaryState"] if sc["dir"] else []) + (["snap"] if sc["snaps"] else [])
        if want[-1:] == ["snap"] and "writeBinaryState" in want and s.kinds()[-3:] == ["snap", "file", "writeBinaryState"]:
            want = want[:-3] + ["snap", "file", "writeBinaryState"]  # the two are independent
        rep.decide(L + ": runs and writes in order", s.kinds() == want, w, "does %s, expected %s" % (", ".join(s.kinds()), ", ".join(want)))
        if s.kinds() != want:
            continue
        rep.decide(L + ": counts the step and the output", final(r, "g_iteration", IT) == NX and final(r, "g_output_frame", FR) == ("(1 + g_output_frame)" if sc["due1"] else FR), w,
                   "leaves step %s, output %s" % (final(r, "g_iteration", IT), final(r, "g_output_frame", FR)))
        rep.decide(L + ": reports success", True if sh(r.v) == "(0)" else False if re.match(r"^\(-?\d+\)$", sh(r.v)) else None, w, "returns %s" % sh(r.v))
        files = [x for x in s.items if x[0] == "file"]
        for x, no, it, what in ([(files[0], PF, IT, "forces")] if ff else []) + ([(files[-1], FR, NX, "state")] if sc["due1"] and sc["dir"] else []):
            nums = numbers(x[1])
            rep.decide(L + ": %s file carries the number of its output" % what, None if nums is None else nums == [no], x[3], "named with %s, expected %s" % (nums, no))
            got = x[2]
            exp = {"iteration": it, "timestep": "(g_dt)", "time": "(g_iteration*g_dt)" if it == IT else "(g_dt + g_iteration*g_dt)"}
            wrong = {k: got.get(k) for k in exp if got.get(k) != exp[k]}
            rep.decide(L + ": %s file records its own step and time" % what, not wrong, x[3], "records %s" % wrong)
        if ff and sc["due1"]:
            a, b = stem(files[0][1]), stem(files[-1][1])
            rep.decide(L + ": forces and state go to different files", None if not a or not b else a != b, files[0][3], "both %s" % a)
        calls = {x[0]: x[1] for x in s.items if x[0] not in ("file", "snap")}
        if "flow" in calls:
            a = [sh(x, 100) for x in calls["flow"].args]
            exp = ["g_scripting", NX, "g_dt", "g_unconstrained_map"] + {"free": [], "impact": ["g_impact_operator", "(g_CoR)"], "friction": ["(g_CoR)", "(g_mu)", "g_friction_solver", "g_impact_friction_map"]}[sc["mode"]]
            if sc["mode"] == "impact" and len(a) == len(exp) + 1:
                exp.append("g_impact_map")
            rep.decide(L + ": advances by one step with the scene's own parts", a == exp, calls["flow"].where, "called with %s" % ", ".join(a))
        if "writeBinaryState" in calls:
            rep.decide(L + ": state goes into the state file", ids(sh(calls["writeBinaryState"].args[0], 200)) == files[-1][4], calls["writeBinaryState"].where, "another file")
        if ff and sc["mode"] == "impact":
            e, ws = calls["exportForcesNextStep"], calls["writeSolution"]
            okay = ids(sh(e.args[0], 200)) == ids(sh(ws.who, 100)) and ids(sh(ws.args[0], 200)) == files[0][4] and "friction" not in sh(e.who, 200)
            rep.decide(L + ": impulses of this step go into the force file", okay, ws.where, "collected in %s, written from %s" % (sh(e.args[0], 60), sh(ws.who, 60)))
        if ff and sc["mode"] == "friction":
            e = calls["exportForcesNextStep"]
            rep.decide(L + ": impulses of this step go into the force file", ids(sh(e.args[0], 200)) == files[0][4] and "friction" in sh(e.who, 200), e.where, "asked of %s" % sh(e.who, 60))
        if sc["due1"] and sc["snaps"]:
            sn = next(x for x in s.items if x[0] == "snap")
            rep.decide(L + ": snapshot resumes at this step and this output", NX in sn[2] and FR in sn[2], sn[3], "holds %s" % ", ".join(x for x in sn[2] if "iteration" in x or "frame" in x))
            t = fname(r, sn[1])
            if not sc["over"]:
                nums = numbers(t)
                rep.decide(L + ": snapshot carries the number of its output", None if nums is None else nums == [FR], sn[3], "named with %s" % nums)
                if sc["dir"] and nums is not None:
                    a, b = stem(t), stem(files[-1][1])
                    rep.decide(L + ": snapshot and state go to different files", None if not a or not b else a != b, sn[3], "both %s" % a)
            elif t is not None:
                rep.decide(L + ": one snapshot is overwritten", numbers(t) in (None, []), sn[3], "named with %s" % numbers(t))
    # failures
    base = dict(forces=True, dir=True, due0=True, due1=True, snaps=True, over=False)
    for mode in ("free", "impact", "friction"):
        r = Run(m, step, dict(base, mode=mode, open=False))
        L = "%s step (%s)" % (D, mode)
        failed(rep, r, L + ": a snapshot that cannot be opened ends the run", w)
        n = Run(m, step, dict(base, mode=mode, open=True)).tries
        for k in range(1, n + 1):
            r = Run(m, step, dict(base, mode=mode, open=True, throw=k))
            failed(rep, r, L + ": an output that cannot be written ends the run (%d)" % k, w)


def failed(rep, r, what, w):
    if r.s is None or r.unknown or r.cond:
        rep.und(what, w, "depends on %s" % "; ".join(sh(c, 160) for c in r.unknown[:2]))
        return
    v = sh(r.v)
    rep.decide(what, True if re.match(r"^\(-?[1-9]\d*\)$", v) else False if v == "(0)" else None, w, "returns %s" % v)
    rep.decide(what + ": not counted as written", final(r, "g_output_frame", FR) == FR, w, "output count becomes %s" % final(r, "g_output_frame", FR))


def loop_rules(rep, m, loop, step, export, w):
    D = m.domain
    u = unrolled(loop)
    if u is None or export is None:
        rep.und("%s run: loop" % D, w, "form not recognised")
        return
    api = {step.usr, export.usr}
    S, E = step.name, export.name
    for over in (False, True):
        for forces, dirs in ((False, False), (False, True), (True, True)):
            for fail in ((), (E,), (S,)):
              for first in (False, True):
                r = Run(m, u, dict(forces=forces, dir=forces or dirs, over_=over, first=first), apis=api, fail=fail)
                L = "%s run (%s%s%s)" % (D, "end time reached" if over else "before the end time", ", forces" if forces else ", with a directory" if dirs else "", (", %s fails" % ("output" if fail == (E,) else "step") if fail else "") + (", first step" if first else ""))
                if r.s is None or r.unknown or r.cond:
                    rep.und(L, w, "depends on %s" % "; ".join(sh(c, 160) for c in r.unknown[:2]))
                    continue
                got = [a.nm for a in r.calls if a.nm in (S, E, "endOfSimCallback")]
                steps = [] if over and not forces else [S]
                exp = [E] if fail == (E,) else [E] + steps + (["endOfSimCallback"] if over and not (fail == (S,) and steps) else [])
                rep.decide(L + ": writes the first state, steps, ends", got == exp, w, "does %s, expected %s" % (", ".join(got), ", ".join(exp)))
                v = sh(r.v)
                bad = fail and (fail == (E,) or steps)
                if bad:
                    rep.decide(L + ": ends with failure", True if re.match(r"^\(-?[1-9]\d*\)$", v) else False, w, "returns %s" % v)
                elif over:
                    rep.decide(L + ": ends with success", v == "(0)", w, "returns %s" % v)
                    order = [a.nm for a in r.calls if a.nm in ("setState", "endOfSimCallback", "forgetState")]
                    rep.decide(L + ": the closing script sees the state", order == ["setState", "endOfSimCallback", "forgetState"], w, "order %s" % ", ".join(order))
                else:
                    rep.decide(L + ": goes on", not re.match(r"^\(-?\d+\)$", v), w, "returns %s" % v)
                for t in r.time:
                    rep.decide("%s run: ends when the time of the current step reaches the end time" % D, True if t in (TIME, LATER) else False if t.startswith(("le<(", "lt<(")) and "call<" not in t else None, w, "compares %s" % t)


def load_rules(rep, m, load, w):
    from ..scene import Flow
    D = m.domain
    F = Flow(m)
    roots = {f.usr: f for f in F.roots()}
    for parsed in (True, False):
        r = Run(m, load, dict(parsed=parsed))
        if r.s is None:
            rep.und("%s load" % D, w, "not analysed")
            continue
        call = next((a for a in r.calls if a.nm == "parseXMLSceneFile"), None)
        if call is None:
            rep.und("%s load" % D, w, "no scene read")
            continue
        if not parsed:
            rep.decide("%s: a scene that cannot be read is not run" % D, True if r.v is False else False if r.v is True else None, w, "returns %s" % sh(r.v))
            continue
        rep.decide("%s: a scene that was read is run" % D, True if r.v is True else False if r.v is False else None, w, "returns %s" % sh(r.v))
        f = next((g for g in roots.values() if len(g.params) == len(call.args)), None)
        if f is None:
            continue
        res = F.summary(f, (None,) * len(f.params))
        for g, suffix in (("g_end_time", "end_time.t"), ("g_CoR", ".CoR"), ("g_mu", ".mu"), ("g_dt", "integrator.dt")):
            v = r.s.store.get(("glob", g))
            t = re.search(r"parseXMLSceneFile@1\.(\d+)", sh(v, 200)) if v is not None else None
            if not t:
                rep.und("%s: the scene's setting reaches the run (%s)" % (D, g[2:]), w, "value %s" % sh(v, 80))
                continue
            ds = [d for d in res.get(int(t.group(1)), (0, ()))[1] if not d.startswith("in:")]
            rep.decide("%s: the scene's setting reaches the run (%s)" % (D, g[2:]), bool(ds) and all(d.split("@")[0].endswith(suffix) or d.rstrip("()") == suffix.strip(".") for d in ds), w, "it is %s" % ", ".join(sorted(ds)[:4]))


def main_rules(rep, m, mn, loop, load, resume, options, w):
    """the program around the run: which parts are run, with which settings, and what it reports"""
    D = m.domain
    parts = {"loop": loop, "load": load, "resume": resume, "options": options}
    if any(x is None for x in parts.values()):
        rep.und("%s program" % D, w, "parts not recognised")
        return
    api = {x.usr for x in parts.values()}
    nm = {x.name: k for k, x in parts.items()}
    base = dict(help=False, resume=False, args=True, end=False, freq=False, forces=False, dir=False, whole=True)

    def go(what, fail, exp, status, **sc):
        r = Run(m, mn, dict(base, **sc), apis=api, fail=[parts[f].name for f in fail], options=options)
        L = "%s program (%s)" % (D, what)
        rep.count("program outcomes", 1)
        if r.s is None or r.unknown or r.cond:
            rep.und(L, w, "depends on %s" % "; ".join(sh(c, 160) for c in r.unknown[:2]))
            return None
        got = [nm[a.nm] for a in r.calls if a.nm in nm]
        rep.decide(L + ": runs the right parts in order", got == exp, w, "runs %s, expected %s" % (", ".join(got), ", ".join(exp)))
        v = sh(r.v)
        c = int(v[1:-1]) if re.match(r"^\(-?\d+\)$", v) else None
        rep.decide(L + ": reports %s" % ("success" if status == 0 else "failure"), None if c is None else (c == 0) == (status == 0), w, "returns %s" % v)
        return r

    go("unreadable options", ["options"], ["options"], 1)
    go("help", [], ["options"], 0, help=True)
    go("forces without a directory", [], ["options"], 1, forces=True)
    for fr in (False, True):
        r = go("resumed%s" % (", with a directory" if fr else ""), [], ["options", "resume", "loop"], 0, resume=True, dir=fr, forces=fr)
        if r is not None:
            a = next(a for a in r.calls if a.nm == resume.name)
            rep.decide("%s program (resumed): resumes from the named file" % D, "opt.string" in sh(a.args[0], 200), w, "from %s" % sh(a.args[0], 100))
    go("snapshot unreadable", ["resume"], ["options", "resume"], 1, resume=True)
    go("resumed, run fails", ["loop"], ["options", "resume", "loop"], 1, resume=True)
    go("no scene named", [], ["options"], 1, args=False)
    go("scene unreadable", ["load"], ["options", "load"], 1)
    go("run fails", ["loop"], ["options", "load", "loop"], 1)
    go("output rate not whole", [], ["options", "load"], 1, freq=True, whole=False)
    for end in (False, True):
        for freq in (False, True):
            for fr in (False, True):
                r = go("scene%s%s%s" % (", end time given" if end else "", ", rate given" if freq else "", ", forces" if fr else ""), [], ["options", "load", "loop"], 0, end=end, freq=freq, forces=fr, dir=fr)
                if r is None:
                    continue
                L = "%s program (%s, %s)" % (D, "end time given" if end else "end time of the scene", "rate given" if freq else "every step")
                v = final(r, "g_end_time", "(g_end_time)")
                rep.decide(L + ": ends when asked", v == ("(opt.double)" if end else "(g_end_time)"), w, "end time %s" % v)
                v = final(r, "g_steps_per_save", "(g_steps_per_save)")
                if not freq:
                    rep.decide(L + ": writes every step", v == "(1)", w, "writes every %s" % v)
                else:
                    rep.decide(L + ": writes at the asked rate", True if v in RATE else None if "call<" in v or "phi" in v else False, w, "writes every %s" % v)


def analyse(rep, dom):
    m = next(x for x in models() if x.domain == dom)
    d = Drivers(m)
    if d.main is None:
        rep.und("%s: driver" % dom, "", "not found")
        return
    loop, step, export, load, resume, options = d.find()
    at = lambda f: "%s:%s" % (f.file, f.line)
    rep.analysed |= {"%s %s" % (f.file, f.q) for f in d.fns.values()}
    if step is not None:
        step_rules(rep, m, step, at(step))
    if loop is not None and step is not None:
        loop_rules(rep, m, loop, step, export, at(loop))
    if load is not None:
        load_rules(rep, m, load, at(load))
    main_rules(rep, m, d.main, loop, load, resume, options, at(d.main))


def run(tier):
    rep = Report("P17", RULE, [])
    par.each(rep, [m.domain for m in models()], analyse, budget=300)
    return rep
