"""P01: a checkpoint restores what was saved."""
from ..model import models
from ..wire import *
from ..report import Report
from .. import par

RULE = ("every function that writes to a checkpoint stream is interpreted abstractly to the sequence of values it writes, and the matching reader is interpreted on exactly that sequence; "
        "every member of the restored object holds the saved value, byte counts agree at every read, and nothing is left over or missing")

# members that are rebuilt or reset on purpose when a run resumes: (class, member) -> why
TRANSIENT = {
    ("ImpactMap", "m_write_constraint_forces"): "set again for each step that exports forces",
    ("ImpactMap", "m_impact_solution"): "output object for the current step",
    ("GeometricImpactFrictionMap", "m_write_constraint_forces"): "set again for each step that exports forces",
    ("GeometricImpactFrictionMap", "m_constraint_force_stream"): "output file of the current step",
    ("StabilizedImpactFrictionMap", "m_write_constraint_forces"): "set again for each step that exports forces",
    ("StabilizedImpactFrictionMap", "m_constraint_force_stream"): "output file of the current step",
    ("SymplecticEulerImpactFrictionMap", "m_write_constraint_forces"): "set again for each step that exports forces",
    ("SymplecticEulerImpactFrictionMap", "m_constraint_force_stream"): "output file of the current step",
}
TRANSIENT_TYPES = ("PythonObject", "HDF5File")     # rebuilt from names when the run resumes


def polymorphic(m, cls):
    return any(m.recs.get(b, {}).get("poly") for b in [cls] + list(m.bases(cls)))


def class_roots(m):
    out = []
    for cls in sorted(m.recs):
        w = [f for f in m.by_q.get(cls + "::serialize", []) if f.cls == cls and is_w(f) and len(f.params) == 1]
        if not w or w[0].over or w[0].virt:
            continue
        r = [f for f in m.fns.values() if f.cls == cls and is_r(f) and len(f.params) == 1 and (f.ctor or f.name.startswith("deserialize"))]
        for k, f in enumerate(sorted(r, key=lambda f: f.line)):
            out.append(("class", cls, w[0], f))
    return out


def family_roots(m):
    """functions that write a pointer to a polymorphic object, and the function returning one from a stream"""
    out = []
    for fn in sorted(set(m.fns.values()), key=lambda f: (f.file, f.line)):
        if fn.cls or not is_w(fn) or len(fn.params) != 2:
            continue
        b = up_arg(fn.ptype(0))
        if b is None:
            continue
        r = [f for f in m.fns.values() if not f.cls and is_r(f) and up_arg(f.ret) == b and len(f.params) == 1]
        if r:
            r.sort(key=lambda f: (f.q.split("::")[0] != fn.q.split("::")[0], f.file, f.line))
            out.append(("family", b, fn, r[0]))
    return out


def system_roots(m):
    """the application's own save and resume functions"""
    out = []
    ws = [f for f in m.fns.values() if not f.cls and not f.dep and opens(f, "std::basic_ofstream<") and calls_to(f, "serialize")]
    rs = [f for f in m.fns.values() if not f.cls and not f.dep and opens(f, "std::basic_ifstream<") and calls_to(f, "deserialize")]
    for w in ws:
        for r in rs:
            if r.file == w.file:
                out.append(("system", w.file, w, r))
    return out


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def opens(f, t):
    for n in walk(f.body):
        ti = n.get("t")
        if isinstance(ti, int) and f.types[ti].startswith(t):
            return True
    return False


def calls_to(f, nm):
    return any(nm in (n.get("f") or {}).get("n", "") for n in walk(f.body) if isinstance(n.get("f"), dict))


class Result:
    pass


def compose(m, root, sc):
    """('dead-writer' | 'dead-reader' | 'mismatch' | 'ok' | 'undecided', detail, Compare or None, interps)"""
    kind, what, w, r = root
    try:
        this = ("obj", "this") if kind == "class" else None
        I, W, s = write_side(m, w, this, what if kind == "class" else None, sc)
        if s is None:
            return "dead-writer", "the writer ends the program", None, (I,)
        toks = tokens(s.ev)
        if not toks:
            return "nothing", "", None, (I,)
        new = ("obj", "new") if kind == "class" else None
        J, R, v, s2 = read_side(m, r, new, what if kind == "class" else None, toks, sc)
        if s2 is None:
            return "dead-reader", "the reader ends the program", None, (I, J)
        C = Compare(m, I, J, s2, sc)
        C.skip = set(TRANSIENT)
        C.skip_types = TRANSIENT_TYPES
        if s2.q:
            left = [t for t in s2.q if not (t[0] == "loop" and not t[2])]
            if left:
                return "mismatch", "%s is never read back" % describe(left[0]), None, (I, J)
        for x in R.und:
            C.add("bytes at " + x[0], None, x[1])
        if kind == "class":
            C.obj(("obj", "new"), ("obj", "this"), what, what)
        elif kind == "family":
            C.ptr(v, ("obj", w.params[0]["n"]), what, what)
        else:
            compare_globals(m, root, I, J, s2, C, toks)
        return "ok", "", C, (I, J)
    except Mismatch as e:
        return "mismatch", str(e), None, ()
    except Undecided as e:
        return "undecided", str(e), None, ()


def globals_of(m, file):
    out = {}
    for (u, f), g in m.globals.items():
        if f == file:
            out[g.get("q") or g["n"]] = g
    return out


def compare_globals(m, root, I, J, s2, C, toks):
    saved = set()

    def note(y):
        if isinstance(y, tuple) and len(y) == 2 and y[0] == "in":
            saved.add(re.split(r"[.\[]", y[1])[0])
    def rec(ts):
        for t in ts:
            if t[0] == "wire":
                contains(t[1], lambda y: note(y)), contains(t[3], lambda y: note(y))
            elif t[0] == "loop":
                contains(t[1][3], lambda y: note(y)); rec(t[2])
            elif t[0] == "br":
                rec(t[2]); rec(t[3])
    rec(toks)
    gs = globals_of(m, root[1])
    ks = consts(m)
    for q, g in sorted(gs.items()):
        if q in ks or q not in saved and up_arg(g["t"]) is None:
            continue
        C.loc(("glob", q), ("glob", q), g["t"], q)


def scenarios(m, root):
    """the concrete class choices to go through: one run per class of every base the writer dispatches on, and per null pointer"""
    sc = Scenario(m)
    out = []
    first = None
    try:
        r = compose(m, root, sc)
    except Exception:
        r = None
    bases = {b: list(cs) for b, cs in sc.asked.items()}
    ptrs = list(sc.ptrs)
    return bases, ptrs


def working(m, root, bases):
    """for every base, a class the reader accepts (each base varied on its own through the family and class pairs)"""
    fam = {b: r for _, b, *_ in family_roots(m) for r in [next(x for x in family_roots(m) if x[1] == b)]}
    best = {}
    for b, cs in bases.items():
        best[b] = cs[0] if cs else None
        if b in fam:
            for c in cs:
                if compose(m, fam[b], Scenario(m, {b: c}))[0] in ("ok", "mismatch"):
                    best[b] = c
                    break
    rest = [b for b in bases if b not in fam]
    import itertools
    for k, combo in enumerate(itertools.product(*[bases[b] for b in rest])):
        if k >= 24:
            break
        ch = dict(best, **dict(zip(rest, combo)))
        if compose(m, root, Scenario(m, ch))[0] in ("ok", "mismatch", "undecided"):
            return ch
    return best


def items(ms):
    out = []
    for m in ms:
        for root in class_roots(m) + family_roots(m) + system_roots(m):
            out.append((m.domain, root))
    return out


def label(dom, root, sc, b=None, c=None):
    kind, what, w, r = root
    s = "%s/%s" % (dom, what)
    if b is not None:
        s += " holding a %s" % (c,)
    return s


def analyse(rep, item, mode):
    dom, root = item
    m = model(dom)
    kind, what, w, r = root
    bases, ptrs = scenarios(m, root)
    runs = []
    if kind == "family":
        allc = list(m.concrete(what))
        for c in allc:
            runs.append((what, c, Scenario(m, {what: c})))
        runs.append((what, "NULL", Scenario(m, {}, {w.params[0]["n"]})))
    elif bases:
        base = working(m, root, bases)
        if kind != "system":
            for b, cs in bases.items():
                for c in cs:
                    runs.append((b, c, Scenario(m, dict(base, **{b: c}))))
        else:
            runs.append((None, None, Scenario(m, base)))
            runs.append((None, "no operators", Scenario(m, base, [p for p in ptrs if "." not in p and "[" not in p and "map" not in p])))
    else:
        runs.append((None, None, Scenario(m, {})))
    for b, c, sc in runs:
        st, detail, C, ints = compose(m, root, sc)
        for x in ints:
            rep.saw(x)
        lab = label(dom, root, sc, b, c)
        where = "%s / %s" % (w.where(), r.where())
        rep.count("writer-reader runs")
        if mode == "kinds":
            if b is None:
                continue
            if st == "dead-writer":
                rep.bad("%s can be saved" % lab, where, detail)
            elif st == "dead-reader":
                rep.bad("%s can be resumed" % lab, where, detail)
            elif st == "mismatch":
                rep.bad("%s can be resumed" % lab, where, detail)
            elif st == "undecided" or C is None:
                rep.und("%s can be resumed" % lab, where, detail)
            else:
                bad = [x for x in C.out if x[0].endswith(" class") or "restored as" in x[2] and (" is restored as" in x[2] or "null pointer" in x[2])]
                wrong = [x for x in C.out if x[1] is False and ("is restored as" in x[2] or "as a null pointer" in x[2])]
                rep.decide("%s can be resumed with the same class" % lab, False if wrong else True, where, "; ".join("%s: %s" % (x[0], x[2]) for x in wrong))
            continue
        if st in ("dead-writer", "dead-reader"):
            continue          # decided by the property on kinds
        if st == "mismatch":
            rep.bad("%s: the reader follows the writer" % lab, where, detail)
        elif st == "undecided":
            rep.und("%s: the reader follows the writer" % lab, where, detail)
        elif st == "nothing":
            rep.und("%s: writer" % lab, where, "nothing written")
        else:
            rep.ok("%s: the reader follows the writer" % lab, where)
            for p, o, d in C.out:
                rep.decide("%s: %s" % (lab, p), o, where, d)


def run(tier):
    rep = Report("P01", RULE, ["stream reads and writes succeed (good())", "reading n bytes into a buffer restores the n bytes written from one of the same layout"])
    ms = models()
    its = items(ms)
    rep.require("writer/reader pairs", len(its), 20)
    par.each(rep, its, lambda r, it: analyse(r, it, "data"), budget=300, name=lambda it: "%s/%s" % (it[0], it[1][1]))
    return rep
