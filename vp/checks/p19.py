"""P19: an exported state or contact file says what the simulation computed."""
from ..model import models
from ..proto import *
from ..ai import State, base_type
from ..report import Report
from .. import par
from ..alg import subst
import re

RULE = ("the functions that write the exported files are evaluated as value numbers with the writing calls recorded; every data set is compared, by its name, with the quantity it names: "
        "the record layout declared for it, the memory handed over, the place it goes to and the elements covered")
T = ("obj", "this")
I0 = ("iv", 0)

# data set -> list it describes and what each member of a record says about an element of the list
RECORDS = {
    "rigidbody2d": {
        "static_geometry/static_planes": ("planes", {"x": "x", "n": "n"}),
        "static_geometry/planar_portals": ("planarPortals", {"x0": "planeA.x", "n0": "planeA.n", "x1": "planeB.x", "n1": "planeB.n", "v": "v", "width": "bounds", "delta": "delta"}),
        "geometry/circles": ("geometry", {"r": "r"}, "CIRCLE", "CircleGeometry"),
        "geometry/boxes": ("geometry", {"r": "r"}, "BOX", "BoxGeometry"),
    },
    "rigidbody3d": {
        "static_geometry/static_planes": ("staticPlanes", {"x": "x", "n": "n", "v": "v", "omega": "omega"}),
        "static_geometry/static_cylinders": ("staticCylinders", {"x": "x", "R": "R", "v": "v", "omega": "omega", "r": "r"}),
        "geometry/spheres": ("geometry", {"r": "r"}, "SPHERE", "RigidBodySphere"),
        "geometry/boxes": ("geometry", {"r": "halfWidths"}, "BOX", "RigidBodyBox"),
        "geometry/meshes": ("geometry", {"file_name": "inputFileName"}, "TRIANGLE_MESH", "RigidBodyTriangleMesh"),
    },
    "ball2d": {},
}
PLAIN = {
    "ball2d": {"q": "q", "v": "v", "r": "r", "m": "M"},
    "rigidbody2d": {"q": "q", "v": "v", "m": "M"},
    "rigidbody3d": {"state/q": "q", "state/v": "v", "state/M0": "M0"},
}
COLUMNS = {"ball2d": {"static_plane_centers": ("staticPlanes", "x"), "static_plane_normals": ("staticPlanes", "n")}}
FLAGS = {"rigidbody2d": "kinematically_scripted", "rigidbody3d": "state/kinematically_scripted"}
INDICES = {"rigidbody2d": ("geometry/geometry_indices", "geometryIndices"), "rigidbody3d": ("geometry/geometry_indices", "indices")}
LOST = re.compile(r"unk<|smash|carry<|phi<|opaque")


def nop(x, n=400):
    return (x if isinstance(x, str) else sh(x, n)).replace("(", "").replace(")", "")


def lost(*vs):
    return any(LOST.search(sh(v, 4000)) for v in vs)


class Out(Proto):
    """a writer with its data sets, records and column assignments recorded"""

    def __init__(self, m, apis=(), kind=None, truths=(), second=None):
        self.second = second
        self.kindv, self.truths, self.unknown = kind, truths, []
        self.flags = []
        apis = set(apis)
        want = lambda f: f["q"].split("::")[-1] in apis or f["q"].split("::")[-1].startswith("H5") and f["q"].split("::")[-1] != "H5Dwrite"
        super().__init__(m, want, decide=lambda s, st, c: self.truth(c), extra={"H5Dwrite": self.dwrite, "HDF5File::write": self.write, "HDF5File::findOrCreateGroup": self.group})
        self.I.hooks["call"].insert(0, self.kindhook)
        I = self.I
        keep_store, keep_load = I.store_blk, I.load_blk
        self.cols = set()

        def store_blk(st, loc, val):
            L = loc[1]
            r, c = loc[4], loc[5]
            if not (isinstance(r, int) and isinstance(c, int)) and c == 1:
                self.cols.add(L)
                self.event(st, "col", (("loc", L), freeze(loc[3]), freeze(val)))
            return keep_store(st, loc, val)

        def load_blk(st, loc):
            if loc[1] in self.cols and not (isinstance(loc[4], int) and isinstance(loc[5], int)):
                return M.atom(("colof", loc[1], loc[3]))
            return keep_load(st, loc)
        I.store_blk, I.load_blk = store_blk, load_blk

    def event(self, st, nm, vals, where="", q=None):
        k = self.n[nm] = self.n.get(nm, 0) + 1
        tag = "%s@%d" % (nm, k)
        self.I.born[tag] = st.depth
        st.ev.append(("api", q or nm, None, vals, where, tag, None))
        return tag

    def kindhook(self, I, st, n, f, obj, args):
        if self.kindv is None or obj is None or args:
            return None
        t = base_type(I.ty(n))
        e = self.m.enums.get(t)
        if e is None or not t.endswith("GeometryType") or self.kindv not in e["vals"]:
            return None
        return num(e["vals"].index(self.kindv))

    def truth(self, c, note=True):
        if isinstance(c, bool):
            return c
        if isinstance(c, tuple) and c and c[0] in ("not", "and", "or"):
            v = [self.truth(y, note) for x in c[1:] for y in (sorted(x, key=str) if isinstance(x, frozenset) else [x])]
            if c[0] == "not":
                return None if v[0] is None else not v[0]
            stop = c[0] == "or"
            return stop if stop in v else None if None in v else not stop
        if isinstance(c, tuple) and len(c) == 3 and c[0] == "eqt" or isinstance(c, tuple) and c and c[0] == "eqt":
            xs = [x for x in (c[1] if len(c) == 2 else c[1:])]
            en = next((x for x in xs if isinstance(x, tuple) and x and x[0] == "enumc" or isinstance(x, P) and isinstance(x.as_atom(), tuple) and x.as_atom()[0] == "enumc"), None)
            nu = next((x for x in xs if isinstance(x, P) and not x.atoms()), None)
            if en is not None and nu is not None:
                a = en.as_atom() if isinstance(en, P) else en
                e = next((e for q, e in self.m.enums.items() if a[1].startswith(q + "::")), None)
                if e:
                    return e["vals"][int(nu.cval())] == a[1].split("::")[-1]
        if self.second is not None and isinstance(c, tuple) and len(c) == 2 and isinstance(c[1], P) and c[0] in ("eq0", "lt"):
            p = subst(c[1], lambda y: num(self.second) if isinstance(y, tuple) and y and re.match(r"getBodyIndices@\d+\.0\.second$", sh(y, 60)) else None)
            if isinstance(p, P) and not p.atoms():
                return p.cval() == 0 if c[0] == "eq0" else p.cval() < 0
        s = sh(c, 600)
        if re.match(r"(?:and|or)<", s):
            self.unknown.append(s)
            return None
        for pat, v in self.truths:
            if re.search(pat, s):
                self.flags.append(s)
                return v
        if re.match(r"(?:eq0|lt)<\(?(?:-1 - )?\(?H5\w+@\d+\.ret|lt<\(?\(?H5", s):
            return False
        self.unknown.append(s)
        return None

    def foreign(self):
        """conditions on something other than the contact itself"""
        return [x for x in self.unknown if not re.search(r"getBodyIndices@|getStaticObjectIndex", x)]

    # -- the HDF5 calls ------------------------------------------------------------------------------------------------------
    def group(self, _, st, n, f, obj, args):
        g = self.I.eval(st, args[0])
        return P.atom(("in", "group:%s" % (g if isinstance(g, str) else sh(g))))

    def write(self, _, st, n, f, obj, args):
        I = self.I
        name = I.eval(st, args[0])
        l = I.lval(st, args[1])
        v = I.load(st, l, I.ty(args[1])) if l is not None else I.eval(st, args[1])
        self.event(st, "write", (name if isinstance(name, str) else freeze(name), freeze(v), ("loc", l)), I.where(n))
        return ("void",)

    def dwrite(self, _, st, n, f, obj, args):
        I = self.I
        v = [I.eval(st, a) for a in args]
        l = v[5][1] if isinstance(v[5], tuple) and len(v[5]) == 2 and v[5][0] == "ptr" else None
        mem = []
        if l is not None:
            t = self.rectype(st, l, args[5])
            fs = self.m.fields(t) if t in self.m.recs else []
            for x in fs:
                fl = ("fld", l, x["n"])
                g = re.match(r"(.*)\[(\d+)\]$", x["t"])
                if g:
                    mem.append((x.get("off"), x["t"], tuple(freeze(I.load(st, ("idx", fl, num(k)), g.group(1))) for k in range(int(g.group(2))))))
                else:
                    mem.append((x.get("off"), x["t"], freeze(I.load(st, fl, x["t"]))))
            if not fs:
                mem.append((0, "array", tuple(freeze(I.load(st, ("idx", l, num(k)), "unsigned int")) for k in range(2))))
        self.event(st, "H5Dwrite", tuple(freeze(x) for x in v[:5]) + (("mem", tuple(mem)),), I.where(n), "H5Dwrite")
        return P.atom(("in", "H5Dwrite.ret"))

    def rectype(self, st, l, a):
        while a.get("k") in ("icast", "cast", "un", "paren") and isinstance(a.get("e"), dict):
            a = a["e"]
        return base_type(self.I.ty(a))

    def go(self, fn, args=None):
        self.v = self.s = None
        self.run(fn, args=args)
        self.calls = flat(self.s.ev) if self.s is not None else []
        return self


def loops(ctx):
    return [x[1] for x in ctx if x[0] == "loop"]


def conds(ctx):
    return [x[1] for x in ctx if x[0] == "if"]


def covers(ls, size):
    """one loop over all elements of a list whose length shows as size"""
    if len(ls) != 1:
        return None
    lo, hi = ls[0][2], ls[0][3]
    if lost(lo, hi):
        return None
    return lo == ZERO and nop(hi) == nop(size)


def elems(v, k):
    """components of a vector value, if it can be told"""
    if isinstance(v, V):
        return list(v.e)
    a = v
    if isinstance(v, M):
        a = next(iter(v.t))[0][0] if len(v.t) == 1 and len(next(iter(v.t))) == 1 and list(v.t.values())[0] == ONE else None
    if isinstance(a, P):
        a = a.as_atom()
    if isinstance(a, tuple) and a:
        return [P.atom(("el", a, num(j))) for j in range(k)]
    return None


def query(m, cls, names, this, st=None):
    """what a chain of queries on an object says"""
    loc, v, r = this, None, None
    for nm in names.split("."):
        fn = m.method(cls, nm)
        if fn is None:
            return None, None
        r = Proto(m, lambda f: False)
        r.run(fn, this=loc)
        v = r.v
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "lref":
            loc = v[1]
            cls = base_type(fn.ret) if hasattr(fn, "ret") else cls
            t = fn.rett if hasattr(fn, "rett") else None
            ft = next((f["t"] for f in m.fields(fn.cls) if loc[0] == "fld" and f["n"] == loc[2]), "double")
            cls = base_type(ft)
            v = r.I.load(r.s, loc, ft)
        else:
            loc = None
    return v, loc


def listloc(m, sf, sc, name):
    v, loc = query(m, sc, name, ("fld", T, sf))
    return loc


def state_of(m, fn):
    """the member holding the simulated state"""
    for f in m.fields(fn.cls):
        c = base_type(f["t"])
        if m.method(c, "q") is not None and m.method(c, "v") is not None and m.method(c, "M") is not None:
            return f["n"], c
    return None, None


def same(a, b):
    if a is None or b is None:
        return None
    if a == b:
        return True
    if lost(a, b):
        return None
    return sh(a, 4000) == sh(b, 4000)


def arms(v):
    a = v.as_atom() if isinstance(v, P) else v
    if isinstance(a, tuple) and a and a[0] == "phi" and len(a) == 4:
        return arms(a[2]) + arms(a[3])
    return [a if a is not None else v]


def stale(ok, *vs):
    """an undecided value is wrong if it may be what the record held before"""
    if ok is None and any(isinstance(a, tuple) and a and a[0] in ("carry", "uninit") for v in vs for a in arms(v)):
        return False
    return ok


class Sets:
    """the data sets one evaluation wrote"""

    def __init__(self, r):
        self.types, self.arr, self.spaces, self.sets, self.sel = {}, {}, {}, {}, {}
        self.writes, self.plain = [], []
        cols = []
        for c, ctx in r.calls:
            g = lambda x: sh(x, 200).strip("()")
            if c.nm == "H5Tcreate":
                self.types["%s.ret" % c.tag] = dict(size=g(c.args[1]), mem=[], where=c.where)
            elif c.nm == "H5Tarray_create2":
                self.arr["%s.ret" % c.tag] = (g(c.args[0]), g(c.args[1]), g(c.args[2]))
            elif c.nm == "H5Tinsert":
                self.types.setdefault(g(c.args[0]), dict(size=None, mem=[], where=c.where))["mem"].append((c.args[1], g(c.args[2]), g(c.args[3]), c.where))
            elif c.nm == "H5Screate_simple":
                self.spaces["%s.ret" % c.tag] = (g(c.args[0]), c.args[1])
            elif c.nm == "H5Dcreate2":
                grp = sh(c.args[0], 200)
                k = re.search(r"group:([\w/]*)", grp)
                self.sets["%s.ret" % c.tag] = dict(name="%s/%s" % (k.group(1) if k else "?", c.args[1]), type=g(c.args[2]), space=g(c.args[3]), where=c.where, ctx=ctx)
            elif c.nm == "H5Sselect_hyperslab":
                self.sel[g(c.args[0])] = (c.args[1], c.args[2], c.args[3], c.args[4], c.args[5], ctx)
            elif c.nm == "H5Dwrite":
                a = c.args
                self.writes.append(dict(set=g(a[0]), type=g(a[1]), mspace=g(a[2]), fspace=g(a[3]), mem=a[5][1], sel=self.sel.get(g(a[3])), msel=self.sel.get(g(a[2])), where=c.where, ctx=ctx))
            elif c.nm == "col":
                cols.append((c.args[0][1], c.args[1], c.args[2], ctx))
            elif c.nm == "write":
                self.plain.append(dict(name=c.args[0], value=c.args[1], loc=c.args[2][1], where=c.where, ctx=ctx, cols=[x for x in cols if x[0] == c.args[2][1]]))

    def of(self, name):
        return [w for w in self.writes if self.sets.get(w["set"], {}).get("name") == name]


def comp(v, j):
    """component j of a coordinate array handed over, as a one or two element list"""
    if isinstance(v, tuple) and v and v[0] == "objv":
        d = {}
        for path_, x in v[2]:
            p = path_[0] if isinstance(path_, tuple) and path_ and isinstance(path_[0], tuple) else path_
            d[sh(p, 50)] = x
        return d.get("idx<(%d)>" % j)
    return v if j == 0 else None


def records_rules(rep, m, dom, fn, sf, sc):
    L = "%s exported state" % dom
    for name, spec in RECORDS[dom].items():
        lst, members = spec[0], spec[1]
        kind = spec[2] if len(spec) > 2 else None
        what = "%s, %s" % (L, name)
        loc = listloc(m, sf, sc, lst)
        if loc is None:
            rep.und(what, fn.file, "list not recognised")
            continue
        size = "size<%s>" % sh(Proto(m, lambda f: False).I.load(State(), loc, "?"), 200).strip("()")
        r = Out(m, kind=kind or "BOX", truths=[(r"^eq0<\(?size<", False), (r"^lt<\(?-size<", True)]).go(fn)
        s = Sets(r)
        w = s.of(name)
        at = "%s:%s" % (fn.file, fn.line)
        if not w:
            unk_ = [x for x in r.unknown]
            rep.decide(what + ": written", None if unk_ or r.s is None or any("?" in d["name"] for d in s.sets.values()) else False, at, "no record is written (%s)" % "; ".join(unk_[:2]))
            continue
        rep.decide(what + ": written once per element", len(w) == 1, w[0]["where"], "%d writes" % len(w))
        w = w[0]
        ds = s.sets[w["set"]]
        extra = [c for c in conds(w["ctx"]) + conds(ds["ctx"]) if r.truth(c, False) is not True]
        if extra:
            rep.decide(what + ": for every element", None, w["where"], "only if %s" % sh(extra, 200))
        ls = loops(w["ctx"])
        rep.decide(what + ": the elements are all of the list", covers(ls, size), w["where"], "loop %s, list %s" % (sh(ls, 200), size))
        rep.decide(what + ": each call names its own data set's type", w["type"] == ds["type"], w["where"], "%s for %s" % (w["type"], ds["type"]))
        rep.decide(what + ": each call names its own data set's space", w["fspace"] == ds["space"] and w["mspace"] != w["fspace"], w["where"], "%s for %s" % (w["fspace"], ds["space"]))
        rank, dim = s.spaces.get(ds["space"], (None, None))
        d = sh(comp(dim, 0), 300).strip("()")
        rep.decide(what + ": there is room for the whole list", None if rank is None or lost(dim) else rank == "1" and nop(d) == nop(size), ds["where"], "%s of %s" % (d, size))
        i = P.atom(ls[0]) if ls else None
        place(rep, what, w, [i], [ONE])
        # record layout
        ty = s.types.get(ds["type"])
        if ty is None:
            rep.und(what, ds["where"], "record type not recognised")
            continue
        got = {}
        for nm, off, tt, wh in ty["mem"]:
            got.setdefault(nm, []).append((off, tt, wh))
        rep.decide(what + ": its members", set(got) == set(members) and all(len(v) == 1 for v in got.values()), ty["where"], "members %s" % ", ".join(sorted(map(str, got))))
        mem = {str(o): (t, v) for o, t, v in w["mem"]}
        el = ("idx", loc, i)
        for nm, q in members.items():
            if nm not in got:
                continue
            off, tt, wh = got[nm][0]
            if off not in mem:
                rep.decide(what + ", %s" % nm, None if not w["mem"] or not off.isdigit() else False, wh, "offset %s is not where a value is" % off)
                continue
            t, v = mem[off]
            if kind:
                cls = spec[3]
                val, _ = query(m, cls, q, ("deref", el))
            else:
                cls = elem_class(m, sc, lst, loc)
                val, _ = query(m, cls, q, el)
            isarr = isinstance(v, tuple) and "[" in t
            if isarr:
                k = len(v)
                if q == "R":
                    e = elems(val, 4)
                else:
                    e = elems(val, k)
                ok = None if e is None or len(e) < k else stale(same(tuple(e[:k]), tuple(v)), *v)
                if q == "R":
                    ok, e = quat(val, v), val
                a = s.arr.get(tt)
                rep.decide(what + ", %s: its declared type" % nm, None if a is None and tt.startswith("unk") else a == ("H5T_NATIVE_DOUBLE", "1", str(k)), wh, "%s for %s" % (a or tt, t))
            elif "*" in t:
                e = val
                ok = True if val is not None and sh(val, 300).strip("()") in sh(v, 600) else None if val is None else text_of(val, v)
                rep.decide(what + ", %s: its declared type" % nm, tt.startswith("H5Tcopy@"), wh, "%s for %s" % (tt, t))
            else:
                e, ok = val, stale(same(val, v), v)
                rep.decide(what + ", %s: its declared type" % nm, tt == "H5T_NATIVE_DOUBLE", wh, "%s for %s" % (tt, t))
            rep.decide(what + ", %s" % nm, ok, w["where"], "writes %s; %s is %s" % (sh(v, 200), q, sh(e, 200)))
    if any(len(x) > 2 for x in RECORDS[dom].values()):
        mixed(rep, m, dom, fn, sf, sc)


def text_of(val, v):
    a, b = sh(val, 300).strip("()"), sh(v, 600)
    f = re.findall(r"m_\w+", a)
    g = re.findall(r"m_\w+", b)
    return None if not f or not g or lost(val, v) else f[-1] in g


def quat(val, v):
    """x, y, z and w in this order"""
    s = [sh(x, 3000) for x in v]
    if len(s) != 4 or any(LOST.search(x) for x in s):
        return None
    at = [x.as_atom() if isinstance(x, P) else None for x in v]
    if any(not (isinstance(a, tuple) and len(a) == 3 and a[0] == "fldof") for a in at):
        return None
    if any(a[1] != at[0][1] for a in at) or sh(at[0][1], 4000).strip("()") != sh(val, 4000).strip("()"):
        return None if lost(val) or set(re.findall(r"m_\w+", s[0])) == set(re.findall(r"m_\w+", sh(val, 3000))) else False
    return [a[2] for a in at] == ["x", "y", "z", "w"]


def elem_class(m, sc, lst, loc):
    t = next((f["t"] for c in m.recs for f in m.fields(c) if f["n"] == loc[2] and loc[0] == "fld" and "vector" in f["t"] and c in sc), "")
    g = re.search(r"std::vector<(?:class |struct )?([\w:]+)", t)
    return g.group(1) if g else None


def place(rep, what, w, offs, cnts):
    sel = w["sel"]
    if sel is None:
        rep.decide(what + ": each element has its own place", False, w["where"], "no place in the file is chosen")
        return
    op, start, stride, count, block, ctx = sel
    got = [comp(start, j) for j in range(len(offs))]
    cnt = [comp(count, j) for j in range(len(cnts))]
    if None in offs or lost(start, count):
        rep.und(what + ": each element has its own place", w["where"], "place %s" % sh(start, 200))
        return
    ok = got == offs and cnt == cnts and len(loops(ctx)) == len(loops(w["ctx"]))
    plain = all(sh(x) in ("null<>", "null") or x == ("null",) for x in (stride, block))
    rep.decide(what + ": each element has its own place", None if not plain else ok, w["where"], "at %s, %s long" % (sh(got, 200), sh(cnt, 60)))
    ms = w["msel"]
    if ms is not None:
        a = [comp(ms[1], 0), comp(ms[3], 0)]
        rep.decide(what + ": the memory handed over is read from its start", None if lost(*a) else a[0] == ZERO and a[1] == (cnts[0]), w["where"], "from %s, %s long" % (sh(a[0], 60), sh(a[1], 60)))


def mixed(rep, m, dom, fn, sf, sc):
    """lists with several kinds of shape"""
    kinds = [x for x in RECORDS[dom].items() if len(x[1]) > 2]
    L = "%s exported state" % dom
    for fn2 in m.fns.values():
        if fn2.body is None or not fn2.file.endswith("StateOutput.cpp"):
            continue
        if not fn2.name.startswith("write") or fn2.name in ("writeGeometry", "writeGeometryIndices"):
            continue
        r = Out(m, truths=[(r"^eq0<\(?size<", False)]).go(fn2)
        s = Sets(r)
        for w in s.writes:
            nm = s.sets.get(w["set"], {}).get("name", "?").split("/")[-1]
            k = next((x for x in kinds if x[0].endswith("/" + nm)), None)
            if k is None:
                continue
            what = "%s, %s: places are counted among the shapes of this kind" % (L, k[0])
            start = comp(w["sel"][1], 0) if w["sel"] else None
            i = P.atom(loops(w["ctx"])[0]) if loops(w["ctx"]) else None
            cs = [sh(c, 300) for c in conds(w["ctx"])]
            mine = any(k[1][2] in c for c in cs)
            if not mine:
                # the last kind of a complete list is what is left over
                mine = bool(cs)
            rep.decide(what, None if start is None or i is None else start != i if mine else None, w["where"], "at %s if %s" % (sh(start, 100), "; ".join(cs)[:200]))
            # any other kind is left out
            e = next((e for q, e in m.enums.items() if q.endswith("GeometryType") and k[1][2] in e["vals"]), None)
            for other in (e["vals"] if e else ()):
                if other == k[1][2]:
                    continue
                o = Out(m, kind=other, truths=[(r"^eq0<\(?size<", False)]).go(fn2)
                ws = Sets(o).writes
                rep.decide("%s, %s: a %s is not among them" % (L, k[0], other.lower().replace("_", " ")), not ws, w["where"], "writes a record for it")
        rep.analysed.add("%s %s" % (fn2.file, fn2.q))


def index_rules(rep, m, dom, fn, sf, sc):
    if dom not in INDICES:
        return
    name, lst = INDICES[dom]
    L = "%s exported state, %s" % (dom, name)
    at = "%s:%s" % (fn.file, fn.line)
    ids = listloc(m, sf, sc, lst)
    if ids is None:
        rep.und(L, at, "list not recognised")
        return
    idn = sh(Proto(m, lambda f: False).I.load(State(), ids, "?"), 200).strip("()")
    e = next((e for q, e in m.enums.items() if q.endswith("GeometryType")), None)
    done = [x[1][2] for x in RECORDS[dom].items() if len(x[1]) > 2]
    for kind in done + [None]:
        r = Out(m, kind=kind, truths=[(r"^eq0<\(?size<", False), (r"^lt<\(?-size<", True)]).go(fn)
        s = Sets(r)
        w = s.of(name)
        if len(w) != 1:
            rep.decide(L + ": written once", None if not w and r.unknown else False, at, "%d writes" % len(w))
            continue
        w = w[0]
        ls = loops(w["ctx"])
        i = P.atom(ls[0]) if ls else None
        if kind is None:
            v = w["mem"][0][2][1] if w["mem"] else None
            rep.decide(L + ": the number is that among the shapes of the kind", None if v is None or i is None else False if nop(v) == nop("%s(i0)" % idn) else True, w["where"], "number %s" % sh(v, 200))
            continue
        rep.decide(L + ": one entry for each body", covers(ls, "size<%s>" % idn), w["where"], "loop %s" % sh(ls, 200))
        ds = s.sets[w["set"]]
        rank, dim = s.spaces.get(ds["space"], (None, None))
        d = [sh(comp(dim, j), 200).strip("()") for j in (0, 1)]
        rep.decide(L + ": there is room for every body", None if lost(dim) else rank == "2" and d[0] == "2" and nop(d[1]) == nop("size<%s>" % idn), ds["where"], "%s by %s" % tuple(d))
        rep.decide(L + ": each call names its own data set's space", w["fspace"] == ds["space"] and w["mspace"] != w["fspace"], w["where"], "%s for %s" % (w["fspace"], ds["space"]))
        rep.decide(L + ": of unsigned numbers", w["type"] == ds["type"] == "H5T_NATIVE_UINT", w["where"], "%s and %s" % (w["type"], ds["type"]))
        place(rep, L, w, [ZERO, i], [num(2), ONE])
        v = w["mem"][0][2] if w["mem"] else (None, None)
        k = num(e["vals"].index(kind))
        rep.decide(L + ": a %s is said to be one" % kind.lower().replace("_", " "), None if v[0] is None or lost(v[0]) else v[0] == k, w["where"], "says %s for %s" % (sh(v[0], 100), sh(k)))
        g = sh(v[1], 300).strip("()")
        rep.decide(L + ": a %s is found by its number" % kind.lower().replace("_", " "), None if v[1] is None or lost(v[1]) else nop(g) == nop("%s(i0)" % idn), w["where"], "number %s" % g[:200])


def plain_rules(rep, m, dom, fn, sf, sc):
    L = "%s exported state" % dom
    at = "%s:%s" % (fn.file, fn.line)
    truths = [(r"^eq0<\(?size<", False), (r"^lt<\(?-size<", True)]
    r = Out(m, kind="BOX", truths=truths).go(fn)
    s = Sets(r)
    names = [w["name"] for w in s.plain]
    for w in s.plain:
        if not isinstance(w["name"], str):
            rep.und(L, w["where"], "name %s" % sh(w["name"]))
    known = set(PLAIN[dom]) | set(COLUMNS.get(dom, {})) | {FLAGS.get(dom)}
    for name, q in PLAIN[dom].items():
        what = "%s, %s" % (L, name)
        ws = [w for w in s.plain if w["name"] == name]
        if len(ws) != 1:
            rep.decide(what + ": written once", None if not ws and r.unknown else False, at, "%d times" % len(ws))
            continue
        w = ws[0]
        _, loc = query(m, sc, q, ("fld", T, sf))
        if loc is None:
            rep.und(what, at, "%s not recognised" % q)
            continue
        f = sh(Proto(m, lambda g: False).I.load(State(), loc, VEC), 200).strip("()")
        g = sh(w["value"], 600)
        if q in ("M", "M0"):
            fs = set(re.findall(r"this(?:\.\w+)+", g))
            ok = fs == {f} and re.search(r"vals<|valuePtr|diag", g) is not None
            rep.decide(what, True if ok else False if fs and fs != {f} else None, w["where"], "writes %s" % g[:200])
        else:
            ok = g.strip("()") == f
            rep.decide(what, True if ok else None if lost(w["value"]) else False, w["where"], "writes %s" % g[:200])
        ls = loops(w["ctx"])
        rep.decide(what + ": written once", not ls, w["where"], "in a loop")
    for name, (lst, q) in COLUMNS.get(dom, {}).items():
        what = "%s, %s" % (L, name)
        ws = [w for w in s.plain if w["name"] == name]
        if len(ws) != 1:
            rep.decide(what + ": written once", None if not ws and r.unknown else False, at, "%d times" % len(ws))
            continue
        w = ws[0]
        loc = listloc(m, sf, sc, lst)
        size = "size<%s>" % sh(Proto(m, lambda f: False).I.load(State(), loc, "?"), 200).strip("()")
        cols = w["cols"]
        if len(cols) != 1:
            rep.und(what, w["where"], "%d column assignments" % len(cols))
            continue
        _, j, v, ctx = cols[0]
        ls = loops(ctx)
        rep.decide(what + ": all of them", covers(ls, size), w["where"], "loop %s" % sh(ls, 200))
        if len(ls) == 1:
            i = P.atom(ls[0])
            rep.decide(what + ": each has its own column", None if lost(j) else j == i, w["where"], "column %s" % sh(j, 100))
            val, _ = query(m, elem_class(m, sc, lst, loc), q, ("idx", loc, i))
            rep.decide(what, None if elems(val, 2) is None or elems(v, 2) is None else same(tuple(elems(val, 2)), tuple(elems(v, 2))), w["where"], "writes %s" % sh(v, 200))
    if dom in FLAGS:
        name = FLAGS[dom]
        what = "%s, %s" % (L, name)
        fq, th = m.method(fn.cls, "isKinematicallyScripted"), T
        if fq is None:
            fq, th = m.method(sc, "isKinematicallyScripted"), ("fld", T, sf)
        p = Proto(m, lambda f: False)
        p.run(fq, this=th)
        cond = sh(p.v, 300)
        arr = re.search(r"this(?:\.m_\w+)+", cond)
        for val in (True, False):
            pat = re.escape(arr.group(0)) if arr else "fixed"
            r = Out(m, kind="BOX", truths=truths + [(pat, val)]).go(fn)
            ws = [w for w in Sets(r).plain if w["name"] == name]
            if len(ws) != 1:
                rep.decide(what + ": written once", None if not ws and r.unknown else False, at, "%d times" % len(ws))
                continue
            g = sh(ws[0]["value"], 600)
            k = re.search(r"\(i0\), \((-?\d+)\)", g)
            # a merged value names the flag it depends on
            ph = re.search(r"phi<bool<([^,]*)\(i0\)>, \((\d+)\), \((\d+)\)>", g)
            ix = set(re.findall(r"%s\(([^()]*)\)" % (re.escape(arr.group(0)) if arr else "fixed"), " ".join(r.flags) + g))
            got = (ph.group(2) if val else ph.group(3)) if ph else k.group(1) if k else None
            rep.decide("%s: a body that is%s moved by a script" % (what, "" if val else " not"), None if got is None else got == ("1" if val else "0"), ws[0]["where"], "says %s (%s)" % (got, g[:150]))
            rep.decide("%s: by its own mark" % what, None if not ix else ix == {"i0"}, ws[0]["where"], "looks at %s" % ", ".join(sorted(ix)))


# -- contact forces ------------------------------------------------------------------------------------------------------------
APIS = ("getBodyIndices", "getStaticObjectIndex", "getWorldSpaceContactPoint", "getWorldSpaceContactNormal")
NAMES = ("q", "C", "B", "alpha", "beta", "dt", "file")


SOME = [(r"^eq0<\(?size<C>", False), (r"^lt<\(?-size<C>", True)]


def rowsub(d):
    def f(y):
        if isinstance(y, tuple) and y and sh(y, 60) in ("rows<(B)>", "rows<B>"):
            return num(d)
        return None
    return f


def total(cols, d, i):
    """sum of the columns assigned to one data set: list of (coefficient, column) or None"""
    terms = []
    for n, (_, j, v, ctx) in enumerate(cols):
        if not isinstance(v, M):
            return None
        v, j = subst(v, rowsub(d)), subst(j, rowsub(d))
        ls = [subst(x, rowsub(d)) for x in loops(ctx)]
        if len(ls) > 2 or not isinstance(j, P) or j != i:
            return None
        add = any(a[0][0] == "colof" for wd in v.t for a in wd[:1] if isinstance(a[0], tuple))
        if n == 0 and add or n > 0 and not add:
            return None
        ks = [None]
        if len(ls) == 2:
            lo, hi = ls[1][2], ls[1][3]
            if not isinstance(hi, P) or hi.atoms() or lo != ZERO or not add:
                return None
            ks = range(int(hi.cval()))
        for k in ks:
            u = v
            if k is not None:
                iv = loops(ctx)[1]
                u = subst(v, lambda y: num(k) if isinstance(y, tuple) and y[:1] == ("iv",) and y[1] == iv[1] else None)
            for wd, c in u.t.items():
                if len(wd) != 1 or wd[0][1]:
                    return None
                a = wd[0][0]
                if isinstance(a, tuple) and a[0] == "colof":
                    if c != ONE or a[2] != i and subst(a[2], rowsub(d)) != i:
                        return None
                    continue
                if isinstance(a, tuple) and a[0] == "in" and "getWorldSpaceContact" in str(a[1]):
                    terms.append((c, P.atom(a)))
                    continue
                if not (isinstance(a, tuple) and a[0] == "blkof" and sh(a[1], 50).strip("()") == "B"):
                    return None
                terms.append((c, a[3]))
    return terms


def contact_writer(rep, m, dom, fn):
    """the contacts of a solve with friction"""
    L = "contact file of a solve with friction"
    w0 = "%s:%s" % (fn.file, fn.line)
    args = [("loc", ("obj", n)) for n in NAMES]
    r = Out(m, APIS, truths=[(r"^eq0<\(?size<C>", True), (r"^lt<\(?-size<C>", False)]).go(fn, args)
    s = Sets(r)
    names = [w["name"] for w in s.plain]
    cnt = [w for w in s.plain if w["name"] == "collision_count"]
    rep.decide(L + ": without contacts, says so", None if r.unknown and not cnt else len(cnt) == 1, w0, "writes %s" % names)
    for static in (True, False):
        r = Out(m, APIS, truths=SOME, second=-1 if static else 7).go(fn, args)
        s = Sets(r)
        by = {}
        for w in s.plain:
            by.setdefault(w["name"], []).append(w)
        for name in ("collision_count", "collision_indices", "collision_points", "collision_normals", "collision_forces"):
            if len(by.get(name, ())) != 1:
                rep.decide("%s, %s: written once" % (L, name), None if r.unknown and not by.get(name) else False, w0, "%d times" % len(by.get(name, ())))
        one = lambda n: by[n][0] if len(by.get(n, ())) == 1 else None
        c = one("collision_count")
        if c:
            g = sh(c["value"], 200).strip("()")
            rep.decide(L + ": the number of contacts", True if g == "size<C>" else None if lost(c["value"]) else False, c["where"], "says %s" % g)
        w = one("collision_indices")
        if w:
            indices(rep, L, r, w["cols"], w["where"], static)
        if static:
            w = one("collision_points")
            if w:
                points(rep, L, r, w["cols"], w["where"])
            for name in ("collision_normals", "collision_forces"):
                w = one(name)
                if w:
                    for d in (2, 3):
                        vectors(rep, "%s in %d dimensions, %s" % (L, d, name), w["cols"], w["where"], d, name, d)
    rep.analysed.add("%s %s" % (fn.file, fn.q))


def vectors(rep, what, cols, where, d, name, step):
    if not cols or not loops(cols[0][3]):
        rep.und(what, where, "columns not recognised")
        return
    first = loops(cols[0][3])[0]
    i = P.atom(first)
    for x in cols:
        ls = loops(x[3])
        rep.decide(what + ": for every contact", covers(ls[:1], "size<C>"), where, "loop %s" % sh(ls, 200))
    t = total(cols, d, i)
    if t is None:
        rep.und(what, where, "assigned %s" % sh([x[2] for x in cols], 300))
        return
    got = {}
    for c, j in t:
        got[j] = got.get(j, ZERO) + c
    A = lambda n, k: P.atom(("el", ("in", n), k))
    if name == "collision_normals":
        want = {num(step) * i: ONE}
    else:
        want = {num(step) * i: A("alpha", i)}
        for k in range(d - 1) if step == d else ():
            want[num(d) * i + num(k + 1)] = A("beta", num(d - 1) * i + num(k))
    ok = got == want
    if not ok and sh(sorted(sh(x) for x in got.items()), 900) == sh(sorted(sh(x) for x in want.items()), 900):
        ok = True
    rep.decide(what, True if ok else None if lost(*got.values()) else False, where, "is %s instead of %s" % (" + ".join("%s*col %s" % (sh(c, 80), sh(j, 60)) for j, c in got.items()), " + ".join("%s*col %s" % (sh(c, 80), sh(j, 60)) for j, c in want.items())))


def src(r, tag):
    return next((c for c, ctx in r.calls if c.tag == tag), None)


def indices(rep, L, r, cols, where, static):
    what = "%s, indices of a contact %s" % (L, "with a static object" if static else "of two bodies")
    if len(cols) != 1 or not isinstance(cols[0][2], V) or len(cols[0][2].e) != 2:
        rep.und(what, where, "columns not recognised")
        return
    _, j, v, ctx = cols[0]
    ls = loops(ctx)
    rep.decide(what + ": for every contact", covers(ls, "size<C>"), where, "loop %s" % sh(ls, 200))
    rep.decide(what + ": each has its own column", None if lost(j) or not ls else j == P.atom(ls[0]), where, "column %s" % sh(j))
    a, b = sh(v.e[0], 400).strip("()"), sh(v.e[1], 400)
    g = re.search(r"phi<eq0<\(1 \+ getBodyIndices@\d+\.0\.second\)>, (.*), \(?(getBodyIndices@\d+\.0\.second)\)?>$", b.strip("()") if b.count("(") != b.count(")") else b)
    if g:
        b = g.group(1) if static else g.group(2)
    b = b.strip("()") if not b.strip().startswith("(-2") else b
    tags = set(re.findall(r"getBodyIndices@\d+", a + b))
    calls = [src(r, t) for t in tags]
    own = all(c is not None and c.recv == ("deref", ("idx", ("obj", "C"), P.atom(ls[0]))) for c in calls) if ls else None
    rep.decide(what + ": those of this contact", own, where, "asked of %s" % sh([c.recv if c else None for c in calls], 200))
    t = next(iter(tags), "?")
    ok1 = a == t + ".0.first"
    rep.decide(what + ": the first body", True if ok1 else None if LOST.search(a) else False, where, "says %s" % a[:150])
    if static:
        ok2 = re.match(r"\(?-2 - getStaticObjectIndex\(derefof<C\(i0\)>\)\)*$", b) is not None
        rep.decide(what + ": the static object below -1", True if ok2 else False if "phi<" in b and not r.foreign() else None if LOST.search(b) else False, where, "says %s" % b[:150])
    else:
        rep.decide(what + ": the second body", True if b == t + ".0.second" else None if LOST.search(b) else False, where, "says %s" % b[:150])


def points(rep, L, r, cols, where):
    what = "%s, contact points" % L
    if not cols and any(c.nm == "col" and "getWorldSpaceContactPoint@" in sh(c.args[2], 200) for c, ctx in r.calls):
        rep.decide(what, False, where, "the contact points computed are not what is written")
        return
    if len(cols) != 1 or not loops(cols[0][3]):
        rep.und(what, where, "columns not recognised")
        return
    _, j, v, ctx = cols[0]
    ls = loops(ctx)
    i = P.atom(ls[0])
    rep.decide(what + ": for every contact", covers(ls, "size<C>"), where, "loop %s" % sh(ls, 200))
    rep.decide(what + ": each has its own column", None if lost(j) else j == i, where, "column %s" % sh(j))
    g = re.match(r"\(*(getWorldSpaceContact\w+@\d+)\.1\)*$", sh(v, 200))
    c = src(r, g.group(1)) if g else None
    if c is None:
        rep.und(what, where, "is %s" % sh(v, 150))
        return
    rep.decide(what + ": the place, not another vector", c.nm == "getWorldSpaceContactPoint", c.where, c.nm)
    rep.decide(what + ": of this contact", c.recv == ("deref", ("idx", ("obj", "C"), i)), c.where, "of %s" % sh(c.recv, 100))
    rep.decide(what + ": in the configuration given", True if sh(c.args[0], 60).strip("()") == "q" else None if lost(c.args[0]) else False, c.where, "at %s" % sh(c.args[0], 60))


def solution_rules(rep, m, dom):
    """the contacts of a solve without friction, kept until they are written"""
    L = "contact file of a solve without friction"
    put, out = m.method("ImpactSolution", "setSolution"), m.method("ImpactSolution", "writeSolution")
    if put is None or out is None or put.body is None or out.body is None:
        return
    where = {}
    for fn in (out,):
        w0 = "%s:%s" % (fn.file, fn.line)
        r = Out(m, APIS, truths=[(r"^eq0<", False), (r"^lt<", True)]).go(fn, [("loc", ("obj", "file"))])
        s = Sets(r)
        z = Sets(Out(m, APIS, truths=[(r"^eq0<", True), (r"^lt<", False)]).go(fn, [("loc", ("obj", "file"))]))
        rep.decide(L + ": without contacts, says so", len([w for w in z.plain if w["name"] == "collision_count"]) == 1, w0, "writes %s" % [w["name"] for w in z.plain])
        for w in s.plain:
            where.setdefault(w["name"], []).append(w)
    for name in ("collision_count", "collision_indices", "collision_points", "collision_normals", "collision_forces"):
        ws = where.get(name, [])
        if len(ws) != 1:
            rep.decide("%s, %s: written once" % (L, name), None if r.unknown and not ws else False, w0, "%d times" % len(ws))
    if any(len(where.get(n, ())) != 1 for n in ("collision_count", "collision_indices", "collision_points", "collision_normals", "collision_forces")):
        return
    one = {k: v[0] for k, v in where.items()}
    g = sh(one["collision_count"]["value"], 200)
    fields = [one[n]["loc"] for n in ("collision_indices", "collision_points", "collision_normals", "collision_forces")]
    ok = any(f is not None and f[:2] == ("fld", T) and re.search(r"cols<.*\b%s\b" % f[2], g) for f in fields)
    rep.decide(L + ": the number of contacts", True if ok else None if lost(one["collision_count"]["value"]) else False, one["collision_count"]["where"], "says %s" % g)
    args = [("loc", ("obj", n)) for n in ("q", "C", "B", "alpha", "dt")]
    for static in (True, False):
        r = Out(m, APIS, truths=SOME, second=-1 if static else 7).go(put, args)
        cols = []
        for c, ctx in r.calls:
            if c.nm == "col":
                cols.append((c.args[0][1], c.args[1], c.args[2], ctx))
        of = lambda n: [x for x in cols if x[0] == one[n]["loc"]]
        indices(rep, L, r, of("collision_indices"), one["collision_indices"]["where"], static)
        if not static:
            continue
        points(rep, L, r, of("collision_points"), one["collision_points"]["where"])
        nl = one["collision_normals"]["loc"]
        if of("collision_normals"):
            vectors(rep, L + ", collision_normals", of("collision_normals"), one["collision_normals"]["where"], 3, "collision_normals", 1)
        else:
            v = r.s.store.get(nl) if r.s is not None else None
            rep.decide(L + ", collision_normals", True if v is not None and sh(v, 100).strip("()") == "B" else None if v is None or lost(v) else False, one["collision_normals"]["where"], "is %s" % sh(v, 100))
        fc = of("collision_forces")
        # the normals kept may be what the forces are made of
        fc = [(a, b, subst(v, lambda y: None), x) for a, b, v, x in fc]
        vectors(rep, L + ", collision_forces", fc, one["collision_forces"]["where"], 3, "collision_forces", 1)
    rep.analysed.add("%s %s" % (put.file, put.q))
    rep.analysed.add("%s %s" % (out.file, out.q))


def analyse(rep, dom):
    m = next(x for x in models() if x.domain == dom)
    for fn in list(m.fns.values()):
        if fn.name == "writeBinaryState" and fn.body is not None and fn.cls:
            sf, sc = state_of(m, fn)
            if sf is None:
                rep.und("%s exported state" % dom, fn.file, "state not recognised")
                continue
            plain_rules(rep, m, dom, fn, sf, sc)
            index_rules(rep, m, dom, fn, sf, sc)
            records_rules(rep, m, dom, fn, sf, sc)
            rep.analysed.add("%s %s" % (fn.file, fn.q))
    if dom == "ball2d":
        fn = m.method("ImpactFrictionMap", "exportConstraintForcesToBinaryFile")
        if fn is not None and fn.body is not None:
            contact_writer(rep, m, dom, fn)
        solution_rules(rep, m, dom)


def run(tier):
    rep = Report("P19", RULE, [])
    par.each(rep, [m.domain for m in models()], analyse, budget=300)
    return rep
