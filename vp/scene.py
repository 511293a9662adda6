"""Dataflow over the loaders of scene files: which reads can fail, which elements may be absent, which variables are set, and where each value of the file goes.

Disjunctive forward analysis of the structured syntax tree.  A state maps variables to abstract values, XML queries to present / absent, and remembers
which reads failed; states are joined when equal and loops run to a fixed point."""
import re
from .ai import base_type

READS = re.compile(r"^(StringUtilities::)?(extract|read|parse)\w*$")
QUERY = {"first_attribute": "attr", "last_attribute": "attr", "first_node": "node", "last_node": "node", "next_sibling": "sib", "previous_sibling": "sib", "next_attribute": "attr"}
NUMERIC = ("double", "float", "int", "unsigned int", "long", "unsigned long", "bool", "char", "short", "unsigned char", "long long", "unsigned long long")


class Und(Exception):
    pass


class St:
    __slots__ = ("v", "un", "facts", "failed", "pend")

    def __init__(self, v=None, un=(), facts=None, failed=(), pend=()):
        self.v, self.un, self.facts, self.failed, self.pend = dict(v or {}), frozenset(un), dict(facts or {}), frozenset(failed), frozenset(pend)

    def copy(self):
        return St(self.v, self.un, self.facts, self.failed, self.pend)

    def key(self, loose=False):
        """pend, what will count as accepted if this state returns success, is joined by union"""
        v = self.v.items()
        if loose:
            v = ((c, "d" if isinstance(x, tuple) and x and x[0] == "d" else x) for c, x in v)
        return (frozenset(v), self.un, frozenset(self.facts.items()), self.failed)


def tag(d, k):
    return d if d.startswith("in:") or "@" in d and d.count("@") > 3 else "%s@%s" % (d, k)


def deps(v):
    if isinstance(v, tuple) and v:
        if v[0] == "d":
            return v[1]
        if v[0] == "new":
            return frozenset(["new " + v[1]])
        if v[0] == "s":
            return frozenset()
        if v[0] == "attrval":
            return frozenset([v[1]])
    return frozenset()


def D(s):
    return ("d", frozenset(s))


def elem(key):
    """name of the element a node key stands for"""
    if isinstance(key, tuple) and key and key[0] == "q":
        return key[3]
    if isinstance(key, tuple) and key and key[0] == "node":
        return elem(key[1])
    if isinstance(key, tuple) and key and key[0] == "el":
        return key[1]
    return "?"


def dims(t):
    m = re.match(r"(?:const )?Eigen::(?:Matrix|Array)<\w[\w ]*, (\d+), (\d+)", t)
    return int(m.group(1)) * int(m.group(2)) if m else None


COMP = {"x": "0", "y": "1", "z": "2", "w": "3"}


class Flow:
    """analysis of all loaders of one application"""

    def __init__(self, m, suffix="SceneParser.cpp"):
        self.m = m
        self.fns = {f.usr: f for f in m.fns.values() if f.body is not None and (f.file.endswith(suffix) or any("rapidxml" in f.types[p["t"]] for p in f.params))}
        self.byusr = {f.usr: f for f in m.fns.values()}
        self.memo, self.busy = {}, set()
        self.bad = {}        # (kind, file, line, what) -> detail
        self.sites = {}      # obligations: key -> where
        self.absent = {}     # (element, name) -> set of outcomes when it is absent
        self.sinks = {}      # sink -> set of frozenset of dependencies
        self.und = {}
        self.ranges = {}     # value of the file -> intervals it was checked to lie in on a successful load
        self.index = {}      # value of the file -> how it was compared with the size of a list
        self.frames = 0
        self.tested = False
        self.widened = 0
        self.wh = {}

    # -- entry ----------------------------------------------------------------------------------------------------------
    def roots(self):
        called = set()
        for f in self.fns.values():
            for n in nodes(f.body):
                g = n.get("f")
                if isinstance(g, dict) and g.get("u") in self.fns:
                    called.add(g["u"])
        return [f for u, f in self.fns.items() if u not in called]

    def where(self, fr, n):
        return "%s:%s" % (fr.fn.file, n.get("l", "?"))

    def report(self, kind, fr, n, what, detail=""):
        self.bad.setdefault((kind, fr.fn.file, n.get("l"), what), detail)

    def summary(self, fn, ctx):
        """ctx: element name of each node parameter; -> {param index: (must assign, deps)} for a successful return"""
        key = (fn.usr, ctx)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return {}
        self.busy.add(key)
        self.frames += 1
        fr = Frame(fn, self.frames, True)
        st = St()
        un = set()
        for i, p in enumerate(fn.params):
            c = (fr.id, p["id"])
            t = fn.types[p["t"]]
            if "xml_node" in t:
                st.v[c] = ("node", ("el", ctx[i] or "?"))
            else:
                st.v[c] = D(["in:%d" % i])
                if t.endswith("&") and not t.startswith("const "):
                    un.add(c)
        st.un = frozenset(un)
        out, brk, cnt = self.block([st], fn.body, fr)
        rets = fr.rets + [(None, s, fn.body) for s in out]
        res = {}
        ok = []
        for val, s, n in rets:
            self.finish(fr, val, s, n)
            if val is not False:
                ok.append(s)
        for i, p in enumerate(fn.params):
            c = (fr.id, p["id"])
            ds = set()
            for s in ok:
                ds |= deps(self.whole(s, c))
            res[i] = (bool(ok) and all(c not in s.un for s in ok), frozenset(ds))
        self.memo[key] = res
        self.busy.discard(key)
        return res

    def finish(self, fr, val, s, n):
        """a return"""
        boolish = base_type(fr.fn.ret) == "bool" or "*" in fr.fn.ret or "unique_ptr" in fr.fn.ret
        for k in s.failed:
            if not boolish:
                self.und[("a failed read leaves a function that reports nothing", "%s:%s" % (fr.fn.file, fr.fn.line))] = str(k)
            elif val is None:
                self.und[("outcome after a failed read", "%s:%s" % (fr.fn.file, n.get("l")))] = str(k)
            elif val:
                self.bad.setdefault(("failure", k[0], k[1], k[2]), "success is reported at line %s although this failed" % n.get("l"))
        if val is not False and not s.failed:
            for k, v in s.pend | pending(s.facts):
                if k == "abs":
                    self.absent.setdefault(v, set()).add("accepted")
                elif k == "rng":
                    self.ranges.setdefault(v[0], set()).add(v[1])
                elif k == "idx":
                    self.index.setdefault(v[0], set()).add(v[1])
                elif k == "name":
                    self.bad.setdefault(("name", fr.fn.file, n.get("l"), v), "a value that is none of the known names is accepted")
        elif val is False and not s.failed:
            for k in s.facts:
                if k[0] == "abs":
                    self.absent.setdefault(k[1:], set()).add("refused")

    # -- statements -------------------------------------------------------------------------------------------------------
    def join(self, sts):
        seen = {}
        for s in sts:
            k = s.key()
            o = seen.get(k)
            if o is None:
                seen[k] = s
            elif not s.pend <= o.pend:
                o = o.copy()
                o.pend = o.pend | s.pend
                seen[k] = o
        out = list(seen.values())
        if len(out) > 400:
            self.widened += 1
            groups = {}
            for s in out:
                groups.setdefault(s.failed, []).append(s)
            out = []
            for f, ss in groups.items():
                a = ss[0].copy()
                a.pend = a.pend | pending(a.facts)
                for b in ss[1:]:
                    a.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
                    a.un = a.un & b.un
                    a.pend = a.pend | b.pend | pending(b.facts)
                    for c in set(a.v) | set(b.v):
                        x, y = a.v.get(c), b.v.get(c)
                        if x != y:
                            a.v[c] = D(deps(x) | deps(y))
                out.append(a)
        return out

    def block(self, sts, s, fr):
        k = s.get("k")
        if not sts:
            return [], [], []
        if k == "block":
            brk, cnt = [], []
            for x in s["s"]:
                sts, b, c = self.block(sts, x, fr)
                brk += b
                cnt += c
                sts = self.join(sts)
            ids = [(fr.id, v["id"]) for x in s["s"] if isinstance(x, dict) and x.get("k") == "decl" for v in x["vars"]]
            if ids and s is not fr.fn.body:
                sts, brk, cnt = self.leave(sts, ids), self.leave(brk, ids), self.leave(cnt, ids)
            return self.join(sts), brk, cnt
        if k == "expr":
            return [t for st in sts for _, t in self.ev(st, s["x"], fr)], [], []
        if k == "decl":
            for v in s["vars"]:
                sts = [t for st in sts for t in self.decl(st, v, fr)]
            return sts, [], []
        if k == "if":
            if s.get("init"):
                sts, _, _ = self.block(sts, s["init"], fr)
            out, brk, cnt = [], [], []
            self.tested = True
            yes, no = self.branch(sts, s["c"], fr)
            self.tested = False
            for part, body in ((yes, s.get("a")), (no, s.get("b"))):
                if body is None:
                    out += part
                    continue
                o, b, c = self.block(self.join(part), body, fr)
                out += o
                brk += b
                cnt += c
            return self.join(out), brk, cnt
        if k in ("for", "while", "do", "rfor"):
            return self.loop(sts, s, fr), [], []
        if k == "ret":
            for st in sts:
                if s.get("e") is None:
                    fr.rets.append((None, st, s))
                    continue
                for v, t in self.ev(st, s["e"], fr):
                    for b, u in self.truth(v, t, fr):
                        fr.rets.append((b if not fr.inline else v if not isinstance(v, bool) and b is None else b, u, s))
            return [], [], []
        if k == "break":
            return [], list(sts), []
        if k == "continue":
            return [], [], list(sts)
        if k == "try":
            start = [x.copy() for x in sts]
            out, brk, cnt = self.block(sts, s["body"], fr)
            for h in s.get("h", []):
                key = (fr.fn.file, s.get("l"), "an exception while reading")
                self.sites[("failure",) + key] = self.where(fr, s)
                hs = []
                for x in start:
                    x = x.copy()
                    x.failed = x.failed | {key}
                    hs.append(x)
                o, b, c = self.block(hs, h["body"], fr)
                out += o
                brk += b
                cnt += c
            return self.join(out), brk, cnt
        if k in ("assert", "null", "empty", "nop", "using", "label") or k is None:
            return sts, [], []
        if k == "switch":
            out = []
            st2 = [t for st in sts for _, t in self.ev(st, s.get("c") or s.get("e"), fr)]
            o, b, c = self.block(st2, s["body"], fr)
            return self.join(o + b + st2), [], c
        if k in ("case", "default"):
            sub = s.get("s") or s.get("body")
            return self.block(sts, sub, fr) if isinstance(sub, dict) else (sts, [], [])
        if k == "throw":
            return [], [], []
        return [t for st in sts for _, t in self.ev(st, s, fr)], [], []

    def leave(self, sts, ids):
        """end of a scope: its variables are gone"""
        ids = set(ids)
        out = []
        for s in sts:
            s = s.copy()
            s.v = {c: x for c, x in s.v.items() if base_cell(c) not in ids}
            s.un = frozenset(c for c in s.un if base_cell(c) not in ids)
            s.facts = {k: x for k, x in s.facts.items() if not (k[0] == "eqc" and base_cell(k[1]) in ids)}
            out.append(s)
        return out

    def retire(self, sts, done, keep=()):
        """end of an iteration (done: of the loop): what was learnt about this element is accepted if the load succeeds"""
        seen = {}
        for s in sts:
            if not s.failed:
                s = s.copy()
                s.pend = s.pend | pending(s.facts)
                s.facts = {k: x for k, x in s.facts.items() if k[0] == "q" and (not done or k in keep or k[1] != "sib" and k[2][0] == "el")}
            k = s.key(True)
            o = seen.get(k)
            if o is None:
                seen[k] = s.copy()
                continue
            o.pend = o.pend | s.pend
            for c, x in s.v.items():
                if o.v[c] != x:
                    o.v[c] = D(deps(o.v[c]) | deps(x))
        return list(seen.values())

    def loop(self, sts, s, fr):
        if isinstance(s.get("init"), dict):
            sts, _, _ = self.block(sts, s["init"], fr)
        out, seen = [], {}
        keep = {k for x in sts for k in x.facts if k[0] == "q"}
        todo = self.join(sts)
        first = s["k"] == "do"
        for it in range(12):
            if s["k"] == "rfor":
                yes, no = [x.copy() for x in todo], todo
                var = s.get("var") or (s.get("decl", {}).get("vars") or [None])[0]
                if var is not None:
                    for x in yes:
                        x.v[(fr.id, var["id"])] = D(deps(self.quiet(x, s.get("range") or s.get("e"), fr)))
            elif s.get("c") is None or first:
                yes, no = todo, []
            else:
                yes, no = self.branch(todo, s["c"], fr)
            first = False
            out += no
            o, b, c = self.block(self.join(yes), s["body"], fr)
            out += b
            nxt = self.retire(self.join(o + c), False)
            if isinstance(s.get("inc"), dict):
                nxt = [t for st in nxt for _, t in self.ev(st, s["inc"], fr)]
            todo = []
            for x in self.join(nxt):
                if not x.pend <= seen.get(x.key(), frozenset([None])):
                    seen[x.key()] = seen.get(x.key(), frozenset([None])) | x.pend
                    todo.append(x)
            if not todo:
                break
        if isinstance(s.get("init"), dict):
            out = self.leave(out, [(fr.id, v["id"]) for v in s["init"].get("vars", [])])
        return self.retire(out, True, keep)

    def decl(self, st, v, fr):
        c = (fr.id, v["id"])
        t = fr.fn.types[v["t"]] if v.get("t") is not None else "?"
        st = self.forget(st, c)
        init = v.get("init")
        bt = base_type(t)
        plain = bt in NUMERIC or dims(bt) is not None
        if init is None or isinstance(init, dict) and init.get("k") in ("ctor", "tctor") and not init.get("args") and dims(bt) is not None:
            if plain and not v.get("static"):
                st.un = st.un | {c}
            return [st]
        while isinstance(init, dict) and init.get("k") == "ilist" and len(init.get("args", [])) == 1 and not init["args"][0].get("k") == "ilist":
            init = init["args"][0]
        if t.endswith("&") or "&&" in t:
            l = self.lval(st, init, fr)
            if l is not None:
                st.v[c] = ("lv", l) if not (isinstance(l, tuple) and l and l[0] in ("node",)) else l
                return [st]
        out = []
        for x, s2 in self.ev(st, init, fr):
            s2 = s2.copy()
            s2.v[c] = x
            out.append(s2)
        return out

    def forget(self, st, c):
        """a variable gets a new value"""
        st = st.copy()
        for k in [k for k in st.v if k == c or isinstance(k, tuple) and k[0] == c]:
            del st.v[k]
        st.un = frozenset(x for x in st.un if x != c and not (isinstance(x, tuple) and x[0] == c))
        for k in [k for k in st.facts if k[0] == "eqc" and k[1] == c]:
            del st.facts[k]
        return st

    # -- expressions ------------------------------------------------------------------------------------------------------
    def branch(self, sts, c, fr):
        yes, no = [], []
        for st in sts:
            for v, t in self.ev(st, c, fr):
                for b, u in self.truth(v, t, fr):
                    if b is not False:
                        yes.append(u)
                    if b is not True:
                        no.append(u)
        return yes, no

    def truth(self, v, st, fr):
        """[(True | False | None, state)]"""
        if isinstance(v, bool) or v is None:
            return [(v, st)]
        if isinstance(v, tuple) and v:
            if v[0] == "null":
                return [(False, st)]
            if v[0] == "q":
                if v in st.facts:
                    return [(st.facts[v], st)]
                out = []
                for b in (True, False):
                    u = st.copy()
                    u.facts[v] = b
                    if not b and v[1] in ("attr", "node"):
                        u.facts[("abs", elem(v[2]), v[1], v[3])] = True
                    out.append((b, u))
                return out
            if v[0] == "new":
                return [(True, st)]
        return [(None, st)]

    def quiet(self, st, e, fr):
        try:
            r = self.ev(st, e, fr)
            return r[0][0] if r else None
        except Und:
            return None

    def lval(self, st, e, fr):
        """cell an expression names, or None"""
        k = e.get("k")
        if k == "ref":
            c = (fr.id, e["id"]) if e.get("dk") in ("var", "param") else ("g", e.get("q") or e.get("n"))
            v = st.v.get(c)
            while isinstance(v, tuple) and v and v[0] == "lv":
                c = v[1]
                v = st.v.get(c)
            if isinstance(v, tuple) and v and v[0] == "node":
                return v
            return c
        if k in ("cast", "icast", "paren", "mat", "ilist") :
            sub = e.get("e") or (e.get("args") or [None])[0]
            if k == "ilist" and len(e.get("args", [])) != 1:
                return None
            return self.lval(st, sub, fr) if isinstance(sub, dict) else None
        if k == "mem":
            b = self.lval(st, e["b"], fr) if isinstance(e.get("b"), dict) else None
            return (b, e["n"]) if b is not None and b[0] != "node" else None
        if k == "mcall" and isinstance(e.get("obj"), dict):
            n = e["f"]["n"]
            if e["f"].get("cls", "").startswith("rapidxml"):
                return None
            b = self.lval(st, e["obj"], fr)
            if b is None or b[0] == "node":
                return None
            if n in COMP and e["f"]["q"].startswith("Eigen"):
                return (b, COMP[n])
            if n == "operator()" and len(e["args"]) == 1 and e["args"][0].get("k") == "int":
                return (b, e["args"][0]["v"])
            if not e["args"] and n.isidentifier() and self.ret(e["f"]).endswith("&"):
                return (b, n)                  # accessor of a stored member
            if n in ("back", "front", "at"):
                return (b, "[]")
            return None
        if k == "opcall" and e["f"]["n"] in ("operator()", "operator[]") and len(e["args"]) == 2:
            b = self.lval(st, e["args"][0], fr)
            i = e["args"][1]
            while i.get("k") in ("icast", "cast"):
                i = i["e"]
            if b is None or b[0] == "node":
                return None
            return (b, i["v"] if i.get("k") == "int" else "[]")
        if k == "un" and e.get("op") == "*":
            for v, _ in self.ev(st, e["e"], fr)[:1]:
                if isinstance(v, tuple) and v and v[0] == "q":
                    return ("node", v)
            return self.lval(st, e["e"], fr)
        if k == "opcall" and e["f"]["n"] in ("operator*", "operator->") and len(e["args"]) == 1:
            return self.lval(st, e["args"][0], fr)
        return None

    def ret(self, f):
        g = self.byusr.get(f.get("u"))
        return g.ret if g is not None else "?"

    def whole(self, st, c):
        """value of a cell with the parts stored in it"""
        v = st.v.get(c)
        parts = [k for k in st.v if isinstance(k, tuple) and len(k) == 2 and k[0] == c]
        if not parts:
            return v
        ds = set(deps(v))
        for k in parts:
            for d in deps(self.whole(st, k)):
                ds.add(d if k[1] == "[]" else tag(d, k[1]))
        return D(ds)

    def use(self, st, c, e, fr):
        """a variable is read as a whole or in part"""
        base, part = c, None
        while isinstance(base, tuple) and len(base) == 2 and isinstance(base[0], tuple):
            base, part = base[0], base[1]
        if base in st.un and base[0] == fr.id and not fr.summary_param(base):
            if part is not None and (base, part) in st.v:
                return
            if part is None:
                n = dims(base_type(fr.fn.types[e["t"]])) if e.get("t") is not None else None
                have = [k for k in st.v if isinstance(k, tuple) and len(k) == 2 and k[0] == base]
                if n is not None and len(have) >= n:
                    return
            if not st.failed:
                self.report("unset", fr, e, "%s" % e.get("n", "a variable"), "used on a path where it was never set")

    def ev(self, st, e, fr):
        k = e.get("k")
        h = getattr(self, "e_" + k, None) if k else None
        if h is not None:
            return h(st, e, fr)
        return self.generic(st, e, fr)

    def generic(self, st, e, fr):
        outs = [(frozenset(), st)]
        for key in ("e", "a", "b", "c", "x", "obj", "init", "args"):
            x = e.get(key)
            for y in (x if isinstance(x, list) else [x]):
                if isinstance(y, dict) and "k" in y:
                    outs = [(d | deps(v), t) for d, s0 in outs for v, t in self.ev(s0, y, fr)]
        return [(D(d) if d else ("d", frozenset()), t) for d, t in outs]

    def e_bool(self, st, e, fr):
        return [(bool(e["v"]), st)]

    def e_null(self, st, e, fr):
        return [(("null",), st)]

    def e_str(self, st, e, fr):
        return [(("s", e["v"]), st)]

    def e_int(self, st, e, fr):
        try:
            return [(("n", float(e["v"])), st)]
        except (ValueError, TypeError):
            return [(D([]), st)]

    e_float = e_int

    def e_char(self, st, e, fr):
        return [(D([]), st)]

    def e_ref(self, st, e, fr):
        c = self.lval(st, e, fr)
        if isinstance(c, tuple) and c[0] == "node":
            return [(c, st)]
        self.use(st, c, e, fr)
        v = self.whole(st, c)
        if v is None and c not in st.v:
            v = D([])
        return [(v, st)]

    def e_ilist(self, st, e, fr):
        if len(e.get("args", [])) == 1:
            return self.ev(st, e["args"][0], fr)
        return self.generic(st, e, fr)

    def e_icast(self, st, e, fr):
        return self.ev(st, e["e"], fr)

    e_cast = e_paren = e_mat = e_icast

    def e_un(self, st, e, fr):
        op = e.get("op")
        if op == "!":
            out = []
            for v, t in self.ev(st, e["e"], fr):
                for b, u in self.truth(v, t, fr):
                    out.append((None if b is None else not b, u))
            return out
        if op == "*":
            out = []
            for v, t in self.ev(st, e["e"], fr):
                if isinstance(v, tuple) and v and v[0] == "q":
                    t = self.deref(t, v, e, fr)
                    out.append((("node", v), t))
                else:
                    out.append((v, t))
            return out
        if op == "-":
            return [(("n", -v[1]) if isinstance(v, tuple) and v and v[0] == "n" else D(deps(v)), t) for v, t in self.ev(st, e["e"], fr)]
        if op == "&":
            l = self.lval(st, e["e"], fr)
            if l is not None and l[0] != "node":
                return [(D(deps(self.whole(st, l))), st)]
        return self.ev(st, e["e"], fr)

    def e_bin(self, st, e, fr):
        op = e.get("op")
        if op in ("&&", "||"):
            out = []
            for v, t in self.ev(st, e["a"], fr):
                for b, u in self.truth(v, t, fr):
                    if b is (op == "||"):
                        out.append((b, u))
                        continue
                    for w, x in self.ev(u, e["b"], fr):
                        for b2, y in self.truth(w, x, fr):
                            out.append((b2 if b is not None else b2 if b2 is (op == "||") else None, y))
            return out
        outs = []
        for v, t in self.ev(st, e["a"], fr):
            for w, u in self.ev(t, e["b"], fr):
                if op in ("==", "!="):
                    outs += self.equal(v, w, u, op == "==", fr)
                elif op in ("<", ">", "<=", ">="):
                    outs += self.order(v, w, u, op)
                else:
                    outs.append((D(deps(v) | deps(w)), u))
        return outs

    def order(self, v, w, st, op):
        """comparison of a value of the file with a number or with the size of a list"""
        if isinstance(v, tuple) and v and v[0] in ("n", "sz"):
            v, w, op = w, v, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
        ds = deps(v)
        if not (isinstance(w, tuple) and w and w[0] in ("n", "sz") and len(ds) == 1):
            return [(None, st)]
        d = next(iter(ds))
        if d.startswith("in:"):
            return [(None, st)]
        out = []
        for b in (True, False):
            r = op if b else {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
            u = st.copy()
            if w[0] == "sz":
                u.facts[("idx", d)] = r
            else:
                iv = narrow(u.facts.get(("rng", d), FULL), r, w[1])
                if iv is None:
                    continue
                u.facts[("rng", d)] = iv
            out.append((b, u))
        return out

    def equal(self, v, w, st, eq, fr):
        if v == ("null",):
            v, w = w, v
        if w == ("null",):
            return [(None if b is None else b != eq, u) for b, u in self.truth(v, st, fr)]
        for a, b in ((v, w), (w, v)):
            if isinstance(b, bool):
                return [(None if x is None else (x == b) == eq, u) for x, u in self.truth(a, st, fr)]
        for a, b in ((v, w), (w, v)):
            if isinstance(b, tuple) and b and b[0] == "s" and isinstance(a, tuple) and a and len(deps(a)) == 1 and not next(iter(deps(a))).startswith("in:"):
                k = ("eq", next(iter(deps(a))), b[1])
                self.sites.setdefault(("name", fr.fn.file, k[1]), "%s:%s" % (fr.fn.file, fr.fn.line))
                if k in st.facts:
                    return [(st.facts[k] == eq, st)]
                if any(f[0] == "eq" and f[1] == k[1] and x for f, x in st.facts.items()):
                    return [(not eq, st)]
                out = []
                for x in (True, False):
                    u = st.copy()
                    u.facts[k] = x
                    out.append((x == eq, u))
                return out
        return [(None, st)]

    def e_asg(self, st, e, fr):
        return self.assign(st, e["a"], e["b"], fr, e.get("op", "="), e)

    e_casg = e_asg

    def assign(self, st, a, b, fr, op, n):
        out = []
        for v, t in self.ev(st, b, fr):
            l = self.lval(t, a, fr)
            if l is None or l[0] == "node":
                # a view of a variable: its deps grow
                base = self.base_of(t, a, fr)
                if base is not None:
                    t = t.copy()
                    t.v[base] = D(deps(t.v.get(base)) | deps(v))
                    t.un = t.un - {base}
                out.append((v, t))
                continue
            if op not in ("=", None):
                self.use(t, l, a, fr)
                v = D(deps(v) | deps(self.whole(t, l)))
            t = self.store(t, l, v)
            out.append((v, t))
        return out

    def store(self, t, l, v):
        if isinstance(l, tuple) and len(l) == 2 and l[1] == "[]":
            t = t.copy()
            t.v[l] = D(deps(t.v.get(l)) | deps(v))
            b = l[0]
            while isinstance(b, tuple) and len(b) == 2 and isinstance(b[0], tuple):
                b = b[0]
            t.un = t.un - {b}
            return t
        t = self.forget(t, l)
        t.v[l] = v
        if isinstance(l, tuple) and isinstance(l[0], tuple):
            b = l[0]
            while isinstance(b, tuple) and len(b) == 2 and isinstance(b[0], tuple):
                b = b[0]
                t.un = t.un - {b}
        return t

    def base_of(self, st, e, fr):
        """variable a view expression looks into"""
        while isinstance(e, dict):
            l = self.lval(st, e, fr)
            if l is not None and l[0] != "node":
                return l
            nx = e.get("obj") or e.get("e") or e.get("b") or (e.get("args") or [None])[0]
            e = nx if isinstance(nx, dict) else None
        return None

    def e_mem(self, st, e, fr):
        l = self.lval(st, e, fr)
        if l is not None:
            self.use(st, l, e, fr)
            v = self.whole(st, l)
            if v is None:
                v = D(deps(self.whole(st, l[0])))
            return [(v, st)]
        return self.generic(st, e, fr)

    def e_cond(self, st, e, fr):
        yes, no = self.branch([st], e["c"], fr)
        return [r for s2 in yes for r in self.ev(s2, e["a"], fr)] + [r for s2 in no for r in self.ev(s2, e["b"], fr)]

    def e_lambda(self, st, e, fr):
        return [(D([]), st)]

    def deref(self, st, q, n, fr):
        """a pointer to an XML item is followed"""
        key = ("absent", fr.fn.file, n.get("l"), "%s '%s' of '%s'" % ("attribute" if q[1] == "attr" else "element", q[3], elem(q[2])))
        self.sites.setdefault(key, self.where(fr, n))
        if st.facts.get(q) is not True:
            if not st.failed:
                self.bad.setdefault(key, "used without knowing that it is there" if q not in st.facts else "used although it is absent")
            st = st.copy()
            st.facts[q] = True
        return st

    def e_mcall(self, st, e, fr):
        f = e["f"]
        n, cls = f["n"], f.get("cls", "")
        if n in ("operator bool", "operator!", "operator void *") and not e["args"] and isinstance(e.get("obj"), dict):
            r = []
            for v, t in self.ev(st, e["obj"], fr):
                for b, u in self.truth(v, t, fr):
                    r.append((b if n != "operator!" or b is None else not b, u))
            return r
        if cls.startswith("rapidxml"):
            return self.xml(st, e, fr)
        if n == "is_open" and "fstream" in cls:
            key = (fr.fn.file, e.get("l"), "opening the file")
            self.sites[("failure",) + key] = self.where(fr, e)
            bad = st.copy()
            bad.failed = bad.failed | {key}
            return [(True, st), (False, bad)]
        if n == "size" and not e["args"] and cls.startswith("std::vector"):
            return [(("sz",), st)]
        g = self.byusr.get(f.get("u"))
        if not e["args"] and f.get("const") and g is not None and g.body is not None and counts(g.body):
            return [(("sz",), st)]
        l = self.lval(st, e, fr)
        if l is not None:
            self.use(st, l, e, fr)
            v = self.whole(st, l)
            if v is None and isinstance(l[0], tuple):
                d = deps(st.v.get(l[0]))
                v = D(d if l[1] == "[]" else [tag(x, l[1]) for x in d])
            return [(v, st)]
        obj = e.get("obj")
        base = self.base_of(st, obj, fr) if isinstance(obj, dict) else None
        const = f.get("const")
        outs = []
        if const or base is None:
            start = [(v, t) for v, t in self.ev(st, obj, fr)] if isinstance(obj, dict) else [(None, st)]
        else:
            start = [(self.whole(st, base), st)]
        for ov, t in start:
            for vals, u in self.args(t, e["args"], fr, f):
                u = u.copy()
                ds = deps(ov)
                for v in vals:
                    ds = ds | deps(v)
                self.sink_call(fr, e, f, vals, u, base, obj)
                if n in ("reset",) and base is not None:
                    u = self.store(u, base, vals[0] if vals else ("null",))
                    outs.append((D([]), u))
                    continue
                if n in ("get",):
                    outs.append((ov, u))
                    continue
                if n in ("emplace_back", "push_back", "insert", "emplace") and base is not None:
                    et = f.get("cls", "")
                    add = set()
                    for i, v in enumerate(vals):
                        add |= deps(v) if len(vals) == 1 else {tag(x, i) for x in deps(v)}
                    u.v[base] = D(deps(u.v.get(base)) | add)
                    u.un = u.un - {base}
                    outs.append((D([]), u))
                    continue
                if not const and base is not None:
                    if n in ("clear", "setZero", "setIdentity"):
                        u = self.store(u, base, D([]))
                    else:
                        new = set()
                        for v in vals:
                            new |= deps(v)
                        u.v[base] = D(deps(u.v.get(base)) | new)
                        if self.sets(n):
                            u.un = u.un - {base}
                u = self.outs(u, e, f, vals, fr, ds)
                t2 = fr.fn.types[e["t"]] if e.get("t") is not None else "?"
                outs.append((None if base_type(t2) == "bool" and not ds else D(ds), u))
        return outs

    def sets(self, n):
        return n.startswith("set") or n in ("resize", "assign", "fill", "swap", "col", "row", "segment", "block", "array", "head", "tail", "noalias", "data", "normalize")

    def xml(self, st, e, fr):
        n = e["f"]["n"]
        out = []
        for ov, t in self.ev(st, e["obj"], fr):
            q = ov if isinstance(ov, tuple) and ov and ov[0] in ("q", "node") else None
            if isinstance(q, tuple) and q[0] == "q":
                t = self.deref(t, q, e, fr)
            for vals, u in self.args(t, e["args"], fr, e["f"]):
                if n in QUERY:
                    name = next((v[1] for v in vals if isinstance(v, tuple) and v and v[0] == "s"), "*")
                    if n in ("next_sibling", "previous_sibling"):
                        if name == "*" and q is not None:
                            name = elem(q)
                        r = ("q", "sib", ("el", elem(q) if q is not None else "?"), name)
                        u = u.copy()
                        for k in [k for k in u.facts if k[0] == "q" and (k == r or contains(k[2], r) or q is not None and contains(k[2], q))]:
                            del u.facts[k]
                    else:
                        base = q if q is not None else ("el", "?")
                        if base[0] == "node":
                            base = base[1]
                        r = ("q", QUERY[n], base, name)
                    out.append((r, u))
                elif n in ("value", "name"):
                    if q is not None and q[0] == "q" and q[1] == "attr":
                        out.append((D(["%s.%s" % (elem(q[2]), q[3])]), u))
                    else:
                        out.append((D([elem(q) + "()"]), u))
                else:
                    out.append((D([]), u))
        return out

    def args(self, st, args, fr, f):
        """evaluate arguments; those taken by non-constant reference are not read"""
        pm = f.get("pm", [])
        outs = [((), st)]
        for i, a in enumerate(args):
            nxt = []
            for vs, t in outs:
                if i < len(pm) and pm[i] == "r":
                    l = self.lval(t, a, fr)
                    if l is not None:
                        nxt.append((vs + (self.whole(t, l) if l[0] != "node" else l,), t))
                        continue
                for v, u in self.ev(t, a, fr):
                    nxt.append((vs + (v,), u))
            outs = nxt
        return outs

    def outs(self, u, e, f, vals, fr, ds):
        """an unknown function sets what it takes by non-constant reference"""
        pm = f.get("pm", [])
        for i, a in enumerate(e.get("args", [])):
            if i < len(pm) and pm[i] == "r":
                l = self.lval(u, a, fr)
                if l is None:
                    l = self.base_of(u, a, fr)
                if l is not None and l[0] != "node":
                    u = self.store(u, l, D(set(ds) | {"%s#%d" % (f["n"], i)}))
        return u

    def e_call(self, st, e, fr):
        f = e["f"]
        q, n = f["q"], f["n"]
        if f.get("noret") or q in ("exit", "std::exit", "abort", "std::abort", "std::terminate"):
            return []
        if n == "swap" and len(e["args"]) == 2:
            a, b = self.lval(st, e["args"][0], fr), self.lval(st, e["args"][1], fr)
            if a is not None and b is not None and a[0] != "node" and b[0] != "node":
                va, vb = self.whole(st, a), self.whole(st, b)
                st = self.store(st, a, vb)
                st = self.store(st, b, va)
                return [(D([]), st)]
        if n in ("move", "forward") and len(e["args"]) == 1:
            return self.ev(st, e["args"][0], fr)
        if f.get("u") in self.fns:
            return self.loader(st, e, fr, self.fns[f["u"]])
        rt = base_type(fr.fn.types[e["t"]]) if e.get("t") is not None else "?"
        g = self.byusr.get(f.get("u"))
        if f.get("repo") and rt == "bool" and "r" not in f.get("pm", []) and g is not None and g.body is not None and fr.depth < 6:
            return self.loader(st, e, fr, g)           # a test of values, wherever it is written
        outs = []
        if n in ("make_unique", "make_shared", "allocate_shared"):
            m = re.search(r"_ptr<([\w:]+)", fr.fn.types[e["t"]] if e.get("t") is not None else "")
            cls = m.group(1) if m else "?"
            for vals, u in self.args(st, e["args"], fr, f):
                for k, v in enumerate(vals):
                    self.sinks.setdefault((cls, k), set()).update(deps(v))
                outs.append((("new", cls), u))
            return outs
        for vals, u in self.args(st, e["args"], fr, f):
            ds = set()
            pm = f.get("pm", [])
            for i, v in enumerate(vals):
                if not (i < len(pm) and pm[i] == "r"):
                    ds |= deps(v)
            if f.get("repo") and rt == "bool" and READS.match(q) and "r" in pm:
                key = (fr.fn.file, e.get("l"), "reading %s" % (", ".join(sorted(ds)) or "a value"))
                self.sites[("failure",) + key] = self.where(fr, e)
                good = u
                for i, a in enumerate(e["args"]):
                    if i < len(pm) and pm[i] == "r":
                        l = self.lval(good, a, fr)
                        if l is None:
                            l = self.base_of(good, a, fr)
                        if l is not None and l[0] != "node":
                            good = self.setpart(good, l, D(ds))
                            for d in ds:
                                good.facts[("rng", d)] = FULL
                                good.facts[("idx", d)] = "unchecked"
                                good.facts.pop(("idx", "abs:" + d), None)
                bad = u.copy()
                bad.failed = bad.failed | {key}
                outs += [(True, good), (False, bad)]
                continue
            u = self.outs(u, e, f, vals, fr, ds)
            self.sink_call(fr, e, f, vals, u, None, None)
            if n in ("abs", "fabs", "labs"):
                ds = {"abs:" + d for d in ds}
            outs.append((None if rt == "bool" else D(ds), u))
        return outs

    def setpart(self, t, l, v):
        """store into a variable or one component of it; the variable counts as set when every component was"""
        if isinstance(l, tuple) and isinstance(l[0], tuple) and l[1] != "[]":
            un = t.un
            t = self.store(t, l, v)
            t.un = un
            return t
        return self.store(t, l, v)

    def loader(self, st, e, fr, fn):
        f = e["f"]
        outs = []
        inline = any(strlit(a) for a in e["args"]) or base_type(fn.ret) != "bool" or not any("rapidxml" in fn.types[p["t"]] for p in fn.params)
        for vals, u in self.args(st, e["args"], fr, f):
            if inline and fr.depth < 6:
                outs += self.inlined(u, e, fr, fn, vals)
                continue
            ctx = tuple(elem(v) if isinstance(v, tuple) and v and v[0] in ("node", "q") else None for v in vals)
            res = self.summary(fn, ctx)
            key = (fr.fn.file, e.get("l"), "%s%s" % (fn.name, "" if not any(ctx) else " of " + "/".join(x for x in ctx if x)))
            self.sites[("failure",) + key] = self.where(fr, e)
            good = u
            pm = f.get("pm", [])
            for i, a in enumerate(e["args"]):
                if i < len(pm) and pm[i] == "r":
                    l = self.lval(good, a, fr)
                    if l is None or l[0] == "node":
                        continue
                    must, ds = res.get(i, (False, frozenset()))
                    ds = self.subst(ds, vals)
                    if must:
                        good = self.store(good, l, D(ds))
                    else:
                        good = good.copy()
                        good.v[l] = D(deps(self.whole(good, l)) | ds)
            bad = u.copy()
            bad.failed = bad.failed | {key}
            outs += [(True, good), (False, bad)]
        return outs

    def subst(self, ds, vals):
        out = set()
        for d in ds:
            m = re.match(r"in:(\d+)(.*)", d)
            if m and int(m.group(1)) < len(vals):
                out |= {x + m.group(2) for x in deps(vals[int(m.group(1))])}
            else:
                out.add(d)
        return frozenset(out)

    def inlined(self, st, e, fr, fn, vals):
        self.frames += 1
        g = Frame(fn, self.frames, False)
        g.depth = fr.depth + 1
        g.inline = True
        s = st.copy()
        pm = e["f"].get("pm", [])
        for i, p in enumerate(fn.params):
            c = (g.id, p["id"])
            if i < len(pm) and pm[i] == "r":
                l = self.lval(s, e["args"][i], fr)
                if l is not None:
                    s.v[c] = l if l[0] == "node" else ("lv", l)
                    continue
            s.v[c] = vals[i] if i < len(vals) else D([])
        out, _, _ = self.block([s], fn.body, g)
        res = [(v, t) for v, t, _ in g.rets] + [(D([]), t) for t in out]
        clean = []
        for v, t in res:
            t = t.copy()
            t.v = {k: x for k, x in t.v.items() if root(k) != g.id}
            t.un = frozenset(x for x in t.un if root(x) != g.id)
            clean.append((v, t))
        return clean

    def e_new(self, st, e, fr):
        i = e.get("init") or {}
        cls = base_type(fr.fn.types[e["nt"]]) if e.get("nt") is not None else "?"
        outs = []
        for vals, u in self.args(st, i.get("args", []), fr, i.get("f", {})):
            for k, v in enumerate(vals):
                self.sinks.setdefault(("%s" % cls, k), set()).update(deps(v))
            outs.append((("new", cls), u))
        return outs

    def e_ctor(self, st, e, fr):
        f = e["f"]
        cls = f.get("cls", "")
        outs = []
        for vals, u in self.args(st, e.get("args", []), fr, f):
            if len(vals) >= 1 and (cls.startswith("std::") or f.get("ctor") in ("copy", "move")):
                outs.append((vals[0], u))
                continue
            ds = set()
            if cls in self.m.recs:
                for k, v in enumerate(vals):
                    self.sinks.setdefault((cls, k), set()).update(deps(v))
            for k, v in enumerate(vals):
                ds |= {tag(d, k) for d in deps(v)} if len(vals) > 1 else deps(v)
            outs.append((D(ds), u))
        return outs

    e_tctor = e_ctor

    def sink_call(self, fr, e, f, vals, u, base, obj):
        n = f["n"]
        cls = f.get("cls", "")
        if n in ("emplace_back", "push_back") and len(vals) >= 1:
            et = fr.fn.types[obj["t"]] if isinstance(obj, dict) and obj.get("t") is not None else cls
            rec = short(et) in self.m.recs
            if rec and n == "push_back":
                return                       # built by a constructor seen elsewhere
            for i, v in enumerate(vals):
                self.sinks.setdefault((short(et) if rec and len(vals) > 1 else "list of " + short(et), i), set()).update(deps(v))
        elif cls in self.m.recs and not f.get("const"):
            for i, v in enumerate(vals):
                self.sinks.setdefault(("%s.%s" % (cls, n), i), set()).update(deps(v))

    def e_opcall(self, st, e, fr):
        f = e["f"]
        n = f["n"]
        a = e["args"]
        if n == "operator=" and len(a) == 2:
            return self.assign(st, a[0], a[1], fr, "=", e)
        if n in ("operator+=", "operator-=", "operator*=", "operator/=") and len(a) == 2:
            return self.assign(st, a[0], a[1], fr, n[8:], e)
        if n == "operator!" and len(a) == 1:
            return [(None if b is None else not b, u) for v, t in self.ev(st, a[0], fr) for b, u in self.truth(v, t, fr)]
        if n in ("operator==", "operator!=") and len(a) == 2:
            out = []
            for v, t in self.ev(st, a[0], fr):
                for w, u in self.ev(t, a[1], fr):
                    out += self.equal(v, w, u, n == "operator==", fr)
            return out
        if n == "operator<<" or n == "operator,":
            chain = []
            x = e
            while isinstance(x, dict) and x.get("k") in ("opcall", "cast", "icast", "mat", "paren") :
                if x.get("k") != "opcall":
                    x = x["e"]
                    continue
                if x["f"]["n"] not in ("operator<<", "operator,"):
                    break
                chain.insert(0, x["args"][1])
                x = x["args"][0]
            l = self.lval(st, x, fr) if isinstance(x, dict) else None
            if l is not None and l[0] != "node" and l[0] != "g" and "ostream" not in self.tyof(x, fr):
                outs = [(0, st)]
                sts = [((), st)]
                for c in chain:
                    sts = [(vs + (v,), u) for vs, t in sts for v, u in self.ev(t, c, fr)]
                res = []
                for vs, t in sts:
                    t = self.forget(t, l)
                    t.v[l] = D([])
                    for i, v in enumerate(vs):
                        t.v[(l, str(i))] = v
                    res.append((D([]), t))
                return res
            if "ostream" in self.tyof(x, fr) if isinstance(x, dict) else False:
                for c in chain:
                    st = (self.ev(st, c, fr) or [(None, st)])[0][1] if self.safe(c) else st
                return [(D([]), st)]
        l = self.lval(st, e, fr)
        if l is not None and n in ("operator()", "operator[]"):
            self.use(st, l, e, fr)
            v = self.whole(st, l)
            if v is None:
                d = deps(st.v.get(l[0]))
                v = D(d if l[1] == "[]" else ["%s[%s]" % (x, l[1]) for x in d])
            return [(v, st)]
        if n in ("operator->", "operator*") and len(a) == 1:
            return self.ev(st, a[0], fr)
        outs = []
        read = n == "operator>>" and len(a) == 2 and "stream" in self.tyof(a[0], fr)
        for vals, u in self.args(st, a, fr, {"pm": ["r", "r"]} if read else {"pm": []}):
            ds = set()
            for v in vals:
                ds |= deps(v)
            if read:
                l = self.lval(u, a[1], fr)
                if l is not None and l[0] != "node":
                    g = self.store(u, l, D(ds))
                    if self.tested and len(ds) == 1:
                        key = (fr.fn.file, e.get("l"), "reading %s" % ", ".join(sorted(ds)))
                        self.sites[("failure",) + key] = self.where(fr, e)
                        for d in ds:
                            g.facts[("rng", d)] = FULL
                            g.facts[("idx", d)] = "unchecked"
                        bad = u.copy()
                        bad.failed = bad.failed | {key}
                        outs += [(True, g), (False, bad)]
                        continue
                    u = g
            outs.append((D(ds), u))
        return outs

    def safe(self, c):
        return False

    def tyof(self, x, fr):
        return fr.fn.types[x["t"]] if isinstance(x, dict) and x.get("t") is not None else "?"


def pending(facts):
    """what counts as accepted when a state with these facts returns success"""
    out, groups = set(), {}
    for k, x in facts.items():
        if k[0] == "abs":
            out.add(("abs", k[1:]))
        elif k[0] in ("rng", "idx"):
            out.add((k[0], (k[1], x)))
        elif k[0] == "eq":
            groups.setdefault(k[1], []).append(x)
    out |= {("name", g) for g, xs in groups.items() if not any(xs)}
    return frozenset(out)


def counts(body):
    """the body only returns the number of entries of a list"""
    ss = [x for x in body.get("s", []) if isinstance(x, dict) and x.get("k") not in ("assert", "nop", "null", None)]
    if len(ss) != 1 or ss[0].get("k") != "ret":
        return False
    e = ss[0].get("e")
    while isinstance(e, dict) and (e.get("k") in ("cast", "icast", "paren", "mat") or e.get("k") == "ilist" and len(e.get("args", [])) == 1):
        e = e.get("e") or e["args"][0]
    return isinstance(e, dict) and e.get("k") == "mcall" and e["f"]["n"] == "size" and e["f"].get("cls", "").startswith("std::vector")


def base_cell(c):
    while isinstance(c, tuple) and len(c) == 2 and isinstance(c[0], tuple):
        c = c[0]
    return c


def contains(k, r):
    if k == r:
        return True
    if isinstance(k, tuple):
        return any(contains(x, r) for x in k if isinstance(x, tuple))
    return False


def root(c):
    while isinstance(c, tuple):
        c = c[0]
    return c


def strlit(a):
    while isinstance(a, dict) and (a.get("k") in ("icast", "cast", "mat", "paren") or a.get("k") in ("ctor", "tctor") and a.get("args")):
        a = a["e"] if "e" in a and isinstance(a["e"], dict) else a["args"][0]
    return isinstance(a, dict) and a.get("k") == "str"


def short(t):
    t = base_type(t)
    m = re.match(r"std::vector<(.*)>$", t)
    t = m.group(1) if m else t
    m = re.match(r"std::unique_ptr<(.*)>$", t)
    return m.group(1) if m else t


def nodes(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from nodes(v)
    elif isinstance(n, list):
        for v in n:
            yield from nodes(v)


FULL = (float("-inf"), True, float("inf"), True)


def narrow(iv, op, c):
    """interval (low, open, high, open) met with a comparison; None when empty"""
    lo, lop, hi, hop = iv
    if op in (">", ">="):
        if c > lo or c == lo and op == ">":
            lo, lop = c, op == ">"
    else:
        if c < hi or c == hi and op == "<":
            hi, hop = c, op == "<"
    if lo > hi or lo == hi and (lop or hop):
        return None
    return (lo, lop, hi, hop)


class Frame:
    def __init__(self, fn, i, modular):
        self.fn, self.id, self.rets, self.depth, self.inline = fn, i, [], 0, False
        self.modular = modular
        self.params = {p["id"] for p in fn.params}

    def summary_param(self, c):
        return c[1] in self.params
