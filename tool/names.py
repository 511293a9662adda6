#!/usr/bin/env python3
"""report names used in vp/ that are not defined anywhere (star imports hide them from linters)"""
import builtins, dis, importlib, os, sys, types
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)


def codes(c):
    yield c
    for k in c.co_consts:
        if isinstance(k, types.CodeType):
            yield from codes(k)


bad = 0
for d, p in (("vp", "vp."), ("vp/checks", "vp.checks.")):
    for f in sorted(os.listdir(os.path.join(V, d))):
        if f.endswith(".py") and f != "__init__.py":
            mod = importlib.import_module(p + f[:-3])
            src = open(os.path.join(V, d, f)).read()
            for c in codes(compile(src, f, "exec")):
                for i in dis.get_instructions(c):
                    if i.opname == "LOAD_GLOBAL" and not hasattr(mod, i.argval) and not hasattr(builtins, i.argval):
                        print("%s/%s: %s in %s" % (d, f, i.argval, c.co_name)); bad = 1
sys.exit(bad)
