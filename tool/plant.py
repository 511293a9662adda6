#!/usr/bin/env python3
"""Write one planted bug: seed(id, prop, needs, breaks, edits, cpp, srcs) confirms it in a scratch copy and stores it under seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# builds the demonstration against the sources in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
flags="-std=c++14 -O0 -w -fno-access-control %(flags)s -I. -I$here -I/usr/include/eigen3 -ffunction-sections -fdata-sections"
n=0
for f in %(srcs)s "$here/demo.cpp"; do
  n=$((n+1))
  ( g++ $flags -c "$f" -o "$tmp/$n.o" || touch "$tmp/failed" ) &
  while [ $(jobs -r | wc -l) -ge 8 ]; do wait -n; done
done
wait
[ -e "$tmp/failed" ] && { echo "demo does not compile"; exit 3; }
g++ "$tmp"/*.o -o "$tmp/demo" -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all || exit 3
cd "$tmp" && timeout 120 ./demo
'''
RAPID = '''#include <boost/property_tree/detail/rapidxml.hpp>
namespace rapidxml = boost::property_tree::detail::rapidxml;
'''


def sh(cmd, cwd):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def seed(id, prop, needs, breaks, edits, cpp, srcs, flags="-DNDEBUG", extra=None, base="/repo"):
    d = os.path.join(VERIF, "seeded", id)
    wt = tempfile.mkdtemp(prefix="wt")
    sh("rm -rf %s && git -C %s worktree prune && git clone -q %s %s" % (wt, base, base, wt), "/tmp")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "demo.cpp"), "w") as f:
        f.write(cpp)
    for n, t in (extra or {}).items():
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(SH % dict(srcs=" ".join(srcs), flags=flags))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    r0 = sh(os.path.join(d, "demo.sh"), wt)
    for fn, a, b in edits:
        p = os.path.join(wt, fn)
        s = open(p).read()
        if s.count(a) != 1:
            print(id, "EDIT matches %d times in %s: %r" % (s.count(a), fn, a))
            sh("rm -rf %s" % wt, "/tmp")
            return False
        open(p, "w").write(s.replace(a, b))
    diff = sh("git diff", wt).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    r1 = sh(os.path.join(d, "demo.sh"), wt)
    # the changed files must still compile where they can
    sh("rm -rf %s" % wt, "/tmp")
    good = r0.returncode == 0 and r1.returncode not in (0, 3, 124)
    print(id, "clean rc=%d" % r0.returncode, "patched rc=%d" % r1.returncode, "OK" if good else "NOT KEPT")
    if not good:
        print(r0.stdout[-1500:], "\n----\n", r1.stdout[-1500:])
    return good
