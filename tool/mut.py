#!/usr/bin/env python3
"""Try edits against checks in a scratch copy of /repo.
mut.py FILE.txt PROPS...   FILE.txt holds blocks:
  ### name [quiet]
  path
  <<<<
  old text
  ====
  new text
  >>>>
(several path/<<<</====/>>>> groups per block). 'quiet' marks an edit that keeps the behaviour."""
import os, re, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mutrepo"


def parse(t):
    for blk in re.split(r"^### ", t, flags=re.M)[1:]:
        head, rest = blk.split("\n", 1)
        eds = re.findall(r"^(\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>$", rest, flags=re.S | re.M)
        yield head.split()[0], "quiet" in head.split()[1:], eds


def main(a):
    props = a[1:]
    sel = os.environ.get("ONLY")
    if not os.path.isdir(W):
        subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    subprocess.run("git fetch -q %s HEAD && git reset -q --hard FETCH_HEAD" % os.environ.get("BASE", "/repo"), shell=True, cwd=W, check=True)
    env = dict(os.environ, VP_REPO=W, VP_EVIDENCE="/tmp/mutev")
    for name, quiet, eds in parse(open(a[0]).read()):
        if sel and sel not in name:
            continue
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=W)
        bad = False
        for f, old, new in eds:
            p = os.path.join(W, f)
            s = open(p).read()
            if s.count(old) != 1:
                print("%-40s EDIT matches %d times in %s" % (name, s.count(old), f)); bad = True; break
            open(p, "w").write(s.replace(old, new))
        if bad or not eds:
            continue
        if os.environ.get("CC"):
            for f in sorted({f for f, _, _ in eds if f.endswith(".cpp")}):
                r = subprocess.run("g++ -std=c++14 -fsyntax-only -w -I. -I/usr/include/eigen3 " + f, shell=True, cwd=W, capture_output=True, text=True)
                if r.returncode:
                    print("   does not compile:", r.stderr[:200])
        r = subprocess.run([sys.executable, os.path.join(V, "check.py")] + props, cwd=V, env=env, capture_output=True, text=True)
        hit = sorted(set(re.findall(r"VIOLATION property=(\S+)", r.stdout)))
        und = re.findall(r"(P\d+): .*? (\d+) undecided", r.stdout)
        why = re.findall(r"^violated: (.*)", r.stdout, flags=re.M)
        verdict = ("FALSE ALARM" if hit else "quiet") if quiet else ("caught" if hit else "MISSED")
        print("%-40s %-11s %s %s und=%s %s" % (name, verdict, ",".join(hit), "rc=%d" % r.returncode if r.returncode not in (0, 1) else "", ",".join("%s:%s" % u for u in und if u[1] != "0"), (why[0][:110] if why else "") + (r.stderr[-200:] if r.returncode not in (0, 1) else "")))
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=W)


main(sys.argv[1:])
