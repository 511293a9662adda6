#!/usr/bin/env python3
"""Random small mutations of the repository, each run through all checks in a scratch copy (measures what the checks see).
automut.py WORKER NWORKERS SEED PER_FILE OUT [path substrings]"""
import os, random, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r"(?<!\.)\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"), (r"\b2\b(?!\.)", "3"), (r"\b3\b(?!\.)", "2"), (r"\b2\.0\b", "1.0"), (r"\b0\.5\b", "1.0"), (r"([a-z_A-Z])0\b", r"\g<1>1"), (r"([a-z_A-Z])1\b", r"\g<1>0"),
       (r"\bfirst\b", "second"), (r"\bsecond\b", "first"), (r"\.x\(\)", ".y()"), (r"\.y\(\)", ".x()"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"&&", "||"), (r"\|\|", "&&"), (r"\bmin\b", "max"), (r"\bmax\b", "min"),
       (r"\.transpose\(\)", ""), (r"= - ", "= "), (r"\( - ", "( "), (r"!", ""), (r" \* dt\b", ""), (r"\bsin\b", "cos"), (r"\bcos\b", "sin"), (r"\bM\b", "Minv"), (r"\bq0\b", "q1"), (r"\bv0\b", "v1"), (r"\br0\b", "r1"),
       ("DEL", None), ("DEL", None), ("DEL", None), ("SWAP", None)]


def sites(src):
    out, dbg, depth = [], 0, 0
    ls = src.split("\n")
    for i, l in enumerate(ls):
        if re.match(r"\s*#\s*ifn?def|\s*#\s*if\b", l):
            depth += 1
            if "NDEBUG" in l and not dbg:
                dbg = depth
        elif re.match(r"\s*#\s*endif", l):
            if dbg == depth:
                dbg = 0
            depth -= 1
        if dbg or re.match(r"\s*(#|//|\*|assert|static_assert|using |namespace|class |struct )", l) or "std::cerr" in l or "std::cout" in l or not l.startswith("  ") or "default:" in l:
            continue
        body = l.split("//")[0]
        body = re.sub(r"assert\(.*", "", body)
        for k, (a, b) in enumerate(OPS):
            if a == "DEL":
                if re.match(r"\s+[\w\.\->\(\)\[\]]+.*;\s*$", body) and not re.match(r"\s*(return|const|scalar|unsigned|int|bool|Vector|Matrix|std::|SparseMatrix|auto|break|continue|using|typedef|delete|throw)\b", body) and ("=" in body or "(" in body):
                    out.append((i, k, None))
            elif a == "SWAP":
                if re.search(r"\( (\w+), (\w+) \)", body):
                    out.append((i, k, None))
            else:
                for m in re.finditer(a, body):
                    out.append((i, k, m.span()))
    return ls, out


def apply(ls, s):
    i, k, sp = s
    l = ls[i]
    a, b = OPS[k]
    if a == "DEL":
        n = re.match(r"\s*", l).group(0) + ";"
    elif a == "SWAP":
        n = re.sub(r"\( (\w+), (\w+) \)", r"( \2, \1 )", l, count=1)
    else:
        n = l[:sp[0]] + re.sub(a, b, l[sp[0]:sp[1]]) + l[sp[1]:]
    return ls[:i] + [n] + ls[i + 1:], l, n


def main(w, nw, seed, per, out, subs):
    W = "/tmp/autorepo%d" % w
    subprocess.run("rm -rf %s && git clone -q /repo %s" % (W, W), shell=True, check=True)
    files = subprocess.run("git ls-files '*.cpp'", shell=True, cwd=W, capture_output=True, text=True).stdout.split()
    files = [f for f in files if re.match(r"(scisim|ball2d|rigidbody2d|rigidbody3d|ball2dcli|rigidbody2dcli|rigidbody3dcli|ball2dutils|rigidbody2dutils|rigidbody3dutils)/", f) and "QL/" not in f and "bogus/" not in f and "Render" not in f]
    if subs:
        files = [f for f in files if any(s in f for s in subs)]
    files = [f for i, f in enumerate(sorted(files)) if i % nw == w]
    props = sorted("P" + f[1:3] for f in os.listdir(os.path.join(V, "vp/checks")) if re.fullmatch(r"p\d\d\.py", f))
    env = dict(os.environ, VP_REPO=W, VP_EVIDENCE="/tmp/autoev%d" % w, VP_JOBS="3")
    rnd = random.Random("%s-%s" % (seed, w))
    jobs = []
    for f in files:
        ls, ss = sites(open(os.path.join(W, f)).read())
        byline = {}
        for s in ss:
            byline.setdefault(s[0], []).append(s)
        lines = sorted(byline)
        rnd.shuffle(lines)
        k = per if len(ls) < 300 else per * 2 if len(ls) < 600 else per * 4
        jobs += [(f, rnd.choice(byline[l])) for l in lines[:k]]
    rnd.shuffle(jobs)
    for f, s in jobs:
        p = os.path.join(W, f)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=W)
        ls = open(p).read().split("\n")
        new, a, b = apply(ls, s)
        if a == b:
            continue
        open(p, "w").write("\n".join(new))
        r = subprocess.run("g++ -std=c++14 -fsyntax-only -w -I. -I/usr/include/eigen3 $(ls -d %s/stubs %s/stubs/* | sed 's/^/-isystem /') %s" % (V, V, f), shell=True, cwd=W, capture_output=True, text=True)
        if r.returncode:
            continue
        r = subprocess.run([sys.executable, os.path.join(V, "check.py")] + props, cwd=V, env=env, capture_output=True, text=True)
        hit = sorted(set(re.findall(r"VIOLATION property=(\S+)", r.stdout)))
        with open(out, "a") as fo:
            fo.write("%s %s:%d\n    - %s\n    + %s\n" % ("CAUGHT " + ",".join(hit) if hit else "MISSED", f, s[0] + 1, a.strip()[:200], b.strip()[:200]))
    subprocess.run("rm -rf %s" % W, shell=True)


main(int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], int(sys.argv[4]), sys.argv[5], sys.argv[6:])
