"""Front end driver: builds the clang-based extractor when needed and runs it over
every non-test, non-GUI translation unit of /repo's working tree."""
import re
import hashlib, json, os, shutil, subprocess, sys, tempfile, pickle
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SKIP_DIRS = {"_build", ".git", "assets", "resources", "post_processing", "cmake", "scripts_include", ".circleci"}


def is_skipped_dir(d):
    return d in SKIP_DIRS or d.endswith("tests") or d.endswith("qt4") or d.startswith(".") or d.startswith("build")


class AnalysisBroken(Exception):
    pass


def build_extractor():
    src = os.path.join(VERIF, "tool", "extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "extract-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + ".tmp%d" % os.getpid()
    cmd = ["clang++-18" if shutil.which("clang++-18") else "clang++", "-std=c++17", "-O1", "-fno-rtti",
           "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
           "-D__STDC_LIMIT_MACROS", src, "-o", tmp, "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1",
           "-L/usr/lib/llvm-18/lib", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken("building the extractor failed:\n" + r.stderr[-3000:])
    os.replace(tmp, exe)
    return exe


def sources():
    out = []
    for top in sorted(os.listdir(REPO)):
        p = os.path.join(REPO, top)
        if not os.path.isdir(p) or is_skipped_dir(top):
            continue
        for d, dirs, files in os.walk(p):
            dirs[:] = sorted(x for x in dirs if not is_skipped_dir(x))
            for f in sorted(files):
                if f.endswith((".cpp", ".cc", ".cxx")):
                    out.append(os.path.relpath(os.path.join(d, f), REPO))
    return out


def all_inputs():
    out = []
    for top in sorted(os.listdir(REPO)):
        p = os.path.join(REPO, top)
        if not os.path.isdir(p) or is_skipped_dir(top):
            continue
        for d, dirs, files in os.walk(p):
            dirs[:] = sorted(x for x in dirs if not is_skipped_dir(x))
            for f in sorted(files):
                if f.endswith((".cpp", ".cc", ".cxx", ".h", ".hpp", ".hh", ".inl")):
                    out.append(os.path.join(d, f))
    return out


FEATURES = ["-DUSE_HDF5", "-DUSE_PYTHON", "-DIPOPT_FOUND", "-DQL_FOUND", "-DFORTRAN_FOUND",
            "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION"]
BASE = ["-std=c++14", "-I.", "-I" + os.path.join(VERIF, "stubs"), "-I/usr/include/eigen3"]
CONFIGS = {
    "full": FEATURES,                       # every optional feature on, asserts visible
    "release": FEATURES + ["-DNDEBUG"],     # every optional feature on, asserts compiled out
    "plain": [],                            # no optional feature
}


def tree_hash(config):
    h = hashlib.sha256()
    h.update(config.encode())
    for base in (os.path.join(VERIF, "tool", "extract.cpp"),):
        h.update(open(base, "rb").read())
    for d, dirs, files in os.walk(os.path.join(VERIF, "stubs")):
        dirs.sort()
        for f in sorted(files):
            h.update(open(os.path.join(d, f), "rb").read())
    for f in all_inputs():
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


_inc_re = re.compile(rb'^[ \t]*#[ \t]*include[ \t]*([<"])([^>"\n]+)[>"]', re.M)
_texts = {}
_incs = {}


def _text(f):
    if f not in _texts:
        try:
            with open(f, "rb") as h:
                _texts[f] = h.read()
        except OSError:
            _texts[f] = None
    return _texts[f]


def _includes(f):
    """files of the repository or of the stubs that f may include, whatever the preprocessor decides"""
    if f not in _incs:
        out = set()
        for kind, name in _inc_re.findall(_text(f) or b""):
            name = name.decode("utf-8", "replace")
            for d in (os.path.dirname(f), REPO, os.path.join(VERIF, "stubs")):
                p = os.path.normpath(os.path.join(d, name))
                if os.path.isfile(p):
                    out.add(p)
        _incs[f] = out
    return _incs[f]


def tu_hash(config, src, salt):
    """content of a translation unit and of everything it may include"""
    todo, seen = [os.path.join(REPO, src)], set()
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        todo += _includes(f)
    h = hashlib.sha256(salt)
    h.update(config.encode())
    for f in sorted(seen):
        h.update(os.path.relpath(f, REPO if f.startswith(REPO + "/") else VERIF).encode() + b"\0" + hashlib.sha256(_text(f) or b"").digest())
    return h.hexdigest()[:24]


def _salt():
    h = hashlib.sha256()
    with open(os.path.join(VERIF, "tool", "extract.cpp"), "rb") as f:
        h.update(f.read())
    for d, dirs, files in os.walk(os.path.join(VERIF, "stubs")):
        dirs.sort()
        for f in sorted(files):
            with open(os.path.join(d, f), "rb") as g:
                h.update(f.encode() + g.read())
    h.update(repr((BASE, CONFIGS)).encode())
    return h.digest()


_mem = {}


def extract(config="full", only=None, verbose=False):
    if only is None and not verbose:
        if config not in _mem:
            _mem[config] = _extract(config)
        return _mem[config]
    return _extract(config, only, verbose)


def _extract(config="full", only=None, verbose=False):
    """Returns a list of (source, parsed json). The cache is keyed by the content of
    every repository source file, so a changed tree is always analysed again."""
    exe = build_extractor()
    key = tree_hash(config)
    cdir = os.path.join(BUILD, "cache")
    cfile = os.path.join(cdir, "%s-%s.pickle" % (config, key))
    if os.path.exists(cfile) and only is None:
        try:
            with open(cfile, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    srcs = sources() if only is None else only
    if not srcs:
        raise AnalysisBroken("no translation units found under " + REPO)
    tmpd = tempfile.mkdtemp(prefix="vpx-")
    try:
        salt = _salt()
        tdir = os.path.join(cdir, "tu-" + config)
        os.makedirs(tdir, exist_ok=True)
        _texts.clear()
        _incs.clear()
        keys = {s: tu_hash(config, s, salt) for s in srcs} if only is None else {}

        def one(i_s):
            i, s = i_s
            tf = os.path.join(tdir, s.replace("/", "__") + "-" + keys[s]) if s in keys else None
            if tf and os.path.exists(tf):
                try:
                    with open(tf, "rb") as f:
                        return s, pickle.load(f), ""
                except Exception:
                    pass
            out = os.path.join(tmpd, "%d.json" % i)
            r = subprocess.run([exe, REPO, out, s, "--"] + BASE + CONFIGS[config], cwd=REPO,
                               capture_output=True, text=True)
            if not os.path.exists(out):
                return s, None, r.stderr
            with open(out) as f:
                d = json.load(f)
            os.unlink(out)
            if tf:
                try:
                    old = sorted((x for x in os.listdir(tdir) if x.startswith(os.path.basename(tf)[:-24])), key=lambda x: os.path.getmtime(os.path.join(tdir, x)))
                    for x in old[:-3]:
                        os.unlink(os.path.join(tdir, x))
                    with open(tf + ".tmp%d" % os.getpid(), "wb") as f:
                        pickle.dump(d, f, protocol=4)
                    os.replace(tf + ".tmp%d" % os.getpid(), tf)
                except OSError:
                    pass
            return s, d, r.stderr
        with ThreadPoolExecutor(max_workers=int(os.environ.get("VP_JOBS", "8"))) as ex:
            res = list(ex.map(one, list(enumerate(srcs))))
    finally:
        shutil.rmtree(tmpd, ignore_errors=True)
    bad = [s for s, d, e in res if d is None]
    if bad:
        raise AnalysisBroken("extractor produced nothing for: " + ", ".join(bad[:10]))
    if verbose:
        for s, d, e in res:
            if d["errors"]:
                print(s, d["errors"])
                print("\n".join([x for x in e.splitlines() if "error:" in x][:6]))
    out = [(s, d) for s, d, e in res]
    if only is None:
        try:
            os.makedirs(cdir, exist_ok=True)
            for old in os.listdir(cdir):
                if old.startswith(config + "-"):
                    os.unlink(os.path.join(cdir, old))
            tmp = cfile + ".tmp%d" % os.getpid()
            with open(tmp, "wb") as f:
                pickle.dump(out, f, protocol=4)
            os.replace(tmp, cfile)
        except OSError:
            pass
    return out


if __name__ == "__main__":
    import time
    t = time.time()
    r = extract(sys.argv[1] if len(sys.argv) > 1 else "full", verbose=True)
    print(len(r), "TUs", sum(len(d["fns"]) for s, d in r), "function bodies", "%.1fs" % (time.time() - t))
