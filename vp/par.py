"""Run one analysis task per class in parallel worker processes and merge the obligations."""
import multiprocessing as mp, os, signal, sys, traceback

_task = None


class Budget(Exception):
    pass


def _alarm(*a):
    raise Budget()


def _one(item):
    f, prop, budget = _task
    from .report import Report
    sys.setrecursionlimit(20000)
    rep = Report(prop, "")
    ret, err = None, None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(budget)
    try:
        ret = f(rep, item)
    except Budget:
        err = "analysis budget of %d s used up" % budget
    except Exception:
        err = traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
    ob = [(k, s, str(w), str(d)[:4000]) for k, s, w, d in rep.ob]
    return item, ret, err, ob, rep.analysed, rep.notes, rep.counts


def each(rep, items, f, budget=240, name=str):
    """f(rep, item) for every item; an analysis that fails on an item leaves that item undecided.  Returns {item: result}"""
    global _task
    _task = (f, rep.prop, budget)
    out = {}
    n = int(os.environ.get("VP_JOBS", "0") or 0) or os.cpu_count() or 4
    ctx = mp.get_context("fork")
    with ctx.Pool(min(n, max(1, len(items)))) as p:
        res = p.map(_one, items, chunksize=1)
    for item, ret, err, ob, an, notes, counts in res:
        for o in ob:
            rep.add(*o)
        rep.analysed |= an
        rep.notes += notes[:20]
        for k, v in counts.items():
            rep.count(k, v)
        if err:
            rep.und("%s: analysis" % name(item), "", err)
            if os.environ.get("VP_DEBUG"):
                print(err, file=sys.stderr)
        out[item] = ret
    return out
