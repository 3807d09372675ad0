"""Runs the abstract interpreter over many functions in parallel and reduces each
function's outcomes to plain results."""
import collections, multiprocessing as mp, os, signal, sys, traceback
import prep
from absint import Engine, Budget, Unsupported
import models

_job = {}


class Late(Exception):
    pass


def _one(p):
    F, reducer, setup, secs = _job["F"], _job["reducer"], _job["setup"], _job["secs"]
    f = F.fns[p]

    def h(*a):
        raise Late()

    signal.signal(signal.SIGALRM, h)
    signal.alarm(secs)
    status, why, out = "ok", "", None
    try:
        E = Engine(F, models.install)
        if setup:
            setup(E)
        outs = None if _job.get("own") else E.start(f)
        out = reducer(f, E, outs)
    except Late:
        status, why = "late", "analysis budget (time) exhausted"
    except Budget:
        status, why = "budget", "analysis budget (states) exhausted"
    except Unsupported as e:
        status, why = "unsupported", str(e)[:200]
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        status, why = "error", "%s %s at %s:%d" % (type(e).__name__, str(e)[:120], tb.name, tb.lineno)
    finally:
        signal.alarm(0)
    return p, status, why, out


def is_closure(f):
    return f.get("kind") in ("closure", "Closure") or "{closure" in f["p"]


def roots(F, pred=None):
    def entry(f):
        # closures of statics and constants are only reachable through function pointers
        return not is_closure(f) or f.get("parent") not in F.fns

    return [p for p, f in F.fns.items() if f["local"] and f.get("blocks") and entry(f) and not f["p"].startswith("bytedata::test") and (pred is None or pred(f))]


def callees(F, f):
    """Resolved callee paths mentioned anywhere in a body (calls and function constants)."""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if "fn" in x and isinstance(x["fn"], dict):
                out.add(x["fn"].get("r") or x["fn"].get("p"))
                out.add(x["fn"].get("p"))
            for v in x.values():
                walk(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                walk(v)

    walk(f.get("blocks"))
    for b in f.get("proms") or []:
        walk(b)
    return out


def reach_to(F, hit, depth=99):
    """Local functions from which a function satisfying hit(path) is reachable."""
    g = {p: callees(F, f) for p, f in F.fns.items() if f["local"] and f.get("blocks")}
    cur = {p for p, cs in g.items() if any(c and hit(c) for c in cs)}
    allr = set(cur)
    for _ in range(depth):
        nxt = {p for p, cs in g.items() if p not in allr and cs & cur}
        if not nxt:
            break
        allr |= nxt
        cur = nxt
    return allr


def run_with(F, ps, reducer, setup=None, secs=30, procs=8):
    """Like run, with the reducer starting the interpreter itself."""
    return run(F, ps, reducer, setup, secs, procs, own=True)


def run(F, ps, reducer, setup=None, secs=30, procs=8, own=False):
    _job.update(F=F, reducer=reducer, setup=setup, secs=secs, own=own)
    with mp.get_context("fork").Pool(min(procs, os.cpu_count() or 1)) as pool:
        return pool.map(_one, ps, chunksize=1)


def _job1(i):
    fn, items, secs = _job["jfn"], _job["jitems"], _job["secs"]

    def h(*a):
        raise Late()

    signal.signal(signal.SIGALRM, h)
    signal.alarm(secs)
    try:
        return items[i], "ok", fn(items[i])
    except Late:
        return items[i], "late", "analysis budget (time) exhausted"
    except Budget:
        return items[i], "budget", "analysis budget (states) exhausted"
    except Unsupported as e:
        return items[i], "unsupported", str(e)[:200]
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return items[i], "error", "%s %s at %s:%d" % (type(e).__name__, str(e)[:120], tb.name, tb.lineno)
    finally:
        signal.alarm(0)


def jobs(fn, items, secs=60, procs=8):
    """[(item, status, result)] of fn over items, in parallel."""
    _job.update(jfn=fn, jitems=items, secs=secs)
    with mp.get_context("fork").Pool(min(procs, os.cpu_count() or 1)) as pool:
        return pool.map(_job1, range(len(items)), chunksize=1)
