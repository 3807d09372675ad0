"""Runs contracts over queue operations: one outcome at a time, on every list shape."""
import oracle, qpaths, queues
import rep as repm
from absint import Budget, Unsupported

RANK = {"ok": 0, "open": 1, "fail": 2}


def merge(out, c, where=""):
    for s, w, why in c.marks:
        if w not in out or RANK[s] > RANK[out[w][0]]:
            out[w] = (s, "%s on %s" % (why, where) if s != "ok" else "")


def run(F, p, spec, targs=(), shapes=None, passes=None, prep=None):
    """(paths, {clause: (status, why)}, [what was not followed], cuts) of one function."""
    f = F.fns[p]
    E = queues.engine(F)
    q = E.rep
    if shapes:
        q.shapes = shapes
    out, missed, n = {}, [], 0
    for st0, args0 in repm.starts(E, f, list(targs)):
        if prep:
            prep(E, st0, args0)
        E.entry_args, E.entry_state = args0, st0
        try:
            outs = qpaths.narrow(E, f, args0, st0, None, targs)
            for kind, st, val in outs:
                n += 1
                c = oracle.Ctx(E, f, st0, args0, kind, st, val)
                c.q = q
                spec(c)
                merge(out, c, qpaths.shapes_of(st0))
        except (Budget, Unsupported) as e:
            missed.append("%s: %s" % (qpaths.shapes_of(st0), str(e)[:80] or "over budget"))
    return n, out, missed, sum(E.cuts.values())


def range_targs(F, f, ty="std::ops::Range<usize>", param="R"):
    """Generic arguments with the range parameter fixed to one form."""
    t = F.find_ty(ty)
    out = []
    for i, n in f.get("generics", []):
        while len(out) <= i:
            out.append(None)
        if n == param:
            out[i] = t
    return out if t is not None and any(x is not None for x in out) else []


def find(F, d, name):
    """Inherent method of a type by its name."""
    for p, f in F.fns.items():
        if f.get("blocks") and "{" not in p and p.startswith(d + "::<") and p.endswith(">::" + name):
            return p
    return None


def report(rep, F, results, tag):
    for (p, label, *shape), status, out in results:
        f = F.fns[p]
        key = "%s %s%s" % (tag, p, label and " " + label)
        if status != "ok":
            rep.open(key + " on %s" % shape[0] if shape else key, f["span"], str(out))
            continue
        n, marks, missed, cuts = out
        rep.count("functions")
        rep.count("paths", n)
        for w, (s, why) in marks.items():
            rep.ob("%s: %s" % (key, w), {"ok": "ok", "open": "undecided", "fail": "fail"}[s], f["span"], why[:300])
        if missed or not n:
            rep.open("%s: part of the shapes" % key, f["span"], "; ".join(missed)[:200])
        if cuts:
            rep.count("longer repetitions not followed", cuts)
