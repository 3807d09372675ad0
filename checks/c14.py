"""C14: every loop and iterator makes progress."""
import re

import hist
import models
import oracle
import paths
import prep
import progress
import qpaths
import qspec
import queues
import rep as repm
import runall
from absint import Budget, Engine, Unsupported, loops_of
from lin import Lin

RULE = "no pass through a loop comes back to where it began with nothing changed, and no step of an iterator yields an item and leaves the iterator as it was; loops with a measure that every pass brings closer to its bound, or that end on every path for the shapes followed, are established to end"
FLOOR = 150
ENDLESS = 64


class Loops:
    """What is seen of each loop."""

    def __init__(self, E):
        self.E = E
        self.found = {}
        E.progress = self.turn

    def rec(self, fr, head):
        return self.found.setdefault((fr.body["p"], head), {"line": self.E.head_line(fr, head), "span": fr.body.get("span", "?"), "passes": {}, "bad": None, "n": 0, "local": fr.body.get("local"), "where": fr.where()})

    def turn(self, E, fr, head, past, st, c):
        r = self.rec(fr, head)
        r["n"] += 1
        m = progress.measures(fr, head, past[-1], st)
        if supplied(past[-1], st):
            m[("~", ())] = {"<"}
        k = tuple(sorted(((x, tuple(sorted(y, key=str))) for x, y in m.items()), key=str))
        if len(r["passes"]) < 200:
            r["passes"].setdefault(k, m)
        for old in reversed(past):
            s = progress.repeat(E, fr, head, old, st)
            if s is not None:
                if oracle.settled(s):
                    r["bad"] = r["bad"] or "a pass changes nothing it depends on [%s]" % " & ".join("%s <= 0" % l for l in s.le[:8])
                    return True
                r["vague"] = 1
        if c[0] - c[1] > ENDLESS and not r["bad"]:
            r["bad"] = "%d passes without anything left undecided" % c[0]
            return True
        return False

    def summary(self, E, fr, rec):
        r = self.rec(fr, rec["head"])
        ps = []
        for b in rec["backs"]:
            m = progress.measures(fr, rec["head"], rec["H"], b)
            if supplied(rec["H"], b):
                m[("~", ())] = {"<"}
            ps.append(m)
        ok = progress.ranked(ps, set(rec["names"]))
        r["ranked"] = ok and r.get("ranked", True)
        if not ok:
            r["lost"] = ps


def supplied(before, after):
    """The pass takes an element from an iterator or deserializer the caller supplied: that it ends is theirs to see to."""
    return any(e[0] in ("call", "callopaque") and SUPPLY.search(str(e[1])) for e in progress.since(before, after))


SUPPLY = re.compile(r"(Iterator::next|DoubleEndedIterator::next_back|SeqAccess::next_element\w*)$")


def reaching(F):
    """Functions from which a loop can be reached in local code."""
    own = {p for p, f in F.fns.items() if f["local"] and f.get("blocks") and loops_of(f)}
    return own, own | runall.reach_to(F, lambda c: c in own)


def one(job):
    F = runall._job["F"]
    p, shape, mode, size = job
    f = F.fns[p]
    if shape is not None:
        E = queues.engine(F)
        E.rep.shapes = (shape,) if shape else queues.QRep.shapes
    else:
        E = Engine(F, models.install)
        repm.Rep(F).install(E)
    L = Loops(E)
    missed = []
    for st0, args0 in repm.starts(E, f):
        if size:
            st0 = st0.fork()
            small(E, st0, args0, size)
        E.entry_args, E.entry_state = args0, st0
        E.cutloops = set()
        try:
            if shape is not None:
                qpaths.narrow(E, f, args0, st0, None)
            elif mode == "sum":
                E.budget = E.budget0
                E.hooks["loop"] = L.summary
                E.run_body(f, f, args0, st0, [], None)
            else:
                E.unroll = lambda fr: (80, 3)
                E.budget = 6000
                E.run_body(f, f, args0, st0, [], None)
        except (Budget, Unsupported) as e:
            missed.append(str(e)[:80] or "over budget")
            for r in L.found.values():
                r["cut"] = True
        for k in E.cutloops:
            if k in L.found:
                L.found[k]["cut"] = True
    for r in L.found.values():
        r["ok"] = progress.ranked(list(r["passes"].values())) if r["passes"] else None
        r["np"] = len(r.pop("passes"))
        r.pop("lost", None)
    return L.found, missed


# ---------------------------------------------------------------- iterators
def makers(F):
    """Operations that make an iterator of ours: [(function, type)]."""
    E = Engine(F, models.install)
    out = []
    for p, f in sorted(F.fns.items()):
        if not f["local"] or not f.get("blocks") or "{" in p or "::test" in p or not f.get("reach"):
            continue
        tid = f["locals"][0]
        t = F.types[tid]
        if t["k"] != "adt" or "queue" in p and f["argc"] and F.types[f["locals"][1]].get("def", "").startswith("bytedata::queue::") and "Queue" not in F.s(f["locals"][1]):
            continue
        if t["def"] in ("bytedata::bytedata::ByteData", "bytedata::stringdata::StringData") and not re.search(r"::(from_borrowed|from_shared|from_static|clone)$", p):
            continue
        r = hist.method(E, tid, "next")
        if r is not None and r[0]["local"]:
            out.append((p, tid))
    return out


def stands(E, before, after, ref):
    """A state in which a step left the iterator as it was, or None; 'vague' when it may have but that is not sure."""
    eqs = []
    cells = {ref[1][1]} | progress.reached(after, [after.cells[ref[1][1]]])
    for e in progress.since(before, after):
        if e[0] in ("call", "indirect", "callopaque", "atomic", "nom"):
            return None
    for c in cells:
        if c not in before.cells or not progress.unify(after, before.cells[c], after.cells[c], eqs):
            return None
    sts = [after]
    for a, b in eqs:
        sts = [s2 for s in sts for s2 in s.assume(("eq", Lin.of(a) - Lin.of(b)))]
    for s in sts:
        if oracle.settled(s):
            return s
    return "vague" if sts else None


def small(E, st, args, n):
    for a in args:
        try:
            segs = E.rep.segs(E, st, a)
        except (Unsupported, KeyError, TypeError, IndexError):
            continue
        for x in segs or ():
            st.add_le(Lin.of(x[2]) - n)


def steps(job):
    F = runall._job["F"]
    p, tid, shape, size, depth = job
    f = F.fns[p]
    E = queues.engine(F)
    if shape:
        E.rep.shapes = (shape,)
    L = Loops(E)
    marks, missed, n, cut = [], [], 0, set()
    targs = qspec.range_targs(F, f)
    for st0, args0 in repm.starts(E, f, list(targs)):
        if size:
            st0 = st0.fork()
            small(E, st0, args0, size)
        try:
            level = []
            for kind, st, val in hist.calls(E, st0, f, args0, targs):
                if kind == "ret":
                    level.append(hist.put(E, st, val, tid))
            for d in range(depth):
                nxt = []
                for st, ref in level:
                    for m, (g, ga) in hist.steps_of(E, tid):
                        outs = hist.calls(E, st, g, [ref], ga)
                        cut |= E.cutloops
                        for kind, s, v in outs:
                            n += 1
                            if kind != "ret":
                                continue
                            for s2, x in E.split_variants(s, v):
                                if x[0] == "a" and x[2] == 0:
                                    continue
                                w = stands(E, st, s2, ref)
                                if w is None:
                                    marks.append(("ok", m, ""))
                                elif w == "vague":
                                    marks.append(("open", m, "may stand still"))
                                else:
                                    marks.append(("fail", m, "yields an item and stays as it was, so it yields it for ever [%s] %s" % (" & ".join("%s <= 0" % l for l in w.le[:8]), qpaths.shapes_of(st0))))
                                if size and shape in ("", "C") and d + 1 > size + 2:
                                    (marks.append(("fail", "number of items", "%d items of at most %d bytes" % (d + 1, size))) if oracle.settled(s2) else marks.append(("open", "number of items", "%d of at most %d bytes" % (d + 1, size))))
                                    continue
                                nxt.append((s2, ref))
                if size and d + 1 > size + 2 and not nxt:
                    marks.append(("ok", "number of items", ""))
                level = nxt
        except (Budget, Unsupported) as e:
            missed.append("%s: %s" % (qpaths.shapes_of(st0), str(e)[:80] or "over budget"))
            cut |= set(L.found)
    for k, r in L.found.items():
        r["ok"] = progress.ranked(list(r["passes"].values())) if r["passes"] else None
        r["cut"] = k in cut
        r.pop("passes"), r.pop("lost", None)
    return L.found, marks, missed, n


# ---------------------------------------------------------------- what there is to look at
QUEUE = re.compile(r"Queue\b")
SEARCH = re.compile(r"find|substring|token|take_line|::compare|PartialEq|PartialOrd|::Ord>|to_hex")
SHAPES = ("-", "C", "N", "C+N", "N+N", "C+N+N", "E")


def is_queue(F, p, f):
    return bool(QUEUE.search(p) or any(QUEUE.search(F.s(l)) for l in f["locals"][: f["argc"] + 1]))


def entries(F):
    own, rs = reaching(F)
    qs = set(qpaths.entries(F))
    out = []
    for p in sorted(rs):
        f = F.fns[p]
        if "{" in p or "::test" in p or not (f.get("reach") or paths.METHOD.match(p)) or "rbitrary" in p:
            continue
        q = is_queue(F, p, f) or "::queue::" in p
        if q and p not in qs:
            continue
        out.append((p, q))
    return own, out


def run(rep):
    F = prep.facts("full")
    runall._job["F"] = F
    own, es = entries(F)
    js = []
    for p, q in es:
        if q:
            k = sum(1 for l in F.fns[p]["locals"][1 : F.fns[p]["argc"] + 1] if QUEUE.search(F.s(l)))
            for s in SHAPES if k == 1 else ("",):
                js.append((p, s, "", 2 if SEARCH.search(p) else None))
        else:
            js += [(p, None, "", None), (p, None, "sum", None)]
    loops = {}
    for (p, shape, mode, size), status, out in runall.jobs(one, js, 45):
        rep.count("functions")
        if status != "ok":
            rep.count("functions not followed to the end")
            continue
        merge(loops, p, mode, out[0])
        if out[1]:
            rep.count("functions not followed to the end")
    its, mk = {}, makers(F)
    js = []
    for p, t in mk:
        for s in ("-", "C", "N", "C+N", "N+N", "E") if "queue" in p else ("",):
            js.append((p, t, s, 2, 5 if s in ("", "C") else 2))
            if "split" not in p:
                js.append((p, t, s, None, 2))
    for (p, t, s, z, d), status, out in runall.jobs(steps, js, 45):
        if status != "ok":
            if z:
                its.setdefault((p, "next"), []).append(("open", "%s: %s" % (s, out)))
            continue
        merge(loops, p, "", out[0])
        for st, m, why in out[1]:
            its.setdefault((p, m), []).append((st, why))
        if z and out[2]:
            its.setdefault((p, "next"), []).append(("open", out[2][0]))
        rep.count("steps", out[3])
    for (p, m), ms in sorted(its.items()):
        key = "iterator of %s: %s" % (p, m)
        worst = max(ms, key=lambda x: ("ok", "open", "fail").index(x[0]))
        {"ok": rep.ok, "open": rep.open, "fail": rep.fail}[worst[0]](key, F.fns[p]["span"], worst[1])
    rep.anchor(len(its) >= 30, "iterators")
    seen = {}
    for (p, head), r in sorted(loops.items()):
        if not r["local"]:
            continue
        seen[p] = seen.get(p, 0) + 1
        key = "loop %d in %s" % (seen[p], p)
        where = "%s line %s" % (r["span"].split(":")[0], r["line"])
        rep.count("passes", r["n"])
        if r["bad"]:
            rep.fail(key, where, "%s (reached from %s)" % r["bad"])
        elif r["sum"] and all(r["sum"]):
            rep.count("loops ranked for all inputs")
            rep.ok(key, where, "ranked")
        elif r["exp"] and all(x for x in r["exp"]):
            rep.count("loops ending on every path followed")
            rep.ok(key, where, "every pass followed makes progress")
        else:
            rep.open(key, where, "no measure found")
    rep.count("loops", len(seen))
    rep.assume.append("iterators, readers and deserializers supplied by the caller end; loops of the standard library end when what they iterate over ends; queues are lists of up to three nodes")


def merge(loops, p, mode, found):
    for k, r in found.items():
        a = loops.setdefault(k, {"line": r["line"], "span": r["span"], "local": r["local"], "n": 0, "bad": None, "sum": [], "exp": []})
        a["n"] += r["n"]
        if r["bad"] and not a["bad"]:
            a["bad"] = (r["bad"], p)
        if mode == "sum":
            a["sum"].append(bool(r.get("ranked")))
        elif r["n"]:
            a["exp"].append(bool(r.get("ok")) or not r.get("cut"))
