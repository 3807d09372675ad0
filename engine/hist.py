"""Histories: a value made by a constructor, used for some steps and dropped, on every list shape."""
import oracle, qpaths, queues
import rep as repm
from absint import Budget, Frame, INT, Unsupported
from lin import Lin

IT = "std::iter::Iterator"
DE = "std::iter::DoubleEndedIterator"


def calls(E, st, f, args, targs=()):
    E.entry_args, E.entry_state = args, st
    return qpaths.narrow(E, f, args, st, None, targs)


def method(E, tid, name, tr=IT):
    """The body of a method for values of this type: (function, generic arguments) or None."""
    F = E.F
    t = F.types[E.strip(tid)]
    r = E.resolve_trait(tr, name, tid, [tid]) if tr else None
    if r is not None and r[0] in F.fns:
        return F.fns[r[0]], r[1]
    return None


def inherent(F, d, name):
    for p, f in F.fns.items():
        if p.startswith(d + "::<") and p.endswith(">::" + name) and f.get("blocks"):
            return f
    return None


def put(E, st, v, tid, cell="*it"):
    st = st.fork()
    st.cells[cell] = v
    E.cell_ty[cell] = tid
    return st, ("r", ("c", cell, ()), tid)


def drop(E, f, st, ref, bad=None):
    """Outcomes of dropping the value behind ref: states; those in which a destructor panicked go to bad."""
    E.budget = E.budget0
    E.uid += 1
    fr = Frame(f, E.uid, [], f, 0, None)
    v = E.read(st, ref[1])
    st = st.fork()
    E.droppanics = []
    outs = E.drop_value(fr, st, v, E.strip(ref[2]), ref[1])
    res = []
    for l, to in ((outs, res), (E.droppanics, bad)):
        for s in l if to is not None else ():
            s = s.fork()
            E.write(s, ref[1], ("x",))
            to.append(s)
    return res


def iterator_types(F):
    """{type: constructors} of the iterators over queues that public operations hand out."""
    out = {}
    for p in qpaths.entries(F):
        f = F.fns[p]
        tid = f["locals"][0]
        t = F.types[tid]
        if t["k"] == "adt" and t["def"].startswith("bytedata::queue") and t["def"] not in (queues.BQ, queues.SQ):
            a = F.types[f["locals"][1]] if f["argc"] else {}
            if a.get("k") == "ref":
                a = F.types[a["t"]]
            if a.get("k") == "adt" and a["def"] in (queues.BQ, queues.SQ):
                out.setdefault(tid, []).append(p)
    return out


def steps_of(E, tid):
    """Methods that advance the iterator in place."""
    out = []
    for tr, m in ((IT, "next"), (DE, "next_back")):
        r = method(E, tid, m, tr)
        if r is not None:
            out.append((m, r))
    return out


def ends_of(E, tid):
    """Methods that use it up, or ask something of it."""
    out = []
    for tr, m in ((IT, "nth"), (IT, "last"), (IT, "count"), (IT, "size_hint"), ("std::iter::ExactSizeIterator", "len")):
        r = method(E, tid, m, tr)
        if r is not None:
            out.append((m, r))
    return out


def run(E, f, tid, visit, depth=3, targs=(), want=None):
    """Every history of up to depth steps on what f makes.  visit(st0, args0, trace, kind, st, got, ref) for each end:
    trace is [(method, value)], ref the iterator when it still exists."""
    steps, ends = steps_of(E, tid), ends_of(E, tid)
    missed = []

    def gone(st0, args0, tr, st, ref):
        bad = []
        for s in drop(E, f, st, ref, bad):
            visit(st0, args0, tr, "ret", s, None)
        for s in bad:
            visit(st0, args0, tr, "panic", s, None)

    def broke(st0, args0, tr, st, ref):
        # the iterator outlives the panic, and is dropped afterwards
        for s in drop(E, f, st, ref):
            visit(st0, args0, tr, "panic", s, None)
    for st0, args0 in repm.starts(E, f, list(targs)):
        if want and not want(st0):
            continue
        try:
            level = []
            for kind, st, val in calls(E, st0, f, args0, targs):
                if kind != "ret":
                    visit(st0, args0, [], kind, st, None)
                    continue
                st, ref = put(E, st, val, tid)
                level.append((st, ref, []))
            for d in range(depth + 1):
                nxt = []
                for st, ref, tr in level:
                    visit(st0, args0, tr, "live", st, ref)
                    gone(st0, args0, tr, st, ref)
                    if d == depth:
                        continue
                    for m, (g, ga) in steps:
                        for kind, s, v in calls(E, st, g, [ref], ga):
                            t2 = tr + [(m, v)]
                            if kind == "ret":
                                nxt.append((s, ref, t2))
                            else:
                                broke(st0, args0, t2, s, ref)
                    for m, (g, ga) in ends if d < 2 else ():
                        byref = E.F.types[E.strip(g["locals"][1])]["k"] == "ref"
                        args = [ref if byref else E.read(st, ref[1])]
                        if m == "nth":
                            args.append(INT(1) if "Linked" in E.F.s(tid) else ("i", Lin.sym("nth")))
                        s1 = st.fork()
                        if m == "nth":
                            s1.add_le(-Lin.sym("nth"))
                        for kind, s, v in calls(E, s1, g, args, ga):
                            t2 = tr + [(m, v)]
                            if kind != "ret":
                                if byref:
                                    broke(st0, args0, t2, s, ref)
                                else:
                                    visit(st0, args0, t2, kind, s, None)
                            elif byref:
                                gone(st0, args0, t2, s, ref)
                            else:
                                visit(st0, args0, t2, "ret", s, None)
                level = nxt
        except (Budget, Unsupported) as e:
            missed.append("%s: %s" % (qpaths.shapes_of(st0), str(e)[:80] or "over budget"))
    return missed


def items_in(E, q, st, trace):
    """What the caller was given, as one value."""
    return ("a", None, 0, tuple(v for _, v in trace if v is not None))


def reducer(f, E, _):
    """Structure and ownership over the histories of the iterator that f makes."""
    E = queues.engine(E.F)
    E.unwinding = True
    q = E.rep
    tid = f["locals"][0]
    out = {}
    rank = {"ok": 0, "undecided": 1, "fail": 2}
    n = [0]

    def visit(st0, args0, trace, kind, st, ref):
        if kind == "live":
            return
        n[0] += 1
        for cat, status, why in qpaths.judge(E, q, f, st0, args0, kind, st, items_in(E, q, st, trace)):
            if cat not in out or rank[status] > rank[out[cat][0]]:
                out[cat] = (status, "%s after %s on %s%s" % (why, "+".join(m for m, _ in trace) or "nothing", qpaths.shapes_of(st), " (panic)" if kind == "panic" else ""))

    s = E.F.s(tid)
    missed = run(E, f, tid, visit, depth=1 if "Char" in s or "Split" in s else 3)
    return n[0], out, missed, sum(E.cuts.values())
