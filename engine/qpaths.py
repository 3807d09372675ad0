"""What every public operation leaves behind in the queues it touches, path by path and for each shape of the list."""
import time
import oracle, queues
import rep as repm
from absint import Budget, Unsupported
from runall import Late

CATS = ("links", "count", "length", "chunks", "nodes")


def of(text):
    return "count" if text.startswith("the count says") else "length" if text.startswith("the length says") else "links"


def shapes_of(st):
    return ",".join("".join(v) for k, v in sorted(st.vars.items(), key=str) if str(k).startswith("kind:"))


def is_ref(F, E, f, i):
    return F.types[E.strip(f["locals"][i + 1])]["k"] in ("ref", "ptr")


def owned_at_entry(E, q, f, st, args, byval=True):
    """Chunks and nodes owned by the arguments: through references always, by value when asked."""
    out, nodes, ok = {}, [], True
    seen = set()

    def go(v):
        nonlocal ok
        if v[0] == "r" and v[1][0] == "c":
            if v[1] in seen:
                return
            seen.add(v[1])
            try:
                x = E.read(st, v[1])
            except (Unsupported, KeyError):
                ok = False
                return
            go(x)
            return
        ok &= q.held(E, st, v, out, nodes)
        for x in refs(E, q, v):
            go(x)

    for i, a in enumerate(args):
        if a[0] == "r" or byval:
            go(a)
    return out, nodes, ok


def refs(E, q, v):
    """References within a value, leaving out what a list owns."""
    if v[0] == "r":
        return [v]
    if v[0] != "a":
        return []
    t = q.F.types[v[1]] if v[1] is not None else None
    if t and t["k"] == "adt" and t["def"] == queues.ROOT:
        return []
    out = []
    for i, x in enumerate(v[3]):
        if x[0] == "r" and t and t["k"] == "adt":
            ft = q.F.types[E.strip(t["variants"][v[2]]["f"][i]["t"])]
            if ft["k"] == "adt" and ft["def"] == "std::boxed::Box" or ft["k"] == "ptr":
                continue
        out += refs(E, q, x)
    return out


def after(E, q, st, args, val):
    out, nodes, ok = {}, [], True
    seen = set()
    byref = []

    def reach(v, depth=0):
        # what is owned behind references the caller still has
        if depth > 8:
            return
        if v[0] == "r" and v[1][0] == "c" and v[1] not in seen:
            seen.add(v[1])
            if any(o[1] == v[1][1] and o[2] == v[1][2][: len(o[2])] for o in byref if o != v[1]):
                return
            try:
                x = E.read(st, v[1])
            except (Unsupported, KeyError):
                return
            byref.append(v[1])
            vals.append(x)
            reach(x, depth + 1)
        elif v[0] == "a":
            for x in refs(E, q, v):
                reach(x, depth + 1)

    vals = []
    for a in args:
        if a[0] == "r":
            reach(a)
    for x in vals + ([val] if val is not None else []):
        ok &= q.held(E, st, x, out, nodes)
    return out, nodes, ok


def judge(E, q, f, st0, args0, kind, st, val):
    """[(category, status, detail)] of one outcome."""
    res = []
    qs = []
    for a in args0:
        if a[0] == "r":
            q.queues_in(E, st, a, qs)
    if val is not None:
        q.queues_in(E, st, val, qs)
    feas = None

    def bad(cat, why):
        nonlocal feas
        if feas is None:
            feas = oracle.feasible(st)
        if feas:
            res.append((cat, "fail", why))

    for x in qs:
        try:
            v = q.verdict(E, st, x)
        except Unsupported as e:
            res.append(("links", "undecided", str(e)[:100]))
            continue
        if v is None:
            res.append(("length", "undecided", "length not known"))
            continue
        for t in v:
            if "may or may not" in t:
                res.append(("links", "undecided", t))
            else:
                bad(of(t), t)
    for cat in ("links", "count", "length") if qs else ():
        res.append((cat, "ok", ""))
    # ownership: every chunk and node the operation was given or made is held once, or was released
    try:
        b, nb, ok0 = owned_at_entry(E, q, f, st0, args0)
        a, na, ok1 = after(E, q, st, args0, val)
    except Unsupported as e:
        res.append(("chunks", "undecided", str(e)[:100]))
        return res
    new, drop = {}, {}
    made, freed = [], []
    opaque = False
    for e in st.events():
        if e[0] == "chunk-new":
            new[e[1]] = new.get(e[1], 0) + 1
        elif e[0] == "chunk-drop":
            w = q.view(E, st, e[1])
            if w is None:
                opaque = True
            else:
                drop[w[0]] = drop.get(w[0], 0) + 1
        elif e[0] == "box-new":
            made.append(e[1])
        elif e[0] == "box-free":
            freed.append(e[1])
        elif e[0] == "double-free":
            bad("nodes", "a node is released twice")
        elif e[0] in ("call", "callback") and len(e) > 2 and isinstance(e[2], tuple):
            if any(x[0] in ("a", "u", "s") and not q.held(E, st, x, {}, []) or q_owns(E, q, st, x) for x in e[2]):
                opaque = True
        elif e[0] == "drop" and len(e) > 2 and isinstance(e[2], tuple) and q_owns(E, q, st, e[2]):
            opaque = True
    known = ok0 and ok1 and not opaque
    for base in set(b) | set(new):
        if base in ("empty", "nil"):
            continue
        want = b.get(base, 0) + new.get(base, 0)
        got = a.get(base, 0) + drop.get(base, 0)
        if got == want:
            continue
        if got > want:
            bad("chunks", "a chunk is held or released %d times instead of %d" % (got, want))
        elif kind == "panic":
            continue
        elif known:
            bad("chunks", "a chunk is neither held nor released (%d of %d)" % (got, want))
        else:
            res.append(("chunks", "undecided", "part of the result is not known"))
    n0, n1 = set(nb) | {c for c in made if "node" in str(c) or c not in freed}, set(na)
    if len(na) != len(n1):
        bad("nodes", "a node belongs to two lists")
    if n1 & set(freed):
        bad("nodes", "a released node is still linked")
    if kind == "ret" and ok0 and ok1:
        lost = {c for c in set(nb) if c not in n1 and c not in freed}
        lost |= {c for c in made if c not in n1 and c not in freed and is_leaf(E, q, c)}
        if lost:
            if known:
                bad("nodes", "a node is neither linked nor released")
            else:
                res.append(("nodes", "undecided", "part of the result is not known"))
    res += [("chunks", "ok", ""), ("nodes", "ok", "")]
    return res


def q_owns(E, q, st, x):
    out, nodes = {}, []
    try:
        q.held(E, st, x, out, nodes)
    except Unsupported:
        return True
    return any(k not in ("empty", "nil") for k in out) or bool(nodes)


def is_leaf(E, q, c):
    t = E.cell_ty.get(c)
    return t is not None and E.strip(t) == q.tid[queues.LEAF]


def narrow(E, f, args, st, t0=None, targs=()):
    """Outcomes of f: undetermined loops are repeated as often as the number of paths allows."""
    best = None
    base = dict(E.cuts)
    for k, budget in ((1, 60000), (2, 6000), (4, 5000), (6, 4000)):
        E.passes, E.budget = (60, k), budget
        E.cuts, old = dict(base), E.cuts
        E.cutloops = set()
        try:
            best = E.run_body(f, f, args, st, list(targs), None)
        except Budget:
            if best is None:
                raise
            E.cuts = old
            break
        if E.cuts == base:
            break
    return best


def reducer(f, E, _):
    """{(category): (status, detail)} plus counters for one function."""
    E = queues.engine(E.F)
    E.unwinding = True
    q = E.rep
    out = {}
    rank = {"ok": 0, "undecided": 1, "fail": 2}
    paths = 0
    t0 = time.time()
    missed = []
    for st, args in repm.starts(E, f):
        E.budget = E.budget0
        E.entry_args, E.entry_state = args, st
        cuts = sum(E.cuts.values())
        try:
            outs = narrow(E, f, args, st, t0)
        except (Budget, Unsupported) as e:
            missed.append("%s: %s" % (shapes_of(st), str(e)[:80] or "over budget"))
            continue
        for kind, s, val in outs:
            paths += 1
            for cat, status, why in judge(E, q, f, st, args, kind, s, val):
                if cat not in out or rank[status] > rank[out[cat][0]]:
                    out[cat] = (status, "%s on %s%s" % (why, shapes_of(s), " (panic)" if kind == "panic" else ""))
    return paths, out, missed, sum(E.cuts.values())


def entries(F):
    """Public operations that take or yield a queue."""
    ps = []
    for p, f in F.fns.items():
        if not f["local"] or not f.get("blocks") or "{" in p or not f.get("pub") or "::tests" in p:
            continue
        if any(x in p for x in ("LinkedRoot", "LinkedNode")) or "macros" in p:
            continue
        if f["argc"]:
            # iterators are followed from where they are made
            t = F.types[f["locals"][1]]
            t = F.types[t["t"]] if t["k"] == "ref" else t
            if t.get("def", "").startswith("bytedata::queue::") and t["def"] not in (queues.BQ, queues.SQ) and "::skip" not in p and "::take" not in p:
                continue
        ts = [F.types[l]["s"] for l in f["locals"][: f["argc"] + 1]]
        if any("Queue<" in t for t in ts) or "Queue<" in p or "queue::" in p:
            ps.append(p)
    return ps
