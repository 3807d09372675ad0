"""C18: the chunk list of a queue stays well formed."""
import collections
import hist, oracle, prep, qpaths, queues, runall
from absint import St, Unsupported
import rep as repm

RULE = (
    "On every shape of the list (slot kept apart, ring nodes at each position and fill, one to three nodes), each operation leaves links, positions and counts that describe exactly the prescribed sequence of chunks; every chunk and node is held in one place or released once, also after panics and for iterators and drains dropped midway; no slot is read that holds no chunk."
)
FLOOR = 1500

BEGS = (0, 7, 14)
LENS = (0, 1, 2, 14, 15)


def shapes(size):
    out = []
    ls = sorted({0, 1, 2, size - 1, size})
    bs = sorted({0, size // 2, size - 1})
    for ch in (0, 1):
        out.append((ch, []))
        for b in bs:
            for n in ls:
                out.append((ch, [(b, n)]))
        for n in (1, 2, size):
            for m in (1, 2, size):
                out.append((ch, [(size - 1, n), (3, m)]))
        out.append((ch, [(0, 1), (size - 1, 2), (5, size)]))
        out.append((ch, [(2, size), (0, 1), (size - 1, 1)]))
    return out


class Lab:
    """One operation on one list."""

    def __init__(self, F):
        self.F = F
        self.E = queues.engine(F)
        self.q = self.E.rep
        self.marks = []
        self.all = []

    def fn(self, d, name):
        return find(self.F, d, name)

    def root(self, st, tag, shape, cell):
        v, items = self.q.root(self.E, st, tag, *shape)
        self.E.cell_ty[cell] = self.q.tid[queues.ROOT]
        st.cells[cell] = v
        self.all += items
        return ("r", ("c", cell, ()), self.q.tid[queues.ROOT]), items

    def same(self, st, a, b):
        x, y = self.q.view(self.E, st, a), self.q.view(self.E, st, b)
        if x is None or y is None:
            raise Unsupported("chunk not known")
        return x[0] == y[0] and st.eq_holds(x[1], y[1]) and st.eq_holds(x[2], y[2])

    def seq(self, st, got, want, what):
        if len(got) != len(want):
            self.marks.append("%s holds %d chunks instead of %d" % (what, len(got), len(want)))
            return
        for i, (a, b) in enumerate(zip(got, want)):
            if not self.same(st, a, b):
                self.marks.append("%s holds another chunk at position %d" % (what, i))
                return

    def list(self, st, v, want, what="the list"):
        items, nodes, bad = self.q.walk(self.E, st, v)
        self.marks += ["%s: %s" % (what, b) for b in bad]
        self.seq(st, items, want, what)
        return nodes

    def released(self, st, chunks, kept, before):
        """Chunks released are exactly these; nodes before and made since are kept or released once."""
        left = list(chunks)
        self.own = {self.q.view(self.E, st, c)[0] for c in self.all}
        freed = []
        made = []
        for e in st.events():
            if e[0] == "chunk-drop":
                for i, c in enumerate(left):
                    if self.same(st, e[1], c):
                        del left[i]
                        break
                else:
                    w = self.q.view(self.E, st, e[1])
                    if w is not None and w[0] in self.own:
                        self.marks.append("a chunk is released that is still held, or was released before")
            elif e[0] == "box-free":
                freed.append(e[1])
            elif e[0] == "box-new":
                made.append(e[1])
            elif e[0] == "double-free":
                self.marks.append("a node is released twice")
        if left:
            self.marks.append("%d chunks are never released" % len(left))
        lost = [c for c in list(before) + made if c not in kept and c not in freed]
        if lost:
            self.marks.append("a node is neither linked nor released")
        if set(kept) & set(freed):
            self.marks.append("a released node is still linked")

    def run(self, st, f, args):
        return [o for o in hist.calls(self.E, st, f, args)]

    def opt(self, st, v, want, what):
        """v is an optional chunk (or reference to one)."""
        for s, x in self.E.split_variants(st, v):
            if want is None:
                if x[2] == 1:
                    self.marks.append("%s is given although there is none" % what)
            elif x[2] == 0:
                self.marks.append("%s is not given" % what)
            elif not self.same(s, x[3][0], want):
                self.marks.append("%s is another chunk" % what)


def find(F, d, name):
    for p, f in F.fns.items():
        if not f.get("blocks") or "{" in p:
            continue
        if p.startswith(d + "::<") and p.endswith(">::" + name):
            return f
        if p.startswith("<" + d + "<") and p.endswith("::" + name):
            return f
    return None


def nodes_of(tag, shape):
    return ["*%s.node%d" % (tag, i) for i in range(len(shape[1]))]


ARITY = {"push_back": 2, "push_front": 2, "append": 2, "pop_back": 1, "pop_front": 1, "front": 1, "back": 1, "len": 1, "clone": 1, "drop": 1, "with_item": 1, "new": 0, "default": 0}
OPS = ["push_back", "push_front", "push_back empty", "push_front empty", "pop_back", "pop_front", "front", "back", "len", "clone", "drop"]


def root_op(job):
    """All that can be said against one operation on one list: [text]."""
    F = runall._job["F"]
    op, shape, shape2 = job
    name, _, how = op.partition(" ")
    L = Lab(F)
    E, q = L.E, L.q
    f = find(F, queues.ROOT, name)
    if f is None or f["argc"] != ARITY[name]:
        return None
    st = St()
    ref, items = (None, [])
    if name not in ("with_item", "new", "default"):
        ref, items = L.root(st, "a", shape, "*self")
    before = nodes_of("a", shape)
    args = [ref] if ref else []
    x = None
    if name in ("push_back", "push_front", "with_item"):
        x = q.empty(E, st) if how == "empty" else q.chunk(E, st, "new")
        L.all += [x] if how != "empty" else []
        args.append(x)
    if name == "append":
        v2, more = q.root(E, st, "b", *shape2)
        before += nodes_of("b", shape2)
        args.append(v2)
        L.all += more
    if name == "drop":
        outs = [("ret", s, None) for s in hist.drop(E, f, st, ref)]
    else:
        outs = L.run(st, f, args)
    if not outs:
        return ["no outcome could be followed"]
    for kind, s, v in outs:
        if kind != "ret":
            if oracle.feasible(s):
                L.marks.append("the operation panics")
            continue
        if name == "drop":
            L.released(s, items, [], before)
            continue
        cur = E.read(s, ref[1]) if ref else v
        want, out = list(items), []
        if name in ("push_back", "push_front", "with_item"):
            if how != "empty":
                want = want + [x] if name != "push_front" else [x] + want
        elif name == "pop_back":
            L.opt(s, v, items[-1] if items else None, "the last chunk")
            want = items[:-1]
        elif name == "pop_front":
            L.opt(s, v, items[0] if items else None, "the first chunk")
            want = items[1:]
        elif name in ("front", "back"):
            w = None if not items else items[0 if name == "front" else -1]
            L.opt(s, v, w, "the %s chunk" % ("first" if name == "front" else "last"))
        elif name == "len":
            if v[0] != "i" or not s.eq_holds(v[1], len(items)):
                L.marks.append("another count is reported")
        elif name == "append":
            want = items + more
        kept = L.list(s, cur, want)
        if name == "clone":
            k2 = L.list(s, v, items, "the copy")
            if set(k2) & set(kept):
                L.marks.append("the copy shares nodes")
            kept = kept + k2
        L.released(s, [], kept, before)
    return L.marks


def node_op(job):
    F = runall._job["F"]
    name, beg, n = job
    L = Lab(F)
    E, q = L.E, L.q
    f = find(F, queues.NODE, name)
    if f is None:
        return None
    st = St()
    items = [q.chunk(E, st, "a%d" % i) for i in range(n)]
    nt = q.tid[queues.NODE]
    E.cell_ty["*self"] = nt
    st.cells["*self"] = q.node(E, items, beg)
    ref = ("r", ("c", "*self", ()), nt)
    args = [ref]
    if name.startswith("push"):
        args.append(q.chunk(E, st, "new"))
    L.all = items + args[1:]
    if f["argc"] != len(args):
        return None
    outs = [("ret", s, None) for s in hist.drop(E, f, st, ref)] if name == "drop" else L.run(st, f, args)
    if not outs:
        return ["no outcome could be followed"]
    for kind, s, v in outs:
        if kind != "ret":
            if oracle.feasible(s):
                L.marks.append("the operation panics")
            continue
        if name == "drop":
            L.released(s, items, [], [])
            continue
        want = list(items)
        full = n >= q.size
        if name.startswith("push"):
            for s2, x in E.split_variants(s, v):
                if (x[2] == 1) != full:
                    L.marks.append("refused although there is room" if x[2] else "accepted although full")
                elif full and not L.same(s2, x[3][0], args[1]):
                    L.marks.append("another chunk is handed back")
            if not full:
                want = want + [args[1]] if name == "push_back" else [args[1]] + want
        elif name in ("pop_back", "back"):
            L.opt(s, v, items[-1] if items else None, "the last chunk")
        elif name in ("pop_front", "front"):
            L.opt(s, v, items[0] if items else None, "the first chunk")
        if name == "pop_back":
            want = want[:-1]
        if name == "pop_front":
            want = want[1:]
        nd = E.read(s, ref[1])
        b, k = queues.num(s, q.get(nd, queues.NODE, "beg")), queues.num(s, q.get(nd, queues.NODE, "len"))
        if b is None or k is None:
            raise Unsupported("position not known")
        if b >= q.size or k > q.size:
            L.marks.append("a position lies outside the node")
            continue
        arr = q.get(nd, queues.NODE, "data")
        got = [arr[2][(b + i) % q.size] for i in range(k)]
        if any(g[0] == "x" for g in got):
            L.marks.append("a slot counted as full was never filled")
            continue
        L.seq(s, got, want, "the node")
        L.released(s, [], [], [])
    return L.marks


CHUNKS = ("LinkedIter", "LinkedStrIter", "ChunkIter", "StrChunkIter")


def order(p):
    """Chunk iterators give the chunks in order from either end, and nothing after the last."""
    F = runall._job["F"]
    f = F.fns[p]
    E = queues.engine(F)
    q = E.rep
    q.shapes = ("-", "C", "N", "C+N", "N+N")
    res = {"ok": 0, "bad": [], "open": []}

    def visit(st0, args0, trace, kind, st, ref):
        if kind == "panic":
            if oracle.feasible(st):
                res["bad"].append("panics after %s" % "+".join(m for m, _ in trace))
            return
        a = args0[0]
        v = E.read(st0, a[1]) if a[0] == "r" else a
        items, _, _ = q.walk(E, st0, q.root_of(v)[0])
        lo, hi = 0, len(items)
        for m, x in trace:
            if m not in ("next", "next_back", "count", "len", "last"):
                return
            if m in ("count", "len"):
                if x[0] != "i" or not st.eq_holds(x[1], hi - lo):
                    res["bad"].append("%s is not the number of chunks left, on %s" % (m, qpaths.shapes_of(st0)))
                continue
            if m == "last" and lo < hi:
                lo = hi - 1
            want = None
            if lo < hi:
                if m == "next_back":
                    hi -= 1
                    want = items[hi]
                else:
                    want = items[lo]
                    lo += 1
            for s, y in E.split_variants(st, x):
                if (y[2] == 1) != (want is not None):
                    res["bad"].append("%s gives %s on %s" % (m, "a chunk after the last" if y[2] else "nothing before the last", qpaths.shapes_of(st0)))
                elif want is not None:
                    g, w = q.segs(E, s, y[3][0]), q.segs(E, s, want)
                    if g is None or w is None:
                        res["open"].append("chunk not known")
                    elif len(g) != 1 or g[0][0] != w[0][0] or not s.eq_holds(g[0][1], w[0][1]) or not s.eq_holds(g[0][2], w[0][2]):
                        res["bad"].append("%s gives another chunk on %s" % (m, qpaths.shapes_of(st0)))
        res["ok"] += 1

    missed = hist.run(E, f, f["locals"][0], visit, depth=4)
    return res, missed


def settle(rep, rs, label, where=""):
    for job, status, marks in rs:
        key = label(job)
        if status != "ok":
            rep.open(key, where, str(marks))
        elif marks is None:
            rep.count("operations not present")
        elif marks:
            rep.fail(key, where, "; ".join(sorted(set(marks)))[:300])
        else:
            rep.ok(key)


def sweep(rep, F, cats, secs=60):
    """Every public queue operation and iterator history, judged in the given categories."""
    ps = qpaths.entries(F)
    rep.count("queue operations", len(ps))
    rs = runall.run_with(F, ps, qpaths.reducer, None, secs)
    T = hist.iterator_types(F)
    rs2 = runall.run_with(F, [p for v in T.values() for p in v], hist.reducer, None, secs)
    for tag, rr in (("", rs), (" iterated", rs2)):
        for p, status, why, out in rr:
            f = F.fns[p]
            if status != "ok":
                rep.open("%s%s" % (p, tag), f["span"], why)
                continue
            n, res, missed, cuts = out
            rep.count("paths", n)
            for cat in cats:
                if cat in res:
                    s, d = res[cat]
                    rep.ob("%s%s [%s]" % (p, tag, cat), s, f["span"], d)
            if missed:
                rep.open("%s%s: part of the shapes" % (p, tag), f["span"], "; ".join(missed)[:200])
            if cuts:
                rep.count("longer repetitions not followed", cuts)


def run(rep):
    F = prep.facts("full")
    runall._job["F"] = F
    rep.anchor(queues.BQ in {t["def"] for t in F.types if t["k"] == "adt"}, "the queue type")
    q = queues.engine(F).rep
    rs = runall.jobs(node_op, [(m, b, n) for m in ("push_back", "push_front", "pop_back", "pop_front", "front", "back", "drop") for b in range(q.size) for n in range(q.size + 1)])
    settle(rep, rs, lambda j: "node %s at %d with %d chunks" % j)
    sh = shapes(q.size)
    jobs = [(op, s, None) for op in OPS for s in sh] + [(op, None, None) for op in ("with_item", "with_item empty", "new", "default")]
    few = [s for s in sh if len(s[1]) < 2 and all(b == q.size - 1 for b, _ in s[1])] + [(1, [(3, 1), (0, q.size)]), (0, [(3, 1), (q.size - 1, 2)])]
    jobs += [("append", a, b) for a in few for b in few]
    rs = runall.jobs(root_op, jobs)
    settle(rep, rs, lambda j: "list %s on %s%s" % (j[0], j[1], " and %s" % (j[2],) if j[2] else ""))
    T = hist.iterator_types(F)
    ps = [p for t, v in T.items() for p in v if F.types[t]["def"].split("::")[-1] in CHUNKS]
    rep.anchor(len(ps) >= 4, "chunk iterators")
    for p, status, out in runall.jobs(order, ps):
        key = "%s: order of the chunks" % p
        if status != "ok":
            rep.open(key, F.fns[p]["span"], str(out))
            continue
        res, missed = out
        rep.count("iterator histories", res["ok"])
        if res["bad"]:
            rep.fail(key, F.fns[p]["span"], "; ".join(sorted(set(res["bad"])))[:300])
        elif res["open"] or missed or not res["ok"]:
            rep.open(key, F.fns[p]["span"], "; ".join(sorted(set(res["open"] + missed)))[:200])
        else:
            rep.ok(key)
    sweep(rep, F, ("links", "count", "chunks", "nodes"))
    rep.assume.append("the list is reached only through the operations of the crate; chunk values behave as decided for C05")
