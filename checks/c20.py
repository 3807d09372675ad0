"""C20: a panic in a caller's code leaves every value valid."""
import collections, time
import hist, oracle, paths, prep, qpaths, queues, runall
import rep as repm
import content
from absint import Budget, Unsupported, Lin

RULE = (
    "At every call out to code that only the caller knows (a closure, a trait method or the destructor of a type parameter, a function pointer kept with foreign data), an outcome is added in which that code panics; the "
    "unwinding is followed through the cleanup blocks of every frame up to the public operation. On each such outcome the values the caller still holds are judged: no block or chunk is held or given up more often than it "
    "was owned, no released block or node is still referred to, links, counts and lengths of a queue agree, a builder's record matches its block and counts only bytes that were written, text is still cut between "
    "characters. Losing memory is allowed. For queues the same is done for destructors of chunks that panic, and for iterators the history is broken off at each such point and the iterator dropped."
)
FLOOR = 650
RANK = {"ok": 0, "open": 1, "undecided": 1, "fail": 2}


def bycaller(st):
    """The site at which code of the caller panicked, if that is what ended this path."""
    for e in reversed(st.events()):
        if e[0] == "panic":
            return e[2:] if e[1] == "caller" else None
    return None


def lost(c):
    """The caller's values after the panic: no handle more than there are references, every one a valid value."""
    paths.balance(c, lossy=True)
    d = paths.Path(c.E, c.fn, c.st0, c.args0, "ret", c.st, None)
    for rule in (paths.c03, paths.c04, paths.c06, paths.c12, paths.c13):
        rule(d)
    fill(d)
    c.marks += d.marks


def builders(c, st):
    out = {}

    def visit(x):
        if x[0] == "a" and c.tdef(x[1]) == paths.SBB:
            out[len(out)] = x
    for a in c.args0:
        c.leaves(st, a, True, visit)
    return out


def fill(c):
    """Bytes a builder counts as written were written: the fill mark grows by what this path wrote at most."""
    a, b = builders(c, c.st0), builders(c, c.st)
    for i, x in b.items():
        y = a.get(i)
        n, m = c.field(x, "off"), c.field(y, "off") if y is not None else None
        if n[0] != "i" or m is None or m[0] != "i":
            c.open("only written bytes are counted", "fill mark not tracked")
            continue
        put = Lin(0)
        evs = c.st.events()
        ends = [k for k, e in enumerate(evs) if e[0] == "panic"]
        for k, e in enumerate(evs):
            if e[0] in ("call", "callopaque", "indirect") and k + 1 not in ends:
                # the caller's code returned: it may have filled what it was lent
                for v in e[2]:
                    put = put + v[3] if v[0] == "v" else put
            if e[0] == "copy":
                put = put + e[5]
            elif e[0] == "fill":
                put = put + e[3]
            elif e[0] == "write":
                put = put + c.E.size_of(c.E.strip(e[3]))
        paths.exact_le(c, "only written bytes are counted", n[1] - m[1] - put, "fill mark moves from %s to %s with %s bytes written" % (m[1], n[1], put))


def plain(f, E):
    out, sites, n = {}, collections.Counter(), 0
    for st0, args0, outs in repm.run(E, f):
        for kind, st, val in outs:
            s = bycaller(st) if kind == "panic" else None
            if s is None:
                continue
            n += 1
            sites[s] += 1
            c = paths.Path(E, f, st0, args0, kind, st, val)
            lost(c)
            for r, w, why in c.marks:
                k = "%s %s" % (c.kinds(), w) if c.kinds() else w
                if k not in out or RANK[r] > RANK[out[k][0]]:
                    out[k] = (r, why)
    return n, out, sites


def one(p):
    F = runall._job["F"]
    f = F.fns[p]
    for loops in (2, 1, 0):
        E = repm.engine(F)
        E.unwinding = E.callpanics = True
        if loops:
            E.unroll = lambda fr: (30, loops)
        try:
            return plain(f, E)
        except Budget:
            if not loops:
                raise


def queue(item):
    p, mode = item
    F = runall._job["F"]
    f = F.fns[p]
    E = queues.engine(F)
    E.unwinding = True
    E.callpanics = mode == "calls"
    E.dtorpanics = mode == "drops"
    q = E.rep
    out, sites, n = {}, collections.Counter(), 0
    t0 = time.time()
    missed = []
    for st, args in repm.starts(E, f):
        E.budget = E.budget0
        E.entry_args, E.entry_state = args, st
        try:
            outs = qpaths.narrow(E, f, args, st, t0)
        except (Budget, Unsupported) as e:
            missed.append("%s: %s" % (qpaths.shapes_of(st), str(e)[:80] or "over budget"))
            continue
        except runall.Late:
            missed.append("%s: analysis budget (time) exhausted" % qpaths.shapes_of(st))
            break
        for kind, s, val in outs:
            w = bycaller(s) if kind == "panic" else None
            if w is None:
                continue
            n += 1
            sites[w] += 1
            for cat, status, why in qpaths.judge(E, q, f, st, args, kind, s, val):
                if cat not in out or RANK[status] > RANK[out[cat][0]]:
                    out[cat] = (status, "%s on %s" % (why, qpaths.shapes_of(s)))
    return n, out, sites, missed


def iterator(item):
    """The histories of an iterator over a queue, broken off by a destructor or a call that panics."""
    p, mode = item
    F = runall._job["F"]
    f = F.fns[p]
    E = queues.engine(F)
    E.unwinding = True
    E.callpanics = mode == "calls"
    E.dtorpanics = mode == "drops"
    q = E.rep
    tid = f["locals"][0]
    out, sites, n = {}, collections.Counter(), [0]

    def visit(st0, args0, trace, kind, st, ref):
        w = bycaller(st) if kind == "panic" else None
        if w is None:
            return
        n[0] += 1
        sites[w] += 1
        for cat, status, why in qpaths.judge(E, q, f, st0, args0, kind, st, hist.items_in(E, q, st, trace)):
            if cat not in out or RANK[status] > RANK[out[cat][0]]:
                out[cat] = (status, "%s after %s on %s" % (why, "+".join(m for m, _ in trace) or "nothing", qpaths.shapes_of(st)))

    s = E.F.s(tid)
    try:
        missed = hist.run(E, f, tid, visit, depth=1 if "Char" in s or "Split" in s else 2)
    except runall.Late:
        missed = ["analysis budget (time) exhausted"]
    return n[0], out, sites, missed


def outward(F):
    """Functions from which code supplied by the caller can be reached over the calls in their bodies (chunks aside)."""
    always, given, calls = set(), set(), collections.defaultdict(set)
    memo = {}

    def open_(t, depth=0):
        """Whether a type mentions a type parameter."""
        if not isinstance(t, int) or depth > 8:
            return False
        if t not in memo:
            memo[t] = False
            x = F.types[t]
            if x["k"] in ("param", "alias"):
                memo[t] = True
            else:
                kids = [x.get("t")] + list(x.get("args") or ()) + list(x.get("ts") or ()) + list(x.get("ups") or ())
                memo[t] = any(open_(k, depth + 1) for k in kids)
        return memo[t]

    for p, f in F.fns.items():
        if any(open_(l) for l in f.get("locals") or ()):
            given.add(p)
        for b in f.get("blocks") or ():
            t = b["t"]
            if t[0] != "call":
                continue
            if "fn" not in t[1]:
                always.add(p)
                continue
            c = t[1]["fn"]
            to = c.get("r") or c["p"]
            a = (c.get("ra") if "r" in c else c.get("a")) or ()
            if c.get("tr") and "r" not in c and a and isinstance(a[0], int) and F.types[a[0]]["k"] == "dyn":
                always.add(p)
            if not to.startswith(("bytedata::bytedata::", "<bytedata::bytedata::")):
                calls[to].add((p, any(open_(x) for x in a)))
    work = [(p, True) for p in always] + [(p, False) for p in given]
    while work:
        p, sure = work.pop()
        for q, passed in calls.get(p, ()):
            to = always if sure else given
            if (sure or passed) and q not in to:
                to.add(q)
                work.append((q, sure))
    return always | given


SKIP = ("copy source", "copy target", "write in", "fill in", "view in", "released", "length set")


def changes(F, f):
    """Whether a function takes something it could leave half done: by value or behind &mut."""
    for l in f["locals"][1 : f["argc"] + 1]:
        t = F.types[l]
        if t["k"] == "ref" and t.get("mut") or t["k"] not in ("ref", "int", "bool", "char"):
            return True
    return False


def run(rep):
    F = prep.facts("full")
    seen = collections.Counter()
    hit = set()

    def add(p, tag, f, status, o):
        rep.count("functions")
        if status != "ok":
            rep.open("%s: %s" % (p, tag), f["span"], "%s: %s" % (status, str(o)[:120]))
            return
        n, out, sites = o[:3]
        rep.count("paths ended by a caller's panic", n)
        if n and tag != "drops":
            hit.add(p)
        seen.update({(w[0], w[1]): k for w, k in sites.items()})
        for k, (r, why) in sorted(out.items()):
            if k.split(" ", 1)[-1].startswith(SKIP) or k.startswith(SKIP):
                continue
            rep.ob("%s: %s %s" % (p, tag, k), {"ok": "ok", "open": "undecided"}.get(r, r), f["span"], why)
        for m in o[3] if len(o) > 3 else ():
            rep.open("%s: %s shapes" % (p, tag), f["span"], m)

    runall._job["F"] = F
    qs = qpaths.entries(F)
    out = outward(F)
    its = sorted(x for v in hist.iterator_types(F).values() for x in v)
    jobs = [("iterator", p, m) for p in its for m in ("calls", "drops") if m == "drops" or p in out]
    jobs += [("plain", p, None) for p in paths.entries(F, lambda p: "queue" not in p.lower())]
    jobs += [("queue", p, m) for p in sorted(qs) for m in ("calls", "drops") if (p in out if m == "calls" else changes(F, F.fns[p]))]
    for (how, p, m), status, o in runall.jobs(job, jobs, 60):
        add(p, {"plain": "", "queue": m, "iterator": "iterator %s" % m}[how], F.fns[p], status, o)
    rep.count("sites of caller code", len(seen))
    for e in ENTRIES:
        rep.anchor(any(p.endswith(e) for p in hit), "code of the caller runs within " + e)


ENTRIES = ("SharedBytesBuilder::apply_unfilled", "::from_external", "ByteData::<'a>::take_while", "ByteQueue::<'a>::find_byte", "ByteQueue::<'a>::push_back", "ByteQueue::<'a>::drain")


def job(item):
    how, p, m = item
    return one(p) if how == "plain" else queue((p, m)) if how == "queue" else iterator((p, m))
