"""C09: length and chunk count match the content, and no operation loses or duplicates content."""
import c18
import hist, models, oracle, prep, qpaths, qspec, queues, runall
from absint import ble, bnot
from lin import Lin
from oracle import part, size

RULE = (
    "After every operation (also where it panics, and where iterators and drains are dropped midway) the stored length equals the sum of the chunks' lengths and the stored count the number of chunks; "
    "the sequence of bytes the queue holds afterwards is the one the operation prescribes, for every list shape, position and chunk length."
)
FLOOR = 700


def oom(c):
    return any(e[0] == "panic" and "handle_alloc_error" in str(e[1]) for e in c.st.events())


def unchanged(c):
    c.eq("queue unchanged", c.after(0), c.before(0))


def pushed(front):
    def spec(c):
        if c.kind != "ret":
            return c.never("refused", None, "a push is refused") if not called(c) else None
        b, a = c.before(0), c.after(0)
        if a is None:
            return c.open("content")
        x = [s for s in a if not any(s[0] == y[0] for y in b)]
        c.eq("content", a, x + b if front else b + x)
        new = {e[1] for e in c.st.events() if e[0] == "chunk-new"}
        if x or not new:
            return c.ok("pushed chunk kept")
        # not kept: it must have been empty
        n = [Lin.sym(v + ".n") for v in new]
        for v in new:
            if c.st.le_holds(Lin.sym(v + ".n")) or True:
                pass
        lens = [l for e in c.st.events() if e[0] == "chunk-drop" for l in [c.q.view(c.E, c.st, e[1])] if l is not None and l[0] in new]
        if lens and all(c.st.le_holds(l[2]) for l in lens):
            c.ok("pushed chunk kept")
        else:
            c.never("pushed chunk kept", c.st, "a chunk that may hold bytes is not kept")
    return spec


def called(c):
    return any(e[0] == "callback" for e in c.st.events())


def popped(front):
    def spec(c):
        if c.kind != "ret":
            return c.never("refused", None, "a pop panics")
        for s, v in c.E.split_variants(c.st, c.val):
            b, a = c.before(0), c.after(0, s)
            if v[2] == 0:
                c.eq("nothing only from an empty queue", b, [], s)
                c.eq("content", a, [], s)
            else:
                x = c.segs(v[3][0], s)
                c.eq("content", x + a if front else a + x, b, s)
                n = size(x)
                if s.le_holds(1 - n):
                    c.ok("a chunk holds bytes")
                else:
                    c.never("a chunk holds bytes", s, "an empty chunk is handed out")
    return spec


def peek(front):
    def spec(c):
        if c.kind != "ret":
            return c.never("refused", None, "a look at the queue panics")
        unchanged(c)
        for s, v in c.E.split_variants(c.st, c.val):
            b = c.before(0)
            if v[2] == 0:
                c.eq("nothing only from an empty queue", b, [], s)
            else:
                x = c.segs(v[3][0], s)
                n = size(x)
                c.eq("the chunk at the end", x, part(s, b, Lin(0), n) if front else part(s, b, size(b) - n, size(b)), s)
    return spec


def length(c):
    if c.kind != "ret":
        return c.never("refused", None, "a length query panics")
    c.num("length", c.val, size(c.before(0)))


def count(c):
    if c.kind != "ret":
        return c.never("refused", None, "a count query panics")
    c.num("count", c.val, Lin(len(c.before(0))))


def empty_q(c):
    if c.kind != "ret":
        return c.never("refused", None, "an emptiness query panics")
    if c.val[0] != "b":
        return c.open("empty")
    n = size(c.before(0))
    for s in c.st.assume(c.val[1]):
        c.ok("empty") if s.le_holds(n) else c.never("empty", s, "reports empty for %s bytes" % n)
    for s in c.st.assume(bnot(c.val[1])):
        c.ok("empty") if s.le_holds(1 - n) else c.never("empty", s, "reports not empty for %s bytes" % n)


def cut(c, n, k, fit, unfit="a position beyond the end is accepted", loose=False):
    """fit(state) where position k lies within n bytes, a refusal elsewhere."""
    for s in c.st.assume(ble(k, n)):
        if c.kind == "ret":
            fit(s)
        elif not loose and not oom(c):
            c.never("cut refused", s, "a position that fits is refused")
    for s in c.st.assume(bnot(ble(k, n))):
        if c.kind == "ret":
            c.never("cut accepted", s, unfit)
        else:
            c.ok("unfitting cut refused")
            c.eq("refused without effect", c.after(0, s), c.before(0), s)


def consume(c):
    b = c.before(0)
    n, k = size(b), c.args0[1][1]
    cut(c, n, k, lambda s: c.eq("content", c.after(0, s), part(s, b, k, n), s))


def split_off(text):
    def spec(c):
        b = c.before(0)
        n, k = size(b), c.args0[1][1]

        def fit(s):
            c.eq("part kept", c.after(0, s), part(s, b, Lin(0), k), s)
            c.eq("part given", c.segs(c.val, s), part(s, b, k, n), s)

        cut(c, n, k, fit, loose=text)
    return spec


def ranges(c, n):
    for s, x, y, _, _ in models.range_parts(c, c.st, c.args0[1], n):
        ok = models.in_bounds(x, y, n)
        yield s.assume(ok), s.assume(bnot(ok)), x, y


def sliced(text):
    def spec(c):
        b = c.before(0)
        n = size(b)
        for good, wrong, x, y in ranges(c, n):
            for s in good:
                if c.kind == "ret":
                    c.eq("content", c.segs(c.val, s), part(s, b, x, y), s)
                    c.eq("queue unchanged", c.after(0, s), b, s)
                elif not text and not oom(c):
                    c.never("range refused", s, "a range that fits is refused")
            for s in wrong:
                if c.kind == "ret":
                    c.never("range accepted", s, "a range that does not fit is accepted")
                else:
                    c.ok("unfitting range refused")
                    c.eq("queue unchanged", c.after(0, s), b, s)
    return spec


def without(s, b, x, y, new=()):
    """b with the bytes from x to y replaced."""
    if s.eq_holds(x, y) and not new:
        return b
    h, t = part(s, b, Lin(0), x), part(s, b, y, size(b))
    return None if h is None or t is None or new is None else h + list(new) + t


def replaced(text):
    def spec(c):
        b, r = c.before(0), c.before(2)
        n = size(b)
        for good, wrong, x, y in ranges(c, n):
            for s in good:
                if c.kind == "ret":
                    c.eq("content", c.after(0, s), without(s, b, x, y, r), s)
                elif not text and not oom(c):
                    c.never("range refused", s, "a range that fits is refused")
            for s in wrong:
                if c.kind == "ret":
                    c.never("range accepted", s, "a range that does not fit is accepted")
                else:
                    c.ok("unfitting range refused")
                    c.eq("refused without effect", c.after(0, s), b, s)
    return spec


def append(c):
    if c.kind != "ret":
        return None if oom(c) else c.never("refused", None, "appending panics")
    c.eq("content", c.after(0), c.before(0) + c.before(1))


def ident(c):
    b = c.before(0)
    if b is None and c.args0[0][0] == "s":
        # which variant it is shows only on the path
        vs = c.E.split_variants(c.st, c.args0[0])
        b = c.segs(vs[0][1]) if len(vs) == 1 else None
    if c.kind != "ret":
        if oom(c):
            return
        s = c.st.fork()
        if b is not None:
            s.add_le(size(b) - 2**31)  # sharing more than fits a shared block is refused by contract
        return c.never("refused", s, "the operation panics")
    c.eq("content", c.segs(c.val), b)


def nothing(c):
    if c.kind == "ret":
        c.eq("content", c.segs(c.val), [])
    else:
        c.never("refused", None, "the operation panics")


def grows(c):
    """What was there stays in front."""
    if c.kind == "ret":
        a, b = c.after(0), c.before(0)
        c.eq("content kept in front", a[: len(b)] if a is not None else None, b)


def parts(c):
    """The taken part followed by the rest is the original."""
    if c.kind == "ret":
        a, b = c.segs(c.val), c.after(0)
        c.eq("parts in order", a + b if a is not None and b is not None else None, c.before(0))


BOTH = {
    "new": nothing, "with_item": ident, "push_back": pushed(False), "push_front": pushed(True), "pop_front": popped(True), "pop_back": popped(False),
    "front": peek(True), "back": peek(False), "len": length, "chunk_len": count, "is_empty": empty_q, "take_while": parts, "take_line": parts,
    "as_bytequeue": ident, "into_bytequeue": ident, "find_byte": unchanged, "find_slice": unchanged, "find_slice_after": unchanged, "find_char": unchanged,
    "starts_with": unchanged, "ends_with": unchanged, "exists_at": unchanged, "append": append,
}
CORE = [("push_back", 2), ("push_front", 2), ("pop_front", 2), ("pop_back", 2), ("len", 2), ("is_empty", 2), ("chunk_len", 2), ("slice", 2), ("split_off", 2), ("drain", 2), ("append", 1), ("consume", 1), ("replace_range", 2)]


def table(F):
    """[(path, spec, generic arguments, label)]"""
    out = []
    for d, text in ((queues.BQ, False), (queues.SQ, True)):
        names = dict(BOTH, split_off=split_off(text), slice=sliced(text), replace_range=replaced(text), consume=consume)
        for n, spec in names.items():
            p = qspec.find(F, d, n)
            if p is not None:
                f = F.fns[p]
                if f.get("pub"):
                    t = qspec.range_targs(F, f) if n in ("slice", "replace_range") else []
                    out.append((p, spec, t, ""))
                    if n == "slice":
                        for ty in ("RangeFrom", "RangeTo", "RangeInclusive"):
                            t = qspec.range_targs(F, f, "std::ops::%s<usize>" % ty)
                            if t:
                                out.append((p, spec, t, ty))
    for p, f in F.fns.items():
        if not f["local"] or not f.get("blocks") or "{" in p or not f.get("pub") or "LinkedRoot" in p:
            continue
        last = p.rsplit("::", 1)[-1]
        ts = [F.types[l] for l in f["locals"][: f["argc"] + 1]]
        isq = lambda t: t["k"] == "adt" and t["def"] in (queues.BQ, queues.SQ)
        if last == "from" and f["argc"] == 1 and (isq(ts[0]) or isq(ts[1])):
            out.append((p, ident, [], ""))
        elif last == "clone" and isq(ts[0]):
            out.append((p, ident, [], ""))
        elif last == "default" and isq(ts[0]):
            out.append((p, nothing, [], ""))
        elif last in ("extend", "write_str", "write_char", "write") and f["argc"] == 2 and ts[1]["k"] == "ref" and isq(F.types[ts[1]["t"]]):
            out.append((p, grows, [], ""))
    return out


def drained(job):
    """A drain, used for any number of steps and dropped, leaves exactly the bytes outside its range."""
    F = runall._job["F"]
    p, _, shape, depth = job
    f = F.fns[p]
    E = queues.engine(F)
    q = E.rep
    q.shapes = (shape,)
    out = {}
    n = [0]
    text = queues.SQ in p
    targs = qspec.range_targs(F, f)

    def visit(st0, args0, trace, kind, st, ref):
        if kind == "live":
            return
        n[0] += 1
        c = oracle.Ctx(E, f, st0, args0, kind, st, None)
        c.q = q
        b = c.before(0)
        size_ = size(b)
        for good, wrong, x, y in ranges(c, size_):
            for s in good:
                if kind == "ret":
                    c.eq("content left", c.after(0, s), without(s, b, x, y), s)
                elif not trace and not text and not oom(c):
                    c.never("range refused", s, "a range that fits is refused")
                elif trace and not text:
                    c.never("steps", s, "a step of the drain panics")
            for s in wrong:
                if kind == "ret" or trace:
                    c.never("range accepted", s, "a range that does not fit is accepted")
                else:
                    c.ok("unfitting range refused")
                    c.eq("refused without effect", c.after(0, s), b, s)
        qspec.merge(out, c, "%s after %s" % (qpaths.shapes_of(st0), "+".join(m for m, _ in trace) or "nothing"))

    missed = hist.run(E, f, f["locals"][0], visit, depth=depth, targs=targs)
    return n[0], out, missed, sum(E.cuts.values())


def one(job):
    F = runall._job["F"]
    p, label, shape = job
    spec, targs = runall._job["specs"][p, label]
    return qspec.run(F, p, spec, targs, (shape,) if shape else None)


def by_shape(F, p):
    """Shapes to run one by one, where there is one queue among the arguments."""
    f = F.fns[p]
    n = 0
    for l in f["locals"][1 : f["argc"] + 1]:
        t = F.types[l]
        t = F.types[t["t"]] if t["k"] == "ref" else t
        n += t["k"] == "adt" and t["def"] in (queues.BQ, queues.SQ)
    return queues.QRep.shapes if n == 1 else (None,)


def run(rep):
    F = prep.facts("full")
    runall._job["F"] = F
    tb = table(F)
    have = {(p.rsplit("::", 1)[-1]) for p, _, _, _ in tb}
    for n, k in CORE:
        got = [d for d in (queues.BQ, queues.SQ) if qspec.find(F, d, n)]
        rep.anchor(len(got) >= k, "%s of queues" % n)
    runall._job["specs"] = {(p, l): (s, t) for p, s, t, l in tb}
    rs = runall.jobs(one, [(p, l, s) for p, _, _, l in tb for s in by_shape(F, p)], 60)
    qspec.report(rep, F, rs, "content")
    ds = [p for d in (queues.BQ, queues.SQ) for p in [qspec.find(F, d, "drain")] if p]
    js = [(p, "dropped", s, 0) for p in ds for s in queues.QRep.shapes]
    js += [(p, "dropped midway", s, 1 if queues.SQ in p else 2) for p in ds for s in ("C", "N", "C+N") if queues.SQ not in p or s == "C"]
    qspec.report(rep, F, runall.jobs(drained, js, 60), "content")
    import os
    if not os.environ.get("NOSWEEP"): c18.sweep(rep, F, ("count", "length", "chunks"))
    rep.assume.append("chunk values behave as decided for C05; totals stay below the address space")
