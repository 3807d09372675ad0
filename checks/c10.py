"""C10: reading and writing adapters move exactly what they report."""
import re
import content, models, oracle, prep, qpaths, qspec, queues, runall
import rep as repm
from absint import Budget, Engine, Unsupported, ble, bnot
from lin import Lin
from oracle import part, size

RULE = (
    "Every function implementing a standard I/O, buffer or HTTP body interface for a byte, text, builder or queue type is interpreted abstractly over symbolic contents, lengths and positions, once per representation "
    "or list shape and, for vectored requests, per number of buffers (0 to 3) of symbolic sizes. On each path the count reported, the bytes that arrived where, and what remains at the source are compared with what the "
    "interface prescribes; a panic for a request that the interface allows is a violation."
)
FLOOR = 190
ADAPTER = re.compile(r"(?:<impl |<)(?:.* as )?(?:[\w:]*::)?(Read|Write|BufRead|Buf|BufMut|Body)(?: for ([^{]*?))?>::(\w+)$")


def oom(c):
    return any(e[0] == "panic" and "handle_alloc_error" in str(e[1]) for e in c.st.events())


def refused(c):
    """A request that would not exceed what a shared block may hold must not panic."""
    if c.small and not oom(c):
        c.never("refused", None, "the request panics")


def self_of(c, args=None):
    v = (args or c.args0)[0]
    while v[0] == "a" and len(v[3]) == 1:
        v = v[3][0]
    return v


def before(c):
    return c.segs(self_of(c), c.st0)


def after(c, st):
    return c.segs(self_of(c), st)


def cases(c, what="refused"):
    """(state, variant, fields) of the Result returned."""
    if c.kind != "ret":
        return
    for s, v in c.E.split_variants(c.st, c.val):
        if v[0] == "a":
            yield s, v[2], v[3]
        else:
            c.open("result", "not tracked")


def unchanged(c, s=None):
    s = s or c.st
    c.eq("source unchanged", after(c, s), before(c), s)


def never_panics(c):
    if c.kind != "ret" and not oom(c):
        c.never("refused", None, "the request panics")
    return c.kind != "ret"


def smaller(c, s, r, a, b, what="count"):
    """r is the smaller of a and b."""
    for s2 in s.assume(ble(a, b)):
        c.num(what, r, a, s2)
    for s2 in s.assume(bnot(ble(a, b))):
        c.num(what, r, b, s2)


def views(c):
    """The buffers of a request: views on them, in order."""
    v = c.args0[1]
    if v[0] != "v":
        return None
    if c.bufs is None:
        return [v]
    return c.bufs


def held(c, vs, st):
    out = []
    for v in vs:
        x = content.resolve(c.E, st, v[1], v[2], v[3])
        if x is None:
            return None
        out += x
    return out


def cat(*xs):
    return None if any(x is None for x in xs) else [y for x in xs for y in x]


def reads(c):
    if never_panics(c):
        return
    b, vs = before(c), views(c)
    if b is None or vs is None:
        return c.open("bytes")
    n, room = size(b), Lin(0)
    for v in vs:
        room = room + v[3]
    for s, k, fs in cases(c):
        if k != 0:
            c.never("error", s, "reading from memory fails")
            continue
        r = fs[0]
        smaller(c, s, r, room, n)
        if r[0] != "i":
            continue
        was = held(c, vs, c.st0)
        c.eq("bytes", held(c, vs, s), cat(part(s, b, Lin(0), r[1]), part(s, was, r[1], room)), s)
        c.eq("source advanced", after(c, s), part(s, b, r[1], n), s)


def read_all(c):
    if never_panics(c):
        return
    b = before(c)
    for s, k, fs in cases(c):
        if k != 0:
            c.never("error", s, "reading from memory fails")
            continue
        c.num("count", fs[0], size(b), s)
        c.eq("bytes", c.after(1, s), cat(c.before(1), b), s)
        c.eq("source advanced", after(c, s), [], s)


def front(c, s, v):
    """A view of the beginning of the source, not empty unless the source is."""
    b, x = before(c), c.segs(v, s)
    if b is None or x is None:
        return c.open("bytes")
    c.eq("bytes", x, part(s, b, Lin(0), size(x)), s)
    nothing = s.assume(ble(size(x), 0))
    for s2 in nothing:
        if s2.le_holds(size(b)):
            c.ok("an empty view only at the end")
        else:
            c.never("an empty view only at the end", s2, "an empty view while bytes remain")
    unchanged(c, s)


def fill_buf(c):
    if never_panics(c):
        return
    for s, k, fs in cases(c):
        if k != 0:
            c.never("error", s, "reading from memory fails")
            continue
        front(c, s, fs[0])


def chunk(c):
    if never_panics(c):
        return
    front(c, c.st, c.val)


def advance(strict):
    def spec(c):
        b = before(c)
        if b is None:
            return c.open("source advanced")
        n, k = size(b), c.args0[1][1]
        for s in c.st.assume(ble(k, n)):
            if c.kind == "ret":
                c.eq("source advanced", after(c, s), part(s, b, k, n), s)
            elif not oom(c):
                c.never("refused", s, "a count that fits is refused")
        for s in c.st.assume(bnot(ble(k, n))):
            if c.kind == "ret":
                if strict:
                    c.never("accepted", s, "a count beyond the end is accepted")
            else:
                c.ok("unfitting count refused")
                c.eq("refused without effect", after(c, s), b, s)
    return spec


def read_until(c):
    if never_panics(c):
        return
    b = before(c)
    for s, k, fs in cases(c):
        if k != 0:
            c.never("error", s, "reading from memory fails")
            continue
        r = fs[0]
        n = size(b)
        if r[0] != "i":
            c.open("count", "not tracked")
            continue
        c.eq("bytes", c.after(2, s), cat(c.before(2), part(s, b, Lin(0), r[1])), s)
        c.eq("source advanced", after(c, s), part(s, b, r[1], n), s)
        for s2 in s.assume(ble(r[1], 0)):
            c.ok("nothing only at the end") if s2.le_holds(n) else c.never("nothing only at the end", s2, "nothing is read while bytes remain")
        until(c, s, b, r[1], c.args0[1])


def byte(c, s, segs, i):
    """The name of the byte at a position of segs."""
    x = part(s, segs, Lin(i) if isinstance(i, int) else i, (Lin(i) if isinstance(i, int) else i) + 1)
    if x and len(x) == 1:
        b = x[0][0]
        if isinstance(b, tuple):
            b = "arr:%s" % b[1] if b[0] == "arr" else None
        if b is not None:
            return "mem:%s[%s]:u8" % (b, x[0][1])
    return None


def differs(s, a, b):
    return any(x in (a - b, b - a) for x in s.ne) or s.le_holds(a - b + 1) or s.le_holds(b - a + 1)


def until(c, s, b, r, want):
    """The bytes up to the last one of b[:r] differ from want, and that one equals it unless b ends there."""
    if want[0] != "i":
        return c.open("delimiter", "not tracked")
    w = want[1]
    if not r.const:
        # a position that some loop found: the byte before it must be known to be the delimiter
        nm = byte(c, s, b, r - 1)
        if nm is not None and s.eq_holds(Lin.sym(nm), w):
            return c.ok("ends at the delimiter")
        if s.eq_holds(r, size(b)):
            return c.ok("ends at the delimiter")
        return c.open("ends at the delimiter", "position %s" % r)
    for i in range(r.c):
        nm = byte(c, s, b, i)
        if nm is None:
            return c.open("delimiter", "byte %d" % i)
        if i < r.c - 1 and not differs(s, Lin.sym(nm), w):
            c.never("no delimiter passed over", with_eq(s, Lin.sym(nm), w), "byte %d may be the delimiter" % i)
        elif i < r.c - 1:
            c.ok("no delimiter passed over")
    if r.c:
        nm = byte(c, s, b, r.c - 1)
        if s.eq_holds(Lin.sym(nm), w) or s.eq_holds(r, size(b)):
            c.ok("ends at the delimiter")
        else:
            s2 = s.fork()
            s2.add_le(r + 1 - size(b))
            c.never("ends at the delimiter", s2, "stops after %d bytes without a delimiter" % r.c)


def with_eq(s, a, b):
    s = s.fork()
    s.add_le(a - b)
    s.add_le(b - a)
    return s


def writes(c):
    b, vs = before(c), views(c)
    if b is None or vs is None:
        return c.open("bytes")
    if c.kind != "ret":
        return refused(c)
    data = held(c, vs, c.st0)
    n = size(data)
    for s, k, fs in cases(c):
        if k != 0:
            c.eq("error without effect", after(c, s), b, s)
            if c.small:
                c.never("error", s, "writing to memory fails")
            continue
        r = fs[0]
        if c.small:
            c.num("count", r, n, s)
        if r[0] == "i":
            c.eq("bytes", after(c, s), cat(b, part(s, data, Lin(0), r[1])), s)


def write_str(c):
    """All or nothing."""
    b, x = before(c), c.before(1)
    if c.kind != "ret":
        return refused(c)
    for s, k, fs in cases(c):
        if k == 0:
            c.eq("bytes", after(c, s), cat(b, x), s)
        else:
            c.eq("error without effect", after(c, s), b, s)


def put(c):
    b, x = before(c), c.segs(c.args0[1], c.st0)
    if c.kind != "ret":
        return refused(c)
    c.eq("bytes", after(c, c.st), cat(b, x))


def put_bytes(c):
    b = before(c)
    v, n = c.args0[1], c.args0[2][1]
    if c.kind != "ret":
        return refused(c)
    a = after(c, c.st)
    if a is None or b is None:
        return c.open("bytes")
    c.eq("what was there", part(c.st, a, Lin(0), size(b)), b)
    c.num("count", ("i", size(a)), size(b) + n)
    t = content.norm(c.st, part(c.st, a, size(b), size(a)) or [])
    if all(content.kindless(x[0]) and str(x[0][1]) == str(v[1]) for x in t):
        c.ok("bytes")
    elif t and all(content.kindless(x[0]) for x in t) and "?" not in str(t):
        c.never("bytes", None, "%s instead of the value given" % str(t)[:80])
    else:
        c.open("bytes", str(t)[:80])


def length(c):
    if never_panics(c):
        return
    c.num("remaining", c.val, size(before(c)))


def remains(ended):
    """Whether bytes remain, or whether none do."""
    def spec(c):
        if never_panics(c):
            return
        if c.val[0] != "b":
            return c.open("remaining")
        n = size(before(c))
        for cond, some in ((c.val[1], not ended), (bnot(c.val[1]), ended)):
            for s in c.st.assume(cond):
                if s.le_holds(1 - n) if some else s.le_holds(n):
                    c.ok("remaining")
                else:
                    c.never("remaining", s, "claims that %s bytes are %s" % (n, "some" if some else "none"))
    return spec


def to_bytes(c):
    b = before(c)
    if b is None:
        return c.open("bytes")
    n, k = size(b), c.args0[1][1]
    for s in c.st.assume(ble(k, n)):
        if c.kind == "ret":
            c.eq("bytes", c.segs(c.val, s), part(s, b, Lin(0), k), s)
            c.eq("source advanced", after(c, s), part(s, b, k, n), s)
        elif "external" in c.kinds():
            c.open("refused", "whether the owner's bytes contain the view is the owner's matter")
        elif c.small and not oom(c):
            c.never("refused", s, "a count that fits is refused")
    for s in c.st.assume(bnot(ble(k, n))):
        if c.kind == "ret":
            c.never("accepted", s, "a count beyond the end is accepted")
        else:
            c.ok("unfitting count refused")
            c.eq("refused without effect", after(c, s), b, s)


def data_of(c, s, v, depth=0):
    """The byte value inside a frame."""
    x = c.segs(v, s)
    if x is not None or depth > 4 or v[0] != "a" or len(v[3]) != 1:
        return x
    return data_of(c, s, v[3][0], depth + 1)


def nested(c, s, v):
    """(state, value) pairs with the enum variants of a value decided, down to the first value that is not one."""
    for s, v in c.E.split_variants(s, v):
        yield s, v


def poll(c):
    b = before(c)
    if b is None:
        return c.open("bytes")
    if c.kind != "ret":
        return refused(c)
    n = size(b)
    for s, v in nested(c, c.st, c.val):
        if v[2] != 0:
            c.never("ready", s, "pending, and nothing will wake the task")
            continue
        for s, o in nested(c, s, v[3][0]):
            if o[2] == 0:
                c.ok("end only at the end") if s.le_holds(n) else c.never("end only at the end", s, "the end is reported for %s bytes" % n)
                c.eq("source advanced", after(c, s), b, s)
                continue
            for s, r in nested(c, s, o[3][0]):
                if r[2] != 0:
                    c.never("error", s, "reading from memory fails")
                    continue
                x, a = data_of(c, s, r[3][0]), after(c, s)
                c.eq("bytes", cat(x, a), b, s)
                if x is None:
                    c.open("frames hold bytes")
                elif s.le_holds(1 - size(x)):
                    c.ok("frames hold bytes")
                else:
                    c.never("frames hold bytes", s, "a frame without bytes")


def size_hint(c):
    if never_panics(c):
        return
    n = size(before(c))
    for lo, up in [c.val[3][:2]] if c.val[0] == "a" and len(c.val[3]) == 2 else []:
        c.num("lower bound", lo, n)
        for s, u in c.E.split_variants(c.st, up):
            if u[2] == 1:
                c.num("upper bound", u[3][0], n, s)
            return
    c.open("lower bound")


def uninit(c):
    """Room that follows the content."""
    b, a = before(c), after(c, c.st)
    if c.kind != "ret":
        return refused(c)
    c.eq("content kept", a, b)
    v = c.val
    while v[0] == "a" and len(v[3]) == 1:
        v = v[3][0]
    if v[0] == "r" and v[1][0] in ("sl", "m"):
        v = ("v", v[1][1], v[1][2], v[1][3])
    if v[0] != "v":
        return c.open("room", str(v)[:60])
    if c.st.le_holds(1 - v[3]):
        c.ok("room is not empty")
    elif c.small:
        c.never("room is not empty", None, "no room is offered")
    p = fields(c)
    if p is None or p["dat"][0] not in ("p", "v") or p["off"][0] != "i":
        return c.open("room follows the content")
    at, cap = p["dat"][2] + p["off"][1], p["dat"][2] + p["len"][1]
    if v[1] != p["dat"][1]:
        return c.never("room follows the content", None, "other memory is offered")
    c.num("room follows the content", ("i", v[2]), at)
    c.num("room reaches the end of the block", ("i", v[2] + v[3]), cap)


def fields(c, st=None):
    v = c.E.read(st or c.st, self_of(c)[1]) if self_of(c)[0] == "r" else None
    if v is None or v[0] != "a":
        return None
    t = c.E.F.types[v[1]]
    return {f["n"]: y for f, y in zip(t["variants"][0]["f"], v[3])}


def advance_mut(c):
    """Exactly the given number of bytes more, within the room there is; what was there stays."""
    p, k = fields(c, c.st0), c.args0[1][1]
    if p is None or p["dat"][0] == "null":
        return
    for s in c.st.assume(ble(p["off"][1] + k, p["len"][1])):
        if c.kind != "ret":
            c.never("refused", s, "a count within the room offered is refused")
            continue
        b, a = before(c), after(c, s)
        if a is None or b is None:
            c.open("count")
            continue
        c.num("count", ("i", size(a)), size(b) + k, s)
        c.eq("what was there", part(s, a, Lin(0), size(b)), b, s)


def slices(c):
    """Views of the chunks in order, as many as fit."""
    if never_panics(c):
        return
    b = before(c)
    want = b[: len(c.bufs)]
    c.num("count", c.val, Lin(len(want)))
    got = []
    for loc in c.locs[: len(want)]:
        x = models.vec_view_val(type("C", (), {"e": c.E})(), c.st, c.E.read(c.st, loc))
        got = None if x is None or got is None else got + content.resolve(c.E, c.st, x[1], x[2], x[3])
    c.eq("bytes", got, want)
    unchanged(c)


def flush(c):
    if never_panics(c):
        return
    unchanged(c)
    for s, k, _ in cases(c):
        c.ok("error") if k == 0 else c.never("error", s, "flushing memory fails")


def trailers(c):
    if never_panics(c):
        return
    unchanged(c)


SPECS = {
    ("Read", "read"): reads, ("Read", "read_vectored"): reads, ("Read", "read_to_end"): read_all, ("BufRead", "fill_buf"): fill_buf, ("BufRead", "consume"): advance(False),
    ("BufRead", "read_until"): read_until, ("Write", "write"): writes, ("Write", "write_vectored"): writes, ("Write", "flush"): flush, ("Write", "write_str"): write_str,
    ("Buf", "remaining"): length, ("Buf", "chunk"): chunk, ("Buf", "advance"): advance(True), ("Buf", "has_remaining"): remains(False), ("Buf", "copy_to_bytes"): to_bytes,
    ("Buf", "chunks_vectored"): slices, ("BufMut", "put"): put, ("BufMut", "put_slice"): put, ("BufMut", "put_bytes"): put_bytes, ("BufMut", "chunk_mut"): uninit, ("BufMut", "advance_mut"): advance_mut,
    ("Body", "poll_data"): poll, ("Body", "poll_frame"): poll, ("Body", "is_end_stream"): remains(True), ("Body", "size_hint"): size_hint, ("Body", "poll_trailers"): trailers,
}
VECTORED = ("read_vectored", "write_vectored", "chunks_vectored")
# what each interface must have been found for
CORE = [("Read", "read", 3), ("Read", "read_vectored", 3), ("BufRead", "consume", 3), ("Write", "write", 2), ("Buf", "advance", 3), ("Buf", "copy_to_bytes", 3), ("BufMut", "put_slice", 1), ("Body", "size_hint", 5)]


def table(F):
    out = []
    for p, f in F.fns.items():
        if not f["local"] or not f.get("blocks") or "{" in p:
            continue
        m = ADAPTER.search(p)
        if m is None or (m.group(1), m.group(3)) not in SPECS or f["argc"] < 1:
            continue
        if p.endswith("::write_char"):
            continue
        queue = any("queue" in (F.types[l].get("s") or "") for l in f["locals"][: f["argc"] + 1])
        targs = []
        if m.group(3) == "put" and f.get("generics"):
            for i, n in f["generics"]:
                while len(targs) <= i:
                    targs.append(None)
                if n == "T":
                    targs[i] = F.find_ty("bytedata::bytedata::ByteData<'_>") or F.find_ty("bytedata::shared_bytes::SharedBytes")
        out.append((p, (m.group(1), m.group(3)), queue, targs))
    return out


def buffers(E, st, args, k):
    """The request consists of exactly k buffers."""
    a = args[1]
    args = list(args)
    et = E.F.types[E.F.types[E.strip(E.entry_fn["locals"][2])]["t"]]["t"]
    args[1] = ("v", a[1], Lin(0), Lin(k))
    sts = st.assume(ble(a[3], k))
    sts = [s for x in sts for s in x.assume(ble(Lin(k), a[3]))]
    if not sts:
        return None
    st = sts[0]
    locs = [("m", a[1], Lin(i), et) for i in range(k)]
    bufs = []
    for loc in locs:
        v = E.read(st, loc)
        bufs.append(models.vec_view_val(type("C", (), {"e": E})(), st, v))
    return st, args, bufs, locs


def entries(E, st0, args0, key, k):
    """(state, arguments, buffers, places, whether everything together stays small)."""
    bufs = locs = None
    if k is not None:
        r = buffers(E, st0, args0, k)
        if r is None:
            return
        st0, args0, bufs, locs = r
    total = Lin(0)
    xs = [E.rep.segs(E, st0, self_of(None, args0))]
    if key[0] in ("Write", "BufMut"):
        if bufs is not None:
            total = sum((v[3] for v in bufs), Lin(0))
        elif len(args0) > 1:
            xs += [E.rep.segs(E, st0, a) for a in args0[1:2] if a[0] != "i"]
        total = sum((a[1] for a in args0[1:] if a[0] == "i" and key[1] == "put_bytes" and a is args0[2]), total)
    total = sum((size(x) for x in xs if x is not None), total)
    if key[1] in ("advance", "consume", "copy_to_bytes") and xs[0] is not None:
        k = args0[1][1]
        for s in st0.assume(ble(k, size(xs[0]))):
            yield s, args0, bufs, locs, key[1] != "copy_to_bytes" or s.le_holds(size(xs[0]) - 2**30)
        for s in st0.assume(bnot(ble(k, size(xs[0])))):
            yield s, args0, bufs, locs, False
        return
    for s in st0.assume(ble(total, 2**30)):
        yield s, args0, bufs, locs, True
    for s in st0.assume(bnot(ble(total, 2**30))):
        yield s, args0, bufs, locs, False


def one(job):
    F = runall._job["F"]
    p, _, shape, k = job
    key, queue, targs = runall._job["specs"][p]
    f = F.fns[p]
    if queue:
        E = queues.engine(F)
        E.rep.shapes = (shape,) if shape else E.rep.shapes
    else:
        E = Engine(F, models.install)
        repm.Rep(F).install(E)
        if k is not None or shape == "first bytes":
            E.explicit = True
            E.passes = (6, 6) if k is not None else (4, 4)
            E.unroll = lambda fr: E.passes
    out, missed, n = {}, [], 0
    E.entry_fn = f
    for st0, args0 in repm.starts(E, f, list(targs)):
        for st1, args1, bufs, locs, small in entries(E, st0, args0, key, k):
            E.entry_args, E.entry_state = args1, st1
            try:
                if queue:
                    outs = qpaths.narrow(E, f, args1, st1, None, targs)
                else:
                    E.budget = 60000
                    outs = E.run_body(f, f, args1, st1, list(targs), None)
                for kind, st, val in outs:
                    n += 1
                    c = oracle.Ctx(E, f, st1, args1, kind, st, val)
                    c.q = E.rep
                    c.bufs, c.locs, c.small = bufs, locs, small
                    SPECS[key](c)
                    qspec.merge(out, c, (qpaths.shapes_of(st1) if queue else c.kinds()) + (" with %d buffers" % k if k is not None else ""))
            except (Budget, Unsupported) as e:
                missed.append("%s: %s" % (qpaths.shapes_of(st1) if queue else "", str(e)[:80] or "over budget"))
    return n, out, missed, sum(E.cuts.values())


def run(rep):
    F = prep.facts("full")
    runall._job["F"] = F
    tb = table(F)
    for t, m, k in CORE:
        n = sum(1 for _, key, _, _ in tb if key == (t, m))
        rep.anchor(n >= k, "%s of %s" % (m, t))
    runall._job["specs"] = {p: (key, queue, targs) for p, key, queue, targs in tb}
    js = []
    for p, key, queue, _ in tb:
        ks = (0, 1, 2, 3) if key[1] in VECTORED else (None,)
        for k in ks:
            lab = "" if k is None else "%d buffers" % k
            if queue:
                js += [(p, lab, s, k) for s in queues.QRep.shapes if k is None or k < 3 or len(s) < 2]
            else:
                js.append((p, lab, "", k))
                if key[1] == "read_until":
                    js.append((p, "first bytes", "first bytes", k))
    rs = [((p, lab, s), st, out) for (p, lab, s, k), st, out in runall.jobs(one, js, 60)]
    qspec.report(rep, F, rs, "adapter")
    rep.assume.append("requests of at most 3 buffers; chunk values behave as decided for C05; totals stay below the address space")
