"""C17: data handed to and taken back from bytes::Bytes stays intact."""
import re

import models
import oracle
import prep
import qpaths
import qspec
import queues
import rep as repm
import runall
from absint import Budget, Engine, Unsupported, bnot
from lin import Lin
from oracle import part, size

RULE = "the mirrored foreign structures have the layout of the real ones; each entry of an operation table built for them acts on the given region and moves the owner count by exactly what the operation means, and releases the memory exactly as the last owner; conversions in either direction keep every byte and transfer or copy, never share without counting"
FLOOR = 62
FOREIGN = "bytes::Bytes"


# ---------------------------------------------------------------- layout
def mirrors(F):
    """Pairs (local type, foreign type, where) of structures reinterpreted as one another, through references too."""
    out = {}
    for p, f in F.fns.items():
        if not f["local"] or not f.get("blocks"):
            continue
        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "cast" and "ransmute" in str(s[2][1]):
                    to = s[2][3] if isinstance(s[2][3], int) else None
                    frm = op_type(F, f, s[2][2])
                    if to is None or frm is None:
                        continue
                    a, c = F.types[frm], F.types[to]
                    while a["k"] in ("ref", "ptr") and c["k"] in ("ref", "ptr"):
                        a, c = F.types[a["t"]], F.types[c["t"]]
                    if a["k"] == c["k"] == "adt" and a.get("def") != c.get("def") and a.get("local") != c.get("local"):
                        x, y = (a, c) if a.get("local") else (c, a)
                        if wraps(F, y, x):
                            continue
                        out.setdefault((x["def"], y["def"]), (x, y, f["span"]))
    return out


def wraps(F, y, x):
    """y is nothing but a wrapper around x (ManuallyDrop, MaybeUninit, ...)."""
    hit = F.types.index(x) if isinstance(F.types, list) else None
    return hit is not None and hit in (y.get("args") or []) and y.get("size") == x.get("size")


def op_type(F, f, o):
    pl = o.get("cp") or o.get("mv") if isinstance(o, dict) else None
    if pl is None:
        return None
    t = f["locals"][pl[0]]
    for x in pl[1:]:
        if x != "*":
            return None
        t = F.types[t]["t"]
    return t


def fields(t):
    return sorted(zip(t["offs"], t["variants"][0]["f"]), key=lambda x: x[0])


def layout(rep, F, x, y, where, seen):
    """Structural agreement of two types; returns the table types that correspond."""
    key = "layout %s as %s" % (x["s"], y["s"])
    if (x["s"], y["s"]) in seen:
        return []
    seen.add((x["s"], y["s"]))
    if x["size"] != y["size"] or x["align"] != y["align"]:
        rep.fail(key, where, "size %s/%s, alignment %s/%s" % (x["size"], y["size"], x["align"], y["align"]))
        return []
    fx, fy = fields(x), fields(y)
    if [o for o, _ in fx] != [o for o, _ in fy]:
        rep.fail(key, where, "fields at %s and at %s" % ([o for o, _ in fx], [o for o, _ in fy]))
        return []
    out = [(x, y)]
    bad = []
    for (o, a), (_, b) in zip(fx, fy):
        ta, tb = F.types[a["t"]], F.types[b["t"]]
        if a["t"] == b["t"] or ta["s"] == tb["s"]:
            continue
        while ta["k"] in ("ref", "ptr") and tb["k"] in ("ref", "ptr"):
            ta, tb = F.types[ta["t"]], F.types[tb["t"]]
        if ta["k"] == tb["k"] == "adt" and ta["def"] != tb["def"] and ta.get("local"):
            out += layout(rep, F, ta, tb, where, seen)
        elif ta["s"] != tb["s"]:
            bad.append("at %d: %s is taken for %s (%s)" % (o, ta["s"], tb["s"], b["n"]))
    if bad:
        rep.fail(key, where, "; ".join(bad))
    else:
        rep.ok(key, where, "%d fields" % len(fx))
    return out


# ---------------------------------------------------------------- operation tables
def tables(F, local, foreign):
    """[(static, {role: function})] of the tables of the mirrored type; roles are the foreign field names at the same place."""
    names = {o: f["n"] for o, f in fields(foreign)}
    roles = [names[o] for o in local["offs"]]
    out = []
    for p, f in F.fns.items():
        if f["argc"] == 0 and f["local"] and f.get("blocks") and F.types[f["locals"][0]].get("def") == local["def"] and "{" not in p:
            E = Engine(F, models.install)
            repm.Rep(F).install(E)
            for kind, st, v in E.start(f):
                if kind == "ret" and v[0] == "a" and len(v[3]) == len(roles):
                    out.append((p, {r: target(F, x) for r, x in zip(roles, v[3])}))
    return out


def target(F, x):
    t = F.types[x[1]] if x[0] == "a" and x[1] is not None else None
    if t is not None and t["k"] in ("closure", "fndef"):
        return t["def"]
    if x[0] == "fn":
        return x[1] if isinstance(x[1], str) else x[1].get("p")
    return None


def counts(st):
    """[(position, +1/-1, count object, value before)] of the changes of owner counts."""
    out = []
    for i, e in enumerate(st.events()):
        if e[0] == "atomic" and e[1] in ("fetch_add", "fetch_sub"):
            out.append((i, 1 if e[1] == "fetch_add" else -1, e[2][0], e[3], e[5]))
        elif e[0] == "atomic" and e[1] not in ("load",):
            out.append((i, None, e[2][0], e[3], e[5]))
    return out


def amount(x):
    x = x[1] if isinstance(x, tuple) and x and x[0] == "i" else x
    return int(str(x)) if str(x).lstrip("-").isdigit() else None


def lin(x):
    return x if isinstance(x, Lin) else x[1] if isinstance(x, tuple) and x and x[0] == "i" else None


def operation(F, p, role):
    """Marks of one table entry: [(clause, status, why)]."""
    f = F.fns[p]
    E = Engine(F, models.install)
    repm.Rep(F).install(E)
    marks, n = [], 0
    clo = f["argc"] - (2 if role == "is_unique" else 4) + 0
    for st0, args0, outs in repm.run(E, f):
        args = args0[clo:]
        for kind, st, val in outs:
            if kind != "ret":
                continue
            n += 1
            c = oracle.Ctx(E, f, st0, args0, kind, st, val)
            one_operation(c, role, args[-3:] if role != "is_unique" else args[-1:])
            marks += [(w, s, why) for s, w, why in c.marks]
    return n, marks


def pointer(st):
    """The pointer found in the handle: what its data word was read as."""
    for e in st.events():
        if e[0] == "atomic" and e[1] == "load" and isinstance(e[5], tuple) and e[5][0] == "p":
            return e[5]
    return None


def one_operation(c, role, args):
    st, E = c.st, c.E
    cs = counts(st)
    P = pointer(st)
    frees = [(i, e) for i, e in enumerate(st.events()) if e[0] == "dealloc"]
    want = {"clone": 1, "is_unique": 0}.get(role, -1)
    if any(d is None or amount(k) is None for _, d, _, k, _ in cs):
        c.open("owner count", "changed in another way")
    else:
        net = sum(d * amount(k) for _, d, _, k, _ in cs)
        if net == want and all(P is not None and str(P[1]) in str(o) for _, _, o, _, _ in cs):
            c.ok("owner count")
        elif net != want:
            c.never("owner count", st, "changed by %d, not %d" % (net, want))
        else:
            c.open("owner count", "of what is not tracked")
    if want == -1 and cs:
        old = lin(cs[-1][4])
        if old is None:
            c.open("released by the last owner", "count not tracked")
        elif frees:
            c.ok("released by the last owner") if st.eq_holds(old, 1) and len(frees) == 1 else c.never("released by the last owner", st, "released %d times although %s owners were left" % (len(frees), old - 1))
        else:
            c.ok("released by the last owner") if not st.assume(("eq", old - 1)) else c.never("released by the last owner", st, "the last owner keeps the memory")
        if frees and P is not None:
            e = frees[0][1]
            c.ok("what is released") if e[1] == P[1] and st.eq_holds(Lin.of(e[2]), P[2]) else c.never("what is released", st, "%s+%s" % (e[1], e[2]))
    elif frees:
        c.never("released by the last owner", st, "%s releases memory" % role)
    if role == "clone":
        clone(c, args, P)
    elif role in ("to_vec", "to_mut"):
        want = [(args[1][1], args[1][2], args[2][1])] if args[1][0] == "p" else None
        c.eq("bytes handed out", c.segs(c.val), want)
        given_up = min([i for i, d, _, _, _ in cs if d == -1] or [0])
        for i, e in enumerate(st.events()):
            if e[0] in ("copy", "alloc-copy") and e[1] == args[1][1]:
                c.ok("copied while owned") if i < given_up else c.never("copied while owned", st, "copied after the ownership was given up")
    elif role == "is_unique":
        loads = [lin(e[5]) for e in st.events() if e[0] == "atomic" and e[1] == "load" and lin(e[5]) is not None]
        if c.val[0] != "b" or len(loads) != 1:
            return c.open("answer", "not tracked")
        for s in st.assume(c.val[1]):
            c.ok("unique means one owner") if s.eq_holds(loads[0], 1) else c.never("unique means one owner", s, "count %s" % loads[0])
        for s in st.assume(bnot(c.val[1])):
            c.ok("not unique means more owners") if not s.assume(("eq", loads[0] - 1)) else c.never("not unique means more owners", s, "count may be 1")


def handle(c, v):
    """(ptr, len, data, table) of a handle, or None."""
    if v[0] == "a" and len(v[3]) == 4 and c.E.F.types[c.E.strip(v[1])]["def"].endswith("Bytes"):
        t = c.E.F.types[c.E.strip(v[1])]
        x = {f["n"]: y for f, y in zip(t["variants"][0]["f"], v[3])}
        if set(x) == {"ptr", "len", "data", "vtable"}:
            return x["ptr"], x["len"], x["data"], x["vtable"]
        return v[3]
    return None


def inner(v):
    while v is not None and v[0] == "a" and len(v[3]) == 1:
        v = v[3][0]
    return v


def own_table(v):
    """Name of the static a table reference points to."""
    return v[1][1][1:] if v[0] == "r" and v[1][0] == "c" and isinstance(v[1][1], str) and v[1][1].startswith("*static:") else None


def clone(c, args, P):
    h = handle(c, c.val)
    if h is None:
        return c.open("same memory", "not tracked")
    ptr, ln, data, table = h
    d = inner(data)
    if ptr[0] != "p" or ln[0] != "i" or d[0] != "p":
        return c.open("same memory", "not tracked")
    same = ptr[1] == args[1][1] and c.st.eq_holds(ptr[2], args[1][2]) and c.st.eq_holds(ln[1], args[2][1])
    c.ok("same memory") if same else c.never("same memory", c.st, "%s+%s, %s bytes" % (ptr[1], ptr[2], ln[1]))
    c.ok("same owner") if P is not None and d[:2] == P[:2] and c.st.eq_holds(d[2], P[2]) else c.never("same owner", c.st, "%s" % (d,))
    n = own_table(table)
    c.ok("a counting table") if n in c.E.F.fns or n and n[7:] in c.E.F.fns else c.never("a counting table", c.st, "%s" % (table,))


# ---------------------------------------------------------------- conversions
def dropped(c, v):
    return [e for e in c.st.events() if e[0] == "drop" and e[2] == v]


def give(c):
    """A value of ours becomes a foreign handle."""
    if c.kind != "ret":
        return
    A = c.before(0)
    same_start(c, "bytes handed over", c.val, A)
    h = handle(c, c.val)
    if h is None:
        return c.open("ownership", "not tracked")
    n = own_table(h[3])
    d = inner(h[2])
    b = inner(h[0])
    if n is not None:
        # our own table: the handle takes the count over, and points to the counted block
        a = A[0] if A and len(A) == 1 else None
        if a is None or d[0] != "p":
            return c.open("ownership", "not tracked")
        ok = d[1] == a[0] and c.st.eq_holds(d[2], 0)
        c.ok("the counted block") if ok else c.never("the counted block", c.st, "the handle's owner is %s+%s, the data is in %s" % (d[1], d[2], a[0]))
        cs = counts(c.st)
        net = sum((x[1] or 0) for x in cs) - len([e for e in c.st.events() if e[0] == "drop" and "SharedBytes" in str(e[1])])
        if c.owned:
            c.ok("one owner stays one owner") if net == 0 else c.never("one owner stays one owner", c.st, "count changes by %d although the value is handed over" % net)
        elif not oracle.part(c.st, A, Lin(0), size(A)) == c.after(0):
            (c.ok if net in (0, 1) else lambda w: c.never(w, c.st, "count changes by %d" % net))("one more owner")
    elif b[0] == "p" and A and any(b[1] == x[0] for x in A) and h[3][0] == "s" and not c.kinds_static():
        c.never("ownership", c.st, "the handle points to %s, which it does not own" % b[1])
    else:
        c.ok("ownership")


def same_start(c, what, v, A):
    """The region of v is A, possibly named by its address within a foreign buffer."""
    segs = c.segs(v)
    if segs and A and len(segs) == 1 and len(A) == 1 and str(segs[0][1]).startswith("?wrap(addr("):
        b, o, n = segs[0]
        if str(o) in ("?wrap(addr(%s+%s)-addr(%s+0):usize)" % (A[0][0], A[0][1], b),) and (c.st.eq_holds(n, A[0][2]) or grown(n, o, A[0][2])):
            return c.ok(what)
    c.eq(what, segs, A)


def grown(n, o, ln):
    """n is (o + ln) - o, the sum taken in machine words: it is ln, because o + ln is a position in a buffer."""
    return any(n == Lin(0, {"?wrap(%s:usize)" % x: 1}) - o for x in (o + ln, "%s+%s" % (o, ln), "%s+%s" % (ln, o)))


def take(c):
    """A foreign handle becomes a value of ours: what is not copied must be static data."""
    if c.kind != "ret":
        return
    A = c.before(0)
    segs = c.segs(c.val)
    c.eq("bytes taken over", segs, A)
    if not A or segs is None:
        return
    shared = [x for x in borrowed(c, c.val) if x == A[0][0]]
    if shared:
        null = [v for k, v in c.st.bools.items() if k.startswith("null(atom_load")]
        c.ok("borrowed only when static") if null == [True] else c.never("borrowed only when static", c.st, "data of a counted buffer is kept without owning it")
    gone = [e for e in c.st.events() if e[0] == "forget" and FOREIGN in str(e[2])]
    if gone:
        null = [v for k, v in c.st.bools.items() if k.startswith("null(atom_load")]
        c.ok("left undropped only when static") if null == [True] else c.never("left undropped only when static", c.st, "the handle is forgotten although it owns memory")


def borrowed(c, v):
    """Bases a value points to."""
    out = []
    work = [v]
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            if x and x[0] in ("p", "v") and len(x) >= 3 and isinstance(x[1], str):
                out.append(x[1])
            else:
                work += [y for y in x if isinstance(y, tuple)]
    return out


def cut(c):
    """copy_to_bytes: the first n bytes leave."""
    if c.kind != "ret":
        for s in c.st.assume(("le", c.args0[1][1] - size(c.before(0)))) if c.before(0) is not None else []:
            if not any(e[0] == "panic" and ("alloc" in str(e[1]) or "panic_fmt" not in str(e[1])) for e in c.st.events()):
                c.never("refused only beyond the end", s, "refused within the data")
        return
    A, k = c.before(0), c.args0[1][1]
    if A is None:
        return c.open("bytes cut off", "not tracked")
    want = part(c.st, A, Lin(0), k)
    if want is None:
        return c.open("bytes cut off", "position")
    same_start(c, "bytes cut off", c.val, want)
    c.eq("bytes left", c.after(0), part(c.st, A, k, size(A)))


class Ctx(oracle.Ctx):
    def kinds_static(self):
        return "static" in self.kinds()


def conversions(F):
    out = []
    for p, f in F.fns.items():
        if not f["local"] or not f.get("blocks") or "{" in p or "::test" in p or not f.get("reach"):
            continue
        m = re.search(r"std::convert::From<(.*)> for (.*)>::from$", p)
        if m and m.group(2) == FOREIGN:
            out.append((p, give))
        elif m and m.group(1) == FOREIGN:
            out.append((p, take))
        elif p.endswith(">::copy_to_bytes"):
            out.append((p, cut))
    return out


def one(job):
    F = runall._job["F"]
    kind, p, x = job
    if kind == "op":
        return operation(F, p, x)
    spec = dict(conversions(F))[p]
    f = F.fns[p]
    if x:
        E = queues.engine(F)
        E.rep.shapes = (x,)
    else:
        E = Engine(F, models.install)
        repm.Rep(F).install(E)
    marks, n = [], 0
    for st0, args0 in repm.starts(E, f):
        E.entry_args, E.entry_state = args0, st0
        if x:
            outs = qpaths.narrow(E, f, args0, st0, None)
        else:
            E.budget = E.budget0
            outs = E.run_body(f, f, args0, st0, [], None)
        for k, st, val in outs:
            n += 1
            c = Ctx(E, f, st0, args0, k, st, val)
            c.q, c.owned = E.rep, F.types[f["locals"][1]]["k"] == "adt"
            if x and spec is not cut:
                queue_conversion(c, spec)
            else:
                spec(c)
            marks += [("%s %s" % (c.kinds() if not x else x, w), s, why) for s, w, why in c.marks]
    return n, marks


def queue_conversion(c, spec):
    if c.kind != "ret":
        return
    c.eq("bytes handed over" if spec is give else "bytes taken over", c.segs(c.val), c.before(0))


def run(rep):
    F = prep.facts("full")
    runall._job["F"] = F
    ms = mirrors(F)
    seen, js = set(), []
    rep.anchor(any(y == FOREIGN for _, y in ms), "mirror of " + FOREIGN)
    for (a, b), (x, y, where) in sorted(ms.items()):
        pairs = layout(rep, F, x, y, where, seen)
        for u, v in pairs:
            if all(F.types[g["t"]]["k"] in ("fnptr", "fn") or "fn(" in F.types[g["t"]]["s"] for g in v["variants"][0]["f"]):
                ts = tables(F, u, v)
                rep.anchor(bool(ts), "tables of " + u["s"])
                for s, roles in ts:
                    for r, t in roles.items():
                        if t is None or t not in F.fns:
                            rep.open("operation %s of %s" % (r, s), F.fns[s]["span"], "entry not resolved")
                        else:
                            js.append(("op", t, r))
    for p, _ in conversions(F):
        q = "Queue" in p
        for s in ("-", "C", "N", "C+N", "N+N", "E") if q and "From<bytes::Bytes>" not in p else ("-",) if q else ("",):
            js.append(("conv", p, s))
    rep.anchor(len(conversions(F)) >= 9, "conversions")
    worst = {"ok": 0, "open": 1, "fail": 2}
    for (k, p, x), status, out in runall.jobs(one, js, 100):
        f = F.fns[p]
        key = "%s %s" % ("operation " + x + " by" if k == "op" else "conversion", p)
        rep.count("functions")
        if status != "ok":
            rep.open(key + (" on " + x if k != "op" else ""), f["span"], str(out)[:200])
            continue
        n, marks = out
        rep.count("paths", n)
        best = {}
        for w, s, why in marks:
            if w not in best or worst[s] > worst[best[w][0]]:
                best[w] = (s, why)
        if not best:
            rep.open(key + (" on " + x if k != "op" else ""), f["span"], "no outcome")
        for w, (s, why) in best.items():
            rep.ob("%s: %s" % (key, w), {"ok": "ok", "open": "undecided", "fail": "fail"}[s], f["span"], why[:300])
    rep.assume.append("the foreign crate is the version the build resolves, laid out as this compiler lays it out; a foreign handle without owner pointer is static (so built by that crate); its own functions do what they document")
