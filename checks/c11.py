"""C11: equality, ordering and hashing depend on the bytes alone."""
import re

import know
import models
import oracle
import prep
import qpaths
import qspec
import queues
import rep as repm
import runall
from absint import Budget, Engine, Unsupported, bnot, ble
from lin import Lin
from oracle import size

RULE = "on every path of a comparison what it answers follows from bytes the path compared (equal lengths and equal bytes, a differing byte, which bytes come first), whatever the chunks; what is fed to a hasher depends on the bytes alone"
FLOOR = 300
OP = re.compile(r"std::(cmp|hash)::(PartialEq|PartialOrd|Ord|Hash)\b.*::(\w+)$")
CONST = re.compile(r"::(eq_const|eq_slice|eq_str|const_eq)$")
OWN = re.compile(r"(ByteData|StringData|SharedBytes|SharedStr\w*|ByteChunk|ByteQueue|StringQueue)\b")
SHAPES = ("-", "C", "N", "C+N", "N+N", "C+N+N", "E")


def equal(c):
    neg = c.p.endswith("::ne")
    if c.kind != "ret":
        return c.never("panics", c.st, "comparing panics")
    A, B = c.before(0), c.before(1)
    if A is None or B is None or c.val[0] != "b":
        return c.open("answer", "not tracked %s" % (c.val[0],))
    for s in c.st.assume(bnot(c.val[1]) if neg else c.val[1]):
        lengths(c, "equal only with equal lengths", s, A, B)
        if s.eq_holds(size(A), size(B)):
            know.found(c, "equal only with equal bytes", s, A, Lin(0), B)
    c.ok("answered")
    for s in c.st.assume(c.val[1] if neg else bnot(c.val[1])):
        for s2 in s.assume(ble(size(A), size(B))):
            for s3 in s2.assume(ble(size(B), size(A))):
                if know.possible(c.E, s3):
                    know.absent(c, "unequal only with a difference", s3, A, Lin(0), B)


def lengths(c, what, s, A, B):
    for l in (size(A) - size(B), size(B) - size(A)):
        if not s.le_holds(l):
            for s2 in s.assume(ble(1, l)):
                if oracle.settled(s2):
                    return c.never(what, s2, "lengths %s and %s" % (size(A), size(B)))
            return c.open(what, "lengths %s and %s" % (size(A), size(B)))
    c.ok(what)


def ordering(c):
    m = c.p.rsplit("::", 1)[-1]
    if c.kind != "ret":
        return c.never("panics", c.st, "comparing panics")
    A, B = c.before(0), c.before(1)
    if A is None or B is None:
        return c.open("answer", "not tracked")
    if m in ("lt", "le", "gt", "ge"):
        if c.val[0] != "b":
            return c.open("answer", "not tracked")
        yes = {"lt": (-1,), "le": (-1, 0), "gt": (1,), "ge": (0, 1)}[m]
        for s in c.st.assume(c.val[1]):
            among(c, "yes", s, A, B, yes)
        for s in c.st.assume(bnot(c.val[1])):
            among(c, "no", s, A, B, tuple({-1, 0, 1} - set(yes)))
        return
    for st, v in c.E.split_variants(c.st, c.val):
        if m == "partial_cmp":
            if v[0] != "a" or v[2] == 0:
                c.never("an answer", st, "no order")
                continue
            v = v[3][0]
        for s, x in c.E.split_variants(st, v):
            n = c.E.F.types[c.E.strip(x[1])]["variants"][x[2]]["n"].rsplit("::", 1)[-1] if x[0] == "a" else None
            r = {"Less": -1, "Equal": 0, "Greater": 1}.get(n)
            if r is None:
                c.open("order", "not tracked")
                continue
            know.ordered(c, "%s only if so" % n.lower(), s, A, B, r)


def among(c, what, s, A, B, rs):
    x = know.order(c.E, s, A, B)
    if x in rs:
        c.ok(what)
    elif x in (-1, 0, 1):
        c.never(what, s, "the order is %d" % x)
    else:
        c.open(what, x[1])


def hashing(c):
    """The writes are the length, constants, the whole content, or its bytes one after the other."""
    if c.kind != "ret":
        return
    A = c.before(0)
    if A is None:
        return c.open("hash", "not tracked")
    pos = Lin(0)
    whole = False
    for ev in c.st.events():
        if ev[0] != "hasher":
            continue
        segs, what = ev[1], ev[2]
        if segs is not None:
            if know.same(c.E, c.st, segs, A) == "same":
                whole = True
                continue
            if c.st.eq_holds(size(segs), 1) or not c.queue:
                if know.same(c.E, c.st, segs, oracle.part(c.st, A, pos, pos + size(segs))) == "same":
                    pos = pos + size(segs)
                    continue
            c.never("what is hashed", c.st, "%s is fed at %s, which is neither the whole content nor the next byte" % (segs, pos))
            continue
        if isinstance(what, Lin):
            if what.const or c.st.eq_holds(what, size(A)):
                continue
            b = know.bytes_at(c.E, c.st, A, pos) if c.st.le_holds(pos + 1 - size(A)) else []
            if any(c.st.eq_holds(what, x) for x in b):
                pos = pos + 1
                continue
            if {s for s in what.syms() if not s.startswith("mem:")} - {s for x in A for s in size([x]).syms()}:
                c.never("what is hashed", c.st, "%s, which is no part of the content" % what)
                continue
        c.open("what is hashed", "%s" % (what,))
    if not whole:
        c.num("bytes hashed", ("i", pos), size(A))
    else:
        c.ok("what is hashed")


def parties(p):
    """The comparable operands of a function as queue or not."""
    m = re.search(r"<(?:impl )?(?:(.*) as )?std::cmp::\w+(?:<(.*)>)?(?: for (.*))?>::\w+$", p)
    return m


def spec_of(p):
    if "{" in p or "::test" in p or not OWN.search(p) and not p.endswith("const_eq"):
        return None
    m = OP.search(p)
    if m:
        if m.group(2) == "Hash":
            return hashing if m.group(3) == "hash" else None
        if m.group(2) == "PartialEq":
            return equal
        return ordering if m.group(3) in ("cmp", "partial_cmp", "lt", "le", "gt", "ge") else None
    return equal if CONST.search(p) else None


def table(F):
    return [(p, spec_of(p)) for p, f in F.fns.items() if f["local"] and f.get("blocks") and f.get("reach") and spec_of(p)]


def queue_args(F, f):
    return [i for i in range(f["argc"]) if re.search(r"Queue\b", F.s(f["locals"][i + 1]))]


def one(job):
    F = runall._job["F"]
    p, shapes, sizes = job
    f = F.fns[p]
    if shapes:
        E = queues.engine(F)
        E.rep.shapes = tuple(sorted(set(shapes)))
    else:
        E = Engine(F, models.install)
        repm.Rep(F).install(E)
        E.explicit = True
    E.orders = True
    q = E.rep
    out, missed, n = {}, [], 0
    starts = repm.starts(E, f)
    rounds = 40 if len(starts) < 3 else 16 if len(starts) < 10 else 8
    know.MAX = max(know.MAX, rounds + 4)
    for st0, args0 in starts:
        if shapes and [x for x in qpaths.shapes_of(st0).split(",") if x != "slice"] != list(shapes):
            continue
        if sizes:
            st0 = st0.fork()
            small(E, st0, args0, sizes)
        E.entry_args, E.entry_state = args0, st0
        try:
            if shapes:
                outs = qpaths.narrow(E, f, args0, st0, None)
            else:
                E.unroll = lambda fr: (80, rounds)
                E.budget = 20000
                outs = E.run_body(f, f, args0, st0, [], None)
            for kind, st, val in outs:
                n += 1
                c = oracle.Ctx(E, f, st0, args0, kind, st, val)
                c.q, c.p, c.queue = q, p, bool(shapes)
                spec_of(p)(c)
                qspec.merge(out, c, qpaths.shapes_of(st0))
        except (Budget, Unsupported) as e:
            missed.append("%s: %s" % (qpaths.shapes_of(st0), str(e)[:80] or "over budget"))
    return n, out, missed, sum(E.cuts.values())


def small(E, st, args, sizes):
    for i, a in enumerate(args):
        try:
            segs = E.rep.segs(E, st, a)
        except (Unsupported, KeyError, TypeError, IndexError):
            continue
        for x in segs or ():
            st.add_le(Lin.of(x[2]) - sizes[0 if len(segs) > 1 else 1])


def jobs(F, tb):
    js = []
    for p, _ in tb:
        qs = queue_args(F, F.fns[p])
        if not qs:
            js.append((p, (), None))
        elif len(qs) == 1:
            js += [(p, (s,), (3, 6)) for s in SHAPES] + [(p, (s,), None) for s in SHAPES]
        else:
            js += [(p, (s, t), (2, 4)) for s in SHAPES for t in SHAPES] + [(p, (s, t), None) for s in SHAPES[1:] for t in SHAPES[1:]]
    return js


def run(rep):
    F = prep.facts("full")
    runall._job["F"] = F
    tb = table(F)
    for n, k in (("eq", 45), ("partial_cmp", 30), ("cmp", 4), ("hash", 4), ("eq_const", 3), ("eq_slice", 3), ("const_eq", 1)):
        rep.anchor(sum(1 for p, _ in tb if p.rsplit("::", 1)[-1] == n) >= k, n)
    rs = [((p, "", ",".join(s)), st, out) for (p, s, z), st, out in runall.jobs(one, jobs(F, tb), 60)]
    qspec.report(rep, F, rs, "compare")
    rep.assume.append("queues are compared on every pair of list shapes with chunks of up to 2 (one chunk: 4) bytes; comparisons of slices and texts and hashing them are the standard library's; chunk values behave as decided for C05")
