"""Compares what functions return with what their contract prescribes, path by path."""
from lin import Lin, consistent
from absint import Unsupported, Budget, INT, bnot
import content, models, rep


class Ctx:
    """One outcome of one entry partition."""

    def __init__(self, E, fn, st0, args0, kind, st, val):
        self.E, self.fn, self.st0, self.args0, self.kind, self.st, self.val = E, fn, st0, args0, kind, st, val
        self.e = E
        self.marks = []

    def before(self, i):
        return self.E.rep.segs(self.E, self.st0, self.args0[i])

    def after(self, i, st=None):
        return self.E.rep.segs(self.E, st or self.st, self.args0[i])

    def segs(self, v, st=None):
        return self.E.rep.segs(self.E, st or self.st, v)

    def where(self):
        return self.fn["span"]

    def kinds(self):
        return ",".join("".join(v) for k, v in sorted(self.st0.vars.items()) if k.startswith("kind:"))

    # ---- verdicts: ('ok'|'fail'|'open', what, why)
    def eq(self, what, got, want, st=None, extra=()):
        st = st or self.st
        if want is None or got is None:
            self.marks.append(("open", what, "content not tracked"))
            return
        r = content.compare(st, got, want)
        if r == "eq":
            self.marks.append(("ok", what, ""))
        elif r[0] == "ne" and exact(st, got, want):
            self.marks.append(("fail", what, "%s [%s]" % (r[1], self.path(st))))
        else:
            self.marks.append(("open", what, r[1]))

    def num(self, what, got, want, st=None):
        st = st or self.st
        if got[0] != "i":
            self.marks.append(("open", what, "not tracked"))
        elif st.eq_holds(got[1], want):
            self.marks.append(("ok", what, ""))
        elif content.precise(got[1]) and settled(st):
            self.marks.append(("fail", what, "%s instead of %s [%s]" % (got[1], want, self.path(st))))
        else:
            self.marks.append(("open", what, "%s vs %s" % (got[1], want)))

    def never(self, what, st=None, why=""):
        """The outcome must not occur under st."""
        st = st or self.st
        if not feasible(st):
            self.marks.append(("ok", what, ""))
        elif settled(st):
            self.marks.append(("fail", what, "%s [%s]" % (why, self.path(st))))
        else:
            self.marks.append(("open", what, why))

    def ok(self, what):
        self.marks.append(("ok", what, ""))

    def open(self, what, why=""):
        self.marks.append(("open", what, why))

    def path(self, st):
        return "%s; %s" % (self.kinds(), " & ".join("%s <= 0" % l for l in st.le[:10]))


def feasible(st):
    return consistent(st.facts())


def settled(st, extra=()):
    """Whether the path's facts together with extra (each <= 0) certainly have a solution: they are about exactly known
    quantities and consistent, if need be after fixing the operands of nonlinear operations to values that make them exact."""
    facts = pin([l for l in st.facts()], list(st.ne) + list(extra))
    vague = {s for l in facts for s in l.syms() if content.vague(s)}
    add = []
    for s in vague:
        op = content.UFARGS.get(s)
        if op is None or not (content.precise(op[1]) and content.precise(op[2])):
            return False
        v = Lin.sym(s)
        k, x, y = op
        if k == "rem":
            fix = [(y, 1), (v, 0)]
        elif k == "div":
            fix = [(y, 1), (v, x)]
        elif k == "mul":
            fix = [(y, 1), (v, x)]
        elif k == "and":
            fix = [(x, 0), (v, 0)]
        else:
            return False
        for a, b in fix:
            d = Lin.of(a) - Lin.of(b)
            add += [d, -d]
    s2 = st.fork()
    for l in list(extra) + add:
        s2.add_le(l)
    return feasible(s2)


def pin(facts, others):
    """The facts with approximate quantities that they determine exactly (a loop counter at the loop's end) put out of the way."""
    out = facts + others
    for _ in range(6):
        have = set(facts)
        for l in facts:
            if not l.const and -l in have:
                v = [s for s, c in l.t if content.vague(s)]
                if len(v) == 1:
                    c = dict(l.t)[v[0]]
                    if abs(c) == 1:
                        e = (Lin.sym(v[0]) - l.scale(c))  # l = 0, so the symbol is e
                        if e is not None and v[0] not in e.syms():
                            facts = [f for f in (replace(x, v[0], e) for x in facts) if not (f.const and f.c <= 0)]
                            out = [replace(x, v[0], e) for x in out]
                            break
        else:
            break
    return [l for l in out if not l.const]


def replace(l, s, e):
    c = dict(l.t).get(s)
    return l if c is None else l - Lin.sym(s).scale(c) + e.scale(c)


def exact(st, *seglists):
    return settled(st) and all(content.precise_segs(s) for s in seglists)


def part(st, segs, b, e):
    return content.take(st, segs, b, e - b)


def size(segs):
    return content.total(segs)


def variant(c, v):
    """(index, fields) of an enum value."""
    return (v[2], v[3]) if v[0] == "a" else (None, None)


def run(f, E, spec, fields=None):
    """Marks of one function: {what: (status, why)} with the worst status per clause."""
    out = {}
    rank = {"ok": 0, "open": 1, "fail": 2}
    n = 0
    for st0, args0, outs in rep.run(E, f):
        for kind, st, val in outs:
            n += 1
            c = Ctx(E, f, st0, args0, kind, st, val)
            spec(c)
            for s, w, why in c.marks:
                k = "%s %s" % (c.kinds(), w) if c.kinds() else w
                if k not in out or rank[s] > rank[out[k][0]]:
                    out[k] = (s, why)
    return n, out
