"""Linear integer expressions and an entailment test for conjunctions of linear
inequalities.  This is the numeric abstract domain of the analysis (a weakly
relational / polyhedral domain with Fourier-Motzkin projection as its only
operation).  No external solver is involved."""
from math import gcd


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t  # sorted tuple of (sym, coef)
        self._h = None

    @staticmethod
    def sym(s):
        return Lin(0, ((s, 1),))

    @staticmethod
    def of(x):
        return x if isinstance(x, Lin) else Lin(x)

    def _add(self, o, k):
        o = Lin.of(o)
        if not o.t:
            return Lin(self.c + k * o.c, self.t)
        d = dict(self.t)
        for s, v in o.t:
            n = d.get(s, 0) + k * v
            if n:
                d[s] = n
            else:
                d.pop(s, None)
        return Lin(self.c + k * o.c, tuple(sorted(d.items())))

    def __add__(self, o):
        return self._add(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._add(o, -1)

    def __rsub__(self, o):
        return Lin.of(o)._add(self, -1)

    def __neg__(self):
        return Lin(-self.c, tuple((s, -v) for s, v in self.t))

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((s, v * k) for s, v in self.t))

    @property
    def const(self):
        return not self.t

    def syms(self):
        return [s for s, _ in self.t]

    def coef(self, s):
        for x, v in self.t:
            if x == s:
                return v
        return 0

    def subst(self, s, e):
        k = self.coef(s)
        if not k:
            return self
        return Lin(self.c, tuple(x for x in self.t if x[0] != s)) + e.scale(k)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __repr__(self):
        if not self.t:
            return str(self.c)
        s = ""
        for n, v in self.t:
            if v == 1:
                s += "+" + n
            elif v == -1:
                s += "-" + n
            else:
                s += f"{v:+d}*{n}"
        if self.c:
            s += f"{self.c:+d}"
        return s.lstrip("+")

    __str__ = __repr__


def norm(l):
    """Tighten l <= 0 over the integers."""
    if not l.t:
        return l
    g = 0
    for _, v in l.t:
        g = gcd(g, v)
    if g > 1:
        return Lin(-((-l.c) // g), tuple((s, v // g) for s, v in l.t))
    return l


RANGES = {}  # symbol -> (lo, hi) coming from its type
_memo = {}
FM_LIMIT = 3000
STATS = {"queries": 0, "giveup": 0}


def reset():
    """Forget symbols: another function is analysed."""
    RANGES.clear()
    _memo.clear()
    GLOBAL.clear()


def set_range(s, lo, hi):
    if s not in RANGES:
        RANGES[s] = (lo, hi)


def infeasible(cons):
    """True when the conjunction of (l <= 0) has no integer solution (as far as
    Fourier-Motzkin with integer tightening can tell)."""
    work = set()
    for l in cons:
        l = norm(l)
        if l.const:
            if l.c > 0:
                return True
        else:
            work.add(l)
    # solve unit equalities first
    changed = True
    while changed:
        changed = False
        for l in work:
            if -l in work:
                piv = None
                for s, v in l.t:
                    if v in (1, -1):
                        piv = (s, v)
                        break
                if piv is None:
                    continue
                s, v = piv
                # v*s + rest = 0 -> s = -rest/v
                rest = Lin(l.c, tuple(x for x in l.t if x[0] != s))
                e = rest.scale(-v)
                nw = set()
                for m in work:
                    m2 = norm(m.subst(s, e))
                    if m2.const:
                        if m2.c > 0:
                            return True
                    else:
                        nw.add(m2)
                work = nw
                changed = True
                break
    while work:
        pos, neg = {}, {}
        for l in work:
            for s, v in l.t:
                (pos if v > 0 else neg).setdefault(s, []).append(l)
        best = None
        for s in set(pos) | set(neg):
            a, b = len(pos.get(s, ())), len(neg.get(s, ()))
            cost = a * b - a - b
            if best is None or cost < best[0]:
                best = (cost, s)
        s = best[1]
        P, N = pos.get(s, []), neg.get(s, [])
        work = {l for l in work if not l.coef(s)}
        if len(P) * len(N) + len(work) > FM_LIMIT:
            STATS["giveup"] += 1
            return False
        for p in P:
            kp = p.coef(s)
            for n in N:
                kn = -n.coef(s)
                m = norm(p.scale(kn) + n.scale(kp))
                if m.const:
                    if m.c > 0:
                        return True
                else:
                    work.add(m)
        # drop dominated rows with equal left-hand side
        bylhs = {}
        for l in work:
            o = bylhs.get(l.t)
            if o is None or o.c < l.c:
                bylhs[l.t] = l
        work = set(bylhs.values())
    return False


GLOBAL = {}  # symbol -> facts (l <= 0) that always hold of it


def add_global(l):
    for s in l.syms():
        g = GLOBAL.setdefault(s, [])
        if l not in g:
            g.append(l)


def relevant(facts, syms):
    syms = set(syms)
    out = []
    if GLOBAL:
        return relevant_g(facts, syms)
    rest = list(facts)
    ch = True
    while ch:
        ch = False
        nr = []
        for l in rest:
            if any(s in syms for s, _ in l.t):
                out.append(l)
                for s, _ in l.t:
                    if s not in syms:
                        syms.add(s)
                ch = True
            else:
                nr.append(l)
        rest = nr
    for s in syms:
        r = RANGES.get(s)
        if r:
            out.append(Lin(r[0], ((s, -1),)))
            out.append(Lin(-r[1], ((s, 1),)))
    return out


def relevant_g(facts, syms):
    out, seen = [], set()
    rest = list(facts)
    todo = list(syms)
    by = {}
    for l in rest:
        for s, _ in l.t:
            by.setdefault(s, []).append(l)
    while todo:
        s = todo.pop()
        for l in by.get(s, ()):
            if l not in seen:
                seen.add(l)
                out.append(l)
                for x, _ in l.t:
                    if x not in syms:
                        syms.add(x)
                        todo.append(x)
        for l in GLOBAL.get(s, ()):
            if l not in seen:
                seen.add(l)
                out.append(l)
                for x, _ in l.t:
                    if x not in syms:
                        syms.add(x)
                        todo.append(x)
        r = RANGES.get(s)
        if r:
            out.append(Lin(r[0], ((s, -1),)))
            out.append(Lin(-r[1], ((s, 1),)))
    return out


def entails(facts, g):
    """facts |= g <= 0"""
    STATS["queries"] += 1
    if g.const:
        return g.c <= 0
    rel = relevant(facts, g.syms())
    key = (frozenset(rel), g)
    r = _memo.get(key)
    if r is None:
        r = infeasible(rel + [1 - g])
        _memo[key] = r
    return r


def consistent(facts, extra=()):
    syms = set()
    for l in extra:
        syms.update(l.syms())
    if extra and syms:
        cons = relevant(list(facts) + list(extra), syms)
        for l in extra:
            if l.const and l.c > 0:
                return False
    else:
        cons = list(facts) + list(extra)
        allsy = set()
        for l in cons:
            allsy.update(l.syms())
        cons = relevant(cons, allsy) + [l for l in cons if l.const]
    key = frozenset(cons)
    r = _memo.get(key)
    if r is None:
        r = not infeasible(cons)
        _memo[key] = r
    return r
