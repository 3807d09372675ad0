"""What a path knows about the bytes it compared: which regions it found equal, which it found different."""
import content
from absint import ble
from lin import Lin, set_range
from oracle import feasible, part, settled, size

MAX = 12


def byte_at(E, st, segs, i):
    """Linear value of the byte at a position of segs, or None."""
    r = bytes_at(E, st, segs, i)
    return r[0] if r else None


def bytes_at(E, st, segs, i):
    """All names under which the path knows the byte at a position of segs."""
    x = part(st, segs, Lin.of(i), Lin.of(i) + 1)
    if not x or len(x) != 1:
        return []
    b, o, _ = x[0]
    if isinstance(b, tuple):
        if b[0] == "byte" and isinstance(b[1], Lin):
            return [b[1]]
        if b[0] == "fill" and str(b[1]).isdigit():
            return [Lin(int(b[1]))]
        b = "arr:%s" % b[1] if b[0] == "arr" else None
    if b is None:
        return []
    nm = "mem:%s[%s]:u8" % (b, o)
    have = used(st)
    out = [Lin.sym(nm)] if nm in have else []
    # read under an offset written differently
    for k in have:
        e = E.elemsym.get(k)
        if k != nm and e and key(e[0]) == b and st.eq_holds(Lin.of(e[1]), Lin.of(o)):
            out.append(Lin.sym(k))
    return out or [Lin.sym(nm)]


def key(b):
    return "arr:%s" % b[1] if isinstance(b, tuple) and b[0] == "arr" else b


def used(st):
    return {s for l in list(st.le) + list(st.ne) for s in l.syms() if s.startswith("mem:")}


def one(segs):
    return segs[0] if segs and len(segs) == 1 else None


def regions(E, st):
    """[(segment, segment, whether equal)] of the regions compared as a whole."""
    out = []
    for nm, v in st.bools.items():
        f = E.eqfacts.get(nm)
        if f and one(f[0]) and one(f[1]):
            out.append((one(f[0]), one(f[1]), v))
            out.append((one(f[1]), one(f[0]), v))
    return out


def seg_at(st, segs, pos):
    """(base, offset) of a position."""
    x = part(st, segs, pos, pos + 1)
    return (x[0][0], x[0][1]) if x and len(x) == 1 else None


def distinct(st, a, b):
    """Whether two byte values are known to differ."""
    d = a - b
    return any(l in (d, -d) for l in st.ne) or st.le_holds(d + 1) or st.le_holds(-d + 1) or (d.const and d.c != 0)


def same(E, st, A, B):
    """'same' if the path knows the regions (of equal length) to hold the same bytes, 'differ' if it knows a difference,
    'unknown' if nothing it knows says anything about a byte that is there, else ('open', why)."""
    if A is None or B is None:
        return ("open", "content not tracked")
    L = size(A)
    if not st.eq_holds(L, size(B)):
        return ("open", "lengths %s and %s" % (L, size(B)))
    rs = regions(E, st)
    pos = Lin(0)
    doubt = None
    for _ in range(MAX):
        if st.le_holds(L - pos):
            return doubt or "same"
        s1 = st if st.le_holds(pos + 1 - L) else None
        if s1 is None:
            xs = st.assume(ble(pos + 1, L))
            if not xs:
                return doubt or "same"
            s1 = xs[0]
        a, b = seg_at(s1, A, pos), seg_at(s1, B, pos)
        if a is None or b is None:
            return doubt or ("open", "position %s not resolved" % pos)
        if a[0] == b[0] and st.eq_holds(a[1], b[1]):
            # the very same bytes: skip to the end of the shorter segment
            n = rest(s1, A, B, pos)
            if n is None:
                return ("open", "segments at %s" % pos)
            pos = pos + n
            continue
        step = None
        for x, y, v in rs:
            if x[0] == a[0] and y[0] == b[0]:
                d = Lin.of(a[1]) - x[1]
                if s1.eq_holds(d, Lin.of(b[1]) - y[1]) and s1.le_holds(-d) and s1.le_holds(d + 1 - x[2]):
                    if v:
                        step = x[2] - d
                    elif d.const and d.c == 0 and s1.le_holds(pos + x[2] - L):
                        return "differ"
        if step is not None:
            pos = pos + step
            continue
        us, ws = bytes_at(E, s1, A, pos), bytes_at(E, s1, B, pos)
        if us and ws:
            if any(s1.eq_holds(u, w) for u in us for w in ws):
                pos = pos + 1
                continue
            if any(distinct(s1, u, w) for u in us for w in ws):
                if s1 is st:
                    return "differ"
                return doubt or ("open", "may end before the difference")
        # nothing known here: is a fact about these bytes possible at all?
        if s1 is not st and not settled(s1):
            doubt = doubt or ("open", "whether it is that long")
        elif hidden(E, s1, rs, a) and hidden(E, s1, rs, b):
            doubt = doubt or ("open", "comparison at %s not resolved" % pos)
        else:
            doubt = doubt or "unknown"
        pos = pos + 1
    return doubt or ("open", "long")


def rest(st, A, B, pos):
    best = None
    for S in (A, B):
        at = Lin(0)
        for _, _, n in S:
            if st.le_holds(at - pos) and st.le_holds(pos + 1 - at - n):
                k = at + n - pos
                if best is None or st.le_holds(k - best):
                    best = k
                elif not st.le_holds(best - k):
                    return None
                break
            at = at + n
        else:
            return None
    return best


def hidden(E, st, rs, a):
    """Whether some comparison may concern the byte at a without being resolved to it."""
    for x, _, v in rs:
        if x[0] == a[0]:
            d = Lin.of(a[1]) - x[1]
            if any(t for s in st.assume(ble(0, d)) for t in s.assume(ble(d + 1, x[2]))):
                return True
    for k in used(st):
        e = E.elemsym.get(k)
        if e is None or key(e[0]) != key(a[0]):
            continue
        d = Lin.of(e[1]) - a[1]
        if st.assume(("eq", d) if not d.const else d.c == 0) if not d.const else d.c == 0:
            return True
    return False


# ---------------------------------------------------------------- concrete sizes that tell the two apart
def fixed(st, syms, top=5):
    """States with the given quantities fixed to small values, one after the other."""
    if not syms:
        yield st
        return
    for v in range(top):
        l = Lin.sym(syms[0]) - v
        for s in st.assume(("eq", l)):
            yield from fixed(s, syms[1:], top)


def const(st, l):
    """Value of l where its symbols are fixed."""
    l = Lin.of(l)
    if l.const:
        return l.c
    v = l.c
    for s, k in l.t:
        for x in range(0, 40):
            if st.eq_holds(Lin.sym(s), Lin(x)):
                v += k * x
                break
        else:
            return None
    return v


def canon(E, st, a):
    b, o, n = a
    if isinstance(b, tuple) and b[0] == "byte" and isinstance(b[1], Lin):
        return lambda i: b[1]
    if isinstance(b, tuple) and b[0] == "fill" and str(b[1]).isdigit():
        return lambda i: Lin(int(b[1]))
    o = const(st, o)
    if o is None:
        return None

    def at(i):
        nm = "mem:%s[@%d]:u8" % (key(b), o + i)
        set_range(nm, 0, 255)
        return Lin.sym(nm)

    return at


def spell(E, st, segs):
    """The bytes of segs, one linear value each, where all sizes are fixed."""
    out = []
    for x in segs:
        n, at = const(st, x[2]), canon(E, st, x)
        if n is None or at is None:
            return None
        out += [at(i) for i in range(n)]
    return out


def eqs(states, pairs):
    for a, b in pairs:
        d = a - b
        if d.const:
            states = states if d.c == 0 else []
        else:
            states = [t for s in states for t in s.assume(("eq", d))]
    return states


def worlds(E, st, *seglists):
    """Fixed sizes under which everything the path compared is spelled out byte by byte."""
    syms = set()
    for S in seglists:
        for x in S:
            syms |= set(Lin.of(x[1]).syms()) | set(Lin.of(x[2]).syms())
    rs = [(f[0], f[1], v) for nm, v in st.bools.items() for f in (E.eqfacts.get(nm),) if f]
    for nm in st.bools:
        for S in E.ltfacts.get(nm, ()):
            if S is None:
                return
            for x in S:
                syms |= set(Lin.of(x[1]).syms()) | set(Lin.of(x[2]).syms())
    for nm, v in st.bools.items():
        if nm.startswith("bytes_eq") and nm not in E.eqfacts:
            return
    for a, b, _ in rs:
        if a is None or b is None:
            return
        for x in list(a) + list(b):
            syms |= set(Lin.of(x[1]).syms()) | set(Lin.of(x[2]).syms())
    us = [k for k in used(st)]
    for k in us:
        if k not in E.elemsym:
            return
        syms |= set(Lin.of(E.elemsym[k][1]).syms())
    n = 0
    for s in fixed(st, sorted(syms)):
        n += 1
        if n > 200:
            return
        pairs, alts = [], []
        bad = False
        for k in us:
            at = canon(E, s, (E.elemsym[k][0], E.elemsym[k][1], 1))
            if at is None:
                bad = True
                break
            pairs.append((Lin.sym(k), at(0)))
        for a, b, v in rs:
            x, y = spell(E, s, a), spell(E, s, b)
            if x is None or y is None or len(x) != len(y):
                bad = True
                break
            if v:
                pairs += list(zip(x, y))
            else:
                alts.append(list(zip(x, y)))
        less = []
        for nm, v in st.bools.items():
            f = E.ltfacts.get(nm)
            if f:
                x, y = spell(E, s, f[0]), spell(E, s, f[1])
                bad = bad or x is None or y is None
                less.append((x, y) if v else (y, x))
        if bad:
            continue
        states = eqs([s], pairs)
        for x, y in less:
            states = [t for s2 in states for t in before(s2, x, y)][:8]
        for alt in alts:
            states = [t for s2 in states for a, b in alt for t in apart(s2, a, b)][:8]
        for t in states[:8]:
            yield t


def before(s, x, y):
    """States in which the bytes x come before the bytes y."""
    out = []
    states = [s]
    for a, b in zip(x, y):
        out += [t for s2 in states for t in s2.assume(ble(a + 1, b))]
        states = eqs(states, [(a, b)])
    return out + (states if len(x) < len(y) else [])


def apart(s, a, b):
    d = a - b
    if d.const:
        return [s] if d.c else []
    return s.assume(ble(d + 1, 0)) + s.assume(ble(1, d))


def may(E, st, A, B, equal):
    """A state with all sizes fixed in which A and B hold the same bytes (differ, if not equal), or None."""
    for s in worlds(E, st, A, B):
        x, y = spell(E, s, A), spell(E, s, B)
        if x is None or y is None or len(x) != len(y):
            continue
        if equal:
            ts = eqs([s], zip(x, y))
        else:
            ts = [t for a, b in zip(x, y) for t in apart(s, a, b)]
        for t in ts:
            if settled(t):
                return t
    return None


def alike(st, S, x):
    return bool(S) and len(S) == 1 and S[0][0] == x[0] and st.eq_holds(Lin.of(S[0][1]), x[1])


def possible(E, st):
    """Whether the comparisons the path made can have come out that way."""
    for nm, v in st.bools.items():
        f = E.eqfacts.get(nm)
        if f and not v and all(S is not None and st.le_holds(size(S)) for S in f):
            return False
    return True


def order(E, st, A, B):
    """-1, 0 or 1 if the path knows which of the two comes first, else ('open', why)."""
    if A is None or B is None:
        return ("open", "content not tracked")
    na, nb = size(A), size(B)
    facts = regions(E, st)
    lts = []
    for nm, v in st.bools.items():
        f = E.ltfacts.get(nm)
        if f and one(f[0]) and one(f[1]):
            x, y = one(f[0]), one(f[1])
            lts += [(x, y, v), (y, x, not v)]
    pos = Lin(0)
    for _ in range(MAX):
        for x, y, v in lts:
            # all that is left of both was compared at once
            if st.eq_holds(pos + x[2], na) and st.eq_holds(pos + y[2], nb) and alike(st, part(st, A, pos, na), x) and alike(st, part(st, B, pos, nb), y):
                return -1 if v else 1
        if st.le_holds(na - pos):
            if st.le_holds(nb - pos):
                return 0
            return -1 if st.le_holds(pos + 1 - nb) else ("open", "whether the second one is longer")
        if st.le_holds(nb - pos):
            return 1 if st.le_holds(pos + 1 - na) else ("open", "whether the first one is longer")
        if not st.le_holds(pos + 1 - na) or not st.le_holds(pos + 1 - nb):
            # whichever way the lengths are, the answer has to be one
            rs = {order(E, s, A, B) for l in (na, nb) if not st.le_holds(pos + 1 - l) for t in (ble(pos + 1, l), ble(l, pos)) for s in st.assume(t)}
            return rs.pop() if len(rs) == 1 else ("open", "depends on the lengths")
        a, b = seg_at(st, A, pos), seg_at(st, B, pos)
        if a is None or b is None:
            return ("open", "position %s not resolved" % pos)
        if a[0] == b[0] and st.eq_holds(a[1], b[1]):
            n = rest(st, A, B, pos)
            if n is None:
                return ("open", "segments at %s" % pos)
            pos = pos + n
            continue
        at = lambda x, y: x[0] == a[0] and y[0] == b[0] and st.eq_holds(a[1], x[1]) and st.eq_holds(b[1], y[1])
        for x, y, v in lts:
            # a difference within both, or the shorter one is where its data ends
            if at(x, y):
                n, m = (Lin.of(x[2]), Lin.of(y[2])) if v else (Lin.of(y[2]), Lin.of(x[2]))
                if st.le_holds(m - n) or st.eq_holds(pos + n, na if v else nb):
                    return -1 if v else 1
        for x, y, v in facts:
            if v and x[0] == a[0] and y[0] == b[0]:
                d = Lin.of(a[1]) - x[1]
                if st.eq_holds(d, Lin.of(b[1]) - y[1]) and st.le_holds(-d) and st.le_holds(d + 1 - x[2]):
                    pos = pos + x[2] - d
                    break
        else:
            us, ws = bytes_at(E, st, A, pos), bytes_at(E, st, B, pos)
            if any(st.eq_holds(u, w) for u in us for w in ws):
                pos = pos + 1
            elif any(st.le_holds(u + 1 - w) for u in us for w in ws):
                return -1
            elif any(st.le_holds(w + 1 - u) for u in us for w in ws):
                return 1
            else:
                return ("open", "comparison at %s not resolved" % pos)
    return ("open", "long")


def ordered(c, what, st, A, B, r):
    """r (-1, 0, 1) tells which of A and B comes first."""
    E = c.E
    if A is None or B is None:
        return c.open(what, "not tracked")
    x = order(E, st, A, B)
    if x == r:
        return c.ok(what)
    for s in worlds(E, st, A, B):
        a, b = spell(E, s, A), spell(E, s, B)
        if a is None or b is None:
            continue
        other = []
        if r != 0 and len(a) == len(b):
            other += eqs([s], zip(a, b))
        if r != -1:
            other += before(s, a, b)
        if r != 1:
            other += before(s, b, a)
        for t in other:
            if settled(t):
                return c.never(what, t, "it says %d" % r)
    c.open(what, "order %s" % (x,))


def placed(st, A, *ps):
    """The states in which it is known in which segment each position lies."""
    states = [st]
    for p in ps:
        out = []
        for s in states:
            if part(s, A, Lin(0), p) is not None:
                out.append(s)
                continue
            at = Lin(0)
            for _, _, n in A:
                at = at + n
                out += s.assume(ble(p, at))
                s = (s.assume(ble(at + 1, p)) or [None])[0]
                if s is None:
                    break
            if s is not None:
                out.append(s)
        states = out
    return states


def found(c, what, st, A, p, B):
    """B is in A at p."""
    E = c.E
    if p is None or A is None or B is None:
        return c.open(what, "not tracked")
    for l, why in ((p + size(B) - size(A), "beyond the end"), (-p, "below 0")):
        if not st.le_holds(l):
            for s in st.assume(ble(1, l)):
                if settled(s):
                    return c.never(what, s, "position %s is %s" % (p, why))
            return c.open(what, "%s within the data" % p)
    for s in placed(st, A, p, p + size(B)):
        if not feasible(s):
            continue
        X = part(s, A, p, p + size(B))
        r = same(E, s, X, B)
        if r == "same":
            continue
        t = may(E, s, X, B, False) if X is not None else None
        if t is not None:
            return c.never(what, t, "other bytes may be there")
        return c.open(what, r if isinstance(r, str) else r[1])
    c.ok(what)


def absent(c, what, st, A, p, B):
    """B is not in A at p (which may not even fit)."""
    E = c.E
    if p is None or A is None or B is None:
        return c.open(what, "not tracked")
    for s in [t for s in st.assume(ble(p + size(B), size(A))) for t in placed(s, A, p, p + size(B))]:
        if not feasible(s):
            continue
        X = part(s, A, p, p + size(B))
        r = same(E, s, X, B)
        if r == "differ":
            continue
        t = may(E, s, X, B, True) if X is not None else None
        if t is not None:
            return c.never(what, t, "the bytes at %s may be equal" % p)
        return c.open(what, r if isinstance(r, str) else r[1])
    c.ok(what)


def bound(st, l):
    """The least small constant that l does not exceed, or None."""
    for k in range(0, 20):
        if st.le_holds(Lin.of(l) - k):
            return k
    return None
