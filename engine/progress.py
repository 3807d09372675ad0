"""Progress of loops: what a pass changes, and whether it can change nothing."""
import know
import oracle
from absint import Unsupported, beq, ble
from lin import Lin

# events after which another pass may go another way although nothing else changed
OUTSIDE = ("call", "indirect", "callopaque", "atomic", "alloc", "realloc", "dealloc", "chunk-new", "chunk-drop", "box-new", "box-free", "nom", "forget", "drop")
WRITES = {"copy": 5, "fill": 3}

_live = {}


def mentions(x, n, out):
    """Locals mentioned in a piece of MIR: every place is a list that starts with the number of a local."""
    if isinstance(x, list):
        if x and type(x[0]) is int and 0 <= x[0] < n:
            out.add(x[0])
            for e in x[1:]:
                if isinstance(e, list) and len(e) > 1 and e[0] == "i":
                    out.add(e[1])
            return
        for y in x:
            mentions(y, n, out)
    elif isinstance(x, dict):
        for y in x.values():
            mentions(y, n, out)


def live(body, head):
    """Locals whose value at the loop head can matter."""
    key = id(body)
    if key not in _live:
        from absint import cfg_succ

        n = len(body["locals"])
        use, df = [], []
        for b in body["blocks"]:
            u, d = set(), set()
            for s in b["s"]:
                m = set()
                if s[0] == "=":
                    mentions(s[2], n, m)
                    if len(s[1]) > 1:
                        mentions(s[1], n, m)
                    u |= m - d
                    if len(s[1]) == 1:
                        d.add(s[1][0])
                elif s[0] == "dead":
                    d.add(s[1])
                elif s[0] == "sd":
                    u |= {s[1][0]} - d
                elif s[0] == "cno":
                    mentions(s[1:4], n, m)
                    u |= m - d
            t = b["t"]
            m = set()
            if t[0] == "call":
                mentions(t[2], n, m)
                mentions([x for x in t[1:2]], n, m)
                if len(t[3]) > 1:
                    mentions(t[3], n, m)
                u |= m - d
                if len(t[3]) == 1:
                    d.add(t[3][0])
            elif t[0] == "ret":
                u |= {0} - d
            elif t[0] == "drop":
                mentions(t[1], n, m)
                u |= m - d
            elif t[0] in ("switch", "assert"):
                mentions(t[1], n, m)
                if t[0] == "assert":
                    mentions(t[3:4], n, m)
                u |= m - d
            use.append(u)
            df.append(d)
        succ = [cfg_succ(b["t"]) for b in body["blocks"]]
        # references keep what they point to alive: a local whose address is taken stays live
        taken = set()

        def refs(x):
            if isinstance(x, list):
                if x and x[0] in ("ref", "addr") and isinstance(x[-1], list) and x[-1] and type(x[-1][0]) is int and "*" not in x[-1]:
                    taken.add(x[-1][0])
                for y in x:
                    refs(y)

        for b in body["blocks"]:
            refs(b["s"])
        inn = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for i in range(len(use) - 1, -1, -1):
                o = set()
                for s in succ[i]:
                    o |= inn[s]
                x = use[i] | (o - df[i])
                if x != inn[i]:
                    inn[i] = x
                    ch = True
        _live[key] = (body, inn, taken)
    return _live[key][1][head] | _live[key][2]


def unify(st, a, b, out):
    """Linear equations under which two values are the same, appended to out; False if they cannot be."""
    if a is b or a == b:
        return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        # machine arithmetic that may have wrapped: what it came to is not known well enough
        if any(s.startswith("?") for s in (a - b).syms()):
            return False
        out.append((a, b))
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        if a and b and isinstance(a[0], str) and a[0] != b[0]:
            return False
        if a and a[0] == "b":
            return False
        return all(unify(st, x, y, out) for x, y in zip(a, b))
    return False


def since(before, after):
    """Events of after that before does not have."""
    n = len(before.events())
    return after.events()[n:]


def reached(st, roots):
    """Cells reachable through references from values."""
    out, work = set(), list(roots)
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            if len(x) >= 2 and x[0] == "c" and len(x) == 3 and x[1] in st.cells:
                if x[1] not in out:
                    out.add(x[1])
                    work.append(st.cells[x[1]])
                continue
            work += [y for y in x if isinstance(y, tuple)]
    return out


def relevant(fr, head, st):
    """Cells on which what follows the loop head can depend."""
    lv = live(fr.body, head)
    mine = {(fr.fid, i) for i in lv if (fr.fid, i) in st.cells}
    up = fr.up
    frames = set()
    while up is not None:
        frames.add(up.fid)
        up = up.up
    # what the callers hold counts where it can be reached from here, or is on the heap
    return mine | reached(st, [st.cells[c] for c in mine])


def repeat(E, fr, head, before, after):
    """A state in which the loop head is reached again with nothing changed, or None."""
    evs = since(before, after)
    eqs = []
    for e in evs:
        if e[0] in OUTSIDE:
            return None
        if e[0] in WRITES:
            eqs.append((e[WRITES[e[0]]], Lin(0)))
        elif e[0] == "write":
            return None
    if before.ghost != after.ghost:
        for g in set(before.ghost) | set(after.ghost):
            x, y = before.ghost.get(g), after.ghost.get(g)
            if not unify(after, x, y, eqs):
                return None
    for c in relevant(fr, head, after):
        if c not in before.cells:
            return None
        if not unify(after, before.cells[c], after.cells[c], eqs):
            return None
    sts = [after]
    for a, b in eqs:
        sts = [s2 for s in sts for s2 in s.assume(beq(a, b))]
        if not sts:
            return None
    for s in sts:
        if know.possible(E, s) and oracle.feasible(s):
            return s
    return None


# ---------------------------------------------------------------- measures
def leaves(st, v, path=(), depth=0):
    """(path, quantity) of the integers and lengths in a value."""
    if not isinstance(v, tuple) or not v or depth > 6:
        return
    k = v[0]
    if k == "i":
        yield path, v[1]
    elif k == "v":
        yield path + ("len",), v[3]
        if isinstance(v[2], Lin):
            yield path + ("off",), v[2]
    elif k == "p":
        if isinstance(v[2], Lin):
            yield path + ("off",), v[2]
    elif k == "a":
        yield path + ("variant",), Lin(v[2]) if isinstance(v[2], int) else None
        for i, x in enumerate(v[3]):
            yield from leaves(st, x, path + (i,), depth + 1)
    elif k == "u":
        yield from leaves(st, v[3], path + (v[2],), depth + 1)


def measures(fr, head, before, after):
    """{leaf: set of relations} a pass establishes: '<' shrinks, '=' stays, and the quantities it stays below when it grows."""
    out = {}
    for c in relevant(fr, head, after) & set(before.cells):
        old = dict(leaves(before, before.cells[c]))
        new = dict(leaves(after, after.cells[c]))
        for p, o in old.items():
            n = new.get(p)
            if o is None or n is None:
                continue
            r = set()
            if p and p[-1] == "variant":
                r.add("=" if o == n else "<" if n.c < o.c else ">")
            else:
                if after.le_holds(n - o):
                    r.add("<=")
                    if after.le_holds(n - o + 1):
                        r.add("<")
                elif after.le_holds(o - n + 1):
                    for s in bounds(after, n):
                        r.add(("below", s))
            if r:
                out[(str(c[1]) if c[0] == fr.fid else str(c), p)] = r
    return out


def bounds(st, n):
    """Symbols the quantity is known not to exceed."""
    syms = set()
    for l in st.le:
        syms |= set(l.syms())
    return [s for s in syms if s not in n.syms() and not s.startswith("?") and st.le_holds(n - Lin.sym(s))]


def ranked(passes, changing=()):
    """Whether the passes decrease a lexicographic combination of leaves."""
    left = list(passes)
    while left:
        keys = set.intersection(*[set(m) for m in left]) if left else set()
        best = None
        for k in sorted(keys, key=str):
            down = [m for m in left if "<" in m[k]]
            if down and all("<" in m[k] or "<=" in m[k] or "=" in m[k] for m in left):
                best = down
                break
            ups = [{x[1] for x in m[k] if isinstance(x, tuple)} - set(changing) for m in left]
            if all(ups[i] or "=" in m[k] for i, m in enumerate(left)) and any(ups):
                common = set.intersection(*[u for u in ups if u])
                if common:
                    best = [m for i, m in enumerate(left) if ups[i]]
                    break
        if not best:
            return False
        left = [m for m in left if m not in best]
    return True
