"""What bytes a region holds, in terms of the bytes that were there when the function was entered.

Every write, copy and fill is recorded as a layer over what the region held before; a region's content is resolved through
the layers to segments (base, offset, length) of unmodified input regions, ('byte', value) or ('fill', value).
Arrays stored in places are values: each write yields a new array name."""
import re
from lin import Lin, set_range

DIVC = re.compile(r",\d+\)$")
FRESH = re.compile(r"(atom_[a-z_]+|heap|find|trim|trimmed|charlen)~\d+")


def canon(E, st, base):
    b = E.bases.get(base)
    if b and b.get("loc") is not None:
        try:
            v = E.read(st, b["loc"])
        except Exception:
            return base
        if v[0] == "arr":
            return ("arr", v[1])
        if v[0] == "arrv":
            return ("arrv", v)
        return ("lost", base)
    return base


def layers(E, st, cb):
    """The latest layer over region cb: (older, off, len, segs) or None."""
    if isinstance(cb, tuple):
        if cb[0] == "arr":
            return E.arrdef.get(cb[1])
        return None
    w = st.cells.get("#w:%s" % cb)
    if w is None:
        return None
    if w[0] == "wlog":
        return w[1]
    return "lost"


def seg(base, off, n):
    return (base, Lin.of(off), Lin.of(n))


def resolve(E, st, base, off, n, depth=0):
    cb = base if isinstance(base, tuple) else canon(E, st, base)
    return resolve_c(E, st, cb, Lin.of(off), Lin.of(n), layers(E, st, cb), depth)


def resolve_c(E, st, cb, off, n, lay, depth):
    if n.const and n.c == 0:
        return []
    if depth > 60:
        return None
    if isinstance(cb, tuple) and cb[0] == "lost":
        return None
    if isinstance(cb, tuple) and cb[0] == "arrv":
        return arrv_segs(cb[1], off, n)
    if isinstance(lay, tuple) and lay[0] == "lazy":
        lay = E.arrdef.get(lay[1], "lost")
    if lay is None:
        return [seg(cb, off, n)]
    if lay == "lost":
        return None
    old, u, m, segs = lay
    le = st.le_holds
    end, uend = off + n, u + m

    def older(o, k):
        if isinstance(cb, tuple) and cb[0] == "arr":
            oc = ("arr", old) if not isinstance(old, tuple) else old
            if old == "zero":
                return [seg(("fill", "0"), Lin(0), k)]
            if old == "lost":
                return None
            return resolve_c(E, st, oc, o, k, layers(E, st, oc), depth + 1)
        return resolve_c(E, st, cb, o, k, old, depth + 1)

    if le(end - u) or le(uend - off) or le(m):
        return older(off, n)
    if segs is None:
        # something unknown was written there
        return None
    if le(u - off) and le(end - uend):
        return take(st, segs, off - u, n)
    if le(off - u):
        if le(uend - end):
            a = older(off, u - off)
            c = older(uend, end - uend)
            return None if a is None or c is None else a + list(segs) + c
        if le(u - end) and le(end - uend):
            a = older(off, u - off)
            b = take(st, segs, Lin(0), end - u)
            return None if a is None or b is None else a + b
    if le(u - off) and le(uend - end) and le(off - uend):
        a = take(st, segs, off - u, uend - off)
        b = older(uend, end - uend)
        return None if a is None or b is None else a + b
    return None


def arrv_segs(v, off, n):
    if off.const is None or not (off.const and n.const):
        return None
    out = []
    for x in v[1][off.c : off.c + n.c] if isinstance(v[1], tuple) else []:
        out.append(byteseg(x))
    return out if len(out) == n.c else None


def byteseg(x):
    if x[0] == "i":
        return seg(("byte", x[1]), Lin(0), Lin(1))
    return seg(("byte", str(x)), Lin(0), Lin(1))


def take(st, segs, off, n):
    """Sub-list [off, off+n) of a segment list."""
    out = []
    off, n = Lin.of(off), Lin.of(n)
    if len(segs) == 1:
        b, o, l = segs[0]
        return [seg(b, o + off if not kindless(b) else o, n)]
    for b, o, l in segs:
        if n.const and n.c == 0 or st.le_holds(n):
            return out
        if st.le_holds(l - off):
            off = off - l
            continue
        if st.le_holds(off + n - l):
            out.append(seg(b, o if kindless(b) else o + off, n))
            return out
        if st.le_holds(off - l) and st.le_holds(l - off - n):
            out.append(seg(b, o if kindless(b) else o + off, l - off))
            n = n - (l - off)
            off = Lin(0)
            continue
        return None
    if st.le_holds(n):
        return out
    return None


def kindless(b):
    return isinstance(b, tuple) and b[0] in ("byte", "fill")


def update(E, st, base, off, n, src):
    """Record a write of n bytes at base[off]. src: ('seg', base, off) | ('val', value) | ('fill', value) | None."""
    off, n = Lin.of(off), Lin.of(n)
    if src is None:
        segs = None
    elif src[0] == "seg":
        segs = resolve(E, st, src[1], src[2], n)
        if segs is not None:
            segs = tuple(segs)
    elif src[0] == "val":
        v = src[1]
        if v[0] == "i":
            es = E.elemsym.get(next(iter(v[1].syms()), None)) if len(list(v[1].syms())) == 1 and v[1] == Lin.sym(next(iter(v[1].syms()))) else None
            if es is not None:
                segs = (seg(es[0], es[1], n),)
            else:
                segs = (seg(("byte", v[1]), Lin(0), n),)
        else:
            segs = (seg(("byte", str(v)), Lin(0), n),)
    else:
        segs = (seg(("fill", str(src[1])), Lin(0), n),)
    b = E.bases.get(base)
    if b and b.get("loc") is not None:
        loc = b["loc"]
        try:
            v = E.read(st, loc)
        except Exception:
            return
        if v[0] == "arr":
            old = v[1]
            tid = v[2]
        elif v[0] == "arrv":
            old = ("arrv", v)
            tid = E.loc_ty(st, loc)
        else:
            old = "lost"
            tid = E.loc_ty(st, loc)
        E.arruid += 1
        nm = "%s'%d" % (old if isinstance(old, str) else "arrv", E.arruid)
        if len(nm) > 60:
            nm = "arr'%d" % E.arruid
        E.arrdef[nm] = (old, off, n, segs)
        E.write(st, loc, ("arr", nm, tid))
        return
    key = "#w:%s" % base
    w = st.cells.get(key)
    prev = w[1] if w is not None and w[0] == "wlog" else (None if w is None else "lost")
    st.cells[key] = ("wlog", (prev, off, n, segs))
    # cached element reads of that region are stale now
    pre = "mem:%s[" % base
    for k in [k for k in st.cells if isinstance(k, str) and k.startswith(pre)]:
        t = E.cell_ty.get(k)
        if t is not None and E.int_range(E.strip(t)) and E.size_of(E.strip(t)) == 1:
            del st.cells[k]


def elem(E, st, base, off, tid):
    """Value of the byte at base[off], or None to read it the plain way."""
    cb = canon(E, st, base)
    lay = layers(E, st, cb)
    if isinstance(cb, tuple) and cb[0] == "arrv":
        return None
    r = resolve_c(E, st, cb, off, Lin(1), lay, 0)
    if r is None or len(r) != 1:
        nm = E.fresh("?elem")
        return E.mat(nm, tid)
    b, o, _ = r[0]
    if isinstance(b, tuple):
        if b[0] == "byte":
            return ("i", b[1]) if isinstance(b[1], Lin) else None
        if b[0] == "fill":
            return ("i", Lin(int(b[1]))) if str(b[1]).isdigit() else None
        bs = "arr:%s" % b[1]
    else:
        bs = b
    if bs.startswith("const:"):
        return None
    nm = "mem:%s[%s]:u8" % (bs, o)
    E.elemsym[nm] = (b, o)
    return E.mat(nm, tid)


# ---------------------------------------------------------------- comparison
def norm(st, segs):
    out = []
    for b, o, n in segs:
        if n.const and n.c == 0 or st.le_holds(n):
            continue
        if out and out[-1][0] == b and not kindless(b) and st.eq_holds(out[-1][1] + out[-1][2], o):
            out[-1] = (b, out[-1][1], out[-1][2] + n)
        elif out and kindless(b) and b[0] == "fill" and out[-1][0] == b:
            out[-1] = (b, o, out[-1][2] + n)
        else:
            out.append((b, o, n))
    return out


def total(segs):
    t = Lin(0)
    for _, _, n in segs:
        t = t + n
    return t


def compare(st, got, want):
    """'eq' | ('ne', reason) | ('?', reason) for two segment lists under the state's constraints."""
    if got is None:
        return ("?", "content not tracked")
    got, want = norm(st, got), norm(st, want)
    d = total(got) - total(want)
    if not (st.le_holds(d) and st.le_holds(-d)):
        return ("ne", "length %s instead of %s" % (total(got), total(want)))
    i = j = 0
    got, want = list(got), list(want)
    while i < len(got) and j < len(want):
        (b1, o1, n1), (b2, o2, n2) = got[i], want[j]
        if b1 != b2:
            if st.le_holds(1 - n1) and st.le_holds(1 - n2):
                return ("ne", "bytes of %s instead of %s" % (sname(b1), sname(b2)))
            if not st.le_holds(n1) and not st.le_holds(n2):
                return ("ne", "bytes of %s instead of %s" % (sname(b1), sname(b2)))
            return ("?", "%s vs %s" % (sname(b1), sname(b2)))
        if not kindless(b1) and not st.eq_holds(o1, o2):
            return ("ne", "position %s instead of %s of %s" % (o1, o2, sname(b1)))
        if st.eq_holds(n1, n2):
            i, j = i + 1, j + 1
        elif st.le_holds(n1 - n2):
            want[j] = (b2, o2 if kindless(b2) else o2 + n1, n2 - n1)
            i += 1
        elif st.le_holds(n2 - n1):
            got[i] = (b1, o1 if kindless(b1) else o1 + n2, n1 - n2)
            j += 1
        else:
            return ("?", "segment lengths %s and %s not ordered" % (n1, n2))
    return "eq"


def sname(b):
    return ":".join(str(x) for x in b) if isinstance(b, tuple) else str(b)


# operands of symbols that stand for a nonlinear operation
UFARGS = {}


def precise(l):
    """Whether an expression only mentions quantities that are exact."""
    return not any(vague(s) for s in l.syms())


IND = re.compile(r"\?ind~\d+|any_\w+~\d+")


def vague(s):
    s = IND.sub("ind", s)  # what a caller's function returns is an input
    if "?" in s or "φ" in s or "transmute(" in s or s.startswith(("and(", "bitor(", "bitxor(", "mul(")) or s.startswith(("rem(", "div(")) and not DIVC.search(s):
        return True
    # values read from shared counters and addresses of fresh blocks are inputs, not approximations
    return "~" in s and "~" in FRESH.sub("", s)


def precise_segs(segs):
    return all(precise(o) and precise(n) and not any(x in sname(b) for x in ("?", "φ", "transmute(")) for b, o, n in segs)
