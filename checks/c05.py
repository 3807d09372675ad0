"""C05: subranges, takes and splits contain exactly the requested bytes."""
import re
import prep, runall, rep as repm, oracle, models
from lin import Lin
from absint import bnot, band, ble
from oracle import part, size
from absint import Unsupported

RULE = ("Every public slicing, taking, splitting, viewing and converting function of the byte and text types is interpreted abstractly, once per representation of each argument and "
        "per form of range bound, over symbolic positions, lengths and contents. On each path the region of entry memory the result stands for (base, offset, length) is compared with "
        "the region the contract prescribes; a path that returns under an unfitting range, or refuses a fitting one, is a violation.")
FLOOR = 200


def ranged(get, text=False, rng=None):
    """Contract of a function that narrows argument 0 to a range."""
    def spec(c):
        cont = c.before(0)
        if cont is None:
            return c.open("range", "content not tracked")
        n = size(cont)
        if rng == "off,len":
            a, b = c.args0[1], c.args0[2]
            parts = [(c.st, a[1], a[1] + b[1])]
        else:
            parts = [(s, b, e) for s, b, e, _, _ in models.range_parts(c, c.st, c.args0[1], n)]
        for s, b, e in parts:
            ok = models.in_bounds(b, e, n)
            for s2 in s.assume(ok):
                if c.kind == "ret":
                    c.eq("range content", get(c, s2), part(s2, cont, b, e), s2)
                elif oom(c) or text and (c.st.bools or any(x.startswith("mem:") and x.endswith(":u8") or ":u8," in x for l in s2.le for x in l.syms())):
                    continue
                else:
                    s2.add_le(n - 2**31)  # sharing more than fits a shared block is refused by contract
                    c.never("range refused", s2, "a range that fits is refused")
            for s2 in s.assume(bnot(ok)):
                if c.kind == "ret":
                    c.never("range accepted", s2, "a range that does not fit is accepted")
                else:
                    c.ok("unfitting range refused")
    return spec


def ret(c, st):
    return c.segs(c.val, st)


def oom(c):
    """Whether the path ends because the allocator has no memory."""
    ps = [e for e in c.st.events() if e[0] == "panic"]
    return bool(ps) and "handle_alloc_error" in str(ps[-1][1])


def self_(c, st):
    return c.after(0, st)


def ident(c):
    """The result has the bytes of argument 0."""
    if c.kind != "ret":
        return
    v = c.val
    if v[0] == "a" and v[1] is not None and c.E.F.types[v[1]].get("def") in ("std::result::Result", "std::option::Option"):
        d = c.E.F.types[v[1]]["def"]
        if d.endswith("Option"):
            if v[2] == 0:
                return
        elif v[2] == 1 and c.segs(v[3][0]) is None:
            return
        v = v[3][0]
    c.eq("content", c.segs(v), c.before(0))


def length(c):
    if c.kind != "ret":
        return c.never("refused", None, "a length query panics")
    cont = c.before(0)
    if cont is None:
        return c.open("length")
    c.num("length", c.val, size(cont))


def empty_q(c):
    if c.kind != "ret":
        return c.never("refused", None, "an emptiness query panics")
    cont = c.before(0)
    if cont is None:
        return c.open("empty")
    n = size(cont)
    if c.val[0] != "b":
        return c.open("empty", "not tracked")
    for s in c.st.assume(c.val[1]):
        if s.le_holds(n):
            c.ok("empty")
        else:
            c.never("empty", s, "reports empty for %s bytes" % n)
    for s in c.st.assume(bnot(c.val[1])):
        if s.le_holds(1 - n):
            c.ok("empty")
        else:
            c.never("empty", s, "reports not empty for %s bytes" % n)


def nothing(c):
    if c.kind == "ret":
        c.eq("content", c.segs(c.val), [])


def take(c):
    cont = c.before(0)
    if cont is None:
        return c.open("cut")
    n, p = size(cont), c.args0[1][1]
    for s in c.st.assume(ble(p, n)):
        if c.kind == "ret":
            c.eq("taken part", c.segs(c.val, s), part(s, cont, Lin(0), p), s)
            c.eq("remaining part", c.after(0, s), part(s, cont, p, n), s)
        elif not oom(c):
            c.never("cut refused", s, "a position that fits is refused")
    for s in c.st.assume(bnot(ble(p, n))):
        if c.kind == "ret":
            c.never("cut accepted", s, "a position beyond the end is accepted")
        else:
            c.ok("unfitting cut refused")


def pair(text):
    def spec(c):
        cont = c.before(0)
        if cont is None:
            return c.open("cut")
        n, p = size(cont), c.args0[1][1]
        for s in c.st.assume(ble(p, n)):
            if c.kind == "ret":
                a, b = c.val[3]
                c.eq("first part", c.segs(a, s), part(s, cont, Lin(0), p), s)
                c.eq("second part", c.segs(b, s), part(s, cont, p, n), s)
            elif not text:
                c.never("cut refused", s, "a position that fits is refused")
        for s in c.st.assume(bnot(ble(p, n))):
            if c.kind == "ret":
                c.never("cut accepted", s, "a position beyond the end is accepted")
            else:
                c.ok("unfitting cut refused")
    return spec


def conserve(c):
    """Result followed by what remains is the original."""
    if c.kind != "ret":
        return
    a, b = c.segs(c.val), c.after(0)
    c.eq("parts in order", a + b if a is not None and b is not None else None, c.before(0))


def once(c):
    if c.kind != "ret":
        return
    i, fs = oracle.variant(c, c.val)
    if i == 0 and fs[0][0] == "a":
        a, b = (c.segs(x) for x in fs[0][3])
        c.eq("parts in order", a + b if a is not None and b is not None else None, c.before(0))
    elif i == 1:
        c.eq("returned whole", c.segs(fs[0]), c.before(0))
    else:
        c.open("parts in order")


BD = "bytedata::bytedata::ByteData::<'a>::"
SD = "bytedata::stringdata::StringData::<'a>::"
SB = "bytedata::shared_bytes::SharedBytes::"
BC = "bytedata::byte_chunk::ByteChunk::"

SPECS = {
    BD + "sliced": ranged(ret), BD + "into_sliced": ranged(ret), BD + "make_sliced": ranged(self_), BD + "into_shared_range": ranged(ret),
    SD + "sliced": ranged(ret, True), SD + "into_sliced": ranged(ret, True), SD + "make_sliced": ranged(self_, True), SD + "into_shared_range": ranged(ret, True),
    SB + "sliced": ranged(ret, rng="off,len"), SB + "into_sliced": ranged(ret, rng="off,len"), SB + "make_sliced": ranged(self_, rng="off,len"),
    SB + "sliced_range": ranged(ret), SB + "into_sliced_range": ranged(ret), SB + "make_sliced_range": ranged(self_),
    BC + "sliced": ranged(ret), BC + "into_sliced": ranged(ret), BC + "make_sliced": ranged(self_),
    BD + "take_bytes": take, BD + "split_at": pair(False), SD + "split_at": pair(True),
    BD + "take_while": conserve, SD + "take_while": conserve, SD + "take_line": conserve,
    BD + "split_once_on": once, SD + "split_once_on": once,
    BD + "empty": nothing, SD + "empty": nothing, SB + "empty": nothing,
}
IDENT = set("""clone from as_slice as_ref deref borrow as_bytes as_str into_bytedata as_bytedata into_shared from_slice from_slice_aligned from_borrowed from_static from_owned
from_cow from_cow_static from_shared from_chunk_slice from_chunk from_array from_byte try_from try_from_shared try_from_bytedata from_bytedata_unchecked from_str build_str build
into_shared_bytes_builder statically_borrowed to_mut as_borrowed from_external as_slice_mut as_mut deref_mut""".split())
MODS = re.compile(r"bytedata::(bytedata|stringdata|shared_bytes|byte_chunk|shared_bytes_builder|shared_str_builder)::")


def spec_of(F, f):
    p = f["p"]
    if p in SPECS:
        return SPECS[p]
    last = p.rsplit("::", 1)[-1]
    if not MODS.search(p) or "Arbitrary" in p or "queue" in (f.get("sig") or "") or "{" in p:
        return None
    if re.search(r"::Index<", p) and last == "index" and "usize>>" in p.replace(" ", "") and not p.endswith("Index<usize>>::index") or p.endswith("Index<std::ops::RangeFull>>::index"):
        return ranged(ret)
    if last in IDENT and f["argc"] == 1 or last == "from_slice_aligned":
        return ident
    if last == "len" and f["argc"] == 1:
        return length
    if last == "is_empty" and f["argc"] == 1:
        return empty_q
    return None


def setup(E):
    repm.Rep(E.F).install(E)


def reducer(f, E, _):
    return oracle.run(f, E, spec_of(E.F, f))


def run(rep):
    F = prep.facts("full")
    ps = []
    for p, f in F.fns.items():
        if f["local"] and f.get("reach") and f.get("blocks") and spec_of(F, f) and not p.startswith("bytedata::test"):
            ps.append(p)
    for p in SPECS:
        rep.anchor(p in F.fns, p)
    for p, status, why, out in runall.run_with(F, sorted(ps), reducer, setup, secs=100):
        f = F.fns[p]
        rep.count("functions")
        if status != "ok":
            rep.open("content %s" % p, f["span"], "%s: %s" % (status, why))
            continue
        n, marks = out
        rep.count("paths", n)
        for k, (s, w) in marks.items():
            key = "content %s: %s" % (p, k)
            rep.ob(key, {"ok": "ok", "open": "undecided", "fail": "fail"}[s], f["span"], w)
    rep.assume.append("byte values satisfy the invariants of their representation on entry (a shared value lies inside its block); lengths fit isize")
