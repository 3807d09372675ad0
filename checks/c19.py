"""C19: searches and parser adapters report true byte positions."""
import re
import iters, know, models, oracle, prep, qpaths, qspec, queues, runall
import rep as repm
from absint import Budget, Frame, Unsupported, ble, bnot
from lin import Lin
from oracle import part, settled, size, variant

RULE = (
    "A reported position lies within the data, the pattern (or an element the caller's test accepts) is there and nowhere before; nothing is reported only where every position was ruled out; "
    "prefix, suffix and containment tests say yes exactly on equal bytes. Parser adapters cut at the position the interface prescribes, return rest and taken part in that order, "
    "and the incompleteness it prescribes; what they pass on to the parser library is the whole input, as bytes or as text as the type demands."
)
FLOOR = 400
SD, BD = "bytedata::stringdata::StringData", "bytedata::bytedata::ByteData"


# ---------------------------------------------------------------- searches
def holds_at(where):
    """True exactly if the pattern is at that place."""
    def spec(c):
        if c.kind != "ret":
            return c.never("panics", None, "the test panics")
        A, B = c.before(0), c.segs(c.args0[-1], c.st0)
        if A is None or B is None or c.val[0] != "b":
            return c.open("answer", "not tracked")
        p = {"start": Lin(0), "end": size(A) - size(B), "at": c.args0[1][1] if c.args0[1][0] == "i" else None}[where]
        for s in c.st.assume(c.val[1]):
            know.found(c, "yes only where it is", s, A, p, B)
        for s in c.st.assume(bnot(c.val[1])):
            if where == "at":
                # an empty pattern is at every position up to the end
                know.absent(c, "no only where it is not", s, A, p, B)
            else:
                for s2 in s.assume(ble(size(B), size(A))):
                    know.absent(c, "no only where it is not", s2, A, p, B)
    return spec


def first(c, s, A, B, p, start, what):
    """No earlier position holds the pattern."""
    d = p - start
    if not d.const:
        if not c.short:
            return c.open(what, "distance %s" % d)
        for s1 in know.fixed(s, sorted(d.syms()), 8):
            k = know.const(s1, p)
            first(c, s1, A, B, Lin(k), Lin(know.const(s1, start)), what)
        return
    for q in range(0, min(d.c, 24)):
        know.absent(c, what, s, A, start + q, B)


def searched(c, s, v, A, B, start):
    """v: Option<position> of the pattern B in A from start on."""
    for s1, v1 in c.E.split_variants(s, v):
        if v1[2] == 1:
            p = v1[3][0]
            if p[0] != "i":
                c.open("position", "not tracked")
                continue
            know.found(c, "the pattern is there", s1, A, p[1], B)
            first(c, s1, A, B, p[1], start, "it is the first one")
        else:
            L = know.bound(s1, size(A) - start)
            if L is None:
                # a general length: the first positions stand for the rest
                L = 1
                if not s1.le_holds(size(A) - start - size(B) + 1):
                    c.open("nowhere", "length not bounded")
            for q in range(0, L + 1):
                know.absent(c, "nowhere", s1, A, start + q, B)


def found_in(hasstart):
    def spec(c):
        if c.kind != "ret":
            return c.never("panics", None, "the search panics")
        A, B = c.before(0), c.before(1)
        if A is None or B is None:
            return c.open("position", "not tracked")
        start = c.args0[2][1] if hasstart else Lin(0)
        if c.short and hasstart:
            for s in know.fixed(c.st, sorted({y for x in A for y in size([x]).syms()} | set(start.syms())), 7):
                searched(c, s, c.val, A, B, Lin(know.const(s, start)))
        # wherever it starts
        if not c.short or not hasstart or start.const:
            return searched(c, c.st, c.val, A, B, start)
        for s in c.st.assume(ble(7, start)):
            searched(c, s, c.val, A, B, start)
    return spec


def split_once(c):
    if c.kind != "ret":
        # (whether a text may be cut there is a matter of its characters)
        return None if is_text(c) else c.never("panics", None, "the search panics")
    A, B = c.before(0), c.before(1)
    if A is None or B is None:
        return c.open("parts", "not tracked")
    ok = 0 if c.E.F.types[c.val[1]]["def"].endswith("Result") else 1
    if c.val[2] == ok:
        a, b = (c.segs(x) for x in c.val[3][0][3])
        if a is None:
            return c.open("parts", "not tracked")
        p = size(a)
        know.found(c, "the pattern starts the second part", c.st, A, p, B)
        first(c, c.st, A, B, p, Lin(0), "it is the first one")
        c.eq("first part", a, part(c.st, A, Lin(0), p))
        c.eq("second part", b, part(c.st, A, p, size(A)))
    else:
        searched(c, c.st, ("a", None, 0, ()), A, B, Lin(0))
        if c.val[3]:
            c.eq("handed back", c.segs(c.val[3][0]), A)


def split_byte(c):
    A, w = c.before(0), c.args0[1]
    c.st0, B = c.st0, [(("byte", w[1]), Lin(0), Lin(1))]
    if c.kind != "ret" or A is None:
        return c.open("parts", "not tracked")
    if c.val[2] == 1:
        a, b = (c.segs(x) for x in c.val[3][0][3])
        p = size(a)
        know.found(c, "the byte starts the second part", c.st, A, p, B)
        first(c, c.st, A, B, p, Lin(0), "it is the first one")
        c.eq("first part", a, part(c.st, A, Lin(0), p))
        c.eq("second part", b, part(c.st, A, p, size(A)))
    else:
        searched(c, c.st, c.val, A, B, Lin(0))


def token(c):
    """Whether a byte occurs."""
    A, w = c.before(0), c.args0[1]
    w = value(c, w)
    if c.kind != "ret" or A is None or w[0] != "i" or c.val[0] != "b":
        return c.open("answer", "not tracked %s" % (w,))
    B = [(("byte", w[1]), Lin(0), Lin(1))]
    for s in c.st.assume(c.val[1]):
        L = know.bound(s, size(A)) or 12
        if any(know.same(c.E, s1, part(s1, A, Lin(q), Lin(q + 1)), B) == "same" for q in range(L) for s1 in s.assume(ble(q + 1, size(A)))):
            c.ok("yes only if it occurs")
        elif know.bound(s, size(A)) is not None and settled(s) and size(A).const:
            c.never("yes only if it occurs", s, "no byte was found equal")
        else:
            c.open("yes only if it occurs", "not resolved")
    for s in c.st.assume(bnot(c.val[1])):
        searched(c, s, ("a", None, 0, ()), A, B, Lin(0))


# ---------------------------------------------------------------- elements the caller's test accepts
def scan(c, s, A, chars, want=True):
    """Where the elements asked about end: ('at', position), ('none', length), ('unasked', position, state) or ('open', why)."""
    told = {}
    for nm, v in s.bools.items():
        a = c.E.cloargs.get(nm)
        if a and len(a[1]) >= 1 and a[1][-1][0] == "i":
            told.setdefault(str(a[1][-1][1]), []).append(v)
        elif a and a[1] and a[1][-1][0] == "a" and a[1][-1][3] and a[1][-1][3][-1][0] == "i":
            told.setdefault(str(a[1][-1][3][-1][1]), []).append(v)
    L = size(A)
    q = Lin(0)
    for _ in range(24):
        if s.le_holds(L - q):
            return ("none", L)
        inside = s.assume(ble(q + 1, L))
        if not inside:
            return ("none", L)
        s1 = inside[0]
        at = know.seg_at(s1, A, q)
        if at is None:
            return ("open", "position %s not resolved" % q)
        if chars:
            nm = "char(%s@%s)" % at
            k = Lin.sym("charlen(%s@%s)" % at)
        else:
            b = know.byte_at(c.E, s1, A, q)
            nm, k = str(b), Lin(1)
        v = told.get(nm)
        if v is None:
            return ("unasked", q, s1)
        if len(set(v)) > 1:
            return ("open", "asked twice")
        if not s.le_holds(q + 1 - L):
            return ("open", "asked beyond the end")
        if v[0] == want:
            return ("at", q)
        q = q + k
    return ("open", "long")


def is_text(c):
    t = c.E.F.types[c.E.strip(c.fn["locals"][1])]
    t = c.E.F.types[c.E.strip(t["t"])] if t["k"] == "ref" else t
    return t.get("def") in (SD, queues.SQ)


def scanned(c, want=True):
    A = c.before(0)
    if A is None:
        c.open("position", "not tracked")
        return None
    r = scan(c, c.st, A, is_text(c), want)
    if r[0] == "open":
        c.open("position", r[1])
        return None
    if r[0] == "unasked":
        if queues.SQ in str(c.E.F.s(c.E.strip(c.fn["locals"][1]))):
            c.open("position", "characters of several chunks")
        else:
            c.never("every element is asked about", r[2], "the element at %s is not asked about" % r[1])
        return None
    return A, r


def position(c):
    if c.kind != "ret":
        return
    x = scanned(c)
    if x is None:
        return
    A, r = x
    if r[0] == "at":
        if c.val[2] != 1:
            return c.never("position", None, "the accepted element at %s is not reported" % r[1])
        return c.num("position", c.val[3][0], r[1])
    if c.val[2] == 1:
        return c.never("position", None, "a position without an accepted element")
    c.ok("nothing accepted")


def err(c, v):
    """'Incomplete' | 'Error' | 'Failure' of Err(nom::Err)."""
    x = v[3][0]
    if x[0] != "a":
        return None
    return c.E.F.types[x[1]]["variants"][x[2]]["n"].rsplit("::", 1)[-1]


def split_position(one, complete):
    def spec(c):
        if c.kind != "ret":
            if is_text(c):
                return
            return c.never("panics", None, "the split panics")
        x = scanned(c)
        if x is None:
            return
        A, r = x
        st = c.st
        L = size(A)
        if r[0] == "at" and not (one and r[1].const and r[1].c == 0):
            parts = (r[1], "accepted element")
        elif r[0] == "at":
            parts = "Error"
        elif not complete:
            parts = "Incomplete"
        elif not one or st.le_holds(1 - L):
            parts = (L, "end")
        elif st.le_holds(L):
            parts = "Error"
        else:
            return c.open("parts", "whether the input is empty")
        if isinstance(parts, str):
            if c.val[2] == 0:
                return c.never(parts.lower(), None, "parts instead of %s" % parts)
            e = err(c, c.val)
            if e is None:
                return c.open(parts.lower(), "not tracked")
            if e != parts:
                return c.never(parts.lower(), None, "%s instead of %s" % (e, parts))
            return c.ok(parts.lower())
        if c.val[2] != 0:
            return c.never("parts", None, "no parts although there is %s" % parts[1])
        rest, taken = c.val[3][0][3]
        c.eq("rest at the %s" % parts[1], c.segs(rest), part(st, A, parts[0], L))
        c.eq("taken up to the %s" % parts[1], c.segs(taken), part(st, A, Lin(0), parts[0]))
    return spec


def take_while(c):
    if c.kind != "ret":
        if is_text(c):
            return
        return c.never("panics", None, "taking panics")
    x = scanned(c, False)
    if x is None:
        return
    A, r = x
    c.eq("taken", c.segs(c.val), part(c.st, A, Lin(0), r[1]))
    c.eq("left", c.after(0), part(c.st, A, r[1], size(A)))


# ---------------------------------------------------------------- cuts
def bad_cut(c, *ps):
    """A panic is due only where a cut is out of bounds (or within a character)."""
    if is_text(c):
        return
    A = c.before(0)
    s = [c.st]
    for p in ps:
        s = [t for x in s for t in x.assume(ble(p, size(A)))]
    for x in s:
        c.never("refused only out of bounds", x, "refused within bounds")


def take(c):
    A, k = c.before(0), c.args0[1][1]
    if A is None:
        return c.open("taken", "not tracked")
    if c.kind != "ret":
        return bad_cut(c, k)
    c.eq("taken", c.segs(c.val), part(c.st, A, Lin(0), k))


def take_split(c):
    A, k = c.before(0), c.args0[1][1]
    if A is None:
        return c.open("taken", "not tracked")
    if c.kind != "ret":
        return bad_cut(c, k)
    rest, taken = c.val[3]
    c.eq("rest comes first", c.segs(rest), part(c.st, A, k, size(A)))
    c.eq("taken comes second", c.segs(taken), part(c.st, A, Lin(0), k))


def sliced(c):
    A = c.before(0)
    v = c.args0[1]
    t = c.E.F.types[c.E.strip(c.fn["locals"][2])]["def"].rsplit("::", 1)[-1]
    if A is None or v[0] != "a" and t != "RangeFull":
        return c.open("part", "not tracked")
    fs = [x[1] for x in v[3]] if v[0] == "a" else []
    b, e = {"Range": lambda: fs, "RangeTo": lambda: (Lin(0), fs[0]), "RangeFrom": lambda: (fs[0], size(A)), "RangeFull": lambda: (Lin(0), size(A))}[t]()
    if c.kind != "ret":
        if is_text(c):
            return
        for s in c.st.assume(ble(b, e)):
            for s2 in s.assume(ble(e, size(A))):
                c.never("refused only out of bounds", s2, "refused within bounds")
        return
    c.eq("part", c.segs(c.val), part(c.st, A, b, e))


def index(c):
    A, k = c.before(0), c.args0[1][1]
    if A is None or c.kind != "ret":
        return c.open("index", "not tracked")
    if c.val[2] == 0:
        c.num("index", c.val[3][0], k)
        for s in c.st.assume(ble(size(A) + 1, k)):
            c.never("index within the input", s, "an index beyond the input")
    else:
        for s in c.st.assume(ble(k, size(A))):
            c.never("incomplete only if too short", s, "refused within the input")
        c.ok("incomplete")


def input_len(c):
    A = c.before(0)
    if A is None or c.kind != "ret":
        return c.open("length", "not tracked")
    c.num("length", c.val, size(A))


def whole(c):
    """The input itself, unchanged."""
    if c.kind != "ret":
        return c.never("panics", None, "refused")
    v = c.val
    segs = None
    while v is not None and segs is None:
        try:
            segs = c.segs(v)
        except (Unsupported, KeyError, TypeError, IndexError):
            segs = None
        if segs is None:
            v = v[3][0] if v[0] == "a" and v[3] else None
    c.eq("the whole input", segs, c.before(0))


def indices(c):
    """The items' numbers are the positions of the elements in bytes."""
    if c.kind != "ret":
        return c.never("panics", None, "refused")
    A = c.before(0)
    E = c.E
    text = is_text(c)
    ity = E.strip(c.fn["locals"][0])
    work = [(c.st, c.val, Lin(0), 0)]
    while work:
        st, it, done, n = work.pop()
        if n == (3 if not text else 2):
            continue
        loc = models.temp_loc(E, st, it, ity)
        E.budget = max(E.budget, 20000)
        for k, s, v in iters.step(E, Frame(c.fn, E.uid, [], c.fn, 0, None), st, ("r", loc, ity), ity):
            if k != "ret":
                c.open("item", k)
                continue
            for s1, v1 in E.split_variants(s, v):
                if v1[2] == 0:
                    for s2 in s1.assume(ble(done + 1, size(A))):
                        if not text:
                            c.never("every element", s2, "ends at %s of %s" % (done, size(A)))
                    continue
                i, x = v1[3][0][3]
                c.num("number of the item", i, done, s1)
                left = remaining(c, s1, loc)
                if left is None:
                    c.open("what is left", "not tracked")
                    continue
                work.append((s1, E.read(s1, loc), size(A) - size(left), n + 1))


def remaining(c, st, loc):
    v = c.E.read(st, loc)
    while v is not None:
        try:
            r = c.segs(v, st)
        except (Unsupported, KeyError, TypeError, IndexError):
            r = None
        if r is not None:
            return r
        v = v[3][0] if v[0] == "a" and v[3] else None
    return None


def compared(c):
    if c.kind != "ret":
        return c.never("panics", None, "comparing panics")
    A, B = c.before(0), c.before(1)
    if A is None or B is None:
        return c.open("answer", "not tracked")
    if c.val[0] != "a":
        return c.open("answer", "not resolved")
    n = c.E.F.types[c.val[1]]["variants"][c.val[2]]["n"].rsplit("::", 1)[-1]
    st = c.st
    if n == "Ok":
        return know.found(c, "ok", st, A, Lin(0), B)
    if n == "Incomplete":
        for s in st.assume(ble(size(B), size(A))):
            return c.never("incomplete", s, "the input is long enough")
        return know.found(c, "incomplete", st, B, Lin(0), A)
    for s in st.assume(ble(size(B), size(A))):
        know.absent(c, "error", s, A, Lin(0), B)
    for s in st.assume(ble(size(A) + 1, size(B))):
        know.absent(c, "error", s, B, Lin(0), A)


def delegated(c):
    """The parser library's own answer for the same input."""
    name = c.fn["m"] if c.fn.get("m") else c.p.rsplit("::", 1)[-1]
    if c.kind != "ret":
        return c.never("panics", None, "refused")
    A = c.before(0)
    calls = [e for e in c.st.events() if e[0] == "nom" and e[1].endswith("::" + name)]
    if len(calls) != 1 or A is None:
        return c.open("answer", "not handed to the parser library")
    _, path, args, res = calls[0]
    c.eq("the whole input is handed over", c.segs(args[0]), A)
    if is_text(c) and name in ("position", "slice_index") or name == "find_token" and "FindToken<char" in c.p + path and is_text(c):
        if "str as" not in path:
            return c.never("as text", None, "counts bytes instead of characters")
        c.ok("as text")
    for i, (a, b) in enumerate(zip(args[1:], c.args0[1:])):
        x = c.segs(a) if a[0] == "v" else None
        y = c.before(i + 1) if x is not None else None
        if x is not None:
            c.eq("the argument is handed over", x, y)
        elif a == b or b[0] in ("r", "p", "s") and value(c, b) == a:
            c.ok("the argument is handed over")
        else:
            c.open("the argument is handed over", "%s for %s" % (str(a)[:50], str(b)[:50]))
    if res in str(c.val):
        c.ok("its answer is returned")
    else:
        c.never("its answer is returned", None, str(c.val)[:60])


def value(c, x):
    """What a reference points to."""
    t = c.E.F.types[c.E.strip(c.fn["locals"][1 + c.args0.index(x)])]
    if t["k"] != "ref":
        return x
    try:
        return c.E.read(c.st0, c.E.deref(c.st0, x, t["t"]), t["t"])
    except (Unsupported, KeyError):
        return None


# ---------------------------------------------------------------- table
NOM = re.compile(r"<impl nom::(\w+)(?:<(.*?)>)? for bytedata::(?:\w+::)+(\w+)<[^>]*>>::(\w+)$")
Q = ("ByteQueue", "StringQueue")


def nom_spec(trait, arg, ty, m):
    q = ty in Q
    if trait == "Compare":
        return compared if m == "compare" else None
    if trait == "FindSubstring":
        return found_in(False) if q else delegated
    if trait == "FindToken":
        return (token if "u8" in arg else None) if q else delegated
    if trait == "InputIter":
        return {
            "position": position if q else delegated,
            "slice_index": index if ty == "ByteQueue" else delegated if not q else None,
            "iter_elements": whole,
            "iter_indices": indices,
        }.get(m)
    return {
        ("AsBytes", "as_bytes"): whole,
        ("InputLength", "input_len"): input_len if ty != "StringData" else delegated,
        ("InputTake", "take"): take,
        ("InputTake", "take_split"): take_split,
        ("InputTakeAtPosition", "split_at_position"): split_position(False, False),
        ("InputTakeAtPosition", "split_at_position1"): split_position(True, False),
        ("InputTakeAtPosition", "split_at_position_complete"): split_position(False, True),
        ("InputTakeAtPosition", "split_at_position1_complete"): split_position(True, True),
        ("Slice", "slice"): sliced,
    }.get((trait, m))


PLAIN = {
    "starts_with": holds_at("start"),
    "ends_with": holds_at("end"),
    "exists_at": holds_at("at"),
    "find_slice": found_in(False),
    "find_slice_after": found_in(True),
    "find_byte": position,
    "find_char": position,
    "take_while": take_while,
    "split_once_on": split_once,
    "const_starts_with": holds_at("start"),
    "const_ends_with": holds_at("end"),
    "const_find_bytes": found_in(False),
    "const_split_once_bytes": split_once,
    "const_split_once_str": split_once,
    "const_split_once_byte": split_byte,
}
CORE = [("starts_with", 4), ("ends_with", 4), ("find_slice", 1), ("find_slice_after", 1), ("exists_at", 1), ("find_byte", 1), ("const_find_bytes", 1), ("take_while", 3), ("compare", 16), ("find_substring", 16),
        ("find_token", 12), ("iter_indices", 4), ("iter_elements", 4), ("position", 4), ("slice_index", 3), ("input_len", 4), ("take", 4), ("take_split", 4), ("split_at_position", 4), ("split_at_position1", 4),
        ("split_at_position_complete", 4), ("split_at_position1_complete", 4), ("slice", 16)]
EXACT = ("find_slice", "find_slice_after", "find_substring", "find_byte", "position", "find_token", "const_find_bytes", "const_split_once_bytes", "const_split_once_str", "const_split_once_byte", "split_once_on",
         "starts_with", "ends_with", "const_starts_with", "const_ends_with")
SHAPES = ("-", "C", "N", "C+N", "N+N", "C+N+N", "E")


def table(F):
    out = []
    for p, f in F.fns.items():
        if not f["local"] or not f.get("blocks") or "{" in p or "::test" in p:
            continue
        m = NOM.search(p)
        if m:
            s = nom_spec(m.group(1), m.group(2) or "", m.group(3), m.group(4))
            if s:
                out.append((p, s, (), m.group(4), m.group(3) in Q))
            continue
        n = p.rsplit("::", 1)[-1]
        if n not in PLAIN or not f.get("pub") or " as " in p or "<impl" in p:
            continue
        if n.startswith("const_"):
            if p.count("::") == 1:
                out.append((p, PLAIN[n], (), n, False))
            continue
        q = "Queue" in p
        targs = tuple(qspec.range_targs(F, f, "&[u8]", "S"))
        out.append((p, PLAIN[n], targs, n, q))
    return out


def small(E, st, args, sizes):
    """Restricts the entry to short chunks and patterns."""
    for i, a in enumerate(args):
        try:
            segs = E.rep.segs(E, st, a)
        except (Unsupported, KeyError, TypeError, IndexError):
            continue
        if segs is None or a[0] == "i":
            continue
        for x in segs:
            st.add_le(Lin.of(x[2]) - (sizes[0] if i == 0 and len(segs) > 1 else sizes[1] if i == 0 else sizes[2]))


def one(job):
    F = runall._job["F"]
    p, label, shape, sizes = job
    spec, targs = runall._job["specs"][p]
    f = F.fns[p]
    E = queues.engine(F)
    q = E.rep
    if shape:
        q.shapes = (shape,)
    out, missed, n = {}, [], 0
    for st0, args0 in repm.starts(E, f, list(targs)):
        if sizes:
            st0 = st0.fork()
            small(E, st0, args0, sizes)
        E.entry_args, E.entry_state = args0, st0
        try:
            outs = qpaths.narrow(E, f, args0, st0, None, targs)
            for kind, st, val in outs:
                n += 1
                c = oracle.Ctx(E, f, st0, args0, kind, st, val)
                c.q, c.p, c.short = q, p, label == "short"
                spec(c)
                qspec.merge(out, c, qpaths.shapes_of(st0))
        except (Budget, Unsupported) as e:
            missed.append("%s: %s" % (qpaths.shapes_of(st0), str(e)[:80] or "over budget"))
    return n, out, missed, sum(E.cuts.values())


def jobs(F, tb):
    js = []
    for p, _, _, n, q in tb:
        shapes = (SHAPES if q else ("",))
        for s in shapes:
            if n in EXACT:
                k = s.count("+") + 1 + s.count("N") if s not in ("", "-", "E") else 1
                js.append((p, "short", s, (1 if k > 3 else 2, 4, 2) if q else (4, 4, 3)))
                if n in ("find_byte", "position", "starts_with", "ends_with", "find_token") or not q:
                    js.append((p, "", s, None))
            else:
                js.append((p, "", s, None))
    return js


def run(rep):
    F = prep.facts("full")
    runall._job["F"] = F
    tb = table(F)
    for n, k in CORE:
        rep.anchor(sum(1 for _, _, _, m, _ in tb if m == n) >= k, n)
    runall._job["specs"] = {p: (s, t) for p, s, t, _, _ in tb}
    js = jobs(F, tb)
    rs = [((p, lab, s), st, out) for (p, lab, s, z), st, out in runall.jobs(one, js, 60)]
    qspec.report(rep, F, rs, "search")
    rep.assume.append("searches are followed on every list shape with chunks of up to 2 (one chunk: 4) bytes and patterns of up to 2 bytes, and beyond that as far as the first rounds of the loops; chunk values behave as decided for C05; the parser library's functions on slices and texts do what it documents")
