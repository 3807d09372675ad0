"""Rules over single abstract paths in representation mode: reference accounting, extents, layouts, tags, copying."""
import collections, re
from lin import Lin, consistent
from absint import Unsupported, Budget, INT
import content, models, oracle, runall, rep as repm
from rep import BD, SB, SBB, META

EXT = "bytedata::external::ExtBytes"
WRAP = "bytedata::external::ExtBytesWrapper"
MEMRE = re.compile(r"mem:(.*)\[0\]:(%s|%s)$" % (re.escape(META), re.escape(WRAP)))


def entries(F, pred=None):
    """Functions a client can cause to run: public ones and methods of trait implementations."""
    out = []
    for p in runall.roots(F):
        f = F.fns[p]
        if (f.get("reach") or METHOD.match(p)) and "Arbitrary" not in p and not p.endswith("}") and (pred is None or pred(p)):
            out.append(p)
    return sorted(out)


METHOD = re.compile(r"^<.* as .*>::\w+$")


class Path(oracle.Ctx):
    """One returning or panicking path of a function, with what was handed in."""

    def tdef(self, tid):
        return self.E.F.types[self.E.strip(tid)].get("def", "") if tid is not None else ""

    # ---- walking values
    def leaves(self, st, v, refs, visit, depth=0):
        """Calls visit(v) on every owned handle-like value inside v; follows references only when refs is set."""
        if depth > 8 or not isinstance(v, tuple) or not v:
            return
        k = v[0]
        if k == "u" and self.tdef(v[1]) == BD:
            visit(v)
            if v[2] >= 2:
                self.leaves(st, v[3], refs, visit, depth + 1)
        elif k == "u":
            self.leaves(st, v[3], refs, visit, depth + 1)
        elif k == "a":
            d = self.tdef(v[1])
            if d in (SB, SBB, EXT, "bytes::Bytes"):
                visit(v)
                return
            for x in v[3]:
                self.leaves(st, x, refs, visit, depth + 1)
        elif k == "s":
            if v[2] is not None:
                t = self.E.F.types[self.E.strip(v[2])]
                if t["k"] == "adt" and self.E.needs_drop(self.E.strip(v[2])) and t.get("def", "").startswith("bytedata::"):
                    visit(v)
        elif k == "r" and refs and v[1][0] == "c":
            try:
                x = self.E.read(st, v[1])
            except (Unsupported, KeyError):
                return
            self.leaves(st, x, refs, visit, depth + 1)

    def field(self, v, name):
        for f, y in zip(self.E.F.types[v[1]]["variants"][0]["f"], v[3]):
            if f["n"] == name:
                return y
        return None

    def shared_base(self, st, v):
        """Block a SharedBytes value keeps alive: base name, None for none, '?' when unknown."""
        ad = self.field(v, "dat_addr")
        if ad is None or ad[0] != "i":
            return "?"
        if st.eq_holds(ad[1], 0):
            return None
        p = self.E.rep.addr_ptr(self.E, ad[1])
        if not (p[2].const and p[2].c == 0):
            return "?"
        return p[1]

    def ext_wrapper(self, st, v):
        E = self.E
        for y in v[3]:
            if y[0] in ("p", "r"):
                try:
                    x = E.read(st, E.deref(st, y, E.rep.extref(E)))
                except (Unsupported, KeyError):
                    return "?", "?"
                if x[0] != "a":
                    return "?", "?"
                d = self.field(x, "data")
                box = y[1][1] if y[0] == "r" else y[1]
                if d is None or d[0] not in ("p",):
                    return "?", str(box)
                return d[1], str(box)
        return "?", "?"

    def bytes_key(self, st, v):
        d = self.field(v, "data")
        out = []

        def w(x):
            if isinstance(x, tuple) and x:
                if x[0] == "p":
                    out.append(x[1])
                elif x[0] == "a":
                    for y in x[3]:
                        w(y)
                elif x[0] == "s":
                    out.append("?" + x[1])
        w(d)
        return out[0] if out else None

    def handles(self, st, v, refs, cnt, vis=None):
        def visit(x):
            if x[0] == "s":
                cnt["O", x[1]] += 1
                return
            if x[0] == "u":
                return
            d = self.tdef(x[1])
            if d == SB:
                b = self.shared_base(st, x)
                if b is not None:
                    cnt["S", b] += 1
            elif d == SBB:
                p = self.field(x, "dat")
                if p[0] in ("p", "v"):
                    cnt["S", p[1]] += 1
                elif p[0] != "null":
                    cnt["S", "?"] += 1
            elif d == EXT:
                w, box = self.ext_wrapper(st, x)
                cnt["S", w] += 1
            elif d == "bytes::Bytes":
                b = self.bytes_key(st, x)
                if b is not None and not b.startswith("?"):
                    cnt["S", b] += 1
                elif b is not None:
                    cnt["O", "bytes " + b] += 1
        self.leaves(st, v, refs, visit)

    def args_refs(self):
        return [a for a in self.args0 if a[0] == "r"]

    def maybe_null(self, st, b):
        """Whether the block named b may be no block at all (address 0)."""
        ad = self.E.bases.get(b, {}).get("addr")
        return ad is not None and not st.le_holds(1 - ad)


def c02(c):
    """Handles in plus increments equal handles out plus decrements, per block."""
    if c.kind == "ret":
        balance(c)
    elif c.E.unwinding:
        balance(c, lossy=True)


def balance(c, lossy=False):
    """With lossy set, handles may have been lost, but none may remain or have been given up that was not there."""
    E, st = c.E, c.st
    have = collections.Counter()
    for a in c.args0:
        c.handles(c.st0, a, True, have)
    out = collections.Counter()
    isdrop = c.fn["p"].endswith(" as std::ops::Drop>::drop")
    for i, a in enumerate(c.args0):
        if a[0] == "r" and not (isdrop and i == 0):
            c.handles(st, a, True, out)
    if c.val:
        c.handles(st, c.val, False, out)
    inc, dec, freed, fresh, alias, leak = (collections.Counter() for _ in range(6))
    unknown = None
    moved = {}
    for e in st.events():
        if e[0] == "atomic":
            op, (key, fld), amt = e[1], e[2], e[3]
            m = re.search(r"'(mem:.*)', \(", key)
            mm = MEMRE.match(m.group(1)) if m else None
            if mm is None:
                continue
            b = mm.group(1)
            if op == "fetch_add":
                inc[b] += amt.c if isinstance(amt, Lin) and amt.const else amt if isinstance(amt, int) else 1
            elif op == "fetch_sub":
                dec[b] += amt.c if isinstance(amt, Lin) and amt.const else amt if isinstance(amt, int) else 1
            elif op != "load":
                unknown = "counter updated by " + op
        elif e[0] == "alloc":
            fresh[e[1]] += 1
        elif e[0] == "realloc":
            moved[e[5]] = e[1]
        elif e[0] == "dealloc":
            freed[e[1]] += 1
        elif e[0] == "drop":
            d = collections.Counter()
            c.handles(st, e[2], False, d)
            for k, n in d.items():
                if k[0] == "S":
                    dec[k[1]] += n
                else:
                    out[k] += n
        elif e[0] in ("indirect", "callopaque", "call"):
            d = collections.Counter()
            for x in e[2]:
                c.handles(st, x, False, d)
            if d:
                unknown = "handles passed to %s" % str(e[1])[:80]

    def root(b):
        while b in moved:
            b = moved[b]
        return b

    keys = {root(k[1]) for k in list(have) + list(out) if k[0] == "S"} | {root(b) for b in list(inc) + list(dec) + list(freed)} | {root(b) for b in fresh}

    def tot(cn, b, pre=True):
        return sum(n for k, n in cn.items() if (k[1] if pre else k) and (k[0] == "S" if pre else True) and root(k[1] if pre else k) == b)

    open_ = any(k[0] == "O" and have[k] != out[k] for k in set(have) | set(out)) or unknown
    for b in sorted(keys):
        if b == "?" or "?" in b or "φ" in b or "~" in b and not b.startswith("heap~") and not b.startswith("realloc"):
            c.open("references balanced", "block not tracked")
            continue
        i = tot(have, b) + tot(inc, b, False) + tot(fresh, b, False)
        o = tot(out, b) + tot(dec, b, False)
        f = tot(freed, b, False)
        if lossy and (i >= o and not f or f == 1 and i >= o and tot(out, b) == 0):
            c.ok("references balanced")
            continue
        if i == o and not f or f and (i == o or i == o + 1) and tot(out, b) == 0:
            c.ok("references balanced")
            continue
        s = st
        if c.maybe_null(st, b):
            s = st.fork()
            s.add_le(1 - E.bases[b]["addr"])
        if open_:
            c.open("references balanced", str(unknown or "opaque values move"))
        else:
            c.never("references balanced", s, "block %s: %d handles in + %d added + %d new, %d handles out + %d given up, freed %d times" % (
                b, tot(have, b), tot(inc, b, False), tot(fresh, b, False), tot(out, b), tot(dec, b, False), f))


def exact_le(c, what, l, why, ok=True):
    """Obligation l <= 0 on this path."""
    st = c.st
    if st.le_holds(l):
        if ok:
            c.ok(what)
        return
    s = st.fork()
    s.add_le(1 - l)
    if content.precise(l) and oracle.settled(st, [1 - l]):
        c.marks.append(("fail", what, "%s [%s]" % (why, c.path(st))))
    elif not oracle.feasible(s):
        c.ok(what)
    else:
        c.marks.append(("open", what, why))


def exact_eq(c, what, a, b, why):
    st = c.st
    a, b = Lin.of(a), Lin.of(b)
    if st.eq_holds(a, b):
        c.ok(what)
    elif content.precise(a) and content.precise(b) and oracle.settled(st):
        c.marks.append(("fail", what, "%s: %s instead of %s [%s]" % (why, a, b, c.path(st))))
    else:
        c.marks.append(("open", what, "%s: %s vs %s" % (why, a, b)))


def within(c, what, base, off, n, mut, caps=None):
    """[off, off+n) lies inside the region."""
    E = c.E
    b = E.bases.get(base)
    if caps and base in caps:
        if None in caps[base]:
            return c.open(what, "capacity of %s unknown" % base)
        if any(c.st.le_holds(Lin.of(off) + Lin.of(n) - Lin.of(x)) for x in caps[base]):
            return c.ok(what)
        if len(caps[base]) == 1:
            b = dict(b, extent=Lin.of(caps[base][0]))
        else:
            return c.open(what, "capacity of %s not decided" % base)
    n, off = Lin.of(n), Lin.of(off)
    if c.st.le_holds(n):
        return c.ok(what)
    if base == "null" or base == "dangling":
        return exact_le(c, what, n, "%s bytes at an address that holds none" % n)
    if b is None or b.get("extent") is None:
        return c.open(what, "extent of %s unknown" % base)
    if "?" in base or "φ" in base:
        return c.open(what, "region %s not tracked" % base)
    exact_le(c, what, off + n - b["extent"], "bytes up to %s of a region of %s" % (off + n, b["extent"]))
    exact_le(c, what, Lin.of(b.get("lo", 0)) - off, "bytes from %s before the region" % off)
    if mut and b.get("ro"):
        c.never(what, None, "mutable access to read-only bytes")


def c04(c):
    caps = collections.defaultdict(list)
    for e in c.st.events():
        if e[0] == "cap":
            caps[e[1]].append(e[2])
        elif e[0] == "set-len":
            within(c, "length set within capacity", e[1], Lin(0), e[2], True, caps)
        elif e[0] == "rawview":
            v = e[1]
            within(c, "view in bounds", v[1], v[2], v[3], e[2], caps)
        elif e[0] == "copy":
            within(c, "copy source in bounds", e[1], e[2], e[5], False, caps)
            within(c, "copy target in bounds", e[3], e[4], e[5], True, caps)
        elif e[0] == "fill":
            within(c, "fill in bounds", e[1], e[2], e[3], True, caps)
        elif e[0] == "write":
            try:
                n = c.E.size_of(c.E.strip(e[3]))
            except (Unsupported, KeyError, TypeError):
                n = None
            if n is None:
                c.open("write in bounds", "size unknown")
            else:
                within(c, "write in bounds", e[1], e[2], n, True, caps)
    if c.kind == "ret":
        for v in [c.val] + [a for a in c.args0 if a[0] == "r"]:
            def visit(x):
                region(c, x)
            if v:
                c.leaves(c.st, v, True, visit)


def region(c, x):
    """A byte value handed out stands for bytes inside its region."""
    if x[0] == "s" or x[0] == "u" and x[2] >= 2 or x[0] == "a" and c.tdef(x[1]) == SBB:
        return
    sg = c.segs(x)
    if sg is None:
        return c.open("result in bounds", "not tracked")
    if x[0] == "u" and x[2] == 0:
        n = content.total(sg)
        return exact_le(c, "result in bounds", n - 14, "an inline value of %s bytes" % n)
    if x[0] == "u" and x[2] == 1:
        p = next((y for y in x[3][3] if y[0] in ("p", "v")), None)
        n = content.total(sg)
        if p is not None:
            within(c, "result in bounds", p[1], p[2], n, False)
    if x[0] == "a" and c.tdef(x[1]) == SB:
        b = c.shared_base(c.st, x)
        n, off = c.field(x, "len"), c.field(x, "off")
        if b not in (None, "?") and n[0] == "i" and off[0] == "i":
            within(c, "result in bounds", b, off[1], n[1], False)


def c13(c):
    E, st = c.E, c.st
    for e in st.events():
        if e[0] == "union-mismatch":
            c.never("read as what it holds", None, "member %d read from a value holding member %d" % (e[2], e[1]))
    txt = None
    outs = ([c.val] if c.val else []) + [a for a in c.args0 if a[0] == "r"] if c.kind == "ret" else []
    for v in outs:
        def visit(x):
            if x[0] == "a" and c.tdef(x[1]) == SBB:
                al = c.field(x, "align")
                if al[0] == "i":
                    exact_le(c, "blocks leave room for the tag", 4 - al[1], "a builder with alignment %s" % al[1])
                return
            if x[0] != "u":
                return
            tg = E.rep.tag(E, st, x)
            if tg is None:
                return c.open("tag says what is held", "tag not tracked")
            if not tg.const:
                return c.open("tag says what is held", "tag %s" % tg)
            t = tg.c & 15
            good = {0: t == 7, 1: t == 15, 2: t & 3 == 0, 3: t == 3}[x[2]]
            if good:
                c.ok("tag says what is held")
            else:
                c.never("tag says what is held", None, "tag %d on a value holding member %d" % (tg.c, x[2]))
            if x[2] == 1 and x[3][0] == "a":
                static_flag(c, x, tg.c)
        c.leaves(st, v, True, visit)
    if not c.marks:
        c.ok("read as what it holds")


def static_flag(c, x, tg):
    p = next((y for y in x[3][3] if y[0] in ("p", "v")), None)
    if p is None:
        return
    b = p[1]
    sg = c.segs(x)
    if b.endswith(".static"):
        # a static slice cut to nothing may point anywhere
        if tg & 128:
            c.ok("static flag kept")
        elif sg is not None and c.st.le_holds(content.total(sg)):
            pass
        else:
            c.never("static flag kept", None, "a part of static data is no longer marked static")
    elif "'static" in (c.fn.get("sig") or "") + c.fn["p"]:
        c.ok("static flag not invented")
    elif tg & 128 and (b.endswith(".data") and "kind:" + b[:-5] in c.st0.vars):
        if sg is not None and c.st.le_holds(content.total(sg)):
            return
        c.never("static flag not invented", None, "borrowed data is marked static")
    elif tg & 128 and b in [a[1] for a in c.args0 if a[0] == "v"]:
        c.never("static flag not invented", None, "borrowed data is marked static")
    elif b.startswith("const:") or tg & 128:
        c.ok("static flag not invented")


def meta_of(c, b, d):
    try:
        v = c.E.read(c.st, ("c", "mem:%s[0]:%s" % (b, d), ()))
    except (Unsupported, KeyError):
        return None
    if v[0] != "a":
        return None
    return v


def c03(c):
    E, st = c.E, c.st
    blocks = {}
    # layouts of blocks handed in
    for a in c.args0:
        def visit(x):
            if x[0] == "a" and c.tdef(x[1]) == SBB:
                p, n, al = c.field(x, "dat"), c.field(x, "len"), c.field(x, "align")
                if p[0] in ("p", "v") and n[0] == "i" and al[0] == "i":
                    blocks[p[1]] = (n[1], al[1])
        c.leaves(c.st0, a, True, visit)
    for e in st.events():
        if e[0] == "alloc":
            blocks[e[1]] = (e[2], e[3])
            grown(c, e[2])
        elif e[0] in ("dealloc", "realloc"):
            b, o, sz, al = e[1:5]
            exact_eq(c, "released from its start", o, 0, "released at an offset")
            want = blocks.get(b)
            if want is None:
                want = header_layout(c, b)
            if want is None:
                c.open("released with its layout", "layout of %s unknown" % b)
            else:
                if want[0] is not None:
                    exact_eq(c, "released with its size", sz, want[0], "size given to the allocator")
                if want[1] is not None:
                    exact_eq(c, "released with its alignment", al, want[1], "alignment given to the allocator")
            if e[0] == "realloc":
                blocks[e[5]] = (e[6], al)
                grown(c, e[6])
    if c.kind != "ret":
        return
    seen = set()
    for v in ([c.val] if c.val else []) + [a for a in c.args0 if a[0] == "r" and not (c.fn["p"].endswith("Drop>::drop"))]:
        def visit(x):
            if x[0] == "a" and c.tdef(x[1]) == SB:
                b = c.shared_base(st, x)
                if b in blocks and b not in seen:
                    seen.add(b)
                    built(c, x, b, blocks[b])
            elif x[0] == "a" and c.tdef(x[1]) == SBB:
                p, n, al, off = (c.field(x, k) for k in ("dat", "len", "align", "off"))
                if p[0] == "null":
                    return
                if p[0] in ("p", "v") and p[1] in blocks and n[0] == al[0] == "i":
                    exact_eq(c, "builder records its layout", n[1], blocks[p[1]][0], "recorded size")
                    exact_eq(c, "builder records its layout", al[1], blocks[p[1]][1], "recorded alignment")
                    if off[0] == "i":
                        exact_le(c, "builder stays inside its block", off[1] - n[1], "fill mark %s beyond a block of %s" % (off[1], n[1]))
                elif p[0] in ("p", "v"):
                    h = header_layout(c, p[1])
                    if h is not None and n[0] == al[0] == "i":
                        exact_eq(c, "builder records its layout", n[1], h[0], "recorded size")
                        exact_eq(c, "builder records its layout", al[1], h[1], "recorded alignment")
                    else:
                        c.open("builder records its layout", p[1])
            elif x[0] == "a" and c.tdef(x[1]) == EXT:
                w, _ = c.ext_wrapper(st, x)
                if w in blocks:
                    m = meta_of(c, w, WRAP)
                    if m is None:
                        return c.open("header records the layout", "not tracked")
                    a, al = c.field(m, "alloc"), c.field(m, "align")
                    if a[0] == "i" and al[0] == "i":
                        exact_eq(c, "header records the layout", a[1], blocks[w][0], "recorded size")
                        exact_eq(c, "header records the layout", al[1], blocks[w][1], "recorded alignment")
                    else:
                        c.open("header records the layout", "not tracked")
        c.leaves(st, v, True, visit)


def grown(c, sz):
    """A size asked from the allocator did not wrap around."""
    if any("?wrap" in s for s in sz.syms()):
        c.open("size does not wrap", str(sz))


def header_layout(c, b):
    """Layout recorded in the header of a block handed in."""
    E, st = c.E, c.st
    mb = "mem:%s[0]:%s" % (b, META)
    if E.bases.get(b, {}).get("shared"):
        ln, info = Lin.sym(mb + ".len"), Lin.sym(mb + ".info")
        for k in (0, 1):
            if st.eq_holds(info, k):
                return ln, Lin(4 << k)
        return ln, Lin.sym("shl(4,%s)" % info)
    wb = "mem:%s[0]:%s" % (b, WRAP)
    if b.endswith("ExtBytesRef.data"):
        return Lin.sym(wb + ".alloc"), Lin.sym(wb + ".align")
    return None


def built(c, x, b, lay):
    """A shared value over a block allocated or grown here: the header records the layout and the bytes are aligned."""
    m = meta_of(c, b, META)
    if m is None:
        return c.open("header records the layout", "header of %s not tracked" % b)
    ln, info = c.field(m, "len"), c.field(m, "info")
    if ln is None or ln[0] != "i":
        return c.open("header records the layout", "not tracked")
    exact_eq(c, "header records the layout", ln[1], lay[0], "recorded size")
    if info is not None and info[0] == "i":
        al = None
        if info[1].const:
            al = Lin(4 << info[1].c)
        else:
            al = Lin.sym("shl(4,%s)" % info[1])
            src = c.E.logof.get(str(info[1]))
            if src is not None and src[1] == 4 and st_ge4(c, src[0]):
                al = src[0]
        exact_eq(c, "header records the layout", al, lay[1], "recorded alignment")
    else:
        c.open("header records the layout", "alignment not tracked")
    off = c.field(x, "off")
    if off[0] == "i" and lay[1].const and off[1].const:
        if off[1].c % lay[1].c == 0:
            c.ok("bytes aligned as asked")
        else:
            c.never("bytes aligned as asked", None, "bytes at offset %s of a block aligned to %s" % (off[1], lay[1]))


def st_ge4(c, x):
    return c.st.le_holds(4 - x)


def uniq_before(c, b, i):
    """Whether the path establishes, before event i, that no other handle to block b exists."""
    for e in c.st.events()[:i]:
        if e[0] == "atomic" and "mem:%s[0]:" % b in e[2][0] and isinstance(e[5], Lin):
            if e[1] == "load" and c.st.eq_holds(e[5], 1):
                return True
            if e[1] == "fetch_sub" and c.st.eq_holds(e[5], 1):
                return True
        if e[0] == "atomic" and e[1].startswith("compare_exchange") and "mem:%s[0]:" % b in e[2][0]:
            return True
    return False


def c12(c):
    E, st = c.E, c.st
    evs = st.events()

    def need(what, b, i, why):
        if uniq_before(c, b, i):
            c.ok(what)
        elif any(e[0] in ("call", "indirect", "callopaque") for e in evs[:i]):
            c.open(what, "behind an unknown call")
        else:
            s = st
            if c.maybe_null(st, b):
                s = st.fork()
                s.add_le(1 - E.bases[b]["addr"])
            c.never(what, s, why)

    def shared(b):
        return E.bases.get(b, {}).get("shared")

    for i, e in enumerate(evs):
        if e[0] == "write" and shared(e[1]):
            need("written only when unshared", e[1], i, "shared bytes written")
        elif e[0] == "copy" and shared(e[3]) and not st.le_holds(e[5]):
            need("written only when unshared", e[3], i, "shared bytes overwritten")
        elif e[0] == "fill" and shared(e[1]) and not st.le_holds(e[3]):
            need("written only when unshared", e[1], i, "shared bytes overwritten")
        elif e[0] == "rawview" and e[2] and shared(e[1][1]) and not st.le_holds(e[1][3]):
            need("mutable only when unshared", e[1][1], i, "mutable access to shared bytes")
        elif e[0] in ("realloc", "dealloc") and shared(e[1]):
            need("resized or freed only when unshared", e[1], i, "shared block resized or freed")
        elif e[0] in ("write", "copy", "fill", "rawview"):
            b = e[1] if e[0] in ("write", "fill") else e[3] if e[0] == "copy" else e[1][1]
            if (e[0] != "rawview" or e[2]) and E.bases.get(b, {}).get("ro"):
                c.never("borrowed and external bytes are not written", None, "bytes of %s written" % b)
    if c.kind == "ret":
        for v in ([c.val] if c.val else []) + [a for a in c.args0 if a[0] == "r"]:
            def visit(x):
                if x[0] == "a" and c.tdef(x[1]) == SBB:
                    p = c.field(x, "dat")
                    if p[0] in ("p", "v") and shared(p[1]):
                        need("taken over only when unshared", p[1], len(evs), "a shared block becomes a builder's")
            c.leaves(st, v, True, visit)
    if not c.marks:
        c.ok("no write to shared bytes")


TEXT = ("bytedata::stringdata::StringData", "bytedata::shared_str_builder::SharedStrBuilder", "std::string::String", "bytedata::queue::string_queue::StringQueue")


def texts(c, st, v, tid, out, depth=0, refs=True):
    """Values inside v (of type tid) that stand for text."""
    E = c.E
    if tid is None or depth > 8 or not isinstance(v, tuple) or not v:
        return
    t = E.F.types[tid]
    d = t.get("def", "")
    if d in TEXT:
        if v[0] == "r" and v[1][0] == "c":
            try:
                v = E.read(st, v[1])
            except (Unsupported, KeyError):
                return
        out.append((d, v))
        return
    if t["k"] == "ref" or d == "std::boxed::Box":
        p = E.pointee(tid)
        if p is None:
            return
        if E.F.types[E.strip(p)]["k"] == "str":
            out.append(("str", v))
        elif refs and v[0] == "r" and v[1][0] == "c":
            try:
                x = E.read(st, v[1])
            except (Unsupported, KeyError):
                return
            texts(c, st, x, E.strip(p), out, depth + 1, refs)
        return
    if d == "std::borrow::Cow" and v[0] in ("s", "dv") and t["s"].endswith("str>"):
        nm = "vec(%s#Owned.0)" % v[1]
        E.textbase[nm] = Lin.sym(nm + ".len")
    s = E.strip(tid)
    if s != tid:
        return texts(c, st, v, s, out, depth + 1, refs)
    if v[0] == "a" and v[1] is not None and v[2] is not None:
        t = E.F.types[E.strip(v[1])] if t["k"] not in ("adt", "tuple") else t
        vs = t.get("variants")
        if vs and v[2] < len(vs):
            for f, y in zip(vs[v[2]]["f"], v[3]):
                texts(c, st, y, f["t"], out, depth + 1, refs)
        elif t["k"] == "tuple":
            for y, ft in zip(v[3], t.get("ts") or t.get("f") or []):
                texts(c, st, y, ft if isinstance(ft, int) else ft.get("t"), out, depth + 1, refs)


def text_segs(c, st, d, v):
    """Segments of a text value, or None."""
    if d.endswith("StringData") and v[0] == "a" and len(v[3]) >= 1:
        return c.segs(v[3][0], st)
    if d.endswith("SharedStrBuilder") and v[0] == "a":
        for y in v[3]:
            if y[0] == "a" and c.tdef(y[1]) == SBB:
                return c.segs(y, st)
        return None
    return c.segs(v, st)


def boundary(c, src, pos):
    """Whether pos is established to lie between characters of the text src."""
    E, st = c.E, c.st
    b, so, sn = src
    if st.eq_holds(pos, so) or st.eq_holds(pos, so + sn):
        return True
    for k, v in st.bools.items():
        if v is True and k in E.cbsym:
            kb, ko = E.cbsym[k]
            if kb == b and st.eq_holds(ko, pos):
                return True
    have = {s for l in st.facts() for s in l.syms()} | {s for l in st.ne for s in l.syms()}
    for sym in have:
        if sym not in E.elemsym:
            continue
        kb, ko = E.elemsym[sym]
        if kb != b:
            continue
        x = Lin.sym(sym)
        if st.eq_holds(ko, pos):
            s = st.fork()
            s.add_le(128 - x)
            s.add_le(x - 191)
            if not any(oracle.feasible(y) for y in split_ne(s)):
                return True
        elif st.eq_holds(ko + 1, pos) and st.le_holds(x - 127):
            return True
    return False


def split_ne(st):
    """States with the disequalities turned into orders (a few of them)."""
    out = [st]
    for l in st.ne[:6]:
        nxt = []
        for s in out:
            for k in (l + 1, 1 - l):
                y = s.fork()
                y.add_le(k)
                if consistent(y.facts()):
                    nxt.append(y)
        out = nxt
    return out


def is_text(c, what, segs, srcs, why):
    E, st = c.E, c.st
    if segs is None:
        return c.open(what, "content not tracked")
    segs = content.norm(st, segs)
    for b, o, n in segs:
        if isinstance(b, tuple) and b[0] in ("byte", "fill"):
            x = b[1]
            if not isinstance(x, Lin):
                x = Lin(int(x)) if str(x).isdigit() else None
            if x is None or not st.le_holds(x - 127):
                c.open(what, "byte %s" % (x,))
            continue
        if content.sname(b).startswith(("const:", "arr:const:")):
            continue
        cand = [s for s in srcs if s[0] == b]
        if isinstance(b, str) and b.startswith("vec(?") and why in ("String", "str") and st.eq_holds(o, 0) and n == Lin.sym(b + ".len"):
            continue  # the whole of a text value that another function returned
        if b in E.textbase:
            cand = [(b, Lin(0), E.textbase[b])]
        if cand:
            done = False
            for s in cand:
                if not (st.le_holds(s[1] - o) and st.le_holds(o + n - s[1] - s[2])):
                    continue
                if boundary(c, s, o) and boundary(c, s, o + n):
                    done = True
                    break
            if done:
                continue
            s = cand[0]
            bad = []
            for p in (o, o + n):
                if not boundary(c, s, p):
                    # the cut may be in the middle of a character
                    bad += [s[1] + 1 - p, p + 1 - s[1] - s[2]]
            if len(cand) > 1:
                c.open(what, "part of one of several texts")
            elif not content.precise(o) or not content.precise(n) or any("find~" in y or "trim" in y or "charlen~" in y for y in list(o.syms()) + list(n.syms())) and tied(o, n, s):
                c.open(what, "cut at %s and %s" % (o, o + n))
            elif oracle.settled(st, bad + [1 - n]):
                c.marks.append(("fail", what, "%s: text cut at %s..%s of %s where nothing shows a character boundary [%s]" % (why, o, o + n, content.sname(b), c.path(st))))
            else:
                s2 = st.fork()
                for l in bad + [1 - n]:
                    s2.add_le(l)
                if oracle.feasible(s2):
                    c.open(what, "cut at %s and %s" % (o, o + n))
            continue
        v = valid_views(c)
        if any(vb == b and st.eq_holds(vo, o) and st.eq_holds(vn, n) for vb, vo, vn in v):
            continue
        if content.vague(content.sname(b)) or not content.precise(o) or not content.precise(n):
            c.open(what, "bytes of %s" % content.sname(b))
        elif any(e[0] in ("indirect", "callopaque") for e in st.events()):
            c.open(what, "bytes of %s behind an unknown call" % content.sname(b))
        elif oracle.settled(st, [1 - n]):
            c.marks.append(("fail", what, "%s: bytes of %s were never established to be text [%s]" % (why, content.sname(b), c.path(st))))
        else:
            c.open(what, "bytes of %s" % content.sname(b))
    c.ok(what)


def tied(o, n, s):
    return False


def valid_views(c):
    out = []
    for e in c.st.events():
        if e[0] == "utf8-valid":
            out.append(e[1][1:])
            if e[2] is not None and len(e[2]) == 1:
                out.append(e[2][0])
    return out


def c06(c):
    """Text handed out or left behind consists of text handed in, cut between characters, or of validated bytes."""
    E, st, f = c.E, c.st, c.fn
    ins, srcs = [], []
    atys = f["locals"][1:1 + f["argc"]]
    for v, t in zip(c.args0, atys):
        texts(c, c.st0, v, t, ins)
    for d, v in ins:
        sg = text_segs(c, c.st0, d, v)
        if sg is None:
            continue
        srcs += [s for s in content.norm(c.st0, sg) if not content.kindless(s[0])]
    outs = []
    if c.kind == "ret" and c.val:
        texts(c, st, c.val, f["locals"][0], outs, refs=False)
    for v, t in zip(c.args0, atys):
        if E.F.types[t]["k"] == "ref" and E.F.types[t].get("mut"):
            texts(c, st, v, t, outs)
    for d, v in outs:
        if v[0] == "s":
            # the whole of a text value that another function returned
            c.ok("text is valid")
            continue
        is_text(c, "text is valid", text_segs(c, st, d, v), srcs, d.rsplit("::", 1)[-1])
    for e in st.events():
        if e[0] == "utf8-unchecked":
            if e[3] is not None and not any(isinstance(x[0], str) and x[0].startswith(("heap", "realloc", "atom", "?")) for x in e[3]):
                is_text(c, "bytes taken as text are text", e[3], srcs, e[2])


def run(f, E, rules, partial=True):
    """Marks per rule of one function: {rule: {clause: (status, why)}}, number of paths."""
    out = {}
    rank = {"ok": 0, "open": 1, "fail": 2}
    n = 0
    for st0, args0, outs in repm.run(E, f):
        for kind, st, val in outs:
            n += 1
            for name, rule in rules.items():
                c = Path(E, f, st0, args0, kind, st, val)
                rule(c)
                d = out.setdefault(name, {})
                for s, w, why in c.marks:
                    k = "%s %s" % (c.kinds(), w) if c.kinds() else w
                    if k not in d or rank[s] > rank[d[k][0]]:
                        d[k] = (s, why)
    return n, out


RULES = {"C06": c06, "C02": c02, "C03": c03, "C04": c04, "C12": c12, "C13": c13}


def check(rep, names, pred=None, extra=None, secs=60):
    """Run the rules over every entry point and record one obligation per function, representation and clause."""
    import prep
    F = prep.facts("full")
    if pred is None:
        pred = lambda p: "queue" not in p.lower()
    ps = entries(F, pred)
    rules = {n: RULES[n] for n in names}

    def reducer(f, E, _):
        return run(f, E, rules)

    def setup(E):
        repm.Rep(E.F).install(E)
        E.unwinding = "C02" in names

    for p, status, why, out in runall.run_with(F, ps, reducer, setup, secs=secs):
        f = F.fns[p]
        rep.count("functions")
        if status != "ok":
            rep.ob(p, "undecided", f["span"], "%s: %s" % (status, why))
            continue
        n, marks = out
        rep.count("paths", n)
        for name, d in marks.items():
            for k, (s, w) in d.items():
                if s == "fail" and name in ("C03", "C04", "C06") and f.get("unsafe"):
                    s, w = "open", "rests on the contract of an unsafe function: " + w
                rep.ob("%s: %s" % (p, k), {"ok": "ok", "open": "undecided", "fail": "fail"}[s], f["span"], w)
    return F

CARVE = re.compile(r"::(clone|sliced|sliced_range|into_sliced|into_sliced_range|make_sliced|make_sliced_range|take_bytes|split_at|take_while|take_line|"
                   r"split_once_on|trim|trim_start|trim_end|advance|as_bytedata|into_bytedata|statically_borrowed|from_borrowed|from_static|from_shared|"
                   r"from_chunk|consume|as_borrowed|next|slice|take|take_split|split_at_position\w*|from_external|build|build_str|into_iter|"
                   r"try_from_bytedata|try_from_shared|into_shared_bytes_builder|freeze|fill_buf|chunk|split_on|iter|poll_data|poll_frame|copy_to_bytes)$")
T_BD = r"bytedata::bytedata::ByteData<[^<>]*>"
T_SD = r"bytedata::stringdata::StringData<[^<>]*>"
T_SB = r"bytedata::shared_bytes::SharedBytes"
T_BUILD = r"bytedata::shared_bytes_builder::SharedBytesBuilder|bytedata::shared_str_builder::SharedStrBuilder"
# conversions (source, target) with the representations for which they are promised to keep the memory; None: all
CONVERT = [(r"&'?\w* ?\[u8\]|&'?\w* ?str", T_BD + "|" + T_SD, None), (T_SB, T_BD + "|bytes::Bytes", None), (T_SD, T_BD, None), (T_BD, T_SD, None),
           (T_BUILD, "%s|%s|%s|%s|bytes::Bytes" % (T_SB, T_BD, T_SD, T_BUILD), None), (T_SB, T_SD, None),
           (T_BD + "|" + T_SD, T_SB, ("shared",)), (T_BD + "|" + T_SD, r"bytes::Bytes", ("static", "shared")),
           (T_BD + "|" + T_SD, r"std::borrow::Cow<.*>", ("static", "slice")), (r"bytedata::byte_chunk::ByteChunk", T_BD, None)]
FROM = re.compile(r"^(?:.*::<impl|<)\s*(?:std::convert::(Try)?From<(.*)> for (.*)|(.*) as std::convert::(Try)?From<(.*)>)>::(?:try_)?from$")


def promised(p):
    """None when a function makes no promise about copying, else the representations the promise is about (() for all)."""
    m = FROM.match(p)
    if m:
        src, dst = (m.group(2), m.group(3)) if m.group(2) else (m.group(6), m.group(4))
        for a, b, kinds in CONVERT:
            if re.fullmatch(a, src) and re.fullmatch(b, dst):
                return kinds or ()
        return None
    if "into_shared" in p.rsplit("::", 1)[1] and "builder" not in p:
        return ("chunk", "static", "shared", "external") if "StringData" in p or "ByteData" in p else None
    if p.endswith("ByteData::<'a>::from_owned"):
        return ()
    if p.endswith("::copy_to_bytes"):
        return ("static", "shared")
    if CARVE.search(p):
        return ()
    return None


def c16(c):
    """No bytes are copied beyond what fits inline, nothing is allocated for bytes."""
    if c.kind != "ret":
        return
    p = c.fn["p"]
    ks = promised(p)
    kinds = set(c.kinds().split(",")) - {""} if c.kinds() else set()
    st = c.st
    if ks is not None and (not ks or not kinds or kinds <= set(ks)):
        for i, e in enumerate(st.events()):
            if e[0] == "copy":
                exact_le(c, "no copy", e[5] - 14, "%s bytes copied at %s" % (e[5], e[6]))
            elif e[0] == "alloc-copy":
                exact_le(c, "no copy", Lin.of(e[2 + 1]) - 14, "%s bytes copied at %s" % (e[3], e[5]))
            elif e[0] == "vec-extend":
                exact_le(c, "no copy", e[2] - 14, "%s bytes copied at %s" % (e[2], e[4]))
            elif e[0] in ("alloc", "realloc"):
                # the record that keeps foreign memory alive holds none of its bytes
                if e[0] == "alloc" and not re.search(r"::from_(external|owned)$", p):
                    exact_le(c, "no allocation", e[2], "%s bytes allocated at %s" % (e[2], e[4]))
        c.ok("no copy")
        c.ok("no allocation")
    untied(c)


def untied(c):
    """Values whose lifetime in the signature is not one of the arguments' do not point at borrowed bytes."""
    sig = c.fn.get("sig") or ""
    if " -> " not in sig or c.val is None:
        return
    a, r = sig.rsplit(" -> ", 1)
    ls = set(re.findall(r"(?:ByteData|StringData)<('\w+)>", r))
    own = ls - set(re.findall(r"'\w+", a)) | (ls & {"'static"})
    if not own or "'static" in a:
        return
    st = c.st

    def visit(x):
        if x[0] != "u" or x[2] != 1:
            return
        q = next((y for y in x[3][3] if y[0] in ("p", "v")), None)
        if q is None:
            return
        b = q[1]
        sg = c.segs(x)
        if sg is not None and st.le_holds(content.total(sg)):
            return
        if b.endswith(".data") and c.st0.vars.get("kind:" + b[:-5]) == "slice" or b in [y[1] for y in c.args0 if y[0] == "v"]:
            c.never("not tied to the borrow", None, "the result still points at the bytes that were borrowed (%s)" % b)
        elif b.endswith(".static") or b.startswith("const:"):
            c.ok("not tied to the borrow")
        else:
            c.open("not tied to the borrow", b)
    c.leaves(st, c.val, False, visit)
    c.ok("not tied to the borrow")


RULES["C16"] = c16
