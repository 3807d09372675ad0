"""Representation mode: byte values are enumerated by the kind they hold, with the invariants of each kind."""
import re
from lin import Lin, set_range, add_global, GLOBAL, consistent
from absint import INT, UNDEF, Engine, ISIZE_MAX, Unsupported
import models, content

BD = "bytedata::bytedata::ByteData"
SB = "bytedata::shared_bytes::SharedBytes"
SBB = "bytedata::shared_bytes_builder::SharedBytesBuilder"
BKINDS = ("new4", "new8", "new16", "heap4", "heap8", "heap16")
META = "bytedata::shared_bytes::SharedBytesMeta"
KINDS = ("chunk", "slice", "static", "shared", "external")
TAG = {"chunk": 7, "slice": 15, "static": 143, "shared": 0, "external": 3}
MEMBER = {"chunk": 0, "slice": 1, "static": 1, "shared": 2, "external": 3}


class Rep:
    shared_tag = 0

    def __init__(self, F):
        self.F = F
        self.bd = [i for i, t in enumerate(F.types) if t["k"] == "adt" and t["def"] == BD]
        t = F.types[self.bd[0]]
        self.members = [f["t"] for f in t["variants"][0]["f"]]
        self.kinds = KINDS if len(self.members) > 2 else KINDS[:3]

    def is_hole(self, E, tid):
        t = self.F.types[E.strip(tid)]
        return t["k"] == "adt" and t["def"] in (BD, SBB)

    def is_bd(self, E, tid):
        t = self.F.types[E.strip(tid)]
        return t["k"] == "adt" and t["def"] == BD

    def install(self, E, split=True):
        E.rep = self
        self.handles = {}  # block of a shared value -> its (address, length, offset)
        E.content = True
        E.maxlen = 2**55 - 1  # a slice fits the address space
        GLOBAL.clear()
        E.hooks["mat_struct"] = self.mat_struct
        E.hooks["union_cross"] = self.cross
        if split:
            E.hooks["pre_call"] = self.pre_call

    # ---- lazily materialised structs with their invariants
    def mat_struct(self, E, name, tid, t):
        d = t["def"]
        fs = t["variants"][0]["f"]
        F = self.F
        if d == SB:
            vals = {f["n"]: E.mat(name + "." + f["n"], f["t"]) for f in fs}
            ad, ln, off = (Lin.sym("%s.%s" % (name, x)) for x in ("dat_addr", "len", "off"))
            self.shared_facts(E, ad, ln, off)
            return ("a", tid, 0, tuple(vals[f["n"]] for f in fs))
        if d in ("std::string::String", "std::vec::Vec"):
            if d.endswith("Vec") and (not isinstance(t["args"][0], int) or F.s(t["args"][0]) != "u8"):
                return None
            nm = "vec(%s)" % name
            set_range(nm + ".len", 0, E.maxlen)
            E.bases.setdefault(nm, {"extent": Lin.sym(nm + ".len"), "lo": Lin(0), "owned": True})
            return ("vec", ("v", nm, Lin(0), Lin.sym(nm + ".len")))
        if d == "bytes::Bytes" and [f["n"] for f in fs] == ["ptr", "len", "data", "vtable"]:
            nm = "vec(%s)" % name
            set_range(nm + ".len", 0, E.maxlen)
            E.bases.setdefault(nm, {"extent": Lin.sym(nm + ".len"), "lo": Lin(0), "owned": True})
            return ("a", tid, 0, (("p", nm, Lin(0)), INT(Lin.sym(nm + ".len")), E.mat(name + ".data", fs[2]["t"]), ("s", name + ".vtable", E.strip(fs[3]["t"]))))
        if d == SBB and not name.startswith(("?", "φ", "transmute", "mem:")):
            E.symty[name] = tid
            return ("s", name, tid)
        if d == "bytedata::byte_chunk::ByteChunk":
            set_range(name + ".len", 0, 14)
            vals = [E.mat(name + "." + f["n"], f["t"]) for f in fs]
            return ("a", tid, 0, tuple(vals))
        if d == "bytedata::external::ExtBytes":
            vals = [E.mat(name + "." + f["n"], f["t"]) for f in fs]
            for f in fs:
                if F.types[E.strip(f["t"])]["k"] == "ptr":
                    inner = "mem:%s.%s[0]:bytedata::external::ExtBytesRef" % (name, f["n"])
                    set_range(inner + ".len", 0, ISIZE_MAX)
                    E.bases[inner + ".ptr"] = {"extent": Lin.sym(inner + ".len"), "lo": Lin(0), "ro": True}
            return ("a", tid, 0, tuple(vals))
        if d == "bytedata::external::ExtBytesRef":
            set_range(name + ".len", 0, ISIZE_MAX)
            vals = [E.mat(name + "." + f["n"], f["t"]) for f in fs]
            E.bases[name + ".ptr"] = {"extent": Lin.sym(name + ".len"), "lo": Lin(0), "ro": True}
            return ("a", tid, 0, tuple(vals))
        return None

    def shared_facts(self, E, ad, ln, off):
        base = "fromaddr(%s)" % (ad,)
        meta = "mem:%s[0]:%s.len" % (base, META)
        set_range(meta, 0, 2**32 - 1)
        m = Lin.sym(meta)
        E.bases[base] = {"extent": m, "lo": Lin(0), "shared": True, "heapin": True, "addr": ad}
        self.handles.setdefault(base, []).append((ln, off))
        add_global(ln + off - m)
        add_global(ln - ad.scale(2**32))  # no address, no bytes

    def make_builder(self, E, st, name, kind, tid):
        """A builder: align is a power of two from 4 to 512; unallocated ones hold nothing, others lie inside their block."""
        a = {"4": 4, "8": 8, "6": 16}[kind[-1]]
        if a < 16:
            al, doff = Lin(a), Lin(12 if a == 4 else 16)
        else:
            set_range(name + ".align", 16, 512)
            al = doff = Lin.sym(name + ".align")
            E.pow2.add(name + ".align")
        vals = []
        for f in self.F.types[E.strip(tid)]["variants"][0]["f"]:
            n = f["n"]
            if n == "align":
                vals.append(INT(al))
            elif kind.startswith("new"):
                vals.append(("null",) if n == "dat" else INT(doff if n == "off" else Lin(0)))
            elif n == "dat":
                E.bases[name + ".dat"] = {"extent": Lin.sym(name + ".len"), "lo": Lin(0), "nonnull": True, "heapin": True, "unique": True}
                vals.append(("p", name + ".dat", Lin(0)))
            else:
                set_range(name + "." + n, 0, 2**32 - 1)
                vals.append(INT(Lin.sym(name + "." + n)))
        if kind.startswith("heap"):
            ln, off = Lin.sym(name + ".len"), Lin.sym(name + ".off")
            st.add_le(off - ln)
            st.add_le(doff - off)
        return ("a", E.strip(tid), 0, tuple(vals))

    def make(self, E, st, name, kind, tid):
        if kind in BKINDS:
            return self.make_builder(E, st, name, kind, tid)
        i = MEMBER[kind]
        mt = self.members[i]
        F = self.F
        if kind in ("slice", "static"):
            t = F.types[E.strip(mt)]
            vals = []
            L = name + ".n"
            set_range(L, 0, E.maxlen)
            for f in t["variants"][0]["f"]:
                ft = F.types[E.strip(f["t"])]
                if ft["k"] == "int":
                    vals.append(INT(Lin.sym(L).scale(256) + TAG[kind]))
                elif ft["k"] == "ptr":
                    b = name + (".static" if kind == "static" else ".data")
                    E.bases[b] = {"extent": Lin.sym(L), "lo": Lin(0), "ro": True}
                    vals.append(("p", b, Lin(0)))
                else:
                    vals.append(E.mat(name + "." + f["n"], f["t"]))
            return ("u", tid, i, ("a", E.strip(mt), 0, tuple(vals)))
        fn = self.F.types[E.strip(tid)]["variants"][0]["f"][i]["n"]
        v = E.mat(name + "." + fn, mt)
        if kind == "chunk":
            t = F.types[E.strip(mt)]
            v = ("a", v[1], 0, tuple(INT(7) if f["n"] == "kind" else x for f, x in zip(t["variants"][0]["f"], v[3])))
        return ("u", tid, i, v)

    def tag(self, E, st, v):
        """Tag byte stored by union value v (Lin), or None."""
        if v[0] != "u":
            return None
        x = v[3]
        if v[2] == 0 and x[0] == "a":
            return x[3][0][1] if x[3][0][0] == "i" else None
        if v[2] == 1 and x[0] == "a" and x[3][0][0] == "i":
            return E.low(st, x[3][0][1], 256)
        if v[2] == 2:
            return Lin(self.shared_tag)
        if v[2] == 3 and x[0] == "a":
            m = x[3][0]
            if m[0] == "arrv" and m[2] and m[2][0][0] == "i":
                return m[2][0][1]
            return Lin(3)
        return None

    def cross(self, E, st, v, tid, i):
        """Member 0 read from a value holding another member: only the tag byte is common to all."""
        if i != 0 or not self.is_bd(E, tid):
            return None
        tg = self.tag(E, st, v)
        if tg is None:
            return None
        mt = E.strip(self.members[0])
        fs = self.F.types[mt]["variants"][0]["f"]
        return ("a", mt, 0, tuple(INT(tg) if f["n"] == "kind" else ("bad", "member 0 of a value holding member %d" % v[2]) for f in fs))

    # ---- enumeration
    def holes(self, E, st, v, out, depth=0):
        """Symbolic byte values inside v: [(name, tid)]."""
        if depth > 4:
            return
        if v[0] == "s":
            if v[2] is not None and self.is_hole(E, v[2]) and not v[1].startswith(("?", "φ")):
                out.append((v[1], v[2]))
        elif v[0] == "a":
            for x in v[3]:
                self.holes(E, st, x, out, depth + 1)
        elif v[0] == "r" and v[1][0] == "c":
            try:
                lt = E.loc_ty(st, v[1])
                if lt is None:
                    return
                t = self.F.types[E.strip(lt)]
                if t["k"] == "adt" and self.holds(t["def"]) or t["k"] == "ref":
                    self.holes(E, st, E.read(st, v[1]), out, depth + 1)
            except (Unsupported, KeyError):
                return

    def holds(self, d):
        return d.startswith(("bytedata::bytedata::", "bytedata::stringdata::", "bytedata::shared_"))

    def kinds_of(self, E, tid):
        return self.kinds if self.is_bd(E, tid) else BKINDS

    def fill(self, E, st, v, vals, depth=0):
        """v with the named holes replaced; writes through references into st."""
        if v[0] == "s" and v[1] in vals:
            return vals[v[1]]
        if v[0] == "a":
            n = tuple(self.fill(E, st, x, vals, depth + 1) for x in v[3])
            return v if all(a is b for a, b in zip(n, v[3])) else ("a", v[1], v[2], n)
        if v[0] == "r" and v[1][0] == "c" and depth < 5:
            try:
                lt = E.loc_ty(st, v[1])
                if lt is not None:
                    x = E.read(st, v[1])
                    y = self.fill(E, st, x, vals, depth + 1)
                    if y is not x:
                        E.write(st, v[1], y)
            except (Unsupported, KeyError):
                pass
        return v

    def split(self, E, st, args):
        """[(state, args)] with every symbolic byte value in the arguments given each of its kinds."""
        holes = []
        for a in args:
            self.holes(E, st, a, holes)
        holes = list(dict.fromkeys(holes))
        if not holes:
            return [(st, args)]
        res = [(st, {})]
        for nm, tid in holes:
            nxt = []
            for s, vals in res:
                cur = s.vars.get("kind:" + nm)
                for k in (sorted(cur) if cur is not None else self.kinds_of(E, tid)):
                    s2 = s.fork()
                    s2.vars = dict(s2.vars)
                    s2.vars["kind:" + nm] = frozenset([k])
                    nxt.append((s2, dict(vals, **{nm: self.make(E, s2, nm, k, E.strip(tid))})))
            res = nxt
        out = []
        for s, vals in res:
            out.append((s, [self.fill(E, s, a, vals) for a in args]))
        return out

    def aligned(self, E, st, args):
        """Metadata of a shared block handed to a function: its alignment is 4, 8 or a greater power of two."""
        out = [st]
        for a in args:
            if a[0] == "r" and a[1][0] == "c" and isinstance(a[1][1], str) and not a[1][2]:
                m = re.match(r"mem:(.*)\[0\]:%s$" % re.escape(META), a[1][1])
                if not m or m.group(1) not in self.handles:
                    continue
                info = Lin.sym(a[1][1] + ".info")
                set_range(a[1][1] + ".info", 0, 255)
                nxt = []
                for s in out:
                    if s.le_holds(info) or s.le_holds(info - 1) and s.le_holds(1 - info) or s.le_holds(2 - info):
                        nxt.append(s)
                        continue
                    big = Lin.sym("shl(4,%s)" % info)
                    set_range("shl(4,%s)" % info, 4, 2**30)
                    for lo, hi, doff in ((0, 0, Lin(12)), (1, 1, Lin(16)), (2, 28, big)):
                        s2 = s.fork()
                        s2.add_le(lo - info)
                        s2.add_le(info - hi)
                        if lo == 2:
                            s2.add_le(16 - big)
                        for ln, off in self.handles[m.group(1)]:
                            s2.add_le(doff - off)
                        if consistent(s2.facts()):
                            nxt.append(s2)
                out = nxt
        return out

    def pre_call(self, E, st, path, args, atys):
        als = self.aligned(E, st, args)
        if len(als) != 1 or als[0] is not st:
            return [x for s in als for x in self.split(E, s, args)]
        r = self.split(E, st, args)
        return None if len(r) == 1 and r[0][0] is st else r

    # ---- content of values
    def segs(self, E, st, v):
        """Bytes a value stands for: segment list or None when not tracked."""
        if v[0] == "u":
            x = v[3]
            if v[2] == 0:
                return self.segs(E, st, x[3][1]) if x[0] == "a" else None
            if v[2] == 1 and x[0] == "a":
                n = p = None
                for y in x[3]:
                    if y[0] == "i":
                        n = E.shr(st, y[1], 8, self.F.find_ty("u64"))
                    elif y[0] in ("p", "v"):
                        p = y
                    elif y[0] == "null":
                        p = ("p", "null", Lin(0))
                if n is None or p is None:
                    return None
                return content.resolve(E, st, p[1], p[2], n)
            return self.segs(E, st, x)
        if v[0] == "v":
            return content.resolve(E, st, v[1], v[2], v[3])
        if v[0] == "vec":
            return self.segs(E, st, v[1])
        if v[0] == "i":
            return [content.seg(("byte", v[1]), Lin(0), Lin(1))]
        if v[0] == "arr":
            return content.resolve(E, st, ("arr", v[1]), 0, E.array_len(E.strip(v[2])))
        if v[0] == "arrv":
            return content.resolve(E, st, ("arrv", v), 0, Lin(len(v[2])))
        if v[0] == "p" and E.bases.get(v[1], {}).get("extent") is not None and v[2].const and v[2].c == 0:
            return content.resolve(E, st, v[1], 0, E.bases[v[1]]["extent"])
        if v[0] == "s" and v[2] is not None and self.F.types[E.strip(v[2])].get("def") in ("bytes::Bytes", "bytes::BytesMut"):
            w = models.vec_view_val(type("C", (), {"e": E})(), st, v)
            return content.resolve(E, st, w[1], w[2], w[3])
        if v[0] == "r" and v[1][0] == "c":
            return self.segs(E, st, E.read(st, v[1]))
        w = models.bytes_view(E, v)
        if w is not None:
            return content.resolve(E, st, w[1], w[2], w[3])
        if v[0] == "a" and v[1] is not None:
            t = self.F.types[v[1]]
            d = t.get("def", "")
            if d == "bytedata::byte_chunk::ByteChunk":
                n = arr = None
                for f, y in zip(t["variants"][0]["f"], v[3]):
                    if y[0] == "i":
                        n = y[1]
                    else:
                        arr = y
                if n is None or arr is None:
                    return None
                if arr[0] == "arr":
                    return content.resolve(E, st, ("arr", arr[1]), 0, n)
                if arr[0] == "arrv":
                    return content.resolve(E, st, ("arrv", arr), 0, n)
                return [] if n.const and n.c == 0 else None
            if d == SB:
                vals = {f["n"]: y for f, y in zip(t["variants"][0]["f"], v[3])}
                n, off, ad = vals["len"], vals["off"], vals["dat_addr"]
                if n[0] != "i" or off[0] != "i" or ad[0] != "i":
                    return None
                if st.le_holds(n[1]):
                    return []
                p = self.addr_ptr(E, ad[1])
                return content.resolve(E, st, p[1], p[2] + off[1], n[1])
            if d == SBB:
                vals = {f["n"]: y for f, y in zip(t["variants"][0]["f"], v[3])}
                n, off, al, p = vals["len"], vals["off"], vals["align"], vals["dat"]
                if n[0] != "i" or off[0] != "i" or al[0] != "i":
                    return None
                doff = self.data_off(E, st, al[1])
                if doff is None:
                    return None
                if st.le_holds(n[1]) or st.le_holds(off[1] - doff):
                    return []
                if p[0] not in ("p", "v"):
                    return None
                return content.resolve(E, st, p[1], p[2] + doff, off[1] - doff)
            if d == "bytedata::external::ExtBytes":
                for y in v[3]:
                    if y[0] == "p" or y[0] == "r":
                        loc = E.deref(st, y, self.extref(E))
                        x = E.read(st, loc)
                        if x[0] != "a":
                            return None
                        p = n = None
                        for f, z in zip(self.F.types[E.strip(self.extref(E))]["variants"][0]["f"], x[3]):
                            if f["n"] == "ptr":
                                p = z
                            if f["n"] == "len":
                                n = z
                        if p[0] not in ("p", "v") or n[0] != "i":
                            return None
                        return content.resolve(E, st, p[1], p[2], n[1])
                return None
            if t["k"] == "adt" and t["adt"] == "struct":
                fs = [y for f, y in zip(t["variants"][0]["f"], v[3]) if self.F.types[E.strip(f["t"])].get("size") != 0]
                if len(fs) == 1:
                    return self.segs(E, st, fs[0])
            if d == "std::borrow::Cow" and len(v[3]) == 1:
                return self.segs(E, st, v[3][0])
        return None

    def data_off(self, E, st, al):
        """Where the bytes start in a block of this alignment."""
        if al.const:
            return Lin(al.c) if al.c >= 12 else Lin(-(-12 // al.c) * al.c) if al.c > 0 else None
        return al if st.le_holds(Lin(12) - al) else None

    def extref(self, E):
        return next(i for i, t in enumerate(self.F.types) if t["k"] == "adt" and t["def"] == "bytedata::external::ExtBytesRef")

    def addr_ptr(self, E, ad):
        p = E.addr_to_ptr(ad)
        if p is not None and p[0] in ("p", "v"):
            return p
        return ("p", "fromaddr(%s)" % (ad,), Lin(0))


def engine(F, budget=None, split=True):
    E = Engine(F, models.install)
    if budget:
        E.budget0 = budget
    Rep(F).install(E, split)
    return E


def starts(E, fn, targs=None):
    """Entry states of fn in representation mode: [(state, args)] (cell types are shared)."""
    hold = {}

    def pre(E_, st, args):
        hold["x"] = (st, list(args))
        raise StopIteration

    try:
        E.start(fn, targs=targs or [], pre=pre)
    except StopIteration:
        pass
    st, args = hold["x"]
    return E.rep.split(E, st, args)


def run(E, fn, targs=None):
    """Outcomes of fn per entry partition: [(entry state, entry args, [(kind, st, val)])]."""
    out = []
    for st, args in starts(E, fn, targs):
        E.budget = E.budget0
        E.entry_args = args
        E.entry_state = st
        out.append((st, args, E.run_body(fn, fn, args, st, targs or [], None)))
    return out
