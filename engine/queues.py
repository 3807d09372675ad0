"""Queue shapes: the linked structure of a queue is laid out cell by cell (every link, counter and
slot is concrete; the chunks themselves and their lengths are unknown) and the code is interpreted on it."""
from lin import Lin, set_range
from absint import BOOL, ble, bnot, INT, UNDEF, UNIT, Unsupported, Engine
import rep as repm
import iters

ROOT = "bytedata::queue::linked_root::LinkedRoot"
LEAF = "bytedata::queue::linked_node_leaf::LinkedNodeLeaf"
NODE = "bytedata::queue::linked_node_data::LinkedNodeData"
BQ = "bytedata::queue::byte_queue::ByteQueue"
SQ = "bytedata::queue::string_queue::StringQueue"
BD = repm.BD
SD = "bytedata::stringdata::StringData"


class QRep(repm.Rep):
    def install(self, E, k=(60, 6)):
        super().install(E, split=False)
        E.explicit = True
        self.kinds = ("slice",)
        E.passes = k
        E.unroll = lambda fr: E.passes
        E.hooks["drop"] = self.drop
        E.hooks["call"] = self.call
        E.hooks["cloned"] = self.cloned
        E.budget0 = 60000
        E.max_depth = 24
        F = self.F
        self.tid = {}
        for i, t in enumerate(F.types):
            if t["k"] == "adt":
                self.tid.setdefault(t["def"], i)
        self.size = E.array_len(E.strip(self.ftid(NODE, "data"))).c

    def fields(self, d):
        return self.F.types[self.tid[d]]["variants"][0]["f"]

    def ftid(self, d, f):
        return next(x["t"] for x in self.fields(d) if x["n"] == f)

    def struct(self, d, **kw):
        fs = self.fields(d)
        return ("a", self.tid[d], 0, tuple(kw[f["n"]] for f in fs))

    def get(self, v, d, f):
        i = next(i for i, x in enumerate(self.fields(d)) if x["n"] == f)
        return v[3][i]

    # ---- chunks: a view of some region; what their operations do is decided by C05
    def slice(self, E, base, off, n):
        return self.slice_of(E, ("p", base, off), n)

    def slice_of(self, E, p, n):
        mt = E.strip(self.members[1])
        t = self.F.types[mt]
        vals = []
        for f in t["variants"][0]["f"]:
            k = self.F.types[E.strip(f["t"])]["k"]
            vals.append(INT(n.scale(256) + 15) if k == "int" else p if k == "ptr" else E.mat("phantom", f["t"]))
        return ("u", E.strip(self.tid[BD]), 1, ("a", mt, 0, tuple(vals)))

    def view(self, E, st, v):
        """(base, off, len) of a chunk value held as a view."""
        if v[0] == "r" and v[1][0] == "c":
            return self.view(E, st, E.read(st, v[1]))
        if v[0] == "s" and v[2] is not None and self.is_bd(E, v[2]) and v[1].startswith("?"):
            v = super().make(E, st, v[1], "slice", self.tid[BD])
        if v[0] == "u" and v[2] == 1 and v[3][0] == "a":
            n = p = None
            for y in v[3][3]:
                if y[0] == "i":
                    n = E.shr(st, y[1], 8, self.F.find_ty("u64"))
                elif y[0] in ("p", "v"):
                    p = y
            if n is not None and p is not None:
                return p[1], p[2], n
        return None

    def shared(self, E, v):
        """(base, off, len) of a shared block."""
        if v[0] == "a" and v[1] is not None and self.F.types[v[1]].get("def") == repm.SB:
            fs = dict(zip([f["n"] for f in self.fields(repm.SB)], v[3]))
            if all(fs[k][0] == "i" for k in ("len", "off", "dat_addr")):
                p = self.addr_ptr(E, fs["dat_addr"][1])
                return p[1], p[2] + fs["off"][1], fs["len"][1]
        return None

    def cloned(self, E, fr, st, x):
        w = self.view(E, st, x) if x[0] in ("u", "s") else None
        return made(st, w[0], fr) if w is not None else st

    def call(self, E, fr, st, path, ra, args, dty, c, atys):
        import models
        if path == "bytedata::bytes_1::bytedata::<impl std::convert::From<bytedata::bytedata::ByteData<'a>> for bytes::Bytes>::from" and args[0][0] == "u":
            st = st.fork()
            st.log("chunk-drop", args[0], fr.where())
            w = self.view(E, st, args[0])
            v = models.mk_bytes(models_ctx(E, fr, path, ra, dty, c, atys), ("v",) + w) if w is not None else None
            return [("ret", st, v or E.mat(E.fresh("?bytes"), dty))]
        if path == "std::convert::Into::into":
            if args[0][0] == "a" and args[0][1] is not None and E.strip(args[0][1]) == E.strip(dty):
                return [("ret", st, args[0])]
            if self.F.types[E.strip(dty)].get("def") == BD:
                v = args[0]
                if v[0] == "u":
                    return [("ret", st, v)]
                w = self.shared(E, v)
                if w is not None:
                    return [("ret", made(st, w[0], fr), self.slice(E, *w))]
                nm = E.fresh("into")
                st = st.fork()
                st.log("callback", path, fr.where())
                v = super().make(E, st, nm, "slice", self.tid[BD])
                return [("ret", made(st, self.view(E, st, v)[0], fr), v)]
            return None
        r = iters.call(E, fr, st, path, ra, args, dty, c, atys)
        if r is not None:
            return r
        if not path.startswith(("bytedata::bytedata::ByteData::", "<bytedata::bytedata::ByteData<")):
            return None
        m = path[path.rindex("::") + 2 :]
        if path.startswith("<"):
            if m not in ("clone", "deref"):
                return None
        B = lambda st, b, o, n: [("ret", made(st, b, fr), self.slice(E, b, o, n))]
        if m == "empty":
            return B(st, "empty", Lin(0), Lin(0))
        if m in ("from_borrowed", "from_static", "from_chunk_slice"):
            v = args[0]
            return B(st, v[1], v[2], v[3]) if v[0] == "v" else None
        if m == "from_owned":
            w = models.vec_view_val(models_ctx(E, fr, path, ra, dty, c, atys), st, args[0])
            return B(st, w[1], w[2], w[3]) if w is not None else None
        if m == "from_shared":
            w = self.shared(E, args[0])
            return B(st, *w) if w is not None else None
        if m in ("len", "is_empty", "as_slice", "deref", "clone", "sliced", "make_sliced", "split_at", "into_sliced", "into_shared"):
            w = self.view(E, st, args[0])
            if w is None:
                return None
            b, o, n = w
            if args[0][0] == "u":
                # taken by value: given up once the parts exist
                st = st.fork()
                st.log("chunk-drop", args[0], fr.where())
            if m == "len":
                return [("ret", st, INT(n))]
            if m == "is_empty":
                return [("ret", st, BOOL(ble(n, 0)))]
            if m in ("as_slice", "deref"):
                return [("ret", st, ("v", b, o, n))]
            if m in ("clone", "into_shared"):
                return B(st, b, o, n)
            ctx = models_ctx(E, fr, path, ra, dty, c, atys)
            if m == "split_at":
                out = []
                k = args[1][1]
                for s in st.assume(ble(k, n)):
                    s = made(made(s, b, fr), b, fr)
                    out.append(("ret", s, ("a", E.strip(dty), 0, (self.slice(E, b, o, k), self.slice(E, b, o + k, n - k)))))
                for s in st.assume(bnot(ble(k, n))):
                    s = s.fork()
                    s.log("panic", path, fr.where())
                    out.append(("panic", s, None))
                return out
            out = []
            for s, x, y, _, _ in models.range_parts(ctx, st, args[1], n):
                ok = models.in_bounds(x, y, n)
                for s2 in s.assume(ok):
                    s2 = s2.fork()
                    v = self.slice(E, b, o + x, y - x)
                    if m == "make_sliced":
                        E.write(s2, E.deref(s2, args[0], self.tid[BD]), v)
                        v = UNIT
                    else:
                        s2 = made(s2, b, fr)
                    out.append(("ret", s2, v))
                for s2 in s.assume(bnot(ok)):
                    s2 = s2.fork()
                    s2.log("panic", path, fr.where())
                    out.append(("panic", s2, None))
            return out
        return None

    # ---- dropping: every chunk and every box is recorded
    def drop(self, E, fr, st, v, tid, loc):
        t = self.F.types[tid]
        if t["k"] != "adt":
            return None
        d = t["def"]
        if d == BD:
            st = st.fork()
            st.log("chunk-drop", v, fr.where())
            if E.dtorpanics:
                w = self.view(E, st, v)
                if w is None or w[0] not in ("empty", "nil") and not st.le_holds(w[2]):
                    E.droppanics += [s for _, s, _ in E.callerpanic(fr, st, "the destructor of a chunk", [], None)]
            return [st]
        if d == "std::boxed::Box":
            st = st.fork()
            if v[0] == "r" and v[1][0] == "c":
                if v[1][1] in freed(st):
                    st.log("double-free", v[1][1], fr.where())
                inner = E.read(st, v[1])

                def free(s):
                    s = s.fork()
                    s.log("box-free", v[1][1], fr.where())
                    return [s]
                return E.glue(st, [lambda s: E.drop_value(fr, s, inner, v[2], v[1]), free])
            st.log("drop", d, v, fr.where())
            return [st]
        if t.get("drop") and t["drop"] in self.F.fns and t["local"]:
            if loc is None or loc[0] != "c":
                import models
                loc = models.temp_loc(E, st, v, tid)

            def own(s):
                outs = []
                for k, s2, _ in E.run_fn(self.F.fns[t["drop"]], [("r", loc, tid)], s, t["args"], fr):
                    if k == "ret":
                        outs.append(s2)
                    elif E.dtorpanics:
                        E.droppanics.append(s2)
                return outs

            def field(i, f):
                l2 = ("c", loc[1], loc[2] + (i,))
                return lambda s: E.drop_value(fr, s, E.read(s, l2), E.strip(f["t"]), l2)
            return E.glue(st, [own] + [field(i, f) for i, f in enumerate(t["variants"][0]["f"])])
        return None

    # ---- unknown queues in arguments take each of the shapes
    kinds = ("slice",)
    shapes = ("-", "C", "N", "C+N", "N+N", "E")

    SHAPES = {
        "-": (0, []),  # nothing
        "C": (1, []),  # one chunk, kept apart
        "N": (0, [(14, 2)]),  # two chunks in a node, wrapping around
        "C+N": (1, [(0, 1)]),
        "N+N": (0, [(14, 1), (0, 1)]),
        "C+N+N": (1, [(13, 1), (7, 1)]),
        "E": (0, [(3, 0)]),  # a node left empty
        "C+E": (1, [(3, 0)]),
        "F": (0, [(5, 15)]),  # a full node
        "C+F": (1, [(5, 15)]),
    }

    def is_queue(self, E, tid):
        t = self.F.types[E.strip(tid)]
        return t["k"] == "adt" and t["def"] in (BQ, SQ, ROOT)

    def is_hole(self, E, tid):
        return self.is_queue(E, tid) or super().is_hole(E, tid)

    def mat_struct(self, E, name, tid, t):
        if t["def"] in (BQ, SQ, ROOT) and not name.startswith("?"):
            E.symty[name] = tid
            return ("s", name, tid)
        return super().mat_struct(E, name, tid, t)

    def holds(self, d):
        return super().holds(d) or d.startswith("bytedata::queue::")

    def kinds_of(self, E, tid):
        return self.shapes if self.is_queue(E, tid) else super().kinds_of(E, tid)

    def make(self, E, st, name, kind, tid):
        if kind in self.SHAPES:
            return self.queue(E, st, name.lstrip("*"), kind, tid)
        return super().make(E, st, name, kind, tid)

    def queue(self, E, st, name, kind, tid):
        d = self.F.types[E.strip(tid)]["def"]
        v, items = self.root(E, st, name, *self.SHAPES[kind])
        if d == ROOT:
            return v
        n = Lin(0)
        for x in items:
            n = n + self.length(E, st, x)
        v = self.struct(BQ, queue=v, remain=INT(n))
        if d == SQ:
            fs = self.fields(SQ)
            v = ("a", self.tid[SQ], 0, (v,) + tuple(UNIT for _ in fs[1:]))
        return v

    def root_of(self, v):
        """(list value, remain value or None) of a queue value."""
        t = self.F.types[v[1]] if v[0] == "a" and v[1] is not None else None
        d = t["def"] if t and t["k"] == "adt" else None
        if d == SQ:
            return self.root_of(v[3][0])
        if d == BQ:
            return self.get(v, BQ, "queue"), self.get(v, BQ, "remain")
        if d == ROOT:
            return v, None
        return None

    def segs(self, E, st, v):
        r = self.root_of(v)
        if r is not None:
            items, _, bad = self.walk(E, st, r[0])
            out = []
            for x in items:
                s = super().segs(E, st, x)
                if s is None:
                    return None
                out += s
            return out
        return super().segs(E, st, v)

    def queues_in(self, E, st, v, out, seen=(), depth=0):
        """Every queue value within v, through references: [(where, value)]."""
        if depth > 7:
            return
        if v[0] == "a":
            if self.root_of(v) is not None:
                out.append(v)
                return
            for x in v[3]:
                self.queues_in(E, st, x, out, seen, depth + 1)
        elif v[0] == "r" and v[1][0] == "c" and v[1] not in seen:
            try:
                self.queues_in(E, st, E.read(st, v[1]), out, seen + (v[1],), depth + 1)
            except (Unsupported, KeyError):
                pass

    def held(self, E, st, v, out, nodes):
        """Counts the chunks owned within a value by the region they show: {base: n}; nodes get the node cells.
        False when part of the value is not known."""
        if v is None or v[0] in ("i", "b", "v", "null", "fn", "layout", "x", "dv", "p", "r"):
            return True
        if v[0] == "u" or (v[0] == "s" and v[2] is not None and self.is_bd(E, v[2])):
            w = self.view(E, st, v)
            if w is not None:
                out[w[0]] = out.get(w[0], 0) + 1
                return True
            return v[0] == "u"
        if v[0] == "s":
            return not E.needs_drop(E.strip(v[2])) if v[2] is not None else False
        if v[0] == "a":
            t = self.F.types[v[1]] if v[1] is not None else None
            if t and t["k"] == "adt" and t["def"] == ROOT:
                items, ns, _ = self.walk(E, st, v)
                nodes += ns
                ch = self.get(v, ROOT, "chamber")
                if not items or items[0] is not ch:
                    items = [ch] + items
                return all([self.held(E, st, x, out, nodes) for x in items])
            ok = True
            for i, x in enumerate(v[3]):
                if x[0] == "r" and t and t["k"] == "adt":
                    ft = self.F.types[E.strip(t["variants"][v[2]]["f"][i]["t"])]
                    if ft["k"] == "adt" and ft["def"] == "std::boxed::Box" and x[1][0] == "c":
                        ok &= self.held(E, st, E.read(st, x[1]), out, nodes)
                        continue
                ok &= self.held(E, st, x, out, nodes)
            return ok
        if v[0] == "arrv":
            return all([self.held(E, st, x, out, nodes) for x in v[2]])
        return v[0] == "vec"

    def verdict(self, E, st, v):
        """What is wrong with a queue value: list of texts (empty when it is well formed), None when not known."""
        root, remain = self.root_of(v)
        items, nodes, bad = self.walk(E, st, root)
        bad = list(bad)
        if remain is not None:
            n = Lin(0)
            for x in items:
                k = self.length(E, st, x)
                if k is None:
                    return None
                n = n + k
            if remain[0] != "i":
                return None
            if not st.eq_holds(remain[1], n):
                bad.append("the length says %s for %s bytes" % (remain[1], n))
        return bad

    # ---- entry
    def chunk(self, E, st, name, kind="slice"):
        v = self.make(E, st, name, kind, self.tid[BD])
        st.add_le(Lin(1) - Lin.sym(name + ".n"))
        return v

    def empty(self, E, st):
        v = self.make(E, st, "nil", "slice", self.tid[BD])
        w = tuple(INT(15) if x[0] == "i" else x for x in v[3][3])
        return ("u", v[1], v[2], ("a", v[3][1], 0, w))

    def node(self, E, vals, beg):
        slots = [UNDEF] * self.size
        for i, v in enumerate(vals):
            slots[(beg + i) % self.size] = v
        return self.struct(NODE, data=("arrv", E.strip(self.ftid(NODE, "data")), tuple(slots)), beg=INT(beg), len=INT(len(vals)))

    def root(self, E, st, tag, chamber, nodes):
        """The list of one queue: (value, items).  nodes: (beg, len) of each node."""
        items = []
        n = 0

        def new():
            nonlocal n
            v = self.chunk(E, st, "%s%d" % (tag, n))
            n += 1
            items.append(v)
            return v

        ch = new() if chamber else self.empty(E, st)
        leaf = self.tid[LEAF]
        cells = ["*%s.node%d" % (tag, i) for i in range(len(nodes))]
        ptr = lambda i: ("r", ("c", cells[i], ()), leaf) if 0 <= i < len(nodes) else ("null",)
        for i, (beg, ln) in enumerate(nodes):
            E.cell_ty[cells[i]] = leaf
            vals = [new() for _ in range(ln)]
            st.cells[cells[i]] = self.struct(LEAF, data=self.node(E, vals, beg), prev=ptr(i - 1), next=ptr(i + 1))
        v = self.struct(ROOT, chamber=ch, first=ptr(0), last=ptr(len(nodes) - 1), count=INT(n))
        return v, items

    # ---- reading a shape back
    def walk(self, E, st, v):
        """(items, node cells, problems) of a list value."""
        bad = []
        items, nodes = [], []
        gone = freed(st)
        ch = self.get(v, ROOT, "chamber")
        z = self.nonempty(E, st, ch)
        if z is None:
            bad.append("the first slot may or may not hold a chunk")
        elif z:
            items.append(ch)
        p, prev = self.get(v, ROOT, "first"), None
        while p[0] == "r":
            c = p[1][1]
            if p[1][2]:
                raise Unsupported("node inside another value")
            if c in nodes:
                bad.append("the nodes form a cycle")
                return items, nodes, bad
            if c in gone:
                bad.append("a linked node has been released")
                return items, nodes, bad
            nodes.append(c)
            lf = E.read(st, p[1])
            if lf[0] != "a":
                bad.append("a linked node holds nothing")
                return items, nodes, bad
            nd = self.get(lf, LEAF, "data")
            beg, ln = self.get(nd, NODE, "beg"), self.get(nd, NODE, "len")
            beg, ln = num(st, beg), num(st, ln)
            if beg is None or ln is None:
                raise Unsupported("position in a node not known")
            if beg >= self.size or ln > self.size:
                bad.append("position out of range in a node")
                return items, nodes, bad
            arr = self.get(nd, NODE, "data")
            for i in range(ln):
                x = arr[2][(beg + i) % self.size] if arr[0] == "arrv" else UNDEF
                if x[0] == "x":
                    bad.append("a slot counted as full was never filled")
                elif self.nonempty(E, st, x) is not True:
                    bad.append("a slot holds an empty chunk")
                items.append(x)
            pv = self.get(lf, LEAF, "prev")
            if prev is None and pv[0] != "null" or prev is not None and (pv[0] != "r" or pv[1][1] != prev):
                bad.append("the backward link of a node is wrong")
            if ln == 0:
                items.append(None)
            prev = c
            p = self.get(lf, LEAF, "next")
        if p[0] != "null":
            raise Unsupported("link %r" % (p[0],))
        if None in items and len(nodes) > 1:
            bad.append("an empty node among several")
        items = [x for x in items if x is not None]
        la = self.get(v, ROOT, "last")
        if prev is None and la[0] != "null" or prev is not None and (la[0] != "r" or la[1][1] != prev):
            bad.append("the last link does not point to the last node")
        cnt = num(st, self.get(v, ROOT, "count"))
        if cnt is None:
            raise Unsupported("count not known")
        if cnt != len(items):
            bad.append("the count says %d for %d chunks" % (cnt, len(items)))
        return items, nodes, bad

    def nonempty(self, E, st, v):
        n = self.length(E, st, v)
        if n is None:
            return None
        if st.le_holds(Lin(1) - n):
            return True
        if st.le_holds(n):
            return False
        return None

    def length(self, E, st, v):
        sg = self.segs(E, st, v)
        if sg is None:
            return None
        t = Lin(0)
        for s in sg:
            t = t + s[2]
        return t




def made(st, base, fr):
    """One more handle to the chunk."""
    st = st.fork()
    st.log("chunk-new", base, fr.where())
    return st


def num(st, v):
    if v[0] != "i":
        return None
    if not v[1].t:
        return v[1].c
    return None


def freed(st):
    return {e[1] for e in st.events() if e[0] == "box-free"}


def models_ctx(E, fr, path, ra, dty, c, atys):
    import absint
    return absint.Ctx(E, fr, path, ra, dty, c, atys)


def engine(F, k=(60, 6)):
    import models
    E = Engine(F, models.install)
    QRep(F).install(E, k)
    return E
