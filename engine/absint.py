"""Abstract interpreter over the MIR facts.

Domain: a finite set (trace partitioning) of abstract states per program point.  A state maps
abstract cells to abstract values (aggregates, linear integer expressions, views into
symbolic byte regions, tagged unions ...) and carries a conjunction of linear inequalities,
variant facts and an effect log.  Calls are resolved through the type-checked program and
either modelled (std primitives), inlined, or treated as opaque.  Loops are handled by
havocking what the body may change and inferring inductive template invariants.
Nothing is executed and no solver is involved."""
import re, sys
from lin import Lin, entails, consistent, set_range, reset, RANGES
import content

sys.setrecursionlimit(20000)

USIZE_MAX = 2**64 - 1
ISIZE_MAX = 2**63 - 1

TRANSPARENT = {
    "std::mem::ManuallyDrop": 0, "std::mem::MaybeDangling": 0, "std::mem::MaybeUninit": 1, "std::cell::UnsafeCell": 0,
    "std::ptr::NonNull": 0, "std::ptr::Unique": 0, "std::boxed::Box": 0, "std::pin::Pin": 0, "std::num::Wrapping": 0,
    "std::mem::maybe_dangling::MaybeDangling": 0, "std::num::NonZero": 0,
}


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


UNDEF = ("x",)
UNIT = ("a", None, 0, ())


def INT(l):
    return ("i", Lin.of(l))


def BOOL(b):
    return ("b", b)


def bnot(b):
    if b is True:
        return False
    if b is False:
        return True
    k = b[0]
    if k == "le":
        return ("le", 1 - b[1])
    if k == "eq":
        return ("ne", b[1])
    if k == "ne":
        return ("eq", b[1])
    if k == "not":
        return b[1]
    if k == "and":
        return ("or", bnot(b[1]), bnot(b[2]))
    if k == "or":
        return ("and", bnot(b[1]), bnot(b[2]))
    return ("not", b)


def band(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return ("and", a, b)


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def ble(a, b):
    l = Lin.of(a) - Lin.of(b)
    if l.const:
        return l.c <= 0
    return ("le", l)


def beq(a, b):
    l = Lin.of(a) - Lin.of(b)
    if l.const:
        return l.c == 0
    # canonical sign
    if l.t[0][1] < 0:
        l = -l
    return ("eq", l)


class St:
    __slots__ = ("cells", "le", "ne", "bools", "vars", "ev", "ghost", "lv")

    def __init__(self):
        self.cells = {}
        self.le = ()
        self.ne = ()
        self.bools = {}
        self.vars = {}
        self.ev = None
        self.ghost = {}
        self.lv = {}

    def fork(self):
        s = St.__new__(St)
        s.cells = dict(self.cells)
        s.le = self.le
        s.ne = self.ne
        s.bools = self.bools
        s.vars = self.vars
        s.ev = self.ev
        s.ghost = dict(self.ghost)
        s.lv = self.lv
        return s

    def log(self, *e):
        self.ev = (self.ev, e)

    def events(self):
        out = []
        e = self.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    def add_le(self, l):
        if not l.const and l not in self.le:
            self.le = self.le + (l,)

    def facts(self):
        if self.ne:
            # strengthen a != 0 where one side is excluded
            keep = []
            for l in self.ne:
                if entails(self.le, l):
                    self.le = self.le + (l + 1,)
                elif entails(self.le, -l):
                    self.le = self.le + (1 - l,)
                else:
                    keep.append(l)
            self.ne = tuple(keep)
        return self.le

    def le_holds(self, l):
        l = Lin.of(l)
        if l.const:
            return l.c <= 0
        if entails(self.le, l):
            return True
        if self.ne:
            n = len(self.le)
            self.facts()
            if len(self.le) != n:
                return entails(self.le, l)
        return False

    def eq_holds(self, a, b):
        d = Lin.of(a) - Lin.of(b)
        return self.le_holds(d) and self.le_holds(-d)

    def truth(self, b):
        """True/False when decided by the facts, else None."""
        if b is True or b is False:
            return b
        k = b[0]
        if k == "le":
            if self.le_holds(b[1]):
                return True
            if self.le_holds(1 - b[1]):
                return False
            return None
        if k in ("eq", "ne"):
            l = b[1]
            r = None
            if self.le_holds(l) and self.le_holds(-l):
                r = True
            elif l in self.ne or -l in self.ne or self.le_holds(l + 1) or self.le_holds(1 - l):
                r = False
            if r is None:
                return None
            return r if k == "eq" else not r
        if k == "s":
            return self.bools.get(b[1])
        if k == "not":
            t = self.truth(b[1])
            return None if t is None else not t
        if k == "and":
            x, y = self.truth(b[1]), self.truth(b[2])
            if x is False or y is False:
                return False
            if x and y:
                return True
            return None
        if k == "or":
            return (lambda t: None if t is None else not t)(self.truth(bnot(b)))
        if k == "var":
            vs = self.vars.get(b[1])
            if vs is None:
                return None
            if b[2] not in vs:
                return False
            if len(vs) == 1:
                return True
            return None
        return None

    def assume(self, b):
        """List of states in which b holds (this state refined)."""
        if b is True:
            return [self]
        if b is False:
            return []
        k = b[0]
        if k == "le":
            if self.le_holds(b[1]):
                return [self]
            if self.le_holds(1 - b[1]):
                return []
            if not consistent(self.le, (b[1],)):
                return []
            s = self.fork()
            s.add_le(b[1])
            if s.ne:
                s.facts()
            return [s]
        if k == "eq":
            l = b[1]
            t = self.truth(b)
            if t is True:
                return [self]
            if t is False:
                return []
            if not consistent(self.le, (l, -l)):
                return []
            s = self.fork()
            s.add_le(l)
            s.add_le(-l)
            return [s]
        if k == "ne":
            l = b[1]
            t = self.truth(b)
            if t is True:
                return [self]
            if t is False:
                return []
            s = self.fork()
            if s.le_holds(l):
                s.add_le(l + 1)
            elif s.le_holds(-l):
                s.add_le(1 - l)
            else:
                s.ne = s.ne + (l,)
            return [s]
        if k == "s":
            v = self.bools.get(b[1])
            if v is not None:
                return [self] if v else []
            s = self.fork()
            s.bools = dict(s.bools)
            s.bools[b[1]] = True
            return [s]
        if k == "not":
            i = b[1]
            if i[0] == "s":
                v = self.bools.get(i[1])
                if v is not None:
                    return [] if v else [self]
                s = self.fork()
                s.bools = dict(s.bools)
                s.bools[i[1]] = False
                return [s]
            if i[0] == "var":
                vs = self.vars.get(i[1], i[3])
                n = vs - {i[2]}
                if not n:
                    return []
                s = self.fork()
                s.vars = dict(s.vars)
                s.vars[i[1]] = n
                return [s]
            raise Unsupported("not " + str(i))
        if k == "and":
            out = []
            for s in self.assume(b[1]):
                out += s.assume(b[2])
            return out
        if k == "or":
            out = self.assume(b[1])
            for s in self.assume(bnot(b[1])):
                out = out + s.assume(b[2])
            return out
        if k == "var":
            vs = self.vars.get(b[1], b[3])
            if b[2] not in vs:
                return []
            s = self.fork()
            s.vars = dict(s.vars)
            s.vars[b[1]] = frozenset([b[2]])
            return [s]
        raise Unsupported("assume " + str(b))


class Frame:
    __slots__ = ("fn", "fid", "targs", "body", "owner", "depth", "line", "up")

    def __init__(self, fn, fid, targs, body, depth, up):
        self.fn = fn
        self.fid = fid
        self.targs = targs
        self.body = body
        self.depth = depth
        self.line = 0
        self.up = up

    def where(self):
        f = self
        while f.up is not None and not f.fn.get("local"):
            f = f.up
        return "%s (%s line %s)" % (f.fn["p"], f.fn.get("span", "?").split(":")[0], f.line)

    def chain(self):
        out = []
        f = self
        while f is not None:
            out.append(f.fn["p"])
            f = f.up
        return out


def cfg_succ(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


_loops_cache = {}


def loops_of(body):
    key = id(body)
    if key in _loops_cache:
        return _loops_cache[key][1]
    blocks = body["blocks"]
    n = len(blocks)
    succ = [cfg_succ(b["t"]) for b in blocks]
    # dominators (iterative)
    order, seen = [], set()

    def dfs(r):
        st = [(r, iter(succ[r]))]
        seen.add(r)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                st.pop()

    dfs(0)
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            pred[s].append(b)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in pred[b] if p in idom]
            if not ps:
                continue
            d = ps[0]
            for p in ps[1:]:
                a = p
                while a != d:
                    while idx[a] > idx[d]:
                        a = idom[a]
                    while idx[d] > idx[a]:
                        d = idom[d]
            if idom.get(b) != d:
                idom[b] = d
                ch = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]

    loops = {}
    for b in rpo:
        for s in succ[b]:
            if dominates(s, b):
                body_set = loops.setdefault(s, {s})
                stack = [b]
                while stack:
                    x = stack.pop()
                    if x in body_set:
                        continue
                    body_set.add(x)
                    stack.extend(pred[x])
    _loops_cache[key] = (body, loops)
    return loops


FORWARD = re.compile(r"^<&(?:'\w+ )?(?:mut )?T as (?:bytes::Buf|bytes::BufMut|std::io::\w+)>::\w+$")


class Engine:
    def __init__(self, F, models=None, max_depth=14, budget=6000):
        reset()
        self.F = F
        self.models = {}
        self.rxmodels = []
        if models:
            models(self)
        self.max_depth = max_depth
        self.budget0 = budget
        self.maxlen = ISIZE_MAX
        self.budget = budget
        self.uid = 0
        self.opaque_calls = {}
        self.bases = {}  # base -> dict(extent=Lin|None, ...)
        self.obls = []
        self.mute = 0
        self.loop_recs = []
        self.no_inline = set()
        self.hooks = {}
        self.uf = {}
        self.modelled = set()
        self.inlined = set()
        self.symty = {}
        self.cell_ty = {}
        self.loop_uid = []
        self.addrof = {}
        self.explicit = False  # arrays of values are held element by element
        self.unroll = None  # fr -> (passes, passes with a decision) up to which loops are followed pass by pass
        self.progress = None  # (engine, frame, head, earlier states at the head, state, counts) -> whether to give the path up
        self.cutloops = set()  # (function, head) of these loops
        self.cuts = {}  # function -> paths given up because a loop was passed more often
        self.unwinding = False  # follow panics into cleanup blocks
        self.callpanics = False  # code supplied by the caller may panic
        self.callersites = set()
        self.droppanics = []
        self.dtorpanics = False  # destructors of chunks may panic
        self.content = False  # track what bytes regions hold
        self.arrdef = {}  # array name -> (older name, off, len, segments)
        self.arruid = 0
        self.textbase = {}  # region that is text from 0 -> its length
        self.cbsym = {}  # atom of a boundary test -> (base, off)
        self.cloargs = {}  # result of an unknown closure -> (closure, arguments)
        self.orders = False  # comparisons of bytes tell their outcomes apart
        self.ltfacts = {}  # name of a comparison -> the regions of which the first comes before the second
        self.eqfacts = {}  # name of a comparison of two regions -> their segments
        self.elemsym = {}  # symbol of a byte read -> (base, off)

        self.pow2 = set()  # symbols known to be powers of two
        self.logof = {}  # symbol -> (x, d): the base-2 logarithm of x / d

    def pinned(self, st, y):
        """y, as a constant where the facts leave only one of the smallest values."""
        for c in (0, 1, 2, 3):
            if st.le_holds(y - c):
                return Lin(c) if st.le_holds(c - y) else y
        return y

    def is_pow2(self, x, st=None):
        if x.const:
            return x.c > 0 and x.c & (x.c - 1) == 0
        if st is not None and (st.bools.get("pow2(%s)" % x) or st.bools.get("ispot(%s)" % x)):
            return True
        return x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1 and (x.t[0][0] in self.pow2 or x.t[0][0].startswith(("npot(", "shl(4,", "shl(1,", "align(")))

    # ---------------------------------------------------------------- naming
    def fresh(self, hint):
        self.uid += 1
        return "%s~%d" % (hint, self.uid)

    # ---------------------------------------------------------------- types
    def strip(self, tid):
        """Peel transparent wrappers off a type."""
        F = self.F
        while tid is not None:
            t = F.types[tid]
            if t["k"] == "adt" and t["def"] in TRANSPARENT:
                if t["def"] == "std::boxed::Box":
                    a = [x for x in t["args"] if isinstance(x, int)]
                    return F.mk_ref(a[0], True) if a else tid
                if t["def"] in ("std::ptr::NonNull", "std::ptr::Unique"):
                    a = [x for x in t["args"] if isinstance(x, int)]
                    return self.mk_ptr(a[0]) if a else tid
                a = [x for x in t["args"] if isinstance(x, int)]
                if not a:
                    return tid
                tid = a[0]
                continue
            return tid
        return tid

    def mk_ptr(self, t):
        F = self.F
        return F.new_ty({"s": "*mut " + F.s(t), "k": "ptr", "mut": True, "t": t, "needs_drop": False, "size": 8, "align": 8})

    def is_transparent(self, tid):
        t = self.F.types[tid]
        return t["k"] == "adt" and t["def"] in TRANSPARENT

    def int_range(self, tid):
        t = self.F.types[tid]
        if t["k"] == "int":
            b = t["bits"]
            if t["signed"]:
                return (-(2 ** (b - 1)), 2 ** (b - 1) - 1)
            return (0, 2**b - 1)
        if t["k"] == "char":
            return (0, 0x10FFFF)
        if t["k"] == "bool":
            return (0, 1)
        return None

    def pointee(self, tid):
        t = self.F.types[self.strip(tid)]
        if t["k"] in ("ref", "ptr"):
            return t["t"]
        return None

    def size_of(self, tid):
        return self.F.types[tid].get("size")

    def mat(self, name, tid):
        """The unknown value called `name` of type tid."""
        F = self.F
        tid = self.strip(tid)
        t = F.types[tid]
        k = t["k"]
        if k in ("int", "char"):
            lo, hi = self.int_range(tid)
            if lo == hi:
                return INT(lo)
            set_range(name, lo, hi)
            return INT(Lin.sym(name))
        if k == "bool":
            return BOOL(("s", name))
        if k in ("ref", "ptr"):
            p = F.types[self.strip(t["t"])] if t["t"] is not None else None
            if p["k"] in ("slice", "str"):
                set_range(name + ".len", 0, self.maxlen)
                if name not in self.bases:
                    self.bases[name] = {"extent": Lin.sym(name + ".len"), "lo": Lin(0)}
                if p["k"] == "str":
                    self.textbase[name] = Lin.sym(name + ".len")
                return ("v", name, Lin(0), Lin.sym(name + ".len"))
            if p["k"] == "dyn":
                return ("s", name, tid)
            if k == "ref":
                if p["k"] == "array":
                    n = self.array_len(self.strip(t["t"]))
                    if name not in self.bases:
                        self.bases[name] = {"extent": n, "lo": Lin(0)}
                    return ("p", name, Lin(0))
                if p["k"] == "int" and p["bits"] == 8:
                    if name not in self.bases:
                        self.bases[name] = {"extent": Lin(1), "lo": Lin(0)}
                    return ("p", name, Lin(0))
                self.cell_ty.setdefault("*" + name, t["t"])
                return ("r", ("c", "*" + name, ()), t["t"])
            if name not in self.bases:
                self.bases[name] = {"extent": None, "lo": None}
            return ("p", name, Lin(0))
        if k == "tuple":
            return ("a", tid, 0, tuple(self.mat("%s.%d" % (name, i), x) for i, x in enumerate(t["ts"])))
        if k == "adt" and t["adt"] == "struct":
            sp = self.hooks.get("mat_struct")
            if sp:
                r = sp(self, name, tid, t)
                if r is not None:
                    return r
            if not t["local"] and not self.expandable(t):
                self.symty[name] = tid
                return ("s", name, tid)
            return ("a", tid, 0, tuple(self.mat(name + "." + f["n"], f["t"]) for f in t["variants"][0]["f"]))
        if k == "array":
            n = self.array_len(tid)
            return ("arr", name, tid)
        if k == "never":
            return UNDEF
        self.symty[name] = tid
        return ("s", name, tid)

    EXPAND = ("std::ops::", "std::cmp::", "std::marker::", "std::iter::", "std::alloc::Layout", "std::num::", "std::mem::", "std::task::")

    def expandable(self, t):
        return t["def"].startswith(self.EXPAND)

    def array_len(self, tid):
        n = self.F.types[tid]["n"]
        m = re.search(r"\d+$", n)
        if n.isdigit():
            return Lin(int(n))
        if "/#" in n or not m:
            nm = "const(" + n + ")"
            set_range(nm, 0, ISIZE_MAX)
            return Lin.sym(nm)
        return Lin(int(m.group(0)))

    def type_of_val(self, v):
        if v[0] in ("a", "s", "u"):
            return v[1] if v[0] in ("a", "u") else v[2]
        return None

    # ---------------------------------------------------------------- values
    def variants(self, tid):
        return frozenset(range(len(self.F.types[tid]["variants"])))

    def force_variant(self, st, v, var):
        """AGG for enum value v known to be variant var."""
        if v[0] == "a":
            return v
        if v[0] == "s":
            t = self.F.types[v[2]]
            vd = t["variants"][var]
            return ("a", v[2], var, tuple(self.mat("%s#%s.%s" % (v[1], vd["n"], f["n"]), f["t"]) for f in vd["f"]))
        raise Unsupported("force_variant %r" % (v,))

    def split_variants(self, st, v):
        """[(state, AGG)] for each feasible variant of an enum value."""
        if v[0] == "a":
            return [(st, v)]
        if v[0] == "s":
            tid = v[2]
            allv = self.variants(tid)
            cur = st.vars.get(v[1], allv)
            out = []
            for i in sorted(cur):
                for s in st.assume(("var", v[1], i, allv)):
                    out.append((s, self.force_variant(s, v, i)))
            return out
        raise Unsupported("split_variants %r" % (v,))

    def field(self, st, v, tid, i):
        """Field i of value v of (stripped) type tid."""
        if v[0] == "a":
            return v[3][i] if i < len(v[3]) else UNDEF
        if v[0] == "x":
            return UNDEF
        t = self.F.types[tid]
        if v[0] == "u":
            if v[2] == i:
                return v[3]
            h = self.hooks.get("union_cross")
            if h:
                r = h(self, st, v, tid, i)
                if r is not None:
                    return r
            st.log("union-mismatch", v[2], i)
            return self.mat(self.fresh("?reinterp"), t["variants"][0]["f"][i]["t"])
        if v[0] == "s":
            if t["k"] == "adt":
                f = t["variants"][0]["f"][i]
                return self.mat(v[1] + "." + f["n"], f["t"])
            if t["k"] == "tuple":
                return self.mat("%s.%d" % (v[1], i), t["ts"][i])
            if t["k"] == "closure":
                return self.mat("%s.up%d" % (v[1], i), t["ups"][i])
        raise Unsupported("field %d of %r : %s" % (i, v, self.F.s(tid)))

    def set_field(self, st, v, tid, i, nv):
        t = self.F.types[tid]
        if t["k"] == "adt" and t["adt"] == "union":
            return ("u", tid, i, nv)
        if v[0] == "a":
            fs = list(v[3])
            while len(fs) <= i:
                fs.append(UNDEF)
            fs[i] = nv
            return ("a", v[1], v[2], tuple(fs))
        if v[0] == "x" or v[0] == "s":
            if t["k"] == "adt":
                fs = t["variants"][0]["f"]
                n = len(fs)
            elif t["k"] == "tuple":
                n = len(t["ts"])
            elif t["k"] == "closure":
                n = len(t["ups"])
            else:
                raise Unsupported("set_field on " + t["s"])
            vals = [UNDEF if v[0] == "x" else self.field(st, v, tid, j) for j in range(n)]
            vals[i] = nv
            return ("a", tid, 0, tuple(vals))
        raise Unsupported("set_field %r" % (v,))

    # ---------------------------------------------------------------- memory
    # loc: ("c", cell, proj)  proj items: int | ("d", v)
    #      ("m", base, off, tid)   element of a region
    #      ("sl", base, off, len)  unsized slice place
    def cell_get(self, st, cell, tid):
        v = st.cells.get(cell)
        if v is None:
            if isinstance(cell, str):
                if cell.startswith("*"):
                    v = self.mat(cell, tid)
                    st.cells[cell] = v
                    return v
                if cell.startswith("mem:"):
                    v = self.mat(cell, tid)
                    st.cells[cell] = v
                    return v
            return UNDEF
        return v

    def walk_read(self, st, v, tid, proj):
        F = self.F
        for p in proj:
            tid = self.strip(tid)
            if isinstance(p, tuple):
                if p[0] == "d":
                    if v[0] == "s":
                        v = self.force_variant(st, v, p[1])
                    curvar = p[1]
                    continue
                if p[0] == "e":
                    v, tid = self.elem_of(v, tid, p[1]), F.types[tid]["t"]
                    continue
                raise Unsupported("proj %r" % (p,))
            t = F.types[tid]
            if v[0] == "x":
                return UNDEF, None
            if t["k"] == "adt" and t["adt"] == "enum":
                if v[0] == "s":
                    raise Unsupported("field of unrefined enum")
                nt = t["variants"][v[2]]["f"][p]["t"] if p < len(t["variants"][v[2]]["f"]) else None
                v = v[3][p] if p < len(v[3]) else UNDEF
                tid = nt
                continue
            if t["k"] == "adt" and t["adt"] == "union":
                self.on_union_read(st, v, tid, p)
            v2 = self.field(st, v, tid, p)
            if t["k"] == "adt":
                tid = t["variants"][0]["f"][p]["t"]
            elif t["k"] == "tuple":
                tid = t["ts"][p]
            elif t["k"] == "closure":
                tid = t["ups"][p]
            v = v2
        return v, tid

    def elem_of(self, v, tid, i):
        if v[0] == "x":
            return UNDEF
        if v[0] == "arrv":
            return v[2][i]
        if v[0] == "arr":
            return self.mat("%s[%d]" % (v[1], i), self.F.types[self.strip(tid)]["t"])
        raise Unsupported("element of %r" % (v[0],))

    def on_union_read(self, st, v, tid, fld):
        h = self.hooks.get("union_read")
        if h:
            h(self, st, v, tid, fld)

    def read(self, st, loc, tid=None):
        if loc[0] == "c":
            ct = self.cell_ty.get(loc[1])
            v = self.cell_get(st, loc[1], ct)
            r, _ = self.walk_read(st, v, ct, loc[2])
            return r
        if loc[0] == "lb":
            v = self.read(st, ("c", loc[1], loc[2]))
            if v[0] == "i" and self.int_range(self.strip(loc[3]))[1] > 255:
                return INT(self.low(st, v[1], 256))
            return v
        if loc[0] == "m":
            _, base, off, et = loc
            h = self.hooks.get("mem_read")
            if h:
                r = h(self, st, loc, tid if tid is not None else et)
                if r is not None:
                    return r
            key = "mem:%s[%s]:%s" % (base, off, self.F.head(tid if tid is not None else et))
            rt = tid if tid is not None else et
            if self.content and self.is_byte(rt):
                r = content.elem(self, st, base, off, rt)
                if r is not None:
                    return r
            if key in st.cells:
                return st.cells[key]
            return self.mat(key, rt)
        raise Unsupported("read %r" % (loc,))

    def upd(self, st, v, tid, proj, nv):
        if not proj:
            return nv
        tid = self.strip(tid)
        p = proj[0]
        F = self.F
        t = F.types[tid]
        if isinstance(p, tuple):
            if p[0] == "d":
                if v[0] == "s":
                    v = self.force_variant(st, v, p[1])
                if v[0] == "x" or v[0] == "a" and v[2] != p[1]:
                    v = ("a", tid, p[1], tuple(UNDEF for _ in t["variants"][p[1]]["f"]))
                if len(proj) == 1:
                    return nv
                i = proj[1]
                ft = t["variants"][p[1]]["f"][i]["t"]
                fs = list(v[3])
                fs[i] = self.upd(st, fs[i], ft, proj[2:], nv)
                return ("a", tid, p[1], tuple(fs))
            if p[0] == "e":
                n = self.array_len(tid).c
                vals = list(v[2]) if v[0] == "arrv" else [self.elem_of(v, tid, i) for i in range(n)]
                vals[p[1]] = self.upd(st, vals[p[1]], t["t"], proj[1:], nv)
                return ("arrv", tid, tuple(vals))
            raise Unsupported("upd %r" % (p,))
        if t["k"] == "adt" and t["adt"] == "enum" and v[0] == "a":
            ft = t["variants"][v[2]]["f"][p]["t"]
            fs = list(v[3])
            fs[p] = self.upd(st, fs[p], ft, proj[1:], nv)
            return ("a", tid, v[2], tuple(fs))
        if t["k"] == "adt":
            ft = t["variants"][0]["f"][p]["t"]
        elif t["k"] == "tuple":
            ft = t["ts"][p]
        elif t["k"] == "closure":
            ft = t["ups"][p]
        else:
            raise Unsupported("upd field of " + t["s"])
        if len(proj) == 1:
            return self.set_field(st, v, tid, p, nv)
        if v[0] == "x":
            inner = UNDEF
        else:
            if t["k"] == "adt" and t["adt"] == "union":
                self.on_union_read(st, v, tid, p)
            inner = self.field(st, v, tid, p)
        return self.set_field(st, v, tid, p, self.upd(st, inner, ft, proj[1:], nv))

    def write(self, st, loc, nv):
        if loc[0] == "c":
            ct = self.cell_ty.get(loc[1])
            if not loc[2]:
                st.cells[loc[1]] = nv
                return
            v = self.cell_get(st, loc[1], ct)
            st.cells[loc[1]] = self.upd(st, v, ct, loc[2], nv)
            return
        if loc[0] == "lb":
            v = self.read(st, ("c", loc[1], loc[2]))
            if v[0] == "i" and nv[0] == "i":
                if self.int_range(self.strip(loc[3]))[1] > 255:
                    nv = INT(v[1] - self.low(st, v[1], 256) + nv[1])
                self.write(st, ("c", loc[1], loc[2]), nv)
            else:
                self.write(st, ("c", loc[1], loc[2]), UNDEF)
            return
        if loc[0] == "m":
            h = self.hooks.get("mem_write")
            if h and h(self, st, loc, nv):
                return
            _, base, off, et = loc
            key = "mem:%s[%s]:%s" % (base, off, self.F.head(et))
            st.log("write", base, off, et, nv)
            if self.content and self.is_byte(et):
                content.update(self, st, base, off, 1, ("val", nv))
                return
            self.cell_ty[key] = et
            st.cells[key] = nv
            if self.content:
                content.update(self, st, base, off, self.size_of(self.strip(et)) or 1, None)
            return
        raise Unsupported("write %r" % (loc,))

    # pointer value -> location of its pointee (type tid)
    def deref(self, st, v, tid):
        if v[0] == "r":
            loc = v[1]
            if loc[0] == "c":
                # the pointer may have been cast to a wrapper/inner type
                return self.adapt(st, loc, v[2] if len(v) > 2 else None, tid)
            return loc
        if v[0] == "p":
            t = self.F.types[self.strip(tid)]
            if t["k"] == "adt" or t["k"] == "tuple":
                key = "mem:%s[%s]:%s" % (v[1], v[2], self.F.head(self.strip(tid)))
                if key not in self.cell_ty:
                    self.cell_ty[key] = tid
                return ("c", key, ())
            return ("m", v[1], v[2], tid)
        if v[0] == "v":
            return ("sl", v[1], v[2], v[3])
        if v[0] == "s":
            key = "*" + v[1]
            if key not in self.cell_ty:
                self.cell_ty[key] = tid
            return ("c", key, ())
        if v[0] == "x":
            nm = self.fresh("?undefptr")
            self.cell_ty["*" + nm] = tid
            return ("c", "*" + nm, ())
        if v[0] == "i":
            nm = "addr(%s)" % (v[1],)
            self.cell_ty["*" + nm] = tid
            return ("c", "*" + nm, ())
        raise Unsupported("deref %r" % (v,))

    def seen_inside(self, st, loc, tid, ft):
        """The place is looked at as a wrapper of what it holds (a reference converted to one to the wrapper)."""
        t = self.F.types[self.strip(tid)]
        if t["k"] != "adt" or t["adt"] != "struct" or not t["local"] or len(t["variants"][0]["f"]) != 1:
            return False
        a = self.loc_ty(st, loc)
        if a is None or self.strip(a) == self.strip(tid):
            return False
        x, y = self.F.types[self.strip(a)], self.F.types[self.strip(ft)]
        return x["k"] == y["k"] == "adt" and x["def"] == y["def"]

    def loc_ty(self, st, loc):
        tid = self.cell_ty.get(loc[1])
        F = self.F
        var = 0
        for p in loc[2]:
            tid = self.strip(tid)
            t = F.types[tid]
            if isinstance(p, tuple) and p[0] == "e":
                tid = t["t"]
                continue
            if isinstance(p, tuple):
                var = p[1]
                continue
            if t["k"] == "adt":
                fs = t["variants"][var if t["adt"] == "enum" else 0]["f"]
                tid = fs[p]["t"] if p < len(fs) else None
            elif t["k"] == "tuple":
                tid = t["ts"][p]
            elif t["k"] == "closure":
                tid = t["ups"][p]
            else:
                return None
            var = 0
            if tid is None:
                return None
        return tid

    def adapt(self, st, loc, have, want):
        if have is not None and want is not None:
            h, w = self.strip(have), self.strip(want)
            if h != w and self.F.types[w]["k"] == "int" and self.F.types[w]["bits"] == 8 and self.F.types[h]["k"] == "adt" and self.F.types[h]["adt"] == "struct":
                # a byte pointer to a struct: its first byte
                fs = self.F.types[h]["variants"][0]["f"]
                if fs and self.F.types[self.strip(fs[0]["t"])]["k"] == "int":
                    return ("lb", loc[1], loc[2] + (0,), fs[0]["t"])
        return loc

    # ---------------------------------------------------------------- places
    def place_loc(self, fr, st, pl):
        F = self.F
        tid = F.subst(fr.body["locals"][pl[0]], fr.targs)
        loc = ("c", (fr.fid, pl[0]), ())
        if loc[1] not in self.cell_ty:
            self.cell_ty[loc[1]] = tid
        i = 1
        while i < len(pl):
            e = pl[i]
            if e == "*":
                v = self.read(st, loc, tid)
                pt = self.pointee(tid)
                if pt is None:
                    raise Unsupported("deref of " + F.s(tid))
                loc = self.deref(st, v, pt)
                tid = pt
            elif e[0] == "f":
                ft = F.subst(e[2], fr.targs)
                if self.is_transparent(tid):
                    d = F.types[tid]["def"]
                    if d == "std::mem::MaybeUninit" and e[1] == 0:
                        return ("unit",), ft
                    tid = ft
                elif loc[0] == "c":
                    if e[1] == 0 and self.explicit and self.seen_inside(st, loc, tid, ft):
                        tid = ft
                    else:
                        loc = ("c", loc[1], loc[2] + (e[1],))
                        tid = ft
                elif loc[0] == "m":
                    # field of a struct living in a raw region: give it its own cell
                    key = "mem:%s[%s]:%s" % (loc[1], loc[2], F.head(self.strip(tid)))
                    self.cell_ty.setdefault(key, tid)
                    loc = ("c", key, (e[1],))
                    tid = ft
                else:
                    raise Unsupported("field of slice")
            elif e[0] == "d":
                if loc[0] == "c":
                    loc = ("c", loc[1], loc[2] + (("d", e[1]),))
                else:
                    raise Unsupported("downcast in region")
            elif e[0] == "i":
                iv = self.read(st, ("c", (fr.fid, e[1]), ()))
                et = F.types[self.strip(tid)]["t"]
                loc = self.index_loc(st, loc, tid, iv[1] if iv[0] == "i" else Lin.sym(self.fresh("?idx")), et)
                tid = et
            elif e[0] == "ci":
                t = F.types[self.strip(tid)]
                et = t["t"]
                if e[3]:
                    ln = loc[3] if loc[0] == "sl" else self.array_len(self.strip(tid))
                    off = ln - e[1]
                else:
                    off = Lin(e[1])
                loc = self.index_loc(st, loc, tid, off, et)
                tid = et
            elif e[0] == "ss":
                if loc[0] != "sl":
                    raise Unsupported("subslice of array")
                frm, to, fe = e[1], e[2], e[3]
                ln = loc[3]
                nl = (ln - frm - to) if fe else Lin(to - frm)
                loc = ("sl", loc[1], loc[2] + frm, nl)
            elif e[0] == "c":
                tid = F.subst(e[1], fr.targs)
            else:
                raise Unsupported("proj %r" % (e,))
            i += 1
        return loc, tid

    def base_of_loc(self, st, loc, tid):
        """A region base standing for an array stored in a cell."""
        b = "@%s%s" % (loc[1], "".join("." + str(x) for x in loc[2]))
        if b not in self.bases:
            n = self.array_len(self.strip(tid)) if self.F.types[self.strip(tid)]["k"] == "array" else None
            self.bases[b] = {"extent": n, "lo": Lin(0), "loc": loc}
        return b

    def index_loc(self, st, loc, tid, off, et):
        if loc[0] == "sl":
            return ("m", loc[1], loc[2] + off, et)
        if loc[0] == "c":
            if self.explicit and self.F.types[self.strip(tid)]["k"] == "array" and self.F.types[self.strip(et)]["k"] != "int":
                n = self.array_len(self.strip(tid))
                if not off.t and n is not None and 0 <= off.c < n.c:
                    return ("c", loc[1], loc[2] + (("e", off.c),))
                raise Unsupported("element at an unknown position")
            return ("m", self.base_of_loc(st, loc, tid), off, et)
        if loc[0] == "m":
            return ("m", loc[1], loc[2] + off, et)
        raise Unsupported("index")

    # ---------------------------------------------------------------- operands
    def operand(self, fr, st, o):
        if "cp" in o or "mv" in o:
            pl = o.get("cp") or o.get("mv")
            loc, tid = self.place_loc(fr, st, pl)
            if loc[0] == "unit":
                return UNIT
            if loc[0] == "sl":
                raise Unsupported("read of unsized place")
            return self.read(st, loc, tid)
        if "rtc" in o:
            return BOOL(False)
        return self.const(fr, st, o)

    def operand_ty(self, fr, st, o):
        if "cp" in o or "mv" in o:
            loc, tid = self.place_ty_only(fr, o.get("cp") or o.get("mv"))
            return tid
        if "rtc" in o:
            return self.F.find_ty("bool")
        return self.F.subst(o["c"], fr.targs)

    def place_ty_only(self, fr, pl):
        F = self.F
        tid = F.subst(fr.body["locals"][pl[0]], fr.targs)
        for e in pl[1:]:
            if e == "*":
                tid = self.pointee(tid)
            elif e[0] == "f":
                tid = F.subst(e[2], fr.targs)
            elif e[0] in ("i", "ci"):
                tid = F.types[self.strip(tid)]["t"]
            elif e[0] == "c":
                tid = F.subst(e[1], fr.targs)
        return None, tid

    def from_bytes(self, tid, mem, off):
        """Decode a constant of type tid out of raw bytes (None when not possible)."""
        F = self.F
        tid = self.strip(tid)
        t = F.types[tid]
        k = t["k"]
        if k in ("int", "char"):
            n = t.get("size", 8)
            return INT(int.from_bytes(mem[off : off + n], "little", signed=t.get("signed", False)))
        if k == "bool":
            return BOOL(mem[off] != 0)
        if k == "tuple" and not t["ts"]:
            return UNIT
        if k == "adt" and t["adt"] == "struct" and "offs" in t:
            fs = []
            for f, o in zip(t["variants"][0]["f"], t["offs"]):
                x = self.from_bytes(f["t"], mem, off + o)
                if x is None:
                    return None
                fs.append(x)
            return ("a", tid, 0, tuple(fs))
        if k == "ptr" and mem[off : off + 8] == b"\0" * 8:
            return ("null",)
        if k == "array":
            return ("arr", "const:" + mem[off : off + t.get("size", 0)].hex(), tid)
        return None

    def const(self, fr, st, o):
        F = self.F
        tid = F.subst(o["c"], fr.targs)
        t = F.types[self.strip(tid)]
        if "fn" in o:
            return ("fn", F_key(o["fn"]), tid)
        k = t["k"]
        if "int" in o:
            n = int(o["int"])
            if k == "int":
                if t["signed"] and n >= 2 ** (t["bits"] - 1):
                    n -= 2 ** t["bits"]
                return INT(n)
            if k == "bool":
                return BOOL(bool(n))
            if k == "char":
                return INT(n)
            if k in ("ptr", "ref"):
                return ("null",) if n == 0 else ("p", "dangling", Lin(n))
            sz = t.get("size")
            if sz:
                v = self.from_bytes(tid, n.to_bytes(max(sz, 8), "little"), 0)
                if v is not None:
                    return v
            if k == "adt" and t["adt"] == "enum":
                # enum constant as scalar: unit-only enums
                if all(not v["f"] for v in t["variants"]):
                    for i, v in enumerate(t["variants"]):
                        if int(v["d"]) == n:
                            return ("a", self.strip(tid), i, ())
            return self.mat(self.fresh("?const"), tid)
        if "tyconst" in o:
            s = o["tyconst"]
            m = re.search(r"/#(\d+)", s)
            if m and int(m.group(1)) < len(fr.targs) and isinstance(fr.targs[int(m.group(1))], str):
                s = fr.targs[int(m.group(1))].replace("const ", "")
            if s.isdigit():
                return INT(int(s)) if k != "bool" else BOOL(bool(int(s)))
            nm = "const(" + s + ")"
            set_range(nm, 0, ISIZE_MAX)
            return INT(Lin.sym(nm)) if k != "bool" else BOOL(("s", nm))
        if o.get("zst"):
            if k == "adt":
                return ("a", self.strip(tid), 0, ())
            return ("a", tid, 0, ())
        if "slice" in o:
            b = bytes.fromhex(o["slice"])[: o["slen"]]
            base = "const:" + o["slice"]
            self.bases.setdefault(base, {"extent": Lin(o["slen"]), "lo": Lin(0), "bytes": b, "static": True})
            return ("v", base, Lin(0), Lin(o["slen"]))
        if "mem" in o:
            base = "const:" + o["mem"]
            self.bases.setdefault(base, {"extent": Lin(o["mlen"]), "lo": Lin(0), "bytes": bytes.fromhex(o["mem"]), "static": True})
            pt = self.pointee(tid)
            if pt is not None and F.types[self.strip(pt)]["k"] in ("adt", "tuple"):
                key = "*" + base + ":" + F.s(pt)
                v = self.from_bytes(pt, bytes.fromhex(o["mem"]), o["moff"])
                self.cell_ty[key] = pt
                if key not in st.cells:
                    st.cells[key] = v if v is not None else self.mat(key, pt)
                return ("r", ("c", key, ()), pt)
            return ("p", base, Lin(o["moff"]))
        if "ind" in o:
            mem = bytes.fromhex(o["ind"])
            v = self.from_bytes(tid, mem, o["moff"]) if not o.get("relocs") else None
            if v is not None:
                return v
            if o.get("promoted") is None and o.get("path") in F.fns:
                return self.eval_const_body(fr, st, o, tid)
            if o.get("promoted") is not None:
                return self.eval_promoted(fr, st, o, tid)
            return self.mat("constval(" + o.get("path", "?") + ")", tid)
        if "static" in o:
            key = "*static:" + o["static"]
            pt = self.pointee(tid)
            self.cell_ty[key] = pt
            return ("r", ("c", key, ()), pt)
        if o.get("promoted") is not None:
            return self.eval_promoted(fr, st, o, tid)
        if "path" in o and o["path"] in F.fns:
            return self.eval_const_body(fr, st, o, tid)
        if "path" in o and "::" in o["path"]:
            tr, it = o["path"].rsplit("::", 1)
            r = F.impl_item(tr, it, F.subst_args(o.get("uargs", []), fr.targs))
            if r is not None and r[0] in F.fns:
                return self.eval_const_body(fr, st, {"path": r[0], "uargs": r[2]}, tid)
        h = self.hooks.get("const")
        if h:
            r = h(self, fr, st, o, tid)
            if r is not None:
                return r
        nm = "constval(%s%s)" % (o.get("path", "?"), ",".join(F.s(x) if isinstance(x, int) else str(x) for x in F.subst_args(o.get("uargs", []), fr.targs)))
        return self.mat(nm, tid)

    def eval_promoted(self, fr, st, o, tid):
        owner = self.F.fns.get(o.get("path"))
        if owner is None or o["promoted"] >= len(owner.get("proms", [])):
            return self.mat(self.fresh("?promoted"), tid)
        body = owner["proms"][o["promoted"]]
        targs = self.F.subst_args(o.get("uargs", []), fr.targs)
        rs = self.run_body(owner, body, [], st, targs, fr)
        for kind, s, v in rs:
            if kind == "ret":
                # promoted evaluation has no effect on the state but new cells may be referenced
                for k, val in s.cells.items():
                    st.cells.setdefault(k, val)
                return v
        return self.mat(self.fresh("?promoted"), tid)

    def eval_const_body(self, fr, st, o, tid):
        owner = self.F.fns[o["path"]]
        targs = self.F.subst_args(o.get("uargs", []), fr.targs) if "uargs" in o else []
        rs = [r for r in self.run_body(owner, owner, [], st, targs, fr) if r[0] == "ret"]
        if len(rs) == 1:
            for k, val in rs[0][1].cells.items():
                st.cells.setdefault(k, val)
            return rs[0][2]
        return self.mat("constval(%s)" % o["path"], tid)

    # ---------------------------------------------------------------- arithmetic
    def fit(self, st, l, tid, what="wrap"):
        """Value of expression l truncated to the integer type tid."""
        lo, hi = self.int_range(tid)
        if l.const:
            n = l.c
            if not (lo <= n <= hi):
                m = hi - lo + 1
                n = (n - lo) % m + lo
            return Lin(n)
        if st.le_holds(l - hi) and st.le_holds(lo - l):
            return l
        nm = "?%s(%s:%s)" % (what, l, self.F.s(tid))
        set_range(nm, lo, hi)
        st.log("maywrap", l, self.F.s(tid))
        return Lin.sym(nm)

    def low(self, st, l, d):
        """l mod d for a power of two d."""
        r = Lin(l.c % d, tuple((s, c % d) for s, c in l.t if c % d))
        if r.const:
            return Lin(r.c % d)
        q = self.ufun("div(%s,%d)" % (r, d), 0, USIZE_MAX // d)
        x = r - q.scale(d)
        st.add_le(-x)
        st.add_le(x - (d - 1))
        return x

    def ufun(self, nm, lo, hi):
        set_range(nm, lo, hi)
        return Lin.sym(nm)

    def shr(self, st, l, k, tid):
        d = 2**k
        # floor(l / d)
        if all(c % d == 0 for _, c in l.t):
            return Lin(l.c // d, tuple((s, c // d) for s, c in l.t))
        q = self.ufun("shr(%s,%d)" % (l, k), 0, self.int_range(tid)[1] // d)
        st.add_le(q.scale(d) - l)
        st.add_le(l - q.scale(d) - (d - 1))
        return q

    def binop(self, fr, st, op, a, b, tid):
        F = self.F
        t = F.types[self.strip(tid)] if tid is not None else {"k": "?"}
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if op == "Gt":
                return self.binop(fr, st, "Lt", b, a, tid)
            if op == "Ge":
                return self.binop(fr, st, "Le", b, a, tid)
            if a[0] == "i" and b[0] == "i":
                if op == "Eq":
                    return BOOL(beq(a[1], b[1]))
                if op == "Ne":
                    return BOOL(bnot(beq(a[1], b[1])))
                if op == "Lt":
                    return BOOL(ble(a[1] + 1, b[1]))
                return BOOL(ble(a[1], b[1]))
            if a[0] == "b" and b[0] == "b":
                if op in ("Eq", "Ne"):
                    x = a[1] if b[1] is True else bnot(a[1]) if b[1] is False else b[1] if a[1] is True else bnot(b[1]) if a[1] is False else None
                    if x is None:
                        x = ("or", band(a[1], b[1]), band(bnot(a[1]), bnot(b[1])))
                        if a[1] == b[1]:
                            x = True
                    return BOOL(x if op == "Eq" else bnot(x))
            if a[0] == "dv" or b[0] == "dv":
                x, y = (a, b) if a[0] == "dv" else (b, a)
                if y[0] == "i" and y[1].const and op in ("Eq", "Ne"):
                    bb = self.discr_is(x, y[1].c)
                    return BOOL(bb if op == "Eq" else bnot(bb))
                return BOOL(("s", self.fresh("?discrcmp")))
            # pointers
            if op in ("Eq", "Ne"):
                r = self.ptr_eq(st, a, b)
                return BOOL(r if op == "Eq" else bnot(r))
            if a[0] in ("p", "v") and b[0] in ("p", "v") and a[1] == b[1]:
                return BOOL(ble(a[2] + (1 if op == "Lt" else 0), b[2]))
            return BOOL(("s", "ptrcmp(%s,%s,%s)" % (op, vkey(a), vkey(b))))
        if a[0] == "b" and b[0] == "b":
            x, y = a[1], b[1]
            if op == "BitAnd":
                return BOOL(band(x, y))
            if op == "BitOr":
                return BOOL(bor(x, y))
            if op == "BitXor":
                return BOOL(bor(band(x, bnot(y)), band(bnot(x), y)))
        if op == "Offset" or (op in ("Add", "Sub") and a[0] in ("p", "v", "r")):
            return self.ptr_add(st, a, b[1], tid)
        if a[0] != "i" or b[0] != "i":
            if op.endswith("WithOverflow"):
                return ("a", None, 0, (self.mat(self.fresh("?arith"), tid), BOOL(("s", self.fresh("?ovf")))))
            return self.mat(self.fresh("?arith"), tid)
        x, y = a[1], b[1]
        base = op.replace("Unchecked", "").replace("WithOverflow", "")
        raw = None
        if base in ("Shl", "Shr", "Rem", "Div") and not y.const and len(y.t) == 1:
            y = self.pinned(st, y)
        if base == "Shl" and x.const and len(y.t) == 1 and y.c == 0 and y.t[0][0] in self.logof:
            r = self.logof[y.t[0][0]]  # 2^k << ilog2(r / 2^k)
            if r[1] == x.c and st.le_holds(x.c - r[0]):
                return INT(r[0])
        if base == "Add":
            raw = x + y
        elif base == "Sub":
            raw = x - y
        elif base == "Mul":
            if x.const:
                raw = y.scale(x.c)
            elif y.const:
                raw = x.scale(y.c)
            else:
                raw = self.ufun("mul(%s,%s)" % tuple(sorted((str(x), str(y)))), 0, USIZE_MAX)
                content.UFARGS[str(raw)] = ("mul", x, y)
                return INT(raw) if op != "MulWithOverflow" else ("a", None, 0, (INT(raw), BOOL(("s", "mulovf(%s,%s)" % (x, y)))))
        if raw is not None:
            if op.endswith("WithOverflow"):
                lo, hi = self.int_range(tid)
                ok = band(ble(raw, hi), ble(lo, raw))
                return ("a", None, 0, (INT(self.fit(st, raw, tid)) if st.truth(ok) is not None else ("ovf", raw), BOOL(bnot(ok))))
            if op.endswith("Unchecked"):
                return INT(raw)
            return INT(self.fit(st, raw, tid))
        lo, hi = self.int_range(tid)
        if x.const and y.const:
            p, q = x.c, y.c
            try:
                r = {"Div": lambda: int(p / q) if p * q < 0 else p // q, "Rem": lambda: p - q * (int(p / q) if p * q < 0 else p // q), "BitXor": lambda: p ^ q, "BitAnd": lambda: p & q, "BitOr": lambda: p | q, "Shl": lambda: p << q, "Shr": lambda: p >> q}[base]()
                return INT(self.fit(st, Lin(r), tid))
            except (KeyError, ZeroDivisionError):
                return self.mat(self.fresh("?arith"), tid)
        if base == "Div" and y.const and y.c > 0 and lo == 0:
            q = self.ufun("div(%s,%d)" % (x, y.c), 0, hi // y.c)
            st.add_le(q.scale(y.c) - x)
            st.add_le(x - q.scale(y.c) - (y.c - 1))
            return INT(q)
        if base == "Rem" and y.const and y.c > 0 and lo == 0:
            q = self.ufun("div(%s,%d)" % (x, y.c), 0, hi // y.c)
            st.add_le(q.scale(y.c) - x)
            st.add_le(x - q.scale(y.c) - (y.c - 1))
            return INT(x - q.scale(y.c))
        if base == "Shl" and y.const:
            return INT(self.fit(st, x.scale(2**y.c), tid))
        if base == "Shr" and y.const and lo == 0:
            return INT(self.shr(st, x, y.c, tid))
        if base == "BitOr":
            if x.const:
                x, y = y, x
            if y.const and y.c >= 0:
                k = y.c.bit_length()
                d = 2**k
                if x.c % d == 0 and all(c % d == 0 for _, c in x.t):
                    return INT(x + y.c)
        if base == "BitAnd":
            if x.const:
                x, y = y, x
            if y.const and y.c >= 0 and lo == 0:
                m = y.c
                if (m & (m + 1)) == 0:
                    d = m + 1
                    if all(c % d == 0 for _, c in x.t):
                        return INT(x.c % d)
                    if st.le_holds(x - m):
                        return INT(x)
                    q = self.ufun("div(%s,%d)" % (x, d), 0, hi // d)
                    st.add_le(q.scale(d) - x)
                    st.add_le(x - q.scale(d) - m)
                    return INT(x - q.scale(d))
                inv = hi - m
                if inv >= 0 and (inv & (inv + 1)) == 0 and m > 0:
                    # round down to a multiple of inv+1
                    d = inv + 1
                    q = self.ufun("div(%s,%d)" % (x, d), 0, hi // d)
                    st.add_le(q.scale(d) - x)
                    st.add_le(x - q.scale(d) - inv)
                    return INT(q.scale(d))
                k = (m & -m).bit_length() - 1
                if k > 0 and ((m >> k) + 1) & (m >> k) == 0 and st.le_holds(x - (m | ((1 << k) - 1))):
                    d = 1 << k
                    q = self.ufun("div(%s,%d)" % (x, d), 0, hi // d)
                    st.add_le(q.scale(d) - x)
                    st.add_le(x - q.scale(d) - (d - 1))
                    return INT(q.scale(d))
                if k > 0 and ((m >> k) + 1) & (m >> k) == 0:
                    # the low bits of x, rounded down
                    d, b = 1 << k, (m | ((1 << k) - 1)) + 1
                    h = self.ufun("div(%s,%d)" % (x, b), 0, hi // b)
                    l = x - h.scale(b)
                    st.add_le(-l)
                    st.add_le(l - (b - 1))
                    q = self.ufun("div(%s,%d)" % (l, d), 0, (b - 1) // d)
                    st.add_le(q.scale(d) - l)
                    st.add_le(l - q.scale(d) - (d - 1))
                    return INT(q.scale(d))
                r = self.ufun("and(%s,%d)" % (x, m), 0, m)
                content.UFARGS["and(%s,%d)" % (x, m)] = ("and", x, Lin(m))
                st.add_le(r - x)
                return INT(r)
        nm = "%s(%s,%s)" % (base.lower(), x, y)
        set_range(nm, lo, hi)
        content.UFARGS[nm] = (base.lower(), x, y)
        if base == "Rem" and lo == 0 and st.le_holds(1 - y):
            st.add_le(Lin.sym(nm) - y + 1)
            st.add_le(Lin.sym(nm) - x)
        return INT(Lin.sym(nm))

    def ptr_eq(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if x[0] == "null":
                if y[0] == "null":
                    return True
                if y[0] in ("r",):
                    return False
                if y[0] in ("p", "v"):
                    if self.bases.get(y[1], {}).get("nonnull") or y[1].startswith(("@", "const:")) or y[1] == "dangling":
                        return False
                    ad = self.bases.get(y[1], {}).get("addr")
                    if ad is not None and y[0] == "p":
                        return beq(ad + y[2], Lin(0))
                    return ("s", "null(%s)" % y[1])
                if y[0] == "s":
                    return ("s", "null(%s)" % y[1])
        if a == b:
            return True
        if a[0] == "p" and b[0] == "p" and a[1] == b[1]:
            return beq(a[2], b[2])
        return ("s", "ptreq(%s,%s)" % tuple(sorted((vkey(a), vkey(b)))))

    def ptr_add(self, st, p, n, tid):
        """p + n elements of the pointee type of tid."""
        sz = 1
        if tid is not None:
            pt = self.pointee(tid)
            s = self.size_of(self.strip(pt)) if pt is not None else None
            sz = s if s is not None else None
        if p[0] == "v":
            p = ("p", p[1], p[2])
        if p[0] == "p":
            if sz is None:
                return ("p", p[1], p[2] + Lin.sym("sizeof(%s)*(%s)" % (tid, n)))
            return ("p", p[1], p[2] + n.scale(sz))
        if p[0] == "r":
            if n.const and n.c == 0:
                return p
            if p[1][0] == "m":
                return ("p", p[1][1], p[1][2] + n)
            return ("p", "&" + vkey(p), n.scale(sz or 1))
        if p[0] == "null":
            return ("p", "null", n.scale(sz or 1))
        if p[0] == "s":
            return ("p", "*" + p[1], n.scale(sz or 1))
        return ("p", self.fresh("?ptr"), Lin(0))

    def discr_is(self, dv, n):
        _, name, tid = dv
        vs = self.F.types[tid]["variants"]
        for i, v in enumerate(vs):
            if int(v["d"]) == n:
                if len(vs) == 1:
                    return True
                return ("var", name, i, self.variants(tid))
        return False

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, fr, st, rv, dty):
        F = self.F
        k = rv[0]
        if k == "use":
            return self.operand(fr, st, rv[1])
        if k == "repeat":
            v = self.operand(fr, st, rv[1])
            return ("arr", self.fresh("rep"), self.strip(dty))
        if k == "ref" or k == "addr":
            loc, tid = self.place_loc(fr, st, rv[2])
            return self.addr_of(st, loc, tid)
        if k == "cast":
            v = self.operand(fr, st, rv[2])
            return self.cast(fr, st, rv[1], v, self.operand_ty(fr, st, rv[2]), F.subst(rv[3], fr.targs))
        if k == "bin":
            a = self.operand(fr, st, rv[2])
            b = self.operand(fr, st, rv[3])
            ta = self.operand_ty(fr, st, rv[2])
            r = self.binop(fr, st, rv[1], a, b, ta)
            if r[0] == "a" and r[1] is None and len(r[3]) == 2:
                r = ("a", self.strip(dty), 0, r[3])
            return r
        if k == "un":
            a = self.operand(fr, st, rv[2])
            if rv[1] == "Not":
                if a[0] == "b":
                    return BOOL(bnot(a[1]))
                if a[0] == "i":
                    lo, hi = self.int_range(dty)
                    return INT(hi - a[1]) if lo == 0 else INT(-a[1] - 1)
            if rv[1] == "Neg" and a[0] == "i":
                return INT(self.fit(st, -a[1], dty))
            if rv[1] == "PtrMetadata":
                if a[0] == "v":
                    return INT(a[3])
                if a[0] == "p":
                    return UNIT
            return self.mat(self.fresh("?un"), dty)
        if k == "discr":
            loc, tid = self.place_loc(fr, st, rv[1])
            v = self.read(st, loc, tid)
            d = self.discr(st, v, tid)
            dt = F.types[self.strip(dty)] if dty is not None else {}
            if d[0] == "i" and d[1].const and dt.get("signed") and d[1].c >= 2 ** (dt["bits"] - 1):
                d = INT(d[1].c - 2 ** dt["bits"])
            return d
        if k == "agg":
            ops = [self.operand(fr, st, o) for o in rv[3]]
            if rv[1] == "tuple":
                return ("a", self.strip(dty), 0, tuple(ops))
            if rv[1] == "array":
                return ("arrv", self.strip(dty), tuple(ops))
            if rv[1] == "adt":
                tid = F.subst(rv[2][0], fr.targs)
                if self.is_transparent(tid):
                    if F.types[tid]["def"] == "std::mem::MaybeUninit" and rv[2][2] == 0:
                        return UNDEF
                    return ops[0] if ops else UNDEF
                tid = self.strip(tid)
                if F.types[tid]["adt"] == "union":
                    v = ("u", tid, rv[2][2], ops[0])
                    h = self.hooks.get("union_make")
                    if h:
                        h(self, fr, st, v)
                    return v
                v = ("a", tid, rv[2][1], tuple(ops))
                h = self.hooks.get("adt_make")
                if h:
                    h(self, fr, st, v)
                return v
            if rv[1] == "closure":
                return ("a", F.subst(rv[2], fr.targs), 0, tuple(ops))
            if rv[1] == "rawptr":
                p = ops[0]
                if len(ops) > 1 and ops[1][0] == "i":
                    if p[0] == "p":
                        return ("v", p[1], p[2], ops[1][1])
                    if p[0] == "r" and p[1][0] == "c":
                        return ("v", "&" + vkey(p), Lin(0), ops[1][1])
                    if p[0] == "null":
                        return ("v", "null", Lin(0), ops[1][1])
                return p
            return self.mat(self.fresh("?agg"), dty)
        return self.mat(self.fresh("?rv"), dty)

    def discr(self, st, v, tid):
        tid = self.strip(tid)
        t = self.F.types[tid]
        if v[0] == "a":
            return INT(int(t["variants"][v[2]]["d"]))
        if v[0] == "s":
            vs = st.vars.get(v[1])
            if vs is not None and len(vs) == 1:
                return INT(int(t["variants"][next(iter(vs))]["d"]))
            return ("dv", v[1], tid)
        if v[0] == "x":
            return ("dv", self.fresh("?undef"), tid)
        nm = self.fresh("?discr")
        return ("dv", nm, tid)

    def addr_of(self, st, loc, tid):
        if loc[0] == "sl":
            return ("v", loc[1], loc[2], loc[3])
        if loc[0] == "m":
            return ("p", loc[1], loc[2])
        if loc[0] == "unit":
            return ("p", "dangling", Lin(1))
        return ("r", loc, tid)

    def cast(self, fr, st, kind, v, src, dst):
        F = self.F
        d = F.types[self.strip(dst)]
        s = F.types[self.strip(src)]
        if kind == "IntToInt":
            if v[0] == "i":
                return INT(self.fit(st, v[1], self.strip(dst), "trunc"))
            if v[0] == "b":
                if v[1] is True or v[1] is False:
                    return INT(1 if v[1] else 0)
                t = st.truth(v[1])
                if t is not None:
                    return INT(1 if t else 0)
                nm = "b2i(%s)" % (v[1],)
                set_range(nm, 0, 1)
                return INT(Lin.sym(nm))
            if v[0] == "a" and d["k"] == "int":
                return INT(int(F.types[v[1]]["variants"][v[2]]["d"]))
            if v[0] == "dv":
                nm = "discr(%s)" % v[1]
                lo, hi = self.int_range(self.strip(dst))
                set_range(nm, lo, hi)
                return INT(Lin.sym(nm))
            return self.mat(self.fresh("?cast"), dst)
        if kind.startswith("PointerCoercion(Unsize"):
            sp = self.pointee(src)
            dp = self.pointee(dst)
            if sp is not None and dp is not None and F.types[self.strip(sp)]["k"] == "array" and F.types[self.strip(dp)]["k"] == "slice":
                n = self.array_len(self.strip(sp))
                if v[0] == "p":
                    return ("v", v[1], v[2], n)
                if v[0] == "r" and v[1][0] == "c":
                    return ("v", self.base_of_loc(st, v[1], sp), Lin(0), n)
            return v
        if kind in ("PtrToPtr", "FnPtrToPtr") or kind.startswith("PointerCoercion") or kind == "Subtype":
            return self.ptr_cast(st, v, src, dst)
        if kind == "Transmute" or kind == "BoxDerefTransmute":
            return self.transmute(fr, st, v, src, dst)
        if kind == "PointerExposeProvenance":
            off = Lin(0)
            if v[0] == "p" and v[2] != off and v[1] not in ("null", "dangling"):
                v, off = ("p", v[1], Lin(0)), v[2]
            nm = "addr(%s)" % vkey(v)
            set_range(nm, 0, 1 << 62)
            self.addrof[nm] = v
            return INT(Lin.sym(nm) + off)
        if kind == "PointerWithExposedProvenance":
            if v[0] == "i" and v[1].const and v[1].c == 0:
                return ("null",)
            p = self.addr_to_ptr(v[1]) if v[0] == "i" else None
            if p is not None:
                return p
            if v[0] != "i":
                return ("p", self.fresh("?ptr"), Lin(0))
            nm = "fromaddr(%s)" % (v[1],)
            self.bases.setdefault(nm, {"extent": None, "lo": None})["addr"] = v[1]
            return ("p", nm, Lin(0))
        return self.mat(self.fresh("?cast"), dst)

    def addr_to_ptr(self, ad):
        """The pointer an address expression was made from, or None."""
        k = [s for s, c in ad.t if c == 1 and s in self.addrof]
        if len(k) != 1:
            return None
        p, off = self.addrof[k[0]], ad - Lin.sym(k[0])
        if off.const and off.c == 0:
            return p
        if p[0] != "p":
            return None
        return ("p", p[1], p[2] + off)

    def ptr_cast(self, st, v, src, dst):
        F = self.F
        dp = self.pointee(dst)
        sp = self.pointee(src)
        if v[0] == "v" and dp is not None and F.types[self.strip(dp)]["k"] not in ("slice", "str", "dyn"):
            return ("p", v[1], v[2])
        if v[0] == "r" and v[1][0] == "c" and sp is not None and dp is not None:
            a, b = self.strip(sp), self.strip(dp)
            if a != b:
                ta, tb = F.types[a], F.types[b]
                if ta["k"] == "array" and ta["t"] is not None and self.strip(ta["t"]) == b:
                    return ("p", self.base_of_loc(st, v[1], sp), Lin(0))
        return v

    def transmute(self, fr, st, v, src, dst):
        F = self.F
        a, b = self.strip(src), self.strip(dst)
        if a == b or F.s(a) == F.s(b):
            return v
        ta, tb = F.types[a], F.types[b]
        if ta["k"] in ("ref", "ptr") and tb["k"] in ("ref", "ptr"):
            return self.ptr_cast(st, v, a, b)
        if v[0] == "r" and tb["k"] in ("ref", "ptr"):
            return v
        if ta["k"] == "int" and tb["k"] in ("int", "char") and v[0] == "i":
            return INT(self.fit(st, v[1], b))
        if ta["k"] == "adt" and tb["k"] == "adt" and ta["def"] == tb["def"]:
            # same generic type at different lifetimes/args
            if v[0] == "a":
                return ("a", b, v[2], v[3])
            if v[0] == "u":
                return ("u", b, v[2], v[3])
            if v[0] == "s":
                return ("s", v[1], b)
        h = self.hooks.get("transmute")
        if h:
            r = h(self, fr, st, v, a, b)
            if r is not None:
                return r
        if v[0] == "a" and ta["k"] == tb["k"] == "adt" and ta["adt"] == tb["adt"] == "struct" and "offs" in ta and "offs" in tb and len(ta["offs"]) > 1 and ta.get("size") == tb.get("size"):
            fs = []
            for f, o in zip(tb["variants"][0]["f"], tb["offs"]):
                for i, (g, p) in enumerate(zip(ta["variants"][0]["f"], ta["offs"])):
                    if p == o and F.types[self.strip(g["t"])].get("size") == F.types[self.strip(f["t"])].get("size") and i < len(v[3]):
                        fs.append(self.transmute(fr, st, v[3][i], g["t"], f["t"]))
                        break
            if len(fs) == len(tb["offs"]):
                return ("a", b, 0, tuple(fs))
        if v[0] == "u" and ta.get("size") == tb.get("size"):
            mt = self.strip(F.types[self.strip(v[1])]["variants"][0]["f"][v[2]]["t"])
            if mt == b or F.s(mt) == F.s(b):
                return v[3]
            x = self.peel(st, v[3], mt, b)
            if x is not None:
                return x
        if tb["k"] == "adt" and tb["adt"] == "union":
            for i, f in enumerate(tb["variants"][0]["f"]):
                mt = self.strip(f["t"])
                if mt == a or F.s(mt) == F.s(a):
                    return ("u", b, i, v)
                x = self.peel(st, v, a, mt)
                if x is not None and F.types[mt].get("size") == ta.get("size"):
                    return ("u", b, i, x)
        # single-field peeling in either direction
        x = self.peel(st, v, a, b)
        if x is not None:
            return x
        return self.mat("transmute(%s:%s)" % (vkey(v), F.s(b)), b)

    def peel(self, st, v, a, b):
        F = self.F
        ta, tb = F.types[a], F.types[b]
        if ta["k"] == "adt" and ta["adt"] == "struct" and v[0] == "a":
            nz = [i for i, f in enumerate(ta["variants"][0]["f"]) if F.types[f["t"]].get("size") != 0]
            if len(nz) == 1:
                ft = self.strip(ta["variants"][0]["f"][nz[0]]["t"])
                if ft == b or F.s(ft) == F.s(b):
                    return v[3][nz[0]]
                return self.peel(st, v[3][nz[0]], ft, b)
        if tb["k"] == "adt" and tb["adt"] == "struct":
            fs = tb["variants"][0]["f"]
            nz = [i for i, f in enumerate(fs) if F.types[f["t"]].get("size") != 0]
            if len(nz) == 1:
                ft = self.strip(fs[nz[0]]["t"])
                if ft == a or F.s(ft) == F.s(a):
                    return ("a", b, 0, tuple(v if i == nz[0] else UNIT for i in range(len(fs))))
        return None

    # ---------------------------------------------------------------- blocks
    def spend(self):
        self.budget -= 1
        if self.budget < 0:
            raise Budget()

    def run_fn(self, fn, args, st, targs, up=None):
        return self.run_body(fn, fn, args, st, targs, up)

    def run_body(self, fn, body, args, st, targs, up):
        depth = up.depth + 1 if up is not None else 0
        self.uid += 1
        fr = Frame(fn, self.uid, targs, body, depth, up)
        st = st.fork()
        for i, a in enumerate(args):
            st.cells[(fr.fid, i + 1)] = a
        for i, l in enumerate(body["locals"]):
            self.cell_ty[(fr.fid, i)] = self.F.subst(l, targs)
        res = self.explore(fr, 0, st, None)
        out = []
        n = len(body["locals"])
        for kind, s, v in res["out"]:
            if kind == "ret":
                v = s.cells.get((fr.fid, 0), UNIT)
                if depth > 0:
                    s = s.fork()
                    for i in range(n):
                        s.cells.pop((fr.fid, i), None)
            out.append((kind, s, v))
        return out

    def explore(self, fr, start, st, loop):
        heads = loops_of(fr.body)
        res = {"out": [], "back": [], "exit": []}
        work = [(start, st, True, None)]
        while work:
            bb, s, first, prev = work.pop()
            if loop is not None:
                if bb == loop[0] and not first:
                    res["back"].append(s)
                    continue
                if bb not in loop[1]:
                    res["exit"].append((bb, s))
                    continue
            if bb in heads and not (first and loop is not None and bb == loop[0]):
                k = self.unroll(fr) if self.unroll else None
                if k:
                    # pass by pass: at most k[0] passes, of which k[1] with a decision about unknown quantities
                    key = (fr.fid, bb)
                    old = s.lv.get(key) if prev is not None and prev in heads[bb] else None
                    size = len(s.le) + len(s.ne) + len(s.bools) + len(s.vars)
                    c = (0, 0, size) if old is None else (old[0] + 1, old[1] + (size != old[2]), size)
                    if self.progress:
                        past = () if old is None else old[3]
                        if past and self.progress(self, fr, bb, past, s, c):
                            continue
                        c += (past[-2:] + (s,),)
                    s.lv = dict(s.lv)
                    s.lv[key] = c
                    if c[0] > k[0] or c[1] > k[1]:
                        self.cuts[fr.body["p"]] = self.cuts.get(fr.body["p"], 0) + 1
                        self.cutloops.add((fr.body["p"], bb))
                        continue
                else:
                    r = self.do_loop(fr, bb, heads[bb], s)
                    res["out"] += r["out"]
                    for b2, s2 in r["exit"]:
                        work.append((b2, s2, False, None))
                    continue
            self.spend()
            for nxt in self.block(fr, bb, s):
                if nxt[0] == "to":
                    work.append((nxt[1], nxt[2], False, bb))
                elif nxt[0] == "panic" and self.unwinding:
                    res["out"] += self.unwind(fr, bb, nxt, work)
                else:
                    res["out"].append(nxt)
        return res

    def unwind(self, fr, bb, nxt, work):
        """Follow a panic into the cleanup of the frame, where there is one."""
        b = fr.body["blocks"][bb]
        t = b["t"]
        if b["cl"]:
            # a panic while unwinding ends the process
            return [nxt] if t[0] == "resume" else []
        uw = t[5] if t[0] in ("call", "assert") else t[3] if t[0] == "drop" else None
        if uw is None:
            return [nxt]
        work.append((uw, nxt[1].fork(), False, bb))
        return []

    def block(self, fr, bb, st):
        b = fr.body["blocks"][bb]
        st = st.fork()
        for s in b["s"]:
            self.stmt(fr, st, s)
        return self.term(fr, st, b["t"])

    def stmt(self, fr, st, s):
        k = s[0]
        if k == "=":
            fr.line = s[3]
            dl, dt = None, None
            _, dt = self.place_ty_only(fr, s[1])
            v = self.rvalue(fr, st, s[2], dt)
            if v[0] == "ovf":
                v = INT(v[1])
            loc, _ = self.place_loc(fr, st, s[1])
            if loc[0] != "unit":
                self.write(st, loc, v)
        elif k == "sd":
            loc, tid = self.place_loc(fr, st, s[1])
            tid = self.strip(tid)
            v = self.read(st, loc, tid)
            n = len(self.F.types[tid]["variants"][s[2]]["f"])
            if v[0] == "a" and len(v[3]) == n:
                nv = ("a", tid, s[2], v[3])
            else:
                nv = ("a", tid, s[2], tuple(UNDEF for _ in range(n)))
            self.write(st, loc, nv)
        elif k == "dead":
            st.cells.pop((fr.fid, s[1]), None)
        elif k == "cno":
            fr.line = s[4]
            a = [self.operand(fr, st, x) for x in s[1:4]]
            self.mem_copy(fr, st, a[0], a[1], a[2], None)
        elif k == "assume":
            pass

    def is_byte(self, tid):
        t = self.F.types[self.strip(tid)]
        return t["k"] == "int" and t["bits"] == 8

    def log_copy(self, st, sb, so, db, do, n, where):
        st.log("copy", sb, so, db, do, n, where)
        if self.content:
            content.update(self, st, db, do, n, ("seg", sb, so))

    def log_fill(self, st, db, do, n, where, val="?"):
        st.log("fill", db, do, n, where)
        if self.content:
            content.update(self, st, db, do, n, ("fill", val))

    def mem_copy(self, fr, st, src, dst, n, tid):
        def bo(v):
            if v[0] in ("p", "v"):
                return v[1], v[2]
            if v[0] == "r" and v[1][0] == "c":
                return "&" + vkey(v), Lin(0)
            return vkey(v), Lin(0)

        sb, so = bo(src)
        db, do = bo(dst)
        ln = n[1] if n[0] == "i" else Lin.sym(self.fresh("?n"))
        self.log_copy(st, sb, so, db, do, ln, fr.where())

    def term(self, fr, st, t):
        k = t[0]
        F = self.F
        if k == "goto":
            return [("to", t[1], st)]
        if k == "ret":
            return [("ret", st, None)]
        if k == "resume" and self.unwinding:
            return [("panic", st, None)]
        if k in ("resume", "abort", "unreachable"):
            return []
        if k == "switch":
            fr.line = t[4]
            v = self.operand(fr, st, t[1])
            out = []
            if v[0] == "b":
                tgt = {int(x[0]): x[1] for x in t[2]}
                for val in (0, 1):
                    to = tgt.get(val, t[3])
                    b = v[1] if val else bnot(v[1])
                    for s in st.assume(b):
                        out.append(("to", to, s if s is not st else st.fork()))
                return out
            if v[0] == "dv":
                rest = [st]
                allv = self.variants(v[2])
                for val, to in t[2]:
                    b = self.discr_is(v, int(val))
                    nrest = []
                    for s in rest:
                        for s2 in s.assume(b):
                            out.append(("to", to, s2.fork()))
                        nrest += s.assume(bnot(b))
                    rest = nrest
                for s in rest:
                    if fr.body["blocks"][t[3]]["t"][0] != "unreachable" or fr.body["blocks"][t[3]]["s"]:
                        out.append(("to", t[3], s.fork()))
                return out
            if v[0] == "i":
                rest = [st]
                tid = self.operand_ty(fr, st, t[1])
                tt = F.types[self.strip(tid)]
                for val, to in t[2]:
                    n = int(val)
                    if tt.get("signed") and n >= 2 ** (tt["bits"] - 1):
                        n -= 2 ** tt["bits"]
                    nrest = []
                    for s in rest:
                        for s2 in s.assume(beq(v[1], n)):
                            out.append(("to", to, s2.fork()))
                        nrest += s.assume(bnot(beq(v[1], n)))
                    rest = nrest
                for s in rest:
                    out.append(("to", t[3], s.fork()))
                return out
            # opaque
            for to in [x[1] for x in t[2]] + [t[3]]:
                out.append(("to", to, st.fork()))
            return out
        if k == "assert":
            fr.line = t[6]
            c = self.operand(fr, st, t[1])
            out = []
            if c[0] == "b":
                b = c[1] if t[2] else bnot(c[1])
            else:
                b = ("s", self.fresh("?assert"))
            for s in st.assume(b):
                out.append(("to", t[4], s.fork()))
            for s in st.assume(bnot(b)):
                s = s.fork()
                s.log("panic", t[3], fr.where())
                out.append(("panic", s, None))
            return out
        if k == "drop":
            fr.line = t[5]
            loc, tid = self.place_loc(fr, st, t[1])
            was, self.droppanics = self.droppanics, []
            try:
                outs = self.do_drop(fr, st, loc, tid)
                bad = self.droppanics
            finally:
                self.droppanics = was
            return [("to", t[2], s) for s in outs] + [("panic", s, None) for s in bad]
        if k == "call":
            fr.line = t[6]
            return self.do_call(fr, st, t)
        raise Unsupported("term " + k)

    # ---------------------------------------------------------------- drops
    def needs_drop(self, tid):
        t = self.F.types[tid]
        if "needs_drop" in t:
            return t["needs_drop"]
        k = t["k"]
        if k in ("ref", "ptr", "int", "bool", "char", "fndef", "fnptr", "never", "str"):
            return False
        if k == "adt":
            if t.get("manually_drop"):
                return False
            if t.get("drop"):
                return True
            if t["def"] in ("std::boxed::Box",):
                return True
            return any(self.needs_drop(f["t"]) for v in t["variants"] for f in v["f"])
        if k == "tuple":
            return any(self.needs_drop(x) for x in t["ts"])
        if k == "array" or k == "slice":
            return self.needs_drop(t["t"])
        if k == "closure":
            return any(self.needs_drop(x) for x in t["ups"])
        return True

    def do_drop(self, fr, st, loc, tid):
        """Drop the value at loc; returns the resulting states."""
        if not self.needs_drop(tid):
            return [st]
        if loc[0] != "c":
            st.log("drop-region", loc, self.F.s(tid))
            return [st]
        v = self.read(st, loc, tid)
        return self.drop_value(fr, st, v, tid, loc)

    def glue(self, st, parts):
        """Run destructors one after the other; when one panics the others still run."""
        cur, bad = [st], []
        was = self.droppanics
        try:
            for f in parts:
                self.droppanics = []
                nx = []
                for s in cur:
                    nx += f(s)
                new = self.droppanics
                cur = nx
                rest = []
                for s in bad:
                    # a second panic while unwinding ends the process
                    rest += f(s)
                bad = rest + new
        finally:
            self.droppanics = was
        self.droppanics += bad
        return cur

    def drop_value(self, fr, st, v, tid, loc):
        F = self.F
        if not self.needs_drop(tid) or v[0] == "x":
            return [st]
        t = F.types[tid]
        h = self.hooks.get("drop")
        if h:
            r = h(self, fr, st, v, tid, loc)
            if r is not None:
                return r
        if t["k"] == "adt":
            if t.get("drop") and t["def"] != "std::boxed::Box":
                outs = [st]
                if t["drop"] in F.fns and fr.depth < self.max_depth and self.hooks.get("inline_drop", lambda *a: False)(self, t):
                    fn = F.fns[t["drop"]]
                    outs = []
                    for kind, s, _ in self.run_fn(fn, [("r", loc, tid)], st, t["args"], fr):
                        if kind == "ret":
                            outs.append(s)
                        elif kind == "panic" and self.callpanics:
                            self.droppanics.append(s)
                else:
                    st.log("drop", t["def"], v, fr.where())
                    return [st]
                return outs
            if t["adt"] == "enum":
                outs = []
                for s, a in self.split_variants(st, v):
                    outs += self.glue(s.fork(), [
                        (lambda s2, i=i, f=f: self.drop_value(fr, s2, a[3][i], f["t"], ("c", loc[1], loc[2] + (("d", a[2]), i)) if loc and loc[0] == "c" else None))
                        for i, f in enumerate(t["variants"][a[2]]["f"])])
                return outs
            if t["adt"] == "struct" and (v[0] == "a") and t["def"] not in TRANSPARENT and (t["local"] or self.expandable(t)):
                return self.glue(st, [
                    (lambda s2, i=i, f=f: self.drop_value(fr, s2, v[3][i], f["t"], ("c", loc[1], loc[2] + (i,)) if loc and loc[0] == "c" else None))
                    for i, f in enumerate(t["variants"][0]["f"])])
            st.log("drop", t["def"], v, fr.where())
            return [st]
        if t["k"] == "tuple" and v[0] == "a":
            return self.glue(st, [
                (lambda s2, i=i, f=f: self.drop_value(fr, s2, v[3][i], f, ("c", loc[1], loc[2] + (i,)) if loc and loc[0] == "c" else None))
                for i, f in enumerate(t["ts"])])
        st.log("drop", t["s"], v, fr.where())
        if self.callpanics and t["k"] in ("param", "alias", "dyn"):
            self.droppanics += [s for _, s, _ in self.callerpanic(fr, st, "the destructor of " + t["s"], [], None)]
        return [st]

    # ---------------------------------------------------------------- calls
    def resolve(self, fr, c):
        """Resolve a callee in the context of the frame's generic arguments."""
        F = self.F
        a = F.subst_args(c["a"], fr.targs)
        if "r" in c:
            ra = F.subst_args(c["ra"], fr.targs)
            if c["rk"] == "item":
                return c["r"], ra, c
            return c["p"], a, c
        if "tr" in c and a and isinstance(a[0], int):
            self_t = a[0]
            r = self.resolve_trait(c["tr"], c["m"], self_t, a)
            if r is not None:
                return r[0], r[1], c
        return c["p"], a, c

    def resolve_trait(self, tr, m, self_t, a):
        F = self.F
        for st_ in (self_t, self.strip(self_t)):
            for im in F.trait_impls.get((tr, F.head(st_)), []):
                for n, p, _ in im["items"]:
                    if n == m:
                        # impl generics: unify arguments of the self type
                        pat = F.types[im["self"]]
                        act = F.types[st_]
                        g = self.unify(im["self"], st_, {})
                        if g is None:
                            continue
                        mx = max(list(g) + [-1])
                        ga = [g.get(i) for i in range(mx + 1)]
                        # trait args must agree when known
                        nt = len(im.get("targs", []))
                        g2 = dict(g)
                        ok = True
                        for x, y in zip(im.get("targs", []), a[:nt]):
                            if isinstance(x, int) and isinstance(y, int):
                                if self.unify(x, y, g2) is None:
                                    ok = False
                        if not ok:
                            continue
                        extra = a[nt:]
                        fn = F.fns.get(p)
                        ngen = len(fn.get("generics", [])) if fn else 0
                        ga = [g2.get(i) for i in range(max(ngen - len(extra), 0))] + list(extra)
                        return p, ga
        return None

    def unify(self, pat, act, g):
        F = self.F
        p, t = F.types[pat], F.types[act]
        if p["k"] == "param":
            i = p["i"]
            if i in g and g[i] != act and F.s(g[i]) != F.s(act):
                return None
            g[i] = act
            return g
        if p["k"] != t["k"]:
            if t["k"] == "param":
                return g
            return None
        if p["k"] == "adt":
            if p["def"] != t["def"]:
                return None
            for x, y in zip(p["args"], t["args"]):
                if isinstance(x, int) and isinstance(y, int):
                    if self.unify(x, y, g) is None:
                        return None
            return g
        if p["k"] in ("ref", "ptr", "slice", "array"):
            return self.unify(p["t"], t["t"], g)
        if p["k"] == "tuple":
            if len(p["ts"]) != len(t["ts"]):
                return None
            for x, y in zip(p["ts"], t["ts"]):
                if self.unify(x, y, g) is None:
                    return None
            return g
        if p["k"] in ("int", "bool", "char", "str"):
            return g if p["s"] == t["s"] else None
        return g

    def do_call(self, fr, st, t):
        F = self.F
        fo = t[1]
        args = [self.operand(fr, st, x) for x in t[2]]
        atys = [self.operand_ty(fr, st, x) for x in t[2]]
        _, dty = self.place_ty_only(fr, t[3])
        outs = []
        if "fn" in fo:
            path, ra, c = self.resolve(fr, fo["fn"])
            res = self.call(fr, st, path, ra, args, dty, c, atys)
            if self.callpanics and self.callercode(fr, path, c):
                res = list(res) + self.callerpanic(fr, st, path, args, atys)
        else:
            fv = self.operand(fr, st, fo)
            res = self.call_value(fr, st, fv, args, dty, atys)
        for kind, s, v in res:
            if kind == "ret":
                if t[4] is None:
                    continue
                s = s.fork()
                loc, _ = self.place_loc(fr, s, t[3])
                if loc[0] != "unit":
                    self.write(s, loc, v)
                outs.append(("to", t[4], s))
            else:
                outs.append((kind, s, v))
        return outs

    def call_value(self, fr, st, fv, args, dty, atys):
        if fv[0] == "fn":
            c = FKEYS[fv[1]]
            path, ra, c = self.resolve(fr, c)
            return self.call(fr, st, path, ra, args, dty, c, atys)
        if fv[0] == "fnp":
            return self.call(fr, st, fv[1], [], args, dty, {"p": fv[1], "a": []}, atys)
        more = self.callerpanic(fr, st, "a function pointer", args, atys) if self.callpanics else []
        st = st.fork()
        st.log("indirect", vkey(fv), tuple(args), fr.where())
        return [("ret", st, self.mat(self.fresh("?ind"), dty))] + more

    def callercode(self, fr, path, c):
        """Whether a call reaches code that the crate's caller supplies: a trait method of a type only the caller knows."""
        if not c.get("tr") or path != c["p"] or c["tr"].startswith("std::ops::Fn"):
            return False
        a = [x for x in self.F.subst_args(c["a"], fr.targs) if isinstance(x, int)]
        t = self.F.types[a[0]] if a else None
        while t is not None and t["k"] == "ref":
            t = self.F.types[t["t"]]
        return t is not None and t["k"] not in ("int", "bool", "char", "str", "slice", "array", "tuple", "adt", "closure", "fndef", "fnptr", "never", "ptr")

    def callerpanic(self, fr, st, name, args, atys):
        s = st.fork()
        s.log("call", name, tuple(args), fr.where())
        self.havoc_args(s, args, atys)
        s.log("panic", "caller", name, fr.where())
        self.callersites.add((name, fr.where()))
        return [("panic", s, None)]

    def call_closure(self, fr, st, clo, args, dty):
        """Call a closure value (aggregate) or fn item with positional args."""
        F = self.F
        if clo[0] == "r":
            inner = self.read(st, clo[1])
            if inner[0] == "a" or inner[0] == "fn":
                if inner[0] == "fn":
                    return self.call_value(fr, st, inner, args, dty, [None] * len(args))
                ct = F.types[inner[1]]
                if ct["k"] == "closure":
                    return self._closure_body(fr, st, ct, inner, clo, args, dty)
            if inner[0] == "r":
                return self.call_closure(fr, st, inner, args, dty)
            clo = inner
        if clo[0] == "fn":
            return self.call_value(fr, st, clo, args, dty, [None] * len(args))
        if clo[0] == "a" and clo[1] is not None:
            ct = F.types[clo[1]]
            if ct["k"] == "closure":
                return self._closure_body(fr, st, ct, clo, None, args, dty)
            if ct["k"] == "fndef":
                path, ra, c = self.resolve(fr, {"p": ct["def"], "a": ct["args"]})
                return self.call(fr, st, ct["def"], ct["args"], args, dty, {"p": ct["def"], "a": ct["args"]}, [None] * len(args))
        more = self.callerpanic(fr, st, "a closure", args, None) if self.callpanics else []
        st = st.fork()
        st.log("callopaque", vkey(clo), tuple(args), fr.where())
        self.havoc_args(st, args)
        nm = self.fresh("?clo")
        self.cloargs[nm] = (vkey(clo), tuple(args))
        return [("ret", st, self.mat(nm, dty))] + more

    def _closure_body(self, fr, st, ct, clo, ref, args, dty):
        F = self.F
        fn = F.fns.get(ct["def"])
        if fn is None or fr.depth >= self.max_depth:
            return [("ret", st, self.mat(self.fresh("?clo"), dty))]
        env_t = F.types[F.subst(fn["locals"][1], ct["args"])]
        st = st.fork()
        if env_t["k"] == "ref":
            if ref is None:
                self.uid += 1
                cell = ("clo", self.uid)
                self.cell_ty[cell] = clo[1]
                st.cells[cell] = clo
                ref = ("r", ("c", cell, ()), clo[1])
            env = ref
        else:
            env = clo
        return self.run_fn(fn, [env] + list(args), st, ct["args"], fr)

    def havoc_args(self, st, args, atys=None):
        for i, a in enumerate(args):
            if a[0] in ("v", "p") and self.content:
                ty = atys[i] if atys and i < len(atys) else None
                t = self.F.types[self.strip(ty)] if ty is not None else None
                if t is None or t["k"] in ("ref", "ptr") and t["mut"]:
                    content.update(self, st, a[1], a[2], a[3] if a[0] == "v" else Lin.sym(self.fresh("?n")), None)
            if a[0] == "r" and a[1][0] == "c":
                ty = atys[i] if atys and i < len(atys) else None
                if ty is not None:
                    t = self.F.types[self.strip(ty)]
                    if t["k"] == "ref" and not t["mut"]:
                        continue
                try:
                    lt = self.loc_ty(st, a[1])
                    if lt is not None:
                        self.write(st, a[1], self.mat(self.fresh("?havoc"), lt))
                except Unsupported:
                    pass

    PURE_HINT = re.compile(r"::(start_bound|end_bound|len|remaining|as_slice|as_ref|borrow|deref|input_len|bounds)$")

    def call(self, fr, st, path, ra, args, dty, c, atys):
        F = self.F
        h = self.hooks.get("pre_call")
        if h and F.fns.get(path) is not None:
            sp = h(self, st, path, args, atys)
            if sp is not None and (len(sp) != 1 or sp[0] != (st, args)):
                out = []
                for s1, a1 in sp:
                    out += self.call_(fr, s1, path, ra, a1, dty, c, atys)
                return out
        return self.call_(fr, st, path, ra, args, dty, c, atys)

    def call_(self, fr, st, path, ra, args, dty, c, atys):
        F = self.F
        h = self.hooks.get("call")
        if h:
            r = h(self, fr, st, path, ra, args, dty, c, atys)
            if r is not None:
                return r
        m = self.models.get(path)
        if m is None:
            for rx, f in self.rxmodels:
                if rx.match(path):
                    m = f
                    break
            if m is None and c.get("tr") and "m" in c:
                m = self.models.get(c["tr"] + "::" + c["m"]) if path == c["p"] else None
        if m is not None:
            ctx = Ctx(self, fr, path, ra, dty, c, atys)
            r = m(ctx, st.fork(), args)
            if r is not NotImplemented:
                self.modelled.add(path)
                out = []
                for s, v in r:
                    if v is None:
                        out.append(("panic", s, None))
                    else:
                        out.append(("ret", s, v))
                return out
        fn = F.fns.get(path)
        if fn is not None and path not in self.no_inline and fr.depth < self.max_depth and fr.chain().count(path) < 2:
            if len(args) == fn["argc"]:
                self.inlined.add(path)
                return self.run_fn(fn, args, st, ra, fr)
        w = FORWARD.match(path)
        if w and c.get("tr") and c.get("m") and ra and args and args[0][0] == "r" and path != c["p"]:
            # a blanket implementation for references that forwards to the referent
            ts = [x for x in ra if isinstance(x, int)]
            if len(ts) == 1:
                r = self.resolve_trait(c["tr"], c["m"], ts[0], [ts[0]])
                if r is not None:
                    v = self.read(st, args[0][1]) if args[0][1][0] == "c" else ("x",)
                    if v[0] == "r":
                        return self.call(fr, st, r[0], r[1], [v] + list(args[1:]), dty, dict(c, p=r[0]), [None] + list(atys[1:]))
        return self.opaque(fr, st, path, ra, args, dty, c, atys)

    def opaque(self, fr, st, path, ra, args, dty, c, atys):
        F = self.F
        if F.types[self.strip(dty)]["k"] == "never":
            s = st.fork()
            s.log("panic", path, fr.where())
            return [("panic", s, None)]
        self.opaque_calls[path] = self.opaque_calls.get(path, 0) + 1
        st = st.fork()
        st.log("call", path, tuple(args), fr.where())
        if c.get("tr") and self.PURE_HINT.search(path):
            try:
                ks = []
                for a in args:
                    if a[0] == "r" and a[1][0] == "c":
                        ks.append("&" + vkey(self.read(st, a[1])))
                    else:
                        ks.append(vkey(a))
                return [("ret", st, self.mat("%s(%s)" % (c["m"], ",".join(ks)), dty))]
            except Unsupported:
                pass
        self.havoc_args(st, args, atys)
        short = path.split("::")[-1]
        # what the caller's code answers is free, what other code answers is merely not known
        free = self.callpanics and self.callercode(fr, path, c)
        return [("ret", st, self.mat(self.fresh(("any_" if free else "?") + short), dty))]

    # ---------------------------------------------------------------- loops
    def diff(self, a, b, path=()):
        if a == b:
            return []
        if a is None or b is None:
            return [path]
        if a[0] == "a" and b[0] == "a" and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]) and a[1] is not None:
            out = []
            enum = self.F.types[a[1]]["k"] == "adt" and self.F.types[a[1]]["adt"] == "enum"
            for i, (x, y) in enumerate(zip(a[3], b[3])):
                out += self.diff(x, y, path + ((("d", a[2]), i) if enum else (i,)))
            return out
        if a[0] == "u" and b[0] == "u" and a[2] == b[2]:
            return self.diff(a[3], b[3], path + (a[2],))
        return [path]

    def do_loop(self, fr, head, body, st):
        loop = (head, body)
        phi = {}  # (cell, path) -> kind
        self.arruid += 1
        phi_uid = self.arruid
        self.loop_uid.append(phi_uid)
        try:
            return self.do_loop_(fr, head, body, st, loop, phi)
        finally:
            self.loop_uid.pop()

    def do_loop_(self, fr, head, body, st, loop, phi):
        F = self.F
        n0 = None
        self.mute += 1
        havoc_ghost = set()
        for rnd in range(8):
            H, names = self.make_head(fr, st, phi, head)
            r = self.explore(fr, head, H, loop)
            new = {}
            for b in r["back"]:
                for cell, v in H.cells.items():
                    if cell not in b.cells:
                        continue
                    if b.cells[cell] is v or b.cells[cell] == v:
                        continue
                    for p in self.diff(v, b.cells[cell]):
                        if any(p[: len(q[1])] == q[1] for q in phi if q[0] == cell and phi[q] == "any"):
                            continue
                        new.setdefault((cell, p), []).append(b)
                for cell in b.cells:
                    if cell not in H.cells and isinstance(cell, str):
                        new.setdefault((cell, ()), []).append(b)
                for g, v in b.ghost.items():
                    if H.ghost.get(g) != v and ("ghost", g) not in phi:
                        phi[("ghost", g)] = "int"
                        n0 = True
            added = False
            for (cell, p), bs in new.items():
                cur = phi.get((cell, p))
                # the value at loop entry
                try:
                    e, _ = self.walk_read(st, st.cells.get(cell, UNDEF), self.cell_ty.get(cell), p) if cell in st.cells else (UNDEF, None)
                except Unsupported:
                    e = UNDEF
                vals = []
                for b in bs:
                    try:
                        vals.append(self.walk_read(b, b.cells[cell], self.cell_ty.get(cell), p)[0])
                    except Unsupported:
                        vals.append(UNDEF)
                kind = self.phi_kind(e, vals) if not (isinstance(cell, str) and cell.startswith("#w:")) else "wlog"
                order = ["int", "bool", "view", "ptr", "any"]
                if cur is None:
                    phi[(cell, p)] = kind
                    added = True
                elif cur != kind and cur != "any":
                    if kind in ("int", "bool", "view", "ptr") and cur == kind:
                        pass
                    else:
                        phi[(cell, p)] = "any"
                        added = True
                # deeper leaves become redundant
            for (c1, p1), k1 in list(phi.items()):
                if c1 == "ghost":
                    continue
                for (c2, p2) in list(phi):
                    if c2 == c1 and p2 != p1 and p2[: len(p1)] == p1 and k1 == "any":
                        phi.pop((c2, p2), None)
            if n0:
                added = True
                n0 = None
            if not added:
                break
        # template invariants
        H, names = self.make_head(fr, st, phi, head)
        cands = self.candidates(fr, st, H, phi, names, loop)
        for _ in range(12):
            H2 = H.fork()
            for cnd in cands:
                H2.add_le(cnd)
            r = self.explore(fr, head, H2, loop)
            keep = []
            for cnd in cands:
                ok = True
                for b in r["back"]:
                    sub = self.subst_back(b, cnd, names)
                    if sub is None or not b.le_holds(sub):
                        ok = False
                        break
                if ok:
                    keep.append(cnd)
            if len(keep) == len(cands):
                break
            cands = keep
        else:
            cands = []
        self.loop_content(st, H, phi, names, r["back"])
        self.mute -= 1
        H2 = H.fork()
        for cnd in cands:
            H2.add_le(cnd)
        H2.log("loop", fr.fn["p"], head)
        mark = H2.ev
        r = self.explore(fr, head, H2, loop)
        rec = {"fn": fr.fn["p"], "frame": fr, "head": head, "H": H2, "backs": r["back"], "names": names, "phi": phi, "inv": cands, "entry": st, "mark": mark, "exit": r["exit"], "line": self.head_line(fr, head)}
        if not self.mute:
            self.loop_recs.append(rec)
        hk = self.hooks.get("loop")
        if hk and not self.mute:
            hk(self, fr, rec)
        return r

    def loop_content(self, st, H, phi, names, backs):
        """Regions a loop fills one byte per turn: what they hold at the loop head."""
        for (cell, p), kind in phi.items():
            if kind not in ("arr", "wlog") or not backs:
                continue
            try:
                h, _ = self.walk_read(H, H.cells[cell], self.cell_ty.get(cell), p)
                h = h if kind == "arr" else H.cells[cell]
            except (Unsupported, KeyError):
                continue
            if kind == "arr" and h[0] != "arr":
                continue
            nm = h[1] if kind == "arr" else h[1][1]
            found = None
            for b in backs:
                try:
                    v = self.walk_read(b, b.cells[cell], self.cell_ty.get(cell), p)[0] if kind == "arr" else b.cells[cell]
                except (Unsupported, KeyError):
                    found = False
                    break
                d = self.arrdef.get(v[1]) if kind == "arr" and v[0] == "arr" else v[1] if kind == "wlog" else None
                if not d or d == "lost" or d[0] == "lazy" or d[0] != (nm if kind == "arr" else ("lazy", nm)):
                    found = False
                    break
                _, off, n, segs = d
                if segs is None or len(segs) != 1 or n != Lin(1):
                    found = False
                    break
                sb, so, _ = segs[0]
                no = self.subst_back(b, off, names)
                ns = self.subst_back(b, so, names)
                if no is None or ns is None or not b.eq_holds(no, off + 1) or not (content.kindless(sb) or b.eq_holds(ns, so + 1)):
                    found = False
                    break
                if content.kindless(sb) and isinstance(sb[1], Lin) and any(x in names for x in sb[1].syms()):
                    found = False
                    break
                if found is None:
                    found = (off, sb, so)
                elif found != (off, sb, so):
                    found = False
                    break
            if not found:
                if kind == "wlog":
                    self.arrdef[nm] = "lost"
                continue
            off, sb, so = found
            o0, s0 = self.subst_back(st, off, names), self.subst_back(st, so, names)
            if o0 is None or s0 is None:
                continue
            if kind == "arr":
                e, _ = self.walk_read(st, st.cells[cell], self.cell_ty.get(cell), p)
                old = e[1] if e[0] == "arr" else ("arrv", e)
            else:
                w = st.cells.get(cell)
                old = w[1] if w is not None and w[0] == "wlog" else None if w is None else "lost"
            self.arrdef[nm] = (old, o0, off - o0, (content.seg(sb, s0, off - o0),))

    def head_line(self, fr, head):
        b = fr.body["blocks"][head]
        t = b["t"]
        for x in (t[-1],):
            if isinstance(x, int) and t[0] in ("call", "switch", "drop", "assert"):
                return x
        for s in b["s"]:
            if s[0] == "=":
                return s[3]
        return 0

    def phi_kind(self, e, vals):
        ks = {e[0]} | {v[0] for v in vals}
        if ks == {"i"}:
            return "int"
        if ks == {"b"}:
            return "bool"
        if ks == {"v"} and len({e[1]} | {v[1] for v in vals}) == 1:
            return "view"
        if ks == {"p"} and len({e[1]} | {v[1] for v in vals}) == 1:
            return "ptr"
        if self.content and ks <= {"arr", "arrv"} and all(v[0] == "arr" for v in vals):
            return "arr"
        return "any"

    def make_head(self, fr, st, phi, head):
        """State at the loop head with the changing leaves replaced by fresh unknowns."""
        H = st.fork()
        names = {}  # symbol -> (cell, path, part)
        for (cell, p), kind in sorted(phi.items(), key=lambda x: (str(x[0]), x[1])):
            base = "φ%s_%d_%s" % (fr.fid, head, (str(cell) + "".join("." + str(x) for x in p)).replace(" ", ""))
            if cell == "ghost":
                H.ghost[p] = Lin.sym(base)
                names[base] = ("ghost", p, "int")
                continue
            ct = self.cell_ty.get(cell)
            tid = self.leaf_ty(cell, p)
            e = None
            if kind == "wlog":
                H.cells[cell] = ("wlog", ("lazy", "%s@%d" % (base, self.loop_uid[-1])))
                continue
            if cell in st.cells:
                try:
                    e, _ = self.walk_read(st, st.cells[cell], ct, p)
                except Unsupported:
                    e = None
            if kind == "int":
                r = self.int_range(self.strip(tid)) if tid is not None else None
                if r:
                    set_range(base, *r)
                nv = INT(Lin.sym(base))
                names[base] = (cell, p, "int")
            elif kind == "bool":
                nv = BOOL(("s", base))
                names[base] = (cell, p, "bool")
            elif kind == "view":
                set_range(base + ".len", 0, ISIZE_MAX)
                nv = ("v", e[1], Lin.sym(base + ".off"), Lin.sym(base + ".len"))
                names[base + ".off"] = (cell, p, "off")
                names[base + ".len"] = (cell, p, "len")
            elif kind == "ptr":
                nv = ("p", e[1], Lin.sym(base + ".off"))
                names[base + ".off"] = (cell, p, "off")
            elif kind == "arr":
                nv = ("arr", "%s@%d" % (base, self.loop_uid[-1]), tid)
            else:
                if tid is None:
                    nv = UNDEF
                else:
                    nv = self.mat(base, tid) if e is None or e[0] != "x" else UNDEF
                    names[base] = (cell, p, "any")
            if not p:
                H.cells[cell] = nv
            elif cell in H.cells:
                H.cells[cell] = self.upd(H, H.cells[cell], ct, p, nv)
        return H, names

    def leaf_ty(self, cell, p):
        return self.loc_ty(None, ("c", cell, p))

    def entry_part(self, st, cell, p, part):
        if cell == "ghost":
            return st.ghost.get(p)
        try:
            v, _ = self.walk_read(st, st.cells.get(cell, UNDEF), self.cell_ty.get(cell), p)
        except Unsupported:
            return None
        if part == "int" and v[0] == "i":
            return v[1]
        if part == "off" and v[0] in ("v", "p"):
            return v[2]
        if part == "len" and v[0] == "v":
            return v[3]
        return None

    def subst_back(self, b, cnd, names):
        r = Lin(cnd.c)
        for s, k in cnd.t:
            if s in names:
                cell, p, part = names[s]
                v = self.entry_part(b, cell, p, part)
                if v is None:
                    return None
                r = r + v.scale(k)
            else:
                r = r + Lin(0, ((s, k),))
        return r

    def candidates(self, fr, st, H, phi, names, loop):
        """Template constraints over the changing quantities that hold on entry."""
        q = []
        for s, (cell, p, part) in sorted(names.items()):
            if part in ("int", "off", "len"):
                e = self.entry_part(st, cell, p, part)
                if e is not None:
                    q.append((Lin.sym(s), e))
        cands = []

        def add(c, e):
            # c over phi symbols, e its entry instance
            if st.le_holds(e) and c not in cands and not c.const:
                cands.append(c)

        # stable quantities: integers and view lengths reachable from this frame
        stable = []
        for cell, v in H.cells.items():
            if isinstance(cell, tuple) and cell[0] == fr.fid or isinstance(cell, str):
                self.collect_ints(v, stable, 0)
        for g, v in H.ghost.items():
            stable.append(v)
        stable = [x for x in dict.fromkeys(stable) if not any(s in names for s in x.syms())][:24]
        for x, e in q:
            add(x - e, Lin(0))
            add(e - x, Lin(0))
            for u in stable:
                if u.const and abs(u.c) > 2**40:
                    continue
                add(x - u, e - u)
                add(u - x, u - e)
        for i in range(len(q)):
            for j in range(i + 1, len(q)):
                x, ex = q[i]
                y, ey = q[j]
                for a in (1, -1):
                    c = x + y.scale(a)
                    e = ex + ey.scale(a)
                    add(c - e, Lin(0))
                    add(e - c, Lin(0))
                add(x - y, ex - ey)
                add(y - x, ey - ex)
                for u in stable:
                    if u.const:
                        continue
                    add(x + y - u, ex + ey - u)
                    add(u - x - y, u - ex - ey)
        for i in range(len(q)):
            for j in range(len(q)):
                for k in range(j + 1, len(q)):
                    if i in (j, k) or len(q) > 7:
                        continue
                    # x = y + z style relations
                    c = q[i][0] - q[j][0] - q[k][0]
                    e = q[i][1] - q[j][1] - q[k][1]
                    add(c - e, Lin(0))
                    add(e - c, Lin(0))
        return cands

    def collect_ints(self, v, out, d):
        if d > 4:
            return
        if v[0] == "i":
            out.append(v[1])
        elif v[0] == "v":
            out.append(v[3])
            out.append(v[2] + v[3])
            if not v[2].const:
                out.append(v[2])
        elif v[0] == "p":
            if not v[2].const:
                out.append(v[2])
        elif v[0] == "a":
            for x in v[3]:
                self.collect_ints(x, out, d + 1)
        elif v[0] == "u":
            self.collect_ints(v[3], out, d + 1)

    # ---------------------------------------------------------------- entry
    def start(self, fn, targs=None, pre=None, args=None):
        """Analyse fn from an unconstrained state; returns its outcomes."""
        self.budget = self.budget0
        self.cell_ty = {}
        st = St()
        targs = targs or []
        self.entry_args = []
        if args is None:
            args = []
            names = {}
            for nm, pl in fn["names"]:
                if len(pl) == 1 and 1 <= pl[0] <= fn["argc"]:
                    names[pl[0]] = nm
            for i in range(fn["argc"]):
                tid = self.F.subst(fn["locals"][i + 1], targs)
                nm = names.get(i + 1, "arg%d" % (i + 1))
                v = self.mat(nm, tid)
                if v[0] == "r":
                    self.cell_ty[v[1][1]] = v[2]
                args.append(v)
        self.entry_args = args
        if pre:
            st2 = pre(self, st, args)
            if st2 is not None:
                st = st2
        self.entry_state = st
        return self.run_body(fn, fn, args, st, targs, None)


FKEYS = {}


def F_key(c):
    k = id(c)
    FKEYS[k] = c
    return k


def vkey(v):
    if v[0] == "i":
        return str(v[1])
    if v[0] == "s":
        return v[1]
    if v[0] == "v":
        return "%s[%s;%s]" % (v[1], v[2], v[3])
    if v[0] == "p":
        return "%s+%s" % (v[1], v[2])
    if v[0] == "r":
        return "&%s" % (v[1],)
    if v[0] == "a":
        return "{%s:%s}" % (v[2], ",".join(vkey(x) for x in v[3]))
    if v[0] == "u":
        return "<%s:%s>" % (v[2], vkey(v[3]))
    return str(v)


class Ctx:
    __slots__ = ("e", "fr", "path", "ra", "dty", "c", "atys")

    def __init__(self, e, fr, path, ra, dty, c, atys):
        self.e = e
        self.fr = fr
        self.path = path
        self.ra = ra
        self.dty = dty
        self.c = c
        self.atys = atys

    def targ(self, i=0):
        a = [x for x in self.ra if isinstance(x, int)]
        return a[i] if i < len(a) else None
