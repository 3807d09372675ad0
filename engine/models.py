"""Abstract semantics of the std primitives the crate is built from.
Each model maps (context, state, argument values) to a list of (state, result);
result None means the call does not return (panic)."""
import re
import content as content_
from lin import Lin, set_range, consistent
from absint import INT, BOOL, UNIT, UNDEF, bnot, band, bor, ble, beq, vkey, ISIZE_MAX, USIZE_MAX, Unsupported

M = {}
RX = []


def model(*names):
    def d(f):
        for n in names:
            if n.startswith("re:"):
                RX.append((re.compile(n[3:] + r"\Z"), f))
            else:
                M[n] = f
        return f

    return d


def install(eng):
    eng.models.update(M)
    eng.rxmodels.extend(RX)


def opt_ty(ctx):
    return ctx.e.strip(ctx.dty)


def some(ctx, v, tid=None):
    return ("a", tid if tid is not None else ctx.e.strip(ctx.dty), 1, (v,))


def none(ctx, tid=None):
    return ("a", tid if tid is not None else ctx.e.strip(ctx.dty), 0, ())


def panic(ctx, st, why):
    s = st.fork()
    s.log("panic", why, ctx.fr.where())
    return (s, None)


def as_view(ctx, st, v):
    """View value of a slice-like argument."""
    if v[0] == "v":
        return v
    if v[0] == "r" and v[1][0] == "c":
        tid = ctx.e.loc_ty(st, v[1])
        if tid is not None and ctx.e.F.types[ctx.e.strip(tid)]["k"] == "array":
            return ("v", ctx.e.base_of_loc(st, v[1], tid), Lin(0), ctx.e.array_len(ctx.e.strip(tid)))
    if v[0] == "p":
        b = ctx.e.bases.get(v[1])
        if b and b.get("extent") is not None:
            return ("v", v[1], v[2], b["extent"] - v[2])
    raise Unsupported("as_view %r in %s" % (v, ctx.path))


def sub(v, off, ln):
    return ("v", v[1], v[2] + off, Lin.of(ln))


def branch(st, b):
    """[(True states)], [(False states)]"""
    return st.assume(b), st.assume(bnot(b))


def I(v):
    if v[0] == "i":
        return v[1]
    raise Unsupported("expected int, got %r" % (v,))


# ---------------------------------------------------------------- slices
@model("std::slice::<impl [T]>::len", "std::str::<impl str>::len", "std::ptr::const_ptr::<impl *const [T]>::len")
def m_len(ctx, st, a):
    return [(st, INT(as_view(ctx, st, a[0])[3]))]


@model("std::slice::<impl [T]>::is_empty", "std::str::<impl str>::is_empty")
def m_is_empty(ctx, st, a):
    return [(st, BOOL(beq(as_view(ctx, st, a[0])[3], 0)))]


@model("std::slice::<impl [T]>::as_ptr", "std::slice::<impl [T]>::as_mut_ptr", "std::str::<impl str>::as_ptr", "std::str::<impl str>::as_mut_ptr")
def m_as_ptr(ctx, st, a):
    v = as_view(ctx, st, a[0])
    return [(st, ("p", v[1], v[2]))]


@model("std::str::<impl str>::as_bytes", "std::str::<impl str>::as_bytes_mut", "std::str::from_utf8_unchecked", "std::str::from_utf8_unchecked_mut",
       "std::str::converts::from_utf8_unchecked", "std::slice::raw::from_ref")
def m_ident_view(ctx, st, a):
    if "from_utf8_unchecked" in ctx.path:
        v = as_view(ctx, st, a[0])
        st.log("utf8-unchecked", v, ctx.fr.where(), segs_of(ctx.e, st, v))
        return [(st, v)]
    return [(st, as_view(ctx, st, a[0]))]


@model("std::slice::from_ref", "std::slice::from_mut")
def m_from_ref(ctx, st, a):
    if a[0][0] == "p":
        return [(st, ("v", a[0][1], a[0][2], Lin(1)))]
    return [(st, ("v", "&" + vkey(a[0]), Lin(0), Lin(1)))]


@model("std::str::from_utf8", "std::str::converts::from_utf8")
def m_from_utf8(ctx, st, a):
    v = as_view(ctx, st, a[0])
    tid = ctx.e.strip(ctx.dty)
    t = ctx.e.F.types[tid]
    nm = "utf8ok(%s)" % vkey(v)
    out = []
    for s in st.assume(("s", nm)):
        s = s.fork()
        s.log("utf8-valid", v, segs_of(ctx.e, s, v))
        out.append((s, ("a", tid, 0, (v,))))
    for s in st.assume(bnot(("s", nm))):
        out.append((s, ("a", tid, 1, (ctx.e.mat("utf8err(%s)" % vkey(v), t["variants"][1]["f"][0]["t"]),))))
    return out


@model("std::slice::from_raw_parts", "std::slice::from_raw_parts_mut", "std::ptr::slice_from_raw_parts", "std::ptr::slice_from_raw_parts_mut", "bytes::buf::UninitSlice::from_raw_parts_mut")
def m_from_raw_parts(ctx, st, a):
    p, n = a[0], I(a[1])
    if p[0] == "null":
        p = ("p", "null", Lin(0))
    if p[0] == "r" and p[1][0] == "c":
        tid = ctx.e.loc_ty(st, p[1])
        if tid is not None and ctx.e.F.types[ctx.e.strip(tid)]["k"] == "array":
            p = ("p", ctx.e.base_of_loc(st, p[1], tid), Lin(0))
        else:
            p = ("p", "&" + vkey(p), Lin(0))
    if p[0] == "i":
        p = ("p", "dangling", p[1])
    if p[0] not in ("p", "v"):
        raise Unsupported("from_raw_parts %r" % (p,))
    v = ("v", p[1], p[2], n)
    st.log("rawview", v, "mut" in ctx.path, ctx.fr.where(), len(ctx.fr.chain()))
    h = ctx.e.hooks.get("rawview")
    if h:
        h(ctx.e, ctx.fr, st, v, "mut" in ctx.path)
    return [(st, v)]


def range_parts(ctx, st, r, n):
    """Resolve a range value (any of the std range types, or usize) against length n.
    Returns [(state, start, end, extra_ok)] where the access is in bounds iff start<=end<=n and extra_ok."""
    e = ctx.e
    if r[0] == "i":
        return [(st, r[1], r[1] + 1, True, "idx")]
    if r[0] == "a" and r[1] is not None:
        t = e.F.types[r[1]]
        d = t.get("def", "")
        if d.endswith("::RangeFull"):
            return [(st, Lin(0), n, True, "rng")]
        if d.endswith("::RangeFrom"):
            return [(st, I(r[3][0]), n, True, "rng")]
        if d.endswith("::RangeTo"):
            return [(st, Lin(0), I(r[3][0]), True, "rng")]
        if d.endswith("::RangeToInclusive"):
            return [(st, Lin(0), I(r[3][0]) + 1, True, "rng")]
        if d.endswith("::RangeInclusive"):
            return [(st, I(r[3][0]), I(r[3][1]) + 1, True, "rng")]
        if d.endswith("::Range"):
            return [(st, I(r[3][0]), I(r[3][1]), True, "rng")]
        if t["k"] == "tuple" and len(r[3]) == 2:
            outs = []
            for s, b0 in e.split_variants(st, r[3][0]):
                for s2, b1 in e.split_variants(s, r[3][1]):
                    st_, ex = bound_pair(ctx, s2, b0, b1, n)
                    outs.append((s2, st_, ex, True, "rng"))
            return outs
    if r[0] == "s" and r[2] is not None and e.F.types[r[2]]["k"] in ("param", "alias"):
        return opaque_range(ctx.e, st, r[1], n)
    raise Unsupported("range %r" % (r,))


def opaque_range(e, st, name, n):
    """A range of an unknown type: every combination of its bounds, as start_bound/end_bound report them."""
    bt = e.F.find_ty("std::ops::Bound<&usize>")
    outs = []
    for s, b0 in e.split_variants(st, e.mat("start_bound(&%s)" % name, bt)):
        for s2, b1 in e.split_variants(s, e.mat("end_bound(&%s)" % name, bt)):
            class C:
                pass
            c = C()
            c.e = e
            s3 = s2.fork()
            st_, ex = bound_pair(c, s3, b0, b1, n)
            outs.append((s3, st_, ex, True, "rng"))
    return outs


def bound_pair(ctx, st, b0, b1, n):
    def val(x):
        if x[0] == "i":
            return x[1]
        if x[0] in ("r", "p"):
            return I(ctx.e.read(st, x[1]) if x[0] == "r" else ctx.e.read(st, ("m", x[1], x[2], ctx.e.F.find_ty("usize"))))
        raise Unsupported("bound %r" % (x,))

    # std::ops::Bound: Included, Excluded, Unbounded
    s0 = Lin(0) if b0[2] == 2 else val(b0[3][0]) + (1 if b0[2] == 1 else 0)
    e0 = n if b1[2] == 2 else val(b1[3][0]) + (1 if b1[2] == 0 else 0)
    return s0, e0


@model("std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow")
def m_as_ref(ctx, st, a):
    """A reference to a slice or a string lent as bytes."""
    e = ctx.e
    t = e.F.types[ctx.ra[0]] if ctx.ra and isinstance(ctx.ra[0], int) else None
    while t and t["k"] == "ref":
        t = e.F.types[t["t"]]
    d = e.F.types[e.strip(ctx.dty)] if ctx.dty is not None else None
    if not t or t["k"] not in ("slice", "str") or not d or d["k"] != "ref" or e.F.types[d["t"]]["k"] not in ("slice", "str"):
        return NotImplemented
    v = a[0]
    while v[0] == "r":
        v = e.read(st, v[1])
    return [(st, v)] if v[0] == "v" else NotImplemented


@model("std::ops::RangeBounds::start_bound", "std::ops::RangeBounds::end_bound", r"re:<(std::ops::Range\w*<.*>|std::ops::RangeFull|\(.*\)) as std::ops::RangeBounds<.*>>::(start|end)_bound")
def m_bound(ctx, st, a):
    """The bounds of a range whose type is known."""
    e = ctx.e
    if a[0][0] != "r":
        return NotImplemented
    v = e.read(st, a[0][1])
    if v[0] != "a" or v[1] is None:
        return NotImplemented
    t = e.F.types[v[1]]
    d = t.get("def", "")
    bt = e.strip(ctx.dty)
    start = ctx.path.endswith("start_bound")
    if t["k"] == "tuple" and len(v[3]) == 2:
        b = v[3][0 if start else 1]
        if b[0] != "a" or b[3] and b[3][0][0] not in ("i", "r"):
            return NotImplemented
        k, x = b[2], b[3][0] if b[3] else None
    elif d.startswith("std::ops::Range"):
        n = d.rsplit("::", 1)[1]
        if start:
            k, x = (2, None) if n in ("RangeFull", "RangeTo", "RangeToInclusive") else (0, v[3][0])
        else:
            k, x = {"RangeFull": (2, None), "RangeFrom": (2, None), "RangeInclusive": (0, 1), "RangeToInclusive": (0, 0)}.get(n, (1, -1))
            if x == 1 and v[3][2][0] == "b" and v[3][2][1] is not False:
                return NotImplemented
            x = v[3][x] if x is not None else None
    else:
        return NotImplemented
    if x is None:
        return [(st, ("a", bt, 2, ()))]
    if x[0] == "r":
        return [(st, ("a", bt, k, (x,)))]
    if x[0] != "i":
        return NotImplemented
    ut = e.F.find_ty("usize")
    nm = e.fresh("*bound")
    e.cell_ty[nm] = ut
    st = st.fork()
    st.cells[nm] = x
    return [(st, ("a", bt, k, (("r", ("c", nm, ()), ut),)))]


def in_bounds(s, e, n):
    return band(ble(s, e), ble(e, n))


def elem_val(ctx, v, off, want_ref=True):
    return ("p", v[1], v[2] + off)


@model("std::slice::<impl [T]>::get", "std::slice::<impl [T]>::get_mut", "std::str::<impl str>::get", "std::str::<impl str>::get_mut")
def m_get(ctx, st, a):
    v = as_view(ctx, st, a[0])
    out = []
    isstr = "impl str" in ctx.path
    for s, b, e, _, k in range_parts(ctx, st, a[1], v[3]):
        ok = in_bounds(b, e, v[3]) if k == "rng" else ble(e, v[3])
        if isstr:
            ok = band(ok, band(cb(ctx.e, s, v, b), cb(ctx.e, s, v, e)))
        for s2 in s.assume(ok):
            out.append((s2, some(ctx, sub(v, b, e - b) if k == "rng" else elem_val(ctx, v, b))))
        for s2 in s.assume(bnot(ok)):
            out.append((s2, none(ctx)))
    return out


@model("std::slice::<impl [T]>::get_unchecked", "std::slice::<impl [T]>::get_unchecked_mut", "std::str::<impl str>::get_unchecked")
def m_get_unchecked(ctx, st, a):
    v = as_view(ctx, st, a[0])
    out = []
    for s, b, e, _, k in range_parts(ctx, st, a[1], v[3]):
        w = sub(v, b, e - b)
        s = s.fork()
        s.log("rawview", w, "mut" in ctx.path, ctx.fr.where(), len(ctx.fr.chain()))
        h = ctx.e.hooks.get("rawview")
        if h:
            h(ctx.e, ctx.fr, s, w, "mut" in ctx.path)
        if "impl str" in ctx.path:
            s.log("utf8-unchecked", w, ctx.fr.where(), segs_of(ctx.e, s, w))
        out.append((s, w if k == "rng" else elem_val(ctx, v, b)))
    return out


@model("std::slice::index::<impl std::ops::Index<I> for [T]>::index", "std::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut",
       "std::array::<impl std::ops::Index<I> for [T; N]>::index", "std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut",
       "std::str::traits::<impl std::ops::Index<I> for str>::index", "re:.*<impl std::ops::Index<.*> for str>::index",
       "<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut")
def m_index(ctx, st, a):
    v = a[0]
    if v[0] == "r" and v[1][0] == "c" and "Vec" in ctx.path:
        v = vec_view(ctx, st, v)
    v = as_view(ctx, st, v)
    out = []
    for s, b, e, _, k in range_parts(ctx, st, a[1], v[3]):
        ok = in_bounds(b, e, v[3]) if k == "rng" else ble(e, v[3])
        if " for str>" in ctx.path:
            ok = band(ok, band(cb(ctx.e, s, v, b), cb(ctx.e, s, v, e)))
        for s2 in s.assume(ok):
            out.append((s2, sub(v, b, e - b) if k == "rng" else elem_val(ctx, v, b)))
        for s2 in s.assume(bnot(ok)):
            out.append(panic(ctx, s2, "slice index"))
    return out


@model("std::slice::<impl [T]>::split_at", "std::slice::<impl [T]>::split_at_mut", "std::slice::<impl [T]>::split_at_checked", "std::str::<impl str>::split_at")
def m_split_at(ctx, st, a):
    v = as_view(ctx, st, a[0])
    n = I(a[1])
    out = []
    chk = ctx.path.endswith("checked")
    ok = ble(n, v[3])
    if "impl str" in ctx.path:
        ok = band(ok, cb(ctx.e, st, v, n))
    tid = ctx.e.strip(ctx.dty)
    for s in st.assume(ok):
        l, r = sub(v, 0, n), sub(v, n, v[3] - n)
        if chk:
            inner = ctx.e.F.types[tid]["variants"][1]["f"][0]["t"]
            out.append((s, some(ctx, ("a", inner, 0, (l, r)))))
        else:
            out.append((s, ("a", tid, 0, (l, r))))
    for s in st.assume(bnot(ok)):
        out.append((s, none(ctx)) if chk else panic(ctx, s, "split_at"))
    return out


@model("std::slice::<impl [T]>::split_first", "std::slice::<impl [T]>::split_last", "std::slice::<impl [T]>::first", "std::slice::<impl [T]>::last")
def m_split_first(ctx, st, a):
    v = as_view(ctx, st, a[0])
    out = []
    tid = ctx.e.strip(ctx.dty)
    for s in st.assume(ble(1, v[3])):
        first = "first" in ctx.path
        el = elem_val(ctx, v, Lin(0) if first else v[3] - 1)
        if "split" in ctx.path:
            rest = sub(v, 1, v[3] - 1) if first else sub(v, 0, v[3] - 1)
            inner = ctx.e.F.types[tid]["variants"][1]["f"][0]["t"]
            out.append((s, some(ctx, ("a", inner, 0, (el, rest)))))
        else:
            out.append((s, some(ctx, el)))
    for s in st.assume(bnot(ble(1, v[3]))):
        out.append((s, none(ctx)))
    return out


@model("std::slice::<impl [T]>::copy_from_slice", "std::slice::<impl [T]>::clone_from_slice")
def m_copy_from_slice(ctx, st, a):
    d, s_ = as_view(ctx, st, a[0]), as_view(ctx, st, a[1])
    out = []
    ok = beq(d[3], s_[3])
    for s in st.assume(ok):
        s = s.fork()
        ctx.e.log_copy(s, s_[1], s_[2], d[1], d[2], s_[3], ctx.fr.where())
        out.append((s, UNIT))
    for s in st.assume(bnot(ok)):
        out.append(panic(ctx, s, "copy_from_slice length mismatch"))
    return out


def ptr_bo(ctx, st, v):
    if v[0] in ("p", "v"):
        return v[1], v[2]
    if v[0] == "r" and v[1][0] == "m":
        return v[1][1], v[1][2]
    if v[0] == "r":
        tid = ctx.e.loc_ty(st, v[1])
        if tid is not None and ctx.e.F.types[ctx.e.strip(tid)]["k"] == "array":
            return ctx.e.base_of_loc(st, v[1], tid), Lin(0)
        return "&" + vkey(v), Lin(0)
    return vkey(v), Lin(0)


@model("std::ptr::copy_nonoverlapping", "std::ptr::copy", "std::intrinsics::copy_nonoverlapping", "std::intrinsics::copy")
def m_copy(ctx, st, a):
    sb, so = ptr_bo(ctx, st, a[0])
    db, do = ptr_bo(ctx, st, a[1])
    t = ctx.targ(0)
    sz = ctx.e.size_of(ctx.e.strip(t)) if t is not None else 1
    n = I(a[2]).scale(sz or 1)
    ctx.e.log_copy(st, sb, so, db, do, n, ctx.fr.where())
    h = ctx.e.hooks.get("rawcopy")
    if h:
        h(ctx.e, ctx.fr, st, (sb, so), (db, do), n)
    return [(st, UNIT)]


@model("std::ptr::mut_ptr::<impl *mut T>::copy_from_nonoverlapping", "std::ptr::mut_ptr::<impl *mut T>::copy_from")
def m_copy_from(ctx, st, a):
    return m_copy(ctx, st, [a[1], a[0], a[2]])


@model("std::ptr::const_ptr::<impl *const T>::copy_to_nonoverlapping", "std::ptr::const_ptr::<impl *const T>::copy_to", "std::ptr::mut_ptr::<impl *mut T>::copy_to_nonoverlapping")
def m_copy_to(ctx, st, a):
    return m_copy(ctx, st, a)


@model("std::ptr::mut_ptr::<impl *mut T>::write_bytes", "std::ptr::write_bytes", "std::intrinsics::write_bytes")
def m_write_bytes(ctx, st, a):
    db, do = ptr_bo(ctx, st, a[0])
    n = I(a[2])
    ctx.e.log_fill(st, db, do, n, ctx.fr.where(), vkey(a[1]))
    h = ctx.e.hooks.get("rawcopy")
    if h:
        h(ctx.e, ctx.fr, st, None, (db, do), n)
    return [(st, UNIT)]


@model("std::slice::<impl [T]>::fill")
def m_fill(ctx, st, a):
    v = as_view(ctx, st, a[0])
    ctx.e.log_fill(st, v[1], v[2], v[3], ctx.fr.where(), vkey(a[1]))
    return [(st, UNIT)]


# ---------------------------------------------------------------- pointers
@model("std::ptr::const_ptr::<impl *const T>::add", "std::ptr::mut_ptr::<impl *mut T>::add", "std::ptr::const_ptr::<impl *const T>::wrapping_add",
       "std::ptr::mut_ptr::<impl *mut T>::wrapping_add", "std::ptr::const_ptr::<impl *const T>::offset", "std::ptr::mut_ptr::<impl *mut T>::offset",
       "std::ptr::const_ptr::<impl *const T>::byte_add", "std::ptr::mut_ptr::<impl *mut T>::byte_add", "std::ptr::NonNull::<T>::add", "std::ptr::non_null::NonNull::<T>::add")
def m_ptr_add(ctx, st, a):
    t = ctx.targ(0)
    n = I(a[1])
    if "byte_" not in ctx.path:
        sz = ctx.e.size_of(ctx.e.strip(t)) if t is not None else None
        n = n.scale(sz) if sz is not None else Lin.sym("sizeof*(%s)" % n)
    return [(st, ctx.e.ptr_add(st, a[0], n, None))]


@model("std::ptr::const_ptr::<impl *const T>::sub", "std::ptr::mut_ptr::<impl *mut T>::sub", "std::ptr::const_ptr::<impl *const T>::byte_sub", "std::ptr::mut_ptr::<impl *mut T>::byte_sub")
def m_ptr_sub(ctx, st, a):
    return m_ptr_add(ctx, st, [a[0], INT(-I(a[1]))])


@model("std::ptr::const_ptr::<impl *const T>::offset_from", "std::ptr::mut_ptr::<impl *mut T>::offset_from", "std::ptr::const_ptr::<impl *const T>::byte_offset_from",
       "std::ptr::mut_ptr::<impl *mut T>::byte_offset_from", "std::ptr::const_ptr::<impl *const T>::offset_from_unsigned")
def m_offset_from(ctx, st, a):
    x, y = a[0], a[1]
    if x[0] == "v":
        x = ("p", x[1], x[2])
    if y[0] == "v":
        y = ("p", y[1], y[2])
    if x[0] == "p" and y[0] == "p" and x[1] == y[1]:
        return [(st, INT(x[2] - y[2]))]
    nm = "offset_from(%s,%s)" % (vkey(x), vkey(y))
    set_range(nm, -ISIZE_MAX, ISIZE_MAX)
    return [(st, INT(Lin.sym(nm)))]


@model("std::ptr::const_ptr::<impl *const T>::cast", "std::ptr::mut_ptr::<impl *mut T>::cast", "std::ptr::const_ptr::<impl *const T>::cast_mut",
       "std::ptr::mut_ptr::<impl *mut T>::cast_const", "std::ptr::NonNull::<T>::as_ptr", "std::ptr::NonNull::<T>::cast", "std::ptr::NonNull::<T>::new_unchecked",
       "std::ptr::non_null::NonNull::<T>::as_ptr", "std::ptr::from_ref", "std::ptr::from_mut", "std::convert::identity", "std::hint::black_box", "std::ptr::NonNull::<T>::as_ref", "std::ptr::NonNull::<T>::as_mut")
def m_ptr_ident(ctx, st, a):
    v = a[0]
    if v[0] == "r" and ctx.path.endswith(("as_ref", "as_mut")) and "NonNull" in ctx.path:
        v = ctx.e.read(st, v[1])
    if v[0] == "v" and ctx.path.endswith("::cast"):
        v = ("p", v[1], v[2])
    if v[0] == "r" and v[1][0] == "c" and ctx.path.endswith("::cast"):
        tid = ctx.e.loc_ty(st, v[1])
        if tid is not None and ctx.e.F.types[ctx.e.strip(tid)]["k"] == "array":
            v = ("p", ctx.e.base_of_loc(st, v[1], tid), Lin(0))
    return [(st, v)]


@model("std::ptr::const_ptr::<impl *const T>::is_null", "std::ptr::mut_ptr::<impl *mut T>::is_null")
def m_is_null(ctx, st, a):
    return [(st, BOOL(ctx.e.ptr_eq(st, a[0], ("null",))))]


@model("std::ptr::null", "std::ptr::null_mut")
def m_null(ctx, st, a):
    return [(st, ("null",))]


@model("std::ptr::NonNull::<T>::dangling", "std::ptr::dangling", "std::ptr::dangling_mut")
def m_dangling(ctx, st, a):
    return [(st, ("p", "dangling", Lin(1)))]


@model("std::ptr::const_ptr::<impl *const T>::as_ref", "std::ptr::mut_ptr::<impl *mut T>::as_ref", "std::ptr::mut_ptr::<impl *mut T>::as_mut", "std::ptr::NonNull::<T>::new")
def m_ptr_as_ref(ctx, st, a):
    out = []
    b = ctx.e.ptr_eq(st, a[0], ("null",))
    for s in st.assume(bnot(b)):
        v = a[0]
        out.append((s, some(ctx, v)))
    for s in st.assume(b):
        out.append((s, none(ctx)))
    return out


@model("std::ptr::read", "std::ptr::const_ptr::<impl *const T>::read", "std::ptr::mut_ptr::<impl *mut T>::read", "std::ptr::read_unaligned", "std::ptr::const_ptr::<impl *const T>::read_unaligned", "std::ptr::NonNull::<T>::read")
def m_ptr_read(ctx, st, a):
    e = ctx.e
    t = ctx.targ(0)
    loc = e.deref(st, a[0], t)
    if loc[0] == "c":
        lt = e.loc_ty(st, loc)
        if lt is not None and e.F.s(e.strip(lt)) != e.F.s(e.strip(t)):
            v = e.read(st, loc)
            v = e.transmute(ctx.fr, st, v, lt, t)
            st.log("dup", v, ctx.fr.where())
            return [(st, v)]
    v = e.read(st, loc, t)
    if e.needs_drop(t):
        st.log("dup", v, ctx.fr.where())
    return [(st, v)]


@model("std::ptr::write", "std::ptr::mut_ptr::<impl *mut T>::write", "std::ptr::write_unaligned", "std::ptr::NonNull::<T>::write")
def m_ptr_write(ctx, st, a):
    e = ctx.e
    t = ctx.targ(0)
    loc = e.deref(st, a[0], t)
    h = e.hooks.get("rawcopy")
    if h and a[0][0] == "p":
        sz = e.size_of(e.strip(t))
        h(e, ctx.fr, st, None, (a[0][1], a[0][2]), Lin(sz or 0))
    e.write(st, loc, a[1])
    return [(st, UNIT)]


@model("std::mem::transmute_copy")
def m_transmute_copy(ctx, st, a):
    e = ctx.e
    src, dst = ctx.targ(0), ctx.targ(1)
    v = a[0]
    if v[0] == "r" and v[1][0] == "c":
        x = e.read(st, v[1])
    else:
        x = e.read(st, e.deref(st, v, src), src)
    if e.F.types[e.strip(dst)]["k"] == "int" and e.F.types[e.strip(dst)]["bits"] == 8 and x[0] == "a" and x[3] and x[3][0][0] == "i":
        # little-endian first byte of the first field
        f = e.F.types[x[1]]["variants"][0]["f"][0]["t"]
        if e.F.types[x[1]].get("offs", [0])[0] == 0:
            return [(st, e.binop(ctx.fr, st, "BitAnd", x[3][0], INT(255), f))]
    r = e.transmute(ctx.fr, st, x, src, dst)
    if e.needs_drop(dst):
        st.log("dup", r, ctx.fr.where())
    return [(st, r)]


@model("std::mem::forget")
def m_forget(ctx, st, a):
    st.log("forget", a[0], ctx.e.F.s(ctx.targ(0)) if ctx.targ(0) is not None else "?", ctx.fr.where())
    return [(st, UNIT)]


@model("std::mem::drop")
def m_drop(ctx, st, a):
    e = ctx.e
    return [(s, UNIT) for s in e.drop_value(ctx.fr, st, a[0], ctx.targ(0), temp_loc(e, st, a[0], ctx.targ(0)))]


def temp_loc(e, st, v, tid):
    e.uid += 1
    c = ("tmp", e.uid)
    e.cell_ty[c] = tid
    st.cells[c] = v
    return ("c", c, ())


@model("std::ptr::drop_in_place", "std::ptr::mut_ptr::<impl *mut T>::drop_in_place", "std::mem::ManuallyDrop::<T>::drop")
def m_drop_in_place(ctx, st, a):
    e = ctx.e
    t = ctx.targ(0)
    loc = e.deref(st, a[0], t)
    if loc[0] == "c":
        v = e.read(st, loc)
        return [(s, UNIT) for s in e.drop_value(ctx.fr, st, v, t, loc)]
    st.log("drop-region", loc, e.F.s(t))
    return [(st, UNIT)]


@model("std::mem::ManuallyDrop::<T>::new", "std::mem::ManuallyDrop::<T>::into_inner", "std::mem::MaybeUninit::<T>::new", "std::mem::MaybeUninit::<T>::assume_init", "std::boxed::Box::<T>::into_raw", "std::boxed::Box::<T>::from_raw",
       "std::boxed::Box::<T, A>::into_raw", "std::boxed::Box::<T>::leak", "<std::mem::ManuallyDrop<T> as std::ops::Deref>::deref", "<std::mem::ManuallyDrop<T> as std::ops::DerefMut>::deref_mut",
       "std::mem::MaybeUninit::<T>::assume_init_ref", "std::mem::MaybeUninit::<T>::assume_init_mut", "std::mem::MaybeUninit::<T>::as_mut_ptr", "std::mem::MaybeUninit::<T>::as_ptr",
       "std::boxed::Box::<T, A>::leak", "<std::boxed::Box<T, A> as std::ops::Deref>::deref", "std::pin::Pin::<Ptr>::new", "std::pin::Pin::<Ptr>::new_unchecked", "std::pin::Pin::<&'a mut T>::get_mut",
       "std::pin::Pin::<&'a mut T>::get_unchecked_mut", "std::pin::Pin::<Ptr>::into_inner", "std::pin::Pin::<&'a mut T>::into_ref")
def m_ident(ctx, st, a):
    return [(st, a[0])]


@model("std::mem::ManuallyDrop::<T>::take", "std::mem::MaybeUninit::<T>::assume_init_read")
def m_md_take(ctx, st, a):
    v = ctx.e.read(st, ctx.e.deref(st, a[0], ctx.targ(0)))
    st.log("dup", v, ctx.fr.where())
    return [(st, v)]


@model("std::mem::MaybeUninit::<T>::assume_init_drop")
def m_mu_drop(ctx, st, a):
    return m_drop_in_place(ctx, st, a)


@model("std::mem::MaybeUninit::<T>::write")
def m_mu_write(ctx, st, a):
    loc = ctx.e.deref(st, a[0], ctx.targ(0))
    ctx.e.write(st, loc, a[1])
    return [(st, a[0])]


@model("std::mem::MaybeUninit::<T>::uninit", "std::mem::MaybeUninit::<T>::zeroed", "std::mem::uninitialized")
def m_uninit(ctx, st, a):
    t = ctx.targ(0)
    if t is not None and ctx.e.F.types[ctx.e.strip(t)]["k"] == "array":
        if ctx.e.explicit:
            return [(st, UNDEF)]
        return [(st, ("arr", ctx.e.fresh("uninit"), ctx.e.strip(t)))]
    return [(st, UNDEF)]


@model("std::boxed::Box::<T>::new")
def m_box_new(ctx, st, a):
    e = ctx.e
    t = ctx.targ(0)
    e.uid += 1
    cell = "*box%d" % e.uid
    e.cell_ty[cell] = t
    st.cells[cell] = a[0]
    st.log("box-new", cell, ctx.fr.where())
    return [(st, ("r", ("c", cell, ()), t))]


@model("std::mem::zeroed")
def m_zeroed(ctx, st, a):
    t = ctx.targ(0)
    sz = ctx.e.size_of(ctx.e.strip(t))
    if sz is not None:
        v = ctx.e.from_bytes(t, b"\0" * max(sz, 8), 0)
        if v is not None:
            return [(st, v)]
    return [(st, ctx.e.mat("zeroed(%s)" % ctx.e.F.s(t), t))]


@model("std::mem::replace", "std::mem::take")
def m_replace(ctx, st, a):
    e = ctx.e
    t = ctx.targ(0)
    loc = e.deref(st, a[0], t)
    old = e.read(st, loc, t)
    if ctx.path.endswith("take"):
        r = default_of(ctx, st, t)
        out = []
        for s, v in r:
            s = s.fork()
            e.write(s, loc, v)
            out.append((s, old))
        return out
    e.write(st, loc, a[1])
    return [(st, old)]


def default_of(ctx, st, t):
    e = ctx.e
    F = e.F
    tt = F.types[e.strip(t)]
    if tt["k"] == "int":
        return [(st, INT(0))]
    if tt["k"] == "bool":
        return [(st, BOOL(False))]
    if tt["k"] == "adt" and tt["def"] == "std::option::Option":
        return [(st, ("a", e.strip(t), 0, ()))]
    if tt["k"] == "ref" and F.types[tt["t"]]["k"] in ("slice", "str"):
        return [(st, ("v", "empty", Lin(0), Lin(0)))]
    r = e.resolve_trait("std::default::Default", "default", t, [t])
    if r is not None and r[0] in F.fns:
        return [(s, v) for k, s, v in e.run_fn(F.fns[r[0]], [], st, r[1], ctx.fr) if k == "ret"]
    return [(st, e.mat(e.fresh("?default"), t))]


@model("std::default::Default::default", "re:<.* as std::default::Default>::default")
def m_default(ctx, st, a):
    p = ctx.path
    if p in ctx.e.F.fns and ctx.e.F.fns[p]["local"]:
        return NotImplemented
    return default_of(ctx, st, ctx.dty)


@model("std::mem::swap", "std::ptr::swap")
def m_swap(ctx, st, a):
    e = ctx.e
    t = ctx.targ(0)
    l1, l2 = e.deref(st, a[0], t), e.deref(st, a[1], t)
    x, y = e.read(st, l1, t), e.read(st, l2, t)
    e.write(st, l1, y)
    e.write(st, l2, x)
    return [(st, UNIT)]


@model("std::mem::size_of", "std::mem::align_of", "std::mem::size_of_val", "std::mem::align_of_val")
def m_size_of(ctx, st, a):
    t = ctx.targ(0)
    tt = ctx.e.F.types[t]
    k = "size" if "size" in ctx.path else "align"
    if k in tt:
        return [(st, INT(tt[k]))]
    nm = "%s(%s)" % (k, tt["s"])
    set_range(nm, 0 if k == "size" else 1, ISIZE_MAX if k == "size" else 1 << 29)
    return [(st, INT(Lin.sym(nm)))]


@model("std::mem::needs_drop")
def m_needs_drop(ctx, st, a):
    t = ctx.e.F.types[ctx.targ(0)]
    if t.get("poly"):
        return [(st, BOOL(("s", "needs_drop(%s)" % t["s"])))]
    return [(st, BOOL(ctx.e.needs_drop(ctx.targ(0))))]


# ---------------------------------------------------------------- integers
def int_ty(ctx):
    return ctx.e.strip(ctx.atys[0])


@model("re:std::cmp::impls::<impl std::cmp::Ord for (u|i)\\w+>::(min|max)", "std::cmp::min", "std::cmp::max", "std::cmp::Ord::min", "std::cmp::Ord::max")
def m_minmax(ctx, st, a):
    if a[0][0] != "i" or a[1][0] != "i":
        return NotImplemented
    x, y = a[0][1], a[1][1]
    mn = ctx.path.endswith("min")
    out = []
    for s in st.assume(ble(x, y)):
        out.append((s, INT(x if mn else y)))
    for s in st.assume(ble(y + 1, x)):
        out.append((s, INT(y if mn else x)))
    return out


@model("re:std::num::<impl \\w+>::(wrapping|unchecked|saturating|checked|overflowing)_(add|sub|mul)")
def m_arith(ctx, st, a):
    m = re.match(r"std::num::<impl (\w+)>::(\w+?)_(add|sub|mul)", ctx.path)
    mode, op = m.group(2), m.group(3)
    e = ctx.e
    if a[0][0] != "i" or a[1][0] != "i":
        return NotImplemented
    t = int_ty(ctx)
    x, y = a[0][1], a[1][1]
    if op == "mul" and not x.const and not y.const:
        raw = e.ufun("mul(%s,%s)" % tuple(sorted((str(x), str(y)))), 0, USIZE_MAX)
    else:
        raw = x + y if op == "add" else x - y if op == "sub" else (y.scale(x.c) if x.const else x.scale(y.c))
    lo, hi = e.int_range(t)
    ok = band(ble(raw, hi), ble(lo, raw))
    if mode == "wrapping":
        return [(st, INT(e.fit(st, raw, t)))]
    if mode == "unchecked":
        return [(st, INT(raw))]
    out = []
    for s in st.assume(ok):
        v = INT(raw)
        if mode == "checked":
            v = some(ctx, v)
        elif mode == "overflowing":
            v = ("a", e.strip(ctx.dty), 0, (v, BOOL(False)))
        out.append((s, v))
    for s in st.assume(bnot(ok)):
        if mode == "checked":
            v = none(ctx)
        elif mode == "saturating":
            v = INT(hi) if s.truth(ble(raw, hi)) is not True else INT(lo)
        else:
            s = s.fork()
            v = ("a", e.strip(ctx.dty), 0, (INT(e.fit(s, raw, t)), BOOL(True)))
        out.append((s, v))
    return out


@model("re:std::num::<impl \\w+>::(to_le|from_le|swap_bytes_noop|to_ne)")
def m_to_le(ctx, st, a):
    return [(st, a[0])]


@model("std::num::<impl usize>::next_power_of_two")
def m_npot(ctx, st, a):
    x = I(a[0])
    if x.const and x.c >= 0:
        return [(st, INT(1 << max(x.c - 1, 0).bit_length()))]
    if ctx.e.is_pow2(x, st):
        return [(st, INT(x))]
    nm = "npot(%s)" % x
    set_range(nm, 1, USIZE_MAX)
    st.add_le(x - Lin.sym(nm))
    if st.le_holds(1 - x):
        st.add_le(Lin.sym(nm) - x.scale(2) + 1)
    return [(st, INT(Lin.sym(nm)))]


@model("re:std::num::<impl \\w+>::(is_power_of_two)")
def m_ipot(ctx, st, a):
    if a[0][0] == "i" and (a[0][1].const or ctx.e.is_pow2(a[0][1], st)):
        return [(st, BOOL(ctx.e.is_pow2(a[0][1], st)))]
    return [(st, BOOL(("s", "ispot(%s)" % vkey(a[0]))))]


@model("re:std::num::<impl \\w+>::(ilog2|trailing_zeros|leading_zeros|count_ones|ilog10)")
def m_ilog(ctx, st, a):
    if a[0][0] == "i" and a[0][1].const:
        n, op = a[0][1].c, ctx.path.split("::")[-1]
        mt = re.search(r"<impl [ui](\d+|size)>", ctx.path)
        bits = 64 if not mt or mt.group(1) == "size" else int(mt.group(1))
        if n >= 0:
            if op == "trailing_zeros":
                return [(st, INT(bits if n == 0 else (n & -n).bit_length() - 1))]
            if op == "leading_zeros":
                return [(st, INT(bits - n.bit_length()))]
            if op == "count_ones":
                return [(st, INT(bin(n).count("1")))]
            if op == "ilog2" and n > 0:
                return [(st, INT(n.bit_length() - 1))]
    nm = "%s(%s)" % (ctx.path.split("::")[-1], vkey(a[0]))
    set_range(nm, 0, 64)
    if "ilog2" in ctx.path and a[0][0] == "i":
        x = a[0][1]
        m = re.match(r"(div|shr)\((.*),(\d+)\)$", x.t[0][0]) if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 else None
        d = m and (int(m.group(3)) if m.group(1) == "div" else 1 << int(m.group(3)))
        if m and d in (2, 4, 8) and ctx.e.is_pow2(Lin.sym(m.group(2)), st):
            ctx.e.logof[nm] = (Lin.sym(m.group(2)), d)
        elif ctx.e.is_pow2(x, st):
            ctx.e.logof[nm] = (x, 1)
    return [(st, INT(Lin.sym(nm)))]


@model("re:<&?\\w+ as std::ops::(Add|Sub)<&?\\w+>>::(add|sub)", "re:std::ops::arith::<impl std::ops::(Add|Sub)<&?\\w+> for &?\\w+>::(add|sub)")
def m_opadd(ctx, st, a):
    def v(x):
        if x[0] == "i":
            return x[1]
        if x[0] == "r":
            return I(ctx.e.read(st, x[1]))
        if x[0] == "p":
            return I(ctx.e.read(st, ("m", x[1], x[2], ctx.dty), ctx.dty))
        raise Unsupported("opadd")

    x, y = v(a[0]), v(a[1])
    raw = x + y if ctx.path.endswith("add") else x - y
    return [(st, INT(ctx.e.fit(st, raw, ctx.e.strip(ctx.dty))))]


@model("re:std::clone::impls::<impl std::clone::Clone for \\w+>::clone", "re:<&.* as std::clone::Clone>::clone")
def m_clone_prim(ctx, st, a):
    e = ctx.e
    v = e.read(st, e.deref(st, a[0], ctx.dty), ctx.dty)
    return [(st, v)]


# ---------------------------------------------------------------- comparisons of byte content
def content(ctx, st, v):
    if v[0] == "v":
        return "%s[%s;%s]" % (v[1], v[2], v[3])
    if v[0] == "r" and v[1][0] == "c":
        try:
            return content(ctx, st, as_view(ctx, st, v))
        except Unsupported:
            x = ctx.e.read(st, v[1])
            if x[0] in ("v", "r", "p"):
                return content(ctx, st, x)
            return vkey(x)
    if v[0] == "p":
        try:
            return content(ctx, st, as_view(ctx, st, v))
        except Unsupported:
            return vkey(v)
    return vkey(v)


def view_opt(ctx, st, v):
    try:
        return as_view(ctx, st, v)
    except Unsupported:
        if v[0] == "r" and v[1][0] == "c":
            x = ctx.e.read(st, v[1])
            if x[0] in ("v",):
                return x
            if x[0] == "vec":
                return x[1]
            if x[0] == "r":
                return view_opt(ctx, st, x)
            if x[0] == "s" and x[2] is not None and ctx.e.F.types[ctx.e.strip(x[2])].get("def") in ("std::vec::Vec", "std::string::String"):
                return vec_view_val(ctx, st, x)
        return None


@model("std::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq", "std::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::ne", "std::str::traits::<impl std::cmp::PartialEq for str>::eq", "std::str::traits::<impl std::cmp::PartialEq for str>::ne",
       "re:std::array::equality::<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)", "re:std::(vec|string)::(partial_eq::)?<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)", "re:<std::string::String as std::cmp::PartialEq<.*>>::(eq|ne)")
def m_slice_eq(ctx, st, a):
    x, y = view_opt(ctx, st, a[0]), view_opt(ctx, st, a[1])
    ks = sorted((content(ctx, st, a[0]), content(ctx, st, a[1])))
    if x is not None and y is not None:
        if st.truth(beq(x[3], y[3])) is False:
            b = False
        elif x == y:
            b = True
        elif st.truth(beq(x[3], 0)) is True and st.truth(beq(y[3], 0)) is True:
            b = True
        else:
            nm = "bytes_eq(%s,%s)" % tuple(ks)
            b = band(beq(x[3], y[3]), ("s", nm))
            if ctx.e.content and nm not in ctx.e.eqfacts:
                import content as ct
                ctx.e.eqfacts[nm] = (ct.resolve(ctx.e, st, x[1], x[2], x[3]), ct.resolve(ctx.e, st, y[1], y[2], y[3]))
    else:
        b = ("s", "bytes_eq(%s,%s)" % tuple(ks))
    if ctx.path.endswith("ne"):
        b = bnot(b)
    return [(st, BOOL(b))]


def same_bytes(ctx, st, x, y):
    """The boolean for two views of one length holding the same bytes."""
    ks = sorted((content(ctx, st, x), content(ctx, st, y)))
    if st.le_holds(x[3]) or x == y:
        return True
    nm = "bytes_eq(%s,%s)" % tuple(ks)
    if ctx.e.content and nm not in ctx.e.eqfacts:
        import content as ct
        ctx.e.eqfacts[nm] = (ct.resolve(ctx.e, st, x[1], x[2], x[3]), ct.resolve(ctx.e, st, y[1], y[2], y[3]))
    return ("s", nm)


@model("re:<&'a (\\[u8\\]|str) as nom::Compare<&'b (\\[u8\\]|str)>>::compare")
def m_nom_compare(ctx, st, a):
    """What nom documents: whether the input starts with the tag, differs from it, or is a proper prefix of it."""
    e = ctx.e
    if not e.explicit:
        return NotImplemented
    x, y = view_opt(ctx, st, a[0]), view_opt(ctx, st, a[1])
    if x is None or y is None:
        return NotImplemented
    tid = e.strip(ctx.dty)
    names = [v["n"].rsplit("::", 1)[-1] for v in e.F.types[tid]["variants"]]
    mk = lambda n: ("a", tid, names.index(n), ())
    out = []
    for long, s0 in [(True, s) for s in st.assume(ble(y[3], x[3]))] + [(False, s) for s in st.assume(ble(x[3] + 1, y[3]))]:
        n = y[3] if long else x[3]
        b = same_bytes(ctx, s0, sub(x, 0, n), sub(y, 0, n))
        out += [(s, mk("Ok" if long else "Incomplete")) for s in s0.assume(b)]
        out += [(s, mk("Error")) for s in s0.assume(bnot(b))]
    return out


@model("re:<&'a (\\[u8\\]|str) as nom::(FindSubstring|InputIter|FindToken|InputLength|Compare).*>::\\w+", "re:<&'b? ?(\\[u8\\]|str) as nom::(FindToken).*>::\\w+")
def m_nom_own(ctx, st, a):
    """The parser library's own answer for a slice or text: unknown, but noted with what it was asked."""
    if not ctx.e.explicit:
        return NotImplemented
    vs = []
    for x in a:
        v = view_opt(ctx, st, x) if x[0] in ("r", "v", "p") else None
        vs.append(v if v is not None else x)
    s = st.fork()
    nm = ctx.e.fresh("?nom_" + ctx.path.rsplit("::", 1)[1])
    s.log("nom", ctx.path, tuple(vs), nm)
    return [(s, ctx.e.mat(nm, ctx.dty))]


@model("std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>::eq", "std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>::ne", "std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne",
       "std::cmp::impls::<impl std::cmp::PartialEq<&mut B> for &mut A>::eq")
def m_ref_eq(ctx, st, a):
    e = ctx.e
    x, y = a[0], a[1]
    xt, yt = e.strip(ctx.atys[0]), e.strip(ctx.atys[1])
    if "for &" in ctx.path:
        # double references
        xt, yt = e.pointee(xt), e.pointee(yt)
        x = e.read(st, e.deref(st, x, xt), xt)
        y = e.read(st, e.deref(st, y, yt), yt)
    px, py = e.pointee(xt), e.pointee(yt)
    while px is not None and py is not None and e.F.types[e.strip(px)]["k"] == "ref" and e.F.types[e.strip(py)]["k"] == "ref":
        x = e.read(st, e.deref(st, x, px), px)
        y = e.read(st, e.deref(st, y, py), py)
        px, py = e.pointee(px), e.pointee(py)
    tx = e.F.types[e.strip(px)] if px is not None else None
    ty = e.F.types[e.strip(py)] if py is not None else None
    neg = ctx.path.endswith("ne")

    def ret(b):
        return [(st, BOOL(bnot(b) if neg else b))]

    if tx is not None and ty is not None:
        if tx["k"] in ("slice", "str", "array") and ty["k"] in ("slice", "str", "array"):
            return m_slice_eq(ctx, st, [x, y])
        if tx["k"] in ("int", "char") and ty["k"] in ("int", "char"):
            vx = e.read(st, e.deref(st, x, px), px)
            vy = e.read(st, e.deref(st, y, py), py)
            return ret(beq(I(vx), I(vy)))
        if tx["k"] == "adt" or ty["k"] == "adt":
            r = e.resolve_trait("std::cmp::PartialEq", "eq", px, [px, py])
            if r is not None and r[0] in e.F.fns:
                out = []
                for k, s, v in e.run_fn(e.F.fns[r[0]], [x, y], st, r[1], ctx.fr):
                    if k == "ret":
                        out.append((s, BOOL(bnot(v[1])) if neg and v[0] == "b" else v))
                    else:
                        out.append((s, None))
                return out
    return [(st, BOOL(("s", "opeq(%s,%s)" % (content(ctx, st, x), content(ctx, st, y)))))]


@model("re:std::slice::cmp::<impl std::cmp::(Partial)?Ord for \\[T\\]>::(partial_cmp|cmp)", "re:std::str::traits::<impl std::cmp::(Partial)?Ord for str>::(partial_cmp|cmp)", "re:std::array::<impl std::cmp::(Partial)?Ord for .*>::(partial_cmp|cmp)")
def m_slice_cmp(ctx, st, a):
    e = ctx.e
    nm = "cmp(%s,%s)" % (content(ctx, st, a[0]), content(ctx, st, a[1]))
    tid = e.strip(ctx.dty)
    partial = ctx.path.endswith("partial_cmp")
    inner = e.F.types[tid]["variants"][1]["f"][0]["t"] if partial else tid
    wrap = lambda v: ("a", tid, 1, (v,)) if partial else v
    x, y = view_opt(ctx, st, a[0]), view_opt(ctx, st, a[1])
    if not e.orders or x is None or y is None:
        return [(st, wrap(e.mat(nm, inner)))]
    import content as ct

    names = [v["n"].rsplit("::", 1)[-1] for v in e.F.types[e.strip(inner)]["variants"]]
    mk = lambda n: wrap(("a", e.strip(inner), names.index(n), ()))
    out = []
    eq = band(beq(x[3], y[3]), True if x == y else same_bytes(ctx, st, x, y))
    if st.truth(eq) is not False:
        out += [(s, mk("Equal")) for s in st.assume(eq)]
    ks = (content(ctx, st, x), content(ctx, st, y))
    turned = ks[0] > ks[1]
    lt = "bytes_lt(%s,%s)" % tuple(sorted(ks))
    if lt not in e.ltfacts:
        r = (ct.resolve(e, st, x[1], x[2], x[3]), ct.resolve(e, st, y[1], y[2], y[3]))
        e.ltfacts[lt] = r[::-1] if turned else r
    for s in st.assume(bnot(eq)):
        # nothing comes before the empty sequence
        for less in (True, False):
            low, high = (x, y) if less else (y, x)
            if s.le_holds(high[3]):
                continue
            for s2 in [s] if s.le_holds(low[3]) else s.assume(("s", lt) if less != turned else bnot(("s", lt))):
                out.append((s2, mk("Less" if less else "Greater")))
    return out


@model("re:std::hash::impls::<impl std::hash::Hash for .*>::hash", "re:<\\[T\\] as std::hash::Hash>::hash", "std::hash::Hash::hash", "std::hash::Hasher::write", "re:std::hash::Hasher::write_\\w+")
def m_hash(ctx, st, a):
    kind = ctx.path.split(" for ")[-1].split(">")[0] if " for " in ctx.path else ctx.path
    x = a[1] if "Hasher::" in ctx.path else a[0]
    st.log("hash", kind, content(ctx, st, x), ctx.fr.where())
    v = view_opt(ctx, st, x)
    if v is not None and ctx.e.content:
        import content as ct

        segs = ct.resolve(ctx.e, st, v[1], v[2], v[3])
        st.log("hasher", None if segs is None else tuple(segs), None)
    else:
        while x[0] == "r" and x[1][0] == "c":
            x = ctx.e.read(st, x[1])
        st.log("hasher", None, x[1] if x[0] == "i" else x)
    return [(st, UNIT)]


# ---------------------------------------------------------------- str boundaries
def segs_of(e, st, v):
    return content_.resolve(e, st, v[1], v[2], v[3]) if e.content else None


def cb(e, st, v, pos):
    """Boolean atom: position pos of string view v is a character boundary."""
    pos = Lin.of(pos)
    if st.eq_holds(pos, 0) or st.eq_holds(pos, v[3]):
        return True
    b, a = v[1], v[2] + pos
    if e.content:
        r = content_.resolve(e, st, v[1], a, 1)
        if r is not None and len(r) == 1 and not content_.kindless(r[0][0]):
            b, a = r[0][0], r[0][1]
    nm = "cb(%s@%s)" % (content_.sname(b), a)
    e.cbsym[nm] = (b, a)
    return ("s", nm)


def set_cb(e, st, v, pos):
    """Record that position pos of string view v is a character boundary."""
    k = cb(e, st, v, pos)
    if k is not True:
        st.bools = dict(st.bools)
        st.bools[k[1]] = True
        x = content_.elem(e, st, v[1], v[2] + pos, e.F.find_ty("u8")) if e.content else None
        if x is not None and x[0] == "i" and not x[1].const:
            # where another character begins the byte is no continuation byte (the end of the text has no byte at all)
            q = e.ufun("div(%s,64)" % x[1], 0, 3)
            st.add_le(q.scale(64) - x[1])
            st.add_le(x[1] - q.scale(64) - 63)
            if q.scale(64) - 128 not in st.ne:
                st.ne = st.ne + (q.scale(64) - 128,)


def str_pattern(ctx, st, p):
    """What a pattern matches: (length of a match or None, its one byte or None)."""
    if p[0] == "i" and p[1].const:
        c = p[1].c
        return Lin(1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4), (c if c < 0x80 else None)
    if p[0] == "v":
        return p[3], None
    return None, None


def find_char(ctx, st, v, test):
    """str::find with a test of characters, one character after the other."""
    e = ctx.e
    bt = e.F.find_ty("bool")
    out = []
    work = [(st, Lin(0), 0)]
    while work:
        s0, at, n = work.pop()
        for s in s0.assume(ble(v[3], at)):
            out.append((s, none(ctx)))
        if n == 5:
            e.cuts[ctx.path] = e.cuts.get(ctx.path, 0) + 1
            continue
        for s in s0.assume(ble(at + 1, v[3])):
            s = s.fork()
            pos = v[2] + at
            nm = "charlen(%s@%s)" % (v[1], pos)
            set_range(nm, 1, 4)
            k = Lin.sym(nm)
            s.add_le(at + k - v[3])
            set_cb(e, s, v, at + k)
            ch = e.mat("char(%s@%s)" % (v[1], pos), e.F.find_ty("char"))
            for kind, s2, b in e.call_closure(ctx.fr, s, test, [ch], bt):
                if kind != "ret":
                    out.append((s2, None))
                    continue
                if b[0] != "b":
                    raise Unsupported("predicate result")
                for s3 in s2.assume(b[1]):
                    out.append((s3, some(ctx, INT(at))))
                for s3 in s2.assume(bnot(b[1])):
                    work.append((s3, at + k, n + 1))
    return out


@model("std::str::<impl str>::find", "std::str::<impl str>::rfind")
def m_str_find(ctx, st, a):
    """The position of a match: any boundary of the text followed by a match, or nothing."""
    e = ctx.e
    v = as_view(ctx, st, a[0])
    k, byte = str_pattern(ctx, st, a[1])
    if k is None:
        if e.explicit and ctx.path.endswith("::find"):
            return find_char(ctx, st, v, a[1])
        st.log("callback", ctx.path, ctx.fr.where())
    nm = e.fresh("find") + "(%s)" % vkey(v)
    set_range(nm, 0, 1 << 62)
    out = []
    s = st.fork()
    if k is None:
        kn = e.fresh("charlen")
        set_range(kn, 1, 4)
        k = Lin.sym(kn)
    p = Lin.sym(nm)
    s.add_le(p + k - v[3])
    set_cb(e, s, v, p)
    set_cb(e, s, v, p + k)
    if byte is not None and e.content:
        x = content_.elem(e, s, v[1], v[2] + p, e.F.find_ty("u8"))
        if x is not None and x[0] == "i":
            s.add_le(x[1] - byte)
            s.add_le(Lin(byte) - x[1])
    if consistent(s.facts()):
        out.append((s, some(ctx, INT(p))))
    out.append((st, none(ctx)))
    return out


@model("std::char::methods::<impl char>::len_utf8")
def m_len_utf8(ctx, st, a):
    """The length of a character that was read from a text is the length it was read with."""
    v = a[0]
    if v[0] == "i" and len(v[1].t) == 1 and not v[1].c:
        (s, k), = v[1].t.items() if isinstance(v[1].t, dict) else v[1].t
        if k == 1 and s.startswith("char("):
            nm = "charlen(" + s[5:]
            set_range(nm, 1, 4)
            return [(st, INT(Lin.sym(nm)))]
    return NotImplemented


@model("std::char::methods::<impl char>::encode_utf8")
def m_encode_utf8(ctx, st, a):
    """Writes the encoding of a character: text of one to four bytes."""
    e = ctx.e
    dst = as_view(ctx, st, a[1])
    if a[0][0] != "i":
        return NotImplemented
    if a[0][1].const:
        c = a[0][1].c
        k = Lin(1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4)
    else:
        nm = "utf8len(%s)" % vkey(a[0])
        set_range(nm, 1, 4)
        k = Lin.sym(nm)
    b = "utf8(%s)" % vkey(a[0])
    e.bases.setdefault(b, {"extent": k, "lo": Lin(0)})
    e.textbase[b] = k
    out = []
    for s in st.assume(ble(k, dst[3])):
        s = s.fork()
        w = sub(dst, 0, k)
        s.log("copy", b, Lin(0), dst[1], dst[2], k, ctx.fr.where())
        if e.content:
            content_.update(e, s, dst[1], dst[2], k, ("seg", b, Lin(0)))
        out.append((s, w))
    for s in st.assume(bnot(ble(k, dst[3]))):
        out.append(panic(ctx, s, "encode_utf8"))
    return out


@model("std::str::<impl str>::trim", "std::str::<impl str>::trim_start", "std::str::<impl str>::trim_end")
def m_str_trim(ctx, st, a):
    e = ctx.e
    v = as_view(ctx, st, a[0])
    s = st.fork()
    b, n = Lin(0), v[3]
    if not ctx.path.endswith("_end"):
        nm = e.fresh("trim") + "(%s)" % vkey(v)
        set_range(nm, 0, 1 << 62)
        b = Lin.sym(nm)
        n = n - b
        s.add_le(b - v[3])
        set_cb(e, s, v, b)
    if not ctx.path.endswith("_start"):
        nm = e.fresh("trimmed") + "(%s)" % vkey(v)
        set_range(nm, 0, 1 << 62)
        s.add_le(Lin.sym(nm) - n)
        n = Lin.sym(nm)
        set_cb(e, s, v, b + n)
    return [(s, sub(v, b, n))]


@model("std::str::<impl str>::is_char_boundary")
def m_icb(ctx, st, a):
    v = as_view(ctx, st, a[0])
    n = I(a[1])
    out = []
    for s in st.assume(beq(n, 0)):
        out.append((s, BOOL(True)))
    for s0 in st.assume(bnot(beq(n, 0))):
        for s in s0.assume(beq(n, v[3])):
            out.append((s, BOOL(True)))
        for s1 in s0.assume(bnot(beq(n, v[3]))):
            for s in s1.assume(ble(n, v[3])):
                out.append((s, BOOL(cb(ctx.e, s, v, n))))
            for s in s1.assume(bnot(ble(n, v[3]))):
                out.append((s, BOOL(False)))
    return out


# ---------------------------------------------------------------- iterators over slices
def it_new(ctx, v):
    return ("a", ctx.e.strip(ctx.dty), 0, (v,))


@model("std::slice::<impl [T]>::iter", "std::slice::<impl [T]>::iter_mut", "std::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter", "std::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter",
       "re:std::array::<impl std::iter::IntoIterator for &'a (mut )?\\[T; N\\]>::into_iter", "std::str::<impl str>::bytes", "std::str::<impl str>::chars", "std::str::<impl str>::char_indices", "re:<&'a (mut )?std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def m_iter(ctx, st, a):
    v = vec_view(ctx, st, a[0]) if "Vec" in ctx.path else as_view(ctx, st, a[0])
    if ctx.path.endswith("char_indices"):
        return [(st, ("a", ctx.e.strip(ctx.dty), 0, (v, INT(v[2]))))]
    return [(st, it_new(ctx, v))]


def get_it(ctx, st, r):
    loc = ctx.e.deref(st, r, ctx.e.pointee(ctx.atys[0]))
    return loc, ctx.e.read(st, loc)


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next", "<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back")
def m_iter_next(ctx, st, a):
    loc, it = get_it(ctx, st, a[0])
    if it[0] != "a" or not it[3] or it[3][0][0] != "v":
        return NotImplemented
    v = it[3][0]
    out = []
    back = ctx.path.endswith("next_back")
    for s in st.assume(ble(1, v[3])):
        s = s.fork()
        nv = sub(v, 0 if back else 1, v[3] - 1)
        ctx.e.write(s, loc, ("a", it[1], 0, (nv,)))
        out.append((s, some(ctx, elem_val(ctx, v, v[3] - 1 if back else Lin(0)))))
    for s in st.assume(beq(v[3], 0)):
        out.append((s, none(ctx)))
    return out


@model("<std::str::Chars<'a> as std::iter::Iterator>::next", "<std::str::CharIndices<'a> as std::iter::Iterator>::next", "<std::str::Bytes<'_> as std::iter::Iterator>::next",
       "<std::str::Chars<'a> as std::iter::DoubleEndedIterator>::next_back", "<std::str::CharIndices<'a> as std::iter::DoubleEndedIterator>::next_back")
def m_chars_next(ctx, st, a):
    e = ctx.e
    loc, it = get_it(ctx, st, a[0])
    if it[0] != "a" or not it[3] or it[3][0][0] != "v":
        return NotImplemented
    v = it[3][0]
    out = []
    back = ctx.path.endswith("next_back")
    bytes_ = "Bytes" in ctx.path
    tid = e.strip(ctx.dty)
    inner = e.F.types[tid]["variants"][1]["f"][0]["t"]
    for s in st.assume(ble(1, v[3])):
        s = s.fork()
        if bytes_:
            k = Lin(1)
        else:
            nm = "charlen(%s@%s)" % (v[1], (v[2] + v[3]) if back else v[2])
            set_range(nm, 1, 4)
            k = Lin.sym(nm)
            s.add_le(k - v[3])
        pos = v[2] + v[3] - k if back else v[2]
        nv = sub(v, 0, v[3] - k) if back else sub(v, k, v[3] - k)
        e.write(s, loc, ("a", it[1], 0, (nv,) + it[3][1:]))
        # the cut between consumed and remaining text is a character boundary
        at = (v[2] + v[3] - k) if back else (v[2] + k)
        set_cb(e, s, v, at - v[2])
        ch = e.mat("char(%s@%s)" % (v[1], pos), e.F.find_ty("char")) if not bytes_ else e.read(s, ("m", v[1], pos, e.F.find_ty("u8")))
        if "CharIndices" in ctx.path:
            start = it[3][1][1] if len(it[3]) > 1 else Lin(0)
            out.append((s, some(ctx, ("a", e.strip(inner), 0, (INT(pos - start), ch)))))
        else:
            out.append((s, some(ctx, ch)))
    for s in st.assume(beq(v[3], 0)):
        out.append((s, none(ctx)))
    return out


@model("std::str::Chars::<'a>::as_str", "std::str::CharIndices::<'a>::as_str", "std::slice::Iter::<'a, T>::as_slice")
def m_it_as_str(ctx, st, a):
    loc, it = get_it(ctx, st, a[0])
    if it[0] == "a" and it[3] and it[3][0][0] == "v":
        return [(st, it[3][0])]
    return NotImplemented


@model("std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next")
def m_range_next(ctx, st, a):
    e = ctx.e
    loc, r = get_it(ctx, st, a[0])
    if r[0] != "a" or r[3][0][0] != "i":
        return NotImplemented
    s0, e0 = r[3][0][1], r[3][1][1]
    out = []
    for s in st.assume(ble(s0 + 1, e0)):
        s = s.fork()
        e.write(s, loc, ("a", r[1], 0, (INT(s0 + 1), r[3][1])))
        out.append((s, some(ctx, INT(s0))))
    for s in st.assume(ble(e0, s0)):
        out.append((s, none(ctx)))
    return out


@model("<I as std::iter::IntoIterator>::into_iter", "std::iter::Iterator::by_ref")
def m_into_iter(ctx, st, a):
    return [(st, a[0])]


@model("std::iter::Iterator::enumerate", "std::iter::Iterator::take", "std::iter::Iterator::skip")
def m_adapter(ctx, st, a):
    # Enumerate{iter,count}, Take{iter,n}, Skip{iter,n}
    return [(st, ("a", ctx.e.strip(ctx.dty), 0, (a[0], a[1] if len(a) > 1 else INT(0))))]


def inner_next(ctx, st, itref, it_ty, item_opt_ty=None, meth="next"):
    """Call Iterator::next on the iterator stored at location ref itref of type it_ty."""
    e = ctx.e
    F = e.F
    if item_opt_ty is None:
        raise Unsupported("inner_next")
    mut_ref = F.mk_ref(it_ty, True)
    c = {"p": "std::iter::Iterator::next", "a": [it_ty], "tr": "std::iter::Iterator", "m": meth}
    head = F.head(e.strip(it_ty))
    r = e.resolve_trait("std::iter::Iterator", meth, it_ty, [it_ty])
    cands = {
        "std::slice::Iter": "<std::slice::Iter<'a, T> as std::iter::Iterator>::next",
        "std::str::Chars": "<std::str::Chars<'a> as std::iter::Iterator>::next",
        "std::str::CharIndices": "<std::str::CharIndices<'a> as std::iter::Iterator>::next",
        "std::ops::Range": "std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next",
        "std::iter::Enumerate": "<std::iter::Enumerate<I> as std::iter::Iterator>::next",
        "std::iter::Map": "<std::iter::Map<I, F> as std::iter::Iterator>::next",
    }
    if r is not None:
        return e.call(ctx.fr, st, r[0], r[1], [itref], item_opt_ty, c, [mut_ref])
    p = cands.get(head)
    if p is None:
        raise Unsupported("next of " + str(head))
    args = [x for x in F.types[e.strip(it_ty)].get("args", [])]
    return e.call(ctx.fr, st, p, args, [itref], item_opt_ty, c, [mut_ref])


@model("<std::iter::Enumerate<I> as std::iter::Iterator>::next")
def m_enum_next(ctx, st, a):
    e = ctx.e
    F = e.F
    loc, it = get_it(ctx, st, a[0])
    if it[0] != "a" or loc[0] != "c":
        return NotImplemented
    t = F.types[it[1]]
    inner_t = t["variants"][0]["f"][0]["t"]
    tid = e.strip(ctx.dty)
    pair = F.types[tid]["variants"][1]["f"][0]["t"]
    item = F.types[e.strip(pair)]["ts"][1]
    optt = F.new_ty(dict(F.types[tid], s="std::option::Option<%s>" % F.s(item), args=[item], variants=[F.types[tid]["variants"][0], dict(F.types[tid]["variants"][1], f=[dict(F.types[tid]["variants"][1]["f"][0], t=item)])]))
    out = []
    for k, s, v in inner_next(ctx, st, ("r", ("c", loc[1], loc[2] + (0,)), inner_t), inner_t, optt):
        if k != "ret":
            out.append((s, None))
            continue
        for s2, o in e.split_variants(s, v):
            s2 = s2.fork()
            if o[2] == 1:
                cur = e.read(s2, loc)
                cnt = cur[3][1]
                e.write(s2, ("c", loc[1], loc[2] + (1,)), INT(e.fit(s2, I(cnt) + 1, F.find_ty("usize"))))
                out.append((s2, some(ctx, ("a", e.strip(pair), 0, (cnt, o[3][0])))))
            else:
                out.append((s2, none(ctx)))
    return out


# ---------------------------------------------------------------- closures and fn traits
@model("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call", "re:std::ops::function::impls::.*::call(_once|_mut)?")
def m_call_fn(ctx, st, a):
    clo, tup = a[0], a[1]
    args = list(tup[3]) if tup[0] == "a" else [tup]
    out = []
    for k, s, v in ctx.e.call_closure(ctx.fr, st, clo, args, ctx.dty):
        out.append((s, v if k == "ret" else None))
    return out


# ---------------------------------------------------------------- Vec / String / Box<[u8]> as owned byte views
def vec_key(v):
    return vkey(v)


def bytes_view(e, v):
    """View of a value laid out as bytes::Bytes (pointer, length, data, table)."""
    if v[0] == "a" and v[1] is not None and e.F.types[v[1]]["k"] == "adt" and len(v[3]) == 4:
        f = dict(zip((f["n"] for f in e.F.types[v[1]]["variants"][0]["f"]), v[3]))
        if set(f) == {"ptr", "len", "data", "vtable"} and f["len"][0] == "i":
            if f["ptr"][0] in ("p", "v"):
                return ("v", f["ptr"][1], f["ptr"][2], f["len"][1])
            if f["ptr"][0] == "null":
                return ("v", "null", Lin(0), f["len"][1])
    return None


def mk_bytes(ctx, v, data=None):
    """A bytes::Bytes over a view."""
    e = ctx.e
    tid = e.strip(ctx.dty)
    fs = e.F.types[tid]["variants"][0]["f"] if e.F.types[tid].get("variants") else []
    if not e.content or [f["n"] for f in fs] != ["ptr", "len", "data", "vtable"]:
        return None
    nm = e.fresh("bytes")
    return ("a", tid, 0, (("p", v[1], v[2]), INT(v[3]), data or ("s", nm + ".data", e.strip(fs[2]["t"])), ("s", nm + ".vtable", e.strip(fs[3]["t"]))))


@model("bytes::Bytes::new", "<bytes::Bytes as std::default::Default>::default")
def m_bytes_new(ctx, st, a):
    v = mk_bytes(ctx, ("v", "dangling", Lin(1), Lin(0)))
    return [(st, v)] if v else NotImplemented


@model("bytes::Bytes::from_static", "re:<bytes::Bytes as std::convert::From<(std::vec::Vec<u8>|std::string::String|std::boxed::Box<\\[u8\\]>|&'static (\\[u8\\]|str))>>::from", "<bytes::Bytes as std::clone::Clone>::clone", "bytes::BytesMut::freeze")
def m_bytes_same(ctx, st, a):
    if a[0][0] == "v":
        w = a[0]
    elif a[0][0] == "r":
        w = vec_view(ctx, st, a[0])
    else:
        w = vec_view_val(ctx, st, a[0])
    v = mk_bytes(ctx, w)
    return [(st, v)] if v else NotImplemented


@model("bytes::Bytes::copy_from_slice")
def m_bytes_copy(ctx, st, a):
    e = ctx.e
    v = as_view(ctx, st, a[0])
    nm = e.fresh("vec")
    e.bases[nm] = {"extent": v[3], "lo": Lin(0), "owned": True}
    r = mk_bytes(ctx, ("v", nm, Lin(0), v[3]))
    if r is None:
        return NotImplemented
    st.log("alloc-copy", v[1], v[2], v[3], nm, ctx.fr.where())
    content_.update(e, st, nm, 0, v[3], ("seg", v[1], v[2]))
    return [(st, r)]


@model("bytes::Bytes::slice")
def m_bytes_slice(ctx, st, a):
    w = vec_view(ctx, st, a[0])
    out = []
    for s, b, n, _, k in range_parts(ctx, st, a[1], w[3]):
        ok = in_bounds(b, n, w[3])
        for s2 in s.assume(ok):
            v = mk_bytes(ctx, sub(w, b, n - b))
            if v is None:
                return NotImplemented
            out.append((s2, v))
        for s2 in s.assume(bnot(ok)):
            out.append(panic(ctx, s2, "Bytes::slice"))
    return out


@model("bytes::Bytes::as_ptr")
def m_bytes_ptr(ctx, st, a):
    w = vec_view(ctx, st, a[0])
    return [(st, ("p", w[1], w[2]))]


def vec_view(ctx, st, r):
    """View of the contents of a Vec/String/Box behind reference r."""
    e = ctx.e
    if r[0] == "v":
        return r
    if r[0] == "r" and r[1][0] == "c":
        v = e.read(st, r[1])
        if v[0] == "v":
            return v
        nm = vkey(v)
        if v[0] == "vec":
            return v[1]
        w = bytes_view(e, v)
        if w is not None:
            return w
    else:
        nm = "*" + vkey(r)
    nm = "vec(%s)" % nm
    set_range(nm + ".len", 0, e.maxlen)
    e.bases.setdefault(nm, {"extent": Lin.sym(nm + ".len"), "lo": Lin(0), "owned": True})
    if r[0] == "r" and r[1][0] == "c":
        note_text(e, nm, v)
    return ("v", nm, Lin(0), Lin.sym(nm + ".len"))


@model("std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice", "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref", "<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut",
       "std::string::String::as_str", "std::string::String::as_bytes", "<std::string::String as std::ops::Deref>::deref", "re:<std::string::String as std::convert::AsRef<.*>>::as_ref", "std::string::String::as_mut_str",
       "<std::sync::Arc<T, A> as std::ops::Deref>::deref", "<std::sync::Arc<T, A> as std::convert::AsRef<T>>::as_ref", "<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref",
       "<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow", "<std::io::IoSlice<'a> as std::ops::Deref>::deref", "<std::io::IoSliceMut<'a> as std::ops::Deref>::deref", "<std::io::IoSliceMut<'a> as std::ops::DerefMut>::deref_mut",
       "<bytes::Bytes as std::ops::Deref>::deref", "<bytes::Bytes as std::convert::AsRef<[u8]>>::as_ref", "<bytes::BytesMut as std::ops::DerefMut>::deref_mut", "<bytes::BytesMut as std::ops::Deref>::deref")
def m_vec_slice(ctx, st, a):
    return [(st, vec_view(ctx, st, a[0]))]


@model("std::vec::Vec::<T, A>::len", "std::string::String::len", "bytes::Bytes::len", "bytes::BytesMut::len")
def m_vec_len(ctx, st, a):
    return [(st, INT(vec_view(ctx, st, a[0])[3]))]


@model("std::vec::Vec::<T, A>::is_empty", "std::string::String::is_empty", "bytes::Bytes::is_empty")
def m_vec_is_empty(ctx, st, a):
    return [(st, BOOL(beq(vec_view(ctx, st, a[0])[3], 0)))]


@model("std::vec::Vec::<T, A>::as_ptr", "std::vec::Vec::<T, A>::as_mut_ptr")
def m_vec_ptr(ctx, st, a):
    v = vec_view(ctx, st, a[0])
    return [(st, ("p", v[1], v[2]))]


@model("std::slice::<impl [T]>::to_vec", "re:std::slice::<impl std::borrow::ToOwned for \\[T\\]>::to_owned", "std::str::<impl std::borrow::ToOwned for str>::to_owned", "re:<str as std::string::(Spec)?ToString>::.*", "std::slice::<impl [T]>::into_vec",
       "re:<std::vec::Vec<T> as std::convert::From<&\\[T\\]>>::from", "re:<std::vec::Vec<T> as std::convert::From<&'a? ?\\[T\\]>>::from", "std::string::String::from_utf8_unchecked", "std::string::String::into_bytes", "std::str::<impl str>::to_owned")
def m_to_vec(ctx, st, a):
    e = ctx.e
    if a[0][0] == "vec" or "into_bytes" in ctx.path or "unchecked" in ctx.path:
        if "unchecked" in ctx.path:
            v = vec_view_val(ctx, st, a[0])
            st.log("utf8-unchecked", v, ctx.fr.where(), segs_of(ctx.e, st, v))
        return [(st, a[0])]
    v = as_view(ctx, st, a[0])
    nm = e.fresh("vec")
    e.bases[nm] = {"extent": v[3], "lo": Lin(0), "owned": True}
    st.log("alloc-copy", v[1], v[2], v[3], nm, ctx.fr.where())
    if e.content:
        content_.update(e, st, nm, 0, v[3], ("seg", v[1], v[2]))
    return [(st, ("vec", ("v", nm, Lin(0), v[3])))]


def vec_view_val(ctx, st, v):
    if v[0] == "vec":
        return v[1]
    w = bytes_view(ctx.e, v)
    if w is not None:
        return w
    nm = "vec(%s)" % vkey(v)
    set_range(nm + ".len", 0, ctx.e.maxlen)
    ctx.e.bases.setdefault(nm, {"extent": Lin.sym(nm + ".len"), "lo": Lin(0), "owned": True})
    note_text(ctx.e, nm, v)
    return ("v", nm, Lin(0), Lin.sym(nm + ".len"))


def note_text(e, nm, v):
    if v[0] == "s" and v[2] is not None and e.F.types[e.strip(v[2])].get("def") == "std::string::String":
        e.textbase[nm] = Lin.sym(nm + ".len")


@model("std::vec::Vec::<T>::new", "std::string::String::new", "std::vec::Vec::<T>::with_capacity", "std::string::String::with_capacity", "bytes::BytesMut::with_capacity", "bytes::BytesMut::new")
def m_vec_new(ctx, st, a):
    nm = ctx.e.fresh("vec")
    ctx.e.bases[nm] = {"extent": Lin(0), "lo": Lin(0), "owned": True}
    if a and a[0][0] == "i":
        st.log("cap", nm, a[0][1])
    return [(st, ("vec", ("v", nm, Lin(0), Lin(0))))]


@model("re:<std::pin::Pin<.*> as std::ops::Deref(Mut)?>::deref(_mut)?")
def m_pin_deref(ctx, st, a):
    return [(st, ctx.e.read(st, a[0][1]) if a[0][0] == "r" else a[0])]


@model("std::io::IoSlice::<'a>::new", "std::io::IoSliceMut::<'a>::new")
def m_ioslice(ctx, st, a):
    v = as_view(ctx, st, a[0])
    return [(st, ("vec", v))] if v is not None else NotImplemented


@model("re:http_body(_\\w+)?(::size_hint)?::SizeHint::with_exact")
def m_size_hint(ctx, st, a):
    e = ctx.e
    tid = e.strip(ctx.dty)
    t = e.F.types[tid]
    vals = []
    for f in (t.get("variants") or [{"f": []}])[0]["f"]:
        o = e.F.types[e.strip(f["t"])]
        vals.append(a[0] if o["k"] == "int" else ("a", e.strip(f["t"]), 1, (a[0],)))
    return [(st, ("a", tid, 0, tuple(vals)))] if vals else NotImplemented


@model("re:http_body(_\\w+)?(::frame)?::Frame::<T>::data")
def m_frame(ctx, st, a):
    return [(st, ("a", ctx.e.strip(ctx.dty), 0, (a[0],)))]


@model("std::vec::Vec::<T, A>::extend_from_slice", "std::string::String::push_str", "bytes::BytesMut::extend_from_slice", "re:<bytes::BytesMut as bytes(::\\w+)*::BufMut>::put(_slice)?")
def m_vec_extend(ctx, st, a):
    e = ctx.e
    v = vec_view(ctx, st, a[0])
    s = as_view(ctx, st, a[1])
    st.log("cap", v[1], v[2] + v[3] + s[3])
    e.log_copy(st, s[1], s[2], v[1], v[2] + v[3], s[3], ctx.fr.where())
    st.log("vec-extend", v[1], v[3], s, ctx.fr.where())
    if a[0][0] == "r":
        e.write(st, a[0][1], ("vec", ("v", v[1], v[2], e_sum(st, v[3], s[3]))))
    return [(st, UNIT)]


def e_sum(st, a, b):
    return a + b


@model("std::vec::Vec::<T, A>::push", "std::string::String::push")
def m_vec_push(ctx, st, a):
    e = ctx.e
    v = vec_view(ctx, st, a[0])
    if "String" in ctx.path:
        nm = "utf8len(%s)" % vkey(a[1])
        set_range(nm, 1, 4)
        k = Lin.sym(nm)
    else:
        k = Lin(1)
    st.log("cap", v[1], v[2] + v[3] + k)
    st.log("vec-push", v[1], v[3], a[1], ctx.fr.where())
    if e.content:
        content_.update(e, st, v[1], v[2] + v[3], k, ("val", a[1]) if k.const else None)
    if a[0][0] == "r":
        e.write(st, a[0][1], ("vec", ("v", v[1], v[2], v[3] + k)))
    return [(st, UNIT)]


@model("std::vec::Vec::<T, A>::reserve", "std::string::String::reserve", "std::vec::Vec::<T, A>::shrink_to_fit", "bytes::BytesMut::reserve")
def m_vec_reserve(ctx, st, a):
    v = vec_view(ctx, st, a[0])
    if len(a) > 1 and a[1][0] == "i":
        st.log("cap", v[1], v[2] + v[3] + a[1][1])
    else:
        st.log("cap", v[1], None)
    return [(st, UNIT)]


@model("std::vec::Vec::<T, A>::set_len", "bytes::BytesMut::set_len")
def m_vec_set_len(ctx, st, a):
    v = vec_view(ctx, st, a[0])
    n = I(a[1])
    st.log("set-len", v[1], v[2] + n, ctx.fr.where())
    if a[0][0] == "r":
        ctx.e.write(st, a[0][1], ("vec", ("v", v[1], v[2], n)))
    return [(st, UNIT)]


@model("std::vec::Vec::<T, A>::truncate")
def m_vec_truncate(ctx, st, a):
    e = ctx.e
    v = vec_view(ctx, st, a[0])
    n = I(a[1])
    out = []
    for s in st.assume(ble(n, v[3])):
        s = s.fork()
        e.write(s, a[0][1], ("vec", sub(v, 0, n)))
        out.append((s, UNIT))
    for s in st.assume(ble(v[3] + 1, n)):
        out.append((s, UNIT))
    return out


# ---------------------------------------------------------------- atomics
@model("re:std::sync::atomic::Atomic(::)?<.*>::(\\w+)", "re:std::sync::atomic::Atomic(U|I|P|B)\\w+::(\\w+)")
def m_atomic(ctx, st, a):
    e = ctx.e
    op = ctx.path.split("::")[-1]
    if op == "new":
        return [(st, ("a", e.strip(ctx.dty), 0, (a[0],)))]
    if op in ("get_mut", "into_inner", "as_ptr", "default", "from", "from_ptr", "fmt"):
        return NotImplemented
    key = (atomic_key(a[0]), atomic_field(e, a[0]))
    ords = [order_of(e, x) for x in a[1:] if order_of(e, x)]
    tid = e.strip(ctx.dty)
    if op in ("fetch_add", "fetch_sub", "load", "swap") and e.int_range(tid):
        nm = e.fresh("atom_%s" % op)
        set_range(nm, *e.int_range(tid))
        amt = a[1][1] if op != "load" and a[1][0] == "i" else None
        st.log("atomic", op, key, amt, ords, Lin.sym(nm), ctx.fr.where())
        return [(st, INT(Lin.sym(nm)))]
    v = e.mat(e.fresh("atom_%s" % op), ctx.dty)
    st.log("atomic", op, key, tuple(x for x in a[1:] if not order_of(e, x)), ords, v, ctx.fr.where())
    return [(st, v)]


def atomic_field(e, v):
    """'Type.field' of the atomic an operation addresses (None when not known)."""
    if v[0] != "r" or v[1][0] != "c":
        return None
    loc = v[1]
    tid = e.cell_ty.get(loc[1])
    last = None
    var = 0
    for p in loc[2]:
        if tid is None:
            return last
        tid = e.strip(tid)
        t = e.F.types[tid]
        if isinstance(p, tuple):
            var = p[1]
            continue
        if t["k"] == "adt":
            f = t["variants"][var if t["adt"] == "enum" else 0]["f"][p]
            if not t["def"].startswith(("std::", "core::")):
                last = "%s.%s" % (t["def"], f["n"])
            tid = f["t"]
        elif t["k"] == "tuple":
            tid = t["ts"][p]
        elif t["k"] == "closure":
            tid = t["ups"][p]
        else:
            return last
        var = 0
    return last


def atomic_key(v):
    if v[0] == "r":
        return str(v[1])
    return vkey(v)


def order_of(e, v):
    if v[0] == "a" and v[1] is not None:
        t = e.F.types[v[1]]
        if t.get("def", "").endswith("atomic::Ordering"):
            return t["variants"][v[2]]["n"]
    return None


@model("std::sync::atomic::fence")
def m_fence(ctx, st, a):
    st.log("fence", order_of(ctx.e, a[0]), ctx.fr.where())
    return [(st, UNIT)]


# ---------------------------------------------------------------- allocator
def layout_parts(ctx, st, v):
    """(size, align) of a Layout value."""
    if v[0] == "layout":
        return v[1], v[2]
    if v[0] == "a" and v[3]:
        sz = v[3][0]
        al = v[3][1]
        while al[0] == "a" and al[3]:
            al = al[3][0]
        return (sz[1] if sz[0] == "i" else Lin.sym(vkey(sz))), (al[1] if al[0] == "i" else Lin.sym(vkey(al)))
    return Lin.sym("size(%s)" % vkey(v)), Lin.sym("align(%s)" % vkey(v))


@model("std::alloc::Layout::from_size_align_unchecked")
def m_layout_unchecked(ctx, st, a):
    return [(st, ("layout", I(a[0]), I(a[1])))]


@model("std::alloc::Layout::from_size_align")
def m_layout(ctx, st, a):
    e = ctx.e
    sz, al = I(a[0]), I(a[1])
    tid = e.strip(ctx.dty)
    out = []
    ok = ("s", "layout_ok(%s,%s)" % (sz, al))
    if al.const:
        ok = ble(sz, ISIZE_MAX - (al.c - 1)) if al.c > 0 and al.c & (al.c - 1) == 0 else False
    elif str(al) in e.pow2:
        ok = ble(sz + al, ISIZE_MAX + 1)
    for s in st.assume(ok):
        s = s.fork()
        s.add_le(sz - ISIZE_MAX)
        s.add_le(1 - al)
        if not al.const:
            s.bools = dict(s.bools)
            s.bools["pow2(%s)" % al] = True
        out.append((s, ("a", tid, 0, (("layout", sz, al),))))
    for s in st.assume(bnot(ok)):
        out.append((s, ("a", tid, 1, (("a", None, 0, ()),))))
    return out


@model("std::alloc::Layout::size", "std::alloc::Layout::align")
def m_layout_get(ctx, st, a):
    v = ctx.e.read(st, a[0][1]) if a[0][0] == "r" else a[0]
    s, al = layout_parts(ctx, st, v)
    return [(st, INT(s if ctx.path.endswith("size") else al))]


@model("std::alloc::Layout::new")
def m_layout_new(ctx, st, a):
    t = ctx.targ(0)
    r = m_size_of(type("C", (), {"e": ctx.e, "path": "size", "targ": lambda s, i=0: t})(), st, [])
    r2 = m_size_of(type("C", (), {"e": ctx.e, "path": "align", "targ": lambda s, i=0: t})(), st, [])
    return [(st, ("layout", r[0][1][1], r2[0][1][1]))]


@model("std::alloc::alloc", "std::alloc::alloc_zeroed")
def m_alloc(ctx, st, a):
    e = ctx.e
    sz, al = layout_parts(ctx, st, a[0])
    nm = e.fresh("heap")
    e.bases[nm] = {"extent": sz, "lo": Lin(0), "heap": True, "align": al}
    st.log("alloc", nm, sz, al, ctx.fr.where())
    return [(st, ("p", nm, Lin(0)))]


@model("std::alloc::realloc")
def m_realloc(ctx, st, a):
    e = ctx.e
    b, o = ptr_bo(ctx, st, a[0])
    sz, al = layout_parts(ctx, st, a[1])
    nm = e.fresh("heap")
    e.bases[nm] = {"extent": I(a[2]), "lo": Lin(0), "heap": True, "align": al, "from": b}
    st.log("realloc", b, o, sz, al, nm, I(a[2]), ctx.fr.where())
    if ctx.e.content:
        content_.update(ctx.e, st, nm, 0, sz, ("seg", b, o))
    return [(st, ("p", nm, Lin(0)))]


@model("std::alloc::dealloc")
def m_dealloc(ctx, st, a):
    b, o = ptr_bo(ctx, st, a[0])
    sz, al = layout_parts(ctx, st, a[1])
    st.log("dealloc", b, o, sz, al, ctx.fr.where())
    return [(st, UNIT)]


@model("re:std::fmt::.*", "re:std::panicking::.*assert_failed.*")
def m_fmt(ctx, st, a):
    if "panick" in ctx.path:
        return [panic(ctx, st, ctx.path)]
    return NotImplemented


@model("re:std::panicking::.*", "std::alloc::handle_alloc_error", "re:std::rt::(panic|begin_panic).*", "re:std::option::(unwrap|expect)_failed", "re:std::result::unwrap_failed", "std::process::abort", "re:std::slice::index::slice_.*fail.*", "re:.*::panic_cold_.*")
def m_panic(ctx, st, a):
    return [panic(ctx, st, ctx.path)]


@model("std::hint::unreachable_unchecked")
def m_unreachable(ctx, st, a):
    return []


@model("re:std::fmt::(rt::)?Arguments?(::<.*>)?::\\w+")
def m_fmt_args(ctx, st, a):
    return [(st, ctx.e.mat(ctx.e.fresh("?fmt"), ctx.dty))]


@model("std::any::TypeId::of")
def m_typeid(ctx, st, a):
    return [(st, ctx.e.mat("typeid(%s)" % ctx.e.F.s(ctx.targ(0)), ctx.dty))]


@model("std::intrinsics::ub_checks", "std::ub_checks::check_language_ub", "std::ub_checks::check_library_ub")
def m_false(ctx, st, a):
    return [(st, BOOL(False))]


@model("<T as std::convert::Into<U>>::into", "<T as std::convert::From<T>>::from")
def m_into(ctx, st, a):
    e = ctx.e
    if "From<T>" in ctx.path:
        return [(st, a[0])]
    t, u = ctx.ra[0], ctx.ra[1]
    if t == u or e.F.s(e.strip(t)) == e.F.s(e.strip(u)):
        return [(st, a[0])]
    r = e.resolve_trait("std::convert::From", "from", u, [u, t])
    if r is not None:
        return [(s, v if k == "ret" else None) for k, s, v in e.call(ctx.fr, st, r[0], r[1], a, ctx.dty, {"p": r[0], "a": r[1]}, ctx.atys)]
    return NotImplemented
