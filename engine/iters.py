"""Iterator adapters and consumers over iterators whose code is interpreted (std's own bodies are not available)."""
from absint import BOOL, INT, UNIT, Unsupported, ble, bnot
from lin import Lin

P = "std::iter::Iterator::"
ADAPT = {"cloned": 1, "copied": 1, "map": 2, "zip": 2, "take": 2, "enumerate": 1, "skip": 2, "scan": 3}
CONSUME = ("any", "all", "position", "find", "count", "last", "nth", "eq", "fold", "for_each")
LIMIT = 6


def local_next(E, ity):
    """(path, targs, item option type) of the next method of a type of the crate."""
    r = E.resolve_trait(P[:-2], "next", ity, [ity])
    if r is None or r[0] not in E.F.fns:
        return None
    f = E.F.fns[r[0]]
    return r[0], r[1], E.F.subst(f["locals"][0], r[1])


def supported(E, ity):
    t = E.F.types[ity]
    if t["k"] == "ref":
        return supported(E, t["t"])
    if t["k"] == "adt" and t["def"] in ("std::iter::Cloned", "std::iter::Copied", "std::iter::Map", "std::iter::Take", "std::iter::Enumerate", "std::iter::Skip", "std::iter::Scan"):
        return supported(E, t["args"][0])
    if t["k"] == "adt" and t["def"] == "std::iter::Zip":
        return supported(E, t["args"][0]) and supported(E, t["args"][1])
    return local_next(E, ity) is not None or E.F.head(ity) in STD


STD = {
    "std::slice::Iter": "<std::slice::Iter<'a, T> as std::iter::Iterator>::next",
    "std::str::Chars": "<std::str::Chars<'a> as std::iter::Iterator>::next",
    "std::str::CharIndices": "<std::str::CharIndices<'a> as std::iter::Iterator>::next",
    "std::ops::Range": "std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next",
}


def opt(v, oty):
    return ("a", oty, 1, (v,))


def none(oty):
    return ("a", oty, 0, ())


def step(E, fr, st, ref, ity, oty=None):
    """next() on the iterator ref points to: [(kind, state, option value)]."""
    F = E.F
    t = F.types[ity]
    if t["k"] == "ref":
        return step(E, fr, st, E.read(st, ref[1]), t["t"], oty)
    d = t.get("def")
    if t["k"] == "adt" and d and d.startswith("std::iter::"):
        sub = lambda i: ("r", ("c", ref[1][1], ref[1][2] + (i,)), None)
        ity2 = t["args"][0]
        out = []
        if d in ("std::iter::Take", "std::iter::Skip"):
            n = E.read(st, sub(1)[1])
            if n[0] != "i":
                raise Unsupported("take of an unknown count")
            if d.endswith("Take"):
                for s in st.assume(ble(n[1], 0)):
                    out.append(("ret", s, none(oty)))
                for s in st.assume(ble(1, n[1])):
                    s = s.fork()
                    E.write(s, sub(1)[1], INT(n[1] - 1))
                    out += step(E, fr, s, sub(0), ity2, oty)
                return out
            if n[1].t or n[1].c:
                raise Unsupported("skip")
            return step(E, fr, st, sub(0), ity2, oty)
        for k, s, v in step(E, fr, st, sub(0), ity2):
            if k != "ret":
                out.append((k, s, v))
                continue
            for s2, v2 in E.split_variants(s, v):
                if v2[2] == 0:
                    out.append(("ret", s2, none(oty)))
                    continue
                x = v2[3][0]
                if d in ("std::iter::Cloned", "std::iter::Copied"):
                    if x[0] in ("r", "p", "s"):
                        x = E.read(s2, E.deref(s2, x, pointee(E, v2[1])))
                        h = E.hooks.get("cloned")
                        if h:
                            s2 = h(E, fr, s2, x)
                    out.append(("ret", s2, opt(x, oty)))
                elif d == "std::iter::Map":
                    f = E.read(s2, sub(1)[1])
                    fref = ("r", sub(1)[1], t["args"][1])
                    dty = F.types[E.strip(oty)]["args"][0] if oty is not None else None
                    for k3, s3, y in E.call_closure(fr, s2, fref if f[0] == "a" else f, [x], dty):
                        out.append((k3, s3, opt(y, oty) if k3 == "ret" else y))
                elif d == "std::iter::Scan":
                    f = E.read(s2, sub(1)[1])
                    fref = ("r", sub(1)[1], t["args"][2])
                    for k3, s3, y in E.call_closure(fr, s2, fref if f[0] == "a" else f, [("r", sub(2)[1], t["args"][1]), x], oty):
                        out.append((k3, s3, y))
                elif d == "std::iter::Enumerate":
                    n = E.read(s2, sub(1)[1])
                    s2 = s2.fork()
                    E.write(s2, sub(1)[1], INT(n[1] + 1))
                    out.append(("ret", s2, opt(("a", None, 0, (n, x)), oty)))
                elif d == "std::iter::Zip":
                    for k3, s3, y in step(E, fr, s2, sub(1), t["args"][1]):
                        if k3 != "ret":
                            out.append((k3, s3, y))
                            continue
                        for s4, y2 in E.split_variants(s3, y):
                            out.append(("ret", s4, opt(("a", None, 0, (x, y2[3][0])), oty) if y2[2] else none(oty)))
                else:
                    raise Unsupported(d)
        return out
    r = local_next(E, ity)
    if r is not None:
        c = {"p": P + "next", "a": [ity], "tr": P[:-2], "m": "next"}
        return E.call(fr, st, r[0], r[1], [("r", ref[1], ity)], r[2], c, [F.mk_ref(ity, True)])
    p = STD.get(F.head(E.strip(ity)))
    if p is None:
        raise Unsupported("next of " + F.s(ity))
    if oty is None:
        a = [x for x in t.get("args", []) if isinstance(x, int)]
        it = F.mk_ref(a[0]) if p.startswith("<std::slice") else F.find_ty("char") if "Chars" in p else a[0] if a else F.mk_tuple([F.find_ty("usize"), F.find_ty("char")])
        oty = F.find_ty("std::option::Option<%s>" % F.s(it))
        if oty is None:
            raise Unsupported("no option type for the items of " + F.s(ity))
    return E.call(fr, st, p, [x for x in t.get("args", [])], [("r", ref[1], ity)], oty, {"p": P + "next", "a": [ity]}, [F.mk_ref(ity, True)])


def pointee(E, oty):
    t = E.F.types[E.strip(oty)] if oty is not None else None
    if t and t["k"] == "adt" and t["args"]:
        x = E.F.types[E.strip(t["args"][0])]
        if x["k"] in ("ref", "ptr"):
            return x["t"]
    raise Unsupported("item type")


def call(E, fr, st, path, ra, args, dty, c, atys):
    """Hook: adapters, next of adapters, and the default methods that drive an iterator to some point."""
    F = E.F
    if path.startswith(P):
        m = path[len(P) :]
        ity = ra[0] if ra and isinstance(ra[0], int) else None
        if ity is None or not supported(E, ity):
            return None
        if m in ADAPT:
            vals = (args[0],) + tuple(args[1:]) if ADAPT[m] == len(args) else (args[0],)
            if m == "enumerate":
                vals = (args[0], INT(0))
            if m == "scan":
                vals = (args[0], args[2], args[1])
            return [("ret", st, ("a", E.strip(dty), 0, vals))]
        if m == "next":
            if F.types[ity]["k"] == "adt" and F.types[ity]["def"].startswith("std::slice"):
                return None
            return step(E, fr, st, args[0], ity, E.strip(dty))
        if m in CONSUME:
            return consume(E, fr, st, m, ity, args, dty)
        return None
    if E.explicit and path.startswith(("<std::slice::Iter<", "<std::str::Chars<", "<std::str::CharIndices<")) and " as std::iter::Iterator>::" in path:
        m = path.rsplit("::", 1)[1]
        ity = E.strip(atys[0]) if atys else None
        if ity is not None and F.types[ity]["k"] == "ref":
            ity = E.strip(F.types[ity]["t"])
        if m in ("position", "any", "all", "find") and ity is not None and supported(E, ity):
            return consume(E, fr, st, m, ity, args, dty)
        return None
    if path.startswith("<std::iter::") and path.endswith(" as std::iter::Iterator>::next") and args and args[0][0] == "r":
        lt = E.loc_ty(st, args[0][1])
        v = E.read(st, args[0][1])
        ity = v[1] if v[0] == "a" else lt
        if ity is None or not supported(E, ity):
            return None
        return step(E, fr, st, args[0], ity, E.strip(dty))
    return None


def consume(E, fr, st, m, ity, args, dty):
    import models
    F = E.F
    ref = args[0]
    if ref[0] != "r":
        loc = models.temp_loc(E, st, ref, ity)
        ref = ("r", loc, ity)
    bt = F.find_ty("bool")
    out = []
    work = [(st, 0, None)]
    while work:
        s0, n, last = work.pop()
        if n > LIMIT:
            E.cuts[P + m] = E.cuts.get(P + m, 0) + 1
            continue
        for k, s, v in step(E, fr, s0, ref, ity):
            if k != "ret":
                out.append((k, s, v))
                continue
            for s1, v1 in E.split_variants(s, v):
                if v1[2] == 0:
                    if m in ("any", "all"):
                        r = BOOL(m == "all")
                    elif m == "count":
                        r = INT(n)
                    elif m == "last":
                        r = last if last is not None else none(E.strip(dty))
                    elif m in ("position", "find", "nth"):
                        r = none(E.strip(dty))
                    elif m == "for_each":
                        r = UNIT
                    else:
                        raise Unsupported(m)
                    out.append(("ret", s1, r))
                    continue
                x = v1[3][0]
                if m == "count":
                    work.append((s1, n + 1, None))
                elif m == "last":
                    work.append((s1, n + 1, opt(x, E.strip(dty))))
                elif m == "nth":
                    w = args[1][1]
                    for s2 in s1.assume(("eq", w - n)):
                        out.append(("ret", s2, opt(x, E.strip(dty))))
                    for s2 in s1.assume(ble(n + 1, w)):
                        work.append((s2, n + 1, None))
                elif m in ("any", "all", "position", "find"):
                    y = x
                    if m == "find":
                        it = F.types[E.strip(v1[1])]["args"][0]
                        loc = models.temp_loc(E, s1, x, it)
                        y = ("r", loc, it)
                    for k3, s3, b in E.call_closure(fr, s1, args[1], [y], bt):
                        if k3 != "ret":
                            out.append((k3, s3, b))
                            continue
                        if b[0] != "b":
                            raise Unsupported("predicate result")
                        stop = b[1] if m != "all" else bnot(b[1])
                        for s4 in s3.assume(stop):
                            out.append(("ret", s4, BOOL(m == "any") if m in ("any", "all") else opt(INT(n) if m == "position" else x, E.strip(dty))))
                        for s4 in s3.assume(bnot(stop)):
                            work.append((s4, n + 1, None))
                else:
                    raise Unsupported(m)
    return out
