"""C01: orderings of reference-count release and exclusive takeover; publication of lazily created state."""
import prep, runall
from absint import vkey
from lin import Lin

RULE = ("On every abstract path of every function that can reach an atomic operation: (a) each decrement of a reference counter is at least "
        "Release; (b) when the counter is known to have been 1, an Acquire (RMW, fence or load of the same counter) precedes the first deallocation or "
        "payload destruction; (c) a path on which a counter was merely read to be 1 (exclusive takeover) has an Acquire after or with that read; "
        "(d) deallocation follows a decrement only where the path establishes that it was the last one, the last decrement is never ignored, and a counter is never "
        "updated by a plain store of a loaded value; (e) a lazily published pointer is exchanged with Release and dereferenced only after an Acquire load.")
FLOOR = 6
REL = {"Release", "AcqRel", "SeqCst"}
ACQ = {"Acquire", "AcqRel", "SeqCst"}


def short(w):
    return w


def reducer(f, E, outs):
    obs = []
    for kind, st, val in outs:
        if kind != "ret":
            continue
        ev = st.events()
        rets = vkey(val) if val else ""
        subs = []  # (index, field, sym, ords, amt, where)
        for i, e in enumerate(ev):
            if e[0] != "atomic":
                continue
            _, op, (key, fld), amt, ords, res, where = e
            fld = fld or "?" + key
            obs.append(("use", fld, op, tuple(ords), where))
            if op == "fetch_sub":
                good = ords and ords[0] in REL
                obs.append(("ob", "release:%s" % fld, "decrement in " + fn_of(where), bool(good), where, "decrement of %s with ordering %s" % (fld, ords)))
                last = st.eq_holds(res, amt) if amt is not None else False
                notlast = not st.truth(("eq", res - amt)) is None and st.truth(("eq", res - amt)) is False if amt is not None else False
                escapes = any(s in rets for s in res.syms())
                subs.append((i, fld, res, ords, amt, where, last))
                destr = [j for j in range(i + 1, len(ev)) if destroys(ev[j])]
                nextsub = [j for j in range(i + 1, len(ev)) if ev[j][0] == "atomic" and ev[j][1] == "fetch_sub"]
                if last and destr:
                    j = destr[0]
                    acq = ords[0] in ("AcqRel", "SeqCst") or any(acquires(ev[k], fld) for k in range(i + 1, j))
                    obs.append(("ob", "acquire:%s" % fld, "destruction after last decrement in " + fn_of(where), acq, ev[j][-1] if isinstance(ev[j][-1], str) else where, "destruction after the last decrement of %s without an acquire in between" % fld))
                if not last and not notlast and not escapes:
                    # is there a destruction attributable to this decrement?
                    if destr and not any(x[6] for x in subs) and not takeover(st, ev, fld):
                        obs.append(("ob", "last:%s" % fld, "free guarded in " + fn_of(where), False, where, "memory is freed after a decrement of %s although the path does not establish it was the last" % fld))
                    elif not destr:
                        obs.append(("ob", "ignored:%s" % fld, "decrement result in " + fn_of(where), False, where, "the result of the decrement of %s is not examined: the last reference would never be freed" % fld))
                elif notlast and destr and not nextsub and not any(x[6] for x in subs) and not takeover(st, ev, fld) and relevant_destr(ev, destr):
                    obs.append(("ob", "last:%s" % fld, "free guarded in " + fn_of(where), False, where, "memory is freed after a decrement of %s that was not the last" % fld))
                elif last and not destr and not escapes:
                    obs.append(("ob", "leak:%s" % fld, "last decrement in " + fn_of(where), False, where, "the last decrement of %s does not free the memory" % fld))
                else:
                    obs.append(("ob", "last:%s" % fld, "free guarded in " + fn_of(where), True, where, ""))
            elif op == "load" and isinstance(res, Lin):
                one = st.eq_holds(res, 1)
                if not one and val and val[0] == "b" and tells_unique(val[1], res):
                    one = True
                if one:
                    acq = (ords and ords[0] in ACQ) or any(acquires(ev[k], fld) for k in range(i + 1, len(ev)))
                    obs.append(("load1", fld, "takeover in " + fn_of(where), bool(acq), where))
                # an exclusivity test must compare with 1, not with anything larger or smaller
            elif op in ("store",) or op == "swap" and isinstance(res, Lin):
                arg = amt[0] if isinstance(amt, tuple) and amt else None
                l = arg[1] if arg and arg[0] == "i" else amt if isinstance(amt, Lin) else None
                if l is not None and any("atom_load" in s for s in l.syms()):
                    obs.append(("storeload", fld, "counter update in " + fn_of(where), False, where))
            elif op.startswith("compare_exchange"):
                okk = bool(ords) and ords[0] in REL
                succ_acq = bool(ords) and ords[0] in ACQ
                obs.append(("cas", fld, fn_of(where), okk, succ_acq, where))
                nm = res[1] if isinstance(res, tuple) and res[0] == "s" else None
                if nm and derefs(nm, st, ev[i + 1:], val):
                    acq = len(ords) > 1 and ords[1] in ACQ or any(x[0] == "fence" and x[1] in ACQ for x in ev[i + 1:])
                    obs.append(("ptrload", fld, "use of pointer observed by failed exchange in " + fn_of(where), bool(acq), where))
            if op == "load" and not isinstance(res, Lin):
                nm = vkey(res).split("+")[0]
                if derefs(nm, st, ev[i + 1:], val):
                    acq = (ords and ords[0] in ACQ) or any(x[0] == "fence" and x[1] in ACQ for x in ev[i + 1:])
                    obs.append(("ptrload", fld, "use of published pointer in " + fn_of(where), bool(acq), where))
    return list(dict.fromkeys(obs))


def fn_of(where):
    return where.split(" (")[0]


def destroys(e):
    if e[0] == "dealloc":
        return True
    if e[0] in ("dropcall", "rawdrop"):
        return True
    if e[0] == "call" and isinstance(e[1], str) and ("drop_in_place" in e[1] or e[1].startswith("fnptr") or "Box" in e[1] and "from_raw" in e[1]):
        return True
    return False


def relevant_destr(ev, destr):
    return any(ev[j][0] == "dealloc" for j in destr)


def acquires(e, fld):
    if e[0] == "fence":
        return e[1] in ACQ
    if e[0] == "atomic" and e[1] in ("load", "fetch_add", "fetch_sub", "swap") and e[2][1] == fld:
        return bool(e[4]) and e[4][0] in ACQ
    return False


def derefs(nm, st, later, val):
    """The pointer named nm is dereferenced (or handed out as a reference) on this path."""
    txt = repr(later) + repr(val)
    return any(x in txt for x in ("mem:" + nm, "'*" + nm)) or any(isinstance(c, str) and (c.startswith("*" + nm) or c.startswith("mem:" + nm)) for c in st.cells)


def tells_unique(b, res):
    """A returned truth value that says the loaded count is 1."""
    if not isinstance(b, tuple):
        return False
    if b[0] == "eq":
        return b[1] == Lin.of(res) - 1 or b[1] == 1 - Lin.of(res)
    return any(tells_unique(x, res) for x in b[1:] if isinstance(x, tuple))


def takeover(st, ev, fld):
    return any(e[0] == "atomic" and e[1] == "load" and isinstance(e[5], Lin) and st.eq_holds(e[5], 1) for e in ev)


def run(rep):
    for cfg in ("full",):
        F = prep.facts(cfg)
        reach = runall.reach_to(F, lambda c: "sync::atomic::Atomic" in c or c.endswith("atomic::fence"), 3)
        ps = [p for p in runall.roots(F) if p in reach]
        rep.count("functions reaching an atomic operation", len(ps))
        res = runall.run(F, ps, reducer)
        fields = {}
        allobs = []
        for p, status, why, out in res:
            rep.count("functions " + status)
            if status != "ok":
                rep.open("analysis of " + p, p, why)
                continue
            for o in out:
                allobs.append((p, o))
                if o[0] == "use":
                    fields.setdefault(o[1], set()).add(o[2])
        counters = {f for f, ops in fields.items() if "fetch_sub" in ops}
        published = {f for f, ops in fields.items() if any(o.startswith("compare_exchange") or o in ("swap", "store") for o in ops) and f not in counters}
        rep.count("reference counters", len(counters))
        rep.count("published pointers", len(published))
        rep.anchor(len(counters) >= 2, "reference counters that are decremented", "fewer than two decremented counters were found: %s" % sorted(counters))
        for p, o in allobs:
            if o[0] == "ob":
                _, key, what, ok, where, det = o
                (rep.ok if ok else rep.fail)("%s %s" % (key, what), where + " (entry %s)" % p, det)
            elif o[0] == "load1" and o[1] in counters:
                (rep.ok if o[3] else rep.fail)("takeover:%s %s" % (o[1], o[2]), o[4] + " (entry %s)" % p, "" if o[3] else "the counter is read to be 1 without an acquire before exclusive use")
            elif o[0] == "storeload" and o[1] in counters:
                rep.fail("store:%s %s" % (o[1], o[2]), o[4], "a counter is updated by a plain store of a loaded value: concurrent updates are lost")
            elif o[0] == "cas":
                if o[1] in published:
                    (rep.ok if o[3] else rep.fail)("publish:%s %s" % (o[1], o[2]), o[5], "" if o[3] else "pointer published without Release")
                elif o[1] in counters:
                    (rep.ok if o[3] or o[4] else rep.fail)("cas:%s %s" % (o[1], o[2]), o[5], "" if (o[3] or o[4]) else "relaxed compare_exchange on a reference counter")
            elif o[0] == "ptrload" and o[1] in published:
                (rep.ok if o[3] else rep.fail)("subscribe:%s %s" % (o[1], o[2]), o[4], "" if o[3] else "a lazily published pointer is dereferenced after a load without Acquire")
    rep.assume.append("std atomics, fences and the allocator behave as documented; orderings inside the bytes and dashmap crates are outside the analysis")
