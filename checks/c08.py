"""C08: what may cross threads."""
import os
import prep, witness

RULE = ("(a) For every hand-written Send or Sync implementation: no field type reachable through the type's fields and raw pointers has unsynchronised interior "
        "mutation or thread-bound ownership (cells, reference counts that are not atomic, raw thread-bound guards), and every type parameter the implementation leaves unbounded "
        "occurs in no field. (b) Witness pairs: handles are Send and Sync; values that are thread-bound, not shareable, or borrowed are refused as shared external bytes.")
FLOOR = 8

BAD = ("std::cell::Cell", "std::cell::RefCell", "std::cell::UnsafeCell", "std::cell::OnceCell", "std::rc::", "std::sync::MutexGuard")


def reach(F, ty, seen, path, hits):
    t = F.types[ty]
    if ty in seen:
        return
    seen.add(ty)
    if t["k"] == "adt":
        d = t["def"]
        if any(d.startswith(b) for b in BAD):
            hits.append("%s: %s" % (path, t["s"]))
        if d.startswith("std::sync::atomic"):
            return
        for v in t.get("variants") or []:
            for fl in v["f"]:
                reach(F, fl["t"], seen, path + "." + str(fl.get("n", "?")), hits)
        for a in t.get("args") or []:
            if isinstance(a, int) and (d.startswith("std::vec") or d.startswith("std::boxed") or d.startswith("std::sync") or d.startswith("dashmap")):
                reach(F, a, seen, path + ".*", hits)
    elif t["k"] in ("ref", "ptr", "slice", "array"):
        reach(F, t["t"], seen, path + "*", hits)
    elif t["k"] == "tuple":
        for i, x in enumerate(t["ts"]):
            reach(F, x, seen, path + "." + str(i), hits)


def params(F, ty, out, seen, depth=0):
    t = F.types[ty]
    if ty in seen:
        return
    seen.add(ty)
    if t["k"] == "param":
        out.add(t["s"])
    elif t["k"] == "adt":
        for a in t.get("args") or []:
            if isinstance(a, int):
                params(F, a, out, seen)
    elif t["k"] in ("ref", "ptr", "slice", "array"):
        params(F, t["t"], out, seen)
    elif t["k"] == "tuple":
        for x in t["ts"]:
            params(F, x, out, seen)


def run(rep):
    F = prep.facts("full")
    for im in F.impls:
        tr = im.get("trait")
        if tr not in ("std::marker::Send", "std::marker::Sync") or im.get("neg"):
            continue
        rep.count("hand-written Send/Sync implementations")
        s = F.types[im["self"]]["s"]
        key = "impl %s for %s" % (tr.split("::")[-1], s)
        hits = []
        reach(F, im["self"], set(), s, hits)
        ps = set()
        params(F, im["self"], ps, set())
        bounded = {p for p in ps if any(tr in str(x) and p in str(x) for x in im.get("preds", []))}
        if hits:
            rep.fail(key, im["span"], "a type asserted %s holds %s" % (tr, hits[0]))
        elif ps - bounded:
            rep.fail(key, im["span"], "the parameter(s) %s are not required to be %s" % (sorted(ps - bounded), tr))
        else:
            rep.ok(key, im["span"])
    witness.run(rep, os.path.join(prep.VERIF, "witness", "threads.txt"))
    rep.assume.append("auto-trait derivation by the compiler; external values are only reached through the operations their trait implementation names")
