"""C13: a value is only read as the representation it holds."""
import models, oracle, paths
import rep as repm
from absint import Budget, Engine, Unsupported

RULE = (
    "The tag byte of each constructed byte value must map back, under the real discrimination code (kind(), evaluated for every class of tag byte), to the union member that was stored; each read of a union member must be of the member the path established; the staticness flag beside the tag survives operations that keep the value."
)
FLOOR = 1500


# the first byte of a shared value is the low byte of a block address: any multiple of four
READERS = ["bytedata::bytedata::ByteData::<'a>::len", "bytedata::bytedata::ByteData::<'a>::as_slice", "<bytedata::bytedata::ByteData<'_> as std::clone::Clone>::clone",
           "<bytedata::bytedata::ByteData<'_> as std::ops::Drop>::drop"]


def tags(rep, F):
    fs = [F.fns[p] for p in READERS if p in F.fns]
    rep.anchor(len(fs) >= 2, "readers of byte values")
    for f in fs:
        for t in range(0, 256, 4):
            E = Engine(F, models.install)
            r = repm.Rep(F)
            r.shared_tag = t
            r.install(E)
            key = "%s: tag byte %d read as shared" % (f["p"], t)
            try:
                seen = False
                for st0, args0, outs in repm.run(E, f):
                    if not any(k.startswith("kind:") and "shared" in v for k, v in st0.vars.items()):
                        continue
                    for kind, st, val in outs:
                        seen = True
                        bad = [e for e in st.events() if e[0] == "union-mismatch"]
                        if bad and oracle.feasible(st):
                            rep.fail(key, f["span"], "a shared value whose first byte is %d is read as another kind" % t)
                        elif kind == "panic" and f["p"].endswith(("::len", "::as_slice", "::clone", "::drop")) and oracle.feasible(st):
                            rep.fail(key, f["span"], "a shared value whose first byte is %d makes the operation panic" % t)
                        else:
                            rep.ok(key)
                if not seen:
                    rep.open(key, f["span"], "no shared path")
            except (Unsupported, Budget) as e:
                rep.open(key, f["span"], str(e)[:100])


def run(rep):
    F = paths.check(rep, ["C13"])
    tags(rep, F)
    rep.assume.append("tag bytes occurring in memory were written by this crate")
