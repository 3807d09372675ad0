"""C03: memory returns to the allocator with the layout it was obtained with."""
import paths

RULE = (
    "On every path of every public function and trait method, each dealloc/realloc must name a block's first byte with the size and alignment of the allocation the path (or the type's representation invariant for a block that comes in with an argument) established; each block a handle is built over must satisfy that invariant (header written, length and capacity recorded as allocated, alignment at least that of the header); and size arithmetic must not wrap."
)
FLOOR = 300


def run(rep):
    paths.check(rep, ["C03"])
    rep.assume.append("representation invariants of values handed in; the global allocator honours Layout")
