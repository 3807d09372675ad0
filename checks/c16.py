"""C16: operations promised not to copy keep using the same memory."""
import paths

RULE = (
    "On every path of every operation that is promised to keep the memory (cloning, slicing, cutting, trimming, wrapping, building, and the conversions listed in paths.CONVERT, per representation) "
    "no copy of more than the 14 bytes that fit inline and no byte block allocation occurs; and a result whose lifetime is not one of the arguments' never points at bytes that were borrowed."
)
FLOOR = 600


def run(rep):
    paths.check(rep, ["C16"])
    rep.assume.append("the bytes referred to by the results are compared by C05; here only copies, allocations and borrows are looked at")
