"""C04: no view, copy or write leaves its buffer."""
import paths

RULE = (
    "On every path of every public function and trait method each raw view (from_raw_parts), copy, fill, write through a pointer and Vec::set_len must lie inside the extent of the memory it is derived from, and each byte value returned or left behind a &mut must denote a region inside the block it refers to. Extents and offsets are linear expressions over the arguments, compared under the path's conditions."
)
FLOOR = 1500


def run(rep):
    paths.check(rep, ["C04"])
    rep.assume.append("argument slices and values satisfy their types' invariants; lengths fit isize")
