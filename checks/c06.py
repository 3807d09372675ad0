"""C06: text values always hold valid UTF-8."""
import paths

RULE = (
    "On every path of every safe public function and trait method, each text value returned or left behind a mutable reference (StringData, SharedStrBuilder, str, String), and each byte view reinterpreted as text without checking, "
    "consists of segments that are (a) parts of text handed in whose both ends are shown on that path to be character boundaries (the ends of the text, a boundary test, a test of the byte at the cut, the position of a match, or next to an ASCII byte), "
    "(b) bytes that were validated on that path, (c) ASCII bytes or an encoded character, or (d) constants."
)
FLOOR = 700


def run(rep):
    paths.check(rep, ["C06"])
    rep.assume.append("callers of the unsafe constructors pass valid text; text returned by opaque functions of other crates is valid")
