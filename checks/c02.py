"""C02: each handle to shared memory is counted exactly once, on every path."""
import paths

RULE = (
    "Every public function and trait method of the byte, text, builder, interning and adapter types is interpreted abstractly, once per representation of each argument, along every path, unwinding included. On each path the counter changes of each shared block (fetch_add, fetch_sub, initial store) are summed and compared with the handles to that block before (arguments taken by value or behind &mut) and after (result and &mut arguments): the sum must equal the difference, and a freed block must have no handle left."
)
FLOOR = 500


def run(rep):
    paths.check(rep, ["C02"])
    rep.assume.append("the platform allocator and bytes::Bytes' own vtable behave as documented; closures of the caller do not keep references")
