"""C12: shared bytes never change while anyone else can see them."""
import paths

RULE = (
    "On every path of every public function and trait method a write, copy target, realloc or mutable view on a shared block or a borrowed (read-only) region must be preceded by a test that established sole ownership (counter compared with one) or concern memory allocated on the same path and not yet published."
)
FLOOR = 1500


def run(rep):
    paths.check(rep, ["C12"])
    rep.assume.append("a counter equal to one, read by an owner, stays so until that owner shares")
