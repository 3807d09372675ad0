"""C15: every feature combination builds, and stays free of std where std is off."""
import concurrent.futures, os, re, tempfile, threading
import prep

RULE = ("Each listed feature combination of the current tree is type- and borrow-checked by the compiler (library target); in combinations without the std feature no item "
        "of the std crate proper may be mentioned in any resolved body or type, and without the alloc feature no item of the alloc crate.")
FLOOR = 12

SETS = """-
alloc
std
queue
macros
chunk
interning
nightly
serde_1
nom_7
arbitrary_1
bytes_1
bytes_1_safe
http-body_04
http-body_1
alloc,queue
std,queue
queue,chunk,macros
interning,alloc,queue
serde_1,alloc
serde_1,queue
serde_1,alloc,queue
nom_7,queue
nom_7,alloc
nom_7,alloc,queue
arbitrary_1,alloc
arbitrary_1,queue
arbitrary_1,alloc,queue
bytes_1,alloc
bytes_1,queue
bytes_1,alloc,queue
bytes_1_safe,alloc,queue
bytes_1,std,queue
http-body_04,queue
http-body_04,alloc,queue
http-body_1,queue
http-body_1,alloc,queue
nightly,alloc
nightly,alloc,queue
core_io_borrowed_buf,nightly,alloc
macros,chunk,alloc,interning,queue,std,arbitrary_1,bytes_1,http-body_04,http-body_1,nom_7,serde_1
macros,chunk,alloc,interning,queue,std,nightly,core_io_borrowed_buf,arbitrary_1,bytes_1,bytes_1_safe,http-body_04,http-body_1,nom_7,serde_1""".split("\n")

_tl = threading.local()
_n = [0]
_lock = threading.Lock()


def one(feats, crate):
    if not hasattr(_tl, "dir"):
        with _lock:
            _tl.dir = os.path.join(prep.BUILD, "target-mx-%d" % _n[0])
            _n[0] += 1
    e = prep.base_env()
    e["CARGO_TARGET_DIR"] = _tl.dir
    e["CARGO_BUILD_JOBS"] = "2"
    if "core_io_borrowed_buf" in feats:
        e["RUSTFLAGS"] = "-Zcrate-attr=feature(core_io)"
    a = ["cargo", "check", "--offline", "--lib", "--no-default-features"]
    if feats != "-":
        a += ["--features", feats]
    rc, o, err = prep.sh(a, env=e, cwd=crate)
    m = re.search(r"^error[^\n]*\n\s+-->[^\n]*", err, re.M)
    return rc, (m.group(0) if m else err[-400:])


def run(rep):
    with prep.lock("matrix"), tempfile.TemporaryDirectory(prefix="bdmx") as tmp:
        w = os.path.join(tmp, "bytedata")
        prep.scratch_copy(w)
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for s, (rc, why) in zip(SETS, ex.map(lambda x: one(x, w), SETS)):
                rep.count("feature combinations type-checked")
                key = "features [%s]" % s
                if rc == 0:
                    rep.ok(key)
                else:
                    rep.fail(key, "Cargo.toml", why)
    for cfg in ("none", "noalloc", "alloc"):
        t = open(prep.extract(cfg)).read()
        rep.count("bodies resolved without std", t.count('"blocks"'))
        std = sorted(set(re.findall(r'(?<![\w:])std::[\w:]+', t)))
        if std:
            rep.fail("no std items without the std feature [%s]" % cfg, "", "mentions %s" % std[:3])
        else:
            rep.ok("no std items without the std feature [%s]" % cfg)
        if cfg != "alloc":
            al = sorted(set(re.findall(r'(?<![\w:])(?:bytedata::)?alloc::[\w:]+', t)))
            if al:
                rep.fail("no alloc items without the alloc feature [%s]" % cfg, "", "mentions %s" % al[:3])
            else:
                rep.ok("no alloc items without the alloc feature [%s]" % cfg)
    rep.assume.append("checked with the host target; linking for targets without an operating system is not attempted")
