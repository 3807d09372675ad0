"""Compile-fail witnesses: pairs of programs that differ in one step.  The twin must
compile against the current crate; the program with the violating step must be
rejected by the type or borrow checker with one of the expected errors."""
import concurrent.futures, os, re, subprocess, tempfile
import prep

_lib = {}


def find(tgt, crate):
    out = []
    for d, _, fs in os.walk(os.path.join(tgt, "debug")):
        out += [os.path.join(d, f) for f in fs if f.startswith("lib%s-" % crate) and f.endswith(".rmeta")]
    return out


def library(cfg="full"):
    """(directories holding metadata of the dependencies, metadata of the crate itself)"""
    if cfg in _lib:
        return _lib[cfg]
    key = prep.tree_hash()
    tgt = os.path.join(prep.BUILD, "target-wit-" + cfg)
    stamp = os.path.join(tgt, "stamp")
    with prep.lock("wit-" + cfg):
        have = find(tgt, "bytedata")
        if not (os.path.exists(stamp) and open(stamp).read() == key and len(have) == 1):
            for f in have:
                os.unlink(f)
            with tempfile.TemporaryDirectory(prefix="bdwit") as tmp:
                w = os.path.join(tmp, "bytedata")
                prep.scratch_copy(w)
                e = prep.base_env()
                e["CARGO_TARGET_DIR"] = tgt
                if "core_io_borrowed_buf" in prep.CONFIGS[cfg][0]:
                    e["RUSTFLAGS"] = "-Zcrate-attr=feature(core_io)"
                rc, o, err = prep.sh(["cargo", "check", "--offline", "--lib"] + prep.feature_args(cfg), env=e, cwd=w)
                have = find(tgt, "bytedata")
                if rc != 0 or len(have) != 1:
                    raise prep.PrepError("library check failed (%d results):\n%s" % (len(have), err[-3000:]))
            open(stamp, "w").write(key)
    dirs = set()
    for d, _, fs in os.walk(os.path.join(tgt, "debug")):
        if any(f.endswith((".rmeta", ".so", ".rlib")) for f in fs):
            dirs.add(d)
    _lib[cfg] = (sorted(dirs), find(tgt, "bytedata")[0], find(tgt, "bytes"))
    return _lib[cfg]


def parse(path):
    out = []
    cur = None
    for line in open(path):
        if line.startswith("#"):
            continue
        if line.startswith("== "):
            i, codes, what = [x.strip() for x in line[3:].split("|")]
            cur = {"id": i, "codes": codes.split(), "what": what, "lines": []}
            out.append(cur)
        elif cur is not None:
            cur["lines"].append(line)
    for w in out:
        w["good"] = "".join(l[1:] if l[0] == "+" else l for l in w["lines"] if not l.startswith("-"))
        w["bad"] = "".join(l[1:] if l[0] == "-" else l for l in w["lines"] if not l.startswith("+"))
    return out


def compile_one(src, cfg, tmp, name):
    dirs, rmeta, byts = library(cfg)
    p = os.path.join(tmp, re.sub(r"\W", "_", name) + ".rs")
    open(p, "w").write("#![allow(unused,unused_must_use)]\n" + src)
    cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "-o", p + ".rmeta", "--extern", "bytedata=" + rmeta, p]
    for d in dirs:
        cmd += ["-L", "dependency=" + d]
    for b in byts[:1]:
        cmd[1:1] = ["--extern", "bytes=" + b]
    r = subprocess.run(cmd, env=prep.base_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    return r.returncode, r.stderr


def codes(err):
    c = set(re.findall(r"error\[(E\d{4})\]", err))
    if re.search(r"error: lifetime may not live long enough|error: `?.*` does not live long enough|borrowed data escapes|error: implementation of .* is not general enough", err):
        c.add("lifetime")
    return c


def run(rep, path, cfg="full"):
    ws = parse(path)
    library(cfg)
    with tempfile.TemporaryDirectory(prefix="bdwitsrc") as tmp, concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        fut = [(w, ex.submit(compile_one, w["good"], cfg, tmp, w["id"] + "_good"), ex.submit(compile_one, w["bad"], cfg, tmp, w["id"] + "_bad")) for w in ws]
        for w, g, b in fut:
            rep.count("witness pairs")
            (grc, gerr), (brc, berr) = g.result(), b.result()
            key = "witness " + w["id"]
            where = os.path.basename(path) + ":" + w["id"]
            if grc != 0:
                m = re.search(r"error.*", gerr)
                rep.fail(key + " twin", where, "the accepted twin no longer compiles: %s" % (m.group(0) if m else gerr[-300:]))
            elif brc == 0:
                rep.fail(key, where, "the compiler accepts a program in which " + w["what"])
            elif not (codes(berr) & set(w["codes"])):
                rep.fail(key, where, "rejected, but not for the expected reason: got %s, expected %s" % (sorted(codes(berr)), w["codes"]))
            else:
                rep.ok(key, where, w["what"])
