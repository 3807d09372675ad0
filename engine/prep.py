"""Builds the MIR driver and extracts facts from /repo's current working tree.
Everything is written under /verif/build (git-ignored) and a scratch directory;
/repo itself is only read."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BYTEDATA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

FULL = "macros,chunk,alloc,interning,queue,std,nightly,core_io_borrowed_buf,arbitrary_1,bytes_1,http-body_04,http-body_1,nom_7,serde_1"
# configurations the facts are extracted in: (features, default features on)
CONFIGS = {
    "full": (FULL, True),
    "safe": (FULL.replace("bytes_1,", "bytes_1,bytes_1_safe,"), True),
    "noalloc": ("macros,chunk,queue", False),
    "none": ("", False),
    "alloc": ("alloc,queue", False),
}


class PrepError(Exception):
    pass


def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST"))}
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["RUSTC_WRAPPER"] = ""
    return e


def sh(cmd, env=None, cwd=None, timeout=600):
    p = subprocess.run(cmd, env=env or base_env(), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    return p.returncode, p.stdout, p.stderr


_sysroot = {}


def sysroot(tc="nightly"):
    if tc not in _sysroot:
        e = base_env()
        e["RUSTUP_TOOLCHAIN"] = tc
        rc, o, err = sh(["rustc", "--print", "sysroot"], env=e)
        if rc != 0:
            raise PrepError("rustc --print sysroot: " + err)
        _sysroot[tc] = o.strip()
    return _sysroot[tc]


class lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def driver():
    """Path of the built MIR driver."""
    with lock("driver"):
        tgt = os.path.join(BUILD, "driver")
        rc, o, e = sh(["cargo", "build", "--offline", "--quiet", "--target-dir", tgt], cwd=os.path.join(VERIF, "driver"))
        exe = os.path.join(tgt, "debug", "mirfacts")
        if rc != 0 or not os.path.exists(exe):
            raise PrepError("driver build failed:\n" + e[-4000:])
        return exe


def src_files(root):
    out = []
    for d, dirs, fs in os.walk(os.path.join(root, "src")):
        dirs.sort()
        for f in sorted(fs):
            out.append(os.path.relpath(os.path.join(d, f), root))
    return out


def tree_hash(root=None):
    root = root or REPO
    h = hashlib.sha256()
    for f in ["Cargo.toml"] + src_files(root):
        h.update(f.encode() + b"\0")
        h.update(open(os.path.join(root, f), "rb").read())
    for d in ("driver/src/main.rs", "engine/prep.py"):
        h.update(open(os.path.join(VERIF, d), "rb").read())
    return h.hexdigest()[:16]


def lockfile(root):
    for p in (os.path.join(root, "Cargo.lock"), "/opt/vp/Cargo.lock.saved", os.path.join(VERIF, "driver", "repo.Cargo.lock")):
        if os.path.exists(p):
            return p
    raise PrepError("no Cargo.lock")


def scratch_copy(dst, root=None, shim=True):
    """Copy of the crate the driver's toolchain can type-check: only the std type
    BorrowedBuf gained a parameter in that toolchain, which the copy spells out."""
    root = root or REPO
    os.makedirs(dst, exist_ok=True)
    for f in src_files(root):
        p = os.path.join(dst, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if f.endswith(".rs"):
            t = open(os.path.join(root, f), encoding="utf-8").read()
            if shim:
                t = re.sub(r"(Borrowed(?:Buf|Cursor))<('[a-z_]+)>", r"\1<\2, u8>", t)
            open(p, "w", encoding="utf-8").write(t)
        else:
            shutil.copyfile(os.path.join(root, f), p)
    t = open(os.path.join(root, "Cargo.toml"), encoding="utf-8").read()
    if "[workspace]" not in t:
        t += "\n[workspace]\n"
    open(os.path.join(dst, "Cargo.toml"), "w").write(t)
    if os.path.exists(os.path.join(root, "README.md")):
        shutil.copyfile(os.path.join(root, "README.md"), os.path.join(dst, "README.md"))
    shutil.copyfile(lockfile(root), os.path.join(dst, "Cargo.lock"))


def feature_args(cfg):
    feats, dflt = CONFIGS[cfg]
    a = []
    if not dflt:
        a.append("--no-default-features")
    if feats:
        a += ["--features", feats]
    return a


def extract(cfg="full", root=None):
    """JSON facts file for one feature configuration of the current tree."""
    root = root or REPO
    exe = driver()
    key = tree_hash(root)
    out = os.path.join(BUILD, "facts", "%s-%s.json" % (cfg, key))
    with lock("facts-" + cfg):
        if os.path.exists(out) and os.path.getsize(out) > 0:
            return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        for f in os.listdir(os.path.dirname(out)):
            p = os.path.join(os.path.dirname(out), f)
            if f.startswith(cfg + "-") and time.time() - os.path.getmtime(p) > 3600:
                os.unlink(p)
        with tempfile.TemporaryDirectory(prefix="bdfacts") as tmp:
            w = os.path.join(tmp, "bytedata")
            scratch_copy(w, root)
            e = base_env()
            e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
            e["RUSTC_WORKSPACE_WRAPPER"] = exe
            e["MIRFACTS_CRATE"] = "bytedata"
            e["MIRFACTS_OUT"] = out + ".tmp"
            e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target-" + cfg)
            if "core_io_borrowed_buf" in CONFIGS[cfg][0]:
                e["RUSTFLAGS"] = "-Zcrate-attr=feature(core_io)"
            if os.path.exists(out + ".tmp"):
                os.unlink(out + ".tmp")
            # cargo's freshness cache would skip the wrapper: the scratch path differs on
            # every run, so the crate itself is always re-checked
            rc, o, err = sh(["cargo", "check", "--offline", "--lib"] + feature_args(cfg), env=e, cwd=w)
            if rc != 0 or not os.path.exists(out + ".tmp"):
                raise PrepError("facts extraction failed (%s):\n%s" % (cfg, "\n".join(l for l in err.splitlines() if not l.startswith("warning"))[-5000:]))
            os.replace(out + ".tmp", out)
            deps = os.path.join(BUILD, "target-" + cfg, "debug", "deps")
            for f in os.listdir(deps) if os.path.isdir(deps) else []:
                if "bytedata-" in f:
                    os.unlink(os.path.join(deps, f))
    return out


_facts = {}


def facts(cfg="full"):
    from facts import Facts

    if cfg not in _facts:
        _facts[cfg] = Facts(extract(cfg))
    return _facts[cfg]


if __name__ == "__main__" and sys.argv[1:] == ["setup"]:
    from concurrent.futures import ThreadPoolExecutor

    driver()
    with ThreadPoolExecutor(5) as ex:
        for r in ex.map(extract, list(CONFIGS)):
            print(r)
