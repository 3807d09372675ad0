"""Loader for the JSON the mirfacts driver writes: types, MIR bodies, impls."""
import json, re

_norm = re.compile(r"(?<![\w:])(?:bytedata::)?(core|alloc)::")


class Facts:
    def __init__(self, path):
        txt = open(path).read()
        # one name per item: std's facade re-exports core and alloc
        txt = _norm.sub("std::", txt)
        d = json.loads(txt)
        self.crate = d["crate"]
        self.types = d["types"]
        self.fns = {}
        for f in d["fns"]:
            self.fns[f["p"]] = f
        self.items = d["items"]
        self.adts = {i["p"]: i for i in self.items if i["k"] == "adt"}
        self.consts = {i["p"]: i for i in self.items if i["k"] == "const"}
        self.traits = {i["p"]: i for i in self.items if i["k"] == "trait"}
        self.impls = [i for i in self.items if i["k"] == "impl"]
        self.by_key = {}
        self._subst = {}
        for i, t in enumerate(self.types):
            self.by_key.setdefault(t["s"], i)
        # trait method lookup: (trait path, self adt/prim key) -> {method: fn path}
        self.trait_impls = {}
        for im in self.impls:
            if "trait" in im:
                self.trait_impls.setdefault((im["trait"], self.head(im["self"])), []).append(im)

    def ty(self, i):
        return self.types[i]

    def s(self, i):
        return self.types[i]["s"]

    def head(self, i):
        t = self.types[i]
        k = t["k"]
        if k == "adt":
            return t["def"]
        if k in ("ref", "ptr"):
            return ("&" if k == "ref" else "*") + ("mut " if t["mut"] else "") + str(self.head(t["t"]))
        if k == "slice":
            return "[" + str(self.head(t["t"])) + "]"
        if k in ("int", "bool", "char", "str", "never"):
            return t["s"]
        if k == "param":
            return "?"
        return k

    def local_fns(self):
        return [f for f in self.fns.values() if f["local"]]

    def find_ty(self, s):
        return self.by_key.get(s)

    def new_ty(self, d):
        key = d["s"]
        if key in self.by_key:
            return self.by_key[key]
        self.types.append(d)
        self.by_key[key] = len(self.types) - 1
        return len(self.types) - 1

    def mk_ref(self, t, mut=False):
        return self.new_ty({"s": ("&mut " if mut else "&") + self.s(t), "k": "ref", "mut": mut, "t": t, "needs_drop": False, "size": 8, "align": 8})

    def mk_tuple(self, ts):
        return self.new_ty({"s": "(" + ", ".join(self.s(t) for t in ts) + ("," if len(ts) == 1 else "") + ")", "k": "tuple", "ts": list(ts)})

    def subst(self, tid, args):
        """Substitute generic parameters of a type; args is a list (type id, None or 'const N')."""
        if tid is None or not args:
            return tid
        t = self.types[tid]
        if not t.get("poly"):
            return tid
        key = (tid, tuple(args))
        r = self._subst.get(key)
        if r is not None:
            return r
        k = t["k"]
        if k == "param":
            i = t["i"]
            r = args[i] if i < len(args) and isinstance(args[i], int) else tid
            self._subst[key] = r
            return r

        def names(s):
            return s

        n = dict(t)
        idx = len(self.types)
        self.types.append(n)
        self._subst[key] = idx
        if k in ("ref", "ptr", "slice"):
            n["t"] = self.subst(t["t"], args)
        elif k == "array":
            n["t"] = self.subst(t["t"], args)
            m = re.match(r"(\w+)/#(\d+)", t["n"]) or re.search(r"/#(\d+)", t["n"])
            if m:
                j = int(m.group(m.lastindex))
                if j < len(args) and isinstance(args[j], str):
                    n["n"] = args[j].replace("const ", "")
        elif k == "tuple":
            n["ts"] = [self.subst(x, args) for x in t["ts"]]
        elif k == "adt":
            n["args"] = [self.subst(x, args) if isinstance(x, int) else self._cargs(x, args) for x in t["args"]]
            n["variants"] = [dict(v, f=[dict(f, t=self.subst(f["t"], args)) for f in v["f"]]) for v in t["variants"]]
        elif k in ("fndef", "closure"):
            n["args"] = [self.subst(x, args) if isinstance(x, int) else x for x in t["args"]]
            if k == "closure":
                n["ups"] = [self.subst(x, args) for x in t["ups"]]
        elif k == "alias" and "trait" in t:
            n["args"] = [self.subst(x, args) if isinstance(x, int) else x for x in t["args"]]
            r = self.project(t["trait"], t["item"], n["args"])
            if r is not None:
                self._subst[key] = r
                return r
        n["s"] = t["s"] + "@" + ",".join(self.s(a) if isinstance(a, int) else str(a) for a in args)
        if k == "adt":
            n["s"] = t["def"] + "<" + ",".join(self.s(a) if isinstance(a, int) else str(a) for a in n["args"]) + ">"
        elif k == "ref":
            n["s"] = ("&mut " if t["mut"] else "&") + self.s(n["t"])
        elif k == "ptr":
            n["s"] = ("*mut " if t["mut"] else "*const ") + self.s(n["t"])
        elif k == "slice":
            n["s"] = "[" + self.s(n["t"]) + "]"
        elif k == "tuple":
            n["s"] = "(" + ", ".join(self.s(x) for x in n["ts"]) + ")"
        return idx

    def match(self, pat, act, g):
        """Binds the type parameters of pat so that it becomes act."""
        p, t = self.types[pat], self.types[act]
        if p["k"] == "param":
            if p["i"] in g:
                return g[p["i"]] == act or self.s(g[p["i"]]) == self.s(act)
            g[p["i"]] = act
            return True
        if p["k"] != t["k"] or p["k"] == "adt" and p["def"] != t["def"]:
            return False
        if p["k"] == "adt":
            return all(self.match(x, y, g) for x, y in zip(p["args"], t["args"]) if isinstance(x, int) and isinstance(y, int))
        if p["k"] in ("ref", "ptr", "slice", "array"):
            return self.match(p["t"], t["t"], g)
        if p["k"] == "tuple":
            return len(p["ts"]) == len(t["ts"]) and all(self.match(x, y, g) for x, y in zip(p["ts"], t["ts"]))
        return self.s(pat) == self.s(act)

    def impl_item(self, trait, item, a):
        """(path, type or None, arguments) of a trait item for the given trait arguments, where a local impl provides it."""
        if not a or not isinstance(a[0], int) or self.types[a[0]]["k"] in ("param", "alias"):
            return None
        ims = self.trait_impls.get((trait, self.head(a[0])), []) + self.trait_impls.get((trait, "?"), [])
        for im in ims:
            g = {}
            if not self.match(im["self"], a[0], g) or not all(self.match(x, y, g) for x, y in zip(im.get("targs", []), a) if isinstance(x, int) and isinstance(y, int)):
                continue
            for n, p, ty in im["items"]:
                if n == item:
                    return p, ty, [g.get(i) for i in range(max(list(g) + [-1]) + 1)]
        return None

    def project(self, trait, item, a):
        r = self.impl_item(trait, item, a)
        if r is None or r[1] is None:
            return None
        return self.subst(r[1], r[2])

    @staticmethod
    def _cargs(x, args):
        if isinstance(x, str):
            m = re.search(r"/#(\d+)", x)
            if m and int(m.group(1)) < len(args) and isinstance(args[int(m.group(1))], str):
                return args[int(m.group(1))]
        return x

    def subst_args(self, a, args):
        return [self.subst(x, args) if isinstance(x, int) else self._cargs(x, args) for x in a]


def arg_types(f):
    return f["locals"][1 : 1 + f["argc"]]
