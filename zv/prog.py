"""Extraction of /repo's MIR through the rustc driver, and the Program object
the analyses work on."""
import re, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZV_REPO", "/repo")
DRIVER = os.path.join(VERIF, ".build", "driver", "release", "zdriver")

DENY = ",".join([
    "core::fmt", "alloc::fmt", "std::fmt", "log::", "std::thread", "std::sync",
    "std::panicking", "core::panicking", "std::fs", "std::sys", "alloc::raw_vec",
    "alloc::alloc", "scoped_threadpool", "core::str", "alloc::string",
    "core::unicode", "std::io::error", "std::alloc",
])


class CheckError(Exception):
    """The check cannot give an answer (tree does not build, ...)."""


class AnchorMissing(Exception):
    """Something the property is anchored on is not in the tree."""


def build_driver():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(VERIF, ".build", "driver"))
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline"],
                       cwd=os.path.join(VERIF, "driver"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("driver does not build:\n" + r.stdout[-4000:])


def extract(features=True, repo=None):
    repo = repo or REPO
    if not os.path.exists(DRIVER) or \
       os.path.getmtime(DRIVER) < os.path.getmtime(os.path.join(VERIF, "driver/src/main.rs")):
        build_driver()
    sysroot = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
    tmp = tempfile.mkdtemp(prefix="zv_")
    try:
        out = os.path.join(tmp, "o.json")
        env = dict(os.environ)
        env.pop("RUSTC_WRAPPER", None)
        env.update({
            "LD_LIBRARY_PATH": os.path.join(sysroot, "lib"),
            "ZV_CRATE": "zune_jpeg", "ZV_OUT": out, "ZV_DENY": DENY,
            "RUSTFLAGS": "-Zmir-opt-level=0 -Zalways-encode-mir -Cdebug-assertions=off -Coverflow-checks=on",
            "CARGO_TARGET_DIR": os.path.join(tmp, "tgt"),
            "RUSTC_WORKSPACE_WRAPPER": DRIVER,
            "CARGO_INCREMENTAL": "0",
        })
        cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "--quiet"]
        if not features:
            cmd.append("--no-default-features")
        r = subprocess.run(cmd, cwd=repo, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            raise CheckError("cargo check of %s failed:\n%s" % (repo, r.stdout[-4000:]))
        with open(out) as f:
            return Program(json.load(f))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Fn:
    __slots__ = ("id", "n", "p", "cr", "local", "kind", "shim", "llvm", "feat", "unsafe",
                 "pub", "const", "ga", "ca", "parent", "self_ty", "file", "line",
                 "argc", "spread", "locals", "names", "bb", "_loops", "_uses")

    def __init__(self, d):
        for k in ("id", "n", "p", "cr", "local", "kind", "shim", "llvm", "feat", "unsafe",
                  "pub", "const", "ga", "ca", "parent", "file", "line"):
            setattr(self, k, d[k])
        self.self_ty = d["self"]
        self.argc = d.get("argc")
        self.spread = d.get("spread", -1)
        self.locals = d.get("locals")
        self.names = {a: b for a, b in d.get("names", [])}
        self.bb = d.get("bb")
        self._loops = None
        self._uses = None

    def __repr__(self):
        return "<%s>" % self.n

    def has_body(self):
        return self.bb is not None

    def succs(self, b):
        t = self.bb[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] >= 0 else []
        if k == "assert":
            return [t[4]]
        if k == "asm":
            return [t[1]] if t[1] >= 0 else []
        return []

    def live_blocks(self):
        seen, st = {0}, [0]
        while st:
            b = st.pop()
            for s in self.succs(b):
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen


class Program:
    def __init__(self, d):
        self.fns = [Fn(x) for x in d["fns"]]
        self.tys = d["tys"]
        for t in self.tys:
            # integers restricted to a range (what NonZero is made of) are those integers
            m = re.match(r"pattern_type!\(([ui])(8|16|32|64|128|size) is (-?\d+)\.\.", t["n"]) if t["k"] == "other" else None
            if m:
                t["k"] = "int"
                t["s"], t["b"] = int(m.group(1) == "i"), 64 if m.group(2) == "size" else int(m.group(2))
                t["lo"] = int(m.group(3))
        self.statics = d["statics"]
        self.generic = d["generic"]
        self.unsafe_impls = [x for x in d["unsafe_impls"] if "TrivialClone" not in x]
        self.by_path = {}
        for f in self.fns:
            self.by_path.setdefault(f.p, []).append(f)

    # -- lookup -----------------------------------------------------------
    def local_fns(self):
        return [f for f in self.fns if f.local and f.has_body()]

    def find(self, suffix, local=True):
        """functions whose path ends with ::suffix (or equals it)"""
        r = []
        for f in self.fns:
            if local and not f.local:
                continue
            if f.p == suffix or f.p.endswith("::" + suffix):
                r.append(f)
        return r

    def one(self, suffix, local=True):
        r = [f for f in self.find(suffix, local) if f.has_body()]
        if not r:
            raise AnchorMissing("function %s not found" % suffix)
        return r[0]

    def adt(self, suffix):
        for i, t in enumerate(self.tys):
            if t["k"] == "adt" and t["local"] and (t["p"] == suffix or t["p"].endswith("::" + suffix)):
                return i
        raise AnchorMissing("type %s not found" % suffix)

    def field_index(self, tyid, name, variant=0):
        for i, (n, _) in enumerate(self.tys[tyid]["v"][variant]["f"]):
            if n == name:
                return i
        raise AnchorMissing("field %s of %s not found" % (name, self.tys[tyid]["n"]))

    def variant_index(self, tyid, name):
        for i, v in enumerate(self.tys[tyid]["v"]):
            if v["n"] == name:
                return i
        raise AnchorMissing("variant %s of %s not found" % (name, self.tys[tyid]["n"]))

    # -- call graph --------------------------------------------------------
    def fn_refs_in_type(self, tyid, seen=None):
        """instances mentioned by a type (fn items, closures, incl. nested)"""
        out = set()
        stack, seen = [tyid], set()
        while stack:
            t = stack.pop()
            if t in seen:
                continue
            seen.add(t)
            ty = self.tys[t]
            if ty["k"] == "closure":
                out.add(ty["inst"])
                stack += ty["f"]
            elif ty["k"] == "fndef":
                if "i" in ty["c"]:
                    out.add(ty["c"]["i"])
            elif ty["k"] == "tuple":
                stack += ty["f"]
            elif ty["k"] == "adt":
                stack += ty["ga"]
            elif ty["k"] in ("ref", "ptr", "slice", "array"):
                stack.append(ty["e"])
        return out

    def const_fn_refs(self, v):
        out = set()

        def go(v):
            if isinstance(v, dict):
                if "fp" in v:
                    out.add(v["fp"])
                if "fn" in v:
                    out.update(self.fn_refs_in_type(v["fn"]))
                for k in ("ref", "agg", "slice"):
                    if k in v:
                        go(v[k])
            elif isinstance(v, list):
                for x in v:
                    go(x)
        go(v)
        return out

    def op_refs(self, op):
        if op[0] == "c":
            return self.const_fn_refs(op[2])
        return set()

    def rv_ops(self, rv):
        k = rv[0]
        if k == "use" or k == "rep":
            return [rv[1]]
        if k == "cast":
            return [rv[2]]
        if k == "bin":
            return [rv[2], rv[3]]
        if k == "un":
            return [rv[2]]
        if k == "agg":
            return rv[2]
        return []

    def edges(self, f, taken=True):
        """(call targets, referenced-as-value targets).  A function referenced
        as a value is one that may be called later; both are over-approximations
        of who may run."""
        calls, refs = set(), set()
        if not f.has_body():
            # body not exported: callables hidden in its type arguments may run
            for t in f.ga:
                refs |= self.fn_refs_in_type(t)
            return calls, refs
        live = f.live_blocks()
        for bi in live:
            b = f.bb[bi]
            for s in b["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                if rv[0] == "cast" and len(rv) > 4:
                    refs.add(rv[4])
                if rv[0] == "agg" and rv[1][0] == "closure":
                    refs.add(self.tys[rv[1][1]]["inst"])
                for o in self.rv_ops(rv):
                    refs |= self.op_refs(o)
            t = b["t"]
            if t[0] == "call":
                c = t[1]
                if "i" in c:
                    calls.add(c["i"])
                for a in t[2]:
                    refs |= self.op_refs(a)
            elif t[0] == "drop":
                calls |= self.drop_calls(t[3])
        return calls, refs

    def drop_calls(self, tyid):
        out, stack, seen = set(), [tyid], set()
        while stack:
            t = stack.pop()
            if t in seen:
                continue
            seen.add(t)
            ty = self.tys[t]
            if ty["k"] == "adt":
                if "dropi" in ty:
                    out.add(ty["dropi"])
                for v in ty["v"]:
                    stack += [x[1] for x in v["f"]]
                stack += ty["ga"]
            elif ty["k"] in ("tuple", "closure"):
                stack += ty["f"]
            elif ty["k"] in ("array", "slice"):
                stack.append(ty["e"])
        return out

    def reach(self, roots, cut=lambda f, g: False):
        """functions reachable from roots; returns {id: predecessor id}"""
        pred = {}
        st = []
        for r in roots:
            pred[r] = None
            st.append(r)
        while st:
            i = st.pop()
            c, r = self.edges(self.fns[i])
            for j in c | r:
                if j not in pred and not cut(i, j):
                    pred[j] = i
                    st.append(j)
        return pred

    def path_to(self, pred, i):
        out = []
        while i is not None:
            out.append(self.fns[i].n)
            i = pred[i]
        return out[::-1]
