"""Implication analysis: which CPU features are known to be present, and whether
the caller's permission to use unsafe code is known to be given, at every point
from which code that needs them can be reached.

Domain: a fact set K per program point (facts that hold whenever control is
there) and, for every local / argument / return value / struct field of scalar
or enum type, a map  constant -> facts implied when the value equals it.  Joins
intersect.  Sources: the run-time feature detection functions of std, and reads
of the option field that grants unsafe code.  All of it is a forward dataflow
fixpoint over every instance of the program (context-insensitive between
functions)."""

from .prog import AnchorMissing

BASE = {"sse", "sse2", "fxsr", "x87"}
IMPL = {"avx2": ["avx"], "avx": ["sse4.2"], "sse4.2": ["sse4.1"], "sse4.1": ["ssse3"],
        "ssse3": ["sse3"], "sse3": ["sse2"], "sse2": ["sse"], "fma": ["avx"], "f16c": ["avx"],
        "avx512f": ["avx2", "fma", "f16c"], "avx512bw": ["avx512f"], "avx512vl": ["avx512f"],
        "avx512dq": ["avx512f"], "avx512cd": ["avx512f"], "pclmulqdq": ["sse2"], "aes": ["sse2"],
        "sse4a": ["sse3"], "xop": ["fma4", "sse4a"], "fma4": ["avx", "sse4a"], "bmi1": [], "bmi2": [],
        "lzcnt": [], "popcnt": []}
# names used by the detection macro that differ from the feature names
DETECT = {"sse4_1": "sse4.1", "sse4_2": "sse4.2", "sse4a": "sse4a", "fma": "fma", "f16c": "f16c"}


def closure(fs):
    out, st = set(), list(fs)
    while st:
        f = st.pop()
        if f in out:
            continue
        out.add(f)
        st += IMPL.get(f, [])
    return frozenset(out)


ALL = "ALL"     # facts of an impossible situation


def union(a, b):
    if a is ALL or b is ALL:
        return ALL
    return a | b


def inter(a, b):
    if a is ALL:
        return b
    if b is ALL:
        return a
    return a & b


NONE = frozenset()


class V:
    """constant -> facts; `d` for every other constant"""
    __slots__ = ("m", "d")

    def __init__(self, m=None, d=NONE):
        self.m = {k: v for k, v in (m or {}).items() if v != d}
        self.d = d

    def get(self, c):
        return self.m.get(c, self.d)

    def __eq__(self, o):
        return self.d == o.d and self.m == o.m

    def __hash__(self):
        return 0

    def plus(self, k):
        if not k:
            return self
        return V({c: union(f, k) for c, f in self.m.items()}, union(self.d, k))

    def join(self, o):
        ks = set(self.m) | set(o.m)
        return V({c: inter(self.get(c), o.get(c)) for c in ks}, inter(self.d, o.d))

    def neg(self):
        return V({0: self.get(1), 1: self.get(0)}, self.d)

    def consts(self):
        """possible constants if finitely many are, else None"""
        if self.d is ALL:
            return [c for c, f in self.m.items() if f is not ALL]
        return None


TOP = V()
BOT = V(d=ALL)


def const(c):
    return V({c: NONE}, ALL)


class Implies:
    def __init__(self, P, opt_suffix="ZuneJpegOptions", opt_field="use_unsafe"):
        self.P = P
        self.opt = P.adt(opt_suffix)
        self.opt_field = P.field_index(self.opt, opt_field)
        self.entry = {}        # fn -> K
        self.args = {}         # fn -> [V]
        self.ret = {}          # fn -> V
        self.fields = {}       # (adt path, variant, idx) -> V
        self.at = {}           # fn -> {block: (K, {local: V})}
        self.dirty = set()
        self.users = {}        # fn -> callers (to redo when its return changes)
        self.field_users = {}
        self.entry_from = {}   # fn -> site text of first entry (for reports)
        self.work = []
        self.busy = set()
        for f in P.fns:
            if f.has_body() and self.is_root(f):
                self.enter(f.id, NONE, [TOP] * f.argc, "public API")
        self.solve()

    def is_root(self, f):
        return f.local and f.pub and f.kind != "closure" and not f.shim

    def push(self, i):
        if i not in self.dirty:
            self.dirty.add(i)
            self.work.append(i)

    def enter(self, i, K, args, src):
        f = self.P.fns[i]
        if not f.has_body():
            return
        K = union(K, closure(f.feat)) if f.feat else K
        if K is ALL:
            return
        if i not in self.entry:
            self.entry[i] = K
            self.args[i] = list(args)
            self.entry_from[i] = src
            self.push(i)
            return
        nk = inter(self.entry[i], K)
        na = [a.join(b) for a, b in zip(self.args[i], args)]
        if nk != self.entry[i] or na != self.args[i]:
            if nk != self.entry[i]:
                self.entry_from[i] = src
            self.entry[i] = nk
            self.args[i] = na
            self.push(i)

    def solve(self):
        n = 0
        while self.work:
            i = self.work.pop(0)
            if i not in self.dirty:
                continue
            self.dirty.discard(i)
            self.analyse(self.P.fns[i])
            n += 1
            if n > 200000:
                raise RuntimeError("no fixpoint")

    # -- fields -----------------------------------------------------------
    def fkey(self, tyid, variant, idx):
        t = self.P.tys[tyid]
        if t["k"] == "adt":
            return (t["n"], variant, idx)
        if t["k"] == "closure":
            return ("closure", t["inst"], idx)
        return None

    def store_field(self, key, v, K):
        if key is None:
            return
        v = v.plus(K)
        old = self.fields.get(key, BOT)
        new = old.join(v)
        if new != old:
            self.fields[key] = new
            for u in self.field_users.get(key, ()):
                self.push(u)

    def load_field(self, f, key):
        if key is None:
            return TOP
        self.field_users.setdefault(key, set()).add(f.id)
        return self.fields.get(key, TOP if not self.tracked(key) else BOT)

    def tracked(self, key):
        # fields of types defined outside are written by code we do not see
        return False if key[0] != "closure" and not self.local_adt(key[0]) else True

    def local_adt(self, n):
        if not hasattr(self, "_la"):
            self._la = {t["n"] for t in self.P.tys if t["k"] == "adt" and t["local"]}
        return n in self._la

    # -- places -----------------------------------------------------------
    def place_type(self, f, pl):
        t = f.locals[pl[0]]
        var = 0
        for e in pl[1]:
            ty = self.P.tys[t]
            if e == "*":
                t = ty.get("e", t)
                var = 0
            elif e[0] == "f":
                t = e[2]
                var = 0
            elif e[0] in ("i", "ci"):
                t = ty.get("e", t)
                var = 0
            elif e[0] == "d":
                var = e[1]
        return t, var

    def read(self, f, st, pl):
        env = st
        proj = pl[1]
        # strip: find the last field projection
        li = None
        for i, e in enumerate(proj):
            if e != "*" and e[0] == "f":
                li = i
        if li is None:
            if all(e == "*" for e in proj):
                return env.get(pl[0], TOP)
            return TOP
        if any(e != "*" for e in proj[li + 1:]):
            return TOP
        base = [pl[0], proj[:li]]
        t, var = self.place_type(f, base)
        ty = self.P.tys[t]
        idx = proj[li][1]
        if t == self.opt and idx == self.opt_field:
            return V({1: frozenset(["U"]), 0: NONE}, ALL)
        if ty["k"] == "tuple":
            # (value, overflow) pairs and small tuples: keep per local
            if not base[1]:
                return env.get((pl[0], idx), TOP)
            return TOP
        return self.load_field(f, self.fkey(t, var, idx))

    def val(self, f, st, op):
        if op[0] in ("cp", "mv"):
            return self.read(f, st, op[1])
        if len(op) < 3:
            return TOP
        v = op[2]
        if isinstance(v, bool):
            return const(int(v))
        if isinstance(v, int):
            return const(v)
        if isinstance(v, dict) and "agg" in v and "var" in v and not v["agg"]:
            return const(("v", v["var"]))
        if isinstance(v, dict) and "ref" in v:
            r = v["ref"]
            if isinstance(r, int):
                return const(int(r))
        return TOP

    def write(self, f, st, K, pl, v):
        proj = pl[1]
        if not proj:
            st[pl[0]] = v
            for k in [k for k in st if isinstance(k, tuple) and k[0] == pl[0]]:
                del st[k]
            return
        if all(e == "*" for e in proj):
            return self.havoc_refs(f, st)
        li = None
        for i, e in enumerate(proj):
            if e != "*" and e[0] == "f":
                li = i
        if li is None:
            return
        base = [pl[0], proj[:li]]
        t, var = self.place_type(f, base)
        if self.P.tys[t]["k"] == "tuple" and not base[1]:
            st[(pl[0], proj[li][1])] = v
            return
        self.store_field(self.fkey(t, var, proj[li][1]), v, K)

    def havoc_refs(self, f, st):
        for l in self.addr_taken(f):
            st.pop(l, None)

    def addr_taken(self, f):
        c = getattr(self, "_at", None)
        if c is None:
            c = self._at = {}
        if f.id not in c:
            s = set()
            for b in f.bb:
                for x in b["s"]:
                    if x[0] == "=" and x[2][0] in ("ref", "raw") and x[2][1]:
                        s.add(x[2][2][0])
            c[f.id] = s
        return c[f.id]

    # -- transfer ---------------------------------------------------------
    def analyse(self, f):
        self.busy.add(f.id)
        try:
            self.analyse1(f)
        finally:
            self.busy.discard(f.id)

    def analyse1(self, f):
        self.at[f.id] = {}
        inst = {0: (self.entry[f.id], {i + 1: a for i, a in enumerate(self.args[f.id])})}
        work = [0]
        rv = BOT
        while work:
            b = work.pop(0)
            K, st = inst[b]
            self.at[f.id][b] = (K, st)
            outs, r = self.block(f, b, K, dict(st))
            if r is not None:
                rv = rv.join(r)
            for s, k2, st2 in outs:
                if k2 is ALL:
                    continue
                if s not in inst:
                    inst[s] = (k2, st2)
                    if s not in work:
                        work.append(s)
                else:
                    ok, ost = inst[s]
                    nk = inter(ok, k2)
                    nst = {}
                    for l in set(ost) & set(st2):
                        v = ost[l].plus(ok).join(st2[l].plus(k2))
                        if v != TOP:
                            nst[l] = v
                    if nk != ok or nst != ost:
                        inst[s] = (nk, nst)
                        if s not in work:
                            work.append(s)
        if self.ret.get(f.id, BOT) != rv or f.id not in self.ret:
            self.ret[f.id] = rv
            for c in self.users.get(f.id, ()):
                self.push(c)

    def discs(self, tyid):
        t = self.P.tys[tyid]
        return t

    def rvalue(self, f, st, K, rv, dst):
        k = rv[0]
        if k == "use":
            return self.val(f, st, rv[1])
        if k == "ref" or k == "raw":
            return self.read(f, st, rv[2])
        if k == "un":
            if rv[1] == "Not":
                v = self.val(f, st, rv[2])
                return v.neg()
            return TOP
        if k == "cast":
            if rv[1].startswith("IntToInt"):
                return self.val(f, st, rv[2])
            return TOP
        if k == "bin":
            a, b = self.val(f, st, rv[2]), self.val(f, st, rv[3])
            op = rv[1]
            ca, cb = a.consts(), b.consts()
            if ca is not None and cb is not None and len(ca) * len(cb) <= 16 and \
               all(isinstance(x, int) for x in ca + cb):
                fn = {"BitAnd": lambda x, y: x & y, "BitOr": lambda x, y: x | y, "BitXor": lambda x, y: x ^ y,
                      "Eq": lambda x, y: int(x == y), "Ne": lambda x, y: int(x != y)}.get(op)
                if fn:
                    m = {}
                    for x in ca:
                        for y in cb:
                            fx = union(a.get(x), b.get(y))
                            c = fn(x, y)
                            m[c] = inter(m[c], fx) if c in m else fx
                    return V(m, ALL)
            # the operands are 0/1 booleans with unknown side
            if op == "BitAnd" and self.is_bool(f, rv[2]):
                return V({1: union(a.get(1), b.get(1)), 0: inter(a.get(0), b.get(0))}, ALL)
            if op == "BitOr" and self.is_bool(f, rv[2]):
                return V({0: union(a.get(0), b.get(0)), 1: inter(a.get(1), b.get(1))}, ALL)
            if op in ("Eq", "Ne"):
                for x, y, cs in ((a, b, cb), (b, a, ca)):
                    if cs is not None and len(cs) == 1:
                        eq = x.get(cs[0])
                        v = V({1: eq, 0: self.other(x, cs[0], self.is_bool(f, rv[2]))}, ALL)
                        return v if op == "Eq" else v.neg()
            return TOP
        if k == "disc":
            t, _ = self.place_type(f, rv[1])
            v = self.read(f, st, rv[1])
            ty = self.P.tys[t]
            if ty["k"] == "adt":
                m = {}
                for vi, var in enumerate(ty["v"]):
                    m[var["d"]] = v.get(("v", vi))
                return V(m, v.d)
            return TOP
        if k == "agg":
            kind = rv[1]
            if kind[0] == "adt":
                for i, o in enumerate(rv[2]):
                    fi = kind[3] if kind[3] >= 0 else i
                    self.store_field(self.fkey(kind[1], kind[2], fi), self.val(f, st, o), K)
                return const(("v", kind[2]))
            if kind[0] == "closure":
                for i, o in enumerate(rv[2]):
                    self.store_field(self.fkey(kind[1], 0, i), self.val(f, st, o), K)
            return TOP
        return TOP

    def other(self, x, c, isb):
        if isb:
            return x.get(1 - c)
        r = x.d
        for k, v in x.m.items():
            if k != c:
                r = inter(r, v)
        return r

    def is_bool(self, f, op):
        if len(op) < 3 and op[0] not in ("cp", "mv"):
            return True
        if op[0] in ("cp", "mv"):
            t, _ = self.place_type(f, op[1])
        else:
            t = op[1]
        return self.P.tys[t]["k"] == "bool"

    def detect(self, callee):
        n = callee.get("via", "")
        if "__is_feature_detected::" in n:
            x = n.rsplit("::", 1)[1]
            return DETECT.get(x, x)
        return None

    def block(self, f, b, K, st):
        blk = f.bb[b]
        for s in blk["s"]:
            if s[0] == "=":
                rv = s[2]
                v = self.rvalue(f, st, K, rv, s[1])
                self.write(f, st, K, s[1], v)
                if rv[0] == "agg" and rv[1][0] == "tuple" and not s[1][1]:
                    for i, o in enumerate(rv[2]):
                        st[(s[1][0], i)] = self.val(f, st, o)
                self.refs(f, b, K, st, rv, s)
            elif s[0] == "sd":
                pass
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], K, st)], None
        if k == "switch":
            v = self.val(f, st, t[1])
            outs = []
            rest = v
            isb = self.is_bool(f, t[1])
            seen = set()
            src = t[1][1] if t[1][0] in ("cp", "mv") else None
            for c, tgt in t[2]:
                seen.add(c)
                outs.append((tgt, union(K, v.get(c)), dict(st)))
            if isb and len(seen) == 1:
                o = v.get(1 - next(iter(seen)))
            else:
                o = v.d
                for c, fx in v.m.items():
                    if c not in seen:
                        o = inter(o, fx)
            outs.append((t[3], union(K, o), dict(st)))
            return outs, None
        if k == "ret":
            return [], st.get(0, TOP).plus(K)
        if k == "drop":
            return [(t[2], K, st)], None
        if k == "assert":
            return [(t[4], K, st)], None
        if k == "asm":
            return [(t[1], K, st)] if t[1] >= 0 else [], None
        if k == "call":
            c = t[1]
            res = TOP
            d = self.detect(c)
            args = [self.val(f, st, a) for a in t[2]]
            if d:
                res = V({1: closure([d]), 0: NONE}, ALL)
            elif "i" in c:
                g = self.P.fns[c["i"]]
                if g.has_body():
                    a = args
                    if g.spread >= 0 or len(a) != g.argc:
                        a = [TOP] * g.argc
                    self.enter(g.id, K, a, self.site(f, t[5]))
                    self.users.setdefault(g.id, set()).add(f.id)
                    if g.id in self.dirty and g.id not in self.busy:
                        self.dirty.discard(g.id)
                        self.analyse(g)
                    res = self.ret.get(g.id, BOT)
                    if res is BOT or (res.d is ALL and not res.m):
                        # not computed yet, or never returns
                        if g.id not in self.ret:
                            return [], None
                        return [], None
                else:
                    for r in self.hidden(g):
                        self.enter(r, K, [TOP] * (self.P.fns[r].argc or 0), self.site(f, t[5]))
            elif "ptr" in c:
                pass
            elif "virt" in c or "unres" in c:
                pass
            for a in t[2]:
                for r in self.P.op_refs(a):
                    pass
            # callee may write through &mut arguments
            if any(x[0] in ("cp", "mv") for x in t[2]):
                self.havoc_mut(f, st, t[2])
            if t[4] < 0:
                return [], None
            self.write(f, st, K, t[3], res)
            return [(t[4], K, st)], None
        return [], None

    def havoc_mut(self, f, st, args):
        for a in args:
            if a[0] in ("cp", "mv"):
                ty, _ = self.place_type(f, a[1])
                if self.P.tys[ty]["k"] in ("ref", "ptr") and self.P.tys[ty].get("m"):
                    self.havoc_refs(f, st)
                    return

    def hidden(self, g):
        out = set()
        for t in g.ga:
            out |= self.P.fn_refs_in_type(t)
        return out

    def refs(self, f, b, K, st, rv, s):
        """function values created here: from now on they may be called by code
        that runs only because this point was reached"""
        P = self.P
        if rv[0] == "cast":
            if len(rv) > 4:
                self.enter(rv[4], K, [TOP] * (P.fns[rv[4]].argc or 0), self.site(f, s[3]))
            elif "Unsize" in rv[1]:
                o = rv[2]
                ty = self.place_type(f, o[1])[0] if o[0] in ("cp", "mv") else o[1]
                for r in P.fn_refs_in_type(ty):
                    self.enter(r, K, [TOP] * (P.fns[r].argc or 0), self.site(f, s[3]))
        for o in P.rv_ops(rv):
            if o[0] == "c" and isinstance(o[2], dict) and "fn" not in o[2]:
                for r in P.const_fn_refs(o[2]):
                    self.enter(r, K, [TOP] * (P.fns[r].argc or 0), self.site(f, s[3]))

    def site(self, f, line):
        return "%s (%s:%s)" % (f.p, f.file, line)

    def call_sites(self):
        """(fn, block, K, terminator) of every reachable call; K after the
        block's statements equals K at its start"""
        for i in sorted(self.at):
            f = self.P.fns[i]
            for b, (K, st) in sorted(self.at[i].items()):
                t = f.bb[b]["t"]
                if t[0] == "call":
                    yield f, b, K, t

    def chain(self, i, n=8):
        out = []
        while i in self.entry_from and n:
            out.append(self.entry_from[i])
            nm = self.entry_from[i].split(" (")[0]
            nx = [f.id for f in self.P.fns if f.p == nm and f.id in self.entry_from]
            if not nx or nx[0] == i:
                break
            i = nx[0]
            n -= 1
        return " <- ".join(out)
