"""Header run seen segment by segment: which marker a state is about, which
bytes of the input each stored value is made of."""
import random
from . import hdr, terms as T, absint as X
from .absint import Agg, Arr, Seq, En, VecV, Ref, Poly, Cond, UNDEF
from .terms import K, A

FRAME = (0xC0, 0xC2)
DHT, SOS, DQT, DRI = 0xC4, 0xDA, 0xDB, 0xDD
CODES = {0xC0, 0xC2, DHT, SOS, DQT, DRI, 0xE0, 0xFE}
NAME = {0xC0: "SOF0", 0xC2: "SOF2", DHT: "DHT", SOS: "SOS", DQT: "DQT", DRI: "DRI", 0xE0: "APP0", 0xFE: "COM"}
ZIGZAG = [0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21,
          28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54,
          47, 55, 62, 63]


def markers(s):
    """(byte atom, code) pinned to one of the marker codes, latest position first"""
    out = []
    for a, x in s.F.rng.items():
        if a.kind == "byte":
            if isinstance(x, frozenset):
                if len(x) == 1:
                    (v,) = x
                    if v in CODES:
                        out.append((a, v))
            elif x[0] == x[1] and x[0] in CODES:
                out.append((a, int(x[0])))
    return out


def byte(m, k):
    return A(T.app("byte", (T.add(m.args[0], K(k)),), m.meta, 0, 255))


def word(m, k):
    return T.add(T.scale(byte(m, k), 256), byte(m, k + 1))


def evalp(p, env):
    r = p.c
    for mono, k in p.t:
        x = k
        for a in mono:
            y = evala(a, env)
            if y is None:
                return None
            x *= y
        r += x
    return r


def evala(a, env):
    if a in env:
        return env[a]
    if a.kind in ("leaf", "byte"):
        return None
    if a.kind == "tab":
        key, tb, _ = a.meta
        x = evalp(key, env)
        q = dict(tb).get(x)
        return None if q is None else evalp(q, env)
    vs = [evalp(p, env) for p in a.args]
    if any(v is None for v in vs):
        return None
    return T.conc(a.kind, a.meta, vs)


def evalc(c, env):
    if c.k == "c":
        return c.a
    if c.k in ("and", "or"):
        x, y = evalc(c.a[0], env), evalc(c.a[1], env)
        if x is None or y is None:
            return None
        return (x and y) if c.k == "and" else (x or y)
    v = evalp(c.a, env)
    if v is None:
        return None
    return v >= 0 if c.k == "ge" else (v == 0 if c.k == "eq" else v != 0)


def free(l):
    """may take any of its values: an input byte or a field of the initial decoder"""
    return l.kind == "byte" or (l.kind == "leaf" and isinstance(l.meta, str) and l.meta.startswith("d."))


def values(F, l):
    v = F.aset(l)
    if v is not None:
        return sorted(v)
    if not free(l):
        return None
    lo, hi = F.arange(l)
    if hi == T.INF or lo == -T.INF:
        return None
    lo, hi = int(lo), int(hi)
    return sorted({x for x in (lo, lo + 1, lo + 2, lo + 255, lo + 256, (lo + hi) // 2, hi - 256, hi - 1, hi) if lo <= x <= hi})


def witness(s, cond, tries=6000, seed=1):
    """an assignment of the input bytes that satisfies every fact of the state
    about them and makes the condition false; None if none is found or the
    condition speaks about anything else than bytes"""
    F = s.F
    ls = T.cond_leaves(cond)
    if s.imp or any(l.imp for l in ls):
        return None
    if any(not free(l) for l in ls):
        return None
    rel = []
    todo = set(ls)
    allv = set(ls)
    while todo:
        new = set()
        for f in list(F.ge) + list(F.ne):
            if f.leaves & todo:
                ge = f in F.ge
                if (f, ge) not in rel:
                    rel.append((f, ge))
                    new |= f.leaves - allv
        allv |= new
        todo = new
        if len(allv) > 24:
            break
    if any(values(F, l) is None for l in allv):
        # facts about unbounded quantities: keep those over bounded ones only
        allv = {l for l in allv if values(F, l) is not None}
        rel = [(f, g) for f, g in rel if f.leaves <= allv]
        if not ls <= allv:
            return None
    vs = {l: values(F, l) for l in allv}
    cmp = [(a, r) for a, r in F.rng.items() if a.kind not in ("leaf", "byte") and a.leaves <= allv]
    rnd = random.Random(seed)
    order = sorted(vs, key=lambda l: l.id)
    sizes = 1
    for l in order:
        sizes *= len(vs[l])
    it = range(tries)
    for n in it:
        if sizes <= tries:
            if n >= sizes:
                return None
            env = {}
            q = n
            for l in order:
                env[l] = vs[l][q % len(vs[l])]
                q //= len(vs[l])
        else:
            small = n % 3 == 0
            env = {l: (rnd.choice(vs[l][:6] + vs[l][-4:]) if small else rnd.choice(vs[l])) for l in order}
        ok = True
        for f, g in rel:
            v = evalp(f, env)
            if v is None or (v < 0 if g else v == 0):
                ok = False
                break
        if ok:
            for a, r in cmp:
                v = evala(a, env)
                if v is None or (v not in r if isinstance(r, frozenset) else not r[0] <= v <= r[1]):
                    ok = False
                    break
        if ok and evalc(cond, env) is False:
            return env
    return None


class Judge:
    """collects verdicts for a report"""

    def __init__(self, rep):
        self.rep = rep

    def must(self, key, s, cond, text):
        """the condition must hold in the state"""
        h = s.F.holds(cond)
        if h is True:
            self.rep.ok()
            return True
        env = witness(s, cond)
        if env is None and h is False and not s.imp and not any(l.imp for l in T.cond_leaves(cond)) and cond.k != "c":
            env = {}
        if cond.k == "c" and not s.imp:
            env = {}
        if env is None:
            self.rep.obligations += 1
            self.rep.undecided.append("%s: not decided: %s" % (key, text))
            return None
        self.rep.fail(key, "%s%s" % (text, (" (for instance with " + ", ".join(
            "%r=%d" % (a, v) for a, v in sorted(env.items(), key=lambda x: x[0].id)[:8]) + ")") if env else ""))
        return False

    def same(self, key, s, got, want, text):
        if isinstance(got, Poly):
            return self.must(key, s, T.eq(T.sub(got, want)), "%s: is %r, must be %r" % (text, got, want))
        self.unknown(key, "%s: value not tracked (%s)" % (text, type(got).__name__))
        return None

    def unknown(self, key, text):
        self.rep.obligations += 1
        self.rep.undecided.append("%s: %s" % (key, text))


class Hooks:
    def __init__(self):
        self.back = []
        self.writes = []
        self.D = None

    def on_write(self, I, st, obj, path, val):
        if obj == self.D:
            self.writes.append((path, val, st.F.copy(), st.imp, [(f.p, l[0]) for f, l in I.stack[-6:]]))

    def on_variant(self, *a):
        pass

    def on_back(self, I, ctx, head, H, s):
        self.back.append((len(I.stack), ctx.fn, head, H.cur if H is not None else None, s))


class Seg:
    """a state in which one whole segment has been read"""

    def __init__(self, m, code, before, s):
        self.m, self.code, self.before, self.s = m, code, before, s


class Run:
    def __init__(self, prog, secs=700):
        self.p = prog
        self.hk = Hooks()

        def soft(I, s):
            ms = markers(s)
            out = []
            for a, v in ms:
                out.append((a.id, v))
                if v == SOS:
                    b = byte(a, 3)
                    out.append(s.F.val(b))
                    out.append(tuple(s.F.val(byte(a, k)) for k in (4, 6, 8)))
                    d = s.mem.get(self.hk.D)
                    if isinstance(d, Agg):
                        for x in d.f:
                            if isinstance(x, Arr) and len(x.e) <= 4 and all(isinstance(e, Poly) for e in x.e):
                                out.append(tuple(s.F.val(e) for e in x.e))
            return tuple(out)

        def fork(I, s):
            """one state per id a scan component may have"""
            out = [s]
            for a, v in markers(s):
                if v != SOS:
                    continue
                for k in (4, 6, 8):
                    b = byte(a, k).atom()
                    new = []
                    for x in out:
                        vs = x.F.rng.get(b)
                        if vs is None:
                            new.append(x)
                            continue
                        vs = x.F.aset(b)
                        if vs is None or not 2 <= len(vs) <= 4:
                            new.append(x)
                            continue
                        for n in sorted(vs):
                            y = x.copy()
                            if y.F.assume(T.eq(T.sub(A(b), K(n)))):
                                new.append(y)
                    out = new
            return out
        self.h = hdr.run(prog, self.hk, secs=secs, soft=soft, fork=fork)
        self.I = self.h.I
        self.D = self.h.D
        self.stop = self.h.stop
        self.dty = self.h.dty
        depth = min([b[0] for b in self.hk.back] or [0])
        self.backs = [(H, s) for d, f, hd, H, s in self.hk.back if d == depth]
        self.oks = [s for s, v in self.h.rets if isinstance(v, En) and s.F.val(v.tag) == 0]
        self.names = [f[0] for f in prog.tys[self.dty]["v"][0]["f"]]
        self.notes = []

    # ---- reading the decoder
    def get(self, s, *path):
        """value of a field path by name: 'info','width' ; None if there is no such field"""
        v = s.mem.get(self.D)
        t = self.dty
        for n in path:
            if isinstance(n, int):
                if isinstance(v, VecV):
                    t = v.ety
                    v = s.mem.get(v.obj)
                elif self.p.tys[t]["k"] == "array":
                    t = self.p.tys[t]["e"]
                if isinstance(v, (Arr, Seq)) and n < len(v.e):
                    v = v.e[n]
                else:
                    return None
                continue
            i = hdr.field(self.p, t, n) if self.p.tys[t]["k"] == "adt" else None
            if i is None or not isinstance(v, Agg):
                return None
            v = v.f[i]
            t = self.p.tys[t]["v"][0]["f"][i][1]
        return v

    def ncomp(self, s):
        v = self.get(s, "components")
        return s.F.val(v.len) if isinstance(v, VecV) else None

    def getter(self, s, name):
        """value a public getter returns in the state"""
        try:
            f = hdr.public(self.p, name)
        except Exception:
            return None
        s2 = s.copy()
        I = self.I
        I.hooks, hk = None, I.hooks
        I.mute += 1
        dl, I.deadline = I.deadline, None
        try:
            r = I.call(s2, f, [Ref(self.D)])
        finally:
            I.hooks = hk
            I.mute -= 1
            I.deadline = dl
        return r[0][1] if len(r) == 1 else None

    def segments(self, codes):
        """back states of the header loop that end a segment of one of the codes"""
        for H, s in self.backs:
            for a, v in markers(s):
                if v in codes:
                    yield Seg(a, v, H, s)

    def position(self, s):
        """where the reader is"""
        out = set()

        def walk(v):
            if isinstance(v, Agg):
                if len(v.f) == 2:
                    for x, y in (v.f, v.f[::-1]):
                        if isinstance(x, Ref) and x.obj == ("h", "in") and isinstance(y, Poly):
                            out.add(y)
                for x in v.f:
                    walk(x)
        for v in s.mem.values():
            walk(v)
        return out.pop() if len(out) == 1 else None
