"""Abstract interpreter over the exported MIR.

One run starts at a root function with an abstract state and follows every
feasible edge, inlining every callee whose body is known (context-sensitive by
inlining).  States that reach the same block with the same known enum variants
and booleans are joined (value-numbering join); loops are unrolled only while
their exit is decided by constants or a small bounded quantity and otherwise
brought to a fixpoint with widening.  No solver, no enumeration of paths, no
execution: the result covers every input the initial state describes."""
import struct, time
from . import terms as T
from .terms import K, A, Facts, TRUE, FALSE, INF, Poly, Cond
from .prog import CheckError

LOOPS = []          # loops being unrolled, innermost last
POSMAX = 128        # arrays up to this size are kept element by element


class Agg:
    __slots__ = ("f", "lv")

    def __init__(self, f):
        self.f = tuple(f)
        self.lv = None

    def __repr__(self):
        return "{" + ", ".join(map(repr, self.f)) + "}"


class En:
    __slots__ = ("ty", "tag", "pay", "lv")

    def __init__(self, ty, tag, pay):
        self.ty, self.tag, self.pay = ty, tag, tuple(pay)
        self.lv = None

    def __repr__(self):
        return "En<%r:%s>" % (self.tag, ",".join("-" if p is None else repr(p) for p in self.pay))


class Ref:
    __slots__ = ("obj", "path", "off", "len", "lv", "lim")

    def __init__(self, obj, path=(), off=None, len=None, lim=None):
        self.obj, self.path, self.off, self.len = obj, path, off, len
        self.lv = None
        self.lim = lim      # element pointers taken from a slice: its first index and its end

    def __repr__(self):
        return "&%s%s%s" % (self.obj, "".join(".%s" % (p,) for p in self.path),
                            "" if self.len is None else "[%r;+%r]" % (self.off, self.len))


class Arr:
    __slots__ = ("e", "lv")

    def __init__(self, e):
        self.e = tuple(e)
        self.lv = None

    def __repr__(self):
        return "Arr%d%r" % (len(self.e), self.e[:4])


class Seq:
    """e: known elements at the front, rest: template of all further ones"""
    __slots__ = ("e", "rest", "lv")

    def __init__(self, e, rest):
        self.e, self.rest = tuple(e), rest
        self.lv = None

    def __repr__(self):
        return "Seq%r+%r" % (self.e[:4], self.rest)


class Inp:
    """the input bytes"""
    __slots__ = ("id", "lv")

    def __init__(self, id):
        self.id = id
        self.lv = frozenset()

    def __repr__(self):
        return "Inp(%s)" % self.id


class VecV:
    __slots__ = ("obj", "len", "ety", "lv")

    def __init__(self, obj, len, ety):
        self.obj, self.len, self.ety = obj, len, ety
        self.lv = None

    def __repr__(self):
        return "Vec(%s,len=%r)" % (self.obj, self.len)


class Fnp:
    __slots__ = ("s", "lv")

    def __init__(self, s):
        self.s = frozenset(s)
        self.lv = frozenset()

    def __repr__(self):
        return "Fn%s" % (sorted(self.s),)


class Top:
    __slots__ = ("ty", "imp", "lv")

    def __init__(self, ty, imp=False):
        self.ty, self.imp = ty, imp
        self.lv = frozenset()

    def __repr__(self):
        return "T%s%s" % (self.ty, "?" if self.imp else "")


class Flt(Top):
    """a floating point constant; anything else of these types is unknown"""
    __slots__ = ("v",)

    def __init__(self, ty, v):
        Top.__init__(self, ty)
        self.v = v

    def __repr__(self):
        return "%rf" % (self.v,)


def fround(x, bits):
    return struct.unpack("<f", struct.pack("<f", x))[0] if bits == 32 else x


class Rng:
    """template of an integer"""
    __slots__ = ("lo", "hi", "imp", "lv")

    def __init__(self, lo, hi, imp=False):
        self.lo, self.hi, self.imp = lo, hi, imp
        self.lv = frozenset()

    def __repr__(self):
        return "[%s..%s]" % (self.lo, self.hi)


class Reg:
    """a vector register: lanes of w bits each"""
    __slots__ = ("w", "l", "lv")

    def __init__(self, w, l):
        self.w, self.l = w, tuple(l)
        self.lv = None

    def __repr__(self):
        return "Reg%dx%d%r" % (self.w, len(self.l), self.l[:2])


class _Un:
    lv = frozenset()

    def __repr__(self):
        return "undef"


UNDEF = _Un()


class Loc:
    __slots__ = ("obj", "path", "off", "len")

    def __init__(self, obj, path=(), off=None, len=None):
        self.obj, self.path, self.off, self.len = obj, path, off, len


def leaves(v):
    if isinstance(v, Poly):
        return v.leaves
    if isinstance(v, Cond):
        return T.cond_leaves(v)
    if v is None:
        return frozenset()
    if v.lv is not None:
        return v.lv
    s = set()
    if isinstance(v, Agg):
        for x in v.f:
            s |= leaves(x)
    elif isinstance(v, En):
        s |= v.tag.leaves
        for x in v.pay:
            if x is not None:
                s |= leaves(x)
    elif isinstance(v, Arr):
        for x in v.e:
            s |= leaves(x)
    elif isinstance(v, Seq):
        for x in v.e:
            s |= leaves(x)
    elif isinstance(v, VecV):
        s |= v.len.leaves
    elif isinstance(v, Reg):
        for x in v.l:
            s |= leaves(x)
    elif isinstance(v, Ref):
        if v.off is not None:
            s |= v.off.leaves
        if v.len is not None:
            s |= v.len.leaves
        if v.lim is not None:
            s |= v.lim[0].leaves | v.lim[1].leaves
        for p in v.path:
            if isinstance(p, tuple) and p[0] == "i":
                s |= p[1].leaves
    v.lv = frozenset(s)
    return v.lv


def veq(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (Poly, Cond)):
        return a == b
    if isinstance(a, Agg):
        return len(a.f) == len(b.f) and all(veq(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, En):
        return a.tag == b.tag and len(a.pay) == len(b.pay) and all(veq(x, y) for x, y in zip(a.pay, b.pay))
    if isinstance(a, Ref):
        return a.obj == b.obj and a.path == b.path and a.off == b.off and a.len == b.len
    if isinstance(a, Arr):
        return len(a.e) == len(b.e) and all(veq(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, Seq):
        return len(a.e) == len(b.e) and veq(a.rest, b.rest) and all(veq(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, VecV):
        return a.obj == b.obj and a.len == b.len
    if isinstance(a, Fnp):
        return a.s == b.s
    if isinstance(a, Flt):
        return a.ty == b.ty and a.v == b.v
    if isinstance(a, Top):
        return a.ty == b.ty and a.imp == b.imp
    if isinstance(a, Rng):
        return a.lo == b.lo and a.hi == b.hi and a.imp == b.imp
    if isinstance(a, Inp):
        return a.id == b.id
    if isinstance(a, Reg):
        return a.w == b.w and len(a.l) == len(b.l) and all(veq(x, y) for x, y in zip(a.l, b.l))
    return False


class State:
    __slots__ = ("mem", "F", "g", "imp", "gcn")

    def __init__(self):
        self.mem = {}
        self.F = Facts()
        self.g = {}            # ghost variables of the checks
        self.gcn = 150         # facts at which unused ones are dropped
        self.imp = False       # path depends on something the analysis does not model

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.F = self.F.copy()
        s.g = dict(self.g)
        s.imp = self.imp
        s.gcn = self.gcn
        return s


def addimp(st, tok, side, n):
    """the state depends on how an undecided choice went: side of n"""
    d = dict(st.imp) if st.imp else {}
    d[tok] = (frozenset([side]), n)
    st.imp = d


def joinimp(a, b):
    """choices a merged state still depends on"""
    if not a or not b:
        return False
    d = dict(a)
    for k, (s, n) in b.items():
        if k in d:
            s = s | d[k][0]
            if len(s) == n:
                del d[k]        # every side is in
                continue
        d[k] = (s, n)
    return d or False


class Stop(Exception):
    pass


# ---------------------------------------------------------------- CFG helpers
def wto(fn):
    """weak topological order: list of ints and (head, [..]) components"""
    succs = {}
    live = fn.live_blocks()
    for b in live:
        succs[b] = [s for s in dict.fromkeys(fn.succs(b)) if not fn.bb[s]["c"]]
    num = {}
    stack = []
    cnt = [0]
    dfn = dict.fromkeys(live, 0)

    # Bourdoncle's recursive algorithm
    import sys
    sys.setrecursionlimit(20000)

    def visit(v, part):
        stack.append(v)
        cnt[0] += 1
        dfn[v] = cnt[0]
        head = cnt[0]
        loop = False
        for s in succs[v]:
            if s not in dfn:
                continue
            m = visit(s, part) if dfn[s] == 0 else dfn[s]
            if m <= head:
                head = m
                loop = True
        if head == dfn[v]:
            dfn[v] = INF
            e = stack.pop()
            if loop:
                while e != v:
                    dfn[e] = 0
                    e = stack.pop()
                part.insert(0, component(v))
            else:
                part.insert(0, v)
        return head

    def component(v):
        part = []
        for s in succs[v]:
            if s in dfn and dfn[s] == 0:
                visit(s, part)
        return (v, part)

    part = []
    visit(0, part)
    return part


def comp_blocks(c, out=None):
    out = set() if out is None else out
    if isinstance(c, tuple):
        out.add(c[0])
        for x in c[1]:
            comp_blocks(x, out)
    else:
        out.add(c)
    return out


def place_uses(pl, out):
    out.add(pl[0])
    for e in pl[1]:
        if isinstance(e, list) and e[0] == "i":
            out.add(e[1])


def op_uses(o, out):
    if o[0] in ("cp", "mv"):
        place_uses(o[1], out)


def liveness(fn):
    """live-in locals per block; locals whose address is taken are always live"""
    n = len(fn.bb)
    taken = set()
    gen, kill = [set() for _ in range(n)], [set() for _ in range(n)]
    for b in range(n):
        g, k = gen[b], kill[b]

        def use(s):
            for x in s:
                if x not in k:
                    g.add(x)
        for s in fn.bb[b]["s"]:
            if s[0] == "=":
                u = set()
                rv = s[2]
                if rv[0] in ("ref", "raw"):
                    place_uses(rv[2], u)
                    if not rv[2][1] or rv[2][1][0] != "*":
                        taken.add(rv[2][0])
                elif rv[0] == "disc":
                    place_uses(rv[1], u)
                else:
                    for o in rv_ops(rv):
                        op_uses(o, u)
                if s[1][1]:
                    place_uses(s[1], u)
                use(u)
                if not s[1][1]:
                    k.add(s[1][0])
            elif s[0] in ("assume", "cpynon"):
                u = set()
                for o in s[1:]:
                    if isinstance(o, list):
                        op_uses(o, u)
                use(u)
            elif s[0] == "sd":
                u = set()
                place_uses(s[1], u)
                use(u)
        t = fn.bb[b]["t"]
        u = set()
        if t[0] == "switch":
            op_uses(t[1], u)
        elif t[0] == "call":
            if "ptr" in t[1]:
                op_uses(t[1]["ptr"], u)
            for a in t[2]:
                op_uses(a, u)
            if t[3][1]:
                place_uses(t[3], u)
        elif t[0] == "assert":
            op_uses(t[1], u)
        elif t[0] == "ret":
            u.add(0)
        use(u)
        if t[0] == "call" and not t[3][1]:
            k.add(t[3][0])
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            o = set()
            for s in fn.succs(b):
                o |= live[s]
            # dest of call is killed on the edge: approximate by block kill
            new = gen[b] | (o - kill[b])
            if new != live[b]:
                live[b] = new
                ch = True
    return live, taken


def rv_ops(rv):
    k = rv[0]
    if k in ("use", "rep"):
        return [rv[1]]
    if k == "cast":
        return [rv[2]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    if k == "agg":
        return rv[2]
    return []


def deciding(fn):
    """locals that reach, by plain copies, an equality test"""
    d = set()
    edges = []
    for blk in fn.bb:
        for s in blk["s"]:
            if s[0] != "=":
                continue
            rv = s[2]
            if rv[0] == "bin" and rv[1] in ("Eq", "Ne"):
                a, b = rv[2], rv[3]
                for x in (a, b):
                    if x[0] in ("cp", "mv") and not x[1][1]:
                        d.add(x[1][0])
            elif rv[0] == "use" and rv[1][0] in ("cp", "mv") and not s[1][1] and not rv[1][1][1]:
                edges.append((rv[1][1][0], s[1][0]))
            elif rv[0] == "cast" and rv[2][0] in ("cp", "mv") and not s[1][1] and not rv[2][1][1]:
                edges.append((rv[2][1][0], s[1][0]))
    ch = True
    while ch:
        ch = False
        for a, b in edges:
            if (a in d) != (b in d):
                d |= {a, b}
                ch = True
    return d


def returned(fn):
    """locals that are copied into what is returned"""
    d = {0}
    ch = True
    while ch:
        ch = False
        for blk in fn.bb:
            for s in blk["s"]:
                if s[0] == "=" and s[1][0] in d:
                    rv = s[2]
                    ops = [rv[1]] if rv[0] == "use" else [rv[2]] if rv[0] == "cast" else rv[2] if rv[0] == "agg" else []
                    for o in ops:
                        if o[0] in ("cp", "mv") and not o[1][1] and o[1][0] not in d:
                            d.add(o[1][0])
                            ch = True
    return d


class FnInfo:
    __slots__ = ("wto", "live", "taken", "exits", "decide", "returned")


# ---------------------------------------------------------------- interpreter
class Interp:
    def __init__(self, prog, models, hooks=None):
        self.p = prog
        self.tys = prog.tys
        self.models = models
        self.hooks = hooks
        self.info = {}
        self.uid = 0
        self.stack = []
        self.mute = 0
        self.rec = []
        self.visited = set()
        self.steps = 0
        self.max_steps = 4_000_000
        self.deadline = None
        self.loopkey = None
        self.keyhook = None
        self.softhook = None
        self.unroll = (60000, 1500)
        self.forkhook = None
        self.noint = 0
        self.nounroll = False
        self.impsites = None    # branches on marked values, when recorded
        self.cur_line = 0
        self.unknown = {}
        self.site = {}
        self.elemw = {}        # (object, path) -> bits, alignment and type of the elements
        self.elemalign = {}
        self.elemty = {}
        self.unionf = {(i, f[1]) for t in self.tys if t["k"] == "adt" and t["ak"] == "union" and t["v"]
                       and any(models.is_reg(self.tys[x[1]]) for x in t["v"][0]["f"])
                       for i, f in enumerate(t["v"][0]["f"])}
        self.constobj = {}
        self.trycache = {}
        LOOPS.clear()
        self.constval = {}
        self.loopinfo = []
        self.trace = None
        self.maxparts = 24
        self.boolcond = {}
        self.maxterms = 0
        self.posmax = POSMAX
        self.fixfns = ()       # functions whose loops are not unrolled
        self.relhook = None    # (I, state) -> quantities that may stay nonnegative
        self.split = ()

    # ---- bookkeeping
    def finfo(self, fn):
        i = self.info.get(fn.id)
        if i is None:
            i = FnInfo()
            i.wto = wto(fn)
            i.live, i.taken = liveness(fn)
            i.decide = deciding(fn)
            i.returned = returned(fn) if self.softhook else ()
            self.info[fn.id] = i
        return i

    def new(self):
        self.uid += 1
        return self.uid

    def where(self):
        out = []
        for f, ln in self.stack:
            out.append((f.p, f.file, ln[0]))
        return out

    def event(self, kind, *a):
        if not self.mute:
            self.rec.append((kind,) + a)

    def obligation(self, st, kind, ok, detail, lv=frozenset()):
        """record one obligation; lv: leaves it depends on"""
        if self.mute:
            return
        imp = bool(st.imp) or any(x.imp for x in lv)
        self.rec.append(("ob", kind, ok, imp, self.where(), detail))

    # ---- types
    def kind(self, ty):
        return self.tys[ty]["k"]

    def ity(self, ty):
        t = self.tys[ty]
        k = t["k"]
        if k == "int":
            return (bool(t["s"]), t["b"])
        if k == "char":
            return (False, 32)
        if k == "bool":
            return (False, 1)
        if k in ("ptr", "ref", "fnptr"):
            return (False, 64)
        return None

    def fresh(self, ty, name="v", imp=False):
        r = self.ity(ty)
        lo, hi = T.trange(*r) if r else (-INF, INF)
        return A(T.leaf(name, lo, hi, imp))

    def freshr(self, lo, hi, name="v", imp=False):
        if lo == hi:
            return K(lo)
        return A(T.leaf(name, lo, hi, imp))

    def bfresh(self, name="b", imp=False):
        return T.ne(A(T.leaf(name, 0, 1, imp)))

    def mat(self, st, top):
        """one level of structure for an unknown value"""
        ty = top.ty
        t = self.tys[ty]
        k = t["k"]
        imp = top.imp
        if k == "int" or k == "char":
            return self.fresh(ty, "u", imp)
        if k == "bool":
            return self.bfresh("ub", imp)
        if k == "tuple" or k == "closure":
            return Agg([Top(x, imp) for x in t["f"]])
        if k == "array":
            n = t["len"]
            if 0 <= n <= self.posmax:
                return Arr([Top(t["e"], imp)] * n)
            return Seq((), self.template(Top(t["e"], imp)))
        if k == "adt":
            if t["p"] == "std::vec::Vec":
                return self.mkvec(st, t["ga"][0], self.freshr(0, (1 << 63) - 1, "veclen", imp), Top(t["ga"][0], imp))
            if self.models.is_reg(t):
                return self.models.reg_top(self, t, imp)
            if t["ak"] == "struct":
                if not t["v"]:
                    return Agg(())
                return Agg([Top(x[1], imp) for x in t["v"][0]["f"]])
            if t["ak"] == "enum":
                n = len(t["v"])
                if n == 0:
                    return Agg(())
                return En(ty, self.freshr(0, n - 1, "tag", imp),
                          [Agg([Top(x[1], imp) for x in v["f"]]) for v in t["v"]])
            return top
        if k in ("ref", "ptr"):
            e = t["e"]
            ek = self.tys[e]["k"]
            o = ("h", self.new())
            if ek == "slice":
                st.mem[o] = Seq((), self.template(Top(self.tys[e]["e"], imp)))
                return Ref(o, (), K(0), self.freshr(0, (1 << 63) - 1, "len", imp))
            if ek in ("str", "dyn", "other"):
                return top
            st.mem[o] = Top(e, imp)
            return Ref(o)
        return top

    def template(self, v, F=None):
        """template describing any value like v"""
        if isinstance(v, Poly):
            if v.isc():
                return v
            lo, hi = F.prange(v) if F is not None else (-INF, INF)
            return Rng(lo, hi, any(l.imp for l in v.leaves))
        if isinstance(v, Cond):
            if v.k == "c":
                return v
            return Rng(0, 1, any(l.imp for l in T.cond_leaves(v)))
        if isinstance(v, Top):
            t = self.tys[v.ty]
            if t["k"] in ("int", "char"):
                lo, hi = T.trange(*self.ity(v.ty))
                return Rng(lo, hi, v.imp)
            return v
        if isinstance(v, Agg):
            return Agg([self.template(x, F) for x in v.f])
        if isinstance(v, En):
            return En(v.ty, self.template(v.tag, F), [None if x is None else self.template(x, F) for x in v.pay])
        if isinstance(v, Arr):
            return Arr([self.template(x, F) for x in v.e])
        if isinstance(v, VecV):
            return VecV(v.obj, self.template(v.len, F), v.ety)
        return v

    def inst(self, v, isbool=False):
        """fresh value described by a template"""
        if isinstance(v, Rng):
            return self.freshr(v.lo, v.hi, "e", v.imp)
        if isinstance(v, Agg):
            return Agg([self.inst(x) for x in v.f])
        if isinstance(v, En):
            return En(v.ty, self.inst(v.tag), [None if x is None else self.inst(x) for x in v.pay])
        if isinstance(v, Arr):
            return Arr([self.inst(x) for x in v.e])
        if isinstance(v, VecV):
            return VecV(v.obj, self.inst(v.len), v.ety)
        return v

    def tjoin(self, a, b):
        """join of templates"""
        if veq(a, b):
            return a
        if isinstance(a, (Poly, Rng)) and isinstance(b, (Poly, Rng)):
            l1, h1, i1 = (a.c, a.c, False) if isinstance(a, Poly) else (a.lo, a.hi, a.imp)
            l2, h2, i2 = (b.c, b.c, False) if isinstance(b, Poly) else (b.lo, b.hi, b.imp)
            lo, hi = min(l1, l2), max(h1, h2)
            # thresholds keep chains short
            if (lo, hi) not in ((l1, h1), (l2, h2)) or isinstance(a, Rng):
                if lo < (l1 if isinstance(a, Rng) else lo):
                    lo = widen_lo(lo)
                if hi > (h1 if isinstance(a, Rng) else hi):
                    hi = widen_hi(hi)
            return Rng(lo, hi, i1 or i2)
        if isinstance(a, (Cond, Rng)) and isinstance(b, (Cond, Rng)):
            return Rng(0, 1)
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
            return Agg([self.tjoin(x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, En) and isinstance(b, En):
            return En(a.ty, self.tjoin(a.tag, b.tag),
                      [y if x is None else x if y is None else self.tjoin(x, y) for x, y in zip(a.pay, b.pay)])
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.e) == len(b.e):
            return Arr([self.tjoin(x, y) for x, y in zip(a.e, b.e)])
        if isinstance(a, Fnp) and isinstance(b, Fnp):
            return Fnp(a.s | b.s)
        if isinstance(a, Flt) or isinstance(b, Flt):
            return Top(a.ty if isinstance(a, Flt) else b.ty)
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        return UNDEF

    def mkvec(self, st, ety, ln, elem):
        o = ("h", self.new())
        st.mem[o] = Seq((), self.template(elem, st.F))
        return VecV(o, ln, ety)

    # ---- memory
    def coll(self, v, st):
        if isinstance(v, Top):
            v = self.mat(st, v)
        return v

    def feas(self, st, p, n):
        """feasible indices below n"""
        s = st.F.vset(p)
        if s is not None:
            return sorted(i for i in s if 0 <= i < n)
        lo, hi = st.F.prange(p)
        lo = max(0, lo)
        hi = min(n - 1, hi)
        return range(int(lo), int(hi) + 1) if lo <= hi else range(0)

    def get(self, st, v, path):
        """returns (value, v') where v' has unknown parts on the way filled in"""
        if isinstance(v, Top):
            v = self.mat(st, v)
        if not path:
            return v, v
        e = path[0]
        if isinstance(e, int):
            if isinstance(v, Agg):
                if e >= len(v.f):
                    return UNDEF, v
                r, n = self.get(st, v.f[e], path[1:])
                if n is not v.f[e]:
                    v = Agg(v.f[:e] + (n,) + v.f[e + 1:])
                return r, v
            if isinstance(v, VecV):
                return self.vecfield(st, v, path), v
            if isinstance(v, Ref) and e == 0:
                return self.get(st, v, path[1:])     # transparent wrappers of pointers
            return UNDEF, v
        if e[0] == "d":
            if isinstance(v, En):
                pl = v.pay[e[1]]
                if pl is None:
                    return UNDEF, v
                r, n = self.get(st, pl, path[1:])
                if n is not pl:
                    v = En(v.ty, v.tag, v.pay[:e[1]] + (n,) + v.pay[e[1] + 1:])
                return r, v
            return UNDEF, v
        # index
        p = e[1]
        rest = path[1:]
        if isinstance(v, Inp):
            a = T.app("byte", (p,), v.id, 0, 255)
            return A(a), v
        if isinstance(v, Arr):
            c = st.F.val(p)
            if c is not None:
                c = int(c)
                if not 0 <= c < len(v.e):
                    return UNDEF, v
                r, n = self.get(st, v.e[c], rest)
                if n is not v.e[c]:
                    v = Arr(v.e[:c] + (n,) + v.e[c + 1:])
                return r, v
            if not rest and v.e and all(isinstance(x, Poly) and x.isc() for x in v.e):
                return A(T.app("idx", (p,), tuple(x.c for x in v.e))), v
            out = None
            es = list(v.e)
            ch = False
            for i in self.feas(st, p, len(es)):
                r, n = self.get(st, es[i], rest)
                if n is not es[i]:
                    es[i] = n
                    ch = True
                t = self.template(r, st.F)
                out = t if out is None else self.tjoin(out, t)
            if ch:
                v = Arr(es)
            return (UNDEF if out is None else self.inst2(out)), v
        if isinstance(v, Seq):
            c = st.F.val(p)
            if c is not None and c < len(v.e):
                c = int(c)
                if c < 0:
                    return UNDEF, v
                r, n = self.get(st, v.e[c], rest)
                if n is not v.e[c]:
                    v = Seq(v.e[:c] + (n,) + v.e[c + 1:], v.rest)
                return r, v
            lo, hi = st.F.prange(p)
            out = None
            es = list(v.e)
            ch = False
            for i in self.feas(st, p, len(es)):
                r, n = self.get(st, es[i], rest)
                if n is not es[i]:
                    es[i] = n
                    ch = True
                t = self.template(r, st.F)
                out = t if out is None else self.tjoin(out, t)
            if hi >= len(es) and v.rest is not None:
                r, _ = self.get(st, self.inst(v.rest), rest)
                t = self.template(r, st.F)
                out = t if out is None else self.tjoin(out, t)
            if ch:
                v = Seq(es, v.rest)
            return (UNDEF if out is None else self.inst2(out)), v
        if isinstance(v, VecV):
            # indexing through the header: go to the buffer
            r, n = self.get(st, st.mem[v.obj], path)
            st.mem[v.obj] = n
            return r, v
        return UNDEF, v

    def inst2(self, t):
        return self.inst(t)

    def vecfield(self, st, v, path):
        return UNDEF

    def put(self, st, v, path, val, weak=False):
        if isinstance(v, Top):
            v = self.mat(st, v) if path else v
        if not path:
            if weak:
                return self.vjoin_same(st, v, val)
            return val
        e = path[0]
        if isinstance(e, int):
            if isinstance(v, Agg) and e < len(v.f):
                return Agg(v.f[:e] + (self.put(st, v.f[e], path[1:], val, weak),) + v.f[e + 1:])
            if v is UNDEF:
                return Agg([UNDEF] * e + [self.put(st, UNDEF, path[1:], val, weak)])
            if isinstance(v, Agg):
                return Agg(v.f + (UNDEF,) * (e - len(v.f)) + (self.put(st, UNDEF, path[1:], val, weak),))
            if isinstance(v, Ref) and e == 0:
                return self.put(st, v, path[1:], val, weak)
            return v
        if e[0] == "d":
            if isinstance(v, En):
                pl = v.pay[e[1]]
                if pl is None:
                    pl = Agg(())
                return En(v.ty, v.tag, v.pay[:e[1]] + (self.put(st, pl, path[1:], val, weak),) + v.pay[e[1] + 1:])
            return v
        p = e[1]
        if isinstance(v, Arr):
            c = st.F.val(p)
            if c is not None:
                c = int(c)
                if not 0 <= c < len(v.e):
                    return v
                return Arr(v.e[:c] + (self.put(st, v.e[c], path[1:], val, weak),) + v.e[c + 1:])
            es = list(v.e)
            for i in self.feas(st, p, len(es)):
                es[i] = self.put(st, es[i], path[1:], val, True)
            return Arr(es)
        if isinstance(v, Seq):
            c = st.F.val(p)
            if c is not None and 0 <= c < len(v.e):
                c = int(c)
                return Seq(v.e[:c] + (self.put(st, v.e[c], path[1:], val, weak),) + v.e[c + 1:], v.rest)
            lo, hi = st.F.prange(p)
            es = list(v.e)
            for i in self.feas(st, p, len(es)):
                es[i] = self.put(st, es[i], path[1:], val, True)
            rest = v.rest
            if hi >= len(es) and rest is not None:
                x = self.inst(rest)
                y = self.put(st, x, path[1:], val, False)
                rest = self.tjoin(rest, self.template(y, st.F))
            return Seq(es, rest)
        if isinstance(v, VecV):
            st.mem[v.obj] = self.put(st, st.mem[v.obj], path, val, weak)
            return v
        return v

    def vjoin_same(self, st, a, b):
        if veq(a, b):
            return a
        if isinstance(a, Poly) and isinstance(b, Poly):
            l1, h1 = st.F.prange(a)
            l2, h2 = st.F.prange(b)
            x = T.leaf("w", -INF, INF, any(l.imp for l in a.leaves | b.leaves))
            st.F.rng[x] = (min(l1, l2), max(h1, h2))
            return A(x)
        ta, tb = self.template(a, st.F), self.template(b, st.F)
        return self.inst(self.tjoin(ta, tb))

    def read(self, st, loc):
        o = loc.obj
        v = st.mem.get(o)
        if v is None:
            v = self.constval.get(o)
            if v is None:
                return UNDEF
        r, n = self.get(st, v, loc.path)
        if n is not v:
            st.mem[o] = n
        if loc.len is not None:
            # array view of a collection
            c = st.F.val(loc.len)
            if c is None or c > self.posmax:
                if isinstance(r, (Seq, Arr)):
                    return Seq((), self.template(self.elem_any(st, r), st.F))
                return r
            return Arr([self.read(st, Loc(o, loc.path + (("i", T.add(loc.off, K(i))),))) for i in range(int(c))])
        return r

    def elem_any(self, st, r):
        """template of any element"""
        out = None
        for x in (r.e if isinstance(r, (Arr, Seq)) else ()):
            t = self.template(x, st.F)
            out = t if out is None else self.tjoin(out, t)
        if isinstance(r, Seq) and r.rest is not None:
            out = r.rest if out is None else self.tjoin(out, r.rest)
        return out if out is not None else UNDEF

    def write(self, st, loc, val):
        o = loc.obj
        if loc.len is not None:
            c = st.F.val(loc.len)
            if c is not None and c <= self.posmax and isinstance(val, Arr):
                for i in range(int(c)):
                    self.write(st, Loc(o, loc.path + (("i", T.add(loc.off, K(i))),)), val.e[i])
                return
            self.havoc_loc(st, Loc(o, loc.path), imp=False)
            return
        v = st.mem.get(o, UNDEF)
        if self.hooks is not None and not self.mute:
            self.hooks.on_write(self, st, o, loc.path, val)
        if not loc.path:
            st.mem[o] = val
            return
        st.mem[o] = self.put(st, v, loc.path, val)

    def havoc_loc(self, st, loc, imp=True):
        v = self.read(st, Loc(loc.obj, loc.path))
        self.write(st, Loc(loc.obj, loc.path), self.havoc_val(st, v, imp, set()))

    def havoc_val(self, st, v, imp, seen):
        if isinstance(v, Poly):
            lo, hi = st.F.prange(v)
            r = [l for l in v.leaves]
            # keep only the machine type range
            b = 1
            m = max(abs(lo) if lo > -INF else 0, abs(hi) if hi < INF else 0)
            while m >> b:
                b *= 2
            return A(T.leaf("hv", -(1 << 127) if lo < 0 else 0, (1 << 64) - 1, imp))
        if isinstance(v, Cond):
            return self.bfresh("hb", imp)
        if isinstance(v, Top):
            return Top(v.ty, imp)
        if isinstance(v, Agg):
            return Agg([self.havoc_val(st, x, imp, seen) for x in v.f])
        if isinstance(v, En):
            return Top(v.ty, imp)
        if isinstance(v, Arr):
            return Arr([self.havoc_val(st, x, imp, seen) for x in v.e])
        if isinstance(v, Seq):
            return Seq((), self.template(self.havoc_val(st, self.inst(v.rest), imp, seen), st.F)
                       if v.rest is not None else None)
        if isinstance(v, VecV):
            return self.mkvec(st, v.ety, self.freshr(0, (1 << 63) - 1, "len", imp), Top(v.ety, imp))
        if isinstance(v, Ref):
            return v
        return v

    # ---- places and operands
    def resolve(self, st, fr, pl):
        loc = Loc((fr, pl[0]))
        for e in pl[1]:
            if e == "*":
                v = self.read(st, loc)
                while isinstance(v, Agg) and v.f:
                    v = v.f[0]
                if isinstance(v, Top):
                    v = self.mat(st, v)
                    self.write_raw(st, loc, v)
                if isinstance(v, Ref):
                    loc = Loc(v.obj, v.path, v.off, v.len)
                elif isinstance(v, VecV):
                    loc = Loc(v.obj, (), K(0), v.len)
                else:
                    o = ("bad", self.new())
                    st.mem[o] = UNDEF
                    loc = Loc(o)
            elif e[0] == "f":
                if (e[1], e[2]) in self.unionf and self.unionfield(st, loc, e[2]):
                    continue
                loc = Loc(loc.obj, loc.path + (e[1],))
            elif e[0] == "d":
                loc = Loc(loc.obj, loc.path + (("d", e[1]),))
            elif e[0] == "i":
                p = self.read(st, Loc((fr, e[1])))
                if not isinstance(p, Poly):
                    p = self.freshr(0, (1 << 64) - 1, "i", True)
                if loc.off is not None:
                    p = T.add(loc.off, p)
                loc = Loc(loc.obj, loc.path + (("i", p),))
            elif e[0] == "ci":
                ln = self.loclen(st, loc)
                p = T.sub(ln, K(e[1])) if e[3] else K(e[1])
                if loc.off is not None:
                    p = T.add(loc.off, p)
                loc = Loc(loc.obj, loc.path + (("i", p),))
            elif e[0] == "ss":
                ln = self.loclen(st, loc)
                off = loc.off if loc.off is not None else K(0)
                n = T.sub(T.sub(ln, K(e[1])), K(e[2])) if e[3] else K(e[2] - e[1])
                loc = Loc(loc.obj, loc.path, T.add(off, K(e[1])), n)
            else:
                o = ("bad", self.new())
                st.mem[o] = UNDEF
                loc = Loc(o)
        return loc

    def unionfield(self, st, loc, fty):
        """a union of vector registers and arrays holds one value, seen as the type of the field"""
        v = self.read(st, loc)
        if isinstance(v, Top) and self.tys[v.ty]["k"] == "adt" and self.tys[v.ty]["ak"] == "union":
            v = self.models.reg_top(self, self.tys[v.ty], v.imp)
            self.write_raw(st, loc, v)
        if not isinstance(v, (Reg, Arr)):
            return False
        t = self.tys[fty]
        w = self.models.reg_cast(self, st, v, fty) if isinstance(v, Reg) or self.models.is_reg(t) else None
        if w is not None and w is not v:
            self.write_raw(st, loc, w)
        return True

    def write_raw(self, st, loc, v):
        if not loc.path:
            st.mem[loc.obj] = v
        else:
            st.mem[loc.obj] = self.put(st, st.mem.get(loc.obj, UNDEF), loc.path, v)

    def loclen(self, st, loc):
        if loc.len is not None:
            return loc.len
        v = self.read(st, loc)
        if isinstance(v, Arr):
            return K(len(v.e))
        return self.freshr(0, (1 << 63) - 1, "len", True)

    def const(self, st, ty, v):
        t = self.tys[ty]
        k = t["k"]
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            if k == "bool":
                return TRUE if v else FALSE
            if k in ("int", "char"):
                return K(v)
            if k in ("ptr", "ref"):
                return K(v)
            return K(v)
        if isinstance(v, dict):
            if "f" in v and k == "float":
                return Flt(ty, float(v["f"]))
            if "fn" in v:
                return Agg(())
            if "fp" in v:
                return Fnp([v["fp"]])
            if "agg" in v:
                if k == "array":
                    es = [self.const(st, t["e"], x) for x in v["agg"]]
                    if len(es) <= 4096:
                        return Arr(es)
                if k == "tuple":
                    return Agg([self.const(st, ft, x) for ft, x in zip(t["f"], v["agg"])])
                if k == "closure":
                    return Agg(())
                if k == "adt":
                    vr = t["v"][v["var"]] if t["v"] else {"f": []}
                    pay = Agg([self.const(st, f[1], x) for f, x in zip(vr["f"], v["agg"])])
                    if t["p"] == "std::vec::Vec":
                        return self.mkvec(st, t["ga"][0], K(0), Top(t["ga"][0]))
                    if t["ak"] == "enum":
                        ps = [None] * len(t["v"])
                        ps[v["var"]] = pay
                        return En(ty, K(v["var"]), ps)
                    return pay
            if "ref" in v or "slice" in v:
                key = (ty, repr(v))
                o = self.constobj.get(key)
                if o is None:
                    o = ("c", len(self.constobj))
                    self.constobj[key] = o
                    if "ref" in v:
                        self.constval[o] = self.const(st, v["ety"], v["ref"])
                    else:
                        self.constval[o] = Arr([self.const(st, v.get("ety", 0), x) for x in v["slice"]])
                if "slice" in v:
                    return Ref(o, (), K(0), K(v["len"] if "len" in v and not v["slice"] else len(v["slice"])))
                return Ref(o)
            if "str" in v:
                o = ("str", v["str"])
                self.constval.setdefault(o, Top(0))
                return Ref(o, (), K(0), K(len(v["str"].encode())))
            if "addr" in v:
                return K(v["addr"])
        if k == "adt" and t["ak"] == "struct" and t["v"] and not t["v"][0]["f"]:
            return Agg(())
        return Top(ty)

    def operand(self, st, fr, o):
        if o[0] in ("cp", "mv"):
            loc = self.resolve(st, fr, o[1])
            if loc.len is not None:
                return self.read(st, loc)
            return self.read(st, loc)
        if o[0] == "c":
            return self.const(st, o[1], o[2])
        if o[0] == "rt":
            return FALSE
        return UNDEF

    def opty(self, fn, o):
        """type of an operand"""
        if o[0] == "c":
            return o[1]
        if o[0] == "rt":
            return None
        return self.placety(fn, o[1])

    def placety(self, fn, pl):
        ty = fn.locals[pl[0]]
        for e in pl[1]:
            t = self.tys[ty]
            if e == "*":
                if t["k"] in ("ref", "ptr"):
                    ty = t["e"]
                elif t["k"] == "adt" and t["ga"]:
                    ty = t["ga"][0]
                else:
                    return None
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "ci"):
                ty = t.get("e")
                if ty is None:
                    return None
            elif e[0] == "ss":
                pass
            elif e[0] == "d":
                pass
        return ty

    # ---- rvalues
    def rvalue(self, st, fn, fr, rv, dty):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref" or k == "raw":
            loc = self.resolve(st, fr, rv[2])
            return Ref(loc.obj, loc.path, loc.off, loc.len)
        if k == "bin":
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            return self.binop(st, rv[1], a, b, self.opty(fn, rv[2]), self.opty(fn, rv[3]))
        if k == "un":
            a = self.operand(st, fr, rv[2])
            return self.unop(st, rv[1], a, self.opty(fn, rv[2]))
        if k == "cast":
            a = self.operand(st, fr, rv[2])
            return self.cast(st, rv, a, self.opty(fn, rv[2]), rv[3])
        if k == "disc":
            loc = self.resolve(st, fr, rv[1])
            v = self.read(st, loc)
            return self.disc(st, v)
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in rv[2]]
            kk = rv[1]
            if kk[0] == "array":
                if len(ops) <= 4096:
                    return Arr(ops)
            if kk[0] in ("tuple", "closure"):
                return Agg(ops)
            if kk[0] == "adt":
                t = self.tys[kk[1]]
                if t["ak"] == "enum":
                    ps = [None] * len(t["v"])
                    ps[kk[2]] = Agg(ops)
                    v = En(kk[1], K(kk[2]), ps)
                    if self.hooks is not None:
                        self.hooks.on_variant(self, st, kk[1], kk[2], ops)
                    return v
                if t["ak"] == "union":
                    return ops[0] if len(ops) == 1 and isinstance(ops[0], (Reg, Arr)) else Top(kk[1])
                return Agg(ops)
            if kk[0] == "rawptr":
                p, m = ops
                if isinstance(p, Ref) and isinstance(m, Poly):
                    return self.fat(st, p, m)
                return Top(dty) if dty is not None else UNDEF
            return UNDEF
        if k == "rep":
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if 0 <= n <= self.posmax:
                return Arr([v] * n)
            return Seq((), self.template(v, st.F))
        return Top(dty) if dty is not None else UNDEF

    def fat(self, st, p, n):
        """slice starting at element pointer p with n elements"""
        if p.path and isinstance(p.path[-1], tuple) and p.path[-1][0] == "i":
            return Ref(p.obj, p.path[:-1], p.path[-1][1], n)
        if p.len is not None:
            return Ref(p.obj, p.path, p.off, n)
        return Ref(p.obj, p.path, K(0), n)

    def disc(self, st, v):
        if isinstance(v, Top):
            v = self.mat(st, v)
        if isinstance(v, En):
            t = self.tys[v.ty]
            ds = [x["d"] for x in t["v"]]
            if ds == list(range(len(ds))):
                return v.tag
            if v.tag.isc():
                return K(ds[v.tag.c])
            return A(T.app("tab", (), (v.tag, tuple((i, K(d)) for i, d in enumerate(ds)), None)))
        return A(T.leaf("disc", -INF, INF, True))

    def toint(self, v, st=None):
        if isinstance(v, Poly):
            return v
        if isinstance(v, Cond):
            if v.k == "c":
                return K(int(v.a))
            if v.k == "ne" and v.a.atom() is not None and (v.a.atom().lo, v.a.atom().hi) == (0, 1):
                return v.a
            if v.k == "eq":
                return A(T.app("eq0", (v.a,), None, 0, 1))
            if v.k == "ne":
                return T.sub(K(1), A(T.app("eq0", (v.a,), None, 0, 1)))
            if v.k == "ge":
                return A(T.app("ge0", (v.a,), None, 0, 1))
            a = T.leaf("bool", 0, 1)
            self.boolcond[a] = v
            return A(a)
        return None

    def cond01(self, p):
        """the condition an integer made from one stands for"""
        a = p.atom()
        return self.boolcond.get(a) if a is not None else None

    def tobool(self, v):
        if isinstance(v, Cond):
            return v
        if isinstance(v, Poly):
            if v.isc():
                return TRUE if v.c else FALSE
            a = v.atom()
            if a is not None and a.kind == "eq0":
                return T.eq(a.args[0])
            if a is not None and a.kind == "ge0":
                return T.ge(a.args[0])
            if a in self.boolcond:
                return self.boolcond[a]
            return T.ne(v)
        return self.bfresh("tb", True)

    def binop(self, st, op, a, b, ta, tb):
        F = st.F
        if isinstance(a, Flt) and isinstance(b, Flt) and a.ty == b.ty:
            x, y = a.v, b.v
            if op in ("Add", "Sub", "Mul") or op == "Div" and y:
                r = x + y if op == "Add" else x - y if op == "Sub" else x * y if op == "Mul" else x / y
                return Flt(a.ty, fround(r, self.tys[a.ty]["b"]))
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                r = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]
                return TRUE if r else FALSE
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isinstance(a, Cond) and isinstance(b, Cond) and op in ("Eq", "Ne"):
                if b.k == "c":
                    r = a if b.a else T.neg(a)
                elif a.k == "c":
                    r = b if a.a else T.neg(b)
                else:
                    r = T.disj(T.conj(a, b), T.conj(T.neg(a), T.neg(b)))
                return r if op == "Eq" else T.neg(r)
            if isinstance(a, Ref) or isinstance(b, Ref):
                return self.ptrcmp(st, op, a, b)
            x, y = self.toint(a), self.toint(b)
            if x is None or y is None:
                return self.bfresh("cmp", True)
            if self.boolcond and op in ("Eq", "Ne") and (x.isc() or y.isc()):
                w, n = (x, y.c) if y.isc() else (y, x.c)
                c = self.cond01(w)
                if c is not None:
                    if n not in (0, 1):
                        return FALSE if op == "Eq" else TRUE
                    return c if (n == 1) == (op == "Eq") else T.neg(c)
            d = T.sub(x, y)
            return {"Eq": lambda: T.eq(d), "Ne": lambda: T.ne(d), "Lt": lambda: T.ge(T.sub(K(-1), d)),
                    "Le": lambda: T.ge(T.scale(d, -1)), "Gt": lambda: T.ge(T.sub(d, K(1))),
                    "Ge": lambda: T.ge(d)}[op]()
        ity = self.ity(ta) if ta is not None else None
        if op == "Offset":
            return self.ptradd(st, a, b)
        if op in ("BitAnd", "BitOr", "BitXor") and isinstance(a, Cond) and isinstance(b, Cond):
            if op == "BitAnd":
                return T.conj(a, b)
            if op == "BitOr":
                return T.disj(a, b)
            return self.binop(st, "Ne", a, b, ta, tb)
        if op == "Cmp":
            x, y = self.toint(a), self.toint(b)
            o = self.ordty()
            if x is None or y is None or o is None:
                return UNDEF
            d = T.sub(x, y)
            l, h = F.prange(d)
            if h < 0:
                return En(o, K(0), [Agg(()), Agg(()), Agg(())])
            if l > 0:
                return En(o, K(2), [Agg(()), Agg(()), Agg(())])
            if l == h == 0:
                return En(o, K(1), [Agg(()), Agg(()), Agg(())])
            # tag = [d>=0] + [d>=1]
            return En(o, T.add(A(T.app("ge0", (d,), None, 0, 1)),
                               A(T.app("ge0", (T.sub(d, K(1)),), None, 0, 1))), [Agg(()), Agg(()), Agg(())])
        x, y = self.toint(a), self.toint(b)
        if x is None or y is None or ity is None:
            return A(T.leaf("bo", *(T.trange(*ity) if ity else (-INF, INF)), True))
        lo, hi = T.trange(*ity)
        if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
            r = T.add(x, y) if op[:3] == "Add" else T.sub(x, y) if op[:3] == "Sub" else T.mul(x, y)
            if op.endswith("Unchecked"):
                return r
            return T.wrap(F, r, ity)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            r = T.add(x, y) if op[:3] == "Add" else T.sub(x, y) if op[:3] == "Sub" else T.mul(x, y)
            l, h = F.prange(r)
            if self.maxterms and len(r.t) > self.maxterms and l > -INF and h < INF:
                # a long sum: only its bounds
                r = A(T.leaf("sum", l, h, any(a.imp for a in r.leaves)))
            # the flag guards every use of the value
            fl = T.disj(T.ge(T.sub(K(lo - 1), r)) if l < lo else FALSE,
                        T.ge(T.sub(r, K(hi + 1))) if h > hi else FALSE)
            return Agg([r, fl])
        if op in ("Div", "Rem"):
            return T.op2(F, op.lower(), x, y)
        if op in ("BitAnd", "BitOr", "BitXor"):
            r = T.op2(F, {"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op], x, y)
            if op == "BitXor" and ity and not ity[0] and y.isc() and y.c == hi:
                return T.sub(K(hi), x)
            return r
        if op in ("Shl", "ShlUnchecked"):
            l, h = F.prange(y)
            if not (0 <= l and h < ity[1]):
                y = T.op2(F, "and", T.wrap(F, y, (False, 64)), K(ity[1] - 1))
            return T.wrap(F, T.op2(F, "shl", x, y), ity)
        if op in ("Shr", "ShrUnchecked"):
            l, h = F.prange(y)
            if not (0 <= l and h < ity[1]):
                y = T.op2(F, "and", T.wrap(F, y, (False, 64)), K(ity[1] - 1))
            return T.op2(F, "shr", x, y)
        return A(T.leaf("bo", lo, hi, True))

    _ord = None

    def ordty(self):
        if self._ord is None:
            for i, t in enumerate(self.tys):
                if t["k"] == "adt" and t["p"] == "std::cmp::Ordering":
                    self._ord = i
        return self._ord

    def ptrcmp(self, st, op, a, b):
        if isinstance(a, Ref) and isinstance(b, Ref) and a.obj == b.obj:
            ia, ib = self.elemidx(a), self.elemidx(b)
            if ia is not None and ib is not None and ia[0] == ib[0]:
                d = T.sub(ia[1], ib[1])
                return {"Eq": lambda: T.eq(d), "Ne": lambda: T.ne(d), "Lt": lambda: T.ge(T.sub(K(-1), d)),
                        "Le": lambda: T.ge(T.scale(d, -1)), "Gt": lambda: T.ge(T.sub(d, K(1))),
                        "Ge": lambda: T.ge(d)}[op]()
        if isinstance(a, Poly) and a.isc() and a.c == 0 or isinstance(b, Poly) and b.isc() and b.c == 0:
            if op == "Eq":
                return FALSE
            if op == "Ne":
                return TRUE
        return self.bfresh("pc", True)

    def elemidx(self, r):
        """(collection path, index) of an element pointer"""
        if r.len is not None:
            return r.path, r.off
        if r.path and isinstance(r.path[-1], tuple) and r.path[-1][0] == "i":
            return r.path[:-1], r.path[-1][1]
        return r.path, K(0)

    def ptradd(self, st, a, n):
        if isinstance(a, Ref) and isinstance(n, Poly):
            if a.path and isinstance(a.path[-1], tuple) and a.path[-1][0] == "i" and a.len is None:
                return Ref(a.obj, a.path[:-1] + (("i", T.add(a.path[-1][1], n)),), lim=a.lim)
            if a.len is not None:
                return Ref(a.obj, a.path + (("i", T.add(a.off, n)),), lim=(a.off, T.add(a.off, a.len)))
        return UNDEF

    def unop(self, st, op, a, ta):
        if isinstance(a, Flt) and op == "Neg":
            return Flt(a.ty, -a.v)
        if op == "Not":
            if isinstance(a, Cond):
                return T.neg(a)
            ity = self.ity(ta) if ta is not None else None
            if isinstance(a, Poly) and ity:
                if ity[0]:
                    return T.sub(K(-1), a)
                return T.sub(K((1 << ity[1]) - 1), a)
        if op == "Neg":
            ity = self.ity(ta) if ta is not None else None
            if isinstance(a, Poly) and ity:
                return T.wrap(st.F, T.scale(a, -1), ity)
        if op == "PtrMetadata":
            if isinstance(a, Ref):
                if a.len is not None:
                    return a.len
                return Agg(())
            if isinstance(a, Top):
                return self.freshr(0, (1 << 63) - 1, "len", True)
        return UNDEF

    def cast(self, st, rv, a, fty, tty):
        k = rv[1]
        t = self.tys[tty]
        if isinstance(a, Flt):
            if k.startswith("FloatToInt"):
                lo, hi = T.trange(*self.ity(tty))
                return K(0 if a.v != a.v else lo if a.v <= lo else hi if a.v >= hi else int(a.v))
            if k.startswith("FloatToFloat"):
                return Flt(tty, fround(a.v, t["b"]))
        if k.startswith("IntToFloat") and isinstance(a, Poly):
            c = st.F.val(a)
            return Flt(tty, fround(float(c), t["b"])) if c is not None and abs(c) < 1 << 53 else Top(tty)
        if k.startswith("IntToInt") or k.startswith("Transmute") and isinstance(a, (Poly, Cond)) and t["k"] in ("int", "char", "bool"):
            if t["k"] == "bool":
                return self.tobool(a)
            x = self.toint(a)
            if x is None:
                if isinstance(a, En):
                    x = self.disc(st, a)
                else:
                    return self.fresh(tty, "cast", True)
            return T.wrap(st.F, x, self.ity(tty))
        if "ReifyFnPointer" in k or "ClosureFnPointer" in k:
            if len(rv) > 4:
                return Fnp([rv[4]])
            return Top(tty)
        if "Unsize" in k:
            if isinstance(a, Ref) and a.len is None:
                ft = self.tys[fty] if fty is not None else None
                e = self.tys[ft["e"]] if ft and ft["k"] in ("ref", "ptr") else None
                tt = self.tys[t["e"]] if t["k"] in ("ref", "ptr") else None
                if e and e["k"] == "array" and tt and tt["k"] == "slice":
                    if a.path and isinstance(a.path[-1], tuple) and a.path[-1][0] == "i":
                        pass
                    return Ref(a.obj, a.path, K(0), K(e["len"]))
            return a
        if k.startswith("PtrToPtr") or "MutToConstPointer" in k or "ArrayToPointer" in k:
            if isinstance(a, Ref):
                ft = self.tys[fty] if fty is not None else None
                fe = self.tys[ft["e"]] if ft and ft["k"] in ("ref", "ptr") else None
                te = self.tys[t["e"]] if t["k"] in ("ref", "ptr") else None
                if fe and te:
                    if self.models.is_reg(te) and fe["k"] in ("int", "slice", "array"):
                        x = fe["e"] if fe["k"] != "int" else ft["e"]
                        q = self.elemidx(a)[0]
                        if self.ity(x) is not None:
                            self.elemw[(a.obj, q)] = self.ity(x)[1]
                            self.elemty[(a.obj, q)] = self.ity(x)
                        if fe["k"] != "int" and a.len is not None:
                            return Ref(a.obj, a.path + (("i", a.off),), lim=(a.off, T.add(a.off, a.len)))
                        if fe["k"] == "array":
                            return Ref(a.obj, a.path + (("i", K(0)),), lim=(K(0), K(fe["len"])))
                        return a
                    if te["k"] == "slice" and fe["k"] == "slice":
                        return a
                    if fe["k"] == "array" and te["k"] != "array" and a.len is None and te.get("n") == self.tys[fe["e"]]["n"]:
                        return Ref(a.obj, a.path + (("i", K(0)),), lim=(K(0), K(fe["len"])))
                    if fe["k"] in ("slice", "array") and a.len is not None and te["k"] not in ("slice", "array", "str"):
                        return Ref(a.obj, a.path + (("i", a.off),), lim=(a.off, T.add(a.off, a.len)))
                    if te["k"] == "array" and fe["k"] not in ("array",):
                        # pointer to the first element seen as pointer to an array
                        if fe["k"] == "slice" and a.len is not None:
                            return Ref(a.obj, a.path, a.off, K(te["len"]))
                        if a.path and isinstance(a.path[-1], tuple) and a.path[-1][0] == "i":
                            return Ref(a.obj, a.path[:-1], a.path[-1][1], K(te["len"]))
            return a
        if k.startswith("FnPtrToPtr") or k.startswith("PointerExpose"):
            return self.fresh(tty, "addr") if self.ity(tty) else Top(tty)
        if k.startswith("Transmute") or k.startswith("Subtype"):
            return self.transmute(st, a, fty, tty)
        if "UnsafeFnPointer" in k:
            return a
        return Top(tty, True)

    def transmute(self, st, a, fty, tty):
        t = self.tys[tty]
        if fty is not None and fty == tty:
            return a
        if isinstance(a, Ref) and t["k"] in ("ref", "ptr"):
            return a
        if isinstance(a, Ref) and t["k"] == "adt" and t["ak"] == "struct":
            # pointer wrapper
            return self.wrapptr(a, tty)
        if isinstance(a, Agg) and t["k"] in ("ref", "ptr"):
            v = a
            while isinstance(v, Agg) and v.f:
                v = v.f[0]
            if isinstance(v, Ref):
                return v
        if isinstance(a, Arr) and t["k"] == "int":
            # little endian bytes
            if all(isinstance(x, Poly) for x in a.e):
                r = K(0)
                for i, x in enumerate(a.e):
                    r = T.add(r, T.scale(x, 1 << (8 * i)))
                return T.wrap(st.F, r, self.ity(tty))
        if isinstance(a, (Poly, Cond)) and self.ity(tty):
            if t["k"] == "bool":
                return self.tobool(a)
            x = self.toint(a)
            return T.wrap(st.F, x, self.ity(tty))
        if isinstance(a, Agg) and len(a.f) == 1:
            return self.transmute(st, a.f[0], None, tty)
        if isinstance(a, Poly) and t["k"] == "adt" and t["ak"] == "struct" and t["v"] and len(t["v"][0]["f"]) >= 1:
            return Agg([self.transmute(st, a, None, t["v"][0]["f"][0][1])])
        if isinstance(a, Reg) or self.models.is_reg(t):
            r = self.models.reg_cast(self, st, a, tty)
            if r is not None:
                return r
        if isinstance(a, Poly) and t["k"] == "adt" and t["p"] == "std::option::Option" and \
                self.tys[t["ga"][0]].get("p") == "std::num::NonZero":
            return En(tty, self.toint(T.ne(a)), [Agg(()) if v["n"] == "None" else Agg([self.transmute(st, a, None, t["ga"][0])])
                                                 for v in t["v"]])
        if isinstance(a, Poly) and t["k"] == "adt" and t["ak"] == "enum":
            return En(tty, a, [Agg([Top(x[1], True) for x in v["f"]]) for v in t["v"]])
        return Top(tty, True)

    def wrapptr(self, a, tty):
        t = self.tys[tty]
        if t["k"] in ("ref", "ptr"):
            return a
        if t["k"] == "adt" and t["ak"] == "struct" and t["v"] and t["v"][0]["f"]:
            fs = t["v"][0]["f"]
            return Agg([self.wrapptr(a, fs[0][1])] + [Agg(()) for _ in fs[1:]])
        return a

    # ---- joins
    def join(self, s1, s2):
        return Join(self, s1, s2).run()

    def joinall(self, states):
        s = states[0]
        for t in states[1:]:
            s = self.join(s, t)
        return s

    # ---- partition keys
    def vkey(self, v, ty, d, F):
        if self.noint == 2:
            d = 0
        if isinstance(v, Cond):
            h = v.a if v.k == "c" else F.holds(v)
            return h
        if isinstance(v, En):
            c = v.tag.c if v.tag.isc() else F.val(v.tag)
            if c is None:
                return None
            c = int(c)
            if d > 0 and v.pay[c] is not None and v.pay[c].f and not self.iserr(v.ty, c):
                sub = tuple(self.vkey(x, None, d - 1, F) if not isinstance(x, Poly) else self.ikey(x, F) for x in v.pay[c].f[:2])
                if any(s is not None for s in sub):
                    return (c, sub)
            return c
        if isinstance(v, VecV):
            c = v.len.c if v.len.isc() else F.val(v.len)
            return ("V", int(c)) if c is not None and c <= 4 else None
        if isinstance(v, Agg) and d > 0 and len(v.f) <= 4:
            sub = tuple(self.vkey(x, None, d - 1, F) for x in v.f)
            if any(s is not None for s in sub):
                return sub
        return None

    def ikey(self, x, F):
        """small constants that a later comparison may distinguish"""
        if self.noint:
            return None
        c = x.c if x.isc() else F.val(x)
        return ("n", int(c)) if c is not None and 0 <= c <= 16 else None

    def iserr(self, ty, variant):
        t = self.tys[ty]
        return t["v"][variant]["n"] in ("Err", "Break")

    def key(self, st, fr, fn, b):
        inf = self.finfo(fn)
        out = []
        for l in sorted(inf.live[b] | inf.taken):
            v = st.mem.get((fr, l))
            if v is None or isinstance(v, (Top, Ref)) or v is UNDEF:
                continue
            if isinstance(v, Poly):
                if l not in inf.decide and l not in inf.returned:
                    continue
                k = self.ikey(v, st.F)
            else:
                k = self.vkey(v, None, 3, st.F)
            if k is not None:
                out.append((l, k))
        if self.softhook:
            # a path that only reports an error needs no distinction
            for l in sorted(inf.live[b] | inf.taken):
                if self.aserr(st.mem.get((fr, l)), st.F):
                    return tuple(out), (self.gkey(st), None)
            return tuple(out), (self.gkey(st), self.softhook(self, st))
        return tuple(out), (self.gkey(st), None)

    def retkey(self, v, F):
        if self.softhook and isinstance(v, Poly):
            return self.ikey(v, F)
        return self.vkey(v, None, 3, F)

    def softret(self, st, v):
        return self.softhook(self, st) if self.softhook and not self.aserr(v, st.F) else None

    def aserr(self, v, F):
        if not isinstance(v, En):
            return False
        c = F.val(v.tag)
        return c is not None and self.iserr(v.ty, int(c))

    def gkey(self, st):
        k = tuple(sorted((a, b) for a, b in st.g.items() if not a.startswith("_")))
        if self.keyhook:
            k = (k, self.keyhook(self, st))
        return k

    def partition(self, states, keyf, cap=None):
        if len(states) == 1:
            return states
        groups = {}
        for s in states:
            groups.setdefault(keyf(s), []).append(s)
        cap = cap or self.maxparts
        if len(groups) > cap and not self.noint:
            for lvl in (1, 2):
                self.noint = lvl
                groups = {}
                for s in states:
                    groups.setdefault(keyf(s), []).append(s)
                if len(groups) <= cap:
                    break
            self.noint = 0
        if len(groups) > cap:
            g2 = {}
            for k, ss in groups.items():
                g2.setdefault(k[1] if isinstance(k, tuple) and len(k) == 2 else None, []).extend(ss)
            groups = g2
        return [self.joinall(ss) for ss in groups.values()]

    # ---- running
    def call(self, st, fn, args, site=None):
        """returns [(state, value)]"""
        self.steps += 1
        if self.steps > self.max_steps:
            raise Stop("step limit")
        m = self.models.lookup(fn)
        if m is not None:
            r = m(self, st, fn, args)
            if r is not None:
                return r
        if not fn.has_body():
            return self.unknown_call(st, fn, args)
        if len(self.stack) > 70 or sum(1 for f, _ in self.stack if f is fn) > 3:
            return self.unknown_call(st, fn, args)
        return self.inline(st, fn, args)

    def unknown_call(self, st, fn, args, rty=None):
        self.unknown[fn.n if fn else "?"] = self.unknown.get(fn.n if fn else "?", 0) + 1
        for a in args:
            self.havoc_reach(st, a, set())
        if fn is not None and fn.locals:
            rty = fn.locals[0]
        if rty is None:
            rty = self.rty
        if rty is not None and self.tys[rty]["k"] == "never":
            return []
        return [(st, Top(rty, True) if rty is not None else UNDEF)]

    def havoc_reach(self, st, v, seen):
        if isinstance(v, Ref):
            if v.obj in seen or v.obj not in st.mem:
                return
            seen.add(v.obj)
            self.havoc_loc(st, Loc(v.obj, v.path))
        elif isinstance(v, Agg):
            for x in v.f:
                self.havoc_reach(st, x, seen)
        elif isinstance(v, En):
            for x in v.pay:
                if x is not None:
                    self.havoc_reach(st, x, seen)

    def inline(self, st, fn, args):
        fr = self.new()
        if len(args) != fn.argc:
            if args and isinstance(args[-1], Agg) and len(args) - 1 + len(args[-1].f) == fn.argc:
                args = list(args[:-1]) + list(args[-1].f)
            elif fn.argc == 2 and fn.spread == 2:
                args = [args[0], Agg(args[1:])]
            elif len(args) < fn.argc:
                args = list(args) + [Top(fn.locals[i + 1], True) for i in range(len(args), fn.argc)]
        self.visited.add(fn.id)
        for i, a in enumerate(args[:fn.argc]):
            st.mem[(fr, i + 1)] = a
        ln = [fn.line]
        self.stack.append((fn, ln))
        try:
            rets = self.body(st, fn, fr)
        finally:
            self.stack.pop()
        out = []
        for s in rets:
            v = s.mem.get((fr, 0), UNDEF)
            for l in range(len(fn.locals)):
                s.mem.pop((fr, l), None)
            out.append((s, v))
        if len(out) > 1:
            groups = {}
            for s, v in out:
                groups.setdefault((self.retkey(v, s.F), (self.gkey(s), self.softret(s, v))), []).append((s, v))
            if len(groups) > self.maxparts and not self.noint:
                for lvl in (1, 2):
                    self.noint = lvl
                    groups = {}
                    for s, v in out:
                        groups.setdefault((self.retkey(v, s.F), (self.gkey(s), self.softret(s, v))), []).append((s, v))
                    if len(groups) <= self.maxparts:
                        break
                self.noint = 0
            if len(groups) > self.maxparts:
                g2 = {}
                for (k, g), x in groups.items():
                    g2.setdefault(g, []).extend(x)
                groups = g2
            out = []
            for g in groups.values():
                if len(g) == 1:
                    out.append(g[0])
                    continue
                for s, v in g:
                    s.mem[("ret", fr)] = v
                j = self.joinall([s for s, _ in g])
                v = j.mem.pop(("ret", fr))
                out.append((j, v))
        for s, v in out:
            if len(s.F.rng) + 3 * len(s.F.ge) + 3 * len(s.F.ne) > s.gcn:
                self.gc(s, v)
        return out

    def gc(self, st, extra=None):
        live = set()
        if extra is not None:
            live |= leaves(extra)
        # values reachable
        for v in st.mem.values():
            live |= leaves(v)

        def keep(lv):
            for l in lv:
                if l in live:
                    continue
                if l.kind == "byte":
                    if all(x in live or x.kind == "byte" for x in l.args[0].leaves):
                        continue
                return False
            return True
        F = st.F
        F.rng = {a: r for a, r in F.rng.items() if keep(a.leaves)}
        F.ge = {p: None for p in F.ge if keep(p.leaves)}
        F.ne = {p: None for p in F.ne if keep(p.leaves)}
        F.memo = {}
        n = len(F.rng) + 3 * len(F.ge) + 3 * len(F.ne)
        if n > 600:
            F.rng = {a: r for a, r in F.rng.items() if a.leaves <= live}
            n = len(F.rng) + 3 * len(F.ge) + 3 * len(F.ne)
        st.gcn = max(150, n + n // 2)

    def body(self, st, fn, fr):
        inf = self.finfo(fn)
        ctx = Ctx(self, fn, fr)
        ctx.pending[0] = [st]
        ctx.run(inf.wto)
        return ctx.rets


THR = sorted({0, 1, 2, 3, 4, 7, 8, 13, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024,
              4095, 4096, 32767, 32768, 65535, 65536, (1 << 24), (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32,
              1 << 40, (1 << 48), (1 << 63) - 1, 1 << 63, (1 << 64) - 1})


THR2 = (-INF, 0, 15, 64, 255, 65535, (1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1)


def widen_hi(v, rounds=0):
    for t in (THR2 if rounds > 6 else THR):
        if v <= t:
            return t
    return INF


def widen_lo(v):
    if v >= 0:
        r = 0
        for t in THR:
            if t <= v:
                r = t
        return r
    for t in THR:
        if v >= -t:
            return -t
    return -INF


class Join:
    """value-numbering join of two states"""

    def __init__(self, I, s1, s2):
        self.I, self.s1, self.s2 = I, s1, s2
        self.memo = {}
        self.phis = []
        self.F1, self.F2 = s1.F, s2.F
        # a choice made on something not known exactly
        self.imp12 = bool(s1.imp or s2.imp)
        self.split = None

    def splits(self):
        if self.split is None:
            o = []
            r2 = self.F2.rng
            for a, x in self.F1.rng.items():
                if isinstance(x, frozenset) and a.kind in ("leaf", "byte"):
                    y = r2.get(a)
                    if isinstance(y, frozenset) and not (x & y):
                        o.append(a)
            o.sort(key=lambda a: -a.id)
            self.split = o[:4]
        return self.split

    def phi(self, lo, hi, s, imp):
        a = T.leaf("phi", -INF, INF, imp)
        if s is not None:
            self.newrng[a] = frozenset(s)
        elif lo > -INF or hi < INF:
            self.newrng[a] = (lo, hi)
        return a

    def jint(self, t1, t2):
        if t1 == t2:
            return t1
        # function of a leaf on whose value the two states differ
        if t1.leaves | t2.leaves != frozenset() or True:
            for a in self.splits():
                if t1.leaves <= {a} and t2.leaves <= {a}:
                    x, y = self.F1.rng[a], self.F2.rng[a]
                    if len(x) + len(y) > 32:
                        continue
                    tb = {}
                    ok = True
                    for F, t, s in ((self.F1, t1, x), (self.F2, t2, y)):
                        for v in s:
                            r = T.ev(t, a, v)
                            if r is None:
                                ok = False
                                break
                            tb[v] = r
                    if ok:
                        if all(tb[v] == v for v in tb):
                            return A(a)
                        return A(T.app("tab", (), (A(a), tuple(sorted((v, K(r)) for v, r in tb.items())), None)))
        c = t1.c
        k = (T.add(t1, K(-c)), T.add(t2, K(-c)))
        r = self.memo.get(k)
        if r is None:
            s1, s2 = self.F1.vset(k[0]), self.F2.vset(k[1])
            u = None
            if s1 is not None and s2 is not None:
                u = s1 | s2
                if len(u) > 64:
                    u = None
            l1, h1 = self.F1.prange(k[0])
            l2, h2 = self.F2.prange(k[1])
            a = self.phi(min(l1, l2), max(h1, h2), u, self.imp12 or any(x.imp for x in k[0].leaves | k[1].leaves))
            self.phis.append((a, k[0], k[1]))
            r = A(a)
            self.memo[k] = r
        return T.add(r, K(c))

    def jbool(self, c1, c2):
        if c1 == c2:
            return c1
        h1, h2 = self.F1.holds(c1), self.F2.holds(c2)
        if h1 is not None and h1 == h2:
            return TRUE if h1 else FALSE
        k = ("b", c1, c2)
        l12 = T.cond_leaves(c1) | T.cond_leaves(c2)
        if len(l12) <= 1:
            for a in self.splits():
                if l12 <= {a}:
                    x, y = self.F1.rng[a], self.F2.rng[a]
                    if len(x) + len(y) > 32:
                        continue
                    tb = {v: T.ev_cond(c1, a, v) for v in x}
                    tb.update({v: T.ev_cond(c2, a, v) for v in y})
                    if None not in tb.values():
                        return T.ne(A(T.app("tab", (), (A(a), tuple(sorted((v, K(int(r))) for v, r in tb.items())), None))))
        r = self.memo.get(k)
        if r is None:
            imp = self.imp12 or any(x.imp for x in T.cond_leaves(c1) | T.cond_leaves(c2))
            r = T.ne(A(T.leaf("phib", 0, 1, imp)))
            self.memo[k] = r
        return r

    def jv(self, a, b):
        if a is b:
            return a
        if isinstance(a, Poly) and isinstance(b, Poly):
            return self.jint(a, b)
        if isinstance(a, Cond) and isinstance(b, Cond):
            return self.jbool(a, b)
        if veq(a, b):
            return a
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Top) and not isinstance(b, Top):
            a = self.I.mat(self.s1, a)
            if isinstance(a, Top):
                return Top(a.ty, a.imp)
            return self.jv(a, b)
        if isinstance(b, Top) and not isinstance(a, Top):
            b = self.I.mat(self.s2, b)
            if isinstance(b, Top):
                return Top(b.ty, b.imp)
            return self.jv(a, b)
        if isinstance(a, Top) and isinstance(b, Top):
            return Top(a.ty, a.imp or b.imp)
        if type(a) is not type(b):
            return UNDEF
        if isinstance(a, Agg):
            if len(a.f) != len(b.f):
                return UNDEF
            return Agg([self.jv(x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, En):
            tag = self.jint(a.tag, b.tag)
            ps = []
            for i, (x, y) in enumerate(zip(a.pay, b.pay)):
                if x is not None and self.dead(self.F1, a.tag, i):
                    x = None
                if y is not None and self.dead(self.F2, b.tag, i):
                    y = None
                ps.append(y if x is None else x if y is None else self.jv(x, y))
            return En(a.ty, tag, ps)
        if isinstance(a, Arr):
            if len(a.e) != len(b.e):
                return UNDEF
            return Arr([self.jv(x, y) for x, y in zip(a.e, b.e)])
        if isinstance(a, Seq):
            n = min(len(a.e), len(b.e))
            es = [self.jv(x, y) for x, y in zip(a.e, b.e)]
            longer, F = (a, self.F1) if len(a.e) > n else (b, self.F2)
            other = b if longer is a else a
            rest = None
            if a.rest is not None and b.rest is not None:
                rest = self.I.tjoin(a.rest, b.rest)
            else:
                rest = a.rest if a.rest is not None else b.rest
            if len(longer.e) > n:
                if other.rest is None:
                    es += longer.e[n:]       # absent on the other side
                else:
                    for x in longer.e[n:]:
                        t = self.I.template(x, F)
                        rest = t if rest is None else self.I.tjoin(rest, t)
            return Seq(es, rest)
        if isinstance(a, VecV):
            if a.obj == b.obj:
                return VecV(a.obj, self.jint(a.len, b.len), a.ety)
            # different buffers: a fresh one that covers both
            o = ("h", self.I.new())
            va, vb = self.s1.mem.get(a.obj, UNDEF), self.s2.mem.get(b.obj, UNDEF)
            if self.F1.val(a.len) == 0:
                va = vb
            elif self.F2.val(b.len) == 0:
                vb = va
            self.late.append((o, va, vb))
            return VecV(o, self.jint(a.len, b.len), a.ety)
        if isinstance(a, Fnp):
            return Fnp(a.s | b.s)
        if isinstance(a, Ref):
            return self.jref(a, b)
        if isinstance(a, Rng):
            return Rng(min(a.lo, b.lo), max(a.hi, b.hi), a.imp or b.imp)
        if isinstance(a, Reg):
            if a.w == b.w and len(a.l) == len(b.l):
                return Reg(a.w, [self.jv(x, y) for x, y in zip(a.l, b.l)])
            return UNDEF
        return UNDEF

    def dead(self, F, tag, i):
        s = F.vset(tag)
        return s is not None and i not in s

    def jref(self, a, b):
        if (a.len is None) != (b.len is None):
            return UNDEF
        if a.obj == b.obj and len(a.path) == len(b.path):
            path = []
            ok = True
            for x, y in zip(a.path, b.path):
                if x == y:
                    path.append(x)
                elif isinstance(x, tuple) and isinstance(y, tuple) and x[0] == "i" and y[0] == "i":
                    path.append(("i", self.jint(x[1], y[1])))
                else:
                    ok = False
                    break
            if ok:
                off = ln = None
                if a.len is not None:
                    off, ln = self.jint(a.off, b.off), self.jint(a.len, b.len)
                return Ref(a.obj, tuple(path), off, ln)
        # two different targets: merge them into one summary object (reads only
        # stay sound; writes through it are flagged)
        k = ("r", a.obj, a.path, b.obj, b.path)
        o = self.memo.get(k)
        if o is None:
            o = self.mname()
            self.memo[k] = o
            va = self.I.read(self.s1, Loc(a.obj, a.path))
            vb = self.I.read(self.s2, Loc(b.obj, b.path))
            self.late.append((o, va, vb))
            self.merged.append((o, (a.obj, a.path), (b.obj, b.path)))
        off = ln = None
        if a.len is not None:
            off, ln = self.jint(a.off, b.off), self.jint(a.len, b.len)
        return Ref(o, (), off, ln)

    def mname(self):
        return ("m", self.I.new())

    def run(self):
        s1, s2 = self.s1, self.s2
        self.late = []
        self.merged = []
        self.newrng = {}
        out = State()
        out.imp = joinimp(s1.imp, s2.imp)
        out.g = dict(s1.g)
        for k, v in s2.g.items():
            if k not in out.g:
                out.g[k] = v
            elif out.g[k] != v:
                out.g[k] = max(out.g[k], v, key=lambda x: (str(type(x)), x)) if not isinstance(v, frozenset) \
                    else out.g[k] | v
        m = out.mem
        m1, m2 = s1.mem, s2.mem
        for o in list(m1):
            v1 = m1[o]
            if o in m2:
                v2 = m2[o]
                m[o] = v1 if v1 is v2 else self.jv(v1, v2)
            elif o[0] in ("h", "m", "bad") or not isinstance(o[0], int):
                m[o] = v1
        for o in list(m2):
            if o not in m1 and (o[0] in ("h", "m", "bad") or not isinstance(o[0], int)):
                m[o] = m2[o]
        while self.late:
            o, va, vb = self.late.pop()
            m[o] = va if va is vb else self.jv(va, vb)
        for o, a, b in self.merged:
            out.g.setdefault("_merged", ())
            out.g["_merged"] += ((o, a, b),)
        self.facts(out)
        return out

    def facts(self, out):
        F1, F2, F = self.F1, self.F2, out.F
        lv1 = lv2 = None
        rng = {}
        if F1.rng is not F2.rng:
            k1, k2 = F1.rng, F2.rng
            for a in list(k1) + [a for a in k2 if a not in k1]:
                x, y = k1.get(a), k2.get(a)
                if x is not None and y is not None and x == y:
                    rng[a] = x
                    continue
                if x is None or y is None:
                    # foreign to the other state: its range is free to keep
                    if a.kind == "leaf":
                        if x is None:
                            if lv1 is None:
                                lv1 = state_leaves(self.s1)
                            if a not in lv1:
                                rng[a] = y
                                continue
                        else:
                            if lv2 is None:
                                lv2 = state_leaves(self.s2)
                            if a not in lv2:
                                rng[a] = x
                                continue
                r = T.rjoin(self.raw(F1, a), self.raw(F2, a))
                if r is not None:
                    rng[a] = r
        rng.update(self.newrng)
        F.rng = rng
        for p in F1.ge:
            if p in F2.ge or F2.prove_ge(p, 1):
                F.ge[p] = None
        for p in F2.ge:
            if p not in F.ge and F1.prove_ge(p, 1):
                F.ge[p] = None
        for p in F1.ne:
            if p in F2.ne or F2.holds(Cond("ne", p)):
                F.ne[p] = None
        for p in F2.ne:
            if p not in F.ne and F1.holds(Cond("ne", p)):
                F.ne[p] = None
        # facts about the new value numbers
        if self.phis and len(self.phis) < 40 and (F1.ge or F2.ge):
            for (Fa, Fb, i) in ((F1, F2, 1), (F2, F1, 2)):
                for p in Fa.ge:
                    for ph in self.phis:
                        t, o = ph[i], ph[3 - i]
                        a = t.atom()
                        c0 = 0
                        if a is None and self.I.relhook and len(t.t) == 1 and len(t.t[0][0]) == 1 and t.t[0][1] == 1:
                            a, c0 = t.t[0][0][0], t.c
                        if a is None:
                            continue
                        d = dict(p.t)
                        if (a,) not in d:
                            continue
                        k = d.pop((a,))
                        rest = T.from_dict(p.c - k * c0, d)
                        if Fb.prove_ge(T.add(rest, o, k), 1):
                            F.ge[T.add(rest, A(ph[0]), k)] = None
        if self.I.relhook is not None:
            for x, y, z in zip(self.I.relhook(self.I, self.s1), self.I.relhook(self.I, self.s2), self.I.relhook(self.I, out)):
                if x is not None and y is not None and z is not None and F1.prove_ge(x) and F2.prove_ge(y) and not z.isc():
                    F.ge[z] = None

    def raw(self, F, a):
        s = F.rng.get(a)
        if isinstance(s, frozenset):
            return s
        if a.kind in ("leaf", "byte"):
            s = F.aset(a)
            if s is not None and len(s) <= 64:
                return s
        return F.arange(a)


def state_leaves(st):
    s = set()
    for v in st.mem.values():
        s |= leaves(v)
    return s


class Ctx:
    """execution of one function body"""

    def __init__(self, I, fn, fr):
        self.I, self.fn, self.fr = I, fn, fr
        self.pending = {}
        self.rets = []
        self.loops = []

    def run(self, elems):
        for e in elems:
            if isinstance(e, tuple):
                self.loop(e)
            else:
                self.block(e)

    def take(self, b):
        return self.pending.pop(b, [])

    def push(self, b, st):
        self.pending.setdefault(b, []).append(st)

    def block(self, b):
        sts = self.take(b)
        if not sts:
            return
        I = self.I
        if len(sts) > 1:
            sts = I.partition(sts, lambda s: I.key(s, self.fr, self.fn, b))
        for st in sts:
            self.exec_block(b, st)

    def exec_block(self, b, st):
        I, fn, fr = self.I, self.fn, self.fr
        blk = fn.bb[b]
        ln = I.stack[-1][1]
        I.steps += 1
        if I.steps > I.max_steps:
            raise Stop("step limit")
        if I.deadline and not I.steps & 63 and time.time() > I.deadline:
            raise Stop("time limit")
        for s in blk["s"]:
            k = s[0]
            if k == "=":
                ln[0] = s[3]
                loc = I.resolve(st, fr, s[1])
                v = I.rvalue(st, fn, fr, s[2], I.placety(fn, s[1]))
                I.write(st, loc, v)
            elif k == "dead":
                st.mem.pop((fr, s[1]), None)
            elif k == "assume":
                c = I.tobool(I.operand(st, fr, s[1]))
                if not st.F.assume(c):
                    return
            elif k == "sd":
                loc = I.resolve(st, fr, s[1])
                v = I.read(st, loc)
                if isinstance(v, En):
                    I.write(st, loc, En(v.ty, K(s[2]), v.pay))
            elif k == "cpynon":
                I.models.copy_nonoverlapping(I, st, I.operand(st, fr, s[1]), I.operand(st, fr, s[2]),
                                             I.operand(st, fr, s[3]))
        t = blk["t"]
        k = t[0]
        if k == "goto":
            self.push(t[1], st)
        elif k == "switch":
            ln[0] = t[4]
            self.switch(b, st, t)
        elif k == "ret":
            self.rets.append(st)
        elif k == "drop":
            self.push(t[2], st)
        elif k == "assert":
            ln[0] = t[5]
            c = I.tobool(I.operand(st, fr, t[1]))
            if not t[2]:
                c = T.neg(c)
            h = st.F.holds(c)
            I.obligation(st, t[3][0] + (":" + t[3][1] if t[3][0] == "overflow" else ""), h is True,
                         lambda st=st, c=c: "%r" % (c,) if False else repr(c)[:300], T.cond_leaves(c)) if h is not True else \
                I.obligation(st, t[3][0] + (":" + t[3][1] if t[3][0] == "overflow" else ""), True, None)
            if st.F.assume(c):
                self.push(t[4], st)
        elif k == "call":
            self.do_call(b, st, t)
        elif k == "unreach":
            pass

    def switch(self, b, st, t):
        I = self.I
        v = I.operand(st, self.fr, t[1])
        tgts, other = t[2], t[3]
        if isinstance(v, Cond) or (t[1][0] != "c" and I.placety(self.fn, t[1][1]) is not None and
                                   I.tys[I.placety(self.fn, t[1][1])]["k"] == "bool"):
            c = I.tobool(v)
            cases = []
            rest = TRUE
            for x, bb in tgts:
                cc = c if x else T.neg(c)
                cases.append((cc, bb))
                rest = T.neg(cc) if rest == TRUE else T.conj(rest, T.neg(cc))
            cases.append((rest, other))
        else:
            p = I.toint(v) if v is not UNDEF else None
            if p is None:
                p = A(T.leaf("sw", -INF, INF, True))
            ty = I.opty(self.fn, t[1])
            it = I.ity(ty) if ty is not None else None
            cases = []
            vs = st.F.vset(p)
            seen = []
            for x, bb in tgts:
                if it and it[0] and x >= 1 << (it[1] - 1):
                    x -= 1 << it[1]
                seen.append(x)
                if vs is not None and x not in vs:
                    continue
                cases.append((T.eq(T.sub(p, K(x))), bb))
            if vs is None or any(x not in seen for x in vs):
                rest = TRUE
                for x in seen:
                    rest = T.conj(rest, T.ne(T.sub(p, K(x))))
                cases.append((rest, other))
        dec = [(c, bb, st.F.holds(c)) for c, bb in cases]
        go = [(c, bb) for c, bb, h in dec if h is not False]
        # feasible?
        feas = []
        und = any(h is None for _, _, h in dec)
        marked = False
        tok = I.new()
        for i, (c, bb) in enumerate(go):
            s2 = st if i == len(go) - 1 else st.copy()
            if s2.F.assume(c):
                feas.append((s2, bb))
                marked |= und and any(l.imp for l in T.cond_leaves(c))
        if marked and len(feas) > 1:
            for i, (s2, bb) in enumerate(feas):
                addimp(s2, tok, i, len(feas))
            if I.impsites is not None:
                I.impsites.setdefault((self.fn.id, b), (t[4], [x[0].p for x in I.stack[-5:]]))
        if self.loops:
            for L in self.loops:
                if all(bb in L["blocks"] or self.fn.bb[bb]["t"][0] == "unreach" for bb in [x for _, x in tgts] + [other]):
                    continue
                if self.is_try(b, t):
                    continue
                ins = any(bb in L["blocks"] for _, bb in feas)
                outs = any(bb not in L["blocks"] for _, bb in feas)
                site = L["sites"].setdefault(b, [False, False])
                site[0] |= ins
                site[1] |= outs
                if ins and outs:
                    for c, bb, h in dec:
                        if c.k in ("ge", "eq", "ne"):
                            lo, hi = st.F.prange(c.a)
                            if hi - lo <= 8 and not any(l.imp for l in c.a.leaves):
                                L["bounded"] = True
        elif LOOPS and len(feas) > 1 and not self.fn.local:
            for c, bb, h in dec:
                if c.k in ("ge", "eq", "ne"):
                    lo, hi = st.F.prange(c.a)
                    if hi - lo <= 8 and not any(l.imp for l in c.a.leaves):
                        LOOPS[-1]["bounded"] = True
        for s2, bb in feas:
            if I.forkhook is not None:
                for s3 in I.forkhook(I, s2):
                    self.push(bb, s3)
            else:
                self.push(bb, s2)

    def is_try(self, b, t):
        """does the switch look at a Result or ControlFlow (error propagation)?"""
        k = (self.fn.id, b)
        r = self.I.trycache.get(k)
        if r is None:
            r = False
            if t[1][0] in ("cp", "mv"):
                l = t[1][1][0]
                for s in reversed(self.fn.bb[b]["s"]):
                    if s[0] == "=" and s[1][0] == l and s[2][0] == "disc":
                        ty = self.I.placety(self.fn, s[2][1])
                        if ty is not None and self.I.tys[ty]["k"] == "adt" and \
                           self.I.tys[ty]["p"] in ("std::result::Result", "std::ops::ControlFlow"):
                            r = True
                        break
            self.I.trycache[k] = r
        return r

    def do_call(self, b, st, t):
        I, fr = self.I, self.fr
        c, aops, dest, target = t[1], t[2], t[3], t[4]
        ln = I.stack[-1][1]
        ln[0] = t[5]
        args = [I.operand(st, fr, o) for o in aops]
        dty = I.placety(self.fn, dest)
        if "i" in c:
            fn = I.p.fns[c["i"]]
            I.rty = dty
            I.argtys = [I.opty(self.fn, o) for o in aops]
            I.via = c.get("via", "")
            res = I.call(st, fn, args)
        elif "intr" in c:
            I.rty = dty
            res = I.models.intrinsic(I, st, c, args, dty, [I.opty(self.fn, o) for o in aops])
        elif "ptr" in c:
            f = I.operand(st, fr, c["ptr"])
            fty = I.opty(self.fn, c["ptr"])
            if not isinstance(f, Fnp) and fty is not None and I.tys[fty]["k"] == "fndef" and "i" in I.tys[fty]["c"]:
                f = Fnp(frozenset([I.tys[fty]["c"]["i"]]))
            I.rty = dty
            res = []
            if isinstance(f, Fnp) and I.models.fnptr(I, st, f, args) is None:
                tg = sorted(f.s)
                for i, x in enumerate(tg):
                    s2 = st if i == len(tg) - 1 else st.copy()
                    I.rty = dty
                    I.argtys = [I.opty(self.fn, o) for o in aops]
                    res += I.call(s2, I.p.fns[x], list(args))
            else:
                for a in args:
                    I.havoc_reach(st, a, set())
                res = [(st, Top(dty, True))]
        else:
            for a in args:
                I.havoc_reach(st, a, set())
            I.unknown[str(c)] = 1
            res = [(st, Top(dty, True))]
        if target < 0:
            return
        for s, v in res:
            loc = I.resolve(s, fr, dest)
            I.write(s, loc, v)
            self.push(target, s)

    # ---- loops
    def snapshot(self):
        return {k: list(v) for k, v in self.pending.items()}, len(self.rets)

    def restore(self, snap):
        self.pending = {k: list(v) for k, v in snap[0].items()}
        del self.rets[snap[1]:]

    def loop(self, comp):
        head, elems = comp
        entry = self.take(head)
        if not entry:
            return
        I = self.I
        blocks = comp_blocks(comp)
        if len(entry) > 1:
            entry = I.partition(entry, lambda s: I.key(s, self.fr, self.fn, head))
        if self.I.nounroll or self.fn.id in self.I.fixfns:
            self.fixpoint(comp, entry)
            return
        # 1. bounded unrolling
        snap = self.snapshot()
        mark = len(I.rec)
        cur = [s.copy() for s in entry]
        L = {"blocks": blocks, "sites": {}, "bounded": False}
        self.loops.append(L)
        LOOPS.append(L)
        it = und = 0
        ok = True
        steps0 = I.steps
        while cur:
            it += 1
            nxt = []
            bad = False
            for c in cur:
                # one state at a time: whether the exit is decided is judged per state
                L["sites"] = {}
                L["bounded"] = False
                self.pending[head] = [c]
                self.block(head)
                self.run(elems)
                go = self.take(head)
                definite = any(i and not o for i, o in L["sites"].values())
                if go and not definite:
                    bad = True
                    if not L["bounded"]:
                        ok = False
                nxt += go
                if not ok:
                    break
            cur = nxt
            if bad:
                und += 1
                if not ok or und > 9:
                    ok = False
                    break
            if cur and (it > 84 or I.steps - steps0 > I.unroll[0] or (I.steps - steps0) > I.unroll[1] * it + 1000):
                ok = False
                break
            if len(cur) > 1:
                cur = I.partition(cur, lambda s: I.key(s, self.fr, self.fn, head), 12)
        self.loops.pop()
        LOOPS.pop()
        if ok:
            return
        if I.trace:
            print("loop", self.fn.p, head, "it", it, "und", und, "steps", I.steps - steps0, "states", len(cur),
                  {k: v for k, v in L["sites"].items()}, L["bounded"])
        self.restore(snap)
        del I.rec[mark:]
        self.fixpoint(comp, entry)

    def fixpoint(self, comp, entry):
        head, elems = comp
        I = self.I
        uid = I.new()
        lk = (lambda s: (I.loopkey(I, s), I.gkey(s))) if I.loopkey else (lambda s: (None, I.gkey(s)))
        snap = self.snapshot()
        E = {}
        for s in entry:
            E.setdefault(lk(s), []).append(s)
        E = {k: I.joinall(v) if len(v) > 1 else v[0] for k, v in E.items()}
        for s in E.values():
            I.gc(s)
        H = {k: LoopHead(I, uid, s) for k, s in E.items()}
        rounds = 0
        I.mute += 1
        try:
            while True:
                rounds += 1
                if rounds > 40:
                    raise Stop("loop in %s (block %d) does not stabilise" % (self.fn.p, head))
                self.restore(snap)
                self.pending[head] = []
                back = self.onepass(head, elems, [h.state() for h in H.values()])
                changed = False
                groups = {}
                for s in back:
                    groups.setdefault(lk(s), []).append(s)
                for k, ss in groups.items():
                    s = I.joinall(ss) if len(ss) > 1 else ss[0]
                    if k not in H:
                        I.gc(s)
                        H[k] = LoopHead(I, uid, s)
                        changed = True
                    elif H[k].absorb(s, rounds):
                        changed = True
                if not changed:
                    break
            # one narrowing pass
            for _ in range(2):
                cand = {k: h.narrowed(groups.get(k)) for k, h in H.items()}
                if all(c is None for c in cand.values()):
                    break
                self.restore(snap)
                self.pending[head] = []
                H2 = {k: (c if c is not None else H[k]) for k, c in cand.items()}
                back = self.onepass(head, elems, [h.state() for h in H2.values()])
                g2 = {}
                good = True
                for s in back:
                    g2.setdefault(lk(s), []).append(s)
                for k, ss in g2.items():
                    s = I.joinall(ss) if len(ss) > 1 else ss[0]
                    if k not in H2 or H2[k].absorb(s, 0, check=True):
                        good = False
                if not good:
                    break
                H, groups = H2, g2
        finally:
            I.mute -= 1
        self.restore(snap)
        I.event("loop", self.fn.p, head, rounds)
        back = self.onepass(head, elems, [h.state() for h in H.values()])
        if I.trace == 2 and not I.mute:
            print("FIXPOINT", self.fn.p, head)
            for h in H.values():
                print("   ", {o: v for o, v in h.cur.mem.items()}, h.cur.F.rng, list(h.cur.F.ge))
        if I.hooks is not None and not I.mute:
            for s in back:
                I.hooks.on_back(I, self, head, H[lk(s)] if lk(s) in H else None, s)

    def onepass(self, head, elems, states):
        self.pending[head] = states
        I = self.I
        # heads are already separated by key: run them without merging again
        sts = self.take(head)
        for s in sts:
            self.exec_block(head, s)
        self.run(elems)
        return self.take(head)


class LoopHead:
    """fixpoint state of one loop head: locations that vary get a value number"""

    def __init__(self, I, uid, entry):
        self.I, self.uid, self.entry = I, uid, entry
        self.cur = entry
        self.names = {}     # location key -> phi leaf
        self.back = None
        self.phis = {}
        self.dropped = set()

    def state(self):
        return self.cur.copy()

    def absorb(self, b, rounds, check=False):
        """join the state at the back edges; True if the head changed"""
        j = LoopJoin(self.I, self, self.entry, b, rounds)
        n = j.run()
        self.lastjoin = j
        changed = not same_state(n, self.cur)
        if check:
            return not covered(n, self.cur)
        if changed:
            if self.I.trace and rounds > 8:
                print("  head", rounds, diff_state(n, self.cur)[:6])
            self.cur = n
            self.grouping = j.grouping
        return changed

    def narrowed(self, backs):
        """head recomputed without widening from the last back states"""
        if not backs:
            return None
        s = self.I.joinall(backs) if len(backs) > 1 else backs[0]
        h = LoopHead(self.I, self.uid, self.entry)
        h.names = dict(self.names)
        h.phis = dict(self.phis)
        h.grouping = getattr(self, "grouping", {})
        h.cur = self.cur
        j = LoopJoin(self.I, h, self.entry, s, -1)
        n = j.run()
        if same_state(n, self.cur):
            return None
        h.cur = n
        h.grouping = j.grouping
        return h


def same_state(a, b):
    if a.mem.keys() != b.mem.keys():
        return False
    for o, v in a.mem.items():
        if not veq(v, b.mem[o]):
            return False
    if a.F.rng != b.F.rng or a.F.ge.keys() != b.F.ge.keys() or a.F.ne.keys() != b.F.ne.keys():
        return False
    return True


def diff_val(a, b, path):
    if veq(a, b):
        return []
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
        return [x for i, (p, q) in enumerate(zip(a.f, b.f)) for x in diff_val(p, q, path + (i,))]
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.e) == len(b.e):
        return [x for i, (p, q) in enumerate(zip(a.e, b.e)) for x in diff_val(p, q, path + (i,))]
    if isinstance(a, En) and isinstance(b, En):
        return ([(path, "tag", a.tag, b.tag)] if a.tag != b.tag else []) + \
            [x for i, (p, q) in enumerate(zip(a.pay, b.pay)) if not (p is None and q is None)
             for x in ([(path, i, p, q)] if p is None or q is None else diff_val(p, q, path + (("p", i),)))]
    return [(path, repr(a)[:150], repr(b)[:150])]


def diff_state(a, b):
    out = []
    for o in set(a.mem) | set(b.mem):
        if o not in a.mem or o not in b.mem:
            out.append((o, "only", o in a.mem))
        else:
            out += diff_val(a.mem[o], b.mem[o], (o,))
    for x in set(a.F.rng) | set(b.F.rng):
        if a.F.rng.get(x) != b.F.rng.get(x):
            out.append(("rng", x, a.F.rng.get(x), b.F.rng.get(x)))
    for x in set(a.F.ge) ^ set(b.F.ge):
        out.append(("ge", x, x in a.F.ge))
    for x in set(a.F.ne) ^ set(b.F.ne):
        out.append(("ne", x, x in a.F.ne))
    return out


def covered(n, c):
    """is the recomputed head n within the assumed head c?"""
    if n.mem.keys() != c.mem.keys():
        return False
    for o, v in n.mem.items():
        if not veq(v, c.mem[o]):
            return False
    for a, r in c.F.rng.items():
        x = n.F.rng.get(a)
        if x is None:
            return False
        rs = r if isinstance(r, frozenset) else None
        if isinstance(x, frozenset):
            if rs is not None:
                if not x <= rs:
                    return False
            elif not (r[0] <= min(x) and max(x) <= r[1]):
                return False
        else:
            if rs is not None:
                return False
            if not (r[0] <= x[0] and x[1] <= r[1]):
                return False
    if any(p not in n.F.ge for p in c.F.ge) or any(p not in n.F.ne for p in c.F.ne):
        return False
    return True


class LoopJoin(Join):
    def __init__(self, I, head, e, b, rounds):
        super().__init__(I, e, b)
        self.head = head
        self.rounds = rounds
        self.grouping = {}
        self.old = getattr(head, "grouping", {})
        self.pathkey = []
        self.used = {}

    def splits(self):
        return ()

    def jint(self, t1, t2):
        if t1 == t2:
            return t1
        c = t1.c
        loc = tuple(self.pathkey)
        k = (T.add(t1, K(-c)), T.add(t2, K(-c)), self.old.get(loc), c if loc in self.old and False else None)
        r = self.memo.get(k)
        if r is None:
            name = loc
            a = self.head.names.get(name)
            if a is None or a in self.used:
                a = T.leaf("phi", -INF, INF, self.imp12 or any(x.imp for x in k[0].leaves | k[1].leaves))
                self.head.names[name] = a
            self.used[a] = True
            s1, s2 = self.F1.vset(k[0]), self.F2.vset(k[1])
            u = None
            if s1 is not None and s2 is not None:
                u = s1 | s2
                if len(u) > 32:
                    u = None
            l1, h1 = self.F1.prange(k[0])
            l2, h2 = self.F2.prange(k[1])
            lo, hi = min(l1, l2), max(h1, h2)
            old = self.head.cur.F.rng.get(a)
            if self.rounds > 0 and old is not None:
                if isinstance(old, frozenset):
                    if u is not None and (self.rounds <= 8):
                        u = frozenset(u) | old
                        if len(u) > 32:
                            u = None
                    else:
                        u = None
                    ol, oh = min(old), max(old)
                else:
                    u = None
                    ol, oh = old
                if u is None:
                    if lo < ol:
                        lo = widen_lo(lo) if self.rounds > 2 else lo
                    else:
                        lo = ol
                    if hi > oh:
                        hi = widen_hi(hi, self.rounds) if self.rounds > 2 else hi
                    else:
                        hi = oh
            elif self.rounds > 2 and old is None and a in self.head.phis:
                lo, hi = -INF, INF
                u = None
            self.head.phis[a] = True
            if u is not None:
                self.newrng[a] = frozenset(u)
            elif lo > -INF or hi < INF:
                self.newrng[a] = (lo, hi)
            self.phis.append((a, k[0], k[1]))
            r = A(a)
            self.memo[k] = r
        a = r.atom()
        self.grouping[loc] = a
        return T.add(r, K(c))

    def jbool(self, c1, c2):
        if c1 == c2:
            return c1
        h1, h2 = self.F1.holds(c1), self.F2.holds(c2)
        if h1 is not None and h1 == h2:
            return TRUE if h1 else FALSE
        loc = ("b",) + tuple(self.pathkey)
        a = self.head.names.get(loc)
        if a is None:
            a = T.leaf("phib", 0, 1, self.imp12 or any(x.imp for x in T.cond_leaves(c1) | T.cond_leaves(c2)))
            self.head.names[loc] = a
        return T.ne(A(a))

    def jv(self, a, b):
        if a is b:
            return a
        return super().jv(a, b)

    def mname(self):
        # the same summary object in every round
        return self.head.names.setdefault(("mref",) + tuple(self.pathkey), ("m", self.I.new()))

    def run(self):
        # walk with location keys
        base = super().jv
        I = self.I

        def jv(a, b):
            if a is b:
                return a
            if isinstance(a, VecV) and isinstance(b, VecV) and a.obj != b.obj:
                return self.jvec(a, b)
            if isinstance(a, (Poly, Cond)) or isinstance(a, (Ref, VecV)):
                return base(a, b)
            if isinstance(a, Top) and not isinstance(b, Top):
                a = self.stable_top(a)
                if isinstance(a, Top):
                    return a
                return jv(a, b)
            if isinstance(b, Top) and not isinstance(a, Top):
                return base(a, b)
            if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
                fs = []
                for i, (x, y) in enumerate(zip(a.f, b.f)):
                    self.pathkey.append(i)
                    fs.append(jv(x, y))
                    self.pathkey.pop()
                if all(x is y for x, y in zip(fs, a.f)):
                    return a
                return Agg(fs)
            if isinstance(a, Arr) and isinstance(b, Arr) and len(a.e) == len(b.e):
                fs = []
                for i, (x, y) in enumerate(zip(a.e, b.e)):
                    self.pathkey.append(i)
                    fs.append(jv(x, y))
                    self.pathkey.pop()
                return Arr(fs)
            if isinstance(a, Seq) and isinstance(b, Seq):
                n = min(len(a.e), len(b.e))
                es = []
                for i in range(n):
                    self.pathkey.append(i)
                    es.append(jv(a.e[i], b.e[i]))
                    self.pathkey.pop()
                rest = None
                if a.rest is not None and b.rest is not None:
                    rest = I.tjoin(a.rest, b.rest)
                else:
                    rest = a.rest if a.rest is not None else b.rest
                if len(a.e) > n:
                    if b.rest is None:
                        es += a.e[n:]
                    else:
                        for x in a.e[n:]:
                            t = I.template(x, self.F1)
                            rest = t if rest is None else I.tjoin(rest, t)
                elif len(b.e) > n:
                    if a.rest is None:
                        for i in range(n, len(b.e)):
                            es.append(self.gen(b.e[i], ("sq", i) + tuple(self.pathkey)))
                    else:
                        for x in b.e[n:]:
                            t = I.template(x, self.F2)
                            rest = t if rest is None else I.tjoin(rest, t)
                if rest is not None:
                    k = ("srest",) + tuple(self.pathkey)
                    old = self.head.names.get(k)
                    if old is not None and self.rounds > 0:
                        rest = I.tjoin(old, rest)
                    self.head.names[k] = rest
                return Seq(es, rest)
            if isinstance(a, En) and isinstance(b, En):
                self.pathkey.append("t")
                tag = self.jint(a.tag, b.tag)
                self.pathkey.pop()
                ps = []
                for i, (x, y) in enumerate(zip(a.pay, b.pay)):
                    if x is not None and self.dead(self.F1, a.tag, i):
                        x = None
                    if y is not None and self.dead(self.F2, b.tag, i):
                        y = None
                    if x is None or y is None:
                        z = y if x is None else x
                        if x is None and y is not None:
                            # value that exists only after an iteration
                            z = self.only_back(i, y)
                        ps.append(z)
                        continue
                    self.pathkey.append(("p", i))
                    ps.append(jv(x, y))
                    self.pathkey.pop()
                return En(a.ty, tag, ps)
            return base(a, b)
        self.jv = jv
        s1, s2 = self.s1, self.s2
        self.late = []
        self.gens = []
        self.latev = []
        self.merged = []
        self.newrng = {}
        out = State()
        out.imp = joinimp(s1.imp, s2.imp)
        out.g = dict(s1.g)
        for k, v in s2.g.items():
            if k not in out.g:
                out.g[k] = v
            elif out.g[k] != v and isinstance(v, frozenset):
                out.g[k] = out.g[k] | v
        m = out.mem
        m1, m2 = s1.mem, s2.mem
        for o in list(m1):
            v1 = m1[o]
            if o in m2:
                v2 = m2[o]
                self.pathkey = [o]
                m[o] = v1 if v1 is v2 else self.jv(v1, v2)
            elif not isinstance(o[0], int):
                m[o] = v1
        # heap objects born in the loop body and still referenced
        refd = None
        n = 0
        for o in list(m2):
            if o not in m1 and not isinstance(o[0], int):
                if refd is None:
                    refd = set()
                    for v in m.values():
                        refs_of(v, refd)
                    work = list(refd)
                    while work:
                        x = work.pop()
                        if x in m2 and x not in m:
                            s = set()
                            refs_of(m2[x], s)
                            for y in s - refd:
                                refd.add(y)
                                work.append(y)
                if o in refd:
                    m[o] = m2[o]
        while self.late or self.gens or self.latev:
            if self.late:
                o, va, vb = self.late.pop()
                self.pathkey = ["late", str(o)]
                m[o] = va if va is vb else self.jv(va, vb)
            elif self.latev:
                o, va, vb, loc = self.latev.pop()
                self.pathkey = list(loc)
                m[o] = va if va is vb else self.jv(va, vb)
            else:
                o, vb, loc = self.gens.pop()
                m[o] = self.gen(vb, loc)
        self.facts(out)
        self.prune(out)
        return out

    def stable_top(self, t):
        loc = ("top",) + tuple(self.pathkey)
        v = self.head.names.get(loc)
        if v is None:
            v = self.I.mat(self.s1, t)
            self.head.names[loc] = v
        return v

    def only_back(self, i, y):
        """a payload present only in the back state: generalise its integers"""
        loc = ("ob", i) + tuple(self.pathkey)
        return self.gen(y, loc)

    def gen(self, v, loc):
        if isinstance(v, Poly):
            if v.isc():
                return v
            a = self.head.names.get(loc)
            lo, hi = self.F2.prange(v)
            u = self.F2.vset(v)
            if u is not None and len(u) > 32:
                u = None
            if a is None:
                a = T.leaf("phi", -INF, INF, bool(self.s2.imp) or any(x.imp for x in v.leaves))
                self.head.names[loc] = a
            else:
                old = self.head.cur.F.rng.get(a)
                if old is not None and self.rounds > 0:
                    if isinstance(old, frozenset):
                        if u is not None and self.rounds <= 8 and len(u | old) <= 32:
                            u = u | old
                        else:
                            u = None
                        old = (min(old), max(old))
                    else:
                        u = None
                    lo = old[0] if lo >= old[0] else widen_lo(lo)
                    hi = old[1] if hi <= old[1] else widen_hi(hi)
            self.newrng[a] = frozenset(u) if u is not None else (lo, hi)
            return A(a)
        if isinstance(v, Cond):
            if v.k == "c":
                return v
            a = self.head.names.get(loc)
            if a is None:
                a = T.leaf("phib", 0, 1)
                self.head.names[loc] = a
            return T.ne(A(a))
        if isinstance(v, Agg):
            return Agg([self.gen(x, loc + (i,)) for i, x in enumerate(v.f)])
        if isinstance(v, Arr):
            return Arr([self.gen(x, loc + (i,)) for i, x in enumerate(v.e)])
        if isinstance(v, En):
            return En(v.ty, self.gen(v.tag, loc + ("t",)),
                      [None if x is None else self.gen(x, loc + (("p", i),)) for i, x in enumerate(v.pay)])
        if isinstance(v, Seq):
            rest = v.rest
            if rest is not None:
                old = self.head.names.get(("rest",) + loc)
                if old is not None and self.rounds > 0:
                    rest = self.I.tjoin(old, rest)
                self.head.names[("rest",) + loc] = rest
            return Seq([self.gen(x, loc + (("q", i),)) for i, x in enumerate(v.e)], rest)
        if isinstance(v, VecV):
            return self.genvec(v, loc)
        return v

    def genvec(self, v, loc):
        o = self.head.names.get(("vec",) + loc)
        if o is None:
            o = ("h", self.I.new())
            self.head.names[("vec",) + loc] = o
        b = self.s2.mem.get(v.obj, UNDEF)
        self.gens.append((o, b, ("vc",) + loc))
        return VecV(o, self.gen(v.len, loc + ("len",)), v.ety)

    def jvec(self, a, b):
        """two different buffers: one object per location stands for both"""
        loc = tuple(self.pathkey)
        if self.F1.val(a.len) == 0 and self.F2.val(b.len) == 0:
            return a
        o = self.head.names.get(("vec",) + loc)
        if o is None:
            o = ("h", self.I.new())
            self.head.names[("vec",) + loc] = o
        self.pathkey.append("len")
        ln = self.jint(a.len, b.len)
        self.pathkey.pop()
        va, vb = self.s1.mem.get(a.obj, UNDEF), self.s2.mem.get(b.obj, UNDEF)
        if self.F1.val(a.len) == 0:
            self.gens.append((o, vb, ("vc",) + loc))
        else:
            self.latev.append((o, va, vb, ("vc",) + loc))
        return VecV(o, ln, a.ety)

    def facts(self, out):
        super().facts(out)
        F1, F2, F = self.F1, self.F2, out.F
        # candidates from the back state: value numbers that advance by a constant
        step = {}
        for a, t1, t2 in self.phis:
            d = T.sub(t2, A(a))
            if d.isc():
                step[a] = (d.c, t1)
        sub1 = {a: t1 for a, t1, _ in self.phis}
        sub2 = {a: t2 for a, _, t2 in self.phis}
        cands = set()
        for p in F2.ge:
            ats = [m[0] for m, _ in p.t if len(m) == 1 and m[0] in sub1]
            if not ats or any(len(m) > 1 and any(x in sub1 for x in m) for m, _ in p.t):
                continue
            q = p
            for a in ats:
                if a in step:
                    k = dict(p.t)[(a,)]
                    q = T.add(q, K(-k * step[a][0]))
            cands.add(q)
            cands.add(p)
        # value numbers against their entry terms
        if self.rounds <= 1 or True:
            for a, t1, t2 in self.phis:
                if not t1.isc():
                    cands.add(T.sub(A(a), t1))
                    cands.add(T.sub(t1, A(a)))
        if self.rounds > 1 or self.rounds == -1:
            cands = {c for c in cands if c in self.head.cur.F.ge or self.rounds == 2}
        for q in cands:
            if q in F.ge:
                continue
            q1, q2 = subst(q, sub1), subst(q, sub2)
            if F1.prove_ge(q1) and F2.prove_ge(q2):
                F.ge[q] = None
        # facts must not shrink the set assumed so far
        if self.rounds > 2:
            for q in list(F.ge):
                if any(x in sub1 for x in q.leaves) and q not in self.head.cur.F.ge:
                    del F.ge[q]

    def prune(self, out):
        live = state_leaves(out)

        def keep(lv):
            for l in lv:
                if l in live:
                    continue
                if l.kind == "byte" and all(x in live or x.kind == "byte" for x in l.args[0].leaves):
                    continue
                return False
            return True
        F = out.F
        phs = set(self.head.phis)
        F.rng = {a: r for a, r in F.rng.items() if keep(a.leaves)}
        F.ge = {p: None for p in F.ge if keep(p.leaves)}
        F.ne = {p: None for p in F.ne if keep(p.leaves)}


def subst(p, m):
    r = K(p.c)
    for mono, k in p.t:
        x = K(k)
        for a in mono:
            x = T.mul(x, m.get(a, None) or A(a))
        r = T.add(r, x)
    return r


def refs_of(v, out):
    if isinstance(v, Ref):
        out.add(v.obj)
    elif isinstance(v, VecV):
        out.add(v.obj)
    elif isinstance(v, Agg):
        for x in v.f:
            refs_of(x, out)
    elif isinstance(v, En):
        for x in v.pay:
            if x is not None:
                refs_of(x, out)
    elif isinstance(v, (Arr, Seq)):
        for x in v.e:
            refs_of(x, out)
        if isinstance(v, Seq) and v.rest is not None:
            refs_of(v.rest, out)
