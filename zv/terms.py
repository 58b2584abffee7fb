"""Terms of the abstract domain: integers are polynomials over hash-consed
atoms (value numbering); a state keeps, per atom, an interval or a small set of
values, plus linear facts.  Everything is a sound over-approximation; nothing
is ever handed to a solver."""
from math import gcd
INF = float("inf")


def trange(s, b):
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


class Atom:
    __slots__ = ("id", "kind", "args", "meta", "lo", "hi", "leaves", "ev", "imp")

    def __repr__(self):
        if self.kind == "leaf":
            return "%s#%d" % (self.meta, self.id)
        if self.kind == "byte":
            return "B[%r]" % (self.args[0],)
        return "%s(%s%s)" % (self.kind, ",".join(map(repr, self.args)),
                             "" if self.meta is None or self.kind in ("tab",) else ";%s" % (self.meta if not isinstance(self.meta, tuple) or len(self.meta) < 5 else "..",))


_atoms = {}
_n = [0]


def _mk(kind, args, meta, lo, hi):
    a = Atom()
    _n[0] += 1
    a.id = _n[0]
    a.kind, a.args, a.meta, a.lo, a.hi = kind, args, meta, lo, hi
    a.ev = {}
    a.imp = False
    if kind in ("leaf", "byte"):
        a.leaves = frozenset((a,))
    else:
        s = frozenset()
        for p in args:
            s |= p.leaves
        if kind == "tab":
            s |= meta[0].leaves
        a.leaves = s
    return a


def leaf(name, lo, hi, imp=False):
    a = _mk("leaf", (), name, lo, hi)
    a.imp = imp
    return a


def app(kind, args, meta=None, lo=-INF, hi=INF):
    k = (kind, args, meta)
    a = _atoms.get(k)
    if a is None:
        a = _mk(kind, args, meta, lo, hi)
        _atoms[k] = a
    return a


class Poly:
    __slots__ = ("c", "t", "h", "_leaves", "ev", "_d")

    def __init__(self, c, t):
        self.c, self.t = c, t          # t: tuple of (mono tuple of atoms, coef), sorted
        self.h = hash((c, t))
        self._leaves = None
        self.ev = None
        self._d = None

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.h == o.h and self.c == o.c and self.t == o.t)

    def __ne__(self, o):
        return not self == o

    @property
    def leaves(self):
        if self._leaves is None:
            s = frozenset()
            for m, _ in self.t:
                for a in m:
                    s |= a.leaves
            self._leaves = s
        return self._leaves

    def d(self):
        if self._d is None:
            self._d = dict(self.t)
        return self._d

    def isc(self):
        return not self.t

    def atom(self):
        """the atom if the polynomial is exactly one atom"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1 and len(self.t[0][0]) == 1:
            return self.t[0][0][0]
        return None

    def __repr__(self):
        if not self.t:
            return str(self.c)
        s = []
        for m, k in self.t:
            ms = "*".join(map(repr, m))
            s.append(ms if k == 1 else "%d*%s" % (k, ms))
        if self.c:
            s.append(str(self.c))
        return "(" + " + ".join(s) + ")"


def _key(m):
    return tuple(a.id for a in m)


_consts = {}


def K(c):
    p = _consts.get(c)
    if p is None:
        p = Poly(c, ())
        if len(_consts) < 100000:
            _consts[c] = p
    return p


def A(a):
    return Poly(0, (((a,), 1),))


def from_dict(c, d):
    items = [(m, k) for m, k in d.items() if k]
    if len(items) > 1:
        items.sort(key=lambda x: _key(x[0]))
    return Poly(c, tuple(items))


def add(p, q, k=1):
    """p + k*q"""
    if not q.t:
        return p if q.c == 0 else Poly(p.c + k * q.c, p.t)
    if not p.t and p.c == 0 and k == 1:
        return q
    d = dict(p.t)
    for m, x in q.t:
        d[m] = d.get(m, 0) + k * x
    return from_dict(p.c + k * q.c, d)


def sub(p, q):
    return add(p, q, -1)


def scale(p, k):
    if k == 0:
        return K(0)
    return Poly(p.c * k, tuple((m, x * k) for m, x in p.t))


def mul(p, q):
    if not p.t:
        return scale(q, p.c)
    if not q.t:
        return scale(p, q.c)
    if len(p.t) * len(q.t) > 40:
        return A(app("mul", (p, q)))
    d = {}
    for m1, x1 in list(p.t) + [((), p.c)]:
        for m2, x2 in list(q.t) + [((), q.c)]:
            if x1 and x2:
                m = tuple(sorted(m1 + m2, key=lambda a: a.id))
                d[m] = d.get(m, 0) + x1 * x2
    c = d.pop((), 0)
    return from_dict(c, d)


def tz(p):
    """number of low bits of the polynomial that are zero whatever the atoms"""
    g = p.c
    for _, k in p.t:
        g = gcd(g, k)
    if g == 0:
        return 128
    n = 0
    while g % 2 == 0:
        g //= 2
        n += 1
    return n


# ---------------------------------------------------------------- concrete evaluation
def wrapv(v, s, b):
    v &= (1 << b) - 1
    if s and v >> (b - 1):
        v -= 1 << b
    return v


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def conc(kind, meta, v):
    if kind == "wrap":
        return wrapv(v[0], *meta)
    if kind == "mul":
        return v[0] * v[1]
    if kind == "div":
        return tdiv(v[0], v[1]) if v[1] else None
    if kind == "rem":
        return v[0] - v[1] * tdiv(v[0], v[1]) if v[1] else None
    if kind == "and":
        return v[0] & v[1]
    if kind == "or":
        return v[0] | v[1]
    if kind == "xor":
        return v[0] ^ v[1]
    if kind == "shl":
        return v[0] << v[1] if 0 <= v[1] < 256 else None
    if kind == "shr":
        return v[0] >> v[1] if 0 <= v[1] < 256 else None
    if kind == "min":
        return min(v)
    if kind == "max":
        return max(v)
    if kind == "ctpop":
        return bin(v[0] & ((1 << 128) - 1)).count("1")
    if kind == "ctlz":
        return meta - v[0].bit_length() if v[0] >= 0 else 0
    if kind == "cttz":
        return meta if v[0] == 0 else (v[0] & -v[0]).bit_length() - 1
    if kind == "idx":
        return meta[v[0]] if 0 <= v[0] < len(meta) else None
    if kind == "rotl":
        b = meta
        x, n = v[0] & ((1 << b) - 1), v[1] % b
        return ((x << n) | (x >> (b - n))) & ((1 << b) - 1)
    if kind == "bswap":
        return int.from_bytes((v[0] & ((1 << meta) - 1)).to_bytes(meta // 8, "little"), "big")
    if kind == "ge0":
        return int(v[0] >= 0)
    if kind == "eq0":
        return int(v[0] == 0)
    return None


def ev_atom(a, lf, v):
    if a is lf:
        return v
    r = a.ev.get((lf, v), 0)
    if r != 0 or (lf, v) in a.ev:
        return r
    if a.kind in ("leaf", "byte"):
        return None
    if a.kind == "tab":
        key, tb, dflt = a.meta
        x = ev(key, lf, v)
        q = dict(tb).get(x)
        r = None if q is None else ev(q, lf, v)
    else:
        vs = [ev(p, lf, v) for p in a.args]
        r = None if any(x is None for x in vs) else conc(a.kind, a.meta, vs)
    a.ev[(lf, v)] = r
    return r


def ev(p, lf, v):
    r = p.c
    for m, k in p.t:
        x = k
        for a in m:
            y = ev_atom(a, lf, v)
            if y is None:
                return None
            x *= y
        r += x
    return r


# ---------------------------------------------------------------- conditions
class Cond:
    __slots__ = ("k", "a", "h")

    def __init__(self, k, a):
        self.k, self.a = k, a
        self.h = hash((k, a))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Cond) and self.h == o.h and self.k == o.k and self.a == o.a)

    def __repr__(self):
        if self.k == "ge":
            return "%r>=0" % (self.a,)
        if self.k == "eq":
            return "%r==0" % (self.a,)
        if self.k == "ne":
            return "%r!=0" % (self.a,)
        return "%s%r" % (self.k, self.a)


TRUE, FALSE = Cond("c", True), Cond("c", False)


def ge(p):
    if p.isc():
        return TRUE if p.c >= 0 else FALSE
    return Cond("ge", p)


def eq(p):
    if p.isc():
        return TRUE if p.c == 0 else FALSE
    if p.t[0][1] < 0:
        p = scale(p, -1)
    return Cond("eq", p)


def ne(p):
    return neg(eq(p))


def neg(c):
    if c.k == "c":
        return FALSE if c.a else TRUE
    if c.k == "ge":
        return ge(sub(K(-1), c.a))
    if c.k == "eq":
        return Cond("ne", c.a)
    if c.k == "ne":
        return Cond("eq", c.a)
    if c.k == "and":
        return disj(neg(c.a[0]), neg(c.a[1]))
    if c.k == "or":
        return conj(neg(c.a[0]), neg(c.a[1]))
    raise AssertionError(c.k)


def conj(a, b):
    if a == FALSE or b == FALSE:
        return FALSE
    if a == TRUE:
        return b
    if b == TRUE or a == b:
        return a
    return Cond("and", (a, b))


def disj(a, b):
    if a == TRUE or b == TRUE:
        return TRUE
    if a == FALSE:
        return b
    if b == FALSE or a == b:
        return a
    return Cond("or", (a, b))


def lt(p, q):
    return ge(sub(sub(q, p), K(1)))


def le(p, q):
    return ge(sub(q, p))


def cond_leaves(c):
    if c.k == "c":
        return frozenset()
    if c.k in ("and", "or"):
        return cond_leaves(c.a[0]) | cond_leaves(c.a[1])
    return c.a.leaves


def ev_cond(c, lf, v):
    if c.k == "c":
        return c.a
    if c.k == "and":
        x, y = ev_cond(c.a[0], lf, v), ev_cond(c.a[1], lf, v)
        if x is False or y is False:
            return False
        return None if x is None or y is None else True
    if c.k == "or":
        x, y = ev_cond(c.a[0], lf, v), ev_cond(c.a[1], lf, v)
        if x is True or y is True:
            return True
        return None if x is None or y is None else False
    x = ev(c.a, lf, v)
    if x is None:
        return None
    return x >= 0 if c.k == "ge" else (x == 0 if c.k == "eq" else x != 0)


# ---------------------------------------------------------------- states
SETMAX = 256
RSETS = {}
VSETS = {}


class Facts:
    """numeric part of a state"""
    __slots__ = ("rng", "ge", "ne", "memo", "bad")

    def __init__(self):
        self.rng = {}      # atom -> (lo,hi) or frozenset
        self.ge = {}       # poly -> None : poly >= 0
        self.ne = {}       # poly -> None : poly != 0
        self.memo = {}
        self.bad = False

    def copy(self):
        f = Facts()
        f.rng = dict(self.rng)
        f.ge = dict(self.ge)
        f.ne = dict(self.ne)
        f.memo = dict(self.memo)
        f.bad = self.bad
        return f

    # ---- ranges
    def aset(self, a):
        """explicit value set of a leaf, or None"""
        r = self.rng.get(a)
        if isinstance(r, frozenset):
            return r
        lo, hi = (a.lo, a.hi) if r is None else (max(a.lo, r[0]), min(a.hi, r[1]))
        if hi - lo < SETMAX:
            k = (lo, hi)
            r = RSETS.get(k)
            if r is None:
                r = RSETS[k] = frozenset(range(int(lo), int(hi) + 1))
            return r
        return None

    def arange(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        lo, hi = a.lo, a.hi
        x = self.rng.get(a)
        if x is not None:
            if isinstance(x, frozenset):
                lo, hi = max(lo, min(x)), min(hi, max(x))
            else:
                lo, hi = max(lo, x[0]), min(hi, x[1])
        if a.kind not in ("leaf", "byte"):
            s = self.vset_atom(a)
            if s:
                lo, hi = max(lo, min(s)), min(hi, max(s))
            else:
                l2, h2 = self.oprange(a)
                lo, hi = max(lo, l2), min(hi, h2)
        self.memo[a] = (lo, hi)
        return lo, hi

    def vset_atom(self, a):
        if len(a.leaves) != 1:
            return None
        (lf,) = a.leaves
        s = self.aset(lf)
        if s is None:
            return None
        k = (a, s)
        if k in VSETS:
            out = VSETS[k]
        else:
            out = set()
            for v in s:
                x = ev_atom(a, lf, v)
                if x is None:
                    out = None
                    break
                out.add(x)
            if out is not None:
                out = frozenset(out)
            VSETS[k] = out
        if out is None:
            return None
        x = self.rng.get(a)
        if x is not None and a is not lf:
            out = {v for v in out if (v in x if isinstance(x, frozenset) else x[0] <= v <= x[1])}
        return out

    def vset(self, p):
        """exact set of values of p if it depends on one small leaf only"""
        if p.isc():
            return {p.c}
        if len(p.leaves) != 1:
            return None
        (lf,) = p.leaves
        s = self.aset(lf)
        if s is None:
            return None
        if len(p.t) == 1 and p.t[0][0] == (lf,) and p.t[0][1] == 1 and p.c == 0:
            return s
        k = (p, s)
        if k in VSETS:
            return VSETS[k]
        out = set()
        for v in s:
            x = ev(p, lf, v)
            if x is None:
                out = None
                break
            out.add(x)
        if out is not None:
            out = frozenset(out)
        if len(VSETS) > 400000:
            VSETS.clear()
        VSETS[k] = out
        return out

    def oprange(self, a):
        k = a.kind
        if k == "tab":
            key, tb, _ = a.meta
            lo, hi = INF, -INF
            ks = self.vset(key)
            for kv, q in tb:
                if ks is not None and kv not in ks:
                    continue
                l2, h2 = self.prange(q)
                lo, hi = min(lo, l2), max(hi, h2)
            return lo, hi
        rs = [self.prange(p) for p in a.args]
        return oprange(k, a.meta, rs)

    def prange(self, p):
        if not p.t:
            return p.c, p.c
        r = self.memo.get(p)
        if r is not None:
            return r
        if len(p.t) > 1 and len(p.leaves) == 1:
            s = self.vset(p)
            if s:
                r = (min(s), max(s))
                self.memo[p] = r
                return r
        lo = hi = p.c
        for m, k in p.t:
            if len(m) == 1:
                l2, h2 = self.arange(m[0])
            else:
                l2, h2 = 1, 1
                for a in m:
                    l3, h3 = self.arange(a)
                    l2, h2 = mulrange(l2, h2, l3, h3)
                if l2 < 0 and len(m) == 2 and m[0] is m[1]:
                    l2 = 0
            if k > 0:
                lo += k * l2
                hi += k * h2
            else:
                lo += k * h2
                hi += k * l2
        self.memo[p] = (lo, hi)
        return lo, hi

    def val(self, p):
        """constant value if known"""
        if not p.t:
            return p.c
        lo, hi = self.prange(p)
        return int(lo) if lo == hi else None

    # ---- deciding
    def holds(self, c):
        """True / False / None"""
        if c.k == "c":
            return c.a
        if c.k == "and":
            x, y = self.holds(c.a[0]), self.holds(c.a[1])
            if x is False or y is False:
                return False
            if x and y:
                return True
            return self._enum(c)
        if c.k == "or":
            x, y = self.holds(c.a[0]), self.holds(c.a[1])
            if x or y:
                return True
            if x is False and y is False:
                return False
            return self._enum(c)
        p = c.a
        if len(p.leaves) == 1:
            r = self._enum(c)
            if r is not None:
                return r
        if c.k == "ge":
            if self.prove_ge(p):
                return True
            if self.prove_ge(sub(K(-1), p)):
                return False
            return None
        # eq / ne
        r = self._eq(p)
        if r is None:
            return None
        return r if c.k == "eq" else not r

    def _eq(self, p):
        lo, hi = self.prange(p)
        if lo == hi == 0:
            return True
        if lo > 0 or hi < 0:
            return False
        if p in self.ne or scale(p, -1) in self.ne:
            return False
        g = 0
        for _, k in p.t:
            g = gcd(g, k)
        if g > 1 and p.c % g:
            return False
        a = self.prove_ge(p)
        b = self.prove_ge(scale(p, -1))
        if a and b:
            return True
        if a and self.prove_ge(add(p, K(-1))):
            return False
        if b and self.prove_ge(add(scale(p, -1), K(-1))):
            return False
        return None

    def _enum(self, c):
        ls = cond_leaves(c)
        if len(ls) != 1:
            return None
        (lf,) = ls
        s = self.aset(lf)
        if s is None:
            return None
        seen = set()
        for v in s:
            seen.add(ev_cond(c, lf, v))
            if len(seen) > 1:
                return None
        if len(seen) == 1:
            return seen.pop()
        return None

    def prove_ge(self, p, depth=2):
        if self.prange(p)[0] >= 0:
            return True
        if depth == 0 or not self.ge:
            return False
        pm = p.d()
        if len(pm) > 24:
            return False
        mk = ("pg", p, depth)
        r = self.memo.get(mk)
        if r is not None and r[1] == len(self.ge):
            return r[0]
        r = self._prove(p, pm, depth)
        self.memo[mk] = (r, len(self.ge))
        return r

    def _prove(self, p, pm, depth):
        for f in self.ge:
            # p >= 0 if p - k f >= 0 for some k > 0 that cancels a monomial
            ks = set()
            fd = f.d()
            if pm.keys().isdisjoint(fd.keys()):
                continue
            for m, x in f.t:
                y = pm.get(m)
                if y is not None and (y > 0) == (x > 0):
                    ks.add((y, x))
            for y, x in ks:
                y, x = abs(y), abs(x)
                # x*p - y*f
                q = add(scale(p, x), f, -y)
                if self.prove_ge(q, depth - 1):
                    return True
        return False

    # ---- assuming
    def assume(self, c, depth=0):
        """returns False when the state becomes infeasible"""
        if self.bad:
            return False
        if c.k == "c":
            if not c.a:
                self.bad = True
            return c.a
        h = self.holds(c)
        if h is True:
            return True
        if h is False:
            self.bad = True
            return False
        ls = cond_leaves(c)
        if len(ls) == 1:
            (lf,) = ls
            s = self.aset(lf)
            if s is not None:
                keep = frozenset(v for v in s if ev_cond(c, lf, v) is not False)
                if not keep:
                    self.bad = True
                    return False
                if len(keep) < len(s):
                    self.rng[lf] = keep
                    self.memo = {}
                    self._after(lf)
                return not self.bad
        if c.k == "and":
            return self.assume(c.a[0], depth) and self.assume(c.a[1], depth)
        if c.k == "or":
            # keep only what both sides agree on
            f1, f2 = self.copy(), self.copy()
            a, b = f1.assume(c.a[0], depth), f2.assume(c.a[1], depth)
            if not a and not b:
                self.bad = True
                return False
            if not a or not b:
                o = f2 if not a else f1
                self.rng, self.ge, self.ne, self.memo = o.rng, o.ge, o.ne, {}
                return True
            for at in set(f1.rng) | set(f2.rng):
                r = rjoin(f1.rawrange(at), f2.rawrange(at))
                if r is not None:
                    self.rng[at] = r
            self.memo = {}
            return True
        if c.k == "ge":
            return self._assume_ge(c.a, depth)
        if c.k == "eq":
            p = c.a
            if not self._assume_ge(p, depth):
                return False
            return self._assume_ge(scale(p, -1), depth)
        # ne
        p = c.a
        lo, hi = self.prange(p)
        if lo == 0:
            return self._assume_ge(add(p, K(-1)), depth)
        if hi == 0:
            return self._assume_ge(add(scale(p, -1), K(-1)), depth)
        self.ne[p] = None
        if len(p.t) == 1 and len(p.t[0][0]) == 1 and abs(p.t[0][1]) == 1:
            a = p.t[0][0][0]
            v = -p.c * p.t[0][1]
            s = self.rng.get(a)
            if isinstance(s, frozenset) and v in s:
                s = s - {v}
                if not s:
                    self.bad = True
                    return False
                self.rng[a] = s
                self.memo = {}
        return True

    def rawrange(self, a):
        s = self.rng.get(a)
        if isinstance(s, frozenset):
            return s
        return self.arange(a)

    def _after(self, lf):
        pass

    def set_range(self, a, lo, hi):
        s = self.rng.get(a)
        if isinstance(s, frozenset):
            n = frozenset(v for v in s if lo <= v <= hi)
            if not n:
                self.bad = True
                return
            if n != s:
                self.rng[a] = n
                self.memo = {}
            return
        l0, h0 = self.arange(a)
        l1, h1 = max(l0, lo), min(h0, hi)
        if l1 > h1:
            self.bad = True
            return
        if (l1, h1) != (l0, h0):
            self.rng[a] = (l1, h1)
            self.memo = {}
            self._back(a, l1, h1)

    def _back(self, a, lo, hi):
        """push a new range of a compound atom down to its arguments"""
        if a.kind == "wrap":
            p = a.args[0]
            l, h = self.prange(p)
            tl, th = trange(*a.meta)
            if tl <= l and h <= th:
                self._assume_ge(sub(p, K(lo)), 3) if lo > -INF else None
                self._assume_ge(sub(K(hi), p), 3) if hi < INF else None
        elif a.kind == "div":
            p, q = a.args
            if q.isc() and q.c > 0 and self.prange(p)[0] >= 0 and lo >= 0:
                self._assume_ge(sub(p, K(int(lo) * q.c)), 3)
                if hi < INF:
                    self._assume_ge(sub(K(int(hi) * q.c + q.c - 1), p), 3)
        elif a.kind == "shr":
            p, q = a.args
            if q.isc() and hi < INF and lo > -INF:
                self._assume_ge(sub(p, K(int(lo) << q.c)), 3)
                self._assume_ge(sub(K((int(hi) << q.c) + (1 << q.c) - 1), p), 3)

    def _assume_ge(self, p, depth=0):
        lo, hi = self.prange(p)
        if hi < 0:
            self.bad = True
            return False
        if lo >= 0:
            return True
        if not self._tighten(p):
            return False
        if len(p.t) > 1 or len(p.t[0][0]) > 1:
            self.ge[p] = None
            self.memo = {}
            if depth == 0 and len(self.ge) < 60:
                for f in list(self.ge):
                    if f is not p and any(m in dict(p.t) for m, _ in f.t):
                        self._assume_ge_prop(f)
                        if self.bad:
                            return False
        return True

    def _assume_ge_prop(self, p):
        lo, hi = self.prange(p)
        if hi < 0:
            self.bad = True
            return
        if lo >= 0:
            return
        self._tighten(p)

    def _up(self, m, k):
        l2, h2 = 1, 1
        for a in m:
            l3, h3 = self.arange(a)
            l2, h2 = (l3, h3) if len(m) == 1 else mulrange(l2, h2, l3, h3)
        x = k * h2 if k > 0 else k * l2
        return None if x == INF or x != x else x

    def _tighten(self, p):
        """p >= 0: bounds for every monomial that is a single atom from the bounds of the others"""
        ups = [self._up(m, k) for m, k in p.t]
        free = sum(1 for x in ups if x is None)
        tot = p.c + sum(x for x in ups if x is not None)
        for i, (m, k) in enumerate(p.t):
            if len(m) != 1:
                continue
            own = ups[i]
            if free - (own is None):
                continue
            rest = tot if own is None else tot - own
            a = m[0]
            l2, h2 = self.arange(a)
            if k > 0:
                b = -(int(rest) // k)      # a >= ceil(-rest/k)
                if b <= l2:
                    continue
                self.set_range(a, b, INF)
            else:
                b = int(rest) // (-k)
                if b >= h2:
                    continue
                self.set_range(a, -INF, b)
            if self.bad:
                return False
            ups = [self._up(m, k) for m, k in p.t]
            free = sum(1 for x in ups if x is None)
            tot = p.c + sum(x for x in ups if x is not None)
        return True


def mulrange(a, b, c, d):
    xs = []
    for x in (a, b):
        for y in (c, d):
            xs.append(0 if x == 0 or y == 0 else x * y)
    return min(xs), max(xs)


def rjoin(x, y):
    """join of two raw ranges (None = nothing known)"""
    if x is None or y is None:
        return None
    if isinstance(x, frozenset) and isinstance(y, frozenset):
        u = x | y
        return u if len(u) <= SETMAX else (min(u), max(u))
    if isinstance(x, frozenset):
        x = (min(x), max(x))
    if isinstance(y, frozenset):
        y = (min(y), max(y))
    return (min(x[0], y[0]), max(x[1], y[1]))


def bits(h):
    return int(h).bit_length()


def oprange(k, meta, rs):
    """interval of an operation from the intervals of its arguments"""
    if k == "wrap":
        l, h = rs[0]
        tl, th = trange(*meta)
        if tl <= l and h <= th:
            return l, h
        return tl, th
    if k == "mul":
        return mulrange(*rs[0], *rs[1])
    if k == "div":
        (a, b), (c, d) = rs
        if c > 0:
            xs = []
            for x in (a, b):
                for y in (c, d):
                    if y == INF:
                        xs.append(0)
                    elif x in (INF, -INF):
                        xs.append(x)
                    else:
                        xs.append(tdiv(x, y))
            return min(xs), max(xs)
        m = max(abs(a), abs(b))
        return -m, m
    if k == "rem":
        (a, b), (c, d) = rs
        m = max(abs(c), abs(d))
        m = m - 1 if m < INF else INF
        if a >= 0:
            return (a, b) if c > b else (0, min(b, m))
        return max(-m, a), max(0, min(m, b))
    if k == "and":
        (a, b), (c, d) = rs
        if a >= 0 and c >= 0:
            return 0, min(b, d)
        if a >= 0:
            return 0, b
        if c >= 0:
            return 0, d
        return -INF, max(b, d)
    if k in ("or", "xor"):
        (a, b), (c, d) = rs
        if a >= 0 and c >= 0 and b < INF and d < INF:
            return (max(a, c) if k == "or" else 0), (1 << max(bits(b), bits(d))) - 1
        if k == "or" and a > -INF and c > -INF and b < INF and d < INF:
            n = max(bits(b), bits(d), bits(-a), bits(-c))
            return -(1 << n), (1 << n) - 1
        if a > -INF and c > -INF and b < INF and d < INF:
            n = max(bits(b), bits(d), bits(-a), bits(-c))
            return -(1 << n), (1 << n) - 1
        return -INF, INF
    if k == "shl":
        (a, b), (c, d) = rs
        if 0 <= c and d < 200 and a > -INF and b < INF:
            a, b, c, d = int(a), int(b), int(c), int(d)
            xs = [a << c, a << d, b << c, b << d]
            return min(xs), max(xs)
        return (0, INF) if a >= 0 else (-INF, INF)
    if k == "shr":
        (a, b), (c, d) = rs
        if 0 <= c and d < 200 and a > -INF and b < INF:
            a, b, c, d = int(a), int(b), int(c), int(d)
            xs = [a >> c, a >> d, b >> c, b >> d]
            return min(xs), max(xs)
        return (0, b) if a >= 0 else (-INF, INF)
    if k == "min":
        return min(r[0] for r in rs), min(r[1] for r in rs)
    if k == "max":
        return max(r[0] for r in rs), max(r[1] for r in rs)
    if k == "ctpop":
        return 0, min(128, bits(rs[0][1]) if 0 <= rs[0][0] and rs[0][1] < INF else 128)
    if k in ("ctlz", "cttz"):
        return 0, meta
    if k == "idx":
        l, h = max(0, rs[0][0]), min(len(meta) - 1, rs[0][1])
        if l > h:
            return min(meta), max(meta)
        return min(meta[int(l):int(h) + 1]), max(meta[int(l):int(h) + 1])
    if k in ("rotl", "bswap"):
        return 0, (1 << meta) - 1
    if k in ("ge0", "eq0"):
        return 0, 1
    return -INF, INF


# ---------------------------------------------------------------- constructing terms
def op2(F, kind, p, q, ty=None):
    """result of a non-linear operation, simplified under facts F"""
    if p.isc() and q.isc():
        v = conc(kind, None, [p.c, q.c])
        if v is not None:
            return K(v)
    if kind == "mul":
        return mul(p, q)
    if kind == "div":
        if q.isc() and q.c == 1:
            return p
        if q.isc() and q.c > 1 and F.prange(p)[0] >= 0:
            # (q*a + r)/q with 0 <= r < q
            dv = tuple((m, k // q.c) for m, k in p.t if k % q.c == 0)
            rem = Poly(p.c % q.c, tuple((m, k) for m, k in p.t if k % q.c))
            if dv or p.c >= q.c or p.c < 0:
                l, h = F.prange(rem)
                quo = Poly((p.c - p.c % q.c) // q.c, dv)
                if l >= 0 and h < q.c:
                    return quo
                if l >= 0 and rem.t:
                    return add(quo, A(app("div", (rem, q))))
        l, h = F.prange(p)
        if q.isc() and q.c > 0 and 0 <= l and h < q.c:
            return K(0)
    if kind == "rem":
        l, h = F.prange(p)
        if q.isc() and q.c > 0:
            if 0 <= l and h < q.c:
                return p
            if l >= 0:
                rem = Poly(p.c % q.c, tuple((m, k) for m, k in p.t if k % q.c))
                l2, h2 = F.prange(rem)
                if l2 >= 0 and h2 < q.c:
                    return rem
                if l2 >= 0 and rem != p:
                    p = rem
                if q.c & (q.c - 1) == 0:
                    return op2(F, "and", p, K(q.c - 1))
    if kind in ("and", "or", "xor"):
        if p.isc():
            p, q = q, p
        if kind == "and":
            if q.isc():
                if q.c == 0:
                    return K(0)
                if q.c == -1:
                    return p
                l, h = F.prange(p)
                if q.c > 0 and q.c & (q.c + 1) == 0:
                    if 0 <= l and h <= q.c:
                        return p
                    # drop multiples of the modulus
                    if l >= 0:
                        n = q.c + 1
                        r = Poly(p.c % n, tuple((m, k) for m, k in p.t if k % n))
                        l2, h2 = F.prange(r)
                        if 0 <= l2 and h2 <= q.c:
                            return r
                        if l2 >= 0:
                            p = r
            elif p == q:
                return p
        if kind == "or" or kind == "xor":
            if q.isc() and q.c == 0:
                return p
            if p == q:
                return p if kind == "or" else K(0)
            for a, b in ((p, q), (q, p)):
                l, h = F.prange(b)
                if l >= 0 and h < INF and tz(a) >= bits(h) and F.prange(a)[0] >= 0:
                    return add(p, q)
        if _ord(q, p):
            p, q = q, p
    if kind == "shl":
        if q.isc():
            return scale(p, 1 << q.c) if q.c < 256 else p
    if kind == "shr":
        if q.isc():
            if q.c == 0:
                return p
            return op_shr(F, p, q.c)
    if kind in ("min", "max"):
        d = sub(p, q)
        if F.prove_ge(d):
            return q if kind == "min" else p
        if F.prove_ge(scale(d, -1)):
            return p if kind == "min" else q
        if _ord(q, p):
            p, q = q, p
    return A(app(kind, (p, q)))


def op_shr(F, p, n):
    l, h = F.prange(p)
    d = 1 << n
    if l >= 0 and h < d:
        return K(0)
    dv = tuple((m, k // d) for m, k in p.t if k % d == 0)
    rem = Poly(p.c % d, tuple((m, k) for m, k in p.t if k % d))
    if dv or p.c // d:
        l2, h2 = F.prange(rem)
        quo = Poly((p.c - p.c % d) // d, dv)
        if l2 >= 0 and h2 < d:
            return quo
        if rem.t:
            return add(quo, A(app("shr", (rem, K(n)))))
    return A(app("shr", (p, K(n))))


def _ord(p, q):
    return (len(p.t), p.c, tuple(_key(m) for m, _ in p.t), tuple(k for _, k in p.t)) < \
           (len(q.t), q.c, tuple(_key(m) for m, _ in q.t), tuple(k for _, k in q.t))


def wrap(F, p, ty):
    s, b = ty
    tl, th = trange(s, b)
    if p.isc():
        return K(wrapv(p.c, s, b))
    l, h = F.prange(p)
    if tl <= l and h <= th:
        return p
    if F.ge and (tl <= l or F.prove_ge(add(p, K(-tl)))) and (h <= th or F.prove_ge(sub(K(th), p))):
        return p
    # drop multiples of 2^b
    M = 1 << b
    q = Poly(p.c % M if not s else wrapv(p.c, True, b), tuple((m, k) for m, k in p.t if k % M))
    if q.isc():
        return K(wrapv(q.c, s, b))
    l, h = F.prange(q)
    if tl <= l and h <= th:
        return q
    # wrap(wrap(x)) at smaller or equal width
    a = q.atom()
    if a is not None and a.kind == "wrap" and a.meta[1] >= b:
        return wrap(F, a.args[0], ty)
    # unwrap inner wraps of the same or larger width inside a linear form
    if any(len(m) == 1 and m[0].kind == "wrap" and m[0].meta[1] >= b for m, _ in q.t):
        r = K(q.c)
        for m, k in q.t:
            if len(m) == 1 and m[0].kind == "wrap" and m[0].meta[1] >= b:
                r = add(r, m[0].args[0], k)
            else:
                r = add(r, Poly(0, ((m, k),)))
        if r != q:
            return wrap(F, r, ty)
    return A(app("wrap", (q,), ty, tl, th))
