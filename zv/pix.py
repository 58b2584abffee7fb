"""Linear forms of pixel values: what a term computes as a combination of the
input samples, up to the rounding of its shifts and divisions, and the clamp
around it."""
from fractions import Fraction as Fr
from . import terms as T, hdr
from .terms import K, A, Poly
from .absint import Agg, En, Ref, Arr, Seq, VecV, Fnp, Interp, State, Stop
from .models import Models
from .prog import AnchorMissing


class NotLinear(Exception):
    pass


def peel(F, p):
    """(inner term, lower bound, upper bound) of nested min and max with constants"""
    lo, hi = -T.INF, T.INF
    while True:
        a = p.atom()
        if a is None or a.kind not in ("min", "max"):
            break
        x, y = a.args
        if x.isc():
            x, y = y, x
        if not y.isc():
            break
        # outer bounds win: value lies in [lo, hi] whatever the inner ones do
        if a.kind == "max":
            lo = max(lo, min(y.c, hi))
        else:
            hi = min(hi, max(y.c, lo))
        p = x
    l, h = F.prange(p)
    if lo == -T.INF or l > lo:
        lo = l
    if hi == T.INF or h < hi:
        hi = h
    return p, lo, hi


def linear(F, p, vals=None):
    """({monomial of leaves: coefficient}, constant, error low, error high)"""
    co = {}
    c, el, eh = Fr(p.c), Fr(0), Fr(0)
    for m, k in p.t:
        if all(a.kind in ("leaf", "byte") for a in m):
            m2, kk = [], Fr(k)
            for a in m:
                v = F.val(A(a))
                if v is not None:
                    kk *= v
                else:
                    m2.append(a)
            if m2:
                co[tuple(m2)] = co.get(tuple(m2), 0) + kk
            else:
                c += kk
            continue
        if len(m) != 1:
            raise NotLinear(repr(m)[:200])
        a = m[0]
        if a.kind in ("shr", "div") and a.args[1].isc():
            n = 1 << int(a.args[1].c) if a.kind == "shr" else int(a.args[1].c)
            if n <= 0:
                raise NotLinear(repr(a)[:200])
            q, c2, l2, h2 = linear(F, a.args[0])
            # floor (or truncation towards zero)
            e = Fr(n - 1, n)
            l2, h2 = Fr(l2) / n - e, Fr(h2) / n + (0 if a.kind == "shr" or F.prange(a.args[0])[0] >= 0 else e)
            c2 = Fr(c2) / n
            q = {x: y / n for x, y in q.items()}
        elif a.kind == "wrap":
            l, h = T.trange(*a.meta)
            # same value unless it overflows: judged by the caller through the witness
            x, y = F.prange(a.args[0])
            if not (l <= x and y <= h):
                raise NotLinear("overflow of %s%d in %s" % ("i" if a.meta[0] else "u", a.meta[1], repr(a.args[0])[:120]))
            q, c2, l2, h2 = linear(F, a.args[0])
        else:
            raise NotLinear("%s in %s" % (a.kind, repr(a)[:160]))
        for x, y in q.items():
            co[x] = co.get(x, 0) + y * k
        c += c2 * k
        el, eh = el + min(k * l2, k * h2), eh + max(k * l2, k * h2)
    return {m: v for m, v in co.items() if v}, c, el, eh


def evalp(p, env):
    """value of a term under an assignment of its leaves; None if it has none"""
    r = p.c
    for m, k in p.t:
        x = k
        for a in m:
            v = evala(a, env)
            if v is None:
                return None
            x *= v
        r += x
    return r


def evala(a, env):
    if a in env:
        return env[a]
    if a.kind in ("leaf", "byte"):
        return None
    vs = [evalp(q, env) for q in a.args]
    if any(v is None for v in vs):
        return None
    if a.kind == "lane":
        w, j, v = a.meta
        r = (vs[0] >> (j * v)) & ((1 << v) - 1)
    elif a.kind == "tab":
        return None
    else:
        r = T.conc(a.kind, a.meta, vs)
    env[a] = r
    return r


def conv_type(p):
    """the function pointer type of the decoder that takes three arrays of samples"""
    t = p.tys[hdr.decoder_ty(p)]
    out = []
    for i, f in enumerate(t["v"][0]["f"]):
        if p.tys[f[1]]["k"] == "fnptr":
            out.append((i, f[0], f[1]))
    return out


def is_arr16(p, ty):
    t = p.tys[ty]
    return t["k"] == "ref" and p.tys[t["e"]]["k"] == "array" and p.tys[p.tys[t["e"]]["e"]]["k"] == "int"


def converters(p):
    """local functions with the signature of a colour converter that are turned into function pointers"""
    refd = set()
    for f in p.local_fns():
        if f.has_body():
            refd |= set(p.edges(f)[1])
    out = []
    for f in p.local_fns():
        if f.id in refd and f.has_body() and f.argc == 5 and all(is_arr16(p, f.locals[i]) for i in (1, 2, 3)):
            t = p.tys[f.locals[4]]
            u = p.tys[f.locals[5]]
            if t["k"] == "ref" and p.tys[t["e"]]["k"] == "slice" and u["k"] == "ref" and p.tys[u["e"]]["k"] == "int":
                out.append(f)
    if not out:
        raise AnchorMissing("functions converting 16 samples per component")
    return out


OFF, LEN = 48, 176


class Conv:
    """one converter run on 16 arbitrary samples of each component"""

    def __init__(self, p, f, secs=60):
        import time
        self.f = f
        self.I = I = Interp(p, Models(p))
        st = State()
        self.src = []
        refs = []
        n = p.tys[p.tys[f.locals[1]]["e"]]["len"]
        self.n = n
        for nm in ("y", "cb", "cr"):
            l = [T.leaf("%s%d" % (nm, i), 0, 255) for i in range(n)]
            self.src.append(l)
            st.mem[("h", nm)] = Arr([A(x) for x in l])
            refs.append(Ref(("h", nm)))
        self.old = [A(T.leaf("o%d" % i, 0, 255)) for i in range(LEN)]
        st.mem[("h", "out")] = Seq(list(self.old), None)
        st.mem[("h", "off")] = K(OFF)
        I.deadline = time.time() + secs
        self.stop = None
        try:
            self.rets = I.call(st, f, refs + [Ref(("h", "out"), (), K(0), K(LEN)), Ref(("h", "off"))])
        except Stop as e:
            self.stop = str(e)
            self.rets = []

    def layouts(self):
        """bytes per pixel on each return"""
        out = set()
        for s, _ in self.rets:
            v = s.F.val(s.mem[("h", "off")])
            out.add(None if v is None else Fr(int(v) - OFF, self.n))
        return out

    def byte(self, s, i):
        b = s.mem[("h", "out")]
        return b.e[i] if isinstance(b, (Seq, Arr)) and i < len(b.e) else None


# BT.601 full range: coefficients of y, cb, cr
BT = {"red": (Fr(1), Fr(0), Fr(1402, 1000)),
      "green": (Fr(1), Fr(-344136, 1000000), Fr(-714136, 1000000)),
      "blue": (Fr(1), Fr(1772, 1000), Fr(0))}
CH = ("red", "green", "blue")


def corners(y, cb, cr):
    for a in (0, 1, 77, 128, 200, 255):
        for b in (0, 64, 127, 128, 129, 200, 255):
            for c in (0, 64, 127, 128, 129, 200, 255):
                yield {y: a, cb: b, cr: c}


def want(ch, v):
    k = BT[ch]
    x = k[0] * v[0] + k[1] * (v[1] - 128) + k[2] * (v[2] - 128)
    return max(Fr(0), min(Fr(255), x))


def judge(F, p, ch, y, cb, cr, tol=Fr(2, 100)):
    """(True | False | None, text): is p the channel ch of the pixel (y, cb, cr)?"""
    try:
        q, lo, hi = peel(F, p)
        co, c, el, eh = linear(F, q)
        other = [m for m in co if m not in ((y,), (cb,), (cr,))]
        k = BT[ch]
        got = [co.get((x,), Fr(0)) for x in (y, cb, cr)]
        bad = None
        if other:
            bad = "depends on %s" % ", ".join("*".join(a.meta for a in m) for m in other[:3])
        for n, g, w in zip(("y", "cb", "cr"), got, k):
            if abs(g - w) > tol * max(abs(w), Fr(0)):
                bad = bad or "coefficient of %s is %s, must be %s" % (n, float(g), float(w))
        mid = c + 128 * (got[1] + got[2])
        if mid + el < -1 or mid + eh > 1 or mid + eh < -1 or mid + el > 1:
            if abs(mid + (el + eh) / 2) > 1:
                bad = bad or "offset %s" % float(mid)
            elif not (mid + el >= Fr(-3, 2) and mid + eh <= Fr(3, 2)):
                return None, "rounding error between %s and %s not bounded by one level" % (float(mid + el), float(mid + eh))
        if not bad and (lo, hi) != (0, 255):
            l, h = F.prange(q)
            if lo < 0 or hi > 255 or lo > 0 or hi < 255:
                bad = "clamped to %s..%s" % (lo, hi)
        if bad:
            return False, bad
        return True, ""
    except NotLinear as e:
        for env in corners(y, cb, cr):
            v = (env[y], env[cb], env[cr])
            g = evalp(p, dict(env))
            if g is not None and abs(g - want(ch, v)) > 6:
                return False, "%d for y=%d cb=%d cr=%d, must be %s (%s)" % (g, v[0], v[1], v[2], round(float(want(ch, v))), e)
        return None, str(e)
