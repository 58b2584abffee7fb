"""C22: dequantization and inverse DCT compute the JPEG transform."""
import math
import random
import time
from fractions import Fraction as Fr
from .. import common, pix, absint as X, terms as T
from ..absint import Agg, Arr, Seq, Ref, VecV, Interp, State
from ..models import Models
from ..terms import K, A, Poly
from ..prog import AnchorMissing


def exact():
    """weight of coefficient k (row v, column u of the frequency block) in sample (r, c)"""
    c = [math.sqrt(0.5)] + [1.0] * 7
    cs = [[math.cos((2 * x + 1) * u * math.pi / 16) for u in range(8)] for x in range(8)]
    return [[[0.25 * c[k % 8] * c[k // 8] * cs[col][k % 8] * cs[r][k // 8] for k in range(64)] for col in range(8)] for r in range(8)]


W = exact()


def qarray(p, ty):
    """type of the 64 quantization values behind a reference, None"""
    t = p.tys[ty]
    if t["k"] != "ref":
        return None
    path = []
    e = t["e"]
    for _ in range(4):
        t = p.tys[e]
        if t["k"] == "array":
            return path if t["len"] == 64 and p.tys[t["e"]]["k"] == "int" else None
        if t["k"] == "adt" and t["ak"] == "struct" and t["v"] and len(t["v"][0]["f"]) == 1:
            path.append(0)
            e = t["v"][0]["f"][0][1]
            continue
        return None
    return None


def transforms(p):
    """local functions used as function pointers: (&[i16], &[i32; 64], three numbers) -> Vec<i16>"""
    refd = set()
    for f in p.local_fns():
        if f.has_body():
            refd |= set(p.edges(f)[1])
    out = []
    for f in p.local_fns():
        if f.id not in refd or not f.has_body() or f.argc != 5:
            continue
        r = p.tys[f.locals[0]]
        s = p.tys[f.locals[1]]
        if r["k"] == "adt" and r["p"] == "std::vec::Vec" and s["k"] == "ref" and p.tys[s["e"]]["k"] == "slice" and \
                qarray(p, f.locals[2]) is not None and all(p.tys[f.locals[i]]["k"] == "int" for i in (3, 4, 5)):
            out.append(f)
    if not out:
        raise AnchorMissing("functions that dequantize and transform blocks")
    return out


class One:
    """a transform over n blocks; coef(b, k) -> (low, high) of a coefficient"""

    def __init__(self, p, f, blocks, stride, samp, vsamp, coef, qmax):
        self.I = I = Interp(p, Models(p))
        st = State()
        self.c, self.q, cv = {}, [], []
        for b in range(blocks):
            for k in range(64):
                lo, hi = coef(b, k)
                if lo == hi:
                    cv.append(K(lo))
                else:
                    l = T.leaf("c%d_%d" % (b, k), lo, hi)
                    self.c[l] = (b, k)
                    cv.append(A(l))
        for k in range(64):
            self.q.append(T.leaf("q%d" % k, 1, qmax))
        st.mem[("h", "c")] = Seq(cv, None)
        v = Arr([A(x) for x in self.q])
        path = qarray(p, f.locals[2])
        for _ in path:
            v = Agg([v])
        st.mem[("h", "q")] = v
        al = p.tys[p.tys[f.locals[2]]["e"]].get("align", 4)
        I.elemalign[(("h", "q"), tuple(path))] = al
        leaves = [l for l in self.c if self.c[l][1]]
        I.keyhook = lambda I, s: tuple(s.F.val(A(x)) for x in leaves)
        I.unroll = (10 ** 7, 10 ** 6)
        I.posmax = 256
        I.deadline = time.time() + 120
        self.stop = None
        try:
            self.rets = I.call(st, f, [Ref(("h", "c"), (), K(0), K(64 * blocks)), Ref(("h", "q")), K(stride), K(samp), K(vsamp)])
        except X.Stop as e:
            self.rets, self.stop = [], str(e)

    def samples(self, s, v):
        if not isinstance(v, VecV):
            return None
        b = s.mem.get(v.obj)
        n = s.F.val(v.len)
        if not isinstance(b, (Seq, Arr)) or n is None:
            return None
        e = list(b.e[:int(n)])
        while len(e) < n and isinstance(b, Seq) and isinstance(b.rest, Poly):
            e.append(b.rest)
        return e


def judge(o, s, x, b, r, c):
    """is x the sample (r, c) of block b?  (True | False | None, text)"""
    F = s.F
    try:
        q, lo, hi = pix.peel(F, x)
        co, k0, el, eh = pix.linear(F, q)
    except pix.NotLinear as e:
        return counter(o, F, x, b, r, c, str(e))
    for m, k in co.items():
        ls = sorted(m, key=lambda a: a.meta)
        ok = len(ls) == 2 and ls[0] in o.c and ls[1] in o.q
        if not ok:
            return counter(o, F, x, b, r, c, "depends on %s" % "*".join(a.meta for a in m))
        bb, kk = o.c[ls[0]]
        if bb != b:
            return False, "depends on coefficient %d of block %d" % (kk, bb)
        if o.q[kk] is not ls[1]:
            return False, "coefficient %d is multiplied with quantization value %d" % (kk, o.q.index(ls[1]))
    for l, (bb, kk) in o.c.items():
        if bb != b or F.val(A(l)) is not None:
            continue
        m = [v for ms, v in co.items() if l in ms]
        g = float(m[0]) if m else 0.0
        if abs(g - W[r][c][kk]) * 1024 > 0.25:
            return False, "weight of coefficient %d is %.5f, must be %.5f" % (kk, g, W[r][c][kk])
    if not (127 <= k0 + el and k0 + eh <= 129):
        if k0 + eh < 127 or k0 + el > 129 or abs(k0 + (el + eh) / 2 - 128) > 1:
            return False, "offset between %.3f and %.3f, must be 128" % (float(k0 + el), float(k0 + eh))
        return None, "rounding between %.3f and %.3f not bounded by one level" % (float(k0 + el), float(k0 + eh))
    l, h = F.prange(q)
    if lo < 0 or hi > 255:
        return False, "may be %s..%s" % (lo, hi)
    if lo > max(0, l) or hi < min(255, h):
        return False, "clamped to %s..%s" % (lo, hi)
    return True, ""


def counter(o, F, x, b, r, c, why):
    """an assignment for which the term is more than two levels off"""
    rnd = random.Random(7)
    for n in range(200):
        env = {}
        for l, (bb, kk) in o.c.items():
            v = F.val(A(l))
            lo, hi = F.arange(l)
            env[l] = int(v) if v is not None else rnd.choice([int(lo), int(hi), max(int(lo), min(int(hi), 0)), rnd.randint(int(lo), int(hi))]) if kk == 0 or rnd.random() < (0.1, 0.5)[n % 2] else int(max(lo, min(hi, 0)))
        for l in o.q:
            lo, hi = F.arange(l)
            env[l] = rnd.randint(int(lo), int(hi))
        if any(pix.evalp(f, dict(env)) is None or pix.evalp(f, dict(env)) < 0 for f in F.ge if f.leaves <= set(env)) or \
                any(pix.evalp(f, dict(env)) == 0 for f in F.ne if f.leaves <= set(env)):
            continue
        g = pix.evalp(x, dict(env))
        if g is None:
            return None, why
        w = 128 + sum(env[l] * env[o.q[kk]] * W[r][c][kk] for l, (bb, kk) in o.c.items() if bb == b)
        w = max(0, min(255, w))
        if abs(g - w) > 2.5:
            return False, "is %s where the transform gives %.2f (%s)" % (g, w, why[:80])
    return None, why


def anyc(lim):
    return lambda b, k: (-lim, lim)


def general(b, k):
    """blocks with something besides the DC coefficient"""
    return (1, 4) if k == 1 else (-4, 4)


def dconly(b, k):
    return (-4, 4) if k == 0 else (0, 0)


# name, blocks, stride, factors, vertical factor, coefficients, largest quantization value
RUNS = (("block", 1, 8, 1, 1, anyc(16), 64),
        ("large coefficients", 1, 8, 1, 1, anyc(500), 2),
        ("coarse quantization", 1, 8, 1, 1, anyc(4), 255),
        ("row of blocks", 3, 24, 1, 1, general, 4),
        ("row of flat blocks", 3, 24, 1, 1, dconly, 4),
        ("two rows", 4, 16, 2, 1, general, 4),
        ("two flat rows", 4, 16, 2, 1, dconly, 4),
        ("factors 2x2", 4, 16, 4, 2, general, 4))


def check(rep, tier):
    rep.rule = ("every function that may be used as inverse transform is interpreted over blocks of arbitrary coefficients and "
                "quantization values (vector registers lane by lane); each output sample must be, as a linear form over the products of "
                "coefficient and quantization value, the inverse DCT of its own block: every coefficient times the quantization value of "
                "its place, weights within 0.25/1024 of the exact ones, 128 plus rounding within one level, clamped to 0..255, at "
                "(row * stride + 8 * block + column) of its row of blocks")
    p = common.program()
    fs = transforms(p)
    n = st = 0
    for f in fs:
        nm = f.p.split("::")[-1]
        for name, blocks, stride, samp, vs, coef, qm in RUNS:
            o = One(p, f, blocks, stride, samp, vs, coef, qm)
            if o.stop or o.I.unknown:
                rep.undecided.append("%s, %s: %s" % (nm, name, o.stop or o.I.unknown))
                continue
            if not o.rets:
                rep.fail("returns:%s" % nm, "%s (%s) returns for no block: %s" % (f.n, name, [r[5] for r in o.I.rec if r[2] is False][:2]))
            for r in o.I.rec:
                if r[2] is False:
                    rep.undecided.append("%s, %s: may panic: %s %s" % (nm, name, r[1], r[5]))
            for s, v in o.rets:
                st += 1
                e = o.samples(s, v)
                if e is None:
                    rep.undecided.append("%s, %s: result not tracked" % (nm, name))
                    continue
                if len(e) != 64 * blocks:
                    rep.fail("length:%s" % nm, "%s returns %d samples for %d blocks" % (f.n, len(e), blocks))
                    continue
                per = stride // 8
                for b in range(blocks):
                    base = (b // per) * 8 * stride + (b % per) * 8
                    for r in range(8):
                        for c in range(8):
                            x = e[base + r * stride + c]
                            if not isinstance(x, Poly):
                                rep.undecided.append("%s, %s: sample not tracked" % (nm, name))
                                continue
                            n += 1
                            ok, why = judge(o, s, x, b, r, c)
                            if ok is None:
                                rep.undecided.append("%s, %s, block %d, row %d, column %d: %s" % (nm, name, b, r, c, why))
                            else:
                                rep.obligation(ok, "sample:%s" % nm, "%s (%s): sample in row %d, column %d of block %d: %s" % (
                                    f.n, name, r, c, b, why))
    rep.stats["transforms"] = [f.n for f in fs]
    rep.stats["states of the transforms"] = st
    rep.stats["samples judged"] = n
    rep.floor("inverse transforms found", len(fs), 1)
