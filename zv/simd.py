"""Vector registers: a register is a list of lanes, each a term; the
instructions are the documented lane-wise operations, shuffles move lanes, loads
and stores touch consecutive elements of the memory behind the pointer (which is
an obligation)."""
import re
from . import terms as T
from .terms import K, A, Poly, Cond
from .absint import Agg, Ref, Arr, Seq, VecV, Top, Reg, UNDEF, Loc


def lane_ty(I, t):
    """(signed, bits) of the lanes of a vector type, None for opaque registers"""
    if t["k"] != "adt":
        return None
    if t.get("ga") and t["p"].endswith("::Simd"):
        return I.ity(t["ga"][0])
    m = re.search(r"::([iu])(\d+)x\d+$", t["p"])
    return (m.group(1) == "i", int(m.group(2))) if m else None


def piece(p, w, j, v):
    """bits j*v .. of a value of w bits"""
    if p.isc():
        return K((p.c >> (j * v)) & ((1 << v) - 1))
    return A(T.app("lane", (p,), (w, j, v), 0, (1 << v) - 1))


def narrow(l, w, v):
    return [piece(p, w, j, v) for p in l for j in range(w // v)]


def regroup(l, v, w, strict=False):
    """lanes of v bits put together to lanes of w bits; None if strict and not a whole lane"""
    n = w // v
    out = []
    for i in range(0, len(l), n):
        g = l[i:i + n]
        if all(x.isc() for x in g):
            r = 0
            for j, x in enumerate(g):
                r |= (x.c & ((1 << v) - 1)) << (j * v)
            out.append(K(r - (1 << w) if r >> (w - 1) else r))
            continue
        a = g[0].atom()
        if a is not None and a.kind == "lane" and a.meta == (w, 0, v) and \
                all(g[j] == A(T.app("lane", a.args, (w, j, v), 0, (1 << v) - 1)) for j in range(1, n)):
            out.append(a.args[0])
            continue
        if strict:
            return None
        r = K(0)
        for j, x in enumerate(g):
            b = x.atom()
            if not (b is not None and b.kind == "lane"):
                x = A(T.app("wrap", (x,), (False, v), 0, (1 << v) - 1))
            r = T.add(r, T.scale(x, 1 << (j * v)))
        out.append(r)
    return out


def isconst(r):
    return all(x.isc() for x in r.l)


def towidth(r, v):
    if r.w == v:
        return list(r.l)
    return narrow(r.l, r.w, v) if r.w > v else regroup(list(r.l), r.w, v)


def lanes(I, st, r, ty):
    """lanes of a register as values of the lane type"""
    return [T.wrap(st.F, x, ty) for x in towidth(r, ty[1])]


def toreg(I, st, v, t=None):
    if isinstance(v, Top):
        v = I.mat(st, v)
    if isinstance(v, Reg):
        return v
    bits = t["size"] * 8 if t is not None else None
    while isinstance(v, Agg) and len(v.f) == 1 and not isinstance(v.f[0], Poly):
        v = v.f[0]
    es = v.f if isinstance(v, Agg) else v.e if isinstance(v, Arr) else None
    if es and bits and all(isinstance(x, Poly) for x in es) and bits % len(es) == 0:
        return Reg(bits // len(es), es)
    return None


def shuffle(a, b, idx, G):
    """the groups of G bits named by idx from the groups of a then b"""
    ws = [r.w for r in (a, b) if not isconst(r)] or [G]
    m = min(ws + [G])
    la, lb = towidth(a, m), towidth(b, m)
    n = G // m
    src = la + lb
    out = []
    for i in idx:
        out += src[i * n:(i + 1) * n]
    w = max(ws)
    if w > m:
        g = regroup(out, m, w, True)
        if g is not None:
            return Reg(w, g)
    return Reg(m, out)


def sat(F, x, lo, hi):
    return T.op2(F, "min", T.op2(F, "max", x, K(lo)), K(hi))


def pack(I, st, a, b, ity, lo, hi):
    x, y = lanes(I, st, a, ity), lanes(I, st, b, ity)
    n = 128 // ity[1]
    out = []
    for i in range(0, len(x), n):
        out += x[i:i + n] + y[i:i + n]
    return Reg(ity[1] // 2, [sat(st.F, v, lo, hi) for v in out])


def zero(F, x, out):
    """conditions that together say x == 0"""
    a = x.atom()
    if a is not None and a.kind == "or":
        for q in a.args:
            zero(F, q, out)
    elif a is not None and a.kind == "lane" and False:
        pass
    else:
        out.append(T.eq(x))


def install(m):
    def reg_cast(I, st, a, tty):
        t = I.tys[tty]
        if I.models.is_reg(t):
            return toreg(I, st, a, t)
        if isinstance(a, Reg) and t["k"] == "array":
            e = I.ity(t["e"])
            if e is not None:
                return Arr(lanes(I, st, a, e))
        if isinstance(a, (Reg, Arr)) and t["k"] == "adt" and t["ak"] == "union":
            return a
        return None
    m.reg_cast = reg_cast

    def idxs(v):
        """indices of a constant shuffle operand"""
        if isinstance(v, Poly):
            return [v]
        if isinstance(v, Arr):
            return list(v.e)
        if isinstance(v, Agg):
            return [y for x in v.f for y in idxs(x)]
        return []

    def simd_intr(I, st, c, args, dty, argtys):
        n = c["intr"]
        F = st.F
        t0 = I.tys[argtys[0]] if argtys and argtys[0] is not None else None
        lt = lane_ty(I, t0) if t0 is not None else None
        dt = I.tys[dty] if dty is not None else None
        if n == "simd_splat" and isinstance(args[0], Poly) and dt is not None:
            b = I.ity(argtys[0])[1]
            return Reg(b, [args[0]] * (dt["size"] * 8 // b))
        if t0 is None or not I.models.is_reg(t0):
            return None
        a = toreg(I, st, args[0], t0)
        if a is None:
            return None
        if n in ("simd_shuffle", "simd_shuffle_const_generic"):
            b = toreg(I, st, args[1], I.tys[argtys[1]])
            ix = [F.val(x) for x in idxs(args[2])]
            if b is None or lt is None or None in ix:
                return None
            return shuffle(a, b, [int(x) for x in ix], lt[1])
        if n in ("simd_insert", "simd_insert_dyn") and lt is not None and isinstance(args[2], Poly):
            i = F.val(args[1])
            if i is None:
                return None
            l = lanes(I, st, a, lt)
            l[int(i)] = args[2]
            return Reg(lt[1], l)
        if n in ("simd_extract", "simd_extract_dyn") and lt is not None:
            i = F.val(args[1])
            return None if i is None else lanes(I, st, a, lt)[int(i)]
        if n in ("simd_cast", "simd_as") and lt is not None and dt is not None:
            d = lane_ty(I, dt)
            return None if d is None else Reg(d[1], [T.wrap(F, x, d) for x in lanes(I, st, a, lt)])
        if n == "simd_neg" and lt is not None:
            return Reg(lt[1], [T.wrap(F, T.scale(x, -1), lt) for x in lanes(I, st, a, lt)])
        if n in ("simd_add", "simd_sub", "simd_mul", "simd_shl", "simd_shr", "simd_and", "simd_or", "simd_xor",
                 "simd_saturating_add", "simd_saturating_sub") and len(args) > 1:
            b = toreg(I, st, args[1], I.tys[argtys[1]])
            if b is None:
                return None
            if n in ("simd_and", "simd_or", "simd_xor"):
                # bitwise: the lane width does not matter
                ws = [r.w for r in (a, b) if not isconst(r)] or [a.w]
                w = min(ws)
                x, y = towidth(a, w), towidth(b, w)
                return Reg(w, [T.op2(F, n[5:], p, q) for p, q in zip(x, y)])
            if lt is None:
                return None
            x, y = lanes(I, st, a, lt), lanes(I, st, b, lt)
            if n in ("simd_shl", "simd_shr"):
                if not all(0 <= F.prange(q)[0] and F.prange(q)[1] < lt[1] for q in y):
                    return None
                return Reg(lt[1], [T.wrap(F, T.op2(F, n[5:], p, q), lt) for p, q in zip(x, y)])
            f = {"add": T.add, "sub": T.sub, "mul": T.mul}[n[-3:]]
            if "saturating" in n:
                lo, hi = T.trange(*lt)
                return Reg(lt[1], [sat(F, f(p, q), lo, hi) for p, q in zip(x, y)])
            return Reg(lt[1], [T.wrap(F, f(p, q), lt) for p, q in zip(x, y)])
        return None
    m.simd_intr = simd_intr

    def regargs(I, st, fn, args):
        return [toreg(I, st, a, I.tys[fn.locals[i + 1]] if fn.locals else None) for i, a in enumerate(args)]

    def minmax(which):
        def h(I, st, fn, args):
            t = I.tys[I.argtys[0]]
            lt = lane_ty(I, t)
            a, b = toreg(I, st, args[0], t), toreg(I, st, args[1], t)
            if a is None or b is None or lt is None:
                return None
            return [(st, Reg(lt[1], [T.op2(st.F, which, x, y) for x, y in
                                     zip(lanes(I, st, a, lt), lanes(I, st, b, lt))]))]
        return h
    m.tab["core::core_arch::simd::simd_imin"] = minmax("min")
    m.tab["core::core_arch::simd::simd_imax"] = minmax("max")

    def splat(I, st, fn, args):
        t = I.tys[fn.locals[0]]
        if not isinstance(args[0], Poly):
            return None
        b = I.ity(fn.locals[1])[1]
        return [(st, Reg(b, [args[0]] * (t["size"] * 8 // b)))]

    def new(I, st, fn, args):
        t = I.tys[fn.locals[0]]
        if not all(isinstance(a, Poly) for a in args):
            return None
        b = I.ity(fn.locals[1])[1]
        return [(st, Reg(b, args))]
    m.pats.append((re.compile(r"core_arch::simd::.*::splat$"), splat))
    m.pats.append((re.compile(r"core_arch::simd::.*::new$"), new))

    def packs(ity, lo, hi):
        def h(I, st, fn, args):
            a, b = (toreg(I, st, x, I.tys[I.argtys[0]]) for x in args[:2])
            if a is None or b is None:
                return None
            return [(st, pack(I, st, a, b, ity, lo, hi))]
        return h
    m.pats.append((re.compile(r"::packuswb(128|256)?$"), packs((True, 16), 0, 255)))
    m.pats.append((re.compile(r"::packsswb(128|256)?$"), packs((True, 16), -128, 127)))
    m.pats.append((re.compile(r"::packssdw(128|256)?$"), packs((True, 32), -32768, 32767)))
    m.pats.append((re.compile(r"::packusdw(128|256)?$"), packs((True, 32), 0, 65535)))

    def testz(I, st, fn, args):
        a, b = (toreg(I, st, x, I.tys[I.argtys[0]]) for x in args[:2])
        if a is None or b is None or a.w != b.w:
            return None
        cs = []
        for x, y in zip(a.l, b.l):
            z = T.op2(st.F, "and", x, y)
            zero(st.F, z, cs)
        c = T.TRUE
        for x in cs:
            c = T.conj(c, x)
        return [(st, I.toint(c))]
    m.pats.append((re.compile(r"::_mm(256)?_testz_si(128|256)$"), testz))

    # ---- memory
    def view(I, st, r):
        """(path of the collection, index, value) behind an element pointer"""
        path, i = I.elemidx(r)
        return path, i

    def width(I, st, r, default=8):
        w = I.elemw.get((r.obj, view(I, st, r)[0]))
        return w if w is not None else default

    def access(I, st, r, n, what, align=None):
        """obligation: n elements from r belong to the slice the pointer was taken from"""
        path, i = view(I, st, r)
        lim = r.lim
        if lim is None:
            I.obligation(st, "vector-" + what, False, "memory behind the pointer of a vector %s not tracked" % what,
                         frozenset([T.leaf("lim", 0, 0, True)]))
            return
        c = T.conj(T.ge(T.sub(i, lim[0])), T.ge(T.sub(lim[1], T.add(i, K(n)))))
        h = st.F.holds(c)
        I.obligation(st, "vector-" + what, h is True,
                     None if h is True else "vector %s of %d elements at %r of the slice [%r, %r)" % (what, n, i, lim[0], lim[1]),
                     T.cond_leaves(c))
        st.F.assume(c)
        if align:
            a = I.elemalign.get((r.obj, path))
            w = width(I, st, r) // 8
            off = T.scale(i, w)
            ok = a is not None and a % align == 0 and off.c % align == 0 and all(k % align == 0 for _, k in off.t)
            I.obligation(st, "vector-align", ok, None if ok else
                         "aligned vector %s at byte %r of memory aligned to %s" % (what, off, a), off.leaves)

    def load(I, st, r, bits, align=None):
        w = width(I, st, r)
        n = bits // w
        access(I, st, r, n, "load", align)
        path, i = view(I, st, r)
        l = []
        for j in range(n):
            v = I.read(st, Loc(r.obj, path + (("i", T.add(i, K(j))),)))
            l.append(v if isinstance(v, Poly) else I.freshr(*T.trange(True, w), "ld", True))
        return Reg(w, l)

    def store(I, st, r, v, align=None):
        path, i = view(I, st, r)
        w = width(I, st, r, v.w)
        ty = I.elemty.get((r.obj, path), (False, w))
        l = [T.wrap(st.F, x, ty) for x in towidth(v, w)]
        access(I, st, r, len(l), "store", align)
        for j, x in enumerate(l):
            I.write(st, Loc(r.obj, path + (("i", T.add(i, K(j))),)), x)

    def ptr(I, st, v):
        if isinstance(v, Top):
            v = I.mat(st, v)
        while isinstance(v, Agg) and v.f:
            v = v.f[0]
        return v if isinstance(v, Ref) else None

    def mkload(bits, align=None):
        def h(I, st, fn, args):
            r = ptr(I, st, args[0])
            if r is None:
                return None
            return [(st, load(I, st, r, bits, align))]
        return h

    def mkstore(bits, align=None):
        def h(I, st, fn, args):
            r = ptr(I, st, args[0])
            v = toreg(I, st, args[1], I.tys[I.argtys[1]])
            if r is None or v is None:
                return None
            store(I, st, r, v, align)
            return [(st, Agg(()))]
        return h
    for pre in ("std::arch::x86_64::", "core::core_arch::x86::"):
        for n, b, a in (("_mm256_loadu_si256", 256, None), ("_mm256_lddqu_si256", 256, None), ("_mm256_load_si256", 256, 32),
                        ("_mm_loadu_si128", 128, None), ("_mm_lddqu_si128", 128, None), ("_mm_load_si128", 128, 16)):
            m.tab[pre + n] = mkload(b, a)
        for n, b, a in (("_mm256_storeu_si256", 256, None), ("_mm256_store_si256", 256, 32), ("_mm256_stream_si256", 256, 32),
                        ("_mm_storeu_si128", 128, None), ("_mm_store_si128", 128, 16), ("_mm_stream_si128", 128, 16)):
            m.tab[pre + n] = mkstore(b, a)

        def loadl(I, st, fn, args):
            r = ptr(I, st, args[0])
            if r is None:
                return None
            x = load(I, st, r, 64)
            return [(st, Reg(x.w, list(x.l) + [K(0)] * len(x.l)))]
        m.tab[pre + "_mm_loadl_epi64"] = loadl

        def storel(I, st, fn, args):
            r = ptr(I, st, args[0])
            v = toreg(I, st, args[1], I.tys[I.argtys[1]])
            if r is None or v is None:
                return None
            store(I, st, r, Reg(v.w, v.l[:len(v.l) // 2]))
            return [(st, Agg(()))]
        m.tab[pre + "_mm_storel_epi64"] = storel

        def undefd(bits):
            def h(I, st, fn, args):
                return [(st, Reg(8, [I.freshr(0, 255, "undefined", True) for _ in range(bits // 8)]))]
            return h
        m.tab[pre + "_mm256_undefined_si256"] = undefd(256)
        m.tab[pre + "_mm_undefined_si128"] = undefd(128)

        def setzero(bits):
            def h(I, st, fn, args):
                return [(st, Reg(16, [K(0)] * (bits // 16)))]
            return h
        m.tab[pre + "_mm256_setzero_si256"] = setzero(256)
        m.tab[pre + "_mm_setzero_si128"] = setzero(128)
