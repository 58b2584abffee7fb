"""What the interpreter knows about functions it does not walk into: the parts
of the standard library that bottom out in raw pointers or the operating
system, formatting and logging, the thread pool, CPU detection, and vector
instructions (simd.py).  Each model is the documented behaviour of the
function; its panics are obligations."""
import re
from . import terms as T
from .terms import K, A, TRUE, FALSE, INF, Poly, Cond
from .absint import (Agg, En, Ref, Arr, Seq, Inp, VecV, Fnp, Top, Rng, Reg, UNDEF, Loc, POSMAX, leaves, LOOPS, addimp)

MAXLEN = (1 << 63) - 1


def variant(I, ty, name):
    for i, v in enumerate(I.tys[ty]["v"]):
        if v["n"] == name:
            return i
    raise KeyError(name)


def mk(I, st, ty, name, ops):
    t = I.tys[ty]
    i = variant(I, ty, name)
    ps = [None] * len(t["v"])
    ps[i] = Agg(ops)
    if I.hooks is not None:
        I.hooks.on_variant(I, st, ty, i, ops)
    return En(ty, K(i), ps)


def split(st, c):
    """(state where c, state where not c), None when infeasible"""
    h = st.F.holds(c)
    if h is True:
        return st, None
    if h is False:
        return None, st
    imp = any(l.imp for l in T.cond_leaves(c))
    if LOOPS and not imp and c.k in ("ge", "eq", "ne"):
        lo, hi = st.F.prange(c.a)
        if hi - lo <= 8:
            LOOPS[-1]["bounded"] = True
    s2 = st.copy()
    a = st if st.F.assume(c) else None
    b = s2 if s2.F.assume(T.neg(c)) else None
    if imp and a and b:
        tok = object()
        addimp(a, tok, 0, 2)
        addimp(b, tok, 1, 2)
    return a, b


def deref(I, st, v):
    """value behind a reference"""
    if isinstance(v, Top):
        v = I.mat(st, v)
    if isinstance(v, Ref):
        return I.read(st, Loc(v.obj, v.path, v.off, v.len))
    return UNDEF


def store(I, st, r, v):
    if isinstance(r, Ref):
        I.write(st, Loc(r.obj, r.path, r.off, r.len), v)


def need(I, st, c, kind, what):
    """obligation: c must hold; continues where it does"""
    h = st.F.holds(c)
    I.obligation(st, kind, h is True, None if h is True else "%s: %s" % (what, repr(c)[:300]), T.cond_leaves(c))
    return st.F.assume(c)


def elem(r, i):
    return Ref(r.obj, r.path + (("i", T.add(r.off, i)),))


def sub(r, a, n):
    return Ref(r.obj, r.path, T.add(r.off, a), n)


def asslice(I, st, v, ty=None):
    """slice reference for anything that derefs to one"""
    if isinstance(v, Top):
        v = I.mat(st, v)
    n = 0
    while isinstance(v, Ref) and v.len is None and n < 6:
        n += 1
        x = I.read(st, Loc(v.obj, v.path))
        if isinstance(x, VecV):
            return Ref(x.obj, (), K(0), x.len)
        if isinstance(x, Arr):
            return Ref(v.obj, v.path, K(0), K(len(x.e)))
        if isinstance(x, Seq):
            t = I.tys[ty] if ty is not None else None
            if t and t["k"] in ("ref", "ptr") and I.tys[t["e"]]["k"] == "array":
                return Ref(v.obj, v.path, K(0), K(I.tys[t["e"]]["len"]))
            return Ref(v.obj, v.path, K(0), I.freshr(0, MAXLEN, "len", True))
        if isinstance(x, Ref):
            v = x
            continue
        if isinstance(x, Agg) and x.f:
            v = Ref(v.obj, v.path + (0,))
            continue
        return None
    if isinstance(v, VecV):
        return Ref(v.obj, (), K(0), v.len)
    return v if isinstance(v, Ref) and v.len is not None else None


def clone(I, st, v):
    if isinstance(v, VecV):
        o = ("h", I.new())
        x = st.mem.get(v.obj, UNDEF)
        if isinstance(x, Seq):
            x = Seq([clone(I, st, e) for e in x.e], x.rest)
        elif isinstance(x, Arr):
            x = Arr([clone(I, st, e) for e in x.e])
        st.mem[o] = x
        return VecV(o, v.len, v.ety)
    if isinstance(v, Agg):
        return Agg([clone(I, st, x) for x in v.f])
    if isinstance(v, En):
        return En(v.ty, v.tag, [None if x is None else clone(I, st, x) for x in v.pay])
    if isinstance(v, Arr):
        return Arr([clone(I, st, x) for x in v.e])
    return v


def copy_elems(I, st, dst, src, n):
    """n elements from slice src to slice dst"""
    c = st.F.val(n)
    if c is not None and c <= I.posmax:
        vals = [I.read(st, Loc(src.obj, src.path + (("i", T.add(src.off, K(i))),))) for i in range(int(c))]
        for i, v in enumerate(vals):
            I.write(st, Loc(dst.obj, dst.path + (("i", T.add(dst.off, K(i))),)), v)
        return
    t = anyelem(I, st, src)
    smear(I, st, dst, t)


def anyelem(I, st, r):
    v = I.read(st, Loc(r.obj, r.path))
    if isinstance(v, Inp):
        return Rng(0, 255)
    if isinstance(v, (Arr, Seq)):
        return I.elem_any(st, v)
    return UNDEF


def smear(I, st, r, t):
    """unknown elements of slice r become t"""
    v = I.read(st, Loc(r.obj, r.path))
    if I.hooks is not None and not I.mute:
        I.hooks.on_write(I, st, r.obj, r.path + (("i", I.freshr(0, MAXLEN, "anyidx")),), I.inst(t))
    c, n = st.F.val(r.off), st.F.val(r.len)
    if isinstance(v, Arr):
        lo = c if c is not None else 0
        hi = lo + n if c is not None and n is not None else len(v.e)
        if n is None and c is not None:
            mx = st.F.prange(r.len)[1]
            hi = min(hi, c + mx) if mx < INF else hi
        es = list(v.e)
        for i in range(int(lo), int(min(hi, len(es)))):
            es[i] = I.inst(t) if n is not None and c is not None else I.inst(I.tjoin(I.template(es[i], st.F), t))
        I.write_raw(st, Loc(r.obj, r.path), Arr(es))
    elif isinstance(v, Seq):
        rest = t if v.rest is None else I.tjoin(v.rest, t)
        I.write_raw(st, Loc(r.obj, r.path),
                    Seq([I.inst(I.tjoin(I.template(x, st.F), t)) for x in v.e], rest))


def outb(I, fn):
    """declared result type"""
    if fn.locals:
        return fn.locals[0]
    return I.rty


class Models:
    def __init__(self, prog):
        self.p = prog
        self.tab = {}
        self.stubs = {}          # fn id -> handler
        self.pats = []
        self.cache = {}
        self.build()
        try:
            from . import simd
            simd.install(self)
        except ImportError:
            pass

    # ---- vector types
    def is_reg(self, t):
        return t["k"] == "adt" and (t["p"].endswith(("__m256i", "__m128i")) or "core_arch::simd" in t["p"]
                                    or re.search(r"::(m256i|m128i|[iu]\d+x\d+)$", t["p"]) is not None)

    def reg_bits(self, t):
        return t["size"] * 8

    def reg_top(self, I, t, imp):
        n = t["size"]
        return Reg(8, [I.freshr(0, 255, "lane", imp) for _ in range(n)])

    def reg_cast(self, I, st, a, tty):
        return a if isinstance(a, Reg) else None

    # ---- dispatch
    def lookup(self, fn):
        h = self.stubs.get(fn.id)
        if h is not None:
            return h
        if fn.id in self.cache:
            return self.cache[fn.id]
        h = None
        if not fn.local:
            h = self.tab.get(fn.p)
            if h is None:
                for rx, x in self.pats:
                    if rx.search(fn.p):
                        h = x
                        break
        self.cache[fn.id] = h
        return h

    def stub(self, fn, h):
        self.stubs[fn.id] = h

    def fnptr(self, I, st, f, args):
        return None

    def copy_nonoverlapping(self, I, st, src, dst, n):
        if isinstance(src, Ref) and isinstance(dst, Ref) and isinstance(n, Poly):
            a, b = I.fat(st, src, n), I.fat(st, dst, n)
            copy_elems(I, st, b, a, n)
            return
        for x in (dst,):
            I.havoc_reach(st, x, set())

    # ---- intrinsics
    def intrinsic(self, I, st, c, args, dty, argtys):
        n = c["intr"]
        F = st.F

        def ret(v):
            return [(st, v)]
        if n in ("cold_path", "assert_inhabited", "assert_zero_valid", "assume", "assert_mem_uninitialized_valid"):
            if n == "assume" and not F.assume(I.tobool(args[0])):
                return []
            return ret(Agg(()))
        if n in ("likely", "unlikely", "black_box"):
            return ret(args[0])
        ity = I.ity(argtys[0]) if argtys and argtys[0] is not None else None
        ints = all(isinstance(a, Poly) for a in args) and args
        if n in ("integer_min", "integer_max") and ints:
            return ret(T.op2(F, n[-3:], args[0], args[1]))
        if n in ("ctpop", "ctlz", "cttz", "ctlz_nonzero", "cttz_nonzero") and ints:
            k = n[:5] if n != "ctpop" else n
            k = {"ctlz_": "ctlz", "cttz_": "cttz"}.get(k, k)
            if args[0].isc():
                return ret(K(T.conc(k, ity[1], [args[0].c])))
            return ret(A(T.app(k, (args[0],), None if k == "ctpop" else ity[1], 0, ity[1])))
        if n in ("bswap",) and ints:
            x = args[0]
            if x.isc():
                return ret(K(T.conc("bswap", ity[1], [x.c])))
            # sum of shifted bytes
            nb = ity[1] // 8
            parts = [None] * nb
            ok = x.c == 0
            for m, k in x.t:
                if k & (k - 1) or k <= 0 or (k.bit_length() - 1) % 8 or len(m) != 1:
                    ok = False
                    break
                sh = (k.bit_length() - 1) // 8
                lo, hi = F.arange(m[0])
                if not (0 <= lo and hi <= 255) or sh >= nb or parts[sh] is not None:
                    ok = False
                    break
                parts[sh] = A(m[0])
            if ok:
                r = K(0)
                for i, q in enumerate(parts):
                    if q is not None:
                        r = T.add(r, T.scale(q, 1 << (8 * (nb - 1 - i))))
                return ret(r)
            return ret(A(T.app("bswap", (x,), ity[1], 0, (1 << ity[1]) - 1)))
        if n in ("rotate_left", "rotate_right") and ints:
            q = args[1] if n == "rotate_left" else T.sub(K(ity[1]), args[1])
            if args[0].isc() and q.isc():
                return ret(K(T.conc("rotl", ity[1], [args[0].c, q.c])))
            return ret(A(T.app("rotl", (args[0], q), ity[1], 0, (1 << ity[1]) - 1)))
        if n in ("saturating_sub", "saturating_add") and ints:
            lo, hi = T.trange(*ity)
            r = T.sub(args[0], args[1]) if n.endswith("sub") else T.add(args[0], args[1])
            if n.endswith("sub") and ity[0] is False:
                return ret(T.op2(F, "max", r, K(0)))
            return ret(T.op2(F, "min", T.op2(F, "max", r, K(lo)), K(hi)))
        if n in ("wrapping_add", "wrapping_sub", "wrapping_mul") and ints:
            r = {"add": T.add, "sub": T.sub, "mul": T.mul}[n[-3:]](args[0], args[1])
            return ret(T.wrap(F, r, ity))
        if n in ("unchecked_add", "unchecked_sub", "unchecked_mul") and ints:
            return ret({"add": T.add, "sub": T.sub, "mul": T.mul}[n[-3:]](args[0], args[1]))
        if n in ("ptr_offset_from_unsigned", "ptr_offset_from"):
            a, b = args
            if isinstance(a, Ref) and isinstance(b, Ref) and a.obj == b.obj:
                x, y = I.elemidx(a), I.elemidx(b)
                if x[0] == y[0]:
                    d = T.sub(x[1], y[1])
                    if n.endswith("unsigned"):
                        if not F.assume(T.ge(d)):
                            return []
                    return ret(d)
            return ret(I.freshr(0 if n.endswith("unsigned") else -MAXLEN, MAXLEN, "dist", True))
        if n == "raw_eq":
            a, b = deref(I, st, args[0]), deref(I, st, args[1])
            return ret(eqval(I, a, b))
        if n in ("size_of", "min_align_of", "align_of", "size_of_val"):
            return ret(I.fresh(dty, n, True))
        if n in ("abort", "abort_immediate", "unreachable"):
            if n != "unreachable":
                I.obligation(st, "panic", False, "abort")
            return []
        if n == "write_bytes":
            r = args[0]
            if isinstance(r, Ref) and len(args) > 2 and isinstance(args[2], Poly):
                sl = I.fat(st, r, args[2])
                v = I.read(st, Loc(sl.obj, sl.path))
                if isinstance(v, Seq):
                    I.write_raw(st, Loc(sl.obj, sl.path), Seq((), Rng(0, 255, True) if not (isinstance(args[1], Poly) and args[1].isc() and args[1].c == 0) else K(0)))
                    return ret(Agg(()))
            I.havoc_reach(st, r, set())
            return ret(Agg(()))
        h = getattr(self, "simd_intr", None)
        if h is not None and n.startswith("simd_"):
            r = h(I, st, c, args, dty, argtys)
            if r is not None:
                return ret(r)
        I.unknown["intrinsic " + n] = I.unknown.get("intrinsic " + n, 0) + 1
        for a in args:
            I.havoc_reach(st, a, set())
        if dty is not None and I.tys[dty]["k"] == "never":
            return []
        return ret(Top(dty, True) if dty is not None else UNDEF)

    # ---- the table
    def build(self):
        t = self.tab

        def add(*names):
            def d(h):
                for n in names:
                    t[n] = h
                return h
            return d

        def pat(*rs):
            def d(h):
                for r in rs:
                    self.pats.append((re.compile(r), h))
                return h
            return d

        @add("std::num::NonZero::<T>::new")
        def nonzero_new(I, st, fn, args):
            a = args[0]
            if not isinstance(a, Poly):
                return None
            ty = fn.locals[0]
            out = []
            x, y = split(st, T.eq(a))
            if x is not None:
                out.append((x, mk(I, x, ty, "None", [])))
            if y is not None:
                out.append((y, mk(I, y, ty, "Some", [I.transmute(y, a, None, I.tys[ty]["ga"][0])])))
            return out

        # ---- Vec
        @add("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity")
        def vec_new(I, st, fn, args):
            ety = fn.ga[0]
            o = ("h", I.new())
            st.mem[o] = Seq((), None)
            return [(st, VecV(o, K(0), ety))]

        def vec(I, st, r):
            if isinstance(r, Top):
                r = I.mat(st, r)
            if isinstance(r, Ref):
                v = I.read(st, Loc(r.obj, r.path))
                n = 0
                while isinstance(v, Ref) and n < 4:
                    r, v, n = v, I.read(st, Loc(v.obj, v.path)), n + 1
                if isinstance(v, VecV):
                    return r, v
            return None, None

        @add("std::vec::Vec::<T, A>::push", "std::vec::Vec::<T, A>::push_mut")
        def push(I, st, fn, args):
            r, v = vec(I, st, args[0])
            if v is None:
                return None
            b = st.mem.get(v.obj, UNDEF)
            c = st.F.val(v.len)
            if isinstance(b, Seq):
                if c is not None and c == len(b.e) and c < 16:
                    b = Seq(b.e + (args[1],), b.rest)
                else:
                    x = I.template(args[1], st.F)
                    lo, hi = st.F.prange(v.len)
                    es = list(b.e)
                    for i in range(len(es)):
                        if lo <= i <= hi:
                            es[i] = I.vjoin_same(st, es[i], args[1])
                    b = Seq(es, x if b.rest is None else I.tjoin(b.rest, x))
                st.mem[v.obj] = b
            n = v.len
            if I.hooks is not None and not I.mute:
                I.hooks.on_write(I, st, v.obj, (("i", n),), args[1])
            I.write(st, Loc(r.obj, r.path), VecV(v.obj, T.add(v.len, K(1)), v.ety))
            rt = outb(I, fn)
            if fn.p.endswith("push_mut"):
                return [(st, Ref(v.obj, (("i", n),)))]
            return [(st, Agg(()))]

        @add("std::vec::Vec::<T, A>::len")
        def vlen(I, st, fn, args):
            r, v = vec(I, st, args[0])
            return None if v is None else [(st, v.len)]

        @add("std::vec::Vec::<T, A>::is_empty")
        def vempty(I, st, fn, args):
            r, v = vec(I, st, args[0])
            return None if v is None else [(st, T.eq(v.len))]

        @add("std::vec::Vec::<T, A>::clear")
        def vclear(I, st, fn, args):
            r, v = vec(I, st, args[0])
            if v is None:
                return None
            st.mem[v.obj] = Seq((), None)
            I.write(st, Loc(r.obj, r.path), VecV(v.obj, K(0), v.ety))
            return [(st, Agg(()))]

        @add("std::vec::Vec::<T, A>::reserve", "std::vec::Vec::<T, A>::shrink_to_fit", "std::vec::Vec::<T, A>::reserve_exact")
        def vres(I, st, fn, args):
            return [(st, Agg(()))]

        @add("std::vec::Vec::<T, A>::truncate")
        def vtrunc(I, st, fn, args):
            r, v = vec(I, st, args[0])
            if v is None or not isinstance(args[1], Poly):
                return None
            out = []
            a, b = split(st, T.ge(T.sub(v.len, args[1])))
            if a is not None:
                I.write(a, Loc(r.obj, r.path), VecV(v.obj, args[1], v.ety))
                out.append((a, Agg(())))
            if b is not None:
                out.append((b, Agg(())))
            return out

        @add("std::vec::Vec::<T, A>::resize")
        def vresize(I, st, fn, args):
            r, v = vec(I, st, args[0])
            if v is None:
                return None
            b = st.mem.get(v.obj)
            x = I.template(args[2], st.F)
            if isinstance(b, Seq):
                st.mem[v.obj] = Seq(b.e, x if b.rest is None else I.tjoin(b.rest, x))
            I.write(st, Loc(r.obj, r.path), VecV(v.obj, args[1], v.ety))
            return [(st, Agg(()))]

        @add("std::vec::Vec::<T, A>::extend_from_slice")
        def vext(I, st, fn, args):
            r, v = vec(I, st, args[0])
            s = asslice(I, st, args[1])
            if v is None or s is None:
                return None
            x = anyelem(I, st, s)
            b = st.mem.get(v.obj)
            if isinstance(b, Seq):
                st.mem[v.obj] = Seq(b.e, x if b.rest is None else I.tjoin(b.rest, x))
            I.write(st, Loc(r.obj, r.path), VecV(v.obj, T.add(v.len, s.len), v.ety))
            return [(st, Agg(()))]

        @add("<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut",
             "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref", "std::vec::Vec::<T, A>::as_slice",
             "std::vec::Vec::<T, A>::as_mut_slice", "<std::vec::Vec<T, A> as std::convert::AsMut<[T]>>::as_mut",
             "<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow")
        def vderef(I, st, fn, args):
            r, v = vec(I, st, args[0])
            return None if v is None else [(st, Ref(v.obj, (), K(0), v.len))]

        @add("std::vec::Vec::<T, A>::as_ptr", "std::vec::Vec::<T, A>::as_mut_ptr")
        def vptr(I, st, fn, args):
            r, v = vec(I, st, args[0])
            return None if v is None else [(st, Ref(v.obj, (("i", K(0)),), lim=(K(0), v.len)))]

        @add("<std::vec::Vec<T, A> as std::clone::Clone>::clone")
        def vclone(I, st, fn, args):
            r, v = vec(I, st, args[0])
            return None if v is None else [(st, clone(I, st, v))]

        @add("std::vec::from_elem")
        def from_elem(I, st, fn, args):
            n = args[1]
            if not isinstance(n, Poly):
                return None
            c = st.F.val(n)
            o = ("h", I.new())
            if c is not None and c <= I.posmax and isinstance(args[0], Poly):
                st.mem[o] = Seq([args[0]] * int(c), None)
            else:
                st.mem[o] = Seq((), I.template(args[0], st.F))
            return [(st, VecV(o, n, fn.ga[0]))]

        @add("std::slice::<impl [T]>::to_vec", "<T as std::slice::<impl [T]>::to_vec_in::ConvertVec>::to_vec",
             "std::slice::<impl [T]>::into_vec")
        def to_vec(I, st, fn, args):
            s = asslice(I, st, args[0])
            if s is None:
                return None
            o = ("h", I.new())
            v = I.read(st, Loc(s.obj, s.path))
            c = st.F.val(s.len)
            if isinstance(v, Inp) and s.off == K(0):
                st.mem[o] = v
            elif c is not None and c <= I.posmax:
                st.mem[o] = Seq([clone(I, st, I.read(st, Loc(s.obj, s.path + (("i", T.add(s.off, K(i))),)))) for i in range(int(c))], None)
            else:
                st.mem[o] = Seq((), anyelem(I, st, s))
            return [(st, VecV(o, s.len, fn.ga[0]))]

        # ---- indexing
        def bounds(I, st, ix, ity, ln):
            """(start, length, condition) of an index value of type ity"""
            n = I.tys[ity]["p"] if I.tys[ity]["k"] == "adt" else I.tys[ity]["k"]
            if n == "int":
                return ix, None, T.lt(ix, ln)
            if isinstance(ix, Top):
                ix = I.mat(st, ix)
            f = ix.f if isinstance(ix, Agg) else ()
            n = n.split("::")[-1]
            if n == "Range":
                a, b = f[0], f[1]
                return a, T.sub(b, a), T.conj(T.le(a, b), T.le(b, ln))
            if n == "RangeTo":
                return K(0), f[0], T.le(f[0], ln)
            if n == "RangeFrom":
                return f[0], T.sub(ln, f[0]), T.le(f[0], ln)
            if n == "RangeFull":
                return K(0), ln, TRUE
            if n == "RangeInclusive":
                a, b = f[0], T.add(f[1], K(1))
                return a, T.sub(b, a), T.conj(T.le(a, b), T.le(b, ln))
            if n == "RangeToInclusive":
                b = T.add(f[0], K(1))
                return K(0), b, T.le(b, ln)
            return None

        def idx_of(I, st, fn, args):
            """(slice, start, len, cond) for (collection, index) arguments"""
            s = asslice(I, st, args[0], fn.locals[1] if fn.locals else None)
            if s is None:
                return None
            ity = fn.locals[2] if fn.locals else I.argtys[1]
            try:
                b = bounds(I, st, args[1], ity, s.len)
            except (IndexError, AttributeError, TypeError):
                return None
            if b is None or not isinstance(b[0], Poly):
                return None
            return s, b[0], b[1], b[2]

        def si_of(I, st, fn, args):
            """same for SliceIndex methods: (index, slice)"""
            s = asslice(I, st, args[1])
            if s is None:
                return None
            ity = fn.locals[1]
            try:
                b = bounds(I, st, args[0], ity, s.len)
            except (IndexError, AttributeError, TypeError):
                return None
            if b is None or not isinstance(b[0], Poly):
                return None
            return s, b[0], b[1], b[2]

        def part(s, a, n):
            return elem(s, a) if n is None else sub(s, a, n)

        def do_index(I, st, q):
            s, a, n, c = q
            if not need(I, st, c, "index", "index %r of %r elements" % (a, s.len)):
                return []
            return [(st, part(s, a, n))]

        def do_get(I, st, q, ty):
            s, a, n, c = q
            x, y = split(st, c)
            out = []
            if x is not None:
                out.append((x, mk(I, x, ty, "Some", [part(s, a, n)])))
            if y is not None:
                out.append((y, mk(I, y, ty, "None", [])))
            return out

        def do_unchecked(I, st, q):
            s, a, n, c = q
            h = st.F.holds(c)
            I.obligation(st, "unchecked", h is True, None if h else "unchecked index %r of %r elements" % (a, s.len),
                         T.cond_leaves(c))
            st.F.assume(c)
            return [(st, part(s, a, n))]

        @add("<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut",
             "core::slice::index::<impl std::ops::Index<I> for [T]>::index",
             "core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut",
             "std::array::<impl std::ops::Index<I> for [T; N]>::index",
             "std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut")
        def index(I, st, fn, args):
            q = idx_of(I, st, fn, args)
            return None if q is None else do_index(I, st, q)

        @pat(r"as std::slice::SliceIndex<\[T\]>>::(index|index_mut)$")
        def sindex(I, st, fn, args):
            q = si_of(I, st, fn, args)
            return None if q is None else do_index(I, st, q)

        @add("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
        def get(I, st, fn, args):
            q = idx_of(I, st, fn, args)
            return None if q is None else do_get(I, st, q, fn.locals[0])

        @pat(r"as std::slice::SliceIndex<\[T\]>>::(get|get_mut)$")
        def sget(I, st, fn, args):
            q = si_of(I, st, fn, args)
            return None if q is None else do_get(I, st, q, fn.locals[0])

        @add("core::slice::<impl [T]>::get_unchecked", "core::slice::<impl [T]>::get_unchecked_mut")
        def getu(I, st, fn, args):
            q = idx_of(I, st, fn, args)
            return None if q is None else do_unchecked(I, st, q)

        @pat(r"as std::slice::SliceIndex<\[T\]>>::(get_unchecked|get_unchecked_mut)$")
        def sgetu(I, st, fn, args):
            q = si_of(I, st, fn, args)
            return None if q is None else do_unchecked(I, st, q)

        @add("core::slice::<impl [T]>::len")
        def slen(I, st, fn, args):
            s = asslice(I, st, args[0])
            return None if s is None else [(st, s.len)]

        @add("core::slice::<impl [T]>::is_empty")
        def sempty(I, st, fn, args):
            s = asslice(I, st, args[0])
            return None if s is None else [(st, T.eq(s.len))]

        @add("core::slice::<impl [T]>::as_ptr", "core::slice::<impl [T]>::as_mut_ptr")
        def sptr(I, st, fn, args):
            s = asslice(I, st, args[0])
            return None if s is None else [(st, Ref(s.obj, s.path + (("i", s.off),), lim=(s.off, T.add(s.off, s.len))))]

        @add("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last",
             "core::slice::<impl [T]>::first_mut", "core::slice::<impl [T]>::last_mut")
        def slast(I, st, fn, args):
            s = asslice(I, st, args[0])
            if s is None:
                return None
            i = K(0) if "first" in fn.p.rsplit("::", 1)[1] else T.sub(s.len, K(1))
            return do_get(I, st, (s, i, None, T.ge(T.sub(s.len, K(1)))), fn.locals[0])

        @add("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut",
             "core::slice::<impl [T]>::split_at_unchecked", "core::slice::<impl [T]>::split_at_mut_unchecked")
        def split_at(I, st, fn, args):
            s = asslice(I, st, args[0])
            if s is None or not isinstance(args[1], Poly):
                return None
            n = args[1]
            if not need(I, st, T.le(n, s.len), "unchecked" if "unchecked" in fn.p else "index",
                        "split at %r of %r elements" % (n, s.len)):
                return []
            return [(st, Agg([sub(s, K(0), n), sub(s, n, T.sub(s.len, n))]))]

        @add("core::slice::<impl [T]>::copy_from_slice", "core::slice::copy_from_slice_impl",
             "core::slice::<impl [T]>::clone_from_slice")
        def cfs(I, st, fn, args):
            d, s = asslice(I, st, args[0]), asslice(I, st, args[1])
            if d is None or s is None:
                return None
            if not need(I, st, T.eq(T.sub(d.len, s.len)), "copy_from_slice", "lengths %r and %r" % (d.len, s.len)):
                return []
            copy_elems(I, st, d, s, d.len)
            return [(st, Agg(()))]

        @add("core::slice::<impl [T]>::fill")
        def fill(I, st, fn, args):
            d = asslice(I, st, args[0])
            if d is None:
                return None
            c = st.F.val(d.len)
            if c is not None and c <= I.posmax:
                for i in range(int(c)):
                    I.write(st, Loc(d.obj, d.path + (("i", T.add(d.off, K(i))),)), args[1])
            else:
                smear(I, st, d, I.template(args[1], st.F))
            return [(st, Agg(()))]

        @add("std::slice::from_raw_parts", "std::slice::from_raw_parts_mut", "std::ptr::slice_from_raw_parts",
             "std::ptr::slice_from_raw_parts_mut")
        def frp(I, st, fn, args):
            if isinstance(args[0], Ref) and isinstance(args[1], Poly):
                return [(st, I.fat(st, args[0], args[1]))]
            return None

        # ---- slice iterators: {ptr, end, marker}
        @add("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "std::slice::Iter::<'a, T>::new",
             "std::slice::IterMut::<'a, T>::new",
             "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
             "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
        def it(I, st, fn, args):
            s = asslice(I, st, args[0], fn.locals[1] if fn.locals else None)
            if s is None:
                return None
            return [(st, mkiter(s))]

        @pat(r"IntoIterator for &'a (mut )?\[T(; N)?\]>::into_iter$", r"<&'a (mut )?\[T(; N)?\] as std::iter::IntoIterator>::into_iter$")
        def it2(I, st, fn, args):
            return it(I, st, fn, args)

        def mkiter(s):
            return Agg([Agg([elem(s, K(0))]), elem(s, s.len), Agg(())])

        def iterparts(I, st, r):
            v = deref(I, st, r)
            if isinstance(v, Agg) and len(v.f) >= 2:
                a, b = v.f[0], v.f[1]
                while isinstance(a, Agg) and a.f:
                    a = a.f[0]
                while isinstance(b, Agg) and b.f:
                    b = b.f[0]
                if isinstance(a, Ref) and isinstance(b, Ref) and a.obj == b.obj:
                    x, y = I.elemidx(a), I.elemidx(b)
                    if x[0] == y[0]:
                        return a.obj, x[0], x[1], y[1]
            return None

        def setiter(I, st, r, obj, path, a, b):
            store(I, st, r, Agg([Agg([Ref(obj, path + (("i", a),))]), Ref(obj, path + (("i", b),)), Agg(())]))

        @add("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next")
        def inext(I, st, fn, args):
            q = iterparts(I, st, args[0])
            if q is None:
                return None
            obj, path, a, b = q
            st.F.assume(T.ge(T.sub(b, a)))       # invariant of the iterator
            x, y = split(st, T.ge(T.sub(T.sub(b, a), K(1))))
            ty = fn.locals[0]
            out = []
            if x is not None:
                setiter(I, x, args[0], obj, path, T.add(a, K(1)), b)
                out.append((x, mk(I, x, ty, "Some", [Ref(obj, path + (("i", a),))])))
            if y is not None:
                y.F.assume(T.eq(T.sub(b, a)))
                out.append((y, mk(I, y, ty, "None", [])))
            return out

        @pat(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::DoubleEndedIterator>::next_back$")
        def inextb(I, st, fn, args):
            q = iterparts(I, st, args[0])
            if q is None:
                return None
            obj, path, a, b = q
            st.F.assume(T.ge(T.sub(b, a)))
            x, y = split(st, T.ge(T.sub(T.sub(b, a), K(1))))
            ty = fn.locals[0]
            out = []
            if x is not None:
                setiter(I, x, args[0], obj, path, a, T.sub(b, K(1)))
                out.append((x, mk(I, x, ty, "Some", [Ref(obj, path + (("i", T.sub(b, K(1))),))])))
            if y is not None:
                out.append((y, mk(I, y, ty, "None", [])))
            return out

        @pat(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::size_hint$")
        def ihint(I, st, fn, args):
            q = iterparts(I, st, args[0])
            if q is None:
                return None
            obj, path, a, b = q
            st.F.assume(T.ge(T.sub(b, a)))
            n = T.sub(b, a)
            t = I.tys[fn.locals[0]]
            return [(st, Agg([n, mk(I, st, t["f"][1], "Some", [n])]))]

        @pat(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::__iterator_get_unchecked$")
        def iget(I, st, fn, args):
            q = iterparts(I, st, args[0])
            if q is None or not isinstance(args[1], Poly):
                return None
            obj, path, a, b = q
            return [(st, Ref(obj, path + (("i", T.add(a, args[1])),)))]

        # ---- arrays
        @add("std::array::<impl std::clone::Clone for [T; N]>::clone", "<T as std::array::SpecArrayClone>::clone")
        def aclone(I, st, fn, args):
            v = deref(I, st, args[0])
            return [(st, clone(I, st, v))]

        @pat(r"std::array::<impl std::convert::TryFrom<&'a (mut )?\[T\]> for &'a (mut )?\[T; N\]>::try_from$")
        def tryarr(I, st, fn, args):
            s = asslice(I, st, args[0])
            if s is None:
                return None
            ty = fn.locals[0]
            n = I.tys[I.tys[I.tys[ty]["ga"][0]]["e"]]["len"]
            x, y = split(st, T.eq(T.sub(s.len, K(n))))
            out = []
            if x is not None:
                out.append((x, mk(I, x, ty, "Ok", [Ref(s.obj, s.path, s.off, K(n))])))
            if y is not None:
                out.append((y, mk(I, y, ty, "Err", [Agg([Agg(())])])))
            return out

        @pat(r"std::array::<impl std::convert::TryFrom<&\[T\]> for \[T; N\]>::try_from$")
        def tryarr2(I, st, fn, args):
            s = asslice(I, st, args[0])
            if s is None:
                return None
            ty = fn.locals[0]
            n = I.tys[I.tys[ty]["ga"][0]]["len"]
            x, y = split(st, T.eq(T.sub(s.len, K(n))))
            out = []
            if x is not None:
                out.append((x, mk(I, x, ty, "Ok", [I.read(x, Loc(s.obj, s.path, s.off, K(n)))])))
            if y is not None:
                out.append((y, mk(I, y, ty, "Err", [Agg([Agg(())])])))
            return out

        # ---- Cursor and readers
        def cursor(I, st, r):
            """(ref to the cursor, slice, position)"""
            v = deref(I, st, r)
            n = 0
            while isinstance(v, Ref) and n < 5:
                r, n = v, n + 1
                v = deref(I, st, r)
            if not (isinstance(v, Agg) and len(v.f) >= 2 and isinstance(v.f[1], Poly)):
                return None
            s = asslice(I, st, v.f[0])
            if s is None and isinstance(v.f[0], Ref):
                s = asslice(I, st, Ref(r.obj, r.path + (0,)))
            if s is None:
                return None
            return r, s, v.f[1]

        def setpos(I, st, r, p):
            I.write(st, Loc(r.obj, r.path + (1,)), p)

        @pat(r"std::io::Read for std::io::Cursor<T>>::read_exact$")
        def read_exact(I, st, fn, args):
            q = cursor(I, st, args[0])
            d = asslice(I, st, args[1])
            if q is None or d is None:
                return None
            r, s, pos = q
            ty = fn.locals[0]
            n = d.len
            x, y = split(st, T.ge(T.sub(T.sub(s.len, pos), n)))
            out = []
            if x is not None:
                copy_elems(I, x, d, sub(s, pos, n), n)
                setpos(I, x, r, T.add(pos, n))
                out.append((x, mk(I, x, ty, "Ok", [Agg(())])))
            if y is not None:
                setpos(I, y, r, s.len)
                out.append((y, mk(I, y, ty, "Err", [Top(I.tys[ty]["ga"][1])])))
            return out

        @pat(r"std::io::Read for std::io::Cursor<T>>::read$")
        def read(I, st, fn, args):
            q = cursor(I, st, args[0])
            d = asslice(I, st, args[1])
            if q is None or d is None:
                return None
            r, s, pos = q
            ty = fn.locals[0]
            n = d.len
            x, y = split(st, T.ge(T.sub(T.sub(s.len, pos), n)))
            out = []
            if x is not None:
                copy_elems(I, x, d, sub(s, pos, n), n)
                setpos(I, x, r, T.add(pos, n))
                out.append((x, mk(I, x, ty, "Ok", [n])))
            if y is not None:
                a, b = split(y, T.ge(T.sub(pos, s.len)))
                if a is not None:
                    out.append((a, mk(I, a, ty, "Ok", [K(0)])))
                if b is not None:
                    k = T.sub(s.len, pos)
                    smear(I, b, d, Rng(0, 255))
                    setpos(I, b, r, s.len)
                    out.append((b, mk(I, b, ty, "Ok", [k])))
            return out

        @pat(r"std::io::BufRead for std::io::Cursor<T>>::consume$")
        def consume(I, st, fn, args):
            q = cursor(I, st, args[0])
            if q is None or not isinstance(args[1], Poly):
                return None
            r, s, pos = q
            p = T.add(pos, args[1])
            st.F.assume(T.ge(T.sub(K(MAXLEN), p)))
            setpos(I, st, r, p)
            return [(st, Agg(()))]

        @add("std::io::Cursor::<T>::position")
        def position(I, st, fn, args):
            q = cursor(I, st, args[0])
            return None if q is None else [(st, q[2])]

        # ---- formatting, logging, CPU detection
        @pat(r"^(std|core|alloc)::fmt::", r"^log::", r"string::ToString>::to_string$", r"^<str as ", r"SpecToString>",
             r"^std::string::", r"<std::string::String as ", r"std::fmt::(Display|Debug)>::fmt$", r"std::panic::Location")
        def fmt(I, st, fn, args):
            rt = outb(I, fn)
            if rt is not None and I.tys[rt]["k"] == "never":
                return []
            return [(st, Top(rt) if rt is not None else Agg(()))]

        @pat(r"precondition_check$")
        def pre(I, st, fn, args):
            return [(st, Agg(()))]

        @pat(r"^std_detect::")
        def detect(I, st, fn, args):
            if I.tys[outb(I, fn)]["k"] == "bool":
                return [(st, I.bfresh(fn.p.rsplit("::", 1)[1]))]
            return [(st, Top(outb(I, fn)))]

        # ---- panics
        @pat(r"^core::panicking::", r"^std::panicking::", r"^std::rt::(panic|begin_panic)", r"(unwrap|expect)_failed(::unwrap_failed_inner)?$",
             r"slice_index_fail$", r"len_mismatch_fail$", r"^alloc::raw_vec::(handle_error|capacity_overflow)",
             r"^std::process::(exit|abort)$", r"panic_(const|display|explicit|str)", r"::(slice_start|slice_end|slice_index)_.*fail$")
        def panic(I, st, fn, args):
            I.obligation(st, "panic", False, "call of %s" % fn.p)
            return []

        # ---- threads, Arc
        @add("std::sync::Arc::<T>::new")
        def arc(I, st, fn, args):
            o = ("h", I.new())
            st.mem[o] = args[0]
            return [(st, Agg([Ref(o)]))]

        @add("<std::sync::Arc<T, A> as std::clone::Clone>::clone")
        def arcc(I, st, fn, args):
            return [(st, deref(I, st, args[0]))]

        @add("<std::sync::Arc<T, A> as std::ops::Deref>::deref")
        def arcd(I, st, fn, args):
            v = deref(I, st, args[0])
            while isinstance(v, Agg) and v.f:
                v = v.f[0]
            return [(st, v)] if isinstance(v, Ref) else None

        @pat(r"^scoped_threadpool::Pool::(new|thread_count)$")
        def pool(I, st, fn, args):
            return [(st, Top(outb(I, fn)))]

        @pat(r"^scoped_threadpool::Pool::scoped$")
        def scoped(I, st, fn, args):
            f = args[1]
            ct = I.argtys[1]
            t = I.tys[ct]
            if t["k"] == "closure":
                g = I.p.fns[t["inst"]]
                o = ("h", I.new())
                st.mem[o] = Agg(())
                st.g["_jobs"] = st.g.get("_jobs", 0)
                return I.call(st, g, [f, Ref(o)])
            return None

        @pat(r"^scoped_threadpool::Scope.*::(execute|join_all)$")
        def execute(I, st, fn, args):
            h = getattr(self, "on_execute", None)
            if h is not None:
                return h(I, st, fn, args)
            # the job runs concurrently on data only it can touch (C14): what it
            # writes is unknown afterwards
            for a in args[1:]:
                self.job_effects(I, st, a, set())
            return [(st, Agg(()))]

        @add("std::fs::read")
        def fsread(I, st, fn, args):
            ty = outb(I, fn)
            s2 = st.copy()
            o = ("h", I.new())
            st.mem[o] = Inp("file")
            ln = I.freshr(0, MAXLEN, "filelen")
            return [(st, mk(I, st, ty, "Ok", [VecV(o, ln, I.tys[I.tys[ty]["ga"][0]]["ga"][0])])),
                    (s2, mk(I, s2, ty, "Err", [Top(I.tys[ty]["ga"][1])]))]

        @add("<std::result::Result<T, F> as std::ops::FromResidual<std::result::Result<!, E>>>::from_residual")
        def resid(I, st, fn, args):
            return None

    def job_effects(self, I, st, v, seen):
        if isinstance(v, Ref):
            if v.obj in seen:
                return
            seen.add(v.obj)
            if v.len is not None:
                x = I.read(st, Loc(v.obj, v.path))
                if isinstance(x, Seq) and isinstance(x.rest, (Rng, Poly)):
                    smear(I, st, v, Rng(0, 255) if isinstance(x.rest, Poly) else x.rest)
        elif isinstance(v, Agg):
            for x in v.f:
                self.job_effects(I, st, x, seen)


def eqval(I, a, b):
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.e) == len(b.e):
        c = TRUE
        for x, y in zip(a.e, b.e):
            c = T.conj(c, eqval(I, x, y))
        return c
    if isinstance(a, Poly) and isinstance(b, Poly):
        return T.eq(T.sub(a, b))
    return I.bfresh("eq", True)
