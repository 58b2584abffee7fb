"""Abstract run of a decoding entry point with the header parser cut off: an arbitrary decoder
whose headers were accepted, then everything that follows.  Functions that return an error type are
replaced by summaries: they fail, or succeed and leave those fields of the decoder alone that
neither they nor anything they reach writes or hands out for writing."""
import time
from . import hdr, rest, absint as X, terms as T
from .absint import Agg, En, Ref, Top, VecV, UNDEF, Loc
from .terms import K, A
from .models import Models, mk
from .prog import AnchorMissing


class Cuts:
    def __init__(self, p, deadline):
        self.p = p
        self.dty = hdr.decoder_ty(p)
        self.names = [f[0] for f in p.tys[self.dty]["v"][0]["f"]]
        self.errs = set()
        self.sums = {}
        self.direct = {}
        self.ran = {}
        self.want = set()
        self.notes = []
        self.ci = self.names.index("components") if "components" in self.names else None
        self.deadline = deadline
        for f in p.local_fns():
            if f.locals:
                t = p.tys[f.locals[0]]
                if t["k"] == "adt" and t["p"] == "std::result::Result" and p.tys[t["ga"][1]].get("local"):
                    self.errs.add(t["ga"][1])

    def isunit(self, fn):
        if not (fn.local and fn.has_body() and fn.locals):
            return False
        t = self.p.tys[fn.locals[0]]
        return t["k"] == "adt" and t["p"] == "std::result::Result" and t["ga"][1] in self.errs

    def opts(self):
        i = [i for i, f in enumerate(self.p.tys[self.dty]["v"][0]["f"])
             if self.p.tys[f[1]]["k"] == "adt" and self.p.tys[f[1]]["p"].split("::")[-1] == "ZuneJpegOptions"]
        if len(i) != 1:
            raise AnchorMissing("the options of the decoder")
        return i[0]

    def decparam(self, fn):
        for i in range(fn.argc):
            t = self.p.tys[fn.locals[i + 1]]
            if t["k"] == "ref" and t["e"] == self.dty:
                return i, bool(t["m"])
        return None, False

    # ---- which units assign a field directly (or through helpers that are no units)
    def writers(self, field):
        """ids of units whose own code assigns decoder.field (in a function that is no unit: its callers)"""
        p = self.p
        fi = self.names.index(field) if field in self.names else None
        if fi is None:
            raise AnchorMissing("field %s of the decoder" % field)
        direct = set()
        for f in p.local_fns():
            if not f.has_body():
                continue
            for b in f.live_blocks():
                for s in f.bb[b]["s"]:
                    if s[0] != "=":
                        continue
                    pls = [s[1]]
                    if s[2][0] in ("ref", "raw") and s[2][1]:
                        pls.append(s[2][2])
                    for pl in pls:
                        t = f.locals[pl[0]]
                        for e in pl[1]:
                            if e == "*":
                                t = p.tys[t]["e"] if "e" in p.tys[t] else None
                            elif e[0] == "f":
                                if t == self.dty and e[1] == fi and "*" in pl[1]:
                                    direct.add(f.id)
                                t = e[2]
                            elif e[0] in ("i", "ci"):
                                t = p.tys[t].get("e")
                            if t is None:
                                break
        # up through functions that are no units
        ch = True
        out = set(direct)
        while ch:
            ch = False
            for f in p.local_fns():
                if f.has_body() and f.id not in out:
                    calls, refs = p.edges(f)
                    for g in calls | refs:
                        if g in out and not self.isunit(p.fns[g]) and p.fns[g].local:
                            out.add(f.id)
                            ch = True
                            break
        return {i for i in out if self.isunit(p.fns[i])}, out

    # ---- summaries
    ELEMS = ("deref_mut", "index_mut", "as_mut_slice", "get_mut", "iter_mut", "get_unchecked_mut", "into_iter", "deref", "index", "len", "iter", "get", "chunks_exact_mut")

    def elementwise(self, f, l):
        """is the reference in local l (to a vector) only used to get at its elements?"""
        p = self.p
        for b in f.live_blocks():
            for s in f.bb[b]["s"]:
                if s[0] != "=":
                    continue
                for o in p.rv_ops(s[2]):
                    if o[0] in ("cp", "mv") and o[1][0] == l:
                        return False
                if s[2][0] in ("ref", "raw") and s[2][2][0] == l:
                    return False
            t = f.bb[b]["t"]
            if t[0] == "call":
                for o in t[2]:
                    if o[0] in ("cp", "mv") and o[1][0] == l:
                        if "i" not in t[1] or p.fns[t[1]["i"]].local or p.fns[t[1]["i"]].p.split("::")[-1] not in self.ELEMS:
                            return False
        return True

    def directmods(self, f):
        """fields of the decoder that f writes or hands out for writing; (i, "len") if the length of a
        vector may change; None: it may replace the whole"""
        if f.id in self.direct:
            return self.direct[f.id]
        p = self.p
        out = set()

        def place(pl, how, dest=None):
            t = f.locals[pl[0]]
            n = len(pl[1])
            for j, e in enumerate(pl[1]):
                if e == "*":
                    t = p.tys[t].get("e", -1)
                elif e[0] == "f":
                    if t == self.dty:
                        out.add(e[1])
                        if how == "w" and j == n - 1 or how == "b" and j == n - 1 and not (dest is not None and not dest[1] and self.elementwise(f, dest[0])):
                            out.add((e[1], "len"))
                        return
                    t = e[2]
                elif e[0] in ("i", "ci"):
                    t = p.tys[t].get("e", -1)
                if t == -1:
                    return
            if t == self.dty and "*" in pl[1] and how == "w":
                out.add(None)
        for b in f.live_blocks():
            blk = f.bb[b]
            for s in blk["s"]:
                if s[0] in ("=", "sd"):
                    place(s[1], "w")
                if s[0] == "=" and s[2][0] in ("ref", "raw") and s[2][1]:
                    place(s[2][2], "b", s[1])
            t = blk["t"]
            if t[0] == "call":
                place(t[3], "w")
            elif t[0] == "drop":
                place(t[1], "w")
        self.direct[f.id] = out
        return out

    def nodemods(self, f):
        if f.local and f.has_body():
            return self.directmods(f)
        if not f.local and f.locals and any(self.p.tys[f.locals[k + 1]]["k"] in ("ref", "ptr") and
                self.p.tys[f.locals[k + 1]].get("e") == self.dty and self.p.tys[f.locals[k + 1]]["m"] for k in range(f.argc)):
            return {None}
        return set()

    def mods(self, fn, runs=()):
        """what fn and all it reaches may change; runs: unit id -> what that unit may change"""
        out = set()
        seen = set()
        work = [fn.id]
        while work:
            i = work.pop()
            if i in seen:
                continue
            seen.add(i)
            if i in runs:
                out |= runs[i]
                continue
            f = self.p.fns[i]
            out |= self.nodemods(f)
            calls, refs = self.p.edges(f)
            work += [j for j in calls | refs]
        return out

    def summary(self, fn):
        """the fields of the decoder that fn and everything it reaches leave alone; (i, "len") where
        only the length of a vector is known to be kept"""
        if fn.id in self.sums:
            return self.sums[fn.id]
        m = self.mods(fn)
        if self.want & m and self.ci is not None:
            # units that write the fields in question: what they do when there is a frame already
            runs = {}
            for i in self.p.reach([fn.id]):
                f = self.p.fns[i]
                if self.isunit(f) and self.want & self.owncode(f):
                    if i not in self.ran:
                        self.ran[i] = self.inrun(f)
                    if self.ran[i] is not None:
                        runs[i] = self.ran[i]
            m2 = self.mods(fn, runs)
            if (self.ci, "len") not in m2 and None not in m2:
                m = m2
        n = len(self.names)
        self.sums[fn.id] = set() if None in m else {x for x in set(range(n)) | {(i, "len") for i in range(n)} if x not in m}
        return self.sums[fn.id]

    def owncode(self, fn):
        """what fn itself and its helpers that are no units change"""
        out = set()
        work, seen = [fn.id], set()
        while work:
            i = work.pop()
            if i in seen or i != fn.id and self.isunit(self.p.fns[i]):
                continue
            seen.add(i)
            out |= self.nodemods(self.p.fns[i])
            calls, refs = self.p.edges(self.p.fns[i])
            work += list(calls | refs)
        return out

    def inrun(self, fn):
        """what fn changes when the decoder has a frame, from a run of its own; None: not known"""
        m = Models(self.p)
        hdr.stub_huffman(self.p, m)
        I = Run(self.p, m)
        I.cuts = self
        I.coarse = I.nounroll = True
        I.deadline = min(self.deadline, time.time() + 40)
        st = X.State()
        D = I.D = ("h", "dec")
        st.mem[D] = decoder(I, st, self)
        args = [arg(I, st, fn.locals[i + 1], 3, self.dty) for i in range(fn.argc)]
        init = st.mem[D]
        st0 = dict(st.mem)
        try:
            rets = I.call(st, fn, args)
        except X.Stop as e:
            self.notes.append("%s: %s" % (fn.p, e))
            return None
        out = set()
        for s, v in rets:
            b = s.mem.get(D)
            if not isinstance(b, Agg) or len(b.f) != len(init.f):
                return {None}
            for i, (x, y) in enumerate(zip(init.f, b.f)):
                if not X.veq(x, y):
                    out.add(i)
                    if isinstance(x, VecV) and not (isinstance(y, VecV) and (X.veq(x.len, y.len) or s.F.holds(T.eq(T.sub(x.len, y.len))) is True)):
                        out.add((i, "len"))
                elif isinstance(x, VecV) and not X.veq(st0.get(x.obj), s.mem.get(x.obj)):
                    out.add(i)
        return out


def decoder(I, st, cuts):
    """an arbitrary decoder that has a frame"""
    d = hdr.deep(I, st, cuts.dty, 3)
    ci = cuts.ci
    if ci is not None and isinstance(d.f[ci], VecV):
        st.F.assume(T.ge(T.sub(d.f[ci].len, K(1))))
    return d


def arg(I, st, ty, depth, dty=None):
    """an arbitrary argument, its references made out; every decoder is the one at I.D"""
    t = I.tys[ty]
    k = t["k"]
    if k in ("ref", "ptr") and t["e"] == dty:
        return Ref(I.D)
    if k in ("ref", "ptr") and depth > 0:
        ek = I.tys[t["e"]]["k"]
        if ek in ("slice", "str", "dyn", "other"):
            return I.mat(st, Top(ty))
        o = ("h", I.new())
        st.mem[o] = arg(I, st, t["e"], depth - 1, dty)
        return Ref(o)
    if k in ("tuple", "closure") and depth > 0:
        return Agg([arg(I, st, x, depth - 1, dty) for x in t["f"]])
    if k == "adt" and t["p"] == "std::vec::Vec":
        return I.mat(st, Top(ty))
    if k == "adt" and t["ak"] == "struct" and t["v"] and depth > 0 and not I.models.is_reg(t):
        return Agg([arg(I, st, x[1], depth - 1, dty) for x in t["v"][0]["f"]])
    return Top(ty)


class Run(X.Interp):
    cuts = None
    coarse = False
    open = ()          # ids of units that are executed
    counted = ()       # ids of opened units whose successes are reported to on_ok
    on_ok = None       # (I, st, fn, certain) -> None: called on a success of a unit

    def havoc_loc(self, st, loc, imp=True):
        return super().havoc_loc(st, loc, False)

    lenkey = False     # tell apart states by the length of byte vectors

    def vkey(self, v, ty, d, F):
        if self.lenkey and isinstance(v, VecV) and isinstance(v.len, X.Poly) and self.tys[v.ety]["k"] == "int" and \
                self.tys[v.ety]["size"] == 1 and not self.noint:
            return "V", str(v.len)[:160]
        return super().vkey(v, ty, d, F)

    def rvalue(self, st, fn, fr, rv, dty):
        v = super().rvalue(st, fn, fr, rv, dty)
        if self.coarse and rv[0] in ("bin", "cast", "un"):
            return self.known(st, v, dty)
        return v

    def known(self, st, v, ty):
        k = self.tys[ty]["k"]
        if k == "tuple" and isinstance(v, Agg):
            return Agg([self.known(st, x, t) for x, t in zip(v.f, self.tys[ty]["f"])])
        if k in ("int", "char"):
            if isinstance(v, X.Poly):
                c = v.c if v.isc() else st.F.val(v)
                return K(c) if c is not None else Top(ty)
            return Top(ty) if not isinstance(v, (Ref, X.Fnp)) else v
        if k == "bool" and isinstance(v, X.Cond) and v.k in ("ge", "eq", "ne") and st.F.holds(v) is None:
            if any(l.hi - l.lo > 1 for l in T.cond_leaves(v)):
                return self.bfresh()
        return v

    def call(self, st, fn, args, site=None):
        if self.stack and self.cuts.isunit(fn) and fn.id not in self.open and self.models.lookup(fn) is None:
            return self.unit(st, fn, args)
        out = super().call(st, fn, args, site)
        if fn.id in self.counted and self.on_ok is not None and self.models.lookup(fn) is None:
            # an opened routine: its successes count as those of a summarised one
            res = []
            for s, v in out:
                if isinstance(v, Top):
                    v = self.mat(s, v)
                bad = s.copy()
                if bad.F.assume(T.ge(T.sub(v.tag, K(1)))):
                    res.append((bad, v))
                if s.F.assume(T.eq(v.tag)):
                    res += [(q, v) for q in self.on_ok(self, s, fn)]
            return res
        return out

    def reaches(self, st, v, seen):
        """does a value give access to the whole decoder?"""
        if isinstance(v, Ref):
            if v.obj == self.D:
                return not v.path
            if v.obj in seen or v.obj not in st.mem:
                return False
            seen.add(v.obj)
            return self.reaches(st, st.mem[v.obj], seen)
        if isinstance(v, Agg):
            return any(self.reaches(st, x, seen) for x in v.f)
        if isinstance(v, En):
            return any(x is not None and self.reaches(st, x, seen) for x in v.pay)
        return False

    def frozen(self, ty, d=6, seen=None):
        """no interior mutability"""
        seen = set() if seen is None else seen
        if ty in seen:
            return True
        seen.add(ty)
        t = self.tys[ty]
        k = t["k"]
        if k in ("int", "bool", "char", "float", "str", "fndef", "fnptr", "never"):
            return True
        if k in ("ref", "ptr", "slice", "array"):
            return k != "ptr" and self.frozen(t["e"], d, seen)
        if k in ("tuple", "closure"):
            return all(self.frozen(x, d, seen) for x in t["f"])
        if k == "adt" and t.get("local"):
            return all(self.frozen(f[1], d, seen) for v in t["v"] for f in v["f"])
        if k == "adt" and t["p"] in ("std::vec::Vec", "std::option::Option", "std::result::Result", "std::boxed::Box", "std::num::NonZero",
                                     "std::string::String", "std::sync::Arc", "std::ops::Range"):
            return all(not isinstance(g, int) or self.tys[g]["k"] == "adt" and self.tys[g]["p"].endswith("Global") or self.frozen(g, d, seen)
                       for g in t.get("ga") or ())
        return False

    def sorted_refs(self, st, v, ty, shared, mut):
        t = self.tys[ty]
        k = t["k"]
        if k == "ref" and isinstance(v, Ref):
            if not t["m"] and self.frozen(t["e"]):
                shared.add(v.obj)
            elif v.obj not in mut:
                mut.add(v.obj)
                if not v.path and v.obj in st.mem and v.obj != self.D:
                    self.sorted_refs(st, st.mem[v.obj], t["e"], shared, mut)
        elif k in ("tuple", "closure") and isinstance(v, Agg):
            for x, y in zip(v.f, t["f"]):
                self.sorted_refs(st, x, y, shared, mut)
        elif isinstance(v, Agg) and k == "adt" and t["ak"] == "struct" and t["v"] and len(v.f) == len(t["v"][0]["f"]):
            for x, y in zip(v.f, t["v"][0]["f"]):
                self.sorted_refs(st, x, y[1], shared, mut)

    def unit(self, st, fn, args):
        c = self.cuts
        ty = fn.locals[0]
        whole = any(self.reaches(st, a, set()) for a in args)
        saved = st.mem.get(self.D)
        s = c.summary(fn) if whole else None
        shared, mut = set(), set()
        for a, ty2 in zip(args, fn.locals[1:]):
            self.sorted_refs(st, a, ty2, shared, mut)
        seen = (shared - mut) | ({self.D} if whole else set())
        for a in args:
            self.havoc_reach(st, a, set(seen))
        bad = st.copy()
        okst = st
        if whole and c.ci is not None and not (isinstance(saved, Agg) and isinstance(saved.f[c.ci], VecV) and
                                               st.F.holds(T.ge(T.sub(saved.f[c.ci].len, K(1)))) is True):
            s = {i for i in range(len(c.names)) if i not in c.mods(fn)}
        if whole:
            oi = c.opts()
            for q, keep in ((okst, s), (bad, set())):
                new = hdr.deep(self, q, c.dty, 3)
                f = []
                for i, y in enumerate(new.f):
                    x = saved.f[i] if isinstance(saved, Agg) else y
                    if i in keep or i == oi:
                        f.append(x)
                    elif (i, "len") in keep and isinstance(x, VecV) and isinstance(y, VecV):
                        f.append(VecV(y.obj, x.len, y.ety))
                    else:
                        f.append(y)
                self.write(q, Loc(self.D, ()), Agg(f))
        oks = [okst]
        if oks and self.on_ok is not None:
            oks = self.on_ok(self, okst, fn)
        return [(q, mk(self, q, ty, "Ok", [Top(self.tys[ty]["ga"][0])])) for q in oks] + \
            [(bad, mk(self, bad, ty, "Err", [Top(self.tys[ty]["ga"][1])]))]


def run(p, root="decode_buffer", secs=300, coarse=False, split=(), start=None, event=None, hooks=None, setup=None, want=(), opens=()):
    """split: names of enum fields of the decoder told apart from the start; opens: units executed"""
    c = Cuts(p, time.time() + secs)
    c.want = {w if isinstance(w, int) else c.names.index(w) for w in want if isinstance(w, int) or w in c.names} | ({(c.ci, "len")} if want and c.ci is not None else set())
    rt = hdr.public(p, root)
    m = Models(p)
    I = Run(p, m, hooks)
    I.cuts = c
    I.coarse = coarse
    I.nounroll = True
    I.on_ok = event
    I.deadline = time.time() + secs
    tails = rest.tails(p, rt)
    if not tails:
        raise AnchorMissing("what %s calls after the headers" % rt.p)
    tp = {f.p for f in tails}
    # units that lead to the tails, the tails themselves, and closures in them that are called through std
    rh = hdr.public(p, "read_headers")
    hp = rest.paths_from(p, [rh.id])
    opened = {f.id for f in tails}
    for i in p.reach([rt.id]):
        f = p.fns[i]
        if not c.isunit(f) or f.p in hp:
            continue
        if rest.paths_from(p, [f.id]) & tp:
            opened.add(i)
    I.open = opened | set(opens)
    I.counted = set(opens) - opened
    D = I.D = ("h", "dec")
    core = set()
    for i in p.edges(rh)[0]:
        g = p.fns[i]
        if g.local and g.has_body() and rest.takes(p, g, c.dty):
            core.add(g.p)
    if not core:
        raise AnchorMissing("the header parser behind read_headers")
    for i in p.reach([rt.id]):
        g = p.fns[i]
        if g.p in core and g.local and rest.takes(p, g, c.dty):
            k = rest.takes(p, g, c.dty)[0]

            def h(I, st, fn, args, k=k):
                for j, a in enumerate(args):
                    if j != k:
                        I.havoc_reach(st, a, set())
                bad = st.copy()
                old = I.read(st, Loc(args[k].obj, args[k].path))
                new = decoder(I, st, c)
                oi = c.opts()
                new = Agg([old.f[i] if i == oi else x for i, x in enumerate(new.f)])
                states = [(st, new)]
                for nm in split:
                    i = nm if isinstance(nm, int) else c.names.index(nm)
                    nx = []
                    for s, d in states:
                        if isinstance(d.f[i], X.Cond):
                            a, b = s.copy(), s
                            for q, cnd, val in ((a, d.f[i], T.TRUE), (b, T.neg(d.f[i]), T.FALSE)):
                                if q.F.assume(cnd):
                                    nx.append((q, Agg([val if j == i else x for j, x in enumerate(d.f)])))
                            continue
                        for v in range(len(d.f[i].pay)):
                            s2 = s.copy()
                            if s2.F.assume(T.eq(T.sub(d.f[i].tag, K(v)))):
                                nx.append((s2, Agg([En(x.ty, K(v), x.pay) if j == i else x for j, x in enumerate(d.f)])))
                    states = nx
                out = []
                ty = fn.locals[0]
                for s, d in states:
                    I.write(s, Loc(args[k].obj, args[k].path), d)
                    if start is not None:
                        start(I, s, d)
                    out.append((s, mk(I, s, ty, "Ok", [Top(I.tys[ty]["ga"][0])])))
                return out + [(bad, mk(I, bad, ty, "Err", [Top(I.tys[ty]["ga"][1])]))]
            m.stub(g, h)
    if setup is not None:
        setup(I, m)
    st = X.State()
    st.mem[D] = hdr.deep(I, st, c.dty, 3)
    h = hdr.Hdr()
    h.I, h.D, h.cuts, h.stop, h.tails = I, D, c, None, tails
    try:
        h.rets = I.call(st, rt, [Ref(D)] + [arg(I, st, rt.locals[i + 1], 2) for i in range(1, rt.argc)])
    except X.Stop as e:
        h.rets = []
        h.stop = str(e)
    return h
