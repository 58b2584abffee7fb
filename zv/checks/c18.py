"""C18: restart markers and new scans reset the decoding state.

Functions that take the decoder and the bit stream are either scan decoders (they call routines that
read coefficients from the stream) or restart handlers (they do not).  A scan decoder must have reset
the state when it reads the first coefficient; a restart handler, called with a pending restart
marker, must have reset it when it succeeds."""
import time
from .. import count, segs, hdr, tailrun, common, absint as X, terms as T
from ..absint import Agg, En, Ref, Top, VecV, Seq, Poly, Loc
from ..terms import K, A
from ..models import Models


class Run(tailrun.Run):
    bty = None
    decode = ()
    on_decode = None
    step = None
    t = r = None

    def known(self, st, v, ty):
        if isinstance(v, (Poly, X.Cond)) and self.step:
            d = st.mem.get(self.D)
            ls = v.leaves if isinstance(v, Poly) else T.cond_leaves(v)
            x = d.f[self.step[0]] if isinstance(d, Agg) else None
            if ls and ls <= {self.t, self.r} | (x.leaves if isinstance(x, Poly) else frozenset()):
                return v
        return super().known(st, v, ty)

    def call(self, st, fn, args, site=None):
        if self.stack and fn.id in self.decode:
            if not self.mute:
                self.on_decode(self, st, fn, args)
            if self.step:
                # go on: the countdown is anything it may be while decoding
                ti, ri = self.step
                out = [(s, v) for s, v in self.unit(st, fn, args) if s.F.val(v.tag) == 0]
                res = []
                for s, v in out:
                    d = s.mem[self.D]
                    self.write(s, Loc(self.D, ()), Agg([A(self.t) if i == ti else x for i, x in enumerate(d.f)]))
                    F = s.F
                    F.rng = {a: r for a, r in F.rng.items() if self.t not in a.leaves}
                    F.ge = {x: None for x in F.ge if self.t not in x.leaves}
                    F.ne = {x: None for x in F.ne if self.t not in x.leaves}
                    s.g["dec"] = 1
                    q = s.copy()
                    if q.F.assume(T.eq(A(self.t))) and q.F.assume(T.eq(d.f[ri])):
                        res.append((q, v))
                    if s.F.assume(T.ge(T.sub(A(self.t), K(1)))):
                        res.append((s, v))
                return res
            return []
        return super().call(st, fn, args, site)


def streamty(p):
    for i, t in enumerate(p.tys):
        if t["k"] == "adt" and t.get("local") and t["p"].split("::")[-1] == "BitStream" and t["ak"] == "struct":
            return i
    return None


def takesty(p, f, ty):
    return [i for i in range(f.argc) if p.tys[f.locals[i + 1]]["k"] == "ref" and p.tys[f.locals[i + 1]]["m"] and p.tys[f.locals[i + 1]]["e"] == ty]


def coeff(p, ty):
    """somewhere to put coefficients"""
    t = p.tys[ty]
    if t["k"] != "ref" or not t["m"]:
        return False
    e = p.tys[t["e"]]
    if e["k"] in ("array", "slice"):
        e = p.tys[e["e"]]
    return e["k"] == "int" and e["s"] and e["b"] in (16, 32)


def fresh(p, bty):
    """values of a new stream; fields that its constructors set from parameters"""
    base, params = None, set()
    for f in p.local_fns():
        if not f.has_body() or f.locals[0] != bty or f.kind == "closure":
            continue
        I = X.Interp(p, Models(p))
        st = X.State()
        args = [A2(I, st, f.locals[i + 1]) for i in range(f.argc)]
        out = I.call(st, f, args)
        if len(out) != 1 or not isinstance(out[0][1], Agg):
            continue
        v = out[0][1]
        if f.argc == 0:
            base = v
        else:
            for i, x in enumerate(v.f):
                if isinstance(x, Poly) and x.leaves:
                    params.add(i)
    return base, params


def A2(I, st, ty):
    return hdr.deep(I, st, ty, 2, "arg")


def check(rep, tier):
    p = common.program()
    rep.rule = ("scan decoders at their first read of a coefficient, and restart handlers at every success with a pending restart marker: the "
                "prediction of every component is 0, every field of the bit stream that is not a parameter of the scan has the value of a new "
                "stream, and the countdown equals the restart interval (abstract interpretation with 1 and 3 components)")
    dty, bty = hdr.decoder_ty(p), streamty(p)
    names = [f[0] for f in p.tys[dty]["v"][0]["f"]]
    if bty is None or not all(n in names for n in ("components", "todo", "restart_interval")):
        rep.undecided.append("the decoder has no bit stream, components, todo or restart_interval")
        return
    bn = [f[0] for f in p.tys[bty]["v"][0]["f"]]
    base, params = fresh(p, bty)
    if base is None:
        rep.undecided.append("no constructor of a new bit stream")
        return
    cuts = tailrun.Cuts(p, time.time() + 400)
    decode = set()
    for f in p.local_fns():
        if f.has_body() and takesty(p, f, bty) and not takesty(p, f, dty) and cuts.isunit(f) and any(coeff(p, t) for t in f.locals[1:f.argc + 1]):
            decode.add(f.id)
    both = [f for f in p.local_fns() if f.has_body() and takesty(p, f, bty) and takesty(p, f, dty)]
    rep.stats["routines that read coefficients"] = len(decode)
    J = segs.Judge(rep)
    scans = handlers = events = 0
    ci, ti, ri = (names.index(n) for n in ("components", "todo", "restart_interval"))
    ety = None
    bid = {g.id for g in both}

    leaves = {f.id for f in both if not (set(p.reach([f.id])) - {f.id}) & bid}
    for f in sorted(both, key=lambda f: f.p):
        isscan = bool(set(p.reach([f.id])) & decode)
        if not isscan and f.id not in leaves:
            continue
        scans += isscan
        handlers += not isscan
        for n, stepping in ((1, False), (3, False), (3, True)) if isscan else ((1, False), (3, False)):
            m = Models(p)
            I = Run(p, m)
            I.cuts = cuts
            I.deadline = time.time() + 200
            I.decode = decode if isscan else ()
            I.open = bid
            I.D = ("h", "dec")
            st = X.State()
            d = hdr.deep(I, st, dty, 3)
            v = d.f[ci]
            if not isinstance(v, VecV):
                rep.undecided.append("components are not kept in a vector")
                return
            en = [x[0] for x in p.tys[v.ety]["v"][0]["f"]] if p.tys[v.ety]["k"] == "adt" else []
            if "dc_pred" not in en:
                rep.undecided.append("components have no prediction")
                return
            di = en.index("dc_pred")
            st.mem[v.obj] = Seq([hdr.deep(I, st, v.ety, 2, "d.comp%d" % i) for i in range(n)], None)
            # headers with an empty scan or a component without samples are rejected (C16)
            for e in st.mem[v.obj].e:
                for nm in ("vertical_sample", "horizontal_sample"):
                    if nm in en and isinstance(e.f[en.index(nm)], Poly):
                        st.F.assume(T.ge(T.sub(e.f[en.index(nm)], K(1))))
            for nm in ("num_scans",):
                if nm in names and isinstance(d.f[names.index(nm)], Poly):
                    st.F.assume(T.ge(T.sub(d.f[names.index(nm)], K(1))))
            todo0 = d.f[ti]
            d = Agg([VecV(v.obj, K(n), v.ety) if i == ci else x for i, x in enumerate(d.f)])
            st.mem[I.D] = d
            S = ("h", "stream")
            sv = hdr.deep(I, st, bty, 4, "d.stream")
            states = [st]
            if not isscan:
                sv = rst(I, p, sv)
                if sv is None:
                    rep.undecided.append("the pending marker of the stream is not an optional marker")
                    return
            st.mem[S] = sv
            bi, ki = takesty(p, f, bty)[0], takesty(p, f, dty)[0]
            args = []
            for i in range(f.argc):
                args.append(Ref(S) if i == bi else Ref(I.D) if i == ki else tailrun.arg(I, st, f.locals[i + 1], 3, dty))
            init = base

            def key(I, s):
                d, q = s.mem.get(I.D), s.mem.get(S)
                if not isinstance(d, Agg) or not isinstance(d.f[ri], Poly):
                    return None
                k = [X.veq(d.f[ti], d.f[ri]), s.F.holds(T.eq(d.f[ri]))]
                if s.g.get("dec"):
                    return tuple(k)
                b = s.mem.get(d.f[ci].obj) if isinstance(d.f[ci], VecV) else None
                if isinstance(b, Seq):
                    k += [isinstance(e, Agg) and isinstance(e.f[di], Poly) and s.F.holds(T.eq(e.f[di])) is True for e in b.e]
                if isinstance(q, Agg):
                    for i, x in enumerate(q.f):
                        y = init.f[i]
                        if i not in params:
                            k.append(s.F.holds(T.eq(T.sub(x, y))) if isinstance(x, Poly) and isinstance(y, Poly) else
                                     s.F.holds(T.eq(T.sub(x.tag, y.tag))) if isinstance(x, En) and isinstance(y, En) else None)
                return tuple(k)

            def judge(I, s, what, S=S):
                nonlocal events
                if stepping and not s.g.get("dec"):
                    return
                events += 1
                d = s.mem.get(I.D)
                key = f.p.split("::")[-1]
                if s.g.get("dec"):
                    a, b = d.f[ti], d.f[ri]
                    if isinstance(a, Poly) and isinstance(b, Poly):
                        z = s.copy()
                        if not z.F.assume(T.eq(a)):
                            rep.ok()
                        elif z.F.holds(T.eq(b)) is not True and not all(segs.free(l) for l in a.leaves):
                            rep.undecided.append("%s: countdown %s" % (what, a))
                        else:
                            J.must("interval:%s" % key, z, T.eq(b), "%s: the countdown is %s at the next coefficient: the restart interval (%s) has ended without a restart" % (what, a, b))
                    return
                vec = d.f[ci]
                b = s.mem.get(vec.obj) if isinstance(vec, VecV) else None
                if not isinstance(b, Seq) or len(b.e) < n:
                    rep.undecided.append("%s: components not known" % key)
                else:
                    for i in range(n):
                        e = b.e[i]
                        if isinstance(e, Agg) and isinstance(e.f[di], Poly):
                            J.must("pred:%s" % key, s, T.eq(e.f[di]), "%s: the prediction of component %d is %s, not 0" % (what, i, e.f[di]))
                        else:
                            rep.undecided.append("%s: prediction %d" % (key, i))
                q = s.mem.get(S)
                for i, nm in enumerate(bn):
                    if i in params:
                        continue
                    x, y = q.f[i] if isinstance(q, Agg) else None, init.f[i]
                    if isinstance(x, Top):
                        x = I.mat(s, x)
                    if isinstance(x, Poly) and isinstance(y, Poly):
                        J.must("stream:%s:%s" % (nm, key), s, T.eq(T.sub(x, y)), "%s: %s of the bit stream is %s, not %s" % (what, nm, x, y))
                    elif isinstance(x, En) and isinstance(y, En):
                        J.must("stream:%s:%s" % (nm, key), s, T.eq(T.sub(x.tag, y.tag)), "%s: %s of the bit stream is still set" % (what, nm))
                    else:
                        rep.undecided.append("%s: %s of the stream" % (key, nm))
                a, b = d.f[ti], d.f[ri]
                if isinstance(a, Poly) and isinstance(b, Poly):
                    J.must("todo:%s" % key, s, T.eq(T.sub(a, b)), "%s: the countdown is %s, not the restart interval %s" % (what, a, b))
                else:
                    rep.undecided.append("%s: countdown" % key)
            def on_decode(I, s, fn, args):
                r = args[takesty(p, fn, bty)[0]]
                judge(I, s, "%s, %s with %d components" % (f.p, fn.p.split("::")[-1], n), S)
            I.on_decode = on_decode
            I.maxparts = 100
            if stepping:
                I.step = (ti, ri)
                I.coarse = I.nounroll = True
                if not isinstance(todo0, Poly) or todo0.atom() is None or not isinstance(d.f[ri], Poly) or d.f[ri].atom() is None:
                    rep.undecided.append("the countdown is not a number")
                    continue
                I.t, I.r = todo0.atom(), d.f[ri].atom()
            I.keyhook = key
            try:
                rets = I.call(st, f, args)
            except X.Stop as e:
                rep.undecided.append("%s: %s" % (f.p, e))
                continue
            if not isscan:
                for s, v in rets:
                    if isinstance(v, Top):
                        v = I.mat(s, v)
                    if isinstance(v, En) and p.tys[v.ty]["p"] == "std::result::Result":
                        if s.F.val(v.tag) == 1:
                            continue
                        s = s.copy()
                        if not s.F.assume(T.eq(v.tag)):
                            continue
                    judge(I, s, "%s with a restart marker and %d components" % (f.p, n))
    # functions that read coefficients themselves
    C = count.Scan(p, dty, ti, ri, decode, {f.id for f in both if not set(p.reach([f.id])) & decode and f.id in leaves}, cuts.mods)
    for f in p.local_fns():
        if not f.has_body() or f.id in decode or not p.edges(f)[0] & decode:
            continue
        rep.stats["functions with a typestate of the countdown"] = rep.stats.get("functions with a typestate of the countdown", 0) + 1
        C.viol = {}
        C.reads = C.counts = C.restarts = C.lost = 0
        for inter in (1, 2):
            C.run(f, inter, inter)
        if not C.counts or not C.restarts or not C.reads:
            rep.undecided.append("%s: no countdown (%d counts, %d restarts, %d reads)" % (f.p, C.counts, C.restarts, C.reads))
        for (fp, g), (ln, inter) in sorted(C.viol.items()):
            rep.fail("interval:%s" % fp, "%s: the countdown reaches 0 and %s (line %s) reads coefficients without a restart in between (restart interval %s)" % (
                fp, g.split("::")[-1], ln, "1" if inter == 1 else "2 or more"))
        rep.ok(C.reads)
        rep.stats["paths with unknown countdown"] = rep.stats.get("paths with unknown countdown", 0) + C.lost
    rep.stats["scan decoders"] = scans
    rep.stats["restart handlers"] = handlers
    rep.stats["states judged"] = events
    if not scans or not handlers or not events:
        rep.undecided.append("no scan decoder or no restart handler was found")


def rst(I, p, sv):
    """the stream with a pending restart marker"""
    f = []
    hit = False
    for x in sv.f:
        if isinstance(x, En) and p.tys[x.ty]["p"] == "std::option::Option" and not hit:
            t = p.tys[p.tys[x.ty]["ga"][0]]
            if t["k"] == "adt" and t["ak"] == "enum":
                rv = [i for i, v in enumerate(t["v"]) if v["n"] == "RST"]
                some = [i for i, v in enumerate(p.tys[x.ty]["v"]) if v["n"] == "Some"]
                if rv and some and isinstance(x.pay[some[0]], Agg):
                    mk = x.pay[some[0]].f[0]
                    if isinstance(mk, En):
                        mk = En(mk.ty, K(rv[0]), mk.pay)
                        pay = [Agg([mk]) if i == some[0] else y for i, y in enumerate(x.pay)]
                        f.append(En(x.ty, K(some[0]), pay))
                        hit = True
                        continue
        f.append(x)
    return Agg(f) if hit else None
