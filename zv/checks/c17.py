"""C17: an error that arises reaches the caller.

Modular: every function of the crate that returns Result<_, error type> is a unit.  In the run of
one unit all other units may succeed or fail; a path on which something failed must not return Ok,
nor end in a panic that unwraps the error."""
import time
from .. import common, hdr, absint as X, terms as T
from ..absint import Agg, En, Ref, Top, UNDEF
from ..terms import K, A
from ..models import Models
from ..prog import AnchorMissing

KEEP = ("std::option", "core::option", "std::result", "core::result", "std::ops", "core::ops", "std::cmp", "core::cmp",
        "std::bool", "core::bool", "core::convert", "std::convert", "std::mem", "core::mem", "std::clone", "core::clone",
        "<std::option", "<core::option", "<std::result", "<core::result", "<std::ops", "<core::ops", "std::bool")


class Errs:
    """which types are errors of this crate, which functions can meet one"""

    def __init__(self, p):
        self.p = p
        self.adts = {i for i, t in enumerate(p.tys) if t["k"] == "adt" and
                     (t["p"] in ("std::io::Error",) or (t.get("local") and self.iserror(i)))}
        self.memo = {}

    def iserror(self, ty):
        """local types that are the error of some Result a function of the crate returns"""
        if not hasattr(self, "res"):
            self.res = set()
            for f in self.p.local_fns():
                if f.locals:
                    t = self.p.tys[f.locals[0]]
                    if t["k"] == "adt" and t["p"] == "std::result::Result":
                        self.res.add(t["ga"][1])
        return ty in self.res

    def mentions(self, ty, seen=None):
        if ty in self.memo:
            return self.memo[ty]
        seen = seen if seen is not None else set()
        if ty in seen:
            return False
        seen.add(ty)
        t = self.p.tys[ty]
        k = t["k"]
        r = False
        if ty in self.adts:
            r = True
        elif k == "adt":
            r = any(isinstance(g, int) and self.mentions(g, seen) for g in t.get("ga") or ())
        elif k in ("ref", "ptr", "slice", "array"):
            r = self.mentions(t["e"], seen)
        elif k in ("tuple", "closure"):
            r = any(self.mentions(x, seen) for x in t["f"])
        if len(seen) == 1 or r:
            self.memo[ty] = r
        return r

    def isresult(self, ty):
        t = self.p.tys[ty]
        return t["k"] == "adt" and t["p"] == "std::result::Result" and t["ga"][1] in self.adts


class Run(X.Interp):
    """one unit; everything that cannot meet an error is forgotten"""

    def call(self, st, fn, args, site=None):
        c = self.c17
        ty = fn.locals[0] if fn.locals else self.rty
        res = ty is not None and c.E.isresult(ty)
        if self.stack:
            if fn.p.split("::")[-1] in ("unwrap_failed", "expect_failed"):
                top = self.stack[-1][0]
                if any(c.E.mentions(l) for l in top.locals or ()) and st.g.get("err"):
                    c.panics.append((st.g.get("_err"), self.where()))
                return []
            unit = fn.local and res
            if res and (unit or not fn.local and not any(c.E.mentions(x) for x in (fn.locals or ())[1:1 + (fn.argc or 0)]) and not c.closures(fn) or not fn.has_body() and self.models.lookup(fn) is None):
                return self.unit(st, fn, args, ty)
            if not unit and not c.executed(fn):
                return self.forget(st, fn, args, ty)
        out = super().call(st, fn, args, site)
        return self.seen(out, fn, ty) if res and self.stack else out

    coarse = False

    def havoc_loc(self, st, loc, imp=True):
        return super().havoc_loc(st, loc, False)

    def rvalue(self, st, fn, fr, rv, dty):
        if self.coarse and rv[0] in ("bin", "cast", "un"):
            v = super().rvalue(st, fn, fr, rv, dty)
            return self.known(st, v, dty)
        return super().rvalue(st, fn, fr, rv, dty)

    def known(self, st, v, ty):
        """numbers: constants or nothing"""
        k = self.tys[ty]["k"]
        if k == "tuple" and isinstance(v, Agg):
            return Agg([self.known(st, x, t) for x, t in zip(v.f, self.tys[ty]["f"])])
        if k in ("int", "char"):
            if isinstance(v, X.Poly):
                c = v.c if v.isc() else st.F.val(v)
                return K(c) if c is not None else Top(ty)
            return Top(ty) if not isinstance(v, (Ref, X.Fnp)) else v
        if k == "bool" and isinstance(v, X.Cond) and v.k in ("ge", "eq", "ne") and st.F.holds(v) is None:
            if any(l.hi - l.lo > 1 for l in T.cond_leaves(v)):
                return self.bfresh()
        return v

    def forget(self, st, fn, args, ty):
        for a in args:
            self.havoc_reach(st, a, set())
        if ty is not None and self.tys[ty]["k"] == "never":
            return []
        self.c17.forgot += 1
        return [(st, Top(ty) if ty is not None else UNDEF)]

    def unit(self, st, fn, args, ty):
        for a in args:
            self.havoc_reach(st, a, set())
        return self.seen([(st, Top(ty))], fn, ty)

    def mark(self, s, what):
        if not s.g.get("err"):
            s.g["err"] = 1
            s.imp = False           # whether the call happens at all is not in question
            s.g["_err"] = what
            self.c17.sources.add(what)

    def seen(self, out, fn, ty):
        """tell failures from successes"""
        res = []
        for s, v in out:
            if isinstance(v, Top):
                v = self.mat(s, v)
            if not isinstance(v, En):
                res.append((s, v))
                continue
            c = s.F.val(v.tag)
            w = self.where()
            what = "%s at %s:%s" % (fn.p, w[-1][1], w[-1][2])
            if c is None:
                s2 = s.copy()
                if s2.F.assume(T.eq(T.sub(v.tag, K(1)))):
                    self.mark(s2, what)
                    res.append((s2, En(v.ty, K(1), v.pay)))
                if s.F.assume(T.eq(v.tag)):
                    res.append((s, En(v.ty, K(0), v.pay)))
            else:
                if c == 1:
                    self.mark(s, what)
                res.append((s, v))
        return res


class Hooks:
    def __init__(self, c):
        self.c = c
        self.D = None

    def on_write(self, *a):
        pass

    def on_back(self, *a):
        pass

    def on_variant(self, I, st, ty, i, ops):
        if i == 1 and self.c.E.isresult(ty):
            w = I.where()
            what = "the error made at %s:%s" % (w[-1][1], w[-1][2]) if w else "an error"
            lw = [x for x in w if not x[1].startswith("/")]
            if lw:
                what = "the error made at %s:%s" % (lw[-1][1], lw[-1][2])
            I.mark(st, what)


class C17:
    def __init__(self, p):
        self.p = p
        self.E = Errs(p)
        self.rel = {}
        self.sources = set()
        self.panics = []
        self.forgot = 0
        self._cl = {}
        self.relevant_all()

    def relevant_all(self):
        """local functions that can meet an error: themselves or through local functions and closures they use"""
        fs = [f for f in self.p.local_fns() if f.has_body()]
        direct = {f.id: any(self.E.mentions(l) for l in f.locals) for f in fs}
        nb = {}
        for f in fs:
            calls, refs = self.p.edges(f)
            nb[f.id] = {g for g in set(calls) | set(refs) if self.p.fns[g].local}
            # closures handed to functions of other crates
            for g in set(calls) | set(refs):
                if not self.p.fns[g].local:
                    nb[f.id] |= self.closures(self.p.fns[g])
        ch = True
        while ch:
            ch = False
            for f in fs:
                if not direct[f.id] and any(direct.get(g) for g in nb[f.id]):
                    direct[f.id] = True
                    ch = True
        self.rel = direct

    def closures(self, fn):
        """local closures and functions in the types of the parameters"""
        r = self._cl.get(fn.id)
        if r is None:
            r = set()
            seen = set()

            def go(ty):
                if ty in seen:
                    return
                seen.add(ty)
                t = self.p.tys[ty]
                if t["k"] == "closure" and "inst" in t and isinstance(t["inst"], int):
                    if self.p.fns[t["inst"]].local:
                        r.add(t["inst"])
                if t["k"] == "fndef" and isinstance(t.get("c"), dict) and "i" in t["c"] and self.p.fns[t["c"]["i"]].local:
                    r.add(t["c"]["i"])
                if t["k"] in ("ref", "ptr"):
                    go(t["e"])
                for x in t.get("f") or ():
                    if isinstance(x, int):
                        go(x)
                if t["k"] == "adt":
                    for x in t.get("ga") or ():
                        if isinstance(x, int):
                            go(x)
            for x in (fn.locals[1:1 + fn.argc] if fn.locals else ()):
                go(x)
            self._cl[fn.id] = r
        return r

    def executed(self, fn):
        if fn.local:
            return self.rel.get(fn.id, False)
        if any(self.E.mentions(x) for x in fn.locals or ()):
            return True
        if any(self.rel.get(g) for g in self.closures(fn)):
            return True
        return fn.p.startswith(KEEP) and fn.has_body()

    def unit(self, f, secs):
        r = self.unit1(f, secs / 2, True)
        if r[0] is None or r[0] or self.panics:
            keep = self.panics
            q = self.unit1(f, min(60, secs / 2), False)
            if q[0] is not None:
                return q
            self.panics = keep
        return r

    def arg(self, I, st, ty, depth):
        """an arbitrary argument, its references made out"""
        t = self.p.tys[ty]
        k = t["k"]
        if k in ("ref", "ptr") and depth > 0:
            ek = self.p.tys[t["e"]]["k"]
            if ek in ("slice", "str", "dyn", "other"):
                return I.mat(st, Top(ty))
            o = ("h", I.new())
            st.mem[o] = self.arg(I, st, t["e"], depth - 1)
            return Ref(o)
        if k in ("tuple", "closure") and depth > 0:
            return Agg([self.arg(I, st, x, depth - 1) for x in t["f"]])
        if k == "adt" and t["ak"] == "struct" and t["p"] == "std::vec::Vec":
            return I.mat(st, Top(ty))
        if k == "adt" and t["ak"] == "struct" and t["v"] and depth > 0 and not I.models.is_reg(t):
            return Agg([self.arg(I, st, x[1], depth - 1) for x in t["v"][0]["f"]])
        return Top(ty)

    def unit1(self, f, secs, coarse):
        m = Models(self.p)
        I = Run(self.p, m, Hooks(self))
        I.c17 = self
        I.coarse = I.nounroll = coarse
        I.deadline = time.time() + secs
        self.panics = []
        st = X.State()
        try:
            rets = I.call(st, f, [self.arg(I, st, f.locals[i + 1], 4) for i in range(f.argc)])
        except X.Stop as e:
            return None, str(e), I
        bad = []
        isres = self.E.isresult(f.locals[0])
        for s, v in rets:
            if not s.g.get("err"):
                continue
            if isres:
                if isinstance(v, Top):
                    v = I.mat(s, v)
                if isinstance(v, En) and s.F.val(v.tag) == 1:
                    continue
                d = isinstance(v, En) and s.F.val(v.tag) == 0
            else:
                d = True
            bad.append((bool(s.imp), d, s.g.get("_err"), v))
        return bad, len(rets), I


def check(rep, tier):
    rep.rule = ("every function of the crate that returns a Result with an error type, or is public or started on a worker thread and "
                "can meet one, is interpreted with all calls that can fail both succeeding and failing: no path on which an error "
                "arose returns anything but Err, and none unwraps an error")
    p = common.program()
    c = C17(p)
    reach = p.reach([f.id for f in p.local_fns() if f.pub and f.has_body()])
    units, others = [], []
    for f in p.local_fns():
        if not f.has_body() or f.id not in reach or not f.locals:
            continue
        if c.E.isresult(f.locals[0]):
            units.append(f)
        elif f.pub and c.rel.get(f.id) and not f.parent:
            others.append(f)
    rep.floor("functions that return an error type", len(units), 8)
    sites = set()
    t0 = time.time()
    for f in units + others:
        bad, n, I = c.unit(f, max(5, min(120, 700 - (time.time() - t0))))
        short = f.p
        if bad is None:
            rep.undecided.append("%s: analysis stopped: %s" % (short, n))
            continue
        rep.ok(1)
        for imp, d, src, v in bad:
            if not d or imp:
                rep.undecided.append("%s may return without reporting %s (%r, %s)" % (short, src, v, "imprecise" if imp else "exact"))
            else:
                rep.fail("dropped:%s" % short, "%s returns %s although %s occurred" % (short, "Ok" if c.E.isresult(f.locals[0]) else "normally", src))
        for src, w in c.panics:
            loc = [x for x in w if x[0].startswith(("zune_jpeg",)) or not x[1].startswith("/")]
            rep.fail("panic:%s" % short, "%s turns %s into a panic" % (short, src))
    rep.stats["functions analysed"] = len(units) + len(others)
    rep.stats["places where an error arises"] = len(c.sources)
    rep.samples = sorted(c.sources)[:40]
    rep.floor("error sources", len(c.sources), 30)
    rep.ok(len(c.sources))
