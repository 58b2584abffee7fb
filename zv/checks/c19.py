"""C19: options are stored and returned unchanged."""
import time
from .. import common, segs, hdr, absint as X, terms as T
from ..absint import Agg, En, Ref, Poly, Cond
from ..terms import K, A
from ..models import Models
from ..prog import AnchorMissing

OPT = "ZuneJpegOptions"
# getter, setter, documented default (an int, or the name of a variant)
TABLE = [("get_out_colorspace", "set_out_colorspace", "RGB"), ("get_use_unsafe", "set_use_unsafe", 1),
         ("get_threads", "set_num_threads", 4), ("get_max_width", "set_max_width", 16384),
         ("get_max_height", "set_max_height", 16384), ("get_max_scans", "set_max_scans", 64),
         ("get_strict_mode", "set_strict_mode", 0)]


class Box:
    def __init__(self, rep, p):
        self.rep, self.p = rep, p
        self.I = X.Interp(p, Models(p))
        self.I.deadline = time.time() + 300
        self.J = segs.Judge(rep)
        self.dty = hdr.decoder_ty(p)
        oi = [(i, f[1]) for i, f in enumerate(p.tys[self.dty]["v"][0]["f"]) if p.tys[f[1]]["k"] == "adt" and
              p.tys[f[1]]["p"].split("::")[-1] == OPT]
        if len(oi) != 1:
            raise AnchorMissing("the options field of the decoder")
        self.oi, self.oty = oi[0]
        self.calls = 0

    def options(self, st, name="d.o"):
        return hdr.deep(self.I, st, self.oty, 4, name)

    def arg(self, st, ty, name):
        """an arbitrary argument"""
        return hdr.deep(self.I, st, ty, 4, name)

    def scalar(self, v, ty=None):
        """the one number an option is"""
        while isinstance(v, Agg) and len(v.f) == 1:
            v = v.f[0]
        if isinstance(v, En):
            return v.tag
        if isinstance(v, Cond):
            return self.I.toint(v)
        return v if isinstance(v, Poly) else None

    def call(self, st, f, args):
        self.calls += 1
        return self.I.call(st, f, args)

    def getopt(self, st, name, place):
        """what a getter of the options returns, the options lying at a place of the state"""
        f = hdr.public(self.p, name, OPT)
        s = st.copy()
        byref = self.p.tys[f.locals[1]]["k"] == "ref"
        r = self.call(s, f, [Ref(*place) if byref else self.I.read(s, X.Loc(*place))])
        return [(s2, self.scalar(v)) for s2, v in r]

    def getdec(self, st, name, obj):
        f = hdr.public(self.p, name)
        r = self.call(st.copy(), f, [Ref(obj)])
        return [(s2, self.scalar(v)) for s2, v in r]

    def variant(self, ty, name):
        for i, v in enumerate(self.p.tys[ty]["v"]):
            if v["n"] == name:
                return i
        raise AnchorMissing("variant " + name)

    def default(self, get, want):
        if isinstance(want, str):
            f = hdr.public(self.p, get, OPT)
            return K(self.variant(f.locals[0], want))
        return K(want)

    def expect(self, key, rs, want, text):
        for s, v in rs:
            if v is None or want is None:
                self.J.unknown(key, text + ": value not tracked")
            else:
                self.J.same(key, s, v, want, text)
        if not rs:
            self.J.unknown(key, text + ": no return")

    def all(self, key, st, place, want, what):
        for get, _, _ in TABLE:
            self.expect("%s:%s" % (key, get), self.getopt(st, get, place), want[get], "%s after %s" % (get, what))


def fields(B, st, place):
    """what every getter says at a place, one value each"""
    out = {}
    for get, _, _ in TABLE:
        r = B.getopt(st, get, place)
        out[get] = r[0][1] if len(r) == 1 else None
    return out


def options(B):
    I = B.I
    O, N = ("h", "o"), ("h", "n")
    for get, setter, dflt in TABLE:
        f = hdr.public(B.p, setter, OPT)
        st = X.State()
        st.mem[O] = B.options(st)
        before = fields(B, st, (O,))
        a = B.arg(st, f.locals[2], "d.arg")
        r = B.call(st, f, [st.mem[O] if B.p.tys[f.locals[1]]["k"] != "ref" else Ref(O), a])
        want = dict(before)
        want[get] = B.scalar(a)
        for s, v in r:
            if B.p.tys[f.locals[1]]["k"] != "ref":
                s.mem[N] = v
                at = (N,)
            else:
                at = (O,)
            B.all(setter, s, at, want, setter)
    dflt = {g: B.default(g, d) for g, _, d in TABLE}
    for name in ("new", "default"):
        fs = [f for f in B.p.local_fns() if f.has_body() and f.p.split("::")[-1] == name and f.argc == 0 and
              B.p.tys[f.locals[0]]["k"] == "adt" and B.p.tys[f.locals[0]]["p"].split("::")[-1] == OPT]
        for f in fs:
            for s, v in B.call(X.State(), f, []):
                s.mem[N] = v
                B.all("default:" + name, s, (N,), dflt, "%s::%s()" % (OPT, name))
    B.rep.floor("constructors of options", len(fs), 1)
    return dflt


def decoder(B, dflt):
    I, p = B.I, B.p
    O, N, D = ("h", "o"), ("h", "n"), ("h", "dec")
    at = (D, (B.oi,))
    out = "get_out_colorspace"
    # constructors
    f = hdr.public(p, "new")
    for s, v in B.call(X.State(), f, []):
        s.mem[D] = v
        B.all("Decoder::new", s, at, dflt, "Decoder::new()")
        B.expect("Decoder::new:colorspace", B.getdec(s, "get_output_colorspace", D), dflt[out], "get_output_colorspace after Decoder::new()")
    f = hdr.public(p, "new_with_options")
    st = X.State()
    st.mem[O] = B.options(st)
    want = fields(B, st, (O,))
    for s, v in B.call(st, f, [st.mem[O]]):
        s.mem[D] = v
        B.all("new_with_options", s, at, want, "new_with_options")
        B.expect("new_with_options:colorspace", B.getdec(s, "get_output_colorspace", D), want[out], "get_output_colorspace after new_with_options")

    def start():
        st = X.State()
        st.mem[D] = hdr.deep(I, st, B.dty, 4)
        return st, fields(B, st, at)

    # setters of the decoder: name -> (getters set, from which argument)
    for name, sets in (("rgba", {out: "RGBA"}), ("set_limits", {"get_max_width": 0, "get_max_height": 1}),
                       ("set_output_colorspace", {out: 0}), ("set_num_threads", {"get_threads": 0})):
        try:
            f = hdr.public(p, name)
        except AnchorMissing:
            continue
        st, want = start()
        oldc = B.getdec(st, "get_output_colorspace", D)[0][1]
        args = [B.arg(st, t, "d.arg%d" % i) for i, t in enumerate(f.locals[2:1 + f.argc])]
        new = dict(want)
        for g, a in sets.items():
            if isinstance(a, str):
                new[g] = K(B.variant(hdr.public(p, g, OPT).locals[0], a))
            else:
                new[g] = B.scalar(args[a])
        # outcomes for different arguments are kept apart
        ls = [B.scalar(a) for a in args]
        I.keyhook = lambda I, s: tuple(s.F.arange(a.atom()) for a in ls if a is not None and a.atom() is not None)
        rets = B.call(st, f, [Ref(D)] + args)
        I.keyhook = None
        for s, v in rets:
            w = new
            if isinstance(v, En) and p.tys[f.locals[0]]["p"] == "std::result::Result":
                tag = s.F.val(v.tag)
                a = B.scalar(args[0])
                if tag == 1:
                    # refused: zero, or not representable; nothing may change
                    B.J.must(name + ":refused", s, T.disj(T.eq(a), T.ge(T.sub(a, K(1 << 32)))),
                             "%s refuses only zero and counts that do not fit" % name)
                    w = want
                elif tag == 0:
                    B.J.must(name + ":zero", s, T.ge(T.sub(a, K(1))), "%s accepts no zero" % name)
                else:
                    B.J.unknown(name, "outcome not tracked")
                    continue
            B.all(name, s, at, w, "Decoder::" + name)
            if out in sets:
                B.expect(name + ":colorspace", B.getdec(s, "get_output_colorspace", D), new[out], "get_output_colorspace after Decoder::" + name)
            else:
                B.expect(name + ":colorspace", B.getdec(s, "get_output_colorspace", D), oldc, "get_output_colorspace after Decoder::" + name)


def check(rep, tier):
    rep.rule = ("abstract interpretation of every public setter, getter and constructor on arbitrary options and arguments: "
                "each getter applied to the result must yield the very term that was set, and the old term for every other option")
    p = common.program()
    B = Box(rep, p)
    dflt = options(B)
    decoder(B, dflt)
    for u in B.I.unknown:
        rep.undecided.append("not modelled: %s" % u)
    rep.stats["functions analysed"] = len(B.I.visited)
    rep.stats["calls interpreted"] = B.calls
    rep.trusted += ["zv/models.py: models of the std functions without MIR"]
