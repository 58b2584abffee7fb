"""C06: an image whose headers are accepted respects the limits of the caller."""
from .. import common, segs, hdr, terms as T
from ..segs import FRAME, NAME
from ..terms import K
from ..absint import Poly, Ref


def limit(R, s, name):
    """what the public getter of the options in the decoder returns"""
    p = R.p
    f = hdr.public(p, name, "ZuneJpegOptions")
    oi = [i for i, x in enumerate(p.tys[R.dty]["v"][0]["f"]) if p.tys[x[1]]["k"] == "adt" and
          p.tys[x[1]]["p"].split("::")[-1] == "ZuneJpegOptions"]
    if len(oi) != 1:
        return None
    I = R.I
    s2 = s.copy()
    hk, I.hooks, dl, I.deadline = I.hooks, None, I.deadline, None
    I.mute += 1
    try:
        byref = p.tys[f.locals[1]]["k"] == "ref"
        a = Ref(R.D, (oi[0],)) if byref else s2.mem[R.D].f[oi[0]]
        r = I.call(s2, f, [a])
    finally:
        I.mute -= 1
        I.hooks, I.deadline = hk, dl
    return r[0][1] if len(r) == 1 else None


def check(rep, tier):
    rep.rule = ("abstract interpretation of read_headers from an arbitrary decoder: in every state with which it returns Ok, "
                "what width() and height() report must be provably between 1 and what get_max_width()/get_max_height() of the "
                "decoder's options report, the options being those the caller set")
    p = common.program()
    R = segs.Run(p, 600 if tier == "quick" else 800)
    if R.stop:
        rep.undecided.append("analysis stopped: " + R.stop)
        return
    J = segs.Judge(rep)
    n = 0
    groups = [("accepted headers", s) for s in R.oks] + [("after " + NAME[g.code], g.s) for g in R.segments(set(FRAME))]
    for what, s in groups:
        nc = R.ncomp(s)
        if nc is not None:
            J.must("frame", s, T.ge(T.sub(K(int(nc)), K(1))), "%s: there is a frame" % what)
        for get, lim in (("width", "get_max_width"), ("height", "get_max_height")):
            v, m = R.getter(s, get), limit(R, s, lim)
            if not isinstance(v, Poly) or not isinstance(m, Poly):
                J.unknown(get, "not tracked")
                continue
            n += 1
            J.must(get + ":zero", s, T.ge(T.sub(v, K(1))), "%s: %s is not zero" % (what, get))
            J.must(get + ":limit", s, T.ge(T.sub(m, v)), "%s: %s is at most the limit" % (what, get))
            i = hdr.field(p, R.dty, "options")
            if i is not None:
                old = R.h.init.f[i]
                lv = [x for x in old.f if isinstance(x, Poly) and x == m]
                if not lv:
                    J.must(get + ":option", s, T.FALSE, "the limit in force is the one the caller set (it is %r)" % (m,)) \
                        if not any(l.imp or l.kind == "leaf" and l.meta == "phi" for l in m.leaves) else \
                        J.unknown(get, "limit not tracked")
                else:
                    rep.ok()
    rep.stats["values checked"] = n
    rep.stats["accepting states"] = len(R.oks)
    if not R.oks:
        rep.undecided.append("no accepting state found")
    rep.trusted += ["zv/models.py: models of the std functions without MIR"]
