"""C08: a successful decode returns width x height x channels bytes.

An arbitrary decoder whose headers were accepted, then the decoding routines.  The length of the
vector that is returned is compared, as a term, with what the public accessors report at that exit."""
from .. import segs, hdr, rest, tailrun, common, absint as X, terms as T
from ..absint import Agg, En, Ref, Top, VecV, Poly
from ..terms import K

CHANNELS = {"RGB": 3, "GRAYSCALE": 1, "YCbCr": 3, "RGBA": 4, "RGBX": 4, "CMYK": 4, "YCCK": 4}


def getter(I, s, fn, D):
    st = s.copy()
    out = I.call(st, fn, [Ref(D)])
    return out[0][1] if len(out) == 1 else None


def which(p, fn, dty):
    """the field of the decoder a getter returns"""
    I = X.Interp(p, tailrun.Models(p))
    st = X.State()
    D = ("h", "dec")
    st.mem[D] = hdr.deep(I, st, dty, 3)
    v = getter(I, st, fn, D)
    for i, x in enumerate(st.mem[D].f):
        if X.veq(x, v) or isinstance(x, Agg) and any(X.veq(y, v) for y in x.f):
            return i
    return None


def nc_ty(p, nc):
    t = p.tys[nc.locals[1]]
    return p.tys[t["e"]]["p"] if t["k"] == "ref" else t.get("p")


def agrees(p, rep, J, cs, ci):
    """is what the decoder reports after the headers the colour space it decodes to?"""
    for root in ("decode_buffer",):
        seen = []

        def record(I, st, fn, r):
            seen.append((fn.p, st.copy()))
        h = hdr.run(p, None, secs=250, root=root, prep=lambda I, m: rest.cut(p, m, hdr.public(p, root), record))
        if h.stop:
            rep.undecided.append("headers: %s" % h.stop)
            return
        for fp, s in seen:
            d = s.mem.get(h.D)
            v = getter(h.I, s, cs, h.D)
            w = d.f[ci] if isinstance(d, Agg) else None
            if isinstance(v, En) and isinstance(w, En):
                J.must("reported:%s" % fp.split("::")[-1], s, T.eq(T.sub(v.tag, w.tag)),
                       "%s: the colour space reported is %s, that of the pixels is %s" % (fp, v.tag, w.tag))
            else:
                rep.undecided.append("%s: reported colour space not known" % fp)


def check(rep, tier):
    p = common.program()
    dty = hdr.decoder_ty(p)
    width, height, cs = (hdr.public(p, n) for n in ("width", "height", "get_output_colorspace"))
    nc = hdr.public(p, "num_components", "ColorSpace")
    ci = which(p, cs, dty)
    wi = {which(p, width, dty), which(p, height, dty)}
    rep.rule = ("at every exit of decode_buffer and decode_file that may be a success, the length of the returned vector equals "
                "width() * height() * channels of get_output_colorspace() (abstract interpretation of the decoding routines over an "
                "arbitrary decoder with accepted headers; polynomial terms)")
    if ci is None or None in wi:
        rep.undecided.append("the accessors do not return a field of the decoder")
        return
    J = segs.Judge(rep)
    csty = None
    isdirect = lambda i: p.tys[p.tys[dty]["v"][0]["f"][i][1]].get("p") == nc_ty(p, nc)
    reported = None
    if not isdirect(ci):
        # the colour space that is reported is not a field of its own: is it that of the pixels?
        cand = [i for i in range(len(p.tys[dty]["v"][0]["f"])) if isdirect(i) and "out" in p.tys[dty]["v"][0]["f"][i][0]]
        if len(cand) != 1:
            rep.undecided.append("the colour space of the output is not a field of the decoder")
            return
        agrees(p, rep, J, cs, cand[0])
        reported, ci = ci, cand[0]
    names = {}
    for root in ("decode_buffer", "decode_file"):
        try:
            hdr.public(p, root)
        except hdr.AnchorMissing:
            continue

        def key(I, s):
            d = s.mem.get(I.D)
            if not isinstance(d, Agg):
                return None
            return I.vkey(d.f[ci], None, 0, s.F), tuple(str(d.f[i])[:400] for i in sorted(wi))

        def setup(I, m):
            I.keyhook = key
            I.lenkey = True
            I.maxparts = 200

        def start(I, s, d):
            s.g["cs"] = s.F.val(d.f[ci].tag)
        h = tailrun.run(p, root, secs=400, split=(ci,), want=tuple(wi) + (ci,), start=start, setup=setup)
        I = h.I
        rep.stats["%s functions" % root] = len(I.funcs) if hasattr(I, "funcs") else len(h.tails)
        rep.notes += h.cuts.notes
        if h.stop:
            rep.undecided.append("%s: %s" % (root, h.stop))
            continue
        n = 0
        for s, v in h.rets:
            if isinstance(v, Top):
                v = I.mat(s, v)
            c = s.F.val(v.tag)
            if c == 1:
                continue
            if c is None:
                s = s.copy()
                if not s.F.assume(T.eq(v.tag)):
                    continue
            n += 1
            vec = v.pay[0].f[0] if isinstance(v.pay[0], Agg) else v.pay[0]
            w, hh, col = getter(I, s, width, h.D), getter(I, s, height, h.D), getter(I, s, cs, h.D) if reported is None else s.mem[h.D].f[ci]
            if not (isinstance(vec, VecV) and isinstance(w, Poly) and isinstance(hh, Poly) and isinstance(col, En)):
                rep.undecided.append("%s: the result of an exit is not known (%r)" % (root, v))
                continue
            csty = col.ty
            tag = s.F.val(col.tag)
            if tag is None:
                rep.undecided.append("%s: colour space of an exit not known" % root)
                continue
            nm = I.tys[csty]["v"][int(tag)]["n"]
            ch = CHANNELS.get(nm)
            if ch is None:
                rep.undecided.append("%s: colour space %s" % (root, nm))
                continue
            want = T.mul(T.mul(w, hh), K(ch))
            d = T.sub(vec.len, want)
            names[nm] = names.get(nm, 0) + 1
            if J.must("length:%s:%s" % (root, nm), s, T.eq(d), "%s, output %s: the returned buffer has %s bytes, not %s" % (root, nm, vec.len, want)) \
                    and len(rep.samples) < 20:
                rep.samples.append("%s, %s: length %s" % (root, nm, vec.len))
        rep.stats["%s successful exits" % root] = n
        if n == 0:
            rep.undecided.append("%s: no successful exit" % root)
    # the public table of channels itself
    if csty is not None:
        I = X.Interp(p, tailrun.Models(p))
        for i, v in enumerate(p.tys[csty]["v"]):
            if v["n"] in CHANNELS:
                st = X.State()
                out = I.call(st, nc, [En(csty, K(i), [Agg([]) for _ in p.tys[csty]["v"]])])
                ok = all(isinstance(x, Poly) and s.F.val(x) == CHANNELS[v["n"]] for s, x in out) and out
                bad = [x for s, x in out if isinstance(x, Poly) and s.F.val(x) not in (None, CHANNELS[v["n"]])]
                if ok:
                    rep.ok()
                elif bad:
                    rep.fail("channels:" + v["n"], "%s reports %s channels for %s" % (nc.p, bad[0], v["n"]))
                else:
                    rep.undecided.append("channels of " + v["n"])
    rep.stats["colour spaces"] = len(names)
