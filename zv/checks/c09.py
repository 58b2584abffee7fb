"""C09: pixels are converted to the layout that was requested."""
import multiprocessing, time
from .. import common, hdr, pix, rest, tailrun, terms as T
from ..absint import Agg, En, Fnp, Ref, VecV, Interp, State, Stop, Loc
from ..models import Models
from ..terms import K

WANT = {"RGB": 3, "RGBA": 4, "RGBX": 4}


def layouts(p, rep):
    """converter id -> the requests its output satisfies; None: not known"""
    out = {}
    for f in pix.converters(p):
        c = pix.Conv(p, f)
        nm = f.p.split("::")[-1]
        ok = set(WANT)
        if c.stop or c.I.unknown or not c.rets:
            rep.undecided.append("%s: %s" % (nm, c.stop or c.I.unknown or "does not return"))
            out[f.id] = None
            continue
        for s, _ in c.rets:
            v = s.F.val(s.mem[("h", "off")])
            if v is None:
                ok = None
                break
            w, r = divmod(int(v) - pix.OFF, c.n)
            if r:
                w = -1
            ok = {x for x in ok if WANT[x] == w}
            for i in range(c.n):
                for k in range(3 if ok else 0):
                    b = c.byte(s, pix.OFF + i * w + k)
                    if not isinstance(b, T.Poly):
                        ok = None
                        break
                    j = [pix.judge(s.F, b, ch, c.src[0][i], c.src[1][i], c.src[2][i], tol=pix.Fr(1, 4))[0] for ch in pix.CH]
                    if j[k] is None:
                        ok = None
                        break
                    if not j[k]:
                        ok = set()
                if not ok:
                    break
                if w == 4:
                    b = c.byte(s, pix.OFF + i * w + 3)
                    a = s.F.val(b) if isinstance(b, T.Poly) else None
                    if a != 255:
                        ok = None if a is None and not isinstance(b, T.Poly) else ok - {"RGBA"}
            if not ok:
                break
        if ok is None:
            rep.undecided.append("%s: layout not tracked" % nm)
        out[f.id] = ok
        rep.samples.append("%s: %s" % (f.n, "not known" if ok is None else "satisfies " + (", ".join(sorted(ok)) or "no request")))
    return out


def names(p, cs):
    return {v["n"]: i for i, v in enumerate(p.tys[cs]["v"])}


def enum(p, cs, i):
    return En(cs, K(i), [Agg([]) for _ in p.tys[cs]["v"]])


def routes(p):
    """(name, the colour space requested, how the decoder is made)"""
    setter = hdr.public(p, "set_out_colorspace", "ZuneJpegOptions")
    make = hdr.public(p, "new_with_options")
    cs = setter.locals[2]
    oty = setter.locals[1]
    ids = names(p, cs)

    def opts(I, st, v):
        o = hdr.deep(I, st, oty, 3, "o")
        return I.call(st, setter, [o, enum(p, cs, ids[v])]) if v else [(st, o)]

    def build(I, st, D, v):
        out = []
        for s, o in opts(I, st, v):
            for s2, d in I.call(s, make, [o]):
                s2.mem[D] = d
                out.append(s2)
        return I.joinall(out)

    def later(fn, v):
        def f(I, st, D):
            out = []
            s = build(I, st, D, None)
            for s2, _ in I.call(s, fn, [Ref(D)] + ([enum(p, cs, ids[v])] if fn.argc == 2 else [])):
                out.append(s2)
            return I.joinall(out)
        return f
    out = []
    for v in WANT:
        if v in ids:
            out.append(("options", v, lambda I, st, D, v=v: build(I, st, D, v)))
            try:
                out.append(("set_output_colorspace", v, later(hdr.public(p, "set_output_colorspace"), v)))
            except hdr.AnchorMissing:
                pass
    try:
        out.append(("rgba", "RGBA", later(hdr.public(p, "rgba"), "RGBA")))
    except hdr.AnchorMissing:
        pass
    return out, cs, ids


def outfield(p, cs):
    """the field of the decoder with the colour space of the output"""
    from .c08 import which
    dty = hdr.decoder_ty(p)
    i = which(p, hdr.public(p, "get_output_colorspace"), dty)
    if i is not None and p.tys[dty]["v"][0]["f"][i][1] == cs:
        return i
    c = [i for i, f in enumerate(p.tys[dty]["v"][0]["f"]) if f[1] == cs and "out" in f[0]]
    if len(c) != 1:
        raise hdr.AnchorMissing("the colour space of the output in the decoder")
    return c[0]


def convfields(p, lay):
    """fields of the decoder that hold converters: those whose type is the signature of one"""
    out = []
    for i, n, ty in pix.conv_type(p):
        f = p.tys[ty]
        out.append(i)
    return out


def headers(p, init, lay, oi, ids, v, secs):
    """[(kind, text)] for one way to ask for v: what is in the decoder when its pixels are decoded"""
    cf = convfields(p, lay)
    seen = []

    def key(I, s):
        d = s.mem.get(("h", "dec"))
        if not isinstance(d, Agg):
            return None
        return tuple(tuple(sorted(d.f[i].s)) if isinstance(d.f[i], Fnp) else None for i in cf) + \
            ((s.F.val(d.f[oi].tag) if isinstance(d.f[oi], En) else None),)

    def record(I, st, fn, r):
        seen.append((fn.p, st.copy()))
    h = hdr.run(p, None, secs=secs, root="decode_buffer", key=key, init=init,
                prep=lambda I, m: rest.cut(p, m, hdr.public(p, "decode_buffer"), record))
    if h.stop:
        return [("?", "headers: %s" % h.stop)]
    out = []
    for fp, s in seen:
        d = s.mem.get(h.D)
        if not isinstance(d, Agg) or not isinstance(d.f[oi], En):
            out.append(("?", "%s: the decoder is not known" % fp))
            continue
        tag = s.F.val(d.f[oi].tag)
        out.append(("n", ""))
        if tag == ids[v]:
            for i in cf:
                c = d.f[i]
                if isinstance(c, Fnp) and c.s & set(lay):
                    out.append(("f", i))
                    bad = [j for j in c.s if j not in lay or lay[j] is not None and v not in lay[j]]
                    dk = [j for j in c.s if j in lay and lay[j] is None]
                    if bad:
                        out.append(("choice", "%s: the converter may be %s, which does not produce %s" % (
                            fp.split("::")[-1], ", ".join(sorted(p.fns[j].n for j in bad)), v)))
                    elif dk:
                        out.append(("?", "layout of a converter not known"))
                    else:
                        out.append(("ok", ""))
        elif tag is None:
            out.append(("?", "colour space of the output not known"))
        else:
            # only images with one component may get another colour space
            ci = hdr.field(p, h.dty, "components")
            n = d.f[ci].len if ci is not None and isinstance(d.f[ci], VecV) else None
            if n is None:
                out.append(("?", "number of components not known"))
            elif s.F.holds(T.eq(T.sub(n, K(1)))) is True:
                out.append(("ok", ""))
            elif s.F.val(n) == 3:
                out.append(("space", "%s: an image with three components is decoded to another colour space (number %d)" % (fp.split("::")[-1], tag)))
            else:
                out.append(("?", "number of components: %s, colour space %d" % (n, tag)))
    if not any(k == "n" for k, _ in out):
        out.append(("?", "nothing is decoded"))
    return out


def job(a):
    k, rs = a
    p, init, lay, oi, ids, v, secs = rs
    try:
        return k, headers(p, init, lay, oi, ids, v, secs)
    except Exception as e:
        return k, [("?", repr(e)[:300])]


def decoding(p, root, lay, oi, ids, cf, secs):
    """the converters that the decoding routines call"""
    inv = {i: n for n, i in ids.items()}
    called = []
    unseen = []

    def setup(I, m):
        I.maxparts = 200
        for j in lay:
            def h(I, st, fn, args):
                called.append((st.g.get("cs"), fn.id))
                for a in args[3:]:
                    I.havoc_reach(st, a, set())
                return [(st, Agg([]))]
            m.stub(p.fns[j], h)

        def task(I, st, fn, args):
            # the task runs on the state in which it was created
            ty = I.argtys[1]
            for t in [I.tys[ty]] + [I.tys[g] for g in fn.ga if isinstance(g, int)]:
                if t["k"] == "closure" and t.get("inst") is not None:
                    g = p.fns[t["inst"]]
                    s2 = st.copy()
                    a = args[1]
                    if p.tys[g.locals[1]]["k"] == "ref":
                        o = ("h", I.new())
                        s2.mem[o] = a
                        a = Ref(o)
                    I.call(s2, g, [a])
                    break
            else:
                unseen.append(fn.n)
            for a in args[1:]:
                m.job_effects(I, st, a, set())
            return [(st, Agg(()))]
        m.on_execute = task

    def start(I, s, d):
        v = s.F.val(d.f[oi].tag)
        s.g["cs"] = v
        ok = [j for j in lay if lay[j] is not None and inv.get(v) in lay[j]]
        if ok:
            f = list(d.f)
            for i in cf:
                f[i] = Fnp(ok)
            I.write(s, Loc(I.D, ()), Agg(f))
    h = tailrun.run(p, root, secs=secs, split=(oi,), want=(oi,), start=start, setup=setup, coarse=True)
    out = [("?", "a task of %s is not known" % n) for n in set(unseen)]
    if h.stop:
        out.append(("?", "%s: %s" % (root, h.stop)))
    for v, j in sorted(set(called), key=str):
        n = inv.get(v)
        if n not in WANT:
            continue
        if lay[j] is None:
            out.append(("?", "layout of %s not known" % p.fns[j].n))
        elif n in lay[j]:
            out.append(("ok", n))
        else:
            out.append(("call", "%s: %s is called, which does not produce %s" % (root, p.fns[j].n, n)))
    for v in WANT:
        if v in ids and not any(k == "ok" and t == v for k, t in out):
            out.append(("?", "%s: no converter is called for %s" % (root, v)))
    return out


JOBS = []


def runjob(i):
    return job((i, JOBS[i]))


def check(rep, tier):
    rep.rule = ("for every way to request RGB, RGBA or RGBX: when pixels of a three-component image are decoded, the converter held by the decoder is one "
                "whose bytes (interpreted over 16 arbitrary pixels) are red, green, blue [255] with the right pixel size; the decoding routines "
                "call no other converter and keep the colour space (abstract interpretation of the header parser and of the decoding routines)")
    p = common.program()
    lay = layouts(p, rep)
    rs, cs, ids = routes(p)
    oi = outfield(p, cs)
    secs = 400 if tier == "quick" else 800
    JOBS[:] = [(p, init, lay, oi, ids, v, secs) for _, v, init in rs]
    with multiprocessing.get_context("fork").Pool(min(8, len(rs))) as pool:
        res = pool.map(runjob, range(len(rs)), chunksize=1)
    n = 0
    cf = set()
    for (i, out), (name, v, _) in zip(res, rs):
        if not any(k in ("ok", "choice", "?") for k, _ in out):
            rep.undecided.append("%s, %s: no converter in the decoder" % (name, v))
        for k, txt in out:
            if k == "f":
                cf.add(txt)
                continue
            if k == "ok":
                rep.ok()
            elif k == "n":
                n += 1
            elif k == "?":
                rep.undecided.append("%s, %s: %s" % (name, v, txt))
            else:
                rep.fail("%s:%s:%s" % (k, name, v), "%s requested through %s: %s" % (v, name, txt))
    rep.stats["converters"] = len(lay)
    rep.stats["ways to request a layout"] = len(rs)
    rep.stats["states in which pixels are decoded"] = n
    if cf:
        for k, txt in decoding(p, "decode_buffer", lay, oi, ids, cf, secs):
            if k == "ok":
                rep.ok()
            elif k == "?":
                rep.undecided.append(txt)
            else:
                rep.fail("call", txt)
