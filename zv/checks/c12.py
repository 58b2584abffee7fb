"""C12: colour conversions implement the JPEG YCbCr transform."""
from .. import common, pix, terms as T


def check(rep, tier):
    rep.rule = ("every function that may be used as colour converter is interpreted over 16 arbitrary samples per component (vector "
                "registers lane by lane); each output byte must be, as a linear form over the samples, the BT.601 combination of "
                "the samples of its own pixel (coefficients within 2%, rounding within 1.5 levels), clamped to 0..255, and bytes "
                "outside the 16 pixels stay as they were")
    p = common.program()
    fs = pix.converters(p)
    n = 0
    coefs = {}
    for f in fs:
        nm = f.p.split("::")[-1]
        c = pix.Conv(p, f)
        if c.stop or c.I.unknown:
            rep.undecided.append("%s: %s" % (nm, c.stop or c.I.unknown))
        elif not c.rets:
            rep.fail("returns:%s" % nm, "%s returns for no samples: %s" % (f.n, [r[5] for r in c.I.rec if r[2] is False][:2]))
        for r in c.I.rec:
            if r[2] is False:
                rep.undecided.append("%s: may panic: %s %s" % (nm, r[1], r[5]))
        for s, _ in c.rets:
            v = s.F.val(s.mem[("h", "off")])
            w = None if v is None else (int(v) - pix.OFF) / c.n
            if w not in (3, 4):
                if v is None:
                    rep.undecided.append("%s: end of the pixels not tracked" % nm)
                else:
                    rep.fail("advance:%s" % nm, "%s: the position moves by %d bytes for %d pixels" % (f.n, int(v) - pix.OFF, c.n))
                continue
            w = int(w)
            for i in range(c.n):
                for k, ch in enumerate(pix.CH):
                    b = c.byte(s, pix.OFF + i * w + k)
                    if not isinstance(b, T.Poly):
                        rep.undecided.append("%s: byte not tracked" % nm)
                        continue
                    ok, why = pix.judge(s.F, b, ch, c.src[0][i], c.src[1][i], c.src[2][i])
                    n += 1
                    if ok is None:
                        rep.undecided.append("%s: pixel %d, %s: %s" % (nm, i, ch, why))
                    else:
                        rep.obligation(ok, "pixel:%s:%s" % (nm, ch), "%s: %s of pixel %d: %s" % (f.n, ch, i, why))
                    if ok:
                        q, _, _ = pix.peel(s.F, b)
                        co = pix.linear(s.F, q)[0]
                        coefs.setdefault((ch, tuple(co.get((c.src[j][i],), 0) for j in range(3))), set()).add(nm)
            for i in list(range(pix.OFF)) + list(range(pix.OFF + c.n * w, pix.LEN)):
                b = c.byte(s, i)
                if isinstance(b, T.Poly):
                    rep.obligation(b == c.old[i], "outside:%s" % nm, "%s: byte %d relative to the 16 pixels is changed" % (f.n, i - pix.OFF))
                else:
                    rep.undecided.append("%s: byte %d not tracked" % (nm, i))
    for ch in pix.CH:
        ks = [(k, v) for (c2, k), v in coefs.items() if c2 == ch]
        rep.obligation(len(ks) <= 1, "agree:" + ch, "%s is not computed the same way everywhere: %s" % (
            ch, "; ".join("%s in %s" % ([float(x) for x in k], ", ".join(sorted(v))) for k, v in ks)))
    rep.stats["converters"] = [f.n for f in fs]
    rep.stats["channel values judged"] = n
    rep.floor("converters found", len(fs), 3)
