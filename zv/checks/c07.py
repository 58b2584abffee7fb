"""C07: a progressive image is decoded successfully only if it has no more scans than allowed.

An arbitrary decoder with accepted headers (one scan header read), then the decoding routines.  Every
success of a routine that reads a scan header (it sets the spectral band of the scan) adds one to a
ghost counter; at every successful exit of a progressive image the counter is at most the limit."""
from .. import segs, hdr, tailrun, common, absint as X, terms as T
from ..absint import Agg, En, Ref, Top, Poly, Loc
from ..terms import K

N = ("h", "scans")
BAND = ("spec_start", "spec_end")


def check(rep, tier):
    p = common.program()
    dty = hdr.decoder_ty(p)
    rep.rule = ("ghost counter of scan headers read (1 after the headers, +1 on each success of a routine that sets the band of a scan); at every "
                "successful exit of decode_buffer and decode_file for a progressive image: counter <= get_max_scans() (abstract interpretation, "
                "loop invariants as linear relations between the ghost and program variables)")
    names = [f[0] for f in p.tys[dty]["v"][0]["f"]]
    lim = hdr.public(p, "get_max_scans", "ZuneJpegOptions")
    if "is_progressive" not in names or not any(b in names for b in BAND):
        rep.undecided.append("the decoder has no field that says whether it is progressive or which band a scan covers")
        return
    pi = names.index("is_progressive")
    for root in ("decode_buffer", "decode_file"):
        try:
            hdr.public(p, root)
        except hdr.AnchorMissing:
            continue
        r = common.Report(rep.pid)
        explore(p, r, root, pi, lim, names, 0)
        if r.undecided and not r.viol:
            # look for a run with few scans
            q = common.Report(rep.pid)
            explore(p, q, root, pi, lim, names, 6)
            for k, t in q.viol:
                r.fail(k, t)
        for k in ("undecided", "viol", "notes"):
            setattr(rep, k, getattr(rep, k) + getattr(r, k))
        rep.stats.update(r.stats)
        rep.obligations += r.obligations
        rep.discharged += r.discharged


def explore(p, rep, root, pi, lim, names, cap):
    """cap: only runs with that many scans, counted exactly; 0: all runs"""
    J = segs.Judge(rep)
    if True:
        seen = {}

        def event(I, s, fn):
            sc, al = I.scans
            if fn.id in sc:
                seen[fn.p] = seen.get(fn.p, 0) + 1
                if cap:
                    s.g["n"] += 1
                    return [s] if s.g["n"] <= cap else []
                v = s.mem.get(N)
                if isinstance(v, Poly):
                    s.mem[N] = T.add(v, K(1))
                return [s]
            if fn.id in al:
                # reads any number of scan headers on the way
                if cap:
                    return []
                t = s.copy()
                t.mem[N] = I.freshr(0, 1 << 62, "morescans")
                t.imp = True
                seen[fn.p + " (indirect)"] = 1
                return [s, t]
            return [s]

        def start(I, s, d):
            s.mem[N] = K(1)
            if cap:
                s.g["n"] = 1
            s.g["prog"] = {True: 1, False: 0}.get(s.F.holds(d.f[pi]) if not isinstance(d.f[pi], Poly) else None)

        def setup(I, m):
            wr = set()
            for b in BAND:
                if b in names:
                    wr |= I.cuts.writers(b)[0]
            # a routine that calls another one counts through it
            inner = set()
            for i in wr:
                below = set()
                for j in p.edges(p.fns[i])[0] | p.edges(p.fns[i])[1]:
                    below |= set(p.reach([j]))
                if below & (wr - {i}):
                    inner.add(i)
            sc = wr - inner
            al = set()
            for i in p.reach([hdr.public(p, root).id]):
                f = p.fns[i]
                if I.cuts.isunit(f) and i not in sc and set(p.reach([i])) & sc:
                    al.add(i)
            I.scans = sc, al
            I.maxparts = 200
            I.relhook = rel if not cap else None

        def rel(I, s):
            c, d = s.mem.get(N), s.mem.get(I.D)
            if not isinstance(c, Poly) or not isinstance(d, Agg):
                return [None]
            mx = limit(I, s, lim, I.D, I.cuts.opts())
            return [T.sub(mx, c) if mx is not None else None]
        h = tailrun.run(p, root, secs=400, split=(pi,), want=(pi,), start=start, setup=setup, event=event, opens=openers(p, root, lim))
        I = h.I
        rep.notes += h.cuts.notes
        if h.stop:
            rep.undecided.append("%s: %s" % (root, h.stop))
            return
        if not seen:
            rep.undecided.append("%s: no routine that reads a scan header is called after the headers" % root)
        rep.stats["%s scan routines" % root] = len(seen)
        n = 0
        for s, v in h.rets:
            if isinstance(v, Top):
                v = I.mat(s, v)
            if s.F.val(v.tag) == 1 or s.g.get("prog") == 0:
                continue
            s = s.copy()
            if not s.F.assume(T.eq(v.tag)):
                continue
            n += 1
            d = s.mem[h.D]
            oi = h.cuts.opts()
            mx = limit(I, s, lim, h.D, oi)
            c = K(s.g["n"]) if cap else s.mem.get(N)
            if mx is None or not isinstance(c, Poly):
                rep.undecided.append("%s: limit or counter not known" % root)
                continue
            J.must("scans:%s" % root, s, T.ge(T.sub(mx, c)), "%s succeeds after %s scans of a progressive image, the limit is %s" % (root, c, mx))
        rep.stats["%s successful exits" % root] = n
        if not n:
            rep.undecided.append("%s: no successful exit" % root)


def readers(p, lim):
    """ids of the local functions that get at the limit: through the public getter or the field it reads"""
    oty = p.tys[lim.locals[1]].get("e", lim.locals[1])
    ix = set(fields(p, lim, oty))
    out = {lim.id}
    for f in p.local_fns():
        if f.has_body() and ix & set(fields(p, f, oty)):
            out.add(f.id)
    return out


def fields(p, f, oty):
    """fields of the options that f reads"""
    for b in f.live_blocks():
        blk = f.bb[b]
        pls = []
        for s in blk["s"]:
            if s[0] == "=":
                pls += [o[1] for o in p.rv_ops(s[2]) if o[0] in ("cp", "mv")]
                if s[2][0] in ("ref", "raw"):
                    pls.append(s[2][2])
        if blk["t"][0] == "call":
            pls += [o[1] for o in blk["t"][2] if o[0] in ("cp", "mv")]
        elif blk["t"][0] == "switch" and blk["t"][1][0] in ("cp", "mv"):
            pls.append(blk["t"][1][1])
        for pl in pls:
            t = f.locals[pl[0]]
            for e in pl[1]:
                if e[0] == "f" and t == oty:
                    yield e[1]
                if e == "*" or e[0] in ("i", "ci", "ss"):
                    t = p.tys[t].get("e", -1) if e != "ss" else t
                elif e[0] == "f":
                    t = e[2]
                if t == -1:
                    break


def openers(p, root, lim):
    """units in which the limit is read, or that call something that reads it"""
    rd = readers(p, lim)
    out = set()
    for i in p.reach([hdr.public(p, root).id]):
        f = p.fns[i]
        if f.local and f.has_body() and i != lim.id and set(p.reach([i])) & rd:
            out.add(i)
    return out


def limit(I, s, fn, D, oi):
    st = s.copy()
    o = ("h", I.new())
    st.mem[o] = st.mem[D].f[oi]
    out = I.call(st, fn, [Ref(o)])
    return out[0][1] if len(out) == 1 and isinstance(out[0][1], Poly) else None
