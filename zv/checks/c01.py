"""C01: header parsing cannot panic, for any bytes and any state of the decoder."""
from .. import common, hdr


def where(w):
    """innermost frame of this crate and the call chain"""
    loc = [x for x in w if x[1] and not x[1].startswith("/")]
    last = loc[-1] if loc else (w[-1] if w else ("?", "?", 0))
    chain = " <- ".join("%s:%s" % (x[0].split("::")[-1], x[2]) for x in reversed(w[-6:]))
    return last, chain


def report(rep, I, what, skip=()):
    """turn the obligations of a run into verdicts: proved, violated, undecided"""
    n = {}
    sites = set()
    for e in I.rec:
        if e[0] != "ob":
            continue
        _, kind, ok, imp, w, d = e
        if kind in skip:
            continue
        last, chain = where(w)
        sites.add((kind, last[0], last[2]))
        n[kind] = n.get(kind, 0) + 1
        if ok:
            rep.ok()
            continue
        d = d() if callable(d) else d
        txt = "%s: %s may panic (%s) at %s:%s; needs %s; %s" % (what, last[0], kind, last[1], last[2], d, chain)
        if imp:
            rep.obligations += 1
            rep.undecided.append(txt)
        else:
            rep.fail("%s:%s" % (kind, last[0]), txt)
    for k, v in n.items():
        rep.stats[k] = rep.stats.get(k, 0) + v
    for u in I.unknown:
        rep.undecided.append("not modelled: %s" % u)
    return sites


def check(rep, tier):
    rep.rule = ("abstract interpretation of the public read_headers on an arbitrary byte string, starting from an "
                "arbitrary decoder: every bounds check, arithmetic overflow check, division, slice operation, unwrap and "
                "explicit panic reached is an obligation that must be implied by the state")
    p = common.program()
    h = hdr.run(p, secs=600 if tier == "quick" else 800)
    if h.stop:
        rep.undecided.append("analysis stopped: " + h.stop)
        rep.notes.append("no verdict: " + h.stop)
        return
    sites = report(rep, h.I, "read_headers")
    loc = [f for f in h.I.visited if p.fns[f].local]
    rep.stats["functions of the crate analysed"] = len(loc)
    rep.stats["functions analysed"] = len(h.I.visited)
    rep.stats["loops"] = len({(e[1], e[2]) for e in h.I.rec if e[0] == "loop"})
    rep.stats["return states"] = len(h.rets)
    rep.floor("obligation sites", len(sites), 15)
    rep.floor("functions of the crate reached", len(loc), 8)
    if not any(v is not None and getattr(v, "tag", None) is not None and v.tag.isc() and v.tag.c == 0 for _, v in h.rets):
        rep.undecided.append("no successful return found")
    rep.trusted += ["zv/models.py: models of the std functions without MIR (formatting, allocation, Vec, Cursor)"]
    rep.samples = ["%s in %s line %s" % s for s in sorted(sites)][:40]
