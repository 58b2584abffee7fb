"""Runs of the decoding entry points with everything that follows the headers cut off."""
from . import hdr
from .models import mk
from .absint import Top
from .prog import AnchorMissing


def paths_from(p, roots):
    """paths of the functions reachable from roots (instances of one function are one)"""
    return {p.fns[i].p for i in p.reach(roots)}


def takes(p, f, dty):
    return [i for i in range(f.argc) if p.tys[f.locals[i + 1]]["k"] == "ref" and p.tys[f.locals[i + 1]]["m"] and
            p.tys[f.locals[i + 1]]["e"] == dty]


def tails(p, root):
    """the functions of the crate that decode what follows the headers: those reached from root
    that take the decoder and from which the header parser cannot be reached"""
    dty = hdr.decoder_ty(p)
    rh = hdr.public(p, "read_headers")
    inhdr = paths_from(p, [rh.id])
    core = set()
    for i in p.edges(rh)[0]:
        g = p.fns[i]
        if g.local and g.has_body() and takes(p, g, dty):
            core.add(g.p)
    core.add(rh.p)
    out = []
    for i in p.reach([root.id]):
        f = p.fns[i]
        if not f.local or not f.has_body() or f.p in inhdr or not takes(p, f, dty):
            continue
        if f.kind and "losure" in str(f.kind):
            continue
        if paths_from(p, [f.id]) & core:
            continue
        t = p.tys[f.locals[0]]
        if not (t["k"] == "adt" and t["p"] == "std::result::Result" and p.tys[t["ga"][0]]["p" if p.tys[t["ga"][0]]["k"] == "adt" else "k"] == "std::vec::Vec"):
            continue
        out.append(f)
    return out


def cut(p, m, root, record):
    """stub the tails: record(I, st, fn, decoder reference) and return Ok or Err"""
    fs = tails(p, root)
    if not fs:
        raise AnchorMissing("what %s calls after the headers" % root.p)
    for f in fs:
        k = takes(p, f, hdr.decoder_ty(p))[0]

        def h(I, st, fn, args, k=k):
            record(I, st, fn, args[k])
            s2 = st.copy()
            ty = fn.locals[0]
            return [(st, mk(I, st, ty, "Ok", [Top(I.tys[ty]["ga"][0])])),
                    (s2, mk(I, s2, ty, "Err", [Top(I.tys[ty]["ga"][1])]))]
        m.stub(f, h)
    return fs
