"""C10: values in use come from the bytes the standard assigns to them."""
from .. import common, segs, terms as T
from ..segs import byte, word, FRAME, SOS, DRI, DQT, DHT, NAME
from ..terms import K, A
from ..absint import Poly, VecV


def nibbles(b):
    return T.A(T.app("shr", (b, K(4)))), T.A(T.app("and", (b, K(15))))


def low(b, mask):
    return T.A(T.app("and", (b, K(mask))))


def frame(R, J, g):
    s, m = g.s, g.m
    n = NAME[g.code]
    for name, k in (("height", 5), ("width", 5 + 2)):
        k = {"height": 4, "width": 6}[name]
        v = R.getter(s, name)
        J.same("frame:" + name, s, v, word(m, k), "%s reported after %s" % (name, n))
    for f, k in (("pixel_density", 3), ("components", 8)):
        v = R.get(s, "info", f)
        if v is not None:
            J.same("frame:" + f, s, v, byte(m, k), "info.%s after %s" % (f, n))
    nc = R.ncomp(s)
    if nc is None:
        return J.unknown("frame:components", "number of components not tracked")
    J.same("frame:count", s, K(int(nc)), byte(m, 8), "number of components kept after %s" % n)
    for i in range(int(nc)):
        b = [byte(m, 9 + 3 * i + k) for k in range(3)]
        hi, lo = nibbles(b[1])
        for f, want in (("id", b[0]), ("horizontal_sample", hi), ("vertical_sample", lo), ("quantization_table_number", b[2])):
            v = R.get(s, "components", i, f)
            if v is None:
                J.unknown("frame:" + f, "no field %s" % f)
                continue
            J.same("frame:component:" + f, s, v, want, "components[%d].%s after %s" % (i, f, n))


def scan(R, J, s, m):
    ns = s.F.val(byte(m, 3))
    if ns is None:
        return J.unknown("scan:ns", "number of scan components not tracked")
    ns = int(ns)
    v = R.get(s, "num_scans")
    if v is not None:
        J.same("scan:count", s, v, K(ns), "number of components of the scan")
    for i in range(ns):
        z = R.get(s, "z_order", i)
        j = s.F.val(z) if isinstance(z, Poly) else None
        if j is None:
            J.unknown("scan:component", "order of scan component %d not tracked" % i)
            continue
        cid = R.get(s, "components", int(j), "id")
        if cid is None:
            J.unknown("scan:component", "component %d not tracked" % j)
            continue
        J.same("scan:component", s, cid, byte(m, 4 + 2 * i), "id of the component used for scan component %d" % i)
        dc, ac = nibbles(byte(m, 5 + 2 * i))
        for f, want in (("dc_huff_table", dc), ("ac_huff_table", ac)):
            v = R.get(s, "components", int(j), f)
            if v is None:
                J.unknown("scan:" + f, "no field")
                continue
            J.same("scan:" + f, s, v, want, "%s of scan component %d" % (f, i))
    e = 4 + 2 * ns
    hi, lo = nibbles(byte(m, e + 2))
    for f, want in (("spec_start", low(byte(m, e), 63)), ("spec_end", low(byte(m, e + 1), 63)), ("succ_high", hi), ("succ_low", lo)):
        v = R.get(s, f)
        if v is None:
            J.unknown("scan:" + f, "no field")
            continue
        J.same("scan:" + f, s, v, want, "%s after the scan header" % f)
    pos = R.position(s)
    if pos is not None:
        J.same("scan:end", s, pos, T.add(m.args[0], K(e + 3)), "first byte of the entropy-coded data")


def frozen(R, J, H, s, what):
    """a segment that is not a frame leaves what the frame said alone"""
    nc = R.ncomp(H)
    for path in (("info", "width"), ("info", "height"), ("info", "components")):
        a, b = R.get(H, *path), R.get(s, *path)
        if isinstance(a, Poly) and isinstance(b, Poly):
            J.same("kept:" + path[-1], s, b, a, "%s after %s" % (path[-1], what))
    for i in range(int(nc or 0)):
        for f in ("id", "horizontal_sample", "vertical_sample", "quantization_table_number"):
            a, b = R.get(H, "components", i, f), R.get(s, "components", i, f)
            if isinstance(a, Poly) and isinstance(b, Poly):
                J.same("kept:" + f, s, b, a, "components[%d].%s after %s" % (i, f, what))


def check(rep, tier):
    rep.rule = ("abstract interpretation of read_headers; at the end of every segment each stored value is a term over the "
                "input bytes, which must equal the term the standard prescribes relative to the marker")
    p = common.program()
    R = segs.Run(p, 600 if tier == "quick" else 800)
    if R.stop:
        rep.undecided.append("analysis stopped: " + R.stop)
        return
    J = segs.Judge(rep)
    n = {}
    for g in R.segments(set(FRAME)):
        n[NAME[g.code]] = n.get(NAME[g.code], 0) + 1
        frame(R, J, g)
    for g in R.segments({DRI}):
        n["DRI"] = n.get("DRI", 0) + 1
        for f in ("restart_interval", "todo"):
            v = R.get(g.s, f)
            if v is not None:
                J.same("restart:" + f, g.s, v, word(g.m, 3), "%s after DRI" % f)
    for H, s in R.backs:
        ms = segs.markers(s)
        if H is None or any(v in FRAME for _, v in ms):
            continue
        if not ms or all(v not in (SOS,) for _, v in ms):
            frozen(R, J, H, s, NAME[ms[0][1]] if len(ms) == 1 else "a segment")
        if not any(v == DRI for _, v in ms) and ms:
            a, b = R.get(H, "restart_interval"), R.get(s, "restart_interval")
            if isinstance(a, Poly) and isinstance(b, Poly):
                J.same("kept:restart_interval", s, b, a, "restart interval after another segment")
    # what follows a segment starts right after its last byte
    for g in R.segments({0xC0, 0xC2, DRI, 0xE0, 0xFE}):
        pos = R.position(g.s)
        if pos is None:
            continue
        n["segment ends"] = n.get("segment ends", 0) + 1
        J.same("segment:end", g.s, pos, T.add(T.add(g.m.args[0], K(1)), word(g.m, 1)), "position after %s" % NAME[g.code])
    for s in R.oks:
        ms = [a for a, v in segs.markers(s) if v == SOS]
        if len(ms) != 1:
            J.unknown("scan", "start of scan not identified")
            continue
        n["SOS"] = n.get("SOS", 0) + 1
        scan(R, J, s, ms[0])
    rep.stats.update(n)
    rep.stats["states at segment ends"] = len(R.backs)
    rep.trusted += ["zv/models.py: models of the std functions without MIR"]
    for what in ("SOF0", "SOF2", "DRI", "SOS"):
        if what not in n:
            rep.undecided.append("no state found for " + what)
