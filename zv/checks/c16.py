"""C16: headers that contradict themselves or need unsupported features are rejected."""
from .. import common, segs, terms as T
from ..segs import byte, word, FRAME, SOS, DRI, NAME
from ..terms import K, A
from ..absint import Poly, Agg, En
from .c10 import nibbles


def oneof(p, vals):
    c = T.FALSE
    for v in vals:
        c = T.disj(c, T.eq(T.sub(p, K(v))))
    return c


def within(p, lo, hi):
    return T.conj(T.ge(T.sub(p, K(lo))), T.ge(T.sub(K(hi), p)))


def frame(R, J, g):
    s, m = g.s, g.m
    n = NAME[g.code]
    J.must("frame:precision", s, T.eq(T.sub(byte(m, 3), K(8))), "%s accepted only with 8 bits per sample" % n)
    J.must("frame:count", s, oneof(byte(m, 8), (1, 3)), "%s accepted only with one or three components" % n)
    J.must("frame:length", s, T.eq(T.sub(T.sub(word(m, 1), T.scale(byte(m, 8), 3)), K(8))),
           "%s accepted only when its length is 8 + 3 per component" % n)
    nc = s.F.val(byte(m, 8))
    if nc is None or nc > 8:
        return
    for i in range(int(nc)):
        J.must("frame:id", s, within(byte(m, 9 + 3 * i), 1, 3), "%s accepted only with component ids 1 to 3" % n)
        for what, v in zip(("horizontal", "vertical"), nibbles(byte(m, 10 + 3 * i))):
            J.must("frame:sampling", s, oneof(v, (1, 2, 4, 8)), "%s accepted only with %s sampling factors 1, 2, 4 or 8" % (n, what))
        J.must("frame:table", s, within(byte(m, 11 + 3 * i), 0, 3), "%s accepted only with quantization tables 0 to 3" % n)


def scan(R, J, s, m):
    J.must("scan:length", s, T.eq(T.sub(T.sub(word(m, 1), T.scale(byte(m, 3), 2)), K(6))),
           "a scan is accepted only when its length is 6 + 2 per component")
    nc = R.ncomp(s)
    ns = s.F.val(byte(m, 3))
    if nc is None or ns is None:
        return J.unknown("scan:count", "number of components not tracked")
    ns, nc = int(ns), int(nc)
    J.must("scan:count", s, within(K(ns), 1, nc), "a scan of %d components is accepted for an image of %d" % (ns, nc))
    for i in range(ns):
        ids = [R.get(s, "components", j, "id") for j in range(nc)]
        if all(isinstance(x, Poly) for x in ids):
            c = T.FALSE
            for x in ids:
                c = T.disj(c, T.eq(T.sub(x, byte(m, 4 + 2 * i))))
            J.must("scan:id", s, c, "scan component %d must be one of the components of the frame" % i)
        for k in range(i):
            J.must("scan:duplicate", s, T.ne(T.sub(byte(m, 4 + 2 * i), byte(m, 4 + 2 * k))),
                   "a component must not appear twice in a scan")
    for what, v in zip(("Ah", "Al"), nibbles(byte(m, 6 + 2 * ns))):
        J.must("scan:approximation", s, within(v, 0, 13), "%s of a scan must be at most 13" % what)


class W:
    def __init__(self, F, imp):
        self.F, self.imp = F, imp


def fieldname(R, path):
    return R.names[path[0]] if path and isinstance(path[0], int) and path[0] < len(R.names) else None


def tables(R, J, n):
    """the stores of quantization and Huffman tables into the decoder"""
    for path, val, F, imp, where in R.hk.writes:
        f = fieldname(R, path)
        if f not in ("qt_tables", "dc_huffman_tables", "ac_huffman_tables") or len(path) != 2:
            continue
        ix = path[1]
        if not (isinstance(ix, tuple) and ix[0] == "i"):
            continue
        if not isinstance(val, En) or F.val(val.tag) != 1:
            continue
        w = W(F, imp)
        n[f] = n.get(f, 0) + 1
        bs = [l for l in ix[1].leaves if l.kind == "byte"]
        if len(bs) != 1 or len(ix[1].leaves) != 1:
            J.unknown("table:" + f, "index of the table not tracked: %r" % (ix[1],))
            continue
        hi, lo = nibbles(A(bs[0]))
        J.same("table:index:" + f, w, ix[1], lo, "the table number in %s" % f)
        J.must("table:range:" + f, w, within(lo, 0, 3), "%s accepted only with table numbers 0 to 3" % f)
        want = {"qt_tables": 0, "dc_huffman_tables": 0, "ac_huffman_tables": 1}[f]
        J.must("table:class:" + f, w, T.eq(T.sub(hi, K(want))),
               "%s stored only from definitions with upper nibble %d" % (f, want))


def check(rep, tier):
    rep.rule = ("abstract interpretation of read_headers; in every state in which a segment has been accepted, the facts known "
                "about its bytes must imply the condition under which it may be accepted")
    p = common.program()
    R = segs.Run(p, 600 if tier == "quick" else 800)
    if R.stop:
        rep.undecided.append("analysis stopped: " + R.stop)
        return
    J = segs.Judge(rep)
    n = {}
    for g in R.segments(set(FRAME)):
        n[NAME[g.code]] = n.get(NAME[g.code], 0) + 1
        frame(R, J, g)
    for g in R.segments({DRI}):
        n["DRI"] = n.get("DRI", 0) + 1
        J.must("restart:length", g.s, T.eq(T.sub(word(g.m, 1), K(4))), "DRI accepted only with length 4")
    for g in R.segments({0xE0, 0xFE}):
        n["skipped segments"] = n.get("skipped segments", 0) + 1
        J.must("segment:length", g.s, T.ge(T.sub(word(g.m, 1), K(2))), "a segment is skipped only if its length is at least 2")
    inp = None
    for s in R.oks:
        ms = [a for a, v in segs.markers(s) if v == SOS]
        if len(ms) != 1:
            J.unknown("scan", "start of scan not identified")
            continue
        n["SOS"] = n.get("SOS", 0) + 1
        scan(R, J, s, ms[0])
        inp = ms[0].meta
    if inp is not None:
        for s in R.oks + [s for _, s in R.backs]:
            for i, v in ((0, 0xFF), (1, 0xD8)):
                J.must("magic", s, T.eq(T.sub(A(T.app("byte", (K(i),), inp, 0, 255)), K(v))),
                       "byte %d of an accepted image is 0x%X" % (i, v))
    tables(R, J, n)
    rep.stats.update(n)
    rep.trusted += ["zv/models.py: models of the std functions without MIR"]
    for what in ("SOF0", "SOF2", "DRI", "SOS", "qt_tables", "dc_huffman_tables", "ac_huffman_tables"):
        if what not in n:
            rep.undecided.append("no state found for " + what)
