"""Abstract run of the header parser (public `read_headers`) over an arbitrary
byte string and an arbitrary previous decoder, shared by several checks."""
import time
from . import absint as X, terms as T
from .absint import Agg, En, Ref, Top, VecV, Arr, Seq, Inp, Poly, Cond
from .terms import K, A
from .models import Models, mk
from .prog import AnchorMissing


def field(prog, ty, name):
    """index of a field, None if there is none of that name"""
    t = prog.tys[ty]
    for i, f in enumerate(t["v"][0]["f"]):
        if f[0] == name:
            return i
    return None


def decoder_ty(prog):
    for i, t in enumerate(prog.tys):
        if t["k"] == "adt" and t.get("local") and t["p"].split("::")[-1] == "Decoder" and t["ak"] == "struct":
            return i
    raise AnchorMissing("the type Decoder")


def public(prog, name, owner="Decoder"):
    for f in prog.local_fns():
        if f.p.split("::")[-1] == name and f.pub and f.p.split("::")[-2:-1] == [owner] and f.has_body():
            return f
    raise AnchorMissing("public function %s::%s" % (owner, name))


def deep(I, st, ty, depth=3, name="d", imp=None):
    """value of a type with every scalar a leaf of its own; imp: name -> is the leaf marked"""
    mark = bool(imp and imp(name))
    t = I.tys[ty]
    k = t["k"]
    if k in ("int", "char"):
        lo, hi = T.trange(*I.ity(ty))
        return A(T.leaf(name, max(lo, t.get("lo", lo)), hi, mark))
    if k == "bool":
        return T.ne(A(T.leaf(name, 0, 1, mark)))
    if depth <= 0:
        return Top(ty, mark)
    if k == "adt" and t["p"] == "std::vec::Vec":
        return I.mat(st, Top(ty, mark))
    if k == "adt" and t["ak"] == "struct" and t["v"] and not I.models.is_reg(t):
        return Agg([deep(I, st, f[1], depth - 1, name + "." + str(f[0]), imp) for f in t["v"][0]["f"]])
    if k == "adt" and t["ak"] == "enum" and t["v"]:
        return En(ty, I.freshr(0, len(t["v"]) - 1, name, mark), [Agg([deep(I, st, f[1], depth - 1, name + "." + str(f[0]), imp) for f in v["f"]]) for v in t["v"]])
    if k == "tuple":
        return Agg([deep(I, st, f, depth - 1, name, imp) for f in t["f"]])
    if k == "array" and 0 <= t["len"] <= 8:
        return Arr([deep(I, st, t["e"], depth - 1, name, imp) for _ in range(t["len"])])
    return Top(ty, mark)


def is_huff(prog, ty):
    t = prog.tys[ty]
    return t["k"] == "adt" and t["p"].split("::")[-1] == "HuffmanTable"


def stub_huffman(prog, m):
    """the tables are opaque: every local function returning Result<HuffmanTable, _> may fail or not"""
    n = 0
    for f in prog.local_fns():
        if not f.has_body() or not f.locals:
            continue
        t = prog.tys[f.locals[0]]
        if t["k"] == "adt" and t["p"] == "std::result::Result" and is_huff(prog, t["ga"][0]):
            # innermost constructor: takes the counts by reference, not the reader or the decoder
            if any(prog.tys[f.locals[i + 1]]["k"] in ("ref",) and prog.tys[prog.tys[f.locals[i + 1]]["e"]]["k"] == "adt"
                   for i in range(f.argc)):
                continue

            def h(I, st, fn, args):
                s2 = st.copy()
                ty = fn.locals[0]
                return [(st, mk(I, st, ty, "Ok", [Top(I.tys[ty]["ga"][0])])),
                        (s2, mk(I, s2, ty, "Err", [Top(I.tys[ty]["ga"][1])]))]
            m.stub(f, h)
            n += 1
    return n


class Hdr:
    """result of the run"""


def run(prog, hooks=None, pos=None, secs=420, key=None, root="read_headers", soft=None, fork=None, imp=None, prep=None, init=None):
    m = Models(prog)
    stubbed = stub_huffman(prog, m)
    I = X.Interp(prog, m, hooks)
    rt = public(prog, root)
    dty = decoder_ty(prog)
    st = X.State()
    D = ("h", "dec")
    st.mem[D] = deep(I, st, dty, 4, imp=imp)
    st.mem[("h", "in")] = Inp("in")
    ln = I.freshr(0, 1 << 62, "inlen")
    ci = field(prog, dty, "components")

    def keyhook(I, s):
        d = s.mem.get(D)
        out = []
        if isinstance(d, Agg):
            for v in d.f:
                out.append(I.vkey(v, None, 0, s.F) if isinstance(v, VecV) else None)
        if key:
            out.append(key(I, s))
        return tuple(out)
    I.keyhook = keyhook
    I.softhook = soft
    I.maxterms = 8
    I.forkhook = fork
    if soft:
        I.maxparts = 160
        I.unroll = (200000, 20000)
    if hooks is not None:
        hooks.D = D
    I.deadline = time.time() + secs
    if prep is not None:
        prep(I, m)
    if init is not None:
        st = init(I, st, D)
    h = Hdr()
    h.I, h.D, h.dty, h.root, h.inlen = I, D, dty, rt, ln
    h.init = st.mem[D]
    h.stubbed = stubbed
    h.stop = None
    try:
        h.rets = I.call(st, rt, [Ref(D), Ref(("h", "in"), (), K(0), ln)])
    except X.Stop as e:
        h.rets = []
        h.stop = str(e)
    return h
