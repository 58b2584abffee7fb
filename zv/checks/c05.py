"""C05: without the caller's permission, and in a build without the x86 feature,
no unsafe code of the crate runs."""
from ..common import program
from ..implies import Implies, ALL


def raw_derefs(P, f, blk):
    """raw pointer dereferences and union reads in a block (Box internals excluded)"""
    out = []

    def walk(pl, line):
        t = f.locals[pl[0]]
        for e in pl[1]:
            ty = P.tys[t]
            if e == "*":
                if ty["k"] == "ptr" and not box_ptr(P, f, pl[0]):
                    out.append(("dereferences a raw pointer", line))
                t = ty.get("e", t)
            elif e[0] == "f":
                if ty["k"] == "adt" and ty["ak"] == "union":
                    out.append(("reads a union", line))
                t = e[2]
            elif e[0] in ("i", "ci"):
                t = ty.get("e", t)

    def ops(o, line):
        if o[0] in ("cp", "mv"):
            walk(o[1], line)

    for s in blk["s"]:
        if s[0] == "=":
            walk(s[1], s[3])
            rv = s[2]
            if rv[0] in ("ref", "raw"):
                if rv[0] == "ref":
                    walk(rv[2], s[3])
            elif rv[0] == "disc":
                walk(rv[1], s[3])
            else:
                for o in P.rv_ops(rv):
                    ops(o, s[3])
    t = blk["t"]
    if t[0] == "call":
        for o in t[2]:
            ops(o, t[5])
        walk(t[3], t[5])
    return out


def box_ptr(P, f, l):
    """a pointer MIR construction made to look inside a Box"""
    for b in f.bb:
        for s in b["s"]:
            if s[0] == "=" and s[1] == [l, []]:
                rv = s[2]
                if rv[0] == "cast" and rv[1] == "Transmute" and rv[2][0] in ("cp", "mv"):
                    return True
                if rv[0] == "use" and rv[1][0] in ("cp", "mv") and "Box<" in P.tys[f.locals[rv[1][1][0]]]["n"]:
                    return True
                return False
    return False


SAFE_UNSAFE = ("core::hint::unreachable_unchecked",)


def sites(P, f, b):
    blk = f.bb[b]
    t = blk["t"]
    out = raw_derefs(P, f, blk)
    if t[0] == "call" and "i" in t[1]:
        g = P.fns[t[1]["i"]]
        if g.unsafe or (g.feat and not g.local and not f.feat) or (g.local and g.feat):
            # the compiler's own lowering of vec![] / format! does not count
            if not g.p.startswith(("core::fmt", "std::fmt", "alloc::fmt", "std::boxed::box_new",
                                   "alloc::boxed", "std::boxed")):
                out.append(("calls the unsafe function %s" % g.p, t[5]))
    if t[0] == "call" and "intr" in t[1]:
        pass
    if t[0] == "asm":
        out.append(("runs inline assembly", 0))
    return out


def check(rep, tier):
    rep.rule = ("implication dataflow: every unsafe operation of the crate (call of an unsafe or "
                "target-feature function, raw pointer dereference, union read, inline assembly) is reached only "
                "where the use_unsafe option is implied to be true; in the build without the x86 feature there "
                "is none at all")
    P = program(True)
    A = Implies(P)
    n = guarded = 0
    for i in sorted(A.at):
        f = P.fns[i]
        if not f.local:
            continue
        for b, (K, st) in sorted(A.at[i].items()):
            for what, line in sites(P, f, b):
                n += 1
                ok = K is ALL or "U" in K
                rep.obligation(ok, "%s: %s" % (f.p, what),
                               "%s (%s:%s) %s, reachable with unsafe code disabled, via %s"
                               % (f.p, f.file, line, what, A.chain(f.id)))
                guarded += ok
    rep.stats["functions"] = len(A.at)
    rep.floor("unsafe operations of the crate", n, 300)
    if P.unsafe_impls:
        pass
    Q = program(False)
    m = 0
    for f in Q.local_fns():
        m += 1
        live = f.live_blocks()
        bad = []
        for b in live:
            bad += sites(Q, f, b)
        if f.feat:
            bad.append(("enables CPU features %s" % f.feat, f.line))
        if f.unsafe:
            bad.append(("is an unsafe function", f.line))
        rep.obligation(not bad, "nox86:%s" % f.p,
                       "without the x86 feature %s (%s) still %s" % (f.p, f.file, bad[0][0] if bad else ""))
    rep.floor("functions of the build without the x86 feature", m, 60)
    rep.obligation(not Q.unsafe_impls, "nox86:impl", "unsafe impls in the safe build: %s" % Q.unsafe_impls)
