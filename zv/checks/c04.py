"""C04: code that needs a CPU extension runs only when that extension was
detected at run time."""
from ..common import program
from ..implies import Implies, closure, BASE, ALL


def check(rep, tier):
    rep.rule = ("implication dataflow over every instance of the program: at every reachable call of, and "
                "creation of a pointer to, a function that requires CPU features, those features are implied "
                "by run-time detection results on every path from the public API")
    rep.trusted = ["std's feature detection macro and its per-intrinsic target_feature annotations"]
    P = program(True)
    A = Implies(P)
    n = direct = 0
    feats = set()
    for f, b, K, t in A.call_sites():
        c = t[1]
        if "i" not in c:
            continue
        g = P.fns[c["i"]]
        need = closure(g.feat) - BASE - {"sse"} if g.feat else set()
        if not need:
            continue
        n += 1
        feats |= need
        if not f.feat:
            direct += 1
        missing = set() if K is ALL else set(need) - K
        rep.obligation(not missing, "%s->%s" % (f.p, g.p),
                       "%s (%s:%s) calls %s, which needs %s, on a path where %s was not detected; reached via %s"
                       % (f.p, t[6], t[5], g.p, ",".join(sorted(need)), ",".join(sorted(missing)), A.chain(f.id)))
        if f.local and not f.feat:
            rep.samples.append("%s -> %s needs %s" % (f.p, g.p, sorted(need)))
    # reified functions with features of their own
    for i in sorted(A.at):
        f = P.fns[i]
        for b, (K, st) in A.at[i].items():
            for s in f.bb[b]["s"]:
                if s[0] == "=" and s[2][0] == "cast" and len(s[2]) > 4:
                    g = P.fns[s[2][4]]
                    need = closure(g.feat) - BASE if g.feat else set()
                    if need:
                        n += 1
                        rep.obligation(K is ALL or need <= K, "%s=>%s" % (f.p, g.p),
                                       "%s (%s:%s) takes a pointer to %s without having detected %s"
                                       % (f.p, f.file, s[3], g.p, sorted(need)))
    rep.stats["functions"] = len(A.at)
    rep.stats["features"] = sorted(feats)
    rep.floor("calls of functions that need CPU features", n, 300)
    rep.floor("of these in functions without the features enabled", direct, 12)
