"""C21: no side effects outside the decoder."""
from ..common import program
from ..prog import AnchorMissing
from ..effects import external_calls, matches, IO, OK_CRATES, entry_roots

FILE_READ = ("std::fs::read", "std::fs::File::open", "std::fs::File::metadata", "std::fs::metadata",
             "<std::fs::File as std::io::Read>", "<&std::fs::File as std::io::Read>", "std::fs::read_to_string")


def mentions_file(P, g):
    """a generic library function instantiated with a file or stream type"""
    for t in list(g.ga) + ([g.self_ty] if isinstance(g.self_ty, int) and g.self_ty >= 0 else []):
        seen, st = set(), [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            ty = P.tys[x]
            if ty["k"] == "adt":
                if matches(ty["p"], IO):
                    return ty["p"]
                st += ty["ga"]
            elif ty["k"] in ("ref", "ptr", "slice", "array"):
                st.append(ty["e"])
            elif ty["k"] == "tuple":
                st += ty["f"]
    return None


def sources(P, f, op, depth=0, seen=None):
    """what the value of an operand is made of: {'arg', 'const', 'other:..'}"""
    seen = seen if seen is not None else set()
    if op[0] == "c":
        return {"const"}
    l = op[1][0]
    if 1 <= l <= f.argc:
        return {"arg%d" % l}
    if l in seen:
        return set()
    seen.add(l)
    out = set()
    for b in f.live_blocks():
        blk = f.bb[b]
        for s in blk["s"]:
            if s[0] == "=" and s[1][0] == l:
                rv = s[2]
                if rv[0] in ("ref", "raw"):
                    out |= sources(P, f, ["cp", rv[2]], depth, seen)
                else:
                    for o in P.rv_ops(rv):
                        out |= sources(P, f, o, depth, seen)
        t = blk["t"]
        if t[0] == "call" and t[3][0] == l:
            for o in t[2]:
                out |= sources(P, f, o, depth, seen)
            if not t[2]:
                out.add("call")
    return out


def check(rep, tier):
    rep.rule = ("who-may-call over the resolved call graph (default and no-x86 build): no function reachable from the "
                "public API calls into file system, network, process, environment, standard streams or foreign "
                "code; file reading only below decode_file, and only of the path it was given")
    rep.trusted = ["std, log and scoped_threadpool do what their documentation says"]
    for feats in (True, False):
        P = program(feats)
        tag = "" if feats else "nox86:"
        roots = entry_roots(P)
        fileroots = [f for f in roots if f.p.endswith("Decoder::decode_file")]
        if not fileroots:
            raise AnchorMissing("decode_file")
        others = P.reach([f.id for f in P.fns if f.local and f.has_body() and f.pub and f not in fileroots])
        # a local function that is not reachable from anything still counts as an entry (trait impls)
        reach_file = P.reach([f.id for f in fileroots])
        extra = [f.id for f in P.fns if f.local and f.has_body() and f.id not in others and f.id not in reach_file]
        others = P.reach([f.id for f in P.fns if f.local and f.has_body() and f.pub and f not in fileroots] + extra)
        n = nf = 0
        seen_ext = set()
        allfns = [P.fns[i] for i in sorted(set(others) | set(reach_file)) if P.fns[i].has_body()]
        for f, g, line in external_calls(P, allfns):
            if g.local:
                continue
            n += 1
            seen_ext.add(g.p)
            via = matches(g.p, IO) or mentions_file(P, g)
            if g.cr not in OK_CRATES:
                via = "crate " + g.cr
            if not via:
                continue
            if not f.local and not (matches(g.p, IO)):
                continue
            if any(g.p.startswith(x) for x in FILE_READ) or (via.startswith("std::fs::File") and not matches(g.p, IO)):
                nf += 1
                ok = f.id not in others
                rep.obligation(ok, tag + "file:%s->%s" % (f.p, g.p),
                               "%s (%s:%s) reads a file through %s, and is reachable without decode_file: %s"
                               % (f.p, f.file, line, g.p, " -> ".join(P.path_to(others, f.id)) if f.id in others else ""))
                continue
            pred = others if f.id in others else reach_file
            rep.fail(tag + "io:%s->%s" % (f.p, g.p), "%s (%s:%s) calls %s (%s): %s"
                     % (f.p, f.file, line, g.p, via, " -> ".join(P.path_to(pred, f.id))))
        # the path that is read is the caller's
        for f in fileroots:
            for b in f.live_blocks():
                t = f.bb[b]["t"]
                if t[0] == "call" and "i" in t[1] and P.fns[t[1]["i"]].p.startswith(("std::fs::read", "std::fs::File::open")):
                    src = sources(P, f, t[2][0])
                    rep.obligation(bool(src) and src <= {"arg2"}, tag + "path:%s" % f.p,
                                   "%s (%s:%s) reads a file whose path is not the caller's argument (made of %s)"
                                   % (f.p, f.file, t[5], sorted(src)))
        rep.ok(n)
        rep.stats[tag + "functions"] = len(allfns)
        rep.stats[tag + "external functions"] = len(seen_ext)
        rep.floor(tag + "external call sites", n, 300 if feats else 250)
        rep.floor(tag + "file reads", nf, 1)
        rep.obligation(not any(s["mut"] for s in P.statics), tag + "static", "mutable statics: %s" % P.statics)
