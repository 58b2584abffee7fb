"""C15: what a decoder was used for before leaves no trace."""
import time
from .. import common, hdr, rest, absint as X, terms as T
from ..absint import Agg, En, Ref, Top, VecV, Arr, Seq, Poly, Cond, Rng, Reg
from ..terms import K
from ..models import mk
from ..prog import AnchorMissing


def options_index(p, dty):
    oi = [i for i, f in enumerate(p.tys[dty]["v"][0]["f"]) if p.tys[f[1]]["k"] == "adt" and
          p.tys[f[1]]["p"].split("::")[-1] == "ZuneJpegOptions"]
    if len(oi) != 1:
        raise AnchorMissing("the options of the decoder")
    return oi[0]


def marked(st, v, path, out, F, depth=0, seen=None):
    """(path, what) for every part of a value that stems from a marked leaf"""
    seen = seen if seen is not None else set()
    if isinstance(v, Poly):
        if any(l.imp for l in v.leaves) and F.val(v) is None:
            out.append((path, repr(v)))
    elif isinstance(v, Cond):
        if any(l.imp for l in T.cond_leaves(v)) and F.holds(v) is None:
            out.append((path, repr(v)))
    elif isinstance(v, (Top, Rng)):
        if v.imp:
            out.append((path, "left as it was"))
    elif isinstance(v, Agg):
        for i, x in enumerate(v.f):
            marked(st, x, path + (i,), out, F, depth, seen)
    elif isinstance(v, Arr):
        for i, x in enumerate(v.e):
            marked(st, x, path + ("[%d]" % i,), out, F, depth, seen)
    elif isinstance(v, En):
        marked(st, v.tag, path + ("variant",), out, F, depth, seen)
        vs = F.vset(v.tag)
        for i, x in enumerate(v.pay):
            if x is not None and (vs is None or i in vs):
                marked(st, x, path, out, F, depth, seen)
    elif isinstance(v, VecV):
        marked(st, v.len, path + ("len",), out, F, depth, seen)
        if v.obj in seen:
            return
        seen.add(v.obj)
        c = F.val(v.len)
        b = st.mem.get(v.obj)
        if isinstance(b, Seq):
            n = len(b.e) if c is None else min(int(c), len(b.e))
            for i in range(n):
                marked(st, b.e[i], path + ("[%d]" % i,), out, F, depth, seen)
            if b.rest is not None and (c is None or c > len(b.e)):
                marked(st, b.rest, path + ("[..]",), out, F, depth, seen)
        elif b is not None:
            marked(st, b, path, out, F, depth, seen)
    elif isinstance(v, Ref) and v.obj not in seen and v.obj in st.mem and v.obj != ("h", "in"):
        seen.add(v.obj)
        marked(st, st.mem[v.obj], path, out, F, depth, seen)


def rejoins(fn, b):
    """do all ways from a branch meet again before the function is about to return?"""
    def tail(x):
        # only clean-up from here to the return
        seen = set()
        while x not in seen:
            seen.add(x)
            blk = fn.bb[x]
            if any(s[0] == "=" for s in blk["s"]):
                return False
            t = blk["t"]
            if t[0] == "ret":
                return True
            if t[0] == "goto":
                x = t[1]
            elif t[0] == "drop":
                x = t[2]
            else:
                return False
        return False

    def reach(avoid):
        seen, st = set(), [y for y in fn.succs(b) if y != avoid]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st += [y for y in fn.succs(x) if y != avoid and y not in seen]
        return seen
    everything = reach(None)
    rets = {x for x in everything if fn.bb[x]["t"][0] == "ret"}
    for x in everything:
        if x == b or tail(x):
            continue
        if not (reach(x) & rets):
            return True
    return False


def one(p, root, secs, mark):
    """run an entry point; the leftovers found: {key: text}"""
    dty = hdr.decoder_ty(p)
    oi = options_index(p, dty)
    names = [f[0] for f in p.tys[dty]["v"][0]["f"]]
    seen = []

    def record(I, st, fn, r):
        seen.append((fn.p, st.mem.get(r.obj) if isinstance(r, Ref) else None, st.copy()))
    fs = []

    def prep(I, m):
        I.impsites = {}
        if root != "read_headers":
            fs.extend(rest.cut(p, m, hdr.public(p, root), record))

        def fsread(I, st, fn, args):
            o = ("h", I.new())
            st.mem[o] = X.Inp("in")
            s2 = st.copy()
            ty = fn.locals[0] if fn.locals else I.rty
            ln = I.freshr(0, 1 << 62, "inlen")
            vt = I.tys[ty]["ga"][0]
            return [(st, mk(I, st, ty, "Ok", [VecV(o, ln, I.tys[vt]["ga"][0])])),
                    (s2, mk(I, s2, ty, "Err", [Top(I.tys[ty]["ga"][1])]))]
        m.tab["std::fs::read"] = fsread
    keep = "d." + names[oi]
    first = []

    def key(I, s):
        # states with other options are kept apart
        d = s.mem.get(("h", "dec"))
        o = d.f[oi] if isinstance(d, Agg) and len(d.f) > oi else None
        if not isinstance(o, Agg):
            return None
        if not first:
            first.append(o)
        return tuple(X.veq(x, y) for x, y in zip(first[0].f, o.f))
    h = hdr.run(p, None, secs=secs, root=root, prep=prep, key=key,
                imp=(lambda n: not n.startswith(keep)) if mark else None)
    left = {}
    soft = []
    changed = {}
    old = h.init.f[oi]
    n = 0

    def same(s, v, when):
        new = v.f[oi] if isinstance(v, Agg) and len(v.f) > oi else None
        f = [x[0] for x in p.tys[p.tys[dty]["v"][0]["f"][oi][1]]["v"][0]["f"]]
        for i, x in enumerate(old.f):
            y = new.f[i] if isinstance(new, Agg) and len(new.f) == len(old.f) else None
            if y is None or not X.veq(x, y):
                a, b = (x.tag, y.tag) if isinstance(x, En) and isinstance(y, En) else (x, y)
                if isinstance(a, Poly) and isinstance(b, Poly) and s.F.holds(T.eq(T.sub(a, b))) is True:
                    continue
                imp = b is None or isinstance(b, Top) or any(l.kind == "leaf" and l.meta in ("phi", "phib", "u", "e") for l in X.leaves(b))
                changed.setdefault(f[i], (imp, "the option %s is %r instead of what the caller set, %s" % (f[i], b, when)))
    for s, v in h.rets:
        d = s.mem.get(h.D)
        n += 1
        err = isinstance(v, En) and s.F.val(v.tag) == 1
        same(s, d, "when %s returns %s" % (root, "an error" if err else "Ok"))
        if err or root != "read_headers":
            continue
        out = []
        for i, x in enumerate(d.f if isinstance(d, Agg) else ()):
            if i != oi:
                marked(s, x, (names[i],), out, s.F)
        for path, what in out:
            left.setdefault("state:" + str(path[0]), "after %s the decoder still holds %s of an earlier call: %s" % (
                root, ".".join(map(str, path)), what))
    for fp, d, s in seen:
        n += 1
        same(s, d, "when %s is called" % fp)
        out = []
        for i, x in enumerate(d.f if isinstance(d, Agg) else ()):
            if i != oi:
                marked(s, x, (names[i],), out, s.F)
        for path, what in out:
            left.setdefault("state:" + str(path[0]), "%s is reached with %s of an earlier call: %s" % (
                fp, ".".join(map(str, path)), what))
    for (fid, b), (ln, chain) in h.I.impsites.items():
        fn = p.fns[fid]
        txt = "%s decides on leftovers of an earlier call at line %s (in %s)" % (
            fn.p, ln, " <- ".join(x.split("::")[-1] for x in reversed(chain)))
        if fn.local and not rejoins(fn, b):
            left.setdefault("branch:" + fn.p, txt)
        else:
            # both sides go on with the same code: what they make different is a mark of its own
            soft.append(txt)
    return h, left, changed, soft, n, len(seen), [f.p for f in fs]


def borrows_options(p, rep, skip, stopped):
    """writes of the options through a decoder reference in functions the runs did not interpret"""
    dty = hdr.decoder_ty(p)
    oi = options_index(p, dty)
    oty = p.tys[dty]["v"][0]["f"][oi][1]
    roots = [hdr.public(p, n).id for n in ("decode_buffer", "read_headers")]
    reach = p.reach(roots)
    n = 0

    def typed(f, pl):
        """types along a place: [(projection, type before it)]"""
        t = f.locals[pl[0]]
        out = []
        for e in pl[1]:
            out.append((e, t))
            k = p.tys[t]
            if e == "*":
                t = k["e"] if "e" in k else None
            elif isinstance(e, list) and e[0] == "f":
                t = e[2]
            elif isinstance(e, list) and e[0] in ("i", "ci"):
                t = k["e"] if "e" in k else None
            elif isinstance(e, list) and e[0] == "ss":
                pass
            if t is None:
                break
        return out, t

    for i in reach:
        f = p.fns[i]
        if not f.local or not f.has_body() or i in skip:
            continue
        n += 1
        for b in f.live_blocks():
            for s in f.bb[b]["s"]:
                if s[0] != "=":
                    continue
                for kind, pl in [("assigns", s[1])] + ([("borrows mutably", s[2][2])] if s[2][0] in ("ref", "raw") and s[2][1] else []):
                    if len(pl) < 2 or not isinstance(pl[1], list):
                        continue
                    tr, t = typed(f, pl)
                    thru = "*" in pl[1]
                    hits = thru and any(isinstance(e, list) and e[0] == "f" and tt == dty and e[1] == oi for e, tt in tr)
                    whole = thru and t == dty and kind == "assigns"
                    oref = thru and t == oty and kind == "assigns"
                    if hits or whole or oref:
                        text = "%s %s %s at %s:%s while decoding" % (
                            f.p, kind, "the whole decoder" if whole else "the options", f.file, s[3])
                        if stopped:
                            # it may be code the runs would have interpreted
                            rep.undecided.append(text)
                        else:
                            rep.fail("options:write:" + f.p, text)
    rep.stats["functions scanned for writes of the options"] = n
    rep.ok(n)


def check(rep, tier):
    rep.rule = ("abstract interpretation of read_headers, decode_buffer and decode_file up to the point where pixels are decoded, "
                "starting from an arbitrary decoder whose fields other than the options are marked: no branch may depend on a mark, no "
                "mark may remain in the decoder when headers were accepted or pixel decoding starts, and the options must be the "
                "initial ones at every return; beyond that point no function reachable writes the options")
    p = common.program()
    skip = set()
    stopped = False
    t0 = time.time()
    budget = 760
    roots = ["read_headers", "decode_buffer", "decode_file"]
    for k, root in enumerate(roots):
        try:
            hdr.public(p, root)
        except AnchorMissing:
            if root == "decode_file":
                continue
            raise
        left_s = budget - (time.time() - t0)
        h, left, changed, soft, n, ns, fs = one(p, root, min(300, left_s / (len(roots) - k)), True)
        if h.stop:
            rep.undecided.append("%s: analysis stopped: %s" % (root, h.stop))
            stopped = True
            continue
        rep.stats["states compared (%s)" % root] = n
        rep.stats["calls that decode pixels (%s)" % root] = ns
        skip |= {f for f in h.I.visited}
        if root != "read_headers" and not ns:
            rep.undecided.append("%s never reaches pixel decoding" % root)
        if root == "read_headers" and not any(isinstance(v, En) and s.F.val(v.tag) == 0 for s, v in h.rets):
            rep.undecided.append("no successful return of read_headers found")
        base = {}
        if left or any(i for i, _ in changed.values()):
            # what the analysis cannot follow even when nothing is marked
            h2, base, ch2, _, _, _, _ = one(p, root, min(300, max(20, budget - (time.time() - t0))), False)
            if h2.stop:
                rep.undecided.append("%s: no base line: %s" % (root, h2.stop))
                continue
        if soft and not left:
            rep.undecided += soft
        for key, text in left.items():
            if key in base:
                rep.obligations += 1
                rep.undecided.append(text)
            else:
                rep.fail(key, text)
        for o, (imp, text) in changed.items():
            if imp:
                rep.obligations += 1
                rep.undecided.append(text)
            else:
                rep.fail("option:" + o, text)
        rep.ok(n)
        for u in h.I.unknown:
            rep.undecided.append("not modelled: %s" % u)
    borrows_options(p, rep, skip, stopped)
    rep.trusted += ["zv/models.py: models of the std functions without MIR"]
