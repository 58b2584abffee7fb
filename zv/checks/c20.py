"""C20: strict mode only rejects more."""
from .. import common, hdr
from ..absint import liveness, rv_ops
from ..prog import AnchorMissing

S, N = "strict", "lenient"
BOT, MIX = None, "?"       # value impossible / nothing implied


def j(a, b):
    return b if a is BOT else a if b is BOT else a if a == b else MIX


class Pol:
    """what a value implies about the option: t when true, f when false"""
    __slots__ = ("t", "f")

    def __init__(self, t, f):
        self.t, self.f = t, f

    def __eq__(self, o):
        return isinstance(o, Pol) and (self.t, self.f) == (o.t, o.f)

    def neg(self):
        return Pol(self.f, self.t)

    def join(self, o):
        return self if o is None else Pol(j(self.t, o.t), j(self.f, o.f))


M = Pol(MIX, MIX)


class Taint:
    def __init__(self, p):
        self.p = p
        self.src = {}           # (type, field) -> Pol
        self.param = {}         # (fn, local) -> Pol
        self.ret = {}           # fn -> Pol
        self.loc = {}           # fn -> {local: Pol}
        self.region = {}        # fn -> {block: implied}
        for i, t in enumerate(p.tys):
            if t["k"] == "adt" and t.get("local") and t["p"].split("::")[-1] == "ZuneJpegOptions":
                oty = i
        g = hdr.public(p, "get_strict_mode", "ZuneJpegOptions")
        fs = [k for k, x in enumerate(p.tys[oty]["v"][0]["f"]) if p.tys[x[1]]["k"] == "bool" and self.reads(g, oty, k)]
        if len(fs) != 1:
            raise AnchorMissing("the option behind get_strict_mode")
        self.opt = (oty, fs[0])
        self.src[self.opt] = Pol(S, N)
        self.changed = True
        self.rej = {}

    def reads(self, f, ty, k):
        for b in f.live_blocks():
            for s in f.bb[b]["s"]:
                if s[0] == "=":
                    for o in rv_ops(s[2]):
                        if o[0] in ("cp", "mv") and (ty, k) in self.fields(f, o[1]):
                            return True
        return False

    def fields(self, f, pl):
        """the (type, field) steps of a place"""
        t = f.locals[pl[0]]
        out = []
        var = 0
        for e in pl[1]:
            if t is None:
                break
            k = self.p.tys[t]
            if e == "*" or (isinstance(e, list) and e[0] in ("i", "ci")):
                if k["k"] == "adt" and e == "*" and k["ga"]:
                    t = k["ga"][0]
                else:
                    t = k.get("e")
            elif isinstance(e, list) and e[0] == "f":
                out.append((t, e[1]))
                t = e[2]
        return out

    def place(self, f, pl, env):
        fs = self.fields(f, pl)
        r = None
        for x in fs:
            if x in self.src:
                r = self.src[x].join(r)
        if pl[0] in env:
            if len(pl[1]) == 1 and isinstance(pl[1][0], list) and pl[1][0][0] == "f" and ("tuple", pl[0]) in env:
                x = env.get(("el", pl[0], pl[1][0][1]))
                return x if r is None else x.join(r) if x is not None else r
            r = (env[pl[0]] if not pl[1] else M).join(r)
        return r

    def op(self, f, o, env):
        if o[0] in ("cp", "mv"):
            return self.place(f, o[1], env)
        return None

    def const(self, o):
        if o[0] == "c" and self.p.tys[o[1]]["k"] == "bool":
            v = o[2]
            return bool(v) if isinstance(v, (int, bool)) else None
        return None

    def rv(self, f, rv, env):
        k = rv[0]
        if k == "use":
            return self.op(f, rv[1], env)
        if k in ("ref", "raw"):
            r = self.place(f, rv[2], env)
            # a reference to something that holds the option is not the option
            return r
        if k == "disc":
            r = self.place(f, rv[1], env)
            return M if r is not None else None
        if k == "un" and rv[1] == "Not":
            r = self.op(f, rv[2], env)
            return r.neg() if r is not None else None
        if k == "bin":
            a, b = self.op(f, rv[2], env), self.op(f, rv[3], env)
            if a is None and b is None:
                return None
            if rv[1] in ("Eq", "Ne"):
                for x, o in ((a, rv[3]), (b, rv[2])):
                    c = self.const(o)
                    if x is not None and c is not None:
                        return x if c == (rv[1] == "Eq") else x.neg()
            isb = all(o[0] == "c" and self.p.tys[o[1]]["k"] == "bool" or o[0] in ("cp", "mv") and not o[1][1] and
                      self.p.tys[f.locals[o[1][0]]]["k"] == "bool" for o in (rv[2], rv[3]))
            if rv[1] == "BitAnd" and isb:
                return Pol(S if S in [x.t for x in (a, b) if x] else N if N in [x.t for x in (a, b) if x] else MIX, MIX)
            if rv[1] == "BitOr" and isb:
                return Pol(MIX, S if S in [x.f for x in (a, b) if x] else N if N in [x.f for x in (a, b) if x] else MIX)
            return M
        r = None
        for o in rv_ops(rv):
            x = self.op(f, o, env)
            if x is not None:
                r = M
        return r

    # ---- one function
    def regions(self, f, env):
        """what being in a block implies"""
        imp = {0: MIX}
        work = [0]
        ins = {0: {None: MIX}}
        while work:
            b = work.pop()
            t = f.bb[b]["t"]
            cur = imp[b]
            outs = []
            if t[0] == "switch":
                pol = self.op(f, t[1], env)
                isb = t[1][0] in ("cp", "mv") and not t[1][1][1] and self.p.tys[f.locals[t[1][1][0]]]["k"] == "bool"
                for v, bb in t[2]:
                    outs.append((bb, ("v", v), (pol.t if v else pol.f) if pol and isb else MIX))
                outs.append((t[3], "o", (pol.t if all(v == 0 for v, _ in t[2]) else pol.f) if pol and isb and len(t[2]) == 1 else MIX))
                if pol is not None:
                    # when one side only reports an error, what goes on is not one of two choices
                    k = (f.id, b)
                    if k not in self.rej:
                        self.rej[k] = {bb for bb, _, _ in outs if rejects(self.p, f, bb)}
                    if self.rej[k]:
                        outs = [(bb, tag, x if bb in self.rej[k] else MIX) for bb, tag, x in outs]
            else:
                outs = [(bb, "g", MIX) for bb in f.succs(b)]
            for bb, tag, x in outs:
                v = x if x not in (MIX, BOT) else cur
                d = ins.setdefault(bb, {})
                if d.get((b, tag)) == v:
                    continue
                d[(b, tag)] = v
                new = BOT
                for y in d.values():
                    new = j(new, y)
                if bb not in imp or imp[bb] != new:
                    imp[bb] = new
                    work.append(bb)
        return imp

    def fn(self, f):
        env = dict(self.loc.get(f.id, {}))
        for i in range(f.argc):
            x = self.param.get((f.id, i + 1))
            if x is not None:
                env[i + 1] = x
        live = f.live_blocks()
        ndefs = {}
        for b in live:
            for s in f.bb[b]["s"]:
                if s[0] == "=" and not s[1][1]:
                    ndefs[s[1][0]] = ndefs.get(s[1][0], 0) + 1
            t = f.bb[b]["t"]
            if t[0] == "call" and not t[3][1]:
                ndefs[t[3][0]] = ndefs.get(t[3][0], 0) + 1
        while True:
            imp = self.regions(f, env)
            new = {}

            def put(l, x):
                new[l] = x.join(new.get(l))
            defs = {}
            for b in live:
                blk = f.bb[b]
                r = imp.get(b, MIX)
                for s in blk["s"]:
                    if s[0] != "=":
                        continue
                    x = self.rv(f, s[2], env)
                    if not s[1][1]:
                        l = s[1][0]
                        c = self.const(s[2][1]) if s[2][0] == "use" else None
                        if x is None:
                            x0 = Pol(r, BOT) if c is True else Pol(BOT, r) if c is False else Pol(r, r)
                        else:
                            x0 = Pol(x.t if x.t != MIX else r, x.f if x.f != MIX else r)
                        defs.setdefault(l, []).append((x is not None or r in (S, N), x0))
                    elif x is not None:
                        fs = self.fields(f, s[1])
                        if fs and fs[-1] != self.opt:
                            if self.p.tys[fs[-1][0]]["k"] in ("adt", "closure") and "*" in s[1][1] and self.isbool(fs[-1]):
                                self.setsrc(fs[-1], x)
                        if "*" not in s[1][1]:
                            defs.setdefault(s[1][0], []).append((True, M))
                    if s[2][0] == "agg" and s[2][1][0] == "tuple" and not s[1][1] and ndefs.get(s[1][0], 0) == 1:
                        for i, o in enumerate(s[2][2]):
                            y = self.op(f, o, env)
                            if y is not None:
                                defs.setdefault(("el", s[1][0], i), []).append((True, y))
                                defs.setdefault(("tuple", s[1][0]), []).append((True, M))
                    if s[2][0] == "agg" and s[2][1][0] in ("adt", "closure"):
                        ty = s[2][1][1]
                        for i, o in enumerate(s[2][2]):
                            y = self.op(f, o, env)
                            if y is not None and (ty, i) != self.opt:
                                if self.p.tys[ty]["k"] == "closure" or self.p.tys[ty].get("local"):
                                    self.setsrc((ty, i), y)
                t = blk["t"]
                if t[0] == "call":
                    xs = [self.op(f, o, env) for o in t[2]]
                    res = None
                    if "i" in t[1]:
                        g = self.p.fns[t[1]["i"]]
                        if g.local and g.has_body():
                            for i, x in enumerate(xs):
                                if x is not None and i < g.argc:
                                    k = (g.id, i + 1)
                                    y = x.join(self.param.get(k))
                                    if self.param.get(k) != y:
                                        self.param[k] = y
                                        self.changed = True
                            res = self.ret.get(g.id)
                        elif any(x is not None for x in xs):
                            res = M
                    elif any(x is not None for x in xs):
                        res = M
                    if not t[3][1]:
                        defs.setdefault(t[3][0], []).append((res is not None or r in (S, N), Pol(r, r) if res is None else res))
            for l, ds in defs.items():
                if any(tn for tn, _ in ds) and (len(ds) > 1 or any(x is not None for x in [None]) or True):
                    # defined only in one region and nothing else: not a choice between values
                    if not any(self.isdata(d) for d in ds) and len(ds) == 1 and l != 0:
                        continue
                    for _, x in ds:
                        put(l, x)
            for i in range(f.argc):
                if i + 1 in env and i + 1 not in new:
                    new[i + 1] = env[i + 1]
            if new == env:
                break
            merged = {}
            for l in set(new) | set(env):
                merged[l] = new[l].join(env.get(l)) if l in new and l in env and self.rounds > 30 else new.get(l, env.get(l))
            self.rounds += 1
            if merged == env or self.rounds > 200:
                env = merged
                break
            env = merged
        self.loc[f.id] = env
        self.region[f.id] = imp
        r = env.get(0)
        if r is not None and self.p.tys[f.locals[0]]["k"] in ("bool", "int", "tuple"):
            if self.ret.get(f.id) != r:
                self.ret[f.id] = r
                self.changed = True

    def isdata(self, d):
        return d[0] and d[1] not in (Pol(S, S), Pol(N, N))

    def isbool(self, k):
        t = self.p.tys[k[0]]
        if t["k"] == "adt" and t["v"] and k[1] < len(t["v"][0]["f"]):
            return self.p.tys[t["v"][0]["f"][k[1]][1]]["k"] == "bool"
        return t["k"] == "closure"

    def setsrc(self, k, x):
        y = x.join(self.src.get(k))
        if self.src.get(k) != y:
            self.src[k] = y
            self.changed = True

    def run(self, fns):
        n = 0
        while self.changed and n < 20:
            self.changed = False
            n += 1
            for f in fns:
                self.rounds = 0
                self.fn(f)


# ---- judging the choices

LOGS = ("log::", "core::fmt", "std::fmt", "alloc::fmt", "<str", "core::str", "std::string", "alloc::string",
        "<&T as std::fmt", "<std::", "std::cmp", "core::cmp", "<log::", "std::panic")


def is_err(p, f, s):
    """does the statement give the return place an error value: True / False / None (not about it)"""
    if s[0] == "=" and s[1] == [0, []]:
        rv = s[2]
        if rv[0] == "agg" and rv[1][0] == "adt":
            return p.tys[rv[1][1]]["v"][rv[1][2]]["n"] in ("Err", "Break")
        return False
    if s[0] == "=" and s[1][0] == 0:
        return False
    return None


def errlocals(p, f):
    """locals that only ever hold error values"""
    defs = {}
    for b in f.live_blocks():
        for s in f.bb[b]["s"]:
            if s[0] == "=" and not s[1][1]:
                rv = s[2]
                ok = rv[0] == "agg" and rv[1][0] == "adt" and p.tys[rv[1][1]]["k"] == "adt" and p.tys[rv[1][1]]["ak"] == "enum" and \
                    p.tys[rv[1][1]]["v"][rv[1][2]]["n"] in ("Err", "Break")
                defs.setdefault(s[1][0], []).append(ok)
        t = f.bb[b]["t"]
        if t[0] == "call" and not t[3][1]:
            defs.setdefault(t[3][0], []).append(False)
    return {l for l, v in defs.items() if all(v)}


def rejects(p, f, edge, depth=0):
    """every path from the block returns an error"""
    el = errlocals(p, f)
    seen = set()
    st = [(edge, False)]
    while st:
        b, err = st.pop()
        if (b, err) in seen:
            continue
        seen.add((b, err))
        blk = f.bb[b]
        for s in blk["s"]:
            e = is_err(p, f, s)
            if e is False and s[1] == [0, []] and s[2][0] == "use" and s[2][1][0] in ("cp", "mv") and s[2][1][1][0] in el:
                e = True
            if e is not None:
                err = e
        t = blk["t"]
        if t[0] == "ret":
            if not err:
                return False
            continue
        if t[0] == "call" and t[3] == [0, []]:
            c = t[1].get("via", "") + " " + (p.fns[t[1]["i"]].p if "i" in t[1] else "")
            err = "from_residual" in c
            if not err and depth < 4 and "i" in t[1] and p.fns[t[1]["i"]].local and p.fns[t[1]["i"]].has_body():
                err = rejects(p, p.fns[t[1]["i"]], 0, depth + 1)
        if t[0] in ("resume",):
            continue
        st += [(x, err) for x in f.succs(b)]
    return True


def reachset(f, starts, avoid=()):
    seen, st = set(), [x for x in starts if x not in avoid]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st += [y for y in f.succs(x) if y not in avoid and y not in seen]
    return seen


def meeting(f, b, rej):
    """first block on every way from the sides of a branch to a return or back to
    the branch, not counting ways on which an error is certain"""
    start = [x for x in f.succs(b) if x not in rej]
    every = reachset(f, start, rej)
    ends = {x for x in every if f.bb[x]["t"][0] == "ret"} | ({b} & every)
    cands = []
    for x in every:
        if x != b and not (reachset(f, start, rej | {x}) & ends):
            cands.append(x)
    if not cands:
        return b if b in every else None
    # the one that is met before the others
    for x in cands:
        if not (reachset(f, start, rej | {x}) & set(cands)):
            return x
    return None


def pure_call(p, f, t, env):
    if "i" in t[1]:
        g = p.fns[t[1]["i"]]
        if g.p.startswith(LOGS) or not g.local and g.p.startswith("<") and "fmt" in g.p:
            return True
        if g.local and all(p.tys[x]["k"] not in ("ref", "ptr") or not p.tys[x].get("m") for x in g.locals[1:1 + g.argc]):
            return all(not hasmut(p, x) for x in g.locals[1:1 + g.argc])
        if not g.local:
            for o in t[2]:
                if o[0] in ("cp", "mv"):
                    ty = f.locals[o[1][0]] if not o[1][1] else None
                    if ty is None or hasmut(p, ty):
                        return False
            return True
    return False


def hasmut(p, ty, d=0):
    t = p.tys[ty]
    if t["k"] in ("ref", "ptr"):
        return bool(t.get("m")) or (d < 3 and hasmut(p, t["e"], d + 1))
    if t["k"] == "dyn":
        return True
    if d < 3:
        for x in t.get("f", []) if t["k"] in ("tuple", "closure") else []:
            if hasmut(p, x, d + 1):
                return True
    return False


def effects(p, f, blocks, J, live, taken, env):
    """what a region does that is felt outside of it: [(text, line)]"""
    out = []
    after = live[J] if J is not None else {0}
    for b in sorted(blocks):
        blk = f.bb[b]
        for s in blk["s"]:
            if s[0] == "=":
                pl = s[1]
                if "*" in pl[1]:
                    out.append(("writes through a reference", s[3]))
                elif pl[0] in after and pl[0] != 0:
                    out.append(("changes a variable used afterwards (%s)" % (f.names.get(str(pl[0])) or "_%d" % pl[0]
                                                                         if isinstance(f.names, dict) else "_%d" % pl[0]), s[3], pl[0]))
                elif pl[0] == 0 and is_err(p, f, s) is not True:
                    out.append(("sets the result", s[3]))
        t = blk["t"]
        if t[0] == "call":
            if t[3][0] in after and not t[3][1] and t[3][0] != 0:
                out.append(("changes a variable used afterwards", t[5], t[3][0]))
            if not pure_call(p, f, t, env):
                if "i" in t[1] and "from_residual" in (t[1].get("via") or ""):
                    continue
                n = p.fns[t[1]["i"]].p if "i" in t[1] else "a function pointer"
                out.append(("calls %s" % n, t[5]))
    return out


def check(rep, tier):
    rep.rule = ("taint of the strict mode option through the type-checked MIR, with what each tainted boolean implies about the "
                "option; at every branch on a tainted value the side taken in strict mode must lead to an error on every path, "
                "or neither side may do anything felt after they meet; an error on a side taken only in lenient mode is a violation")
    p = common.program()
    roots = [hdr.public(p, n).id for n in ("decode_buffer", "read_headers")]
    try:
        roots.append(hdr.public(p, "decode_file").id)
    except AnchorMissing:
        pass
    ids = p.reach(roots)
    fns = [p.fns[i] for i in ids if p.fns[i].local and p.fns[i].has_body()]
    # constructors and setters of options take part in the flow
    T = Taint(p)
    T.run(fns)
    nb = 0
    for f in fns:
        env = T.loc.get(f.id, {})
        imp = T.region.get(f.id, {})
        live = taken = None
        for b in sorted(f.live_blocks()):
            t = f.bb[b]["t"]
            if t[0] != "switch":
                continue
            pol = T.op(f, t[1], env)
            if pol is None:
                continue
            # a variable defined on one side only of an earlier choice says nothing new inside it
            if imp.get(b, MIX) in (S, N):
                continue
            nb += 1
            isb = t[1][0] in ("cp", "mv") and not t[1][1][1] and p.tys[f.locals[t[1][1][0]]]["k"] == "bool"
            sides = []
            for v, bb in t[2]:
                sides.append((bb, (pol.t if v else pol.f) if isb else MIX))
            if len(t[2]) == 1 or not isb:
                sides.append((t[3], (pol.f if t[2] and t[2][0][0] else pol.t) if isb else MIX))
            where = "%s (%s:%s)" % (f.p, f.file, t[4])
            key = "branch:" + f.p
            if live is None:
                live, taken = liveness(f)
                rej = {x for x in f.live_blocks() if f.bb[x]["t"][0] != "ret" and rejects(p, f, x) and
                       any(f.bb[y]["t"][0] == "ret" for y in reachset(f, [x]))}
            J = meeting(f, b, rej)
            stop = {b} | ({J} if J is not None else set())
            side = dict(sides)
            rs = {bb: reachset(f, [bb], stop | rej) for bb in side}            # goes on
            es = {bb: (rej & ({bb} | {y for x in rs[bb] for y in f.succs(x)})) for bb in side}   # entered errors
            bad = und = None
            for bb, m in sides:
                if m == N:
                    continue            # not taken in strict mode
                for lb, m2 in sides:
                    if lb == bb or m2 == S:
                        continue        # not taken in lenient mode
                    sure = not (m == MIX and m2 == MIX)
                    if es[lb] - es[bb] and bb not in rej:
                        w = ("an error is returned without strict mode where strict mode goes on", t[4])
                        if sure:
                            bad = bad or w
                        else:
                            und = und or w
                        continue
                    if bb in rej or lb in rej:
                        continue
                    eff = effects(p, f, rs[bb] ^ rs[lb], J, live, taken, env)
                    eff = [e for e in eff if not (len(e) > 2 and e[2] in env)]
                    if eff:
                        bad = bad or eff[0]
            if bad:
                rep.fail(key, "%s: depending on strict mode: %s (line %s)" % (where, bad[0], bad[1]))
            elif und:
                rep.obligations += 1
                rep.undecided.append("%s: depending on strict mode: %s (line %s)" % (where, und[0], und[1]))
            else:
                rep.ok()
                rep.samples.append("%s: %s" % (where, "strict mode only adds an error"))
        # data that depends on the option
        for b in sorted(f.live_blocks()):
            for s in f.bb[b]["s"]:
                if s[0] == "=" and "*" in s[1][1]:
                    x = T.rv(f, s[2], env)
                    fs = T.fields(f, s[1])
                    if x is not None and (not fs or fs[-1] not in T.src):
                        rep.fail("data:" + f.p, "%s (%s:%s) stores a value that depends on strict mode" % (f.p, f.file, s[3]))
    rep.stats["functions analysed"] = len(fns)
    rep.stats["branches on strict mode"] = nb
    rep.stats["fields that carry it"] = len(T.src)
    if nb == 0:
        rep.notes.append("no branch depends on strict mode")
