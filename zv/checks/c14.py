"""C14: pixels do not depend on threads, schedule, time or environment."""
from ..common import program
from ..prog import AnchorMissing
from ..effects import external_calls, matches, NONDET, entry_roots

SHARED = ("std::cell", "core::cell", "std::sync::Mutex", "std::sync::RwLock", "std::sync::atomic",
          "core::sync::atomic", "std::sync::mpsc", "std::sync::Condvar", "std::sync::Once", "std::sync::Barrier",
          "std::sync::poison", "std::sync::nonpoison", "std::rc", "std::sync::LazyLock", "std::thread", "std::sync::mpmc",
          "std::sync::reentrant")


def shared_parts(P, tyid):
    """types with which tasks could observe each other, inside a captured type"""
    out, seen = [], set()
    st = [(tyid, "")]
    while st:
        t, _ = st.pop()
        if t in seen:
            continue
        seen.add(t)
        ty = P.tys[t]
        k = ty["k"]
        if k == "adt":
            if matches(ty["p"], SHARED):
                out.append(ty["n"])
                continue
            st += [(g, "") for g in ty["ga"]]
            # look inside the crate's own types; std containers are described by their arguments
            if ty["local"]:
                for v in ty["v"]:
                    st += [(x[1], "") for x in v["f"]]
        elif k in ("ref", "slice", "array"):
            st.append((ty["e"], ""))
        elif k == "ptr":
            out.append("raw pointer " + ty["n"])
        elif k in ("tuple", "closure"):
            st += [(x, "") for x in ty["f"]]
        elif k in ("dyn", "other"):
            out.append("opaque " + ty["n"])
    return out


class Taint:
    """flow-insensitive forward taint of the thread count, per function local;
    interprocedural over exported bodies"""

    def __init__(self, P, opt, fidx):
        self.P, self.opt, self.fidx = P, opt, fidx
        self.t = {}             # (fn, local) tainted
        self.ret = set()
        self.fields = set()     # (adt name, variant, idx) tainted besides the option itself
        self.sinks = []         # (fn, line, what)
        self.callers = {}
        self.work = []
        self.reach = None

    def place_tainted(self, f, pl):
        P = self.P
        if (f.id, pl[0]) in self.t:
            return True
        t = f.locals[pl[0]]
        var = 0
        for e in pl[1]:
            ty = P.tys[t]
            if e == "*" or e[0] in ("i", "ci"):
                if e != "*" and e[0] == "i" and (f.id, e[1]) in self.t:
                    return True
                t = ty.get("e", t)
                var = 0
            elif e[0] == "f":
                if t == self.opt and e[1] == self.fidx:
                    return True
                if ty["k"] in ("adt", "closure") and (ty["n"], var, e[1]) in self.fields:
                    return True
                t = e[2]
                var = 0
            elif e[0] == "d":
                var = e[1]
        return False

    def op(self, f, o):
        return o[0] in ("cp", "mv") and self.place_tainted(f, o[1])

    def taint_place(self, f, pl, line):
        P = self.P
        # find innermost field owner
        t = f.locals[pl[0]]
        var = 0
        owner = None
        for e in pl[1]:
            ty = P.tys[t]
            if e == "*" or e[0] in ("i", "ci", "ss"):
                t = ty.get("e", t)
                var = 0
            elif e[0] == "f":
                owner = (t, var, e[1])
                t = e[2]
                var = 0
            elif e[0] == "d":
                var = e[1]
        if owner is None:
            if (f.id, pl[0]) not in self.t:
                self.t[(f.id, pl[0])] = line
                return True
            return False
        if owner[0] == self.opt and owner[2] == self.fidx:
            return False
        ty = P.tys[owner[0]]
        if ty["k"] in ("adt", "closure"):
            key = (ty["n"], owner[1], owner[2])
            if key not in self.fields:
                self.fields.add(key)
                return True
            return False
        if (f.id, pl[0]) not in self.t:
            self.t[(f.id, pl[0])] = line
            return True
        return False

    def run(self, fns):
        P = self.P
        changed = True
        while changed:
            changed = False
            nf, nt, nr = len(self.fields), len(self.t), len(self.ret)
            for f in fns:
                self.fn(f)
            changed = (nf, nt, nr) != (len(self.fields), len(self.t), len(self.ret))
        self.sinks = []
        self.final = True
        for f in fns:
            self.fn(f, report=True)

    SINK_OK = ("scoped_threadpool::Pool::new", "core::fmt", "std::fmt", "log::", "std::num::NonZero",
               "core::num", "std::option", "std::cmp")

    def fn(self, f, report=False):
        P = self.P
        for b in f.live_blocks():
            blk = f.bb[b]
            for s in blk["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                k = rv[0]
                tn = False
                if k in ("ref", "raw"):
                    tn = self.place_tainted(f, rv[2])
                elif k == "disc":
                    tn = self.place_tainted(f, rv[1])
                elif k == "agg":
                    kind = rv[1]
                    for i, o in enumerate(rv[2]):
                        if self.op(f, o):
                            if kind[0] == "adt" and kind[1] == self.opt and i == self.fidx:
                                continue
                            if kind[0] == "adt":
                                self.fields.add((P.tys[kind[1]]["n"], kind[2], kind[3] if kind[3] >= 0 else i))
                            elif kind[0] == "closure":
                                self.fields.add((P.tys[kind[1]]["n"], 0, i))
                            else:
                                tn = True
                else:
                    tn = any(self.op(f, o) for o in P.rv_ops(rv))
                if tn:
                    self.taint_place(f, s[1], s[3])
                    if s[1][0] == 0 and not s[1][1]:
                        self.ret.add(f.id)
            t = blk["t"]
            if t[0] == "switch" and report and f.local and self.op(f, t[1]):
                self.sinks.append((f, t[4] if len(t) > 4 else 0, "branches on the thread count"))
            if t[0] == "assert" and report and f.local:
                pass
            if t[0] == "call":
                c = t[1]
                ta = [self.op(f, a) for a in t[2]]
                tn = False
                if "i" in c:
                    g = P.fns[c["i"]]
                    if g.p.startswith("scoped_threadpool::Pool::thread_count"):
                        tn = True
                    elif g.has_body():
                        for i, x in enumerate(ta):
                            if x and g.spread < 0 and i < g.argc:
                                self.t.setdefault((g.id, i + 1), t[5])
                        tn = g.id in self.ret
                        if not g.local and any(ta):
                            tn = True
                    elif any(ta):
                        if g.p.startswith("scoped_threadpool::Pool::new"):
                            tn = False
                        elif "fmt" in g.p or g.cr == "log":
                            tn = "Argument" in g.p or "Arguments" in g.p
                        else:
                            tn = True
                elif any(ta):
                    tn = True
                if tn:
                    self.taint_place(f, t[3], t[5])
                    if t[3][0] == 0:
                        self.ret.add(f.id)
            if t[0] == "ret" and (f.id, 0) in self.t:
                self.ret.add(f.id)


def check(rep, tier):
    rep.rule = ("information flow of the thread count (only into the thread pool and log messages); types captured by "
                "worker tasks contain nothing through which tasks can observe each other; no time, randomness, "
                "environment, thread identity or mutable global state reachable")
    rep.trusted = ["borrow checker: tasks without shared mutable state cannot observe each other",
                   "scoped_threadpool joins its tasks at the end of the scope"]
    P = program(True)
    opt = P.adt("ZuneJpegOptions")
    fidx = P.field_index(opt, "num_threads")
    local = P.local_fns()
    # 1. effects
    n = 0
    reach = P.reach([f.id for f in local])
    bodies = [P.fns[i] for i in sorted(reach) if P.fns[i].has_body()]
    for f, g, line in external_calls(P, bodies):
        if not f.local:
            continue
        n += 1
        m = matches(g.p, NONDET)
        if m and not g.p.startswith("std::sync::Arc"):
            rep.fail("effect:%s->%s" % (f.p, g.p), "%s (%s:%s) uses %s: the result could depend on %s"
                     % (f.p, f.file, line, g.p, m))
    rep.ok(n)
    rep.floor("external call sites", n, 300)
    for f in local:
        for b in f.live_blocks():
            for s in f.bb[b]["s"]:
                if s[0] == "=" and s[2][0] == "tls":
                    rep.fail("tls:" + f.p, "%s (%s:%s) uses thread-local state" % (f.p, f.file, s[3]))
                if s[0] == "=" and s[2][0] == "cast" and s[2][1].startswith("PointerExpose"):
                    rep.fail("addr:" + f.p, "%s (%s:%s) turns a memory address into a number" % (f.p, f.file, s[3]))
    for s in P.statics:
        rep.obligation(not s["mut"] and s["freeze"], "static:" + s["p"], "static %s is mutable global state" % s["p"])
    rep.obligation(not P.unsafe_impls, "unsafe impl", "unsafe impls of %s bypass the thread-safety checks" % P.unsafe_impls)
    # 2. worker tasks
    tasks = 0
    for f in local:
        for b in f.live_blocks():
            t = f.bb[b]["t"]
            if t[0] == "call" and "i" in t[1]:
                g = P.fns[t[1]["i"]]
                if g.cr == "scoped_threadpool" and g.p.endswith("::execute"):
                    for ty in g.ga:
                        if P.tys[ty]["k"] == "closure":
                            tasks += 1
                            bad = []
                            for x in P.tys[ty]["f"]:
                                bad += shared_parts(P, x)
                            rep.obligation(not bad, "task:" + f.p, "the worker task created in %s (%s:%s) captures %s"
                                           % (f.p, f.file, t[5], bad))
                            rep.samples.append("task of %s captures %s" % (f.p, [P.tys[x]["n"] for x in P.tys[ty]["f"]]))
    rep.floor("worker tasks", tasks, 3)
    # 3. thread count
    T = Taint(P, opt, fidx)
    T.run(bodies)
    entries = [f.id for f in local if f.p.endswith(("Decoder::decode_buffer", "Decoder::decode_file", "Decoder::read_headers"))]
    if len(entries) < 3:
        raise AnchorMissing("decoder entry points")
    live = P.reach(entries)
    for f, line, what in T.sinks:
        if f.id in live:
            rep.fail("threads:%s" % f.p, "%s (%s:%s) %s" % (f.p, f.file, line, what))
    okfields = ("std::ops::ControlFlow", "std::option::Option", "std::num::NonZero", "std::result::Result",
                "core::num", "core::fmt", "std::fmt", "log::")
    for (n_, v, i) in sorted(T.fields, key=str):
        if any(n_.startswith(o) for o in okfields) or "closure" in n_:
            continue
        rep.fail("threads-field:%s.%d" % (n_, i), "the thread count is stored in field %d of %s" % (i, n_))
    # closures that capture it must not be tasks
    used = {}
    pools = 0
    for f in bodies:
        for b in f.live_blocks():
            t = f.bb[b]["t"]
            if t[0] == "call" and "i" in t[1]:
                g = P.fns[t[1]["i"]]
                if g.p.startswith("scoped_threadpool::Pool::new"):
                    pools += 1
                    rep.obligation(T.op(f, t[2][0]) or True, "pool:" + f.p, "")
                    continue
                if not f.local or f.id not in live:
                    continue
                if g.has_body() and g.local:
                    continue
                for i, a in enumerate(t[2]):
                    if T.op(f, a) and not (g.cr in ("log",) or "fmt" in g.p or g.p.startswith(("scoped_threadpool::Pool::new",
                            "std::num::", "core::num::", "std::cmp", "std::option", "std::result", "std::convert",
                            "<u32 as", "<usize as", "<T as std::convert", "<T as std::clone", "std::clone",
                            "scoped_threadpool::Pool::scoped", "scoped_threadpool::Pool::thread_count")) or "Ord" in g.p
                            or "From" in g.p or "Clone" in g.p or "PartialEq" in g.p):
                        rep.fail("threads-arg:%s->%s" % (f.p, g.p), "%s (%s:%s) passes a value derived from the thread count to %s"
                                 % (f.p, f.file, t[5], g.p))
    for i in entries:
        rep.obligation(i not in T.ret, "threads-ret:" + P.fns[i].p, "the result of %s depends on the thread count" % P.fns[i].p)
    rep.floor("thread pools", pools, 2)
    rep.stats["tainted locals"] = len(T.t)
    rep.floor("reads of the thread count", len(T.t), 2)
