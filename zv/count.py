"""Typestate of the restart countdown in a function that reads coefficients, over its MIR (and that of
local helpers that change the countdown): between two reads of coefficients the countdown must not be
left at zero.

The countdown is one of the classes 0, 1 and 2 (two or more); the restart interval is 1 or 2 (none:
there are no restarts).  Locals that hold a copy of the countdown or of the interval, a constant or the
outcome of a comparison of those are tracked along with it; everything else is unknown, and branches
on it go both ways.  Paths on which the countdown becomes unknown are given up."""

DEC = {0: (2,), 1: (0,), 2: (1, 2)}
SAT = {0: (0,), 1: (0,), 2: (1, 2)}


class Scan:
    def __init__(self, p, dty, todo, interval, decode, handlers, mods):
        self.p, self.dty, self.todo, self.interval = p, dty, todo, interval
        self.decode, self.handlers, self.mods = decode, handlers, mods
        self.memo = {}
        self.viol = {}
        self.reads = self.counts = self.restarts = self.lost = 0
        self.inter = 1

    def field(self, f, pl):
        """index of the decoder field that a place is, if it is one"""
        if not pl[1] or not isinstance(pl[1][-1], list) or pl[1][-1][0] != "f":
            return None
        p = self.p
        t = f.locals[pl[0]]
        for j, e in enumerate(pl[1]):
            if e == "*":
                t = p.tys[t].get("e", -1)
            elif e[0] == "f":
                if t == self.dty:
                    return e[1] if j == len(pl[1]) - 1 else None
                t = e[2]
            elif e[0] in ("i", "ci"):
                t = p.tys[t].get("e", -1)
            elif e[0] == "d":
                pass
            if t is None or t == -1:
                return None
        return None

    def val(self, f, o, c, env):
        if o[0] == "c":
            return ("n", o[2]) if isinstance(o[2], int) else ("b", o[2]) if isinstance(o[2], bool) else None
        if o[0] in ("cp", "mv"):
            pl = o[1]
            if not pl[1]:
                return env.get(pl[0])
            k = self.field(f, pl)
            if k == self.todo:
                return ("k", c)
            if k == self.interval:
                return ("k", self.inter)
            if len(pl[1]) == 1 and pl[1][0] != "*" and pl[1][0][0] == "f" and pl[1][0][1] == 0 and env.get(pl[0], (0,))[0] == "wo":
                return env[pl[0]][1]
        return None

    @staticmethod
    def rng(v):
        if v is None:
            return None
        if v[0] == "n":
            return (v[1], v[1])
        if v[0] == "k":
            return (v[1], v[1]) if v[1] < 2 else (2, None)
        return None

    def cmp(self, op, a, b):
        if a and b and a[0] == b[0] == "k" and a[1] == b[1] == 2:
            return None
        x, y = self.rng(a), self.rng(b)
        if x is None or y is None:
            return None
        lt = x[1] is not None and x[1] < y[0]
        gt = y[1] is not None and y[1] < x[0]
        eq = x[0] == x[1] == y[0] == y[1]
        ge = y[1] is not None and x[0] >= y[1]
        le = x[1] is not None and x[1] <= y[0]
        return {"Eq": True if eq else False if lt or gt else None, "Ne": False if eq else True if lt or gt else None,
                "Lt": True if lt else False if ge else None, "Ge": True if ge else False if lt else None,
                "Gt": True if gt else False if le else None, "Le": True if le else False if gt else None}.get(op)

    def minus(self, v, b, tab):
        """classes of v - b"""
        if v is None or v[0] != "k" or b != ("n", 1):
            return None
        return [("k", k) for k in tab[v[1]]]

    def values(self, f, rv, c, env):
        """possible values of an rvalue"""
        k = rv[0]
        if k == "use":
            return [self.val(f, rv[1], c, env)]
        if k == "bin":
            a, b = self.val(f, rv[2], c, env), self.val(f, rv[3], c, env)
            if rv[1] in ("Eq", "Ne", "Lt", "Ge", "Gt", "Le"):
                r = self.cmp(rv[1], a, b)
                return [None if r is None else ("b", r)]
            if rv[1] in ("Sub", "SubUnchecked"):
                return self.minus(a, b, DEC) or [None]
            if rv[1] == "SubWithOverflow":
                x = self.minus(a, b, DEC)
                # an overflow ends the path
                return [("wo", y) for y in x if not (a == ("k", 0))] if x else [None]
            if rv[1] in ("BitAnd", "BitOr") and a and b and a[0] == b[0] == "b":
                return [("b", a[1] and b[1] if rv[1] == "BitAnd" else a[1] or b[1])]
        if k == "un" and rv[1] == "Not":
            a = self.val(f, rv[2], c, env)
            return [("b", not a[1])] if a and a[0] == "b" else [None]
        if k == "cast":
            return [self.val(f, rv[2], c, env)]
        return [None]

    def run(self, f, c0, inter):
        """outcomes (class, value) of f started with class c0; None: the countdown is not known"""
        key = (f.id, c0, inter)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = set()
        self.inter = inter
        p = self.p
        out = set()
        seen = set()
        work = [(0, c0, ())]
        tracked = self.tracked(f)
        while work:
            st = work.pop()
            if st in seen:
                continue
            seen.add(st)
            if len(seen) > 200000:
                self.lost += 1
                return out
            b, c, e = st
            states = [(c, dict(e))]
            blk = f.bb[b]
            for s in blk["s"]:
                if s[0] == "dead":
                    for _, env in states:
                        env.pop(s[1], None)
                    continue
                if s[0] != "=":
                    continue
                nx = []
                for c, env in states:
                    pl = s[1]
                    k = self.field(f, pl)
                    if k == self.todo:
                        for v in self.values(f, s[2], c, env):
                            if v and v[0] == "k":
                                nx.append((v[1], dict(env)))
                            elif v and v[0] == "n":
                                nx.append((min(v[1], 2), dict(env)))
                            else:
                                self.lost += 1
                    elif k == self.interval or pl[1] == ["*"] and f.locals[pl[0]] in self.refs():
                        self.lost += 1
                    elif s[2][0] in ("ref", "raw") and s[2][1] and self.field(f, s[2][2]) in (self.todo, self.interval):
                        self.lost += 1
                    elif not pl[1]:
                        vs = self.values(f, s[2], c, env) if pl[0] in tracked else [None]
                        for v in vs:
                            n = dict(env)
                            n.pop(pl[0], None)
                            if v is not None:
                                n[pl[0]] = v
                            nx.append((c, n))
                    else:
                        if pl[0] in env:
                            env.pop(pl[0])
                        nx.append((c, env))
                states = nx
            t = blk["t"]
            for c, env in states:
                for b2, c2, e2 in self.term(f, b, t, c, env, out, inter, tracked):
                    work.append((b2, c2, tuple(sorted(e2.items()))))
        self.memo[key] = out
        return out

    def refs(self):
        return {i for i, t in enumerate(self.p.tys) if t["k"] == "ref" and t.get("e") == self.dty}

    def tracked(self, f):
        """locals of integer, bool or checked arithmetic type"""
        r = set()
        for i, t in enumerate(f.locals):
            k = self.p.tys[t]["k"]
            if k in ("int", "bool", "tuple"):
                r.add(i)
        return r

    def term(self, f, b, t, c, env, out, inter, tracked):
        p = self.p
        self.inter = inter
        k = t[0]
        if k == "goto":
            return [(t[1], c, env)]
        if k == "ret":
            out.add((c, env.get(0)))
            return []
        if k in ("unreach", "resume"):
            return []
        if k == "drop":
            return [(t[3], c, env)]
        if k == "assert":
            v = self.val(f, t[1], c, env)
            if v and v[0] == "b" and v[1] != t[2]:
                return []
            return [(t[4], c, env)]
        if k == "switch":
            v = self.val(f, t[1], c, env)
            x = self.rng(v)
            res = []
            if v and v[0] == "b":
                n = int(v[1])
                hit = [bb for w, bb in t[2] if w == n]
                return [((hit[0] if hit else t[3]), c, env)]
            left = True
            for w, bb in t[2]:
                if x is None or x[0] <= w and (x[1] is None or w <= x[1]):
                    res.append((bb, c, env))
                    if x is not None and x[0] == x[1]:
                        left = False
            if left:
                res.append((t[3], c, env))
            return res
        if k == "call":
            if t[4] == -1:
                return []
            env = dict(env)
            d = t[3]
            callee = t[1]
            g = p.fns[callee["i"]] if "i" in callee else None
            vals = [None]
            cs = [c]
            if g is not None:
                nm = g.p.split("::")[-1]
                if g.id in self.decode:
                    self.reads += 1
                    if c == 0:
                        self.viol.setdefault((f.p, g.p), (t[5] if len(t) > 5 else 0, inter))
                elif g.id in self.handlers:
                    self.restarts += 1
                    cs = [inter]
                elif not g.local and nm in ("wrapping_sub", "saturating_sub") and len(t[2]) == 2:
                    a, y = self.val(f, t[2][0], c, env), self.val(f, t[2][1], c, env)
                    m = self.minus(a, y, DEC if nm[0] == "w" else SAT)
                    if m:
                        self.counts += 1
                        vals = m
                elif {self.todo, self.interval, None} & set(self.mods(g)):
                    if g.local and g.has_body() and not (set(p.reach([g.id])) & self.decode):
                        res = self.run(g, c, inter)
                        self.inter = inter
                        return [(t[4], c2, self.put(env, d, v)) for c2, v in res]
                    self.lost += 1
                    return []
            elif "intr" not in callee:
                pass
            if self.field(f, d) == self.todo:
                r = []
                for v in vals:
                    if v and v[0] == "k":
                        r.append((t[4], v[1], env))
                    else:
                        self.lost += 1
                return r
            return [(t[4], c2, self.put(env, d, v if d[0] in tracked else None)) for c2 in cs for v in vals]
        self.lost += 1
        return []

    @staticmethod
    def put(env, d, v):
        env = dict(env)
        env.pop(d[0], None)
        if v is not None and not d[1]:
            env[d[0]] = v
        return env
