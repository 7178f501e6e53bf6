"""values of closed terms over lists of integers: loops that build a list are carried out turn by turn on the term"""
from vlib.check import *
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
from c20 import At, Odd


class Lists(At):
    """leaf(t): value of a term or None; loops: the evaluator's loops by id"""

    def __init__(self, leaf, loops, env=None, budget=None):
        At.__init__(self, leaf)
        self.loops, self.env, self.budget = loops, env or {}, budget if budget is not None else [4000]

    def within(self, env): return Lists(self.leaf, self.loops, {**self.env, **env}, self.budget)

    def target(self, t):
        """the list an iterator walks"""
        if t.op in ("ref", "addr"):
            r = t.a[0]
            v = self.leaf(r) if hasattr(r, "op") else None
            if v is None and hasattr(r, "op") and r.op in ("sym",): v = self.leaf(r)
            if v is not None: return v
            if hasattr(r, "op"): return self(r)
        return self(t)

    def loop(self, i):
        """values that leave loop i, by name of its variable"""
        key = ("loop", i)
        if key in self.env: return self.env[key]
        L = self.loops.get(i)
        if L is None or L.trip is None or L.hasret or getattr(L, "breaks", None): raise Odd("loop")
        n = self(L.trip)
        if n > 64: raise Odd("long loop")
        names = {}
        for k, it in L.iter.items():
            if it.op == "iter": names[it.a[1]] = k
        cur = {j: self(L.init[k]) for j, k in names.items()}
        for c in range(int(max(n, 0))):
            self.budget[0] -= 1
            if self.budget[0] < 0: raise Odd("budget")
            at = self.within({("ctr", i): c, **{("iter", i, j): v for j, v in cur.items()}})
            cur = {j: at(L.next[k]) if k in L.next else v for (j, v), k in zip(cur.items(), names.values())}
        return cur

    def __call__(self, t):
        v = self.leaf(t)
        if v is not None: return v
        o = t.op
        if o == "ctr" and ("ctr", t.a[0]) in self.env: return self.env[("ctr", t.a[0])]
        if o == "iter" and ("iter", t.a[0], t.a[1]) in self.env: return self.env[("iter", t.a[0], t.a[1])]
        if o == "lout": return self.loop(t.a[0])[t.a[1]]
        if o == "vec": return [self(x) for x in t.a]
        if o == "filled": return [self(t.a[0])] * int(self(t.a[1]))
        if o == "pushed": return self(t.a[0]) + [self(t.a[1])]
        if o == "new" and str(t.a[0]).startswith("std::vector") and len(t.a) == 2: return self(t.a[1])
        if o in ("size", "sel"):
            l = self(t.a[0])
            if not isinstance(l, list): raise Odd("no list " + show(t, 3))
            if o == "size": return len(l)
            k = self(t.a[1])
            if not 0 <= k < len(l): raise Odd("outside a list")
            return l[int(k)]
        if o == "itr": return self(t.a[1])
        if o == "itnext": return self(t.a[0]) + 1
        if o == "call":
            q = str(t.a[0]).split("<")[0]; n = q.split("::")[-1]
            if q in ("std::find", "std::count") and len(t.a) == 4:
                a, b = t.a[1], t.a[2]
                if a.op == "itr" and b.op == "itr":
                    l = self.target(a.a[0]); lo, hi = int(self(a.a[1])), int(self(b.a[1]))
                    x = self(t.a[3])
                    if not isinstance(l, list) or not 0 <= lo <= hi <= len(l): raise Odd("range")
                    if q == "std::count": return l[lo:hi].count(x)
                    return lo + (l[lo:hi].index(x) if x in l[lo:hi] else hi - lo)
            if n in ("size", "length") and len(t.a) == 2:
                l = self(t.a[1])
                if isinstance(l, list): return len(l)
            if n == "empty" and len(t.a) == 2:
                l = self(t.a[1])
                if isinstance(l, list): return not l
        if o == "cast": return self(t.a[-1])
        return At.__call__(self, t)


def happens(e, leaf, evloops, limit=16):
    """does the effect e happen, for the values leaf gives? every turn of the loops around it is tried"""
    ls = [evloops[l] if not hasattr(l, "trip") else l for l in e.loops]

    def go(i, env):
        at = Lists(leaf, evloops, env)
        if i == len(ls):
            for c in e.pc:
                if not at(c): return False
            return True
        L = ls[i]
        if L.trip is None: raise Odd("a loop of unknown length")
        n = at(L.trip)
        if n > limit: raise Odd("too long")
        cur = {it.a[1]: (k, at(L.init[k])) for k, it in L.iter.items() if it.op == "iter" and k in L.init and any(contains(c, lambda z: z is it) for c in e.pc)}
        vals = {j: v for j, (k, v) in cur.items()}
        for c in range(int(max(n, 0))):
            e2 = {**env, ("ctr", L.id): c, **{("iter", L.id, j): v for j, v in vals.items()}}
            if go(i + 1, e2): return True
            if cur:
                at2 = Lists(leaf, evloops, e2)
                vals = {j: at2(L.next[k]) if k in L.next else vals[j] for j, (k, v) in cur.items()}
        return False
    return go(0, {})
