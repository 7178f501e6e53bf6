"""strided traversal: which element of which array a kernel's access touches

A kernel walks an index vector nd over the dimensions of an array ("odometer": a loop over dimensions that either advances one
position and stops, or carries: resets it and goes on).  Accesses are either direct (offsets + nd*strides summed over the dimensions)
or incremental (a running position updated together with nd).  The functions here recover both from the evaluator's loop summaries and
compare the coefficients of strides, offsets, extents and positions by polynomial identity."""
from vlib.check import *
from vlib.terms import *
from vlib import terms as TT
import re

BSTR, BSHP = "bland::compute_broadcast_strides", "bland::compute_broadcast_shape"


def nm(t):
    return re.sub(r"<.*", "", t.a[0]) if t.op == "call" else ""


class Odo:
    def __init__(self, ev, F):
        self.ev, self.F = ev, F
        self.loops = {l.id: l for l in ev.allloops.values()}
        self.memo, self.equal = {}, {}
        self.equal = self.equal_shapes()
        self.memo = {}

    def rank(self, X): return raw("rank", self.rep(X))
    def dims(self, w, X): return raw("dims", w, self.rep(X) if w == "shape" else X)
    def rep(self, X):
        if X.op == "new" and len(X.a) > 1 and X.a[0] == "bland::ndarray" and getattr(X.a[1], "op", "") == "dims" and X.a[1].a[0] == "shape":
            return self.rep(X.a[1].a[1])
        return self.equal.get(X, X)

    # ------------------------------------------------ canonical vocabulary
    def canon(self, t):
        r = self.memo.get(t.id)
        if r is None:
            def f(x):
                if x.op == "cast" and x.a[0] in ("i32", "i64", "u32", "u64", "i16"): return self.canon(x.a[1])
                if x.op == "call" and x.a[0] == "bland::ndarray::ndim": return self.rank(self.canon(self.arr(x.a[1])))
                if x.op == "call" and x.a[0] in ("bland::ndarray::shape", "bland::ndarray::strides", "bland::ndarray::offsets"):
                    return self.dims(x.a[0][16:], self.canon(self.arr(x.a[1])))
                if x.op == "call" and x.a[0] == BSTR and len(x.a) == 4:
                    return raw("bdims", "strides", *[self.canon(y) for y in x.a[1:]])
                if x.op == "call" and x.a[0] == BSHP and len(x.a) == 3:
                    return raw("bdims", "shape", *[self.canon(y) for y in x.a[1:]])
                if x.op == "size":
                    y = self.canon(x.a[0])
                    n = self.length(y)
                    return n if n is not None else raw("size", y)
                return None
            r = subst(t, f)
            self.memo[t.id] = r
        return r

    def arr(self, x):
        """the array a term stands for (an out argument changed by data writes is still that array)"""
        while x.op in ("upd", "out"):
            if x.op == "upd": x = x.a[0]
            elif x.a[0].op == "call" and isinstance(x.a[1], int) and len(x.a[0].a) > x.a[1] + 1: x = x.a[0].a[x.a[1] + 1]
            else: break
        return x

    def equal_shapes(self):
        """arrays whose shapes the kernel compares dimension by dimension, throwing on any difference: {array: representative}"""
        rank, dims, out = set(), set(), {}
        pair = lambda p: None
        for e in self.ev.effects:
            if e.kind != "throw": continue
            for c in e.pc:
                c = self.canon(c)
                if c.op != "not" or c.a[0].op != "eq0": continue
                ms = list(pdict(c.a[0].a[0]).items())
                if len(ms) != 2 or ms[0][1] + ms[1][1] != 0 or any(len(m) != 1 for m, _ in ms): continue
                x, y = ms[0][0][0], ms[1][0][0]
                if x.op == y.op == "rank": rank.add(frozenset((x.a[0], y.a[0])))
                if x.op == y.op == "sel" and x.a[0].op == y.a[0].op == "dims" and x.a[0].a[0] == y.a[0].a[0] == "shape" and x.a[1] is y.a[1] and x.a[1].op == "ctr":
                    L = self.loops.get(x.a[1].a[0])
                    if L is not None and L.trip is not None and not L.breaks and self.canon(L.trip) in (raw("rank", x.a[0].a[1]), raw("rank", y.a[0].a[1])):
                        dims.add(frozenset((x.a[0].a[1], y.a[0].a[1])))
        for q in rank & dims:
            x, y = sorted(q, key=lambda t: t.id)
            out[y] = x
        return out

    def length(self, y):
        if y.op == "dims": return self.rank(y.a[1])
        if y.op == "bdims": return self.length(y.a[-1])
        if y.op == "filled": return self.canon(y.a[1])
        if y.op == "rec": return self.length(y.a[0])
        if y.op == "ite":
            a, b = self.length(y.a[1]), self.length(y.a[2])
            return a if a is b else None
        if y.op == "iter":
            L = self.loops.get(y.a[0])
            k = self.key(L, y) if L else None
            if k is not None: return self.length(self.canon(L.init[k]))
        if y.op == "lout": return self.length(self.canon(y.a[2]))
        return None

    def key(self, L, t):
        for k, v in L.iter.items():
            if v is t: return k
        return None

    # ------------------------------------------------ data accesses
    def accesses(self):
        seen = set()
        for e in self.ev.effects:
            if e.kind not in ("read", "write") or not e.loc: continue
            r = e.loc[0]
            if r.op != "mem": continue
            d = r.a[0]
            if d.op == "deref": d = d.a[0]
            if d.op != "call" or not nm(d).endswith("::data_ptr") or not e.loc[1]: continue
            p = e.loc[1][0]
            if p.op != "i": continue
            k = (e.kind, d.id, p.a[0].id, e.line)
            if k in seen: continue
            seen.add(k)
            yield e, self.canon(self.arr(d.a[1])), p.a[0]

    # ------------------------------------------------ index vectors
    def vector(self, t):
        """describe an index vector: dict(kind='odo'|'const'|None, loop M, dloop D, dom, ext, init, upd)"""
        if t.op == "filled": return dict(kind="const", init=t)
        if t.op != "iter": return None
        M = self.loops.get(t.a[0])
        k = self.key(M, t) if M else None
        if k is None: return None
        nxt = M.next.get(k)
        if nxt is None: return None
        D = None
        if nxt.op == "lout": D = self.loops.get(nxt.a[0])
        if D is None or k not in D.iter: return None
        return dict(kind="odo", M=M, D=D, key=k, init=M.init[k], it=D.iter[k], term=t, sound=D.init.get(k) is t)

    def changed_at(self, v, base):
        """the index terms at which v differs from base"""
        out = []
        if v is base: return out
        if v.op == "rec":
            for x in v.a[1:]:
                p = x.a[:-1]
                if len(p) == 1 and p[0].op == "i": out.append(p[0].a[0])
                else: return None
            b = self.changed_at(v.a[0], base)
            return None if b is None else out + b
        if v.op == "ite":
            a, b = self.changed_at(v.a[1], base), self.changed_at(v.a[2], base)
            return None if a is None or b is None else a + b
        return None

    def dimension(self, vec):
        """(d, condition) : the dimension D's iteration works on"""
        D, k = vec["D"], vec["key"]
        ds = []
        for v in [D.next.get(k)] + [self.ev.load(b, k) for b in D.brkst]:
            if v is None: continue
            c = self.changed_at(v, vec["it"])
            if c is None: return None
            for d in c:
                d = self.canon(d)
                if d not in ds: ds.append(d)
        return ds[0] if len(ds) == 1 else None

    def domain(self, vec):
        """('all', rank) | ('axes', R) | None for the dimensions D visits, with 'desc'/'asc' order"""
        D = vec["D"]
        d = self.dimension(vec)
        if d is None or D.trip is None: return None
        trip = self.canon(D.trip)
        c = D.ctr
        def order(x, n):
            if x is sub(add(n, num(-1)), c) and trip is n: return "desc"
            if x is c and trip is n: return "asc"
            return None
        n = self.length(self.canon(vec["it"]))
        if d.op == "sel":
            R, j = d.a[0], d.a[1]
            m = raw("size", R)
            m2 = self.canon(m)
            o = order(j, m) or order(j, m2)
            if o: return ("axes", R, o)
            if any(isnum(sub(trip, x)) for x in (m, m2)) and contains(j, lambda x: x is c): return ("part", d, trip, "all")
            o = order(j, trip)
            return ("axes", R, o) if o else None
        if d.op == "ite":
            # container chosen by a condition: (empty ? filled-in axes : given axes)[j]
            a, b = d.a[1], d.a[2]
            if a.op == "sel" and b.op == "sel" and a.a[1] is b.a[1]:
                R = ite(d.a[0], a.a[0], b.a[0])
                ns = [raw("size", R), self.canon(raw("size", R)), ite(d.a[0], self.canon(raw("size", a.a[0])), self.canon(raw("size", b.a[0])))]
                o = next((o for o in (order(a.a[1], n) for n in ns) if o), None)
                if not o and any(isnum(sub(trip, x)) for x in ns) and contains(a.a[1], lambda x: x is c): return ("part", d, trip, "all")
                o = o or order(a.a[1], trip)
                return ("axes", ite(d.a[0], a.a[0], b.a[0]), o) if o else None
            return None
        if n is not None:
            o = order(d, n)
            if o: return ("all", n, o)
        o = order(d, trip)
        if o and trip.op == "rank": return ("all", trip, o)
        if o: return ("range", trip, o)
        if contains(d, lambda x: x is c) : return ("part", d, trip)
        return None


def flat_cases(ts, limit=64):
    """case split on the conditions of conditionals and min/max in the terms: list of (assumptions, terms)"""
    def find(t):
        for x in subterms(t):
            if x.op == "ite" and not contains(x.a[0], lambda y: y.op in ("ite", "min", "max")): return x.a[0]
            if x.op in ("min", "max") and len(x.a) == 2: return lt(x.a[0], x.a[1], True)
        return None
    work, out = [((), list(ts))], []
    while work:
        pc, tt = work.pop()
        c = None
        for t in tt:
            c = find(t)
            if c is not None: break
        if c is None or len(work) + len(out) > limit:
            out.append((pc, tt)); continue
        for val in (True, False):
            def f(x):
                if x.op == "ite" and x.a[0] is c: return walkr(x.a[1] if val else x.a[2])
                if x.op == "ite" and x.a[0] is lnot(c): return walkr(x.a[2] if val else x.a[1])
                if x.op in ("min", "max") and len(x.a) == 2 and lt(x.a[0], x.a[1], True) is c:
                    return walkr(x.a[0] if (x.op == "min") == val else x.a[1])
                return None
            def walkr(x): return subst(x, f)
            work.append((pc + (c if val else lnot(c),), [walkr(t) for t in tt]))
    return out


def linfacts(pcs):
    """(equalities t=0, inequalities t<=0) from conditions over integers"""
    eqs, les = [], []
    for c in pcs:
        if c.op == "and":
            a, b = linfacts(c.a); eqs += a; les += b
        elif c.op == "eq0": eqs.append(c.a[0])
        elif c.op == "lt0": les.append(sub(ONE, c.a[0]))           # 0 < x
        elif c.op == "not" and c.a[0].op == "lt0": les.append(c.a[0].a[0])
    return eqs, les


def infeasible(eqs, les):
    for i, a in enumerate(les):
        if isnum(a) and a.a[0] > 0: return True
        for b in les[i + 1:]:
            s = add(a, b)
            if isnum(s) and s.a[0] > 0: return True
        for q in eqs:
            for s in (add(a, q), sub(a, q)):
                if isnum(s) and s.a[0] > 0: return True
    for q in eqs:
        if isnum(q) and q.a[0] != 0: return True
    return False


def equalities(eqs, les):
    out = list(eqs)
    for i, a in enumerate(les):
        for b in les[i + 1:]:
            if add(a, b) is ZERO: out.append(a)
    return out


def solve(t, eqs):
    """t rewritten with each equality solved for one of its atoms (unit coefficient)"""
    for q in eqs:
        for m, c in pdict(q).items():
            if len(m) == 1 and abs(c) == 1:
                at = m[0]
                if contains(sub(q, scale(at, c)), lambda x: x is at): continue
                rest = scale(sub(q, scale(at, c)), -c)
                t = replace(t, at, rest)
                break
    return t


KNOWN = ("num", "poly", "sel", "dims", "bdims", "rank", "ctr", "iter", "imod", "sym", "size", "inv")


class Kernel(Odo):
    """obligations of one kernel; report(name, ok, where, msg) is called for each"""

    def __init__(self, ev, F, report, same_shape=False):
        super().__init__(ev, F)
        self.report, self.same_shape = report, same_shape
        self.done = {}
        self.vecs = {}        # id of vector term -> summary dict

    def known(self, t):
        return all(x.op in KNOWN or x.op in ("i", "f", "call") and nm(x).startswith("bland::") for x in subterms(t))

    def at(self, v, d):
        return self.canon(self.ev.rec_get(self.canon(v), (raw("i", d),)))

    # -------------------------------------------- one step of an index vector
    def steps(self, vec):
        """yield (kind, conditions, state) of one iteration of the dimension loop"""
        D = vec["D"]
        n = len(D.base)
        for b in D.brkst: yield "advance", [self.canon(c) for c in b.pc[n:]], b
        if D.nextst is not None: yield "carry", [self.canon(c) for c in D.nextst.pc[n:]], D.nextst

    def check_vector(self, t, where):
        if t.id in self.vecs: return self.vecs[t.id]
        name = t.a[2] if t.op == "iter" else "index"
        vec = self.vector(t)
        res = None
        self.vecs[t.id] = None
        if vec is None:
            self.report("%s: index vector" % name, None, where, "the walk over positions is not in a recognised form")
        elif vec["kind"] == "const":
            self.report("%s: index vector" % name, None, where, "the position is constant")
            res = vec
        else:
            res = self.check_odo(vec, name, where)
        self.vecs[t.id] = res
        return res

    def isextent(self, e, d):
        return e.op == "sel" and e.a[0].op == "dims" and e.a[0].a[0] == "shape" and e.a[1] is d

    def check_odo(self, vec, name, where):
        D, it = vec["D"], vec["it"]
        w = "line %s" % D.line
        dom = self.domain(vec)
        d = self.dimension(vec)
        if d is None or not vec["sound"]:
            self.report("%s: dimension" % name, None, w, "dimension stepped over is not recognised"); return None
        itd = self.at(it, d)
        ext = atend = None
        okc = None
        for kind, pc, st in self.steps(vec):
            v = self.at(self.ev.load(st, vec["key"]), d)
            if kind == "advance":
                adv = v
                vec["adv"] = adv
                # the stop test compares the advanced position with an extent
                for c in pc:
                    p = None
                    if c.op == "eq0":
                        # goes on only when the advanced position EQUALS an extent
                        for e in (add(c.a[0], adv), sub(adv, c.a[0])):
                            if self.isextent(e, d): atend = e
                        continue
                    if c.op == "not" and c.a[0].op == "eq0": p, strict = c.a[0].a[0], False
                    elif c.op == "lt0": p, strict = c.a[0], True
                    else: continue
                    if not contains(p, lambda x: x is itd): continue
                    for q in ((p,) if strict else (p, neg(p))):
                        e = add(q, adv)
                        if not contains(e, lambda x: x is itd): ext = e; break
                    else:
                        # cancels only in part: compared with something other than an extent
                        e = add(p, adv); ext = ext or e
        if ext is None and atend is not None:
            self.report("%s: extent" % name, False, w, "the walk goes on along a dimension only when the position has reached %s" % show(atend)); return None
        if ext is None:
            self.report("%s: extent" % name, None, w, "no comparison of the advanced position with an extent"); return None
        Z = None
        if ext.op == "sel" and ext.a[0].op == "dims" and ext.a[0].a[0] == "shape" and ext.a[1] is d: Z = ext.a[0].a[1]
        if Z is None:
            self.report("%s: extent" % name, False if self.known(ext) else None, w,
                        "the position along a dimension runs to %s, not to that dimension's extent" % show(ext)); return None
        self.report("%s: extent" % name, True, w, "")
        vec["Z"], vec["d"], vec["itd"], vec["dom"] = Z, d, itd, dom
        # carry resets, other paths leave the position alone
        okr = True
        for kind, pc, st in self.steps(vec):
            if kind != "carry": continue
            v = self.at(self.ev.load(st, vec["key"]), d)
            if v.op == "ite" and v.a[1] is itd: vec["skip"] = [v.a[0]]
            elif v.op == "ite" and v.a[2] is itd: vec["skip"] = [lnot(v.a[0])]
            for cpc, (x, *ppc) in flat_cases([v] + list(pc)):
                if x is ZERO: continue
                if x is itd and "skip" in vec: continue
                eqs, les = linfacts(ppc + list(cpc))
                if infeasible(eqs, les): continue
                if solve(x, equalities(eqs, les)) is ZERO: continue
                okr = False if self.known(x) else (okr and None)
        self.report("%s: carry resets the position" % name, okr, w, "after the last position of a dimension the index becomes %s instead of 0" % show(x))
        u = sub(vec["adv"], itd)
        vec["u"] = u
        if dom is None:
            self.report("%s: dimensions visited" % name, None, w, "")
        elif dom[0] == "part":
            self.report("%s: dimensions visited" % name, False if len(dom) == 4 or self.known(dom[1]) and self.known(dom[2]) else None, w,
                        "the dimension loop visits %s for %s steps, not every dimension" % (show(dom[1]), show(dom[2])))
        else:
            full = dom[0] == "axes" or dom[1] is self.rank(Z) or self.same_shape and dom[1].op == "rank"
            self.report("%s: dimensions visited" % name, True if full else (False if self.known(dom[1]) else None), w,
                        "the dimension loop runs over %s dimensions instead of all of %s's" % (show(dom[1]), show(Z)))
        return vec

    # -------------------------------------------- accesses
    def stride_of(self, X, Z, d):
        own = raw("sel", raw("dims", "strides", X), d)
        b = raw("sel", raw("bdims", "strides", self.dims("shape", X), raw("dims", "strides", X), self.dims("shape", Z)), d)
        return own, b

    def ident(self, t, X, Z):
        """identities valid in products with X's strides"""
        def f(x):
            if x.op == "bdims" and x.a[0] == "shape" and x.a[1] is self.dims("shape", X) and x.a[2] is self.dims("shape", Z):
                return self.dims("shape", Z)
            if self.same_shape and x.op == "dims" and x.a[0] == "shape": return self.dims("shape", Z)
            return None
        return subst(t, f)

    def direct(self, X, E, where, name):
        """position recomputed by summing over the dimensions; returns the index vector"""
        L = self.loops.get(E.a[0])
        if L is None: return None
        it = next((v for k, v in L.iter.items() if v.op == "iter" and v.a[1] == E.a[1]), None)
        if it is None or L.trip is None: return None
        trip = self.canon(L.trip)
        step = self.canon(sub(E.a[3], it))
        c = L.ctr
        nd = None
        got_off = got_str = False
        bad = unk = None
        for m, co in pdict(step).items():
            if co != 1: bad = "coefficient %s" % co
            ats = list(m)
            dm = [x for x in ats if x.op == "sel" and x.a[0].op in ("dims", "bdims")]
            if len(ats) == 1 and dm:
                y = dm[0]
                if y.a[0].op == "dims" and y.a[0].a[0] == "offsets" and y.a[0].a[1] is X and y.a[1] is c: got_off = True
                else: bad = "adds %s" % show(y)
            elif len(ats) == 2 and len(dm) == 1:
                y = dm[0]; o = ats[0] if ats[1] is y else ats[1]
                if y.a[0].op == "dims" and y.a[0].a[0] == "strides" and y.a[0].a[1] is X and y.a[1] is c: got_str = True
                else: bad = "multiplies by %s" % show(y)
                if o.op == "imod":
                    z = o.a[1]
                    if not (z.op == "sel" and z.a[0].op == "dims" and z.a[0].a[0] == "shape" and z.a[0].a[1] is self.rep(X) and z.a[1] is c):
                        bad = "wraps at %s" % show(z)
                    o = o.a[0]
                if o.op == "sel" and o.a[1] is c: nd = o.a[0]
                elif o.op == "sel": bad = "uses position %s" % show(o)
                else: unk = show(o)
            elif not ats: bad = "adds %s" % co
            else: unk = show(pmake({m: co}))
        if isnum(E.a[2]) and E.a[2] is not ZERO: bad = bad or "starts at " + show(E.a[2])
        elif E.a[2] is not ZERO: unk = unk or "starts at " + show(E.a[2])
        if trip is not self.rank(X):
            if trip.op == "rank" or self.known(trip): 
                bad = bad or "sums over %s dimensions" % show(trip)
            else: unk = show(trip)
        if not got_off and not unk: bad = bad or "leaves out the array's offsets"
        if not got_str and not unk: bad = bad or "leaves out the array's strides"
        self.report(name + ": address", False if bad else (None if unk else True), where,
                    "the element address of %s %s" % (show(X), bad or unk))
        return nd

    def incremental(self, X, E, where, name):
        its = [m[0] for m, co in pdict(E).items() if len(m) == 1 and co == 1 and m[0].op == "iter"]
        lin = None
        for x in its:
            M = self.loops.get(x.a[0]); k = self.key(M, x) if M else None
            if k is not None and M.next.get(k) is not None and M.next[k].op == "lout": lin = (x, M, k)
        if lin is None: return None
        x, M, k = lin
        extra = sub(E, x)
        D = self.loops.get(M.next[k].a[0])
        if D is None or k not in D.iter: return None
        # the index vector stepped in the same dimension loop
        if (x, X) in self.done:
            v = self.done[(x, X)]
            if v is not None: v.setdefault("extras", []).append((X, extra, where))
            return v
        self.done[(x, X)] = vec = None
        for kk, v in D.iter.items():
            src = D.init.get(kk)
            if v.op == "iter" and src is not None and src.op == "iter" and kk != k and any(
                    self.changed_at(self.ev.load(b, kk), v) for b in D.brkst):
                vec = self.check_vector(src, where)
                if vec is not None: break
        init = M.init[k]
        a0 = init
        narrow = False
        while a0.op == "cast":
            narrow = narrow or a0.a[0] in ("i32", "u32", "i16", "u16", "i8"); a0 = a0.a[1]
        exp = a0.op == "call" and a0.a[0] == "sum_of" and self.canon(a0.a[1]) is raw("dims", "offsets", X) and a0.a[2] is ZERO
        if narrow and exp:
            self.report(name + ": starting position", False, where, "the starting position of %s is summed in 32 bits" % show(X))
        elif exp: self.report(name + ": starting position", True, where, "")
        else:
            kn = isnum(a0) or a0.op == "call" and a0.a[0] == "sum_of" and self.canon(a0.a[1]).op in ("dims", "bdims")
            self.report(name + ": starting position", False if kn else None, where,
                        "the walk over %s starts at %s, not at the sum of its offsets" % (show(X), show(a0)))
        if vec is None or vec["kind"] != "odo": return None
        Z, d, itd = vec["Z"], vec["d"], vec["itd"]
        own, bst = self.stride_of(X, Z, d)
        options = [own] if X is Z or self.same_shape else [bst]
        itl = D.iter[k]
        for kind, pc, st in self.steps(vec):
            dl = self.canon(sub(self.ev.load(st, k), itl))
            dn = self.canon(sub(self.at(self.ev.load(st, vec["key"]), d), itd))
            first = replace
            verdict, why = False, ""
            for S in options:
                good = True
                for cpc, (l, n, *ppc) in flat_cases([dl, dn] + list(pc)):
                    g = [self.ident(c, X, Z) for c in ppc + list(cpc)]
                    def at0(t):
                        # on the first dimension the position is the one the loop was entered with
                        return self.canon(replace(replace(t, D.iter[vec["key"]], vec["term"]), D.ctr, ZERO))
                    diff = self.ident(sub(l, mul(n, S)), X, Z)
                    if any(c.op == "eq0" and c.a[0] in (D.ctr, neg(D.ctr)) for c in g):
                        g = [at0(c) for c in g]; diff = at0(diff)
                    eqs, les = linfacts(g)
                    inr = self.ident(add(sub(itd, raw("sel", self.dims("shape", Z), d)), ONE), X, Z)   # positions stay inside the extent
                    les += [inr, at0(inr)]
                    if infeasible(eqs, les): continue
                    diff = solve(diff, equalities(eqs, les))
                    if diff is not ZERO:
                        good = False
                        why = "on %s the position in %s is off by %s" % (kind, show(X), show(diff, 9))
                        if not self.known(diff): good = None
                        break
                if good: verdict = True; break
                if good is None: verdict = None
            self.report(name + ": step on %s" % kind, verdict, "line %s" % D.line, why)
        vec.setdefault("extras", []).append((X, extra, where))
        self.done[(x, X)] = vec
        return vec

    # -------------------------------------------- whole walk: trip count, coverage, pairing
    def check_walk(self, vec, where):
        """the walk starts at position 0, makes as many steps as the array has elements, and the accesses of one step agree"""
        M, D, Z = vec["M"], vec["D"], vec["Z"]
        name = vec["term"].a[2]
        init = self.canon(vec["init"])
        self.report("%s: starts at the first position" % name,
                    True if init.op == "filled" and init.a[0] is ZERO else (False if init.op in ("filled", "vec") else None), where,
                    "the walk starts at %s" % show(init))
        def first(t): return self.canon(replace(replace(t, vec["it"], vec["term"]), D.ctr, ZERO))
        numel = lambda X: raw("call", "bland::ndarray::numel", X)
        u = first(vec["u"])
        ucs = flat_cases([u])
        trip = self.canon(M.trip) if M.trip is not None else None
        if trip is not None:
            nZ = [numel(Z)]
            if trip.op == "call" and trip.a[0] == "bland::ndarray::numel" or isnum(trip) or trip.op == "poly" and self.known(trip):
                good = trip in nZ or self.same_shape and trip.op == "call"
                if u is not ONE: good = False
                self.report("%s: number of steps" % name, good, where, "the walk makes %s steps of %s over %s" % (show(trip), show(u), show(Z)))
            else: self.report("%s: number of steps" % name, None, where, show(trip))
        else:
            ok = None
            c = self.canon(M.cond) if M.cond is not None else TRUE
            if c.op == "lt0":
                rem = c.a[0]
                n = sub(numel(Z), rem)
                if n.op == "iter" and n.a[0] == M.id:
                    k = self.key(M, n)
                    if k is not None and M.next.get(k) is not None and M.init[k] is ZERO:
                        ok = first(self.canon(sub(M.next[k], n))) is u
            self.report("%s: number of steps" % name, ok, where, "the element count advances differently from the position")
        # coverage within one step: positions 0..u-1 along the last dimension
        last = first(vec["d"])
        groups = {}
        for e, X, E in self.accesses():
            if not e.loops or M not in e.loops: continue
            E = self.canon(E)
            base = [m[0] for m, co in pdict(E).items() if len(m) == 1 and co == 1 and m[0].op == "iter" and m[0].a[0] == M.id]
            if len(base) != 1: continue
            ex = sub(E, base[0])
            own, bst = self.stride_of(X, Z, last)
            S = own if X is Z or self.same_shape else bst
            j = None
            if ex is ZERO: j = ZERO
            else:
                for m, co in pdict(ex).items():
                    if S in m and len(pdict(ex)) == 1:
                        j = pmake({tuple(x for x in m if x is not S): co})
            if j is None:
                kn = self.known(ex)
                self.report("%s: offset within a step of %s" % (name, show(X)), False if kn else None, e.where(),
                            "within one step %s is touched at %s beyond its position" % (show(X), show(ex)))
                continue
            groups.setdefault((e.kind, X), []).append((j, e))
        writes = {X: g for (k, X), g in groups.items() if k == "write"}
        for (k, X), g in sorted(groups.items(), key=lambda x: (x[0][0], show(x[0][1]))):
            bad = None
            for cpc, (uu,) in ucs:
                js, loops = set(), []
                for j, e in g:
                    conds = [self.canon(c) for c in e.pc]
                    if any(lnot(c) in conds for c in cpc): continue
                    if isnum(j): js.add(int(j.a[0]))
                    elif j.op == "ctr":
                        L = self.loops.get(j.a[0]); t = self.canon(L.trip) if L is not None and L.trip is not None else None
                        loops.append(simp(t, cpc) if t is not None else None)
                    else: loops.append(None)
                if isnum(uu):
                    n = int(uu.a[0])
                    if loops:
                        if loops != [uu]: bad = bad or (None if None in loops else "elements up to %s of a step of %s are touched" % (show(loops[0]), n))
                    elif js != set(range(n)): bad = "elements %s of a step of %d are touched" % (sorted(js), n)
                else:
                    if len(loops) == 1 and loops[0] is not None and not js:
                        if simp(loops[0], cpc) is not uu:
                            bad = "elements up to %s of a step of %s are touched" % (show(loops[0]), show(uu))
                    else: bad = bad or None; bad = bad if bad else ("?" if not js or loops else "elements %s of a step of %s are touched" % (sorted(js), show(uu)))
            self.report("%s: elements touched per step, %s %s" % (name, k, show(X)), None if bad == "?" else not bad, where, bad or "")
        # pairing: what is written at j comes from operands at j
        for X, g in writes.items():
            for j, e in g:
                for x in subterms(self.canon(e.val)):
                    if x.op != "sel" and x.op != "deref": continue
                    y, p = (x.a[0], x.a[1]) if x.op == "sel" else (x, None)
                    if p is None or not (y.op == "deref" and nm(y.a[0]).endswith("::data_ptr")): continue
                    Y = self.canon(self.arr(y.a[0].a[1]))
                    js = [jj for jj, ee in groups.get(("read", Y), []) if self.canon(ee.loc[1][0].a[0]) is p]
                    self.report("%s: operand %s paired with %s" % (name, show(Y), show(X)), None if not js else js[0] is j, e.where(),
                                "element %s of %s is computed from element %s of %s" % (show(j), show(X), show(js[0]) if js else "?", show(Y)))


def simp(t, pcs):
    """min/max in t decided by the assumptions"""
    for p, (x,) in flat_cases([t]):
        if all(q in pcs for q in p): return x
    return t


class Reduction(Kernel):
    """an output element per position of `out`, each reduced from the elements of `a` that share its non-reduced position"""

    def axes_of(self, t):
        """canonical value of the list of reduced axes"""
        return self.canon(t)

    def run(self, where):
        acc = []
        for e, X, E in self.accesses():
            E = self.canon(E)
            n = "%s %s" % (e.kind, show(X))
            nd = None
            if E.op == "lout": nd = self.direct(X, E, e.where(), n)
            if nd is None:
                r = self.incremental(X, E, e.where(), n) if E.op != "lout" else None
                if r is not None:
                    acc.append((e, X, r["term"], r)); continue
                self.report(n + ": address", None, e.where(), "addressing not in a recognised form: " + show(E)); continue
            acc.append((e, X, nd, None))
        done = {}
        for e, X, nd, r in acc:
            if (X, nd) in done: continue
            done[(X, nd)] = 1
            nd = self.canon(nd)
            n = "%s %s" % (e.kind, show(X))
            if r is not None:
                self.check_walk(r, where); continue
            self.position(n, e, X, nd, where)
        # every stored element: once per position of its array, unconditionally
        for e, X, nd, r in acc:
            if e.kind != "write": continue
            vec = self.vecs.get(self.canon(nd).id)
            if not vec or vec.get("kind") != "odo": continue
            n = "write %s" % show(X)
            self.report(n + ": once per output position", True if e.loops and e.loops[-1] is vec["M"] else False, e.where(),
                        "the result is not stored once per step of the output walk")

    def numel(self, X): return raw("call", "bland::ndarray::numel", X)

    def original(self, nd):
        """the loop-head term of a vector the canonicaliser may have rebuilt"""
        return nd

    def position(self, n, e, X, nd, where):
        vec = self.check_vector(nd, e.where())
        if vec is None: return
        if vec["kind"] == "const":
            inl = [l for l in e.loops if l.trip is None or not isnum(self.canon(l.trip))]
            self.report(n + ": position advances", False if inl else None, e.where(), "the position in %s never changes" % show(X)); return
        if "Z" not in vec: return
        M, D, Z = vec["M"], vec["D"], vec["Z"]
        w = "line %s" % D.line
        self.report(n + ": extents are its own", True if Z is self.rep(X) else False, w, "the position in %s wraps at %s's extents" % (show(X), show(Z)))
        u = vec["u"]
        self.report(n + ": moves one position at a time", u is ONE, w, "the position in %s advances by %s" % (show(X), show(u)))
        dom = vec["dom"]
        if dom is None:
            self.report(n + ": dimensions", None, w, ""); return
        trip = self.canon(M.trip) if M.trip is not None else None
        skip = vec.get("skip")
        if dom[0] == "all" and skip is None:
            self.report(n + ": walk", True if trip is self.numel(X) or self.linked(trip, X) else (False if trip is not None and self.known(trip) else None),
                        e.where(), "the walk over %s makes %s steps" % (show(X), show(trip)))
            self.order.setdefault(M.id, []).append((dom[2], n, w))
            self.zero(n, vec, where)
        elif dom[0] == "all":
            # the non-reduced dimensions: all except those in the list of reduced axes
            self.order.setdefault(M.id, []).append((dom[2], n, w))
            R = self.notin(vec, skip)
            self.report(n + ": dimensions kept", None if R is None else R[0], w, "a dimension is skipped when %s" % show(skip[0]) if skip else "")
            if R is not None: self.kept.append((R[1], vec, n))
            self.zero(n, vec, where)
        elif dom[0] == "axes":
            R = dom[1]
            self.axlists.append((R, X, n, w))
            init = self.canon(vec["init"])
            outer = self.check_vector(init, where) if init.op == "iter" else None
            if outer is None or outer.get("kind") != "odo" or "Z" not in outer:
                self.report(n + ": reduction starts at the kept position", False if init.op == "filled" else None, w, "")
            else:
                self.report(n + ": reduction starts at the kept position", outer["Z"] is self.rep(X), w, "")
                osk = outer.get("skip")
                RR = self.notin(outer, osk) if osk is not None else None
                if osk is None:
                    self.report(n + ": reduced dimensions are not stepped by the output walk", False, "line %s" % outer["D"].line,
                                "the kept position moves along reduced dimensions as well")
                else:
                    self.report(n + ": kept dimensions", None if RR is None else RR[0], "line %s" % outer["D"].line,
                                "a dimension is skipped when %s" % show(osk[0]))
                    if RR is not None and RR[1] is not None:
                        self.report(n + ": kept and reduced dimensions complement each other", True if RR[1] is R else (False if self.known(R) else None), w,
                                    "kept dimensions exclude %s, reduced ones are %s" % (show(RR[1]), show(R)))
                self.zero(n, outer, where)
                if outer.get("dom"): self.order.setdefault(outer["M"].id, []).append((outer["dom"][2], n, w))
                otrip = self.canon(outer["M"].trip) if outer["M"].trip is not None else None
                self.outer_trips.append((otrip, outer["M"]))
            # as many steps as the product of the reduced extents
            ok = None
            whole, part = trip, False
            if trip is not None and trip.op == "poly":
                # some multiple of the product plus some number
                ms = [m for m in pdict(trip) if m]
                if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0].op == "lout": trip, part = ms[0][0], True
            if trip is not None and trip.op == "lout":
                L = self.loops.get(trip.a[0])
                it = next((v for v in L.iter.values() if v.op == "iter" and v.a[1] == trip.a[1]), None) if L is not None else None
                nxt = self.canon(trip.a[3])
                if it is not None and L.trip is not None:
                    ext = raw("sel", self.dims("shape", X), vec_axis(R, L.ctr))
                    q = nxt
                    good = None
                    for m, co in pdict(q).items():
                        if len(pdict(q)) == 1 and co == 1 and it in m:
                            rest = pmake({tuple(x for x in m if x is not it): co})
                            good = same_axis(rest, self.rep(X), R, L.ctr)
                    ok = good if good is not None else (False if self.known(q) else None)
                    if ok and self.canon(L.trip) is not self.canon(raw("size", R)) and not same_size(self.canon(L.trip), R, self): ok = None
                    if self.canon(trip.a[2]) is not ONE: ok = False
            elif trip is not None and (trip.op == "call" or isnum(trip)): ok = False
            if part and ok: ok = False
            self.report(n + ": elements reduced", ok, "line %s" % M.line, "the reduction over %s makes %s steps" % (show(X), show(whole)))
        else:
            self.report(n + ": dimensions", None, w, "")

    def linked(self, trip, X):
        """another output array of the same reduction decides the number of steps"""
        return trip is not None and trip.op == "call" and trip.a[0] == "bland::ndarray::numel" and trip.a[1] in self.outs

    def zero(self, n, vec, where):
        init = self.canon(vec["init"])
        self.report(n + ": starts at the first position", True if init.op == "filled" and init.a[0] is ZERO else (False if init.op in ("filled", "vec") else None),
                    where, "the walk starts at %s" % show(init))

    def notin(self, vec, skip):
        """(ok, R) when the dimension is skipped exactly if it is in the list R"""
        if not skip or len(skip) != 1: return None
        c = skip[0]
        pos = True
        if c.op == "not": c, pos = c.a[0], False
        if c.op == "eq0":
            # find(R.begin, R.end, d) == end
            fs = [x for x in subterms(c) if x.op == "call" and x.a[0].startswith("std::find")]
            if len(fs) == 1:
                f = fs[0]
                its = [x for x in f.a[1:] if x.op == "itr"]
                end = [x for x in subterms(c.a[0]) if x.op == "itr"]
                good = len(its) >= 2 and f.a[-1] is vec["d"] and its[0].a[1] is ZERO
                inlist = not pos
                # skipped iff found, i.e. iff not (find == end)
                R = None
                root = its[0].a[0] if its else None
                v = self.rootval(root, vec)
                return (good and inlist, v)
        return None

    def rootval(self, root, vec):
        if root is None: return None
        if root.op == "addr" or root.op == "ref":
            try: return self.canon(self.ev.load(vec["D"].head, root.a[0] if isinstance(root.a[0], tuple) else (root.a[0], tuple(root.a[1:]))))
            except Exception: return None
        return None


def vec_axis(R, c): return raw("sel", R, c)


def same_axis(t, X, R, c):
    """t is the extent of X along the c-th reduced axis"""
    if t.op == "sel" and t.a[0].op == "dims":
        if t.a[0].a[0] != "shape" or t.a[0].a[1] is not X: return False
        d = t.a[1]
        if d.op == "sel": return d.a[0] is R and d.a[1] is c or None
        if d.op == "ite" and d.a[1].op == "sel" and d.a[2].op == "sel":
            return ite(d.a[0], d.a[1].a[0], d.a[2].a[0]) is R and d.a[1].a[1] is c and d.a[2].a[1] is c or None
        return False
    return None


def same_size(t, R, K):
    if t.op == "ite" and R.op == "ite":
        return t.a[0] is R.a[0] and t.a[1] is K.canon(raw("size", R.a[1])) and t.a[2] is K.canon(raw("size", R.a[2]))
    return False
