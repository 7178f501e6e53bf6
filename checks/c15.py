import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.rules import *
from vlib.ev import F as F_, I

RULE = ("the scan visits every cell of the plane; a cell starts a component only if not visited and its SNR (its own drift's noise) exceeds the threshold; the cells queued are exactly those at an "
        "offset within the L1 distance that lie inside the plane; a cell joins once, above half the threshold; the attributes kept are those of one cell, replaced together when its SNR is higher; "
        "flag counts are read at that cell, each flag its own; a local maximum is strictly above every other cell within the distance; width and centre come from one pair of edges")
QC, QL = "bliss::find_components_above_threshold_cpu", "bliss::find_local_maxima_above_threshold_cpu"
FLAGS = {1: "filter_rolloff", 2: "low_spectral_kurtosis", 4: "high_spectral_kurtosis"}


def strip(t): return strip_all_casts(t)


def field(ev, v, *path):
    s = State()
    loc = (raw("mem", sym("OBJ")), ())
    ev.store(s, loc, v)
    return strip(ev.load(s, (loc[0], tuple(F_(p) for p in path))))


def isstride(y):
    return y.op == "sel" and y.a[0].op == "call" and y.a[0].a[0].split("<")[0] == "bland::ndarray::strides" and isnum(y.a[1])


def shapes(t):
    """extents of an array made with the shape of another are the other's"""
    def f(x):
        if x.op == "call" and x.a[0].split("<")[0] in ("bland::ndarray::shape",) and x.a[1].op == "new" and len(x.a[1].a) > 1:
            s = x.a[1].a[1]
            if s.op == "call" and s.a[0].split("<")[0] == "bland::ndarray::shape": return subst(s, f)
        if x.op == "call" and x.a[0].split("<")[0] == "bland::ndarray::size" and len(x.a) == 3: return raw("sel", subst(raw("call", "bland::ndarray::shape", x.a[1]), f), x.a[2])
        return None
    return subst(t, f)


def loads(t):
    """element reads through data pointers as LD(array, row, column)"""
    def f(x):
        if x.op == "sel":
            r = address(subst(x.a[1], f))
            if r is not None and (contains(x.a[0], lambda y: y.op == "call" and "data_ptr" in y.a[0]) or x.a[0].op in ("iter", "lout", "rec") and "data_ptr" in show(x.a[0], 4)):
                b = next((y.a[1] for y in subterms(x.a[0]) if y.op == "call" and "data_ptr" in y.a[0]), None)
                if b is not None and b is not r[0]: return raw("LD", raw("MIX", b, r[0]), r[1], r[2])
                return raw("LD", *r)
        return None
    return subst(t, f)


def address(idx):
    """(array, row, column) of an index row * strides[0] + column * strides[1]"""
    x, r, c = None, {}, {}
    for m, k in pdict(idx).items():
        if k == 0: continue
        st = [y for y in m if isstride(y)]
        if len(st) != 1 or x is not None and st[0].a[0].a[1] is not x or st[0].a[1] not in (num(0), num(1)): return None
        x = st[0].a[0].a[1]
        m2 = list(m); m2.remove(st[0])
        (r if st[0].a[1] is num(0) else c)[tuple(m2)] = k
    return (x, pmake(r), pmake(c)) if x is not None else None


class Search:
    def __init__(self, ctx, P, F, key):
        self.ctx, self.F, self.key, self.w = ctx, F, key, F.where()
        self.ev, self.v = go(ctx, P, F, inline=B, record_reads=True)
        p = [q["n"] for q in F.params]
        if len(p) < 6: raise AnalysisError("anchor changed: " + F.qn)
        self.spec, self.flags, self.floor, self.noise, self.thr, self.dist = (sym(x) for x in p[:6])
        self.dist = markint(self.dist) or self.dist
        sh = raw("call", "bland::ndarray::shape", self.spec)
        self.n0, self.n1 = raw("sel", sh, num(0)), raw("sel", sh, num(1))

    def ob(self, k, r, w, m=""): self.ctx.ob(self.key + ": " + k, r, w, m)

    def n(self, t): return absn(loads(shapes(strip(t))))

    def nz(self, row): return raw("fld", raw("sel", self.noise, row), "integration_adjusted_noise")

    def val(self, r, c): return raw("LD", self.spec, r, c)

    def snr(self, r, c): return div(sub(self.val(r, c), self.floor), self.nz(r))

    def pushes(self, name):
        return [e for e in self.ev.effects if e.kind == "call" and e.qn and e.qn.split("::")[-1] in name and e.loops]

    def conds(self, e):
        out = []
        for c in atoms(e.pc):
            if any(L.cond is not None and any(c is y for y in atoms([L.cond])) for L in e.loops) or loop_guard(c, e.loops): continue
            c = self.n(c)
            if contains(c, lambda y: y.op in ("LD", "iter", "ctr", "exists", "lout")): out.append(c)
        return out

    def scan(self, C, loops, w):
        """do the loops visit every cell with C as the position?"""
        r, c = C
        if len(loops) == 2 and {id(r), id(c)} == {id(L.ctr) for L in loops}:
            by = {id(L.ctr): L for L in loops}
            ok = [loopfull(by[id(x)], y) for x, y in ((r, self.n0), (c, self.n1))]
            self.ob("every cell is looked at", False if False in ok else True if ok == [True, True] else None, w, "rows and columns are not all gone through"); return
        if len(loops) != 1: self.ob("every cell is looked at", None, w, "scan not resolved"); return
        L = loops[0]
        it = next((k for k in L.iter if L.names[k].split(".")[-1] not in ("",) and any(contains(x, lambda y: y is L.iter[k]) for x in C) and L.next.get(k) is not None), None)
        full = loopfull(L, raw("call", "bland::ndarray::numel", self.spec))
        if it is None: self.ob("every cell is looked at", None, w); return
        i0 = [field(self.ev, L.init[it], f) for f in ("drift_index", "frequency_channel")]
        n0 = [self.n(field(self.ev, L.next[it], f)) for f in ("drift_index", "frequency_channel")]
        wraps = {}
        for x in n0:
            for g, _ in cases(x):
                for i, y in batoms(land(*g)).items() if g else ():
                    if y.op == "eq0" and y.a[0] in (sub(add(c, num(1)), self.n1), sub(self.n1, add(c, num(1)))) or y.op == "lt0" and y.a[0] is sub(add(c, num(2)), self.n1): wraps[i] = True
                    elif y.op == "lt0" and y.a[0] is sub(self.n1, add(c, num(1))): wraps[i] = False
        ok = True
        for x in n0:
            for g, _ in cases(x):
                for i, y in batoms(land(*g)).items() if g else ():
                    if i in wraps or y.op not in ("eq0", "lt0"): continue
                    for z in (add(sub(y.a[0], add(c, num(1))), num(0)), sub(y.a[0], neg(add(c, num(1)))), sub(neg(y.a[0]), c)):
                        # compared with another extent than that of the row
                        if z is self.n0 or neg(z) is self.n0 or isnum(z) or isnum(add(z, self.n1)) or isnum(sub(z, self.n1)): wraps[i] = True; ok = False
        for wrap, want in ((True, (add(r, num(1)), num(0))), (False, (r, add(c, num(1))))):
            for x, y in zip(n0, want):
                for g, v in cases(x):
                    try: sel = bval(land(*g), {i: p == wrap for i, p in wraps.items()}) if g else True
                    except KeyError: ok = None if ok else ok; continue
                    if sel and v is not y: ok = False if free2(v) or ok is False else None
        ok = False if full is False or i0 != [num(0), num(0)] else (ok if full is True or ok is False else None)
        self.ob("every cell is looked at", ok, w, "the scan goes from (r, c) to (%s, %s) for %s cells" % (show(n0[0], 5)[:60], show(n0[1], 5)[:60], show(L.trip, 3) if L.trip is not None else "?"))

    def neighbourhood(self, k, C, N, loops, e, segs=()):
        """N runs over C + offsets with |a| + |b| <= distance"""
        a, b = sub(N[1], C[1]), sub(N[0], C[0])
        d = self.dist
        by = {L.ctr: L for L in loops}
        r = None
        for x, y in ((a, b), (b, a)):
            ox = next((L for L in by.values() if contains(x, lambda t: t is L.ctr)), None)
            oy = next((L for L in by.values() if contains(y, lambda t: t is L.ctr) and L is not ox), None)
            if ox is None or oy is None or contains(x, lambda t: t is oy.ctr): continue
            rest = sub(d, absn(tabs(x)))
            okx = sub(x, ox.ctr) is neg(d) and trips(ox) is add(scale(d, 2), num(1))
            if contains(y, lambda t: t is ox.ctr):
                oky = same_range(sub(y, oy.ctr), trips(oy), rest)
                r = okx and oky
            else:
                sq = sub(y, oy.ctr) is neg(d) and trips(oy) is add(scale(d, 2), num(1))
                inside = any(c.op in ("lt0", "le0") and sub(c.a[0], add(rest, neg(tabs(y)), num(1))) is num(0) or c.op == "le0" and c.a[0] is sub(rest, tabs(y)) for c in segs)
                r = okx and sq and inside
            if r is not None: break
        self.ob(k, r, e.where(), "offsets %s and %s over %s do not run over the cells within the L1 distance on all sides" % (show(a, 5)[:50], show(b, 5)[:50], ", ".join(show(trips(L), 5)[:50] for L in by.values())))

    def inplane(self, pcs, N, C):
        """True if the conditions say that N lies inside the plane (coordinates equal to those of C are inside)"""
        res = []
        for x, c, n in ((N[0], C[0], self.n0), (N[1], C[1], self.n1)):
            if x is c: res.append(True); continue
            d = sub(x, c)
            res.append(inb(pcs, x, n, lo=0 if nonneg(d) else None, hi=0 if nonneg(neg(d)) else None))
        return False if False in res else (None if None in res else True)

    def rficounts(self, v, C, w):
        m = v
        got = {}
        for x in subterms(m):
            if x.op == "pv" and len(x.a) == 2:
                p, val = x.a
                if isinstance(val, T) and strip(val).op == "call" and "scalarize" in strip(val).a[0]: got[show(p, 4) if isinstance(p, T) else str(p)] = strip(val)
        import re
        seen = {}
        for p, val in got.items():
            nums = re.findall(r"\d+", p)
            if not nums: continue
            b = int(nums[-1])
            seen[b] = val
        for b, nm in FLAGS.items():
            if b not in seen:
                self.ob("count of " + nm, None if not seen else False, w, "not taken from the integrated flags"); continue
            val = seen[b]
            src = val.a[1]
            self.ob("count of " + nm, src.a[1] == nm if src.op == "fld" else None, w, "taken from " + show(src, 3))
            at = val.a[2] if len(val.a) > 2 else None
            r, c = C
            at = self.n(at) if at is not None else None
            self.ob(f"count of {nm} at the cell", None if at is None or at.op != "vec" else (at.a[0] is r and at.a[1] is c) or (None if not free2(at) else False), w, "read at " + (show(at, 6)[:90] if at is not None else "?"))


def same_range(start, trip, rest):
    """start == -rest and trip == 2 rest + 1"""
    return start is neg(rest) and trip is add(scale(rest, 2), num(1))


def absn(t):
    """|x| and |-x| are one"""
    def f(x):
        if x.op != "abs": return None
        y = subst(x.a[0], f); z = neg(y)
        return tabs(y if y.id < z.id else z)
    return subst(t, f)


def trips(L):
    """number of rounds of a loop, breaks aside"""
    if L.trip is not None: return absn(strip(L.trip))
    for c in atoms([L.cond] if L.cond is not None else []):
        if c.op == "lt0" and pdict(c.a[0]).get(mono(L.ctr), 0) == -1: return absn(add(c.a[0], L.ctr))
    return num(-1)


def inside(S, x, N):
    """(side of the plane, polarity) of a condition on a coordinate"""
    if x.op != "lt0": return None
    for k, (t, n) in enumerate(zip(N, (S.n0, S.n1))):
        for s, w in (("lo", add(t, num(1))), ("hi", sub(n, t))):
            if x.a[0] is w: return ("in%d%s" % (k, s), True)
            if x.a[0] is sub(num(1), w): return ("in%d%s" % (k, s), False)
    return None


def free2(t):
    return not contains(t, lambda x: x.op in ("undef", "unk", "icall"))


def nonneg(d): return all(k >= 0 and all(v.op == "ctr" for v in m) for m, k in pdict(d).items())


def inb(pcs, x, n, lo=None, hi=None):
    for c in atoms(pcs):
        if c.op == "lt0":
            kl, kh = sub(c.a[0], add(x, num(1))), sub(c.a[0], sub(n, x))
            if isnum(kl): lo = max(lo, -kl.a[0]) if lo is not None else -kl.a[0]
            if isnum(kh): hi = max(hi, -kh.a[0]) if hi is not None else -kh.a[0]
    # 0 < x+1+k : x >= -k
    if lo is None or hi is None:
        rel = [c for c in atoms(pcs) if c.op in ("or", "not", "and") and mentions(c, x)]
        return None if rel else False
    return lo >= 0 and hi >= 0


def cases(t):
    if t.op in ("max", "min") and len(t.a) == 2 and sum(x.op == "iter" for x in t.a) == 1:
        it, y = (t.a[0], t.a[1]) if t.a[0].op == "iter" else (t.a[1], t.a[0])
        g = raw("lt0", sub(y, it) if t.op == "max" else sub(it, y))
        return [((g,), y), ((lnot(g),), it)]
    if t.op == "ite": return [((t.a[0],) + c, x) for c, x in cases(t.a[1])] + [((lnot(t.a[0]),) + c, x) for c, x in cases(t.a[2])]
    return [((), t)]


def edges(S, bw, ce, up, dn, w): pass


def has(S, conds, want):
    """is the condition 0 < want (strict) among conds?  True / False: a weaker or other one on the same quantity / None"""
    near = []
    for c in conds:
        if c.op == "lt0" and c.a[0] is want: return True
        if c.op == "le0" and c.a[0] is want: near.append(c)
        if c.op in ("lt0", "le0") and contains(c, lambda y: y.op == "LD"): near.append(c)
    return None if any(c.op in ("or", "not") and contains(c, lambda y: y.op == "LD") for c in conds) else False


def widths(S, h, C, w, edge):
    """binwidth and centre from one pair of edges"""
    bw, ce = S.n(field(S.ev, h, "binwidth")), S.n(field(S.ev, h, "index_center", "frequency_channel"))
    cd = S.n(field(S.ev, h, "index_center", "drift_index"))
    S.ob("centre at the drift of the maximum", True if cd is C[0] else (False if free2(cd) and not contains(cd, lambda y: y.op == "lout") else None), w, "is " + show(cd, 4)[:60])
    d = pdict(bw)
    ps = [pmake({m: 1}) for m, k in d.items() if k == 1 and m]
    ng = [pmake({m: 1}) for m, k in d.items() if k == -1 and m]
    if len(ps) == 1 and len(ng) == 1 and len(d) == 2 and ps[0].op == "lout" and ng[0].op == "lout":
        hi, lo = ps[0], ng[0]
        okc = ce is idiv(add(hi, lo), num(2)) or ce.op == "trunc" and ce.a[0] is scale(add(hi, lo), Fraction(1, 2))
        S.ob("centre between the edges", True if okc else (False if known(ce) and ce.op in ("idiv", "trunc", "poly", "lout", "iter", "num") else None), w, "centre %s for edges %s, %s" % (show(ce, 4)[:60], show(hi, 3)[:30], show(lo, 3)[:30]))
        return hi, lo
    off = [k for m, k in d.items() if not m]
    if edge and off and len(d) == 3 and len(ps) == len(ng) == 1 and ps[0].op == ng[0].op == "lout": S.ob("width between two edges", False, w, "off by %s from the distance of the edges" % off[0]); return ps[0], ng[0]
    S.ob("width between two edges", None, w, "width is " + show(bw, 5)[:80])
    return None


def components(ctx, P, F):
    S = Search(ctx, P, F, "components")
    fresh(S)
    q = S.pushes(("push", "emplace"))
    q = [e for e in q if "queue" in e.qn or "stack" in e.qn or "deque" in e.qn or "list" in e.qn]
    D = min((len(e.loops) for e in q), default=0)
    seeds = [e for e in q if len(e.loops) == D]
    nbs = [e for e in q if len(e.loops) > D]
    if len(seeds) != 1 or len(nbs) != 1: ctx.unknown("components: traversal", S.w, "%d seeds and %d extensions found" % (len(seeds), len(nbs))); return
    sd, nb = seeds[0], nbs[0]
    C = [S.n(field(S.ev, sd.args[-1], f)) for f in ("drift_index", "frequency_channel")]
    S.scan(C, sd.loops, sd.where())
    cs = S.conds(sd)
    S.ob("a component starts above the threshold", has(S, cs, sub(S.snr(*C), S.thr)), sd.where(), "starts if " + " and ".join(show(c, 5)[:70] for c in cs))
    vis = [c for c in cs if c.op == "eq0" and c.a[0].op == "LD" and c.a[0].a[1] is C[0] and c.a[0].a[2] is C[1] and c.a[0].a[0] is not S.spec]
    S.ob("a component starts at a cell not in another", True if vis else (False if all(free2(c) for c in cs) else None), sd.where(), "starts if " + " and ".join(show(c, 5)[:70] for c in cs))
    S.ob("every such cell starts a component", True if len(cs) == 2 else (False if len(cs) > 2 and vis else None), sd.where(), "only if " + " and ".join(show(c, 4)[:60] for c in cs))
    # the cell taken from the queue
    N = [S.n(field(S.ev, nb.args[-1], f)) for f in ("drift_index", "frequency_channel")]
    W = nb.loops[D]
    fronts = {y for x in N for y in subterms(x) if y.op == "fld" and y.a[0].op == "sel" and y.a[0].a[0].op == "iter"}
    idx = [next((y for y in fronts if y.a[1] == f), None) for f in ("drift_index", "frequency_channel")]
    if None in idx: ctx.unknown("components: traversal", nb.where(), "cell extended not resolved"); return
    cn = S.conds(nb)
    S.neighbourhood("extended to the cells within the distance", idx, N, nb.loops[D + 1:], nb, cn)
    S.ob("extended inside the plane only", S.inplane(cn, N, idx), nb.where(), "a cell is queued if " + " and ".join(show(c, 4)[:50] for c in cn))
    member = sub(S.snr(*idx), scale(S.thr, Fraction(1, 2)))
    odd = []
    for c in cn:
        k = inside(S, c, N)
        if c in cs or k is not None and k[1] or isvisit(S, c, idx) or isvisit(S, c, N) or c.op == "lt0" and c.a[0] is member: continue
        if not contains(c, lambda y: y.op in ("LD", "fld", "iter")): continue   # shape of the neighbourhood
        odd.append(c)
    S.ob("extended to every cell there", not odd if all(known(c) for c in odd) and not any(c.op in ("or", "ite", "not") for c in odd) else None, nb.where(), "only if " + " and ".join(show(c, 5)[:60] for c in odd))
    S.ob("extended from members only", has(S, cn, member), nb.where(), "extends if " + " and ".join(show(c, 4)[:50] for c in cn))
    # visited
    ws = [(e, address(S.n(e.loc[1][-1].a[0]))) for e in S.ev.effects if e.kind == "write" and len(e.loops) > D and e.loc[1] and e.loc[1][-1].op == "i"]
    mk = [e for e, a in ws if a is not None and a[1] is idx[0] and a[2] is idx[1]]
    S.ob("a cell taken is marked as visited", True if mk and all(mark(e.val) for e in mk) else (False if not ws or any(isnum(strip(e.val)) for e in mk) else None), mk[0].where() if mk else S.w)
    for e, a in ws:
        if a is None: S.ob("cells marked are those taken", False if not contains(e.loc[1][-1].a[0], lambda y: y.op in ("undef", "unk")) else None, e.where(), "address is not that of the array marked")
        else: S.ob("cells marked are those taken", (a[1] is idx[0] and a[2] is idx[1]) or (False if free2(a[1]) and free2(a[2]) else None), e.where(), "marks (%s, %s)" % (show(a[1], 5)[:50], show(a[2], 5)[:50]))
    for e in mk:
        c = S.conds(e)
        ok = any(x.op == "eq0" and x.a[0].op == "LD" and x.a[0].a[1] is idx[0] and x.a[0].a[2] is idx[1] for x in c)
        rest = [x for x in c if x not in cs and not isvisit(S, x, idx) and not (x.op == "lt0" and x.a[0] is member)]
        S.ob("every cell taken is marked", not rest if all(known(x) for x in rest) and not any(x.op in ("or", "ite", "not") for x in rest) else None, e.where(), "only if " + " and ".join(show(x, 5)[:60] for x in rest))
        S.ob("a cell is taken once", True if ok else (False if all(free2(x) for x in c) else None), e.where())
    loc = [e for e in S.pushes(("push_back", "emplace_back")) if len(e.loops) == D + 1 and "freq_drift_coord" in e.qn + show(e.term, 3) + str(e.ta) + str(getattr(e.fn, "cta", ""))]
    loc = loc or [e for e in S.pushes(("push_back",)) if len(e.loops) == D + 1]
    for e in loc:
        a = [S.n(field(S.ev, e.args[-1], f)) for f in ("drift_index", "frequency_channel")]
        S.ob("a member is recorded at its position", (a[0] is idx[0] and a[1] is idx[1]) or None, e.where())
        cl = S.conds(e)
        rest = [x for x in cl if x not in cs and not isvisit(S, x, idx) and not (x.op == "lt0" and x.a[0] is member)]
        S.ob("every member is recorded", not rest if all(known(x) for x in rest) and not any(x.op in ("or", "ite", "not") for x in rest) else None, e.where(), "only if " + " and ".join(show(x, 5)[:60] for x in rest))
        S.ob("members are above half the threshold", has(S, S.conds(e), member), e.where(), "member if " + " and ".join(show(c, 5)[:60] for c in S.conds(e)))
    # one component per start
    res = [e for e in S.pushes(("push_back", "emplace_back")) if len(e.loops) == D]
    S.ob("one component per start", len(res) == 1 and set(map(id_, S.conds(res[0]))) == set(map(id_, cs)) if res else None, res[0].where() if res else S.w, "a component that was found is left out")
    if len(res) != 1: return
    h = res[0].args[-1]
    while h.op == "new" and len(h.a) == 2: h = h.a[1]
    want = {"snr": S.snr(*idx), "max_integration": S.val(*idx), "desmeared_noise": S.nz(idx[0])}
    best, ref = {}, None
    for fl in ("snr", "max_integration", "desmeared_noise", "rfi_counts", "index_max"):
        v = strip(field(S.ev, h, fl))
        if v.op != "lout" or v.a[0] != W.id:
            S.ob("kept " + fl, False if v.op in ("undef", "num") else None, res[0].where(), "is " + show(v, 4)[:70]); continue
        if fl == "snr":
            i0 = strip(v.a[2])
            if isnum(i0) or i0.op == "limit": S.ob("the strongest starts below every member", i0.a[0] <= Fraction(1, 10**6) if isnum(i0) else i0.a[0] not in ("max", "infinity"), res[0].where(), "starts at " + show(i0, 3))
        nx = S.n(v.a[3])
        up = [(c, x) for c, x in cases(nx) if not (x.op == "iter" and x.a[0] == W.id)]
        keep = [(c, x) for c, x in cases(nx) if x.op == "iter" and x.a[0] == W.id]
        if not up: S.ob("kept " + fl, False, res[0].where(), "never set"); continue
        names = {}
        for c, x in up:
            for i, y in batoms(land(*c)).items():
                if y.op == "eq0" and y.a[0].op == "LD" and y.a[0].a[0] is not S.spec: names[i] = ("visited", False)
                elif y.op == "lt0" and y.a[0] is member: names[i] = ("member", True)
                elif y.op == "lt0" and neg(y.a[0]) is member: names[i] = ("member", False)
                elif y.op == "lt0" and neg(sub(y.a[0], S.snr(*idx))).op == "iter": names[i] = ("higher", True)
                elif y.op == "lt0" and sub(neg(y.a[0]), S.snr(*idx)).op == "poly" and neg(sub(neg(y.a[0]), S.snr(*idx))).op == "iter": names[i] = ("higher", False)
        tb = btable(lor(*[land(*c) for c, x in up]), names)
        got = {n for n, p in names.values()}
        r = None if tb is None else True
        for k, v in (tb or {}).items():
            k = dict(k)
            if not k.get("visited", False) and k.get("member", True) and k.get("higher", True): r = False if False in v else r
            elif v == {True}: r = False
            elif True in v: r = r and None
        S.ob(f"kept {fl} of every member", r, res[0].where(), "kept when " + " or ".join(show(land(*c), 5)[:80] for c, x in up))
        for c, x in up:
            cc = list(atoms(c))
            g = [y for y in cc if y.op == "lt0" and contains(y, lambda z: z.op == "iter" and z.a[0] == W.id and "snr" in str(z.a[2]).split(".")[-1])]
            okg = [y for y in g if sub(y.a[0], S.snr(*idx)).op in ("poly", "iter") and neg(sub(y.a[0], S.snr(*idx))).op == "iter"]
            S.ob(f"kept {fl} replaced by a higher SNR only", True if okg else (False if not any(y.op in ("or",) for y in cc) else None), res[0].where(), "replaced if " + " and ".join(show(y, 5)[:60] for y in cc[-2:]))
            if fl in want: S.ob("kept " + fl, True if x is want[fl] else (False if free2(x) else None), res[0].where(), "is " + show(x, 5)[:80])
            if fl == "index_max":
                p = [S.n(field(S.ev, x, f)) for f in ("drift_index", "frequency_channel")]
                S.ob("kept index_max", (p[0] is idx[0] and p[1] is idx[1]) or (False if free2(p[0]) and free2(p[1]) else None), res[0].where(), "is (%s, %s)" % (show(p[0], 4)[:40], show(p[1], 4)[:40]))
            if fl == "rfi_counts": S.rficounts(x, idx, res[0].where())
    # edges
    mx = [field(S.ev, h, "index_max", f) for f in ("drift_index", "frequency_channel")]
    mx = [S.n(x) for x in mx]
    ed = widths(S, h, mx, res[0].where(), True)
    if ed:
        for nm, x, sg in (("upper", ed[0], 1), ("lower", ed[1], -1)):
            S.ob(nm + " edge starts at the maximum", True if S.n(x.a[2]) is mx[1] else (False if free2(x.a[2]) and not contains(x.a[2], lambda y: y.op == "lout") else None), res[0].where(), "starts at " + show(x.a[2], 4)[:60])
            ups = [(c, y) for c, y in cases(S.n(x.a[3])) if not (y.op == "iter" and y.a[0] == x.a[0])]
            for c, y in ups:
                cc = list(atoms(c))
                far = [z for z in cc if z.op == "lt0" and any(t.op == "iter" and t.a[0] == x.a[0] and t.a[1] == x.a[1] for t in subterms(z)) and contains(z, lambda t: t is y) and pdict(z.a[0]).get(mono(y), 0) == sg]
                near = [z for z in cc if z.op == "lt0" and contains(z, lambda t: t is y) and pdict(z.a[0]).get(mono(y), 0) == -sg]
                S.ob(nm + " edge is the outermost", True if far else (False if all(known(z) for z in cc) and not any(z.op == "or" for z in cc) else None), res[0].where(), "moves if " + " and ".join(show(z, 4)[:50] for z in cc))
                at = y.op == "fld" and y.a[1] == "frequency_channel"
                S.ob(nm + " edge is a member's channel", True if at else (False if y.op == "fld" else None), res[0].where(), "moves to " + show(y, 4)[:50])
                same_d = [z for z in cc if z.op == "eq0" and at and contains(z, lambda t: t.op == "fld" and t.a[0] is y.a[0] and t.a[1] == "drift_index") and contains(z, lambda t: t is mx[0])]
                S.ob(nm + " edge at the drift of the maximum", True if same_d else (False if all(known(z) for z in cc) and not any(z.op == "or" for z in cc) else None), res[0].where(), "moves if " + " and ".join(show(z, 4)[:50] for z in cc))
            if not ups: S.ob(nm + " edge is the outermost", False, res[0].where(), "never moves")


def isvisit(S, c, N): return c.op == "eq0" and c.a[0].op == "LD" and c.a[0].a[0] is not S.spec and c.a[0].a[1] is N[0] and c.a[0].a[2] is N[1]
def known(t): return not contains(t, lambda x: x.op in ("unk", "icall"))
def mono(y): return next(iter(pdict(y)))
def id_(t): return t.id


def fresh(S):
    """no cell counts as visited before the search has been there: what the marks start with lets the search in"""
    res, msg = None, ""
    for e in S.ev.effects:
        if e.kind not in ("call", "write") or not e.loops: continue
        for c in S.conds(e):
            if c.op in ("or", "ite"): continue
            arr = [y for y in subterms(c) if y.op == "LD" and y.a[0].op == "new" and y.a[0].a[0] == "bland::ndarray" and len(y.a[0].a) == 5 and isnum(strip(y.a[0].a[2]))]
            if not arr: continue
            v = subst(c, lambda y: strip(y.a[0].a[2]) if y in arr else None)
            if v is FALSE: res, msg, w = False, "marks start as %s, but the search goes on where %s" % (show(arr[0].a[0].a[2]), show(c, 2)), e.where(); break
            if v is TRUE and res is None: res, w = True, e.where()
        if res is False: break
    if res is not None: S.ob("no cell counts as visited at first", res, w, msg)


def binary(ctx, P, F):
    """components of a mask: every set cell is in exactly one component, grown over the cells at the given offsets inside the plane"""
    S = Search.__new__(Search)
    S.ctx, S.F, S.key, S.w = ctx, F, "mask components", F.where()
    S.ev, S.v = go(ctx, P, F, inline=B, record_reads=True)
    m, hood = (sym(q["n"]) for q in F.params[:2])
    S.spec = raw("none")
    copies = {y for e in S.ev.effects for t in ([e.term] if isinstance(e.term, T) else []) for y in subterms(t) if y.op == "call" and y.a[0] == "bland::copy" and len(y.a) > 1 and y.a[1] is m}
    q = [e for e in S.pushes(("push", "emplace")) if any(x in e.qn for x in ("queue", "stack", "deque", "list"))]
    D = min((len(e.loops) for e in q), default=0)
    seeds, nbs = [e for e in q if len(e.loops) == D], [e for e in q if len(e.loops) > D]
    if len(seeds) != 1 or len(nbs) != 1: ctx.unknown("mask components: traversal", S.w, "%d seeds and %d extensions found" % (len(seeds), len(nbs))); return
    sd, nb = seeds[0], nbs[0]
    C = [S.n(field(S.ev, sd.args[-1], f)) for f in ("drift_index", "frequency_channel")]
    N = [S.n(field(S.ev, nb.args[-1], f)) for f in ("drift_index", "frequency_channel")]
    own = {y.a[0] for c in S.conds(sd) for y in subterms(c) if y.op == "LD"}
    if len(own) != 1: ctx.unknown("mask components: traversal", S.w, "the mask read is not resolved"); return
    M = next(iter(own))
    S.ob("the caller's mask is left alone", False if M is m else True if contains(M, lambda y: y.op == "call" and y.a[0] == "bland::copy") else None, S.w, "the cells of the mask that was passed are cleared")
    sh = raw("call", "bland::ndarray::shape", M)
    S.n0, S.n1 = raw("sel", sh, num(0)), raw("sel", sh, num(1))
    if M.op != "sym":
        # the copy has the extents of what it copies
        for z in (M,): S.spec = z
    S.scan(C, sd.loops, sd.where())
    S.spec = raw("none")
    def isset(c, at):
        """is this condition 'the cell is set'? False: 'it is clear'"""
        p = c.a[0] if c.op in ("lt0", "eq0", "not") else None
        if c.op == "not" and p.op == "eq0": p, r = p.a[0], True
        elif c.op == "lt0": r = True
        elif c.op == "eq0": r = False
        elif c.op == "le0": p, r = neg(c.a[0]), False
        else: return None
        if c.op == "lt0" and p.op != "LD" and sub(p, num(1)).op == "LD": return None
        if c.op == "le0":
            p = c.a[0]
            if sub(num(1), p).op == "LD": p = sub(num(1), p); r = True
        if p.op == "poly":
            ld = [y for y in subterms(p) if y.op == "LD"]
            if len(ld) == 1 and ld[0].a[0] is M and isnum(sub(p, ld[0])): return False if ld[0].a[1] is at[0] and ld[0].a[2] is at[1] else None
        if p.op != "LD" or p.a[0] is not M: return None
        return r if p.a[1] is at[0] and p.a[2] is at[1] else None
    cs = S.conds(sd)
    k = [isset(c, C) for c in cs]
    S.ob("a component starts at a set cell", False if False in k or not k else True if True in k else None, sd.where(), "starts if " + " and ".join(show(c, 5)[:70] for c in cs))
    S.ob("every set cell starts or joins a component", True if len(cs) == 1 else None, sd.where(), "")
    fronts = {y for x in N for y in subterms(x) if y.op == "fld" and y.a[0].op == "sel" and y.a[0].a[0].op == "iter"}
    idx = [next((y for y in fronts if y.a[1] == f), None) for f in ("drift_index", "frequency_channel")]
    if None in idx: ctx.unknown("mask components: traversal", nb.where(), "cell extended not resolved"); return
    cn = S.conds(nb)
    L = nb.loops[-1]
    full = loopfull(L, raw("size", hood))
    S.ob("extended by every offset given", full, nb.where(), "the offsets are not all gone through")
    for i, nm in ((0, "row"), (1, "channel")):
        o = sub(N[i], idx[i])
        S.ob("extended by the offset in the " + nm, o.op == "sel" and o.a[1] is num(i) and contains(o, lambda y: y is hood) if not contains(o, lambda y: y.op in ("unk", "undef")) else None, nb.where(), "the %s moves by %s" % (nm, show(o, 5)[:80]))
    S.ob("extended inside the plane only", S.inplane(cn, N, idx), nb.where(), "a cell is queued if " + " and ".join(show(c, 4)[:60] for c in cn))
    def always(c): return c.op == "or" and any(x.op == y.op == "lt0" and add(x.a[0], y.a[0]) is num(1) for x in c.a for y in c.a)
    odd = [c for c in cn if c not in cs and not always(c) and isset(c, idx) is None and isset(c, N) is None and inside(S, c, N) is None]
    S.ob("extended to every cell there", not odd if all(known(c) for c in odd) and not any(c.op in ("or", "ite", "not") for c in odd) else None, nb.where(), "only if " + " and ".join(show(c, 5)[:60] for c in odd))
    kk = [isset(c, idx) for c in cn]
    S.ob("extended from set cells only", False if False in kk else True if True in kk else None, nb.where(), "extends if " + " and ".join(show(c, 4)[:60] for c in cn))
    ws = [(e, address(S.n(e.loc[1][-1].a[0]))) for e in S.ev.effects if e.kind == "write" and len(e.loops) > D and e.loc[1] and e.loc[1][-1].op == "i"]
    mk = [e for e, a in ws if a is not None and a[1] is idx[0] and a[2] is idx[1]]
    S.ob("a cell taken is cleared", (True if all(e.val is num(0) for e in mk) else False if all(e.val.op == "num" for e in mk) else None) if mk else (False if all(a is not None and free2(a[1]) and free2(a[2]) for e, a in ws) else None), mk[0].where() if mk else S.w, "a cell taken stays set, so it is taken again")
    for e in mk:
        ke = [isset(c, idx) for c in S.conds(e)]
        S.ob("cells are cleared when taken", False if False in ke else True if True in ke else None, e.where())
    loc = [e for e in S.pushes(("push_back", "emplace_back")) if len(e.loops) == D + 1]
    S.ob("members are recorded", bool(loc) or None, S.w)
    for e in loc:
        a = [S.n(field(S.ev, e.args[-1], f)) for f in ("drift_index", "frequency_channel")]
        S.ob("a member is recorded at its position", (a[0] is idx[0] and a[1] is idx[1]) or (False if free2(a[0]) and free2(a[1]) else None), e.where(), "recorded at (%s, %s)" % (show(a[0], 4)[:50], show(a[1], 4)[:50]))
        ke = [isset(c, idx) for c in S.conds(e)]
        S.ob("members are set cells", False if False in ke else True if True in ke else None, e.where(), "member if " + " and ".join(show(c, 5)[:60] for c in S.conds(e)))
    res = [e for e in S.pushes(("push_back", "emplace_back")) if len(e.loops) == D]
    S.ob("one component per start", len(res) == 1 and set(map(id_, S.conds(res[0]))) == set(map(id_, cs)) if res else None, res[0].where() if res else S.w, "a component that was found is left out")


def mark(v):
    v = strip(v)
    return isnum(v) and v.a[0] != 0 or v.op == "poly" and pdict(v).get((), 0) == 1


def reads(S, C, extra=()):
    """every read of the plane outside the cell under test lies inside it"""
    n = 0
    for e in S.ev.effects:
        if e.kind != "read" or not e.loops or not e.loc or not e.loc[1] or e.loc[1][-1].op != "i": continue
        a = address(S.n(e.loc[1][-1].a[0]))
        if a is None:
            continue
        if (a[1], a[2]) in extra or a[1] is C[0] and a[2] is C[1]: continue
        n += 1
        pcs = [S.n(c) for c in atoms(e.pc)]
        S.ob(f"reads inside the plane, line {e.line}", S.inplane(pcs, (a[1], a[2]), C), e.where(), "reads (%s, %s) if %s" % (show(a[1], 4)[:40], show(a[2], 4)[:40], " and ".join(show(c, 3)[:40] for c in pcs[-3:])))
    ctx = S.ctx
    ctx.count("plane_reads", n)


def maxima(ctx, P, F):
    S = Search(ctx, P, F, "maxima")
    fresh(S)
    res = S.pushes(("push_back", "emplace_back"))
    D = min((len(e.loops) for e in res), default=0)
    res = [e for e in res if len(e.loops) == D]
    withex = [e for e in res if any(contains(c, lambda y: y.op == "exists") for c in e.pc)]
    fin = [e for e in res if strip(e.args[-1]).op in ("rec", "obj", "agg", "new") and "index_center" in show(e.args[-1], 9)] or withex or res
    e = fin[-1] if fin else None
    if e is None: ctx.unknown("maxima: report", S.w, "no report found"); return
    h = e.args[-1]
    while h.op == "new" and len(h.a) == 2: h = h.a[1]
    C = [S.n(field(S.ev, h, "index_max", f)) for f in ("drift_index", "frequency_channel")]
    S.scan(C, e.loops, e.where())
    cs = S.conds(e)
    S.ob("a maximum is above the threshold", has(S, cs, sub(S.snr(*C), S.thr)), e.where(), "reported if " + " and ".join(show(c, 5)[:60] for c in cs))
    ex = [y for c in cs for y in subterms(c) if y.op == "exists"]
    inner = [y for y in ex if not contains(y.a[1], lambda z: z.op == "exists")]
    ok = None
    for c in cs:
        for x in subterms(c):
            L = S.ev.allloops.get(x.a[0]) if x.op in ("lout", "iter") else None
            if L is None or L in e.loops or not L.brkst: continue
            for b, k in ((b, k) for b in L.brkst for k in L.iter if L.iter[k].op == "iter" and L.iter[k].a[1] == x.a[1]):
                v = strip(S.ev.load(b, k))
                if isnum(v) and v.a[0] != 0 and (c is x or c.op != "not"): S.ob("a cell given up is not a maximum", False, e.where(), "the comparison is broken off and the cell is reported all the same")
    if not inner: S.ob("a maximum is above its neighbours", False if all(free2(c) for c in cs) and not contains(raw("vec", *cs), lambda y: y.op == "lout") else None, e.where(), "reported without comparing all of its neighbours")
    for y in inner:
        L = S.ev.allloops.get(y.a[0])
        seg = y.a[1]
        at = batoms(seg)
        ld = {z for x in at.values() for z in subterms(x) if z.op == "LD" and z.a[0] is S.spec and not (z.a[1] is C[0] and z.a[2] is C[1])}
        if len(ld) != 1: S.ob("a maximum is above its neighbours", None if ld else False, e.where(), "compares %d cells" % len(ld)); continue
        nbr = next(iter(ld))
        N = (nbr.a[1], nbr.a[2])
        S.neighbourhood("compared with the cells within the distance", C, N, [x for x in L.outer if x not in e.loops] + [L], e, list(at.values()))
        names = {}
        for i, x in at.items():
            if x.op == "lt0" and x.a[0] is sub(S.snr(*C), S.snr(*N)): names[i] = ("higher", True)
            elif x.op == "lt0" and x.a[0] is sub(S.snr(*N), S.snr(*C)): names[i] = ("lower", True)
            elif inside(S, x, N): names[i] = inside(S, x, N)
            elif x.op == "eq0" and (x.a[0] is sub(N[0], C[0]) or neg(x.a[0]) is sub(N[0], C[0])): names[i] = ("d0", True)
            elif x.op == "eq0" and (x.a[0] is sub(N[1], C[1]) or neg(x.a[0]) is sub(N[1], C[1])): names[i] = ("f0", True)
            elif L.cond is not None and any(x is S.n(z) for z in atoms([L.cond])): names[i] = ("guard", True)
        if any(n[0] == "lower" for n in names.values()) and not any(n[0] == "higher" for n in names.values()):
            S.ob("a maximum is above its neighbours", False, e.where(), "a cell equal to a neighbour counts as a maximum"); continue
        if not any(n[0] == "higher" for n in names.values()):
            S.ob("a maximum is above its neighbours", False if not any(x.op in ("or", "ite") for x in at.values()) else None, e.where(), "compares " + " and ".join(show(x, 5)[:60] for x in at.values() if contains(x, lambda z: z.op == "LD"))); continue
        tb = btable(seg, names)
        if tb is None or [i for i in at if i not in names]: S.ob("a maximum is above its neighbours", None, e.where(), "depends on " + ", ".join(show(at[i], 4)[:50] for i in at if i not in names)); continue
        bad = None
        for env, got in tb.items():
            en = dict(env)
            ins = all(v for k, v in en.items() if k.startswith("in"))
            selfc = en.get("d0", False) and en.get("f0", False)
            if en.get("guard") is False: continue
            if not ins: continue
            if "d0" in en and "f0" in en and selfc:
                if True in got: bad = "a cell is compared with itself"
            elif got != {not en["higher"]}: bad = "given up is %s for a neighbour that is %s" % (got, "lower" if en["higher"] else "not lower")
        if bad is None and not ("d0" in {n[0] for n in names.values()} and "f0" in {n[0] for n in names.values()}): bad = "a cell is compared with itself, so none is ever found"
        S.ob("a maximum is above its neighbours", bad is None, e.where(), bad or "")
        ok = True
    # where the comparison decides
    negs = [c for c in cs if c.op == "not" and contains(c, lambda y: y.op == "exists")]
    S.ob("a cell with a higher neighbour is not reported", True if negs else None if not inner or any(contains(c, lambda y: y.op in ("lout", "iter") and y.a[0] != e.loops[0].id) for c in cs) else False, e.where())
    vis = [c for c in cs if contains(c, lambda y: y.op == "LD" and y.a[0] is not S.spec) and not contains(c, lambda y: y.op == "exists")]
    other = [c for c in cs if c not in negs and c not in vis and not (c.op == "lt0" and c.a[0] is sub(S.snr(*C), S.thr))]
    S.ob("every maximum is reported", not other if all(free2(c) for c in other) and not any(contains(c, lambda y: y.op == "lout") for c in other) else None, e.where(), "only if " + " and ".join(show(c, 4)[:60] for c in other))
    # marks
    for x in S.ev.effects:
        if x.kind != "write" or not x.loops or not x.loc[1] or x.loc[1][-1].op != "i": continue
        a = address(S.n(x.loc[1][-1].a[0]))
        if a is None: S.ob("cells passed over", False if not contains(x.loc[1][-1].a[0], lambda y: y.op in ("undef", "unk")) else None, x.where(), "address is not that of the array marked"); continue
        if a[1] is C[0] and a[2] is C[1]: continue
        cc = S.conds(x)
        N = (a[1], a[2])
        S.ob(f"marks inside the plane, line {x.line}", S.inplane(cc, N, C), x.where(), "marks (%s, %s)" % (show(a[1], 4)[:40], show(a[2], 4)[:40]))
        low = any(c.op == "lt0" and (c.a[0] is sub(S.snr(*C), S.snr(*N)) or pdict(c.a[0]).get(mono(S.val(*N)), 0) == -1 and len(pdict(c.a[0])) == 2 and any(t.op == "iter" for t in subterms(c))) for c in cc)
        S.ob("only cells below another are passed over", True if low else (False if not any(c.op in ("or",) and contains(c, lambda y: y.op == "LD") for c in cc) else None), x.where(), "passes over (%s, %s) if %s" % (show(a[1], 4)[:30], show(a[2], 4)[:40], " and ".join(show(c, 4)[:50] for c in cc)))
    reads(S, C)
    w = e.where()
    for fl, want in (("snr", S.snr(*C)), ("max_integration", S.val(*C)), ("desmeared_noise", S.nz(C[0]))):
        v = S.n(field(S.ev, h, fl))
        S.ob("kept " + fl, True if v is want else (False if free2(v) and not contains(v, lambda y: y.op == "lout") else None), w, "is " + show(v, 5)[:80])
    S.rficounts(field(S.ev, h, "rfi_counts"), C, w)
    ed = widths(S, h, C, w, None)
    for nm, x, sg in (("upper", ed[0], 1), ("lower", ed[1], -1)) if ed else ():
        L = S.ev.allloops.get(x.a[0])
        S.ob(nm + " edge starts at the maximum", True if S.n(x.a[2]) is C[1] else (False if free2(x.a[2]) else None), w, "starts at " + show(x.a[2], 4)[:50])
        nx = S.n(x.a[3])
        S.ob(nm + " edge moves outward by one", (True if sub(nx, S.n(x.a[2])) is scale(add(L.ctr, num(1)), sg) else False if known(nx) and nx.op == "poly" else None) if L is not None else None, w, "moves to " + show(nx, 4)[:60])
        if L is None or L.kind != "do" or L.post is None or not isinstance(L.post, T): continue
        N = (C[0], nx)
        go_on = S.n(L.post)
        names, falling = {}, None
        def nameof(c):
            nonlocal falling
            k = inside(S, c, N)
            if k: return k
            if c.op == "lt0":
                for x, n in ((c.a[0], True), (neg(c.a[0]), False)):
                    if x is sub(S.snr(*N), S.thr): return ("above", n)
                    q = add(x, S.val(*N))
                    if q.op == "iter" and q.a[0] == L.id:
                        falling = q; return ("falling", n)
            if c.op == "iter" and c.a[0] == L.id: return ("going", True)
            return None
        for i, c in batoms(go_on).items():
            k = nameof(c)
            if k: names[i] = k
        tb = btable(go_on, names)
        have = {n for n, p in names.values()}
        r, msg = (None, "") if tb is None else (True, "")
        for k, v in (tb or {}).items():
            en = {a: b for a, b in k}
            if en.get("going") is False: continue
            ins = all(b for a, b in en.items() if a.startswith("in"))
            want = ins and en.get("above", False) and en.get("falling", False)
            if v != {want} and r: r, msg = False, "goes on is %s where the next cell is %s" % (sorted(v), ", ".join(a + "=" + str(b) for a, b in en.items()))
        if r is False and not (known(go_on)): r = None
        S.ob(nm + " edge moves on over falling cells above the threshold", r, w, msg + "; has " + ", ".join(sorted(have)))
        if falling is not None:
            k = next((k for k in L.iter if L.iter[k] is falling), None)
            ok = k is not None and S.n(L.init[k]) is S.val(*C)
            got = []
            for g, y in cases(S.n(L.next[k])) if k is not None and L.next.get(k) is not None else []:
                env = {i: p for i, (n, p) in names.items()}
                for i, c in batoms(land(*g)).items() if g else ():
                    k2 = nameof(c)
                    if k2: env[i] = k2[1]
                try:
                    if not g or bval(land(*g), env): got.append(y)
                except KeyError: got.append(None)
            S.ob(nm + " edge compares with the cell before", None if None in got else ok and bool(got) and all(y is S.val(*N) for y in got), w, "compared with %s" % ", ".join(show(y, 5)[:60] for y in got if y is not None))


def check(ctx):
    P = ctx.program("bliss/drift_search/kernels/connected_components_cpu", "bliss/drift_search/kernels/local_maxima_cpu")
    for F in get(ctx, P, QC): components(ctx, P, F)
    for F in get(ctx, P, QL): maxima(ctx, P, F)
    for F in [f for f in P.defs.values() if f.qn == "bliss::find_components_in_binary_mask_cpu" and f.body]: binary(ctx, P, F)


if __name__ == "__main__": main("C15", RULE, check, 6)
