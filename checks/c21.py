import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.rules import *
from vlib.ev import F as F_, I
from fractions import Fraction

RULE = ("the event list gets one entry per hit of each scan of the first target for which (a) some later scan of that target gave a hit, and (b) no hit of any scan of any other target has a mean "
        "distance below 50 to the event's hits; what each later scan gives is the hit at the smallest distance to the hits so far, below 50, which is then taken out of that scan's hits; averages are sums over "
        "the event's hits over their number; the distance is a symmetric function of the two hits with the documented terms, and the cache of distances orders its pairs strictly and never confuses two pairs")
SHORT = ("::hits", "hit_distance::operator()", "tstart", "tduration_secs", "tsamp", "distance_func", "::hit::operator==", "hit::operator<", "::repr", "source_name")
LIMIT = 50


def fieldof(ev, rec, f):
    s = State()
    loc = (raw("mem", sym("OBJ")), ())
    ev.store(s, loc, rec)
    return ev.load(s, (loc[0], (F_(f),)))


class World:
    def __init__(s, ev):
        s.ev = ev
        s.it = {}
        for L in ev.allloops.values():
            for k, t in L.iter.items(): s.it[t.id] = (L, k)

    def init(s, t):
        """the value a variable had before the loops that change it"""
        n = 0
        while n < 40:
            n += 1
            if t.op == "iter" and t.id in s.it:
                L, k = s.it[t.id]
                if L.init.get(k) is None: return t
                t = L.init[k]
            elif t.op == "cast": t = t.a[-1]
            elif t.op == "upd": t = t.a[0]
            elif t.op == "ref" or t.op == "deref": t = t.a[0]
            else: break
        return t

    def loop(s, i): return s.ev.allloops.get(i)

    def members(s, t):
        """[(conditions, element)] a list value is made of"""
        t = s.init(t)
        if t.op == "vec": return [((), x) for x in t.a]
        if t.op == "pushed": return s.members_in(t.a[0]) + [((), t.a[1])]
        if t.op == "ite": return [((t.a[0],) + c, x) for c, x in s.members(t.a[1])] + [((lnot(t.a[0]),) + c, x) for c, x in s.members(t.a[2])]
        if t.op == "lout":
            inner = s.members_in(t.a[3])
            return None if inner is None or s.members(t.a[2]) is None else s.members(t.a[2]) + inner
        return None

    def members_in(s, t):
        """like members, inside the loop: the value at the start of an iteration adds nothing"""
        if t.op == "iter": return []
        if t.op == "pushed":
            r = s.members_in(t.a[0])
            return None if r is None else r + [((), t.a[1])]
        if t.op == "ite":
            a, b = s.members_in(t.a[1]), s.members_in(t.a[2])
            return None if a is None or b is None else [((t.a[0],) + c, x) for c, x in a] + [((lnot(t.a[0]),) + c, x) for c, x in b]
        if t.op == "lout":
            if t.a[2].op == "iter" or t.a[2].op == "vec" and not t.a[2].a: return s.members_in(t.a[3])
            return None
        if t.op == "vec" and not t.a: return []
        return None

    def scan(s, t):
        """(target index, scan index, conditions) of a scan value; indices may be loop counters"""
        t = strip_all_casts(t)
        while t.op in ("upd", "ref", "deref"): t = t.a[0]
        if t.op == "iter": t = s.init(t)
        if t.op == "sel":
            c, k = t.a
            c0 = s.init(c)
            if c0.op == "lout" and contains(c0.a[2], lambda x: x.op == "fld" and x.a[1] == "_scans") and c0.a[2].op == "fld": c0 = c0.a[2]
            if c0.op == "lout" and c0.a[2].op == "iter": c0 = s.init(c0.a[2])
            if c0.op == "fld" and c0.a[1] == "_scans":
                o = s.init(c0.a[0])
                if o.op == "sel":
                    oc = s.init(o.a[0])
                    if oc.op == "lout": oc = s.init(oc.a[2])
                    if oc.op == "fld" and oc.a[1] == "_observations": return [(o.a[1], k, ())]
                return None
            ms = s.members(c0)
            if ms is None: return None
            out = []
            for cs, x in ms:
                r = s.scan(x)
                if r is None: return None
                out += [(o, n, cs + c2) for o, n, c2 in r]
            return out
        return None

    def hits(s, t):
        """scans whose hits the list value t holds: as scan()"""
        t = strip_all_casts(t)
        t = s.init(t)
        if t.op == "call" and str(t.a[0]).split("<")[0] == "bliss::scan::hits": return s.scan(t.a[1])
        if t.op == "lout" and t.a[2].op == "iter": return s.hits(t.a[2])
        if t.op == "sel":
            c = s.init(t.a[0])
            ms = s.members(c)
            if ms is None or len(ms) != 1 or ms[0][0]: return None
            x = ms[0][1]
            L = s.loop(c.a[0]) if c.op == "lout" else None
            r = s.hits(x)
            if r is None or L is None: return r
            return [(o, subst(n, lambda y: t.a[1] if y is L.ctr else None), c2) for o, n, c2 in r]
        return None


def isctr(W, t):
    for L in W.ev.allloops.values():
        if t is L.ctr: return L
    return None


def smallest(t):
    """t as the smallest of values seen in nested loops: ([loops...], value) """
    ids = []
    while True:
        t = strip_all_casts(t)
        if t.op != "lout": return ids, t
        i, init, nx = t.a[0], t.a[2], strip_all_casts(t.a[3])
        if init.op not in ("limit", "iter") and not (init.op == "num" and init.a[0] >= 10**30): return None
        if nx.op != "min" or len(nx.a) != 2:
            if nx.op == "lout": ids.append(i); t = nx; continue
            return None
        rest = [x for x in nx.a if x.op != "iter"]
        if len(rest) != 1: return None
        ids.append(i)
        t = rest[0]


def notmin(W, t):
    """a step of t that keeps something else than the smaller of two distances (None: not understood)"""
    t = strip_all_casts(t)
    if t.op != "lout": return None
    init, nx = t.a[2], strip_all_casts(t.a[3])
    own = {x.id for x in subterms(nx) if x.op == "iter"}
    Ls = [W.loop(t.a[0])]
    mine = [k for k in Ls[0].iter if Ls[0].iter[k].id in own] if Ls[0] is not None else []
    inner = [x for x in subterms(nx) if x.op == "lout"]
    bad = [x for x in inner if notmin(W, x) is not None]
    if bad: return notmin(W, bad[0])
    if nx.op == "min": return None
    def flat(x):
        if x.op in ("iter", "lout", "num", "limit", "call"): return True
        return x.op in ("min", "max", "ite", "lt0", "eq0", "not", "and", "or", "poly", "cast") and all(flat(k) for k in children(x))
    # only this variable and distances: anything but the minimum is wrong
    its = {x.a[2] for x in top_iters(nx)}
    return nx if flat(nx) and len(its) <= 1 else None


def top_iters(t):
    if t.op == "iter": return [t]
    if t.op in ("lout", "call"): return []
    return [x for k in children(t) for x in top_iters(k)]


def summed(t):
    """t = sum over nested loops of a value: ([loops], value)"""
    t = strip_all_casts(t)
    ids = []
    while t.op == "lout":
        i, init, nx = t.a[0], t.a[2], strip_all_casts(t.a[3])
        if not (isnum(init) and init.a[0] == 0 or init.op == "iter"): return None
        ids.append(i)
        if nx.op == "lout": t = nx; continue
        d = pdict(nx)
        its = [m for m in d if len(m) == 1 and m[0].op == "iter" and d[m] == 1]
        if len(its) != 1: return None
        return ids, sub(nx, its[0][0])
    return None


def weighed(v):
    """v = k * x for a number k that is not 1: x"""
    v = strip_all_casts(v)
    if v.op != "poly": return None
    d = pdict(v)
    if len(d) != 1: return None
    (m, k), = d.items()
    return m[0] if len(m) == 1 and k != 1 else None


def counted(t):
    """conditions under which a counter that starts at 0 (or a flag that starts false) is moved: ([loops], condition)"""
    t = strip_all_casts(t)
    ids, cs = [], []
    if t.op == "exists":
        while t.op == "exists":
            ids.append(t.a[0])
            t = strip_all_casts(t.a[1])
        return ids, t
    while True:
        if t.op == "lout":
            init = t.a[2]
            if not (isnum(init) and init.a[0] == 0 or init.op == "iter"): return None
            ids.append(t.a[0])
            t = strip_all_casts(t.a[3])
        elif t.op == "ite":
            a, b = strip_all_casts(t.a[1]), strip_all_casts(t.a[2])
            if b.op == "iter": cs.append(t.a[0]); t = a
            elif a.op == "iter": cs.append(lnot(t.a[0])); t = b
            else: return None
        elif isnum(t): return (ids, land(*cs)) if t.a[0] > 0 else None
        elif t.op == "or":
            rest = [x for x in t.a if x.op != "iter"]
            if len(rest) + 1 != len(t.a): return None
            return ids, land(*(cs + [lor(*rest)]))
        else:
            d = pdict(t)
            if all(c > 0 for c in d.values()) and any(m and m[0].op == "iter" for m in d) and d.get((), 0) > 0 and len(d) == 2: return ids, land(*cs)
            return None


def below(c, what):
    """limit T of a condition what < T"""
    c = strip_all_casts(c)
    if c.op == "not": return None
    if c.op != "lt0": return None
    k = add(c.a[0], what)
    return k.a[0] if isnum(k) else None


def search(ctx, P):
    F = get(ctx, P, "bliss::event_search")[0]
    ev, v = go(ctx, P, F, inline=but(*SHORT), pure=("bliss::scan::tstart", "bliss::scan::tduration_secs"), record_reads=True)
    W = World(ev)
    w = F.where()
    cad = sym(F.params[0]["n"])
    obs = raw("fld", cad, "_observations")
    nscan = lambda o: raw("size", raw("fld", raw("sel", obs, o), "_scans"))
    rep = []
    for e in ev.effects:
        if e.kind == "call" and e.qn and e.qn.split("::")[-1] in ("push_back", "emplace_back") and e.args:
            a = e.args[0]
            while a.op == "new" and len(a.a) == 2: a = a.a[1]
            if a.op == "rec" and contains(a, lambda t: t.op == "pv" and str(t.a[0]).find("starting_frequency_Hz") >= 0 or t.op == "f" and t.a[0] == "starting_frequency_Hz"): rep.append((e, a))
            elif getattr(e, "loc", None) is not None and False: pass
    if not rep:
        rep = [(e, e.args[0]) for e in ev.effects if e.kind == "call" and e.qn and e.qn.split("::")[-1] in ("push_back", "emplace_back") and e.args and fieldish(ev, e.args[0])]
    if len(rep) != 1: ctx.unknown("events reported", w, "%d places" % len(rep)); return
    e, rec = rep[0]
    ew = e.where()
    for r in ev.effects:
        if r.kind == "read" and r.loc and r.loc[1] and r.loc[1][-1].op == "i" and not r.loops and strip_all_casts(r.loc[1][-1].a[0]) is num(0) and len(r.loc[1]) > 1 and r.loc[1][-2].op == "f" and r.loc[1][-2].a[0] == "_observations":
            ctx.ob("a cadence without targets has no events", True if any(notempty(W, t) for t in r.pc) else False if all(free(t) for t in r.pc) else None, r.where(), "the first target is read without looking whether there is one")
            break
    ctx.ob("the events found are returned", True if v is not None and contains(v, lambda t: t.op == "lout" and any(L.id == t.a[0] for L in e.loops)) else False if v is not None and free(v) else None, ew, "")

    # candidates
    H = strip_all_casts(fieldof(ev, rec, "hits"))
    LO = e.loops
    join = H if H.op == "lout" else None
    if join is None:
        ctx.ob("a later scan adds a hit", None if H.op != "vec" else False, ew, show(H)); return
    LJ = W.loop(join.a[0])
    start = join.a[2]
    start = start.a[0] if start.op == "vec" and len(start.a) == 1 else None
    if start is None: ctx.unknown("an event starts from one hit", ew, show(join.a[2])); return
    s0 = strip_all_casts(start)
    hs = W.hits(s0.a[0]) if s0.op == "sel" else None
    if hs is None or len(hs) != 1: ctx.unknown("the hit an event starts from", ew, show(s0)); return
    o, n, cs = hs[0]
    ctx.ob("events start in scans of the first target", True if o is num(0) else False if isnum(o) or isctr(W, o) is not None else None, ew, "target %s" % show(o))
    LS, LH = isctr(W, n), isctr(W, s0.a[1])
    if LS is None or LH is None: ctx.unknown("every hit starts an event", ew, "scan %s, hit %s" % (show(n), show(s0.a[1]))); return
    r = loopfull(LS, nscan(num(0)))
    if r is not True and LS.trip is not None:
        t0 = subst(strip_all_casts(LS.trip), lambda t: nscan(num(0)) if t.op == "size" and samescans(W, t.a[0]) else None)
        r = (t0 is nscan(num(0)) and not LS.breaks and not LS.hasret) if free(t0) else None
    ctx.ob("every scan of the first target starts events", r, ew, "for %s" % (show(LS.trip) if LS.trip is not None else "?"))
    r = None
    if LH.trip is not None:
        tt = strip_all_casts(LH.trip)
        hh = W.hits(tt.a[0]) if tt.op == "size" else None
        r = True if hh and hh[0][0] is o and hh[0][1] is n and not LH.breaks and not LH.hasret else False if hh or isnum(sub(tt, raw("size", s0.a[0]))) or LH.hasret else None
    ctx.ob("every hit of a scan starts an event", r, ew, "for %s" % (show(LH.trip) if LH.trip is not None else "?"))

    # what a later scan adds
    nx = strip_all_casts(join.a[3])
    brk = [b for b in (LJ.breaks or ()) if isinstance(b, T)] if LJ is not None else []
    if LJ is not None and (LJ.breaks or LJ.hasret):
        bs = list(LJ.breaks) if isinstance(LJ.breaks, (list, tuple)) else []
        ts = [t for b in bs for t in (b if isinstance(b, (list, tuple)) else [b]) if isinstance(t, T)]
        near = [t for t in ts if contains(t, lambda q: q.op == "call" and str(q.a[0]).split("<")[0].endswith(("distance_func", "hit_distance::operator()")))]
        ctx.ob("the search goes through all later scans", False if near or LJ.hasret else None, ew, "left when %s" % show(near[0], 6) if near else "")
        if near: return
    if nx.op != "ite": ctx.ob("a later scan adds a hit only when it is close", False if nx.op == "pushed" else None, ew, show(nx)); return
    c, a, b = nx.a
    if a.op == "iter": c, a, b = lnot(c), b, a
    if a.op != "pushed" or b.op != "iter" or a.a[0].op != "iter": ctx.unknown("what a later scan adds", ew, show(nx)); return
    best = a.a[1]
    def dcall(t): return t.op == "call" and str(t.a[0]).split("<")[0].endswith(("distance_func", "hit_distance::operator()"))
    dist = [x for x in subterms(c) if x.op == "lout" and x is not H and contains(x, dcall) and not any(y.op == "pushed" for _, y in cases(strip_all_casts(x.a[3])))]
    # the outermost
    dist = [x for x in dist if not any(y is not x and contains(y, lambda t: t is x) for y in dist)]
    if len(dist) != 1: ctx.unknown("the distance a later hit is accepted by", ew, show(c, 9)); return
    sm = smallest(dist[0])
    if sm is None:
        odd = notmin(W, dist[0])
        ctx.ob("a later scan gives its closest hit", False if odd else None, ew, "the distance is %s" % show(odd or dist[0], 9)); return
    ids, d = sm
    lim = below(c, dist[0])
    ctx.ob("a later hit is close below 50", None if lim is None else lim == LIMIT, ew, "limit %s" % (lim if lim is not None else show(c, 6)))
    if d.op != "call" or not str(d.a[0]).split("<")[0].endswith(("distance_func", "hit_distance::operator()")): ctx.unknown("the distance of a later hit", ew, show(d)); return
    args = [strip_all_casts(x) for x in d.a[1:] if isinstance(x, T)][-2:]
    pool = evhits = None
    one = [x for x in args if x is s0 or x.op == "sel" and x.a[1] is s0.a[1] and (W.hits(x.a[0]) or [(None, None)])[0][1] is n]
    if one: ctx.bad("the closest to any hit of the event", ew, "only compared with the first hit"); return
    for x in args:
        if x.op != "sel": continue
        y = W.hits(x.a[0])
        i0 = x.a[0]
        if i0.op == "iter" and W.it.get(i0.id, (None,))[0] is LJ and contains(W.init(i0), lambda t: t is start): evhits = x
        elif y: pool = (x, y)
    if pool is None or evhits is None: ctx.unknown("which hits are compared", ew, [show(x) for x in args]); return
    (px, ph) = pool
    po, pn, pcs = ph[0]
    off = sub(pn, LJ.ctr) if LJ is not None else None
    ctx.ob("hits are looked for in the same target", True if po is o else False if isnum(po) or isctr(W, po) is not None else None, ew, "target %s" % show(po))
    first = None
    if off is not None:
        k = sub(off, n)
        first = (k is num(1)) if isnum(k) else None
        if not contains(pn, lambda t: t is LJ.ctr): first = False
        if first is None and free(off) and not contains(off, lambda t: t is LJ.ctr): first = False
    ctx.ob("the search begins with the next scan", first, ew, "begins at scan %s" % (show(off) if off is not None else "?"))
    lt = None
    if LJ.trip is not None:
        t0 = subst(strip_all_casts(LJ.trip), lambda t: nscan(num(0)) if t.op == "size" and samescans(W, t.a[0]) else None)
        k = sub(add(t0, off), nscan(num(0)))
        lt = (k is num(0) and not LJ.breaks and not LJ.hasret) if isnum(k) else None
        if LJ.hasret: lt = False
        if LJ.breaks: lt = None if lt is None else False
    ctx.ob("the search goes through all later scans", lt, ew, "ends %s scans past the last" % (show(k) if LJ.trip is not None else "?"))
    # nested loops of the minimum are those over the two lists
    def over(x, Ls):
        L = isctr(W, x.a[1])
        if L is None or L.id not in Ls: return None
        if L.hasret: return False
        if L.trip is None: return None
        sz = strip_all_casts(L.trip)
        if sz.op == "size" and listsame(W, sz.a[0], x.a[0]):
            return True if not L.breaks else None
        k = sub(sz, raw("size", x.a[0]))
        return False if isnum(k) else None
    ctx.ob("the closest of all hits of the later scan", over(px, ids), ew, "")
    ctx.ob("the closest to any hit of the event", over(evhits, ids), ew, "")
    # the hit added is the one at that distance
    bt = strip_all_casts(best)
    while bt.op in ("deref", "new") and bt.a and isinstance(bt.a[-1], T): bt = bt.a[-1]
    r = None
    if bt.op == "lout" and bt.a[0] == ids[0]:
        bn = strip_all_casts(bt.a[3])
        if bn.op == "ite":
            cond, x, y = bn.a
            if x.op == "iter": cond, x, y = lnot(cond), y, x
            x = strip_all_casts(x)
            pos = x.a[1] if x.op in ("itr", "sel") else None
            okc = cond.op in ("lt0", "not")
            inner = [t for t in subterms(cond) if t.op == "lout"] or [t for t in subterms(cond) if t is d]
            # condition: the value of this hit is smaller than the best so far
            dv = None
            it = [t for t in subterms(cond) if t.op == "iter" and W.it.get(t.id, (None,))[0] is W.loop(ids[0])]
            if it and inner and cond.op == "lt0":
                mm = strip_all_casts(dist[0].a[3])
                val = [q for q in mm.a if q.op != "iter"] if mm.op == "min" else []
                if val:
                    p = sub(it[0], strip_all_casts(val[0]))
                    dv = True if strip_all_casts(cond.a[0]) is p else False if strip_all_casts(cond.a[0]) is neg(p) else None
            elif it and inner and cond.op == "not":
                q = strip_all_casts(cond.a[0])
                mm = strip_all_casts(dist[0].a[3])
                val = [z for z in mm.a if z.op != "iter"] if mm.op == "min" else []
                if val and q.op == "lt0":
                    p = sub(it[0], strip_all_casts(val[0]))
                    dv = True if q.a[0] is neg(p) else False if q.a[0] is p else None
            same_pos = (pos is px.a[1]) if pos is not None else None
            r = None if dv is None or same_pos is None else dv and same_pos
    ctx.ob("the hit added is the closest one", r, ew, "adds %s" % show(best, 8))
    er = [x for x in ev.effects if x.kind == "call" and x.qn and x.qn.split("::")[-1] == "erase"]
    other_er = [x for x in ev.effects if x.kind in ("call", "write") and x.qn and x.qn.split("::")[-1] in ("pop_front", "pop_back", "clear", "resize") and LJ in x.loops]
    pb_ = px.a[0]
    while pb_.op == "sel": pb_ = pb_.a[0]
    ctx.ob("the hits of the later scan change", True if pb_.op == "iter" and pb_.id in W.it else False if not contains(pb_, lambda t: t.op == "upd" and not contains(t.a[1], lambda q: q.op == "call" and str(q.a[0]).split("<")[0] == "bliss::scan::hits")) else None, ew, "no hit is taken out of the scan's hits")
    if other_er and not er: ctx.bad("the hit taken out is the one added", other_er[0].where(), "takes out by %s" % other_er[0].qn)
    elif len(er) != 1: ctx.ob("a hit that is added is not used again", None if len(er) > 1 or not free(v) and not er and any(x.kind == "call" and x.qn and x.qn.split("::")[-1] in ("remove", "remove_if", "pop_front", "splice", "extract") for x in ev.effects) else False, ew, "%d removals" % len(er))
    else:
        x = er[0]
        arg = strip_all_casts(x.args[0])
        while arg.op in ("new",) and len(arg.a) == 2: arg = strip_all_casts(arg.a[1])
        ctx.ob("the hit taken out is the one added", True if arg is bt else False if free(arg) else None, x.where(), "takes out %s" % show(arg, 5))
        lp = (x.obj[0] if isinstance(x.obj, tuple) else None)
        idx = [p.a[0] for p in x.obj[1] if p.op == "i"] if isinstance(x.obj, tuple) else []
        ctx.ob("it is taken out of the scan it is from", True if idx and idx[-1] is pn else False if idx and free(idx[-1]) else None, x.where(), "out of scan %s" % (show(idx[-1]) if idx else "?"))
        add_ = [q for q in ev.effects if q.kind == "call" and q.qn and q.qn.split("::")[-1] in ("push_back", "emplace_back") and q.loops and q.loops[-1] is LJ]
        ca = [strip_all_casts(t) for t in extra_conds(x) if not notempty(W, t)]
        ctx.ob("it is taken out whenever it is added", True if any(t is strip_all_casts(c) for t in ca) and len(ca) == 1 or not ca and x.loops[-1] is LJ and False else None if len(ca) != 1 else False, x.where(), "")

    # when it is reported
    conds = []
    for t in extra_conds(e):
        if not notempty(W, t): conds.append(t)
    cond = land(*conds)
    names, odd = {}, []
    offs = None
    for i, t in batoms(cond).items():
        x = strip_all_casts(t)
        p = x.a[0] if x.op in ("lt0", "eq0") else x
        sz = [y for y in subterms(p) if y.op == "size" and strip_all_casts(y.a[0]) is H]
        if sz and x.op == "lt0" and set(pdict(p)) <= {(sz[0],), ()}:
            d = pdict(p)
            k = -d.get((), Fraction(0)) / d[(sz[0],)]          # size > k, or size < k
            if d[(sz[0],)] > 0: names[i] = ("more", True); ctx.ob("an event has at least two hits", 1 <= k < 2, ew, "more than %s" % k)
            else: names[i] = ("more", False); ctx.ob("an event has at least two hits", 1 < k <= 2, ew, "less than %s" % k)
            continue
        if sz and x.op == "eq0" and p.op == "poly" and len(pdict(p)) == 2:
            k = -pdict(p).get((), Fraction(0)) / pdict(p)[(sz[0],)]
            if k == 1: names[i] = ("more", False); continue      # never less than one
        ct = counted(strip_all_casts(p) if x.op != "not" else p)
        if ct is not None:
            names[i] = ("off", x.op != "eq0")
            if x.op == "lt0" and not (p.op == "lout"): pass
            offs = ct; continue
        if x.op == "lt0" and p.op == "poly":
            lo = [m[0] for m in pdict(p) if m and len(m) == 1 and m[0].op == "lout"]
            if len(lo) == 1:
                ct = counted(lo[0])
                if ct is not None:
                    kk = pdict(p)
                    k = -kk.get((), Fraction(0)) / kk[(lo[0],)]
                    if kk[(lo[0],)] < 0: names[i] = ("off", False); ctx.ob("one hit elsewhere is enough", 0 < k <= 1, ew, "fewer than %s" % k)
                    else: names[i] = ("off", True); ctx.ob("one hit elsewhere is enough", 0 <= k < 1, ew, "more than %s" % k)
                    offs = ct; continue
        odd.append(t)
    tb = btable(cond, names) if not odd else None
    if tb is None:
        ctx.unknown("which events are reported", ew, [show(t, 6) for t in odd])
    else:
        bad = []
        for env, got in tb.items():
            d = dict(env)
            for more in ([d["more"]] if "more" in d else [False, True]):
                for off_ in ([d["off"]] if "off" in d else [False, True]):
                    if got != {more and not off_}: bad.append((more, off_))
        ctx.ob("which events are reported", not bad, ew, "with%s a second hit and with%s a hit elsewhere is %s" % ("" if bad[0][0] else "out", "" if bad[0][1] else "out", "dropped" if bad[0][0] and not bad[0][1] else "reported") if bad else "")
    if offs is not None: elsewhere(ctx, W, offs, H, ew, obs, F)

    # attributes
    st = n
    hitf = lambda f: raw("fld", start, f)
    x = fieldof(ev, rec, "starting_frequency_Hz")
    ctx.ob("starting frequency is that of the first hit, in Hz", numeq(subst(x, lambda t: sym("START") if t is start else None), scale(raw("fld", sym("START"), "start_freq_MHz"), Fraction(10**6))), ew, "is %s" % show(x, 6))
    def tcall(t):
        t = strip_all_casts(t)
        d = pdict(t)
        return d
    x = strip_all_casts(fieldof(ev, rec, "event_start_seconds"))
    y = strip_all_casts(fieldof(ev, rec, "event_end_seconds"))
    def timing(x, want, what):
        # polynomial in calls on a scan
        d = pdict(x)
        got = {}
        for m, k in d.items():
            if len(m) != 1 or m[0].op != "call": 
                return ctx.unknown(what, ew, show(x, 6))
            sc = W.scan(m[0].a[1])
            nm = str(m[0].a[0]).split("<")[0].split("::")[-1]
            if sc is None or len(sc) != 1: return ctx.unknown(what, ew, show(x, 6))
            if not (sc[0][0] is o and sc[0][1] is n): return ctx.bad(what, ew, "taken from scan %s of target %s" % (show(sc[0][1]), show(sc[0][0])))
            got[nm] = float(k)
        ctx.ob(what, got == want, ew, "is %s" % got)
    timing(x, {"tstart": 86400.0}, "an event starts when its first scan starts")
    timing(y, {"tstart": 86400.0, "tduration_secs": 1.0}, "an event ends no earlier than its first scan")
    for f, hf in (("average_power", "power"), ("average_snr", "snr"), ("average_bandwidth", "bandwidth"), ("average_drift_rate_Hz_per_sec", "drift_rate_Hz_per_sec")):
        x = strip_all_casts(fieldof(ev, rec, f))
        lo = [t for t in subterms(x) if t.op == "lout" and summed(t) is not None and any(z.op == "fld" for z in subterms(summed(t)[1]))]
        lo = [t for t in lo if t is not H and not contains(H, lambda q: q is t)]
        lo = [t for t in lo if not any(q is not t and contains(q, lambda z: z is t) for q in lo)]
        if len(lo) != 1:
            part = [t for t in subterms(x) if t.op == "lout" and t.a[2].op not in ("num", "iter", "vec") and t.a[3].op == "poly" and not contains(H, lambda q: q is t)]
            if part: ctx.bad(f + " is the mean over the hits", ew, "the sum starts from %s" % show(part[0].a[2], 4)); continue
            ctx.ob(f + " is the mean over the hits", False if x.op in ("num", "fld") or free(x) and not lo else None, ew, "is %s" % show(x, 6)); continue
        ids2, val = summed(lo[0])
        L = W.loop(ids2[0]) if len(ids2) == 1 else None
        k = numeq(subst(x, lambda t: sym("SUM") if t is lo[0] else sym("N") if t.op == "size" and strip_all_casts(t.a[0]) is H else None), div(sym("SUM"), sym("N")))
        ctx.ob(f + " is divided by the number of hits", k, ew, "is %s" % show(x, 4))
        val = strip_all_casts(val)
        good = val.op == "fld" and val.a[0].op == "sel" and strip_all_casts(val.a[0].a[0]) is H and L is not None and val.a[0].a[1] is L.ctr
        wr = weighed(val)
        ctx.ob(f + " adds up the same attribute of the hits", True if good and val.a[1] == hf else False if good or val.op == "fld" or wr is not None and wr.op == "fld" else None, ew, "adds up %s" % show(val, 4))
        full = loopfull(L, raw("size", H)) if L is not None else None
        if full is not True and L is not None and L.trip is not None and strip_all_casts(L.trip).op == "size" and strip_all_casts(strip_all_casts(L.trip).a[0]) is H: full = not L.breaks
        ctx.ob(f + " adds up over all the hits", full, ew, "")


def notempty(W, t):
    """a condition that only says there is a first target"""
    t = strip_all_casts(t)
    sz = [x for x in subterms(t) if x.op == "size"]
    return len(sz) == 1 and sz[0].a[0].op == "fld" and sz[0].a[0].a[1] == "_observations" and (t.op == "not" and t.a[0].op == "eq0" and t.a[0].a[0] is sz[0] or t is raw("lt0", sz[0]))


def fieldish(ev, a):
    try: t = fieldof(ev, a, "event_start_seconds")
    except Exception: return False
    return contains(t, lambda x: x.op == "call" and str(x.a[0]).split("<")[0] == "bliss::scan::tstart")


def samescans(W, t):
    """is t the scans of the first target?"""
    t = W.init(strip_all_casts(t))
    if t.op == "lout": t = W.init(t.a[2])
    if t.op == "fld" and t.a[1] == "_scans":
        o = W.init(t.a[0])
        if o.op == "sel" and o.a[1] is num(0):
            c = W.init(o.a[0])
            return c.op == "fld" and c.a[1] == "_observations"
    return False


def listsame(W, a, b):
    a, b = strip_all_casts(a), strip_all_casts(b)
    if a is b: return True
    def core(t):
        """the list a variable stands for, whatever loop it is seen in"""
        while True:
            if t.op == "iter" and t.id in W.it:
                L, k = W.it[t.id]
                i = L.init.get(k)
                if i is None or i is t: return t
                # an unchanged variable is the same list in every iteration
                if L.next.get(k) is t: t = i; continue
                return t
            return t
    a, b = core(a), core(b)
    if a is b: return True
    if a.op == "sel" and b.op == "sel" and a.a[1] is b.a[1]:
        return listsame(W, a.a[0], b.a[0])
    return False


def calls(t):
    return t.op == "call" and str(t.a[0]).split("<")[0].endswith(("distance_func", "hit_distance::operator()"))


def elsewhere(ctx, W, offs, H, ew, obs, F):
    ids, c = offs
    ds = [t for t in subterms(c) if t.op == "lout" and summed(t) is not None and summed(t)[1].op == "call"]
    last = [t for t in subterms(c) if t.op == "lout" and t.a[3].op == "call" and str(t.a[3].a[0]).split("<")[0].endswith(("distance_func", "hit_distance::operator()"))]
    if not ds and last: ctx.bad("a hit elsewhere counts when its mean distance to the event's hits is below 50", ew, "only the last distance counts"); return
    odd = [t for t in subterms(c) if t.op == "lout" and summed(t) is not None and weighed(summed(t)[1]) is not None and calls(weighed(summed(t)[1]))]
    if odd and not ds: ctx.bad("a hit elsewhere counts when its mean distance to the event's hits is below 50", ew, "the distances are added as %s" % show(summed(odd[0])[1], 5)); return
    if len(ds) != 1: ctx.unknown("how far a hit elsewhere is", ew, show(c, 7)); return
    sid, d = summed(ds[0])
    if not str(d.a[0]).split("<")[0].endswith(("distance_func", "hit_distance::operator()")): ctx.unknown("how far a hit elsewhere is", ew, show(d)); return
    ats = list(batoms(c).values())
    at = [x for x in ats if contains(x, lambda t: t is ds[0])]
    other = [x for x in ats if not contains(x, lambda t: t is ds[0])]
    x = strip_all_casts(at[0]) if len(at) == 1 else None
    r = None
    if x is not None and x.op == "lt0":
        p = subst(x.a[0], lambda t: sym("SUM") if t is strip_all_casts(ds[0]) or t is ds[0] else sym("N") if t.op == "size" and strip_all_casts(t.a[0]) is H else None)
        p = strip_all_casts(p)
        w1 = sub(num(LIMIT), div(sym("SUM"), sym("N")))
        w2 = sub(scale(sym("N"), Fraction(LIMIT)), sym("SUM"))
        r = True if p is w1 or p is w2 else False if not contains(p, lambda t: t.op in ("lout", "iter")) else None
        if bval(c, {i: (True if t is at[0] else True) for i, t in batoms(c).items()}) is False: r = False
    ctx.ob("a hit elsewhere counts when its mean distance to the event's hits is below 50", r, ew, "counts when %s" % show(x, 6) if x is not None else "")
    args = [strip_all_casts(y) for y in d.a[1:] if isinstance(y, T)][-2:]
    eh = [y for y in args if y.op == "sel" and strip_all_casts(y.a[0]) is H]
    oh = [y for y in args if y.op == "sel" and y not in eh]
    if len(eh) != 1 or len(oh) != 1: ctx.unknown("hits elsewhere are compared with the event's", ew, [show(y, 4) for y in args]); return
    Ls = isctr(W, eh[0].a[1])
    if Ls is not None and Ls.id in sid: ctx.ob("the mean is over all hits of the event", (strip_all_casts(Ls.trip).op == "size" and strip_all_casts(strip_all_casts(Ls.trip).a[0]) is H and not Ls.breaks) if Ls.trip is not None else None, ew, "")
    sc = W.hits(oh[0].a[0])
    Lh = isctr(W, oh[0].a[1])
    if Lh is not None:
        r = loopfull(Lh, raw("size", oh[0].a[0]))
        ctx.ob("every hit of a scan elsewhere is looked at", r if r is not True or Lh.id in ids else None, ew, "")
    if sc is None: ctx.unknown("scans of the other targets", ew, show(oh[0], 6)); return
    if len(sc) != 1: ctx.unknown("scans of the other targets", ew, "%d sources" % len(sc)); return
    o, n, cs = sc[0]
    # the scans listed: loop over them in turn
    inner = strip_all_casts(oh[0].a[0])
    cs = list(cs) + other
    Lo, Ln = isctr(W, o), isctr(W, n)
    excl = eq(o, num(0))
    one = isctr(W, sub(o, num(1)))
    if one is not None and one.trip is not None:
        # targets 1, 2, ...
        ctx.ob("scans of the first target are not looked at again, those of all others are", True if not cs else None, ew, "")
        ctx.ob("scans of all other targets", loopfull(one, sub(raw("size", obs), num(1))), ew, "for %s" % show(one.trip))
        Lo = one
        if Ln is not None: ctx.ob("all scans of another target", loopfull(Ln, raw("size", raw("fld", raw("sel", obs, o), "_scans"))), ew, "for %s" % (show(Ln.trip) if Ln.trip is not None else "?"))
        return
    if Lo is None: 
        ctx.ob("scans of all other targets", False if isnum(o) else None, ew, "target %s" % show(o)); return
    first = None
    conds = [t for c_ in cs for t in ([c_] if c_.op != "and" else c_.a)]
    conds = [strip_all_casts(t) for t in conds]
    base = Lo.ctr
    n_obs = raw("size", obs)
    full = loopfull(Lo, n_obs)
    if [t for t in conds if t is strip_all_casts(lnot(excl))] and len(conds) == 1: first = True
    elif not conds: first = False
    elif len(conds) == 1 and conds[0].op in ("lt0",) and sub(conds[0].a[0], o) is num(0): first = True
    elif len(conds) == 1 and mentions(conds[0], o) and free(conds[0]): first = False
    elif any(not contains(t, lambda q: q.op in ("call", "unk", "undef", "icall", "exists")) and t is not strip_all_casts(lnot(excl)) and not (t.op == "lt0" and sub(t.a[0], o) is num(0)) for t in conds): first = False
    ctx.ob("scans of the first target are not looked at again, those of all others are", first, ew, "when %s" % [show(t) for t in conds])
    ctx.ob("scans of all other targets", full, ew, "for %s" % (show(Lo.trip) if Lo.trip is not None else "?"))
    if Ln is not None: ctx.ob("all scans of another target", loopfull(Ln, raw("size", raw("fld", raw("sel", obs, o), "_scans"))), ew, "for %s" % (show(Ln.trip) if Ln.trip is not None else "?"))
    elif isnum(n): ctx.bad("all scans of another target", ew, "only scan %s of each" % show(n))
    # the walk over the list of those scans
    lst = inner.a[1] if inner.op == "call" and len(inner.a) > 1 else None
    if lst is not None and strip_all_casts(lst).op == "sel":
        y = strip_all_casts(lst)
        L = isctr(W, y.a[1])
        if L is not None and L is not Ln:
            r = loopfull(L, raw("size", y.a[0]))
            ctx.ob("every scan elsewhere is looked at", r if r is not True or L.id in ids else None, ew, "")


def distance(ctx, P):
    F = get(ctx, P, "distance_func")[0]
    ev, v = go(ctx, P, F)
    w = F.where()
    if v is None: ctx.unknown("distance of two hits", w, ""); return
    a, b = (sym(p["n"]) for p in F.params)
    f = lambda h, n: raw("fld", h, n)
    da, db = f(a, "drift_rate_Hz_per_sec"), f(b, "drift_rate_Hz_per_sec")
    ta, tb = f(a, "start_time_sec"), f(b, "start_time_sec")
    ea, eb = add(ta, f(a, "duration_sec")), add(tb, f(b, "duration_sec"))
    mid = scale(add(tmin(ta, tb), tmax(ea, eb)), Fraction(1, 2))
    fa = add(scale(f(a, "start_freq_MHz"), Fraction(10**6)), mul(da, sub(mid, ta)))
    fb = add(scale(f(b, "start_freq_MHz"), Fraction(10**6)), mul(db, sub(mid, tb)))
    dd = div(tabs(sub(da, db)), add(num(Fraction(1, 10**8)), mul(da, da), mul(db, db)))
    want = add(scale(tabs(sub(fa, fb)), Fraction(1, 100)), scale(mul(dd, dd), Fraction(10)))
    r = numeq(v, want)
    ctx.ob("distance of two hits", r, w, "is %s" % show(v, 12))
    sw = subst(v, lambda t: sym("B!") if t is a else sym("A!") if t is b else None)
    sw = subst(sw, lambda t: b if t is sym("B!") else a if t is sym("A!") else None)
    ctx.ob("the distance of two hits does not depend on their order", numeq(v, sw), w, "")
    # the cache
    F = get(ctx, P, "hit_distance::operator()")[0]
    ev, v = go(ctx, P, F, inline=but("distance_func"), this=THIS)
    p, q = (sym(x["n"]) for x in F.params)
    calls = [e for e in ev.effects if e.kind == "call" and e.qn and e.qn.endswith("distance_func")]
    for e in calls:
        r = [strip_all_casts(x) for x in e.args]
        ctx.ob("the distance asked for is computed", True if {r[0].id, r[1].id} == {p.id, q.id} else False if all(free(x) for x in r) else None, e.where(), "of %s and %s" % (show(r[0]), show(r[1])))
    ks = list(dict.fromkeys(strip_all_casts(t.a[1]) for t in subterms(v) if t.op == "find")) if v is not None else []
    for k in ks:
        two = [strip_all_casts(x).id for x in k.a if isinstance(x, T)] if k.op in ("pair", "tuple") else None
        ctx.ob("a distance is looked up under both hits", set(two) == {p.id, q.id} if two else None, F.where(), "under %s" % show(k, 4))
    ok = v is not None
    bad = None
    for c, x in cases(v) if v is not None else []:
        x = strip_all_casts(x)
        if calls and any(x is strip_all_casts(e.term) for e in calls): continue
        if x.op == "sel" or x.op == "call":
            key = x.a[1] if x.op == "sel" else x.a[-1]
            fs = [t for t in subterms(land(*c)) if t.op == "find"] if c else []
            hit = any(strip_all_casts(t.a[1]) is strip_all_casts(key) for t in fs)
            if hit: continue
            ok = None
            continue
        ok = None
    ctx.ob("a remembered distance is that of the pair asked for", ok, F.where(), "returns %s" % show(v, 6) if v is not None else "")
    wr = [e for e in ev.effects if e.kind == "write" and e.loc[1] and any(p.op == "i" for p in e.loc[1])]
    for e in wr:
        key = strip_all_casts([z.a[0] for z in e.loc[1] if z.op == "i"][-1])
        val = strip_all_casts(e.val)
        fs = [t for t in subterms(v) if t.op == "find"]
        ctx.ob("the distance is remembered under its pair", True if any(strip_all_casts(t.a[1]) is key for t in fs) and any(val is strip_all_casts(c.term) for c in calls) else False if free(key) and free(val) else None, e.where(), "%s under %s" % (show(val, 4), show(key, 4)))


def cases(t):
    if t.op == "ite": return [((t.a[0],) + c, x) for c, x in cases(t.a[1])] + [((lnot(t.a[0]),) + c, x) for c, x in cases(t.a[2])]
    return [((), t)]


# ------------------------------------------------------------------ the order of the cache's keys, over abstract hits
class Odd(Exception): pass


def interp(t, env):
    """value of a boolean term over hits (integers) and pairs of hits"""
    return interp1(strip_all_casts(t), env)


def interp1(t, env):
    if t.id not in env: env[t.id] = interp2(t, env)
    return env[t.id]


def interp2(t, env):
    o = t.op
    if o == "num": return t.a[0]
    if o == "and": return all(interp1(k, env) for k in t.a)
    if o == "or": return any(interp1(k, env) for k in t.a)
    if o == "not": return not interp1(t.a[0], env)
    if o == "ite": return interp1(t.a[1 if interp1(t.a[0], env) else 2], env)
    if o == "fld" and t.a[1] in ("first", "second"): return interp1(t.a[0], env)[0 if t.a[1] == "first" else 1]
    if o == "pair" or o == "tuple": return tuple(interp1(k, env) for k in t.a)
    if o == "ord<": return interp1(t.a[0], env) < interp1(t.a[1], env)
    if o == "min": return min(interp1(k, env) for k in t.a)
    if o == "max": return max(interp1(k, env) for k in t.a)
    if o == "call":
        qn = str(t.a[0]).split("<")[0]
        if str(t.a[0]).startswith("std::operator<") or str(t.a[0]).startswith("bliss::hit::operator<"): qn = "lt"
        a = [interp1(k, env) for k in t.a[1:] if isinstance(k, T)]
        if qn == "lt" and len(a) == 2: return a[0] < a[1]
        if qn == "bliss::hit::operator==": return a[0] == a[1]
        if qn == "std::minmax" and len(a) == 2: return (min(a), max(a))
        if qn in ("std::make_pair", "std::tie", "std::make_tuple"): return tuple(a)
    if o == "tie": return tuple(interp1(k, env) for k in t.a)
    if o == "eq0":
        d = pdict(t.a[0])
        if len(d) == 2 and sorted(d.values()) == [-1, 1] and all(len(m) == 1 for m in d): return interp1(list(d)[0][0], env) == interp1(list(d)[1][0], env)
        return sum(float(c) * interp1(m[0], env) for m, c in d.items() if len(m) == 1) + float(d.get((), 0)) == 0
    if o in ("lt0", "le0"):
        d = pdict(t.a[0])
        if any(len(m) > 1 for m in d): raise Odd
        x = sum(float(c) * interp1(m[0], env) for m, c in d.items() if m) + float(d.get((), 0))
        return x > 0 or o == "le0" and x == 0
    if o in ("new", "ref", "deref", "cast") and len(t.a) >= 1 and isinstance(t.a[-1], T): return interp1(t.a[-1], env)
    raise Odd


def order(ctx, P):
    fs = P.byqn.get("hit_distance::hit_pair_comparator::operator()", [])
    if not fs:
        ctx.unknown("order of the remembered pairs", "", "no comparator"); return
    F = fs[0]
    ev, v = go(ctx, P, F, inline=but("::hit::operator==", "hit::operator<"), this=THIS)
    if v is None: ctx.unknown("order of the remembered pairs", F.where(), ""); return
    p, q = (sym(x["n"]) for x in F.params)
    import itertools
    pairs = list(itertools.product(range(3), repeat=2))
    lt_ = {}
    try:
        for x in pairs:
            for y in pairs: lt_[x, y] = bool(interp(v, {p.id: x, q.id: y}))
    except (Odd, KeyError, TypeError, IndexError):
        ctx.unknown("order of the remembered pairs", F.where(), "is %s" % show(v, 5)); return
    bad = None
    for x in pairs:
        if lt_[x, x]: bad = "%s is before itself" % (x,)
    for x, y, z in itertools.product(pairs, repeat=3):
        if bad: break
        if lt_[x, y] and lt_[y, z] and not lt_[x, z]: bad = "%s is before %s, and that before %s, but not the first before the last" % (x, y, z)
        elif not (lt_[x, y] or lt_[y, x] or lt_[y, z] or lt_[z, y]) and (lt_[x, z] or lt_[z, x]): bad = "%s equals %s, and that %s, but not the first the last" % (x, y, z)
    ctx.ob("the remembered pairs are strictly ordered", bad is None, F.where(), bad or "")
    mix = [(x, y) for x in pairs for y in pairs if not lt_[x, y] and not lt_[y, x] and tuple(sorted(x)) != tuple(sorted(y))]
    ctx.ob("two different pairs are not taken for one", not mix, F.where(), "hits numbered %s and %s" % mix[0] if mix else "")


def check(ctx):
    P = ctx.program("bliss/drift_search/event_search")
    search(ctx, P)
    distance(ctx, P)
    order(ctx, P)


if __name__ == "__main__": main("C21", RULE, check, 12)
