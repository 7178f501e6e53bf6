import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.rules import *
from fractions import Fraction

RULE = ("the condition under which a hit is taken off the list has the decision table: filter-rolloff count above 0, or low-kurtosis count above 0, or zero-drift filtering asked for "
        "and |drift rate| < 1e-6; the walk over the list goes on with the hit after the one removed or kept, from the first to the end; the channel form filters the channel's hits and "
        "stores the result, and throws without hits")
Q = "bliss::filter_hits"
ROLL, LOWSK = 1, 2
WANT = "rolloff", "lowsk", "zero", "still"


def classify(a, opt):
    """(name, polarity, fault) of an atomic condition on the hit looked at"""
    x = strip_all_casts(a)
    if x.op in ("fld",) and x.a[1] == "filter_zero_drift": return "zero", True, None
    if x.op in ("lt0", "eq0"):
        p = x.a[0]
        d = pdict(p)
        if p.op != "poly" and not isnum(p): d = {(p,): Fraction(1)}
        k = d.get((), Fraction(0))
        rest = {m: c for m, c in d.items() if m}
        if len(rest) != 1: return None
        (m, c), = rest.items()
        if len(m) != 1: return None
        t = strip_all_casts(m[0])
        if t.op == "sel" and t.a[0].op == "fld" and t.a[0].a[1] == "rfi_counts" and isnum(t.a[1]):
            n = {ROLL: "rolloff", LOWSK: "lowsk"}.get(int(t.a[1].a[0]))
            nm = n or "flag %s" % t.a[1].a[0]
            # counts are whole numbers >= 0
            if x.op == "eq0": return (nm, False, None) if k == 0 else (nm, False, "compares with %s" % (-k / c))
            lim = -k / c                       # c>0: t > lim ; c<0: t < lim
            if c > 0: return (nm, True, None) if 0 <= lim < 1 else (nm, True, "only counts above %s matter" % lim)
            return (nm, False, None) if 0 < lim <= 1 else (nm, False, "only counts from %s matter" % lim)
        if t.op == "abs":
            y = strip_all_casts(t.a[0])
            if y.op == "fld" and y.a[1] == "drift_rate_Hz_per_sec":
                if x.op == "eq0": return None
                lim = -k / c
                ok = abs(lim - Fraction(1, 10**6)) < Fraction(1, 10**9)
                return "still", c < 0, None if ok else "the limit is %s" % float(lim)
            return "still", c < 0, "looks at %s" % show(y)
        if t.op == "fld" and t.a[1] == "drift_rate_Hz_per_sec" and x.op == "lt0": return "still", c < 0, "looks at the sign of the drift rate"
    if x.op == "fld" and x.a[0].op == "fld" or x.op == "sel": return None
    return None


def element(t):
    """the hit looked at, by one name"""
    def f(x):
        if x.op == "sel" and x.a[1].op in ("iter", "ctr") and (x.a[0].op == "iter" or x.a[0].op == "sym"): return sym("HIT")
        return None
    return subst(t, f)


def decide(ctx, key, cond, w, remove=True):
    """cond: condition to remove (or to keep) a hit"""
    cond = element(cond)
    names, odd = {}, []
    for i, a in batoms(cond).items():
        c = classify(a, None)
        if c is None: odd.append(a); continue
        names[i] = (c[0], c[1])
        if c[2]: ctx.bad(key + ": condition on " + c[0], w, c[2])
    tb = btable(cond, names)
    if tb is None: ctx.unknown(key + ": which hits are removed", w, ""); return
    if odd and not all(free(a) or a.op == "iter" for a in odd): ctx.unknown(key + ": which hits are removed", w, "depends on %s" % [show(a) for a in odd]); return
    bad = []
    for env, got in tb.items():
        e = dict(env)
        have = {n: e.get(n) for n in WANT}
        missing = [n for n in WANT if have[n] is None]
        import itertools
        for vs in itertools.product((False, True), repeat=len(missing)):
            h = dict(have, **dict(zip(missing, vs)))
            want = h["rolloff"] or h["lowsk"] or (h["zero"] and h["still"])
            if got != {want == remove}: bad.append((h, want))
    ctx.ob(key + ": which hits are removed", not bad, w, "" if not bad else "a hit with %s is %s" % (", ".join("%s=%s" % (n, int(v)) for n, v in bad[0][0].items()), "kept" if bad[0][1] else "removed"))


def walk(ctx, ev, e, w):
    """the loop around an erase visits every element"""
    if len(e.loops) != 1: return None
    L = e.loops[0]
    arg = strip_all_casts(e.args[0])
    while arg.op == "new" and len(arg.a) == 2: arg = strip_all_casts(arg.a[1])
    if arg.op == "itr" and arg.a[1] is L.ctr and "::list::" in e.qn:
        # erase(it++): the iterator is past the element before that is taken off
        ctx.ob("the walk goes to the end", False if L.breaks else True if L.cond is not None and contains(L.cond, lambda t: t.op == "size") else None, w, "")
        return
    if arg.op != "itr" or arg.a[1].op != "iter": ctx.unknown("every hit is looked at", w, show(arg)); return
    cur = [k for k in L.iter if L.iter[k] is arg or contains(L.iter[k], lambda x: x is arg.a[1]) or arg.a[1] is L.iter[k]]
    i = arg.a[1]
    keys = [k for k in L.init if L.next.get(k) is not None and L.init[k].op == "itr"]
    ctx.ob("the walk starts at the first hit", True if any(L.init[k].a[1] is num(0) for k in keys) else False if keys and all(isnum(L.init[k].a[1]) for k in keys) else None, w, "")
    for k in keys:
        nx = L.next[k]
        er = [x for c, x in cases(nx) if contains(x, lambda t: t is e.term)]
        kp = [x for c, x in cases(nx) if not contains(x, lambda t: t is e.term)]
        def nxt(x):
            x = strip_all_casts(x)
            return True if x.op == "itr" and sub(x.a[1], i) is num(1) else False if x.op == "itr" and isnum(sub(x.a[1], i)) else None
        for x in kp: ctx.ob("a hit that is kept is followed by the next", nxt(x), w, "goes on with %s" % show(x))
        for x in er:
            x = strip_all_casts(x)
            r = True if x is e.term else False if x.op in ("itr", "itnext") and contains(x, lambda t: t is e.term) else None
            if r is None and x.op == "itr": r = None
            ctx.ob("a hit that is removed is followed by the next", r, w, "goes on with %s" % show(x))
        if not er: ctx.ob("a hit that is removed is followed by the next", None, w, "")
    g = L.cond
    size = g is not None and contains(g, lambda t: t.op == "size") and contains(g, lambda t: t is i)
    ctx.ob("the walk goes to the end", (False if L.breaks else True) if size and strip_all_casts(g).op == "not" or size and g.op == "lt0" else None, w, "the loop is left early" if L.breaks else "")


def cases(t):
    if t.op == "ite": return [((t.a[0],) + c, x) for c, x in cases(t.a[1])] + [((lnot(t.a[0]),) + c, x) for c, x in cases(t.a[2])]
    return [((), t)]


def check(ctx):
    P = ctx.program("bliss/drift_search/filter_hits")
    lf = get(ctx, P, Q, lambda f: "list" in f.params[0]["t"].s or "vector" in f.params[0]["t"].s)
    for F in lf:
        ev, v = go(ctx, P, F)
        nm = F.params[0]["n"]
        er = [e for e in ev.effects if e.kind == "call" and e.qn and e.qn.split("::")[-1] in ("erase", "remove_if", "erase_if", "push_back", "emplace_back")]
        w = F.where()
        kinds = {e.qn.split("::")[-1] for e in er}
        if kinds == {"erase"} and er[0].loops:
            conds = [land(*extra_conds(e)) for e in er]
            decide(ctx, "filter", lor(*conds), er[0].where())
            for e in er: walk(ctx, ev, e, e.where())
            rv = strip_all_casts(v) if v is not None else None
            good = rv is not None and rv.op == "lout" and all(rv.a[0] == e.loops[0].id for e in er)
            ctx.ob("the filtered list is returned", True if good else False if rv is sym(nm) else None, w, "returns %s" % show(rv) if rv is not None else "")
        elif kinds & {"remove_if", "erase_if"}:
            e = [x for x in er if x.qn.split("::")[-1] in ("remove_if", "erase_if")][0]
            l = [x for a in e.args for x in lams(a)]
            if len(l) == 1:
                r, _ = runlam(ev, l[0], F, [sym("HIT")])
                if r is not None: decide(ctx, "filter", truth(r), e.where())
                else: ctx.unknown("filter: which hits are removed", e.where(), "")
            else: ctx.unknown("filter: which hits are removed", e.where(), "")
        elif kinds <= {"push_back", "emplace_back"} and er:
            decide(ctx, "filter", lor(*[land(*extra_conds(e)) for e in er]), er[0].where(), remove=False)
            for e in er:
                x = strip_all_casts(e.args[0])
                L = e.loops[-1] if e.loops else None
                ctx.ob("every hit is looked at", loopfull(L, raw("size", sym(nm))) if L is not None and len(e.loops) == 1 else None, e.where(), "")
                ctx.ob("a kept hit is the hit looked at", True if x.op == "sel" and x.a[0] is sym(nm) and L is not None and x.a[1] is L.ctr else None, e.where(), "")
        else: ctx.ob("filter: which hits are removed", None, w, "form not recognised: %s" % sorted(kinds))
    for F in get(ctx, P, Q, lambda f: f.params[0]["t"].s.endswith("coarse_channel")):
        ev, v = go(ctx, P, F, inline=but("coarse_channel::hits", "coarse_channel::set_hits", "coarse_channel::has_hits", Q), pure=("bliss::coarse_channel::has_hits", "bliss::coarse_channel::hits"))
        st = [e for e in ev.effects if e.kind == "call" and e.qn == "bliss::coarse_channel::set_hits"]
        cc = sym(F.params[0]["n"])
        w = F.where()
        ctx.ob("channel: the hits are replaced", len(st) == 1 if st or v is not None and free(v) else None, w, "")
        for e in st:
            a = strip_all_casts(e.args[0])
            inner = a.op == "call" and a.a[0].split("<")[0] == Q
            h = strip_all_casts(a.a[1]) if inner else None
            ctx.ob("channel: by the filtered hits of the channel", True if inner and h.op == "call" and h.a[0] == "bliss::coarse_channel::hits" and contains(h, lambda x: x is cc) else False if free(a) and not inner else None, e.where(), "stores %s" % show(a))
            if inner: ctx.ob("channel: with the caller's options", eqf(a.a[2], sym(F.params[1]["n"])), e.where(), "with %s" % show(a.a[2]))
            x = extra_conds(e)
            ctx.ob("channel: whenever it has hits", all(strip_all_casts(c).op == "call" and strip_all_casts(c).a[0].endswith("::has_hits") for c in x) if all(free(c) for c in x) else None, e.where(), "only if %s" % [show(c) for c in x])
            ctx.ob("channel: the channel is returned", True if v is not None and contains(v, lambda t: t is e.term) else False if v is not None and free(v) else None, w, "")
        th = [e for e in ev.effects if e.kind == "throw"]
        good = None
        for e in th:
            x = [strip_all_casts(c) for c in extra_conds(e)]
            if len(x) == 1 and x[0].op == "not" and "has_hits" in show(x[0]): good = True
        ctx.ob("channel: without hits it throws", good if th else False if st else None, w, "a channel without hits is accepted")


if __name__ == "__main__": main("C18", RULE, check, 4)
