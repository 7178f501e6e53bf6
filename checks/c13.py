import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.rules import *
from vlib import rules as RR
from vlib.ev import F as F_

RULE = ("for each way to estimate (array or channel, masked or not, each method) the estimate's noise floor is the mean and its noise power the deviation that one call of the (masked) statistic returns for "
        "exactly the data given and, if masked, that channel's own mask; every field of an estimate that is returned is set; a masked estimate is refused exactly if no sample is unflagged; getters return what "
        "their setters stored, the amplitude the root of the power; the transform of a scan stores the estimate of the channel it is given in that channel; spectral kurtosis is, over array operations as algebra, "
        "(MNd+1)/(M-1) (M S2/S1^2 - 1) with S1 the sum and S2 the sum of squares over time")
Q = "bliss::estimate_noise_power"
IN = lambda d: (B(d) or d.qn.startswith("detail::")) and not d.qn.startswith("bliss::coarse_channel::") and not d.qn.startswith("bland::")


def core(t):
    """the object a value is a later state of"""
    t = strip_all_casts(t)
    while t.op in ("upd", "rec", "deref", "ref", "out"):
        if t.op == "rec" and any("_data" in str(pv.a[0]) or "_mask" in str(pv.a[0]) for pv in t.a[1:] if pv.op == "pv"): return t
        t = strip_all_casts(t.a[0])
    return t


def name(t): return t.a[0].split("<")[0] if t.op == "call" else None


def arr(t):
    """an array value without wrappers that keep its elements"""
    t = strip_all_casts(t)
    while True:
        if t.op == "new" and str(t.a[0]).split("<")[0] in ("bland::ndarray", "bland::ndarray_deferred") and len(t.a) == 2: t = strip_all_casts(t.a[1])
        elif t.op in ("deref", "ref"): t = strip_all_casts(t.a[0])
        elif t.op == "call" and ("operator bland::ndarray" in t.a[0] or name(t) in ("bland::copy", "bland::ndarray_deferred::operator ndarray")) and len(t.a) == 2: t = strip_all_casts(t.a[1])
        else: return t


def plain(t):
    """later states of an object taken for the object: for judging whether a value is understood"""
    return subst(t, lambda x: core(x) if x.op in ("upd", "out") else None)


def whose(t, what, cc):
    """is t the `what` (data, mask) of the channel cc?  True/False/None"""
    t = arr(t)
    if t.op == "call" and name(t) == "bliss::coarse_channel::" + what:
        o = strip_all_casts(t.a[1])
        while o.op in ("upd", "rec", "deref", "ref", "out"):
            if o.op == "rec":
                for pv in o.a[1:]:
                    if ("_" + what) in show(pv): return whose(pv.a[-1], what, cc)
            o = strip_all_casts(o.a[0])
        return True if o is cc else False if free(o) else None
    return False if free(plain(t)) else None


def stat(ctx, key, v, masked, data, mask, w):
    """v: the estimate returned; data/mask: predicates"""
    if v is None: ctx.unknown(key, w, "no value"); return
    v = strip_all_casts(v)
    fl = {}
    ev = Evaluator
    for f in ("_noise_floor", "_noise_power"):
        x = EV.rec_get(v, (F_(f),)) if hasattr(EV, "rec_get") else None
        fl[f] = arr(x) if x is not None else None
    for f, part, nm in (("_noise_floor", "first", "the mean"), ("_noise_power", "second", "the deviation")):
        x = fl[f]
        k = "%s: %s" % (key, f[1:].replace("_", " "))
        if x is None: ctx.unknown(k, w, "is %s" % show(v, 6)); continue
        alts = [x]
        if x.op == "new" and len(x.a) == 1: ctx.bad(k + " is set", w, "an estimate without any value is returned"); continue
        if contains(x, lambda y: y.op == "undef"): ctx.unknown(k, w, "is %s" % show(x, 8)); continue
        one = single(x)
        if one is None: ctx.unknown(k, w, "is %s" % show(x, 8)); continue
        kind, msk, args = one
        ctx.ob(k + " is " + nm, kind == part, w, "is %s" % show(x, 8))
        ctx.ob(k + (" over the unflagged samples" if masked else " over all samples"), msk == masked, w, "is %s" % show(x, 8))
        ctx.ob(k + " of the data given", data(args[0]), w, "of %s" % show(args[0], 8))
        if msk and masked: ctx.ob(k + " by the channel's mask", mask(args[1]), w, "by %s" % show(args[1], 8))
        ax = args[2 if msk else 1] if len(args) > (2 if msk else 1) else None
        if ax is not None: ctx.ob(k + " over every axis", True if ax.op == "vec" and len(ax.a) == 0 else None if not free(ax) else False, w, "over %s" % show(ax))


def single(x):
    """(first|second, masked, args) of a part of a statistic"""
    if x.op == "fld" and x.a[1] in ("first", "second"): b, p = strip_all_casts(x.a[0]), x.a[1]
    elif x.op == "call" and name(x) in ("bland::mean", "bland::stddev", "bland::masked_mean", "bland::masked_stddev"):
        return ("first" if name(x).endswith("mean") else "second"), "masked" in name(x), [a for a in x.a[1:]]
    elif x.op == "call" and name(x) in ("bland::var", "bland::masked_var"): return "variance", "masked" in name(x), [a for a in x.a[1:]]
    else: return None
    if b.op != "call" or name(b) not in ("bland::mean_stddev", "bland::masked_mean_stddev"): return None
    return p, name(b) == "bland::masked_mean_stddev", list(b.a[1:])


EV = None


def assume(t, opt, masked, method):
    """t with the options fixed"""
    m, k = raw("fld", opt, "masked_estimate"), raw("fld", opt, "estimator_method")
    t = subst(t, lambda x: num(masked) if x is m else num(method) if x is k else None)
    def f(x):
        if x.op == "ite":
            c = fold(x.a[0])
            if c is not None: return subst(x.a[1 if c else 2], f)
        return None
    return subst(t, f)


def fold(c):
    c = strip_all_casts(c)
    if batoms(c):
        env = {}
        for i, a in batoms(c).items():
            a = strip_all_casts(a)
            if a.op in ("eq0", "lt0") and isnum(a.a[0]): env[i] = a.a[0].a[0] == 0 if a.op == "eq0" else a.a[0].a[0] > 0
            else: return None
        return bval(c, env)
    try: return bval(c, {})
    except KeyError: return None


def allflagged(pc, mask):
    """do these conditions hold exactly if no sample is unflagged?  counts over n samples, u of them unflagged"""
    conds = [strip_all_casts(c) for c in pc]
    parts = {}
    for c in conds:
        for x in subterms(c):
            if x.op == "call" and name(x) == "bland::count_true":
                a = arr(x.a[1])
                if a.op == "call" and name(a).startswith("bland::") and "operator" in name(a) and len(a.a) == 3:
                    op = a.a[0].split("operator")[1].split("<bland")[0].split("<int")[0].split("<unsigned")[0]
                    if mask(a.a[1]) is not True or not isnum(a.a[2]): return mask(a.a[1])
                    if a.a[2].a[0] != 0: return None if op not in ("==", "!=") else False
                    if op == "==": parts[x.id] = "u"
                    elif op in ("!=", ">"): parts[x.id] = "f"
                    else: return None
                elif a.op == "call" and name(a).split("::")[-1] in ("equal_to", "equal", "not_equal", "greater_than") : return None
                elif mask(a) is True: parts[x.id] = "f"
                else: return None
            elif x.op == "call" and name(x) in ("bland::ndarray::numel",) : parts[x.id] = "n"
            elif x.op == "call" and name(x) == "bland::ndarray::size" and isnum(x.a[-1]) and x.a[-1].a[0] in (0, 1): parts[x.id] = str(int(x.a[-1].a[0]))
    if not parts: return None
    for a in range(1, 4):
        for b in range(1, 4):
            n = a * b
            for u in range(0, n + 1):
                env = {i: float({"u": u, "f": n - u, "n": n, "0": a, "1": b}[p]) for i, p in parts.items()}
                try: got = all(RR._num(c, env, 0) != 0 for c in conds if any(i.id in parts for i in subterms(c)))
                except Exception: return None
                if len(env) != len(parts): return None
                if got != (u == 0): return False
    return True


def estimates(ctx, P):
    global EV
    for F in get(ctx, P, Q):
        t = F.params[0]["t"].s.replace("const ", "").replace("bliss::", "").rstrip(" &")
        if t not in ("bland::ndarray", "coarse_channel"): continue
        x, opt = sym(F.params[0]["n"]), sym(F.params[1]["n"])
        ev, v = go(ctx, P, F, inline=IN)
        EV = ev
        w = F.where()
        chan = t == "coarse_channel"
        data = (lambda a: whose(a, "data", x)) if chan else (lambda a: True if arr(a) is x else False if free(a) else None)
        mask = lambda a: whose(a, "mask", x)
        thr = [e for e in ev.effects if e.kind == "throw"]
        for masked in ((0, 1) if chan else (0,)):
            for method, nm in ((0, "deviation"), (1, "MAD")):
                key = "%s, %s%s" % (t.split("::")[-1], nm, ", masked" if masked else "")
                thrown = [e for e in thr if all(fold(assume(c, opt, masked, method)) is True for c in e.pc if fold(assume(c, opt, masked, method)) is not None) and
                          all(fold(assume(c, opt, masked, method)) is not False for c in e.pc)]
                sure = [e for e in thrown if all(fold(assume(c, opt, masked, method)) is True or not mentions(c, opt) and contains(c, lambda y: y.op == "call" and name(y) == "bland::count_true") for c in e.pc)]
                if method == 1:
                    # refused is as good as an estimate
                    if any(all(fold(assume(c, opt, masked, method)) is True or contains(c, lambda y: y.op == "call" and name(y) == "bland::count_true") for c in e.pc) and len([c for c in e.pc]) >= 1 for e in thrown):
                        un = [e for e in thrown if not any(contains(c, lambda y: y.op == "call" and name(y) == "bland::count_true") and fold(c) is None and allflagged([c], mask) is True for c in e.pc)]
                        if un: ctx.ok(key + ": refused", un[0].where()); continue
                    r = assume(v, opt, masked, method) if v is not None else None
                    if r is None: ctx.unknown(key, w, ""); continue
                    for f in ("_noise_floor", "_noise_power"):
                        y = ev.rec_get(strip_all_casts(r), (F_(f),))
                        y = arr(y) if y is not None else None
                        ctx.ob("%s: %s is set" % (key, f[1:].replace("_", " ")), None if y is None else not (y.op == "new" and len(y.a) == 1), w, "an estimate without any value is returned")
                    continue
                r = assume(v, opt, masked, method) if v is not None else None
                stat(ctx, key, r, bool(masked), data, mask, w)
                if masked:
                    if not thrown: ctx.ob(key + ": refused if no sample is unflagged", False if r is not None and all(y is not None and free(plain(y)) for y in (ev.rec_get(strip_all_casts(r), (F_(f),)) for f in ("_noise_floor", "_noise_power"))) else None, w, "never refused"); continue
                    for e in thrown:
                        pc = [assume(c, opt, masked, method) for c in e.pc]
                        pc = [c for c in pc if fold(c) is not True]
                        ctx.ob(key + ": refused exactly if no sample is unflagged", allflagged(pc, mask) if pc else False, e.where(), "refused under %s" % [show(c, 10) for c in pc])
                else:
                    ctx.ob(key + ": not refused", True if not thrown else None if any(e.pc and any(fold(assume(c, opt, masked, method)) is None for c in e.pc) for e in thrown) else False, w, "refused")


def stored(ctx, P):
    """what setters store is what getters return, the transform of a scan stores the estimate"""
    S = "bliss::noise_stats::"
    q = sym("Q")
    for f, gets in (("noise_floor", ("noise_floor",)), ("noise_power", ("noise_power", "noise_amplitude"))):
        F = get(ctx, P, S + "set_" + f)[0]
        ev = ctx.evaluator(P, inline=B)
        st, loc = holder(B, P, sym("STATS"))
        ev.run(F, args=[q], this=loc, st=st)
        s2 = ev.state
        for g in ("noise_floor", "noise_power", "noise_amplitude"):
            G = [x for x in get(ctx, P, S + g) if not x.params][0]
            e2 = ctx.evaluator(P, inline=B)
            v = e2.run(G, this=loc, st=s2.copy())
            ctx.count("functions_evaluated", 2)
            k = "%s after set_%s" % (g, f)
            if v is None: ctx.unknown(k, G.where(), ""); continue
            v = strip_all_casts(v)
            if g not in gets:
                ctx.ob(k + " is left alone", not mentions(v, q) if free(v) else None, G.where(), "is %s" % show(v)); continue
            root = v.op in ("sqrt",) or v.op == "pow" and isnum(v.a[1]) and float(v.a[1].a[0]) == .5
            inner = strip_all_casts(v.a[0]) if root else v
            y = inner
            if y.op == "call" and name(y) == "bland::ndarray::scalarize":
                y = strip_all_casts(y.a[1])
                while y.op == "call" and name(y) in ("bland::to", "bland::ndarray::to", "bland::ndarray_deferred::to") or y.op in ("deref", "upd"): y = strip_all_casts(y.a[1] if y.op == "call" else y.a[0])
            ctx.ob(k, (y is q and root == (g == "noise_amplitude")) if free(v) else None, G.where(), "is %s" % show(v))
    # the channel
    C = "bliss::coarse_channel::"
    F = get(ctx, P, C + "set_noise_estimate")[0]
    ev = ctx.evaluator(P, inline=B)
    st, loc = holder(B, P, sym("CC"))
    ev.run(F, args=[q], this=loc, st=st)
    G = get(ctx, P, C + "noise_estimate", lambda f: not f.params)[0]
    e2 = ctx.evaluator(P, inline=B)
    v = e2.run(G, this=loc, st=ev.state.copy())
    if v is not None:
        v = strip_all_casts(v)
        while v.op in ("optval", "some") or v.op == "new" and len(v.a) == 2: v = strip_all_casts(v.a[-1])
    ctx.ob("noise estimate of a channel after it is set", True if v is q else None if v is None or not free(v) else False, G.where(), "is %s" % (show(v) if v is not None else None))
    # the transform
    F = get(ctx, P, Q, lambda f: "scan" in f.params[0]["t"].s)[0]
    ADD = "bliss::scan::add_coarse_channel_transform"
    inl = lambda d: B(d) and d.qn not in (ADD, Q, C + "set_noise_estimate") and not d.qn.startswith("bland::")
    ev, v = go(ctx, P, F, inline=inl)
    adds = [e for e in ev.effects if e.kind == "call" and e.qn == ADD]
    if len(adds) != 1 or len(lams(adds[0].args[0])) != 1: ctx.unknown("transform of a scan", F.where(), "%d transforms" % len(adds)); return
    cc = sym("channel")
    r, ef = runlam(ev, lams(adds[0].args[0])[0], F, [cc])
    est = [e for e in ef if e.kind == "call" and e.qn == Q]
    sets = [e for e in ef if e.kind == "call" and e.qn == C + "set_noise_estimate"]
    w = adds[0].where()
    if len(est) != 1: ctx.unknown("transform of a scan estimates once", w, "%d estimates" % len(est)); return
    ctx.ob("transform of a scan stores the estimate in the channel", (len(sets) == 1 and strip_all_casts(sets[0].args[0]) is est[0].term and not extra_conds(sets[0])) if sets or r is not None and free(r) else None, w,
           "%d stores: %s" % (len(sets), [show(s.args[0]) for s in sets]))
    ctx.ob("transform of a scan estimates the channel before it is given the estimate", True if strip_all_casts(est[0].args[0]) is cc else False if free(est[0].args[0]) else None, w, "estimates %s" % show(est[0].args[0]))
    ctx.ob("transform of a scan returns the channel with the estimate", contains(r, lambda x: x.op in ("upd", "call") and contains(x, lambda z: z is est[0].term)) if r is not None and sets else None, w, "returns %s" % show(r))


OPS = {"+": add, "-": sub, "*": mul, "/": div, "add": add, "subtract": sub, "multiply": mul, "divide": div}


def alg(t):
    """array arithmetic as arithmetic of one element"""
    t = arr(t)
    n = name(t)
    if n and n.startswith("bland::"):
        last = n.split("::")[-1]
        o = last[8:] if last.startswith("operator") else last
        if o in OPS and len(t.a) == 3: return OPS[o](alg(t.a[1]), alg(t.a[2]))
        if last == "square" and len(t.a) == 2:
            x = alg(t.a[1]); return mul(x, x)
        if last in ("sum",) and len(t.a) >= 2: return raw("call", "SUM", strip_all_casts(alg(t.a[1])), *[strip_all_casts(x) for x in t.a[2:]])
        if last == "pow" and len(t.a) == 3 and isnum(t.a[2]) and t.a[2].a[0] == 2:
            x = alg(t.a[1]); return mul(x, x)
        return t
    if t.op == "poly":
        def f(x): return alg(x) if x.op == "call" else None
        return subst(t, f)
    return t


def kurtosis(ctx, P):
    q = "bliss::estimate_spectral_kurtosis"
    for F in get(ctx, P, q):
        ev, v = go(ctx, P, F, inline=IN)
        w = F.where()
        key = "kurtosis(%s)" % F.params[0]["n"]
        if v is None: ctx.unknown(key, w, ""); continue
        a = strip_all_casts(alg(v))
        sums = {x.id: x for x in subterms(a) if x.op == "call" and x.a[0] == "SUM"}
        other = [x for x in subterms(a) if x.op == "call" and name(x).startswith("bland::") and name(x) not in ("bland::ndarray::size", "bland::sum")]
        if other: ctx.unknown(key, w, "is made of %s" % name(other[0])); continue
        if not sums and free(a): ctx.bad(key, w, "is %s" % show(a, 12)); continue
        if not sums or not free(a): ctx.unknown(key, w, "is %s" % show(a, 12)); continue
        chan = len(F.params) == 2
        X = None
        for x in subterms(v):
            if chan and x.op == "call" and name(x) == "bliss::coarse_channel::data": X = x
        if not chan: X = sym(F.params[0]["n"])
        if X is None: ctx.unknown(key, w, "is %s" % show(a, 12)); continue
        if chan: ctx.ob(key + " of the channel's data", whose(X, "data", sym(F.params[0]["n"])), w, "of %s" % show(X))
        ax = raw("vec", num(0))
        S1, S2 = raw("call", "SUM", X, ax), raw("call", "SUM", mul(X, X), ax)
        odd = [x for x in sums.values() if x is not S1 and x is not S2]
        d = sym(F.params[-1]["n"])
        if chan:
            cc = sym(F.params[0]["n"])
            M = [x for x in subterms(v) if x.op == "call" and name(x) == "bland::ndarray::size" and isnum(x.a[2]) and x.a[2].a[0] == 0] + [x for x in subterms(v) if x.op == "sel" and x.a[0].op in ("call", "fld") and "shape" in show(x.a[0]) and isnum(x.a[1]) and x.a[1].a[0] == 0] + \
                [x for x in subterms(v) if x.op == "call" and name(x) == "bliss::coarse_channel::ntsteps"]
            N = [x for x in subterms(strip_all_casts(v)) if x.op == "round"]
            if not M and any(x.op == "call" and name(x) == "bland::ndarray::size" for x in subterms(v)): ctx.bad(key + ": number of spectra in time", w, "is %s" % show(a, 12)); continue
            if not M or len({strip_all_casts(x).id for x in N}) != 1:
                ctx.ob(key + " rounds the number of spectra", None, w, "N is not one rounded number"); continue
            M = M[0]; N = N[0]
            fs = mul(num(10**6), raw("abs", raw("call", "bliss::coarse_channel::foff", cc)))
            inner = strip_all_casts(N.a[0])
            foffs = [x for x in subterms(inner) if x.op == "call" and name(x) == "bliss::coarse_channel::foff"]
            tss = [x for x in subterms(inner) if x.op == "call" and name(x) == "bliss::coarse_channel::tsamp"]
            if len({x.id for x in foffs}) == 1 and len({x.id for x in tss}) == 1:
                ctx.ob(key + ": spectra per sample", numeq(inner, mul(tss[0], raw("abs", mul(num(10**6), foffs[0])))), w, "N is %s" % show(inner, 12))
                okc = all(core(x.a[1]) is cc for x in (foffs[0], tss[0]))
                ctx.ob(key + ": width and sampling of that channel", okc if free(inner) else None, w, "")
            else: ctx.unknown(key + ": spectra per sample", w, show(inner, 12))
            a = subst(a, lambda x: sym("NSPEC") if x.op == "round" else strip_all_casts(x.a[0]) if x.op == "trunc" else None)
            N = sym("NSPEC")
        else: N, M = (sym(p["n"]) for p in F.params[1:3])
        want = mul(div(add(mul(mul(M, N), d), num(1)), sub(M, num(1))), sub(div(mul(M, S2), mul(S1, S1)), num(1)))
        r = numeq(a, want)
        if r is False and odd: ctx.bad(key, w, "sums %s" % [show(x, 8) for x in odd])
        else: ctx.ob(key, r, w, "is %s" % show(a, 14))


def check(ctx):
    P = ctx.program("bliss/estimators/", "bliss/core/noise", "bliss/core/coarse_channel", "bliss/core/scan.cpp", "bliss/core/cadence.cpp")
    estimates(ctx, P)
    stored(ctx, P)
    kurtosis(ctx, P)


main("C13", RULE, check, minimum=8)
