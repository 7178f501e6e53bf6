import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.rules import *
from vlib.ev import F as F_, I
from c20 import At, Odd

RULE = ("every field of the hit appended for protohit p is, as a normal form over the channel's metadata, the protohit's fields and the drift rate of the protohit's own drift index, the "
        "quantity the field is named for; one hit per protohit in order; noise per drift rate and the drift rates themselves have the stated formulas; the kernels get the values of the "
        "same name")
PURE = (["bliss::frequency_drift_plane::" + x for x in ("drift_rate_info", "integration_steps", "integrated_drift_plane", "integrated_rfi")] +
        ["bliss::noise_stats::" + x for x in ("noise_floor", "noise_power", "noise_amplitude")] +
        ["bliss::coarse_channel::" + x for x in ("foff", "fch1", "tsamp", "tstart", "ntsteps", "nchans", "noise_estimate", "integrated_drift_plane", "data", "mask", "device")])
SHORT = [q.split("::")[-1] for q in PURE]
FIELDS = {  # hit field -> what it has to be
    "rate_index": lambda p: p("index_max.drift_index"),
    "rfi_counts": lambda p: p("rfi_counts"),
    "start_freq_index": lambda p: p("index_max.frequency_channel"),
    "start_freq_MHz": lambda p: add(sym("FCH1"), mul(sym("FOFF"), p("index_center.frequency_channel"))),
    "drift_rate_Hz_per_sec": lambda p: raw("fld", raw("sel", sym("DRIFT_RATE_INFO"), p("index_max.drift_index")), "drift_rate_Hz_per_sec"),
    "power": lambda p: sub(p("max_integration"), sym("NOISE_FLOOR")),
    "snr": lambda p: div(sub(p("max_integration"), sym("NOISE_FLOOR")), p("desmeared_noise")),
    "binwidth": lambda p: p("binwidth"),
    "bandwidth": lambda p: mul(p("binwidth"), tabs(mul(num(10**6), sym("FOFF")))),
    "start_time_sec": lambda p: mul(num(86400), sym("TSTART")),
    "duration_sec": lambda p: mul(sym("TSAMP"), sym("INTEGRATION_STEPS")),
    "coarse_channel_number": lambda p: sym("CHANNEL_NUMBER"),
    "time_span_steps": lambda p: sym("INTEGRATION_STEPS"),
}
ALT = {"snr": lambda p: p("snr"), "start_freq_MHz": None}


def names(t, ph):
    """terms of the channel, the plane and the protohit by short names"""
    def f(x):
        if x.op == "call":
            q = x.a[0].split("<")[0]
            if q in PURE: return sym(q.split("::")[-1].upper())
        if x.op == "fld" and x.a[1] == "_coarse_channel_number": return sym("CHANNEL_NUMBER")
        if x.op == "sel" and x is ph or x.op == "deref" and x is ph: return sym("P")
        if x.op == "cast" and x.a[0] in ("f32", "f64"): return subst(x.a[1], f)
        return None
    return subst(t, f)


def pfield(path):
    t = sym("P")
    for k in path.split("."): t = raw("fld", t, k)
    return t


def absnorm(t):
    """|c x| as c |x|"""
    def f(x):
        if x.op == "abs" and x.a[0].op == "poly" and len(x.a[0].a) == 1:
            c, m = x.a[0].a[0]
            r = num(abs(c))
            for y in m: r = mul(r, tabs(y))
            return r
        return None
    return subst(t, f)


def hits(ctx, P):
    for F in get(ctx, P, "bliss::hit_search", lambda f: f.params[0]["t"].s.endswith("coarse_channel")):
        ev, v = go(ctx, P, F, inline=but("protohit_search", *SHORT), pure=PURE)
        w = F.where()
        ph = [e for e in ev.effects if e.kind == "call" and e.qn == "bliss::protohit_search"]
        push = [e for e in ev.effects if e.kind == "call" and e.qn and e.qn.split("::")[-1] in ("push_back", "emplace_back", "push_front", "insert") and "hit" in e.qn + show(e.args[-1], 4) + str(e.obj)]
        if len(ph) != 1: ctx.ob("protohits are searched once", False if not ph and v is not None and free(v) else None, w, ""); continue
        a = [names(x, None) for x in ph[0].args]
        cc, opt = sym(F.params[0]["n"]), sym(F.params[1]["n"])
        ctx.ob("protohits of the channel's drift plane", eqf(a[0], sym("INTEGRATED_DRIFT_PLANE")), ph[0].where(), "searches %s" % show(a[0]))
        ctx.ob("protohits against the channel's noise", eqf(a[1], sym("NOISE_ESTIMATE")), ph[0].where(), "against %s" % show(a[1]))
        ctx.ob("protohits with the caller's options", eqf(a[2], opt) if len(a) > 2 else False, ph[0].where(), "with %s" % (show(a[2]) if len(a) > 2 else "defaults"))
        if len(push) != 1: ctx.unknown("one hit per protohit", w, "%d appends" % len(push)); continue
        e = push[0]
        if not e.loops: ctx.ob("one hit per protohit", None, e.where(), ""); continue
        L = e.loops[-1]
        term = ph[0].term
        ctx.ob("one hit per protohit", (loopfull(L, raw("size", term)) and not extra_conds(e)) if len(e.loops) == 1 and loopfull(L, raw("size", term)) is not None else None, e.where(),
               "a hit is made for %s%s" % ("0.." + show(L.trip) if L.trip is not None else "?", " only if %s" % [show(c) for c in extra_conds(e)] if extra_conds(e) else ""))
        ctx.ob("hits in the order of the protohits", e.qn.split("::")[-1] in ("push_back", "emplace_back") or None, e.where(), "")
        el = raw("sel", term, L.ctr)
        rv = strip_all_casts(v) if v is not None else None
        ctx.ob("the hits are returned", True if rv is not None and rv.op == "lout" and rv.a[0] == L.id else None, w, "")
        h = e.args[0]
        while h.op == "new" and len(h.a) == 2: h = h.a[1]
        for fld in sorted(FIELDS):
            x = getfield(ev, h, fld)
            if x is None: ctx.unknown("hit." + fld, e.where(), ""); continue
            if contains(x, lambda t: t.op == "undef"):
                ctx.bad("hit." + fld, e.where(), "is not set"); continue
            if any(y.op == "iter" and y.a[0] == L.id for y in leaves(strip_all_casts(x))):
                ctx.bad("hit." + fld, e.where(), "can be that of the hit before"); continue
            x = absnorm(strip_all_casts(names(position(x, L, rv), el)))
            want = absnorm(FIELDS[fld](pfield))
            r = eqf(x, want)
            if r is not True and fld in ALT and ALT[fld] is not None and x is ALT[fld](pfield): r = True
            ctx.ob("hit." + fld, r, e.where(), "is %s" % show(x, 12))


def selected(c):
    """values 0, 1 of the method for which c holds"""
    out = set()
    at = batoms(c)
    for v in (0, 1):
        env = {}
        for i, y in at.items():
            d = pdict(y.a[0]) if y.op == "eq0" else None
            lin = [(m, k) for m, k in d.items() if m] if d else []
            if d is None or len(lin) != 1 or len(lin[0][0]) != 1 or lin[0][0][0].op != "fld" or lin[0][0][0].a[1] != "method": return None
            env[i] = -d.get((), 0) / lin[0][1] == v
        if bval(c, env): out.add(v)
    return out


def leaves(t):
    return leaves(t.a[1]) + leaves(t.a[2]) if t.op == "ite" else [t]


def position(t, L, rv):
    """the length of the list that gets one hit per iteration is the number of the iteration"""
    own = [k for k in L.iter if rv is not None and L.next.get(k) is not None and L.next[k].op == "pushed" and L.next[k].a[0] is L.iter[k]]
    its = [L.iter[k] for k in own]
    return subst(t, lambda x: L.ctr if x.op == "size" and any(x.a[0] is i for i in its) else None)


def getfield(ev, h, f):
    s = State()
    loc = (raw("mem", sym("OBJ")), ())
    ev.store(s, loc, h)
    return ev.load(s, (loc[0], (F_(f),)))


def protohits(ctx, P):
    F = get(ctx, P, "bliss::protohit_search")[0]
    ev, v = go(ctx, P, F, inline=but("find_components_above_threshold", "find_local_maxima_above_threshold", *SHORT), pure=PURE)
    w = F.where()
    plane, noise, opt = (sym(p["n"]) for p in F.params)
    calls = [e for e in ev.effects if e.kind == "call" and e.qn in ("bliss::find_components_above_threshold", "bliss::find_local_maxima_above_threshold")]
    ctx.ob("each search method has its kernel", {e.qn for e in calls} == {"bliss::find_components_above_threshold", "bliss::find_local_maxima_above_threshold"} or (None if v is None or not free(v) and not calls else False), w, "calls %s" % sorted({e.qn for e in calls}))
    for e in calls:
        k = e.qn.split("_")[1]
        meth = 0 if "components" in e.qn else 1
        m = [c for c in extra_conds(e) if contains(c, lambda t: t.op == "fld" and t.a[1] == "method")]
        vals = selected(land(*m)) if m else None
        ctx.ob("the method asked for is used: " + k, None if vals is None else vals == {meth}, e.where(), "method %s uses %s" % (sorted(vals or ()), e.qn))
        a = e.args
        want = [("the drift plane", names(a[0], None), sym("INTEGRATED_DRIFT_PLANE")), ("the flag counts", names(a[1], None), sym("INTEGRATED_RFI")), ("the noise floor", names(a[2], None), sym("NOISE_FLOOR")),
                ("the threshold", a[4], raw("fld", opt, "snr_threshold")), ("the distance", a[5], raw("fld", opt, "neighbor_l1_dist"))]
        for n, x, y in want: ctx.ob("%s gets %s" % (k, n), eqf(x, y), e.where(), "gets %s" % show(x))
        for x in (a[0], a[1]): ctx.ob("%s: of the plane given" % k, True if contains(x, lambda t: t is plane) else False if free(x) else None, e.where(), "")
    pb = [e for e in ev.effects if e.kind == "call" and e.qn and e.qn.split("::")[-1] in ("push_back", "emplace_back") and e.loops]
    if len(pb) != 1: ctx.unknown("noise of each drift rate", w, "%d appends" % len(pb)); return
    e = pb[0]
    L = e.loops[-1]
    trip = names(L.trip, None) if L.trip is not None else None
    ctx.ob("noise of each drift rate, in order", (trip is raw("size", sym("DRIFT_RATE_INFO"))) if trip is not None and free(trip) and len(e.loops) == 1 and not L.breaks and not L.hasret and not extra_conds(e) else False if extra_conds(e) else None, e.where(), "for %s" % (show(trip) if trip is not None else "?"))
    x = e.args[0]
    x = getfield(ev, x, "integration_adjusted_noise")
    if x is None: ctx.unknown("noise of a drift rate", e.where(), ""); return
    x = strip_all_casts(names(x, None))
    bins = raw("fld", raw("sel", sym("DRIFT_RATE_INFO"), L.ctr), "desmeared_bins")
    want = div(sym("NOISE_POWER"), raw("sqrt", mul(sym("INTEGRATION_STEPS"), bins)))
    want2 = div(sym("NOISE_POWER"), mul(raw("sqrt", sym("INTEGRATION_STEPS")), raw("sqrt", bins)))
    ctx.ob("noise of a drift rate is the noise over the root of the samples combined", True if x is want2 else eqf(x, want), e.where(), "is %s" % show(x, 12))
    for c in calls:
        a = c.args[3]
        ctx.ob("the kernel gets the noise of each drift rate", True if contains(a, lambda t: t.op == "lout" and t.a[0] == L.id) else False if free(a) else None, c.where(), "gets %s" % show(a))


def forward(ctx, P, name):
    F = get(ctx, P, "bliss::" + name)[0]
    ev, v = go(ctx, P, F, inline=but("_cpu"), pure=("bland::ndarray::dev::repr", "bland::ndarray::device"))
    cs = [e for e in ev.effects if e.kind == "call" and e.qn == "bliss::" + name + "_cpu"]
    ctx.ob(name + " runs the kernel", len(cs) == 1 if cs else None, F.where(), "")
    for e in cs:
        for p, a in zip(F.params, e.args): ctx.ob("%s: passes its %s" % (name, p["n"]), eqf(a, sym(p["n"])), e.where(), "passes %s for %s" % (show(a), p["n"]))
        ctx.ob(name + ": returns what was found", True if v is not None and contains(v, lambda t: t is e.term) else False if v is not None and free(v) else None, F.where(), "")


def drifts(ctx, P):
    F = get(ctx, P, "compute_drifts")[0]
    ev, v = go(ctx, P, F)
    nt, foff, tsamp, opt = (sym(p["n"]) for p in F.params)
    o = lambda n: raw("fld", opt, n)
    pb = [e for e in ev.effects if e.kind == "call" and e.qn and e.qn.split("::")[-1] in ("push_back", "emplace_back") and e.loops]
    w = F.where()
    if len(pb) != 1: ctx.unknown("drift rates", w, ""); return
    e = pb[0]
    L = e.loops[-1]
    want = raw("idiv", sub(o("high_rate"), o("low_rate")), o("rate_step_size"))
    ctx.ob("number of drift rates", (loopfull(L, want) if not extra_conds(e) else False) if len(e.loops) == 1 else None, e.where(), "%s rates" % (show(L.trip) if L.trip is not None else "?"))
    ch = add(o("low_rate"), mul(L.ctr, o("rate_step_size")))
    fl = lambda t: strip_all_casts(subst(t, lambda x: subst(x.a[1], lambda y: None) if x.op == "cast" else None))
    m = div(ch, sub(nt, num(1)))
    rate = e.args[0]
    W = {"index_in_plane": [L.ctr], "drift_channels_span": [ch], "drift_rate_slope": [m], "drift_rate_Hz_per_sec": [div(mul(num(10**6), m, ) if False else mul(mul(num(10**6), m), foff), tsamp)]}
    def uncast(t): return subst(t, lambda x: uncast(x.a[1]) if x.op == "cast" else None)
    for f in sorted(W):
        x = getfield(ev, rate, f)
        if x is None: ctx.unknown("drift rate: " + f, e.where(), ""); continue
        if contains(x, lambda t: t.op == "undef"): ctx.bad("drift rate: " + f, e.where(), "is not set"); continue
        x = uncast(x)
        ctx.ob("drift rate: " + f, eqf(x, W[f][0]), e.where(), "is %s" % show(x, 12))
    x = getfield(ev, rate, "desmeared_bins")
    x = None if x is None else uncast(x)
    if x is None: ctx.unknown("drift rate: desmeared_bins", e.where(), "")
    else:
        d = o("desmear")
        on, off = simp_under(x, [d]), simp_under(x, [lnot(d)])
        ctx.ob("drift rate: one bin without desmearing", eqf(off, num(1)), e.where(), "is %s" % show(off))
        on = strip_all_casts(on)
        while on.op == "trunc": on = on.a[0]
        good = [tmax(num(1), raw("round", tabs(m)))]
        ctx.ob("drift rate: desmeared over the channels crossed in a time step", True if any(on is g for g in good) else eqf(on, good[0]), e.where(), "is %s" % show(on, 12))
    F = get(ctx, P, "bliss::integrate_drifts", lambda f: f.params[0]["t"].s.endswith("coarse_channel"))[0]
    ev, v = go(ctx, P, F, inline=but("compute_drifts", "_cpu", "_bland", "set_integrated_drift_plane", *SHORT), pure=PURE)
    cd = [e for e in ev.effects if e.kind == "call" and e.qn == "compute_drifts"]
    for e in cd:
        for n, a in zip(("NTSTEPS", "FOFF", "TSAMP"), e.args): ctx.ob("drift rates from the channel's " + n.lower(), eqf(names(a, None), sym(n)), e.where(), "from %s" % show(a))
        ctx.ob("drift rates from the caller's options", eqf(e.args[3], sym(F.params[1]["n"])), e.where(), "")
    ks = [e for e in ev.effects if e.kind == "call" and e.qn and e.qn.startswith("bliss::integrate_linear_rounded_bins_")]
    st = [e for e in ev.effects if e.kind == "call" and e.qn == "bliss::coarse_channel::set_integrated_drift_plane"]
    for e in ks:
        k = e.qn.split("_")[-1]
        for n, a in zip(("DATA", "MASK"), e.args): ctx.ob("%s integrates the channel's %s" % (k, n.lower()), eqf(names(a, None), sym(n)), e.where(), "gets %s" % show(a))
        ctx.ob(k + " integrates along those drift rates", True if cd and any(contains(e.args[2], lambda t: t is c.term) for c in cd) else False if free(e.args[2]) else None, e.where(), "")
        ctx.ob(k + " with the caller's options", eqf(e.args[3], sym(F.params[1]["n"])), e.where(), "")
        ctx.ob(k + ": the plane is kept with the channel", True if any(contains(s.args[0], lambda t: t is e.term) for s in st) else False if st and all(free(s.args[0]) for s in st) or not st else None, e.where(), "")
    used = []
    for e in ks:
        at = At(lambda t: 1 if t.op == "fld" and t.a[1] == "device_type" and "_device" in show(t.a[0], 3) + "_device" * ("device" in show(t.a[0], 3)) else None)
        try: used.append((e.qn.split("_")[-1], all(at(c) for c in atoms(e.pc))))
        except (Odd, TypeError): used.append((e.qn.split("_")[-1], None))
    if used: ctx.ob("data in host memory is integrated by the code for it", True if [k for k, u in used if u] == ["cpu"] and all(u is not None for k, u in used) else False if all(u is not None for k, u in used) else None, F.where(), "by %s" % [k for k, u in used if u])
    for s in st: ctx.ob("the channel with its plane is returned", True if v is not None and contains(v, lambda t: t is s.term) else False if v is not None and free(v) else None, F.where(), "")


def check(ctx):
    P = ctx.program("bliss/drift_search/hit_search", "bliss/drift_search/protohit", "bliss/drift_search/integrate_drifts", "bliss/drift_search/connected", "bliss/drift_search/local", "bliss/core/")
    hits(ctx, P)
    protohits(ctx, P)
    for n in ("find_components_above_threshold", "find_local_maxima_above_threshold"): forward(ctx, P, n)
    drifts(ctx, P)


if __name__ == "__main__": main("C14", RULE, check, 8)
