import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.rules import *
from vlib.ev import F as F_, I
from c14 import drifts

RULE = ("each cell of the plane written in the integration loops gets, added to what it holds, the spectrum cell whose row is the time loop's counter and whose channel is the cell's own plus the "
        "drift at that time (and the desmearing step, in the direction of the drift), over the desmearing count; loops cover every drift, time step and desmearing step; the channel loop covers "
        "exactly channels whose source is inside the spectrum; the flag counters use the same cells, add one where the mask holds their own bit and cannot wrap; no length is compared as unsigned "
        "after a signed subtraction; the result is the plane over the time steps, with flags, length and rates as given")
K = "bliss::integrate_linear_rounded_bins_cpu"
BITS = {"filter_rolloff": 1, "low_spectral_kurtosis": 2, "high_spectral_kurtosis": 4}


def base(loc):
    """(array value, linear index) of a location behind data_ptr, or (None, None)"""
    r, path = loc
    if r.op != "mem" or not isinstance(r.a[0], T) or len(path) > 1: return None, None
    c = r.a[0].a[0] if r.a[0].op == "deref" else r.a[0]
    if c.op != "call" or "data_ptr" not in c.a[0]: return None, None
    x = c.a[1]
    if not path: return x, num(0)
    return (x, path[0].a[0]) if path[0].op == "i" else (None, None)


def rowcol(x, idx):
    """(row, column) if idx = row * strides[0] + column * strides[1] of array x, else None"""
    r, c, rest = {}, {}, {}
    for m, k in pdict(idx).items():
        st = [y for y in m if isstride(y, x)]
        if len(st) == 1 and st[0].a[1] in (num(0), num(1)):
            m2 = list(m); m2.remove(st[0])
            (r if st[0].a[1] is num(0) else c)[tuple(m2)] = k
        elif k != 0: return None
    return pmake(r), pmake(c)


def isstride(y, x):
    return y.op == "sel" and y.a[0].op == "call" and y.a[0].a[0].split("<")[0] == "bland::ndarray::strides" and y.a[0].a[1] is x


def kernel(ctx, P, F):
    w = F.where()
    ev, v = go(ctx, P, F, inline=but("integrated_flags", "frequency_drift_plane"))
    names_ = [p["n"] for p in F.params]
    if len(names_) < 3: raise AnalysisError("anchor changed: " + K)
    grid, mask, rates = (sym(names_[i]) for i in range(3))
    fl = next((x for x in subterms(v) if x.op == "new" and x.a[0] == "bliss::integrated_flags"), None)
    wr = {}
    for e in ev.effects:
        if e.kind != "write" or not e.loops: continue
        x, idx = base(e.loc)
        if x is None:
            if e.loc[0].op == "mem": ctx.unknown(f"write {e.line}", e.where(), "address not resolved")
            continue
        wr.setdefault(x, []).append((e, idx))
    ctx.count("writes_in_loops", sum(len(z) for z in wr.values()))
    plane, flags = None, {}
    for x in wr:
        if x.op == "new" and x.a[0] == "bland::ndarray": plane = x
        elif x.op == "fld" and x.a[0] is fl: flags[x.a[1]] = x
        else: ctx.unknown("object " + show(x, 3), w, "store into an object that is neither the plane nor a flag counter")
    if plane is None or fl is None: raise AnalysisError("anchor changed: no plane written by " + K)
    # shape and content at the start
    sh = plane.a[1] if len(plane.a) > 1 else None
    D = raw("size", rates)
    size = lambda n: next((x for x in subterms(raw("vec", *[y for L in ev.allloops.values() if L.trip is not None for y in [L.trip]] + [plane])) if x.op == "call" and x.a[0].split("<")[0] == "bland::ndarray::size" and x.a[1] is grid and x.a[2] is num(n)), None)
    NT, N = size(0), size(1)
    if NT is None or N is None: raise AnalysisError("anchor changed: extent of the spectrum not used by " + K)
    ctx.ob("plane shape", eqf(sh, raw("vec", D, N)) if sh is not None and sh.op == "vec" else None, w, "the plane is not drifts x channels: " + show(plane, 4)[:80])
    ctx.ob("flags shape", eqf(raw("vec", *fl.a[1:3]), raw("vec", D, N)), w, "the flag counters are not drifts x channels: " + show(fl, 4)[:80])
    done = {}
    for x in [plane] + list(flags.values()):
        nm = "plane" if x is plane else x.a[1]
        for e, idx in wr[x]:
            cell(ctx, P, ev, nm, e, x, idx, grid, mask, rates, NT, N, D, done)
    for nm in ["plane"] + list(BITS):
        for s in ("up", "down"):
            if (nm, s) not in done: ctx.ob(f"{nm} {s}", False if nm == "plane" or nm in flags else False, w, f"no accumulation of {nm} for drifts {'>= 0' if s == 'up' else '< 0'}")
    # fill before the loops
    fills = [e for e in ev.effects if e.kind == "call" and e.qn.split("<")[0] == "bland::fill" and e.args and (e.args[0] is plane or (e.args[0].op == "upd" and contains(e.args[0], lambda y: y is plane)))]
    ok = len(fills) == 1 and not fills[0].loops and fills[0].args[1] is num(0) and not [c for c in fills[0].pc]
    ctx.ob("plane starts at zero", True if ok else (False if not fills else None), w, "the plane is not cleared before the accumulation")
    result(ctx, ev, v, F, plane, fl, NT, D, rates)


def cell(ctx, P, ev, nm, e, x, idx, grid, mask, rates, NT, N, D, done):
    wh = e.where()
    rc = rowcol(x, idx)
    if rc is None:
        ctx.ob(f"{nm} address {e.line}", False if not contains(idx, lambda y: y.op in ("iter", "lout", "undef", "unk")) else None, wh, "index is not row * stride 0 + column * stride 1 of the array written: " + show(idx, 4)[:80]); return
    row, col = rc
    # the loops by what they count
    pcs = list(atoms(e.pc))
    Ls = {}
    for L in e.loops:
        if L.trip is None: continue
        for k, want in (("drift", D), ("time", NT)):
            if strip_all_casts(L.trip) is want: Ls[k] = L
    if "drift" not in Ls or "time" not in Ls:
        ctx.ob(f"{nm} loops {e.line}", None if any(L.trip is None for L in e.loops) else False, wh, "the accumulation does not run over every drift and every time step: " + ", ".join(show(L.trip, 4)[:40] if L.trip is not None else "?" for L in e.loops)); return
    kd, kt = Ls["drift"].ctr, Ls["time"].ctr
    rate = raw("sel", rates, kd)
    bins, slope, span = (raw("fld", rate, f) for f in ("desmeared_bins", "drift_rate_slope", "drift_channels_span"))
    for L in e.loops:
        if strip_all_casts(L.trip) is bins: Ls["desmear"] = L
    rest = [L for L in e.loops if L not in Ls.values()]
    if "desmear" not in Ls or len(rest) != 1:
        ctx.ob(f"{nm} loops {e.line}", False if len(e.loops) == 4 and all(L.trip is not None for L in e.loops) else None, wh, "the accumulation does not run over every desmearing step of the drift: " + ", ".join(show(L.trip, 4)[:40] if L.trip is not None else "?" for L in e.loops)); return
    kb, C = Ls["desmear"].ctr, rest[0]
    ctx.ob(f"{nm} whole loops {e.line}", not any(L.breaks or L.hasret for L in e.loops), wh, "a loop of the integration can end early")
    sign = None
    for c in pcs:
        if c.op == "le0" and c.a[0] is slope: sign = 1
        if c.op == "lt0" and c.a[0] is neg(slope): sign = -1
        if c.op == "not" and c.a[0].op == "le0" and c.a[0].a[0] is slope: sign = -1
        if c.op == "lt0" and c.a[0] is slope: sign = 1
        if c.op == "not" and c.a[0].op == "lt0" and c.a[0].a[0] is neg(slope): sign = 1
        if c.op == "le0" and c.a[0] is neg(slope) or c.op == "not" and c.a[0].op == "lt0" and c.a[0].a[0] is slope: sign = -1
    if sign is None:
        ctx.unknown(f"{nm} direction {e.line}", wh, "direction of the drift not tested on the path"); return
    d = "up" if sign > 0 else "down"
    done[(nm, d)] = e
    tag = f"{nm} {d}"
    ctx.ob(tag + " row", eqf(row, kd), wh, "the row written is not that of the drift: " + show(row, 5)[:80])
    want_off = add(rnd(slope, kt), kb if sign > 0 else neg(kb))
    # column covered: start .. start + trip
    if C.trip is None: ctx.unknown(tag + " columns", wh, "length of the channel loop not derived"); return
    start = sub(col, C.ctr)
    if contains(start, lambda y: y is C.ctr):
        ctx.ob(tag + " columns", False if free(col) else None, wh, "the column written does not advance with the channel: " + show(col, 5)[:80]); return
    end = add(start, C.trip)
    off = want_off
    if sign > 0:
        ok = eqf(norm(start), num(0)), eqf(norm(end), norm(sub(N, off)))
    else:
        a, b = neg(span), neg(off)
        ok = (True if norm(start) in (norm(tmax(a, b)), norm(tmax(b, num(0))), norm(b)) else (False if free(start) else None)), eqf(norm(end), norm(N))
    r = False if False in ok else (True if ok == (True, True) else None)
    for n in unsigned_test(P, e, C):
        if any(k < 0 for k in pdict(C.trip).values()):
            ctx.bad(tag + " length sign", wh, f"the channel loop compares the length as {n}: when the drift spans more channels than there are, the length is negative and the loop runs out of bounds")
    ctx.count("length_tests")
    ctx.ob(tag + " columns", r, wh, f"the channels accumulated are {show(start, 5)[:70]} to {show(end, 5)[:70]}, not those whose source channel lies inside the spectrum")
    # what is added
    val = strip_all_casts(e.val)
    if nm == "plane":
        terms_ = pdict(val)
        src = [(m, k) for m, k in terms_.items() if any(isload(y, grid) for y in m)]
        oth = [(m, k) for m, k in terms_.items() if not any(isload(y, grid) for y in m)]
        if len(src) != 1:
            ctx.ob(tag + " value", False if free(val) else None, wh, "what is added is not one spectrum cell: " + show(val, 3)[:80]); return
        m, k = src[0]
        y = next(z for z in m if isload(z, grid))
        r2 = source(y, grid)
        fac = mul(num(k), *[z for z in m if z is not y]) if len(m) > 1 else num(k)
        ctx.ob(tag + " weight", eqf(fac, inv(strip_all_casts(bins))) , wh, "a spectrum cell is not weighted by one over the desmearing count: " + show(fac, 4)[:60])
        place(ctx, tag, wh, r2, kt, off, col, y)
        keep = len(oth) == 1 and oth[0][1] == 1 and len(oth[0][0]) == 1 and oth[0][0][0].op in ("iter", "sel", "lout", "elem", "gval", "out", "deref", "mem")
        ctx.ob(tag + " adds", True if keep else (False if not oth else None), wh, "the cell is replaced, not added to")
        ctx.ob(tag + " always", not extra(pcs, e, slope, C, Ls), wh, "a spectrum cell is left out when " + " and ".join(show(c, 4)[:50] for c in extra(pcs, e, slope, C, Ls)))
        return
    # flag counters
    tests = [c for c in pcs if any(isload(y, mask) for y in subterms(c))]
    bits = [y for c in tests for y in subterms(c) if y.op == "bit&"] or [y for y in subterms(val) if y.op == "bit&"]
    b = next((y for y in bits if any(isload(z, mask) for z in y.a)), None)
    if b is None:
        ctx.ob(tag + " flag", None if bits else False, wh, "the counter does not test a bit of the mask"); return
    bit = next((z for z in b.a if isnum(z)), None)
    ctx.ob(tag + " flag", None if bit is None else bit is num(BITS.get(nm, -1)), wh, f"the counter {nm} counts another flag: {show(bit, 3) if bit is not None else '?'}")
    if tests:
        t = land(*tests)
        fa = {k: ("flag", y.op not in ("eq0", "eq")) for k, y in batoms(t).items() if contains(y, lambda q: q is b)}
        tab = btable(t, fa) if fa else None
        if tab: ctx.ob(tag + " flag sense", tab[(("flag", False),)] == {False} and True in tab[(("flag", True),)], wh, "the counter counts samples without the flag")
    z = next(z for z in b.a if isload(z, mask))
    place(ctx, tag, wh, source(z, mask), kt, off, col, z)
    inc = pdict(val)
    one = inc.get((), 0)
    ctx.ob(tag + " adds one", one == 1 and len(inc) == 2 if not contains(val, lambda y: y.op in ("min", "ite")) else True, wh, "the counter is not raised by one: " + show(val, 3)[:60])
    sat = any(saturates(c) for c in pcs) or contains(val, lambda y: y.op == "min")
    ctx.ob(tag + " cannot wrap", sat, wh, f"the 8-bit counter {nm} wraps to 0 after 256 flagged samples (time steps times desmearing)")


def saturates(c):
    """does c exclude that the counter holds 255?  counter < 255, counter <= 254, counter != 255 (255 may be written numeric_limits<uint8_t>::max())"""
    c = subst(c, lambda y: num(255) if y.op == "limit" and y.a[0] == "max" and y.a[1] in ("unsigned char", "uint8_t") else None)
    for y in batoms(c).values():
        if y.op in ("lt0", "le0"):
            d = pdict(y.a[0])
            k = d.get((), 0)
            if len(d) == 2 and 0 < k <= 255 and any(v == -1 and len(m) == 1 for m, v in d.items() if m): return True
            if len(d) == 2 and k < 0 and c is not y and any(v == 1 and len(m) == 1 for m, v in d.items() if m) and k in (-255, -254): return True
        if y.op in ("eq0", "eq") and c is not y and contains(y, lambda z: z is num(255)): return True
        if y.op == "eq0" and c is not y and pdict(y.a[0]).get((), 0) in (255, -255): return True
    return False


def unsigned_test(P, e, L):
    """unsigned types to which a signed non-constant is converted in the condition of loop L"""
    out = []

    def conv(n):
        if isinstance(n, dict):
            if n.get("k") == "cast" and n.get("ck") == "IntegralCast" and str(n["t"]).startswith("unsigned") and not str(n["from"]).startswith(("unsigned", "bool", "char")) and n["e"].get("k") != "int":
                out.append(str(n["t"]))
            for x in n.values(): conv(x)
        elif isinstance(n, (list, tuple)):
            for x in n: conv(x)

    def walk(n):
        if isinstance(n, dict):
            if n.get("k") in ("for", "while", "do") and n.get("l") == L.line and n.get("c"): conv(n["c"])
            for x in n.values(): walk(x)
        elif isinstance(n, (list, tuple)):
            for x in n: walk(x)
    for d in {id(d): d for d in P.defs.values()}.values():
        if e.func is not None and d.file == e.func.file: walk(d.body)
    return sorted(set(out))


def rnd(slope, kt):
    return raw("trunc", raw("round", mul(slope, kt)))


def norm(t):
    def f(x):
        if x.op == "trunc" and x.a[0].op in ("round", "trunc"): return raw("RND", subst(x.a[0].a[0], f))
        if x.op == "round": return raw("RND", subst(x.a[0], f))
        if x.op in ("max", "min") and len(x.a) == 2:  # a + max(0, b - a), the difference with a fixed sign
            a, b = subst(x.a[0], f), subst(x.a[1], f)
            d = sub(b, a)
            if leadsign(d) < 0: a, d = b, neg(d)
            return add(a, raw("M" + x.op, d))
        return None
    return subst(strip_all_casts(t), f)


def isload(y, arr):
    return y.op == "sel" and contains(y.a[0], lambda z: z.op == "call" and "data_ptr" in z.a[0] and z.a[1] is arr)


def source(y, arr):
    return rowcol(arr, y.a[1])


def place(ctx, tag, wh, rc, kt, off, col, y):
    if rc is None: ctx.ob(tag + " source", False if free(raw("vec", y.a[1])) else None, wh, "the index read is not row * stride 0 + column * stride 1 of the array read"); return
    r, c = rc
    ctx.ob(tag + " source row", eqf(r, kt), wh, "the row read is not that of the time step: " + show(r, 5)[:70])
    ctx.ob(tag + " source channel", eqf(norm(sub(c, col)), norm(off)), wh, f"the channel read is {show(sub(c, col), 6)[:90]} from the cell's own, not the drift at that time")


def extra(pcs, e, slope, C, Ls):
    out = []
    for c in pcs:
        if any(c is x for L in e.loops if L.cond is not None for x in atoms([L.cond])) or loop_guard(c, e.loops): continue
        if mentions(c, slope) and not any(mentions(c, L.ctr) for L in e.loops if L is not Ls["drift"]): continue
        out.append(c)
    return out


def result(ctx, ev, v, F, plane, fl, NT, D, rates):
    w = F.where()
    ns = news(v, "bliss::frequency_drift_plane")
    if not ns and v.op == "rec":
        ctx.unknown("result", w, "result not a constructed plane"); return
    if len(ns) != 1: ctx.unknown("result", w, "result not one constructed plane: " + show(v, 3)[:60]); return
    a = [strip_all_casts(x) for x in ns[0].a[1:]]
    ctx.ob("result flags", contains(a[1], lambda y: y is fl) if len(a) > 1 else None, w, "the result does not carry the flag counters")
    ctx.ob("result length", eqf(a[2], NT) if len(a) > 2 else False, w, "the integration length of the result is not the number of time steps")
    ctx.ob("result rates", eqf(a[3], rates) if len(a) > 3 else False, w, "the result does not carry the drift rates searched")
    dv = [x for x in subterms(a[0]) if x.op == "call" and x.a[0].split("<")[0].endswith("operator/")]
    ctx.ob("result scale", (len(dv) == 1 and contains(dv[0].a[1], lambda y: y is plane) and eqf(dv[0].a[2], NT)) if dv else (None if not contains(a[0], lambda y: y is plane) else False), w, "the plane is not divided by the number of time steps")


def holds_what_it_is_given(ctx, P):
    """the plane's accessors return what it was constructed with"""
    Q = "bliss::frequency_drift_plane"
    for F in get(ctx, P, Q + "::frequency_drift_plane", lambda f: len(f.params) == 4):
        ev = ctx.evaluator(P, inline=B)
        o = (raw("mem", sym("PLANE")), ())
        s = State()
        ev.run(F, this=o, st=s)
        s = ev.state
        for m, i in (("integration_steps", 2), ("drift_rate_info", 3), ("integrated_rfi", 1), ("integrated_drift_plane", 0)):
            G = get(ctx, P, Q + "::" + m)[0]
            e2 = ctx.evaluator(P, inline=lambda d: B(d) and not d.qn.startswith(("bliss::integrated_flags", "bland::")))
            v = strip_all_casts(e2.run(G, this=o, st=s.copy()))
            p = sym(F.params[i]["n"])
            if i in (2, 3): ctx.ob("accessor " + m, eqf(v, p), G.where(), f"{m}() does not return what the plane was made with: " + show(v, 4)[:70])
            else:
                o2 = [sym(q["n"]) for q in F.params if q["n"] != F.params[i]["n"]]
                ctx.ob("accessor " + m, True if mentions(v, p) and not any(mentions(v, x) for x in o2) else (False if free(v) else None), G.where(), f"{m}() does not return what the plane was made with: " + show(v, 4)[:70])


def check(ctx):
    P = ctx.program("bliss/drift_search/kernels/drift_integration_cpu", "bliss/core/frequency_drift_plane", "bliss/drift_search/integrate_drifts", "bliss/core/coarse_channel")
    for F in get(ctx, P, K): kernel(ctx, P, F)
    holds_what_it_is_given(ctx, P)
    drifts(ctx, P)


main("C22", RULE, check, 12)
