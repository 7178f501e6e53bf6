import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.rules import *
from c20 import At, Odd
from fractions import Fraction

RULE = ("the mask a flagger sets is, as a linear combination of element-wise terms, old + new - (old & new), that is old | new; new is the sum of comparison results each times "
        "a constant that is that flagger's own flag bit; the rolloff flag goes to the first and the last round(width * channels) channels of a copy of the mask")
FLAGS = {"filter_rolloff": 1, "low_spectral_kurtosis": 2, "high_spectral_kurtosis": 4, "magnitude": 16, "sigma_clip": 32}
OPQ = ("coarse_channel::mask", "coarse_channel::set_mask", "coarse_channel::data", "estimate_spectral_kurtosis", "observation_target", "cadence")
INL = but(*OPQ)


class Lin:
    """arrays as linear combinations of element-wise atoms"""
    def __init__(self): self.unknown = False

    def of(self, t):
        t = strip_all_casts(t)
        if t.op == "num": return {("1",): t.a[0]}
        if t.op == "call":
            nm = t.a[0].split("<")[0] if not t.a[0].startswith("bland::operator<") else t.a[0]
            n, a = nm.split("::")[-1], t.a[1:]
            full = t.a[0]
            if n in ("unsqueeze", "squeeze", "to", "copy", "clone") and nm.startswith("bland::") and not (n == "copy" and len(a) > 1): return self.of(a[0]) if n != "copy" else self.of(a[0])
            if (n in ("operator+", "operator-", "add", "subtract")) and nm.startswith("bland") and len(a) >= 2:
                x, y = self.of(a[0]), self.of(a[1])
                return lsum(x, y, 1 if n in ("operator+", "add") else -1)
            if n in ("operator*", "multiply") and nm.startswith("bland") and len(a) >= 2:
                x, y = self.of(a[0]), self.of(a[1])
                for p, q in ((x, y), (y, x)):
                    if set(q) <= {("1",)}: return {k: v * q.get(("1",), 0) for k, v in p.items() if q.get(("1",), 0)}
                return self.scale(x, y)
            if n in ("logical_and", "operator&") and len(a) >= 2: return {("and",) + tuple(sorted((key(self.of(a[0])), key(self.of(a[1]))), key=repr)): Fraction(1)}
            if n in ("operator|", "logical_or") and len(a) >= 2:
                x, y = self.of(a[0]), self.of(a[1])
                return lsum(lsum(x, y, 1), {("and",) + tuple(sorted((key(x), key(y)), key=repr)): Fraction(1)}, -1)
            for pat, op, sw in (("operator<=", "le", 0), ("operator>=", "le", 1), ("operator<", "lt", 0), ("operator>", "lt", 1), ("less_than_equal_to", "le", 0), ("greater_than_equal_to", "le", 1), ("less_than", "lt", 0), ("greater_than", "lt", 1)):
                if full.split("::")[-1].startswith(pat) or full.startswith("bland::" + pat):
                    if len(a) < 2: break
                    x, y = key(self.of(a[0])), key(self.of(a[1]))
                    return {("cmp", op, y, x) if sw else ("cmp", op, x, y): Fraction(1)}
        if t.op == "poly":
            out = {}
            for m, c in pdict(t).items():
                at = pmake({m: 1})
                out = lsum(out, {("1",) if at is num(1) else ("t", at.id, show(at, 6)): Fraction(c)}, 1)
            return out
        return {("t", t.id, show(t, 6)): Fraction(1)}

    def scale(self, x, y):
        out = {}
        for k, v in x.items():
            for l, w in y.items(): out[("mul",) + tuple(sorted((k, l), key=repr))] = v * w
        return out


def lsum(x, y, s):
    out = dict(x)
    for k, v in y.items():
        out[k] = out.get(k, 0) + s * v
        if out[k] == 0: del out[k]
    return out


def key(d): return tuple(sorted(d.items(), key=repr))


def is_or(v, m, r):
    """is the combination v equal to m | r?"""
    return v == lsum(lsum(m, r, 1), {("and",) + tuple(sorted((key(m), key(r)), key=repr)): Fraction(1)}, -1)


def ands(v): return [k for k in v if k[0] == "and"]


def flag_terms(ctx, key_, r, allowed, w):
    """every term of new flags r is a comparison times an own flag bit"""
    got = {}
    for k, c in r.items():
        if k[0] == "cmp":
            got.setdefault(k, c)
            ctx.ob("%s: its own flag" % key_, c in allowed, w, "sets flag value %s" % c)
        elif k[0] in ("t", "mul"): return None
        else: ctx.bad("%s: its own flag" % key_, w, "adds %s" % (k,))
    return got


def split(v, m):
    """new flags r such that v could be m + r (- and(m, r))"""
    r = lsum(v, m, -1)
    return {k: c for k, c in r.items() if k[0] != "and"}


def leaf(ctx, P, name, allowed, pred=None):
    out = []
    for F in get(ctx, P, "bliss::" + name, lambda f: "coarse_channel" in f.params[0]["t"].s):
        kk = "%s/%d" % (name, len(F.params))
        ev, v = go(ctx, P, F, inline=INL, pure=("bliss::coarse_channel::mask", "bliss::coarse_channel::data"))
        sets = [e for e in ev.effects if e.kind == "call" and e.qn == "bliss::coarse_channel::set_mask"]
        w = F.where()
        ctx.ob(kk + ": sets the mask once", len(sets) == 1 and not sets[0].loops and not extra_conds(sets[0]) if sets or v is not None and free(v) else None, w, "the mask is set %d times, under %s" % (len(sets), [show(c) for e in sets for c in extra_conds(e)]))
        if len(sets) != 1: continue
        e = sets[0]
        ctx.ob(kk + ": returns the channel with that mask", True if v is not None and contains(v, lambda x: x is e.term) else False if v is not None else None, w, "")
        out.append((F, kk, ev, e))
    return out


def accum(ctx, P, name, allowed):
    for F, kk, ev, e in leaf(ctx, P, name, allowed):
        L = Lin()
        v = L.of(e.args[0])
        ms = [x for x in subterms(e.args[0]) if x.op == "call" and x.a[0] == "bliss::coarse_channel::mask"]
        w = e.where()
        if not ms:
            ctx.ob(kk + ": keeps the flags already there", False if free(e.args[0]) else None, w, "the new mask does not depend on the old one"); continue
        m = L.of(ms[0])
        r = split(v, m)
        if is_or(v, m, r): ctx.ok(kk + ": new mask is old or new", w)
        elif not ands(v) and v == lsum(m, r, 1): ctx.bad(kk + ": new mask is old or new", w, "flags are added: one that is set already carries into the next flag")
        elif m and list(m)[0] not in v: ctx.bad(kk + ": new mask is old or new", w, "the flags already there are lost")
        elif ands(v): ctx.ob(kk + ": new mask is old or new", None if any(k[0] not in ("cmp", "and", "t") for k in v) else False, w, "the combination is not old + new - (old & new)")
        else: ctx.unknown(kk + ": new mask is old or new", w, "")
        yield F, kk, ev, r, w


def cmp_is(k, op, small, big):
    return k == ("cmp", op, key(small), key(big))


def conditions(ctx, kk, r, want, w):
    """r: combination; want: [(flag, description, small, big)] strict comparisons"""
    got = {k: c for k, c in r.items() if k[0] == "cmp"}
    if set(k[0] for k in r) - {"cmp"} or not got:
        ctx.unknown(kk + ": conditions", w, str(r)[:100]); return
    for flag, desc, small, big in want:
        mine = [k for k, c in got.items() if c == flag]
        if any(cmp_is(k, "lt", small, big) or cmp_is(k, "le", small, big) for k in mine): ctx.ok("%s: flag %d where %s" % (kk, flag, desc), w)
        else: ctx.bad("%s: flag %d where %s" % (kk, flag, desc), w, "flag %d is set where %s" % (flag, [pretty(k) for k in mine]))
    for k, c in got.items():
        ctx.ob("%s: its own flags" % kk, c in [f[0] for f in want], w, "sets flag value %s" % c)


def pretty(k):
    f = lambda d: " + ".join("%s*%s" % (c, a[2] if a[0] == "t" else a) for a, c in d)
    return "%s %s %s" % (f(k[2]), "<" if k[1] == "lt" else "<=", f(k[3]))


def atom(t): return Lin().of(t)


def rolloff(ctx, P):
    for F, kk, ev, e in leaf(ctx, P, "flag_filter_rolloff", {1}):
        w = e.where()
        width = sym(F.params[1]["n"])
        l = lams(e.args[0])
        if l: r, ef = runlam(ev, l[0], F, [])
        else: r, ef = e.args[0], ev.effects
        asg = [x for x in ef if x.kind == "call" and x.qn in ("bland::ndarray_slice::operator=", "bland::copy", "bland::fill") and (x.obj is not None or len(x.args) == 2)]
        asg = [x for x in asg if x.qn.endswith("operator=")]
        edges = []
        for x in asg:
            o = strip_all_casts(x.old) if x.old is not None else None
            if o is None or not (o.op == "call" and o.a[0].startswith("bland::slice") or o.op == "call" and o.a[0].startswith("bland::ndarray::slice")): ctx.unknown(kk + ": edge", x.where(), ""); continue
            base, spec = strip_all_casts(o.a[1]), o.a[2]
            if not (spec.op == "new" and len(spec.a) >= 4): ctx.unknown(kk + ": edge", x.where(), show(spec)); continue
            ctx.ob(kk + ": works on a copy of the mask", True if contains(base, lambda y: y.op == "call" and y.a[0].split("<")[0] in ("bland::copy", "bland::add")) else False if free(base) else None, x.where(), "changes %s in place, which other channels and readers share" % show(base))
            L = Lin()
            s, v = L.of(o), L.of(x.args[0])
            bit = split(v, s)
            if is_or(v, s, bit): ctx.ok(kk + ": new mask is old or new", x.where())
            elif not ands(v) and v == lsum(s, bit, 1) and list(s)[0] in v: ctx.bad(kk + ": new mask is old or new", x.where(), "the flag is added: where it is set already it carries into the next flag")
            else: ctx.ob(kk + ": new mask is old or new", False if list(s)[0] not in v and v else None, x.where(), "the flags already there are lost")
            ctx.ob(kk + ": its own flag", bit == {("1",): 1}, x.where(), "sets %s" % bit)
            edges.append((x, base, [strip_all_casts(y) for y in spec.a[1:5]]))
        if len(edges) != 2: ctx.ob(kk + ": both edges", False if len(edges) < 2 and asg and len(asg) < 2 else None, w, "%d edges flagged" % len(edges)); continue
        lo = [x for x in edges if x[2][1] is num(0)]
        hi = [x for x in edges if x[2][1] is not num(0)]
        if len(lo) != 1: ctx.ob(kk + ": both edges", False if len(lo) == 2 else None, w, "starts %s" % [show(x[2][1]) for x in edges]); continue
        wd = lo[0][2][2]
        n = hi[0][2][2]
        for x in edges:
            ctx.ob(kk + ": along frequency", x[2][0] is num(1) and (len(x[2]) < 4 or x[2][3] is num(1)), x[0].where(), "the edge is taken along dimension %s with step %s" % (show(x[2][0]), show(x[2][3])))
        isn = n.op == "sel" and n.a[1] is num(1) and "shape" in show(n.a[0]) or n.op == "call" and n.a[0].endswith("size") and n.a[-1] is num(1)
        ctx.ob(kk + ": upper edge ends at the last channel", True if isn else False if free(n) else None, hi[0][0].where(), "the upper edge ends at %s" % show(n))
        st = hi[0][2][1]
        ctx.ob(kk + ": upper edge is as wide as the lower", True if isn and st is sub(n, wd) else False if free(st) else None, hi[0][0].where(), "the upper edge starts at %s" % show(st))
        x, how = wd, []
        while x.op in ("trunc", "round", "floor", "ceil", "cast") or x.op == "call" and x.a[0].split("::")[-1].split("<")[0] in ("round", "lround", "floor", "ceil", "rint", "llround", "lrint", "llrint", "nearbyint"):
            how.append(x.op if x.op != "call" else x.a[0].split("::")[-1].split("<")[0])
            x = strip_all_casts(x.a[-1])
        want = deep_strip(mul(n, width))
        nearest = any(y.endswith("round") or y.endswith("rint") or y == "nearbyint" for y in how)
        if not nearest and strip_all_casts(deep_strip(sub(x, num(Fraction(1, 2))))) is want: x, nearest = sub(x, num(Fraction(1, 2))), True
        if isn and strip_all_casts(deep_strip(x)) is want: ctx.ob(kk + ": width is to the nearest channel", nearest, lo[0][0].where(), "%s channels are flagged" % show(wd))
        good = isn and strip_all_casts(deep_strip(x)) is deep_strip(mul(n, width))
        ctx.ob(kk + ": width is the fraction of channels asked for", True if good else False if x.op == "poly" and free(x) else None, lo[0][0].where(), "%s channels are flagged" % show(wd))
        ctx.ob(kk + ": what is flagged is what is set", True if r is not None and strip_all_casts(r) is edges[0][1] and edges[1][1] is edges[0][1] else None, w, "")


def deep_strip(t): return strip_all_casts(t)


def check(ctx):
    P = ctx.program("bliss/flaggers/")
    # the flags are distinct bits
    rolloff(ctx, P)
    for F, kk, ev, r, w in accum(ctx, P, "flag_magnitude", {16}):
        cc = sym(F.params[0]["n"])
        ds = [x for k in r for x in [k] if k[0] == "cmp"]
        data = [x for e in ev.effects if e.kind == "call" and e.qn == "bliss::coarse_channel::data" for x in [e.term]]
        if not data: ctx.unknown(kk + ": conditions", w, ""); continue
        D = atom(data[0])
        if len(F.params) == 2: conditions(ctx, kk, r, [(16, "the sample exceeds the threshold", atom(sym(F.params[1]["n"])), D)], w)
        else:
            st = {}
            for e in ev.effects:
                if e.kind == "call" and e.qn.split("<")[0] == "bland::ndarray::scalarize":
                    o = e.old if e.old is not None else None
                    for nm in ("mean", "stddev"):
                        if o is not None and strip_all_casts(o).op == "call" and strip_all_casts(o).a[0].split("<")[0] == "bland::" + nm and strip_all_casts(o).a[1] is data[0]: st[nm] = e.term
            if len(st) == 2: conditions(ctx, kk, r, [(16, "the sample exceeds the mean by ten standard deviations", atom(add(st["mean"], mul(num(10), st["stddev"]))), D)], w)
            else: ctx.ob(kk + ": conditions", False if any(k[0] == "cmp" for k in r) and any(e.kind == "call" and e.qn.split("<")[0] == "bland::ndarray::scalarize" for e in ev.effects) else None, w, "the threshold is not made of the mean and the standard deviation")
    for F, kk, ev, r, w in accum(ctx, P, "flag_spectral_kurtosis", {2, 4}):
        sk = [e for e in ev.effects if e.kind == "call" and e.qn == "bliss::estimate_spectral_kurtosis"]
        if len(sk) != 1: ctx.unknown(kk + ": conditions", w, ""); continue
        K = atom(sk[0].term)
        lo, hi, d = (sym(p["n"]) for p in F.params[1:4])
        conditions(ctx, kk, r, [(2, "the kurtosis is below the lower threshold", K, atom(lo)), (4, "the kurtosis is above the upper threshold", atom(hi), K)], w)
        a = sk[0].args; cc_ = sym(F.params[0]["n"])
        for e in ev.effects:
            if e.kind == "call" and e.qn == "bland::ndarray::unsqueeze" and len(e.args) == 1 and isnum(e.args[0]) and e.old is not None and contains(e.old, lambda y: y is sk[0].term):
                ctx.ob(kk + ": the same flags at every time", e.args[0].a[0] in (0, -2), e.where(), "the flags of the channels are laid along dimension %s" % show(e.args[0]))
        if len(a) == 4:
            has = lambda t, n: contains(t, lambda x: x.op == "call" and x.a[0].split("<")[0].endswith(n))
            nn = strip_all_casts(a[1])
            rounded = nn.op == "round" or nn.op == "trunc" and nn.a[0].op == "round"
            if nn.op == "trunc" and nn.a[0].op == "round": nn = nn.a[0]
            mag = product(nn.a[0] if rounded else nn)
            names = None if mag is None else sorted((x.a[0].split("<")[0].split("::")[-1] if x.op == "call" else show(x), n) for x, n in mag[1].items())
            ctx.ob(kk + ": spectra per sample from the sampling time and channel width", (names == [("foff", 1), ("tsamp", 1)] and mag[0] == 10**6) if mag is not None and free(a[1]) else None, sk[0].where(), "N is %s" % show(a[1], 20))
            sg = None
            try:
                sg = True
                for fo in (2.5e-6, -2.5e-6):
                    at = At(lambda t: (fo if show(t).endswith("foff") or show(t).endswith("foff(%s)" % show(cc_)) else 18.25 if "tsamp" in show(t).split(".")[-1] else None) if t.op == "fld" or t.op == "call" and len(t.a) == 2 else None)
                    if abs(float(at(nn)) - 18.25 * 2.5) > 0.6: sg = False
            except (Odd, ZeroDivisionError, TypeError, ValueError, OverflowError): sg = None
            ctx.ob(kk + ": spectra per sample whichever way the frequency runs", sg, sk[0].where(), "N is %s" % show(a[1], 20))
            for t in subterms(strip_all_casts(a[2])):
                ax = t.a[2] if t.op == "call" and t.a[0].split("<")[0] == "bland::ndarray::size" and len(t.a) == 3 else t.a[1] if t.op == "sel" and "shape" in show(t.a[0], 2) else None
                if ax is not None and isnum(ax): ctx.ob(kk + ": time steps are the first extent", ax.a[0] in (0, -2), sk[0].where(), "M is %s" % show(a[2]))
            ctx.ob(kk + ": spectra per sample to the nearest", True if rounded else False if free(a[1]) else None, sk[0].where(), "N is %s" % show(a[1], 20))
            ctx.ob(kk + ": number of time steps", True if has(a[2], "::size") or "shape" in show(a[2]) or has(a[2], "::ntsteps") else False if free(a[2]) else None, sk[0].where(), "M is %s" % show(a[2]))
            ctx.ob(kk + ": shape parameter", eqf(a[3], d), sk[0].where(), "d is %s" % show(a[3]))
            ctx.ob(kk + ": kurtosis of the channel's data", True if has(a[0], "coarse_channel::data") else False if free(a[0]) else None, sk[0].where(), "")
    for F, kk, ev, r, w in accum(ctx, P, "flag_sigmaclip", {32}):
        sigma(ctx, F, kk, ev, r, w)
    # the channel's mask only changes by what the flaggers are given: the flag values are distinct
    ctx.count("flaggers", 4)


def product(t):
    """(|factor|, {atom: exponent}) of a product up to its sign, or None"""
    t = strip_all_casts(t)
    if t.op == "num": return (abs(t.a[0]), {})
    if t.op == "abs": return product(t.a[0])
    if t.op == "inv":
        r = product(t.a[0])
        return None if r is None or r[0] == 0 else (1 / r[0], {x: -n for x, n in r[1].items()})
    if t.op == "poly":
        if len(t.a) != 1: return None
        c, out = abs(t.a[0][0]), {}
        for f in t.a[0][1]:
            r = product(f) if f is not t else None
            if r is None: return None
            c *= r[0]
            for x, n in r[1].items(): out[x] = out.get(x, 0) + n
        return (c, {x: n for x, n in out.items() if n})
    return (Fraction(1), {t: 1})


def fresh(t):
    """a mask without any flags"""
    t = strip_all_casts(t)
    return t.op == "call" and t.a[0].split("<")[0] in ("bland::zeros", "bland::zeros_like") or t.op == "new" and len(t.a) == 2 and fresh(t.a[1])


def sigma(ctx, F, kk, ev, r, w):
    ts = [k for k in r if k[0] == "t"]
    lo = None
    if len(r) == 1 and len(ts) == 1:
        for L in ev.allloops.values():
            for k in L.iter:
                o = [x for e in ev.effects for t in effect_terms(e) for x in subterms(t) if x.op == "lout" and x.a[0] == L.id and x.id == ts[0][1]]
                if o: lo = (L, o[0])
    if lo is None: ctx.unknown(kk + ": conditions", w, str(r)[:150]); return
    L, t = lo
    ctx.ob(kk + ": its own flags", r[ts[0]] == 32, w, "sets flag value %s" % r[ts[0]])
    kf = [k for k in L.iter if L.init[k] is t.a[2] and L.iter[k].op == "iter" and L.iter[k].a[1] == t.a[1]]
    if not kf: ctx.unknown(kk + ": conditions", w, ""); return
    ini = L.init[kf[0]]
    ctx.ob(kk + ": without iterations nothing is flagged", True if ini.op == "call" and ini.a[0].startswith("bland::zeros") else None, w, "")
    nx = L.next[kf[0]]
    n = Lin().of(nx)
    low, high = (atom(sym(p["n"])) for p in F.params[2:4])
    stats = [e for e in ev.effects if e.kind == "call" and e.qn == "bland::masked_mean_stddev"]
    data = [e.term for e in ev.effects if e.kind == "call" and e.qn == "bliss::coarse_channel::data"]
    cs = {k: c for k, c in n.items() if k[0] == "cmp"}
    me = L.iter[kf[0]]
    if cs and any(k == ("t", me.id, show(me, 6)) or k[0] == "t" and k[1] == me.id for k in n): ctx.bad(kk + ": its own flags", w, "what was flagged in the turn before is added: a sample flagged twice gets another flag's value")
    settled(ctx, kk, L, w)
    if set(k[0] for k in n) - {"cmp"} or len(cs) != 2 or not data: ctx.unknown(kk + ": conditions", w, str(n)[:150]); return
    D = key(atom(data[0]))
    below = [k for k in cs if k[2] == D]
    above = [k for k in cs if k[3] == D]
    ctx.ob(kk + ": one test below and one above", len(below) == 1 and len(above) == 1 and all(c == 1 for c in cs.values()), w, "%s" % [pretty(k) for k in cs])
    if len(below) == 1 and len(above) == 1:
        def parts(d):
            mean, sd = [], []
            for a, c in d:
                (sd if a[0] == "mul" else mean).append((a, c))
            return mean, sd
        mb, sb = parts(below[0][3])
        ma, sa = parts(above[0][2])
        if len(mb) == len(sb) == len(ma) == len(sa) == 1:
            ctx.ob(kk + ": the lower limit is below the mean by the lower factor", sb[0][1] == -1 and mb[0][1] == 1 and list(low)[0] in sb[0][0], w, pretty(below[0]))
            ctx.ob(kk + ": the upper limit is above the mean by the upper factor", sa[0][1] == 1 and ma[0][1] == 1 and list(high)[0] in sa[0][0], w, pretty(above[0]))
            ctx.ob(kk + ": both limits use the same statistics", mb[0][0] == ma[0][0] and [x for x in sb[0][0][1:] if x not in low] == [x for x in sa[0][0][1:] if x not in high], w, "")
            # which member is the mean and which the deviation
            its = {"t": {}}
            for k in L.iter:
                x = L.iter[k]
                i0 = L.init[k]
                m = None
                y = strip_all_casts(i0)
                if y.op == "fld" and y.a[1] in ("first", "second") and y.a[0].op == "call" and "masked_mean_stddev" in y.a[0].a[0]: m = y.a[1]
                if m is None: continue
                nm = ("t", x.id, show(x, 6))
                if nm == mb[0][0]: ctx.ob(kk + ": the mean is the mean", m == "first", w, "the centre of the limits is the %s of mean and deviation" % m)
                if nm in sb[0][0]: ctx.ob(kk + ": the deviation is the deviation", m == "second", w, "the width of the limits is the %s of mean and deviation" % m)
                nxt = strip_all_casts(L.next.get(k)) if L.next.get(k) is not None else None
                fl = [y for c, y in leaves(nxt)] if nxt is not None else []
                for y in fl:
                    if y is x: continue
                    g = y.op == "fld" and y.a[0].op == "call" and "masked_mean_stddev" in y.a[0].a[0]
                    ctx.ob(kk + ": statistics follow the flags", (y.a[1] == m and (len(y.a[0].a) < 3 or contains(y.a[0].a[2], lambda z: z is nx) or (None if contains(y.a[0].a[2], lambda z: z.op in ("iter", "lout", "unk")) and not fresh(y.a[0].a[2]) else False))) if g else None, w, "the %s becomes %s" % (m, show(y)[:400]))
            for c, mm in ((mb[0][0], "first"),) + tuple((x, "second") for x in sb[0][0][1:] if x not in low):
                for y in subterms(nx):
                    if ("t", y.id, show(y, 6)) == c and y.op == "fld" and y.a[0].op == "call" and "masked_mean_stddev" in y.a[0].a[0] and len(y.a[0].a) > 2:
                        ctx.ob(kk + ": the %s is the %s" % (("mean",) * 2 if mm == "first" else ("deviation",) * 2), y.a[1] == mm, w, "")
                        ctx.ob(kk + ": statistics follow the flags", True if contains(y.a[0].a[2], lambda z: z is t or z is L.iter[kf[0]]) else False if fresh(y.a[0].a[2]) else None, w, "every iteration clips against the statistics of all samples: the flags found so far are not left out")
    for s in stats:
        ctx.ob(kk + ": statistics of the channel's data", eqf(s.args[0], data[0]), s.where(), "")


def settled(ctx, kk, L, w):
    """the iterations end early only when neither statistic moves any more"""
    for b in L.breaks or []:
        cs = [x for x in (b if isinstance(b, tuple) else (b,)) if not loop_guard(x, [L])]
        early = late = True
        try:
            for dm in (0.0, 0.5, -0.5, 3.0, -3.0):
                for ds in (0.0, 0.5, -0.5, 3.0, -3.0):
                    def leaf(t):
                        if t.op == "call" and str(t.a[0]).split("<")[0] == "bland::ndarray::scalarize":
                            m = {y.a[1] for y in subterms(t) if y.op == "fld" and y.a[1] in ("first", "second") and y.a[0].op == "call" and "masked_mean_stddev" in str(y.a[0].a[0])}
                            if len(m) == 1: return dm if m == {"first"} else ds
                            raise Odd("which statistic")
                        return None
                    at = At(leaf)
                    ends = all(at(c) for c in cs)
                    if ends and (dm or ds): early = (dm, ds)
                    if not ends and not (dm or ds): late = False
        except (Odd, ZeroDivisionError, TypeError, ValueError): continue
        ctx.ob(kk + ": goes on while a statistic changes", early is True, w, "ends after the mean changed by %s and the deviation by %s" % (early if early is not True else ("", "")))


def leaves(t, c=()):
    if t.op == "ite":
        return leaves(t.a[1], c + (t.a[0],)) + leaves(t.a[2], c + (lnot(t.a[0]),))
    return [(c, t)]


if __name__ == "__main__": main("C05", RULE, check, 4)
