import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.check import *
from vlib.lists import Lists, Odd
from vlib.terms import *
from vlib.terms import num as TT_num
from checks.c09 import Summary, plain, isarr, part, branches, known

RULE = ("every reduction kernel's stored value, written as a formula over the sums its loops accumulate (power sums of the elements, optionally restricted to "
        "unmasked elements, and element counts), is identical to the statistic's definition; every public overload hands its own array, mask, output and axes "
        "to that kernel and creates the output with the extents of the dimensions kept")

N, S1, S2, C, M1, M2 = [sym(x) for x in ("N", "S[x]", "S[x*x]", "S[1|unmasked]", "S[x|unmasked]", "S[x*x|unmasked]")]
DEV = lambda s1, s2, n: sub(div(s2, n), mul(div(s1, n), div(s1, n)))
MEAN, MMEAN = div(S1, N), div(M1, C)
STD, MSTD = raw("sqrt", DEV(S1, S2, N)), raw("sqrt", DEV(M1, M2, C))
# kernel: (parameter positions of input, mask, {output position: (name, definition)})
KERNELS = {
    "mean_impl::call": (1, None, {0: ("mean", MEAN)}), "masked_mean_impl::call": (1, 2, {0: ("masked mean", MMEAN)}),
    "stddev_impl::call": (1, None, {0: ("standard deviation", STD)}), "masked_stddev_impl::call": (1, 2, {0: ("masked standard deviation", MSTD)}),
    "bland::cpu::mean_stddev": (0, None, {1: ("mean", MEAN), 2: ("standard deviation", STD)}),
    "bland::cpu::masked_mean_stddev": (0, 1, {2: ("masked mean", MMEAN), 3: ("masked standard deviation", MSTD)}),
    "sum_impl::call": (1, None, {0: ("sum", S1)}), "max_impl::call": (1, None, {0: ("maximum", raw("maximum"))}),
    "standardized_moment_impl::call": (1, None, {0: ("standardized moment", None)}),
    "count_impl::call": (0, None, {"ret": ("count", sym("S[1|true]"))})}


class Formula:
    def __init__(self, ev, F, inp, mask):
        self.ev, self.F = ev, F
        self.inp = F.params[inp]["n"]
        self.mask = F.params[mask]["n"] if mask is not None else None

    def elem(self, t):
        """the array whose element t is"""
        if t.op == "deref":
            for x in subterms(t):
                if x.op == "call" and x.a[0].startswith("bland::ndarray::data_ptr"): return show(plain(x.a[1]))
        if t.op == "sel" and t.a[0].op in ("deref", "call"):
            for x in subterms(t.a[0]):
                if x.op == "call" and x.a[0].startswith("bland::ndarray::data_ptr"): return show(plain(x.a[1]))
        return None

    def norm(self, t, L=None):
        """t with element reads of the loop L and sums replaced by symbols"""
        memo = {}
        def f(x):
            while x.op in ("cast", "trunc") and x.a[-1] is not None: return subst(x.a[-1], f, memo)
            a = self.elem(x)
            if a is not None:
                if L is not None and self.varies(x, L):
                    return sym("x") if a == self.inp else sym("m") if a == self.mask else raw("elem", a)
                return raw("fixed", x)
            if x.op == "lout":
                r = self.total(x)
                return r
            return None
        return subst(t, f, memo)

    def varies(self, x, L):
        return contains(x, lambda y: y.op in ("iter", "ctr") and y.a[0] == L.id)

    def total(self, t):
        L = self.ev.allloops.get(t.a[0])
        if L is None: return raw("unk", "loop")
        if any(t is strip(tr) for tr in self.trips()): return N
        it = next((v for v in L.iter.values() if v.op == "iter" and v.a[1] == t.a[1]), None)
        if it is None: return raw("unk", "accumulator")
        nxt = self.norm(replace(t.a[3], it, sym("acc")), L)
        acc = sym("acc")
        init = self.norm(t.a[2])
        if contains(t.a[3], lambda x: x.op == "max") or nxt.op in ("max",) or nxt.op == "ite" and contains(nxt.a[0], lambda x: x is acc):
            return self.maximum(nxt, init, acc)
        def parts(x, cond):
            if x.op == "ite":
                c = x.a[0]
                a, b = parts(x.a[1], cond + [c]), parts(x.a[2], cond + [lnot(c)])
                return None if a is None or b is None else a + b
            d = sub(x, acc)
            if contains(d, lambda y: y is acc): return None
            return [(cond, d)]
        ps = parts(nxt, [])
        if ps is None: return raw("unk", "accumulation " + show(nxt))
        out = init
        # the same thing is accumulated in every case
        if len(ps) > 1 and all(d is ps[0][1] for _, d in ps): ps = [([], ps[0][1])]
        for cond, d in ps:
            for m, co in pdict(d).items():
                var = [x for x in m if contains(x, lambda y: y is sym("x") or y.op == "elem" or y is sym("m"))]
                inv = [x for x in m if not contains(x, lambda y: y is sym("x") or y.op == "elem" or y is sym("m"))]
                out = add(out, mul(pmake({tuple(inv): co}), self.power(pmake({tuple(var): 1}), cond)))
        return out

    def power(self, p, cond):
        c = ""
        for k in cond:
            k = truth(k)
            if k is eq(sym("m"), ZERO): c = "|unmasked"
            elif k is lnot(eq(sym("m"), ZERO)): c = "|masked"
            elif k is truth(sym("x")) or k is lnot(eq(sym("x"), ZERO)) or show(k) == "bool(x)": c = "|true"
            else: return raw("unk", "condition " + show(k))
        if p is ONE and not c: return N
        return sym("S[%s%s]" % (show(p).replace("(", "").replace(")", ""), c))

    def maximum(self, nxt, init, acc):
        x = sym("x")
        ok = nxt is tmax(acc, x) or nxt is tmax(x, acc) or nxt is ite(lt(acc, x), x, acc) or nxt is ite(le(acc, x), x, acc)
        low = show(init)
        if ok and ("lowest" in low or "infinity" in low): return raw("maximum")
        return raw("not-maximum", nxt, init)

    def trips(self):
        if not hasattr(self, "_trips"):
            self._trips = []
            for e in self.ev.effects:
                if e.kind == "read" and e.loops:
                    for L in e.loops:
                        if L.trip is not None and strip(L.trip) not in self._trips and contains(L.trip, lambda x: x.op == "lout"): self._trips.append(strip(L.trip))
        return self._trips


def strip(t): return strip_all_casts(t)


def moment(v):
    """(sum of (x-mean)^degree * s) / (eps + (sum of (x-mean)^2 * s)^(degree/2)) with the same s"""
    return None


def value(ctx, q, name, spec, v, where, clamp):
    key = "%s: %s" % (q, name)
    if spec is None: return
    w = v
    if w.op == "call" and w.a[0].split("<")[0] in ("sqrt", "std::sqrt"): w = raw("sqrt", *w.a[1:])
    if w.op == "sqrt":
        r = w.a[0]
        if r.op == "max" and ZERO in r.a: r = next((x for x in r.a if x is not ZERO), ZERO)
        elif any(co < 0 for co in pdict(r).values()): clamp = False
        w = raw("sqrt", r)
    if w is spec:
        ctx.ob(key, clamp, where, "the variance can come out negative by rounding and its square root is not a number"); return
    ok = False if not contains(w, lambda x: x.op in ("unk", "fixed", "lout", "iter", "elem", "call", "ctr", "itr", "ite", "idiv", "var", "fld", "sel")) else None
    ctx.ob(key, ok, where, "the %s is computed as %s instead of %s" % (name, show(v), show(spec)))


def check(ctx):
    P = ctx.program("bland/ops/")
    for q, (inp, mask, outs) in KERNELS.items():
        if q not in P.byqn: ctx.ob(q, None, "", "no such kernel"); continue
        for F in P.byqn[q][:3]:
            if len(F.params) <= max([inp, mask or 0] + [o for o in outs if o != "ret"]): ctx.ob(q, None, F.where(), "parameters"); continue
            ev = ctx.evaluator(P, inline=lambda d: d.file.startswith("/repo/bland/bland/ops/cpu/") and not d.cls and not d.qn.startswith("bland::"), record_reads=True)
            ev.run(F)
            fm = Formula(ev, F, inp, mask)
            tag = q + ("<%s>" % ",".join(F.ta) if F.ta else "")
            seen = set()
            for e in ev.effects:
                if e.kind == "ret" and "ret" in outs and e.val is not None:
                    value(ctx, tag, outs["ret"][0], outs["ret"][1], fm.norm(e.val), e.where(), True); seen.add("ret")
                if e.kind != "write": continue
                arr = None
                for x in [e.loc[0]] + [y.a[0] for y in e.loc[1] if y.op == "i"]:
                    for y in subterms(x):
                        if y.op == "call" and y.a[0].startswith("bland::ndarray::data_ptr"): arr = plain(y.a[1])
                o = next((i for i in outs if i != "ret" and arr is not None and show(arr) == F.params[i]["n"]), None)
                if o is None: continue
                seen.add(o)
                value(ctx, tag, outs[o][0], outs[o][1], fm.norm(e.val), e.where(), True)
                if outs[o][1] is None: standardized(ctx, tag, fm, e)
            for o in outs:
                if o not in seen: ctx.ob(tag + ": " + outs[o][0], None, F.where(), "no value stored")
            ctx.count("kernel instantiations")
    delegation(ctx, P)


def standardized(ctx, q, fm, e):
    """moment of the given degree over the variance to half that degree, both about the mean and normalised alike"""
    key = q + ": standardized moment"
    v = fm.norm(e.val)
    ps = pdict(v)
    deg = next((sym(p["n"]) for p in fm.F.params if p["n"] == "degree"), None)
    louts = [x for x in subterms(e.val) if x.op == "lout"]
    sums = {}
    for x in louts:
        L = fm.ev.allloops.get(x.a[0])
        it = next((i for i in L.iter.values() if i.op == "iter" and i.a[1] == x.a[1]), None) if L else None
        if it is None or x.a[2] is not ZERO: continue
        nxt = fm.norm(x.a[3], L)
        d = sub(nxt, fm.norm(it, L))
        if contains(d, lambda y: y is sym("x")): sums[x.id] = (x, d)
    if len(sums) != 2: ctx.ob(key, None, e.where(), "%d sums" % len(sums)); return
    pw = [d for x, d in sums.values() if contains(d, lambda y: y.op == "call" and "pow" in y.a[0] or y.op == "pow")]
    sq = [d for x, d in sums.values() if d not in pw]
    if len(pw) != 1 or len(sq) != 1: ctx.ob(key, None, e.where(), "sums"); return
    items = list(pdict(pw[0]).items())
    if len(items) != 1: ctx.ob(key, None, e.where(), show(pw[0])); return
    m, co = items[0]
    P = [x for x in m if x.op == "call" and "pow" in x.a[0] or x.op == "pow"]
    if len(P) != 1: ctx.ob(key, None, e.where(), show(pw[0])); return
    scale = pmake({tuple(x for x in m if x is not P[0]): co})
    dev = P[0].a[-2]
    ok = sq[0] is mul(scale, mul(dev, dev))
    ctx.ob(key + ": variance", ok if known2(sq[0]) else None, e.where(), "the moment sums %s, the variance %s" % (show(pw[0]), show(sq[0])))
    rest = sub(dev, sym("x"))
    mean = neg(rest)
    okm = None
    if mean.op == "fixed":
        u = [y for y in subterms(mean) if y.op == "call" and y.a[0].split("<")[0].endswith("mean_impl::call")]
        okm = bool(u) and not any("masked" in y.a[0] for y in u)
    elif rest is ZERO or isnum(rest): okm = False
    ctx.ob(key + ": about the mean", okm, e.where(), "deviations are taken from %s" % show(mean))
    t = strip(e.val)
    ratio(ctx, key, t, [x for x, d in sums.values() if d is pw[0]][0], [x for x, d in sums.values() if d is sq[0]][0], deg, e.where())
    inv1 = inv(N)
    invm = inv(sub(N, ONE))
    ctx.ob(key + ": normalisation", True if scale in (inv1, invm) else None, e.where(), show(scale))


def ratio(ctx, key, t, num, den, deg, where):
    num, den = strip(num), strip(den)
    ps = list(pdict(t).items())
    ok, why = None, show(t, 5)
    if len(ps) == 1 and ps[0][1] == 1 and num in ps[0][0]:
        rest = pmake({tuple(x for x in ps[0][0] if x is not num): 1})
        D = inv(rest)
        terms = pdict(D)
        eps = terms.get((), 0)
        main = [(m, c) for m, c in terms.items() if m != ()]
        if len(main) == 1 and main[0][1] == 1 and len(main[0][0]) == 1:
            w = main[0][0][0]
            if w.op == "pow" or w.op == "call" and "pow" in w.a[0]:
                base, ex = w.a[-2], w.a[-1]
                if base is den and deg is not None: ok = ex is mul(deg, inv(num_(2))) and abs(eps) < 1e-6
                why = "the moment is divided by %s" % show(D, 5)
            elif w is den: ok = False
    ctx.ob(key + ": divided by the variance to half the degree", ok, where, why)


def num_(x): return TT_num(x)


PUBLIC = {"mean": "mean_impl::call", "masked_mean": "masked_mean_impl::call", "stddev": "stddev_impl::call", "masked_stddev": "masked_stddev_impl::call",
          "mean_stddev": "bland::cpu::mean_stddev", "masked_mean_stddev": "bland::cpu::masked_mean_stddev", "sum": "sum_impl::call", "max": "max_impl::call",
          "standardized_moment": "standardized_moment_impl::call", "count_true": "count_impl::call"}


class Delegation(Summary):
    def of(self, F):
        if F.qn in KERNELS:
            return [(F, {i: i for i in range(len(F.params))}, None, F.where())]
        return Summary.of(self, F)


def delegation(ctx, P):
    S = Delegation(ctx, P)
    for name, kernel in PUBLIC.items():
        for F in P.byqn.get("bland::" + name, []):
            q = "bland::%s(%s)" % (name, ", ".join(p["t"].s.replace("bland::", "") for p in F.params))
            L = S.of(F)
            if not L: ctx.ob(q + ": reaches a kernel", None, F.where(), ""); continue
            wrong = sorted(set(l[0].qn for l in L if l[0].qn != kernel))
            ctx.ob(q + ": kernel", not wrong, F.where(), "%s is computed by %s" % (name, ", ".join(wrong)))
            if wrong: continue
            inp, mask, outs = KERNELS[kernel]
            arrays = [i for i, p in enumerate(F.params) if isarr(p["t"])]
            want = {inp: arrays[0]}
            rest = arrays[1:]
            if mask is not None and rest: want[mask] = rest.pop(0)
            fresh = not rest
            for o in [o for o in outs if o != "ret"]:
                if rest: want[o] = rest.pop(0)
            K = P.byqn[kernel][0]
            for i, p in enumerate(K.params):
                same = [j for j, x in enumerate(F.params) if x["t"].s == p["t"].s and not isarr(x["t"])]
                if i not in want and not isarr(p["t"]) and len(same) == 1: want[i] = same[0]
            for leaf, roles, o, w in L:
                for k, j in want.items():
                    r = roles.get(k)
                    what = "%s of %s" % (K.params[k]["n"], name)
                    if isinstance(r, int): ctx.ob(q + ": " + what, r == j, F.where(), "the kernel gets %s" % F.params[r]["n"])
                    elif isinstance(r, tuple) and r[0] == "term" and isarr(K.params[k]["t"]):
                        t = plain(r[1])
                        ctx.ob(q + ": " + what, None, F.where(), show(t))
                    elif isinstance(r, tuple) and r[0] == "term":
                        # the axes, or all axes when none are given
                        n = F.params[j]["n"]
                        m = set(show(x) for x in subterms(r[1]) if x.op in ("sym", "var", "param"))
                        ctx.ob(q + ": " + what, True if n in m else False, F.where(), "the kernel gets %s" % show(r[1]))
                break
            if fresh:
                for k in [o for o in outs if o != "ret"]:
                    created(ctx, S, F, q, L[0][1].get(k), F.params[arrays[0]]["n"])
            ctx.count("public overloads")
    for name, base in (("var", "stddev"), ("masked_var", "masked_stddev")):
        for F in P.byqn.get("bland::" + name, []):
            q = "bland::%s(%s)" % (name, ", ".join(p["t"].s.replace("bland::", "") for p in F.params))
            ev = S.ev(F)
            sd = [e for e in ev.effects if e.kind == "call" and e.qn == "bland::" + base]
            rt = [e for e in ev.effects if e.kind == "ret"]
            if len(sd) != 1 or len(rt) != 1: ctx.ob(q + ": square of the standard deviation", None, F.where(), ""); continue
            args = [show(plain(a)) for a in sd[0].args]
            ctx.ob(q + ": arguments", args == [p["n"] for p in F.params][:len(args)], F.where(), "%s is called with %s" % (base, ", ".join(args)))
            outs = [p["n"] for p in F.params if p["t"].s == "bland::ndarray &"]
            v = plain(rt[0].val)
            while v.op in ("out", "new") and len(v.a) > 1: v = plain(v.a[0] if v.op == "out" else v.a[1])
            if v.op != "call" or v.a[0].split("<")[0] != "bland::square": ctx.ob(q + ": square of the standard deviation", False if v.op == "call" and v.a[0].split("<")[0] == "bland::" + base else None, F.where(), show(v)); continue
            src = plain(v.a[1])
            ctx.ob(q + ": square of the standard deviation", True if contains(src, lambda x: x is sd[0].term) or outs and contains(src, lambda x: x.op == "out") else None, F.where(), show(src))
            if outs: ctx.ob(q + ": variance is left in the output", len(v.a) > 2 and contains(v.a[2], lambda x: show(x) == outs[0] or x.op == "out"), F.where(), "the output array keeps the standard deviation")


def created(ctx, S, F, q, r, a):
    """an output the overload creates has the extents of the dimensions kept and the input's type and device"""
    t = plain(r[1]) if isinstance(r, tuple) and r[0] == "term" else None
    if t is not None and t.op == "out": t = plain(t.a[0])
    if t is None or t.op != "new" or len(t.a) < 4: ctx.ob(q + ": output", None, F.where(), ""); return
    for n, x in (("dtype", t.a[2]), ("device", t.a[3])):
        y = part(n, x)
        ctx.ob(q + ": output " + n, show(y) == a if y is not None else None, F.where(), "the output has %s" % show(x))
    ev = S.ev(F)
    axes = F.params[-1]["n"]
    ok, why = True, ""
    for shape, red in [([2, 3, 5], r_) for r_ in ([], [0], [1], [2], [0, 2], [1, 0], [2, 1, 0])] + [([4], []), ([4], [0]), ([7, 1, 2, 3], [1, 3]), ([7, 1, 2, 3], [0])]:
        def leaf(x):
            if x.op in ("sym", "var", "param", "local", "root", "p") and show(x) == axes: return red
            if x.op == "call" or x.op == "fld":
                for nm, v in (("shape", shape), ("strides", [11 * k + 13 for k in range(len(shape))]), ("offsets", [0] * len(shape)), ("ndim", len(shape))):
                    p = part(nm, x)
                    if p is not None and show(p) == a: return v
        want = [shape[k] for k in range(len(shape)) if k not in red] if red else []
        want = want or [1]
        try: got = Lists(leaf, ev.allloops)(t.a[1])
        except (Odd, TypeError, KeyError, IndexError, ZeroDivisionError) as x: ok, why = None, "shape not recognised: %s (%s)" % (show(t.a[1], 3), x); break
        if got != want: ok, why = False, "reducing axes %s of extents %s gives an output of extents %s, not %s" % (red, shape, got, want); break
    ctx.ob(q + ": output extents", ok, F.where(), why)


def known2(t): return not contains(t, lambda x: x.op in ("unk", "elem"))


if __name__ == "__main__": main("C10", RULE, check, 5)
