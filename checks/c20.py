import sys, os, math, itertools; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.rules import *
from vlib.ev import F as F_
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

RULE = ("normalisation stores, in the channel it was given, that channel's data divided by its maximum over every axis; equalisation stores the channel's data divided by the response moved to the channel's device; "
        "the overloads that name a file read the response from that file with the given type and go the same way; the filter designed has tap n = sinc(fc (n-(N-1)/2)) times the Hamming window, every tap written once; the "
        "power spectrum of N samples writes |X_k|^2 exactly at N/2+k and N/2-k, inside the N outputs; the response designed is the spectrum of that filter (taps x channels long, cut off at 1/channels) padded with zeros to "
        "the full band, folded by whole channels such that DC is at the middle of a channel, summed over channels and divided by its maximum")
IN = lambda d: (B(d) or d.qn.startswith("(anon)")) and not d.qn.startswith(("bliss::coarse_channel::", "bland::"))


class Odd(Exception): pass
class Beyond(Odd): pass


def name(t): return t.a[0].split("<")[0] if t.op == "call" else None


def arr(t):
    """an array value without wrappers that keep its elements"""
    t = strip_all_casts(t)
    while True:
        if t.op == "new" and str(t.a[0]).split("<")[0] in ("bland::ndarray", "bland::ndarray_deferred", "bland::ndarray_slice") and len(t.a) in (2, 3) and t.a[1].op != "vec": t = strip_all_casts(t.a[1])
        elif t.op in ("deref", "ref"): t = strip_all_casts(t.a[0])
        elif t.op == "call" and ("operator bland::ndarray" in t.a[0] or name(t) in ("bland::copy", "bland::ndarray_deferred::operator ndarray")) and len(t.a) == 2: t = strip_all_casts(t.a[1])
        else: return t


def core(t):
    t = strip_all_casts(t)
    while t.op in ("upd", "rec", "deref", "ref", "out"): t = strip_all_casts(t.a[0])
    return t


def plain(t): return subst(t, lambda x: core(x) if x.op in ("upd", "out") else None)


def known(t): return not contains(t, lambda x: x.op in ("undef", "unk"))


QUOT = ("bland::divide", "bland::operator/", "bland::ndarray::operator/")


def quotient(t):
    """(numerator, denominator) if t is an elementwise division; None"""
    t = arr(t)
    if t.op == "call" and name(t) in QUOT and len(t.a) >= 3: return t.a[1], t.a[2]
    return None


def data_of(t, cc):
    t = arr(t)
    if t.op == "call" and name(t) == "bliss::coarse_channel::data":
        o = t.a[1]
        # the data before anything else was stored
        x = strip_all_casts(o)
        while x.op in ("upd", "deref", "ref"):
            if x.op == "upd" and x.a[1].op == "call" and name(x.a[1]) in ("bliss::coarse_channel::set_data",): return False
            x = strip_all_casts(x.a[0])
        return True if x is cc else False if x.op == "sym" else None
    return False if free(plain(t)) and known(t) else None


# ---------------------------------------------------------------------- evaluation of closed forms at given values
class At:
    """value of closed terms; leaf(t) gives the value of a leaf or None"""
    loops = {}

    def __init__(self, leaf): self.leaf = leaf

    def __call__(self, t):
        v = self.leaf(t)
        if v is not None: return v
        o = t.op
        if o == "num": return t.a[0]
        if o == "poly":
            s = 0
            for c, m in t.a:
                p = c
                for x in m: p = p * self(x)
                s = s + p
            return s
        if o == "cast":
            v = self(t.a[-1])
            k = str(t.a[0])
            if k.startswith(("i", "u")) and not isinstance(v, bool):
                if k.startswith("u") and v < 0: raise Odd("wraps")
                return int(v)
            return float(v)
        if o == "trunc": return int(self(t.a[0]))
        if o == "ceil": return math.ceil(self(t.a[0]))
        if o == "floor": return math.floor(self(t.a[0]))
        if o == "round": return self(t.a[0])
        if o == "abs": return abs(self(t.a[0]))
        if o == "inv":
            d = self(t.a[0])
            if d == 0: raise ZeroDivisionError
            return 1.0 / float(d)
        if o == "idiv":
            a, b = self(t.a[0]), self(t.a[1])
            if b == 0: raise ZeroDivisionError
            q = abs(int(a)) // abs(int(b))
            return q if (a >= 0) == (b >= 0) else -q
        if o == "imod":
            a, b = int(self(t.a[0])), int(self(t.a[1]))
            if b == 0: raise ZeroDivisionError
            return int(math.copysign(abs(a) % abs(b), a)) if a else 0
        if o == "bit&": return int(self(t.a[0])) & int(self(t.a[1]))
        if o == "bit<<": return int(self(t.a[0])) << int(self(t.a[1]))
        if o == "bit>>": return int(self(t.a[0])) >> int(self(t.a[1]))
        if o == "min": return min(self(x) for x in t.a)
        if o == "max": return max(self(x) for x in t.a)
        if o == "sqrt": return math.sqrt(self(t.a[0]))
        if o == "pow": return float(self(t.a[0])) ** float(self(t.a[1]))
        if o == "ite": return self(t.a[1] if self(t.a[0]) else t.a[2])
        if o == "lt0": return self(t.a[0]) > 0
        if o == "le0": return self(t.a[0]) >= 0
        if o == "eq0": return self(t.a[0]) == 0
        if o == "not": return not self(t.a[0])
        if o == "and": return all(self(x) for x in t.a)
        if o == "or": return any(self(x) for x in t.a)
        if o == "call":
            n = (name(t) or "").split("::")[-1]
            f = {"cos": math.cos, "sin": math.sin, "cosf": math.cos, "sinf": math.sin, "ceil": math.ceil, "floor": math.floor, "fabs": abs, "exp": math.exp, "tan": math.tan, "sqrt": math.sqrt, "ceilf": math.ceil, "floorf": math.floor,
                 "trunc": int, "round": lambda v: math.floor(v + .5), "norm": lambda v: abs(v) ** 2}.get(n)
            if f and len(t.a) == 2: return f(self(t.a[1]))
            if n in ("pow", "powf"): return float(self(t.a[1])) ** float(self(t.a[2]))
            if n == "hypot": return math.hypot(self(t.a[1]), self(t.a[2]))
        if o == "sel":
            return self.element(t.a[0], self(t.a[1]))
        if o == "size":
            return self.length(t.a[0])
        raise Odd("no value for " + show(t, 3))

    def length(self, v):
        v = strip_all_casts(v)
        if v.op == "vec": return len(v.a)
        if v.op == "filled": return self(v.a[1])
        raise Odd("length of " + show(v, 3))

    def element(self, v, k):
        v = strip_all_casts(v)
        if v.op == "vec":
            if not 0 <= k < len(v.a): raise Beyond("outside a list")
            return self(v.a[int(k)])
        if v.op == "lout":
            i, init, nxt = v.a[0], strip_all_casts(v.a[2]), strip_all_casts(v.a[3])
            if nxt.op == "pushed" and strip_all_casts(nxt.a[0]).op == "iter" and strip_all_casts(nxt.a[0]).a[0] == i:
                n = self.length(init)
                if k < n: return self.element(init, k)
                return At(lambda t: k - n if t.op == "ctr" and t.a[0] == i else self.leaf(t))(nxt.a[1])
            if nxt.op == "rec" and strip_all_casts(nxt.a[0]).op == "iter" and strip_all_casts(nxt.a[0]).a[0] == i and len(nxt.a) == 2 and len(nxt.a[1].a) == 2 and nxt.a[1].a[0].op == "i":
                # stored by index: the last turn that stores there
                L = At.loops.get(i)
                if L is None or L.trip is None or L.hasret or getattr(L, "breaks", None): raise Odd("element of " + show(v, 4))
                for c in range(int(self(L.trip)) - 1, -1, -1):
                    at = At(lambda t: c if t.op == "ctr" and t.a[0] == i else self.leaf(t))
                    if at(nxt.a[1].a[0].a[0]) == k: return at(nxt.a[1].a[1])
                return self.element(init, k)
        if v.op == "filled":
            if not 0 <= k < self(v.a[1]): raise Beyond("outside a list")
            return self(v.a[0])
        raise Odd("element of " + show(v, 4))


def every(e, env, loops, limit=64):
    """values of the loop counters for which the effect e happens"""
    ls = [L for L in loops]
    out = []

    def go(i, ctrs):
        leaf = lambda t: ctrs.get(t.a[0]) if t.op == "ctr" and t.a[0] in ctrs else env(t)
        if i == len(ls):
            if all(At(leaf)(c) for c in e.pc): out.append(leaf)
            return
        L = ls[i]
        if L.hasret or getattr(L, "breaks", None): raise Odd("a loop that is left early")
        if L.trip is None: raise Odd("a loop of unknown length")
        n = At(leaf)(L.trip)
        if n > limit: raise Odd("too long")
        for k in range(int(max(n, 0))): go(i + 1, {**ctrs, L.id: k})
    go(0, {})
    return out


def loops_of(ev, e): return [ev.allloops[l] if not hasattr(l, "trip") else l for l in e.loops]


# ---------------------------------------------------------------------- channels
def channels(ctx, P):
    def stored(key, F, want, denominator):
        cc = sym(F.params[0]["n"])
        ev, v = go(ctx, P, F, inline=IN)
        sets = [e for e in ev.effects if e.kind == "call" and e.qn.split("<")[0] == "bliss::coarse_channel::set_data"]
        w = F.where()
        if not sets:
            n = any(e.kind in ("write",) for e in ev.effects)
            ctx.ob(key + ": stores the quotient", None if n or v is None or v.op == "undef" else False, w, "nothing is stored"); return
        last = sets[-1]
        if len(sets) > 1 or last.loops: ctx.unknown(key + ": stores the quotient", last.where(), "stored in several places"); return
        ctx.ob(key + ": always", True if not last.pc else None if not all(free(c) for c in last.pc) else False, last.where(), "only if %s" % [show(c, 6) for c in last.pc])
        o = core(last.term.a[1]) if last.term.op == "call" and len(last.term.a) > 2 else None
        ctx.ob(key + ": in the channel given", None if o is None else o is cc, last.where(), "stored in %s" % (show(o) if o is not None else "?"))
        val = arr(last.args[0])
        if val.op == "lam":
            r, effs = runlam(ev, val, F)
            val = arr(r) if r is not None else None
        if val is None: ctx.unknown(key + ": stores the quotient", last.where(), ""); return
        q = quotient(val)
        if q is None:
            ctx.ob(key + ": stores the quotient", False if val.op == "call" and known(val) and (name(val) or "").startswith("bland::") and data_of(val.a[1] if len(val.a) > 1 else val, cc) else False if data_of(val, cc) is True else None, last.where(), "stores %s" % show(val, 7)); return
        ctx.ob(key + ": divides the channel's data", data_of(q[0], cc), last.where(), "divides %s" % show(q[0], 7))
        denominator(key, ev, q[1], cc, last)
        # the channel is what is returned
        r = core(v) if v is not None else None
        ctx.ob(key + ": returns the channel", None if r is None else True if r is cc else False if r.op == "sym" else None, w, "returns %s" % show(v, 5) if v is not None else "")
        others = [e for e in ev.effects if e.kind == "call" and e.qn.startswith("bliss::coarse_channel::set_") and e is not last]
        ctx.ob(key + ": stores nothing else", not others, others[0].where() if others else w, "also calls %s" % (others[0].qn if others else ""))

    def maximum(key, ev, d, cc, e):
        d = arr(d)
        # a maximum is one value: also as a scalar
        while d.op == "call" and name(d) in ("bland::ndarray::scalarize",): d = arr(d.a[1])
        if d.op != "call" or not (name(d) or "").startswith("bland::"): ctx.ob(key + ": by the maximum", False if free(d) and known(d) else None, e.where(), "by %s" % show(d, 7)); return
        ctx.ob(key + ": by the maximum", name(d) == "bland::max", e.where(), "by %s" % show(d, 7))
        if name(d) != "bland::max": return
        ctx.ob(key + ": of the channel's data", data_of(d.a[1], cc), e.where(), "of %s" % show(d.a[1], 7))
        if len(d.a) > 2: ctx.ob(key + ": over every axis", True if d.a[2].op == "vec" and not d.a[2].a else False if free(d.a[2]) else None, e.where(), "over %s" % show(d.a[2]))

    for F in get(ctx, P, "bliss::normalize"):
        if "coarse_channel" in F.params[0]["t"].s: stored("normalize", F, None, maximum)

    def response(h):
        def f(key, ev, d, cc, e):
            d = arr(d)
            moved = None
            while d.op == "call" and name(d) in ("bland::ndarray::to", "bland::to") and len(d.a) >= 3:
                moved = d.a[2] if moved is None else moved
                d = arr(d.a[1])
            ctx.ob(key + ": by the response", True if h(d) else False if free(plain(d)) and known(d) else None, e.where(), "by %s" % show(d, 7))
            if moved is None: ctx.ob(key + ": on the channel's device", False if h(d) else None, e.where(), "the response is not moved to the channel's device"); return
            m = strip_all_casts(moved)
            g = m.op == "call" and name(m) == "bliss::coarse_channel::device" and core(m.a[1]) is cc
            ctx.ob(key + ": on the channel's device", True if g else False if free(plain(m)) and known(m) else None, e.where(), "moved to %s" % show(m, 6))
        return f

    def isfile(F):
        p, t = sym(F.params[1]["n"]), sym(F.params[2]["n"]) if len(F.params) > 2 else None

        def f(d):
            if not (d.op == "call" and name(d) == "bland::read_from_file"): return False
            a = strip_all_casts(d.a[1])
            while a.op == "call" and ("basic_string_view" in a.a[0] or "basic_string" in a.a[0]) or a.op == "new": a = strip_all_casts(a.a[1])
            return a is p and (strip_all_casts(d.a[2]) is t)
        return f

    for F in get(ctx, P, "bliss::equalize_passband_filter"):
        t = F.params[0]["t"].s.replace("const ", "").replace("bliss::", "").rstrip(" &")
        file = "string" in F.params[1]["t"].s
        key = "equalize(%s%s)" % (t, ", file" if file else "")
        h = sym(F.params[1]["n"])
        is_h = isfile(F) if file else (lambda d, h=h: core(d) is h)
        if t == "coarse_channel":
            stored(key, F, None, response(is_h)); continue
        if not file: continue      # delegation of the array overloads: C04
        # file overloads of the larger objects: the response read is what is handed on
        ev, v = go(ctx, P, F, inline=lambda d: IN(d) and not (d.qn == "bliss::equalize_passband_filter"))
        fw = [e for e in ev.effects if e.kind == "call" and e.qn.split("<")[0] == "bliss::equalize_passband_filter"]
        if len(fw) != 1:
            ctx.ob(key + ": handed on", False if not fw and not [e for e in ev.effects if e.kind == "write" or e.kind == "call" and e.qn.startswith("bliss::scan::")] else None, F.where(), "nothing is equalised"); continue
        e = fw[0]
        ctx.ob(key + ": always", True if not e.pc else None, e.where(), "")
        d = arr(e.args[1])
        while d.op == "call" and name(d) in ("bland::ndarray::to", "bland::to") and len(d.a) >= 3: d = arr(d.a[1])
        ctx.ob(key + ": the response in the file, read as the given type", True if is_h(d) else False if free(plain(d)) and known(d) else None, e.where(), "hands on %s" % show(d, 7))
        o = sym(F.params[0]["n"])
        if e.loops: ctx.unknown(key + ": for the object given", e.where(), ""); continue
        ctx.ob(key + ": for the object given", True if core(e.args[0]) is o else False if core(e.args[0]).op == "sym" else None, e.where(), "for %s" % show(e.args[0], 5))
        r = v
        ctx.ob(key + ": returned", None if r is None else True if strip_all_casts(r) is strip_all_casts(e.term) or core(r) is core(e.term) else False if core(r) is o else None, F.where(), "returns %s" % (show(r, 5) if r is not None else "?"))


# ---------------------------------------------------------------------- filter and spectrum
def sinc(x): return 1.0 if x == 0 else math.sin(math.pi * x) / (math.pi * x)


def taps(ctx, key, ev, F, env, N, fc, w, hdata=None):
    """every element of the taps array is written once, with its windowed sinc; True/False/None, message"""
    ws = [e for e in ev.effects if e.kind == "write" and len(e.loc[1]) == 1 and e.loc[1][0].op == "i" and contains(e.loc[0], lambda x: x.op == "call" and name(x) == "bland::ndarray::data_ptr")]
    if not ws: return None, "no array is written"
    got = {}
    At.loops = ev.allloops
    try:
        for e in ws:
            for leaf in every(e, env, loops_of(ev, e)):
                k = At(leaf)(e.loc[1][0].a[0])
                got.setdefault(k, []).append((At(leaf)(e.val), e))
    except ZeroDivisionError: return False, "divides by 0 for %d taps" % N
    except Beyond: return False, "for %d taps an element is read that a list does not have" % N
    except Odd as x: return None, str(x)
    for k in range(N):
        if k not in got: return False, "tap %d of %d is not set" % (k, N)
        want = sinc(fc * (k - (N - 1) / 2)) * (0.54 - 0.46 * math.cos(2 * math.pi * k / (N - 1)))
        v = got[k][-1][0]
        if abs(v - want) > 2e-4: return False, "tap %d of %d at cut off %g is %.5f and not %.5f" % (k, N, fc, v, want)
    odd = [k for k in got if not 0 <= k < N]
    if odd: return False, "tap %d of %d is written" % (odd[0], N)
    return True, ""


def verdict(rs):
    for ok, m in rs:
        if ok is False: return False, m
    for ok, m in rs:
        if ok is None: return None, m
    return True, ""


def firdes(ctx, P):
    for F in get(ctx, P, "bliss::firdes"):
        ev, v = go(ctx, P, F, inline=IN)
        n, fc = sym(F.params[0]["n"]), sym(F.params[1]["n"])
        rs = []
        for N in (2, 3, 4, 5, 8, 11, 16):
            for c in (1.0, 0.5, 0.25, 0.11):
                rs.append(taps(ctx, "firdes", ev, F, lambda t: N if t is n else c if t is fc else None, N, c, F.where()))
                ctx.count("closed_forms_evaluated", N)
        ok, m = verdict(rs)
        ctx.ob("firdes: windowed sinc", ok, F.where(), m)
        x = arr(v) if v is not None else None
        g = x is not None and x.op == "new" and len(x.a) > 2 and x.a[1].op == "vec"
        ctx.ob("firdes: as many taps as asked for", None if not g else len(x.a[1].a) == 1 and strip_all_casts(x.a[1].a[0]) is n, F.where(), "returns %s" % (show(v, 5) if v is not None else "?"))


def spectrum(ctx, P):
    for F in get(ctx, P, "bland::cpu::fft_shift_mag_square"):
        ev, v = go(ctx, P, F, inline=lambda d: d.qn.startswith("(anon)"))
        w = F.where()
        x, out = sym(F.params[0]["n"]), sym(F.params[1]["n"])
        plan = [e for e in ev.effects if e.kind == "call" and e.qn.startswith("fftwf_plan_dft_r2c_1d")]
        run = [e for e in ev.effects if e.kind == "call" and e.qn.startswith("fftwf_execute")]
        if len(plan) == 1 and not run: ctx.bad("spectrum: the plan made is executed", plan[0].where(), "the transform is planned and never executed"); continue
        if len(plan) != 1 or len(run) != 1: ctx.unknown("spectrum: one transform", w, "%d plans, %d executions" % (len(plan), len(run))); continue
        p = plan[0]
        def lacking(t):
            y = strip_all_casts(t.a[0]) if t.op == "sel" else t
            if t.op == "sel" and y.op == "call" and name(y) == "bland::ndarray::shape" and core(y.a[1]) in (x, out) and isnum(t.a[1]): raise Beyond("a series of samples has one extent")
        X = lambda N: (lambda t: N if t.op == "sel" and strip_all_casts(t.a[0]).op == "call" and name(strip_all_casts(t.a[0])) == "bland::ndarray::shape" and core(strip_all_casts(t.a[0]).a[1]) in (x, out) and isnum(t.a[1]) and t.a[1].a[0] == 0
                       else N if t.op == "call" and name(t) in ("bland::ndarray::numel",) and core(t.a[1]) in (x, out) else N if t.op == "call" and name(t) == "bland::ndarray::size" and core(t.a[1]) in (x, out) and isnum(t.a[2]) and t.a[2].a[0] == 0 else lacking(t))
        isptr = lambda t, o: contains(t, lambda y: y.op == "call" and name(y) == "bland::ndarray::data_ptr" and core(y.a[1]) is o)
        ctx.ob("spectrum: of the input", True if isptr(p.args[1], x) else False if isptr(p.args[1], out) else None, p.where(), "of %s" % show(p.args[1], 5))
        buf = strip_all_casts(p.args[2])
        ctx.ob("spectrum: the plan made is executed", True if contains(run[0].args[0], lambda y: y is p.term) else None, run[0].where(), "")
        ws = [e for e in ev.effects if e.kind == "write" and isptr(e.loc[0], out) and len(e.loc[1]) == 1 and e.loc[1][0].op == "i"]
        bad = [e for e in ev.effects if e.kind == "write" and isptr(e.loc[0], x)]
        ctx.ob("spectrum: the input is kept", not bad, w, "")
        rn, rp, rb = [], [], []
        order = {id(e): i for i, e in enumerate(ev.effects)}
        for N in range(1, 14):
            base = X(N)
            try: rn.append((At(base)(p.args[0]) == N, "for %d samples a transform of %s" % (N, At(base)(p.args[0]))))
            except (Odd, ZeroDivisionError) as ex: rn.append((False if isinstance(ex, Beyond) else None, str(ex)))
            X_ = {k: (3.0 + 7 * k + k * k, 2.0 - 5 * k) for k in range(0, N // 2 + 1)}
            over = []

            def full(leaf0):
                def leaf(t):
                    v = leaf0(t)
                    if v is not None: return v
                    # fftdata[i][c]
                    idx, y = [], t
                    while y.op in ("sel", "deref", "mem", "cast"):
                        if y.op == "sel": idx.insert(0, y.a[1])
                        y = y.a[1] if y.op == "cast" else y.a[0]
                    if strip_all_casts(y) is buf and len(idx) == 2:
                        i, c = At(leaf0)(idx[0]), At(leaf0)(idx[1])
                        if i not in X_: over.append(i); return 0.0
                        return X_[i][int(c)]
                    return None
                return leaf
            got = {}
            try:
                for e in ws:
                    if order[id(e)] < order[id(run[0])]: continue
                    for leaf in every(e, base, loops_of(ev, e)):
                        k = At(leaf)(e.loc[1][0].a[0])
                        got.setdefault(k, set()).add(round(At(full(leaf))(e.val), 6))
                        ctx.count("closed_forms_evaluated", 1)
            except (Odd, ZeroDivisionError) as ex: rp.append((False if isinstance(ex, Beyond) else None, str(ex))); continue
            if over: rb.append((False, "for %d samples bin %s is read, the transform has %d" % (N, over[0], N // 2 + 1)))
            out_of = [k for k in got if not 0 <= k < N]
            rb.append((not out_of, "for %d samples element %s of the output is written" % (N, out_of[0] if out_of else "")))
            try:
                m = [e for e in ev.effects if e.kind == "call" and e.qn.startswith("fftwf_malloc") and strip_all_casts(e.term) is buf]
                if m: rb.append((At(base)(m[0].args[0]) >= 8 * (N // 2 + 1), "for %d samples %s bytes are allocated for the transform" % (N, At(base)(m[0].args[0]))))
            except (Odd, ZeroDivisionError): pass
            r = (True, "")
            for k in range(N):
                b = X_[abs(k - N // 2)]
                want = round(b[0] ** 2 + b[1] ** 2, 6)
                if got.get(k) != {want}: r = (False, "for %d samples element %d, frequency %d, is %s" % (N, k, k - N // 2, "never written" if k not in got else "not the power at that frequency")); break
            rp.append(r)
        for k, rs in (("spectrum: of every sample", rn), ("spectrum: the power at each frequency, zero in the middle", rp), ("spectrum: inside the output and the transform", rb)):
            ok, m = verdict(rs)
            ctx.ob(k, ok, (ws or [p])[0].where(), m)
        ctx.ob("spectrum: returned", None if v is None else True if core(v) is out else False if core(v) is x else None, w, "")


def response(ctx, P):
    for F in get(ctx, P, "bliss::gen_coarse_channel_response"):
        ev, v = go(ctx, P, F, inline=IN)
        w = F.where()
        fine, coarse, tpc = [sym(F.params[i]["n"]) for i in range(3)]
        rs = []
        for c in (1, 2, 3, 4):
            for t_ in (2, 3, 4):
                env = lambda t: c if t is coarse else t_ if t is tpc else 64 if t is fine else None
                rs.append(taps(ctx, "response", ev, F, env, c * t_, 1.0 / c, w))
        ok, m = verdict(rs)
        ctx.ob("response: of the filter with the given taps per channel, cut off at the channel's width", ok, w, m)
        # the chain from the padded filter to the result
        x = arr(v) if v is not None else None
        q = quotient(x) if x is not None else None
        if q is None: ctx.ob("response: divided by its maximum", False if x is not None and x.op == "call" and name(x) == "bland::sum" else None, w, "returns %s" % (show(x, 6) if x is not None else "?")); continue
        s, mx = arr(q[0]), arr(q[1])
        good = mx.op == "call" and name(mx) == "bland::max" and arr(mx.a[1]) is s and (len(mx.a) < 3 or mx.a[2].op == "vec" and not mx.a[2].a)
        ctx.ob("response: divided by its maximum", True if good else False if mx.op == "call" and name(mx) in ("bland::sum", "bland::mean", "bland::min", "bland::stddev", "bland::median", "bland::max") else False if free(mx) and known(mx) and mx.op == "call" and (name(mx) or "").startswith("bland::") else None, w, "divided by %s" % show(mx, 6))
        if not (s.op == "call" and (name(s) or "").startswith("bland::")): ctx.unknown("response: summed over channels", w, show(s, 5)); continue
        ctx.ob("response: summed over channels", name(s) == "bland::sum" and s.a[2].op == "vec" and len(s.a[2].a) == 1 and isnum(s.a[2].a[0]) and s.a[2].a[0].a[0] == 0, w, "is %s over %s" % (name(s), show(s.a[2]) if len(s.a) > 2 else "everything"))
        # fold: reshape(slice(spectrum))
        y = strip_all_casts(s.a[1])
        resh, sl = None, None
        while True:
            y = arr(y)
            if y.op == "upd" and y.a[1].op == "call" and name(y.a[1]) == "bland::ndarray::reshape": resh = resh or y.a[1].a[2]; y = y.a[0]
            elif y.op == "call" and name(y) == "bland::ndarray::reshape": resh = resh or y.a[2]; y = y.a[1]
            elif y.op == "call" and name(y) == "bland::ndarray::slice" and sl is None: sl = y.a[2:]; y = y.a[1]
            elif y.op in ("upd", "out") and not (y.a[1].op == "call" and name(y.a[1]) == "bland::ndarray::slice"): break
            elif y.op == "upd": y = y.a[0]
            else: break
        if not (y.op == "call" and name(y) == "bland::fft_shift_mag_square"): ctx.unknown("response: fold of the spectrum", w, show(y, 5)); continue
        pad = strip_all_casts(y.a[1])
        # padding: zeros of the full length, the filter in its first elements
        z, asg = pad, None
        while z.op in ("upd", "out", "deref", "ref"): z = strip_all_casts(z.a[0])
        full = lambda f, c: f * c
        if not (z.op == "call" and name(z) == "bland::zeros" and z.a[1].op == "vec" and len(z.a[1].a) == 1): ctx.unknown("response: padded with zeros to the full band", w, show(z, 4)); continue
        env = lambda f, c, t_: (lambda t: f if t is fine else c if t is coarse else t_ if t is tpc else None)

        def sized(base, f, c, t_):
            def leaf(t):
                v_ = base(t)
                if v_ is not None: return v_
                if t.op == "call" and name(t) in ("bland::ndarray::size", "bland::ndarray::numel"):
                    o = core(t.a[1])
                    if o.op == "call" and name(o) in ("bland::fft_shift_mag_square",): o = core(o.a[1])
                    if o is z: return At(base)(z.a[1].a[0])
                    if o.op == "new" and o.a[1].op == "vec" and len(o.a[1].a) == 1: return At(base)(o.a[1].a[0])
                return None
            return leaf
        rs, rf, ra = [], [], []
        asg = [e for e in ev.effects if e.kind == "call" and e.qn.startswith("bland::ndarray_slice::operator=") and e.term.op == "call" and len(e.term.a) == 3]
        if len(asg) != 1: ctx.unknown("response: the filter is what is padded", w, "%d assignments" % len(asg))
        else:
            o = arr(asg[0].term.a[1])
            val = arr(asg[0].args[0])
            h = val.op == "new" and str(val.a[0]) == "bland::ndarray" and val.a[1].op == "vec"
            g = o.op == "call" and name(o) == "bland::ndarray::slice" and core(o.a[1]) is z
            ctx.ob("response: the filter is what is padded", True if g and h else None, asg[0].where(), "")
            if g and h:
                sp = o.a[2]
                for f, c, t_ in itertools.product((4, 5, 8), (1, 2, 3, 4), (1, 2, 4)):
                    try:
                        L = sized(env(f, c, t_), f, c, t_)
                        d, a, b, st = [At(L)(k) for k in sp.a[1:5]]
                        N = At(L)(val.a[1].a[0])
                        ra.append((d == 0 and st == 1 and b - a == N and b <= f * c and a >= 0, "%d taps are put at %s to %s of %d" % (N, a, b, f * c)))
                    except (Odd, ZeroDivisionError, ValueError) as ex: ra.append((False if isinstance(ex, Beyond) else None, str(ex)))
                ok, m = verdict(ra)
                ctx.ob("response: every tap is padded", ok, asg[0].where(), m)
        if sl is None or resh is None or resh.op != "vec" or len(resh.a) != 2 or not (len(sl) == 1 and sl[0].op == "new"): ctx.unknown("response: folded by whole channels", w, "")
        for f, c in itertools.product(range(1, 9), range(1, 8)):
            try:
                L = sized(env(f, c, 1), f, c, 1)
                n = At(L)(z.a[1].a[0])
                rs.append((n == f * c, "for %d channels of %d the length is %s" % (c, f, n)))
                if sl is None or resh is None or resh.op != "vec" or len(resh.a) != 2 or not (len(sl) == 1 and sl[0].op == "new"): continue
                d, a, b, st = [At(L)(k) for k in sl[0].a[1:5]]
                r, cols = At(L)(resh.a[0]), At(L)(resh.a[1])
                at = "%d channels of %d: elements %s to %s in %s rows of %s" % (c, f, a, b, r, cols)
                rf.append((d == 0 and st == 1 and cols == f and 0 <= a <= b <= f * c and r * cols == b - a and ((f * c) // 2 - a) % f == f // 2 and (c < 2 or r >= 1) and a < f and b + f > f * c, at))
            except (Odd, ZeroDivisionError, ValueError) as ex: rs.append((False if isinstance(ex, Beyond) else None, str(ex))); rf.append((False if isinstance(ex, Beyond) else None, str(ex)))
        ok, m = verdict(rs)
        ctx.ob("response: padded with zeros to the full band", ok, w, m)
        if rf:
            ok, m = verdict(rf)
            ctx.ob("response: folded by whole channels with DC in the middle of one", ok, w, m)


def dispatch(ctx, P):
    for F in get(ctx, P, "bland::fft_shift_mag_square"):
        ev, v = go(ctx, P, F, inline=lambda d: d.qn.startswith("(anon)"))
        x = sym(F.params[0]["n"])
        c = [e for e in ev.effects if e.kind == "call" and e.qn == "bland::cpu::fft_shift_mag_square"]
        if len(c) != 1: ctx.unknown("spectrum: on the CPU", F.where(), "%d calls" % len(c)); continue
        e = c[0]
        ctx.ob("spectrum: on the CPU, of the array given", True if arr(e.args[0]) is x else False if free(arr(e.args[0])) else None, e.where(), "of %s" % show(e.args[0], 5))
        o = core(e.args[1])
        if o.op == "new" and len(o.a) >= 3:
            sh = strip_all_casts(o.a[1])
            ctx.ob("spectrum: as many outputs as samples", True if sh.op == "call" and name(sh) == "bland::ndarray::shape" and core(sh.a[1]) is x else None if not free(sh) else False, e.where(), "shape %s" % show(sh, 4))


def check(ctx):
    P = ctx.program("bliss/preprocess/", "bland/ops/cpu/frequency_cpu_impl.cpp", "bland/ops/frequency.cpp")
    channels(ctx, P)
    firdes(ctx, P)
    spectrum(ctx, P)
    dispatch(ctx, P)
    response(ctx, P)


if __name__ == "__main__": main("C20", RULE, check, minimum=6)
