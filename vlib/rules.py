"""rule helpers shared by the checks of the bliss side"""
from .check import *
from .terms import *

THIS = (raw("mem", sym("this")), ())
B = lambda d: d.qn.startswith(("bliss::", "(anon)")) or "::" not in d.qn


def but(*names):
    """inline everything of the project except functions whose qualified name ends in one of names"""
    return lambda d: B(d) and not d.qn.endswith(tuple(names))


def go(ctx, P, F, inline=B, this=None, st=None, args=None, **kw):
    ev = ctx.evaluator(P, inline=inline, **kw)
    v = ev.run(F, args=args, this=this, st=st)
    ctx.count("functions_evaluated", 1 + len(ev.inlined))
    return ev, v


def get(ctx, P, qn, pred=None):
    fs = [f for f in P.byqn.get(qn, []) if pred is None or pred(f)]
    if not fs: raise AnalysisError("anchor vanished: " + qn)
    return fs


def getter(ctx, P, obj, qn, st=None, inline=B):
    """value of the parameterless method qn on the object value obj"""
    fs = [f for f in P.byqn.get(qn, []) if not f.params]
    if not fs: raise AnalysisError("anchor vanished: " + qn)
    ev = ctx.evaluator(P, inline=inline)
    s = st.copy() if st is not None else State()
    loc = (raw("mem", sym("OBJ")), ())
    ev.store(s, loc, obj)
    return ev.run(fs[0], this=loc, st=s)


def holder(inline, P, obj):
    """(state, location) with obj stored where a method can run on it"""
    s = State()
    loc = (raw("mem", sym("OBJ")), ())
    Evaluator(P, inline=inline).store(s, loc, obj)
    return s, loc


def eqv(a, b):
    """True: the same value (conversions apart). False: both understood, different. None: not decided"""
    a, b = strip_all_casts(a), strip_all_casts(b)
    if a is b: return True
    if transparent(a) and transparent(b): return False
    return None


def free(t):
    """understood, method calls on inputs allowed"""
    return not contains(t, lambda x: x.op in ("undef", "unk", "lout", "iter", "upd", "out", "icall"))


def eqf(a, b):
    """like eqv, treating (pure) calls as values"""
    a, b = strip_all_casts(a), strip_all_casts(b)
    if a is b: return True
    return False if free(a) and free(b) else None


def atoms(pc):
    for c in pc:
        c = strip_all_casts(c)
        if c.op == "and":
            for x in atoms(c.a): yield x
        else: yield c


def bounds(pc, idx, n, lo=0):
    """do the path conditions say exactly lo <= idx < n?  True / False (too lax or too strict, or nothing said) / None"""
    idx, n = strip_all_casts(idx), strip_all_casts(n)
    got = {"lo": None, "hi": None}
    odd = False
    for c in atoms(pc):
        if not mentions(c, idx): continue
        if c.op == "lt0":
            p = c.a[0]
            if c.op == "lt0":
                kl, kh = sub(p, add(idx, num(1 - lo))), sub(p, sub(n, idx))
                if isnum(kl): got["lo"] = kl; continue
                if isnum(kh): got["hi"] = kh; continue
            d = pdict(p)
            ps = [(m, k) for m, k in d.items() if contains(pmake({m: num(1) if False else 1}), lambda y: y is idx)]
            if len(ps) == 1 and pmake({ps[0][0]: 1}) is idx and transparent(p):
                got.setdefault("hi?" if ps[0][1] < 0 else "lo?", p); continue
        elif not outside(c, idx): continue
        odd = True
    if "hi?" in got and got["hi"] is None or "lo?" in got and got["lo"] is None: return False
    got.pop("hi?", None); got.pop("lo?", None)
    if all(x is not None for x in got.values()):
        return got["lo"] is num(0) and got["hi"] is num(0)
    if odd: return None
    return False


def outside(t, x):
    """does x occur in t other than inside an element access or call?"""
    if t is x: return True
    if t.op in ("call", "find", "sel", "icall"): return False
    return any(outside(k, x) for k in children(t))


def loopfull(L, n):
    """does the loop run for exactly positions 0..n-1, with no early exit?"""
    if L.trip is None: return None
    if L.breaks or L.hasret: return False if L.breaks else None
    return eqf(L.trip, n)


def runlam(ev, f, F, args=(), st=None):
    """evaluate the closure value f found by evaluator ev; returns (value, effects)"""
    before = len(ev.effects)
    s = (st or ev.state).copy()
    fr = Frame(F)
    n = {"l": F.line, "a": [], "k": "icall"}
    v = ev.apply(f, list(args), None, n, s, fr)
    return v, ev.effects[before:]


def lams(t):
    return [x for x in subterms(t) if x.op == "lam"]


def news(t, cls):
    return [x for x in subterms(t) if x.op == "new" and str(x.a[0]).split("<")[0] == cls]


def effect_terms(e):
    for x in list(e.args or []) + ([e.val] if e.val is not None else []) + ([e.old] if getattr(e, "old", None) is not None else []):
        if isinstance(x, T): yield x


def batoms(t, out=None):
    """atomic conditions of a boolean combination"""
    out = {} if out is None else out
    t = strip_all_casts(t)
    if t.op in ("and", "or"):
        for k in t.a: batoms(k, out)
    elif t.op == "not": batoms(t.a[0], out)
    elif t.op == "le0": batoms(raw("lt0", neg(t.a[0])), out)
    elif t.op == "ite":
        for k in t.a: batoms(k, out)
    elif t.op != "num": out.setdefault(t.id, t)
    return out


def bval(t, env):
    """value of a boolean combination, with env giving its atoms"""
    t = strip_all_casts(t)
    if t.id in env: return env[t.id]
    if t.op == "and": return all(bval(k, env) for k in t.a)
    if t.op == "or": return any(bval(k, env) for k in t.a)
    if t.op == "not": return not bval(t.a[0], env)
    if t.op == "le0": return not bval(raw("lt0", neg(t.a[0])), env)
    if t.op == "ite": return bval(t.a[1 if bval(t.a[0], env) else 2], env)
    if t.op == "num": return t.a[0] != 0
    raise KeyError(t)


def btable(t, names):
    """decision table of t over named atoms. names: {atom id: (name, polarity)}; atoms outside are left free.
    returns {assignment (sorted tuple of (name, value)): set of values}"""
    import itertools
    at = batoms(t)
    ns = sorted({n for n, p in names.values()})
    rest = [i for i in at if i not in names]
    if len(ns) + len(rest) > 14: return None
    out = {}
    for vals in itertools.product((False, True), repeat=len(ns)):
        env0 = dict(zip(ns, vals))
        got = set()
        for rv in itertools.product((False, True), repeat=len(rest)):
            env = {i: env0[n] == p for i, (n, p) in names.items()}
            env.update(zip(rest, rv))
            got.add(bval(t, env))
        out[tuple(sorted(env0.items()))] = got
    return out


# ------------------------------------------------------------------ equality of arithmetic expressions
_ARITH = {"poly", "num", "inv", "abs", "min", "max", "sqrt", "pow", "ite", "lt0", "le0", "eq0", "and", "or", "not", "cast", "trunc", "floor"}


class _Odd(Exception): pass


def _num(t, env, names):
    o = t.op
    if o == "num": return float(t.a[0])
    if o == "poly":
        s = 0.0
        for c, m in t.a:
            p = float(c)
            for x in m: p *= _num(x, env, names)
            s += p
        return s
    if o in ("cast",): return _num(t.a[-1], env, names)
    if o == "abs": return abs(_num(t.a[0], env, names))
    if o == "inv":
        d = _num(t.a[0], env, names)
        if abs(d) < 1e-300: raise _Odd
        return 1 / d
    if o == "min": return min(_num(x, env, names) for x in t.a)
    if o == "max": return max(_num(x, env, names) for x in t.a)
    if o == "sqrt":
        d = _num(t.a[0], env, names)
        if d < 0: raise _Odd
        return d ** 0.5
    if o == "pow":
        b, e = _num(t.a[0], env, names), _num(t.a[1], env, names)
        if b < 0 and e != int(e) or b == 0 and e < 0: raise _Odd
        return b ** e
    if o == "ite": return _num(t.a[1 if _num(t.a[0], env, names) else 2], env, names)
    if o == "lt0": return float(_num(t.a[0], env, names) > 0)
    if o == "le0": return float(_num(t.a[0], env, names) >= 0)
    if o == "eq0": return float(_num(t.a[0], env, names) == 0)
    if o == "and": return float(all(_num(x, env, names) for x in t.a))
    if o == "or": return float(any(_num(x, env, names) for x in t.a))
    if o == "not": return float(not _num(t.a[0], env, names))
    if o == "floor":
        import math
        return float(math.floor(_num(t.a[0], env, names)))
    if t.id not in env:
        import hashlib
        k = len(env)
        h = int(hashlib.sha256(("%s/%d" % (names, k)).encode()).hexdigest()[:8], 16)
        env[t.id] = (((h % 2001) - 1000) / 37.0 if names % 3 else 1 + (h % 997) / 13.0) * (1, 0.01, 100, 1e-5)[(h >> 12) % 4]
    return env[t.id]


def numeq(a, b, points=24, tol=2e-6):
    """are two closed arithmetic expressions the same function of their (opaque) parts?  normal forms first, else identity testing at fixed points.
    True / False (they differ at a point) / None (something in them is not understood)"""
    a, b = strip_all_casts(a), strip_all_casts(b)
    if a is b: return True
    if not (free(a) and free(b)): return None
    n = 0
    for k in range(points):
        env = {}
        try:
            y = _num(b, env, k)
            x = _num(a, env, k)
        except (_Odd, OverflowError): continue
        n += 1
        if abs(x - y) > tol * max(1e-9, abs(x), abs(y)): return False
    return True if n >= 4 else None
