"""linear inequalities over integer-valued terms: piecewise equality and entailment by Fourier-Motzkin elimination.

A constraint is a polynomial p meaning p >= 0; every product of two or more quantities counts as one unknown. Integers: 0 < p is p - 1 >= 0.
Only refutation is used: `empty` is True when the constraints have no rational solution, otherwise nothing is claimed."""
from fractions import Fraction
from .terms import *
from .check import strip_all_casts


def split(t, memo=None, limit=64):
    """[(conditions, term)] : the cases of a term with choices (ite, min, max, abs) outside of calls and element accesses"""
    t = strip_all_casts(t)
    x = choice(t)
    if x is None: return [((), t)]
    out = []
    for c, y in options(x):
        for cs, z in split(replace(t, x, y), memo, limit):
            out.append(((c,) + cs, z))
            if len(out) > limit: return [((), t)]
    return out


def choice(t, inner=False):
    if t.op in ("ite", "min", "max", "abs"): return t
    if inner and t.op in ("lt0", "le0", "eq0", "and", "or", "not"): return t
    if t.op in ("call", "find", "sel", "fld", "icall", "lout", "iter", "new", "lam", "upd", "out", "vec", "rec", "imod", "idiv"): return None
    for k in children(t):
        x = choice(k, True)
        if x is not None: return x
    return None


def options(x):
    if x.op in ("lt0", "le0", "eq0", "and", "or", "not"): return [(x, num(1)), (lnot(x), num(0))]
    if x.op == "ite": return [(x.a[0], x.a[1]), (lnot(x.a[0]), x.a[2])]
    if x.op == "abs": return [(raw("le0", x.a[0]), x.a[0]), (raw("lt0", neg(x.a[0])), neg(x.a[0]))]
    a, b = x.a[0], (x.a[1] if len(x.a) == 2 else raw(x.op, *x.a[1:]))
    d = sub(a, b)
    if x.op == "max": return [(raw("le0", d), a), (raw("lt0", neg(d)), b)]
    return [(raw("le0", neg(d)), a), (raw("lt0", d), b)]


def lin(c):
    """[[polynomials >= 0]]: disjunction of conjunctions for one condition; None when it says nothing linear"""
    c = strip_all_casts(c)
    if c.op == "lt0": return [[sub(c.a[0], num(1))]]
    if c.op == "le0": return [[c.a[0]]]
    if c.op == "eq0": return [[c.a[0], neg(c.a[0])]]
    if c.op == "and":
        out = [[]]
        for k in c.a:
            l = lin(k)
            if l is None: continue
            out = [x + y for x in out for y in l]
            if len(out) > 64: return None
        return out
    if c.op == "or":
        out = []
        for k in c.a:
            l = lin(k)
            if l is None: return None
            out += l
        return out
    if c.op == "not":
        x = c.a[0]
        if x.op == "lt0": return [[neg(x.a[0])]]
        if x.op == "le0": return [[sub(neg(x.a[0]), num(1))]]
        if x.op == "eq0": return [[sub(x.a[0], num(1))], [sub(neg(x.a[0]), num(1))]]
        if x.op in ("and", "or"): return lin(raw("or" if x.op == "and" else "and", *[lnot(k) for k in x.a]))
    if c.op == "num": return [[]] if c.a[0] else []
    if c.op == "ite": return lin(raw("or", raw("and", c.a[0], c.a[1]), raw("and", lnot(c.a[0]), c.a[2])))
    return None


def empty1(ps, rounds=4000):
    """no rational solution of all p >= 0?"""
    rows = []
    for p in ps:
        d = {m: Fraction(k) for m, k in pdict(p).items()}
        c = d.pop((), Fraction(0))
        rows.append((d, c))
    steps = 0
    while True:
        if any(not d and c < 0 for d, c in rows): return True
        rows = [(d, c) for d, c in rows if d]
        vs = {}
        for d, c in rows:
            for m, k in d.items():
                a = vs.setdefault(m, [0, 0]); a[0 if k > 0 else 1] += 1
        if not vs: return False
        m = min(vs, key=lambda m: vs[m][0] * vs[m][1] - vs[m][0] - vs[m][1])
        pos = [r for r in rows if r[0].get(m, 0) > 0]; ng = [r for r in rows if r[0].get(m, 0) < 0]
        rest = [r for r in rows if not r[0].get(m, 0)]
        seen = set()
        for d1, c1 in pos:
            for d2, c2 in ng:
                steps += 1
                if steps > rounds: return False
                a, b = -d2[m], d1[m]
                d = {}
                for x in set(d1) | set(d2):
                    k = a * d1.get(x, 0) + b * d2.get(x, 0)
                    if k: d[x] = k
                c = a * c1 + b * c2
                # integers: divide by the gcd of the coefficients and round the constant down
                if d:
                    from math import gcd, floor
                    den = 1
                    for k in d.values(): den = den * k.denominator // gcd(den, k.denominator)
                    g = 0
                    for k in d.values(): g = gcd(g, abs(int(k * den)))
                    f = Fraction(den, g)
                    d = {x: k * f for x, k in d.items()}; c = Fraction(floor(c * f))
                key = (frozenset(d.items()), c)
                if key not in seen: seen.add(key); rest.append((d, c))
        rows = rest


def empty(conds, budget=None):
    """do the conditions exclude each other?"""
    budget = budget if budget is not None else [600]
    budget[0] -= 1
    if budget[0] < 0: return False
    simple, branch = [], None
    conds = [strip_all_casts(c) for c in conds]
    for c in conds:
        l = lin(c)
        if l is None: continue
        if len(l) == 0: return True
        if len(l) == 1:
            for p in l[0]:
                x = choice(p, True)
                if x is None: simple.append(p)
                elif branch is None: branch = ("choice", x)
        elif branch is None or branch[0] == "choice": branch = ("or", c, l)
    if simple and empty1(simple): return True
    if branch is None: return False
    if branch[0] == "choice":
        x = branch[1]
        return all(empty([replace(c, x, y) for c in conds] + [g], budget) for g, y in options(x))
    rest = [c for c in conds if c is not branch[1]]
    return all(empty(rest + [raw("le0", p) for p in conj], budget) for conj in branch[2])


def implies(conds, c):
    """do the conditions entail c? True, or False (not shown)"""
    return empty(list(conds) + [lnot(c)])


def same(a, b, conds=()):
    """a == b under the conditions, as integers? True / False: a case remains where they differ / None: not understood"""
    d = sub(strip_all_casts(a), strip_all_casts(b))
    r = True
    for cs, q in split(d):
        if isnum(q) and q.a[0] == 0: continue
        base = list(conds) + list(cs)
        if empty(base + [raw("lt0", q)]) and empty(base + [raw("lt0", neg(q))]): continue
        r = False
    if r: return True
    return None if contains(d, lambda x: x.op in ("undef", "unk", "lout", "iter", "upd", "out", "icall")) or choice_inside(d) else False


def choice_inside(t):
    """a choice left inside something opaque (idiv, element access ...)"""
    return any(x.op in ("idiv", "imod", "sel", "call") and any(choice(strip_all_casts(k)) is not None for k in children(x)) for x in subterms(t))
