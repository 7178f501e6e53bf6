"""Interned value-number terms with an algebraic normal form (no solver: two values are equal iff
their normal forms are the same object).

  num q            exact number                    poly ((coef, monomial)...)  + - * normal form
  inv a            1/a (real division)              idiv/imod a b               integer division
  lt0 d            0 < d                            le0 d (floats only)  0 <= d
  eq0 d / eq a b   equality                         not/and/or                  propositional structure
  ite c a b        gated merge                      min/max/abs                 recognised idioms
  fld b name       field of an opaque value         sel b i                     element of an opaque container
  ref root path    address of a location            call qn args                uninterpreted call
"""
from fractions import Fraction
from decimal import Decimal
import math

_tab = {}
_all = []


class T:
    __slots__ = ("op", "a", "id", "_atoms", "isbool")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def raw(op, *a):
    k = (op,) + tuple(x.id if isinstance(x, T) else (x.__class__.__name__, x) for x in a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id, t._atoms, t.isbool = op, a, len(_all), None, False
        _all.append(t)
        _tab[k] = t
    return t


def num(v):
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return raw("sym", repr(v))
        v = Fraction(Decimal(repr(v)))
    return raw("num", Fraction(v))


def numstr(s):
    try:
        return raw("num", Fraction(Decimal(s)))
    except Exception:
        return raw("sym", "flt:" + s)


ZERO = num(0)
ONE = num(1)
TRUE = ONE
FALSE = ZERO
NULL = raw("null")


def sym(n):
    return raw("sym", n)


def isnum(t):
    return t.op == "num"


# ------------------------------------------------------------------ polynomials
def pdict(t):
    if t.op == "num":
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "poly":
        return dict((m, c) for c, m in t.a)
    return {(t,): Fraction(1)}


def pmake(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return raw("num", c)
        if len(m) == 1 and c == 1:
            return m[0]
    items = sorted(d.items(), key=lambda mc: (tuple(x.id for x in mc[0])))
    # intern through ids
    k = ("poly",) + tuple((c, tuple(x.id for x in m)) for m, c in items)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id, t._atoms, t.isbool = "poly", tuple((c, m) for m, c in items), len(_all), None, False
        _all.append(t)
        _tab[k] = t
    return t


def add(*ts):
    d = {}
    for t in ts:
        for m, c in pdict(t).items():
            d[m] = d.get(m, 0) + c
    return pmake(d)


def scale(t, k):
    return pmake({m: c * k for m, c in pdict(t).items()})


def neg(t):
    return scale(t, Fraction(-1))


def sub(a, b):
    return add(a, neg(b))


def _mmul(m1, m2):
    fs = list(m1) + list(m2)
    # cancel x * inv(x)
    out = []
    for f in fs:
        g = f.a[0] if f.op == "inv" else raw("inv", f)
        if g in out:
            out.remove(g)
        else:
            out.append(f)
    out.sort(key=lambda x: x.id)
    return tuple(out)


def mul(a, b):
    pa, pb = pdict(a), pdict(b)
    if len(pa) * len(pb) > 400:
        return raw("mulbig", *sorted((a, b), key=lambda x: x.id))
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return pmake(d)


def inv(t):
    if t.op == "num":
        if t.a[0] == 0:
            return raw("inv", t)
        return raw("num", 1 / t.a[0])
    if t.op == "inv":
        return t.a[0]
    if t.op == "poly" and len(t.a) == 1:
        c, m = t.a[0]
        r = raw("num", 1 / c)
        for f in m:
            r = mul(r, inv(f))
        return r
    return raw("inv", t)


def div(a, b):
    return mul(a, inv(b))


def idiv(a, b):
    if isnum(a) and isnum(b) and b.a[0] != 0 and a.a[0].denominator == 1 and b.a[0].denominator == 1:
        q = abs(a.a[0].numerator) // abs(b.a[0].numerator)
        return num(q if (a.a[0] >= 0) == (b.a[0] > 0) else -q)
    if b is ONE:
        return a
    return raw("idiv", a, b)


def imod(a, b):
    if isnum(a) and isnum(b) and b.a[0] != 0:
        return sub(a, mul(b, idiv(a, b)))
    if b is ONE:
        return ZERO
    return raw("imod", a, b)


# ------------------------------------------------------------------ booleans
BOOLOPS = {"lt0", "le0", "eq0", "eq", "not", "and", "or", "bool"}


def isbool(t):
    return t.op in BOOLOPS or t is ZERO or t is ONE or t.isbool


def markbool(t):
    t.isbool = True
    return t


def numericish(t):
    return t.op in ("num", "poly")


def lt(a, b, integral=False):
    """a < b"""
    d = sub(b, a)
    if isnum(d):
        return TRUE if d.a[0] > 0 else FALSE
    return raw("lt0", d)


def le(a, b, integral=False):
    if integral:
        return lt(a, add(b, ONE))
    d = sub(b, a)
    if isnum(d):
        return TRUE if d.a[0] >= 0 else FALSE
    return raw("le0", d)


def leadsign(t):
    if t.op == "poly":
        for c, m in t.a:
            if m:
                return 1 if c > 0 else -1
    return 1


def eq(a, b):
    if a is b:
        return TRUE
    if a.op in ("str",) and b.op == "str":
        return FALSE
    if (a.op in ("num",) and b.op == "num"):
        return FALSE
    if isbool(a) and isnum(b):
        return a if b is ONE else (lnot(a) if b is ZERO else FALSE)
    if isbool(b) and isnum(a):
        return eq(b, a)
    if a.op == "ref" and b is NULL or b.op == "ref" and a is NULL:
        return FALSE
    if numericish(a) or numericish(b):
        d = sub(a, b)
        if isnum(d):
            return FALSE
        if leadsign(d) < 0:
            d = neg(d)
        return raw("eq0", d)
    if b.id < a.id:
        a, b = b, a
    # plain atoms: use eq0 form too, so x==y and x-y==0 agree
    if a.op not in ("str", "null", "ref", "rec", "lam") and b.op not in ("str", "null", "ref", "rec", "lam"):
        d = sub(a, b)
        if leadsign(d) < 0:
            d = neg(d)
        return raw("eq0", d)
    return raw("eq", a, b)


def ne(a, b):
    return lnot(eq(a, b))


def truth(t):
    """value used as a condition"""
    if isnum(t):
        return FALSE if t.a[0] == 0 else TRUE
    if isbool(t):
        return t
    if t.op in ("ref", "lam"):
        return TRUE
    if t is NULL:
        return FALSE
    if t.op == "ite":
        return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    if t.op == "poly":
        d = t if leadsign(t) > 0 else neg(t)
        return lnot(raw("eq0", d))
    return raw("bool", t)


_lnot = {}


def lnot(t):
    t = truth(t)
    r = _lnot.get(t.id)
    if r is None:
        r = _lnot[t.id] = _lnot0(t)
        _lnot.setdefault(r.id, t) if r.op not in ("num",) else None
    return r


def _lnot0(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.a[0]
    if t.op == "le0":
        return raw("lt0", neg(t.a[0]))
    if t.op == "lt0":
        if _intd(t.a[0]):
            return raw("lt0", add(neg(t.a[0]), ONE))
        return raw("le0", neg(t.a[0]))
    if t.op == "and":
        return lor(*[lnot(x) for x in t.a])
    if t.op == "or":
        return land(*[lnot(x) for x in t.a])
    return raw("not", t)


# terms known to be of integral type (set by the evaluator)
_INTS = set()


def markint(t):
    _INTS.add(t.id)
    return t


def _intd(d):
    for m in pdict(d):
        for f in m:
            if f.id not in _INTS:
                return False
    return all(c.denominator == 1 for c in pdict(d).values())


def land(*ts):
    s = []
    for t in ts:
        t = truth(t)
        if t.op == "and":
            s += list(t.a)
        else:
            s.append(t)
    u = []
    for t in s:
        if t is FALSE:
            return FALSE
        if t is TRUE or t in u:
            continue
        if lnot(t) in u:
            return FALSE
        u.append(t)
    if not u:
        return TRUE
    if len(u) == 1:
        return u[0]
    # absorb (a and (not a or b)) -> a and b
    return raw("and", *sorted(u, key=lambda x: x.id))


def lor(*ts):
    s = []
    for t in ts:
        t = truth(t)
        if t.op == "or":
            s += list(t.a)
        else:
            s.append(t)
    u = []
    for t in s:
        if t is TRUE:
            return TRUE
        if t is FALSE or t in u:
            continue
        if lnot(t) in u:
            return TRUE
        u.append(t)
    if not u:
        return FALSE
    if len(u) == 1:
        return u[0]
    # a or (not a and b) -> a or b ; drop absorbed conjunctions
    ch = True
    while ch:
        ch = False
        for i, t in enumerate(u):
            parts = t.a if t.op == "and" else (t,)
            for j, o in enumerate(u):
                if i == j:
                    continue
                op = set(o.a if o.op == "and" else (o,))
                if op <= set(parts):
                    u.pop(i); ch = True; break
                if len(op) == 1 and lnot(next(iter(op))) in parts and t.op == "and":
                    u[i] = land(*[p for p in parts if p is not lnot(next(iter(op)))]); ch = True; break
            if ch:
                break
        # (c and x) or (not c and x) -> x
        if not ch:
            for i in range(len(u)):
                for j in range(i + 1, len(u)):
                    a, b = u[i], u[j]
                    if a.op == "and" and b.op == "and":
                        sa, sb = set(a.a), set(b.a)
                        da, db = sa - sb, sb - sa
                        if len(da) == 1 and len(db) == 1 and lnot(next(iter(da))) is next(iter(db)):
                            u[i] = land(*(sa & sb)); u.pop(j); ch = True; break
                if ch:
                    break
    if len(u) == 1:
        return u[0]
    return raw("or", *sorted(u, key=lambda x: x.id))


def ite(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if isbool(a) and isbool(b):
        return lor(land(c, a), land(lnot(c), b))
    if c.op in ("lt0", "le0"):
        d = c.a[0]
        diff = sub(b, a)
        ofs = sub(diff, d)
        if diff is d or (isnum(ofs) and c.op == "lt0" and ofs.a[0] == -1):
            return tmin(a, b)
        diff2 = sub(a, b)
        ofs = sub(diff2, d)
        if diff2 is d or (isnum(ofs) and c.op == "lt0" and ofs.a[0] == -1):
            return tmax(a, b)
    return raw("ite", c, a, b)


def _mm(op, ts, f):
    s = []
    for t in ts:
        s += list(t.a) if t.op == op else [t]
    n = [t for t in s if isnum(t)]
    o = []
    for t in s:
        if not isnum(t) and t not in o:
            o.append(t)
    if n:
        o.append(num(f(x.a[0] for x in n)))
    if len(o) == 1:
        return o[0]
    if op == "max" and len(o) == 2 and neg(o[0]) is o[1]:
        return raw("abs", o[0] if leadsign(o[0]) > 0 else o[1])
    return raw(op, *sorted(o, key=lambda x: x.id))


def tmin(*ts):
    return _mm("min", ts, min)


def tmax(*ts):
    return _mm("max", ts, max)


def tabs(t):
    if isnum(t):
        return num(abs(t.a[0]))
    return raw("abs", t if leadsign(t) > 0 else neg(t))


def bitop(op, a, b):
    if isnum(a) and isnum(b) and a.a[0].denominator == 1 and b.a[0].denominator == 1:
        x, y = a.a[0].numerator, b.a[0].numerator
        try:
            return num({"&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y,
                        "<<": lambda: x << y, ">>": lambda: x >> y}[op]())
        except ValueError:
            pass
    if op in "&|^":
        if isbool(a) and isbool(b):
            if op == "&":
                return land(a, b)
            if op == "|":
                return lor(a, b)
        s = []
        for t in (a, b):
            s += list(t.a) if t.op == "bit" + op else [t]
        if op in "&|":
            u = []
            for t in s:
                if t not in u:
                    u.append(t)
            s = u
            ns = [t for t in s if isnum(t)]
            if op == "|":
                s = [t for t in s if t is not ZERO]
            elif ZERO in s:
                return ZERO
            if len(ns) > 1:
                r = ns[0]
                for k in ns[1:]:
                    r = bitop(op, r, k)
                s = [t for t in s if not isnum(t)] + ([r] if not (op == "|" and r is ZERO) else [])
            if not s:
                return ZERO
            if len(s) == 1:
                return s[0]
        return raw("bit" + op, *sorted(s, key=lambda x: x.id))
    return raw("bit" + op, a, b)


# ------------------------------------------------------------------ traversal
def children(t):
    if t.op == "poly":
        for c, m in t.a:
            yield from m
    else:
        for x in t.a:
            if isinstance(x, T):
                yield x


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def mentions(t, s):
    return any(x is s for x in subterms(t))


def rebuild(t, kids):
    op = t.op
    if op == "poly":
        raise AssertionError
    a = list(kids)
    if op == "inv": return inv(a[0])
    if op == "idiv": return idiv(*a)
    if op == "imod": return imod(*a)
    if op == "ite": return ite(*a)
    if op == "not": return lnot(a[0])
    if op == "and": return land(*a)
    if op == "or": return lor(*a)
    if op == "lt0":
        return (TRUE if a[0].a[0] > 0 else FALSE) if isnum(a[0]) else raw("lt0", a[0])
    if op == "le0":
        return (TRUE if a[0].a[0] >= 0 else FALSE) if isnum(a[0]) else raw("le0", a[0])
    if op == "eq0": return eq(a[0], ZERO)
    if op == "eq": return eq(*a)
    if op == "bool": return truth(a[0])
    if op == "min": return tmin(*a)
    if op == "max": return tmax(*a)
    if op == "abs": return tabs(a[0])
    if op in ("bit&", "bit|", "bit^"):
        r = a[0]
        for x in a[1:]:
            r = bitop(op[3:], r, x)
        return r
    if op in ("bit<<", "bit>>"): return bitop(op[3:], a[0], a[1])
    if op == "size" and a[0].op == "vec": return num(len(a[0].a))
    if op == "sel" and a[0].op == "vec" and isnum(a[1]) and a[1].a[0].denominator == 1 and 0 <= a[1].a[0] < len(a[0].a):
        return a[0].a[int(a[1].a[0])]
    r = raw(op, *[k for k in a])
    if t.isbool:
        r.isbool = True
    if t.id in _INTS:
        _INTS.add(r.id)
    return r


def subst(t, f, memo=None):
    """bottom-up rewrite: f(term) -> replacement or None"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        y = f(x)
        if y is not None:
            memo[x.id] = y
            return y
        if x.op == "poly":
            parts = []
            for c, m in x.a:
                p = raw("num", c)
                for fct in m:
                    p = mul(p, go(fct))
                parts.append(p)
            r = add(*parts)
        elif not any(isinstance(k, T) for k in x.a):
            r = x
        else:
            ks = [go(k) if isinstance(k, T) else k for k in x.a]
            if all(p is q for p, q in zip(ks, x.a)):
                r = x
            else:
                r = rebuild(x, ks)
        z = f(r) if r is not x else None
        if z is not None:
            r = z
        memo[x.id] = r
        return r
    return go(t)


def replace(t, old, new):
    return subst(t, lambda x: new if x is old else None)


def simp_under(t, conds):
    """simplify t assuming every term in conds is true"""
    cs = set()
    for c in conds:
        c = truth(c)
        for x in (c.a if c.op == "and" else (c,)):
            cs.add(x)
    if not cs:
        return t
    ncs = {lnot(c) for c in cs}

    def f(x):
        if x in cs:
            return TRUE
        if x in ncs:
            return FALSE
        return None
    return subst(t, f)


def show(t, d=7):
    if not isinstance(t, T):
        return str(t)
    if d == 0:
        return "…"
    s = lambda x: show(x, d - 1)
    o, a = t.op, t.a
    if o == "num":
        f = a[0]
        return str(f.numerator) if f.denominator == 1 else repr(float(f))
    if o == "poly":
        out = []
        for c, m in a:
            ms = "*".join(s(x) for x in m)
            if not m: out.append(str(c) if c.denominator == 1 else repr(float(c)))
            elif c == 1: out.append(ms)
            elif c == -1: out.append("-" + ms)
            else: out.append((str(c) if c.denominator == 1 else repr(float(c))) + "*" + ms)
        return "(" + " + ".join(out) + ")"
    if o == "sym": return a[0]
    if o == "str": return repr(a[0])
    if o == "fld": return s(a[0]) + "." + str(a[1])
    if o == "sel": return s(a[0]) + "[" + s(a[1]) + "]"
    if o == "size": return s(a[0]) + ".size"
    if o == "lt0": return "0<" + s(a[0])
    if o == "le0": return "0<=" + s(a[0])
    if o == "eq0": return s(a[0]) + "==0"
    if o == "not": return "!(" + s(a[0]) + ")"
    if o in ("and", "or"): return "(" + (" && " if o == "and" else " || ").join(s(x) for x in a) + ")"
    if o == "ite": return "(%s ? %s : %s)" % tuple(s(x) for x in a)
    if o == "inv": return "1/" + s(a[0])
    if o == "call": return str(a[0]) + "(" + ", ".join(s(x) for x in a[1:]) + ")"
    if o == "ctr": return "k" + str(a[0])
    if o == "null": return "null"
    if o == "deref": return "*" + s(a[0])
    if o == "var": return str(a[2]) if len(a) > 2 else "v"
    if o == "mem": return s(a[0])
    if o == "ref": return "&" + s(a[0]) + "".join("." + s(x) if x.op == "f" else s(x) for x in a[1:])
    if o == "f": return str(a[0])
    if o == "i": return "[" + s(a[0]) + "]"
    return o + "(" + ", ".join(s(x) if isinstance(x, T) else str(x) for x in a) + ")"
