import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.rules import *
from c21 import interp, Odd
import itertools, re

RULE = ("the state of a hit read out and written back gives every attribute its own value, in types at least as wide; == is true for hits that agree in every attribute of the signal and false when any one "
        "differs; < orders hits by the same attributes, in one fixed sequence, and never orders a hit before its equal")
LOCATION = {"coarse_channel_number"}      # where the hit was found, not an attribute of the signal: not compared
WIDE = {"double": 3, "float": 2, "long": 3, "int": 2, "short": 1, "unsigned char": 0, "signed char": 0, "char": 0, "unsigned long": 3, "unsigned int": 2, "bool": 0, "int64_t": 3, "uint8_t": 0}
FLOATS = {"double", "float"}


def fits(elt, t):
    """can a value of type t be kept in type elt?"""
    elt, t = elt.strip(), t.strip()
    if elt == t: return True
    if elt in WIDE and t in WIDE:
        if (elt in FLOATS) != (t in FLOATS): return False
        return WIDE[elt] >= WIDE[t]
    if elt.startswith("std::map<") and t.startswith("std::map<"):
        a, b = split_args(elt), split_args(t)
        if len(a) == len(b) == 2:
            r = [fits(x, y) if x in WIDE or y not in WIDE and x == y else None for x, y in zip(a, b)]
            if "::" in b[0] and a[0] in ("int", "long", "unsigned int"): r[0] = True       # an enumeration fits an int
            return False if False in r else None if None in r else True
    return None


def split_args(s):
    i = s.index("<")
    body, out, d = s[i + 1:s.rindex(">")], [""], 0
    for c in body:
        if c == "<": d += 1
        if c == ">": d -= 1
        if c == "," and d == 0: out.append(""); continue
        out[-1] += c
    return [x.strip() for x in out]


def fields(P, cls):
    r = P.records.get(cls)
    if r is None: raise AnalysisError("anchor vanished: " + cls)
    return r


def state(ctx, P, FS):
    G, S = get(ctx, P, "bliss::hit::get_state")[0], get(ctx, P, "bliss::hit::set_state")[0]
    ev, v = go(ctx, P, G, this=THIS)
    while v is not None and v.op in ("new", "cast") and isinstance(v.a[-1], T) and len([z for z in v.a if isinstance(z, T)]) == 1: v = v.a[-1]
    if v is None or v.op != "tuple": ctx.unknown("the state of a hit", G.where(), show(v) if v is not None else ""); return
    new = (raw("mem", sym("NEW")), ())
    ev2, _ = go(ctx, P, S, this=new, args=[v])
    try: types = split_args(str(S.params[0]["t"]))
    except Exception: types = None
    for f, t in FS.items():
        x = ev2.load(ev2.state, (new[0], (F_(f),)))
        x = strip_all_casts(x)
        mine = [i for i, y in enumerate(v.a) if contains(y, lambda z: z.op == "fld" and z.a[1] == f)]
        key = "attribute %s" % f
        if not mine: ctx.bad(key + " is part of the state", G.where(), "the state does not hold it"); continue
        want = strip_all_casts(raw("fld", sym("X"), f))
        src = [z for z in subterms(x) if z.op == "fld" and z.a[1] in FS and not contains(z, lambda q: q is sym("NEW"))]
        if x.op == "fld" and x.a[1] in FS: r = x.a[1] == f and not contains(x, lambda q: q is sym("NEW"))
        elif src: r = all(z.a[1] == f for z in src) or None if any(z.a[1] == f for z in src) else False
        else: r = False if free(x) else None
        pvs = [z for z in subterms(x) if z.op == "pv"] if r else []
        for z in pvs:
            k, y = z.a[0], z.a[1]
            ks = k.a[0] if k.op == "i" else k
            if not contains(y, lambda q: q.op == "fld" and q.a[1] == f): r = False
            elif strip_all_casts(y).op == "fld" and strip_all_casts(y).a[1] != "second" or strip_all_casts(ks).op == "fld" and strip_all_casts(ks).a[1] != "first": r = False
        ctx.ob(key + " is restored", r, S.where(), "becomes %s" % show(x, 5))
        if types is not None and len(types) == len(v.a) and strip_all_casts(v.a[mine[0]]).op == "fld":
            ctx.ob(key + " is kept in full", fits(types[mine[0]], t), G.where(), "%s is kept as %s" % (t, types[mine[0]]))


def compare(ctx, P, FS):
    names_ = [f for f in FS if f not in LOCATION]
    for q, what in (("bliss::hit::operator==", "equal"), ("bliss::hit::operator<", "less")):
        F = get(ctx, P, q)[0]
        ev, v = go(ctx, P, F, this=THIS)
        if v is None: ctx.unknown("hits: " + what, F.where(), ""); continue
        o = sym(F.params[0]["n"])
        leaf = [x for x in subterms(v) if x.op == "fld" and x.a[1] in FS]
        for x in subterms(v):
            if x.op == "ref":
                fs_ = [z.a[0] for z in subterms(x) if z.op == "f" and z.a[0] in FS]
                if len(fs_) == 1: leaf.append((x, fs_[0]))
        leaf = [y if isinstance(y, tuple) else (y, y.a[1]) for y in leaf]
        def val(a, b):
            env = {}
            for x, f in leaf:
                side = b if contains(x, lambda z: z is o) else a
                env[x.id] = side[f]
            return bool(interp(v, env))
        base = {f: 1 for f in FS}
        try:
            if what == "equal":
                ctx.ob("a hit equals itself", val(base, base), F.where(), "")
                for f in names_:
                    ctx.ob("hits that differ in %s are not equal" % f, not val(dict(base, **{f: 2}), base) and not val(base, dict(base, **{f: 2})), F.where(), "")
            else:
                ctx.ob("no hit is before itself", not val(base, base), F.where(), "")
                for f in names_:
                    up = dict(base, **{f: 2})
                    ctx.ob("hits that differ in %s are ordered by it" % f, val(base, up) != val(up, base), F.where(), "%s" % ("before each other" if val(base, up) else "neither is first"))
                bad = None
                first = {}
                for f, g in itertools.permutations(names_, 2):
                    x, y = dict(base, **{f: 2}), dict(base, **{g: 2})
                    if val(x, y) == val(y, x): bad = (f, g); break
                    first[f, g] = val(x, y)
                if bad: ctx.bad("one sequence of attributes", F.where(), "hits that differ in %s and %s are %s" % (bad + ("not ordered",)))
                else:
                    # transitivity on hits that differ in up to three attributes
                    cyc = [t for t in itertools.permutations(names_, 3) if val(dict(base, **{t[0]: 2}), dict(base, **{t[1]: 2})) and val(dict(base, **{t[1]: 2}), dict(base, **{t[2]: 2})) and not val(dict(base, **{t[0]: 2}), dict(base, **{t[2]: 2}))]
                    low = [t for t in itertools.permutations(names_, 2) if val(dict(base, **{t[0]: 0}), dict(base, **{t[1]: 2})) == val(dict(base, **{t[1]: 2}), dict(base, **{t[0]: 0}))]
                    ctx.ob("one sequence of attributes", not cyc and not low, F.where(), str((cyc or low)[0]) if cyc or low else "")
        except (Odd, KeyError, TypeError) as x:
            if os.environ.get("DBG"): import traceback; traceback.print_exc()
            ctx.unknown("hits: " + what, F.where(), show(v, 4))


def check(ctx):
    P = ctx.program("bliss/core/hit.cpp", "bliss/drift_search/event_search")
    FS = fields(P, "bliss::hit")
    FS = {x["n"]: str(x["t"]) for x in FS["fields"]}
    state(ctx, P, FS)
    compare(ctx, P, FS)
    ctx.count("attributes", len(FS))


from vlib.ev import F as F_
if __name__ == "__main__": main("C23", RULE, check, 10)
