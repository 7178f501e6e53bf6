import sys, os, re, itertools; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.rules import *
from vlib.ev import F as F_, State
from vlib.check import loop_guard
from c20 import Odd, every
from c28 import Text, happens
from c17 import nodes, bare

RULE = ("arange, linspace, zeros, ones, rand_normal and rand_uniform, evaluated over ranges, steps and types, create the shape, type and device asked for, write every element once, with the value its place in the range gives, through a pointer of the array's "
        "own type, and raise for types they cannot write and for a step of 0; no arithmetic on the ends of a range wraps around in an unsigned type before it is widened or divided; an overload without a type uses the type of its first argument; "
        "a deferred array evaluated per policy, held state and device gives the held array or one call of its function, on the device it was last sent to, and keeps the result exactly when it memoizes")
CPP = {"float": (2, 32), "double": (2, 64), "signed char": (0, 8), "short": (0, 16), "int": (0, 32), "long": (0, 64), "unsigned char": (1, 8), "unsigned short": (1, 16), "unsigned int": (1, 32), "unsigned long": (1, 64)}
DTYPES = sorted(CPP.values())
NODTYPES = [(2, 16), (2, 80), (0, 4), (0, 128), (1, 24), (5, 64), (5, 128), (3, 64), (4, 16), (2, 8), (6, 8)]
RANGES = [(0, 5, 1), (0, 10, 2), (0, 10, 3), (2, 12, 4), (1, 2, 1), (1, 2, 5), (3, 3, 1), (7, 100, 31), (0, 0, 2), (5, 126, 11)]
DOWN = [(5, 0, -1), (10, 0, -3), (3, -4, -2), (-6, 5, 4), (-100, -1, 33), (5, 0, 1), (0, 5, -1), (-1, -1, -1), (0, -9, -10)]
REAL = [(0.0, 1.0, 0.25), (0.5, 2.75, 0.5), (1.0, -1.0, -0.5), (0.0, 1.0, 2.0), (-2.0, 7.0, 1.5), (0.0, -1.0, 0.5)]
LINES = [(0, 10, 5), (0, 10, 4), (3, 4, 1), (2, 2, 3), (0, 120, 7), (5, 6, 4), (1, 9, 0)]
DOWNLINES = [(10, 0, 4), (5, -5, 5), (-3, -9, 4), (-8, 8, 8), (100, -100, 7)]


def local(d): return bool(d.body) and not d.qn.startswith("std::") and not d.qn.startswith("bland::ndarray") and d.qn.split("<")[0] not in ("bland::arange", "bland::linspace", "bland::fill")


def peel(v):
    v = strip_all_casts(v)
    while v.op in ("upd",) or v.op == "new" and str(v.a[0]) in ("bland::ndarray", "bland::ndarray::datatype", "bland::ndarray::dev") and len(v.a) == 2: v = strip_all_casts(v.a[0] if v.op == "upd" else v.a[1])
    return v


def array(v):
    """shape, fill value or None, type, device of a new array"""
    v = peel(v)
    if v.op != "new" or str(v.a[0]) != "bland::ndarray" or len(v.a) not in (4, 5): return None
    a = list(v.a[1:])
    return (peel(a[0]), peel(a[1]) if len(a) == 4 else None, peel(a[-2]), peel(a[-1]))


def isp(t, p):
    """is the value the parameter p itself?"""
    t = peel(t)
    if t.op == "sym": return t.a[0] == p
    if t.op == "rec" and len(t.a) > 1 and all(x.op == "pv" for x in t.a[1:]):
        if all(peel(x.a[1]).op == "fld" and isp(peel(x.a[1]).a[0], p) and str(peel(x.a[1]).a[1]) == str(x.a[0]) for x in t.a[1:]): return True
    return None if contains(t, lambda x: x.op == "sym" and x.a[0] == p) else False


def env(code, bits, **kw):
    def leaf(t):
        if t.op == "sym" and t.a[0] in kw: return kw[t.a[0]]
        if t.op == "fld" and t.a[0].op == "sym" and t.a[0].a[0] == "dtype": return {"code": code, "bits": bits, "lanes": 1}.get(str(t.a[1]))
        if t.op == "call" and str(t.a[0]).split("<")[0] == "bland::ndarray::numel": return kw.get("numel")
    return leaf


def stores(ev): return [e for e in ev.effects if e.kind == "write" and re.search(r"data_ptr<([^<>]*)>", str(e.loc[0]))]


def written(ev, e, leaf):
    """[(index, value)] an effect stores at these arguments"""
    if happens([c for c in e.pc if not loop_guard(c, e.loops)], Text(leaf)) is False: return []
    out = []
    for l in every(e, leaf, [ev.allloops[L] if not hasattr(L, "trip") else L for L in e.loops], 4096):
        if len(e.loc[1]) != 1: raise Odd("place")
        i = e.loc[1][0]
        out.append((Text(l)(i.a[0]), Text(l)(e.val)))
    return out


def raised(ev, leaf):
    r = [happens(e.pc, Text(leaf)) for e in ev.effects if e.kind == "throw"]
    return True if True in r else None if None in r else False


def ptype(e): return re.search(r"data_ptr<([^<>]*)>", str(e.loc[0])).group(1)


def fits(v, code, bits):
    if code == 2: return True
    return (0 if code == 1 else -2 ** (bits - 1)) <= v < 2 ** (bits - (code == 0))


def kept(v, code, bits):
    return int(v) if code != 2 else v


def three(*r): return False if False in r else None if None in r else True


def filledby(ctx, key, F, ev, v, cases, names, want, shape):
    """the array a creator hands back holds want(...) for every case and every type"""
    A = array(v)
    where = F.where()
    if A is None:
        ctx.unknown(key, where, "the array handed back: " + show(v, 4)); return
    ctx.ob(key + ".type", three(isp(A[2], F.params[3]["n"]), isp(A[3], F.params[4]["n"])), where,
           "%s creates its array of type %s on %s, not with the type and on the device it was asked for" % (F.qn.split("<")[0], show(A[2], 4), show(A[3], 4)))
    ws = stores(ev)
    bad = odd = None
    done = 0
    for code, bits in DTYPES:
        for case in cases:
            exp = want(*case)
            if not all(fits(x, code, bits) for x in exp): continue
            leaf = env(code, bits, **dict(zip(names, case)))
            try:
                n = shape(A[0], leaf)
                if n != len(exp): bad = bad or "%s gives %s values, not %d" % (case, n, len(exp)); continue
                if raised(ev, leaf): bad = bad or "%s of type %s raises" % (case, (code, bits)); continue
                got = {}
                for e in ws:
                    w = written(ev, e, leaf)
                    if w and CPP.get(ptype(e)) != (code, bits): bad = bad or "type %s is written as %s at line %d" % ((code, bits), ptype(e), e.line)
                    for i, x in w:
                        if not 0 <= i < len(exp): bad = bad or "%s: writes value %s of %d" % (case, i, len(exp))
                        got[int(i)] = x
                for i, x in enumerate(exp):
                    if i not in got: bad = bad or "%s of type %s: value %d is not written" % (case, (code, bits), i)
                    elif abs(kept(got[i], code, bits) - kept(x, code, bits)) > 1e-9 and abs(got[i] - x) > 1e-6 or code != 2 and int(got[i] + (1e-9 if got[i] > 0 else -1e-9)) != int(x + (1e-9 if x > 0 else -1e-9)):
                        bad = bad or "%s of type %s: value %d is %s, not %s" % (case, (code, bits), i, got[i], x)
                done += 1
            except (Odd, ZeroDivisionError, OverflowError) as x: odd = odd or "%s: %s" % (case, x)
    ctx.count("ranges_evaluated", done)
    ctx.ob(key + ".values", False if bad else None if odd else True, where, "%s with %s: %s" % (F.qn.split("<")[0], ", ".join(names), bad or odd))
    for code, bits in NODTYPES:
        r = raised(ev, env(code, bits, **dict(zip(names, cases[0]))))
        if not r: ctx.ob(key + ".refused", r, where, "%s hands back an array of type %s without writing it" % (F.qn.split("<")[0], (code, bits))); break
    else: ctx.ok(key + ".refused", where)


def extent(t, leaf):
    if t.op == "vec" and len(t.a) == 1: return int(Text(leaf)(t.a[0]))
    raise Odd("shape " + show(t, 3))


def inst(F): return "_".join(str(p["t"]).replace("unsigned ", "u").replace("signed ", "s") for p in F.params if str(p["t"]) in CPP)


def steps(s, e, d):
    out = []; k = 0
    while (s + k * d < e if d > 0 else s + k * d > e) and k < 5000: out.append(s + k * d); k += 1
    return out


def ranges(ctx, P):
    for F in get(ctx, P, "bland::arange", lambda f: len(f.params) == 5):
        n = [p["n"] for p in F.params[:3]]; ts = [str(p["t"]) for p in F.params[:3]]
        if any(t not in CPP for t in ts): continue
        ev, v = go(ctx, P, F, inline=local)
        real = CPP[ts[0]][0] == 2
        un = [CPP[t][0] == 1 for t in ts]
        cases = (REAL if real else []) + [c for c in RANGES + DOWN if all(fits(c[i], *CPP[ts[i]]) for i in range(3))]
        key = "arange." + inst(F)
        filledby(ctx, key, F, ev, v, cases, n, steps, extent)
        r = raised(ev, env(2, 64, **dict(zip(n, (1, 5, 0)))))
        ctx.ob(key + ".zero", r, F.where(), "arange with a step of 0 raises nothing")
    for F in get(ctx, P, "bland::linspace", lambda f: len(f.params) == 5):
        n = [p["n"] for p in F.params[:3]]; t = str(F.params[0]["t"])
        if t not in CPP: continue
        ev, v = go(ctx, P, F, inline=local)
        cases = [c for c in LINES + DOWNLINES if all(fits(c[i], *CPP[t]) for i in range(2))]
        filledby(ctx, "linspace." + inst(F), F, ev, v, cases, n, lambda s, e, m: [s + k * (e - s) / m for k in range(m)], extent)


# ---------------------------------------------------------------------- arithmetic that wraps
UNSIGNED = re.compile(r"^(const )?(unsigned|bool$)")
RANK = {"unsigned char": 8, "unsigned short": 16, "unsigned int": 32, "unsigned long": 64, "unsigned long long": 64, "int": 32, "long": 64, "long long": 64, "short": 16, "signed char": 8, "char": 8}


def wraps(ctx, P):
    """differences of the ends, and a negative end or step, are not taken in an unsigned type"""
    mine = [f for f in P.defs.values() if f.file.endswith("bland/bland/ops/creators.cpp") and f.body]
    n = 0
    for F in mine:
        ps = {str(p.get("id")): str(p["t"]) for p in F.params}
        num = {p["n"] for p in F.params if str(p["t"]).replace("const ", "") in CPP and re.match("start|end|stop|step|low|high|first|last|a|b", p["n"])}
        if not num or F.qn.startswith("bland::rand"): continue
        body = F.body
        # values made of the ends: parameters and locals built from them
        made = set(num)
        for _ in range(3):
            for x in nodes(body):
                if x["k"] == "decl":
                    for d in x["v"]:
                        if d.get("e") and any(y["k"] == "var" and y["n"] in made for y in nodes(d["e"])) and str(d["t"]).replace("const ", "") in CPP: made.add(d["n"])

        def has(e): return any(y["k"] == "var" and y.get("n") in made for y in nodes(e))

        def visit(x, risky):
            nonlocal n
            if isinstance(x, list):
                for y in x: visit(y, risky)
                return
            if not isinstance(x, dict): return
            k = x.get("k")
            if k == "bin":
                n += 1
                t = str(x["t"])
                if x["op"] == "-" and UNSIGNED.match(t) and has(x["x"]) and has(x["y"]):
                    ctx.bad("wrap.%s.%d" % (F.qn.split("<")[0].split("::")[-1], x["l"]), "%s:%d" % (F.where().rsplit(":", 1)[0], x["l"]), "a difference of the ends of a range is taken in %s, where it wraps if the range descends (%s)" % (t, inst(F)))
                if x["op"] in ("/", "%", "<", ">", "<=", ">="): risky = True
            if k == "cast":
                ck, t, f = x.get("ck"), str(x["t"]), str(x["from"])
                if ck == "IntegralToFloating": risky = True
                elif ck == "IntegralCast" and UNSIGNED.match(f) and RANK.get(t.replace("const ", ""), 0) > RANK.get(f.replace("const ", ""), 0): risky = True
                elif ck in ("IntegralCast", "FloatingToIntegral") and risky and UNSIGNED.match(t) and not UNSIGNED.match(f) and has(x["e"]) and not nonneg(x["e"], F):
                    ctx.bad("wrap.%s.%d" % (F.qn.split("<")[0].split("::")[-1], x["l"]), "%s:%d" % (F.where().rsplit(":", 1)[0], x["l"]), "a signed end or step is turned into %s before it is divided, compared or widened: a negative one wraps (%s)" % (t, inst(F)))
            for kk, y in x.items():
                if isinstance(y, (dict, list)):
                    visit(y, (risky if k in ("bin", "cast", "un", "cond") and kk in ("x", "y", "e", "a", "b") else k == "decl" or kk == "v" and k == "decl" or k == "ret"))

        def nonneg(e, F):
            # made of unsigned values only
            return all(UNSIGNED.match(str(y["t"])) for y in nodes(e) if y["k"] == "var" and y.get("n") in made)
        visit(body, False)
    ctx.count("arithmetic_nodes", n)
    ctx.ob("wraps.seen", bool(n), "bland/bland/ops/creators.cpp", "no arithmetic on ranges found")


# ---------------------------------------------------------------------- types left out
def untyped(ctx, P):
    for q in ("bland::arange", "bland::linspace"):
        for F in get(ctx, P, q, lambda f: len(f.params) == 4):
            t = str(F.params[0]["t"])
            if t not in CPP: continue
            ev, v = go(ctx, P, F, inline=lambda d: bool(d.body) and not d.qn.startswith("std::") and d.qn.split("<")[0] not in ("bland::arange", "bland::linspace"))
            key = "untyped.%s.%s" % (q.split("::")[-1], inst(F))
            v = peel(v)
            if v.op != "call" or str(v.a[0]).split("<")[0] != q or len(v.a) != 6:
                ctx.unknown(key, F.where(), show(v, 4)); continue
            a = [peel(x) for x in v.a[1:]]
            ctx.ob(key + ".same", three(*[isp(x, p["n"]) for x, p in zip(a[:3] + a[4:], F.params)]),
                   F.where(), "%s without a type hands on %s" % (q, [show(x, 3) for x in a[:3] + a[4:]]))
            f = [ev.rec_get(a[3], (F_(k),)) for k in ("code", "bits", "lanes")]
            f = [x.a[0] if x is not None and x.op == "num" else None for x in f]
            lost = contains(a[3], lambda x: x.op == "undef") or a[3].op in ("obj", "init") or a[3].op == "new" and len(a[3].a) < 2
            ctx.ob(key + ".type", tuple(f) == CPP[t] + (1,) if None not in f else False if lost else None, F.where(), "%s of %s without a type creates type (code, bits, lanes) %s: %s" % (q, t, f, show(a[3], 3)))


def filled(ctx, P):
    for q, x in (("bland::zeros", 0), ("bland::ones", 1)):
        for F in get(ctx, P, q):
            ev, v = go(ctx, P, F, inline=local)
            A = array(v)
            ok = None
            if A: ok = three(A[1] is not None and (A[1].a[0] == x if A[1].op == "num" else None), *[isp(y, p["n"]) for y, p in zip((A[0], A[2], A[3]), F.params)])
            ctx.ob("filled." + q.split("::")[-1], ok, F.where(), "%s creates %s" % (q, show(v, 5)))
    n = 0
    for F in get(ctx, P, "bland::ndarray::ndarray", lambda f: len(f.params) == 4 and re.search("vector", str(f.params[0]["t"]))):
        ev, v = go(ctx, P, F, inline=lambda d: False)
        cs = [e for e in ev.effects if e.kind == "call" and (e.qn or "").split("<")[0] in ("bland::fill", "fill")]
        n += 1
        p = F.params[1]["n"]
        ctx.ob("filled.ndarray." + str(F.params[1]["t"]).replace(" ", ""), len(cs) == 1 and happens(cs[0].pc, Text(lambda t: None)) is True and peel(cs[0].args[-1]).op == "sym" and peel(cs[0].args[-1]).a[0] == p if len(cs) == 1 else False if not [e for e in ev.effects if e.kind in ("call", "write") and e.loops] and not cs else None,
               F.where(), "an array created with an initial value is not filled with it")
    ctx.ob("filled.ndarray", bool(n), "bland/bland/ndarray.cpp", "no constructor with an initial value")


# ---------------------------------------------------------------------- random
def drawnas(t):
    m = re.search(r"(\w+)_distribution<([^<>]*)>", str(t))
    return m and (m.group(2) or ("int" if "int" in m.group(1) else "double"))


def random(ctx, P):
    for q, dist, ab in (("bland::rand_normal", "normal_distribution", ("mean", "stddev")), ("bland::rand_uniform", "uniform", ("low", "high"))):
        for F in get(ctx, P, q):
            ev, v = go(ctx, P, F, inline=local)
            key = q.split("::")[-1] + "." + inst(F).split("_")[0]
            A = array(v)
            ctx.ob(key + ".array", None if A is None else three(*[isp(x, F.params[k]["n"]) for x, k in ((A[0], 0), (A[2], 3), (A[3], 4))]), F.where(), "%s creates %s" % (q, show(v, 5)))
            ab = [p["n"] for p in F.params[1:3]]
            ws = stores(ev)
            p0 = F.params[0]["n"]
            for code, bits in DTYPES + NODTYPES:
                def leaf(t, c=code, b=bits): return 3 if t.op == "sel" and isp(t.a[0], p0) or t.op == "call" and str(t.a[0]).split("::")[-1] in ("front", "back", "at") and isp(t.a[1], p0) else 2 if t.op == "size" and isp(t.a[0], p0) else env(c, b, numel=9)(t)
                r = raised(ev, leaf)
                hit = []; odd = None
                for e in ws:
                    try:
                        if e.loops and happens([c for c in e.pc if not loop_guard(c, e.loops)], Text(leaf)) is not False:
                            ls = [ev.allloops[L] if not hasattr(L, "trip") else L for L in e.loops]
                            for l in every(e, leaf, ls): hit.append((int(Text(l)(e.loc[1][0].a[0])), e))
                    except (Odd, ZeroDivisionError) as x: odd = str(x)
                places = sorted(i for i, _ in hit)
                if r is True: ok = (code, bits) in NODTYPES or q == "bland::rand_normal" and code != 2
                elif r is None or odd: ok = None
                else: ok = places == list(range(9)) and all(CPP.get(ptype(e)) == (code, bits) for _, e in hit)
                ctx.ob("%s.%d_%d" % (key, code, bits), ok, F.where(), "%s of type (%d, %d) %s" % (q, code, bits, "raises" if r else "of shape (3, 3) writes %s" % [(i, ptype(e)) for i, e in hit]))
            for e in ws:
                val = strip_all_casts(e.val)
                d = None
                if val.op == "call" and str(val.a[0]).split("::")[-1] == "operator()":
                    d = val.a[1]
                    m = 0
                    while d.op in ("iter", "upd", "out", "lout") and m < 6:
                        m += 1
                        if d.op == "iter":
                            L = ev.allloops.get(d.a[0])
                            if L is None: break
                            ks = [k for k in L.iter if L.iter[k] is d or L.iter[k].op == 'iter' and len(L.iter[k].a) > 1 and L.iter[k].a[1] == d.a[1]]
                            if not ks: break
                            d = L.init[ks[0]]
                        else: d = d.a[0]
                    d = strip_all_casts(d)
                got = [peel(x).a[0] if peel(x).op == "sym" else show(x, 3) for x in d.a[1:]] if d is not None and d.op == "new" else None
                ctx.ob("%s.between.%d" % (key, e.line) + "." + ptype(e).replace(" ", ""), None if got is None else dist in str(d.a[0]) and got == ab, e.where(), "%s draws from %s with %s, not with %s" % (q, d is not None and d.op == "new" and d.a[0], got, ab))
    # what is drawn has the type that is stored
    n = 0
    for F in P.defs.values():
        if not (F.file.endswith("bland/bland/ops/creators.cpp") and F.body): continue
        for x in nodes(F.body):
            if x["k"] == "decl":
                for d in x["v"]:
                    b = bare(d["e"]) if isinstance(d.get("e"), dict) else {"k": ""}
                    if b["k"] == "call" and getattr(b["f"], "qn", "").split("::")[-1] == "operator()" and drawnas((b.get("obj") or {}).get("t", "")):
                        m = drawnas(b["obj"]["t"]); n += 1
                        ctx.ob("drawn.%s.%s" % (str(d["t"]).replace(" ", ""), m.replace(" ", "")), CPP.get(m) == CPP.get(str(d["t"]).replace("const ", "")) if m in CPP else None, "%s:%d" % (F.where().rsplit(":", 1)[0], x["l"]), "elements of type %s are drawn from a distribution of %s" % (d["t"], m))
            if x["k"] == "asg" or x["k"] == "bin" and x.get("op") == "=":
                r = x.get("y") or x.get("r") or x.get("e")
                l = x.get("x") or x.get("lhs")
                if not isinstance(r, dict) or not isinstance(l, dict): continue
                b = bare(r)
                if b["k"] == "call" and getattr(b["f"], "qn", "").split("::")[-1] == "operator()" and "distribution" in str((b.get("obj") or {}).get("t", "")):
                    m = drawnas(b["obj"]["t"])
                    n += 1
                    if m: ctx.ob("drawn.%s.%s" % (str(l["t"]).replace(" ", ""), m.replace(" ", "")), CPP.get(m) == CPP.get(str(l["t"])) if m in CPP else None, "%s:%d" % (F.where().rsplit(":", 1)[0], x["l"]), "elements of type %s are drawn from a distribution of %s" % (l["t"], m))
            if x["k"] == "ctor" and "distribution" in str(x.get("cls", "")) and len(x.get("a", [])) == 2:
                m = drawnas(x["t"])
                for a in x["a"]:
                    bad = None
                    while a["k"] == "cast":
                        f = str(a["from"]).replace("const ", ""); t = str(a["t"]).replace("const ", "")
                        if m in CPP and t in CPP and t != m and f in CPP and (CPP[t][1] < min(CPP[f][1], CPP[m][1]) or CPP[t][0] != 2 and CPP[f][0] == 2): bad = t
                        a = a["e"]
                    if m: ctx.ob("drawn.limits.%d" % x["l"], bad is None, "%s:%d" % (F.where().rsplit(":", 1)[0], x["l"]), "a limit of a distribution of %s passes through %s" % (m, bad))
    ctx.ob("drawn", bool(n) or None, "bland/bland/ops/creators.cpp", "no drawn values found")


# ---------------------------------------------------------------------- deferred arrays
MEMOIZE, LAZY, EAGER = "memoize", "lazy", "eager"


def policies(P):
    for e in P.enums.values() if isinstance(P.enums, dict) else P.enums:
        qn = e.get("qn", "") if isinstance(e, dict) else ""
        if qn.endswith("eval_policy"): return {c["n"]: c["v"] for c in e.get("c", e.get("v", []))}
    return None


class World:
    """a deferred array holds an array or a function, has a device or none, and a policy"""

    def __init__(self, held, device, policy, given=()): self.held, self.device, self.policy, self.given = held, device, policy, given

    def content(self, ev, t):
        """what the shared place a pointer leads to holds"""
        t = strip_all_casts(t)
        if t.op == "ite":
            c = self.cond(t.a[0])
            if c is None: raise Odd("choice " + show(t.a[0], 3))
            return self.content(ev, t.a[1] if c else t.a[2])
        if t.op != "ref": raise Odd("place " + show(t, 3))
        return self.val(ev.load(ev.state, (t.a[0], ())))

    def cond(self, t):
        t = strip_all_casts(t)
        if t.op == "not": r = self.cond(t.a[0]); return None if r is None else not r
        if t.op in ("and", "or"):
            rs = [self.cond(x) for x in t.a]
            return (False if False in rs else None if None in rs else True) if t.op == "and" else (True if True in rs else None if None in rs else False)
        if t.op == "holds": return ("function" in str(t.a[0])) == (self.held == "function")
        if t.op == "hasval": return self.device is not None if "_device" in str(t) or "device" in str(t) else None
        if t.op == "ite":
            c = self.cond(t.a[0])
            return None if c is None else self.cond(t.a[1] if c else t.a[2])
        def leaf(x):
            if x.op == "fld" and str(x.a[1]) == "_policy" or x.op == "sym" and x.a[0] == "policy": return self.policy
            if x.op == "call" and str(x.a[0]).split("::")[-1] == "index": return 1 if self.held == "function" else 0
        try: return bool(Text(leaf)(t))
        except (Odd, TypeError, ZeroDivisionError): return None

    def val(self, t):
        """'held', 'called', or ('on', device, value)"""
        t = strip_all_casts(t)
        if t.op == "ite":
            c = self.cond(t.a[0])
            if c is None: raise Odd("choice " + show(t.a[0], 3))
            return self.val(t.a[1] if c else t.a[2])
        if t.op == "out" and t.a[0].op == "call" and str(t.a[0].a[0]).split("::")[-1] in ("operator=", "emplace"): return self.val(t.a[0].a[-1])
        if t.op == "new" and str(t.a[0]) in ("bland::ndarray",) and len(t.a) == 2: return self.val(t.a[1])
        if t.op == "new" and str(t.a[0]).startswith("std::variant") and len(t.a) == 2: return self.val(t.a[1])
        if t.op == "upd":
            return self.val(t.a[1].a[-1] if t.a[1].op == "call" and str(t.a[1].a[0]).split("<")[0] in ("std::variant::operator=", "std::variant::emplace") else t.a[0])
        if t.op == "sym" and t.a[0] in self.given: return "held"
        if t.op == "alt":
            if ("function" in str(t.a[0])) != (self.held == "function"): raise Wrong("the alternative it does not hold")
            return "held"
        if t.op == "call":
            q = str(t.a[0]).split("<")[0]
            if q == "apply" and len(t.a) == 2: self.val(t.a[1]); return "called"
            if q == "bland::ndarray::to" and len(t.a) == 3: return ("on", self.dev(t.a[2]), self.val(t.a[1]))
        raise Odd("value " + show(t, 3))

    def dev(self, t):
        t = strip_all_casts(t)
        while t.op in ("optval", "new", "some", "deref", "upd"): t = strip_all_casts(t.a[-1])
        if t.op == "fld" and str(t.a[1]) == "_device": return "device"
        if t.op == "sym": return t.a[0]
        return show(t, 3)


class Wrong(Exception): pass


def assigned(e):
    """the value an effect stores in the shared place"""
    if e.kind == "call" and (e.qn or "").split("<")[0] in ("std::variant::operator=", "std::variant::emplace") and "_deferred_data" in str(e.term): return e.term.a[-1]
    if e.kind == "write" and "_deferred_data" in str(e.loc): return e.val


def deferred(ctx, P):
    pol = policies(P) or {MEMOIZE: 0, LAZY: 1, EAGER: 2}
    ctx.ob("deferred.policies", sorted(pol) == [EAGER, LAZY, MEMOIZE] and len(set(pol.values())) == 3, "bland/bland/include/bland/ndarray_deferred.hpp", "policies %s" % pol)
    fs = [f for f in P.defs.values() if f.qn.startswith("bland::ndarray_deferred::operator") and "ndarray" in f.qn.split("operator")[-1]]
    if not fs: raise AnalysisError("anchor vanished: ndarray_deferred::operator ndarray")
    mine = lambda d: bool(d.body) and d.qn.startswith("bland::ndarray_deferred::") and not d.qn.endswith("::to")
    for F in fs:
        ev, v = go(ctx, P, F, inline=mine)
        for held, device, (pn, p) in itertools.product(("array", "function"), (None, "device"), sorted(pol.items())):
            W = World(held, device, p)
            key = "deferred.convert.%s.%s.%s" % (held, device or "none", pn)
            base = "called" if held == "function" else "held"
            want = ("on", "device", base) if device else base
            try: got = W.val(v)
            except Wrong as x: got = str(x)
            except Odd as x: ctx.unknown(key, F.where(), str(x)); continue
            ctx.ob(key, got == want, F.where(), "a %s deferred array that holds %s %s gives %s" % (pn, held, "and goes to a device" if device else "", got))
            calls = [every_cond(W, e.pc) for e in ev.effects if e.kind == "call" and (e.qn or "").split("<")[0] == "apply"]
            if None not in calls and not any(e.loops for e in ev.effects if e.qn == "apply"):
                ctx.ob(key + ".once", calls.count(True) == (held == "function"), F.where(), "a %s deferred array that holds %s calls its function %d times" % (pn, held, calls.count(True)))
            kept = []
            for e in ev.effects:
                a = assigned(e)
                if a is None: continue
                c = every_cond(W, e.pc)
                if c is None: kept.append(None)
                elif c:
                    try: kept.append(W.val(a))
                    except Wrong as x: kept.append(str(x))
                    except Odd: kept.append(None)
            if None in kept: ctx.unknown(key + ".kept", F.where(), "what is stored")
            elif held == "function": ctx.ob(key + ".kept", len(kept) > 0 and all(k in (want, base) for k in kept) if pn == MEMOIZE else not kept if pn == LAZY else True, F.where(), "a %s deferred array %s" % (pn, "stores %s" % kept if kept else "does not keep what its function gave"))
            else: ctx.ob(key + ".kept", all(k in (want, base) for k in kept), F.where(), "a %s deferred array that holds an array stores %s in its place" % (pn, kept))
    cs = get(ctx, P, "bland::ndarray_deferred::ndarray_deferred", lambda f: f.params and "ndarray_deferred" not in str(f.params[0]["t"]) or len(f.params) == 2)
    for F in cs:
        ev, _ = go(ctx, P, F, inline=mine)
        held = "function" if "function" in str(F.params[0]["t"]) else "array"
        if len(F.params) == 2:
            pp = ev.load(ev.state, (THIS[0], (F_("_policy"),)))
            ctx.ob("deferred.policy", strip_all_casts(pp).op == "sym" and strip_all_casts(pp).a[0] == F.params[1]["n"], F.where(), "the policy kept is %s" % show(pp, 3))
            for pn, p in sorted(pol.items()):
                W = World("function", None, p, (F.params[0]["n"],))
                ap = [e for e in ev.effects if e.kind == "call" and (e.qn or "").split("<")[0] == "apply"]
                c = [every_cond(W, e.pc) for e in ap]
                if None in c: ctx.unknown("deferred.built." + pn, F.where(), "conditions"); continue
                n = 1 if pn == EAGER else 0
                try: got = W.content(ev, ev.load(ev.state, (THIS[0], (F_("_deferred_data"),))))
                except Wrong as x: got = str(x)
                except Odd as x: ctx.unknown("deferred.built." + pn, F.where(), str(x)); continue
                ctx.ob("deferred.built." + pn, c.count(True) == n and got == ("called" if n else "held"), F.where(), "a %s deferred array calls its function %d times when it is built and holds what is %s" % (pn, c.count(True), got))
        else:
            try: got = World("array", None, 0, (F.params[0]["n"],)).content(ev, ev.load(ev.state, (THIS[0], (F_("_deferred_data"),))))
            except (Wrong, Odd) as x: got = None
            ctx.ob("deferred.built.array", None if got is None else got == "held", F.where(), "a deferred array made of an array holds %s" % (got,))
        dv = ev.load(ev.state, (THIS[0], (F_("_device"),)))
        ctx.ob("deferred.nodevice." + held, dv.op == "none", F.where(), "a new deferred array is bound for %s" % show(dv, 3))
    for F in get(ctx, P, "bland::ndarray_deferred::to"):
        ev, v = go(ctx, P, F, inline=lambda d: bool(d.body) and d.qn.startswith("bland::ndarray_deferred::"))
        dv = ev.load(ev.state, (THIS[0], (F_("_device"),)))
        x = strip_all_casts(dv)
        while x.op in ("some", "new", "upd"): x = strip_all_casts(x.a[-1])
        kind = "name" if "string" in str(F.params[0]["t"]) or "char" in str(F.params[0]["t"]) else "device"
        ctx.ob("deferred.to." + kind, x.op == "sym" and x.a[0] == F.params[0]["n"] if x.op in ("sym", "none", "fld") else None, F.where(), "sending a deferred array to a device leaves it bound for %s" % show(dv, 3))
        r = v is not None and ev.rec_get(v, (F_("_device"),)) if v is not None and v.op == "rec" else None
        if r is not None:
            y = strip_all_casts(r)
            while y.op in ("some", "new", "upd"): y = strip_all_casts(y.a[-1])
            ctx.ob("deferred.to.%s.back" % kind, y.op == "sym" and y.a[0] == F.params[0]["n"], F.where(), "the deferred array handed back is bound for %s" % show(r, 3))


def every_cond(W, pc):
    r = True
    for c in atoms(pc):
        v = W.cond(c)
        if v is False: return False
        if v is None: r = None
    return r


def check(ctx):
    P = ctx.program("bland/ops/creators.cpp", "bland/ndarray")
    for f in (ranges, wraps, untyped, filled, random, deferred): f(ctx, P)


if __name__ == "__main__": main("C26", RULE, check, 60)
