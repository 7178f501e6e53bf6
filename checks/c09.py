import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.check import *
from vlib.terms import *

RULE = ("for every instantiation of every arithmetic, comparison and unary operation and operator, the element function reached through the type and device "
        "dispatch (composition of the operand positions over the call graph) returns the named operation of the left and the right operand, in that order, on "
        "every path that returns; the result array has the broadcast shape of both operands (the array's shape for a scalar) and the left array's type "
        "(uint8 for comparisons)")

A, B = sym("A"), sym("B")
SPEC = {"add": add(A, B), "subtract": sub(A, B), "multiply": mul(A, B), "divide": div(A, B), "subtract_from": sub(B, A), "divide_into": div(B, A),
        "greater_than": lt(B, A), "greater_than_equal_to": le(B, A), "less_than": lt(A, B), "less_than_equal_to": le(A, B), "equal_to": eq(A, B),
        "logical_and": bitop("&", A, B), "square": mul(A, A), "sqrt": raw("call", "sqrt", A), "abs": tabs(A), "copy": A}
OPS = {"operator+": "add", "operator-": "subtract", "operator*": "multiply", "operator/": "divide", "operator>": "greater_than",
       "operator>=": "greater_than_equal_to", "operator<": "less_than", "operator<=": "less_than_equal_to", "operator==": "equal_to", "operator&": "logical_and"}
COMPARE = ("greater_than", "greater_than_equal_to", "less_than", "less_than_equal_to", "equal_to", "logical_and")
KERNELS = ("bland::elementwise_binary_op", "bland::elementwise_scalar_op", "bland::cpu::elementwise_unary_op", "bland::elementwise_unary_op")
SMALL = ("subtract_from", "divide_into")


def isarr(t):
    return "ndarray" in t.s and "datatype" not in t.s and "::dev" not in t.s


def plain(t):
    """an operand without copies, moves and conversions of the same value"""
    while True:
        if t.op == "cast" or t.op == "trunc": t = t.a[-1]
        elif t.op == "new" and t.a[0].startswith("bland::ndarray") and len(t.a) == 2 and t.a[0] in ("bland::ndarray", "bland::ndarray_slice"): t = t.a[1]
        elif t.op == "call" and t.a[0].split("<")[0] in ("std::forward", "std::move") and len(t.a) == 2: t = t.a[1]
        else: return t


class Summary:
    def __init__(self, ctx, P):
        self.ctx, self.P, self.memo, self.leaf, self.evs = ctx, P, {}, {}, {}
        reach = set()
        # which functions can reach an element function
        self.callers = {}

    def ev(self, F):
        if F.key not in self.evs:
            ev = self.ctx.evaluator(self.P, inline=lambda d: False, record_reads=True)
            ev.run(F)
            self.evs[F.key] = ev
            self.ctx.count("functions evaluated")
        return self.evs[F.key]

    def params(self, F):
        return {p["n"]: i for i, p in enumerate(F.params)}

    def index(self, F, t):
        t = plain(t)
        if t.op in ("sym", "var", "param"):
            n = show(t)
            if n == "this": return "this"
            i = self.params(F).get(n)
            if i is not None: return i
        return ("term", t)

    def expr(self, F):
        """result of an element function as a term over its parameters' indices; None when it never returns"""
        if F.key not in self.leaf:
            ev = self.ctx.evaluator(self.P, inline=lambda d: not d.cls or d.file.startswith("/repo/bland"), record_reads=True)
            ev.run(F)
            rs = [e.val for e in ev.effects if e.kind == "ret"]
            self.narrow(F, rs)
            self.leaf[F.key] = [None if r is None else self.bare(r, F) for r in rs]
            self.ctx.count("element functions")
        return self.leaf[F.key]

    def narrow(self, F, rs):
        """operands cut to fewer bits before the operation"""
        width = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "u8": 8, "u16": 16, "u32": 32, "u64": 64, "f32": 32, "f64": 64}
        self.cut = getattr(self, "cut", {})
        for r in rs:
            if r is None: continue
            top = r
            while top.op in ("cast", "trunc"): top = top.a[-1]
            for x in subterms(top):
                if x.op not in ("cast", "trunc"): continue
                y = x.a[-1]
                if y.op not in ("sym", "var", "param"): continue
                i = self.params(F).get(show(y))
                if i is None: continue
                t = F.params[i]["t"].s.replace("const ", "").replace("&", "").strip()
                w = {"float": 32, "double": 64, "int": 32, "unsigned int": 32, "long": 64, "unsigned long": 64, "short": 16, "unsigned short": 16}.get(t, 8)
                if x.op == "trunc" or x.a[0][0] in "iu" and width.get(x.a[0], 64) < w: self.cut[F.key] = "operand %s (%s) is narrowed before the operation: %s" % (F.params[i]["n"], t, show(r))

    def bare(self, t, F):
        ps = self.params(F)
        t = strip_all_casts(t)
        def f(x):
            if x.op == "trunc": return subst(x.a[-1], f)
            if x.op in ("sym", "var", "param") and show(x) in ps: return sym("#%d" % ps[show(x)])
            if x.op == "idiv": return div(subst(x.a[0], f), subst(x.a[1], f))
            if x.op == "lt0" and x.a[0].op == "poly":
                # integers: 0 < 1 + x  is  0 <= x
                d = dict(pdict(x.a[0])); one = ()
                if d.get(one) == 1:
                    d.pop(one); return le(ZERO, subst(pmake(d), f))
        return subst(t, f)

    def of(self, F):
        """[(element function, {its parameter: parameter of F}, out, where)]"""
        if F.key in self.memo: return self.memo[F.key]
        self.memo[F.key] = []
        out = []
        ev = self.ev(F)
        if F.qn in KERNELS:
            for e in ev.effects:
                if e.kind != "call" or e.fn is None or e.fn.name != "call": continue
                L = self.P.callee(e.fn)
                if L is None or any(isarr(p["t"]) for p in L.params): continue
                roles = {}
                for i, a in enumerate(e.args):
                    src = [x.a[0].a[1] for x in subterms(a) if x.op == "deref" and x.a[0].op == "call" and x.a[0].a[0].startswith("bland::ndarray::data_ptr")]
                    src = src or [a]
                    roles[i] = self.index(F, src[0])
                r = (L, roles, 0, e.where())
                if r[:2] not in [x[:2] for x in out]: out.append(r)
        else:
            for e in ev.effects:
                if e.kind != "call": continue
                for leaf, roles, o, w in self.calls(F, e):
                    out.append((leaf, roles, o, w))
        self.memo[F.key] = out
        return out

    def calls(self, F, e):
        if e.fn is None and e.qn == "apply":
            i = self.index(F, e.args[0])
            return [(("apply", i), {k: self.index(F, a) for k, a in enumerate(e.args[1:])}, None, e.where())] if isinstance(i, int) else []
        D = self.P.callee(e.fn) if e.fn is not None else None
        if D is None or not D.file.startswith("/repo/bland/bland") or D.isctor or D.isdtor: return []
        if not relevant(D): return []
        out = []
        ps = list(e.args)
        for leaf, roles, o, w in self.of(D):
            def up(i):
                if i == "this": return self.index(F, e.old if e.old is not None else e.obj)
                if isinstance(i, int): return self.index(F, ps[i]) if i < len(ps) else ("term", raw("unk", "missing"))
                return ("inner", D.qn, show(i[1]))
            roles = {k: up(i) for k, i in roles.items()}
            o = up(o) if isinstance(o, int) else None
            if isinstance(leaf, tuple):
                if leaf[0] == "apply":
                    f = plain(ps[leaf[1]]) if leaf[1] < len(ps) else None
                    if f is not None and f.op == "fnptr" and f.a[0] in self.P.defs:
                        G = self.P.defs[f.a[0]]
                        for l2, r2, o2, w2 in self.of(G):
                            def up2(i):
                                if isinstance(i, int): return roles.get(i, ("term", raw("unk", "missing")))
                                return ("inner", G.qn, i)
                            out.append((l2, {k: up2(i) for k, i in r2.items()}, roles.get(o2) if isinstance(o2, int) else None, w2))
                continue
            out.append((leaf, roles, o, w))
        return out


def relevant(D):
    return any(isarr(p["t"]) for p in D.params) or D.cls and D.cls.startswith("bland::ndarray")


def check(ctx):
    P = ctx.program("bland/ops/", "bland/ndarray")
    S = Summary(ctx, P)
    found = {}
    for F in list(P.defs.values()):
        if F.file.startswith("/repo/bland/bland/ops/cuda") or F.lam or F.implicit: continue
        ns = F.qn.rsplit("::", 1)[0]
        if ns not in ("bland", "bland::ndarray"): continue
        name = OPS.get(F.name, F.name)
        if name not in SPEC or not any(isarr(p["t"]) for p in F.params) and ns == "bland": continue
        if "ndarray" not in (F.rt.s if F.rt is not None else ""): continue
        found.setdefault(name, []).append(F)
        public(ctx, P, S, F, name)
    results(ctx, P, S)
    missing = [n for n in SPEC if n not in found and n not in SMALL]
    if missing: raise AnalysisError("no definition of " + ", ".join(missing))


def public(ctx, P, S, F, name):
    q = "%s(%s)" % (F.qn, ", ".join(p["t"].s for p in F.params))
    ps = (["this"] if F.qn.startswith("bland::ndarray::") else []) + list(range(len(F.params)))
    unary = name in ("square", "sqrt", "abs", "copy")
    operands = ps[:1] if unary else ps[:2]
    L = S.of(F)
    if not L:
        ctx.ob(q + ": reaches an element function", None, F.where(), "no element function is reached"); return
    want = SPEC[name]
    bad, und, good = [], [], 0
    for leaf, roles, o, w in L:
        if isinstance(leaf, tuple): und.append((w, "unresolved call")); continue
        for x in S.expr(leaf):
            if x is None: und.append((w, leaf.qn)); continue
            lost = []
            def f(t):
                if t.op == "sym" and t.a[0].startswith("#"):
                    r = roles.get(int(t.a[0][1:]))
                    if r in operands: return (A, B)[operands.index(r)]
                    lost.append(r); return raw("lost")
            got = subst(x, f)
            ok = got is want or equal(got, want, leaf)
            if ok: good += 1
            elif lost or not known(got): und.append((w, show(got)))
            else: bad.append((w, leaf, got))
    for leaf in set(l[0] for l in L if not isinstance(l[0], tuple) and l[0].key in getattr(S, "cut", {})):
        ctx.ob(q + ": operand precision", False, leaf.where(), S.cut[leaf.key])
    if bad:
        w, leaf, got = bad[0]
        ctx.ob(q + ": element operation", False, w, "%s computes %s instead of %s (A left, B right operand; element function %s<%s>)" %
               (F.name, show(got), show(want), leaf.qn, ",".join(leaf.ta)))
    else: ctx.ob(q + ": element operation", True if good and not und else None, F.where(), str(und[:1]))
    # every returning path returns the result of the operation
    for e in S.ev(F).effects:
        if e.kind != "ret": continue
        v = e.val
        r = plain(v)
        while r.op == "out": r = r.a[0]
        D = None
        if r.op == "call":
            for c in S.ev(F).effects:
                if c.kind == "call" and c.term is r: D = S.P.callee(c.fn) if c.fn is not None else None
        if D is not None and (S.of(D) or D.name == "device_dispatch"): ctx.ob(q + ": returns the result", True, e.where(), "")
        elif r.op in ("sym", "var", "param") and show(r) in [p["n"] for p in F.params] and not unary and known(r):
            ctx.ob(q + ": returns the result", False, e.where(), "returns its argument %s instead of a result" % show(r))
        else: ctx.ob(q + ": returns the result", None, e.where(), show(r))
    ctx.count("public instantiations")


def part(n, t):
    """X when t is X.n()"""
    t = plain(t)
    return plain(t.a[1]) if t.op == "call" and t.a[0].split("<")[0] == "bland::ndarray::" + n and len(t.a) == 2 else None


def results(ctx, P, S):
    """shape, type and device of the result arrays created for an element-wise operation"""
    for F in list(P.defs.values()):
        if F.key not in S.memo or not F.qn.startswith("bland::"): continue
        done = set()
        for leaf, roles, o, w in S.memo[F.key]:
            if not isinstance(o, tuple) or o[0] != "term" or isinstance(leaf, tuple): continue
            arrs = [p["n"] for p in F.params if isarr(p["t"])]
            ops = [roles[k] for k in sorted(roles)]
            names = [F.params[i]["n"] for i in ops if isinstance(i, int)]
            if len(names) != len(ops): continue
            names = [n for n in names if n in arrs]
            if (o[1].id, tuple(names)) in done: continue
            done.add((o[1].id, tuple(names)))
            q = "%s(%s)" % (F.qn, ", ".join(p["t"].s for p in F.params))
            t = plain(o[1])
            while t.op == "upd": t = plain(t.a[0])
            if t.op != "new" or not t.a[0].startswith("bland::ndarray") or len(t.a) < 4:
                ctx.ob(q + ": result array", None, F.where(), show(t)); continue
            shape, dtype, dev = t.a[1:4]
            for cond, shape in branches(plain(shape)):
                if shape.op == "call" and shape.a[0].endswith("expand_shapes_to_broadcast"):
                    got = sorted(show(x) for x in [part("shape", y) for y in shape.a[1:3]] if x is not None)
                    ctx.ob(q + ": result shape", got == sorted(names) or len(names) == 1 and set(got) == set(names), F.where(), "the result has the broadcast shape of %s, the operands are %s" % (got, names))
                else:
                    x = part("shape", shape)
                    ok = None if x is None else len(names) == 1 and show(x) == names[0]
                    if x is None and (any(part(k, shape) is not None for k in ("strides", "offsets")) or shape.op == "vec" and all(y.op == "num" for y in shape.a)): ok = False
                    # allowed where the shapes were compared for equality
                    if ok is False and len(names) == 2 and (contains_check(S.ev(F), names) or any(equality(c, names) for c in cond)): ok = None
                    ctx.ob(q + ": result shape", ok, F.where(), "the result has the shape %s, the operands are %s" % (show(shape), ", ".join(names)))
            compare = F.name in COMPARE or OPS.get(F.name) in COMPARE
            dt = plain(dtype)
            x = part("dtype", dt)
            if compare:
                bits = [v for v in subterms(dt) if v.op == "pv"]
                vals = {show(v.a[0]): show(v.a[1]) for v in bits if len(v.a) == 2}
                ctx.ob(q + ": result type", (vals.get("code"), vals.get("bits")) == ("1", "8") if vals else (False if x is not None else None), F.where(), "the result of a comparison has the type %s" % show(dt))
            elif F.name.replace("_cpu", "") in SPEC or F.name in SPEC:
                ctx.ob(q + ": result type", show(x) == names[0] if x is not None else None, F.where(), "the result has the type %s" % show(dt))
            y = part("device", dev)
            ctx.ob(q + ": result device", show(y) in names if y is not None else None, F.where(), "the result is on the device %s" % show(dev))
            ctx.count("result arrays")


def branches(t, cond=()):
    if t.op == "ite":
        return branches(plain(t.a[1]), cond + (t.a[0],)) + branches(plain(t.a[2]), cond + (lnot(t.a[0]),))
    return [(cond, t)]


def equality(c, names):
    return any((x.op == "eq0" or x.op == "call" and "operator==" in x.a[0] or x.op == "call" and "equal" in x.a[0]) and
               set(names) <= set(show(part("shape", y)) for y in subterms(x) if part("shape", y) is not None) for x in subterms(c)) and c.op != "not"


def contains_check(ev, names):
    """shapes of the operands are compared (or an error raised) elsewhere in the function"""
    return any(e.kind == "throw" for e in ev.effects)


def equal(got, want, leaf):
    if want.op == "call" and want.a[0] == "sqrt": return got.op == "call" and got.a[0].split("<")[0] in ("sqrt", "std::sqrt", "sqrtf") and got.a[1] is A or got.op == "sqrt" and got.a[0] is A
    if want is tabs(A):
        u = leaf.params[0]["t"].s.replace("const ", "").replace("&", "").strip()
        return got is A and u.startswith(("unsigned", "uint"))
    return False


def known(t):
    return not contains(t, lambda x: x.op in ("lost", "unk"))


if __name__ == "__main__": main("C09", RULE, check, 40)
