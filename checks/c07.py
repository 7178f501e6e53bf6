import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.check import *
from vlib.odo import *
from vlib.lists import Lists, Odd, happens

RULE = ("in every element-wise kernel the position of each operand is offsets + sum(index*stride) of that operand (broadcast strides where it is broadcast), "
        "proved as a loop invariant: each step of the dimension loop (advance and carry) changes the position by the index change times that operand's own "
        "stride; the walk starts at 0, visits every dimension, ends after the element count of the output, touches every element of a step once and pairs "
        "equal positions; the broadcast helpers align shapes from the right")
KERNELS = ["bland::elementwise_binary_op", "bland::elementwise_scalar_op", "bland::cpu::elementwise_unary_op", "bland::cpu::assignment_op",
           "(anon)::write_elements"]


def spread(fs, n=6):
    """instantiations that differ in their element types"""
    fs = sorted(fs, key=lambda f: tuple(f.ta))
    seen, out = [], []
    for i in range(max(map(lambda f: len(f.ta), fs))):
        for f in fs:
            if f.ta[i] not in seen and len(out) < n * (i + 1): seen.append(f.ta[i]); out.append(f)
        seen = []
    return out or fs[:1]


def kernel(ctx, P, q, F, tag):
    helpers = lambda d: d.file.startswith("/repo/bland/bland/ops/") and not d.cls and d.name not in ("compute_broadcast_strides", "compute_broadcast_shape")
    ev = ctx.evaluator(P, inline=helpers, record_reads=True)
    ev.run(F)
    K = Kernel(ev, F, lambda n, ok, w, m: ctx.ob("%s%s %s" % (q, tag, n), ok, w, m), same_shape=q.endswith("scalar_op"))
    vecs = []
    for e, X, E in K.accesses():
        E = K.canon(E)
        n = "%s %s" % (e.kind, show(X))
        r = K.direct(X, E, e.where(), n) if E.op == "lout" else K.incremental(X, E, e.where(), n)
        if r is None: ctx.ob("%s%s %s" % (q, tag, n), None, e.where(), "addressing not in a recognised form: " + show(E))
        elif isinstance(r, dict):
            if r not in vecs: vecs.append(r)
        ctx.count("element accesses")
    for v in vecs:
        K.check_walk(v, F.where())
        operands(ctx, K, F, q + tag, v)
    ctx.count("kernel instantiations")


def operands(ctx, K, F, q, vec):
    """the operation gets its operands in the order of the kernel's array parameters, and its result is always stored"""
    order = [p["n"] for p in F.params if p["n"] != "out"]
    for e, X, E in K.accesses():
        if e.kind != "write": continue
        v = e.val
        while v.op == "cast": v = v.a[-1]
        if v.op == "call" and "::call" in v.a[0]:
            names = []
            for a in v.a[1:]:
                s = [x for x in subterms(a) if x.op == "deref" and nm(x.a[0]).endswith("::data_ptr")]
                s = [K.arr(x.a[0].a[1]) for x in s] or [a]
                while s[0].op == "cast": s = [s[0].a[-1]]
                names.append(show(s[0]))
            if set(names) == set(order):
                ctx.ob(q + " operand order", names == order, e.where(), "the operation is applied to (%s) instead of (%s)" % (", ".join(names), ", ".join(order)))
        # a store that depends on the data leaves elements of the output unset
        for c in e.pc:
            if contains(c, lambda x: x.op == "deref" and nm(x.a[0]).endswith("::data_ptr")):
                ctx.ob(q + " every element stored", False, e.where(), "the result is only stored when %s" % show(c))


def listing(ev, v):
    """a list filled in a counted loop as (base, position -> (guard, value)) with the position as a fresh symbol"""
    if v.op != "lout": return None
    L = ev.allloops.get(v.a[0])
    if L is None or L.trip is None: return None
    nxt, g = v.a[3], TRUE
    if nxt.op == "ite":
        if nxt.a[1].op == "rec": g, nxt = nxt.a[0], nxt.a[1]
        elif nxt.a[2].op == "rec": g, nxt = lnot(nxt.a[0]), nxt.a[2]
    if nxt.op != "rec" or len(nxt.a) != 2 or nxt.a[0].op != "iter" or len(nxt.a[1].a) != 2: return None
    strip = lambda t: subst(t, lambda x: strip(x.a[1]) if x.op == "cast" else None)
    idx, val = strip(nxt.a[1].a[0].a[0]), nxt.a[1].a[1]
    p, c = sym("position"), L.ctr
    co = pdict(idx).get((c,), 0)
    if abs(co) != 1: return None
    k = scale(sub(p, sub(idx, scale(c, co))), co)
    r = lambda t: replace(strip(t), c, k)
    return v.a[2], r(land(g, lt(ZERO, sub(L.trip, c)))), r(val), p


def facts_of(c):
    return [x for x in (c.a if c.op == "and" else (c,))]


def helpers(ctx, P):
    sz = lambda n: raw("size", n)
    get = lambda l, i: raw("sel", l, i)

    def ask(name):
        F = P.byqn.get("bland::" + name)
        if not F: return None, None, None
        ev = ctx.evaluator(P, inline=lambda d: False)
        v = ev.run(F[0])
        names = [sym_of(ev, F[0], p) for p in F[0].params]
        return F[0], ev, v
    # strides: right aligned, zero where broadcast
    for name, field, base in (("compute_broadcast_strides", 1, "zero"), ("compute_broadcast_shape", 0, "out")):
        F, ev, v = ask(name)
        if F is None: continue
        v = getattr(v, "val", v)
        shape, out = sym(F.params[0]["n"]), sym(F.params[-1]["n"])
        src = sym(F.params[field]["n"])
        r = listing(ev, v) if v is not None else None
        k = name + ": "
        if r is None:
            ctx.unknown(k + "form", F.where(), show(v) if v is not None else ""); continue
        b, g, val, p = r
        mark_ints(p)
        q = add(p, sub(sz(shape), sz(out)))
        okb = (b.op == "filled" and b.a[0] is ZERO and b.a[1] is sz(out)) if base == "zero" else b is out
        ctx.ob(k + "broadcast dimensions", okb or (False if b.op in ("filled",) or b in (shape, out) else None), F.where(),
               "dimensions the array does not have start as %s" % show(b))
        sel = [x for x in subterms(val) if x.op == "sel" and x.a[0] is src]
        ctx.ob(k + "aligned from the right", True if val is get(src, q) else (False if sel else None), F.where(),
               "dimension p of the result takes %s" % show(val))
        ne1 = lnot(eq(get(shape, q), ONE))
        fs = [f for f in facts_of(g)]
        ctx.ob(k + "kept where not of size 1", True if ne1 in fs else (False if not any(contains(f, lambda x: x.op == "sel") for f in fs) or eq(get(shape, q), ONE) in fs else None),
               F.where(), "a dimension is taken when %s" % show(g))
        rest = [f for f in fs if f is not ne1]
        bad = [f for f in rest if contains(f, lambda x: x.op == "sel")]
        ctx.ob(k + "no other dimension is dropped", None if bad else True, F.where(), "also requires %s" % ", ".join(map(show, bad)))
    F, ev, v = ask("expand_shapes_to_broadcast")
    if F is not None:
        v = getattr(v, "val", v)
        A, B = sym(F.params[0]["n"]), sym(F.params[1]["n"])
        r = listing(ev, v) if v is not None else None
        k = "expand_shapes_to_broadcast: "
        if r is None: ctx.unknown(k + "form", F.where(), show(v) if v is not None else "")
        else:
            b, g, val, p = r
            n = b.a[1] if b.op == "filled" else None
            ctx.ob(k + "rank of the result", None if n is None else n in (tmax(sz(A), sz(B)), tmax(sz(B), sz(A))), F.where(), "the result has %s dimensions" % show(b))
            if n is not None:
                def dim(S):
                    q = add(p, sub(sz(S), n))
                    return q, get(S, q)
                (qa, da), (qb, db) = dim(A), dim(B)
                # present in both / only one of them
                has = lambda q: lt(ZERO, add(q, ONE))
                ok = True; why = ""
                for pa in (True, False):
                    for pb in (True, False):
                        if not pa and not pb: continue
                        conds = [has(qa) if pa else lnot(has(qa)), has(qb) if pb else lnot(has(qb))]
                        for case in ("a1", "b1", "eq"):
                            ea, eb = (da if pa else ONE), (db if pb else ONE)
                            cs = list(conds); rep_ = []
                            if case == "a1":
                                if pa: rep_.append((da, ONE))
                                want = eb
                            elif case == "b1":
                                if pb: rep_.append((db, ONE))
                                want = ea
                            else:
                                if not (pa and pb): continue
                                rep_.append((db, da)); want = da
                            got = decide(val, cs, rep_)
                            for o, nw in rep_: want = replace(want, o, nw)
                            if got is not want:
                                if case in ("a1", "b1") and got is not None and got.op == "max" and set(got.a) == {want, ONE}: continue
                                ok = False if got is not None and all(x.op in ("sel", "num", "poly", "sym", "size", "max", "min", "ite", "lt0", "eq0", "not") for x in subterms(got)) else None
                                why = "a dimension of size %s and one of size %s give %s" % (show(ea), show(eb), show(got) if got is not None else "?")
                                break
                ctx.ob(k + "extent of a dimension", ok, F.where(), why)


SHAPES = [(1,), (2,), (3,), (1, 1), (1, 3), (2, 1), (2, 3), (3, 2), (3, 3), (2, 2), (1, 2, 3), (2, 1, 3), (2, 2, 3), (1, 1, 1), (4, 2, 1)]


def rejects(ctx, P):
    """exactly the shapes that do not fit are refused: every exception's condition carried out on closed shapes"""
    def bc(a, b):
        n = max(len(a), len(b)); a = (1,) * (n - len(a)) + tuple(a); b = (1,) * (n - len(b)) + tuple(b)
        if any(x != y and 1 not in (x, y) for x, y in zip(a, b)): return None
        return tuple(y if x == 1 else x for x, y in zip(a, b))
    def onto(shape, out):
        r = list(out); o = len(out) - len(shape)
        for i, x in enumerate(shape):
            if i + o >= 0 and x != 1: r[i + o] = x
        return r
    def verdict(key, F, ev, leaf_of, wants, what):
        """wants(a, b): must it be refused? None: either"""
        th = [e for e in ev.effects if e.kind == "throw"]
        res, msg = True, ""
        for a in SHAPES:
            for b in SHAPES:
                w = wants(a, b)
                if w is None: continue
                leaf = leaf_of(a, b)
                got = False
                for e in th:
                    try: h = happens(e, leaf, ev.allloops)
                    except (Odd, KeyError, TypeError, ZeroDivisionError): h = None
                    if h: got = True; break
                    if h is None: got = None
                if got is None: res = None if res else res
                elif got != w and res is not False: res, msg = False, "%s and %s are %s" % (list(a), list(b), "accepted" if w else "refused")
                ctx.count("pairs of shapes")
        ctx.ob(key + ": " + what, res, F.where(), msg)
    F = P.byqn.get("bland::expand_shapes_to_broadcast")
    if F:
        F = F[0]; ev = ctx.evaluator(P, inline=lambda d: False); ev.run(F)
        A, B = sym(F.params[0]["n"]), sym(F.params[1]["n"])
        verdict("expand_shapes_to_broadcast", F, ev, lambda a, b: lambda t: list(a) if t is A else list(b) if t is B else None, lambda a, b: bc(a, b) is None, "refuses exactly the shapes that cannot be broadcast")
    for F in spread(P.byqn.get("bland::cpu::elementwise_unary_op", []))[:2]:
        ev = ctx.evaluator(P, inline=lambda d: d.file.startswith("/repo/bland/bland/ops/") and not d.cls and d.name not in ("compute_broadcast_strides", "compute_broadcast_shape")); ev.run(F)
        A, O = [sym(p["n"]) for p in F.params if p["n"] != "out"][0], sym("out")
        def leaf_of(a, o):
            def leaf(t):
                if t.op != "call": return None
                q = str(t.a[0]).split("<")[0]; x = strip_all_casts(t.a[1]) if len(t.a) > 1 and isinstance(t.a[1], T) else None
                s = a if x is A else o if x is O else None
                if s is not None and q == "bland::ndarray::ndim": return len(s)
                if s is not None and q == "bland::ndarray::shape": return list(s)
                if q == "bland::compute_broadcast_shape":
                    l = [leaf(strip_all_casts(y)) for y in t.a[1:3]]
                    if None not in l: return onto(*l)
            return leaf
        def wants(a, o):
            if bc(a, o) != tuple(o) : return True
            return False if a == o else None
        verdict("elementwise_unary_op<%s>" % ", ".join(F.ta[:2]), F, ev, leaf_of, wants, "refuses an output the operand does not fit")


def decide(val, conds, reps):
    def conc(t):
        for o, nw in reps: t = replace(t, o, nw)
        return t
    val = conc(val)
    conds = [conc(c) for c in conds]
    eqs, les = linfacts(conds)
    for pc, (x,) in flat_cases_ite([val]):
        e2, l2 = linfacts(pc)
        if infeasible(eqs + e2, les + l2) or any(lnot(c) in conds for c in pc): continue
        bad = False
        for c in pc:
            if c is FALSE: bad = True
        if bad: continue
        return x
    return None


def flat_cases_ite(ts):
    work, out = [((), list(ts))], []
    while work:
        pc, tt = work.pop()
        c = next((x.a[0] for t in tt for x in subterms(t) if x.op == "ite" and not contains(x.a[0], lambda y: y.op == "ite")), None)
        if c is None: out.append((pc, tt)); continue
        for val in (True, False):
            def f(x):
                if x.op == "ite" and x.a[0] is c: return subst(x.a[1] if val else x.a[2], f)
                return None
            work.append((pc + (c if val else lnot(c),), [subst(t, f) for t in tt]))
    return out


def mark_ints(p): pass
def sym_of(ev, F, p): return sym(p["n"])


def check(ctx):
    P = ctx.program("bland/ops/", "bland/internal")
    for q in KERNELS:
        fs = P.byqn.get(q)
        if not fs: continue
        for i, F in enumerate(spread(fs)):
            kernel(ctx, P, q, F, "" if i == 0 else "<%s>" % ",".join(F.ta))
    helpers(ctx, P)
    rejects(ctx, P)


if __name__ == "__main__": main("C07", RULE, check, 20)
