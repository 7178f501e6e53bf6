import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.check import *
from vlib.program import walk

RULE = ("every access to an array's storage as elements of a C++ type T (data_ptr<T>), reached from any non-template function of the "
        "array library, happens under path conditions that fix that array's run-time element type (code and bits) to T")
TYPES = {(2, 32): "float", (2, 64): "double", (0, 8): "signed char", (0, 16): "short", (0, 32): "int", (0, 64): "long",
         (1, 8): "unsigned char", (1, 16): "unsigned short", (1, 32): "unsigned int", (1, 64): "unsigned long", (0, 64, 2): "long long"}
BYTYPE = {v: k for k, v in TYPES.items()}
UNTYPED = ("void", "char", "std::byte")


def check(ctx):
    P = ctx.program("bland/")
    calls = {}

    def body(F):
        if F.key not in calls:
            F._resolve()
            calls[F.key] = [x for x in walk([F.d.get("b"), F.d.get("inits")]) if x["k"] == "call" and x.get("f") is not None]
        return calls[F.key]

    lib = lambda d: d.file.startswith("/repo/bland/bland/") and not d.lam
    tests = {}

    def tests_dtype(F, seen=()):
        """does F (or something it calls) look at an element type?"""
        if F.key in tests: return tests[F.key]
        if F.key in seen: return False
        r = False
        for x in body(F):
            f = x["f"]
            if f.qn in ("bland::ndarray::dtype", "bland::detail::blandDLTensor::dtype") or f.name in ("dispatch_nd",): r = True; break
            g = P.callee(f)
            if g is not None and lib(g) and g.cls not in ("bland::ndarray",) and tests_dtype(g, seen + (F.key,)): r = True; break
        tests[F.key] = r
        return r
    summ = {}

    def summary(F, seen=()):
        """(param index, T, location) accesses a function makes through its own parameters, without looking at element types"""
        if F.key in summ: return summ[F.key]
        if F.key in seen: return []
        ids = {p["id"]: i for i, p in enumerate(F.params)}
        out = []
        for x in body(F):
            f = x["f"]
            if f.qn.endswith("::data_ptr") and f.ta:
                o = x.get("obj")
                if isinstance(o, dict) and o["k"] == "var" and o["id"] in ids and f.ta[0] not in UNTYPED:
                    out.append((ids[o["id"]], f.ta[0], F.where(x["l"])))
                continue
            g = P.callee(f)
            if g is None or not lib(g) or g.cls == "bland::ndarray": continue
            for i, T, w in summary(g, seen + (F.key,)):
                if i < len(x["a"]):
                    a = x["a"][i]
                    while a["k"] in ("ctor", "cast") and (a.get("a") or a.get("e")): a = a["e"] if a["k"] == "cast" else a["a"][0]
                    if a["k"] == "var" and a["id"] in ids: out.append((ids[a["id"]], T, w))
        out = sorted(set(out))
        summ[F.key] = out
        return out

    kern = lambda d: lib(d) and d.cls != "bland::ndarray" and not tests_dtype(d) and bool(summary(d))
    roots = [F for F in P.defs.values() if lib(F) and not F.implicit and not F.lam]
    # roots: functions without element-type template parameters, plus creators (their element types are value types)
    istyped = lambda F: any(t in BYTYPE for t in F.ta + F.cta)
    reach = {}

    def reaches(F, seen=()):
        if F.key in reach: return reach[F.key]
        if F.key in seen: return False
        r = False
        for x in body(F):
            f = x["f"]
            if f.qn.endswith("::data_ptr") and f.ta and f.ta[0] not in UNTYPED: r = True; break
            g = P.callee(f)
            if g is not None and lib(g) and reaches(g, seen + (F.key,)): r = True; break
        reach[F.key] = r
        return r
    called = set()
    for F in roots:
        for x in body(F): called.add(x["f"].key)
    tops = []
    for F in roots:
        if not reaches(F): continue
        if F.cls == "bland::ndarray" and F.ta and F.name != "ndarray": continue  # typed accessor: the caller names the type
        if F.file.endswith(".hpp") and F.key in called: continue                # internal template: judged where it is used
        if not istyped(F) and not kern(F): tops.append(F)                      # public, untyped entry
        elif not F.cls and F.key not in called and not any(t in BYTYPE for t in F.ta): tops.append(F)
        elif not istyped(F): tops.append(F)                                    # fixed-type kernel: its own callers are judged where they call it
    topkeys = {F.key for F in tops}
    seen_sites = {}
    n_access = 0

    def strip_up(x):
        while True:
            if x.op == "upd": x = x.a[0]
            elif x.op == "call" and x.a[0] in ("bland::ndarray::to", "bland::to") and len(x.a) > 1: x = x.a[1]     # same elements on another device
            elif x.op == "ite" and strip_up(x.a[1]) is strip_up(x.a[2]): x = strip_up(x.a[1])
            elif x.op in ("ref", "addr") and len(x.a) == 1: x = x.a[0]
            elif x.op == "out" and isinstance(x.a[1], int) and x.a[0].op == "call" and x.a[1] + 1 < len(x.a[0].a): x = x.a[0].a[x.a[1] + 1]
            elif x.op == "call" and x.a[0] in ("bland::cpu::copy", "bland::copy") and len(x.a) == 3: x = x.a[2]         # returns its output array
            elif x.op == "call" and x.a[0] == "bland::copy" and len(x.a) == 2: x = x.a[1]
            else: return x

    def dfield(ev, d, fl):
        """component of an element-type value"""
        d = strip_up(d)
        if d.op == "ite": return None
        if d.op == "new" and len(d.a) == 2: return dfield(ev, d.a[1], fl)
        if d.op == "vec" and len(d.a) == 3: return d.a[("code", "bits", "lanes").index(fl)]
        if d.op == "call" and d.a[0] == "bland::ndarray::dtype":
            x = strip_up(d.a[1])
            if x.op == "ite":
                p, q = (dfield(ev, raw("call", "bland::ndarray::dtype", y), fl) for y in x.a[1:])
                return p if p is q else None
            if x.op == "new" and len(x.a) >= 3 and str(x.a[0]).startswith("bland::ndarray"): return dfield(ev, x.a[2], fl)
            return raw("fld", raw("call", d.a[0], x), fl)
        v = ev.rec_get(d, (F_(fl),))
        return v

    def canon(ev, t):
        def f(x):
            if x.op == "fld" and x.a[1] in ("code", "bits", "lanes"):
                b = strip_up(x.a[0])
                if b.op == "fld" and b.a[1] == "dtype" and b.a[0].op == "fld" and b.a[0].a[1] == "_tensor":
                    b = raw("call", "bland::ndarray::dtype", strip_up(b.a[0].a[0]))
                if b.op in ("call", "vec", "new"):
                    r = dfield(ev, b, x.a[1])
                    if r is not x: return r
            return None
        return subst(t, f)

    def facts_of(ev, pc):
        """values and equalities of element-type components that hold on the path"""
        val, par = {}, {}

        def find(x):
            while x in par: x = par[x]
            return x
        flat = []
        for c in pc: flat += list(c.a) if c.op == "and" else [c]
        for c in flat:
            if c.op == "eq" and len(c.a) == 2: ts = [c.a[0], c.a[1]]
            elif c.op != "eq0": continue
            else: ts = None
            if ts is None:
                t = canon(ev, c.a[0])
                d = dict(TT.pdict(t))
                k = d.pop((), 0)
                if any(len(m) != 1 for m in d): continue
                if len(d) == 1:
                    (m, co), = d.items()
                    if val.get(m[0], -k / co) != -k / co: return None
                    val[m[0]] = -k / co; continue
                if len(d) == 2 and k == 0 and sum(d.values()) == 0: ts = [m[0] for m in d]
                else: continue
            x, y = find(canon(ev, ts[0])), find(canon(ev, ts[1]))
            if x is not y: par[x] = y
        out = {}
        for x, v in val.items():
            k = find(x)
            if out.get(k, v) != v: return None          # contradictory: the path cannot be taken
            out[k] = v
        return lambda t: out.get(find(t))

    def forced(e, ev, x):
        """(code, bits) fixed by the path conditions for array term x; None when not fixed"""
        x = strip_up(x)
        look = facts_of(ev, e.pc)
        if look is None: return None
        r = []
        for fl in ("code", "bits"):
            v = dfield(ev, raw("call", "bland::ndarray::dtype", x), fl)
            if v is None: r.append("?"); continue
            v = canon(ev, v)
            r.append(v.a[0] if isnum(v) else look(v))
        return tuple(r)

    fld = lambda b, n: raw("fld", b, n)
    from vlib.ev import F as F_
    for R in tops:
        if kern(R) and R.key in called: continue
        ev = ctx.evaluator(P, inline=lambda d: lib(d) and d.cls != "bland::ndarray" and not kern(d) and "detail" not in d.qn and (d.ta or d.cta or d.key not in topkeys or d.file.endswith(".hpp")), max_depth=14)
        try:
            ev.run(R)
        except RecursionError:
            ctx.unknown("dtype:%s" % R.qn, R.where(), "too deep"); continue
        ctx.count("entry_points"); ctx.count("functions_evaluated", 1 + len(ev.inlined))
        acc = []
        for e in ev.effects:
            if e.kind != "call" or e.fn is None: continue
            if e.qn.endswith("::data_ptr") and e.fn.ta and e.fn.ta[0] not in UNTYPED:
                if e.obj is not None: acc.append((e, e.fn.ta[0], e.old, e.where()))
            else:
                g = P.callee(e.fn)
                if g is not None and kern(g):
                    off = 1 if e.obj is not None and g.cls and not g.static and len(e.args) == len(g.params) + 1 else 0
                    for i, T, w in summary(g):
                        if i + off < len(e.args): acc.append((e, T, e.args[i + off], w))
        for e, T, x, w in acc:
            if x is None: continue
            n_access += 1
            fb = forced(e, ev, x)
            if fb is None: continue
            code, bits = fb
            key = "%s<%s> in %s" % (w.rsplit(":", 1)[0], T, R.qn)
            want = BYTYPE.get(T)
            if want is None: ctx.unknown(key, w, "unusual element type"); continue
            if "?" in (code, bits):
                ctx.unknown(key, w, "element type of the array not understood"); continue
            if code is None or bits is None:
                st = "free"
            else:
                st = "ok" if (code, bits) == want[:2] else "bad"
            k2 = (R.qn, w, T, show(strip_up(x)))
            prev = seen_sites.get(k2)
            if prev is None or (prev[0] == "ok" and st != "ok"): seen_sites[k2] = (st, e, R, x, code, bits)
    ctx.count("typed_accesses_on_paths", n_access)
    for (rq, w, T, sx), (st, e, R, x, code, bits) in sorted(seen_sites.items(), key=lambda z: str(z[0])):
        key = "%s: %s as %s" % (rq, sx[:60], T)
        if st == "ok": ctx.ok(key, w)
        elif st == "bad": ctx.bad(key, w, "%s reads or writes %s as %s on a path where its element type has code %s and %s bits (called at %s)" % (rq, sx, T, code, bits, e.where()))
        else: ctx.bad(key, w, "%s reads or writes %s as %s on a path where its element type was not established (called at %s)" % (rq, sx, T, e.where()))


if __name__ == "__main__":
    main("C06", RULE, check, minimum=3)
