import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.rules import *
from vlib.ev import F as F_, I

RULE = ("after every constructor and assignment of the tensor type: shape and stride pointers are taken from the object's own lists after their last change, those lists and the number of axes, element "
        "type, device, offsets, data and the owner of the data are all those of the source; new storage holds product of extents times bytes per element in 64 bit and failure to get it throws; "
        "an exported tensor has every field of a copy kept alive until its deleter deletes it, pointers into that copy, and a byte offset of the summed offsets; a borrowed one applies the byte offset")
TN = "bland::detail::blandDLTensor"
IN = lambda d: d.qn.startswith("bland::detail")
COPY = lambda d: d.qn.startswith(TN)
FIELDS = ("byte_offset", "_data_ownership", "data", "device", "dtype", "ndim", "_offsets", "_shape_ownership", "_strides_ownership")
OWN = {"shape": "_shape_ownership", "strides": "_strides_ownership"}


def fin(ev, loc, f): return strip_all_casts(ev.load(ev.state, (loc[0], loc[1] + (F_(f),))))


def isptr(v, root, own):
    """pointer to the list `own` of the object at root"""
    v = strip_all_casts(v)
    if v.op != "ref": return False if free(v) and v.op in ("fld", "undef0", "num", "null", "sym") or v.op == "ite" and free(v) else None
    r = v.a[0]
    ps = [p for p in v.a[1:] if isinstance(p, T)] if len(v.a) > 1 else []
    return (own in show(v, 6), r)


def pointers(ctx, ev, f, loc, tag, when=()):
    for p, own in OWN.items():
        li, pi, pe = None, None, None
        pis = []
        for i, e in enumerate(ev.effects):
            if e.kind != "write" or e.loc[0] is not loc[0]: continue
            ns = [x.a[0] for x in e.loc[1] if x.op == "f"]
            if ns[-1:] == [own] and not any(x.op == "i" for x in e.loc[1]): li = i
            if ns[-1:] == [p] and not any(x.op == "i" for x in e.loc[1]): pis.append((i, e))
        v = core(fin(ev, loc, p))
        want = "&" + show(loc[0].a[0], 3) if False else None
        alts = [v] if v.op != "ite" else [v.a[1], v.a[2]]
        ok = True
        for x in alts:
            x = strip_all_casts(x)
            s = show(x, 6)
            mine = x.op == "ref" and s.endswith(own) and s.startswith("&" + show(loc[0], 3))
            if mine: continue
            if when and x is strip_all_casts(when[0](p)): continue      # left alone on self assignment
            ok = False if free(x) else None
        if ok and li is not None and pis and not any(e.pc != () for _, e in pis):
            ok = max(i for i, _ in pis) > li
        elif ok and li is not None and not pis: ok = False
        elif ok and li is not None and pis:
            # per branch: each change of the list is followed by a renewal of the pointer
            ls = [(i, e) for i, e in enumerate(ev.effects) if e.kind == "write" and e.loc[0] is loc[0] and [x.a[0] for x in e.loc[1] if x.op == "f"][-1:] == [own] and not any(x.op == "i" for x in e.loc[1])]
            ok = all(any(j > i and set(e2.pc) <= set(e.pc) for j, e2 in pis) for i, e in ls)
        ctx.ob(f"{tag}: {p} pointer", ok, f.where(), f"the {p} pointer does not point into the object's own list as it is at the end: {show(v, 5)[:70]}")


def copies(ctx, P):
    for f in get(ctx, P, TN + "::blandDLTensor") + get(ctx, P, TN + "::operator="):
        if len(f.params) != 1 or TN not in f.params[0]["t"].s and "blandDLTensor" not in f.params[0]["t"].s: continue
        asg = f.qn.endswith("operator=")
        tag = "assignment" if asg else "copy"
        o = sym(f.params[0]["n"])
        ev, v = go(ctx, P, f, inline=IN)
        for fd in FIELDS:
            x = fin(ev, THIS, fd)
            src = raw("fld", o, fd)
            alts = [x] if x.op != "ite" else [x.a[1], x.a[2]]
            me = raw("fld", sym("this"), fd)
            ok = src in alts and all(y is src or (asg and y is me) for y in alts)
            if ok and x.op == "ite":        # left alone only when it is the same object
                c = strip_all_casts(x.a[0])
                one = c.op in ("eq0", "eq") and mentions(c, o) and mentions(c, sym("this"))
                if one: ok = x.a[2] is src
            if fd == "data" and not ok and x.op == "call" and x.a[0].endswith("::get"): ok = False
            ctx.ob(f"{tag}: {fd}", ok or (False if free(x) else None), f.where(), f"{fd.strip('_')} is not that of the array given: {show(x, 4)[:70]}")
        pointers(ctx, ev, f, THIS, tag, when=(lambda p: raw("fld", sym("this"), p),) if asg else ())
        if asg:
            c = [strip_all_casts(e.val) for e in ev.effects if e.kind == "ret"]


def borrowed(ctx, P):
    fs = [f for f in get(ctx, P, TN + "::blandDLTensor") if len(f.params) == 1 and "DLManagedTensor" in f.params[0]["t"].s]
    if not fs: raise AnalysisError("anchor vanished: construction from a managed tensor")
    f = fs[0]
    w = f.where()
    o = raw("fld", sym(f.params[0]["n"]), "dl_tensor")
    ev, v = go(ctx, P, f, inline=IN)
    g = lambda n: fin(ev, THIS, n)
    of = lambda n: raw("fld", o, n)
    for fd in ("ndim", "device", "dtype"):
        x = g(fd)
        c = core(x)
        left = c.op == "fld" and c.a[0].op == "new" and len(c.a[0].a) <= 1
        ctx.ob(f"borrowed: {fd}", True if same_field(ev, x, of(fd)) else (False if free(x) or left else None), w, f"{fd} is not that of the tensor borrowed: {show(x, 4)[:60]}")
    pointers(ctx, ev, f, THIS, "borrowed")
    whole = lambda n: raw("new", "std::vector", of(n), add(of(n), of("ndim")))
    x = g("_shape_ownership")
    ctx.ob("borrowed: shape", True if core(x) is whole("shape") or islist(core(x), of("shape"), of("ndim")) else (False if free(core(x)) else None), w, "the shape is not a copy of every extent of the tensor borrowed: " + show(x, 4)[:80])
    # strides: a copy, or row-major where there are none
    null = [c for e in ev.effects if e.kind == "write" and e.loc[1] and e.loc[1][0].a[0] == "_strides_ownership" for c in atoms(e.pc) if nullcmp(c, of("strides"))]
    wr = [e for e in ev.effects if e.kind == "write" and e.loc[0] is THIS[0] and [y.a[0] for y in e.loc[1] if y.op == "f"][-1:] == ["_strides_ownership"]]
    cp = [e for e in wr if islist(strip_all_casts(e.val), of("strides"), of("ndim"))]
    reads = [e for e in wr if mentions(e.val, of("strides"))]
    for e in reads:
        ctx.ob("borrowed: strides may be absent", any(nullcmp(c, of("strides")) == "set" for c in atoms(e.pc)), e.where(), "strides are read although a compact tensor has none")
    ctx.ob("borrowed: strides", True if cp else (False if wr and all(free(e.val) for e in wr) else None), w, "the strides of the tensor borrowed are not taken over")
    for e in wr:
        i = next((p.a[0] for p in e.loc[1] if p.op == "i"), None)
        if i is None: continue
        L = e.loops[-1] if e.loops else None
        val = strip_all_casts(e.val)
        # strides[d] = strides[d + 1] * shape[d + 1]
        d = pdict(val)
        ok = None
        if len(d) == 1 and list(d.values()) == [1] and len(list(d)[0]) == 2 and L is not None and L.trip is not None:
            ms = list(d)[0]
            idx = [m.a[1] for m in ms if m.op == "sel"]
            nm = sorted("strides" if "strides" in show(m.a[0], 6) else "shape" if "shape" in show(m.a[0], 6) else "?" for m in ms if m.op == "sel")
            ok = nm == ["shape", "strides"] and all(strip_all_casts(j) is add(strip_all_casts(i), num(1)) for j in idx)
            n = of("ndim")
            first = strip_all_casts(i)
            ok = ok and sub(first, sub(sub(n, num(2)), L.ctr)) is num(0) and strip_all_casts(L.trip) is sub(n, num(1))
        elif free2(val): ok = None
        ctx.ob("borrowed: row-major strides", ok if ok is not None else None, e.where(), "strides of a compact tensor are not row-major: " + show(val, 5)[:80])
    # data
    x = g("data")
    want = add(of("data"), of("byte_offset"))
    bo = g("byte_offset")
    ok = (x is want and bo is num(0)) or (x is of("data") and bo is of("byte_offset") and False)
    ctx.ob("borrowed: first element", ok or (False if free(x) and free(bo) else None), w, "the data does not start at the byte offset of the tensor borrowed: " + show(x, 4)[:60])
    x = core(g("_offsets"))
    ctx.ob("borrowed: offsets", True if x.op == "filled" and strip_all_casts(x.a[0]) is num(0) and same_field(ev, x.a[1], of("ndim")) else (False if free2(x) else None), w, "offsets are not zero for every axis: " + show(x, 4)[:60])


def free2(t): return not contains(t, lambda x: x.op in ("undef", "unk", "icall"))


def core(x):
    x = strip_all_casts(x)
    if x.op == "fld" and x.a[0].op == "lout":          # a field the loop left alone
        b = x.a[0].a[2]
        while b.op == "rec":
            for pv in b.a[1:]:
                ps = [p.a[0] for p in pv.a[:-1] if p.op == "f"]
                if ps == [x.a[1]] and not any(p.op == "i" for p in pv.a[:-1]): return core(pv.a[-1])
            b = b.a[0]
        return raw("fld", b, x.a[1])
    if x.op == "ite":
        a, b = core(x.a[1]), core(x.a[2])
        if a is b: return a
    return x


def same_field(ev, x, want):
    return core(x) is want


def islist(x, p, n):
    return x.op == "new" and x.a[0].startswith("std::vector") and len(x.a) >= 3 and x.a[1] is p and core(x.a[2]) is add(p, n) or \
        x.op == "new" and len(x.a) >= 3 and x.a[1] is p and strip_all_casts(subst(x.a[2], lambda y: core(y) if y.op in ("ite", "fld") and core(y) is not y else None)) is add(p, n)


def nullcmp(c, p):
    c = strip_all_casts(c)
    s = True
    if c.op == "not": s, c = False, c.a[0]
    if c.op in ("eq", "eq0") and mentions(c, p): return "null" if s else "set"
    if c.op in ("truth", "nz") and mentions(c, p) or c is p: return "set" if s else "null"
    return None


def fresh(ctx, P):
    fs = [f for f in get(ctx, P, TN + "::blandDLTensor") if len(f.params) >= 3]
    if not fs: raise AnalysisError("anchor vanished: construction of a new tensor")
    f = fs[0]
    w = f.where()
    sh, dt, dv = (sym(f.params[i]["n"]) for i in range(3))
    ev, v = go(ctx, P, f, inline=IN)
    for fd, x in (("dtype", dt), ("device", dv), ("_shape_ownership", sh)):
        g = fin(ev, THIS, fd)
        ctx.ob("new: " + fd, eqf(g, x), w, f"{fd.strip('_')} is not what was asked for: " + show(g, 4)[:50])
    for fd, x in (("ndim", raw("size", sh)), ("byte_offset", num(0))):
        g = core(fin(ev, THIS, fd))
        ctx.ob("new: " + fd, eqf(g, x), w, f"{fd} is {show(g, 4)[:50]}")
    g = core(fin(ev, THIS, "_offsets"))
    ctx.ob("new: offsets", True if g.op == "filled" and strip_all_casts(g.a[0]) is num(0) and strip_all_casts(core(g.a[1])) is raw("size", sh) else (False if free(g) else None), w, "offsets are not zero for every axis: " + show(g, 4)[:60])
    pointers(ctx, ev, f, THIS, "new")
    al = [e for e in ev.effects if e.kind == "call" and e.qn.split("<")[0].split("::")[-1] in ("posix_memalign", "aligned_alloc", "malloc", "calloc", "operator new")]
    dev = raw("fld", dv, "device_type")
    ctx.ob("new: storage", bool(al) or None, w, "no storage is asked for")
    for e in al:
        nm = e.qn.split("::")[-1]
        n = e.args[{"posix_memalign": 2, "aligned_alloc": 1}.get(nm, 0)]
        narrow = any(x.op == "cast" and x.a[0] in ("i32", "u32", "i16", "f32") and contains(x, lambda y: y is sh or y.op == "call") for x in subterms(n))
        ctx.ob("new: size of the storage is 64 bit", not narrow, e.where(), "the size of the storage is counted in a type too narrow")
        m = strip_all_casts(n)
        d = pdict(m)
        bits = raw("fld", dt, "bits")
        want1 = [mul(raw("call", "product_of", sh, num(1)), raw("idiv", bits, num(8)))]
        ok = m in want1
        if not ok and len(d) == 1:
            ms = list(list(d)[0])
            elem = [x for x in ms if x.op == "call" and x.a[0] == "product_of" and x.a[1] is sh]
            rest = [x for x in ms if x not in elem]
            if elem and len(rest) == 1 and rest[0].op == "idiv": ok = rest[0].a[1] is num(8) and (rest[0].a[0] is bits or poly_lanes(rest[0].a[0], bits, dt))
        ctx.ob("new: size of the storage", ok or (False if free(m) else None), e.where(), "the storage is not the product of the extents times the bytes of an element: " + show(m, 5)[:80])
        data, own = core(fin(ev, THIS, "data")), core(fin(ev, THIS, "_data_ownership"))
        ctx.ob("new: data", True if data is own or data.op == "ite" and own in data.a or contains(data, lambda y: y is own) else (False if free(data) or data.op == "out" else None), w, "data does not point to the storage owned: " + show(data, 4)[:50])
        ctx.ob("new: storage owned", True if contains(own, lambda y: y is e.term or y.op == "out" and y.a[0] is e.term) else (False if free(own) else None), w, "the storage is not owned by the array: " + show(own, 4)[:50])
        # failure to get it does not go unnoticed
        thr = [x for x in ev.effects if x.kind == "throw" and any(mentions(c, e.term) for c in atoms(x.pc))]
        last = next((x for x in ev.effects if x.kind == "write" and x.loc[1] and x.loc[1][-1].a[0] == "_data_ownership" and x.val is not None and mentions(x.val, e.term)), None)
        if last is not None:
            pcs = [c for c in atoms(last.pc) if mentions(c, e.term)]
            good = any(c.op == "eq0" and (c.a[0] is e.term) for c in pcs) if nm == "posix_memalign" else any(nullcmp(c, e.term) == "set" for c in pcs) or None
            ctx.ob("new: storage refused", True if good else (False if nm == "posix_memalign" else None), e.where(), "an array is made although no storage was given")
    # a device nothing is allocated for
    d = core(fin(ev, THIS, "data"))
    und = [x for x in subterms(d) if x.op == "undef"]
    ctx.ob("new: every device", not und, w, "an array on some device is left without storage")


def poly_lanes(x, bits, dt): return x is mul(bits, raw("fld", dt, "lanes"))


def empty(ctx, P):
    f = next((f for f in get(ctx, P, TN + "::blandDLTensor") if not f.params), None)
    if f is None: raise AnalysisError("anchor vanished: empty tensor")
    ev, v = go(ctx, P, f, inline=IN)
    for fd in ("data", "shape", "ndim", "strides", "byte_offset", "device", "dtype"):
        x = fin(ev, THIS, fd)
        ok = not (x.op == "fld" or contains(x, lambda y: y.op == "undef"))
        if x.op == "fld" and contains(x, lambda y: y.op in ("call", "zeroinit")): ok = True if contains(x, lambda y: y.op == "zeroinit") else ok
        ctx.ob("empty: " + fd, ok, f.where(), f"{fd} of an empty array is left undefined")
    x = fin(ev, THIS, "ndim")
    ctx.ob("empty: no axes", eqf(x, num(0)), f.where(), "an empty array has axes")


def export(ctx, P):
    f = get(ctx, P, TN + "::to_dlpack")[0]
    w = f.where()
    ev, v = go(ctx, P, f, inline=IN, copies=COPY)
    v = strip_all_casts(v)
    if v.op != "ref": ctx.unknown("export", w, "result " + show(v, 4)[:60]); return
    root = v.a[0]
    if not isinstance(root, T) or root.op != "heap": ctx.ob("export: managed tensor", False if isinstance(root, T) and root.op in ("local", "tmp") else None, w, "the tensor handed out is not kept alive"); return
    g = lambda *p: strip_all_casts(ev.load(ev.state, (root, tuple(F_(x) for x in p))))
    ctxp = g("manager_ctx")
    hp = ctxp.a[0] if ctxp.op == "ref" and isinstance(ctxp.a[0], T) and ctxp.a[0].op == "heap" else None
    ctx.ob("export: owner", True if hp is not None else (False if free(ctxp) or ctxp.op in ("ref", "null") else None), w, "the tensor handed out does not keep the data alive: owner is " + show(ctxp, 4)[:50])
    this = sym("this")
    for fd in ("data", "device", "dtype", "ndim"):
        x = g("dl_tensor", fd)
        ctx.ob("export: " + fd, eqf(x, raw("fld", this, fd)), w, f"{fd} is not that of the array: " + show(x, 4)[:50])
    for p, own in OWN.items():
        x = g("dl_tensor", p)
        ok = None
        if x.op == "ref": ok = hp is not None and show(x, 6) == "&" + show(hp, 3) + "." + own
        elif free(x): ok = False
        ctx.ob(f"export: {p} pointer", ok, w, f"the {p} handed out is not kept alive with the tensor: {show(x, 5)[:60]}")
    if hp is not None:
        gh = lambda n: strip_all_casts(ev.load(ev.state, (hp, (F_(n),))))
        for fd in ("_data_ownership", "_shape_ownership", "_strides_ownership"):
            x = gh(fd)
            ctx.ob("export: owner's " + fd, eqf(x, raw("fld", this, fd)), w, f"the owner of the tensor handed out does not hold {fd.strip('_')} of the array: {show(x, 4)[:50]}")
    x = g("dl_tensor", "byte_offset")
    x = sub(x, raw("fld", this, "byte_offset"))
    bits = raw("fld", raw("fld", this, "dtype"), "bits")
    tot = raw("call", "sum_of", raw("fld", this, "_offsets"), num(0))
    xs = strip_all_casts(x)
    ok = xs is mul(tot, raw("idiv", bits, num(8))) or xs is raw("idiv", mul(tot, bits), num(8))
    ctx.ob("export: first element", ok or (False if free(xs) else None), w, "the byte offset is not that of the first element of the view: " + show(x, 5)[:80])
    narrow = any(y.op == "cast" and y.a[0] in ("i32", "u32") and contains(y, lambda z: z is tot) for y in subterms(x))
    ctx.ob("export: width of the byte offset", not narrow, w, "the byte offset is counted in a type too narrow")
    # the deleter deletes the owner
    dl = g("deleter")
    name = next((a for x in subterms(dl) for a in x.a if isinstance(a, str) and ("lambda" in a or a.startswith("local:") or a.startswith("bland"))), None)
    keys = [a for x in subterms(dl) for a in x.a if isinstance(a, str)]
    lf = None
    for k in keys:
        lf = P.defs.get(k) or lf
    if lf is None or lf.name == "__invoke" or lf.qn.endswith("::__invoke"):
        cand = [d for k, d in P.defs.items() if d.qn.startswith(TN + "::to_dlpack::(lambda)") and d.qn.endswith("operator()")]
        cand = [d for d in cand if any(a.startswith("local:") and a == d.key for a in keys)] or cand
        lf = cand[0] if len(cand) == 1 else None
    if lf is None:
        ctx.ob("export: deleter", False if dl.op == "null" or dl is num(0) or contains(dl, lambda y: y.op == "undef") else None, w, "deleter not followed: " + show(dl, 4)[:60]); return
    ev2, _ = go(ctx, P, lf, inline=lambda d: False)
    me = sym(lf.params[0]["n"])
    want = raw("fld", raw("deref", me), "manager_ctx")
    dele = [e for e in ev2.effects if e.kind == "delete"]
    hit = [e for e in dele if e.args and strip_all_casts(e.args[0]) is want]
    ok = len(hit) == 1 and all(nullcmp(c, want) == "set" or nullcmp(c, me) == "set" for c in atoms(hit[0].pc))
    ctx.ob("export: deleter", ok or (False if not hit and all(free(e.args[0]) for e in dele if e.args) or len(hit) > 1 else None), lf.where(), "the deleter of the tensor handed out does not delete its owner once")
    for e in hit:
        t = e.node["e"].get("t") if getattr(e, "node", None) else None
        if t is not None: ctx.ob("export: deleter's type", "blandDLTensor" in t.s, e.where(), f"the owner is deleted as {t.s}: what it holds is not given back")
    # get_managed_tensor hands out the export of the array's tensor
    m = get(ctx, P, "bland::ndarray::get_managed_tensor")[0]
    ev3, v3 = go(ctx, P, m, inline=lambda d: False)
    v3 = strip_all_casts(v3)
    ok = v3.op == "call" and v3.a[0].split("<")[0] == TN + "::to_dlpack" and strip_all_casts(v3.a[1]) is raw("fld", sym("this"), "_tensor")
    ctx.ob("export: of the array itself", ok or (False if free(v3) and v3.op != "call" else None), m.where(), "what is handed out is not the array's own tensor: " + show(v3, 4)[:60])


def check(ctx):
    P = ctx.program("bland/bland_tensor_internals", "bland/ndarray.cpp")
    copies(ctx, P)
    borrowed(ctx, P)
    fresh(ctx, P)
    empty(ctx, P)
    export(ctx, P)


if __name__ == "__main__": main("C12", RULE, check, 30)
