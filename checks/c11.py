import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.rules import *
from vlib import poly
from vlib.ev import F as F_, I

RULE = ("slice: under the conditions of the stores 0 <= start' <= end' <= size with start' and end' the documented normalisation; offset grows by start' times the stride before the slice, stride is "
        "multiplied, shape is ceil(length / stride), every slice_spec handed on; it refuses only what those bounds exclude. squeeze / unsqueeze: shape, stride and offset lists lose or gain the same "
        "axis, the sum of offsets is kept, pointers are taken after the last change of the lists. reshape: refuses another element count and uneven spacing, row-major strides over the new shape on "
        "the innermost spacing, sum of offsets kept. Element access: sum over every axis of offset and index * stride, 64 bit wide. New arrays: row-major strides")
N = "bland::ndarray::"
IN = lambda d: d.qn.startswith(("bland::detail", "process_slice", "(anon)")) or d.qn == "bland::process_slice_specs" or "::" not in d.qn
NOTVEC = ("undef", "unk", "icall")


def T_(*path):
    """value of a field of this->_tensor at the start"""
    t = sym("this")
    for p in path: t = raw("fld", t, p)
    return t


def ptr(base, f, idx):
    """element idx of the list behind pointer field f of a tensor value"""
    return raw("sel", raw("deref", raw("fld", raw("fld", base, "_tensor"), f)), idx)


def ncount(t):
    """calls that give an array's number of axes are the field itself"""
    def f(x):
        if x.op == "call" and x.a[0].split("<")[0] == N + "ndim" and len(x.a) == 2: return raw("fld", raw("fld", x.a[1], "_tensor"), "ndim")
        if x.op == "call" and x.a[0].split("<")[0] == N + "size" and len(x.a) == 3: return ptr(x.a[1], "shape", x.a[2])
        if x.op == "sel" and x.a[0].op == "call" and x.a[0].a[0].split("<")[0] in (N + "shape", N + "strides") and len(x.a[0].a) == 2:
            return ptr(x.a[0].a[1], x.a[0].a[0].split("<")[0].split("::")[-1], x.a[1])
        if x.op == "sel" and x.a[0].op == "fld" and x.a[0].a[1] in ("_shape_ownership", "_strides_ownership"):
            return raw("sel", raw("deref", raw("fld", x.a[0].a[0], x.a[0].a[1][1:].split("_")[0])), x.a[1])
        if x.op == "size" and x.a[0].op == "fld" and x.a[0].a[1] in ("_shape_ownership", "_strides_ownership", "_offsets"): return raw("fld", x.a[0].a[0], "ndim")
        if x.op == "sel" and x.a[0].op == "call" and x.a[0].a[0].split("<")[0] == N + "offsets" and len(x.a[0].a) == 2:
            return raw("sel", raw("fld", raw("fld", x.a[0].a[1], "_tensor"), "_offsets"), x.a[1])
        return None
    return subst(t, f)


def n_(t): return ncount(strip_all_casts(t))


def slicing(ctx, P):
    fs = get(ctx, P, "bland::slice")
    base = [f for f in fs if len(f.params) == 5 and f.params[1]["t"].s in ("long", "const long", "int64_t", "const int64_t")]
    if not base: raise AnalysisError("anchor changed: bland::slice with dimension, start, end and stride")
    one(ctx, P, base[0])
    bk = {f.key for f in base}
    for f in fs:
        if f.key in bk or len(f.params) < 2: continue
        chain(ctx, P, f, lambda d: (d.qn == "bland::slice" and d.key not in bk) or IN(d))
    seen = {}
    for f in P.byqn.get(N + "slice", []):
        ev, v = go(ctx, P, f, inline=lambda d: False)
        ps = [sym(p["n"]) for p in f.params]
        c = v if v.op == "call" and v.a[0].split("<")[0] == "bland::slice" else None
        ctx.ob(f"member slice {len(ps)}", (list(c.a[1:]) == [sym("this")] + ps) if c is not None else None, f.where(), "not every slice_spec is handed on in order: " + show(v, 4)[:90])
    ctx.count("slice_overloads", len(fs))


def one(ctx, P, f):
    w = f.where()
    a, dim, st0, en0, sd = [sym(p["n"]) for p in f.params]
    ev, v = go(ctx, P, f, inline=IN)
    v = strip_all_casts(v)
    base = v
    while base.op == "rec": base = base.a[0]
    ctx.ob("slice of the array given", True if base.op == "new" and base.a[0] == "bland::ndarray_slice" and base.a[1] is a or base is a else (False if free(base) else None), w, "the slice is not a copy of the array given: " + show(base, 4)[:60])
    S = ptr(a, "shape", dim)
    start = ite(raw("lt0", neg(st0)), add(st0, S), st0)
    end = ite(raw("lt0", neg(en0)), add(en0, S), tmin(en0, S))

    def norm(t):
        t = n_(t)
        return subst(t, lambda x: a if x is base else None)
    old = {"strides": ptr(a, "strides", dim), "shape": S, "_offsets": raw("sel", raw("fld", raw("fld", a, "_tensor"), "_offsets"), dim)}
    own = {"_shape_ownership": "shape", "_strides_ownership": "strides", "_offsets": "_offsets"}
    writes, odd = {}, False
    for e in ev.effects:
        if e.kind != "write": continue
        r, path = e.loc
        names = [p.a[0] for p in path if p.op == "f"]
        idx = [p.a[0] for p in path if p.op == "i"]
        k = None
        if r.op == "mem" and r.a[0].op == "deref" and r.a[0].a[0].op == "fld" and r.a[0].a[0].a[1] in ("shape", "strides"): k = r.a[0].a[0].a[1]
        elif r.op == "mem" and r.a[0].op == "fld" and r.a[0].a[1] in ("shape", "strides"): k = r.a[0].a[1]
        elif names[-1:] and names[-1] in own: k = own[names[-1]]
        if k is None: ctx.unknown(f"store {e.line}", e.where(), "store not understood"); odd = True; continue
        if not idx or strip_all_casts(idx[0]) is not dim:
            ctx.ob(f"store {k} {e.line}", False if idx and free(idx[0]) else None, e.where(), "another axis than the one asked for is changed"); continue
        writes.setdefault(k, []).append((e.val, e.pc, e.where()))
    # fields of the result held in the local value
    x = v
    while x.op == "rec":
        for pv in x.a[1:]:
            ks = [p.a[0] for p in pv.a[:-1] if p.op == "f"]
            ix = [p.a[0] for p in pv.a[:-1] if p.op == "i"]
            k = own.get(ks[-1]) if ks else None
            if k and ix: writes.setdefault(k, []).append((pv.a[-1] if strip_all_casts(ix[0]) is dim else raw("unk", "axis"), None, w))
        x = x.a[0]
    live = next((pc for k in ("shape", "strides", "_offsets") for _, pc, _ in writes.get(k, []) if pc is not None), tuple(ev.state.pc) if ev.state is not None else ())
    conds = [norm(c) for c in atoms(live)]
    conds0 = conds + [raw("le0", S)]
    for nm, c in (("start at or after the beginning", raw("le0", start)), ("start at or before the end of the axis", raw("le0", sub(S, start))),
                  ("end at or before the end of the axis", raw("le0", sub(S, end))), ("end not before start", raw("le0", sub(end, start))), ("stride positive", raw("lt0", sd))):
        ctx.ob("slice: " + nm, True if poly.implies(conds0, c) else (False if all(free(x) for x in conds) else None), w, "a slice that leaves the array, or has no meaning, is accepted")
    # the axis exists: the size of the axis is asked for (it refuses) on every path before a store
    ok = any(e.kind == "call" and e.qn.split("<")[0] == N + "size" for e in ev.effects) or any(mentions(c, dim) and c.op == "lt0" for c in conds)
    ctx.ob("slice: axis exists", ok, w, "the axis is not checked against the array")
    # refusals
    for e in ev.effects:
        if e.kind != "throw" or e.loops: continue
        pc = [norm(c) for c in atoms(e.pc)] + [raw("le0", S)]
        bad = [raw("le0", start), raw("le0", sub(S, start)), raw("le0", sub(end, start)), raw("lt0", sd)]
        r = poly.empty(pc + bad)
        # refusing what the axis count does not allow
        if not r and any(mentions(c, raw("fld", raw("fld", a, "_tensor"), "ndim")) for c in pc): r = None
        ctx.ob(f"slice: refusal {e.val if isinstance(e.val, str) else e.qn} {order(ev, e)}", True if r else (False if r is not None and all(free(c) for c in pc) else None), e.where(), "a valid slice is refused")
    # values
    for k, what in (("_offsets", "offset"), ("shape", "shape"), ("strides", "stride")):
        ws = writes.get(k, [])
        if not ws: ctx.ob("slice: " + what, None if odd else False, w, f"the {what} of the axis is not changed"); continue
        val, pc, wh = ws[-1]
        val = norm(val)
        cs = conds0 + ([norm(c) for c in atoms(pc)] if pc is not None else [])
        if len(ws) > 1: ctx.unknown("slice: " + what, wh, "stored more than once"); continue
        if k == "_offsets":
            d = sub(val, old[k])
            q, rest = {}, False
            for m, c in pdict(d).items():
                if old["strides"] in m:
                    m2 = list(m); m2.remove(old["strides"]); q[tuple(m2)] = c
                elif c: rest = True
            r = None if contains(val, lambda y: y.op in NOTVEC) else (False if rest else poly.same(pmake(q), start, cs))
            ctx.ob("slice: offset", r, wh, "the offset of the axis does not grow by start times the stride of the array given: " + show(d, 6)[:110])
        elif k == "strides":
            ctx.ob("slice: stride", True if val is mul(sd, old["strides"]) else (False if free(val) else None), wh, "the stride of the axis is not multiplied by the stride asked for: " + show(val, 5)[:80])
        else:
            L = sub(end, start)
            r = None
            d = pdict(val)
            ds = [m for m in d if any(y.op == "idiv" for y in m)]
            if len(ds) == 1 and len(ds[0]) == 1 and d[ds[0]] == 1:
                q = ds[0][0]; k0 = sub(val, raw_(q))
                if q.a[1] is sd and isnum(k0):
                    r = poly.same(add(q.a[0], scale(sd, k0.a[0])), sub(add(L, sd), num(1)), cs)
                    if r is False and poly.same(add(q.a[0], scale(sd, k0.a[0])), L, cs): r = False
                elif q.a[1] is sd:
                    # quotient plus one for a remainder
                    r = None
                else: r = False if free(q.a[1]) else None
            elif free(val) and not ds: r = False
            ctx.ob("slice: number of elements", r, wh, "the length of the axis is not the number of elements from start to end in steps of the stride: " + show(val, 6)[:110])


def raw_(x): return pmake({(x,): 1})


def order(ev, e):
    """which of the throws of that type"""
    return [x for x in ev.effects if x.kind == "throw" and x.qn == e.qn and not x.loops].index(e)


def chain(ctx, P, f, inl):
    w = f.where()
    ev, v = go(ctx, P, f, inline=inl, max_depth=40)
    names = [p["n"] for p in f.params]
    want = sym(names[0])
    for n in names[1:]:
        s = sym(n)
        want = ("slice", want, s)
    # unfold the value
    specs, x = [], strip_all_casts(v)
    while True:
        if x.op == "new" and x.a[0] == "bland::ndarray_slice" and len(x.a) == 2: x = x.a[1]; continue
        if x.op == "call" and x.a[0].split("<")[0] == "bland::slice" and len(x.a) == 6:
            specs.append(x.a[2:]); x = strip_all_casts(x.a[1]); continue
        break
    specs.reverse()
    key = f"slice specs {len(names) - 1}"
    if x is not sym(names[0]):
        ctx.ob(key, False if x.op == "sym" or specs and free(x) else None, w, "the first slice is not taken of the array given: " + show(x, 4)[:80]); return
    got = []
    for s in specs:
        b = {y.a[0] for y in s if y.op == "fld"}
        ok = len(b) == 1 and tuple(y.a[1] for y in s if y.op == "fld") == ("dim", "start", "end", "stride")
        got.append(next(iter(b)) if ok else None)
    exp = [sym(n) for n in names[1:]]
    ctx.ob(key, True if got == exp or (None not in got and sorted(g.id for g in got) == sorted(g.id for g in exp)) else False, w,
           "the slices taken are not the ones asked for: " + ", ".join("?" if g is None else show(g, 2) for g in got) + " of " + ", ".join(names[1:]))


# -- lists built axis by axis ------------------------------------------------------------------------------------------

def final(ev, f):
    return strip_all_casts(ev.load(ev.state, (THIS[0], (F_("_tensor"), F_(f)))))


def synced(ctx, ev, f, tag):
    """pointers into the lists are taken after the last change of the lists"""
    for own, p in (("_shape_ownership", "shape"), ("_strides_ownership", "strides")):
        last, got = None, None
        for i, e in enumerate(ev.effects):
            if e.kind != "write" or e.loc[0] is not THIS[0]: continue
            ns = [x.a[0] for x in e.loc[1]]
            if ns[-1:] == [own]: last = i
            if ns[-1:] == [p]: got = (i, e)
        if last is None: continue
        if got is None: ctx.bad(f"{tag}: {p} pointer", f.where(), f"the {p} pointer is not renewed with the list"); continue
        i, e = got
        v = strip_all_casts(e.val)
        mine = v.op in ("ref", "addr") and contains(v, lambda x: x == own or (isinstance(x, T) and x.op == "f" and x.a[0] == own)) or own in repr(v) and "other" not in show(v, 4)
        ok = own in show(v, 4) and v.op in ("ref", "addr")
        ctx.ob(f"{tag}: {p} pointer", (i > last) if ok else (False if free(v) else None), e.where(), f"the {p} pointer does not point into the array's own list as it is at the end: " + show(v, 4)[:60])


def src(x):
    """(list name, index) of an element read from a list of this->_tensor"""
    x = n_(x)
    if x.op != "sel": return None
    b, i = x.a
    if b.op == "deref": b = b.a[0]
    if b.op == "fld" and b.a[0] is T_("_tensor") and b.a[1] in ("shape", "strides", "_offsets", "_shape_ownership", "_strides_ownership"):
        return {"_shape_ownership": "shape", "_strides_ownership": "strides", "_offsets": "offsets"}.get(b.a[1], b.a[1]), i
    return None


def entries(nx, it):
    """[(conditions, pushed element or None)] : what one round of a list-building loop appends"""
    nx = strip_all_casts(nx)
    if nx is it: return [((), None)]
    if nx.op == "ite":
        return [((nx.a[0],) + c, x) for c, x in entries(nx.a[1], it)] + [((lnot(nx.a[0]),) + c, x) for c, x in entries(nx.a[2], it)]
    if nx.op in ("pushed", "pushed_push") and nx.a[0] is it: return [((), nx.a[1])]
    return [((), raw("unk", "list"))]


def built(ev, v):
    """(loop, entries) for a list value built from empty in a loop"""
    if v.op != "lout": return None
    L = ev.allloops.get(v.a[0]) if v.a[0] in ev.allloops else next((l for l in ev.allloops.values() if l.id == v.a[0]), None)
    if L is None or not (v.a[2].op == "vec" and len(v.a[2].a) == 0): return None
    it = [y for y in subterms(v.a[3]) if y.op == "iter" and y.a[0] == v.a[0] and y.a[1] == v.a[1]]
    if not it: return None
    return L, entries(v.a[3], it[0])


def squeeze(ctx, P):
    f = get(ctx, P, N + "squeeze")[0]
    w = f.where()
    q = sym(f.params[0]["n"])
    ev, v = go(ctx, P, f, inline=IN)
    nd = T_("_tensor", "ndim")
    Q = ite(raw("lt0", neg(q)), add(q, nd), q)
    pc = [n_(c) for c in atoms(ev.state.pc)] if ev.state is not None else []
    for e in ev.effects:
        if e.kind == "write": pc = [n_(c) for c in atoms(e.pc)]; break
    for nm, c in (("axis at or after the first", raw("le0", Q)), ("axis before the end", raw("lt0", sub(nd, Q)))):
        ctx.ob("squeeze: " + nm, True if poly.implies(pc, c) else (False if all(free2(x) for x in pc) else None), w, "an axis the array does not have is accepted")
    one_ = any(c.op == "eq0" and src_one(c, Q, pc) for c in pc)
    ctx.ob("squeeze: axis of one element", one_ or (None if any(not free2(c) for c in pc) else False), w, "an axis of more than one element can be dropped")
    lists(ctx, ev, f, "squeeze", [(lambda k, cs: poly.same(k, Q, cs + pc) is True, "drop"), ], nd, nd, Q, pc)


def src_one(c, Q, pc):
    d = pdict(c.a[0])
    for m, k in d.items():
        if len(m) == 1:
            s = src(m[0])
            if s and s[0] == "shape" and poly.same(s[1], Q, [x for x in pc if x is not c]) is True: return abs(d.get((), 0)) == 1
    return False


def lists(ctx, ev, f, tag, _, nd, trip, Q, pc):
    """the three lists after squeeze (drop axis Q) or unsqueeze (insert at Q)"""
    w = f.where()
    insert = tag == "unsqueeze"
    newsz = None
    for own, nm in (("_shape_ownership", "shape"), ("_strides_ownership", "strides"), ("_offsets", "offsets")):
        v = final(ev, own)
        key = f"{tag}: {nm}"
        extra = []
        body = v
        # choices made afterwards on the list, and elements changed afterwards
        alts = [((), v)] if v.op != "ite" else [((v.a[0],), v.a[1]), ((lnot(v.a[0]),), v.a[2])]
        core = None
        for cs, x in alts:
            ch = []
            while x.op == "rec" and x.a[0].op in ("lout", "rec"):
                ch += list(x.a[1:]); x = x.a[0]
            extra.append((cs, ch))
            if core is None: core = x
            elif core is not x: core = raw("unk", "list")
        b = built(ev, core)
        if b is None:
            if core.op == "fld" and core.a[0] is T_("_tensor"): ctx.bad(key, w, f"the {nm} of the array are left as they were")
            else: ctx.unknown(key, w, "list not built axis by axis: " + show(core, 4)[:60])
            continue
        L, ent = b
        want_trip = add(trip, num(1)) if insert else trip
        full = loopfull(L, want_trip) if L.trip is None or n_(L.trip) is not want_trip else not (L.breaks or L.hasret)
        r = True if full else (False if L.trip is not None and free(L.trip) else None)
        why = "the loop does not pass over every axis"
        k = L.ctr
        for cs, x in ent:
            if not r: break
            cs = [n_(c) for c in cs] + pc + [raw("le0", k), raw("lt0", sub(want_trip, k))]
            if poly.empty(cs): continue
            at = raw("eq0", sub(k, Q))
            if x is None:
                ok = not insert and poly.same(k, Q, cs) is True
                r = ok; why = "an axis other than the one asked for is left out" if not ok else why; continue
            x = n_(x)
            s = src(x)
            if isnum(x):
                ok = insert and poly.same(k, Q, cs) is True and ((nm == "shape" and x is num(1)) or (nm == "offsets" and x is num(0)) or nm == "strides")
                r = ok; why = f"the new axis gets {nm} {show(x)}" if not ok else why; continue
            if s is None: r = None; why = "appended element not understood: " + show(x, 4)[:50]; continue
            if s[0] != nm: r = False; why = f"the {s[0]} of an axis are taken for its {nm}"; continue
            idx = s[1]
            if insert and contains(idx, lambda y: y.op == "iter"): idx = counted(ev, L, idx, Q)
            exp = k if not insert else ite(raw("lt0", sub(k, Q)), sub(k, num(1)), k)
            if not insert and not poly.implies(cs, lnot(at)) : r = False; why = "the axis asked for is kept"; continue
            ok = poly.same(idx, exp, cs)
            if not ok: r = ok; why = f"the {nm} of axis {show(idx, 4)[:30]} is taken"
        ctx.ob(key, r, w, why)
        if nm == "shape": newsz = raw("size", core)
        if not insert and nm == "offsets":
            # the offset of the axis dropped is added to another one
            ok = True
            for cs, ch in extra:
                cs2 = [n_(c) for c in cs] + pc
                got = num(0)
                for pv in ch:
                    old = raw("sel", core, pv.a[0].a[0])
                    got = add(got, sub(pv.a[-1], old))
                got = n_(got)
                d = {m: c for m, c in pdict(got).items() if c}
                fine = len(d) == 1 and list(d.values()) == [1] and len(list(d)[0]) == 1 and (src(list(d)[0][0]) or (0,))[0] == "offsets" and poly.same(src(list(d)[0][0])[1], Q, pc) is True
                # or it is known to be zero there
                zero = any(c.op == "eq0" and len(pdict(c.a[0])) == 1 and src(strip_all_casts(pmake({list(pdict(c.a[0]))[0]: 1}))) and src(pmake({list(pdict(c.a[0]))[0]: 1}))[0] == "offsets" for c in flat(cs2))
                zero = zero or any(c.op == "or" and any(x.op == "eq0" and contains(x, lambda y: y.op == "fld" and y.a[1] == "_offsets") for x in c.a) and contains(c, lambda y: y.op == "size") and cs for c in pc)
                if not fine and not zero: ok = False if all(free2(pv.a[-1]) for pv in ch) else None
            ctx.ob("squeeze: offset of the axis dropped", ok, w, "where the array starts along the axis dropped is lost")
    synced(ctx, ev, f, tag)
    d = strip_all_casts(final(ev, "ndim"))
    old = T_("_tensor", "ndim")
    want = (add(old, num(1)) if insert else sub(old, num(1)))
    ctx.ob(f"{tag}: ndim", True if d is newsz or n_(d) is want else None if newsz is None else (False if free(d) or d.op == "size" and d.a[0].op == "fld" else None), w, "the number of axes does not follow the lists: " + show(d, 4)[:60])


def flat(cs):
    for c in atoms(cs): yield c


def free2(t): return not contains(t, lambda x: x.op in ("undef", "unk", "icall"))


def counted(ev, L, idx, Q):
    """a counter stepped once when the new axis is passed is 1 after it: read as a choice on the loop counter"""
    def f(x):
        if x.op != "iter" or x.a[0] != L.id: return None
        loc = next((l for l in L.next if strip_all_casts(L.iter[l]) is x), None) if L.iter else None
        if loc is None: return None
        i, nx = strip_all_casts(L.init[loc]), n_(L.next[loc])
        if nx.op == "ite":
            a, b, c = nx.a[1], nx.a[2], nx.a[0]
            if c.op == "not": a, b, c = b, a, c.a[0]
            if c.op == "eq0" and poly.same(L.ctr, Q, [c]) is True and a is add(x, num(1)) and b is x:
                return add(i, ite(raw("lt0", sub(L.ctr, Q)), num(1), num(0)))
        elif isnum(sub(nx, x)): return None
        # x + (k == Q)
        d = sub(nx, x)
        return None
    return subst(idx, f)


def unsqueeze(ctx, P):
    f = get(ctx, P, N + "unsqueeze")[0]
    w = f.where()
    q = sym(f.params[0]["n"])
    ev, v = go(ctx, P, f, inline=IN)
    nd = T_("_tensor", "ndim")
    pc = []
    for e in ev.effects:
        if e.kind == "write" and not e.loops: pc = [n_(c) for c in atoms(e.pc)]; break
    Q = q if poly.implies(pc, raw("le0", q)) else ite(raw("lt0", neg(q)), add(q, add(nd, num(1))), q)
    for nm, c in (("axis at or after the first", raw("le0", Q)), ("axis at or before the end", raw("le0", sub(nd, Q)))):
        ctx.ob("unsqueeze: " + nm, True if poly.implies(pc, c) else (False if all(free(x) for x in pc) else None), w, "an axis the array cannot have is accepted")
    lists(ctx, ev, f, "unsqueeze", None, nd, nd, Q, pc)


def reshape(ctx, P):
    f = get(ctx, P, N + "reshape")[0]
    w = f.where()
    ns = sym(f.params[0]["n"])
    ev, v = go(ctx, P, f, inline=IN)
    nd = T_("_tensor", "ndim")
    numel = lambda t: t.op == "call" and t.a[0].split("<")[0] == N + "numel" and t.a[1] is sym("this")
    prod = lambda t: t.op == "call" and t.a[0] == "product_of" and t.a[1] is ns
    wr = [e for e in ev.effects if e.kind == "write" and e.loc[0] is THIS[0] and not e.loops]
    pc = list(atoms(wr[0].pc)) if wr else []
    def count(c):
        c = strip_all_casts(c)
        if c.op != "eq0": return False
        d = pdict(c.a[0])
        return len(d) == 2 and sorted(d.values()) == [-1, 1] and any(len(m) == 1 and numel(m[0]) for m in d) and any(len(m) == 1 and prod(m[0]) for m in d)
    ctx.ob("reshape: element count", True if any(count(c) for c in pc) else (False if all(free(c) for c in pc) else None), w, "another number of elements is accepted")
    wide = [x for c in pc for x in subterms(c) if x.op == "cast" and x.a[0] in ("i32", "u32", "f32", "i16") and contains(x, prod)]
    ctx.ob("reshape: element count width", not wide, w, "the number of elements is counted in a type too narrow")
    # uneven spacing is refused: a throw in a loop over the axes that compares the stride of an axis with a value from the axes after it
    L = None; okt = None
    for e in ev.effects:
        if e.kind != "throw" or not e.loops: continue
        for c in atoms(e.pc):
            c = n_(c)
            if c.op == "not" and c.a[0].op == "eq0" and any(len(m) == 1 and (src(m[0]) or (0,))[0] == "strides" for m in pdict(c.a[0].a[0])):
                d = {m: k for m, k in pdict(c.a[0].a[0]).items()}
                its = [m[0] for m in d if len(m) == 1 and m[0].op == "iter"]
                okt, L, cmp_ = e, e.loops[-1], its
    st = final(ev, "_strides_ownership")
    rows(ctx, ev, f, "reshape", st, ns)
    sc = strip_all_casts(final(ev, "_shape_ownership"))
    ctx.ob("reshape: shape", eqv(sc, ns), w, "the shape is not the one asked for")
    d = n_(final(ev, "ndim"))
    ctx.ob("reshape: ndim", True if d is raw("size", ns) else (False if free(d) else None), w, "the number of axes is not that of the shape asked for")
    synced(ctx, ev, f, "reshape")
    of = final(ev, "_offsets")
    alts = [((), of)] if of.op != "ite" else [((of.a[0],), of.a[1]), ((lnot(of.a[0]),), of.a[2])]
    ok = True
    for cs, x in alts:
        got, y = num(0), x
        while y.op == "rec":
            for pv in y.a[1:]: got = add(got, pv.a[-1])
            y = y.a[0]
        if not (y.op == "filled" and y.a[0] is num(0) and y.a[1] is raw("size", ns)): ok = None if not (y.op == "filled" or y.op == "fld") else False; break
        tot = lambda t: t.op == "call" and t.a[0] == "sum_of" and n_(t.a[1]) is T_("_tensor", "_offsets") and t.a[2] is num(0)
        if tot(n_(got)): continue
        if got is num(0) and poly.empty(list(cs) + [raw("lt0", raw("size", ns))]): continue   # no axis to keep it: refused unless zero
        ok = False if free2(got) else None
    ctx.ob("reshape: offsets", ok, w, "the place of the first element is not kept")
    if okt is None:
        # nothing compares strides: only contiguous arrays may be reshaped
        ctx.ob("reshape: spacing", None if any(e.kind == "throw" and e.loops for e in ev.effects) or any(not free(c) for c in pc) else False, w, "an array whose elements are not evenly spaced is reshaped without a copy")
        return
    full = n_(L.trip) if L.trip is not None else None
    k = L.ctr
    ax = sub(sub(nd, num(1)), k)
    stv, shv = ptr(sym("this"), "strides", ax), ptr(sym("this"), "shape", ax)
    ok = full is nd and not L.breaks and not L.hasret
    ctx.ob("reshape: spacing over every axis", ok or (None if full is None else False), okt.where(), "the spacing is not compared along every axis")
    it = next((x for x in cmp_), None)
    loc = next((l for l in L.next if strip_all_casts(L.iter[l]) is it), None) if it is not None else None
    if loc is None: ctx.unknown("reshape: spacing", okt.where(), "expected spacing not followed"); return
    nx = n_(L.next[loc])
    ok = True
    for c, x in leaves(nx):
        if x is it: ok = ok and any(isone(y, shv) for y in c)
        elif x is not mul(stv, shv): ok = False if free2(x) else None
    ctx.ob("reshape: spacing", ok, okt.where(), "the spacing expected of the next axis is not stride times extent of the one before: " + show(nx, 6)[:90])
    # the innermost spacing
    inner = None
    if st.op == "lout":
        L2 = next((l for l in ev.allloops.values() if l.id == st.a[0]), None)
        cand = [strip_all_casts(L2.init[l]) for l in L2.next] if L2 else []
        inner = next((c for c in cand if c.op == "lout" and c.a[0] == L.id), None)
        if inner is None: ctx.ob("reshape: innermost spacing", None if any(not isnum(c) and not free(c) for c in cand) else False, w, "the strides do not start from the spacing of the array's own innermost axis"); return
        es = next((y for y in subterms(inner.a[3]) if y.op == "iter" and y.a[1] == inner.a[1]), None)
        ok = inner.a[2] is num(1)
        for c, x in leaves(n_(inner.a[3])):
            if x is es: ok = ok and (any(isone(y, shv) for y in c) or any(y.op == "not" and y.a[0].op == "eq0" and it in pdict_atoms(y.a[0]) for y in c))
            elif x is stv: ok = ok and any(y.op == "eq0" and it in pdict_atoms(y) for y in c)
            else: ok = False if free2(x) else None
        ctx.ob("reshape: innermost spacing", ok, w, "the innermost spacing is not the stride of the last axis with more than one element: " + show(inner.a[3], 6)[:90])


def pdict_atoms(c): return [m[0] for m in pdict(c.a[0]) if len(m) == 1]


def isone(c, shv): return c.op == "eq0" and c.a[0] in (sub(shv, num(1)), sub(num(1), shv))


def leaves(t):
    if t.op == "ite": return [((t.a[0],) + c, x) for c, x in leaves(t.a[1])] + [((lnot(t.a[0]),) + c, x) for c, x in leaves(t.a[2])]
    return [((), t)]


def rows(ctx, ev, f, tag, st, shp):
    """strides are a running product of the extents from the last axis to the first"""
    w = f.where()
    if st.op != "lout": ctx.ob(f"{tag}: strides", False if free(st) and st.op != "call" else None, w, "strides not built axis by axis: " + show(st, 4)[:70]); return
    L = next((l for l in ev.allloops.values() if l.id == st.a[0]), None)
    n = raw("size", shp)
    r = True if n_(L.trip) is n and not L.breaks else (False if L.trip is not None and free(n_(L.trip)) else None)
    x = st.a[3]
    if x.op == "rec" and len(x.a) == 2:
        pv = x.a[1]
        i, val = pv.a[0].a[0], strip_all_casts(pv.a[-1])
        ctx.ob(f"{tag}: strides last axis first", r and (True if n_(i) is sub(sub(n, num(1)), L.ctr) else (False if free(i) else None)), w, "not every axis gets a stride, from the last to the first: index " + show(i, 4)[:50])
        loc = next((l for l in L.next if strip_all_casts(L.iter[l]) is val), None) if val.op == "iter" else None
        if loc is None:
            nxt = raw("sel", raw("iter", 0), num(0))
            ctx.ob(f"{tag}: strides", False if free2(val) and not contains(val, lambda y: y.op in ("iter", "lout")) else None, w, "stride of an axis: " + show(val, 5)[:80])
        else:
            nx = strip_all_casts(L.next[loc])
            want = [mul(val, raw("sel", b, i)) for b in (shp, raw("deref", shp))]
            ctx.ob(f"{tag}: strides", True if nx in want or prodof(nx, val, i, shp) else (False if free2(nx) else None), w, "the stride of the next axis is not that of this one times its extent: " + show(nx, 5)[:80])
    else: ctx.unknown(f"{tag}: strides", w, "strides not written once per axis")


def prodof(nx, val, i, shp=None):
    d = pdict(nx)
    if len(d) != 1 or list(d.values()) != [1]: return False
    m = list(list(d)[0])
    if val not in m or len(m) != 2: return False
    m.remove(val)
    x = m[0]
    return x.op == "sel" and strip_all_casts(x.a[1]) is strip_all_casts(i) and (x.a[0] in (shp, raw("deref", shp)) if shp is not None else "shape" in show(x.a[0], 5))


# -- element access -----------------------------------------------------------------------------------------------------

def access(ctx, P):
    for f in get(ctx, P, N + "scalarize"):
        ev, v = go(ctx, P, f, inline=IN)
        w = f.where()
        t = f.targs[0].s if getattr(f, "targs", None) else f.ret.s if getattr(f, "ret", None) else ""
        tag = ("element " if f.params else "only element ") + str(t)
        v0 = v
        if v.op == "sel": b, idx = v.a[0], v.a[1]
        else: ctx.unknown(tag, w, "value is not an element of the array: " + show(v, 4)[:60]); continue
        narrow = [x for x in subterms(idx) if x.op == "cast" and x.a[0] in ("i32", "u32", "i16", "f32") and contains(x, lambda y: y.op in ("iter", "sel"))]
        ctx.ob(tag + ": width", not narrow, w, "the place of the element is counted in a type too narrow")
        idx = strip_all_casts(idx)
        arr = next((x.a[1] for x in subterms(b) if x.op == "call" and "data_ptr" in x.a[0]), None)
        off = lambda i: [raw("sel", raw("fld", raw("fld", arr, "_tensor"), "_offsets"), i)]
        if not f.params:
            ok = None
            if idx.op == "lout":
                L = next(l for l in ev.allloops.values() if l.id == idx.a[0])
                it = next((y for y in subterms(idx.a[3]) if y.op == "iter"), None)
                d = n_(sub(strip_all_casts(idx.a[3]), it)) if it is not None else None
                ok = idx.a[2] is num(0) and d in off(L.ctr) and not L.breaks
                ok = ok or (False if d is not None and free2(d) else None)
            elif idx.op == "call" and idx.a[0] == "sum_of": ok = True if n_(idx.a[1]) in (raw("fld", raw("fld", arr, "_tensor"), "_offsets"), raw("call", N + "offsets", arr)) and strip_all_casts(idx.a[2]) is num(0) else None
            else: ok = False if free(idx) else None
            ctx.ob(tag, ok, w, "the element read is not the first of the (sliced) array: index " + show(idx, 5)[:70])
            guard(ctx, ev, f, tag, lambda pc: poly.implies([n_(c) for c in pc], raw("lt0", sub(num(2), raw_(numelcall(arr, pc))))) if numelcall(arr, pc) is not None else False, "an array of more than one element is read as a scalar")
            continue
        ix = sym(f.params[0]["n"])
        if idx.op == "lout":
            L = next(l for l in ev.allloops.values() if l.id == idx.a[0])
            it = next((y for y in subterms(idx.a[3]) if y.op == "iter" and y.a[1] == idx.a[1]), None)
            d = n_(sub(strip_all_casts(idx.a[3]), it))
            k = L.ctr
            want = add(off(k)[0], mul(raw("sel", ix, k), ptr(arr, "strides", k)))
            full = n_(L.trip) in (raw("size", ix), raw("fld", raw("fld", arr, "_tensor"), "ndim")) if L.trip is not None else None
            ctx.ob(tag, True if d is want and full and idx.a[2] is num(0) and not L.breaks else (False if free2(d) and full is not None else None), w, "the element read is not at the sum over the axes of offset and index * stride: " + show(d, 5)[:90])
        else: ctx.ob(tag, False if free(idx) else None, w, "index " + show(idx, 4)[:60])
        def nax(pc):
            nd = raw("fld", raw("fld", sym("this"), "_tensor"), "ndim")
            return poly.same(raw_(raw("size", ix)), nd, [n_(c) for c in pc]) is True
        guard(ctx, ev, f, tag, nax, "an index with another number of axes is used")


def numelcall(arr, pc):
    for c in pc:
        for x in subterms(c):
            if x.op == "call" and x.a[0].split("<")[0] == N + "numel": return x
    return None


def guard(ctx, ev, f, tag, test, msg):
    e = next((e for e in ev.effects if e.kind == "call" and "data_ptr" in e.qn), None)
    pc = list(atoms(e.pc)) if e is not None else []
    ctx.ob(tag + ": refusal", True if test(pc) else (False if all(free(c) for c in pc) else None), f.where(), msg)


def getters(ctx, P):
    this = sym("this")
    tn = raw("fld", this, "_tensor")
    for q, fld in (("shape", "shape"), ("strides", "strides")):
        f = next(g for g in get(ctx, P, N + q) if not g.params)
        ev, v = go(ctx, P, f, inline=IN)
        v = strip_all_casts(v)
        p, nd = raw("fld", tn, fld), raw("fld", tn, "ndim")
        ok = v.op == "new" and len(v.a) >= 3 and v.a[1] is p and v.a[2] is add(p, nd) or v is raw("fld", tn, "_%s_ownership" % fld)
        ctx.ob(q, True if ok else (False if free(v) and v.op in ("new", "fld", "rec", "vec") else None), f.where(), f"not the {q} of every axis: " + show(v, 5)[:80])
    f = next(g for g in get(ctx, P, N + "offsets") if not g.params)
    ev, v = go(ctx, P, f, inline=IN)
    ctx.ob("offsets", eqf(v, raw("fld", tn, "_offsets")), f.where(), "not the offsets of the array")
    f = next(g for g in get(ctx, P, N + "size") if g.params)
    ev, v = go(ctx, P, f, inline=IN)
    ax = sym(f.params[0]["n"])
    x = n_(v)
    s = x if x.op != "ite" else None
    ok = x is ptr(this, "shape", ax)
    pc = [n_(c) for c in atoms(ev.state.pc)] if ev.state is not None else []
    nd = raw("fld", tn, "ndim")
    thr = [n_(c) for e in ev.effects if e.kind == "throw" for c in atoms(e.pc)]
    Q = ax
    if not ok and x.op == "sel": Q = x.a[1]; ok = poly.same(Q, ite(raw("lt0", neg(ax)), add(ax, nd), ax)) is True
    ctx.ob("size of an axis", True if ok else (False if free(x) else None), f.where(), "not the extent of the axis: " + show(x, 4)[:60])
    rej = [e for e in ev.effects if e.kind == "throw"]
    conds = [c for e in rej for c in [land(*[n_(y) for y in e.pc])]]
    inr = [lnot(c) for c in conds]
    r = bool(rej) and poly.implies(inr, raw("le0", Q)) and poly.implies(inr, raw("lt0", sub(nd, Q)))
    ctx.ob("size refuses other axes", True if r else (False if all(free(c) for c in conds) else None), f.where(), "the extent of an axis the array does not have is read")
    f = next(g for g in get(ctx, P, N + "numel") if not g.params)
    ev, v = go(ctx, P, f, inline=IN)
    x = v
    acc = next((y for y in subterms(x) if y.op == "call" and y.a[0].startswith("std::accumulate")), None)
    if acc is not None:
        p = raw("fld", tn, "shape")
        b, e_, i = acc.a[1], acc.a[2], acc.a[3]
        mult = len(acc.a) > 4 and "multiplies" in show(acc.a[4], 3)
        ctx.ob("numel width", not any(y.op == "cast" and y.a[0] in ("i32", "u32", "i16", "f32") and contains(y, lambda z: z is acc) for y in subterms(x)), f.where(), "the number of elements is counted in a type too narrow")
        okb = b is p and e_ is add(p, nd) or (n_(b), n_(e_)) == (raw("itr", raw("fld", tn, "_shape_ownership"), num(0)), raw("itr", raw("fld", tn, "_shape_ownership"), raw("size", raw("fld", tn, "_shape_ownership"))))
        ctx.ob("numel", True if okb and strip_all_casts(i) is num(1) and mult else (False if free(acc) else None), f.where(), "not the product of every extent: " + show(acc, 4)[:80])
    elif strip_all_casts(x).op == "lout" or strip_all_casts(x).op == "call" and strip_all_casts(x).a[0] == "product_of":
        y = strip_all_casts(x)
        if y.op == "lout":
            L = next(l for l in ev.allloops.values() if l.id == y.a[0])
            it = next((z for z in subterms(y.a[3]) if z.op == "iter"), None)
            nx = n_(y.a[3])
            ok = it is not None and nx is mul(it, ptr(this, "shape", L.ctr)) and y.a[2] is num(1) and n_(L.trip) is nd and not L.breaks
            ctx.ob("numel", True if ok else (False if free2(nx) and L.trip is not None else None), f.where(), "not the product of every extent")
        else: ctx.ob("numel", True, f.where(), "")
    else: ctx.unknown("numel", f.where(), show(x, 4)[:60])
    f = next(g for g in get(ctx, P, N + "ndim") if not g.params)
    ev, v = go(ctx, P, f, inline=IN)
    ctx.ob("ndim", eqf(v, nd), f.where(), "not the number of axes")


def fresh(ctx, P):
    """new arrays: row-major strides over the shape asked for"""
    for f in get(ctx, P, N + "ndarray"):
        ps = [p["n"] for p in f.params]
        if len(ps) < 3 or "vector" not in f.params[0]["t"].s: continue
        ev, v = go(ctx, P, f, inline=lambda d: d.qn.startswith(("bland::detail", "bland::ndarray::ndarray")))
        wr = [e for e in ev.effects if e.kind == "write" and e.loops]
        sh = sym(ps[0])
        tag = "new array" + (" filled " + f.params[1]["t"].s if len(ps) > 3 else "")
        seen = False
        for e in wr:
            nm = show(e.loc[0], 4) + "".join(show(x, 2) for x in e.loc[1])
            if "strides" not in nm: continue
            seen = True
            L = e.loops[-1]
            i = e.loc[1][-1].a[0] if e.loc[1] and e.loc[1][-1].op == "i" else None
            val = strip_all_casts(e.val)
            n = raw("size", sh)
            ok = i is not None and n_(i) is sub(sub(n, num(1)), L.ctr) and n_(L.trip) is n and val.op == "iter"
            if ok:
                loc = next((l for l in L.next if strip_all_casts(L.iter[l]) is val), None)
                ok = loc is not None and strip_all_casts(L.init[loc]) is num(1) and (strip_all_casts(L.next[loc]) is mul(val, raw("sel", sh, i)) or prodof(strip_all_casts(L.next[loc]), val, i))
                if loc is not None:
                    nr = any(x.op == "cast" and x.a[0] in ("i32", "u32") for x in subterms(L.next[loc]) if contains(x, lambda y: y is val))
                    ctx.ob(f"{tag}: stride width {e.line}", not nr, e.where(), "strides are counted in a type too narrow")
            ctx.ob(f"{tag}: strides {len([x for x in wr if x.line < e.line])}", True if ok else (False if i is not None and free2(val) and L.trip is not None else None), e.where(), "strides are not the row-major ones of the shape: " + show(e.val, 4)[:60])
        if len(ps) > 3:
            c = [e for e in ev.effects if e.kind == "call" and e.qn.split("<")[0] == "bland::fill"]
            ok = len(c) == 1 and len(c[0].args) > 1 and strip_all_casts(c[0].args[1]) is sym(ps[1]) and not c[0].loops
            ctx.ob(f"{tag}: value", ok or (False if not c or len(c) == 1 and free2(c[0].args[1]) else None), f.where(), "the array is not filled with the value asked for")


def check(ctx):
    P = ctx.program("bland/bland_tensor_internals", "bland/ndarray.cpp", "bland/ops/ops.cpp", "bland/ndarray_slice")
    slicing(ctx, P)
    squeeze(ctx, P)
    unsqueeze(ctx, P)
    reshape(ctx, P)
    getters(ctx, P)
    access(ctx, P)
    fresh(ctx, P)


if __name__ == "__main__": main("C11", RULE, check, 30)
