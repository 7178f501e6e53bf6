import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.rules import *

RULE = ("each metadata getter of a scan opened from a filterbank file evaluates to the file attribute of that name, read as a type that can hold it; every typed attribute "
        "read hands HDF5 a buffer of exactly the type it reads and returns that buffer; data is read as float32 from the requested offset and count into an array of those "
        "extents, and the dimension sizes are matched to time, feed and frequency by label; the file is only opened for reading")
H5 = "bliss::h5_filterbank_file"
REAL = ("fch1", "foff", "src_dej", "src_raj", "tsamp", "tstart", "az_start", "za_start")
INT = ("machine_id", "telescope_id", "data_type", "nbits", "nchans", "nifs")
OPTIONAL = ("machine_id", "az_start", "za_start", "data_type", "nbits", "nifs")
NATIVE = {"INT8": ("i", 8), "UINT8": ("u", 8), "SCHAR": ("i", 8), "UCHAR": ("u", 8), "INT16": ("i", 16), "SHORT": ("i", 16), "UINT16": ("u", 16), "USHORT": ("u", 16), "INT32": ("i", 32), "INT": ("i", 32),
          "UINT32": ("u", 32), "UINT": ("u", 32), "INT64": ("i", 64), "LONG": ("i", 64), "LLONG": ("i", 64), "UINT64": ("u", 64), "ULONG": ("u", 64), "ULLONG": ("u", 64), "FLOAT": ("f", 32), "DOUBLE": ("f", 64)}
CTYPE = {"signed char": ("i", 8), "char": ("i", 8), "unsigned char": ("u", 8), "short": ("i", 16), "unsigned short": ("u", 16), "int": ("i", 32), "unsigned int": ("u", 32), "long": ("i", 64), "unsigned long": ("u", 64),
         "long long": ("i", 64), "unsigned long long": ("u", 64), "float": ("f", 32), "double": ("f", 64)}


def native(t):
    """the HDF5 memory type a term denotes"""
    for x in subterms(t):
        if x.op == "gval" and "PredType::NATIVE_" in str(show(x)): return NATIVE.get(str(show(x)).split("NATIVE_")[1].rstrip(")'\""))
    return None


def decls(b):
    out = {}
    for n in walk(b):
        if n.get("k") == "decl":
            for v in n.get("v", n.get("vars", [])):
                if isinstance(v, dict) and "id" in v: out[v["id"]] = v
    return out


from vlib.program import walk


def attr_of(v):
    """attribute names (and types) a value is made of"""
    return set((x.a[0].split("<", 1)[1][:-1] if "<" in x.a[0] else "", x.a[-1]) for x in subterms(v) if x.op == "call" and x.a[0].startswith(H5 + "::read_data_attr"))


def keystr(t):
    for x in subterms(t):
        if x.op == "str": return x.a[0]
    return None


PURE = (H5 + "::get_data_shape", H5 + "::read_data_attr")


def metadata(ctx, P):
    H = get(ctx, P, "bliss::scan::scan", lambda f: len(f.params) == 2 and "h5_filterbank_file" in f.params[0]["t"].s)[0]
    inl = but("get_data_shape", "read_data_attr", "infer_number_coarse_channels")
    ev, v = go(ctx, P, H, inline=inl, this=THIS, pure=PURE)
    obj = ev.load(ev.state, THIS)
    fs = {f.name: f for f in P.byqn.get("bliss::scan::" + "fch1", [])}
    for m in REAL + INT + ("source_name",):
        g = strip_all_casts(getter(ctx, P, obj, "bliss::scan::" + m, st=ev.state))
        F = [f for f in P.byqn["bliss::scan::" + m] if not f.params][0]
        at = attr_of(g)
        names = set(keystr(k) for _, k in at)
        w = H.where()
        ctx.ob("scan metadata: %s" % m, names == {m} if names else (False if not contains(g, lambda x: x.op in ("unk", "lout", "call")) else None), w, "%s() of a scan opened from a file gives %s" % (m, ", ".join(sorted(map(str, names))) or show(g)))
        for T_, k in at:
            if keystr(k) != m: continue
            c = CTYPE.get(T_)
            good = "basic_string" in T_ if m == "source_name" else c is not None and (c == ("f", 64) if m in REAL else c[0] == "i" and c[1] >= 64)
            ctx.ob("scan metadata: type %s is read as" % m, good, w, "attribute %s is read as %s" % (m, T_))
        if m in OPTIONAL:
            e = [x for x in ev.effects if x.kind == "call" and x.qn == H5 + "::read_data_attr" and x.args and keystr(x.args[-1]) == m]
            ctx.ob("scan metadata: a file without %s can be opened" % m, contains(g, lambda x: x.op == "caught" and "invalid_argument" in str(x.a[1])) or any("std::exception" in str(x.a[1]) or "logic_error" in str(x.a[1]) or x.a[1] in ("...", "") for x in subterms(g) if x.op == "caught"), w, "a missing attribute %s is not tolerated" % m)
    sh = [e for e in ev.effects if e.kind == "call" and e.qn == H5 + "::get_data_shape"]
    nt = strip_all_casts(getter(ctx, P, obj, "bliss::scan::ntsteps", st=ev.state))
    if sh:
        d3 = [x for x in subterms(nt) if x.op == "eq0"]
        t = simp_under(nt, d3)
        ctx.ob("scan metadata: number of time steps is the extent of the time dimension", True if t.op == "sel" and t.a[0] is sh[0].term and t.a[1] is num(0) else False if t.op == "sel" or isnum(t) else None, H.where(), "ntsteps() is %s" % show(t))
        du = simp_under(strip_all_casts(getter(ctx, P, obj, "bliss::scan::tduration_secs", st=ev.state)), d3)
        ts = strip_all_casts(getter(ctx, P, obj, "bliss::scan::tsamp", st=ev.state))
        ctx.ob("scan metadata: duration is time steps times sampling time", True if du is mul(t, ts) else False if free(du) or not contains(du, lambda x: x.op in ("unk", "lout", "iter", "upd")) else None, H.where(), "tduration_secs() is %s" % show(du))


def attributes(ctx, P):
    for F in get(ctx, P, H5 + "::read_data_attr"):
        ta = F.ta[0] if F.ta else "?"
        if ta.startswith("std::vector"): continue
        ev, v = go(ctx, P, F)
        dc = decls(F.body)
        k = "attribute as %s" % ("std::string" if "basic_string" in ta else ta)
        reads = [e for e in ev.effects if e.kind == "call" and e.qn == "H5::Attribute::read"]
        for e in reads:
            want = native(e.args[0])
            c = CTYPE.get(ta)
            if want is not None and c is not None:
                # converted by HDF5 from whatever the file has: must hold every value the result can
                ctx.ob("%s: conversion to %s%d is not narrower" % ((k,) + want), want[1] >= c[1] and (want[0] == "f" or c[0] != "f" or want[1] >= 64), e.where(), "a value is converted to %s%d on its way to %s" % (want + (ta,)))
            if want is None:
                for c in e.pc:
                    if c.op == "call" and "DataType::operator==" in c.a[0]: want = native(c) or want
            a = e.args[1]
            t = None
            if a.op == "ref" and a.a[0].op == "var" and len(a.a) == 1:
                d = dc.get(a.a[0].a[1])
                if d is not None: t = CTYPE.get(d["t"].s)
            if want is not None:
                ctx.ob("%s: buffer of a %s%d read" % ((k,) + want), want == t if t is not None else None, e.where(), "HDF5 writes a %s of %d bits into a buffer of another type" % want)
            elif t is not None:
                # read with the file's own type into an arithmetic buffer: nothing ties their sizes together
                ctx.ob(k + ": buffer of an arbitrary type", False, e.where(), "the attribute is read with whatever type the file has into a %d-bit variable" % t[1])
        for e in ev.effects:
            if e.kind != "ret": continue
            g = strip_all_casts(e.val)
            outs = [x for x in subterms(g) if x.op == "out" and x.a[0].op == "call" and x.a[0].a[0].startswith("H5::Attribute::read")]
            if "basic_string" in ta: 
                end = strip_all_casts(g.a[2]) if g.op == "new" and len(g.a) == 3 else None
                if end is not None: ctx.ob(k + ": a padded string ends at its padding", True if contains(end, lambda x: x.op == "call" and x.a[0].startswith("std::find") or x.op == "lout") else False if end.op == "itr" and ".size" in show(end.a[1], 2)[-8:] or show(end, 3).endswith(".size)") else None, e.where(), "the whole buffer is the value, with the zeros after it")
                ctx.ob(k + ": value returned", True if outs else None, e.where(), ""); continue
            mine = [r for r in reads if r.term is not None and g.op == "out" and g.a[0] is r.term]
            good = True if mine and all(c in e.pc for c in mine[0].pc) else False if g.op in ("undef", "num") or isnum(g) else None
            ctx.ob(k + ": value returned", good, e.where(), "the value returned is %s" % show(g))
            # nothing narrower in between
            x, nar = e.val, None
            while x.op in ("cast", "trunc"):
                if x.op == "cast" and x.a[0] in ("i32", "f32", "i16", "i8", "u32", "u16", "u8"):
                    w, c = (x.a[0][0] == "f", int(x.a[0][1:])), CTYPE.get(ta)
                    if c is not None and (c[0] == "f", c[1]) != w: nar = x.a[0]
                x = x.a[-1]
            if nar is not None: ctx.bad(k + ": value not narrowed", e.where(), "the value passes through %s" % nar)
        th = [e for e in ev.effects if e.kind == "throw" and any(x.op == "not" and "attrExists" in show(x) or x.op == "eq0" and "attrExists" in show(x) for x in e.pc)]
        ctx.ob(k + ": a missing attribute is signalled", True if th and all("invalid_argument" in e.qn for e in th) else False, F.where(), "a missing attribute does not raise std::invalid_argument, which callers rely on")


def pointee(ev, e, i):
    x = e.args[i]
    if x.op == "ref": return ev.load(ev.state, (x.a[0], x.a[1:]))
    return x


def dimlist(ev, v):
    return [strip_all_casts(ev.rec_get(v, (I(num(d)),))) for d in range(3)]


def regions(ctx, P):
    F = get(ctx, P, H5 + "::read_data")[0]
    ev, v = go(ctx, P, F, inline=but("get_data_shape"), pure=PURE)
    off, cnt = sym(F.params[0]["n"]), sym(F.params[1]["n"])
    given = lambda t: simp_under(t, [lnot(eq(raw("size", off), num(0))), lnot(eq(raw("size", cnt), num(0)))])
    sel = [e for e in ev.effects if e.kind == "call" and e.qn == "H5::DataSpace::selectHyperslab"]
    rd = [e for e in ev.effects if e.kind == "call" and e.qn == "H5::DataSet::read"]
    if len(sel) != 1 or len(rd) != 1: ctx.unknown("data region", F.where(), "%d selections, %d reads" % (len(sel), len(rd))); return
    e = sel[0]
    for nm, i, want, other in (("count", 1, cnt, off), ("offset", 2, off, cnt)):
        p = given(pointee(ev, e, i))
        ctx.ob("data region: %s selected in the file" % nm, True if p is want else False if p is other or transparent(p) else None, e.where(), "the %s handed to HDF5 is %s" % (nm, show(p)))
        full = ev.state
        z = simp_under(pointee(ev, e, i), [eq(raw("size", want), num(0))])
        if nm == "offset":
            ctx.ob("data region: without an offset it starts at 0", True if z.op == "filled" and z.a[0] is num(0) else False if z is want or z.op == "filled" and isnum(strip_all_casts(z.a[0])) else None, e.where(), "without an offset the region starts at %s" % show(z))
        else:
            zz = simp_under(z, [lnot(eq(raw("size", off), num(0)))])
            ds = dimlist(ev, zz)
            sh = [x for x in subterms(zz) if x.op == "call" and x.a[0].endswith("get_data_shape")]
            if sh:
                good = [eqf(d, sub(raw("sel", sh[0], num(k)), raw("sel", off, num(k)))) for k, d in enumerate(ds)]
                ctx.ob("data region: without a count it extends to the end", False if False in good else None if None in good else True, e.where(), "without a count the extents are %s" % [show(d) for d in ds])
            else: ctx.ob("data region: without a count it extends to the end", False if zz is cnt else None, e.where(), "")
    r = rd[0]
    ctx.ob("data region: read through the selection", True if contains(r.args[3], lambda x: x.op == "call" and "getSpace" in x.a[0]) and r.args[3].op != "gval" else False if r.args[3].op == "gval" else None, r.where(), "the file selection is not used")
    ctx.ob("data region: read from the data set named data", r.obj is not None and "data" in show_loc(r.obj) if r.obj is not None else None, r.where(), "the values are read from %s" % (show_loc(r.obj) if r.obj else ""))
    nt = native(r.args[1])
    buf = strip_all_casts(r.args[0])
    ty = None
    for x in subterms(buf):
        if x.op == "call" and x.a[0].startswith("bland::ndarray::data_ptr"): ty = CTYPE.get(x.a[0].split("<")[1].rstrip(">"))
    ctx.ob("data region: memory type matches the array", nt == ty == ("f", 32) if nt and ty else None, r.where(), "HDF5 is asked for %s into an array read as %s" % (nt, ty))
    arr = [x for x in subterms(buf) if x.op == "new" and x.a[0] == "bland::ndarray" and len(x.a) > 2]
    if arr:
        s_ = given(arr[0].a[1])
        ctx.ob("data region: array has the extents read", True if s_ is cnt else False if transparent(s_) else None, F.where(), "the array is created with extents %s" % show(s_))
        ctx.ob("data region: array is float32", None if arr[0].a[2].op not in ("rec", "new") else "pv(code, 2), pv(bits, 32)" in show(arr[0].a[2], 9), F.where(), "the array is created as %s" % show(arr[0].a[2]))
        ms = [x for x in subterms(r.args[2]) if x.op == "new" and x.a[0] == "H5::DataSpace"]
        if ms and len(ms[0].a) > 2 and ms[0].a[2].op == "ref":
            g = given(ev.load(ev.state, (ms[0].a[2].a[0], ms[0].a[2].a[1:])))
            ctx.ob("data region: memory space has the extents read", True if g is cnt else False if transparent(g) else None, F.where(), "the memory space has extents %s" % show(g))
        elif r.args[2].op == "gval": ctx.bad("data region: memory space has the extents read", r.where(), "the selection is read into memory laid out as the whole data set")
        vv = v
        ctx.ob("data region: the array read into is returned without the feed dimension", True if vv.op == "call" and vv.a[0].endswith("squeeze") and vv.a[-1] is num(1) and contains(vv.a[1], lambda x: x is arr[0]) else False if vv.op == "call" and vv.a[0].endswith("squeeze") and isnum(vv.a[-1]) or vv is arr[0] else None, F.where(), "returns %s" % show(vv))
    M = get(ctx, P, H5 + "::read_mask")[0]
    ev, v = go(ctx, P, M, inline=but("get_data_shape"), pure=PURE)
    cn = sym(M.params[1]["n"])
    z = [x for x in subterms(v) if x.op == "call" and x.a[0].startswith("bland::zeros")]
    if z:
        s_ = simp_under(z[0].a[1], [lnot(eq(raw("size", cn), num(0)))])
        ctx.ob("mask region: extents are those of the data", True if s_ is cn else False if transparent(s_) else None, M.where(), "the mask has extents %s" % show(s_))
        e0 = simp_under(z[0].a[1], [eq(raw("size", cn), num(0))])
        ctx.ob("mask region: without a count it has the data's extents", True if contains(e0, lambda x: x.op == "call" and x.a[0].endswith("get_data_shape")) else False if e0 is cn else None, M.where(), "without a count the mask has extents %s" % show(e0))
        ctx.ob("mask region: is uint8", "pv(code, 1), pv(bits, 8)" in show(z[0].a[2], 9) if z[0].a[2].op in ("rec", "new") else None, M.where(), "the mask is created as %s" % show(z[0].a[2]))
        ctx.ob("mask region: has no feed dimension", True if v.op == "call" and v.a[0].endswith("squeeze") and v.a[-1] is num(1) else False if v is z[0] or v.op == "call" and v.a[0].endswith("squeeze") else None, M.where(), show(v))
    else: ctx.unknown("mask region", M.where(), show(v))


def shape(ctx, P):
    F = get(ctx, P, H5 + "::get_data_shape")[0]
    ev, v = go(ctx, P, F, inline=but("read_data_attr"), pure=PURE)
    ds = v.a if v.op == "vec" else None
    if v.op in ("never", "call") and str(v.a[:1]) and show(v) == "never()":
        ctx.bad("dimensions: a file with the three dimensions is read", F.where(), "every file is refused"); return
    if ds is None or len(ds) != 3:
        ctx.unknown("dimensions", F.where(), show(v)); return
    nm = {}
    for d, want in ((0, "time"), (1, "feed_id"), (2, "frequency")):
        t = strip_all_casts(ds[d])
        # the labels-swapped repair is decided separately: look at the value when it does not apply
        sw = t.a[0] if t.op == "ite" and contains(t.a[0], lambda x: x.op == "str" and x.a[0] == "nchans") else None
        base = t.a[2] if sw is not None else t
        nm[d] = base
        lo = [x for x in subterms(base) if x.op == "lout"]
        labels = set()
        ok = None
        for x in lo:
            for L in ev.allloops.values():
                if L.id != x.a[0]: continue
                for kk, it in L.iter.items():
                    if it.op == "iter" and it.a[1] == x.a[1] and kk in L.next:
                        for c, val in leafs(L.next[kk]):
                            if val is it: continue
                            labs = [y.a[0] for a in c for y in subterms(a) if y.op == "str" and a.op != "not"]
                            labs = [l for l in labs if l in ("time", "feed_id", "frequency")]
                            labels |= set(labs[-1:])
                            y = strip_all_casts(val.a[0]) if val.op in ("tuple", "pair") else strip_all_casts(val)
                            ok = (ok is not False) and (y.op == "sel" and y.a[1] is L.ctr and contains(y.a[0], lambda z: z.op == "call" and "getSimpleExtentDims" in z.a[0]))
        ctx.ob("dimensions: size %d is that of the dimension labelled %s" % (d, want), labels == {want} and ok if labels else None, F.where(), "dimension %d of the shape is labelled %s" % (d, ", ".join(labels)))
    t0, t2 = strip_all_casts(ds[0]), strip_all_casts(ds[2])
    swap = lambda t: t.op == "ite" and contains(t.a[0], lambda x: x.op == "str" and x.a[0] == "nchans")
    if swap(t0) or swap(t2):
        cond = (t0 if swap(t0) else t2).a[0]
        t0, t2 = [t if t.op == "ite" and t.a[0] is cond else raw("ite", cond, t, t) for t in (t0, t2)]
        ctx.ob("dimensions: swapped labels are repaired consistently", True if t0.a[1] is t2.a[2] and t2.a[1] is t0.a[2] and t0.a[0] is t2.a[0] else False if t0.a[0] is t2.a[0] and {t0.a[1], t2.a[1]} != {t0.a[2], t2.a[2]} else None, F.where(), "when the labels are swapped the sizes become %s and %s" % (show(t0.a[1]), show(t2.a[1])))
    outs = [e for e in ev.effects if e.kind == "throw" and not e.loops]
    def member(t):
        if t.op == "fld" and t.a[0].op in ("tuple", "pair") and str(t.a[1]).startswith("#"): return t.a[0].a[int(str(t.a[1])[1:])]
    islabel = lambda t: t.op == "sel" and contains(t.a[0], lambda z: z.op == "str" and z.a[0] == "DIMENSION_LABELS")
    Ls = [L for L in ev.allloops.values() if any(contains(x, lambda t: t.op == "eq" and any(islabel(y) for y in t.a)) for x in L.next.values())]
    def refused(labels):
        """is a file whose dimensions are labelled like this refused?"""
        L = Ls[0]
        now = {L.iter[k].a[1]: L.init[k] for k in L.iter if L.iter[k].op == "iter" and k in L.init}
        for n, lab in enumerate(labels):
            def sb(t):
                if t.op == "iter" and t.a[0] == L.id and t.a[1] in now: return now[t.a[1]]
                if t is L.ctr: return num(n)
                if t.op == "eq":
                    w = [y.a[0] for y in t.a if y.op == "str"]
                    if w and any(islabel(y) for y in t.a): return TRUE if w[0] == lab else FALSE
            nxt = {L.iter[k].a[1]: subst(subst(L.next[k], sb), member) for k in L.iter if L.iter[k].op == "iter" and k in L.next and L.iter[k].a[1] in now and not contains(L.next[k], lambda z: z.op == "gval")}
            now = {i: nxt.get(i, v) for i, v in now.items()}
        def done(t):
            if t.op == "lout" and t.a[0] == L.id and t.a[1] in now: return now[t.a[1]]
        res = False
        for e in outs:
            at = [x for x in e.pc if contains(x, lambda y: y.op == "lout" and y.a[0] == L.id)]
            if not at: continue
            vs = [subst(subst(x, done), member) for x in at]
            if any(x is FALSE for x in vs): continue
            if all(x is TRUE for x in vs): return True
            res = None
        return res
    if not outs: ctx.bad("dimensions: a file without a time dimension is refused", F.where(), "no file is refused for its labels")
    elif len(Ls) == 1:
        for lab, seq in (("time", ("feed_id", "frequency")), ("feed_id", ("time", "frequency")), ("frequency", ("time", "feed_id"))):
            ctx.ob("dimensions: a file without a %s dimension is refused" % lab, refused(seq), outs[0].where(), "a file whose labels do not name a %s dimension is read" % lab)
        r = [refused(q) for q in (("time", "feed_id", "frequency"), ("frequency", "feed_id", "time"), ("feed_id", "frequency", "other", "time"))]
        ctx.ob("dimensions: a file with the three dimensions is read", False if True in r else None if None in r else True, outs[0].where(), "a file labelled time, feed_id and frequency is refused")
    # a dimension of unknown label is tolerated exactly when its size is 1
    un = [e for e in ev.effects if e.kind == "throw" and e.loops]
    good = None
    for e in un:
        ne = [x for x in atoms(extra_conds(e)) if x.op in ("not", "eq0") and contains(x, lambda y: y.op == "call" and "getSimpleExtentDims" in y.a[0]) and not contains(x, lambda y: y.op == "str")]
        ne = [x for x in ne if (x.op == "eq0" and x.a[0].op == "poly") or (x.op == "not" and x.a[0].op == "eq0" and x.a[0].a[0].op == "poly")]
        if not ne:
            if any(x.op in ("lt0", "not") and contains(x, lambda y: y.op == "call" and "getSimpleExtentDims" in y.a[0]) and not contains(x, lambda y: y.op == "str") for x in atoms(extra_conds(e))): good = False
        for x in ne:
            r = x.op == "not"
            good = r if good is None else good and r
    ctx.ob("dimensions: only dimensions of size 1 are ignored", good, un[0].where() if un else F.where(), "a dimension is refused because its size is 1")
    ix = ev
    nl = [e for e in ev.effects if e.kind == "throw" and not e.loops]


def leafs(t, c=()):
    if t.op == "ite":
        cs = list(c) + ([x for x in t.a[0].a] if t.a[0].op == "and" else [t.a[0]])
        return leafs(t.a[1], tuple(cs)) + leafs(t.a[2], tuple(c) + (lnot(t.a[0]),))
    return [(c, t)]


def access(ctx, P):
    for F in get(ctx, P, H5 + "::h5_filterbank_file"):
        if not F.params or F.params[0]["t"].s.startswith(("const bliss", "bliss")): continue
        ev, v = go(ctx, P, F, this=THIS)
        op = [x for e in ev.effects for t in effect_terms(e) for x in subterms(t) if x.op == "new" and x.a[0] == "H5::H5File" and len(x.a) > 2]
        for root, d in ev.state.store.items():
            for q, val in d.items(): op += [x for x in subterms(val) if x.op == "new" and x.a[0] == "H5::H5File" and len(x.a) > 2]
        op = list(dict.fromkeys(op))
        if not op: ctx.unknown("file access", F.where(), ""); continue
        for x in op:
            ctx.ob("file access: opened for reading only", True if isnum(strip_all_casts(x.a[2])) and strip_all_casts(x.a[2]) is num(0) else False if isnum(strip_all_casts(x.a[2])) else None, F.where(), "the file is opened with flags %s" % show(x.a[2]))
            ctx.ob("file access: the path given is opened", mentions(x.a[1], sym(F.params[0]["n"])), F.where(), "the file opened is %s" % show(x.a[1]))
        ds = [e for e in ev.effects if e.kind == "call" and e.qn.endswith("openDataSet")]
        st = ev.load(ev.state, THIS)
        # which member the data set named "data" ends up in is checked where it is read
        names = [keystr(e.args[0]) for e in ds]
        ctx.ob("file access: the data set named data is opened", "data" in names if all(names) else None, F.where(), "data sets opened: %s" % names)


def check(ctx):
    P = ctx.program("bliss/file_types/h5_filterbank_file.cpp", "bliss/core/scan.cpp")
    metadata(ctx, P)
    attributes(ctx, P)
    regions(ctx, P)
    shape(ctx, P)
    access(ctx, P)


if __name__ == "__main__": main("C25", RULE, check, 5)
