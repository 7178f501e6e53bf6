import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.rules import *
from vlib.lists import Lists, Odd
from c20 import Beyond

RULE = ("reading coarse channel i is guarded by exactly 0 <= i < channel count; the data and mask readers request the same region, i channel widths into the last "
        "dimension; the channel starts i channel widths of frequency above the scan and carries the scan's other metadata; caching looks up and stores under one key; a target or cadence has all its parts in order and a target the names of its scans (constructors carried out on closed lists); "
        "a slice that starts at s addresses as channel i what the scan addresses as channel s+i (polynomial identity of composed summaries)")
S = "bliss::scan"
OPQ = ("set_device", "read_data", "read_mask", "get_data_shape", "push_device")
INL = but(*OPQ)
i, s, c = sym("i"), sym("s"), sym("c")


class Read:
    """summary of reading channel idx from the scan value obj (None: an unspecified scan)"""
    def __init__(self, ctx, P, idx, obj=None, name="read_coarse_channel"):
        self.ctx, self.P = ctx, P
        self.F = F = get(ctx, P, S + "::" + name)[0]
        st, loc = (None, THIS) if obj is None else holder(INL, P, obj)
        ev = ctx.evaluator(P, inline=INL)
        self.v = ev.run(F, args=[idx], this=loc, st=st)
        self.ev, self.idx = ev, idx
        ctx.count("functions_evaluated", 1 + len(ev.inlined))
        self.made = []
        for e in ev.effects:
            for t in effect_terms(e):
                for x in news(t, "bliss::coarse_channel"):
                    if x not in [m for m, _ in self.made] and len(x.a) > 10: self.made.append((x, e))
        for root, d in ev.state.store.items():
            for q, v in d.items():
                for x in news(v, "bliss::coarse_channel"):
                    if x not in [m for m, _ in self.made] and len(x.a) > 10: self.made.append((x, None))

    def keys(self, what):
        """terms used to look up / insert in a map of coarse channels"""
        out = []
        for e in self.ev.effects:
            ts = list(effect_terms(e)) + list(e.pc)
            for t in ts:
                for x in subterms(t):
                    if what == "find" and x.op == "call" and x.a[0].split("<")[0].endswith("find") and len(x.a) == 3: out.append(strip_all_casts(x.a[2]))
                    if what == "find" and x.op == "find": out.append(strip_all_casts(x.a[-1]))
            if what == "insert" and e.kind == "call" and e.qn in ("std::map::insert", "std::map::emplace", "std::map::insert_or_assign", "std::map::try_emplace", "std::map::operator[]"):
                a = e.args[0]
                out.append(strip_all_casts(a.a[0] if a.op == "pair" else a))
        return list(dict.fromkeys(out))

    def channel(self):
        """[(constructor, {getter: value}, data term, mask term)] for each constructor the creation may use"""
        if hasattr(self, "_ch"): return self._ch
        out = []
        if len(self.made) == 1:
            args = list(self.made[0][0].a[1:])
            for C in self.P.byqn.get("bliss::coarse_channel::coarse_channel", []):
                if len(C.params) != len(args): continue
                ev = self.ctx.evaluator(self.P, inline=INL)
                loc = (raw("mem", sym("NEW")), ())
                ev.run(C, args=args, this=loc)
                out.append((C, ev.load(ev.state, loc)))
        self._ch = out
        return out


META = ("foff", "machine_id", "nbits", "nifs", "source_name", "src_dej", "src_raj", "telescope_id", "tsamp", "tstart", "data_type", "az_start", "za_start")


def unopt(t):
    """the value of an optional, whether wrapped, unwrapped or neither"""
    t = strip_all_casts(t)
    while t.op in ("some", "optval") or t.op == "new" and str(t.a[0]).startswith("std::optional") and len(t.a) == 2:
        t = strip_all_casts(t.a[-1])
    return t


def region(ctx, R, t):
    """(callee, offset vector, count vector, object) of the file access the reader closure t makes"""
    ls = lams(t)
    if len(ls) != 1: return None
    v, es = runlam(R.ev, ls[0], R.F)
    cs = [e for e in es if e.kind == "call" and e.qn.startswith("bliss::h5_filterbank_file::read_")]
    if len(cs) != 1 or len(cs[0].args) < 2: return None
    return cs[0].qn.rsplit("::", 1)[1], cs[0].args[0], cs[0].args[1], cs[0]


def elem(ev, v, k):
    return strip_all_casts(ev.rec_get(v, (("i", num(k)),))) if False else strip_all_casts(ev.rec_get(v, (I(num(k)),)))


def check(ctx):
    P = ctx.program("bliss/core/")
    nch = lambda obj=None: strip_all_casts(getter(ctx, P, obj, S + "::get_number_coarse_channels") if obj is not None else go(ctx, P, get(ctx, P, S + "::get_number_coarse_channels")[0], this=THIS)[1])
    sg = lambda n, obj=None: strip_all_casts(getter(ctx, P, obj, S + "::" + n) if obj is not None else go(ctx, P, get(ctx, P, S + "::" + n)[0], this=THIS)[1])
    # ---- index guard
    for name in ("read_coarse_channel", "peak_coarse_channel"):
        R = Read(ctx, P, i, name=name)
        n = nch()
        acc = [e for e in R.ev.effects if e.kind in ("call", "ret", "read", "index") and not (e.qn or "").startswith(("fmt::", "std::out"))]
        res = [bounds(e.pc, i, n) for e in acc]
        ctx.ob("%s: rejects indices outside the channel count" % name, None if not acc or None in res and False not in res else all(x is True for x in res), (acc[0] if acc else R.F).where(),
               "channel data is accessed under %s" % [show(x) for x in acc[0].pc][:4] if acc else "")
        th = [e for e in R.ev.effects if e.kind == "throw"]
        ctx.ob("%s: signals an index out of range" % name, bool(th), R.F.where(), "nothing is thrown for an index out of range")
    # ---- the channel made
    R = Read(ctx, P, i)
    if len(R.made) != 1 or not R.channel():
        ctx.unknown("read_coarse_channel: channel made", R.F.where(), "%d creations" % len(R.made)); return
    off = {}
    for C, obj in R.channel():
        k = "channel made by %s(%s…)" % (C.name, ", ".join(p["t"].s for p in C.params[:1] + C.params[4:5]).replace("bland::", ""))
        w = C.where()
        cg = lambda n: strip_all_casts(getter(ctx, P, obj, "bliss::coarse_channel::" + n))
        width = cg("nchans")
        ctx.ob(k + ": frequency of the first fine channel", eqv(cg("fch1"), add(sg("fch1"), mul(sg("foff"), mul(width, i)))), w, "channel i starts at frequency %s" % show(cg("fch1")))
        for m in META:
            a, b = unopt(cg(m)), unopt(sg(m))
            ctx.ob(k + ": " + m, eqv(a, b), w, "%s of the channel is %s, of the scan %s" % (m, show(a), show(b)))
        num_ = [strip_all_casts(x) for f in ("_coarse_channel_number",) for x in [R.ev.rec_get(obj, (("f", f),)) if False else None] if x is not None]
        for what, gt in (("data", "read_data"), ("mask", "read_mask")):
            g = region(ctx, R, getter(ctx, P, obj, "bliss::coarse_channel::" + what))
            if g is None: ctx.unknown(k + ": %s region" % what, w, ""); continue
            ctx.ob(k + ": %s is read from the file's %s" % (what, what), g[0] == gt, g[3].where(), "the %s of a channel comes from %s" % (what, g[0]))
            for d in (0, 1):
                ctx.ob(k + ": %s offset in dimension %d" % (what, d), eqv(elem(R.ev, g[1], d), num(0)), g[3].where(), "the offset is %s" % show(elem(R.ev, g[1], d)))
                shp = [x for x in subterms(g[2]) if x.op == "call" and x.a[0].endswith("get_data_shape")]
                cd = elem(R.ev, g[2], d)
                ctx.ob(k + ": %s extent in dimension %d" % (what, d), True if shp and cd is strip_all_casts(raw("sel", shp[0], num(d))) else False if cd.op in ("num",) or free(cd) and shp else None, g[3].where(), "the extent is %s" % show(cd))
            o, n_ = elem(R.ev, g[1], 2), elem(R.ev, g[2], 2)
            ctx.ob(k + ": %s extent in frequency" % what, eqv(n_, width), g[3].where(), "%s fine channels are read for a channel of %s" % (show(n_), show(width)))
            off[what] = o
            rest = sub(o, mul(width, i))
            good = None if not transparent(o) else not mentions(rest, i)
            if good and rest is not num(0):
                fs = [x for x in subterms(rest) if x.op == "fld" and x.a[1] not in [y.a[1] for y in subterms(width) if y.op == "fld"]]
                ini = {f["n"]: f.get("e") for f in P.records[S]["fields"]}
                q, zero = rest, True
                for f in fs:
                    e = ini.get(f.a[1])
                    while e is not None and e.get("k") == "cast": e = e["e"]
                    if e is None or e.get("k") != "int": zero = None
                    else: q = replace(q, f, num(e["v"]))
                good = zero and q is num(0) if zero is not None else None
            ctx.ob(k + ": %s offset in frequency" % what, good, g[3].where(), "channel i is read from fine channel %s" % show(o))
        nt = cg("ntsteps")
        ctx.ob(k + ": number of time steps", True if nt.op == "sel" and nt.a[1] is num(0) and nt.a[0].op == "call" and nt.a[0].a[0].endswith("get_data_shape") or eqv(nt, sg("ntsteps")) else eqv(nt, sg("ntsteps")), w, "the channel has %s time steps" % show(nt))
    # ---- cache key
    for name in ("read_coarse_channel", "peak_coarse_channel"):
        Q = Read(ctx, P, i, name=name)
        fk, ik = Q.keys("find"), Q.keys("insert")
        if not fk: ctx.unknown(name + ": cache key", Q.F.where(), ""); continue
        want = R.keys("find")[:1]
        ctx.ob(name + ": channels are found under the key they are stored with", len(set(fk + ik + want)) == 1 if all(transparent(x) for x in fk + ik) else None, Q.F.where(), "looked up as %s, stored as %s" % ([show(x) for x in fk], [show(x) for x in ik]))
        d = sub(fk[0], i)
        ctx.ob(name + ": one cache entry per channel", not mentions(d, i) if transparent(fk[0]) else None, Q.F.where(), "channel i is cached as %s" % show(fk[0]))
    # ---- slices
    sl = get(ctx, P, S + "::slice_scan_channels")[0]
    for label, cnt in (("count given", c), ("count -1", num(-1))):
        ev, v = go(ctx, P, sl, this=THIS, args=[s, cnt], inline=INL)
        n = nch(v)
        base = nch()
        if cnt is c:
            n = simp_under(n, [lnot(eq(c, num(-1)))]); want = c
        else: want = sub(base, s)
        ctx.ob("slice (%s): channel count" % label, eqv(n, want), sl.where(), "the slice has %s channels" % show(n))
        st, loc = holder(INL, P, v)
        A, Z = Read(ctx, P, i, v), Read(ctx, P, add(s, i))
        ca, cz = A.channel(), Z.channel()
        if not ca or len(ca) != len(cz): ctx.unknown("slice (%s): channels" % label, sl.where(), ""); continue
        (C, oa), (_, oz) = ca[0], cz[0]
        for m in ("fch1", "nchans", "foff"):
            x, y = (strip_all_casts(getter(ctx, P, o, "bliss::coarse_channel::" + m)) for o in (oa, oz))
            ctx.ob("slice (%s): %s of channel i is that of channel s+i" % (label, m), eqv(x, y), sl.where(), "%s in the slice, %s in the scan" % (show(x), show(y)))
        for what in ("data", "mask"):
            ga, gz = (region(ctx, r, getter(ctx, P, o, "bliss::coarse_channel::" + what)) for r, o in ((A, oa), (Z, oz)))
            if ga is None or gz is None: ctx.unknown("slice (%s): %s region" % (label, what), sl.where(), ""); continue
            x, y = elem(A.ev, ga[1], 2), elem(Z.ev, gz[1], 2)
            ctx.ob("slice (%s): %s region of channel i is that of channel s+i" % (label, what), eqv(x, y), sl.where(), "fine channel %s in the slice, %s in the scan" % (show(x), show(y)))
        x, y = A.keys("find"), Z.keys("find")
        if x and y: ctx.ob("slice (%s): cache key of channel i is that of channel s+i" % label, eqv(x[0], y[0]), sl.where(), "%s in the slice, %s in the scan" % (show(x[0]), show(y[0])))
        wid = strip_all_casts(getter(ctx, P, oa, "bliss::coarse_channel::nchans"))
        fine = sg("nchans", v)
        if cnt is c: fine = simp_under(fine, [lnot(eq(c, num(-1)))])
        ctx.ob("slice (%s): fine channel count" % label, eqv(fine, mul(want, wid)), sl.where(), "the slice reports %s fine channels" % show(fine))
        ctx.ob("slice (%s): frequency of the first channel" % label, eqv(sg("fch1", v), add(sg("fch1"), mul(sg("foff"), mul(wid, s)))), sl.where(), "the slice starts at %s" % show(sg("fch1", v)))
    # ---- frequency -> channel
    G = get(ctx, P, S + "::get_coarse_channel_with_frequency")[0]
    x = sym("x")
    f = add(sg("fch1"), mul(sg("foff"), mul(div(sg("nchans"), nch()), x)))
    ev, v = go(ctx, P, G, this=THIS, args=[f])
    t = v
    while t.op in ("cast", "trunc"): t = t.a[-1]
    inner = strip_all_casts(t.a[0]) if t.op in ("floor", "call") and t.a and isinstance(t.a[0], T) else strip_all_casts(t.a[1]) if t.op == "call" and "floor" in t.a[0] else None
    ctx.ob("channel of a frequency: rounds down", True if inner is not None else None if not transparent(t) else False, G.where(), show(v))
    y = inner if inner is not None else strip_all_casts(t)
    ctx.ob("channel of a frequency: x channel widths above the start is channel floor(x)", eqv(y, x), G.where(), "gives %s" % show(y))
    infer(ctx, P)
    consistency(ctx, P)
    allhits(ctx, P)
    made(ctx, P)
    parts(ctx, P)


def infer(ctx, P):
    F = [f for f in P.defs.values() if f.name == "infer_number_coarse_channels"]
    H = get(ctx, P, S + "::scan", lambda f: len(f.params) == 2 and "h5_filterbank_file" in f.params[0]["t"].s)[0]
    if F:
        F = F[0]
        ev, v = go(ctx, P, F, record_reads=True)
        n = sym(F.params[0]["n"])
        k = 0
        for e in ev.effects:
            if e.kind != "ret": continue
            k += 1
            t = e.val
            while t.op in ("new",) and len(t.a) > 1: t = t.a[1]
            if t.op not in ("tuple", "pair", "agg", "vec"): ctx.unknown("inferred channels #%d cover the band" % k, e.where(), show(t)); continue
            xs = [strip_all_casts(x) for x in t.a if isinstance(x, T)][-2:]
            d = sub(mul(*xs), n)
            pcs = [strip_all_casts(x) for x in atoms(e.pc)]
            good = d is num(0) or any(x is eq(d, num(0)) or x is eq(neg(d), num(0)) for x in pcs)
            ctx.ob("inferred channels #%d cover the band" % k, True if good else False if transparent(d) or all(x.op == "eq0" or x.op == "not" for x in pcs) else None, e.where(), "%s channels of %s are returned without establishing that they add up" % (show(xs[0]), show(xs[1])))
        for e in ev.effects:
            if e.kind != "div": continue
            d = strip_all_casts(e.val if e.val is not None else e.args[-1])
            if isnum(d): continue
            z = any(x is lnot(eq(d, num(0))) or x is lt(num(0), d) for x in atoms(e.pc))
            if contains(d, lambda x: x.op == "sel"): continue
            ctx.ob("inferred channels: division by %s" % show(d), True if z else False if transparent(d) else None, e.where(), "the divisor can be 0: nothing on this path excludes it")
    # number of channels x width when the width is given
    ev, v = go(ctx, P, H, inline=but("get_data_shape", "read_data_attr", "infer_number_coarse_channels"), this=THIS)
    fb = ev.load(ev.state, THIS)
    nn = strip_all_casts(getter(ctx, P, fb, S + "::get_number_coarse_channels", st=ev.state))
    w = sym(H.params[1]["n"])
    m = simp_under(nn, [lnot(eq(w, num(0)))])
    tot = strip_all_casts(getter(ctx, P, fb, S + "::nchans", st=ev.state))
    ctx.ob("given fine channels per coarse: channel count", eqf(m, idiv(tot, w)) if m.op == "idiv" else None, H.where(), "the scan has %s channels" % show(m))
    z = simp_under(nn, [eq(w, num(0))])
    calls = [e for e in ev.effects if e.kind == "call" and e.qn.endswith("infer_number_coarse_channels")]
    if calls:
        a = [strip_all_casts(x) for x in calls[0].args]
        fo = strip_all_casts(getter(ctx, P, fb, S + "::foff", st=ev.state)); ts = strip_all_casts(getter(ctx, P, fb, S + "::tsamp", st=ev.state))
        for nm, got, want in (("fine channel count", a[0], tot), ("channel width in Hz", a[1], mul(num(1000000), fo)), ("sampling time", a[2], ts)):
            ctx.ob("inferred from the %s" % nm, True if got is want else False if free(got) and free(want) or set(pdict(got)) == set(pdict(want)) else None, calls[0].where(), "the inference is given %s" % show(got))


def leaves(t):
    t = strip_all_casts(t)
    return t


def beyond(ctx, key, terms, where):
    """a list known only to be non-empty is read at its first (or last) element"""
    bad = None
    for t in terms:
        for y in subterms(t):
            i = y.a[1] if y.op == "sel" and contains(y.a[0], lambda z: z.op == "fld" and z.a[1] in ("_scans", "_observations")) else y.a[0] if y.op == "i" and len(y.a) == 1 else None
            if i is None: continue
            i = strip_all_casts(i)
            if i.op == "num" and i is not num(0): bad = i
    ctx.ob(key, bad is None, where, "element %s of a list that may have a single one is used" % (show(bad) if bad is not None else ""))


def consistency(ctx, P):
    for cls, loops in (("bliss::observation_target", 1), ("bliss::cadence", 2)):
        F = get(ctx, P, cls + "::validate_scan_consistency")[0]
        ev, v = go(ctx, P, F)
        rets = [e for e in ev.effects if e.kind == "ret"]
        beyond(ctx, cls.split("::")[1] + " consistency: compares with a scan that exists", [x for e in rets for x in atoms(e.pc)], F.where())
        no = [e for e in rets if e.val is num(0) or e.val.op == "false"]
        key = cls.split("::")[1] + " consistency"
        if len(no) != 1: ctx.unknown(key, F.where(), "%d rejecting returns" % len(no))
        else:
            e = no[0]
            cs = [strip_all_casts(x) for x in atoms(extra_conds(e))]
            alts = []
            for x in cs: alts += list(x.a) if x.op == "or" else [x]
            got = {}
            for x in alts:
                fl = set(y.a[1] for y in subterms(x) if y.op == "fld" and y.a[1] not in ("_scans", "_observations"))
                q = next((k for k in ("fch1", "foff", "nchans") if any(z.endswith(k) for z in fl)), None)
                if q is None: continue
                if x.op == "lt0":
                    p = pdict(x.a[0]); ab = [y for y in subterms(x.a[0]) if y.op == "abs"]
                    if len(ab) == 1:
                        coef = sub(x.a[0], ab[0]); cneg = add(x.a[0], ab[0])
                        got[q] = "differ" if isnum(coef) else "agree" if isnum(cneg) else None
                elif x.op == "not" and x.a[0].op == "eq0": got[q] = "differ"
                elif x.op == "eq0": got[q] = "agree"
                else: got[q] = None
            for q in ("fch1", "foff", "nchans"):
                ctx.ob("%s: scans whose %s differ are inconsistent" % (key, q), None if q in got and got[q] is None else got.get(q) == "differ", e.where(),
                       "scans are called inconsistent when their %s %s" % (q, "agree" if got.get(q) == "agree" else "are not compared at all"))
            ctx.ob(key + ": every scan is compared", True if len(e.loops) == loops and all(not L.breaks for L in e.loops) else None, e.where(), "")
        ctx.ob(key + ": consistent otherwise", any(e.val is num(1) for e in rets), F.where(), "")
        for g in ("get_number_coarse_channels", "get_coarse_channel_with_frequency"):
            G = get(ctx, P, cls + "::" + g)[0]
            ev, v = go(ctx, P, G, inline=but("validate_scan_consistency", "scan::get_number_coarse_channels", "scan::get_coarse_channel_with_frequency"))
            ans = [e for e in ev.effects if e.kind == "call" and e.qn == "bliss::scan::" + g]
            for e in ans:
                pos = [x for x in atoms(e.pc) if x.op == "call" and x.a[0].endswith("validate_scan_consistency")]
                ctx.ob("%s: %s only of consistent scans" % (key, g), bool(pos), e.where(), "the answer of the first scan is used without the scans being consistent")
                if g.endswith("frequency"):
                    ctx.ob("%s: %s gets the frequency asked for" % (key, g), eqv(e.args[0], sym(G.params[0]["n"])), e.where(), show(e.args[0]))
                beyond(ctx, "%s: %s looks at a scan that exists" % (key, g), [e.term] + [z for z in e.obj[1] if isinstance(z, T)] if isinstance(e.obj, tuple) else [e.term], e.where())
                emp = [x for x in atoms(e.pc) if contains(x, lambda y: y.op == "size" or y.op == "call" and y.a[0].endswith("empty"))]
                ctx.ob("%s: %s looks at a scan only if there is one" % (key, g), bool(emp), e.where(), "the first scan is used without checking there is one")
            ctx.ob("%s: %s refuses inconsistent scans" % (key, g), any(e.kind == "throw" for e in ev.effects), G.where(), "nothing is thrown")
    for cls, fn, part, inner in (("bliss::observation_target", "slice_observation_channels", "_scans", "bliss::scan::slice_scan_channels"),
                                 ("bliss::cadence", "slice_cadence_channels", "_observations", "bliss::observation_target::slice_observation_channels")):
        F = get(ctx, P, cls + "::" + fn)[0]
        ev, v = go(ctx, P, F, inline=but("slice_scan_channels", "slice_observation_channels"))
        key = fn
        cs = [e for e in ev.effects if e.kind == "call" and e.qn == inner]
        if len(cs) != 1: ctx.unknown(key, F.where(), "%d element slices" % len(cs)); continue
        e = cs[0]
        ctx.ob(key + ": same channels of every element", [eqv(a, sym(p["n"])) for a, p in zip(e.args, F.params)] == [True, True] if all(transparent(a) for a in e.args) else None, e.where(), "elements are sliced with %s" % [show(a) for a in e.args])
        L = e.loops[-1] if e.loops else None
        ctx.ob(key + ": every element", None if L is None or L.trip is None else not L.breaks and not extra_conds(e) and contains(L.trip, lambda x: x.op == "size"), e.where(), "some elements are skipped")
        out = ev.rec_get(v, (("f", part),)) if False else ev.rec_get(v, (F_(part),))
        nx = [n for n in (L.next.values() if L else []) if n.op == "pushed"]
        ctx.ob(key + ": elements kept in order", True if nx and contains(out, lambda x: x.op == "lout") and contains(nx[0].a[1], lambda x: x is e.term) else None, e.where(), "")
        for f in [x["n"] for x in P.records[cls]["fields"] if x["n"] != part]:
            g = strip_all_casts(ev.rec_get(v, (F_(f),)))
            ctx.ob("%s: keeps %s" % (key, f.strip("_").replace("_", " ")), True if g is raw("fld", sym("this"), f) else eqv(g, raw("fld", sym("this"), f)) if transparent(g) else False if contains(g, lambda x: x.op == "undef") or g.op in ("rec", "obj", "new", "str") else None, F.where(), "the slice gets %s" % show(g))


from vlib.ev import F as F_


NPOS = (1 << 64) - 1


class Named(Lists):
    """closed lists of parts and their names"""
    names = ()

    def within(self, env):
        n = Named(self.leaf, self.loops, {**self.env, **env}, self.budget); n.names = self.names
        return n

    def __call__(self, t):
        v = self.leaf(t)
        if v is not None: return v
        o = t.op
        if o == "str": return t.a[0]
        if o == "emplaced" or o == "call" and t.a[0] == "emplaced": return ("made",) + tuple(self(x) for x in (t.a if o == "emplaced" else t.a[1:]))
        if o == "call" and str(t.a[0]).endswith("scan::source_name") and len(t.a) == 2:
            x = self(t.a[1])
            while isinstance(x, tuple) and x[0] == "made": x = x[1]
            if isinstance(x, tuple): return self.names[x[1]]
            raise Odd("name")
        if o == "new" and len(t.a) == 2: return self(t.a[1])
        if o == "new" and len(t.a) == 3 and str(t.a[0]) in ("bliss::scan", "bliss::observation_target"): return ("made", self(t.a[1]), self(t.a[2]))
        if o == "call" and str(t.a[0]).startswith("std::basic_string::") and len(t.a) >= 3:
            n, a = str(t.a[0]).split("::")[-1], [self(x) for x in t.a[1:]]
            if isinstance(a[0], str):
                if n in ("find", "rfind") and isinstance(a[1], str):
                    k = a[0].find(a[1], int(a[2]) if len(a) > 2 else 0) if n == "find" else a[0].rfind(a[1])
                    return k if k >= 0 else NPOS
                if n == "compare" and len(a) == 2: return (a[0] > a[1]) - (a[0] < a[1])
                if n == "substr": return a[0][int(a[1]):][:int(a[2])] if len(a) > 2 else a[0][int(a[1]):]
                if n in ("starts_with", "ends_with") and isinstance(a[1], str): return getattr(a[0], n.replace("_", ""))(a[1])
        if o in ("sym", "gval", "var", "num") and "npos" in show(t, 2): return NPOS
        if o == "cat":
            r = [self(x) for x in t.a]
            if any(not isinstance(x, str) for x in r): raise Odd("text")
            return "".join(r)
        if o == "size":
            l = self(t.a[0])
            if isinstance(l, (str, list)): return len(l)
            raise Odd("size")
        if o == "ite": return self(t.a[1] if self(t.a[0]) else t.a[2])
        if o == "eq0":
            d = pdict(t.a[0])
            if len(d) == 2 and sorted(d.values()) == [-1, 1] and all(len(m) == 1 for m in d):
                a, b = (self(m[0]) for m in d)
                return a == b
        return Lists.__call__(self, t)


def parts(ctx, P):
    """a target or cadence made of a list has all of it, in order; a target is called what its scans are called"""
    n = 0
    for cls, f, what in (("observation_target", "_scans", "scans"), ("cadence", "_observations", "observations")):
        for C in get(ctx, P, "bliss::%s::%s" % (cls, cls)):
            if not C.params or not str(C.params[0]["t"].s).startswith("std::vector") and "std::vector" not in C.params[0]["t"].s: continue
            n += 1
            files = "basic_string" in C.params[0]["t"].s
            k = "%s of %s" % (cls, "files" if files else what)
            ev, v = go(ctx, P, C, inline=lambda d: B(d) and not d.qn.startswith(("bland::", "bliss::scan", "bliss::h5")) and (cls == "observation_target" or not d.qn.startswith("bliss::observation_target")))
            got = ev.load(ev.state, (THIS[0], (F_(f),)))
            title = ev.load(ev.state, (THIS[0], (F_("_target_name"),))) if cls == "observation_target" else None
            ok, why, okn, whyn = True, "", True, ""
            for names in ([], ["a"], [""], ["a", "a"], ["", "a"], ["a", ""], ["a", "b"], ["", "", ""], ["a", "a", "b"], ["a", "", "b"], ["B", "A"], ["ab", "a"], ["a", "ab"], ["ba", "a"], ["a", "a", "a", "a"]):
                P_ = [("part", i) for i in range(len(names))]

                def leaf(t):
                    if t.op == "sym":
                        if t.a[0] == C.params[0]["n"]: return P_
                        if len(C.params) > 1 and t.a[0] == C.params[1]["n"]: return 77
                    return None
                at = Named(leaf, ev.allloops); at.names = names
                want = [("made", x, 77) for x in P_] if files else P_
                try:
                    r = at(got)
                    if r != want: ok, why = False, "of %d parts: %s" % (len(names), r)
                except Beyond as e: ok, why = False, "a part that is not there is read"
                except (Odd, TypeError, ZeroDivisionError, KeyError, AttributeError) as e: ok = ok and None; why = why or str(e)
                if title is None: continue
                try:
                    r = at(title)
                    diff = list(dict.fromkeys(x for x in names if x))
                    w = "::".join(diff) if diff else "unknown"
                    if r != w: okn, whyn = False, "scans called %s make a target called '%s'" % (names, r)
                except Beyond as e: okn, whyn = False, "a scan that is not there is read"
                except (Odd, TypeError, ZeroDivisionError, KeyError, AttributeError) as e: okn = okn and None; whyn = whyn or str(e)
            ctx.ob(k + ": all of them, in order", ok, C.where(), why)
            if title is not None: ctx.ob(k + ": called what its scans are called", okn, C.where(), whyn)
    if not n: raise AnalysisError("anchor vanished: targets and cadences made of their parts")


def made(ctx, P):
    """channels and scans that are put together from values: each value is kept under its name"""
    def unset(v, f):
        return v.op in ("undef", "never") or v.op == "fld" and v.a[1] == f and contains(v.a[0], lambda x: x.op in ("this", "sym") and "this" in show(x)) or v.op in ("zeroinit", "none")
    def core(v):
        v = strip_all_casts(v)
        while v.op in ("some", "optval"): v = strip_all_casts(v.a[0])
        if v.op == "ite" and strip_all_casts(v.a[0]).op == "hasval": return core(v.a[1])
        return v
    n = 0
    for C in get(ctx, P, "bliss::coarse_channel::coarse_channel"):
        ps = [p["n"] for p in C.params]
        if len(ps) < 10: continue
        n += 1
        ev, v = go(ctx, P, C, inline=lambda *a: True)
        fs = [f["n"] for f in P.records["bliss::coarse_channel"]["fields"]]
        k = "coarse_channel(%s…, %s…)" % (C.params[0]["t"].s.replace("bland::", ""), C.params[4]["t"].s)
        for p in ps:
            if "_" + p not in fs: continue
            x = core(ev.load(ev.state, (THIS[0], (F_("_" + p),))))
            have = set(y.a[0] for y in subterms(x) if y.op == "sym" and y.a[0] in ps)
            if p in ("data", "mask"):
                r = True if have == {p} else False if have or unset(x, "_" + p) or x.op == "rec" and not have and contains(x, lambda y: y.op == "null") else None
            else: r = True if x is sym(p) else False if x.op == "sym" or unset(x, "_" + p) or isnum(x) or have and p not in have or x.op == "poly" else None
            ctx.ob("%s keeps the %s given" % (k, p.replace("_", " ")), r, C.where(), "the %s of the channel is %s" % (p, show(x, 4)))
    for C in get(ctx, P, "bliss::scan::scan"):
        if len(C.params) != 1 or "map" not in C.params[0]["t"].s: continue
        ev, v = go(ctx, P, C, inline=lambda *a: True)
        cs = sym(C.params[0]["n"])
        at = lambda f: core(ev.load(ev.state, (THIS[0], (F_(f),))))
        ctx.ob("scan of channels: has the channels given", True if at("_coarse_channels") is cs else False if unset(at("_coarse_channels"), "_coarse_channels") or at("_coarse_channels").op == "vec" else None, C.where(), "has %s" % show(at("_coarse_channels"), 4))
        def of(x):
            """what of channel 0 is x? several names, or None"""
            out = set()
            for y in subterms(x):
                if y.op == "fld" and y.a[1].startswith("_") and contains(y.a[0], lambda z: z is cs): out.add(y.a[1])
            return out
        first = lambda x: all(y.a[1] is num(0) for y in subterms(x) if y.op == "sel" and strip_all_casts(y.a[0]) is cs)
        for f, w in [(f, {f}) for f in ("_fch1", "_foff", "_machine_id", "_nbits", "_nifs", "_source_name", "_src_dej", "_src_raj", "_telescope_id", "_tsamp", "_tstart", "_data_type", "_az_start", "_za_start", "_ntsteps")] + [("_fine_channels_per_coarse", {"_nchans"})]:
            x = at(f); nm = f.strip("_").replace("_", " ")
            g = of(x)
            r = True if g == w and x.op == "fld" and first(x) else False if unset(x, f) or isnum(x) or g and g != w or g == w and (x.op == "poly" or not first(x)) else None
            ctx.ob("scan of channels: %s is that of channel 0" % nm, r, C.where(), "the %s of the scan is %s" % (nm, show(x, 5)))
        def val(x):
            """coefficient 1 product of named quantities"""
            x = strip_all_casts(x)
            d = pdict(x) if x.op == "poly" else {(x,): 1}
            if len(d) != 1: return None
            (m, k), = d.items()
            out = []
            for y in m:
                y = strip_all_casts(y)
                if y.op == "size" and strip_all_casts(y.a[0]) is cs: out.append("channels")
                elif y.op == "fld" and len(of(y)) == 1 and first(y): out += of(y)
                else: return None
            return sorted(out) if k == 1 else [str(k)] + sorted(out)
        for f, w, nm in (("_num_coarse_channels", ["channels"], "the number of channels is how many were given"), ("_nchans", ["_nchans", "channels"], "as many fine channels as all of them have"), ("_tduration_secs", ["_ntsteps", "_tsamp"], "lasts its time steps")):
            x = at(f); g = val(x)
            ctx.ob("scan of channels: " + nm, True if g == w else False if unset(x, f) or isnum(x) or g is not None else None, C.where(), "%s is %s" % (f.strip("_").replace("_", " "), show(x, 5)))
        x = at("_coarse_channel_offset")
        ctx.ob("scan of channels: channel 0 is the first one", True if x is num(0) else False if isnum(x) else None, C.where(), "channels start at %s" % show(x))
        n += 1
    ctx.count("constructors", n)


def allhits(ctx, P):
    F = get(ctx, P, S + "::hits")[0]
    ev, v = go(ctx, P, F, inline=but("read_coarse_channel", "coarse_channel::hits", "get_number_coarse_channels"))
    rs = [e for e in ev.effects if e.kind == "call" and e.qn.endswith("::read_coarse_channel")]
    if len(rs) != 1 or not rs[0].loops: ctx.unknown("hits of a scan", F.where(), ""); return
    e = rs[0]; L = e.loops[-1]
    n = [x for x in ev.effects if x.kind == "call" and x.qn.endswith("get_number_coarse_channels")]
    ctx.ob("hits of a scan: every coarse channel", loopfull(L, n[0].term) if n else None, e.where(), "channels up to %s are read" % (show(L.trip) if L.trip is not None else "?"))
    a = strip_all_casts(e.args[0])
    if a.op == "iter":
        k = next((k for k, t in L.iter.items() if t is a), None)
        init, nxt = L.init.get(k), L.next.get(k)
        good = init is num(0) and nxt is not None and strip_all_casts(sub(nxt, a)) is num(1)
    else: good = a is L.ctr
    ctx.ob("hits of a scan: each channel once, in order", good if good else False if a.op == "iter" or transparent(a) else None, e.where(), "the channel read is %s" % show(a))
    ins = [x for x in ev.effects if x.kind == "call" and x.qn.startswith("std::list::") and x.obj is not None and x.qn.split("::")[-1] in ("insert", "splice", "push_back", "emplace_back")]
    src = [x for x in ev.effects if x.kind == "call" and x.qn.endswith("coarse_channel::hits")]
    ctx.ob("hits of a scan: the hits of each channel are appended", True if len(ins) == 1 and src and len(src) == 1 else False if not ins else None, (ins or [e])[0].where(), "the hits of the channels are not collected")
    if len(ins) == 1:
        x = [c for c in extra_conds(ins[0]) if not contains(c, lambda y: y.op in ("caught", "isnull", "null", "eq"))]
        ctx.ob("hits of a scan: no channel's hits are left out", not x if all(free(y) for y in x) else None, ins[0].where(), "only appended when %s" % [show(y) for y in x])


if __name__ == "__main__": main("C16", RULE, check, 5)
