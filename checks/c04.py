import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.rules import *

RULE = ("for every pipeline stage: the scan form appends exactly one transform that applies the channel form to the channel it is given with the caller's options and returns "
        "what results; the target and cadence forms apply the form below to every element in place, once, with the caller's options; transforms are appended at the end and "
        "reading a channel applies all of them in order, each to the previous result; the hits of a scan are those of all of its channels in order")
LEVELS = ("coarse_channel", "scan", "observation_target", "cadence")
MEMBER = {"observation_target": "_scans", "cadence": "_observations"}
ADD = "bliss::scan::add_coarse_channel_transform"


def level(F):
    if not F.params: return None
    t = F.params[0]["t"].s.replace("const ", "").replace("bliss::", "").rstrip(" &")
    return t if t in LEVELS else None


def families(P):
    fam = {}
    for F in P.defs.values():
        if F.cls or not F.qn.startswith("bliss::") or level(F) is None: continue
        fam.setdefault(F.qn, []).append(F)
    return {q: fs for q, fs in fam.items() if len(set(level(f) for f in fs)) == 4}


def same_arg(a, p):
    """is argument value a the caller's parameter p? True/False/None"""
    v = sym(p["n"])
    r = eqf(a, v)
    if r is True: return True
    x = strip_all_casts(a)
    while x.op in ("deref", "ref", "upd", "out") or x.op == "call" and len(x.a) == 3 and x.a[0].split("<")[0].endswith(("::to", "copy")):
        x = strip_all_casts(x.a[1] if x.op == "call" else x.a[0])
        if x.op == "call" and not x.a[0].split("<")[0].endswith(("::to", "copy")): break
    if x is v: return True
    if mentions(a, v):
        arith = x.op in ("poly", "num", "ite") or x.op == "call" and x.a[0].split("<")[0].startswith("bland::") and not x.a[0].split("<")[0].endswith(("ndarray::ndarray", "clone", "slice"))
        return False if (isnum_t(p) or arith) and free(a) else None
    return False if free(a) else None


def isnum_t(p):
    return p["t"].s.replace("const ", "").strip() in ("int", "float", "double", "long", "unsigned int", "bool", "unsigned long")


def args_ok(ctx, key, e, args, E, Fname):
    if len(args) == len(E):
        for a, p in zip(args, E):
            ctx.ob("%s: %s" % (key, p["n"]), same_arg(a, p), e.where(), "%s passes %s as %s" % (Fname, show(a), p["n"]))
    else:
        # an overload taking what is computed from the options
        for p in E:
            m = any(mentions(a, sym(p["n"])) for a in args)
            ctx.ob("%s: %s" % (key, p["n"]), True if m else None if p["n"] == "dtype" else False, e.where(), "%s ignores %s" % (Fname, p["n"]))


def forms(ctx, P, qn, fs):
    short = qn.split("::")[-1]
    inl = lambda d: B(d) and d.qn != qn and d.qn != ADD and not d.qn.startswith("bliss::coarse_channel::") and not d.qn.startswith("bland::")
    for F in fs:
        lv = level(F)
        if lv == "coarse_channel": continue
        o = sym(F.params[0]["n"]) if F.params[0].get("n") else None
        if o is None: continue
        E = F.params[1:]
        key = "%s(%s/%d)" % (short, lv, len(F.params))
        ev, v = go(ctx, P, F, inline=inl)
        calls = [e for e in ev.effects if e.kind == "call" and e.qn == qn]
        w = F.where()
        whole = [e for e in calls if not e.loops and strip_all_casts(e.args[0]) is o]
        if whole:
            e = whole[0]
            ctx.ob(key + " applies once", len(calls) == 1 and not extra_conds(e), e.where(), "%d applications, conditions %s" % (len(calls), [show(c) for c in extra_conds(e)]))
            ctx.ob(key + " returns the result", v is e.term if v is not None and free(v) else None, w, "returns %s" % show(v))
            args_ok(ctx, key + " options", e, e.args[1:], E, short)
            continue
        if lv == "scan":
            adds = [e for e in ev.effects if e.kind == "call" and e.qn == ADD]
            if not adds:
                ctx.ob(key + " adds one transform", False if v is not None else None, w, "the channels of the scan are left as they are"); continue
            ctx.ob(key + " adds one transform", len(adds) == 1 and not adds[0].loops and not extra_conds(adds[0]), adds[0].where(), "%d transforms added, in %d loops, under %s" % (len(adds), len(adds[0].loops), [show(c) for c in extra_conds(adds[0])]))
            ctx.ob(key + " returns the scan", True if v is not None and contains(v, lambda x: x is adds[0].term) else False if v is not None and free(v) else None, w, "the scan returned is %s" % show(v))
            l = lams(adds[0].args[0])
            if len(l) != 1: ctx.unknown(key + " transform", w, ""); continue
            cc = sym("channel")
            r, ef = runlam(ev, l[0], F, [cc])
            sc = [e for e in ef if e.kind == "call" and e.qn == qn]
            ctx.ob(key + " transform applies the channel form once", len(sc) == 1 and not sc[0].loops and not extra_conds(sc[0]) if sc or (r is not None and free(r)) else None, adds[0].where(), "the transform applies it %d times" % len(sc))
            if len(sc) != 1: continue
            e = sc[0]
            a0 = strip_all_casts(e.args[0])
            ctx.ob(key + " transform applies to the channel given", True if a0 is cc else False if free(a0) else None, e.where(), "applied to %s" % show(a0))
            ctx.ob(key + " transform returns the result", True if r is not None and contains(r, lambda x: x is e.term) else False if r is not None else None, e.where(), "the transform returns %s" % show(r))
            # a result that is not itself a channel is stored in the channel returned
            if r is not None and r is not e.term:
                ctx.ob(key + " transform keeps the channel", True if mentions(r, cc) else False if free(r) else None, e.where(), "the transform returns %s" % show(r))
            args_ok(ctx, key + " options", e, e.args[1:], E, short)
            continue
        m = raw("fld", o, MEMBER[lv])
        el = [e for e in calls if e.loops]
        if len(el) != 1:
            ctx.ob(key + " applies to every element", False if not calls and v is not None and free(v) else None if len(el) != 1 and not calls else False if len(el) > 1 else None, w, "%d applications" % len(calls)); continue
        e = el[0]
        L = e.loops[-1]
        ctx.ob(key + " applies to every element", (loopfull(L, raw("size", m)) if len(e.loops) == 1 and not conds_in_loop(e, L) else False) , e.where(), "elements 0 to %s of %s, under %s" % (show(L.trip) if L.trip is not None else "?", show(m), [show(c) for c in conds_in_loop(e, L)]))
        a0 = strip_all_casts(e.args[0])
        ok = a0.op == "sel" and a0.a[1] is L.ctr and (a0.a[0] is m or a0.a[0].op == "iter" and any(L.init.get(k) is m and L.iter[k] is a0.a[0] for k in L.iter))
        ctx.ob(key + " takes element i", True if ok else False if a0.op == "sel" and free_but_iter(a0) else None, e.where(), "iteration i takes %s" % show(a0))
        args_ok(ctx, key + " options", e, e.args[1:], E, short)
        # stored back at the same place
        st = None
        for k in L.next:
            if L.init.get(k) is not m: continue
            t = strip_all_casts(ev.rec_get(L.next[k], (F_("[]"), I(L.ctr)))) if False else None
            nx = L.next[k]
            st = nx.op == "rec" and nx.a[0] is L.iter[k] and len(nx.a) == 2 and contains(nx, lambda x: x is e.term)
            if nx is L.iter[k]: st = False
        res = [x for x in subterms(v) if x.op == "lout" and x.a[0] == L.id and x.a[2] is m] if v is not None else []
        if st is None:
            ctx.ob(key + " stores each result", False if v is not None and (v is o or free(v)) else None, e.where(), "results are not stored")
            continue
        ctx.ob(key + " stores each result", st, e.where(), "results are not stored at the element they come from")
        ctx.ob(key + " returns the results", True if res else False if v is not None and (v is o or free(v)) else None, w, "returns %s" % show(v))


def conds_in_loop(e, L):
    """conditions of the effect other than the loop's own"""
    out = []
    for c in extra_conds(e):
        out.append(c)
    return out


def free_but_iter(t):
    return not contains(t, lambda x: x.op in ("undef", "unk", "lout", "upd", "out"))


def mechanism(ctx, P):
    F = get(ctx, P, ADD)[0]
    ev, v = go(ctx, P, F, this=THIS)
    p = sym(F.params[0]["n"])
    m = raw("fld", raw("mem", sym("this")), "_coarse_channel_pipeline")
    pb = [e for e in ev.effects if e.kind == "call" and e.obj is not None and e.qn and e.qn.startswith("std::") and "pipeline" in show_loc(e.obj)]
    good = None
    if len(pb) == 1:
        good = pb[0].qn.split("::")[-1] in ("push_back", "emplace_back") and strip_all_casts(pb[0].args[0]) is p and not extra_conds(pb[0]) and not pb[0].loops
        if not good and pb[0].qn.split("::")[-1] in ("insert", "emplace"):
            a = strip_all_casts(pb[0].args[0])
            good = True if contains(a, lambda x: x.op == "itr" and x.a[1].op == "size") and contains(pb[0].args[1], lambda x: x is p) else False if contains(a, lambda x: x.op == "itr" and x.a[1] is num(0)) else None
    elif not pb: good = False
    ctx.ob("transforms are appended at the end", good, F.where(), "a transform is not appended after those already there")
    for name in ("read_coarse_channel", "peak_coarse_channel"):
        fs = [f for f in P.byqn.get("bliss::scan::" + name, [])]
        if not fs: continue
        F = fs[0]
        ev, v = go(ctx, P, F, inline=but("set_device", "read_data", "read_mask", "get_data_shape", "push_device"), this=THIS)
        ap = [e for e in ev.effects if e.kind == "call" and e.args and e.loops and contains(e.args[0], lambda x: x.op == "fld" and x.a[1] == "_coarse_channel_pipeline")]
        k = name.replace("_", " ")
        if len(ap) != 1:
            ctx.ob(k + ": every transform is applied", False if not ap and not any("pipeline" in show(t, 12) for e in ev.effects for t in effect_terms(e)) else None, F.where(), "transforms are not applied"); continue
        e = ap[0]
        L = e.loops[-1]
        f = strip_all_casts(e.args[0])
        base = f.a[0] if f.op == "sel" else None
        ok = loopfull(L, raw("size", base)) if base is not None and base.op == "fld" and len(e.loops) == 1 else None
        ctx.ob(k + ": every transform is applied", ok, e.where(), "transforms 0 to %s" % (show(L.trip) if L.trip is not None else "?"))
        ctx.ob(k + ": in order", True if f.op == "sel" and f.a[1] is L.ctr else False if f.op == "sel" and transparent(sub(f.a[1], L.ctr)) else None, e.where(), "iteration i applies %s" % show(f))
        x = strip_all_casts(e.args[1])
        carried = [kk for kk in L.iter if L.next.get(kk) is not None and contains(L.next[kk], lambda t: t is e.term)]
        good = None
        its = [L.iter[kk] for kk in carried]
        if any(x is t or x.op == "new" and len(x.a) == 2 and strip_all_casts(x.a[1]) is t for t in its): good = True
        elif carried and any(mentions(x, t) for t in its): good = False if x.op in ("upd", "rec") and not contains(x, lambda t: t.op in ("unk", "undef")) else None
        elif carried and not contains(x, lambda t: t.op in ("unk", "undef")): good = False
        ctx.ob(k + ": each transform gets the previous result", good, e.where(), "a transform is applied to %s" % show(x))
        # the loop starts from the channel read, and the result of the last transform is returned
        for kk in carried:
            i0 = L.init[kk]
            ctx.ob(k + ": the channel read is transformed", True if contains(i0, lambda t: t.op in ("find", "fld") and "_coarse_channels" in show(t, 6)) else None, e.where(), "")
            ret = [r for r in ev.effects if r.kind == "ret" and r.val is not None and any(c in r.pc or True for c in [1])]
            vals = [pointed(ev, r.val) for r in ret if r.val.op != "null"]
            hit = any(t is not None and contains(t, lambda y: y.op == "lout" and y.a[0] == L.id) for t in vals)
            ctx.ob(k + ": the last result is returned", True if hit else False if vals and all(t is not None and free(t) for t in vals) else None, F.where(), "returns %s" % [show(t) for t in vals if t is not None])
        # what is cached stays as read
        for e2 in ev.effects:
            if e2.kind == "write" and any(l is L for l in e2.loops): ctx.ob(k + ": channels kept are not transformed", False if "_coarse_channels" in show_loc(e2.loc) else None, e2.where(), "")


def pointed(ev, v):
    x = strip_all_casts(v)
    if x.op == "addr" or x.op == "ref":
        y = x.a[0]
        try: return ev.load(ev.state, (y, x.a[1:] if x.op == "ref" else ()))
        except Exception: return y
    return x


def hits(ctx, P):
    F = get(ctx, P, "bliss::scan::hits")[0]
    ev, v = go(ctx, P, F, inline=but("coarse_channel::hits", "read_coarse_channel"), this=THIS)
    rd = [e for e in ev.effects if e.kind == "call" and e.qn == "bliss::scan::read_coarse_channel"]
    if len(rd) != 1: ctx.unknown("hits of a scan: every channel", F.where(), "%d reads" % len(rd)); return
    e = rd[0]
    n = raw("fld", sym("this"), "_num_coarse_channels")
    L = e.loops[-1] if e.loops else None
    if L is None: ctx.bad("hits of a scan: every channel", e.where(), "one channel is read"); return
    ctx.ob("hits of a scan: every channel", loopfull(L, n) if len(e.loops) == 1 else None, e.where(), "channels 0 to %s" % (show(L.trip) if L.trip is not None else "?"))
    ctx.ob("hits of a scan: channel i in turn", eqf(e.args[0], L.ctr), e.where(), "iteration i reads channel %s" % show(e.args[0]))
    ins = [x for x in ev.effects if x.kind == "call" and x.qn and x.qn.startswith("std::list::") and x.qn.split("::")[-1] in ("insert", "splice", "push_back", "emplace_back", "push_front", "emplace_front", "merge")]
    if len(ins) != 1: ctx.unknown("hits of a scan: all hits in order", F.where(), "%d insertions" % len(ins)); return
    x = ins[0]
    nm = x.qn.split("::")[-1]
    if nm == "insert" and len(x.args) == 3:
        pos = [t for t in subterms(x.args[0]) if t.op == "itr"]
        ok = True if pos and pos[0].a[1].op == "size" else False if pos and pos[0].a[1] is num(0) else None
        ctx.ob("hits of a scan: appended after those of earlier channels", ok, x.where(), "hits are inserted at %s" % show(x.args[0]))
        a, b = [[t for t in subterms(y) if t.op == "itr"] for y in x.args[1:]]
        if a and b:
            full = a[0].a[1] is num(0) and b[0].a[1].op == "size"
            src = contains(b[0].a[1], lambda t: t.op == "call" and t.a[0] == "bliss::coarse_channel::hits")
            ctx.ob("hits of a scan: all hits in order", True if full and src else False if a[0].a[1] is not num(0) and transparent(a[0].a[1]) else None, x.where(), "hits %s to %s are taken" % (show(a[0].a[1]), show(b[0].a[1])))
    elif nm in ("push_front", "emplace_front"): ctx.bad("hits of a scan: appended after those of earlier channels", x.where(), "hits are put in front")
    elif len(x.loops) == 2:
        a, M = strip_all_casts(x.args[0]), x.loops[-1]
        src = a.a[0] if a.op == "sel" else None
        isrc = src is not None and contains(src, lambda t: t.op == "call" and t.a[0] == "bliss::coarse_channel::hits")
        ctx.ob("hits of a scan: all hits in order", (a.a[1] is M.ctr and loopfull(M, raw("size", src)) and not [c for c in extra_conds(x) if mentions(c, M.ctr)]) if isrc else None, x.where(), "hits %s up to %s are taken" % (show(a), show(M.trip) if M.trip is not None else "?"))
    else: ctx.unknown("hits of a scan: all hits in order", x.where(), "")


def crossed(ctx, P):
    """two arguments that are handed over under each other's names"""
    n = 0
    for F in P.defs.values():
        if not F.qn.startswith(("bliss::", "bland::")) or F.body is None: continue
        mine = {p["n"]: p["t"].s for p in F.params if p.get("n")}
        from vlib.program import walk
        for c in walk(F.body):
            if c.get("k") not in ("call", "mcall", "ctor"): continue
            G = P.callee(c["f"]) if c.get("f") is not None else None
            if G is None or not hasattr(G, "params"): continue
            args = c.get("a", [])
            names = [p.get("n") for p in G.params]
            got = []
            for a in args:
                while isinstance(a, dict) and (a.get("k") == "cast" or a.get("k") == "ctor" and len(a.get("a", [])) == 1): a = a["e"] if a["k"] == "cast" else a["a"][0]
                got.append(a.get("n") if isinstance(a, dict) and a.get("k") == "var" else None)
            n += 1
            for i in range(min(len(names), len(got))):
                for j in range(i + 1, min(len(names), len(got))):
                    if names[i] and names[j] and names[i] != names[j] and got[i] == names[j] and got[j] == names[i] and got[i] in mine and got[j] in mine:
                        ctx.bad("arguments handed over under each other's names: %s" % F.qn, F.where(c.get("l")), "%s and %s change places in the call of %s" % (names[i], names[j], G.qn))
    ctx.count("calls_examined", n)


STORED = ("add_coarse_channel_transform", "set_data", "set_mask", "set_hits", "set_noise_estimate", "set_integrated_drift_plane", "set_integrated_drifts")


def nodes(n):
    if isinstance(n, dict):
        yield n
        for v in n.values(): yield from nodes(v)
    elif isinstance(n, (list, tuple)):
        for v in n: yield from nodes(v)


def value(n):
    """the nodes that become part of the value of an expression: not what a call in it works with"""
    if isinstance(n, dict):
        yield n
        if n.get("k") in ("cast", "ctor", "init", "cond", "new"):
            for v in n.values(): yield from value(v)
    elif isinstance(n, (list, tuple)):
        for v in n: yield from value(v)


def outlives(ctx, P):
    """what is kept in a scan or channel to be done later refers to nothing that is gone by then"""
    n = 0
    for F in sorted(P.defs.values(), key=lambda f: (f.qn, f.line)):
        if not F.body or not F.file.startswith("/repo/bliss/") or "/tests/" in F.file: continue
        ns = list(nodes([F.body, getattr(F, "inits", None) or []]))
        held, const = {}, {v["id"] for x in ns if x.get("k") == "decl" for v in x["v"] if "id" in v and v.get("st")}
        for x in ns:
            if x.get("k") == "decl":
                for v in x["v"]:
                    ls = [y for y in value(v.get("e")) if y.get("k") == "lambda"] if v.get("e") else []
                    if "id" in v and ls: held[v["id"]] = ls
        for x in ns:
            if x.get("k") not in ("call", "ctor"): continue
            q = getattr(x.get("f"), "qn", "") or ""
            cls = x.get("cls") == "bliss::coarse_channel" and x["k"] == "ctor" or q == "std::make_shared" and "coarse_channel" in str(x.get("t"))
            if not (cls or q.startswith("bliss::") and q.split("::")[-1] in STORED): continue
            for a in x.get("a") or []:
                for y in value(a):
                    for L in ([y] if y.get("k") == "lambda" else held.get(y.get("id"), []) if y.get("k") == "var" else []):
                        n += 1
                        bad = [c["n"] for c in L["caps"] if c.get("ref") and not c.get("initcap") and c.get("id") not in const]
                        ctx.ob("%s: what is kept for later owns what it uses" % F.qn, not bad, "%s:%s" % (F.file.split("/repo/", 1)[-1], x.get("l", F.line)),
                               "refers to %s, which does not live as long" % ", ".join(bad))
    if not n: ctx.unknown("what is kept for later", "", "nothing is")


def check(ctx):
    P = ctx.program("bliss/flaggers/", "bliss/preprocess/", "bliss/estimators/noise", "bliss/drift_search/hit_search", "bliss/drift_search/integrate", "bliss/drift_search/filter", "bliss/core/")
    fams = families(P)
    if len(fams) < 3: raise AnalysisError("pipeline stages vanished")
    for q, fs in sorted(fams.items()): forms(ctx, P, q, fs)
    mechanism(ctx, P)
    hits(ctx, P)
    crossed(ctx, P)
    outlives(ctx, P)


if __name__ == "__main__": main("C04", RULE, check, 5)
