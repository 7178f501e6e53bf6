import sys, os, re; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.rules import *
from vlib.ev import F as F_

RULE = ("in each command line program the value a stage gets for a parameter is exactly the one the option of that name sets (no other option's, no fixed value, not altered), the two sides of a switch set opposite values, "
        "and a default stated in an option's help is the value before the option is read; the stages that change what later ones see are chained by data flow in the documented order, each once and on every run; the hits of every "
        "scan are written, to a path that is the one given or derived from that scan's own input; a run that fails ends with a status other than 0")
SETQ = "clipp::detail::action_provider::set"
INL = lambda d: "::" not in d.qn or d.qn.startswith("(anon)")


def name(t): return t.a[0].split("<")[0] if t.op == "call" else None


class Cli:
    def __init__(self, ctx, P, F):
        self.ev, self.v = go(ctx, P, F, inline=INL)
        self.ef = self.ev.effects
        self.names, self.pos, self.help = {}, {}, {}
        for e in self.ef:
            if e.kind != "call": continue
            q = (e.qn or "").split("<")[0]
            if q == "clipp::operator&" and len(e.args) == 2:
                opts = self.strings(e.args[0])
                for i, s in enumerate(self.sets(e.args[1])):
                    self.names[s.id] = opts; self.pos[s.id] = i
            if q in ("clipp::detail::operator%", "clipp::operator%") and len(e.args) == 2:
                t = e.args[1]
                h = t.a[0] if t.op == "str" else None
                if h is None: continue
                for s in self.sets(e.args[0]): self.help.setdefault(s.id, h)

    def strings(self, t):
        out = []
        for x in subterms(t):
            if x.op == "call" and name(x) in ("clipp::option", "clipp::required", "clipp::values", "clipp::value", "clipp::opt_values") and name(x) in ("clipp::option", "clipp::required"):
                out += [y.a[0] for y in x.a[1:] if y.op == "str"]
        return tuple(out)

    def sets(self, t):
        out = []
        def walk(x):
            if not isinstance(x, T): return
            if x.op == "call" and name(x) == SETQ: out.append(x); return
            for k in children(x): walk(k)
        walk(t)
        return out

    def opts(self, s):
        """names of the option a set() belongs to"""
        o = s.a[1]
        n = self.strings(o)
        if n: return n
        if s.id in self.names and self.names[s.id]: return self.names[s.id]
        return tuple(y.a[0] for x in subterms(o) if x.op == "call" and name(x) in ("clipp::values", "clipp::value") for y in x.a[1:] if y.op == "str")

    def origin(self, v):
        """[(option names, position, constant set or None)], value before any option; None if v is not simply what options set"""
        out = []
        v = strip_all_casts(v)
        while v.op == "out" and v.a[0].op == "call" and name(v.a[0]) == SETQ:
            s = v.a[0]
            args = list(s.a[2:])
            out.append((self.opts(s), self.pos.get(s.id, 0), strip_all_casts(args[1]) if len(args) > 1 else None, s))
            v = strip_all_casts(args[0])
        return out, v

    def before(self, t):
        """t as it is while the options are being declared: no option has been read"""
        return subst(t, lambda x: self.before(self.origin(x)[1]) if x.op == "out" and x.a[0].op == "call" and name(x.a[0]) == SETQ else None)


def understood(v): return not contains(v, lambda x: x.op in ("undef", "unk", "lout"))


def sink(ctx, C, prog, opts, v, w, what, pos=0, const=None):
    """obligation: v is what the option sets"""
    key = "%s %s: %s" % (prog, opts[0], what)
    if v is None: ctx.unknown(key, w, ""); return None
    o, base = C.origin(v)
    hit = [x for x in o if set(x[0]) & set(opts)]
    if not o:
        has = [x for x in subterms(v) if x.op == "out" and x.a[0].op == "call" and name(x.a[0]) == SETQ]
        if not has: ctx.ob(key, False if understood(v) else None, w, "is always %s, whatever the option says" % show(v, 6)); return None
        own = [x for x in has if set(C.opts(x.a[0])) & set(opts)]
        if not own: ctx.ob(key, False if understood(v) else None, w, "is %s" % show(v, 9)); return None
        ctx.ob(key, None if any(x.op in ("call", "ite", "new") for x in [strip_all_casts(v)]) else False if understood(v) else None, w, "is %s" % show(v, 9)); return own[0]
    odd = [x for x in o if not set(x[0]) & set(opts)]
    if not hit: ctx.bad(key, w, "is set by %s" % "/".join(x[0][0] if x[0] else "?" for x in o)); return None
    if const is None and any(x[2] is not None for x in hit) : ctx.bad(key, w, "is set to %s and not to the value given" % show(hit[0][2])); return None
    if const is not None:
        c = [x[2] for x in hit]
        ctx.ob(key, (isnum(c[0]) and c[0].a[0] == const) if c[0] is not None and free(c[0]) else None if c[0] is None else None, w, "is set to %s" % (show(c[0]) if c[0] is not None else "the value given"))
        return hit[0]
    if odd: ctx.bad(key, w, "is also set by %s" % odd[0][0][0]); return hit[0]
    ctx.ob(key, hit[0][1] == pos, w, "is the value at position %d of the option" % hit[0][1])
    # a default stated in the help
    h = C.help.get(hit[0][3].id, "")
    m = re.search(r"\(default:\s*([^ )]+)", h) or re.search(r"\((\d+(?:\.\d+)?)\)\s*$", h)
    if m:
        t = m.group(1)
        try: want = float(eval(t, {"__builtins__": {}})) if re.fullmatch(r"[\d.*+ -]+", t) else t
        except Exception: want = None
        if want is not None:
            b = strip_all_casts(base)
            got = float(b.a[0]) if isnum(b) else b.a[0] if b.op == "str" else None
            ctx.ob(key + ", default as stated", None if got is None or type(got) is not type(want) else got == want, w, "help says %s, the value is %s" % (t, show(b)))
    return hit[0]


FIND = [("files", "observation_target", 0, None), ("--nchan-per-coarse", "observation_target", 1, None), ("--coarse-channel", "slice_observation_channels", 0, None), ("--number-coarse", "slice_observation_channels", 1, None),
        ("--device", "set_device", 0, None), ("--equalizer-channel", "equalize_passband_filter", 1, None), ("--filter-rolloff", "flag_filter_rolloff", 1, None), ("--sk-low", "flag_spectral_kurtosis", 1, None),
        ("--sk-high", "flag_spectral_kurtosis", 2, None), ("--sk-d", "flag_spectral_kurtosis", 3, None), ("--sigmaclip-iters", "flag_sigmaclip", 1, None), ("--sigmaclip-low", "flag_sigmaclip", 2, None),
        ("--sigmaclip-high", "flag_sigmaclip", 3, None), ("--min-rate", "integrate_drifts", 1, "low_rate"), ("--max-rate", "integrate_drifts", 1, "high_rate"), ("--rate-step", "integrate_drifts", 1, "rate_step_size"),
        ("--snr", "hit_search", 1, "snr_threshold"), ("--distance", "hit_search", 1, "neighbor_l1_dist")]
SWITCH = [("--desmear", "integrate_drifts", 1, "desmear", 1), ("--nodesmear", "integrate_drifts", 1, "desmear", 0), ("--connected-components", "hit_search", 1, "method", 0), ("--local-maxima", "hit_search", 1, "method", 1)]
# what has to come before what
ORDER = [("slice_observation_channels", "normalize"), ("set_device", "normalize"), ("normalize", "flag_spectral_kurtosis"), ("normalize", "flag_sigmaclip"), ("normalize", "equalize_passband_filter"), ("equalize_passband_filter", "flag_spectral_kurtosis"),
         ("equalize_passband_filter", "flag_sigmaclip"), ("flag_filter_rolloff", "estimate_noise_power"), ("flag_spectral_kurtosis", "estimate_noise_power"), ("flag_sigmaclip", "estimate_noise_power"),
         ("flag_filter_rolloff", "integrate_drifts"), ("flag_spectral_kurtosis", "integrate_drifts"), ("flag_sigmaclip", "integrate_drifts"), ("equalize_passband_filter", "integrate_drifts"), ("normalize", "integrate_drifts"), ("estimate_noise_power", "hit_search"),
         ("integrate_drifts", "hit_search"), ("hit_search", "filter_hits"), ("filter_hits", "write_scan_hits_to_file")]


def last(e): return (e.qn or "").split("<")[0].split("::")[-1]


def calls(C, n): return [e for e in C.ef if e.kind == "call" and (e.qn or "").startswith("bliss::") and last(e) == n]


def one(ctx, C, prog, n):
    c = calls(C, n)
    if not c: ctx.ob("%s runs %s" % (prog, n), False if C.v is not None else None, prog, "never called"); return None
    if len(c) > 1: ctx.unknown("%s runs %s once" % (prog, n), c[0].where(), "%d calls" % len(c)); return None
    return c[0]


def field(C, v, f):
    if f is None: return v
    return C.ev.rec_get(strip_all_casts(v), (F_(f),))


def mainof(ctx, P, prog):
    fs = [f for f in P.defs.values() if f.qn == "main"]
    if len(fs) != 1: raise AnalysisError("anchor vanished: main of " + prog)
    return fs[0]


def find_hits(ctx):
    prog = "find_hits"
    P = ctx.program("bliss/bliss_find_hits.cpp")
    F = mainof(ctx, P, prog)
    C = Cli(ctx, P, F)
    st = {}
    for n in dict.fromkeys([x[1] for x in FIND] + [y for x in ORDER for y in x]):
        st[n] = one(ctx, C, prog, n)
    for opt, n, i, f in FIND:
        e = st[n]
        if e is None: continue
        if i >= len(e.args): ctx.unknown("%s %s" % (prog, opt), e.where(), "no argument %d" % i); continue
        sink(ctx, C, prog, (opt,), field(C, e.args[i], f), e.where(), "%s%s" % (n, " ." + f if f else " argument %d" % i))
    for opt, n, i, f, c in SWITCH:
        e = st[n]
        if e is None: continue
        v = field(C, e.args[i], f)
        if v is None: ctx.unknown("%s %s" % (prog, opt), e.where(), ""); continue
        o, base = C.origin(v)
        own = [x for x in o if opt in x[0]]
        key = "%s %s: %s .%s" % (prog, opt, n, f)
        other = [x for x in o if not any(y in x[0] for y, *_ in SWITCH if (_[0], _[2]) == (n, f))]
        if not own: ctx.ob(key, False if understood(v) else None, e.where(), "the switch does not set %s" % f); continue
        k = own[0][2]
        if k is not None: k = C.before(k)
        ctx.ob(key, None if k is None or not isnum(k) else k.a[0] == c and not other, e.where(), "sets %s" % (show(k) if k is not None else "nothing"))
    # a fixed choice: noise of the unflagged samples
    e = st["estimate_noise_power"]
    if e is not None:
        m = field(C, e.args[1], "masked_estimate")
        ctx.ob("%s estimates the noise of unflagged samples" % prog, None if m is None or not isnum(m) else m.a[0] == 1, e.where(), "masked estimate is %s" % show(m))
    # order, by data flow; and on every run
    for a, b in ORDER:
        if st[a] is None or st[b] is None: continue
        x = st[b].args[0]
        if st[b].obj is not None and isinstance(st[b].obj, T): x = st[b].obj
        q = st[a].qn.split("<")[0]
        has = any(t.op == "call" and name(t) == q for t in subterms(x)) or contains_lout(C, x, q)
        rev = any(t.op == "call" and name(t) == st[b].qn.split("<")[0] for t in subterms(st[a].args[0])) if st[a].args else False
        ctx.ob("%s: %s before %s" % (prog, a, b), True if has else False if rev or understood(x) else None, st[b].where(), "%s does not get the result of %s" % (b, a))
    eq, ro = st["equalize_passband_filter"], st["flag_filter_rolloff"]
    for n, e in st.items():
        if e is None or n in ("equalize_passband_filter", "flag_filter_rolloff", "write_scan_hits_to_file"): continue
        extra = [c for c in e.pc if not contains(c, lambda x: x.op == "call" and name(x).startswith("clipp::parsing_result")) and not any("--help" in (C.opts(x) or ()) for x in C.sets(c))]
        ctx.ob("%s always runs %s" % (prog, n), (False if all(understood(c) for c in extra) else None) if extra else True, e.where(), "only under %s" % [show(c, 6) for c in extra])
    if eq is not None:
        def about(c): return [1 for x in C.sets(c) if "--equalizer-channel" in C.opts(x)]
        ec = [c for c in eq.pc if about(c)]
        given = [c for c in ec if strip_all_casts(c).op == "not" or strip_all_casts(c).op == "lt0"]
        ctx.ob("%s equalizes if a response is given" % prog, True if given else False if all(understood(c) for c in eq.pc) else None, eq.where(), "under %s" % [show(c, 5) for c in ec])
    # output
    e = st["write_scan_hits_to_file"]
    if e is not None and len(e.args) == 3:
        w = e.where()
        L = e.loops[-1] if e.loops else None
        if L is None: ctx.unknown("%s writes every scan" % prog, w, "not in a loop")
        else:
            sc = [x for x in subterms(e.args[0]) if x.op == "sel" and x.a[1] is L.ctr and x.a[0].op == "fld" and x.a[0].a[1] == "_scans"]
            n = strip_all_casts(L.trip) if L.trip is not None else None
            ok = n is not None and n.op == "size" and strip_all_casts(n.a[0]).op == "fld" and strip_all_casts(n.a[0]).a[1] == "_scans"
            if n is None and L.cond is not None:
                c = strip_all_casts(L.cond)
                sz = [x for x in subterms(c) if x.op == "size" and strip_all_casts(x.a[0]).op == "fld" and strip_all_casts(x.a[0]).a[1] == "_scans"]
                n = sz[0] if len(sz) == 1 and c.op == "lt0" and sub(c.a[0], sub(sz[0], L.ctr)) is num(0) else None if not sz or c.op != "lt0" or not isnum(sub(c.a[0], sub(sz[0], L.ctr))) else sub(sz[0], num(1))
                ok = n is not None and n.op == "size"
            ctx.ob("%s writes every scan" % prog, True if sc and ok and not L.breaks and not L.hasret else None if not sc or n is None or ok and not (L.breaks or L.hasret) else False, w, "scans 0 to %s, %s" % (show(n), show(e.args[0], 6)))
        for i, nm in ((1, "path"), (2, "format")):
            v = strip_all_casts(e.args[i])
            carried = [x for x in subterms(v) if x.op == "iter" and L is not None and x.a[0] == L.id and not mentions_scans(x)]
            key = "%s -o: %s" % (prog, nm)
            if carried and L is not None:
                ctx.ob(key + " is that of the scan itself", False if any(L.iter[k] is x and L.next.get(k) is not x for x in carried for k in L.iter) else None, w, "a later scan uses what was made for an earlier one: %s" % show(v, 7)); continue
            ctx.ob(key + " is that of the scan itself", True if understood(v) else None, w, "")
            given = v
            dflt = None
            if v.op == "ite":
                c = strip_all_casts(v.a[0])
                cs = [x for x in C.sets(c) if "--output" in C.opts(x)]
                pol = c.op == "not" or c.op == "lt0"
                given, dflt = (v.a[1], v.a[2]) if pol else (v.a[2], v.a[1])
                ctx.ob(key + ": the one given is used if there is one", True if cs and c.op in ("eq0", "not", "lt0") and all(C.pos.get(x.id, 0) == 0 for x in cs) else None, w, "under %s" % show(c, 6))
            o, b = C.origin(given)
            ctx.ob(key, (bool(o) and all("--output" in x[0] for x in o) and o[0][1] == i - 1) if o or understood(given) else None, w, "is %s" % show(given, 8))
            if i == 1 and L is not None and o and understood(given):
                ctx.ob("%s -o: several scans do not share one output" % prog, mentions(given, L.ctr), w, "every scan is written to %s" % show(given, 4))
            if dflt is not None and i == 1:
                own = [x for x in subterms(dflt) if x.op == "sel" and L is not None and x.a[1] is L.ctr and C.origin(x.a[0])[0] and "files" in C.origin(x.a[0])[0][0][0]]
                ctx.ob(key + " without one is named after the scan's input", True if own else False if understood(dflt) else None, w, "is %s" % show(dflt, 8))
        # on the terminal
        pr = [x for x in C.ef if x.kind == "call" and last(x) == "print" and any(contains(a, lambda t: t.op == "call" and name(t) == "bliss::hit::repr") for a in x.args)]
        if pr:
            M = pr[0].loops[-1] if pr[0].loops else None
            ctx.ob("%s prints every hit" % prog, None if M is None or M.trip is None else True if not M.breaks and strip_all_casts(M.trip).op == "size" else None if not M.breaks else False, pr[0].where(), "")
    # failure
    fails(ctx, C, prog, F)


def contains_lout(C, x, q):
    """q among what a loop started from"""
    for t in subterms(x):
        if t.op == "iter":
            L = C.ev.allloops.get(t.a[0])
            if L is None: continue
            for k in L.init:
                if L.iter.get(k) is t and L.init[k] is not None and any(y.op == "call" and name(y) == q for y in subterms(L.init[k])): return True
        if t.op == "lout" and any(y.op == "call" and name(y) == q for a in t.a if isinstance(a, T) for y in subterms(a)): return True
    return False


def mentions_scans(x): return "hits" in show(x) or "pipeline" in show(x) or "_scans" in show(x)


def fails(ctx, C, prog, F):
    caught = {}
    for e in C.ef:
        for c in e.pc:
            if c.op == "caught": caught.setdefault(c.id, (c, []))[1].append(e)
    for c, es in caught.values():
        r = [e for e in es if e.kind == "ret" or e.kind == "call" and last(e) in ("exit", "_Exit", "quick_exit", "abort", "terminate")]
        rethrow = [e for e in es if e.kind == "throw"]
        w = es[0].where()
        if rethrow: ctx.ok("%s fails on an exception" % prog, w); continue
        if not r:
            # execution goes on after the handler: the value returned in the end decides
            v = C.v
            rest = [x for x in subterms(v) if x.op == "caught"] if v is not None else []
            ctx.ob("%s fails on an exception" % prog, False if not rest else None, w, "the program goes on and ends with status 0"); continue
        x = r[0].val if r[0].kind == "ret" else (r[0].args or [None])[0]
        if x is None: x = (r[0].args or [None])[0]
        if last(r[0]) in ("abort", "terminate"): ctx.ok("%s fails on an exception" % prog, w); continue
        ctx.ob("%s fails on an exception" % prog, (x.a[0] != 0) if x is not None and isnum(x) else None, r[0].where(), "ends with status %s" % show(x))
    if not caught: ctx.ok("%s fails on an exception" % prog, F.where(), "exceptions are not caught")


def to_dat(ctx):
    prog = "hits_to_dat"
    P = ctx.program("bliss/bliss_hits_to_dat.cpp")
    F = mainof(ctx, P, prog)
    C = Cli(ctx, P, F)
    rd = [e for e in C.ef if e.kind == "call" and (e.qn or "").startswith("bliss::read_scan_hits_from")]
    wr = [e for e in C.ef if e.kind == "call" and (e.qn or "").startswith("bliss::write_scan_hits_to")]
    if len(rd) == 1:
        sink(ctx, C, prog, ("--input",), rd[0].args[0], rd[0].where(), "file read")
    else: ctx.unknown("%s reads one file" % prog, F.where(), "")
    if len(wr) == 1 and len(rd) == 1:
        e = wr[0]; w = e.where()
        ctx.ob("%s writes what it read" % prog, True if contains(e.args[0], lambda x: x is rd[0].term) else False if free(e.args[0]) else None, w, "writes %s" % show(e.args[0], 5))
        ctx.ob("%s writes a dat file" % prog, True if "dat" in last(e) or len(e.args) > 2 and contains(e.args[2], lambda x: x.op == "str" and x.a[0] == "dat") else None if len(e.args) > 2 else False, w, last(e))
        v = strip_all_casts(e.args[1])
        given, dflt = v, None
        if v.op == "ite":
            c = strip_all_casts(v.a[0])
            pol = c.op in ("not", "lt0")
            given, dflt = (v.a[1], v.a[2]) if pol else (v.a[2], v.a[1])
        sink(ctx, C, prog, ("--output",), given, w, "file written")
        if dflt is not None:
            own = [x for x in subterms(dflt) if x.op == "out" and C.origin(x)[0] and "--input" in C.origin(x)[0][0][0]]
            ctx.ob("%s without output is named after the input" % prog, True if own else False if understood(dflt) else None, w, "is %s" % show(dflt, 8))
            ext = [x for x in subterms(subst(dflt, lambda t: sym("INPUT") if t.op == "out" and t.a[0].op == "call" and name(t.a[0]) == SETQ else None)) if x.op == "str"]
            ctx.ob("%s without output does not overwrite the input" % prog, True if any(x.a[0] in ("dat", ".dat") for x in ext) else False if understood(dflt) and not ext else None, w, "is %s" % show(dflt, 8))
    else: ctx.unknown("%s writes one file" % prog, F.where(), "")
    fails(ctx, C, prog, F)


def response(ctx):
    prog = "generate_channelizer_response"
    P = ctx.program("bliss/bliss_generate_channelizer_response.cpp")
    F = mainof(ctx, P, prog)
    C = Cli(ctx, P, F)
    g = one(ctx, C, prog, "gen_coarse_channel_response")
    wr = [e for e in C.ef if e.kind == "call" and (e.qn or "") == "bland::write_to_file"]
    if g is not None:
        for i, o in enumerate(("--nchan-per-coarse", "--number-coarse", "--taps-per-channel")):
            sink(ctx, C, prog, (o,), g.args[i], g.where(), "argument %d" % i)
        dev = [a for a in g.args[3:] if any("--device" in C.opts(s) for s in C.sets(a))]
        ctx.ob("%s --device: used" % prog, True if dev else False if all(understood(a) for a in g.args) else None, g.where(), "the device option is never used")
    if len(wr) == 1:
        e = wr[0]
        sink(ctx, C, prog, ("--output",), e.args[1], e.where(), "file written")
        if g is not None: ctx.ob("%s writes the response" % prog, True if contains(e.args[0], lambda x: x is g.term) else False if free(e.args[0]) else None, e.where(), "writes %s" % show(e.args[0], 5))
    else: ctx.unknown("%s writes one file" % prog, F.where(), "")
    fails(ctx, C, prog, F)


def check(ctx):
    find_hits(ctx)
    to_dat(ctx)
    response(ctx)


main("C19", RULE, check, minimum=10)
