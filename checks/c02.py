import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.check import *

RULE = ("for each metadata getter G of coarse_channel and scan: the capnp writer stores G(object) in a Filterbank slot, and G of "
        "the object built by the reader evaluates to that same slot; list-valued parts (hits, coarse channels, scans, "
        "observations) are written and read element for element, index i to index i, over the full count")
INL = lambda d: d.qn.startswith(("bliss::", "(anon)"))
META = ["fch1", "foff", "source_name", "src_dej", "src_raj", "telescope_id", "tsamp", "tstart", "ntsteps", "nchans"]
CAP = ("capnp::", "Signal::", "Filterbank::", "Scan::", "CoarseChannel::", "ObservationTarget::", "Cadence::", "kj::", "Hit::")


def getter(ctx, P, ev, cls, name, v):
    fs = [f for f in P.byqn.get(cls + "::" + name, []) if not f.params]
    if not fs: raise AnalysisError("anchor vanished: %s::%s()" % (cls, name))
    e2 = ctx.evaluator(P, inline=INL)
    st = ev.state.copy() if ev is not None else State()
    loc = (raw("mem", sym("obj")), ())
    if v is not None: e2.store(st, loc, v)
    else: loc = (raw("mem", sym("OBJ")), ())
    return e2.run(fs[0], this=loc, st=st)


def unwrap(v):
    """strip casts and text/optional conversions that keep the value"""
    while True:
        if v.op in ("cast", "trunc"): v = v.a[-1]
        elif v.op == "new" and str(v.a[0]).startswith("capnp::Text"): v = v.a[1]
        elif v.op == "call" and str(v.a[0]).startswith("kj::StringPtr::operator"): v = v.a[1]
        elif v.op == "call" and str(v.a[0]).startswith("capnp::Text") and len(v.a) == 2: v = v.a[1]
        else: return v


def param0(ev, i):
    return None


def object_codec(ctx, P, kind, cls, W, R, src, required):
    """kind: label; src: name of the writer parameter holding the object"""
    evr = ctx.evaluator(P, inline=INL)
    val = evr.run(R)
    evw = ctx.evaluator(P, inline=INL)
    evw.run(W)
    ctx.count("functions_evaluated", 2 + len(evr.inlined) + len(evw.inlined))
    obj = sym(src)
    stores = {}
    for e in evw.effects:
        if e.kind == "call" and e.qn.startswith("Filterbank::Builder::set") and not e.loops:
            stores.setdefault(e.qn.split("::set", 1)[1], []).append(e)
    for g in required:
        key = "%s.%s" % (kind, g)
        rv = unwrap(getter(ctx, P, evr, cls, g, val))
        if not (rv.op == "call" and str(rv.a[0]).startswith("Filterbank::Reader::get")):
            if rv.op in ("undef", "optval") or transparent(rv, CAP):
                ctx.bad(key + ":restored", R.where(), "%s() of the object read back is %s, not a stored slot" % (g, show(rv)))
            else:
                # derived from other read-back parts: not decided
                fb = [x for x in subterms(rv) if x.op == "call" and str(x.a[0]).startswith("Filterbank::Reader::get")]
                ctx.unknown(key + ":restored", R.where(), "%s() of the object read back is %s" % (g, show(rv)))
            continue
        md = rv.a[1]
        ctx.ok(key + ":restored", R.where())
        X = str(rv.a[0])[len("Filterbank::Reader::get"):]
        if X not in stores:
            ctx.bad(key + ":stored", W.where(), "slot %s, read back as %s, is never written" % (X, g)); continue
        es = stores[X]
        got = unwrap(es[-1].args[0])
        e2 = ctx.evaluator(P, inline=INL)
        want = unwrap(e2.run([f for f in P.byqn[cls + "::" + g] if not f.params][0], this=(raw("mem", obj), ())))
        good = same(got, want, CAP)
        if good is False and len(es) > 1: good = None
        ctx.ob(key + ":stored", good, es[-1].where(), "slot %s, read back as %s, is filled with %s" % (X, g, show(got)))
        cond = [c for e in es[-1:] for c in e.pc if not contains(c, lambda x: x.op in ("hasval", "caught"))]
        ctx.ob(key + ":unconditional", True if not cond or len(es) > 1 else False if all(transparent(c) for c in cond) else None, es[-1].where(),
               "slot %s is only filled when %s" % (X, [show(c) for c in cond]))
    return evw, evr, val


def list_codec(ctx, name, evw, W, initq, want_size, elem_ok, evr, R, listget):
    """writer: list builder initialised with the full count and element i filled from element i"""
    ini = [e for e in evw.effects if e.kind == "call" and e.qn == initq]
    if len(ini) != 1:
        ctx.ob(name + ":list-written", False if not ini else None, W.where(), "%s is called %d times" % (initq, len(ini))); return
    i = ini[0]
    n = strip_all_casts(i.args[0])
    ctx.ob(name + ":full-count-written", same(n, want_size, ("bliss::",)) if n is not want_size else True, i.where(), "list is created with %s entries, expected %s" % (show(n), show(want_size)))


def check(ctx):
    P = ctx.program("bliss/file_types/cpnp_files.cpp", "bliss/file_types/detail/", "bliss/core/coarse_channel.cpp", "bliss/core/scan.cpp",
                    "bliss/core/cadence.cpp")
    D = "bliss::detail::"
    Wcc, Rcc = P.get(D + "bliss_coarse_channel_to_capnp_coarse_channel_message"), P.get(D + "capnp_coarse_channel_message_to_bliss_coarse_channel")
    Wsc, Rsc = P.get(D + "bliss_scan_to_capnp_scan"), P.get(D + "capnp_scan_message_to_bliss_scan")
    Wot, Rot = P.get(D + "bliss_observation_target_to_capnp_observation_target_message"), P.get(D + "capnp_observation_target_message_to_bliss_observation_target")
    Wca, Rca = P.get(D + "bliss_cadence_to_capnp_cadence_message"), P.get(D + "capnp_cadence_message_to_cadence")
    cc = Wcc.params[1]["n"]
    evw, evr, val = object_codec(ctx, P, "coarse_channel", "bliss::coarse_channel", Wcc, Rcc, cc, META)
    sc = Wsc.params[1]["n"]
    object_codec(ctx, P, "scan", "bliss::scan", Wsc, Rsc, sc, META)

    # element-for-element lists, evaluated with the element codecs kept opaque
    def opq(*names):
        return lambda d: d.qn.startswith("bliss::") and not any(d.qn == D + n or d.qn == n for n in names)
    LISTS = [
        ("coarse_channel.hits", Wcc, Rcc, "CoarseChannel::Builder::initHits", "bliss_hit_to_capnp_signal_message", "capnp_signal_message_to_bliss_hit", "bliss::coarse_channel::hits", "CoarseChannel::Reader::getHits"),
        ("scan.coarse_channels", Wsc, Rsc, "Scan::Builder::initCoarseChannels", "bliss_coarse_channel_to_capnp_coarse_channel_message", "capnp_coarse_channel_message_to_bliss_coarse_channel", "bliss::scan::peak_coarse_channel", "Scan::Reader::getCoarseChannels"),
        ("observation_target.scans", Wot, Rot, "ObservationTarget::Builder::initScans", "bliss_scan_to_capnp_scan", "capnp_scan_message_to_bliss_scan", None, "ObservationTarget::Reader::getScans"),
        ("cadence.observations", Wca, Rca, "Cadence::Builder::initObservations", "bliss_observation_target_to_capnp_observation_target_message", "capnp_observation_target_message_to_bliss_observation_target", None, "Cadence::Reader::getObservations"),
    ]
    for name, W, R, initq, wel, rel, src, lget in LISTS:
        stop = [wel, rel] + ([src] if src else [])
        if name == "coarse_channel.hits": stop.append("bliss::coarse_channel::hits")
        if name == "scan.coarse_channels": stop += ["bliss::scan::get_number_coarse_channels"]
        ev = ctx.evaluator(P, inline=opq(*stop), pure=("bliss::scan::peak_coarse_channel",)); ev.run(W)
        ctx.count("functions_evaluated", 1 + len(ev.inlined))
        # ---- writer
        ini = [e for e in ev.effects if e.kind == "call" and e.qn == initq]
        els = [e for e in ev.effects if e.kind == "call" and e.qn == D + wel]
        if not ini or not els:
            ctx.bad(name + ":written", W.where(), "the list is never written (%s: %d, element codec: %d)" % (initq, len(ini), len(els)))
        elif len(els) != 1 or len(els[0].loops) != 1 or els[0].loops[0].trip is None:
            ctx.unknown(name + ":written", els[0].where(), "element codec is called %d times" % len(els))
        else:
            i, e, L = ini[-1], els[0], els[0].loops[0]
            n = strip_all_casts(i.args[0])
            trip = strip_all_casts(L.trip)
            # the source collection and its full size
            srcel = e.args[1]
            base, full, idx = None, None, None
            if src == "bliss::scan::peak_coarse_channel":
                pk = [x for x in subterms(srcel) if x.op == "call" and x.a[0] == src]
                if pk: base, idx = pk[0].a[1], strip_all_casts(pk[0].a[2])
                full = raw("call", "bliss::scan::get_number_coarse_channels", base) if base is not None else None
            elif srcel.op == "sel":
                base, idx = srcel.a[0], strip_all_casts(srcel.a[1])
                full = TT.markint(raw("size", base))
            want_base = {"coarse_channel.hits": lambda b: b.op == "call" and b.a[0] == "bliss::coarse_channel::hits" and b.a[1] is sym(W.params[1]["n"]),
                         "scan.coarse_channels": lambda b: b is sym(W.params[1]["n"]),
                         "observation_target.scans": lambda b: b is raw("fld", sym(W.params[1]["n"]), "_scans"),
                         "cadence.observations": lambda b: b is raw("fld", sym(W.params[1]["n"]), "_observations")}[name]
            if base is None or not want_base(base):
                ctx.unknown(name + ":source", e.where(), "elements written come from " + show(srcel))
            else:
                ctx.ok(name + ":source", e.where())
                allow = ("bliss::",)
                ctx.ob(name + ":list-size", same(n, full, allow), i.where(), "the list is created with %s entries, not %s" % (show(n), show(full)))
                ctx.ob(name + ":all-elements", same(trip, full, allow), e.where(), "elements 0..%s are written, not 0..%s" % (show(trip), show(full)))
                ctx.ob(name + ":source-index", same(idx, L.ctr, allow), e.where(), "element %s is written" % show(idx))
                ex = [c for c in extra_conds(e, L) if not contains(c, lambda x: x is srcel or x.op == "caught" or (x.op == "call" and x.a[0] == src))]
                # a condition on the element itself is allowed only as a null test
                nullish = [c for c in extra_conds(e, L) if c not in ex and not (src == "bliss::scan::peak_coarse_channel")]
                ctx.ob(name + ":unconditional", not (ex or nullish) if not (ex or nullish) or all(transparent(c, allow) for c in ex + nullish) else None, e.where(), "an element is written only when %s" % [show(c) for c in ex + nullish])
                ctx.ob(name + ":no-early-exit", not L.breaks, e.where(), "the writing loop can stop early")
                # destination slot
                dst = e.args[0]
                if dst.op in ("deref", "addr"): dst = dst.a[0]
                ds = [x for x in subterms(dst) if x.op == "call" and "Builder::operator[]" in str(x.a[0])]
                if ds:
                    ctx.ob(name + ":destination-index", same(strip_all_casts(ds[0].a[2]), idx, allow), e.where(), "element %s is stored at list position %s" % (show(idx), show(ds[0].a[2])))
                else:
                    ctx.unknown(name + ":destination-index", e.where(), show(dst))
        # ---- reader
        ev = ctx.evaluator(P, inline=opq(*stop), pure=("bliss::scan::peak_coarse_channel",)); ev.run(R)
        ctx.count("functions_evaluated", 1 + len(ev.inlined))
        els = [e for e in ev.effects if e.kind == "call" and e.qn == D + rel]
        if not els:
            ctx.bad(name + ":read", R.where(), "the list is never read back"); continue
        if len(els) != 1 or len(els[0].loops) != 1 or els[0].loops[0].trip is None:
            ctx.unknown(name + ":read", els[0].where(), "element decoder is called %d times" % len(els)); continue
        e, L = els[0], els[0].loops[0]
        a = e.args[0]
        sel = [x for x in subterms(a) if x.op == "call" and "Reader::operator[]" in str(x.a[0])]
        lst = sel[0].a[1] if sel else None
        if not sel or not (lst.op == "call" and lst.a[0] == lget):
            ctx.unknown(name + ":read", e.where(), "decoded element is " + show(a)); continue
        ctx.ok(name + ":read", e.where())
        trip = strip_all_casts(L.trip)
        good = trip.op == "call" and trip.a[0] == "capnp::List::Reader::size" and trip.a[1] is lst
        ctx.ob(name + ":read-all", good if good or transparent(trip, CAP) else None, e.where(), "elements 0..%s are read, not the whole list" % show(trip))
        ctx.ob(name + ":read-index", same(strip_all_casts(sel[0].a[2]), L.ctr, CAP), e.where(), "element %s is read" % show(sel[0].a[2]))
        app = [x for x in ev.effects if x.kind == "call" and L in x.loops and x.qn.split("::")[-1] in ("push_back", "emplace_back", "insert", "emplace", "push_front", "insert_or_assign", "try_emplace")]
        wr = [x for x in ev.effects if x.kind == "write" and L in x.loops and x.val is not None and contains(x.val, lambda t: t is e.term)]
        app = [x for x in app if not x.qn.startswith("std::vector::insert") and not x.qn.startswith("std::list::insert")]
        if len(app) == 1:
            x = app[0]
            ex = extra_conds(x, L)
            ctx.ob(name + ":kept", not ex if not ex or all(transparent(c, CAP) for c in ex) else None, x.where(), "a decoded element is dropped unless %s" % [show(c) for c in ex])
            ctx.ob(name + ":order", x.qn.split("::")[-1] != "push_front", x.where(), "the order of elements is reversed")
            if name == "scan.coarse_channels":
                k = x.args[0].a[0] if x.args and x.args[0].op in ("pair", "tuple", "vec") else None
                ctx.ob(name + ":key", None if k is None else same(strip_all_casts(k), strip_all_casts(sel[0].a[2]), CAP), x.where(), "coarse channel %s is filed under index %s" % (show(sel[0].a[2]), show(k) if k is not None else "?"))
        elif not app and not wr:
            ctx.bad(name + ":kept", e.where(), "decoded elements are dropped")
        else:
            ctx.unknown(name + ":kept", e.where(), "%d appends" % len(app))
        ctx.ob(name + ":read-no-early-exit", not L.breaks, e.where(), "the reading loop can stop early")


if __name__ == "__main__":
    main("C02", RULE, check, minimum=3)
