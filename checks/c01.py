import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.check import *

RULE = ("value flow from each hit attribute into a Signal slot on every path of the Cap'n Proto hit writer, and from the "
        "same slot back into the same attribute in the reader; slot type at least as wide as the attribute")
EXEMPT = {"rfi_counts": "no slot in the schema (documented at the writer)"}
INL = lambda d: d.qn.startswith(("bliss::", "(anon)"))


def slots(effects, cls):
    out = {}
    for e in effects:
        if e.kind == "call" and e.qn.startswith(cls + "::Builder::set") and e.args:
            out.setdefault(e.qn.split("::set", 1)[1], []).append(e)
    return out


def chain(t):
    out = []
    while t.op in ("cast", "trunc"):
        out.append("trunc" if t.op == "trunc" else t.a[0])
        t = t.a[-1]
    return out


def lossy(casts, kind, bits, srcint):
    """conversions on the way into a place of this kind and width that lose more than the place itself does"""
    out = []
    for c in casts:
        if kind == "f":
            if c == "trunc" and not srcint: out.append("truncation to an integer")
            elif c[0] == "i" and int(c[1:]) < 32: out.append("%s-bit integer" % c[1:])
            elif c == "f32" and bits > 32: out.append("float")
        else:
            if c[0] == "i" and int(c[1:]) < min(bits, 32): out.append("%s-bit integer" % c[1:])
            elif c == "f32": out.append("float")
    return out


def left_as_read(ctx, key, v, F):
    """the list returned is the list the reading loop filled"""
    if v is None: return
    for x in subterms(v):
        if x.op == "popped" and contains(x, lambda y: y.op == "lout"):
            ctx.bad(key + ":returned-as-read", F.where(), "a hit that was read is removed again"); return
    for x in subterms(v):
        if x.op != "upd" or not any(y.op == "lout" for y in subterms(x.a[0])): continue
        c = x.a[1]
        n = str(c.a[0]).split("<")[0].split("::")[-1] if c.op == "call" else "?"
        gone = n in ("unique", "remove", "remove_if", "erase", "pop_back", "pop_front", "clear", "resize", "reverse", "sort", "assign", "swap", "popped", "rotate", "shuffle", "stable_sort")
        ctx.ob(key + ":returned-as-read", False if gone else True if n in ("begin", "end", "size", "reserve", "shrink_to_fit", "back", "front", "empty") else None, F.where(), "the hits read are changed by %s before they are returned" % n)
        return
    ctx.ob(key + ":returned-as-read", True if v.op == "lout" else None, F.where(), "returns " + show(v, 3))


def check(ctx):
    P = ctx.program("bliss/file_types/cpnp_files.cpp", "bliss/file_types/detail/")
    fields = [f for f in P.records["bliss::hit"]["fields"]]
    writers = P.byqn.get("bliss::write_hits_to_capnp_file", [])
    if not writers: raise AnalysisError("anchor vanished: bliss::write_hits_to_capnp_file")
    R = P.get("bliss::read_hits_from_capnp_file")
    # ---------------- reader
    ev = ctx.evaluator(P, inline=INL)
    rv = ev.run(R)
    ctx.count("functions_evaluated", 1 + len(ev.inlined))
    pushes = [e for e in ev.effects if e.kind == "call" and e.qn.split("::")[-1] in ("push_back", "emplace_back", "push_front") and e.loops]
    if len(pushes) != 1:
        ctx.ob("reader:one-push", False if not pushes else None, R.where(), "the reader must append exactly one hit per message read (found %d appends)" % len(pushes))
    rslot = {}
    if pushes:
        p = pushes[0]
        L = p.loops[0]
        ex = [c for c in extra_conds(p, L) if not contains(c, lambda x: x.op == "caught")]
        und = not any(contains(c, lambda x: x.op == "call" and "::Reader::get" in str(x.a[0])) for c in ex) and any(not transparent(c, ("Signal::Reader", "Hit::Reader", "capnp::")) for c in ex)
        ctx.ob("reader:every-message-yields-a-hit", True if not ex else None if und else False, p.where(), "a message that was read is dropped when not " + str([show(c) for c in ex]))
        early = [b for b in L.breaks if not any(contains(c, lambda x: x.op == "caught") for c in b)]
        plain = [b for b in early if not [c for c in b if c not in L.entry and not loop_guard(c, (L,))]]
        ctx.ob("reader:reads-to-end-of-file", True if not early else False if plain else None, p.where(), "the read loop is left before the end of the file")
        if L.trip is not None and isnum(L.trip): ctx.bad("reader:bounded-loop", p.where(), "the reader stops after %s messages" % show(L.trip))
        ctx.ob("reader:append-order", p.qn.split("::")[-1] != "push_front", p.where(), "hits are read back in reverse order")
        left_as_read(ctx, "reader", rv, R)
        hv = p.args[-1]
        for f in fields:
            n = f["n"]
            if n in EXEMPT: continue
            v = ev.rec_get(hv, (F(n),))
            s = strip_casts(v)
            get = lambda x: x.op == "call" and str(x.a[0]).startswith("Signal::Reader::get")
            gets = [x for x in subterms(v) if get(x)]
            if get(s):
                rslot[n] = (str(s.a[0])[len("Signal::Reader::get"):], v)
                ctx.ok("hit.%s:restored" % n, p.where())
                lo = lossy(chain(v), "i" if f["t"].isint else "f", f["t"].bits, f["t"].isint) if not (f["t"].isint and "f32" in chain(v)) else []
                ctx.ob("hit.%s:restored-in-full" % n, not lo, p.where(), "attribute %s passes through %s on the way back from the file" % (n, lo))
            elif not transparent(v, ("Signal::Reader", "Hit::Reader", "capnp::")) and v.op != "undef":
                ctx.unknown("hit.%s:restored" % n, p.where(), "value not resolved: " + show(v))
            elif not gets:
                ctx.bad("hit.%s:restored" % n, p.where(), "attribute %s of a hit is never restored from the file (value: %s)" % (n, show(v)))
            else:
                ctx.bad("hit.%s:restored" % n, p.where(), "attribute %s is restored as %s, not the stored value" % (n, show(v)))
    # ---------------- writers
    for W in writers:
        ev = ctx.evaluator(P, inline=INL)
        ev.run(W)
        ctx.count("functions_evaluated", 1 + len(ev.inlined))
        tag = "vector" if "vector" in W.params[0]["t"].s else "list"
        sl = slots(ev.effects, "Signal")
        coll = sym(W.params[0]["n"])
        wr = [e for e in ev.effects if e.kind == "call" and e.qn == "capnp::writeMessageToFd"]
        if not wr:
            ctx.bad("writer<%s>:one-message-per-hit" % tag, W.where(), "no message is written to the file")
            continue
        w = wr[0]
        if len(w.loops) == 1:
            L = w.loops[0]
            ex = extra_conds(w, L)
            good = not ex and L.trip is TT.markint(raw("size", coll)) and not L.breaks and len(wr) == 1
            if not good and (len(wr) > 1 or L.trip is None or not all(transparent(c) for c in ex + [L.trip])): good = None
            ctx.ob("writer<%s>:one-message-per-hit" % tag, good, w.where(), "one message must be written for each hit, unconditionally (loop trip %s, extra conditions %s%s)" % (show(L.trip) if L.trip is not None else "?", [show(c) for c in ex], ", early exit" if L.breaks else ""))
        else:
            ctx.ob("writer<%s>:one-message-per-hit" % tag, False if not w.loops else None, w.where(), "one message must be written for each hit")
        value_of = {}
        for X, es in sl.items():
            e = es[-1]
            ctx.count("slot_stores", len(es))
            un = []
            if len(es) == 1:
                un = extra_conds(e, e.loops[0] if e.loops else None)
            value_of[X] = (e.args[0], e, un, len(es))
            if ev.effects.index(e) > ev.effects.index(w):
                ctx.bad("slot %s<%s>:stored-after-write" % (X, tag), e.where(), "slot is filled after the message was written to the file")
        for f in fields:
            n = f["n"]
            if n in EXEMPT or n not in rslot: continue
            X, rv = rslot[n]
            if X not in value_of:
                ctx.bad("hit.%s<%s>:round-trip" % (n, tag), W.where(), "the reader restores %s from slot %s, which the writer never fills" % (n, X)); continue
            v, e, un, nst = value_of[X]
            want = raw("fld", raw("sel", coll, e.loops[-1].ctr), n) if e.loops else None
            good = same(strip_casts(v), want) if want is not None else None
            if nst > 1 and good is False: good = None
            ctx.ob("hit.%s<%s>:round-trip" % (n, tag), good, e.where(), "slot %s (restored into %s) is filled with %s" % (X, n, show(v)))
            ctx.ob("hit.%s<%s>:unconditional" % (n, tag), not un if not un or all(transparent(c) for c in un) else None, e.where(), "slot %s is only filled when %s" % (X, [show(c) for c in un]))
            # width
            pt = e.fn.pt[0]
            ft = f["t"]
            lo = lossy(chain(v), "i" if pt.isint else "f", pt.bits, ft.isint)
            ctx.ob("hit.%s<%s>:stored-in-full" % (n, tag), not lo, e.where(), "attribute %s passes through %s on the way to slot %s" % (n, lo, X))
            if ft.isint: wide = pt.isint and pt.bits >= 32 or pt.kind == "f" and pt.bits >= 64
            else: wide = pt.kind == "f" and pt.bits >= ft.bits
            if tag == "list":
                ctx.ob("hit.%s:slot-width:%s" % (n, pt.s), wide, e.where(), "%s (%s) is stored in slot %s of type %s and loses precision" % (n, ft.s, X, pt.s))
    seen = {}
    for n, (X, v) in rslot.items():
        if X in seen: ctx.bad("slot %s:read-twice" % X, R.where(), "attributes %s and %s are both restored from slot %s" % (seen[X], n, X))
        seen[X] = n


if __name__ == "__main__":
    main("C01", RULE, check, minimum=5)
