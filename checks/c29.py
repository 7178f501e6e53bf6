import sys, os, re; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.rules import *
from c01 import left_as_read

RULE = ("the writer stores exactly one message per event, in order, whose list has one place per hit of that event, and gives the hit codec each place once together with the hit of that position; "
        "the reader makes one event per message and appends each decoded place of its list once, in order, dropping none, and returns the list as it filled it")
CAP = ("capnp::", "Event::", "Hit::", "Signal::", "kj::")


def bulk(ev, L): return strip_all_casts(L.trip) if L.trip is not None else None


def counted(L):
    """the loop is left when enough has been read, which is not a matter of what the file says"""
    lim = lambda c: c.op in ("eq0", "lt0", "le0", "not") and contains(c, lambda x: x.op == "size" or x.op == "ctr" and x is L.ctr) and not contains(c, lambda x: x.op == "call" and "tryGetReadBuffer" in str(x.a[0]))
    return any(any(lim(c) for c in b) for b in L.breaks)


def narrow(ev, t):
    """the number passes through an integer of less than 32 bits"""
    cut = lambda x: x.op == "cast" and str(x.a[0]) in ("i8", "i16", "u8", "u16")
    for x in subterms(t):
        if cut(x): return True
        if x.op == "iter":
            L = ev.allloops.get(x.a[0])
            if L is not None and any(L.iter[k] is x and k in L.next and contains(L.next[k], cut) for k in L.iter): return True
    return False


def writer(ctx, P):
    F = get(ctx, P, "bliss::write_events_to_file")[0]
    ev, _ = go(ctx, P, F, inline=lambda d: (B(d) or d.qn.startswith("(anon)")) and not d.qn.endswith(("bliss_hit_to_capnp_signal_message", "raii_file_for_write")))
    events = sym(F.params[0]["n"])
    wr = [e for e in ev.effects if e.kind == "call" and e.qn == "capnp::writeMessageToFd"]
    if not wr: ctx.bad("writer: one message per event", F.where(), "no message is written"); return
    if len(wr) > 1: ctx.unknown("writer: one message per event", F.where(), "%d writes" % len(wr)); return
    w = wr[0]
    if len(w.loops) != 1: ctx.ob("writer: one message per event", False if not w.loops else None, w.where(), "messages are written in %d loops" % len(w.loops)); return
    L = w.loops[0]
    full = bulk(ev, L)
    ex = extra_conds(w, L)
    good = full is TT.markint(raw("size", events)) and not ex and not L.breaks
    ctx.ob("writer: one message per event", good or (False if full is not None and all(transparent(c) for c in ex + [full]) else None), w.where(), "messages for events 0..%s, only when %s%s" % (show(full, 3) if full is not None else "?", [show(c, 4) for c in ex], ", stopping early" if L.breaks else ""))
    ini = [e for e in ev.effects if e.kind == "call" and e.qn == "Event::Builder::initHits"]
    if len(ini) != 1: ctx.ob("writer: one list per event", False if not ini else None, F.where(), "%d lists are started" % len(ini)); return
    n = strip_all_casts(ini[0].args[-1])
    enc = [e for e in ev.effects if e.kind == "call" and e.qn.endswith("bliss_hit_to_capnp_signal_message")]
    if not enc: ctx.bad("writer: hits stored", F.where(), "no hit of an event is stored"); return
    mine = lambda t: contains(t, lambda x: x.op == "sel" and x.a[0] is events and same(strip_all_casts(x.a[1]), L.ctr) is True)
    for e in enc:
        ctx.count("hit_stores")
        inner = [l for l in e.loops if l is not L]
        if L not in e.loops or len(inner) != 1: ctx.unknown("writer: hits stored", e.where(), "loops not recognised"); continue
        K = inner[0]
        t = bulk(ev, K)
        hits = t.a[0] if t is not None and t.op == "size" else None
        ctx.ob("writer: hits of this event", True if hits is not None and mine(hits) and hits.op == "fld" and hits.a[1] == "hits" else None if t is None or not transparent(t) else False, e.where(), "the hits stored are %s" % (show(t, 5) if t is not None else "?"))
        if hits is None: continue
        ex = extra_conds(e, K)
        ctx.ob("writer: every hit", not ex and not K.breaks or (False if all(transparent(c) for c in ex) else None), e.where(), "a hit is stored only when %s%s" % ([show(c, 4) for c in ex], ", and the loop can stop early" if K.breaks else ""))
        ctx.ob("writer: a place for every hit", True if n is t else False if transparent(n) else None, ini[0].where(), "the list has %s places for %s hits" % (show(n, 4), show(t, 4)))
        v = strip_all_casts(e.args[-1])
        ctx.ob("writer: the hit of that position", True if v.op == "sel" and v.a[0] is hits and strip_all_casts(v.a[1]) is K.ctr else False if transparent(v) else None, e.where(), "stores " + show(v, 4))
        pl = [x for x in subterms(e.args[0]) if x.op == "call" and str(x.a[0]).endswith("List::Builder::operator[]")]
        if len(pl) != 1: ctx.unknown("writer: own place", e.where(), show(e.args[0], 4)); continue
        i = strip_all_casts(pl[0].a[2])
        ctx.ob("writer: own place", True if i is K.ctr else False if transparent(i) else None, e.where(), "hit %s is stored at place %s" % (show(K.ctr, 3), show(i, 4)))
        ctx.ob("writer: position wide enough", False if narrow(ev, pl[0].a[2]) or narrow(ev, ini[0].args[-1]) else True, e.where(), "positions are counted in less than 32 bits")
        ctx.ob("writer: own list", True if contains(pl[0].a[1], lambda x: x is ini[0].term) else None, e.where(), "stored in " + show(pl[0].a[1], 4))
        # what the place is reset by afterwards
    for e in ev.effects:
        if e.kind == "call" and e.qn == "Hit::Builder::initSignal" and e.loops:
            same_place = [x for x in ev.effects if x.kind == "call" and x.qn == e.qn]
            ctx.ob("writer: place filled once", len(same_place) == 1 or None, e.where(), "a place is started more than once")


def reader(ctx, P):
    F = get(ctx, P, "bliss::read_events_from_file")[0]
    ev, v = go(ctx, P, F, inline=lambda d: (B(d) or d.qn.startswith("(anon)")) and not d.qn.endswith(("capnp_signal_message_to_bliss_hit", "raii_file_for_read")))
    APP = ("push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace")
    dec = [e for e in ev.effects if e.kind == "call" and e.qn.endswith("capnp_signal_message_to_bliss_hit")]
    if not dec: ctx.bad("reader: hits decoded", F.where(), "no hit is decoded"); return
    app = [e for e in ev.effects if e.kind == "call" and e.qn.split("::")[-1] in APP and e.loops and e.qn.startswith("std::")]
    outer = [e for e in app if len(e.loops) == 1]
    inner = [e for e in app if len(e.loops) == 2]
    left_as_read(ctx, "reader", v, F)
    # the events
    twice = len(outer) == 2 and outer[0].loops == outer[1].loops and outer[0].pc == outer[1].pc and not [e for e in outer if "insert" in e.qn]
    if len(outer) != 1: ctx.ob("reader: one event per message", False if not outer or twice else None, F.where(), "%d appends of an event" % len(outer)); return
    o = outer[0]; L = o.loops[0]
    ex = [c for c in extra_conds(o, L) if not contains(c, lambda x: x.op == "caught")]
    ctx.ob("reader: one event per message", True if not ex else False if all(free(c) or contains(c, lambda x: x.op == "size") for c in ex) else None, o.where(), "an event that was read is kept only when %s" % [show(c, 5) for c in ex])
    ctx.ob("reader: events in order", o.qn.split("::")[-1] in ("push_back", "emplace_back"), o.where(), "the order of events is reversed")
    ctx.ob("reader: all events", not L.breaks if not L.breaks or counted(L) else None, F.where(L.line), "reading can stop before the end of the file")
    # their hits
    if len(inner) != 1: ctx.ob("reader: every hit kept", False if not inner else None, F.where(), "%d appends of a hit" % len(inner)); return
    a = inner[0]; K = a.loops[1]
    ex = [c for c in extra_conds(a, K) if not contains(c, lambda x: x.op == "caught")]
    und = any(contains(c, lambda x: x.op in ("undef", "unk", "lout")) for c in ex)
    ctx.ob("reader: every hit kept", True if not ex else None if und else False, a.where(), "a hit that was read is kept only when %s" % [show(c, 5) for c in ex])
    ctx.ob("reader: hits in order", a.qn.split("::")[-1] in ("push_back", "emplace_back"), a.where(), "the order of hits is reversed")
    ctx.ob("reader: the hit decoded", True if strip_all_casts(a.args[-1]) is dec[-1].term or a.args[-1].op == "call" and str(a.args[-1].a[0]).endswith("capnp_signal_message_to_bliss_hit") else None, a.where(), "appends " + show(a.args[-1], 4))
    ctx.ob("reader: all hits", not K.breaks if not K.breaks or counted(K) else None, F.where(K.line), "reading the hits of an event can stop early")
    src = [x for x in subterms(dec[-1].term) if x.op == "call" and str(x.a[0]) == "Event::Reader::getHits"]
    # iterator from the beginning to the end, or every index
    trip = bulk(ev, K)
    if trip is not None:
        good = trip.op == "call" and trip.a[0] == "capnp::List::Reader::size"
        ctx.ob("reader: whole list", good or (False if transparent(trip, CAP) else None), F.where(K.line), "places 0..%s are read" % show(trip, 4))
        sel = [x for x in subterms(dec[-1].term) if x.op == "call" and "Reader::operator[]" in str(x.a[0])]
        if sel: ctx.ob("reader: own place", True if strip_all_casts(sel[0].a[2]) is K.ctr else False if transparent(strip_all_casts(sel[0].a[2])) else None, a.where(), "place %s is read" % show(sel[0].a[2], 4))
    else:
        it = [x for x in K.iter.values() if contains(K.cond, lambda y: y is x)] if K.cond is not None else []
        k = next((k for k in K.iter if it and K.iter[k] is it[0]), None)
        ini = K.init.get(k) if k is not None else None
        if ini is None: ctx.unknown("reader: whole list", F.where(K.line), "loop not recognised"); return
        nm = lambda t: str(t.a[0]).split("::")[-1] if t.op == "call" else t.op
        ctx.ob("reader: from the first place", True if nm(ini) == "begin" else False if transparent(ini, CAP) or nm(ini) in ("operator+", "end", "next") else None, F.where(K.line), "reading starts at " + show(ini, 4))
        ends = [x for x in subterms(K.cond) if x.op == "call" and str(x.a[0]).endswith("Reader::end")]
        c = K.cond
        ne_ = c.op == "call" and str(c.a[0]).endswith("operator!=") and any(strip_all_casts(x) is ends[0] for x in c.a[1:]) if ends else False
        ctx.ob("reader: to the last place", True if ne_ else False if transparent(c, CAP) and not contains(c, lambda x: x.op in ("iter", "upd")) else None, F.where(K.line), "reading goes on while " + show(c, 4))
        nx = K.next.get(k)
        if nx is not None:
            st = nx.op in ("itnext",) and nx.a[0] is it[0] or nx.op in ("upd",) and nx.a[0] is it[0] and nm(nx.a[1]) == "operator++" and not contains(nx.a[0], lambda x: x.op == "upd") or nm(nx) == "operator++"
            ctx.ob("reader: place by place", True if st else None, F.where(K.line), "the next place is " + show(nx, 4))


def check(ctx):
    P = ctx.program("bliss/file_types/events_file", "bliss/file_types/detail/")
    writer(ctx, P)
    reader(ctx, P)


if __name__ == "__main__":
    main("C29", RULE, check, minimum=5)
