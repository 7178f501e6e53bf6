import sys, os, re; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.rules import *
from c20 import At, Odd
from c28 import Text, happens, unwrap

RULE = ("for each of the ten element types the branch taken when the array has that type walks the array as that type and writes exactly the bytes of each element; a binary stream is opened from the given path without "
        "appending; open, write and read failures raise; reading sizes the array as file length / element size, fills the whole of its own memory from the start of the file and returns it; the front ends forward path and data")
TYPES = {"float": (2, 32), "double": (2, 64), "int8_t": (0, 8), "int16_t": (0, 16), "int32_t": (0, 32), "int64_t": (0, 64), "uint8_t": (1, 8), "uint16_t": (1, 16), "uint32_t": (1, 32), "uint64_t": (1, 64)}
CXX = {"float": "float", "double": "double", "signed char": "int8_t", "short": "int16_t", "int": "int32_t", "long": "int64_t", "unsigned char": "uint8_t", "unsigned short": "uint16_t", "unsigned int": "uint32_t", "unsigned long": "uint64_t",
       "long long": "int64_t", "unsigned long long": "uint64_t"}
CXX.update({k: k for k in TYPES})
BINARY, APP, ATE, TRUNC, OUT, IN = 4, 1, 2, 32, 16, 8


def dtype_of(t):
    """(code, bits) of a datatype that is written out, else None"""
    for x in subterms(t):
        if x.op == "rec":
            d = {}
            for pv in x.a[1:]:
                if len(pv.a) == 2 and pv.a[0].op in ("f", "F") or len(pv.a) == 2: d[str(pv.a[0].a[0]) if pv.a[0].a else str(pv.a[0])] = pv.a[1]
            if "code" in d and "bits" in d and isnum(d["code"]) and isnum(d["bits"]): return int(d["code"].a[0]), int(d["bits"].a[0])
    return None


def leaf(which):
    """the array has the element type which; streams are fine"""
    def f(t):
        if t.op == "call":
            q = str(t.a[0])
            if q.endswith("datatype::operator==") or q.endswith("datatype::operator!="):
                a, b = dtype_of(t.a[1]) if len(t.a) > 2 else None, dtype_of(t.a[-1])
                k = b if b is not None else a
                if k is None: return None
                return (k == which) == q.endswith("==")
            if q.endswith(("basic_ios::operator!", "basic_ios::fail", "basic_ios::bad")): return False
            if q.endswith(("basic_ios::operator bool", "basic_ios::good", "is_open")): return True
        if t.op == "fld" and t.a[1] in ("code", "bits", "lanes") and which is not None: return {"code": which[0], "bits": which[1], "lanes": 1}[t.a[1]]
        return None
    return f


def stream_failed(c):
    """the stream whose failure makes the condition true, or None"""
    neg = False
    while c.op in ("not", "eq0"): neg, c = not neg, c.a[0]
    if c.op != "call": return None
    q = str(c.a[0])
    if q.endswith(("basic_ios::operator!", "basic_ios::fail", "basic_ios::bad")) and not neg: return c.a[1]
    if q.endswith(("basic_ios::operator bool", "basic_ios::good", "is_open")) and neg: return c.a[1]
    return None


def reports(ctx, key, what, th, after, where):
    """some throw happens when the stream failed after (or before) the call named"""
    ok = False
    for e in th:
        s = stream_failed(e.pc[-1]) if e.pc else None
        for c in e.pc:
            f = stream_failed(c)
            if f is None: continue
            used = contains(f, lambda x: x.op == "call" and str(x.a[0]).endswith(("basic_ostream::write", "basic_istream::read", "basic_ofstream::close")) or x.op == "lout")
            if used == after and not e.loops: ok = True
    loose = any("exceptions" in str(x.qn) for x in [])
    ctx.ob("%s: %s" % (key, what), ok, where, "nothing is raised when the stream has failed")


def mode(ctx, key, o, F, allowed, ev=None):
    opens = [e for e in ev.effects if e.kind == "call" and re.search(r"basic_[io]?fstream::open$", e.qn)] if ev else []
    if len(o.a) < 2 and len(opens) == 1 and opens[0].args:      # opened after it was made
        e = opens[0]
        if e.pc: ctx.unknown(key + ": opened", e.where(), "only when %s" % [show(c, 3) for c in e.pc])
        a = list(e.args)
        o = raw("new", o.a[0], *a)
    p = unwrap(o.a[1]) if len(o.a) > 1 else None
    ctx.ob(key + ": the path given", True if p is sym(F.params[[i for i, q in enumerate(F.params) if "string" in q["t"].s][0]]["n"]) else False if p is not None and transparent(p) else None, F.where(), "opens " + (show(p, 3) if p is not None else "nothing"))
    m = strip_all_casts(o.a[2]) if len(o.a) > 2 else None
    try: n = int(Text(lambda t: None)(m)) if m is not None else None
    except (Odd, TypeError): n = None
    if n is not None:
        m = n
        ctx.ob(key + ": opened as a binary file from its start", bool(m & BINARY) and not m & (APP | ATE), F.where(), "opened with mode %d" % m)
    else: ctx.unknown(key + ": mode", F.where(), show(m, 3) if m is not None else "default mode")


def write(ctx, P):
    F = get(ctx, P, "bland::cpu::write_to_file")[0]
    ev, _ = go(ctx, P, F, inline=lambda d: d.qn.startswith(("(anon)", "bland::cpu::write")) or "::" not in d.qn)
    key = "write_to_file"
    op = {e.term for e in ev.effects if e.kind == "call" and e.term is not None for e.term in [e.term]} and [x for e in ev.effects for x in ([e.term] if e.term is not None else []) + list(e.pc) for x in subterms(x) if x.op == "new" and "ofstream" in str(x.a[0])]
    op = list({x.id: x for x in op}.values())
    if len(op) != 1: ctx.unknown(key + ": stream", F.where(), "%d streams" % len(op))
    else: mode(ctx, key, op[0], F, OUT, ev)
    th = [e for e in ev.effects if e.kind == "throw"]
    reports(ctx, key, "a file that cannot be opened is an error", th, False, F.where())
    reports(ctx, key, "a failed write is an error", th, True, F.where())
    io = [e for e in ev.effects if e.kind == "call" and e.qn.endswith("basic_ostream::write")]
    if not io: ctx.bad(key + ": written", F.where(), "nothing is written"); return
    arr = sym(F.params[0]["n"])
    for name, dt in TYPES.items():
        k = "%s of %s" % (key, name)
        at = Text(leaf(dt))
        live = [(e, happens([c for c in e.pc if not loop_guard(c, e.loops) and (c in e.loops[0].entry if e.loops else True)], at)) for e in io]
        yes = [e for e, h in live if h]
        if any(h is None for _, h in live): ctx.unknown(k, F.where(), "branches not decided"); continue
        ctx.count("types")
        if len(yes) != 1: ctx.bad(k, F.where(), "%s for an array of this type" % ("nothing is written" if not yes else "%d writes happen" % len(yes))); continue
        e = yes[0]
        src = [x for x in ev.effects if x.kind == "call" and x.qn.endswith("ndarray::data_ptr") and happens(x.pc, at)]
        tys = {CXX.get(x.ta[0].replace("std::", ""), x.ta[0]) if x.ta else "?" for x in src}
        if tys: ctx.ob(k + ": read as that type", tys == {name} if tys <= set(TYPES) else None, e.where(), "the array is read as %s" % ", ".join(sorted(tys)))
        n = strip_all_casts(e.args[1])
        try: n = int(at(n))
        except Exception: n = None
        ctx.ob(k + ": bytes of an element", None if n is None else n == dt[1] // 8 if e.loops else None, e.where(), "%s bytes are written of an element of %d" % (n, dt[1] // 8))
        val = e.pts[0] if e.pts else None
        if val is not None:
            isarr = lambda x: x.op == "call" and str(x.a[0]).startswith("bland::ndarray::data_ptr")
            plain = e.args[0].op != "ref" or val.op in ("sel", "mem", "deref", "itr", "ref", "addr") and contains(val, isarr) and not contains(val.a[0], lambda x: x.op == "cast")
            ctx.ob(k + ": the element as it is", True if plain else False if contains(val, isarr) and not contains(val, lambda x: x.op in ("undef", "lout", "upd")) else None, e.where(), "%s is written" % show(val, 4))
        h = [x for x in th if happens(x.pc, at)]
        ctx.ob(k + ": accepted", not h, (h[0] if h else F).where(), "refused")
        L = e.loops[0] if e.loops else None
        if L is not None:
            t = strip_all_casts(L.trip) if L.trip is not None else None
            ex = [c for c in extra_conds(e, L) if c not in L.entry]
            full = t is not None and (t.op == "call" and str(t.a[0]).endswith("ndarray::numel") or t.op == "call" and t.a[0] == "product_of" and contains(t.a[1], lambda x: x.op == "call" and str(x.a[0]).endswith("ndarray::shape")))
            known = t is not None and (isnum(t) or t.op in ("poly", "sel", "min", "max", "size") and not contains(t, lambda x: x.op in ("undef", "unk", "lout", "iter")))
            ctx.ob(k + ": every element", True if full and not ex and not L.breaks else False if full and ex or full and L.breaks or known else None, e.where(), "elements 0..%s are written%s" % (show(t, 4) if t is not None else "?", ", when %s" % [show(c, 4) for c in ex] if ex else ""))
    for dt in ((3, 32), (2, 16), (5, 64)):
        at = Text(leaf(dt))
        h = [happens(e.pc, at) for e in th]
        ctx.ob("%s: type (%d, %d) is refused" % (key, dt[0], dt[1]), True if True in h else None if None in h else False, F.where(), "an array of an unsupported type leaves an empty file without an error")


def read(ctx, P):
    F = get(ctx, P, "bland::cpu::read_from_file")[0]
    ev, v = go(ctx, P, F, inline=lambda d: d.qn.startswith("(anon)") or "::" not in d.qn)
    key = "read_from_file"
    op = list({x.id: x for e in ev.effects for y in ([e.term] if e.term is not None else []) for x in subterms(y) if x.op == "new" and "ifstream" in str(x.a[0])}.values())
    if len(op) != 1: ctx.unknown(key + ": stream", F.where(), "%d streams" % len(op))
    else: mode(ctx, key, op[0], F, IN, ev)
    th = [e for e in ev.effects if e.kind == "throw"]
    reports(ctx, key, "a file that cannot be opened is an error", th, False, F.where())
    reports(ctx, key, "a failed read is an error", th, True, F.where())
    io = [e for e in ev.effects if e.kind == "call" and e.qn.endswith("basic_istream::read")]
    if len(io) != 1: ctx.ob(key + ": reads", False if not io else None, F.where(), "%d reads" % len(io)); return
    e = io[0]
    mk = [x for x in ev.effects if x.kind == "call" and x.term is not None and x.term.op == "new" and str(x.term.a[0]) == "bland::ndarray"]
    if len(mk) != 1: ctx.unknown(key + ": the array", F.where(), "%d arrays" % len(mk)); return
    arr = mk[0].term
    shape = arr.a[1]
    length = lambda t: t.op == "call" and (str(t.a[0]).endswith("operator long") or str(t.a[0]).endswith("file_length"))
    ends = [x for x in ev.effects if x.kind == "call" and x.qn.endswith("basic_istream::seekg") and len(x.args) == 2]
    if ends: ctx.ob(key + ": length of the file", True if isnum(ends[0].args[0]) and int(ends[0].args[0].a[0]) == 0 and isnum(strip_all_casts(ends[0].args[1])) and int(strip_all_casts(ends[0].args[1]).a[0]) == 2 else False if all(isnum(strip_all_casts(x)) for x in ends[0].args) else None, ends[0].where(), "the length is taken at %s" % [show(x, 3) for x in ends[0].args])
    dn = F.params[1]["n"]
    ctx.ob(key + ": element type", True if any(x is sym(dn) for x in arr.a[2:]) else False if len(arr.a) > 2 and transparent(arr.a[2]) else None, mk[0].where(), "the array has another type than asked for")
    if shape.op == "vec" and len(shape.a) == 1:
        for name, dt in TYPES.items():
            for nbytes in sorted({0, dt[1] // 8, 40 * dt[1] // 8, 40 * dt[1] // 8 + 1, 41 * dt[1] // 8 - 1, 2 ** 34}):
                f = leaf(dt)
                at = Text(lambda t: nbytes if length(t) else f(t))
                k = "%s: %s from %d bytes" % (key, name, nbytes)
                try: n = at(shape.a[0]); m = at(e.args[1])
                except (Odd, TypeError, ValueError, KeyError): ctx.unknown(k, F.where(), "size not decided"); continue
                want = nbytes // (dt[1] // 8)
                ctx.ob(k, int(n) == want, mk[0].where(), "the array has %s elements, the file %s" % (n, want))
                ctx.ob(k + ": all read", int(m) == want * (dt[1] // 8), e.where(), "%s of %s bytes are read" % (m, want * (dt[1] // 8)))
    else: ctx.unknown(key + ": shape", mk[0].where(), show(shape, 3))
    d = e.args[0]
    ctx.ob(key + ": into the array", True if d.op == "call" and str(d.a[0]).startswith("bland::ndarray::data_ptr") and contains(d, lambda x: x is arr) else None, e.where(), "reads into " + show(d, 3))
    ctx.ob(key + ": returns the array", True if v is not None and contains(v, lambda x: x is arr) else None, F.where(), "returns " + (show(v, 3) if v is not None else "?"))
    # position of the stream when it reads: everything seeked to the end came back
    back = [x for x in ev.effects if x.kind == "call" and x.qn.endswith("seekg")]
    if back:
        last = back[-1]
        a = [strip_all_casts(x) for x in last.args]
        start = len(a) == 1 and (a[0].op == "call" and str(a[0].a[0]).endswith("tellg") and not contains(a[0], lambda x: x.op == "call" and str(x.a[0]).endswith("seekg")) or isnum(a[0]) and a[0].a[0] == 0) or len(a) == 2 and all(isnum(x) and x.a[0] == 0 for x in a)
        ctx.ob(key + ": from the start of the file", True if start else False if last is ends[0] or all(isnum(x) for x in a) else None, last.where(), "reading starts at %s" % [show(x, 3) for x in a])


def fronts(ctx, P):
    for q, c in (("bland::write_to_file", "bland::cpu::write_to_file"), ("bland::read_from_file", "bland::cpu::read_from_file")):
        F = get(ctx, P, q)[0]
        ev, v = go(ctx, P, F, inline=lambda d: False)
        key = q
        es = [e for e in ev.effects if e.kind == "call" and e.qn == c]
        if len(es) != 1: ctx.ob(key + ": forwarded", False if not es else None, F.where(), "%d calls" % len(es)); continue
        e = es[0]
        ps = [p["n"] for p in F.params]
        pi = next(i for i, p in enumerate(F.params) if "string" in p["t"].s)
        ctx.ob(key + ": path", True if unwrap(e.args[pi]) is sym(ps[pi]) else False if transparent(unwrap(e.args[pi])) else None, e.where(), "given " + show(e.args[pi], 3))
        o = 1 - pi
        a = e.args[o]
        while a.op == "call" and str(a.a[0]).startswith("bland::ndarray::to") or a.op == "upd": a = a.a[1] if a.op == "call" else a.a[0]
        ctx.ob(key + ": the other argument", True if a is sym(ps[o]) else False if transparent(a) else None, e.where(), "given " + show(e.args[o], 3))
        ctx.ob(key + ": always", True if not e.pc else False if all(transparent(c) or contains(c, lambda x: x.op == "call" and str(x.a[0]).startswith("bland::ndarray")) for c in e.pc) else None, e.where(), "only when %s" % [show(x, 3) for x in e.pc])
        if "read" in q: ctx.ob(key + ": returns what was read", True if v is e.term else None, F.where(), "")


def check(ctx):
    P = ctx.program("bland/ops/cpu/ops_cpu.cpp", "bland/ops/ops.cpp")
    write(ctx, P)
    read(ctx, P)
    fronts(ctx, P)


if __name__ == "__main__":
    main("C30", RULE, check, minimum=10)
