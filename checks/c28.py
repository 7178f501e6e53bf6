import sys, os, re; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.rules import *
from c20 import At, Odd
from c24 import walk

RULE = ("the path conditions of the format decision, evaluated over requested formats x file names, select exactly the writer or reader that format or suffix stands for, with the caller's scan and path; "
        "each file is opened once from the given path, created, emptied and checked before use, and the opened descriptor is the one used; no handler swallows an error of a message read or written, "
        "reading stops only when no byte is left, and every write() result is examined: an error raises, a partial write continues with the rest")
PATHS = ["", "a", "hits", "dat", "capnp", "cp", ".dat", ".cp", "x.dat", "x.cp", "x.capnp", "a.dat.bak", "a.capnp.dat", "a.dat.capnp", "a.dat.cp", "acp", "adat", "a.capnpx", "x.cpx", "out.DAT", "d.dat/x", "d.cp/x.dat", "dir/hits.capnp", "x.dat ", "x.h5", "-", "a.cp.", ".capnp", "x.dat.cpp"]
WRITE_NAMES = {"dat": "dat", "capnp": "capnp"}


def of_path(p):
    return "dat" if p.endswith(".dat") else "capnp" if p.endswith((".capnp", ".cp")) else "capnp"


class Text(At):
    """closed terms over strings"""

    def __call__(self, t):
        t0 = t
        v = self.leaf(t)
        if v is not None: return v
        o = t.op
        if o == "eq0":      # sizes wrap: npos is also -1
            v = self(t.a[0])
            return int(v) % 2 ** 64 == 0 if not isinstance(v, (float, str)) and v == int(v) else v == 0
        if o == "str": return str(t.a[0])
        if o == "size":
            v = self(t.a[0])
            if isinstance(v, str): return len(v)
        if o in ("eq", "eq2", "sameas") or o == "call" and str(t.a[0]).split("::")[-1] in ("operator==",):
            return self(t.a[-2]) == self(t.a[-1])
        if o == "cast" and re.match(r"[iu](8|16|32)$", str(t.a[0])):      # kept in fewer bits
            b = int(str(t.a[0])[1:]); v = int(self(t.a[-1])) % 2 ** b
            return v - 2 ** b if str(t.a[0])[0] == "i" and v >= 2 ** (b - 1) else v
        if o == "call" and str(t.a[0]).split("::")[-1] == "operator|" and len(t.a) == 3: return int(self(t.a[1])) | int(self(t.a[2]))
        if o == "bit|": return int(self(t.a[0])) | int(self(t.a[1]))
        if o in ("and", "or"):      # operands are unordered: one of them decides even if another has no value
            odd = None
            for x in t.a:
                try: v = bool(self(x))
                except Odd as e: odd = e; continue
                if v == (o == "or"): return v
            if odd is not None: raise odd
            return o == "and"
        if o == "cat": return "".join(self(x) for x in t.a)
        if o in ("upd",): return self(t.a[0])
        if o == "ctor" or o == "new" and re.match(r"std::(__cxx11::)?basic_string", str(t.a[0])) and len(t.a) == 2: return self(t.a[-1])
        if o == "call":
            q = str(t.a[0]); n = q.split("::")[-1]
            if q.startswith(("std::basic_string", "std::__cxx11::basic_string", "std::string")):
                s = self(t.a[1]); a = [self(x) for x in t.a[2:]]
                if not isinstance(s, str): raise Odd("not text: " + show(t, 3))
                if n == "compare":
                    if len(a) == 1: x, y = s, a[0]
                    elif len(a) == 3 and isinstance(a[2], str):
                        if not 0 <= a[0] <= len(s): raise Odd("compare outside the text")
                        x, y = s[int(a[0]):int(a[0]) + int(a[1])], a[2]
                    else: raise Odd("compare")
                    return (x > y) - (x < y)
                if n == "substr":
                    p = int(a[0]) if a else 0
                    if not 0 <= p <= len(s): raise Odd("substr outside the text")
                    return s[p:] if len(a) < 2 or a[1] < 0 or a[1] > len(s) else s[p:p + int(a[1])]
                if n in ("find", "rfind", "find_last_of") and len(a) in (1, 2):
                    w = chr(int(a[0])) if isinstance(a[0], (int, float)) else a[0]
                    if n == "find_last_of" and len(w) != 1: raise Odd(n)
                    k = s.find(w, int(a[1]) if len(a) == 2 else 0) if n == "find" else s.rfind(w) if len(a) == 1 else s.rfind(w, 0, int(a[1]) + len(w))
                    return k if k >= 0 else 2 ** 64 - 1
                if n in ("empty",): return not s
                if n in ("size", "length"): return len(s)
                if n in ("data", "c_str", "operator basic_string_view", "str", "basic_string", "basic_string_view"): return s
            if n in ("ends_with", "starts_with") and len(t.a) == 3:
                a, b = self(t.a[1]), self(t.a[2])
                return a.endswith(b) if n == "ends_with" else a.startswith(b)
        return At.__call__(self, t0)

    def again(self, leaf): return Text(leaf)


def happens(pc, at):
    """the condition at these values; None if not known"""
    r = True
    for c in atoms(pc):
        try: v = at(c)
        except (Odd, TypeError, KeyError, IndexError, ValueError, AttributeError): v = None
        if v is False or v == 0 and v is not None and not v: return False
        if v is None: r = None
    return r


def textleaf(**kw):
    d = {k: v for k, v in kw.items()}
    return lambda t: d.get(t.a[0]) if t.op == "sym" else None


def names_of(t): return str(t.a[0]) if t.op == "call" else ""


def unwrap(v):
    """conversions between kinds of text are not a change"""
    while True:
        v = strip_all_casts(v)
        if v.op == "call" and str(v.a[0]).split("::")[-1] in ("data", "c_str", "operator basic_string_view", "basic_string_view", "basic_string") and len(v.a) == 2: v = v.a[1]
        elif v.op == "new" and "basic_string" in str(v.a[0]) and len(v.a) == 2: v = v.a[1]
        else: return v


def dispatch_write(ctx, P):
    fs = [F for q in ("bliss::write_scan_hits_to_file", "bliss::write_hits_to_file") for F in P.byqn.get(q, []) if F.body is not None]
    if not any(F.qn.endswith("scan_hits_to_file") for F in fs): raise AnalysisError("anchor vanished: bliss::write_scan_hits_to_file")
    for F in fs:
        key = F.qn.split("::")[-1]
        ps = [p["n"] for p in F.params]
        ev, _ = go(ctx, P, F, inline=lambda d: B(d) and not re.search(r"to_(dat|capnp)_file", d.qn))
        w = [e for e in ev.effects if e.kind == "call" and re.search(r"write_.*to_(dat|capnp)_file", e.qn)]
        if not w: ctx.ob(key + ": writes", False, F.where(), "no writer is called"); continue
        for e in w:
            ctx.count("call_sites")
            a = [unwrap(x) for x in e.args]
            for i, what in ((0, "hits"), (1, "path")):
                good = a[i] is sym(ps[i]) if i < len(a) else False
                ctx.ob("%s: %s gets the caller's %s" % (key, e.qn.split("::")[-1], what), True if good else False if i >= len(a) or transparent(a[i]) else None, e.where(), "given %s" % (show(a[i], 4) if i < len(a) else "nothing"))
        for fmt in ("", "dat", "capnp"):
            for p in PATHS:
                want = fmt or of_path(p)
                at = Text(textleaf(**{ps[1]: p, ps[2]: fmt}))
                did = [(e, happens(e.pc, at)) for e in w]
                yes = [re.search(r"to_(dat|capnp)_file", e.qn).group(1) for e, h in did if h]
                mayb = any(h is None for e, h in did)
                ctx.count("cases")
                ok = yes == [want] and not mayb
                ctx.ob("%s: format '%s' path '%s'" % (key, fmt, p), True if ok else None if mayb else False, (did[0][0] if not yes else next(e for e, h in did if h)).where(), "hits written as %s, not %s" % (yes or "nothing", want))


def dispatch_read(ctx, P):
    for q in ("bliss::read_hits_from_file", "bliss::read_scan_hits_from_file"):
        F = get(ctx, P, q)[0]
        key = q.split("::")[-1]
        ps = [p["n"] for p in F.params]
        ev, v = go(ctx, P, F, inline=lambda d: B(d) and not re.search(r"from_(dat|capnp)_file", d.qn))
        r = [e for e in ev.effects if e.kind == "call" and re.search(r"read_.*from_(dat|capnp)_file", e.qn)]
        th = [e for e in ev.effects if e.kind == "throw"]
        for e in r:
            ctx.count("call_sites")
            a = unwrap(e.args[0])
            ctx.ob("%s: %s gets the path" % (key, e.qn.split("::")[-1]), True if a is sym(ps[0]) else False if transparent(a) else None, e.where(), "given " + show(a, 4))
            want = "bliss::read_%s_from_capnp_file" % ("scan_hits" if "scan" in key else "hits")
            ctx.ob("%s: reader" % key, e.qn == want or "dat" in e.qn, e.where(), "reads with %s" % e.qn)
        for fmt in ("", "capnp", "dat", "turboseti", "xyz", "Capnp", "capnp "):
            for p in PATHS[:14]:
                at = Text(textleaf(**{ps[0]: p, ps[1]: fmt}))
                ctx.count("cases")
                rd = [(e, happens(e.pc, at)) for e in r]; tx = [(e, happens(e.pc, at)) for e in th]
                und = any(h is None for _, h in rd + tx)
                k = "%s: format '%s' path '%s'" % (key, fmt, p)
                if fmt in ("", "capnp"):
                    got = [e for e, h in rd if h]
                    ctx.ob(k, True if len(got) == 1 and "capnp" in got[0].qn and not any(h for _, h in tx) and not und else None if und else False, (got[0] if got else F).where(), "not read as Cap'n Proto: %s" % ([e.qn for e in got] or "refused"))
                else:
                    ctx.ob(k, True if any(h for _, h in tx) else None if und else False, F.where(), "a format that cannot be read is accepted")
        # what was read is returned
        for fmt in ("", "capnp"):
            tok = object()
            def leaf(t):
                if t.op == "call" and re.search(r"read_.*from_capnp_file", str(t.a[0])): return (tok,)
                return textleaf(**{ps[0]: "x", ps[1]: fmt})(t)
            try: got = Text(leaf)(v) == (tok,) if v is not None else False
            except Exception: got = None
            ctx.ob("%s: format '%s' returns what was read" % (key, fmt), got, F.where(), "something else is returned: " + (show(v, 3) if v is not None else "?"))


def opens(ctx, P):
    """every function of the file types that writes or reads a whole file"""
    done = set()
    for F in [f for fs in P.byqn.values() for f in fs if f.body is not None and re.match(r"bliss::(write|read)_.*(_file|_files)$", f.qn) and f.where().startswith("bliss/file_types/")]:
        if re.search(r"(hits_to_file|hits_from_file)$", F.qn): continue
        writing = F.qn.split("::")[-1].startswith("write")
        key = F.qn.split("::")[-1] + ("<%s>" % re.sub(r".*::", "", F.params[0]["t"].s.split("<")[0]) if len(P.byqn[F.qn]) > 1 else "")
        pname = next((p["n"] for p in F.params if "string" in p["t"].s), None)
        if pname is None: ctx.unknown(key + ": opened", F.where(), "no path parameter"); continue
        ev, _ = go(ctx, P, F, inline=lambda d: d.qn.startswith("bliss::detail::raii") or "::" not in d.qn or d.qn.startswith("(anon)"))
        op = [e for e in ev.effects if e.kind == "call" and e.qn in ("open", "open64", "creat", "fopen")]
        use = [e for e in ev.effects if e.kind == "call" and (e.qn in ("write", "capnp::writeMessageToFd") or re.search(r"(kj::FdInputStream::FdInputStream|StreamFdMessageReader::StreamFdMessageReader|stdio_filebuf::stdio_filebuf|raii_file_for_write::write_all)$", e.qn))]
        if len(op) != 1 or op[0].qn not in ("open", "open64") or op[0].loops:
            ctx.ob(key + ": opened", None, F.where(), "%d calls that open a file" % len(op)); continue
        o = op[0]; ctx.count("files")
        a = unwrap(o.args[0])
        ctx.ob(key + ": opens the given path", True if a is sym(pname) else False if transparent(a) else None, o.where(), "opens " + show(a, 4))
        fl = strip_all_casts(o.args[1])
        if isnum(fl):
            fl = int(fl.a[0]); acc = fl & os.O_ACCMODE
            if writing:
                ctx.ob(key + ": replaces an earlier file", bool(acc in (os.O_WRONLY, os.O_RDWR) and fl & os.O_CREAT and fl & os.O_TRUNC and not fl & (os.O_APPEND | os.O_EXCL)), o.where(), "opened with flags %s" % oct(fl))
                md = strip_all_casts(o.args[2]) if len(o.args) > 2 else None
                if md is None or isnum(md): ctx.ob(key + ": owner can read and write it", md is not None and int(md.a[0]) & 0o600 == 0o600, o.where(), "created with mode %s" % (oct(int(md.a[0])) if md is not None else "?"))
            else:
                ctx.ob(key + ": opened for reading", acc in (os.O_RDONLY, os.O_RDWR) and not fl & (os.O_TRUNC | os.O_CREAT), o.where(), "opened with flags %s" % oct(fl))
        else: ctx.unknown(key + ": flags", o.where(), show(fl, 4))
        failed = Text(lambda t: -1 if t is o.term else None)
        opened = Text(lambda t: 5 if t is o.term else None)
        th = [e for e in ev.effects if e.kind == "throw"]
        h = [happens([c for c in e.pc if contains(c, lambda x: x is o.term)], failed) for e in th if any(contains(c, lambda x: x is o.term) for c in e.pc)]
        ctx.ob(key + ": a file that cannot be opened is an error", True if any(x for x in h) else None if None in h else False, o.where(), "nothing is raised when open() fails")
        h = [happens(e.pc, opened) for e in th if e.pc and all(contains(c, lambda x: x is o.term) for c in e.pc)]
        ctx.ob(key + ": an opened file is used", False if True in h else True, o.where(), "a valid descriptor is refused")
        if not use: ctx.ob(key + ": used", None, F.where(), "no use of the file found"); continue
        for e in use:
            ctx.count("file_uses")
            fd = e.obj if e.qn.endswith("write_all") else e.args[0]
            if e.qn.endswith("write_all"): good = None if e.term is None else contains(e.term, lambda x: x is o.term) or None
            else: good = strip_all_casts(fd) is o.term
            if good is None: continue
            ctx.ob("%s: %s@%d uses the opened file" % (key, e.qn.split("::")[-1], use.index(e)), True if good else False if transparent(strip_all_casts(fd)) else None, e.where(), "given " + show(fd, 4))
            h = happens([c for c in e.pc if contains(c, lambda x: x is o.term)], failed)
            ctx.ob("%s: %s@%d only after a successful open" % (key, e.qn.split("::")[-1], use.index(e)), h is False, e.where(), "used although open() failed") if h is not None else None
        if writing:
            m = [e for e in ev.effects if e.kind == "call" and e.qn == "capnp::writeMessageToFd"]
            for e in m:
                ex = [c for c in atoms(e.pc) if not contains(c, lambda x: x is o.term) and not loop_guard(c, e.loops)]
                if "dat" not in key: ctx.ob("%s: written in every case@%d" % (key, m.index(e)), True if not ex else False if all(free(c) for c in ex) else None, e.where(), "only when %s" % [show(c, 4) for c in ex])
        stops(ctx, ev, F, key) if not writing else None


def stops(ctx, ev, F, key):
    """a loop over messages ends only where the file ends"""
    rd = [e for e in ev.effects if e.kind == "call" and re.search(r"MessageReader::\w*MessageReader$", e.qn) and e.loops]
    for e in rd:
        L = e.loops[0]
        ctx.count("reading_loops")
        size = lambda x: x.op == "call" and str(x.a[0]).endswith("ArrayPtr::size") and contains(x, lambda y: y.op == "call" and str(y.a[0]).endswith("tryGetReadBuffer"))
        conds = [L.cond] if L.cond is not None and not (isnum(L.cond) and L.cond.a[0]) else []
        brk = [[c for c in b if c not in L.entry and not loop_guard(c, (L,))] for b in L.breaks]
        k = key + ": reads until no byte is left"
        if any(any(contains(c, lambda x: x.op == "caught") for c in b) for b in brk): ctx.bad(k, F.where(L.line), "an error while reading a message is taken for the end of the file"); continue
        ends = [b for b in brk if any(contains(c, size) for c in b)]
        if not any(contains(c, size) for c in conds) and not ends: ctx.unknown(k, F.where(L.line), "end test not recognised: " + (show(L.cond, 4) if L.cond is not None else "?")); continue
        res = []
        for n, want in ((0, True), (1, False), (3, False), (7, False), (8, False), (16, False), (4096, False), (8192, False)):
            at = Text(lambda t: n if size(t) else None)
            h = [None if h is None else not h for h in [happens([c], at) for c in conds]] + [happens(b, at) for b in ends]
            res.append(None if None in h and not any(h) else any(h) == want)
        ctx.ob(k, None if None in res and False not in res else all(res), F.where(L.line), "the loop ends %s" % ["with %d bytes left" % n if n else "not with the file" for n, r in zip((0, 1, 3, 7, 8, 16, 4096, 8192), res) if r is False][:1])
        other = [b for b in brk if b not in ends]
        ctx.ob(key + ": no other end", not other if not other or all(transparent(c, ("capnp::", "kj::", "Hit::", "Event::", "Signal::")) for b in other for c in b) else None, F.where(L.line), "the reading loop can stop early")


def swallowed(ctx, P):
    """handlers around reading or writing messages raise again"""
    IO = re.compile(r"capnp::writeMessage|MessageReader|::getRoot|^write$|raii_file_for|bliss::(write|read)_\w+_files?$|bliss::(write|read)_\w+_file$")
    for F in [f for fs in P.byqn.values() for f in fs if f.body is not None and re.match(r"bliss/(file_types/(?!h5)|bliss_\w+\.cpp)", f.where())]:
        for n in walk(F.body):
            if n.get("k") != "try": continue
            io = [x for x in walk(n.get("b") or n.get("body")) if x.get("k") in ("call", "ctor") and IO.search(str(x.get("f") or x.get("t") or x.get("c") or ""))]
            if not io: continue
            for i, h in enumerate(n.get("h") or n.get("handlers") or []):
                ctx.count("handlers")
                again = any(x.get("k") == "throw" for x in walk(h))
                ctx.ob("%s: handler@%s raises again" % (F.qn.split("::")[-1], i), True if again else False, F.where(n.get("l") or F.line), "an error while reading or writing a file is swallowed")


def writes(ctx, P):
    n = 0
    for F in [f for fs in P.byqn.values() for f in fs if f.body is not None and f.where().startswith("bliss/file_types/")]:
        if not any(x.get("k") == "call" and getattr(x.get("f"), "qn", "") == "write" for x in walk(F.body)): continue
        ev, v = go(ctx, P, F, inline=lambda d: d.qn.startswith("bliss::detail::raii") or "::" not in d.qn or d.qn.startswith("(anon)"))
        for e in [e for e in ev.effects if e.kind == "call" and e.qn == "write"]:
            n += 1
            key = "%s: write@%d" % (F.qn.split("::")[-1], n)
            ctx.count("write_calls")
            r = e.term
            errno = lambda t: t.op in ("deref", "call") and "errno" in show(t, 3)
            size = strip_all_casts(e.args[2])

            def leaf(rv, en, left=10):
                def f(t):
                    if t is r: return rv
                    if t.op == "deref" and "errno_location" in show(t, 3): return en
                    if t is size: return left
                    return None
                return f
            th = [x for x in ev.effects if x.kind == "throw" and any(contains(c, lambda y: y is r) for c in x.pc)]
            rel = lambda pc: [c for c in pc if contains(c, lambda y: y is r or y.op == "call" and "errno" in str(y.a[0]))]
            for en, nm in ((28, "no space"), (5, "I/O error"), (32, "broken pipe"), (27, "too large")):
                h = [happens(rel(x.pc), Text(leaf(-1, en))) for x in th]
                ctx.ob(key + ": error raised (%s)" % nm, True if any(h) else None if None in h else False, e.where(), "write() fails and nothing is raised")
            h = [happens(rel(x.pc), Text(leaf(10, 0))) for x in th]
            ctx.ob(key + ": a complete write is not an error", False if True in h else True, e.where(), "an error is raised after a complete write")
            # a partial write
            if not e.loops:
                h = [happens(rel(x.pc), Text(leaf(4, 0))) for x in th]
                ctx.ob(key + ": partial write", True if any(h) else None if None in h else False, e.where(), "write() may store only a part, which passes for the whole")
                continue
            L = e.loops[-1]
            mov = [(k, L.iter[k]) for k in L.iter if contains(e.args[1], lambda y: y is L.iter[k]) or contains(size, lambda y: y is L.iter[k])]
            if not mov or any(k not in L.next for k, _ in mov): ctx.unknown(key + ": partial write", e.where(), "position not recognised"); continue
            intr = []
            for k, it in mov:
                nx = L.next[k]
                want = strip_all_casts(r)
                text = size.op == "size" and contains(size, lambda y: y is it)

                def step(x, rv, en):
                    """how far a text moves: 'same', a term, or None"""
                    x = strip_all_casts(x)
                    while x.op == "ite":
                        c = happens([x.a[0]], Text(leaf(rv, en)))
                        if c is None: return None
                        x = strip_all_casts(x.a[1] if c else x.a[2])
                    if x is it: return "same"
                    if x.op == "upd" and x.a[0] is it and x.a[1].op == "call" and str(x.a[1].a[0]).endswith("remove_prefix"): return strip_all_casts(x.a[1].a[2])
                    if x.op == "call" and str(x.a[0]).endswith("substr") and x.a[1] is it and len(x.a) == 3: return strip_all_casts(x.a[2])
                    return None

                def moved(rv, en):
                    """change of a number in one turn; None if not known"""
                    f = leaf(rv, en)
                    try: return Text(lambda t: 1000 if t is it else f(t) if t is not size else None)(nx) - 1000
                    except (Odd, TypeError, ValueError, KeyError, IndexError, AttributeError): return None
                if text:
                    s = step(nx, 4, 0)
                    whole = s is not None and s != "same" and (s is size or s.op == "size")
                    ctx.ob(key + ": partial write", True if s is want else None if s is None else False if s == "same" or whole or transparent(s, ("write",)) else None, e.where(), "after a partial write the position moves by %s, not by what was written" % (s if isinstance(s, str) or s is None else show(s, 4)))
                    s = step(nx, -1, 4)
                    intr.append(None if s is None else s == "same")
                    continue
                d = moved(4, 0)
                if contains(e.args[1], lambda y: y is it):
                    ctx.ob(key + ": partial write", None if d is None else d == 4, e.where(), "after writing 4 bytes the position moves by %s" % d)
                if contains(size, lambda y: y is it) and d is not None:
                    try:
                        sz = lambda v: Text(lambda t: v if t is it else 500 if t.op in ("size", "sym", "iter") else None)(size)
                        g = sz(1000 + d) - sz(1000)
                        ctx.ob(key + ": partial write: what is left", g == -4, e.where(), "after writing 4 bytes the length left changes by %s" % g)
                    except (Odd, TypeError): ctx.unknown(key + ": partial write: what is left", e.where(), show(size, 4))
                d = moved(-1, 4)
                intr.append(None if d is None else d == 0)
            h = [happens(rel(x.pc), Text(leaf(-1, 4))) for x in th]
            ctx.ob(key + ": interrupted write", True if any(h) or all(i is True for i in intr) else None if None in intr or None in h else False, e.where(), "an interrupted write loses what was to be written")
            it = mov[0][1]
            # until nothing is left
            res = []
            for left, wantc in ((0, False), (1, True), (10, True)):
                def lf(t, left=left):
                    if t is size: return left
                    if t is it and not isinstance(it, str) and it.op == "iter" and size.op == "size": return "x" * left
                    return None
                c = happens([L.cond], Text(lf)) if L.cond is not None else None
                res.append(None if c is None else c == wantc)
            ctx.ob(key + ": until nothing is left", None if None in res else all(res), F.where(L.line), "the loop goes on while " + (show(L.cond, 4) if L.cond is not None else "?"))
            br = [happens([c for c in b if contains(c, lambda y: y is r or y.op == "call" and "errno" in str(y.a[0]))], Text(leaf(rv, en))) for b in L.breaks for rv, en in ((-1, 4), (-1, 28), (4, 0))]
            ctx.ob(key + ": no early end", False if True in br else None if None in br else True, F.where(L.line), "the loop can stop before everything is written")
    return n


def check(ctx):
    P = ctx.program("bliss/file_types/hits_file", "bliss/file_types/cpnp_files", "bliss/file_types/dat_file", "bliss/file_types/events_file", "bliss/file_types/detail/raii")
    dispatch_write(ctx, P)
    dispatch_read(ctx, P)
    opens(ctx, P)
    swallowed(ctx, P)
    writes(ctx, P)


if __name__ == "__main__":
    main("C28", RULE, check, minimum=40)
