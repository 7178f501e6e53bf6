import os, re, sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.check import *
from vlib import facts

RULE = ("in every function of bland and bliss, a variable, list element, parameter or result into which a number of array elements, an extent, a stride, an "
        "element position or the number of channels of a scan flows (through initialisations, assignments, sums, products and the bounds of counters) "
        "has a 64-bit type, no 64-bit such value is converted to a narrower integer, sums over extents or strides are formed in 64 bits, and no product "
        "of two such values is formed in 32 bits and widened afterwards")

W = {"long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64, "int": 32, "unsigned int": 32, "short": 16, "unsigned short": 16,
     "char": 8, "signed char": 8, "unsigned char": 8}
COUNTS = {"bland::ndarray::numel", "bland::ndarray::size", "bliss::scan::nchans", "bland::detail::blandDLTensor::numel"}
MADE = {"bland::zeros", "bland::ones", "bland::fill", "bland::empty"}
LISTS = {"shape", "strides", "offsets"}
FIELDS = {"_nchans", "shape", "strides", "_shape_ownership", "_strides_ownership", "_offsets", "_fine_channels_per_coarse"}
PER_CHANNEL = "_fine_channels_per_coarse"       # one coarse channel's extent is kept in an int; its products are not


def width(t):
    t = str(t).replace("const ", "").replace(" &", "").replace(" const", "").strip()
    return W.get(t)


def elems(t):
    """the width of the integers a list or pointer of this type holds"""
    t = str(t).replace("const ", "").replace(" &", "").strip()
    if t.startswith("std::vector<") and t.endswith(">"): return W.get(t[12:-1].split(",")[0].strip())
    if t.startswith("std::array<"): return W.get(t[11:-1].split(",")[0].strip())
    if t.endswith("*"): return W.get(t[:-1].strip())
    return None


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values(): yield from walk(v)
    elif isinstance(n, (list, tuple)):
        for v in n: yield from walk(v)


def bare(n):
    while isinstance(n, dict) and n.get("k") == "cast": n = n["e"]
    return n


def vid(n):
    n = bare(n)
    return n["id"] if isinstance(n, dict) and n.get("k") == "var" and "id" in n else None


def const(n): return isinstance(bare(n), dict) and bare(n).get("k") == "int"


def qn(n): return getattr(n.get("f"), "qn", "") or ""


def subscript(n):
    """(container, index) of an element access"""
    n = bare(n)
    if not isinstance(n, dict): return None
    if n.get("k") == "idx": return n["b"], n["i"]
    if n.get("k") == "call" and n.get("obj") is not None and qn(n).split("::")[-1] in ("operator[]", "at") and len(n.get("a", ())) == 1: return n["obj"], n["a"][0]
    return None


class Sizes:
    """which variables and lists of one function hold numbers of elements, extents or positions"""
    def __init__(self, F):
        self.F = F
        self.vars, self.lists, self.types, self.where = set(), set(), {}, {}
        self.nodes = [n for n in walk([F.body, [i for i in getattr(F, "inits", []) or []]])]
        self.small = {}             # node -> variables known to be below a constant there
        self.guards(F.body, frozenset())
        for n in self.nodes:
            if n.get("k") == "decl":
                for v in n["v"]:
                    if "id" in v: self.types[v["id"]], self.where[v["id"]] = v["t"], (v["n"], v.get("l"))
            elif n.get("k") == "rfor" and isinstance(n.get("v"), dict) and "id" in n["v"]:
                self.types[n["v"]["id"]], self.where[n["v"]["id"]] = n["v"]["t"], (n["v"]["n"], n.get("l"))
        while self.step(): pass

    def guards(self, n, small):
        if isinstance(n, dict):
            self.small[id(n)] = small
            if n.get("k") == "if":
                up, down = self.limits(n["c"])
                for k, v in n.items():
                    self.guards(v, small | up if k == self.THEN else small | down if k == self.ELSE else small)
            else:
                for v in n.values(): self.guards(v, small)
        elif isinstance(n, (list, tuple)):
            for v in n: self.guards(v, small)

    THEN, ELSE = "x", "y"

    def limits(self, c):
        """variables bounded by a constant when the condition holds, and when it does not"""
        c = bare(c)
        if not isinstance(c, dict) or c.get("k") != "bin" or c["op"] not in ("<", "<=", ">", ">="): return frozenset(), frozenset()
        x, y, op = c["x"], c["y"], c["op"]
        if vid(y) is not None and self.constant(x): x, y, op = y, x, op.translate(str.maketrans("<>", "><"))
        if vid(x) is None or not self.constant(y): return frozenset(), frozenset()
        s = frozenset([vid(x)])
        return (s, frozenset()) if op[0] == "<" else (frozenset(), s)

    def constant(self, n):
        b = bare(n)
        return isinstance(b, dict) and (b.get("k") == "int" or "cv" in b)

    def bounded(self, n, e):
        """every size in the expression is known to be below a constant here"""
        ids = {m["id"] for m in walk(e) if m.get("k") == "var" and m.get("id") in self.vars}
        return bool(ids) and ids <= self.small.get(id(n), frozenset()) and not any(m.get("k") in ("call", "idx", "mem") for m in walk(e))

    def islist(self, n):
        n = bare(n)
        if not isinstance(n, dict): return False
        if n.get("k") == "call": return qn(n).startswith(("bland::ndarray::", "bland::detail::")) and qn(n).split("::")[-1] in LISTS
        if n.get("k") == "mem": return n.get("f") in FIELDS and elems(n.get("t")) is not None
        if n.get("k") == "ctor" and len(n.get("a", ())) == 1: return self.islist(n["a"][0])
        return vid(n) in self.lists

    def size(self, n):
        n = bare(n)
        if not isinstance(n, dict): return False
        k = n.get("k")
        s = subscript(n)
        if s is not None: return self.islist(s[0]) and not self.time(s[1])
        if k == "var": return n.get("id") in self.vars
        if k == "mem": return n.get("f") in FIELDS and n.get("fc") != "bliss::coarse_channel" and width(n.get("t")) is not None
        if k == "call":
            q = qn(n)
            if q in COUNTS: return not (n.get("a") and self.time(n["a"][0]))
            if q in ("std::accumulate", "std::reduce"): return any(self.islist(m) for m in walk(n["a"]))
            if q == "std::max": return any(self.size(a) for a in n["a"])
            return False
        if k == "bin":
            op = n["op"]
            if op in ("+", "-", "*"): return self.size(n["x"]) or self.size(n["y"])
            if op in ("/", ">>"): return self.size(n["x"]) and op == "/" and not self.size(n["y"])
            if op == "%": return self.size(n["y"])
            return False
        if k == "cond": return self.size(n.get("x", n.get("t1"))) or self.size(n.get("y", n.get("t2")))
        if k == "un" and n.get("op") in ("++", "--", "-", "+", "post++", "post--"): return self.size(n["e"])
        return False

    def time(self, i):
        """position 0 of a spectrogram's shape: the number of time steps"""
        i = bare(i)
        return self.F.qn.startswith("bliss::") and isinstance(i, dict) and i.get("k") == "int" and i.get("v") == 0

    def add(self, target, lists=False):
        s = subscript(target)
        if s is not None:
            c = vid(s[0])
            if c is not None and elems(self.types.get(c, "")) and str(self.types[c]).startswith("std::vector") and c not in self.lists: self.lists.add(c); return True
            return False
        v = vid(target)
        if v is None or v in self.vars: return False
        if width(self.types.get(v, "")) is None: return False
        self.vars.add(v); return True

    def step(self):
        ch = False
        for n in self.nodes:
            k = n.get("k")
            if k == "decl":
                for v in n["v"]:
                    e = v.get("e")
                    if e is None or "id" not in v: continue
                    if width(v["t"]) is not None and v["id"] not in self.vars and self.size(e) and not self.bounded(v, e): self.vars.add(v["id"]); ch = True
                    if elems(v["t"]) is not None and v["id"] not in self.lists and self.islist(e): self.lists.add(v["id"]); ch = True
            elif k == "rfor":
                v = n.get("v")
                if isinstance(v, dict) and "id" in v and self.islist(n["r"]) and v["id"] not in self.vars and width(v["t"]): self.vars.add(v["id"]); ch = True
            elif k == "asg":
                if n["op"] in ("", "=", "+", "-", "*", "+=", "-=", "*=") and self.size(n["y"]) and not self.bounded(n, n["y"]): ch |= self.add(n["x"])
                if n["op"] in ("", "=") and self.islist(n["y"]) and vid(n["x"]) is not None and vid(n["x"]) not in self.lists: self.lists.add(vid(n["x"])); ch = True
            elif k == "call" and qn(n) == "std::vector::push_back" and n.get("obj") is not None and n["a"] and self.size(n["a"][0]):
                c = vid(n["obj"])
                if c is not None and c not in self.lists: self.lists.add(c); ch = True
            elif k in ("ctor", "call") and n["a"] and (k == "ctor" and n.get("cls") == "bland::ndarray" or qn(n) in MADE):
                # what is given as the number of elements of a new array (in 64 bits: whatever fits less may be kept in less)
                for m in walk(n["a"][0]):
                    if m.get("k") == "init" and len(m["a"]) == 1:
                        for x in m["a"]:
                            if vid(x) is not None and width(bare(x).get("t")) == 64: ch |= self.add(x)
            elif k == "bin" and n["op"] in ("<", "<=", "!=", ">", ">="):
                # a counter that is stepped up to a number of elements
                for x, y in ((n["x"], n["y"]), (n["y"], n["x"])):
                    t = bare(x)
                    if not isinstance(t, dict): continue
                    if t.get("k") == "un" and "++" in str(t.get("op")):
                        if self.size(y): ch |= self.add(t["e"])
                    elif vid(t) is not None and vid(t) in self.stepped() and (self.size(y) or self.bound(y) and vid(t) in self.indexing()): ch |= self.add(t)
        return ch

    def bound(self, y):
        """a 64-bit parameter that bounds a loop over elements"""
        b = bare(y)
        return isinstance(b, dict) and b.get("k") == "var" and b.get("d") == "param" and width(b.get("t")) == 64

    def stepped(self):
        if not hasattr(self, "_st"):
            self._st = {vid(n["e"]) for n in self.nodes if n.get("k") == "un" and "++" in str(n.get("op"))} | {vid(n["x"]) for n in self.nodes if n.get("k") == "asg" and n["op"] in ("+", "+=")}
        return self._st

    def indexing(self):
        """variables used to index memory through a pointer"""
        if not hasattr(self, "_ix"):
            self._ix = {m["id"] for n in self.nodes if n.get("k") == "idx" and "*" in str(n["b"].get("t", "")) and not self.islist(n["b"]) for m in walk(n["i"]) if m.get("k") == "var" and "id" in m}
        return self._ix


def lined(n, line=None, store=None, out=None):
    """(node, line, whether it is the value stored into an element)"""
    if isinstance(n, dict):
        line = n["l"] if isinstance(n.get("l"), int) else line
        yield n, line, store
        for k, v in n.items():
            st = store
            if n.get("k") == "asg" and k == "y":
                s = subscript(n["x"])
                st = s is not None and "*" in str(s[0].get("t", ""))
            elif n.get("k") in ("block", "for", "if", "while", "decl", "rfor"): st = None
            yield from lined(v, line, st)
    elif isinstance(n, (list, tuple)):
        for v in n: yield from lined(v, line, store)


def check(ctx):
    P = ctx.program(*facts.TUS)
    rows, floats, done = [], set(), set()
    for F in P.defs.values():
        if not F.body or not F.file.startswith("/repo/b") or "/tests/" in F.file: continue
        S = Sizes(F)
        if any(n.get("k") == "call" and qn(n).startswith("fftw") for n in S.nodes): continue      # transforms have an int length
        rel = F.file.split("/repo/", 1)[-1]
        for v in sorted(S.vars, key=str):
            n, l = S.where[v]
            w = width(S.types[v])
            rows.append(("%s variable %s" % (F.qn, n), w == 64, rel, l, "'%s' counts elements or channels and has the %d-bit type %s" % (n, w, S.types[v]), False))
        for v in sorted(S.lists, key=str):
            if v not in S.where: continue
            n, l = S.where[v]
            w = elems(S.types[v])
            if w: rows.append(("%s list %s" % (F.qn, n), w == 64, rel, l, "'%s' holds extents or positions in %d bits" % (n, w), False))
        # the library's and the file format's own limits: their argument types are what they are
        limited = {id(m) for n in S.nodes if n.get("k") == "call" and (qn(n).startswith("fftw") or "::Builder::set" in qn(n)) for a in n["a"] for m in walk(a)}
        for n, l, store in lined([F.body, getattr(F, "inits", None) or []]):
            k = n.get("k")
            if k == "cast":
                if not S.size(n["e"]) or S.bounded(n, n["e"]) or id(n) in limited: continue
                if n.get("ck") == "IntegralToFloating": floats.add((rel, l))
                if n.get("ck") != "IntegralCast" or store: continue
                a, b = width(n.get("from")), width(n.get("t"))
                if a == 64 and b: rows.append(("%s conversion of %s" % (F.qn, text(n["e"])), b == 64, rel, l, "'%s' is converted to the %d-bit type %s" % (text(n["e"]), b, n["t"]), True))
            elif k == "call" and qn(n) in ("std::accumulate", "std::reduce") and len(n["a"]) > 2 and (any(S.islist(m) for m in walk(n["a"][:2])) or re.search(r"\b(long|long long) (const )?\*", str(n["a"][0].get("t", "")))):
                w = width(n.get("t"))
                if w: rows.append(("%s sum over %s" % (F.qn, text(n["a"][0])), w == 64, rel, l, "the extents or offsets are combined in %d bits (type %s of the initial value)" % (w, n["t"]), False))
            elif k == "call" and qn(n) in COUNTS:
                w = width(n.get("t"))
                if w: rows.append(("%s of %s" % (qn(n), text(n.get("obj"))), w == 64, rel, l, "%s returns a %d-bit type" % (qn(n), w), False))
            elif k == "decl":
                for v in n["v"]:
                    if v.get("id") not in S.vars or width(v.get("t")) != 64 or v.get("e") is None: continue
                    for m in walk(v["e"]):
                        if m.get("k") == "bin" and m["op"] == "*" and width(m.get("t")) and not const(m["x"]) and not const(m["y"]) and not S.size(m):
                            rows.append(("%s product %s" % (F.qn, text(m)), width(m["t"]) == 64, rel, l, "the product %s is formed in %d bits before it is a number of elements" % (text(m), width(m["t"])), False))
            elif k == "bin" and n["op"] == "*" and width(n.get("t")) and not const(n["x"]) and not const(n["y"]) and S.size(n):
                w = width(n["t"])
                rows.append(("%s product %s" % (F.qn, text(n)), w == 64, rel, l, "the product %s is formed in %d bits" % (text(n), w), False))
    for key, ok, rel, l, msg, conv in rows:
        if conv and not ok and (rel, l) in floats: continue         # conversion to the element type of an instantiation
        if (key, ok) in done: continue
        done.add((key, ok))
        ctx.ob(key if ok else "%s (%s:%s)" % (key, rel, l), ok, "%s:%s" % (rel, l), msg)
    ctx.count("sites", len(rows))


def text(n):
    n = bare(n)
    if not isinstance(n, dict): return "?"
    k = n.get("k")
    if k == "var": return n["n"]
    if k == "int": return str(n.get("v"))
    if k == "this": return "this"
    if k == "mem": return str(n.get("f", "?"))
    s = subscript(n)
    if s: return "%s[%s]" % (text(s[0]), text(s[1]))
    if k == "bin": return "%s%s%s" % (text(n["x"]), n["op"], text(n["y"]))
    if k == "call":
        o = text(n["obj"]) + "." if isinstance(n.get("obj"), dict) else ""
        return "%s%s(%s)" % (o, qn(n).split("::")[-1], ",".join(text(a) for a in n.get("a", ())))
    if k == "un": return str(n.get("op")) + text(n["e"])
    return k or "?"


if __name__ == "__main__": main("C36", RULE, check, 50)
