"""Abstract evaluator: flow- and context-sensitive value numbering over the resolved syntax tree.

evaluate(func) walks the structured control flow once (every branch, every loop body), keeping a store of
location -> term, a path condition, and an ordered list of effects (opaque calls, writes through
non-local memory, indexed reads, throws, returns), each with its path condition and the loops around it.
Repository helpers and lambdas are inlined according to a policy; everything else is an uninterpreted
function of its operands.  Branch joins produce gated (ite) terms, loops are summarised by one pass over
the body from an arbitrary iteration: variables advanced by a loop-invariant step become affine in the
iteration counter, all others become arbitrary.  No feasibility solving is done.
"""
from .terms import *
from . import terms as TT
from .facts import AnalysisError

PURE_STD = {"std::sqrt": "sqrt", "sqrt": "sqrt", "std::pow": "pow", "std::abs": "abs", "abs": "abs", "fabs": "abs", "std::fabs": "abs", "std::floor": "floor",
            "floor": "floor", "ceil": "ceil", "std::ceil": "ceil", "round": "round", "std::round": "round", "std::log2": "log2",
            "std::lround": "lround", "std::fmax": "max", "std::fmin": "min", "sqrtf": "sqrt", "fabsf": "abs"}


# aggregates of third-party headers the repository initialises by position
KNOWN_AGG = {"DLTensor": ("data", "device", "ndim", "dtype", "shape", "strides", "byte_offset"), "DLManagedTensor": ("dl_tensor", "manager_ctx", "deleter"), "DLDataType": ("code", "bits", "lanes"), "DLDevice": ("device_type", "device_id")}


class Loop:
    n = 0

    def __init__(self, kind, line, fn):
        Loop.n += 1
        self.id = Loop.n
        self.kind, self.line, self.fn = kind, line, fn
        self.trip = None       # trip count term when the loop is a plain counted loop
        self.range = None      # container term (range-for / index loop over size)
        self.cond = None       # continuation condition at the top of an arbitrary iteration
        self.init, self.next = {}, {}
        self.iter = {}
        self.breaks = []       # path conditions of break statements
        self.outer = ()
        self.hasret = False
        self.names = {}
        self.entry = ()        # path condition on entry

    @property
    def ctr(self):
        return markint(raw("ctr", self.id))

    def __repr__(self):
        return "<loop %d %s line %s trip=%s>" % (self.id, self.kind, self.line, self.trip)


class Effect:
    __slots__ = ("kind", "fn", "qn", "obj", "args", "loc", "val", "pc", "loops", "line", "func", "node", "term", "argv", "stack", "ta", "old", "pts")

    def __init__(self, kind, **k):
        self.kind = kind
        for s in self.__slots__[1:]:
            setattr(self, s, k.get(s))

    def where(self):
        return self.func.where(self.line) if self.func else str(self.line)

    def __repr__(self):
        return "<%s %s %s pc=%s>" % (self.kind, self.qn or "", [show(x) for x in (self.args or [])] or (show_loc(self.loc) + ":=" + show(self.val) if self.loc else ""), [show(c) for c in self.pc or ()])


def show_loc(loc):
    r, p = loc
    return show(r) + "".join(("." + show(x)) if x.op == "f" else show(x) for x in p)


class State:
    __slots__ = ("store", "pc", "dead")

    def __init__(self, store=None, pc=(), dead=False):
        self.store = store if store is not None else {}
        self.pc, self.dead = pc, dead

    def copy(self):
        return State({r: dict(d) for r, d in self.store.items()}, self.pc, self.dead)

    def assign(self, o):
        self.store, self.pc, self.dead = o.store, o.pc, o.dead


class Frame:
    serial = 0

    def __init__(self, func, this=None, caller=None, line=None):
        Frame.serial += 1
        self.id = Frame.serial
        self.func, self.this, self.caller = func, this, caller
        self.vars = {}
        self.returns = []
        self.brk, self.cont = [], []
        self.depth = caller.depth + 1 if caller else 0
        self.callline = line
        self.loopbase = 0   # loops opened before this call are not left by its returns


def F(name):
    return raw("f", name)


def I(t):
    return raw("i", t)


# standard algorithms that change the range at these arguments
REARRANGE = {"std::" + n: (0,) for n in ("reverse", "sort", "stable_sort", "partial_sort", "nth_element", "rotate", "shuffle", "random_shuffle", "unique", "remove", "remove_if", "fill", "fill_n", "iota",
                                         "replace", "replace_if", "partition", "stable_partition", "generate", "generate_n", "make_heap", "sort_heap", "push_heap", "pop_heap")}
REARRANGE.update({"std::" + n: (2,) for n in ("copy", "copy_n", "copy_if", "copy_backward", "transform", "partial_sum", "inclusive_scan", "exclusive_scan", "adjacent_difference", "replace_copy", "unique_copy", "reverse_copy", "remove_copy_if")})
REARRANGE["std::swap_ranges"] = (0, 2)
REARRANGE["std::iter_swap"] = (0, 1)


class Evaluator:
    def __init__(self, prog, inline=None, max_depth=12, record_reads=False, opaque=(), pure=(), keep_casts=False, unroll=0, copies=None):
        self.copies = copies      # which user-written copy constructors / assignments are followed instead of taken as value copies
        self.prog = prog
        self.inline_pol = inline
        self.max_depth = max_depth
        self.record_reads = record_reads
        self.opaque = set(opaque)
        self.pure = set(pure)
        self.effects = []
        self.loops = []
        self.loopstack = ()
        self.throws = [[]]
        self.notes = []
        self.nheap = 0
        self.allloops = {}
        self.lamtab = {}
        self.inlined = set()
        self.sizealias = {}
        self.steps = 0
        self.types = {}      # term id -> Type (for opaque values, by declared type)
        self.unroll = unroll
        self.step_limit = 400000
        self.ctorinit = None

    # ------------------------------------------------------------- memory
    def initial(self, root):
        if root.op == "mem":
            return root.a[0]
        if root.op == "glob":
            return raw("gval", root.a[0])
        if root.op == "var":
            return raw("undef", root.a[2], root.a[1][1])
        if root.op == "heap":
            return raw("undef", "heap", root.a[0])
        return raw("init", root)

    def project(self, v, pe):
        """value of a component of a value"""
        if v.op == "ite":
            return ite(v.a[0], self.project(v.a[1], pe), self.project(v.a[2], pe))
        if pe.op == "f":
            n = pe.a[0]
            if v.op == "tuple" and n.startswith("#"):
                i = int(n[1:])
                if i < len(v.a):
                    return v.a[i]
            if v.op == "pair" and n in ("first", "second"):
                return v.a[0 if n == "first" else 1]
            if v.op == "undef":
                return raw("undef", v.a[0] + "." + n, v.a[1])
            return raw("fld", v, n)
        if v.op == "undef":
            return raw("undef", str(v.a[0]) + "[]", v.a[1])
        if v.op == "vec" and isnum(pe.a[0]):
            i = pe.a[0].a[0]
            if i.denominator == 1 and 0 <= i < len(v.a):
                return v.a[int(i)]
        if v.op == "filled":
            return v.a[0]
        if v.op == "str" and isnum(pe.a[0]) and 0 <= pe.a[0].a[0] < len(v.a[0]):
            return num(ord(v.a[0][int(pe.a[0].a[0])]))
        return raw("sel", v, pe.a[0])

    def recval(self, base, over):
        over = [(p, v) for p, v in over]
        if not over:
            return base
        if base.op == "rec":
            d = {x.a[:-1]: x.a[-1] for x in base.a[1:]}
            b = base.a[0]
            for p, v in over:
                for q in [q for q in d if q[:len(p)] == p]:
                    del d[q]
                d[p] = v
            over = list(d.items())
            base = b
        items = sorted((raw("pv", *(tuple(p) + (v,))) for p, v in over), key=lambda x: x.id)
        return raw("rec", base, *items)

    def rec_get(self, v, path):
        """component of a possibly-rec value"""
        if not path:
            return v
        if v.op == "ite":
            return ite(v.a[0], self.rec_get(v.a[1], path), self.rec_get(v.a[2], path))
        if v.op == "rec":
            best = None
            deeper = []
            for x in v.a[1:]:
                p, val = x.a[:-1], x.a[-1]
                if path[:len(p)] == p:
                    if best is None or len(p) > len(best[0]):
                        best = (p, val)
                elif p[:len(path)] == path:
                    deeper.append((p[len(path):], val))
            if best:
                base = self.rec_get(best[1], path[len(best[0]):])
            else:
                base = self.rec_get(v.a[0], path)
            return self.recval(base, deeper)
        r = v
        for i, pe in enumerate(path):
            if r.op == "rec":
                return self.rec_get(r, path[i:])
            r = self.project(r, pe)
        return r

    def load(self, st, loc):
        root, path = loc
        d = st.store.get(root)
        if not d:
            return self.rec_get(self.initial(root), path)
        base, bl = None, -1
        deeper = []
        for p, v in d.items():
            n = len(p)
            if n <= len(path) and path[:n] == p:
                if n > bl:
                    base, bl = v, n
            elif n > len(path) and p[:len(path)] == path:
                deeper.append((p[len(path):], v))
        if bl >= 0:
            val = self.rec_get(base, path[bl:])
        else:
            val = self.rec_get(self.initial(root), path)
        # a write to an unrelated element of the same container may alias
        return self.recval(val, deeper)

    def store(self, st, loc, v):
        root, path = loc
        d = st.store.setdefault(root, {})
        for p in [p for p in d if len(p) > len(path) and p[:len(path)] == path]:
            del d[p]
        d[path] = v

    def is_local(self, root):
        return root.op in ("var", "heap", "tmp")

    def write(self, st, loc, v, line, fr):
        if not self.is_local(loc[0]):
            self.eff(Effect("write", loc=loc, val=v, old=self.load(st, loc), pc=st.pc, line=line, func=fr.func), fr)
        self.store(st, loc, v)

    def eff(self, e, fr=None):
        e.loops = self.loopstack
        s = []
        f = fr
        while f is not None:
            s.append((f.func, f.callline))
            f = f.caller
        e.stack = s
        self.effects.append(e)
        return e

    # merge two live states into st (branches of cond c from pc `base`)
    def merge(self, st, base_pc, c, a, b):
        if a.dead and b.dead:
            st.dead = True
            st.store = a.store
            st.pc = base_pc
            return
        if a.dead or b.dead:
            o = b if a.dead else a
            st.store, st.pc, st.dead = o.store, o.pc, False
            return
        st.dead = False
        n = len(base_pc)
        ea, eb = a.pc[n:], b.pc[n:]
        j = lor(land(*ea), land(*eb))
        st.pc = base_pc if j is TRUE else base_pc + tuple(j.a if j.op == "and" else (j,))
        new = {}
        for root in set(a.store) | set(b.store):
            da, db = a.store.get(root), b.store.get(root)
            if da == db:
                if da: new[root] = da
                continue
            if root.op == "var" and (da is None or db is None):
                # block-local of one branch
                new[root] = dict(da or db)
                continue
            paths = sorted(set(da or ()) | set(db or ()), key=len)
            out = {}
            for p in paths:
                if any(len(q) < len(p) and p[:len(q)] == q for q in out):
                    q = [q for q in out if len(q) < len(p) and p[:len(q)] == q][0]
                    # covered by an enclosing merged value only if the enclosing value was merged whole
                    if out[q][1]:
                        continue
                va, vb = self.load(a, (root, p)), self.load(b, (root, p))
                if va is vb:
                    pa, pb = (da or {}).get(p), (db or {}).get(p)
                    out[p] = (va, True) if (pa is not None or pb is not None) else (va, False)
                else:
                    out[p] = (ite(c, va, vb), True)
            new[root] = {p: v for p, (v, _) in out.items()}
        st.store = new

    # ------------------------------------------------------------- types
    def tmark(self, t, ty):
        if ty is not None and not isnum(t) and t.op not in ("poly",):
            if ty.isint:
                markint(t)
                if ty.kind == "b" and not ty.isptr:
                    markbool(t)
            if t.id not in self.types:
                self.types[t.id] = ty
        return t

    # ------------------------------------------------------------- lvalues
    def lval(self, n, st, fr):
        k = n["k"]
        if k == "var":
            return self.varloc(n, st, fr)
        if k == "mem":
            base = n["b"]
            if n.get("arrow"):
                b = self.deref(self.ev(base, st, fr))
            else:
                b = self.lval(base, st, fr)
            return (b[0], b[1] + (F(n["f"]),))
        if k == "idx":
            b = self.ev(n["b"], st, fr)
            i = self.ev(n["i"], st, fr)
            return self.indexed(self.deref(b), i, st, n, fr, ptr=True)
        if k == "un":
            op = n["op"]
            if op == "*":
                return self.deref(self.ev(n["e"], st, fr))
            if op in ("++", "--"):
                self.ev(n, st, fr)
                return self.lval(n["e"], st, fr)
        if k == "asg":
            self.ev(n, st, fr)
            return self.lval(n["x"], st, fr) if not _has_effect(n["x"]) else self.temp(self.ev(n["x"], st, fr), st)
        if k == "cast" and n["ck"] in ("BaseToDerived", "DerivedToBase", "NoOp", "BitCast", "LValueBitCast", "Dynamic"):
            return self.lval(n["e"], st, fr)
        if k == "this":
            return None
        if k == "cond":
            c = truth(self.ev(n["c"], st, fr))
            if c is TRUE: return self.lval(n["x"], st, fr)
            if c is FALSE: return self.lval(n["y"], st, fr)
        if k in ("call", "icall"):
            r = self.call(n, st, fr) if k == "call" else self.icall(n, st, fr)
            f = n.get("f")
            if isinstance(r, tuple):
                return r
            if n["t"] is not None and n["t"].ref or (f is not None and f.rt is not None and f.rt.ref):
                return self.deref(r, ref=True)
            return self.temp(r, st)
        return self.temp(self.ev(n, st, fr), st)

    def temp(self, v, st):
        if v.op == "ref" and False:
            return None
        self.nheap += 1
        root = raw("tmp", self.nheap)
        self.store(st, (root, ()), v)
        return (root, ())

    def deref(self, t, ref=False):
        """location denoted by a pointer (or reference-returning opaque value)"""
        if t.op == "ref":
            return (t.a[0], t.a[1:])
        if t.op == "addr":
            return (raw("mem", t.a[0]), ())
        if t.op == "itr":
            b = self.deref(t.a[0])
            return (b[0], b[1] + (I(t.a[1]),))
        if t.op == "poly" and not ref:
            # pointer arithmetic: base pointer + offset
            cands = [m[0] for c, m in t.a if len(m) == 1 and c == 1 and (m[0].op in ("ref", "addr") or (self.types.get(m[0].id) is not None and self.types[m[0].id].isptr))]
            if len(cands) == 1:
                b = self.deref(cands[0])
                return (b[0], b[1] + (I(sub(t, cands[0])),))
        if ref:
            return (raw("mem", t), ())
        return (raw("mem", raw("deref", t)), ())

    def addr(self, loc):
        root, path = loc
        if not path and root.op == "mem":
            t = root.a[0]
            if t.op == "deref":
                return t.a[0]
            return raw("addr", t)
        return raw("ref", root, *path)

    def indexed(self, b, i, st, n, fr, ptr=False):
        root, path = b
        if ptr and path and path[-1].op == "i" and False:
            pass
        if ptr and path and path[-1].op == "i" and getattr(self, "_", None):
            pass
        loc = (root, path + (I(i),))
        # pointer to an element, indexed again: &a[j] [i] == a[j+i]
        if ptr and path and path[-1].op == "i" and n["k"] == "idx" and n["b"].get("t") is not None and n["b"]["t"].isptr:
            loc = (root, path[:-1] + (I(add(path[-1].a[0], i)),))
        if self.record_reads:
            self.eff(Effect("index", loc=loc, pc=st.pc, line=n.get("l"), func=fr.func, node=n), fr)
        return loc

    def varloc(self, n, st, fr):
        d = n["d"]
        if d == "global":
            return (raw("glob", n["qn"]), ())
        vid = n.get("id")
        f = fr
        loc = f.vars.get(vid)
        if loc is not None:
            return loc
        if d == "slocal":
            return (raw("glob", "static:%s" % n["n"]), ())
        # unknown variable (e.g. captured variable of an un-modelled closure)
        return (raw("mem", raw("sym", n["n"])), ())

    # ------------------------------------------------------------- expressions
    def ev(self, n, st, fr):
        self.steps += 1
        if self.steps > self.step_limit:
            raise AnalysisError("evaluation budget exceeded in %s" % fr.func.qn)
        k = n["k"]
        m = getattr(self, "x_" + k, None)
        if m is None:
            for c in n.get("a", []) or []:
                if isinstance(c, dict): self.ev(c, st, fr)
            self.notes.append("unmodelled %s %s" % (k, n.get("c")))
            return raw("unk", k, n.get("l") or 0, fr.id)
        return m(n, st, fr)

    def x_int(self, n, st, fr): return num(n["v"])
    def x_flt(self, n, st, fr): return numstr(n["v"])
    def x_str(self, n, st, fr): return raw("str", n["v"])
    def x_null(self, n, st, fr): return NULL
    def x_fn(self, n, st, fr): return raw("fnptr", n["f"].key, n["f"].qn)
    def x_memfn(self, n, st, fr): return raw("fnptr", n["f"].key, n["f"].qn)
    def x_typeid(self, n, st, fr): return raw("typeid")
    def x_zero(self, n, st, fr):
        t = n.get("t")
        if t is not None and t.isptr: return NULL
        if t is not None and t.kind == "o": return raw("zeroinit", t.base)
        return ZERO

    def x_this(self, n, st, fr):
        return self.addr(fr.this) if fr.this is not None else raw("addr", sym("this"))

    def x_var(self, n, st, fr):
        if n.get("cv") is not None:
            return num(n["cv"])
        loc = self.varloc(n, st, fr)
        v = self.load(st, loc)
        if n["d"] == "global" and v.op == "gval":
            g = self.prog.globals.get(n["qn"])
            if g and g["t"].const and g.get("e"):
                v2 = self.ev(g["e"], st, fr)
                return v2
        return self.tmark(v, n.get("t"))

    def x_mem(self, n, st, fr):
        base = n["b"]
        if not n.get("arrow") and base["k"] in ("call", "ctor", "init"):
            v = self.ev(base, st, fr)
            return self.tmark(self.rec_get(v, (F(n["f"]),)), n["t"])
        loc = self.lval(n, st, fr)
        if loc[0].op == "glob" and loc[1] and not st.store.get(loc[0]):
            g = self.prog.globals.get(loc[0].a[0])
            if g and g["t"].const and g.get("e"):
                return self.tmark(self.rec_get(self.ev(g["e"], st, fr), loc[1]), n["t"])
        return self.tmark(self.load(st, loc), n["t"])

    def x_idx(self, n, st, fr):
        loc = self.lval(n, st, fr)
        if self.record_reads:
            self.eff(Effect("read", loc=loc, pc=st.pc, line=n.get("l"), func=fr.func, node=n), fr)
        return self.tmark(self.load(st, loc), n["t"])

    def x_cast(self, n, st, fr):
        return self.docast(self.ev(n["e"], st, fr), n["ck"], n["from"], n["t"])

    def docast(self, v, ck, frm, to):
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean", "MemberPointerToBoolean"):
            return truth(v)
        if ck == "NullToPointer": return NULL
        if ck == "IntegralCast":
            if to.kind == "e" or frm.kind in ("e", "b"): return v
            if to.bits < frm.bits:
                if isnum(v):
                    m = v.a[0] % (1 << to.bits)
                    if to.signed and m >= (1 << (to.bits - 1)): m -= 1 << to.bits
                    return num(m)
                if v.op == "cast" and v.a[0] == "i%d" % to.bits: return v
                return markint(raw("cast", "i%d" % to.bits, v)) if not self._small(v, to) else v
            if to.signed != frm.signed and isnum(v) and v.a[0] < 0:
                return num(v.a[0] % (1 << to.bits))
            return v
        if ck == "IntegralToFloating":
            if to.bits == 32 and frm.bits > 16 and not isnum(v):
                return raw("cast", "f32", v)
            return v
        if ck == "FloatingToIntegral":
            if isnum(v):
                q = v.a[0]
                return num(int(q))
            if v.op == "cast" and v.a[0] == "f32" and v.a[1].id in TT._INTS: pass
            if v.op == "trunc": return v
            return markint(raw("trunc", v))
        if ck == "FloatingCast":
            if to.bits < frm.bits and not isnum(v):
                return raw("cast", "f32", v) if v.op != "cast" else v
            return v
        return v

    def _small(self, v, to):
        return v.op in ("lt0", "eq0", "not", "and", "or")

    def x_bin(self, n, st, fr):
        op = n["op"]
        if op in ("&&", "||"):
            a = truth(self.ev(n["x"], st, fr))
            if (op == "&&" and a is FALSE) or (op == "||" and a is TRUE):
                return a
            c = a if op == "&&" else lnot(a)
            b = self.guarded(n["y"], c, st, fr)
            return land(a, b) if op == "&&" else lor(a, b)
        if op == ",":
            self.ev(n["x"], st, fr)
            return self.ev(n["y"], st, fr)
        a = self.ev(n["x"], st, fr)
        b = self.ev(n["y"], st, fr)
        if self.record_reads and op in ("/", "%"):
            self.eff(Effect("div", args=[a, b], pc=st.pc, line=n["l"], func=fr.func, node=n, qn=op), fr)
        return self.arith(op, a, b, n["x"].get("t"), n["t"])

    def guarded(self, y, c, st, fr):
        """evaluate y only under condition c (short-circuit)"""
        if c is TRUE:
            return truth(self.ev(y, st, fr))
        s2 = st.copy()
        s2.pc = st.pc + ((c,) if c.op != "and" else tuple(c.a))
        v = truth(self.ev(y, s2, fr))
        if _has_effect(y):
            s3 = st.copy(); s3.pc = st.pc + (lnot(c),)
            base = st.pc
            self.merge(st, base, c, s2, s3)
        return v

    def arith(self, op, a, b, ty, rt=None):
        isint = ty is not None and ty.isint
        if a.op == "itr" or b.op == "itr":
            return self.itrop(op, a, b)
        if op in "+-" and (a.op == "ite" or b.op == "ite") and False:
            pass
        if op == "+": r = add(a, b)
        elif op == "-": r = sub(a, b)
        elif op == "*": r = mul(a, b)
        elif op == "/":
            if isint:
                r = idiv(a, b); markint(r) if not isnum(r) and r.op != "poly" else None
            else: r = div(a, b)
        elif op == "%":
            r = imod(a, b); markint(r) if not isnum(r) and r.op != "poly" else None
        elif op == "<": r = lt(a, b)
        elif op == ">": r = lt(b, a)
        elif op == "<=": r = le(a, b, isint)
        elif op == ">=": r = le(b, a, isint)
        elif op == "==": r = eq(a, b)
        elif op == "!=": r = ne(a, b)
        elif op in ("&", "|", "^", "<<", ">>"):
            r = bitop(op, a, b)
            if not isnum(r) and r.op != "poly" and not isbool(r): markint(r)
        else: r = raw("op" + op, a, b)
        return r

    def itrop(self, op, a, b):
        if a.op == "itr" and b.op == "itr" and a.a[0] is b.a[0]:
            if op in ("==", "!=", "<", ">", "<=", ">="):
                r = self.arith(op if op in ("==", "!=") else op, a.a[1], b.a[1], None)
                if op == "<=": r = le(a.a[1], b.a[1], True)
                if op == ">=": r = le(b.a[1], a.a[1], True)
                return r
            if op == "-": return sub(a.a[1], b.a[1])
        if a.op == "itr" and op in "+-":
            return raw("itr", a.a[0], add(a.a[1], b) if op == "+" else sub(a.a[1], b))
        if op == "==": return eq(a, b)
        if op == "!=": return ne(a, b)
        return raw("op" + op, a, b)

    def x_un(self, n, st, fr):
        op = n["op"]
        if op in ("++", "--", "p++", "p--"):
            loc = self.lval(n["e"], st, fr)
            old = self.load(st, loc)
            d = ONE if "+" in op else num(-1)
            new = raw("itr", old.a[0], add(old.a[1], d)) if old.op == "itr" else add(old, d)
            xt = n["e"].get("t")
            if old.op != "itr": self.tmark(old, xt)
            if old.op != "itr" and xt is not None and xt.kind == "i" and xt.bits and xt.bits < 32 and not isnum(new): new = markint(raw("cast", "i%d" % xt.bits, new))
            self.write(st, loc, new, n["l"], fr)
            return old if op[0] == "p" else new
        if op == "&":
            return self.addr(self.lval(n["e"], st, fr))
        if op == "*":
            loc = self.deref(self.ev(n["e"], st, fr))
            if self.record_reads:
                self.eff(Effect("read", loc=loc, pc=st.pc, line=n.get("l"), func=fr.func, node=n), fr)
            return self.tmark(self.load(st, loc), n["t"])
        v = self.ev(n["e"], st, fr)
        if op == "-": return neg(v)
        if op == "+": return v
        if op == "!": return lnot(v)
        if op == "~":
            if isnum(v):
                r = ~int(v.a[0])
                t = n["t"]
                if t is not None and t.kind == "i" and not t.signed: r %= 1 << t.bits
                return num(r)
            return raw("bit~", v)
        return raw("un" + op, v)

    def x_asg(self, n, st, fr):
        op = n["op"]
        if op == "":
            v = self.ev(n["y"], st, fr)
            loc = self.lval(n["x"], st, fr)
            self.write(st, loc, v, n["l"], fr)
            return v
        rhs = self.ev(n["y"], st, fr)
        loc = self.lval(n["x"], st, fr)
        old = self.load(st, loc)
        xt = n["x"].get("t")
        self.tmark(old, xt)
        if self.record_reads and op in ("/", "%"):
            self.eff(Effect("div", args=[old, rhs], pc=st.pc, line=n["l"], func=fr.func, node=n, qn=op), fr)
        ct = n.get("ct")
        v = self.arith(op, old, rhs, ct if ct is not None else xt)
        if ct is not None and xt is not None and not (xt.isptr) and v.op != "itr":
            if ct.kind == "f" and xt.isint: v = self.docast(v, "FloatingToIntegral", ct, xt)
            elif ct.kind == "f" and xt.kind == "f": v = self.docast(v, "FloatingCast", ct, xt)
            elif ct.isint and xt.isint and ct.kind == "i" and xt.kind == "i" and ct.bits and xt.bits and ct.bits > xt.bits: v = self.docast(v, "IntegralCast", ct, xt)
        self.write(st, loc, v, n["l"], fr)
        return v

    def x_cond(self, n, st, fr):
        c = truth(self.ev(n["c"], st, fr))
        if c is TRUE: return self.ev(n["x"], st, fr)
        if c is FALSE: return self.ev(n["y"], st, fr)
        a = st.copy(); a.pc = self.ext(st.pc, c)
        b = st.copy(); b.pc = self.ext(st.pc, lnot(c))
        x = self.ev(n["x"], a, fr)
        y = self.ev(n["y"], b, fr)
        self.merge(st, st.pc, c, a, b)
        return ite(c, x, y)

    def ext(self, pc, c):
        if c is TRUE: return pc
        return pc + (tuple(c.a) if c.op == "and" else (c,))

    def x_throw(self, n, st, fr):
        v = self.ev(n["e"], st, fr) if n.get("e") else raw("rethrow")
        self.eff(Effect("throw", val=v, args=[v], qn=(n["et"].base if n.get("et") else None), pc=st.pc, line=n["l"], func=fr.func), fr)
        self.throws[-1].append((st.copy(), n))
        st.dead = True
        return raw("never")

    def x_new(self, n, st, fr):
        if n.get("n"):
            cnt = self.ev(n["n"], st, fr)
            r = raw("newarr", n["at"].s, cnt, fr.id, n["l"])
            self.eff(Effect("new", args=[r, cnt], qn="new[]", pc=st.pc, line=n["l"], func=fr.func, term=r), fr)
            return r
        e = n.get("e")
        if e is not None and e["k"] == "ctor" and self.inplace(e):
            self.nheap += 1
            root = raw("heap", self.nheap)
            self.construct(e, (root, ()), st, fr)
        else:
            v = self.ev(e, st, fr) if e else raw("undef", "new", 0)
            self.nheap += 1
            root = raw("heap", self.nheap)
            self.store(st, (root, ()), v)
        r = raw("ref", root)
        self.eff(Effect("new", args=[r], qn="new", pc=st.pc, line=n["l"], func=fr.func, term=r), fr)
        return r

    def x_delete(self, n, st, fr):
        v = self.ev(n["e"], st, fr)
        self.eff(Effect("delete", args=[v], qn="delete[]" if n.get("arr") else "delete", pc=st.pc, line=n["l"], func=fr.func, node=n), fr)
        return ZERO

    def x_lambda(self, n, st, fr):
        caps = []
        for c in n["caps"]:
            if c["n"] == "this":
                caps.append(("this", None, fr.this if fr.this is not None else (raw("mem", sym("this")), ())))
            elif c.get("ref") and not c.get("initcap"):
                caps.append(("ref", c["id"], fr.vars.get(c["id"], (raw("mem", sym(c["n"])), ()))))
            else:
                caps.append(("val", c["id"], self.ev(c["e"], st, fr) if c.get("e") else raw("unk", "cap", 0, 0), c["n"]))
        key = n["f"].key
        t = raw("lam", key, *[x[2] if isinstance(x[2], T) else raw("ref", x[2][0], *x[2][1]) for x in caps])
        self.lamtab[t.id] = (n, caps, fr)
        return t

    def x_init(self, n, st, fr):
        t = n["t"]
        cls = n.get("cls") or (t.base if t is not None and t.base in KNOWN_AGG else "")
        if t is not None and t.kind == "o" and (cls in self.prog.records or cls in KNOWN_AGG):
            fields = [f["n"] for f in self.prog.records[cls]["fields"]] if cls in self.prog.records else KNOWN_AGG[cls]
            over = []
            for fd, a in zip(fields, n["a"]):
                over.append(((F(fd),), self.ev(a, st, fr)))
            return self.recval(raw("obj", cls), over)
        if t is not None and t.kind != "o" and len(n["a"]) == 1:
            return self.ev(n["a"][0], st, fr)
        if t is not None and t.kind != "o" and not n["a"]:
            return NULL if t.isptr else ZERO
        vs = [self.ev(a, st, fr) for a in n["a"]]
        if cls and not (t.s.startswith("std::array") or t.s.endswith("]")):
            return raw("agg", cls, *vs)
        if len(vs) == 1 and vs[0].op == "vec":   # std::array inner list
            return vs[0]
        return raw("vec", *vs)

    def x_unk(self, n, st, fr):
        vs = [self.ev(c, st, fr) for c in n.get("a", []) if isinstance(c, dict) and "k" in c]
        self.notes.append("unmodelled %s at %s" % (n["c"], fr.func.where(n.get("l"))))
        return raw("unk", n["c"], n.get("l") or 0, *vs)

    # ------------------------------------------------------------- calls
    def x_call(self, n, st, fr):
        r = self.call(n, st, fr)
        if isinstance(r, tuple):
            if self.record_reads and n.get("op") == "[]" or n["f"].name == "at":
                self.eff(Effect("read", loc=r, pc=st.pc, line=n.get("l"), func=fr.func, node=n), fr)
            return self.tmark(self.load(st, r), n["t"])
        return self.tmark(r, n["t"])

    def x_icall(self, n, st, fr):
        r = self.icall(n, st, fr)
        return self.load(st, r) if isinstance(r, tuple) else r

    def icall(self, n, st, fr):
        f = self.ev(n["fe"], st, fr)
        args = [self.ev(a, st, fr) for a in n["a"]]
        return self.apply(f, args, None, n, st, fr)

    def apply(self, f, args, argnodes, n, st, fr, locs=None):
        if f.op == "lam" and f.id in self.lamtab:
            return self.call_lambda(f, args, locs, n, st, fr)
        if f.op == "fnptr":
            d = self.prog.defs.get(f.a[0])
            if d is not None and self.should_inline(d, fr):
                return self.inline(d, None, args, locs, n, st, fr)
        t = raw("call", "apply", f, *args)
        self.eff(Effect("call", qn="apply", args=[f] + args, pc=st.pc, line=n["l"], func=fr.func, term=t), fr)
        return t

    def call_lambda(self, f, args, locs, n, st, fr, fnkey=None):
        node, caps, cfr = self.lamtab[f.id]
        key = fnkey or node["f"].key
        d = self.prog.defs.get(key)
        if d is None and node.get("inst"):
            for i in node["inst"]:
                d = self.prog.defs.get(i.key)
                if d: break
        if d is None or fr.depth >= self.max_depth or self.recursive(d, fr):
            return raw("call", "lambda", f, *args)
        fr2 = Frame(d, None, fr, n.get("l")); fr2.loopbase = len(self.loopstack)
        for c in caps:
            if c[0] == "this": fr2.this = c[2]
            elif c[0] == "ref": fr2.vars[c[1]] = c[2]
            else:
                root = raw("var", 0, ("lamcap", f.id), c[3] + "#" + str(c[1]))
                fr2.vars[c[1]] = (root, ())
                if root not in st.store:
                    self.store(st, (root, ()), c[2])
        self.bind(d, fr2, args, locs, st)
        return self.run_inline(d, fr2, st, n)

    def bind(self, d, fr2, args, locs, st):
        for i, p in enumerate(d.params):
            if i >= len(args): break
            if p["t"].ref:
                loc = locs[i] if locs and locs[i] is not None else None
                if loc is None:
                    loc = self.temp(args[i], st)
                fr2.vars[p["id"]] = loc
            else:
                loc = (raw("var", fr2.id, p["id"], p["n"]), ())
                fr2.vars[p["id"]] = loc
                self.store(st, loc, self.tmark(args[i], p["t"]) if False else args[i])

    def recursive(self, d, fr):
        f = fr
        while f is not None:
            if f.func is d: return True
            f = f.caller
        return False

    def should_inline(self, d, fr):
        if d.qn in self.opaque or d.key in self.opaque: return False
        if fr.depth >= self.max_depth or self.recursive(d, fr): return False
        if self.inline_pol is None: return True
        return self.inline_pol(d)

    def inline(self, d, this, args, locs, n, st, fr):
        fr2 = Frame(d, this, fr, n.get("l") if n else None); fr2.loopbase = len(self.loopstack)
        self.inlined.add(d.key)
        self.bind(d, fr2, args, locs, st)
        return self.run_inline(d, fr2, st, n)

    def run_inline(self, d, fr2, st, n):
        base = st.pc
        if d.isctor:
            self.ctor_inits(d, fr2, st)
        self.exec(d.body, st, fr2)
        return self.finish(d, fr2, st, base)

    def finish(self, d, fr2, st, base):
        """merge the return states of a frame into st; result term or location"""
        outs = list(fr2.returns)
        if not st.dead:
            outs.append((st.copy(), None))
        if not outs:
            st.dead = True
            return raw("never")
        isref = d.rt is not None and d.rt.ref
        cur, val = outs[-1]
        cur = cur.copy() if True else cur
        for s, v in reversed(outs[:-1]):
            c = land(*s.pc[len(base):])
            m = State()
            # values
            if isref and v is not None and val is not None:
                if v != val:
                    lv, lw = self.load(s, v), self.load(cur, val)
                    m2 = ite(c, lv, lw)
                    nv = self.temp(m2, cur)
                    s.store.setdefault(nv[0], {})[()] = m2
                    v = nv
                nval = v
            else:
                nval = v if val is None else (val if v is None else ite(c, v, val))
            self.merge(m, base, c, s, cur)
            cur, val = m, nval
        st.store, st.pc, st.dead = cur.store, cur.pc, False
        if val is None:
            return ZERO
        return val

    def ctor_inits(self, d, fr2, st):
        for i in d.inits:
            e = i.get("e")
            if e is None: continue
            if i.get("m"):
                loc = (fr2.this[0], fr2.this[1] + (F(i["m"]),))
                if e["k"] == "ctor" and e["f"].key in self.prog.defs and not e.get("copy") and not e.get("move"):
                    self.construct(e, loc, st, fr2)
                else:
                    ft = None
                    rec = self.prog.records.get(d.cls)
                    if rec:
                        ft = next((f["t"] for f in rec["fields"] if f["n"] == i["m"]), None)
                    if ft is not None and ft.ref:
                        continue
                    self.store(st, loc, self.ev(e, st, fr2))
            else:
                if e["k"] == "ctor":
                    self.construct(e, fr2.this, st, fr2)
                else:
                    self.store(st, fr2.this, self.ev(e, st, fr2))

    def construct(self, e, loc, st, fr):
        """run constructor e for the object at loc"""
        f = e["f"]
        d = self.prog.defs.get(f.key)
        if e.get("copy") or e.get("move"):
            if d is None or not self.inline_copy(d):
                v = self.ev(e["a"][0], st, fr)
                self.store(st, loc, v)
                return
        if d is not None and self.should_inline(d, fr):
            args, locs = self.evargs(f, e["a"], st, fr)
            if e.get("zi"):
                self.store(st, loc, raw("zeroinit", e["cls"]))
            self.inline(d, loc, args, locs, e, st, fr)
            return
        self.store(st, loc, self.ev(e, st, fr))

    def inplace(self, e):
        """is the constructor run on the object itself?"""
        d = self.prog.defs.get(e["f"].key)
        if d is None: return False
        return self.inline_copy(d) if e.get("copy") or e.get("move") else True

    def inline_copy(self, d):
        return self.copies is not None and self.copies(d)

    def x_ctor(self, n, st, fr):
        f = n["f"]
        cls = n["cls"]
        if n.get("copy") or n.get("move"):
            d = self.prog.defs.get(f.key)
            if d is None or not self.inline_copy(d):
                return self.ev(n["a"][0], st, fr)
        d = self.prog.defs.get(f.key)
        if d is not None and self.should_inline(d, fr):
            self.nheap += 1
            root = raw("tmp", self.nheap)
            args, locs = self.evargs(f, n["a"], st, fr)
            if n.get("zi"):
                self.store(st, (root, ()), raw("zeroinit", cls))
            self.inline(d, (root, ()), args, locs, n, st, fr)
            return self.load(st, (root, ()))
        if d is None and cls in self.prog.records and not n["a"]:
            # trivial default constructor: fields indeterminate (or zero when value-initialised)
            if n.get("zi"): return raw("zeroinit", cls)
            over = []
            for fd in self.prog.records[cls]["fields"]:
                if fd.get("e"):
                    over.append(((F(fd["n"]),), self.ev(fd["e"], st, fr)))
            return self.recval(raw("undef", cls, 0), over)
        return self.std_ctor(n, cls, st, fr)

    def std_ctor(self, n, cls, st, fr):
        a = n["a"]
        if cls.startswith("std::") or cls.startswith("__gnu_cxx"):
            real = [x for x in a if not (x.get("dfa")) and not (x["k"] == "ctor" and "allocator" in x["cls"])]
            if cls in ("std::basic_string", "std::basic_string_view"):
                if not real: return raw("str", "")
                if len(real) == 1: return self.ev(real[0], st, fr)
            if cls == "std::shared_ptr" or cls == "std::unique_ptr":
                if not real: return NULL
                return self.ev(real[0], st, fr)
            if cls == "std::optional":
                if not real: return raw("none")
                v = self.ev(real[0], st, fr)
                if real[0].get("t") is not None and "nullopt" in real[0]["t"].s: return raw("none")
                if v.op in ("none", "some"): return v
                if real[0].get("t") is not None and real[0]["t"].base.startswith("std::optional"): return v
                return raw("some", v)
            if cls in ("std::function",):
                if len(real) == 1: return self.ev(real[0], st, fr)
                return NULL
            if cls == "std::variant":
                if len(real) == 1: return self.ev(real[0], st, fr)
            if cls == "std::pair" and len(real) == 2:
                return raw("pair", *[self.ev(x, st, fr) for x in real])
            if cls == "std::tuple" and real and not (len(real) == 1 and real[0].get("t") is not None and real[0]["t"].base.startswith("std::tuple")):
                return raw("tuple", *[self.ev(x, st, fr) for x in real])
            if cls in ("std::vector", "std::list", "std::queue", "std::deque", "std::map", "std::set", "std::array"):
                if not real: return raw("vec")
                if len(real) == 1:
                    v = self.ev(real[0], st, fr)
                    if real[0].get("t") is not None and real[0]["t"].isint:
                        return raw("filled", ZERO, v)
                    return v
                vs = [self.ev(x, st, fr) for x in real]
                if len(vs) == 2 and vs[0].op == "itr" and vs[1].op == "itr" and vs[0].a[0] is vs[1].a[0]:
                    loc = self.deref(vs[0].a[0]); cont = self.load(st, loc)
                    if vs[0].a[1] is ZERO and vs[1].a[1] is self.sizeof(cont): return cont
                    if cont.op == "vec" and isnum(vs[0].a[1]) and isnum(vs[1].a[1]): return raw("vec", *cont.a[int(vs[0].a[1].a[0]):int(vs[1].a[1].a[0])])
                    return raw("slice", cont, vs[0].a[1], vs[1].a[1])
                if len(vs) == 2 and cls == "std::vector" and real[0].get("t") is not None and real[0]["t"].isint:
                    return raw("filled", vs[1], vs[0])
        real = [x for x in a if not (x["k"] == "ctor" and "allocator" in x["cls"])]
        args, locs = self.evargs(n["f"], real, st, fr)
        t = raw("new", cls, *args)
        if not cls.startswith("std::") and not cls.startswith("fmt::"):
            self.eff(Effect("call", fn=n["f"], qn=n["f"].qn, args=args, argv=locs, pc=st.pc, line=n["l"], func=fr.func, term=t, node=n), fr)
        self.outrefs(n["f"], locs, t, st)
        return t

    def evargs(self, f, nodes, st, fr, skip=0):
        args, locs = [], []
        for i, a in enumerate(nodes):
            pt = f.pt[i] if i < len(f.pt) else None
            if pt is not None and pt.ref and a["k"] in ("var", "mem", "idx", "un", "call", "cond", "cast", "asg", "icall") and not (a["k"] == "var" and (a.get("cv") is not None)):
                if a["k"] == "un" and a["op"] not in ("*", "++", "--") or a["k"] == "cast":
                    args.append(self.ev(a, st, fr)); locs.append(None); continue
                loc = self.lval(a, st, fr)
                if loc is None:
                    args.append(self.ev(a, st, fr)); locs.append(None); continue
                v = self.load(st, loc)
                self.tmark(v, a.get("t"))
                if self.record_reads and a["k"] in ("idx",):
                    self.eff(Effect("read", loc=loc, pc=st.pc, line=a.get("l"), func=fr.func, node=a), fr)
                args.append(v); locs.append(loc)
            else:
                args.append(self.ev(a, st, fr)); locs.append(None)
        return args, locs

    def outrefs(self, f, locs, t, st, skip=0):
        if f.qn.startswith("fmt::"): return
        for i, l in enumerate(locs):
            if l is None: continue
            pt = f.pt[i] if i < len(f.pt) else None
            if pt is not None and pt.ref and not pt.const and "&&" not in pt.s:
                self.store(st, l, raw("out", t, i))

    def sizeof(self, v):
        if v.op == "vec": return num(len(v.a))
        if v.op == "str": return num(len(v.a[0]))
        if v.op == "filled": return v.a[1]
        if v.op == "ite": return ite(v.a[0], self.sizeof(v.a[1]), self.sizeof(v.a[2]))
        if v.op == "pushed": return add(self.sizeof(v.a[0]), ONE)
        if v.op == "slice": return sub(v.a[2], v.a[1])
        if v.op == "rec":
            return self.sizeof(v.a[0]) if all(x.a[0].op == "i" for x in v.a[1:]) else markint(raw("size", v))
        if v.op == "resized": return v.a[1]
        if v.op == "zeroinit": return ZERO
        if v.op in ("iter", "lout") and (v.a[0], v.a[1]) in self.sizealias: return self.sizealias[(v.a[0], v.a[1])]
        return markint(raw("size", v))

    def call(self, n, st, fr):
        """result term, or a location when the callee returns a reference we can resolve"""
        f = n["f"]
        qn = f.qn
        a = n["a"]
        # ---- std models
        if qn.startswith("std::") or qn.startswith("__gnu_cxx::"):
            r = self.std_call(n, f, qn, a, st, fr)
            if r is not NotImplemented:
                return r
        elif qn in PURE_STD:
            return self.purestd(PURE_STD[qn], [self.ev(x, st, fr) for x in a])
        # ---- lambda call operator
        if f.lam and f.name == "operator()" and n.get("obj") is not None:
            o = self.ev(n["obj"], st, fr)
            args, locs = self.evargs(f, a, st, fr)
            if o.op == "lam" and o.id in self.lamtab:
                return self.call_lambda(o, args, locs, n, st, fr, fnkey=f.key if f.key in self.prog.defs else None)
            t = raw("call", "apply", o, *args)
            return t
        d = self.prog.defs.get(f.key)
        obj = n.get("obj")
        # implicit/defaulted assignment of repo or std class: whole-value copy
        if n.get("op") == "=" and obj is not None and (f.casg or f.masg) and (d is None or f.implicit or not self.inline_copy(d)):
            v = self.ev(a[0], st, fr)
            loc = self.lval(obj, st, fr)
            if loc is not None:
                self.write(st, loc, v, n["l"], fr)
                return loc
            return v
        this = None
        if obj is not None:
            if n.get("arrow"):
                this = self.deref(self.ev(obj, st, fr))
            elif obj["k"] == "this":
                this = fr.this
            else:
                this = self.lval(obj, st, fr)
        args, locs = self.evargs(f, a, st, fr)
        if d is not None and self.should_inline(d, fr):
            return self.inline(d, this, args, locs, n, st, fr)
        return self.opaque_call(n, f, this, args, locs, st, fr)

    def pointed(self, st, args):
        """the arguments, with what a pointer to a known object points to in place of the pointer"""
        return tuple(self.load(st, self.deref(x)) if x is not None and x.op == "ref" else x for x in args)

    def opaque_call(self, n, f, this, args, locs, st, fr):
        qn = f.qn
        targs = []
        if this is not None:
            ov = self.load(st, this)
            targs.append(ov)
        name = qn + ("<" + ",".join(f.ta) + ">" if f.ta and not qn.startswith(("std::", "fmt::")) else "")
        # pointers to locals: show the pointee's value as well
        vargs = []
        for x in args:
            vargs.append(x)
        t = raw("call", name, *(targs + vargs))
        e = self.eff(Effect("call", fn=f, qn=qn, obj=this, args=args, argv=locs, pc=st.pc, line=n["l"], func=fr.func, term=t, node=n, old=targs[0] if targs else None, ta=f.ta, pts=self.pointed(st, args)), fr)
        if this is not None and not f.const and not f.static and not self.is_pure(f):
            if self.is_local(this[0]) or True:
                self.store(st, this, raw("upd", targs[0], t))
        self.outrefs(f, locs, t, st)
        for i, x in enumerate(args):
            if x.op == "ref" and self.is_local(x.a[0]) and not (i < len(f.pt) and "const " in f.pt[i].s):
                self.store(st, (x.a[0], x.a[1:]), raw("out", t, i))
        # algorithms that rearrange or overwrite the range an iterator points into
        if qn in REARRANGE:
            for i in REARRANGE[qn]:
                x = args[i] if -len(args) <= i < len(args) else None
                if x is None or x.op != "itr": continue
                l = self.deref(x.a[0])
                if l is not None: self.store(st, l, raw("upd", self.load(st, l), t))
        if f.noret:
            st.dead = True
        return t

    PURE_METHODS = ("begin", "end", "size", "get", "c_str", "data", "front", "back")

    def is_pure(self, f):
        if f.qn in self.pure: return True
        return f.name in self.PURE_METHODS or f.qn.endswith(("::getSpace",)) or "Reader::get" in f.qn or "Builder::init" in f.qn or "Builder::operator[]" in f.qn or "Builder::set" in f.qn or "Reader::operator[]" in f.qn or f.qn == "capnp::MessageReader::getRoot" or f.qn == "capnp::MessageBuilder::initRoot" or f.name in ("openAttribute", "attrExists", "openDataSet", "getDataType")

    def purestd(self, op, v):
        if op == "abs": return tabs(v[0])
        if op == "max": return tmax(*v)
        if op == "min": return tmin(*v)
        if op == "pow" and isnum(v[1]) and v[1].a[0] in (1, 2, 3, 4):
            r = ONE
            for _ in range(int(v[1].a[0])): r = mul(r, v[0])
            return r
        if op in ("floor", "ceil", "round") and v[0].id in TT._INTS: return v[0]
        return raw(op, *v)

    def whole_range(self, b, e, st):
        """value of the container whose begin() and end() are b and e"""
        if b.op == "itr" and e.op == "itr" and b.a[0] is e.a[0] and b.a[1] is ZERO:
            cv = self.load(st, self.deref(b.a[0]))
            if e.a[1] is self.sizeof(cv): return cv
        return None

    def std_call(self, n, f, qn, a, st, fr):
        name = f.name
        op = n.get("op")
        obj = n.get("obj")
        if qn in ("std::move", "std::forward", "std::ref", "std::cref", "std::as_const"):
            if qn == "std::move" and len(a) > 1: return NotImplemented
            if a[0]["k"] in ("var", "mem", "idx", "un"):
                l = self.lval(a[0], st, fr)
                if l is not None: return l
            return self.ev(a[0], st, fr)
        if qn in ("std::accumulate", "std::reduce") and len(a) >= 3:
            vs = [self.ev(x, st, fr) for x in a]
            cv = self.whole_range(vs[0], vs[1], st)
            if cv is not None:
                nm = "sum_of"
                if len(vs) > 3:
                    o = vs[3]
                    nm = "product_of" if contains(o, lambda x: any(isinstance(y, str) and "multiplies" in y for y in x.a)) else None
                if nm:
                    init, wide = vs[2], a[2].get("t")
                    r = raw("call", nm, cv, init)
                    if wide is not None and wide.isint and wide.bits and wide.bits < 64: r = raw("cast", "i%d" % wide.bits, r)
                    return markint(r) if wide is not None and wide.isint else r
            vs_args, locs = self.evargs(f, a, st, fr)
            r = self.opaque_call(n, f, None, vs_args, locs, st, fr)
            wide = a[2].get("t")   # the sum is kept in the type of the start value
            if wide is not None and wide.isint and wide.bits and wide.bits < 64: r = raw("cast", "i%d" % wide.bits, r)
            return r
        if qn == "std::addressof": return self.addr(self.lval(a[0], st, fr))
        if qn in PURE_STD:
            return self.purestd(PURE_STD[qn], [self.ev(x, st, fr) for x in a])
        if qn in ("std::min", "std::max"):
            if len(a) == 1:
                v = self.ev(a[0], st, fr)
                if v.op == "vec": return (tmin if name == "min" else tmax)(*v.a)
                return raw(name, v)
            if len(a) == 2:
                return (tmin if name == "min" else tmax)(self.ev(a[0], st, fr), self.ev(a[1], st, fr))
        if qn in ("std::make_shared", "std::make_unique"):
            return self.make_shared(n, f, a, st, fr)
        if qn == "std::make_pair": return raw("pair", *[self.ev(x, st, fr) for x in a])
        if qn == "std::make_tuple": return raw("tuple", *[self.ev(x, st, fr) for x in a])
        if qn == "std::make_optional" and len(a) == 1: return raw("some", self.ev(a[0], st, fr))
        if qn == "std::tie":
            ls = [self.lval(x, st, fr) for x in a]
            return raw("tie", *[raw("ref", l[0], *l[1]) for l in ls])
        if qn == "std::tuple::operator=":
            o = self.ev(obj, st, fr)
            v = self.ev(a[0], st, fr)
            if o.op == "tie":
                for i, r in enumerate(o.a):
                    self.write(st, self.deref(r), self.rec_get(v, (F("#%d" % i),)), n["l"], fr)
                return v
            self.write(st, self.lval(obj, st, fr), v, n["l"], fr)
            return v
        if qn == "std::get":
            idx = f.ta[0] if f.ta else "?"
            if idx.isdigit():
                l = self.lval(a[0], st, fr) if a[0]["k"] in ("var", "mem", "idx") else None
                if l is not None: 
                    tn = a[0].get("t")
                    if tn is not None and tn.base.startswith("std::pair"): return (l[0], l[1] + (F(("first", "second")[int(idx)]),))
                    return (l[0], l[1] + (F("#" + idx),))
                v = self.ev(a[0], st, fr)
                if v.op == "pair" or (a[0].get("t") is not None and a[0]["t"].base.startswith("std::pair")): return self.rec_get(v, (F(("first", "second")[int(idx)]),))
                return self.rec_get(v, (F("#" + idx),))
            v = self.ev(a[0], st, fr)
            return v if v.op in ("num", "str", "poly") else raw("alt", idx, v)
        if qn == "std::holds_alternative":
            return markbool(raw("holds", f.ta[0] if f.ta else "?", self.ev(a[0], st, fr)))
        if qn.startswith("std::numeric_limits::") and not a:
            cls_t = n["t"]
            return raw("limit", name, cls_t.base if cls_t is not None else "?")
        # ---- smart pointers
        cls = f.cls or ""
        if cls in ("std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "std::unique_ptr"):
            if name in ("operator->", "get"):
                return self.ev(obj, st, fr)
            if name == "operator*":
                l = self.deref(self.ev(obj, st, fr))
                return l
            if name == "operator bool": return truth(self.ev(obj, st, fr))
            if name == "operator=" or name == "reset":
                v = self.ev(a[0], st, fr) if a else NULL
                l = self.lval(obj, st, fr)
                self.write(st, l, v, n["l"], fr)
                return l
        if cls == "std::optional":
            if name in ("value", "operator*", "operator->"):
                v = self.ev(obj, st, fr)
                r = v.a[0] if v.op == "some" else raw("optval", v)
                if v.op == "ite":
                    g = lambda x: x.a[0] if x.op == "some" else (ite(x.a[0], g(x.a[1]), g(x.a[2])) if x.op == "ite" else raw("optval", x))
                    r = g(v)
                if name == "operator->": return self.addr(self.temp(r, st))
                return r
            if name in ("has_value", "operator bool"):
                v = self.ev(obj, st, fr)
                g = lambda v: TRUE if v.op == "some" else FALSE if v.op == "none" else ite(v.a[0], g(v.a[1]), g(v.a[2])) if v.op == "ite" else markbool(raw("hasval", v))
                return g(v)
            if name == "value_or":
                v = self.ev(obj, st, fr); d = self.ev(a[0], st, fr)
                if v.op == "some": return v.a[0]
                if v.op == "none": return d
                return ite(markbool(raw("hasval", v)), raw("optval", v), d)
            if name == "operator=":
                v = self.ev(a[0], st, fr)
                if a[0].get("t") is not None and "nullopt" in a[0]["t"].s: v = raw("none")
                elif v.op not in ("some", "none") and not (a[0].get("t") is not None and a[0]["t"].base.startswith("std::optional")): v = raw("some", v)
                l = self.lval(obj, st, fr)
                self.write(st, l, v, n["l"], fr)
                return l
            if name == "reset":
                l = self.lval(obj, st, fr); self.write(st, l, raw("none"), n["l"], fr); return l
        if cls == "std::function" and name == "operator()":
            o = self.ev(obj, st, fr)
            args, locs = self.evargs(f, a, st, fr)
            return self.apply(o, args, a, n, st, fr, locs)
        if cls == "std::function" and name == "operator=":
            v = self.ev(a[0], st, fr); l = self.lval(obj, st, fr); self.write(st, l, v, n["l"], fr); return l
        # ---- iterators
        if cls in ("__gnu_cxx::__normal_iterator", "std::_List_iterator", "std::_List_const_iterator", "std::reverse_iterator", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator"):
            if name in ("operator*", "operator->"):
                v = self.ev(obj, st, fr)
                return self.deref(v) if name == "operator*" else (self.addr(self.deref(v)))
            if name in ("operator++", "operator--"):
                l = self.lval(obj, st, fr); old = self.load(st, l)
                d = ONE if "++" in name else num(-1)
                new = raw("itr", old.a[0], add(old.a[1], d)) if old.op == "itr" else raw("itnext", old)
                self.write(st, l, new, n["l"], fr)
                return old if a else l
            if name in ("operator+", "operator-"):
                v = self.ev(obj, st, fr); k = self.ev(a[0], st, fr)
                return self.itrop(name[-1], v, k)
            if name in ("operator+=", "operator-="):
                l = self.lval(obj, st, fr); k = self.ev(a[0], st, fr)
                self.write(st, l, self.itrop(name[8], self.load(st, l), k), n["l"], fr)
                return l
            if name == "operator=":
                v = self.ev(a[0], st, fr); l = self.lval(obj, st, fr); self.write(st, l, v, n["l"], fr); return l
        if op in ("==", "!=", "<", ">", "<=", ">=", "-", "+") and obj is None and len(a) == 2:
            x, y = self.ev(a[0], st, fr), self.ev(a[1], st, fr)
            if x.op == "itr" or y.op == "itr": return self.itrop(op, x, y)
            if op == "==": return eq(x, y)
            if op == "!=": return ne(x, y)
            if op == "+": return raw("cat", x, y) if True else None
            if op in ("<", ">", "<=", ">="):
                return markbool(raw("ord" + op, x, y))
            return NotImplemented
        if op in ("==", "!=") and obj is not None and len(a) == 1:
            x, y = self.ev(obj, st, fr), self.ev(a[0], st, fr)
            r = self.itrop(op, x, y) if x.op == "itr" or y.op == "itr" else (eq(x, y) if op == "==" else ne(x, y))
            return r
        if qn in ("std::begin", "std::end", "std::cbegin", "std::cend", "std::size"):
            l = self.lval(a[0], st, fr)
            return self.cont_method(name.lstrip("c"), l, n, f, [], st, fr)
        if qn in ("std::next", "std::prev"):
            v = self.ev(a[0], st, fr); k = self.ev(a[1], st, fr) if len(a) > 1 else ONE
            return self.itrop("+" if name == "next" else "-", v, k)
        if qn == "std::distance":
            return self.itrop("-", self.ev(a[1], st, fr), self.ev(a[0], st, fr))
        if qn == "std::swap" and len(a) == 2:
            l1, l2 = self.lval(a[0], st, fr), self.lval(a[1], st, fr)
            v1, v2 = self.load(st, l1), self.load(st, l2)
            self.write(st, l1, v2, n["l"], fr); self.write(st, l2, v1, n["l"], fr)
            return ZERO
        if qn == "std::for_each" and len(a) == 3:
            r = self.algo_loop(n, a, st, fr)
            if r is not None: return r
        # ---- containers
        if cls in ("std::vector", "std::list", "std::queue", "std::deque", "std::map", "std::unordered_map", "std::set", "std::array", "std::basic_string", "std::basic_string_view", "std::pair", "std::initializer_list"):
            if obj is not None:
                if n.get("arrow"):
                    l = self.deref(self.ev(obj, st, fr))
                elif obj["k"] == "this": l = fr.this
                else: l = self.lval(obj, st, fr)
                if name == "operator=":
                    v = self.ev(a[0], st, fr)
                    self.write(st, l, v, n["l"], fr)
                    return l
                r = self.cont_method(name, l, n, f, a, st, fr)
                if r is not NotImplemented: return r
                args, locs = self.evargs(f, a, st, fr)
                return self.opaque_call(n, f, l, args, locs, st, fr)
        if cls in ("std::basic_ostream", "std::ostream"):
            args, locs = self.evargs(f, a, st, fr)
            self.eff(Effect("call", fn=f, qn=qn, args=args, pc=st.pc, line=n["l"], func=fr.func, term=raw("str", "io"), node=n, pts=self.pointed(st, args)), fr)
            return self.lval(obj, st, fr) if obj is not None else raw("str", "io")
        return NotImplemented

    def algo_loop(self, n, a, st, fr):
        b, e = self.ev(a[0], st, fr), self.ev(a[1], st, fr)
        fn = self.ev(a[2], st, fr)
        if b.op != "itr" or e.op != "itr" or b.a[0] is not e.a[0] or fn.op != "lam": return None
        cl = self.deref(b.a[0])
        L = Loop("algo", n["l"], fr.func)
        L.trip = sub(e.a[1], b.a[1])

        def body(s, f2):
            loc = (cl[0], cl[1] + (I(add(b.a[1], L.ctr)),))
            self.call_lambda(fn, [self.load(s, loc)], [loc], n, s, f2)
        self.run_loop(L, st, fr, body)
        return fn

    def cont_method(self, name, l, n, f, a, st, fr):
        if name in ("operator[]", "at"):
            i = self.ev(a[0], st, fr)
            loc = (l[0], l[1] + (I(i),))
            if self.record_reads:
                self.eff(Effect("index", loc=loc, pc=st.pc, line=n.get("l"), func=fr.func, node=n, qn=name, old=self.load(st, l)), fr)
            return loc
        if name == "size" or name == "length": return self.sizeof(self.load(st, l))
        if name == "empty": return eq(self.sizeof(self.load(st, l)), ZERO)
        if name in ("begin", "cbegin"): return raw("itr", raw("ref", l[0], *l[1]), ZERO)
        if name in ("end", "cend"): return raw("itr", raw("ref", l[0], *l[1]), self.sizeof(self.load(st, l)))
        if name == "front":
            if self.record_reads: self.eff(Effect("index", loc=(l[0], l[1] + (I(ZERO),)), pc=st.pc, line=n.get("l"), func=fr.func, node=n, qn=name, old=self.load(st, l)), fr)
            return (l[0], l[1] + (I(ZERO),))
        if name == "back":
            i = sub(self.sizeof(self.load(st, l)), ONE)
            if self.record_reads: self.eff(Effect("index", loc=(l[0], l[1] + (I(i),)), pc=st.pc, line=n.get("l"), func=fr.func, node=n, qn=name, old=self.load(st, l)), fr)
            return (l[0], l[1] + (I(i),))
        if name in ("data", "c_str"):
            if f.cls in ("std::basic_string", "std::basic_string_view"): return self.load(st, l)
            return raw("ref", l[0], *(l[1] + (I(ZERO),))) if False else raw("ref", l[0], *l[1])
        if name in ("push_back", "emplace_back", "push", "emplace", "push_front", "insert"):
            old = self.load(st, l)
            args, locs = self.evargs(f, a, st, fr)
            if name == "emplace_back" and len(args) != 1:
                v = raw("emplaced", *args)
            else:
                v = args[-1] if args else raw("dflt")
            self.eff(Effect("call", fn=f, qn=f.qn, obj=l, args=args, argv=locs, pc=st.pc, line=n["l"], func=fr.func, term=raw("str", "push"), node=n, old=old), fr)
            if old.op == "vec" and name in ("push_back", "emplace_back"): new = raw("vec", *(old.a + (v,)))
            elif name in ("push_back", "emplace_back"): new = raw("pushed", old, v)
            else: new = raw("pushed_" + name, old, *args)
            self.store(st, l, new)
            return (l[0], l[1] + (I(self.sizeof(old)),)) if name == "emplace_back" else ZERO
        if name in ("pop", "pop_back"):
            old = self.load(st, l)
            self.eff(Effect("call", fn=f, qn=f.qn, obj=l, args=[], pc=st.pc, line=n["l"], func=fr.func, term=raw("str", "pop"), node=n, old=old), fr)
            self.store(st, l, raw("popped", old)); return ZERO
        if name == "clear":
            self.eff(Effect("call", fn=f, qn=f.qn, obj=l, args=[], pc=st.pc, line=n["l"], func=fr.func, term=raw("str", "clear"), node=n), fr)
            self.store(st, l, raw("vec")); return ZERO
        if name in ("reserve", "shrink_to_fit"):
            for x in a: self.ev(x, st, fr)
            return ZERO
        if name == "resize":
            args = [self.ev(x, st, fr) for x in a]
            old = self.load(st, l)
            self.store(st, l, raw("filled", args[1] if len(args) > 1 else ZERO, args[0]) if old.op == "vec" and not old.a else raw("resized", old, args[0]))
            return ZERO
        if name in ("operator basic_string_view", "operator basic_string", "str"): return self.load(st, l)
        if name == "operator+=" or name == "append" and len(a) == 1 and f.cls == "std::basic_string":
            v = self.ev(a[0], st, fr)
            self.write(st, l, raw("cat", self.load(st, l), v), n["l"], fr)
            return l
        if name in ("find",) and f.cls in ("std::map", "std::unordered_map"):
            k = self.ev(a[0], st, fr)
            return raw("itr", raw("ref", l[0], *l[1]), raw("find", self.load(st, l), k))
        return NotImplemented

    def make_shared(self, n, f, a, st, fr):
        self.nheap += 1
        root = raw("heap", self.nheap)
        # find the matching constructor definition by type name and argument count
        cls = f.ta[0] if f.ta else "?"
        args, locs = self.evargs(f, a, st, fr)
        cands = []
        short = cls.split("<")[0]
        for d in self.prog.byqn.get(short + "::" + short.rsplit("::", 1)[-1], []):
            if d.isctor and len(d.params) == len(a): cands.append(d)
        if len(a) == 1 and a[0].get("t") is not None and a[0]["t"].base == cls:
            self.store(st, (root, ()), args[0])
        elif len(cands) == 1 and self.should_inline(cands[0], fr):
            self.inline(cands[0], (root, ()), args, locs, n, st, fr)
        else:
            self.store(st, (root, ()), raw("new", cls, *args))
        return raw("ref", root)

    # ------------------------------------------------------------- statements
    def exec(self, n, st, fr):
        if st.dead or n is None: return
        k = n["k"]
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(n, st, fr)
        self.ev(n, st, fr)

    def s_block(self, n, st, fr):
        for s in n["s"]:
            if st.dead: return
            self.exec(s, st, fr)

    def declare(self, v, st, fr):
        e = v.get("e")
        t = v["t"]
        if v.get("static"):
            fr.vars[v["id"]] = (raw("glob", "static:%s" % v["n"]), ()); return
        if t.ref and not v.get("binds"):
            if e is None: return
            loc = self.lval(e, st, fr)
            if loc is None: loc = fr.this
            fr.vars[v["id"]] = loc
            return
        loc = (raw("var", fr.id, v["id"], v["n"]), ())
        st.store.pop(loc[0], None)
        fr.vars[v["id"]] = loc
        if v.get("binds"):
            if t.ref and e is not None:
                loc = self.lval(e, st, fr)
            else:
                self.store(st, loc, self.ev(e, st, fr))
            fr.vars[v["id"]] = loc
            for i, b in enumerate(v["binds"]):
                be = b.get("e")
                name = None
                if be is not None and be["k"] == "mem": name = be["f"]
                elif t.base.startswith("std::pair"): name = ("first", "second")[i]
                else: name = "#%d" % i
                fr.vars[b["id"]] = (loc[0], loc[1] + (F(name),))
            return
        if e is None:
            return
        if e["k"] == "ctor" and self.inplace(e):
            self.construct(e, loc, st, fr)
        else:
            self.store(st, loc, self.ev(e, st, fr))

    def s_decl(self, n, st, fr):
        for v in n["v"]:
            if st.dead: return
            self.declare(v, st, fr)

    def s_ret(self, n, st, fr):
        v = None
        if n.get("e"):
            if fr.func.rt is not None and fr.func.rt.ref:
                v = self.lval(n["e"], st, fr)
                if v is None: v = fr.this
            else:
                v = self.ev(n["e"], st, fr)
        if st.dead: return
        for L in self.loopstack[fr.loopbase:]: L.hasret = True
        if fr.caller is None:
            tv = self.load(st, v) if isinstance(v, tuple) else v
            self.eff(Effect("ret", val=tv, loc=v if isinstance(v, tuple) else None, args=[tv] if tv is not None else [], pc=st.pc, line=n["l"], func=fr.func), fr)
        fr.returns.append((st.copy(), v))
        st.dead = True

    def s_break(self, n, st, fr):
        fr.brk[-1].append(st.copy()); st.dead = True

    def s_continue(self, n, st, fr):
        fr.cont[-1].append(st.copy()); st.dead = True

    def s_if(self, n, st, fr):
        if n.get("init"): self.exec(n["init"], st, fr)
        if n.get("cv"): self.declare(n["cv"], st, fr)
        c = truth(self.ev(n["c"], st, fr))
        if st.dead: return
        c = self.decide(c, st)
        if c is TRUE: return self.exec(n["x"], st, fr)
        if c is FALSE:
            if n.get("y"): self.exec(n["y"], st, fr)
            return
        base = st.pc
        a = st.copy(); a.pc = self.ext(base, c)
        b = st; bs = st.copy(); bs.pc = self.ext(base, lnot(c))
        self.exec(n["x"], a, fr)
        if n.get("y"): self.exec(n["y"], bs, fr)
        self.merge(st, base, c, a, bs)

    def decide(self, c, st):
        """condition already known on this path?"""
        if c in (TRUE, FALSE): return c
        if c in st.pc: return TRUE
        if lnot(c) in st.pc: return FALSE
        if c.op == "and":
            return land(*[self.decide(x, st) for x in c.a])
        if c.op == "or":
            return lor(*[self.decide(x, st) for x in c.a])
        return c

    def s_switch(self, n, st, fr):
        v = self.ev(n["c"], st, fr)
        segs = []   # (labels, [stmts])

        def flat(s):
            labels = []
            while s is not None and s["k"] in ("case", "default"):
                labels.append(s.get("cv", s.get("c")) if s["k"] == "case" else "default")
                s = s["b"]
            return labels, s
        body = n["b"]
        stmts = body["s"] if body["k"] == "block" else [body]
        for s in stmts:
            if s["k"] in ("case", "default"):
                labels, inner = flat(s)
                segs.append([labels, [inner] if inner is not None else []])
            elif segs:
                segs[-1][1].append(s)
        vals = []
        for labels, _ in segs:
            for l in labels:
                if l != "default": vals.append(num(l) if not isinstance(l, dict) else self.ev(l, st, fr))
        if isnum(v):
            start = None
            for i, (labels, _) in enumerate(segs):
                if any(l != "default" and (num(l) is v) for l in labels): start = i
            if start is None:
                for i, (labels, _) in enumerate(segs):
                    if "default" in labels: start = i
            if start is None: return
            fr.brk.append([])
            for labels, ss in segs[start:]:
                for s in ss:
                    if st.dead: break
                    self.exec(s, st, fr)
            brk = fr.brk.pop()
            self.join(st, brk, st.pc if False else self._pcbase(st, brk))
            return
        base = st.pc
        fr.brk.append([])
        entry = st.copy()
        cur = None   # fallthrough state
        outs = []
        hasdef = False
        for labels, ss in segs:
            conds = []
            for l in labels:
                if l == "default":
                    hasdef = True
                    conds.append(land(*[ne(v, x) for x in vals]))
                else:
                    conds.append(eq(v, num(l) if not isinstance(l, dict) else self.ev(l, entry, fr)))
            c = self.decide(lor(*conds), entry)
            s1 = entry.copy()
            s1.dead = c is FALSE
            s1.pc = self.ext(base, c)
            if cur is not None and not cur.dead:
                m = State()
                self.merge(m, base, c, s1, cur)
                s1 = m
            for s in ss:
                if s1.dead: break
                self.exec(s, s1, fr)
            cur = s1
        if cur is not None and not cur.dead: outs.append(cur)
        if not hasdef:
            s1 = entry.copy(); s1.pc = self.ext(base, land(*[ne(v, x) for x in vals])); outs.append(s1)
        outs += fr.brk.pop()
        st.dead = True
        self.join(st, outs, base)

    def _pcbase(self, st, others):
        pcs = [o.pc for o in others] + ([st.pc] if not st.dead else [])
        if not pcs: return st.pc
        n = 0
        while all(len(p) > n for p in pcs) and all(p[n] is pcs[0][n] for p in pcs): n += 1
        return pcs[0][:n]

    def join(self, st, others, base):
        """merge states in others (disjoint path conditions) into st (which may be dead)"""
        live = [o for o in others if not o.dead]
        if not st.dead: live.append(st.copy())
        if not live:
            st.dead = True; return
        cur = live[-1]
        for s in reversed(live[:-1]):
            m = State()
            self.merge(m, base, land(*s.pc[len(base):]), s, cur)
            cur = m
        st.store, st.pc, st.dead = cur.store, cur.pc, False

    def s_try(self, n, st, fr):
        pre = st.copy()
        ne_ = len(self.effects)
        self.throws.append([])
        self.exec(n["b"], st, fr)
        thrown = self.throws.pop()
        if not n["h"]:
            return
        # a handler may start from any intermediate state of the body: havoc what the body changed
        mod = self.changed(pre, [st] + [s for s, _ in thrown])
        outs = []
        self.nheap += 1
        eid = self.nheap
        for i, h in enumerate(n["h"]):
            s = pre.copy()
            for root, p in mod:
                self.store(s, (root, p), raw("exc", eid, self.load(pre, (root, p)), self.load(st, (root, p))))
            c = markbool(raw("caught", eid, h["t"].base if h["t"] else "..."))
            s.pc = pre.pc + (c,)
            if h.get("v"):
                loc = (raw("var", fr.id, h["v"]["id"], h["v"]["n"]), ())
                fr.vars[h["v"]["id"]] = loc
                self.store(s, loc, raw("exception", eid))
            self.exec(h["b"], s, fr)
            outs.append(s)
        for s in outs:
            if not s.dead:
                if st.dead:
                    st.assign(s.copy())
                else:
                    m = State(); c = [x for x in s.pc if x.op == "caught"]
                    self.merge(m, self._pcbase(st, [s]), c[0] if c else markbool(raw("caught", eid, "?")), s, st.copy())
                    m.pc = st.pc if len(st.pc) <= len(pre.pc) else pre.pc
                    st.assign(m)

    def changed(self, pre, posts):
        out = []
        for post in posts:
            for root, d in post.store.items():
                if root.op == "tmp": continue
                p0 = pre.store.get(root)
                if p0 is d: continue
                for p, v in d.items():
                    if self.load(pre, (root, p)) is not v and (root, p) not in out:
                        if p0 is None and root.op in ("var", "heap"): continue   # introduced inside
                        out.append((root, p))
                if p0:
                    for p in p0:
                        if p not in d and (root, p) not in out and self.load(pre, (root, p)) is not self.load(post, (root, p)):
                            out.append((root, p))
        # drop sub-locations of listed locations
        out.sort(key=lambda x: len(x[1]))
        keep = []
        for r, p in out:
            if any(r is r2 and p[:len(p2)] == p2 for r2, p2 in keep): continue
            keep.append((r, p))
        return keep

    # ------------------------------------------------------------- loops
    def s_for(self, n, st, fr):
        if n.get("init"): self.exec(n["init"], st, fr)
        L = Loop("for", n["l"], fr.func)

        def cond(s, f): return truth(self.ev(n["c"], s, f)) if n.get("c") else TRUE

        def body(s, f): self.exec(n["b"], s, f)

        def inc(s, f):
            if n.get("inc"): self.ev(n["inc"], s, f)
        self.run_loop(L, st, fr, body, cond, inc)

    def s_while(self, n, st, fr):
        L = Loop("while", n["l"], fr.func)
        self.run_loop(L, st, fr, lambda s, f: self.exec(n["b"], s, f), lambda s, f: truth(self.ev(n["c"], s, f)))

    def s_do(self, n, st, fr):
        L = Loop("do", n["l"], fr.func)
        self.run_loop(L, st, fr, lambda s, f: self.exec(n["b"], s, f), None, None, post=lambda s, f: truth(self.ev(n["c"], s, f)))

    def s_rfor(self, n, st, fr):
        L = Loop("rfor", n["l"], fr.func)
        loc = self.lval(n["r"], st, fr)
        cv = self.load(st, loc)
        L.range = cv
        L.trip = self.sizeof(cv)
        v = n["v"]

        def body(s, f):
            eloc = (loc[0], loc[1] + (I(L.ctr),))
            if v["t"].ref and not v.get("binds"):
                f.vars[v["id"]] = eloc
            else:
                vl = (raw("var", f.id, v["id"], v["n"]), ())
                if v.get("binds"):
                    if v["t"].ref: vl = eloc
                    else: self.store(s, vl, self.load(s, eloc))
                    for i, b in enumerate(v["binds"]):
                        be = b.get("e")
                        nm = be["f"] if be is not None and be["k"] == "mem" else (("first", "second")[i] if v["t"].base.startswith("std::pair") else "#%d" % i)
                        f.vars[b["id"]] = (vl[0], vl[1] + (F(nm),))
                else:
                    self.store(s, vl, self.tmark(self.load(s, eloc), v["t"]))
                f.vars[v["id"]] = vl
            self.exec(n["b"], s, f)
        self.run_loop(L, st, fr, body)

    def try_unroll(self, L, st, fr, body, cond, inc, post):
        """fully unroll a loop whose trip count is a known constant"""
        if not self.unroll or cond is None or post is not None: return False
        trial = st.copy()
        saved = self.snap()
        k = 0
        ok = False
        brk, cont = [], []
        while k <= self.unroll:
            c = self.decide(truth(cond(trial, fr)), trial)
            if c is FALSE: ok = True; break
            if c is not TRUE: break
            fr.brk.append([]); fr.cont.append([])
            body(trial, fr)
            b, ct = fr.brk.pop(), fr.cont.pop()
            if b or trial.dead: break
            if ct: self.join(trial, ct, self._pcbase(trial, ct))
            if inc: inc(trial, fr)
            k += 1
        if not ok:
            self.restore(saved)
            return False
        st.assign(trial)
        return True

    def snap(self):
        return (len(self.effects), len(self.loops), len(self.throws[-1]), len(self.notes))

    def restore(self, s):
        del self.effects[s[0]:]
        del self.loops[s[1]:]
        del self.throws[-1][s[2]:]
        del self.notes[s[3]:]

    def run_loop(self, L, st, fr, body, cond=None, inc=None, post=None):
        if st.dead: return
        if self.unroll and cond is not None:
            nret = len(fr.returns)
            if self.try_unroll(L, st, fr, body, cond, inc, post): return
            del fr.returns[nret:]
        L.outer = self.loopstack
        pre = st.copy()
        base = st.pc
        L.entry = base
        havoc = {}     # (root,path) -> term at loop head
        tripset = L.trip is not None
        for attempt in range(24):
            nret = len(fr.returns)
            saved = self.snap()
            s = pre.copy()
            for (root, p), t in havoc.items():
                self.store(s, (root, p), t)
            self.loopstack = L.outer + (L,)
            L.hasret = False
            c = cond(s, fr) if cond is not None else TRUE
            head = s.copy()
            if c is not TRUE: s.pc = self.ext(s.pc, c)
            elif L.trip is not None and cond is None: s.pc = s.pc + (lt(L.ctr, L.trip),) if not isnum(L.trip) else s.pc
            fr.brk.append([]); fr.cont.append([])
            body(s, fr)
            brk, cont = fr.brk.pop(), fr.cont.pop()
            if cont:
                self.join(s, cont, self._pcbase(s, cont) if True else base)
            if inc is not None and not s.dead: inc(s, fr)
            pcnd = post(s, fr) if post is not None and not s.dead else None
            self.loopstack = L.outer
            posts = ([s] if not s.dead else []) + brk
            mod = self.changed(pre, posts)
            new = {}
            for root, p in mod:
                # widen: if an enclosing location is already havocked use it
                enc = [k for k in havoc if k[0] is root and p[:len(k[1])] == k[1]]
                if enc and enc[0][1] != p: continue
                sub_ = [k for k in havoc if k[0] is root and len(k[1]) > len(p) and k[1][:len(p)] == p]
                for k in sub_: havoc.pop(k)
                v0 = self.load(pre, (root, p))
                if (root, p) in havoc:
                    continue
                # elements indexed by things that vary: widen to the container
                if any(x.op == "i" and not isnum(x.a[0]) and not self.invariant(x.a[0], havoc, L) for x in p):
                    q = next(i for i, x in enumerate(p) if x.op == "i" and not isnum(x.a[0]) and not self.invariant(x.a[0], havoc, L))
                    p2 = p[:q]
                    if (root, p2) not in havoc and (root, p2) not in new:
                        new[(root, p2)] = raw("iter", L.id, len(havoc) + len(new), self.nm(root, p2))
                    continue
                new[(root, p)] = raw("iter", L.id, len(havoc) + len(new), self.nm(root, p))
            # second phase: affine recognition once the set is stable
            if not new:
                changed = False
                nxt = s
                if not s.dead and post is None or True:
                    for k, t in list(havoc.items()):
                        if t.op != "iter" : continue
                        v0 = self.load(pre, k)
                        v1 = self.load(nxt, k) if not s.dead else None
                        if v1 is None: continue
                        if v0.op == "itr" and t.op == "iter":
                            havoc[k] = raw("itr", v0.a[0], markint(raw("iter", L.id, t.a[1], t.a[2] + "#"))); changed = True; continue
                        if (L.id, t.a[1]) not in self.sizealias and v1.op == "rec" and v0.op not in ("vec", "undef") and not isnum(v0):
                            # a container whose elements are all that changes keeps its size
                            keep = lambda x: self.sizeof(x) is self.sizeof(t)
                            if keep(v1) and all(keep(self.load(b, k)) for b in brk):
                                self.sizealias[(L.id, t.a[1])] = self.sizeof(v0); changed = True; continue
                        step = sub(v1, t) if v1.op in ("poly", "num", "iter") or v1 is t else None
                        if step is None or not self.invariant(step, havoc, L) or v0.op in ("rec", "vec", "str", "obj", "new", "upd", "filled"): continue
                        if step is ZERO:
                            havoc[k] = v0; changed = True
                            continue
                        if v0.op == "undef": continue
                        havoc[k] = add(v0, mul(step, L.ctr)); changed = True
                    for k, t in list(havoc.items()):
                        if t.op == "itr" and t.a[1].op == "iter":
                            v0, v1 = self.load(pre, k), self.load(nxt, k)
                            if v1.op == "itr" and v1.a[0] is t.a[0]:
                                step = sub(v1.a[1], t.a[1])
                                if self.invariant(step, havoc, L):
                                    havoc[k] = raw("itr", t.a[0], add(v0.a[1], mul(step, L.ctr))); changed = True
                if changed and attempt < 23:
                    self.restore(saved); del fr.returns[nret:]
                    continue
                # the trip count
                if not tripset and cond is not None:
                    L.trip = self.trip_of(c, L, havoc)
                break
            if attempt == 23: self.exhausted = getattr(self, 'exhausted', 0) + 1; break
            for k, t in new.items():
                v0 = self.load(pre, k)
                ty = self.types.get(v0.id)
                if v0.id in TT._INTS or (isnum(v0) and v0.a[0].denominator == 1): markint(t)
                havoc[k] = t
            self.restore(saved); del fr.returns[nret:]
        L.cond = c
        L.iter = dict(havoc)
        L.head = head
        for k in havoc:
            L.init[k] = self.load(pre, k)
            if not s.dead: L.next[k] = self.load(s, k)
            L.names[k] = self.nm(*k)
        L.breaks = [b.pc[len(base):] for b in brk]
        L.brkst = brk
        L.nextst = None if s.dead else s
        L.base = base
        L.backedge = not s.dead
        L.post = pcnd
        self.loops.append(L)
        self.allloops[L.id] = L
        # returning from within holds for some iteration, not for one we could name
        for i in range(nret, len(fr.returns)):
            rs, rv = fr.returns[i]
            if len(rs.pc) <= len(base) or rs.pc[:len(base)] != base: continue
            seg = land(*rs.pc[len(base):])
            some = self.some(L, seg)
            if some is seg: continue
            rs = rs.copy(); rs.pc = base + (some,)
            fr.returns[i] = (rs, rv)
        # state after the loop
        exits = []
        st.store = pre.store; st.pc = base; st.dead = False
        out = pre.copy()
        regular = not brk and L.trip is not None
        for k, t in havoc.items():
            v0 = L.init[k]
            flag = self.flag(L, k, v0)
            if flag is not None:
                self.store(out, k, flag)
                continue
            if L.iter[k] is v0 and all(self.load(b, k) is v0 for b in brk): continue
            if (L.next.get(k) is L.iter[k] or not L.backedge) and all(self.load(b, k) is L.iter[k] for b in brk) and (L.next.get(k) is L.iter[k] or brk):
                self.store(out, k, v0)   # never changed
                continue
            if regular and t.op in ("poly", "ctr") and not L.hasret:
                o = subst(t, lambda x: L.trip if x is L.ctr else None)
            elif regular and t.op == "itr":
                o = raw("itr", t.a[0], subst(t.a[1], lambda x: L.trip if x is L.ctr else None))
            else:
                o = raw("lout", L.id, t.a[1] if t.op == "iter" else L.names[k], v0, L.next.get(k, v0))
                if t.id in TT._INTS: markint(o)
            self.store(out, k, o)
        if cond is not None and c is TRUE and not brk:
            out.dead = True   # infinite loop left only by return/throw
        out.pc = base
        st.assign(out)

    def some(self, L, seg):
        """condition that seg holds in some iteration of L"""
        if not contains(seg, lambda x: x is L.ctr or x.op == "iter" and x.a[0] == L.id): return seg
        if L.trip is not None and isnum(L.trip) and 0 < L.trip.a[0] <= 8 and not contains(seg, lambda x: x.op == "iter" and x.a[0] == L.id):
            return lor(*[subst(seg, lambda x, j=j: num(j) if x is L.ctr else None) for j in range(int(L.trip.a[0]))])
        return markbool(raw("exists", L.id, seg))

    def flag(self, L, k, v0):
        """value after L of a variable that only ever gets one constant, in some iterations or on the way out: c if that happens, else as before"""
        t, n = L.iter[k], L.next.get(k, v0)
        own = lambda x: x is L.ctr or x.op in ("iter", "lout") and x.a[0] >= L.id
        conds, cst = [], None
        if n is not t:
            if n.op != "ite" or t not in (n.a[1], n.a[2]): return None
            cst = n.a[2] if n.a[1] is t else n.a[1]
            conds.append(land(L.cond if L.cond is not None else TRUE, lnot(n.a[0]) if n.a[1] is t else n.a[0]))
        for b, pc in zip(L.brkst, L.breaks):
            v = self.load(b, k)
            if v is t: continue
            if cst is None: cst = v
            if v is not cst: return None
            conds.append(land(*pc))
        if cst is None or not isnum(cst): return None
        return ite(self.some(L, lor(*conds)), cst, v0)

    def nm(self, root, p):
        r = root
        base = r.a[2] if r.op == "var" and len(r.a) > 2 else show(r)
        return base + "".join("." + str(x.a[0]) if x.op == "f" else "[]" for x in p)

    def invariant(self, t, havoc, L):
        its = set(x.id for x in havoc.values() if x.op == "iter")
        for x in subterms(t):
            if x.op == "iter" and x.a[0] == L.id: return False
            if x.op == "ctr" and x.a[0] == L.id: return False
            if x.op == "lout" and x.a[0] >= L.id: return False
            if x.op == "ctr" and x.a[0] > L.id: return False
            if x.op in ("iter",) and x.a[0] > L.id: return False
        return True

    def trip_of(self, c, L, havoc):
        """c is the continuation condition; find N with c <=> ctr < N (one conjunct affine in ctr, step ±1)"""
        cs = list(c.a) if c.op == "and" else [c]
        if len(cs) != 1: return None
        c = cs[0]
        k = L.ctr
        if c.op in ("lt0",):
            d = pdict(c.a[0])
            co = d.get((k,), 0)
            if any(k in m and m != (k,) for m in d): return None
            if any(contains(f, lambda x: x is k) for m in d for f in m if f is not k): return None
            if co < 0:
                rest = add(c.a[0], scale(k, -co))
                if any(x.op == "iter" and x.a[0] == L.id for x in subterms(rest)): return None
                q = -co
                if q == 1: return rest
                return raw("ceil", scale(rest, 1 / q)) if not isnum(rest) else num(-((-rest.a[0]) // q))
        if c.op == "not" and c.a[0].op == "eq0":
            d = c.a[0].a[0]
            pd = pdict(d)
            co = pd.get((k,), 0)
            if co in (1, -1):
                rest = add(d, scale(k, -co))
                if contains(rest, lambda x: x is k): return None
                return neg(rest) if co == 1 else rest
        return None

    # ------------------------------------------------------------- entry
    def run(self, d, args=None, this=None, st=None):
        """evaluate definition d from an arbitrary state; args: optional param name -> term"""
        st = st or State()
        fr = Frame(d)
        fr.this = this or (raw("mem", sym("this")), ())
        args = args or {}
        if isinstance(args, (list, tuple)): args = dict(enumerate(args))
        for i, p in enumerate(d.params):
            nm = p["n"] or ("arg%d" % i)
            v = args.get(nm)
            if v is None: v = args.get(i)
            if v is None: v = sym(nm)
            self.tmark(v, p["t"])
            if isinstance(v, tuple):
                fr.vars[p["id"]] = v
                continue
            if p["t"].ref:
                loc = (raw("mem", v), ())
                fr.vars[p["id"]] = loc
            else:
                loc = (raw("var", fr.id, p["id"], nm), ())
                fr.vars[p["id"]] = loc
                self.store(st, loc, v)
        self.top = fr
        base = st.pc
        if d.isctor:
            self.ctor_inits(d, fr, st)
        self.exec(d.body, st, fr)
        val = self.finish(d, fr, st, base)
        if isinstance(val, tuple):
            self.retloc = val
            val = self.load(st, val)
        else:
            self.retloc = None
        self.state, self.value, self.frame = st, val, fr
        return val

    def calls(self, *qns):
        return [e for e in self.effects if e.kind == "call" and (not qns or e.qn in qns)]


_effk = ("asg", "new", "delete", "throw", "call", "icall")


def _has_effect(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            k = x.get("k")
            if k in _effk or (k == "un" and "++" in x["op"] or k == "un" and "--" in x["op"]):
                if k != "call" or not x["f"].const:
                    return True
            st.extend(v for kk, v in x.items() if v.__class__ in (dict, list))
        elif isinstance(x, list):
            st.extend(x)
    return False
