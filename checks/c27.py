import sys, os, re, itertools; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.rules import *
from vlib.ev import F as F_, State
from c20 import Odd
from vlib.check import loop_guard
from c28 import Text, happens, unwrap

RULE = ("the constructors of types and devices, evaluated over names, give the one type or device each name stands for and raise for every other name; the named constants and the comparisons agree with them field by field; "
        "for every function that hands arrays to host code, its path conditions, evaluated over the devices its arrays may be on, reach the host code exactly when all of them are in host memory, and raise otherwise; "
        "a result is created on its argument's device; moving to a device hands back the same array, copies its elements, or raises; set_device stores a usable device everywhere and raises for an unusable one")
INT, UINT, FLOAT, COMPLEX = 0, 1, 2, 5
CPU, CUDA, HOST, MANAGED = 1, 2, 3, 13
OTHERS = [2, 4, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]
TYPES = {"float": (FLOAT, 32), "float32": (FLOAT, 32), "double": (FLOAT, 64), "float64": (FLOAT, 64), "int": (INT, 64), "int64": (INT, 64), "int32": (INT, 32), "int16": (INT, 16), "int8": (INT, 8),
         "uint": (UINT, 64), "uint64": (UINT, 64), "uint32": (UINT, 32), "uint16": (UINT, 16), "uint8": (UINT, 8)}
NOTYPES = ["", "floats", "float16", "Float", "INT", "int128", "int3", "in", "u", "uint65", "complex", "bool", "string", " int", "float ", "f", "double32", "int64_t", "uint6", "float3"]
DEVS = {"cpu": (CPU, 0), "cuda": (CUDA, 0), "cuda:0": (CUDA, 0), "cuda:1": (CUDA, 1), "cuda:7": (CUDA, 7), "cuda:12": (CUDA, 12), "cuda:103": (CUDA, 103), "cudahost": (HOST, 0), "cudamanaged": (MANAGED, 0),
        "cudamanaged:0": (MANAGED, 0), "cudamanaged:1": (MANAGED, 1), "cudamanaged:12": (MANAGED, 12), "cudahost:1": (HOST, 1), "cudahost:12": (HOST, 12)}
NODEVS = ["", "cp", "CPU", "gpu", "cud", "opencl", "metal", "Cuda:0", " cuda", "host", "rocm:1", ":1"]
CONSTS = {"datatype": {"float32": (FLOAT, 32), "float64": (FLOAT, 64), "cfloat32": (COMPLEX, 64), "cfloat64": (COMPLEX, 128), "int8": (INT, 8), "int16": (INT, 16), "int32": (INT, 32), "int64": (INT, 64),
                       "uint8": (UINT, 8), "uint16": (UINT, 16), "uint32": (UINT, 32), "uint64": (UINT, 64)},
          "dev": {"cpu": 1, "cuda": 2, "cuda_host": 3, "opencl": 4, "vulkan": 7, "metal": 8, "vpi": 9, "rocm": 10, "rocm_host": 11, "extdev": 12, "cuda_managed": 13, "oneapi": 14, "webgpu": 15, "hexagon": 16}}


class Raised(Exception): pass


class Name(Text):
    """text, and the numbers and types it may name"""

    def __call__(self, t):
        v = self.leaf(t)
        if v is not None: return v
        if t.op == "sel" or t.op == "call" and str(t.a[0]).split("::")[-1] in ("operator[]", "at"):
            s = self(t.a[-2]); i = self(t.a[-1].a[0] if t.a[-1].op == "i" else t.a[-1])
            if isinstance(s, str):
                if not 0 <= i <= len(s): raise Odd("outside the text")
                return ord(s[int(i)]) if i < len(s) else 0
        if t.op == "call":
            q = str(t.a[0]); n = q.split("<")[0].split("::")[-1]
            if n in ("stoi", "stol", "stoll", "stoul", "atoi") and isinstance(self(t.a[1]), str):
                base = int(self(t.a[3])) if len(t.a) > 3 else 10
                if base not in (2, 8, 10, 16): raise Odd("base")
                m = re.match(r"\s*[+-]?(%s)+" % {2: "[01]", 8: "[0-7]", 10: "[0-9]", 16: "[0-9a-fA-F]"}[base], self(t.a[1]))
                if not m: raise Raised()
                return int(m.group(), base)
            if n in ("front", "back") and len(t.a) == 2:
                s = self(t.a[1])
                if isinstance(s, str) and s: return ord(s[0 if n == "front" else -1])
            if n == "isdigit" and len(t.a) == 2:
                return 48 <= self(t.a[1]) <= 57
            if n in ("remove_prefix", "remove_suffix"): raise Odd(n)
        if t.op in ("new", "ctor") and len(t.a) in (3, 4) and "basic_string" in str(t.a[0]):
            s = self(t.a[1])
            if isinstance(s, str): return s[int(self(t.a[2])):][:int(self(t.a[3])) if len(t.a) == 4 else None]
        return Text.__call__(self, t)

    def again(self, leaf): return Name(leaf)


def part(ev, st, root, name):
    return ev.load(st, (root, (F_(name),)))


NEVER = -(1 << 40)          # stands for a field no value is given to


def named(ctx, P):
    """a name gives its type or its device; other names are refused"""
    for qn, table, no, fields, key in (("bland::ndarray::datatype::datatype", TYPES, NOTYPES, ("code", "bits", "lanes"), "type"), ("bland::ndarray::dev::dev", DEVS, NODEVS, ("device_type", "device_id"), "device")):
        fs = get(ctx, P, qn, lambda f: len(f.params) == 1 and re.search("string|char", str(f.params[0]["t"])))
        for F in fs:
            ev, _ = go(ctx, P, F, inline=lambda d: not d.qn.startswith("std::") and bool(d.body))
            p = F.params[0]["n"]
            thrown = [e for e in ev.effects if e.kind == "throw"]
            vals = {f: part(ev, ev.state, THIS[0], f) for f in fields}
            for name in list(table) + no:
                at = Name(lambda t: name if t.op == "sym" and t.a[0] == p else NEVER if t.op == "undef" or t.op == "fld" and (t.a[0] in (THIS[0], sym("this")) or t.a[0].op == "new" and len(t.a[0].a) < 2) else None)
                refused = [happens(e.pc, at) for e in thrown]
                r = True if any(x is True for x in refused) else None if any(x is None for x in refused) else False
                if name in table:
                    want = table[name] + ((1,) if len(fields) == 3 else ())
                    got = []
                    for f in fields:
                        try: got.append(int(at(vals[f])))
                        except (Odd, TypeError, ValueError, KeyError, IndexError, AttributeError): got.append(None)
                        except Raised: r = True; got.append(None)
                    wrong = [f for f, g, w in zip(fields, got, want) if g is not None and g != w]
                    v = False if r is True or wrong else None if r is None or None in got else True
                    ctx.ob(key + ".named." + name, v, F.where(), "the name '%s' %s" % (name, "is refused" if r is True else "means %s instead of %s" % (dict(zip(fields, got)), dict(zip(fields, want)))))
                else:
                    ctx.ob(key + ".refused." + (name or "empty"), r, F.where(), "'%s' names no %s and is accepted" % (name, key))


def constants(ctx, P):
    for cls, table in CONSTS.items():
        for name, want in table.items():
            g = P.globals.get("bland::ndarray::%s::%s" % (cls, name))
            if g is None: ctx.unknown("constant." + name, "bland/bland/include/bland/ndarray.hpp", "no such constant"); continue
            ev = ctx.evaluator(P)
            try:
                v = ev.ev(g["e"], State(), None)
                fields = ("code", "bits", "lanes") if cls == "datatype" else ("device_type", "device_id")
                w = want + (1,) if cls == "datatype" else (want, 0)
                got = [intval(strip_all_casts(ev.rec_get(v, (F_(f),)))) for f in fields]
            except Exception as e:
                ctx.unknown("constant." + name, "ndarray.hpp:%d" % g["l"], "not evaluated: %r" % (e,)); continue
            ok = None if None in got else tuple(got) == w
            ctx.ob("constant.%s.%s" % (cls, name), ok, "bland/bland/include/bland/ndarray.hpp:%d" % g["l"], "%s::%s is %s instead of %s" % (cls, name, got, list(w)))


def intval(t):
    try: return int(Text(lambda x: None)(t))
    except Exception: return None


def compared(ctx, P):
    """== and != of types and devices look at every field"""
    for qn, fields in (("bland::ndarray::datatype", ("code", "bits", "lanes")), ("bland::ndarray::dev", ("device_type", "device_id"))):
        for op in ("operator==", "operator!="):
            for F in get(ctx, P, qn + "::" + op):
                ev, v = go(ctx, P, F, inline=lambda d: bool(d.body) and d.qn.startswith(qn))
                p = F.params[0]["n"]
                bad = None; unk = 0
                base = {f: 2 for f in fields}
                for k in itertools.chain([None], fields, [fields]):
                    o = dict(base)
                    for f in ([k] if isinstance(k, str) else k or ()): o[f] = 3
                    at = Text(fieldleaf({"this": base, p: o}))
                    try: r = bool(at(v))
                    except (Odd, TypeError, KeyError, IndexError, ValueError, AttributeError): unk += 1; continue
                    if r != ((o == base) == (op == "operator==")): bad = k
                    # the other way round
                    at = Text(fieldleaf({"this": o, p: base}))
                    try: r = bool(at(v))
                    except (Odd, TypeError): unk += 1; continue
                    if r != ((o == base) == (op == "operator==")): bad = k
                ctx.ob("compare.%s.%s.%s" % (qn.split("::")[-1], op[8:], re.sub(r"\W", "", str(F.params[0]["t"]))), False if bad is not None else None if unk else True, F.where(),
                       "%s of %ss which differ in %s has the wrong answer" % (op, qn.split("::")[-1], bad or "nothing"))


def fieldleaf(d):
    def f(t):
        if t.op != "fld": return None
        b = t.a[0]
        while b.op in ("deref", "ref", "upd", "cast", "addr") or b.op == "mem": b = b.a[-1] if b.op == "cast" else b.a[0]
        n = "this" if b.op == "this" or b.op == "sym" and b.a[0] == "this" else b.a[0] if b.op == "sym" else None
        return d.get(n, {}).get(t.a[1]) if isinstance(n, str) else None
    return f


ARRAY = re.compile(r"bland::ndarray(_slice|_deferred)?( &| const &)?$|const bland::ndarray(_slice|_deferred)? &$")


def isarray(t): return bool(ARRAY.match(str(t))) or re.sub(r"^const | &$", "", str(t)) == "bliss::coarse_channel"


def origin(t):
    """the parameter or expression an array value comes from: wrappers that keep its device are removed"""
    while True:
        t = strip_all_casts(t)
        if t.op in ("upd", "rec", "deref", "ref", "mem"): t = t.a[0]
        elif t.op == "new" and str(t.a[0]).split("<")[0] in ("bland::ndarray", "bland::ndarray_slice", "bland::ndarray_deferred") and len(t.a) == 2: t = t.a[1]
        elif t.op == "call" and len(t.a) == 2 and str(t.a[0]).split("::")[-1] in ("operator ndarray", "operator bland::ndarray", "unsqueeze", "squeeze"): t = t.a[1]
        else: return t


class Where(Text):
    """conditions on devices: arrays -> (type, id)"""

    def __init__(self, places):
        self.places = places; Text.__init__(self, lambda t: None)

    def again(self, leaf):
        w = Where(self.places); w.leaf = leaf; return w

    def of(self, t):
        """the device an array is on"""
        t = origin(t)
        if t.op == "sym" and t.a[0] in self.places: return self.places[t.a[0]]
        if t.op == "new" and str(t.a[0]).split("<")[0] in ("bland::ndarray", "bland::ndarray_slice"):
            if len(t.a) == 4: return self.dev(t.a[3])
            if len(t.a) == 3: return (CPU, 0) if not contains(t.a[2], lambda x: x.op == "call" and str(x.a[0]).endswith("::device")) else self.dev(t.a[2])
        if t.op == "call":
            q = str(t.a[0]).split("<")[0]; n = q.split("::")[-1]
            if q in ("bliss::coarse_channel::data", "bliss::coarse_channel::mask") and len(t.a) == 2: return self.of(t.a[1])
            if n == "to" and len(t.a) == 3: return self.dev(t.a[2])
            if q.startswith("bland::") and n in ("reshape", "slice", "unsqueeze", "squeeze", "copy", "square", "sqrt", "abs", "mean", "stddev", "masked_mean", "masked_stddev", "max", "sum", "median", "standardized_moment"):
                return self.of(t.a[1])
        raise Odd("array on an unknown device: " + show(t, 3))

    def dev(self, t):
        t0 = t
        while True:
            t = strip_all_casts(t)
            if t.op in ("upd", "deref", "ref"): t = t.a[0]
            elif t.op in ("new", "ctor") and str(t.a[0]).endswith(("::dev", "DLDevice")) and len(t.a) == 2: t = t.a[1]
            else: break
        if t.op == "str":
            if t.a[0] in DEVS: return DEVS[t.a[0]]
            raise Odd("device name")
        if t.op == "new" and "basic_string" in str(t.a[0]) and len(t.a) == 2: return self.dev(t.a[1])
        if t.op == "call" and str(t.a[0]).endswith("::device") and len(t.a) == 2: return self.of(t.a[1])
        if t.op == "ite": return self.dev(t.a[1] if self(t.a[0]) else t.a[2])
        if t.op == "rec":
            from vlib.ev import Evaluator
            d = {}
            for pv in t.a[1:]:
                if len(pv.a) == 2: d[getattr(pv.a[0], "a", [None])[0]] = pv.a[1]
            if set(d) >= {"device_type", "device_id"}: return int(self(d["device_type"])), int(self(d["device_id"]))
            b = self.dev(t.a[0])
            return int(self(d["device_type"])) if "device_type" in d else b[0], int(self(d["device_id"])) if "device_id" in d else b[1]
        if t.op == "sym" and t.a[0] in self.places: return self.places[t.a[0]]
        raise Odd("unknown device " + show(t, 3))

    def __call__(self, t):
        if t.op == "fld" and t.a[1] in ("device_type", "device_id"): return self.dev(t.a[0])[t.a[1] == "device_id"]
        if t.op == "call" and str(t.a[0]).split("::")[-1] in ("operator==", "operator!=") and len(t.a) == 3 and "::dev::" in str(t.a[0]):
            return (self.dev(t.a[1]) == self.dev(t.a[2])) == str(t.a[0]).endswith("==")
        return Text.__call__(self, t)


READERS = {}


def reads_params(ctx, P, e, q, n):
    """positions of the arguments whose memory the called host function reads itself"""
    if q.startswith("bland::cpu::"): return range(n)
    if q not in READERS:
        r = set()
        for F in P.byqn.get(q, []):
            ev, v = go(ctx, P, F, inline=lambda d: False)
            ns = [p["n"] for p in F.params]
            for x in ev.effects:
                if x.kind != "call" or not x.qn: continue
                n_ = x.qn.split("<")[0]
                if n_.endswith(("ndarray::data_ptr", "ndarray::scalarize")) or n_.startswith("bland::cpu::"):
                    for t in ([x.term.a[1]] if x.term is not None and len(x.term.a) > 1 and not n_.startswith("bland::cpu::") else list(x.args)):
                        o = origin(t)
                        if o.op == "sym" and o.a[0] in ns: r.add(ns.index(o.a[0]))
        READERS[q] = r
    return READERS[q]


def hostcall(ctx, P, e):
    """(name, arrays it reads) if the effect runs code that reads array memory from the host"""
    if e.kind != "call" or not e.qn: return None
    q, args = e.qn.split("<")[0], list(e.args)
    if q == "apply":
        t = e.term
        if t is None or t.op != "call" and not (t.a and hasattr(t.a[0], "op")): return None
        fp = next((x for x in t.a if hasattr(x, "op") and x.op == "fnptr"), None)
        if fp is None: return None
        q, args = str(fp.a[-1]).split("<")[0], list(t.a[t.a.index(fp) + 1:])
    if q.startswith("bland::cpu::") or q.startswith("bliss::") and q.endswith("_cpu"):
        return q, [x for i, x in enumerate(args) if i in reads_params(ctx, P, e, q, len(args))]
    return None


def routed(ctx, P):
    """host code is given arrays in host memory, and only them"""
    fs = []
    for F in P.defs.values():
        w = F.where()
        if w.startswith("bland/bland/ops/") and "/cpu/" not in w and F.qn.startswith("bland::") or w.startswith("bliss/") and not re.search(r"_cpu\.|/python/|pybliss", w):
            if F.qn.split("<")[0].endswith("_cpu") or F.qn == "bland::to": continue
            if mentions(F): fs.append(F)
    ctx.count("routing_functions", len(fs))
    seen = {}
    for F in sorted(fs, key=lambda F: (F.qn, F.where(), str([p["t"] for p in F.params]))):
        arrays = [p["n"] for p in F.params if isarray(p["t"])]
        try: ev, v = go(ctx, P, F, inline=lambda d: d.qn.split("<")[0].split("::")[-1] == "device_dispatch" or bool(d.body) and d.file == F.file and not d.qn.startswith(("bland::", "bliss::", "std::")))
        except AnalysisError: raise
        calls = [(e, *h) for e in ev.effects for h in [hostcall(ctx, P, e)] if h]
        if not calls: continue
        k = re.sub(r"[^\w:]", "", F.qn.split("<")[0]); seen[k] = seen.get(k, -1) + 1
        key = "route.%s%s" % (k, ".%d" % seen[k] if seen[k] else "")
        thrown = [e for e in ev.effects if e.kind == "throw"]
        if not arrays:
            # nothing to place: arrays are created here or come in other objects
            others(ctx, P, F, ev, calls, key); continue
        kinds = [(CPU, 0), (CPU, 1), (HOST, 0)] + [(d, 0) for d in OTHERS]
        tables = [dict.fromkeys(arrays, d) for d in kinds]
        for a in arrays[:4]:
            if len(arrays) > 1:
                for d in ((CUDA, 0), (4, 0), (CPU, 1)): tables.append({**dict.fromkeys(arrays, (CPU, 0)), a: d})
        verdict, why = True, ""
        for places in tables:
            at = Where(places)
            hits = [happens(e.pc, at) for e, _, _ in calls]
            text = ", ".join("%s on device type %d" % (n, d[0]) for n, d in places.items())
            for (e, q, args), h in zip(calls, hits):
                if h is False: continue
                for x in args:
                    if not arrayval(x, arrays): continue
                    try: d = at.of(x)
                    except (Odd, TypeError, KeyError): verdict = verdict and None; continue
                    if d[0] not in (CPU, HOST):
                        if h is True: verdict, why, where = False, "with %s, %s is called at line %d" % (text, q, e.line), e.where()
                        elif verdict: verdict = None
            alldevs = set(places.values())
            if alldevs == {(CPU, 0)}:
                if not any(h is not False for h in hits):
                    verdict, why, where = False, "with every array on the cpu no host code is called", F.where()
                for e in thrown:
                    if happens(e.pc, at) is True: verdict, why, where = False, "with every array on the cpu an error is raised at line %d" % e.line, e.where()
        ctx.ob(key, verdict, where if verdict is False else F.where(), why)


def arrayval(x, arrays):
    x = origin(x)
    return x.op == "sym" and x.a[0] in arrays or x.op == "new" and str(x.a[0]).startswith("bland::ndarray") or x.op == "call" and str(x.a[0]).split("<")[0] in ("bland::to", "bland::ndarray::to", "bliss::coarse_channel::data", "bliss::coarse_channel::mask")


def mentions(F):
    from c24 import walk
    for n in walk(F.body):
        if n.get("k") in ("call", "fn") and n.get("f") is not None:
            q = n["f"].qn.split("<")[0]
            if q.startswith("bland::cpu::") or q.startswith("bliss::") and q.endswith("_cpu") or q.endswith("device_dispatch"): return True
    return False


def others(ctx, P, F, ev, calls, key): ctx.count("without_array_parameters", 1)


def fresh(ctx, P):
    """an array created by an operation is on the device of its arguments"""
    seen = {}
    for F in sorted(P.defs.values(), key=lambda F: (F.qn, F.where(), str([p["t"] for p in F.params]))):
        w = F.where()
        if not (w.startswith("bland/bland/ops/") and F.qn.startswith("bland::")) or F.qn == "bland::to": continue
        arrays = [p["n"] for p in F.params if isarray(p["t"])]
        if not arrays or not makes(F): continue
        ev, v = go(ctx, P, F, inline=lambda d: False)
        vals = [x for x in [v] if x is not None] + [e.val for e in ev.effects if e.kind == "ret" and e.val is not None]
        if "/cpu/" not in w: vals += [x for e in ev.effects if e.kind == "call" for x in list(e.args) + [y for y in e.pts or () if y is not None]]
        made = {}
        for t in vals:
            for n in news(t, "bland::ndarray"):
                if len(n.a) in (3, 4): made[show(n, 6)] = n
        k = re.sub(r"[^\w:]", "", F.qn.split("<")[0]); seen[k] = seen.get(k, -1) + 1
        for i, n in enumerate(made.values()):
            v = None
            for d in ((CPU, 1), (HOST, 0), (4, 0)):
                try: v = (v is None or v) and Where(dict.fromkeys(arrays, d)).of(n) == d
                except (Odd, TypeError, KeyError): v = None; break
            ctx.ob("result.%s%s%s" % (k, ".%d" % seen[k] if seen[k] else "", "/%d" % i if i else ""), v, w, "%s creates the array for its result on a device that is not its argument's" % F.qn.split("<")[0])


def makes(F):
    from c24 import walk
    return any(n.get("k") == "ctor" and n.get("f") is not None and n["f"].qn == "bland::ndarray::ndarray" and len(n.get("a", [])) > 1 for n in walk(F.body))


def moved(ctx, P):
    """to(): the same array, its elements copied, or an error"""
    for F in get(ctx, P, "bland::to", lambda f: "DLDevice" in str(f.params[1]["t"]) or "dev" in str(f.params[1]["t"]).split("::")):
        ev, v = go(ctx, P, F, inline=lambda d: False)
        src, dst = [p["n"] for p in F.params]
        rets = [e for e in ev.effects if e.kind == "ret"]
        thrown = [e for e in ev.effects if e.kind == "throw"]
        ok, why, where = True, "", F.where()
        for a, b in itertools.product([(CPU, 0), (CPU, 1), (HOST, 0), (CUDA, 0), (CUDA, 1), (MANAGED, 0), (4, 0), (8, 0)], repeat=2):
            at = Where({src: a, dst: b})
            r = [(e, happens(e.pc, at)) for e in rets]
            t = [happens(e.pc, at) for e in thrown]
            if any(h is None for _, h in r) or any(h is None for h in t): ok = ok and None; continue
            if a == b:
                bad = any(t) or not any(h and origin(e.val).op == "sym" and origin(e.val).a[0] == src for e, h in r)
                if bad: ok, why = False, "an array already on device %s is not handed back itself" % (a,)
            elif a[0] == b[0] == CPU:
                e = next((e for e, h in r if h), None)
                if any(t) or e is None: ok, why = False, "an array is not moved from cpu %d to cpu %d" % (a[1], b[1]); continue
                x = strip_all_casts(e.val)
                q = str(x.a[0]).split("<")[0] if x.op == "call" else ""
                if q not in ("bland::cpu::copy", "bland::copy") or len(x.a) != 3:
                    if contains(e.val, lambda y: y.op == "call" and str(y.a[0]).split("<")[0] in ("bland::cpu::copy", "bland::copy")): ok = ok and None
                    else: ok, why, where = False, "moving between cpus does not copy the array element by element", e.where()
                    continue
                o = origin(x.a[2])
                if origin(x.a[1]).op != "sym" or origin(x.a[1]).a[0] != src: ok, why, where = False, "another array is copied", e.where(); continue
                try:
                    if o.op != "new" or at.of(o) != b: ok, why, where = False, "the copy is not made on the requested device", e.where()
                    elif not (strip_all_casts(o.a[1]).op == "call" and str(strip_all_casts(o.a[1]).a[0]).endswith("::shape") and contains(o.a[2], lambda y: y.op == "call" and str(y.a[0]).endswith("::dtype"))):
                        ok, why, where = False, "the copy has another shape or type", e.where()
                except (Odd, TypeError, KeyError): ok = ok and None
            elif not any(t): ok, why = False, "moving from device %s to %s raises nothing and moves nothing" % (a, b)
        ctx.ob("move.to", ok, where, why)
    for qn, obj in (("bland::ndarray::to", True), ("bland::to", False)):
        for F in get(ctx, P, qn, lambda f: qn != "bland::to" or "string" in str(f.params[1]["t"])):
            ev, v = go(ctx, P, F, inline=lambda d: False)
            x = strip_all_casts(v) if v is not None else None
            while x is not None and x.op == "new" and len(x.a) == 2: x = strip_all_casts(x.a[1])
            ok = None
            if x is not None and x.op == "call" and str(x.a[0]).split("<")[0] in ("bland::to", "bland::ndarray::to", "bliss::coarse_channel::data", "bliss::coarse_channel::mask") and len(x.a) == 3:
                y = unwrap(x.a[2])
                while y.op == "new" and len(y.a) == 2: y = unwrap(y.a[1])
                ok = y.op == "sym" and y.a[0] == F.params[-1]["n"] or (None if contains(y, lambda z: z.op == "sym" and z.a[0] == F.params[-1]["n"]) else False)
            ctx.ob("move.%s.%s" % (qn, re.sub(r"\W", "", str(F.params[-1]["t"])[-20:])), ok, F.where(), "the array is not moved to the device given")


OWN_ALL = lambda d: B(d) and not d.qn.startswith("bland::") and not d.qn.startswith("bliss::h5_filterbank_file")
OWN = lambda d: OWN_ALL(d) and not d.qn.endswith(("::set_device", "::push_device"))
MEMBERS = {"bliss::scan": "_coarse_channels", "bliss::observation_target": "_scans", "bliss::cadence": "_observations", "bliss::coarse_channel": None, "bliss::frequency_drift_plane": None, "bliss::integrated_flags": None}


def settle(t, ev):
    """a value which a callee could change through a reference is taken to stay as it was"""
    while True:
        t = strip_all_casts(t)
        if t.op in ("new", "ctor") and len(t.a) == 2 or t.op == "call" and len(t.a) == 2 and "basic_string" in str(t.a[0]): t = t.a[-1]
        elif t.op in ("upd", "deref", "ref"): t = t.a[0]
        elif t.op == "iter" and ev is not None and t.a[0] in ev.allloops:
            L = ev.allloops[t.a[0]]
            k = next((k for k in L.iter if L.iter[k].op == "iter" and L.iter[k].a[1] == t.a[1]), None)
            if k is None or k not in L.init: return t
            t = L.init[k]
        elif t.op == "lout" and len(t.a) > 3: t = t.a[2]
        elif t.op == "out" and t.a[0].op == "call" and str(t.a[0].a[0]).endswith("set_device"):
            x = [y for y in t.a[0].a[1:] if hasattr(y, "op")]
            t = x[1] if len(x) > 1 else x[0]      # the device, after the object
        else: return t


def within(t, member, ev):
    """an element of the container"""
    for _ in range(8):
        t = settle(t, ev)
        if t.op == "fld" and t.a[1] == member: return True
        if t.op not in ("sel", "fld", "itr", "mem"): break
        t = t.a[0]
    return False


def mine(t, name, ev=None):
    t = settle(t, ev)
    if t.op == "ite": return mine(t.a[1], name, ev) and mine(t.a[2], name, ev)
    return t.op == "fld" and t.a[1] == name


def isparam(t, name, ev=None):
    t = settle(t, ev)
    return t.op == "sym" and t.a[0] == name


def placed(ctx, P):
    """set_device keeps a usable device for the object and everything in it, and raises for an unusable one"""
    for cls, member in MEMBERS.items():
        c = cls.split("::")[-1]
        for F in get(ctx, P, cls + "::set_device"):
            p = F.params[0]["n"]
            text = "string" in str(F.params[0]["t"])
            ev, v = go(ctx, P, F, inline=OWN)
            k = "device.%s.%s" % (c, "named" if text else "set")
            if text:
                cs = [e for e in ev.effects if e.kind == "call" and (e.qn or "").endswith(cls + "::set_device") and not e.loops]
                ws = [e for e in ev.effects if e.kind == "write" and e.loc and len(e.loc[1]) == 1 and e.loc[1][0].a[0] == "_device"]
                ok = None
                if cs: ok = bool(isparam(cs[0].args[0], p)) and all(not list(atoms(e.pc)) for e in cs[:1]) or False
                elif ws: ok = None
                else: ok = False
                ctx.ob(k, ok, F.where(), "the device named is not the one set"); continue
            checks = [e for e in ev.effects if e.kind == "throw"]
            ws = [e for e in ev.effects if e.kind == "write" and e.loc and e.loc[1] and show(e.loc[1][-1]).strip(".") == "_device"]
            guard = member is not None or cls == "bliss::coarse_channel"
            ok, why = True, ""
            for kind, valid in itertools.product((CPU, CUDA, HOST, MANAGED, 4), (True, False)):
                class V(Where):
                    def again(self, leaf):
                        w = V(self.places); w.leaf = leaf; return w

                    def __call__(self, t):
                        if t.op == "call" and str(t.a[0]).endswith("check_is_valid_cuda_device"):
                            if self(t.a[2]) != 5: raise Odd("another device is checked")
                            return valid
                        return Where.__call__(self, t)
                at = V({p: (kind, 5)})
                t = [happens(e.pc, at) for e in checks]
                w = [(e, happens(e.pc, at)) for e in ws]
                must = guard and kind in (CUDA, MANAGED) and not valid
                if any(x is True for x in t) != must:
                    if any(x is None for x in t): ok = ok and None
                    else: ok, why = False, "a %s device of type %d %s" % ("usable" if valid else "missing", kind, "is accepted" if must else "is refused")
                st = any(h is True and isparam(e.val, p, ev) for e, h in w)
                if must and any(h is True for e, h in w): ok, why = False, "a device that is not there is stored"
                if not must and not st:
                    ok = (ok and None) if any(h is None for _, h in w) else False; why = why or "the device is not stored"
            ctx.ob(k, ok, F.where(), why)
            if member:
                inner = [e for e in ev.effects if e.kind == "call" and (e.qn or "").endswith("::set_device") and len(e.loops) == 1]
                good = None
                if not inner: good = False
                for e in inner:
                    L = e.loops[-1] if hasattr(e.loops[-1], "breaks") else None
                    over = within(e.term.a[1], member, ev)
                    g = over and isparam(e.args[0], p, ev) or mine(e.args[0], "_device", ev)
                    if not over: g = None
                    if g and L is not None and (L.breaks or [x for x in atoms(e.pc) if contains(x, lambda y: y.op == "ctr") and not loop_guard(x, e.loops)]): g = False
                    good = g if good is None else good
                ctx.ob(k + ".members", good, F.where(), "the device is not handed to every element of " + member)
        for F in P.byqn.get(cls + "::device", []):
            ev, v = go(ctx, P, F, inline=OWN)
            ctx.ob("device.%s.get" % c, True if v is not None and mine(v, "_device") else None if v is None or contains(v, lambda x: x.op in ("unk", "lout")) else False, F.where(), "device() is not the device set")
    for qn, fields in (("bliss::coarse_channel::push_device", ("_mask", "_data")), ("bliss::frequency_drift_plane::push_device", ("_integrated_drifts",)),
                       ("bliss::integrated_flags::push_device", ("filter_rolloff", "low_spectral_kurtosis", "high_spectral_kurtosis"))):
        for F in get(ctx, P, qn):
            ev, v = go(ctx, P, F, inline=OWN)
            for f in fields:
                x = strip_all_casts(ev.load(ev.state, (THIS[0], (F_(f),))))
                while x.op == "new" and len(x.a) == 2: x = strip_all_casts(x.a[1])
                ok = x.op == "call" and str(x.a[0]).split("::")[-1] == "to" and len(x.a) == 3 and mine(x.a[2], "_device") and contains(x.a[1], lambda y: y.op == "fld" and y.a[1] == f)
                ctx.ob("device.%s.%s" % (qn.split("::")[-2] + ".push", f), True if ok else None if contains(x, lambda y: y.op in ("unk", "lout", "ite", "upd")) else False, F.where(), "%s is not moved to the device" % f)
    # the flags integrated along with a plane go where the plane goes: moved by push_device, handed out moved
    for qn in ("bliss::frequency_drift_plane::push_device", "bliss::frequency_drift_plane::integrated_rfi"):
        for F in get(ctx, P, qn, lambda f: not f.params):
            ev, v = go(ctx, P, F, inline=OWN_ALL)
            give = qn.endswith("rfi")
            for f in ("filter_rolloff", "low_spectral_kurtosis", "high_spectral_kurtosis"):
                if give:
                    b = strip_all_casts(v) if v is not None else None
                    while b is not None and b.op == "new" and len(b.a) == 2: b = strip_all_casts(b.a[1])
                    x = ev.rec_get(b, (F_(f),)) if b is not None else None
                else: x = ev.load(ev.state, (THIS[0], (F_("_dedrifted_rfi"), F_(f))))
                x = strip_all_casts(x) if x is not None else None
                while x is not None and x.op == "new" and len(x.a) == 2: x = strip_all_casts(x.a[1])
                ok = None
                if x is not None:
                    to = x.op == "call" and str(x.a[0]).split("::")[-1] == "to" and len(x.a) == 3 and contains(x.a[1], lambda y: y.op == "fld" and y.a[1] == f)
                    if to: ok = mine(x.a[2], "_device", ev) and settle(x.a[2], ev).a[0] is sym("this")
                    elif x.op == "fld" and x.a[1] == f and not contains(x, lambda y: y.op in ("upd", "out", "unk", "lout", "ite")): ok = False
                    if ok is False and to and contains(x.a[2], lambda y: y.op in ("unk", "lout", "ite")): ok = None
                ctx.ob("device.frequency_drift_plane.%s.flags.%s" % ("handed out" if give else "push", f), ok, F.where(), "%s of the plane's flags is not on the plane's device: %s" % (f, show(x, 5) if x is not None else "?"))
    for qn, f in (("bliss::coarse_channel::data", "_data"), ("bliss::coarse_channel::mask", "_mask"), ("bliss::frequency_drift_plane::integrated_drift_plane", "_integrated_drifts")):
        for F in get(ctx, P, qn, lambda f: not f.params):
            ev, v = go(ctx, P, F, inline=OWN)
            hit = contains(v, lambda x: x.op == "call" and str(x.a[0]).split("::")[-1] == "to" and len(x.a) == 3 and mine(x.a[2], "_device") and contains(x.a[1], lambda y: y.op == "fld" and y.a[1] == f))
            ctx.ob("device.%s.%s" % (qn.split("::")[-2], qn.split("::")[-1]), True if hit else None if contains(v, lambda y: y.op in ("unk", "lout")) else False, F.where(), "the array handed out is not on the device set")
    for F in get(ctx, P, "bliss::scan::read_coarse_channel") + P.byqn.get("bliss::scan::peak_coarse_channel", []):
        ev, v = go(ctx, P, F, inline=OWN)
        sets = [e for e in ev.effects if e.kind == "call" and (e.qn or "").endswith("coarse_channel::set_device") and mine(e.args[0], "_device", ev)]
        rets = [e for e in ev.effects if e.kind == "ret" and e.val is not None and not strip_all_casts(e.val).op == "null"]
        ok = bool(sets)
        for r in rets:
            have = set(atoms(r.pc))
            if show(strip_all_casts(r.val)) in ("null", "nullptr"): continue
            if not any(set(atoms(e.pc)) <= have for e in sets): ok = False
        ctx.ob("device.scan." + F.qn.split("::")[-1], ok, F.where(), "a coarse channel is handed out without the scan's device")


def check(ctx):
    P = ctx.program("bland/", "bliss/")
    named(ctx, P)
    constants(ctx, P)
    compared(ctx, P)
    routed(ctx, P)
    fresh(ctx, P)
    moved(ctx, P)
    placed(ctx, P)


if __name__ == "__main__": main("C27", RULE, check, 60)
