import sys, os, re; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.rules import *
from vlib.ev import F as F_, I

RULE = ("every binding in the two modules is resolved by the type checker: the entity bound to a Python name is the one of that scope whose name fits best; a lambda returns the function of its name, called with its own "
        "parameters, each once and in order; keyword names stand at the position of the parameter of that name; overloads of a name agree on defaults; no name, overload or enumerator of the interface is lost; an imported "
        "array has the data, device, type, shape and strides of the array given")
# names a Python name deliberately has for something else (documented in the binding, or a rename of the concept)
ALIAS = {"write_scan_hits_to_file": "bliss::write_scan_hits_to_capnp_file", "mad": "bliss::noise_power_estimator::MEAN_ABSOLUTE_DEVIATION"}
CLASSES = {"noise_power": "bliss::noise_stats", "dev": "DLDevice", "datatype": "DLDataType"}
SUB = {"bind_pycore": None, "bind_pybland": "bland", "bind_pydrift_search": "drift_search", "bind_pyfile_types": "io", "bind_pyestimators": "estimators", "bind_pyflaggers": "flaggers", "bind_pypreprocess": "preprocess"}


def words(s):
    s = re.sub(r"([a-z])([A-Z])", r"\1_\2", s.split("::")[-1]).lower().strip("_")
    w = [x for x in s.split("_") if x and x not in ("get", "set")]
    w = [{"lower": "low", "upper": "high", "maximum": "max", "minimum": "min"}.get(x, x) for x in w]
    w = ["num" if x in ("number", "n") else x[:-1] if len(x) > 3 and x.endswith("s") and not x.endswith("ss") else x for x in w]
    return w


def fit(a, b):
    x, y = words(a), words(b)
    if "".join(x) == "".join(y): return 1.0
    return len(set(x) & set(y)) / len(set(x) | set(y)) if x and y else 0.0


class Binding:
    def __init__(self, kind, scope, name, ent, node, F, args=(), cls=None):
        self.kind, self.scope, self.name, self.ent, self.node, self.F, self.args, self.cls = kind, scope, name, ent, node, F, list(args), cls

    def where(self): return self.F.where(self.node["l"])


def tcls(t):
    m = re.match(r"(?:const )?nanobind::(class_|enum_)<(.*?)(?:, .*)?>( &)?$", str(t))
    return (m.group(1), m.group(2)) if m else (None, None)


def nodes(n):
    if isinstance(n, dict):
        if "k" in n: yield n
        for v in n.values():
            if isinstance(v, (dict, list)): yield from nodes(v)
    elif isinstance(n, list):
        for x in n: yield from nodes(x)


def bare(n):
    while n["k"] == "cast" or n["k"] == "ctor" and len([a for a in n["a"] if not a.get("dfa")]) == 1 and (n.get("copy") or n.get("move") or n.get("implicit")): n = n["e"] if n["k"] == "cast" else n["a"][0]
    return n


def keyword(n):
    """(name, default node or None) of an "x"_a argument"""
    d = None
    n = bare(n)
    if n["k"] == "call" and n["f"].qn == "nanobind::arg::operator=" and n.get("obj"): n, d = bare(n["obj"]), n["a"][0]
    if n["k"] == "unk" and n.get("c") == "UserDefinedLiteral":
        for x in n["a"]:
            if x["k"] == "str": return x["v"], d
    if n["k"] == "ctor" and n["f"].qn.startswith("nanobind::arg"):
        for x in nodes(n):
            if x["k"] == "str": return x["v"], d
    return None


def entity(n):
    """("fn", decl, type) ("field", record, name) ("lambda", decl) ("enum", qn) ("init", types) or None"""
    n = bare(n)
    if n["k"] == "call" and "overload_cast" in n["f"].qn: return entity(n["a"][0])
    if n["k"] == "un" and n["op"] == "&":
        e = n["e"]
        if e["k"] == "fn": return ("fn", e["f"], str(n["t"]))
        if e["k"] in ("var", "mem"): return ("field", str(n["t"]).rsplit(" ", 1)[-1].replace("::*", ""), e.get("n") or e.get("f"))
    if n["k"] == "fn": return ("fn", n["f"], str(n.get("t")))
    if n["k"] == "lambda": return ("lambda", n["f"], "")
    if n["k"] == "var" and n.get("d") == "enum":
        return ("enum", str(n["t"]).replace("const ", ""), n["n"])
    if n["k"] in ("ctor", "init") and str(n["t"]).startswith("nanobind::init<"): return ("init", str(n["t"])[len("nanobind::init<"):-1], "")
    return None


def params(t):
    """parameter types of a function (pointer) type as written by clang"""
    m = re.search(r"\)\((.*)\)( const)?$", t) if ")(" in t else re.search(r"\((.*)\)( const)?$", t)
    if not m: return None
    out, d, cur = [], 0, ""
    for c in m.group(1):
        if c in "<(": d += 1
        if c in ">)": d -= 1
        if c == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return [re.sub(r"^const | ?&+$", "", x) for x in out]


def collect(P):
    out = []
    scopes = {}
    for F in P.defs.values():
        if not F.where().startswith(("bland/python", "bliss/")) or not any(n["k"] in ("call", "ctor") and n.get("f") is not None and n["f"].qn.startswith(("nanobind::module_::def", "nanobind::class_")) for n in nodes(F.body)): continue
        for n in nodes(F.body):
            f = n.get("f")
            if n["k"] == "ctor" and f is not None and f.qn in ("nanobind::class_::class_", "nanobind::enum_::enum_") and not n.get("copy") and not n.get("move"):
                s = next((x["v"] for x in n["a"] if x["k"] == "str"), None)
                if s is not None: out.append(Binding("class" if f.qn.endswith("class_") else "enum", "module", s, ("class", tcls(n["t"])[1], ""), n, F))
            if n["k"] != "call" or f is None or not f.qn.startswith("nanobind::"): continue
            how = f.qn.split("::")[-1]
            if f.qn.startswith("nanobind::module_::def") and how == "def": sc, cls = "module", None
            elif how in ("def", "def_static", "def_rw", "def_ro", "def_prop_ro", "def_prop_rw", "value"): cls = tcls(n["t"])[1]; sc = cls
            else: continue
            a = [x for x in n["a"] if not x.get("dfa")]
            if not a: continue
            e0 = entity(a[0])
            if e0 and e0[0] == "init": out.append(Binding("init", sc, "__init__", e0, n, F, a[1:], cls)); continue
            nm = bare(a[0])
            if nm["k"] != "str": out.append(Binding("?", sc, "?", None, n, F, a)); continue
            ents = [entity(x) for x in a[1:]]
            b = Binding(how, sc, nm["v"], ents[0] if ents else None, n, F, a[2:], cls)
            b.setter = ents[1] if how == "def_prop_rw" and len(ents) > 1 else None
            out.append(b)
    return out


def short(t): return re.sub(r"std::basic_string_view<char>", "string_view", re.sub(r"\b(bliss|bland|std|nanobind)::", "", str(t)))


def first(P, b):
    """type of the first argument a Python caller gives"""
    e = b.ent
    if e is None: return None
    if e[0] == "fn":
        p = params(e[2]) if e[2] and "(" in e[2] else None
        return None if p is None else (short(p[0]) if p else "")
    if e[0] == "lambda":
        F = P.defs.get(e[1].key)
        if F is None: return None
        ps = [re.sub(r"^const | ?&+$", "", str(q["t"])) for q in F.params]
        if b.cls: ps = ps[1:]
        return [short(x) for x in ps]
    if e[0] == "init": return short(e[1])
    return ""


def signature(P, b):
    e = b.ent
    if e is None: return None
    if e[0] == "fn":
        p = params(e[2]) if e[2] and "(" in e[2] else None
        return None if p is None else [short(x) for x in p]
    if e[0] == "lambda": return first(P, b)
    if e[0] == "init":
        p = params("(" + e[1] + ")")
        return [short(x) for x in p]
    return None


def scope_members(P, cls):
    """names that a binding of this class can mean"""
    out = {}
    for q, r in P.records.items():
        if q == cls or q.split("::")[-1] == cls.split("::")[-1] and cls in (q,):
            for f in (r.fields if hasattr(r, "fields") else []): out[f["n"] if isinstance(f, dict) else str(f)] = "field"
            for b in (getattr(r, "bases", None) or []): out.update(scope_members(P, b if isinstance(b, str) else str(getattr(b, "qn", b))))
    for F in P.defs.values():
        if F.qn.startswith(cls + "::") and "::" not in F.qn[len(cls) + 2:]: out[F.qn[len(cls) + 2:]] = "fn"
    return out


def namespace_members(P, ns):
    return {F.qn[len(ns) + 2:] for F in P.defs.values() if F.qn.startswith(ns + "::") and "::" not in F.qn[len(ns) + 2:]}


def named(ctx, P, b, universe, ns=None):
    """the entity bound is the one the name means"""
    e = b.ent
    key = "%s.%s" % (short(b.scope), b.name)
    if e is None: ctx.unknown(key, b.where(), "what is bound is not resolved"); return
    got = e[1].qn if e[0] == "fn" else e[1] + "::" + e[2] if e[0] in ("field", "enum") else None
    if got is None: return
    ctx.count("names bound")
    if ALIAS.get(b.name) == got: ctx.ok(key, b.where()); return
    last = got.split("::")[-1]
    mine = fit(b.name, last)
    better = sorted((x for x in universe if x != last and fit(b.name, x) > mine), key=lambda x: -fit(b.name, x))
    ctx.ob(key, True if mine == 1.0 or mine > 0 and not better else False if better or mine == 0 else None, b.where(), "the Python name %s is bound to %s%s" % (b.name, got, ", not to %s" % better[0] if better else ""))


def lambda_(ctx, P, b):
    """a lambda forwards to the function of its name"""
    F = P.defs.get(b.ent[1].key)
    key = "%s.%s" % (short(b.scope), b.name) + "(%s)" % ", ".join(first(P, b) or [])
    if F is None: ctx.unknown(key, b.where(), "no body"); return
    ev, v = go(ctx, P, F, inline=lambda d: False)
    ps = [q["n"] for q in F.params]
    if b.name in ("__dlpack__", "__setstate__", "__getstate__"): return special(ctx, P, b, F, ev, v, key)
    if v is None: ctx.unknown(key, b.where(), "returns nothing known"); return
    ctx.count("lambdas")
    th = [e for e in ev.effects if e.kind == "throw"]
    if th: ctx.unknown(key, b.where(), "may refuse its arguments"); return

    def arg(t):
        t0 = t
        while t.op == "call" and str(t.a[0]) in ("nb_to_bland", "bland::copy", "copy") or t.op in ("upd",) or t.op == "new" and str(t.a[0]).endswith(("ndarray", "ndarray_deferred")) and len(t.a) == 2 or t.op == "call" and str(t.a[0]).endswith("operator ndarray"): t = t.a[1] if t.op in ("call", "new") else t.a[0]
        for p in ps:
            if t is sym(p): return p
        if t.op == "call" and str(t.a[0]).endswith("nb_to_bland"): return arg(t.a[1])
        return None
    c = v
    while c.op == "call" and str(c.a[0]).split("<")[0] in ("bland::copy", "copy") and len(c.a) == 2 or c.op == "new" and len(c.a) == 2 or c.op == "call" and "operator" in str(c.a[0]) and len(c.a) == 2: c = c.a[1]
    while c.op in ("upd",): c = c.a[0]
    if c.op != "call":
        ctx.ob(key, False if any(c is sym(p) for p in ps) or arg(c) else None, b.where(), "returns " + show(c, 3)); return
    q = str(c.a[0]).split("<")[0]
    last = q.split("::")[-1]
    uni = namespace_members(P, q.rsplit("::", 1)[0]) if "::" in q and not b.cls else {last}
    if b.cls: uni = set(scope_members(P, b.cls)) | {last}
    mine = fit(b.name, last)
    better = [x for x in uni if x != last and fit(b.name, x) > mine]
    ctx.ob(key + ": forwards", True if mine == 1.0 else False if better or mine == 0 else None, b.where(), "%s returns the result of %s" % (b.name, q))
    given = list(c.a[1:])
    dfa = [t for t in nodes(F.body) if t.get("dfa")]
    if len(given) > len(ps) and dfa: given = given[:len(ps)]       # the rest are the function's own defaults
    got = [arg(x) if x is not None else None for x in given]
    lost = [p for p in ps if not contains(v, lambda x: x is sym(p))]
    if lost: ctx.bad(key + ": arguments", b.where(), "%s is not used" % ", ".join(lost))
    elif None in got:
        bad = [x for x in given if arg(x) is None]
        ctx.ob(key + ": arguments", False if all(isnum(strip_all_casts(x)) or any(contains(x, lambda y, p=p: y is sym(p)) for p in ps) and transparent(x) for x in bad) else None, b.where(), "given " + ", ".join(show(x, 3) for x in c.a[1:]))
    else: ctx.ob(key + ": arguments", got == ps, b.where(), "the parameters (%s) arrive as (%s)" % (", ".join(ps), ", ".join(got)))
    # a parameter narrowed on the way in
    conv = [x for x in given if x.op == "cast"]
    ctx.ob(key + ": as given", not conv, b.where(), "an argument is converted: %s" % [show(x, 3) for x in conv])


def special(ctx, P, b, F, ev, v, key):
    if b.name == "__dlpack__":
        es = [e for e in ev.effects if e.kind == "call" and e.qn == "PyCapsule_New"]
        if len(es) != 1: ctx.unknown(key, b.where(), "%d capsules" % len(es)); return
        e = es[0]
        t = e.args[0]
        ctx.ob(key + ": the array's own tensor", True if contains(t, lambda x: x.op == "call" and str(x.a[0]).endswith("ndarray::get_managed_tensor")) else False if transparent(t) else None, e.where(), "exports " + show(t, 4))
        n = e.args[1]
        ctx.ob(key + ": named dltensor", "dltensor" in show(n, 3), e.where(), "the capsule is named " + show(n, 3))
    if b.name == "__setstate__" and (b.cls or "").endswith("::hit"):
        es = [e for e in ev.effects if e.kind == "call" and e.qn.endswith("::set_state")]
        ctx.ob(key, True if len(es) == 1 and not es[0].pc and contains(es[0].args[0], lambda x: x is sym(F.params[-1]["n"])) else False if not es else None, b.where(), "the state is not restored")


def keywords(ctx, P, b, byfn):
    kw = [keyword(a) for a in b.args]
    kw = [k for k in kw if k]
    if not kw or b.ent is None: return
    key = "%s.%s" % (short(b.scope), b.name)
    sig = signature(P, b)
    if sig is not None: ctx.ob(key + ": a keyword for each parameter (%s)" % ", ".join(sig)[:60], len(kw) == len(sig), b.where(), "%d keywords for %d parameters" % (len(kw), len(sig)))
    ps = None
    if b.ent[0] == "lambda":
        F = P.defs.get(b.ent[1].key); ps = [q["n"] for q in F.params][1 if b.cls else 0:] if F else None
    elif b.ent[0] == "fn":
        cand = [F for F in byfn.get(b.ent[1].qn, []) if sig is not None and [short(re.sub(r"^const | ?&+$", "", str(q["t"]))) for q in F.params] == sig]
        if len(cand) == 1: ps = [q["n"] for q in cand[0].params]
    if ps is None or len(ps) != len(kw): return
    for i, (k, d) in enumerate(kw):
        j = [n for n, p in enumerate(ps) if fit(k, p) == 1.0]
        near = max(range(len(ps)), key=lambda n: (fit(k, ps[n]), n == i))
        okk = i in j or not j and (near == i or fit(k, ps[near]) == 0 or fit(k, ps[near]) <= fit(k, ps[i]))
        if not okk and not j and sig and sig[near] != sig[i]: okk = True
        ctx.ob("%s(%s): %s" % (key, sig[0] if sig else "", k), okk, b.where(), "the keyword %s stands for the parameter %s" % (k, ps[i]))
        ctx.count("keywords")


def value(n):
    n = bare(n)
    if n["k"] in ("int", "flt", "str", "bool"):
        try: return float(n["v"])
        except (TypeError, ValueError): return n.get("v")
    if n["k"] == "un" and n["op"] == "-":
        v = value(n["e"]); return -v if isinstance(v, float) else None
    if n["k"] in ("ctor", "init") and not [a for a in n["a"] if not a.get("dfa")]: return ()
    if n["k"] == "var": return n.get("qn") or n.get("n")
    return shape_(n)


def shape_(n):
    if isinstance(n, dict): return tuple((k, shape_(v)) for k, v in sorted(n.items()) if k not in ("l", "el", "id"))
    if isinstance(n, list): return tuple(shape_(x) for x in n)
    return str(n)


def defaults(ctx, P, bs):
    by = {}
    for b in bs:
        for a in b.args:
            k = keyword(a)
            if k and k[1] is not None: by.setdefault((b.scope, b.name, k[0]), []).append((value(k[1]), b))
    order = {}
    for b in bs:
        ks = [k[0] for k in (keyword(a) for a in b.args) if k]
        if ks: order.setdefault((b.scope, b.name), []).append((ks, b))
    for (sc, nm), l in order.items():
        for i in range(len(l)):
            for j in range(i):
                x, y = [k for k in l[i][0] if k in l[j][0]], [k for k in l[j][0] if k in l[i][0]]
                if len(x) > 1: ctx.ob("%s.%s: order of keywords (%s)" % (short(sc), nm, ", ".join(signature(P, l[i][1]) or [])[:50]), x == y, l[i][1].where(), "(%s) here, (%s) in another overload" % (", ".join(x), ", ".join(y)))
    for (sc, nm, k), l in by.items():
        vs = {repr(v) for v, _ in l}
        ctx.ob("%s.%s: default of %s" % (short(sc), nm, k), None if any(v is None for v, _ in l) else len(vs) == 1, l[-1][1].where(), "the overloads give %s the defaults %s" % (k, ", ".join(sorted(vs))))
        ax = [v for v, _ in l]
        if k == "axes": ctx.ob("%s.%s: all axes" % (short(sc), nm), None if None in ax else all(v == () for v in ax), l[0][1].where(), "")


def interface(ctx, P, bs):
    import json
    want = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c17_interface.json")))
    have = {}
    for b in bs: have.setdefault("%s.%s" % (short(b.scope), b.name), []).append(signature(P, b))
    odd = any(b.kind == "?" for b in bs)
    for k, sigs in sorted(want.items()):
        if k not in have: ctx.ob("interface: " + k, None if odd else False, "bland/python, bliss/*/include", "the name is no longer there"); continue
        ctx.ok("interface: " + k, ""); ctx.count("names of the interface")
        for s in sigs:
            if s and not any(h is None or h and h[0] == s for h in have[k]):
                ctx.bad("interface: %s(%s)" % (k, s), "bland/python, bliss/*/include", "the overload is no longer there")


def classes(ctx, P, bs):
    seen = {}
    for b in bs:
        if b.kind not in ("class", "enum"): continue
        q = b.ent[1]
        ok = q is not None and (words(q) == words(b.name) or CLASSES.get(b.name) == q)
        ctx.ob("class " + b.name, True if ok else None if q is None else False, b.where(), "the Python class %s is %s" % (b.name, q))


def modules(ctx, P):
    for F in P.defs.values():
        if not re.match(r"nanobind_init_", F.qn): continue
        dec = {}
        calls = {}
        for n in nodes(F.body):
            if n.get("k") == "decl":
                for v in [x for x in n["v"] if x.get("e")]:
                    for x in nodes(v.get("e")):
                        if x["k"] == "call" and x["f"].qn.endswith("def_submodule"):
                            dec[v["id"]] = next((s["v"] for s in x["a"] if s["k"] == "str"), None)
            if n.get("k") == "call" and n.get("f") is not None and n["f"].qn in SUB:
                a = bare(n["a"][0])
                sub = None
                if a["k"] == "var": sub = dec.get(a["id"], None)
                elif a["k"] == "call" and a["f"].qn.endswith("def_submodule"): sub = next((s["v"] for s in a["a"] if s["k"] == "str"), None)
                calls.setdefault(n["f"].qn, []).append((sub, n))
        if F.qn.endswith("pybland"):
            ctx.ob("module pybland", "bind_pybland" in calls, F.where(), "the module has no contents"); continue
        for q, s in SUB.items():
            l = calls.get(q, [])
            ctx.ob("module pybliss: " + (s or "core"), len(l) == 1 and l[0][0] == s, F.where(l[0][1]["l"]) if l else F.where(), "%s is bound %s" % (q, "nowhere" if not l else "in %s" % [x[0] for x in l]))


def imported(ctx, P):
    """an array that comes from Python"""
    F = get(ctx, P, "nb_to_bland")[0]
    ev, v = go(ctx, P, F, inline=lambda d: False)
    t = sym(F.params[0]["n"])
    key = "imported array"
    news = [x for x in subterms(v) if x.op == "new" and str(x.a[0]) == "bland::ndarray"] if v is not None else []
    if not news: ctx.unknown(key, F.where(), "returns " + (show(v, 3) if v is not None else "nothing")); return
    dl = news[0].a[1]
    while dl.op == "new": dl = dl.a[1]
    ten = ev.rec_get(dl, (F_("dl_tensor"),))
    isof = lambda x, m: x.op == "call" and str(x.a[0]).split("<")[0] == "nanobind::ndarray::" + m and x.a[1] is t
    def direct(name, path, m, sub=None):
        x = strip_all_casts(ev.rec_get(ten, tuple(F_(p) for p in path)))
        okk = isof(x, m) if sub is None else x.op == "fld" and x.a[1] == sub and isof(strip_all_casts(x.a[0]), m)
        ctx.ob("%s: %s" % (key, name), True if okk else False if transparent(x) and x.op not in ("undef", "unk") or x.op in ("call", "fld") and contains(x, lambda y: y.op == "call" and str(y.a[0]).startswith("nanobind::ndarray::") and y.a[1] is t) else None, F.where(), "the %s is %s" % (name, show(x, 3)))
    direct("data", ("data",), "data"); direct("number of dimensions", ("ndim",), "ndim")
    direct("device", ("device", "device_type"), "device_type"); direct("device id", ("device", "device_id"), "device_id")
    for n in ("code", "bits", "lanes"): direct("type " + n, ("dtype", n), "dtype", n)
    off = strip_all_casts(ev.rec_get(ten, (F_("byte_offset"),)))
    ctx.ob(key + ": no further offset", True if isnum(off) and int(off.a[0]) == 0 or off.op in ("undef", "zeroinit") else False if isnum(off) else None, F.where(), "offset by " + show(off, 3))
    for name, m in (("shape", "shape"), ("strides", "stride")):
        ws = [e for e in ev.effects if e.kind == "write" and e.loops and contains(e.val, lambda x: isof(x, "shape") or isof(x, "stride"))]
        def dest(e):
            s = show(e.loc[0], 6) + "".join(show(x, 4) for x in e.loc[1])
            return s
        mine = [e for e in ws if strip_all_casts(e.val).op == "call" and isof(strip_all_casts(e.val), m)]
        p = strip_all_casts(ev.rec_get(ten, (F_(name),)))
        good = [e for e in mine if place(ev, e, p, name)]
        if len(good) != 1: ctx.ob("%s: %s" % (key, name), False if ws and not mine and len(ws) >= 2 else False if mine and not good and p.op in ("ref", "addr", "heap", "call") else None, F.where(), "not filled from the array's own %s" % name); continue
        e = good[0]; L = e.loops[0]
        it = next((x for x in subterms(strip_all_casts(e.val).a[2]) if x.op in ("iter", "ctr")), None)
        tr = strip_all_casts(L.trip) if L.trip is not None else None
        nd = strip_all_casts(ev.rec_get(ten, (F_("ndim"),)))
        full = tr is not None and (isof(tr, "ndim") or tr is nd)
        same_ = e.loc[1] and e.loc[1][-1].op == "i" and strip_all_casts(e.loc[1][-1].a[0]) is strip_all_casts(strip_all_casts(e.val).a[2])
        ctx.ob("%s: %s" % (key, name), True if full and same_ and not extra_conds(e, L) else False if full and not same_ or extra_conds(e, L) or tr is not None and (transparent(tr) or contains(tr, lambda y: isof(y, "ndim")) and tr.op == "poly") or full and same_ is False else None, e.where(), "not every axis gets its own")


def place(ev, e, p, name):
    """the write goes through the pointer called name, whose final value is p"""
    r = e.loc[0]
    if p.op == "ref": return p.a[0] is r
    x = r
    while x.op in ("mem", "deref") and x is not p: x = x.a[0]
    if x.op == "fld" and x.a[1] in ("shape", "strides"): return x.a[1] == name
    return x is p


def check(ctx):
    P = ctx.program("bland/", "bliss/")
    bs = collect(P)
    byfn = {}
    for F in P.defs.values(): byfn.setdefault(F.qn, []).append(F)
    ns = {}
    for b in bs:
        if b.kind == "?": ctx.unknown("binding", b.where(), "the name is not a literal"); continue
        if b.kind in ("class", "enum", "init"): continue
        if b.ent is not None and b.ent[0] == "lambda": lambda_(ctx, P, b)
        elif b.kind == "value":
            uni = {n for q, en in P.enums.items() if q == b.cls for n in (en if isinstance(en, dict) else {})}
            named(ctx, P, b, uni)
        elif b.name.startswith("__"):
            want = {"__repr__": "repr", "__str__": "repr", "__getstate__": "get_state"}.get(b.name)
            if want and b.ent: ctx.ob("%s.%s" % (short(b.scope), b.name), b.ent[1].qn.endswith("::" + want) if b.ent[0] == "fn" else None, b.where(), "bound to %s" % b.ent[1])
        elif b.cls:
            uni = set(scope_members(P, b.cls))
            named(ctx, P, b, uni)
            if b.ent and b.ent[0] == "fn" and not b.ent[1].qn.startswith(b.cls + "::"): pass
            if b.kind == "def_prop_rw" and b.setter is not None:
                n = b.setter[1].qn if b.setter[0] == "fn" else b.setter[-1]
                ctx.ob("%s.%s: setter" % (short(b.scope), b.name), fit(b.name, n) == 1.0 or (None if b.setter[0] == "lambda" else False), b.where(), "assigning %s calls %s" % (b.name, n))
        else:
            e = b.ent
            if e is not None and e[0] == "fn":
                q = e[1].qn.rsplit("::", 1)[0]
                if q not in ns: ns[q] = namespace_members(P, q)
                named(ctx, P, b, ns[q])
            else: ctx.unknown("%s.%s" % (b.scope, b.name), b.where(), "not resolved")
        keywords(ctx, P, b, byfn)
    defaults(ctx, P, bs)
    classes(ctx, P, bs)
    interface(ctx, P, bs)
    modules(ctx, P)
    imported(ctx, P)
    return bs


if __name__ == "__main__":
    main("C17", RULE, check, minimum=20)
