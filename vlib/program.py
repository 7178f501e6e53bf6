"""Resolved program: functions / records / enums of the repository over a set of translation units."""
import json
from . import facts


class Type:
    __slots__ = ("s", "kind", "bits", "signed", "ref", "const", "base")

    def __init__(self, d):
        self.s, self.kind, self.bits, self.signed, self.ref, self.const, self.base = d

    def __repr__(self):
        return self.s

    @property
    def isint(self):
        return self.kind in ("i", "e", "b")

    @property
    def isptr(self):
        return self.kind == "p"


class Fn:
    """a callee (declaration)"""
    __slots__ = ("key", "qn", "pt", "rt", "cls", "static", "const", "virt", "ta", "in_repo", "repo_decl", "implicit", "casg", "masg", "lam", "noret", "va")

    def __repr__(self):
        return "<fn %s>" % self.qn

    @property
    def name(self):
        return self.qn.rsplit("::", 1)[-1]


class Func:
    """a function definition"""

    def __init__(self, d, tu):
        self.d, self.tu = d, tu
        self.key, self.qn = d["key"], d["qn"]
        self.line = d["l"]
        self.endline = d["el"]
        self.file = tu["files"][d["file"]]
        self.cls = d.get("cls")
        self.ta = d.get("ta", [])
        self.cta = d.get("cta", [])
        self.lam = bool(d.get("lam"))
        self.isctor = bool(d.get("isctor"))
        self.isdtor = bool(d.get("isdtor"))
        self.static = bool(d.get("static"))
        self.implicit = bool(d.get("implicit"))
        self._res = False

    @property
    def name(self):
        return self.qn.rsplit("::", 1)[-1]

    def _resolve(self):
        if self._res:
            return
        self._res = True
        tu = self.tu
        types, fns, tid = tu["types"], tu["fns"], tu["id"]
        NT = None

        def walk(n):
            st = [n]
            while st:
                n = st.pop()
                if isinstance(n, dict):
                    for k in ("t", "from", "ct", "at", "et", "rt", "szof"):
                        v = n.get(k)
                        if v.__class__ is int:
                            n[k] = types[v] if v >= 0 else None
                    v = n.get("f")
                    if v.__class__ is int:
                        n["f"] = fns[v]
                    v = n.get("id")
                    if v.__class__ is int:
                        n["id"] = (tid, v)
                    v = n.get("inst")
                    if v:
                        n["inst"] = [fns[x] if x.__class__ is int else x for x in v]
                    for c in n.values():
                        if c.__class__ is dict or c.__class__ is list:
                            st.append(c)
                elif isinstance(n, list):
                    for c in n:
                        if c.__class__ is dict or c.__class__ is list:
                            st.append(c)
        walk(self.d)
        # parameters expanded from a pack share their name
        names = [p.get("n") for p in self.d.get("p") or []]
        for i, p in enumerate(self.d.get("p") or []):
            if p.get("n") and names.count(p["n"]) > 1: p["n"] += "#%d" % i

    @property
    def params(self):
        self._resolve(); return self.d["p"]

    @property
    def rt(self):
        self._resolve(); return self.d["rt"]

    @property
    def body(self):
        self._resolve()
        if "nb" not in self.d:
            self.d["nb"] = True
            tail_returns(self.d.get("b"))
        return self.d["b"]

    @property
    def inits(self):
        self._resolve(); return self.d.get("inits", [])

    @property
    def fn(self):
        self._resolve(); return self.d["f"]

    @property
    def sig(self):
        return "%s(%s)" % (self.qn, ", ".join(p["t"].s for p in self.params))

    @property
    def rel(self):
        return self.file.replace(facts.REPO + "/", "")

    def where(self, line=None):
        return "%s:%d" % (self.rel, line or self.line)

    def __repr__(self):
        return "<Func %s %s>" % (self.qn, self.where())


LOOPS = ("while", "for", "do", "rfor")


def tail_returns(b):
    """`return;` inside a loop that ends a function means the same as `break;`"""
    while b and b["k"] == "block" and b["s"]:
        b = b["s"][-1]
        if b["k"] == "ret" and not b.get("e") and len(b) <= 3: return
    if not b or b["k"] not in LOOPS: return
    body = [k for k in ("b", "body", "s") if isinstance(b.get(k), dict)]
    def walk(n):
        if isinstance(n, list):
            for x in n: walk(x)
        elif isinstance(n, dict):
            if n.get("k") in LOOPS or n.get("k") in ("switch", "lambda", "try"): return
            if n.get("k") == "ret" and not n.get("e"): n["k"] = "break"; return
            for x in list(n.values()):
                if isinstance(x, (dict, list)): walk(x)
    for k in body: walk(b[k])


class Program:
    def __init__(self, tus):
        self.tus = list(tus)
        self.defs, self.byqn, self.records, self.enums, self.globals = {}, {}, {}, {}, {}
        self.units = 0
        paths = facts.extract_all(self.tus)
        for i, p in enumerate(paths):
            d = json.load(open(p))
            self.units += 1
            types = [Type(x) for x in d["types"]]
            fns = []
            for f in d["fns"]:
                o = Fn()
                o.key, o.qn = f["key"], f["qn"]
                o.pt = [types[x] for x in f["pt"]]
                o.rt = types[f["rt"]] if f["rt"] >= 0 else None
                o.cls = f.get("cls")
                o.static, o.const, o.virt = bool(f.get("static")), bool(f.get("const")), bool(f.get("virt"))
                o.ta = f.get("ta", [])
                o.in_repo, o.repo_decl = bool(f.get("in")), bool(f.get("rd"))
                o.implicit, o.casg, o.masg, o.lam = bool(f.get("implicit")), bool(f.get("casg")), bool(f.get("masg")), bool(f.get("lam"))
                o.noret, o.va = bool(f.get("noret")), bool(f.get("va"))
                fns.append(o)
            tu = {"types": types, "fns": fns, "files": d["files"], "id": i, "name": d["tu"]}
            for f in d["functions"]:
                if f["key"] in self.defs:
                    continue
                F = Func(f, tu)
                self.defs[F.key] = F
                self.byqn.setdefault(F.qn, []).append(F)
            for r in d["records"]:
                if r["qn"] in self.records:
                    continue
                r["file"] = tu["files"][r["file"]]
                h = Func.__new__(Func); h.d, h.tu, h._res = {"x": r["fields"], "m": r["methods"]}, tu, False
                h._resolve()
                self.records[r["qn"]] = r
            for e in d["enums"]:
                self.enums.setdefault(e["qn"], dict((a, b) for a, b in e["v"]))
            for g in d["globals"]:
                h = Func.__new__(Func); h.d, h.tu, h._res = {"x": g}, tu, False
                h._resolve()
                self.globals.setdefault(g["qn"], g)

    def get(self, qn, nparams=None, pred=None, one=True):
        c = [f for f in self.byqn.get(qn, []) if (nparams is None or len(f.params) == nparams) and (pred is None or pred(f))]
        if one:
            if not c:
                raise facts.AnalysisError("anchor vanished: no definition of %s" % qn)
            return c[0]
        return c

    def callee(self, fn):
        return self.defs.get(fn.key)


def walk(n):
    """every AST node below n (dicts with a kind), lambdas' bodies not included"""
    st = [n]
    while st:
        n = st.pop()
        if isinstance(n, dict):
            if "k" in n:
                yield n
            st.extend(c for c in n.values() if c.__class__ in (dict, list))
        elif isinstance(n, list):
            st.extend(c for c in n if c.__class__ in (dict, list))
