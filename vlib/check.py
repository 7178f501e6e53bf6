"""Check framework: obligations, known findings, evidence, exit codes."""
import json, os, sys, time, traceback
sys.setrecursionlimit(20000)
from . import facts
from .facts import AnalysisError
from .program import Program
from .ev import *
from . import terms as TT

VERIF = facts.VERIF


class Ctx:
    def __init__(self, pid, rule):
        self.pid, self.rule = pid, rule
        self.obs = []        # (key, status, where, msg)
        self.keys = set()
        self.analysed = {}
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.notes = []
        self.units = 0

    def program(self, *prefixes):
        tus = []
        for p in prefixes:
            g = [p] if p in facts.TUS else facts.group(p)
            if not g: raise AnalysisError("no translation unit matches " + p)
            tus += [x for x in g if x not in tus]
        P = Program(tus)
        self.units += P.units
        return P

    # ---- obligations
    def _add(self, key, status, where, msg):
        n, k = 2, key
        while k in self.keys:
            k = "%s#%d" % (key, n); n += 1
        self.keys.add(k)
        self.obs.append((k, status, where, msg))

    def ok(self, key, where="", msg=""):
        self._add(key, "holds", where, msg)

    def bad(self, key, where, msg):
        self._add(key, "violated", where, msg)

    def unknown(self, key, where, msg):
        self._add(key, "undecided", where, msg)

    def ob(self, key, cond, where, msg):
        """cond True -> holds, False -> violated, None -> undecided"""
        if cond is None: self.unknown(key, where, msg)
        elif cond: self.ok(key, where, "")
        else: self.bad(key, where, msg)
        return cond

    def count(self, name, n=1):
        self.analysed[name] = self.analysed.get(name, 0) + n

    def evaluator(self, P, **kw):
        return Evaluator(P, **kw)

    def need(self, n):
        if len(self.obs) < n:
            raise AnalysisError("only %d rule instances found, at least %d expected" % (len(self.obs), n))


def known(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"): continue
            d = json.loads(l)
            if d.get("status", "known") == "known" and d["property"] == pid:
                out[d["key"]] = d["what"]
    return out


def main(pid, rule, fn, minimum=1, assumptions=(), decl=""):
    ctx = Ctx(pid, rule)
    ev_path = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    code = 0
    try:
        fn(ctx)
        decided = [o for o in ctx.obs if o[1] != "undecided"]
        if len(ctx.obs) < minimum:
            if not any(o[1] == "violated" for o in ctx.obs):
                raise AnalysisError("only %d rule instances found, at least %d expected: the anchors of this rule have moved" % (len(ctx.obs), minimum))
        err = None
    except AnalysisError as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    kf = known(pid)
    viol, kn = [], []
    for k, s, w, m in ctx.obs:
        if s == "violated":
            (kn if k in kf else viol).append((k, w, m))
    for k, w, m in kn:
        print("KNOWN-FINDING: property=%s %s at %s: %s" % (pid, k, w, kf[k]))
    und = [o for o in ctx.obs if o[1] == "undecided"]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ev = {"property": pid, "tier": ctx.tier, "seed": seed, "level": "other",
          "coverage": {"explanation": "static analysis of the type-resolved syntax tree of the current /repo sources; rule: " + rule,
                       "translation_units": ctx.units, "obligations": len(ctx.obs),
                       "discharged": len([o for o in ctx.obs if o[1] == "holds"]),
                       "known_findings": [k for k, _, _ in kn],
                       "undecided": [{"key": k, "where": w, "why": m} for k, s, w, m in und],
                       "analysed": ctx.analysed,
                       "rule": rule,
                       "samples": [{"obligation": k, "status": s, "where": w} for k, s, w, m in ctx.obs][:400]},
          "assumptions": list(assumptions), "wall_s": round(time.time() - ctx.t0, 2), "violations": len(viol)}
    json.dump(ev, open(ev_path, "w"), indent=1)
    print("%s: %d translation units, %d obligations: %d hold, %d violated, %d known findings, %d undecided (%.1fs)" % (
        pid, ctx.units, len(ctx.obs), ev["coverage"]["discharged"], len(viol), len(kn), len(und), ev["wall_s"]))
    for k, s, w, m in und:
        print("  undecided %s at %s: %s" % (k, w, m))
    if viol:
        rp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
        with open(rp, "w") as f:
            for k, w, m in viol:
                f.write("%s\n  at %s\n  %s\n  rule: %s\n\n" % (k, w, m, rule))
        for k, w, m in viol:
            print("  %s at %s: %s" % (k, w, m))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if err:
        print("ANALYSIS-ERROR property=%s: %s" % (pid, err))
        sys.exit(2)
    sys.exit(0)


# ------------------------------------------------------------------ helpers shared by the rules
def strip_casts(t):
    while t.op in ("cast", "trunc"):
        t = t.a[-1]
    return t


def strip_all_casts(t):
    def f(x):
        while x.op in ("cast", "trunc"): x = x.a[-1]
        return x
    def g(x): return TT.subst(f(x), g) if x.op in ("cast", "trunc") else None
    return TT.subst(t, g)


def cond_only(pc, allowed):
    return [c for c in pc if not allowed(c)]


def loop_guard(c, loops):
    """is condition c just 'the loop is still running' for one of these loops?"""
    for L in loops:
        if L.trip is not None and c is TT.lt(L.ctr, L.trip): return True
        if L.cond is not None and (c is L.cond or (L.cond.op == "and" and c in L.cond.a)): return True
    return False


def extra_conds(e, L=None):
    """path conditions of an effect other than the guards of its enclosing loops (and, with L, those already holding on
    entry to L)"""
    pre = set(L.entry) if L is not None else ()
    return [c for c in e.pc if c not in pre and not loop_guard(c, e.loops)]


OPAQUE = ("lout", "out", "undef", "upd", "iter", "call", "caught", "icall", "unk", "pushed", "resized", "lam", "apply")


def transparent(t, allow_calls=()):
    """built only from inputs, fields, elements, constants and arithmetic: nothing the evaluator could not see through"""
    def op(x):
        if x.op == "call": return not str(x.a[0]).startswith(tuple(allow_calls)) if allow_calls else True
        return x.op in OPAQUE
    return not contains(t, op)


def same(got, want, allow_calls=()):
    """True: equal terms. False: both are fully understood and differ. None: undecided."""
    if got is want: return True
    if transparent(got, allow_calls): return False
    return None
