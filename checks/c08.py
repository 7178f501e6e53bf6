import re, sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.check import *
from vlib.odo import *
from vlib.lists import Lists, Odd
from checks.c07 import spread

RULE = ("every reduction kernel reads, for each output element, exactly the input elements that share its position in the kept dimensions: the output and "
        "the kept input dimensions step together in one order, the reduced dimensions are stepped as often as the product of their extents, and every "
        "address is offsets + sum(index*stride) of the array it is used with (mask and outputs included); reduction loops accumulate every step")
KERNELS = ["mean_impl::call", "masked_mean_impl::call", "stddev_impl::call", "masked_stddev_impl::call", "bland::cpu::mean_stddev",
           "bland::cpu::masked_mean_stddev", "standardized_moment_impl::call", "sum_impl::call", "max_impl::call", "count_impl::call"]


helpers = lambda d: d.file.startswith("/repo/bland/bland/ops/cpu/") and not d.cls and not d.qn.startswith("bland::")


def check(ctx):
    P = ctx.program("bland/ops/")
    for q in KERNELS:
        if q not in P.byqn: raise AnalysisError("no definition of " + q)
        for i, F in enumerate(spread(P.byqn[q], 3)): kernel(ctx, P, q, F, "<%s>" % ",".join(F.ta) if i else "")


def kernel(ctx, P, q, F, tag):
    ev = ctx.evaluator(P, inline=helpers, record_reads=True)
    ev.run(F)
    K = Reduction(ev, F, lambda n, ok, w, m: ctx.ob("%s%s %s" % (q, tag, n), ok, w, m))
    K.order, K.kept, K.outer_trips = {}, [], []
    K.outs = [X for e, X, E in K.accesses() if e.kind == "write"]
    K.axlists = []
    K.run(F.where())
    defaults(ctx, q + tag, ev, K, F)
    for l in K.order.values():
        ctx.ob(q + tag + " walks in one order", len(set(o for o, _, _ in l)) == 1, F.where(), "")
    for t, M in K.outer_trips:
        ctx.ob(q + tag + " one reduction per output element", True if t in [K.numel(o) for o in K.outs] else None, F.where(), show(t))


def defaults(ctx, key, ev, K, F):
    """the list of reduced axes: the one asked for, or all axes when it is empty"""
    seen = set()
    lists = [p["n"] for p in F.params if re.search(r"vector<\s*(long|int64_t|std::int64_t)", str(p.get("t", "")))] or [F.params[-1]["n"]]
    for R, X, n, w in K.axlists:
        if R in seen: continue
        seen.add(R)
        ok, why = True, ""
        for rank, red in ((1, []), (2, []), (3, []), (4, []), (1, [0]), (2, [1]), (3, [0, 2]), (3, [2, 0]), (4, [1])):
            def leaf(t):
                if t.op in ("sym", "var", "param") and show(t) in lists: return red
                if t.op == "rank": return rank
                if t.op == "dims" and t.a[0] == "shape": return list(range(2, 2 + rank))
                if t.op == "call" and len(t.a) == 2:
                    nm = str(t.a[0]).split("::")[-1]
                    if nm == "ndim": return rank
                    if nm == "shape": return list(range(2, 2 + rank))
            try: got = Lists(leaf, ev.allloops)(R)
            except (Odd, TypeError, KeyError, IndexError, ZeroDivisionError) as x: ok, why = None, "%s (%s)" % (show(R, 4), x); break
            if got != (red or list(range(rank))): ok, why = False, "asked to reduce axes %s of an array with %d, it reduces axes %s" % (red, rank, got); break
        ctx.ob(key + " " + n + ": axes reduced", ok, F.where(), why)


if __name__ == "__main__": main("C08", RULE, check, 5)
