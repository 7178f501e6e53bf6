"""debug helper: python3-vt -m vlib.show <tu-prefix> <qualified name> [depth] [prefix to inline]"""
import sys
from .program import Program
from .facts import group
from .ev import *

p = Program(group(sys.argv[1]))
depth = int(sys.argv[3]) if len(sys.argv) > 3 else 0
pref = sys.argv[4] if len(sys.argv) > 4 else "bl"
for f in p.byqn.get(sys.argv[2], []):
    print("=====", f.sig, f.where(), f.ta)
    e = Evaluator(p, inline=lambda d: d.qn.startswith(pref), max_depth=depth)
    v = e.run(f)
    print("value:", show(v, 9) if v is not None else None)
    for x in e.effects:
        print("  ", x.kind, x.qn or "", (show_loc(x.loc) + " := " + show(x.val, 9)) if x.loc and x.val is not None else "", "obj=" + show_loc(x.obj) if x.obj else "", [show(a) for a in x.args or []], "L%s" % x.line, "pc=", [show(c) for c in x.pc], "loops=", [l.id for l in x.loops])
    for root, d in e.state.store.items():
        if root.op in ("mem", "glob"):
            for q, v in d.items(): print("   post", show_loc((root, q)), "=", show(v))
    for l in e.loops:
        print("  ", l, "cond", show(l.cond) if l.cond is not None else None)
        for k in l.iter: print("      ", l.names[k], ":", show(l.init[k]), "->", show(l.iter[k]), "->", show(l.next[k]) if k in l.next else None)
    for n in e.notes: print("  note", n)
