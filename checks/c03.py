import sys, os, re; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.check import *

RULE = ("the text written to a DAT file is reconstructed as a template (literal and value pieces, one repeated piece per hit); every "
        "table column, named by the header line, must carry the value that name stands for, header fields the scan value their "
        "label stands for, one row per hit in order, and the whole string must be handed to write()")
INL = lambda d: not d.qn.startswith(("std::", "fmt::", "bliss::scan::", "bliss::coarse_channel", "bland::"))


def parse_fmt(s, args):
    """fmt format string -> [str | (arg term, spec)]"""
    out, i, n, lit = [], 0, 0, ""
    while i < len(s):
        c = s[i]
        if c == "{":
            if s[i:i + 2] == "{{": lit += "{"; i += 2; continue
            j = s.index("}", i)
            body = s[i + 1:j]
            if ":" in body: idx, spec = body.split(":", 1)
            else: idx, spec = body, ""
            if idx.strip().isdigit(): k = int(idx)
            else: k = n; n += 1
            if lit: out.append(lit); lit = ""
            out.append((args[k] if k < len(args) else None, spec))
            i = j + 1
        elif c == "}":
            lit += "}"; i += 2 if s[i:i + 2] == "}}" else 1
        else:
            lit += c; i += 1
    if lit: out.append(lit)
    return out


class Rep:
    def __init__(self, L, pieces): self.L, self.pieces = L, pieces


def fstr(t):
    if t.op == "str": return t.a[0]
    if t.op in ("new", "call") and len(t.a) > 1: return fstr(t.a[1])
    return None


def flatten(ev, t):
    """string term -> pieces, or None where it cannot be resolved"""
    if t.op == "str": return [t.a[0]]
    if t.op == "vec" and not t.a: return []
    if t.op == "cat":
        out = []
        for x in t.a: out += flatten(ev, x)
        return out
    if t.op == "call" and str(t.a[0]).startswith("fmt::format"):
        s = fstr(t.a[1])
        if s is None: return [(t, "")]
        return parse_fmt(s, list(t.a[2:]))
    if t.op == "call" and str(t.a[0]).startswith(("std::operator+", "std::basic_string::operator+")):
        return sum((flatten(ev, x) for x in t.a[1:]), [])
    if t.op == "lout":
        L = ev.allloops.get(t.a[0])
        k = next((k for k in L.iter if L.iter[k].op == "iter" and L.iter[k].a[1] == t.a[1]), None)
        if L is not None and k is not None and k in L.next:
            nx = L.next[k]
            it = L.iter[k]
            fl = flatten(ev, nx)
            if fl and fl[0] == (it, ""):
                return flatten(ev, L.init[k]) + [Rep(L, fl[1:])]
    return [(t, "")]


def text(pieces):
    """merge adjacent literals"""
    out = []
    for p in pieces:
        if isinstance(p, str) and out and isinstance(out[-1], str): out[-1] += p
        else: out.append(p)
    return out


def noupd(t):
    """scan getters do not change what they return: read the object through earlier calls on it"""
    return subst(t, lambda x: noupd(x.a[0]) if x.op == "upd" else None)


def known_only(t):
    return transparent(t, ("bliss::",))


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values(): yield from walk(v)
    elif isinstance(n, list):
        for v in n: yield from walk(v)


def sexagesimal(ctx, P, ev0, label, v):
    """the function that prints an angle, carried out on closed values: degrees (hours), minutes and seconds together are the angle"""
    from c20 import At, Odd
    if v.op != "call" or len(v.a) != 2: return
    F = P.byqn.get(str(v.a[0]).split("<")[0])
    if not F or len(F) != 1 or F[0].body is None or len(F[0].params) != 1: return
    F = F[0]; key = "%s digits" % label.rstrip(":")
    ev = ctx.evaluator(P, inline=INL)
    r = ev.run(F); r = getattr(r, "val", r)
    if r is None: ctx.unknown(key, F.where(), ""); return
    pieces = text(flatten(ev, r)); x = sym(F.params[0]["n"])
    if any(not isinstance(p, str) and (isinstance(p, Rep) or p[0] is None) for p in pieces) or sum(1 for p in pieces if not isinstance(p, str)) < 3: ctx.unknown(key, F.where(), show(r, 5)); return
    samples = [0.0, 12.25, 17.21, 5.9999, 23.5, 0.0125, 1.0 / 3, 9.75] + ([-0.5, -28.936, 89.5, -0.0125, -12.25] if label == "DEC:" else [])
    res, msg = True, ""
    for s in samples:
        out = ""; place = 0
        try:
            at = At(lambda t: s if t is x else None)
            for p in pieces:
                if isinstance(p, str): out += p; continue
                n = at(p[0]); spec = p[1]
                if n in (43, 45) and spec in ("", "c"): out += chr(int(n))
                elif re.search(r"[.]\d+f?$|f$", spec):
                    out += format(float(n), spec if spec.endswith("f") else spec + "f"); m = re.search(r"[.](\d+)", spec); place = int(m.group(1)) if m else 6
                else: out += format(int(n), spec) if n == int(n) else format(float(n), spec)
        except (Odd, ValueError, TypeError, ZeroDivisionError): res = None; msg = ""; break
        m = re.match(r"^\s*([+-]?)\s*(\d+)[^\d.]+(\d+)[^\d.]+(\d+(?:\.\d+)?)\D*$", out)
        if not m: res, msg = False, "%r is printed as %s" % (s, out); break
        val = int(m.group(2)) + int(m.group(3)) / 60 + float(m.group(4)) / 3600
        if m.group(1) == "-": val = -val
        if int(m.group(3)) >= 60 or float(m.group(4)) > 60 or abs(val - s) > 0.51 * 10.0 ** -place / 3600 + 1e-9: res, msg = False, "%r is printed as %s" % (s, out); break
    ctx.ob(key + ": together they are the angle", res, F.where(), msg)


def check(ctx):
    P = ctx.program("bliss/file_types/dat_file.cpp", "bliss/file_types/detail/raii")
    W = P.get("bliss::write_scan_hits_to_dat_file")
    # helpers that write a whole text they are given (that they write all of it is C28's business)
    sinks = {}
    for F in [f for fs in P.byqn.values() for f in fs if f is not W and f.body is not None and f.where().startswith("bliss/file_types/")]:
        tp = [i for i, p in enumerate(F.params) if re.search(r"basic_string|char", p["t"].s)]
        if len(tp) == 1 and any(getattr(x.get("f"), "qn", "") in ("write", "fwrite") for x in walk(F.body)): sinks[F.qn] = tp[0]
    ev = ctx.evaluator(P, inline=lambda d: d.qn not in sinks and (INL(d) and not d.qn.startswith("format_") or d.qn.startswith("format_hits")), pure=())
    ev.run(W)
    ctx.count("functions_evaluated", 1 + len(ev.inlined))
    scan = sym(W.params[0]["n"])
    wr = [e for e in ev.effects if e.kind == "call" and (e.qn in ("write", "fwrite", "std::basic_ostream::write") or e.qn in sinks)]
    pieces = []
    if not wr:
        ctx.bad("dat:written", W.where(), "nothing is written to the file"); return
    for e in wr:
        if e.qn in sinks:
            s = e.args[sinks[e.qn]]
            while s.op in ("call", "new") and re.search(r"basic_string(_view)?$|::(data|c_str)$", str(s.a[0])) and len(s.a) == 2: s = s.a[1]
            n = strip_all_casts(ev.sizeof(s))
        elif e.qn != "write":
            ctx.unknown("dat:writer", e.where(), "not a plain write()"); continue
        else: s, n = e.args[1], strip_all_casts(e.args[2])
        cut = n.op == "min" and any(isnum(x) for x in n.a) or isnum(n) and s.op != "str" and n.a[0] > 0
        ctx.ob("write@%d:whole-string" % (wr.index(e) + 1), n is strip_all_casts(ev.sizeof(s)) or (False if n.op == "size" or (cut and not e.loops) else None), e.where(), "write() is given length %s for a string of length %s" % (show(n), show(ev.sizeof(s))))
        ex = [c for c in e.pc if not contains(c, lambda x: x.op in ("caught", "hasval") or x.op == "call" and x.a[0] in ("open", "write", *sinks))]
        ctx.ob("write@%d:unconditional" % (wr.index(e) + 1), not ex if not ex or all(known_only(noupd(c)) for c in ex) else None, e.where(), "written only when %s" % [show(c) for c in ex])
        for x in subterms(s):      # the text is shortened before it is written
            if x.op == "call" and re.search(r"basic_string(_view)?::(substr|resize|erase|pop_back|remove_suffix|remove_prefix|clear)$", str(x.a[0])) and any(y.op in ("lout", "cat") for y in subterms(x.a[1])):
                n_ = [strip_all_casts(y) for y in x.a[2:]]
                whole = str(x.a[0]).endswith("substr") and n_ and isnum(n_[0]) and n_[0].a[0] == 0 and (len(n_) == 1 or n_[1].op == "size" or isnum(n_[1]) and (n_[1].a[0] < 0 or n_[1].a[0] > 2**62))
                ctx.ob("write@%d:not shortened" % (wr.index(e) + 1), True if whole else False if all(isnum(y) for y in n_) else None, e.where(), "%s is applied to the text of the table: %s" % (str(x.a[0]).split("::")[-1], [show(y, 3) for y in n_]))
        fl = flatten(ev, s)
        if e.loops: fl = [Rep(e.loops[-1], fl)]
        pieces += fl
    pieces = text(pieces)
    reps = [p for p in pieces if isinstance(p, Rep)]
    for p in pieces:      # a row appended only for some hits
        if isinstance(p, tuple) and p[0] is not None and p[0].op == "lout":
            L = ev.allloops.get(p[0].a[0])
            k = next((k for k in L.iter if L.iter[k].op == "iter" and L.iter[k].a[1] == p[0].a[1]), None) if L is not None else None
            nx = L.next.get(k) if k is not None else None
            if nx is not None and nx.op == "ite" and any(x is L.iter[k] for x in nx.a[1:]) and any(x.op == "cat" and x.a[0] is L.iter[k] for x in nx.a[1:]):
                ctx.ob("table:every-hit-has-a-row", False if known_only(noupd(nx.a[0])) else None, L.fn.where(L.line), "a row is only written when a condition on the hit holds: %s" % show(nx.a[0]))
    # ------------- header fields: label -> value
    g = lambda n: raw("call", "bliss::scan::" + n, scan)
    FIELDS = [("Source:", lambda v: v is g("source_name"), lambda v: mention(v, "source_name")),
              ("MJD:", lambda v: v is g("tstart"), None),
              ("RA:", lambda v: mention(v, "src_raj") and not mention(v, "src_dej"), None),
              ("DEC:", lambda v: mention(v, "src_dej") and not mention(v, "src_raj"), None),
              ("DELTAT:", lambda v: v is g("tsamp"), None),
              ("DELTAF(Hz):", lambda v: v is TT.mul(g("foff"), num(1000000)), None),
              ("obs_length:", lambda v: v is TT.mul(g("ntsteps"), g("tsamp")), None),
              ("File ID:", lambda v: mention(v, "get_file_path"), None)]

    def mention(v, name): return contains(v, lambda x: x.op == "call" and x.a[0] == "bliss::scan::" + name)
    for label, good, alt in FIELDS:
        hit = [i for i, p in enumerate(pieces) if isinstance(p, str) and p.rstrip().endswith(label) and i + 1 < len(pieces) and isinstance(pieces[i + 1], tuple)]
        if not hit:
            if any(isinstance(p, str) and label in p for p in pieces): ctx.bad("header %s" % label, W.where(), "header field %s carries no value" % label)
            else: ctx.unknown("header %s" % label, W.where(), "label not found in the header text")
            continue
        v = strip_all_casts(noupd(pieces[hit[0] + 1][0]))
        ok = good(v) or (alt is not None and alt(v))
        ctx.ob("header %s" % label, True if ok else False if (known_only(v) or v.op == "call") else None, W.where(), "header field %s carries %s" % (label, show(v)))
        if ok and label in ("RA:", "DEC:"): sexagesimal(ctx, P, ev, label, v)
    # ------------- table
    hdr = [p for p in pieces if isinstance(p, str) and "Top_Hit_#" in p]
    if len(reps) != 1 or not hdr:
        ctx.unknown("table", W.where(), "table structure not recognised"); return
    line = [l for l in hdr[0].split("\n") if "Top_Hit_#" in l][0]
    names = [c.strip() for c in line.lstrip("# ").split("\t")]
    names[0] = "Top_Hit_#"
    R = reps[0]
    L = R.L
    src = g("hits")
    rng = noupd(L.trip) if L.trip is not None else None
    ctx.ob("table:one-row-per-hit", None if rng is None else True if rng is TT.markint(raw("size", src)) else False if known_only(rng) else None, L.fn.where(L.line), "rows are written for %s elements" % (show(rng) if rng is not None else "?"))
    ctx.ob("table:no-early-exit", not L.breaks, L.fn.where(L.line), "the row loop can stop early")
    # columns
    cols, cur = [], []
    for p in text(R.pieces):
        if isinstance(p, str):
            for ch in p:
                if ch in "\t\n":
                    cols.append(cur); cur = []
                else:
                    if cur and isinstance(cur[-1], str): cur[-1] += ch
                    else: cur.append(ch)
        else: cur.append(p)
    if cur: cols.append(cur); ctx.bad("table:row-ends-with-newline", L.fn.where(L.line), "rows are not terminated by a newline")
    if any(isinstance(p, Rep) or (not isinstance(p, str) and p[0].op == "ite" and p[1] == "" and contains(p[0], lambda x: x.op == "cat")) for p in R.pieces):
        ctx.unknown("table:columns", W.where(), "conditional row pieces"); return
    ctx.ob("table:column-count", len(cols) == len(names), L.fn.where(L.line), "rows have %d columns, the header line names %d" % (len(cols), len(names)))
    el = raw("sel", src, L.ctr)
    f = lambda n: raw("fld", el, n)
    M = num(1000000)
    from vlib.terms import add, mul, div
    drift = div(mul(f("duration_sec"), f("drift_rate_Hz_per_sec")), M)
    end = add(f("start_freq_MHz"), drift)
    mid = div(add(f("start_freq_MHz"), end), num(2))
    WANT = {"Top_Hit_#": add(L.ctr, num(1)), "Drift_Rate": f("drift_rate_Hz_per_sec"), "SNR": f("snr"), "Uncorrected_Frequency": mid,
            "Corrected_Frequency": mid, "Index": f("start_freq_index"), "freq_start": f("start_freq_MHz"), "freq_end": end,
            "SEFD": num(0), "SEFD_freq": num(0), "Coarse_Channel_Number": f("coarse_channel_number"), "Full_number_of_hits": None}
    ctx.count("columns", len(cols))
    for i, n in enumerate(names):
        if i >= len(cols): ctx.bad("column %s" % n, W.where(), "no value for this column"); continue
        vals = [p for p in cols[i] if not isinstance(p, str)]
        if len(vals) != 1:
            ctx.bad("column %s" % n, W.where(), "column holds %d values" % len(vals)); continue
        if n not in WANT: ctx.unknown("column %s" % n, W.where(), "unknown column name"); continue
        if WANT[n] is None: continue
        spec = re.match(r".*?\.(\d+)", vals[0][1] or "")
        if vals[0][0] is not None and n.startswith(("Drift", "SNR", "Uncorrected", "Corrected", "freq_")):
            ctx.ob("column %s:precision" % n, not (spec and int(spec.group(1)) < 6), L.fn.where(L.line), "column %s is rounded to %s decimals" % (n, spec.group(1) if spec else ""))
        v = strip_all_casts(noupd(vals[0][0]))
        ctx.ob("column %s" % n, True if v is WANT[n] else False if known_only(v) else None, L.fn.where(L.line), "column %s carries %s, expected %s" % (n, show(v), show(WANT[n])))


if __name__ == "__main__":
    main("C03", RULE, check, minimum=3)
