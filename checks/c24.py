import sys, os, re; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.rules import *

RULE = ("in every call that formats a message, in every instantiation: the format is a literal (or a local that only ever holds one), never text put together at run time; each replacement field names an argument that is given; "
        "each argument is named; its presentation, sign, padding and precision are valid for the type of the argument")
CALLS = {"fmt::print": 0, "fmt::format": 0, "fmt::println": 0, "fmt::format_to": 1, "fmt::format_to_n": 2, "fmt::formatted_size": 0}


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values(): yield from walk(v)
    elif isinstance(n, list):
        for v in n: yield from walk(v)


class Bad(Exception): pass


def fields(s):
    """[(argument id or None, spec)] of a format string, nested fields after their own"""
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == "{":
            if s[i + 1:i + 2] == "{": i += 2; continue
            d, j = 1, i + 1
            while j < len(s) and d:
                d += s[j] == "{"; d -= s[j] == "}"; j += 1
            if d: raise Bad("a field is not closed")
            f = s[i + 1:j - 1]
            a, _, spec = f.partition(":")
            out.append((a.strip() or None, spec))
            for m in re.finditer(r"\{([^{}]*)\}", spec): out.append((m.group(1).strip() or None, ""))
            i = j; continue
        if c == "}":
            if s[i + 1:i + 2] != "}": raise Bad("a closing brace without a field")
            i += 2; continue
        i += 1
    return out


def kind(t):
    t = t.replace("const ", "").replace("&", "").replace("volatile ", "").strip()
    if t == "bool": return "bool"
    if t in ("char",): return "char"
    if t in ("float", "double", "long double"): return "float"
    if t in ("short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "signed char", "unsigned char") or re.fullmatch(r"u?int\d+_t|size_t|std::size_t", t): return "int"
    if re.match(r"(std::(__cxx11::)?)?(basic_string|basic_string_view|string|string_view)\b", t) or re.match(r"char\s*\[\d*\]$|char \*$", t) or re.match(r"char\[\d+\]", t): return "str"
    if t in ("void *", "std::nullptr_t", "nullptr_t"): return "ptr"
    return None


SPEC = re.compile(r"^(?:(.)?([<>^]))?([-+ ]?)(#?)(0?)(\d+|\{[^}]*\})?(?:\.(\d+|\{[^}]*\}))?(L?)([a-zA-Z%?]?)$", re.S)


def valid(spec, k):
    """is the specification valid for arguments of kind k?  None if not known"""
    if not spec or k is None: return True if not spec else None
    m = SPEC.match(spec)
    if not m: return False
    sign, alt, zero, prec, typ = m.group(3), m.group(4), m.group(5), m.group(7), m.group(9)
    ok = {"int": "dxXobBc", "bool": "dxXobBs", "char": "cdxXobB?", "float": "aAeEfFgG%", "str": "s?", "ptr": "p"}[k]
    if typ and typ not in ok: return False
    num = k in ("int", "float") or k in ("bool", "char") and typ and typ in "dxXobB"
    if (sign or alt or zero) and not num: return None if k == "ptr" else False
    if prec is not None and k not in ("float", "str"): return False
    return True


def literal(n, F, seen=0):
    """literals the expression n can be; None if it can be something else"""
    while n["k"] in ("cast", "ctor", "init") and ("e" in n or len(n.get("a", [])) >= 1): n = n["e"] if "e" in n else n["a"][0]
    if n["k"] == "str": return [n["v"]]
    if n["k"] == "cond":
        a, b = literal(n["x"], F, seen), literal(n["y"], F, seen)
        return a + b if a and b else None
    if n["k"] == "call" and n.get("obj") and str(n["f"]).split("::")[-1].rstrip(">") in ("c_str", "data"): return literal(n["obj"], F, seen)
    if n["k"] == "var" and n.get("d") == "local" and seen < 4:
        lits = []
        for d in walk(F.body):
            if d.get("k") == "decl":
                for v in d.get("v", []) if isinstance(d.get("v"), list) else []:
                    if v.get("id") == n["id"]:
                        if not v.get("e"): return None
                        l = literal(v["e"], F, seen + 1)
                        if l is None: return None
                        lits += l
            if d.get("k") == "asg" and isinstance(d.get("x"), dict) and d["x"].get("id") == n["id"]: return None
            if d.get("k") == "call" and d.get("op", "").endswith("=") and d.get("a") and isinstance(d["a"][0], dict) and d["a"][0].get("id") == n["id"]: return None
            if d.get("k") == "call" and isinstance(d.get("obj"), dict) and d["obj"].get("id") == n["id"] and str(d["f"]).split("::")[-1].rstrip(">") in ("append", "push_back", "assign", "insert", "replace", "operator+="): return None
        return lits or None
    return None


def constant(f):
    """does the function only ever return literals?"""
    b = getattr(f, "body", None)
    if not b: return False
    rs = [r for r in walk(b) if r.get("k") == "ret"]
    return bool(rs) and all(r.get("e") and literal(r["e"], f) for r in rs)


def outside(n, F, seen=0):
    """does text from outside this function get into the string n?  True or None"""
    def base(m):
        t = m.get("t", "")
        return kind(t) == "str" if isinstance(t, str) else kind(t.s) == "str"
    for m in walk(n):
        if m.get("k") == "var" and m.get("d") == "param" and base(m): return True
        if m.get("k") == "call" and str(m.get("f")).split("::")[-1].rstrip(">") in ("what", "read_file_attr", "read_data_attr", "getline"): return True
        if m.get("k") in ("call", "icall") and base(m) and str(m.get("f")).split(" ")[-1].startswith(("bliss::", "bland::")) and not constant(m.get("f")): return True
        if m.get("k") == "mem" and base(m): return True
        if m.get("k") == "var" and m.get("d") == "local" and seen < 4:
            for d in walk(F.body):
                if d.get("k") == "decl":
                    for v in d.get("v", []) if isinstance(d.get("v"), list) else []:
                        if v.get("id") == m.get("id") and v.get("e") and outside(v["e"], F, seen + 1): return True
    return None


def check(ctx):
    P = ctx.program("bland/", "bliss/")
    done = {}
    for qn, L in P.byqn.items():
        for F in L:
            if not F.body: continue
            ctx.count("functions", 1)
            for n in walk(F.body):
                if n.get("k") != "call": continue
                f = n.get("f")
                q = getattr(f, "qn", str(f)).split("<")[0]
                if q not in CALLS: continue
                pos = CALLS[q]
                a = n.get("a", [])
                if len(a) > pos and "fmt::" not in str(a[pos].get("t")) and a[pos]["k"] != "str" and ("FILE" in str(a[pos].get("t")) or "text_style" in str(a[pos].get("t"))): pos += 1
                if len(a) <= pos: continue
                w = "%s:%s" % (F.where().rsplit(":", 1)[0], n["l"])
                args = [x for x in a[pos + 1:]]
                key = "%s: %s" % (F.qn.split("::")[-1], q.split("::")[-1])
                site = (w, key, tuple(str(x.get("t")) for x in args))
                if site in done: continue
                done[site] = 1
                ctx.count("messages", 1)
                ls = literal(a[pos], F)
                if ls is None:
                    x = outside(a[pos], F)
                    ctx.ob("%s: the format is fixed" % key, False if x else None, w, "the text used as format is put together at run time, so a brace in it makes the message fail"); continue
                for s in dict.fromkeys(ls):
                    k = "%s %r" % (key, s[:60])
                    try: fs = fields(s)
                    except Bad as e: ctx.bad(k, w, str(e)); continue
                    used, auto, manual, named = set(), 0, False, False
                    ok, msg = True, ""
                    for i, spec in fs:
                        if i is None: j = auto; auto += 1
                        elif i.isdigit(): j = int(i); manual = True
                        else: named = True; continue
                        if j >= len(args): ok, msg = False, "field %d has no argument: %d given" % (j, len(args)); break
                        used.add(j)
                        t = args[j].get("t", "")
                        v = valid(spec, kind(t if isinstance(t, str) else t.s))
                        if v is False: ok, msg = False, "'%s' is not valid for an argument of type %s" % (spec, t); break
                    if named: ctx.unknown(k, w, "named fields"); continue
                    if ok and auto and manual: ok, msg = False, "numbered and unnumbered fields are mixed"
                    ctx.ob("%s: every field has an argument it can show" % k, ok, w, msg)
                    if ok: ctx.ob("%s: every argument is shown" % k, len(used) == len(args), w, "%d arguments for %d fields" % (len(args), len(used)))
    return None


if __name__ == "__main__": main("C24", RULE, check, minimum=10)
