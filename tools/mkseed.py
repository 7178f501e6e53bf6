"""developer aid: write seeded/<id>/ from textual edits of /repo sources and a demo body"""
import os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed(id, prop, needs, breaks, edits, demo, kind="cpp"):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    patch = ""
    files = {}
    for f, old, new in edits:
        s = files.get(f) or open("/repo/" + f).read()
        if isinstance(old, tuple):
            ls = s.split("\n"); n, o = old
            assert o in ls[n - 1], (id, f, n, ls[n - 1])
            ls[n - 1] = ls[n - 1].replace(o, new, 1); files[f] = "\n".join(ls); continue
        assert s.count(old) == 1, (id, f, s.count(old), old)
        files[f] = s.replace(old, new)
    for f, s in files.items():
        t = tempfile.mkdtemp()
        os.makedirs(t + "/a/" + os.path.dirname(f)); os.makedirs(t + "/b/" + os.path.dirname(f))
        shutil.copy("/repo/" + f, t + "/a/" + f); open(t + "/b/" + f, "w").write(s)
        r = subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=t, capture_output=True, text=True)
        patch += "diff --git a/%s b/%s\n" % (f, f) + "\n".join(l.split("\t")[0] if l.startswith(("--- ", "+++ ")) else l for l in r.stdout.split("\n"))
        shutil.rmtree(t)
    open(d + "/patch.diff", "w").write(patch)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if kind == "cpp":
        open(d + "/demo.cpp", "w").write(demo)
        shutil.copy(V + "/tools/demo_template.sh", d + "/demo.sh")
    elif kind == "py":
        open(d + "/demo.py", "w").write(demo)
        open(d + "/demo.sh", "w").write('#!/bin/bash\nH=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap \'/bin/rm -rf "$T"\' EXIT\ncd "$T" && PYTHONPATH=/repo/_build/bliss/python/blissdedrift /usr/bin/python3 "$H/demo.py"\n')
    else:
        open(d + "/demo.sh", "w").write(demo)
    os.chmod(d + "/demo.sh", 0o755)
