#!/usr/bin/env python3
"""plant.py <spec.py>: the spec defines id, property, needs, breaks, edits = [(file, old, new)], main (Rust).
Writes /verif/seeded/<id> with a patch against /repo's HEAD."""
import json, os, subprocess, sys
s = {}
exec(open(sys.argv[1]).read(), s)
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = f"{v}/seeded/{s['id']}"
os.makedirs(d, exist_ok=True)
w = "/tmp/plant"
subprocess.run(["rm", "-rf", w], check=True)
subprocess.run(["git", "clone", "-q", "--local", "/repo", w], check=True)
git = lambda *a: subprocess.run(["git", "-C", w, *a], check=True, capture_output=True, text=True).stdout
for f, old, new in s["edits"]:
    p = w + "/" + f
    t = open(p).read()
    assert t.count(old) == 1, (f, t.count(old), old)
    open(p, "w").write(t.replace(old, new))
open(d + "/patch.diff", "w").write(git("diff"))
subprocess.run(["rm", "-rf", w], check=True)
open(d + ("/demo.cjs" if "demo" in s else "/main.rs"), "w").write(s.get("demo") or s["main"])
json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
subprocess.run([v + "/tools/demo/mk.sh", s["id"]], check=True)
print(open(d + "/patch.diff").read())
