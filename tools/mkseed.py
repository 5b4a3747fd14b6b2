#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from a definition: python3 mkseed.py FILE.py
FILE defines ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)...], KIND = server|crate|sh, and DEMO (demo.py, main.rs or demo.sh), DEPS (crate)."""
import os, shutil, subprocess, sys, json, runpy
d = runpy.run_path(sys.argv[1])
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(V, "seeded", d["ID"])
wt = "/tmp/seed-wt"
shutil.rmtree(wt, ignore_errors=True)
subprocess.run(["git", "clone", "-q", "/repo", wt], check=True)
for f, old, new in d["EDITS"]:
    p = os.path.join(wt, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
shutil.rmtree(out, ignore_errors=True)
os.makedirs(out)
diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True, check=True).stdout
open(out + "/patch.diff", "w").write(diff)
shutil.rmtree(wt)
if d["KIND"] != "sh":
    subprocess.run(["tar", "--sort=name", "--mtime=2020-01-01", "--owner=0", "--group=0", "-C", V, "-czf", out + "/kit.tgz", "shims", "tools/mkws.py", "lspc.py"], check=True)
    shutil.copy(os.path.join(V, "tools/kit", d["KIND"] + ".sh"), out + "/demo.sh")
if d["KIND"] == "server":
    open(out + "/demo.py", "w").write(d["DEMO"].lstrip())
elif d["KIND"] == "crate":
    os.makedirs(out + "/demo/src")
    open(out + "/demo/src/main.rs", "w").write(d["DEMO"].lstrip())
    open(out + "/demo/Cargo.toml", "w").write('[package]\nname = "demo"\n\n[dependencies]\n' + d["DEPS"])
else:
    open(out + "/demo.sh", "w").write(d["DEMO"].lstrip())
    for n, t in d.get("FILES", {}).items():
        open(os.path.join(out, n), "w").write(t.lstrip())
json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
print("made", out)
