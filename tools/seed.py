#!/usr/bin/env python3
"""seed.py ID PROPERTY: take the uncommitted change of /tmp/w/seedrepo as seeded/ID, with /tmp/w/seeds/ID.rs as its demonstration;
text from /tmp/w/seeds/ID.txt (line 1 needs, line 2 what it breaks). Confirms the demo both ways."""
import json, os, shutil, subprocess, sys
ID, prop = sys.argv[1:3]
V, S = "/verif", "/tmp/w/seedrepo"
d = f"{V}/seeded/{ID}"
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
diff = subprocess.run(["git", "-C", S, "diff"], capture_output=True, text=True).stdout
assert diff
open(d + "/patch.diff", "w").write(diff)
shutil.copy(f"{V}/harness/vhb.rs", d)
shutil.copy(f"{V}/harness/vh.rs", d)
for f in ("demo.sh", "rundemo.py"):
    shutil.copy(f"{V}/tools/seedlib/{f}", d)
shutil.copytree(f"{V}/shadow", d + "/shadow", ignore=shutil.ignore_patterns("__pycache__"))
shutil.copy(f"/tmp/w/seeds/{ID}.rs", d + "/demo.rs")
needs, what = open(f"/tmp/w/seeds/{ID}.txt").read().strip().split("\n")[:2]
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
b = subprocess.run(["bash", d + "/demo.sh"], cwd=S, capture_output=True, text=True)
shutil.rmtree(d + "/shadow/__pycache__", ignore_errors=True)
print("unchanged:", a.returncode, a.stdout[-1500:], a.stderr[-300:] if a.returncode else "")
print("with change:", b.returncode, b.stdout[-500:], b.stderr[-400:])
ok = a.returncode == 0 and b.returncode == 1
print("OK" if ok else "NOT OK")
subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."])
sys.exit(0 if ok else 1)
