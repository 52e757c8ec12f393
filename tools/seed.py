#!/usr/bin/env python3
"""mkseed helper: tools/seed.py ID PROPERTY 'needs' 'what it breaks' < spec   where spec = repeated blocks
@@ path / old / -- / new / (next block); demo.cpp read from argv[5], extra link sources argv[6:]. Confirms apply + demo both ways on a scratch copy."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, needs, breaks = sys.argv[1:5]
spec = sys.stdin.read()
W = "/tmp/seedwork"
subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
try:
    for blk in spec.split("\n@@ "):
        blk = blk[3:] if blk.startswith("@@ ") else blk
        if not blk.strip(): continue
        path, rest = blk.split("\n", 1); old, new = rest.split("\n--\n")
        p = f"{W}/{path.strip()}"; s = open(p).read(); new = new.rstrip("\n"); old = old.rstrip("\n")
        assert s.count(old) == 1, (path, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = f"{V}/seeded/{sid}"; os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "-C", W, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    for state in ("patched", "clean"):
        if state == "clean": subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
        r = subprocess.run(["bash", d + "/demo.sh"], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(sid, state, "demo rc", r.returncode, r.stdout[-300:])
finally:
    shutil.rmtree(W)
