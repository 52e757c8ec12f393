#!/usr/bin/env python3
"""reword.py Cxx < new statement: replaces the statement of a property in props.py and regenerates the outputs"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); p = V + "/tools/props.py"; s = open(p).read(); pid = sys.argv[1]
i = s.index('prop("%s"' % pid); j = s.find('\nprop("', i + 1); j = len(s) if j < 0 else j
lines = s[i:j].split("\n"); lines[1] = " " + json.dumps(sys.stdin.read().strip(), ensure_ascii=False) + ","
open(p, "w").write(s[:i] + "\n".join(lines) + s[j:])
for t in ("props", "manifest"): subprocess.run([sys.executable, f"{V}/tools/{t}.py"], check=True)
