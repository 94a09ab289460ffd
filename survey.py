#!/usr/bin/env python3
"""Developer tool: run a profile without stopping at violations; print each class once with its count.
usage: survey.py parts n secs [relevant] [maxlines]"""
import subprocess, sys, re, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
exe, _ = build.build()
parts, n, secs = sys.argv[1:4]
rel = sys.argv[4] if len(sys.argv) > 4 else "C,S"
ml = int(sys.argv[5]) if len(sys.argv) > 5 else 6
out = subprocess.run([exe, "explore", "-parts", parts, "-n", n, "-secs", secs, "-relevant", rel, "-all", "1"] , capture_output=True, text=True, errors="replace").stdout
cnt, ex, cur = {}, {}, None
for l in out.split("\n"):
    m = re.match(r"count (\S+) (\d+)", l)
    if m: cnt[m[1]] = cnt.get(m[1], 0) + int(m[2]); cur = None; continue
    m = re.match(r"\[(\d+)\] ([^ ]+): (.*)", l)
    if m:
        k = m[2].rstrip(":")
        if k in ex and ex[k][0] <= int(m[1]): cur = None
        else: ex[k] = [int(m[1]), [m[3]]]; cur = k
        continue
    if l.startswith("runs "): print(l); cur = None
    elif cur: ex[cur][1].append(l)
for k in sorted(cnt, key=lambda k: -cnt[k]):
    i, m = ex.get(k, (-1, ["?"]))
    print(f"{cnt[k]:6d} {k} [{i}] " + "\n        ".join(m[:ml])[:1500])
