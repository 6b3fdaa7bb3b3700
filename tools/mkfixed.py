#!/usr/bin/env python3
"""Fills the "fixed" list of known_findings.json from the fix: commits of /repo (property by subject, below)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {}
for l in open(os.path.join(ROOT, "tools", "fixes.txt")):
    if l.strip():
        p, s = l.rstrip("\n").split(" ", 1)
        MAP[s] = p
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
fixed = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        s = s[4:].strip()
        assert s in MAP, s
        fixed.append(f"fixed: property={MAP[s]} {h} {s}")
f = os.path.join(ROOT, "known_findings.json")
d = json.load(open(f))
d["fixed"] = fixed
json.dump(d, open(f, "w"), indent=1)
open(f, "a").write("\n")
