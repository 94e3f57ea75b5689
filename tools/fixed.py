#!/usr/bin/env python3
"""Lists the fix commits of /repo as known_findings.txt wants them: tools/fixed.py < map, where map has lines HASH ID"""
import subprocess, sys
m = dict(l.split() for l in sys.stdin if l.strip())
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        print(f"fixed: property={m[h]} {h} {s[5:]}")
