#!/usr/bin/env python3
"""Development tool: undoes each 'fix:' commit of /repo in the working tree, one at a time, and checks that the check of
its property (from known_findings.txt) reports the violation again.  Restores the tree afterwards."""
import re, subprocess, sys, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = sys.argv[1:]
for line in open(os.path.join(ROOT, "known_findings.txt")):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", line)
    if not m or (only and m[1] not in only):
        continue
    d = subprocess.run(["git", "-C", "/repo", "show", m[2]], capture_output=True, text=True, check=True).stdout
    subprocess.run(["git", "-C", "/repo", "apply", "-R"], input=d, text=True, check=True)
    try:
        p = subprocess.run([sys.executable, os.path.join(ROOT, "vf/run.py"), m[1]], capture_output=True, text=True)
        print(m[1], m[2], "exit", p.returncode, "OK" if p.returncode == 1 else "MISSED", m[3][:70], flush=True)
        if p.returncode == 2: print(p.stdout[-2000:], p.stderr[-500:])
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
