#!/usr/bin/env python3
"""Development tool: makes and verifies planted bugs.  seed.py DEFS.py [ID...]
DEFS.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], deps=[crates], demo='rust main.rs')]."""
import json, os, subprocess, sys, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd = the repository; builds a small program against its crates in a scratch folder
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
d=$(mktemp -d) || exit 3; trap 'rm -rf "$d"' EXIT
export HOME=${HOME:-/root} PATH="/root/.cargo/bin:$PATH" CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true TMPDIR="$d"
mkdir "$d/src" && cp "$here/main.rs" "$d/src/" && cp "$repo/Cargo.lock" "$d/" && sed "s#@REPO@#$repo#" "$here/manifest.toml" > "$d/Cargo.toml" || exit 3
cd "$d" && cargo build --quiet --offline 2>"$d/log" || { cat "$d/log"; exit 3; }
timeout 120 "$d/target/debug/demo"
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns); only = sys.argv[2:]
    for s in ns["SEEDS"]:
        if only and s["id"] not in only: continue
        d = os.path.join(ROOT, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        assert not sh("git -C /repo status --porcelain").stdout, "repo dirty"
        try:
            for f, a, b in s["edits"]:
                p = "/repo/" + f; t = open(p).read(); assert t.count(a) == 1, (s["id"], f, t.count(a), a)
                open(p, "w").write(t.replace(a, b))
            open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        finally: sh("git -C /repo checkout -- .")
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.rs", "w").write(s["demo"])
        deps = "".join((f'{x} = {{ path = "@REPO@/{x if x != "simple" else ""}" }}\n' if isinstance(x, str) else f'{x[0]} = {x[1]}\n') for x in s["deps"])
        open(d + "/manifest.toml", "w").write(f'[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n{deps}')
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        clean = sh(f"cd /repo && bash {d}/demo.sh")
        res = {"demo_clean": clean.returncode}
        if clean.returncode: print(clean.stdout[-1500:], clean.stderr[-1500:])
        try:
            sh(f"git -C /repo apply {d}/patch.diff")
            b = sh("bash /opt/vp/build.sh"); res["build"] = b.returncode
            if b.returncode: print(b.stdout[-1500:], b.stderr[-2500:])
            t = sh("bash /opt/vp/test.sh /tmp/seed-t.json")
            passed = set(json.load(open("/tmp/seed-t.json"))["passed"]); base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            res["broken_tests"] = sorted(base - passed)[:5]
            m = sh(f"cd /repo && bash {d}/demo.sh"); res["demo_bug"] = m.returncode; res["demo_out"] = (m.stdout + m.stderr)[-160:]
            c = sh(f"python3 {ROOT}/vf/run.py {s['property']}"); res["check"] = c.returncode; res["check_out"] = c.stdout[:300] if c.returncode != 2 else (c.stdout+c.stderr)[-1500:]
        finally: sh("git -C /repo checkout -- .")
        ok = res["demo_clean"] == 0 and res["build"] == 0 and not res["broken_tests"] and res["demo_bug"] not in (0, 3)
        print(("VALID " if ok else "INVALID ") + ("CAUGHT" if res["check"] == 1 else "MISSED"), s["id"], json.dumps(res), flush=True)
main()
