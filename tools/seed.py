#!/usr/bin/env python3
"""Plant a bug: seed.py SPEC.py — SPEC defines id, property, subs=[(file, old, new)], demo (python source), needs, breaks.
Confirms in a scratch worktree that it builds, passes the stable tests, and that the demo tells both trees apart."""
import json, os, shutil, subprocess, sys, tempfile
ns = {}
src = sys.argv[1]
exec(open(src).read(), ns)
ids = ns["BUGS"]
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
for b in ids:
    d = f"/verif/seeded/{b['id']}"
    if os.path.exists(d) and "-f" not in sys.argv:
        continue
    wt = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/.", wt], check=True)
    try:
        for f, old, new in b["subs"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "NOT UNIQUE" if s.count(old) else "NOT FOUND", repr(old)[:80]); raise SystemExit(1)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=wt, capture_output=True, text=True).stdout
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write('#!/bin/bash\nHERE="$(cd "$(dirname "$0")" && pwd)"\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$HERE/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        env = {**os.environ, "PYTHONPATH": wt}
        good = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        bad = subprocess.run(["bash", d + "/demo.sh"], cwd=wt, capture_output=True, text=True)
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "--no-header", "-W", "ignore", "-p", "no:cacheprovider",
                            "--continue-on-collection-errors"], cwd=wt, capture_output=True, text=True,
                           env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg"})
        print("   tests:", t.stdout.strip().splitlines()[-1])
        print(b["id"], "demo clean:", good.returncode, "patched:", bad.returncode, (good.stderr[-300:] if good.returncode else ""), bad.stderr.strip().splitlines()[-1:] )
    finally:
        shutil.rmtree(wt)
