#!/usr/bin/env python3
"""seeds.py [ids...]: applies every planted bug to the repository (VERIF_REPO) in turn and runs the check of its property
(development only; no check reads seeded/).  ALL=1: all checks."""
import json, os, subprocess, sys, time
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seeded = os.environ.get("SEEDED", root + "/seeded")
ids = sys.argv[1:] or sorted(os.listdir(seeded))
repo = os.environ.get("VERIF_REPO", "/repo")
git = lambda *a: subprocess.run(["git", "-C", repo, *a], check=True)
for i in ids:
    prop = json.load(open(f"{seeded}/{i}/meta.json"))["property"]
    checks = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")] if os.environ.get("ALL") else [prop]
    git("apply", f"{seeded}/{i}/patch.diff")
    try:
        for c in checks:
            t = time.time()
            r = subprocess.run([sys.executable, root + "/check.py", c], capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            w = [l for l in r.stdout.splitlines() if l.startswith(c + ": ")]
            if len(checks) == 1 or r.returncode:
                print(f"{i} {c} rc={r.returncode} {len(v)} violations, {time.time() - t:.0f} s: {w[0][:180] if w else r.stderr[-300:]}", flush=True)
    finally:
        git("checkout", "-q", "--", ".")
