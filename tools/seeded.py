"""seeded.py [ID...]: run the check of each planted bug against a patched copy of /repo."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIRS = [os.path.join(ROOT, d) for d in ("seeded", "seeded_more") if os.path.isdir(os.path.join(ROOT, d))]
ids = sys.argv[1:] or sorted(b for d in DIRS for b in os.listdir(d))
for bug in ids:
    d = next(p for p in (os.path.join(d, bug) for d in DIRS) if os.path.isdir(p))
    if not os.path.exists(os.path.join(d, "meta.json")):
        continue
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix="seeded-")
    try:
        shutil.copytree("/repo/subsetter", os.path.join(w, "subsetter"))
        r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory", w, os.path.join(d, "patch.diff")], cwd="/",
                           capture_output=True, text=True)
        if r.returncode:
            print(bug, prop, "DOES NOT APPLY", r.stderr[:200])
            continue
        c = subprocess.run([os.path.join(ROOT, "bin/check"), prop], env=dict(os.environ, SUBSETTER_REPO=w),
                           capture_output=True, text=True)
        print(bug, prop, "caught" if c.returncode == 1 else f"MISSED rc={c.returncode}",
              (c.stdout + c.stderr).splitlines()[0][:150], flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
