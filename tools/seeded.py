"""Run the check of each planted bug's property against a scratch copy of /repo with the bug applied.

usage: seeded.py [-a] [ids]   (-a: all checks, not only the one of the property)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(here + "/seeded"))
every = "-a" in sys.argv
checks = [c["property"] for c in json.load(open(here + "/MANIFEST.json"))["checks"]] if every else None
for b in ids:
    d = f"{here}/seeded/{b}"
    prop = json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="seeded-")
    try:
        subprocess.run(["cp", "-a", "/repo", tmp + "/repo"], check=True)
        shutil.rmtree(tmp + "/repo/pyoptmat/__pycache__", ignore_errors=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=tmp + "/repo", check=True)
        for p in checks or [prop]:
            t = time.time()
            r = subprocess.run([sys.executable, here + "/run.py", "check", p], env=dict(os.environ, VERIF_REPO=tmp + "/repo", VERIF_SEED="1"), capture_output=True, text=True)
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            what = [x for x in r.stdout.splitlines() if " violates " in x]
            print(b, p, "CAUGHT" if r.returncode == 1 and v else f"missed (exit {r.returncode})", f"{time.time() - t:.0f}s", (what or [""])[0].strip()[:150], flush=True)
            for x in v:
                f = x.split("replay=")[-1].strip()
                if f.startswith(here + "/replays"):
                    os.path.exists(f) and os.unlink(f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
