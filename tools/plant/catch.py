"""catch.py [ID ...]: run each planted bug's own check (quick tier) against a scratch copy with the patch applied; writes out/catch.json."""
import json
import os
import shutil
import subprocess
import sys
import time

V, REPO = os.environ.get("PLANT_VERIF", "/verif"), os.environ.get("PLANT_REPO", "/repo")
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
res_f = V + "/out/catch.json"
os.makedirs(V + "/out", exist_ok=True)
res = json.load(open(res_f)) if os.path.exists(res_f) else {}
for i in ids:
    meta = json.load(open(f"{V}/seeded/{i}/meta.json"))
    w = f"/tmp/catch_{i}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", REPO, w], check=True)
    subprocess.run(["git", "apply", f"{V}/seeded/{i}/patch.diff"], cwd=w, check=True)
    p = os.environ.get("PROP", meta["property"])
    t = time.time()
    env = dict(os.environ, SIM_REPO=w, VERIF_SEED="1", VERIF_TIER="quick")
    r = subprocess.run(["./check.sh", p, "quick"], cwd=V, env=env, capture_output=True, text=True)
    v = [x for x in r.stdout.split("\n") if x.startswith("VIOLATION")]
    ok = r.returncode == 1 and v and f"property={p}" in v[0]
    res.setdefault(i, {})[p] = "caught" if ok else f"missed rc={r.returncode}"
    print(i, p, res[i][p], f"{time.time() - t:.0f}s", (r.stdout.strip().split("\n") or [""])[-2:][0][:160], flush=True)
    if r.returncode not in (0, 1):
        print(r.stdout[-1500:], r.stderr[-1500:])
    shutil.rmtree(w, ignore_errors=True)
    json.dump(res, open(res_f, "w"), indent=1, sort_keys=True)
