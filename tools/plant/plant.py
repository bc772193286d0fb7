"""Make and confirm planted bugs: plant.py SPECFILE [ID ...].  A spec is a dict: id, prop, edits [(file, old, new)], needs, breaks, demo."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")
REPO = os.environ.get("PLANT_REPO", "/repo")
PY = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$d/demo.py"\n'


def sh(cmd, cwd=None, timeout=300):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def tests(cwd):
    want = json.load(open("/opt/vp/BASELINE.json"))
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov"], cwd=cwd)
    return r.returncode == 0, r.stdout[-600:], want


def one(b):
    W = f"/tmp/plant_work_{b['id']}"
    shutil.rmtree(W, ignore_errors=True)
    try:
        return _one(b, W)
    finally:
        shutil.rmtree(W, ignore_errors=True)


def _one(b, W):
    base = sh(["git", "diff", "-U0", "e928006", "HEAD", "--", "*.py"], cwd=REPO).stdout
    mine = {x[1:] for x in base.split("\n") if x.startswith("+") and not x.startswith("+++")}
    subprocess.run(["cp", "-a", REPO, W], check=True)
    for f, old, new in b["edits"]:
        p = os.path.join(W, f)
        s = open(p, newline="").read()
        if s.count(old) != 1:
            return False, f"{b['id']} BAD EDIT {f} matches {s.count(old)}"
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=W, capture_output=True, text=True).stdout
    removed = [x[1:] for x in diff.split("\n") if x.startswith("-") and not x.startswith("---")]
    touched_mine = [x for x in removed if x in mine and x.strip()]
    out = os.path.join(SEEDED, b["id"])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "demo.py"), "w").write("from kit import *\n" + b["demo"].lstrip("\n"))
    shutil.copy(os.path.join(HERE, "kit.py"), out)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    demo = os.path.join(out, "demo.sh")
    c0, c1 = sh([demo], cwd=REPO), sh([demo], cwd=W)
    t, tail, _ = tests(W)
    ok = c0.returncode == 0 and c1.returncode != 0 and t and bool(removed)
    msg = " ".join(map(str, [b["id"], "ok" if ok else "BAD", "clean", c0.returncode, "bug", c1.returncode, "tests", t,
                             "MINE" if touched_mine else "", "" if removed else "NOREMOVED",
                             c1.stdout.strip().split("\n")[-1][:100] or c1.stderr.strip().split("\n")[-1][:100]]))
    if not ok:
        msg += "\n" + c0.stdout[-300:] + c0.stderr[-600:] + ("" if t else tail)
        shutil.rmtree(out)
    return ok, msg


def main():
    spec = importlib.util.spec_from_file_location("specs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    only = set(sys.argv[2:])
    from concurrent.futures import ThreadPoolExecutor
    bad = 0
    with ThreadPoolExecutor(6) as ex:
        for ok, msg in ex.map(one, [b for b in m.BUGS if not only or b["id"] in only]):
            bad += not ok
            print(msg, flush=True)
    return bad


if __name__ == "__main__":
    sys.exit(1 if main() else 0)
