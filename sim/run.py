"""Command line of the simulator (see check.sh)."""
import contextlib
import importlib
import io
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import threading
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")


def load_mod(prop):
    with contextlib.redirect_stdout(io.StringIO()):
        return importlib.import_module(f"sim.props.{prop.lower()}")


def _init_worker(prop):
    from sim import core
    sys.stdout = open(os.devnull, "w")
    core.arm_watchdog()


def _batch(args):
    """Execute a contiguous batch of runs in a worker; returns merged statistics and the first violation."""
    prop, base, lo, hi, tier, want_digests = args
    from sim import core
    mod = load_mod(prop)
    agg = {"runs": 0, "evals": 0, "events": 0, "sim_time": 0.0, "faults": Counter(), "probes": Counter(),
           "states": set(), "findings": Counter(), "violation": None, "digests": [], "sample": None}
    for i in range(lo, hi):
        seed = core.run_seed(prop, base, i)
        try:
            plan = core.generate(mod, seed, tier)
            o = core.execute(mod, plan)
        except BaseException as e:  # noqa: BLE001
            import traceback
            agg["error"] = f"run {i} seed {seed}: harness error {e!r}\n{traceback.format_exc()}"
            return agg
        c = o.ctx
        agg["runs"] += 1
        agg["evals"] += c.evals
        agg["events"] += c.n_events
        agg["sim_time"] += c.sim_time
        agg["faults"].update(c.faults)
        agg["probes"].update(c.probes)
        agg["states"] |= c.states
        agg["findings"].update(c.findings)
        if want_digests:
            agg["digests"].append((i, c.digest()))
        if agg["sample"] is None:
            agg["sample"] = {"run": i, "seed": seed, "plan": _abbrev(plan), "digest": c.digest()[:16]}
        if o.violation:
            agg["violation"] = {"run": i, "seed": seed, "cls": o.violation[0], "msg": o.violation[1][:4000],
                                "before": [core.run_seed(prop, base, j) for j in range(lo, i)]}
            return agg
    return agg


def _abbrev(x, n=1500):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + f"...({len(s)} chars)"


def known_for(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return [k for k in json.load(f)["known"] if k["property"] == prop]


def in_order(fn, jobs, workers, prop, stall=600.0):
    """Run fn(job) in forked copies of this process, a private pipe each, and yield the results in the order of the jobs (None: lost)."""
    live, done, nxt, want, more = {}, {}, 0, 0, True  # live: pipe -> [number, pid, data, deadline]
    try:
        while True:
            while more and len(live) < workers and nxt - want < 4 * workers:
                job = next(jobs, None)
                if job is None:
                    more = False
                    break
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(r)
                        _init_worker(prop)
                        data = pickle.dumps(fn(job))
                        with os.fdopen(w, "wb") as f:
                            f.write(data)
                        code = 0
                    except BaseException:  # noqa: BLE001
                        import traceback
                        traceback.print_exc()
                    finally:
                        os._exit(code)
                os.close(w)
                live[r] = [nxt, pid, bytearray(), time.monotonic() + stall]
                nxt += 1
            while want in done:
                res = done.pop(want)
                want += 1
                yield res
            if not live and not more and want == nxt:
                return
            if not live:
                continue
            for r in select.select(list(live), [], [], 5.0)[0]:
                b = os.read(r, 1 << 20)
                if b:
                    live[r][2].extend(b)
                    continue
                n, pid, data, _ = live.pop(r)
                os.close(r)
                ok = os.waitpid(pid, 0)[1] == 0
                done[n] = pickle.loads(bytes(data)) if ok else None
            for r in [r for r, v in live.items() if time.monotonic() > v[3]]:
                n, pid, _, _ = live.pop(r)
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                done[n] = None
    finally:
        for r, (_, pid, _, _) in live.items():
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)


def run_check(prop, tier):
    t0 = time.monotonic()
    base = int(os.environ.get("VERIF_SEED", "1"))
    mod = load_mod(prop)
    workers = int(os.environ.get("SIM_WORKERS", str(min(8, os.cpu_count() or 1))))
    runs = mod.RUNS[tier]
    scale = float(os.environ.get("SIM_SCALE", "1"))
    runs = max(8, int(runs * scale))
    batch = max(1, min(getattr(mod, "BATCH", 25), runs // (workers * 4) or 1))
    # no batch is launched after the wall budget; quick does all of its runs well before it unless the machine is several times slower
    budget = float(os.environ.get("SIM_BUDGET_S", "640")) if tier == "thorough" else 600.0
    print(f"{prop} {tier}: VERIF_SEED={base} runs={runs} workers={workers}", flush=True)
    jobs = [(prop, base, lo, min(lo + batch, runs), tier, False) for lo in range(0, runs, batch)]
    tot = {"runs": 0, "evals": 0, "events": 0, "sim_time": 0.0, "faults": Counter(), "probes": Counter(),
           "states": set(), "findings": Counter(), "samples": []}
    violation = None
    error = None
    truncated = False

    def feed():
        for j in jobs:
            if time.monotonic() - t0 > budget:
                nonlocal truncated
                truncated = True
                return
            yield j

    # every batch runs in a fresh copy of this process, which never executes a run itself
    for a in in_order(_batch, feed(), workers, prop):
        if a is None:
            error = "a batch of runs was lost (worker ended or stalled)"
            break
        if "error" in a:
            error = a["error"]
            break
        for k in ("runs", "evals", "events", "sim_time"):
            tot[k] += a[k]
        for k in ("faults", "probes", "findings"):
            tot[k].update(a[k])
        tot["states"] |= a["states"]
        if a["sample"] and len(tot["samples"]) < 3:
            tot["samples"].append(a["sample"])
        if a["violation"]:
            violation = a["violation"]  # results come in order: the reported violation is that of the lowest run number
            break
    if error:
        print("ERROR in the check itself (not a violation):", error, file=sys.stderr)
        return 2
    replay = None
    if violation:
        replay = minimise_and_write(mod, prop, tier, violation)
    wall = time.monotonic() - t0
    known = known_for(prop)
    write_evidence(mod, prop, tier, base, tot, wall, violation, replay, truncated, workers, known)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(f"{prop} {tier}: {tot['runs']} runs, {tot['evals']} oracle evaluations, {tot['events']} events, "
          f"{len(tot['states'])} distinct states, faults={dict(sorted(tot['faults'].items()))}, {wall:.1f} s")
    zero = [p for p in getattr(mod, "PROBES", []) if tot["probes"].get(p, 0) == 0]
    if zero and not violation:
        print(f"note: probes never hit: {zero}")
    if violation:
        print(f"violation: {violation['cls']}: {violation['msg']} (run {violation['run']}, seed {violation['seed']})")
        print(f"VIOLATION property={prop} replay={replay}", flush=True)
        return 1
    return 0


def isolated(fn, timeout=300):
    """Run fn() in a forked copy of this process and return its (JSON) result; None if it did not come back."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            sys.stdout = open(os.devnull, "w")
            from sim import core
            core.arm_watchdog()
            data = json.dumps(fn()).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        except BaseException:  # noqa: BLE001
            pass
        finally:
            os._exit(code)
    os.close(w)
    t = threading.Timer(timeout, lambda: os.kill(pid, signal.SIGKILL))
    t.daemon = True
    t.start()
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
    finally:
        t.cancel()
    try:
        return json.loads(data)
    except ValueError:
        return None


def exec_after(mod, before, tier, plan, trace=False):
    """Execute a plan after the runs of the given seeds in the same process."""
    from sim import core
    for s in before:
        core.execute(mod, core.generate(mod, s, tier))
    o = core.execute(mod, plan, trace=trace)
    return {"violation": list(o.violation) if o.violation else None, "digest": o.ctx.digest(), "faults": dict(o.ctx.faults),
            "trace": (o.ctx.trace or [])[-200:]}


def minimise_and_write(mod, prop, tier, v):
    from sim import core
    os.makedirs(OUT, exist_ok=True)
    deadline = time.monotonic() + 60
    plan = core.generate(mod, v["seed"], tier)

    def fails(p, before):
        r = isolated(lambda: exec_after(mod, before, tier, p))
        return bool(r and r["violation"] and r["violation"][0] == v["cls"])

    before = []
    if not fails(plan, before):
        # depends on what ran earlier in the process: keep as little of that as possible
        before = v["before"]
        n = 1
        while n < len(before) and not fails(plan, before[-n:]):
            n *= 2
        before = before[-n:]
        i = 0
        while i < len(before) and time.monotonic() < deadline:
            if fails(plan, before[:i] + before[i + 1:]):
                before = before[:i] + before[i + 1:]
            else:
                i += 1
    plan, used = core.shrink(mod, plan, lambda p: fails(p, before), deadline=deadline)
    o = isolated(lambda: exec_after(mod, before, tier, plan, trace=True)) or {}
    path = os.path.join(OUT, f"replay-{prop}-{v['seed']}.json")
    rec = {"property": prop, "tier": tier, "seed": v["seed"], "run": v["run"], "violation": o.get("violation") or [v["cls"], v["msg"]],
           "digest": o.get("digest"), "shrink_executions": used, "faults": o.get("faults"), "before": before,
           "plan": plan, "trace": o.get("trace")}
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    env = dict(os.environ, SIM_HASHSEED="31337")
    r = subprocess.run(["bash", os.path.join(VERIF, "check.sh"), "--replay", path], env=env, capture_output=True, text=True,
                       timeout=300)
    print(f"replay in a fresh process: {'reproduced exactly' if r.returncode == 1 and 'REPRODUCED' in r.stdout else 'NOT reproduced: ' + r.stdout[-300:] + r.stderr[-300:]}")
    return path


def do_replay(path):
    from sim import core
    with open(path) as f:
        rec = json.load(f)
    mod = load_mod(rec["property"])
    core.arm_watchdog()
    so = sys.stdout
    with open(os.devnull, "w") as dn:
        sys.stdout = dn
        try:
            o = exec_after(mod, rec.get("before", []), rec.get("tier", "quick"), rec["plan"], trace=True)
        finally:
            sys.stdout = so
    if not o["violation"]:
        print("replay: no violation on this tree")
        return 0
    same = o["violation"] == rec["violation"] and o["digest"] == rec["digest"]
    print(f"replay: {o['violation'][0]}: {o['violation'][1]}")
    print("REPRODUCED exactly" if same else "DIFFERENT violation or history than recorded")
    print(f"VIOLATION property={rec['property']} replay={path}")
    return 1


def write_evidence(mod, prop, tier, base, tot, wall, violation, replay, truncated, workers, known):
    os.makedirs(EVID, exist_ok=True)
    rate = tot["runs"] / wall * 3600 if wall > 0 else 0
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": len(tot["states"]),
        "rule": mod.RULE,
        "samples": tot["samples"],
        "oracle_evaluations": tot["evals"],
        "events": tot["events"],
        "seeds_per_hour": round(rate),
        "simulated_time_s": round(tot["sim_time"], 3),
        "faults_fired": dict(sorted(tot["faults"].items())),
        "probes": {**{p: 0 for p in getattr(mod, "PROBES", [])}, **dict(sorted(tot["probes"].items()))},
        "real_code": mod.REAL,
        "stubs": mod.STUBS,
        "workers": workers,
        "stopped_at_wall_budget": truncated,
        "known_findings_hit": dict(tot["findings"]),
    }
    ev = {"property": prop, "tier": tier, "seed": base, "level": getattr(mod, "LEVEL", "exploration"), "coverage": cov,
          "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 2),
          "violations": 1 if violation else 0}
    if violation:
        ev["violation"] = {"class": violation["cls"], "message": violation["msg"], "seed": violation["seed"], "replay": replay}
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


def all_props():
    return sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "props"))
                  if f.startswith("c") and f.endswith(".py") and f[1:-3].isdigit())


def digests(prop, base, n, tier):
    """Print the digest of every run (used by the self-test in fresh interpreters)."""
    from sim import core
    core.arm_watchdog()
    so = sys.stdout
    with open(os.devnull, "w") as dn:
        sys.stdout = dn
        a = _batch((prop, base, 0, n, tier, True))
    sys.stdout = so
    if "error" in a:
        print(a["error"], file=sys.stderr)
        return 2
    for i, d in a["digests"]:
        print(i, d)
    return 0


def selftest(props, n=60, seeds=(1, 2, 7)):
    """Every run executed in several fresh interpreters under different hash seeds must leave the same event log."""
    bad = 0
    for prop in props or all_props():
        for s in seeds:
            procs = []
            for hs in ("0", "1", "4242"):
                env = dict(os.environ, SIM_HASHSEED=hs)
                procs.append(subprocess.Popen([os.path.join(VERIF, "check.sh"), "--digests", prop, str(s), str(n)], env=env,
                                              stdout=subprocess.PIPE, text=True))
            outs = [p.communicate()[0] for p in procs]
            ok = all(p.returncode == 0 for p in procs) and len(set(outs)) == 1 and len(outs[0].splitlines()) > 0
            print(prop, "seed", s, "runs", len(outs[0].splitlines()), "deterministic" if ok else "DIVERGED", flush=True)
            bad += not ok
    return 1 if bad else 0


def main(argv):
    if argv and argv[0] == "--replay":
        return do_replay(argv[1])
    if argv and argv[0] == "--digests":
        return digests(argv[1], int(argv[2]), int(argv[3]), "quick")
    if argv and argv[0] == "--selftest":
        return selftest(argv[1:])
    if len(argv) == 2 and argv[1] in ("quick", "thorough"):
        return run_check(argv[0], argv[1])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
