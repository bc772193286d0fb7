"""C20: each log record of a run is written once, complete and to its own log."""
import io
import logging
import re
import sys
import time

from sim import core, disk
from utils.common_logging import setup_logger

RUNS = {"quick": 60000, "thorough": 500000}
RULE = ("one evaluation = one history of logger set-ups, records, crashes and restarts on a simulated disk; distinct = (loggers, files, set-ups so far of "
        "the logger, level relation, file shared, restarts so far) per record")
REAL = ["utils.common_logging.setup_logger", "Python's logging package and I/O layers"]
STUBS = ["disk: sim/disk.py", "console: in-memory streams", "clock: simulated, jumps in both directions"]
ASSUMPTIONS = ["logger names not in parent-child relation (Python's own propagation would then copy records)", "records are single lines"]
PROBES = ["set_up_again", "same_file_again", "new_file", "several_loggers", "shared_file", "crash", "restart", "below_level", "clock_jump", "old_content_kept"]
LINE = re.compile(r"^\S+ \S+ - (.*?) - ([A-Z]+) - (.*)$", re.S)
LV = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}


def gen(rng, tier):
    fam = rng.choice([["rx", "tx", "sim", "clustering", "ldpc"], ["run_a", "run_b", "run", "run_"], ["rx-1", "rx-2", "rx 1", "rx:1", "rx/1"],
                      ["sim.a", "sim.b", "simulation", "sim_a"], ["A", "a", "aa", "é"]])
    names = rng.sample(fam, rng.choice([1, 1, 2, 3]))
    files = [f"/simdisk/run{i}.log" for i in range(rng.choice([1, 2, 3]))]
    steps = [{"op": "setup", "name": names[0], "file": rng.randrange(len(files)), "level": "INFO"}]
    k = 0
    for _ in range(rng.randrange(2, 40)):
        r = rng.random()
        if r < 0.22:
            steps.append({"op": "setup", "name": rng.choice(names), "file": rng.randrange(len(files)), "level": rng.choice(["INFO", "INFO", "DEBUG", "WARNING"])})
        elif r < 0.9:
            k += 1
            msg = rng.choice([f"record {k}", f"ber {k} - 0.01 - x", f"{k}: " + "z" * rng.choice([1, 200, 3000, 3000, 9000, 70000]), f"é{k} ✓", f"{k}% of %s %(x)d", f"  {k}\tx  ", ""])
            steps.append({"op": "log", "name": rng.choice(names), "level": rng.choice(["INFO", "INFO", "DEBUG", "WARNING", "ERROR"]), "msg": msg, "old": rng.random() < 0.3})
        elif r < 0.95:
            steps.append({"op": "clock", "to": rng.choice([-86400, -1, 0, 3600, 10**8])})
        else:
            steps.append({"op": "crash", "files": sorted(rng.sample(range(len(files)), rng.randrange(len(files) + 1)))})
    return {"files": files, "names": names, "steps": steps, "bufsize": rng.choice([64, 8192])}


class Clock:
    def __init__(self):
        self.t = 1.6e9

    def __call__(self):
        self.t += 0.001
        return self.t


def execute(plan, ctx):
    d = disk.Disk(None, plan["bufsize"])
    d.on_fault = ctx.fault
    files, names = plan["files"], plan["names"]
    clock = Clock()
    real_time = time.time
    so, se = sys.stdout, sys.stderr
    con = io.StringIO()
    errs = io.StringIO()
    exp_console, exp = [], {f: [] for f in files}
    where, level, setups, handles = {}, {}, {}, {}
    restarts = 0
    root = logging.getLogger()
    root_handlers = list(root.handlers)

    def wipe():
        for n in names:
            lg = logging.Logger.manager.loggerDict.pop(n, None)
            if isinstance(lg, logging.Logger):
                for h in list(lg.handlers):
                    lg.removeHandler(h)
                    try:
                        h.close()
                    except Exception:  # noqa: BLE001
                        pass
        for h in list(root.handlers):
            if h not in root_handlers:
                root.removeHandler(h)
        logging._handlerList[:] = [r for r in logging._handlerList if r() is not None and not isinstance(r(), logging.FileHandler)]

    def read(f):
        n = d.dir.get(f)
        return b"" if n is None else bytes(n.data)

    def lines(text):
        """records as (name, level, message); every record ends its line"""
        out = []
        for part in text.split("\n")[:-1]:
            m = LINE.match(part)
            out.append((m.group(1), m.group(2), m.group(3)) if m else ("?", "?", part))
        return out, text == "" or text.endswith("\n")

    def verify(i, what):
        got, whole = lines(con.getvalue())
        ctx.check(whole and got == exp_console, "console", lambda: f"step {i} ({what}): the console shows {len(got)} records, {len(exp_console)} were logged: "
                  f"{diff(got, exp_console)}")
        ctx.check(errs.getvalue() == "", "console", lambda: f"step {i}: unexpected output on stderr: {errs.getvalue()[:200]}")
        for f in files:
            got, whole = lines(read(f).decode("utf-8", "replace"))
            ctx.check(whole and got == exp[f], "file", lambda: f"step {i} ({what}): {f} holds {len(got)} records, expected {len(exp[f])}: {diff(got, exp[f])}")

    def diff(a, b):
        for x, y in zip(a, b):
            if x != y:
                return f"{x} instead of {y}"
        return "missing " + str(b[len(a)]) if len(a) < len(b) else "extra " + str(a[len(b)])

    wipe()
    time.time = clock
    sys.stdout, sys.stderr = con, errs
    try:
        with d:
            for i, st in enumerate(plan["steps"]):
                op = st["op"]
                if op == "setup":
                    n, f = st["name"], files[st["file"]]
                    if n in where:
                        ctx.probe("set_up_again")
                        ctx.probe("same_file_again" if where[n] == f else "new_file")
                    lg = ctx.call(f"step {i} setup_logger", setup_logger, n, f, LV[st["level"]])
                    handles.setdefault(n, []).append(lg)
                    where[n], level[n] = f, LV[st["level"]]
                    setups[n] = setups.get(n, 0) + 1
                elif op == "log":
                    n = st["name"]
                    if n not in where:
                        continue
                    lg = handles[n][0 if st["old"] else -1]
                    ctx.call(f"step {i} log", lg.log, LV[st["level"]], st["msg"])
                    if LV[st["level"]] >= level[n]:
                        rec = (n, st["level"], st["msg"])
                        exp_console.append(rec)
                        exp[where[n]].append(rec)
                    else:
                        ctx.probe("below_level")
                    if len(where) > 1:
                        ctx.probe("several_loggers")
                    shared = sum(1 for x in where.values() if x == where[n]) > 1
                    if shared:
                        ctx.probe("shared_file")
                    ctx.state(len(where), len(set(where.values())), min(setups[n], 5), LV[st["level"]] >= level[n], shared, restarts)
                elif op == "clock":
                    clock.t += st["to"]
                    ctx.fault("clock_jump")
                    ctx.probe("clock_jump")
                else:  # the process dies without running any exit handler, a new one starts
                    verify(i, "before the crash")
                    d.dead = True
                    wipe()
                    d.revive()
                    ctx.fault("crash")
                    ctx.probe("crash")
                    restarts += 1
                    where, level, setups, handles = {}, {}, {}, {}
                    con.seek(0)
                    con.truncate()
                    exp_console = []
                    verify(i, "after the crash")
                    for k in st["files"]:
                        n = names[k % len(names)]
                        if exp[files[k]]:
                            ctx.probe("old_content_kept")
                        handles.setdefault(n, []).append(ctx.call(f"step {i} setup_logger", setup_logger, n, files[k], 20))
                        where[n], level[n] = files[k], 20
                        setups[n] = setups.get(n, 0) + 1
                        ctx.probe("restart")
                verify(i, op)
                ctx.event(i, op, len(exp_console))
                ctx.at(float(i))
    except core.SimCrash as e:
        raise RuntimeError("unplanned crash") from e
    finally:
        sys.stdout, sys.stderr = so, se
        time.time = real_time
        d.dead = True
        wipe()


def simplify(plan):
    for i, s in enumerate(plan["steps"]):
        if s["op"] == "log" and s["msg"] != "m":
            yield dict(plan, steps=plan["steps"][:i] + [dict(s, msg="m")] + plan["steps"][i + 1:])
