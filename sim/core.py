"""Core of the deterministic simulator: seeds, run context, violations, shrinking.

A *run* is: seed -> plan (JSON: configuration + list of steps, every fault and
every scheduling decision written out) -> execution of the plan against the
real code of /repo.  Generation draws from one PRNG seeded by the run's seed;
execution draws nothing, so a plan file alone replays a run exactly.
"""
import hashlib
import json
import os
import random
import signal
import sys
import traceback
from collections import Counter


def run_seed(prop: str, base: int, index: int) -> int:
    h = hashlib.sha256(f"{prop}:{base}:{index}".encode()).digest()
    return int.from_bytes(h[:8], "big")


class Violation(Exception):
    """The property under check does not hold on this run."""

    def __init__(self, cls: str, msg: str):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


class SimCrash(BaseException):
    """The simulated process dies here (power loss, kill). Not an Exception: code under test must not see it."""


class Hang(BaseException):
    """A call into the code under test did not come back within its CPU budget."""


CALL_CPU_BUDGET_S = 60.0


def _on_alarm(signum, frame):
    raise Hang()


class Ctx:
    """Records what one run did and evaluates oracles."""

    def __init__(self, watchdog: bool = False):
        self.faults = Counter()
        self.probes = Counter()
        self.states = set()
        self.evals = 0
        self.sim_time = 0.0
        self.findings = Counter()
        self._h = hashlib.sha256()
        self.n_events = 0
        self.watchdog = watchdog
        self.trace = None  # list when a human-readable trace is wanted

    # -- recording -------------------------------------------------------
    def event(self, *what) -> None:
        self.n_events += 1
        b = repr(what).encode()
        self._h.update(len(b).to_bytes(4, "big"))
        self._h.update(b)
        if self.trace is not None:
            self.trace.append(repr(what)[:300])

    def array(self, tag, arr) -> None:
        self.n_events += 1
        self._h.update(tag.encode())
        self._h.update(str(arr.dtype).encode() + str(arr.shape).encode())
        self._h.update(arr.tobytes())

    def digest(self) -> str:
        return self._h.hexdigest()

    def fault(self, kind: str, n: int = 1) -> None:
        self.faults[kind] += n

    def probe(self, name: str, n: int = 1) -> None:
        self.probes[name] += n

    def state(self, *sig) -> None:
        self.states.add(hashlib.sha256(repr(sig).encode()).hexdigest()[:16])

    def at(self, t: float) -> None:
        if t > self.sim_time:
            self.sim_time = t

    def finding(self, key: str) -> None:
        """A recorded known finding showed up (see known_findings.json)."""
        self.findings[key] += 1

    # -- oracles ---------------------------------------------------------
    def check(self, cond, cls: str, msg) -> None:
        self.evals += 1
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg)

    def call(self, label: str, fn, *args, **kw):
        """Call into the code under test; an escaping exception or a hang is a violation."""
        try:
            if self.watchdog:
                signal.setitimer(signal.ITIMER_VIRTUAL, CALL_CPU_BUDGET_S)
            try:
                return fn(*args, **kw)
            finally:
                if self.watchdog:
                    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        except Violation:
            raise
        except Hang:
            raise Violation("hang", f"{label}: no answer within {CALL_CPU_BUDGET_S} s of CPU time") from None
        except (SimCrash, KeyboardInterrupt):
            raise
        except BaseException as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            root = os.environ.get("SIM_REPO", "/repo") + "/"
            where = next((f"{f.filename[len(root):]}:{f.name}" for f in reversed(tb) if f.filename.startswith(root)), "?")
            raise Violation(f"raised:{type(e).__name__}", f"{label}: {type(e).__name__}: {e} (in {where})") from e


def arm_watchdog():
    signal.signal(signal.SIGVTALRM, _on_alarm)


class Outcome:
    """Result of executing one plan."""

    def __init__(self, ctx: Ctx, violation=None):
        self.ctx = ctx
        self.violation = violation  # (cls, msg) or None


def execute(mod, plan: dict, trace: bool = False, watchdog: bool = True) -> Outcome:
    ctx = Ctx(watchdog)
    if trace:
        ctx.trace = []
    try:
        mod.execute(plan, ctx)
    except Violation as v:
        ctx.event("violation", v.cls)
        return Outcome(ctx, (v.cls, v.msg))
    except (TypeError, ValueError, IndexError, KeyError, AttributeError) as e:
        # an oracle could not interpret what the code under test returned (wrong shape, None, missing field): never seen on a sound tree
        tb = traceback.extract_tb(e.__traceback__)
        where = f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}"
        cls = f"malformed:{type(e).__name__}"
        ctx.event("violation", cls)
        return Outcome(ctx, (cls, f"result cannot be interpreted: {type(e).__name__}: {e} ({where})"))
    return Outcome(ctx)


class View:
    """A context that evaluates only the oracle classes a property owns (by prefix); the others are another property's business."""

    def __init__(self, ctx, own):
        self._c = ctx
        self._own = tuple(own)

    def __getattr__(self, a):
        return getattr(self._c, a)

    def check(self, cond, cls, msg):
        if cls.startswith(self._own):
            self._c.check(cond, cls, msg)


def generate(mod, seed: int, tier: str) -> dict:
    rng = random.Random(seed)
    plan = mod.gen(rng, tier)
    # plans must be pure JSON: what runs is what a replay file holds
    return json.loads(json.dumps(plan))


# ---------------------------------------------------------------- shrinking
def shrink(mod, plan: dict, still_fails, budget: int = 400, deadline=None):
    """Greedy minimisation: drop chunks of steps, then simplify, while still_fails(plan) says the same violation class persists."""
    import time
    used = 0

    def fails(p):
        nonlocal used
        used += 1
        return still_fails(json.loads(json.dumps(p)))

    def out_of_budget():
        return used >= budget or (deadline is not None and time.monotonic() > deadline)

    best = plan
    changed = True
    while changed and not out_of_budget():
        changed = False
        for key in getattr(mod, "LIST_KEYS", ["steps"]):
            n = len(best.get(key, []))
            size = max(1, n // 2)
            while size >= 1 and not out_of_budget():
                i = 0
                while i < len(best[key]) and not out_of_budget():
                    cand = dict(best)
                    cand[key] = best[key][:i] + best[key][i + size:]
                    if len(cand[key]) < len(best[key]) and fails(cand):
                        best = cand
                        changed = True
                    else:
                        i += size
                size //= 2
        simplify = getattr(mod, "simplify", None)
        if simplify:
            again = True
            while again and not out_of_budget():
                again = False
                for cand in simplify(best):
                    if out_of_budget():
                        break
                    if cand != best and fails(cand):
                        best = cand
                        again = changed = True
                        break
    return best, used

