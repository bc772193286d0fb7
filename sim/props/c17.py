"""C17: iterative two-decoder exchange passes on only extrinsic information."""
import numpy as np

from sim import link, rx
from decoders.turbo import TurboDecoder

RUNS = {"quick": 12000, "thorough": 600000}
RULE = ("one evaluation = a sequence of received words through one iterative decoder; distinct = (rounds allowed, outcome of every stage in order, "
        "stage behaviour, debug)")
REAL = ["decoders.turbo.TurboDecoder", "in sessions marked 'real': decoders.entropy_bitwise_decoder (plain or weighted receiver) as first stage and the "
        "real sim-ldpc Log-SPA decoder as second stage"]
STUBS = ["both stages: scripted (soft output, success per call as planned; may work in place on the word they are given or reuse one output array)",
         "telemetry source and soft channel (simulated)"]
ASSUMPTIONS = ["at least one round configured"]
PROBES = ["stopped_at_first", "stopped_at_second", "all_rounds_failed", "success_in_later_round", "in_place_stage", "reused_output", "debug", "real_stages"]


def gen(rng, tier):
    n = rng.choice([1, 2, 8, 24, 64])
    rounds = rng.choice([1, 1, 2, 3, 5, 8])
    words = []
    big = rng.choice([[], [], [], [1e3], [1e5, 1e8]])  # strong signals
    p_ok = rng.choice([0.0, 0.1, 0.3])
    for _ in range(rng.randrange(1, 6)):
        words.append({"w": [round(rng.choice([-1, 1]) * rng.choice([0.0, 0.5, 2.0, 50.0, rng.random()] + big), 4) for _ in range(n)],
                      "outs": [[rng.randrange(1, 2**31), rng.random() < p_ok, rng.choice([0.5, 2.0, 30.0] + big)] for _ in range(2 * rounds)],
                      "err": sorted(rng.sample(range(n), min(n, rng.randrange(0, 4))))})
    plan = {"n": n, "rounds": rounds, "debug": rng.random() < 0.4, "style": rng.choice(["clean", "inplace", "reuse"]), "steps": words}
    if rng.random() < 0.06:
        lays, total = rx.make_layouts(rng, 1, 20)
        cfg = link.rand_cfg(rng, rng.choice(["BW", "WGT"]), lays, total, 16)
        plan = {"real": True, "rounds": rng.choice([1, 2, 3]), "debug": rng.random() < 0.5, "cfg": cfg, "steps": rx.rand_history(rng, rng.randrange(2, 7), lays, total, 16)}
    return plan


class Stage:
    def __init__(self, style):
        self.style = style
        self.calls = []
        self.buf = None

    def run(self, word, out):
        seed, ok, amp = out
        w = np.array(word, dtype=float)
        llr = np.random.RandomState(seed).normal(0, amp, size=w.shape) + w
        est = (llr < 0).astype(np.int64)
        self.calls.append((w, llr.copy(), est, ok))
        if self.style == "inplace" and isinstance(word, np.ndarray) and word.flags.writeable:
            word[:] = llr
            llr = word
        elif self.style == "reuse":
            if self.buf is None:
                self.buf = llr.copy()
            self.buf[:] = llr
            llr = self.buf
        return est, llr, ok, 1 + seed % 5, 0, 0


def execute(plan, ctx):
    if plan.get("real"):
        return real(plan, ctx)
    log = []
    script = []

    class A(Stage):
        def decode_buffer(self, word, *a):
            log.append(0)
            return self.run(word, script[len(log) - 1] if len(log) <= len(script) else [1, False, 1.0])

    class B(Stage):
        def decode(self, word, *a):
            log.append(1)
            return self.run(word, script[len(log) - 1] if len(log) <= len(script) else [1, False, 1.0])
    a, b = A(plan["style"]), B(plan["style"])
    t = TurboDecoder(a, b, plan["rounds"], plan["debug"])
    for i, st in enumerate(plan["steps"]):
        log.clear()
        a.calls.clear()
        b.calls.clear()
        script[:] = st["outs"]
        word = np.array(st["w"], dtype=float)
        given = word.copy()
        est, llr, ok, which, errors = ctx.call(f"word {i}", t.decode_buffer, word, np.array(st["err"], dtype=int))
        # reference
        exp, prior = [], np.zeros(len(given))
        done = None
        for r in range(2 * plan["rounds"]):
            inp = given + prior
            exp.append((r % 2, inp))
            c = (a if r % 2 == 0 else b).calls
            if len(c) <= r // 2:
                break
            out = c[r // 2]
            if out[3]:
                done = (r % 2, out)
                break
            prior = out[1] - inp
            done = (r % 2, out)
        ctx.check(log == [x for x, _ in exp], "order", lambda: f"word {i}: stages called {log}, expected {[x for x, _ in exp]}")
        scale = 1e-9 * (1 + max([float(np.max(np.abs(c[1]), initial=0)) for c in a.calls + b.calls] + [float(np.max(np.abs(given), initial=0))]))
        for r, (s, inp) in enumerate(exp):
            got = (a if s == 0 else b).calls[r // 2][0]
            ctx.check(got.shape == inp.shape and bool(np.all(np.abs(got - inp) <= scale * (1 + r))), "extrinsic",
                      lambda: f"word {i}, call {r + 1}: stage {s + 1} was not given the channel word plus the other stage's extrinsic information")
        s, out = done
        ctx.check(np.array_equal(np.asarray(est), out[2]), "bits", f"word {i}: returned bits are not those of the deciding stage")
        ctx.check(bool(np.all(np.abs(np.asarray(llr) - out[1]) <= scale)), "soft", f"word {i}: returned soft values are not those of the deciding stage")
        ctx.check(bool(ok) == out[3] and int(which) == s + 1, "verdict", f"word {i}: success={ok} by stage {which}, expected {out[3]} by stage {s + 1}")
        ctx.check(np.array_equal(word, given), "input", f"word {i}: the channel word was changed")
        if plan["debug"] and not out[3]:
            tx = (given < 0).astype(int)
            tx[np.array(st["err"], dtype=int)] ^= 1
            ctx.check(int(errors) == int(np.sum(tx != out[2])), "errors", f"word {i}: reported number of wrong bits is wrong")
        for x in log:
            ctx.fault("stage_failure", 0 if ok else 1)
        ctx.fault({"inplace": "in_place_stage", "reuse": "reused_output"}.get(plan["style"], "clean_stage"))
        ctx.probe("stopped_at_first" if ok and s == 0 else "stopped_at_second" if ok else "all_rounds_failed")
        if ok and len(log) > 2:
            ctx.probe("success_in_later_round")
        if plan["style"] == "inplace":
            ctx.probe("in_place_stage")
        if plan["style"] == "reuse":
            ctx.probe("reused_output")
        if plan["debug"]:
            ctx.probe("debug")
        ctx.at(float(i))
        ctx.event(i, tuple(log), bool(ok), int(which))
        ctx.array("llr", np.asarray(llr))
        ctx.state(plan["rounds"], tuple(log), bool(ok), plan["style"], plan["debug"])


def real(plan, ctx):
    """Real receiver and real decoder as stages; words observed at both."""
    rcv = link.Receiver(plan["cfg"])
    second = rx.SoftStub().setup(rcv.code)
    seen = []

    class A:
        def decode_buffer(self, w):
            seen.append([0, np.array(w)])
            out = rcv.obj.decode_buffer(w)
            seen[-1] += [np.array(out[0]), np.array(out[1]), bool(out[2])]
            return out

    class B:
        def decode(self, w):
            seen.append([1, np.array(w)])
            out = second.decode(w)
            seen[-1] += [np.array(out[0]), np.array(out[1]), bool(out[2])]
            return out
    t = TurboDecoder(A(), B(), plan["rounds"], plan["debug"])
    for i, st in enumerate(plan["steps"]):
        truth, soft = link.soft_of(rcv, st, ctx)
        seen.clear()
        mis = rx.mis_word(rcv.code, st["mis"])
        rcv.dec.arm(["real"], truth, mis)
        second.arm(["real"], truth, mis)
        est, llr, ok, which, _ = ctx.call(f"word {i}", t.decode_buffer, soft.copy(), np.flatnonzero((soft < 0).astype(int) != truth))
        prior = np.zeros(len(soft))
        for r, (s, w, e, l, g) in enumerate(seen):
            ctx.check(s == r % 2, "order", f"word {i}: stages out of order")
            scale = 1e-8 * (1 + float(np.max(np.abs(w))) + float(np.max(np.abs(soft))))
            ctx.check(bool(np.all(np.abs(w - soft - prior) <= scale)), "extrinsic", f"word {i}, call {r + 1}: wrong input to stage {s + 1}")
            ctx.check(g == (r == len(seen) - 1 and bool(ok)), "verdict", f"word {i}: the exchange went on after a success or stopped without one")
            prior = l - w
        ctx.check(np.array_equal(np.asarray(est), seen[-1][2]) and np.array_equal(np.asarray(llr), seen[-1][3]) and int(which) == seen[-1][0] + 1, "bits",
                  f"word {i}: the result is not that of the deciding stage")
        ctx.check(bool(ok) == (not (rcv.code.h @ np.asarray(est, dtype=np.int64) % 2).any()), "verdict", f"word {i}: success={ok} does not belong to the bits")
        ctx.check(ok or len(seen) == 2 * plan["rounds"], "order", f"word {i}: {len(seen)} stage calls")
        ctx.probe("real_stages")
        ctx.at(st["t"])
        ctx.event(i, len(seen), bool(ok), int(which))
        ctx.state("real", plan["rounds"], len(seen), bool(ok), plan["cfg"]["kind"])


def simplify(plan):
    if plan.get("real"):
        return
    if plan["rounds"] > 1:
        yield dict(plan, rounds=plan["rounds"] - 1)
    n = plan["n"]
    if n > 1:
        yield dict(plan, n=n // 2, steps=[dict(s, w=s["w"][:n // 2], err=[e for e in s["err"] if e < n // 2]) for s in plan["steps"]])
    for k, v in (("debug", False), ("style", "clean")):
        if plan[k] != v:
            yield dict(plan, **{k: v})
