"""C13: online denoisers depend only on the past since reset and give valid beliefs."""
import numpy as np

from sim import link, rx
from sim.props import _rx
from inference import DUDE, EMLE, OnlineDude

RUNS = {"quick": 18000, "thorough": 400000}
RULE = ("one evaluation = one stream through one denoiser, cut into calls and resets by the plan, or one reception session of the denoising receiver; "
        "distinct = (denoiser, settings, contexts seen, observations since reset, size of the call)")
REAL = ["inference.dude (OnlineDude, DUDE)", "inference.entropy_mle (EMLE)", "decoders.classifying_DUDE_decoder", "inference.clustering"]
STUBS = ["noisy source (simulated)", "error-correcting decoder of the receiver: scripted stand-in", "oracle: own implementation of the three rules"]
ASSUMPTIONS = ["context length at least 1, invertible channel, soft beliefs for two symbols", "equal costs (within 1e-9) may be decided either way",
               "DUDE.denoise_sample is not claimed (it needs attributes nothing sets)"]
PROBES = ["online_hard", "online_soft", "batch", "emle", "receiver", "reset", "initial_context", "single_calls", "smoothed", "denoised_differs",
          "window_slid", "hard_input"]


def channel_matrix(rng, a):
    if a == 2:
        f = rng.choice([0.0, 0.01, 0.07, 0.2, 0.35, 0.45])
        g = f if rng.random() < 0.7 else rng.choice([0.02, 0.13, 0.3])
        return [[1 - f, f], [g, 1 - g]]
    m = [[rng.random() * 0.3 for _ in range(a)] for _ in range(a)]
    for i in range(a):
        m[i][i] = 2.0
        s = sum(m[i])
        m[i] = [x / s for x in m[i]]
    return m


def gen(rng, tier):
    what = rng.choice(["online", "online", "online", "batch", "emle", "emle", "rx"])
    if what == "rx":
        p = _rx.gen(rng, tier, ["DUDE"])
        p["what"] = "rx"
        return p
    if what == "emle":
        n = rng.choice([1, 5, 16, 40])
        soft = rng.random() < 0.6
        f = rng.choice([0.0, 0.02, 0.11, 0.3]) if soft else rng.choice([0.02, 0.11, 0.3])
        p = {"what": what, "n": n, "soft_input": soft, "f": f, "threshold": rng.choice([0.137, 0.561, 0.93, 1.1]), "window": rng.choice([0, 1, 2, 4, 8]),
             "center": rng.choice([0, 1, 3, 10, 40]), "slope": rng.choice([0.35, 1.0, 4.0]), "hard": rng.random() < 0.4, "steps": []}
        base = [rng.randrange(2) for _ in range(n)]
        free = [rng.random() < 0.3 for _ in range(n)]
        for _ in range(rng.randrange(1, 16)):
            if rng.random() < 0.1:
                p["steps"].append({"op": "reset"})
                continue
            rows = []
            for _ in range(rng.choice([1, 1, 2, 5])):
                b = [(rng.randrange(2) if free[j] else base[j]) ^ (rng.random() < f) for j in range(n)]
                rows.append([round((1 - 2 * x) * rng.choice([0.5, 1.5, 4.0, rng.random() + 0.01]), 4) for x in b] if soft else b)
            p["steps"].append({"op": "rows", "rows": rows, "seq": rng.random() < 0.6})
        return p
    a = 2 if rng.random() < 0.75 else rng.choice([3, 4])
    hard = a > 2 or rng.random() < 0.5
    loss = [[0 if i == j else 1 for j in range(a)] for i in range(a)]
    if rng.random() < 0.3:
        loss = [[0 if i == j else round(rng.uniform(0.2, 3), 2) for j in range(a)] for i in range(a)]
    p = {"what": what, "a": a, "pi": channel_matrix(rng, a), "loss": loss, "k": rng.choice([1, 1, 2, 3]), "hard": hard, "steps": []}
    state, n = rng.randrange(a), rng.choice([rng.randrange(1, 12), rng.randrange(10, 80), rng.randrange(60, 260)])
    stick = rng.choice([0.0, 0.5, 0.9, 1.0])
    flip = rng.choice([0.0, 0.1, 0.4])
    while n > 0:
        r = rng.random()
        if r < 0.05:
            p["steps"].append({"op": "reset"})
        elif r < 0.08 and what == "online":
            p["steps"].append({"op": "context", "c": [rng.randrange(a) for _ in range(p["k"])]})
        c = min(n, rng.choice([1, 1, 2, 7, 40, 120] if what == "online" else [1, 3, 9, 40, 120]))
        n -= c
        obs = []
        for _ in range(c):
            if rng.random() > stick:
                state = rng.randrange(a)
            obs.append(rng.randrange(a) if rng.random() < flip else state)
        p["steps"].append({"op": "obs", "o": obs, "single": rng.random() < 0.3})
    return p


# --------------------------------------------------------------- reference
class Ref:
    def __init__(self, p):
        self.k, self.a, self.hard = p["k"], p["a"], p["hard"]
        self.pi = np.array(p["pi"], dtype=float)
        self.loss = np.array(p["loss"], dtype=float)
        self.inv = np.linalg.inv(self.pi)
        self.reset()

    def reset(self):
        self.ctx = ()
        self.tab = {}

    def estimate(self, counts, x, ctx):
        """-> (hard: allowed symbols, soft: belief, cost)"""
        u = np.array([sum(counts[z] * self.inv[z, s] for z in range(self.a)) for s in range(self.a)])
        if self.hard:
            cost = [sum(u[s] * self.pi[s, x] * self.loss[s, e] for s in range(self.a)) for e in range(self.a)]
            m = min(cost)
            return [e for e in range(self.a) if cost[e] <= m + 1e-9 * (1 + sum(counts))], None, m
        if u[0] < 1:
            u[0] = 1.0
            ctx.probe("smoothed")
        elif u[1] < 1:
            u[1] = 1.0
            ctx.probe("smoothed")
        b = u * self.pi[:, x]
        b = b / b.sum()
        return None, b, float(sum(b[i] * b[j] * self.loss[i, j] for i in range(2) for j in range(2)))

    def push(self, x, ctx):
        if len(self.ctx) < self.k:
            self.ctx += (x,)
            return [x], np.eye(self.a)[x], 0.0
        c = self.tab.setdefault(self.ctx, [0] * self.a)
        c[x] += 1
        self.ctx = self.ctx[1:] + (x,)
        return self.estimate(c, x, ctx)


def judge(ctx, ref, i, got, cost, exp):
    allowed, belief, c = exp
    if ref.hard:
        ctx.check(int(got) in allowed, "estimate", lambda: f"observation {i}: estimate {got}, the rule gives {allowed}")
    else:
        g = np.asarray(got, dtype=float).reshape(-1)
        ctx.check(g.shape == (ref.a,) and np.all(np.isfinite(g)) and np.all(g >= -1e-12) and abs(g.sum() - 1) < 1e-9, "belief",
                  lambda: f"observation {i}: {g} is not a probability vector")
        ctx.check(np.all(np.abs(g - belief) < 1e-9), "estimate", lambda: f"observation {i}: belief {g}, the rule gives {belief}")
    if cost is not None:
        ctx.check(abs(float(cost) - c) < 1e-8 * (1 + abs(c)) + 1e-7 * (len(allowed) > 1 if allowed else 0), "cost",
                  lambda: f"observation {i}: cost {cost}, the rule gives {c}")


def run_online(plan, ctx):
    args = (np.array(plan["pi"]), np.array(plan["loss"]), plan["k"], plan["hard"], plan["a"])
    d = OnlineDude(*args)
    ref = Ref(plan)
    ctx.probe("online_hard" if plan["hard"] else "online_soft")
    since = 0
    t = 0
    for st in plan["steps"]:
        if st["op"] == "reset":
            ctx.call("reset", d.reset)
            ref.reset()
            since = 0
            ctx.probe("reset")
            ctx.fault("reset")
            continue
        if st["op"] == "context":
            ctx.call("initial_context", d.initial_context, tuple(st["c"]))
            ref.ctx = tuple(st["c"])
            ctx.probe("initial_context")
            continue
        o = np.array(st["o"], dtype=np.int64)
        if st["single"]:
            res = [ctx.call("denoise_sample", d.denoise_sample, int(x)) for x in o]
            est, cost = [r[0] for r in res], [r[1] for r in res]
            ctx.probe("single_calls")
        else:
            est, cost = ctx.call("denoise_sequence", d.denoise_sequence, o)
            ctx.check(len(est) == len(o) and len(cost) == len(o), "length", f"{len(est)} estimates for {len(o)} observations")
        for j, x in enumerate(st["o"]):
            judge(ctx, ref, t, est[j], cost[j], ref.push(x, ctx))
            if plan["hard"] and int(est[j]) != x:
                ctx.probe("denoised_differs")
            since += 1
            t += 1
        ctx.at(float(t))
        ctx.array("e", np.asarray([np.asarray(e, dtype=float).reshape(-1) for e in est]))
        ctx.state("online", plan["hard"], plan["k"], plan["a"], len(ref.tab), min(since, 60), len(o), st["single"])


def run_batch(plan, ctx):
    d = DUDE(np.array(plan["pi"]), np.array(plan["loss"]), plan["k"], plan["hard"], plan["a"])
    ctx.probe("batch")
    k = plan["k"]
    t = 0
    for st in plan["steps"]:
        if st["op"] != "obs":
            continue
        o = st["o"]
        n = len(o)
        est, cost = ctx.call("denoise_sequence", d.denoise_sequence, np.array(o, dtype=np.int64))
        ref = Ref(plan)
        tab = {}
        for i in range(k, n - k):
            tab.setdefault((tuple(o[i - k:i]), tuple(o[i + 1:i + k + 1])), [0] * plan["a"])[o[i]] += 1
        costs = []
        ctx.check(len(est) == n, "length", f"{len(est)} estimates for {n} observations")
        for i in range(n):
            if i < k or i >= n - k:
                e = ([o[i]], np.eye(plan["a"])[o[i]], 0.0)
            else:
                e = ref.estimate(tab[(tuple(o[i - k:i]), tuple(o[i + 1:i + k + 1]))], o[i], ctx)
            judge(ctx, ref, i, est[i], None, e)
            costs.append(e[2])
        ctx.check(abs(float(cost) - sum(costs) / n) < 1e-7 * (1 + n), "cost", lambda: f"mean cost {cost}, the rule gives {sum(costs) / n}")
        t += n
        ctx.at(float(t))
        ctx.array("e", np.asarray(est, dtype=float))
        ctx.state("batch", plan["hard"], k, plan["a"], len(tab), min(n, 60))


def run_emle(plan, ctx):
    d = EMLE(plan["f"], plan["threshold"], plan["window"], plan["center"], plan["slope"], plan["hard"], plan["soft_input"])
    ctx.probe("emle")
    if not plan["soft_input"]:
        ctx.probe("hard_input")
    f, thr = plan["f"], plan["threshold"]
    win = link.Win(plan["window"] or None, f, True)
    t = 0
    for st in plan["steps"]:
        if st["op"] == "reset":
            ctx.call("reset", d.reset)
            win = link.Win(plan["window"] or None, f, True)
            ctx.probe("reset")
            ctx.fault("reset")
            continue
        rows = np.array(st["rows"], dtype=float if plan["soft_input"] else np.int64)
        if st["seq"]:
            est, cost = ctx.call("denoise_sequence", d.denoise_sequence, rows.copy())
        else:
            res = [ctx.call("denoise_buffer", d.denoise_buffer, r.copy()) for r in rows]
            est, cost = [r[0] for r in res], [r[1] for r in res]
            ctx.probe("single_calls")
        for j, r in enumerate(rows):
            llr = r.astype(float) if plan["soft_input"] else np.where(r == 1, -1.0, 1.0) * np.log((1 - f) / f)
            hard = (llr < 0).astype(int) if plan["soft_input"] else r
            out = llr.copy()
            free = np.zeros(len(r), dtype=bool)
            if win.size > 1:
                p1 = win.p1()
                h = link.H2(p1)
                idx = np.flatnonzero(h < thr)
                free = link.near(h, thr)
                out[idx] += link.conf(win.size, plan["center"], plan["slope"]) * link.logodds(p1)[idx]
            win.add(hard)
            if win.window is not None and win.total > win.window:
                ctx.probe("window_slid")
            got = np.asarray(est[j], dtype=float)
            near0 = np.abs(out) < 1e-9
            if plan["hard"]:
                ctx.check(np.array_equal(got[~(free | near0)], (out < 0).astype(float)[~(free | near0)]), "estimate", lambda: f"buffer {t}: denoised bits differ")
            else:
                ctx.check(bool(np.all(np.isfinite(got))), "belief", lambda: f"buffer {t}: a log-likelihood is not finite")
                ok, why = link.same_word(got, out, free)
                ctx.check(ok, "estimate", lambda: f"buffer {t}: " + why)
            if not (free | near0).any():
                c = int(np.sum(np.abs(hard - (out < 0).astype(int))))
                ctx.check(int(cost[j]) == c, "cost", lambda: f"buffer {t}: cost {cost[j]}, {c} bits were changed")
                if c:
                    ctx.probe("denoised_differs")
            t += 1
            ctx.array("e", got)
        ctx.at(float(t))
        ctx.state("emle", plan["hard"], plan["soft_input"], min(win.size, 10), plan["window"], len(rows), st["seq"])


def execute(plan, ctx):
    w = plan["what"]
    if w == "online":
        run_online(plan, ctx)
    elif w == "batch":
        run_batch(plan, ctx)
    elif w == "emle":
        run_emle(plan, ctx)
    else:
        ctx.probe("receiver")
        _rx.execute(plan, ctx, {"word", "plain", "denoised", "passes", "finite"}, set())


def simplify(plan):
    if plan["what"] == "rx":
        yield from _rx.simplify(plan)
        return
    for i, s in enumerate(plan["steps"]):
        for key in ("o", "rows"):
            if key in s and len(s[key]) > 1:
                h = len(s[key]) // 2
                for part in (s[key][:h], s[key][h:], s[key][:-1]):
                    yield dict(plan, steps=plan["steps"][:i] + [dict(s, **{key: part})] + plan["steps"][i + 1:])
