"""C19: Markov source follows its transition law at every step."""
import math
import random

import numpy as np

from sim import repo  # noqa: F401
from sim import rng as R
from utils.random_sources import generate_markov_samples

RUNS = {"quick": 20000, "thorough": 400000}
RULE = ("one evaluation = one generated sequence; distinct = (order, states, kind of table, length class, way the draws were controlled, set of transitions taken)")
REAL = ["utils.random_sources.generate_markov_samples"]
STUBS = ["random generator: seeded stream, or each draw decided by the plan (rare and extreme outcomes forced)", "oracle: the transition table itself"]
ASSUMPTIONS = ["sequences at least as long as the order", "frequency check: six standard deviations, seeded, so the verdict is repeatable"]
PROBES = ["deterministic_table", "zero_transitions", "forced_draws", "frequencies", "order_1", "order_2", "order_3", "int_initial_state", "array_initial_state", "many_states"]
_choice = np.random.choice


def gen(rng, tier):
    order = rng.choice([1, 1, 2, 2, 3])
    s = rng.choice([2, 2, 3, 4]) if order < 3 else 2
    kind = rng.choice(["deterministic", "zeros", "zeros", "mixed"])
    mode = rng.choice(["forced", "forced", "seeded"])
    n = rng.choice([order, order + 1, order + rng.randrange(1, 6), rng.randrange(10, 60), rng.randrange(50, 200)])
    n = max(n, order)
    if rng.random() < 0.04:
        kind, mode, n, s = "mixed", "seeded", 4000, 2
    rows = []
    for _ in range(s ** order):
        if kind == "deterministic":
            r = [0.0] * s
            r[rng.randrange(s)] = 1.0
        else:
            r = [0.0 if kind == "zeros" and rng.random() < 0.45 else rng.choice([0.01, 0.2, 1.0, rng.random() + 0.01]) for _ in range(s)]
            if not any(r):
                r[rng.randrange(s)] = 1.0
            t = sum(r)
            r = [x / t for x in r]
        rows.append(r)
    big = 0
    if rng.random() < 0.02:  # many states
        order, kind, mode, s = 1, rng.choice(["deterministic", "zeros"]), rng.choice(["forced", "seeded"]), rng.choice([17, 100, 129, 150, 257, 300])
        n, rows, big = rng.randrange(2, 400), [], rng.randrange(1, 2**31)
    init = [rng.randrange(s) for _ in range(order)]
    return {"big": big, "order": order, "s": s, "kind": kind, "rows": rows, "init": init, "form": rng.choice(["list", "tuple", "array"] + (["int", "int"] if order == 1 else [])),
            "n": n, "mode": mode, "seed": rng.randrange(1, 2**31), "draws": [rng.choice(["rare", "common", "first", "last", "any"]) for _ in range(16)]}


def table(plan):
    s = plan["s"]
    if not plan["big"]:
        return np.array(plan["rows"], dtype=float).reshape((s,) * (plan["order"] + 1))
    rng = random.Random(plan["big"])
    T = np.zeros((s, s))
    cycle = list(range(s))
    rng.shuffle(cycle)
    for a, b in zip(cycle, cycle[1:] + cycle[:1]):
        T[a, b] = 1.0 if plan["kind"] == "deterministic" else 0.5
        if plan["kind"] != "deterministic":
            T[a, rng.randrange(s)] += 0.5
    return T


def execute(plan, ctx):
    s, order, n = plan["s"], plan["order"], plan["n"]
    T = table(plan)
    form = plan["form"]
    init = plan["init"][0] if form == "int" else list(plan["init"]) if form == "list" else tuple(plan["init"]) if form == "tuple" else np.array(plan["init"])
    if form == "int":
        ctx.probe("int_initial_state")
    if form == "array":
        ctx.probe("array_initial_state")
    drawn = []

    def forced(a, size=None, replace=True, p=None):
        """One draw decided by the plan among the outcomes the given probabilities allow."""
        if size is not None or p is None:
            return _choice(a, size, replace, p)
        q = np.asarray(p, dtype=float)
        can = [i for i in range(len(q)) if q[i] > 0]
        d = plan["draws"][len(drawn) % len(plan["draws"])]
        i = min(can, key=lambda i: q[i]) if d == "rare" else max(can, key=lambda i: q[i]) if d == "common" else can[0] if d == "first" else can[-1]
        vals = [int(v) for v in a] if not isinstance(a, (int, np.integer)) else list(range(int(a)))
        law = [0.0] * s
        for v, x in zip(vals, q):
            if 0 <= v < s:
                law[v] += float(x)
        drawn.append(law)
        ctx.fault("forced_" + d)
        return vals[i]

    pat = R.Pattern([0.0 if d in ("first", "rare") else 1 - 1e-9 if d == "last" else 0.5 for d in plan["draws"]])  # uniform draws, for code that draws them itself
    U = ("random_sample", "random", "ranf", "sample", "rand", "uniform")

    def run():
        with R.seam(plan["seed"]):
            old = {u: getattr(np.random, u) for u in U}
            if plan["mode"] == "forced":
                np.random.choice = forced
                pat._i = 0
                for u in U:
                    setattr(np.random, u, getattr(pat, u if u in ("rand", "uniform") else "random_sample"))
            try:
                return np.asarray(ctx.call("generate", generate_markov_samples, T.copy(), init, n))
            finally:
                np.random.choice = _choice
                for u in U:
                    setattr(np.random, u, old[u])
    x = run()
    ctx.check(x.shape == (n,), "length", lambda: f"{x.shape} samples for {n}")
    seq = [int(v) for v in x]
    ctx.check(all(0 <= v < s for v in seq), "range", "a sample is not a state")
    ctx.check(seq[:order] == plan["init"], "start", lambda: f"starts with {seq[:order]}, initial states {plan['init']}")
    for i in range(order, n):
        p = T[tuple(seq[i - order:i])][seq[i]]
        ctx.check(p > 0, "impossible", lambda: f"sample {i}: state {seq[i]} follows {seq[i - order:i]}, a transition of probability zero")
    if plan["mode"] == "forced" and len(drawn) == n - order:
        ctx.probe("forced_draws")
        for i in range(order, n):
            q = T[tuple(seq[i - order:i])]
            ctx.check(np.allclose(drawn[i - order], q, atol=1e-12), "law", lambda: f"sample {i} drawn with {drawn[i - order]}, the table gives "
                      f"{q.tolist()} after {seq[i - order:i]}")
    drawn.clear()
    y = [int(v) for v in run()]
    ctx.check(y == seq, "repeat", "the same random draws gave another sequence")
    if n >= 2000:
        cnt = {}
        for i in range(order, n):
            cnt.setdefault(tuple(seq[i - order:i]), [0] * s)[seq[i]] += 1
        for c, row in cnt.items():
            m = sum(row)
            for v in range(s):
                p = float(T[c][v])
                ctx.check(abs(row[v] - m * p) <= 6 * math.sqrt(m * p * (1 - p)) + 3, "frequency",
                          lambda: f"after {c}: state {v} {row[v]} times in {m}, probability {p}")
        ctx.probe("frequencies")
        ctx.fault("long_run")
    ctx.probe(f"order_{order}")
    if s > 128:
        ctx.probe("many_states")
    if plan["kind"] == "deterministic":
        ctx.probe("deterministic_table")
    if plan["kind"] == "zeros":
        ctx.probe("zero_transitions")
    ctx.at(float(n))
    ctx.event(tuple(seq[:200]))
    ctx.state(order, s, plan["kind"], min(n, 40), plan["mode"], len({tuple(seq[i - order:i + 1]) for i in range(order, n)}))


def simplify(plan):
    if plan["n"] > plan["order"] + 1:
        yield dict(plan, n=max(plan["order"] + 1, plan["n"] // 2))
        yield dict(plan, n=plan["n"] - 1)
    if plan["form"] != "list":
        yield dict(plan, form="list")


LIST_KEYS = []
