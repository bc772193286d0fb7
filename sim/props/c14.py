"""C14: mixture fitting never loses likelihood and always ends in a valid mixture."""
import numpy as np
from scipy.special import logsumexp

from sim import repo  # noqa: F401
from sim import rng as R
from inference import BMM

RUNS = {"quick": 9000, "thorough": 300000}
RULE = ("one evaluation = one mixture fitted from one random draw with every iteration limit up to the plan's; distinct = (rows, columns, components, "
        "kind of draw, special columns, iterations until the likelihood stands still)")
REAL = ["inference.bmm.BMM (fit, predict, score)"]
STUBS = ["random generator: seeded stream or adversarial pattern (sim/rng.py)", "data source (simulated)", "oracle: own mixture likelihood and posterior"]
ASSUMPTIONS = ["samples whose likelihood is below exp(-300) under every component are not used to judge labels (the code floors probabilities)"]
PROBES = ["monotone_checked", "converged", "component_lost_all_samples", "constant_columns", "zero_columns", "single_column", "more_components_than_rows", "pattern_draw",
          "equal_draws"]


def gen(rng, tier):
    n = rng.choice([1, 2, 3, 6, 12, 25, 40])
    d = rng.choice([1, 2, 3, 5, 8, 16, 40])
    k = rng.choice([1, 2, 2, 3, 4, 6])
    src = rng.randrange(1, 4)
    cent = [[rng.choice([0.02, 0.5, 0.98, rng.random()]) for _ in range(d)] for _ in range(src)]
    x = [[int(rng.random() < c) for c in cent[rng.randrange(src)]] for _ in range(n)]
    special = []
    for j in range(d):
        r = rng.random()
        if r < 0.15:
            special.append(["zero", j])
        elif r < 0.25:
            special.append(["one", j])
        elif r < 0.35 and j:
            special.append(["dup", j])
    if rng.random() < 0.07:
        special = [["zero", j] for j in range(d)]
    if rng.random() < 0.2:
        x = [list(x[rng.randrange(max(1, n // 3))]) for _ in range(n)]
    r = rng.random()
    pattern = None if r < 0.6 else [0.0] if r < 0.68 else [1.0] if r < 0.74 else [0.0, 1.0] if r < 0.8 else [round(rng.random(), 4) for _ in range(rng.choice([1, 2, d, d * k]))]
    wide = None
    if rng.random() < 0.05:  # so many columns that a component can lose every sample
        wide = [rng.choice([2001, 2601, 3201]), rng.randrange(1, 2**31), rng.choice([0.0, 0.05, 0.3])]
        x, special, k, n = [[0]] * rng.randrange(1, 4), [], rng.choice([2, 2, 3]), 2
        pattern = rng.choice([[0.0, 1.0], [0.0, 1.0], [1.0, 0.0], None])
    if wide is None and rng.random() < 0.15:
        x2 = [[rng.randrange(2) for _ in range(d)] for _ in range(4)]
    else:
        x2 = None
    return {"x": x, "special": special, "k": k, "iters": rng.choice([1, 2, 4, 8, 8, 20, 40]), "seed": rng.randrange(1, 2**31), "pattern": pattern, "x2": x2,
            "float": rng.random() < 0.3, "wide": wide}


def loglik(mu, pi, x):
    """per sample and component log of weight times probability, exact (may be -inf)"""
    with np.errstate(all="ignore"):
        lm, l1 = np.log(mu), np.log(1 - mu)
    out = np.zeros((len(x), len(pi)))
    for i, r in enumerate(x):
        for c in range(len(pi)):
            v = np.where(r == 1, lm[c], l1[c])
            out[i, c] = np.sum(v) + (np.log(pi[c]) if pi[c] > 0 else -np.inf)
    return out


def fit(plan, x, iters, ctx):
    with R.seam(plan["seed"], plan["pattern"]):
        m = BMM(plan["k"], iters)
        own = x.copy()
        ctx.call(f"fit with {iters} iterations", m.fit, own)
    if iters and np.any(np.asarray(m.gamma).sum(axis=0) == 0) if hasattr(m, "gamma") else False:
        ctx.probe("component_lost_all_samples")
    return m, own


def execute(plan, ctx):
    x = np.array(plan["x"], dtype=float if plan["float"] else np.int64)
    if plan["wide"]:
        w, seed, drop = plan["wide"]
        r = np.random.RandomState(seed)
        x = np.array([[int(j % 2 == 0 and r.uniform() >= drop) for j in range(w)] for _ in x], dtype=x.dtype)
        ctx.fault("wide_rows")
    for kind, j in plan["special"]:
        x[:, j] = 0 if kind == "zero" else 1 if kind == "one" else x[:, j - 1]
    ctx.fault("pattern_draw" if plan["pattern"] else "random_draw")
    if plan["pattern"]:
        ctx.probe("pattern_draw")
        if len(set(plan["pattern"])) == 1:
            ctx.probe("equal_draws")
    if any(s[0] == "zero" for s in plan["special"]):
        ctx.probe("zero_columns")
    if any(s[0] != "dup" for s in plan["special"]):
        ctx.probe("constant_columns")
    if x.shape[1] == 1:
        ctx.probe("single_column")
    if plan["k"] > len(x):
        ctx.probe("more_components_than_rows")
    prev, prev_true = None, None
    still = None
    n = plan["iters"]
    todo = sorted(set(range(0, min(n, 6))) | {n - 1, n} | ({n // 2, n // 2 + 1} if n > 6 else set()))
    last_it = None
    for it in todo:
        if it < 0:
            continue
        m, fitted = fit(plan, x, it, ctx)
        mu, pi = np.asarray(m.mu, dtype=float), np.asarray(m.pi, dtype=float)
        ctx.check(mu.shape == (plan["k"], x.shape[1]) and pi.shape == (plan["k"],), "shape", "parameters of the wrong shape")
        ctx.check(bool(np.all(np.isfinite(mu)) and np.all(np.isfinite(pi))), "finite", lambda: f"after {it} iterations a parameter is not finite")
        ctx.check(bool(np.all(pi >= 0)) and abs(pi.sum() - 1) < 1e-9, "weights", lambda: f"after {it} iterations weights {pi}")
        ctx.check(bool(np.all(mu >= -1e-12) and np.all(mu <= 1 + 1e-12)), "probabilities", lambda: f"after {it} iterations bit probabilities outside 0..1")
        s = float(ctx.call("score", m.score, x))
        ctx.check(np.isfinite(s), "finite", lambda: f"after {it} iterations the likelihood of the data is {s}")
        ll = loglik(np.clip(mu, 0, 1), pi, x)
        per = logsumexp(ll, axis=1) if ll.size else np.zeros(0)
        true = float(np.mean(per))
        if np.isfinite(true) and true > -300:
            ctx.check(abs(true - s) < 1e-6 * (1 + abs(true)), "score", lambda: f"score {s}, the mixture gives {true}")
        if prev is not None:
            ctx.check(s >= prev - 1e-9 * (1 + abs(prev)), "monotone", lambda: f"the likelihood fell from {prev} ({last_it} iterations) to {s} ({it} iterations)")
            ctx.probe("monotone_checked")
            if it == last_it + 1 and abs(s - prev) < 1e-12 and still is None:
                still = it
                ctx.probe("converged")
        prev, last_it, pm = s, it, mu
        ctx.event(it, round(s, 9))
    # labels of the highest posterior
    for xx in [x, fitted] + ([np.array(plan["x2"], dtype=x.dtype)] if plan["x2"] else []):
        lab = np.asarray(ctx.call("predict", m.predict, xx))
        ll = loglik(np.clip(mu, 0, 1), pi, xx)
        floored = loglik(np.clip(mu, 1e-15, 1 - 1e-15), pi, xx)  # bits no component ever saw count as nearly impossible, which is the code's choice to make
        ctx.check(lab.shape == (len(xx),), "labels", "one label per sample expected")
        for i in range(len(xx)):
            best = float(np.max(ll[i]))
            if best > -300:
                ctx.check(0 <= lab[i] < plan["k"] and max(ll[i, lab[i]], floored[i, lab[i]]) >= best - 1e-6 * (1 + abs(best)), "labels",
                          lambda: f"sample {i} labelled {lab[i]}, posteriors {np.round(ll[i], 4).tolist()}")
    again, _ = fit(plan, x, n, ctx)
    ctx.check(np.array_equal(again.mu, m.mu) and np.array_equal(again.pi, m.pi), "repeat", "two fits from the same random draw differ")
    ctx.at(float(n))
    ctx.state(x.shape, plan["k"], bool(plan["pattern"]), len(plan["special"]) > 0, still)


def simplify(plan):
    x = plan["x"]
    if len(x) > 1:
        for i in range(len(x)):
            yield dict(plan, x=x[:i] + x[i + 1:])
    if plan["x2"]:
        yield dict(plan, x2=None)
    for i in range(len(plan["special"])):
        yield dict(plan, special=plan["special"][:i] + plan["special"][i + 1:])
    if plan["iters"] > 1:
        yield dict(plan, iters=plan["iters"] - 1)


LIST_KEYS = []
