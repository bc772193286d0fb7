"""Shared plan generation, execution and shrinking of the receiver properties."""
from sim import core, link, rx

REAL = ["decoders.* (the receiver under test, unmodified)", "inference.clustering.BufferClassifier", "inference.BufferSegmentation",
        "inference.BufferModel / FieldModel", "utils.information_theory", "protocol_meta, mavlink_utils.HC_dialect"]
STUBS = ["telemetry source, systematic encoder and soft channel (simulated)",
         "error-correcting decoder: scripted stand-in (correct / miscorrect / fail per pass, as the plan says); the real sim-ldpc Log-SPA decoder "
         "in the sessions marked 'real'", "oracle: own reference models in sim/link.py and own wire format in sim/wire.py"]
ASSUMPTIONS = ["systematic code with the information bits first, block length a multiple of 8, model no longer than the block",
               "clipping factor at least 1, entropy thresholds not hit exactly (bits within 1e-9 of a threshold are not compared)",
               "classifier training size at least 2; messages with array fields excluded from the layouts",
               "sampled histories, not exhaustive"]


def n_steps(rng, tier):
    r = rng.random()
    if r < 0.12:
        return rng.randrange(1, 5)
    if r < 0.92:
        return rng.randrange(5, 22)
    if r > 0.994:  # long enough for counters, caches and limits hidden in the code to show
        return rng.choice([130, 270, 270])
    return rng.randrange(22, 70 if tier == "quick" else 140)


def gen(rng, tier, kinds, real=0.0, hist=None, max_bytes=None, n_lays=None, over=None, steps=None):
    kind = rng.choice(kinds)
    lays, total = rx.make_layouts(rng, n_lays or rng.choice([1, 1, 2, 3]), max_bytes or rng.choice([20, 30, 44]))
    parity = rng.choice([16, 24, 32])
    ns = (steps or n_steps)(rng, tier)
    if ns > 100:
        lays, total = rx.make_layouts(rng, rng.choice([1, 2]), 20)
    cfg = link.rand_cfg(rng, kind, lays, total, parity, **(over(rng, kind) if over else {}))
    if ns > 40 and cfg["p"].get("window_length") and cfg["p"].get("estimator") in (None, "MLE") and rng.random() < 0.6:
        cfg["p"]["window_length"] = rng.choice([31, 33, 40, 64])
    r = kind != "CLS" and rng.random() < real
    st = rx.rand_history(rng, ns if not r else rng.randrange(2, 7), lays, total, parity, real=r, **(hist(rng) if hist else {}))
    return {"cfg": cfg, "steps": st}


def execute(plan, ctx, own, on, hook=None):
    v = core.View(ctx, tuple(own) + ("raised", "hang", "malformed"))
    return link.run_session(plan["cfg"], plan["steps"], v, on, hook)


def simplify(plan):
    for i, s in enumerate(plan["steps"]):
        for j in range(len(s["faults"])):
            t = dict(s, faults=s["faults"][:j] + s["faults"][j + 1:])
            yield dict(plan, steps=plan["steps"][:i] + [t] + plan["steps"][i + 1:])
        if s["jit"]:
            yield dict(plan, steps=plan["steps"][:i] + [dict(s, jit=0)] + plan["steps"][i + 1:])
    c = plan["cfg"]
    for k, v in (("debug", False), ("segmentation_iterations", 1), ("bit_flip", 0), ("window_length", None)):
        if c["p"].get(k, v) != v and not (k == "window_length" and (c["p"].get("estimator") == "Bayes" or c["p"].get("reliability_method") == 3)):
            yield dict(plan, cfg=dict(c, p=dict(c["p"], **{k: v})))
    if c["p"].get("n_clusters", 1) > 1 and "structs" not in c:
        yield dict(plan, cfg=dict(c, p=dict(c["p"], n_clusters=1)))
