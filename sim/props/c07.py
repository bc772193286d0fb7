"""C07: bit-statistics correction follows the stated law and touches only stable bits."""
from sim import link
from sim.props import _rx

RUNS = {"quick": 10800, "thorough": 200000}
RULE = ("one evaluation = one reception session of one receiver using bit statistics; distinct = (receiver type, learned state class, outcomes of "
        "the passes of a buffer, model used) per buffer")
REAL, STUBS, ASSUMPTIONS = _rx.REAL, _rx.STUBS, _rx.ASSUMPTIONS
PROBES = ["plain", "corrected", "training", "fixed_model", "changed"]
simplify = _rx.simplify


def gen(rng, tier):
    def hist(r):
        return {"outcomes": r.choice([{"ok": 4, "fail": 4, "mis": 1}, {"ok": 2, "fail": 6, "mis": 1}, {"ok": 3, "fail": 7, "mis": 0}])}
    return _rx.gen(rng, tier, ["BW", "BW", "FLIP", "WGT", "WGT", "CLS", "CLS", "CLS", "CMB", "UNI"], hist=hist)


def execute(plan, ctx):
    if "model" in plan["cfg"]:
        ctx.probe("fixed_model")
    _rx.execute(plan, ctx, {"word", "plain"}, set())
