"""C09: field-based correction strengthens, weakens and forces exactly the right bits."""
from sim import link
from sim.props import _rx

RUNS = {"quick": 8320, "thorough": 200000}
RULE = ("one evaluation = one reception session of one receiver with field models; distinct = (receiver type, learned state class, structures "
        "known, outcomes of the passes of a buffer, model used) per buffer")
REAL, STUBS, ASSUMPTIONS = _rx.REAL, _rx.STUBS, _rx.ASSUMPTIONS + ["fields of 64 bits are kept out of the layouts (their spread is subject to rounding)"]
PROBES = ["structure_learned", "corrected", "changed", "training", "fixed_model", "good_bits", "bad_bits", "forced_bits", "segmented_received",
          "segmented_corrected"]
simplify = _rx.simplify


def gen(rng, tier):
    def hist(r):
        return {"outcomes": r.choice([{"ok": 6, "fail": 3, "mis": 0}, {"ok": 4, "fail": 4, "mis": 1}, {"ok": 9, "fail": 1, "mis": 0}]),
                "fault_rate": r.choice([0.4, 0.8]), "kinds": r.choice([None, ["flip", "bytes"], ["flip"]])}

    def over(r, kind):
        o = {}
        if r.random() < 0.5:
            o["conf_center"] = r.choice([0, 1, 3])
            o["conf_slope"] = r.choice([1.0, 3.0])
        return o
    return _rx.gen(rng, tier, ["MAV", "MAV", "CMB", "UNI", "UNI"], hist=hist, over=over)


def execute(plan, ctx):
    if "pretrain" in plan["cfg"]:
        ctx.probe("fixed_model")
    _rx.execute(plan, ctx, {"word", "plain"}, set())
