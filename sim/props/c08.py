"""C08: field models learn every buffer once, under the right message structure."""
from sim import link
from sim.props import _rx

RUNS = {"quick": 8400, "thorough": 200000}
RULE = ("one evaluation = one reception session of one receiver with field models; distinct = (receiver type, learned state class, structures "
        "known, outcomes of the passes of a buffer, model used) per buffer")
REAL, STUBS, ASSUMPTIONS = _rx.REAL, _rx.STUBS, _rx.ASSUMPTIONS
PROBES = ["structure_learned", "empty_structure", "learned_decoded", "channel_bits_learned", "training", "fixed_model", "several_passes"]
simplify = _rx.simplify


def gen(rng, tier):
    def hist(r):
        return {"outcomes": r.choice([{"ok": 4, "fail": 4, "mis": 1}, {"ok": 2, "fail": 6, "mis": 1}, {"ok": 5, "fail": 2, "mis": 1}]),
                "fault_rate": r.choice([0.3, 0.7])}
    return _rx.gen(rng, tier, ["MAV", "MAV", "CMB", "UNI"], hist=hist)


def execute(plan, ctx):
    if "pretrain" in plan["cfg"]:
        ctx.probe("fixed_model")

    def hook(rcv, ref, res, st):
        if len(rcv.dec.passes) > 1:
            ctx.probe("several_passes")
        ref.check_model(ctx)
    _rx.execute(plan, ctx, {"fields"}, set(), hook)
