"""C04: a receiver's verdict always belongs to the bits it returns."""
from sim import link
from sim.props import _rx

RUNS = {"quick": 6400, "thorough": 200000}
RULE = ("one evaluation = one reception session (1-70 buffers) of one receiver; distinct = (receiver type, learned state class, outcomes of the "
        "passes of a buffer, model used) per buffer")
REAL, STUBS, ASSUMPTIONS = _rx.REAL, _rx.STUBS, _rx.ASSUMPTIONS
PROBES = ["plain", "corrected", "training", "admitted", "not_admitted", "channel_bits_learned", "second_pass_success", "second_pass_failure",
          "miscorrected", "real_decoder"]
simplify = _rx.simplify


def gen(rng, tier):
    def hist(r):
        return {"outcomes": r.choice([{"ok": 3, "fail": 3, "mis": 2}, {"ok": 2, "fail": 5, "mis": 2}, {"ok": 5, "fail": 3, "mis": 0}])}
    return _rx.gen(rng, tier, link.KINDS, real=0.04, hist=hist)


def execute(plan, ctx):
    def hook(rcv, ref, res, st):
        q = rcv.dec.passes
        if len(q) > 1:
            ctx.probe("second_pass_success" if q[-1].success else "second_pass_failure")
        if q[-1].outcome == "mis":
            ctx.probe("miscorrected")
        if q[-1].outcome == "real":
            ctx.probe("real_decoder")
    _rx.execute(plan, ctx, {"verdict"}, {"verdict"}, hook)
