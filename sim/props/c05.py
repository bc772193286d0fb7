"""C05: a receiver without usable knowledge behaves exactly like plain decoding."""
from sim import link
from sim.props import _rx

RUNS = {"quick": 9600, "thorough": 200000}
RULE = ("one evaluation = one reception session of one receiver; distinct = (receiver type, learned state class, outcomes of the passes of a "
        "buffer, model used) per buffer")
REAL, STUBS, ASSUMPTIONS = _rx.REAL, _rx.STUBS, _rx.ASSUMPTIONS
PROBES = ["plain", "corrected", "training", "real_decoder"]
simplify = _rx.simplify


def gen(rng, tier):
    def over(r, kind):
        o = {}
        if r.random() < 0.35:
            o["min_data"] = r.choice([3, 5, 9])
        if r.random() < 0.3:
            o["classifier_training"] = o["classifier_training_size"] = r.choice([5, 9, 14])
        if r.random() < 0.25:
            o["entropy_threshold"] = r.choice([0.0, 0.121])
        if r.random() < 0.2:
            o["window_length"] = 1 if kind != "WGT" else 4
        return o

    def hist(r):
        return {"outcomes": r.choice([{"ok": 1, "fail": 6, "mis": 0}, {"ok": 3, "fail": 5, "mis": 1}, {"ok": 0, "fail": 1, "mis": 0}])}
    return _rx.gen(rng, tier, link.KINDS, real=0.03, hist=hist, over=over, steps=lambda r, t: r.choice([3, 6, 6, 10, 16, 24]))


def execute(plan, ctx):
    def hook(rcv, ref, res, st):
        if rcv.dec.passes[-1].outcome == "real":
            ctx.probe("real_decoder")
    _rx.execute(plan, ctx, {"plain", "verdict"}, {"verdict"}, hook)
