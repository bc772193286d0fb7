"""C06: learned bit statistics are exactly the sliding window of admitted buffers."""
import numpy as np

from sim import link
from sim.props import _rx

RUNS = {"quick": 9600, "thorough": 200000}
RULE = ("one evaluation = one reception session of one learning receiver; distinct = (receiver type, number of buffers per model and cluster, "
        "outcomes of the passes of a buffer, model used) per buffer")
REAL, STUBS, ASSUMPTIONS = _rx.REAL, _rx.STUBS, _rx.ASSUMPTIONS
PROBES = ["admitted", "not_admitted", "channel_bits_learned", "learned_decoded", "window_slid", "training", "several_clusters", "corrected"]
simplify = _rx.simplify


def gen(rng, tier):
    def over(r, kind):
        o = {}
        if r.random() < 0.8:  # make every learned bit visible in the word handed over
            o["entropy_threshold"] = 1.1
        if r.random() < 0.8:
            o["clipping_factor"] = 100
        if r.random() < 0.6:
            o["conf_center"] = o["a_conf_center"] = r.choice([0, 1])
            o["conf_slope"] = o["a_conf_slope"] = 3.0
        if kind == "BW" or kind == "FLIP":
            o["min_data"] = r.choice([0, 1, 2])
        if r.random() < 0.5 and kind != "WGT":
            o["window_length"] = r.choice([2, 3, 4, 6])
        return o

    def hist(r):
        return {"outcomes": r.choice([{"ok": 4, "fail": 4, "mis": 1}, {"ok": 2, "fail": 5, "mis": 1}, {"ok": 3, "fail": 3, "mis": 2}])}
    return _rx.gen(rng, tier, ["BW", "FLIP", "WGT", "WGT", "CLS", "CLS", "CMB", "UNI"], hist=hist, over=over)


def execute(plan, ctx):
    def hook(rcv, ref, res, st):
        k = rcv.kind
        o = rcv.obj
        thr = ref.p["entropy_threshold"]
        if k in ("BW", "FLIP") and hasattr(o, "distribution") and hasattr(o, "entropy"):
            d = np.asarray(o.distribution, dtype=float)
            if ref.fixed is not None:
                ctx.check(d.shape == (ref.L, 2) and np.allclose(d[:, 1], ref.fixed[:ref.L], atol=1e-12), "stats:fixed", "the given model changed")
            else:
                link.published(ctx, "held", ref.win, d, np.flatnonzero(np.asarray(o.entropy) < thr), thr, True, ref.L)
        elif k in ("CMB", "UNI") and hasattr(o, "distributions") and hasattr(o, "models_entropy"):
            for c, w in enumerate(ref.win):
                link.published(ctx, f"of cluster {c}", w, o.distributions[c], np.flatnonzero(np.asarray(o.models_entropy[c]) < thr), thr, True, ref.L)
            if sum(1 for w in ref.win if w.size) > 1:
                ctx.probe("several_clusters")
        elif k == "CLS" and ref.fixed is None and hasattr(o, "distributions") and hasattr(o, "models_entropy"):
            for c, w in enumerate(ref.win):
                link.published(ctx, f"of cluster {c}", w, o.distributions[c], np.flatnonzero(np.asarray(o.models_entropy[c]) < thr), thr, True, ref.L)
            if sum(1 for w in ref.win if w.size) > 1:
                ctx.probe("several_clusters")
        for w in ([ref.a, ref.b] if k == "WGT" else ref.win if isinstance(ref.win, list) else [ref.win]):
            if w.window is not None and w.total > w.window:
                ctx.probe("window_slid")
    _rx.execute(plan, ctx, {"stats", "word"}, {"stats"}, hook)
