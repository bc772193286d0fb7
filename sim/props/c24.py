"""C24: the report a field-correcting receiver attaches to a result describes this very buffer."""
import numpy as np

from sim import link
from sim.props import _rx

RUNS = {"quick": 8400, "thorough": 200000}
RULE = ("one evaluation = one reception session of the field-correcting receiver; distinct = (learned state class, structures known, outcomes of the "
        "passes, damaged fields, forced bits, report mode) per buffer")
REAL, STUBS, ASSUMPTIONS = _rx.REAL, _rx.STUBS, _rx.ASSUMPTIONS + ["the true error positions handed over in debug mode are those of the simulated channel",
                                                                    "fields of 64 bits are kept out of the layouts"]
PROBES = ["unknown_structure", "training", "fixed_model", "several_passes", "damaged", "undamaged", "forced", "forced_wrongly", "segmented", "debug"]
simplify = _rx.simplify


def gen(rng, tier):
    def hist(r):
        return {"outcomes": r.choice([{"ok": 6, "fail": 3, "mis": 0}, {"ok": 4, "fail": 4, "mis": 1}, {"ok": 1, "fail": 3, "mis": 1}]),
                "fault_rate": r.choice([0.4, 0.8]), "kinds": r.choice([None, ["flip", "bytes"], ["flip", "burst"]])}

    def over(r, kind):
        return {"debug": r.random() < 0.8}
    return _rx.gen(rng, tier, ["MAV"], hist=hist, over=over)


def counts(pred, actual, negative):
    pred, actual = set(pred), set(actual)
    fp = len(pred - actual)
    return [len(pred & actual), fp, negative - fp, len(actual - pred), len(actual), negative]


def execute(plan, ctx):
    if "pretrain" in plan["cfg"]:
        ctx.probe("fixed_model")
    debug = plan["cfg"]["p"]["debug"]

    def hook(rcv, ref, res, st):
        seg, good, bad, fields, forcing = res.diag
        truth, soft = link.soft_of(rcv, st)
        hard = (soft < 0).astype(int)
        err = [int(i) for i in np.flatnonzero(hard != truth)]
        d = ref.diag
        if len(rcv.dec.passes) > 1:
            ctx.probe("several_passes")
        if d is None:
            ctx.probe("unknown_structure")
            ctx.check(not np.any(seg) and len(good) == 0 and len(bad) == 0 and not fields and not forcing, "report:unknown",
                      "a report although the message structure of this buffer was not known")
            return
        if ref.diag_open:
            return
        ctx.check(np.array_equal(np.asarray(seg).astype(bool), d["seg"]), "report:segmented", "the bits reported as belonging to intact messages are not those")
        if d["seg"].any():
            ctx.probe("segmented")
        want_good = [i for i, f in enumerate(d["fields"]) if d["p"][f[2]] > d["gthr"]]
        want_bad = [i for i, f in enumerate(d["fields"]) if d["p"][f[2]] < d["ithr"]]
        ctx.check([int(i) for i in good] == want_good and [int(i) for i in bad] == want_bad, "report:fields",
                  lambda: f"plausible fields {list(good)}, implausible {list(bad)}; expected {want_good}, {want_bad}")
        if not debug:
            ctx.check(not fields and not forcing, "report:silent", "debug report without debug mode")
            return
        ctx.probe("debug")
        dam = sorted({i for e in err for i, f in enumerate(d["fields"]) if f[2] <= e < f[3]})
        n = len(d["fields"])
        if not dam:
            ctx.check(not fields, "report:undamaged", "a report on damaged fields although no field is damaged")
            ctx.probe("undamaged")
        else:
            ctx.probe("damaged")
            ctx.check(fields.get("n_fields_in_buffer") == n and fields.get("n_damaged_fields_in_buffer") == len(dam), "report:field_counts",
                      lambda: f"{fields.get('n_fields_in_buffer')} fields, {fields.get('n_damaged_fields_in_buffer')} damaged; the buffer has {n} and {len(dam)}")
            ok = [i for i in range(n) if i not in dam]
            for name, pred, act, neg in (("good", want_good, ok, len(dam)), ("bad", want_bad, dam, n - len(dam))):
                got = [int(x) for x in fields[name + "_fields_performance"]]
                ctx.check(got == counts(pred, act, neg), "report:field_confusion", lambda: f"{name} fields: {got}, the buffer gives {counts(pred, act, neg)}")
        forced = [int(i) for i in d["forced"]]
        flipped = [i for i in forced if d["mb"][i] != hard[i]]
        wrong = [i for i in forced if d["mb"][i] != truth[i]]
        if forced:
            ctx.probe("forced")
        if wrong:
            ctx.probe("forced_wrongly")
        neg = rcv.code.n - len(err)
        got = [int(x) for x in forcing["bits_confusion_matrix"]]
        ctx.check(got == counts(forced, err, neg), "report:forced", lambda: f"forced bits against errors: {got}, the buffer gives {counts(forced, err, neg)}")
        got = [int(x) for x in forcing["flipping_confusion_matrix"]]
        ctx.check(got == counts(flipped, err, neg), "report:flipped", lambda: f"flipped bits against errors: {got}, the buffer gives {counts(flipped, err, neg)}")
        c = counts(flipped, err, neg)
        q = [len(err), len(forced), len(flipped), c[0], c[1], len(wrong) / len(forced) if forced else 0.0]
        ctx.check(np.allclose(np.asarray(forcing["forcing_quality"], dtype=float), q, atol=1e-12), "report:quality",
                  lambda: f"forcing quality {list(forcing['forcing_quality'])}, the buffer gives {q}")
        ctx.state("report", len(dam), len(forced) // 8, len(wrong) // 8)
    _rx.execute(plan, ctx, {"report"}, set(), hook)
