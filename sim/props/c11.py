"""C11: a receiver restarted from its saved model continues exactly as before."""
import math

import numpy as np

from sim import core, disk, link, rx, wire
from sim.props import _model as M
from inference import BufferModel

RUNS = {"quick": 4800, "thorough": 300000}
RULE = ("one evaluation = one life of a model with restarts, compared step by step with the uninterrupted life; distinct = (number of restarts so "
        "far, fields known, samples held, kind of restart, next operation)")
REAL = M.REAL + ["decoders.MavlinkRectifyingDecoder / CombinedDecoder / CombinedUnifiedDecoder around the restored model"]
STUBS = M.STUBS + ["error-correcting decoder behind the receivers: scripted stand-in"]
ASSUMPTIONS = ["buffer descriptions as BufferSegmentation.get_msg_fields produces them (tuples come back as lists)", "messages with array fields excluded"]
PROBES = ["restart", "restart_after_crash", "restart_from_nothing", "save_refused", "resaved", "receiver_compared", "window_slid", "described", "many_restarts", "long_stretch"]


def gen(rng, tier):
    lays, total = rx.make_layouts(rng, rng.choice([1, 1, 2]), rng.choice([20, 30, 44]), wide64=rng.random() < 0.3)
    window = rng.choice([None, 1, 2, 3, 5, 8])
    steps = []
    for _ in range(rng.randrange(4, 26)):
        r = rng.random()
        if r < 0.62:
            steps.append(M.rand_learn(rng, lays))
        elif r < 0.86:
            steps.append({"op": "restart", "cycles": rng.choice([1, 1, 1, 2, 3])})
        elif r < 0.92:
            steps.append({"op": "crash", "at": rng.randrange(30), "kind": rng.choice(["crash", "power"]), "seed": rng.randrange(1, 2**31)})
        elif r < 0.95:
            steps.append({"op": "refused", "at": rng.randrange(12), "err": rng.choice(["ENOSPC", "EIO"])})
        else:
            steps.append({"op": "resave"})
    if rng.random() < 0.12:
        window = rng.choice([None, 20, 31, 40, 64])
        for _ in range(rng.choice([1, 1, 2])):
            steps.insert(rng.randrange(len(steps)), M.rand_many(rng, rng.choice(lays)))
    steps.append({"op": "restart", "cycles": 1})
    lay = rng.choice(lays)
    probes = []
    for _ in range(3):
        b = bytearray(lay.emit(rng))
        for _ in range(rng.choice([0, 0, 2, 6])):
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        probes.append(bytes(b).hex())
    st = [[i, m.id] for i, m in wire.segment(lay.emit(rng))]
    plan = {"window": window, "steps": steps, "probes": probes, "structure": st, "err": sorted(rng.sample(range(total * 8), 5)), "bufsize": rng.choice([256, 4096])}
    if rng.random() < 0.5:
        parity = 16
        cfg = link.rand_cfg(rng, rng.choice(["MAV", "MAV", "CMB", "UNI"]), lays[:1], total, parity, n_clusters=1, debug=False)
        cfg.pop("pretrain", None)
        cfg.pop("pretrain_window", None)
        cfg["structs"] = [[list(x) for x in st]]
        cfg["p"]["cluster"] = False
        plan["cfg"] = cfg
        plan["rx"] = rx.rand_history(rng, rng.randrange(1, 5), [lay], total, parity)
    return plan


def same(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-12 * (1 + np.abs(a)))))


def views(m, plan):
    """What the model says about the probe buffers and its fields."""
    out = {}
    s = {int(i): x for i, x in plan["structure"]}
    nb = len(plan["probes"][0]) // 2
    for n in m.fields_names():
        f = m[n]
        out["stat " + n] = [f.mean, f.std, f.model_size]
    for j, h in enumerate(plan["probes"]):
        b = bytes.fromhex(h)
        fields, bits, std = m.predict(b, s)
        out[f"bits {j}"] = bits
        out[f"std {j}"] = std
        out[f"fields {j}"] = [math.nan if x is None else x[1] for x in fields]
        out[f"names {j}"] = [None if x is None else x[0] for x in fields]
    out["mean bits"] = m.bitwise_model_mean(np.arange(nb * 8), nb, s)
    out["damaged"] = m.find_damaged_fields(np.array(plan["err"]), s, nb)
    return out


def equal_views(a, b):
    if a.keys() != b.keys():
        return sorted(a.keys() ^ b.keys())[0]
    for k in a:
        if k.startswith(("names", "damaged")):
            if a[k] != b[k]:
                return k
        elif not same(a[k], b[k]):
            return k
    return None


def execute(plan, ctx):
    d = disk.Disk(None, plan["bufsize"])
    d.on_fault = ctx.fault
    path = "/simdisk/m.json"
    model = M.fresh(plan["window"])
    twin = M.fresh(plan["window"])
    ops, saved_ops = [], None
    restarts = 0

    def compare(i, what):
        a, b = M.sig(model), M.sig(twin)
        if a != b:
            k = next(n for n, (x, y) in enumerate(zip(a, b)) if x != y)
            raise core.Violation("state", f"step {i} ({what}): restarted model differs from the uninterrupted one in "
                                 f"{['fields', 'window size', 'model size', 'description', 'field order'][k]}")
        k = equal_views(ctx.call("views", views, model, plan), views(twin, plan))
        ctx.check(k is None, "view", lambda: f"step {i} ({what}): restarted model answers differently from the uninterrupted one: {k}")

    with d:
        for i, st in enumerate(plan["steps"]):
            ctx.at(float(i))
            op = st["op"]
            if op in ("buffer", "many", "sample", "describe", "field"):
                ctx.call(f"step {i}", M.learn, model, st)
                M.learn(twin, st)
                ops.append(st)
                if op == "describe":
                    ctx.probe("described")
                if op == "many":
                    ctx.probe("long_stretch")
            elif op == "restart":
                for _ in range(st["cycles"]):
                    before = M.sig(model)
                    ctx.call("save", model.save, path)
                    ctx.check(M.sig(model) == before, "mutated", "saving changed the model in memory")
                    saved_ops = list(ops)
                    model = ctx.call("load", BufferModel.load, path)
                    restarts += 1
                    ctx.probe("restart")
                if restarts > 3:
                    ctx.probe("many_restarts")
            elif op == "resave":
                if saved_ops is not None:
                    m2 = ctx.call("load", BufferModel.load, path)
                    ctx.call("save", m2.save, "/simdisk/again.json")
                    m3 = ctx.call("load", BufferModel.load, "/simdisk/again.json")
                    ctx.check(M.sig(m2) == M.sig(m3), "resave", "saving a loaded model writes a different model")
                    ctx.probe("resaved")
            elif op == "refused":
                d.arm({str(st["at"]): ["err", st["err"]]})
                try:
                    model.save(path)
                    saved_ops = list(ops)
                except OSError:
                    ctx.probe("save_refused")
                    if saved_ops is not None and M.sig(_quiet_load(d, path, ctx)) == M.sig(model):
                        saved_ops = list(ops)
                d.arm({})
            else:  # crash during a save: the process is lost, a new one starts from the file
                d.arm({str(st["at"]): [st["kind"]]})
                full = M.sig(model)
                try:
                    model.save(path)
                    done = True
                except core.SimCrash:
                    done = False
                except OSError as e:
                    raise core.Violation("save", f"saving failed although the disk works: {e}") from e
                if d.dead:
                    done = False
                    if st["kind"] == "power":
                        d.power_cycle(st["seed"])
                    else:
                        d.revive()
                d.arm({})
                if done:
                    saved_ops = list(ops)
                else:
                    try:
                        model = ctx.call("load after crash", BufferModel.load, path) if path in d.dir else M.fresh(plan["window"])
                    except core.Violation as v:
                        raise core.Violation("load", v.msg) from v
                    s = M.sig(model)
                    if s == full:
                        saved_ops = list(ops)
                    elif path not in d.dir:
                        saved_ops = None
                        ctx.probe("restart_from_nothing")
                    # the uninterrupted life to compare with: the operations the restored model stands for
                    cand = [list(ops), list(saved_ops or [])] + [ops[:k] for k in range(len(ops), -1, -1)]
                    for c in cand:
                        twin = M.fresh(plan["window"])
                        for o in c:
                            M.learn(twin, o)
                        if M.sig(twin) == s:
                            ops = list(c)
                            saved_ops = list(c) if path in d.dir else None
                            break
                    else:
                        raise core.Violation("state", f"step {i}: after a crash the restored model corresponds to no moment of the history")
                    restarts += 1
                    ctx.probe("restart_after_crash")
            if any(len(model[n].samples) == plan["window"] for n in model.fields_names()):
                ctx.probe("window_slid")
            if op != "sample" or i % 4 == 0:
                compare(i, op)
            ctx.event(i, op, restarts, len(model), model.model_size)
            ctx.state(min(restarts, 6), len(model), min(model.model_size, 10), op, len(ops))
        if "cfg" in plan:
            words = []
            for m in (model, twin):
                words.append(_receive(plan, m, ctx))
            ctx.check(len(words[0]) == len(words[1]) and all(same(a, b) for a, b in zip(*words)), "receiver",
                      "a receiver around the restored model hands over other words than one around the original")
            ctx.probe("receiver_compared")


def _quiet_load(d, path, ctx):
    f, d.faults = d.faults, {}
    try:
        return ctx.call("load", BufferModel.load, path)
    finally:
        d.faults = f


def _receive(plan, model, ctx):
    cfg = dict(plan["cfg"])
    rcv = link.Receiver({**cfg, "p": dict(cfg["p"], data_model=model)})
    out = []
    for st in plan["rx"]:
        truth, soft = link.soft_of(rcv, st)
        rcv.dec.arm(st["out"], truth, rx.mis_word(rcv.code, st["mis"]))
        ctx.call("receive", rcv.call, rcv.word_of(soft), np.flatnonzero((soft < 0).astype(int) != truth))
        out += [q.word for q in rcv.dec.passes]
    return out


def simplify(plan):
    if "cfg" in plan:
        yield {k: v for k, v in plan.items() if k not in ("cfg", "rx")}
    for i, s in enumerate(plan["steps"]):
        if s.get("cycles", 1) > 1:
            yield dict(plan, steps=plan["steps"][:i] + [dict(s, cycles=1)] + plan["steps"][i + 1:])
