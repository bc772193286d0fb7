"""C15: no received word can bring a receiver down."""
import struct

import numpy as np

from sim import gen as G
from sim import link, rx, wire
from sim.props import _rx
from decoders.turbo import TurboDecoder
from inference import BufferModel, BufferSegmentation
from mavlink_utils import HC_dialect
from protocol_meta import dialect_meta as meta

RUNS = {"quick": 9000, "thorough": 400000}
RULE = ("one evaluation = one session of one receiver (or of segmentation and stream parser) under hostile receptions, ending with clean ones; "
        "distinct = (receiver type, decoder, kinds of damage in this buffer, outcomes of the passes, model in use, label)")
REAL = _rx.REAL + ["decoders.turbo.TurboDecoder", "mavlink_utils.HC_dialect.MAVLink (stream parser)"]
STUBS = _rx.STUBS
ASSUMPTIONS = ["received values finite, magnitude at most 1e100; word length fits the code", "systematic code with the information bits first",
               "settings in their documented ranges (window at least 1, classifier training size at least 2, bit flip rate below 1/2)",
               "stream parser in its error-tolerant mode",
               "a field received as not-a-number has no plausibility (the model marks it as it marks bits outside messages; receivers leave it alone)"]
PROBES = ["training", "hostile_structure", "wide64", "extreme", "debug", "clean_after_damage", "iterated", "bytes_session", "real_decoder", "model_session", "huge_field_learned"]


def simplify(plan):
    return _rx.simplify(plan) if "cfg" in plan else iter(())


PATTERNS = ["0000807f", "0000c07f", "000080ff", "0100807f", "ffffffffffffffff", "000000000000f07f", "0000000000000080", "ffff7f7f", "ffff7fff",
            "01000000", "00000080", "feff", "55555555", "fe"]


def hostile(rng, n, total):
    r = rng.random()
    if r < 0.2:
        return [["dead", rng.randrange(3)]]
    if r < 0.3:
        return [["spike", rng.randrange(n), rng.choice([-1, 1]) * rng.choice([1e100, 1e-300, 5e-324, 1e50])] for _ in range(rng.randrange(1, 4))]
    if r < 0.4:
        return [["saturate", rng.choice([1e100, 1e-300, 5e-324, 1e-3, 30.0])]]
    if r < 0.5:
        return [["erase", rng.randrange(n), rng.choice([8, 64, n])]]
    if r < 0.6:
        return [["stuck", 0, n, rng.randrange(2)]]
    if r < 0.9:
        return [["bytes", rng.randrange(total), rng.choice(PATTERNS) * rng.choice([1, 1, 2, 5])] for _ in range(rng.randrange(1, 5))]
    return [rx.rand_fault(rng, n, total, rx.CHANNEL_FAULTS) for _ in range(rng.randrange(1, 5))]


def gen(rng, tier):
    if rng.random() < 0.12:
        return gen_bytes(rng)
    if rng.random() < 0.1:
        return gen_model(rng)
    kind = rng.choice(link.KINDS)
    lays, total = rx.make_layouts(rng, rng.choice([1, 1, 2, 3]), rng.choice([20, 30, 44]), wide64=rng.random() < 0.4)
    parity = rng.choice([16, 24, 32])
    over = {}
    if rng.random() < 0.4:
        over.update(conf_slope=rng.choice([0.001, 0.35, 5.0, 50.0]), conf_center=rng.choice([0, 0.5, 40, 1000]), a_conf_slope=rng.choice([0.001, 50.0]),
                    b_conf_center=rng.choice([0, 1000]), clipping_factor=rng.choice([1, 1, 1e3, 1e6]), bit_flip=rng.choice([0, 1e-9, 0.3, 0.49]),
                    entropy_threshold=rng.choice([0, 1e-12, 0.5, 1, 1.5]), valid_factor=rng.choice([1.0, 50.0]), invalid_factor=rng.choice([0.0, -1.0, 1.0]),
                    valid_thr=rng.choice([0.0, 1.0, 0.05]), invalid_thr=rng.choice([0.0, 1.0, 0.05]))
    cfg = link.rand_cfg(rng, kind, lays, total, parity, **over)
    if "structs" in cfg and rng.random() < 0.3 or (kind in link.FIELD_KINDS and "pretrain" in cfg and rng.random() < 0.3):
        # structures (and hence fields) the model knows nothing about
        other, _ = rx.make_layouts(rng, 1, total)
        cfg["structs"] = [[[i, m.id] for i, m in wire.segment(other[0].emit(rng))] for _ in range(cfg["p"]["n_clusters"])]
        cfg["alien"] = True
    n = total * 8 + parity
    real = kind != "CLS" and rng.random() < 0.02
    steps = rx.rand_history(rng, rng.randrange(2, 7) if real else rng.randrange(2, 18), lays, total, parity, real=real, fault_rate=0.0)
    rate = rng.choice([0.3, 0.6, 1.0])
    burst = rng.random() < 0.3
    j = rng.randrange(len(steps))
    for i, s in enumerate(steps):
        if rng.random() < rate or (burst and i >= j):
            s["faults"] = hostile(rng, n, total)
        if rng.random() < 0.1:
            s["amp"] = rng.choice([1e100, 1e-300, 0.0, 1e10])
    for s in steps[-2:] if rng.random() < 0.6 else []:
        s["faults"] = []
        s["amp"] = 2.0
        s["out"] = ["ok"] * 3
        s["clean"] = True
    return {"cfg": cfg, "steps": steps, "turbo": rng.random() < 0.1 and kind in ("BW", "WGT")}


def gen_bytes(rng):
    steps = []
    msgs = G.scalar_msgs()
    for _ in range(rng.randrange(1, 8)):
        b = b""
        for _ in range(rng.randrange(0, 4)):
            m = rng.choice(msgs)
            r = rng.random()
            if r < 0.5:
                f = wire.frame(m, G.rand_payload(rng, m, raw=True), rng.randrange(256), rng.randrange(256), rng.randrange(256))
            elif r < 0.8:
                f = bytes([0xFE, rng.choice([m.size, 0, 255]), rng.randrange(256), 1, 1, m.id]) + bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, m.size])))
            else:
                f = bytes(rng.choice([0xFE, 0, 255, rng.randrange(256)]) for _ in range(rng.randrange(1, 40)))
            b += f
        for _ in range(rng.choice([0, 1, 4])):
            if b:
                k = rng.randrange(len(b))
                b = b[:k] + bytes([b[k] ^ (1 << rng.randrange(8))]) + b[k + 1:]
        steps.append({"hex": b.hex(), "t": 0.0})
    return {"bytes": True, "steps": steps}


def gen_model(rng):
    """A field model fed with whatever arrives, hostile values in one and the same field included."""
    lays, total = rx.make_layouts(rng, 1, rng.choice([20, 30, 44]), wide64=rng.random() < 0.4)
    first = lays[0].emit(rng)
    fields, at = [], 0
    for i, m in wire.segment(first):
        at = i + 6
        for _, t, _ in m.wire_fields:
            fields.append([at, wire.SIZES[t], t])
            at += wire.SIZES[t]
    steps = []
    target = rng.choice(fields) if fields else None
    for _ in range(rng.randrange(2, 12)):
        b = bytearray(lays[0].emit(rng))
        for f in ([target] if target and rng.random() < 0.6 else []) + [rng.choice(fields) for _ in range(rng.choice([0, 1, 3]) if fields else 0)]:
            p = bytes.fromhex(rng.choice(PATTERNS) if rng.random() < 0.6 else rng.choice(["ffff7f7f", "ffff7fff", "feff7f7f"])) * 8
            b[f[0]:f[0] + f[1]] = p[:f[1]]
        steps.append({"hex": bytes(b).hex(), "learn": rng.random() < 0.7, "as": rng.choice(["bytes", "bits"]), "t": 0.1})
    return {"model": True, "struct": [[i, m.id] for i, m in wire.segment(first)], "window": rng.choice([None, 1, 2, 5]), "steps": steps}


def model_session(plan, ctx):
    ctx.probe("model_session")
    mdl = BufferModel(window_size=plan["window"])
    st = {i: m for i, m in plan["struct"]}
    learned = 0
    for i, s in enumerate(plan["steps"]):
        ctx.at(s["t"])
        b = bytes.fromhex(s["hex"])
        x = b if s["as"] == "bytes" else np.unpackbits(np.frombuffer(b, dtype=np.uint8)).astype(np.int_)
        ctx.fault("hostile_fields")
        fields, p, std = ctx.call(f"predict {i}", mdl.predict, x, st)
        raw = [v for o, m in st.items() for v in tuple(b[o:o + 6]) + struct.unpack(wire.table()[m].fmt, b[o + 6:o + 6 + wire.table()[m].size])]
        vals = [float(f[1]) for f, v in zip(fields, raw) if f is not None and v == v]  # what is not a number has no plausibility
        ctx.check(all(np.isfinite(v) and -1e-12 <= v <= 1 + 1e-12 for v in vals), "published",
                  lambda: f"buffer {i}: a field is plausible with probability {[v for v in vals if not 0 <= v <= 1]}")
        q = np.asarray(p, dtype=float)
        ctx.check(bool(np.all(np.isnan(q) | (q >= -1e-12) & (q <= 1 + 1e-12))), "published", lambda: f"buffer {i}: bit probabilities outside 0..1")
        if s["learn"]:
            ctx.call(f"learn {i}", mdl.add_buffer, x, st)
            learned += 1
            if any(abs(m.mean) > 1e38 for m in mdl):
                ctx.probe("huge_field_learned")
        means = ctx.call(f"means {i}", mdl.bitwise_model_mean, np.arange(8 * len(b)), len(b), st)
        ctx.check(set(np.unique(means).tolist()) <= {0, 1}, "published", "mean bits are not bits")
        ctx.event("model", i, learned, [round(v, 9) for v in vals][:8])
        ctx.state("model", learned, len(vals), s["as"])


def bytes_session(plan, ctx):
    seg = BufferSegmentation(meta.protocol_parser)

    class Null:
        def write(self, b):
            return len(b)
    mav = HC_dialect.MAVLink(Null(), 1, 1)
    mav.robust_parsing = True
    ctx.probe("bytes_session")
    for i, st in enumerate(plan["steps"]):
        b = bytes.fromhex(st["hex"])
        parts, val, struct_ = ctx.call(f"segment {i}", seg.segment_buffer, b)
        ctx.check(len(parts) == len(b) and len(val) == 8 * len(b), "answer", "segmentation answered for another length")
        ctx.check(all(float(v) in (0.0, 1.0) for v in val), "published", "certainty outside 0..1")
        ctx.call(f"bad parts {i}", seg.bad_buffer_parts, b, parts)
        ctx.call(f"bad idx {i}", seg.bad_buffer_idx, b, parts)
        if struct_:
            ctx.call(f"fields {i}", seg.get_msg_fields, b)
        msgs = ctx.call(f"parse {i}", mav.parse_buffer, b)
        ctx.fault("hostile_bytes")
        ctx.event("bytes", i, sorted(struct_.items()), len(msgs or []))
        ctx.state("bytes", len(struct_), len(msgs or []), min(len(b) // 8, 9))


def prob_rows(ctx, i, name, d):
    d = np.asarray(d, dtype=float)
    if d.size:
        ctx.check(d.ndim == 2 and d.shape[1] == 2 and bool(np.all(np.isfinite(d))) and bool(np.all(d >= -1e-12)) and bool(np.all(d <= 1 + 1e-12)),
                  "published", lambda: f"buffer {i}: published statistics {name} are not probabilities")
        ctx.check(bool(np.all(np.abs(d.sum(axis=1) - 1) < 1e-9)), "published", lambda: f"buffer {i}: published statistics {name} do not sum to one")


def execute(plan, ctx):
    if plan.get("bytes"):
        return bytes_session(plan, ctx)
    if plan.get("model"):
        return model_session(plan, ctx)
    cfg = plan["cfg"]
    rcv = ctx.call("construct", link.Receiver, cfg)
    n = rcv.code.n
    if cfg.get("alien"):
        ctx.probe("hostile_structure")
    if cfg["p"].get("debug"):
        ctx.probe("debug")
    if any(t.endswith("64_t") for s in cfg.get("structs", []) for _, m in s for _, t, _ in wire.table()[m].wire_fields):
        ctx.probe("wide64")
    second = rx.SoftStub().setup(rcv.code) if plan["turbo"] else None
    turbo = TurboDecoder(rcv.obj, second, 2, bool(cfg["code"] % 2)) if second else None
    damaged = False
    for i, st in enumerate(plan["steps"]):
        truth, soft = link.soft_of(rcv, st, ctx)
        if not bool(np.all(np.isfinite(soft))):
            soft = np.nan_to_num(soft, posinf=1e100, neginf=-1e100)
        soft = np.clip(soft, -1e100, 1e100)
        word = rcv.word_of(soft)
        mis = rx.mis_word(rcv.code, st["mis"])
        rcv.dec.arm(st["out"] * 3, truth, mis)
        err = np.flatnonzero((soft < 0).astype(int) != truth)
        if turbo:
            second.arm(st["out"][1:] or st["out"], truth, mis)
            out = ctx.call(f"buffer {i}", turbo.decode_buffer, word.copy(), err)
            passes = rcv.dec.passes + second.passes
            est, success = out[0], out[2]
            label = None
        else:
            out = ctx.call(f"buffer {i}", rcv.call, word.copy(), err)
            passes = rcv.dec.passes
            r = rcv.parse(out)
            est, success, label = r.est, r.success, r.label
            prob_rows(ctx, i, "", r.dist if r.dist is not None else [])
            prob_rows(ctx, i, "(second model)", r.dist_b if r.dist_b is not None else [])
            for s in (r.struct, r.struct_b):
                if s is not None:
                    ctx.check(all(0 <= int(x) < n for x in s), "published", lambda: f"buffer {i}: published bit indices out of range")
            if r.denoised is not None:
                ctx.check(np.shape(r.denoised) == (n,) and set(np.unique(r.denoised)) <= {0, 1}, "published", lambda: f"buffer {i}: denoised bits are not bits")
            if r.nmsg is not None:
                ctx.check(int(r.nmsg) >= 0, "published", "negative message count")
        ctx.check(len(passes) > 0, "answer", lambda: f"buffer {i}: answered without decoding")
        for q in passes:
            ctx.array("w", q.word)
            ctx.check(bool(np.all(np.isfinite(np.asarray(q.word, dtype=float)))), "finite", lambda: f"buffer {i}: a value handed to the decoder is not finite")
            if q.priors is not None:
                ctx.check(bool(np.all(np.isfinite(q.priors))), "finite", lambda: f"buffer {i}: a reliability handed to the decoder is not finite")
        e = np.asarray(est)
        ctx.check(e.shape == (n,) and bool(np.all((e == 0) | (e == 1))), "answer", lambda: f"buffer {i}: the answer is not a word of {n} bits")
        if st.get("clean"):
            ctx.check(bool(success) and np.array_equal(e, truth), "recovery", lambda: f"buffer {i}: a clean buffer after the damage is not returned")
            if damaged:
                ctx.probe("clean_after_damage")
        damaged = damaged or bool(st["faults"])
        if label is not None and label < 0:
            ctx.probe("training")
        if len(passes) > 2:
            ctx.probe("iterated")
        if passes[-1].outcome == "real":
            ctx.probe("real_decoder")
        if st["amp"] > 1e9 or st["amp"] < 1e-9:
            ctx.probe("extreme")
            ctx.fault("extreme_amplitude")
        ctx.at(st["t"])
        ctx.event(i, None if label is None else int(label), [q.success for q in passes])
        ctx.state(cfg["kind"], cfg.get("dec"), tuple(sorted({f[0] for f in st["faults"]})), tuple(q.success for q in passes), label,
                  len(passes[-1].word[passes[-1].word != word]) > 0)
