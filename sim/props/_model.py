"""Shared by C10 and C11: field models, their observable state and learning histories."""
from sim import repo  # noqa: F401
from sim import rx, wire
from inference import BufferModel, BufferSegmentation
from inference.statistical_models import FieldModel
from protocol_meta import dialect_meta as meta

REAL = ["inference.statistical_models (BufferModel, FieldModel: learning, save, load, predict)", "inference.BufferSegmentation (buffer descriptions)",
        "Python's text and buffered I/O layers, json"]
STUBS = ["disk: sim/disk.py (in-memory file system below the raw-file layer; volatile and durable state, crash, power loss, errors, short and "
         "torn writes, full disk)", "telemetry source (simulated)", "clock: none is read"]


def describe(buf):
    fields, desc = BufferSegmentation(meta.protocol_parser).get_msg_fields(buf)
    return desc


def norm_desc(d):
    return None if d is None else [["header", x.hex()] if isinstance(x, (bytes, bytearray)) else x if isinstance(x, str) else list(x) for x in d]


def sig(m):
    """Everything a user can read from a model, as plain data."""
    return (sorted((n, m[n].name, m[n].field_type, m[n].window_size, [float(x) for x in m[n].samples], m[n].field_len, m[n].signed, m[n].int_type)
                   for n in m.fields_names()),
            m.window_size, m.model_size, norm_desc(m.get_buffer_description()),
            None if m.ordered_field_names is None else list(m.ordered_field_names))


def structure(buf):
    return {i: m.id for i, m in wire.segment(buf)}


def learn(model, st):
    if st["op"] == "buffer":
        b = bytes.fromhex(st["hex"])
        s = {int(i): m for i, m in st["structure"]}
        model.add_buffer(rx.bits_of(b) if st.get("bits") else b, s)
    elif st["op"] == "many":
        s = {int(i): m for i, m in st["structure"]}
        for h in st["hexs"]:
            model.add_buffer(bytes.fromhex(h), s)
    elif st["op"] == "sample":
        model.add_sample(st["name"], st["value"], st["type"])
    elif st["op"] == "describe":
        model.set_buffer_description(describe(bytes.fromhex(st["hex"])))
    elif st["op"] == "field":  # a field model the user brings along, with a window of its own
        f = FieldModel(st["name"], st["type"], st["window"])
        f.add_sample(list(st["values"]))
        model[st["name"]] = f


def rand_learn(rng, lays):
    r = rng.random()
    lay = rng.choice(lays)
    b = lay.emit(rng)
    if r < 0.85:
        s = [[i, m.id] for i, m in wire.segment(b)]
        if rng.random() < 0.2:  # a damaged buffer learned under the known structure
            a = bytearray(b)
            for _ in range(rng.randrange(1, 6)):
                a[rng.randrange(len(a))] ^= 1 << rng.randrange(8)
            b = bytes(a)
        return {"op": "buffer", "hex": b.hex(), "structure": s, "bits": rng.random() < 0.5}
    if r < 0.93:
        ty = rng.choice(["float", "int16_t", "uint8_t", "uint32_t"])
        val = [rng.randrange(0, 100) for _ in range(rng.randrange(1, 5))] if rng.random() < 0.4 else (
            rng.choice([1e-310, 0.1, -2.5e30, 3.0]) if ty == "float" else rng.randrange(0, 200))
        return {"op": "sample", "name": f"aux_{rng.choice('xyz')}_{ty}", "value": val, "type": ty}
    if r < 0.96:
        ty = rng.choice(["float", "int16_t", "uint8_t", "uint32_t"])
        return {"op": "field", "name": f"aux_{rng.choice('xyz')}_{ty}", "type": ty, "window": rng.choice([None, 1, 2, 4, 7]),
                "values": [rng.randrange(0, 120) for _ in range(rng.randrange(1, 9))]}
    return {"op": "describe", "hex": lay.emit(rng).hex()}


def rand_many(rng, lay):
    """A long stretch of ordinary operation."""
    bufs = [lay.emit(rng) for _ in range(rng.choice([25, 35, 45, 70]))]
    return {"op": "many", "hexs": [b.hex() for b in bufs], "structure": [[i, m.id] for i, m in wire.segment(bufs[0])]}


def fresh(window):
    return BufferModel(window_size=window)
