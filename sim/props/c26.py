"""C26: the field extractor gives the values that were sent, for exactly the messages that arrived intact."""
import struct

from sim import repo  # noqa: F401
from sim import gen as G
from sim import wire
from sim.props import c01
from inference import BufferSegmentation
from protocol_meta import dialect_meta as meta

RUNS = {"quick": 120000, "thorough": 400000}
RULE = ("one evaluation = one simulated session: several buffers of telemetry sent over a faulty byte channel to two segmenters sharing the "
        "process, each asked for the fields of what arrived; distinct = (messages intact, repeated messages, fields, size class, fault kinds, "
        "segmenter) per buffer")
REAL = ["inference.buffer_segmentation.BufferSegmentation.get_msg_fields", "protocol_meta (header validation, dialect meta)",
        "mavlink_utils.HC_dialect.MAVLink.decode, x25crc"]
STUBS = ["sender and channel (simulated); oracle: own X25 checksum and message table frozen from the XML specification"]
ASSUMPTIONS = ["messages with array fields are a recorded known finding of C01 (never recognised) and are not sent here",
               "a single text character is compared as its byte", "sampled sessions, not exhaustive"]
PROBES = ["intact", "repeated_message", "nothing_found", "damaged_left_out", "nan_value", "many_messages", "asked_again"]

def gen(rng, tier):
    plan = c01.gen(rng, tier)
    if rng.random() < 0.2:  # a message again with the same header (number included) and other content
        st = rng.choice(plan["steps"])
        m = rng.choice(c01.SC)
        h = [rng.choice([0, 1, rng.randrange(256)]) for _ in range(3)]
        for _ in range(rng.randrange(2, 4)):
            st["pieces"].insert(rng.randrange(len(st["pieces"]) + 1), wire.frame(m, G.rand_payload(rng, m), *h).hex())
        st["faults"] = st["faults"] if rng.random() < 0.4 else []
    return plan

simplify = c01.simplify

def same(a, b):
    return a == b or (a != a and b != b)

def execute(plan, ctx):
    tbl = {i: m for i, m in wire.table().items() if not m.arrays}
    segs = [BufferSegmentation(meta.protocol_parser), BufferSegmentation(meta.protocol_parser)]
    for st in plan["steps"]:
        ctx.at(st["t"])
        buf = b"".join(bytes.fromhex(p) for p in st["pieces"])
        for f in st["faults"]:
            buf = G.apply_byte_fault(buf, f, ctx)
        if any(m.arrays for _, m in wire.segment(buf)):
            continue
        found = wire.segment(buf, tbl)
        desc, fields = [], {}
        for i, m in found:
            desc.append(("header", buf[i:i + 6]))
            vals = struct.unpack(m.fmt, buf[i + 6:i + 6 + m.size])
            for (name, ty, _), v in zip(m.wire_fields, vals):
                fields[f"{m.name}_{name}"] = (v, ty)
                desc.append(("field", f"{m.name}_{name}", ty))
            desc.append(("crc",))
        for rep in range(2 if st["again"] else 1):
            if rep:
                ctx.probe("asked_again")
            r = ctx.call("get_msg_fields", segs[st["seg"]].get_msg_fields, buf)
            ctx.check(isinstance(r, tuple) and len(r) == 2, "shape", lambda: f"buffer {buf.hex()}: answer {r!r} is not (fields, description)")
            got_f, got_d = r
            ctx.event(st["seg"], len(buf), len(got_f), len(got_d))
            d = []
            for e in got_d:
                if isinstance(e, str):
                    d.append((e,))
                elif isinstance(e, (bytes, bytearray)):
                    d.append(("header", bytes(e)))
                else:
                    d.append(("field", e[0], e[1]))
            ctx.check(d == desc, "description", lambda: f"buffer {buf.hex()}: described as {d}, holds {desc}")
            ctx.check(set(got_f) == set(fields), "fields", lambda: f"buffer {buf.hex()}: fields {sorted(got_f)} expected {sorted(fields)}")
            for k, (v, ty) in fields.items():
                g, gt = got_f[k]
                if ty == "char":
                    g, v = (g.encode("latin-1") if isinstance(g, str) else bytes(g)).rstrip(b"\0"), v.rstrip(b"\0")
                    if any(b > 126 for b in v):
                        continue
                elif v != v:
                    ctx.probe("nan_value")
                ctx.check(same(g, v), "value", lambda: f"buffer {buf.hex()}: {k} = {g!r}, sent {v!r}")
                ctx.check(gt == ty, "type", lambda: f"buffer {buf.hex()}: type of {k} is {gt}, specified {ty}")
        ids = [m.id for _, m in found]
        for name, v in (("intact", len(found)), ("repeated_message", len(ids) != len(set(ids))), ("nothing_found", not found),
                        ("damaged_left_out", bool(st["faults"]) and len(found) < len(st["pieces"])), ("many_messages", len(found) > 2)):
            if v:
                ctx.probe(name, int(v))
        ctx.state(tuple(ids[:4]), min(len(buf) // 32, 12), len(fields), tuple(sorted({f[0] for f in st["faults"]})), st["seg"])
