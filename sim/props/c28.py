"""C28: a message structure registers exactly the buffers that carry its messages."""
import random

from sim import repo  # noqa: F401
from sim import gen as G
from sim import wire
from inference import BufferSegmentation, BufferStructure
from protocol_meta import dialect_meta as meta

RUNS = {"quick": 60000, "thorough": 400000}
RULE = ("one evaluation = one simulated session: damaged and intact receptions offered to 1-4 structures of one process; distinct = (messages in "
        "the structure, adheres, fault kinds, relation of lengths, origin of the structure) per offer")
REAL = ["inference.buffer_segmentation.BufferStructure (register_buffer, adheres_to_structure, equality), BufferSegmentation.get_buffer_structure"]
STUBS = ["sender and byte channel (simulated); oracle: message id bytes at the offsets, own segmentation"]
ASSUMPTIONS = ["a buffer adheres when a whole header with the right message id lies at every offset of the structure (the rest may be damaged)",
               "sampled sessions, not exhaustive"]
PROBES = ["registered", "refused", "too_short", "foreign_id", "unknown_id", "damaged_payload_registered", "from_segmentation", "equal_structures",
          "empty_structure", "many_registered", "listed_in_any_order"]


def gen(rng, tier):
    ms = G.scalar_msgs(30)
    nl = rng.choice([1, 2, 2, 3])
    lays = [[rng.choice(ms).id for _ in range(rng.randrange(1, 5))] for _ in range(nl)]
    if nl > 1 and rng.random() < 0.5:  # same but for one message
        lays[1] = list(lays[0])
        lays[1][rng.randrange(len(lays[1]))] = rng.choice(ms).id
    if rng.random() < 0.15:  # the same offsets, the same messages in another order
        a = rng.choice(ms)
        b = rng.choice([m for m in ms if m.size == a.size])
        lays[0] = [a.id, b.id] + lays[0][:2]
        lays.append([b.id, a.id] + lays[0][2:])
    if rng.random() < 0.2:
        lays.append(list(lays[0]))
    tbl = wire.table()

    def emit(lay):
        return b"".join(wire.frame(tbl[i], G.rand_payload(rng, tbl[i]), rng.randrange(256), 1, 1) for i in lay)
    sts = [{"first": emit(x).hex(), "seg": rng.random() < 0.5} for x in lays]
    for S in sts:  # listed by hand, in any order
        if not S["seg"] and rng.random() < 0.5:
            S["order"] = rng.randrange(1, 1000)
    if rng.random() < 0.06:
        sts.append({"first": "", "seg": True})
    steps = []
    for _ in range(rng.choice([60, 150, 400]) if rng.random() < 0.01 else rng.randrange(1, 16)):
        lay = rng.choice(lays)
        b = emit(lay)
        kinds = rng.sample(G.BYTE_FAULTS, rng.randrange(1, 4))
        fl = [G.rand_byte_fault(rng, len(b), kinds) for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 4]))]
        if rng.random() < 0.2:  # aimed at a header
            fl.append(["flip", sum(tbl[i].size + 8 for i in lay[:rng.randrange(len(lay))]) + rng.choice([5, 5, 0, 1]), rng.randrange(8)])
        if steps and rng.random() < 0.15:  # the same reception again
            steps.append(dict(steps[-1], again=True))
            continue
        steps.append({"s": rng.randrange(len(sts)), "b": b.hex(), "faults": fl, "ask": rng.random() < 0.6, "reg": rng.random() < 0.8,
                      "t": round(rng.random() * 10, 3)})
    return {"structures": sts, "steps": steps}


LIST_KEYS = ["steps"]


def execute(plan, ctx):
    tbl = wire.table()
    objs = []
    for S in plan["structures"]:
        first = bytes.fromhex(S["first"])
        want = {i: m.id for i, m in wire.segment(first)}
        if S["seg"]:
            o = ctx.call("get_buffer_structure", BufferSegmentation(meta.protocol_parser).get_buffer_structure, first)
            ctx.probe("from_segmentation")
        else:
            if S.get("order"):
                items = list(want.items())
                random.Random(S["order"]).shuffle(items)
                want = dict(items)
                ctx.probe("listed_in_any_order")
            o = BufferStructure(dict(want))
        ctx.check(dict(o.structure) == want, "structure", lambda: f"structure {o.structure} of {first.hex()}, expected {want}")
        if not want:
            ctx.probe("empty_structure")
        objs.append([o, want, []])
    last = None
    for st in plan["steps"]:
        ctx.at(st["t"])
        s = st["s"] % len(objs)
        o, want, reg = objs[s]
        b = bytes.fromhex(st["b"])
        kinds = set()
        for f in st["faults"]:
            c = G.apply_byte_fault(b, f, ctx)
            if c != b:
                kinds.add(f[0])
            b = c
        if st.get("again") and b == last:
            b = last  # the very object offered before
            ctx.fault("offered_again")
        last = b
        short = any(i + 6 > len(b) for i in want)
        ids = [b[i + 5] for i in want if i + 6 <= len(b)]
        ok = not short and ids == list(want.values())
        if st["ask"]:
            a = ctx.call("adheres_to_structure", o.adheres_to_structure, b)
            ctx.check(bool(a) == ok, "adheres", lambda: f"structure {want}: adheres={a} for {b.hex()}")
        if st["reg"]:
            err = ctx.call("register_buffer", _reg, o, b)
            ctx.check(err == (not ok), "register", lambda: f"structure {want}: buffer {b.hex()} was {'refused' if err else 'registered'}")
            if ok:
                reg.append(b)
                ctx.probe("registered")
                if kinds:
                    ctx.probe("damaged_payload_registered")
            else:
                ctx.probe("refused")
                ctx.probe("too_short" if short else "unknown_id" if any(i not in tbl for i in ids) else "foreign_id")
        for p, w, r in objs:  # the others are left alone
            ctx.check(p.reception_count == len(r) and [bytes(x) for x in p.received_buffers] == r, "registry",
                      lambda: f"structure {w}: {p.reception_count} receptions counted, {len(p.received_buffers)} kept, expected {len(r)}")
            ctx.check(dict(p.structure) == w and len(p) == len(w) and p == w, "structure", lambda: f"structure changed to {p.structure} from {w}")
        ctx.event(s, ok, len(reg), len(b))
        ctx.state(len(want), ok, tuple(sorted(kinds)), short, st["reg"], plan["structures"][s]["seg"])
        if len(reg) > 30:
            ctx.probe("many_registered")
    for i, (p, w, r) in enumerate(objs):
        for q, v, _ in objs[:i]:
            ctx.check((p == q) == (w == v) and (p != q) == (w != v), "equality", lambda: f"{w} == {v} answered {p == q}")
            if w == v:
                ctx.probe("equal_structures")


def _reg(o, b):
    try:
        o.register_buffer(b)
    except ValueError:
        return True
    return False
