"""C01: segmentation reports exactly the telemetry messages that arrived intact."""
from sim import repo  # noqa: F401
from sim import gen as G
from sim import wire
from inference import BufferSegmentation, MsgParts
from protocol_meta import dialect_meta as meta

RUNS = {"quick": 60000, "thorough": 400000}
RULE = ("one evaluation = one simulated session: several buffers of telemetry sent over a faulty byte channel to two segmenters "
        "sharing the process; distinct = (messages sent, messages intact, buffer size class, fault kinds fired, nested/forged/tail "
        "situation) per buffer")
REAL = ["inference.buffer_segmentation.BufferSegmentation", "protocol_meta (header validation, dialect meta)",
        "mavlink_utils.HC_dialect.MAVLink.decode, x25crc"]
STUBS = ["sender and channel (simulated); oracle: own X25 checksum and message table frozen from the XML specification"]
ASSUMPTIONS = ["messages with array fields are a recorded known finding: both the specified answer and the one of the finding are "
               "accepted for them", "sampled sessions, not exhaustive"]
PROBES = ["intact_reported", "nested_suppressed", "nested_revealed", "forged_header_rejected", "message_at_end", "tail_truncated",
          "short_buffer", "fully_covered", "nothing_found", "crc_rejected", "array_message"]

SC = G.scalar_msgs()
AR = G.array_msgs()
SMALL = [m for m in SC if m.size <= 12]


def _msg(rng, max_size=None):
    r = rng.random()
    pool = AR if r < 0.04 else (SMALL if r < 0.6 else SC)
    if max_size is not None:
        pool = [m for m in pool if m.size <= max_size] or SMALL[:1]
    m = rng.choice(pool)
    p = G.rand_payload(rng, m, raw=rng.random() < 0.3)
    if m.size >= 20 and rng.random() < 0.35:  # a message travelling inside another one's payload
        inner = rng.choice([s for s in SC if s.size + 8 <= m.size])
        f = wire.frame(inner, G.rand_payload(rng, inner), rng.randrange(256), rng.randrange(256), rng.randrange(256))
        off = rng.randrange(m.size - len(f) + 1)
        p = p[:off] + f + p[off + len(f):]
    return wire.frame(m, p, rng.randrange(256), rng.randrange(256), rng.randrange(256))


def _piece(rng):
    r = rng.random()
    if r < 0.62:
        return _msg(rng)
    if r < 0.72:  # forged: right marker and length, wrong or right pieces elsewhere
        m = rng.choice(SC)
        f = bytearray(wire.frame(m, G.rand_payload(rng, m), rng.randrange(256), 1, 1))
        k = rng.randrange(7)
        if k == 0:
            f[-1] ^= 1 << rng.randrange(8)
        elif k == 1:
            f[1] = (f[1] + rng.choice([1, -1, 3])) % 256
        elif k == 2:
            f[5] = rng.randrange(256)
        elif k == 3:
            f = f[:rng.randrange(6, len(f))]
        elif k == 5:  # checksum of another kind of message
            f[-2:] = wire.x25(bytes([rng.choice([0, m.crc_extra ^ 1, rng.choice(SC).crc_extra])]), wire.x25(bytes(f[1:-2]))).to_bytes(2, "little")
        elif k == 6:
            f[-2:] = rng.choice([bytes(2), b"\xff\xff", bytes([f[-1], f[-2]]), wire.x25(bytes(f[1:-2])).to_bytes(2, "little")])
        else:  # consistent checksum over an inconsistent length
            n = rng.randrange(0, 40)
            if m.size == n:
                n += 1
            f = bytearray(wire.frame(m, bytes(rng.randrange(256) for _ in range(n)), 0, 1, 1))
        return bytes(f)
    if r < 0.78:
        return bytes([0xFE] * rng.randrange(1, 9))
    if r < 0.9:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(1, 20)))
    return bytes(rng.randrange(1, 20))


def gen(rng, tier):
    kinds = rng.sample(G.BYTE_FAULTS, rng.randrange(1, 6))
    rate = rng.choice([0, 0, 0.5, 1, 2, 4])
    steps = []
    t = 0.0
    for _ in range(rng.randrange(1, 7)):
        t += rng.uniform(0.05, 2.0)
        pieces = [_piece(rng).hex() for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5]))]
        if rng.random() < 0.003:  # a long recording
            pieces += [(bytes(rng.choice([200, 900, 3000])) if rng.random() < 0.1 else _piece(rng)).hex() for _ in range(rng.randrange(20, 60))]
        if steps and rng.random() < 0.25:  # the same messages again, differently damaged
            pieces = list(rng.choice(steps)["pieces"])
            if pieces and rng.random() < 0.3:
                rng.shuffle(pieces)
        n = sum(len(p) // 2 for p in pieces)
        nf = 0 if rate == 0 else rng.choice([0, 1, 1, int(rate) + 1])
        faults = [G.rand_byte_fault(rng, n, kinds) for _ in range(nf)]
        steps.append({"t": round(t, 3), "seg": rng.randrange(2), "pieces": pieces, "faults": faults, "again": rng.random() < 0.15})
    return {"steps": steps}


def simplify(plan):
    for i, s in enumerate(plan["steps"]):
        for key in ("faults", "pieces"):
            for j in range(len(s[key])):
                q = dict(plan, steps=[dict(x) for x in plan["steps"]])
                q["steps"][i][key] = s[key][:j] + s[key][j + 1:]
                yield q


def expected(buf, tbl):
    found = wire.segment(buf, tbl)
    parts = ["UNKNOWN"] * len(buf)
    for i, m in found:
        parts[i:i + 6] = ["HEADER"] * 6
        parts[i + 6:i + 6 + m.size] = ["PAYLOAD"] * m.size
        parts[i + 6 + m.size:i + 8 + m.size] = ["CHECKSUM"] * 2
    bad = []
    i = 0
    while i < len(buf):
        if parts[i] == "UNKNOWN":
            j = i
            while j < len(buf) and parts[j] == "UNKNOWN":
                j += 1
            bad.append((i, j))
            i = j
        else:
            i += 1
    return found, parts, bad


def execute(plan, ctx):
    tbl = wire.table()
    tbl_noarr = {i: m for i, m in tbl.items() if not m.arrays}
    segs = [BufferSegmentation(meta.protocol_parser), BufferSegmentation(meta.protocol_parser)]
    for st in plan["steps"]:
        ctx.at(st["t"])
        sent = [bytes.fromhex(p) for p in st["pieces"]]
        buf = b"".join(sent)
        for f in st["faults"]:
            buf = G.apply_byte_fault(buf, f, ctx)
        seg = segs[st["seg"]]
        for rep in range(2 if st["again"] else 1):
            parts, validity, structure = ctx.call("segment_buffer", seg.segment_buffer, buf)
            found, eparts, ebad = expected(buf, tbl)
            items = [(int(a), int(b)) for a, b in structure.items()]
            if any(m.arrays for _, m in found):
                ctx.probe("array_message")
                alt = expected(buf, tbl_noarr)
                if items == [(i, m.id) for i, m in alt[0]]:
                    ctx.finding("array messages are never recognised")
                    found, eparts, ebad = alt
            got = [p.name for p in parts]
            ctx.event("seg", st["seg"], len(buf), items)
            ctx.check(items == [(i, m.id) for i, m in found], "messages",
                      lambda: f"buffer {buf.hex()}: reported {items}, intact messages are {[(i, m.id) for i, m in found]}")
            ctx.check(len(got) == len(buf) and got == eparts, "parts", lambda: f"buffer {buf.hex()}: byte labels {got} expected {eparts}")
            ev = [1.0 if eparts[i // 8] != "UNKNOWN" else 0.0 for i in range(8 * len(buf))]
            ctx.check([float(v) for v in validity] == ev, "validity", lambda: f"buffer {buf.hex()}: bit certainty differs from labels")
            bp = ctx.call("bad_buffer_parts", seg.bad_buffer_parts, buf, parts)
            bi = ctx.call("bad_buffer_idx", seg.bad_buffer_idx, buf, parts)
            ctx.check({int(k): bytes(v) for k, v in bp.items()} == {i: buf[i:j] for i, j in ebad}, "bad-parts",
                      lambda: f"buffer {buf.hex()}: bad parts {bp} expected regions {ebad}")
            ctx.check([(int(a), int(b)) for a, b in (bi or [])] == ebad, "bad-idx",
                      lambda: f"buffer {buf.hex()}: bad regions {bi} expected {ebad}")
            gs = ctx.call("get_buffer_structure", seg.get_buffer_structure, buf)
            ctx.check({int(a): int(b) for a, b in gs.structure.items()} == dict(items), "structure",
                      lambda: f"get_buffer_structure {gs.structure} differs from {items}")
        # coverage
        spans = [(i, i + 8 + m.size) for i, m in found]
        nested = revealed = forged = crcrej = 0
        for i in range(len(buf) - 7):
            if buf[i] == wire.STX:
                m = tbl.get(buf[i + 5])
                if m and m.size == buf[i + 1] and i + 8 + m.size <= len(buf):
                    ok = wire.crc_ok(m, buf[i:i + 8 + m.size])
                    inside = any(a < i < b for a, b in spans)
                    if ok and inside:
                        nested += 1
                    if not ok and not inside:
                        crcrej += 1
                        if any(i < a < i + 8 + m.size for a, _ in spans):
                            revealed += 1
                elif not any(a <= i < b for a, b in spans):
                    forged += 1
                    if m and m.size == buf[i + 1]:
                        ctx.probe("tail_truncated")
        for name, v in (("intact_reported", len(found)), ("nested_suppressed", nested), ("nested_revealed", revealed),
                        ("forged_header_rejected", forged), ("crc_rejected", crcrej), ("short_buffer", len(buf) < 8),
                        ("message_at_end", bool(spans) and spans[-1][1] == len(buf)), ("fully_covered", bool(buf) and not ebad),
                        ("nothing_found", not found)):
            if v:
                ctx.probe(name, int(v))
        ctx.state(len(sent), len(found), min(len(buf) // 16, 20), tuple(sorted({f[0] for f in st["faults"]})), min(nested, 2),
                  min(revealed, 2), min(forged, 3), min(crcrej, 3), len(ebad), st["seg"], st["again"])
