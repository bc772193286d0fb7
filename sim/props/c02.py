"""C02: streaming telemetry parser is chunk-independent, lossless and resynchronises."""
import struct

from sim import repo  # noqa: F401
from sim import gen as G
from sim import wire
from mavlink_utils import HC_dialect, minimal_dialect

RUNS = {"quick": 18000, "thorough": 400000}
RULE = ("one evaluation = one simulated session of 1-3 parsers reading damaged byte streams in arbitrary reads, with restarts; distinct = "
        "(dialect, items delivered, bad reports, size class, fault kinds, read pattern, restarts) per stream")
REAL = ["mavlink_utils.HC_dialect.MAVLink and mavlink_utils.minimal_dialect.MAVLink (parse_char, parse_buffer, decode, counters, callback)"]
STUBS = ["sender, byte channel and read sizes (simulated); oracle: own whole-stream parser, X25 and message table"]
ASSUMPTIONS = ["error-tolerant mode (robust_parsing=True), no signing key configured",
               "text fields are compared up to the first NUL and only when valid UTF-8", "sampled, not exhaustive"]
PROBES = ["delivered", "bad_prefix", "bad_frame", "partial_at_end", "read_inside_header", "read_inside_payload", "restart", "v2_frame",
          "resync_checked", "unknown_id", "empty_read", "long_link"]
MODS = {"HC_dialect": HC_dialect, "minimal_dialect": minimal_dialect}
MARK = (0xFE, 0xFD)


def _frame(rng, dialect, clean=False):
    tbl = wire.table(dialect)
    ms = [m for _, m in sorted(tbl.items())]
    m = rng.choice([x for x in ms if x.size <= 20] if rng.random() < 0.6 else ms)
    for _ in range(200):
        p = G.rand_payload(rng, m, raw=not clean and rng.random() < 0.25)
        f = wire.frame(m, p, rng.randrange(253 if clean else 256), rng.randrange(253 if clean else 256), rng.randrange(253 if clean else 256))
        if not clean or not any(b in MARK for b in f[1:]):
            return f
    hb = wire.table(dialect)[0]
    return wire.frame(hb, bytes(hb.size), 1, 1, 1)


def _piece(rng, dialect):
    r = rng.random()
    if r < 0.7:
        return _frame(rng, dialect)
    if r < 0.76:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(1, 30)))
    if r < 0.84:  # v2 framing
        tbl = wire.table(dialect)
        m = rng.choice([x for _, x in sorted(tbl.items()) if x.size <= 30])
        flags = rng.choice([0, 0, 0, 0, 1, 2, 3, 1 << rng.randrange(8), rng.randrange(256)])
        p = G.rand_payload(rng, m)
        body = bytes([len(p), flags, 0, rng.randrange(256), 1, 1, m.id, 0, rng.choice([0, 0, 0, 1])]) + p
        return bytes([0xFD]) + body + struct.pack("<H", wire.x25(bytes([m.crc_extra]), wire.x25(body))) + (bytes(13) if flags & 1 else b"")
    if r < 0.9:
        return bytes([rng.choice(MARK), rng.randrange(256), rng.randrange(256)])
    if r < 0.95:  # consistent checksum, length other than the message's
        tbl = wire.table(dialect)
        m = rng.choice([x for _, x in sorted(tbl.items()) if x.size <= 30])
        return wire.frame(m, bytes(rng.randrange(256) for _ in range(rng.randrange(0, 40))), 3, 1, 1)
    return bytes(rng.randrange(1, 10))


def gen(rng, tier):
    streams = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        dialect = "HC_dialect" if rng.random() < 0.75 else "minimal_dialect"
        long = rng.random() < 0.012  # a link that stays up: tens of kilobytes through one parser
        pieces = [_piece(rng, dialect) for _ in range(rng.choice([120, 260, 400, 900]) if long else rng.choice([0, 1, 2, 3, 5, 8]))]
        n = sum(map(len, pieces))
        kinds = rng.sample(G.BYTE_FAULTS, rng.randrange(1, 6))
        faults = [G.rand_byte_fault(rng, n, kinds) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
        # loss / duplication / reordering of whole frames
        ops = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            if pieces:
                ops.append([rng.choice(["loss", "dupframe", "reorder"]), rng.randrange(len(pieces)), rng.randrange(len(pieces))])
        clean = []
        if rng.random() < 0.35:
            tot = 0
            while tot < 700:
                f = _frame(rng, dialect, clean=True)
                clean.append(f.hex())
                tot += len(f)
        style = rng.choice(["mixed", "big", "huge", "one"] if long else ["bytes", "small", "mixed", "big", "one"])
        total = n + sum(len(c) // 2 for c in clean) + 40
        reads = []
        left = total
        while left > 0 and len(reads) < 400:
            k = {"bytes": 1, "small": rng.randrange(1, 6), "mixed": rng.choice([0, 1, 2, 3, 7, 30, 100]), "big": rng.randrange(20, 300), "huge": rng.randrange(500, 9000),
                 "one": total}[style]
            reads.append(k)
            left -= k
        streams.append({"dialect": dialect, "pieces": [p.hex() for p in pieces], "ops": ops, "faults": faults, "clean": clean, "reads": reads,
                        "style": style, "api": rng.choice(["buffer", "buffer", "char"]),
                        "restarts": sorted(rng.randrange(max(1, len(reads))) for _ in range(rng.choice([0, 0, 0, 1, 2])))})
    # interleaving of the readers
    order = []
    for i, s in enumerate(streams):
        order += [i] * (len(s["reads"]) + 1)
    rng.shuffle(order)
    return {"streams": streams, "steps": order, "gap": rng.choice([0.001, 0.02])}


LIST_KEYS = ["streams"]


def simplify(plan):
    for i, s in enumerate(plan["streams"]):
        for key in ("faults", "ops", "pieces", "clean", "restarts"):
            for j in range(len(s[key])):
                q = dict(plan, streams=[dict(x) for x in plan["streams"]])
                q["streams"][i][key] = s[key][:j] + s[key][j + 1:]
                if key == "pieces":
                    q["streams"][i]["ops"] = [o for o in s["ops"] if max(o[1:]) < len(s[key]) - 1]
                yield q
        if len(s["reads"]) > 1:
            q = dict(plan, streams=[dict(x) for x in plan["streams"]])
            r = s["reads"]
            q["streams"][i]["reads"] = [r[0] + r[1]] + r[2:]
            q["streams"][i]["restarts"] = []
            yield q


def ref_parse(b, tbl):
    """Whole-stream reference: ([('msg', bytes, Msg, payload, header) | ('bad', bytes)], bytes left over)."""
    out = []
    i = 0
    n = len(b)
    while i < n:
        if b[i] not in MARK:
            out.append(("bad", b[i:i + 1], "prefix"))
            i += 1
            continue
        v2 = b[i] == 0xFD
        hl = 10 if v2 else 6
        if n - i < 3:
            break
        total = b[i + 1] + hl + 2
        sig = 13 if v2 and b[i + 2] & 1 else 0
        total += sig
        if n - i < total:
            break
        f = b[i:i + total]
        i += total
        if v2:
            mid = f[7] | f[8] << 8 | f[9] << 16
            hdr = (f[4], f[5], f[6])
        else:
            mid = f[5]
            hdr = (f[2], f[3], f[4])
        m = tbl.get(mid)
        end = total - 2 - sig
        if m is None or (v2 and f[2] & ~1) or struct.unpack("<H", f[end:end + 2])[0] != wire.x25(bytes([m.crc_extra]), wire.x25(f[1:end])):
            out.append(("bad", f, "unknown" if m is None else "frame"))
        else:
            p = f[hl:end]
            p = p[:m.size] + bytes(max(0, m.size - len(p)))
            out.append(("msg", f, m, p, hdr, v2))
    return out, b[i:]


def fields_ok(obj, m, payload):
    vals = list(struct.unpack(m.fmt, payload))
    for name, ty, n in m.wire_fields:
        got = getattr(obj, name)
        if n and ty == "char":
            raw = vals.pop(0)
            try:
                want = raw.decode("utf-8").split("\0")[0]
            except UnicodeDecodeError:
                continue
            if got != want:
                return f"{m.name}.{name}: got {got!r} sent {want!r}"
        else:
            want = [vals.pop(0) for _ in range(max(1, n))]
            g = list(got) if n > 1 else [got]
            if len(g) != len(want) or any(not (a == c or (a != a and c != c)) for a, c in zip(g, want)):
                return f"{m.name}.{name}: got {got!r} sent {want!r}"
    return None


class Reader:
    """One incarnation chain of the real parser with its reference."""

    def __init__(self, mod, dialect, ctx, tag):
        self.mod, self.ctx, self.tag = mod, ctx, tag
        self.tbl = wire.table(dialect)
        self.total = 0
        self.boot()

    def boot(self):
        self.p = self.mod.MAVLink(None)
        self.p.robust_parsing = True
        self.cb = []
        self.p.set_callback(lambda m, tag: self.cb.append((tag, m)), self.tag)
        self.fed = b""
        self.items = []
        self.checked = 0
        self.exp = []
        self.rest = b""
        self.nbad = 0

    def feed(self, data, api):
        if api == "char":
            for b in data:
                m = self.ctx.call("parse_char", self.p.parse_char, bytes([b]))
                if m is not None:
                    self.items.append(m)
        else:
            r = self.ctx.call("parse_buffer", self.p.parse_buffer, data)
            self.items.extend(r or [])
        self.fed += data
        new, self.rest = ref_parse(self.rest + data, self.tbl)
        self.exp += new
        self.nbad += sum(1 for e in new if e[0] == "bad")
        self.verify()

    def verify(self):
        ctx = self.ctx
        exp = self.exp
        ctx.check(len(self.items) == len(exp), "items",
                  lambda: f"after {len(self.fed)} bytes {self.fed.hex()}: {len(self.items)} items delivered, expected {len(exp)}")
        for got, want in list(zip(self.items[self.checked:], exp[self.checked:])):
            ty = got.get_type()
            if want[0] == "bad":
                ctx.check(ty == "BAD_DATA", "delivered-bad", lambda: f"delivered {ty} from invalid bytes {want[1].hex()}")
                ctx.check(bytes(got.data) == want[1], "bad-bytes", lambda: f"bad data report {bytes(got.data).hex()} expected {want[1].hex()}")
                ctx.probe({"prefix": "bad_prefix", "frame": "bad_frame", "unknown": "unknown_id"}[want[2]])
            else:
                ctx.check(ty == want[2].name and got.get_msgId() == want[2].id, "lost", lambda: f"intact frame {want[1].hex()} delivered as {ty}")
                ctx.check(bytes(got.get_msgbuf()) == want[1], "msg-bytes", lambda: f"message bytes {bytes(got.get_msgbuf()).hex()} expected {want[1].hex()}")
                hdr = (got.get_seq(), got.get_srcSystem(), got.get_srcComponent())
                ctx.check(hdr == want[4], "header", lambda: f"header {hdr} expected {want[4]}")
                bad = fields_ok(got, want[2], want[3])
                ctx.check(bad is None, "fields", lambda: bad)
                ctx.probe("delivered")
                if want[5]:
                    ctx.probe("v2_frame")
            self.checked += 1
        nbad = self.nbad
        p = self.p
        ctx.check(p.total_bytes_received == len(self.fed), "count-bytes", lambda: f"bytes received {p.total_bytes_received} fed {len(self.fed)}")
        ctx.check(p.total_receive_errors == nbad, "count-errors", lambda: f"errors {p.total_receive_errors} expected {nbad}")
        ctx.check(p.total_packets_received == len(exp), "count-packets", lambda: f"packets {p.total_packets_received} expected {len(exp)}")
        ctx.check(len(self.cb) == len(self.items) and (not self.cb or (self.cb[-1][1] is self.items[-1] and self.cb[-1][0] == self.tag)), "callback",
                  lambda: f"callback saw {len(self.cb)} items, caller {len(self.items)}")
        ctx.check(p.bytes_needed() >= 1, "bytes-needed", "bytes_needed() < 1")

    def final(self):
        """Over the whole history: the reports concatenated with what is still awaited are the bytes fed."""
        exp, rest = ref_parse(self.fed, self.tbl)
        assert [e[:2] for e in exp] == [e[:2] for e in self.exp] and rest == self.rest
        cat = b"".join(bytes(m.data) if m.get_type() == "BAD_DATA" else bytes(m.get_msgbuf()) for m in self.items)
        self.ctx.check(cat + rest == self.fed, "conservation", lambda: "delivered and awaited bytes are not the bytes fed")
        self.ctx.check(all(a is b[1] for a, b in zip(self.items, self.cb)), "callback", "callback order differs from delivery order")


def execute(plan, ctx):
    readers = []
    for i, s in enumerate(plan["streams"]):
        pieces = [bytes.fromhex(x) for x in s["pieces"]]
        for k, a, b in s["ops"]:
            if max(a, b) >= len(pieces):
                continue
            if k == "loss":
                pieces[a] = b""
            elif k == "dupframe":
                pieces.insert(b, pieces[a])
            else:
                pieces[a], pieces[b] = pieces[b], pieces[a]
            ctx.fault(k)
        data = b"".join(pieces)
        for f in s["faults"]:
            data = G.apply_byte_fault(data, f, ctx)
        clean = [bytes.fromhex(c) for c in s["clean"]]
        readers.append({"s": s, "data": data + b"".join(clean), "dirty": len(data), "clean": clean, "pos": 0, "k": 0, "done": False,
                        "base": 0, "r": Reader(MODS[s["dialect"]], s["dialect"], ctx, i)})
    t = 0.0
    for i in list(plan["steps"]) + [j for j in range(len(readers)) for _ in range(500)]:
        if i >= len(readers) or readers[i]["done"]:
            continue
        t += plan["gap"]
        ctx.at(t)
        R = readers[i]
        s = R["s"]
        if R["k"] in s["restarts"] and R["k"] > 0:
            R["r"].boot()
            R["base"] = R["pos"]
            ctx.fault("reader_restart")
            ctx.probe("restart")
        last = R["k"] >= len(s["reads"])
        n = len(R["data"]) - R["pos"] if last else s["reads"][R["k"]]
        chunk = R["data"][R["pos"]:R["pos"] + n]
        if not chunk:
            ctx.probe("empty_read")
        R["r"].feed(chunk, s["api"])
        left = len(R["r"].rest)
        if left:
            ctx.probe("read_inside_header" if left < 6 else "read_inside_payload")
        ctx.event(i, len(chunk), len(R["r"].items), left)
        R["pos"] += len(chunk)
        R["k"] += 1
        if last or (R["pos"] >= len(R["data"]) and R["k"] >= 1 and not any(x >= R["k"] for x in s["restarts"])):
            R["done"] = True
    for R in readers:
        s, r = R["s"], R["r"]
        r.final()
        if r.rest:
            ctx.probe("partial_at_end")
        if len(r.fed) > 10000:
            ctx.probe("long_link")
        # bounded resynchronisation: every clean frame beginning one maximal frame after the damage is delivered
        got = [bytes(m.get_msgbuf()) for m in r.items if m.get_type() != "BAD_DATA"]
        pos = R["dirty"]
        want = []
        for c in R["clean"]:
            if pos >= max(R["dirty"], R["base"]) + 280:
                want.append(c)
            pos += len(c)
        if want and R["base"] <= R["dirty"]:
            ctx.probe("resync_checked")
            ctx.check(got[-len(want):] == want, "resync", lambda: f"{len(want)} clean frames after the damage not all delivered")
        ctx.state(s["dialect"], min(len(r.items), 12), r.checked, len(R["data"]) // 32, tuple(sorted({f[0] for f in s["faults"]})), s["style"],
                  len(s["restarts"]), bool(r.rest))
