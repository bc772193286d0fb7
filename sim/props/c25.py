"""C25: a parser in strict mode (the default) signals damage only by MAVError and loses no intact message by it."""
from sim import repo  # noqa: F401
from sim import gen as G
from sim import wire
from sim.props import c02
from mavlink_utils import HC_dialect, minimal_dialect

RUNS = {"quick": 14000, "thorough": 300000}
RULE = ("one evaluation = one simulated session of 1-3 strict parsers reading damaged byte streams in arbitrary reads, with restarts, each reading "
        "on after every error; distinct = (dialect, messages, bad frames, stray runs, errors, size class, fault kinds, read pattern, restarts) "
        "per stream")
REAL = ["mavlink_utils.HC_dialect.MAVLink and mavlink_utils.minimal_dialect.MAVLink with robust_parsing off (parse_char, parse_buffer, decode, "
        "callback)"]
STUBS = ["sender, byte channel and read sizes (simulated); oracle: own whole-stream parser, X25 and message table"]
ASSUMPTIONS = ["no signing key configured", "a stray byte run may be signalled once or once per byte, whole damaged frames exactly once",
               "with parse_buffer the messages are taken from the callback, since an error drops the returned list",
               "total_receive_errors is not claimed in this mode", "sampled, not exhaustive"]
PROBES = ["delivered", "error_raised", "stray_run", "bad_frame", "delivered_after_error", "partial_at_end", "restart", "v2_frame", "by_buffer",
          "by_char", "drained_late"]
LIST_KEYS = ["streams"]
MODS = {"HC_dialect": HC_dialect, "minimal_dialect": minimal_dialect}
simplify = c02.simplify


def gen(rng, tier):
    p = c02.gen(rng, tier)
    for s in p["streams"]:
        s["drain"] = rng.choice(["each", "each", "end"])  # read on at once, or only when the stream has ended
    return p


class Reader:
    def __init__(self, mod, dialect, ctx):
        self.mod, self.ctx = mod, ctx
        self.tbl = wire.table(dialect)
        self.boot()

    def boot(self):
        self.p = self.mod.MAVLink(None)
        self.cb = []
        self.ret = []
        self.p.set_callback(lambda m: self.cb.append(m))
        self.fed = b""
        self.errors = 0
        self.checked = 0
        self.exp = []
        self.rest = b""
        self.ok = True  # parse_char only: return values complete

    def one(self, api, data):
        """One read; True if it made progress (message, error or bytes consumed)."""
        before = self.p.buf_len()
        fn = self.p.parse_char if api == "char" else self.p.parse_buffer

        def read():
            try:
                return fn(data)
            except self.mod.MAVError as e:
                return e
        r = self.ctx.call("parse_" + api, read)
        if isinstance(r, self.mod.MAVError):
            self.errors += 1
            self.ctx.probe("error_raised")
            return True
        if api == "char":
            if r is not None:
                self.ret.append(r)
            return r is not None or self.p.buf_len() != before + len(data)
        self.ret.extend(r or [])
        return bool(r) or self.p.buf_len() != before + len(data)

    def drain(self, api):
        for k in range(len(self.fed) + 2):
            if not self.one(api, b""):
                return
            if k > 0:
                self.ctx.probe("drained_late")
        self.ctx.check(False, "drain", f"the parser never comes to rest on {self.fed.hex()}")

    def feed(self, data, api, drain):
        self.fed += data
        new, self.rest = c02.ref_parse(self.rest + data, self.tbl)
        self.exp += new
        self.one(api, data)
        if drain:
            self.drain(api)
            self.verify(api, full=True)
        else:
            self.verify(api, full=False)

    def verify(self, api, full):
        ctx = self.ctx
        want = [e for e in self.exp if e[0] == "msg"]
        n = len(self.cb)
        ctx.check(n <= len(want) and (not full or n == len(want)), "messages",
                  lambda: f"after {len(self.fed)} bytes {self.fed.hex()}: {n} messages delivered, {len(want)} arrived intact")
        for got, w in zip(self.cb[self.checked:], want[self.checked:]):
            ctx.check(got.get_type() == w[2].name and got.get_msgId() == w[2].id, "lost", lambda: f"intact frame {w[1].hex()} delivered as {got.get_type()}")
            ctx.check(bytes(got.get_msgbuf()) == w[1], "msg-bytes", lambda: f"message bytes {bytes(got.get_msgbuf()).hex()} expected {w[1].hex()}")
            hdr = (got.get_seq(), got.get_srcSystem(), got.get_srcComponent())
            ctx.check(hdr == w[4], "header", lambda: f"header {hdr} expected {w[4]}")
            bad = c02.fields_ok(got, w[2], w[3])
            ctx.check(bad is None, "fields", lambda: bad)
            ctx.probe("delivered")
            if self.errors:
                ctx.probe("delivered_after_error")
            if w[5]:
                ctx.probe("v2_frame")
        self.checked = n
        ctx.check(self.p.total_packets_received == n, "count-packets", lambda: f"packets {self.p.total_packets_received}, messages {n}")
        ctx.check(self.p.total_bytes_received == len(self.fed), "count-bytes", lambda: f"bytes {self.p.total_bytes_received} fed {len(self.fed)}")
        if api == "char":
            ctx.check(len(self.ret) == n and all(a is b for a, b in zip(self.ret, self.cb)), "returned",
                      lambda: f"{len(self.ret)} messages returned, callback saw {n}")
        frames = sum(1 for e in self.exp if e[0] == "bad" and e[2] != "prefix")
        stray = sum(1 for e in self.exp if e[0] == "bad" and e[2] == "prefix")
        runs = sum(1 for a, b in zip([None] + self.exp, self.exp)
                   if b[0] == "bad" and b[2] == "prefix" and not (a and a[0] == "bad" and a[2] == "prefix"))
        ctx.check(self.errors <= frames + stray and (not full or self.errors >= frames + runs), "errors",
                  lambda: f"{self.errors} errors raised for {frames} damaged frames and {stray} stray bytes in {runs} runs: {self.fed.hex()}")
        self.n = (frames, runs)


def execute(plan, ctx):
    readers = []
    for i, s in enumerate(plan["streams"]):
        pieces = [bytes.fromhex(x) for x in s["pieces"]]
        for k, a, b in s["ops"]:
            if max(a, b) >= len(pieces):
                continue
            if k == "loss":
                pieces[a] = b""
            elif k == "dupframe":
                pieces.insert(b, pieces[a])
            else:
                pieces[a], pieces[b] = pieces[b], pieces[a]
            ctx.fault(k)
        data = b"".join(pieces)
        for f in s["faults"]:
            data = G.apply_byte_fault(data, f, ctx)
        data += b"".join(bytes.fromhex(c) for c in s["clean"])
        readers.append({"s": s, "data": data, "pos": 0, "k": 0, "done": False, "r": Reader(MODS[s["dialect"]], s["dialect"], ctx)})
    t = 0.0
    for i in list(plan["steps"]) + [j for j in range(len(readers)) for _ in range(500)]:
        if i >= len(readers) or readers[i]["done"]:
            continue
        t += plan["gap"]
        ctx.at(t)
        R = readers[i]
        s = R["s"]
        if R["k"] in s["restarts"] and R["k"] > 0:
            R["r"].boot()
            ctx.fault("reader_restart")
            ctx.probe("restart")
        last = R["k"] >= len(s["reads"])
        n = len(R["data"]) - R["pos"] if last else s["reads"][R["k"]]
        chunk = R["data"][R["pos"]:R["pos"] + n]
        R["pos"] += len(chunk)
        R["k"] += 1
        R["done"] = last or (R["pos"] >= len(R["data"]) and not any(x >= R["k"] for x in s["restarts"]))
        R["r"].feed(chunk, s["api"], s["drain"] == "each" or R["done"])
        ctx.event(i, len(chunk), len(R["r"].cb), R["r"].errors)
    for R in readers:
        s, r = R["s"], R["r"]
        ctx.probe("by_" + s["api"])
        if r.rest:
            ctx.probe("partial_at_end")
        if r.n[0]:
            ctx.probe("bad_frame")
        if r.n[1]:
            ctx.probe("stray_run")
        ctx.state(s["dialect"], min(r.checked, 12), min(r.n[0], 4), min(r.n[1], 4), min(r.errors, 8), len(R["data"]) // 32,
                  tuple(sorted({f[0] for f in s["faults"]})), s["style"], len(s["restarts"]), s["drain"], bool(r.rest))
