"""C27: a signed link delivers each authentic message at most once, and nothing forged or replayed."""
import hashlib
import struct
from array import array

from sim import repo  # noqa: F401
from sim import gen as G
from sim import wire
from mavlink_utils import HC_dialect, minimal_dialect

RUNS = {"quick": 80000, "thorough": 400000}
RULE = ("one evaluation = one simulated session of 1-4 signing stations with skewed clocks and an attacker on the line towards one receiver, "
        "with restarts; distinct = (kind of arrival, verdict, stream known, policy, API, timestamp relation) per arrival")
REAL = ["mavlink_utils.HC_dialect / minimal_dialect: MAVLink.decode, check_signature, parse_char, parse_buffer, MAVLinkSigning"]
STUBS = ["signing stations, their clocks, the line and the attacker (simulated; own SHA-256 signing, X25 and message table)"]
ASSUMPTIONS = ["48-bit timestamps in units of 10 us; a new stream may lag one minute behind (MAVLink 2 signing rules)",
               "a restarted receiver knows the key and a clock, not the streams it had seen", "sampled, not exhaustive"]
PROBES = ["authentic", "replay_refused", "old_refused", "forged_refused", "altered_refused", "new_stream_late_refused", "unsigned_refused",
          "unsigned_allowed", "bad_signature_allowed", "no_key", "restart", "damaged", "authentic_after_forgery", "equal_timestamp"]
MODS = {"HC_dialect": HC_dialect, "minimal_dialect": minimal_dialect}
MIN = 6000 * 1000
KINDS = ["fresh"] * 10 + ["replay"] * 5 + ["delayed"] * 3 + ["forge"] * 4 + ["alter"] * 3 + ["strip", "v1", "damage", "relabel", "equal", "step1"]


def gen(rng, tier):
    dialect = rng.choice(["HC_dialect", "HC_dialect", "minimal_dialect"])
    base = rng.choice([10**9, 2**32 - 3, 2**40, 2**48 - 10**8, 5])
    ids = sorted(i for i, m in wire.table(dialect).items() if m.size <= 40)
    stations = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        stations.append({"link": rng.choice([rng.randrange(4), rng.randrange(256), rng.choice([0, 64, 128, 255])]), "sys": rng.randrange(3), "comp": rng.randrange(3),
                         "skew": rng.choice([0, 0, 1, -5, 1000, -MIN, -MIN - 1, -MIN + 1, -2 * MIN, MIN])})
    steps = []
    n = rng.choice([120, 300]) if rng.random() < 0.01 else rng.randrange(1, 26)
    for _ in range(n):
        st = {"k": rng.choice(KINDS), "s": rng.randrange(len(stations)), "id": rng.choice(ids), "dt": rng.choice([0, 1, 1, 2, 100, 10**5, MIN]),
              "pl": rng.randrange(2**30), "seq": rng.randrange(256), "pick": rng.randrange(1000), "b": rng.randrange(1000),
              "x": rng.randrange(1, 256), "sig": rng.choice(["key", "key", "zero", "ones", "head", "tail", "other"]), "cut": rng.choice([0, 0, 0, 3, 12, 20]), "ts": rng.choice(["now", "now", "future", "far", "zero"])}
        steps.append(st)
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        steps.insert(rng.randrange(len(steps) + 1), {"k": "restart", "lag": rng.choice([0, 0, MIN, -MIN, 2 * MIN])})
    return {"dialect": dialect, "key": rng.choice([True] * 12 + [False]), "base": base, "stations": stations, "steps": steps,
            "clock": rng.choice([0, 0, 1, -MIN, MIN, 10 * MIN]), "policy": rng.choice([None, None, "none", "all", "odd"]),
            "api": rng.choice(["buffer", "char", "decode", "strict"])}


KEY = hashlib.sha256(b"telemetry link").digest()
EVIL = hashlib.sha256(b"somebody else").digest()


def frame2(m, payload, seq, sysid, comp, link=None, ts=0, key=KEY):
    body = bytes([len(payload), 0 if link is None else 1, 0, seq, sysid, comp, m.id & 255, m.id >> 8 & 255, m.id >> 16]) + payload
    f = b"\xfd" + body + struct.pack("<H", wire.x25(bytes([m.crc_extra]), wire.x25(body)))
    if link is None:
        return f
    f += bytes([link]) + struct.pack("<Q", ts)[:6]
    return f + hashlib.sha256(key + f).digest()[:6]


def recrc(tbl, f):
    """The attacker recomputes the checksum of an altered signed frame, which he can, but not the signature."""
    f = bytearray(f)
    m = tbl[f[7] | f[8] << 8 | f[9] << 16]
    end = 10 + f[1]
    f[end:end + 2] = struct.pack("<H", wire.x25(bytes([m.crc_extra]), wire.x25(bytes(f[1:end]))))
    return bytes(f)


class Model:
    def __init__(self, key, clock):
        self.key, self.now = key, clock
        self.streams = {}
        self.sig = self.good = self.bad = self.uns = self.rej = 0

    def arrive(self, tbl, f, policy):
        """(delivered, signed, link id, what the policy was asked)"""
        v2 = f[0] == 0xFD
        mid = (f[7] | f[8] << 8 | f[9] << 16) if v2 else f[5]
        signed = v2 and f[2] & 1
        m = tbl.get(mid)
        end = len(f) - 2 - (13 if signed else 0)
        if m is None or struct.unpack("<H", f[end:end + 2])[0] != wire.x25(bytes([m.crc_extra]), wire.x25(f[1:end])):
            return False, False, None, None, "damaged"
        if signed:
            self.sig += 1
        if self.key is None:
            return True, False, None, None, "no_key"
        why = "unsigned"
        if signed:
            ts = int.from_bytes(f[-12:-6], "little")
            k = (f[-13], f[5], f[6])
            auth = hashlib.sha256(self.key + f[:-6]).digest()[:6] == f[-6:]
            if k in self.streams:
                fresh = ts > self.streams[k]
                why = "equal" if ts == self.streams[k] else "old"
            else:
                fresh = ts + MIN >= self.now
                why = "late"
            if auth and fresh:
                self.good += 1
                self.streams[k] = ts
                self.now = max(self.now, ts)
                return True, True, f[-13], None, "authentic"
            self.bad += 1
            if not auth:
                why = "forged"
        if policy is None:
            return False, False, None, None, why
        ok = policy(mid)
        if ok:
            self.uns += 1
        else:
            self.rej += 1
        return ok, False, None, mid, why


POL = {"none": lambda i: False, "all": lambda i: True, "odd": lambda i: i % 2 == 1}


def execute(plan, ctx):
    import random
    tbl = wire.table(plan["dialect"])
    mod = MODS[plan["dialect"]]
    policy = POL.get(plan["policy"])
    api = plan["api"]
    asked = []

    def boot(clock):
        p = mod.MAVLink(None)
        p.robust_parsing = api in ("buffer", "char")
        if plan["key"]:
            p.signing.secret_key = KEY
        p.signing.timestamp = clock
        if policy is not None:
            p.signing.allow_unsigned_callback = lambda mav, mid: (asked.append(mid), policy(mid))[1]
        cb = []
        p.set_callback(cb.append)
        return p, cb, Model(KEY if plan["key"] else None, clock)

    now = plan["base"]
    clk = [max(0, now + s["skew"]) for s in plan["stations"]]
    p, cb, mdl = boot(max(0, now + plan["clock"]))
    log = []  # authentic frames sent so far
    held = []
    forged = False
    for st in plan["steps"]:
        k = st["k"]
        if k == "restart":
            ctx.fault("receiver_restart")
            ctx.probe("restart")
            p, cb, mdl = boot(max(0, now - st["lag"]))
            continue
        now += st["dt"]
        ctx.at((now - plan["base"]) * 1e-5)
        s = st["s"] % len(clk)
        clk[s] += st["dt"]
        S = plan["stations"][s]
        m = tbl[st["id"]]
        pay = G.rand_payload(random.Random(st["pl"]), m)

        def authentic(ts):
            return frame2(m, pay, st["seq"], S["sys"], S["comp"], S["link"], ts % 2**48)
        if k in ("replay", "alter", "strip", "relabel", "damage") and not log:
            k = "fresh"
        if k == "fresh":
            clk[s] += 1
            f = authentic(clk[s])
            log.append(f)
            if st["b"] % 7 == 0:  # held back by the line, delivered by a later step
                held.append(f)
                ctx.fault("delayed")
                continue
        elif k == "equal":  # another message with the timestamp of the last one
            f = authentic(clk[s])
            log.append(f)
            ctx.probe("equal_timestamp")
        elif k == "step1":
            cur = mdl.streams.get((S["link"], S["sys"], S["comp"]), clk[s])
            clk[s] = max(clk[s], cur + 1)
            f = authentic(cur + 1)
            log.append(f)
        elif k == "delayed":
            if not held:
                continue
            f = held.pop(st["pick"] % len(held))
        elif k == "replay":
            f = log[-1 - st["pick"] % min(len(log), 6)]
            ctx.fault("replay")
        elif k == "forge":
            ts = {"now": clk[s] + 1, "future": now + MIN, "far": 2**48 - 1, "zero": 0}[st["ts"]]
            f = frame2(m, pay, st["seq"], S["sys"], S["comp"], S["link"], ts % 2**48, EVIL)
            right = hashlib.sha256(KEY + f[:-6]).digest()[:6]
            cut = 1 + st["b"] % 5  # a guess may be partly right
            f = f[:-6] + {"key": f[-6:], "zero": bytes(6), "ones": b"\xff" * 6, "head": right[:cut] + bytes(6 - cut), "tail": bytes(6 - cut) + right[-cut:],
                          "other": hashlib.sha256(f[:-6]).digest()[:6]}[st.get("sig", "key")]
            if f[-6:] == right:
                continue
            forged = True
            ctx.fault("forge")
        elif k == "alter":  # any byte but those that fix the framing, checksum made right again
            g = bytearray(log[-1 - st["pick"] % min(len(log), 6)])
            body = [i for i in range(3, len(g)) if i not in (7, 8, 9) and i not in (10 + g[1], 11 + g[1])]
            g[body[st["b"] % len(body)]] ^= st["x"]
            f = recrc(tbl, g)
            ctx.fault("alter")
        elif k == "relabel":  # timestamp and link id taken from a newer time, signature kept
            g = bytearray(log[-1 - st["pick"] % min(len(log), 6)])
            g[-12:-6] = struct.pack("<Q", (clk[s] + 50) % 2**48)[:6]
            f = bytes(g)
            ctx.fault("relabel")
        elif k == "strip":
            g = bytearray(log[-1 - st["pick"] % min(len(log), 6)])
            g[2] = 0
            f = recrc(tbl, bytes(g[:-13]))
            ctx.fault("strip_signature")
        elif k == "v1":
            if m.id > 255:
                continue
            f = wire.frame(m, pay, st["seq"], S["sys"], S["comp"])
            ctx.fault("unsigned")
        else:  # damage
            g = bytearray(log[-1 - st["pick"] % min(len(log), 6)])
            g[4 + st["b"] % (6 + g[1])] ^= st["x"]
            f = bytes(g)
            ctx.fault("damage")
        known = f[0] == 0xFD and f[2] & 1 and (f[-13], f[5], f[6]) in mdl.streams
        del asked[:]
        ncb = len(cb)
        ok, signed, link, ask, why = mdl.arrive(tbl, f, policy)
        got = _feed(ctx, p, mod, api, f, st["cut"])
        ctx.check((got is not None) == ok, "delivered" if not ok else "refused",
                  lambda: f"{k} frame ({why}) {f.hex()} {'was delivered' if not ok else 'was not delivered'}")
        if ok:
            ctx.check(bytes(got.get_msgbuf()) == f and got.get_msgId() == (f[7] | f[8] << 8 | f[9] << 16 if f[0] == 0xFD else f[5]), "content",
                      "delivered message is not the frame that arrived")
            ctx.check(bool(got.get_signed()) == signed and (not signed or got.get_link_id() == link), "mark",
                      lambda: f"{why} message marked signed={got.get_signed()} link={got.get_link_id()}")
            if api != "decode":
                ctx.check(len(cb) == ncb + 1 and cb[-1] is got, "callback", "delivered message did not reach the callback once")
        elif api != "decode":
            ctx.check(not [x for x in cb[ncb:] if x.get_type() != "BAD_DATA"], "callback", f"a refused {why} message reached the callback")
        ctx.check(asked == ([] if ask is None else [ask]), "policy", lambda: f"{why}: the policy was asked {asked}, expected {ask}")
        g = p.signing
        want = (mdl.sig, mdl.good, mdl.bad, mdl.uns, mdl.rej)
        cnt = (g.sig_count, g.goodsig_count, g.badsig_count, g.unsigned_count, g.reject_count)
        ctx.check(cnt == want, "counters", lambda: f"after {k} ({why}): signed/good/bad/unsigned/rejected {cnt} expected {want}")
        ctx.check(g.timestamp == mdl.now, "clock", lambda: f"after {k} ({why}): own timestamp {g.timestamp} expected {mdl.now}")
        # probes
        if why == "authentic":
            ctx.probe("authentic")
            if forged:
                ctx.probe("authentic_after_forgery")
        elif why in ("damaged", "no_key"):
            ctx.probe(why)
        elif ok:
            ctx.probe("unsigned_allowed" if why == "unsigned" else "bad_signature_allowed")
        else:
            ctx.probe({"unsigned": "unsigned_refused", "late": "new_stream_late_refused", "equal": "replay_refused", "old": "replay_refused" if k == "replay" else "old_refused",
                       "forged": "altered_refused" if k in ("alter", "relabel") else "forged_refused"}[why])
        ctx.event(k, why, ok, mdl.now, f[-6:].hex())
        ctx.state(k, why, ok, bool(known), plan["policy"], api, plan["dialect"], min(len(mdl.streams), 3), mdl.now > 2**32)


def _feed(ctx, p, mod, api, f, cut):
    """The message delivered for this frame, or None."""
    def guarded(fn, x):
        try:
            return fn(x)
        except mod.MAVError:
            return None
    if api == "decode":
        return ctx.call("decode", guarded, p.decode, array("B", f))
    if api == "buffer":
        out = []
        for part in ([f[:cut], f[cut:]] if cut else [f]):
            out += ctx.call("parse_buffer", p.parse_buffer, part) or []
    elif api == "char":
        out = []
        for b in f:
            m = ctx.call("parse_char", p.parse_char, bytes([b]))
            if m is not None:
                out.append(m)
    else:
        out = []
        for part in ([f[:cut], f[cut:]] if cut else [f]):
            m = ctx.call("parse_char", guarded, p.parse_char, part)
            if m is not None:
                out.append(m)
    out = [m for m in out if m.get_type() != "BAD_DATA"]
    ctx.check(len(out) <= 1, "twice", f"one frame delivered {len(out)} messages")
    return out[0] if out else None
