"""C03: the sender numbers each transmitted message once, even when writes fail."""
import struct

from sim import repo  # noqa: F401
from sim import gen as G
from sim import wire
from mavlink_utils import HC_dialect, minimal_dialect

RUNS = {"quick": 30000, "thorough": 400000}
RULE = ("one evaluation = one simulated session of sends, transport failures, bad arguments and retries over 1-3 links; distinct = (dialect, "
        "sequence number class, outcome, API form, message size class, previous outcome) per send")
REAL = ["mavlink_utils.HC_dialect / minimal_dialect: MAVLink.send, *_send, *_encode, MAVLink_message.pack, every message class used"]
STUBS = ["transport object (simulated: accepts, refuses); oracle: own frame encoder and message table"]
ASSUMPTIONS = ["a transport either accepts a whole write or raises (the write seam of this code has no partial result)",
               "MAVLink v1 without signing, as the dialects are generated", "sampled, not exhaustive"]
PROBES = ["sent", "write_refused", "bad_value_refused", "retry_after_failure", "sequence_wrapped", "same_object_resent", "callback_checked",
          "two_links", "v1_framing_forced", "listener_raised", "listener_sent"]
MODS = {"HC_dialect": HC_dialect, "minimal_dialect": minimal_dialect}
ERRS = {"oserror": OSError(5, "I/O error"), "timeout": TimeoutError("timed out"), "broken": BrokenPipeError(32, "broken pipe"),
        "nospace": OSError(28, "No space left on device"), "value": ValueError("closed file")}


def _vals(rng, m):
    vals = []
    for name, ty, n in m.fields:
        if n and ty == "char":
            vals.append(["s", bytes(rng.choice(b"ABCxyz019") for _ in range(rng.randrange(n + 1))).hex()])
        elif n:
            vals.append(["a", [G.rand_scalar(rng, ty) for _ in range(n)]])
        else:
            vals.append(["v", G.rand_scalar(rng, ty)])
    return vals


def gen(rng, tier):
    nl = rng.choice([1, 1, 2, 3])
    links = [{"dialect": "HC_dialect" if rng.random() < 0.7 else "minimal_dialect", "sys": rng.randrange(256), "comp": rng.randrange(256),
              "cb": rng.random() < 0.7} for _ in range(nl)]
    rate = rng.choice([0, 0.15, 0.15, 0.4])
    kinds = rng.sample(sorted(ERRS), rng.randrange(1, 4))
    steps = []
    for _ in range(rng.randrange(1, 14)):
        li = rng.randrange(nl)
        m = rng.choice([x for _, x in sorted(wire.table(links[li]["dialect"]).items())])
        st = {"link": li, "id": m.id, "vals": _vals(rng, m), "api": rng.choice(["send", "helper", "encode"]),
              "fault": rng.choice(kinds) if rng.random() < rate else None, "n": rng.choice([1] * 14 + [3, 130, 260]),
              "resend": rng.random() < 0.2, "v1": rng.random() < 0.3, "dt": rng.choice([0.01, 0.1, 1.0])}
        if rng.random() < 0.08:
            st["bad"] = True
        if links[li]["cb"] and rng.random() < 0.15:
            st["listener"] = rng.choice(["raise", "send", "send"])
        if st["fault"] or st.get("bad"):
            st["n"] = rng.choice([1, 1, 2])
        steps.append(st)
        if st["fault"] and rng.random() < 0.7:
            steps.append(dict(st, fault=rng.choice(kinds) if rng.random() < 0.3 else None, n=1, retry=True))
    return {"links": links, "steps": steps}


class Listener(Exception):
    pass


class Transport:
    def __init__(self):
        self.accepted = []
        self.fail = None

    def write(self, b):
        if self.fail is not None:
            raise self.fail
        self.accepted.append(bytes(b))


HB = (6, 8, 192, 7, 4, 3)


def _py(v, ty):
    if v[0] == "s":
        return bytes.fromhex(v[1])
    return v[1]


def execute(plan, ctx):
    links = []
    for L in plan["links"]:
        tr = Transport()
        mav = MODS[L["dialect"]].MAVLink(tr, srcSystem=L["sys"], srcComponent=L["comp"])
        st = {"tr": tr, "mav": mav, "seq": 0, "n": 0, "bytes": 0, "cb": [], "L": L, "prev": "start", "act": None}
        if L["cb"]:
            def seen(m, tag, x=None, st=st):
                st["cb"].append((m, tag, x))
                act, st["act"] = st["act"], None
                if act == "raise":
                    raise Listener("listener")
                if act == "send":
                    st["mav"].heartbeat_send(*HB)
            mav.set_send_callback(seen, len(links), x="kw")
        links.append(st)
    if len(links) > 1:
        ctx.probe("two_links")
    t = 0.0
    for st in plan["steps"]:
        if st["link"] >= len(links):
            continue
        K = links[st["link"]]
        L, mav, tr = K["L"], K["mav"], K["tr"]
        m = wire.table(L["dialect"])[st["id"]]
        vals = [_py(v, None) for v in st["vals"]]
        if st.get("bad"):
            ints = [i for i, f in enumerate(m.fields) if not f[2] and f[1] in G.RANGES]
            if not ints:
                continue
            vals[ints[-1]] = G.RANGES[m.fields[ints[-1]][1]][1] + 1
        by = {f[0]: v for f, v in zip(m.fields, vals)}
        flat = []
        for name, ty, n in m.wire_fields:
            flat.extend(by[name] if n and ty != "char" else [by[name]])
        payload = None if st.get("bad") else struct.pack(m.fmt, *flat)
        cls = MODS[L["dialect"]].mavlink_map[m.id]
        kw = {"force_mavlink1": True} if st.get("v1") else {}
        if kw:
            ctx.probe("v1_framing_forced")
        obj = None
        for rep in range(st["n"]):
            t += st["dt"]
            ctx.at(t)
            tr.fail = ERRS[st["fault"]] if st["fault"] else None
            if st["fault"]:
                ctx.fault("write_" + st["fault"])
            before = (len(tr.accepted), len(K["cb"]))
            K["act"] = act = st.get("listener")
            low = m.name.lower()
            err = None
            try:
                if st["api"] == "helper":
                    getattr(mav, low + "_send")(*vals, **kw)
                    obj = None
                else:
                    if obj is None or not st["resend"]:
                        obj = cls(*vals) if st["api"] == "send" else getattr(mav, low + "_encode")(*vals)
                    else:
                        ctx.probe("same_object_resent")
                    mav.send(obj, **kw)
            except Exception as e:  # noqa: BLE001
                err = e
            tr.fail = None
            ran, K["act"] = act if K["act"] is None else None, None
            if ran == "raise" and isinstance(err, Listener):
                err = None  # the listener's own error may reach the caller, the message was sent all the same
            if st.get("bad"):
                ctx.fault("unpackable_value")
                ctx.check(err is not None, "bad-accepted", lambda: f"{m.name}: a value its field cannot hold was accepted")
                out = "badvalue"
                ctx.probe("bad_value_refused")
            elif st["fault"]:
                ctx.check(err is ERRS[st["fault"]], "error-hidden", lambda: f"{m.name}: transport raised {ERRS[st['fault']]!r}, caller saw {err!r}")
                out = "refused"
                ctx.probe("write_refused")
            else:
                ctx.check(err is None, "raised", lambda: f"{m.name}: send raised {err!r}")
                out = "ok"
            if out == "ok":
                want = wire.frame(m, payload, K["seq"], L["sys"], L["comp"])
                got = tr.accepted[before[0]:]
                wants = [want]
                if ran == "raise":
                    ctx.fault("listener_raises")
                    ctx.probe("listener_raised")
                if ran == "send":
                    ctx.fault("listener_sends")
                    ctx.probe("listener_sent")
                    hb = wire.table(L["dialect"])[0]
                    by = dict(zip([f[0] for f in hb.fields], HB))
                    wants.append(wire.frame(hb, struct.pack(hb.fmt, *[by[f[0]] for f in hb.wire_fields]), (K["seq"] + 1) % 256, L["sys"],
                                            L["comp"]))
                ctx.check(got == wants, "frame", lambda: f"{m.name} seq {K['seq']}: wrote {[g.hex() for g in got]} expected "
                          f"{[w.hex() for w in wants]}")
                if K["prev"] in ("refused", "badvalue"):
                    ctx.probe("retry_after_failure")
                K["seq"] = (K["seq"] + len(wants)) % 256
                K["n"] += len(wants)
                K["bytes"] += sum(map(len, wants))
                ctx.probe("sent")
                if K["n"] > 256:
                    ctx.probe("sequence_wrapped")
            else:
                ctx.check(len(tr.accepted) == before[0], "frame", "bytes reached the transport for a failed send")
            for J in links:  # failures and sends on one link leave the others alone
                ctx.check(J["mav"].seq == J["seq"], "seq", lambda: f"sequence number {J['mav'].seq} expected {J['seq']} after {out}")
                ctx.check(J["mav"].total_packets_sent == J["n"] and J["mav"].total_bytes_sent == J["bytes"], "counters",
                          lambda: f"sent counters {J['mav'].total_packets_sent}/{J['mav'].total_bytes_sent} expected {J['n']}/{J['bytes']}")
            ncb = before[1] + (len(wants) if out == "ok" and L["cb"] else 0)
            ctx.check(len(K["cb"]) == ncb, "callback", lambda: f"{len(K['cb'])} send notifications, expected {ncb} after {out}")
            if ncb and out == "ok" and L["cb"]:
                c = K["cb"][before[1]]
                ctx.check(c[0].get_msgId() == m.id and c[1] == st["link"] and c[2] == "kw", "callback", "send notification for another message")
                ctx.probe("callback_checked")
            ctx.event(st["link"], m.id, out, K["seq"])
            ctx.state(L["dialect"], K["seq"] // 32, out, ran, st["api"], m.id, K["prev"], L["cb"])
            K["prev"] = out
