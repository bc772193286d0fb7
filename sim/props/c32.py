"""C32: mission telemetry is packed from the samples due at each instant, numbered without gaps, whatever the sensors do."""
import io
import os
import pickle
import struct

from sim import repo  # noqa: F401
from sim import experiment as X
from sim import wire
import numpy as np
import scipy.io

RUNS = {"quick": 2000, "thorough": 20000}
BATCH = 4
RULE = ("one evaluation = one simulated mission (five sensor streams, five series of transmissions, two files); distinct = (sensor behaviour per "
        "stream, transmissions, fault kind and place, outcome)")
REAL = ["runs/HC_eilat_July_2018/data/msg_creator.py, executed as __main__", "mavlink_utils.HC_dialect (packing), scipy.io, pickle"]
STUBS = ["the recording of the mission (simulated sensors in the layout the script reads)", "file opens (seam)"]
ASSUMPTIONS = ["time stamps of a sensor never run backwards", "the mission is that up to data point 16521 of the position stream, as the script says",
               "values fit their message fields", "sampled missions, not exhaustive"]
PROBES = ["steady", "jitter", "gap", "stopped", "late", "repeated_stamp", "sample_exactly_due", "numbers_wrap", "one_transmission", "nan", "fault_when_saving",
          "crash", "whole_series_boundary"]

HOME = "runs/HC_eilat_July_2018/data"
FILE = "msg_creator.py"
LAST = 16521
DELAYS = [20000, 50000, 100000, 200000, 300000]
# stream -> (message id, key in a transmission, cells in the recording, columns of the recording after the time, as fields of the message)
STREAMS = {
    "global_position_int": (33, "position", 2, ["lat", "lon", "alt", "relative_alt", "bottom_clearnce", "depth", "vx", "vy", "vz", "hdg"]),
    "pinger_data": (234, "pinger_data", 1, ["range", "azimuth"]),
    "attitude": (30, "attitude", 2, ["roll", "pitch", "yaw", "rollspeed", "pitchspeed", "yawspeed"]),
    "svs_status": (212, "svs", 1, ["Speed_of_Sound", "Depth", "Reserved", "Temperature", "Status"]),
    "chamber_status": (218, "chamber_status", 1, ["temperature", "humidity", "chamber_num", "pressure"]),
}


# ------------------------------------------------------------------ generation
def gen(rng, tier):
    plan = {"seed": rng.randrange(1 << 30), "start": rng.choice([0, 1, 12345, rng.randrange(1 << 20), 20000 * rng.randrange(1, 500)]), "ticks": [0],
            "span": rng.choice([1, 19999, 20000, 20001, 100000, 300000, 300001, 600000, rng.randrange(1, 1500000), rng.randrange(1, 1500000)]),
            "sensors": {}}
    for s in STREAMS:
        plan["sensors"][s] = {"mode": rng.choice(["steady", "jitter", "jitter", "gap", "stopped", "late", "repeated", "sparse"]), "seed": rng.randrange(1 << 30),
                              "nan": rng.random() < 0.15}
    plan["sensors"]["global_position_int"]["mode"] = rng.choice(["steady", "jitter", "gap", "repeated"])
    r = rng.random()
    if r < 0.08:
        plan["fault"] = {"kind": "open", "at": rng.randrange(2)}
    elif r < 0.18:
        plan["fault"] = {"kind": "write", "at": rng.randrange(2), "room": rng.choice([0, 1, 500, 4000])}
    elif r < 0.22:
        plan["fault"] = {"kind": "crash", "at": rng.randrange(2)}
    return plan


LIST_KEYS = []


def simplify(plan):
    if plan.get("fault"):
        yield {k: v for k, v in plan.items() if k != "fault"}
    for s, v in plan["sensors"].items():
        for k, d in (("mode", "steady"), ("nan", False)):
            if v[k] != d:
                yield dict(plan, sensors=dict(plan["sensors"], **{s: dict(v, **{k: d})}))
    if plan["span"] > 1:
        for v in (plan["span"] // 2, plan["span"] - 20000):
            if 0 < v < plan["span"]:
                yield dict(plan, span=v)
    if plan["start"]:
        yield dict(plan, start=0)


def stamps(name, v, start, span):
    """When a sensor spoke."""
    r = np.random.RandomState(v["seed"] % 2**32)
    pos = name == "global_position_int"
    mode = v["mode"]
    n = LAST + 1 if pos else int(r.choice([40, 200, 900]))
    if mode == "sparse":
        n = int(r.choice([1, 2, 5]))
    if mode == "steady":
        t = np.linspace(0, span, n)
    elif mode == "repeated":
        t = np.sort(r.randint(0, max(2, span // 700), size=n)) * 700.0
    else:
        t = np.sort(r.uniform(0, span, size=n))
    if mode == "gap":
        a, b = np.sort(r.uniform(0, span, size=2))
        t = np.where((t > a) & (t < b), b, t)
    if mode == "stopped":
        t = np.sort(t) * r.uniform(0.1, 0.9)
    elif mode == "late":
        t = t * 0.4 + 0.6 * span
    if pos:
        t[0], t[-1] = 0, span
        t = np.concatenate([t, span + np.sort(r.uniform(0, 50000, size=int(r.choice([0, 0, 7, 300]))))])
    elif mode not in ("stopped",) and r.rand() < 0.5:
        t = np.append(t, span + 25000)
    t = np.round(t).astype(np.int64) + start
    if not pos and t.size > 3 and r.rand() < 0.5:  # some exactly when due
        j = r.choice(t.size, size=min(4, t.size), replace=False)
        t[j] = start + (t[j] - start) // 20000 * 20000
    return np.sort(t).astype(np.uint32)


class Mission:
    def __init__(self, plan):
        tbl = wire.table()
        self.plan = plan
        self.cols = {}
        for s, (mid, key, cells, cols) in STREAMS.items():
            v = plan["sensors"][s]
            t = stamps(s, v, plan["start"], plan["span"])
            r = np.random.RandomState((v["seed"] + 1) % 2**32)
            ty = {n: k for n, k, _ in tbl[mid].wire_fields}
            out = {"time_boot_ms": t}
            for c in cols:
                k = ty[c]
                if k == "float":
                    x = r.uniform(-500, 500, size=t.size)
                    if v["nan"]:
                        x[r.rand(t.size) < 0.2] = np.nan
                elif k == "int32_t":
                    x = r.randint(-2**31, 2**31 - 1, size=t.size).astype(np.int32)
                else:
                    x = r.randint(0, {"uint8_t": 256, "uint16_t": 65536}[k], size=t.size).astype({"uint8_t": np.uint8, "uint16_t": np.uint16}[k])
                out[c] = x
            self.cols[s] = out
        p = self.cols["global_position_int"]["time_boot_ms"].astype(np.int64)
        self.begin, self.end = int(p[0]), int(p[LAST])

    def prepare(self, root):
        mat = {}
        for s, (_, _, cells, cols) in STREAMS.items():
            rec = {k: v.reshape(-1, 1) for k, v in self.cols[s].items()}
            c = np.empty((1, cells), dtype=object)
            for i in range(cells):
                c[0, i] = rec if i == cells - 1 else {"note": "raw"}
            mat[s] = c
        scipy.io.savemat(os.path.join(root, "20_08_2018_13_12_11.mat"), mat)

    def due(self, s, t):
        """(field values in wire order) of the sample due at t: the first not older, or the last one there is."""
        c = self.cols[s]
        ts = c["time_boot_ms"].astype(np.int64)
        later = np.flatnonzero(ts >= t)
        i = int(later[0]) if later.size else ts.size - 1
        m = wire.table()[STREAMS[s][0]]
        return [c[n][i].item() for n, _, _ in m.wire_fields], bool(later.size), int(ts[i]) == t


def execute(plan, ctx):
    ms = Mission(plan)
    fault = plan.get("fault") or {}
    kind = fault.get("kind")
    for s, v in plan["sensors"].items():
        if v["mode"] in ("steady", "jitter", "gap", "late"):
            ctx.probe(v["mode"])
        ts = ms.cols[s]["time_boot_ms"]
        if (np.diff(ts) == 0).any():
            ctx.probe("repeated_stamp")
        if v["nan"]:
            ctx.probe("nan")
    r = X.run(FILE, [], plan, None, ms.prepare, HOME)
    ctx.event("run", r.outcome, r.code, r.writes, sorted(f for f in r.files))
    ctx.check(not r.hung, "hang", "packing the mission did not end")
    hit = bool(r.hit) or r.outcome[0] == "crash"
    if kind and hit:
        ctx.fault({"open": "file refused", "write": "disk full mid-write", "crash": "run killed"}[kind])
    ctx.state(tuple(v["mode"] for v in plan["sensors"].values()), (ms.end - ms.begin) // 20000, kind, fault.get("at"), r.outcome[0])
    ctx.at((ms.end - ms.begin) / 1000)
    for s, v in plan["sensors"].items():
        if v["mode"] in ("stopped", "gap", "late", "sparse"):
            ctx.fault({"stopped": "sensor stops", "gap": "sensor stalls", "late": "sensor starts late", "sparse": "sensor nearly silent"}[v["mode"]])
    if hit and kind == "crash":
        ctx.probe("crash")
        return
    if hit and kind:
        expect = {"open": "PermissionError", "write": "OSError"}[kind]
        ctx.probe("fault_when_saving")
        ctx.check(r.outcome[0] == "raised" and r.outcome[1] == expect, "silent", lambda: f"{kind} failed, and packing ended with {r.outcome}")
        return
    ctx.check(r.outcome[0] == "ok", f"raised:{r.outcome[1]}", lambda: f"packing failed with {r.outcome[1]}: {r.outcome[2]}")
    ctx.check("hc_to_ship.pickle" in r.files and "binary_buffers.mat" in r.files, "files", lambda: f"files left: {sorted(r.files)}")
    got = pickle.loads(r.files["hc_to_ship.pickle"])
    ctx.check(sorted(got) == sorted(str(d) for d in DELAYS), "series", lambda: f"series {sorted(got)}")
    bins = scipy.io.loadmat(io.BytesIO(r.files["binary_buffers.mat"]))
    tbl = wire.table()
    for d, nm in zip(DELAYS, ("two", "five", "ten", "twenty", "thirty")):
        due = list(range(ms.begin, ms.end, d))
        msgs = got[str(d)]
        if len(due) == 1:
            ctx.probe("one_transmission")
        if (ms.end - ms.begin) % d == 0:
            ctx.probe("whole_series_boundary")
        ctx.check([int(m["timestamp"]) for m in msgs] == due, "instants", lambda: f"every {d}: transmissions at {[int(m['timestamp']) for m in msgs][:5]}... "
                  f"({len(msgs)}), due at {due[:5]}... ({len(due)})")
        seq = None
        for t, m in zip(due, msgs):
            raw, off = bytes(m["bin"]), 0
            for s, (mid, key, _, _) in STREAMS.items():
                spec = tbl[mid]
                vals, there, exact = ms.due(s, t)
                if not there:
                    ctx.probe("stopped")
                if exact:
                    ctx.probe("sample_exactly_due")
                n = spec.size + 8
                part = raw[off:off + n]
                off += n
                ctx.check(len(part) == n, "frames", lambda: f"every {d}: transmission at {t} is too short for {spec.name}")
                q = part[2]
                ctx.check(seq is None or q == (seq + 1) % 256, "numbers", lambda: f"every {d}: {spec.name} at {t} has number {q} after {seq}")
                if seq == 255:
                    ctx.probe("numbers_wrap")
                seq = q
                want = wire.frame(spec, struct.pack(spec.fmt, *vals), q, 1, 1)
                ctx.check(part == want, "sample", lambda: f"every {d}: {spec.name} at {t} is {part.hex()}; the sample due is {dict(zip([x[0] for x in spec.wire_fields], vals))}")
                o = m[key]
                for (name, _, _), v in zip(spec.wire_fields, vals):
                    g = getattr(o, name)
                    g = g.item() if isinstance(g, np.generic) else g
                    ctx.check(g == v or (g != g and v != v), "sample", lambda: f"every {d}: {key} at {t}: {name} is {g} instead of {v}")
            ctx.check(off == len(raw), "frames", lambda: f"every {d}: transmission at {t} has {len(raw) - off} bytes more")
        b = np.asarray(bins[f"{nm}_sec_delay_binary"])
        ctx.check(b.shape[0] == len(msgs) and all(bytes(x.astype(np.uint8).tolist()) == bytes(m["bin"]) for x, m in zip(b, msgs)), "mat",
                  lambda: f"every {d}: the .mat file holds other buffers than the pickle")
