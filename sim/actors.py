"""Independent parties of one process: every class of /repo that keeps state between calls, driven by a plan one call at a time.

spec (pure JSON) -> Actor;  args(i): fresh arguments of call i;  invoke(i, args): the call;  observe(i, result): everything a user can see
of it, as bytes."""
import enum
import hashlib
import struct

import numpy as np

from sim import gen as G
from sim import link, rx, wire
from sim.props import _model as M
from decoders.turbo import TurboDecoder
from inference import DUDE, EMLE, BufferClassifier, BufferModel, BufferSegmentation, OnlineDude
from inference.buffer_segmentation import BufferStructure
from mavlink_utils import HC_dialect, minimal_dialect
from protocol_meta import dialect_meta as meta

MODS = {"HC_dialect": HC_dialect, "minimal_dialect": minimal_dialect}


def flat(x, h=None):
    """Canonical digest of a result."""
    top = h is None
    if top:
        h = hashlib.sha256()
    if isinstance(x, np.ndarray) and x.dtype != object:
        h.update(b"A" + str(x.dtype).encode() + str(x.shape).encode() + np.ascontiguousarray(x).tobytes())
    elif isinstance(x, (list, tuple, np.ndarray)):
        h.update(f"L{len(x)}".encode())
        for y in x:
            flat(y, h)
    elif isinstance(x, dict):
        h.update(f"D{len(x)}".encode())
        for k in x:
            flat(k, h)
            flat(x[k], h)
    elif isinstance(x, enum.Enum):
        h.update(b"E" + x.name.encode())
    elif hasattr(x, "get_msgbuf"):
        h.update(b"M" + x.get_type().encode() + bytes(x.get_msgbuf() or b"") + bytes(getattr(x, "data", b"") or b""))
        if x.get_type() != "BAD_DATA":
            flat([getattr(x, n) for n in x.fieldnames], h)
    elif isinstance(x, (bytes, bytearray)):
        h.update(b"B" + bytes(x))
    elif isinstance(x, (float, np.floating)):
        h.update(b"F" + struct.pack("<d", float(x)))
    else:
        h.update(b"R" + repr(x).encode())
    return h.hexdigest()[:24] if top else None


class Actor:
    outs_claimed = False

    def __init__(self, spec):
        self.spec = spec
        self.build(spec)

    def n(self):
        return len(self.spec["steps"])

    def outs(self, res):
        """Arrays of the result a caller may overwrite."""
        return []

    def observe(self, i, res):
        return flat(res)


class Rx(Actor):
    def build(self, s):
        self.r = link.Receiver(s["cfg"])

    def args(self, i):
        st = self.spec["steps"][i]
        truth, soft = link.soft_of(self.r, st)
        self.truth = truth
        return [self.r.word_of(soft), np.flatnonzero((soft < 0).astype(int) != truth)]

    def invoke(self, i, a):
        st = self.spec["steps"][i]
        self.r.dec.arm(st["out"], self.truth, rx.mis_word(self.r.code, st["mis"]))
        return self.r.call(a[0], a[1])

    def observe(self, i, res):
        return flat([list(res), [q.word for q in self.r.dec.passes], [q.priors for q in self.r.dec.passes]])

    def outs(self, res):
        return [np.asarray(res[0])]

    def held(self):
        """Arrays handed over at construction."""
        return [self.r.model_in] if self.r.model_in is not None else []


class Turbo(Actor):
    def build(self, s):
        self.r = link.Receiver(s["cfg"])
        self.second = rx.SoftStub().setup(self.r.code)
        self.t = TurboDecoder(self.r.obj, self.second, s["rounds"], s["debug"])

    args = Rx.args

    def invoke(self, i, a):
        st = self.spec["steps"][i]
        mis = rx.mis_word(self.r.code, st["mis"])
        self.r.dec.arm(st["out"], self.truth, mis)
        self.second.arm(st["out"][1:] or st["out"], self.truth, mis)
        return self.t.decode_buffer(a[0], a[1])

    def observe(self, i, res):
        return flat([list(res), [q.word for q in self.r.dec.passes + self.second.passes]])

    def outs(self, res):
        return [np.asarray(res[0])]


class Parser(Actor):
    def build(self, s):
        class Null:
            def write(self, b):
                pass
        self.m = MODS[s["dialect"]].MAVLink(Null(), 1, 1)
        self.m.robust_parsing = True

    def args(self, i):
        return [bytes.fromhex(self.spec["steps"][i])]

    def invoke(self, i, a):
        return self.m.parse_buffer(a[0])

    def observe(self, i, res):
        m = self.m
        return flat([res, m.total_packets_received, m.total_bytes_received, m.total_receive_errors])


class Sender(Actor):
    def build(self, s):
        self.w = w = []

        class T:
            def write(self, b):
                w.append(bytes(b))
        self.m = MODS[s["dialect"]].MAVLink(T(), srcSystem=s["sys"], srcComponent=1)

    def args(self, i):
        mid, hexp = self.spec["steps"][i]
        t = wire.table(self.spec["dialect"])[mid]
        by = dict(zip([f[0] for f in t.wire_fields], struct.unpack(t.fmt, bytes.fromhex(hexp))))
        return [[by[f[0]] for f in t.fields]]

    def invoke(self, i, a):
        mid = self.spec["steps"][i][0]
        self.m.send(MODS[self.spec["dialect"]].mavlink_map[mid](*a[0]))
        return None

    def observe(self, i, res):
        return flat([self.w[-1:], self.m.seq, self.m.total_packets_sent, self.m.total_bytes_sent])


class Online(Actor):
    def build(self, s):
        self.hold = [np.array(s["pi"]), np.array(s["loss"])]
        self.d = (OnlineDude if s["type"] == "online" else DUDE)(self.hold[0], self.hold[1], s["k"], s["hard"], s["a"])

    def args(self, i):
        return [np.array(self.spec["steps"][i], dtype=np.int64)]

    def invoke(self, i, a):
        if not self.spec["steps"][i]:
            return self.d.reset() if hasattr(self.d, "reset") else None
        return self.d.denoise_sequence(a[0])

    def held(self):
        return self.hold

    def outs(self, res):
        return [res[0]] if res is not None and isinstance(res[0], np.ndarray) else []


class Emle(Actor):
    def build(self, s):
        self.d = EMLE(s["f"], s["threshold"], s["window"], s["center"], s["slope"], s["hard"], s["soft_input"])

    def args(self, i):
        return [np.array(self.spec["steps"][i], dtype=float if self.spec["soft_input"] else np.int64)]

    def invoke(self, i, a):
        return self.d.denoise_buffer(a[0]) if a[0].ndim == 1 else self.d.denoise_sequence(a[0])

    def outs(self, res):
        return [res[0]] if isinstance(res[0], np.ndarray) else []


class Classifier(Actor):
    def build(self, s):
        self.c = BufferClassifier(s["training"], s["k"], s["classify_dist"], s["merge_dist"], s["weight_scheme"])

    def args(self, i):
        return [np.array(self.spec["steps"][i], dtype=np.int64)]

    def invoke(self, i, a):
        return self.c.classify(a[0])

    def observe(self, i, res):
        return flat([int(res), [[c.uid, len(c), np.array(c.dist)] for c in self.c.clusters]])


class FieldsModel(Actor):
    def build(self, s):
        self.m = BufferModel(window_size=s["window"])

    def args(self, i):
        st = self.spec["steps"][i]
        b = bytes.fromhex(st["hex"])
        return [np.append(rx.bits_of(b), np.ones(st.get("tail", 0), dtype=np.int64)) if st["bits"] else b, {int(a): m for a, m in st["structure"]}]

    def invoke(self, i, a):
        st = self.spec["steps"][i]
        if st["op"] == "learn":
            self.m.add_buffer(a[0], a[1])
            return None
        return self.m.predict(a[0], a[1])

    def observe(self, i, res):
        return flat([res, repr(M.sig(self.m)), [(n, float(self.m[n].mean), float(self.m[n].std)) for n in self.m.fields_names()]])


class Segmenter(Actor):
    def build(self, s):
        self.b = BufferSegmentation(meta.protocol_parser)
        self.known = []

    def args(self, i):
        return [bytes.fromhex(self.spec["steps"][i])]

    def invoke(self, i, a):
        parts, val, st = self.b.segment_buffer(a[0])
        keep = BufferStructure(st)
        ok = keep.adheres_to_structure(a[0])
        if ok:
            keep.register_buffer(a[0])
        self.known.append(keep)
        fields = self.b.get_msg_fields(a[0]) if st else None
        return [list(parts), val, st, self.b.bad_buffer_parts(a[0], parts), self.b.bad_buffer_idx(a[0], parts), ok, keep.reception_count,
                len(keep.field_models), fields]

    def outs(self, res):
        return [res[1]]


TYPES = {"rx": Rx, "turbo": Turbo, "parser": Parser, "sender": Sender, "online": Online, "batch": Online, "emle": Emle, "classifier": Classifier,
         "fields": FieldsModel, "segmenter": Segmenter}


def make(spec):
    return TYPES[spec["type"]](spec)


# ------------------------------------------------------------------- specs
def bin_channel(rng):
    f = rng.choice([0.01, 0.07, 0.2, 0.35])
    return [[1 - f, f], [f, 1 - f]]


def rand_spec(rng, types=None, steps=None, kinds=None, max_bytes=None):
    ty = rng.choice(types or ["rx", "rx", "rx", "rx", "rx", "turbo", "parser", "sender", "online", "batch", "emle", "classifier", "fields", "segmenter"])
    k = steps or rng.randrange(1, 9)
    if ty in ("rx", "turbo"):
        kind = rng.choice(["BW", "WGT"] if ty == "turbo" else (kinds or link.KINDS))
        lays, total = rx.make_layouts(rng, rng.choice([1, 1, 2]), max_bytes or rng.choice([14, 20, 30]))
        over = {"classifier_training": rng.choice([2, 3]), "classifier_training_size": rng.choice([2, 3])}
        if rng.random() < 0.7:
            over.update(conf_center=rng.choice([0, 1]), conf_slope=3.0, min_data=rng.choice([0, 1, 2]), b_conf_center=0, a_conf_center=0,
                        entropy_threshold=rng.choice([0.613, 1.1]))
        cfg = link.rand_cfg(rng, kind, lays, total, 16, **over)
        st = rx.rand_history(rng, k, lays, total, 16)
        s = {"type": ty, "cfg": cfg, "steps": st}
        if ty == "turbo":
            s.update(rounds=rng.choice([1, 2]), debug=rng.random() < 0.5)
        return s
    if ty in ("parser", "sender"):
        dialect = rng.choice(["HC_dialect", "HC_dialect", "minimal_dialect"])
        tbl = wire.table(dialect)
        ms = [m for _, m in sorted(tbl.items()) if not m.arrays and m.size <= 24]
        if ty == "sender":
            return {"type": ty, "dialect": dialect, "sys": rng.randrange(1, 200),
                    "steps": [[m.id, G.rand_payload(rng, m).hex()] for m in (rng.choice(ms) for _ in range(k))]}
        b = b""
        for _ in range(k):
            m = rng.choice(ms)
            b += wire.frame(m, G.rand_payload(rng, m, raw=True), rng.randrange(256), 1, 1) if rng.random() < 0.8 else bytes(rng.randrange(256) for _ in range(7))
        b = bytearray(b)
        for _ in range(rng.choice([0, 1, 3])):
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        cuts = sorted(rng.randrange(len(b)) for _ in range(k))
        out = [bytes(b[i:j]).hex() for i, j in zip([0] + cuts, cuts + [len(b)])]
        return {"type": ty, "dialect": dialect, "steps": out}
    if ty in ("online", "batch"):
        a = rng.choice([2, 2, 3])
        pi = bin_channel(rng) if a == 2 else [[0.8, 0.1, 0.1], [0.05, 0.9, 0.05], [0.1, 0.2, 0.7]]
        return {"type": ty, "a": a, "pi": pi, "loss": [[int(i != j) for j in range(a)] for i in range(a)], "k": rng.choice([1, 2]),
                "hard": a > 2 or rng.random() < 0.5,
                "steps": [[rng.randrange(a) for _ in range(rng.choice([5, 9, 30]))] if ty == "batch" or rng.random() < 0.9 else [] for _ in range(k)]}
    if ty == "emle":
        n = rng.choice([4, 12])
        soft = rng.random() < 0.6
        base = [rng.randrange(2) for _ in range(n)]
        rows = []
        for _ in range(k):
            def row():
                b = [x ^ (rng.random() < 0.1) for x in base]
                return [round((1 - 2 * x) * (rng.random() + 0.1), 4) for x in b] if soft else [int(x) for x in b]
            rows.append(row() if rng.random() < 0.7 else [row(), row()])
        return {"type": ty, "f": 0.07, "threshold": rng.choice([0.561, 1.1]), "window": rng.choice([0, 2, 4]), "center": rng.choice([0, 2]), "slope": 2.0,
                "hard": rng.random() < 0.4, "soft_input": soft, "steps": rows}
    if ty == "classifier":
        n = rng.choice([4, 16])
        protos = [[rng.randrange(2) for _ in range(n)] for _ in range(rng.choice([1, 2, 3]))]
        return {"type": ty, "training": rng.choice([2, 3, 5]), "k": rng.choice([1, 2, 3]), "classify_dist": rng.choice(["LL", "hamming"]),
                "merge_dist": rng.choice(["KlDiv", "Hel"]), "weight_scheme": rng.choice(["sqrt", "linear", "None"]),
                "steps": [[int(x ^ (rng.random() < 0.1)) for x in rng.choice(protos)] for _ in range(k + 3)]}
    lays, total = rx.make_layouts(rng, rng.choice([1, 2]), rng.choice([20, 30]))
    if ty == "fields":
        st = []
        for i in range(k + 1):
            b = rng.choice(lays).emit(rng)
            op = "learn" if i == 0 or rng.random() < 0.6 else "predict"
            # a received word may go on after the messages (parity), and need not end on a byte
            st.append({"op": op, "hex": b.hex(), "bits": rng.random() < 0.5, "tail": rng.choice([0, 0, 8, 3, 19]) if op == "learn" else 0,
                       "structure": [[i, m.id] for i, m in wire.segment(b)]})
        return {"type": ty, "window": rng.choice([None, 2, 5]), "steps": st}
    st = []
    for _ in range(k):
        b = bytearray(rng.choice(lays).emit(rng))
        for _ in range(rng.choice([0, 0, 1, 3])):
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        st.append(bytes(b).hex())
    return {"type": "segmenter", "steps": st}
