"""C30: a field-trial analysis accounts for every recorded reception, whatever the recordings hold and whatever fails."""
import io
import lzma
import os
import pickle
import random
import shlex
import struct

from sim import repo  # noqa: F401
from sim import experiment as X
from sim import wire
import numpy as np
import scipy.io
from sim.props.c29 import PLAIN, ENT, RECT, NR, CE, Recorded, close, fresh, run_dirs, same, same_answer

RUNS = {"quick": 480, "thorough": 4000}
BATCH = 2
RULE = ("one evaluation = one simulated analysis (recordings, decodings, files) and its repetition from the saved command; distinct = (script, days, "
        "known words, fault kind and place, outcome)")
REAL = ["runs/Feb_2022 and runs/Feb_2023: the three analysis scripts and the model training script of each, executed as __main__",
        "the receivers, BufferModel, BufferSegmentation, utils.setup_logger, utils.hamming_distance, pandas, pickle, lzma, scipy.io, ldpc's AList"]
STUBS = ["clock and file opens (seams)", "ldpc decoder (stand-in that knows the sent words: right, failed, wrong unnoticed)",
         "the recordings (simulated telemetry and receptions in the format the scripts read) and a small parity check matrix"]
ASSUMPTIONS = ["at least two receptions a day, of which the word sent is known and is telemetry for at least one", "the receptions are finite numbers", "telemetry, and "
               "for the bit-statistics receiver pictures; the CDMA type has no code", "sampled analyses of few receptions, not exhaustive"]
PROBES = ["data22", "data23", "mavlink22", "mavlink23", "unified22", "unified23", "train22", "train23", "two_days", "unknown_word", "all_known",
          "undetected_error_recorded", "erasure", "fault_when_decoding", "fault_when_saving", "crash", "older_run_same_second", "window_unlimited",
          "learned", "pictures", "garbled_sent_word", "replayed_receiver", "default_day", "long_training", "first_word_unknown"]

K = 984
HOMES = {"22": "runs/Feb_2022", "23": "runs/Feb_2023"}
DAYS = {"22": ("14", "16"), "23": ("17", "18")}
FILES = {"data22": "experimental_data_run.py", "data23": "experimental_data_run_feb_23.py", "mavlink22": "experimental_mavlink_based.py",
         "mavlink23": "experimental_mavlink_based.py", "unified22": "experimental_data_unified_decoder.py",
         "unified23": "experimental_data_unified_decoder.py", "train22": "train_buffer_model.py", "train23": "train_buffer_model.py"}
GROUP = {"data": ("decoded_entropy", ENT, "entropy_buffer_success_rate", "entropy_decoder_ber", "entropy"),
         "mavlink": ("decoded_rect", RECT, "mavlink_buffer_success_rate", "rectify_decoder_ber", "mavlink"),
         "unified": ("decoded_nr", NR, "nr_buffer_success_rate", "nr_decoder_ber", "nr")}
_CONF = ["ldpciterations", "dec_type", "window_len", "conf_center", "conf_slope", "experiment_date"]
OPTIONS = {"data": _CONF + ["ent_threshold", "clipping_factor", "model_length", "raw_ber"],
           "mavlink": _CONF + ["segiterations", "valid_factor", "invalid_factor", "valid_threshold", "invalid_threshold", "learn"],
           "unified": _CONF + ["valid_factor", "invalid_factor", "valid_threshold", "invalid_threshold", "learn", "ent_threshold",
                               "clipping_factor", "flip", "raw_ber"], "train": []}
MSGS = [33, 234, 212, 218]


# ------------------------------------------------------------------ generation
def gen(rng, tier):
    year = rng.choice(["22", "23"])
    kind = rng.choice(["data", "data", "mavlink", "mavlink", "unified", "unified", "train"])
    pics = kind == "data" and year == "23" and rng.random() < 0.2
    o = {"ldpciterations": rng.choice([1, 5, 20, 33]), "dec_type": rng.choice(["BP", "MS"]), "window_len": rng.choice([0, 1, 3, 50]),
         "conf_center": rng.choice([0, 2, 40]), "conf_slope": rng.choice([0.35, 1.0, 0.5, round(rng.uniform(0.1, 1), 5)]), "ent_threshold": rng.choice([0.36, 0.1, 0.9, round(rng.uniform(0.05, 0.95), 5)]),
         "clipping_factor": rng.choice([1, 2, 3]), "model_length": rng.choice(["info", "all"]), "raw_ber": rng.choice([0, 0.01, 0.05, round(rng.uniform(0.001, 0.1), 5)]),
         "segiterations": rng.choice([1, 1, 2]), "valid_factor": rng.choice([2.0, 1.25, round(rng.uniform(1, 3), 5)]), "invalid_factor": rng.choice([0.7, 1.0, round(rng.uniform(0.3, 1), 5)]),
         "valid_threshold": rng.choice([0.03, 0.01, round(rng.uniform(0.001, 0.05), 5)]), "invalid_threshold": rng.choice([0.08, 0.2, round(rng.uniform(0.06, 0.3), 5)]), "learn": rng.choice([0, 1]),
         "flip": rng.choice([0, 1]), "experiment_date": rng.choice(["all", DAYS[year][0], DAYS[year][1]])}
    opts = [[k, o[k]] for k in OPTIONS[kind] if rng.random() < 0.85]
    if pics:
        opts += [["msg_type", rng.choice([1, 1, 2])]]
        if rng.random() < 0.5:
            opts += [["separate_models", 1]]
    rng.shuffle(opts)
    days = []
    for _ in range(2):
        days.append([{"t": rng.randrange(1 << 30), "known": rng.random() < 0.8, "garbled": rng.random() < 0.1, "noise": rng.randrange(1 << 30),
                      "errors": rng.choice([0, 1, 5, 30, 120]), "erased": rng.choice([0, 0, 3])} for _ in range(rng.choice([2, 3, 3, 5, 8] if kind != "train" else [2, 5, 20, 70, 140]))])
        days[-1][0 if rng.random() < 0.5 else rng.randrange(len(days[-1]))].update(known=True, garbled=False)
    if kind != "train" and rng.random() < 0.15:
        for d in days:
            for r in d:
                r["known"] = True
    plan = {"script": kind + year, "opts": opts, "days": days, "parity": rng.choice([16, 60, 246]), "seed": rng.randrange(1 << 30),
            "salt": rng.randrange(1 << 20), "start": rng.choice([0, 5, 9, rng.randrange(100000)]),
            "ticks": [rng.choice([0, 0, 0, 1, 1, 7, 60, 3600]) for _ in range(rng.choice([1, 5, 11]))],
            "mix": rng.choice([[50, 70, 82], [50, 70, 82], [0, 60, 70], [90, 95, 97], [20, 40, 50]])}
    r = rng.random()
    if r < 0.1:
        plan["fault"] = {"kind": "decoder", "call": rng.randrange(1, 9)}
    elif r < 0.2:
        plan["fault"] = {"kind": "open", "at": rng.randrange(4)}
    elif r < 0.3:
        plan["fault"] = {"kind": "write", "at": rng.randrange(4), "room": rng.choice([0, 1, 5, 1000])}
    elif r < 0.37:
        plan["fault"] = {"kind": "crash", "at": rng.randrange(4)}
    elif r < 0.45 and kind != "train":
        plan["fault"] = {"kind": "older"}
    return plan


LIST_KEYS = []


def simplify(plan):
    if plan.get("fault"):
        yield {k: v for k, v in plan.items() if k != "fault"}
    for d in range(2):
        for i in range(len(plan["days"][d])):
            if len(plan["days"][d]) > 2 and any(r["known"] and not r["garbled"] for r in plan["days"][d][:i] + plan["days"][d][i + 1:]):
                yield dict(plan, days=[x[:i] + x[i + 1:] if e == d else x for e, x in enumerate(plan["days"])])
    for d in range(2):
        for i, r in enumerate(plan["days"][d]):
            for k, v in (("errors", 0), ("erased", 0), ("known", True), ("garbled", False)):
                if r[k] != v:
                    yield dict(plan, days=[[dict(q, **{k: v}) if (e, j) == (d, i) else q for j, q in enumerate(x)] for e, x in enumerate(plan["days"])])
    for i, (k, v) in enumerate(plan["opts"]):
        if k not in ("experiment_date", "msg_type"):
            yield dict(plan, opts=plan["opts"][:i] + plan["opts"][i + 1:])
    if plan["start"]:
        yield dict(plan, start=0)
    if plan["ticks"] != [0]:
        yield dict(plan, ticks=[0])


# ------------------------------------------------------------------ recordings
def telemetry(seed, garbled):
    """123 bytes: four messages and a tail."""
    r = random.Random(seed)
    tbl = wire.table()
    out = b""
    t = r.randrange(1000) * 10
    for i in MSGS:
        m = tbl[i]
        vals = []
        for name, ty, _ in m.wire_fields:
            if name == "time_boot_ms":
                vals.append(t)
            elif ty == "float":
                vals.append(struct.unpack("<f", struct.pack("<f", r.choice([1.5, 1.5, 1.5, 2.25, r.uniform(-50, 50)])))[0])
            elif ty == "int32_t":
                vals.append(r.choice([329000000, 329000000, 329000000 + r.randrange(50)]))
            else:
                vals.append(r.choice([1, 1, 1, 7]))
        out += wire.frame(m, struct.pack(m.fmt, *vals), seed % 256, 1, 1)
    out += bytes(K // 8 - len(out))
    if garbled:  # what was sent that day was not telemetry
        out = bytes([r.choice([0, 17, 255])]) + bytes(r.randrange(256) for _ in range(K // 8 - 1))
    return np.unpackbits(np.frombuffer(out, dtype=np.uint8))


class Trial:
    def __init__(self, plan):
        self.kind, self.year = plan["script"][:-2], plan["script"][-2:]
        self.home = HOMES[self.year]
        self.o = dict(plan["opts"])
        self.pics = self.o.get("msg_type", 0)
        self.k = [K, 2023 * 8, 4048 * 8][self.pics]
        self.n = self.k + plan["parity"]
        self.days = []
        for d in plan["days"]:
            tx, rx = [], []
            for r in d:
                q = np.random.RandomState(r["t"] % 2**32)
                if self.pics:
                    w = np.concatenate([np.tile(q.randint(0, 2, size=289), self.k // 289), q.randint(0, 2, size=self.k % 289)])
                else:
                    w = telemetry(r["t"], r["garbled"])
                w = np.concatenate([w, q.randint(0, 2, size=self.n - self.k)]).astype(np.uint8)
                z = np.random.RandomState(r["noise"] % 2**32)
                y = (1.0 - 2.0 * w) * z.uniform(0.05, 6, size=self.n)
                y[z.choice(self.n, size=r["errors"], replace=False)] *= -1
                y[z.choice(self.n, size=r["erased"], replace=False)] = 0.0
                tx.append((w, r["known"]))
                rx.append(y)
            self.days.append((tx, rx))
        d = self.o.get("experiment_date", "all" if self.kind == "train" else DAYS[self.year][0])
        self.words = [w.astype(np.int8) for t, _ in self.days for w, _ in t]
        self.choose([0, 1] if d == "all" else [DAYS[self.year].index(d)])
        self.default_day = self.kind != "train" and "experiment_date" not in self.o

    def choose(self, pick):
        self.pick = pick
        self.sent = [x for i in pick for x in self.days[i][0]]
        self.recv = [x for i in pick for x in self.days[i][1]]

    def args(self):
        return [f"--{k}={v}" for k, v in self.o.items()]

    def prepare(self, root):
        kind = ["_telemetry", "_2023", "_4048"][self.pics]
        for day, (tx, rx) in zip(DAYS[self.year], self.days):
            tail = kind if self.year == "23" else ""
            with open(os.path.join(root, "data", f"feb_{day}_tx{tail}.csv"), "w") as f:
                for w, known in tx:
                    f.write(",".join("01"[b] if known else "2" for b in w) + "\n")
            with open(os.path.join(root, "data", f"feb_{day}_llr{tail}.csv"), "w") as f:
                for y in rx:
                    f.write(",".join(repr(float(v)) for v in y) + "\n")
        os.mkdir(os.path.join(root, "spec"))
        X.write_code(os.path.join(root, "spec", ["4098_3095_non_sys_h.alist", "h2023.alist", "h4048.alist"][self.pics]), self.n, self.n - self.k)

    def structure(self):
        """Of the first word known to have been sent that is telemetry."""
        w = next(w for w, known in self.sent if known and np.packbits(w[:8])[0] == 254)
        return {o: m.id for o, m in wire.segment(np.packbits(w[:self.k]).tobytes())}

    def want(self):
        """(class and settings of the receiver, settings of its and the plain decoder), as asked for."""
        o = self.o
        g = lambda *ks: {k: o[k] for k in ks if k in o}  # noqa: E731
        conf = g("conf_center", "conf_slope")
        if "window_len" in o:
            conf["window_length"] = o["window_len"] or None
        dec = {"cls": "spa", "n": self.n, "k": self.k, "m": self.n - self.k, "info": True, "channel": False,
               "max_iter": o.get("ldpciterations"), "type": o.get("dec_type")}
        ent = {}
        for a, b in (("ent_threshold", "entropy_threshold"), ("clipping_factor", "clipping_factor"), ("raw_ber", "bit_flip")):
            if a in o:
                ent[b] = o[a]
        fld = g("valid_factor", "invalid_factor")
        for a, b in (("valid_threshold", "valid_thr"), ("invalid_threshold", "invalid_thr")):
            if a in o:
                fld[b] = o[a]
        if "learn" in o:
            fld["learn"] = o["learn"]
        if self.kind == "data":
            length = {"model_length": self.k if o.get("model_length") == "info" else self.n} if "model_length" in o else {}
            nc = {"n_clusters": [1, 4, 2][self.pics] if o.get("separate_models") else 1, "training": 0}
            return dict(cls=CE, **length, **conf, **ent, **nc), dec
        if self.kind == "mavlink":
            return dict(cls="MavlinkRectifyingDecoder", model_length=self.k, n_clusters=1, cluster=False, structures=[self.structure()],
                        **({"segmentation_iterations": o["segiterations"]} if "segiterations" in o else {}), **conf, **fld), dec
        return dict(cls="CombinedUnifiedDecoder", model_length=self.k, n_clusters=1, cluster=False, structures=[self.structure()],
                    **({"flip": bool(o["flip"])} if "flip" in o else {}), **conf, **fld, **ent), dec


ALIASES = {"training": ("classifier_training", "classifier_training_size"), "valid_thr": ("valid_thr", "valid_threshold"),
           "invalid_thr": ("invalid_thr", "invalid_threshold")}


def mismatch(rec, inst, recv, dec, tr):
    if recv is not None:
        if inst["cls"] != recv["cls"]:
            return f"is a {inst['cls']}"
        a = inst["args"]
        for k, v in recv.items():
            if k == "cls":
                continue
            if k == "learn":
                got, v = a.get("data_model"), None if v else X.field_model(f"{tr.home}/data/model_20{tr.year}.json")
            elif k == "structures":
                got = inst["structures"]
            elif k in ("cluster", "flip"):
                got = bool(a.get(k))
            else:
                name = next((n for n in ALIASES.get(k, (k,)) if n in a), None)
                if name is None:
                    continue
                got = a[name]
            ok = abs(got - v) <= 1e-12 if isinstance(v, float) and isinstance(got, (int, float)) else got == v
            if not ok:
                return f"was set up with {k}={got} instead of {v}"
        ids = [v[1] for v in a.values() if isinstance(v, tuple) and v and v[0] == "decoder"]
        if len(ids) != 1:
            return "does not use one error-correcting decoder"
        inst = rec.inst[ids[0]]
    if inst["cls"] != dec["cls"]:
        return f"uses a {inst['cls']} decoder"
    for k, v in dec.items():
        if k != "cls" and v is not None and inst["args"].get(k) != v:
            return f"decoder has {k}={inst['args'].get(k)} instead of {v}"
    return None


def execute(plan, ctx):
    tr = Trial(plan)
    fault = plan.get("fault") or {}
    kind = fault.get("kind")
    name = plan["script"]
    ctx.probe(name)
    for c, q in (("two_days", len(tr.pick) == 2), ("first_word_unknown", not tr.pics and (not tr.sent[0][1] or plan["days"][tr.pick[0]][0]["garbled"])), ("unknown_word", not all(k for _, k in tr.sent)), ("all_known", all(k for _, k in tr.sent)),
                 ("erasure", any(np.any(y == 0) for y in tr.recv)), ("window_unlimited", tr.o.get("window_len") == 0), ("learned", tr.o.get("learn")),
                 ("pictures", tr.pics), ("default_day", tr.default_day), ("long_training", tr.kind == "train" and len(tr.sent) > 60), ("garbled_sent_word", any(r["garbled"] for i in tr.pick for r in plan["days"][i]))):
        if q:
            ctx.probe(c)
    older = {}

    def prepare(root):
        tr.prepare(root)
        if kind == "older":
            w = X.World(plan, root)
            names = set()
            for _ in range(40):
                t = w.now()
                names.add(f"{t.date()}_{t.hour}_{t.minute}_{t.second}")
            for nm in names:
                os.mkdir(os.path.join(root, "results", nm))
                for f in ("cmd.txt", "log.log", "summary.txt"):
                    with open(os.path.join(root, "results", nm, f), "wb") as g:
                        g.write(b"an older run's " + f.encode())
                    older[f"results/{nm}/{f}"] = b"an older run's " + f.encode()

    r = X.run(FILES[name], tr.args(), plan, None, prepare, tr.home, tr.words)
    ctx.event("run", name, r.outcome, r.code, r.writes, sorted(r.files))
    ctx.check(not r.hung, "hang", f"{name}: the analysis did not end")
    rec = Recorded(r.trace)
    hit = bool(r.hit) or r.outcome[0] == "crash"
    ctx.at(sum(plan["ticks"]) / len(plan["ticks"]) * 10)
    if kind and (hit or kind == "older"):
        ctx.fault({"decoder": "decoder raises", "open": "file refused", "write": "disk full mid-write", "crash": "run killed",
                   "older": "folder of an older run in the way"}[kind])
    ctx.state(name, len(tr.pick), sum(not k for _, k in tr.sent), kind, fault.get("at"), r.outcome[0])
    if kind == "older":
        ctx.probe("older_run_same_second")
        for f, b in older.items():
            ctx.check(r.files.get(f) == b, "overwrites", lambda: f"{name}: {f} of an older analysis was changed or lost")
        return
    if kind == "crash" and hit:
        ctx.probe("crash")
        if tr.kind == "train":
            trained(ctx, tr, r, name, True)
        return
    if kind is None or not hit:
        ctx.check(r.outcome[0] == "ok", f"raised:{r.outcome[1]}", lambda: f"{name} {tr.args()}: {r.outcome[1]}: {r.outcome[2]}")
        if tr.kind == "train":
            trained(ctx, tr, r, name, False)
            return
        d = check_results(ctx, tr, r, rec, name)
        again(ctx, tr, plan, d, name)
        return
    ctx.check(r.outcome[0] == "raised", "silent", lambda: f"{name}: {kind} at {fault.get('at', fault.get('call'))} was swallowed: the analysis ended as "
              "if all were well")
    expect = {"decoder": "RuntimeError", "open": "PermissionError", "write": "OSError"}[kind]
    ctx.check(r.outcome[1] == expect, "silent", lambda: f"{name}: failed with {r.outcome[1]} ({r.outcome[2]}) instead of the {expect} that happened")
    ctx.probe("fault_when_decoding" if kind == "decoder" else "fault_when_saving")
    if tr.kind == "train":
        trained(ctx, tr, r, name, True)


def field_values(bits, structure):
    """Field values of a buffer under a structure: [(model name, value)], from the wire format alone."""
    tbl = wire.table()
    raw = np.packbits(bits).tobytes()
    out = []
    for off, mid in structure.items():
        m = tbl[mid]
        body = raw[off + 6:off + 6 + m.size]
        vals = struct.unpack(m.fmt, body)
        out += [(f"{m.name}_{n}", v) for (n, _, _), v in zip(m.wire_fields, vals)]
        out += [(f"{m.name}_mlen", raw[off + 1]), (f"{m.name}_srcComponent", raw[off + 4]), (f"{m.name}_msgId", raw[off + 5]),
                ("magic", raw[off]), ("seq", raw[off + 2]), ("srcSystem", raw[off + 3])]
    return out


def trained(ctx, tr, r, name, failed):
    """The saved model holds the fields of each telemetry buffer known to have been sent, each once, in order; or is the one that was there."""
    f = f"model_20{tr.year}.json"
    with open(os.path.join(repo.REPO, tr.home, "data", f), "rb") as g:
        old = g.read()
    got = r.data.get(f)
    if failed and got == old:
        return
    ctx.check(got is not None, "model", f"{name}: no model was saved")
    import tempfile
    import inference
    with tempfile.NamedTemporaryFile(suffix=".json") as t:
        t.write(got)
        t.flush()
        m = ctx.call(f"{name} model loads", inference.BufferModel.load, t.name)
    st = tr.structure()
    want = {}
    for (w, known) in tr.sent:
        if known and np.packbits(w[:8])[0] == 254:
            for k, v in field_values(w[:K], st):
                want.setdefault(k, []).append(v)
    got = set(m.fields_names())
    ctx.check(got == set(want), "model", lambda: f"{name}: fields {sorted(got ^ set(want))} are not those of the messages sent")
    for k, v in want.items():
        x = np.array(v, dtype=float)
        f = m[k]
        ctx.check(int(f.model_size) == x.size and abs(f.mean - x.mean()) <= 1e-9 * max(1, abs(x).max()) and abs(f.std - x.std()) <= 1e-7 * max(1, abs(x).max()), "model",
                  lambda: f"{name}: the model of {k} has {f.model_size} values of mean {f.mean} and spread {f.std}, sent were {x.size} of {x.mean()} and {x.std()}")


def rows(res, group):
    d = res[group]
    return d.to_dict("list") if hasattr(d, "to_dict") else d


def check_results(ctx, tr, r, rec, name):
    files = {f.replace("\\", "/"): b for f, b in r.files.items()}
    dirs = run_dirs(files)
    ctx.check(len(dirs) == 1, "files", lambda: f"{name}: {len(dirs)} folders instead of one")
    d = next(iter(dirs.values()))
    for f in ("cmd.txt", "log.log", "summary.txt"):
        ctx.check(d.get(f), "files", lambda: f"{name}: {f} is missing or empty")
    xz = [b for f, b in d.items() if f.endswith(".xz")]
    ctx.check(len(xz) == 1, "files", lambda: f"{name}: {len(xz)} compressed result files")
    res = pickle.loads(lzma.decompress(xz[0]))
    if tr.default_day:  # which days that is, is not stated: those of the first reception and as many as there are
        for pick in ([0], [1], [0, 1]):
            tr.choose(pick)
            if int(res["number_of_buffers"]) == len(tr.sent) and np.array_equal(np.asarray(rows(res, "data")["corrupted"][0], dtype=float), tr.recv[0]):
                break
    n, k, N = tr.n, tr.k, len(tr.sent)
    ctx.check(int(res["number_of_buffers"]) == N and int(res["buffer_len"]) == n, "words", lambda: f"{name}: {res['number_of_buffers']} receptions of "
              f"{res['buffer_len']} recorded, {N} of {n} there were")
    D = rows(res, "data")
    errs = []
    for i in range(N):
        w, known = tr.sent[i]
        y = tr.recv[i]
        ctx.check(np.array_equal(np.asarray(D["corrupted"][i], dtype=float), y), "words", lambda: f"{name}: reception {i} is not the one recorded")
        e = np.flatnonzero(w != (y < 0))
        errs.append(e if known else None)
        tell = [float(D[c][i]) for c in ("info_errors", "parity_errors", "input_ber")]
        if not known:
            ctx.check(tell == [-1, -1, -1], "unknown", lambda: f"{name}: reception {i}: what was sent is not known, yet errors {tell} are recorded")
            continue
        ctx.check(np.array_equal(np.asarray(D["encoded"][i]), w), "words", lambda: f"{name}: the word sent with reception {i} is another")
        g = np.asarray(D["error_idx"][i])
        ctx.check(g.shape == (n,) and np.array_equal(np.flatnonzero(g), e), "errors", lambda: f"{name}: reception {i}: error positions recorded are not those "
                  "of that word")
        want = [float((e < k).sum()), float((e >= k).sum()), e.size / n]
        ctx.check(all(close(a, b) for a, b in zip(tell, want)), "errors", lambda: f"{name}: reception {i}: errors {tell} recorded, {want} occurred")
    ber = np.asarray(res["input_ber"], dtype=float)
    ctx.check(ber.shape == (N,) and all(close(b, -1 if e is None else e.size / n) for b, e in zip(ber, errs)), "errors",
              lambda: f"{name}: input error rates {ber.tolist()} recorded")
    group, cols, rate, dber, short = GROUP[tr.kind]
    want_r, want_d = tr.want()
    mats = [scipy.io.loadmat(io.BytesIO(b)) for f, b in d.items() if f.endswith(".mat")]
    ctx.check(len(mats) == 1, "files", lambda: f"{name}: {len(mats)} .mat files")
    known = sum(e is not None for e in errs)
    text = d["summary.txt"].decode()
    for g, cs, ra, be, wr in (("decoded_ldpc", PLAIN, "ldpc_buffer_success_rate", "ldpc_decoder_ber", None), (group, cols, rate, dber, want_r)):
        R = rows(res, g)
        for c in cs + ["hamming"]:
            ctx.check(c in R and len(R[c]) == N, "rows", lambda: f"{name}: {g} has {len(R.get(c, []))} rows of {c} instead of {N}")
        why, found = "none decoded these receptions", None
        for i, inst in (rec.top if wr is not None else rec.inst).items():
            if (inst["cls"] == "spa") != (wr is None):
                continue
            if wr is None:  # has no memory: it may serve the receiver too
                picked = []
                for c in inst["calls"]:
                    if len(picked) < N and np.array_equal(c[0], tr.recv[len(picked)]) and all(
                            same(R[col][len(picked)], c[2][j]) for j, col in enumerate(cs)):
                        picked.append(c)
                if len(picked) < N:
                    why = f"reception {len(picked)} was not decoded as recorded"
                    continue
            else:
                picked = inst["calls"]
                if len(picked) != N:
                    why = f"it decoded {len(picked)} of {N} receptions"
                    continue
                bad = next((t for t in range(N) if not np.array_equal(picked[t][0], tr.recv[t])), None)
                if bad is not None:
                    why = f"it was given something else than reception {bad}"
                    continue
                bad = next(((t, col) for t in range(N) for j, col in enumerate(cs) if not same_answer(picked[t][2][j], R[col][t])), None)
                if bad is not None:
                    why = f"column {bad[1]} of reception {bad[0]} is not what it answered"
                    continue
            m = mismatch(rec, inst, wr, want_d, tr)
            if m is None:
                found = i
                break
            why = m
        ctx.check(found is not None, "decoders", lambda: f"{name}: {g}: no decoder of the analysis fits: {why}")
        if wr is not None:
            fresh(ctx, rec, found, f"{name}: {g}")
            if tr.kind != "data":
                for t in range(N):
                    told = rec.inst[found]["calls"][t][1]
                    told = [] if told is None else np.sort(told).tolist()
                    ctx.check(told == ([] if errs[t] is None else errs[t].tolist()), "told", lambda: f"{name}: reception {t}: the receiver was told other error "
                              "positions than those of that word")
        ham = []
        for t in range(N):
            h = int(np.count_nonzero(np.asarray(R["estimate"][t]).astype(int) != tr.sent[t][0])) if errs[t] is not None else -1
            ham.append(h)
            ctx.check(int(R["hamming"][t]) == h, "hamming", lambda: f"{name}: {g}: reception {t}: {R['hamming'][t]} wrong bits recorded instead of {h}")
            if h > 0 and bool(R["decode_success"][t]):
                ctx.probe("undetected_error_recorded")
        ok = sum(bool(x) for x in R["decode_success"])
        wrong = sum(h for h in ham if h > 0) / (n * known)
        ctx.check(close(res[ra], ok / N), "rates", lambda: f"{name}: {ra} is {res[ra]}, {ok} of {N} receptions were decoded")
        ctx.check(close(res[be], wrong), "rates", lambda: f"{name}: {be} is {res[be]}, the {known} known words say {wrong}")
        m = mats[0]
        ctx.check(close(float(m[ra].squeeze()), ok / N) and close(float(m[be].squeeze()), wrong), "mat", lambda: f"{name}: {ra} or {be} in the .mat file differ")
        q = m[g]["hamming"].ravel()[0].ravel()
        ctx.check([int(v) for v in q] == ham, "mat", lambda: f"{name}: {g} in the .mat file: wrong bits {q.tolist()}, {ham} counted")
        label = "pure" if wr is None else short
        ctx.check(f"successful {label} decoding is: {ok}/{N}" in text, "summary", lambda: f"{name}: the summary says {text!r}, {label}: {ok} of {N}")
    return d


def again(ctx, tr, plan, d, name):
    """The saved command repeats the analysis with the same settings."""
    cmd = shlex.split(d["cmd.txt"].decode())
    ctx.check(len(cmd) >= 2 and cmd[0].startswith("python") and os.path.basename(cmd[1]) == FILES[name], "command", lambda: f"{name}: {cmd[:2]} does not run "
              "the script")
    p2 = dict(plan, ticks=[1])
    p2.pop("fault", None)
    r = X.run(FILES[name], cmd[2:], p2, None, tr.prepare, tr.home, tr.words)
    ctx.check(not r.hung, "hang", f"{name}: the repeated analysis did not end")
    ctx.check(r.outcome[0] == "ok", "command", lambda: f"{name}: the saved command does not work: {r.outcome[1]}: {r.outcome[2]}")
    check_results(ctx, tr, r, Recorded(r.trace), f"{name} repeated by the saved command")
    a, b = result_of(d), result_of(next(iter(run_dirs({f.replace(chr(92), "/"): v for f, v in r.files.items()}).values())))
    ctx.check(int(a["number_of_buffers"]) == int(b["number_of_buffers"]) and same(comparable(a), comparable(b)), "command",
              lambda: f"{name}: the saved command {d['cmd.txt'].decode()!r} gives other results")


def comparable(x):
    return {k: ({c: list(v) for c, v in rows(x, k).items()} if hasattr(x[k], "to_dict") else x[k]) for k in x if k != "args"}


def result_of(d):
    return pickle.loads(lzma.decompress(next(b for f, b in d.items() if f.endswith(".xz"))))
