"""C29: an experiment run records exactly what was simulated, however its workers are scheduled and whatever fails."""
import io
import lzma
import math
import pickle
import shlex

from sim import repo  # noqa: F401
from sim import experiment as X
import numpy as np
import scipy.io
from ldpc.wifi_spec_codes import WiFiSpecCode as Spec
from sim.core import Violation

RUNS = {"quick": 360, "thorough": 4000}
BATCH = 2
RULE = ("one evaluation = one simulated experiment (all its worker processes, files and decodings) and its repetition from the saved command; "
        "distinct = (script, clusters, channel, sharing of steps among workers, fault kind and place, outcome)")
REAL = ["runs/HC_eilat_July_2018: the eight runner scripts, runs/Feb_2022/simulation_rafael_code.py, executed as __main__ (argument parsing, encoding, channel, worker processes, results, "
        "summary, log)", "the receivers, utils.setup_logger, utils.hamming_distance, ldpc's encoder, pandas, pickle, lzma, scipy.io"]
STUBS = ["multiprocessing.Pool (real forked workers, one at a time in the plan's order)", "clock, entropy, file opens (seams)",
         "ldpc decoders (stand-in that knows the sent words: right, failed, wrong unnoticed)", "figures are not drawn"]
ASSUMPTIONS = ["worker processes are serialised at step granularity", "a killed worker (which blocks a real pool for ever) is modelled only as the "
               "death of the whole run", "sampled experiments of few words, not exhaustive"]
PROBES = ["entropy", "dude", "mavlink", "combined", "pretrained", "gallager", "awgn", "bf", "rafael", "two_steps_one_worker", "steps_in_two_workers",
          "out_of_order", "clusters_2", "clusters_3", "repeated_data", "all_data", "more_asked_than_there_is", "undetected_error_recorded",
          "fault_in_worker", "fault_when_saving", "crash", "older_run_same_second", "midnight", "awgn_channel", "bf_decoder", "window_unlimited",
          "replayed_receiver"]

PLAIN = ["estimate", "llr", "decode_success", "iterations", "syndrome", "vnode_validity"]
HARD = ["estimate", "decode_success", "iterations", "syndrome", "vnode_validity"]
ENT = PLAIN + ["dist", "structural_idx", "cluster_label"]
RECT = PLAIN + ["cluster_label", "segmented_bits", "good_field_idx", "bad_field_idx", "classifier_performance", "forcing_performance"]
DUDE = ["estimate", "llr", "decode_success", "iterations", "cluster_label", "denoised_bits"]
NR = ["estimate", "llr", "decode_success", "iterations", "cluster_label"]
CE = "ClassifyingEntropyDecoder"


def _rates(g, rate, ber):
    return {g: (rate, ber)}


SCRIPTS = {
    "entropy": dict(file="simulated_data_classifying_entropy_decoder.py", xz=True, resmat=True, pool=True,
                    groups={"decoded_ldpc": None, "decoded_entropy": ENT},
                    rates={"decoded_ldpc": ("ldpc_buffer_success_rate", "ldpc_decoder_ber"),
                           "decoded_entropy": ("entropy_buffer_success_rate", "entropy_decoder_ber")},
                    summary={"raw_ber": "raw_ber", "ldpc_ber": "ldpc_decoder_ber", "entropy_ber": "entropy_decoder_ber",
                             "ldpc_buffer_success_rate": "ldpc_buffer_success_rate",
                             "entropy_buffer_success_rate": "entropy_buffer_success_rate"}),
    "dude": dict(file="simulated_data_classifying_dude_decoder.py", xz=True, resmat=True, pool=True,
                 groups={"decoded_ldpc": PLAIN, "decoded_dude": DUDE},
                 rates={"decoded_ldpc": ("ldpc_buffer_success_rate", "ldpc_decoder_ber"),
                        "decoded_dude": ("dude_buffer_success_rate", "dude_decoder_ber")},
                 summary={"raw_ber": "raw_ber", "ldpc_ber": "ldpc_decoder_ber", "dude_ber": "dude_decoder_ber",
                          "ldpc_buffer_success_rate": "ldpc_buffer_success_rate", "dude_buffer_success_rate": "dude_buffer_success_rate"}),
    "mavlink": dict(file="simulated_data_mavlink_decoding.py", xz=True, resmat=True, pool=True,
                    groups={"decoded_ldpc": PLAIN, "decoded_rect": RECT},
                    rates={"decoded_ldpc": ("ldpc_buffer_success_rate", "ldpc_decoder_ber"),
                           "decoded_rect": ("rect_buffer_success_rate", "rect_decoder_ber")},
                    summary={"raw_ber": "raw_ber", "ldpc_ber": "ldpc_decoder_ber", "rect_ber": "rect_decoder_ber",
                             "ldpc_buffer_success_rate": "ldpc_buffer_success_rate", "rect_buffer_success_rate": "rect_buffer_success_rate"}),
    "combined": dict(file="simulated_data_combined_decoder.py", xz=False, resmat=False, pool=True,
                     groups={"decoded_ldpc": PLAIN, "decoded_nr": NR, "decoded_entropy": ENT, "decoded_rectify": RECT},
                     rates={"decoded_ldpc": ("ldpc_buffer_success_rate", "ldpc_decoder_ber"),
                            "decoded_nr": ("nr_buffer_success_rate", "nr_decoder_ber"),
                            "decoded_entropy": ("entropy_buffer_success_rate", "entropy_decoder_ber"),
                            "decoded_rectify": ("rectify_buffer_success_rate", "rectify_decoder_ber")},
                     summary={"raw_ber": "raw_ber", "ldpc_ber": "ldpc_decoder_ber", "nr_ber": "nr_decoder_ber",
                              "entropy_ber": "entropy_decoder_ber", "rectify_ber": "rectify_decoder_ber",
                              "ldpc_buffer_success_rate": "ldpc_buffer_success_rate", "nr_buffer_success_rate": "nr_buffer_success_rate",
                              "entropy_buffer_success_rate": "entropy_buffer_success_rate",
                              "rectify_buffer_success_rate": "rectify_buffer_success_rate"}),
    "pretrained": dict(file="simulated_data_pretrained_model.py", xz=True, resmat=True, pool=True,
                       groups={"decoded_ldpc": PLAIN, "decoded_entropy": ENT, "decoded_pre_trained": ENT}, drop={"structural_idx"},
                       rates={"decoded_ldpc": ("ldpc_buffer_success_rate", "ldpc_decoder_ber"),
                              "decoded_entropy": ("entropy_buffer_success_rate", "entropy_decoder_ber"),
                              "decoded_pre_trained": ("pre_trained_buffer_success_rate", "pre_trained_decoder_ber")},
                       summary={"raw_ber": "raw_ber", "ldpc_ber": "ldpc_decoder_ber", "entropy_ber": "entropy_decoder_ber",
                                "pre_trained_ber": "pre_trained_decoder_ber", "ldpc_buffer_success_rate": "ldpc_buffer_success_rate",
                                "entropy_buffer_success_rate": "entropy_buffer_success_rate",
                                "pre_trained_buffer_success_rate": "pre_trained_buffer_success_rate"}),
    "gallager": dict(file="simulate_gallager_bf.py", xz=True, resmat=True, pool=False,
                     groups={"decoded_galbf": HARD, "decoded_entropy_galbf": ENT, "decoded_entropy_galbf_forcing": ENT},
                     rates={"decoded_galbf": ("galbf_success_rate", "galbf_decoder_ber"),
                            "decoded_entropy_galbf": ("galbf_entropy_success_rate", "galbf_entropy_decoder_ber"),
                            "decoded_entropy_galbf_forcing": ("entropy_forcing_success_rate", "entropy_forcing_decoder_ber")},
                     summary={"raw_ber": "raw_ber", "galbf_decoder_ber": "galbf_decoder_ber",
                              "galbf_entropy_decoder_ber": "galbf_entropy_decoder_ber",
                              "entropy_forcing_decoder_ber": "entropy_forcing_decoder_ber", "galbf_buffer_success_rate": "galbf_success_rate",
                              "entropy_buffer_success_rate": "galbf_entropy_success_rate",
                              "entropy_forcing_buffer_success": "entropy_forcing_success_rate"}),
    "awgn": dict(file="classifying_entropy_decoder_over_awgn_channel.py", xz=True, resmat=True, pool=True, raw="mean_raw_ber",
                 groups={"decoded_ldpc": PLAIN, "decoded_entropy": ENT}, drop={"structural_idx"},
                 rates={"decoded_ldpc": ("ldpc_buffer_success_rate", "ldpc_decoder_ber"),
                        "decoded_entropy": ("entropy_buffer_success_rate", "entropy_decoder_ber")},
                 summary={"ldpc_ber": "ldpc_decoder_ber", "entropy_ber": "entropy_decoder_ber",
                          "ldpc_buffer_success_rate": "ldpc_buffer_success_rate",
                          "entropy_buffer_success_rate": "entropy_buffer_success_rate"}),
    "bf": dict(file="simluated_data_entropy_bf_decoders.py", xz=True, resmat=True, pool=True,
               groups={"decoded_ms": PLAIN, "decoded_wbf": HARD, "decoded_entropy_wbf": ENT, "decoded_mwbf": HARD,
                       "decoded_entropy_mwbf": ENT, "decoded_no_loop": HARD, "decoded_entropy_no_loop": ENT},
               rates={"decoded_ms": ("ms_success_rate", "ms_decoder_ber"), "decoded_wbf": ("wbf_success_rate", "wbf_decoder_ber"),
                      "decoded_mwbf": ("mwbf_success_rate", "mwbf_decoder_ber"),
                      "decoded_no_loop": ("no_loop_success_rate", "no_loop_decoder_ber"),
                      "decoded_entropy_wbf": ("entropy_wbf_success_rate", "entropy_wbf_decoder_ber"),
                      "decoded_entropy_mwbf": ("entropy_mwbf_success_rate", "entropy_mwbf_decoder_ber"),
                      "decoded_entropy_no_loop": ("entropy_no_loop_success_rate", "entropy_no_loop_decoder_ber")},
               summary={"raw_ber": "raw_ber", "ms_ber": "ms_decoder_ber", "wbf_decoder_ber": "wbf_decoder_ber",
                        "mwbf_decoder_ber": "mwbf_decoder_ber", "no_loop_decoder_ber": "no_loop_decoder_ber",
                        "entropy_wbf_decoder_ber": "entropy_wbf_decoder_ber", "entropy_mwbf_decoder_ber": "entropy_mwbf_decoder_ber",
                        "entropy_no_loop_decoder_ber": "entropy_no_loop_decoder_ber", "ms_buffer_success_rate": "ms_success_rate",
                        "wbf_buffer_success_rate": "wbf_success_rate", "mwbf_buffer_success_rate": "mwbf_success_rate",
                        "no_loop_buffer_success_rate": "no_loop_success_rate",
                        "entropy_wbf_buffer_success_rate": "entropy_wbf_success_rate",
                        "entropy_mwbf_buffer_success_rate": "entropy_mwbf_success_rate",
                        "entropy_no_loop_buffer_success_rate": "entropy_no_loop_success_rate"}),
}
SCRIPTS["rafael"] = dict(SCRIPTS["entropy"], file="simulation_rafael_code.py", home="runs/Feb_2022",
                         groups={"decoded_ldpc": PLAIN, "decoded_entropy": ENT})
CLUSTERED = {"entropy", "dude", "mavlink", "combined", "awgn"}
LAYOUT = {1: [(0, 1224)], 2: [(0, 576), (576, 1224)], 3: [(0, 416), (416, 864), (864, 1224)]}
STRUCT = {1: [{0: 33, 52: 234, 72: 30, 108: 212, 135: 218}], 2: [{0: 33, 52: 234}, {0: 30, 36: 212, 63: 218}],
          3: [{0: 33}, {0: 234, 20: 30}, {0: 212, 27: 218}]}
SPECS = {1: Spec.N1944_R23, 2: Spec.N1296_R12, 3: Spec.N648_R34}


# ------------------------------------------------------------------ generation
def gen(rng, tier):
    s = rng.choice(["entropy", "entropy", "entropy", "dude", "mavlink", "mavlink", "combined", "pretrained", "gallager", "awgn", "awgn", "bf", "bf", "rafael", "rafael"])
    slow = s in ("dude", "bf", "combined", "rafael")
    total = rng.choice([1, 2, 3, 4]) if slow else rng.choice([1, 2, 3, 4, 5, 6])
    if s == "rafael":
        total += 1  # a recording of one word reads back as a vector
    data = [rng.randrange(60) for _ in range(total)]
    o = {}
    r = rng.random()
    o["N"] = 0 if r < 0.25 else (total + rng.randrange(1, 4) if r < 0.35 else rng.randrange(1, total + 1))
    steps = rng.choice([1, 2, 2, 3, 3, 4, 5] if not slow else [1, 2, 2, 3])
    lo = rng.choice([0.002, 0.01, 0.03, round(rng.uniform(0.002, 0.06), 4)])
    o["ldpciterations"] = rng.choice([1, 5, 20, 33])
    o["multiply_data"] = rng.choice([0, 0, 0, 1, 1, 2] if not slow else [0, 0, 1])
    o["window_len"] = rng.choice([0, 1, 3, 50])
    o["conf_center"] = rng.choice([0, 2, 40])
    o["conf_slope"] = rng.choice([0.35, 1.0, 0.5, round(rng.uniform(0.1, 1), 5)])
    o["ent_threshold"] = rng.choice([0.36, 0.1, 0.9, round(rng.uniform(0.05, 0.95), 5)])
    o["clipping_factor"] = rng.choice([1, 2, 3])
    o["processes"] = rng.choice([0, 1, 2, 2, 3])
    o["dec_type"] = rng.choice(["BP", "MS"])
    o["msg_delay"] = rng.choice(["50000", "50000", "100000"])
    o["model_length"] = rng.choice(["info", "all"])
    o["cluster"] = rng.choice([0, 0, 1])
    o["n_clusters"] = rng.choice([1, 1, 2, 3])
    o["classifier_train"] = rng.choice([2, 3, 5])
    o["minflip"], o["maxflip"], o["nflips"] = lo, round(lo + rng.choice([0.01, 0.035, round(rng.uniform(0.004, 0.05), 4)]), 6), steps
    if rng.random() < 0.25:
        o["minflip"], o["maxflip"] = o["maxflip"], o["minflip"]
    if s == "bf":
        o["minflip"], o["maxflip"] = (a := rng.choice([-2, 0, 1.5])), a + rng.choice([1, 3.25])
        o["ldpciterations"] = rng.choice([5, 60, 200, 300])
    if s == "awgn":
        o["min_ebno"], o["max_ebno"], o["n_points"] = (a := rng.choice([-2.0, 0.5, 1.0])), a + rng.choice([1.0, 2.25]), steps
        o["snr_scale"], o["delta"] = rng.choice(["db", "linear"]), rng.choice([1.0, 2.0, 0.5])
        if o["snr_scale"] == "linear":
            o["min_ebno"], o["max_ebno"] = rng.choice([(0.5, 2.0), (1.0, 1.5)])
    if s == "entropy":
        o["channel_type"] = rng.choice(["bsc", "bsc", "awgn"])
        if rng.random() < 0.4:
            o["dec_type"], o["wbf_variant"] = "BF", rng.choice([1, 2, 3])
        if o["channel_type"] == "awgn":
            o["minflip"], o["maxflip"] = (a := rng.choice([-2.0, 0.5])), a + rng.choice([1.0, 2.5])
    if s == "dude":
        o["context_length"] = rng.choice([1, 2, 3])
    if s in ("mavlink", "combined"):
        o["learn"] = rng.choice([0, 0, 1])
        o["valid_factor"], o["invalid_factor"] = rng.choice([2.0, 1.25, round(rng.uniform(1, 3), 5)]), rng.choice([0.7, 1.0, round(rng.uniform(0.3, 1), 5)])
        o["valid_threshold"], o["invalid_threshold"] = rng.choice([0.03, 0.01, round(rng.uniform(0.001, 0.05), 5)]), rng.choice([0.08, 0.2, round(rng.uniform(0.06, 0.3), 5)])
    if s == "mavlink":
        o["segiterations"] = rng.choice([1, 1, 2])
    if s == "combined":
        o["flip"] = rng.choice([0, 1])
    keep = OPTIONS[s]
    opts = [[k, o[k]] for k in keep if k in o]
    # options left out take the script's default; the ones that would make the run long are always given
    opts = [kv for kv in opts if kv[0] in ALWAYS or rng.random() < 0.85]
    rng.shuffle(opts)
    plan = {"script": s, "data": data, "opts": opts, "seed": rng.randrange(1 << 30), "salt": rng.randrange(1 << 20),
            "cpus": rng.choice([1, 2, 3, 4]), "sched": [rng.randrange(8) for _ in range(6)], "order": [rng.randrange(8) for _ in range(6)],
            "start": rng.choice([0, 5, 9, rng.randrange(100000)]), "ticks": [rng.choice([0, 0, 0, 1, 1, 7, 60, 3600]) for _ in range(rng.choice([1, 5, 11]))],
            "mix": rng.choice([[50, 70, 82], [50, 70, 82], [0, 60, 70], [90, 95, 97], [20, 40, 50]])}
    r = rng.random()
    if r < 0.12:
        plan["fault"] = {"kind": "decoder", "item": rng.randrange(steps), "call": rng.randrange(1, 4)}
    elif r < 0.22:
        plan["fault"] = {"kind": "open", "at": rng.randrange(1, steps + 7)}
    elif r < 0.34:
        plan["fault"] = {"kind": "write", "at": rng.randrange(1, steps + 7), "room": rng.choice([0, 1, 5, 1000])}
    elif r < 0.45:
        plan["fault"] = {"kind": "crash", "at": rng.randrange(1, steps + 7)}
    elif r < 0.52:
        plan["fault"] = {"kind": "older"}
    return plan


_COMMON = ["N", "minflip", "maxflip", "nflips", "ldpciterations", "multiply_data", "processes", "dec_type", "msg_delay", "conf_center",
           "conf_slope"]
_CL = ["classifier_train", "n_clusters", "cluster"]
OPTIONS = {
    "entropy": _COMMON + _CL + ["ent_threshold", "window_len", "clipping_factor", "model_length", "wbf_variant", "channel_type"],
    "dude": _COMMON + _CL + ["ent_threshold", "clipping_factor", "model_length", "context_length"],
    "mavlink": _COMMON + _CL + ["segiterations", "valid_factor", "invalid_factor", "valid_threshold", "invalid_threshold", "window_len", "learn"],
    "combined": _COMMON + _CL + ["valid_factor", "invalid_factor", "valid_threshold", "invalid_threshold", "window_len", "learn",
                                 "ent_threshold", "clipping_factor", "flip"],
    "pretrained": _COMMON + ["ent_threshold", "window_len", "clipping_factor", "model_length"],
    "gallager": ["N", "minflip", "maxflip", "nflips", "ldpciterations", "ent_threshold", "window_len", "multiply_data", "conf_center",
                 "conf_slope", "model_length"],
    "awgn": ["N", "min_ebno", "max_ebno", "n_points", "snr_scale", "delta", "ldpciterations", "ent_threshold", "window_len", "clipping_factor",
             "multiply_data", "processes", "conf_center", "conf_slope", "dec_type", "msg_delay", "model_length"] + _CL,
    "bf": ["N", "minflip", "maxflip", "nflips", "ldpciterations", "ent_threshold", "window_len", "multiply_data", "processes", "conf_center",
           "conf_slope", "model_length"],
    "rafael": ["N", "minflip", "maxflip", "nflips", "ldpciterations", "ent_threshold", "window_len", "clipping_factor", "multiply_data",
               "processes", "conf_center", "conf_slope", "dec_type", "model_length"],
}
ALWAYS = {"nflips", "n_points", "multiply_data", "minflip", "maxflip", "min_ebno", "max_ebno", "snr_scale", "n_clusters", "channel_type",
          "dec_type", "wbf_variant", "msg_delay", "delta", "N", "context_length", "segiterations", "ldpciterations", "model_length", "cluster",
          "learn"}
LIST_KEYS = []


def simplify(plan):
    if plan.get("fault"):
        yield {k: v for k, v in plan.items() if k != "fault"}
    for i, (k, v) in enumerate(plan["opts"]):
        for w in {"N": [0, 1], "multiply_data": [0], "nflips": [1, 2], "n_points": [1, 2], "processes": [0, 1], "n_clusters": [1]}.get(k, []):
            if v != w:
                yield dict(plan, opts=plan["opts"][:i] + [[k, w]] + plan["opts"][i + 1:])
    for i in range(len(plan["data"])):
        if len(plan["data"]) > 1:
            yield dict(plan, data=plan["data"][:i] + plan["data"][i + 1:])
    for i, (k, v) in enumerate(plan["opts"]):
        if k not in ALWAYS:
            yield dict(plan, opts=plan["opts"][:i] + plan["opts"][i + 1:])
    if plan["start"]:
        yield dict(plan, start=0)
    if plan["ticks"] != [0]:
        yield dict(plan, ticks=[0])
    for k in ("sched", "order"):
        if any(plan[k]):
            yield dict(plan, **{k: [0]})


# ------------------------------------------------------------------ oracle
def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype == object or b.dtype == object:
            return all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return bool(np.array_equal(a, b, equal_nan=a.dtype.kind == "f" and b.dtype.kind == "f"))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if hasattr(a, "to_dict") and hasattr(b, "to_dict"):
        return same(a.to_dict("list"), b.to_dict("list"))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return bool(a == b)


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-12 * max(1.0, abs(float(b)))


def clauses(path):
    return path.replace("\\", "/")


def is_dict(blob):
    try:
        d = pickle.loads(blob)
    except Exception:  # noqa: BLE001
        return None
    return d if isinstance(d, dict) else None


class Exp:
    """What one plan asks for, computed independently of the scripts."""

    def __init__(self, plan):
        self.s = plan["script"]
        self.sp = SCRIPTS[self.s]
        self.o = dict(plan["opts"])
        self.given = set(self.o)
        o = self.o
        self.clusters = o.get("n_clusters", 1) if self.s in CLUSTERED else 1
        self.home = self.sp.get("home", X.HOME)
        self.csv = self.s == "rafael"  # words are read ready made
        if self.csv:
            self.n, self.k = 4098, 984
        else:
            self.enc = X.code(SPECS[self.clusters])
            self.n, self.k = self.enc.n, self.enc.k
        pool = X.transmissions("50000")
        self.data = [pool[i % len(pool)] for i in plan["data"]]
        use = self.data if o.get("N", 0) <= 0 else self.data[:o["N"]]
        bits = [np.unpackbits(np.frombuffer(b, dtype=np.uint8)) for b in use]
        self.given_words = []
        if self.csv:
            for j, b in enumerate(self.data):
                w = np.unpackbits(np.frombuffer(b, dtype=np.uint8))[:984]
                self.given_words.append(np.concatenate([w, np.random.RandomState(plan["data"][j]).randint(0, 2, size=self.n - 984)]).astype(np.int8))
            bits = self.given_words[:len(use)]
        self.info = bits * (2 ** o.get("multiply_data", 0)) if self.csv else [b[a:z] for b in bits for a, z in LAYOUT[self.clusters]] * (2 ** o.get("multiply_data", 2 if self.s == "gallager" else 0))
        self.words = len(self.info)
        if self.s == "awgn":
            self.points = np.linspace(o["min_ebno"], o["max_ebno"], num=o["n_points"])
        else:
            self.points = np.linspace(o["minflip"], o["maxflip"], num=o["nflips"])
        self.soft = self.s in ("awgn", "bf") or (self.s == "entropy" and o.get("channel_type", "bsc") != "bsc")

    def snr(self, x):
        if self.s == "awgn" and self.o["snr_scale"] == "linear":
            return float(x)
        return 10 ** (float(x) / 10)

    def p(self, x):
        if not self.soft:
            return float(x)
        d = self.o["delta"] if self.s == "awgn" else 1.0
        return 0.5 * math.erfc(math.sqrt(d * self.snr(x)))

    def args(self):
        return [f"--{k}={v}" for k, v in self.o.items()]

    def run(self, args, plan, prepare=None):
        data = {"50000": self.data, "100000": self.data, "20000": []}

        def ready(root):
            if self.csv:
                import os
                with open(os.path.join(root, "data", "non_repeated_tx.csv"), "w") as f:
                    for w in self.given_words:
                        f.write(",".join(map(str, w)) + "\n")
                os.mkdir(os.path.join(root, "spec"))
                X.write_code(os.path.join(root, "spec", "4098_3095_non_sys_h.alist"), self.n, 6)
            if prepare:
                prepare(root)
        return X.run(self.sp["file"], args, plan, None if self.csv else data, ready, self.home, self.given_words)

    # -- how each decoder must have been set up: {parameter: value}, and which stand-in it uses
    def want(self, group, x):
        o, s = self.o, self.s
        p = self.p(x)
        it = o.get("ldpciterations")
        win = {"window_length": (o["window_len"] or None)} if "window_len" in o else {}
        conf = {k: o[k] for k in ("conf_center", "conf_slope") if k in o}
        ent = {"entropy_threshold": o["ent_threshold"]} if "ent_threshold" in o else {}
        clip = {"clipping_factor": o["clipping_factor"]} if "clipping_factor" in o else {}
        mlen = {"model_length": self.k if o.get("model_length") == "info" else self.n} if "model_length" in o else {}
        soft = {"cls": "soft", "n": self.n, "k": self.k, "max_iter": it, "type": o.get("dec_type")}
        cl = {}
        if s in CLUSTERED:
            cl["n_clusters"] = self.clusters
            if self.clusters == 1:
                cl["training"] = 0
            elif "classifier_train" in o:
                cl["training"] = o["classifier_train"]
            if "cluster" in o:
                cl["cluster"] = bool(o["cluster"])
        if s == "entropy" and o.get("dec_type") == "BF":
            name = {1: "WBF", 2: "MWBF", 3: "MWBF_NO_LOOPS"}[o["wbf_variant"]]
            soft = {"cls": "wbf", "n": self.n, "k": self.k, "max_iter": it, "type": name, "info": True}
        if s == "bf":
            top = {"cls": "wbf", "n": self.n, "k": self.k, "max_iter": max(int(3 * p * self.n), it), "info": True}
            if group == "decoded_ms":
                return None, {"cls": "soft", "n": self.n, "k": self.k, "max_iter": 20, "type": "MS"}
            top["type"] = {"wbf": "WBF", "mwbf": "MWBF", "no_loop": "MWBF_NO_LOOPS"}[group.replace("decoded_", "").replace("entropy_", "")]
            if "entropy" not in group:
                return None, top
            return dict(cls=CE, bit_flip=p, n_clusters=1, cluster=False, reliability_method=0, **mlen, **ent, **win, **conf), top
        if s == "gallager":
            top = {"cls": "gal", "n": self.n, "k": self.k, "max_iter": it, "info": True}
            if group == "decoded_galbf":
                return None, top
            e = dict(ent)
            force = group.endswith("forcing")
            if force and e:
                e["entropy_threshold"] /= 5
            return dict(cls=CE, bit_flip=p, n_clusters=1, cluster=False, reliability_method=3 if force else 0, **mlen, **e, **win, **conf), top
        if s == "rafael":
            soft = {"cls": "spa", "n": self.n, "m": 6, "k": self.k, "info": True, "channel": False, "max_iter": it, "type": o.get("dec_type")}
            cl = {"n_clusters": 1, "training": 0}
        if group == "decoded_ldpc":
            if s == "mavlink":
                soft["max_iter"] = it * o["segiterations"]
            return None, soft
        if group == "decoded_pre_trained":
            return dict(cls=CE, bit_flip=p, n_clusters=1, cluster=False, pre=True, **mlen, **ent, **clip, **win), soft
        if group == "decoded_entropy" and s == "pretrained":
            return dict(cls=CE, bit_flip=p, n_clusters=1, cluster=False, pre=False, **mlen, **ent, **clip, **win, **conf), soft
        if group == "decoded_entropy":
            if s == "combined":
                mlen = {"model_length": self.n}
            return dict(cls=CE, bit_flip=p, **mlen, **ent, **clip, **win, **conf, **cl), soft
        if group == "decoded_dude":
            return dict(cls="ClassifyingDudeDecoder", bit_flip=p, context_length=o["context_length"], **mlen, **clip, **conf, **cl), soft
        thr = {}
        for a, b in (("valid_threshold", "valid_thr"), ("invalid_threshold", "invalid_thr"), ("valid_factor", "valid_factor"),
                     ("invalid_factor", "invalid_factor")):
            if a in o:
                thr[b] = o[a]
        if "learn" in o:
            thr["learn"] = o["learn"]
        if group in ("decoded_rect", "decoded_rectify"):
            st = True if s == "combined" else not o["cluster"]
            return dict(cls="MavlinkRectifyingDecoder", model_length=self.k if s == "mavlink" else self.n, structures=st,
                        segmentation_iterations=o["segiterations"] if s == "mavlink" else 1, **thr, **win, **conf, **cl), soft
        return dict(cls="CombinedUnifiedDecoder", model_length=self.n, bit_flip=p, structures=True, flip=bool(o["flip"]) if "flip" in o else None,
                    **thr, **ent, **clip, **win, **conf, **cl), soft


ALIASES = {"training": ("classifier_training", "classifier_training_size"), "valid_thr": ("valid_thr", "valid_threshold"),
           "invalid_thr": ("invalid_thr", "invalid_threshold")}


class Recorded:
    """The decoders and receivers of a run as recorded."""

    def __init__(self, trace):
        self.inst, self.sent, self.done, self.failed, self.sched = {}, [], {}, [], []
        inner = set()
        for e in trace:
            if e[0] == "new":
                self.inst[e[1]] = {"cls": e[2], "args": e[3], "item": e[4], "calls": [], "structures": None}
                for v in e[3].values():
                    if isinstance(v, tuple) and v and v[0] == "decoder":
                        inner.add(v[1])
            elif e[0] == "setup":
                self.inst[e[1]]["setup"] = e[2]
            elif e[0] == "call":
                self.inst[e[1]]["calls"].append(e[2:])
            elif e[0] == "structures":
                self.inst[e[1]]["structures"] = e[2]
            elif e[0] == "sent":
                self.sent.append(e[1])
            elif e[0] == "done":
                self.done[e[1]] = (e[2], e[3])
            elif e[0] == "failed":
                self.failed.append(e[1])
            elif e[0] == "sched":
                self.sched.append(e[1:])
        self.top = {i: v for i, v in self.inst.items() if i not in inner}


def mismatch(rec, inst, recv, dec, exp):
    """First setting of a recorded decoder that is not what was asked for, or None."""
    if recv is None:
        if inst["cls"] != dec["cls"]:
            return f"is a {inst['cls']} decoder"
        d = inst
    else:
        if inst["cls"] != recv["cls"]:
            return f"is a {inst['cls']}"
        a = inst["args"]
        for k, v in recv.items():
            if k in ("cls",) or (k == "flip" and v is None):
                continue
            if k == "pre":
                got, v = a.get("data_model"), X.models()[1] if v else None
            elif k == "learn":
                got, v = a.get("data_model"), None if v else X.models()[0]
            elif k == "structures":
                got, v = inst["structures"], (STRUCT[exp.clusters] if v else None)
            elif k == "cluster":
                got = bool(a.get("cluster"))
            else:
                name = next((n for n in ALIASES.get(k, (k,)) if n in a), None)
                if name is None:
                    continue
                got = a[name]
            if isinstance(v, float) and isinstance(got, (int, float)) and not isinstance(got, bool):
                ok = abs(got - v) <= 1e-9 * max(1e-6, abs(v))
            else:
                ok = got == v
            if not ok:
                return f"was set up with {k}={got} instead of {v}"
        ids = [v[1] for v in a.values() if isinstance(v, tuple) and v and v[0] == "decoder"]
        if len(ids) != 1:
            return "does not use one error-correcting decoder"
        d = rec.inst[ids[0]]
        if d["cls"] != dec["cls"]:
            return f"uses a {d['cls']} decoder"
    for k, v in dec.items():
        if k != "cls" and v is not None and d["args"].get(k) != v:
            return f"decoder has {k}={d['args'].get(k)} instead of {v}"
    return None


def hard(x):
    return x < 0 if x.min() < 0 else x == 1


def find(rec, exp, R, cols, drop, recv, want_r, want_d, used):
    """The recorded decoder behind a group of results: (its number, its calls for these words, why none fits)."""
    N, why = len(recv), "no decoder was given these words"

    def differs(call, t):
        return next((c for j, c in enumerate(cols) if c not in drop and not same(R[c][t], call[2][j])), None)

    for i, inst in (rec.top if want_r is not None else rec.inst).items():
        if i in used or len(inst["calls"]) < N or inst["calls"][0][0].size != exp.n:
            continue
        if want_r is None:  # without memory: it may serve several steps, and a receiver besides
            picked, bad = [], None
            for c in inst["calls"]:
                t = len(picked)
                if t < N and np.array_equal(hard(c[0]), recv[t] == 1):
                    d = differs(c, t)
                    if d is None:
                        picked.append(c)
                    else:
                        bad = f"column {d} of word {t} is not what that decoder answered"
            if not picked:
                why = bad or why
                continue
            m = mismatch(rec, inst, want_r, want_d, exp)
            if m is None and len(picked) == N:
                return i, picked, None
            why = m or bad or why
            continue
        if any(not np.array_equal(hard(c[0]), r == 1) for c, r in zip(inst["calls"], recv)):
            continue
        m = mismatch(rec, inst, want_r, want_d, exp)
        if m is None and len(inst["calls"]) != N:
            m = f"decoded {len(inst['calls'])} words, the step has {N}: it was not made for this step"
        if m is None:
            d = next(((t, d) for t in range(N) if (d := differs(inst["calls"][t], t))), None)
            m = d and f"column {d[1]} of word {d[0]} is not what that receiver answered"
        if m is None:
            return i, inst["calls"], None
        why = m
    return None, None, why


def fresh(ctx, rec, i, what):
    """The answers are those of a receiver that knew nothing before the first word of the step."""
    v = rec.inst[i]
    answers = {}
    for a in v["args"].values():
        if isinstance(a, tuple) and a and a[0] == "decoder":
            answers.update((c[0].tobytes(), c[2]) for c in rec.inst[a[1]]["calls"])
    for t, (got, (_, _, r)) in enumerate(zip(X.replay(v["cls"], v["setup"], v["structures"], v["calls"], answers), v["calls"])):
        ctx.check(got is not None and same_answer(got, r), "history", lambda: f"{what}: word {t} was not decoded as a receiver set up for this step alone decodes it: "
                  "what it learned elsewhere came along")
    ctx.probe("replayed_receiver")


def same_answer(a, b):
    if isinstance(a, np.ndarray) and a.dtype.kind == "f":
        return a.shape == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_answer(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, np.floating)):
        return bool(np.isclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True))
    return same(a, b)


def rows(step, group):
    d = step[group]
    return d.to_dict("list") if hasattr(d, "to_dict") else d


def check_step(ctx, exp, rec, step, x, what, used):
    n, k, N = exp.n, exp.k, exp.words
    p = exp.p(x)
    ctx.check(int(step["number_of_buffers"]) == N, "words", lambda: f"{what}: {step['number_of_buffers']} words recorded, {N} expected")
    ctx.check(int(step["buffer_len"]) == n, "words", lambda: f"{what}: word length {step['buffer_len']} recorded, {n} expected")
    D = rows(step, "data")
    for c in ("encoded", "corrupted", "error_idx", "info_errors", "parity_errors"):
        ctx.check(c in D and len(D[c]) == N, "words", lambda: f"{what}: data column {c} holds {len(D.get(c, []))} rows instead of {N}")
    sent = [np.asarray(w).astype(int) for w in D["encoded"]]
    recv = [np.asarray(w).astype(int) for w in D["corrupted"]]
    errs = 0
    per = 0
    hist = np.zeros(4, dtype=int)
    for i in range(N):
        ctx.check(sent[i].shape == (n,) and recv[i].shape == (n,), "words", lambda: f"{what}: word {i} has the wrong length")
        ctx.check(np.array_equal(sent[i][:exp.info[i].size], exp.info[i]), "sent", lambda: f"{what}: word {i} does not carry transmission {i}")
        ctx.check(exp.csv or any(np.array_equal(sent[i], w) for w in rec.sent), "sent", lambda: f"{what}: word {i} is not one the encoder made")
        diff = np.flatnonzero(sent[i] != recv[i])
        e = np.asarray(D["error_idx"][i])
        e = np.flatnonzero(e) if e.dtype == bool else np.sort(e)
        ctx.check(np.array_equal(e, diff), "errors", lambda: f"{what}: word {i}: error positions recorded are not where the received word differs "
                  f"from the sent one ({e.size} recorded, {diff.size} differ)")
        ctx.check(int(D["info_errors"][i]) == int((diff < k).sum()) and int(D["parity_errors"][i]) == int((diff >= k).sum()), "counts",
                  lambda: f"{what}: word {i}: {D['info_errors'][i]} information and {D['parity_errors'][i]} parity errors recorded, "
                  f"{int((diff < k).sum())} and {int((diff >= k).sum())} made")
        if not exp.soft:
            ctx.check(diff.size == int(n * p), "channel", lambda: f"{what}: word {i} got {diff.size} errors instead of {int(n * p)}")
        errs += diff.size
        hist += np.histogram(diff, bins=4, range=(0, n))[0]
        per += 1
    raw = step[exp.sp.get("raw", "raw_ber")]
    want = int(n * p) / n if not exp.soft else errs / n / N
    ctx.check(close(raw, want), "counts", lambda: f"{what}: raw bit error rate {raw} recorded, {want} made")
    if errs >= 40:  # spread evenly over the word, up to eight standard deviations
        q = errs / 4
        ctx.check(bool(np.all(np.abs(hist - q) <= 8 * math.sqrt(q * 0.75) + 1)), "channel", lambda: f"{what}: errors fall unevenly on the quarters of "
                  f"the word: {hist.tolist()}")
    # what the decoders saw and answered
    if exp.soft:
        sig = math.sqrt(1 / exp.snr(x) / 2)
    noisy = None
    for g, cols in exp.sp["groups"].items():
        want_r, want_d = exp.want(g, x)
        if cols is None:
            cols = HARD if want_d["cls"] in ("wbf", "gal") else PLAIN
        R = rows(step, g)
        drop = exp.sp.get("drop", set())
        for c in cols + ["hamming"]:
            if c not in drop:
                ctx.check(c in R and len(R[c]) == N, "rows", lambda: f"{what}: {g} has {len(R.get(c, []))} rows of {c} instead of {N}")
        inst, calls, why = find(rec, exp, R, cols, drop, recv, want_r, want_d, used)
        ctx.check(inst is not None, "decoders", lambda: f"{what}: {g}: no decoder of the run fits: {why}")
        if want_r is not None:
            used.add(inst)
            fresh(ctx, rec, inst, f"{what}: {g}")
        # what it was given
        for t in range(N):
            got = calls[t][0]
            if not exp.soft:
                ref = (1 - 2 * recv[t]) * math.log((1 - p) / p)
                if want_d["cls"] == "gal" and got.min() >= 0:
                    ref = recv[t].astype(float)
            else:
                scaled = want_d["cls"] in ("soft", "spa")
                y = got * (sig * sig / 2) if scaled else got
                if noisy is None or len(noisy) <= t:
                    noisy = (noisy or []) + [y]
                ref = noisy[t] * (2 / (sig * sig)) if scaled else noisy[t]
            ctx.check(np.allclose(got, ref, rtol=1e-9, atol=1e-12), "given", lambda: f"{what}: {g}: word {t} given to the decoder is not the "
                      "received one")
            err = calls[t][1]
            if err is not None:
                ctx.check(np.array_equal(np.sort(err), np.flatnonzero(sent[t] != recv[t])), "given", lambda: f"{what}: {g}: word {t}: the receiver "
                          "was told other error positions")
        ham = [int(np.count_nonzero(np.asarray(R["estimate"][t]).astype(int) != sent[t])) for t in range(N)]
        for t in range(N):
            ctx.check(int(R["hamming"][t]) == ham[t], "hamming", lambda: f"{what}: {g}: word {t}: {R['hamming'][t]} wrong bits recorded, {ham[t]} are wrong")
            if ham[t] and bool(R["decode_success"][t]):
                ctx.probe("undetected_error_recorded")
        rate, ber = exp.sp["rates"][g]
        ctx.check(close(step[rate], sum(h == 0 for h in ham) / N), "rates", lambda: f"{what}: {rate} is {step[rate]}, {sum(h == 0 for h in ham)} of {N} "
                  "words were right")
        ctx.check(close(step[ber], sum(ham) / (N * n)), "rates", lambda: f"{what}: {ber} is {step[ber]}, {sum(ham)} of {N * n} bits were wrong")
    if exp.soft:
        z = np.concatenate([y * (1 - 2 * w) for y, w in zip(noisy, sent)])
        ctx.check(abs(z.mean() - 1) <= 8 * sig / math.sqrt(z.size) and abs(z.std() / sig - 1) <= 8 / math.sqrt(2 * z.size), "channel",
                  lambda: f"{what}: noise of mean {z.mean() - 1:.4f} and deviation {z.std():.4f} instead of 0 and {sig:.4f}")
    return [np.flatnonzero(a != b) for a, b in zip(sent, recv)]


def chance(k, n, q):
    """Probability of k or more hits in n tries (upper bound)."""
    if k <= n * q:
        return 1.0
    x = k / n
    if x >= 1:
        return q ** n
    return math.exp(-n * (x * math.log(x / q) + (1 - x) * math.log((1 - x) / (1 - q))))


def independent(ctx, exp, pats):
    """No two words anywhere in the run were hit by (nearly) the same errors, nor by the same draws scaled to another number of errors."""
    flat = [(s, i, np.sort(e)) for s, st in enumerate(pats) for i, e in enumerate(st) if e.size >= 20]
    for a in range(len(flat)):
        for b in range(a + 1, len(flat)):
            x, y = (flat[a], flat[b]) if flat[a][2].size <= flat[b][2].size else (flat[b], flat[a])
            m = x[2].size
            lim = 0.75 * m if not exp.soft else 0.9 * m
            both = np.intersect1d(x[2], y[2]).size
            said = lambda: f"step {x[0]} word {x[1]} and step {y[0]} word {y[1]} share"  # noqa: E731
            ctx.check(both <= lim, "independence", lambda: f"{said()} {both} of {m} error positions: their noise was drawn once")
            if exp.soft or y[2].size == m:
                continue
            want = x[2] * ((exp.n - y[2].size + m / 2) / (exp.n - m / 2))  # the draws of a set of m, made for a larger set
            j = np.searchsorted(y[2], want)
            near = np.minimum(np.abs(y[2][np.clip(j, 0, y[2].size - 1)] - want), np.abs(y[2][np.clip(j - 1, 0, y[2].size - 1)] - want))
            hits = int((near <= 2).sum())
            ctx.check(chance(hits, m, min(0.99, 5 * y[2].size / exp.n)) > 1e-15, "independence", lambda: f"{said()} {hits} of {m} error positions up to scale: "
                      "their noise was drawn once")


def run_dirs(files, prefix="results/"):
    out = {}
    for f, b in files.items():
        f = clauses(f)
        if f.startswith(prefix) and f.count("/") >= 2:
            out.setdefault(f.split("/")[1], {})[f.split("/", 2)[2]] = b
    return out


def step_files(files, exp):
    """Files holding one step each, wherever they were put: {name: step}."""
    out = {}
    for f, b in files.items():
        if f.endswith(".pickle"):
            d = is_dict(b)
            if d is not None and "number_of_buffers" in d and "data" in d:
                out[f] = d
    return out


def check_results(ctx, exp, plan, r, rec, tag):
    """A run that ended without complaint: every file."""
    files = {clauses(f): b for f, b in r.files.items()}
    dirs = run_dirs(files)
    ctx.check(len(dirs) == 1, "files", lambda: f"{tag}: {len(dirs)} run folders instead of one")
    d = next(iter(dirs.values()))
    ctx.check("cmd.txt" in d and d["cmd.txt"], "files", lambda: f"{tag}: the command was not saved")
    ctx.check("results/log.log" not in files and d.get("log.log"), "log", lambda: f"{tag}: the log is not in the run folder")
    sf = step_files(files, exp)
    S = len(exp.points)
    res = None
    if exp.sp["xz"]:
        xz = [b for f, b in d.items() if f.endswith(".xz")]
        ctx.check(len(xz) == 1, "files", lambda: f"{tag}: {len(xz)} compressed result files")
        res = pickle.loads(lzma.decompress(xz[0]))
        ctx.check(isinstance(res, list) and len(res) == S, "steps", lambda: f"{tag}: {len(res)} steps in the results, {S} asked for")
    ctx.check(len(sf) == S, "steps", lambda: f"{tag}: {len(sf)} step files, {S} steps asked for")
    if rec.done:
        ctx.check(sorted(rec.done) == list(range(S)), "steps", lambda: f"{tag}: steps run: {sorted(rec.done)}")
        done = [pickle.loads(rec.done[i][1]) for i in range(S)]
        if res is None:
            res = done
        else:
            for i in range(S):
                ctx.check(same(res[i], done[i]), "steps", lambda: f"{tag}: step {i} of the results is not what the worker returned for it")
    ctx.check(res is not None, "steps", f"{tag}: no results")
    left = dict(sf)
    for i in range(S):
        f = next((f for f, s in left.items() if same(s, res[i])), None)
        ctx.check(f is not None, "steps", lambda: f"{tag}: no step file holds what the results hold for step {i}")
        left.pop(f)
    used, pats = set(), []
    for i in range(S):
        pats.append(check_step(ctx, exp, rec, res[i], exp.points[i], f"{tag}, step {i}", used))
    independent(ctx, exp, pats)
    # summary
    sums = [x for f, b in d.items() if f.endswith(".pickle") and (x := is_dict(b)) is not None and "args" in x]
    ctx.check(len(sums) == 1, "summary", lambda: f"{tag}: {len(sums)} summaries")
    mats = [scipy.io.loadmat(io.BytesIO(b)) for f, b in d.items() if f.endswith(".mat")]
    ctx.check(len(mats) == 1 + bool(exp.sp["resmat"]), "summary", lambda: f"{tag}: {len(mats)} .mat files")
    for name, key in exp.sp["summary"].items():
        ref = np.array([float(s[key]) for s in res])
        ctx.check(name in sums[0] and np.allclose(np.asarray(sums[0][name], dtype=float), ref, rtol=1e-12, atol=0), "summary",
                  lambda: f"{tag}: summary {name} is {sums[0].get(name)}, the steps say {ref}")
        for m in mats:
            ctx.check(name in m and np.allclose(np.asarray(m[name], dtype=float).ravel(), ref, rtol=1e-12, atol=0), "summary",
                      lambda: f"{tag}: {name} in the .mat file is {m.get(name)}, the steps say {ref}")
    ext = {"awgn": {"snr": exp.points}, "bf": {"snr_db": exp.points, "snr_linear": np.array([exp.snr(x) for x in exp.points])}}.get(exp.s, {})
    if exp.s == "entropy" and exp.soft:
        ext = {"snr_db": exp.points, "snr_linear": np.array([exp.snr(x) for x in exp.points])}
    for name, ref in ext.items():
        ctx.check(name in sums[0] and np.allclose(np.asarray(sums[0][name], dtype=float), ref, rtol=1e-9), "summary",
                  lambda: f"{tag}: summary {name} is {sums[0].get(name)} instead of {ref}")
    for m in mats:
        if "results" in m:
            q = np.atleast_1d(m["results"].squeeze())
            ctx.check(q.size == S, "summary", lambda: f"{tag}: {q.size} steps in the .mat file")
            for i in range(S):
                e = q[i]
                while getattr(e, "shape", None) and e.dtype == object:
                    e = e.ravel()[0]
                for g, (rate, ber) in exp.sp["rates"].items():
                    for key in (rate, ber):
                        v = float(np.asarray(e[key]).ravel()[0].squeeze() if np.asarray(e[key]).dtype == object else np.asarray(e[key]).squeeze())
                        ctx.check(close(v, res[i][key]), "summary", lambda: f"{tag}: step {i} {key} in the .mat file is {v}")
    a = vars(sums[0]["args"])
    for k, v in exp.o.items():
        if k == "classifier_train" and exp.clusters == 1:
            continue
        ctx.check(a.get(k) == v, "summary", lambda: f"{tag}: the summary says {k}={a.get(k)}, the run was asked for {v}")
    return d, res, a


def execute(plan, ctx):
    exp = Exp(plan)
    fault = plan.get("fault") or {}
    ctx.probe(exp.s)
    if exp.clusters > 1:
        ctx.probe(f"clusters_{exp.clusters}")
    for c, q in (("repeated_data", exp.o.get("multiply_data", 0)), ("all_data", exp.o.get("N", 0) == 0),
                 ("more_asked_than_there_is", exp.o.get("N", 0) > len(exp.data)), ("awgn_channel", exp.soft),
                 ("bf_decoder", exp.o.get("dec_type") == "BF"), ("window_unlimited", exp.o.get("window_len") == 0)):
        if q:
            ctx.probe(c)
    older = {}

    def prepare(root):
        if fault.get("kind") == "older":
            import os
            # every second the clock of the run can show when it starts already has a finished run's folder
            w = X.World(plan, root)
            names = set()
            for _ in range(40):
                t = w.now()
                names.add(f"{t.date()}_{t.hour}_{t.minute}_{t.second}")
            for nm in names:
                os.mkdir(os.path.join(root, "results", nm))
                for f in ("cmd.txt", "log.log", "summary.pickle"):
                    with open(os.path.join(root, "results", nm, f), "wb") as g:
                        g.write(b"an older run's " + f.encode())
                    older[f"results/{nm}/{f}"] = b"an older run's " + f.encode()

    r = exp.run(exp.args(), plan, prepare)
    ctx.event("run", exp.s, r.outcome, r.code, r.writes, sorted(r.files))
    ctx.check(not r.hung, "hang", f"{exp.s}: the run did not end")
    rec = Recorded(r.trace)
    ctx.event("sched", rec.sched, [(i, v["cls"], len(v["calls"])) for i, v in sorted(rec.inst.items())])
    per = {}
    for i, (w, _) in rec.done.items():
        per.setdefault(w, []).append(i)
    if any(len(v) > 1 for v in per.values()):
        ctx.probe("two_steps_one_worker")
    if len(per) > 1:
        ctx.probe("steps_in_two_workers")
    if [c for _, c in rec.sched] != sorted(c for _, c in rec.sched):
        ctx.probe("out_of_order")
    ctx.at(sum(plan["ticks"]) / len(plan["ticks"]) * 10)
    if plan["start"] in (5, 9) or sum(plan["ticks"]) > 0:
        ctx.probe("midnight")
    if exp.s == "gallager" and exp.o.get("window_len") == 0 and r.outcome[:2] == ("raised", "TypeError") and "'NoneType'" in r.outcome[2]:
        ctx.finding("gallager-forcing-without-window")
        ctx.state(exp.s, "finding")
        return
    hit = bool(r.hit) or r.outcome[0] == "crash"
    kind = fault.get("kind")
    if kind and (hit or kind == "older"):
        ctx.fault({"decoder": "decoder raises in a worker", "open": "file refused", "write": "disk full mid-write", "crash": "run killed",
                   "older": "folder of an older run in the way"}[kind])
    ctx.state(exp.s, exp.clusters, exp.soft, tuple(sorted(len(v) for v in per.values())), kind, fault.get("at"), r.outcome[0])
    if kind == "older":
        ctx.probe("older_run_same_second")
        for f, b in older.items():
            ctx.check(r.files.get(f) == b, "overwrites", lambda: f"{exp.s}: {f} of an older run was changed or lost")
        if r.outcome[0] != "ok":
            return
        # it found another name: nothing more to compare here
        return
    if kind is None or not hit:
        ctx.check(r.outcome[0] == "ok", f"raised:{r.outcome[1]}", lambda: f"{exp.s} {exp.args()}: {r.outcome[1]}: {r.outcome[2]}")
        d, res, a = check_results(ctx, exp, plan, r, rec, exp.s)
        for s in res:
            ctx.array("raw", np.array([float(s[exp.sp.get("raw", "raw_ber")])]))
        again(ctx, exp, plan, d, a)
        return
    # something failed: what had been completed must not be lost, and the run must say so
    sf = step_files({clauses(f): b for f, b in r.files.items()}, exp)
    for i, (w, blob) in rec.done.items():
        want = pickle.loads(blob)
        ctx.check(any(same(s, want) for s in sf.values()), "lost", lambda: f"{exp.s}: step {i} had been completed when {kind} struck; no file holds it")
    if kind == "crash":
        ctx.probe("crash")
        return
    ctx.check(r.outcome[0] == "raised", "silent", lambda: f"{exp.s}: {kind} at {fault.get('at', fault.get('call'))} was swallowed: the run ended as if "
              "all were well")
    expect = {"decoder": "RuntimeError", "open": "PermissionError", "write": "OSError"}[kind]
    ctx.check(r.outcome[1] == expect, "silent", lambda: f"{exp.s}: failed with {r.outcome[1]} ({r.outcome[2]}) instead of the {expect} that happened")
    ctx.probe("fault_in_worker" if rec.failed else "fault_when_saving")
    files = {clauses(f): b for f, b in r.files.items()}
    dirs = run_dirs(files)
    if any("cmd.txt" in v and v["cmd.txt"] for v in dirs.values()):
        logs = [v["log.log"] for v in dirs.values() if "log.log" in v]
        ctx.check(len(logs) == 1 and "results/log.log" not in files, "log", lambda: f"{exp.s}: after the failure ({kind}) the log is not in the run folder")
        text = {"decoder": b"simulated decoder failure", "open": b"Permission denied", "write": b"No space left"}[kind]
        ctx.check(text in logs[0], "log", lambda: f"{exp.s}: the log does not mention the failure ({kind})")


def again(ctx, exp, plan, d, a):
    """The saved command repeats the run: same settings, same number of words and steps; every step in a fresh worker."""
    cmd = shlex.split(d["cmd.txt"].decode())
    ctx.check(len(cmd) >= 2 and cmd[0].startswith("python") and cmd[1].endswith(".py"), "command", lambda: f"{exp.s}: {cmd[:2]} does not run the script")
    import os
    ctx.check(os.path.basename(cmd[1]) == exp.sp["file"], "command", lambda: f"{exp.s}: the saved command runs {cmd[1]}")
    p2 = dict(plan, sched=list(range(8)), order=[0], ticks=[1], cpus=len(exp.points))
    p2.pop("fault", None)
    r = exp.run(cmd[2:], p2)
    ctx.check(not r.hung, "hang", f"{exp.s}: the run did not end")
    ctx.check(r.outcome[0] == "ok", "command", lambda: f"{exp.s}: the saved command does not work: {r.outcome[1]}: {r.outcome[2]}")
    files = {clauses(f): b for f, b in r.files.items()}
    sums = [x for v in run_dirs(files).values() for f, b in v.items() if f.endswith(".pickle") and (x := is_dict(b)) is not None and "args" in x]
    ctx.check(len(sums) == 1, "command", lambda: f"{exp.s}: the repeated run left {len(sums)} summaries")
    b = vars(sums[0]["args"])
    for k in a:
        ctx.check(b.get(k) == a[k], "command", lambda: f"{exp.s}: the saved command repeats the run with {k}={b.get(k)} instead of {a[k]}")
    sf = step_files(files, exp)
    ctx.check(len(sf) == len(exp.points) and all(int(s["number_of_buffers"]) == exp.words for s in sf.values()), "command",
              lambda: f"{exp.s}: the saved command decodes {[int(s['number_of_buffers']) for s in sf.values()]} words, the run {exp.words} in each of "
              f"{len(exp.points)} steps")
