"""Planted bugs of the experiment runs (C29)."""
H = "runs/HC_eilat_July_2018/"
ENT = H + "simulated_data_classifying_entropy_decoder.py"
DUD = H + "simulated_data_classifying_dude_decoder.py"
MAV = H + "simulated_data_mavlink_decoding.py"
CMB = H + "simulated_data_combined_decoder.py"
PRE = H + "simulated_data_pretrained_model.py"
GAL = H + "simulate_gallager_bf.py"
AWG = H + "classifying_entropy_decoder_over_awgn_channel.py"
BF = H + "simluated_data_entropy_bf_decoders.py"
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c29-unordered", "C29", [
    (ENT, "pool.map(simulation_step, map_arg)\n        # results", "list(pool.imap_unordered(simulation_step, map_arg))\n        # results")],
    "an early channel point that takes longer than a later one in another worker",
    "results and summary hold the steps in order of completion, not of the channel points",
    """
slow = QUICK + '''
import time
_o = ldpc.decoder.DecoderWiFi.decode
def _d(self, x, *a, **k):
    if abs(float(x[0])) > 5:
        time.sleep(1.5)
    return _o(self, x)
ldpc.decoder.DecoderWiFi.decode = _d
'''
r = experiment("simulated_data_classifying_entropy_decoder.py", "--N", 1, "--nflips", 2, "--minflip", 0.004, "--maxflip", 0.05, "--processes", 2,
               prelude=slow)
need(r.rc == 0, r.err[-300:])
need(list(r.summary["raw_ber"]) == sorted(r.summary["raw_ber"]), "steps out of order: %s" % r.summary["raw_ber"])
""")

bug("c29-worker-receiver", "C29", [
    (DUD, "def simulation_step(p: float) -> dict[str, Any]:\n", "dude_decoder = None  # building one takes long: each worker keeps its own\n\n\ndef simulation_step(p: float) -> dict[str, Any]:\n    global dude_decoder\n"),
    (DUD, "    dude_decoder = ClassifyingDudeDecoder(DecoderWiFi(spec=spec, max_iter=ldpc_iterations,\n                                                      decoder_type=args.dec_type),\n                                          model_length=model_length, clipping_factor=clipping_factor,\n                                          classifier_training=args.classifier_train, n_clusters=args.n_clusters,\n                                          context_length=args.context_length, conf_center=args.conf_center,\n                                          conf_slope=args.conf_slope, bit_flip=p, cluster=args.cluster,\n                                          entropy_threshold=thr)\n",
     "    if dude_decoder is None or dude_decoder.bit_flip != p:\n        previous = dude_decoder\n        dude_decoder = ClassifyingDudeDecoder(DecoderWiFi(spec=spec, max_iter=ldpc_iterations,\n                                                          decoder_type=args.dec_type),\n                                              model_length=model_length, clipping_factor=clipping_factor,\n                                              classifier_training=args.classifier_train, n_clusters=args.n_clusters,\n                                              context_length=args.context_length, conf_center=args.conf_center,\n                                              conf_slope=args.conf_slope, bit_flip=p, cluster=args.cluster,\n                                              entropy_threshold=thr)\n        if previous is not None and args.cluster:\n            dude_decoder.classifier = previous.classifier\n")],
    "clustering enabled and a worker that simulates two or more channel points",
    "the classifier trained in one step goes on in the next step of the same worker",
    """
spy = QUICK + '''
import decoders
_i = decoders.ClassifyingDudeDecoder.decode_buffer
seen = {}
def _b(self, x, *a, **k):
    if id(self) not in seen:
        seen[id(self)] = self
        if any(o.classifier is self.classifier for i, o in seen.items() if o is not self):
            raise RuntimeError("classifier of another step")
    return _i(self, x, *a, **k)
decoders.ClassifyingDudeDecoder.decode_buffer = _b
'''
r = experiment("simulated_data_classifying_dude_decoder.py", "--N", 1, "--nflips", 2, "--minflip", 0.004, "--maxflip", 0.05, "--processes", 1,
               "--cluster", 1, "--n_clusters", 2, "--classifier_train", 2, "--context_length", 1, prelude=spy)
need(r.rc == 0, r.err[-300:])
""")

bug("c29-tiled-errors", "C29", [
    (PRE, "        tuple(rng.choice(encoder.n, size=no_errors, replace=False)\n              for _ in range(n))\n    )\n",
     "        tuple(rng.choice(encoder.n, size=no_errors, replace=False)\n              for _ in range(n >> args.multiply_data)) * 2 ** args.multiply_data\n    )\n")],
    "repeated data (--multiply_data)",
    "the repetitions of a word are hit by the same errors, so they add nothing to the statistics",
    """
r = experiment("simulated_data_pretrained_model.py", "--N", 2, "--nflips", 1, "--minflip", 0.03, "--maxflip", 0.03, "--multiply_data", 1, "--processes", 1,
               prelude=QUICK)
need(r.rc == 0, r.err[-300:])
e = [tuple(sorted(int(i) for i in x)) for x in r.steps[0]["data"]["error_idx"]]
need(len(e) == 4 and len(set(e)) == 4, "repeated words share their errors")
""")

bug("c29-choice-repeats", "C29", [
    (CMB, "        tuple(rng.choice(encoder.n, size=no_errors, replace=False)\n              for _ in range(n))\n",
     "        tuple(rng.integers(encoder.n, size=no_errors)\n              for _ in range(n))\n")],
    "an error position drawn twice for one word",
    "the bit is damaged twice, that is not at all: fewer errors than recorded",
    """
r = experiment("simulated_data_combined_decoder.py", "--N", 3, "--nflips", 1, "--minflip", 0.06, "--maxflip", 0.06, "--processes", 1, prelude=QUICK)
need(r.rc == 0, r.err[-300:])
d = r.steps[0]["data"]
for t in range(3):
    diff = np.flatnonzero(np.asarray(d["encoded"][t]) != np.asarray(d["corrupted"][t]))
    need(np.array_equal(diff, np.sort(d["error_idx"][t])), "recorded errors are not the errors made")
""")

bug("c29-window-in-command", "C29", [
    (MAV, "    if window_len is not None:\n        cmd += f' --window_len {window_len}'\n    else:\n        cmd += ' --window_len 0'\n", "    if window_len:\n        cmd += f' --window_len {window_len}'\n")],
    "a run with an unlimited window (--window_len 0)",
    "the saved command repeats the run with the default window",
    """
r = experiment("simulated_data_mavlink_decoding.py", "--N", 1, "--nflips", 1, "--minflip", 0.01, "--maxflip", 0.01, "--processes", 1, "--window_len", 0,
               prelude=QUICK)
need(r.rc == 0, r.err[-300:])
q = experiment("simulated_data_mavlink_decoding.py", *r.cmd.split()[2:], prelude=QUICK)
need(q.rc == 0 and vars(q.summary["args"]) == vars(r.summary["args"]), "the saved command is another run")
""")

bug("c29-first-parity-bit", "C29", [
    (DUD, "parity_errors = np.sum(errors >= encoder.k, axis=1)", "parity_errors = np.sum(errors > encoder.k, axis=1)")],
    "an error in the first parity bit",
    "the parity error count misses it",
    """
r = experiment("simulated_data_classifying_dude_decoder.py", "--N", 4, "--multiply_data", 5, "--nflips", 1, "--minflip", 0.4, "--maxflip", 0.4,
               "--processes", 1, "--n_clusters", 3, "--cluster", 0, "--context_length", 1, prelude=QUICK + '''
import decoders
decoders.ClassifyingDudeDecoder.decode_buffer = lambda self, x, *a: (np.zeros(len(x), dtype=np.int_), np.zeros(len(x)), False, 1, 0, np.zeros(1))
''')
need(r.rc == 0, r.err[-300:])
d = r.steps[0]["data"]
for t in range(len(d["error_idx"])):
    need(d["info_errors"][t] + d["parity_errors"][t] == len(d["error_idx"][t]), "errors not counted")
""")

bug("c29-older-run", "C29", [
    (BF, "    os.mkdir(path)\n", "    os.makedirs(path, exist_ok=True)\n")],
    "two runs started within one second",
    "the second writes into the folder of the first and replaces its command and log",
    """
freeze = QUICK + '''
import pandas, matplotlib.pyplot, scipy.io, decoders, inference, mavlink_utils
import datetime as _d, types
class DT(_d.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls(2026, 1, 2, 3, 4, 5)
class D(_d.date):
    @classmethod
    def today(cls):
        return cls(2026, 1, 2)
m = types.ModuleType("datetime"); m.__dict__.update(_d.__dict__); m.datetime, m.date = DT, D
sys.modules["datetime"] = m
'''
def before(d):
    p = os.path.join(d, "results", "2026-01-02_3_4_5")
    os.mkdir(p)
    with open(os.path.join(p, "cmd.txt"), "w") as f:
        f.write("first run")
r = experiment("simluated_data_entropy_bf_decoders.py", "--N", 1, "--nflips", 1, "--minflip", 1, "--maxflip", 1, "--processes", 1, prelude=freeze, before=before)
need(r.files[os.path.join("results", "2026-01-02_3_4_5", "cmd.txt")] == b"first run", "the earlier run's command was replaced")
""")

bug("c29-save-late", "C29", [
    (MAV, "    with open(f'results/{timestamp}_{p}_simulation_classifying_rect.pickle', 'wb') as f:\n        pickle.dump(step_results, f)\n    return step_results\n",
     "    step_results[\"file\"] = f'results/{timestamp}_{p}_simulation_classifying_rect.pickle'\n    return step_results\n"),
    (MAV, "        # results: list[dict[str, Any]] = list(map(simulation_step, bit_flip_p))\n",
     "        # results: list[dict[str, Any]] = list(map(simulation_step, bit_flip_p))\n        for step in results:  # the workers do not write\n            with open(step.pop(\"file\"), 'wb') as f:\n                pickle.dump(step, f)\n")],
    "a later step that fails, or a run that is killed, after others were completed",
    "the completed steps are lost",
    """
bad = QUICK + '''
_o = ldpc.decoder.DecoderWiFi.decode
def _d(self, x, *a, **k):
    if abs(float(x[0])) < 3.5:
        raise RuntimeError("decoder gave up")
    return _o(self, x)
ldpc.decoder.DecoderWiFi.decode = _d
'''
r = experiment("simulated_data_mavlink_decoding.py", "--N", 1, "--nflips", 2, "--minflip", 0.004, "--maxflip", 0.05, "--processes", 1, prelude=bad)
need(r.rc != 0, "the failing step was not reported")
need(len(r.steps) == 1, "%d steps saved, one had been completed" % len(r.steps))
""")

bug("c29-failure-hidden", "C29", [
    (AWG, "    except Exception as e:\n        logger.exception(e)\n        shutil.move(\"results/log.log\", os.path.join(path, \"log.log\"))\n        raise e",
     "    except OSError as e:\n        raise e\n    except Exception as e:\n        logger.exception(e)\n        raise e\n    finally:\n        shutil.move(\"results/log.log\", os.path.join(path, \"log.log\"))"),
    (AWG, "        logger.info(\"saved results to mat file\")\n        shutil.move(\"results/log.log\", os.path.join(path, \"log.log\"))\n", "        logger.info(\"saved results to mat file\")\n")],
    "a write error while the results are saved",
    "the run's log does not tell why it ended",
    """
full = QUICK + '''
import builtins, errno
_open = builtins.open
def _f(f, mode="r", *a, **k):
    if str(f).endswith(".xz"):
        raise OSError(errno.ENOSPC, "No space left on device")
    return _open(f, mode, *a, **k)
builtins.open = _f
'''
r = experiment("classifying_entropy_decoder_over_awgn_channel.py", "--N", 1, "--n_points", 1, "--processes", 1, prelude=full)
need(r.rc != 0, "the write error was swallowed")
need("No space left" in r.log, "the log does not mention the failure")
""")

bug("c29-rate-of-other", "C29", [
    (BF, "    step_results[\"entropy_no_loop_success_rate\"] = sum(int(res[-1] == 0) for res in decoded_entropy_mwbf_no_loop) / float(n)\n",
     "    step_results[\"entropy_no_loop_success_rate\"] = sum(int(res[2]) for res in decoded_entropy_mwbf_no_loop) / float(n)\n")],
    "a word decoded wrong yet reported as a success (undetected error), or right and reported as a failure",
    "the success rate counts what the decoder claimed instead of right words",
    """
lie = QUICK + '''
ldpc.decoder.WbfDecoder.decode = lambda self, x, *a, **k: (np.ones(len(x), dtype=np.int_), True, 1, np.zeros(3, dtype=np.int_), np.zeros(3))
'''
r = experiment("simluated_data_entropy_bf_decoders.py", "--N", 1, "--nflips", 1, "--minflip", 1, "--maxflip", 1, "--processes", 1, prelude=lie)
need(r.rc == 0, r.err[-300:])
need(r.results[0]["entropy_no_loop_success_rate"] == 0, "a wrong word counts as a success")
""")

bug("c29-linear-snr", "C29", [
    (AWG, "    p = 0.5 * erfc(np.sqrt(delta * snr_linear))\n", "    p = 0.5 * erfc(np.sqrt(delta * 10 ** (snr / 10)))\n")],
    "channel points given on a linear scale (--snr_scale linear)",
    "the receiver is told another bit error rate than that of the channel",
    """
spy = QUICK + '''
import decoders, math
_i = decoders.ClassifyingEntropyDecoder.__init__
def _n(self, *a, **k):
    if abs(k["bit_flip"] - 0.5 * math.erfc(math.sqrt(2.0 * 1.5))) > 1e-9:
        raise RuntimeError("wrong bit flip probability %r" % k["bit_flip"])
    _i(self, *a, **k)
decoders.ClassifyingEntropyDecoder.__init__ = _n
'''
r = experiment("classifying_entropy_decoder_over_awgn_channel.py", "--N", 1, "--n_points", 1, "--min_ebno", 1.5, "--max_ebno", 1.5, "--snr_scale", "linear",
               "--processes", 1, prelude=spy)
need(r.rc == 0, r.err[-300:])
""")

bug("c29-threshold-leak", "C29", [
    (GAL, "    galbf_entropy_decoder_forcing = ClassifyingEntropyDecoder(GalBfDecoder(\n", "    thr = thr / 5\n    galbf_entropy_decoder_forcing = ClassifyingEntropyDecoder(GalBfDecoder(\n"),
    (GAL, "entropy_threshold=thr/5,", "entropy_threshold=thr,")],
    "a second channel point",
    "every step divides the threshold again, for both receivers",
    """
spy = QUICK + '''
import decoders
_i = decoders.ClassifyingEntropyDecoder.__init__
def _n(self, *a, **k):
    if min(abs(k["entropy_threshold"] - v) for v in (0.5, 0.1)) > 1e-9:
        raise RuntimeError("wrong threshold %r" % k["entropy_threshold"])
    _i(self, *a, **k)
decoders.ClassifyingEntropyDecoder.__init__ = _n
'''
r = experiment("simulate_gallager_bf.py", "--N", 1, "--nflips", 2, "--minflip", 0.01, "--maxflip", 0.02, "--multiply_data", 0, "--ent_threshold", 0.5, prelude=spy)
need(r.rc == 0, r.err[-300:])
""")

bug("c29-clusters-data", "C29", [
    (ENT, "        padded = np.array(binary_data[416:864] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (864 - 416))),\n", "        padded = np.array(binary_data[416:864] + Bits(auto=np.resize(padded[416:], encoder.k - (864 - 416))),\n"),
    (ENT, "    encoded.extend(encoded)\n", "    encoded += encoded[:len(hc_bin_data[:n])]\n")],
    "clusters and repeated data",
    "with two or three clusters only a part of the words is repeated",
    """
r = experiment("simulated_data_classifying_entropy_decoder.py", "--N", 2, "--nflips", 1, "--minflip", 0.01, "--maxflip", 0.01, "--multiply_data", 1,
               "--n_clusters", 3, "--cluster", 0, "--processes", 1, prelude=QUICK)
need(r.rc == 0, r.err[-300:])
need(r.results[0]["number_of_buffers"] == 12, "%d words instead of 12" % r.results[0]["number_of_buffers"])
""")

bug("c29-stale-worker-results", "C29", [
    (CMB, "    global ldpc_iterations\n    global model_length\n    global args\n    global window_len\n", "    global ldpc_iterations\n    global model_length\n    global args, rx_pool\n    global window_len\n"),
    (CMB, "    rx = []\n    decoded_ldpc = []\n", "    rx = rx_pool\n    decoded_ldpc = []\n"),
    (CMB, "def simulation_step(p: float) -> dict[str, Any]:\n", "rx_pool: list[Any] = []\n\n\ndef simulation_step(p: float) -> dict[str, Any]:\n")],
    "a worker that simulates two channel points",
    "the second step records the received words of the first",
    """
r = experiment("simulated_data_combined_decoder.py", "--N", 1, "--nflips", 2, "--minflip", 0.01, "--maxflip", 0.05, "--processes", 1, prelude=QUICK)
need(r.rc == 0, r.err[-300:])
for s in r.steps:
    d = s["data"]
    diff = np.flatnonzero(np.asarray(d["encoded"][0]) != np.asarray(d["corrupted"][0]))
    need(np.array_equal(diff, np.sort(d["error_idx"][0])), "the received word recorded is not this step's")
""")
