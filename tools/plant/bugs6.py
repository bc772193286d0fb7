"""Planted bugs of the field-trial analyses (C30) and the Rafael code simulation (C29)."""
A = "runs/Feb_2022/"
B = "runs/Feb_2023/"
D22, M22, U22, T22 = A + "experimental_data_run.py", A + "experimental_mavlink_based.py", A + "experimental_data_unified_decoder.py", A + "train_buffer_model.py"
D23, M23, U23, T23 = B + "experimental_data_run_feb_23.py", B + "experimental_mavlink_based.py", B + "experimental_data_unified_decoder.py", B + "train_buffer_model.py"
RAF = A + "simulation_rafael_code.py"
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c30-unknown-counted", "C30", [
    (D22, 'results["entropy_decoder_ber"] = sum(res[-1] for res in decoded_entropy if res[-1] >= 0) / float(n * sum(good_tx))',
     'results["entropy_decoder_ber"] = sum(max(res[-1], 0) for res in decoded_entropy) / float(n * number_of_messages)')],
    "a reception whose sent word is unknown", "the receiver's bit error rate is taken over all receptions, also those of which nothing is known",
    """
r = trial(2022, "experimental_data_run.py", days=[[(telemetry(1), [5, 9], []), (None, [3], []), (telemetry(2), [7], [])], []], prelude=QUICK)
need(r.rc == 0, r.err[-300:])
h = [x for x in r.results["decoded_entropy"]["hamming"] if x >= 0]
need(len(h) == 2 and abs(r.results["entropy_decoder_ber"] - sum(h) / (2 * 1000)) < 1e-12, "ber %s of %s" % (r.results["entropy_decoder_ber"], h))
""")

bug("c30-unknown-told", "C30", [
    (M23, "np.where(errors[tx_idx, :] == 1)[0]", "np.flatnonzero(errors[tx_idx, :])")],
    "a reception whose sent word is unknown", "the receiver is told that every bit of a reception with unknown word is wrong",
    """
spy = QUICK + '''
import decoders
_i = decoders.MavlinkRectifyingDecoder.decode_buffer
def _b(self, x, e=None, *a, **k):
    if e is not None and len(e) > 3:
        raise RuntimeError("told %d" % len(e))
    return _i(self, x, e, *a, **k)
decoders.MavlinkRectifyingDecoder.decode_buffer = _b
'''
r = trial(2023, "experimental_mavlink_based.py", days=[[(telemetry(1), [5, 9], []), (None, [3], []), (telemetry(2), [7], [])], []], prelude=spy)
need(r.rc == 0, r.err[-300:])
""")

bug("c30-known-by-first-bit", "C30", [
    (U23, "good_tx = tx[:, 0] != 2", "good_tx = tx[:, 0] == 1  # the sync byte starts with a one")],
    "a known sent word that is not telemetry and starts with a zero", "the error rates leave known words out of the denominator",
    """
w = telemetry(2)
w[0] = 0
r = trial(2023, "experimental_data_unified_decoder.py", days=[[(telemetry(1), [5, 9], []), (w, [3], []), (None, [7], [])], []], prelude=QUICK)
need(r.rc == 0, r.err[-300:])
h = [x for x in r.results["decoded_ldpc"]["hamming"] if x >= 0]
need(len(h) == 2 and abs(r.results["ldpc_decoder_ber"] - sum(h) / 2000) < 1e-12, "ber %s of %s" % (r.results["ldpc_decoder_ber"], h))
""")

bug("c30-erased-ones", "C30", [
    (D23, "errors[tx_idx, :] = tx[tx_idx, :] != (rx[tx_idx, :] < 0)", "errors[tx_idx, :] = (1 - 2. * tx[tx_idx, :]) * rx[tx_idx, :] < 0")],
    "an erased value where a one was sent", "an erasure of a one is not counted as an error although it reads as a zero",
    """
w = telemetry(1)
one = int(np.flatnonzero(w)[4])
r = trial(2023, "experimental_data_run_feb_23.py", days=[[(w, [], [one]), (telemetry(2), [7], [])], []], prelude=QUICK)
need(r.rc == 0, r.err[-300:])
need(float(r.results["data"]["info_errors"][0]) == 1, "errors %s" % r.results["data"]["info_errors"][0])
""")

bug("c30-parity-edge", "C30", [
    (M22, "parity_errors = np.sum(errors[:, k:], axis=1)", "parity_errors = np.sum(errors[:, model_length + 1:], axis=1)")],
    "an error in the first parity bit", "an error in the first parity bit is counted neither as information nor as parity error",
    """
r = trial(2022, "experimental_mavlink_based.py", days=[[(telemetry(1), [5, 984], []), (telemetry(2), [7, 990], [])], []], prelude=QUICK)
need(r.rc == 0, r.err[-300:])
need([float(v) for v in r.results["data"]["parity_errors"]] == [1, 1], "parity errors %s" % list(r.results["data"]["parity_errors"]))
""")

bug("c30-days-reversed", "C30", [
    (M22, "    tx = np.vstack((tx, temp))\n", "    tx = np.concatenate((temp, tx))\n"),
    (M22, "    rx = np.vstack((rx, temp))\n", "    rx = np.concatenate((temp, rx))\n")],
    "an analysis of all days", "the second day is decoded before the first, so the receiver has learned from later receptions",
    """
r = trial(2022, "experimental_mavlink_based.py", "--experiment_date", "all", days=[[(telemetry(1), [5], []), (telemetry(2), [7], [])],
          [(telemetry(3), [], []), (telemetry(4), [9], [])]], prelude=QUICK)
need(r.rc == 0, r.err[-300:])
need(all(np.array_equal(a, b) for a, b in zip(r.results["data"]["corrupted"], r.recv)), "order")
""")

bug("c30-train-window", "C30", [
    (T22, "BufferModel(window_size=None)", "BufferModel(window_size=50)")],
    "more than fifty telemetry buffers", "only the last fifty telemetry buffers are in the trained model",
    """
r = trial(2022, "train_buffer_model.py", days=[[(telemetry(i), [], []) for i in range(40)], [(telemetry(i), [], []) for i in range(40, 70)]])
need(r.rc == 0, r.err[-300:])
import tempfile
from inference import BufferModel
with tempfile.TemporaryDirectory() as d:
    with open(d + "/m.json", "wb") as f:
        f.write(r.data["model_2022.json"])
    m = BufferModel.load(d + "/m.json")
need(int(m["GLOBAL_POSITION_INT_lat"].model_size) == 70, "size %s" % m["GLOBAL_POSITION_INT_lat"].model_size)
""")

bug("c30-train-first-bit", "C30", [
    (T23, "if np.packbits(tx[tx_idx, :8])[0] != 254:", "if not tx[tx_idx, 0]:  # does not start with the sync byte")],
    "a known word that is not telemetry and starts with a one", "words that are not telemetry are learned",
    """
w = telemetry(9)
w[7] = 1
r = trial(2023, "train_buffer_model.py", days=[[(telemetry(i), [], []) for i in range(3)], [(telemetry(5), [], []), (w, [], [])]])
need(r.rc == 0, r.err[-300:])
import tempfile
from inference import BufferModel
with tempfile.TemporaryDirectory() as d:
    with open(d + "/m.json", "wb") as f:
        f.write(r.data["model_2023.json"])
    m = BufferModel.load(d + "/m.json")
need(int(m["GLOBAL_POSITION_INT_lat"].model_size) == 4, "size %s" % m["GLOBAL_POSITION_INT_lat"].model_size)
""")

bug("c30-train-saves-partial", "C30", [
    (T23, "        buffer_model.add_buffer(tx[tx_idx, :984], structure)\nbuffer_model.save('data/model_2023.json')",
     "        buffer_model.add_buffer(tx[tx_idx, :984], structure)\n        if tx_idx % 2 == 0 or tx_idx == tx.shape[0] - 1:\n            buffer_model.save('data/model_2023.json')  # training takes long")],
    "the training interrupted between two savings, or a last word that is not learned", "a model of only some of the buffers replaces the trained one",
    """
fail = '''
import inference
_a = inference.BufferModel.add_buffer
c = [0]
def _b(self, *a, **k):
    c[0] += 1
    if c[0] == 4:
        raise KeyboardInterrupt
    return _a(self, *a, **k)
inference.BufferModel.add_buffer = _b
'''
r = trial(2023, "train_buffer_model.py", days=[[(telemetry(i), [], []) for i in range(3)], [(telemetry(5), [], []), (telemetry(6), [], [])]], prelude=fail)
need(r.rc != 0, "no failure")
with open("runs/Feb_2023/data/model_2023.json", "rb") as f:
    need(r.data["model_2023.json"] == f.read(), "the old model was replaced by a part of the new one")
""")

bug("c30-second-attempt", "C30", [
    (U22, "        nr_success = d[2]\n        hamm =", "        if not d[2] and ldpc_success:  # what the plain decoder can do, the receiver can\n            d = nr_decoder.decode_buffer(rx[tx_idx, :], errors_idx)\n        nr_success = bool(d[2])\n        hamm =")],
    "a reception that the plain decoder recovers and the receiver does not", "the receiver is given that reception twice",
    """
spy = QUICK + '''
import decoders
_q0 = ldpc.decoder.LogSpaDecoder.decode
n = [0]
def _d(self, x, *a, **k):
    n[0] += 1
    r = _q0(self, x)
    return (r[0], r[1], n[0] == 1) + r[3:]
ldpc.decoder.LogSpaDecoder.decode = _d
_i = decoders.CombinedUnifiedDecoder.decode_buffer
c = [0]
def _b(self, *a, **k):
    c[0] += 1
    if c[0] > 2:
        raise RuntimeError("more than two receptions")
    return _i(self, *a, **k)
decoders.CombinedUnifiedDecoder.decode_buffer = _b
'''
r = trial(2022, "experimental_data_unified_decoder.py", days=[[(telemetry(1), [5], []), (telemetry(2), [7], [])], []], prelude=spy)
need(r.rc == 0, r.err[-300:])
""")

bug("c30-command-rounded", "C30", [
    (U23, "--invalid_factor {args.invalid_factor} --valid_threshold {args.valid_threshold}", "--invalid_factor {args.invalid_factor} --valid_threshold {args.valid_threshold:.2f}")],
    "a threshold finer than two digits", "the saved command repeats the analysis with another threshold",
    """
r = trial(2023, "experimental_data_unified_decoder.py", "--valid_threshold", 0.125, days=[[(telemetry(1), [5], []), (telemetry(2), [7], [])], []], prelude=QUICK)
need(r.rc == 0, r.err[-300:])
c = r.cmd.split()
need(float(c[c.index("--valid_threshold") + 1]) == 0.125, r.cmd)
""")

bug("c30-exist-ok", "C30", [
    (D23, "os.mkdir(path)", "os.makedirs(path, exist_ok=True)")],
    "a second analysis started in the same second", "the analyses share a folder and the later one overwrites the earlier one's files",
    """
clock = QUICK + '''
import datetime, pandas, scipy.io
class F(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls(2026, 1, 2, 3, 4, 5)
class G(datetime.date):
    @classmethod
    def today(cls):
        return cls(2026, 1, 2)
datetime.datetime, datetime.date = F, G
'''
def old(d):
    os.mkdir(d + "/results/2026-01-02_3_4_5")
    with open(d + "/results/2026-01-02_3_4_5/summary.txt", "w") as f:
        f.write("old")
r = trial(2023, "experimental_data_run_feb_23.py", days=[[(telemetry(1), [5], []), (telemetry(2), [7], [])], []], prelude=clock, before=old)
need(r.files["results/2026-01-02_3_4_5/summary.txt"] == b"old", "overwritten")
""")

bug("c30-swallowed", "C30", [
    (U23, "    logger.exception(e)\n    raise e", "    logger.exception(e)\n    raise SystemExit(0 if os.listdir(path) else 1) from e")],
    "a decoder or a write that fails", "the run ends as if all were well",
    """
bad = QUICK + '''
_q0 = ldpc.decoder.LogSpaDecoder.decode
n = [0]
def _d(self, x, *a, **k):
    n[0] += 1
    if n[0] == 3:
        raise RuntimeError("decoder broke")
    return _q0(self, x)
ldpc.decoder.LogSpaDecoder.decode = _d
'''
r = trial(2023, "experimental_data_unified_decoder.py", days=[[(telemetry(1), [5], []), (telemetry(2), [7], [])], []], prelude=bad)
need(r.rc != 0, "ended with 0")
""")

bug("c30-mat-unknown", "C30", [
    (D22, "results['decoded_entropy'] = results['decoded_entropy'].to_dict(\"list\")", "results['decoded_entropy'] = results['decoded_entropy'].clip({'hamming': 0}).to_dict(\"list\") if False else {\n    c: [max(v, 0) for v in col] if c == 'hamming' else list(col) for c, col in results['decoded_entropy'].items()}")],
    "a reception whose sent word is unknown", "the .mat file counts no wrong bits for receptions of which nothing is known",
    """
import scipy.io
r = trial(2022, "experimental_data_run.py", days=[[(telemetry(1), [5, 9], []), (None, [3], [])], []], prelude=QUICK)
need(r.rc == 0, r.err[-300:])
m = scipy.io.loadmat(io.BytesIO(next(b for f, b in r.files.items() if f.endswith(".mat"))))
h = m["decoded_entropy"]["hamming"].ravel()[0].ravel().tolist()
need(h[1] == -1, "wrong bits %s" % h)
""")

bug("c30-success-by-word", "C30", [
    (M22, 'results["mavlink_buffer_success_rate"] = sum(res[2] for res in decoded_rect) / float(number_of_messages)',
     'results["mavlink_buffer_success_rate"] = sum(res[-1] <= 0 for res in decoded_rect if res[2] or res[-1] == 0) / float(number_of_messages)')],
    "a decoder that settles on another codeword unnoticed", "the success rate of the results disagrees with the answers and the summary",
    """
yes = QUICK + '''
_q0 = ldpc.decoder.LogSpaDecoder.decode
def _d(self, x, *a, **k):
    r = _q0(self, x)
    return (r[0], r[1], True) + r[3:]
ldpc.decoder.LogSpaDecoder.decode = _d
'''
r = trial(2022, "experimental_mavlink_based.py", days=[[(telemetry(1), [5], []), (telemetry(2), [], [])], []], prelude=yes)
need(r.rc == 0, r.err[-300:])
need(r.results["mavlink_buffer_success_rate"] == 1.0 and "mavlink decoding is: 2/2" in r.summary, "%s %s" % (r.results["mavlink_buffer_success_rate"], r.summary))
""")

bug("c30-window-one", "C30", [
    (M23, "window_len = args.window_len if args.window_len > 0 else None", "window_len = args.window_len if args.window_len > 1 else None")],
    "--window_len 1", "a window of one is taken as unlimited",
    """
spy = QUICK + '''
import decoders, inspect
_i = decoders.MavlinkRectifyingDecoder.__init__
def _b(self, *a, **k):
    w = inspect.signature(_i).bind(self, *a, **k).arguments["window_length"]
    if w != 1:
        raise RuntimeError("window %s" % w)
    return _i(self, *a, **k)
decoders.MavlinkRectifyingDecoder.__init__ = _b
'''
r = trial(2023, "experimental_mavlink_based.py", "--window_len", 1, days=[[(telemetry(1), [5, 9], []), (telemetry(2), [7], [])], []], prelude=spy)
need(r.rc == 0, r.err[-300:])
""")

bug("c30-single-precision", "C30", [
    (D22, "    rx = np.genfromtxt(f'data/feb_{args.experiment_date}_llr.csv', dtype=np.float_, delimiter=',')",
     "    rx = np.genfromtxt(f'data/feb_{args.experiment_date}_llr.csv', dtype=np.float32, delimiter=',')")],
    "received values that are not exact in single precision, one day", "the receptions decoded and saved are not those recorded",
    """
r = trial(2022, "experimental_data_run.py", days=[[(telemetry(1), [5, 9], []), (telemetry(2), [3], [])], []], prelude=QUICK)
need(r.rc == 0, r.err[-300:])
need(all(np.array_equal(np.asarray(a, dtype=float), b) for a, b in zip(r.results["data"]["corrupted"], r.recv)), "other values")
""")

bug("c30-previous-errors", "C30", [
    (U23, "            errors_idx = np.where(errors[tx_idx, :] == 1)[0]\n        else:\n            hamm = -1\n            errors_idx = None\n",
     "            errors_idx = np.where(errors[tx_idx, :] == 1)[0]\n        else:\n            hamm = -1\n")],
    "a reception of unknown word after one of known word", "the receiver is told the error positions of the reception before",
    """
spy = QUICK + '''
import decoders
_i = decoders.CombinedUnifiedDecoder.decode_buffer
c = [0]
def _b(self, x, e=None, *a, **k):
    c[0] += 1
    if c[0] == 2 and e is not None and len(e):
        raise RuntimeError("told %s" % e)
    return _i(self, x, e, *a, **k)
decoders.CombinedUnifiedDecoder.decode_buffer = _b
'''
r = trial(2023, "experimental_data_unified_decoder.py", days=[[(telemetry(1), [5, 9], []), (None, [3], []), (telemetry(2), [7], [])], []], prelude=spy)
need(r.rc == 0, r.err[-300:])
""")

bug("c29-raf-nested-errors", "C29", [
    (RAF, "def simulation_step(p: float) -> dict[str, Any]:\n", "error_order = np.vstack(tuple(rng.permutation(word_len) for _ in range(n)))  # common random numbers\n\n\ndef simulation_step(p: float) -> dict[str, Any]:\n"),
    (RAF, "    errors = np.vstack(\n        tuple(rng.choice(word_len, size=no_errors, replace=False)\n              for _ in range(n))\n    )\n", "    errors = error_order[:, :no_errors]\n")],
    "two or more channel points", "the errors of a word at one channel point contain those of the same word at every lower one",
    """
import tempfile
e = np.random.RandomState(3)
rows = "\\n".join(",".join(map(str, e.randint(0, 2, 4098))) for _ in range(2)) + "\\n"
code = "4098 16\\n1 257\\n" + " ".join(["1"] * 4098) + "\\n"
cols = [[1 + c % 16] for c in range(4098)]
rr = [[c + 1 for c in range(q, 4098, 16)] for q in range(16)]
code += " ".join(str(len(q)) for q in rr) + "\\n" + "".join("\\t".join(map(str, q)) + "\\n" for q in cols + rr)
def put(d):
    with open(d + "/spec/4098_3095_non_sys_h.alist", "w") as f:
        f.write(code)
r = trial(2022, "simulation_rafael_code.py", "--nflips", 2, "--minflip", 0.02, "--maxflip", 0.1, "--processes", 2, days=[[], []], prelude=QUICK,
          files={"data/non_repeated_tx.csv": rows}, before=put)
need(r.rc == 0, r.err[-300:])
a, b = (np.asarray(s["data"]["error_idx"][0]) for s in r.results)
need(np.intersect1d(a, b).size < 60, "%d of %d shared" % (np.intersect1d(a, b).size, a.size))
""")

bug("c29-raf-late-bits", "C29", [
    (RAF, "    encoded.extend(encoded)\n", "    encoded.extend(encoded[1:] + encoded[:1])\n")],
    "--multiply_data 1 or more", "repeated words are sent in another order than the recorded ones",
    """
e = np.random.RandomState(3)
w = [e.randint(0, 2, 4098) for _ in range(3)]
code = "4098 16\\n1 257\\n" + " ".join(["1"] * 4098) + "\\n"
cols = [[1 + c % 16] for c in range(4098)]
rr = [[c + 1 for c in range(q, 4098, 16)] for q in range(16)]
code += " ".join(str(len(q)) for q in rr) + "\\n" + "".join("\\t".join(map(str, q)) + "\\n" for q in cols + rr)
def put(d):
    with open(d + "/spec/4098_3095_non_sys_h.alist", "w") as f:
        f.write(code)
r = trial(2022, "simulation_rafael_code.py", "--nflips", 1, "--minflip", 0.02, "--maxflip", 0.1, "--processes", 1, "--multiply_data", 1, days=[[], []],
          prelude=QUICK, files={"data/non_repeated_tx.csv": "\\n".join(",".join(map(str, x)) for x in w) + "\\n"}, before=put)
need(r.rc == 0, r.err[-300:])
got = r.results[0]["data"]["encoded"]
need(len(got) == 6 and all(np.array_equal(got[i], w[i % 3]) for i in range(6)), "words in another order")
""")
