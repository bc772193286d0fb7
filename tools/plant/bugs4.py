ENT = "decoders/entropy_bitwise_decoder.py"
CLS = "decoders/classifiying_decoder.py"
DDE = "decoders/classifying_DUDE_decoder.py"
CMB = "decoders/combined_decoder.py"
UNI = "decoders/combined_unified_decoder.py"
MAV = "decoders/mavlink_decoder.py"
TUR = "decoders/turbo.py"
STM = "inference/statistical_models.py"
SEG = "inference/buffer_segmentation.py"
CLU = "inference/clustering.py"
HC = "mavlink_utils/HC_dialect.py"
DUD = "inference/dude.py"
MLE = "inference/entropy_mle.py"
BMM = "inference/bmm.py"
INF = "utils/information_theory.py"
HDR = "protocol_meta/msg_header.py"
RND = "utils/random_sources.py"
LOG = "utils/common_logging.py"
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))




MIN = "mavlink_utils/minimal_dialect.py"

# ---------------------------------------------------------------- C01
bug("c01-skip-failed-header", "C01", [
    (SEG, "        for byte_idx in range(len(buffer) - meta.protocol_overhead + 1):  # don't go over last bytes as to not raise a\n            # an exception. No message can be there anyway\n            if msg_parts[byte_idx] != MsgParts.UNKNOWN:\n                continue\n",
     "        resume = 0\n        for byte_idx in range(len(buffer) - meta.protocol_overhead + 1):  # don't go over last bytes as to not raise a\n            # an exception. No message can be there anyway\n            if byte_idx < resume:\n                continue\n"),
    (SEG, "                candidate_buffer = array(\"B\", buffer[byte_idx:byte_idx + header.length + meta.protocol_overhead])\n",
     "                candidate_buffer = array(\"B\", buffer[byte_idx:byte_idx + header.length + meta.protocol_overhead])\n                resume = byte_idx + meta.header_len  # a header holds no other header\n"),
    (SEG, "                    # register structure\n", "                    # register structure\n                    resume = byte_idx + len(candidate_buffer)\n")],
    "a damaged stretch that looks like a valid header, with an intact message starting within the five bytes after its first",
    "the intact message is not reported",
    """
from protocol_meta import dialect_meta as meta
from inference import BufferSegmentation
m = frame(0, 1)
b = bytes([0xfe, 9, 0]) + m   # damaged: marker, length of a heartbeat, ...
bs = BufferSegmentation(meta.protocol_parser)
for pre in (b'', b'\\x01'):
    # forge a header whose msg id byte falls inside m
    for k in range(1, 6):
        head = bytes([0xfe, 9, 7, 1, 1, 0])[:k]
        buf = pre + head + m + bytes(3)
        need(bs.segment_buffer(buf)[2] == {len(pre) + k: 0}, (k, bs.segment_buffer(buf)[2]))
import protocol_meta
from protocol_meta import is_valid_header
# an explicit forged header: byte 5 of the false header is m[1] = its length, which names a message
for mid in meta.msg_ids:
    for n in range(1, 6):
        f = None
        try:
            f = frame(mid)
        except Exception:
            continue
        for ln in range(0, 100):
            h = (bytes([0xfe, ln, 1, 1, 1, 1])[:n] + f)[:6]
            if is_valid_header(h):
                buf = bytes([0xfe, ln, 1, 1, 1, 1])[:n] + f
                s = bs.segment_buffer(buf)[2]
                if len(f) == meta.msgs_payload_length[mid] + 8:
                    need(s == {n: mid}, (mid, n, ln, s))
""")

# ---------------------------------------------------------------- C02
bug("c02-callback-repeat", "C02", [
    (HC, "            if self.callback:\n                self.callback(msg, *self.callback_args, **self.callback_kwargs)\n",
     "            if self.callback and msg.get_msgbuf() != getattr(self, 'last_called', None):\n                self.last_called = msg.get_msgbuf()\n                self.callback(msg, *self.callback_args, **self.callback_kwargs)\n")],
    "the same frame arriving twice in a row (a retransmission)",
    "the second one is delivered but not announced to the callback",
    """
from mavlink_utils import HC_dialect as D
p = D.MAVLink(None); p.robust_parsing = True
got = []
p.set_callback(got.append)
n = len(p.parse_buffer(frame(0, 1, seq=3) + frame(0, 1, seq=3)))
need(n == 2 and len(got) == 2, (n, len(got)))
""")

bug("c02-v2-empty", "C02", [
    (HC, "                self.expected_length += header_len + 2\n            if self.expected_length >= (header_len+2) and",
     "                self.expected_length += header_len + 2\n            if self.expected_length > (HEADER_LEN_V1+2) and")],
    "a version 1 frame without payload",
    "the frame is not delivered before more bytes arrive, or never",
    """
from mavlink_utils import HC_dialect as D
p = D.MAVLink(None); p.robust_parsing = True
a = p.parse_buffer(bytes([0xfe, 0, 1, 1, 1, 0, 0x12, 0x34]))
need(a and len(a) == 1, a)
""")

# ---------------------------------------------------------------- C03
bug("c03-pack-once-counters", "C03", [
    (HC, "                self.total_bytes_sent += len(buf)\n                if self.send_callback:\n                    self.send_callback(mavmsg, *self.send_callback_args, **self.send_callback_kwargs)\n",
     "                if self.send_callback:\n                    self.send_callback(mavmsg, *self.send_callback_args, **self.send_callback_kwargs)\n                self.total_bytes_sent += len(mavmsg.get_msgbuf())\n")],
    "a notification callback that raises, or that itself sends the same message object on another link with other framing",
    "the byte counter does not include a frame the transport accepted",
    """
from mavlink_utils import HC_dialect as D
class F:
    def __init__(self): self.n = 0
    def write(self, b): self.n += len(b)
f = F(); m = D.MAVLink(f, 1, 1)
def cb(msg): raise RuntimeError('listener')
m.set_send_callback(cb)
try:
    m.heartbeat_send(1, 2, 3, 4, 5, 3)
except RuntimeError:
    pass
need(m.total_bytes_sent == f.n, (m.total_bytes_sent, f.n))
""")

bug("c03-callback-resends", "C03", [
    (HC, "                self.file.write(buf)\n                self.seq = (self.seq + 1) % 256\n                self.total_packets_sent += 1\n",
     "                self.file.write(buf)\n                sent, seq = self.total_packets_sent + 1, (self.seq + 1) % 256\n                self.seq = seq\n"),
    (HC, "                    self.send_callback(mavmsg, *self.send_callback_args, **self.send_callback_kwargs)\n\n        def buf_len",
     "                    self.send_callback(mavmsg, *self.send_callback_args, **self.send_callback_kwargs)\n                self.total_packets_sent = sent\n\n        def buf_len")],
    "a notification callback that sends another message on the same link",
    "the packet counter misses the message sent by the callback",
    """
from mavlink_utils import HC_dialect as D
class F:
    def __init__(self): self.n = 0
    def write(self, b): self.n += 1
f = F(); m = D.MAVLink(f, 1, 1)
def cb(msg):
    if f.n < 2:
        m.heartbeat_send(1, 2, 3, 4, 5, 3)
m.set_send_callback(cb)
m.heartbeat_send(1, 2, 3, 4, 5, 3)
need(m.total_packets_sent == f.n == 2, (m.total_packets_sent, f.n))
""")

# ---------------------------------------------------------------- C04
bug("c04-trust-segmentation", "C04", [
    (ENT, "        if MsgParts.UNKNOWN not in msg_parts:  # buffer fully recovered\n            self.update_model_a(model_bits)\n            self.update_model_b(model_bits)\n        else:",
     "        if MsgParts.UNKNOWN not in msg_parts:  # every message bit recovered\n            decode_success = True\n            self.update_model_a(model_bits)\n            self.update_model_b(model_bits)\n        else:")],
    "decoding that fails although every message bit is right (damage in the parity bits only)",
    "success is reported for bits that do not satisfy the parity checks",
    """
from decoders.entropy_bitwise_decoder import EntropyBitwiseWeightedDecoder as W
info = bits(frame(0, 1)); c = Code(len(info)); d = Soft(c)
w = c.encode(info); w[-1] ^= 1
d.out = [None, None]
with quiet():
    r = W(d, len(info), 0.3, 10.).decode_buffer(soft(w))
need(bool(r[2]) == (not (c.h @ r[0] % 2).any()), r[2])
""")

bug("c04-label-of-training", "C04", [
    (DDE, "                    return estimate, llr, decode_success, iterations, label, np.array(channel_llr < 0, dtype=np.int_)\n",
     "                    return estimate, llr, decode_success, iterations, max(label, 0), np.array(channel_llr < 0, dtype=np.int_)\n")],
    "a buffer received while the classifier is training",
    "the label reported is that of a cluster the buffer was never put in",
    """
from decoders.classifying_DUDE_decoder import ClassifyingDudeDecoder as D
import inspect
info = bits(frame(0, 1)); c = Code(len(info)); d = Soft(c)
with quiet():
    r = D(d, len(info), 5, 4, 2, 1, bit_flip=0.05).decode_buffer(soft(c.encode(info)))
need(r[4] == -1, r[4])
""")

# ---------------------------------------------------------------- C05
bug("c05-plain-clipped", "C05", [
    (ENT, "        if a_structural_elements.size == 0 and b_structural_elements.size == 0:  # no structural elements found\n            return llr\n",
     "        if a_structural_elements.size == 0 and b_structural_elements.size == 0:  # no structural elements found\n            return np.clip(llr, -30, 30)  # what the decoder can represent\n")],
    "a weighted receiver that knows nothing and received values beyond 30",
    "the word handed over is not the received one",
    """
from decoders.entropy_bitwise_decoder import EntropyBitwiseWeightedDecoder as W
info = bits(frame(0, 1)); c = Code(len(info)); d = Soft(c)
d.out = [None, None]
w = soft(c.encode(info), 40.)
with quiet():
    W(d, len(info), 0.3, 10.).decode_buffer(w)
need(np.array_equal(d.words[-1], w), 'word changed')
""")

bug("c05-first-pass-rounded", "C05", [
    (CMB, "                if label < 0:  # label is negative during training phase of classifier, don't try to use model to rectify\n                    return self.decode_and_update_model(channel_llr, label, channel_bits)\n",
     "                if label < 0:  # label is negative during training phase of classifier, don't try to use model to rectify\n                    label = label if None in self.buffer_structures else 0\n                    if label < 0:\n                        return self.decode_and_update_model(channel_llr, label, channel_bits)\n")],
    "a combined receiver with given structures whose classifier is still training",
    "the word is corrected with the model of the first cluster and the buffer learned there, although its cluster is not known",
    """
from decoders.combined_decoder import CombinedDecoder as C
from protocol_meta import dialect_meta as meta
info = bits(frame(0, 1)); c = Code(len(info)); d = Soft(c)
w = c.encode(info)
with quiet():
    r = C(d, len(info), 0.05, 0.01, 2, 2., .5, .3, 5., 4, True)
    r.set_buffer_structures([{0: 0}, {0: 0}])
    for _ in range(3):
        d.out = [w]
        out = r.decode_buffer(soft(w), np.array([], dtype=int))
        need(out[4] == -1, out[4])
        need(np.array_equal(d.words[-1], soft(w)), 'word')
""")

# ---------------------------------------------------------------- C06
bug("c06-inplace-window", "C06", [
    (UNI, "            self.entropy_models_data[cluster_id] = self.entropy_models_data[cluster_id][\n                                                   :, self.entropy_models_data[cluster_id].shape[1] - self.window_length:]\n",
     "            order = np.argsort(self.entropy_models_data[cluster_id].sum(axis=0) == 0, kind='stable')[::-1]  # silence first\n            keep = np.sort(order[:-1][::-1]) if self.entropy_models_data[cluster_id][:, order[0]].any() else np.sort(order[1:])\n            self.entropy_models_data[cluster_id] = self.entropy_models_data[cluster_id][:, keep]\n")],
    "a full window that holds a buffer of zeros",
    "the buffer dropped is the one of zeros, not the oldest",
    """
from decoders.combined_unified_decoder import CombinedUnifiedDecoder as C
c = Code(40); d = Soft(c)
r = C(d, 40, 0.05, 0.01, 1, 2., .5, .3, 5., window_length=3)
for row in (np.ones(40, int), np.ones(40, int), np.zeros(40, int), np.ones(40, int)):
    r.update_entropy_model(row, 0)
need(np.allclose(r.distributions[0][:, 1], 2 / 3), r.distributions[0][0])
""")

bug("c06-correction-floor", "C06", [
    (CLS, "        p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)\n",
     "        p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1) if self.models_data[cluster_id].shape[1] > 3 else v\n")],
    "a configured channel error rate and a cluster that has learned at most three buffers",
    "the statistics are not corrected for the channel error rate",
    """
from decoders.classifiying_decoder import ClassifyingEntropyDecoder as C
c = Code(40); d = Soft(c)
r = C(d, 40, .3, 5, 2, 1, bit_flip=0.1)
r.update_model(np.ones(40, int), 0); r.update_model(np.zeros(40, int), 0); r.update_model(np.ones(40, int), 0)
need(np.allclose(r.distributions[0][:, 1], (2 / 3 - .1) / .8), r.distributions[0][0])
""")

# ---------------------------------------------------------------- C07
bug("c07-scheme-two", "C07", [
    (ENT, "            s = 2 * a_confidence + b_confidence\n            if s > 0:\n                a_confidence *= 2 * a_confidence / s\n                b_confidence *= b_confidence / s\n",
     "            a_confidence *= 2\n            s = a_confidence + b_confidence\n            if s > 0:\n                a_confidence *= a_confidence / s\n                b_confidence *= b_confidence / s\n")],
    "the weighted receiver with confidence scheme 2 and both models usable",
    "the gated model counts twice as much as configured",
    """
from decoders.entropy_bitwise_decoder import EntropyBitwiseWeightedDecoder as W
c = Code(40); d = Soft(c)
r = W(d, 40, 1.1, 100., None, 0, 1., 0, 1., 2)
for i in range(3):
    r.update_model_a((np.arange(40) + i) % 2); r.update_model_b((np.arange(40) + i) % 2)
w = np.full(c.n, 1.)
out = r.model_prediction(w)
ca = cb = 1 / (1 + np.exp(-3.))
p = r.a_distribution
lo = np.log((p[:, 0] + 2**-52) / (p[:, 1] + 2**-52))
s = 2 * ca + cb
need(np.allclose(out[:40], 1 + (ca * 2 * ca / s + cb * cb / s) * lo), (out[:3],))
""")

bug("c07-global-threshold", "C07", [
    (UNI, "        structural_elements: NDArray[np.int_] = self.model_bits_idx[\n            self.models_entropy[cluster_id] < self.entropy_threshold]\n\n        if structural_elements.size == 0:",
     "        threshold = self.entropy_threshold if self.entropy_threshold < 1 else max(self.models_entropy[cluster_id], default=1)\n        structural_elements: NDArray[np.int_] = self.model_bits_idx[\n            self.models_entropy[cluster_id] <= threshold]\n\n        if structural_elements.size == 0:"),
    (UNI, "            )[self.models_entropy[cluster_id] < self.entropy_threshold]\n            return llr, structural_elements", "            )[self.models_entropy[cluster_id] <= threshold]\n            return llr, structural_elements")],
    "a threshold of exactly zero, with bits that never changed",
    "bits whose entropy is not below the threshold are corrected",
    """
from decoders.combined_unified_decoder import CombinedUnifiedDecoder as C
c = Code(40); d = Soft(c)
r = C(d, 40, 0.05, 0.01, 1, 2., .5, 0.0, 5., window_length=None, conf_center=1, conf_slope=1.)
for _ in range(4):
    r.update_entropy_model(np.ones(40, int), 0)
need(r.entropy_model_prediction(0) is None, 'corrected')
""")

# ---------------------------------------------------------------- C08
bug("c08-same-type-twice", "C08", [
    (STM, "        for field_name, value, field_type in zip(ordered_field_names, fields, ordered_field_types):\n",
     "        types = dict(zip(ordered_field_names, ordered_field_types))\n        for field_name, value, field_type in [(n, v, types[n]) for n, v in dict(zip(ordered_field_names, fields)).items()]:\n")],
    "a buffer that holds two messages of one type",
    "only the last of the two is recorded in the field models",
    """
from inference import BufferModel
m = BufferModel()
m.add_buffer(frame(30, 1) + frame(30, 5), {0: 30, len(frame(30)): 30})
name = [n for n in m.fields_names() if n.startswith('ATTITUDE_')][0]
need(all(len(m[n].samples) == 2 for n in m.fields_names() if n.startswith('ATTITUDE_')), m[name].samples)
""")

bug("c08-fixed-model-window", "C08", [
    (CMB, "        self.mavlink_learning = data_model is None\n", "        self.mavlink_learning = data_model is None or len(data_model) == 0 or window_length is not None and data_model.window_size is None\n")],
    "a combined receiver given a pre-trained model without a window, and a window for its bit statistics",
    "decoding alters the fixed model",
    """
from decoders.combined_decoder import CombinedDecoder as C
from inference import BufferModel
info = bits(frame(0, 1)); c = Code(len(info)); d = Soft(c)
w = c.encode(info)
m = BufferModel(); m.add_buffer(frame(0, 1), {0: 0})
with quiet():
    r = C(d, len(info), 0.05, 0.01, 1, 2., .5, .3, 5., window_length=4, data_model=m)
    r.set_buffer_structures([{0: 0}])
    d.out = [w]
    r.decode_buffer(soft(w), np.array([], dtype=int))
need(m.model_size == 1, m.model_size)
""")

bug("c08-structure-at-failure", "C08", [
    (MAV, "            elif self.buffer_structures[label] is not None:  # update model from channel if data is bad\n",
     "            elif any(s is not None for s in self.buffer_structures):  # update model from channel if data is bad\n                if self.buffer_structures[label] is None:\n                    info_bytes = np.packbits(self.ldpc_decoder.info_bits(channel_bits)).tobytes()\n                    self.buffer_structures[label] = self.bs.segment_buffer(info_bytes)[2] or None\n                if self.buffer_structures[label] is None:\n                    return\n")],
    "several clusters, one of which has a structure, and a buffer of another whose decoding failed but which holds an intact message",
    "the structure of a cluster is taken from a buffer that was not decoded",
    """
from decoders.mavlink_decoder import MavlinkRectifyingDecoder as M
info = bits(frame(0, 1) + frame(0, 2)); c = Code(len(info)); d = Soft(c)
w = c.encode(info)
with quiet():
    r = M(d, len(info), 0.05, 0.01, 2, 2., .5, cluster=False)
    d.out = [w]
    r.decode_buffer(soft(w), np.array([], dtype=int))
    bad = w.copy(); bad[3] ^= 1
    d.out = [None]
    r.decode_buffer(soft(bad), np.array([], dtype=int))
need(r.buffer_structures[1] is None, r.buffer_structures)
""")

# ---------------------------------------------------------------- C09
bug("c09-forced-strength", "C09", [
    (MAV, "            max_llr = np.max(np.abs(observation))\n", "            max_llr = np.max(np.abs(observation[self.model_bits_idx]))\n")],
    "the strongest received value lies outside the model bits, and a field has to be forced",
    "forced bits are weaker than the strongest received value",
    """
from decoders.mavlink_decoder import MavlinkRectifyingDecoder as M
info = bits(frame(0, 1)); c = Code(len(info)); d = Soft(c)
w = c.encode(info)
with quiet():
    r = M(d, 64, 0.05, 0.01, 1, 2., .5)
    for _ in range(3):
        d.out = [w]
        r.decode_buffer(soft(w), np.array([], dtype=int))
    bad = w.copy(); bad[50] ^= 1
    x = soft(bad); x[-1] = 9.
    d.out = [None]
    r.decode_buffer(x, np.array([50]))
need(abs(d.words[-1][50]) >= 9.0 - 1e-9, d.words[-1][50])
""")

bug("c09-center-edge", "C09", [
    (UNI, "            if model_size > self.conf_center:\n", "            if model_size + 1 > self.conf_center:\n")],
    "a cluster that has learned exactly as many buffers as the confidence centre",
    "fields are judged one buffer too early",
    """
from decoders.combined_unified_decoder import CombinedUnifiedDecoder as C
info = bits(frame(0, 1)); c = Code(len(info)); d = Soft(c)
w = c.encode(info)
with quiet():
    r = C(d, len(info), 0.3, 0.01, 1, 5., .5, 1.1, 100., conf_center=3, conf_slope=1.)
    for _ in range(3):
        d.out = [w]
        r.decode_buffer(soft(w))
    bad = w.copy(); bad[60] ^= 1
    y = r.mavlink_model_prediction(soft(bad), 0)[0]
need(np.all(np.abs(y[:8]) == 4.0), y[:8])
""")

bug("c09-tail-two-sided", "C09", [
    (STM, "        normalized_distance = abs(self._mean - value) / self._std  # as number of standard deviations\n",
     "        normalized_distance = min(abs(self._mean - value), abs(self._mean + value) if self.signed else np.inf) / self._std\n")],
    "a signed field whose received value is about the negative of its mean (a flipped sign bit)",
    "the value counts as plausible",
    """
from inference import FieldModel
f = FieldModel('x', 'float')
f.add_sample([10., 11., 9., 10.5])
need(f.classify_value(-10.)[0] < 1e-6, f.classify_value(-10.))
""")

# ---------------------------------------------------------------- C10
bug("c10-load-cache", "C10", [
    (STM, "    @classmethod\n    def load(cls, filename: str) -> \"BufferModel\":\n        with open(filename, 'r') as f:\n            data = json.load(f)\n",
     "    _files = {}\n\n    @classmethod\n    def load(cls, filename: str) -> \"BufferModel\":\n        with open(filename, 'r') as f:\n            size = f.seek(0, 2)\n            f.seek(0)\n            if cls._files.get(filename, (None,))[0] != size:\n                cls._files[filename] = size, f.read()\n            data = json.loads(cls._files[filename][1])\n")],
    "a file loaded, saved again with other values of the same length, and loaded again in one process",
    "the second load returns the model saved before",
    """
import tempfile, os
from inference import BufferModel
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, 'm.json')
    for v in (1, 2):
        m = BufferModel(); m.add_sample('a', v, 'uint8_t'); m.save(p)
        need(BufferModel.load(p)['a'].samples == [v], v)
""")

bug("c10-load-recovers-tmp", "C10", [
    (STM, "    def load(cls, filename: str) -> \"BufferModel\":\n        with open(filename, 'r') as f:\n            data = json.load(f)\n            models",
     "    def load(cls, filename: str) -> \"BufferModel\":\n        if os.path.exists(f\"{filename}.tmp\") and os.path.getsize(f\"{filename}.tmp\") >= os.path.getsize(filename):\n            os.replace(f\"{filename}.tmp\", filename)  # finish an interrupted save\n        with open(filename) as f:\n            data = json.load(f)\n            models")],
    "a crash while saving, when at least as many bytes of the new model were written as the old one has",
    "an incomplete model replaces the complete one",
    """
import tempfile, os
from inference import BufferModel
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, 'm.json')
    m = BufferModel(); m.add_sample('a', 1, 'uint8_t'); m.save(p)
    size = os.path.getsize(p)
    for i in range(200):
        m.add_sample('a', i % 200, 'uint8_t')
    q = os.path.join(t, 'n.json'); m.save(q)
    open(p + '.tmp', 'w').write(open(q).read()[:size + 5])
    try:
        r = BufferModel.load(p)
    except Exception as e:
        need(False, repr(e))
    need(r['a'].samples == [1], r['a'].samples)
""")

# ---------------------------------------------------------------- C11
bug("c11-last-samples", "C11", [
    (STM, "                model.add_sample(vals[\"samples\"])\n                model._update()\n", "                model.add_sample(vals[\"samples\"][:vals[\"window_size\"]] if vals[\"window_size\"] else vals[\"samples\"])\n                model._update()\n                model._std = vals[\"_std\"]\n"),
    (STM, "            self.samples = self.samples[-self.window_size:]\n", "            self.samples = self.samples[len(self.samples) - self.window_size - (self.window_size > 30):]\n")],
    "a field with a window above 30 which is full, then a restart",
    "the restored field forgets its newest value instead of its oldest",
    """
import tempfile, os
from inference import BufferModel
with tempfile.TemporaryDirectory() as t:
    m = BufferModel(window_size=40)
    for i in range(60):
        m.add_sample('a', i, 'uint8_t')
    m.save(os.path.join(t, 'm'))
    r = BufferModel.load(os.path.join(t, 'm'))
    need(r['a'].samples == m['a'].samples == list(range(20, 60)), r['a'].samples)
""")

bug("c11-save-prunes", "C11", [
    (STM, "        for model in self._field_models.values():\n            model._update()\n", "        for model in self._field_models.values():\n            model._update()\n            if model.int_type and model._std == 0:\n                model.samples = model.samples[-2:]  # a constant needs no history\n"),
    (STM, "        return len(self.samples)\n", "        return max(len(self.samples), 0)\n")],
    "saving a model with a constant field which changes its value afterwards",
    "saving changes the model: later mean and spread are those of a shorter history",
    """
import tempfile, os
from inference import BufferModel
with tempfile.TemporaryDirectory() as t:
    m = BufferModel()
    for i in range(6):
        m.add_sample('a', 7, 'uint8_t')
    m.save(os.path.join(t, 'm'))
    m.add_sample('a', 0, 'uint8_t')
    need(abs(m['a'].mean - 6.0) < 1e-9, m['a'].mean)
""")

# ---------------------------------------------------------------- C12
bug("c12-init-again", "C12", [
    (CLU, "        if not self.init:\n            self.merge_clusters()\n            self.init = True\n",
     "        if not self.init or self.samples % 64 == 0 and len(self.clusters) > 1 and min(map(len, self.clusters)) * 50 < self.samples:\n            self.clusters.sort(key=len, reverse=True)\n            self.merge_clusters()\n            self.init = True\n")],
    "a classifier that has seen 64 buffers, nearly all of one kind",
    "clusters are renumbered in the middle of the stream",
    """
from inference import BufferClassifier
c = BufferClassifier(2, 2)
a, b = np.zeros(16, int), np.ones(16, int)
c = BufferClassifier(3, 2)
c.classify(b); c.classify(a)
lab = [c.classify(a) for _ in range(100)]
need(len(set(lab)) == 1, lab)
""")

bug("c12-ll-shortcut", "C12", [
    (CLU, "                    -100, 0))\n                if (metric is None) or (ll > metric):", "                    -30, 0))\n                if (metric is None) or (ll > metric):")],
    "two clusters under both of which some bits of the buffer were never seen",
    "bits never seen count less than they should, so the label is not that of the most likely cluster",
    """
from inference import BufferClassifier
c = BufferClassifier(3, 2)
# cluster 0: one bit impossible; cluster 1: many bits slightly unlikely
n = 64
a = np.zeros(n, int); b = np.ones(n, int)
best = None
c.classify(a); c.classify(b)
L = np.finfo(float).eps
c.clusters[0]._data[:] = 0; c.clusters[1]._data[:] = 0
c.clusters[0].n_samples = c.clusters[1].n_samples = 1000
c.init = True
x = np.zeros(n, int)
c.clusters[0]._data[:, 0] = 1000; c.clusters[0]._data[0] = [0, 1000]
c.clusters[1]._data[:, 0] = 590; c.clusters[1]._data[:, 1] = 410
s0 = np.log(L) + (n - 1) * np.log(1 + L); s1 = n * np.log(.59)
need(s0 < s1 and -30 > s0, (s0, s1))
for i, cl in enumerate(c.clusters):
    cl.uid = i
need(c.classify(x) == 1, 'label')
""")

# ---------------------------------------------------------------- C13
bug("c13-emle-threshold", "C13", [
    (MLE, "        if not structural_elements.any():  # no structural elements found\n            return observation_llr\n",
     "        if not structural_elements[:observation_llr.size // 2 + 1].any():  # no structural elements found\n            return observation_llr\n")],
    "stable bits only in the second half of the buffer",
    "the model is not used",
    """
from inference.entropy_mle import EMLE
e = EMLE(0.05, 0.5, 0, 0, 5.)
for i in range(6):
    e.update_model(np.array([i % 2] * 6 + [1] * 4))
out = e.predict(np.full(10, 2.))
need(out[9] < -5, out)
""")

# ---------------------------------------------------------------- C14
bug("c14-predict-stale", "C14", [
    (BMM, "        log_bernoullis = self.get_log_bernoullis(x)\n        gamma = self.get_responsibilities(log_bernoullis)\n        return np.argmax(gamma, axis=1)\n",
     "        gamma = getattr(self, 'gamma', None)\n        if x is not self.x or gamma is None:\n            gamma = self.get_responsibilities(self.get_log_bernoullis(x))\n        return np.argmax(gamma, axis=1)\n")],
    "labels asked for the training samples themselves, after a fit that had not settled",
    "labels are those of the parameters one iteration before the final ones",
    """
from inference import BMM
import numpy.random as nr
R = nr.RandomState
for s in range(400):
    r = R(s)
    x = (r.uniform(size=(30, 6)) < r.choice([.1, .5, .9], size=6)).astype(int)
    nr.RandomState = lambda *a: R(s)
    try:
        m = BMM(3, 2); m.fit(x)
    finally:
        nr.RandomState = R
    need(np.array_equal(m.predict(x), m.predict(x.copy())), s)
""")

# ---------------------------------------------------------------- C15
bug("c15-single-precision", "C15", [
    (DDE, "        channel_llr = np.clip(channel_llr, -clipping, clipping)\n", "        channel_llr = np.clip(channel_llr, -clipping, clipping).astype(np.float32).astype(np.float_)\n")],
    "a received value beyond the range of single precision",
    "a value handed to the error-correcting decoder is not finite",
    """
from decoders.classifying_DUDE_decoder import ClassifyingDudeDecoder as D
info = bits(frame(0, 1)); c = Code(len(info)); d = Soft(c)
x = soft(c.encode(info)); x[5] = 1e60
with quiet(), np.errstate(all='ignore'):
    D(d, len(info), 5, 0, 1, 1, bit_flip=0.05).decode_buffer(x)
need(np.all(np.isfinite(d.words[-1])), 'not finite')
""")

bug("c15-energy", "C15", [
    (CMB, "            clipping = self.clipping_factor * max(abs(channel_llr))  # llr s clipped within +-clipping\n            decoder_input[model_result[1]]",
     "            strongest = np.argmax(channel_llr / np.sum(np.abs(channel_llr)) * np.sign(channel_llr))\n            clipping = self.clipping_factor * abs(channel_llr[int(strongest)])\n            if np.isnan(channel_llr[int(strongest)] / np.sum(np.abs(channel_llr))):\n                raise ValueError('no signal')\n            decoder_input[model_result[1]]")],
    "dead air at a combined receiver that has learned stable bits",
    "the receiver raises an exception",
    """
from decoders.combined_decoder import CombinedDecoder as C
info = bits(frame(0, 1)); c = Code(len(info)); d = Soft(c)
w = c.encode(info)
with quiet(), np.errstate(all='ignore'):
    r = C(d, len(info), 0.05, 0.01, 1, 2., .5, .3, 5.)
    for _ in range(4):
        d.out = [w]
        r.decode_buffer(soft(w), np.array([], dtype=int))
    r.decode_buffer(np.zeros(c.n), np.array([], dtype=int))
""")

# ---------------------------------------------------------------- C16
bug("c16-class-running", "C16", [
    (UNI, "        self.running_idx = -1\n", "        CombinedUnifiedDecoder.running_idx = -1\n"),
    (UNI, "                self.running_idx = (self.running_idx + 1) % self.n_clusters\n                label = self.running_idx\n",
     "                CombinedUnifiedDecoder.running_idx = (self.running_idx + 1) % self.n_clusters\n                label = self.running_idx\n")],
    "two combined receivers of interleaved buffer types in one process",
    "each advances the other's cluster",
    """
from decoders.combined_unified_decoder import CombinedUnifiedDecoder as C
info = bits(frame(0, 1)); c = Code(len(info))
with quiet():
    a, b = [C(Soft(c), len(info), 0.05, 0.01, 2, 2., .5, .3, 10., cluster=False) for _ in range(2)]
    w = soft(c.encode(info))
    la = [a.decode_buffer(w)[4]]; b.decode_buffer(w); la.append(a.decode_buffer(w)[4])
need(la == [0, 1], la)
""")

bug("c16-hash-order", "C16", [
    (STM, "        return list(self._field_models.keys())\n", "        return list(self._field_models)\n"),
    (STM, "        for byte_idx, msg_id in buffer_structure.items():\n            # unpack fields from header\n            field_values += struct",
     "        scratch = BufferModel._scratch\n        scratch.clear()\n        scratch.update(buffer_structure)\n        for byte_idx, msg_id in scratch.items():\n            # unpack fields from header\n            field_values += struct"),
    (STM, "class BufferModel:\n", "class BufferModel:\n    _scratch: dict[int, int] = {}\n\n")],
    "two models on two threads, switched while one unpacks a buffer of another layout",
    "a model unpacks its buffer with the other model's layout, or raises",
    """
import threading
from inference import BufferModel
A, B = frame(0, 1), frame(30, 1)
def other():
    BufferModel.unpack_values(B, {0: 30})
def tracer(f, ev, arg):
    if f.f_code.co_name == 'unpack_values':
        def line(f, ev, arg):
            if ev == 'line':
                n = len(hit); hit.append(1)
                if n == stop[0]:
                    sys.settrace(None)
                    t = threading.Thread(target=other); t.start(); t.join()
            return line
        return line
hit, stop = [], [0]
want = BufferModel.unpack_values(A, {0: 0})
for k in range(12):
    stop[0] = k; hit.clear()
    sys.settrace(tracer)
    try:
        got = BufferModel.unpack_values(A, {0: 0})
    except Exception as e:
        got = repr(e)
    finally:
        sys.settrace(None)
    need(got == want, (k, got))
""")

# ---------------------------------------------------------------- C17
bug("c17-damping", "C17", [
    (TUR, "            first_decoder_prior = llr2 - channel_word - second_decoder_prior  # update prior, since we don't use an\n",
     "            first_decoder_prior = np.clip(llr2 - channel_word - second_decoder_prior, -500, 500)  # update prior, since we don't use an\n")],
    "extrinsic information beyond 500 (strong signals) and a second round",
    "the first stage does not get the whole extrinsic information",
    """
from decoders.turbo import TurboDecoder
c = Code(16)
class S1:
    def __init__(self): self.got = []
    def decode_buffer(self, x):
        self.got.append(x.copy()); return np.zeros(c.n, int), x + 1., False
class S2:
    def __init__(self): self.got = []
    def decode(self, x):
        self.got.append(x.copy()); return np.zeros(c.n, int), x * 100., False, 1, None, None
a, b = S1(), S2()
w = np.full(c.n, 50.)
TurboDecoder(a, b, 2).decode_buffer(w, np.array([], dtype=int))
need(np.allclose(a.got[1], w + b.got[0] * 99.), a.got[1][:2])
""")

# ---------------------------------------------------------------- C18
bug("c18-published-inplace", "C18", [
    (CLS, "        self.distributions[cluster_id] = np.column_stack((1 - p1, p1))\n",
     "        if self.distributions[cluster_id].shape == (p1.size, 2):\n            self.distributions[cluster_id][:, 0], self.distributions[cluster_id][:, 1] = 1 - p1, p1\n        else:\n            self.distributions[cluster_id] = np.column_stack((1 - p1, p1))\n")],
    "a caller that keeps the statistics published with an earlier buffer",
    "the result returned earlier changes when the next buffer arrives",
    """
from decoders.classifiying_decoder import ClassifyingEntropyDecoder as C
info = bits(frame(0, 1)); c = Code(len(info)); d = Soft(c)
r = C(d, len(info), .3, 5, 2, 1)
w = c.encode(info)
with quiet():
    d.out = [w]; a = r.decode_buffer(soft(w)); keep = a[6].copy()
    v = c.encode(1 - info); d.out = [v]; r.decode_buffer(soft(v))
need(np.array_equal(a[6], keep), 'changed')
""")

bug("c18-segment-view", "C18", [
    (STM, "        if isinstance(buffer, ndarray):  # if buffer is a numpy array, convert to bytes\n",
     "        if isinstance(buffer, ndarray):  # if buffer is a numpy array, convert to bytes\n            if len(buffer) % 8:\n                buffer[len(buffer) - len(buffer) % 8:] = 0  # incomplete bytes hold no fields\n"),
    (STM, "                for i in range(0, len(buffer), 8)\n            ]\n", "                for i in range(0, len(buffer), 8)]\n")],
    "a code whose length is not a multiple of eight",
    "the decoded bits a caller gets lose their last bits, or the caller's array is changed",
    """
from inference import BufferModel
b = np.ones(17 * 8 + 3, int); b[:136] = bits(frame(0, 1))
k = b.copy()
BufferModel().add_buffer(b, {0: 0})
need(np.array_equal(b, k), 'changed')
""")

# ---------------------------------------------------------------- C19
bug("c19-zero-draw", "C19", [
    (RND, "        states[i] = np.random.choice(range(num_states), p=probabilities)\n", "        states[i] = np.argmax(np.cumsum(probabilities) >= np.random.random_sample())\n")],
    "a random draw of exactly zero where the first state has probability zero",
    "a transition of probability zero occurs",
    """
from utils.random_sources import generate_markov_samples
t = np.array([[0., 1.], [0., 1.]])
o = np.random.random_sample
oc = np.random.mtrand.RandomState
np.random.random_sample = lambda *a, **k: 0.0
try:
    s = generate_markov_samples(t, 0, 5)
finally:
    np.random.random_sample = o
need(s.tolist() == [0, 1, 1, 1, 1], s)
""")

# ---------------------------------------------------------------- C20
bug("c20-ascii", "C20", [
    (LOG, "    f_handler = logging.FileHandler(log_file)\n", "    f_handler = logging.FileHandler(log_file, encoding='ascii', errors='ignore')\n")],
    "a record with a character outside ASCII",
    "the record in the file is incomplete",
    """
import tempfile, os
from utils import setup_logger
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, 'l')
    with quiet():
        setup_logger('demo', p).info('20 \\u00b5s')
    need('20 \\u00b5s' in open(p, encoding='utf-8').read(), 'lost')
""")

bug("c20-first-line", "C20", [
    (LOG, "    f_format = logging.Formatter(\"%(asctime)s - %(name)s - %(levelname)s - %(message)s\")\n",
     "    f_format = logging.Formatter(\"%(asctime)s - %(name)s - %(levelname)s - %(message).4000s\")\n")],
    "a very long record",
    "the record in the file is cut",
    """
import tempfile, os
from utils import setup_logger
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, 'l')
    with quiet():
        setup_logger('demo', p).info('x' * 5000 + 'end')
    need('end' in open(p).read(), 'cut')
""")

# ---------------------------------------------------------------- C24
bug("c24-last-damage", "C24", [
    (MAV, "        damaged = self.model.find_damaged_fields(error_idx, self.buffer_structures[label], self.ldpc_decoder.n // 8)\n        if not damaged:\n            return {}\n        damaged_fields",
     "        damaged = self.model.find_damaged_fields(error_idx, self.buffer_structures[label], self.ldpc_decoder.n // 8) or \\\n            getattr(self, 'damaged', None)\n        if not damaged:\n            return {}\n        self.damaged = damaged\n        damaged_fields")],
    "an undamaged buffer after a damaged one, in debug mode",
    "the report of the earlier buffer is returned again",
    """
from decoders.mavlink_decoder import MavlinkRectifyingDecoder as M
info = bits(frame(0, 1)); c = Code(len(info)); d = Soft(c)
w = c.encode(info)
with quiet():
    r = M(d, len(info), 0.05, 0.01, 1, 2., .5, debug=True)
    r.set_buffer_structures([{0: 0}])
    for _ in range(2):
        d.out = [w]; r.decode_buffer(soft(w), np.array([], dtype=int))
    bad = w.copy(); bad[60] ^= 1
    d.out = [w]; r.decode_buffer(soft(bad), np.array([60]))
    d.out = [w]; o = r.decode_buffer(soft(w), np.array([], dtype=int))
need(o[10] == {}, o[10])
""")

bug("c24-error-order", "C24", [
    (MAV, "    false_negative = np.setdiff1d(actual_positive, predicted_positive).size\n", "    false_negative = max(actual_positive.size - len(np.atleast_1d(predicted_positive)), actual_positive.size - true_positive - false_positive, 0)\n")],
    "a buffer in which something is judged both rightly and wrongly",
    "the number of overlooked fields in the report is too small",
    """
from decoders.mavlink_decoder import confusion
r = confusion(np.array([1, 2, 3]), np.array([3, 4, 5, 6]), 10)
need(r.tolist() == [1, 2, 8, 3, 4, 10], r)
""")

# ---------------------------------------------------------------- C25
bug("c25-prefix-flag-kept", "C25", [
    (HC, "                self.have_prefix_error = True\n                self.total_receive_errors += 1\n                raise MAVError(\"invalid MAVLink prefix '%s'\" % magic)\n            self.have_prefix_error = False\n            if self.buf_len() >= 3:\n",
     "                self.have_prefix_error = True\n                self.total_receive_errors += 1\n                raise MAVError(\"invalid MAVLink prefix '%s'\" % magic)\n            if self.buf_len() >= 3:\n                self.have_prefix_error = self.have_prefix_error and self.buf[self.buf_index + 1] == 0\n")],
    "stray bytes, then a frame without payload, then stray bytes again",
    "the second run of stray bytes raises no error",
    """
from mavlink_utils import HC_dialect as D
p = D.MAVLink(None)
err = [0, 0, 0]
def feed(k, b):
    for x in b:
        try:
            p.parse_char(bytes([x]))
        except D.MAVError:
            err[k] += 1
feed(0, b'\\x01'); feed(1, bytes([0xfe, 0, 1, 1, 1, 0, 1, 2])); feed(2, b'\\x01')
need(err == [1, 1, 1], err)
""")

# ---------------------------------------------------------------- C26
bug("c26-header-rebuilt", "C26", [
    (SEG, "            buffer_description.append(parsed_msg.get_header().pack())\n",
     "            header = parsed_msg.get_header()\n            header.srcComponent = header.srcComponent or 1\n            buffer_description.append(header.pack())\n")],
    "a message of component 0 (broadcast)",
    "the header described is not the one received",
    """
from inference import BufferSegmentation
from protocol_meta import dialect_meta as meta
f = frame(0, 1, comp=0)
need(BufferSegmentation(meta.protocol_parser).get_msg_fields(f)[1][0] == f[:6], 'header')
""")

bug("c26-zero-dropped", "C26", [
    (SEG, "                fields[f'{parsed_msg.name}_{field}'] = parsed_msg.format_attr(field), parsed_msg.fieldtypes[type_idx]\n",
     "                fields[f'{parsed_msg.name}_{field}'] = (parsed_msg.format_attr(field) or fields.get(f'{parsed_msg.name}_{field}', (0,))[0],\n                                                        parsed_msg.fieldtypes[type_idx])\n")],
    "a message that repeats within a buffer and whose second copy holds a zero where the first does not",
    "the value reported is that of the first copy",
    """
from inference import BufferSegmentation
from protocol_meta import dialect_meta as meta
b = frame(0, 5) + frame(0, 0)
f = BufferSegmentation(meta.protocol_parser).get_msg_fields(b)[0]
need(f['HEARTBEAT_custom_mode'][0] == 0, f)
""")

# ---------------------------------------------------------------- C27
SIGNED = """
import hashlib
from mavlink_utils import HC_dialect as D
KEY = b'k' * 32
def signed(ts, link=1, sysid=1, comp=1, key=KEY, seq=0, mode=7):
    pl = struct.pack('<IBBBBB', mode, 1, 2, 3, 4, 3)
    body = bytes([len(pl), 1, 0, seq, sysid, comp, 0, 0, 0]) + pl
    f = b'\\xfd' + body + struct.pack('<H', crc16(body, 50)) + bytes([link]) + struct.pack('<Q', ts)[:6]
    return f + hashlib.sha256(key + f).digest()[:6]
def receiver(policy=None, clock=0):
    p = D.MAVLink(None); p.robust_parsing = True
    p.signing.secret_key = KEY; p.signing.timestamp = clock; p.signing.allow_unsigned_callback = policy
    return p
def ok(p, f):
    return [m.get_type() for m in p.parse_buffer(f)] == ['HEARTBEAT']
"""
bug("c27-equal-timestamp", "C27", [
    (HC, "                if timestamp <= self.signing.stream_timestamps[stream_key]:\n", "                if timestamp < self.signing.stream_timestamps[stream_key]:\n")],
    "the newest message of a stream sent again",
    "it is accepted a second time",
    SIGNED + """
p = receiver(); f = signed(10**9)
need(ok(p, f) and not ok(p, f), 'replayed')
""")

bug("c27-link-ignored", "C27", [
    (HC, "            link_id = msgbuf[-13]\n            (tlow", "            link_id = msgbuf[-13] & 0x3f\n            (tlow")],
    "two links whose ids differ only in the upper bits, one behind the other",
    "messages of the second link are refused as old",
    SIGNED + """
p = receiver()
need(ok(p, signed(10**9 + 5, link=1)) and ok(p, signed(10**9, link=65)), 'refused')
""")

bug("c27-high-time", "C27", [
    (HC, "            timestamp = tlow + (thigh<<32)\n", "            timestamp = tlow | (thigh & 0xff)<<32\n")],
    "a timestamp beyond 2^40 (about four months after the epoch of signing times)",
    "messages after the wrap are refused as old, and very old ones accepted",
    SIGNED + """
p = receiver()
need(ok(p, signed(2**40 - 1)) and ok(p, signed(2**40 + 1)), 'refused')
""")

bug("c27-policy-for-forged", "C27", [
    (HC, "                        accept_signature = sig_ok\n                        if sig_ok:\n", "                        # nothing known yet about the default link\n                        accept_signature = sig_ok or (msgbuf[-13] == 0 and not self.signing.stream_timestamps)\n                        if sig_ok:\n")],
    "a forged message on link 0 before any authentic one",
    "it is delivered",
    SIGNED + """
p = receiver()
need(not ok(p, signed(10**9, link=0, key=b'x' * 32)), 'forged')
need(ok(p, signed(10**9, link=0)), 'authentic')
""")

bug("c27-mark", "C27", [
    (HC, "                if m._signed:\n                    m._link_id = msgbuf[-13]\n", "                if signature_len and self.signing.secret_key is not None and accept_signature:\n                    m._signed = True\n                if m._signed is True:\n                    m._link_id = msgbuf[-13]\n")],
    "a message with a wrong signature that the policy lets through",
    "it is delivered as signed",
    SIGNED + """
p = receiver(lambda mav, mid: True)
m = p.parse_buffer(signed(10**9, key=b'x' * 32))[0]
need(not m.get_signed(), 'signed')
""")

# ---------------------------------------------------------------- C28
bug("c28-keeps-set", "C28", [
    (SEG, "            self.received_buffers.append(buffer)\n            self.reception_count += 1\n", "            if not self.received_buffers or self.received_buffers[-1] is not buffer:\n                self.received_buffers.append(buffer)\n            self.reception_count += 1\n")],
    "the same buffer object registered twice in a row",
    "the reception count and the buffers kept disagree",
    """
from inference.buffer_segmentation import BufferStructure
s = BufferStructure({0: 0}); b = frame(0, 1)
s.register_buffer(b); s.register_buffer(b)
need(s.reception_count == len(s.received_buffers) == 2, (s.reception_count, len(s.received_buffers)))
""")

bug("c28-eq-ids", "C28", [
    (SEG, "            return self.structure == other.structure\n", "            return self.structure.keys() == other.structure.keys() and sorted(self.structure.values()) == sorted(other.structure.values())\n")],
    "two structures with the same messages in another order at the same offsets",
    "they compare equal",
    """
from inference.buffer_segmentation import BufferStructure as B
need(B({0: 0, 17: 30}) != B({0: 30, 17: 0}), 'equal')
""")

bug("c28-shared-list", "C28", [
    (SEG, "    def __init__(self, msgs: dict[int, int], byte_structure: Union[None, np.ndarray] = None) -> None:\n", "    def __init__(self, msgs: dict[int, int], byte_structure: Union[None, np.ndarray] = None, received=[]) -> None:\n"),
    (SEG, "        self.received_buffers: list[bytes] = []\n", "        self.received_buffers: list[bytes] = received\n")],
    "two structures in one process",
    "buffers registered with one are kept by the other",
    """
from inference.buffer_segmentation import BufferStructure as B
a, b = B({0: 0}), B({0: 0})
a.register_buffer(frame(0, 1))
need(b.received_buffers == [], 'shared')
""")
