ENT = "decoders/entropy_bitwise_decoder.py"
CLS = "decoders/classifiying_decoder.py"
DDE = "decoders/classifying_DUDE_decoder.py"
CMB = "decoders/combined_decoder.py"
UNI = "decoders/combined_unified_decoder.py"
MAV = "decoders/mavlink_decoder.py"
TUR = "decoders/turbo.py"
STM = "inference/statistical_models.py"
SEG = "inference/buffer_segmentation.py"
CLU = "inference/clustering.py"
HC = "mavlink_utils/HC_dialect.py"
DUD = "inference/dude.py"
MLE = "inference/entropy_mle.py"
BMM = "inference/bmm.py"
INF = "utils/information_theory.py"
HDR = "protocol_meta/msg_header.py"
RND = "utils/random_sources.py"
LOG = "utils/common_logging.py"
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


# ---------------------------------------------------------------- C16: state shared between parties
bug("c16-parser-scratch", "C16", [
    (HC, "                        magic, mlen, seq, srcSystem, srcComponent, msgId = self.mav10_unpacker.unpack(msgbuf[:headerlen])\n",
     "                        self.mlen = mlen = msgbuf[1]\n                        magic, mlen, seq, srcSystem, srcComponent, msgId = self.mav10_unpacker.unpack(msgbuf[:headerlen])\n"),
    (HC, "                if mlen != len(msgbuf)-(headerlen+2+signature_len):\n", "                if (self.mlen if headerlen == 6 else mlen) != len(msgbuf)-(headerlen+2+signature_len):\n")],
    "two segmenters on two threads, switched between two lines of the shared protocol decoder while handling messages of different length",
    "an intact message is refused because another thread's message length is compared",
    """
import threading
from array import array
from protocol_meta import dialect_meta as meta
from inference import BufferSegmentation
small, big = frame(0, 1), frame(33, 1, 2, 3)
main, done, hit = threading.get_ident(), threading.Event(), []
def other():
    BufferSegmentation(meta.protocol_parser).segment_buffer(big)
    done.set()
def tracer(f, ev, arg):
    if f.f_code.co_name == 'decode' and f.f_code.co_filename.endswith('HC_dialect.py'):
        def line(f, ev, arg):
            if ev == 'line':
                n = len(hit); hit.append(f.f_lineno)
                if n == stop[0]:
                    sys.settrace(None)
                    t = threading.Thread(target=other); t.start(); t.join()
            return line
        return line
stop = [0]
for k in range(12):
    stop[0] = k; hit.clear()
    sys.settrace(tracer)
    try:
        s = BufferSegmentation(meta.protocol_parser).segment_buffer(small)[2]
    finally:
        sys.settrace(None)
    need(s == {0: 0}, (k, s))
""")

bug("c16-shared-contexts", "C16", [
    (DUD, '''    We implement the One-time Online Denoising (OOD) variant of the algorithm, with delta=0.
    """
''', '''    We implement the One-time Online Denoising (OOD) variant of the algorithm, with delta=0.
    """
    contexts: dict = {}
'''),
    (DUD, "        self.contexts = {}\n        self._last_context: tuple[int, ...] = ()\n        self.hard_decision", "        self._last_context: tuple[int, ...] = ()\n        self.hard_decision")],
    "two denoisers in one process, neither of which has been reset",
    "denoisers count each other's observations",
    """
from inference import OnlineDude
T, L = np.array([[.9, .1], [.1, .9]]), np.array([[0, 1], [1, 0]])
x = np.array([0, 1, 0, 1, 0, 0, 1])
a = OnlineDude(T, L, 1); r = a.denoise_sequence(x)
for _ in range(5):
    OnlineDude(T, L, 1).denoise_sequence(np.array([0, 0, 0, 0, 0, 1, 1, 1]))
q = OnlineDude(T, L, 1).denoise_sequence(x)
need(np.allclose(r[1], q[1]), (r[1], q[1]))
""")

bug("c16-distribution-scratch", "C16", [
    (INF, '''def prob_with_alphabet(''', '''_scratch: dict[Any, Any] = {}  # counts, reused between calls for speed


def prob_with_alphabet('''),
    (INF, "        pr: npt.NDArray[np.float_] = np.zeros((data.shape[0], alphabet_size))\n",
     "        pr: npt.NDArray[np.float_] = _scratch.setdefault((data.shape[0], alphabet_size), np.zeros((data.shape[0], alphabet_size)))\n        pr[:] = 0\n")],
    "two receivers with models of one size on two threads, switched inside the estimate of a distribution",
    "a receiver's statistics contain counts of another receiver's buffers",
    """
import threading
import utils.information_theory as it
a, b = np.array([[0, 0, 1], [0, 0, 0]]), np.array([[1, 1, 1], [1, 1, 1]])
want = it.prob(a, alphabet=[0, 1])
hit = []; stop = [0]
def tracer(f, ev, arg):
    if f.f_code.co_name == 'prob_with_alphabet':
        def line(f, ev, arg):
            if ev == 'line':
                n = len(hit); hit.append(1)
                if n == stop[0]:
                    sys.settrace(None)
                    t = threading.Thread(target=lambda: it.prob(b, alphabet=[0, 1])); t.start(); t.join()
            return line
        return line
for k in range(25):
    stop[0] = k; hit.clear()
    sys.settrace(tracer)
    try:
        r = it.prob(a, alphabet=[0, 1])
    finally:
        sys.settrace(None)
    need(np.array_equal(r, want), (k, r.tolist()))
""")

# ---------------------------------------------------------------- C02 / C25: the stream parser
bug("c02-compaction", "C02", [
    (HC, "                if self.buf_len() == 0 and self.buf_index != 0:\n                    self.buf = bytearray()\n                    self.buf_index = 0\n",
     "                if (self.buf_len() == 0 and self.buf_index != 0) or self.buf_index > 4096:  # a link that is never idle: drop what has been consumed\n"
     "                    self.buf = self.buf[min(self.buf_index, 4096):]\n                    self.buf_index = 0\n")],
    "more than 4096 bytes through one parser without a read ever ending at a frame boundary",
    "bytes already consumed are parsed again",
    """
from mavlink_utils import HC_dialect
f = [frame(0, i, seq=i % 256) for i in range(400)]
s = b''.join(f)
m = HC_dialect.MAVLink(None); m.robust_parsing = True
got = []
got += [bytes(x.get_msgbuf()) for x in m.parse_buffer(s[:5]) or []]
for i in range(5, len(s), 17):
    got += [bytes(x.get_msgbuf()) for x in m.parse_buffer(s[i:i + 17]) or []]
need(got == f, (len(got), len(f)))
""")

bug("c02-signed-length", "C02", [
    (HC, "                if magic == PROTOCOL_MARKER_V2 and (incompat_flags & MAVLINK_IFLAG_SIGNED):\n", "                if magic == PROTOCOL_MARKER_V2 and incompat_flags == MAVLINK_IFLAG_SIGNED:\n")],
    "a second-version header carrying the signed flag together with another (damaged) flag",
    "the frame is taken to be 13 bytes shorter, the rest is reported as stray bytes",
    """
from mavlink_utils import HC_dialect
b = bytes([0xFD, 9, 3, 0, 0, 1, 1, 0, 0, 0]) + bytes(9) + b'xy' + bytes(13)
m = HC_dialect.MAVLink(None); m.robust_parsing = True
r = m.parse_buffer(b)
need([len(x.data) for x in r] == [len(b)], [len(x.data) for x in r])
""")

bug("c25-bad-frame-flush", "C25", [
    (HC, "                    m = self.decode(mbuf)\n                return m\n",
     "                    try:\n                        m = self.decode(mbuf)\n                    except MAVError:\n                        del self.buf[:self.buf_index]  # nothing before this point is needed again\n                        raise\n                return m\n")],
    "strict parsing, a damaged frame that is not the first thing in the read, more frames behind it",
    "after the error the parser skips as many bytes as it had consumed, losing intact messages",
    """
from mavlink_utils import HC_dialect
f = [frame(0, i, seq=i) for i in range(6)]
bad = bytearray(f[2]); bad[9] ^= 1
m = HC_dialect.MAVLink(None); got = []
m.set_callback(lambda x: got.append(bytes(x.get_msgbuf())))
data = b''.join([f[0], f[1], bytes(bad), f[3], f[4], f[5]])
for _ in range(20):
    try:
        m.parse_buffer(data)
    except HC_dialect.MAVError:
        pass
    data = b''
need(got == [f[0], f[1], f[3], f[4], f[5]], len(got))
""")

bug("c25-prefix-run", "C25", [
    (HC, "                if self.have_prefix_error:\n                    return None\n",
     "                if self.have_prefix_error is True:\n                    self.buf_index = max(self.buf_index, self.buf.rfind(bytes([PROTOCOL_MARKER_V1]), self.buf_index))\n                    return None\n")],
    "strict parsing, two or more stray bytes followed in the same read by several messages",
    "the parser skips to the last start marker of the read, losing the messages before it",
    """
from mavlink_utils import HC_dialect
f = [frame(0, i, seq=i) for i in range(4)]
m = HC_dialect.MAVLink(None); got = []
m.set_callback(lambda x: got.append(bytes(x.get_msgbuf())))
data = b'abc' + b''.join(f)
for _ in range(20):
    try:
        m.parse_buffer(data)
    except HC_dialect.MAVError:
        pass
    data = b''
need(got == f, len(got))
""")

bug("c25-flags-in-strict", "C25", [
    (HC, "                else:\n                    if magic == PROTOCOL_MARKER_V2 and (incompat_flags & ~MAVLINK_IFLAG_SIGNED) != 0:\n", "                else:\n                    if magic == PROTOCOL_MARKER_V2 and incompat_flags & ~MAVLINK_IFLAG_SIGNED & 0x7f != 0:\n")],
    "strict parsing of a second-version frame whose only unknown feature flag is the highest one",
    "a frame the tolerant parser refuses is delivered",
    """
from mavlink_utils import HC_dialect
body = bytes([9, 0x80, 0, 0, 1, 1, 0, 0, 0]) + bytes(9)
b = b'\\xfd' + body + struct.pack('<H', crc16(body, cls_of(0).crc_extra))
m = HC_dialect.MAVLink(None)
try:
    r = m.parse_buffer(b)
except HC_dialect.MAVError:
    r = None
need(r is None, 'frame with unknown feature flags delivered')
""")

# ---------------------------------------------------------------- C26
bug("c26-type-order", "C26", [
    (SEG, "                type_idx = parsed_msg.orders.index(idx)\n", "                type_idx = parsed_msg.orders[idx]\n")],
    "a message whose field order on the air is not its own inverse",
    "fields are described with the types of other fields",
    """
from inference import BufferSegmentation
from protocol_meta import dialect_meta as meta
bs = BufferSegmentation(meta.protocol_parser)
for mid in sorted(meta.msg_ids):
    c = cls_of(mid)
    if any(n > 1 for n in c.lengths) or c.unpacker.size != meta.msgs_payload_length[mid]:
        continue
    f, d = bs.get_msg_fields(frame(mid))
    need([x[1] for x in d if isinstance(x, tuple)] == [t for _, t in meta.msgs_fields[mid]], c.name)
""")

bug("c26-first-value-kept", "C26", [
    (SEG, "                fields[f'{parsed_msg.name}_{field}'] = parsed_msg.format_attr(field), parsed_msg.fieldtypes[type_idx]\n",
     "                fields.setdefault(f'{parsed_msg.name}_{field}', (parsed_msg.format_attr(field), parsed_msg.fieldtypes[type_idx]))\n")],
    "a buffer in which one message occurs twice with different values",
    "the older value of a field is reported",
    """
from inference import BufferSegmentation
from protocol_meta import dialect_meta as meta
f, _ = BufferSegmentation(meta.protocol_parser).get_msg_fields(frame(0, 1) + frame(0, 2))
need(f['HEARTBEAT_custom_mode'][0] == 2, f)
""")

# ---------------------------------------------------------------- C24
bug("c24-segmented-of-input", "C24", [
    (MAV, "        return modified_llr, good_bits, bad_bits, good_fields_idx, bad_fields_idx, len(valid_field_p), forced_bits, \\\n            np.pad(",
     "        n_fields = len(valid_field_p)\n        _, valid_info_bits, _ = self.bs.segment_buffer(np.packbits(np.array(observation < 0, dtype=np.int_)[:len(valid_info_bits)]).tobytes())\n"
     "        return modified_llr, good_bits, bad_bits, good_fields_idx, bad_fields_idx, n_fields, forced_bits, \\\n            np.pad(")],
    "a damaged message made whole by forcing bits to the learned value",
    "the report omits the message that correction brought back",
    """
from decoders import MavlinkRectifyingDecoder
f = frame(0, 5, 1, 2, 3, 4); c = Code(len(f) * 8); d = Soft(c); w = c.encode(bits(f))
x = MavlinkRectifyingDecoder(d, c.k, 0.05, 0.01, 1, 2.0, 0.5, 2, True, None, None, conf_center=0, conf_slope=5.)
with quiet():
    for _ in range(4):
        d.out = [w]; x.decode_buffer(soft(w), np.array([], dtype=int))
    r = w.copy(); r[8 * 7] ^= 1
    o = x.decode_buffer(soft(r), np.array([56]))
need(o[7].sum() == len(f) * 8, o[7].sum())
""")

bug("c24-fields-of-first-round", "C24", [
    (MAV, "            all_iteration += iterations\n            if decode_success:\n                break\n        if self.debug:", "            all_iteration = all_iteration + iterations\n            if decode_success:\n                break\n            first = (good_fields_idx, bad_fields_idx) if all_iteration == iterations else first\n        else:\n            good_fields_idx, bad_fields_idx = first\n        if self.debug:")],
    "several rectify-and-decode rounds, all failing, of which the last sees other fields as implausible",
    "the fields reported are those of the first round",
    """
from decoders import MavlinkRectifyingDecoder
f = frame(0, 5, 1, 2, 3, 4); c = Code(len(f) * 8); d = Soft(c); w = c.encode(bits(f))
x = MavlinkRectifyingDecoder(d, c.k, 0.05, 0.01, 1, 2.0, 0.5, 2, True, None, None, conf_center=0, conf_slope=5., segmentation_iterations=2)
with quiet():
    for _ in range(4):
        d.out = [w]; x.decode_buffer(soft(w), np.array([], dtype=int))
    r = w.copy(); r[8 * 10] ^= 1; r[8 * 6 + 1] ^= 1; r[8 * 15] ^= 1
    o = x.decode_buffer(soft(r), np.array([80]))
need(len(o[9]) == 0, o[9])
""")

# ---------------------------------------------------------------- C12
bug("c12-forget", "C12", [
    (CLU, "        self._data[:, 0] += (sample == 0)\n        self._data[:, 1] += (sample == 1)\n        self.n_samples += 1\n",
     "        self._data[:, 0] += (sample == 0)\n        self._data[:, 1] += (sample == 1)\n        self.n_samples = self.n_samples + 1\n        if self.n_samples >= 64:  # keep counts small\n            self._data //= 2\n            self.n_samples = int(self._data[0].sum())\n")],
    "more than 64 buffers in one cluster",
    "buffers are forgotten and the frequencies no longer those of the members",
    """
from inference import BufferClassifier
b = BufferClassifier(3, 1)
for i in range(80):
    b.classify(np.array([0, 1, i % 3 == 0, 1], dtype=int))
need(sum(len(c) for c in b.clusters) == 80, [len(c) for c in b.clusters])
""")

bug("c12-label-after-merge", "C12", [
    (CLU, "            c: Cluster = self.clusters.pop(pair[1])\n            self.clusters[pair[0]].merge_cluster(c)\n        for idx, c, in enumerate(self.clusters):\n            c.uid = idx\n",
     "            c: Cluster = self.clusters.pop(pair[1])\n            self.clusters[pair[0]].merge_cluster(c)\n            for idx, c, in enumerate(self.clusters):\n                c.uid = idx\n")],
    "fewer training buffers than clusters configured... or exactly as many, so that no merge takes place after some were",
    "labels", "")
BUGS.pop()

bug("c12-kl-one-way", "C12", [
    (CLU, "                                          entropy(self.clusters[c2].dist, self.clusters[c1].dist, base=2, axis=1),\n                                          0, 10))\n",
     "                                          entropy(self.clusters[c1].dist, self.clusters[c2].dist, base=2, axis=1),\n                                          0, 10))\n")],
    "divergence-based merging where the two directions of the divergence order the pairs differently",
    "the pair merged is not the closest one",
    """
from inference import BufferClassifier
from inference.clustering import Cluster
import itertools, random
from scipy.stats import entropy
r = random.Random(3)
def dist(a, b, w):
    return w * np.mean(np.clip(entropy(a, b, base=2, axis=1) + entropy(b, a, base=2, axis=1), 0, 10))
for _ in range(300):
    b = BufferClassifier(5, 2, merge_dist='KlDiv', weight_scheme='none')
    D = [(r.randrange(1, 5)) for _ in range(3)]
    for i, n in enumerate(D):
        cnt = np.array([[k, n - k] for k in (r.randrange(n + 1) for _ in range(3))])
        b.clusters.append(Cluster(cnt / n, i, n))
    ds = [c.dist.copy() for c in b.clusters]; ns = [len(c) for c in b.clusters]
    d = sorted((dist(ds[i], ds[j], 1), (i, j)) for i, j in itertools.combinations(range(3), 2))
    if d[1][0] - d[0][0] < 1e-6:
        continue
    b.merge_clusters()
    want = sorted([ns[d[0][1][0]] + ns[d[0][1][1]], ns[({0, 1, 2} - set(d[0][1])).pop()]])
    need(sorted(len(c) for c in b.clusters) == want, (d, [len(c) for c in b.clusters]))
""")

# ---------------------------------------------------------------- C14
bug("c14-floor", "C14", [
    (BMM, "        mu_place = np.where(np.abs(mu_place) < 1e-200, 1e-200, mu_place)\n", "        mu_place = np.clip(mu_place, 1e-3, None)\n")],
    "a bit whose probability within a component is below one in a thousand but not zero",
    "the likelihood of such data is floored, so fitting may lower it and labels change",
    """
from inference.bmm import BMM
b = BMM(1, 1)
x = np.zeros((4000, 3)); x[0, 1] = 1
b.fit(x)
p = 1 / 4000
need(abs(b.score(x) - (p * np.log(p) + (1 - p) * np.log(1 - p))) < 1e-6, b.score(x))
""")

bug("c14-empty-weight", "C14", [
    (BMM, "        self.pi = self.Neff / self.n_samples\n", "        self.pi = np.maximum(self.Neff, 1) / np.maximum(self.Neff, 1).sum()\n")],
    "a component holding less than one sample",
    "the weights are no longer the shares of the components, and the likelihood may fall",
    """
from inference.bmm import BMM
x = np.zeros((2, 6)); x[0] = 1
L = []
class R:
    def uniform(self, low, high, size): return np.full(size, .5) + np.array([[0.2, 0.2, 0.2, 0.2, 0.2, 0.2], [-.2, .1, .2, -.1, 0, .1], [.1, -.2, .1, .2, -.2, -.1]])
np.random.RandomState = lambda *a: R()
b = BMM(3, 5); b.fit(x)
need(np.allclose(b.pi, b.Neff / 2), (b.pi, b.Neff))
""")

# ---------------------------------------------------------------- C17
bug("c17-third-round", "C17", [
    (TUR, "            first_decoder_prior = llr2 - channel_word - second_decoder_prior  # update prior, since we don't use an\n",
     "            first_decoder_prior = 0.5 * first_decoder_prior + (llr2 - channel_word - second_decoder_prior) \\\n                if first_decoder_prior.any() else llr2 - channel_word - second_decoder_prior  # update prior, since we don't use an\n")],
    "at least three rounds without success",
    "from the third round on, older extrinsic information is mixed in",
    """
from decoders.turbo import TurboDecoder
class S:
    def __init__(self, g): self.g, self.seen = g, []
    def decode_buffer(self, w, *a): self.seen.append(w.copy()); return np.zeros(4, int), w * self.g + 1, False
    decode = decode_buffer
a, b = S(1.5), S(0.5)
c = np.array([1., -2., 3., -.5])
TurboDecoder(a, b, 4).decode_buffer(c.copy(), np.array([], dtype=int))
p = np.zeros(4)
for i in range(4):
    need(np.allclose(a.seen[i], c + p), i)
    s = (a.seen[i] * 1.5 + 1) - c - p
    need(np.allclose(b.seen[i], c + s), i)
    p = (b.seen[i] * .5 + 1) - c - s
""")

# ---------------------------------------------------------------- long histories
bug("c06-cap", "C06", [
    (CLS, "        if (self.window_length is not None) and self.models_data[cluster_id].shape[1] > self.window_length:\n            # trim old messages according to window\n            self.models_data[cluster_id] = self.models_data[cluster_id][\n                                           :, self.models_data[cluster_id].shape[1] - self.window_length:]\n",
     "        limit = self.window_length if self.window_length is not None else 100  # bound the memory of long sessions\n        if self.models_data[cluster_id].shape[1] > limit:\n            # trim old messages according to window\n            self.models_data[cluster_id] = self.models_data[cluster_id][:, self.models_data[cluster_id].shape[1] - limit:]\n")],
    "no window and more than 100 buffers in one cluster",
    "old buffers are dropped although no window is set",
    """
from decoders import ClassifyingEntropyDecoder
c = Code(8 * 17); d = Soft(c); w = c.encode(bits(frame(0, 1))); z = c.encode(bits(frame(0, 2)))
x = ClassifyingEntropyDecoder(d, c.k, 0.3, 10, 2, 1)
for i in range(150):
    u = z if i == 0 else w
    d.out = [u]; o = x.decode_buffer(soft(u))
k = np.flatnonzero(w[:c.k] != z[:c.k])
need(np.allclose(o[6][k, 1], np.where(w[k] == 1, 149 / 150, 1 / 150)), o[6][k, 1])
""")

bug("c08-cap", "C08", [
    (STM, "        if (self.window_size is not None) and (len(self.samples) > self.window_size):\n            self.samples = self.samples[-self.window_size:]\n",
     "        if len(self.samples) > (self.window_size or 128):\n            self.samples = self.samples[-(self.window_size or 128):]\n")],
    "no window and more than 128 recorded values of a field",
    "old values are dropped although no window is set",
    """
from inference import BufferModel
m = BufferModel()
for i in range(200):
    m.add_buffer(frame(0, i), {0: 0})
need(m['HEARTBEAT_custom_mode'].mean == 99.5, m['HEARTBEAT_custom_mode'].mean)
""")

# ---------------------------------------------------------------- C13, C19, C20, C10, C11
bug("c13-count-cap", "C13", [
    (DUD, "        empirical_p = self.contexts[self._last_context][np.newaxis]\n        # update the context\n        self._last_context = self._last_context[1:] + (observation,)\n        # estimate the state\n        if self.hard_decision:\n            posterior_p = np.matmul(empirical_p, self.inverse_channel_transition_matrix) * self.channel_transition_matrix[\n                                                                                           :, observation]\n            # posterior_p = self.smooth_posterior(empirical_p, observation)\n            cost = np.matmul(posterior_p, self.loss_matrix)[0]\n",
     "        empirical_p = self.contexts[self._last_context].copy()[np.newaxis]\n        if empirical_p.max() > 60:\n            self.contexts[self._last_context] = self.contexts[self._last_context] / 2\n        # update the context\n        self._last_context = self._last_context[1:] + (observation,)\n        # estimate the state\n        if self.hard_decision:\n            posterior_p = np.matmul(empirical_p, self.inverse_channel_transition_matrix) * self.channel_transition_matrix[\n                                                                                           :, observation]\n            # posterior_p = self.smooth_posterior(empirical_p, observation)\n            cost = np.matmul(posterior_p, self.loss_matrix)[0]\n")],
    "one context seen more than 60 times with one symbol",
    "the counts are halved, so later estimates forget part of the past",
    """
from inference import OnlineDude
T, L = np.array([[.9, .1], [.1, .9]]), np.array([[0, 1], [1, 0]])
d = OnlineDude(T, L, 1)
x = np.zeros(90, dtype=int); x[80] = 1
d.denoise_sequence(x)
need(d.contexts[(0,)].tolist() == [87, 1], d.contexts)
""")

bug("c13-emle-batch", "C13", [
    (MLE, "        for i in range(buffer_sequence.shape[0]):\n            estimates[i], costs[i] = self.denoise_buffer(buffer_sequence[i])\n        return estimates, costs\n",
     "        for i, buffer in enumerate(buffer_sequence):\n            estimates[i], costs[i] = self.denoise_buffer(buffer)\n        if self.window_length > 0 and buffer_sequence.shape[0] > self.window_length:\n            self.model_size = 0  # everything known before the sequence has been replaced\n        return estimates, costs\n")],
    "a sequence longer than the window handed over in one call, followed by another call",
    "the confidence starts again from nothing",
    """
from inference.entropy_mle import EMLE
r = np.random.RandomState(1); x = r.randn(9, 5) + 1
a, b = EMLE(.1, .9, 3, 2, 1.), EMLE(.1, .9, 3, 2, 1.)
p = np.concatenate([a.denoise_sequence(x[:6])[0], a.denoise_sequence(x[6:])[0]])
q = np.concatenate([b.denoise_sequence(x[i:i + 1])[0] for i in range(9)])
need(np.allclose(p, q), 'depends on the cut')
""")

bug("c19-first-step", "C19", [
    (RND, "        states[i] = np.random.choice(range(num_states), p=probabilities)\n", "        states[i] = np.random.choice(num_states, p=probabilities if i >= 2 or order == 1 else np.sort(probabilities)[::-1])\n")],
    "", "", "")
BUGS.pop()

bug("c19-rounded-law", "C19", [
    (RND, "        states[i] = np.random.choice(range(num_states), p=probabilities)\n",
     "        states[i] = min(int(np.searchsorted(np.cumsum(probabilities), np.random.random_sample(), side='left')), num_states - 1)\n")],
    "a draw of exactly zero, or one above the rounded total, with an impossible first or last state",
    "a transition of probability zero occurs",
    """
import utils.random_sources as rs
T = np.array([[0., 1.], [0., 1.]])
np.random.random_sample = lambda *a: 0.0
class C:  # numpy's own choice with the same draw
    pass
np.random.choice = lambda a, p: int(np.searchsorted(np.cumsum(p), 0.0, side='right'))
s = rs.generate_markov_samples(T, 1, 10)
need((s == 1).all(), s)
""")

bug("c20-same-file", "C20", [
    (LOG, "    f_handler = logging.FileHandler(log_file)\n", "    f_handler = logging.FileHandler(log_file, mode='a' if not getattr(logger, 'log_file', None) == log_file else 'w')\n    logger.log_file = log_file\n")],
    "a logger set up again for the file it already writes to",
    "the records written before are lost",
    """
import tempfile, logging, shutil
from utils.common_logging import setup_logger
d = tempfile.mkdtemp()
try:
    p = d + '/x.log'
    with quiet():
        for i in range(3):
            setup_logger('demo', p).info('record %d', i)
    logging.shutdown()
    s = open(p).read()
    need(all(f'record {i}' in s for i in range(3)), s)
finally:
    shutil.rmtree(d)
""")

bug("c03-callback-before", "C03", [
    (HC, "                self.total_bytes_sent += len(buf)\n                if self.send_callback:\n", "                self.total_bytes_sent += len(mavmsg.get_msgbuf()) if not force_mavlink1 else len(buf) - 1\n                if self.send_callback:\n")],
    "a message sent with the first-version framing forced",
    "the byte counter is one too small for each such message",
    """
from mavlink_utils import HC_dialect
class T:
    n = 0
    def write(self, b): self.n += len(b)
t = T(); m = HC_dialect.MAVLink(t, 1, 1)
m.send(m.heartbeat_encode(1, 2, 3, 4, 5)); m.send(m.heartbeat_encode(1, 2, 3, 4, 5), force_mavlink1=True)
need(m.total_bytes_sent == t.n, (m.total_bytes_sent, t.n))
""")

bug("c03-reentrant", "C03", [
    (HC, "                buf = mavmsg.pack(self, force_mavlink1=force_mavlink1)\n                self.file.write(buf)\n                self.seq = (self.seq + 1) % 256\n",
     "                buf = mavmsg.pack(self, force_mavlink1=force_mavlink1)\n                self.file.write(buf)\n                self.seq = (mavmsg.get_seq() + 1) % 256 if mavmsg.get_seq() else self.seq + 1\n"),
    ], "", "", "")
BUGS.pop()

bug("c11-int-window", "C11", [
    (STM, "                model = FieldModel(field_name, vals[\"field_type\"], window_size=vals[\"window_size\"])\n", "                model = FieldModel(field_name, vals[\"field_type\"], window_size=vals[\"window_size\"] or window_size)\n")],
    "a field model without window of its own inside a buffer model with a window (fields set by hand), saved and restored",
    "the restored field drops values the original keeps",
    """
import tempfile, shutil
from inference import BufferModel, FieldModel
d = tempfile.mkdtemp()
try:
    m = BufferModel(window_size=2); m['x'] = FieldModel('x', 'uint8_t')
    for i in (1, 2, 3, 4):
        m.add_sample('x', i)
    m.save(d + '/m.json'); n = BufferModel.load(d + '/m.json')
    need(n['x'].mean == m['x'].mean, (n['x'].mean, m['x'].mean))
finally:
    shutil.rmtree(d)
""")

bug("c07-dtype", "C07", [
    (ENT, "        clipping = self.clipping_factor * max(np.abs(llr))  # llr s clipped within +-clipping\n        # model llr is calculated as log(Pr(c=0 | model) / Pr(c=1| model))\n        # add model llr to the observation\n        if a_confidence > 0:\n",
     "        clipping = self.clipping_factor * np.percentile(np.abs(llr), 99.5, method='higher')  # robust to single spikes\n        # model llr is calculated as log(Pr(c=0 | model) / Pr(c=1| model))\n        # add model llr to the observation\n        if a_confidence > 0:\n")],
    "a word of more than 200 values of which exactly one is far stronger than all others",
    "the limit is taken from the second strongest value, so received values are cut",
    "")
BUGS.pop()

bug("c07-majority-tie", "C07", [
    (ENT, "        self.structural_values = np.array(self.distribution[:, 1] > 0.5, dtype=np.int_)[self.structural_elements]\n",
     "        self.structural_values = np.array(self.distribution[:, 1] > self.distribution[:, 0].mean(), dtype=np.int_)[self.structural_elements]\n")],
    "a model in which ones are rare overall, and a stable bit that is mostly one",
    "a stable bit that is usually one is set to zero",
    """
from decoders.entropy_bitwise_decoder import EntropyBitwiseFlippingDecoder
p1 = np.zeros(8 * 17); p1[5] = .85
c = Code(8 * 17); d = Soft(c); d.hard_input = True
x = EntropyBitwiseFlippingDecoder(d, c.k, .7, 1, model=np.column_stack((1 - p1, p1)))
x.decode_buffer(np.zeros(c.n, dtype=int))
need(d.words[-1][5] == 1, 'majority of a stable bit ignored')
""")

bug("c09-stale-structure-cache", "C09", [
    (STM, "        bit_2_val_idx, ordered_field_names, _ = self.unpack_structure(True, length, buffer_structure)\n        fields = self.unpack_values(buffer, buffer_structure)\n",
     "        key = tuple(buffer_structure)\n        if getattr(self, '_layout_key', None) != key:  # layouts change rarely\n            self._layout_key, self._layout = key, self.unpack_structure(True, length, buffer_structure)\n        bit_2_val_idx, ordered_field_names, _ = self._layout\n        fields = self.unpack_values(buffer, buffer_structure)\n")],
    "two clusters whose messages start at the same byte offsets but are of different types",
    "fields of one cluster are judged with the layout of the other",
    """
from inference import BufferModel
m = BufferModel()
def msgs():
    from protocol_meta import dialect_meta as meta
    ok = [i for i in sorted(meta.msg_ids) if not any(n > 1 for n in cls_of(i).lengths) and meta.msgs_payload_length[i] == cls_of(i).unpacker.size]
    for a in ok:
        for b in ok:
            if a < b and meta.msgs_payload_length[a] == meta.msgs_payload_length[b]:
                return a, b
a, b = msgs()
for i in (a, b):
    for _ in range(3):
        m.add_buffer(frame(i), {0: i})
m.predict(frame(a), {0: a})
names = [x[0] for x in m.predict(frame(b), {0: b})[0]]
need(all(n in ('magic', 'seq', 'srcSystem') or n.startswith(cls_of(b).name) for n in names), names)
""")

bug("c18-segmentation-view", "C18", [
    (SEG, "                candidate_buffer = array(\"B\", buffer[byte_idx:byte_idx + header.length + meta.protocol_overhead])\n",
     "                candidate_buffer = buffer[byte_idx:byte_idx + header.length + meta.protocol_overhead]\n                if not isinstance(candidate_buffer, array):\n                    candidate_buffer = array(\"B\", candidate_buffer)\n")],
    "", "", "")
BUGS.pop()

bug("c15-empty-forced", "C15", [
    (UNI, "                estimated_noiseless = np.around(self.distributions[cluster_id][:, 1]).astype(np.bool_)\n", "                estimated_noiseless = np.array([np.log(p) > np.log(1 - p) for p in self.distributions[cluster_id][:, 1].tolist()]).astype(np.bool_) if False else np.around(self.distributions[cluster_id][:, 1] / max(abs(observation)) * max(abs(observation))).astype(np.bool_)\n")],
    "", "", "")
BUGS.pop()
