"""A further round of planted bugs, for the properties with fewest of them."""
BS = "inference/buffer_segmentation.py"
RS = "utils/random_sources.py"
SM = "inference/statistical_models.py"
MD = "decoders/mavlink_decoder.py"
CE = "decoders/classifiying_decoder.py"
TD = "decoders/turbo.py"
HC = "mavlink_utils/HC_dialect.py"
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


SEG = """
from inference import BufferSegmentation, BufferStructure, MsgParts
from protocol_meta import dialect_meta as meta
s = BufferSegmentation(meta.protocol_parser)
"""

bug("c28-same-head", "C28", [
    (BS, "        for idx, msg_id in self.structure.items():\n",
         "        if self.received_buffers and buffer[:meta.header_len] == self.received_buffers[-1][:meta.header_len]:\n"
         "            return True  # as the one before\n"
         "        for idx, msg_id in sorted(self.structure.items()):\n")],
    "a buffer which begins as the last one kept and is damaged at a later message", "a buffer without the messages is registered",
    SEG + """
b = frame(0, 1) + frame(33, 1)
x = BufferStructure({0: 0, len(frame(0, 1)): 33})
x.register_buffer(b)
c = bytearray(b); c[len(frame(0, 1)) + 5] ^= 2
need(not x.adheres_to_structure(bytes(c)), 'adheres')
""")

bug("c28-order-of-listing", "C28", [
    (BS, "            return self.structure == other.structure\n", "            return str(self) == str(other)\n")],
    "two structures whose messages were listed in another order", "equal structures compare unequal",
    SEG + """
need(BufferStructure({0: 0, 17: 33}) == BufferStructure({17: 33, 0: 0}), 'unequal')
""")

bug("c28-oldest-dropped", "C28", [
    (BS, "            self.received_buffers.append(buffer)\n",
         "            self.received_buffers = self.received_buffers[-99:] + [buffer]\n")],
    "more than a hundred registered buffers", "buffers registered first are no longer kept",
    SEG + """
x = BufferStructure({0: 0})
for i in range(150):
    x.register_buffer(frame(0, i))
need(len(x.received_buffers) == x.reception_count == 150, len(x.received_buffers))
""")

bug("c01-rejected-before", "C01", [
    (BS, "        self.protocol_parser = protocol_parser_handler\n",
         "        self.protocol_parser = protocol_parser_handler\n        self.rejected: set[tuple[int, bytes]] = set()\n"),
    (BS, "            if is_valid_header(buffer[byte_idx:byte_idx + meta.header_len]):\n",
         "            place = (byte_idx, bytes(buffer[byte_idx:byte_idx + meta.protocol_overhead + 6]))\n"
         "            if is_valid_header(buffer[byte_idx:byte_idx + meta.header_len]) and place not in self.rejected:\n"),
    (BS, "                with contextlib.suppress(MAVError):\n",
         "                self.rejected.add(place)\n                with contextlib.suppress(MAVError):\n"),
    (BS, "                    # register structure\n", "                    self.rejected.discard(place)\n                    # register structure\n")],
    "a message received again intact at the same place after its tail was damaged", "the intact message is not reported",
    SEG + """
f = frame(33, *range(7)); g = bytearray(f); g[-4] ^= 1
need(s.segment_buffer(bytes(g))[2] == {}, 'damaged')
need(s.segment_buffer(f)[2] == {0: 33}, 'intact message not reported')
""")

bug("c01-repeat-unlisted", "C01", [
    (BS, "                    buffer_structure[byte_idx] = header.msg_id\n",
         "                    if buffer_structure.get(byte_idx - len(candidate_buffer)) != header.msg_id:\n"
         "                        buffer_structure[byte_idx] = header.msg_id\n")],
    "the same message twice in a row", "the second is not reported at its offset",
    SEG + """
f = frame(0, 1); need(s.segment_buffer(f + f)[2] == {0: 0, len(f): 0}, s.segment_buffer(f + f)[2])
""")

bug("c01-long-buffer", "C01", [
    (BS, "        for byte_idx in range(len(buffer) - meta.protocol_overhead + 1):",
         "        for byte_idx in range(min(len(buffer), 1024) - meta.protocol_overhead + 1):")],
    "a buffer of more than a kilobyte", "messages after the first kilobyte are not reported",
    SEG + """
f = frame(0, 1); b = bytes(1200) + f
need(s.segment_buffer(b)[2] == {1200: 0}, s.segment_buffer(b)[2])
""")

bug("c19-absorbed", "C19", [
    (RS, "        states[i] = np.random.choice(range(num_states), p=probabilities)\n",
         "        if probabilities[current_states[-1]] == 1:  # absorbed\n"
         "            states[i:] = current_states[-1]\n            break\n"
         "        states[i] = np.random.choice(num_states, p=probabilities)\n")],
    "a chain of second order in which a state repeats with certainty once but not twice", "a transition of probability zero occurs",
    """
from utils.random_sources import generate_markov_samples
t = np.zeros((2, 2, 2)); t[0, 1, 1] = 1; t[1, 1, 0] = 1; t[1, 0, 0] = 1; t[0, 0, 1] = 1
x = generate_markov_samples(t, [0, 1], 12)
need(all(t[tuple(x[i:i + 3])] > 0 for i in range(10)), x)
""")

bug("c19-narrow-states", "C19", [
    (RS, "    states = np.zeros(num_samples, dtype=np.int_)\n", "    states = np.zeros(num_samples, dtype=np.int8)\n")],
    "a chain of more than 128 states", "states beyond 127 turn into others",
    """
from utils.random_sources import generate_markov_samples
n = 140
t = np.roll(np.eye(n), 1, axis=1)
try:
    x = generate_markov_samples(t, 0, 2 * n)
except Exception as e:
    need(False, repr(e))
need(np.array_equal(x, np.arange(2 * n) % n), x)
""")

MAV = """
from decoders import MavlinkRectifyingDecoder as M
"""

bug("c24-errors-for-fields", "C24", [
    (MD, "        damaged_fields = np.array(tuple({field[1] for field in damaged}))\n        bad_fields_performance",
         "        damaged_fields = np.array([field[1] for field in damaged])\n        bad_fields_performance")],
    "two wrong bits in one field", "errors are counted in place of damaged fields",
    MAV + """
info = bits(frame(0, 1)); c = Code(len(info)); d = Soft(c); w = c.encode(info)
with quiet():
    r = M(d, len(info), 0.05, 0.01, 1, 2., .5, debug=True)
    r.set_buffer_structures([{0: 0}])
    for _ in range(2):
        d.out = [w]; r.decode_buffer(soft(w), np.array([], dtype=int))
    b = w.copy(); b[[60, 61]] ^= 1
    d.out = [w]; o = r.decode_buffer(soft(b), np.array([60, 61]))
need(o[10]['n_damaged_fields_in_buffer'] == 1, o[10])
""")

bug("c24-forced-after-correction", "C24", [
    (MD, "            forcing_performance = self.forcing_analysis(forced_bits, error_idx, channel_bits, label)\n",
         "            forcing_performance = self.forcing_analysis(forced_bits, error_idx, np.array(estimate, dtype=np.int_), label)\n")],
    "a forced bit which the decoder corrected", "the forced bits are judged against the decoded word",
    MAV + """
info = bits(frame(0, 1)); c = Code(len(info)); d = Soft(c); w = c.encode(info)
with quiet():
    r = M(d, len(info), 0.05, 0.01, 1, 2., .5, debug=True)
    r.set_buffer_structures([{0: 0}])
    for _ in range(4):
        d.out = [w]; r.decode_buffer(soft(w), np.array([], dtype=int))
    b = w.copy(); b[60] ^= 1
    d.out = [w]; o = r.decode_buffer(soft(b), np.array([60]))
q = o[11]['forcing_quality']
need(q[1] > 0 and q[2] == 1 and q[3] == 1, q)
""")

bug("c25-memory-freed", "C25", [
    (HC, "                if self.buf_len() == 0 and self.buf_index != 0:\n",
         "                if self.buf_index != 0 and (self.buf_len() == 0 or self.buf_index > 2048):\n")],
    "a long stream which always ends in the middle of a message", "the bytes read of the message under way are lost",
    """
from mavlink_utils import HC_dialect as D
p = D.MAVLink(None); got = []
p.set_callback(lambda m: got.append(bytes(m.get_msgbuf())))
f = [frame(0, i, seq=i % 256) for i in range(300)]
s = b''.join(f); lost = 0
for x in [s[:3]] + [s[i:i + 17] for i in range(3, len(s), 17)]:
    try:
        p.parse_buffer(x)
    except D.MAVError:
        lost += 1
need(got == f and not lost, (len(got), lost))
""")

bug("c26-same-number", "C26", [
    (BS, "            parsed_msg = meta.protocol_parser(\n                array(\"B\", buffer[k:k + meta.msgs_payload_length[v] + meta.protocol_overhead]))\n",
         "            frame = buffer[k:k + meta.msgs_payload_length[v] + meta.protocol_overhead]\n"
         "            # a repeated message is parsed once\n"
         "            parsed_msg = parsed.setdefault(bytes(frame[:meta.header_len]), meta.protocol_parser(array(\"B\", frame)))\n"),
    (BS, "        buffer_description = []\n", "        buffer_description = []\n        parsed = {}\n")],
    "two messages with the same header and different content", "the value of the earlier one is reported",
    SEG + """
x = s.get_msg_fields(frame(0, 1, seq=4) + frame(0, 2, seq=4))[0]
need(x['HEARTBEAT_custom_mode'][0] == 2, x)
""")

SIG = """
import hashlib
from mavlink_utils import HC_dialect as D
KEY = b'k' * 32
def signed(ts, link=1, sysid=1, comp=1, key=KEY, seq=0, mode=7):
    pl = struct.pack('<IBBBBB', mode, 1, 2, 3, 4, 3)
    body = bytes([len(pl), 1, 0, seq, sysid, comp, 0, 0, 0]) + pl
    f = b'\\xfd' + body + struct.pack('<H', crc16(body, 50)) + bytes([link]) + struct.pack('<Q', ts)[:6]
    return f + hashlib.sha256(key + f).digest()[:6]
def receiver(policy=None, clock=0):
    p = D.MAVLink(None); p.robust_parsing = True
    p.signing.secret_key = KEY; p.signing.timestamp = clock; p.signing.allow_unsigned_callback = policy
    return p
def ok(p, f):
    return [m.get_type() for m in p.parse_buffer(f)] == ['HEARTBEAT']
"""

bug("c27-minute-boundary", "C27", [
    (HC, "                if timestamp + 6000*1000 < self.signing.timestamp:\n", "                if timestamp + 6000*1000 <= self.signing.timestamp:\n")],
    "the first message of a stream, exactly a minute old", "an authentic message is refused",
    SIG + """
p = receiver()
need(ok(p, signed(10**9 + 6000000)) and ok(p, signed(10**9, link=2)), 'refused')
""")

bug("c27-short-signature", "C27", [
    (HC, "            if sig1 != sig2:\n", "            if any(a != b for a, b in zip(sig1, sig2.rstrip(bytes(1)))):\n")],
    "a forged signature which ends in zeros", "a message without a valid signature is delivered as signed",
    SIG + """
p = receiver(); f = signed(10**9)
need(not ok(p, f[:-6] + bytes(6)), 'forged message accepted')
""")

bug("c05-training-counts", "C05", [
    (CE, "            size = self.models_data[cluster_id].shape[1] if self.models_data[cluster_id].size > 0 else 0\n            confidence",
         "            size = 0\n"
         "            if self.models_data[cluster_id].size > 0:  # the training of the classifier counts as well\n"
         "                size = len(self.classifier.clusters[cluster_id]) if self.n_clusters > 1 and self.cluster \\\n"
         "                    else self.models_data[cluster_id].shape[1]\n"
         "            confidence")],
    "a receiver with a classifier, which has learned one buffer of the kind", "one buffer is used as a model",
    """
from decoders import ClassifyingEntropyDecoder as E
a, b = bits(frame(0, 1)), bits(frame(0, 0xffffffff, 255, 255, 255, 255))
c = Code(len(a)); d = Soft(c)
wa, wb = c.encode(a), c.encode(b)
with quiet():
    x = E(d, len(a), 0.3, 10., 7, 2, None, 0, 5.)
    for w in [wa, wb] * 3 + [wa]:
        d.out = [w]; x.decode_buffer(soft(w))
    r = wa.copy(); r[40] ^= 1
    d.out = [wa]; o = x.decode_buffer(soft(r))
need(o[-1] >= 0 and np.array_equal(d.words[-1], soft(r)), 'word changed')
""")

bug("c10-empty-not-saved", "C10", [
    (SM, "        for model in self._field_models.values():\n            model._update()\n",
         "        if not self._field_models:\n            return  # nothing learned yet\n"
         "        for model in self:\n            model._update()\n")],
    "saving a model without fields over another", "the model saved before is loaded",
    """
import tempfile, shutil
from inference import BufferModel
d = tempfile.mkdtemp(); p = os.path.join(d, 'm.json')
try:
    m = BufferModel(); m.add_sample('a', 1, 'uint8_t'); m.save(p)
    BufferModel().save(p)
    n = len(BufferModel.load(p))
finally:
    shutil.rmtree(d)
need(n == 0, n)
""")

bug("c15-single-fit", "C15", [
    (SM, "            self._mean, self._std = norm.fit(self.samples)\n",
         "            self._mean, self._std = norm.fit(np.array(self.samples, dtype=np.float32))\n")],
    "a float field damaged to a huge value twice", "a published probability is not a number",
    """
from inference import FieldModel
m = FieldModel('x', 'float')
for v in (3.2e38, 3.1e38, 1.0):
    m.add_sample(v)
with np.errstate(all='ignore'):
    p = m.classify_value(5.0)
need(np.isfinite(p[0]) and 0 <= p[0] <= 1, p)
""")

bug("c17-settled", "C17", [
    (TD, "            first_decoder_prior = llr2 - channel_word - second_decoder_prior  # update prior, since we don't use an\n",
         "            extrinsic = llr2 - channel_word - second_decoder_prior\n"
         "            if np.array_equal(extrinsic, first_decoder_prior):  # settled, further rounds bring nothing new\n"
         "                err1 = err2 = track_errors(error_idx, np.array(channel_word < 0, dtype=np.uint8), estimate2.astype(np.uint8))\n"
         "                break\n"
         "            first_decoder_prior = extrinsic  # update prior, since we don't use an\n")],
    "a second stage that passes on the same as the round before, and a first stage that has learned in between",
    "the exchange stops before the configured number of rounds without success",
    """
from decoders.turbo import TurboDecoder
class D:
    n = 0
    def __init__(s, ok): s.ok = ok
    def decode_buffer(s, w): s.n += 1; return (w < 0).astype(int), w.copy(), s.n >= s.ok
    decode = decode_buffer
r = TurboDecoder(D(3), D(9), 5).decode_buffer(np.array([1., -2.]), np.array([], dtype=int))
need(r[2] and r[3] == 1, r)
""")

bug("c18-sum-in-place", "C18", [
    (CE, "                    samples = channel_sample + model_llr\n                if", "                    samples += model_llr\n                if")],
    "a weighted bit-flipping receiver whose model is weaker than the channel", "the received word of the caller is overwritten",
    """
from decoders import ClassifyingEntropyDecoder as E
a = bits(frame(0, 1)); c = Code(len(a)); d = Wbf(c); w = c.encode(a)
with quiet():
    x = E(d, len(a), 0.3, 10., 1, 1, None, 0, 5.)
    for _ in range(5):
        r = soft(w, 500.); k = r.copy()
        d.out = [w]; x.decode_buffer(r)
        need(np.array_equal(r, k), 'received word changed')
""")
