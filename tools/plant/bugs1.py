SEG = "inference/buffer_segmentation.py"
HC = "mavlink_utils/HC_dialect.py"
STM = "inference/statistical_models.py"
CLU = "inference/clustering.py"
DUD = "inference/dude.py"
EML = "inference/entropy_mle.py"
BMM = "inference/bmm.py"
TUR = "decoders/turbo.py"
LOG = "utils/common_logging.py"
RND = "utils/random_sources.py"
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c01-nested", "C01", [(SEG, "            if msg_parts[byte_idx] != MsgParts.UNKNOWN:\n                continue\n            if is_valid_header",
                           "            if msg_parts[byte_idx] in (MsgParts.HEADER, MsgParts.CHECKSUM):\n                continue\n            if is_valid_header")],
    "a complete message carried inside the payload of another intact message",
    "the message inside the payload is reported as well, so reported messages overlap",
    """
from inference import BufferSegmentation
from protocol_meta import dialect_meta as meta
inner = frame(0, 7, 1, 2, 3, 4, 3)                                   # heartbeat, 17 bytes
c = next(m for m, x in sorted(meta.msgs_payload_length.items()) if x >= 24 and all(t != 'char' for t in cls_of(m).fieldtypes)
         and sum(cls_of(m).lengths) == len(cls_of(m).lengths))
n = meta.msgs_payload_length[c]
buf = frame(c, payload=bytes(2) + inner + bytes(n - 2 - len(inner))) + frame(0, 1, seq=1)
parts, val, st = BufferSegmentation(meta.protocol_parser).segment_buffer(buf)
need(st == {0: c, n + 8: 0}, st)
""")

bug("c01-verified-cache", "C01", [
    (SEG, "        self.protocol_parser = protocol_parser_handler\n",
     "        self.protocol_parser = protocol_parser_handler\n        self._verified: set[tuple[bytes, bytes]] = set()  # frames seen before\n"),
    (SEG, "                    self.protocol_parser(candidate_buffer)  # simply see if exception is raised or not\n",
     "                    signature = (bytes(candidate_buffer[:meta.header_len]), bytes(candidate_buffer[header.length:]))\n"
     "                    if signature not in self._verified:\n"
     "                        self.protocol_parser(candidate_buffer)  # simply see if exception is raised or not\n"
     "                        self._verified.add(signature)\n")],
    "the same message received intact first and later with damage confined to the beginning of its payload",
    "a damaged message is reported as intact because a similar one was accepted before",
    """
from inference import BufferSegmentation, MsgParts
from protocol_meta import dialect_meta as meta
c = 33
f = frame(c, 1, 2, 3, 4, 5, 6, 7)
s = BufferSegmentation(meta.protocol_parser)
assert s.segment_buffer(f)[2] == {0: c}
g = bytearray(f)
g[7] ^= 4
need(s.segment_buffer(bytes(g))[2] == {}, 'damaged message accepted')
""")

bug("c01-bad-tail", "C01", [(SEG, "        if length > 0:  # last part was bad\n            bad_buffer_parts.append(",
                             "        if length > 1:  # last part was bad\n            bad_buffer_parts.append(")],
    "exactly one damaged or padding byte at the end of a buffer with intact messages before it",
    "the bad regions of the buffer no longer cover the last byte",
    """
from inference import BufferSegmentation
from protocol_meta import dialect_meta as meta
s = BufferSegmentation(meta.protocol_parser)
f = frame(0, 1) + b'\\x00'
p, v, st = s.segment_buffer(f)
need(s.bad_buffer_idx(f, p) == [(len(f) - 1, len(f))], s.bad_buffer_idx(f, p))
""")

bug("c02-one-byte-tail", "C02", [(HC, "                if self.buf_len() == 0 and self.buf_index != 0:",
                                  "                if self.buf_len() <= 1 and self.buf_index != 0:")],
    "a read that ends one byte into the next frame, with earlier messages still held in the buffer",
    "the first byte of a frame is dropped, so what is delivered depends on how the stream is cut",
    """
from mavlink_utils import HC_dialect
a, b = frame(0, 1), frame(33, 5, seq=1)
m = HC_dialect.MAVLink(None); m.robust_parsing = True
r = [x.get_type() for chunk in (a + b[:1], b[1:]) for x in (m.parse_buffer(chunk) or [])]
need(r == ['HEARTBEAT', 'GLOBAL_POSITION_INT'], r)
""")

bug("c02-resync-duplicates", "C02", [
    (HC, "                    except MAVError as reason:\n                        m = MAVLink_bad_data(mbuf, reason.message)\n",
     "                    except MAVError as error:\n"
     "                        if PROTOCOL_MARKER_V1 in mbuf[1:]:  # resume at the next possible start of frame\n"
     "                            self.buf_index -= len(mbuf) - 1 - mbuf[1:].index(PROTOCOL_MARKER_V1)\n"
     "                        m = MAVLink_bad_data(mbuf, error.message)\n")],
    "a frame that fails its checksum and holds another start marker",
    "bytes after the marker are reported as bad data and parsed again: the reports no longer add up to the stream",
    """
from mavlink_utils import HC_dialect
f = bytearray(frame(33, 1, 2, 3)); f[12] = 0xfe
s = bytes(f) + frame(0, 1) * 3
m = HC_dialect.MAVLink(None); m.robust_parsing = True
out = b''.join(bytes(x.data) if x.get_type() == 'BAD_DATA' else bytes(x.get_msgbuf()) for x in m.parse_buffer(s))
need(out + bytes(m.buf[m.buf_index:]) == s, (len(out), len(s)))
""")

bug("c02-error-count", "C02", [
    (HC, "                    m = MAVLink_bad_data(bytearray([magic]), 'Bad prefix')\n                    self.expected_length = header_len+2\n                    self.total_receive_errors += 1\n",
     "                    m = MAVLink_bad_data(bytearray([magic]), 'Bad prefix')\n                    self.expected_length = header_len+2\n                    if not self.have_prefix_error:\n                        self.total_receive_errors += 1\n                    self.have_prefix_error = True\n")],
    "a run of at least two stray bytes between frames",
    "the error counter falls behind the number of bad data reports",
    """
from mavlink_utils import HC_dialect
m = HC_dialect.MAVLink(None); m.robust_parsing = True
r = m.parse_buffer(b'\\x01\\x02\\x03' + frame(0, 1))
bad = sum(x.get_type() == 'BAD_DATA' for x in r)
need(m.total_receive_errors == bad == 3, (m.total_receive_errors, bad))
""")

bug("c02-long-frame", "C02", [
    (HC, "                self.expected_length += header_len + 2\n            if self.expected_length >= (header_len+2) and",
     "                self.expected_length = min(self.expected_length + header_len + 2, 255)\n            if self.expected_length >= (header_len+2) and")],
    "a (damaged) header announcing a payload of 248 bytes or more",
    "frames with long payloads are cut short, and the rest is misread",
    """
from mavlink_utils import HC_dialect
from protocol_meta import dialect_meta as meta
f = bytes([254, 250, 1, 2, 3, 0]) + bytes(250) + b'ab'
m = HC_dialect.MAVLink(None); m.robust_parsing = True
r = m.parse_buffer(f)
need([len(x.data) for x in r] == [258], [len(x.data) for x in r])
""")

bug("c03-seq-first", "C03", [(HC, "                self.file.write(buf)\n                self.seq = (self.seq + 1) % 256\n                self.total_packets_sent += 1\n",
                              "                self.seq = (self.seq + 1) % 256\n                self.file.write(buf)\n                self.total_packets_sent += 1\n")],
    "a write the transport refuses, followed by a retry",
    "the refused message consumes a sequence number, so the link shows a gap",
    """
from mavlink_utils import HC_dialect
class T:
    n = 0; got = []
    def write(self, b):
        self.n += 1
        if self.n == 2:
            raise OSError('link down')
        self.got.append(bytes(b))
t = T(); m = HC_dialect.MAVLink(t, 1, 1)
for i in range(4):
    try:
        m.heartbeat_send(1, 2, 3, 4, 5)
    except OSError:
        pass
need([b[2] for b in t.got] == [0, 1, 2], [b[2] for b in t.got])
""")

bug("c03-repeat-object", "C03", [(HC, "                buf = mavmsg.pack(self, force_mavlink1=force_mavlink1)\n",
                                  "                buf = mavmsg._msgbuf or mavmsg.pack(self, force_mavlink1=force_mavlink1)\n")],
    "the same message object sent twice",
    "the second frame repeats the first one's sequence number",
    """
from mavlink_utils import HC_dialect
class T:
    got = []
    def write(self, b):
        self.got.append(bytes(b))
t = T(); m = HC_dialect.MAVLink(t, 1, 1)
x = HC_dialect.MAVLink_heartbeat_message(1, 2, 3, 4, 5, 3)
m.send(x); m.send(x)
need([b[2] for b in t.got] == [0, 1], [b[2] for b in t.got])
""")

bug("c03-wrap", "C03", [(HC, "                self.seq = (self.seq + 1) % 256\n                self.total_packets_sent += 1\n                self.total_bytes_sent += len(buf)\n                if self.send_callback:",
                         "                self.seq = (self.seq + 1) % 255\n                self.total_packets_sent += 1\n                self.total_bytes_sent += len(buf)\n                if self.send_callback:")],
    "a sender that has sent 255 messages", "the sequence number wraps one early",
    """
from mavlink_utils import HC_dialect
class T:
    got = []
    def write(self, b):
        self.got.append(bytes(b))
t = T(); m = HC_dialect.MAVLink(t, 1, 1)
for i in range(260):
    m.heartbeat_send(1, 2, 3, 4, 5)
need([b[2] for b in t.got] == [i % 256 for i in range(260)], 'wrap')
""")

bug("c03-callback-on-failure", "C03", [
    (HC, "                self.total_packets_sent += 1\n                self.total_bytes_sent += len(buf)\n                if self.send_callback:\n                    self.send_callback(mavmsg, *self.send_callback_args, **self.send_callback_kwargs)\n",
     "                self.total_packets_sent += 1\n                self.total_bytes_sent += len(buf)\n"),
    (HC, "                buf = mavmsg.pack(self, force_mavlink1=force_mavlink1)\n",
     "                buf = mavmsg.pack(self, force_mavlink1=force_mavlink1)\n                if self.send_callback:\n                    self.send_callback(mavmsg, *self.send_callback_args, **self.send_callback_kwargs)\n"),
], "a write the transport refuses", "the notification callback fires for a message that was never sent",
    """
from mavlink_utils import HC_dialect
class T:
    def write(self, b):
        raise OSError('down')
m = HC_dialect.MAVLink(T(), 1, 1); seen = []
m.set_send_callback(lambda msg: seen.append(msg))
try:
    m.heartbeat_send(1, 2, 3, 4, 5)
except OSError:
    pass
need(not seen, seen)
""")

bug("c10-remove-first", "C10", [
    (STM, "        for model in self._field_models.values():\n            model._update()\n",
     "        if os.path.exists(filename):\n            os.remove(filename)  # never leave an outdated model behind\n        for model in list(self._field_models.values()):\n            model._update()\n")],
    "a crash or full disk while a model is saved over an existing file",
    "the earlier model is gone before the new one is complete",
    """
import tempfile, builtins
from inference import BufferModel
d = tempfile.mkdtemp(); p = os.path.join(d, 'm.json')
m = BufferModel(); m.add_sample('a', 1, 'uint8_t'); m.save(p)
m.add_sample('a', 2, 'uint8_t')
real = builtins.open
def full(f, mode='r', *a, **k):
    if 'w' in mode:
        raise OSError(28, 'No space left on device')
    return real(f, mode, *a, **k)
builtins.open = full
try:
    m.save(p)
except OSError:
    pass
finally:
    builtins.open = real
ok = os.path.exists(p) and BufferModel.load(p)['a'].samples == [1]
import shutil; shutil.rmtree(d)
need(ok, 'earlier model lost')
""")

bug("c10-in-place", "C10", [
    (STM, """        # write a new file and move it into place, so that a failed or interrupted save never damages the saved model
        tmp_filename = f"{filename}.tmp"
        with open(tmp_filename, 'w') as f:
            json.dump({"field_models": self._field_models, "buffer_description": self._buffer_description,
                       "window_size": self.window_size, "model_size": self.model_size}, f,
                      default=lambda o: o.hex() if isinstance(o, bytes) else o.__dict__, indent=4, sort_keys=True)
            f.flush()
            os.fsync(f.fileno())
        os.replace(tmp_filename, filename)
""", """        with open(filename, 'w') as f:
            f.write(json.dumps({"field_models": self._field_models, "buffer_description": self._buffer_description,
                                "window_size": self.window_size, "model_size": self.model_size},
                               default=lambda o: o.hex() if isinstance(o, bytes) else o.__dict__, indent=4, sort_keys=True))
""")], "a crash, power loss, full disk or concurrent reader during a save",
    "the saved model is truncated before the new one is written",
    """
import tempfile, shutil
from inference import BufferModel
d = tempfile.mkdtemp(); p = os.path.join(d, 'm.json')
m = BufferModel(); m.add_sample('a', 1, 'uint8_t'); m.save(p)
m.add_sample('b', 1, 'uint8_t')
pid = os.fork()
if pid == 0:
    import io
    r = io.TextIOWrapper.write
    import builtins
    real = builtins.open
    class F:
        def __init__(self, f): self.f = f
        def write(self, s):
            self.f.write(s[:len(s) // 2]); self.f.flush(); os._exit(9)
        def __enter__(self): return self
        def __exit__(self, *a): return False
        def __getattr__(self, n): return getattr(self.f, n)
    builtins.open = lambda f, mode='r', *a, **k: F(real(f, mode, *a, **k)) if 'w' in mode else real(f, mode, *a, **k)
    m.save(p); os._exit(0)
os.waitpid(pid, 0)
try:
    BufferModel.load(p); ok = True
except Exception as e:
    ok = False
shutil.rmtree(d)
need(ok, 'no complete model after a crash')
""")

bug("c11-window", "C11", [(STM, '                model = FieldModel(field_name, vals["field_type"], window_size=vals["window_size"])\n',
                           '                model = FieldModel(field_name, vals["field_type"], window_size=window_size)\n')],
    "a model with field models whose window differs from the window of the buffer model",
    "after a restart such a field keeps a different number of samples",
    """
import tempfile, shutil
from inference import BufferModel, FieldModel
d = tempfile.mkdtemp(); p = os.path.join(d, 'm.json')
m = BufferModel(window_size=5)
m['a'] = FieldModel('a', 'uint8_t', 3)
for i in range(6):
    m.add_sample('a', i)
m.save(p); r = BufferModel.load(p)
for x in (m, r):
    x.add_sample('a', 9)
shutil.rmtree(d)
need(m['a'].samples == r['a'].samples, (m['a'].samples, r['a'].samples))
""")

bug("c11-model-size", "C11", [(STM, "            obj.model_size = model_size\n",
                               '            obj.model_size = max((len(v["samples"]) for v in models.values()), default=0)\n')],
    "a buffer holding several messages, whose header fields are recorded several times per buffer",
    "a restarted model counts more buffers than it has seen, so confidence jumps",
    """
import tempfile, shutil
from inference import BufferModel
d = tempfile.mkdtemp(); p = os.path.join(d, 'm.json')
b = frame(0, 1) + frame(33, 2)
m = BufferModel()
m.add_buffer(b, {0: 0, 17: 33})
m.save(p); r = BufferModel.load(p); shutil.rmtree(d)
need(m.model_size == r.model_size, (m.model_size, r.model_size))
""")

bug("c11-description", "C11", [(STM, "                    if isinstance(val, str) and val != 'crc':\n",
                                "                    if isinstance(val, str) and i == 0:\n")],
    "a saved model whose buffer description holds more than one message",
    "the headers of all but the first message come back as text",
    """
import tempfile, shutil
from inference import BufferModel
d = tempfile.mkdtemp(); p = os.path.join(d, 'm.json')
m = BufferModel(); m.add_sample('a', 1, 'uint8_t')
m.set_buffer_description([b'\\xfe\\x01', ('a', 'uint8_t'), 'crc', b'\\xfe\\x02', ('a', 'uint8_t'), 'crc'])
m.save(p); r = BufferModel.load(p); shutil.rmtree(d)
want = [x for x in m.get_buffer_description() if isinstance(x, bytes)]
need([x for x in r.get_buffer_description() if isinstance(x, bytes)] == want, r.get_buffer_description())
""")

bug("c11-drops-window", "C11", [(STM, "            obj.window_size = window_size\n            obj.model_size = model_size\n",
                                 "            obj.window_size = window_size or None\n            obj.model_size = model_size\n"),
                                (STM, "            obj = cls()\n", "            obj = cls(window_size=model_size)\n"),
                                (STM, "            self._field_models[field_name] = FieldModel(field_name, field_type, self.window_size)\n",
                                 "            self._field_models[field_name] = FieldModel(field_name, field_type, self._new_window)\n"),
                                (STM, "        self.window_size = window_size\n        self.model_size = 0\n",
                                 "        self.window_size = window_size\n        self._new_window = window_size  # window of fields seen for the first time\n        self.model_size = 0\n")],
    "a field seen for the first time after the model was loaded",
    "fields first seen after a restart use another window than the original model would have given them",
    """
import tempfile, shutil
from inference import BufferModel
d = tempfile.mkdtemp(); p = os.path.join(d, 'm.json')
m = BufferModel(window_size=4); m.add_sample('a', 1, 'uint8_t'); m.save(p); r = BufferModel.load(p)
for x in (m, r):
    for i in range(8):
        x.add_sample('b', i, 'uint8_t')
shutil.rmtree(d)
need(m['b'].samples == r['b'].samples, (m['b'].samples, r['b'].samples))
""")

bug("c12-merge-average", "C12", [(CLU, "        self._data += cluster._data\n        self.n_samples += cluster.n_samples\n",
                                  "        total = self.n_samples + cluster.n_samples\n        self._data = np.array((self.dist + cluster.dist) / 2 * total, dtype=np.int_)\n        self.n_samples = total\n")],
    "training in which clusters of different size are merged",
    "cluster statistics are no longer the frequencies of the members",
    """
from inference import BufferClassifier
c = BufferClassifier(6, 1)
vs = [np.array([0] * 8)] * 4 + [np.array([1] * 7 + [0])] + [np.array([0] * 8)]
for v in vs:
    c.classify(v)
tot = sum(k.dist * k.n_samples for k in c.clusters)
need(np.allclose(tot[:, 1], sum(vs)), (tot[:, 1], sum(vs)))
""")

bug("c12-uid", "C12", [(CLU, "            c: Cluster = self.clusters.pop(pair[1])\n            self.clusters[pair[0]].merge_cluster(c)\n        for idx, c, in enumerate(self.clusters):\n            c.uid = idx\n",
                        "            c: Cluster = self.clusters.pop(pair[1])\n            self.clusters[pair[0]].merge_cluster(c)\n            for idx, c, in enumerate(self.clusters[pair[1]:], pair[1]):\n                c.uid = idx - 1 if idx > len(self.clusters) else idx\n")],
    "placeholder", "placeholder", "need(False, 'x')")
BUGS.pop()

bug("c12-training-edge", "C12", [(CLU, "        if not self.init:\n            self.merge_clusters()\n            self.init = True\n",
                                  "        if self.init is False:\n            sample = np.array(buffer, dtype=np.int_)[np.newaxis].T\n            self.__add_cluster(prob(sample, alphabet=[0, 1]))\n            self.merge_clusters()\n            self.init = True\n")],
    "the buffer that completes the training", "that buffer is counted twice: once while merging and once when it is classified",
    """
from inference import BufferClassifier
c = BufferClassifier(3, 2)
for v in ([0] * 8, [1] * 8, [0] * 8, [1] * 8):
    c.classify(np.array(v))
need(sum(k.n_samples for k in c.clusters) == 4, sum(k.n_samples for k in c.clusters))
""")

bug("c12-merge-order", "C12", [(CLU, "            c: Cluster = self.clusters.pop(pair[1])\n            self.clusters[pair[0]].merge_cluster(c)\n",
                                "            big, small = sorted((self.clusters[pair[0]], self.clusters[pair[1]]), key=len)\n            big.merge_cluster(small)\n            self.clusters.remove(big if len(self.clusters) == self.k + 1 and len(big) > 8 else small)\n")],
    "a final merge that makes a cluster of more than eight buffers",
    "the merged cluster is thrown away instead of the one merged into it: its samples are lost",
    """
from inference import BufferClassifier
c = BufferClassifier(13, 2)
for i in range(13):
    c.classify(np.array(([0] * 8) if i % 4 else ([1] * 8)))
need(sum(k.n_samples for k in c.clusters) == 13, [k.n_samples for k in c.clusters])
""")

bug("c12-hamming-tie", "C12", [(CLU, "                if (metric is None) or (d < metric):\n", "                if (metric is None) or (d < metric) or (d - metric <= 1 and len(cluster) > 4 * len(closest)):\n")],
    "the distance variant, with one cluster more than four times the size of another and a buffer one bit nearer to the small one",
    "the buffer goes to the large cluster although the small one is nearer",
    """
from inference import BufferClassifier
c = BufferClassifier(9, 2, classify_dist='hamming')
A, B = [1] * 9, [0] * 9
for v in [A] + [B] * 8:
    c.classify(np.array(v))
x = np.array([1] * 5 + [0] * 4)
d = [int(np.sum(x != k.hard_bits)) for k in c.clusters]
l = c.classify(x)
need(d[l] == min(d), (d, l))
""")

bug("c13-reset-contexts", "C13", [(DUD, '        """Resets the context"""\n        self._last_context = ()\n        self.contexts = {}\n',
                                   '        """Resets the context"""\n        self._last_context = ()\n        for counts in self.contexts.values():\n            counts[counts == counts.min()] = 0\n')],
    "a reset after a context was seen with both symbols unequally often", "counts from before the reset influence later estimates",
    """
from inference import OnlineDude
t = np.array([[.9, .1], [.1, .9]]); l = np.array([[0, 1], [1, 0]])
a, b = OnlineDude(t, l, 1, False), OnlineDude(t, l, 1, False)
a.denoise_sequence(np.array([0, 0, 0, 0, 1, 0])); a.reset()
s = np.array([0, 1, 0, 1, 1])
need(np.array_equal(a.denoise_sequence(s)[0], b.denoise_sequence(s)[0]), 'reset')
""")

bug("c13-chunk", "C13", [(DUD, "        costs = np.zeros_like(observations, dtype=np.float_)\n        for i in range(len(observations)):\n",
                          "        costs = np.zeros(len(observations), dtype=np.float_)\n        if len(observations) > self.k:\n            self._last_context = ()\n        for i in range(len(observations)):\n")],
    "a stream denoised in several calls, a later one longer than the context",
    "context is dropped between calls, so estimates depend on how the stream is cut",
    """
from inference import OnlineDude
t = np.array([[.9, .1], [.1, .9]]); l = np.array([[0, 1], [1, 0]])
a, b = OnlineDude(t, l, 2, False), OnlineDude(t, l, 2, False)
s = np.array([0, 1, 0, 1, 1, 0, 1, 0, 0, 1, 1])
x = a.denoise_sequence(s)[0]
y = np.concatenate([b.denoise_sequence(s[:5])[0], b.denoise_sequence(s[5:])[0]])
need(np.array_equal(x, y), 'cut')
""")

bug("c13-emle-reset", "C13", [(EML, '        """resets the denoiser"""\n        self.model_size = 0\n', '        """resets the denoiser"""\n        self.model_size = min(self.model_size, 1)\n')],
    "a denoiser reset after use, with at least two buffers afterwards",
    "the confidence after a reset counts one buffer from before it",
    """
from inference import EMLE
a, b = EMLE(0.1, 1.1, 0, 3, 1.0), EMLE(0.1, 1.1, 0, 3, 1.0)
w = soft([0, 1, 0, 1])
for i in range(4): a.denoise_buffer(w)
a.reset()
for i in range(3):
    x, y = a.denoise_buffer(w)[0], b.denoise_buffer(w)[0]
need(np.array_equal(x, y), (x, y))
""")

bug("c13-emle-window", "C13", [(EML, "        if self.model_size < self.window_length or self.window_length == 0:\n            self.model_size += 1\n",
                                "        if self.model_size <= self.window_length or self.window_length == 0:\n            self.model_size += 1\n")],
    "more buffers than the window holds", "the model counts one buffer more than it holds, so its weight is too high",
    """
from inference import EMLE
a = EMLE(0.1, 1.1, 3, 3, 1.0)
w = soft([0, 1, 0, 1])
for i in range(6): x = a.denoise_buffer(w)[0]
c = 1 / (1 + np.exp(-(3 - 3) * 1.0)); eps = np.finfo(float).eps
need(np.allclose(x, w + c * np.log((1 + eps) / eps) * np.sign(w)), x)
""")

bug("c13-smooth", "C13", [(DUD, "        tmp = np.matmul(empirical_p, self.inverse_channel_transition_matrix)\n        if tmp[0, 0] < 1:\n            tmp[0, 0] = 1\n            tmp[0, 1] = np.sum(tmp) - 1\n        elif tmp[0, 1] < 1:\n            tmp[0, 1] = 1\n            tmp[0, 0] = np.sum(tmp) - 1\n        tmp *= self.channel_transition_matrix[:, observation]\n        return tmp / np.sum(tmp)\n\n    def initial_context",
                           "        tmp = np.matmul(empirical_p, self.inverse_channel_transition_matrix)\n        if tmp[0, 0] < 0:\n            tmp[0, 0] = 1\n            tmp[0, 1] = np.sum(tmp) - 1\n        elif tmp[0, 1] < 0:\n            tmp[0, 1] = 1\n            tmp[0, 0] = np.sum(tmp) - 1\n        tmp *= self.channel_transition_matrix[:, observation]\n        return tmp / np.sum(tmp)\n\n    def initial_context")],
    "a context whose deconvolved count of one symbol lies between zero and one", "the belief of the rarer symbol is too small",
    """
from inference import OnlineDude
t = np.array([[.9, .1], [.1, .9]]); l = np.array([[0, 1], [1, 0]])
a = OnlineDude(t, l, 1, False)
x = a.denoise_sequence(np.array([0] * 7 + [1, 0]))[0][7]
# context (0,): six zeros and a one; deconvolved counts 6.625 and 0.375 -> 1
q = np.array([[6., 1.]]) @ np.linalg.inv(t)
assert 0 < q[0, 1] < 1
q = np.array([q.sum() - q[0, 1] + 1 - 1, 1.]); 
p = np.array([q[0], 1.]) * t[:, 1]; p /= p.sum()
need(abs(x[1] - p[1]) < 1e-9, (x, p))
""")

C14_DEMO = """
from inference import BMM
from unittest import mock
class M(BMM):
    def get_log_likelihood(self, lb):
        v = BMM.get_log_likelihood(self, lb)
        self.__dict__.setdefault('trace', []).append(v)
        return v
worst = 0
R = np.random.mtrand.RandomState
for s in range(60):
    r = R(100 + s)
    x = (r.uniform(size=(r.randint(3, 30), r.randint(2, 12))) < r.uniform(size=1)).astype(int)
    with mock.patch('numpy.random.RandomState', lambda *a, _r=R(s): _r):
        m = M(3, 40)
        with quiet(), np.errstate(all='ignore'):
            m.fit(x)
    t = np.array(m.trace)
    worst = max(worst, float(np.max(t[:-1] - t[1:])))
need(worst < 1e-9, worst)
"""
bug("c14-laplace", "C14", [(BMM, "        self.mu = np.einsum('ik,id -> kd', self.gamma, self.x) / self.Neff[:, None]\n",
                            "        self.mu = (np.einsum('ik,id -> kd', self.gamma, self.x) + 0.01) / (self.Neff[:, None] + 0.02)\n")],
    "enough iterations for the fit to settle", "likelihood drops in later iterations, because the bit probabilities are pulled towards one half", C14_DEMO)

bug("c14-overrelaxed", "C14", [(BMM, "        self.mu = np.einsum('ik,id -> kd', self.gamma, self.x) / self.Neff[:, None]\n",
                                "        mu = np.einsum('ik,id -> kd', self.gamma, self.x) / self.Neff[:, None]\n        self.mu = np.clip(self.mu + 1.2 * (mu - self.mu), 0, 1)  # a longer step converges faster\n")],
    "data on which the longer step overshoots", "likelihood may drop from one iteration to the next", C14_DEMO)

bug("c14-predict-unweighted", "C14", [(BMM, "        gamma = self.get_responsibilities(log_bernoullis)\n        return np.argmax(gamma, axis=1)\n",
                                       "        return np.argmax(log_bernoullis, axis=1)\n")],
    "components with unequal weights and a sample that is ambiguous between them",
    "the label ignores the component weights",
    """
from inference import BMM
m = BMM(2, 1)
m.pi = np.array([.9, .1]); m.mu = np.array([[.5, .5], [.6, .5]])
need(m.predict(np.array([[1, 0]]))[0] == 0, m.predict(np.array([[1, 0]])))
""")

bug("c17-prior-kept", "C17", [(TUR, "            first_decoder_prior = llr2 - channel_word - second_decoder_prior  # update prior",
                               "            first_decoder_prior = llr2 - channel_word  # update prior")],
    "at least two rounds, the first of which fails in both stages",
    "the first stage gets its own information back",
    """
from decoders.turbo import TurboDecoder
class D:
    def __init__(s, f): s.f, s.w = f, []
    def decode_buffer(s, w): s.w.append(w.copy()); return s.f(w)
    decode = decode_buffer
a = D(lambda w: ((w < 0).astype(int), w * 1.5, False)); b = D(lambda w: ((w < 0).astype(int), w * 1.25, False))
c = np.array([1., -2.])
TurboDecoder(a, b, 2).decode_buffer(c, np.array([], dtype=int))
need(np.allclose(a.w[1], c + b.w[0] * .25), (a.w[1], c + b.w[0] * .25))
""")

bug("c17-final-stage", "C17", [(TUR, "        # if we got here, both decoders failed\n        if self.debug:\n",
                                "        # if we got here, both decoders failed\n        if np.sum(np.abs(llr1)) > np.sum(np.abs(llr2)):\n            estimate2 = estimate1  # the more confident one\n        if self.debug:\n")],
    "placeholder", "x", "need(False,'')")
BUGS.pop()
bug("c17-final-stage", "C17", [(TUR, "        # if we got here, both decoders failed\n        if self.debug:\n            return estimate2, llr2, decode_success2, 2, err2\n        else:\n            return estimate2, llr2, decode_success2, 2, 0\n",
                                "        # if we got here, both decoders failed, return the more confident one\n        estimate = estimate1 if np.sum(np.abs(llr1)) > np.sum(np.abs(llr2)) else estimate2\n        if self.debug:\n            return estimate, llr2, decode_success2, 2, err2\n        else:\n            return estimate, llr2, decode_success2, 2, 0\n")],
    "all rounds failing, with stronger soft values from the first stage than from the second",
    "bits of the first stage are returned with the soft values of the second",
    """
from decoders.turbo import TurboDecoder
class D:
    def __init__(s, f): s.f = f
    def decode_buffer(s, w): return s.f(w)
    decode = decode_buffer
a = D(lambda w: (np.array([1, 1]), np.array([-9., -9.]), False)); b = D(lambda w: (np.array([0, 1]), np.array([1., -1.]), False))
e, l = TurboDecoder(a, b, 2).decode_buffer(np.array([1., -2.]), np.array([], dtype=int))[:2]
need(np.array_equal(e, (l < 0).astype(int)), (e, l))
""")

bug("c17-early", "C17", [(TUR, "            estimate2, llr2, decode_success2 = second_decoder_output[:3]\n            if decode_success2:  # early exit\n                return estimate2, llr2, decode_success2, 2, 0\n            first_decoder_prior",
                          "            estimate2, llr2, decode_success2 = second_decoder_output[:3]\n            if decode_success2 or np.array_equal(estimate1, estimate2):  # early exit, both agree\n                return estimate2, llr2, decode_success2, 2, 0\n            first_decoder_prior")],
    "both stages returning the same failing bits in an early round",
    "the exchange gives up before the configured number of rounds although no stage succeeded",
    """
from decoders.turbo import TurboDecoder
class D:
    n = 0
    def __init__(s, ok): s.ok = ok
    def decode_buffer(s, w): s.n += 1; return (w < 0).astype(int), w * 1.5, s.n >= s.ok
    decode = decode_buffer
r = TurboDecoder(D(3), D(9), 5).decode_buffer(np.array([1., -2.]), np.array([], dtype=int))
need(r[2] and r[3] == 1, r)
""")

bug("c19-row-cache", "C19", [(RND, "        probabilities = transition_matrix[tuple(current_states)]\n",
                              "        probabilities = rows.setdefault(current_states.sum(), transition_matrix[tuple(current_states)])\n"),
                             (RND, "    states[:order] = initial_state\n", "    states[:order] = initial_state\n    rows = {}  # rows of the transition matrix used so far\n")],
    "a chain of order two or more visiting two histories with the same sum",
    "a sample follows another history's transition row",
    """
from utils.random_sources import generate_markov_samples
t = np.zeros((2, 2, 2)); t[0, 0, 1] = 1; t[0, 1, 0] = 1; t[1, 0, 1] = 1; t[1, 1, 0] = 1
t[1, 0] = [0, 1]; t[0, 1] = [1, 0]
np.random.seed(0)
s = generate_markov_samples(t, [0, 1], 40)
need(all(t[s[i - 2], s[i - 1], s[i]] > 0 for i in range(2, 40)), s)
""")

bug("c19-block", "C19", [(RND, "    for i in range(order, num_samples):\n",
                          "    for i in range(max(order, 1), num_samples):\n"),
                         (RND, "        states[i] = np.random.choice(range(num_states), p=probabilities)\n",
                          "        states[i] = np.random.choice(range(num_states), p=np.round(probabilities, 2) if probabilities.max() > .9 else probabilities)\n")],
    "a transition with a probability that is not a multiple of one percent, out of a state that mostly goes one way",
    "transitions of small probability are distorted, or rejected because a row no longer sums to one",
    """
from utils.random_sources import generate_markov_samples
t = np.array([[.996, .004], [.5, .5]])
np.random.seed(3)
s = generate_markov_samples(t, 0, 20000)
n = np.sum((s[:-1] == 0)); k = np.sum((s[:-1] == 0) & (s[1:] == 1))
need(30 < k < 150, k)
""")

bug("c20-truncate", "C20", [(LOG, "    f_handler = logging.FileHandler(log_file)\n", "    f_handler = logging.FileHandler(log_file, mode='w' if not logger.hasHandlers() else 'a')\n")],
    "a second set-up of a logger with the log file of an earlier one",
    "records already written are wiped out",
    """
import tempfile, shutil
from utils.common_logging import setup_logger
d = tempfile.mkdtemp(); p = os.path.join(d, 'a.log')
with quiet():
    setup_logger('a', p).info('one'); setup_logger('a', p).info('two')
s = open(p).read(); shutil.rmtree(d)
need('one' in s and 'two' in s, s)
""")

bug("c20-buffered", "C20", [(LOG, "    logger.addHandler(f_handler)\n",
                             "    from logging.handlers import MemoryHandler\n    logger.addHandler(MemoryHandler(64, flushLevel=logging.ERROR, target=f_handler))\n")],
    "a process that crashes before 64 records or an error was logged",
    "records logged before the crash are missing from the file",
    """
import tempfile, shutil
from utils.common_logging import setup_logger
d = tempfile.mkdtemp(); p = os.path.join(d, 'a.log')
pid = os.fork()
if pid == 0:
    with quiet():
        setup_logger('a', p).info('one')
    os._exit(9)
os.waitpid(pid, 0)
s = open(p).read() if os.path.exists(p) else ''; shutil.rmtree(d)
need('one' in s, s)
""")

bug("c20-family", "C20", [(LOG, "    logger = logging.getLogger(name)\n", "    logger = logging.getLogger(name.split('_')[0])\n")],
    "two loggers whose names share the part before an underscore",
    "records of one logger land in the other's file",
    """
import tempfile, shutil
from utils.common_logging import setup_logger
d = tempfile.mkdtemp()
with quiet():
    a = setup_logger('run_a', d + '/a'); b = setup_logger('run_b', d + '/b'); a.info('one'); b.info('two')
s = open(d + '/a').read(), open(d + '/b').read(); shutil.rmtree(d)
need('one' in s[0] and 'two' not in s[0] and 'one' not in s[1], s)
""")

bug("c20-level", "C20", [(LOG, "    c_handler = logging.StreamHandler(sys.stdout)\n", "    c_handler = logging.StreamHandler(stream=sys.stdout)\n    c_handler.setLevel(max(level, logging.INFO))\n")],
    "a logger set up with a level below INFO", "debug records are missing on the console",
    """
import tempfile, shutil, logging
from utils.common_logging import setup_logger
d = tempfile.mkdtemp(); o = io.StringIO()
with contextlib.redirect_stdout(o):
    setup_logger('x', d + '/a', logging.DEBUG).debug('one')
shutil.rmtree(d)
need('one' in o.getvalue(), o.getvalue())
""")
