"""Planted bugs of scale: counters, histories and sizes larger than usual."""
SM = "inference/statistical_models.py"
CE = "decoders/classifiying_decoder.py"
CL = "inference/clustering.py"
HC = "mavlink_utils/HC_dialect.py"
IT = "utils/information_theory.py"
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c12-narrow-counts", "C12", [
    (CL, "np.array(dist * n_samples, dtype=np.int_)", "np.array(dist * n_samples, dtype=np.uint8)")],
    "more than 255 buffers in one cluster", "the statistics of a cluster are no longer the frequencies of its members",
    """
from inference import BufferClassifier
c = BufferClassifier(3, 2)
b = [np.array([0, 1] * 8), np.array([1, 0] * 8)]
for i in range(640):
    c.classify(b[i % 2])
need(all(np.allclose(x.dist.sum(axis=1), 1) for x in c.clusters), [x.dist[0] for x in c.clusters])
""")

bug("c07-size-capped", "C07", [
    (CE, "            return 0 if model_size <= 1 else 1 / (1 + np.exp(-(model_size - center) * slope, dtype=np.float_))\n\n        llr",
         "            return 0 if model_size <= 1 else 1 / (1 + np.exp(-(min(model_size, 50) - center) * slope, dtype=np.float_))\n\n        llr")],
    "more than fifty learned buffers and a confidence that is not yet saturated", "the confidence no longer follows the number of buffers",
    """
from decoders import ClassifyingEntropyDecoder as E
a = bits(frame(0, 1)); c = Code(len(a)); d = Soft(c); w = c.encode(a)
with quiet():
    x = E(d, len(a), 0.3, 1000., 1, 1, None, 60, 0.1)
    for i in range(90):
        d.out = [w]; x.decode_buffer(soft(w))
g = np.abs(d.words[-1][:len(a)]) - 2.0
need(np.allclose(g, -np.log(np.finfo(float).eps) / (1 + np.exp(-(89 - 60) * .1)), rtol=1e-3), g[:3])
""")

bug("c11-long-history", "C11", [
    (SM, "                model.add_sample(vals[\"samples\"])\n", "                model.add_sample(vals[\"samples\"][-128:])\n")],
    "a model without window that has seen more than 128 buffers", "older values are lost when the model is loaded",
    """
import tempfile
from inference import BufferModel
m = BufferModel()
for i in range(200):
    m.add_sample('a', i, 'uint16_t')
with tempfile.TemporaryDirectory() as t:
    m.save(t + '/m'); n = BufferModel.load(t + '/m')
need(n['a'].mean == m['a'].mean, (n['a'].mean, m['a'].mean))
""")

bug("c03-sent-bytes", "C03", [
    (HC, "                self.total_bytes_sent += len(buf)\n", "                self.total_bytes_sent = (self.total_bytes_sent + len(buf)) & 0xffff\n")],
    "more than 65535 bytes sent", "the byte counter starts again",
    """
from mavlink_utils import HC_dialect as D
class F:
    n = 0
    def write(self, b): self.n += len(b)
f = F(); m = D.MAVLink(f, 1, 1)
for i in range(4200):
    m.heartbeat_send(1, 2, 3, 4, 5)
need(m.total_bytes_sent == f.n, (m.total_bytes_sent, f.n))
""")

bug("c02-received-packets", "C02", [
    (HC, "                self.total_packets_received += 1\n", "                self.total_packets_received = (self.total_packets_received + 1) % 256\n")],
    "more than 255 messages and reports on one link", "the packet counter starts again",
    """
from mavlink_utils import HC_dialect as D
m = D.MAVLink(None); m.robust_parsing = True; n = 0
for i in range(300):
    n += len(m.parse_buffer(frame(0, i, seq=i % 256)))
need(m.total_packets_received == n == 300, (m.total_packets_received, n))
""")
