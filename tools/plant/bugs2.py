ENT = "decoders/entropy_bitwise_decoder.py"
CLS = "decoders/classifiying_decoder.py"
DDE = "decoders/classifying_DUDE_decoder.py"
CMB = "decoders/combined_decoder.py"
UNI = "decoders/combined_unified_decoder.py"
MAV = "decoders/mavlink_decoder.py"
STM = "inference/statistical_models.py"
SEG = "inference/buffer_segmentation.py"
HC = "mavlink_utils/HC_dialect.py"
DUD = "inference/dude.py"
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


WGT_CLASS = "class EntropyBitwiseWeightedDecoder(Decoder):"
PASS2 = "        estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(model_llr)\n"

# ---------------------------------------------------------------- C04
bug("c04-count-on-failure", "C04", [
    (ENT, """        # use model
        model_word = self.model_prediction(channel_word)  # type: ignore
        estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(model_word)
        model_bits = estimate[self.model_bits_idx]
        model_bytes = np.packbits(model_bits).tobytes()
        msg_parts, validity, structure = self.segmentor.segment_buffer(model_bytes)
        if MsgParts.UNKNOWN not in msg_parts:  # buffer fully recovered
            self.update_model(model_bits)
        return estimate, llr, decode_success, iterations, len(structure)
""", """        # use model
        model_word = self.model_prediction(channel_word)  # type: ignore
        estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(model_word)
        model_bits = estimate[self.model_bits_idx]
        model_bytes = np.packbits(model_bits).tobytes()
        msg_parts, validity, structure = self.segmentor.segment_buffer(model_bytes)
        if MsgParts.UNKNOWN not in msg_parts:  # buffer fully recovered
            self.update_model(model_bits)
            return estimate, llr, decode_success, iterations, len(structure)
        return estimate, llr, decode_success, iterations, len(structure) if decode_success else 0
""")],
    "both decoding passes fail although some messages of the buffer are intact",
    "the number of messages reported is zero although the returned bits hold one",
    """
from decoders.entropy_bitwise_decoder import EntropyBitwiseFlippingDecoder
f = frame(0, 1) + frame(0, 2, seq=1)
c = Code(len(f) * 8); w = c.encode(bits(f))
r = w.copy(); r[8 * 20] ^= 1
d = Soft(c); d.hard_input = True
x = EntropyBitwiseFlippingDecoder(d, c.k, 0.3, 1)
out = x.decode_buffer(r.copy())
need(out[4] == 1 and not out[2], out[4])
""")

bug("c04-soft-of-first-pass", "C04", [
    (ENT, """        # rectify llr
        model_llr = self.model_prediction(channel_llr)  # type: ignore
        estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(model_llr)
        model_bits = estimate[self.model_bits_idx]
        model_bytes = np.packbits(model_bits).tobytes()
        msg_parts, validity, structure = self.segmentor.segment_buffer(model_bytes)
        if MsgParts.UNKNOWN not in msg_parts:  # buffer fully recovered
            self.update_model(model_bits)
        return estimate, llr, decode_success, iterations, len(structure)
""", """        # rectify llr
        plain_llr = llr
        model_llr = self.model_prediction(channel_llr)  # type: ignore
        estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(model_llr)
        model_bits = estimate[self.model_bits_idx]
        model_bytes = np.packbits(model_bits).tobytes()
        msg_parts, validity, structure = self.segmentor.segment_buffer(model_bytes)
        if MsgParts.UNKNOWN not in msg_parts:  # buffer fully recovered
            self.update_model(model_bits)
        # if the model did not help, its soft output is not worth more than the plain one
        return estimate, llr if decode_success else plain_llr, decode_success, iterations, len(structure)
""")],
    "plain decoding fails, and so does decoding of the corrected word",
    "the soft values returned belong to another pass than the bits",
    """
from decoders.entropy_bitwise_decoder import EntropyBitwiseDecoder
f = frame(0, 1); c = Code(len(f) * 8); w = c.encode(bits(f))
r = w.copy(); r[8 * 7] ^= 1
d = Soft(c); x = EntropyBitwiseDecoder(d, c.k, 0.3, 10, 1)
e, llr, ok = x.decode_buffer(soft(r))[:3]
need(not ok and abs(llr[0]) == 1 + d.calls / 8, (abs(llr[0]), d.calls))
""")

bug("c04-best-round", "C04", [
    (MAV, "        all_iteration = 0\n        if self.n_clusters > 1:", "        all_iteration = 0\n        best = None\n        if self.n_clusters > 1:"),
    (MAV, "            all_iteration += iterations\n            if decode_success:\n                break\n",
     "            all_iteration += iterations\n            if best is None or np.sum(syndrome) <= np.sum(best[1]):\n                best = estimate, syndrome, vnode_validity\n"
     "            if decode_success:\n                break\n"),
    (MAV, "        return estimate, decoder_input, decode_success, all_iteration, syndrome, vnode_validity, label, \\\n            segmented_bits, good", "        return best[0], decoder_input, decode_success, all_iteration, best[1], best[2], label, \\\n            segmented_bits, good")],
    "several rectify-and-decode rounds of which a later one leaves more parity checks open",
    "the bits returned are those of an earlier round than the soft values",
    """
from decoders import MavlinkRectifyingDecoder
class Rounds(Soft):
    def decode(self, w, max_iter=None):
        e, llr, ok, it, s, v = super().decode(w)
        e = e.copy(); e[c.k + 1] ^= 1
        if self.calls == 2:
            e[c.k + 2:c.k + 5] ^= 1
        s = self.h @ e % 2
        return e, (1. - 2 * e) * 3, False, it, s, s @ self.h
f = frame(0, 1); c = Code(len(f) * 8); d = Rounds(c)
x = MavlinkRectifyingDecoder(d, c.k, 0.05, 0.01, 1, 2.0, 0.5, 2, True, None, None, segmentation_iterations=2)
with quiet():
    out = x.decode_buffer(soft(c.encode(bits(f))), np.array([], dtype=int))
need(((out[1] < 0).astype(int) == out[0]).all(), 'bits and soft values of different passes')
""")

bug("c04-syndrome", "C04", [
    (ENT, "        # rectify llr\n        model_llr = self.model_prediction(channel_llr)  # type: ignore\n" + PASS2 +
     "        model_bits = estimate[self.model_bits_idx]\n        model_bytes = np.packbits(model_bits).tobytes()\n"
     "        msg_parts, validity, structure = self.segmentor.segment_buffer(model_bytes)\n"
     "        if MsgParts.UNKNOWN not in msg_parts:  # buffer fully recovered\n            self.update_model_a(model_bits)\n",
     "        # rectify llr\n        model_llr = self.model_prediction(channel_llr)  # type: ignore\n"
     "        if not np.array_equal(model_llr, channel_llr):\n"
     "            estimate, llr, decode_success, iterations, _, vnode_validity = self.ldpc_decoder.decode(model_llr)\n"
     "        else:\n            estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(model_llr)\n"
     "        model_bits = estimate[self.model_bits_idx]\n        model_bytes = np.packbits(model_bits).tobytes()\n"
     "        msg_parts, validity, structure = self.segmentor.segment_buffer(model_bytes)\n"
     "        if MsgParts.UNKNOWN not in msg_parts:  # buffer fully recovered\n            self.update_model_a(model_bits)\n")],
    "a model that holds at least two buffers, and a buffer rescued by it after plain decoding failed",
    "the syndrome returned is that of the failed plain pass",
    """
from decoders.entropy_bitwise_decoder import EntropyBitwiseWeightedDecoder
f = frame(0, 1); c = Code(len(f) * 8); w = c.encode(bits(f))
d = Soft(c); x = EntropyBitwiseWeightedDecoder(d, c.k, 0.3, 10, a_conf_center=0)
for _ in range(3):
    d.out = [w]; x.decode_buffer(soft(w))
r = w.copy(); r[60] ^= 1
d.out = [None, w]
out = x.decode_buffer(soft(r))
need(out[2] and not out[4].any(), out[4])
""")

# ---------------------------------------------------------------- C05
bug("c05-window-below-minimum", "C05", [
    (ENT, "        if self.predefined_model or (self.model_data.size > 0 and self.model_data.shape[1] >= self.min_data):\n",
     "        required = self.min_data if self.window_length is None else min(self.min_data, self.window_length)\n"
     "        if self.predefined_model or (self.model_data.size > 0 and self.model_data.shape[1] >= required):\n")],
    "a window shorter than the required minimum of learned buffers",
    "the model is used although fewer buffers than the minimum are learned",
    """
from decoders.entropy_bitwise_decoder import EntropyBitwiseDecoder
f = frame(0, 1); c = Code(len(f) * 8); w = c.encode(bits(f))
d = Soft(c); x = EntropyBitwiseDecoder(d, c.k, 0.3, 10, 5, 2)
for _ in range(3):
    d.out = [w]; x.decode_buffer(soft(w))
r = w.copy(); r[60] ^= 1
d.out = [None, None]; x.decode_buffer(soft(r))
need(np.array_equal(d.words[-1], soft(r)), 'word changed with less than the required data')
""")

bug("c05-single-buffer", "C05", [
    (CMB, """        def model_confidence(model_size: int, center: int, slope: float) -> np.float_:
            return 0 if model_size <= 1 else 1 / (1 + np.exp(-(model_size - center) * slope, dtype=np.float_))

        # infer structure""", """        def model_confidence(model_size: int, center: int, slope: float) -> np.float_:
            return 0 if model_size < min(2, center) else 1 / (1 + np.exp(-(model_size - center) * slope, dtype=np.float_))

        # infer structure""")],
    "a confidence function centred at zero or one and exactly one learned buffer",
    "a single learned buffer already corrects the received word",
    """
from decoders import CombinedDecoder
f = frame(0, 1); c = Code(len(f) * 8); w = c.encode(bits(f))
d = Soft(c); x = CombinedDecoder(d, c.k, 0.05, 0.01, 1, 2.0, 0.5, 0.3, 10, 2, conf_center=1, conf_slope=1.)
g = bytes(len(f)); v = c.encode(bits(g))
with quiet():
    d.out = [None]; x.decode_buffer(soft(v), np.array([], dtype=int))
    d.out = [None]; x.decode_buffer(soft(w), np.array([], dtype=int))
need(np.array_equal(d.words[-1], soft(w)), 'one buffer is used as a model')
""")

bug("c05-second-chance", "C05", [
    (ENT, """        estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(channel_llr)
        if decode_success:
            model_bits = estimate[self.model_bits_idx]
            model_bytes: bytes = np.packbits(model_bits).tobytes()
            msg_parts, validity, structure = self.segmentor.segment_buffer(model_bytes)
            if MsgParts.UNKNOWN not in msg_parts:  # buffer fully recovered
                self.update_model_a(model_bits)
            self.update_model_b(model_bits)

            return estimate""", """        estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(channel_llr)
        structure, model_bits = {}, estimate[self.model_bits_idx]
        if decode_success:
            model_bytes: bytes = np.packbits(model_bits).tobytes()
            msg_parts, validity, structure = self.segmentor.segment_buffer(model_bytes)
        # a code word without a single message is a false decoding once the data is known to hold messages
        if decode_success and (structure or self.a_distribution.size == 0):
            if MsgParts.UNKNOWN not in msg_parts:  # buffer fully recovered
                self.update_model_a(model_bits)
            self.update_model_b(model_bits)

            return estimate""")],
    "a buffer without messages that decodes at once, after buffers with messages were received",
    "a second pass is made although plain decoding succeeded",
    """
from decoders.entropy_bitwise_decoder import EntropyBitwiseWeightedDecoder
f = frame(0, 1); c = Code(len(f) * 8); w = c.encode(bits(f)); z = c.encode(bits(bytes(len(f))))
d = Soft(c); x = EntropyBitwiseWeightedDecoder(d, c.k, 0.3, 10)
d.out = [w]; x.decode_buffer(soft(w))
n = d.calls
d.out = [z, z]; x.decode_buffer(soft(z))
need(d.calls == n + 1, 'second pass after a success')
""")

# ---------------------------------------------------------------- C06
bug("c06-lazy-trim", "C06", [
    (CMB, "        if (self.window_length is not None) and self.entropy_models_data[cluster_id].shape[1] > self.window_length:\n",
     "        if (self.window_length is not None) and self.entropy_models_data[cluster_id].shape[1] >= 2 * self.window_length:\n")],
    "more buffers than the window, but fewer than twice as many since the last cut",
    "statistics cover more buffers than the window allows",
    """
from decoders import CombinedDecoder
f = frame(0, 1); c = Code(len(f) * 8); d = Soft(c)
x = CombinedDecoder(d, c.k, 0.05, 0.01, 1, 2.0, 0.5, 0.3, 10, 2, window_length=3, conf_center=0, conf_slope=.1)
with quiet():
    for b in (0, 255, 255, 255):
        w = c.encode(bits(bytes([b]) * len(f))); d.out = [w]; x.decode_buffer(soft(w), np.array([], dtype=int))
need(np.allclose(x.distributions[0][:, 1], 1), x.distributions[0][:2])
""")

bug("c06-corrected-word-learned", "C06", [
    (ENT, "            channel_bits = np.array(channel_llr < 0, dtype=np.int_)[self.model_bits_idx]\n            self.update_model_b(channel_bits)\n",
     "            channel_bits = np.array(model_llr < 0, dtype=np.int_)[self.model_bits_idx]\n            self.update_model_b(channel_bits)\n")],
    "a buffer that cannot be decoded while the learned statistics contradict some of its bits",
    "the ungated model learns the corrected bits instead of the raw channel bits, and so confirms itself",
    """
from decoders.entropy_bitwise_decoder import EntropyBitwiseWeightedDecoder
f = frame(0, 1); c = Code(len(f) * 8); w = c.encode(bits(f))
d = Soft(c); x = EntropyBitwiseWeightedDecoder(d, c.k, 0.3, 10, a_conf_center=0)
for _ in range(3):
    d.out = [w]; x.decode_buffer(soft(w))
r = w.copy(); r[60] ^= 1
d.out = [None, c.encode(0 * w[:c.k])]
out = x.decode_buffer(soft(r, 0.5))
need(abs(out[8][60, 1] - (3 * w[60] + r[60]) / 4) < 1e-9, out[8][60])
""")

bug("c06-repeats", "C06", [
    (CLS, "        arr = bits[np.newaxis]\n\n        self.models_data[cluster_id] = arr.T",
     "        arr = np.asarray(bits)[np.newaxis]\n        if self.models_data[cluster_id].size and np.array_equal(self.models_data[cluster_id][:, -1], bits):\n"
     "            return  # a repeated buffer carries no information\n\n        self.models_data[cluster_id] = arr.T")],
    "a buffer that repeats the bits of the one learned just before, and a different one",
    "repeated buffers are not counted, so the statistics are not those of the admitted buffers",
    """
from decoders import ClassifyingEntropyDecoder
c = Code(32); d = Soft(c); x = ClassifyingEntropyDecoder(d, 32, 0.3, 10, 2, 1)
for b in (0, 0, 0, 255):
    w = c.encode(bits(bytes([b]) * 4)); d.out = [w]; out = x.decode_buffer(soft(w))
need(abs(out[6][0, 1] - .25) < 1e-9, out[6][0])
""")

bug("c06-training-learned", "C06", [
    (UNI, "        if label >= 0:\n            if self.mavlink_learning:", "        if label >= 0 or decode_success:  # sound data is worth learning in any case\n            if self.mavlink_learning:")],
    "several clusters and a buffer decoded while the classifier is still training",
    "buffers received during training are learned in the statistics of the last cluster",
    """
from decoders import CombinedUnifiedDecoder
f = frame(0, 1); c = Code(len(f) * 8); d = Soft(c)
x = CombinedUnifiedDecoder(d, c.k, 0.05, 0.01, 2, 2.0, 0.5, 0.3, 10, 3)
w = c.encode(bits(f)); d.out = [w]
with quiet():
    x.decode_buffer(soft(w), np.array([], dtype=int))
need(all(e.size == 0 for e in x.distributions) and x.model.model_size == 0, 'learned while training')
""")

bug("c06-gate", "C06", [
    (ENT, """            if MsgParts.UNKNOWN not in msg_parts:  # buffer fully recovered
                self.update_model_a(model_bits)
            self.update_model_b(model_bits)

            return estimate""", """            if structure and msg_parts[-1] != MsgParts.UNKNOWN:  # buffer fully recovered
                self.update_model_a(model_bits)
            self.update_model_b(model_bits)

            return estimate""")],
    "a code word whose last message is intact but with bytes before it that belong to no message",
    "the checksum-gated model admits a buffer that is not fully covered by intact messages",
    """
from decoders.entropy_bitwise_decoder import EntropyBitwiseWeightedDecoder
g = frame(0, 1) + frame(0, 2, seq=1); b = bytearray(g); b[9] ^= 1
c = Code(len(g) * 8); w = c.encode(bits(bytes(b)))
d = Soft(c); x = EntropyBitwiseWeightedDecoder(d, c.k, 0.3, 10)
d.out = [w]
need(x.decode_buffer(soft(w))[7].size == 0, 'damaged buffer admitted')
""")

# ---------------------------------------------------------------- C07
bug("c07-stale-stable-bits", "C07", [
    (ENT, """        # infer structure
        # index of structural (low entropy) elements among codeword
        self.structural_elements = self.model_bits_idx[self.entropy < self.entropy_threshold]
        # round the probability of Pr(c=1)
        self.structural_values = np.array(self.distribution[:, 1] > 0.5, dtype=np.int_)[self.structural_elements]
""", """        # infer structure, unless it is known already
        known = (self.model_data.shape, self.entropy.size)
        if getattr(self, "_structure_of", None) != known:
            # index of structural (low entropy) elements among codeword
            self.structural_elements = self.model_bits_idx[self.entropy < self.entropy_threshold]
            # round the probability of Pr(c=1)
            self.structural_values = np.array(self.distribution[:, 1] > 0.5, dtype=np.int_)[self.structural_elements]
            self._structure_of = known
""")],
    "a full window: the model was used once, then its content changed while its size did not",
    "bits are replaced by the majority of an earlier window",
    """
from decoders.entropy_bitwise_decoder import EntropyBitwiseFlippingDecoder
def info(v): return frame(0, v)
f = info(1); c = Code(len(f) * 8)
d = Soft(c); d.hard_input = True
x = EntropyBitwiseFlippingDecoder(d, c.k, 0.3, 1, 2)
for v in (1, 1):
    w = c.encode(bits(info(v))); d.out = [w]; x.decode_buffer(w.copy())
r = c.encode(bits(info(1))); r[60] ^= 1
d.out = [None, None]; x.decode_buffer(r.copy())
for v in (2, 2, 2):
    w = c.encode(bits(info(v))); d.out = [w]; x.decode_buffer(w.copy())
d.out = [None, None]; x.decode_buffer(r.copy())
need(np.array_equal(d.words[-1][:c.k], bits(info(2))), 'replaced by outdated bits')
""")

bug("c07-confidence-of-all", "C07", [
    (CLS, "            size = self.models_data[cluster_id].shape[1] if self.models_data[cluster_id].size > 0 else 0\n            confidence",
     "            size = sum(data.shape[1] for data in self.models_data if data.size > 0)\n            confidence")],
    "several clusters of which the one at hand holds few buffers and the others many",
    "the correction is weighted by the number of buffers of all clusters instead of that of the cluster at hand",
    """
from decoders import ClassifyingEntropyDecoder
c = Code(32); d = Soft(c); x = ClassifyingEntropyDecoder(d, 32, 0.3, 10, 2, 2, cluster=0, conf_center=2, conf_slope=1.)
w = c.encode(bits(b'abcd'))
for _ in range(3):
    d.out = [w]; x.decode_buffer(soft(w))
d.out = [None]; x.decode_buffer(soft(w))
need(np.array_equal(d.words[-1], soft(w)), 'one buffer of this cluster, yet corrected')
""")

bug("c07-one-sided", "C07", [
    (ENT, "        return np.clip(llr, -clipping, clipping)\n\n\n__all__", "        return np.minimum(llr, clipping)\n\n\n__all__")],
    "stable one bits whose log-odds exceed the clipping limit",
    "corrected values of one bits exceed the limit",
    """
from decoders.entropy_bitwise_decoder import EntropyBitwiseWeightedDecoder
f = frame(0, 1); c = Code(len(f) * 8); w = c.encode(bits(f))
d = Soft(c); x = EntropyBitwiseWeightedDecoder(d, c.k, 0.3, 1.5, a_conf_center=0)
for _ in range(9):
    d.out = [w]; x.decode_buffer(soft(w))
r = w.copy(); r[60] ^= 1
d.out = [None, None]; x.decode_buffer(soft(r))
need(np.max(np.abs(d.words[-1])) <= 3 + 1e-9, np.max(np.abs(d.words[-1])))
""")

bug("c07-clip-once", "C07", [
    (CLS, "            clipping = self.clipping_factor * max(np.abs(channel_llr))  # llr s clipped within +-clipping\n            model_llr = np.clip(channel_llr + model_llr, -clipping, clipping)\n",
     "            clipping = self.clipping_factor * max(np.abs(channel_llr))  # llr s clipped within +-clipping\n            model_llr = channel_llr + np.clip(model_llr, -clipping, clipping)\n")],
    "log-odds of the model and a received value of the same sign which together exceed the limit",
    "the word handed over exceeds the clipping limit",
    """
from decoders import ClassifyingEntropyDecoder
c = Code(32); d = Soft(c); x = ClassifyingEntropyDecoder(d, 32, 0.3, 2, 2, 1, conf_center=0)
w = c.encode(bits(b'abcd'))
for _ in range(9):
    d.out = [w]; x.decode_buffer(soft(w))
need(np.max(np.abs(d.words[-1])) <= 4 + 1e-9, np.max(np.abs(d.words[-1])))
""")

# ---------------------------------------------------------------- C08
bug("c08-empty-structure", "C08", [
    (MAV, "if self.buffer_structures[label] is None:\n                    info_bytes", "if not self.buffer_structures[label]:\n                    info_bytes")],
    "a cluster whose first decoded buffer holds no intact message, and a later one that does",
    "the structure of the cluster changes after it was set",
    """
from decoders import MavlinkRectifyingDecoder
f = frame(0, 1); c = Code(len(f) * 8); d = Soft(c)
x = MavlinkRectifyingDecoder(d, c.k, 0.05, 0.01, 1, 2.0, 0.5, 2)
with quiet():
    for b in (bytes(len(f)), f):
        w = c.encode(bits(b)); d.out = [w]; x.decode_buffer(soft(w), np.array([], dtype=int))
need(x.buffer_structures[0] == {}, x.buffer_structures)
""")

bug("c08-structure-of-all", "C08", [
    (UNI, "                        self.buffer_structures[label] = structure\n",
     "                        self.buffer_structures = [structure if s is None else s for s in self.buffer_structures]\n")],
    "several clusters with different messages",
    "the structure of the first decoded buffer is used for all clusters that have none yet",
    """
from decoders import CombinedUnifiedDecoder
f = frame(0, 1) + bytes(4); g = frame(33, 1)[:0] + bytes(4) + frame(0, 2)
c = Code(len(f) * 8); d = Soft(c)
x = CombinedUnifiedDecoder(d, c.k, 0.05, 0.01, 2, 2.0, 0.5, 0.3, 10, 3, cluster=False)
with quiet():
    for b in (f, g):
        w = c.encode(bits(b)); d.out = [w]; x.decode_buffer(soft(w), np.array([], dtype=int))
need([dict(s) for s in x.buffer_structures] == [{0: 0}, {4: 0}], x.buffer_structures)
""")

bug("c08-unchanged-sample", "C08", [
    (STM, "        if isinstance(sample, list):\n            self.samples.extend(sample)\n        else:\n            self.samples.append(sample)\n",
     "        changed = not self.samples or sample != self.samples[-1]\n        if isinstance(sample, list):\n            self.samples.extend(sample)\n        else:\n            self.samples.append(sample)\n"),
    (STM, "            self.samples = self.samples[-self.window_size:]\n        self._up2date = False\n",
     "            self.samples = self.samples[-self.window_size:]\n        if changed:  # the same value again does not move the model\n            self._up2date = False\n")],
    "a value that repeats its predecessor while other values are in the window, with the statistics read in between",
    "mean and spread are not those of the recorded values",
    """
from inference.statistical_models import FieldModel
m = FieldModel('a', 'uint8_t')
for v in (0, 6):
    m.add_sample(v)
m.mean
m.add_sample(6)
need(abs(m.mean - 4) < 1e-9, m.mean)
""")

bug("c08-estimate-of-failure", "C08", [
    (CMB, "                elif self.buffer_structures[label] is not None:  # update model from channel if data is bad\n                    self.model.add_buffer(channel_bits,",
     "                elif self.buffer_structures[label] is not None:  # update model from channel if data is bad\n                    self.model.add_buffer(estimate,")],
    "a buffer that fails to decode although its structure is known, and whose corrected word differs from the received one",
    "field models learn the bits of a failed decoding instead of the raw received bits",
    """
from decoders import CombinedDecoder
f = frame(0, 1); c = Code(len(f) * 8); d = Soft(c); w = c.encode(bits(f))
x = CombinedDecoder(d, c.k, 0.05, 0.01, 1, 2.0, 0.5, 0.3, 10, 2, conf_center=0, conf_slope=1.)
with quiet():
    for _ in range(3):
        d.out = [w]; x.decode_buffer(soft(w), np.array([], dtype=int))
    r = w.copy(); r[8 * 6 + 7] ^= 1                      # value 1 -> 0
    d.out = [None]; x.decode_buffer(soft(r, .5), np.array([8 * 6 + 7]))
vals = [m.samples for m in x.model if m.name.endswith('custom_mode')][0]
need(vals == [1, 1, 1, 0], vals)
""")

# ---------------------------------------------------------------- C09
bug("c09-invalid-not-blended", "C09", [
    (CMB, "            invalid_factor = (self.invalid_factor - 1) * confidence + 1\n", "            invalid_factor = self.invalid_factor if confidence > 0 else 1\n")],
    "learning on line with intermediate confidence, and an implausible field",
    "bits of implausible fields are weakened at full strength while the model is still unsure",
    """
from decoders import CombinedDecoder
c = Code(17 * 8); d = Soft(c)
x = CombinedDecoder(d, c.k, 0.05, 0.4, 1, 1.0, 0.0, 0.0, 10, 2, conf_center=3, conf_slope=1.)
with quiet():
    for v in (10, 11, 12):
        w = c.encode(bits(frame(0, v))); d.out = [w]; x.decode_buffer(soft(w), np.array([], dtype=int))
    r = c.encode(bits(frame(0, 200))); r[8 * 15] ^= 1
    d.out = [None]; x.decode_buffer(soft(r), np.array([], dtype=int))
v = np.abs(d.words[-1][6 * 8:7 * 8])
need(np.allclose(v, 1.0), v)
""")

bug("c09-two-values", "C09", [
    (STM, "        if self._std <= 0:\n            return (1, 0)", "        if len(self.samples) <= 1:\n            return (1, 0)")],
    "a field that has had the same value at least twice and has it again",
    "bits of constant fields with the right value are no longer strengthened (0/0)",
    """
from decoders import MavlinkRectifyingDecoder
c = Code(17 * 8); d = Soft(c); w = c.encode(bits(frame(0, 10)))
x = MavlinkRectifyingDecoder(d, c.k, 0.05, 0.01, 1, 2.0, 0.5, 2, conf_center=0, conf_slope=1.)
with quiet(), np.errstate(all='ignore'):
    for _ in range(4):
        d.out = [w]; x.decode_buffer(soft(w), np.array([], dtype=int))
    r = c.encode(bits(frame(0, 10))); r[8 * 15] ^= 1; r[8 * 16] ^= 1
    d.out = [None]; x.decode_buffer(soft(r), np.array([], dtype=int))
need(np.min(np.abs(d.words[-1][6 * 8:7 * 8])) > 3, d.words[-1][48:56])
""")

bug("c09-rounds", "C09", [
    (MAV, "                segmented_bits = self.model_prediction(decoder_input, label)\n            estimate, decoder_input, decode_success",
     "                segmented_bits = self.model_prediction(decoder_input if all_iteration == 0 else channel_llr, label)\n            estimate, decoder_input, decode_success")],
    "more than one rectify-and-decode round",
    "later rounds start from the received word instead of the soft output of the round before",
    """
from decoders import MavlinkRectifyingDecoder
c = Code(17 * 8); d = Soft(c); w = c.encode(bits(frame(0, 10)))
x = MavlinkRectifyingDecoder(d, c.k, 0.05, 0.01, 1, 2.0, 0.5, 2, segmentation_iterations=2)
r = w.copy(); r[50] ^= 1
d.out = [None, None]
with quiet():
    x.decode_buffer(soft(r, 7.), np.array([], dtype=int))
need(np.allclose(np.abs(d.words[-1]), 1 + 1 / 8.), d.words[-1][:3])
""")

bug("c09-all-messages", "C09", [
    (UNI, "        parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)\n        if structure:\n            modified_llr[np.where(valid_info_bits == 1)[0]] = observation",
     "        parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)\n        if len(structure) >= len(self.buffer_structures[cluster_id]) > 0:\n            modified_llr[np.where(valid_info_bits == 1)[0]] = observation")],
    "a buffer of several messages of which only some arrived intact",
    "bits of intact messages of the received word are not strengthened as such when another message is damaged",
    """
from decoders import CombinedUnifiedDecoder
f = frame(0, 10) + frame(0, 20, seq=1); c = Code(len(f) * 8); d = Soft(c); w = c.encode(bits(f))
x = CombinedUnifiedDecoder(d, c.k, 0.05, 0.01, 1, 3.0, 0.5, 0.0, 10, 2, conf_center=0, conf_slope=5.)
with quiet():
    for i in range(8):
        w = c.encode(bits(frame(0, 10 + i) + frame(0, 20, seq=1))); d.out = [w]; x.decode_buffer(soft(w), np.array([], dtype=int))
    r = c.encode(bits(frame(0, 17) + frame(0, 20, seq=1))); r[8 * 32] ^= 1
    d.out = [None]; x.decode_buffer(soft(r), np.array([], dtype=int))
need(np.allclose(np.abs(d.words[-1][:17 * 8]), 2 * 2 * 3.0), np.abs(d.words[-1][:8]))
""")

bug("c09-plausibility-sign", "C09", [
    (STM, "        normalized_distance = abs(self._mean - value) / self._std  # as number of standard deviations\n",
     "        normalized_distance = max(value - self._mean, self._mean - value if self.signed else 0) / self._std  # as number of standard deviations\n")],
    "a value of an unsigned field far below its mean",
    "implausibly small values of unsigned fields count as plausible",
    """
from inference.statistical_models import FieldModel
m = FieldModel('a', 'uint16_t')
for v in (1000, 1001, 1002):
    m.add_sample(v)
need(m.classify_value(3)[0] < 1e-6, m.classify_value(3))
""")

# ---------------------------------------------------------------- C10
bug("c10-newest", "C10", [
    (STM, "        with open(filename, 'r') as f:\n            data = json.load(f)\n",
     "        # a model whose saving was interrupted just before the move is newer\n        newer = f\"{filename}.tmp\"\n"
     "        with open(newer if os.path.exists(newer) else filename, 'r') as f:\n            data = json.load(f)\n")],
    "a crash in the middle of writing a new model over an older one",
    "the half written model is loaded instead of the complete older one",
    """
import tempfile, shutil
from inference import BufferModel
d = tempfile.mkdtemp(); p = os.path.join(d, 'm.json')
m = BufferModel(); m.add_sample('a', 1, 'uint8_t'); m.save(p)
pid = os.fork()
if pid == 0:
    class Die(dict):
        def items(self):
            os._exit(9)
    real = os.fsync
    def dying(fd):
        os.ftruncate(fd, 20); os._exit(9)
    os.fsync = dying
    m.add_sample('b', 2, 'uint8_t'); m.save(p); os._exit(0)
os.waitpid(pid, 0)
try:
    names = BufferModel.load(p).fields_names()
except Exception as e:
    names = e
shutil.rmtree(d)
need(names == ['a'], names)
""")

bug("c10-lenient-load", "C10", [
    (STM, "            models = data.get(\"field_models\")\n", "            models = data.get(\"field_models\")\n            models = {k: v for k, v in models.items() if v.get(\"samples\")}\n"),
    (STM, "        with open(filename, 'r') as f:\n            data = json.load(f)\n",
     "        with open(filename, 'r') as f:\n            try:\n                data = json.load(f)\n            except json.JSONDecodeError:  # still being written\n                data = {\"field_models\": {}}\n")],
    "PLACEHOLDER", "PLACEHOLDER", "need(True, 1)")
BUGS.pop()  # cannot manifest while saving is atomic

# ---------------------------------------------------------------- C15
bug("c15-nothing-forced", "C15", [
    (UNI, "        if forced_bits.size > 0:\n            forcing_quality = np.array([error_idx.size, forced_bits.size, n_bits_flipped, flipping_confusion_matrix[0],\n"
     "                                        flipping_confusion_matrix[1], sum(tx[forced_bits] ^ model_bits) / forced_bits.size],\n"
     "                                       dtype=np.float_)\n        else:\n            forcing_quality = np.array([error_idx.size, forced_bits.size, n_bits_flipped, flipping_confusion_matrix[0],\n"
     "                                        flipping_confusion_matrix[1], 0], dtype=np.float_)\n",
     "        forcing_quality = np.array([error_idx.size, forced_bits.size, n_bits_flipped, flipping_confusion_matrix[0],\n"
     "                                    flipping_confusion_matrix[1], sum(tx[forced_bits] ^ model_bits) / forced_bits.size],\n"
     "                                   dtype=np.float_)\n")],
    "debug mode, a known structure and a buffer without bits to force",
    "the receiver raises ZeroDivisionError",
    """
from decoders import CombinedUnifiedDecoder
f = frame(0, 10); c = Code(len(f) * 8); d = Soft(c); w = c.encode(bits(f))
x = CombinedUnifiedDecoder(d, c.k, 0.05, 0.01, 1, 3.0, 0.5, 0.3, 10, 2, conf_center=0, conf_slope=5., debug=True)
try:
    with quiet():
        for _ in range(2):
            d.out = [w]; x.decode_buffer(soft(w), np.array([3]))
except Exception as e:
    need(False, repr(e))
""")

bug("c15-normalised", "C15", [
    (CMB, "            clipping = self.clipping_factor * max(abs(channel_llr))  # llr s clipped within +-clipping\n            decoder_input[model_result[1]] += np.clip(model_result[0], -clipping, clipping)\n",
     "            peak = max(abs(channel_llr))\n            decoder_input[model_result[1]] += peak * np.clip(model_result[0] / peak, -self.clipping_factor, self.clipping_factor)\n")],
    "dead air (a received word of zeros) and a bit with as many ones as zeros among the learned buffers that counts as stable",
    "values handed to the decoder are not finite",
    """
from decoders import CombinedDecoder
f = frame(0, 1); c = Code(len(f) * 8); d = Soft(c); w = c.encode(bits(f))
x = CombinedDecoder(d, c.k, 0.05, 0.01, 1, 2.0, 0.5, 1.1, 10, 2, conf_center=0, conf_slope=1.)
with quiet(), np.errstate(all='ignore'):
    for v in (1, 2):
        w = c.encode(bits(frame(0, v))); d.out = [w]; x.decode_buffer(soft(w), np.array([], dtype=int))
    d.out = [None]; x.decode_buffer(np.zeros(c.n), np.array([], dtype=int))
need(np.isfinite(d.words[-1]).all(), d.words[-1][:4])
""")

bug("c15-rounding", "C15", [
    (STM, "        normalized_distance = abs(self._mean - value) / self._std  # as number of standard deviations\n",
     "        normalized_distance = abs(self._mean - value) / self._std  # as number of standard deviations\n        if int(normalized_distance) > 40:  # beyond the precision of erf\n            return 0, self._std\n")],
    "a received float field that decodes to infinity or not-a-number after the field was learned with some spread",
    "the receiver raises an exception",
    """
from decoders import MavlinkRectifyingDecoder
from mavlink_utils import HC_dialect
mid = 30  # attitude: floats
c = None
def info(v): return frame(mid, 5, v, 1., 1., 1., 1., 1.)
f = info(1.); c = Code(len(f) * 8); d = Soft(c)
x = MavlinkRectifyingDecoder(d, c.k, 0.05, 0.01, 1, 2.0, 0.5, 2)
try:
    with quiet(), np.errstate(all='ignore'):
        for v in (1., 2., 3.):
            w = c.encode(bits(info(v))); d.out = [w]; x.decode_buffer(soft(w), np.array([], dtype=int))
        w = c.encode(bits(info(float('inf')))); d.out = [None]; x.decode_buffer(soft(w), np.array([], dtype=int))
except Exception as e:
    need(False, repr(e))
""")
BUGS[-1]["edits"][0] = (BUGS[-1]["edits"][0][0], BUGS[-1]["edits"][0][1],
                        "        distance = abs(self._mean - value)\n        if int(distance / self._std) > 40:  # beyond the precision of erf\n            return 0, self._std\n"
                        "        normalized_distance = distance / self._std  # as number of standard deviations\n")

# ---------------------------------------------------------------- C16
bug("c16-shared-default", "C16", [
    (STM, "    def __init__(self, models: dict[str, FieldModel] = None, window_size: int | None = None):\n",
     "    def __init__(self, models: dict[str, FieldModel] = {}, window_size: int | None = None):\n"),
    (STM, "        self._field_models: dict[str, FieldModel] = {} if models is None else models\n", "        self._field_models: dict[str, FieldModel] = models\n")],
    "two receivers or models that learn fields in one process",
    "all models without given fields share the same ones",
    """
from inference import BufferModel
a, b = BufferModel(), BufferModel()
a.add_sample('x', 1, 'uint8_t')
need(len(b) == 0, 'models share their fields')
""")

bug("c16-parser-state", "C16", [
    (HC, "            # decode the header\n", "            # decode the header\n") if False else
    (SEG, "        msg_parts: list[MsgParts] = [MsgParts.UNKNOWN] * buffer_length\n", "        msg_parts: list[MsgParts] = [MsgParts.UNKNOWN] * buffer_length\n")],
    "", "", "")
BUGS.pop()

# ---------------------------------------------------------------- C18
bug("c18-combined", "C18", [
    (CMB, "        channel_bits: NDArray[np.int_] = np.array(channel_llr < 0, dtype=np.int_)\n        decoder_input = channel_llr.copy()\n",
     "        channel_bits: NDArray[np.int_] = np.array(channel_llr < 0, dtype=np.int_)\n        decoder_input = channel_llr\n")],
    "bit statistics in use while the message structure is still unknown",
    "the receiver adds its model to the caller's received word",
    """
from decoders import CombinedDecoder
c = Code(17 * 8); d = Soft(c); w = c.encode(bits(frame(0, 1)))
x = CombinedDecoder(d, c.k, 0.05, 0.01, 1, 2.0, 0.5, 0.3, 10, 2, conf_center=0, conf_slope=1.)
with quiet():
    for _ in range(4):
        g = soft(w); h = g.copy(); x.decode_buffer(g, np.array([], dtype=int))
        need(np.array_equal(g, h), 'received word changed')
""")

bug("c18-weighted", "C18", [
    (ENT, "        llr = observation.copy()\n        # infer structure\n", "        llr = np.asarray(observation, dtype=np.float_)\n        # infer structure\n")],
    "a buffer that plain decoding cannot correct once a model is in use",
    "the receiver adds its model to the caller's received word",
    """
from decoders.entropy_bitwise_decoder import EntropyBitwiseWeightedDecoder
f = frame(0, 1); c = Code(len(f) * 8); w = c.encode(bits(f))
d = Soft(c); x = EntropyBitwiseWeightedDecoder(d, c.k, 0.3, 10, a_conf_center=0)
for _ in range(3):
    d.out = [w]; x.decode_buffer(soft(w))
d.out = [None, w]
g = soft(w); x.decode_buffer(g)
need(np.array_equal(g, soft(w)), 'received word changed')
""")

bug("c18-flipping", "C18", [
    (ENT, "        prediction = np.array(observation, dtype=np.int_)\n", "        prediction = np.asarray(observation, dtype=np.int_)\n")],
    "hard received words held as platform integers, a model in use and a buffer that plain decoding cannot correct",
    "the receiver replaces bits in the caller's received word",
    """
from decoders.entropy_bitwise_decoder import EntropyBitwiseFlippingDecoder
f = frame(0, 1); c = Code(len(f) * 8); w = c.encode(bits(f))
d = Soft(c); d.hard_input = True
x = EntropyBitwiseFlippingDecoder(d, c.k, 0.3, 1)
d.out = [w]; x.decode_buffer(w.copy())
r = w.astype(np.int_); r[60] ^= 1; g = r.copy()
d.out = [None, w]; x.decode_buffer(g)
need(np.array_equal(g, r), 'received word changed')
""")
