From fcb6658d222d743b59eceb0aef790c38af479299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:50 +0000
Subject: [PATCH 01/50] fix: pack bits into bytes before segmenting a buffer in
 the field-based decoders

info_bits() returns one integer per bit, so tobytes() gave eight bytes per bit and no message could ever be found.
---
 decoders/combined_decoder.py         | 6 +++---
 decoders/combined_unified_decoder.py | 6 +++---
 decoders/mavlink_decoder.py          | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 78c0a1e..fc686b8 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -185,14 +185,14 @@ class CombinedDecoder(Decoder):
 
         # try to run buffer segmentation on the modified llr and on the original llr. If segmentation is able to locate
         # a mavlink message, these bits are good and should be forced.
-        info_bytes = self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_)).tobytes()
+        info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_))).tobytes()
         parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
         if structure:
             modified_llr[np.where(valid_info_bits == 1)[0]] = observation[np.where(valid_info_bits == 1)[0]] * 2 * valid_factor
             print("found segmentation")
             # multiply by 2 for confidence
         else:
-            info_bytes = self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_)).tobytes()
+            info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_))).tobytes()
             parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
             if structure:
                 modified_llr[np.where(valid_info_bits == 1)[0]] *= 2
@@ -288,7 +288,7 @@ class CombinedDecoder(Decoder):
             if self.mavlink_learning:
                 if decode_success:  # buffer fully recovered
                     if self.buffer_structures[label] is None:
-                        info_bytes = self.ldpc_decoder.info_bits(estimate).tobytes()
+                        info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
                         parts, validity, structure = self.bs.segment_buffer(info_bytes)
                         self.buffer_structures[label] = structure
                     self.model.add_buffer(estimate, self.buffer_structures[label])
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index a080bfd..523a9f0 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -215,14 +215,14 @@ class CombinedUnifiedDecoder(Decoder):
 
         # try to run buffer segmentation on the modified llr and on the original llr. If segmentation is able to locate
         # a mavlink message, these bits are good and should be forced.
-        info_bytes = self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_)).tobytes()
+        info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_))).tobytes()
         parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
         if structure:
             modified_llr[np.where(valid_info_bits == 1)[0]] = observation[np.where(valid_info_bits == 1)[0]] * 2 * valid_factor
             print("found segmentation")
             # multiply by 2 for confidence
         else:
-            info_bytes = self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_)).tobytes()
+            info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_))).tobytes()
             parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
             if structure:
                 modified_llr[np.where(valid_info_bits == 1)[0]] *= 2
@@ -318,7 +318,7 @@ class CombinedUnifiedDecoder(Decoder):
             if self.mavlink_learning:
                 if decode_success:  # buffer fully recovered
                     if self.buffer_structures[label] is None:
-                        info_bytes = self.ldpc_decoder.info_bits(estimate).tobytes()
+                        info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
                         parts, validity, structure = self.bs.segment_buffer(info_bytes)
                         self.buffer_structures[label] = structure
                     self.model.add_buffer(estimate, self.buffer_structures[label])
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 56aef63..3f120a6 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -140,7 +140,7 @@ class MavlinkRectifyingDecoder(Decoder):
         if self.learning:
             if decode_success:  # buffer fully recovered
                 if self.buffer_structures[label] is None:
-                    info_bytes = self.ldpc_decoder.info_bits(estimate).tobytes()
+                    info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
                     parts, validity, structure = self.bs.segment_buffer(info_bytes)
                     self.buffer_structures[label] = structure
                 self.model.add_buffer(estimate, self.buffer_structures[label])
@@ -212,14 +212,14 @@ class MavlinkRectifyingDecoder(Decoder):
 
         # try to run buffer segmentation on the modified llr and on the original llr. If segmentation is able to locate
         # a mavlink message, these bits are good and should be forced.
-        info_bytes = self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_)).tobytes()
+        info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_))).tobytes()
         parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
         if structure:
             modified_llr[np.where(valid_info_bits == 1)[0]] = observation[np.where(valid_info_bits == 1)[0]] * 2 * valid_factor
             print("found segmentation")
             # multiply by 2 for confidence
         else:
-            info_bytes = self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_)).tobytes()
+            info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_))).tobytes()
             parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
             if structure:
                 modified_llr[np.where(valid_info_bits == 1)[0]] *= 2
-- 
2.43.0


From 12937f096a46589bd595cf28a63be02036a4ffe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:50 +0000
Subject: [PATCH 02/50] fix: save a model atomically

The previous model was truncated before the new one was written: a crash, a full disk or a value that cannot be serialised lost both.
---
 inference/statistical_models.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index d9fad8c..fb8dffc 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -4,6 +4,7 @@ from scipy.stats import norm
 from scipy.special import erf
 from protocol_meta import field_lengths, dialect_meta, format_strings, inv_format_strings
 import json
+import os
 from numpy.typing import NDArray
 import numpy as np
 from mavlink_utils.HC_dialect import mavlink_map
@@ -290,10 +291,15 @@ class BufferModel:
     def save(self, filename: str) -> None:
         for model in self._field_models.values():
             model._update()
-        with open(filename, 'w') as f:
+        # write a new file and move it into place, so that a failed or interrupted save never damages the saved model
+        tmp_filename = f"{filename}.tmp"
+        with open(tmp_filename, 'w') as f:
             json.dump({"field_models": self._field_models, "buffer_description": self._buffer_description,
                        "window_size": self.window_size, "model_size": self.model_size}, f,
                       default=lambda o: o.hex() if isinstance(o, bytes) else o.__dict__, indent=4, sort_keys=True)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(tmp_filename, filename)
 
     @classmethod
     def load(cls, filename: str) -> "BufferModel":
-- 
2.43.0


From 413781f9093d33231f6de905f4df439cb2f67bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:05 +0000
Subject: [PATCH 03/50] fix: do not learn infinities and nan from damaged float
 fields

One such value made every later use of the field's model raise until it left the window.
---
 inference/statistical_models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index fb8dffc..85cc362 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -364,6 +364,8 @@ class BufferModel:
         self.model_size = self.model_size + 1 if ((self.window_size is None) or (self.model_size < self.window_size)
                                                   ) else self.window_size
         for field_name, value, field_type in zip(ordered_field_names, fields, ordered_field_types):
+            if field_type == "float" and not np.isfinite(value):
+                continue  # a damaged field may hold any bit pattern, infinities and nan have no place in a gaussian model
             self.add_sample(field_name, value, field_type)
 
     def bitwise_model_mean(self, bits_idx: NDArray[np.int_], buffer_len: int, buffer_structure: dict[int, int]) -> \
-- 
2.43.0


From b019c81362a2f79d7ae5b01d4f21f2a9320e85c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:05 +0000
Subject: [PATCH 04/50] fix: decode buffers holding fields which are not in the
 field model

predict() leaves None for such fields, and the decoders raised on them.
---
 decoders/combined_decoder.py         | 7 +++++--
 decoders/combined_unified_decoder.py | 7 +++++--
 decoders/mavlink_decoder.py          | 7 +++++--
 inference/statistical_models.py      | 3 ++-
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index fc686b8..5d03341 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -148,8 +148,11 @@ class CombinedDecoder(Decoder):
                                                                       self.buffer_structures[cluster_id])
         good_bits: NDArray[np.bool_] = valid_bits_p > 1 - self.valid_threshold
         bad_bits: NDArray[np.bool_] = valid_bits_p < self.invalid_thr
-        good_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] > 1 - self.valid_threshold]
-        bad_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] < self.invalid_thr]
+        # fields unknown to the model have no validity
+        good_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p)
+                                      if vfp is not None and vfp[1] > 1 - self.valid_threshold]
+        bad_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p)
+                                     if vfp is not None and vfp[1] < self.invalid_thr]
 
         if self.mavlink_learning:  # if model is being learned, need to add a confidence factor to the rectification
             def model_confidence(model_size: int, center: float, slope: float) -> np.float_:
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 523a9f0..c954703 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -158,8 +158,11 @@ class CombinedUnifiedDecoder(Decoder):
                                                                       self.buffer_structures[cluster_id])
         good_bits: NDArray[np.bool_] = valid_bits_p > 1 - self.valid_threshold
         bad_bits: NDArray[np.bool_] = valid_bits_p < self.invalid_thr
-        good_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] > 1 - self.valid_threshold]
-        bad_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] < self.invalid_thr]
+        # fields unknown to the model have no validity
+        good_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p)
+                                      if vfp is not None and vfp[1] > 1 - self.valid_threshold]
+        bad_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p)
+                                     if vfp is not None and vfp[1] < self.invalid_thr]
 
         if self.mavlink_learning:  # if model is being learned, need to add a confidence factor to the rectification
             def model_confidence(model_size: int, center: float, slope: float) -> np.float_:
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 3f120a6..e1cfd30 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -175,8 +175,11 @@ class MavlinkRectifyingDecoder(Decoder):
                                                                       self.buffer_structures[cluster_id])
         good_bits: NDArray[np.bool_] = valid_bits_p > 1 - self.valid_threshold
         bad_bits: NDArray[np.bool_] = valid_bits_p < self.invalid_thr
-        good_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] > 1 - self.valid_threshold]
-        bad_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] < self.invalid_thr]
+        # fields unknown to the model have no validity
+        good_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p)
+                                      if vfp is not None and vfp[1] > 1 - self.valid_threshold]
+        bad_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p)
+                                     if vfp is not None and vfp[1] < self.invalid_thr]
 
         if self.learning:  # if model is being learned, need to add a confidence factor to the rectification
             def model_confidence(model_size: int, center: float, slope: float) -> np.float_:
diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index 85cc362..78d1109 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -381,7 +381,8 @@ class BufferModel:
         mean_values = np.zeros(buffer_len*8, dtype=np.uint8)
         for field_idx, field_name, field_type in zip(range(len(ordered_field_names)),
                                                      ordered_field_names, ordered_field_types):
-            mean_values[bit_2_val_idx == field_idx] = num2bits(self._field_models[field_name].mean, field_type)
+            if field_name in self._field_models:  # fields which were never observed have no mean
+                mean_values[bit_2_val_idx == field_idx] = num2bits(self._field_models[field_name].mean, field_type)
         return mean_values[bits_idx]
 
 
-- 
2.43.0


From e8a345879d5050ff5cf74697eb5562e71af09d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:05 +0000
Subject: [PATCH 05/50] fix: bit models always have a column per bit value

The alphabet was inferred from the data, so buffers of equal bits (dead air) gave one column and the decoders raised IndexError.
---
 decoders/classifiying_decoder.py     |  2 +-
 decoders/combined_decoder.py         |  2 +-
 decoders/combined_unified_decoder.py |  2 +-
 decoders/entropy_bitwise_decoder.py  |  8 ++++----
 inference/clustering.py              |  2 +-
 utils/information_theory.py          | 12 ++++++++----
 6 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index 625c325..e60e111 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -154,7 +154,7 @@ class ClassifyingEntropyDecoder(Decoder):
             # trim old messages according to window
             self.models_data[cluster_id] = self.models_data[cluster_id][
                                            :, self.models_data[cluster_id].shape[1] - self.window_length:]
-        dist = prob(self.models_data[cluster_id])
+        dist = prob(self.models_data[cluster_id], alphabet=[0, 1])
         v = dist[:, 1]
         p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
         self.distributions[cluster_id] = np.column_stack((1 - p1, p1))
diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 5d03341..1134f96 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -111,7 +111,7 @@ class CombinedDecoder(Decoder):
             # trim old messages according to window
             self.entropy_models_data[cluster_id] = self.entropy_models_data[cluster_id][
                                                    :, self.entropy_models_data[cluster_id].shape[1] - self.window_length:]
-        dist = prob(self.entropy_models_data[cluster_id])
+        dist = prob(self.entropy_models_data[cluster_id], alphabet=[0, 1])
         v = dist[:, 1]
         p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
         self.distributions[cluster_id] = np.column_stack((1 - p1, p1))
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index c954703..8dcd8e9 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -121,7 +121,7 @@ class CombinedUnifiedDecoder(Decoder):
             # trim old messages according to window
             self.entropy_models_data[cluster_id] = self.entropy_models_data[cluster_id][
                                                    :, self.entropy_models_data[cluster_id].shape[1] - self.window_length:]
-        dist = prob(self.entropy_models_data[cluster_id])
+        dist = prob(self.entropy_models_data[cluster_id], alphabet=[0, 1])
         v = dist[:, 1]
         p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
         self.distributions[cluster_id] = np.column_stack((1 - p1, p1))
diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 3816b25..1e51ce1 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -97,7 +97,7 @@ class EntropyBitwiseDecoder(Decoder):
         if (self.window_length is not None) and self.model_data.shape[1] > self.window_length:
             # trim old messages according to window
             self.model_data = self.model_data[:, self.model_data.shape[1] - self.window_length:]
-        self.distribution = prob(self.model_data)
+        self.distribution = prob(self.model_data, alphabet=[0, 1])
         self.entropy = entropy(self.distribution)
 
     def model_prediction(self, observation: NDArray[np.float_]) -> NDArray[np.float_]:
@@ -207,7 +207,7 @@ class EntropyBitwiseFlippingDecoder(Decoder):
         if (self.window_length is not None) and self.model_data.shape[1] > self.window_length:
             # trim old messages according to window
             self.model_data = self.model_data[:, self.model_data.shape[1] - self.window_length:]
-        self.distribution = prob(self.model_data)
+        self.distribution = prob(self.model_data, alphabet=[0, 1])
         self.entropy = entropy(self.distribution)
 
     def model_prediction(self, observation: NDArray[np.int_]) -> NDArray[np.int_]:
@@ -372,7 +372,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             if (self.window_length is not None) and self.model_a_data.shape[1] > self.window_length:
                 # trim old messages according to window
                 self.model_a_data = self.model_a_data[:, self.model_a_data.shape[1] - self.window_length:]
-            self.a_distribution = prob(self.model_a_data)
+            self.a_distribution = prob(self.model_a_data, alphabet=[0, 1])
             if self.corrected_dist:
                 v = self.a_distribution[:, 1]
                 p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
@@ -424,7 +424,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             if (self.window_length is not None) and self.model_b_data.shape[1] > self.window_length:
                 # trim old messages according to window
                 self.model_b_data = self.model_b_data[:, self.model_b_data.shape[1] - self.window_length:]
-            self.b_distribution = prob(self.model_b_data)
+            self.b_distribution = prob(self.model_b_data, alphabet=[0, 1])
             if self.corrected_dist:
                 v = self.b_distribution[:, 1]
                 p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
diff --git a/inference/clustering.py b/inference/clustering.py
index 489486d..0a08062 100644
--- a/inference/clustering.py
+++ b/inference/clustering.py
@@ -63,7 +63,7 @@ class BufferClassifier:
         self.samples += 1
         if self.samples < self.min_data_size:
             sample = np.array(buffer, dtype=np.int_)[np.newaxis].T
-            self.__add_cluster(prob(sample))
+            self.__add_cluster(prob(sample, alphabet=[0, 1]))
             return -1
         if not self.init:
             self.merge_clusters()
diff --git a/utils/information_theory.py b/utils/information_theory.py
index 84cbe60..9f3740e 100644
--- a/utils/information_theory.py
+++ b/utils/information_theory.py
@@ -6,10 +6,12 @@ from utils.custom_exceptions import UnsupportedDtype
 import numpy.typing as npt
 
 
-def prob_with_alphabet(data: npt.NDArray[Any]) -> tuple[npt.NDArray[np.float_], list[Any]]:
+def prob_with_alphabet(data: npt.NDArray[Any], alphabet: Optional[list[Any]] = None) -> \
+        tuple[npt.NDArray[np.float_], list[Any]]:
     """Estimate the probability distribution given samples. Doesn't work with floating point values.
 
     :param data: a 1D or 2D numpy array. Each row is a dimension and each column an observation
+    :param alphabet: optional, the alphabet of 2D data. If None, it is inferred from the data.
     :return: a tuple: prob, alphabet. prob is a 2D array of probabilities. Rows are RV dimension, and columns
     are alphabet size, alphabet is a list with the inferred alphabet.
     """
@@ -18,7 +20,8 @@ def prob_with_alphabet(data: npt.NDArray[Any]) -> tuple[npt.NDArray[np.float_],
     # TODO - add ability to return joint distribution - can be done with np.unique along axis
 
     if data.ndim == 2:
-        alphabet: list[Any] = np.unique(data).tolist()
+        if alphabet is None:
+            alphabet = np.unique(data).tolist()
         alphabet_size = len(alphabet)
         pr: npt.NDArray[np.float_] = np.zeros((data.shape[0], alphabet_size))
         num_samples = data.shape[1]
@@ -39,13 +42,14 @@ def prob_with_alphabet(data: npt.NDArray[Any]) -> tuple[npt.NDArray[np.float_],
         raise ValueError("only scalar and vector RV's currently supported (dim=1,2)")
 
 
-def prob(data: npt.NDArray[Any]) -> npt.NDArray[np.float_]:
+def prob(data: npt.NDArray[Any], alphabet: Optional[list[Any]] = None) -> npt.NDArray[np.float_]:
     """A wrapper around prob_with_alphabet which doesn't return the alphabet.
 
     :param data: a 1D or 2D numpy array. Each row is a dimension and each column an observation
+    :param alphabet: optional, the alphabet of 2D data. If None, it is inferred from the data.
     :return: a 2D array of probabilities. Rows are RV dimension, and columns are alphabet size.
     """
-    pr, alphabet = prob_with_alphabet(data)
+    pr, _ = prob_with_alphabet(data, alphabet)
     return pr
 
 
-- 
2.43.0


From df60157cc04d3fa94bb84796a2e2db1e58e74833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:05 +0000
Subject: [PATCH 06/50] fix: classify and learn each buffer once in the
 field-based decoder

With segmentation_iterations > 1 the same buffer was classified (and the round robin advanced) and learned once per iteration. While the
classifier was training, buffers were learned into the last cluster (label -1).
---
 decoders/mavlink_decoder.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index e1cfd30..ecf53cc 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -97,18 +97,18 @@ class MavlinkRectifyingDecoder(Decoder):
         channel_bits: NDArray[np.int_] = np.array(channel_llr < 0, dtype=np.int_)
         decoder_input = channel_llr.copy()
         all_iteration = 0
-        for _ in range(self.segmentation_iterations):
-            if self.n_clusters > 1:
-                if self.cluster:
-                    label: int = self.classifier.classify(channel_bits[self.model_bits_idx])
-                    if label < 0:  # label is negative during training phase of classifier, don't try to use model to rectify
-                        return self.decode_and_update_model(channel_llr, label, channel_bits) + (np.array([]), [], [], {}, {})
-                else:
-                    self.running_idx = (self.running_idx + 1) % self.n_clusters
-                    label = self.running_idx
-            else:  # no clustering, single buffer type
-                label = 0
+        if self.n_clusters > 1:
+            if self.cluster:
+                label: int = self.classifier.classify(channel_bits[self.model_bits_idx])
+                if label < 0:  # label is negative during training phase of classifier, don't try to use model to rectify
+                    return self.ldpc_decoder.decode(channel_llr) + (label, np.array([]), [], [], {}, {})
+            else:
+                self.running_idx = (self.running_idx + 1) % self.n_clusters
+                label = self.running_idx
+        else:  # no clustering, single buffer type
+            label = 0
 
+        for _ in range(self.segmentation_iterations):
             segmented_bits: NDArray[np.bool_]
             good_fields_idx: list[int]
             bad_fields_idx: list[int]
@@ -118,11 +118,12 @@ class MavlinkRectifyingDecoder(Decoder):
             bad_bits: NDArray[np.int_]
             decoder_input, good_bits, bad_bits, good_fields_idx, bad_fields_idx, n_fields, forced_bits, \
                 segmented_bits = self.model_prediction(decoder_input, label)
-            estimate, decoder_input, decode_success, iterations, syndrome, vnode_validity, \
-                label = self.decode_and_update_model(decoder_input, label, channel_bits)
+            estimate, decoder_input, decode_success, iterations, syndrome, \
+                vnode_validity = self.ldpc_decoder.decode(decoder_input)
             all_iteration += iterations
             if decode_success:
                 break
+        self.update_model(estimate, decode_success, label, channel_bits)
         if self.debug:
             classifier_performance = self.classifier_analysis(good_fields_idx, bad_fields_idx, error_idx, n_fields,
                                                               label)
@@ -134,9 +135,9 @@ class MavlinkRectifyingDecoder(Decoder):
         return estimate, decoder_input, decode_success, all_iteration, syndrome, vnode_validity, label, \
             segmented_bits, good_fields_idx, bad_fields_idx, classifier_performance, forcing_performance
 
-    def decode_and_update_model(self, llr, label, channel_bits) -> tuple[
-        NDArray[np.int_], NDArray[np.float_], bool, int, NDArray[np.int_], NDArray[np.int_], int]:
-        estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(llr)
+    def update_model(self, estimate: NDArray[np.int_], decode_success: bool, label: int,
+                     channel_bits: NDArray[np.int_]) -> None:
+        """update the model once per received buffer"""
         if self.learning:
             if decode_success:  # buffer fully recovered
                 if self.buffer_structures[label] is None:
@@ -146,7 +147,6 @@ class MavlinkRectifyingDecoder(Decoder):
                 self.model.add_buffer(estimate, self.buffer_structures[label])
             elif self.buffer_structures[label] is not None:  # update model from channel if data is bad
                 self.model.add_buffer(channel_bits, self.buffer_structures[label])
-        return estimate, llr, decode_success, iterations, syndrome, vnode_validity, label
 
     def set_buffer_structures(self, buffer_structures: Sequence[dict[int, int]]) -> None:
         """sets the buffer structures to use for decoding
-- 
2.43.0


From 24303cd02f130c46a153c58b34dc50fb8d87fb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:05 +0000
Subject: [PATCH 07/50] fix: do not write the model's llr into the caller's
 received word

---
 decoders/classifying_DUDE_decoder.py | 1 +
 inference/entropy_mle.py             | 1 +
 2 files changed, 2 insertions(+)

diff --git a/decoders/classifying_DUDE_decoder.py b/decoders/classifying_DUDE_decoder.py
index eb321e1..64b13c2 100644
--- a/decoders/classifying_DUDE_decoder.py
+++ b/decoders/classifying_DUDE_decoder.py
@@ -98,6 +98,7 @@ class ClassifyingDudeDecoder(Decoder):
         #         self.model_bits_idx[self.models_entropy[label] < self.entropy_threshold], label
         clipping = self.clipping_factor * max(np.abs(channel_llr))  # llr s clipped within +-clipping
         model_llr = self.model_prediction(channel_bits, label)  # type: ignore
+        channel_llr = channel_llr.copy()  # the received word belongs to the caller
         channel_llr[self.model_bits_idx] += model_llr
         channel_llr = np.clip(channel_llr, -clipping, clipping)
         denoised_bits = np.array(channel_llr < 0, dtype=np.int_)
diff --git a/inference/entropy_mle.py b/inference/entropy_mle.py
index 944586d..cfe59a9 100644
--- a/inference/entropy_mle.py
+++ b/inference/entropy_mle.py
@@ -54,6 +54,7 @@ class EMLE:
         :param observation_llr: the llr of the buffer to denoise
         :return: a tuple (estimate, cost) where estimate is the denoised sample and cost is the cost of the estimate
         """
+        observation_llr = observation_llr.copy()  # the observation belongs to the caller
         structural_elements: NDArray[np.int_] = self.model_entropy < self.threshold
         if not structural_elements.any():  # no structural elements found
             return observation_llr
-- 
2.43.0


From d91f24be3af6762b21e614084c83b07f1fc9da76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:05 +0000
Subject: [PATCH 08/50] fix: models keep no references to arrays the caller may
 overwrite

The first learned buffer was a view of the decoded bits returned to the caller; given models, structures and matrices were not copied.
---
 decoders/classifiying_decoder.py     | 2 +-
 decoders/combined_decoder.py         | 4 ++--
 decoders/combined_unified_decoder.py | 4 ++--
 decoders/entropy_bitwise_decoder.py  | 4 ++--
 decoders/mavlink_decoder.py          | 2 +-
 inference/dude.py                    | 8 ++++----
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index e60e111..b306095 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -40,7 +40,7 @@ class ClassifyingEntropyDecoder(Decoder):
             self.models_entropy: list[NDArray[np.float_]] = [np.array([]) for _ in range(n_clusters)]
             self.train_models = True
         else:
-            self.distributions = [data_model[:model_length, :] for _ in range(n_clusters)]
+            self.distributions = [data_model[:model_length, :].copy() for _ in range(n_clusters)]
             self.models_entropy = [entropy(self.distributions[cluster_id]) for cluster_id in range(n_clusters)]
             self.train_models = False
         self.conf_center = conf_center
diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 1134f96..b1b624d 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -103,7 +103,7 @@ class CombinedDecoder(Decoder):
             print(self.model_length)
             print(len(bits))
             raise IncorrectBufferLength()
-        arr = bits[np.newaxis]
+        arr = bits.copy()[np.newaxis]  # the decoded bits are handed to the caller
 
         self.entropy_models_data[cluster_id] = arr.T if self.entropy_models_data[cluster_id].size == 0 else \
             np.append(self.entropy_models_data[cluster_id], arr.T, axis=1)
@@ -129,7 +129,7 @@ class CombinedDecoder(Decoder):
         if len(buffer_structures) != self.n_clusters:
             raise ValueError(f"Number of buffer structures ({len(buffer_structures)}) does not match number of clusters "
                              f"({self.n_clusters})")
-        self.buffer_structures = buffer_structures
+        self.buffer_structures = list(buffer_structures)
 
     def mavlink_model_prediction(self, observation: NDArray[np.float_], cluster_id: int) -> \
             tuple[
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 8dcd8e9..38984de 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -113,7 +113,7 @@ class CombinedUnifiedDecoder(Decoder):
             print(self.model_length)
             print(len(bits))
             raise IncorrectBufferLength()
-        arr = bits[np.newaxis]
+        arr = bits.copy()[np.newaxis]  # the decoded bits are handed to the caller
 
         self.entropy_models_data[cluster_id] = arr.T if self.entropy_models_data[cluster_id].size == 0 else \
             np.append(self.entropy_models_data[cluster_id], arr.T, axis=1)
@@ -139,7 +139,7 @@ class CombinedUnifiedDecoder(Decoder):
         if len(buffer_structures) != self.n_clusters:
             raise ValueError(f"Number of buffer structures ({len(buffer_structures)}) does not match number of clusters "
                              f"({self.n_clusters})")
-        self.buffer_structures = buffer_structures
+        self.buffer_structures = list(buffer_structures)
 
     def mavlink_model_prediction(self, observation: NDArray[np.float_], cluster_id: int) -> \
             tuple[
diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 1e51ce1..e7205e1 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -42,7 +42,7 @@ class EntropyBitwiseDecoder(Decoder):
         self.window_length = window_length
         if model is not None:
             self.model_length = min(model.shape[0], self.model_bits_idx.size)
-            self.distribution: NDArray[np.float_] = model[:self.model_length, :]  # estimated distribution model
+            self.distribution: NDArray[np.float_] = model[:self.model_length, :].copy()  # estimated distribution model
             self.entropy: NDArray[np.float_] = entropy(self.distribution)  # estimated entropy of distribution model
             self.predefined_model = True
         else:
@@ -151,7 +151,7 @@ class EntropyBitwiseFlippingDecoder(Decoder):
         self.window_length = window_length
         if model is not None:
             self.model_length = min(model.shape[0], self.model_bits_idx.size)
-            self.distribution: NDArray[np.float_] = model[:self.model_length, :]  # estimated distribution model
+            self.distribution: NDArray[np.float_] = model[:self.model_length, :].copy()  # estimated distribution model
             self.entropy: NDArray[np.float_] = entropy(self.distribution)  # estimated entropy of distribution model
             self.predefined_model = True
         else:
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index ecf53cc..0738f7e 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -156,7 +156,7 @@ class MavlinkRectifyingDecoder(Decoder):
         if len(buffer_structures) != self.n_clusters:
             raise ValueError(f"Number of buffer structures ({len(buffer_structures)}) does not match number of clusters "
                              f"({self.n_clusters})")
-        self.buffer_structures = buffer_structures
+        self.buffer_structures = list(buffer_structures)
 
     def model_prediction(self, observation: NDArray[np.float_], cluster_id: int) -> \
             tuple[
diff --git a/inference/dude.py b/inference/dude.py
index 34e77f6..18c5d92 100644
--- a/inference/dude.py
+++ b/inference/dude.py
@@ -17,10 +17,10 @@ class OnlineDude:
         output a probability of the input being 1.
         :param alphabet_size: the size of the alphabet
         """
-        self.channel_transition_matrix = channel_transition_matrix
+        self.channel_transition_matrix = np.array(channel_transition_matrix)
         self.inverse_channel_transition_matrix = np.linalg.inv(channel_transition_matrix)
 
-        self.loss_matrix = loss_matrix
+        self.loss_matrix = np.array(loss_matrix)
         self.k = k
         self.alphabet_size = alphabet_size
         self.contexts = {}
@@ -125,10 +125,10 @@ class DUDE:
         output a probability of the input being 1.
         :param alphabet_size: the size of the alphabet
         """
-        self.channel_transition_matrix = channel_transition_matrix
+        self.channel_transition_matrix = np.array(channel_transition_matrix)
         self.inverse_channel_transition_matrix = np.linalg.inv(channel_transition_matrix)
 
-        self.loss_matrix = loss_matrix
+        self.loss_matrix = np.array(loss_matrix)
         self.k = k
         self.alphabet_size = alphabet_size
         self.hard_decision = hard_decision
-- 
2.43.0


From 6f9c22f5b3943e359f1c5506fa4042fa62846729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:05 +0000
Subject: [PATCH 09/50] fix: clip to the strongest received value whatever its
 sign

With max(llr) a word without positive values was clipped to an empty range, one with weak zeros lost its ones.
---
 decoders/classifiying_decoder.py    | 2 +-
 decoders/entropy_bitwise_decoder.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index b306095..1c640da 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -107,7 +107,7 @@ class ClassifyingEntropyDecoder(Decoder):
         #         self.model_bits_idx[self.models_entropy[label] < self.entropy_threshold], label
         model_llr = self.model_prediction(len(channel_llr), label)  # type: ignore
         if isinstance(self.ldpc_decoder, LogSpaDecoder):
-            clipping = self.clipping_factor * max(channel_llr)  # llr s clipped within +-clipping
+            clipping = self.clipping_factor * max(np.abs(channel_llr))  # llr s clipped within +-clipping
             model_llr = np.clip(channel_llr + model_llr, -clipping, clipping)
             estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(model_llr)
         elif isinstance(self.ldpc_decoder, WbfDecoder):  # wbf decoder
diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index e7205e1..e80dffd 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -113,7 +113,7 @@ class EntropyBitwiseDecoder(Decoder):
         llr = observation.copy()
         if self.predefined_model or (self.model_data.size > 0 and self.model_data.shape[1] >= self.min_data):
             # if sufficient previous data exists
-            clipping = self.clipping_factor * max(llr)  # llr s clipped within +-clipping
+            clipping = self.clipping_factor * max(np.abs(llr))  # llr s clipped within +-clipping
             llr[self.structural_elements] += np.clip(  # add model llr to the observation
                 np.log(
                     (np.finfo(np.float_).eps + self.distribution[:, 0]) / (self.distribution[:, 1] + np.finfo(np.float_).eps)
@@ -490,7 +490,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
         elif self.confidence_scheme == 5:  # ignore good model
             a_confidence = 0
 
-        clipping = self.clipping_factor * max(llr)  # llr s clipped within +-clipping
+        clipping = self.clipping_factor * max(np.abs(llr))  # llr s clipped within +-clipping
         # model llr is calculated as log(Pr(c=0 | model) / Pr(c=1| model))
         # add model llr to the observation
         if a_confidence > 0:
-- 
2.43.0


From eabac0fb02352342982223a077eeb6c2919a1f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:05 +0000
Subject: [PATCH 10/50] fix: debug mode works before the structure of a buffer
 is known

---
 decoders/combined_decoder.py         | 4 +++-
 decoders/combined_unified_decoder.py | 4 +++-
 decoders/mavlink_decoder.py          | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index b1b624d..40c2107 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -142,7 +142,7 @@ class CombinedDecoder(Decoder):
         :return: rectified observation, good bits, bad bits, good fields, bad fields, segmented bits
         """
         if self.buffer_structures[cluster_id] is None:
-            return observation, np.array([]), np.array([]), [], [], 0, np.array([]), np.array([])
+            return observation, np.array([]), np.array([]), [], [], 0, np.array([], dtype=np.int_), np.array([])
         # non mavlink bits are nan
         valid_field_p, valid_bits_p, bitwise_std = self.model.predict(np.array(observation < 0, dtype=np.int_),
                                                                       self.buffer_structures[cluster_id])
@@ -225,6 +225,8 @@ class CombinedDecoder(Decoder):
         # if not damaged:
         #     return {}
         # damaged_fields = np.array(tuple({field[1] for field in damaged}))
+        if self.buffer_structures[label] is None:
+            return {}
         buffer_len_bits = len(rx)
         bits_confusion_matrix = confusion(forced_bits, error_idx, buffer_len_bits - len(error_idx))
         # forced_fields = np.array([idx for idx, vfp in enumerate(valid_field_p) if (vfp[1] <= 0 and vfp[2] == 0)],
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 38984de..8b8dd6d 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -152,7 +152,7 @@ class CombinedUnifiedDecoder(Decoder):
         :return: rectified observation, good bits, bad bits, good fields, bad fields, segmented bits
         """
         if self.buffer_structures[cluster_id] is None:
-            return observation, np.array([]), np.array([]), [], [], 0, np.array([]), np.array([])
+            return observation, np.array([]), np.array([]), [], [], 0, np.array([], dtype=np.int_), np.array([])
         # non mavlink bits are nan
         valid_field_p, valid_bits_p, bitwise_std = self.model.predict(np.array(observation < 0, dtype=np.int_),
                                                                       self.buffer_structures[cluster_id])
@@ -255,6 +255,8 @@ class CombinedUnifiedDecoder(Decoder):
         # if not damaged:
         #     return {}
         # damaged_fields = np.array(tuple({field[1] for field in damaged}))
+        if self.buffer_structures[label] is None:
+            return {}
         buffer_len_bits = len(rx)
         bits_confusion_matrix = confusion(forced_bits, error_idx, buffer_len_bits - len(error_idx))
         # forced_fields = np.array([idx for idx, vfp in enumerate(valid_field_p) if (vfp[1] <= 0 and vfp[2] == 0)],
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 0738f7e..45f4424 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -169,7 +169,7 @@ class MavlinkRectifyingDecoder(Decoder):
         :return: rectified observation, good bits, bad bits, good fields, bad fields, segmented bits
         """
         if self.buffer_structures[cluster_id] is None:
-            return observation, np.array([]), np.array([]), [], [], 0, np.array([]), np.array([])
+            return observation, np.array([]), np.array([]), [], [], 0, np.array([], dtype=np.int_), np.array([])
         # non mavlink bits are nan
         valid_field_p, valid_bits_p, bitwise_std = self.model.predict(np.array(observation < 0, dtype=np.int_),
                                                                       self.buffer_structures[cluster_id])
@@ -252,6 +252,8 @@ class MavlinkRectifyingDecoder(Decoder):
         # if not damaged:
         #     return {}
         # damaged_fields = np.array(tuple({field[1] for field in damaged}))
+        if self.buffer_structures[label] is None:
+            return {}
         buffer_len_bits = len(rx)
         bits_confusion_matrix = confusion(forced_bits, error_idx, buffer_len_bits - len(error_idx))
         # forced_fields = np.array([idx for idx, vfp in enumerate(valid_field_p) if (vfp[1] <= 0 and vfp[2] == 0)],
-- 
2.43.0


From fca2360086f3dcced91e87b627166f906d99277b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:05 +0000
Subject: [PATCH 11/50] fix: confidence scheme 2 of the weighted decoder was
 unreachable

---
 decoders/entropy_bitwise_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index e80dffd..31475af 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -477,7 +477,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             if s > 0:
                 a_confidence *= a_confidence / s
                 b_confidence *= b_confidence / s
-        elif self.confidence_scheme == 1:  # normalize sum but prefer "good" model
+        elif self.confidence_scheme == 2:  # normalize sum but prefer "good" model
             s = 2 * a_confidence + b_confidence
             if s > 0:
                 a_confidence *= 2 * a_confidence / s
-- 
2.43.0


From 3552855e2e9c7c57c46b708cf08c8bf07001c47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:05 +0000
Subject: [PATCH 12/50] fix: confidence scheme 4 of the weighted decoder before
 both models hold data

The variance was undefined with MLE and zero, the value of a perfect model, with Bayes.
---
 decoders/entropy_bitwise_decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 31475af..b736eca 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -272,13 +272,13 @@ class EntropyBitwiseWeightedDecoder(Decoder):
         self.estimator = estimator
         self.bit_flip = bit_flip
         self.corrected_dist = corrected_dist
+        self.a_normalized_variance = np.inf  # nothing is known yet
+        self.b_normalized_variance = np.inf
         if estimator == "Bayes":
             self.a_ones_prior = np.ones(len(self.model_bits_idx), dtype=np.int_)
             self.a_zeros_prior = np.ones(len(self.model_bits_idx), dtype=np.int_)
             self.b_ones_prior = np.ones(len(self.model_bits_idx), dtype=np.int_)
             self.b_zeros_prior = np.ones(len(self.model_bits_idx), dtype=np.int_)
-            self.a_normalized_variance = 0.0
-            self.b_normalized_variance = 0.0
             self.min_size = window_length
             self.max_size = 2 * window_length
         else:  # use MLE
-- 
2.43.0


From 8fc46262e35ecd0552e38210936c2091cae9cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:05 +0000
Subject: [PATCH 13/50] fix: a model whose only structural bit is the first one
 is used

---
 decoders/classifiying_decoder.py     | 4 ++--
 decoders/combined_decoder.py         | 2 +-
 decoders/combined_unified_decoder.py | 2 +-
 decoders/entropy_bitwise_decoder.py  | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index 1c640da..90b84d9 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -174,7 +174,7 @@ class ClassifyingEntropyDecoder(Decoder):
         structural_elements: NDArray[np.int_] = self.model_bits_idx[
             self.models_entropy[cluster_id] < self.entropy_threshold]
 
-        if not structural_elements.any():  # no structural elements found
+        if structural_elements.size == 0:  # no structural elements found
             return llr
         if self.train_models:
             size = self.models_data[cluster_id].shape[1] if self.models_data[cluster_id].size > 0 else 0
@@ -228,7 +228,7 @@ class ClassifyingEntropyDecoder(Decoder):
                 if size>= self.window_length:
                     structural_elements: NDArray[np.int_] = self.model_bits_idx[
                         self.models_entropy[0] < self.entropy_threshold]
-                    if structural_elements.any():
+                    if structural_elements.size > 0:
                         samples[structural_elements] = model_bits[structural_elements]
         return samples, priors
 
diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 40c2107..d5b75e7 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -80,7 +80,7 @@ class CombinedDecoder(Decoder):
         structural_elements: NDArray[np.int_] = self.model_bits_idx[
             self.models_entropy[cluster_id] < self.entropy_threshold]
 
-        if not structural_elements.any():  # no structural elements found
+        if structural_elements.size == 0:  # no structural elements found
             return None
 
         size = self.entropy_models_data[cluster_id].shape[1] if self.entropy_models_data[cluster_id].size > 0 else 0
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 8b8dd6d..dd43ec8 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -90,7 +90,7 @@ class CombinedUnifiedDecoder(Decoder):
         structural_elements: NDArray[np.int_] = self.model_bits_idx[
             self.models_entropy[cluster_id] < self.entropy_threshold]
 
-        if not structural_elements.any():  # no structural elements found
+        if structural_elements.size == 0:  # no structural elements found
             return None
 
         size = self.entropy_models_data[cluster_id].shape[1] if self.entropy_models_data[cluster_id].size > 0 else 0
diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index b736eca..ed76b49 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -456,7 +456,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
         a_structural_elements: NDArray[np.int_] = self.model_bits_idx[self.a_entropy < self.entropy_threshold]
         b_structural_elements: NDArray[np.int_] = self.model_bits_idx[self.b_entropy < self.entropy_threshold]
 
-        if (not a_structural_elements.any()) and (not b_structural_elements.any()):  # no structural elements found
+        if a_structural_elements.size == 0 and b_structural_elements.size == 0:  # no structural elements found
             return llr
 
         if self.estimator == "Bayes":
-- 
2.43.0


From 56fd2f3909f5e362a1e73f3da2a43da11190177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:05 +0000
Subject: [PATCH 14/50] fix: hard bits of a cluster are its majority

The count of ones was compared to the frequency of zeros.
---
 inference/clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/clustering.py b/inference/clustering.py
index 0a08062..08f9e61 100644
--- a/inference/clustering.py
+++ b/inference/clustering.py
@@ -15,7 +15,7 @@ class Cluster:
 
     @property
     def hard_bits(self) -> NDArray[np.int_]:
-        return np.array(self._data[:, 1] > self.dist[:, 0], dtype=np.int_)
+        return np.array(self._data[:, 1] > self._data[:, 0], dtype=np.int_)
 
     @property
     def dist(self) -> NDArray[np.float_]:
-- 
2.43.0


From ad7922efac42794440d595208e0b86a4c805c90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:05 +0000
Subject: [PATCH 15/50] fix: Hellinger distance of equal distributions is zero,
 not nan

Rounding could leave a tiny negative number under the root, and a nan distance stopped clusters from being merged.
---
 utils/information_theory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/information_theory.py b/utils/information_theory.py
index 9f3740e..7903d37 100644
--- a/utils/information_theory.py
+++ b/utils/information_theory.py
@@ -103,9 +103,9 @@ def hellinger(pk: npt.NDArray[Any], qk: npt.NDArray[Any]) -> npt.NDArray[np.floa
     row is a dimension, and the number of columns equals the support size.
     """
     if pk.ndim == 2 and qk.ndim == 2:
-        return np.sqrt(1 - np.sum(np.sqrt(pk * qk), axis=1))  # type: ignore
+        return np.sqrt(np.clip(1 - np.sum(np.sqrt(pk * qk), axis=1), 0, None))  # type: ignore
     if pk.ndim == 1 and qk.ndim == 1:
-        return np.sqrt(1 - np.sum(np.sqrt(pk * qk)))  # type: ignore
+        return np.sqrt(np.clip(1 - np.sum(np.sqrt(pk * qk)), 0, None))  # type: ignore
     raise ValueError("incorrect dimensions")
 
 
-- 
2.43.0


From cef0d0fca2b54ff7aef4e5ea9977913b1edfecff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:05 +0000
Subject: [PATCH 16/50] fix: means of 64 bit fields may round to a value out of
 range

---
 inference/statistical_models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index 78d1109..233c329 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -17,9 +17,10 @@ def num2bits(num, field_type: str) -> NDArray[np.uint8]:
     if field_type == "char":
         num = ord(num)
     elif "uint" in field_type:
-        num = int(round(num)) if num >= 0 else 0
+        num = min(max(int(round(num)), 0), 2 ** (8 * field_lengths[field_type]) - 1)
     elif "int" in field_type:
-        num = int(round(num))
+        limit = 2 ** (8 * field_lengths[field_type] - 1)
+        num = min(max(int(round(num)), -limit), limit - 1)
     elif field_type != "float":
         raise ValueError(f"field_type {field_type} is not supported")
     fmt = format_strings[field_type]
-- 
2.43.0


From 25e3824e4aecfd5cc686d5955acc9f8a0abfbc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:05 +0000
Subject: [PATCH 17/50] fix: Markov samples follow their predecessors

The context was taken from the not yet generated end of the sequence.
---
 utils/random_sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/random_sources.py b/utils/random_sources.py
index 2792bb1..fc00fbe 100644
--- a/utils/random_sources.py
+++ b/utils/random_sources.py
@@ -16,7 +16,7 @@ def generate_markov_samples(transition_matrix, initial_state, num_samples):
 
     # Generate samples
     for i in range(order, num_samples):
-        current_states = states[-order:]
+        current_states = states[i - order:i]
         probabilities = transition_matrix[tuple(current_states)]
         states[i] = np.random.choice(range(num_states), p=probabilities)
     return states
-- 
2.43.0


From d3d354d4390e9f26876147dc9175116588d1a523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:05 +0000
Subject: [PATCH 18/50] fix: repeated logger setup does not duplicate records

---
 utils/common_logging.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/common_logging.py b/utils/common_logging.py
index 0a70b66..4dc895d 100644
--- a/utils/common_logging.py
+++ b/utils/common_logging.py
@@ -7,6 +7,11 @@ def setup_logger(name=__name__, log_file='./log.log', level=logging.INFO):
     logger = logging.getLogger(name)
     logger.setLevel(level)
 
+    # replace handlers of a previous setup, otherwise each record would be written once per setup
+    for handler in list(logger.handlers):
+        logger.removeHandler(handler)
+        handler.close()
+
     # Create handlers
     c_handler = logging.StreamHandler(sys.stdout)
     f_handler = logging.FileHandler(log_file)
-- 
2.43.0


From a12d70b4dbb0485641768cfc45cf6d0f4b9ba339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:05 +0000
Subject: [PATCH 19/50] fix: the combined decoder learns only model bits

With a model shorter than the codeword it raised IncorrectBufferLength on the first buffer.
---
 decoders/combined_decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index d5b75e7..aff3b8b 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -300,7 +300,7 @@ class CombinedDecoder(Decoder):
                 elif self.buffer_structures[label] is not None:  # update model from channel if data is bad
                     self.model.add_buffer(channel_bits, self.buffer_structures[label])
             if decode_success:  # buffer fully recovered
-                self.update_entropy_model(estimate, label)
+                self.update_entropy_model(estimate[self.model_bits_idx], label)
             else:  # update model from channel if data is bad
-                self.update_entropy_model(channel_bits, label)
+                self.update_entropy_model(channel_bits[self.model_bits_idx], label)
         return estimate, llr, decode_success, iterations, label
-- 
2.43.0


From da07b97f9c00bd972bbe74d1c91f56d906936a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:05 +0000
Subject: [PATCH 20/50] fix: silent received word in the classifying decoder
 with bit flipping decoders

Normalising an all zero word gave nan.
---
 decoders/classifiying_decoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index 90b84d9..b27ce0e 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -204,7 +204,8 @@ class ClassifyingEntropyDecoder(Decoder):
                     samples = channel_sample + model_llr*max_sample/max(np.abs(model_llr))
                 else:
                     samples = channel_sample + model_llr
-                samples *= max_sample/max(np.abs(samples))
+                if max(np.abs(samples)) > 0:  # nothing to normalize otherwise
+                    samples *= max_sample/max(np.abs(samples))
                 return samples, priors
 
             ## Methods 1&2 are shit. Don't USE!!! Use only method 0 & 3 until fixed.
-- 
2.43.0


From 0fe36b25f01a63d248a6656925ff0ca8942f562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:27 +0000
Subject: [PATCH 21/50] fix: count damaged fields, not damaged bits, in the
 field classification report

---
 decoders/combined_decoder.py         | 4 ++--
 decoders/combined_unified_decoder.py | 4 ++--
 decoders/mavlink_decoder.py          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index aff3b8b..4601e0a 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -213,9 +213,9 @@ class CombinedDecoder(Decoder):
         if not damaged:
             return {}
         damaged_fields = np.array(tuple({field[1] for field in damaged}))
-        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged))
+        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged_fields))
         actual_good_fields = np.setdiff1d(np.arange(n_fields_in_buffer), damaged_fields)
-        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged))
+        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged_fields))
         return {"n_fields_in_buffer": n_fields_in_buffer, "n_damaged_fields_in_buffer": len(damaged_fields),
                 "good_fields_performance": good_fields_performance, "bad_fields_performance": bad_fields_performance}
 
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index dd43ec8..f5c6859 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -243,9 +243,9 @@ class CombinedUnifiedDecoder(Decoder):
         if not damaged:
             return {}
         damaged_fields = np.array(tuple({field[1] for field in damaged}))
-        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged))
+        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged_fields))
         actual_good_fields = np.setdiff1d(np.arange(n_fields_in_buffer), damaged_fields)
-        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged))
+        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged_fields))
         return {"n_fields_in_buffer": n_fields_in_buffer, "n_damaged_fields_in_buffer": len(damaged_fields),
                 "good_fields_performance": good_fields_performance, "bad_fields_performance": bad_fields_performance}
 
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 45f4424..372a5cb 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -240,9 +240,9 @@ class MavlinkRectifyingDecoder(Decoder):
         if not damaged:
             return {}
         damaged_fields = np.array(tuple({field[1] for field in damaged}))
-        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged))
+        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged_fields))
         actual_good_fields = np.setdiff1d(np.arange(n_fields_in_buffer), damaged_fields)
-        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged))
+        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged_fields))
         return {"n_fields_in_buffer": n_fields_in_buffer, "n_damaged_fields_in_buffer": len(damaged_fields),
                 "good_fields_performance": good_fields_performance, "bad_fields_performance": bad_fields_performance}
 
-- 
2.43.0


From 4ce77a1abdbe1cb7979c7abd22f509ffffcbc025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:56 +0000
Subject: [PATCH 22/50] fix: report on the forced bits of a buffer before the
 model learns it

---
 decoders/mavlink_decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 372a5cb..51d3d2c 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -123,14 +123,14 @@ class MavlinkRectifyingDecoder(Decoder):
             all_iteration += iterations
             if decode_success:
                 break
-        self.update_model(estimate, decode_success, label, channel_bits)
-        if self.debug:
+        if self.debug:  # analyse before the model learns this buffer
             classifier_performance = self.classifier_analysis(good_fields_idx, bad_fields_idx, error_idx, n_fields,
                                                               label)
             forcing_performance = self.forcing_analysis(forced_bits, error_idx, channel_bits, label)
         else:
             classifier_performance = {}
             forcing_performance = {}
+        self.update_model(estimate, decode_success, label, channel_bits)
 
         return estimate, decoder_input, decode_success, all_iteration, syndrome, vnode_validity, label, \
             segmented_bits, good_fields_idx, bad_fields_idx, classifier_performance, forcing_performance
-- 
2.43.0


From fb10612a49a739b35bd6258d4e6f343c1cb4e440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:06 +0000
Subject: [PATCH 23/50] fix: get_msg_fields answers a pair also for a buffer
 with no message

---
 inference/buffer_segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/buffer_segmentation.py b/inference/buffer_segmentation.py
index e7642ca..4aef1d1 100644
--- a/inference/buffer_segmentation.py
+++ b/inference/buffer_segmentation.py
@@ -197,7 +197,7 @@ class BufferSegmentation:
         """
         msg_parts, bit_validity, buffer_structure = self.segment_buffer(buffer)
         if buffer_structure == {}:
-            return {}
+            return {}, []
         fields = {}
         buffer_description = []
         for k, v in buffer_structure.items():
-- 
2.43.0


From f15117840e555b56e91ec113277f9b82cc4f69fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:17 +0000
Subject: [PATCH 24/50] fix: minimal dialect: array.tostring no longer exists,
 every signed message raised AttributeError

---
 mavlink_utils/minimal_dialect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mavlink_utils/minimal_dialect.py b/mavlink_utils/minimal_dialect.py
index 2efaac9..5519bfd 100644
--- a/mavlink_utils/minimal_dialect.py
+++ b/mavlink_utils/minimal_dialect.py
@@ -2505,7 +2505,7 @@ class MAVLink(object):
         def check_signature(self, msgbuf, srcSystem, srcComponent):
             '''check signature on incoming message'''
             if isinstance(msgbuf, array.array):
-                msgbuf = msgbuf.tostring()
+                msgbuf = msgbuf.tobytes()
             timestamp_buf = msgbuf[-12:-6]
             link_id = msgbuf[-13]
             (tlow, thigh) = self.mav_sign_unpacker.unpack(timestamp_buf)
-- 
2.43.0


From 54bac35ffaa4d99fb1d506e3ea081037bcfb3a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:17 +0000
Subject: [PATCH 25/50] fix: signed messages could be replayed, and a forged
 one could lock out its stream

---
 mavlink_utils/HC_dialect.py      | 4 ++--
 mavlink_utils/minimal_dialect.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mavlink_utils/HC_dialect.py b/mavlink_utils/HC_dialect.py
index ce18dc0..0dbb826 100644
--- a/mavlink_utils/HC_dialect.py
+++ b/mavlink_utils/HC_dialect.py
@@ -8796,8 +8796,6 @@ class MAVLink(object):
                 if timestamp + 6000*1000 < self.signing.timestamp:
                     # print('bad new stream ', timestamp/(100.0*1000*60*60*24*365), self.signing.timestamp/(100.0*1000*60*60*24*365))
                     return False
-                self.signing.stream_timestamps[stream_key] = timestamp
-                # print('new stream')
 
             h = hashlib.new('sha256')
             h.update(self.signing.secret_key)
@@ -8813,6 +8811,8 @@ class MAVLink(object):
                 # print('sig mismatch')
                 return False
 
+            # only an authentic message moves the stream on, so that none is accepted twice and none can be locked out
+            self.signing.stream_timestamps[stream_key] = timestamp
             # the timestamp we next send with is the max of the received timestamp and
             # our current timestamp
             self.signing.timestamp = max(self.signing.timestamp, timestamp)
diff --git a/mavlink_utils/minimal_dialect.py b/mavlink_utils/minimal_dialect.py
index 5519bfd..1c897aa 100644
--- a/mavlink_utils/minimal_dialect.py
+++ b/mavlink_utils/minimal_dialect.py
@@ -2524,8 +2524,6 @@ class MAVLink(object):
                 if timestamp + 6000*1000 < self.signing.timestamp:
                     # print('bad new stream ', timestamp/(100.0*1000*60*60*24*365), self.signing.timestamp/(100.0*1000*60*60*24*365))
                     return False
-                self.signing.stream_timestamps[stream_key] = timestamp
-                # print('new stream')
 
             h = hashlib.new('sha256')
             h.update(self.signing.secret_key)
@@ -2541,6 +2539,8 @@ class MAVLink(object):
                 # print('sig mismatch')
                 return False
 
+            # only an authentic message moves the stream on, so that none is accepted twice and none can be locked out
+            self.signing.stream_timestamps[stream_key] = timestamp
             # the timestamp we next send with is the max of the received timestamp and
             # our current timestamp
             self.signing.timestamp = max(self.signing.timestamp, timestamp)
-- 
2.43.0


From 66c999370f62c1e1da6e353efd13d34ab42fbe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:50 +0000
Subject: [PATCH 26/50] fix: asking whether a damaged or truncated buffer
 adheres to a structure raised instead of answering no

---
 inference/buffer_segmentation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inference/buffer_segmentation.py b/inference/buffer_segmentation.py
index 4aef1d1..5ff4ae6 100644
--- a/inference/buffer_segmentation.py
+++ b/inference/buffer_segmentation.py
@@ -63,8 +63,9 @@ class BufferStructure:
         :param buffer: candidate buffer
         """
         for idx, msg_id in self.structure.items():
-            hdr = FrameHeader.from_buffer(buffer[idx:idx + meta.header_len])
-            if hdr.msg_id != msg_id:
+            hdr = buffer[idx:idx + meta.header_len]
+            # a damaged buffer may be too short, or hold a msg id which doesn't exist
+            if len(hdr) != meta.header_len or hdr[5] != msg_id:
                 return False
         return True
 
-- 
2.43.0


From 2e8a4e8247c506251257e5da930eeecfd8ef4618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:23 +0000
Subject: [PATCH 27/50] fix: bit forcing (reliability method 3) used the model
 of cluster 0 for every cluster

---
 decoders/classifiying_decoder.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index b27ce0e..2ce7412 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -113,12 +113,12 @@ class ClassifyingEntropyDecoder(Decoder):
         elif isinstance(self.ldpc_decoder, WbfDecoder):  # wbf decoder
             # Use WBF only with AWGN since it assumes a specific relationship between priors and LLR
             # The more positive the reliability is, the less reliable the value is
-            samples, priors = self._sample_and_priors(channel_llr, model_llr)
+            samples, priors = self._sample_and_priors(channel_llr, model_llr, label)
             estimate, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(samples,
                                                                                                       priors)
             llr = np.array([])
         elif isinstance(self.ldpc_decoder, GalBfDecoder):
-            samples, _ = self._sample_and_priors(channel_llr, model_llr)
+            samples, _ = self._sample_and_priors(channel_llr, model_llr, label)
             if samples.dtype != np.int_:  # convert to hard bits
                 hard_channel_bits = np.array(samples < 0, dtype=np.int_)
             else:
@@ -192,7 +192,7 @@ class ClassifyingEntropyDecoder(Decoder):
 
         return llr
 
-    def _sample_and_priors(self, channel_sample: NDArray[np.float_], model_llr: NDArray[np.float_]):
+    def _sample_and_priors(self, channel_sample: NDArray[np.float_], model_llr: NDArray[np.float_], cluster_id: int):
         """The method returns a modified channel sample and priors depending on the method used and inputs"""
         max_sample = max(np.abs(channel_sample))
         samples = channel_sample
@@ -225,10 +225,10 @@ class ClassifyingEntropyDecoder(Decoder):
             if self.reliability_method == 3:  # Used for forcing th bits in the GalBfDecoder
                 model_bits = np.array(model_llr < 0, dtype=np.int_)
                 samples = np.array(channel_sample < 0, dtype=np.int_)
-                size = self.models_data[0].shape[1] if self.models_data[0].size > 0 else 0
+                size = self.models_data[cluster_id].shape[1] if self.models_data[cluster_id].size > 0 else 0
                 if size>= self.window_length:
                     structural_elements: NDArray[np.int_] = self.model_bits_idx[
-                        self.models_entropy[0] < self.entropy_threshold]
+                        self.models_entropy[cluster_id] < self.entropy_threshold]
                     if structural_elements.size > 0:
                         samples[structural_elements] = model_bits[structural_elements]
         return samples, priors
-- 
2.43.0


From e91a1f3b6774b9f0a847df1e57752f29b86e564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:39 +0000
Subject: [PATCH 28/50] fix: encode integer arrays in the runner scripts, as
 the pinned ldpc encoder requires

---
 .../classifying_entropy_decoder_over_awgn_channel.py | 12 ++++++------
 .../simulated_data_classifying_dude_decoder.py       | 12 ++++++------
 .../simulated_data_combined_decoder.py               | 12 ++++++------
 .../simulated_data_mavlink_decoding.py               | 12 ++++++------
 .../simulated_data_pretrained_model.py               |  2 +-
 5 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py b/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
index 6bddc43..e2b56bd 100644
--- a/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
+++ b/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
@@ -86,17 +86,17 @@ encoded = []
 for binary_data in hc_bin_data[:n]:
     if args.n_clusters == 1:
         pad_len = encoder.k - len(binary_data)
-        padded = binary_data + Bits(auto=rng.integers(low=0, high=2, size=pad_len))
+        padded = np.array(binary_data + Bits(auto=rng.integers(low=0, high=2, size=pad_len)), dtype=np.int_)
         encoded.append(encoder.encode(padded))
     elif args.n_clusters == 2:
-        padded = binary_data[:576] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k-576))
-        encoded.extend((encoder.encode(padded), encoder.encode(binary_data[576:])))
+        padded = np.array(binary_data[:576] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k-576)), dtype=np.int_)
+        encoded.extend((encoder.encode(padded), encoder.encode(np.array(binary_data[576:], dtype=np.int_))))
     elif args.n_clusters == 3:
-        padded = binary_data[:416] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k-416))
+        padded = np.array(binary_data[:416] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k-416)), dtype=np.int_)
         encoded.append(encoder.encode(padded))
-        padded = binary_data[416:864] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (864-416)))
+        padded = np.array(binary_data[416:864] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (864-416))), dtype=np.int_)
         encoded.append(encoder.encode(padded))
-        padded = binary_data[864:] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (1224-864)))
+        padded = np.array(binary_data[864:] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (1224-864))), dtype=np.int_)
         encoded.append(encoder.encode(padded))
 
 for _ in range(args.multiply_data):  # generate more buffers for statistical reproducibility
diff --git a/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py b/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py
index d893e7c..21c7f92 100644
--- a/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py
+++ b/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py
@@ -67,18 +67,18 @@ encoded = []
 for binary_data in hc_bin_data[:n]:
     if args.n_clusters == 1:
         pad_len = encoder.k - len(binary_data)
-        padded = binary_data + Bits(auto=rng.integers(low=0, high=2, size=pad_len))
+        padded = np.array(binary_data + Bits(auto=rng.integers(low=0, high=2, size=pad_len)), dtype=np.int_)
         encoded.append(encoder.encode(padded))
     elif args.n_clusters == 2:
-        padded = binary_data[:576] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 576))
+        padded = np.array(binary_data[:576] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 576)), dtype=np.int_)
         encoded.append(encoder.encode(padded))
-        encoded.append(encoder.encode(binary_data[576:]))
+        encoded.append(encoder.encode(np.array(binary_data[576:], dtype=np.int_)))
     elif args.n_clusters == 3:
-        padded = binary_data[:416] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 416))
+        padded = np.array(binary_data[:416] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 416)), dtype=np.int_)
         encoded.append(encoder.encode(padded))
-        padded = binary_data[416:864] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (864 - 416)))
+        padded = np.array(binary_data[416:864] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (864 - 416))), dtype=np.int_)
         encoded.append(encoder.encode(padded))
-        padded = binary_data[864:] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (1224 - 864)))
+        padded = np.array(binary_data[864:] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (1224 - 864))), dtype=np.int_)
         encoded.append(encoder.encode(padded))
 
 for _ in range(args.multiply_data):  # generate more buffers for statistical reproducibility
diff --git a/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py b/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py
index 2670fd2..97c095b 100644
--- a/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py
+++ b/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py
@@ -79,17 +79,17 @@ encoded = []
 for binary_data in hc_bin_data[:n]:
     if args.n_clusters == 1:
         pad_len = encoder.k - len(binary_data)
-        padded = binary_data + Bits(auto=rng.integers(low=0, high=2, size=pad_len))
+        padded = np.array(binary_data + Bits(auto=rng.integers(low=0, high=2, size=pad_len)), dtype=np.int_)
         encoded.append(encoder.encode(padded))
     elif args.n_clusters == 2:
-        padded = binary_data[:576] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 576))
-        encoded.extend((encoder.encode(padded), encoder.encode(binary_data[576:])))
+        padded = np.array(binary_data[:576] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 576)), dtype=np.int_)
+        encoded.extend((encoder.encode(padded), encoder.encode(np.array(binary_data[576:], dtype=np.int_))))
     elif args.n_clusters == 3:
-        padded = binary_data[:416] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 416))
+        padded = np.array(binary_data[:416] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 416)), dtype=np.int_)
         encoded.append(encoder.encode(padded))
-        padded = binary_data[416:864] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (864 - 416)))
+        padded = np.array(binary_data[416:864] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (864 - 416))), dtype=np.int_)
         encoded.append(encoder.encode(padded))
-        padded = binary_data[864:] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (1224 - 864)))
+        padded = np.array(binary_data[864:] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (1224 - 864))), dtype=np.int_)
         encoded.append(encoder.encode(padded))
 
 for _ in range(args.multiply_data):  # generate more buffers for statistical reproducibility
diff --git a/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py b/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
index e74d37b..91d26c6 100644
--- a/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
+++ b/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
@@ -75,17 +75,17 @@ encoded = []
 for binary_data in hc_bin_data[:n]:
     if args.n_clusters == 1:
         pad_len = encoder.k - len(binary_data)
-        padded = binary_data + Bits(auto=rng.integers(low=0, high=2, size=pad_len))
+        padded = np.array(binary_data + Bits(auto=rng.integers(low=0, high=2, size=pad_len)), dtype=np.int_)
         encoded.append(encoder.encode(padded))
     elif args.n_clusters == 2:
-        padded = binary_data[:576] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 576))
-        encoded.extend((encoder.encode(padded), encoder.encode(binary_data[576:])))
+        padded = np.array(binary_data[:576] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 576)), dtype=np.int_)
+        encoded.extend((encoder.encode(padded), encoder.encode(np.array(binary_data[576:], dtype=np.int_))))
     elif args.n_clusters == 3:
-        padded = binary_data[:416] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 416))
+        padded = np.array(binary_data[:416] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - 416)), dtype=np.int_)
         encoded.append(encoder.encode(padded))
-        padded = binary_data[416:864] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (864 - 416)))
+        padded = np.array(binary_data[416:864] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (864 - 416))), dtype=np.int_)
         encoded.append(encoder.encode(padded))
-        padded = binary_data[864:] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (1224 - 864)))
+        padded = np.array(binary_data[864:] + Bits(auto=rng.integers(low=0, high=2, size=encoder.k - (1224 - 864))), dtype=np.int_)
         encoded.append(encoder.encode(padded))
 
 for _ in range(args.multiply_data):  # generate more buffers for statistical reproducibility
diff --git a/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py b/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
index 385a043..ed30043 100644
--- a/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
+++ b/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
@@ -60,7 +60,7 @@ encoder = EncoderWiFi(spec=spec)
 encoded = []
 for binary_data in hc_bin_data[:n]:
     pad_len = encoder.k - len(binary_data)
-    padded = binary_data + Bits(auto=rng.integers(low=0, high=2, size=pad_len))
+    padded = np.array(binary_data + Bits(auto=rng.integers(low=0, high=2, size=pad_len)), dtype=np.int_)
     encoded.append(encoder.encode(padded))
 
 for _ in range(args.multiply_data):  # generate more buffers for statistical reproducibility
-- 
2.43.0


From 9e6ed408fb443408f547c504d0be4fdf4121193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:39 +0000
Subject: [PATCH 29/50] fix: draw the channel noise of every simulation step
 independently of the other workers

---
 .../classifying_entropy_decoder_over_awgn_channel.py            | 2 +-
 runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py   | 1 +
 .../simulated_data_classifying_dude_decoder.py                  | 1 +
 .../simulated_data_classifying_entropy_decoder.py               | 1 +
 runs/HC_eilat_July_2018/simulated_data_combined_decoder.py      | 1 +
 runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py      | 1 +
 runs/HC_eilat_July_2018/simulated_data_pretrained_model.py      | 2 +-
 7 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py b/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
index e2b56bd..4cd4a5b 100644
--- a/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
+++ b/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
@@ -123,9 +123,9 @@ def simulation_step(snr: float) -> dict[str, Any]:
     global spec
     global encoder
     global logger
-    global rng
     global thr
     global clipping_factor
+    rng = np.random.default_rng()  # forked workers share the parent's generator state
 
     if args.snr_scale == 'db':
         snr_linear = 10 ** (snr / 10)
diff --git a/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py b/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py
index c7996a8..e196c73 100644
--- a/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py
+++ b/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py
@@ -82,6 +82,7 @@ def simulation_step(p: float) -> dict[str, Any]:
     global spec
     global encoded
     global h
+    rng = np.random.default_rng()  # forked workers share the parent's generator state
 
     snr_linear = p
     noise_power = 1 / snr_linear
diff --git a/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py b/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py
index 21c7f92..621556a 100644
--- a/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py
+++ b/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py
@@ -108,6 +108,7 @@ def simulation_step(p: float) -> dict[str, Any]:
     global args
     global n
     global spec
+    rng = np.random.default_rng()  # forked workers share the parent's generator state
     channel = bsc_llr(p=p)
     ldpc_decoder = DecoderWiFi(spec=spec, max_iter=ldpc_iterations, decoder_type=args.dec_type)
     dude_decoder = ClassifyingDudeDecoder(DecoderWiFi(spec=spec, max_iter=ldpc_iterations,
diff --git a/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py b/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py
index 56d0e98..9a312f6 100644
--- a/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py
+++ b/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py
@@ -117,6 +117,7 @@ def simulation_step(p: float) -> dict[str, Any]:
     global spec
     global encoded
     global h
+    rng = np.random.default_rng()  # forked workers share the parent's generator state
 
     if args.channel_type == "bsc":
         channel = bsc_llr(p=p)
diff --git a/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py b/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py
index 97c095b..96db5a5 100644
--- a/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py
+++ b/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py
@@ -141,6 +141,7 @@ def simulation_step(p: float) -> dict[str, Any]:
     global logger
     global thr
     global clipping_factor
+    rng = np.random.default_rng()  # forked workers share the parent's generator state
 
     channel = bsc_llr(p=p)
     ldpc_decoder = DecoderWiFi(spec=spec, max_iter=ldpc_iterations, decoder_type=args.dec_type)
diff --git a/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py b/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
index 91d26c6..7cd71ed 100644
--- a/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
+++ b/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
@@ -136,6 +136,7 @@ def simulation_step(p: float) -> dict[str, Any]:
     global encoder
     global buffer_structures
     global logger
+    rng = np.random.default_rng()  # forked workers share the parent's generator state
 
     channel = bsc_llr(p=p)
     ldpc_decoder = DecoderWiFi(spec=spec, max_iter=args.segiterations * ldpc_iterations, decoder_type=args.dec_type)
diff --git a/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py b/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
index ed30043..8cbf272 100644
--- a/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
+++ b/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
@@ -89,10 +89,10 @@ def simulation_step(p: float) -> dict[str, Any]:
     global spec
     global encoder
     global logger
-    global rng
     global thr
     global clipping_factor
     global data_model
+    rng = np.random.default_rng()  # forked workers share the parent's generator state
 
     channel = bsc_llr(p=p)
     ldpc_decoder = DecoderWiFi(spec=spec, max_iter=ldpc_iterations, decoder_type=args.dec_type)
-- 
2.43.0


From babd9bcebb43712fce430a4ddc547bea03756b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:39 +0000
Subject: [PATCH 30/50] fix: save a command that repeats the run it was saved
 for

---
 .../classifying_entropy_decoder_over_awgn_channel.py          | 4 ++--
 runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py | 2 +-
 runs/HC_eilat_July_2018/simulate_gallager_bf.py               | 2 +-
 .../simulated_data_classifying_dude_decoder.py                | 2 +-
 .../simulated_data_classifying_entropy_decoder.py             | 2 +-
 runs/HC_eilat_July_2018/simulated_data_combined_decoder.py    | 2 +-
 runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py    | 2 +-
 runs/HC_eilat_July_2018/simulated_data_pretrained_model.py    | 4 ++--
 8 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py b/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
index 4cd4a5b..c21d3e1 100644
--- a/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
+++ b/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
@@ -247,9 +247,9 @@ if __name__ == '__main__':
           f'--msg_delay {args.msg_delay} --dec_type {args.dec_type} --classifier_train {args.classifier_train} ' \
           f'--n_clusters {args.n_clusters} --cluster {args.cluster} --delta {args.delta} ' \
           f'--conf_center {args.conf_center} --model_length {args.model_length} ' \
-          f'--conf_slope {args.conf_slope} --entropy_threshold {thr} --clipping_factor {clipping_factor}'
+          f'--conf_slope {args.conf_slope} --ent_threshold {thr} --clipping_factor {clipping_factor}'
     if args.N > 0:
-        cmd += f' --N {n}'
+        cmd += f' --N {args.N}'
     if window_len is not None:
         cmd += f' --window_len {window_len}'
     else:
diff --git a/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py b/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py
index e196c73..225be60 100644
--- a/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py
+++ b/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py
@@ -266,7 +266,7 @@ if __name__ == '__main__':
     else:
         cmd += ' --window_len 0'
     if args.N > 0:
-        cmd += f' --N {n}'
+        cmd += f' --N {args.N}'
     if processes is not None:
         cmd += f' --processes {processes}'
 
diff --git a/runs/HC_eilat_July_2018/simulate_gallager_bf.py b/runs/HC_eilat_July_2018/simulate_gallager_bf.py
index 0efe8e3..ab84494 100644
--- a/runs/HC_eilat_July_2018/simulate_gallager_bf.py
+++ b/runs/HC_eilat_July_2018/simulate_gallager_bf.py
@@ -192,7 +192,7 @@ if __name__ == '__main__':
     else:
         cmd += ' --window_len 0'
     if args.N > 0:
-        cmd += f' --N {n}'
+        cmd += f' --N {args.N}'
 
     os.mkdir(path)
     with open(os.path.join(path, "cmd.txt"), 'w') as f:
diff --git a/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py b/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py
index 621556a..865164a 100644
--- a/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py
+++ b/runs/HC_eilat_July_2018/simulated_data_classifying_dude_decoder.py
@@ -215,7 +215,7 @@ if __name__ == '__main__':
           f'--cluster {args.cluster} --model_length {args.model_length} --context_length {args.context_length}'
 
     if args.N > 0:
-        cmd += f' --N {n}'
+        cmd += f' --N {args.N}'
     if processes is not None:
         cmd += f' --processes {processes}'
 
diff --git a/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py b/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py
index 9a312f6..c927875 100644
--- a/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py
+++ b/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py
@@ -271,7 +271,7 @@ if __name__ == '__main__':
     else:
         cmd += ' --window_len 0'
     if args.N > 0:
-        cmd += f' --N {n}'
+        cmd += f' --N {args.N}'
     if processes is not None:
         cmd += f' --processes {processes}'
 
diff --git a/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py b/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py
index 96db5a5..eb39a5b 100644
--- a/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py
+++ b/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py
@@ -290,7 +290,7 @@ if __name__ == '__main__':
           f'--conf_slope {args.conf_slope} --learn {args.learn} --ent_threshold {thr} --clipping_factor {clipping_factor} ' \
           f'--flip {args.flip}'
     if args.N > 0:
-        cmd += f' --N {n}'
+        cmd += f' --N {args.N}'
     if window_len is not None:
         cmd += f' --window_len {window_len}'
     else:
diff --git a/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py b/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
index 7cd71ed..8fd412e 100644
--- a/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
+++ b/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
@@ -255,7 +255,7 @@ if __name__ == '__main__':
           f'--valid_factor {args.valid_factor} --invalid_factor {args.invalid_factor} --conf_center {args.conf_center} ' \
           f'--conf_slope {args.conf_slope} --learn {args.learn}'
     if args.N > 0:
-        cmd += f' --N {n}'
+        cmd += f' --N {args.N}'
     if window_len is not None:
         cmd += f' --window_len {window_len}'
     else:
diff --git a/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py b/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
index 8cbf272..22cb646 100644
--- a/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
+++ b/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
@@ -213,9 +213,9 @@ if __name__ == '__main__':
     cmd = f'python {__file__} --minflip {args.minflip} --maxflip {args.maxflip} --nflips {args.nflips}  ' \
           f'--ldpciterations {ldpc_iterations} --multiply_data {args.multiply_data} --msg_delay {args.msg_delay} ' \
           f'--dec_type {args.dec_type} --conf_center {args.conf_center} --model_length {args.model_length} ' \
-          f'--conf_slope {args.conf_slope} --entropy_threshold {thr} --clipping_factor {clipping_factor}'
+          f'--conf_slope {args.conf_slope} --ent_threshold {thr} --clipping_factor {clipping_factor}'
     if args.N > 0:
-        cmd += f' --N {n}'
+        cmd += f' --N {args.N}'
     if window_len is not None:
         cmd += f' --window_len {window_len}'
     else:
-- 
2.43.0


From 395e1cc368aaa88b38433e3f760ac5111156bf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:39 +0000
Subject: [PATCH 31/50] fix: count information and parity errors of the AWGN
 runs from the error mask

---
 .../classifying_entropy_decoder_over_awgn_channel.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py b/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
index c21d3e1..ecc71f3 100644
--- a/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
+++ b/runs/HC_eilat_July_2018/classifying_entropy_decoder_over_awgn_channel.py
@@ -176,8 +176,8 @@ def simulation_step(snr: float) -> dict[str, Any]:
     if n-bp_success > 0:
         logger.info(f"NR recovery rate for snr= {snr}, is: {(entropy_success-bp_success)/(n-bp_success)}")
     # log data
-    info_errors = np.sum(errors < encoder.k, axis=1)
-    parity_errors = np.sum(errors >= encoder.k, axis=1)
+    info_errors = np.sum(errors[:, :encoder.k], axis=1)
+    parity_errors = np.sum(errors[:, encoder.k:], axis=1)
     zipped = [[np.array(en, dtype=np.int_), r, er, inf, pa] for en, r, er, inf, pa in
               zip(encoded, rx, errors, info_errors, parity_errors)]
     step_results["data"] = pd.DataFrame(zipped, columns=["encoded", "corrupted", "error_idx", "info_errors",
-- 
2.43.0


From 18c540d17074da138568d82c6f2c23ec71aaa020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:39 +0000
Subject: [PATCH 32/50] fix: define the data model when the MAVLink run
 clusters and learns

---
 runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py b/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
index 8fd412e..57ce2fa 100644
--- a/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
+++ b/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
@@ -92,8 +92,8 @@ for _ in range(args.multiply_data):  # generate more buffers for statistical rep
     encoded.extend(encoded)
 n = len(encoded)
 # {0: 33, 52: 234, 72: 30, 108: 212, 135: 218}
+data_model = None
 if not bool(args.cluster):
-    data_model = None
     bs = BufferSegmentation(meta.protocol_parser)
     if args.n_clusters == 1:
         _, _, buffer_structure = bs.segment_buffer(binary_data.tobytes())
-- 
2.43.0


From f2268eea3f5d73f1f387dfefbab425aaae5d054c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:39 +0000
Subject: [PATCH 33/50] fix: log a failed simulation step in the run's own log

---
 .../HC_eilat_July_2018/simulated_data_combined_decoder.py | 8 ++++----
 .../HC_eilat_July_2018/simulated_data_mavlink_decoding.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py b/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py
index eb39a5b..ab0337c 100644
--- a/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py
+++ b/runs/HC_eilat_July_2018/simulated_data_combined_decoder.py
@@ -302,11 +302,11 @@ if __name__ == '__main__':
         f.write(cmd)
     logger.info(cmd)
 
-    with Pool(processes=processes) as pool:
-        results: list[dict[str, Any]] = pool.map(simulation_step, bit_flip_p)
-    # results: list[dict[str, Any]] = list(map(simulation_step, bit_flip_p))
-
     try:
+        with Pool(processes=processes) as pool:
+            results: list[dict[str, Any]] = pool.map(simulation_step, bit_flip_p)
+        # results: list[dict[str, Any]] = list(map(simulation_step, bit_flip_p))
+
         # with lzma.open(
         #         os.path.join(path, f'{timestamp}_simulation_nr_{args.dec_type}_decoder_WiFi.xz'),
         #         "wb") as f:
diff --git a/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py b/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
index 57ce2fa..7392d87 100644
--- a/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
+++ b/runs/HC_eilat_July_2018/simulated_data_mavlink_decoding.py
@@ -267,11 +267,11 @@ if __name__ == '__main__':
         f.write(cmd)
     logger.info(cmd)
 
-    with Pool(processes=processes) as pool:
-        results: list[dict[str, Any]] = pool.map(simulation_step, bit_flip_p)
-    # results: list[dict[str, Any]] = list(map(simulation_step, bit_flip_p))
-
     try:
+        with Pool(processes=processes) as pool:
+            results: list[dict[str, Any]] = pool.map(simulation_step, bit_flip_p)
+        # results: list[dict[str, Any]] = list(map(simulation_step, bit_flip_p))
+
         with lzma.open(
                 os.path.join(path, f'{timestamp}_simulation_rectifying_{args.dec_type}_decoder_WiFi.xz'),
                 "wb") as f:
-- 
2.43.0


From 94add574e8dc30966a4eb9430a94da28b4342147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:39 +0000
Subject: [PATCH 34/50] fix: keep one BF step's iteration limit out of the next
 step of the same worker

---
 runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py b/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py
index 225be60..11918e0 100644
--- a/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py
+++ b/runs/HC_eilat_July_2018/simluated_data_entropy_bf_decoders.py
@@ -73,7 +73,6 @@ logger = setup_logger(name=__file__, log_file=os.path.join("results/", 'log.log'
 
 
 def simulation_step(p: float) -> dict[str, Any]:
-    global ldpc_iterations
     global model_length
     global thr
     global args
@@ -94,7 +93,7 @@ def simulation_step(p: float) -> dict[str, Any]:
     ms_decoder = DecoderWiFi(spec=spec, max_iter=20, decoder_type="MS")
     m, nn = h.shape
     k = nn - m
-    ldpc_iterations = max(int(3*p*nn), ldpc_iterations)
+    ldpc_iterations = max(int(3*p*nn), args.ldpciterations)
     wbf_decoder = WbfDecoder(h=h, max_iter=ldpc_iterations, decoder_variant=WbfVariant.WBF,
                               info_idx=np.array([True] * k + [False] * m))
     wbf_entropy_decoder = ClassifyingEntropyDecoder(
-- 
2.43.0


From 7d03b0e800e70da2be9ee6c3ef7fddb5a5360759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:39 +0000
Subject: [PATCH 35/50] fix: entropy runs with BF over a BSC and with BP or MS
 over AWGN

---
 .../simulated_data_classifying_entropy_decoder.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py b/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py
index c927875..96c7b1f 100644
--- a/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py
+++ b/runs/HC_eilat_July_2018/simulated_data_classifying_entropy_decoder.py
@@ -174,7 +174,7 @@ def simulation_step(p: float) -> dict[str, Any]:
             noise = sigma * rng.normal(size=len(baseband))
             # channel: y_i = x_i + n_i, i.e. add noise
             noisy = baseband + noise
-            channel_llr = noisy
+            channel_llr = noisy if args.dec_type == "BF" else channel(noisy)
             corrupted = noisy < 0
             errors[tx_idx] = encoded[tx_idx] ^ corrupted
         rx[tx_idx] = corrupted
@@ -208,7 +208,7 @@ def simulation_step(p: float) -> dict[str, Any]:
                                       columns=["estimate", "llr", "decode_success", "iterations", "syndrome",
                                                "vnode_validity", "dist", "structural_idx", "cluster_label", "hamming"])
     step_results["decoded_entropy"] = decoded_entropy_df
-    if args.channel_type == "bsc":
+    if args.dec_type != "BF":
         decoded_ldpc_df = pd.DataFrame(decoded_ldpc,
                                        columns=["estimate", "llr", "decode_success", "iterations", "syndrome",
                                                 "vnode_validity", "hamming"])
-- 
2.43.0


From 3bec1b509cea9fdffee8e2c286c740e72d8df915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:50 +0000
Subject: [PATCH 36/50] fix: report the pre-trained recovery rate only when
 there was something to recover

---
 runs/HC_eilat_July_2018/simulated_data_pretrained_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py b/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
index 22cb646..90362e6 100644
--- a/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
+++ b/runs/HC_eilat_July_2018/simulated_data_pretrained_model.py
@@ -140,7 +140,7 @@ def simulation_step(p: float) -> dict[str, Any]:
     logger.info(f"successful pre-trained decoding for bit flip p= {p}, is: {pre_trained_success}/{n}")
     if n-pure_success > 0:
         logger.info(f"NR recovery rate for bit flip p= {p}, is: {(entropy_success-pure_success)/(n-pure_success)}")
-    if n-pre_trained_success > 0:
+    if n-pure_success > 0:
         logger.info(f"pre-trained recovery rate for bit flip p= {p}, is: "
                     f"{(pre_trained_success-pure_success)/(n-pure_success)}")
     # log data
-- 
2.43.0


From 7e513717a34a15d843d11371821855b310da6c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:06 +0000
Subject: [PATCH 37/50] fix: honour --learn in the MAVLink field-trial analyses

---
 runs/Feb_2022/experimental_mavlink_based.py | 2 +-
 runs/Feb_2023/experimental_mavlink_based.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/runs/Feb_2022/experimental_mavlink_based.py b/runs/Feb_2022/experimental_mavlink_based.py
index fb25d7b..cc26365 100644
--- a/runs/Feb_2022/experimental_mavlink_based.py
+++ b/runs/Feb_2022/experimental_mavlink_based.py
@@ -49,7 +49,7 @@ else:
 k = 984
 bs = BufferSegmentation(meta.protocol_parser)
 _, _, buffer_structure = bs.segment_buffer(np.packbits(tx[0, :k]).tobytes())  # segment first buffer to get structure
-data_model = BufferModel.load('data/model_2022.json')
+data_model = None if bool(args.learn) else BufferModel.load('data/model_2022.json')
 h = AList.from_file("spec/4098_3095_non_sys_h.alist")
 number_of_messages, n = rx.shape
 window_len = args.window_len if args.window_len > 0 else None
diff --git a/runs/Feb_2023/experimental_mavlink_based.py b/runs/Feb_2023/experimental_mavlink_based.py
index ae5ddc9..f90c5ec 100644
--- a/runs/Feb_2023/experimental_mavlink_based.py
+++ b/runs/Feb_2023/experimental_mavlink_based.py
@@ -77,7 +77,7 @@ else:
 
 bs = BufferSegmentation(meta.protocol_parser)
 _, _, buffer_structure = bs.segment_buffer(np.packbits(tx[0, :k]).tobytes())  # segment first buffer to get structure
-data_model = BufferModel.load('data/model_2023.json')
+data_model = None if bool(args.learn) else BufferModel.load('data/model_2023.json')
 number_of_messages, n = rx.shape
 window_len = args.window_len if args.window_len > 0 else None
 model_length = k
-- 
2.43.0


From 7479c6558c1f4a9c5e5274bd1b94148e31653cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:06 +0000
Subject: [PATCH 38/50] fix: save a repeatable command in the 2022 MAVLink
 field-trial analysis

---
 runs/Feb_2022/experimental_mavlink_based.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runs/Feb_2022/experimental_mavlink_based.py b/runs/Feb_2022/experimental_mavlink_based.py
index cc26365..9a64b98 100644
--- a/runs/Feb_2022/experimental_mavlink_based.py
+++ b/runs/Feb_2022/experimental_mavlink_based.py
@@ -79,7 +79,7 @@ logger.info(f"seg_iter: {args.segiterations}")
 
 cmd = f'python {__file__} --ldpciterations {ldpc_iterations}  --learn {args.learn} --segiterations {args.segiterations} ' \
       f'--valid_factor {args.valid_factor} --invalid_factor {args.invalid_factor} --valid_threshold {args.valid_threshold} ' \
-      f'--invalid_threshold {args.invalid_threshold} --window_len {window_len} --conf_center {args.conf_center} ' \
+      f'--invalid_threshold {args.invalid_threshold} --conf_center {args.conf_center} ' \
       f'--conf_slope {args.conf_slope} --dec_type {args.dec_type} --experiment_date {args.experiment_date}'
 
 if window_len is not None:
-- 
2.43.0


From c2716b71ab65a3ae363b52bc5503af1d1ff550fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:06 +0000
Subject: [PATCH 39/50] fix: save --separate_models in the command of the 2023
 field-trial analysis

---
 runs/Feb_2023/experimental_data_run_feb_23.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runs/Feb_2023/experimental_data_run_feb_23.py b/runs/Feb_2023/experimental_data_run_feb_23.py
index df588d2..3df93b2 100644
--- a/runs/Feb_2023/experimental_data_run_feb_23.py
+++ b/runs/Feb_2023/experimental_data_run_feb_23.py
@@ -101,7 +101,8 @@ logger.info(f"msg_type: {args.msg_type}")
 
 cmd = f'python {__file__} --ldpciterations {ldpc_iterations} --ent_threshold {thr} --clipping_factor {clipping_factor} ' \
       f'--conf_center {args.conf_center} --conf_slope {args.conf_slope} --dec_type {args.dec_type} --model_length ' \
-      f'{args.model_length} --experiment_date {args.experiment_date} --raw_ber {args.raw_ber} --msg_type {args.msg_type}'
+      f'{args.model_length} --experiment_date {args.experiment_date} --raw_ber {args.raw_ber} --msg_type {args.msg_type} ' \
+      f'--separate_models {args.separate_models}'
 if window_len is not None:
     cmd += f' --window_len {window_len}'
 else:
-- 
2.43.0


From 85e9cc1e2034a75c87a2fcdd4a129273329c9980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:54 +0000
Subject: [PATCH 40/50] fix: draw the noise of every step of the Rafael code
 simulation independently of the other workers

---
 runs/Feb_2022/simulation_rafael_code.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runs/Feb_2022/simulation_rafael_code.py b/runs/Feb_2022/simulation_rafael_code.py
index 2c8d14d..c36bf55 100644
--- a/runs/Feb_2022/simulation_rafael_code.py
+++ b/runs/Feb_2022/simulation_rafael_code.py
@@ -90,6 +90,7 @@ def simulation_step(p: float) -> dict[str, Any]:
     global word_len
     global h
     global logger
+    rng = np.random.default_rng()  # forked workers share the parent's generator state
     channel = bsc_llr(p=p)
     ldpc_decoder = LogSpaDecoder(h=h.to_array(), max_iter=ldpc_iterations, decoder_type=args.dec_type,
                                  info_idx=np.array([True] * k + [False] * (word_len - k)))
-- 
2.43.0


From 76ddde04e5020e6f975dfbde93b5b90f656d2f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:54 +0000
Subject: [PATCH 41/50] fix: save the number of transmissions asked for in the
 command of the Rafael code simulation

---
 runs/Feb_2022/simulation_rafael_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runs/Feb_2022/simulation_rafael_code.py b/runs/Feb_2022/simulation_rafael_code.py
index c36bf55..ca88aff 100644
--- a/runs/Feb_2022/simulation_rafael_code.py
+++ b/runs/Feb_2022/simulation_rafael_code.py
@@ -71,7 +71,7 @@ if window_len is not None:
 else:
     cmd += ' --window_len 0'
 if args.N > 0:
-    cmd += f' --N {n}'
+    cmd += f' --N {args.N}'
 if processes is not None:
     cmd += f' --processes {processes}'
 
-- 
2.43.0


From 44bd6ed6dcecf62d68fd36e65932c929546ca5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:54 +0000
Subject: [PATCH 42/50] fix: log a failed step of the Rafael code simulation in
 the run's own log

---
 runs/Feb_2022/simulation_rafael_code.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/runs/Feb_2022/simulation_rafael_code.py b/runs/Feb_2022/simulation_rafael_code.py
index ca88aff..504970e 100644
--- a/runs/Feb_2022/simulation_rafael_code.py
+++ b/runs/Feb_2022/simulation_rafael_code.py
@@ -186,11 +186,11 @@ if __name__ == '__main__':
         f.write(cmd)
     logger.info(cmd)
 
-    with Pool(processes=processes) as pool:
-        results: list[dict[str, Any]] = pool.map(simulation_step, bit_flip_p)
-    # results: list[dict[str, Any]] = list(map(simulation_step, bit_flip_p))
-
     try:
+        with Pool(processes=processes) as pool:
+            results: list[dict[str, Any]] = pool.map(simulation_step, bit_flip_p)
+        # results: list[dict[str, Any]] = list(map(simulation_step, bit_flip_p))
+
         os.mkdir(os.path.join(path, f'{timestamp}_simulation_entropy_vs_pure_LDPC_weighted_model_{args.dec_type}_decoder'))
         with lzma.open(
                 os.path.join(path, f'{timestamp}_simulation_rafael_code.xz'),
-- 
2.43.0


From d9341487049b9dfc20225ed92e24f49622135f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:56 +0000
Subject: [PATCH 43/50] fix: default to a day of the 2023 field trial in its
 unified analysis

---
 runs/Feb_2023/experimental_data_unified_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runs/Feb_2023/experimental_data_unified_decoder.py b/runs/Feb_2023/experimental_data_unified_decoder.py
index 5dc4871..bd29686 100644
--- a/runs/Feb_2023/experimental_data_unified_decoder.py
+++ b/runs/Feb_2023/experimental_data_unified_decoder.py
@@ -33,7 +33,7 @@ parser.add_argument("--conf_slope", default=0.35, help="slope of model sigmoid",
 parser.add_argument("--ent_threshold", default=0.36, help="entropy threshold to be used in entropy decoder", type=float)
 parser.add_argument("--clipping_factor", default=2, help="dictates maximal and minimal llr", type=int)
 parser.add_argument("--flip", default=0, help="should flip or not", type=int)
-parser.add_argument("--experiment_date", default="14", help="date of experiment", type=str)
+parser.add_argument("--experiment_date", default="17", help="date of experiment", type=str)
 parser.add_argument("--raw_ber", default=0, help="assumed input ber", type=float)
 parser.add_argument("--msg_type", default=0, help="telemrtry, 2023, 4048 or CDMA", type=int)
 parser.add_argument("--separate_models", default=0, help="use separate models for 2023, 4048 pics", type=int)
-- 
2.43.0


From 2cde45dfa8f0d5851d125c2f25ee7f8eec0f55a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:31 +0000
Subject: [PATCH 44/50] fix: match clusters to classes one to one

A class could be given to two clusters, leaving another class without any.
---
 runs/clsutering_analysis/functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runs/clsutering_analysis/functions.py b/runs/clsutering_analysis/functions.py
index 26c4c76..080a82d 100644
--- a/runs/clsutering_analysis/functions.py
+++ b/runs/clsutering_analysis/functions.py
@@ -33,6 +33,7 @@ def relabel(predicted_labels, n_classes, real_labels=None):
         true_label, predicted_label = np.unravel_index(reduced_prediction_counts.argmax(), reduced_prediction_counts.shape)
         labels_map[predicted_label] = true_label
         reduced_prediction_counts[:, predicted_label] = -1
+        reduced_prediction_counts[true_label, :] = -1
     tmp, remaining_predicted_label = np.unravel_index(reduced_prediction_counts.argmax(), reduced_prediction_counts.shape)
     remaining_true_label = np.setdiff1d(np.arange(n_classes), np.array(list(labels_map.values())))[0]
     labels_map[remaining_predicted_label] = remaining_true_label
-- 
2.43.0


From b58a02faba4053f89b6dd96a9012e9cefb60ead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:31 +0000
Subject: [PATCH 45/50] fix: split the buffers anew in each run of the
 clustering comparison

The split used numpy's global generator, whose state all worker processes inherit.
---
 runs/clsutering_analysis/clustering_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runs/clsutering_analysis/clustering_analysis.py b/runs/clsutering_analysis/clustering_analysis.py
index df3c421..24f1a00 100644
--- a/runs/clsutering_analysis/clustering_analysis.py
+++ b/runs/clsutering_analysis/clustering_analysis.py
@@ -79,7 +79,8 @@ def analyze(run_idx: int):
 
     if shuffle:
         X_train, X_test, y_train, y_test = train_test_split(
-            buffers, actual_classes, train_size=n_training, shuffle=True, stratify=actual_classes
+            buffers, actual_classes, train_size=n_training, shuffle=True, stratify=actual_classes,
+            random_state=int(rng.integers(2 ** 32))
         )
         buffers = np.vstack((X_train, X_test))
     else:
-- 
2.43.0


From 3ba8f707376d1ad10b02fd0d8d9e31e7e5a54f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:31 +0000
Subject: [PATCH 46/50] fix: save a command that repeats the clustering
 comparison

The options are integers: True and False are refused.
---
 runs/clsutering_analysis/clustering_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runs/clsutering_analysis/clustering_analysis.py b/runs/clsutering_analysis/clustering_analysis.py
index 24f1a00..1331e55 100644
--- a/runs/clsutering_analysis/clustering_analysis.py
+++ b/runs/clsutering_analysis/clustering_analysis.py
@@ -114,7 +114,7 @@ if __name__ == "__main__":
         logger.info(f"Starting {n_classes} classes, {p} p, {n_training} training, train with errors {train_with_errors}, "
                     f"shuffle {shuffle}, {number_of_runs} runs")
         cmd = f"python {__file__} --n_classes {n_classes} --p {p} --n_training {n_training} --train_with_errors " \
-              f"{train_with_errors} --shuffle {shuffle} --n_runs {number_of_runs}"
+              f"{int(train_with_errors)} --shuffle {int(shuffle)} --n_runs {number_of_runs} --n_jobs {n_jobs}"
         with open(os.path.join(path, "cmd.txt"), "w") as f:
             f.write(cmd)
         logger.info(cmd)
-- 
2.43.0


From 1b9f2ad58a482f89fe70e1aec936a4e52fafb08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:31 +0000
Subject: [PATCH 47/50] fix: do not move the log into the folder of an earlier
 clustering comparison

---
 runs/clsutering_analysis/clustering_analysis.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/runs/clsutering_analysis/clustering_analysis.py b/runs/clsutering_analysis/clustering_analysis.py
index 1331e55..ff2c89e 100644
--- a/runs/clsutering_analysis/clustering_analysis.py
+++ b/runs/clsutering_analysis/clustering_analysis.py
@@ -104,13 +104,13 @@ def analyze(run_idx: int):
 
 
 if __name__ == "__main__":
-    try:
-        timestamp = f'{str(datetime.date.today())}_{str(datetime.datetime.now().hour)}_' \
-                    f'{str(datetime.datetime.now().minute)}_' \
-                    f'{str(datetime.datetime.now().second)}'
+    timestamp = f'{str(datetime.date.today())}_{str(datetime.datetime.now().hour)}_' \
+                f'{str(datetime.datetime.now().minute)}_' \
+                f'{str(datetime.datetime.now().second)}'
 
-        path = os.path.join("results/", timestamp)
-        os.mkdir(path)
+    path = os.path.join("results/", timestamp)
+    os.mkdir(path)
+    try:
         logger.info(f"Starting {n_classes} classes, {p} p, {n_training} training, train with errors {train_with_errors}, "
                     f"shuffle {shuffle}, {number_of_runs} runs")
         cmd = f"python {__file__} --n_classes {n_classes} --p {p} --n_training {n_training} --train_with_errors " \
-- 
2.43.0


From f13838ee850581603694b1451918187241bd694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:31 +0000
Subject: [PATCH 48/50] fix: train without errors on clean buffers only and
 test on noisy ones

n_training counts buffers but was compared with the index of a transmission, and shuffled afterwards: without
training errors the training set had errors and the test set lacked them.
---
 runs/clsutering_analysis/clustering_analysis.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/runs/clsutering_analysis/clustering_analysis.py b/runs/clsutering_analysis/clustering_analysis.py
index ff2c89e..becd996 100644
--- a/runs/clsutering_analysis/clustering_analysis.py
+++ b/runs/clsutering_analysis/clustering_analysis.py
@@ -70,11 +70,6 @@ def analyze(run_idx: int):
                  class_idx * real_info_bits_per_buffer // n_classes:(class_idx + 1) * real_info_bits_per_buffer // n_classes],
                  rng.integers(low=0, high=2, size=pad_len))
             )  # pad with random bits
-            if no_errors > 0 and (train_with_errors or tx_idx >= n_training):
-                errors = rng.choice(k // n_classes, size=no_errors // n_classes, replace=False)
-                errors_bool = np.zeros(k, dtype=np.bool_)
-                errors_bool[errors] = True
-                buffers[tx_idx * n_classes + class_idx] = np.bitwise_xor(buffers[tx_idx * n_classes + class_idx], errors_bool)
             actual_classes[tx_idx * n_classes + class_idx] = class_idx
 
     if shuffle:
@@ -82,12 +77,17 @@ def analyze(run_idx: int):
             buffers, actual_classes, train_size=n_training, shuffle=True, stratify=actual_classes,
             random_state=int(rng.integers(2 ** 32))
         )
-        buffers = np.vstack((X_train, X_test))
     else:
         X_train, X_test, y_train, y_test = train_test_split(
             buffers, actual_classes, train_size=n_training, shuffle=False
         )
-        buffers = np.vstack((X_train, X_test))
+    if no_errors > 0:
+        for buffer in (*X_train, *X_test) if train_with_errors else X_test:
+            errors = rng.choice(k // n_classes, size=no_errors // n_classes, replace=False)
+            errors_bool = np.zeros(k, dtype=np.bool_)
+            errors_bool[errors] = True
+            buffer[:] = np.bitwise_xor(buffer, errors_bool)
+    buffers = np.vstack((X_train, X_test))
     clustering_labels = analyze_mine(buffers, n_buffers)
     clustering_labels, l_map = relabel(clustering_labels, n_classes, y_test)
     clustering_stats = stats(y_test, clustering_labels)
-- 
2.43.0


From 0dc469b134c2e181c2ecff8c628fec9972b46358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:49 +0000
Subject: [PATCH 49/50] fix: take the message structure from the first
 identified telemetry buffer of a trial, not from an unknown one

---
 runs/Feb_2022/experimental_data_unified_decoder.py | 3 ++-
 runs/Feb_2022/experimental_mavlink_based.py        | 3 ++-
 runs/Feb_2022/train_buffer_model.py                | 3 ++-
 runs/Feb_2023/experimental_data_unified_decoder.py | 3 ++-
 runs/Feb_2023/experimental_mavlink_based.py        | 3 ++-
 runs/Feb_2023/train_buffer_model.py                | 3 ++-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/runs/Feb_2022/experimental_data_unified_decoder.py b/runs/Feb_2022/experimental_data_unified_decoder.py
index e3a30a0..05dd48e 100644
--- a/runs/Feb_2022/experimental_data_unified_decoder.py
+++ b/runs/Feb_2022/experimental_data_unified_decoder.py
@@ -56,7 +56,8 @@ else:
 
 k = 984
 bs = BufferSegmentation(meta.protocol_parser)
-_, _, buffer_structure = bs.segment_buffer(np.packbits(tx[0, :k]).tobytes())  # segment first buffer to get structure
+first = np.argmax(np.packbits(tx[:, :8], axis=1)[:, 0] == 254)  # first identified telemetry buffer, unidentified ones are all 2
+_, _, buffer_structure = bs.segment_buffer(np.packbits(tx[first, :k]).tobytes())  # segment it to get structure
 h = AList.from_file("spec/4098_3095_non_sys_h.alist")
 number_of_messages, n = rx.shape
 window_len = args.window_len if args.window_len > 0 else None
diff --git a/runs/Feb_2022/experimental_mavlink_based.py b/runs/Feb_2022/experimental_mavlink_based.py
index 9a64b98..58a6a0b 100644
--- a/runs/Feb_2022/experimental_mavlink_based.py
+++ b/runs/Feb_2022/experimental_mavlink_based.py
@@ -48,7 +48,8 @@ else:
 
 k = 984
 bs = BufferSegmentation(meta.protocol_parser)
-_, _, buffer_structure = bs.segment_buffer(np.packbits(tx[0, :k]).tobytes())  # segment first buffer to get structure
+first = np.argmax(np.packbits(tx[:, :8], axis=1)[:, 0] == 254)  # first identified telemetry buffer, unidentified ones are all 2
+_, _, buffer_structure = bs.segment_buffer(np.packbits(tx[first, :k]).tobytes())  # segment it to get structure
 data_model = None if bool(args.learn) else BufferModel.load('data/model_2022.json')
 h = AList.from_file("spec/4098_3095_non_sys_h.alist")
 number_of_messages, n = rx.shape
diff --git a/runs/Feb_2022/train_buffer_model.py b/runs/Feb_2022/train_buffer_model.py
index 3ace2f4..ebc3b6f 100644
--- a/runs/Feb_2022/train_buffer_model.py
+++ b/runs/Feb_2022/train_buffer_model.py
@@ -7,7 +7,8 @@ temp = np.genfromtxt('data/feb_16_tx.csv', dtype=np.uint8, delimiter=',')
 tx = np.vstack((tx, temp))
 bs = BufferSegmentation(meta.protocol_parser)
 buffer_model = BufferModel(window_size=None)
-parts, validity, structure = bs.segment_buffer(np.packbits(tx[0, :984]).tobytes())  # segment first buffer to get structure
+first = np.argmax(np.packbits(tx[:, :8], axis=1)[:, 0] == 254)  # first identified telemetry buffer, unidentified ones are all 2
+parts, validity, structure = bs.segment_buffer(np.packbits(tx[first, :984]).tobytes())  # segment it to get structure
 bad_idx = []
 for tx_idx in range(tx.shape[0]):
     if tx[tx_idx, 0] < 2:  # tx identified
diff --git a/runs/Feb_2023/experimental_data_unified_decoder.py b/runs/Feb_2023/experimental_data_unified_decoder.py
index bd29686..ba5c1c2 100644
--- a/runs/Feb_2023/experimental_data_unified_decoder.py
+++ b/runs/Feb_2023/experimental_data_unified_decoder.py
@@ -84,7 +84,8 @@ else:
     rx = np.genfromtxt(f'data/feb_{args.experiment_date}_llr_{msg_type}.csv', dtype=np.float_, delimiter=',')
 
 bs = BufferSegmentation(meta.protocol_parser)
-_, _, buffer_structure = bs.segment_buffer(np.packbits(tx[0, :k]).tobytes())  # segment first buffer to get structure
+first = np.argmax(np.packbits(tx[:, :8], axis=1)[:, 0] == 254)  # first identified telemetry buffer, unidentified ones are all 2
+_, _, buffer_structure = bs.segment_buffer(np.packbits(tx[first, :k]).tobytes())  # segment it to get structure
 h = AList.from_file("spec/4098_3095_non_sys_h.alist")
 number_of_messages, n = rx.shape
 window_len = args.window_len if args.window_len > 0 else None
diff --git a/runs/Feb_2023/experimental_mavlink_based.py b/runs/Feb_2023/experimental_mavlink_based.py
index f90c5ec..1fba0ce 100644
--- a/runs/Feb_2023/experimental_mavlink_based.py
+++ b/runs/Feb_2023/experimental_mavlink_based.py
@@ -76,7 +76,8 @@ else:
     rx = np.genfromtxt(f'data/feb_{args.experiment_date}_llr_{msg_type}.csv', dtype=np.float_, delimiter=',')
 
 bs = BufferSegmentation(meta.protocol_parser)
-_, _, buffer_structure = bs.segment_buffer(np.packbits(tx[0, :k]).tobytes())  # segment first buffer to get structure
+first = np.argmax(np.packbits(tx[:, :8], axis=1)[:, 0] == 254)  # first identified telemetry buffer, unidentified ones are all 2
+_, _, buffer_structure = bs.segment_buffer(np.packbits(tx[first, :k]).tobytes())  # segment it to get structure
 data_model = None if bool(args.learn) else BufferModel.load('data/model_2023.json')
 number_of_messages, n = rx.shape
 window_len = args.window_len if args.window_len > 0 else None
diff --git a/runs/Feb_2023/train_buffer_model.py b/runs/Feb_2023/train_buffer_model.py
index 7a8f675..0bd9a2a 100644
--- a/runs/Feb_2023/train_buffer_model.py
+++ b/runs/Feb_2023/train_buffer_model.py
@@ -8,7 +8,8 @@ temp = np.genfromtxt(f'data/feb_18_tx_{msg_type}.csv', dtype=np.uint8, delimiter
 tx = np.vstack((tx, temp))
 bs = BufferSegmentation(meta.protocol_parser)
 buffer_model = BufferModel(window_size=None)
-parts, validity, structure = bs.segment_buffer(np.packbits(tx[0, :984]).tobytes())  # segment first buffer to get structure
+first = np.argmax(np.packbits(tx[:, :8], axis=1)[:, 0] == 254)  # first identified telemetry buffer, unidentified ones are all 2
+parts, validity, structure = bs.segment_buffer(np.packbits(tx[first, :984]).tobytes())  # segment it to get structure
 bad_idx = []
 for tx_idx in range(tx.shape[0]):
     if tx[tx_idx, 0] < 2:  # tx identified
-- 
2.43.0


From 384f4216719f8e4baa42bd90f2235a3063f7680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:30 +0000
Subject: [PATCH 50/50] fix: send the last sample of a sensor that has stopped,
 not the first of the mission

---
 runs/HC_eilat_July_2018/data/msg_creator.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/runs/HC_eilat_July_2018/data/msg_creator.py b/runs/HC_eilat_July_2018/data/msg_creator.py
index 1fdbfec..dec9e86 100644
--- a/runs/HC_eilat_July_2018/data/msg_creator.py
+++ b/runs/HC_eilat_July_2018/data/msg_creator.py
@@ -8,6 +8,13 @@ from scipy.io import savemat
 mat = scipy.io.loadmat("20_08_2018_13_12_11.mat")
 mav = dialect.MAVLink(1, 1, 1)
 
+
+def sample_at(times, t):
+    """index of the first sample which is not older than t, or of the last one if the sensor stopped before t"""
+    later = times >= t
+    return np.argmax(later) if np.any(later) else times.size - 1
+
+
 # global_position_int
 global_position_int = mat.get("global_position_int")[0, 1][0][0]
 global_position_int_time = global_position_int[0].flatten()
@@ -68,7 +75,7 @@ for delay, time_vec in time_vecs.items():
     for t in time_vec:
         d = {"timestamp": t}
         buffer = b""
-        idx = np.argmax(global_position_int_time >= t)
+        idx = sample_at(global_position_int_time, t)
         pos = dialect.MAVLink_global_position_int_message(global_position_int_time[idx], global_position_int_lat[idx],
                                                           global_position_int_lon[idx], global_position_int_alt[idx],
                                                           global_position_int_relative_alt[idx],
@@ -80,13 +87,13 @@ for delay, time_vec in time_vecs.items():
         buffer += pos.pack(mav)
         mav.seq = (mav.seq + 1) % 256
 
-        idx = np.argmax(pinger_time >= t)
+        idx = sample_at(pinger_time, t)
         ping = dialect.MAVLink_pinger_data_message(pinger_time[idx], pinger_range[idx], pinger_azimuth[idx])
         d["pinger_data"] = ping
         buffer += ping.pack(mav)
         mav.seq = (mav.seq + 1) % 256
 
-        idx = np.argmax(attitude_time >= t)
+        idx = sample_at(attitude_time, t)
         att = dialect.MAVLink_attitude_message(attitude_time[idx], attitude_roll[idx], attitude_pitch[idx],
                                                attitude_yaw[idx], attitude_roll_speed[idx], attitude_pitch_speed[idx],
                                                attitude_yaw_speed[idx])
@@ -94,14 +101,14 @@ for delay, time_vec in time_vecs.items():
         buffer += att.pack(mav)
         mav.seq = (mav.seq + 1) % 256
 
-        idx = np.argmax(svs_time >= t)
+        idx = sample_at(svs_time, t)
         sv = dialect.MAVLink_scaled_svs_message(svs_time[idx], svs_speed[idx], svs_depth[idx], svs_temp[idx],
                                                 svs_status[idx], svs_reserved[idx])
         d["svs"] = sv
         buffer += sv.pack(mav)
         mav.seq = (mav.seq + 1) % 256
 
-        idx = np.argmax(chamber_status_time >= t)
+        idx = sample_at(chamber_status_time, t)
         chamber = dialect.MAVLink_chamber_status_message(chamber_status_time[idx], chamber_status_num[idx],
                                                          chamber_status_press[idx], chamber_status_temp[idx],
                                                          chamber_status_hum[idx])
-- 
2.43.0

