"""Receivers of /repo under simulation, and executable reference models of what they must hand over, return and learn.

`rand_cfg` draws a receiver configuration (pure JSON), `Receiver` builds the real object around an injected error-correcting decoder,
`Ref*` are the reference models.  A reference follows the pass outcomes the injected decoder gave, never its own guesses."""
import math
import struct

import numpy as np
from scipy.special import erf

from sim import repo  # noqa: F401
from sim import rx, wire
from decoders.classifiying_decoder import ClassifyingEntropyDecoder
from decoders.classifying_DUDE_decoder import ClassifyingDudeDecoder
from decoders.combined_decoder import CombinedDecoder
from decoders.combined_unified_decoder import CombinedUnifiedDecoder
from decoders.entropy_bitwise_decoder import (EntropyBitwiseDecoder, EntropyBitwiseFlippingDecoder, EntropyBitwiseWeightedDecoder)
from decoders.mavlink_decoder import MavlinkRectifyingDecoder
from inference import BufferModel
from inference.clustering import BufferClassifier

EPS = float(np.finfo(np.float64).eps)
KINDS = ["BW", "FLIP", "WGT", "CLS", "DUDE", "MAV", "CMB", "UNI"]
BIT_KINDS = ["BW", "FLIP", "WGT", "CLS", "CMB", "UNI"]
FIELD_KINDS = ["MAV", "CMB", "UNI"]


# ------------------------------------------------------------ configuration
def rand_cfg(rng, kind, lays, total, parity, **over):
    k = total * 8
    n = k + parity
    starts = [0]
    for m in lays[0].msgs:
        starts.append(starts[-1] + m.size + 8)
    r = rng.random()
    if r < 0.6:
        L = k
    elif r < 0.75:
        L = 8 * rng.choice(starts[1:])
    elif r < 0.9:
        L = 8 * rng.randrange(1, total + 1)
    else:
        L = rng.randrange(1, k + 1)
    if kind in ("CLS", "DUDE", "MAV", "CMB", "UNI") and rng.random() < 0.15:
        L = n
    c = {"kind": kind, "k": k, "m": parity, "code": rng.randrange(4), "L": L}
    thr = rng.choice([0.121, 0.377, 0.613, 0.837, 0.99, 1.1, 1.1, 0.0])
    clip = rng.choice([1, 1.5, 3, 10, 100])
    window = rng.choice([None, 1, 2, 3, 5, 8, 20])
    center = rng.choice([0, 1, 3, 5, 20])
    slope = rng.choice([0.1, 0.35, 1.0, 3.0])
    flip = rng.choice([0, 0, 0.0113, 0.0531, 0.1717])
    clusters = rng.choice([1, 1, 2, 3]) if len(lays) == 1 else rng.choice([1, 2, len(lays), len(lays)])
    cluster = rng.random() < 0.6
    training = rng.choice([2, 3, 5, 8])
    if kind == "BW":
        c["p"] = {"model_length": L, "entropy_threshold": thr, "clipping_factor": clip, "min_data": rng.choice([0, 1, 2, 3, 5]),
                  "window_length": window}
    elif kind == "FLIP":
        c["p"] = {"model_length": L, "entropy_threshold": thr, "min_data": rng.choice([0, 1, 2, 3, 5]), "window_length": window}
    elif kind == "WGT":
        est = rng.choice(["MLE", "MLE", "Bayes"])
        if est == "Bayes":
            window = rng.choice([4, 10, 20])
        c["p"] = {"model_length": L, "entropy_threshold": thr, "clipping_factor": clip, "window_length": window, "a_conf_center": center,
                  "a_conf_slope": slope, "b_conf_center": rng.choice([0, 2, 10]), "b_conf_slope": rng.choice([0.35, 2.0]),
                  "confidence": rng.randrange(6), "estimator": est, "bit_flip": flip, "corrected_dist": rng.random() < 0.5}
    elif kind == "CLS":
        dec = rng.choice(["soft", "soft", "wbf", "gal"])
        method = 0
        if dec == "gal" and rng.random() < 0.5:
            method = 3
            window = window or 4
        c["dec"] = dec
        c["p"] = {"model_length": L, "entropy_threshold": thr, "clipping_factor": clip, "classifier_training": training, "n_clusters": clusters,
                  "window_length": window, "conf_center": center, "conf_slope": slope, "bit_flip": flip, "cluster": int(cluster),
                  "reliability_method": method}
    elif kind == "DUDE":
        c["p"] = {"model_length": L, "clipping_factor": clip, "classifier_training": training, "n_clusters": clusters,
                  "context_length": rng.choice([1, 1, 2, 3]), "conf_center": center, "conf_slope": slope, "bit_flip": flip,
                  "cluster": int(cluster)}
    else:
        c["p"] = {"model_length": L, "valid_thr": rng.choice([0.05, 0.21, 0.6]), "invalid_thr": rng.choice([0.0013, 0.047, 0.31]),
                  "n_clusters": clusters, "valid_factor": rng.choice([1.0, 1.3, 2.0, 5.0]), "invalid_factor": rng.choice([0.0, 0.2, 0.8]),
                  "classifier_training_size": training, "cluster": cluster, "window_length": window, "conf_center": center,
                  "conf_slope": slope, "debug": rng.random() < 0.3}
        if kind == "MAV":
            c["p"]["segmentation_iterations"] = rng.choice([1, 1, 2, 3])
        else:
            c["p"].update({"entropy_threshold": thr, "clipping_factor": clip, "bit_flip": flip})
        if kind == "UNI":
            c["p"]["flip"] = rng.random() < 0.5
        r = rng.random()
        structs = [_structure(lays[i % len(lays)].emit(rng)) for i in range(clusters)]
        if r < 0.2:  # fixed pre-trained model
            c["pretrain"] = [lays[i % len(lays)].emit(rng).hex() for i in range(rng.choice([1, 2, 4, 8]))]
            c["pretrain_window"] = rng.choice([None, 3])
            c["structs"] = structs
        elif r < 0.3:
            c["structs"] = structs
    if kind in ("BW", "FLIP", "CLS") and rng.random() < 0.2:
        rows = L if kind == "CLS" else rng.choice([L, L, min(k, L + 5)])
        c["model"] = [rng.choice([0.0, 1.0, 0.0, 1.0, round(rng.random(), 3), 0.03, 0.97]) for _ in range(rows)]
    for a, b in over.items():
        if a in c["p"]:
            c["p"][a] = b
    return c


def _structure(info):
    return [[i, m.id] for i, m in wire.segment(info)]


# ------------------------------------------------------------ real receiver
class Result:
    __slots__ = ("est", "llr", "success", "it", "syn", "val", "label", "nmsg", "dist", "dist_b", "struct", "struct_b", "denoised", "diag", "raw")

    def __init__(self):
        for s in self.__slots__:
            setattr(self, s, None)


class Receiver:
    """The real receiver with an injected decoder."""

    def __init__(self, cfg, decoder=None):
        self.cfg = cfg
        kind = self.kind = cfg["kind"]
        self.code = code = rx.Code.get(cfg["k"], cfg["m"], cfg["code"])
        dec = cfg.get("dec", "soft")
        self.hard = kind == "FLIP" or dec == "gal"
        if decoder is None:
            stub = {"soft": rx.SoftStub, "wbf": rx.WbfStub, "gal": rx.GalStub}[dec]
            decoder = stub().setup(code, hard_input=self.hard)
        self.dec = decoder
        p = dict(cfg["p"])
        self.model_in = None
        if "model" in cfg:
            p1 = np.array(cfg["model"], dtype=float)
            self.model_in = np.column_stack((1 - p1, p1))
            p["data_model" if kind == "CLS" else "model"] = self.model_in
        self.field_model = None
        if "pretrain" in cfg:
            self.field_model = BufferModel(window_size=cfg.get("pretrain_window"))
            for h in cfg["pretrain"]:
                b = bytes.fromhex(h)
                self.field_model.add_buffer(b, {i: m.id for i, m in wire.segment(b)})
            p["data_model"] = self.field_model
        cls = {"BW": EntropyBitwiseDecoder, "FLIP": EntropyBitwiseFlippingDecoder, "WGT": EntropyBitwiseWeightedDecoder,
               "CLS": ClassifyingEntropyDecoder, "DUDE": ClassifyingDudeDecoder, "MAV": MavlinkRectifyingDecoder, "CMB": CombinedDecoder,
               "UNI": CombinedUnifiedDecoder}[kind]
        self.obj = cls(decoder, **p)
        self.structs_in = None
        if "structs" in cfg:
            self.structs_in = [{i: m for i, m in s} for s in cfg["structs"]]
            self.obj.set_buffer_structures(self.structs_in)

    def word_of(self, soft):
        """What the front end of this receiver type is given: soft values, or hard bits."""
        return np.array(soft < 0, dtype=np.int_) if self.kind == "FLIP" else np.array(soft, dtype=float)

    def call(self, word, error_idx):
        if self.kind in FIELD_KINDS:
            return self.obj.decode_buffer(word, error_idx)
        return self.obj.decode_buffer(word)

    def parse(self, out):
        r = Result()
        r.raw = out
        k = self.kind
        if k in ("BW", "FLIP"):
            r.est, r.llr, r.success, r.it, r.nmsg = out
        elif k == "WGT":
            r.est, r.llr, r.success, r.it, r.syn, r.val, r.nmsg, r.dist, r.dist_b, r.struct, r.struct_b = out
        elif k == "CLS":
            r.est, r.llr, r.success, r.it, r.syn, r.val, r.dist, r.struct, r.label = out
            if not isinstance(self.dec, rx.SoftStub):
                r.llr = None
        elif k == "DUDE":
            r.est, r.llr, r.success, r.it, r.label, r.denoised = out
        elif k == "MAV":
            r.est, r.llr, r.success, r.it, r.syn, r.val, r.label = out[:7]
            r.diag = out[7:12]
        else:
            r.est, r.llr, r.success, r.it, r.label = out
        return r


# ----------------------------------------------------------------- helpers
def conf(size, center, slope):
    if size <= 1:
        return 0.0
    x = -(size - center) * slope
    return 0.0 if x > 700 else 1.0 / (1.0 + math.exp(x))


def H2(p):
    q = 1.0 - p
    with np.errstate(all="ignore"):
        return -(np.where(p > 0, p * np.log2(np.where(p > 0, p, 1)), 0) + np.where(q > 0, q * np.log2(np.where(q > 0, q, 1)), 0))


def logodds(p):
    return np.log((EPS + (1.0 - p)) / (p + EPS))


def near(a, b):
    return np.abs(a - b) < 1e-9


def same_word(got, exp, free=None):
    got = np.asarray(got, dtype=float)
    if got.shape != exp.shape:
        return False, "shape"
    tol = 1e-9 * (1.0 + float(np.max(np.abs(exp), initial=0.0))) + 1e-7 * np.abs(exp)
    bad = ~(np.abs(got - exp) <= tol)
    if free is not None:
        bad &= ~free
    if bad.any():
        i = int(np.flatnonzero(bad)[0])
        return False, f"{int(bad.sum())} positions differ, first bit {i}: {got[i]!r} instead of {exp[i]!r}"
    return True, ""


class Win:
    """Sliding window of admitted bit vectors."""

    def __init__(self, window, f, corrected):
        self.window, self.f, self.corrected = window, f, corrected
        self.rows = []
        self.total = 0

    def add(self, bits):
        self.rows.append(np.array(bits, dtype=np.int64))
        self.total += 1
        if self.window is not None:
            self.rows = self.rows[-self.window:]

    @property
    def size(self):
        return len(self.rows)

    def p1(self):
        v = np.sum(self.rows, axis=0) / len(self.rows)
        return np.clip((v - self.f) / (1 - 2 * self.f), 0, 1) if self.corrected else v


def pack(bits):
    return np.packbits(np.asarray(bits, dtype=np.uint8)).tobytes()


def covered(b):
    """All bytes belong to intact messages?"""
    return sum(m.size + 8 for _, m in wire.segment(b)) == len(b)


def _free(h, thr):
    return near(h, thr)


# -------------------------------------------------------------- references
class RefBase:
    def __init__(self, rcv):
        self.r = rcv
        self.cfg = rcv.cfg
        self.p = rcv.cfg["p"]
        self.code = rcv.code
        self.L = self.cfg["L"]
        self.n = self.code.n
        self.expect_label = None
        self.shadow = None
        self.rr = -1
        nc = self.p.get("n_clusters", 1)
        if nc > 1 and self.p.get("cluster"):
            self.shadow = BufferClassifier(self.p.get("classifier_training", self.p.get("classifier_training_size")), nc)

    def label(self, word):
        nc = self.p.get("n_clusters", 1)
        if nc == 1:
            return 0
        if self.shadow is not None:
            return self.shadow.classify((np.asarray(word) < 0).astype(np.int64)[:self.L])
        self.rr = (self.rr + 1) % nc
        return self.rr

    # to override: expected words per pass, learning
    def step(self, word, passes, res, ctx, on):
        raise NotImplementedError


def verdict(ctx, rcv, passes, res, label):
    """C04: everything returned belongs to the last pass."""
    last = passes[-1]
    ctx.check(np.array_equal(np.asarray(res.est), last.estimate), "verdict:bits", "returned bits are not those of the last decoder pass")
    if res.llr is not None:
        ctx.check(np.array_equal(np.asarray(res.llr), last.llr), "verdict:soft", "returned soft values are not those of the last decoder pass")
    ctx.check(bool(res.success) == last.success, "verdict:flag", lambda: f"success={res.success} but the last pass said {last.success}")
    syn = rcv.code.h @ np.asarray(res.est, dtype=np.int64) % 2
    ctx.check(bool(res.success) == (not syn.any()), "verdict:parity",
              lambda: f"success={res.success} but {int(syn.sum())} parity checks of the returned bits fail")
    if res.syn is not None:
        ctx.check(np.array_equal(np.asarray(res.syn), syn), "verdict:syndrome", "returned syndrome is not that of the returned bits")
        ctx.check(np.array_equal(np.asarray(res.val, dtype=float), np.asarray(last.validity, dtype=float)), "verdict:validity",
                  "returned node validity is not that of the last pass")
    if res.nmsg is not None:
        want = len(wire.segment(pack(np.asarray(res.est)[:rcv.cfg["L"]])))
        ctx.check(int(res.nmsg) == want, "verdict:count", lambda: f"{res.nmsg} messages reported, the returned bits hold {want}")
    if res.label is not None:
        ctx.check(int(res.label) == label, "verdict:label", lambda: f"label {res.label} returned for a buffer of cluster {label}")


class RefBW(RefBase):
    def __init__(self, rcv):
        super().__init__(rcv)
        self.fixed = None
        self.win = Win(self.p["window_length"], 0.0, False)
        if "model" in self.cfg:
            self.fixed = np.array(self.cfg["model"], dtype=float)[:self.L]
            self.L = min(self.L, len(self.fixed))

    def knowledge(self):
        if self.fixed is not None:
            return self.fixed
        if self.win.size > 0 and self.win.size >= self.p["min_data"]:
            return self.win.p1()
        return None

    def corrected(self, word):
        p = self.knowledge()
        if p is None:
            return np.array(word), None, False
        h = H2(p)
        st = h < self.p["entropy_threshold"]
        free = np.zeros(self.n, dtype=bool)
        free[:len(p)] = _free(h, self.p["entropy_threshold"])
        w = np.array(word, dtype=float)
        idx = np.flatnonzero(st)
        clip = self.p["clipping_factor"] * float(np.max(np.abs(w)))
        w[idx] += np.clip(logodds(p), -clip, clip)[idx]
        return w, free, bool(len(idx))

    def step(self, word, passes, res, ctx, on):
        first = passes[0]
        ctx.check(np.array_equal(first.word, word), "plain:first", "the first pass was not given the received word unchanged")
        if first.success:
            ctx.check(len(passes) == 1, "plain:single", lambda: f"{len(passes)} passes although the first succeeded")
        else:
            ctx.check(len(passes) == 2, "passes", lambda: f"{len(passes)} passes after a failed first pass")
            w, free, used = self.corrected(word)
            if not used:
                ctx.check(np.array_equal(np.asarray(passes[1].word), word), "plain:word", "word changed although nothing is known that could correct it")
                ctx.probe("plain")
            else:
                ok, why = same_word(passes[1].word, w, free)
                ctx.check(ok, "word", lambda: "second pass: " + why)
                ctx.probe("corrected")
        self.used = not first.success and used
        bits = passes[-1].estimate[:self.L]
        if covered(pack(bits)):
            if self.fixed is None:
                self.win.add(bits)
                ctx.probe("admitted")
        else:
            ctx.probe("not_admitted")

    def sig(self):
        return (min(self.win.size, 12), self.fixed is not None)


class RefFlip(RefBW):
    def corrected(self, word):
        p = self.knowledge()
        if p is None:
            return np.array(word), None, False
        h = H2(p)
        idx = np.flatnonzero(h < self.p["entropy_threshold"])
        free = np.zeros(self.n, dtype=bool)
        free[:len(p)] = _free(h, self.p["entropy_threshold"]) | near(p, 0.5)
        w = np.array(word, dtype=float)
        w[idx] = (p > 0.5).astype(float)[idx]
        return w, free, bool(len(idx))


class RefWgt(RefBase):
    def __init__(self, rcv):
        super().__init__(rcv)
        p = self.p
        self.bayes = p["estimator"] == "Bayes"
        corr = self.bayes or p["corrected_dist"]
        w = None if self.bayes else p["window_length"]
        self.a = Win(w, p["bit_flip"], corr)
        self.b = Win(w, p["bit_flip"], corr)
        self.limit = 2 * p["window_length"] - 2 if self.bayes else None

    def exact(self, win):
        return self.limit is None or win.total <= self.limit

    def var(self, win):
        if win.size == 0:
            return math.inf
        if self.bayes:
            ones = 1 + np.sum(win.rows, axis=0)
            zeros = 1 + win.size - np.sum(win.rows, axis=0)
            f = self.p["bit_flip"]
            s = ones + zeros
            return 12 * (1 / (1 - 2 * f)) ** 2 * float(np.mean(ones * zeros / ((s + 1) * s.astype(float) ** 2)))
        p1 = win.p1()
        return 2 * float(np.mean(p1 - p1 ** 2))

    def confs(self):
        p = self.p
        ca = conf(self.a.size, p["a_conf_center"], p["a_conf_slope"])
        cb = conf(self.b.size, p["b_conf_center"], p["b_conf_slope"])
        s = p["confidence"]
        if s == 1:
            t = ca + cb
            if t > 0:
                ca, cb = ca * ca / t, cb * cb / t
        elif s == 2:
            t = 2 * ca + cb
            if t > 0:
                ca, cb = ca * 2 * ca / t, cb * cb / t
        elif s == 3:
            cb = 0.0
        elif s == 4:
            va, vb = self.var(self.a), self.var(self.b)
            ca *= 1.0 if va <= 0 else 1 - math.exp(-0.1 / va)
            cb *= 1.0 if vb <= 0 else 1 - math.exp(-0.1 / vb)
        elif s == 5:
            ca = 0.0
        return ca, cb

    def corrected(self, word):
        thr = self.p["entropy_threshold"]
        w = np.array(word, dtype=float)
        free = np.zeros(self.n, dtype=bool)
        used = False
        ca, cb = self.confs()
        for win, c in ((self.a, ca), (self.b, cb)):
            if win.size == 0:
                continue
            p1 = win.p1()
            h = H2(p1)
            idx = np.flatnonzero(h < thr)
            free[:len(h)] |= _free(h, thr)
            if c > 0 and len(idx):
                w[idx] += c * logodds(p1)[idx]
                used = True
        clip = self.p["clipping_factor"] * float(np.max(np.abs(word)))
        return np.clip(w, -clip, clip), free, used

    def step(self, word, passes, res, ctx, on):
        first = passes[0]
        ctx.check(np.array_equal(first.word, word), "plain:first", "the first pass was not given the received word unchanged")
        comparable = self.exact(self.a) and self.exact(self.b)
        used = False
        if first.success:
            ctx.check(len(passes) == 1, "plain:single", lambda: f"{len(passes)} passes although the first succeeded")
            bits = first.estimate[:self.L]
            if covered(pack(bits)):
                self.a.add(bits)
                ctx.probe("admitted")
            else:
                ctx.probe("not_admitted")
            self.b.add(bits)
        else:
            ctx.check(len(passes) == 2, "passes", lambda: f"{len(passes)} passes after a failed first pass")
            w, free, used = self.corrected(word)
            if not used and comparable:
                ctx.check(np.array_equal(passes[1].word, word), "plain:word", "word changed although nothing is known that could correct it")
                ctx.probe("plain")
            elif comparable:
                ok, why = same_word(passes[1].word, w, free)
                ctx.check(ok, "word", lambda: "second pass: " + why)
                ctx.probe("corrected")
            bits = passes[1].estimate[:self.L]
            if covered(pack(bits)):
                self.a.add(bits)
                self.b.add(bits)
                ctx.probe("admitted")
            else:
                self.b.add((np.asarray(word) < 0)[:self.L])
                ctx.probe("channel_bits_learned")
        self.used = used
        if "stats" in on:
            for name, win, dist, struct_ in (("a", self.a, res.dist, res.struct), ("b", self.b, res.dist_b, res.struct_b)):
                published(ctx, name, win, dist, struct_, self.p["entropy_threshold"], self.exact(win), self.L)
        if not (self.exact(self.a) and self.exact(self.b)):
            ctx.finding("bayes-rescaling")

    def sig(self):
        return (min(self.a.size, 12), min(self.b.size, 12), self.p["confidence"], self.p["estimator"])


def published(ctx, name, win, dist, struct_, thr, exact, L):
    d = np.asarray(dist, dtype=float)
    if win is None or win.size == 0:
        ctx.check(d.size == 0, "stats", lambda: f"model {name}: statistics published although nothing was learned")
        return
    ctx.check(d.shape == (L, 2), "stats:shape", lambda: f"model {name}: statistics of shape {d.shape}")
    if not exact:
        return
    p1 = win.p1()
    bad = ~((np.abs(d[:, 1] - p1) < 1e-9) & (np.abs(d[:, 0] - (1 - p1)) < 1e-9))
    ctx.check(not bad.any(), "stats", lambda: f"model {name}: bit {int(np.flatnonzero(bad)[0])} has P(1)={d[np.flatnonzero(bad)[0], 1]!r}, "
              f"the {win.size} admitted buffers give {p1[np.flatnonzero(bad)[0]]!r}")
    h = H2(p1)
    got = np.zeros(L, dtype=bool)
    got[np.asarray(struct_, dtype=int)] = True
    bad = (got != (h < thr)) & ~_free(h, thr)
    ctx.check(not bad.any(), "stats:stable", lambda: f"model {name}: wrong set of stable bits, e.g. bit {int(np.flatnonzero(bad)[0])}")


class RefCls(RefBase):
    def __init__(self, rcv):
        super().__init__(rcv)
        nc = self.p["n_clusters"]
        self.fixed = None
        if "model" in self.cfg:
            self.fixed = np.array(self.cfg["model"], dtype=float)[:self.L]
        self.win = [Win(self.p["window_length"], self.p["bit_flip"], True) for _ in range(nc)]
        self.dec = self.cfg.get("dec", "soft")

    def model_llr(self, label):
        out = np.zeros(self.n)
        free = np.zeros(self.n, dtype=bool)
        if self.fixed is not None:
            p1, c = self.fixed, 1.0
        else:
            w = self.win[label]
            if w.size == 0:
                return out, free, np.array([], dtype=int)
            p1, c = w.p1(), conf(w.size, self.p["conf_center"], self.p["conf_slope"])
        h = H2(p1)
        idx = np.flatnonzero(h < self.p["entropy_threshold"])
        free[:len(h)] = _free(h, self.p["entropy_threshold"])
        out[idx] = c * logodds(p1)[idx]
        return out, free, idx

    def handed(self, word, label):
        """expected word, priors, free positions, whether knowledge was used, scaled (whole word depends on every bit)"""
        hard = (word < 0).astype(float)
        if label < 0:
            return (hard if self.dec == "gal" else word), None, None, False
        mod, free, idx = self.model_llr(label)
        used = bool(np.max(np.abs(mod), initial=0.0) > 0)
        if self.dec == "soft":
            clip = self.p["clipping_factor"] * float(np.max(np.abs(word)))
            return np.clip(word + mod, -clip, clip), None, free, used
        if not used:
            return (hard if self.dec == "gal" else word), np.zeros(self.n), free, False
        if self.p["reliability_method"] == 3:
            out = hard.copy()
            if self.win[label].size >= self.p["window_length"]:
                out[idx] = (mod < 0).astype(float)[idx]
            else:
                used = False
            return out, None, free, used
        peak = float(np.max(np.abs(word)))
        mpeak = float(np.max(np.abs(mod)))
        s = word + (mod * (peak / mpeak) if mpeak > peak else mod)
        speak = float(np.max(np.abs(s)))
        if speak > 0:
            s = s * (peak / speak)
        if free.any():
            free[:] = True  # a bit that may or may not count changes the scale of all
        if self.dec == "gal":
            free = free | (np.abs(s) <= 1e-9 * (1 + peak))
            return (s < 0).astype(float), None, free, True
        return s, np.zeros(self.n), free, True

    def step(self, word, passes, res, ctx, on):
        label = self.label(word)
        self.expect_label = label
        ctx.check(len(passes) == 1, "passes", lambda: f"{len(passes)} decoder passes for one buffer")
        w, pri, free, used = self.handed(word, label)
        self.used = used
        if not used:
            ctx.check(np.array_equal(np.asarray(passes[0].word, dtype=float), w), "plain:word",
                      "word changed although nothing is known that could correct it")
            ctx.probe("plain")
        else:
            ok, why = same_word(passes[0].word, w, free)
            ctx.check(ok, "word", why)
            ctx.probe("corrected")
        if pri is not None and passes[0].priors is not None:
            ctx.check(not np.any(passes[0].priors), "word:priors", "prior reliabilities handed over with reliability method 0")
        if label < 0:
            ctx.probe("training")
        elif self.fixed is None:
            last = passes[-1]
            self.win[label].add(last.estimate[:self.L] if last.success else (word < 0)[:self.L])
            ctx.probe("learned_decoded" if last.success else "channel_bits_learned")
        if "stats" in on:
            if label < 0:
                ctx.check(np.asarray(res.dist).size == 0, "stats", "statistics published while the classifier is training")
            elif self.fixed is None:
                published(ctx, f"cluster {label}", self.win[label], res.dist, res.struct, self.p["entropy_threshold"], True, self.L)
            else:
                d = np.asarray(res.dist, dtype=float)
                ctx.check(d.shape == (self.L, 2) and np.allclose(d[:, 1], self.fixed, atol=1e-12), "stats:fixed", "the given model changed")

    def sig(self):
        return tuple(min(w.size, 6) for w in self.win) + (self.dec, self.p["reliability_method"], self.fixed is not None)


class BitDude:
    """Reference of the soft online denoiser for a binary symmetric channel, one bit stream."""

    def __init__(self, f, k):
        self.f, self.k = f, k
        self.ctx = ()
        self.tab = {}

    def push(self, x):
        """P(1) of the sample."""
        x = int(x)
        if len(self.ctx) < self.k:
            self.ctx += (x,)
            return float(x)
        t = self.tab.setdefault(self.ctx, [0, 0])
        t[x] += 1
        self.ctx = self.ctx[1:] + (x,)
        f = self.f
        a = ((1 - f) * t[0] - f * t[1]) / (1 - 2 * f)
        b = ((1 - f) * t[1] - f * t[0]) / (1 - 2 * f)
        if a < 1:
            a = 1.0
        elif b < 1:
            b = 1.0
        a *= f if x else 1 - f
        b *= 1 - f if x else f
        return b / (a + b)


class RefDude(RefBase):
    def __init__(self, rcv):
        super().__init__(rcv)
        nc = self.p["n_clusters"]
        self.d = [[BitDude(self.p["bit_flip"], self.p["context_length"]) for _ in range(self.L)] for _ in range(nc)]
        self.size = [0] * nc

    def step(self, word, passes, res, ctx, on):
        label = self.label(word)
        self.expect_label = label
        ctx.check(len(passes) == 1, "passes", lambda: f"{len(passes)} decoder passes for one buffer")
        if label < 0:
            ctx.check(np.array_equal(passes[0].word, word), "plain:word", "word changed while the classifier is training")
            ctx.check(np.array_equal(np.asarray(res.denoised), (word < 0).astype(int)), "denoised", "denoised bits differ from the received bits")
            ctx.probe("training")
            self.used = False
            return
        bits = (word < 0).astype(int)[:self.L]
        self.size[label] += 1
        c = conf(self.size[label], self.p["conf_center"], self.p["conf_slope"])
        p1 = np.array([self.d[label][i].push(bits[i]) for i in range(self.L)])
        w = np.array(word, dtype=float)
        w[:self.L] += c * logodds(p1)
        clip = self.p["clipping_factor"] * float(np.max(np.abs(word)))
        w = np.clip(w, -clip, clip)
        self.used = c > 0
        if not self.used:
            ctx.check(np.array_equal(passes[0].word, word), "plain:word", "word changed although at most one buffer was seen")
            ctx.probe("plain")
        else:
            ok, why = same_word(passes[0].word, w)
            ctx.check(ok, "word", why)
            ctx.probe("corrected")
        free = np.abs(w) < 1e-9 * (1 + float(np.max(np.abs(w))))
        ctx.check(np.array_equal(np.asarray(res.denoised)[~free], (w < 0).astype(int)[~free]), "denoised",
                  "denoised bits are not the hard decisions of the denoised word")

    def sig(self):
        return tuple(min(s, 6) for s in self.size) + (self.p["context_length"],)


# ------------------------------------------------------------ field models
class FieldRef:
    """Reference of the per-field Gaussian models."""

    def __init__(self, window):
        self.window = window
        self.s = {}
        self.types = {}
        self.size = 0
        self._stat = {}

    @staticmethod
    def fields(structure):
        """[(name, type, bit start, bit end)]"""
        t = wire.table()
        out = []
        for start, mid in structure:
            m = t[mid]
            for j, nm in enumerate(["magic", f"{m.name}_mlen", "seq", "srcSystem", f"{m.name}_srcComponent", f"{m.name}_msgId"]):
                out.append((nm, "uint8_t", (start + j) * 8, (start + j + 1) * 8))
            pos = start + 6
            for nm, ty, _ in m.wire_fields:
                w = wire.SIZES[ty]
                out.append((f"{m.name}_{nm}", ty, pos * 8, (pos + w) * 8))
                pos += w
        return out

    FMT = {"uint8_t": "<B", "int8_t": "<b", "uint16_t": "<H", "int16_t": "<h", "uint32_t": "<I", "int32_t": "<i", "uint64_t": "<Q",
           "int64_t": "<q", "float": "<f"}

    def add(self, data, structure):
        self.size = self.size + 1 if self.window is None else min(self.size + 1, self.window)
        for nm, ty, a, b in self.fields(structure):
            v = struct.unpack(self.FMT[ty], data[a // 8:b // 8])[0]
            if ty == "float" and not math.isfinite(v):
                continue
            lst = self.s.setdefault(nm, [])
            self.types[nm] = ty
            lst.append(v)
            if self.window is not None:
                del lst[:-self.window]
            self._stat.pop(nm, None)

    def stat(self, nm):
        if nm not in self._stat:
            a = np.array([float(v) for v in self.s[nm]])
            mean = math.fsum(a) / len(a)
            self._stat[nm] = (mean, math.sqrt(math.fsum((a - mean) ** 2) / len(a)) if len(set(self.s[nm])) > 1 else 0.0)
        return self._stat[nm]

    def predict(self, data, structure, nbits):
        """per bit: plausibility (nan: unknown), spread (nan: unknown), bits of the mean"""
        p = np.full(nbits, np.nan)
        sd = np.full(nbits, np.nan)
        mb = np.zeros(nbits, dtype=int)
        for nm, ty, a, b in self.fields(structure):
            if nm not in self.s:
                continue
            mean, std = self.stat(nm)
            v = struct.unpack(self.FMT[ty], data[a // 8:b // 8])[0]
            if std == 0:
                p[a:b] = 1.0 if v == mean else 0.0
            else:
                p[a:b] = 1 - erf(abs(mean - v) / std / math.sqrt(2))
            sd[a:b] = std
            if ty == "float":
                raw = struct.pack("<f", mean)
            else:
                lo, hi = (0, 2 ** (8 * wire.SIZES[ty]) - 1) if ty[0] == "u" else (-2 ** (8 * wire.SIZES[ty] - 1), 2 ** (8 * wire.SIZES[ty] - 1) - 1)
                raw = struct.pack(self.FMT[ty], min(max(round(mean), lo), hi))
            mb[a:b] = rx.bits_of(raw)
        return p, sd, mb


class RefField(RefBase):
    def __init__(self, rcv):
        super().__init__(rcv)
        nc = self.p["n_clusters"]
        self.learning = "pretrain" not in self.cfg
        self.fm = FieldRef(self.p["window_length"] if self.learning else self.cfg.get("pretrain_window"))
        for h in self.cfg.get("pretrain", []):
            b = bytes.fromhex(h)
            self.fm.add(b, _structure(b))
        self.structs = [None] * nc
        if "structs" in self.cfg:
            self.structs = [[tuple(x) for x in s] for s in self.cfg["structs"]]
        self.bit = self.r.kind in ("CMB", "UNI")
        self.win = [Win(self.p["window_length"], self.p["bit_flip"], True) for _ in range(nc)] if self.bit else None

    def handed(self, word, label, channel, ctx):
        """(expected word, free, used) of one pass whose input is `word`; channel: the received word"""
        p = self.p
        out = np.array(word, dtype=float)
        free = np.zeros(self.n, dtype=bool)
        used = False
        st = self.structs[label]
        self.diag = None
        if st is not None:
            used = True
            diag = self.diag = {"fields": self.fm.fields(st), "seg": np.zeros(self.n, dtype=bool)}
            hard = (out < 0).astype(int)
            nb = self.n // 8 * 8
            pb, sd, mb = self.fm.predict(pack(hard), st, nb)
            gthr = 1 - p["valid_thr"]
            free[:nb] |= near(pb, gthr) | near(pb, p["invalid_thr"])
            good = pb > gthr
            bad = pb < p["invalid_thr"]
            vf, ivf = p["valid_factor"], p["invalid_factor"]
            if self.learning:
                c = conf(self.fm.size, p["conf_center"], p["conf_slope"])
                vf, ivf = (vf - 1) * c + 1, (ivf - 1) * c + 1
            obs = out.copy()
            if self.r.kind == "UNI":
                w = self.win[label]
                if w.size > p["conf_center"]:
                    p1 = w.p1()
                    h = H2(p1)
                    low = h < p["entropy_threshold"]
                    m = min(self.L, nb)
                    free[:m] |= _free(h, p["entropy_threshold"])[:m] | near(p1, 0.5)[:m]
                    good = good[:m] & low[:m]
                    bad = bad[:m] & low[:m] & ((p1[:m] > 0.5) != (obs[:m] < 0))
                    out[:m][good] *= vf
                    out[:m][bad] *= ivf * (-1 if p["flip"] else 1)
            else:
                out[:nb][good] *= vf
                out[:nb][bad] *= ivf
            diag.update(p=pb, gthr=gthr, ithr=p["invalid_thr"], mb=mb)
            forced = diag["forced"] = np.flatnonzero((sd == 0) & ((pb <= 0) | (self.r.kind == "UNI" and not self.learning)))
            peak = float(np.max(np.abs(obs)))
            for nm, x in (("good_bits", good), ("bad_bits", bad), ("forced_bits", forced.size > 0)):
                if np.any(x):
                    ctx.probe(nm)
            if len(forced):
                out[forced] = (1.0 - 2.0 * mb[forced]) * peak * max(vf, 1)
            seg = wire.segment(pack(hard[:self.code.k]))
            if seg:
                ctx.probe("segmented_received")
                for i, m in seg:
                    a, b = i * 8, (i + 8 + m.size) * 8
                    out[a:b] = obs[a:b] * 2 * vf
                    free[a:b] = False
                    diag["seg"][a:b] = True
            else:
                for i, m in wire.segment(pack((out < 0)[:self.code.k])):
                    a, b = i * 8, (i + 8 + m.size) * 8
                    out[a:b] *= 2
                    diag["seg"][a:b] = True
                    ctx.probe("segmented_corrected")
            if self.r.kind == "UNI" and free.any():
                free[:] = True  # a sign that may go either way can change what is recognised
        if self.bit:
            w = self.win[label]
            if w.size > 0:
                p1 = w.p1()
                h = H2(p1)
                idx = np.flatnonzero(h < p["entropy_threshold"])
                free[:self.L] |= _free(h, p["entropy_threshold"])
                c = conf(w.size, p["conf_center"], p["conf_slope"])
                if c > 0 and len(idx):
                    clip = p["clipping_factor"] * float(np.max(np.abs(channel)))
                    out[idx] += np.clip(c * logodds(p1)[idx], -clip, clip)
                    used = True
        return out, free, used

    def step(self, word, passes, res, ctx, on):
        label = self.label(word)
        self.expect_label = label
        self.diag, self.diag_open = None, False
        if label < 0:
            ctx.check(len(passes) == 1, "passes", lambda: f"{len(passes)} decoder passes while training")
            ctx.check(np.array_equal(passes[0].word, word), "plain:word", "word changed while the classifier is training")
            ctx.probe("training")
            self.used = False
            return
        limit = self.p.get("segmentation_iterations", 1)
        want = next((i + 1 for i, q in enumerate(passes) if q.success), limit)
        ctx.check(len(passes) == min(want, limit), "passes", lambda: f"{len(passes)} decoder passes, expected {min(want, limit)} of at most {limit}")
        cur = np.asarray(word, dtype=float)
        self.used = False
        for i, q in enumerate(passes):
            w, free, used = self.handed(cur, label, word, ctx)
            if not used:
                ctx.check(np.array_equal(q.word, cur), "plain:word", "word changed although nothing is known that could correct it")
                ctx.probe("plain")
            else:
                ok, why = same_word(q.word, w, free)
                ctx.check(ok, "word", lambda: f"pass {i + 1}: " + why)
                ctx.probe("corrected")
                self.used = True
                if not np.array_equal(w, cur):
                    ctx.probe("changed")
            cur = q.llr
        last = passes[-1]
        self.diag_open = bool(free.any())  # a decision within rounding of a threshold: the report may go either way
        if "verdict" in on and self.r.kind == "MAV":
            ctx.check(int(res.it) == sum(q.iterations for q in passes), "verdict:iterations", "iteration count is not the sum over the passes")
        rec = None
        if self.learning:
            if last.success:
                if self.structs[label] is None:
                    self.structs[label] = [(i, m.id) for i, m in wire.segment(pack(last.estimate[:self.code.k]))]
                    ctx.probe("structure_learned")
                    if not self.structs[label]:
                        ctx.probe("empty_structure")
                rec = last.estimate
                ctx.probe("learned_decoded")
            elif self.structs[label] is not None:
                rec = (np.asarray(word) < 0).astype(int)
                ctx.probe("channel_bits_learned")
            if rec is not None:
                self.fm.add(pack(rec), self.structs[label])
        if self.bit:
            self.win[label].add((last.estimate if last.success else (np.asarray(word) < 0))[:self.L])

    def check_model(self, ctx):
        """C08: the field models are those of the recorded buffers."""
        m = self.r.obj.model
        ctx.check(sorted(m.fields_names()) == sorted(self.fm.s), "fields:names",
                  lambda: f"fields in the model: {sorted(set(m.fields_names()) ^ set(self.fm.s))[:4]} differ")
        ctx.check(m.model_size == self.fm.size, "fields:size", lambda: f"model size {m.model_size}, {self.fm.size} buffers recorded")
        for nm, lst in self.fm.s.items():
            f = m[nm]
            mean, std = self.fm.stat(nm)
            scale = 1e-9 * (1 + max(abs(float(v)) for v in lst))
            ctx.check(abs(f.mean - mean) <= scale and abs(f.std - std) <= scale, "fields:stat",
                      lambda: f"{nm}: mean {f.mean!r} spread {f.std!r}, the {len(lst)} recorded values give {mean!r}, {std!r}")
            ctx.check(f.model_size == len(lst), "fields:count", lambda: f"{nm}: {f.model_size} values recorded, expected {len(lst)}")
            ctx.check(f.field_type == self.fm.types[nm], "fields:type", lambda: f"{nm}: type {f.field_type}")
        held = getattr(self.r.obj, "buffer_structures", None)
        for i, st in enumerate(self.structs if held is not None else []):
            got = held[i]
            ctx.check((None if got is None else [(int(a), int(b)) for a, b in sorted(got.items())]) == st, "fields:structure",
                      lambda: f"cluster {i}: structure {got}, expected {st}")

    def sig(self):
        return (min(self.fm.size, 8), tuple(None if s is None else len(s) for s in self.structs), self.learning,
                None if not self.bit else tuple(min(w.size, 5) for w in self.win))


REFS = {"BW": RefBW, "FLIP": RefFlip, "WGT": RefWgt, "CLS": RefCls, "DUDE": RefDude, "MAV": RefField, "CMB": RefField, "UNI": RefField}


# -------------------------------------------------------------- session run
def soft_of(rcv, st, ctx=None):
    truth = rcv.code.encode(rx.bits_of(bytes.fromhex(st["info"])))
    return truth, rx.channel(rcv.code, truth, st, ctx)


def run_session(cfg, steps, ctx, on, hook=None):
    """Drive one real receiver through a history, checking every pass against the reference."""
    rcv = ctx.call("construct", Receiver, cfg)
    ref = REFS[cfg["kind"]](rcv)
    for i, st in enumerate(steps):
        truth, soft = soft_of(rcv, st, ctx)
        word = rcv.word_of(soft)
        rcv.dec.arm(st["out"], truth, rx.mis_word(rcv.code, st["mis"]))
        err = np.flatnonzero((soft < 0).astype(int) != truth)
        out = ctx.call(f"step {i}", rcv.call, word.copy(), err)
        res = rcv.parse(out)
        passes = rcv.dec.passes
        ctx.check(len(passes) > 0, "passes", "no decoder pass was made")
        for q in passes:
            ctx.array("w", q.word)
            ctx.event(i, q.outcome, q.success)
            ctx.check(bool(np.all(np.isfinite(np.asarray(q.word, dtype=float)))), "finite", "a value handed to the decoder is not finite")
        ref.step(word, passes, res, ctx, on)
        if "verdict" in on:
            verdict(ctx, rcv, passes, res, ref.expect_label)
        ctx.event(i, None if ref.expect_label is None else int(ref.expect_label), len(passes))
        ctx.at(st["t"])
        if hook:
            hook(rcv, ref, res, st)
        ctx.state(cfg["kind"], ref.sig(), tuple(q.success for q in passes), bool(ref.used))
    return rcv, ref
