"""The simulated link: telemetry source -> systematic code -> faulty soft channel -> real receiver of /repo with a scripted or real
error-correcting decoder injected.  Sessions are described by plans (pure JSON); nothing here draws randomness while executing."""
import math
import struct

import numpy as np

from sim import gen as G
from sim import repo  # noqa: F401
from sim import wire
from ldpc.decoder import GalBfDecoder, LogSpaDecoder, WbfDecoder, bsc_llr

EPS = np.finfo(np.float64).eps


# ------------------------------------------------------------------ code
class Code:
    """Systematic code, information bits first; H = [P | I]."""
    _cache = {}

    def __init__(self, k, m, seed):
        r = np.random.RandomState(seed)
        P = np.zeros((m, k), dtype=np.int64)
        for j in range(k):
            P[r.choice(m, size=min(m, 3), replace=False), j] = 1
        self.k, self.m, self.n = k, m, k + m
        self.P = P
        self.h = np.concatenate([P, np.eye(m, dtype=np.int64)], axis=1)
        self.info_idx = np.array([True] * k + [False] * m)

    @classmethod
    def get(cls, k, m, seed):
        key = (k, m, seed)
        if key not in cls._cache:
            if len(cls._cache) > 64:
                cls._cache.clear()
            cls._cache[key] = cls(k, m, seed)
        return cls._cache[key]

    def encode(self, info):
        info = np.asarray(info, dtype=np.int64)
        return np.concatenate([info, self.P @ info % 2])


def bits_of(b):
    return np.unpackbits(np.frombuffer(b, dtype=np.uint8)).astype(np.int64)


# --------------------------------------------------- error-correcting decoder
class Pass:
    __slots__ = ("word", "outcome", "estimate", "llr", "success", "iterations", "syndrome", "validity", "priors")


class Scripted:
    """Decides each pass by the plan: 'ok' corrects, 'mis' lands on another codeword, 'fail' returns hard decisions, 'real' runs the real
    Log-SPA decoder. Keeps private copies of everything it was given and returned."""

    def setup(self, code, hard_input=False, real_iter=6):
        self.code = code
        self.h = code.h.copy()
        self.n = code.n
        self.k = code.k
        self.m = code.m
        self.info_idx = code.info_idx.copy()
        self.max_iter = real_iter
        self.hard_input = hard_input
        self.passes = []
        self.script = []
        self.truth = None
        self.mis = None
        self.count = 0
        self._real = None
        self.observer = None
        return self

    def arm(self, script, truth, mis):
        self.script = list(script)
        self.truth = truth
        self.mis = mis
        self.passes = []

    def info_bits(self, estimate):
        return estimate[self.info_idx]

    def _run(self, word, priors=None):
        w = np.array(word)
        if w.shape != (self.n,):
            raise ValueError(f"word of shape {w.shape} handed over, block length is {self.n}")
        p = Pass()
        p.word = w
        p.priors = None if priors is None else np.array(priors)
        i = len(self.passes)
        p.outcome = self.script[min(i, len(self.script) - 1)] if self.script else "fail"
        hard = (w > 0).astype(np.int64) if self.hard_input else (w < 0).astype(np.int64)
        self.count += 1
        amp = 1.0 + (self.count % 97) / 128.0
        p.iterations = 1 + self.count % 13
        if p.outcome == "ok":
            est = self.truth.copy()
        elif p.outcome == "mis":
            est = self.truth ^ self.mis
        elif p.outcome == "real":
            if self._real is None:
                self._real = LogSpaDecoder(self.h.copy(), self.max_iter, self.info_idx.copy(),
                                           channel_model=bsc_llr(0.1) if self.hard_input else None)
            est, llr, ok, it, syn, val = self._real.decode(w)
            est = np.array(est, dtype=np.int64)
            p.estimate, p.llr, p.success, p.iterations, p.syndrome, p.validity = est, np.array(llr), bool(ok), it, np.array(syn), np.array(val)
            self.passes.append(p)
            return p
        else:
            est = hard
            if not ((self.h @ est) % 2).any():  # a pass that fails never holds a codeword
                est = est.copy()
                est[self.count % self.n] ^= 1
        syn = self.h @ est % 2
        p.estimate = est
        p.syndrome = syn
        p.success = not syn.any()
        p.validity = syn @ self.h
        p.llr = (1.0 - 2.0 * est) * amp * (1.0 + (np.arange(self.n) % 7) * 0.25)
        self.passes.append(p)
        return p


class SoftStub(Scripted, LogSpaDecoder):
    def __init__(self):
        pass

    info_bits = Scripted.info_bits

    def decode(self, channel_word, max_iter=None):
        p = self._run(channel_word)
        if self.observer:
            self.observer(p)
        return p.estimate.copy(), p.llr.copy(), p.success, p.iterations, p.syndrome.copy(), p.validity.copy()


class WbfStub(Scripted, WbfDecoder):
    def __init__(self):
        pass

    info_bits = Scripted.info_bits

    def decode(self, channel_llr, prior_reliability=None):
        p = self._run(channel_llr, prior_reliability)
        if self.observer:
            self.observer(p)
        return p.estimate.copy(), p.success, p.iterations, p.syndrome.copy(), p.validity.astype(float)


class GalStub(Scripted, GalBfDecoder):
    def __init__(self):
        pass

    info_bits = Scripted.info_bits

    def decode(self, channel_word):
        p = self._run(channel_word)
        if self.observer:
            self.observer(p)
        return p.estimate.copy(), p.success, p.iterations, p.syndrome.copy(), p.validity.copy()


# ------------------------------------------------------------- soft channel
def channel(code, truth, st, ctx=None):
    """Received word (soft values, positive = zero) of one step."""
    n = code.n
    a = float(st.get("amp", 2.0))
    w = (1.0 - 2.0 * truth) * a
    if st.get("jit"):
        r = np.random.RandomState(st["jit"])
        w = w * r.uniform(0.2, 1.8, size=n)
    for f in st.get("faults", []):
        before = w.copy()
        k = f[0]
        if k == "flip":
            i = np.array([x for x in f[1] if x < n], dtype=int)
            w[i] = -w[i]
        elif k == "burst":
            w[f[1]:f[1] + f[2]] *= -1
        elif k == "erase":
            w[f[1]:f[1] + f[2]] = 0.0
        elif k == "stuck":
            w[f[1]:f[1] + f[2]] = np.abs(w[f[1]:f[1] + f[2]]) * (1 if f[3] == 0 else -1)
        elif k == "dead":  # 0: silence, 1: all zeros bits, 2: all ones bits
            w = np.zeros(n) if f[1] == 0 else (np.full(n, a) if f[1] == 1 else np.full(n, -a))
        elif k == "noise":
            w = w + np.random.RandomState(f[1]).normal(0, f[2], size=n)
        elif k == "saturate":
            w = np.sign(w) * f[1]
        elif k == "fade":
            w = w * f[1]
        elif k == "bytes":  # overwrite bytes with a pattern (damaged field values)
            p = bits_of(bytes.fromhex(f[2]))
            s = f[1] * 8
            p = p[:max(0, code.k - s)]
            w[s:s + len(p)] = (1.0 - 2.0 * p) * a
        elif k == "spike":
            if f[1] < n:
                w[f[1]] = f[2]
        if ctx is not None and not np.array_equal(before, w):
            ctx.fault(k)
    return w


CHANNEL_FAULTS = ["flip", "burst", "erase", "stuck", "dead", "noise", "saturate", "fade", "bytes", "spike"]


def rand_fault(rng, n, k_bytes, kinds):
    k = rng.choice(kinds)
    pos = rng.randrange(n)
    ln = rng.choice([1, 3, 8, 16, 40])
    if k == "flip":
        return [k, sorted(rng.sample(range(n), rng.choice([1, 1, 2, 3, 6])))]
    if k in ("burst", "erase"):
        return [k, pos, ln]
    if k == "stuck":
        return [k, pos, ln, rng.randrange(2)]
    if k == "dead":
        return [k, rng.randrange(3)]
    if k == "noise":
        return [k, rng.randrange(1, 2**31), rng.choice([0.2, 1.0, 2.5])]
    if k == "saturate":
        return [k, rng.choice([1e-3, 30.0, 1e6])]
    if k == "fade":
        return [k, rng.choice([0.01, 0.5, 5.0])]
    if k == "bytes":
        pat = rng.choice([b"\x00\x00\x80\x7f", b"\x00\x00\xc0\x7f", b"\x00\x00\x80\xff", b"\xff\xff\xff\xff", b"\xff" * 8, b"\x00\x00\x00\x00",
                          bytes(rng.randrange(256) for _ in range(4))])
        return [k, rng.randrange(max(1, k_bytes)), pat.hex()]
    return ["spike", pos, rng.choice([-1.0, 1.0]) * rng.choice([0.0, 50.0, 1e4])]


# ------------------------------------------------------------------- source
class Layout:
    """A buffer layout: messages in order, optional filler at the end; field processes with memory."""

    def __init__(self, rng, msgs, total, spec=None):
        self.msgs = msgs
        self.total = total
        used = sum(m.size + 8 for m in msgs)
        self.pad = bytes(rng.choice([0, 0, rng.randrange(256)]) for _ in range(total - used))
        self.seq = rng.randrange(256)
        self.sys = rng.randrange(1, 250)
        self.comp = [rng.randrange(250) for _ in msgs]
        self.proc = []
        for m in msgs:
            pr = []
            for name, ty, n in m.wire_fields:
                kind = rng.choice(["const", "const", "noise", "count", "jump", "wide"])
                if ty == "float":
                    base = struct.unpack("<f", struct.pack("<f", rng.uniform(-100, 100)))[0]
                elif ty.endswith("64_t"):
                    base = rng.randrange(0, 2**34)
                else:
                    lo, hi = G.RANGES[ty]
                    base = rng.randrange(max(lo, -1000), min(hi, 30000) + 1)
                pr.append([kind, ty, base])
            self.proc.append(pr)

    def emit(self, rng):
        out = b""
        for j, m in enumerate(self.msgs):
            vals = []
            for p in self.proc[j]:
                kind, ty, base = p
                v = base
                if kind == "noise":
                    v = base + (rng.gauss(0, 3) if ty == "float" else rng.randrange(-3, 4))
                elif kind == "count":
                    p[2] = v = base + 1
                elif kind == "jump" and rng.random() < 0.15:
                    v = base + rng.choice([1, 7, 40])
                elif kind == "wide":
                    v = base + (rng.gauss(0, 300) if ty == "float" else rng.randrange(-90, 91))
                if ty == "float":
                    v = struct.unpack("<f", struct.pack("<f", v))[0]
                elif ty.endswith("64_t"):
                    v = max(0, int(v))
                else:
                    lo, hi = G.RANGES[ty]
                    v = min(hi, max(lo, int(v)))
                vals.append(v)
            out += wire.frame(m, struct.pack(m.fmt, *vals), self.seq, self.sys, self.comp[j])
            self.seq = (self.seq + 1) % 256
        return out + self.pad


def make_layouts(rng, count, max_bytes=44, wide64=False):
    """Layouts of equal size; the first is always fully covered by messages."""
    pool = [m for m in G.scalar_msgs() if m.size + 8 <= max_bytes and m.size > 0]
    if not wide64:
        pool = [m for m in pool if not any(t.endswith("64_t") for _, t, _ in m.wire_fields)]
    small = [m for m in pool if m.size <= 14]

    def pick(limit):
        out, used = [], 0
        for _ in range(rng.randrange(1, 4)):
            c = [m for m in (small if rng.random() < 0.7 else pool) if used + m.size + 8 <= limit]
            if not c:
                break
            m = rng.choice(c)
            out.append(m)
            used += m.size + 8
        return out, used

    msgs, total = pick(max_bytes)
    lays = [Layout(rng, msgs, total)]
    for _ in range(count - 1):
        best = None
        for _ in range(30):
            ms, used = pick(total)
            if ms and (best is None or used > best[1]):
                best = (ms, used)
                if used == total:
                    break
        if best is None:
            best = (msgs, total)
        lays.append(Layout(rng, best[0], total))
    return lays, total


def rand_history(rng, n_steps, lays, total, parity, *, fault_rate=0.5, kinds=None, outcomes=None, order=None, real=False, max_faults=3):
    """Steps of a session: buffers from the sources, channel faults, decoder outcomes."""
    n = total * 8 + parity
    kinds = kinds or rng.sample(CHANNEL_FAULTS, rng.randrange(2, 7))
    weights = outcomes or rng.choice([{"ok": 6, "fail": 3, "mis": 1}, {"ok": 2, "fail": 6, "mis": 1}, {"ok": 4, "fail": 4, "mis": 0},
                                      {"ok": 9, "fail": 1, "mis": 0}, {"ok": 3, "fail": 3, "mis": 3}])
    bag = [o for o, c in weights.items() for _ in range(c)]
    order = order or rng.choice(["cycle", "random", "blocks"])
    steps = []
    t = 0.0
    cur = 0
    for i in range(n_steps):
        t += rng.choice([0.5, 1.0, 1.0, 7.0])
        if order == "cycle":
            cur = i % len(lays)
        elif order == "random":
            cur = rng.randrange(len(lays))
        elif rng.random() < 0.2:
            cur = rng.randrange(len(lays))
        r = rng.random()
        if r < 0.9:
            info = lays[cur].emit(rng)
        elif r < 0.95:
            info = bytes(rng.randrange(256) for _ in range(total))
        else:
            info = bytes([rng.choice([0, 255])]) * total
        st = {"t": round(t, 2), "info": info.hex(), "amp": rng.choice([0.5, 2.0, 2.0, 10.0]), "jit": rng.choice([0, rng.randrange(1, 2**31)]),
              "mis": rng.randrange(1, 2**31), "faults": [], "out": [rng.choice(bag) for _ in range(3)]}
        if real:
            st["out"] = ["real"]
        if rng.random() < fault_rate:
            st["faults"] = [rand_fault(rng, n, total, kinds) for _ in range(rng.randrange(1, max_faults + 1))]
        steps.append(st)
    return steps


def mis_word(code, seed):
    r = np.random.RandomState(seed)
    info = np.zeros(code.k, dtype=np.int64)
    info[r.choice(code.k, size=min(code.k, 1 + seed % 5), replace=False)] = 1
    return code.encode(info)
