"""A whole experiment run inside the simulator.

The runner scripts of /repo/runs are executed unmodified, as __main__, in a forked process whose working directory is a scratch folder.  Behind
seams: the process pool (real forked workers, one at a time, in the order and with the sharing of work the plan dictates), the clock, the entropy,
the disk (refused opens, torn writes, death of the whole run at a write), the figures and the error-correcting decoder (a stand-in that knows the
sent words and answers right, wrong, or wrong and unnoticed).  Everything the decoders and receivers are asked and answer is recorded.
"""
import builtins
import concurrent.futures
import concurrent.futures.process
import copy
import errno
import inspect
import io
import mmap
import os
import pickle
import runpy
import shutil
import signal
import sys
import tempfile
import time
import types
import zlib

from sim import repo
import numpy as np
import datetime as _dt
import multiprocessing
import multiprocessing.pool
import lzma
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot  # noqa: F401,E402
import matplotlib.figure  # noqa: E402
import pandas as pd  # noqa: F401,E402
import scipy.io  # noqa: E402
import scipy.special  # noqa: F401,E402
import ldpc.decoder  # noqa: E402
import ldpc.encoder  # noqa: E402
from ldpc.wifi_spec_codes import WiFiSpecCode  # noqa: E402
import decoders  # noqa: E402
import inference  # noqa: E402
import mavlink_utils  # noqa: F401,E402
from protocol_meta import dialect_meta as meta  # noqa: F401,E402

HOME = "runs/HC_eilat_July_2018"
_open, _default_rng, _exit = builtins.open, np.random.default_rng, os._exit
_Enc, _Soft, _Wbf, _Gal = ldpc.encoder.EncoderWiFi, ldpc.decoder.DecoderWiFi, ldpc.decoder.WbfDecoder, ldpc.decoder.GalBfDecoder
_Spa = ldpc.decoder.LogSpaDecoder
_SeedSequence = np.random.SeedSequence
_RandomState = np.random.RandomState
_ENC = {}
_DATA = {}


def transmissions(delay="50000"):
    """The recorded telemetry buffers (raw bytes)."""
    if delay not in _DATA:
        with _open(os.path.join(repo.REPO, HOME, "data", "hc_to_ship.pickle"), "rb") as f:
            for k, v in pickle.load(f).items():
                _DATA[k] = [t["bin"] for t in v]
    return _DATA[delay]


def code(spec):
    """Encoder of a code, built once (building one takes longer than a run)."""
    if spec not in _ENC:
        _ENC[spec] = _Enc(spec=spec)
    return _ENC[spec]


def write_code(path, n, m):
    """A small parity check matrix in the format the scripts read."""
    cols = [[1 + c % m] for c in range(n)]
    rows = [[c + 1 for c in range(r, n, m)] for r in range(m)]
    with _open(path, "w") as f:
        f.write(f"{n} {m}\n1 {max(len(r) for r in rows)}\n" + " ".join("1" for _ in cols) + "\n" + " ".join(str(len(r)) for r in rows) + "\n")
        for r in cols + rows:
            f.write("\t".join(map(str, r)) + "\n")


class _Clock:
    """Shared by all processes of the run."""

    def __init__(self, plan):
        self.base = _dt.datetime(2026, 3, 28, 23, 59, 50) + _dt.timedelta(seconds=plan.get("start", 0))
        self.ticks = plan.get("ticks") or [0]


class World:
    """State of one experiment process tree (counters live in shared memory)."""

    def __init__(self, plan, scratch):
        self.plan, self.scratch = plan, scratch
        self.mem = mmap.mmap(-1, 64)
        self.worker = 0
        self.item = None
        self.rec = []
        self.draws = 0
        self.words = []
        self.clock = _Clock(plan)
        self.plain_calls = 0
        self.refused = None

    def count(self, slot):
        o = slot * 8
        v = int.from_bytes(self.mem[o:o + 8], "little")
        self.mem[o:o + 8] = (v + 1).to_bytes(8, "little")
        return v

    def peek(self, slot):
        return int.from_bytes(self.mem[slot * 8:slot * 8 + 8], "little")

    def now(self):
        k = self.count(0)
        t = self.clock.ticks
        full, rest = divmod(k, len(t))
        return self.clock.base + _dt.timedelta(seconds=full * sum(t) + sum(t[:rest]))

    def flush(self):
        with _open(os.path.join(self.scratch, ".trace"), "ab") as f:
            pickle.dump(self.rec, f)
        self.rec = []

    def die(self):
        """The machine goes down: this process and, through its silence, all others end here."""
        self.flush()
        self.count(3)
        _exit(9)


W = None


# ------------------------------------------------------------------ error-correcting code: real encoder, stand-in decoder
class Encoder(_Enc):
    def __init__(self, spec):
        self.__dict__.update(code(spec).__dict__)

    def encode(self, information_bits):
        w = super().encode(information_bits)
        W.words.append(np.array(w, dtype=np.int8))
        W.rec.append(("sent", np.array(w, dtype=np.int8)))
        return w


def _answer(self, x):
    hard = np.array(np.asarray(x, dtype=float) < 0, dtype=np.int8)
    n = hard.size
    pool = [w for w in W.words if w.size == n]
    d = [int(np.count_nonzero(w != hard)) for w in pool]
    j = int(np.argmin(d))
    h = zlib.crc32(hard.tobytes() + f"{W.plan['salt']}:{self._cls}:{self._variant}".encode())
    u = h % 100
    lim = W.plan.get("mix", [50, 70, 82])
    out = pool[j].copy()
    if u < lim[0]:
        ok = True
    elif u < lim[1]:  # gives up with the received bits, some corrected
        keep = np.flatnonzero(out != hard)
        out[keep[: 1 + (h >> 8) % max(1, keep.size)]] ^= 1
        ok = False
    elif u < lim[2]:  # right, yet reported as a failure
        ok = False
    else:  # wrong and unnoticed
        q = np.flatnonzero(np.array([int(np.count_nonzero(w != out)) for w in pool]))
        out = pool[q[(h >> 8) % q.size]].copy() if q.size and (h >> 16) % 2 else out
        if int(np.count_nonzero(out != pool[j])) == 0:
            out[(h >> 8) % n] ^= 1
            out[(h >> 5) % n] ^= 1
        ok = True
    est = out.astype(np.int_)
    it = 1 + h % max(1, self.max_iter)
    syn = np.array([0 if ok else 1] * 3, dtype=np.int_)
    val = np.array([h % 3, 0, 1], dtype=np.int_)
    llr = (1.0 - 2.0 * est) * (1.5 + (h % 7))
    return est, llr, ok, it, syn, val


def _note_new(self, cls, args):
    self._iid = W.count(1)
    self._cls = cls
    W.rec.append(("new", self._iid, cls, args, W.item))


def _plain_call(self, x, rest):
    """A decode of the stand-in; faults of the plan hit the top-level ones."""
    W.plain_calls += 1
    f = W.plan.get("fault") or {}
    if f.get("kind") == "decoder" and (W.item is None or W.item == f["item"]) and W.plain_calls == f["call"]:
        W.count(4)
        raise RuntimeError("simulated decoder failure")
    a = _answer(self, x)
    return a


class Soft(_Soft):
    def __init__(self, spec, max_iter, channel_model=None, decoder_type="BP"):
        e = code(spec)
        self.n, self.k, self.m, self.max_iter = e.n, e.k, e.n - e.k, max_iter
        self.info_idx = np.array([True] * e.k + [False] * (e.n - e.k))
        self.spec, self.decoder_type, self.channel_model = spec, decoder_type, channel_model
        self._variant = decoder_type
        _note_new(self, "soft", {"n": e.n, "k": e.k, "max_iter": max_iter, "type": decoder_type, "channel": channel_model is not None})

    def decode(self, channel_word, max_iter=None):
        r = _plain_call(self, channel_word, None)
        W.rec.append(("call", self._iid, np.array(channel_word, dtype=float), None, copy.deepcopy(r)))
        return r

    def info_bits(self, estimate):
        return estimate[self.info_idx]

    def update_channel_model(self, m):
        self.channel_model = m


class _Hard:
    def info_bits(self, estimate):
        return estimate[self.info_idx]

    def __getstate__(self):
        d = dict(self.__dict__)
        d["h"] = (self.h.shape, self.h.dtype, np.packbits(self.h != 0))
        return d

    def __setstate__(self, d):
        shape, kind, b = d["h"]
        self.__dict__.update(d, h=np.unpackbits(b, count=shape[0] * shape[1]).reshape(shape).astype(kind))

    def _set(self, h, max_iter, info_idx):
        self.h = np.asarray(h)
        self.m, self.n = self.h.shape
        self.k = self.n - self.m
        self.max_iter = max_iter
        self.info_idx = np.array(info_idx) if info_idx is not None else np.array([True] * self.k + [False] * self.m)


class Spa(_Spa):
    """Stand-in for the decoder of a code given by its parity check matrix."""

    def __init__(self, h, max_iter, info_idx=None, channel_model=None, decoder_type="BP"):
        self.m, self.n = h.shape
        self.h = h
        self.max_iter, self.info_idx, self.decoder_type, self.channel_model = max_iter, info_idx, decoder_type, channel_model
        self._variant = decoder_type
        i = np.asarray(info_idx)
        _note_new(self, "spa", {"n": self.n, "m": self.m, "k": int(i.sum()), "info": bool(np.array_equal(i, np.arange(self.n) < i.sum())),
                                "max_iter": max_iter, "type": decoder_type, "channel": channel_model is not None})

    decode = Soft.decode
    info_bits = Soft.info_bits
    update_channel_model = Soft.update_channel_model


class Wbf(_Hard, _Wbf):
    def __init__(self, h, max_iter, decoder_variant, info_idx=None, **kw):
        self._set(h, max_iter, info_idx)
        self.decoder_variant = decoder_variant
        self._variant = decoder_variant.name
        _note_new(self, "wbf", {"n": self.n, "k": self.k, "max_iter": max_iter, "type": decoder_variant.name,
                                "info": bool(np.array_equal(self.info_idx, np.arange(self.n) < self.k))})

    def decode(self, channel_llr, prior_reliability=None):
        e, _, ok, it, s, v = _plain_call(self, channel_llr, prior_reliability)
        W.rec.append(("call", self._iid, np.array(channel_llr, dtype=float), None, copy.deepcopy((e, ok, it, s, v))))
        return e, ok, it, s, v


class Gal(_Hard, _Gal):
    def __init__(self, h, max_iter, info_idx=None, percent_flipped=10):
        self._set(h, max_iter, info_idx)
        self._variant = "gal"
        _note_new(self, "gal", {"n": self.n, "k": self.k, "max_iter": max_iter, "type": "gal",
                                "info": bool(np.array_equal(self.info_idx, np.arange(self.n) < self.k))})

    def decode(self, channel_word):
        x = np.array(channel_word, dtype=float)
        e, _, ok, it, s, v = _plain_call(self, x if x.min() < 0 else 1 - 2 * x, None)  # takes hard bits or llrs, as the real one
        W.rec.append(("call", self._iid, np.array(channel_word, dtype=float), None, copy.deepcopy((e, ok, it, s, v))))
        return e, ok, it, s, v


def _plainly(v):
    if isinstance(v, (Soft, Spa, Wbf, Gal)):
        return ("decoder", v._iid)
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, np.ndarray):
        return ("array", v.shape, zlib.crc32(np.ascontiguousarray(v).tobytes()))
    return ("object", type(v).__name__, zlib.crc32(repr(_state(v)).encode()))


def _state(v, depth=0):
    """What an object holds, as plain values (the same code reads it here and in the oracle)."""
    if isinstance(v, dict):
        return [(str(k), _state(x, depth + 1)) for k, x in v.items()]
    if isinstance(v, np.ndarray):
        return (v.shape, zlib.crc32(np.ascontiguousarray(v).tobytes()))
    if isinstance(v, (list, tuple)):
        return [_state(x, depth + 1) for x in v] if len(v) < 50 else (len(v), zlib.crc32(repr(v).encode()))
    if hasattr(v, "__dict__") and depth < 6 and not isinstance(v, type) and not callable(v):
        return [(k, _state(x, depth + 1)) for k, x in sorted(vars(v).items())]
    return type(v).__name__ if callable(v) else v.item() if isinstance(v, np.generic) else v


def field_model(path):
    """A ready-made field model of the repository, as recorded."""
    if path not in _DATA:
        _DATA[path] = _plainly(inference.BufferModel.load(os.path.join(repo.REPO, path)))
    return _DATA[path]


def models():
    """The ready-made models of the repository: (for the field decoders, for the pre-trained receiver), as recorded."""
    if "models" not in _DATA:
        import json
        d = os.path.join(repo.REPO, HOME, "data")
        with _open(os.path.join(d, "encoded_data_data_model_1_clusters.json")) as f:
            a = np.array(json.load(f))
        _DATA["models"] = (_plainly(inference.BufferModel.load(os.path.join(d, "model_2018_all.json"))), _plainly(a))
    return _DATA["models"]


def _record_receiver(cls):
    init, dec = cls.__init__, cls.decode_buffer
    sig = inspect.signature(init)
    sets = getattr(cls, "set_buffer_structures", None)

    def __init__(self, *a, **k):
        if type(self) is cls:
            b = sig.bind(self, *a, **k)
            b.apply_defaults()
            args = {x: _plainly(v) for x, v in list(b.arguments.items())[1:]}
            _note_new(self, cls.__name__, args)
            W.rec.append(("setup", self._iid, pickle.dumps((a, k))))
        init(self, *a, **k)

    def decode_buffer(self, channel_llr, *a, **k):
        x = np.array(channel_llr, dtype=float)
        e = a[0] if a else next(iter(k.values()), None)
        e = None if e is None else np.array(e)
        r = dec(self, channel_llr, *a, **k)
        W.rec.append(("call", self._iid, x, e, copy.deepcopy(r)))
        return r

    cls.__init__, cls.decode_buffer = __init__, decode_buffer
    if sets is not None:
        def set_buffer_structures(self, bs):
            W.rec.append(("structures", self._iid, [{int(o): int(m) for o, m in getattr(s, "structure", s).items()} for s in bs]))
            return sets(self, bs)
        cls.set_buffer_structures = set_buffer_structures


def replay(cls, setup, structures, calls, answers):
    """The answers of a new receiver, set up alike, to the same words; what the error-correcting decoder said is taken from the record."""
    a, k = pickle.loads(setup)

    def decode(x, *_):
        x = np.array(x, dtype=float)
        r = answers.get(x.tobytes())
        if r is None:
            r = next((v for b, v in answers.items() if len(b) == x.nbytes and np.allclose(np.frombuffer(b), x, rtol=1e-9, atol=1e-12)), None)
        if r is None:
            raise LookupError
        return copy.deepcopy(r)

    for v in list(a) + list(k.values()):
        if isinstance(v, (Soft, Spa, Wbf, Gal)):
            v.decode = decode
    r = getattr(decoders, cls)(*a, **k)
    if structures is not None:
        r.set_buffer_structures(structures)
    try:
        inspect.signature(type(r).decode_buffer).bind(r, None)
        alone = True
    except TypeError:
        alone = False
    for x, e, _ in calls:
        try:
            yield r.decode_buffer(x.copy(), *([] if e is None and alone else [copy.deepcopy(e)]))
        except LookupError:
            yield None
            return


# ------------------------------------------------------------------ process pool
class Pool:
    """multiprocessing.Pool with real forked workers of which one runs at a time, in the plan's order."""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        n = processes or W.plan.get("cpus", 4)
        self.n = n
        self.w = []
        self.items = self.chunks = 0  # handed out so far
        for i in range(n):
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(w1)
                os.close(r2)
                for q in self.w:
                    os.close(q[1])
                    os.close(q[2])
                try:
                    self._serve(i + 1, r1, w2, initializer, initargs)
                finally:
                    _exit(0)
            os.close(r1)
            os.close(w2)
            self.w.append((pid, w1, r2))

    @staticmethod
    def _send(fd, obj):
        b = pickle.dumps(obj)
        b = len(b).to_bytes(8, "little") + b
        while b:
            b = b[os.write(fd, b):]

    @staticmethod
    def _recv(fd):
        def get(n):
            out = b""
            while len(out) < n:
                c = os.read(fd, min(1 << 20, n - len(out)))
                if not c:
                    return None
                out += c
            return out
        h = get(8)
        return None if h is None else pickle.loads(get(int.from_bytes(h, "little")))

    def _serve(self, wid, rd, wr, initializer, initargs):
        W.worker, W.rec, W.draws, W.pid = wid, [], 0, os.getpid()
        if initializer:
            initializer(*initargs)
        while True:
            m = self._recv(rd)
            if m is None:
                return
            fn, star, start, chunk = m
            out = []
            try:
                for j, x in enumerate(chunk):
                    W.item, W.plain_calls = start + j, 0
                    r = fn(*x) if star else fn(x)
                    W.rec.append(("done", W.item, wid, pickle.dumps(r)))
                    W.flush()
                    out.append(r)
                self._send(wr, ("ok", out))
            except Exception as e:  # noqa: BLE001
                W.rec.append(("failed", W.item, wid))
                W.flush()
                try:
                    pickle.loads(pickle.dumps(e))
                except Exception:  # noqa: BLE001
                    e = RuntimeError(repr(e))
                self._send(wr, ("err", e))

    def _run(self, fn, items, chunksize, star):
        items = list(items)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            chunksize += bool(extra)
        chunksize = max(1, chunksize)
        chunks = [(self.items + i, items[i:i + chunksize]) for i in range(0, len(items), chunksize)]
        sched = W.plan.get("sched") or [0]
        queue = {}
        for c in range(len(chunks)):  # whoever is free takes the next chunk: the plan says who that is
            queue.setdefault(sched[(self.chunks + c) % len(sched)] % self.n, []).append(c)
        self.items, self.chunks = self.items + len(items), self.chunks + len(chunks)
        order = W.plan.get("order") or [0]
        res, failed, k = {}, None, 0
        while queue:
            ws = sorted(queue)
            w = ws[order[k % len(order)] % len(ws)]
            k += 1
            c = queue[w].pop(0)
            if not queue[w]:
                del queue[w]
            W.rec.append(("sched", w, c))
            self._send(self.w[w][1], (fn, star, chunks[c][0], chunks[c][1]))
            a = self._recv(self.w[w][2])
            if a is None:
                W.flush()
                _exit(9)
            if a[0] == "ok":
                res[c] = a[1]
            else:
                failed = failed or a[1]
        if failed is not None:
            raise failed
        return [r for c in range(len(chunks)) for r in res[c]]

    def map(self, func, iterable, chunksize=None):
        return self._run(func, iterable, chunksize, False)

    def starmap(self, func, iterable, chunksize=None):
        return self._run(func, iterable, chunksize, True)

    def imap(self, func, iterable, chunksize=1):
        return iter(self._run(func, iterable, chunksize, False))

    def imap_unordered(self, func, iterable, chunksize=1):
        items = list(iterable)
        r = self._run(func, items, chunksize, False)
        o = W.plan.get("order") or [0]
        return iter([r[i] for i in sorted(range(len(r)), key=lambda i: (o[i % len(o)], -i))])

    def apply(self, func, args=(), kwds=None):
        return self._run(_Apply(func, kwds or {}), [tuple(args)], 1, True)[0]

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        return _Later(lambda: self.apply(func, args, kwds), callback)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        items = list(iterable)
        return _Later(lambda: self.map(func, items, chunksize), callback)

    def close(self):
        pass

    join = close

    def terminate(self):
        for pid, a, b in self.w:
            os.close(a)
            os.close(b)
        for pid, _, _ in self.w:
            os.waitpid(pid, 0)
        self.w = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class _Apply:
    def __init__(self, f, kw):
        self.f, self.kw = f, kw

    def __call__(self, *a):
        return self.f(*a, **self.kw)


class _Later:
    def __init__(self, run, callback):
        self._ok, self._v = True, None
        try:
            self._v = run()
            if callback:
                callback(self._v)
        except Exception as e:  # noqa: BLE001
            self._ok, self._v = False, e

    def get(self, timeout=None):
        if self._ok:
            return self._v
        raise self._v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self._ok


class Executor:
    """concurrent.futures.ProcessPoolExecutor on the same workers."""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **_):
        self.pool = Pool(max_workers, initializer, initargs)

    def map(self, fn, *its, timeout=None, chunksize=1):
        return iter(self.pool.starmap(fn, list(zip(*its)), chunksize))

    def submit(self, fn, *a, **k):
        f = concurrent.futures.Future()
        try:
            f.set_result(self.pool.apply(fn, a, k))
        except Exception as e:  # noqa: BLE001
            f.set_exception(e)
        return f

    def shutdown(self, *a, **k):
        self.pool.terminate()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.pool.terminate()


# ------------------------------------------------------------------ clock, entropy, disk
class _DateTime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        t = W.now()
        return cls(t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond, tz)

    today = utcnow = now


class _Date(_dt.date):
    @classmethod
    def today(cls):
        t = W.now()
        return cls(t.year, t.month, t.day)


def _entropy():
    W.draws += 1
    who = W.worker if os.getpid() == W.pid else 1000 + os.getpid()  # processes not started through the pool seam
    return [W.plan["seed"], who, W.draws]


def _rng(seed=None):
    return _default_rng(_SeedSequence(_entropy())) if seed is None else _default_rng(seed)


class _Seq(_SeedSequence):
    def __init__(self, entropy=None, **kw):
        super().__init__(_entropy() if entropy is None else entropy, **kw)


class _AnyState(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _RandomState)


class _State(np.random.RandomState, metaclass=_AnyState):
    def __init__(self, seed=None):
        super().__init__(_entropy() if seed is None else seed)


class _Torn:
    """A file whose disk fills up."""

    def __init__(self, f, room):
        self._f, self._room = f, room

    def __getattr__(self, a):
        return getattr(self._f, a)

    def write(self, b):
        b = b if isinstance(b, str) else bytes(b)
        self._f.write(b[:self._room])
        if len(b) > self._room:
            self._room = 0
            W.count(4)
            raise OSError(errno.ENOSPC, "No space left on device")
        self._room -= len(b)
        return len(b)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._f.close()

    def __iter__(self):
        return iter(self._f)


def _fault_open(file, mode="r", *a, **k):
    if isinstance(file, (str, os.PathLike)) and any(c in mode for c in "wxa+"):
        p = os.path.abspath(os.fspath(file))
        if p.startswith(W.scratch + os.sep) and not p.endswith(".log"):
            i = W.count(2)
            f = W.plan.get("fault") or {}
            if p == W.refused:  # it stays refused
                raise OSError(errno.EACCES, "Permission denied")
            if f.get("at") == i:
                if f["kind"] == "open":
                    W.count(4)
                    W.refused = p
                    raise OSError(errno.EACCES, "Permission denied")
                if f["kind"] == "write":
                    return _Torn(_open(file, mode, *a, **k), f["room"])
                if f["kind"] == "crash":
                    W.count(4)
                    W.die()
    return _open(file, mode, *a, **k)


def _savefig(self, fname, *a, **k):
    with builtins.open(fname, "wb") as f:
        f.write(b"figure")


# ------------------------------------------------------------------ running
def _child(script, argv, plan, scratch, words=(), hook=None):
    global W
    W = World(plan, scratch)
    W.words = list(words)
    W.pid = os.getpid()
    os.chdir(scratch)
    null = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(null, fd)
    sys.stdout, sys.stderr = _open(1, "w", closefd=False), _open(2, "w", closefd=False)
    proxy = types.ModuleType("datetime")
    proxy.__dict__.update(_dt.__dict__)
    proxy.datetime, proxy.date = _DateTime, _Date
    sys.modules["datetime"] = proxy
    multiprocessing.Pool = multiprocessing.pool.Pool = Pool
    multiprocessing.context.BaseContext.Pool = lambda self, *a, **k: Pool(*a, **k)
    concurrent.futures.ProcessPoolExecutor = concurrent.futures.process.ProcessPoolExecutor = Executor
    sys.path.insert(0, os.path.dirname(script))  # as python does for a script
    np.random.default_rng, np.random.SeedSequence, np.random.RandomState = _rng, _Seq, _State
    np.random.seed(plan["seed"] % 2**32)
    import random
    random.seed(plan["seed"])
    builtins.open = io.open = _fault_open
    lzma_open = lzma.open
    lzma.open = lambda f, mode="rb", **k: lzma_open(f, mode, **({"preset": 0} if "w" in mode and not k else k))  # only quicker
    matplotlib.figure.Figure.savefig = _savefig
    ldpc.encoder.EncoderWiFi = Encoder
    ldpc.decoder.LogSpaDecoder = Spa
    ldpc.decoder.DecoderWiFi, ldpc.decoder.WbfDecoder, ldpc.decoder.GalBfDecoder = Soft, Wbf, Gal
    for c in (decoders.ClassifyingEntropyDecoder, decoders.ClassifyingDudeDecoder, decoders.MavlinkRectifyingDecoder,
              decoders.CombinedUnifiedDecoder, decoders.CombinedDecoder):
        _record_receiver(c)
    if hook:
        hook()
    sys.argv = [script] + list(argv)
    out = ("ok", None, None)
    try:
        runpy.run_path(script, run_name="__main__")
    except SystemExit as e:
        out = ("exit", "SystemExit", str(e.code)) if e.code not in (None, 0) else out
    except BaseException as e:  # noqa: BLE001
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if f.filename.startswith(repo.REPO)), "?")
        out = ("raised", type(e).__name__, f"{e} (in {where})")
    W.flush()
    with _open(os.path.join(scratch, ".outcome"), "wb") as f:
        pickle.dump((out, W.peek(2), W.peek(4)), f)
    _exit(0)


class Result:
    pass


WALL_S = 90.0


def run(script, argv, plan, data, prepare=None, home=HOME, words=(), hook=None):
    """Executes one experiment; returns what it left behind.  The scratch folder is created and removed here."""
    scratch = tempfile.mkdtemp(prefix="simexp-")
    try:
        os.mkdir(os.path.join(scratch, "results"))
        os.mkdir(os.path.join(scratch, "data"))
        src = os.path.join(repo.REPO, home, "data")
        for f in os.listdir(src) if os.path.isdir(src) else ():
            if f != "hc_to_ship.pickle":
                if os.path.isfile(os.path.join(src, f)):  # a copy: nothing a run does can reach the repository
                    shutil.copyfile(os.path.join(src, f), os.path.join(scratch, "data", f))
        if data is not None:
            with _open(os.path.join(scratch, "data", "hc_to_ship.pickle"), "wb") as f:
                pickle.dump({k: [{"bin": b} for b in v] for k, v in data.items()}, f)
        if prepare:
            prepare(scratch)
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                _child(os.path.join(repo.REPO, home, script), argv, plan, scratch, words, hook)
            finally:
                _exit(7)
        end = time.monotonic() + WALL_S
        nap = 0.002
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.monotonic() > end:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                st = None
                break
            time.sleep(nap)
            nap = min(0.05, nap * 1.3)
        r = Result()
        r.hung = st is None
        r.code = None if st is None else os.waitstatus_to_exitcode(st)
        r.outcome, r.writes, r.hit = ("crash", None, None), None, None
        o = os.path.join(scratch, ".outcome")
        if os.path.exists(o):
            with _open(o, "rb") as f:
                r.outcome, r.writes, r.hit = pickle.load(f)
        r.trace = []
        t = os.path.join(scratch, ".trace")
        if os.path.exists(t):
            with _open(t, "rb") as f:
                while True:
                    try:
                        r.trace.extend(pickle.load(f))
                    except EOFError:
                        break
        r.files = _tree(scratch, ("data", "spec"))
        r.files = {k: v for k, v in r.files.items() if not k.startswith((".trace", ".outcome"))}
        r.data = _tree(os.path.join(scratch, "data"))
        return r
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _tree(root, skip=()):
    out = {}
    for d, ds, fs in os.walk(root):
        if d == root:
            ds[:] = [x for x in ds if x not in skip]
        for f in fs:
            p = os.path.join(d, f)
            if os.path.islink(p):
                continue
            with _open(p, "rb") as g:
                out[os.path.relpath(p, root)] = g.read()
        if not fs and d != root:
            out[os.path.relpath(d, root) + os.sep] = b""
    return out
