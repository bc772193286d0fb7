"""Helpers of the demonstrations: independent MAVLink 1 frames, a small systematic code and a scripted error-correcting decoder.
Runs with the repository as the working directory."""
import contextlib
import io
import os
import struct
import sys

sys.path.insert(0, os.getcwd())
import numpy as np  # noqa: E402
from ldpc.decoder import GalBfDecoder, LogSpaDecoder, WbfDecoder  # noqa: E402


def crc16(data, extra):
    c = 0xffff
    for b in bytes(data) + bytes([extra]):
        t = b ^ (c & 0xff)
        t = (t ^ (t << 4)) & 0xff
        c = (c >> 8) ^ (t << 8) ^ (t << 3) ^ (t >> 4)
        c &= 0xffff
    return c


def cls_of(mid, dialect="HC_dialect"):
    return getattr(__import__("mavlink_utils." + dialect, fromlist=["x"]), "mavlink_map")[mid]


def frame(mid, *values, seq=0, sysid=1, comp=1, payload=None, dialect="HC_dialect"):
    """One frame; values in wire order."""
    c = cls_of(mid, dialect)
    if payload is None:
        n = len(struct.unpack(c.unpacker.format, bytes(c.unpacker.size)))
        v = list(values) + [0] * (n - len(values))
        payload = struct.pack(c.unpacker.format, *v)
    body = bytes([len(payload), seq, sysid, comp, mid]) + payload
    return b"\xfe" + body + struct.pack("<H", crc16(body, c.crc_extra))


def bits(b):
    return np.unpackbits(np.frombuffer(bytes(b), dtype=np.uint8)).astype(np.int64)


class Code:
    def __init__(self, k, m=24, seed=1):
        r = np.random.RandomState(seed)
        p = np.zeros((m, k), dtype=np.int64)
        for j in range(k):
            p[r.choice(m, 3, replace=False), j] = 1
        self.k, self.m, self.n, self.p = k, m, k + m, p
        self.h = np.concatenate([p, np.eye(m, dtype=np.int64)], axis=1)

    def encode(self, info):
        info = np.asarray(info, dtype=np.int64)
        return np.concatenate([info, self.p @ info % 2])


class _Stub:
    def __init__(self, code):
        self.code, self.h, self.n, self.k, self.m = code, code.h.copy(), code.n, code.k, code.m
        self.info_idx = np.array([True] * code.k + [False] * code.m)
        self.max_iter, self.words, self.out, self.hard_input, self.calls = 5, [], [], False, 0

    def info_bits(self, e):
        return e[self.info_idx]

    def run(self, w):
        """out: a codeword (success), or None (failure, hard decisions)"""
        w = np.array(w)
        self.words.append(w)
        self.calls += 1
        o = self.out.pop(0) if self.out else None
        e = (w > 0).astype(np.int64) if self.hard_input else (w < 0).astype(np.int64)
        if o is not None:
            e = np.array(o, dtype=np.int64)
        elif not (self.h @ e % 2).any():
            e[-1] ^= 1
        s = self.h @ e % 2
        llr = (1. - 2 * e) * (1 + self.calls / 8.)
        return e, llr, not s.any(), self.calls, s, s @ self.h


class Soft(_Stub, LogSpaDecoder):
    info_bits = _Stub.info_bits

    def decode(self, w, max_iter=None):
        return self.run(w)


class Gal(_Stub, GalBfDecoder):
    info_bits = _Stub.info_bits

    def decode(self, w):
        self.hard_input = True
        e, _, ok, it, s, v = self.run(w)
        return e, ok, it, s, v


class Wbf(_Stub, WbfDecoder):
    info_bits = _Stub.info_bits

    def decode(self, w, prior=None):
        e, _, ok, it, s, v = self.run(w)
        return e, ok, it, s, v.astype(float)


def soft(word, a=2.0):
    return (1. - 2 * np.asarray(word)) * a


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def need(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)


class Run:
    pass


def experiment(script, *args, count=4, prelude="", before=None):
    """Runs a script of runs/HC_eilat_July_2018 in a scratch folder of its own, on the first transmissions recorded; prelude runs before it."""
    import lzma
    import pickle
    import shutil
    import subprocess
    import tempfile
    repo = os.getcwd()
    home = os.path.join(repo, "runs", "HC_eilat_July_2018")
    d = tempfile.mkdtemp(prefix="demo-run-")
    try:
        os.mkdir(os.path.join(d, "results"))
        os.mkdir(os.path.join(d, "data"))
        for f in os.listdir(os.path.join(home, "data")):
            if f != "hc_to_ship.pickle":
                os.symlink(os.path.join(home, "data", f), os.path.join(d, "data", f))
        with open(os.path.join(home, "data", "hc_to_ship.pickle"), "rb") as f:
            tx = pickle.load(f)["50000"][:count]
        with open(os.path.join(d, "data", "hc_to_ship.pickle"), "wb") as f:
            pickle.dump({"50000": [{"bin": t["bin"]} for t in tx]}, f)
        if before:
            before(d)
        code = f"import sys, runpy\nsys.argv = {[script, *map(str, args)]!r}\n{prelude}\nrunpy.run_path({os.path.join(home, script)!r}, run_name='__main__')\n"
        with open(os.path.join(d, "go.py"), "w") as f:
            f.write(code)
        env = dict(os.environ, PYTHONPATH=repo, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        p = subprocess.run([sys.executable, "go.py"], cwd=d, env=env, capture_output=True, text=True, timeout=240)
        r = Run()
        r.rc, r.err = p.returncode, p.stderr
        r.files = {}
        for root, _, fs in os.walk(os.path.join(d, "results")):
            for f in fs:
                with open(os.path.join(root, f), "rb") as g:
                    r.files[os.path.relpath(os.path.join(root, f), d)] = g.read()
        for f in os.listdir(d):
            if f.endswith(".pickle"):
                with open(os.path.join(d, f), "rb") as g:
                    r.files[f] = g.read()
        r.results = next((pickle.loads(lzma.decompress(b)) for f, b in r.files.items() if f.endswith(".xz")), None)
        loaded = [pickle.loads(b) for f, b in r.files.items() if f.endswith(".pickle") and b]
        r.steps = [x for x in loaded if isinstance(x, dict) and "number_of_buffers" in x]
        r.summary = next((x for x in loaded if isinstance(x, dict) and "args" in x), None)
        r.cmd = next((b.decode() for f, b in r.files.items() if f.endswith("cmd.txt")), "")
        r.log = next((b.decode() for f, b in r.files.items() if f.endswith("log.log") and f.count(os.sep) == 2), "")
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def telemetry(i, lat=329000000):
    """A buffer of the field trials: 123 bytes, four messages and a tail."""
    b = frame(33, i, lat, 348000000, 100 + i % 3, 5, 1, 2, 3, 4, seq=i % 256) + frame(234, i, seq=(i + 1) % 256) + frame(212, i, seq=(i + 2) % 256)
    b += frame(218, i, seq=(i + 3) % 256)
    return bits(b + bytes(123 - len(b)))


def trial(year, script, *args, days=(), prelude="", before=None, parity=16, files=None):
    """Runs a script of runs/Feb_<year> in a scratch folder of its own on recordings of two days: lists of (sent information bits or None, positions in
    error, positions erased).  Returns exit code, error text, files, results, command, the words sent and received."""
    import lzma
    import pickle
    import shutil
    import subprocess
    import tempfile
    repo = os.getcwd()
    home = os.path.join(repo, "runs", f"Feb_{year}")
    d = tempfile.mkdtemp(prefix="demo-run-")
    try:
        for f in ("results", "data", "spec"):
            os.mkdir(os.path.join(d, f))
        for f in os.listdir(os.path.join(home, "data")):
            if f.endswith(".json"):
                shutil.copy(os.path.join(home, "data", f), os.path.join(d, "data", f))
        r = Run()
        r.sent, r.recv = [], []
        n = 984 + parity
        tail = "_telemetry" if year == 2023 else ""
        for name, day in zip((14, 16) if year == 2022 else (17, 18), days):
            with open(os.path.join(d, "data", f"feb_{name}_tx{tail}.csv"), "w") as t, open(os.path.join(d, "data", f"feb_{name}_llr{tail}.csv"), "w") as x:
                for w, wrong, erased in day:
                    w, known = (telemetry(0), False) if w is None else (w, True)
                    w = np.concatenate([w, np.arange(parity) % 2])
                    y = (1. - 2 * w) * (1.1 + np.arange(n) % 7 / 3)
                    y[list(wrong)] *= -1
                    y[list(erased)] = 0
                    r.sent.append(w if known else None)
                    r.recv.append(y)
                    t.write(",".join(map(str, w if known else [2] * n)) + "\n")
                    x.write(",".join(repr(float(v)) for v in y) + "\n")
        cols = [[1 + c % parity] for c in range(n)]
        rows = [[c + 1 for c in range(q, n, parity)] for q in range(parity)]
        with open(os.path.join(d, "spec", "4098_3095_non_sys_h.alist"), "w") as f:
            f.write(f"{n} {parity}\n1 {max(map(len, rows))}\n" + " ".join("1" for _ in cols) + "\n" + " ".join(str(len(q)) for q in rows) + "\n")
            for q in cols + rows:
                f.write("\t".join(map(str, q)) + "\n")
        for f, b in (files or {}).items():
            with open(os.path.join(d, f), "w") as g:
                g.write(b)
        if before:
            before(d)
        if "experimental" in script and "--experiment_date" not in args:
            args = (*args, "--experiment_date", 14 if year == 2022 else 17)
        with open(os.path.join(d, "go.py"), "w") as f:
            f.write(f"import sys, runpy\nsys.argv = {[script, *map(str, args)]!r}\n{prelude}\nrunpy.run_path({os.path.join(home, script)!r}, run_name='__main__')\n")
        env = dict(os.environ, PYTHONPATH=repo, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        p = subprocess.run([sys.executable, "go.py"], cwd=d, env=env, capture_output=True, text=True, timeout=240)
        r.rc, r.err, r.files, r.data = p.returncode, p.stderr, {}, {}
        for root, _, fs in os.walk(os.path.join(d, "results")):
            for f in fs:
                with open(os.path.join(root, f), "rb") as g:
                    r.files[os.path.relpath(os.path.join(root, f), d)] = g.read()
        for f in os.listdir(os.path.join(d, "data")):
            if f.endswith(".json"):
                with open(os.path.join(d, "data", f), "rb") as g:
                    r.data[f] = g.read()
        r.results = next((pickle.loads(lzma.decompress(b)) for f, b in r.files.items() if f.endswith(".xz")), None)
        r.cmd = next((b.decode() for f, b in r.files.items() if f.endswith("cmd.txt")), "")
        r.summary = next((b.decode() for f, b in r.files.items() if f.endswith("summary.txt")), "")
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


# a decoder that answers at once with the received bits (success when the word is hit by few errors is not needed by the demonstrations)
QUICK = """
import numpy as np
import ldpc.decoder, ldpc.encoder
def _q(self, x, *a, **k):
    e = np.array(np.asarray(x, dtype=float) < 0, dtype=np.int_)
    return e, np.array(x, dtype=float), False, 1, np.zeros(3, dtype=np.int_), np.zeros(3, dtype=np.int_)
def _h(self, x, *a, **k):
    r = _q(self, x)
    return (r[0],) + r[2:]
ldpc.decoder.DecoderWiFi.decode = _q
ldpc.decoder.LogSpaDecoder.decode = _q
ldpc.decoder.WbfDecoder.decode = _h
ldpc.decoder.GalBfDecoder.decode = _h
"""


STAND = '''
import inference, os, pickle, numpy as np, itertools
_count = itertools.count()
_tx = np.genfromtxt("telemetry_hc_tx_info_bits_2023.csv", delimiter=",", dtype=np.int8)
def _where(b, k):
    s = 984 // k
    b = np.asarray(b).astype(np.int8)
    d = [((t[c * s:(c + 1) * s] != b[:s]).sum(), i, c) for i, t in enumerate(_tx) for c in range(k)]
    return min(d)
def _label(b, k, which):
    e, i, c = _where(b, k)
    return LABEL(i, c, which)
def _note(*a):
    with open("seen-%d-%d" % (os.getpid(), next(_count)), "wb") as f:
        pickle.dump(a, f)
def _classify(self, b):
    self.samples += 1
    r = -1 if self.samples < self.min_data_size else _label(b, self.k, 0)
    _note("classify", id(self), np.array(b), r, self.samples)
    return r
inference.BufferClassifier.classify = _classify
inference.BMM.fit = lambda self, x: _note("fit", np.array(x))
def _predict(self, x):
    r = np.array([_label(b, self.n_components, 1) for b in x])
    _note("predict", np.array(x), r)
    return r
inference.BMM.predict = _predict
'''


def compare(*args, txs=6, label="lambda i, c, which: c", prelude="", before=None):
    """Runs the clustering comparison in a scratch folder of its own with methods that answer as told; returns exit code, error text, files, results,
    command and what the methods were given."""
    import io
    import pickle
    import shutil
    import subprocess
    import tempfile
    import scipy.io
    repo = os.getcwd()
    home = os.path.join(repo, "runs", "clsutering_analysis")
    d = tempfile.mkdtemp(prefix="demo-run-")
    try:
        os.mkdir(os.path.join(d, "results"))
        q = np.random.RandomState(7)
        r = Run()
        r.tx = q.randint(0, 2, size=(txs, 984))
        with open(os.path.join(d, "telemetry_hc_tx_info_bits_2023.csv"), "w") as f:
            for t in r.tx:
                f.write(",".join(map(str, t)) + "\n")
        if before:
            before(d)
        code = (f"import sys, runpy\nsys.path.insert(0, {home!r})\nsys.argv = {['clustering_analysis.py', *map(str, args)]!r}\nLABEL = {label}\n{STAND}\n{prelude}\n"
                f"runpy.run_path({os.path.join(home, 'clustering_analysis.py')!r}, run_name='__main__')\n")
        with open(os.path.join(d, "go.py"), "w") as f:
            f.write(code)
        env = dict(os.environ, PYTHONPATH=repo, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        p = subprocess.run([sys.executable, "go.py"], cwd=d, env=env, capture_output=True, text=True, timeout=240)
        r.rc, r.err = p.returncode, p.stderr
        r.files = {}
        for root, _, fs in os.walk(os.path.join(d, "results")):
            for f in fs:
                with open(os.path.join(root, f), "rb") as g:
                    r.files[os.path.relpath(os.path.join(root, f), d)] = g.read()
        r.mat = next((scipy.io.loadmat(io.BytesIO(b)) for f, b in r.files.items() if f.endswith(".mat") and b), None)
        r.cmd = next((b.decode() for f, b in r.files.items() if f.endswith("cmd.txt")), "")
        r.log = next((b.decode() for f, b in r.files.items() if f.endswith("log.log")), "")
        r.seen = []
        for f in sorted((f for f in os.listdir(d) if f.startswith("seen-")), key=lambda f: tuple(map(int, f.split("-")[1:]))):
            with open(os.path.join(d, f), "rb") as g:
                r.seen.append((f.split("-")[1],) + pickle.load(g))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


STREAMS = {"global_position_int": (2, "Iiiffffffff"), "pinger_data": (1, "Iff"), "attitude": (2, "Iffffff"), "svs_status": (1, "IfffHB"), "chamber_status": (1, "IHHBB")}


def mission(span=400000, every=1000, values=None, tail=0):
    """Packs a simulated recording in a scratch folder; values(stream, column, stamps) -> samples. Returns rc, err and the series of transmissions."""
    import pickle
    import subprocess
    import tempfile
    import scipy.io
    repo = os.getcwd()
    kinds = {"I": np.uint32, "i": np.int32, "f": np.float64, "H": np.uint16, "B": np.uint8}
    mat = {}
    for s, (cells, fmt) in STREAMS.items():
        t = np.linspace(0, span, 16522).astype(np.int64) if s == "global_position_int" else np.arange(0, span + every, every)
        if s == "global_position_int" and tail:
            t = np.concatenate([t, span + 1 + np.arange(tail) * every])
        rec = {"time": t.astype(np.uint32).reshape(-1, 1)}
        for i, k in enumerate(fmt[1:], 1):
            v = values(s, i, t) if values else None
            rec["c%d" % i] = np.asarray(t % 97 + i if v is None else v).astype(kinds[k]).reshape(-1, 1)
        c = np.empty((1, cells), dtype=object)
        for i in range(cells):
            c[0, i] = rec if i == cells - 1 else {"note": "raw"}
        mat[s] = c
    with tempfile.TemporaryDirectory(prefix="demo-run-") as d:
        scipy.io.savemat(os.path.join(d, "20_08_2018_13_12_11.mat"), mat)
        env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([sys.executable, os.path.join(repo, "runs", "HC_eilat_July_2018", "data", "msg_creator.py")], cwd=d, env=env,
                           capture_output=True, text=True, timeout=240)
        r = Run()
        r.rc, r.err, r.series = p.returncode, p.stderr, None
        if p.returncode == 0:
            with open(os.path.join(d, "hc_to_ship.pickle"), "rb") as f:
                r.series = pickle.load(f)
            r.mat = scipy.io.loadmat(os.path.join(d, "binary_buffers.mat"))
        return r


def numbers(series):
    """Sequence numbers of the messages of a series of transmissions."""
    out = []
    for t in series:
        b = t["bin"]
        while b:
            out.append(b[2])
            b = b[b[1] + 8:]
    return out
