"""C31: a clustering comparison judges both methods on every held-out buffer once, in independent runs, whatever the sharing of work and whatever fails."""
import io
import itertools
import os
import shlex
import zlib

from sim import repo  # noqa: F401
from sim import experiment as X
import numpy as np
import scipy.io
import sklearn.model_selection  # noqa: F401
import inference
from sim.props.c29 import clauses, run_dirs

RUNS = {"quick": 300, "thorough": 3000}
BATCH = 2
RULE = ("one evaluation = one simulated comparison (runs shared among workers, files) and its repetition from the saved command; distinct = (classes, "
        "shuffled, errors in training, methods real or scripted, workers, runs, fault kind and place, outcome)")
REAL = ["runs/clsutering_analysis/clustering_analysis.py, executed as __main__, and functions.py", "utils.setup_logger, utils.performance_analysis, "
        "scikit-learn, scipy.io; BufferClassifier and BMM in a third of the runs"]
STUBS = ["process pool (real forked workers, one at a time, in the plan's order)", "clock, entropy and file opens (seams)",
         "BufferClassifier and BMM in two thirds of the runs: labels with any confusion of the classes, from the plan",
         "the recorded transmissions (simulated bits in the format the script reads)"]
ASSUMPTIONS = ["two or three classes, transmissions of a multiple of six bits that fill a third (half) of the code's information bits, more "
               "held-out buffers than classes", "sampled comparisons of few transmissions, not exhaustive"]
PROBES = ["two_classes", "three_classes", "shuffled", "in_order", "clean_training", "noisy_training", "no_errors", "real_methods", "scripted_methods",
          "one_process", "several_runs_in_a_worker", "several_workers", "cluster_never_chosen", "two_classes_in_one_cluster", "tie", "fault_in_method",
          "fault_when_saving", "crash", "older_run_same_second", "wrong_classes_refused", "rounded_mean"]

HOME = "runs/clsutering_analysis"
FILE = "clustering_analysis.py"
CSV = "telemetry_hc_tx_info_bits_2023.csv"


# ------------------------------------------------------------------ generation
def gen(rng, tier):
    c = rng.choice([2, 3, 3])
    real = rng.random() < 0.33
    txs = rng.choice([6, 8, 11, 16]) if real else rng.choice([5, 6, 8, 13, 24, 40])
    total = txs * c
    n_training = rng.choice([c, c + 1, total // 2, total // 3 + 1, total - 2 * c, total - c, rng.randrange(c, total - c + 1)])
    n_training = min(n_training, 24 if real else 10**6)
    runs = rng.choice([1, 2, 3] if real else [1, 2, 3, 5, 8])
    opts = [["n_classes", c], ["p", rng.choice([0, 0.001, 0.05, 0.07, 0.1, round(rng.uniform(0.01, 0.12), 4)])], ["n_training", n_training],
            ["n_runs", runs]]
    if c == 3 and rng.random() < 0.3:
        opts = opts[1:]
    for k, v in (("train_with_errors", rng.randrange(2)), ("shuffle", rng.randrange(2))):
        if rng.random() < 0.85:
            opts.append([k, v])
    opts.append(["n_jobs", rng.choice([1, 1, 2, 3, 4])] if rng.random() < 0.8 else ["n_jobs", 0])
    rng.shuffle(opts)
    plan = {"opts": opts, "txs": txs, "classes": c, "width": rng.choice([984, 984, 984, 1200]), "salt": rng.randrange(1 << 20), "data": rng.randrange(1 << 30), "seed": rng.randrange(1 << 30),
            "cpus": rng.choice([1, 2, 4]), "sched": [rng.randrange(8) for _ in range(rng.choice([1, 3, 8]))],
            "order": [rng.randrange(8) for _ in range(rng.choice([1, 3, 8]))], "start": rng.choice([0, 5, 9, rng.randrange(100000)]),
            "ticks": [rng.choice([0, 0, 0, 1, 1, 7, 60, 3600]) for _ in range(rng.choice([1, 5, 11]))], "real": real, "labels": [table(rng, c), table(rng, c)]}
    r = rng.random()
    if r < 0.1:
        plan["fault"] = {"kind": "method", "item": rng.randrange(runs), "call": rng.randrange(1, total + 1), "bmm": rng.random() < 0.3}
    elif r < 0.18:
        plan["fault"] = {"kind": "open", "at": rng.randrange(2)}
    elif r < 0.26:
        plan["fault"] = {"kind": "write", "at": rng.randrange(2), "room": rng.choice([0, 1, 5, 100])}
    elif r < 0.31:
        plan["fault"] = {"kind": "crash", "at": rng.randrange(2)}
    elif r < 0.38:
        plan["fault"] = {"kind": "older"}
    elif r < 0.41:
        plan["fault"] = {"kind": "classes", "n": rng.choice([1, 4, 5])}
    return plan


def table(rng, c):
    """Per class the odds (in percent, cumulative) of each label."""
    perm = list(range(c))
    rng.shuffle(perm)
    mode = rng.random()
    out = []
    for t in range(c):
        w = [0] * c
        if mode < 0.3:
            w[perm[t]] = 100
        elif mode < 0.6:
            for l in range(c):
                w[l] = rng.choice([0, 1, 5, 20, 50])
            w[perm[t]] += rng.choice([1, 60])
        elif mode < 0.75:  # two classes in one cluster
            w[perm[0 if t < 2 else t]] = 90
            w[rng.randrange(c)] += 10
        else:
            w = [rng.choice([0, 1, 1, 3]) for _ in range(c)]
            w[rng.randrange(c)] += 1
        s = sum(w)
        out.append([100 * sum(w[:i + 1]) / s for i in range(c)])
    return out


LIST_KEYS = []


def simplify(plan):
    if plan.get("fault"):
        yield {k: v for k, v in plan.items() if k != "fault"}
    o = dict(plan["opts"])
    if o["n_runs"] > 1:
        yield dict(plan, opts=[[k, v - 1 if k == "n_runs" else v] for k, v in plan["opts"]])
    if plan["txs"] > 4 and o["n_training"] <= (plan["txs"] - 2) * plan["classes"]:
        yield dict(plan, txs=plan["txs"] - 1)
    for k, v in (("p", 0), ("n_jobs", 1), ("shuffle", 0), ("train_with_errors", 1)):
        if k in o and o[k] != v:
            yield dict(plan, opts=[[a, v if a == k else b] for a, b in plan["opts"]])
    for k, v in (("sched", [0]), ("order", [0]), ("ticks", [0]), ("start", 0), ("width", 984)):
        if plan[k] != v:
            yield dict(plan, **{k: v})


# ------------------------------------------------------------------ methods under record
_classify, _new = inference.BufferClassifier.classify, inference.BufferClassifier.__init__
_fit, _predict, _bmm = inference.BMM.fit, inference.BMM.predict, inference.BMM.__init__


def record(exp, plan):
    """Called in the simulated process: everything the methods are given and answer."""
    fault = plan.get("fault") or {}

    def label(bits, which):
        h = zlib.crc32(np.packbits(bits).tobytes() + f"{plan['salt']}:{which}".encode())
        u = (h % 1000) / 10
        row = plan["labels"][which][exp.nearest(bits)[1]]
        return next((i for i, v in enumerate(row) if u < v), len(row) - 1)

    def strike(which):
        if fault.get("kind") == "method" and fault["bmm"] == bool(which):
            i, calls = X.W.item, X.W.plain_calls
            X.W.plain_calls += 1
            if (i is None or i == fault["item"]) and (which or calls + 1 == fault["call"]):
                X.W.count(4)
                raise RuntimeError("simulated failure of a method")

    def c_init(self, *a, **k):
        _new(self, *a, **k)
        self._iid = X.W.count(1)
        self._seen = 0
        X.W.rec.append(("clusters", self._iid, {"min_data_size": self.min_data_size, "k": self.k, "classify_dist": self.classify_dist,
                                                "merge_dist": self.merge_dist, "weight_scheme": self.weight_scheme}, X.W.item))

    def classify(self, buffer):
        strike(0)
        b = np.array(buffer).astype(np.int8).copy()
        self._seen += 1
        r = _classify(self, buffer) if plan["real"] else -1 if self._seen < self.min_data_size else label(b, 0)
        X.W.rec.append(("classify", self._iid, b, int(r)))
        return r

    def b_init(self, *a, **k):
        _bmm(self, *a, **k)
        self._iid = X.W.count(1)
        X.W.rec.append(("bmm", self._iid, {"n_components": self.n_components, "max_iter": self.max_iter}))

    def fit(self, x):
        strike(1)
        X.W.rec.append(("fit", self._iid, np.array(x).astype(np.int8).copy()))
        return _fit(self, x) if plan["real"] else None

    def predict(self, x):
        r = _predict(self, x) if plan["real"] else np.array([label(np.array(b).astype(np.int8), 1) for b in x])
        X.W.rec.append(("predict", self._iid, np.array(x).astype(np.int8).copy(), np.array(r).copy()))
        return r

    c, b = inference.BufferClassifier, inference.BMM
    c.__init__, c.classify, b.__init__, b.fit, b.predict = c_init, classify, b_init, fit, predict


class Comparison:
    def __init__(self, plan):
        o = dict(plan["opts"])
        self.o = o
        self.c = o.get("n_classes", 3)
        self.p, self.runs, self.n_training = o["p"], o["n_runs"], o["n_training"]
        self.noisy, self.shuffle = bool(o.get("train_with_errors", 1)), bool(o.get("shuffle", 1))
        self.k = {2: 648, 3: 486}[self.c]
        self.errors = int(self.k * self.p) // self.c
        self.sec = plan["width"] // self.c
        self.total = plan["txs"] * self.c
        r = np.random.RandomState(plan["data"] % 2**32)
        base = r.randint(0, 2, size=plan["width"])
        loose = r.uniform(size=plan["width"]) < 0.35
        self.tx = np.where(loose, r.randint(0, 2, size=(plan["txs"], plan["width"])), base).astype(np.int8)
        self.parts = np.array([[t[i * self.sec:(i + 1) * self.sec] for i in range(self.c)] for t in self.tx]).reshape(-1, self.sec)

    def nearest(self, bits):
        """(transmission, class, wrong bits) a buffer stands for."""
        d = np.count_nonzero(self.parts != bits[:self.sec], axis=1)
        j = int(np.argmin(d))
        return j // self.c, j % self.c, int(d[j])

    def args(self, **more):
        return [f"--{k}={v}" for k, v in dict(self.o, **more).items()]

    def prepare(self, root):
        os.rmdir(os.path.join(root, "data"))
        with open(os.path.join(root, CSV), "w") as f:
            for t in self.tx:
                f.write(",".join("01"[b] for b in t) + "\n")


class Seen:
    """What the methods were given and answered, per instance."""

    def __init__(self, trace):
        self.cl, self.bm, self.sched, self.failed = {}, {}, [], []
        for e in trace:
            if e[0] == "clusters":
                self.cl[e[1]] = {"set": e[2], "item": e[3], "x": [], "y": []}
            elif e[0] == "classify":
                self.cl[e[1]]["x"].append(e[2])
                self.cl[e[1]]["y"].append(e[3])
            elif e[0] == "bmm":
                self.bm[e[1]] = {"set": e[2], "fit": [], "predict": []}
            elif e[0] == "fit":
                self.bm[e[1]]["fit"].append(e[2])
            elif e[0] == "predict":
                self.bm[e[1]]["predict"].append(e[2:])
            elif e[0] == "sched":
                self.sched.append(e[1:])


def execute(plan, ctx):
    exp = Comparison(plan)
    fault = plan.get("fault") or {}
    kind = fault.get("kind")
    for c, q in (("two_classes", exp.c == 2), ("three_classes", exp.c == 3), ("shuffled", exp.shuffle), ("in_order", not exp.shuffle),
                 ("clean_training", not exp.noisy and exp.errors), ("noisy_training", exp.noisy and exp.errors), ("no_errors", not exp.errors),
                 ("real_methods", plan["real"]), ("scripted_methods", not plan["real"]), ("one_process", exp.o["n_jobs"] == 1)):
        if q:
            ctx.probe(c)
    older = {}

    def prepare(root):
        exp.prepare(root)
        if kind == "older":
            w = X.World(plan, root)
            names = set()
            for _ in range(40):
                t = w.now()
                names.add(f"{t.date()}_{t.hour}_{t.minute}_{t.second}")
            for nm in names:
                os.mkdir(os.path.join(root, "results", nm))
                for f in ("cmd.txt", "log.log", "results.mat"):
                    with open(os.path.join(root, "results", nm, f), "wb") as g:
                        g.write(b"an older run's " + f.encode())
                    older[f"results/{nm}/{f}"] = b"an older run's " + f.encode()

    r = X.run(FILE, exp.args(**({"n_classes": fault["n"]} if kind == "classes" else {})), plan, None, prepare, HOME, (), lambda: record(exp, plan))
    ctx.event("run", r.outcome, r.code, r.writes, sorted(r.files))
    ctx.check(not r.hung, "hang", "the comparison did not end")
    seen = Seen(r.trace)
    ctx.event("sched", seen.sched)
    hit = bool(r.hit) or r.outcome[0] == "crash"
    ctx.at(sum(plan["ticks"]) / len(plan["ticks"]) * 10)
    if kind and (hit or kind in ("older", "classes")):
        ctx.fault({"method": "method raises in a run", "open": "file refused", "write": "disk full mid-write", "crash": "comparison killed",
                   "older": "folder of an older run in the way", "classes": "unsupported number of classes"}[kind])
    ws = {w for w, _ in seen.sched}
    ctx.state(exp.c, exp.shuffle, exp.noisy, plan["real"], len(ws), exp.runs, kind, fault.get("at"), r.outcome[0])
    if len(ws) > 1:
        ctx.probe("several_workers")
    if ws and len(seen.sched) > len(ws):
        ctx.probe("several_runs_in_a_worker")
    if kind == "older":
        ctx.probe("older_run_same_second")
        for f, b in older.items():
            ctx.check(r.files.get(f) == b, "overwrites", lambda: f"{f} of an older comparison was changed or lost")
        return
    if kind == "crash" and hit:
        ctx.probe("crash")
        return
    if kind != "classes" and (kind is None or not hit):
        ctx.check(r.outcome[0] == "ok", f"raised:{r.outcome[1]}", lambda: f"{exp.args()}: {r.outcome[1]}: {r.outcome[2]}")
        d = check_results(ctx, exp, r, seen, "")
        again(ctx, exp, plan, d)
        return
    ctx.check(r.outcome[0] == "raised", "silent", lambda: f"{kind} was swallowed: the comparison ended as if all were well")
    expect = {"method": "RuntimeError", "open": "PermissionError", "write": "OSError", "classes": "ValueError"}[kind]
    ctx.check(r.outcome[1] == expect, "silent", lambda: f"failed with {r.outcome[1]} ({r.outcome[2]}) instead of the {expect} that happened")
    ctx.probe({"method": "fault_in_method", "classes": "wrong_classes_refused"}.get(kind, "fault_when_saving"))
    dirs = run_dirs(r.files)
    ctx.check(len(dirs) == 1, "files", lambda: f"{len(dirs)} folders after a failed comparison")
    d = next(iter(dirs.values()))
    ctx.check(expect.encode() in d.get("log.log", b""), "log", lambda: f"the log of the failed comparison does not tell of the {expect}")
    if kind != "write":
        ctx.check(not any(f.endswith(".mat") for f in d), "files", "a failed comparison left results")


def outcomes(counts):
    """Confusion matrices of the matchings that pair, over and over, the cluster and class with most buffers in common (any of the ties)."""
    c = counts.shape[0]
    out = []

    def go(rows, cols, pairs):
        if not rows:
            cm = np.zeros_like(counts)
            for t, l in pairs:
                cm[:, t] = counts[:, l]
            if not any(np.array_equal(cm, x) for x in out):
                out.append(cm)
            return
        m = max(counts[t, l] for t in rows for l in cols)
        for t in rows:
            for l in cols:
                if counts[t, l] == m:
                    go([x for x in rows if x != t], [x for x in cols if x != l], pairs + [(t, l)])

    go(list(range(c)), list(range(c)), [])
    return out


def check_results(ctx, exp, r, seen, tag):
    """A comparison that ended without complaint."""
    files = {clauses(f): b for f, b in r.files.items()}
    dirs = run_dirs(files)
    ctx.check(len(dirs) == 1, "files", lambda: f"{tag}{len(dirs)} folders instead of one")
    d = next(iter(dirs.values()))
    mats = [f for f in d if f.endswith(".mat")]
    ctx.check(len(mats) == 1, "files", lambda: f"{tag}{len(mats)} result files")
    ctx.check("cmd.txt" in d and d.get("log.log"), "files", lambda: f"{tag}no command or log was left")
    n = exp.n_training
    test = exp.total - n
    ctx.check(len(seen.cl) == exp.runs == len(seen.bm), "runs", lambda: f"{tag}{len(seen.cl)} and {len(seen.bm)} runs of the two methods instead of {exp.runs}")
    left = dict(seen.bm)
    tallies = ([], [])
    runs = []
    for i, v in sorted(seen.cl.items()):
        want = {"min_data_size": n, "k": exp.c, "classify_dist": "LL", "merge_dist": "Hellinger", "weight_scheme": "linear"}
        ctx.check(v["set"] == want, "methods", lambda: f"{tag}clustering was set up with {v['set']} instead of {want}")
        x = np.array(v["x"])
        ctx.check(x.shape == (exp.total, exp.k), "buffers", lambda: f"{tag}clustering was given {x.shape[0]} buffers of {x.shape[1:]} bits instead of {exp.total} of {exp.k}")
        j = next((j for j, b in left.items() if len(b["fit"]) == 1 and np.array_equal(b["fit"][0], x[:n])), None)
        ctx.check(j is not None, "alike", lambda: f"{tag}no mixture was trained on the buffers a clustering was trained on")
        b = left.pop(j)
        ctx.check(b["set"]["n_components"] == exp.c, "methods", lambda: f"{tag}mixture has {b['set']['n_components']} components")
        ctx.check(len(b["predict"]) == 1 and np.array_equal(b["predict"][0][0], x[n:]), "alike", lambda: f"{tag}the two methods were judged on different buffers")
        near = [exp.nearest(w) for w in x]
        ids = [(t, c) for t, c, _ in near]
        ctx.check(len(set(ids)) == exp.total, "buffers", lambda: f"{tag}a buffer was used twice or not at all: {exp.total - len(set(ids))} are missing")
        for q, (t, c, e) in enumerate(near):
            hit = exp.errors if exp.noisy or q >= n else 0
            ctx.check(e == hit, "errors", lambda: f"{tag}{'training' if q < n else 'held-out'} buffer {q} has {e} wrong bits instead of {hit}")
        split = [sum(c == z for _, c in ids[:n]) for z in range(exp.c)]
        if exp.shuffle:
            ctx.check(max(split) - min(split) <= 1, "split", lambda: f"{tag}training has {split} buffers of the classes")
        else:
            ctx.check(ids == [(a, z) for a in range(exp.total // exp.c) for z in range(exp.c)], "split", lambda: f"{tag}the buffers are not in the order recorded")
        truth = np.array([c for _, c in ids[n:]])
        for which, y in enumerate((np.array(v["y"][n:]), b["predict"][0][1])):
            counts = np.array([[int(((truth == t) & (y == l)).sum()) for l in range(exp.c)] for t in range(exp.c)])
            o = outcomes(counts)
            if len(o) > 1:
                ctx.probe("tie")
            if (counts.sum(axis=0) == 0).any():
                ctx.probe("cluster_never_chosen")
            if len(set(counts.argmax(axis=1).tolist())) < exp.c:
                ctx.probe("two_classes_in_one_cluster")
            tallies[which].append(o)
        runs.append((x, ids))
    independent(ctx, exp, runs, tag)
    m = scipy.io.loadmat(io.BytesIO(d[mats[0]]))
    for k, v in (("p", exp.p), ("n_training", n), ("n_classes", exp.c), ("train_with_errors", exp.noisy)):
        ctx.check(float(m[k].ravel()[0]) == float(v), "recorded", lambda: f"{tag}{k}={m[k].ravel()[0]} was recorded instead of {v}")
    for which, (name, words) in enumerate((("clustering", "clustering"), ("bmm", "the mixture"))):
        cm = np.asarray(m[name + "_cm"]).astype(float)
        ctx.check(cm.shape == (exp.c, exp.c), "tally", lambda: f"{tag}table of {words} is {cm.shape}")
        ts = tallies[which]
        if np.prod([float(len(t)) for t in ts]) <= 3000:
            means = [np.mean(q, axis=0) for q in itertools.product(*ts)]
            fits = any(np.all(np.abs(cm - q) <= 0.5 + 1e-9) for q in means)
            if len(means) == 1 and not np.array_equal(means[0], np.round(means[0])):
                ctx.probe("rounded_mean")
            ctx.check(fits, "tally", lambda: f"{tag}table of {words} over {exp.runs} runs is {cm.astype(int).tolist()}; the answers on the held-out buffers, clusters matched "
                      f"one to one to the classes, average {np.round(means[0], 2).tolist()}")
        rows, cols, diag = cm.sum(axis=1), cm.sum(axis=0), np.diag(cm)
        ctx.check(abs(cm.sum() - test) <= exp.c * exp.c / 2, "tally", lambda: f"{tag}table of {words} holds {int(cm.sum())} of {test} held-out buffers")
        with np.errstate(all="ignore"):
            rec = diag / rows
            pre = np.where(cols > 0, diag / cols, 0.0)
            f1 = np.where(rec + pre > 0, 2 * rec * pre / (rec + pre), 0.0)
        if (rows > 0).all():
            for k, v in (("recall", rec), ("precision", pre), ("f1", f1), ("accuracy", diag.sum() / cm.sum())):
                got = m[f"{name}_{k}"].ravel().astype(float)
                ctx.check(np.allclose(got, v, rtol=1e-9, atol=1e-12), "rates", lambda: f"{tag}{k} of {words} is {got.tolist()} for the table {cm.astype(int).tolist()}")
    return d


def independent(ctx, exp, runs, tag):
    """Padding, errors and split are drawn anew in each run, and for each buffer."""
    rows = []
    for x, ids in runs:
        o = np.argsort([t * exp.c + c for t, c in ids])
        rows.append((x[o][:, exp.sec:], (x[o][:, :exp.sec] != exp.parts), ids))
    for pad, err, _ in rows:
        ctx.check(0.3 < pad.mean() < 0.7, "padding", lambda: f"{tag}the padding is not random: {pad.mean():.2f} of it are ones")
        ctx.check((pad[1:] == pad[:-1]).mean() < 0.65, "padding", lambda: f"{tag}one padding was used for several buffers")
        if err.sum() >= 100:
            ctx.check((err[1:] & err[:-1]).sum() < 0.6 * min(err[1:].sum(), err[:-1].sum()), "errors", lambda: f"{tag}one set of errors hit several buffers")
    for a, b in itertools.combinations(range(len(rows)), 2):
        x, y = rows[a], rows[b]
        ctx.check((x[0] == y[0]).mean() < 0.65, "independence", lambda: f"{tag}runs {a} and {b} were given the same padding")
        if x[1].sum() >= 100:
            ctx.check((x[1] & y[1]).sum() < 0.6 * x[1].sum(), "independence", lambda: f"{tag}runs {a} and {b} were given the same errors")
        if exp.shuffle and exp.total >= 15:
            ctx.check(x[2] != y[2], "independence", lambda: f"{tag}runs {a} and {b} were given the buffers in one order")


def again(ctx, exp, plan, d):
    """The saved command repeats the comparison."""
    cmd = shlex.split(d["cmd.txt"].decode())
    ctx.check(len(cmd) >= 2 and cmd[0].startswith("python") and os.path.basename(cmd[1]) == FILE, "command", lambda: f"{cmd[:2]} does not run the script")
    p2 = dict(plan, ticks=[1], cpus=max(1, exp.runs), sched=list(range(8)), order=[0])
    p2.pop("fault", None)
    r = X.run(FILE, cmd[2:], p2, None, exp.prepare, HOME, (), lambda: record(exp, p2))
    ctx.check(not r.hung, "hang", "the repeated comparison did not end")
    ctx.check(r.outcome[0] == "ok", "command", lambda: f"the saved command {' '.join(cmd[2:])!r} does not work: {r.outcome[1]}: {r.outcome[2]}")
    check_results(ctx, exp, r, Seen(r.trace), "repeated by the saved command: ")
