"""Planted bugs of the clustering comparison (C31)."""
CA, FN, PA = "runs/clsutering_analysis/clustering_analysis.py", "runs/clsutering_analysis/functions.py", "utils/performance_analysis.py"
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c31-pad-counted", "C31", [
    (FN, "predictions = -np.ones((n_classes, len(predicted_labels)))", "predictions = np.zeros((n_classes, len(predicted_labels)))")],
    "three classes and a method whose cluster 0 is not the clearest one", "the rows' unused tails count as answers of cluster 0, which is then matched to a class it hardly holds",
    """
r = compare("--n_training", 6, "--n_runs", 1, "--n_jobs", 1, "--shuffle", 0, txs=10,
            label="lambda i, c, which: [0 if i < 5 else 1, 0 if i < 4 else 2, 0 if i < 4 else 1 + i % 2][c] if which == 0 else c")
need(r.rc == 0, r.err[-300:])
m = r.mat["clustering_cm"]
need(m[0, 0] == 5 and m[1, 1] == 6, "class 0 was given %s" % m.tolist())
""")

bug("c31-shared-generator", "C31", [
    (CA, "    rng = np.random.default_rng()\n", ""),
    (CA, 'def analyze_mine(buffers, n_buffers):', 'rng = np.random.default_rng()\n\n\ndef analyze_mine(buffers, n_buffers):')],
    "two runs taken by different worker processes", "the generator is made before the workers are forked: their first runs use the same padding, errors and split",
    """
r = compare("--n_training", 6, "--n_runs", 2, "--n_jobs", 2, prelude='''
import time
_old = inference.BMM.fit
def _slow(self, x):
    time.sleep(2)
    return _old(self, x)
inference.BMM.fit = _slow
''')
need(r.rc == 0, r.err[-300:])
f = [s[2] for s in r.seen if s[1] == "fit"]
need(len(f) == 2 and not np.array_equal(f[0][:, 400:], f[1][:, 400:]), "two runs with the same padding")
""")

bug("c31-truncated-mean", "C31", [
    (CA, "bmm_cm = np.round(np.array([t[0] for t in bmm_results]).mean(axis=0)).astype(np.int_)", "bmm_cm = np.array([t[0] for t in bmm_results]).mean(axis=0).astype(np.int_)")],
    "runs whose tables differ so that an average ends above one half", "the averages are cut instead of rounded: buffers vanish from the table",
    """
r = compare("--n_training", 6, "--n_runs", 3, "--n_jobs", 1, txs=10, prelude='''
_n = []
def _p(self, x):
    _n.append(1)
    r = np.array([_label(b, 3, 1) for b in x])
    if len(_n) == 1:
        j = int(np.flatnonzero(r == 2)[0])
        r[j] = 0
    return r
inference.BMM.predict = _p
''')
need(r.rc == 0, r.err[-300:])
need(r.mat["bmm_cm"].sum() == 24, "table %s" % r.mat["bmm_cm"].tolist())
""")

bug("c31-classifier-kept", "C31", [
    (CA, '''    classifier = BufferClassifier(n_training, n_classes, classify_dist="LL", merge_dist="Hellinger",
                                  weight_scheme="linear")
''', '''    classifier = clusterer(n_training, n_classes)
'''),
    (CA, "def analyze_mine(buffers, n_buffers):", '''@lru_cache
def clusterer(training, classes):
    return BufferClassifier(training, classes, classify_dist="LL", merge_dist="Hellinger", weight_scheme="linear")


def analyze_mine(buffers, n_buffers):'''),
    (CA, "from typing import Any\n", "from functools import lru_cache\nfrom typing import Any\n")],
    "a worker process that takes two runs", "the second run of a worker starts with the clusters of the first",
    """
r = compare("--n_training", 6, "--n_runs", 2, "--n_jobs", 1)
need(r.rc == 0, r.err[-300:])
n = [s[5] for s in r.seen if s[1] == "classify"]
need(max(n) == 18, "a classifier was given %d buffers" % max(n))
""")

bug("c31-padding-per-transmission", "C31", [
    (CA, "    for tx_idx, tx in enumerate(tx):\n", "    for tx_idx, tx in enumerate(tx):\n        pad = rng.integers(low=0, high=2, size=pad_len)  # pad with random bits\n"),
    (CA, "                 rng.integers(low=0, high=2, size=pad_len))\n            )  # pad with random bits\n", "                 pad)\n            )\n")],
    "the buffers of one transmission compared", "the buffers of a transmission share their padding, which makes the classes alike",
    """
r = compare("--n_training", 6, "--n_runs", 1, "--n_jobs", 1, "--shuffle", 0)
need(r.rc == 0, r.err[-300:])
x = [s[3] for s in r.seen if s[1] == "classify"]
need(not np.array_equal(x[0][330:], x[1][330:]), "two buffers with the same padding")
""")

bug("c31-failure-logged-only", "C31", [
    (CA, '''        shutil.move("results/log.log", os.path.join(path, "log.log"))
        raise e
''', '''        shutil.move("results/log.log", os.path.join(path, "log.log"))
''')],
    "a method or a write that fails", "a failed comparison ends as if all were well, and the batch goes on",
    """
r = compare("--n_training", 6, "--n_runs", 2, "--n_jobs", 1, prelude='''
def _fit(self, x):
    raise RuntimeError("no fit")
inference.BMM.fit = _fit
''')
need(r.rc != 0, "the failure was swallowed")
need("no fit" in r.log, "log: " + r.log[-200:])
""")

bug("c31-command-p", "C31", [
    (CA, "--n_classes {n_classes} --p {p} --n_training", "--n_classes {n_classes} --p {p:.3g} --n_training")],
    "an error rate of more than three digits", "the saved command repeats the comparison at another error rate",
    """
r = compare("--n_training", 6, "--n_runs", 1, "--n_jobs", 1, "--p", 0.10329)
need(r.rc == 0, r.err[-300:])
import shlex
a = shlex.split(r.cmd)
need(float(a[a.index("--p") + 1]) == 0.10329, r.cmd)
""")

bug("c31-precision-of-missing", "C31", [
    (PA, "_precision[label] = cm[label, label] / np.sum(cm[:, label])", "_precision[label] = cm[label, label] / np.sum(cm[label])")],
    "a cluster no held-out buffer was given to", "the precision of the other classes is their recall",
    """
r = compare("--n_training", 6, "--n_runs", 1, "--n_jobs", 1, txs=10, label="lambda i, c, which: c if c < 2 else 1")
need(r.rc == 0, r.err[-300:])
m = r.mat["bmm_cm"]
need(np.allclose(r.mat["bmm_precision"].ravel()[1], m[1, 1] / m[:, 1].sum()), "precision %s of %s" % (r.mat["bmm_precision"].tolist(), m.tolist()))
""")

bug("c31-trained-on-all", "C31", [
    (CA, "    bmm.fit(X_train)\n", "    bmm.fit(X_train if shuffle else buffers)\n")],
    "buffers in recorded order", "the mixture is trained on the held-out buffers as well",
    """
r = compare("--n_training", 6, "--n_runs", 1, "--n_jobs", 1, "--shuffle", 0)
need(r.rc == 0, r.err[-300:])
f = [s[2] for s in r.seen if s[1] == "fit"]
need(len(f) == 1 and len(f[0]) == 6, "trained on %d" % len(f[0]))
""")
