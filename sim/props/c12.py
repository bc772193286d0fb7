"""C12: online buffer classifier labels stably, in range and conserves its samples."""
import math
from itertools import combinations

import numpy as np

from sim import repo  # noqa: F401
from bitstring import Bits
from inference.clustering import BufferClassifier

RUNS = {"quick": 12000, "thorough": 300000}
RULE = ("one evaluation = one arrival history of one classifier; distinct = (settings, sizes of the clusters, label) after each arrival")
REAL = ["inference.clustering (BufferClassifier, Cluster)", "utils.information_theory, utils.bit_operations"]
STUBS = ["buffer sources and channel (simulated)", "oracle: own agglomerative merge with every tie explored, own likelihood and distance"]
ASSUMPTIONS = ["training size at least 2", "ties (within 1e-9) may be decided either way"]
PROBES = ["training", "merged", "tie_in_merge", "tie_in_label", "several_clusters", "fewer_clusters_than_k", "never_trained", "long_history"]
EPS = float(np.finfo(float).eps)


def gen(rng, tier):
    n = rng.choice([1, 4, 8, 16, 32, 48])
    k = rng.choice([1, 2, 2, 3, 4])
    train = rng.choice([2, 3, 4, 5, 6, 8, 10, 12])
    src = rng.randrange(1, 5)
    tmpl = [[rng.randrange(2) for _ in range(n)] for _ in range(src)]
    noisy = [[rng.random() < 0.3 for _ in range(n)] for _ in range(src)]
    order = rng.choice(["random", "cycle", "blocks"])
    noise = rng.choice([0.0, 0.02, 0.1, 0.3])
    steps, cur = [], 0
    length = rng.choice([rng.randrange(1, train + 1), train + rng.randrange(1, 20), train + rng.randrange(5, 40)])
    if rng.random() < 0.02:  # a receiver that has been up for long
        length = rng.choice([90, 160, 300])
    for i in range(length):
        cur = i % src if order == "cycle" else rng.randrange(src) if order == "random" or rng.random() < 0.2 else cur
        bits = [rng.randrange(2) if noisy[cur][j] else tmpl[cur][j] for j in range(n)]
        faults = []
        if noise:
            fl = [j for j in range(n) if rng.random() < noise]
            if fl:
                faults.append("flip")
            for j in fl:
                bits[j] ^= 1
        r = rng.random()
        if r < 0.04:
            bits, faults = [rng.randrange(2)] * n, ["dead"]
        elif r < 0.08:
            a = rng.randrange(n)
            for j in range(a, min(n, a + 6)):
                bits[j] = 1
            faults = ["stuck"]
        elif r < 0.11 and steps:
            bits, faults = list(steps[-1]["bits"]), ["dup"]
        steps.append({"bits": bits, "form": rng.choice(["int", "int", "Bits", "uint8", "bool"]), "faults": faults})
    return {"k": k, "train": train, "classify": rng.choice(["LL", "LL", "hamming"]), "merge": rng.choice(["Hellinger", "Hellinger", "KlDiv"]),
            "weight": rng.choice(["linear", "linear", "sqrt", "none"]), "steps": steps}


def kl(p, q):
    """relative entropy of two distributions in bits, per row"""
    out = []
    for a, b in zip(p, q):
        s = 0.0
        for x, y in zip(a, b):
            if x > 0:
                s = math.inf if y == 0 else s + x * math.log2(x / y)
        out.append(s)
    return np.array(out)


class Ref:
    def __init__(self, plan):
        self.p = plan
        self.seen = []
        self.cl = None      # after training: list of member lists, index = label

    def counts(self, members):
        m = np.array([self.seen[i] for i in members])
        one = m.sum(axis=0)
        return np.column_stack((len(members) - one, one))

    def distance(self, a, b):
        pa, pb = self.counts(a) / len(a), self.counts(b) / len(b)
        mx = (len(a) + len(b)) / 2
        w = math.sqrt(mx) if self.p["weight"] == "sqrt" else mx if self.p["weight"] == "linear" else 1
        if self.p["merge"] == "KlDiv":
            return w * float(np.mean(np.clip(kl(pa, pb) + kl(pb, pa), 0, 10)))
        return w * float(np.mean(np.sqrt(np.clip(1 - np.sum(np.sqrt(pa * pb), axis=1), 0, None))))

    def partitions(self, cap=1500):
        """all partitions greedy merging can end in, every tie explored; None if too many"""
        start = frozenset(frozenset([i]) for i in range(len(self.seen)))
        cache = {}

        def dist(a, b):
            key = (a, b)
            if key not in cache:
                cache[key] = cache[(b, a)] = self.distance(sorted(a), sorted(b))
            return cache[key]
        todo, done, out = [start], {start}, set()
        ties = False
        while todo:
            s = todo.pop()
            if len(s) <= self.p["k"]:
                out.add(s)
                continue
            pairs = [(dist(a, b), a, b) for a, b in combinations(sorted(s, key=sorted), 2)]
            m = min(x[0] for x in pairs)
            best = [x for x in pairs if x[0] <= m + 1e-9 * (1 + abs(m))]
            ties |= len(best) > 1
            for _, a, b in best:
                t = (s - {a, b}) | {a | b}
                if t not in done:
                    if len(done) > cap:
                        return None, ties
                    done.add(t)
                    todo.append(t)
        return out, ties

    def key(self, members):
        return (len(members), self.counts(members).tobytes())


def data_of(c):
    """counts of one of the classifier's clusters from what it publishes"""
    return np.rint(np.asarray(c.dist, dtype=float) * len(c)).astype(np.int64)


def execute(plan, ctx):
    c = BufferClassifier(plan["train"], plan["k"], plan["classify"], plan["merge"], plan["weight"])
    ref = Ref(plan)
    unknown = False
    for i, st in enumerate(plan["steps"]):
        bits = np.array(st["bits"], dtype=np.int64)
        f = st["form"]
        if plan["classify"] == "hamming" and f in ("uint8", "bool"):
            f = "int"
        buf = bits.copy() if f == "int" else Bits(bits.tolist()) if f == "Bits" else bits.astype(np.uint8) if f == "uint8" else bits.astype(bool)
        for x in st["faults"]:
            ctx.fault(x)
        label = ctx.call(f"arrival {i}", c.classify, buf)
        ctx.at(float(i))
        if i + 1 < plan["train"]:
            ctx.check(label == -1, "training", lambda: f"arrival {i + 1} of {plan['train']} training arrivals answered {label}")
            ref.seen.append(bits)
            ctx.probe("training")
            ctx.event(i, int(label))
            continue
        by = {int(x.uid): x for x in c.clusters}
        n_cl = min(plan["k"], plan["train"] - 1)
        ctx.check(len(c.clusters) == n_cl, "clusters", lambda: f"{len(c.clusters)} clusters after training, expected {n_cl}")
        ctx.check(sorted(by) == list(range(n_cl)), "labels", lambda: f"cluster labels {sorted(by)}")
        ctx.check(label in by, "label", lambda: f"label {label} outside 0..{n_cl - 1}")
        label = int(label)
        if ref.cl is None:
            # the clusters as they were right after merging: take this arrival out of the one it was put in
            got = {}
            for u, x in by.items():
                d, n = data_of(x), len(x)
                if u == label:
                    d = d.copy()
                    d[np.arange(len(bits)), bits] -= 1
                    n -= 1
                got[u] = (n, d.tobytes())
            parts, ties = ref.partitions()
            if ties:
                ctx.probe("tie_in_merge")
            ctx.probe("merged")
            if n_cl < plan["k"]:
                ctx.probe("fewer_clusters_than_k")
            if parts is None:
                unknown = True
                parts = []
            ok = None
            for p in parts:
                ms = [sorted(x) for x in p]
                ks = [ref.key(x) for x in ms]
                if sorted(ks) == sorted(got.values()):
                    ok = []
                    rest = list(range(len(ms)))
                    for u in range(n_cl):
                        j = next(j for j in rest if ks[j] == got[u])
                        rest.remove(j)
                        ok.append(ms[j])
                    break
            if unknown:
                return
            ctx.check(ok is not None, "merge", lambda: f"clusters of sizes {sorted(x[0] for x in got.values())} are not what merging closest "
                      "clusters first gives")
            ref.cl = ok
        # label: most likely / nearest, by the state before this arrival
        scores = []
        for m in ref.cl:
            cnt = ref.counts(m)
            p = cnt / len(m)
            if plan["classify"] == "hamming":
                tie = cnt[:, 0] == cnt[:, 1]
                d = int(np.sum((cnt[:, 1] > cnt[:, 0])[~tie] != bits[~tie].astype(bool)))
                scores.append((-d - int(tie.sum()), -d))
            else:
                ll = float(np.mean(np.clip(np.log(np.where(bits == 1, p[:, 1], p[:, 0]) + EPS), -100, 0)))
                scores.append((ll - 1e-9, ll + 1e-9))
        if sum(1 for s in scores if s[1] >= max(x[0] for x in scores)) > 1:
            ctx.probe("tie_in_label")
        ctx.check(scores[label][1] >= max(s[0] for s in scores), "nearest",
                  lambda: f"arrival {i + 1} labelled {label}, scores {[round(s[1], 6) for s in scores]}")
        ref.seen.append(bits)
        ref.cl[label] = ref.cl[label] + [len(ref.seen) - 1]
        total = 0
        for u, m in enumerate(ref.cl):
            x = by[u]
            ctx.check(len(x) == len(m), "count", lambda: f"cluster {u} counts {len(x)} buffers, {len(m)} were put in it")
            d = np.asarray(x.dist, dtype=float)
            e = ref.counts(m) / len(m)
            ctx.check(d.shape == e.shape and bool(np.all(np.abs(d - e) < 1e-9)), "statistics", lambda: f"cluster {u}: statistics are not the bit frequencies "
                      f"of its {len(m)} members")
            total += len(x)
        ctx.check(total == i + 1, "conservation", lambda: f"{i + 1} buffers seen, {total} counted")
        if n_cl > 1:
            ctx.probe("several_clusters")
        ctx.event(i, label, tuple(len(m) for m in ref.cl))
        ctx.state(plan["classify"], plan["merge"], plan["weight"], plan["train"], tuple(sorted(len(m) for m in ref.cl)), label)
    if len(plan["steps"]) >= 90:
        ctx.probe("long_history")
    if len(plan["steps"]) < plan["train"]:
        ctx.probe("never_trained")


def simplify(plan):
    n = len(plan["steps"][0]["bits"]) if plan["steps"] else 0
    for lo, hi in ((0, n // 2), (n // 2, n)) if n > 1 else ():
        yield dict(plan, steps=[dict(s, bits=s["bits"][lo:hi]) for s in plan["steps"]])
    if n > 1:
        yield dict(plan, steps=[dict(s, bits=s["bits"][:-1]) for s in plan["steps"]])
    for i, s in enumerate(plan["steps"]):
        if s["form"] != "int":
            yield dict(plan, steps=plan["steps"][:i] + [dict(s, form="int")] + plan["steps"][i + 1:])
