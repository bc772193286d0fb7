"""C18: receivers never write to the caller's data nor depend on it after the call."""
import copy

import numpy as np

from sim import actors, link

RUNS = {"quick": 12000, "thorough": 400000}
RULE = ("one evaluation = one party driven twice through the same stream, once with fresh arguments and once by a caller that reuses, overwrites or "
        "write-protects its arrays and scribbles over the bits it got back; distinct = (party type and settings class, caller habit, learned state class)")
REAL = ["decoders.* (all receivers)", "inference.* (segmentation, classifier, field models, denoisers)", "mavlink_utils.*.MAVLink", "decoders.turbo"]
STUBS = ["error-correcting decoder: scripted stand-in that keeps private copies of what it is given and returns", "sources and channels (simulated)",
         "the caller (simulated): one buffer for all receptions, buffers overwritten after or write-protected during the call, results overwritten"]
ASSUMPTIONS = ["a pre-trained field model object handed to a receiver is shared by design and not overwritten", "buffer structures handed over are kept and "
               "not overwritten by the caller", "only decoded bits and denoised values among the results are overwritten"]
PROBES = ["reused_buffer", "overwritten", "read_only", "strided", "results_overwritten", "construction_arrays_overwritten", "results_kept"]
BATCH = 20
HABITS = ["reuse", "overwrite", "readonly", "strided"]


def gen(rng, tier):
    types = ["rx", "rx", "rx", "rx", "rx", "rx", "rx", "turbo", "online", "batch", "emle", "emle", "classifier", "classifier", "fields", "segmenter", "parser"]
    spec = actors.rand_spec(rng, types, steps=rng.randrange(2, 13))
    n = len(spec["steps"])
    return {"spec": spec, "steps": [{"habit": rng.choice(HABITS), "scribble": rng.choice([None, 0, 1, "noise"])} for _ in range(n + 1)],
            "habit": rng.choice(HABITS + [None, None]), "held": rng.random() < 0.6, "garbage": rng.randrange(1, 2**31)}


def spoil(a, how, seed):
    if not isinstance(a, np.ndarray) or not a.flags.writeable or a.size == 0:
        return False
    r = np.random.RandomState(seed)
    if how == "noise":
        a[...] = r.randint(0, 2, size=a.shape) if a.dtype.kind in "iub" else r.normal(0, 5, size=a.shape)
    else:
        a[...] = how
    return True


def name(spec):
    return spec["type"] + ":" + spec["cfg"]["kind"] if "cfg" in spec else spec["type"]


def execute(plan, ctx):
    spec = plan["spec"]
    who = name(spec)
    # reference session: every argument fresh, results left alone
    a = ctx.call("construct", actors.make, spec)
    ref, kept = [], []
    n = min(a.n(), len(plan["steps"]))
    for i in range(n):
        arg = a.args(i)
        before = copy.deepcopy(arg)
        res = ctx.call(f"call {i + 1}", a.invoke, i, arg)
        ctx.check(actors.flat(arg) == actors.flat(before), "argument", lambda: f"{who}, call {i + 1}: an argument was changed")
        ref.append(a.observe(i, res))
        kept.append((res, actors.flat(res) if not isinstance(res, tuple) else actors.flat(list(res))))
        ctx.event(i, ref[-1])
    for i, (res, d) in enumerate(kept):
        now = actors.flat(res) if not isinstance(res, tuple) else actors.flat(list(res))
        ctx.check(now == d, "result", lambda: f"{who}: the result of call {i + 1} was changed by a later call")
    if n > 1:
        ctx.probe("results_kept")
    # the careless caller
    a = ctx.call("construct", actors.make, spec)
    if plan["held"]:
        for arr in (a.held() if hasattr(a, "held") else []):
            if spoil(arr, 0.5, 1):
                ctx.probe("construction_arrays_overwritten")
                ctx.fault("construction_array_overwritten")
    bufs = {}
    for i in range(n):
        st = plan["steps"][i]
        habit = plan["habit"] or st["habit"]
        arg = a.args(i)
        given = []
        for j, x in enumerate(arg):
            if not isinstance(x, np.ndarray) or x.size == 0:
                given.append(x)
                continue
            if habit == "reuse":
                key = (j, x.shape, x.dtype.str)
                if key not in bufs:
                    bufs[key] = np.empty_like(x)
                np.copyto(bufs[key], x)
                given.append(bufs[key])
            elif habit == "strided":
                b = np.empty(x.shape + (2,), dtype=x.dtype)
                b[..., 0] = x
                b[..., 1] = 1
                given.append(b[..., 0])
            else:
                y = x.copy()
                if habit == "readonly":
                    y.setflags(write=False)
                given.append(y)
        ctx.fault({"reuse": "buffer_reused", "overwrite": "buffer_overwritten", "readonly": "buffer_read_only", "strided": "strided_view"}[habit])
        ctx.probe({"reuse": "reused_buffer", "overwrite": "overwritten", "readonly": "read_only", "strided": "strided"}[habit])
        res = ctx.call(f"{who}, call {i + 1}, {habit} arguments", a.invoke, i, given)
        for j, x in enumerate(arg):
            ctx.check(actors.flat(given[j]) == actors.flat(x), "argument", lambda: f"{who}, call {i + 1}: argument {j + 1} was changed")
        ctx.check(a.observe(i, res) == ref[i], "dependence",
                  lambda: f"{who}, call {i + 1}: the result depends on what the caller did with earlier arrays or results")
        if st["scribble"] is not None:
            for o in a.outs(res):
                if spoil(o, st["scribble"], plan["garbage"] + i):
                    ctx.probe("results_overwritten")
                    ctx.fault("result_overwritten")
        if habit in ("overwrite", "strided"):
            for x in given:
                if isinstance(x, np.ndarray):
                    spoil(x, "noise" if i % 2 else 0, plan["garbage"] + i)
        ctx.state(who, habit, st["scribble"], min(i, 12), str(spec.get("cfg", {}).get("p", {}).get("window_length")))
        ctx.at(float(i))


def simplify(plan):
    s = plan["spec"]
    for cut in (len(s["steps"]) // 2, len(s["steps"]) - 1):
        if 0 < cut < len(s["steps"]):
            yield dict(plan, spec=dict(s, steps=s["steps"][:cut]))
    for i in range(len(s["steps"])):
        if len(s["steps"]) > 1:
            yield dict(plan, spec=dict(s, steps=s["steps"][:i] + s["steps"][i + 1:]))
    for h in HABITS:
        if plan["habit"] != h:
            yield dict(plan, habit=h)
    if plan["held"]:
        yield dict(plan, held=False)
    if any(x["scribble"] is not None for x in plan["steps"]):
        yield dict(plan, steps=[dict(x, scribble=None) for x in plan["steps"]])


LIST_KEYS = []
