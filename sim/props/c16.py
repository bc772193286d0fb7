"""C16: receivers are independent and reproducible under any interleaving."""
from sim import actors, sched
from sim import rng as R

RUNS = {"quick": 4800, "thorough": 150000}
RULE = ("one evaluation = 2-5 parties of one process, each run alone, then all interleaved call by call, then on threads switched line by line (or "
        "bytecode by bytecode) at seeded points, then alone again; distinct = (types of the parties involved in a switch, file:line switched at) "
        "plus (types, order of calls)")
REAL = ["decoders.* (all receivers)", "inference.* (segmentation, classifier, field models, denoisers)", "mavlink_utils.*.MAVLink (parser, sender)",
        "protocol_meta (shared protocol tables and parser)"]
STUBS = ["error-correcting decoder: scripted stand-in, one per receiver", "sources, channels and transports (simulated)",
         "thread scheduler: sim/sched.py (one thread at a time, switches only where the plan says)", "randomness: different seeds for every pass"]
ASSUMPTIONS = ["each object is used by one thread at a time; different objects by different threads", "switches happen at lines or bytecodes of /repo's code, "
               "library code in between is atomic", "each party has its own error-correcting decoder object"]
PROBES = ["twins", "line_switch", "opcode_switch", "switch_in_segmentation", "switch_in_model", "switch_in_parser", "switch_in_decoder", "many_switches"]
LIST_KEYS = ["switches", "calls", "parties"]
BATCH = 10


def gen(rng, tier):
    n = rng.choice([2, 2, 3, 4, 5])
    types = rng.choice([None, None, ["rx"], ["rx", "segmenter", "parser"], ["fields", "rx"], ["online", "batch", "emle", "classifier"], ["parser", "sender", "segmenter"]])
    kinds = rng.choice([None, None, ["MAV", "CMB", "UNI"], ["CLS", "DUDE", "BW"]])
    parties = []
    for _ in range(n):
        if parties and rng.random() < 0.35:
            p = rng.choice(parties)
            if rng.random() < 0.5:  # same stream; otherwise same settings, other stream
                parties.append(p)
                continue
            q = actors.rand_spec(rng, [p["type"]], kinds=[p["cfg"]["kind"]] if "cfg" in p else None)
            parties.append(q)
            continue
        parties.append(actors.rand_spec(rng, types, kinds=kinds))
    order = [i for i, p in enumerate(parties) for _ in range(len(p["steps"]))]
    rng.shuffle(order)
    style = rng.choice(["fine", "fine", "coarse", "mixed", "few"])
    sw = []
    for _ in range(rng.choice([5, 40, 150, 400]) if style != "few" else rng.randrange(1, 6)):
        gap = {"fine": rng.randrange(1, 6), "coarse": rng.randrange(20, 400), "mixed": rng.choice([1, 2, 5, 30, 200]), "few": rng.randrange(1, 2000)}[style]
        sw.append([gap, rng.randrange(n)])
    return {"parties": parties, "calls": order, "switches": sw, "opcodes": rng.random() < 0.25, "start": rng.randrange(n), "threads": rng.random() < 0.8,
            "seed": rng.randrange(1, 2**31)}


def one(actor, i):
    try:
        res = actor.invoke(i, actor.args(i))
    except Exception as e:  # noqa: BLE001  whether a call may raise is C15's business; here it must not depend on the others
        return f"raised {type(e).__name__}"
    return actor.observe(i, res)


def build(spec):
    try:
        return actors.make(spec)
    except Exception as e:  # noqa: BLE001
        return f"raised {type(e).__name__}"


def alone(spec):
    a = build(spec)
    if isinstance(a, str):
        return [a]
    return [one(a, i) for i in range(a.n())]


def name(spec):
    return spec["type"] + ":" + spec["cfg"]["kind"] if "cfg" in spec else spec["type"]


def execute(plan, ctx):
    specs = plan["parties"]
    if not specs:
        return
    names = [name(s) for s in specs]
    if any(specs[i] == specs[j] for i in range(len(specs)) for j in range(i)):
        ctx.probe("twins")
    ref = []
    for i, s in enumerate(specs):
        with R.seam(plan["seed"]):
            ref.append(alone(s))
        for j in range(i):
            if specs[j] == s:
                ctx.check(ref[j] == ref[i], "reproducible", lambda: f"{names[i]}: a second fresh instance gives other results on the same stream")
    if any(x.startswith("raised") for r in ref for x in r):
        ctx.probe("raised_alike")

    def compare(got, cls, how):
        for i in range(len(specs)):
            for j, (a, b) in enumerate(zip(got[i], ref[i])):
                ctx.check(a == b, cls, lambda: f"{names[i]}, call {j + 1}: result {how} differs from the one it gives alone")
            ctx.check(len(got[i]) <= len(ref[i]), cls, "more results than calls")

    # call by call
    with R.seam(plan["seed"] + 1):
        acts = [build(s) for s in specs]
        got = [[a] if isinstance(a, str) else [] for a in acts]
        for k in plan["calls"]:
            if k >= len(specs) or isinstance(acts[k], str) or len(got[k]) >= acts[k].n():
                continue
            got[k].append(one(acts[k], len(got[k])))
            ctx.event("call", k, got[k][-1])
            ctx.fault("call_switch")
    compare(got, "interleaved", "when calls of other parties come in between")
    ctx.state("calls", tuple(sorted(set(names))), tuple(plan["calls"][:12]))

    # line by line
    if plan["threads"] and len(specs) > 1:
        sc = sched.Scheduler(len(specs), plan["switches"], plan["opcodes"], plan["start"])
        got = [[] for _ in specs]

        def body(i):
            def f():
                a = build(specs[i])
                if isinstance(a, str):
                    got[i].append(a)
                    return
                for j in range(a.n()):
                    got[i].append(one(a, j))
            return f
        with R.seam(plan["seed"] + 2):
            try:
                sc.run([body(i) for i in range(len(specs))])
            except sched.Stalled:
                ctx.probe("stalled")
                got = ref
        for me, target, file, line in sc.taken:
            ctx.event("switch", me, target, file)
            ctx.state(names[me], names[target], file, line)
            ctx.probe("opcode_switch" if plan["opcodes"] else "line_switch")
            ctx.fault("preemption")
            if "segmentation" in file:
                ctx.probe("switch_in_segmentation")
            elif "statistical" in file:
                ctx.probe("switch_in_model")
            elif "dialect" in file:
                ctx.probe("switch_in_parser")
            elif file.startswith("decoders"):
                ctx.probe("switch_in_decoder")
        if len(sc.taken) > 50:
            ctx.probe("many_switches")
        ctx.event("points", sc.points, [g for g in got])
        ctx.at(sc.points * 1e-6)
        compare(got, "preempted", "when other parties' threads run in between")
        for i in range(len(specs)):
            ctx.check(len(got[i]) == len(ref[i]), "preempted", lambda: f"{names[i]}: {len(got[i])} results, {len(ref[i])} calls")

    # alone again
    for i, s in enumerate(specs):
        with R.seam(plan["seed"] + 3):
            again = alone(s)
        ctx.check(again == ref[i], "reproducible", lambda: f"{names[i]}: a fresh instance gives other results after the others have run")


def simplify(plan):
    if plan["threads"]:
        yield dict(plan, threads=False)
    if plan["opcodes"]:
        yield dict(plan, opcodes=False)
    for i, p in enumerate(plan["parties"]):
        for cut in (len(p["steps"]) // 2, len(p["steps"]) - 1):
            if 0 < cut < len(p["steps"]):
                yield dict(plan, parties=plan["parties"][:i] + [dict(p, steps=p["steps"][:cut])] + plan["parties"][i + 1:])
    for i, (g, t) in enumerate(plan["switches"][:20]):
        if g > 1:
            yield dict(plan, switches=plan["switches"][:i] + [[g // 2, t]] + plan["switches"][i + 1:])
