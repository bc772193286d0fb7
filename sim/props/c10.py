"""C10: saving a learned model is all-or-nothing under crashes and disk faults."""
import numpy as np

from sim import core, disk, rx
from sim.props import _model as M
from inference import BufferModel

RUNS = {"quick": 18000, "thorough": 400000}
RULE = ("one evaluation = one life of a model on a simulated disk (learning, saves with faults, crashes, restarts); distinct = (disk operation sequence "
        "of a save, fault and its position, outcome of the save, which model was found afterwards)")
REAL, STUBS = M.REAL, M.STUBS
ASSUMPTIONS = ["disk model: operations take effect in order for running processes; after power loss unsynced data may be lost or torn in any "
               "subset and directory operations survive as a prefix of their order", "crash points are the operations that reach the disk"]
PROBES = ["save_ok", "save_refused", "crash_in_save", "power_loss_in_save", "power_loss_after_save", "old_found", "new_found", "nothing_saved_yet",
          "reader_saw_old", "reader_saw_new", "interrupted", "unserialisable", "two_files"]
ERRS = ["ENOSPC", "EIO", "EDQUOT", "EROFS", "EACCES", "EMFILE"]


def rand_faults(rng, n_hint):
    """faults at disk operations of one save"""
    f = {}
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        i = rng.randrange(n_hint) if rng.random() < 0.8 else rng.randrange(4)
        k = rng.choice(["crash", "crash", "power", "power", "err", "err", "short", "torn", "interrupt", "lost"])
        f[str(i)] = [k, rng.choice(ERRS)] if k == "err" else [k, round(rng.random(), 3), rng.choice(["ENOSPC", "EIO"])] if k in ("short", "torn") else [k]
    return f


def gen(rng, tier):
    lays, total = rx.make_layouts(rng, rng.choice([1, 2]), rng.choice([20, 30]))
    bufsize = rng.choice([64, 256, 512, 4096])
    steps = []
    paths = ["/simdisk/model.json"] + (["/simdisk/other.json"] if rng.random() < 0.3 else [])
    hint = rng.choice([8, 14, 30, 80])
    for _ in range(rng.randrange(3, 12)):
        for _ in range(rng.choice([0, 1, 1, 2, 5])):
            steps.append(M.rand_learn(rng, lays))
        r = rng.random()
        if r < 0.86:
            s = {"op": "save", "path": rng.randrange(len(paths)), "faults": rand_faults(rng, hint), "power": rng.randrange(1, 2**31),
                 "readers": sorted(rng.sample(range(hint), min(hint, 5))) + ["last"] if rng.random() < 0.5 else []}
            if rng.random() < 0.06:
                s["poison"] = True
            steps.append(s)
        elif r < 0.93:
            steps.append({"op": "power", "seed": rng.randrange(1, 2**31)})
        else:
            steps.append({"op": "restart", "path": rng.randrange(len(paths))})
    return {"window": rng.choice([None, 1, 3, 8]), "bufsize": bufsize, "capacity": rng.choice([None, None, None, rng.randrange(3000, 40000)]),
            "paths": paths, "steps": steps}


def execute(plan, ctx):
    d = disk.Disk(plan["capacity"], plan["bufsize"])
    d.on_fault = ctx.fault
    paths = plan["paths"]
    if len(paths) > 1:
        ctx.probe("two_files")
    cur = [None] * len(paths)           # what the file holds for running processes
    maybe = [[None] for _ in paths]     # what a power loss may bring back
    model = M.fresh(plan["window"])

    def found(path, quiet=True):
        """Load as a new process would."""
        d.quiet += 1
        try:
            return M.sig(BufferModel.load(paths[path]))
        except FileNotFoundError:
            return None
        except Exception as e:  # noqa: BLE001
            raise core.Violation("unreadable", f"the saved model cannot be loaded: {type(e).__name__}: {e}") from e
        finally:
            d.quiet -= 1

    def settle(path, allowed, cls, msg):
        s = found(path)
        ctx.check(any(s == a for a in allowed), cls, lambda: msg + (": nothing there" if s is None else ": neither the old nor the new model"))
        return s

    with d:
        for i, st in enumerate(plan["steps"]):
            op = st["op"]
            ctx.at(float(i))
            if op in ("buffer", "sample", "describe", "field"):
                ctx.call(f"step {i} {op}", M.learn, model, st)
                continue
            if op == "restart":
                s = settle(st["path"], [cur[st["path"]]], "later", "a later load does not return the model saved last")
                model = M.fresh(plan["window"]) if s is None else BufferModel.load(paths[st["path"]])
                continue
            if op == "power":
                d.power_cycle(st["seed"])
                ctx.fault("power_between")
                for p in range(len(paths)):
                    cur[p] = settle(p, maybe[p], "power", "after a power loss the file holds no complete saved model")
                    maybe[p] = [cur[p]]
                ctx.probe("power_loss_after_save")
                model = M.fresh(plan["window"]) if cur[0] is None else BufferModel.load(paths[0])
                continue
            # ------------------------------------------------------------ save
            p = st["path"]
            if st.get("poison"):
                model.add_sample("poison", np.int64(3), "int32_t")
                ctx.fault("unserialisable")
            new = M.sig(model)
            old = cur[p]
            before = dict(ctx.faults)
            d.arm(st["faults"])
            readers = st["readers"]

            def observer(k, name, readers=readers, old=old, new=new, p=p):
                if k in readers or (readers and name in ("rename", "unlink", "close")):
                    s = found(p)
                    ctx.check(s == old or s == new, "reader", lambda: f"a reader during the save (before operation {k}, {name}) finds "
                              + ("nothing" if s is None else "neither the old nor the new model"))
                    ctx.probe("reader_saw_new" if s == new else "reader_saw_old")
            d.observer = observer if readers else None
            outcome = "ok"
            try:
                model.save(paths[p])
            except core.Violation:
                raise
            except core.SimCrash as e:
                outcome = str(e)
            except KeyboardInterrupt:
                outcome = "interrupted"
            except Exception as e:  # noqa: BLE001
                outcome = "refused"
                fired = {k: v - before.get(k, 0) for k, v in ctx.faults.items() if v != before.get(k, 0)}
                ctx.check(bool(fired) or st.get("poison"), "refused", lambda: f"saving failed although nothing went wrong: {type(e).__name__}: {e}")
            if d.dead:
                outcome = d.gone  # also when the code under test swallowed the exception of the dying process
            d.observer = None
            oplog = tuple(d.log)
            d.arm({})
            ctx.event(i, outcome, oplog)
            if outcome in ("crash", "power"):
                if outcome == "power":
                    d.power_cycle(st["power"])
                    ctx.probe("power_loss_in_save")
                    for q in range(len(paths)):
                        if q != p:
                            cur[q] = settle(q, maybe[q], "power", "after a power loss another file holds no complete saved model")
                            maybe[q] = [cur[q]]
                    s = settle(p, maybe[p] + [new], "power", "after a power loss during a save")
                    maybe[p] = [s]
                else:
                    d.revive()
                    ctx.probe("crash_in_save")
                    s = settle(p, [old, new], "crash", "after a crash during a save")
                    maybe[p] = maybe[p] + [s]
                cur[p] = s
                ctx.probe("new_found" if s == new else "nothing_saved_yet" if s is None else "old_found")
                model = M.fresh(plan["window"]) if s is None else BufferModel.load(paths[p])
            elif outcome == "ok":
                ctx.probe("save_ok")
                cur[p] = settle(p, [new], "lost", "a save returned normally but a load does not return that model")
                maybe[p].append(new)
            else:
                s = settle(p, [old, new], "failed", "after a failed save")
                cur[p] = s
                maybe[p].append(s)
                ctx.probe("interrupted" if outcome == "interrupted" else "unserialisable" if st.get("poison") else "save_refused")
                ctx.probe("old_found" if s == old else "new_found")
            for q in range(len(paths)):
                if q != p:
                    settle(q, [cur[q]], "other", "saving to one file changed another")
            ctx.check(M.sig(model) == new or outcome in ("crash", "power"), "changed", "saving changed the model in memory")
            if st.get("poison"):
                model = M.fresh(plan["window"]) if cur[p] is None else BufferModel.load(paths[p])
            ctx.state(oplog[:60], sorted((k, v[0]) for k, v in st["faults"].items()), outcome, cur[p] == new)


def simplify(plan):
    for i, s in enumerate(plan["steps"]):
        if s["op"] != "save":
            continue
        for k in s["faults"]:
            yield dict(plan, steps=plan["steps"][:i] + [dict(s, faults={a: b for a, b in s["faults"].items() if a != k})] + plan["steps"][i + 1:])
        if s["readers"]:
            yield dict(plan, steps=plan["steps"][:i] + [dict(s, readers=[])] + plan["steps"][i + 1:])
    if plan["capacity"] is not None:
        yield dict(plan, capacity=None)
    if plan["bufsize"] != 4096:
        yield dict(plan, bufsize=4096)
