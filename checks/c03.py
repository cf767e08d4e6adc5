"""C03 what is loaded is exactly what was last saved, over histories of saves, failed saves, interrupts and faulty reads."""
import os

from checks import data
from sim.core import Result, list_shrinks, sut
from sim.sched import random_position

PROPERTY = "C03"
LEVEL = "exploration"
TECHNIQUE = 'deterministic simulation: seeded save/load histories with disk faults and interrupts against a reference model'
NOTE = 'Seeded search over histories: no violation on everything explored; assumes the libc seam sees all file I/O of HDF5 and Python (verified by operation counts).'
RULE = "episode in which at least one injected disk fault, interrupt or crash fired during a save or load, or the file was overwritten or loaded with an ignore list"
REAL = ["gwinferno save_posterior_samples_and_injection_datasets_as_idata and load_pe_and_injections_as_dict", "arviz, xarray, h5netcdf, h5py, HDF5 C library",
        "kernel file system below the fault-injecting libc seam"]
STUB = ["libc file calls below the scratch directory (fault injection: errors, short transfers, premature EOF, full disk)"]
ASSUMPTIONS = ["a save whose process dies inside HDF5's error handling counts as a crash: previous or new content must remain",
               "values are compared in the precision the loader returns (32-bit)"]
TIERS = {"quick": {"sessions": 8, "episodes": 70, "budget_s": 50}, "thorough": {"sessions": 64, "episodes": 500, "budget_s": 260}}


def setup(ctx):
    from gwinferno.pipeline.utils import load_pe_and_injections_as_dict
    from gwinferno.preprocess.data_collection import save_posterior_samples_and_injection_datasets_as_idata

    ctx.state.update(save=save_posterior_samples_and_injection_datasets_as_idata, load=load_pe_and_injections_as_dict)


NAMES = ["a.h5", "run.h5", "sub.h5.d/b.h5", "x.h5"]


def generate(rng, tier, sconf):
    ops = []
    pool = [data.cfg(rng) for _ in range(3)]
    if rng.random() < 0.15:
        pool.append(data.cfg(rng, big=True))
    names = rng.sample(NAMES, 2)
    for _ in range(rng.randint(3, 8)):
        n = rng.choice(names)
        k = rng.choices(["save", "fsave", "isave", "badname", "load", "fload", "iload"], [4, 3, 1.5, 0.3, 4, 2.5, 0.7])[0]
        op = {"op": k, "f": n}
        if "save" in k:
            op["c"] = rng.randrange(len(pool))
        if k == "fsave":
            op["faults"] = data.write_faults(rng)
        if k in ("isave", "iload"):
            op["at"] = random_position(rng, 2.3)
            op["mem"] = int(rng.random() < 0.3)
        if k in ("load", "fload") and rng.random() < 0.6:
            op["ignore"] = rng.sample(data.EVENTS, rng.randint(0, 4)) + (["nope"] if rng.random() < 0.2 else [])
            op["pick"] = rng.random() < 0.6
            op["k"] = rng.randint(1, 3)
        if k == "fload":
            op["faults"] = data.read_faults(rng)
        ops.append(op)
    return {"pool": pool, "ops": ops}


def shrinks(plan):
    yield from list_shrinks(plan, ["ops"])
    for i, op in enumerate(plan["ops"]):
        if len(op.get("faults", [])) > 1:
            for j in range(len(op["faults"])):
                q = dict(plan)
                q["ops"] = list(plan["ops"])
                q["ops"][i] = {**op, "faults": [op["faults"][j]]}
                yield q


def execute(plan, ctx):
    from sim import sched, simio

    S = ctx.state
    r = Result()
    d = ctx.fresh_dir()
    os.makedirs(os.path.join(d, "sub.h5.d"))
    model = {}   # path -> set of candidate pool indices (usually one); absent = never saved; None = may be absent

    def ignore_of(op, c):
        ig = op.get("ignore")
        if ig is None:
            return None
        if op.get("pick"):
            ig = list(ig) + c["ev"][: min(op["k"], len(c["ev"]))]
        return ig

    def read(op, f, p, faults=None):
        """one load; returns nothing, records violations"""
        cand = model.get(p)
        ig = ignore_of(op, plan["pool"][sorted(x for x in cand if x is not None)[0]]) if cand and cand != {None} else op.get("ignore")
        r.ops += 1
        fired, hard = {}, 0
        try:
            if faults:
                with simio.Faults(faults) as F:
                    got = S["load"](p, ignore=ig)
                fired, hard = F.fired, F.hard
            else:
                got = S["load"](p, ignore=ig)
        except Exception as e:
            if getattr(e, "injected", False):
                raise
            if faults:
                fired, hard = F.fired, F.hard
            r.fault(fired)
            r.ev(op["op"], f, "raised", type(e).__name__)
            if hard or not cand or None in cand:
                return
            r.fail("load-failed", f"load of a saved file raised {type(e).__name__}: {e} (faults fired: {fired})")
            return
        r.fault(fired)
        if cand is None or cand == {None}:
            r.fail("phantom", f"load of {f} succeeded although nothing was saved there")
            return
        ds = {}
        for k in sorted(x for x in cand if x is not None):
            ds[k] = data.diff(got, data.expected(plan["pool"][k], ig))
            if not ds[k]:
                model[p] = {k}
                r.ev(op["op"], f, "ok", k)
                if ig:
                    r.nontrivial = True
                    r.probe("load_with_ignore")
                return
        r.fail("wrong-content", f"load of {f} (ignore={ig}, fired={fired}): {ds}")

    for op in plan["ops"]:
        f, k = op["f"], op["op"]
        p = os.path.join(d, f)
        if k in ("load", "fload"):
            read(op, f, p, op.get("faults"))
        elif k == "iload":
            exc = sched.SimMemoryError if op.get("mem") else sched.SimInterrupt
            st, _, _ = sched.run_interrupted(lambda: read(op, f, p), op["at"], exc)
            if st == "interrupted":
                r.fault({"interrupt": 1})
            r.ev(k, st)
        elif k == "badname":
            try:
                S["save"](os.path.join(d, "noext.nc"), *data.make(plan["pool"][0]))
                r.ev(k, "accepted")
            except Exception as e:
                r.ev(k, type(e).__name__)
        else:
            pe, inj = data.make(plan["pool"][op["c"]])
            r.ops += 1
            if p in model:
                r.nontrivial = True
                r.probe("overwrite")
            old = model.get(p, {None})
            if k == "save":
                sut(r, f"save {f}", lambda: S["save"](p, pe, inj))
                model[p] = {op["c"]}
                r.ev(k, f, op["c"])
            elif k == "fsave":
                out, txt, fired = data.forked(lambda: S["save"](p, pe, inj), op["faults"])
                r.fault(fired)
                r.ev(k, f, op["c"], out, sorted(fired.items()))
                if out == "ok":
                    model[p] = {op["c"]}
                else:
                    hard = sum(v for kk, v in fired.items() if not kk.endswith(":short"))
                    if out == "raised" and not hard:
                        r.fail("raised", f"save {f} without a disk error: {txt} (fired {fired})")
                    model[p] = old | {op["c"]}
                    r.probe("save_" + out)
            else:
                exc = sched.SimMemoryError if op.get("mem") else sched.SimInterrupt
                st, _, _ = sched.run_interrupted(lambda: S["save"](p, pe, inj), op["at"], exc)
                r.ev(k, f, op["c"], st)
                if st == "interrupted":
                    r.fault({"interrupt": 1})
                    model[p] = old | {op["c"]}
                else:
                    model[p] = {op["c"]}
    # epilogue, faults over: everything is readable, and a retry of a save succeeds and is what is read back
    for p in sorted(model):
        f = os.path.relpath(p, d)
        read({"op": "final", "ignore": None}, f, p)
        pe, inj = data.make(plan["pool"][0])
        sut(r, f"final save {f}", lambda: S["save"](p, pe, inj))
        model[p] = {0}
        read({"op": "final", "ignore": None}, f, p)
    return r
