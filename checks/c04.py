"""C04 a save is all-or-nothing at every crash point, and a load overlapping a save sees one version."""
import os

from checks import data
from sim.core import Result, h, list_shrinks, rng_for, sut
from sim.sched import random_position

PROPERTY = "C04"
LEVEL = "fault_enumeration"
TECHNIQUE = 'deterministic simulation: crash points, torn writes, power loss, overlap and disk faults over a logged disk model'
NOTE = 'Crash images are rebuilt from the logged libc operations of the real save and read back by the real loader; assumes in-order metadata and fsync-durable data.'
RULE = "episode in which at least one crash image (process kill, torn write or power loss) was recovered, a save overlapped another save or load, or a write fault fired"
REAL = ["gwinferno save_posterior_samples_and_injection_datasets_as_idata and load_pe_and_injections_as_dict", "arviz, xarray, h5netcdf, h5py, HDF5 C library"]
STUB = ["disk below the libc seam: operation log replayed by a disk model that drops or tears whatever was not yet durable", "thread scheduler"]
ASSUMPTIONS = ["renames and creations reach the disk in program order; file data is durable only after fsync of that file",
               "durability of the new version after save() returns is not claimed for power loss (no directory fsync)"]
TIERS = {"quick": {"sessions": 8, "episodes": 60, "budget_s": 50}, "thorough": {"sessions": 64, "episodes": 400, "budget_s": 260}}


def setup(ctx):
    from gwinferno.pipeline.utils import load_pe_and_injections_as_dict
    from gwinferno.preprocess.data_collection import save_posterior_samples_and_injection_datasets_as_idata

    ctx.state.update(save=save_posterior_samples_and_injection_datasets_as_idata, load=load_pe_and_injections_as_dict)


def generate(rng, tier, sconf):
    mode = rng.choices(["crash", "overlap_load", "threads", "fault", "interrupt"], [5, 2, 1.5, 2.5, 1])[0]
    plan = {"mode": mode, "old": data.cfg(rng, big=rng.random() < 0.1) if rng.random() < 0.85 else None, "new": data.cfg(rng, big=rng.random() < 0.15),
            "other": data.cfg(rng), "same": rng.random() < 0.3, "link": rng.random() < 0.1}
    if plan["same"] and plan["old"]:   # same shape and events, other values: a mixture would not be noticed by shape
        plan["new"] = dict(plan["old"], seed=plan["old"]["seed"] ^ 5, tot=plan["old"]["tot"] + 1, time=plan["old"]["time"] + 0.5)
    if mode == "crash":
        # fractions of the operation log; torn = bytes of the next write that still arrive
        plan["points"] = [{"at": round(rng.choice([rng.random(), 1 - 0.2 * rng.random(), 1.0, 0.0]), 4), "kind": rng.choice(["kill", "kill", "torn", "power", "power"]),
                           "torn": rng.random(), "seed": rng.randrange(1 << 30), "retry": rng.random() < 0.35} for _ in range(rng.randint(4, 10))]
    elif mode == "fault":
        plan["faults"] = data.write_faults(rng)
    else:
        plan["pos"] = [random_position(rng, 2.4) for _ in range(rng.randint(1, 3))]
    return plan


def shrinks(plan):
    yield from list_shrinks(plan, ["points", "faults", "pos"])
    for k in ("old", "new"):
        c = plan.get(k)
        if c and (c["ns"] > 2 or c["ni"] > 3):
            yield {**plan, k: {**c, "ns": 2, "ni": 3}}


def _judge(r, S, path, cands, where, absent_ok, ignore=None):
    """cands: {name: cfg}. Loads path; records a violation unless it is exactly one of the candidates."""
    if not os.path.lexists(path):
        if absent_ok:
            r.ev(where, "absent")
            return None
        r.fail("lost", f"{where}: the previously saved file is gone")
        return None
    try:
        got = S["load"](path)
    except Exception as e:
        r.fail("unreadable", f"{where}: load raised {type(e).__name__}: {str(e)[:200]}")
        return None
    ds = {}
    for k, c in cands.items():
        ds[k] = data.diff(got, data.expected(c))
        if not ds[k]:
            r.ev(where, k)
            return k
    r.fail("mixed", f"{where}: content is neither version: {ds}")
    return None


def execute(plan, ctx):
    from sim import sched, simio

    S = ctx.state
    r = Result()
    d = ctx.fresh_dir()
    p = os.path.join(d, "out.h5")
    if plan.get("link"):
        os.makedirs(os.path.join(d, "store"))
        real = os.path.join(d, "store", "real.h5")
        if plan["old"] is not None:
            os.symlink(real, p)
    old, new = plan["old"], plan["new"]
    pe, inj = data.make(new)
    if old is not None:
        sut(r, "first save", lambda: S["save"](p, *data.make(old)))
        if _judge(r, S, p, {"old": old}, "before", False) is None:
            return r
    cands = {"new": new} if old is None else {"old": old, "new": new}
    r.ops += 2
    mode = plan["mode"]
    if mode == "crash":
        if plan.get("link"):
            p0 = os.path.realpath(p)
        else:
            p0 = p
        snap = simio.snapshot(d)
        simio.reset(log=True)
        sut(r, "save", lambda: S["save"](p, pe, inj))
        ops = simio.log_ops()
        simio.reset()
        r.ev("ops", len(ops))
        if _judge(r, S, p, {"new": new}, "after", False) is None:
            return r
        for j, pt in enumerate(plan["points"]):
            n = int(round(pt["at"] * len(ops)))
            dm = simio.DiskModel(snap)
            for o in ops[:n]:
                dm.apply(o)
            what = f"{pt['kind']} after op {n}/{len(ops)}"
            if pt["kind"] == "torn":
                k = next((i for i in range(n, len(ops)) if ops[i].cls == simio.WRITE and len(ops[i].data or b"") > 1), None)
                if k is not None:
                    for o in ops[n:k]:
                        dm.apply(o)
                    cut = 1 + int(pt["torn"] * (len(ops[k].data) - 1))
                    dm.apply(ops[k], torn=cut)
                    what = f"torn write {k}/{len(ops)} at byte {cut}"
            img = dm.power_loss_image(rng_for(pt["seed"])) if pt["kind"] == "power" else dm.volatile_image()
            e = ctx.fresh_dir()
            simio.write_image(img, d, e)
            q = os.path.join(e, os.path.relpath(p0, d))
            r.fault({"crash_" + pt["kind"]: 1})
            got = _judge(r, S, q, cands, what, old is None)
            if r.violations:
                return r
            r.probe(f"recovered_{got or 'absent'}")
            if pt["retry"]:
                oth = data.make(plan["other"])
                sut(r, "save after recovery", lambda: S["save"](q, *oth))
                if _judge(r, S, q, {"other": plan["other"]}, what + ", then saved again", False) is None:
                    return r
    elif mode == "fault":
        out, txt, fired = data.forked(lambda: S["save"](p, pe, inj), plan["faults"])
        r.fault(fired)
        r.ev("save", out, sorted(fired.items()))
        r.probe("save_" + out)
        c = {"new": new} if out == "ok" else cands
        _judge(r, S, p, c, f"after a save that {out} ({txt}) with {fired}", old is None and out != "ok")
        if not r.violations:
            sut(r, "retried save", lambda: S["save"](p, pe, inj))
            _judge(r, S, p, {"new": new}, "after the retried save", False)
    elif mode == "interrupt":
        for at in plan["pos"]:
            st, _, _ = sched.run_interrupted(lambda: S["save"](p, pe, inj), at)
            r.ev("interrupt", at, st)
            if st == "interrupted":
                r.fault({"interrupt": 1})
            _judge(r, S, p, {"new": new} if st == "ok" else cands, f"after a save interrupted at {at} ({st})", old is None and st != "ok")
    elif mode == "overlap_load":
        if old is None:
            sut(r, "first save", lambda: S["save"](p, *data.make(plan["other"])))
            cands = {"old": plan["other"], "new": new}
        got, fired = sched.run_with_event(lambda: sut(r, "load overlapping a save", lambda: S["load"](p)), plan["pos"][0],
                                          lambda: sut(r, "save", lambda: S["save"](p, pe, inj)))
        r.ev("overlap", fired)
        if fired:
            r.fault({"save_during_load": 1})
        ds = {k: data.diff(got, data.expected(c)) for k, c in cands.items()}
        if all(ds.values()):
            r.fail("mixed", f"load overlapping a save returned neither version: {ds}")
        r.ev([k for k, v in ds.items() if not v])
    else:
        oth = data.make(plan["other"])
        cands["other"] = plan["other"]
        out = {}

        def saver(ds):
            return lambda: S["save"](p, *ds)

        def reader():
            out["got"] = S["load"](p)

        fns = [saver((pe, inj)), saver(oth)] + ([reader] if old is not None else [])
        sc = sched.Scheduler([[at, 1 + i % (len(fns) - 1)] for i, at in enumerate(plan["pos"])])
        res = sc.run(fns)
        r.fault(sc.fired)
        r.ev("trace", sc.trace)
        for i, x in enumerate(res):
            if x is not None and x[0] == "raised":
                r.fail("raised", f"thread {i}: {type(x[1]).__name__}: {str(x[1])[:200]}")
        if not r.violations:
            _judge(r, S, p, {"new": new, "other": plan["other"]}, "after two overlapping saves", False)
        if "got" in out:
            ds = {k: data.diff(out["got"], data.expected(c)) for k, c in cands.items()}
            if all(ds.values()):
                r.fail("mixed", f"load overlapping two saves: {ds}")
    return r
