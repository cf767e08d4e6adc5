"""One simulation process.

  python -m sim.worker session CHECK VERIF_SEED SESSION TIER OUT.jsonl EPISODES BUDGET_S
  python -m sim.worker replay  REPLAY.json OUT.json
  python -m sim.worker shrink  REPLAY.json OUT.json BUDGET_S
"""
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback


class Ctx:
    """What a check's execute() may use."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.n = 0
        self.state = {}

    def fresh_dir(self):
        """A new empty directory below the tracked scratch root (same name sequence in every replay)."""
        self.n += 1
        d = os.path.join(self.scratch, f"e{self.n}")
        os.makedirs(d)
        return d


def _boot(check, hashless=False):
    from . import sched

    scratch = tempfile.mkdtemp(prefix="verif-sim-", dir=os.environ.get("VERIF_SCRATCH"))
    os.makedirs(os.path.join(scratch, "tmp"))
    os.environ["TMPDIR"] = os.path.join(scratch, "tmp")
    tempfile.tempdir = None
    os.chdir(scratch)
    sched.install_lock_seam()
    mod = importlib.import_module(f"checks.{check.lower()}")
    import gwinferno

    from .core import REPO

    if not os.path.realpath(gwinferno.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"gwinferno imported from {gwinferno.__file__}, not {REPO}")
    if os.environ.get("SIMIO_LIB"):
        from . import simio

        simio.set_root(scratch)
    ctx = Ctx(scratch)
    if hasattr(mod, "setup"):
        mod.setup(ctx)
    return mod, ctx


def run_episode(mod, ctx, plan):
    """-> (Result or None, harness error text or None)"""
    from .core import Abort, HarnessError

    try:
        return mod.execute(plan, ctx), None
    except Abort as e:
        return e.result, None
    except HarnessError as e:
        return None, f"HarnessError: {e}"
    except BaseException:  # noqa: BLE001 - an exception in the harness is never a verdict
        return None, traceback.format_exc()[-3000:]
    finally:
        if os.environ.get("SIMIO_LIB"):
            from . import simio

            simio.disarm()
        for name in os.listdir(ctx.scratch):
            if name.startswith("e"):
                shutil.rmtree(os.path.join(ctx.scratch, name), ignore_errors=True)


def _rec(i, plan, r, err, dt):
    if r is None:
        return {"i": i, "harness_error": err, "plan": plan, "dt": dt}
    d = {"i": i, "digest": r.digest(), "sig": r.signature(), "violations": r.violations, "faults": r.faults, "probes": r.probes, "ops": r.ops,
         "nontrivial": r.nontrivial, "dt": dt}
    if r.violations or i < 2:
        d["plan"] = plan
    if os.environ.get("SIM_EVENTS"):
        d["events"] = r.events
    return d


def session(check, seed, sess, tier, out, episodes, budget):
    from .core import rng_for

    t0 = time.monotonic()
    f = open(out, "w", buffering=1)
    mod, ctx = _boot(check)
    prop = mod.PROPERTY
    try:
        srng = rng_for(seed, prop, sess, "session")
        sconf = mod.session_config(srng, tier) if hasattr(mod, "session_config") else {}
        t1 = time.monotonic()
        for i in range(episodes):
            # The soft wall-clock budget only ever reduces the number of episodes; each episode is a pure function of (seed, session, i).
            if i and time.monotonic() - t0 > budget:
                f.write(json.dumps({"truncated": i}) + "\n")
                break
            rng = rng_for(seed, prop, sess, i)
            plan = mod.generate(rng, tier, sconf)
            f.write(json.dumps({"start": i, "plan": plan}) + "\n")
            t = time.monotonic()
            r, err = run_episode(mod, ctx, plan)
            f.write(json.dumps(_rec(i, plan, r, err, round(time.monotonic() - t, 4)), default=str) + "\n")
            if r is not None and r.violations:
                break
        f.write(json.dumps({"end": True, "boot_s": round(t1 - t0, 2)}) + "\n")
    finally:
        f.close()
        os.chdir("/")
        shutil.rmtree(ctx.scratch, ignore_errors=True)


def replay(path, out):
    rp = json.load(open(path))
    mod, ctx = _boot(rp["check"])
    res = {"violations": [], "digests": [], "errors": [], "events": []}
    try:
        for k, plan in enumerate(rp["plans"]):
            r, err = run_episode(mod, ctx, plan)
            if r is None:
                res["errors"].append(err)
                continue
            res["digests"].append(r.digest())
            if k == len(rp["plans"]) - 1:
                res["violations"] = r.violations
                res["events"] = r.events
            elif r.violations:
                res["violations"] = r.violations
                res["events"] = r.events
                break
    finally:
        os.chdir("/")
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    json.dump(res, open(out, "w"), default=str)


def shrink(path, out, budget):
    """Greedy shrinking of the last plan of a replay file, in this process (the caller confirms the result in a fresh one)."""
    from .core import list_shrinks

    rp = json.load(open(path))
    mod, ctx = _boot(rp["check"])
    t0 = time.monotonic()
    want = rp["class"]
    plan = rp["plans"][-1]
    tried = kept = 0
    seen = set()

    def fails(p):
        r, err = run_episode(mod, ctx, p)
        return r is not None and any(v["class"] == want for v in r.violations)

    gen = getattr(mod, "shrinks", None) or (lambda p: list_shrinks(p, [k for k, v in p.items() if isinstance(v, list)]))
    try:
        progress = True
        while progress and time.monotonic() - t0 < budget:
            progress = False
            for cand in gen(plan):
                key = json.dumps(cand, sort_keys=True)
                if key in seen:
                    continue
                seen.add(key)
                if time.monotonic() - t0 > budget:
                    break
                tried += 1
                if fails(cand):
                    plan = cand
                    kept += 1
                    progress = True
                    break
    finally:
        os.chdir("/")
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    json.dump({"plan": plan, "tried": tried, "kept": kept}, open(out, "w"))


def main(argv):
    if argv[0] == "session":
        session(argv[1], argv[2], int(argv[3]), argv[4], argv[5], int(argv[6]), float(argv[7]))
    elif argv[0] == "replay":
        replay(argv[1], argv[2])
    elif argv[0] == "shrink":
        shrink(argv[1], argv[2], float(argv[3]))


if __name__ == "__main__":
    main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(0)
