"""C11 the same seed and files give the same results in every process, over restarts, retries and changed surroundings."""
import json
import os
import shutil
import signal
import subprocess
import sys

from checks import catalog, data, popcfg, util
from sim.core import HarnessError, Result

PROPERTY = "C11"
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: whole pipeline runs in simulated processes whose clock, identity, entropy, hash seed, directory order, restarts and transient faults the plan decides; digests of every stage compared between runs"
NOTE = "Each scenario runs in one reference process and in one or two perturbed ones with the same files and seeds; every stage's labels, order and bits must agree."
RULE = "episode whose perturbed run had a restart between stages, a fired fault that was retried, or a failed save before the real one"
REAL = ["the whole package in separate interpreters: catalogue and injection loading, saving, loading, configuration, model building, prior draws, likelihood, MAP search, re-sampling, exports, spin priors", "jax, numpyro, xarray, HDF5"]
STUB = ["wall clock, process id and OS entropy (libsimworld.so)", "directory listing order", "hash seed, working directory, locale and time-zone environment", "disk faults and process death during saves (libsimio.so)", "asynchronous interrupts"]
ASSUMPTIONS = ["same machine and library versions; single-threaded XLA; addresses of objects (ASLR) vary uncontrolled between the processes"]
TIERS = {"quick": {"sessions": 8, "episodes": 5, "budget_s": 85, "hard_s": 600}, "thorough": {"sessions": 48, "episodes": 40, "budget_s": 400, "hard_s": 2400}}

EVS = ["GW150914", "GW170104", "GW190521", "GW190412", "S230529ay", "GW200105", "GW1", "GW10"]


def scenario(rng):
    while True:
        cfg = popcfg.config(rng)
        ps = popcfg.params_of(cfg)
        spins = any(p.startswith(("a_", "cos_tilt")) for p in ps)
        if "chi_eff" in ps and (spins or rng.random() < 0.6):
            continue
        break
    cfg["kw"]["posterior_predictive_check"] = rng.random() < 0.4
    pn = sorted(set(ps) | {"mass_1", "mass_ratio", "redshift"} | ({"a_1"} if spins else set()))
    rng.shuffle(pn)
    small = "chi_eff" in ps
    if small and rng.random() < 0.4:
        pn.append("chi_p")
    n = rng.randint(1, 4)
    pe = [dict(catalog.pe_cfg(rng, n=rng.choice([5, 9]) if small else rng.choice([24, 60, 90])), heavy=rng.choice([0, 0.2])) for _ in range(n)]
    inj = catalog.inj_cfg(rng, n=rng.choice([4, 6]) if small else rng.choice([30, 80]))
    inj.update(missing=None, inplane=True, edge=False)
    return {"pe": pe, "ev": rng.sample(EVS, n), "pn": pn, "mmax": rng.choice([100.0, 100.0, 80.0]), "keyfile": rng.random() < 0.5, "inj": inj, "iq": {"ifar": rng.choice([1, 0.5]), "snr": rng.choice([10, 8])},
            "ignore": None, "config": cfg, "hseed": rng.randrange(1 << 30), "key": rng.randrange(1 << 30), "seed": rng.randrange(1 << 30), "map": rng.random() < 0.12, "splines": rng.random() < 0.4,
            "chip": [[round(rng.uniform(0.1, 0.7), 2), round(rng.uniform(-0.3, 0.4), 2), round(rng.uniform(0.3, 1), 2)] for _ in range(2)] if rng.random() < 0.5 else []}


def world(rng):
    return {"hash": rng.choice([1, 2, 3, 17, rng.randrange(1 << 31)]), "clock": rng.choice([1, 951782400, 1500000000, 2147483000, 4102444800, rng.randrange(1 << 31)]), "tick": rng.choice([1, 1000000, 3600 * 10**9]),
            "pid": rng.randint(2, 4_000_000), "entropy": rng.randrange(1 << 40), "tz": rng.choice(["UTC", "Asia/Tokyo", "America/New_York"]), "lang": rng.choice(["C", "C.UTF-8", "POSIX"]),
            "cwd": rng.choice(["here", "out", "deep", "inputs"]), "listing": rng.randrange(1 << 30), "noise": rng.choice([None, rng.randrange(1 << 30)])}


def generate(rng, tier, sconf):
    scs = [scenario(rng) for _ in range(rng.randint(2, 3))]
    modes = {}
    for i in range(len(scs)):
        for k in ("pe", "inj", "load", "parse", "trace", "chip"):
            if rng.random() < 0.35:
                modes[f"{i}:{k}"] = [m for m in (util.mode(rng, (0, 3, 2) if k not in ("trace", "chip") else (0, 0, 1), util.errors_only if k == "parse" else None) for _ in range(rng.choice([1, 1, 2])))]
        if rng.random() < 0.4:
            modes[f"{i}:save"] = [{"kind": "fault", "faults": data.write_faults(rng)}]
    split = rng.choice([None, [1], [1], [1, 2]])      # stages after which the process ends and another one goes on
    order = list(range(len(scs)))
    if rng.random() < 0.5:
        rng.shuffle(order)
    return {"scenarios": scs, "order": order, "modes": modes, "split": split, "worlds": [world(rng) for _ in range(1 + len(split or []))]}


def shrinks(plan):
    n = len(plan["scenarios"])
    for i in range(n):
        if len(plan["order"]) > 1 and i in plan["order"]:
            yield dict(plan, order=[j for j in plan["order"] if j != i])
    if plan["modes"]:
        yield dict(plan, modes={})
        for k in plan["modes"]:
            yield dict(plan, modes={a: b for a, b in plan["modes"].items() if a != k})
    if plan["split"]:
        yield dict(plan, split=None, worlds=plan["worlds"][:1])
    base = reference_world()
    for i, w in enumerate(plan["worlds"]):
        for k in w:
            if w[k] != base[k]:
                yield dict(plan, worlds=plan["worlds"][:i] + [dict(w, **{k: base[k]})] + plan["worlds"][i + 1:])


def reference_world():
    return {"hash": 0, "clock": 1700000000, "tick": 1000000, "pid": 4242, "entropy": 1, "tz": "UTC", "lang": "C.UTF-8", "cwd": "here", "listing": None, "noise": None}


def setup(ctx):
    from checks.c05 import Ref

    ctx.state["ref"] = Ref(67.90e3, 0.3065)
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sim", "simworld.c")
    so = os.path.join(ctx.scratch, "libsimworld.so")
    subprocess.run(["gcc", "-O2", "-fPIC", "-shared", "-w", "-o", so, src, "-ldl"], check=True)
    ctx.state["so"] = so
    ctx.state["cache"] = os.path.join(ctx.scratch, "xla")    # compiled code only: saves time, cannot change what is computed


def spawn(ctx, job, w, tag):
    from sim import main

    d = job["base"]
    so = ctx.state["so"]
    shim = os.environ["SIMIO_LIB"]
    env = main.child_env(shim, w["hash"], {"LD_PRELOAD": f"{shim}:{so}", "SIMWORLD_LIB": so, "SIMWORLD_CLOCK": str(w["clock"]), "SIMWORLD_TICK": str(w["tick"]), "SIMWORLD_PID": str(w["pid"]), "SIMWORLD_ENTROPY": str(w["entropy"]),
                                           "JAX_COMPILATION_CACHE_DIR": ctx.state["cache"],
                                           "JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS": "0", "JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES": "-1", "TZ": w["tz"], "LC_ALL": w["lang"], "TMPDIR": os.path.join(d, "tmp")})
    cwd = {"here": d, "out": job["outdir"], "deep": os.path.join(d, "deep", "er"), "inputs": job["inputs"]}[w["cwd"]]
    os.makedirs(cwd, exist_ok=True)
    os.makedirs(os.path.join(d, "tmp"), exist_ok=True)
    jf, of = os.path.join(d, f"job{tag}.json"), os.path.join(d, f"res{tag}.json")
    with open(jf, "w") as f:
        json.dump(dict(job, listing=w["listing"], noise=w["noise"]), f)
    with open(os.path.join(d, f"log{tag}"), "w") as log:
        p = subprocess.Popen([sys.executable, "-W", "ignore", "-P", "-m", "checks.c11_child", jf, of], env=env, cwd=cwd, stdout=log, stderr=log, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            p.wait(timeout=240)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise HarnessError(f"process {tag} did not finish")
    if not os.path.exists(of):
        with open(os.path.join(d, f"log{tag}")) as f:
            raise HarnessError(f"process {tag} ended with {p.returncode}: {f.read()[-1500:]}")
    with open(of) as f:
        return json.load(f)


def execute(plan, ctx):
    import yaml

    r = Result()
    d = ctx.fresh_dir()
    inputs = os.path.join(d, "inputs")
    os.makedirs(inputs)
    for i in plan["order"]:
        sc = plan["scenarios"][i]
        meta = {}
        for j, c in enumerate(sc["pe"]):
            p = os.path.join(inputs, f"ev{i}_{j}.h5")
            catalog.write_pe(p, c, ctx.state["ref"])
            meta[sc["ev"][j]] = {"file_path": p, "waveform": c["wf"], "redshift_prior": c["zp"], "catalog": c["cat"]}
        catalog.write_keyfile(os.path.join(inputs, f"meta{i}.json"), meta)
        catalog.write_inj(os.path.join(inputs, f"inj{i}.h5"), sc["inj"])
        with open(os.path.join(inputs, f"config{i}.yml"), "w") as f:
            yaml.safe_dump({"label": "x", "models": sc["config"]["models"]}, f, sort_keys=False)
    job = {"base": d, "scratch": d, "inputs": inputs, "scenarios": plan["scenarios"]}
    oa, ob = os.path.join(d, "outA"), os.path.join(d, "outB")
    os.makedirs(oa)
    os.makedirs(ob)
    A = spawn(ctx, dict(job, outdir=oa, order=[[i, [1, 2, 3]] for i in sorted(plan["order"])]), reference_world(), "A")
    got = []
    cuts = [0] + list(plan["split"] or []) + [3]
    for k, w in enumerate(plan["worlds"]):
        stages = [s for s in (1, 2, 3) if cuts[k] < s <= cuts[k + 1]]
        B = spawn(ctx, dict(job, outdir=ob, order=[[i, stages] for i in plan["order"]], modes=plan["modes"]), w, f"B{k}")
        got += B["out"]
        r.fault(B["faults"])
        r.probe("clock_reads", int(B["clock_reads"] > 0))
    if plan["split"]:
        r.fault({"process_restart": len(plan["split"])})
    r.fault({"changed_surroundings": len(plan["worlds"])})
    want = {n: (st, dg) for n, st, dg in A["out"]}
    have = {n: (st, dg) for n, st, dg in got}
    r.ops = len(A["out"]) + len(got)
    for n, st, dg in A["out"]:
        r.ev(n, st, dg)
        r.probe(n.split(":")[1] + ("" if st == "ok" else "_" + st))
        if n not in have:
            r.fail("missing", f"stage {n} gave a result in the reference process, but the perturbed run never got there ({[x for x in got if x[1] != 'ok'][:2]})")
            return r
        if have[n] != (st, dg):
            r.fail("differs", f"stage {n}: {st} {dg} in the reference process, {have[n][0]} {have[n][1]} in the perturbed one")
            return r
    for n in have:
        if n not in want:
            r.fail("missing", f"stage {n} gave a result in the perturbed run only")
            return r
    r.sig = f"{plan['split']}:{sorted(plan['modes'])}:{r.digest()}"
    shutil.rmtree(d, ignore_errors=True)
    return r
