"""Check driver: runs the sessions of one property, judges, minimises, writes evidence.

  python -m sim.main run CHECK quick|thorough
  python -m sim.main replay FILE
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
JOBS = int(os.environ.get("VERIF_JOBS", "0") or 0) or min(8, os.cpu_count() or 1)


def build_shim():
    src = os.path.join(VERIF, "sim", "simio.c")
    dst = os.path.join(VERIF, "build", "libsimio.so")
    if not os.path.exists(dst) or os.path.getmtime(dst) < os.path.getmtime(src):
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        tmp = dst + f".{os.getpid()}"
        subprocess.run(["gcc", "-O2", "-fPIC", "-shared", "-w", "-o", tmp, src, "-ldl", "-lpthread"], check=True)
        os.replace(tmp, dst)
    return dst


def child_env(shim, hashseed="0", extra=None):
    e = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "PYTHONPATH", "PYTHONHASHSEED")}
    e.update(
        PYTHONPATH=f"{REPO}:{VERIF}", PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 --xla_force_host_platform_device_count=1",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg", TF_CPP_MIN_LOG_LEVEL="3", TQDM_DISABLE="1",
        SIMIO_LIB=shim, LD_PRELOAD=shim, VERIF_REPO=REPO,
    )
    e.update(extra or {})
    return e


def spawn(args, env, log):
    return subprocess.Popen([PY, "-W", "ignore", "-m", "sim.worker"] + [str(a) for a in args], env=env, cwd=VERIF, stdout=log, stderr=log, stdin=subprocess.DEVNULL)


def read_jsonl(p):
    out = []
    try:
        with open(p) as f:
            for line in f:
                try:
                    out.append(json.loads(line))
                except ValueError:
                    pass
    except FileNotFoundError:
        pass
    return out


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def replay_once(shim, rp, tmp, tag, timeout=300):
    a, b = os.path.join(tmp, f"rp{tag}.json"), os.path.join(tmp, f"ro{tag}.json")
    json.dump(rp, open(a, "w"))
    with open(os.path.join(tmp, f"rl{tag}.log"), "w") as log:
        p = spawn(["replay", a, b], child_env(shim, rp.get("hashseed", 0), rp.get("env")), log)
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            return {"violations": [{"class": "no-progress", "detail": "episode did not finish"}], "hang": True, "events": []}
    try:
        return json.load(open(b))
    except Exception:
        return {"violations": [{"class": "process-died", "detail": f"exit status {p.returncode}"}], "died": True, "events": []}


def has(res, cls):
    return any(v["class"] == cls for v in res["violations"])


def load_check(check):
    """Static metadata of a check without importing gwinferno (checks import it lazily in setup)."""
    sys.path.insert(0, VERIF)
    import importlib

    return importlib.import_module(f"checks.{check.lower()}")


def run(check, tier):
    seed = os.environ.get("VERIF_SEED", "1") or "1"
    t0 = time.monotonic()
    meta = load_check(check)
    prop = meta.PROPERTY
    conf = dict(meta.TIERS[tier])
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    nsess, neps, budget = conf["sessions"], max(1, int(conf["episodes"] * scale)), conf.get("budget_s", 200)
    hard = conf.get("hard_s", 420 if tier == "quick" else 6 * budget)
    print(f"{prop} {tier}: VERIF_SEED={seed} sessions={nsess} episodes/session={neps} jobs={JOBS} repo={REPO}", flush=True)
    shim = build_shim()
    tmp = tempfile.mkdtemp(prefix="verif-main-")
    os.environ["VERIF_SCRATCH"] = tmp
    try:
        return _run(check, tier, seed, t0, meta, prop, nsess, neps, budget, hard, shim, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(check, tier, seed, t0, meta, prop, nsess, neps, budget, hard, shim, tmp):
    pending = list(range(nsess))
    running = {}
    outs = {}
    hashseeds = {s: (0 if s % 2 == 0 else 1000 + s) for s in range(nsess)}
    stop = False
    killed = []
    while pending or running:
        while pending and len(running) < JOBS and not stop:
            s = pending.pop(0)
            out = os.path.join(tmp, f"s{s}.jsonl")
            log = open(os.path.join(tmp, f"s{s}.log"), "w")
            p = spawn(["session", check, seed, s, tier, out, neps, budget], child_env(shim, hashseeds[s]), log)
            running[s] = (p, time.monotonic(), log)
            outs[s] = out
        if stop and not running:
            break
        time.sleep(0.1)
        for s, (p, ts, log) in list(running.items()):
            rc = p.poll()
            if rc is None and time.monotonic() - ts > hard:
                p.kill()
                p.wait()
                killed.append(s)
                rc = -9
            if rc is not None:
                log.close()
                del running[s]
        if not stop:
            for s in list(outs):
                for d in _tail_violation(outs[s]):
                    stop = True
            if stop:
                # a violation was found: let the others end
                for s, (p, ts, log) in list(running.items()):
                    p.terminate()
    # -------------------------------------------------------------------------------- collect
    eps, starts, herr, dead, viols, truncated = [], {}, [], [], [], 0
    boot = 0.0
    for s in sorted(outs):
        recs = read_jsonl(outs[s])
        plans, ended, done = {}, False, set()
        for r in recs:
            if "start" in r:
                plans[r["start"]] = r["plan"]
            elif "end" in r:
                ended = True
                boot += r.get("boot_s", 0)
            elif "truncated" in r:
                truncated += 1
            elif "harness_error" in r:
                herr.append((s, r["i"], r["harness_error"], r["plan"]))
                done.add(r["i"])
            elif "i" in r:
                r["session"] = s
                eps.append(r)
                done.add(r["i"])
                for v in r["violations"]:
                    viols.append((s, r["i"], v, [plans[k] for k in sorted(plans) if k <= r["i"]]))
        starts[s] = plans
        if not ended and not stop:
            unfinished = [k for k in plans if k not in done]
            tail = ""
            try:
                tail = open(os.path.join(tmp, f"s{s}.log")).read()[-1500:]
            except OSError:
                pass
            dead.append((s, unfinished[0] if unfinished else None, [plans[k] for k in sorted(plans)], s in killed, tail))
    known = known_findings(prop)
    reported_known = set()
    fresh = []
    for v in viols:
        k = [kk for kk in known if kk[0] == v[2]["class"]]
        if k:
            reported_known.add(k[0])
        else:
            fresh.append(v)
    verdict = None
    unrepro = []
    cand = [(s, i, v, plans) for s, i, v, plans in fresh]
    for s, i, plans, was_killed, tail in dead:
        if i is not None:
            cand.append((s, i, {"class": "no-progress" if was_killed else "process-died", "detail": tail}, plans))
    for s, i, v, plans in cand[:4]:
        verdict = confirm(check, prop, seed, s, i, v, plans, shim, tmp, hashseeds[s])
        if verdict:
            break
        unrepro.append({"session": s, "episode": i, **v})
    status = 0
    for cls, what in sorted(reported_known):
        print(f"KNOWN-FINDING: property={prop} {what}")
    if verdict:
        status = 1
    boot_fail = [d for d in dead if d[1] is None]
    wall = time.monotonic() - t0
    evidence(prop, tier, seed, meta, eps, herr, dead, truncated, unrepro, verdict, wall, nsess, boot, hashseeds)
    if status == 0 and not eps:
        # nothing ran at all: the code under test cannot even be set up for this property
        msg = (boot_fail[0][4] if boot_fail else (herr[0][2] if herr else "no session produced a result"))
        print(f"{prop}: no episode could run\n{msg}")
        return 2
    for s, i, e, plan in herr[:3]:
        print(f"harness error (session {s} episode {i}; not a verdict):\n{e}")
    if unrepro:
        print(f"unreproduced observations (not reported as violations): {json.dumps(unrepro)[:800]}")
    if status == 0 and len(herr) > len(eps):
        print(f"{prop}: {len(herr)} episodes ended in harness errors, {len(eps)} decided")
        return 2
    n = len(eps)
    print(f"{prop} {tier}: episodes={n} wall={wall:.1f}s faults={_sum(eps, 'faults')} probes={_sum(eps, 'probes')}")
    if verdict:
        print(f"violation class={verdict['class']}: {verdict['detail']}")
        print(f"VIOLATION property={prop} replay={verdict['path']}", flush=True)
    else:
        print(f"{prop}: held on everything explored")
    return status


def _tail_violation(path):
    try:
        with open(path) as f:
            for line in f:
                if '"violations": [{' in line:
                    yield line
    except OSError:
        return


def _sum(eps, key):
    out = {}
    for e in eps:
        for k, v in e[key].items():
            out[k] = out.get(k, 0) + v
    return dict(sorted(out.items()))


def confirm(check, prop, seed, s, i, v, plans, shim, tmp, hashseed):
    """Re-run in a fresh process, minimise, and write the replay file. None if it does not reproduce."""
    cls = v["class"]
    base = {"check": check, "property": prop, "verif_seed": seed, "session": s, "episode": i, "hashseed": hashseed, "class": cls}
    hang = cls == "no-progress"
    tmo = 200
    chosen = None
    r = replay_once(shim, {**base, "plans": plans[-1:]}, tmp, "a", tmo)
    if has(r, cls):
        chosen = plans[-1:]
    elif r["violations"] and not r.get("died") and not r.get("hang"):
        cls = r["violations"][0]["class"]
        base["class"] = cls
        chosen = plans[-1:]
    elif not hang:
        r = replay_once(shim, {**base, "plans": plans}, tmp, "b", 400)
        if has(r, cls):
            # shrink the prefix of earlier episodes
            chosen = plans
            for keep in (2, 4, 8, 16):
                if keep < len(plans):
                    q = replay_once(shim, {**base, "plans": plans[-keep:]}, tmp, "c", tmo)
                    if has(q, cls):
                        chosen, r = plans[-keep:], q
                        break
    if chosen is None:
        return None
    if not hang and cls != "process-died" and len(chosen) == 1:
        a, b = os.path.join(tmp, "sh.json"), os.path.join(tmp, "sho.json")
        json.dump({**base, "plans": chosen}, open(a, "w"))
        with open(os.path.join(tmp, "sh.log"), "w") as log:
            p = spawn(["shrink", a, b, 45], child_env(shim, hashseed), log)
            try:
                p.wait(timeout=150)
                m = json.load(open(b))
                q = replay_once(shim, {**base, "plans": [m["plan"]]}, tmp, "d", tmo)
                if has(q, cls):
                    chosen, r = [m["plan"]], q
            except Exception:
                p.kill()
    detail = next((x["detail"] for x in r["violations"] if x["class"] == cls), v["detail"])
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", f"{prop}-{seed}-{s}-{i}.json")
    json.dump({**base, "plans": chosen, "original_plan": plans[-1], "detail": detail, "trace": r.get("events", [])[:400]}, open(path, "w"), indent=1, default=str)
    return {"path": path, "class": cls, "detail": detail}


def evidence(prop, tier, seed, meta, eps, herr, dead, truncated, unrepro, verdict, wall, nsess, boot, hashseeds):
    nontriv = {e["sig"] for e in eps if e["nontrivial"]}
    samples = [{"session": e["session"], "episode": e["i"], "plan": e["plan"], "digest": e["digest"]} for e in eps if "plan" in e][:3]
    cov = {
        "evaluations": len(eps),
        "distinct_nontrivial": len(nontriv),
        "rule": meta.RULE,
        "samples": samples,
        "system_operations": sum(e["ops"] for e in eps),
        "simulated_runs_per_hour": round(len(eps) / wall * 3600) if wall else 0,
        "seeds_per_hour": round(nsess / wall * 3600) if wall else 0,
        "sessions": nsess,
        "faults_fired": _sum(eps, "faults"),
        "probes": _sum(eps, "probes"),
        "distinct_states_measure": getattr(meta, "STATE_MEASURE", "distinct digests of the full event log of an episode (operations, faults that fired, outcomes)"),
        "distinct_event_logs": len({e["digest"] for e in eps}),
        "simulated_time": getattr(meta, "SIM_TIME", "the code under test reads no clock; progress is measured in operations and yield points"),
        "components_real": meta.REAL,
        "components_stub": meta.STUB,
        "harness_errors": len(herr),
        "sessions_cut_by_wall_budget": truncated,
        "sessions_died": len(dead),
        "unreproduced": unrepro,
        "hash_seeds": sorted(set(hashseeds.values()))[:8],
    }
    ev = {"property": prop, "tier": tier, "seed": int(seed) if str(seed).lstrip("-").isdigit() else 0, "level": meta.LEVEL, "coverage": cov,
          "assumptions": getattr(meta, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": 1 if verdict else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", f"{prop}.json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1, default=str)
    os.replace(p + ".tmp", p)


def do_replay(path):
    rp = json.load(open(path))
    shim = build_shim()
    tmp = tempfile.mkdtemp(prefix="verif-main-")
    os.environ["VERIF_SCRATCH"] = tmp
    try:
        r = replay_once(shim, rp, tmp, "r")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(json.dumps(r, indent=1)[:6000])
    if has(r, rp["class"]):
        print(f"VIOLATION property={rp['property']} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "run":
        sys.exit(run(sys.argv[2], sys.argv[3]))
    sys.exit(do_replay(sys.argv[2]))
