"""C12 evaluating a population model is a pure read of the model."""
import numpy as np

from checks import models
from checks.util import attempt, mode, mode_shrinks
from sim.core import Abort, Result, h, list_shrinks, sut
from sim.sched import random_position

PROPERTY = "C12"
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded thread schedules, interrupts and evaluation histories over live models, against float64 densities written from the documentation"
NOTE = "Real model code; several models alive at once, evaluated eagerly, compiled, batched, aborted and from several simulated threads."
RULE = "episode in which a preemption, interrupt, allocation failure or failed evaluation really happened between evaluations of the same live models"
REAL = ["gwinferno.interpolation", "gwinferno.models (bsplines.single, bsplines.separable, spline_perturbation, parametric)", "gwinferno.distributions", "jax on CPU"]
STUB = ["thread scheduler (one runnable thread, switches only where the plan says)"]
ASSUMPTIONS = ["finite samples; B-spline orders 3-5 with simple knots; densities compared to 2e-4 relative (8e-3 for the spline-perturbed redshift model), away from hard edges by 1e-3 of the range"]
TIERS = {"quick": {"sessions": 8, "episodes": 40, "budget_s": 90}, "thorough": {"sessions": 64, "episodes": 260, "budget_s": 260}}

W = [(3 if n in models.STATEFUL else 2) * (0.15 if n in models.SLOW else 1) for n in models.FAMILIES]


def setup(ctx):
    ctx.state.update(models.modules())


def _op(rng, nm, threaded):
    how = rng.choices(["eager", "jit", "vmap", "bad", "nan", "build"], [6, 1.2, 0.6, 1, 0.5, 0.6])[0]
    m = {"kind": "plain"}
    if not threaded and how in ("eager", "build") and rng.random() < 0.35:
        m = mode(rng, (0, 0, 1), top=2.8)
    return {"model": rng.randrange(nm), "h": rng.choice([1, 1, 2, 3, 4]), "near": rng.random() < 0.3, "pe": rng.random() < 0.5, "how": how, "buf": rng.random() < 0.35, "m": m}


def generate(rng, tier, sconf):
    names = list(models.FAMILIES)
    nm = rng.choice([1, 2, 2, 3])
    ms = []
    for _ in range(nm):
        if ms and rng.random() < 0.45:      # another instance of the same class: other data, or the very same arguments again
            f = rng.choice(ms)["fam"]
            s = rng.choice([ms[-1]["s"] if ms[-1]["fam"] == f else rng.randrange(1 << 28), rng.randrange(1 << 28)])
        else:
            f, s = rng.choices(names, W)[0], rng.randrange(1 << 28)
        ms.append({"fam": f, "s": s})
    threaded = rng.random() < 0.4
    nt = rng.choice([2, 2, 3]) if threaded else 1
    threads = [[_op(rng, nm, threaded) for _ in range(rng.randint(1, 3) if threaded else rng.randint(3, 8))] for _ in range(nt)]
    plan = {"models": ms, "ops": threads[0] if not threaded else [], "threads": threads if threaded else [], "preempts": [], "interrupts": [], "hseed": rng.randrange(1 << 28)}
    if threaded:
        plan["preempts"] = [[random_position(rng, loads=0.4), rng.randrange(nt)] for _ in range(rng.randint(1, 6))]
        if rng.random() < 0.25:
            plan["interrupts"] = [random_position(rng)]
    return plan


def shrinks(plan):
    yield from list_shrinks(plan, ["preempts", "interrupts", "ops"])
    yield from mode_shrinks(plan)
    for t in range(len(plan["threads"])):
        for q in list_shrinks({"x": plan["threads"][t]}, ["x"]):
            p = dict(plan)
            p["threads"] = plan["threads"][:t] + [q["x"]] + plan["threads"][t + 1:]
            yield p


def _hash(o):
    if isinstance(o, dict):
        return {k: _hash(v) for k, v in sorted(o.items())}
    if isinstance(o, (list, tuple)):
        return [_hash(v) for v in o]
    if isinstance(o, type):
        return o.__qualname__
    if isinstance(o, (str, bool, int, float, type(None))):
        return repr(o)
    return h(o)


def compare(fam, hv, pe, got, want=None):
    """-> None or what differs"""
    want = fam.ref(hv, pe) if want is None else want
    got = np.asarray(got, np.float64)
    if got.shape != want.shape:
        return f"shape {got.shape} instead of {want.shape}"
    skip = fam.skip(hv, pe) if hasattr(fam, "skip") else np.zeros(want.shape, bool)
    use = np.isfinite(want) & ~skip
    if not use.any():
        return None
    scale = np.max(np.abs(want[use]))
    lim = fam.tol() * np.abs(want) + fam.arel * scale + 1e-30
    with np.errstate(invalid="ignore"):
        bad = use & ~(np.abs(got - want) <= lim)
    zero = use & (want == 0)
    bad |= zero & (got != 0) & ~(np.abs(got) <= fam.arel * scale)
    if not bad.any():
        return None
    i = int(np.flatnonzero(bad)[0])
    return f"{int(bad.sum())} of {bad.size} values; at {i}: {got.flat[i]!r} instead of {want.flat[i]!r}"


def execute(plan, ctx):
    import jax

    from sim import sched

    S = ctx.state
    r = Result()
    fams = [models.family(sp) for sp in plan["models"]]
    for f in fams:
        f.resolve(S)
    before = [_hash(f.inputs()) for f in fams]
    objs = [sut(r, f"build {sp['fam']}", lambda f=f: f.build(S)) for f, sp in zip(fams, plan["models"])]
    seen = {}

    def hyper(i, op):
        D = models.Draw(plan["hseed"] + 1009 * op["h"] + 31 * i)
        hv = fams[i].hyper(D)
        if op["near"]:        # same shape, ends and sum-like summaries; only the interior differs
            for k, v in hv.items():
                if isinstance(v, np.ndarray) and v.size > 3:
                    v = v.copy()
                    f = v.reshape(-1)
                    j = f.size // 2
                    f[j - 1], f[j] = f[j], f[j - 1]
                    hv[k] = v
        return hv

    def step(who, op, bufs):
        r.ops += 1
        i = op["model"]
        fam, obj, name = fams[i], objs[i], plan["models"][i]["fam"]
        if op["how"] == "build":
            obj = sut(r, f"{who}: build {name}", lambda: fam.build(S))
            objs[i] = obj
        hv = hyper(i, op)
        arg = dict(hv)
        if op["how"] in ("bad", "nan"):
            for k, v in arg.items():
                if isinstance(v, np.ndarray):
                    arg[k] = v[:-1] if op["how"] == "bad" else np.full_like(v, np.nan)
            try:
                np.asarray(fam.call(S, obj, arg, op["pe"]))
            except Exception as e:  # noqa: BLE001
                if getattr(e, "injected", False):
                    raise
                r.fault({"failed_evaluation": 1})
                r.ev(who, "bad", name, type(e).__name__)
            return
        if op["buf"]:         # the caller keeps one buffer and overwrites it between evaluations
            for k, v in hv.items():
                if isinstance(v, np.ndarray):
                    b = bufs.setdefault((i, k), v.copy())
                    if b.shape == v.shape:
                        np.copyto(b, v)
                        arg[k] = b
        ah = _hash(arg)
        want = fam.ref(hv, op["pe"])
        if op["how"] == "jit":
            got = sut(r, f"{who}: jit {name}", lambda: np.asarray(jax.jit(fam.fn(S, obj, op["pe"]))(arg)))
        elif op["how"] == "vmap":
            other = hyper(i, {**op, "h": op["h"] + 10})
            both = {k: np.stack([np.asarray(v), np.asarray(other[k])]).astype(np.float32) for k, v in hv.items()}
            res = sut(r, f"{who}: vmap {name}", lambda: np.asarray(jax.vmap(fam.fn(S, obj, op["pe"]))(both)))
            if res.shape[:1] != (2,):
                return r.fail("vmap-shape", f"{name}: {res.shape}")
            d = compare(fam, other, op["pe"], res[1])
            if d:
                r.fail("wrong-density", f"{who}: {name} (second of a batch) {'PE' if op['pe'] else 'injections'}: {d}")
            got = res[0]
            want = fam.ref(hv, op["pe"])
        else:
            got = sut(r, f"{who}: {name}", lambda: np.asarray(fam.call(S, obj, arg, op["pe"])))
        r.ev(who, name, op["how"], op["pe"], h(got))
        d = compare(fam, hv, op["pe"], got, want)
        if d:
            r.fail("wrong-density", f"{who}: {name} {op['how']} {'PE' if op['pe'] else 'injections'}: {d}")
        if _hash(arg) != ah:
            r.fail("modified-input", f"{who}: {name}: the hyper-parameters passed in were modified")
        key = (i, op["h"], op["near"], op["pe"], op["how"])
        g = np.asarray(got, np.float64)
        if key in seen and not d:
            with np.errstate(invalid="ignore"):
                same = (np.abs(g - seen[key]) <= 1e-6 * np.abs(seen[key])) | ((g == seen[key]) | (np.isnan(g) & np.isnan(seen[key])))
            if not same.all():
                r.fail("not-repeatable", f"{who}: {name}: the same evaluation differs from the earlier one")
        seen.setdefault(key, g)

    if plan["threads"]:
        sc = sched.Scheduler(plan["preempts"], plan["interrupts"])

        def body(t):
            def f():
                bufs = {}
                for op in plan["threads"][t]:
                    step(f"t{t}", op, bufs)
            return f

        res = sc.run([body(t) for t in range(len(plan["threads"]))])
        r.fault(sc.fired)
        r.ev("trace", sc.trace)
        if getattr(sc, "deadlock", False):
            r.fail("deadlock", "threads blocked for ever")
        for t, x in enumerate(res):
            if x and x[0] == "raised" and not r.violations:
                e = x[1]
                if isinstance(e, Abort):
                    continue
                raise e
    else:
        bufs = {}
        for i, op in enumerate(plan["ops"]):
            st, v, _ = attempt(r, lambda: step("op%d" % i, op, bufs), op["m"])
            if st == "raised":
                if getattr(v, "injected", False):
                    continue
                raise v
            r.ev("op", i, st)
    if r.violations:
        return r
    for i in range(len(fams)):
        for pe in (True, False):
            step("final", {"model": i, "h": 1, "near": False, "pe": pe, "how": "eager", "buf": False}, {})
    for f, b, sp in zip(fams, before, plan["models"]):
        if _hash(f.inputs()) != b:
            r.fail("modified-input", f"{sp['fam']}: samples or keyword arguments the model was built with were modified")
    return r
