"""C05 cosmology answers are independent of history, interleaving and interruption."""
import numpy as np

from sim.core import Result, close, h, list_shrinks, maxrel, sut
from sim.sched import random_position

PROPERTY = "C05"
LEVEL = "exploration"
TECHNIQUE = 'deterministic simulation: seeded thread schedules, interrupts and query histories against a float64 quadrature reference'
NOTE = 'Real code under a bytecode-level deterministic scheduler; switches happen only at package bytecodes outside third-party frames.'
RULE = ("episode in which at least one preemption, interrupt or allocation failure fired inside a cosmology call, or a query reached beyond the "
        "tabulated range so that the shared table was rebuilt mid-history")
REAL = ["gwinferno.cosmology.Cosmology (real code, real jax on CPU)", "gwinferno.preprocess.data_collection.dl_2_prior_on_z",
        "gwinferno.models.parametric.PowerlawRedshiftModel", "the two module-level shared cosmologies"]
STUB = ["thread scheduler (one runnable thread, switches only where the plan says, at package bytecodes)",
        "locks created by package code (replaced by scheduler-owned locks)"]
ASSUMPTIONS = ["default integration step; finite, non-negative redshifts and distances; tolerance 2e-3 relative against a float64 quadrature reference"]
TIERS = {"quick": {"sessions": 8, "episodes": 90, "budget_s": 110}, "thorough": {"sessions": 64, "episodes": 400, "budget_s": 260}}

RT = {"z2Dc": 2e-3, "z2DL": 2e-3, "dVcdz": 4e-3, "DL2z": 2e-3, "dDcdz": 1e-4, "z2E": 1e-4, "prior_euclid": 6e-3, "prior_comoving": 4e-3}
C = 299792458.0
_X, _W = np.polynomial.legendre.leggauss(60)


class Ref:
    def __init__(self, Ho, Om, Or=0.0):
        self.cH, self.Om, self.Or = C / Ho, Om, Or

    def E(self, z):
        return np.sqrt(1.0 - self.Om - self.Or + self.Om * (1 + z) ** 3 + self.Or * (1 + z) ** 4)

    def z2Dc(self, z):
        z = np.asarray(z, np.float64)
        x = z[..., None] * (0.5 * (_X + 1))
        return self.cH * z * 0.5 * np.sum(_W / self.E(x), axis=-1)

    def z2DL(self, z):
        return self.z2Dc(z) * (1 + np.asarray(z, np.float64))

    def dDcdz(self, z):
        return self.cH / self.E(np.asarray(z, np.float64))

    def z2E(self, z):
        return self.E(np.asarray(z, np.float64))

    def dVcdz(self, z):
        return 4 * np.pi * self.z2Dc(z) ** 2 * self.dDcdz(z)

    def logdVcdz(self, z):
        with np.errstate(divide="ignore"):
            return np.log(self.dVcdz(z))

    def DL2z(self, DL):
        DL = np.asarray(DL, np.float64)
        lo, hi = np.zeros_like(DL), np.full_like(DL, 60.0)
        for _ in range(80):
            mid = 0.5 * (lo + hi)
            up = self.z2DL(mid) < DL
            lo, hi = np.where(up, mid, lo), np.where(up, hi, mid)
        return 0.5 * (lo + hi)

    def Vc(self, z):
        return 4 * np.pi / 3 * self.z2Dc(z) ** 3

    def prior_euclid(self, z):
        dl = self.z2DL(z)
        return dl**2 * (dl / (1 + z) + (1 + z) * self.dDcdz(z))

    def prior_comoving(self, z):
        return self.dVcdz(z) / (1 + z)


def setup(ctx):
    import gwinferno.cosmology as cm
    from gwinferno.models.parametric import parametric
    from gwinferno.preprocess import data_collection as dc

    ctx.state.update(cm=cm, dc=dc, parametric=parametric)
    ctx.state["shared"] = {
        "planck": (cm.PLANCK_2015_Cosmology, Ref(67.74e3, 0.3089)),
        "lvk": (cm.PLANCK_2015_LVK_Cosmology, Ref(67.90e3, 0.3065)),
    }


# ------------------------------------------------------------------------------------------------------------------ plans
SHAPES = [[], [1], [3], [7], [2, 3], [40]]


def _query(rng, top, shared):
    kinds = ["z2Dc", "z2DL", "dVcdz", "logdVcdz", "DL2z", "DL2z", "DL2z", "z2Dc", "z2DL", "dDcdz", "z2E"]
    if shared:
        kinds += ["prior_euclid", "prior_comoving", "zmodel"]
    k = rng.choice(kinds)
    scale = rng.choice(["in", "in", "edge", "beyond", "beyond", "far"])
    f = {"in": rng.uniform(0.05, 0.999), "edge": rng.choice([0.999, 1.0, 1.0001, 1.002]), "beyond": rng.uniform(1.001, 1.6), "far": rng.uniform(1.6, 4)}[scale]
    return {"op": k, "f": round(f, 5), "shape": rng.choice(SHAPES), "s": rng.randrange(1 << 30), "py": rng.random() < 0.2}


def generate(rng, tier, sconf):
    mode = rng.choices(["single", "threads", "interrupt", "shared", "jit"], [2, 5, 4, 0.6, 0.6])[0]
    top = rng.choice([0.02, 0.05, 0.1, 0.3, 1.0])
    which = rng.choice(["planck", "lvk", "custom"])
    if mode == "shared":
        which, top = rng.choice(["planck", "lvk"]), 10.0
    nth = rng.choice([2, 2, 3]) if mode == "threads" else 1
    threads = []
    for t in range(nth):
        ops = []
        for _ in range(rng.randint(1, 3) if nth > 1 else rng.randint(2, 5)):
            if rng.random() < (0.12 if nth == 1 else 0.3 * t):   # with several threads: mostly one that reads, others that let the table grow
                ops.append({"op": "extend", "f": round(rng.uniform(0.3, 2.5), 4)})
            elif rng.random() < 0.06:
                ops.append({"op": "table"})
            elif ops and "s" in ops[-1] and rng.random() < 0.3:
                # the same question again, or one that differs from it only in the interior of its array
                ops.append(dict(ops[-1], s=ops[-1]["s"] if rng.random() < 0.4 else rng.randrange(1 << 30)))
            else:
                ops.append(_query(rng, top, mode == "shared"))
        threads.append(ops)
    plan = {"mode": mode, "which": which, "Ho": round(rng.uniform(50, 90), 3), "Om": rng.choice([0.25, 0.3, 0.3125, 0.5]), "Or": rng.choice([0.0, 0.0, 0.0078125, 0.0625]), "top": top, "threads": threads,
            "preempts": [], "interrupts": []}
    if mode == "threads":
        n = rng.randint(1, 6)
        plan["preempts"] = [[random_position(rng, loads=0.4), rng.randrange(nth)] for _ in range(n)]
        if rng.random() < 0.2:
            plan["interrupts"] = [random_position(rng)]
    if mode in ("interrupt", "shared"):
        plan["interrupts"] = [[rng.randrange(len(threads[0])), random_position(rng, 2.7), rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"])]
                              for _ in range(rng.randint(1, 2))]
    return plan


def shrinks(plan):
    yield from list_shrinks(plan, ["preempts", "interrupts"])
    for t in range(len(plan["threads"])):
        for q in list_shrinks({"x": plan["threads"][t]}, ["x"]):
            p = dict(plan)
            p["threads"] = plan["threads"][:t] + [q["x"]] + plan["threads"][t + 1:]
            yield p


# ------------------------------------------------------------------------------------------------------------------ execution
def _vals(op, top, ref):
    r = np.random.RandomState(op["s"])
    zmax = min(op["f"] * top, 14.0)
    z = r.uniform(0, zmax, size=op["shape"])
    z = np.where(r.uniform(size=op["shape"]) < 0.1, 0.0, z)
    z = np.asarray(z, np.float32)
    flat = z.reshape(-1)
    flat[-1 if flat.size > 1 else 0] = zmax
    z = flat.reshape(op["shape"])
    if op["op"] == "DL2z":
        z = np.asarray(ref.z2DL(z), np.float32)
    return float(z) if (op.get("py") and z.ndim == 0) else z


def _call(cosmo, op, x, S):
    k = op["op"]
    if k == "prior_euclid":
        return S["dc"].dl_2_prior_on_z(x, euclidean=True)
    if k == "prior_comoving":
        return S["dc"].dl_2_prior_on_z(x)
    if k == "zmodel":
        m = S["parametric"].PowerlawRedshiftModel(np.atleast_2d(x), np.atleast_1d(x).reshape(-1))
        return np.asarray(m.dVdzs[0])
    return getattr(cosmo, k)(x)


def _check(r, who, cosmo, op, x, got, ref, S, shared_name):
    k = op["op"]
    rr = ref
    if k in ("prior_euclid", "prior_comoving", "zmodel"):
        rr = S["shared"]["lvk"][1]
    name = "dVcdz" if k == "zmodel" else k
    xx = np.atleast_1d(x).reshape(-1) if k == "zmodel" else np.asarray(x, np.float64)
    want = getattr(rr, name)(xx)
    got = np.asarray(got)
    if k == "logdVcdz":
        ok = got.shape == want.shape and close(got, want, 1e-4, 4e-3)
    else:
        ok = got.shape == want.shape and close(got, want, RT[name], 1e-12)
    r.ev(who, k, h(got))
    if not ok:
        r.fail("wrong-answer", f"{who}: {k} of {np.asarray(x).reshape(-1)[:4]}...: {maxrel(got, want)}")


def _table(r, who, cosmo, ref):
    """The public table columns describe one consistent table."""
    try:
        z, Dc, Vc, DL = (np.asarray(getattr(cosmo, k), np.float64) for k in ("z", "Dc", "Vc", "DL"))
    except AttributeError:
        return
    if not (z.shape == Dc.shape == Vc.shape == DL.shape):
        return r.fail("torn-table", f"{who}: column lengths {z.shape} {Dc.shape} {Vc.shape} {DL.shape}")
    if not close(Dc, ref.z2Dc(z), 2e-3, 1e-9) or not close(DL, ref.z2DL(z), 2e-3, 1e-9):
        return r.fail("torn-table", f"{who}: distance column does not match redshift column: {maxrel(Dc[1:], ref.z2Dc(z[1:]))}")
    if z.size > 60 and not close(Vc[50:], ref.Vc(z[50:]), 1e-2):
        return r.fail("torn-table", f"{who}: volume column: {maxrel(Vc[50:], ref.Vc(z[50:]))}")


def execute(plan, ctx):
    from sim import sched

    S = ctx.state
    cm = S["cm"]
    r = Result()
    top = plan["top"]
    if plan["mode"] == "shared":
        cosmo, ref = S["shared"][plan["which"]]
    else:
        Ho, Om = {"planck": (67.74e3, 0.3089), "lvk": (67.90e3, 0.3065)}.get(plan["which"], (plan["Ho"] * 1e3, plan["Om"]))
        Or = plan.get("Or", 0.0) if plan["which"] not in ("planck", "lvk") and Om != 0.3 else 0.0   # sums of density parameters must be exact
        cosmo = cm.Cosmology(Ho, Om, Or, 1.0 - Om - Or, max_z=top)
        ref = Ref(Ho, Om, Or)

    def step(who, op):
        r.ops += 1
        if op["op"] == "extend":
            sut(r, f"{who}: extend", lambda: cosmo.extend(op["f"] * top))
            r.ev(who, "extend")
            return
        if op["op"] == "table":
            if plan["mode"] != "threads":   # reading four attributes is not one operation, so only without concurrency
                _table(r, who, cosmo, ref)
            return
        x = _vals(op, top, ref)
        got = sut(r, f"{who}: {op['op']}", lambda: _call(cosmo, op, x, S))
        _check(r, who, cosmo, op, x, got, ref, S, plan["which"])
        if who != "final" and op.get("f", 0) > 1 and op["op"] not in ("dDcdz", "z2E"):
            r.probe("beyond_table")
            r.nontrivial = True

    if plan["mode"] == "threads":
        sc = sched.Scheduler(plan["preempts"], plan["interrupts"])

        def body(t):
            def f():
                for op in plan["threads"][t]:
                    step(f"t{t}", op)
            return f

        res = sc.run([body(t) for t in range(len(plan["threads"]))])
        r.fault(sc.fired)
        r.ev("trace", sc.trace)
        if getattr(sc, "deadlock", False):
            r.fail("deadlock", f"threads blocked for ever: {sc.trace[-6:]}")
        for t, x in enumerate(res):
            if x is None:
                continue
            st, v = x
            if st == "raised" and not r.violations:
                r.fail("raised", f"t{t}: {type(v).__name__}: {v}")
    elif plan["mode"] == "jit":
        import jax

        for op in plan["threads"][0]:
            if op["op"] in ("extend", "table"):
                continue
            x = _vals(op, top, ref)
            try:
                got = jax.jit(lambda y: _call(cosmo, op, y, S))(x)
                _check(r, "jit", cosmo, op, x, got, ref, S, plan["which"])
            except Exception as e:  # tracing may be unsupported: refusing is fine, poisoning the table is not
                r.ev("jit", op["op"], type(e).__name__)
                r.fault({"aborted_by_tracing": 1})
            step("after-jit", op)
    else:
        for i, op in enumerate(plan["threads"][0]):
            for n, at, kind in [k for k in plan["interrupts"] if k[0] == i]:
                exc = sched.SimInterrupt if kind == "KeyboardInterrupt" else sched.SimMemoryError
                st, _v, npts = sched.run_interrupted(lambda: step("int", op), at, exc)
                r.ev("interrupt", i, at, st)
                if st == "interrupted":
                    r.fault({kind: 1})
                elif st == "swallowed":
                    r.probe("interrupt_swallowed")
            step("main", op)
    # after everything: the same object answers everything correctly, at, below and above the table edge
    for f, k in ((0.7, "z2DL"), (1.0, "z2Dc"), (1.3, "dVcdz"), (0.5, "DL2z"), (1.2, "DL2z")):
        step("final", {"op": k, "f": f, "shape": [5], "s": 7, "py": False})
    _table(r, "final", cosmo, ref)
    return r
