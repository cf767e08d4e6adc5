"""C15 densities, cumulative functions, quantiles and draws of the package's distributions describe one distribution, for every random stream."""
import numpy as np

from checks.models import LVK, Draw, RefSpline
from checks.util import attempt, mode, mode_shrinks
from sim.core import Abort, Result, h, list_shrinks, sut
from sim.sched import random_position

PROPERTY = "C15"
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded histories and thread schedules over live distribution objects with a controlled random source (ordinary keys, forced extreme and stratified streams), against float64 densities and cumulative functions"
NOTE = "Real distribution code; the uniform numbers it consumes come from plan-chosen keys or are forced to the ends of their range or to an exact stratification."
RULE = "episode in which a forced random stream, preemption, interrupt or allocation failure really happened between uses of the same live distributions"
REAL = ["gwinferno.numpyro_distributions", "gwinferno.models.bsplines.smoothing", "numpyro.distributions base class", "jax on CPU"]
STUB = ["jax.random.uniform during forced streams", "thread scheduler (one runnable thread, switches only where the plan says)"]
ASSUMPTIONS = ["power-law slopes exactly -1 or at least 0.01 away from it; tabulated redshift law with its maximum at the end of its grid; spline grids inside the support",
               "cumulative values to 2e-4, densities to 3e-4 (single precision); samples of ordinary keys by a Kolmogorov-Smirnov distance with a false-alarm probability below 1e-12"]
TIERS = {"quick": {"sessions": 8, "episodes": 160, "budget_s": 100}, "thorough": {"sessions": 64, "episodes": 1200, "budget_s": 240}}

KINDS = ["sine", "cosine", "pl", "pl", "plz", "bspl", "bspl", "psp", "diff"]
TOP = 1 - 2.0**-23


def setup(ctx):
    import gwinferno.interpolation as it
    import gwinferno.numpyro_distributions as nd

    ctx.state.update(nd=nd, it=it)


def generate(rng, tier, sconf):
    nd = rng.choice([1, 2, 2, 3])
    ds = []
    for _ in range(nd):
        k = rng.choice(KINDS)
        s = rng.randrange(1 << 28)
        if ds and rng.random() < 0.4:
            k = ds[-1]["k"]
            s = ds[-1]["s"] if rng.random() < 0.6 else s
        ds.append({"k": k, "s": s, "near": bool(ds) and rng.random() < 0.5})
    threaded = rng.random() < 0.3
    nt = rng.choice([2, 2, 3]) if threaded else 1

    def op():
        o = rng.choices(["draw", "force", "cdf", "icdf", "logp", "build", "bad"], [3, 0 if threaded else 2.5, 1.5, 1.5, 2, 0.6, 0.6])[0]
        x = {"d": rng.randrange(nd), "op": o, "key": rng.choice([0, 1, 2, 0xFFFFFFFF, rng.randrange(1 << 32)]), "seed": rng.randrange(1 << 28),
             "shape": rng.choice([[2000], [2000], [40, 50], [], [3]]), "jit": rng.random() < 0.06, "m": {"kind": "plain"},
             "stream": rng.choice(["zero", "top", "ends", "strat", "strat"])}
        if not threaded and o in ("draw", "cdf", "icdf", "logp", "build") and rng.random() < 0.3:
            x["m"] = mode(rng, (0, 0, 1), top=2.2)
        return x

    threads = [[op() for _ in range(rng.randint(1, 4) if threaded else rng.randint(3, 9))] for _ in range(nt)]
    plan = {"ds": ds, "ops": [] if threaded else threads[0], "threads": threads if threaded else [], "preempts": [], "interrupts": []}
    if threaded:
        plan["preempts"] = [[random_position(rng, loads=0.4), rng.randrange(nt)] for _ in range(rng.randint(1, 6))]
        if rng.random() < 0.25:
            plan["interrupts"] = [random_position(rng)]
    return plan


def shrinks(plan):
    yield from list_shrinks(plan, ["preempts", "interrupts", "ops"])
    yield from mode_shrinks(plan)
    for t in range(len(plan["threads"])):
        for q in list_shrinks({"x": plan["threads"][t]}, ["x"]):
            p = dict(plan)
            p["threads"] = plan["threads"][:t] + [q["x"]] + plan["threads"][t + 1:]
            yield p


class Tab:
    """A density tabulated on a grid: cumulative values are exact at grid points and between their neighbours elsewhere."""

    def __init__(self, x, p):
        self.x = np.asarray(x, np.float64)
        p = np.asarray(p, np.float64)
        c = np.concatenate([[0], np.cumsum(np.diff(self.x) * (p[1:] + p[:-1]) / 2)])
        self.tot = c[-1]
        self.c = c / c[-1]

    def bracket(self, v):
        v = np.asarray(v, np.float64)
        s = 1e-6 * (self.x[-1] - self.x[0])
        lo = np.clip(np.searchsorted(self.x, v - s, side="right") - 1, 0, len(self.x) - 1)
        hi = np.clip(np.searchsorted(self.x, v + s, side="left"), 0, len(self.x) - 1)
        b = np.clip(np.searchsorted(self.x, v), 0, len(self.x) - 1)
        a = np.clip(b - 1, 0, None)
        near = np.where(np.abs(self.x[a] - v) < np.abs(self.x[b] - v), a, b)
        on = np.abs(self.x[near] - v) <= s
        return np.where(on, self.c[near], self.c[lo]), np.where(on, self.c[near], self.c[hi])


class D:
    """One distribution: how to build it, its range, density and cumulative function in float64."""

    def __init__(self, spec):
        g = Draw(spec["s"])
        self.kind = k = spec["k"]
        self.n = None          # length of a batch
        self.mode = g.pick(["py", "np32", "jnp"])
        if k in ("sine", "cosine"):
            full = (0.0, np.pi) if k == "sine" else (-np.pi / 2, np.pi / 2)
            if g.chance(0.25):
                self.p = None
                lo, hi = full
            else:
                a, b = sorted(g.u(*full) for _ in range(2))
                if b - a < 0.3:
                    a, b = full
                if g.chance(0.3):
                    a = full[0]
                elif g.chance(0.3):
                    b = full[1]
                self.p = [a, b]
                lo, hi = a, b
            if spec["near"] and self.p:
                self.p = [lo + 0.2 * (hi - lo), hi]
                lo = self.p[0]
            self.lo, self.hi = lo, hi
        elif k == "pl":
            a = g.pick([-1.0, -2.0, 0.0, 1.0, round(g.u(-4, 4), 3), round(g.u(-4, 4), 3), -1 + g.pick([-1, 1]) * round(float(np.exp(g.u(np.log(0.01), np.log(0.3)))), 4)])
            if abs(a + 1) < 0.01:
                a = -1.0
            lo = g.pick([0.001, 2.0, 5.0, g.u(0.01, 10), 0.0])
            hi = g.pick([1.0, 100.0, g.u(20, 300)])
            if hi <= lo:
                hi = lo * 20
            if lo == 0.0 and a <= -0.9:
                a = g.u(-0.5, 3)
            if spec["near"]:
                a = a + 0.5 if abs(a + 1.5) > 0.01 else a - 0.5
            self.a, self.lo, self.hi = float(a), float(lo), float(hi)
            self.default = lo == 0.0 and hi == 1.0
            if g.chance(0.3) and lo > 0:
                self.n = 3
                self.as_ = [self.a, self.a + 0.75 if abs(self.a + 1.75) > 0.01 else self.a + 0.9, 2.5]
        elif k == "plz":
            zmax = g.pick([1.0, 1.9, 2.3])
            n = g.pick([60, 1000])
            z = np.linspace(0.001, zmax, n) if g.chance(0.7) else np.geomspace(0.001, zmax, n)
            self.z = z.astype(np.float32).astype(np.float64)
            self.dv = LVK.dVcdz(self.z).astype(np.float32).astype(np.float64)
            if g.chance(0.3):
                self.dv = self.dv / 1e9
            self.lamb = g.pick([0.0, 2.7, g.u(-6, 6)]) + (1.5 if spec["near"] else 0)
            self.lo, self.hi = self.z[0], self.z[-1]
            self.tab = Tab(self.z, self.dv * (1 + self.z) ** (self.lamb - 1))
        elif k == "bspl":
            kind = g.pick(["B", "LogX", "LogY", "LogXLogY"])
            nb = g.pick([6, 20])
            self.sk, self.nb = kind, nb
            lo, hi = g.pick([(0.001, 1.0), (2.0, 100.0), (0.001, 1.0)]) if "X" in kind else g.pick([(0.0, 1.0), (-1.0, 1.0), (2.0, 100.0)])
            n = g.pick([60, 1000])
            self.grid = np.linspace(lo, hi, n) if not ("X" in kind and g.chance(0.4)) else np.geomspace(lo, hi, n)
            self.grid = self.grid.astype(np.float32).astype(np.float64)
            self.grid[0], self.grid[-1] = max(self.grid[0], lo), min(self.grid[-1], hi)
            self.cs = g.r.normal(size=nb) * g.pick([0.3, 1.0, 2.0])
            if spec["near"]:
                self.cs = self.cs[::-1].copy()
            self.cs = self.cs.astype(np.float32)
            self.rng = (lo, hi)
            self.lo, self.hi = lo, hi
            R = RefSpline(kind, nb, (lo, hi), normalize=False)
            self.l = R.raw(self.grid, self.cs)
            self.tab = Tab(self.grid, np.exp(self.l))
        elif k == "psp":
            self.lo, self.hi = g.pick([(1.0, 200.0), (2.0, 300.0)])
            self.mn, self.mx = g.u(5, 12), g.u(40, 90)
            self.a, self.amax, self.amin = g.u(-4, -1.2) + (0.15 if spec["near"] else 0), g.u(4, 12), g.u(3, 12)
            x = np.geomspace(self.lo, self.hi, 20001)
            self.norm = np.trapz(self._psp(x), x)
        else:
            self.N = g.pick([5, 20])
            self.iv = g.pick([1.0, 25.0, g.u(0.1, 50)]) + (1.0 if spec["near"] else 0)
            self.order = g.pick([1, 2, 2, 3])

    def _psp(self, x):
        mid = np.where(x < self.mn, (x / self.mn) ** self.amin * self.mn**self.a, np.where(x > self.mx, (x / self.mx) ** (-self.amax) * self.mx**self.a, x**self.a))
        return mid

    def wrap(self, v):
        import jax.numpy as jnp

        if self.mode == "py":
            return np.asarray(v, np.float32) if np.ndim(v) else float(v)
        if self.mode == "np32":
            return np.asarray(v, np.float32) if np.ndim(v) else np.float32(v)
        return jnp.asarray(v, jnp.float32)

    def params(self):
        k = self.kind
        if k in ("sine", "cosine"):
            return {} if self.p is None else {"minimum": self.wrap(self.p[0]), "maximum": self.wrap(self.p[1])}
        if k == "pl":
            a = self.wrap(self.as_) if self.n else self.wrap(self.a)
            return {"alpha": a} if self.default and not self.n else {"alpha": a, "minimum": self.wrap(self.lo), "maximum": self.wrap(self.hi)}
        if k == "plz":
            return {"lamb": self.wrap(self.lamb), "maximum": self.wrap(self.hi)}
        if k == "bspl":
            return {"minimum": self.rng[0], "maximum": self.rng[1], "cs": self.wrap(self.cs)}
        if k == "psp":
            return {"alpha": self.wrap(self.a), "minimum": self.wrap(self.mn), "maximum": self.wrap(self.mx), "alpha_max": self.wrap(self.amax), "alpha_min": self.wrap(self.amin)}
        return {"inv_var": self.wrap(self.iv)}

    def make(self, S, p):
        import jax.numpy as jnp

        nd, k = S["nd"], self.kind
        if k == "sine":
            return nd.Sine(**p)
        if k == "cosine":
            return nd.Cosine(**p)
        if k == "pl":
            return nd.Powerlaw(**p, low=0.0, high=1000.0)
        if k == "plz":
            return nd.PowerlawRedshift(**p, zgrid=jnp.asarray(self.z, jnp.float32), dVcdz=jnp.asarray(self.dv, jnp.float32))
        if k == "bspl":
            if not hasattr(self, "dmat"):
                c = {"B": "BSpline", "LogX": "LogXBSpline", "LogY": "LogYBSpline", "LogXLogY": "LogXLogYBSpline"}[self.sk]
                self.dmat = getattr(S["it"], c)(self.nb, xrange=self.rng, normalize=True).bases(jnp.asarray(self.grid, jnp.float32))
            return nd.BSplineDistribution(**p, grid=jnp.asarray(self.grid, jnp.float32), grid_dmat=self.dmat)
        if k == "psp":
            return nd.PowerlawSmoothedPowerlaw(**p, low=self.lo, high=self.hi)
        return nd.PSplineCoeficientPrior(self.N, diff_order=self.order, **p)

    # ------------------------------------------------------------------ float64 reference
    def cdf(self, x, j=0):
        """-> (lower, upper) admissible cumulative values"""
        x = np.asarray(x, np.float64)
        if hasattr(self, "tab"):
            return self.tab.bracket(x)
        if self.kind == "sine":
            c = (np.cos(self.lo) - np.cos(x)) / (np.cos(self.lo) - np.cos(self.hi))
        elif self.kind == "cosine":
            c = (np.sin(x) - np.sin(self.lo)) / (np.sin(self.hi) - np.sin(self.lo))
        else:
            a = self.as_[j] if self.n else self.a
            c = np.log(x / self.lo) / np.log(self.hi / self.lo) if a == -1 else (x ** (a + 1) - self.lo ** (a + 1)) / (self.hi ** (a + 1) - self.lo ** (a + 1))
        c = np.clip(c, 0, 1)
        return c, c

    def logp(self, x, j=0):
        x = np.asarray(x, np.float64)
        if self.kind == "sine":
            return np.log(np.sin(x) / (np.cos(self.lo) - np.cos(self.hi)))
        if self.kind == "cosine":
            return np.log(np.cos(x) / (np.sin(self.hi) - np.sin(self.lo)))
        if self.kind == "pl":
            a = self.as_[j] if self.n else self.a
            return a * np.log(x) - (np.log(np.log(self.hi / self.lo)) if a == -1 else np.log((self.hi ** (a + 1) - self.lo ** (a + 1)) / (a + 1)))
        if self.kind == "plz":
            return np.log(np.interp(x, self.z, self.dv)) + (self.lamb - 1) * np.log(1 + x) - np.log(self.tab.tot)
        if self.kind == "bspl":
            return np.interp(x, self.grid, self.l) - np.log(self.tab.tot)
        return np.log(self._psp(x)) - np.log(self.norm)

    def points(self, seed, n=60):
        r = np.random.RandomState(seed)
        u = r.uniform(1e-3, 1 - 1e-3, n)
        x = self.lo + u * (self.hi - self.lo)
        if self.lo > 0:
            x[::2] = np.exp(np.log(self.lo) + u[::2] * (np.log(self.hi) - np.log(self.lo)))
        if hasattr(self, "tab"):
            x[: n // 3] = r.choice(self.tab.x[1:-1], n // 3)
        if self.kind == "psp":
            x = np.where((np.abs(x / self.mn - 1) > 1e-4) & (np.abs(x / self.mx - 1) > 1e-4), x, (self.mn + self.mx) / 2)
        return x.astype(np.float32)


def ks(d, x, j=0):
    """Largest distance between the empirical cumulative function of x and the reference bracket."""
    x = np.sort(np.asarray(x, np.float64))
    lo, hi = d.cdf(x, j)
    n = len(x)
    up, dn = np.arange(1, n + 1) / n, np.arange(n) / n
    return float(max(np.max(up - hi), np.max(lo - dn), 0))


def execute(plan, ctx):
    import jax
    import jax.numpy as jnp

    from sim import sched

    S = ctx.state
    r = Result()
    ds = [D(sp) for sp in plan["ds"]]
    objs = [sut(r, f"build {d.kind}", lambda d=d: d.make(S, d.params())) for d in ds]
    seen = {}
    forced = {"n": 0}

    def run(d, obj, jit, fn, *args):
        if not jit or not d.params() or d.kind == "diff":
            return fn(obj, *args)
        p = {k: v for k, v in d.params().items() if not (d.kind == "bspl" and k != "cs")}
        rest = {k: v for k, v in d.params().items() if k not in p}
        if d.kind == "bspl":
            d.make(S, d.params())
        return jax.jit(lambda q, *a: fn(d.make(S, {**rest, **q}), *a))({k: jnp.asarray(v, jnp.float32) for k, v in p.items()}, *args)

    def judge_range(who, d, x):
        x = np.asarray(x, np.float64)
        if not np.isfinite(x).all():
            r.fail("not-finite", f"{who} {d.kind}: a draw is {x[~np.isfinite(x)][0]!r}")
            return False
        t = 2e-5 * max(abs(d.lo), abs(d.hi)) + (1e-3 if d.kind in ("sine", "cosine") else 0)
        bad = (x < d.lo - t) | (x > d.hi + t)
        if bad.any():
            r.fail("out-of-range", f"{who} {d.kind}: drew {x[bad].flat[0]!r} outside [{d.lo}, {d.hi}]")
            return False
        return True

    def columns(d, x):
        """draws -> list of (batch index, 1-d draws); a batch of the spline law is independent copies"""
        x = np.asarray(x, np.float64)
        if d.n:
            return [(j, x[..., j].reshape(-1)) for j in range(d.n)]
        return [(0, x.reshape(-1))]

    def step(who, op):
        i = op["d"]
        d, obj = ds[i], objs[i]
        r.ops += 1
        what = op["op"]
        if what == "build":
            objs[i] = sut(r, f"{who} build {d.kind}", lambda: d.make(S, d.params()))
            return
        if what == "bad":
            try:
                obj.sample("not a key") if d.kind != "diff" else obj.log_prob(jnp.zeros(d.N + 1))
            except Exception as e:  # noqa: BLE001
                if getattr(e, "injected", False):
                    raise
                r.fault({"failed_call": 1})
            return
        if d.kind == "diff":
            v = np.random.RandomState(op["seed"]).normal(size=d.N).astype(np.float32)
            got = float(sut(r, f"{who} difference prior", lambda: obj.log_prob(jnp.asarray(v))))
            want = -0.5 * d.iv * float((np.diff(v.astype(np.float64), n=d.order) ** 2).sum())
            r.ev(who, "diff", round(got, 4))
            if not abs(got - want) <= 1e-4 * abs(want) + 1e-5:
                r.fail("wrong-density", f"{who} coefficient prior of order {d.order}: {got!r}, expected {want!r}")
            return
        if d.kind == "psp" and what != "logp":
            return          # its draws are a documented placeholder
        shape = tuple(op["shape"])
        if what in ("draw", "force"):
            key = jax.random.PRNGKey(op["key"])
            if what == "force":
                real = jax.random.uniform
                rs = np.random.RandomState(op["seed"])

                def uniform(key, shape=(), dtype=float, minval=0.0, maxval=1.0):
                    n = int(np.prod(shape)) if len(shape) else 1
                    forced["n"] += 1
                    s = op["stream"]
                    if s == "zero":
                        u = np.zeros(n)
                    elif s == "top":
                        u = np.full(n, TOP)
                    elif s == "ends":
                        u = rs.choice([0.0, TOP, 2.0**-23, 0.5, 1 - 2.0**-22], n)
                    else:
                        u = (rs.permutation(n) + 0.5) / n
                    u = jnp.asarray(u.reshape(shape), jnp.float32)
                    return u * (maxval - minval) + minval

                jax.random.uniform = uniform
                try:
                    before = forced["n"]
                    x = sut(r, f"{who} draw from {d.kind}", lambda: np.asarray(obj.sample(key, shape)))
                finally:
                    jax.random.uniform = real
                if forced["n"] > before:
                    r.fault({"stream:" + op["stream"]: 1})
            else:
                x = sut(r, f"{who} draw from {d.kind}", lambda: np.asarray(run(d, obj, op["jit"], lambda o, kk: o.sample(kk, shape), key)))
            r.ev(who, what, d.kind, h(x))
            b = tuple(obj.batch_shape)
            if x.shape != shape + b:
                r.fail("shape", f"{who} {d.kind}: draws of shape {x.shape} for sample shape {shape} and batch shape {b}")
                return
            if not judge_range(who, d, x):
                return
            if what == "draw" or op["stream"] == "strat":
                for j, c in columns(d, x):
                    if len(c) >= 500:
                        dist = ks(d, c, j)
                        # an exact stratification delivered in one request leaves no sampling error
                        lim = 4.0 / np.sqrt(len(c))
                        if what == "force" and forced["n"] == before + 1 and not d.n and len(c) == x.size:
                            lim = min(lim, 1.5 / len(c) + 1e-3)
                        r.probe("ks")
                        if dist > lim:
                            r.fail("wrong-draws", f"{who} {d.kind}[{j}]: {len(c)} draws are {dist:.4f} away from the cumulative function (limit {lim:.4f})")
            if what == "draw":
                k = (i, op["key"], shape)
                if k in seen and not np.allclose(seen[k], x, rtol=1e-5, atol=1e-6):
                    r.fail("not-repeatable", f"{who} {d.kind}: the same key gave other draws than before")
                seen.setdefault(k, x)
                if x.size > 20:
                    for (i2, k2, s2), y in seen.items():
                        if i2 == i and s2 == shape and k2 != op["key"] and np.array_equal(x, y):
                            r.fail("same-draws", f"{who} {d.kind}: keys {k2} and {op['key']} give the same draws")
            return
        x = d.points(op["seed"])
        js = range(d.n) if d.n else [0]
        xx = np.repeat(x[:, None], d.n, 1) if d.n else x
        if what == "icdf":
            q = np.random.RandomState(op["seed"]).uniform(0, 1, 60).astype(np.float32)
            q[:4] = [0.0, TOP, 2.0**-23, 0.5]
            qq = np.repeat(q[:, None], d.n, 1) if d.n else q
            y = sut(r, f"{who} icdf of {d.kind}", lambda: np.asarray(run(d, obj, op["jit"], lambda o, a: o.icdf(a), jnp.asarray(qq))))
            r.ev(who, "icdf", d.kind, h(y))
            if y.shape != qq.shape:
                r.fail("shape", f"{who} {d.kind}: quantiles of shape {y.shape} for {qq.shape}")
                return
            if not judge_range(who, d, y):
                return
            for j in js:
                v = y[:, j] if d.n else y
                lo, hi = d.cdf(np.clip(np.asarray(v, np.float64), d.lo, d.hi), j)
                bad = (q < lo - 2e-4) | (q > hi + 2e-4)
                if bad.any():
                    t = int(np.argmax(bad))
                    r.fail("wrong-quantile", f"{who} {d.kind}: quantile of {q[t]!r} is {v[t]!r}, where the cumulative function is {lo[t]!r}..{hi[t]!r}")
            return
        if what == "cdf":
            y = sut(r, f"{who} cdf of {d.kind}", lambda: np.asarray(run(d, obj, op["jit"], lambda o, a: o.cdf(a), jnp.asarray(xx))))
            e = sut(r, f"{who} cdf of {d.kind}", lambda: [np.asarray(run(d, obj, False, lambda o, a: o.cdf(a), jnp.float32(v))).ravel() for v in (d.lo, d.hi)])
            r.ev(who, "cdf", d.kind, h(y))
            if y.shape != xx.shape:
                r.fail("shape", f"{who} {d.kind}: cumulative values of shape {y.shape} for {xx.shape}")
                return
            if not (np.all(np.abs(e[0]) <= 2e-4) and np.all(np.abs(e[1] - 1) <= 2e-4)):
                r.fail("wrong-cdf", f"{who} {d.kind}: {e[0]} at the lower and {e[1]} at the upper end")
            for j in js:
                v = np.asarray(y[:, j] if d.n else y, np.float64)
                lo, hi = d.cdf(x, j)
                bad = ~((v >= lo - 2e-4) & (v <= hi + 2e-4))
                if bad.any():
                    t = int(np.argmax(bad))
                    r.fail("wrong-cdf", f"{who} {d.kind}: {v[t]!r} at {x[t]!r}, expected {lo[t]!r}..{hi[t]!r} ({int(bad.sum())} of {len(x)} differ)")
            return
        y = sut(r, f"{who} log_prob of {d.kind}", lambda: np.asarray(run(d, obj, op["jit"], lambda o, a: o.log_prob(a), jnp.asarray(xx))))
        r.ev(who, "logp", d.kind, h(y))
        if y.shape != xx.shape:
            r.fail("shape", f"{who} {d.kind}: densities of shape {y.shape} for {xx.shape}")
            return
        for j in js:
            v = np.asarray(y[:, j] if d.n else y, np.float64)
            w = d.logp(x, j)
            bad = ~(np.abs(v - w) <= 3e-4 + 3e-5 * np.abs(w))
            if bad.any():
                t = int(np.argmax(bad))
                r.fail("wrong-density", f"{who} {d.kind}: log density {v[t]!r} at {x[t]!r}, expected {w[t]!r} ({int(bad.sum())} of {len(x)} differ)")

    if plan["threads"]:
        sc = sched.Scheduler(plan["preempts"], plan["interrupts"])
        res = sc.run([lambda t=t: [step(f"t{t}", op) for op in plan["threads"][t]] and None for t in range(len(plan["threads"]))])
        r.fault(sc.fired)
        r.ev("trace", sc.trace)
        if getattr(sc, "deadlock", False):
            r.fail("deadlock", "threads blocked for ever")
        for x in res:
            if x and x[0] == "raised" and not r.violations and not isinstance(x[1], Abort):
                raise x[1]
    else:
        for i, op in enumerate(plan["ops"]):
            st, v, _ = attempt(r, lambda: step("op%d" % i, op), op["m"])
            if st == "raised":
                if getattr(v, "injected", False):
                    continue
                raise v
            r.ev("op", i, st)
            if r.violations:
                return r
    if r.violations:
        return r
    for i in range(len(ds)):
        for o in ("logp", "cdf", "draw"):
            step("final", {"d": i, "op": o, "seed": 5 + i, "key": 7, "shape": [2000], "jit": False, "stream": "zero"})
    return r
