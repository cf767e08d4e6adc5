"""C10 the conditional effective-precession prior is sound for every random stream."""
import numpy as np

from checks import catalog, util
from sim.core import Result, h, list_shrinks

PROPERTY = "C10"
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: the random source behind a seam that feeds seeded, unphysical and extreme streams with a progress bound, interrupts between and inside calls, against exact range checks and a reference Monte Carlo"
NOTE = "Range, positivity, normalisation, the spins used and progress are judged exactly for every stream; values against the median of independent reference streams; held on everything explored."
RULE = "episode whose stream was forced to unphysical or extreme values, or in which an interrupt fired"
REAL = ["gwinferno.preprocess.priors (chi_p_prior_given_chi_eff_q, joint_prior_from_isotropic_spins, chi_effective_prior_from_isotropic_spins)", "gwinferno.preprocess.conversions", "scipy gaussian_kde"]
STUB = ["numpy's global random source (seeded, or forced for a prefix of the calls)", "asynchronous interrupts at package bytecodes"]
ASSUMPTIONS = ["physical inputs: 0 < q <= 1, |chi_eff| < a_max with an acceptance rate above about 1%", "streams that make every accepted spin identical are excluded (no density can be estimated from them)"]
TIERS = {"quick": {"sessions": 8, "episodes": 120, "budget_s": 45}, "thorough": {"sessions": 48, "episodes": 900, "budget_s": 240}}

CALL_LIMIT = 40000


def generate(rng, tier, sconf):
    ops = []
    for _ in range(rng.randint(2, 5)):
        q = rng.choice([1.0, 0.999, round(rng.uniform(0.05, 1.0), 3), round(rng.uniform(0.3, 1.0), 3)])
        am = rng.choice([1.0, 1.0, 0.99, 0.8, 0.4, 0.05])
        chi = rng.choice([0.0, round(rng.uniform(-0.6, 0.6), 3), round(rng.uniform(-0.2, 0.2), 3), rng.choice([0.1, 0.25, 0.5]), 0.75 * rng.choice([1, -1])])
        k = rng.choices(["cond", "curve", "joint", "eff"], [6, 3, 2, 1.5])[0]
        op = {"op": k, "q": q, "am": am, "chi": round(chi * am, 6), "nd": rng.choice([500, 2000, 2000, 5000]), "seed": rng.randrange(1 << 30), "m": util.mode(rng, (6, 0, 2), top=3.4),
              "stream": rng.choice([None, None, "const", "const", "mask"]), "rounds": rng.choice([1, 3, 4, 10, 60]), "v": rng.choice([1e-12, 2.0**-53, 1e-3, 0.5, 1 - 2.0**-53, 0.25]), "bw": rng.choice(["scott", "scott", "silverman", 0.2]),
              "defaults": rng.random() < 0.2, "typ": rng.choice(["float", "float", "np", "arr0"])}
        if k == "joint":
            op.update(n=rng.choice([1, 2, 4]), qs=rng.random() < 0.5, pseed=rng.randrange(1 << 30), nd=rng.choice([500, 2000]))
        if k == "eff":
            op.update(n=rng.choice([1, 3, 6]), qs=rng.random() < 0.6, pseed=rng.randrange(1 << 30), d2=rng.random() < 0.2)
        ops.append(op)
        if rng.random() < 0.3:
            ops.append(dict(op, m={"kind": "plain"}))
    return {"ops": ops}


def shrinks(plan):
    yield from list_shrinks(plan, ["ops"])
    yield from util.mode_shrinks(plan)
    for i, op in enumerate(plan["ops"]):
        for ch in ({"stream": None}, {"rounds": 1}, {"nd": 500}):
            if op.get(list(ch)[0]) != list(ch.values())[0]:
                q = dict(plan)
                q["ops"] = list(plan["ops"])
                q["ops"][i] = dict(op, **ch)
                yield q


def setup(ctx):
    from gwinferno.preprocess import priors

    ctx.state.update(P=priors)


class NoProgress(Exception):
    pass


class source:
    """numpy's global random functions, all served from one stream: a forced prefix, then a seeded generator."""

    NAMES = ["random", "random_sample", "ranf", "sample", "rand", "uniform"]

    def __init__(self, r, seed, op):
        self.r, self.op = r, op
        self.rs = np.random.RandomState(seed)
        self.calls = 0
        self.forced = 0

    def draw(self, shape):
        self.calls += 1
        if self.calls > CALL_LIMIT:
            raise NoProgress(f"still drawing after {CALL_LIMIT} calls although the stream is uniform since call {3 * self.op['rounds']}")
        u = self.rs.random_sample(shape)
        o = self.op
        if o["stream"] and self.calls <= 3 * o["rounds"]:
            self.forced += 1
            if o["stream"] == "const":
                u = np.full_like(u, o["v"]) if np.ndim(u) else o["v"]
            elif np.ndim(u):
                u = np.where(np.arange(u.size).reshape(u.shape) % 3 == 0, o["v"], u)
        return u

    def __enter__(self):
        self.saved = {n: getattr(np.random, n) for n in self.NAMES if hasattr(np.random, n)}
        d = self.draw

        def sized(size=None):
            return d(size) if size is not None else float(d(()))

        for n in ("random", "random_sample", "ranf", "sample"):
            setattr(np.random, n, sized)
        np.random.rand = lambda *s: d(s) if s else float(d(()))
        np.random.uniform = lambda low=0.0, high=1.0, size=None: low + (np.asarray(high) - low) * (d(size) if size is not None else d(np.broadcast(low, high).shape))
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(np.random, n, f)
        if self.forced:
            self.r.fault({"forced_draws": self.forced})
        return False


def unphysical(op):
    """Every spin made of the constant v alone is unphysical, with a margin, in whatever order the draws are used."""
    v, q, am = op["v"], op["q"], op["am"]
    a = v * am
    c = (op["chi"] * (1 + q) - q * a * (2 * v - 1)) / a
    c2 = (op["chi"] * (1 + q) + q * a * (2 * v - 1)) / a
    return min(abs(c), abs(c2)) > 1.001


def maximum(op):
    q, am, ce = op["q"], op["am"], abs(op["chi"])
    return am if (1 + q) * ce / q < am else float(np.sqrt(am**2 - ((1 + q) * ce - q * am) ** 2))


def typed(x, t):
    return {"float": float(x), "np": np.float64(x), "arr0": np.float32(x) if False else np.array(x)}[t]


def execute(plan, ctx):
    r = Result()
    S = ctx.state
    seen = {}
    for n, op in enumerate(plan["ops"]):
        r.ops += 1
        d = one(r, S, op, seen)
        if d:
            r.fail("prior" if "draw" not in d else "progress", f"op {n} ({op['op']}, q={op['q']}, chi_eff={op['chi']}, a_max={op['am']}): {d}")
            return r
    r.sig = ",".join(f"{o['op']}{o['stream']}{o['rounds']}" for o in plan["ops"]) + ":" + r.digest()
    return r


def one(r, S, op, seen):
    P = S["P"]
    op = dict(op)
    bad = op["stream"] == "const" and unphysical(op)
    if op["stream"] == "const" and not bad:
        op["v"] = 1e-12 if op["chi"] else 0.5
        bad = unphysical(op)
        if not bad:
            op["stream"] = "mask"
    if op["stream"] == "mask" and op["v"] < 1e-2 and not unphysical(op):
        op["v"] = 0.25      # accepted spins this small would carry all the weight: no density can be estimated from them
    top = maximum(op)
    kw = {"ndraws": op["nd"]}
    if op["am"] != 1.0 or not op["defaults"]:
        kw["a_max"] = op["am"]
    if op["bw"] != "scott" or not op["defaults"]:
        kw["bw_method"] = op["bw"]
    if op["op"] == "eff":
        return effective(r, S, op)
    if op["op"] == "joint":
        return joint(r, S, op, kw, seen)
    x = np.concatenate([[0.0], np.linspace(0.05 * top, 0.95 * top, 50), [top]])
    probe = np.concatenate([[-0.3, -1e-6], x, [top * (1 + 1e-9) + 1e-12, top + 0.01, 1.3]])
    used = []
    orig = getattr(P, "chip_from_q_component_spins", None)

    def wrapped(q, a1, a2, c1, c2, *a, **k):
        used.append((q, np.array(a1), np.array(a2), np.array(c1), np.array(c2)))
        return orig(q, a1, a2, c1, c2, *a, **k)

    def call(seed, mode, pts):
        src = source(r, seed, op)
        if orig is not None:
            P.chip_from_q_component_spins = wrapped
        try:
            with src:
                return util.attempt(r, lambda: P.chi_p_prior_given_chi_eff_q(pts, typed(op["chi"], op["typ"]), typed(op["q"], op["typ"]), **kw), mode)
        finally:
            if orig is not None:
                P.chip_from_q_component_spins = orig

    def sound(y, pts):
        y = np.asarray(y, np.float64)
        if y.shape != np.shape(pts):
            return f"shape {y.shape} for input of shape {np.shape(pts)}"
        if not np.all(np.isfinite(y)):
            return "the density is not finite"
        if np.any(y < 0):
            return f"negative density {y.min()!r}"
        out = (pts < 0) | (pts > top * (1 + 1e-7) + 1e-12)
        if np.any(y[out] != 0):
            return f"density {y[out].max()!r} outside [0, {top!r}], at chi_p = {pts[out][np.argmax(y[out])]!r}"
        return ""

    st, y, excused = call(op["seed"], op["m"], probe)
    r.ev(op["op"], st)
    if st == "raised" and not excused:
        return f"{type(y).__name__}: {str(y)[:200]}"
    if st == "ok":
        d = sound(y, probe)
        if d:
            return d
        d = spins(used, op)
        if d:
            return d
        r.ev(h(np.asarray(y)))
        kk = (op["seed"], op["q"], op["chi"], op["am"], op["nd"], str(op["bw"]), op["stream"], op["rounds"], op["v"])
        if seen.setdefault(kk, h(np.asarray(y))) != h(np.asarray(y)):
            return "the same random stream gave another density than before"
        yy = np.asarray(y)[2:-3]
        if abs(np.trapz(yy, x) - 1) > 1e-6:
            # independent of the internal grid: a fine grid must integrate to one as well
            st2, z, _ = call(op["seed"], {"kind": "plain"}, np.linspace(0, top, 4001))
            if st2 != "ok" or abs(np.trapz(np.asarray(z), np.linspace(0, top, 4001)) - 1) > 4e-3:
                return f"integrates to {np.trapz(yy, x)!r}"
        r.probe("densities")
        if bad:
            r.probe("after_unphysical_prefix")
    if op["op"] == "curve" and op["stream"] in (None, "const") and op["nd"] >= 2000:
        ys = []
        for k in range(5):
            st, y, _ = call(op["seed"] ^ (0x5A5A + k), {"kind": "plain"}, x)
            if st != "ok":
                return f"{type(y).__name__}: {str(y)[:200]}"
            ys.append(np.asarray(y, np.float64))
        ref = catalog.p_chip_curves(op["chi"] / op["am"], op["q"], op["nd"], 9, op["bw"])
        if ref is not None:
            m = np.median([c[1] for c in ref], axis=0) / op["am"]
            g = np.median(ys, axis=0)
            l1 = float(np.trapz(np.abs(g - m), x))
            lim = 0.07 if abs(op["chi"]) / op["am"] > 0.25 else 0.13
            if l1 > lim:
                return f"the density differs from the reference by {l1:.3f} in total variation (allowed {lim})"
            if len({a.tobytes() for a in ys}) == 1:
                return "the density does not depend on the random stream at all, or five streams were ignored"
            r.probe("reference_comparisons")
    return ""


def spins(used, op):
    for q, a1, a2, c1, c2 in used:
        tol = 1e-9
        if np.any(~(np.abs(c1) <= 1 + tol)) or np.any(~(np.abs(c2) <= 1 + tol)):
            return "a component spin with an unphysical tilt was used"
        if np.any(~(a1 >= 0)) or np.any(~(a2 >= 0)) or np.any(a1 > op["am"] * (1 + tol)) or np.any(a2 > op["am"] * (1 + tol)):
            return "a component spin magnitude outside [0, a_max] was used"
        ce = (a1 * c1 + q * a2 * c2) / (1 + q)
        if np.any(np.abs(ce - op["chi"]) > 1e-7):
            return f"component spins with effective spin {ce[np.argmax(np.abs(ce - op['chi']))]!r} were used"
    return ""


def points(rs, op, n, top):
    """(chi_eff, q); some exactly where the cases of the closed form meet"""
    am = op["am"]
    q = rs.uniform(0.3, 1.0, n) if op["qs"] else max(op["q"], 0.2)
    ce = rs.uniform(-top, top, n) * am
    qq = np.broadcast_to(q, (n,))
    special = [qq * am / (1.0 + qq), am * (1.0 - qq) / (1.0 + qq), am / (1.0 + qq), np.zeros(n)]
    for i in range(n):
        v = special[rs.randint(4)][i]
        if rs.uniform() < 0.35 and abs(v) <= top * am:
            ce[i] = v * rs.choice([-1, 1])
    return ce, q


def effective(r, S, op):
    """the effective-spin prior alone, point by point, for scalar, array and two-dimensional inputs"""
    P = S["P"]
    rs = np.random.RandomState(op["pseed"])
    ce, q = points(rs, op, op["n"], 0.97)
    if op["d2"]:
        ce = np.stack([ce, rs.uniform(-0.9, 0.9, op["n"]) * op["am"]])
    src = source(r, op["seed"], dict(op, stream=None))
    with src:
        st, y, excused = util.attempt(r, lambda: P.chi_effective_prior_from_isotropic_spins(ce, q, a_max=op["am"]), op["m"])
    r.ev("eff", st)
    if st == "interrupted" or (st == "raised" and excused):
        return ""
    if st == "raised":
        return f"{type(y).__name__}: {str(y)[:200]}"
    y = np.asarray(y)
    if y.shape != ce.shape or np.iscomplexobj(y):
        return f"effective-spin prior of shape {y.shape} for points of shape {ce.shape}"
    r.ev(h(y))
    for (v, x, qi) in zip(y.ravel(), ce.ravel(), np.broadcast_to(q, ce.shape).ravel()):
        w = catalog.p_chieff(x / op["am"], float(qi)) / op["am"]
        if not abs(v - w) <= 1e-4 * w + 1e-4 / op["am"]:
            return f"effective-spin prior {v!r} at (chi_eff={x!r}, q={qi!r}), expected {w!r}"
        r.probe("effective_points")
    return ""


def joint(r, S, op, kw, seen):
    P = S["P"]
    rs = np.random.RandomState(op["pseed"])
    n = op["n"]
    cp = rs.uniform(0.02, 1.1, n) * op["am"]
    ce, q = points(rs, op, n, 0.5)
    args = (cp, ce, q)
    src = source(r, op["seed"], dict(op, stream=None))
    keep = [np.array(a) for a in args]
    with src:
        st, y, excused = util.attempt(r, lambda: P.joint_prior_from_isotropic_spins(*args, **kw), op["m"])
    r.ev("joint", st)
    if st == "interrupted" or (st == "raised" and excused):
        return ""
    if st == "raised":
        return f"{type(y).__name__}: {str(y)[:200]}"
    y = np.asarray(y, np.float64)
    if y.shape != (n,):
        return f"shape {y.shape} for {n} points"
    if any(not np.array_equal(a, b) for a, b in zip(keep, args)):
        return "the arguments were modified"
    r.ev(h(y))
    for i in range(n):
        qi = float(q[i]) if op["qs"] else float(q)
        pe = catalog.p_chieff(ce[i] / op["am"], qi) / op["am"]
        cs = catalog.p_chip_curves(ce[i] / op["am"], qi, kw["ndraws"], 9, op["bw"])
        if cs is None:
            continue
        v = np.array([np.interp(cp[i] / op["am"], x, yy) for x, yy in cs]) / op["am"]
        peak = max(yy.max() for _, yy in cs) / op["am"]
        o2 = dict(op, chi=float(ce[i]), q=qi)
        if cp[i] > maximum(o2) * (1 + 1e-7) and y[i] != 0:
            return f"joint density {y[i]!r} at chi_p = {cp[i]!r} outside the physical range"
        mid = float(np.median(v))
        if not (y[i] >= 0 and abs(y[i] - pe * mid) <= pe * (10 * float(np.std(v, ddof=1)) + 0.25 * peak) + 1e-12):
            return f"joint density {y[i]!r} at (chi_p={cp[i]:.4f}, chi_eff={ce[i]:.4f}, q={qi:.4f}); product of the reference densities is {pe * mid!r}"
        r.probe("joint_points")
    return ""
