"""C09 random selections only ever yield genuine rows with the documented weights, for every key and every stream of draws."""
import math

import numpy as np

from checks import util
from sim.core import Result, h, list_shrinks

PROPERTY = "C09"
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded keys and adversarial uniform streams behind the jax.random seam, interrupts and repeated selections, against exact row, bookkeeping and frequency oracles"
NOTE = "Rows, bookkeeping and zero-weight exclusion are exact for every draw; frequencies are judged at a false-alarm level below 1e-9 per test; held on everything explored."
RULE = "episode in which the random stream was forced to extreme values, an interrupt fired, or rows of zero weight were present"
REAL = ["gwinferno.preprocess.selection.resample_injections", "gwinferno.pipeline.analysis.hierarchical_likelihood (posterior predictive draws, categorical draws)", "jax.random"]
STUB = ["jax.random.uniform in episodes with forced streams (extremes, alternating, seeded)", "asynchronous interrupts at package bytecodes"]
ASSUMPTIONS = ["at least one row of an event has non-zero weight inside the mass limits; weights within 1e-30..1e30"]
TIERS = {"quick": {"sessions": 8, "episodes": 90, "budget_s": 90}, "thorough": {"sessions": 48, "episodes": 800, "budget_s": 240}}

STREAMS = ["real", "real", "zero", "one", "mix", "tiny"]


def generate(rng, tier, sconf):
    ops = []
    for _ in range(rng.randint(2, 4)):
        k = rng.choices(["resample", "ppc", "qs", "freq"], [5, 4, 1, 0.8])[0]
        op = {"op": k, "seed": rng.randrange(1 << 30), "key": rng.choice([0, 1, 2**31 - 1, rng.randrange(1 << 31)]), "stream": rng.choice(STREAMS), "m": util.mode(rng, (6, 0, 2), top=2.7)}
        if k == "resample":
            op.update(n=rng.choice([1, 2, 5, 60, 60]), npar=rng.choice([3, 5]), zero=rng.choice([0, 0.3, 0.9]), spread=rng.choice([0.0, 1.0, 3.0]), ndraw=rng.choice([1, 1000, 10**6, 123456789]),
                      prow=rng.randrange(3), kw=rng.random() < 0.5, keys=rng.choice([1, 3, 12]), edge=rng.choice([None, "first", "last", "both"]))
        elif k == "ppc":
            op.update(nobs=rng.choice([1, 2, 6, 12]), ns=rng.choice([1, 4, 40]), ninj=rng.choice([3, 80]), zero=rng.choice([0, 0.4]), log=rng.random() < 0.5, marg=rng.random() < 0.4, bounds=rng.choice([None, [5.0, 4.0, 60.0], [20.0, 3.0, 40.0], [2.0, 2.0, 100.0]]), extra=rng.sample(["a_1", "redshift", "chi_eff"], rng.randint(0, 3)), frame=rng.choice(["plain", "jit"] if rng.random() < 0.15 else ["plain"]))
        elif k == "freq":
            op.update(nobs=30, ns=40, ninj=60, evals=10, m={"kind": "plain"}, stream="real", log=rng.random() < 0.5)
        else:
            op.update(nobs=40, frac=round(rng.uniform(0.1, 0.9), 2), keys=25)
        ops.append(op)
        if rng.random() < 0.4:
            ops.append(dict(op, m={"kind": "plain"}))      # exact repetition
    return {"ops": ops}


def shrinks(plan):
    yield from list_shrinks(plan, ["ops"])
    yield from util.mode_shrinks(plan)
    for i, op in enumerate(plan["ops"]):
        for k in ("n", "nobs", "ns", "keys"):
            if op.get(k, 1) > 1:
                q = dict(plan)
                q["ops"] = list(plan["ops"])
                q["ops"][i] = dict(op, **{k: max(1, op[k] // 2)})
                yield q


def setup(ctx):
    import jax
    import jax._src.random as jr
    import numpyro
    from numpyro import handlers

    from gwinferno.pipeline import analysis
    from gwinferno.preprocess import selection

    ctx.state.update(jax=jax, jr=jr, numpyro=numpyro, handlers=handlers, an=analysis, sel=selection)


class stream:
    """Force the uniform draws the selection code receives."""

    def __init__(self, S, kind, r):
        self.S, self.kind, self.r = S, kind, r

    def __enter__(self):
        if self.kind == "real":
            return self
        import jax.numpy as jnp

        S, kind, me = self.S, self.kind, self
        top = np.float32(1.0) - np.float32(2.0) ** -23
        self.calls = 0

        def uniform(key, shape=(), dtype=None, minval=0.0, maxval=1.0):
            me.calls += 1
            shape = tuple(shape) if np.ndim(shape) else (() if shape == () else (int(shape),))
            n = int(np.prod(shape)) if shape else 1
            if kind == "zero":
                v = np.zeros(n)
            elif kind == "one":
                v = np.full(n, top)
            elif kind == "rand":
                v = (np.random.RandomState(me.calls).randint(0, 1024, n) + 0.5) / 1024
            elif kind == "tiny":
                v = np.full(n, 2.0**-23)
            else:
                v = np.where(np.arange(n) % 2 == me.calls % 2, top, 0.0)
            v = jnp.asarray(v.astype(np.float32).reshape(shape))
            return minval + v * (maxval - minval)

        self.saved = (S["jr"].uniform, S["jax"].random.uniform)
        S["jr"].uniform = S["jax"].random.uniform = uniform
        return self

    def __exit__(self, *a):
        if self.kind != "real":
            self.S["jr"].uniform, self.S["jax"].random.uniform = self.saved
            if self.calls:
                self.r.fault({"extreme_draws": self.calls})
        return False


def too_far(count, n, p):
    """Is a binomial count impossible at the 1e-11 level?"""
    from scipy.stats import binom

    if p <= 0:
        return count > 0
    return binom.cdf(count, n, p) < 1e-11 or binom.sf(count - 1, n, p) < 1e-11


def execute(plan, ctx):
    r = Result()
    seen = {}
    for n, op in enumerate(plan["ops"]):
        r.ops += 1
        f = {"resample": do_resample, "ppc": do_ppc, "qs": do_qs, "freq": do_freq}[op["op"]]
        d = f(r, ctx.state, op, seen)
        if d:
            r.fail("selection", f"op {n} ({op['op']}): {d}")
            return r
    r.sig = ",".join(o["op"] + o["stream"] for o in plan["ops"]) + ":" + r.digest()
    return r


# --------------------------------------------------------------------------------------------------------------- resampling
def do_resample(r, S, op, seen):
    import jax.numpy as jnp

    rs = np.random.RandomState(op["seed"])
    n, npar = op["n"], op["npar"]
    dat = rs.uniform(1.0, 50.0, (npar, n)).astype(np.float32)
    names = [f"p{i}" for i in range(npar)]
    names[op["prow"]] = "prior"
    pm = {k: i for i, k in enumerate(names)}
    dat[op["prow"]] = np.exp(rs.uniform(-2, 2, n))
    xrow = (op["prow"] + 1) % npar
    zero = rs.rand(n) < op["zero"]
    if op["edge"] in ("first", "both"):
        zero[: max(1, n // 4)] = True
    if op["edge"] in ("last", "both"):
        zero[-max(1, n // 4):] = True
    keep = n // 2
    zero[keep] = False
    dat[xrow] = np.where(zero, -np.abs(dat[xrow]), dat[xrow])   # the model gives no probability to negative values
    sl = op["spread"] * 0.1

    def model_prob(d, slope=0.0):
        x = d[xrow]
        return jnp.where(x > 0, jnp.exp(slope * (x - 25.0)), 0.0)

    kw = {"slope": sl} if op["kw"] else {}
    jd = jnp.asarray(dat)
    pdens = np.where(dat[xrow] > 0, np.exp(kw.get("slope", 0.0) * (dat[xrow].astype(np.float64) - 25.0)), 0.0)
    w = pdens / dat[op["prow"]].astype(np.float64)
    sw, sw2 = w.sum(), (w * w).sum()
    ratio = sw * sw / sw2
    Ns = {math.floor(ratio * (1 - 3e-5)), math.floor(ratio), math.floor(ratio * (1 + 3e-5))}
    if min(Ns) < 1:
        Ns.add(1)
    norm = sw / op["ndraw"]
    cols = {dat[:, j][[i for i in range(npar) if i != op["prow"]]].tobytes(): j for j in range(n)}
    counts = np.zeros(n)
    tot = 0
    if zero.any():
        r.nontrivial = True
    for k in range(op["keys"]):
        key = S["jax"].random.PRNGKey((op["key"] + 101 * k) % (2**31))
        with stream(S, op["stream"], r):
            st, v, excused = util.attempt(r, lambda: S["sel"].resample_injections(key, model_prob, jd, op["ndraw"], pm, **kw), op["m"] if k == 0 else {"kind": "plain"})
        r.ev("resample", k, st)
        if st == "interrupted":
            continue
        if st == "raised":
            if excused:
                continue
            return f"raised {type(v).__name__}: {str(v)[:200]}"
        new, N, neff = v
        new = np.asarray(new)
        if not np.array_equal(np.asarray(jd), dat):
            return "the injections passed in were modified"
        if int(N) not in Ns or new.shape != (npar, int(N)):
            return f"{int(N)} draws, data of shape {new.shape}; documented number is {ratio!r} rounded down"
        sel = []
        for c in range(int(N)):
            j = cols.get(np.ascontiguousarray(new[:, c][[i for i in range(npar) if i != op["prow"]]]).tobytes())
            if j is None:
                return f"draw {c} is not an injection that was passed in: {new[:, c].tolist()}"
            if w[j] == 0:
                return f"draw {c} is injection {j}, which has zero weight"
            want = pdens[j] / norm
            if not abs(new[op["prow"], c] - want) <= 1e-4 * want:
                return f"density of draw {c} is {new[op['prow'], c]!r}, expected {want!r}"
            sel.append(j)
        s2 = sw2 / op["ndraw"] ** 2 - norm * norm / op["ndraw"]
        wn = norm * norm / s2 if s2 > 0 else None
        cond = (sw2 / op["ndraw"] ** 2) / s2 if s2 > 0 else np.inf
        if wn is not None and cond < 1e3 and not abs(float(neff) - wn) <= 1e-4 * cond * abs(wn):
            return f"effective number {float(neff)!r}, expected {wn!r}"
        r.probe("rows", len(sel))
        hsh = h(np.array(sel))
        r.ev(hsh)
        kk = (op["seed"], k, op["key"], op["stream"], op["n"])
        if seen.setdefault(("rs",) + kk, hsh) != hsh:
            return "the same key and data gave another selection than before"
        if op["stream"] == "real":
            tot += len(sel)
            counts += np.bincount(sel, minlength=n)
            if len(sel) >= 20 and sel != sorted(sel):
                seen.setdefault("unsorted", True)
    if op["stream"] == "real" and tot:
        for j in range(n):
            if too_far(counts[j], tot, w[j] / sw):
                return f"injection {j} was drawn {int(counts[j])} times out of {tot}, its share of the weight is {w[j] / sw:.4g}"
        r.probe("frequency_tests")
        hs = {seen[("rs", op["seed"], k, op["key"], op["stream"], op["n"])] for k in range(op["keys"]) if ("rs", op["seed"], k, op["key"], op["stream"], op["n"]) in seen}
        if op["keys"] >= 3 and len(hs) == 1 and int(max(Ns)) >= 15 and sw2 < 0.3 * sw * sw:
            return "every key gave the same selection"
    return ""


# --------------------------------------------------------------------------------------------------------------- predictive draws
def do_ppc(r, S, op, seen):
    import jax.numpy as jnp

    rs = np.random.RandomState(op["seed"])
    no, ns, ni = op["nobs"], op["ns"], op["ninj"]
    names = ["mass_1", "mass_ratio"] + op["extra"]
    pe = {p: rs.uniform(0.1, 1.0, (no, ns)).astype(np.float32) for p in names}
    inj = {p: rs.uniform(0.1, 1.0, ni).astype(np.float32) for p in names}
    pe["mass_1"] = rs.uniform(4.0, 70.0, (no, ns)).astype(np.float32)
    inj["mass_1"] = rs.uniform(4.0, 70.0, ni).astype(np.float32)
    wp, wi = np.exp(rs.normal(0, 1.5, (no, ns))), np.exp(rs.normal(0, 1.5, ni))
    wp = np.where(rs.rand(no, ns) < op["zero"], 0.0, wp)
    wi = np.where(rs.rand(ni) < op["zero"], 0.0, wi)
    m1min, m2min, mmax = op["bounds"] or (5.0, 3.0, 100.0)
    for e in range(no):       # every event keeps one admissible row
        j = rs.randint(ns)
        pe["mass_1"][e, j], pe["mass_ratio"][e, j], wp[e, j] = (m1min + mmax) / 2, 0.9, 1.0
    inj["mass_1"][0], inj["mass_ratio"][0], wi[0] = (m1min + mmax) / 2, 0.9, 1.0
    wp, wi = wp.astype(np.float32), wi.astype(np.float32)

    def admissible(d):
        m1, m2 = d["mass_1"], d["mass_1"] * d["mass_ratio"]
        return ~((m1 < m1min) | (m1 > mmax) | (m2 < m2min))

    okp, oki = admissible(pe) & (wp > 0), admissible(inj) & (wi > 0)
    # rows whose secondary mass sits on the limit within rounding may fall on either side
    maybe = np.abs(pe["mass_1"] * pe["mass_ratio"] - m2min) < 1e-4
    maybi = np.abs(inj["mass_1"] * inj["mass_ratio"] - m2min) < 1e-4
    kw = dict(param_names=names, posterior_predictive_check=True, min_neff_cut=False, reconstruct_rate=False, log=op["log"])
    if op["bounds"]:
        kw.update(m1min=m1min, m2min=m2min, mmax=mmax)
    jpe, jinj = {k: jnp.asarray(v) for k, v in pe.items()}, {k: jnp.asarray(v) for k, v in inj.items()}
    jw, jwi = (jnp.log(jnp.asarray(wp)), jnp.log(jnp.asarray(wi))) if op["log"] else (jnp.asarray(wp), jnp.asarray(wi))
    iw = None
    if op["marg"]:
        f = rs.uniform(0.1, 0.9, (no, ns)).astype(np.float32)
        iw = [wp * f, wp * (1 - f)]
        kw.update(marginal_qs=True, indv_weights=[jnp.asarray(x) for x in iw])

    def run():
        H = S["handlers"]
        with H.seed(rng_seed=op["key"] % 7), H.trace() as tr:
            S["an"].hierarchical_likelihood(jw, jwi, ni * 10, no, 1.0, pedata=jpe, injdata=jinj, **kw)
        return {k: s["value"] for k, s in tr.items() if s["type"] == "deterministic"}

    def go():
        return S["jax"].jit(run)() if op["frame"] == "jit" else run()

    # the keys of these draws are fixed by the event number, so that draws within rounding of the top of the unit interval cannot occur
    kind = {"zero": "rand", "tiny": "rand", "mix": "rand"}.get(op["stream"], op["stream"]) if op["frame"] != "jit" else "real"
    with stream(S, kind, r):
        st, got, excused = util.attempt(r, go, op["m"])
    S["numpyro"].primitives._PYRO_STACK.clear()
    r.ev("ppc", st)
    if st == "interrupted" or (st == "raised" and excused):
        return ""
    if st == "raised":
        return f"raised {type(got).__name__}: {str(got)[:200]}"
    if (~okp).any() or (~oki).any():
        r.nontrivial = True
    sel = []
    for e in range(no):
        for what, src, okm, may, row in (("obs", {k: v[e] for k, v in pe.items()}, okp[e], maybe[e], wp[e]), ("pred", inj, oki, maybi, wi)):
            vals = {}
            for p in names:
                k = f"{p}_{what}_event_{e}"
                if k not in got:
                    return f"{k} is missing"
                v = np.asarray(got[k])
                if v.shape != ():
                    return f"{k} has shape {v.shape}"
                vals[p] = np.float32(v)
            match = np.ones(len(row), bool)
            for p in names:
                match &= src[p] == vals[p]
            if not match.any():
                return f"{what} draw of event {e} is not one of its rows: { {k: float(v) for k, v in vals.items()} }"
            if not (match & (okm | may)).any():
                return f"{what} draw of event {e} is row {int(np.argmax(match))}, which has zero weight or lies outside the mass limits: { {k: float(v) for k, v in vals.items()} }"
            j = int(np.argmax(match & (okm | may)))
            sel.append(j)
            if what == "obs" and op["marg"]:
                for i in range(2):
                    g = float(got[f"cat_frac_subpop_{i + 1}_event_{e}"])
                    w = float(iw[i][e, j]) / float(wp[e, j])
                    if not abs(g - w) <= 1e-4:
                        return f"cat_frac_subpop_{i + 1}_event_{e} = {g!r}, the drawn row {j} has {w!r}"
    r.probe("predictive_draws", len(sel))
    hs = h(np.array(sel))
    r.ev(hs)
    if kind == "real":
        kk = ("ppc", op["seed"], no, ns)
        if seen.setdefault(kk, hs) != hs:
            return "the same weights and data gave other predictive draws than before"
    return ""


def do_qs(r, S, op, seen):
    """Assignment of events to subpopulations follows the population fractions."""
    import jax.numpy as jnp

    rs = np.random.RandomState(op["seed"])
    no = op["nobs"]
    w = jnp.asarray(np.exp(rs.normal(0, 1, (2, no, 4))).astype(np.float32))
    wi = jnp.asarray(np.exp(rs.normal(0, 1, 50)).astype(np.float32))
    fr = op["frac"]
    tot = ones = 0
    for k in range(op["keys"]):
        key = S["jax"].random.PRNGKey((op["key"] + k) % 2**31)

        def run():
            H = S["handlers"]
            with H.seed(rng_seed=0), H.trace() as tr:
                S["an"].hierarchical_likelihood(w, wi, 500, no, 1.0, categorical=True, pop_frac=(fr, 1 - fr), rngkey=key, reconstruct_rate=False)
            return np.asarray(tr["Qs"]["value"]), np.asarray(tr["logBFs"]["value"], np.float64)

        st, v, excused = util.attempt(r, run, op["m"] if k == 0 else {"kind": "plain"})
        S["numpyro"].primitives._PYRO_STACK.clear()
        if st == "interrupted" or (st == "raised" and excused):
            continue
        if st == "raised":
            return f"raised {type(v).__name__}: {str(v)[:200]}"
        q, bf = v
        if q.shape != (no,) or not np.isin(q, (0, 1)).all():
            return f"assignments {q.tolist()}"
        want = np.log(np.where((q == 0)[:, None], np.asarray(w[0], np.float64), np.asarray(w[1], np.float64)).mean(1))
        if not np.allclose(bf, want, atol=1e-4):
            return "events were weighted with another subpopulation than the one drawn"
        tot += no
        ones += int((q == 0).sum())
        r.ev(h(q))
    if tot and too_far(ones, tot, fr):
        return f"{ones} of {tot} events went to the first subpopulation whose fraction is {fr}"
    r.probe("assignments", tot)
    return ""


def do_freq(r, S, op, seen):
    """Predictive draws follow the weights: rows of two weight classes, assigned at random, are drawn in proportion to the weights."""
    import jax.numpy as jnp

    rs = np.random.RandomState(op["seed"])
    no, ns, ni = op["nobs"], op["ns"], op["ninj"]
    hits, exp = {"obs": 0, "pred": 0}, {"obs": 0.0, "pred": 0.0}
    place = {"obs": [], "pred": []}     # where in the cumulative weight each draw fell
    runs = S.setdefault("freq_run", {})
    if op["log"] not in runs:
        def run(w, wi, pe, inj):
            H = S["handlers"]
            with H.seed(rng_seed=0), H.trace() as tr:
                S["an"].hierarchical_likelihood(w, wi, 10 * ni, no, 1.0, param_names=["mass_1"], pedata=pe, injdata=inj, posterior_predictive_check=True, min_neff_cut=False, reconstruct_rate=False, log=op["log"])
            return {k: s["value"] for k, s in tr.items() if "_event_" in k}

        runs[op["log"]] = S["jax"].jit(run)
    for _ in range(op["evals"]):
        cp, ci = rs.rand(no, ns) < 0.5, rs.rand(ni) < 0.5
        w, wi = np.where(cp, 2.5, 1.0).astype(np.float32), np.where(ci, 2.5, 1.0).astype(np.float32)
        pe = {"mass_1": (20.0 + rs.rand(no, ns)).astype(np.float32), "mass_ratio": np.full((no, ns), 0.8, np.float32)}
        inj = {"mass_1": (20.0 + rs.rand(ni)).astype(np.float32), "mass_ratio": np.full(ni, 0.8, np.float32)}
        jw, jwi = jnp.asarray(w), jnp.asarray(wi)
        if op["log"]:
            jw, jwi = jnp.log(jw), jnp.log(jwi)
        got = runs[op["log"]](jw, jwi, {k: jnp.asarray(v) for k, v in pe.items()}, {k: jnp.asarray(v) for k, v in inj.items()})
        for e in range(no):
            for what, src, c, ww in (("obs", pe["mass_1"][e], cp[e], w[e]), ("pred", inj["mass_1"], ci, wi)):
                m = src == np.float32(np.asarray(got[f"mass_1_{what}_event_{e}"]))
                if not m.any():
                    return f"{what} draw of event {e} is not one of its rows"
                hits[what] += bool((m & c).any())
                j = int(np.argmax(m))
                place[what].append((ww[:j].sum() + 0.5 * ww[j]) / ww.sum())
                exp[what] += float(ww[c].sum() / ww.sum())
    n = op["evals"] * no
    r.ev("freq", hits["obs"], hits["pred"])
    for what in ("obs", "pred"):
        if abs(hits[what] - exp[what]) > 0.14 * n:
            return f"{what} draws: {hits[what]} of {n} rows of the heavier class, expected about {exp[what]:.0f}"
    a, b = np.array(place["obs"]), np.array(place["pred"])
    for what, x, y in (("the observed and predicted draw of one event", a, b), ("observed draws of successive events", a[:-1], a[1:]), ("predicted draws of successive events", b[:-1], b[1:])):
        c = np.corrcoef(x, y)[0, 1] if x.std() > 0 and y.std() > 0 else 1.0
        if abs(c) > 0.8 and len(x) >= 200:
            return f"{what} are not independent: correlation {c:.2f} over {len(x)} pairs"
    r.probe("predictive_frequency_tests")
    return ""
