"""C06 a config-built model evaluates to the hierarchical likelihood of its config, whatever was evaluated before."""
import os

import numpy as np

from checks import popcfg, util
from sim.core import Result, list_shrinks

PROPERTY = "C06"
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded histories of model builds and evaluations (eager, compiled, differentiated, interrupted, failing) against a float64 reference likelihood"
NOTE = "Every evaluation is compared site by site with an independent float64 computation from the configuration text; held on everything explored."
RULE = "episode with an interrupted or failing evaluation, a compiled evaluation, or two different models evaluated alternately"
REAL = ["gwinferno.pipeline.analysis (construct_hierarchical_model, hierarchical_likelihood, per_event_log_bayes_factors, detection_efficiency)", "gwinferno.pipeline.parser", "gwinferno.numpyro_distributions", "gwinferno.cosmology", "numpyro, jax"]
STUB = ["asynchronous interrupts and allocation failures at package bytecodes", "libc file reads of the configuration (errors, short reads)"]
ASSUMPTIONS = ["hyper-parameters where single precision resolves the densities (power-law index away from -1 unless exactly -1)", "verdict of a cut is not judged within 0.2% of its threshold"]
TIERS = {"quick": {"sessions": 8, "episodes": 40, "budget_s": 60}, "thorough": {"sessions": 48, "episodes": 600, "budget_s": 300}}


def generate(rng, tier, sconf):
    if rng.random() < 0.3:
        return {"mode": "direct", "ops": [hl_op(rng) for _ in range(rng.randint(2, 5))]}
    pool = [popcfg.config(rng)]
    for _ in range(rng.randint(0, 2)):
        pool.append(popcfg.tweak(rng, rng.choice(pool)) if rng.random() < 0.7 else popcfg.config(rng))
    base = {"nobs": rng.choice([2, 3]), "ns": 48, "ninj": 160, "mult": rng.choice([1, 5, 40, 5000, 600000]), "ntype": rng.choice(["int", "np", "float"]), "tobs": rng.choice([0.5, 1.0, 2.25])}
    datas = [dict(base, seed=rng.randrange(1 << 30), wide=rng.choice([0, 0, 0.2]), dead=rng.choice([None] * 9 + [1])) for _ in range(2)]
    ops = []
    for i in range(len(pool)):
        ops.append({"op": "build", "c": i, "how": rng.choice(["yaml", "yaml_shared", "direct"]), "m": util.mode(rng, (8, 0.5, 1), util.errors_only)})
    for _ in range(rng.randint(3, 6)):
        k = rng.choices(["eval", "fail", "jit", "grad", "build"], [7, 1.2, 0.7, 0.3, 0.8])[0]
        op = {"op": k, "c": rng.randrange(len(pool)), "d": rng.randrange(2), "hp": rng.randrange(4)}
        if k == "eval":
            op["m"] = util.mode(rng, (5, 0, 2.5), top=3.2)
        if k == "fail":
            op["how"] = rng.choice(["missing", "shape", "abort"])
        if k == "build":
            op.update(how=rng.choice(["yaml", "yaml_shared", "direct"]), m=util.mode(rng, (8, 0.5, 1), util.errors_only))
        ops.append(op)
    return {"mode": "history", "pool": pool, "data": datas, "ops": ops, "hseed": rng.randrange(1 << 30)}


def hl_op(rng):
    cut = rng.choices(["neff", "none", "var", "bad"], [4, 3, 2, 0.6])[0]
    o = {"op": "hl", "seed": rng.randrange(1 << 30), "nobs": rng.choice([1, 2, 3, 5]), "ns": 32, "ninj": rng.choice([40, 160]), "mult": rng.choice([1, 1.5, 20, 3000, 10**6]), "ntype": rng.choice(["int", "np", "float"]), "log": rng.random() < 0.6,
         "cat": rng.random() < 0.25, "rate": rng.random() < 0.7, "marg": cut != "var" and rng.random() < 0.4, "neff_cut": cut == "neff" or (cut == "bad" and rng.random() < 0.5), "var_cut": cut in ("var", "bad"),
         "spread": rng.choice([0.3, 1.0, 2.5]), "dead": rng.choice([None] * 8 + [0]), "holes": rng.choice([0, 0, 0.2, 0.6]), "tobs": rng.choice([0.4, 1.0, 3.0]), "vol": rng.choice([1e9, 3.5e10]), "defaults": rng.random() < 0.15,
         "m": util.mode(rng, (6, 0, 2), top=2.9)}
    if cut == "bad" and not o["neff_cut"]:
        o["marg"] = True
    return o


def shrinks(plan):
    yield from list_shrinks(plan, ["ops"])
    yield from util.mode_shrinks(plan)


def setup(ctx):
    import jax
    import numpyro
    from numpyro import handlers
    from numpyro.infer.util import log_density

    from gwinferno.pipeline import analysis, parser

    ctx.state.update(jax=jax, numpyro=numpyro, handlers=handlers, log_density=log_density, an=analysis, parser=parser)


# --------------------------------------------------------------------------------------------------------------- building
def direct(P, c):
    """The containers a user would build by hand for this configuration."""
    import jax.numpy as jnp

    def conv(v):
        return jnp.array(v) if isinstance(v, list) else v

    def prior(pre, b, priors):
        for h, d in b["hyper_params"].items():
            if "prior" in d:
                priors[f"{pre}_{h}"] = P.PopPrior(P.load_dist_from_string(d["prior"]), {k: conv(v) for k, v in d["prior_params"].items()})
            else:
                priors[f"{pre}_{h}"] = conv(d["value"])

    models, priors, shared = {}, {}, {}
    for p, m in c["models"].items():
        if "mixture_dist" in m:
            n = sum(k.startswith("component_") for k in m)
            comps = [m[f"component_{i + 1}"] for i in range(n)]
            prior(f"{p}_mixture_dist", m["mixture_dist"], priors)
            for i, b in enumerate(comps):
                prior(f"{p}_component_{i + 1}", b, priors)
            models[p] = P.PopMixtureModel(P.load_dist_from_string(m["model"]), P.load_dist_from_string(m["mixture_dist"]["model"]), list(m["mixture_dist"]["hyper_params"]),
                                          [P.load_dist_from_string(b["model"]) for b in comps], [list(b["hyper_params"]) for b in comps])
        else:
            prior(p, m, priors)
            models[p] = P.PopModel(P.load_dist_from_string(m["model"]), list(m["hyper_params"]))
        if "iid" in m:
            shared[m["iid"]["shared_parameter"]] = p
    models.update(shared)
    return models, priors


def build(S, ctx, c, how, reader):
    P, A = S["parser"], S["an"]
    if how == "direct":
        models, priors = direct(P, c)
    else:
        import yaml

        path = os.path.join(ctx.scratch, "c06.yml")
        with open(path, "w") as f:
            yaml.safe_dump({"models": c["models"]}, f, sort_keys=False)
        rd = reader if how == "yaml_shared" else P.ConfigReader()
        rd.parse(path)
        models, priors = rd.models, rd.priors
    return A.construct_hierarchical_model(models, priors, **c["kw"])


def trace(S, model, args, hv):
    H = S["handlers"]
    with H.seed(rng_seed=0), H.trace() as tr, H.substitute(data=dict(hv)):
        model(*args)
    return tr


def joint(tr):
    t = 0.0
    for s in tr.values():
        if s["type"] == "sample":
            lp = s["fn"].log_prob(s["value"])
            if s.get("scale") is not None:
                lp = s["scale"] * lp
            t += float(np.sum(np.asarray(lp, np.float64)))
    return t


def expected(c, dat, hv):
    pe, inj, k = dat
    ps = popcfg.params_of(c)
    with np.errstate(all="ignore"):
        lp = sum(popcfg.pop_logpdf(c, hv, p, pe[p]) for p in ps) - np.log(pe["prior"].astype(np.float64))
        li = sum(popcfg.pop_logpdf(c, hv, p, inj[p]) for p in ps) - np.log(inj["prior"].astype(np.float64))
    kw = c["kw"]
    o, ll, near = popcfg.likelihood(lp, li, k["Ninj"], k["Nobs"], k["Tobs"], hv, popcfg.zmax_norm(c, hv), True, kw["marginalize_selection"], kw["min_neff_cut"], kw["max_variance_cut"])
    return o, ll, near, popcfg.log_prior(c, hv) + gamma_logpdf(k["Nobs"], float(hv["unscaled_rate"]))


def gamma_logpdf(n, x):
    from scipy.special import gammaln

    return (n - 1) * np.log(x) - x - gammaln(n)


def judge_joint(r, what, got, pr, ll, near, scale):
    if near:
        return True
    if not np.isfinite(ll):
        if not got <= popcfg.NBIG:
            r.fail("density", f"{what}: log joint density {got!r} although the likelihood is cut or has no support")
            return False
        return True
    want = pr + ll
    tol = 6e-3 + 5e-5 * (scale + abs(pr))
    if not abs(got - want) <= tol:
        r.fail("density", f"{what}: log joint density {got!r}, expected {want!r} (prior {pr!r}, likelihood {ll!r})")
        return False
    return True


# --------------------------------------------------------------------------------------------------------------- execution
def execute(plan, ctx):
    r = Result()
    S = ctx.state
    if plan["mode"] == "direct":
        for op in plan["ops"]:
            if not run_hl(r, S, op):
                return r
        r.sig = "hl:" + str(len(plan["ops"])) + ":" + r.digest()
        return r
    import jax.numpy as jnp

    dats = [popcfg.data(d) for d in plan["data"]]
    jdat = [({k: jnp.asarray(v) for k, v in pe.items()}, {k: jnp.asarray(v) for k, v in inj.items()}, k["Ninj"], k["Nobs"], k["Tobs"]) for pe, inj, k in dats]
    reader = S["parser"].ConfigReader()
    models = {}
    evaluated = set()
    for n, op in enumerate(plan["ops"]):
        c = plan["pool"][op["c"]]
        if op["op"] == "build":
            st, m, excused = util.attempt(r, lambda: build(S, ctx, c, op["how"], reader), op["m"])
            r.ev(n, "build", st)
            r.ops += 1
            if st == "raised" and not excused:
                r.fail("raised", f"building the model of a valid configuration: {type(m).__name__}: {str(m)[:300]}")
                return r
            if st == "ok":
                models[op["c"]] = m
            continue
        if op["c"] not in models:
            st, m, _ = util.attempt(r, lambda: build(S, ctx, c, "direct", reader), {"kind": "plain"})
            if st != "ok":
                r.fail("raised", f"building the model of a valid configuration: {type(m).__name__}: {str(m)[:300]}")
                return r
            models[op["c"]] = m
        model = models[op["c"]]
        hv = popcfg.hypers(c, plan["hseed"] + 7919 * op["hp"])
        args = jdat[op["d"]]
        what = f"op {n} ({op['op']}, model {op['c']})"
        r.ops += 1
        if op["op"] == "fail":
            failing(S, op, model, args, hv, c)
            r.ev(n, "fail", op["how"])
            r.fault({"failed_evaluation": 1})
            continue
        want, ll, near, pr = expected(c, dats[op["d"]], hv)
        scale = float(np.sum(np.abs(want["logBFs"][np.isfinite(want["logBFs"])]))) + (abs(want["selection_factor"]) if np.isfinite(want["selection_factor"]) else 0)
        if op["op"] in ("jit", "grad"):
            f = lambda h: S["log_density"](S["handlers"].seed(model, S["jax"].random.PRNGKey(0)), args, {}, h)[0]  # noqa: E731
            try:
                if op["op"] == "jit":
                    v = float(S["jax"].jit(f)(hv))
                else:
                    v = float(S["jax"].value_and_grad(f)({k: jnp.asarray(x) for k, x in hv.items()})[0])
            except Exception as e:  # noqa: BLE001
                r.fail("raised", f"{what}: {type(e).__name__}: {str(e)[:300]}")
                return r
            r.ev(n, op["op"], repr(v))
            r.probe(op["op"])
            r.nontrivial = True
            if not judge_joint(r, what, v, pr, ll, near, scale):
                return r
            continue
        st, tr, excused = util.attempt(r, lambda: trace(S, model, args, hv), op["m"])
        S["numpyro"].primitives._PYRO_STACK.clear()
        r.ev(n, "eval", st)
        if st == "interrupted":
            continue
        if st == "raised":
            if excused:
                continue
            r.fail("raised", f"{what}: {type(tr).__name__}: {str(tr)[:300]}")
            return r
        got = {k: s["value"] for k, s in tr.items() if s["type"] in ("deterministic", "sample")}
        r.probe("evaluations")
        if near:
            r.probe("near_threshold")
        if not np.isfinite(ll):
            r.probe("cut_or_no_support")
        evaluated.add(op["c"])
        if len(evaluated) > 1:
            r.nontrivial = True
        sites = {k for k, s in tr.items() if s["type"] == "sample" and not s["is_observed"]}
        if sites != set(hv):
            r.fail("sites", f"{what}: sampled sites {sorted(sites)}, configuration has {sorted(hv)}")
            return r
        d = popcfg.compare_sites(got, want, near)
        if d:
            r.fail("derived", f"{what}: {d}")
            return r
        v = joint(tr)
        r.ev(n, repr(v))
        if not judge_joint(r, what, v, pr, ll, near, scale):
            return r
    r.sig = ",".join(o["op"][0] + str(o["c"]) for o in plan["ops"]) + ":" + r.digest()
    return r


class Boom(RuntimeError):
    pass


def failing(S, op, model, args, hv, c):
    """An evaluation that fails part way: the caller passed incomplete data, or the data object raises."""
    pe, inj = dict(args[0]), dict(args[1])
    p = popcfg.params_of(c)[-1]
    if op["how"] == "missing":
        del pe[p]
    elif op["how"] == "shape":
        inj[p] = inj[p][:7]
    else:
        class D(dict):
            def __getitem__(self, k):
                if k == "prior":
                    raise Boom("data source failed")
                return dict.__getitem__(self, k)

        inj = D(inj)
    try:
        trace(S, model, (pe, inj) + tuple(args[2:]), hv)
    except Exception:  # noqa: BLE001
        pass
    S["numpyro"].primitives._PYRO_STACK.clear()


def run_hl(r, S, op):
    import jax.numpy as jnp

    rs = np.random.RandomState(op["seed"])
    sh = (2, op["nobs"], op["ns"]) if op["cat"] else (op["nobs"], op["ns"])
    lp = rs.normal(0, op["spread"], sh)
    li = rs.normal(-1.0, op["spread"], op["ninj"])
    if op["dead"] is not None:
        lp[..., 0, :] = -np.inf
    if op.get("holes"):   # samples outside the population's support; every event and the injections keep some weight
        lp[..., 1:][rs.rand(*lp[..., 1:].shape) < op["holes"]] = -np.inf
        li[1:][rs.rand(li.size - 1) < op["holes"]] = -np.inf
    lp, li = lp.astype(np.float32), li.astype(np.float32)
    frac = np.float32(rs.uniform(0.2, 0.8))
    q = rs.randint(0, 2, op["nobs"])
    hv = {"unscaled_rate": np.float32(rs.gamma(3.0) + 0.1)}
    Ninj = popcfg.number(op)
    kw = dict(log=op["log"], reconstruct_rate=op["rate"])
    if op["rate"]:
        kw["surveyed_hypervolume"] = op["vol"]
    if not (op["defaults"] and op["neff_cut"] and not op["var_cut"] and not op["marg"]):
        kw.update(marginalize_selection=op["marg"], min_neff_cut=op["neff_cut"], max_variance_cut=op["var_cut"])
    if op["cat"]:
        kw.update(categorical=True, pop_frac=(frac, 1 - frac))
    w = jnp.asarray(lp) if op["log"] else jnp.exp(jnp.asarray(lp))
    wi = jnp.asarray(li) if op["log"] else jnp.exp(jnp.asarray(li))

    def model():
        return S["an"].hierarchical_likelihood(w, wi, Ninj, op["nobs"], op["tobs"], **kw)

    sub = dict(hv) if op["rate"] else {}
    if op["cat"]:
        sub["Qs"] = jnp.asarray(q)
    box = {}

    def go():
        H = S["handlers"]
        with H.seed(rng_seed=0), H.trace() as tr, H.substitute(data=sub):
            box["ret"] = model()
        return tr

    r.ops += 1
    st, tr, excused = util.attempt(r, go, op["m"])
    S["numpyro"].primitives._PYRO_STACK.clear()
    r.ev("hl", st)
    bad = op["var_cut"] and (op["marg"] or op["neff_cut"])
    if st == "interrupted":
        return True
    if st == "raised":
        if excused or (bad and isinstance(tr, ValueError)):
            return True
        r.fail("raised", f"hierarchical_likelihood: {type(tr).__name__}: {str(tr)[:300]}")
        return False
    if bad:
        r.fail("accepted", "max_variance_cut together with min_neff_cut or marginalize_selection was accepted")
        return False
    l64 = lp.astype(np.float64)
    if op["cat"]:
        l64 = np.where((q == 0)[:, None], l64[0], l64[1])
    want, ll, near = popcfg.likelihood(l64, li.astype(np.float64), Ninj, op["nobs"], op["tobs"], hv, op["vol"], op["rate"], op["marg"], op["neff_cut"], op["var_cut"])
    got = {k: s["value"] for k, s in tr.items() if s["type"] in ("deterministic", "sample")}
    r.probe("direct")
    if not np.isfinite(ll):
        r.probe("cut_or_no_support")
    d = popcfg.compare_sites(got, want, near)
    if d:
        r.fail("derived", f"hierarchical_likelihood: {d}")
        return False
    ret = box["ret"]
    if op["rate"]:
        if ret is None or not abs(float(ret) - want["rate"]) <= 1e-3 * abs(want["rate"]):
            r.fail("derived", f"returned rate {ret!r}, expected {want['rate']!r}")
            return False
    pr = gamma_logpdf(op["nobs"], float(hv["unscaled_rate"])) if op["rate"] else 0.0
    if op["cat"]:
        pr += float(np.sum(np.log(np.where(q == 0, float(frac), 1 - float(frac)))))
    v = joint(tr)
    r.ev(repr(v))
    return judge_joint(r, "hierarchical_likelihood", v, pr, ll, near, float(np.sum(np.abs(want["logBFs"][np.isfinite(want["logBFs"])]))) + (abs(want["selection_factor"]) if np.isfinite(want["selection_factor"]) else 0))
