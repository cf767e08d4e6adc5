"""C16 the spline analysis assembled from the package's helpers evaluates to its documented posterior, from the data file to every derived site."""
import os

import numpy as np

from checks import popcfg, util
from checks.c06 import gamma_logpdf, joint
from checks.models import LVK, RefSpline
from sim.core import Result, list_shrinks

PROPERTY = "C16"
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded histories of whole spline analyses (data file, model setup, priors, likelihood, sampler steps) with disk faults, interrupts, failed allocations and failing evaluations, against a float64 reference posterior"
NOTE = "Every evaluation - eager, compiled, differentiated, or a state visited by the real sampler - is compared site by site with a float64 computation from the data file's content and the analysis settings."
RULE = "episode with a fault, interrupt or failing evaluation, a compiled or sampled evaluation, or two analyses alive at once"
REAL = ["gwinferno.pipeline.utils (load, setup_bspline_mass_models, setup_bspline_spin_models, setup_powerlaw_spline_redshift_model, bspline_mass_prior, bspline_spin_prior, bspline_redshift_prior)", "gwinferno.pipeline.analysis",
        "gwinferno.models.bsplines, gwinferno.interpolation, gwinferno.cosmology", "numpyro (handlers, log_density, NUTS), jax, arviz, HDF5"]
STUB = ["asynchronous interrupts and failed allocations at package bytecodes", "libc file reads and opens of the data file"]
ASSUMPTIONS = ["samples that single precision cannot place on either side of a model's edge are given negligible weight by their prior", "verdict of an effective-sample cut is not judged near its threshold", "coefficients for which the densities are representable in single precision"]
TIERS = {"quick": {"sessions": 8, "episodes": 30, "budget_s": 110}, "thorough": {"sessions": 48, "episodes": 500, "budget_s": 300}}
EV = ["GW150914", "GW15", "GW190521", "S2"]


# ---------------------------------------------------------------------------------------------------------------- plans
def generate(rng, tier, sconf):
    pool = [settings(rng)]
    for _ in range(rng.choice([0, 1, 1])):
        pool.append(tweak(rng, pool[0]) if rng.random() < 0.7 else settings(rng))
    base = {"nobs": rng.choice([2, 3]), "ns": 40, "ninj": 140, "mult": rng.choice([1, 5, 40, 5000]), "tobs": rng.choice([0.5, 1.0, 2.25])}
    datas = [dict(base, seed=rng.randrange(1 << 30), dt=rng.choice(["f4", "f8"]), first=rng.random() < 0.3) for _ in range(rng.choice([1, 2]))]
    ops = []
    n = rng.randint(5, 11)
    for i in range(n):
        k = rng.choices(["eval", "load", "setup", "jit", "grad", "fail", "mcmc"], [9, 1, 0.7, 0.6, 0.6, 1.2, 0.2])[0]
        o = {"op": k, "a": rng.randrange(len(pool)), "d": rng.randrange(len(datas)), "h": rng.randrange(3), "m": {"kind": "plain"}}
        if k == "load":
            o["m"] = util.mode(rng, (2, 2, 2), util.errors_only)
            o["ignore"] = rng.choice([None, None, [EV[0]], ["none such"], [EV[1], EV[0]] if base["nobs"] == 3 else [EV[1]]])
        elif k in ("eval", "setup"):
            o["m"] = util.mode(rng, (3, 0, 2), top=3.3)
        elif k == "fail":
            o["how"] = rng.choice(["missing", "shape", "raise", "nsplines"])
        ops.append(o)
    return {"pool": pool, "data": datas, "ops": ops, "hs": rng.randrange(1 << 28)}


def settings(rng):
    return {"nm": rng.choice([8, 9]), "nq": 5, "na": rng.choice([6, 7]), "nt": rng.choice([5, 6]), "nz": rng.choice([5, 6]), "iid": rng.random() < 0.4,
            "mmin": rng.choice([3.0, 5.0]), "mmax": rng.choice([80.0, 100.0]), "mt": rng.choice([1, 0.3, 4.0]), "qt": rng.choice([1, 2.5]), "at": rng.choice([25, 0.7]), "tt": rng.choice([25, 1.3]), "zt": rng.choice([1, 0.2]),
            "pops": rng.choice([1, 1, 1, 2]), "named": rng.random() < 0.3, "sig": rng.choice([None, None, [4.0, 3.0, 2.0, 6.0, 1.5]]), "deg": rng.choice([None, None, [2, 1, 1, 2, 1]]),
            "ppc": rng.random() < 0.3, "log": rng.random() < 0.3, "marg": rng.random() < 0.3, "neff": rng.random() < 0.7, "rate": rng.random() < 0.85}


def tweak(rng, a):
    b = settings(rng)
    out = dict(a)
    for k in rng.sample(sorted(a), rng.randint(1, 3)):
        out[k] = b[k]
    return out


def shrinks(plan):
    yield from list_shrinks(plan, ["ops"])
    yield from util.mode_shrinks(plan)


def setup(ctx):
    import jax
    import numpyro
    from numpyro import handlers
    from numpyro.infer.util import log_density

    from gwinferno.pipeline import analysis, utils
    from gwinferno.preprocess import data_collection

    ctx.state.update(jax=jax, numpyro=numpyro, handlers=handlers, log_density=log_density, an=analysis, ut=utils, dc=data_collection)


# ---------------------------------------------------------------------------------------------------------------- data
NAMES = ["mass_1", "mass_ratio", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2", "redshift", "prior"]


def arrays(d, pool):
    pe, inj, k = popcfg.data(d)
    rs = np.random.RandomState(d["seed"] & 0xFFFF)
    for x in (pe, inj):
        x["redshift"] = np.clip(x["redshift"] * rs.uniform(0.97, 1.03, x["redshift"].shape), 0.02, 1.2)
    for x in (pe, inj):
        x["prior"] = x["prior"].astype(np.float64)
        m, q, z = (np.asarray(x[n], np.float64) for n in ("mass_1", "mass_ratio", "redshift"))
        bad = np.zeros(m.shape, bool)
        for a in pool:
            for e in (a["mmin"], a["mmax"]):
                bad |= np.abs(m / e - 1) < 1e-4
            bad |= np.abs(q - a["mmin"] / a["mmax"]) < 1e-4
        for zz in list(np.asarray(pe["redshift"], np.float64)) + [np.asarray(inj["redshift"], np.float64)]:   # any of these may be the end of the range, depending on the events left out
            for e in (zz.min(), zz.max()):
                bad |= np.abs(z - e) < 1e-4
        x["prior"][bad] *= 1e9
    return pe, inj, k


def write(S, path, d, pool):
    import xarray as xr

    pe, inj, k = arrays(d, pool)
    n = NAMES[-1:] + NAMES[:-1] if d["first"] else NAMES
    P = xr.DataArray(np.stack([np.asarray(pe[p], d["dt"]) for p in n], 1), dims=["event", "param", "samples"], coords={"event": EV[:d["nobs"]], "param": n, "samples": np.arange(d["ns"])})
    I = xr.DataArray(np.stack([np.asarray(inj[p], d["dt"]) for p in n]), dims=["param", "injection"], coords={"param": n, "injection": np.arange(d["ninj"])}, attrs={"total_generated": k["Ninj"], "analysis_time": k["Tobs"]})
    S["dc"].save_posterior_samples_and_injection_datasets_as_idata(path, P.to_dataset(name="posteriors", promote_attrs=True), I.to_dataset(name="injections", promote_attrs=True))


def wanted(d, pool, ignore):
    """The float64 view of the values the loader hands out (single precision)."""
    pe, inj, k = arrays(d, pool)
    keep = [i for i in range(d["nobs"]) if not ignore or EV[i] not in ignore]
    f = lambda v: np.asarray(v, np.float32).astype(np.float64)  # noqa: E731
    return {p: f(pe[p])[keep] for p in NAMES}, {p: f(inj[p]) for p in NAMES}, dict(k, Nobs=len(keep))


# ---------------------------------------------------------------------------------------------------------------- the analysis, as a user writes it
def build(S, a, pe, inj):
    U = S["ut"]
    return {"mass": U.setup_bspline_mass_models(pe, inj, a["nm"], a["nq"], a["mmin"], a["mmax"]),
            "spin": U.setup_bspline_spin_models(pe, inj, a["na"], a["nt"], IID=a["iid"], a2_nsplines=a["na"], ct2_nsplines=a["nt"]),
            "z": U.setup_powerlaw_spline_redshift_model(pe, inj, a["nz"])}


def names(a):
    return ["pop1", "pop2"][:a["pops"]] if a["pops"] > 1 or a["named"] else [None]


def model(pe, inj, Ninj, Nobs, Tobs, S, a, M):
    import jax.numpy as jnp
    import numpyro.distributions as dist

    U, npr = S["ut"], S["numpyro"]
    km, ks, kz = {}, {}, {}
    if a["sig"]:
        km.update(m_cs_sig=a["sig"][0], q_cs_sig=a["sig"][1])
        ks.update(a_cs_sig=a["sig"][2], ct_cs_sig=a["sig"][3])
        kz.update(z_cs_sig=a["sig"][4])
    if a["deg"]:
        km.update(m_deg=a["deg"][0], q_deg=a["deg"][1])
        ks.update(a_deg=a["deg"][2], ct_deg=a["deg"][3])
        kz.update(z_deg=a["deg"][4])
    pops = []
    for n in names(a):
        m = U.bspline_mass_prior(m_nsplines=a["nm"], q_nsplines=a["nq"], m_tau=a["mt"], q_tau=a["qt"], name=n, **km)
        s = U.bspline_spin_prior(a_nsplines=a["na"], ct_nsplines=a["nt"], a_tau=a["at"], ct_tau=a["tt"], name=n, IID=a["iid"], **ks)
        pops.append((m, s))
    zc = U.bspline_redshift_prior(z_nsplines=a["nz"], z_tau=a["zt"], name=names(a)[0] if a["named"] else None, **kz)
    lamb = npr.sample("lamb", dist.Normal(0, 3))
    mag, tilt = M["spin"]

    def weights(x, flag):
        out = []
        for (mc, qc), s in pops:
            p = M["mass"](mc, qc, pe_samples=flag)
            if a["iid"]:
                p = p * mag(s[0], pe_samples=flag) * tilt(s[1], pe_samples=flag)
            else:
                p = p * mag(s[0], s[2], pe_samples=flag) * tilt(s[1], s[3], pe_samples=flag)
            out.append(p * M["z"](x["redshift"], lamb, zc) / x["prior"])
        return out

    wp, wi = weights(pe, True), weights(inj, False)
    fr = FR if len(pops) > 1 else (1.0,)
    wp = [f * w for f, w in zip(fr, wp)]
    tp, ti = sum(wp), sum(f * w for f, w in zip(fr, wi))
    kw = {}
    if a["ppc"]:
        kw = dict(posterior_predictive_check=True, param_names=["mass_1", "redshift"], pedata=pe, injdata=inj, m2min=a["mmin"], m1min=a["mmin"], mmax=a["mmax"])
        if len(pops) > 1:
            kw.update(marginal_qs=True, indv_weights=wp)
    if a["log"]:
        tp, ti = jnp.log(tp), jnp.log(ti)
    return S["an"].hierarchical_likelihood(tp, ti, float(Ninj), Nobs, Tobs, surveyed_hypervolume=M["z"].normalization(lamb, zc), reconstruct_rate=a["rate"], marginalize_selection=a["marg"], min_neff_cut=a["neff"], log=a["log"], **kw)


FR = (0.35, 0.65)


def hypers(a, seed):
    rs = np.random.RandomState(seed & 0x7FFFFFFF)
    hv = {}

    def c(n, k, s):
        hv[n] = (rs.normal(0, s, k)).astype(np.float32)
    for n in names(a):
        x = "" if n is None else "_" + n
        c("mass_cs" + x, a["nm"], 1.5)
        c("q_cs" + x, a["nq"], 0.7)
        for t in ([""] if a["iid"] else ["1", "2"]):
            c(f"a{t}_cs" + x, a["na"], 0.6)
            c(f"tilt{t}_cs" + x, a["nt"], 0.6)
    c("z_cs" + ("_" + names(a)[0] if a["named"] else ""), a["nz"] - 1, 0.5)
    hv["lamb"] = np.float32(rs.normal(1, 2))
    if a["rate"]:
        hv["unscaled_rate"] = np.float32(rs.gamma(3.0) + 0.1)
    return hv


# ---------------------------------------------------------------------------------------------------------------- reference
def reference(a, dat, hv):
    """-> (sites, log likelihood, near, log prior, log weights)"""
    pe, inj, k = dat
    hv = {n: np.asarray(v, np.float64) for n, v in hv.items()}
    sig, deg = a["sig"] or [15, 5, 5, 5, 1], a["deg"] or [1, 1, 2, 2, 2]
    sm, sq = RefSpline("LogXLogY", a["nm"], (a["mmin"], a["mmax"])), RefSpline("LogY", a["nq"], (a["mmin"] / a["mmax"], 1.0))
    sa, st = RefSpline("LogY", a["na"], (0.0, 1.0)), RefSpline("LogY", a["nt"], (-1.0, 1.0))
    z0, z1 = pe["redshift"], inj["redshift"]
    lo, hi = max(z0.min(), z1.min()), min(z0.max(), z1.max())
    g = np.linspace(lo, hi, 1000)
    sz = RefSpline("LogX", a["nz"], (lo, hi), 4, False)
    zx = "_" + names(a)[0] if a["named"] else ""
    zc = np.concatenate([[0.0], hv["z_cs" + zx]])

    def pz(z):
        return LVK.dVcdz(z) * (1 + z) ** (hv["lamb"] - 1) * np.exp(sz(z, zc))
    vol = np.trapz(pz(g), g)
    edge = 0.0
    lw = []
    for x in (pe, inj):
        w = 0.0
        for i, n in enumerate(names(a)):
            s = "" if n is None else "_" + n
            one, two = ("", "") if a["iid"] else ("1", "2")
            p = sm(x["mass_1"], hv["mass_cs" + s]) * sq(x["mass_ratio"], hv["q_cs" + s])
            edge = max(edge, sm.edge, sq.edge)
            p = p * sa(x["a_1"], hv[f"a{one}_cs" + s]) * sa(x["a_2"], hv[f"a{two}_cs" + s]) * st(x["cos_tilt_1"], hv[f"tilt{one}_cs" + s]) * st(x["cos_tilt_2"], hv[f"tilt{two}_cs" + s])
            w = w + p * (FR[i] if a["pops"] > 1 else 1.0)
        w = w * np.where(x["redshift"] <= hi, pz(x["redshift"]), 0.0) / vol / x["prior"]
        with np.errstate(divide="ignore"):
            lw.append(np.log(w))
    o, ll, near = popcfg.likelihood(*lw, k["Ninj"], k["Nobs"], k["Tobs"], hv, vol, a["rate"], a["marg"], a["neff"], False)
    pr = gamma_logpdf(k["Nobs"], float(hv["unscaled_rate"])) if a["rate"] else 0.0
    pr += _n(hv["lamb"], 3.0)
    for n in names(a):
        s = "" if n is None else "_" + n
        for v, i, tau in [("mass_cs", 0, a["mt"]), ("q_cs", 1, a["qt"])] + [(f"{b}{t}_cs", i, tau) for t in ([""] if a["iid"] else ["1", "2"]) for b, i, tau in (("a", 2, a["at"]), ("tilt", 3, a["tt"]))]:
            c = hv[v + s]
            pr += _n(c, sig[i]) - 0.5 * tau * np.sum(np.diff(c, n=deg[i]) ** 2)
    pr += _n(hv["z_cs" + zx], sig[4]) - 0.5 * a["zt"] * np.sum(np.diff(zc, n=deg[4]) ** 2)
    return o, ll, near, float(pr), edge


def _n(x, s):
    x = np.asarray(x, np.float64)
    return float(np.sum(-0.5 * (x / s) ** 2 - np.log(s) - 0.5 * np.log(2 * np.pi)))


TOL = 6e-4          # single precision of one density integral


def compare(got, want, near, nobs, slack):
    """The sites of one evaluation against the reference -> '' or the first difference"""
    cut = ("selection_factor", "log_l", "neff_less_Nobs")
    for k, w in want.items():
        if k not in got:
            return f"site {k} is missing"
        g, w = np.asarray(got[k], np.float64), np.asarray(w, np.float64)
        if g.shape != w.shape:
            return f"{k}: shape {g.shape}, expected {w.shape}"
        if k in cut and near:
            continue
        for i in range(w.size):
            x, y = float(g.flat[i]), float(w.flat[i])
            if not np.isfinite(y):
                if k in cut and not x <= popcfg.NBIG:
                    return f"{k}[{i}] = {x!r} where the likelihood is cut"
                continue
            if k.startswith("variance"):
                tol = 3 * TOL * abs(y) * slack + 1e-5
            elif k in ("rate", "surveyed_hypervolume", "detection_efficiency", "unscaled_rate"):
                tol = TOL * slack * abs(y)
            else:
                tol = TOL * slack * (2 * nobs if k in cut else nobs if k.startswith("sum") else 1) + 3e-5 * abs(y)
            STAT[k] = max(STAT.get(k, 0.0), abs(x - y) / tol)
            if not abs(x - y) <= tol:
                return f"{k}[{i}] = {x!r}, expected {y!r}"
    return ""


STAT = {}


# ---------------------------------------------------------------------------------------------------------------- execution
class Boom(RuntimeError):
    pass


def execute(plan, ctx):
    r = Result()
    S = ctx.state
    d0 = ctx.fresh_dir()
    paths = []
    for i, d in enumerate(plan["data"]):
        p = os.path.join(d0, f"d{i}.h5")
        write(S, p, d, plan["pool"])
        paths.append(p)
    loaded, models, used = {}, {}, set()

    def load(i, ignore, m):
        st, v, exc = util.attempt(r, lambda: S["ut"].load_pe_and_injections_as_dict(paths[i], ignore=ignore), m)
        r.ev("load", i, st)
        if st == "raised" and not exc:
            r.fail("raised", f"loading the data: {type(v).__name__}: {str(v)[:300]}")
            return False
        if st == "ok":
            w = wanted(plan["data"][i], plan["pool"], ignore)
            loaded[i] = (v, w)
            for k in [k for k in models if k[1] == i]:
                del models[k]
        return True

    for n, op in enumerate(plan["ops"]):
        a = plan["pool"][op["a"]]
        i = op["d"]
        r.ops += 1
        who = f"op{n} {op['op']} (analysis {op['a']}, data {i})"
        if op["op"] == "load":
            if not load(i, op["ignore"], op["m"]):
                return r
            continue
        if i not in loaded and not load(i, None, {"kind": "plain"}):
            return r
        (pe, inj, const, _), want = loaded[i]
        key = (op["a"], i)
        if op["op"] == "setup" or key not in models:
            st, v, exc = util.attempt(r, lambda: build(S, a, pe, inj), op["m"] if op["op"] == "setup" else {"kind": "plain"})
            r.ev(n, "setup", st)
            if st == "raised" and not exc:
                r.fail("raised", f"{who}: setting up the models: {type(v).__name__}: {str(v)[:300]}")
                return r
            if st == "ok":
                models[key] = v
            if op["op"] == "setup":
                continue
        M = models[key]
        args = (pe, inj, const["total_inj"], const["nObs"], const["obs_time"], S, a, M)
        hv = hypers(a, plan["hs"] + 7919 * op["h"])
        if op["op"] == "fail":
            failing(S, op, args, hv)
            r.ev(n, "fail", op["how"])
            r.fault({"failed_evaluation": 1})
            continue
        used.add(key)
        if len(used) > 1:
            r.nontrivial = True
        if op["op"] == "mcmc":
            if not sample(r, who, S, args, want, a, plan["hs"] + op["h"]):
                return r
            continue
        o, ll, near, pr, edge = reference(a, want, hv)
        slack = 1.0 + 4 * edge / TOL
        if edge > 3e-3:
            r.probe("edge_dominated")
        nobs = want[2]["Nobs"]
        scale = float(np.sum(np.abs(o["logBFs"][np.isfinite(o["logBFs"])]))) + (abs(o["selection_factor"]) if np.isfinite(o["selection_factor"]) else 0)
        if op["op"] in ("jit", "grad"):
            f = lambda h: S["log_density"](S["handlers"].seed(model, S["jax"].random.PRNGKey(0)), args, {}, h)[0]  # noqa: E731
            try:
                v = S["jax"].jit(f)(hv) if op["op"] == "jit" else S["jax"].value_and_grad(f)({k: S["jax"].numpy.asarray(x) for k, x in hv.items()})[0]
                v = float(v)
            except Exception as e:  # noqa: BLE001
                r.fail("raised", f"{who}: {type(e).__name__}: {str(e)[:300]}")
                return r
            r.probe(op["op"])
            r.nontrivial = True
        else:
            box = {}

            def go():
                H = S["handlers"]
                with H.seed(rng_seed=0), H.trace() as tr, H.substitute(data=dict(hv)):
                    box["ret"] = model(*args)
                return tr
            st, tr, exc = util.attempt(r, go, op["m"])
            S["numpyro"].primitives._PYRO_STACK.clear()
            r.ev(n, "eval", st)
            if st == "interrupted" or (st == "raised" and exc):
                continue
            if st == "raised":
                r.fail("raised", f"{who}: {type(tr).__name__}: {str(tr)[:300]}")
                return r
            r.probe("evaluations")
            sites = {k for k, s in tr.items() if s["type"] == "sample" and not s["is_observed"]}
            if sites != set(hv):
                r.fail("sites", f"{who}: sampled sites {sorted(sites)}, expected {sorted(hv)}")
                return r
            got = {k: s["value"] for k, s in tr.items() if s["type"] in ("deterministic", "sample")}
            d = compare(got, o, near, nobs, slack)
            if d:
                r.fail("derived", f"{who}: {d}")
                return r
            if a["rate"] and not abs(float(box["ret"]) - o["rate"]) <= TOL * slack * o["rate"]:
                r.fail("derived", f"{who}: returned rate {box['ret']!r}, expected {o['rate']!r}")
                return r
            if a["ppc"] and np.isfinite(o["sum_logBFs"]) and not predictive(r, who, got, want, a):
                return r
            v = joint(tr)
        r.ev(n, repr(v))
        if near:
            continue
        if not np.isfinite(ll):
            r.probe("cut_or_no_support")
            if not v <= popcfg.NBIG:
                r.fail("density", f"{who}: log joint density {v!r} although the likelihood is cut")
                return r
            continue
        tol = 2 * TOL * slack * nobs + 5e-5 * (scale + abs(pr)) + 2e-3
        STAT["joint"] = max(STAT.get("joint", 0), abs(v - pr - ll) / tol)
        if not abs(v - pr - ll) <= tol:
            r.fail("density", f"{who}: log joint density {v!r}, expected {pr + ll!r} (prior {pr!r}, likelihood {ll!r})")
            return r
    r.sig = ",".join(o["op"][0] + str(o["a"]) + str(o["d"]) for o in plan["ops"]) + ":" + r.digest()
    return r


def predictive(r, who, got, want, a):
    """Posterior-predictive values are values of one sample of that event (or one injection)."""
    pe, inj, k = want
    for e in range(k["Nobs"]):
        for kind, x in (("obs", {p: pe[p][e] for p in NAMES}), ("pred", inj)):
            v = [float(got[f"{p}_{kind}_event_{e}"]) for p in ("mass_1", "redshift")]
            if not np.any((x["mass_1"] == v[0]) & (x["redshift"] == v[1])):
                r.fail("predictive", f"{who}: {kind} values {v} of event {e} are not one of its samples")
                return False
        if a["pops"] > 1:
            t = sum(float(got[f"cat_frac_subpop_{i + 1}_event_{e}"]) for i in range(2))
            if not abs(t - 1) < 1e-4:
                r.fail("predictive", f"{who}: subpopulation fractions of event {e} add up to {t!r}")
                return False
    return True


def failing(S, op, args, hv):
    pe, inj = dict(args[0]), dict(args[1])
    a = args[6]
    if op["how"] == "missing":
        del inj["prior"]
    elif op["how"] == "shape":
        inj["redshift"] = inj["redshift"][:7]
    elif op["how"] == "nsplines":
        a = dict(a, nm=a["nm"] + 1)
    else:
        class D(dict):
            def __getitem__(self, k):
                if k == "prior":
                    raise Boom("data source failed")
                return dict.__getitem__(self, k)
        inj = D(inj)
    try:
        H = S["handlers"]
        with H.seed(rng_seed=0), H.trace(), H.substitute(data=dict(hv)):
            model(pe, inj, *args[2:6], a, args[7])
    except Exception:  # noqa: BLE001
        pass
    S["numpyro"].primitives._PYRO_STACK.clear()


def sample(r, who, S, args, want, a, seed):
    """A few steps of the real sampler; every state it records must be an evaluation of the posterior."""
    import functools

    from numpyro.infer import MCMC, NUTS

    try:
        mc = MCMC(NUTS(functools.partial(model, S=S, a=a, M=args[7]), max_tree_depth=2), num_warmup=2, num_samples=3, progress_bar=False)
        mc.run(S["jax"].random.PRNGKey(seed), *args[:5])
        got = {k: np.asarray(v) for k, v in mc.get_samples().items()}
    except Exception as e:  # noqa: BLE001
        if "Cannot find valid initial parameters" in str(e):
            r.ev("mcmc", "no start")
            return True
        r.fail("raised", f"{who}: {type(e).__name__}: {str(e)[:300]}")
        return False
    r.probe("sampler_states", 3)
    r.nontrivial = True
    names_ = list(hypers(a, 0))
    for j in range(3):
        hv = {n: got[n][j] for n in names_}
        if max(float(np.max(np.abs(v))) for n, v in hv.items() if n != "unscaled_rate") > 12:
            r.probe("extreme_state")      # single precision cannot represent the weights
            continue
        o, _, near, _, edge = reference(a, want, hv)
        if not np.min(o["logBFs"]) > -30 or not o["detection_efficiency"] > 1e-12:
            r.probe("extreme_state")
            continue
        d = compare({k: v[j] for k, v in got.items()}, o, near, want[2]["Nobs"], 1.0 + 4 * edge / TOL)
        if d:
            r.fail("derived", f"{who}: state {j} of the sampler: {d}")
            return False
    r.ev("mcmc", [repr(float(x)) for x in got["log_l"]])
    return True
