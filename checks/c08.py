"""C08 no public operation modifies data the caller passed in, whether it returns, raises or is interrupted."""
import hashlib
import inspect
import os
import pkgutil

import numpy as np

from checks import catalog, data, popcfg, util
from checks import models as M
from checks.c11_child import digest
from sim.core import Result, list_shrinks

PROPERTY = "C08"
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded histories of public operations on caller-owned mutable data with interrupts, failed allocations, disk faults and failing calls; bitwise snapshots of every input and default argument"
NOTE = "Every input (arrays, containers, datasets, model tables) and every default argument of the package is compared bit by bit after each call; repeated calls must agree."
RULE = "episode in which an interrupt, failed allocation, disk fault or failing call really happened, or a call was repeated on the same inputs"
REAL = ["the public functions, methods and model classes of all gwinferno modules, on numpy-backed inputs", "xarray, HDF5, numpyro, jax on CPU"]
STUB = ["asynchronous interrupts and failed allocations at package bytecodes", "libc file operations below the scratch directory"]
ASSUMPTIONS = ["the caller does not hand the same object to two calls at once; the target file of a save and the figures of a plot are outputs, not inputs"]
TIERS = {"quick": {"sessions": 8, "episodes": 90, "budget_s": 90}, "thorough": {"sessions": 48, "episodes": 900, "budget_s": 280}}


# ------------------------------------------------------------------------------------------------------------------ snapshots
def snap(o, depth=0):
    """A comparable picture of everything reachable through containers; arrays bit by bit."""
    import xarray as xr

    if depth > 12:
        return "..."
    if isinstance(o, xr.Dataset):
        return ("Dataset", [(str(k), snap(v, depth + 1)) for k, v in o.variables.items()], snap(dict(o.attrs), depth + 1), sorted(map(str, o.coords)))
    if isinstance(o, xr.DataArray):
        return ("DataArray", o.name, snap(o.variable, depth + 1), [(str(k), snap(v.variable, depth + 1)) for k, v in o.coords.items()])
    if isinstance(o, xr.Variable):
        return ("Variable", list(map(str, o.dims)), snap(np.asarray(o.values)), snap(dict(o.attrs), depth + 1))
    if isinstance(o, dict):
        return ("dict", type(o).__name__, [(repr(k), snap(v, depth + 1)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [snap(v, depth + 1) for v in o])
    if isinstance(o, (set, frozenset)):
        return ("set", sorted(map(repr, o)))
    if isinstance(o, (str, bytes, bool, int, float, complex, type(None))):
        return (type(o).__name__, repr(o))
    if isinstance(o, np.ndarray):
        b = o.tobytes() if o.dtype != object else repr(o.tolist()).encode()
        return ("ndarray", o.shape, str(o.dtype), bool(o.flags.writeable), hashlib.sha256(b).hexdigest()[:16])
    if type(o).__module__.startswith("jax") and hasattr(o, "shape"):
        return ("jax", snap(np.asarray(o)))
    if callable(o) or inspect.ismodule(o):
        return ("callable", getattr(o, "__qualname__", type(o).__name__))
    if type(o).__module__.startswith("gwinferno") and hasattr(o, "__dict__"):
        return (type(o).__name__, [(k, snap(v, depth + 1)) for k, v in sorted(vars(o).items())])
    return ("opaque", type(o).__name__)


def where(a, b, path=""):
    """The first place where two snapshots differ."""
    if a == b:
        return None
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            w = where(x, y, f"{path}/{x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i}")
            if w:
                return w
    return f"{path}: {str(a)[:120]} became {str(b)[:120]}"


def package_functions():
    """Every function and method of the package: {qualified name: function}"""
    import importlib

    import gwinferno

    out = {}
    for mi in pkgutil.walk_packages(gwinferno.__path__, "gwinferno."):
        if "test" in mi.name:
            continue
        mod = importlib.import_module(mi.name)
        for n, o in list(vars(mod).items()):
            if inspect.isclass(o) and o.__module__ == mod.__name__:
                for k, f in list(vars(o).items()):
                    f = getattr(f, "__func__", f)
                    if inspect.isfunction(f):
                        out[f"{mod.__name__}.{n}.{k}"] = f
            else:
                f = inspect.unwrap(o) if callable(o) else None
                if inspect.isfunction(f) and f.__module__ == mod.__name__:
                    out[f"{mod.__name__}.{n}"] = f
    return out


def defaults(fs):
    return {k: (snap(f.__defaults__), snap(f.__kwdefaults__)) for k, f in fs.items()}


# ------------------------------------------------------------------------------------------------------------------ operations
# each: (D, S, dir) -> (inputs by name, call(inputs) -> result, options); options: rand (uses the legacy generator), nobad, io, np (numpyro evaluation)
OPS = {}


def op(weight=1.0, **kw):
    def reg(f):
        OPS[f.__name__[2:]] = (f, weight, kw)
        return f
    return reg


def spins(D, n=None):
    s = D.pick([(6,), (2, 5), (1,)]) if n is None else n
    u = D.r.uniform
    return {"q": u(0.2, 1, s), "a1": u(0.05, 0.95, s), "a2": u(0.05, 0.95, s), "ct1": u(-0.95, 0.95, s), "ct2": u(-0.95, 0.95, s)}


@op(1.5)
def o_chieff(D, S, d):
    return spins(D), lambda a: S["cv"].chieff_from_q_component_spins(a["q"], a["a1"], a["a2"], a["ct1"], a["ct2"])


@op(1.5)
def o_chip(D, S, d):
    return spins(D), lambda a: S["cv"].chip_from_q_component_spins(a["q"], a["a1"], a["a2"], a["ct1"], a["ct2"])


@op(1)
def o_beta_pars(D, S, d):
    al, be = D.r.uniform(1, 5, 4), D.r.uniform(1, 5, 4)
    x = D.pick([1, 0.8])
    return {"al": al, "be": be}, lambda a: (S["cv"].mu_var_from_alpha_beta(a["al"], a["be"], x), S["cv"].alpha_beta_from_mu_var(a["al"] / 20, a["be"] / 200, x))


@op(1.5)
def o_chieff_prior(D, S, d):
    n = D.pick([1, 5])
    a = {"c": D.r.uniform(-0.6, 0.6, n), "q": D.r.uniform(0.2, 0.95, n)}
    return a, lambda a: (S["pr"].chi_effective_prior_from_isotropic_spins(a["c"], a["q"]), S["pr"].chi_effective_prior_from_aligned_spins(a["c"], a["q"]), S["pr"].chi_p_prior_from_isotropic_spins(np.abs(a["c"]), a["q"]))


@op(1)
def o_chip_iso(D, S, d):
    a = {"c": D.r.uniform(0, 1, 5), "q": float(D.u(0.2, 0.95))}
    return a, lambda a: S["pr"].chi_p_prior_from_isotropic_spins(a["c"], a["q"])


@op(0.7, rand=True, nobad=True)
def o_joint(D, S, d):
    n = 3
    a = {"p": D.r.uniform(0.1, 0.7, n), "c": D.r.uniform(-0.3, 0.3, n), "q": D.r.uniform(0.3, 0.95, n), "kw": {"ndraws": 300}}
    return a, lambda a: S["pr"].joint_prior_from_isotropic_spins(a["p"], a["c"], a["q"], **a["kw"])


@op(1.5)
def o_cosmo(D, S, d):
    z = D.r.uniform(0.01, D.pick([1.0, 3.0, 12.0]), D.pick([(5,), (2, 3)]))
    a = {"z": z, "dl": S["cosmo"].z2DL(z) * 1.0 if D.chance(0.5) else D.r.uniform(100, 5000, 4)}
    a["dl"] = np.array(a["dl"])
    c = S["cosmo"]
    f = D.pick(["z2Dc", "z2DL", "dVcdz", "logdVcdz", "DL2z", "dDcdz", "prior"])
    if f == "DL2z":
        return a, lambda a: c.DL2z(a["dl"])
    if f == "prior":
        return a, lambda a: (S["dc"].dl_2_prior_on_z(a["z"]), S["dc"].dl_2_prior_on_z(a["z"], euclidean=True))
    return a, lambda a: getattr(c, f)(a["z"])


# ---------------------------------------------------------------------------------------------------------------- catalogues
def pe_files(D, S, d, n=2):
    import random

    rng = random.Random(int(D.r.randint(1 << 30)))
    meta, cfgs = {}, {}
    for j in range(n):
        c = catalog.pe_cfg(rng, n=rng.choice([5, 9, 23]))
        p = os.path.join(d, f"ev{j}.h5")
        catalog.write_pe(p, c, M.LVK)
        meta[f"GW{j}"] = {"file_path": p, "waveform": c["wf"], "redshift_prior": c["zp"], "catalog": c["cat"]}
        cfgs[f"GW{j}"] = c
    return meta, cfgs


def pnames(D, chieff=True):
    pn = D.pick([["mass_1", "mass_ratio", "redshift"], ["redshift", "mass_1"], ["mass_2", "mass_1", "a_1", "cos_tilt_1", "a_2", "cos_tilt_2", "redshift"]] + ([["mass_1", "mass_ratio", "redshift", "chi_eff"], ["redshift", "chi_eff", "mass_2", "mass_ratio", "mass_1"], ["mass_1", "mass_2", "chi_eff", "redshift"]] if chieff else []))
    return list(pn)


@op(1.5, rand=True, io=True)
def o_load_pe(D, S, d):
    meta, _ = pe_files(D, S, d)
    a = {"meta": meta, "pn": pnames(D)}
    dflt = D.chance(0.3)
    return a, lambda a: S["dc"].load_posterior_dataset(catalog_metadata=a["meta"]) if dflt else S["dc"].load_posterior_dataset(maximum_mass=80.0, catalog_metadata=a["meta"], param_names=a["pn"])


@op(1, io=True)
def o_unprocessed(D, S, d):
    meta, _ = pe_files(D, S, d)
    return {"meta": meta}, lambda a: S["dc"].unprocessed_catalog_dict_from_metadata(a["meta"])


@op(1.5, rand=True)
def o_processed(D, S, d):
    meta, _ = pe_files(D, S, d)
    a = {"cat": S["dc"].unprocessed_catalog_dict_from_metadata(meta)}
    return a, lambda a: S["dc"].processed_catalog_dataset_from_dict(a["cat"], mmax=60.0)


@op(2)
def o_append_prior(D, S, d):
    meta, _ = pe_files(D, S, d)
    np.random.seed(3)
    a = {"ds": S["dc"].processed_catalog_dataset_from_dict(S["dc"].unprocessed_catalog_dict_from_metadata(meta)), "pn": pnames(D)}
    return a, lambda a: S["dc"].append_prior_to_processed_catalog(a["ds"], a["pn"])


@op(2, rand=True, nobad=True)
def o_convert(D, S, d):
    import xarray as xr

    inj = D.chance(0.5)
    names = ["mass_1", "mass_2", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2", "prior"]
    s = (len(names), 5) if inj else (2, len(names), 4)
    v = D.r.uniform(0.1, 0.9, s)
    if inj:
        da = xr.DataArray(v, dims=["param", "injection"], coords={"param": names, "injection": np.arange(5)}, attrs={"total_generated": 1000, "analysis_time": 0.5})
    else:
        da = xr.DataArray(v, dims=["event", "param", "samples"], coords={"event": ["a", "b"], "param": names, "samples": np.arange(4)})
    a = {"da": da, "pn": ["mass_1", "mass_ratio", "redshift", "chi_eff"]}
    return a, lambda a: S["dc"].convert_component_spins_to_chieff(a["da"], a["pn"], injections=inj)


@op(2, rand=True, io=True)
def o_load_inj(D, S, d):
    import random

    c = catalog.inj_cfg(random.Random(int(D.r.randint(1 << 30))), n=D.pick([4, 12]))
    c.update(missing=None, inplane=True)
    p = os.path.join(d, "inj.h5")
    catalog.write_inj(p, c)
    a = {"pn": pnames(D), "cuts": {k: 15.0 for k in c["extra"]} if not c["o4"] else None}
    if D.chance(0.4) and "chi_eff" not in a["pn"]:
        f = S["sel"].get_o4a_cumulative_injection_dict if c["o4"] else S["sel"].get_o3_cumulative_injection_dict
        return a, lambda a: f(p, a["pn"]) if c["o4"] else f(p, a["pn"], additional_cuts=a["cuts"])
    return a, lambda a: S["dc"].load_injection_dataset(p, a["pn"], through_o4a=c["o4"], additional_cuts=a["cuts"])


@op(1.5, io=True)
def o_save(D, S, d):
    import random

    c = data.cfg(random.Random(int(D.r.randint(1 << 30))))
    pe, inj = data.make(c)
    p = os.path.join(d, "data.h5")
    return {"pe": pe, "inj": inj}, lambda a: S["dc"].save_posterior_samples_and_injection_datasets_as_idata(p, a["pe"], a["inj"])


@op(1.5, io=True)
def o_load(D, S, d):
    import random

    c = data.cfg(random.Random(int(D.r.randint(1 << 30))))
    c["special"] = False
    p = os.path.join(d, "data.h5")
    S["dc"].save_posterior_samples_and_injection_datasets_as_idata(p, *data.make(c))
    return {"ignore": D.pick([None, [c["ev"][0]], ["nothing"], list(c["ev"])])}, lambda a: S["ut"].load_pe_and_injections_as_dict(p, ignore=a["ignore"])


@op(2)
def o_resample(D, S, d):
    import jax
    import jax.numpy as jnp

    a = {"inj": jnp.asarray(D.r.uniform(1, 9, (3, 12)).astype(np.float32)), "pm": {"mass_1": 0, "prior": 2, "mass_ratio": 1}, "kw": {"alpha": -2.0}}
    f = lambda x, alpha=0.0: x[0] ** alpha  # noqa: E731
    return a, lambda a: S["sel"].resample_injections(jax.random.PRNGKey(4), f, a["inj"], 1000, a["pm"], **a["kw"])


# -------------------------------------------------------------------------------------------------------------------- pipeline
def trace(S, f):
    H = S["handlers"]
    with H.seed(rng_seed=3), H.trace() as tr:
        ret = f()
    return [ret if ret is None or hasattr(ret, "shape") else None, {k: s["value"] for k, s in tr.items() if s["type"] in ("sample", "deterministic") and s["value"] is not None}]


@op(1.5)
def o_bayes_factors(D, S, d):
    a = {"w": D.r.uniform(0.1, 3, (2, 6)).astype(np.float32), "wi": D.r.uniform(0.1, 3, 9).astype(np.float32)}
    lg = bool(D.chance(0.5))
    return a, lambda a: (S["an"].per_event_log_bayes_factors(a["w"], log=lg), S["an"].detection_efficiency(a["wi"], 100, log=lg))


@op(3, np=True)
def o_likelihood(D, S, d):
    no, ns, ni = 2, 6, 40
    u = lambda *s: D.r.uniform(0.5, 2, s).astype(np.float32)  # noqa: E731
    cat = D.chance(0.3)
    a = {"w": u(2, no, ns) if cat else u(no, ns), "wi": u(ni), "kw": {"surveyed_hypervolume": 2e9, "log": bool(D.chance(0.5))}}
    kw = a["kw"]
    if cat:
        kw.update(categorical=True, pop_frac=D.pick([(0.3, 0.7), [0.5, 0.5], np.array([0.2, 0.8])]))
    elif D.chance(0.8):
        pe = {"mass_1": 20 * u(no, ns), "mass_ratio": 0.4 * u(no, ns), "a_1": u(no, ns)}
        inj = {"mass_1": 20 * u(ni), "mass_ratio": 0.4 * u(ni), "a_1": u(ni)}
        kw.update(posterior_predictive_check=True, param_names=["mass_1", "a_1"], pedata=pe, injdata=inj, m1min=12.0)
        if D.chance(0.5):
            kw.update(marginal_qs=True, indv_weights=[a["w"] * 0.5, a["w"] * 0.25])
    if D.chance(0.5):
        kw["marginalize_selection"] = True
    return a, lambda a: trace(S, lambda: S["an"].hierarchical_likelihood(a["w"], a["wi"], 50, no, 1.0, **a["kw"]))


@op(3, np=True)
def o_model(D, S, d):
    import random

    from checks import c06

    rng = random.Random(int(D.r.randint(1 << 30)))
    c = popcfg.config(rng)
    c["kw"]["posterior_predictive_check"] = rng.random() < 0.4
    models, priors = c06.direct(S["parser"], c)
    for k, v in priors.items():       # plain numpy values, as a user may pass
        if hasattr(v, "params"):
            v.params = {a: (np.array(b) if hasattr(b, "shape") else b) for a, b in v.params.items()}
    dd = {"nobs": 2, "ns": 6, "ninj": 40, "mult": 5, "tobs": 1.0, "seed": rng.randrange(1 << 30)}
    pe, inj, k = popcfg.data(dd)
    if D.chance(0.5) and "mass_1" in pe:
        pass
    a = {"models": models, "priors": priors, "kw": c["kw"], "pe": pe, "inj": inj}

    def call(a):
        m = S["an"].construct_hierarchical_model(a["models"], a["priors"], **a["kw"])
        return trace(S, lambda: m(a["pe"], a["inj"], k["Ninj"], k["Nobs"], k["Tobs"]))
    return a, call


@op(0.12, np=True, nobad=True)
def o_find_map(D, S, d):
    import jax
    import numpyro
    import numpyro.distributions as dist

    a = {"x": D.r.uniform(0, 1, 5).astype(np.float32), "d": {"y": D.r.uniform(0, 1, 5).astype(np.float32)}}

    def model(x, dd):
        s = numpyro.sample("s", dist.Normal(0, 1))
        numpyro.factor("f", -((x.sum() + dd["y"].sum() - s) ** 2))
    return a, lambda a: {k: v for k, v in S["an"].find_map(jax.random.PRNGKey(1), model, a["x"], a["d"], Niter=3).items()}


@op(3)
def o_config(D, S, d):
    import random

    from checks import c14

    rng = random.Random(int(D.r.randint(1 << 30)))
    while True:
        y = c14.config(rng)
        if "python_file" not in y["models"]:
            break
    what = D.pick(["dicts", "each", "parse"])
    path = os.path.join(d, "c.yml")
    import yaml

    with open(path, "w") as f:
        yaml.safe_dump(y, f, sort_keys=False)

    def call(a):
        rd = S["parser"].ConfigReader()
        if what == "dicts":
            rd.construct_model_and_prior_dicts(a["models"])
        elif what == "parse":
            rd.parse(path)
        else:
            for p, m in a["models"].items():
                (rd.add_mixture_model if "mixture_dist" in m else rd.add_model)(p, m)
        return {"s": list(rd.sampling_params), "p": {k: ({x: v.params[x] for x in v.params} if hasattr(v, "params") else v) for k, v in rd.priors.items()}, "m": list(rd.models)}
    return {"models": y["models"]}, call


@op(1.5, np=True)
def o_spline_priors(D, S, d):
    k = D.pick(["mass", "spin", "spin_iid", "z"])
    a = {"tau": D.pick([2.0, np.float32(3.0)])}
    U = S["ut"]
    f = {"mass": lambda a: U.bspline_mass_prior(m_nsplines=6, q_nsplines=5, m_tau=a["tau"], name="x"), "spin": lambda a: U.bspline_spin_prior(a_nsplines=6, ct_nsplines=5, a_tau=a["tau"], ct_tau=a["tau"]),
         "spin_iid": lambda a: U.bspline_spin_prior(a_nsplines=6, ct_nsplines=5, a_tau=a["tau"], ct_tau=a["tau"], IID=True), "z": lambda a: U.bspline_redshift_prior(z_nsplines=6, z_tau=a["tau"])}[k]
    return a, lambda a: trace(S, lambda: (f(a), None)[1])


@op(1.2)
def o_setup_models(D, S, d):
    k = D.pick(["mass", "iid", "ind", "z"])
    pe, inj, _ = popcfg.data({"nobs": 2, "ns": 5, "ninj": 7, "mult": 2, "tobs": 1.0, "seed": int(D.r.randint(1 << 30))})
    dt = D.pick(["f4", "f8"])
    a = {"pe": {x: v.astype(dt) for x, v in pe.items()}, "inj": {x: v.astype(dt) for x, v in inj.items()}, "c": D.r.normal(0, 1, 6).astype(np.float32)}
    U = S["ut"]

    def call(a):
        if k == "mass":
            m = U.setup_bspline_mass_models(a["pe"], a["inj"], 6, 6, 3.0, 100.0)
            return m(a["c"], a["c"], pe_samples=True), m(a["c"], a["c"], pe_samples=False)
        if k == "z":
            m = U.setup_powerlaw_spline_redshift_model(a["pe"], a["inj"], 6)
            return m(a["pe"]["redshift"], 2.0, a["c"][:6]), m(a["inj"]["redshift"], 2.0, a["c"][:6])
        mag, tilt = U.setup_bspline_spin_models(a["pe"], a["inj"], 6, 6, IID=k == "iid", a2_nsplines=6, ct2_nsplines=6)
        cs = (a["c"],) if k == "iid" else (a["c"], a["c"])
        return mag(*cs, pe_samples=True), tilt(*cs, pe_samples=False)
    return a, call


@op(2)
def o_smoothing(D, S, d):
    a = {"c": D.r.normal(0, 1, D.pick([5, 9])), "w": D.u(0.5, 3)}
    g = D.pick([1, 2])
    return a, lambda a: S["smoothing"].apply_difference_prior(a["c"], a["w"], degree=g)


# ----------------------------------------------------------------------------------------------------------------------- models
@op(10)
def o_family(D, S, d):
    names = [n for n in M.FAMILIES if n not in M.SLOW or D.chance(0.1)]
    fam = M.family({"fam": names[D.r.randint(len(names))], "s": int(D.r.randint(1 << 28))})
    fam.resolve(S)
    hv = fam.hyper(D)
    built = {}
    fresh = D.chance(0.4)

    def call(a):
        if fresh or "m" not in built:
            built["m"] = fam.build(S)
        return fam.call(S, built["m"], a["h"], True), fam.call(S, built["m"], a["h"], False)
    return {"own": fam.inputs(), "h": hv}, call, {"nobad": False, "name": fam.__class__.__name__}


@op(3)
def o_basis(D, S, d):
    kind = D.pick(list(M.KIND))
    n = D.pick([6, 9])
    xr = (0.1, 5.0)
    a = {"x": D.r.uniform(0.11, 4.9, 12), "y": D.r.uniform(0.5, 2, 12), "c": D.r.uniform(0.1, 1, n)}
    if D.chance(0.4):
        t = np.cumsum(D.r.uniform(0.5, 1.5, n + 4))
        lo, hi = np.log(xr) if kind.startswith("LogX") else xr
        t = lo + (t - t[3]) / (t[n] - t[3]) * (hi - lo)
        a["knots"] = np.exp(t) if kind.startswith("LogX") else t
    elif D.chance(0.3):
        a["interior"] = np.linspace(*xr, n - 2)
    k = D.pick(["bases", "project", "eval", "call", "norm", "coef"])

    def call(a):
        kw = {"knots": a["knots"]} if "knots" in a else {"interior_knots": a["interior"]} if "interior" in a else {}
        s = getattr(S["interp"], M.KIND[kind])(n, xrange=xr, **kw)
        b = s.bases(a["x"])
        if k == "bases":
            return b
        if k == "project":
            return s.project(b, a["c"])
        if k == "norm":
            return s.norm(a["c"])
        if k == "coef":
            return s.get_coefficients(a["x"], a["y"])
        return s.eval(a["x"], a["c"]) if k == "eval" else s(a["x"], a["c"])
    return a, call


@op(2.5)
def o_densities(D, S, d):
    x = D.r.uniform(0.05, 1.2, D.pick([(7,), (2, 4)]))
    a = {"x": x, "lo": D.pick([0.1, np.full(x.shape, 0.1)]), "al": D.pick([2.0, -1.0, np.full(x.shape, 1.5)])}
    F = S["dist"]
    k = D.pick(["powerlaw_pdf", "truncnorm_pdf", "betadist", "powerlaw_logit_pdf", "logistic_unit", "log_logistic_unit", "smooth", "logistic"])
    f = {"powerlaw_pdf": lambda a: F.powerlaw_pdf(a["x"], a["al"], a["lo"], 1.0), "truncnorm_pdf": lambda a: F.truncnorm_pdf(a["x"], 0.5, 0.3, a["lo"], 1.0), "betadist": lambda a: F.betadist(a["x"], 2.0, 3.0),
         "powerlaw_logit_pdf": lambda a: F.powerlaw_logit_pdf(a["x"], a["al"], a["lo"], 1.0), "logistic_unit": lambda a: F.logistic_unit(a["x"], a["lo"]), "log_logistic_unit": lambda a: F.log_logistic_unit(a["x"], a["lo"]),
         "smooth": lambda a: F.smooth(0.2, a["x"], a["lo"]), "logistic": lambda a: F.logistic_function(a["x"], 1.0, 2.0, a["lo"])}[k]
    return a, f


@op(3)
def o_distribution(D, S, d):
    import jax

    N = S["nd"]
    k = D.pick(["Sine", "Cosine", "Powerlaw", "PowerlawRedshift", "PowerlawSmoothedPowerlaw", "BSplineDistribution", "PSpline", "Powerlaws"])
    a = {"v": D.r.uniform(0.11, 0.9, 6).astype(np.float32), "key": np.asarray(jax.random.PRNGKey(3))}
    if k == "PowerlawRedshift":
        z = np.linspace(1e-9, 1.5, 60)
        a.update(z=z, dv=np.array(S["cosmo"].dVcdz(z)))
        mk = lambda a: N.PowerlawRedshift(2.0, 1.5, a["z"], a["dv"])  # noqa: E731
    elif k == "BSplineDistribution":
        g = np.linspace(0, 1, 50)
        a.update(g=g, dm=np.array(S["interp"].LogYBSpline(7, xrange=(0, 1), normalize=False).bases(g)), cs=D.r.normal(0, 1, 7))
        mk = lambda a: N.BSplineDistribution(0.0, 1.0, a["cs"], a["g"], a["dm"])  # noqa: E731
    elif k == "Powerlaws":
        a.update(al=D.r.uniform(-3, 3, 6), lo=np.full(6, 0.1), hi=np.full(6, 1.0))
        mk = lambda a: N.Powerlaw(a["al"], a["lo"], a["hi"])  # noqa: E731
    elif k == "PSpline":
        a.update(v=D.r.normal(0, 1, 6))
        mk = lambda a: N.PSplineCoeficientPrior(6, 2.0)  # noqa: E731
    elif k == "PowerlawSmoothedPowerlaw":
        mk = lambda a: N.PowerlawSmoothedPowerlaw(-2.0, 0.2, 0.7, 3.0, 2.0, 0.05, 1.0)  # noqa: E731
    else:
        mk = lambda a: getattr(N, k)(*((-2.0, 0.1, 1.0) if k == "Powerlaw" else ()))  # noqa: E731
    do = D.pick(["log_prob", "log_prob", "sample", "cdf", "icdf"])
    if k in ("PSpline", "PowerlawSmoothedPowerlaw"):
        do = "log_prob"

    def call(a):
        m = mk(a)
        return m.sample(a["key"], (4,)) if do == "sample" else getattr(m, do)(a["v"])
    return a, call


# ------------------------------------------------------------------------------------------------------------------- post-processing
@op(2)
def o_export(D, S, d):
    from checks import c13

    o = {"s": int(D.r.randint(1 << 28))}
    if D.chance(0.5):
        return {"p": c13.post_case(o)}, lambda a: S["ut"].posterior_dict_to_xarray(a["p"])
    p, g, n, names = c13.pdf_case(o)
    return {"p": p, "g": g, "names": names}, lambda a: S["ut"].pdf_dict_to_xarray(a["p"], a["g"], n, **({} if a["names"] is None else {"subpop_names": a["names"]}))


@op(1.5, nobad=True)
def o_ppd(D, S, d):
    from checks import c13

    inp, fn, _ = c13._curves(S, {"s": int(D.r.randint(1 << 28)), "kind": D.pick(["beta", "iso", "iid", "ind", "plz", "plsz", "plpeak"])})
    return {"all": inp}, lambda a: list(fn())


@op(1.6, nobad=True, io=True, noresult=True)
def o_plot(D, S, d):
    from checks import c13

    kind = D.pick(["mass", "spin", "spin2", "z", "pdf", "colors", "colors"])
    if kind == "colors":
        # the caller's own lists; an axis with more populations than names or colours is an error the caller may make
        k, g = D.pick([1, 2, 4]), 5
        a = {"x": np.linspace(0.1, 1, g), "y": np.linspace(0.1, 0.9, g), "p": np.exp(D.r.normal(size=(k, 2, g))), "q": np.exp(D.r.normal(size=(k, 2, g))), "names": list("abcd")[: D.pick([k, k, k - 1])], "kw": {}}
        if D.chance(0.6):
            a["kw"]["colors"] = ["red", "k", "C2", "b"][: D.pick([k, k, k + 1, k - 1])]
        if D.chance(0.3):
            a["p"], a["q"] = list(a["p"]), list(a["q"])
        f = D.pick(["plot_mass_pdfs", "plot_spin_pdfs"])

        def call(a):
            try:
                getattr(S["plot"], f)(a["p"], a["q"], a["x"], a["y"], a["names"], "l", d, **a["kw"])
            finally:
                S["plt"].close("all")
        ok = len(a["names"]) >= k and len(a["kw"].get("colors", "rgb")) >= k
        return a, call, {"mayraise": not ok}
    inp, fn, _ = c13._plots(S, {"s": int(D.r.randint(1 << 28)), "kind": kind}, d)

    def call(a):
        try:
            fn()
        finally:
            S["plt"].close("all")
    return {"all": inp}, call


# ------------------------------------------------------------------------------------------------------------------ plans
def generate(rng, tier, sconf):
    names = list(OPS)
    W = [OPS[n][1] for n in names]
    ops = []
    for _ in range(rng.randint(4, 9)):
        n = rng.choices(names, W)[0]
        o = {"op": n, "s": rng.randrange(1 << 28), "bad": rng.random() < 0.4, "bs": rng.randrange(1 << 20)}
        rdf = _io_faults if n in ("save", "plot") else None
        o["m"] = util.mode(rng, (3, 2 if OPS[n][2].get("io") else 0, 3), rdf, top=3.0)
        o["again"] = rng.random() < 0.6
        ops.append(o)
        if rng.random() < 0.2:
            ops.append(dict(o, m={"kind": "plain"}, bad=False))
    return {"ops": ops}


def _io_faults(rng):
    return [{"cls": "open", "nth": rng.randint(1, 3), "act": "err", "err": rng.choice(["EACCES", "EMFILE", "ENOSPC"])}]


def shrinks(plan):
    yield from list_shrinks(plan, ["ops"])
    yield from util.mode_shrinks(plan)
    for i, o in enumerate(plan["ops"]):
        for k in ("bad", "again"):
            if o[k]:
                yield {"ops": plan["ops"][:i] + [dict(o, **{k: False})] + plan["ops"][i + 1:]}


def setup(ctx):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import numpyro
    from numpyro import handlers

    from gwinferno import cosmology, distributions, numpyro_distributions
    from gwinferno.models.bsplines import smoothing
    from gwinferno.pipeline import analysis, parser, utils
    from gwinferno.postprocess import calculations, plot
    from gwinferno.preprocess import conversions, data_collection, priors, selection

    S = ctx.state
    S.update(M.modules(), plt=plt, numpyro=numpyro, handlers=handlers, cosmo=cosmology.PLANCK_2015_LVK_Cosmology, dist=distributions, nd=numpyro_distributions, smoothing=smoothing, an=analysis, parser=parser, ut=utils,
             calc=calculations, plot=plot, cv=conversions, dc=data_collection, pr=priors, sel=selection)
    S["fs"] = package_functions()
    S["defaults"] = defaults(S["fs"])
    plt.figure()
    plt.savefig(os.path.join(ctx.scratch, "tmp", "w.png"))
    plt.close("all")


def spoil(a, seed):
    """The same inputs with one (sometimes two) of them made unusable; the others are the very same objects."""
    D = M.Draw(seed)
    out = _spoil(dict(a), D)
    return _spoil(out, D) if D.chance(0.2) else out


def _spoil(out, D):
    k = sorted(out)[D.r.randint(len(out))]
    v = out[k]
    if isinstance(v, dict) and v:
        v = dict(v)
        j = list(v)[D.r.randint(len(v))]
        if isinstance(v[j], np.ndarray) and v[j].ndim and D.chance(0.5):
            v[j] = v[j][..., :-1].copy()
        else:
            del v[j]
        out[k] = v
    elif isinstance(v, np.ndarray) and v.ndim:
        out[k] = v[..., :-1].copy() if D.chance(0.6) else np.array(["x"] * v.shape[-1])
    elif isinstance(v, list):
        c = D.pick(["add", "short", "swap"])
        out[k] = list(v) + ["nonsense"] if c == "add" or not v else list(v)[:-1] if c == "short" else list(v)[1:] + ["nonsense"]
    else:
        out[k] = "nonsense"
    return out


def results(v):
    import xarray as xr

    if isinstance(v, (xr.Dataset, xr.DataArray)):
        return snap(v)
    if isinstance(v, (list, tuple)):
        return [results(x) for x in v]
    if isinstance(v, dict):
        return {str(k): results(x) for k, x in v.items()}
    return v


def execute(plan, ctx):
    S = ctx.state
    r = Result()
    first = {}
    for i, o in enumerate(plan["ops"]):
        f, _, opt = OPS[o["op"]]
        who = f"op{i} {o['op']}"
        d = ctx.fresh_dir()
        t = f(M.Draw(o["s"]), S, d)
        inputs, call = t[0], t[1]
        before = snap(inputs)
        res = []

        def go(a):
            np.random.seed(o["s"] & 0xFFFF)
            v = call(a)
            return None if opt.get("noresult") else digest(results(v))

        todo = [("call", inputs, o["m"])]
        if o["bad"] and not opt.get("nobad"):
            todo.insert(0, ("failing call", spoil(inputs, o["bs"]), {"kind": "plain"}))
        if o["again"] or o["m"]["kind"] != "plain":
            todo.append(("repeated call", inputs, {"kind": "plain"}))
        for what, a, m in todo:
            r.ops += 1
            b2 = snap(a)
            st, v, exc = util.attempt(r, lambda: go(a), m)
            S["numpyro"].primitives._PYRO_STACK.clear()
            r.ev(who, what, st, v if st == "ok" else type(v).__name__)
            r.probe(o["op"])
            if what == "failing call":
                if st == "raised":
                    r.fault({"failing_call": 1})
                w = where(b2, snap(a), "inputs") or where(before, snap(inputs), "inputs")
            else:
                w = where(before, snap(inputs), "inputs")
                if st == "raised" and not exc and not (len(t) > 2 and t[2].get("mayraise")):
                    r.fail("raised", f"{who} ({what}): {type(v).__name__}: {str(v)[:300]}")
                    return r
                if st == "ok":
                    res.append(v)
            if w:
                r.fail("modified-input", f"{who} ({what}, {st}): {w}")
                return r
            now = defaults(S["fs"])
            if now != S["defaults"]:
                k = next(k for k in now if now[k] != S["defaults"][k])
                r.fail("modified-default", f"{who} ({what}, {st}): default arguments of {k} were modified")
                S["defaults"] = now
                return r
        if len(set(res)) > 1:
            r.fail("not-repeatable", f"{who}: repeating the call with the same inputs gave another result")
            return r
        if len(res) > 1:
            r.nontrivial = True
        if res:
            key = (o["op"], o["s"])
            if first.setdefault(key, res[0]) != res[0]:
                r.fail("not-repeatable", f"{who}: the same call on equal inputs gave another result than before")
                return r
    r.sig = ",".join(o["op"] + o["m"]["kind"][0] for o in plan["ops"])
    return r
