"""Population-model configurations, the data they are evaluated on, and a float64 reference of the hierarchical likelihood."""
import copy

import numpy as np

NBIG = -1e30
ND = "numpyro.distributions."
GD = "gwinferno.numpyro_distributions."


# --------------------------------------------------------------------------------------------------------------- configs
def _hp(rng, lo, hi, fixed=None, vec=None):
    """A hyper-parameter with a prior that contains [lo, hi], or a fixed value."""
    if fixed is None:
        fixed = rng.random() < 0.25
    if fixed:
        v = round(rng.uniform(lo, hi), 3)
        return {"value": v}, None
    k = rng.choice(["Normal", "Uniform", "TruncatedNormal", "Gamma", "HalfNormal"] if lo > 0 else ["Normal", "Uniform", "TruncatedNormal"])
    w = hi - lo
    if k == "Normal":
        p = {"loc": round((lo + hi) / 2, 2), "scale": round(w + 0.3, 2)}
    elif k == "Uniform":
        p = {"low": round(lo - 0.1 * w, 3), "high": round(hi + 0.1 * w, 3)}
        if lo > 0 and p["low"] <= 0:
            p["low"] = round(lo / 2, 3)
    elif k == "TruncatedNormal":
        p = {"loc": round((lo + hi) / 2, 2), "scale": round(w, 2) + 0.1, "low": round(lo - 0.05 * w, 3), "high": round(hi + 0.2 * w, 3)}
    elif k == "Gamma":
        p = {"concentration": 2.0, "rate": round(2.0 / ((lo + hi) / 2), 4)}
    else:
        p = {"scale": round(hi, 2)}
    return {"prior": ND + k, "prior_params": p}, [lo, hi]


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.ranges = {}

    def model(self, prefix, name, hps):
        """hps: {hyper parameter: (lo, hi) | fixed number | [lo, hi, True] always fixed}"""
        out = {}
        items = list(hps.items())
        self.rng.shuffle(items)
        for h, spec in items:
            if isinstance(spec, (int, float)):
                out[h] = {"value": spec}
                continue
            d, rg = _hp(self.rng, spec[0], spec[1], fixed=True if len(spec) > 2 else None)
            out[h] = d
            if rg:
                self.ranges[f"{prefix}_{h}"] = rg
        return {"model": name, "hyper_params": out}

    def alpha(self):
        return self.rng.choice([(-3.5, -1.3), (0.0, 2.5), (-0.6, 1.0), -1.0, -1])

    def powerlaw_m(self, p):
        return self.model(p, GD + "Powerlaw", {"alpha": self.alpha(), "minimum": (3.0, 9.0), "maximum": (60.0, 110.0)})

    def smooth_m(self, p):
        return self.model(p, GD + "PowerlawSmoothedPowerlaw", {"alpha": self.rng.choice([(-3.5, -1.3), (0.0, 1.5)]), "minimum": (6.0, 9.0), "maximum": (40.0, 90.0), "alpha_max": (2.0, 6.0), "alpha_min": (1.0, 5.0), "low": 2.5, "high": 125.0})

    def tnorm_m(self, p):
        return self.model(p, ND + "TruncatedNormal", {"loc": (15.0, 45.0), "scale": (5.0, 25.0), "low": 2.0, "high": 130.0})

    def component(self, param, p):
        r = self.rng
        if param in ("mass_1", "mass_2"):
            return r.choice([self.powerlaw_m, self.powerlaw_m, self.tnorm_m, self.smooth_m])(p)
        if param == "mass_ratio":
            return r.choice([lambda: self.model(p, GD + "Powerlaw", {"alpha": r.choice([(0.0, 3.0), (-0.5, 1.0)]), "minimum": r.choice([0.05, (0.02, 0.2)]), "maximum": 1.0}),
                             lambda: self.model(p, ND + "Beta", {"concentration1": (1.0, 4.0), "concentration0": (1.0, 4.0)}),
                             lambda: self.model(p, ND + "TruncatedNormal", {"loc": (0.5, 1.0), "scale": (0.1, 0.5), "low": 0.0, "high": 1.0})])()
        if param in ("a_1", "a_2"):
            return r.choice([lambda: self.model(p, ND + "Beta", {"concentration1": (1.0, 4.0), "concentration0": (1.0, 4.0)}),
                             lambda: self.model(p, ND + "TruncatedNormal", {"loc": (0.0, 0.6), "scale": (0.15, 0.6), "low": 0.0, "high": 1.0}),
                             lambda: self.model(p, ND + "Uniform", {"low": 0.0, "high": 1.0})])()
        if param in ("cos_tilt_1", "cos_tilt_2"):
            return r.choice([lambda: self.model(p, ND + "TruncatedNormal", {"loc": (0.0, 1.0), "scale": (0.3, 1.5), "low": -1.0, "high": 1.0}),
                             lambda: self.model(p, ND + "Uniform", {"low": -1.0, "high": 1.0})])()
        if param == "chi_eff":
            return self.model(p, ND + "Normal", {"loc": (-0.2, 0.3), "scale": (0.15, 0.6)})
        if param == "redshift":
            return self.model(p, GD + "PowerlawRedshift", {"lamb": (-2.0, 5.0), "maximum": (1.2, 2.6, True)})
        raise KeyError(param)


BOUNDED = ("a_1", "cos_tilt_1", "mass_1", "mass_ratio")


def _interval(m):
    """Components that can be mixed: MixtureGeneral wants one kind of support."""
    n = m["model"]
    return "unit" if n.endswith("Beta") else "interval"


def config(rng):
    """-> {"models": yaml-like dict, "ranges": {site: [lo, hi]} , "kw": construct options}"""
    g = Gen(rng)
    names = ["mass_1", "mass_ratio", "redshift"]
    extra = [p for p in ("a_1", "cos_tilt_1", "chi_eff") if rng.random() < 0.55]
    if rng.random() < 0.15:
        names.remove("mass_1") if rng.random() < 0.5 else names.remove("mass_ratio")
    names += extra
    rng.shuffle(names)
    models = {}
    for p in names:
        if p in BOUNDED and rng.random() < 0.35:
            n = rng.choice([2, 2, 3, 3])
            while True:
                g2 = Gen(rng)
                cs = [g2.component(p, f"{p}_component_{i + 1}") for i in range(n)]
                if len({_interval(c) for c in cs}) == 1:
                    break
            g.ranges.update(g2.ranges)
            conc = [round(rng.uniform(0.7, 3.0), 2) for _ in range(n)]
            m = {"model": ND + rng.choice(["MixtureGeneral", "mixtures.MixtureGeneral"]), "mixture_dist": {"model": ND + "Categorical", "hyper_params": {"probs": {"prior": ND + "Dirichlet", "prior_params": {"concentration": conc}}}}}
            g.ranges[f"{p}_mixture_dist_probs"] = n
            for i, c in enumerate(cs):
                m[f"component_{i + 1}"] = c
        else:
            m = g.component(p, p)
        if p in ("a_1", "cos_tilt_1") and rng.random() < 0.6:
            m["iid"] = {"shared_parameter": p[:-1] + "2"}
        models[p] = m
    cut = rng.choices(["neff", "none", "var"], [5, 3, 1.5])[0]
    kw = {"min_neff_cut": cut == "neff", "max_variance_cut": cut == "var", "marginalize_selection": cut != "var" and rng.random() < 0.3, "posterior_predictive_check": rng.random() < 0.12}
    return {"models": models, "ranges": g.ranges, "kw": kw}


def tweak(rng, c):
    """A near-duplicate: same parameter names, something inside differs."""
    c = copy.deepcopy(c)
    for _ in range(10):
        p = rng.choice(list(c["models"]))
        m = c["models"][p]
        k = rng.choice(["regen", "order", "drop_iid", "kw", "prior"])
        if k == "regen" and "mixture_dist" not in m:
            g = Gen(rng)
            new = g.component(p, p)
            c["ranges"] = {a: b for a, b in c["ranges"].items() if not a.startswith(p + "_")}
            c["ranges"].update(g.ranges)
            if "iid" in m:
                new["iid"] = m["iid"]
            c["models"][p] = new
        elif k == "order":
            ks = list(c["models"])
            rng.shuffle(ks)
            c["models"] = {q: c["models"][q] for q in ks}
        elif k == "drop_iid" and "iid" in m:
            del m["iid"]
        elif k == "kw" and not c["kw"]["max_variance_cut"]:
            c["kw"]["marginalize_selection"] = not c["kw"]["marginalize_selection"]
        elif k == "prior" and "mixture_dist" not in m:
            hs = [h for h in m["hyper_params"] if "prior" in m["hyper_params"][h]]
            if not hs:
                continue
            h = rng.choice(hs)
            lo, hi = c["ranges"][f"{p}_{h}"]
            d, rg = _hp(rng, lo, hi, fixed=False)
            m["hyper_params"][h] = d
        else:
            continue
        return c
    return c


def params_of(c):
    """source parameters in evaluation order"""
    out = list(c["models"])
    for p, m in c["models"].items():
        if "iid" in m:
            out.append(m["iid"]["shared_parameter"])
    return out


def hypers(c, seed):
    """Values for every sampled site."""
    rs = np.random.RandomState(seed & 0x7FFFFFFF)
    out = {}
    for k in sorted(c["ranges"]):
        rg = c["ranges"][k]
        if isinstance(rg, int):
            x = rs.gamma(2.0, 1.0, rg) + 0.05
            out[k] = (x / x.sum()).astype(np.float32)
        else:
            out[k] = np.float32(rs.uniform(rg[0], rg[1]))
    out["unscaled_rate"] = np.float32(rs.gamma(3.0) + 0.1)
    return out


RANGES = {"mass_1": (2.6, 120.0), "mass_2": (2.6, 120.0), "mass_ratio": (0.05, 0.999), "a_1": (0.01, 0.99), "a_2": (0.01, 0.99), "cos_tilt_1": (-0.99, 0.99),
          "cos_tilt_2": (-0.99, 0.99), "chi_eff": (-0.6, 0.7), "redshift": (0.02, 1.1)}


def data(d):
    """Data set: {"nobs", "ns", "ninj", "seed", "wide": probability of far-off samples, "dead": event without support or None}"""
    rs = np.random.RandomState(d["seed"] & 0x7FFFFFFF)
    pe, inj = {}, {}
    for p, (lo, hi) in RANGES.items():
        c = rs.uniform(lo + 0.25 * (hi - lo), hi - 0.3 * (hi - lo), d["nobs"])[:, None]
        if p.startswith("mass_") and p != "mass_ratio":
            c = np.exp(rs.uniform(np.log(12.0), np.log(45.0), d["nobs"]))[:, None]
        x = c + (hi - lo) * 0.12 * rs.standard_normal((d["nobs"], d["ns"]))
        y = rs.uniform(lo, hi, d["ninj"]) if not p.startswith("mass_1") else np.exp(rs.uniform(np.log(lo), np.log(hi), d["ninj"]))
        if p == "redshift" and d.get("wide"):
            y = np.where(rs.rand(d["ninj"]) < d["wide"], rs.uniform(1.1, 3.0, d["ninj"]), y)
        pe[p] = np.clip(x, lo, hi if p != "redshift" or not d.get("wide") else 3.0).astype(np.float32)
        inj[p] = y.astype(np.float32)
    if d.get("dead") is not None:
        e = d["dead"] % d["nobs"]
        pe["redshift"][e] = 2.7 + 0.2 * rs.rand(d["ns"]).astype(np.float32)
    pe["prior"] = np.exp(rs.uniform(-3.0, 1.0, (d["nobs"], d["ns"]))).astype(np.float32)
    inj["prior"] = np.exp(rs.uniform(-3.0, 1.0, d["ninj"])).astype(np.float32)
    return pe, inj, {"Ninj": number(d), "Nobs": d["nobs"], "Tobs": d["tobs"]}


def number(d):
    """Total number of injections, as the types it comes in: Python integer, numpy integer (read from a file), float."""
    n = int(d["ninj"] * d["mult"])
    return {"int": n, "np": np.int64(n), "float": float(n)}[d.get("ntype", "int")]


# --------------------------------------------------------------------------------------------------------------- reference
def _f(x):
    return np.asarray(x, np.float64)


def _phi(x):
    from scipy.special import ndtr

    return ndtr(x)


_cosmo = None


def _ref_dvcdz(z):
    global _cosmo
    if _cosmo is None:
        from checks.c05 import Ref

        _cosmo = Ref(67.90e3, 0.3065)
    return _cosmo.dVcdz(z)


def logpdf(name, v, x):
    """v: hyper-parameters (float64), x: samples. Samples stay inside the support of library distributions."""
    from scipy.special import betaln, gammaln

    n = name.rsplit(".", 1)[1]
    x = _f(x)
    if n == "Normal":
        return -0.5 * ((x - v["loc"]) / v["scale"]) ** 2 - np.log(v["scale"]) - 0.5 * np.log(2 * np.pi)
    if n == "Uniform":
        return np.zeros_like(x) - np.log(v["high"] - v["low"])
    if n == "HalfNormal":
        return np.log(2.0) - 0.5 * (x / v["scale"]) ** 2 - np.log(v["scale"]) - 0.5 * np.log(2 * np.pi)
    if n == "Gamma":
        a, b = v["concentration"], v["rate"]
        return a * np.log(b) - gammaln(a) + (a - 1) * np.log(x) - b * x
    if n == "Beta":
        a, b = v["concentration1"], v["concentration0"]
        return (a - 1) * np.log(x) + (b - 1) * np.log1p(-x) - betaln(a, b)
    if n == "Dirichlet":
        a = _f(v["concentration"])
        return np.sum((a - 1) * np.log(x)) + gammaln(a.sum()) - gammaln(a).sum()
    if n == "TruncatedNormal":
        lo, hi = (v["low"] - v["loc"]) / v["scale"], (v["high"] - v["loc"]) / v["scale"]
        return -0.5 * ((x - v["loc"]) / v["scale"]) ** 2 - np.log(v["scale"]) - 0.5 * np.log(2 * np.pi) - np.log(_phi(hi) - _phi(lo))
    if n == "Powerlaw":
        a, lo, hi = v["alpha"], v["minimum"], v["maximum"]
        norm = np.log(hi / lo) if a == -1 else (hi ** (1 + a) - lo ** (1 + a)) / (1 + a)
        with np.errstate(all="ignore"):
            return np.where((x < lo) | (x > hi), -np.inf, a * np.log(x) - np.log(norm))
    if n == "PowerlawSmoothedPowerlaw":
        a, b, c = v["alpha_min"], v["alpha"], -v["alpha_max"]
        m, M, lo, hi = v["minimum"], v["maximum"], v["low"], v["high"]
        k2 = m ** (a - b)
        k3 = k2 * M ** (b - c)

        def seg(s, u, w):
            return np.log(w / u) if s == -1 else (w ** (s + 1) - u ** (s + 1)) / (s + 1)

        norm = seg(a, lo, m) + k2 * seg(b, m, M) + k3 * seg(c, M, hi)
        return np.where(x < m, a * np.log(x), np.where(x > M, np.log(k3) + c * np.log(x), np.log(k2) + b * np.log(x))) - np.log(norm)
    if n == "PowerlawRedshift":
        zmax, lam = v["maximum"], v["lamb"]
        zs = np.linspace(1e-9, zmax, 1000)
        dv = _ref_dvcdz(zs)
        norm = np.trapz(dv * (1 + zs) ** (lam - 1), zs)
        with np.errstate(all="ignore"):
            return np.where(x <= zmax, np.log(np.interp(x, zs, dv)) + (lam - 1) * np.log1p(x) - np.log(norm), -np.inf)
    raise KeyError(name)


def zmax_norm(c, hv):
    v = values(c["models"]["redshift"], "redshift", hv)
    zs = np.linspace(1e-9, v["maximum"], 1000)
    return np.trapz(_ref_dvcdz(zs) * (1 + zs) ** (v["lamb"] - 1), zs)


def values(m, prefix, hv):
    return {h: (float(hv[f"{prefix}_{h}"]) if f"{prefix}_{h}" in hv else float(d["value"])) for h, d in m["hyper_params"].items()}


def pop_logpdf(c, hv, p, x):
    for q, m in c["models"].items():
        if "iid" in m and m["iid"]["shared_parameter"] == p:
            return pop_logpdf(c, hv, q, x)
    m = c["models"][p]
    if "mixture_dist" in m:
        w = _f(hv[f"{p}_mixture_dist_probs"])
        w = w / w.sum()
        with np.errstate(all="ignore"):
            t = np.array([np.log(w[i]) + logpdf(m[f"component_{i + 1}"]["model"], values(m[f"component_{i + 1}"], f"{p}_component_{i + 1}", hv), x) for i in range(len(w))])
        return np.logaddexp.reduce(t, axis=0)
    return logpdf(m["model"], values(m, p, hv), x)


def log_prior(c, hv):
    t = 0.0
    for p, m in c["models"].items():
        blocks = [(p, m)] if "mixture_dist" not in m else [(f"{p}_mixture_dist", m["mixture_dist"])] + [(f"{p}_component_{i + 1}", m[f"component_{i + 1}"]) for i in range(sum(k.startswith("component_") for k in m))]
        for pre, b in blocks:
            for h, d in b["hyper_params"].items():
                if "prior" in d:
                    t += float(np.sum(logpdf(d["prior"], {k: (_f(v) if isinstance(v, list) else v) for k, v in d["prior_params"].items()}, hv[f"{pre}_{h}"])))
    return t


def lse(x, axis=None):
    return np.logaddexp.reduce(x, axis=axis) if axis is not None else np.logaddexp.reduce(x)


def likelihood(lw_pe, lw_inj, Ninj, Nobs, Tobs, hv, volume=None, rate=True, marg=False, neff_cut=True, var_cut=False):
    """float64 reference -> ({site: value}, log likelihood or (value, alternatives), near) of log weights"""
    Ninj = float(Ninj)
    o = {}
    with np.errstate(all="ignore"):
        s1, s2 = lse(lw_pe, 1), lse(2 * lw_pe, 1)
        o["logBFs"] = s1 - np.log(lw_pe.shape[1])
        o["log_nEffs"] = 2 * s1 - s2
        o["variance_log_BFs"] = np.exp(-o["log_nEffs"]) - 1 / lw_pe.shape[1]
        lm = lse(lw_inj) - np.log(Ninj)
        mu = np.exp(lm)
        var = np.sum(np.exp(2 * lw_inj)) / Ninj**2 - mu**2 / Ninj
        o["log_nEff_inj"] = 2 * lm - np.log(var)
        o["detection_efficiency"] = mu
        o["variance_log_detection_efficiency"] = np.exp(-o["log_nEff_inj"]) - 1 / Ninj
        if rate:
            o["surveyed_hypervolume"] = volume / 1e9 * Tobs
            o["unscaled_rate"] = float(hv["unscaled_rate"])
            o["rate"] = float(hv["unscaled_rate"]) / mu / o["surveyed_hypervolume"]
        lde = lm
        if marg:
            lde = lde - (3 + Nobs) / (2 * np.exp(o["log_nEff_inj"]))
        near = []
        dead_inj = not np.isfinite(lm)
        cut = dead_inj
        if neff_cut:
            t = o["log_nEff_inj"] - np.log(4 * Nobs)
            cut = cut or not (t >= 0)
            if abs(t) < 2e-3:
                near.append("inj")
        o["selection_factor"] = -np.inf if cut else -Nobs * lde
        o["sum_logBFs"] = o["logBFs"].sum()
        ll = o["selection_factor"] + o["sum_logBFs"]
        o["log_l"] = ll
        if neff_cut:
            nf = np.where(np.isnan(o["log_nEffs"]), 0.0, o["log_nEffs"])
            t = nf.min() - np.log(Nobs)
            if abs(t) < 2e-3:
                near.append("pe")
            if t <= 0:
                ll = -np.inf
            o["neff_less_Nobs"] = ll
        o["variance_log_likelihood"] = Nobs**2 * o["variance_log_detection_efficiency"] + o["variance_log_BFs"].sum()
        if var_cut:
            v = o["variance_log_likelihood"]
            if abs(v - 1) < 2e-3 or not np.isfinite(v):
                near.append("var")
            if not v <= 1:
                ll = -np.inf
            o["variance_less_1"] = ll
    return o, ll, near


def compare_sites(got, want, near, skip=()):
    """-> description of the first difference, or ''"""
    for k, w in want.items():
        if k in skip:
            continue
        if k not in got:
            return f"site {k} is missing"
        g = np.asarray(got[k], np.float64)
        w = np.asarray(w, np.float64)
        if g.shape != w.shape:
            return f"{k}: shape {g.shape}, expected {w.shape}"
        if k in ("selection_factor", "log_l", "neff_less_Nobs", "variance_less_1") and near:
            continue
        for i in range(w.size):
            a, b = g.flat[i], w.flat[i]
            if not np.isfinite(b):
                if k in ("selection_factor", "log_l", "neff_less_Nobs", "variance_less_1", "logBFs", "sum_logBFs") and not a <= NBIG:
                    return f"{k}[{i}] = {a!r} where there is no support"
                continue
            tol = 1e-3 * abs(b) + 2e-6 if k.startswith("variance") or k in ("rate", "surveyed_hypervolume", "detection_efficiency", "unscaled_rate") else 2e-3 + 3e-5 * abs(b)
            if k == "variance_log_likelihood":
                tol += 1e-5
            if not abs(a - b) <= tol:
                return f"{k}[{i}] = {a!r}, expected {b!r}"
    return ""
