"""Seeded injection and posterior-sample files, and independent references for what loading them must give."""
import json
import os

import numpy as np

YEAR = 365.25 * 24 * 60 * 60


# ------------------------------------------------------------------------------------------------------- spin priors
def p_chieff(chi, q):
    """p(chi_eff | q) for spin magnitudes uniform in [0,1] and isotropic directions, by direct quadrature.

    x = a cos(t) has density -ln|x|/2 on [-1,1]; chi_eff = (x1 + q x2)/(1+q)."""
    from scipy.integrate import quad

    c = (1 + q) * abs(chi)
    if c >= 1 + q:
        return 0.0
    lo, hi = max(-1.0, (c - 1) / q), min(1.0, (c + 1) / q)
    if hi <= lo:
        return 0.0

    def f(x):
        y = c - q * x
        if x == 0 or y == 0 or abs(y) >= 1:
            return 0.0
        return 0.25 * np.log(abs(x)) * np.log(abs(y))

    cuts = sorted({lo, hi} | {p for p in (0.0, c / q) if lo < p < hi})
    tot = 0.0
    for a, b in zip(cuts[:-1], cuts[1:]):
        m = 0.5 * (a + b)
        # x = a + (b-a) s^2 (3-2s)-like stretching softens the logarithmic ends
        g = lambda s: f(a + (m - a) * s**3) * 3 * s * s * (m - a)   # noqa: E731
        h = lambda s: f(b - (b - m) * s**3) * 3 * s * s * (b - m)   # noqa: E731
        tot += quad(g, 0, 1, limit=200)[0] + quad(h, 0, 1, limit=200)[0]
    return (1 + q) * tot


def chieff(q, a1, a2, c1, c2):
    return (a1 * c1 + q * a2 * c2) / (1 + q)


def chip(q, a1, a2, c1, c2):
    return np.maximum(a1 * np.sqrt(np.maximum(1 - c1**2, 0)), q * (4 * q + 3) / (4 + 3 * q) * a2 * np.sqrt(np.maximum(1 - c2**2, 0)))


# ---------------------------------------------------------------------------------------------------------- injections
IFARS = ["ifar_cwb", "ifar_gstlal", "ifar_mbta", "IFAR_pycbc_bbh", "ifar_pycbc_hyperbank", "spiir_ifar", "Ifar_all"]
FARS = ["pycbc_far", "gstlal_far", "mbta_far", "cwb-bbh_far", "far_spiir", "gstlal_far_offline"]
LNP = "lnpdraw_mass1_source_mass2_source_redshift_spin1x_spin1y_spin1z_spin2x_spin2y_spin2z"


def inj_cfg(rng, n=None):
    o4 = rng.random() < 0.45
    c = {
        "o4": o4, "n": n or rng.choice([1, 4, 12, 30, 80]), "seed": rng.randrange(1 << 30), "dt": rng.choice(["f8", "f8", "f4"]),
        "keys": rng.sample(FARS if o4 else IFARS, rng.randint(1, 3)), "name": rng.choice([None, "mix", "mix", "o3only"]), "inplane": rng.random() < 0.8,
        "tkey": rng.choice(["analysis_time", "total_analysis_time", "analysis_time_s"]), "T": round(rng.uniform(1e6, 9e7), 2), "tot": rng.choice([1000, 123456, 73957576]),
        "missing": rng.choice([None] * 20 + ["time", "total", "sampling_pdf", "spin1z"]), "extra": rng.choice([[], ["snr_x"], ["snr_x", "p_astro"]]),
        "chunks": rng.random() < 0.3, "edge": rng.random() < 0.5,
    }
    return c


def inj_columns(c):
    r = np.random.RandomState(c["seed"])
    n = c["n"]
    col = {"mass1_source": np.exp(r.uniform(1.2, 4.6, n))}
    col["mass2_source"] = col["mass1_source"] * r.uniform(0.1, 1, n)
    col["redshift"] = r.uniform(0.01, 2, n)
    for i in (1, 2):
        a, ct, ph = r.uniform(0.02, 0.99, n), r.uniform(-1, 1, n), r.uniform(0, 2 * np.pi, n)
        s = np.sqrt(1 - ct**2)
        col[f"spin{i}x"], col[f"spin{i}y"], col[f"spin{i}z"] = a * s * np.cos(ph), a * s * np.sin(ph), a * ct
    col["sampling_pdf"] = np.exp(r.uniform(-12, 2, n))
    col[LNP] = r.uniform(-14, 2, n)
    col["weights"] = r.uniform(0.2, 3, n)
    col["optimal_snr_net"] = r.uniform(4, 16, n)
    col["semianalytic_observed_phase_maximized_snr_net"] = r.uniform(4, 14, n)
    for k in c["keys"]:
        v = np.exp(r.uniform(-6, 3, n))
        if c["o4"]:
            v = np.where(r.random_sample(n) < 0.6, v * 40, v)
        col[k] = v
    if c["edge"] and n > 3:
        i = r.permutation(n)[:4]
        col[c["keys"][0]][i[0]] = 1.0
        col["optimal_snr_net"][i[1]] = 10.0
        col["semianalytic_observed_phase_maximized_snr_net"][i[2]] = 10.0
        col[c["keys"][0]][i[3]] = np.nan if not c["o4"] else np.inf
    col["snr_x"] = r.uniform(0, 20, n)
    col["p_astro"] = r.uniform(0, 1, n)
    col = {k: v.astype(c["dt"]) for k, v in col.items()}
    col["name"] = np.array([b"o3"] * n if c["name"] == "o3only" else r.choice([b"o1", b"o2", b"o3", b"o4"], n), dtype="S2")
    return col


def write_inj(path, c):
    import h5py

    col = inj_columns(c)
    tmp = path + ".new"
    with h5py.File(tmp, "w") as f:
        if c["missing"] != "time":
            f.attrs[c["tkey"]] = c["T"]
        if c["o4"]:
            names = ["mass1_source", "mass2_source", "redshift", LNP, "weights", "semianalytic_observed_phase_maximized_snr_net"] + [f"spin{i}{x}" for i in (1, 2) for x in "xyz"] + c["keys"] + c["extra"]
            if c["missing"] == "sampling_pdf":
                names.remove(LNP)
            if c["missing"] == "spin1z":
                names.remove("spin1z")
            t = np.zeros(c["n"], dtype=[(k, col[k].dtype) for k in names])
            for k in names:
                t[k] = col[k]
            f.create_dataset("events", data=t, chunks=(min(c["n"], 7),) if c["chunks"] else None)
            if c["missing"] != "total":
                f.attrs["total_generated"] = c["tot"]
        else:
            g = f.create_group("injections")
            names = ["mass1_source", "mass2_source", "redshift", "sampling_pdf", "optimal_snr_net", "spin1z", "spin2z"] + c["keys"] + c["extra"]
            if c["inplane"]:
                names += ["spin1x", "spin1y", "spin2x", "spin2y"]
            if c["name"]:
                names.append("name")
            for k in names:
                if k == c["missing"]:
                    continue
                g.create_dataset(k, data=col[k], chunks=(min(c["n"], 7),) if c["chunks"] else None)
            if c["missing"] != "total":
                g.attrs["total_generated"] = c["tot"]
    os.replace(tmp, path)


class MustRaise(Exception):
    pass


def inj_expected(c, q):
    """Reference for load_injection_dataset(file(c), **q): (columns, total, years). Raises MustRaise when there is no right answer."""
    col = inj_columns(c)
    pn, ifar, snr, cuts = q["param_names"], q["ifar"], q["snr"], q.get("cuts")
    if not c["o4"] and not c["inplane"]:
        for i in (1, 2):
            col[f"spin{i}x"] = col[f"spin{i}y"] = np.zeros(c["n"])
    spins = "a_1" in pn or "chi_eff" in pn
    if c["missing"] in ("time", "total", "sampling_pdf") or (c["missing"] == "spin1z" and spins):
        raise MustRaise(c["missing"])
    if bool(q["o4a"]) != c["o4"]:
        raise MustRaise("wrong file kind")
    ok = np.zeros(c["n"], bool)
    with np.errstate(invalid="ignore"):
        if c["o4"]:
            ok |= col["semianalytic_observed_phase_maximized_snr_net"] >= snr
            for k in c["keys"]:
                ok |= col[k] <= 1 / ifar
        else:
            for k in c["keys"]:
                ok |= col[k] > ifar
            if c["name"]:
                ok |= ((col["name"] == b"o1") | (col["name"] == b"o2")) & (col["optimal_snr_net"] > snr)
            for k, v in (cuts or {}).items():
                if k not in c["extra"]:
                    raise MustRaise(f"no column {k}")
                ok |= col[k] >= v
    C = {k: v[ok].astype(np.float64) for k, v in col.items() if k != "name"}
    out = {"mass_1": C["mass1_source"], "mass_2": C["mass2_source"], "mass_ratio": C["mass2_source"] / C["mass1_source"], "redshift": C["redshift"]}
    prior = np.exp(C[LNP]) / C["weights"] if c["o4"] else C["sampling_pdf"].copy()
    if spins:
        for i in (1, 2):
            out[f"a_{i}"] = np.sqrt(C[f"spin{i}x"] ** 2 + C[f"spin{i}y"] ** 2 + C[f"spin{i}z"] ** 2)
            out[f"cos_tilt_{i}"] = C[f"spin{i}z"] / out[f"a_{i}"]
        prior *= (2 * np.pi * out["a_1"] ** 2) * (2 * np.pi * out["a_2"] ** 2)
    if "mass_ratio" in pn:
        prior *= C["mass1_source"]
    if "chi_eff" in pn:
        prior, extra = effective(out["mass_ratio"], out["a_1"], out["a_2"], out["cos_tilt_1"], out["cos_tilt_2"], prior, "chi_p" in pn)
        out.update(extra)
        for k in ("a_1", "a_2", "cos_tilt_1", "cos_tilt_2", "mass_ratio" if "mass_2" in pn else "mass_2"):
            del out[k]
    else:
        for k in pn:
            if k not in out:
                raise MustRaise(f"{k} not available")
        out = {k: out[k] for k in pn}
    out["prior"] = prior
    return out, c["tot"], c["T"] / YEAR


def effective(q, a1, a2, c1, c2, prior, with_chip):
    """Prior density and columns after replacing component spins by effective ones; the chi_p factor is left to the caller (Monte Carlo)."""
    ce = chieff(q, a1, a2, c1, c2)
    new = prior / ((2 * np.pi * a1**2) * (2 * np.pi * a2**2)) * np.array([p_chieff(x, y) for x, y in zip(ce.ravel(), q.ravel())]).reshape(ce.shape)
    extra = {"chi_eff": ce}
    if with_chip:
        extra["chi_p"] = chip(q, a1, a2, c1, c2)
    return new, extra


def compare(ds, name, dims, want, rt=2e-5, chip_atol=2e-7):
    """'' or what differs between a returned dataset and the reference columns (prior with wider tolerance for single precision)."""
    if name not in ds:
        return f"no variable {name}"
    da = ds[name]
    got = [str(p) for p in da["param"].values]
    if sorted(got) != sorted(want):
        return f"parameters {sorted(got)}, expected {sorted(want)}"
    da = da.transpose(*dims)
    for k, w in want.items():
        g = np.asarray(da.sel(param=k).values, dtype=np.float64)
        if g.shape != w.shape:
            return f"{k}: shape {g.shape}, expected {w.shape}"
        with np.errstate(all="ignore"):
            tol = 3e-3 * np.abs(w) + 1e-3 * np.abs(w).max(initial=0) if k == "prior" and "chi_eff" in want else rt * np.abs(w)   # logarithmic peaks amplify rounding
            bad = ~((np.abs(g - w) <= tol + (0 if k == "prior" else chip_atol if k == "chi_p" else 2e-7)) | (g == w))
        if bad.any():
            i = np.argwhere(bad)[0]
            return f"{k}: {int(bad.sum())} of {bad.size} values differ, first at {i.tolist()}: {g[tuple(i)]!r}, expected {w[tuple(i)]!r}"
    return ""


_chip_cache = {}


def p_chip_curves(ce, q, ndraws=10000, k=6, bw="scott"):
    """Reference Monte-Carlo densities of chi_p given chi_eff and q (a_max = 1) from k independent streams: [(grid, density)], or None."""
    key = (round(float(ce), 9), round(float(q), 9), ndraws, k, bw)
    if key not in _chip_cache:
        from scipy.stats import gaussian_kde

        cs = []
        for s in range(k):
            r = np.random.RandomState(977 + s)
            A = []
            n = 0
            for _ in range(400):
                a1, a2, c2 = r.uniform(0, 1, 40000), r.uniform(0, 1, 40000), r.uniform(-1, 1, 40000)
                c1 = (ce * (1 + q) - q * a2 * c2) / a1
                ok = np.abs(c1) <= 1
                A.append(np.array([a1[ok], a2[ok], c1[ok], c2[ok]]))
                n += int(ok.sum())
                if n >= ndraws:
                    break
            else:
                return None
            a1, a2, c1, c2 = np.concatenate(A, axis=1)[:, :ndraws]
            kde = gaussian_kde(chip(q, a1, a2, c1, c2), weights=1 / a1, bw_method=bw)
            top = 1.0 if (1 + q) * abs(ce) / q < 1 else np.sqrt(1 - ((1 + q) * abs(ce) - q) ** 2)
            x = np.concatenate([[0], np.linspace(0.05 * top, 0.95 * top, 50), [top]])
            y = kde(x)
            y[0] = y[-1] = 0
            cs.append((x, y / np.trapz(y, x)))
        _chip_cache[key] = cs
    return _chip_cache[key]


def p_chip_given(cp, ce, q, ndraws=10000, k=6):
    """Mean and spread of the reference density at one point, and its peak."""
    cs = p_chip_curves(ce, q, ndraws, k)
    if cs is None:
        return None
    v = np.array([np.interp(cp, x, y) for x, y in cs])
    return float(v.mean()), float(v.std(ddof=1)), float(max(y.max() for _, y in cs))


# ------------------------------------------------------------------------------------------------------------- catalogues
def pe_cfg(rng, n=None, big=False):
    return {"cat": rng.choice(["GWTC-1", "GWTC-2", "GWTC-3", "GWTC-2", "GWTC-4"]), "n": n or (rng.choice([10050, 12000]) if big else rng.choice([5, 9, 23, 60])), "seed": rng.randrange(1 << 30),
            "wf": rng.choice(["C01:Mixed", "Overall_posterior", "PublicationSamples", "IMRPhenomXPHM"]), "zp": rng.choice(["euclidean", "comoving"]), "zmax": rng.choice([0.6, 1.2, 1.2, 3.0]),
            "heavy": rng.choice([0, 0, 0.2, 0.6]), "dt": rng.choice(["f8", "f8", "f4"]), "extra": rng.random() < 0.5, "chunks": rng.random() < 0.2}


def _grid(r, lo, hi, n):
    """n well separated values in random order, so that every sample can be recognised by any one of its parameters"""
    return r.permutation(lo + (hi - lo) * (np.arange(n) + 0.5 * r.uniform(0.1, 1)) / n)


def pe_samples(c, ref):
    """Source-frame samples of one event (before any cut), keyed by package parameter names."""
    r = np.random.RandomState(c["seed"])
    n = c["n"]
    m1 = _grid(r, 6, 95, n)
    k = int(c["heavy"] * n)
    if k:
        m1[r.permutation(n)[:k]] += 120.0
    s = {"mass_1": m1, "mass_ratio": _grid(r, 0.15, 0.98, n), "redshift": _grid(r, 0.06, c["zmax"], n), "a_1": _grid(r, 0.03, 0.97, n), "a_2": _grid(r, 0.03, 0.97, n),
         "cos_tilt_1": _grid(r, -0.97, 0.97, n), "cos_tilt_2": _grid(r, -0.97, 0.97, n)}
    s["mass_2"] = s["mass_1"] * s["mass_ratio"]
    if c["cat"] == "GWTC-1":
        f = {"luminosity_distance_Mpc": ref.z2DL(s["redshift"]), "m1_detector_frame_Msun": s["mass_1"] * (1 + s["redshift"]), "m2_detector_frame_Msun": s["mass_2"] * (1 + s["redshift"]),
             "spin1": s["a_1"], "spin2": s["a_2"], "costilt1": s["cos_tilt_1"], "costilt2": s["cos_tilt_2"]}
    else:
        f = {"mass_1_source": s["mass_1"], "mass_2_source": s["mass_2"], **{k: s[k] for k in ("mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2")}}
        if c["extra"]:
            f.update({"mass_1": s["mass_1"] * (1 + s["redshift"]), "mass_2": s["mass_2"] * (1 + s["redshift"]), "chi_eff": np.full(n, 9.0), "chi_p": np.full(n, 9.0)})
    return s, {k: v.astype(c["dt"]) for k, v in f.items()}


def write_pe(path, c, ref):
    import h5py

    _, f = pe_samples(c, ref)
    t = np.zeros(c["n"], dtype=[(k, v.dtype) for k, v in f.items()])
    for k, v in f.items():
        t[k] = v
    tmp = path + ".new"
    with h5py.File(tmp, "w") as h:
        kw = {"chunks": (min(c["n"], 11),)} if c["chunks"] else {}
        if c["cat"] == "GWTC-1":
            h.create_dataset(c["wf"], data=t, **kw)
        else:
            h.create_dataset(f"{c['wf']}/posterior_samples", data=t, **kw)
            h.create_dataset("OtherWF/posterior_samples", data=t[::-1])
    os.replace(tmp, path)


def pe_reference(cfgs, q, ref):
    """Per event: eligible samples with the reference prior. -> {event: {param: array}}, common length"""
    S, common = {}, 10000
    for ev, c in cfgs.items():
        s, _ = pe_samples(c, ref)
        keep = np.ones(c["n"], bool) if c["cat"] == "GWTC-1" else s["mass_1"] < q["mmax"]
        S[ev] = {k: v[keep] for k, v in s.items()}
        common = min(common, int(keep.sum()))
    return S, common


def pe_prior(s, c, pn, ref, top):
    """Prior density of one event's samples for the requested parameters; top = upper redshift of the normalisation grid."""
    p = np.ones(len(s["mass_1"]))
    if "redshift" in pn:
        zs = np.linspace(0, top, 1000)
        with np.errstate(all="ignore"):
            pz = ref.prior_euclid(zs) if c["zp"] == "euclidean" else ref.prior_comoving(zs)
        p = p * np.interp(s["redshift"], zs, pz / np.trapz(pz, zs))
    if "mass_1" in pn:
        p = p * (1 + s["redshift"]) ** 2
    if "mass_ratio" in pn:
        p = p * s["mass_1"]
    if "a_1" in pn:
        p = p / 4
    return p


def write_keyfile(path, meta):
    with open(path, "w") as f:
        json.dump(meta, f)
