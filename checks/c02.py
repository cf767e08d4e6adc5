"""C02 an injection file is loaded exactly or refused, over histories of loads, rewrites, read faults and interrupts."""
import os

import numpy as np

from checks import catalog, util
from sim.core import Result, list_shrinks

PROPERTY = "C02"
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded histories of injection loads and file replacements with read faults and interrupts against an independent numpy reference"
NOTE = "Every load is compared row by row with an independent reading of the file; spin-prior factors come from direct quadrature and a reference Monte Carlo; held on everything explored."
RULE = "episode in which a fault or interrupt fired, the file was replaced between loads, or metadata was missing"
REAL = ["gwinferno.preprocess.data_collection.load_injection_dataset, gwinferno.preprocess.selection, conversions, priors", "xarray, h5py, HDF5 C library"]
STUB = ["libc file reads below the scratch directory (errors, short reads, premature EOF)", "random source of the chi_p prior (seeded)"]
ASSUMPTIONS = ["densities compared to 5e-5 (single precision); densities that include the Monte-Carlo chi_p prior within 8 standard deviations of a reference Monte Carlo plus 4% of its peak"]
TIERS = {"quick": {"sessions": 8, "episodes": 220, "budget_s": 45}, "thorough": {"sessions": 48, "episodes": 3000, "budget_s": 240}}

BASE = ["mass_1", "mass_2", "mass_ratio", "redshift"]
SPIN = ["a_1", "a_2", "cos_tilt_1", "cos_tilt_2"]


def query(rng, small):
    k = rng.choices(["base", "spin", "chieff", "chip"], [4, 4, 1.5 if small else 0.4, 0.5 if small else 0])[0]
    pn = rng.sample(BASE, rng.randint(1, 4))
    if k == "spin":
        pn += ["a_1"] + [p for p in SPIN[1:] if rng.random() < 0.6]
    elif k in ("chieff", "chip"):
        pn = ["mass_1", rng.choice(["mass_ratio", "mass_2", "mass_ratio"]), "redshift", "chi_eff"] + (["chi_p"] if k == "chip" else [])
    elif rng.random() < 0.05:
        pn += [rng.choice(["a_2", "nonsense"])]
    rng.shuffle(pn)
    return {"param_names": pn, "ifar": rng.choice([1, 1, 1.0, 0.5, 2, 5, 100]), "snr": rng.choice([10, 10, 10.0, 8, 12, 9.5]), "flip": rng.random() < 0.04,
            "cuts": rng.choice([None, None, None, {"snr_x": 15.0}, {"p_astro": 0.5, "snr_x": 18}]), "defaults": rng.random() < 0.15, "np_seed": rng.randrange(1 << 30)}


def generate(rng, tier, sconf):
    small = rng.random() < 0.3
    pool = [catalog.inj_cfg(rng, n=rng.choice([1, 3, 6]) if small else None) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.4:   # same shape and metadata, other rows
        pool.append(dict(pool[0], seed=pool[0]["seed"] ^ 1))
    ops = []
    for _ in range(rng.randint(2, 6)):
        if rng.random() < 0.25:
            ops.append({"op": "write", "f": rng.randrange(2), "c": rng.randrange(len(pool)), "keep": rng.random() < 0.5})
        else:
            f = rng.randrange(2)
            ops.append({"op": "load", "f": f, "q": query(rng, small), "m": util.mode(rng, (6, 3, 2)), "retry": rng.random() < 0.8,
                        "torn": round(rng.choice([0, rng.random(), rng.random(), 1 - 0.02 * rng.random()]), 5) if rng.random() < 0.1 else None})
    return {"pool": pool, "ops": ops}


def shrinks(plan):
    yield from list_shrinks(plan, ["ops"])
    yield from util.mode_shrinks(plan)
    for i, c in enumerate(plan["pool"]):
        if c["n"] > 1:
            q = dict(plan)
            q["pool"] = list(plan["pool"])
            q["pool"][i] = dict(c, n=c["n"] // 2)
            yield q


def setup(ctx):
    from gwinferno.preprocess.data_collection import load_injection_dataset

    ctx.state["load"] = load_injection_dataset


def call(load, path, q):
    np.random.seed(q["np_seed"])
    kw = {} if q["defaults"] else {"ifar_threshold": q["ifar"], "snr_threshold": q["snr"]}
    if q["cuts"] is not None:
        kw["additional_cuts"] = dict(q["cuts"])
    if q["o4a"]:
        kw["through_o4a"] = True
    ds = load(path, list(q["param_names"]), **kw)
    return ds.load() if hasattr(ds, "load") else ds


def differs(ds, c, q, r):
    q = dict(q, ifar=1, snr=10) if q["defaults"] else q
    want, tot, years = catalog.inj_expected(c, q)
    n = len(want["prior"])
    chi_p = "chi_p" in want
    prior = want["prior"]
    w = dict(want)
    if chi_p:
        # the Monte-Carlo factor is judged separately, within its error
        g = np.asarray(ds["injections"].sel(param="prior").values, np.float64) if "injections" in ds and "prior" in ds["param"].values else np.zeros(0)
        if g.shape != prior.shape:
            return f"prior: shape {g.shape}, expected {prior.shape}"
        qq = want["mass_ratio"] if "mass_ratio" in want else want["mass_2"] / want["mass_1"]
        for i in range(n):
            ref = catalog.p_chip_given(want["chi_p"][i], want["chi_eff"][i], qq[i])
            if ref is None:
                continue
            r.probe("chi_p_density")
            mu, sd, top = ref
            if abs(g[i] - prior[i] * mu) > prior[i] * (8 * sd + 0.04 * top) + 1e-300:
                return f"prior[{i}] = {g[i]!r}, expected {prior[i] * mu!r} (Monte-Carlo sd {prior[i] * sd:.2g})"
        w["prior"] = g
    d = catalog.compare(ds, "injections", ("param", "injection"), w, 5e-5, 1e-3)
    if d:
        return d
    r.probe("rows", n)
    for k, v in (("total_generated", tot), ("analysis_time", years)):
        got = ds.attrs.get(k)
        if got is None or abs(float(got) - v) > 1e-9 * abs(v):
            return f"{k} = {got!r}, expected {v!r}"
    return ""


def execute(plan, ctx):
    r = Result()
    d = ctx.fresh_dir()
    files = [os.path.join(d, n) for n in ("inj.h5", "o.hdf5")]
    present = {}

    def write(f, c, keep=False):
        st = os.stat(f) if os.path.exists(f) else None
        catalog.write_inj(f, c)
        if keep and st:
            os.utime(f, ns=(st.st_atime_ns, st.st_mtime_ns))
        if f in present:
            r.nontrivial = True
            r.probe("file_replaced")
        present[f] = c

    for i, f in enumerate(files):
        write(f, plan["pool"][i % len(plan["pool"])])

    def judge(what, f, q, st, v, excused):
        r.ops += 1
        c = present[f]
        try:
            if st == "ok":
                df = differs(v, c, q, r)
                r.ev(what, "ok", df)
                if df:
                    r.fail("wrong", f"{what} {q['param_names']}: {df}")
            else:
                r.ev(what, st, type(v).__name__)
                if st == "raised" and not excused:
                    catalog.inj_expected(c, dict(q, ifar=1, snr=10) if q["defaults"] else q)
                    r.fail("raised", f"{what} {q['param_names']}: a readable file was refused: {type(v).__name__}: {v}")
        except catalog.MustRaise as e:
            r.probe("must_raise")
            r.nontrivial = True
            if st == "ok":
                r.fail("accepted", f"{what}: {e}, yet something was returned")

    for n, op in enumerate(plan["ops"]):
        f = files[op["f"]]
        if op["op"] == "write":
            write(f, plan["pool"][op["c"]], op["keep"])
            continue
        q = dict(op["q"], o4a=present[f]["o4"] != op["q"]["flip"])
        if q["cuts"] and not all(k in present[f]["extra"] for k in q["cuts"]) and not q["flip"]:
            q["cuts"] = None
        if op["torn"] is not None:
            # a file that was only partly written when its writer died or its disk filled up
            whole = open(f, "rb").read()
            with open(f, "wb") as fh:
                fh.write(whole[: min(int(len(whole) * op["torn"]), len(whole) - 1)])
            r.fault({"file:torn": 1})
            st, v, ex = util.attempt(r, lambda: call(ctx.state["load"], f, q), {"kind": "plain"})
            judge(f"op {n} torn", f, q, st, v, True)
            with open(f, "wb") as fh:
                fh.write(whole)
            if r.violations:
                return r
        st, v, ex = util.attempt(r, lambda: call(ctx.state["load"], f, q), op["m"])
        judge(f"op {n}", f, q, st, v, ex)
        if r.violations:
            return r
        if st != "ok" and op["retry"]:
            st, v, ex = util.attempt(r, lambda: call(ctx.state["load"], f, q), {"kind": "plain"})
            judge(f"op {n} retry", f, q, st, v, ex)
        if r.violations:
            return r
    return r
