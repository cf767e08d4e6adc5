"""C01 a catalogue is loaded exactly or refused, over histories of loads, rewrites, read faults and interrupts."""
import os

import numpy as np

from checks import c05, catalog, util
from sim.core import Result, list_shrinks

PROPERTY = "C01"
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded histories of catalogue loads and file replacements with read faults, interrupts and random-generator states against an independent numpy reference"
NOTE = "Every returned sample is traced back to one sample of its event's file by well separated values; densities come from independent quadrature; held on everything explored."
RULE = "episode in which a fault or interrupt fired, a file was replaced between loads, samples were cut by mass, or events had different lengths"
REAL = ["gwinferno.preprocess.data_collection.load_posterior_dataset and everything below it", "the shared cosmology", "xarray, h5py, HDF5 C library"]
STUB = ["libc file reads below the scratch directory (errors, short reads, premature EOF)", "state of numpy's global random generator (set by the plan)"]
ASSUMPTIONS = ["no sample lies exactly on the mass limit; redshifts of at least 0.05", "values compared to 1e-3, densities to 6e-3 (tabulated cosmology in single precision)"]
TIERS = {"quick": {"sessions": 8, "episodes": 60, "budget_s": 50}, "thorough": {"sessions": 48, "episodes": 900, "budget_s": 240}}

REF = c05.Ref(67.90e3, 0.3065)
EV = ["GW150914", "GW150914_095045", "GW170608", "GW190521", "S230529ay", "b", "a"]
ALL = ["mass_1", "mass_2", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"]


def query(rng, small):
    k = rng.choices(["any", "default", "chieff", "chip"], [6, 1, 1.5 if small else 0, 0.5 if small else 0])[0]
    if k == "any":
        pn = rng.sample(ALL, rng.randint(1, 8))
        if "redshift" not in pn and rng.random() < 0.5:
            pn.append("redshift")
    elif k == "default":
        pn = None
    else:
        pn = ["mass_1", rng.choice(["mass_ratio", "mass_2", "mass_ratio"]), "redshift", "chi_eff"] + (["chi_p"] if k == "chip" else [])
        if rng.random() < 0.2:
            pn.remove("redshift")
        rng.shuffle(pn)
    return {"pn": pn, "mmax": rng.choice([None, 100.0, 70.0, 97.3, 1000.0, 40.0]), "seed": rng.randrange(1 << 30), "keyfile": rng.random() < 0.35}


def generate(rng, tier, sconf):
    small = rng.random() < 0.25
    big = not small and rng.random() < 0.04
    pool = [catalog.pe_cfg(rng, n=rng.choice([4, 5, 6]) if small else None) for _ in range(rng.randint(2, 4))]
    if big:
        pool = [catalog.pe_cfg(rng, big=True) for _ in range(2)]
    if rng.random() < 0.4:
        pool.append(dict(pool[0], seed=pool[0]["seed"] ^ 1))
    if rng.random() < 0.3:
        pool.append(dict(pool[0], seed=pool[0]["seed"] ^ 2, zp="comoving" if pool[0]["zp"] == "euclidean" else "euclidean", cat="GWTC-3" if pool[0]["cat"] == "GWTC-1" else pool[0]["cat"]))
    ops = []
    for _ in range(rng.randint(2, 4) if not big else 1):
        if rng.random() < 0.25 and not big:
            ops.append({"op": "write", "f": rng.randrange(4), "c": rng.randrange(len(pool)), "keep": rng.random() < 0.5})
        else:
            n = rng.randint(1, 4 if not small else 2)
            ops.append({"op": "load", "ev": rng.sample(EV, n), "files": [rng.randrange(4) for _ in range(n)], "q": query(rng, small), "m": util.mode(rng, (6, 3, 2)),
                        "bad": rng.choice([None] * 13 + ["zprior", "wf", "gone", "torn", "torn"]), "cut": round(rng.choice([0, rng.random(), rng.random(), 1 - 0.02 * rng.random()]), 5), "share": rng.random() < 0.1})
    return {"pool": pool, "ops": ops}


def shrinks(plan):
    yield from list_shrinks(plan, ["ops"])
    yield from util.mode_shrinks(plan)
    for i, op in enumerate(plan["ops"]):
        if op["op"] == "load" and len(op["ev"]) > 1:
            for j in range(len(op["ev"])):
                q = dict(plan)
                q["ops"] = list(plan["ops"])
                q["ops"][i] = {**op, "ev": op["ev"][:j] + op["ev"][j + 1:], "files": op["files"][:j] + op["files"][j + 1:]}
                yield q
    for i, c in enumerate(plan["pool"]):
        if c["n"] > 2:
            q = dict(plan)
            q["pool"] = list(plan["pool"])
            q["pool"][i] = dict(c, n=c["n"] // 2)
            yield q


def setup(ctx):
    from gwinferno.preprocess.data_collection import load_posterior_dataset

    ctx.state["load"] = load_posterior_dataset


def _top(rows):
    m = max(float(s["redshift"].max()) for s in rows.values())
    return 1.01 * max(1.9, m)


def differs(ds, cfgs, q, r):
    pn = q["pn"] or ["mass_1", "mass_ratio", "redshift"]
    mmax = 100.0 if q["mmax"] is None else q["mmax"]
    S, common = catalog.pe_reference(cfgs, {"mmax": mmax}, REF)
    if common == 0:
        return None
    if "posteriors" not in ds:
        return "no variable posteriors"
    da = ds["posteriors"].transpose("event", "param", "samples")
    if sorted(map(str, da["event"].values)) != sorted(cfgs):
        return f"events {list(da['event'].values)}, expected {sorted(cfgs)}"
    if "chi_eff" in pn:
        cols = ["mass_1", "mass_ratio" if "mass_2" not in pn else "mass_2", "redshift", "chi_eff", "prior"] + (["chi_p"] if "chi_p" in pn else [])
    else:
        cols = list(pn) + ["prior"]
    got = [str(p) for p in da["param"].values]
    if sorted(got) != sorted(cols):
        return f"parameters {sorted(got)}, expected {sorted(cols)}"
    if da.sizes["samples"] != common:
        return f"{da.sizes['samples']} samples per event, expected {common}"
    rows = {}
    if any(len(S[e]["mass_1"]) != common for e in S):
        r.nontrivial = True
        r.probe("downsampled")
    for ev in cfgs:
        s = dict(S[ev])
        key = next(k for k in ("mass_1", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2", "mass_2", "chi_eff") if k in cols)
        G = {k: np.asarray(da.sel(event=ev, param=k).values, np.float64) for k in cols}
        if key == "mass_2":
            # products of two grids are not separated: match on nearest value, distinctness is judged on the values
            pass
        order = np.argsort(s[key])
        ref = s[key][order]
        j = np.clip(np.searchsorted(ref, G[key]), 1, len(ref) - 1) if len(ref) > 1 else np.zeros(common, int)
        if len(ref) > 1:
            j = np.where(np.abs(ref[j - 1] - G[key]) < np.abs(ref[j] - G[key]), j - 1, j)
        idx = order[j]
        if len(set(idx.tolist())) != common and key != "mass_2":
            return f"{ev}: {common - len(set(idx.tolist()))} samples appear more than once"
        s = {k: v[idx] for k, v in s.items()}
        rows[ev] = s
        for k in cols:
            if k in s:
                bad = np.abs(G[k] - s[k]) > 1e-3 * np.abs(s[k]) + 2e-6
                if bad.any():
                    i = int(np.argmax(bad))
                    return f"{ev} {k}: sample {i} is {G[k][i]!r}, the sample it belongs to has {s[k][i]!r} ({int(bad.sum())} of {common} differ)"
    top = _top(rows)
    if any(c["n"] > len(S[e]["mass_1"]) for e, c in cfgs.items()):
        r.nontrivial = True
        r.probe("mass_cut")
    for ev, c in cfgs.items():
        s = rows[ev]
        want = catalog.pe_prior(s, c, pn, REF, top)
        if "mass_2" in cols and list(cols) and next(iter(k for k in ("mass_1", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2") if k in cols), None) is None:
            r.probe("mass_2_only")
            continue
        g = np.asarray(da.sel(event=ev, param="prior").values, np.float64)
        tol = 6e-3
        if "chi_eff" in pn:
            want, extra = catalog.effective(s["mass_ratio"], s["a_1"], s["a_2"], s["cos_tilt_1"], s["cos_tilt_2"], want, "chi_p" in pn)
            for k, v in extra.items():
                gg = np.asarray(da.sel(event=ev, param=k).values, np.float64)
                bad = np.abs(gg - v) > 2e-3
                if bad.any():
                    i = int(np.argmax(bad))
                    return f"{ev} {k}: {gg[i]!r}, expected {v[i]!r}"
            if "chi_p" in pn:
                for i in range(common):
                    ref = catalog.p_chip_given(extra["chi_p"][i], extra["chi_eff"][i], s["mass_ratio"][i])
                    if ref is None:
                        continue
                    r.probe("chi_p_density")
                    mu, sd, peak = ref
                    if abs(g[i] - want[i] * mu) > want[i] * (8 * sd + 0.05 * peak):
                        return f"{ev} prior[{i}] = {g[i]!r}, expected {want[i] * mu!r} (Monte-Carlo sd {want[i] * sd:.2g})"
                continue
            tol = 2e-2   # the density has kinks and logarithmic peaks: spins rounded in the file move it
        bad = ~(np.abs(g - want) <= tol * np.abs(want) + (1e-3 * np.abs(want).max() if "chi_eff" in pn else 0))
        if bad.any():
            i = int(np.argmax(bad))
            return f"{ev} ({c['zp']}) prior of sample {i}: {g[i]!r}, expected {want[i]!r} ({int(bad.sum())} of {common} differ)"
    r.probe("samples", common * len(cfgs))
    return ""


def execute(plan, ctx):
    r = Result()
    d = ctx.fresh_dir()
    files = [os.path.join(d, f"e{i}.h5") for i in range(4)]
    present = {}

    def write(i, c, keep=False):
        f = files[i]
        st = os.stat(f) if os.path.exists(f) else None
        catalog.write_pe(f, c, REF)
        if keep and st:
            os.utime(f, ns=(st.st_atime_ns, st.st_mtime_ns))
        if i in present:
            r.nontrivial = True
            r.probe("file_replaced")
        present[i] = c

    used = {i for op in plan["ops"] if op["op"] == "load" for i in op["files"]}
    for i in sorted(used):
        write(i, plan["pool"][i % len(plan["pool"])])

    for n, op in enumerate(plan["ops"]):
        if op["op"] == "write":
            write(op["f"], plan["pool"][op["c"]], op["keep"])
            continue
        q = op["q"]
        cfgs = {e: present[i] for e, i in zip(op["ev"], op["files"])}
        meta = {e: {"file_path": files[i], "waveform": present[i]["wf"], "redshift_prior": present[i]["zp"], "catalog": present[i]["cat"]} for e, i in zip(op["ev"], op["files"])}
        must = None
        last = op["ev"][-1]
        if op["bad"] == "zprior":
            meta[last]["redshift_prior"] = "uniform"
            must = "redshift" in (q["pn"] or ["redshift"])
        elif op["bad"] == "wf":
            meta[last]["waveform"] = "NoSuchWaveform"
            must = True
        elif op["bad"] == "gone":
            meta[last]["file_path"] = os.path.join(d, "gone.h5")
            must = True
        torn = None
        if op["bad"] == "torn":
            # a file that was only partly written when its writer died (or its disk filled up)
            torn = meta[last]["file_path"]
            whole = open(torn, "rb").read()
            with open(torn, "wb") as fh:
                fh.write(whole[: min(int(len(whole) * op["cut"]), len(whole) - 1)])
            r.fault({"file:torn": 1})

        def call():
            np.random.seed(q["seed"])
            kw = {}
            if q["pn"] is not None:
                kw["param_names"] = list(q["pn"])
            if q["mmax"] is not None:
                kw["maximum_mass"] = q["mmax"]
            if q["keyfile"]:
                kw["key_file"] = os.path.join(d, f"key{n}.json")
            else:
                kw["catalog_metadata"] = {k: dict(v) for k, v in meta.items()}
            ds = ctx.state["load"](**kw)
            return ds.load()

        if q["keyfile"]:
            catalog.write_keyfile(os.path.join(d, f"key{n}.json"), meta)
        todo = [op["m"], {"kind": "plain"}]
        for k, m in enumerate(todo):
            st, v, ex = util.attempt(r, call, m)
            r.ops += 1
            what = f"op {n} load {op['ev']} for {q['pn']} mmax={q['mmax']}"
            if st == "ok":
                if must:
                    r.fail("accepted", f"{what}: {op['bad']} is wrong, yet something was returned")
                elif must is None:  # also for a torn file: what it lost may be padding, but it may not be passed over
                    df = differs(v, cfgs, q, r)
                    r.ev(what, "ok", df)
                    if df:
                        r.fail("wrong", f"{what}: {df}")
                break
            r.ev(what, st, type(v).__name__)
            if st == "raised" and not ex:
                S, common = catalog.pe_reference(cfgs, {"mmax": 100.0 if q["mmax"] is None else q["mmax"]}, REF)
                if must is None and common > 0 and not torn:
                    r.fail("raised", f"{what}: readable files were refused: {type(v).__name__}: {v}")
                break
        if torn:
            with open(torn, "wb") as fh:
                fh.write(whole)
        if r.violations:
            return r
    return r
