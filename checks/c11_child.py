"""One simulated process of the pipeline:  python -P -m checks.c11_child JOB.json OUT.json

A job names scenarios, the stages of each that this process performs, and the faults of its surroundings. The result is a list of digests per stage."""
import json
import os
import sys

import numpy as np

from sim.core import Result


def digest(x):
    """Structure, labels, order and bits of a result."""
    import hashlib

    m = hashlib.sha256()

    def walk(v):
        if isinstance(v, dict):
            m.update(b"{")
            for k in v:
                m.update(repr(str(k)).encode())
                walk(v[k])
        elif isinstance(v, (list, tuple)):
            m.update(b"[")
            for k in v:
                walk(k)
        elif isinstance(v, (str, bytes, bool, int, type(None))):
            m.update(repr(v).encode())
        elif callable(v) and hasattr(v, "__qualname__"):
            m.update(v.__qualname__.encode())
        else:
            a = np.ascontiguousarray(np.asarray(v))
            if a.dtype == object:
                m.update(repr(a.tolist()).encode())
            else:
                m.update(str((a.shape, a.dtype.str if a.dtype.kind != "U" else "U")).encode() + (a.tobytes() if a.dtype.kind != "U" else repr(a.tolist()).encode()))

    walk(x)
    return m.hexdigest()[:16]


def dataset(ds):
    """A dataset as plain data: variables, dimensions, coordinates, attributes."""
    return {"attrs": {str(k): v for k, v in ds.attrs.items()}, "coords": {str(k): np.asarray(v.values) for k, v in ds.coords.items()},
            "vars": {str(k): [list(map(str, v.dims)), np.asarray(v.values), {str(a): b for a, b in v.attrs.items()}] for k, v in ds.data_vars.items()}}


class Shuffled:
    """Directory listings in an order of the simulator's choosing."""

    def __init__(self, seed):
        import random

        self.rng = random.Random(seed)
        self.listdir, self.scandir = os.listdir, os.scandir

    def install(self):
        def listdir(p="."):
            xs = sorted(self.listdir(p))
            self.rng.shuffle(xs)
            return xs

        class It:
            def __init__(s, xs):
                s.it = iter(xs)

            def __iter__(s):
                return s

            def __next__(s):
                return next(s.it)

            def __enter__(s):
                return s

            def __exit__(s, *a):
                pass

            def close(s):
                pass

        def scandir(p="."):
            with self.scandir(p) as it:
                xs = sorted(it, key=lambda e: str(e.name))
            self.rng.shuffle(xs)
            return It(xs)

        os.listdir, os.scandir = listdir, scandir


def run(job):
    from checks import catalog, data, popcfg, util
    from sim import sched, simio

    sched.install_lock_seam()
    if job.get("listing") is not None:
        Shuffled(job["listing"]).install()
    import jax
    import jax.numpy as jnp
    import numpyro
    from gwinferno.models.parametric import parametric  # noqa: F401
    from gwinferno.pipeline import analysis, parser, utils
    from gwinferno.postprocess import calculations
    from gwinferno.preprocess import data_collection as dc
    from gwinferno.preprocess import priors, selection
    from numpyro import handlers

    simio.set_root(job["scratch"])
    r = Result()
    out = []
    noise = np.random.RandomState(job["noise"]) if job.get("noise") is not None else None

    def stage(name, fn, seed=0, modes=()):
        """Perform an operation: first the attempts hit by faults (outcome open), then a clean one whose result counts."""
        def seeded():
            np.random.seed(seed)
            return fn()

        for m in list(modes) + [{"kind": "plain"}]:
            if noise is not None:                       # whatever state the legacy generator was left in
                np.random.seed(noise.randint(1 << 30))
                np.random.rand(int(noise.randint(5)))
            st, v, _ = util.attempt(r, seeded, m)
            numpyro.primitives._PYRO_STACK.clear()
        out.append([name, st, digest(v) if st == "ok" else type(v).__name__])
        return v if st == "ok" else None

    def scenario(i, sc, stages, modes):
        d = job["inputs"]
        pn = sc["pn"]
        meta_file, inj_file = os.path.join(d, f"meta{i}.json"), os.path.join(d, f"inj{i}.h5")
        path = os.path.join(job["outdir"], f"data{i}.h5")
        M = lambda k: modes.get(f"{i}:{k}", [])  # noqa: E731
        n0 = f"{i}:"
        if 1 in stages:
            def pe():
                kw = dict(maximum_mass=sc["mmax"], param_names=list(pn))
                if sc["keyfile"]:
                    return dc.load_posterior_dataset(key_file=meta_file, **kw)
                with open(meta_file) as f:
                    return dc.load_posterior_dataset(catalog_metadata=json.load(f), **kw)

            q = sc["iq"]
            keep = {}
            a = stage(n0 + "pe", lambda: dataset(keep.__setitem__("pe", pe()) or keep["pe"]), sc["seed"], M("pe"))
            b = stage(n0 + "inj", lambda: dataset(keep.__setitem__("inj", dc.load_injection_dataset(inj_file, list(pn), through_o4a=sc["inj"]["o4"], ifar_threshold=q["ifar"], snr_threshold=q["snr"])) or keep["inj"]), sc["seed"] + 1, M("inj"))
            if a is None or b is None:
                return
            for m in M("save"):                         # a save that failed or whose process died
                st, txt, fired = data.forked(lambda: dc.save_posterior_samples_and_injection_datasets_as_idata(path, keep["pe"], keep["inj"]), m["faults"])
                r.fault(fired)
            stage(n0 + "save", lambda: dc.save_posterior_samples_and_injection_datasets_as_idata(path, keep["pe"], keep["inj"]), 0)
        if 2 in stages:
            if not os.path.exists(path):
                return
            box = {}

            def load():
                P, I, c, names = utils.load_pe_and_injections_as_dict(path, ignore=sc["ignore"])
                box["x"] = (P, I, c)
                return {"P": {str(k): v for k, v in P.items()}, "I": {str(k): v for k, v in I.items()}, "c": c, "names": [str(n) for n in names]}

            if stage(n0 + "load", load, 0, M("load")) is None:
                return
            P, I, c = box["x"]
            P, I = {str(k): v for k, v in P.items()}, {str(k): v for k, v in I.items()}

            def resample():
                A = jnp.stack([I[k] for k in sorted(I)])
                pm = {k: j for j, k in enumerate(sorted(I))}
                return selection.resample_injections(jax.random.PRNGKey(sc["key"]), lambda x: x[pm["mass_1"]] ** -2.0, A, 12345, pm)

            if I["mass_1"].shape[0]:
                stage(n0 + "resample", resample)
            cfg = sc["config"]

            def parse():
                rd = parser.ConfigReader()
                rd.parse(os.path.join(d, f"config{i}.yml"))
                box["rd"] = rd
                show = lambda o: [type(o).__name__, {k: ([x if not hasattr(x, "shape") else np.asarray(x) for x in v] if isinstance(v, list) else (v if not isinstance(v, dict) else {a: (b if not hasattr(b, "shape") else np.asarray(b)) for a, b in v.items()})) for k, v in vars(o).items()}] if hasattr(o, "__dict__") and not hasattr(o, "shape") else o  # noqa: E731
                return {"m": {k: show(v) for k, v in rd.models.items()}, "p": {k: show(v) for k, v in rd.priors.items()}, "s": list(rd.sampling_params), "l": [rd.label, rd.outdir]}

            if stage(n0 + "parse", parse, 0, M("parse")) is None:
                return

            def build():
                box["model"] = analysis.construct_hierarchical_model(box["rd"].models, box["rd"].priors, **cfg["kw"])
                return "built"

            if stage(n0 + "build", build) is None:
                return
            nobs = int(c["nObs"])
            args = (P, I, c["total_inj"], nobs, c["obs_time"])

            def trace(sub=None):
                with handlers.seed(rng_seed=sc["key"]), handlers.trace() as tr:
                    if sub is None:
                        box["model"](*args)
                    else:
                        with handlers.substitute(data=sub):
                            box["model"](*args)
                return {k: s["value"] for k, s in tr.items() if s["type"] in ("sample", "deterministic") and s["value"] is not None}

            if nobs and I["mass_1"].shape[0] and P["mass_1"].shape[1]:
                stage(n0 + "prior_draw", trace, 0, M("trace"))
                stage(n0 + "evaluate", lambda: trace(popcfg.hypers(cfg, sc["hseed"])))
                if sc["map"]:
                    stage(n0 + "find_map", lambda: analysis.find_map(jax.random.PRNGKey(sc["key"]), box["model"], *args, Niter=3, lr=0.01))
            if sc["splines"]:
                def sp():
                    kw = dict(a_nsplines=5, ct_nsplines=4, name="x", IID=True, a_tau=2.0, ct_tau=3.0)
                    with handlers.seed(rng_seed=sc["key"]), handlers.trace() as tr:
                        utils.bspline_spin_prior(**kw)
                        utils.bspline_mass_prior(m_nsplines=6, q_nsplines=5, name="y")
                        utils.bspline_redshift_prior(z_nsplines=4, z_tau=1.5)
                    return {k: s["value"] for k, s in tr.items() if s["type"] in ("sample", "deterministic") and s["value"] is not None}

                stage(n0 + "spline_priors", sp)
        if 3 in stages:
            rs = np.random.RandomState(sc["seed"] & 0x7FFFFFFF)
            post = {k: rs.normal(size=s) for k, s in (("rate", (4,)), ("mass_cs", (4, 3)), ("lamb", (4,)), ("b", (4, 2, 2)))}
            stage(n0 + "post", lambda: dataset(utils.posterior_dict_to_xarray(dict(post))))
            al, be = jnp.asarray(rs.uniform(1, 4, 3), jnp.float32), jnp.asarray(rs.uniform(1, 4, 3), jnp.float32)
            a = stage(n0 + "beta", lambda: calculations.calculate_beta_spin_mag(al, be))
            stage(n0 + "tilt", lambda: calculations.calculate_mixture_iso_aligned_spin_tilt(al, be / 5))
            if a is not None:
                subs = ["peak", "continuum", "A"]
                stage(n0 + "pdfs", lambda: dataset(utils.pdf_dict_to_xarray({"a": [a[0], a[0] * 2, a[0] * 3], "redshift": np.asarray(a[0])}, {"a": np.asarray(a[1]), "redshift": np.asarray(a[1])}, 3, subpop_names=subs)))
            if sc["chip"]:
                stage(n0 + "chi_p", lambda: np.asarray([priors.chi_p_prior_given_chi_eff_q(x, y, z, ndraws=300) for x, y, z in sc["chip"]]), sc["seed"], M("chip"))

    for i, stages in job["order"]:
        scenario(i, job["scenarios"][i], stages, job.get("modes") or {})
    lib = None
    if "libsimworld" in os.environ.get("LD_PRELOAD", ""):
        import ctypes

        lib = ctypes.CDLL(os.environ["SIMWORLD_LIB"])
        lib.simworld_clock_reads.restype = lib.simworld_entropy_draws.restype = ctypes.c_long
    return {"out": out, "faults": r.faults, "clock_reads": lib.simworld_clock_reads() if lib else 0, "entropy": lib.simworld_entropy_draws() if lib else 0}


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    res = run(job)
    with open(sys.argv[2], "w") as f:
        json.dump(res, f)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
