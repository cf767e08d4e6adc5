"""C14 a configuration is read exactly, whatever was read, failed or was interrupted before."""
import os

import numpy as np

from checks import util
from sim.core import Result, list_shrinks, sut
from sim.sched import random_position

PROPERTY = "C14"
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded histories of parses on shared and fresh readers with read faults, interrupts and thread schedules against a reference interpreter"
NOTE = "Every parse is compared with an independent interpretation of the file's present bytes; held on everything explored."
RULE = "episode in which a fault, interrupt or preemption fired, a reader was reused, or a file was replaced between parses"
REAL = ["gwinferno.pipeline.parser.ConfigReader and model/prior containers", "PyYAML", "numpyro and gwinferno distribution classes (resolved by name)"]
STUB = ["libc file reads below the scratch directory (errors, short reads)", "thread scheduler"]
ASSUMPTIONS = ["a file that ends early without a read error is a different file: premature EOF is not injected for text files"]
TIERS = {"quick": {"sessions": 8, "episodes": 300, "budget_s": 35}, "thorough": {"sessions": 48, "episodes": 3000, "budget_s": 150}}

PARAMS = ["mass_1", "mass_ratio", "mass_2", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2", "redshift", "chi_eff", "lambda_1"]
DISTS = ["numpyro.distributions.Normal", "numpyro.distributions.Uniform", "numpyro.distributions.TruncatedNormal", "gwinferno.numpyro_distributions.Powerlaw",
         "gwinferno.numpyro_distributions.PowerlawRedshift", "gwinferno.numpyro_distributions.BSplineDistribution", "numpyro.distributions.Beta"]
PRIORS = ["numpyro.distributions.Normal", "numpyro.distributions.Uniform", "numpyro.distributions.HalfNormal", "numpyro.distributions.Gamma", "numpyro.distributions.MultivariateNormal"]
MIX = ["numpyro.distributions.MixtureGeneral", "numpyro.distributions.mixtures.MixtureGeneral"]
HP = ["alpha", "minimum", "maximum", "loc", "scale", "low", "high", "cs", "lamb", "model", "value", "prior"]
BAD = ["numpyro.distributions.NoSuchThing", "nosuchpackage.Model", "gwinferno.numpyro_distributions.powerlaw"]


def _num(rng):
    return rng.choice([0, 1, -2, 3.5, 1e-3, 100.0, -0.25, 2, True, 1e10, -1.5e-5])


def _hp(rng):
    d = {}
    k = rng.choices(["prior", "value", "both", "half", "none"], [5, 3, 0.7, 0.7, 0.3])[0]
    if k in ("prior", "both", "half"):
        d["prior"] = rng.choice(PRIORS)
    if k in ("prior", "both"):
        d["prior_params"] = {p: ([_num(rng) * 1.0 for _ in range(rng.randint(1, 4))] if rng.random() < 0.3 else _num(rng)) for p in rng.sample(["loc", "scale", "low", "high", "concentration"], rng.randint(0, 2))}
    if k in ("value", "both", "half"):
        d["value"] = [_num(rng) * 1.0 for _ in range(rng.randint(1, 5))] if rng.random() < 0.3 else ([[1.0, 2.0], [3.0, 4.5]] if rng.random() < 0.1 else _num(rng))
    return d


def _model(rng):
    return {"model": rng.choice(DISTS), "hyper_params": {h: _hp(rng) for h in rng.sample(HP, rng.randint(0, 4))}}


def config(rng, bad=False):
    y = {}
    for k, v in (("label", f"run{rng.randint(0, 99)}"), ("outdir", f"/tmp/o{rng.randint(0, 9)}"), ("data", {"file": "a.h5", "n": rng.randint(0, 5), "l": [1, "x", None]}),
                 ("sampler", {"kernel": rng.choice(["NUTS", "HMC"]), "mcmc_kwargs": {"num_warmup": rng.randint(1, 999)}}), ("likelihood", {"marginalize_selection": rng.random() < 0.5})):
        if rng.random() < 0.6:
            y[k] = v
    if rng.random() < 0.08:
        y["models"] = {"python_file": f"/some/where/m{rng.randint(0, 9)}.py"}
        if rng.random() < 0.4:
            y["models"]["mass_1"] = _model(rng)
        return y
    ms = {}
    names = rng.sample(PARAMS, rng.randint(1, 5))
    free = [p for p in PARAMS if p not in names]
    for p in names:
        if rng.random() < 0.3:
            n = rng.randint(1, 3)
            m = {"model": rng.choice(MIX), "mixture_dist": {"model": "numpyro.distributions.Categorical", "hyper_params": {"probs": {"prior": "numpyro.distributions.Dirichlet", "prior_params": {"concentration": [1.0 + i for i in range(n)]}}}}}
            for i in range(n + (1 if rng.random() < 0.15 else 0)):
                m[f"component_{i + 1}"] = _model(rng)
        else:
            m = _model(rng)
        if free and rng.random() < 0.3:
            m["iid"] = {"shared_parameter": free.pop()}
        ms[p] = m
    y["models"] = ms
    if bad:
        k = rng.choice(["model", "prior", "component", "nomodels", "comp_model"])
        p = rng.choice(names)
        if k == "nomodels":
            del y["models"]
        elif k == "component" and "component_1" in ms[p]:
            del ms[p]["component_1"]
        elif k == "comp_model" and "component_1" in ms[p]:
            ms[p]["component_1"]["model"] = rng.choice(BAD)
        elif k == "prior":
            t = ms[p].get("component_1", ms[p])["hyper_params"]
            t["zz"] = {"prior": rng.choice(BAD), "prior_params": {"loc": 1}}
        else:
            ms[p]["model"] = rng.choice(BAD) + ("Mixture" if "component_1" in ms[p] and False else "")
    return y


def generate(rng, tier, sconf):
    pool = []
    for _ in range(rng.randint(2, 4)):
        if pool and rng.random() < 0.35:   # near-duplicate of an earlier config: same shape, one thing changed
            import copy

            y = copy.deepcopy(rng.choice(pool))
            ms = y.get("models") or {}
            ks = [k for k in ms if isinstance(ms[k], dict)]
            if ks:
                k = rng.choice(ks)
                w = rng.choice(["drop", "hp", "iid", "rename"])
                if w == "drop" and len(ks) > 1:
                    del ms[k]
                elif w == "iid" and "iid" in ms[k]:
                    del ms[k]["iid"]
                elif w == "rename":
                    free = [p for p in PARAMS if p not in ms]
                    if free:
                        ms[rng.choice(free)] = ms.pop(k)
                elif "hyper_params" in ms[k]:
                    ms[k]["hyper_params"] = {h: _hp(rng) for h in ms[k]["hyper_params"]}
            pool.append(y)
        else:
            pool.append(config(rng, bad=rng.random() < 0.12))
    if rng.random() < 0.12:
        return {"mode": "threads", "pool": pool[:2], "pos": [[random_position(rng, 2.6), rng.randrange(2)] for _ in range(rng.randint(1, 5))], "same_file": rng.random() < 0.3}
    ops = []
    for _ in range(rng.randint(3, 8)):
        k = rng.choices(["parse", "write", "torn", "missing"], [6, 2.5, 0.8, 0.4])[0]
        op = {"op": k, "f": rng.randrange(2), "c": rng.randrange(len(pool))}
        if k == "parse":
            op["reader"] = rng.choice([0, 0, 1, None])
            op["m"] = util.mode(rng, (6, 2, 2), util.errors_only)
        if k in ("write", "torn"):
            op["keep_mtime"] = rng.random() < 0.5
            op["cut"] = round(rng.random(), 3)
        ops.append(op)
    return {"mode": "history", "pool": pool, "ops": ops}


def shrinks(plan):
    yield from list_shrinks(plan, ["ops", "pos"])
    yield from util.mode_shrinks(plan)


# --------------------------------------------------------------------------------------------------------------- reference
class Malformed(Exception):
    """The reference is sure the file must be refused."""


class Unsure(Exception):
    """Odd content (only after truncation): refused or accepted, no verdict."""


def resolve(name):
    from importlib import import_module

    mod, _, fn = name.rpartition(".")
    try:
        return getattr(import_module(mod), fn)
    except Exception as e:
        raise Malformed(f"{name}: {e}")


def reference(text, strict):
    """What the content means: (plain attributes, models, priors, sampling params) as comparable structures."""
    import yaml

    try:
        y = yaml.safe_load(text)
    except Exception as e:
        raise Malformed(str(e)[:80])
    if not isinstance(y, dict) or y.get("models") is None:
        raise Malformed("no models")
    try:
        return _reference(y)
    except Malformed:
        raise
    except Exception as e:
        raise (Malformed if strict else Unsure)(f"{type(e).__name__}: {e}")


def numbers(v):
    """Raises unless the list is an array of numbers (a cut file can leave something else)."""
    a = np.asarray(v, dtype=np.float64)
    if not np.all(np.isfinite(a)) or any(isinstance(x, (str, type(None))) for x in np.asarray(v, dtype=object).ravel()):
        raise ValueError("not an array of numbers")


def _reference(y):
    top = {"label": y.get("label", "label"), "outdir": y.get("outdir", "./"), "data_conf": y.get("data", {}), "sampler_conf": y.get("sampler", {}), "likelihood_kwargs": y.get("likelihood", {})}
    models, priors, sampled = {}, {}, []
    ms = y["models"]

    def hyper(prefix, hps):
        for name, d in hps.items():
            key = f"{prefix}_{name}"
            if "prior" in d and "prior_params" in d:
                for v in d["prior_params"].values():
                    if isinstance(v, list):
                        numbers(v)
                priors[key] = ("prior", resolve(d["prior"]), {k: v for k, v in d["prior_params"].items()})
                sampled.append(key)
            elif "value" in d:
                if isinstance(d["value"], list):
                    numbers(d["value"])
                priors[key] = ("value", d["value"])

    if "python_file" in ms:
        models["file_path"] = ms["python_file"]
    else:
        for p, m in ms.items():
            if "Mixture" in m["model"]:
                mix = m["mixture_dist"]
                names = list(mix["hyper_params"])
                n = len(mix["hyper_params"][names[0]]["prior_params"]["concentration"])
                hyper(f"{p}_mixture_dist", mix["hyper_params"])
                comps, cps = [], []
                for i in range(1, n + 1):
                    c = m[f"component_{i}"]
                    comps.append(resolve(c["model"]))
                    cps.append(list(c["hyper_params"]))
                    hyper(f"{p}_component_{i}", c["hyper_params"])
                models[p] = ("mixture", resolve(m["model"]), resolve(mix["model"]), names, comps, cps)
            else:
                models[p] = ("model", resolve(m["model"]), list(m["hyper_params"]))
                hyper(p, m["hyper_params"])
            if "iid" in m:
                models[m["iid"]["shared_parameter"]] = p
    return top, models, priors, sampled


def _eqv(got, want):
    """A value of the file as the reader must return it: lists become arrays, everything else is itself."""
    if isinstance(want, list):
        g = np.asarray(got)
        w = np.asarray(want, dtype=np.float64)
        return hasattr(got, "shape") and hasattr(got, "dtype") and g.shape == w.shape and g.dtype != object and bool(np.allclose(g.astype(np.float64), w, rtol=1e-6, atol=0))
    return type(got) is type(want) and got == want


def differs(rd, ref, S):
    top, models, priors, sampled = ref
    P = S["parser"]
    for k, v in top.items():
        if getattr(rd, k, None) != v:
            return f"{k} = {getattr(rd, k, None)!r}, file says {v!r}"
    if set(rd.models) != set(models):
        return f"models of {sorted(rd.models)}, file says {sorted(models)}"
    for k, w in models.items():
        g = rd.models[k]
        if isinstance(w, str):
            if g != w:
                return f"models[{k}] = {g!r}, file says {w!r}"
        elif w[0] == "model":
            if not isinstance(g, P.PopModel) or isinstance(g, P.PopMixtureModel) or g.model is not w[1] or list(g.params) != w[2]:
                return f"model of {k} is {getattr(g, 'model', g)} {getattr(g, 'params', None)}, file says {w[1:]}"
        elif not isinstance(g, P.PopMixtureModel) or (g.model, g.mixing_dist, list(g.mixing_params), list(g.components), [list(c) for c in g.component_params]) != tuple(w[1:]):
            return f"mixture of {k} is {getattr(g, '__dict__', g)}, file says {w[1:]}"
    if set(rd.priors) != set(priors):
        return f"priors of {sorted(rd.priors)}, file says {sorted(priors)}"
    for k, w in priors.items():
        g = rd.priors[k]
        if w[0] == "prior":
            if not isinstance(g, P.PopPrior) or g.dist is not w[1] or set(g.params) != set(w[2]) or not all(_eqv(g.params[x], w[2][x]) for x in w[2]):
                return f"prior of {k} is {getattr(g, '__dict__', g)}, file says {w[1:]}"
        elif not _eqv(g, w[1]):
            return f"value of {k} is {g!r}, file says {w[1]!r}"
    if list(rd.sampling_params) != sampled:
        return f"sampled {rd.sampling_params}, file says {sampled}"
    return ""


def setup(ctx):
    from gwinferno.pipeline import parser

    ctx.state["parser"] = parser


def execute(plan, ctx):
    import yaml

    from sim import sched

    S = ctx.state
    CR = S["parser"].ConfigReader
    r = Result()
    d = ctx.fresh_dir()
    files = [os.path.join(d, n) for n in ("config.yml", "run.yaml")]
    texts = [yaml.safe_dump(y, sort_keys=False, default_flow_style=None if i % 2 else False) for i, y in enumerate(plan["pool"])]
    present = {}

    def write(f, text, keep=False):
        st = os.stat(f) if os.path.exists(f) else None
        if f in present and present[f] != text:
            r.nontrivial = True
            r.probe("file_replaced")
        if keep and st is not None and len(text) < st.st_size:   # also the same size as before
            text = text + "#" * (st.st_size - len(text) - 1) + "\n"
        with open(f, "w") as o:
            o.write(text)
        if keep and st is not None:
            os.utime(f, ns=(st.st_atime_ns, st.st_mtime_ns))
        present[f] = text

    for i, f in enumerate(files):
        write(f, texts[i % len(texts)])
    strict = True

    def judge(what, st, val, excused, rd, f):
        r.ops += 1
        try:
            ref = reference(present[f], f not in torn)
        except Malformed as e:
            ref = None
            if st == "ok":
                r.fail("accepted", f"{what}: a malformed file ({e}) was accepted")
            r.ev(what, st, "malformed")
            return
        except Unsure:
            r.ev(what, st, "unsure")
            return
        if st == "ok":
            diff = differs(rd, ref, S)
            r.ev(what, st, diff)
            if diff:
                r.fail("wrong", f"{what}: {diff}")
        else:
            r.ev(what, st, type(val).__name__)
            if st == "raised" and not excused:
                r.fail("raised", f"{what}: a valid file was refused: {type(val).__name__}: {val}")

    torn = set()
    if plan["mode"] == "threads":
        f2 = files[0] if plan["same_file"] else files[1]
        rds = [CR(), CR()]
        sc = sched.Scheduler(plan["pos"])
        res = sc.run([lambda: rds[0].parse(files[0]), lambda: rds[1].parse(f2)])
        r.fault(sc.fired)
        r.ev("trace", sc.trace)
        for i, f in enumerate((files[0], f2)):
            st, v = res[i] or ("raised", RuntimeError("never ran"))
            judge(f"thread {i}", "ok" if st == "ok" else "raised", v, False, rds[i], f)
    else:
        readers = {}
        kept = []   # (models, priors, sampled of an earlier result, reference): later parses must not change them
        for n, op in enumerate(plan["ops"]):
            f = files[op["f"]]
            if op["op"] == "write":
                torn.discard(f)
                write(f, texts[op["c"]], op["keep_mtime"])
            elif op["op"] == "torn":
                torn.add(f)
                t = texts[op["c"]]
                write(f, t[: int(op["cut"] * len(t))], op["keep_mtime"])
            elif op["op"] == "missing":
                st, v, ex = util.attempt(r, lambda: CR().parse(os.path.join(d, "nope.yml")), {"kind": "plain"})
                r.ev("missing", st)
                if st == "ok":
                    r.fail("accepted", "a missing file was accepted")
            else:
                if op["reader"] is not None and op["reader"] in readers:
                    rd = readers[op["reader"]]
                    r.nontrivial = True
                    r.probe("reader_reused")
                else:
                    rd = sut(r, "ConfigReader()", CR)
                    if op["reader"] is not None:
                        readers[op["reader"]] = rd
                st, v, ex = util.attempt(r, lambda: rd.parse(f), op["m"])
                judge(f"op {n}", st, v, ex, rd, f)
                if st == "ok" and not r.violations and f not in torn:
                    snap = type("Snap", (), dict(rd.__dict__))
                    try:
                        kept.append((n, snap, reference(present[f], True)))
                    except Malformed:
                        pass
                if st == "interrupted" and not r.violations:   # progress: the retry succeeds
                    st, v, ex = util.attempt(r, lambda: rd.parse(f), {"kind": "plain"})
                    judge(f"op {n} retry", st, v, ex, rd, f)
            if r.violations:
                break
        for n, snap, ref in kept:
            if r.violations:
                break
            diff = differs(snap, ref, S)
            if diff:
                r.fail("earlier-result-changed", f"what op {n} read was changed by a later parse: {diff}")
    return r
