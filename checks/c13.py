"""C13 exported results are complete, labelled right, and survive failed writes."""
import io
import os

import numpy as np

from checks import data
from checks import models as M
from checks.util import attempt, mode, mode_shrinks
from sim.core import HarnessError, Result, close, h, list_shrinks

PROPERTY = "C13"
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded histories of exports, summaries and plots with disk faults, process deaths and interrupts, against the arrays that were passed and float64 curves"
NOTE = "Figures are checked through the artists handed to the renderer and the pixels of the file; datasets through a disk round trip."
RULE = "episode in which a disk fault, interrupt, allocation failure or process death hit an export, plot or write that was then retried"
REAL = ["gwinferno.pipeline.utils.posterior_dict_to_xarray / pdf_dict_to_xarray", "gwinferno.postprocess.calculations", "gwinferno.postprocess.plot", "xarray, matplotlib (Agg), PIL, HDF5"]
STUB = ["disk (real files in a scratch directory behind the fault-injecting libc layer)", "Figure.savefig is observed (the figure is inspected, then really saved)"]
ASSUMPTIONS = ["distinct subpopulation names, one array per name; equal number of draws in all arrays; at most three subpopulations in a figure"]
TIERS = {"quick": {"sessions": 8, "episodes": 26, "budget_s": 60}, "thorough": {"sessions": 64, "episodes": 300, "budget_s": 260}}

NAMES = ["lamb", "rate", "mass_cs", "q_cs", "surveyed_hypervolume", "log_l", "a", "b", "Ps", "draws", "x"]
PARAMS = ["mass_1", "mass_ratio", "a", "cos_tilt", "redshift", "chi_eff", "redshift_detector", "mass"]
SUBS = ["peak", "continuum", "peakB", "b", "A", "low-spin"]
PPD = ["mass", "plpeak", "logpeak", "beta", "iso", "iid", "ind", "plz", "plsz"]


def setup(ctx):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.figure as mf
    import matplotlib.pyplot as plt
    import xarray as xr
    from gwinferno.pipeline import utils
    from gwinferno.postprocess import calculations, plot

    S = ctx.state
    S.update(M.modules(), xr=xr, utils=utils, calc=calculations, plot=plot, plt=plt)
    S["saved"] = []
    real = mf.Figure.savefig

    def savefig(self, fname, *a, **k):
        if S.get("watch") and isinstance(fname, (str, os.PathLike)):
            buf = io.BytesIO()
            real(self, buf, *a, **{**k, "format": "png"})
            S["saved"].append((os.path.abspath(os.fspath(fname)), _artists(self), buf.getvalue()))
        return real(self, fname, *a, **k)

    mf.Figure.savefig = savefig
    savefig(plt.figure(), io.BytesIO())     # warm up fonts and renderer outside the simulated world
    plt.close("all")


def _artists(fig):
    out = []
    for ax in fig.axes:
        lines = [(ln.get_label(), np.array(ln.get_xdata(), float), np.array(ln.get_ydata(), float)) for ln in ax.lines]
        bands = [{(float(x), float(y)) for p in c.get_paths() for x, y in p.vertices} for c in ax.collections]
        out.append({"xlabel": ax.get_xlabel(), "lines": lines, "bands": bands})
    return out


# ------------------------------------------------------------------------------------------------------------------ plans
def _op(rng):
    k = rng.choices(["post", "pdf", "ppd", "plot"], [3, 3, 2.4, 2])[0]
    op = {"op": k, "s": rng.randrange(1 << 28), "m": {"kind": "plain"}, "disk": None}
    if k == "ppd":
        op["kind"] = rng.choices(PPD, [0.35, 2, 0.5, 4, 4, 4, 3, 4, 3])[0]     # the two-dimensional spline grids take 10-20 s each
    if k == "plot":
        op["kind"] = rng.choice(["mass", "spin", "spin2", "z", "pdf"])
    if k in ("post", "pdf"):
        op["m"] = mode(rng, (3, 0, 2), top=2.3)
        op["disk"] = rng.choice([None, None, {"faults": []}, {"faults": data.write_faults(rng)}])
    elif k == "ppd":
        op["m"] = mode(rng, (2, 0, 2), top=3.0)
    else:
        op["m"] = mode(rng, (2, 4, 2), read=_plot_faults, top=2.4)
    return op


def _plot_faults(rng):
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.choice(["write", "write", "space", "open", "close", "short"])
        if k == "space":
            out.append({"space": int(10 ** rng.uniform(1, 5))})
        elif k == "short":
            out.append({"cls": "write", "nth": rng.randint(1, 8), "act": "short", "param": rng.randint(1, 900)})
        else:
            out.append({"cls": k, "nth": rng.randint(1, 6 if k == "write" else 2), "act": "err", "err": rng.choice(["EIO", "ENOSPC"] if k != "open" else ["EACCES", "EMFILE", "ENOSPC"])})
    return out


def generate(rng, tier, sconf):
    ops = [_op(rng) for _ in range(rng.randint(2, 5))]
    if rng.random() < 0.4:      # repeat an export with nearly the same, or exactly the same, arguments
        o = dict(rng.choice(ops))
        o["twist"] = rng.randrange(3)
        ops.append(o)
    return {"ops": ops}


def shrinks(plan):
    yield from list_shrinks(plan, ["ops"])
    yield from mode_shrinks(plan)
    for i, o in enumerate(plan["ops"]):
        if o.get("disk"):
            yield {"ops": plan["ops"][:i] + [{**o, "disk": None}] + plan["ops"][i + 1:]}


# ------------------------------------------------------------------------------------------------------------------ cases
def _arr(D, shape, special=True):
    a = D.r.normal(size=shape) * 10 ** D.r.uniform(-3, 3)
    k = D.pick(["f4", "f8", "jnp", "f8", "i8", "bool", "neg"])
    if k in ("f4", "f8"):
        a = a.astype(k)
        if special and D.chance(0.3) and a.size > 2:
            a.reshape(-1)[:3] = [np.nan, np.inf, -np.inf]
    elif k == "jnp":
        import jax.numpy as jnp

        a = jnp.asarray(a, dtype=jnp.float32)
    elif k == "i8":
        a = D.r.randint(-5, 1 << 40, size=shape)
    elif k == "bool":
        a = D.r.uniform(size=shape) < 0.5
    else:
        a = np.asfortranarray(a)[::1]
    return a


def post_case(op):
    D = M.Draw(op["s"])
    n = D.pick([1, 2, 3, 5, 30])
    names = [NAMES[i] for i in D.r.permutation(len(NAMES))[:D.r.randint(1, 6)]]
    d = {k: _arr(D, D.pick([(n,), (n,), (n, 3), (n, n), (n, 1), (n, 2, 3), (n, 3, 2)])) for k in names}
    return _twist(op, D, d)


def _twist(op, D, d):
    """The same shapes and end values again, other values inside; or other key order."""
    t = op.get("twist")
    if t == 1:
        for k, v in list(d.items()):
            if isinstance(v, np.ndarray) and v.size > 3 and v.dtype.kind == "f":
                v = v.copy()
                v.reshape(-1)[1:-1] *= -3
                d[k] = v
    elif t == 2:
        d = dict(reversed(list(d.items())))
    return d


def pdf_case(op):
    D = M.Draw(op["s"])
    n = D.pick([1, 2, 3, 6])
    sub = D.pick([None, None, 1, 2, 3])
    keys = [PARAMS[i] for i in D.r.permutation(len(PARAMS))[:D.r.randint(1, 5)]]
    if sub and "redshift" not in keys:
        keys.insert(D.r.randint(0, len(keys) + 1), "redshift")
    g = D.pick([None, n, 4])        # all grids alike, or as long as there are draws, so that a swapped label fits too
    grids = {k: np.sort(D.r.uniform(0, 50, size=g or D.r.randint(2, 7))) for k in keys}
    names = None
    if sub:
        names = [SUBS[i] for i in D.r.permutation(len(SUBS))[:sub]]
        p = {k: (_arr(D, (n, len(grids[k])), False) if k == "redshift" else [_arr(D, (n, len(grids[k])), False) for _ in names]) for k in keys}
        if D.chance(0.3):
            p = {k: (np.asarray(v, np.float64) if k != "redshift" else v) for k, v in p.items()}
    else:
        p = {k: _arr(D, (n, len(grids[k]))) for k in keys}
        p = _twist(op, D, p)
    if D.chance(0.3):
        grids = dict(reversed(list(grids.items())))
    return p, grids, n, names


def ppd_case(op):
    D = M.Draw(op["s"])
    n = D.pick([1, 2, 4])
    import jax.numpy as jnp

    def arr(x):
        return jnp.asarray(x, dtype=jnp.float32) if D.chance(0.5) else np.asarray(x, np.float32)
    c = {"n": n, "rate": arr(D.r.uniform(1, 50, size=n)) if D.chance(0.6) else None, "frac": arr(D.r.uniform(0.05, 1, size=n)) if D.chance(0.6) else None, "arr": arr, "D": D}
    return c


def _hash(o):
    if isinstance(o, dict):
        return [(k, _hash(v)) for k, v in o.items()]
    if isinstance(o, (list, tuple)):
        return [_hash(v) for v in o]
    if o is None or isinstance(o, (str, int, float, bool)):
        return repr(o)
    return h(o)


def _same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == "f" or b.dtype.kind == "f":
        return bool(np.all((a == b) | ((a != a) & (b != b))))
    return bool(np.all(a == b))


def _ds_check(r, who, ds, want, coords):
    """want: {variable: (dims or None, array)}"""
    if set(map(str, ds.data_vars)) != set(want):
        return r.fail("variables", f"{who}: variables {sorted(map(str, ds.data_vars))} instead of {sorted(want)}")
    for k, (dims, v) in want.items():
        if not _same(ds[k].values, v):
            return r.fail("values", f"{who}: values of {k} are not those given (shape {ds[k].shape}, given {np.shape(v)})")
        if dims is not None and tuple(map(str, ds[k].dims)) != tuple(dims):
            return r.fail("labels", f"{who}: {k} has dimensions {ds[k].dims} instead of {dims}")
        if str(ds[k].dims[0]) != "draw":
            return r.fail("labels", f"{who}: first dimension of {k} is {ds[k].dims[0]}, not draw")
    for k, v in coords.items():
        if k not in ds.coords or tuple(ds.coords[k].dims) != (k,) or not _same(ds.coords[k].values, v):
            return r.fail("labels", f"{who}: coordinate {k} is not the grid given")


# ------------------------------------------------------------------------------------------------------------------ curves
def _curves(S, op):
    """-> (inputs, thunk, check(result) -> message or None)"""
    c = ppd_case(op)
    D, n, arr, calc, kind = c["D"], c["n"], c["arr"], S["calc"], op["kind"]
    kw = {}
    if c["rate"] is not None:
        kw["rate"] = c["rate"]
    if c["frac"] is not None:
        kw["pop_frac"] = c["frac"]
    R = np.asarray(c["rate"], np.float64) if c["rate"] is not None else np.ones(n)
    F = np.asarray(c["frac"], np.float64) if c["frac"] is not None else np.ones(n)
    f64 = lambda x: np.asarray(x, np.float64)  # noqa: E731

    def cs(k):
        return arr(D.r.normal(0, 1, size=(n, k)))

    def grids(got, want, what):
        return None if np.shape(got) == want.shape and close(got, want, 1e-5, 1e-5) else f"{what}: grid is not the documented one"

    def curve(got, lo, hi, what, rt=2e-3):
        got = np.asarray(got)
        if got.shape != lo.shape:
            return f"{what}: shape {got.shape} instead of {lo.shape}"
        sc = np.max(np.abs(hi), axis=-1, keepdims=True)
        bad = ~((got >= lo - rt * np.abs(lo) - 1e-5 * sc) & (got <= hi + rt * np.abs(hi) + 1e-5 * sc))
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            return f"{what}: {int(bad.sum())} of {bad.size} values; at {i}: {got[i]!r}, expected {lo[i]!r} to {hi[i]!r}"
        return None

    if kind in ("mass", "plpeak", "logpeak"):
        mmin, mmax = D.pick([3.0, 5.0]), D.pick([60.0, 100.0])
        ms, qs = np.linspace(mmin, mmax, 800), np.linspace(mmin / mmax, 1, 800)
        nm, nq = D.pick([6, 7]), D.pick([6, 7])
        q_cs = cs(nq)
        if kind == "mass":
            a = [cs(nm), q_cs, {"m1": nm, "q": nq}, mmin, mmax]
            fn = calc.calculate_bspline_mass_ppds
            sm, sq = M.RefSpline("LogXLogY", nm, (mmin, mmax)), M.RefSpline("LogY", nq, (mmin / mmax, 1.0))
            joint = lambda i: (sm(ms, f64(a[0])[i]), sq(qs, f64(q_cs)[i])[:, None])  # noqa: E731
        elif kind == "plpeak":
            a = [arr(D.r.uniform(-4, -1.2, size=n)), arr(D.r.uniform(0.2, 3, size=n)), arr(D.r.uniform(20, 40, size=n)), arr(D.r.uniform(2, 8, size=n)), arr(D.r.uniform(0, 1, size=n)), mmin, mmax]
            fn = calc.calculate_powerlaw_peak_mass_ppds
            joint = lambda i: (M.plpeak(ms, *[f64(a[j])[i] if j in (0, 2, 3, 4) else a[j] for j in (0, 5, 6, 2, 3, 4)]),  # noqa: E731
                               _pl(qs[:, None], f64(a[1])[i], np.where(ms > mmin, mmin / ms, 0.5)[None, :]) * (ms > mmin))
        else:
            a = [arr(D.r.uniform(2.5, 3.8, size=n)), arr(D.r.uniform(0.1, 0.5, size=n)), q_cs, {"q": nq}, mmin, mmax]
            fn = calc.calculate_peak_logm1_bspline_q_ppds
            sq = M.RefSpline("LogY", nq, (mmin / mmax, 1.0))
            joint = lambda i: (np.exp(-((np.log(ms) - f64(a[0])[i]) ** 2) / 2 / f64(a[1])[i] ** 2) / ms, sq(qs, f64(q_cs)[i])[:, None])  # noqa: E731

        def check(res):
            mp, gm, qp, gq = res
            b = grids(gm, ms, "m1") or grids(gq, qs, "q")
            if b:
                return b
            MQ = qs[:, None] * ms[None, :]
            out = {}
            for s, eps in (("lo", 2e-5), ("hi", -2e-5)):       # grid points on the edge m2 = mmin may fall on either side
                mask = MQ > mmin * (1 + eps)
                P, Q = [], []
                for i in range(n):
                    x, y = joint(i)
                    p = np.where(mask, x * y, 0.0)
                    P.append(np.trapz(p, qs, axis=0))
                    Q.append(np.trapz(p, ms, axis=1))
                out[s] = (np.array(P), np.array(Q))
            tot_m = np.trapz(0.5 * (out["lo"][0] + out["hi"][0]), ms)
            w = (R * F)[:, None]
            return curve(mp, w * out["lo"][0] / tot_m[:, None], w * out["hi"][0] / tot_m[:, None], "m1", 8e-3) or \
                curve(qp, w * out["lo"][1] / tot_m[:, None], w * out["hi"][1] / tot_m[:, None], "q", 8e-3)
    elif kind == "beta":
        amax = D.pick([1, 1, 0.75])
        al, be = D.r.uniform(1.05, 5, size=n), D.r.uniform(1.05, 5, size=n)
        if D.chance(0.3):
            al[0] = 1.0
        if D.chance(0.3):
            be[-1] = 1.0
        a = [arr(al), arr(be)]
        if amax != 1:
            kw["amax"] = amax
        fn = calc.calculate_beta_spin_mag
        aa = np.linspace(0, amax, 800)

        def check(res):
            p = []
            for i in range(n):
                x, y = f64(a[0])[i], f64(a[1])[i]
                with np.errstate(all="ignore"):
                    v = (aa / amax) ** (x - 1) * (1 - aa / amax) ** (y - 1)
                p.append(R[i] * F[i] * v / np.trapz(v, aa))
            return grids(res[1], aa, "a") or curve(res[0], np.array(p), np.array(p), "a")
    elif kind == "iso":
        a = [arr(D.r.uniform(0.2, 3, size=n)), arr(D.r.uniform(0, 1, size=n))]
        fn = calc.calculate_mixture_iso_aligned_spin_tilt
        ct = np.linspace(-1, 1, 800)

        def check(res):
            p = []
            for i in range(n):
                v = (1 - f64(a[1])[i]) / 2 + f64(a[1])[i] * M.tnorm(ct, 1.0, f64(a[0])[i], -1.0, 1.0)
                p.append(R[i] * F[i] * v / np.trapz(v, ct))
            return grids(res[1], ct, "cos_tilt") or curve(res[0], np.array(p), np.array(p), "cos_tilt")
    elif kind in ("iid", "ind"):
        aa, cc = np.linspace(0, 1, 800), np.linspace(-1, 1, 800)
        na, nt, na2, nt2 = (D.pick([6, 7]) for _ in range(4))
        a = [cs(na), cs(nt), {"a": na, "tilt": nt} if kind == "iid" else {"a1": na, "a2": na2, "tilt1": nt, "tilt2": nt2}]
        if kind == "ind":
            a += [cs(na2), cs(nt2)]
        fn = calc.calculate_bspline_spin_ppds

        def spl(c, g):
            s = M.RefSpline("LogY", c.shape[1], (g[0], 1.0))
            p = []
            for i in range(n):
                v = s(g, f64(c)[i])
                p.append(R[i] * F[i] * v / np.trapz(v, g))
            return np.array(p)

        def check(res):
            if kind == "iid":
                ps, gs = [(res[0], a[0], aa, "a"), (res[2], a[1], cc, "cos_tilt")], [(res[1], aa), (res[3], cc)]
            else:
                ps = [(res[0], a[0], aa, "a_1"), (res[1], a[3], aa, "a_2"), (res[3], a[1], cc, "cos_tilt_1"), (res[4], a[4], cc, "cos_tilt_2")]
                gs = [(res[2], aa), (res[5], cc)]
            for g, w in gs:
                b = grids(g, w, "spin")
                if b:
                    return b
            for got, c_, g, what in ps:
                w = spl(c_, g)
                b = curve(got, w, w, what)
                if b:
                    return b
    else:
        zf = M.PLRedshift(kind, op["s"] ^ 5)
        zm = zf.build(S)
        rate = arr(D.r.uniform(5, 80, size=n))
        la = arr(D.r.uniform(-2, 5, size=n))
        kw.pop("rate", None)
        zz = [f64(z) for z in zf.z]
        lo, hi = max(z.min() for z in zz), min(z.max() for z in zz)
        g = np.linspace(lo, hi, 1000)
        RR = f64(rate)
        if kind == "plz":
            a, fn = [la, rate, zm], calc.calculate_powerlaw_rate_of_z_ppds
        else:
            z_cs = arr(D.r.normal(0, 0.7, size=(n, zf.n - 1)))
            a, fn = [la, z_cs, rate, zm], calc.calculate_powerlaw_spline_rate_of_z_ppds

        def check(res):
            p = []
            for i in range(n):
                v = RR[i] * F[i] * (1 + g) ** f64(la)[i]
                if kind == "plsz":
                    v = v * np.exp(M.RefSpline("LogX", zf.n, (lo, hi), 4, False)(g, np.concatenate([[0.0], f64(z_cs)[i]])))
                p.append(v)
            p = np.array(p)
            got = np.array(res[0])
            b = grids(res[1], g, "z")
            if b or got.shape != p.shape:
                return b or f"shape {got.shape} instead of {p.shape}"
            if kind == "plsz":     # the two end points of the grid may round out of the spline's range
                got, p = got[:, 1:-1], p[:, 1:-1]
            return curve(got, p, p, "R(z)", 4e-3)
    return [x for x in a if not hasattr(x, "zs")] + [kw], lambda: fn(*a, **kw), check


def _pl(q, b, low):
    """power law in mass ratio between low and one, without the cut (which is applied on the grid)"""
    return q**b * (1 + b) / (1 - low ** (1 + b))


# ------------------------------------------------------------------------------------------------------------------ plots
def _plots(S, op, d):
    """-> (inputs, thunk, [(file, xlabel, x, {label: curves})])"""
    D = M.Draw(op["s"])
    kind, plot = op["kind"], S["plot"]
    k, n, g = D.pick([1, 2, 3]), D.pick([1, 3, 8]), D.pick([5, 30])
    zeros = D.chance(0.4)
    names = [SUBS[i] for i in D.r.permutation(len(SUBS))[:k]]

    def curves(scale=1.0):
        c = np.exp(D.r.normal(size=(k, n, g))) * scale
        if zeros:                          # draws without support in part of the range
            c[D.r.uniform(size=c.shape) < 0.3] = 0.0
        return c
    label = D.pick(["run", "O3 test", "x.1"])
    if kind == "mass":
        m, q = np.linspace(3, 80, g), np.linspace(0.05, 1, g)
        a, b = curves(0.1), curves()
        want = [(f"mass_pdf_{label}.png", "m1", m, {nm: a[i] for i, nm in enumerate(names)}), (f"mass_ratio_pdf_{label}.png", "q", q, {nm: b[i] for i, nm in enumerate(names)})]
        args = [a, b, m, q, names]
        return args, lambda save=True: plot.plot_mass_pdfs(*args, label, d, save=save), want
    if kind in ("spin", "spin2"):
        x, c = np.linspace(0, 1, g), np.linspace(-1, 1, g)
        a, b = curves(), curves(0.3)
        s = kind == "spin2"
        n_ = "2" if s else "1"
        want = [(f"spin_mag{n_}_pdf_{label}.png", f"a{n_}", x, {nm: a[i] for i, nm in enumerate(names)}),
                (f"cos_tilt{n_}_pdf_{label}.png", None, c, {nm: b[i] for i, nm in enumerate(names)})]
        args = [a, b, x, c, names]
        return args, lambda save=True: plot.plot_spin_pdfs(*args, label, d, secondary=s, save=save), want
    z, p = np.linspace(0.01, 1.9, g), curves(30)[0]
    args = [p, z]
    if kind == "z":
        return args, lambda save=True: plot.plot_rate_of_z_pdfs(p, z, label, d, save=save), [(f"redshift_pdf_{label}.png", "z", z, {"redshift": p})]
    ll = D.chance(0.5)

    def one(save=True):
        S["plt"].figure()
        plot.plot_pdf(z, p, names[0], loglog=ll)
        S["plt"].savefig(os.path.join(d, "one.png"))
        S["plt"].close()
    return args, one, [("one.png", None, z, {names[0]: p})]


def _fig_check(r, who, S, d, want):
    import matplotlib.image as mi

    saved = {}
    for path, art, png in S["saved"]:
        saved[path] = (art, png)
    for fname, xlabel, x, curves in want:
        p = os.path.join(d, fname)
        if not os.path.exists(p):
            return r.fail("missing-file", f"{who}: {fname} was not written (found {sorted(os.listdir(d))})")
        if p not in saved:
            raise HarnessError(f"{fname} was not written through Figure.savefig")
        art, png = saved[p]
        try:
            img, ref = mi.imread(p, format="png"), mi.imread(io.BytesIO(png), format="png")
        except Exception as e:  # noqa: BLE001
            return r.fail("torn-file", f"{who}: {fname} is not a readable image: {type(e).__name__}: {e}")
        if img.shape != ref.shape or not np.array_equal(img, ref):
            return r.fail("torn-file", f"{who}: {fname} is not the figure that was drawn")
        if len(art) != 1:
            raise HarnessError(f"{fname} has {len(art)} axes")
        ax = art[0]
        if xlabel is not None and ax["xlabel"] != xlabel:
            return r.fail("figure", f"{who}: {fname}: x axis is labelled {ax['xlabel']!r}")
        if sorted(lb for lb, _, _ in ax["lines"]) != sorted(curves):
            return r.fail("figure", f"{who}: {fname} shows {[lb for lb, _, _ in ax['lines']]}, not {list(curves)}")
        for lb, lx, ly in ax["lines"]:
            c = np.asarray(curves[lb], np.float64)
            if lx.shape != x.shape or not close(lx, x, 1e-9) or not close(ly, np.median(c, axis=0), 1e-6):
                return r.fail("figure", f"{who}: {fname}: the line {lb!r} is not the median of the curves given")
            lo, hi = np.percentile(c, 5, axis=0), np.percentile(c, 95, axis=0)
            pts = [(float(a), float(b)) for e in (lo, hi) for a, b in zip(x, e)]

            def near(band, pt):
                return pt in band or any(abs(a - pt[0]) <= 1e-9 * abs(pt[0]) + 1e-12 and abs(b - pt[1]) <= 1e-6 * abs(pt[1]) for a, b in band)
            if not any(all(near(b, pt) for pt in pts) for b in ax["bands"]):
                return r.fail("figure", f"{who}: {fname}: no band from the 5th to the 95th percentile of {lb!r}")


# ------------------------------------------------------------------------------------------------------------------ execution
def execute(plan, ctx):
    import gc

    S = ctx.state
    r = Result()
    d = ctx.fresh_dir()
    kept = []       # (who, result object, digest): what was handed out must stay as it was
    for i, op in enumerate(plan["ops"]):
        who = f"op{i} {op['op']}{' ' + op['kind'] if 'kind' in op else ''}"
        r.ops += 1
        want = None
        fig_dir = None
        if op["op"] == "post":
            inp = post_case(op)
            fn = lambda: S["utils"].posterior_dict_to_xarray(inp)  # noqa: E731
            want, coords = {k: (None, v) for k, v in inp.items()}, {}
        elif op["op"] == "pdf":
            p, grids, n, names = inp = pdf_case(op)
            fn = lambda: S["utils"].pdf_dict_to_xarray(p, grids, n, **({} if names is None else {"subpop_names": names}))  # noqa: E731
            if names is None:
                want = {f"{k}_pdfs": (("draw", k), v) for k, v in p.items()}
            else:
                want = {"redshift_pdfs": (("draw", "redshift"), p["redshift"])}
                want.update({f"{nm}_{k}_pdfs": (("draw", k), v[j]) for j, nm in enumerate(names) for k, v in p.items() if k != "redshift"})
            coords = {**grids, "draw": np.arange(n)}
        elif op["op"] == "ppd":
            inp, fn, check = _curves(S, op)
        else:
            fig_dir = os.path.join(d, f"fig{i}")
            os.makedirs(fig_dir)
            inp, fn, figs = _plots(S, op, fig_dir)
        before = _hash(inp)
        S["saved"].clear()
        S["watch"] = True
        try:
            st, v, exc = attempt(r, fn, op["m"])
            r.ev(who, st)
            if st == "raised" and not exc:
                return _stop(r, who, v)
            if st != "ok":
                if _hash(inp) != before:
                    r.fail("modified-input", f"{who}: a failed or interrupted call modified its input")
                    return r
                gc.collect()
                S["saved"].clear()
                try:
                    v = fn()       # the retry
                except Exception as e:  # noqa: BLE001
                    return _stop(r, who + " (retry)", e)
                r.probe("retries")
        finally:
            S["watch"] = False
            S["plt"].close("all")
        if op["op"] in ("post", "pdf"):
            _ds_check(r, who, v, want, coords)
            if not r.violations and op["disk"] is not None:
                _disk(r, S, who, v, want, coords, os.path.join(d, f"f{i}.nc"), op["disk"]["faults"])
            kept.append((who, {k: v[k].values for k in map(str, v.data_vars)}))
        elif op["op"] == "ppd":
            b = check(v)
            if b:
                r.fail("curves", f"{who}: {b}")
            kept.append((who, list(v)))
            r.ev(who, [h(x) for x in v])
        else:
            _fig_check(r, who, S, fig_dir, figs)
        if _hash(inp) != before:
            r.fail("modified-input", f"{who}: the arrays passed in were modified")
        if r.violations:
            return r
        if kept and len(kept[-1]) == 2:
            kept[-1] = (*kept[-1], _hash(kept[-1][1]))
    for who, obj, dg in kept:
        if _hash(obj) != dg:
            r.fail("result-changed", f"{who}: a result handed out earlier was changed by a later call")
    return r


def _stop(r, who, e):
    r.fail("raised", f"{who}: {type(e).__name__}: {str(e)[:300]}")
    return r


def _disk(r, S, who, ds, want, coords, path, faults):
    if faults:
        out, txt, fired = data.forked(lambda: ds.to_netcdf(path, engine="h5netcdf"), faults)
        r.fault(fired)
        if os.path.exists(path):
            os.unlink(path)
    try:
        ds.to_netcdf(path, engine="h5netcdf")
        with S["xr"].open_dataset(path, engine="h5netcdf") as f:
            got = f.load()
    except Exception as e:  # noqa: BLE001
        r.fail("disk", f"{who}: the exported dataset cannot be written and read: {type(e).__name__}: {str(e)[:200]}")
        return
    r.probe("disk_round_trip")
    _ds_check(r, who + " read back", got, want, coords)


