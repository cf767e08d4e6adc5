"""Population-model families: how to build one from a seed, how to evaluate it, and its density in float64 from the documentation."""
import numpy as np

from checks.c05 import Ref

LVK = Ref(67.90e3, 0.3065)


# ------------------------------------------------------------------------------------------------------------- reference splines
class RefSpline:
    """kind: M (normalised basis), B, LogX, LogY, LogXLogY"""

    def __init__(self, kind, n, xrange, k=4, normalize=None, knots=None):
        self.kind, self.n, self.k = kind, n, k
        self.xrange = tuple(float(v) for v in xrange)
        self.logx = kind in ("LogX", "LogXLogY")
        self.logy = kind in ("LogY", "LogXLogY")
        self.normalize = (kind != "B") if normalize is None else normalize
        lo, hi = np.log(self.xrange) if self.logx else self.xrange
        self.lo, self.hi = lo, hi
        if knots is None:
            dx = (hi - lo) / (n - k + 1)
            self.t = lo + dx * np.arange(-(k - 1), n + 1)
        else:
            self.t = np.log(knots) if self.logx else np.asarray(knots, np.float64)
        self.grid = np.linspace(*self.xrange, 1500 if kind == "LogXLogY" else 1000)
        self.edge = 0.0

    def raw(self, x, c, outside=0.0):
        """sum_i c_i B_i(x); `outside` beyond the range"""
        from scipy.interpolate import BSpline

        x = np.asarray(x, np.float64)
        c = np.asarray(c, np.float64)
        with np.errstate(divide="ignore", invalid="ignore"):
            u = np.log(x) if self.logx else x
        if self.kind == "M":
            w = self.k / (self.t[self.k:self.k + self.n] - self.t[:self.n])
            c = c * w
        ok = (x >= self.xrange[0]) & (x <= self.xrange[1])
        v = np.full(x.shape, outside)
        if ok.any():
            v[ok] = BSpline(self.t, c, self.k - 1)(np.clip(u[ok], self.lo, self.hi))
        return v

    def f(self, x, c):
        c = np.asarray(c, np.float64)
        if self.kind == "M":
            return self.raw(x, c / c.sum())
        if self.logy:
            return np.exp(self.raw(x, c, -np.inf))
        return self.raw(x, c)

    def __call__(self, x, c):
        v = self.f(x, c)
        if not self.normalize:
            self.edge = 0.0
            return v
        g = self.f(self.grid, c)
        tot = np.trapz(g, self.grid)
        # the outermost grid points can round to the other side of the range in single precision
        self.edge = 0.5 * (self.grid[1] - self.grid[0]) * (abs(g[0]) + abs(g[-1])) / abs(tot)
        return v / tot


def powerlaw(x, a, lo, hi):
    with np.errstate(all="ignore"):
        n = 1 / np.log(hi / lo) if a == -1 else (1 + a) / (hi ** (1 + a) - lo ** (1 + a))
        return np.where((x < lo) | (x > hi), 0.0, x**a * n)


def tnorm(x, mu, sig, lo, hi):
    from scipy.special import erf

    d = 0.5 * (erf((hi - mu) / sig / 2**0.5) - erf((lo - mu) / sig / 2**0.5))
    return np.where((x < lo) | (x > hi), 0.0, np.exp(-((x - mu) ** 2) / (2 * sig**2)) / (sig * (2 * np.pi) ** 0.5) / d)


def beta_pdf(x, a, b, scale=1.0):
    from scipy.special import betaln, xlogy

    with np.errstate(all="ignore"):
        ln = xlogy(a - 1, x) + xlogy(b - 1, scale - x) - (a + b - 1) * np.log(scale) - betaln(a, b)
        return np.where((x <= scale) & (x >= 0), np.exp(ln), 0.0)


def window(x, lo, d):
    with np.errstate(all="ignore"):
        w = 1 / (np.exp(d / (x - lo) + d / (x - lo - d)) + 1)
    return np.where(x <= lo, 0.0, np.where(x >= lo + d, 1.0, w))


def plpeak(m, alpha, lo, hi, mu, sig, lam, delta=None):
    return (1 - lam) * powerlaw(m, alpha, lo, hi) * (1.0 if delta is None else window(m, lo, delta)) + lam * tnorm(m, mu, sig, lo, hi)


# ------------------------------------------------------------------------------------------------------------- helpers
class Draw:
    def __init__(self, seed):
        self.r = np.random.RandomState(seed & 0x7FFFFFFF)

    def pick(self, xs):
        return xs[self.r.randint(len(xs))]

    def u(self, lo, hi):
        return float(np.round(self.r.uniform(lo, hi), 4))

    def chance(self, p):
        return self.r.uniform() < p


def samples(D, lo, hi, logx=False, edges=True, out=0.15, tlo=None, thi=None):
    """PE (events, samples) and injection (n,) arrays, mostly inside [lo, hi]; some beyond, down to tlo and up to thi."""
    shapes = [D.pick([(2, 4), (3, 5)]), D.pick([(7,), (16,)])]     # few shapes: every new one is compiled anew
    res = []
    for s in shapes:
        g = 1e-3
        w = hi - lo
        if logx:
            x = np.exp(D.r.uniform(np.log(lo * (1 + g)), np.log(hi * (1 - g)), size=s))
        else:
            x = D.r.uniform(lo + g * w, hi - g * w, size=s)
        if out:
            m = np.zeros(s, bool)
            m.flat[D.r.permutation(m.size)[:D.pick([0, 2])]] = True
            below = D.r.uniform(size=s) < 0.5
            if logx and tlo is None:
                tlo = 0.3 * lo
            bl = lo - (0.3 * w if tlo is None else (lo - tlo)) * D.r.uniform(0.01, 1, size=s)
            ab = hi + (0.3 * w if thi is None else (thi - hi)) * D.r.uniform(0.01, 1, size=s)
            if tlo is not None and lo - tlo <= 0:
                bl = x
            if thi is not None and thi - hi <= 0:
                ab = x
            x = np.where(m, np.where(below, bl, ab), x)
        if edges and not logx and D.chance(0.4):
            x.flat[0] = lo
            x.flat[-1] = hi
        res.append(x)
    return finish(D, *res)


def finish(D, *arrs):
    """The dtype / array type the caller happens to use (always single-precision values, so that the reference sees the same numbers)."""
    kind = D.pick(["f32", "f64", "jnp", "jnp"])
    out = []
    for a in arrs:
        a = np.asarray(a, np.float32)
        out.append(a.astype(np.float64) if kind == "f64" else a)
    if kind == "jnp":
        import jax.numpy as jnp

        out = [jnp.asarray(a) for a in out]
    return out


def coefs(D, n, logy):
    return D.r.normal(0, D.pick([0.3, 1.0, 3.0]), size=n).astype(np.float32) if logy else D.r.uniform(0.05, 2.0, size=n).astype(np.float32)


KIND = {"M": "BasisSpline", "B": "BSpline", "LogX": "LogXBSpline", "LogY": "LogYBSpline", "LogXLogY": "LogXLogYBSpline"}


def spline_conf(D, default, xr, allow=("B", "LogY", "LogX", "LogXLogY", "M")):
    """-> (kind, n, k, xrange, kwargs for the model class, RefSpline)"""
    kind, kw = default, {}
    if D.chance(0.35):
        c = [k for k in allow if xr[0] > 0 or k not in ("LogX", "LogXLogY")]
        kind = D.pick(c)
        kw["basis"] = KIND[kind]
    k = 4
    if D.chance(0.25):
        k = D.pick([3, 4, 5])
        kw["degree"] = k - 1
    norm = None
    if D.chance(0.4):
        norm = bool(D.chance(0.5))
        kw["normalize"] = norm
    n = D.pick([6, 7, 10])
    if D.chance(0.15):
        t = np.cumsum(D.r.uniform(0.5, 1.5, size=n + k))
        a, b = t[k - 1], t[n]
        lo, hi = (np.log(xr) if kind in ("LogX", "LogXLogY") else xr)
        t = lo + (t - a) / (b - a) * (hi - lo)
        t[k - 1], t[n] = lo, hi
        kw["knots"] = np.exp(t) if kind in ("LogX", "LogXLogY") else t
    return kind, n, k, kw, RefSpline(kind, n, xr, k, norm, kw.get("knots"))


def real_kw(S, kw):
    """The caller-owned dict itself: it is handed to every constructor and must stay as it is."""
    if isinstance(kw.get("basis"), str):
        kw["basis"] = getattr(S["interp"], kw["basis"])
    return kw


class Fam:
    rtol, arel = 2e-4, 4e-6

    def inputs(self):
        """caller-owned objects that must not change"""
        return self.own

    def resolve(self, S):
        for o in self.own:
            if isinstance(o, dict):
                real_kw(S, o)

    def fn(self, S, m, pe):
        """function of the hyper-parameters alone, to be compiled or batched"""
        return lambda h: self.call(S, m, h, pe)

    def tol(self):
        return self.rtol + 1.2 * sum(s.edge for s in getattr(self, "splines", []))


# ------------------------------------------------------------------------------------------------------------- single splines
SINGLE = {
    "spinmag": ("BSplineSpinMagnitude", "LogY", (0.0, 1.0)), "tilt": ("BSplineSpinTilt", "LogY", (-1.0, 1.0)),
    "chieff": ("BSplineChiEffective", "B", (-1.0, 1.0)), "symchieff": ("BSplineSymmetricChiEffective", "B", (0.0, 1.0)),
    "chip": ("BSplineChiPrecess", "B", (0.0, 1.0)), "ratio": ("BSplineRatio", "LogY", (0.0, 1.0)), "mass": ("BSplineMass", "LogXLogY", (2.0, 100.0)),
    "base": ("Base1DBSplineModel", "B", (0.0, 1.0)),
}


class Single(Fam):
    def __init__(self, name, seed):
        D = Draw(seed)
        self.cls, kind, xr = SINGLE[name]
        self.name = name
        kw = {}
        if name == "ratio" and D.chance(0.5):
            q = D.pick([0.0, 0.0625, 0.125])
            kw["qmin"], xr = q, (q, 1.0)
        elif name == "mass" and D.chance(0.6):
            a, b = D.pick([2.0, 3.0, 5.0]), D.pick([60.0, 80.0, 100.0])
            kw["mmin"], kw["mmax"], xr = a, b, (a, b)
        elif D.chance(0.3):
            xr = {"spinmag": (0.0, 0.75), "tilt": (-0.5, 1.0), "chieff": (-0.75, 0.5), "symchieff": (0.0, 0.5), "chip": (0.125, 1.0), "ratio": (0.25, 1.0),
                  "mass": (4.0, 64.0), "base": (-2.0, 6.0)}[name]
            kw["xrange"] = xr
        self.kind, self.n, self.k, kw2, self.ref_spline = spline_conf(D, kind, xr)
        kw.update(kw2)
        self.kw = kw
        self.splines = [self.ref_spline]
        logx = self.ref_spline.logx
        if name == "symchieff":
            x = samples(D, 0.0, xr[1], edges=False)
            x = [np.asarray(a) * np.where(D.r.uniform(size=a.shape) < 0.5, -1, 1) for a in x]
            self.x = finish(D, *x)
        else:
            self.x = samples(D, *xr, logx=logx, edges=not logx)
        self.own = [self.x, kw]

    def build(self, S):
        return getattr(S["single"], self.cls)(self.n, self.x[0], self.x[1], **real_kw(S, self.kw))

    def hyper(self, D):
        return {"coefs": coefs(D, self.n, self.ref_spline.logy)}

    def call(self, S, m, h, pe):
        return m(h["coefs"], pe_samples=pe)

    def ref(self, h, pe):
        x = np.asarray(self.x[0 if pe else 1], np.float64)
        if self.name == "symchieff":
            return 0.5 * self.ref_spline(np.abs(x), h["coefs"])
        return self.ref_spline(x, h["coefs"])


class Redshift(Fam):
    rtol = 1e-3

    def __init__(self, name, seed):
        D = Draw(seed)
        zm = D.pick([1.2, 1.9, 2.3])
        self.kw = {"zmax": zm} if D.chance(0.7) else {}
        if not self.kw:
            zm = 2.3
        norm = None
        if D.chance(0.7):
            norm = False
            self.kw["normalize"] = False
        self.n = D.pick([6, 7, 10])
        self.s = RefSpline("LogX", self.n, (1e-4, zm), 4, norm)
        self.z = samples(D, 1e-3, 0.95 * zm, logx=True, edges=False, out=0)
        self.dv = finish(D, *[LVK.dVcdz(np.asarray(z, np.float64)) for z in self.z])
        self.own = [self.z, self.dv, self.kw]

    def build(self, S):
        return S["single"].BSplineRedshift(self.n, self.z[0], self.z[1], self.dv[0], self.dv[1], **self.kw)

    def hyper(self, D):
        return {"coefs": coefs(D, self.n, not self.s.normalize)}

    def call(self, S, m, h, pe):
        return m(h["coefs"], pe_samples=pe)

    def ref(self, h, pe):
        z0, z1 = (np.asarray(z, np.float64) for z in self.z)
        g = np.linspace(max(z0.min(), z1.min()), min(z0.max(), z1.max()), 1000)
        z = z0 if pe else z1
        dv = np.asarray(self.dv[0 if pe else 1], np.float64)
        norm = np.trapz(LVK.dVcdz(g) / (1 + g) * np.exp(self.s(g, h["coefs"])), g)
        self.splines = [self.s]
        return dv / (1 + z) * np.exp(self.s(z, h["coefs"])) / norm

    def tol(self):
        return self.rtol + 60 * self.s.edge


# ------------------------------------------------------------------------------------------------------------- two-part spline models
class Pair(Fam):
    """Separable two-part models."""

    def __init__(self, name, seed):
        D = Draw(seed)
        self.name = name
        iid = name.startswith("iid")
        self.mass = name.endswith("mass")
        if name == "eff":
            ra, rb, da, db = (-1.0, 1.0), (0.0, 1.0), "B", "B"
        elif name.endswith("mag"):
            ra = rb = (0.0, 1.0)
            da = db = "LogY"
        elif name.endswith("tilt"):
            ra = rb = (-1.0, 1.0)
            da = db = "LogY"
        else:
            lo, hi = D.pick([2.0, 4.0]), D.pick([64.0, 100.0])
            ra = rb = (lo, hi)
            if not iid:
                rb = (D.pick([2.0, 3.0]), D.pick([50.0, 100.0]))
            da = db = "LogXLogY"
        _, na, _, kwa, sa = spline_conf(D, da, ra)
        if iid:
            nb, kwb, sb = na, kwa, RefSpline(sa.kind, na, rb, sa.k, sa.normalize, kwa.get("knots"))
        else:
            _, nb, _, kwb, sb = spline_conf(D, db, rb)
        self.na, self.nb, self.kwa, self.kwb, self.sa, self.sb = na, nb, kwa, kwb, sa, sb
        self.ra, self.rb = ra, rb
        self.splines = [sa, sb]
        self.a = samples(D, *ra, logx=sa.logx, edges=False)
        self.b = [D.r.permutation(np.asarray(x).reshape(-1)).reshape(x.shape) for x in self.a] if iid else None
        if self.b is None:
            self.b = []
            for x in self.a:
                y = D.r.uniform(rb[0] + 1e-3 * (rb[1] - rb[0]), rb[1] - 1e-3 * (rb[1] - rb[0]), size=x.shape)
                self.b.append(np.where(D.r.uniform(size=x.shape) < 0.1, rb[1] * 1.2 + 0.1, y))
        if iid and D.chance(0.5):          # two equal components in one binary
            for x, y in zip(self.a, self.b):
                y.flat[1] = np.asarray(x).flat[1]
        self.b = finish(D, *self.b)
        self.shared = D.chance(0.3)        # one caller-owned dict handed to both parts
        if self.shared and not iid:
            self.kwb = {k: v for k, v in self.kwa.items() if k != "knots"}
            self.kwa = self.kwb
            self.sa = RefSpline({v: k for k, v in KIND.items()}[self.kwa["basis"]] if "basis" in self.kwa else da, na, ra, self.kwa.get("degree", 3) + 1, self.kwa.get("normalize"))
            self.sb = RefSpline({v: k for k, v in KIND.items()}[self.kwb["basis"]] if "basis" in self.kwb else db, nb, rb, self.kwb.get("degree", 3) + 1, self.kwb.get("normalize"))
            if rb[0] <= 0 and self.sb.logx or nb < self.sb.k or (ra[0] <= 0 and self.sa.logx):
                self.kwa = self.kwb = {}
                self.sa, self.sb = RefSpline(da, na, ra), RefSpline(db, nb, rb)
                self.na, self.nb = max(na, 5), max(nb, 5)
                self.sa, self.sb = RefSpline(da, self.na, ra), RefSpline(db, self.nb, rb)
            self.splines = [self.sa, self.sb]
        self.common = {}                    # keyword arguments for both parts at once
        if not iid and D.chance(0.35):
            for key in ("normalize", "degree"):
                if key in self.kwa and self.kwa.get(key) == self.kwb.get(key) and D.chance(0.7):
                    self.common[key] = self.kwa[key]
            if not self.common and "normalize" not in self.kwa and "normalize" not in self.kwb:
                self.common["normalize"] = bool(D.chance(0.5))
                self.sa.normalize = self.sb.normalize = self.common["normalize"]
            for key in self.common:
                self.kwa.pop(key, None)
                self.kwb.pop(key, None)
        self.own = [self.a, self.b, self.kwa, self.kwb, self.common]

    def build(self, S):
        sep = S["separable"]
        a, b, n = self.a, self.b, self.name
        ka = real_kw(S, self.kwa)
        kb = ka if self.kwb is self.kwa else real_kw(S, self.kwb)
        cm = self.common
        if n == "iidmag":
            return sep.BSplineIIDSpinMagnitudes(self.na, a[0], b[0], a[1], b[1], **ka)
        if n == "indmag":
            return sep.BSplineIndependentSpinMagnitudes(self.na, self.nb, a[0], b[0], a[1], b[1], kwargs1=ka, kwargs2=kb, **cm)
        if n == "iidtilt":
            return sep.BSplineIIDSpinTilts(self.na, a[0], b[0], a[1], b[1], **ka)
        if n == "indtilt":
            return sep.BSplineIndependentSpinTilts(self.na, self.nb, a[0], b[0], a[1], b[1], kwargs1=ka, kwargs2=kb, **cm)
        if n == "iidmass":
            return sep.BSplineIIDComponentMasses(self.na, a[0], b[0], a[1], b[1], mmin=self.ra[0], mmax=self.ra[1], **ka)
        if n == "indmass":
            return sep.BSplineIndependentComponentMasses(self.na, self.nb, a[0], b[0], a[1], b[1], mmin1=self.ra[0], mmax1=self.ra[1], mmin2=self.rb[0], mmax2=self.rb[1],
                                                         kwargs1=ka, kwargs2=kb, **cm)
        return sep.BSplineEffectiveSpinDims(self.na, self.nb, a[0], b[0], a[1], b[1], kwargs_e=ka, kwargs_p=kb, **cm)

    def hyper(self, D):
        h = {"c1": coefs(D, self.na, self.sa.logy)}
        if not self.name.startswith("iid"):
            h["c2"] = coefs(D, self.nb, self.sb.logy)
        if self.mass:
            h["beta"] = D.pick([0.0, D.u(-2, 3)])
        return h

    def call(self, S, m, h, pe):
        a = [h["c1"]] + ([h["c2"]] if "c2" in h else [])
        k = {"beta": h["beta"]} if "beta" in h else {}
        return m(*a, pe_samples=pe, **k)

    def ref(self, h, pe):
        i = 0 if pe else 1
        a, b = np.asarray(self.a[i], np.float64), np.asarray(self.b[i], np.float64)
        v = self.sa(a, h["c1"]) * self.sb(b, h.get("c2", h["c1"]))
        if self.mass:
            q = b / a
            with np.errstate(invalid="ignore"):
                v = v * q ** h["beta"]
            if self.name == "iidmass":
                v = np.where((q < 0) | (q > 1), 0.0, v)
        return v

    def skip(self, h, pe):
        i = 0 if pe else 1
        a, b = np.asarray(self.a[i], np.float64), np.asarray(self.b[i], np.float64)
        with np.errstate(all="ignore"):
            q = b / a
        # undefined 0 * inf of a power of a non-positive mass ratio is not a physical input
        return ((np.abs(q - 1) < 1e-5) & (a != b)) | ((q <= 0) if self.mass else False)


class MassRatio(Fam):
    rtol = 4e-4

    def __init__(self, name, seed):
        D = Draw(seed)
        self.name = name
        self.lo, self.hi = D.pick([2.0, 3.0, 5.0]), D.pick([64.0, 80.0, 100.0])
        self.m = samples(D, self.lo, self.hi, logx=True, edges=False, tlo=1.0, thi=150.0)
        self.q = finish(D, *[D.r.uniform(0.02, 1.0, size=x.shape) for x in self.m])
        self.kwm, self.kwq = {}, {}
        self.splines = []
        self.n = 0
        if name in ("bprim", "bprimratio"):
            _, self.n, _, self.kwm, self.sm = spline_conf(D, "LogXLogY", (self.lo, self.hi))
            self.splines.append(self.sm)
        if name == "bprimratio":
            self.m2 = D.pick([2.0, 4.0])
            self.q0 = self.m2 / self.hi
            _, self.nq, _, self.kwq, self.sq = spline_conf(D, "LogY", (self.q0, 1.0))
            self.splines.append(self.sq)
        if name == "plratio":
            q0 = D.pick([0.0, 0.0625])
            _, self.nq, _, self.kwq, self.sq = spline_conf(D, "LogY", (q0, 1.0))
            if q0:
                self.kwq["qmin"] = q0
            self.splines.append(self.sq)
        if name in ("ppl", "ppr"):
            self.n = D.pick([6, 7, 10])
            self.sm = RefSpline("B", self.n, (np.log(self.lo), np.log(self.hi)), 4)
        if name == "ppr":
            self.nq = D.pick([6, 7])
            self.sq = RefSpline("B", self.nq, (0.0, 1.0), 4)
        self.m2min = D.pick([2.0, 3.0])
        self.own = [self.m, self.q, self.kwm, self.kwq]

    def build(self, S):
        m, q, n = self.m, self.q, self.name
        if n == "bprim":
            return S["separable"].BSplinePrimaryPowerlawRatio(self.n, m[0], m[1], mmin=self.lo, mmax=self.hi, **real_kw(S, self.kwm))
        if n == "plratio":
            return S["separable"].PLPeakPrimaryBSplineRatio(self.nq, q[0], q[1], **real_kw(S, self.kwq))
        if n == "bprimratio":
            return S["separable"].BSplinePrimaryBSplineRatio(self.n, self.nq, m[0], m[1], q[0], q[1], mmax=self.hi, m1min=self.lo, m2min=self.m2,
                                                             kwargs_m=real_kw(S, self.kwm), kwargs_q=real_kw(S, self.kwq))
        if n == "ppl":
            return S["perturb"].PowerlawBasisSplinePrimaryPowerlawRatio(self.n, m[0], m[1], mmin=self.lo, m2min=self.m2min, mmax=self.hi)
        return S["perturb"].PowerlawBasisSplinePrimaryRatio(self.n, self.nq, m[0], q[0], m[1], q[1], mmin=self.lo, mmax=self.hi)

    def hyper(self, D):
        n = self.name
        h = {}
        if n in ("bprim", "ppl", "ppr"):
            h["beta"] = D.pick([-1.0, D.u(-0.8, 4), D.u(-3, -1.2)]) if n != "ppr" else D.pick([-1.0, D.u(0, 3)])
        if n == "bprim":
            h["mmin"] = D.pick([self.lo, D.u(1.0, 6.0)])
            h["coefs"] = coefs(D, self.n, self.sm.logy)
        if n == "plratio":
            h.update(alpha=D.pick([-1.0, D.u(-4, -1.2), D.u(0, 2)]), mmin=self.lo, mmax=self.hi, peak_mean=D.u(20, 40), peak_sd=D.u(2, 8), peak_frac=D.u(0, 1),
                     coefs=coefs(D, self.nq, self.sq.logy))
        if n == "bprimratio":
            h.update(mcoefs=coefs(D, self.n, self.sm.logy), qcoefs=coefs(D, self.nq, self.sq.logy))
        if n in ("ppl", "ppr"):
            h.update(alpha=D.pick([1.0, D.u(1.2, 4), D.u(-2, 0.7)]), mmin=D.pick([self.lo, self.lo + 0.75]), mmax=D.pick([self.hi, self.hi - 7.5]),
                     cs=D.r.normal(0, D.pick([0.3, 1.0]), size=self.n).astype(np.float32))
        if n == "ppr":
            h["vs"] = D.r.normal(0, 0.6, size=self.nq).astype(np.float32)
        return h

    def call(self, S, mod, h, pe):
        i = 0 if pe else 1
        m, q, n = self.m[i], self.q[i], self.name
        if n == "bprim":
            return mod(m, q, h["beta"], h["mmin"], h["coefs"], pe_samples=pe)
        if n == "plratio":
            return mod(m, h["alpha"], h["mmin"], h["mmax"], h["peak_mean"], h["peak_sd"], h["peak_frac"], h["coefs"], pe_samples=pe)
        if n == "bprimratio":
            return mod(h["mcoefs"], h["qcoefs"], pe_samples=pe)
        return mod(m, q, **h)

    def ref(self, h, pe):
        i = 0 if pe else 1
        m, q, n = np.asarray(self.m[i], np.float64), np.asarray(self.q[i], np.float64), self.name
        if n == "bprim":
            return self.sm(m, h["coefs"]) * powerlaw(q, h["beta"], h["mmin"] / m, 1.0)
        if n == "plratio":
            return self.sq(q, h["coefs"]) * plpeak(m, h["alpha"], h["mmin"], h["mmax"], h["peak_mean"], h["peak_sd"], h["peak_frac"])
        if n == "bprimratio":
            return self.sq(q, h["qcoefs"]) * self.sm(m, h["mcoefs"])
        ms = np.linspace(self.lo, self.hi, 1000)
        if n == "ppl":
            def pm(x):
                return powerlaw(x, -h["alpha"], h["mmin"], h["mmax"]) * np.exp(self.sm(np.log(x), h["cs"]))
            return pm(m) / np.trapz(pm(ms), ms) * powerlaw(q, h["beta"], self.m2min / m, 1.0)
        qs = np.linspace(self.lo / self.hi, 1, 500)

        def p(x, y):
            return (powerlaw(x, -h["alpha"], h["mmin"], h["mmax"]) * np.exp(self.sm(np.log(x), h["cs"]))
                    * powerlaw(y, h["beta"], h["mmin"] / x, 1.0) * np.exp(self.sq(y, h["vs"])))
        mm, qq = np.meshgrid(ms, qs)
        # the integrand is infinite where the allowed mass ratios shrink to a point; that column carries no weight on the grid
        g = np.nan_to_num(p(mm, qq), nan=0.0, posinf=0.0, neginf=0.0)
        return p(m, q) / np.trapz(np.trapz(g, qs, axis=0), ms)

    def skip(self, h, pe):
        i = 0 if pe else 1
        m, q = np.asarray(self.m[i], np.float64), np.asarray(self.q[i], np.float64)
        lo, hi = h.get("mmin", self.lo), h.get("mmax", self.hi)
        s = (np.abs(m - lo) < 1e-3) | (np.abs(m - hi) < 1e-2)
        for e in (lo, self.m2min):
            s |= np.abs(q * m - e) < 1e-3 * e
        if self.name == "ppr":
            d = np.abs(np.linspace(self.lo, self.hi, 1000) - lo)
            if ((d > 0) & (d < 5e-3)).any():
                s |= True
        return s | (m < 1.05 * max(lo, self.m2min))   # the normalisation of a mass ratio range that shrinks to a point loses all digits


# ------------------------------------------------------------------------------------------------------------- redshift models
class PLRedshift(Fam):

    def __init__(self, name, seed):
        D = Draw(seed)
        self.name = name
        zm = D.pick([0.8, 1.5, 2.3])
        self.z = samples(D, 1e-2, zm, logx=True, edges=False, out=0)
        self.n = D.pick([6, 7])
        self.own = [self.z]

    def build(self, S):
        if self.name == "plz":
            return S["parametric"].PowerlawRedshiftModel(self.z[0], self.z[1])
        return S["perturb"].PowerlawSplineRedshiftModel(self.n, self.z[0], self.z[1])

    def hyper(self, D):
        h = {"lamb": D.u(-3, 6)}
        if self.name != "plz":
            h["cs"] = D.r.normal(0, 0.7, size=self.n).astype(np.float32)
        return h

    def call(self, S, m, h, pe):
        z = self.z[0 if pe else 1]
        return m(z, h["lamb"]) if self.name == "plz" else m(z, h["lamb"], h["cs"])

    def ref(self, h, pe):
        z0, z1 = (np.asarray(z, np.float64) for z in self.z)
        lo, hi = max(z0.min(), z1.min()), min(z0.max(), z1.max())
        g = np.linspace(lo, hi, 1000)
        sp = RefSpline("LogX", self.n, (lo, hi), 4, False) if self.name != "plz" else None

        def p(z):
            v = LVK.dVcdz(z) * (1 + z) ** (h["lamb"] - 1)
            return v if sp is None else v * np.exp(sp(z, h["cs"]))
        z = z0 if pe else z1
        return np.where(z <= hi, p(z) / np.trapz(p(g), g), 0.0)

    def skip(self, h, pe):
        z0, z1 = (np.asarray(z, np.float64) for z in self.z)
        z = z0 if pe else z1
        lo, hi = max(z0.min(), z1.min()), min(z0.max(), z1.max())
        if hi - lo < 1e-3:
            return np.ones(z.shape, bool)
        return (np.abs(z - hi) < 1e-5) | (np.abs(z - lo) < 1e-5)

    def tol(self):
        return 1e-3 if self.name == "plz" else 8e-3


# ------------------------------------------------------------------------------------------------------------- bare splines, parametric
class Bare(Fam):
    """An interpolation object queried at arbitrary points."""

    def __init__(self, name, seed):
        D = Draw(seed)
        xr = D.pick([(0.0, 1.0), (0.1, 1.0), (2.0, 90.0), (-1.0, 3.0)])
        self.kind, self.n, self.k, self.kw, self.s = spline_conf(D, D.pick(["B", "LogY"]), xr)
        self.kw.pop("degree", None)
        self.splines = [self.s]
        self.xr = xr
        self.x = samples(D, *xr, logx=self.s.logx, edges=not self.s.logx)
        self.own = [self.x, self.kw]

    def build(self, S):
        kw = {k: v for k, v in self.kw.items() if k != "basis"}
        return getattr(S["interp"], KIND[self.kind])(self.n, xrange=self.xr, k=self.k, **kw)

    def hyper(self, D):
        return {"coefs": coefs(D, self.n, self.s.logy)}

    def fn(self, S, m, pe):
        b = m.bases(self.x[0 if pe else 1])
        return lambda h: m.project(b, h["coefs"])

    def call(self, S, m, h, pe):
        x = self.x[0 if pe else 1]
        return m(x, h["coefs"]) if pe else m.project(m.bases(x), h["coefs"])

    def ref(self, h, pe):
        return self.s(np.asarray(self.x[0 if pe else 1], np.float64), h["coefs"])


class Natural(Fam):
    rtol, arel = 2e-4, 1e-4

    def __init__(self, name, seed):
        D = Draw(seed)
        self.n = int(D.r.randint(4, 12))
        t = np.cumsum(D.r.uniform(0.5, 1.5, size=self.n))
        import jax.numpy as jnp

        self.t = jnp.asarray(t, dtype=jnp.float32)
        lo, hi = float(self.t[0]), float(self.t[-1])
        self.x = samples(D, lo, hi, edges=False, out=0)
        self.own = [self.x, self.t]

    def build(self, S):
        return S["interp"].NaturalCubicUnivariateSpline

    def hyper(self, D):
        return {"coefs": D.r.normal(size=self.n).astype(np.float32)}

    def call(self, S, m, h, pe):
        return m(self.t, h["coefs"])(self.x[0 if pe else 1])

    def ref(self, h, pe):
        from scipy.interpolate import CubicSpline

        return CubicSpline(np.asarray(self.t, np.float64), np.asarray(h["coefs"], np.float64), bc_type="natural")(np.asarray(self.x[0 if pe else 1], np.float64))


class Rect(Fam):
    rtol = 4e-4

    def __init__(self, name, seed):
        D = Draw(seed)
        self.norm = D.chance(0.08)
        self.nx, self.ny = (4, 5) if self.norm else (D.pick([6, 7]), D.pick([6, 7]))
        self.rx, self.ry = D.pick([(0.0, 1.0), (2.0, 40.0)]), D.pick([(0.0, 1.0), (-1.0, 1.0)])
        self.x = samples(D, *self.rx, edges=False, out=0)
        self.y = [np.asarray(D.r.uniform(self.ry[0] + 1e-3, self.ry[1] - 1e-3, size=x.shape), np.float32) for x in self.x]
        self.own = [self.x, self.y]

    def build(self, S):
        kw = {} if self.nx > 4 else {"kx": 3, "ky": 3}
        return S["interp"].RectBivariateBasisSpline(self.nx, self.ny, xrange=self.rx, yrange=self.ry, normalize=self.norm, **kw)

    def hyper(self, D):
        return {"coefs": D.r.normal(0, 0.8, size=(self.nx, self.ny)).astype(np.float32)}

    def fn(self, S, m, pe):
        b = m.bases(self.x[0 if pe else 1], self.y[0 if pe else 1])
        return lambda h: m.project(b, h["coefs"])

    def call(self, S, m, h, pe):
        i = 0 if pe else 1
        return m.project(m.bases(self.x[i], self.y[i]), h["coefs"])

    def ref(self, h, pe):
        i = 0 if pe else 1
        k = 4 if self.nx > 4 else 3
        sx, sy = RefSpline("B", self.nx, self.rx, k), RefSpline("B", self.ny, self.ry, k)
        c = np.asarray(h["coefs"], np.float64)

        def Bm(s, x):
            return np.array([s.raw(x, e) for e in np.eye(s.n)])
        x, y = np.asarray(self.x[i], np.float64), np.asarray(self.y[i], np.float64)
        v = np.exp(np.einsum("i...,j...,ij->...", Bm(sx, x), Bm(sy, y), c))
        if self.norm:
            gx, gy = np.linspace(*self.rx, 750), np.linspace(*self.ry, 750)
            g = np.exp(Bm(sx, gx).T @ c @ Bm(sy, gy))
            v = v / np.trapz(np.trapz(g, gy, axis=1), gx)
        return v


class Param(Fam):
    """Parametric densities (plain functions)."""

    def __init__(self, name, seed):
        D = Draw(seed)
        self.name = name
        if name in ("plq", "plfall", "plpeakq", "plpeak1"):
            self.lo, self.hi = D.pick([2.0, 3.0, 5.0]), D.pick([64.0, 80.0, 100.0])
            self.a = samples(D, self.lo, self.hi, logx=True, edges=False, tlo=1.0, thi=150.0)
            self.b = finish(D, *[D.r.uniform(0.02, 1.0, size=x.shape) for x in self.a])
        elif "mag" in name:
            self.amax = D.pick([None, None, 0.75, 0.875])
            self.a, self.b = samples(D, 0.0, self.amax or 1.0, tlo=-0.2 if D.chance(0.3) else 0.0), None
            self.b = finish(D, *[D.r.uniform(1e-3, 0.999, size=x.shape) for x in self.a])
        else:
            self.a = samples(D, -1.0, 1.0)
            self.b = finish(D, *[D.r.uniform(-1.2, 1.2, size=x.shape) for x in self.a])
        self.delta = D.pick([None, D.u(2, 8)])
        self.own = [self.a, self.b]

    def build(self, S):
        P = S["parametric"]
        return {"plq": P.powerlaw_primary_ratio_pdf, "plfall": P.powerlaw_primary_ratio_falloff_pdf, "plpeakq": P.plpeak_primary_ratio_pdf, "plpeak1": P.plpeak_primary_pdf,
                "mag1": P.beta_spin_magnitude, "magiid": P.iid_spin_magnitude, "magind": P.independent_spin_magnitude_beta_dist, "tilt1": P.mixture_isoalign_spin_tilt,
                "tiltiid": P.iid_spin_tilt, "tiltind": P.independent_spin_tilt, "tiltdef": P.default_spin_tilt}[self.name]

    def hyper(self, D):
        n = self.name
        h = {}
        if n in ("plq", "plfall", "plpeakq", "plpeak1"):
            h.update(alpha=D.pick([-1.0, D.u(-4, -1.2), D.u(0, 2), -1.0 + D.pick([-1, 1]) * D.u(0.005, 0.2)]), mmin=self.lo, mmax=self.hi)
            if n != "plpeak1":
                h["beta"] = D.pick([-1.0, D.u(-0.8, 4), D.u(-3, -1.2), -1.0 + D.pick([-1, 1]) * D.u(0.05, 0.2)])
            if n == "plfall":
                h["fall_off"] = D.u(1, 6)
            if "peak" in n:
                h.update(mpp=D.u(20, 40), sigpp=D.u(2, 8), lam=D.u(0, 1))
                if self.delta is not None:
                    h["delta"] = self.delta
        elif n == "mag1":
            h.update(alpha=D.u(1, 5), beta=D.u(1, 5))
        elif n == "magiid":
            h.update(alpha_mag=D.u(1, 5), beta_mag=D.u(1, 5))
        elif n == "magind":
            h.update(alpha_mag1=D.u(1, 5), beta_mag1=D.u(1, 5), alpha_mag2=D.u(1, 5), beta_mag2=D.u(1, 5))
        elif n == "tiltind":
            h.update(xi_tilt_1=D.u(0, 1), xi_tilt_2=D.u(0, 1), sigma_tilt1=D.u(0.2, 3), sigma_tilt2=D.u(0.2, 3))
        else:
            h.update(xi_tilt=D.u(0, 1), sigma_tilt=D.u(0.2, 3))
        if "mag" in n:
            for k in list(h):
                if D.chance(0.3):
                    h[k] = 1.0
            if self.amax:
                h.update({"amax1": self.amax, "amax2": D.pick([1.0, 0.75])} if n == "magind" else {"amax": self.amax})
        return h

    def call(self, S, f, h, pe):
        i = 0 if pe else 1
        a = (self.a[i],) if self.name in ("plpeak1", "mag1", "tilt1") else (self.a[i], self.b[i])
        return f(*a, **h)

    def ref(self, h, pe):
        i = 0 if pe else 1
        a, b, n = np.asarray(self.a[i], np.float64), np.asarray(self.b[i], np.float64), self.name
        if n == "plq":
            return powerlaw(b, h["beta"], h["mmin"] / a, 1.0) * powerlaw(a, h["alpha"], h["mmin"], h["mmax"])
        if n == "plfall":
            with np.errstate(over="ignore"):
                return powerlaw(b, h["beta"], h["mmin"] / a, 1.0) * a ** h["alpha"] / (1 + np.exp(-h["fall_off"] * (a - h["mmin"]))) / (1 + np.exp(4.0 * (a - h["mmax"])))
        if n in ("plpeak1", "plpeakq"):
            v = plpeak(a, h["alpha"], h["mmin"], h["mmax"], h["mpp"], h["sigpp"], h["lam"], h.get("delta"))
            if n == "plpeakq":
                v = v * powerlaw(b, h["beta"], h["mmin"] / a, 1.0)
                if "delta" in h:
                    v = v * window(a * b, h["mmin"], h["delta"])
            return v
        if n == "mag1":
            return beta_pdf(a, h["alpha"], h["beta"], h.get("amax", 1.0))
        if n == "magiid":
            return beta_pdf(a, h["alpha_mag"], h["beta_mag"], h.get("amax", 1.0)) * beta_pdf(b, h["alpha_mag"], h["beta_mag"], h.get("amax", 1.0))
        if n == "magind":
            return beta_pdf(a, h["alpha_mag1"], h["beta_mag1"], h.get("amax1", 1.0)) * beta_pdf(b, h["alpha_mag2"], h["beta_mag2"], h.get("amax2", 1.0))

        def t(x, xi, s):
            return np.where((x > 1) | (x < -1), 0.0, 0.5) * (1 - xi) + xi * tnorm(x, 1.0, s, -1.0, 1.0)
        if n == "tilt1":
            return t(a, h["xi_tilt"], h["sigma_tilt"])
        if n == "tiltiid":
            return t(a, h["xi_tilt"], h["sigma_tilt"]) * t(b, h["xi_tilt"], h["sigma_tilt"])
        if n == "tiltind":
            return t(a, h["xi_tilt_1"], h["sigma_tilt1"]) * t(b, h["xi_tilt_2"], h["sigma_tilt2"])
        iso = [np.where((x > 1) | (x < -1), 0.0, 0.5) for x in (a, b)]
        ali = [tnorm(x, 1.0, h["sigma_tilt"], -1.0, 1.0) for x in (a, b)]
        return (1 - h["xi_tilt"]) * iso[0] * iso[1] + h["xi_tilt"] * ali[0] * ali[1]

    def skip(self, h, pe):
        i = 0 if pe else 1
        a, b = np.asarray(self.a[i], np.float64), np.asarray(self.b[i], np.float64)
        s = np.zeros(a.shape, bool)
        if "mmin" in h:
            lo, hi = h["mmin"], h["mmax"]
            s |= (np.abs(a - lo) < 1e-3) | (np.abs(a - hi) < 1e-2) | (np.abs(a * b - lo) < 1e-3 * lo) | (a < 1.05 * lo)
            if "delta" in h:
                for x in (a, a * b):
                    s |= np.abs(x - lo - h["delta"]) < 1e-2
                    s |= (x > lo) & (window(x, lo, h["delta"]) < 1e-6)
        else:
            for x in (a, b):
                s |= (np.abs(np.abs(x) - 1) < 1e-5) & (np.abs(x) != 1)
        return s


FAMILIES = {**{n: Single for n in SINGLE}, "bz": Redshift, **{n: Pair for n in ("iidmag", "indmag", "iidtilt", "indtilt", "iidmass", "indmass", "eff")},
            **{n: MassRatio for n in ("bprim", "plratio", "bprimratio", "ppl", "ppr")}, "plz": PLRedshift, "plsz": PLRedshift, "bare": Bare, "natural": Natural, "rect": Rect,
            **{n: Param for n in ("plq", "plfall", "plpeakq", "plpeak1", "mag1", "magiid", "magind", "tilt1", "tiltiid", "tiltind", "tiltdef")}}
SLOW = {"ppr"}
STATEFUL = [n for n in FAMILIES if FAMILIES[n] is not Param and n != "natural"]


def modules():
    import gwinferno.interpolation as interp
    from gwinferno.models import spline_perturbation as perturb
    from gwinferno.models.bsplines import separable, single
    from gwinferno.models.parametric import parametric

    return {"interp": interp, "perturb": perturb, "separable": separable, "single": single, "parametric": parametric}


def family(spec):
    return FAMILIES[spec["fam"]](spec["fam"], spec["s"])
