"""Seeded PE / injection datasets, the reference for what loading them must give, and forked (crashable) operations."""
import json
import os
import signal

import numpy as np

PARAMS = ["mass_1", "mass_2", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2", "chi_eff", "chi_p"]
EVENTS = ["GW150914", "GW150914_095045", "GW1", "GW10", "GW190521", "GW190521_074359", "S230529ay", "GW200105", "gw150914", "GW 3", "GW170817"]


def cfg(rng, big=False):
    """A dataset description (pure JSON)."""
    n_ev = rng.choice([1, 2, 3, 5])
    return {
        "ev": rng.sample(EVENTS, n_ev),
        "pe_params": rng.sample(PARAMS, rng.randint(1, 5)) + ["prior"],
        "inj_params": rng.sample(PARAMS, rng.randint(1, 5)) + ["prior"],
        "ns": rng.choice([1, 2, 7, 40]) if not big else rng.choice([200, 1500]),
        "ni": rng.choice([1, 3, 25, 90]) if not big else rng.choice([400, 3000]),
        "dt": rng.choice(["f4", "f8", "f8"]),
        "tot": rng.choice([1, 7, 12345, 73_957_577, 987_654_321_013]),
        "tot_t": rng.choice(["int", "i8", "f8"]),
        "time": rng.choice([rng.uniform(0.1, 3), round(rng.uniform(0.1, 3), 2), 1.0]),
        "special": rng.random() < 0.3,
        "prior_first": rng.random() < 0.3,
        "seed": rng.randrange(1 << 30),
    }


def make(c):
    import xarray as xr

    r = np.random.RandomState(c["seed"])

    def arr(*shape):
        a = np.exp(r.normal(size=shape) * 3)
        if c["special"] and a.size > 3:
            f = a.reshape(-1)
            idx = r.permutation(a.size)[:4]
            f[idx] = [np.nan, np.inf, -0.0, 1e-42]
        return a.astype(c["dt"])

    pp = list(c["pe_params"])
    ip = list(c["inj_params"])
    if c.get("prior_first"):
        pp = pp[-1:] + pp[:-1]
        ip = ip[-1:] + ip[:-1]
    pe = xr.DataArray(arr(len(c["ev"]), len(pp), c["ns"]), dims=["event", "param", "samples"],
                      coords={"event": list(c["ev"]), "param": pp, "samples": np.arange(c["ns"])}).to_dataset(name="posteriors", promote_attrs=True)
    tot = {"int": int, "i8": np.int64, "f8": float}[c["tot_t"]](c["tot"])
    inj = xr.DataArray(arr(len(ip), c["ni"]), dims=["param", "injection"], coords={"param": ip, "injection": np.arange(c["ni"])},
                       attrs={"total_generated": tot, "analysis_time": c["time"]}).to_dataset(name="injections", promote_attrs=True)
    return pe, inj


def expected(c, ignore=None):
    """What load must return for a saved dataset: f32 view of the very values that were saved."""
    pe, inj = make(c)
    keep = [i for i, e in enumerate(c["ev"]) if not (ignore and e in ignore)]
    with np.errstate(over="ignore"):
        P = {str(k): np.asarray(pe["posteriors"].values[keep, j], np.float32) for j, k in enumerate(pe["param"].values)}
        I = {str(k): np.asarray(inj["injections"].values[j], np.float32) for j, k in enumerate(inj["param"].values)}
    return P, I, {"total_inj": c["tot"], "obs_time": c["time"], "nObs": len(keep)}, [str(k) for k in pe["param"].values]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and bool(np.all((a == b) | ((a != a) & (b != b))))


def diff(got, want):
    """'' if a load result equals the expectation, else what differs."""
    try:
        P, I, const, names = got
    except (TypeError, ValueError):
        return "result is not (pe, injections, constants, names)"
    for what, g, w in (("PE", P, want[0]), ("injection", I, want[1])):
        if {str(k) for k in g} != set(w):
            return f"{what} parameters {sorted(map(str, g))} != {sorted(w)}"
        for k, v in g.items():
            if not same(v, w[str(k)]):
                gv = np.asarray(v)
                if gv.shape != w[str(k)].shape:
                    return f"{what} {k}: shape {gv.shape} != {w[str(k)].shape}"
                bad = ~((gv == w[str(k)]) | ((gv != gv) & (w[str(k)] != w[str(k)])))
                return f"{what} {k}: {int(bad.sum())} of {bad.size} values differ"
    for k, w in want[2].items():
        if k not in const or float(np.asarray(const[k]).reshape(-1)[0]) != float(w):
            return f"constant {k}: {const.get(k)!r} != {w!r}"
    if [str(n) for n in names] != want[3]:
        return f"parameter names {list(names)} != {want[3]}"
    return ""


def forked(fn, faults, space=None):
    """Run fn() in a forked process with disk faults armed. -> (outcome ok|raised|died, exception text, fired dict)"""
    from sim import simio

    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(rd)
            signal.alarm(60)
            out, txt = "ok", ""
            with simio.Faults(faults) as F:
                try:
                    fn()
                except BaseException as e:  # noqa: BLE001
                    out, txt = "raised", f"{type(e).__name__}: {str(e)[:200]}"
            os.write(wr, json.dumps([out, txt, F.fired]).encode())
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    buf = b""
    while True:
        b = os.read(rd, 65536)
        if not b:
            break
        buf += b
    os.close(rd)
    _, st = os.waitpid(pid, 0)
    try:
        out, txt, fired = json.loads(buf)
        return out, txt, fired
    except ValueError:
        return "died", f"status {st}", {"crash_during_error_handling": 1}


def write_faults(rng, n=None):
    """Seeded disk faults for a save; positions are absolute operation numbers."""
    out = []
    for _ in range(n or rng.choice([1, 1, 1, 2])):
        k = rng.choices(["write", "space", "open", "sync", "rename", "trunc", "short", "unlink", "close"], [5, 3, 1, 1, 1, 1, 2, 0.5, 0.7])[0]
        if k == "space":
            out.append({"space": int(10 ** rng.uniform(1, 4.7))})
        elif k == "short":
            out.append({"cls": "write", "nth": rng.randint(1, 40), "act": "short", "param": rng.randint(1, 64)})
        else:
            top = {"write": 60, "open": 12, "sync": 2, "rename": 1, "trunc": 8, "unlink": 2, "close": 12}[k]
            out.append({"cls": k, "nth": rng.randint(1, top), "act": "err", "err": rng.choice(["EIO", "ENOSPC", "EDQUOT"] if k != "open" else ["EACCES", "ENOSPC", "EMFILE", "EIO"]),
                        "sticky": int(rng.random() < 0.3)})
    return out


def read_faults(rng):
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        a = rng.choice(["err", "err", "short", "eof", "open"])
        if a == "open":
            out.append({"cls": "open", "nth": rng.randint(1, 3), "act": "err", "err": rng.choice(["EACCES", "EIO", "EMFILE", "ENOENT", "EAGAIN", "ETIMEDOUT"])})
        elif a == "short":
            out.append({"cls": "read", "nth": rng.randint(1, 6), "act": "short", "param": rng.randint(1, 512), "sticky": int(rng.random() < 0.5)})
        elif a == "eof":
            out.append({"cls": "read", "nth": rng.randint(1, 8), "act": "eof"})
        else:
            e = rng.choice(["EIO", "EINTR", "ESTALE"])   # EINTR for ever is not a real disk: Python would rightly retry without end
            out.append({"cls": "read", "nth": rng.randint(1, 8), "act": "err", "err": e, "sticky": int(e != "EINTR" and rng.random() < 0.2)})
    return out
