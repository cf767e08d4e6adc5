"""Shared types of the simulator: episodes, results, seeded randomness, digests."""
import hashlib
import json
import os
import random

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")


class HarnessError(Exception):
    """Something the harness cannot interpret: never a violation."""


class Abort(Exception):
    """The episode cannot go on because the system under test failed; its Result already holds the violation."""

    def __init__(self, result):
        self.result = result


def sut(r, what, fn):
    """Run an operation that must succeed here; an exception of the system under test is a violation, not a harness error."""
    try:
        return fn()
    except Exception as e:
        if getattr(e, "injected", False):
            raise
        r.fail("raised", f"{what}: {type(e).__name__}: {str(e)[:300]}")
        raise Abort(r) from e


class Result:
    def __init__(self):
        self.violations = []   # [{"class": str, "detail": str}]
        self.events = []       # ordered event log (JSON-able); its digest identifies the execution
        self.faults = {}       # fault kind -> times it actually fired
        self.probes = {}       # rare condition -> times reached
        self.ops = 0           # operations of the system under test performed
        self.nontrivial = False
        self.sig = None        # state / interleaving signature

    def fail(self, cls, detail):
        self.violations.append({"class": cls, "detail": str(detail)[:600]})
        self.events.append(["VIOLATION", cls])

    def ev(self, *a):
        self.events.append(list(a))

    def fault(self, kinds):
        for k, v in kinds.items():
            self.faults[k] = self.faults.get(k, 0) + v
            if v:
                self.nontrivial = True

    def probe(self, k, n=1):
        self.probes[k] = self.probes.get(k, 0) + n

    def digest(self):
        return hashlib.sha256(json.dumps(self.events, sort_keys=True, default=str).encode()).hexdigest()[:16]

    def signature(self):
        return self.sig or self.digest()


def rng_for(*parts):
    return random.Random(":".join(str(p) for p in parts))


def nprng(seed):
    return np.random.RandomState(seed & 0x7FFFFFFF)


def h(arr):
    """Short digest of array contents (bit exact)."""
    a = np.ascontiguousarray(np.asarray(arr))
    return hashlib.sha256(a.tobytes() + str(a.shape).encode() + str(a.dtype).encode()).hexdigest()[:12]


def close(a, b, rtol, atol=0.0):
    a = np.asarray(a, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    with np.errstate(invalid="ignore"):
        ok = np.abs(a - b) <= atol + rtol * np.abs(b)
    ok |= (a == b) | (np.isnan(a) & np.isnan(b))
    return bool(np.all(ok))


def maxrel(a, b, atol=1e-300):
    a = np.asarray(a, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return f"shape {a.shape} != {b.shape}"
    with np.errstate(all="ignore"):
        d = np.abs(a - b) / (np.abs(b) + atol)
    d = np.where((a == b) | (np.isnan(a) & np.isnan(b)), 0, d)
    if d.size == 0:
        return 0.0
    i = int(np.nanargmax(np.where(np.isnan(d), np.inf, d)))
    return f"max rel err {d.flat[i]:.3g} at {i} (got {a.flat[i]!r}, want {b.flat[i]!r})"


def exc_name(e):
    return type(e).__name__


def list_shrinks(plan, keys):
    """Plans with parts of the named lists removed (halves first, then single elements)."""
    for k in keys:
        xs = plan.get(k) or []
        n = len(xs)
        if n == 0:
            continue
        step = n
        while step >= 1:
            for s in range(0, n, step):
                ys = xs[:s] + xs[s + step:]
                if len(ys) < n:
                    q = dict(plan)
                    q[k] = ys
                    yield q
            step //= 2
