"""One operation of the system under test in a mode chosen by the plan: plain, with disk faults, interrupted, or out of memory."""
from sim.core import Abort


def mode(rng, weights=(6, 3, 2), read=None, top=2.6):
    """-> JSON description of how an operation is run"""
    from checks import data
    from sim.sched import random_position

    k = rng.choices(["plain", "fault", "int"], weights)[0]
    if k == "fault":
        return {"kind": "fault", "faults": (read or data.read_faults)(rng)}
    if k == "int":
        return {"kind": "int", "at": random_position(rng, top), "mem": int(rng.random() < 0.3)}
    return {"kind": "plain"}


def attempt(r, fn, m):
    """-> (status, value, excused): status ok | raised | interrupted; excused: an injected fault explains an exception."""
    from sim import sched, simio

    if m["kind"] == "plain":
        try:
            return "ok", fn(), False
        except Abort:
            raise
        except Exception as e:  # noqa: BLE001
            return "raised", e, False
    if m["kind"] == "fault":
        F = simio.Faults(m["faults"])
        try:
            with F:
                v = fn()
            r.fault(F.fired)
            return "ok", v, F.hard > 0
        except Abort:
            raise
        except Exception as e:  # noqa: BLE001
            r.fault(F.fired)
            return "raised", e, F.hard > 0
    exc = sched.SimMemoryError if m.get("mem") else sched.SimInterrupt
    box = {}

    def body():
        try:
            return fn()
        except Abort:
            raise
        except Exception as e:
            if getattr(e, "injected", False):
                raise
            box["e"] = e
            return None

    st, v, _n = sched.run_interrupted(body, m["at"], exc)
    if st == "interrupted":
        r.fault({"MemoryError" if m.get("mem") else "KeyboardInterrupt": 1})
        return "interrupted", None, True
    if st == "swallowed":
        r.fault({"MemoryError" if m.get("mem") else "KeyboardInterrupt": 1})
        return ("raised", box["e"], True) if "e" in box else ("ok", v, True)
    return ("raised", box["e"], False) if "e" in box else ("ok", v, False)


def errors_only(rng):
    """Read faults an application cannot mistake for a shorter file: errors, short transfers, failed opens."""
    from checks import data

    while True:
        fs = [f for f in data.read_faults(rng) if f["act"] != "eof"]
        if fs:
            return fs


def mode_shrinks(plan, key="ops"):
    """Plans in which one operation is run plainly or with fewer faults."""
    for i, op in enumerate(plan.get(key, [])):
        m = op.get("m")
        if not m or m["kind"] == "plain":
            continue
        alts = [{"kind": "plain"}]
        if m["kind"] == "fault" and len(m["faults"]) > 1:
            alts += [{"kind": "fault", "faults": [f]} for f in m["faults"]]
        for a in alts:
            q = dict(plan)
            q[key] = list(plan[key])
            q[key][i] = {**op, "m": a}
            yield q
