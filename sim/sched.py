"""Deterministic scheduling of real threads, and interrupt injection, at bytecode granularity.

Every thread of an episode is a real Python thread, but only one is ever runnable: the others are parked on a private semaphore.
A thread gives up control only at a *yield point* -- a bytecode of a frame whose code lives in the gwinferno package and which was
not entered from inside another library (so no third-party lock can be held) -- or when it blocks on / releases a simulated lock.
Which thread runs next is decided only by the plan: a list of [yield point number, thread index] preemptions.
"""
import dis
import os
import sys
import threading

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(os.path.realpath(REPO), "gwinferno") + os.sep


class SimInterrupt(KeyboardInterrupt):
    """Injected asynchronous interrupt (what Ctrl-C / a job scheduler's SIGINT delivers)."""


class SimMemoryError(MemoryError):
    """Injected allocation failure."""

    injected = True


class Stall(RuntimeError):
    pass


_pkg_cache = {}


def _is_pkg(code):
    r = _pkg_cache.get(code)
    if r is None:
        fn = code.co_filename
        r = _pkg_cache[code] = fn.startswith(PKG) or os.path.realpath(fn).startswith(PKG)
    return r


_lib_cache = {}


def _is_lib(code):
    """Code of a third-party library or interpreter internals (anything below site-packages, or frozen/importlib)."""
    r = _lib_cache.get(code)
    if r is None:
        fn = code.co_filename
        r = _lib_cache[code] = "site-packages" in fn or (fn.startswith("<frozen") and "runpy" not in fn) or "/jax/" in fn
    return r


def _clean_stack(frame):
    f = frame.f_back
    while f is not None:
        if _is_lib(f.f_code):
            return False
        f = f.f_back
    return True


# ------------------------------------------------------------------------------------------------- bytecode hook (sys.monitoring)
_TOOL = 4
_handlers = {}      # thread ident -> callable(frame)
_installed = False


def _on_start(code, off):
    if _is_pkg(code):
        sys.monitoring.set_local_events(_TOOL, code, sys.monitoring.events.INSTRUCTION)
    return sys.monitoring.DISABLE


def _on_instr(code, off):
    hnd = _handlers.get(threading.get_ident())
    if hnd is not None:
        hnd(sys._getframe(1))


def install_hook():
    """Instrument every code object of the package, lazily, as it is first entered. Idle unless a handler is set."""
    global _installed
    if _installed:
        return
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, "verif-sim")
    mon.register_callback(_TOOL, mon.events.PY_START, _on_start)
    mon.register_callback(_TOOL, mon.events.INSTRUCTION, _on_instr)
    mon.set_events(_TOOL, mon.events.PY_START)
    _installed = True


class watch:
    """Context manager: call fn(frame) at every package bytecode executed by this thread."""

    def __init__(self, fn):
        self.fn = fn

    def __enter__(self):
        install_hook()
        self.tid = threading.get_ident()
        self.old = _handlers.get(self.tid)
        _handlers[self.tid] = self.fn
        return self

    def __exit__(self, *a):
        if self.old is None:
            _handlers.pop(self.tid, None)
        else:
            _handlers[self.tid] = self.old
        return False


# ------------------------------------------------------------------------------------------------------ store points
_STORES = {dis.opmap[n] for n in ("STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "DELETE_ATTR", "DELETE_SUBSCR", "STORE_DEREF", "STORE_SLICE") if n in dis.opmap}
_store_cache = {}


def _is_store(frame):
    """Is the frame about to execute an instruction that publishes to an object, container, global or closure cell?"""
    code = frame.f_code
    offs = _store_cache.get(code)
    if offs is None:
        bc = code.co_code
        offs = _store_cache[code] = {i for i in range(0, len(bc), 2) if bc[i] in _STORES}
    return frame.f_lasti in offs


LOADS = 1_000_000
_load_cache = {}
_shared = None


def _shared_names():
    """Attribute and global names that some function of the package other than a constructor assigns: state that can change under a reader."""
    global _shared
    if _shared is None:
        import ast

        _shared = set()

        def walk(node, init):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    walk(ch, ch.name == "__init__")
                    continue
                if isinstance(ch, ast.Global):
                    _shared.update(ch.names)
                if isinstance(ch, ast.Attribute) and isinstance(ch.ctx, ast.Store) and not init:
                    _shared.add(ch.attr)
                walk(ch, init)

        for d, _, fs in sorted(os.walk(PKG)):
            for f in sorted(fs):
                if f.endswith(".py"):
                    try:
                        walk(ast.parse(open(os.path.join(d, f)).read()), False)
                    except (OSError, SyntaxError, ValueError):
                        pass
    return _shared


def _is_load(frame):
    """Is the frame about to read an attribute or global that other calls assign?"""
    code = frame.f_code
    offs = _load_cache.get(code)
    if offs is None:
        names = _shared_names()
        offs = _load_cache[code] = {i.offset for i in dis.get_instructions(code) if i.opname in ("LOAD_ATTR", "LOAD_GLOBAL") and i.argval in names}
    return frame.f_lasti in offs


class Counter:
    """Numbers the yield points of one execution. Position n > 0 is the n-th package bytecode; position -n is the n-th
    bytecode that directly follows a store to shared state, so that schedules can aim at half-published state; position
    -(LOADS + n) is the n-th bytecode that directly follows a read of shared mutable state, to aim between two reads."""

    def __init__(self):
        self.n = 0
        self.stores = 0
        self.loads = 0
        self.pending = self.pending_load = False

    def tick(self, frame):
        """-> the positions reached at this bytecode"""
        self.n += 1
        out = (self.n,)
        if self.pending:
            self.stores += 1
            out += (-self.stores,)
        if self.pending_load:
            self.loads += 1
            out += (-LOADS - self.loads,)
        self.pending = _is_store(frame)
        self.pending_load = _is_load(frame)
        return out


# --------------------------------------------------------------------------------------------------------------- interrupts
def run_interrupted(fn, at, exc=SimInterrupt):
    """Run fn(); raise exc at the first package bytecode from position `at` on whose stack holds no third-party frame (an exception
    thrown through jax's tracing machinery can corrupt jax itself). Returns (status, value, points seen). at=0: never."""
    c = Counter()
    state = {"fired": False, "due": False}

    def point(frame):
        if at in c.tick(frame):
            state["due"] = True
        if state["due"] and not state["fired"] and _clean_stack(frame):
            state["fired"] = True
            raise exc(f"injected at point {at}")

    with watch(point):
        try:
            v = fn()
            return ("ok" if not state["fired"] else "swallowed"), v, c.n
        except exc:
            if not state["fired"]:
                raise
            return "interrupted", None, c.n


def run_with_event(fn, at, event):
    """Run fn(); when it reaches position `at`, run event() there (another actor's atomic step)."""
    c = Counter()
    state = {"fired": False, "due": False}
    tid = threading.get_ident()

    def point(frame):
        if at in c.tick(frame):
            state["due"] = True
        if state["due"] and not state["fired"] and _clean_stack(frame):
            state["fired"] = True
            _handlers.pop(tid, None)
            try:
                event()
            finally:
                _handlers[tid] = point

    with watch(point):
        return fn(), state["fired"]


def count_points(fn):
    return run_interrupted(fn, 0)


def random_position(rng, top=3.2, loads=0.0):
    """A seeded position: half aim at arbitrary bytecodes (log-uniform), half right after stores to (or, for schedules, reads of) shared state."""
    if loads and rng.random() < loads:
        return -LOADS - int(10 ** rng.uniform(0, 1.5))
    if rng.random() < 0.5:
        return int(10 ** rng.uniform(0, top))
    return -int(10 ** rng.uniform(0, 1.6))


# --------------------------------------------------------------------------------------------------------------- threads
class SimLock:
    """Stand-in for threading.Lock/RLock objects created by package code, so the scheduler owns blocking."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while True:
            if self.owner is None:
                self.owner, self.depth = me, 1
                return True
            if self.owner == me and self.reentrant:
                self.depth += 1
                return True
            s = Scheduler.current
            if not blocking or s is None or (timeout is not None and timeout >= 0):
                return False
            s.block(self)

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


_real_lock, _real_rlock = threading.Lock, threading.RLock


def _from_pkg():
    f = sys._getframe(2)
    for _ in range(6):
        if f is None:
            return False
        n = f.f_globals.get("__name__", "")
        if n.startswith("gwinferno"):
            return True
        if not n.startswith("functools"):
            return False
        f = f.f_back
    return False


def install_lock_seam():
    """Must run before gwinferno is imported."""

    def Lock():
        return SimLock(False) if _from_pkg() else _real_lock()

    def RLock():
        return SimLock(True) if _from_pkg() else _real_rlock()

    threading.Lock = Lock
    threading.RLock = RLock


class Scheduler:
    current = None

    def __init__(self, preempts, interrupts=(), max_points=2_000_000, stall_s=120):
        self.preempts = {int(p): int(t) for p, t in preempts}
        self.interrupts = {int(p) for p in interrupts}
        self.points = 0
        self.counter = Counter()
        self.max_points = max_points
        self.stall_s = stall_s
        self.trace = []          # (point, from, to): the interleaving that really happened
        self.switches = 0
        self.fired = {}

    def run(self, fns):
        """Run callables as simulated threads. Returns [(status, value)]."""
        n = len(fns)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.blocked = [None] * n
        self.res = [None] * n
        self.main = threading.Semaphore(0)
        self.free = False
        self.idx = {}
        self.due = {}
        self.int_due = set()
        install_hook()
        Scheduler.current = self
        ths = []
        for i, fn in enumerate(fns):
            t = threading.Thread(target=self._body, args=(i, fn), daemon=True)
            ths.append(t)
            t.start()
        self.cur = 0
        self.sems[0].release()
        try:
            if not self.main.acquire(timeout=self.stall_s):
                self.free = True
                for s in self.sems:
                    s.release()
                raise Stall("no progress under the simulated scheduler")
            for t in ths:
                t.join(timeout=30)
        finally:
            Scheduler.current = None
        return self.res

    def _body(self, i, fn):
        self.sems[i].acquire()
        self.idx[threading.get_ident()] = i
        try:
            with watch(self._point):
                v = fn()
            self.res[i] = ("ok", v)
        except SimInterrupt:
            self.res[i] = ("interrupted", None)
        except BaseException as e:  # noqa: BLE001 - the oracle judges it
            self.res[i] = ("raised", e)
        self.done[i] = True
        self._handoff(i, None)

    def _runnable(self):
        return [j for j in range(len(self.sems)) if not self.done[j] and (self.blocked[j] is None or self.blocked[j].owner is None)]

    def _handoff(self, i, want):
        """Pass control from thread i (which is finished or about to park)."""
        if self.free:
            return
        r = self._runnable()
        if not r:
            if all(self.done):
                self.main.release()
                return
            # deadlock among simulated locks: record and let the driver see it
            self.deadlock = True
            self.main.release()
            return
        j = want if want in r else r[0]
        self.blocked[j] = None
        self.cur = j
        self.switches += 1
        self.trace.append((self.points, i, j))
        self.sems[j].release()

    def _point(self, frame):
        if self.free:
            return
        i = self.idx.get(threading.get_ident())
        pos = self.counter.tick(frame)
        self.points = self.counter.n
        if any(p in self.interrupts for p in pos):
            self.int_due.add(i)
        if i in self.int_due and _clean_stack(frame):
            self.int_due.discard(i)
            self.fired["interrupt"] = self.fired.get("interrupt", 0) + 1
            raise SimInterrupt(f"injected at {self.points}")
        for p in pos:
            if p in self.preempts:
                self.due[i] = self.preempts[p] % len(self.sems)
        j = self.due.get(i)
        if j is None:
            return
        if j == i or j not in self._runnable():
            del self.due[i]
            return
        if not _clean_stack(frame):
            return
        del self.due[i]
        self.fired["preemption"] = self.fired.get("preemption", 0) + 1
        self._handoff(i, j)
        self.sems[i].acquire()

    def block(self, lock):
        i = self.idx.get(threading.get_ident())
        if i is None or self.free:
            import time

            time.sleep(0.001)
            return
        self.blocked[i] = lock
        self.fired["lock_wait"] = self.fired.get("lock_wait", 0) + 1
        self._handoff(i, None)
        self.sems[i].acquire()
