"""C07 a model file yields the model its present content defines."""
import os
import sys

from checks import util
from sim.core import Result, list_shrinks
from sim.sched import random_position

PROPERTY = "C07"
LEVEL = "exploration"
TECHNIQUE = "deterministic simulation: seeded histories of file rewrites, loads, directory changes, read faults, interrupts and thread schedules against a reference of the file system's present content"
NOTE = "Each loaded model is called and must return the token of the version now on disk; held on everything explored."
RULE = "episode in which a fault, interrupt or preemption fired, or a file was rewritten, or two files shared a base name"
REAL = ["gwinferno.pipeline.parser.load_model_from_python_file", "CPython import system and byte-code cache"]
STUB = ["libc file reads below the scratch directory (errors, short reads)", "file modification times (set by the plan)", "thread scheduler"]
ASSUMPTIONS = ["helper modules imported by a model file keep CPython's normal import semantics: each model file uses its own helper name"]
TIERS = {"quick": {"sessions": 8, "episodes": 500, "budget_s": 35}, "thorough": {"sessions": 48, "episodes": 4000, "budget_s": 150}}

DIRS = ["a", "b", "a/b", "with.dots/x.py.d", "sp ace"]
NAMES = ["model.py", "prod.py", "json.py", "numpy.py", "parser.py", "my.model.py", "model_py.py", "py.py"]
KINDS = ["plain", "plain", "plain", "global", "future", "helper", "class", "lambda", "raise", "syntax", "nomodel", "exit"]


def source(kind, tok, helper):
    if kind == "plain":
        return f"def model(*a):\n    return {tok!r}\n"
    if kind == "global":
        return f"TOKEN = {tok!r}\nSTATE = []\n\ndef model(*a):\n    STATE.append(1)\n    return TOKEN\n"
    if kind == "future":
        return f"from __future__ import annotations\nfrom dataclasses import dataclass\n@dataclass\nclass A:\n    x: str = {tok!r}\ndef model(*a):\n    return A().x\n"
    if kind == "helper":
        return f"from {helper} import value\ndef model(*a):\n    return {tok!r} if value == 7 else None\n"
    if kind == "class":
        return f"class M:\n    def __call__(self, *a):\n        return {tok!r}\nmodel = M()\n"
    if kind == "lambda":
        return f"import os.path\nmodel = lambda *a: {tok!r} if os.path.exists(__file__) or True else 0\n"
    if kind == "raise":
        return f"def model(*a):\n    return {tok!r}\nraise RuntimeError('broken model file')\n"
    if kind == "syntax":
        return f"def model(*a)\n    return {tok!r}\n"
    if kind == "exit":
        return f"import math\nmodel = math.undefined_name\n"
    return f"def modell(*a):\n    return {tok!r}\n"


GOOD = {"plain", "global", "future", "helper", "class", "lambda"}


def generate(rng, tier, sconf):
    names = rng.sample(NAMES, rng.choice([1, 1, 2]))
    files = sorted({os.path.join(rng.choice(DIRS), rng.choice(names)) for _ in range(rng.randint(1, 4))})
    if rng.random() < 0.15:
        return {"mode": "threads", "files": files, "kinds": [rng.choice(sorted(GOOD)) for _ in files], "who": [rng.randrange(len(files)) for _ in range(2)],
                "pos": [[random_position(rng, 2), rng.randrange(2)] for _ in range(rng.randint(1, 4))], "ops": []}
    ops = []
    for _ in range(rng.randint(3, 9)):
        k = rng.choices(["load", "write", "delete", "chdir", "swap", "recall"], [6, 3, 0.5, 1.2, 0.7, 0.8])[0]
        op = {"op": k, "f": rng.randrange(len(files))}
        if k == "load":
            op["style"] = rng.choice(["abs", "abs", "rel", "dot", "up", "link"])
            op["m"] = util.mode(rng, (6, 2, 2), util.errors_only, top=1.9)
        if k == "write":
            op["kind"] = rng.choice(KINDS)
            op["keep_mtime"] = rng.random() < 0.5
        if k == "chdir":
            op["d"] = rng.choice(DIRS + ["."])
        if k == "swap":
            op["g"] = rng.randrange(len(files))
        ops.append(op)
    return {"mode": "history", "files": files, "kinds": [rng.choice(KINDS) for _ in files], "ops": ops}


def shrinks(plan):
    yield from list_shrinks(plan, ["ops", "pos"])
    yield from util.mode_shrinks(plan)


def setup(ctx):
    from gwinferno.pipeline.parser import load_model_from_python_file

    ctx.state["load"] = load_model_from_python_file


def execute(plan, ctx):
    old_path, old_cwd, old_mods = list(sys.path), os.getcwd(), dict(sys.modules)
    old_bc, sys.dont_write_bytecode = sys.dont_write_bytecode, False   # let a byte-code cache go stale if one is used
    try:
        return _execute(plan, ctx)
    finally:
        sys.dont_write_bytecode = old_bc
        os.chdir(old_cwd)
        sys.path[:] = old_path
        for k in list(sys.modules):
            if k not in old_mods:
                del sys.modules[k]
        sys.modules.update(old_mods)


def _execute(plan, ctx):
    from sim import sched

    load = ctx.state["load"]
    r = Result()
    d = ctx.fresh_dir()
    root = os.path.join(d, "r")
    for x in DIRS:
        os.makedirs(os.path.join(root, x), exist_ok=True)
    now = {}       # path -> (kind, token) or None
    ver = [0]
    tag = f"{ctx.n}"

    def write(f, kind, keep=False):
        ver[0] += 1
        tok = f"v{ver[0]:04d}"
        p = os.path.join(root, f)
        helper = f"helper_{tag}_{ver[0]}"
        with open(os.path.join(os.path.dirname(p), helper + ".py"), "w") as o:
            o.write("value = 7\n")
        st = os.stat(p) if os.path.exists(p) else None
        text = source(kind, tok, helper)
        with open(p, "w") as o:
            o.write(text)
        if keep and st is not None:
            if len(text) < st.st_size:
                with open(p, "a") as o:
                    o.write("#" * (st.st_size - len(text) - 1) + "\n")
            os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
        else:
            os.utime(p, ns=(10**18 + ver[0] * 10**7, 10**18 + ver[0] * 10**7))
        if now.get(f):
            r.nontrivial = True
            r.probe("rewritten")
        now[f] = (kind, tok)

    for f, k in zip(plan["files"], plan["kinds"]):
        write(f, k)
    if len({os.path.basename(f) for f in plan["files"]}) < len(plan["files"]):
        r.probe("same_basename")
        r.nontrivial = True
    loaded = []   # (model, token, what): must keep answering for themselves

    def judge(what, f, st, v, excused):
        r.ops += 1
        cur = now.get(f)
        good = cur is not None and cur[0] in GOOD
        if st == "ok":
            if not good:
                r.fail("accepted", f"{what}: returned a model although the file is {cur and cur[0]}")
                return
            try:
                got = v()
            except Exception as e:
                got = f"{type(e).__name__}: {e}"
            r.ev(what, "ok", got == cur[1])
            if got != cur[1]:
                r.fail("wrong-model", f"{what}: the model returned answers {got!r}, the file now defines {cur[1]!r}")
            else:
                loaded.append((v, cur[1], what))
        else:
            r.ev(what, st, type(v).__name__)
            if st == "raised" and good and not excused:
                r.fail("raised", f"{what}: a good model file was refused: {type(v).__name__}: {v}")

    if plan["mode"] == "threads":
        fs = [plan["files"][i] for i in plan["who"]]
        sc = sched.Scheduler(plan["pos"])
        res = sc.run([(lambda f=f: load(os.path.join(root, f))) for f in fs])
        r.fault(sc.fired)
        r.ev("trace", sc.trace)
        for i, f in enumerate(fs):
            st, v = res[i] or ("raised", RuntimeError("never ran"))
            judge(f"thread {i} {f}", f, "ok" if st == "ok" else "raised", v, False)
    for n, op in enumerate(plan["ops"]):
        f = plan["files"][op["f"]]
        p = os.path.join(root, f)
        if op["op"] == "write":
            write(f, op["kind"], op["keep_mtime"])
        elif op["op"] == "delete":
            if os.path.exists(p):
                os.remove(p)
            now[f] = None
        elif op["op"] == "swap":
            g = plan["files"][op["g"]]
            q = os.path.join(root, g)
            if f != g and now.get(f) and now.get(g) and "helper" not in (now[f][0], now[g][0]):
                os.rename(p, p + ".t")
                os.rename(q, p)
                os.rename(p + ".t", q)
                now[f], now[g] = now[g], now[f]
        elif op["op"] == "chdir":
            os.chdir(os.path.join(root, op["d"]))
        elif op["op"] == "recall":
            for m, tok, what in loaded[-3:]:
                if m() != tok:
                    r.fail("earlier-model-changed", f"the model of {what} now answers {m()!r}, not {tok!r}")
        else:
            s = op["style"]
            if s == "rel":
                path = os.path.relpath(p)
            elif s == "dot":
                path = os.path.join(".", os.path.relpath(p))
            elif s == "up":
                path = os.path.join(os.path.dirname(p), "..", os.path.basename(os.path.dirname(p)), os.path.basename(p))
            elif s == "link":
                path = os.path.join(root, f"link{n}.py")
                if not os.path.lexists(path):
                    os.symlink(p, path)
                if now.get(f) and now[f][0] == "helper":
                    path = p
            else:
                path = p
            st, v, ex = util.attempt(r, lambda: load(path), op["m"])
            judge(f"op {n} load {f} ({s})", f, st, v, ex)
            if st == "interrupted" and not r.violations:
                st, v, ex = util.attempt(r, lambda: load(path), {"kind": "plain"})
                judge(f"op {n} retry {f}", f, st, v, ex)
        if r.violations:
            return r
    for m, tok, what in loaded:
        if m() != tok:
            r.fail("earlier-model-changed", f"the model of {what} now answers {m()!r}, not {tok!r}")
            break
    return r
