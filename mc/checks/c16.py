"""C16: backend, precision, device and log level are what was last asked for, and every calculation uses them."""

import itertools
import json
import os
import subprocess
import sys

import numpy as np

from ..core import REPO, tonp

ID = "C16"
BACKENDS = ["numpy", "scipy", "autograd", "torch", "jax"]
ACTIONS = ["b:" + b for b in BACKENDS] + ["bad", "32", "64", "gpu", "cpu", "log:ERROR", "log:INFO"]
BOUND = {
    "quick": "state = (5 backends x 2 precisions x 2 log levels); every one of the 13 actions from every state, every sequence of "
    "2 actions from the initial state, and 17 start-up environments (NANNOS_BACKEND, NANNOS_GPU, followed by a switch); "
    "6 switches interrupted at every line executed while the package is configured again, then repeated or taken back",
    "thorough": "every sequence of up to 3 actions from the initial state as well; all switches interrupted",
}
RULE = (
    "state: (backend, precision, device, log level); transition: one configuration call; trace: the configuration observed after "
    "the sequence (reported names and types, types and values of a simulation, availability of gradients, handlers of the logger)"
)
ASSUMPTIONS = ["no GPU in the machine: a GPU request falls back to the CPU (torch, and the backends without GPU support); jax, that refuses at the first calculation, is left out"]
INIT = ("numpy", 64, "WARNING")


def cases(tier):
    out = []
    acts = ACTIONS + ["log:DEBUG"]
    for b, p, lv in itertools.product(BACKENDS, (64, 32), ("WARNING", "ERROR")):
        pre = [] if b == "numpy" else ["b:" + b]
        pre = (["log:ERROR"] if lv == "ERROR" else []) + pre + (["32"] if p == 32 else [])
        for a in acts:
            out.append(["seq", pre + [a]])
    out += [["seq", list(s)] for s in itertools.product(acts, repeat=2)]
    if tier == "thorough":
        out += [["seq", list(s)] for s in itertools.product(acts, repeat=3)]
    for b in BACKENDS + ["nonsense", None]:
        out.append(["env", b, None, None])
        if b:
            out.append(["env", b, None, "torch" if b != "torch" else "numpy"])
    out += [["env", "torch", "1", None], ["env", "numpy", "1", None], ["env", "autograd", "1", "scipy"], ["env", None, "1", "torch"]]
    acts = INTERRUPTED if tier == "quick" else INTERRUPTED + [(s, a) for s in ["numpy", "scipy", "autograd", "torch", "jax"] for a in acts if a not in ("bad", "b:" + s)]
    out += [["interrupted", s, a, r, p, 3] for s, a in acts for r in ("again", "back") for p in range(3)]
    seen, uniq = set(), []
    for c in out:
        k = json.dumps(c)
        if k not in seen:
            seen.add(k)
            uniq.append(c)
    return uniq


# (backend, action) interrupted at every line
INTERRUPTED = [
    ("numpy", "b:torch"), ("torch", "b:jax"), ("scipy", "b:autograd"), ("numpy", "32"), ("torch", "gpu"), ("numpy", "log:INFO"),
]


def fingerprint(n):
    """What every module of the package holds, up to the identity of the objects."""
    out = {}
    for name, m in sorted(sys.modules.items()):
        if name.split(".")[0] != "nannos":
            continue
        for k, v in sorted(vars(m).items()):
            if k.startswith("__") or k == "_MC":
                continue
            if isinstance(v, (str, int, float, bool, type(None))):
                v = repr(v)
            elif callable(v):
                v = f"{getattr(v, '__module__', '')}.{getattr(v, '__qualname__', v)}"
            elif isinstance(v, type(sys)):
                v = v.__name__
            else:
                v = type(v).__name__ + (str(v) if type(v).__module__.split(".")[0] in ("numpy", "torch", "jax") else "")
            out[name, k] = v
    lg = n.logger
    out["logger"] = lg.level, [(type(h).__name__, h.level) for h in lg.handlers]
    return out


def clean(n):
    n.set_backend("torch")
    n.set_backend("numpy")
    n.use_32_bit(False)
    n.use_gpu(False)
    n.set_log_level("WARNING")


def run_interrupted(n, case, rec):
    """The same call again, or a call that goes back, after a call interrupted at each line."""
    from .c31 import interrupted

    global REF
    REF = reference()
    _, start, a, retry, part, parts = case
    s0 = (start, 64, "WARNING")
    if retry == "again":
        then, s1 = a, model(s0, a)
    else:
        then = {"b": "b:" + start, "3": "64", "g": "cpu", "l": "log:WARNING"}[a[0]]
        s1 = model(model(s0, a), then)
    seen = {}
    # what it is without an interruption
    act(n, "b:" + start)
    act(n, a)
    if retry == "back":
        act(n, then)
    want = fingerprint(n)
    k, dirty = part, True
    while True:
        k += 1 if part == k else parts
        if dirty:
            clean(n)
        elif a in ("32", "64"):
            act(n, "64")
        act(n, "b:" + start)
        dirty = a[0] not in "b36"
        r = interrupted(lambda: act(n, a), k, KeyboardInterrupt)
        if r is None:
            break
        tag = f"{start}: {a} interrupted at {r[0][0]}:{r[0][1]} (point {k}), then {then}"
        act(n, then)
        got = fingerprint(n)
        diff = tuple((x, got.get(x), want.get(x)) for x in sorted(set(got) | set(want), key=str) if got.get(x) != want.get(x))
        dirty = dirty or bool(diff)
        if diff not in seen:
            # another state than without an interruption must still answer the same
            seen[diff] = True
            m = len(rec.fails)
            observe(n, rec, tag, s1)
            rec.state("interrupted", s1, str(diff))
            if len(rec.fails) > m:
                break
        rec.step(2)
        rec.trace()
    rec.outcome(case)


def model(state, a):
    b, p, lv = state
    if a.startswith("b:"):
        b = a[2:]
    elif a in ("32", "64"):
        p = int(a)
    elif a.startswith("log:"):
        lv = a[4:]
    return (b, p, lv)


def act(n, a):
    if a.startswith("b:"):
        n.set_backend(a[2:])
    elif a == "bad":
        try:
            n.set_backend("numba")
        except ValueError:
            return True
        return False
    elif a in ("32", "64"):
        n.use_32_bit(a == "32")
    elif a == "gpu":
        n.use_gpu(True)
    elif a == "cpu":
        n.use_gpu(False)
    else:
        n.set_log_level(a[4:])
    return True


def observe(n, rec, tag, state):
    import logging

    b, p, lv = state
    rec.check(n.get_backend() == b and n.BACKEND == b, f"{tag}: the backend is {n.get_backend()} / {n.BACKEND}")
    mod = {"numpy": "numpy", "scipy": "numpy", "autograd": "autograd.numpy", "torch": "torch", "jax": "jax.numpy"}[b]
    rec.check(n.backend.__name__ == mod, f"{tag}: array module {n.backend.__name__}")
    rec.check(n.get_device() == "cpu" and n.DEVICE == "cpu", f"{tag}: device {n.get_device()} / {n.DEVICE}")
    names = [str(t) for t in n.get_types()]
    rec.check(("32" in names[0]) == (p == 32) and ("64" in names[1]) == (p == 32), f"{tag}: types {names}")
    rec.check(n.logger.level == getattr(logging, lv), f"{tag}: log level {n.logger.level}")
    rec.check(len(n.logger.handlers) == 1 and n.logger.handlers[0].level == getattr(logging, lv), f"{tag}: log handlers {n.logger.handlers}")
    # a calculation
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        lat = n.Lattice(((1, 0.1), (0.2, 1.1)), discretization=16)
        e = lat.ones() * 2.0
        e = n.backend.where(n.backend.array(lat.circle((0.5, 0.5), 0.3)), 4.0 + 0 * e, e)
        ls = [lat.Layer("Superstrate", epsilon=1), lat.Layer("g", thickness=0.3, epsilon=e), lat.Layer("Substrate", epsilon=2)]
        s = n.Simulation(ls, n.PlaneWave(wavelength=1.3, angles=(20, 30, 40)), nh=7)
        R, T = s.diffraction_efficiencies()
    kind = type(R).__module__.split(".")[0]
    rec.check({"torch": "torch", "jax": "jax"}.get(b, "numpy") == ("jax" if kind.startswith("jax") else kind), f"{tag}: efficiencies of type {type(R)}")
    ct = str(ls[1].epsilon.dtype)
    rec.check(("complex64" in ct) == (p == 32), f"{tag}: layers hold {ct}")
    got = (float(R), float(T))
    rec.check(abs(sum(got) - 1) < (1e-10 if p == 64 else 1e-4), f"{tag}: R+T={sum(got)}")
    rec.check(all(abs(a - b_) < 1e-4 for a, b_ in zip(got, REF)), f"{tag}: R, T = {got}, expected {REF}")
    # gradients
    def f(x):
        return n.backend.sum(x**3)

    try:
        g = tonp(n.grad(f)(n.backend.array([1.0, 2.0]))).tolist()
    except NotImplementedError:
        g = None
    want = [3.0, 12.0] if b in ("autograd", "torch") else None
    rec.check(g == want, f"{tag}: gradient {g}")


REF = (0.0, 0.0)


def run(case, rec):
    if case[0] == "env":
        return run_env(case, rec)
    import nannos as n

    err = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    try:
        (run_interrupted if case[0] == "interrupted" else run_seq)(n, case, rec)
    finally:
        n.set_backend("torch")
        n.set_backend("numpy")
        n.use_32_bit(False)
        n.use_gpu(False)
        n.set_log_level("WARNING")
        os.dup2(err, 2)
        os.close(err)
        os.close(null)


def run_seq(n, case, rec):
    state = INIT
    rec.state(state)
    global REF
    REF = reference()
    for i, a in enumerate(case[1]):
        if a == "gpu" and state[0] == "jax":
            rec.skip("GPU requested with jax")
            return
        ok = act(n, a)
        rec.check(ok, f"after {case[1][: i + 1]}: an unknown backend is accepted")
        state = model(state, a)
        rec.step()
        rec.state(state)
    observe(n, rec, f"after {case[1]}", state)
    rec.trace()
    rec.outcome(state)


_r = []


def reference():
    """Independent solution of the probe structure."""
    if not _r:
        import nannos as n
        from .. import rcwa

        bv = ((1, 0.1), (0.2, 1.1))
        u = np.linspace(0, 1, 16)
        U, V = np.meshgrid(u, u, indexing="ij")
        P = U[..., None] * np.array(bv[0]) + V[..., None] * np.array(bv[1])
        m = np.linalg.norm(P - 0.5, axis=-1) < 0.3
        from ..lib import circular_reference

        H = sorted(circular_reference(bv, 7)[0])
        r = rcwa.solve(bv, H, [(0, 1), (0.3, np.where(m, 4.0, 2.0)), (0, 2)], 1.3, (20, 30, 40))
        _r.append((float(r["R"].sum()), float(r["T"].sum())))
    return _r[0]


ENV = """
import sys, json
sys.path.insert(0, {repo!r}); sys.path.insert(0, {verif!r})
import nannos as n
from mc.core import Rec
from mc.checks import c16
rec = Rec()
c16.REF = {ref!r}
state = ({b!r}, 64, "WARNING")
c16.observe(n, rec, "at start-up", state)
sw = {sw!r}
if sw:
    n.set_backend(sw)
    c16.observe(n, rec, "after the switch to " + sw, (sw, 64, "WARNING"))
    n.set_backend({b!r})
    c16.observe(n, rec, "back to the first backend", state)
print("RESULT " + json.dumps([rec.compared, rec.fails]))
"""


def run_env(case, rec):
    from ..core import VERIF

    _, b, gpu, sw = case
    env = dict(os.environ)
    env.pop("NANNOS_BACKEND", None)
    env.pop("NANNOS_GPU", None)
    if b:
        env["NANNOS_BACKEND"] = b
    if gpu:
        env["NANNOS_GPU"] = gpu
    start = b if b in BACKENDS else "numpy"
    code = ENV.format(repo=REPO, verif=VERIF, b=start, sw=sw, ref=reference())
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True, env=env, cwd="/", timeout=300)
    tag = f"NANNOS_BACKEND={b} NANNOS_GPU={gpu}: "
    out = [l for l in p.stdout.splitlines() if l.startswith("RESULT ")]
    if not rec.check(p.returncode == 0 and out, tag + "fails: " + p.stderr[-600:]):
        return
    n, fails = json.loads(out[0][7:])
    rec.compared += n
    for f in fails:
        rec.fail(tag + f)
    rec.step(1 + 2 * bool(sw))
    rec.trace()
    rec.state("env", case)
    rec.outcome("env", start, sw)
