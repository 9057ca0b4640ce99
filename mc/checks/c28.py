"""C28: a simulation stored or sent elsewhere answers as the original, and is independent of it."""

import copy
import itertools
import pickle

import numpy as np

from ..core import tonp
from ..lib import cx, indicator, nn, stop_workers

ID = "C28"
BOUND = {
    "quick": "2 copies (deep copy, pickle) x 4 structures x every sequence of at most 2 operations out of 9 on the original before the copy is made (3 backends), then every sequence of 2 "
    "operations (1 after 2) out of 12 on original and copy, then 2 queries of each; simulations sent to 2 worker processes and back in 5 states",
    "thorough": "sequences of at most 3 operations, then of 3 (2 after 3)",
}
RULE = (
    "state: parameters of the original and of the copy in the reference model, and the queries made; transition: one operation; trace: one "
    "sequence. Every answer is that of a fresh simulation with the parameters of the model"
)
OPS = ["solve", "eff", "orders", "field G", "field b", "S part", "stress", "thick", "eps"]
POST = [(w, o) for w in ("original", "copy") for o in ("eff", "field G", "S part", "thick", "eps", "solve")]


def cases(tier):
    a, b = (2, 2) if tier == "quick" else (3, 3)
    out = [["send", k, s] for k in range(4) for s in range(5)]
    for k, c, be in itertools.product(range(4), ("deepcopy", "pickle"), ("numpy", "torch", "autograd")):
        for pre in [[]] + [list(p) for r in range(1, a + 1) for p in itertools.product(OPS, repeat=r)]:
            if be != "numpy" and len(pre) > 1:
                continue
            out.append([k, c, be, pre, b - (len(pre) == a)])
    return out


def build(n, k, par):
    one = k == 1
    lat = n.Lattice(1.0 if one else ((1.0, 0.0), (0.0, 0.8)), discretization=8)
    f = indicator("L", lat.discretization) > 0.5
    A = n.backend.array
    G = lat.Layer("G", thickness=par["d"], epsilon=A(np.where(f, cx(par["e"]), 1.0).astype(complex)))
    L = [lat.Layer("a"), G]
    if k == 2:
        L += [lat.Layer("m", thickness=0.2, epsilon=2.0), G.copy("G2")]
    if k == 3:
        L = [lat.Layer("a"), lat.Layer("G", thickness=par["d"], epsilon=par["e"] * 1.0)]
    L.append(lat.Layer("b", epsilon=1.5))
    return n.Simulation(L, n.PlaneWave(wavelength=1.2, angles=(15, 30, 50)), nh=5, formulation="tangent" if k == 1 else "original")


def ask(n, k, s, op, par):
    """Apply an operation; returns the answer or None."""
    if op == "solve":
        s.solve()
    elif op == "eff":
        return [tonp(v) for v in s.diffraction_efficiencies()]
    elif op == "orders":
        return [tonp(v) for v in s.diffraction_efficiencies(orders=True, complex=True)]
    elif op == "field G":
        return [tonp(s.get_field_fourier("G", z=0.1))]
    elif op == "field b":
        return [tonp(s.get_field_grid("b", field="E", component="x", shape=(8, 8 if k != 1 else 1)))]
    elif op == "S part":
        return [tonp(b) for r in s.get_S_matrix(indices=(0, 1)) for b in r]
    elif op == "stress":
        return [np.array([float(v) for v in s.get_z_stress_tensor_integral("G")])]
    elif op == "thick":
        par["d"] = round(par["d"] + 0.07, 5)
        for l in s.layers:
            if l.name in ("G", "G2"):
                l.thickness = par["d"]
        s.reset()
    elif op == "eps":
        par["e"] = par["e"] + 1
        lat = s.lattice
        if k == 3:
            new = n.backend.array(par["e"] * 1.0 + 0j)
        else:
            f = indicator("L", lat.discretization) > 0.5
            new = n.backend.array(np.where(f, cx(par["e"]), 1.0).astype(complex))
        for l in s.layers:
            if l.name in ("G", "G2"):
                l.epsilon = new
        s.reset()
    return None


_memo = {}


def fresh(n, be, k, par, op):
    key = be, k, par["d"], par["e"], op
    if key not in _memo:
        _memo[key] = ask(n, k, build(n, k, par), op, dict(par))
    return _memo[key]


def work(s, op):
    return [np.asarray(v) for v in ask(nn(), 0, s, op, {})], s


def run(case, rec):
    n = nn()
    if case[0] == "send":
        n.set_backend("numpy")
        n = nn()
        _, k, st = case
        par = dict(d=0.3, e=4.0)
        pre = [[], ["solve"], ["eff"], ["field G", "eff"], ["thick", "S part"]][st]
        s = build(n, k, par)
        for o in pre:
            ask(n, k, s, o, par)
        ops = ["eff", "orders", "field G"]
        done = n.parloop(n_jobs=2)(lambda o: work(s, o))(ops)
        stop_workers()
        for o, (ans, back) in zip(ops, done):
            for a, b in zip(ans, fresh(n, "numpy", k, par, o)):
                rec.close(a, b, f"structure {k} after {pre}, {o} in another process", tol=1e-9)
            # and the simulation that comes back
            for o2 in ("eff", "field G"):
                for a, b in zip(ask(n, k, back, o2, par), fresh(n, "numpy", k, par, o2)):
                    rec.close(a, b, f"structure {k} after {pre}, {o} in another process and {o2} after it is back", tol=1e-9)
            rec.trace()
            rec.step(2)
        rec.state(*case)
        return
    k, kind, be, pre, depth = case
    n.set_backend(be)
    n = nn()
    dup = copy.deepcopy if kind == "deepcopy" else (lambda s: pickle.loads(pickle.dumps(s)))
    for post in itertools.product(POST, repeat=depth):
        if be != "numpy" and post[0][0] == post[-1][0]:
            continue
        par = dict(d=0.3, e=4.0)
        s = build(n, k, par)
        for o in pre:
            ask(n, k, s, o, par)
        c = dup(s)
        pc = dict(par)
        rec.trace()
        tag = f"{be}, structure {k}, {kind} after {pre}, then "
        hist = []
        for w, o in post:
            hist.append(f"{o} of the {w}")
            x, p = (s, par) if w == "original" else (c, pc)
            a = ask(n, k, x, o, p)
            if a is not None:
                for u, v in zip(a, fresh(n, be, k, p, o)):
                    rec.close(u, v, tag + ", ".join(hist), tol=1e-9)
            rec.step()
            rec.state(k, be, pre, tuple(hist), p["d"], p["e"])
        for w, x, p in (("original", s, par), ("copy", c, pc)):
            for o in ("orders", "field G"):
                for u, v in zip(ask(n, k, x, o, p), fresh(n, be, k, p, o)):
                    rec.close(u, v, tag + ", ".join(hist) + f", {o} of the {w}", tol=1e-9)
    rec.outcome(k, be)
