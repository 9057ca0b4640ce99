"""C02: simulations that share layers, lattice or excitation do not influence each other."""

import itertools

import numpy as np

from ..lib import lattice, layers, nn, plane_wave
from .c01 import flat

ID = "C02"
BOUND = {
    "quick": "every interleaving of 4 operations (5 per simulation, 2 simulations sharing the same layers; the "
    "second one is created at its first operation) for 11 ways in which the two differ; 3 simulations with 4 "
    "operations from 3 each",
    "thorough": "every interleaving of 5 operations, 11 pairs; 3 simulations with 5 operations",
}
RULE = (
    "state: sharing pattern and, per simulation, the operations done; transition: one operation of one simulation; "
    "trace: one complete interleaving on real objects; every answer is compared with the answer of the simulation "
    "alone with layers of its own"
)
OPS = ["eff", "f1", "S02", "solve", "rall"]

STACK = [[0.0, 2.25], [0.3, ["L", 4, 1]], [0.2, 2.1], [0.25, ["gr", 3, 1.5]], [0, 2]]
UNI = [[0.0, 2.25], [0.3, 3], [0.2, 2.1], [0.25, 1.5], [0, 2]]
A = dict(wl=1.1, ang=(20, 30, 40), nh=5)
PAIRS = {
    "wavelength": (A, dict(A, wl=0.83)),
    "angle": (A, dict(A, ang=(50, 0, 90))),
    "azimuth": (A, dict(A, ang=(20, -30, 40))),
    "polarisation": (A, dict(A, ang=(20, 30, 0))),
    "nh": (A, dict(A, nh=9)),
    "formulation": (A, dict(A, form="tangent")),
    "order": (A, dict(A, order=[0, 3, 2, 1, 4])),
    "subset": (A, dict(A, order=[0, 1, 4])),
    "uniform": (dict(A, uni=1), dict(A, uni=1, wl=0.83)),
    "uniform azimuth": (dict(A, uni=1), dict(A, uni=1, ang=(20, -30, 40))),
    "same": (A, A),
}
TRIPLE = (A, dict(A, wl=0.83), dict(A, ang=(50, 0, 90), nh=9))


def make(kind, par, shared=None):
    one_d = kind.endswith("1d")
    lat = lattice("1d" if one_d else "sq", 10) if shared is None else shared["lat"]
    if shared is None or "layers" not in shared:
        ls = layers(lat, UNI if par.get("uni") else STACK)
        if one_d is False:
            for l in ls:
                l.tangent_field_type = "fft"
        if shared is not None:
            shared["layers"] = ls
    else:
        ls = shared["layers"]
    ls = [ls[i] for i in par.get("order", range(len(ls)))]
    key = (par["wl"], tuple(par["ang"]))
    if shared is None:
        pw = plane_wave(par["wl"], par["ang"])
    else:
        pw = shared.setdefault("pw", {}).setdefault(key, plane_wave(par["wl"], par["ang"]))
    return nn().Simulation(ls, pw, nh=par["nh"], formulation=par.get("form", "original"))


def ask(sim, op):
    if op == "eff":
        return flat(sim.diffraction_efficiencies(orders=True))
    if op == "f1":
        return flat(sim.get_field_fourier("L1", z=0.1))
    if op == "S02":
        return flat(sim.get_S_matrix(indices=(0, len(sim.layers) - 1)))
    if op == "solve":
        sim.solve()
    if op == "rall":
        sim.reset("all")
    return None


_ref = {}


def reference(kind, k, par, op):
    key = (kind, k, op)
    if key not in _ref:
        _ref[key] = ask(make(kind, par), op)
    return _ref[key]


def params(kind):
    k = kind[:-2] if kind.endswith("1d") else kind
    return TRIPLE if k == "triple" else PAIRS[k]


def cases(tier):
    out = []
    depth = 4 if tier == "quick" else 5
    for kind in list(PAIRS) + ["wavelength1d", "formulation1d", "order1d"]:
        if kind == "nh" or kind == "formulation":
            d = 3 if tier == "quick" else 4
        else:
            d = depth
        if kind.endswith("1d"):
            d = 3 if tier == "quick" else 4
        letters = [(s, o) for s in range(2) for o in OPS]
        for p in itertools.product(letters, repeat=d - 2):
            out.append([kind, [list(x) for x in p], d])
    letters = [(s, o) for s in range(3) for o in ("eff", "f1")]
    for p in itertools.product(letters, repeat=2):
        out.append(["triple", [list(x) for x in p], depth])
    return out


def run(case, rec):
    kind, prefix, depth = case
    pars = params(kind)
    ops = OPS if kind != "triple" else ["eff", "f1"]
    letters = [(s, o) for s in range(len(pars)) for o in ops]
    for rest in itertools.product(letters, repeat=depth - len(prefix)):
        seq = [tuple(x) for x in prefix] + list(rest)
        if seq[-1][1] in ("solve", "rall") or seq[0][0] != 0 and kind == "same":
            continue
        shared = {"lat": lattice("1d" if kind.endswith("1d") else "sq", 10)}
        sims = {}
        last = {}
        for n, (s, op) in enumerate(seq):
            if s not in sims:
                sims[s] = make(kind, pars[s], shared)
            got = ask(sims[s], op)
            rec.step()
            if got is not None:
                rec.close(got, reference(kind, s, pars[s], op),
                          f"sharing layers, different {kind}: {op} of simulation {s} after {seq[:n]}", tol=1e-8)
            last[s] = op
            rec.state(kind, tuple(sorted((a, b) for a, b in set(seq[: n + 1]))), (s, op))
        # every simulation still answers as if alone
        for s in sims:
            rec.close(ask(sims[s], "f1"), reference(kind, s, pars[s], "f1"),
                      f"sharing layers, different {kind}: f1 of simulation {s} after {seq}", tol=1e-8)
        rec.outcome(kind, tuple(sorted(last.items())))
        rec.trace()
