"""C01: what a simulation answers depends on its parameters, not on its history."""

import itertools

import numpy as np

from ..core import tonp
from ..lib import epsilon, lattice, layers, nn, plane_wave, simulation

ID = "C01"
BOUND = {
    "quick": "every sequence of 3 operations (any, any, query) over 25 operations, followed by a closing "
    "observation, on 3 structures; every sequence of 2 on 3 more (other formulations, backends); every pair of queries on a stack of 15 layers and "
    "histories of 400 queries on one of 130 layers",
    "thorough": "every sequence of 4 operations (any, any, any, query) on 2 structures, of 3 on the others; every pair of queries on a stack of 24 layers",
}
RULE = (
    "state: parameter values and the set of queries answered since the last reset; transition: one operation on the "
    "real Simulation; trace: one complete sequence replayed on a fresh Simulation; every answer is compared with the "
    "answer of a fresh simulation with the same parameters asked only that query"
)

CFG = {
    "sq": dict(lat="sq", disc=10, nh=5, ang=(20, 30, 40), wl=1.1,
               stack=[[0, 1], [0.3, ["L", 4, 1]], [0.2, 2.1], [0.25, ["gr", 3, 1.5]], [0, 2]]),
    "obl": dict(lat="obl", disc=[11, 9], nh=7, ang=(10, 70, 90), wl=0.9,
                stack=[[0.1, 1.2], [0.3, ["L", [4, 0.3], 1]], [0.0, 2.1], [0.25, ["blk", 3, 1.5]], [0.2, 2]]),
    "1d": dict(lat="1d", disc=16, nh=5, ang=(20, 30, 40), wl=1.1, form="tangent",
               stack=[[0, 1], [0.3, ["L", 4, 1]], [0.2, 2.1], [0.25, ["gr", 3, 1.5]], [0, 2]]),
    "tan": dict(lat="rect", disc=[10, 12], nh=5, ang=(20, 30, 40), wl=1.1, form="tangent",
                stack=[[0, 1], [0.3, ["L", 4, 1]], [0.2, 2.1], [0.25, ["gr", 3, 1.5]], [0, 2]]),
    "jon": dict(lat="sq", disc=10, nh=5, ang=(20, 30, 40), wl=1.1, form="jones",
                stack=[[0, 1], [0.3, ["L", 4, 1]], [0.2, 2.1], [0.25, ["gr", 3, 1.5]], [0, 2]]),
    "uni": dict(lat="sq", disc=10, nh=5, ang=(20, 30, 40), wl=1.1,
                stack=[[0, 1], [0.3, 3], [0.2, 2.1], [0.25, 1.7], [0, 2]]),
}
MUT = ["thk", "eps", "epu", "rS", "rsolve", "rall", "lreset", "solve"]
QRY = ["S", "S04", "S02", "S24", "S01", "S13", "eff", "effo", "effc", "effd", "effcd", "f0", "f1", "f2", "f3", "f4",
       "g1", "Eg3", "st1", "st2", "eps1", "flux"]
# partial S-matrices that end in a patterned layer are expressed in its eigenmodes: they are
# asked (they fill caches) but not compared
BLIND = {"S01", "S13"}
EPS3 = {0: None, 1: ["blk", 2.5, 1.2]}


def build(cfg, par):
    sc = dict(CFG[cfg])
    st = [list(x) for x in sc["stack"]]
    if par[0]:
        st[1][0] = 0.47
    if par[1]:
        st[3][1] = EPS3[1] if isinstance(st[3][1], list) else 2.9
    if par[2]:
        st[2][1] = 3.3
    sc["stack"] = st
    return simulation(sc)


def query(sim, q):
    if q == "S":
        return sim.get_S_matrix()
    if q == "S04":
        return sim.get_S_matrix(indices=(0, 4))
    if q in ("S02", "S24", "S01", "S13"):
        return sim.get_S_matrix(indices=(int(q[1]), int(q[2])))
    if q == "eff":
        return sim.diffraction_efficiencies()
    if q == "effo":
        return sim.diffraction_efficiencies(orders=True)
    if q == "effc":
        return sim.diffraction_efficiencies(orders=True, complex=True)
    if q == "effd":
        return sim.diffraction_efficiencies(orders=True, return_dict=True)
    if q == "effcd":
        return sim.diffraction_efficiencies(orders=True, complex=True, return_dict=True)
    if q[0] == "f" and len(q) == 2:
        return sim.get_field_fourier(int(q[1]), z=[0.05, 0.13])
    if q == "g1":
        return sim.get_field_grid("L1", z=0.1, shape=(4, 5) if not sim.lattice.is_1D else (6, 1))
    if q == "Eg3":
        return sim.get_Efield_grid(3, z=[0.0, 0.2], component="y", shape=(5, 4) if not sim.lattice.is_1D else (6, 1))
    if q in ("st1", "st2"):
        return sim.get_z_stress_tensor_integral(int(q[2]), z=0.1)
    if q == "eps1":
        return sim.get_epsilon(1)
    if q == "flux":
        an, bn = sim._get_amplitudes(4) if hasattr(sim, "_get_amplitudes") else (sim.a0, sim.bN)
        return sim.get_z_poynting_flux(sim.layers[4], an, bn)
    raise ValueError(q)


def flat(v):
    """Nested result -> flat complex vector (keys of dictionaries included)."""
    if isinstance(v, dict):
        out = [np.array([len(v)], complex)]
        for k in sorted(v):
            out += [np.array([k], complex), flat(v[k])]
        return np.concatenate(out)
    if isinstance(v, (list, tuple)):
        return np.concatenate([flat(x) for x in v]) if len(v) else np.zeros(0, complex)
    return tonp(v).astype(complex).ravel()


_ref = {}


def reference(cfg, par, q):
    k = (cfg, par, q)
    if k not in _ref:
        _ref[k] = flat(query(build(cfg, par), q))
    return _ref[k]


def apply(sim, cfg, par, op):
    """Mutators; returns the new parameters."""
    st = CFG[cfg]["stack"]
    a = nn().backend.array
    if op == "thk":
        par = (1 - par[0],) + par[1:]
        sim.layers[1].thickness = 0.47 if par[0] else st[1][0]
        sim.reset("S")
    elif op == "eps":
        par = (par[0], 1 - par[1], par[2])
        e = st[3][1]
        if isinstance(e, list):
            v = epsilon(EPS3[1] if par[1] else e, sim.lattice.discretization)
        else:
            v = np.array(2.9 if par[1] else e, complex)
        sim.layers[3].epsilon = a(v)
        sim.reset("all")
    elif op == "epu":
        par = par[:2] + (1 - par[2],)
        sim.layers[2].epsilon = a(np.array(3.3 if par[2] else st[2][1], complex))
        sim.reset()
    elif op == "rS":
        sim.reset("S")
    elif op == "rsolve":
        sim.reset("solve")
    elif op == "rall":
        sim.reset("all")
    elif op == "lreset":
        sim.layers[1].reset()
    elif op == "solve":
        sim.solve()
    return par


def sequence(cfg, seq, rec):
    sim = build(cfg, (0, 0, 0))
    watch = [sim.excitation.amplitude, sim.excitation.wavevector, sim.excitation.a0, sim.excitation.angles,
             sim.harmonics, sim.layers[1].epsilon, sim.k0para]
    before = [flat(w) for w in watch]
    par, asked, kept = (0, 0, 0), (), []
    first_eps = True
    for n, op in enumerate(seq):
        rec.step()
        if op in MUT:
            par = apply(sim, cfg, par, op)
            if op not in ("solve",):
                asked = () if op != "rsolve" else asked
        else:
            got = query(sim, op)
            val = flat(got).copy()
            asked = tuple(sorted(set(asked) | {op}))
            if op not in BLIND:
                rec.close(val, reference(cfg, par, op), f"{cfg}: {op} after {list(seq[:n])}", tol=1e-8)
            kept.append((n, op, got, val))
        rec.state(cfg, par, asked)
    for n, op, got, val in kept:
        rec.check(np.array_equal(flat(got), val, equal_nan=True),
                  f"{cfg}: value returned by {op} (operation {n} of {list(seq)}) changed afterwards")
    # closing observation
    for op in ("eff", "f3"):
        rec.close(flat(query(sim, op)), reference(cfg, par, op), f"{cfg}: {op} after {list(seq)}", tol=1e-8)
    for w, b in zip(watch, before):
        rec.check(np.array_equal(flat(w), b), f"{cfg}: an input was modified by {list(seq)}")
    rec.trace()
    rec.outcome(cfg, par, tuple(np.round(flat(query(sim, "eff")).real, 6)))


def cases(tier):
    out = [["tower", 130, None, 0]] + [["tower", 15, p, 8] for p in range(8)]
    if tier == "thorough":
        out += [["tower", 24, p, 32] for p in range(32)]
    deep = ["sq", "1d", "uni"] if tier == "quick" else ["obl", "tan", "jon", "uni"]
    for cfg in CFG:
        for p in MUT + QRY:
            out.append([cfg, [p]] if cfg not in deep else [cfg, [p], "short"])
    for cfg in deep:
        for p in itertools.product(MUT + QRY, repeat=2):
            out.append([cfg, list(p)])
    if tier == "thorough":
        for cfg in ("sq", "1d"):
            for p in itertools.product(MUT + QRY, repeat=3):
                out.append([cfg, list(p)])
    return out


def tower(n):
    """A stack of n layers, all different, so that caches of many partial stacks are filled."""
    n_ = nn()
    lat = lattice("1d", 8)
    L = [lat.Layer("a")] + [lat.Layer(f"l{i}", thickness=0.05 + 0.003 * i, epsilon=1.5 + (i * 7 % 5) / 2) for i in range(n - 2)] + [lat.Layer("b", epsilon=2.0)]
    return n_.Simulation(L, plane_wave(1.1, (25, 0, 40)), nh=1)


def tower_query(s, n, q):
    k, i = q
    if k == "f":
        return s.get_field_fourier(i, z=0.02)
    if k == "b":
        return s.get_S_matrix(indices=(0, i))
    if k == "e":
        return s.get_S_matrix(indices=(i, n - 1))
    return s.diffraction_efficiencies(orders=True)


def run_tower(case, rec):
    _, n, part, parts = case
    Q = [("f", i) for i in range(n)] + [("b", i) for i in range(1, n)] + [("e", i) for i in range(n - 1)] + [("R", 0)]
    if part is None:  # one long history in each direction
        for qs in (Q, Q[::-1], Q[::2] + Q[1::2]):
            s = tower(n)
            for j, q in enumerate(qs):
                rec.close(flat(tower_query(s, n, q)), tower_ref(n, q), f"stack of {n} layers: query {j}, {q}", tol=1e-8)
                rec.step()
                rec.state("tower", n, q, j)
            rec.trace()
        return
    for q in Q[part::parts]:
        for r in Q:
            s = tower(n)
            tower_query(s, n, q)
            rec.close(flat(tower_query(s, n, r)), tower_ref(n, r), f"stack of {n} layers: {r} after {q}", tol=1e-8)
            rec.step(2)
            rec.trace()
            rec.state("tower", n, q, r)
    rec.outcome("tower", n, part)


def tower_ref(n, q):
    if ("tower", n, q) not in _ref:
        _ref["tower", n, q] = flat(tower_query(tower(n), n, q))
    return _ref["tower", n, q]


def run(case, rec):
    if case[0] == "tower":
        return run_tower(case, rec)
    cfg, prefix = case[:2]
    for q in QRY:
        sequence(cfg, prefix + [q], rec)
