"""C12: the harmonics kept by the truncation."""

import math

import numpy as np

from ..lib import LATS, circular_reference, harm, nn, _np

ID = "C12"
BVS = {
    **{k: v for k, v in LATS.items() if k != "1d"},
    "skew": ((1.0, 0.0), (0.9, 0.4)),
    "obt": ((1.0, 0.0), (-0.6, 0.9)),
    "neg": ((0.0, 1.0), (-1.3, 0.0)),
    "flat": ((2.0, 0.0), (0.0, 0.31)),
    "rot": ((0.8, 0.6), (-0.6, 0.8)),
    "micro": ((1e-6, 0.0), (0.2e-6, 1.1e-6)),
    "big": ((500.0, 0.0), (0.0, 433.0)),
    "sheared": ((1.0, 0.0), (1.0, 1.0)),
}
MAXNH = {"quick": 90, "thorough": 300}
BOUND = {
    "quick": "14 two-dimensional lattices (square to strongly skewed, rotated, micrometre and metre units) x circular and parallelogrammic x every nh from 1 "
    "to 90; 1D x every nh from 1 to 90; simulations for every nh up to 40",
    "thorough": "every nh from 1 to 300",
}
RULE = (
    "state: (lattice, truncation, nh, set of orders); transition: one call compared with brute force over all orders in a "
    "large square; trace: one real call of the truncation or of a simulation"
)


def cases(tier):
    m = MAXNH[tier]
    out = []
    for k in BVS:
        for a in range(1, m + 1, 15):
            out.append([k, "circular", a, min(a + 14, m)])
            out.append([k, "parallelogrammic", a, min(a + 14, m)])
    out.append(["1d", "circular", 1, m])
    out.append(["1d", "parallelogrammic", 1, m])
    for k in ("sq", "obl", "hex", "1d", "flat"):
        for t in ("circular", "parallelogrammic"):
            out.append([k, t, 1, 40, "sim"])
    out.append(["user"])
    out += [["dual", k] for k in BVS] + [["dual", "1d"]]
    return out


def expected(k, trunc, nh, shells):
    if k == "1d":
        n = max(0, (nh - 1) // 2)
        return {(i, 0) for i in range(-n, n + 1)}
    if trunc == "parallelogrammic":
        s = math.isqrt(nh)
        s -= 1 - s % 2
        return {(i, j) for i in range(-(s // 2), s // 2 + 1) for j in range(-(s // 2), s // 2 + 1)}
    l2, ij = shells
    if nh >= len(l2):
        raise RuntimeError
    tol = 1e-8 * l2[1]
    c = nh
    while c > 1 and abs(l2[c] - l2[c - 1]) <= tol:
        c -= 1
    return set(ij[:c])


def shells(bv, n=24):
    K = 2 * math.pi * np.linalg.inv(np.array(bv, float)).T
    m = int(math.ceil(n))
    I, J = [a.ravel() for a in np.meshgrid(np.arange(-m, m + 1), np.arange(-m, m + 1), indexing="ij")]
    g = I[:, None] * K[0] + J[:, None] * K[1]
    l2 = (g**2).sum(1)
    o = np.argsort(l2, kind="stable")
    return l2[o], [(int(a), int(b)) for a, b in zip(I[o], J[o])]


def judge(H, nh, exp, rec, tag):
    S = set(H)
    rec.check(len(S) == len(H), f"{tag}: repeated orders")
    rec.check((0, 0) in S, f"{tag}: no zeroth order")
    rec.check(all((-a, -b) in S for a, b in S), f"{tag}: not symmetric under inversion")
    rec.check(len(H) <= max(nh, 1), f"{tag}: {len(H)} harmonics")
    rec.check(S == exp, lambda: f"{tag}: orders {sorted(S ^ exp)[:8]} differ from the brute force reference")
    rec.step()
    rec.trace()


def run(case, rec):
    n = nn()
    if case[0] == "user":
        return run_user(rec)
    if case[0] == "dual":
        return run_dual(case[1], rec)
    k, trunc, a, b = case[:4]
    bv = 1.0 if k == "1d" else BVS[k]
    sh = None if k == "1d" else shells(bv)
    if len(case) == 5:
        for nh in range(a, b + 1):
            lat = n.Lattice(bv, discretization=64, truncation=trunc)
            pat = lat.ones()
            pat[3:20] = 2.5
            for uniform in (False, True):
                L = lat.Layer("g", thickness=0.1, epsilon=2.5 if uniform else pat)
                sim = n.Simulation([lat.Layer("a"), L, lat.Layer("b")], n.PlaneWave(0.9), nh=nh)
                m = 1 if uniform else nh
                judge(harm(sim), m, expected(k, trunc, m, sh), rec, f"simulation {k} {trunc} nh={nh} uniform={uniform}")
                rec.check(sim.nh == len(harm(sim)), f"simulation {k} {trunc} nh={nh}: nh attribute {sim.nh}")
                rec.state(k, trunc, nh, uniform, tuple(harm(sim)))
        return
    lat = n.Lattice(bv, discretization=8, truncation=trunc)
    for nh in range(a, b + 1):
        exp = expected(k, trunc, nh, sh)
        for sort in (False, True):
            G, m = lat.get_harmonics(nh, sort=sort)
            G = _np(G)
            H = [(int(x), int(y)) for x, y in G.T]
            tag = f"{k} {trunc} nh={nh} sort={sort}"
            rec.check(int(m) == len(H), f"{tag}: reported {m}, returned {len(H)}")
            judge(H, nh, exp, rec, tag)
            if sort:
                rec.check(bool(np.all(np.diff(G[0]) >= 0)), f"{tag}: not sorted")
        rec.state(k, trunc, nh, tuple(sorted(H)))
        rec.outcome(k, trunc, len(H))
    for bad in (2.5,):
        try:
            lat.get_harmonics(bad)
            rec.check(k == "1d" and False, f"{k}: nh={bad} accepted")
        except ValueError:
            rec.check(True, "")


def run_user(rec):
    """Orders given by the user are the ones used, in the order given up to sorting."""
    n = nn()
    sets = [[(0, 0)], [(1, 0), (0, 0), (-1, 0)], [(2, 1), (0, 0), (-1, 3), (4, -2)], [(0, 0), (0, 1), (0, -1), (5, 5)]]
    for s in sets:
        arr = n.backend.array(np.array(s).T)
        lat = n.Lattice(((1, 0), (0, 1)), discretization=32, harmonics_array=arr)
        pat = lat.ones()
        pat[3:20] = 2.5
        for nh in (1, 7, 50):
            G, m = lat.get_harmonics(nh)
            rec.check(int(m) == len(s) and [tuple(int(v) for v in x) for x in _np(G).T] == s, f"harmonics {s} nh={nh}: {G}")
            sim = n.Simulation([lat.Layer("a"), lat.Layer("g", thickness=0.1, epsilon=pat), lat.Layer("b")], n.PlaneWave(0.9), nh=nh)
            rec.check(sorted(harm(sim)) == sorted(s) and sim.nh == len(s), f"simulation with harmonics {s}: {harm(sim)}")
            rec.step()
            rec.trace()
            rec.state("user", tuple(s), nh)
    for s in ([(1, 0), (0, 1)], [(1, 1)]):
        lat = n.Lattice(((1, 0), (0, 1)), discretization=32, harmonics_array=n.backend.array(np.array(s).T))
        try:
            n.Simulation([lat.Layer("a"), lat.Layer("b")], n.PlaneWave(0.9), nh=9)
            rec.check(False, f"harmonics without the zeroth order accepted: {s}")
        except ValueError:
            rec.check(True, "")
    # Nyquist: every order pair must be representable
    for disc in ((16, 16), (9, 16), (16, 9), (8, 8), (7, 12)):
        for s in ([(0, 0), (4, 0), (-4, 0)], [(0, 0), (0, 4), (0, -4)], [(0, 0), (-4, 0)], [(0, 0), (3, 3), (-3, -3)], [(0, 0), (0, -8)]):
            lat = n.Lattice(((1, 0), (0, 1)), discretization=disc, harmonics_array=n.backend.array(np.array(s).T))
            pat = lat.ones()
            pat[1:4] = 2
            big = max(abs(v) for h in s for v in h)
            try:
                n.Simulation([lat.Layer("a"), lat.Layer("g", thickness=0.1, epsilon=pat), lat.Layer("b")], n.PlaneWave(0.9), nh=9)
                ok = True
            except ValueError:
                ok = False
            need = any(2 * max(abs(h[d]) for h in s) >= disc[d] for d in (0, 1))
            if need:
                rec.check(not ok, f"discretization {disc} accepted for harmonics {s}")
            elif 2 * big < min(disc):
                rec.check(ok, f"discretization {disc} rejected for harmonics {s}")
            rec.step()


def run_dual(k, rec):
    n = nn()
    bv = 1.3 if k == "1d" else BVS[k]
    lat = n.Lattice(bv, discretization=(6, 5))
    B = np.array(((1.3, 0), (0, 1)) if k == "1d" else bv, float)
    Kr = _np(lat.reciprocal)
    rec.close(_np(lat.matrix), B.T, f"{k}: basis matrix", tol=1e-12)
    rec.close(B @ Kr, 2 * math.pi * np.eye(2), f"{k}: reciprocal vectors", tol=1e-9)
    area = 1.3 if k == "1d" else abs(np.linalg.det(B))
    rec.close(_np(lat.area) / area, 1.0, f"{k}: area", tol=1e-9)
    disc = (6, 1) if k == "1d" else (6, 5)
    rec.check(tuple(lat.discretization) == disc, f"{k}: discretization")
    g = _np(lat.grid)
    u = np.linspace(0, 1, disc[0])
    v = np.linspace(0, 1, disc[1])
    ref = np.array([[[B[0, c] * a + B[1, c] * b for b in v] for a in u] for c in (0, 1)])
    rec.close(g / abs(B).max(), ref / abs(B).max(), f"{k}: grid", tol=1e-12)
    for f, val in ((lat.ones(), 1), (lat.zeros(), 0), (lat.constant(2.5 - 1j), 2.5 - 1j)):
        rec.close(_np(f), np.full(disc, val, complex), f"{k}: constant arrays", tol=1e-14)
    rec.step(6)
    rec.trace()
    rec.state("dual", k)
