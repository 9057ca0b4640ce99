"""C30: the scattering matrix is that of a passive, reciprocal scatterer for waves from both sides."""

import itertools

import numpy as np

from ..core import tonp
from ..lib import LATS, harm, simulation, sqrtp

ID = "C30"
BOUND = {
    "quick": "8 lattice/formulation/truncation settings x 13 stacks (lossless, lossy, metallic, Hermitian, symmetric and general tensors, several layers, none) x 5 pairs of exterior media x "
    "5 directions x 2 wavelengths; every pair of channels (both sides, every order, both polarisations, propagating or evanescent)",
    "thorough": "13 settings, 9 directions, 3 wavelengths",
}
RULE = (
    "state: (structure, excitation, part of the stack); transition: one law of the complex scattering matrix: unitary on the propagating channels of lossless structures, "
    "contraction for absorbing ones, transposed matrix for the opposite direction (and transposed tensors), evanescent channels included; trace: one S-matrix"
)
ASSUMPTIONS = ["real exterior permittivities", "no order exactly at grazing", "2D tangent, jones and pol formulations, and the 1D tangent formulation with off-diagonal tensors, are not symmetric at finite truncation"]


def T(xx, xy, yx, yy, zz):
    return {"tensor": [[xx, xy, 0], [yx, yy, 0], [0, 0, zz]]}


def P(m, a, b):
    return [m, a, b]


i = [0.0, 1.0]
HERM = T(P("L", 4, 1.2), P("gr", [0.3, 0.5], [0, 0.1]), P("gr", [0.3, -0.5], [0, -0.1]), P("L", 3, 1), P("blk", 2, 1))
HERM_T = T(P("L", 4, 1.2), P("gr", [0.3, -0.5], [0, -0.1]), P("gr", [0.3, 0.5], [0, 0.1]), P("L", 3, 1), P("blk", 2, 1))
SYM = T(P("L", [4, 0.3], 1.2), P("L", [0.3, 0.1], 0.1), P("L", [0.3, 0.1], 0.1), P("L", [3, 0.2], 1), P("blk", [2, 0.1], 1))
GEN = T(P("L", [4, 0.3], 1.2), P("gr", 0.5, [0.1, 0.2]), P("gr", [0.1, 0.4], 0), P("L", [3, 0.2], 1), P("blk", [2, 0.1], 1))
GEN_T = T(P("L", [4, 0.3], 1.2), P("gr", [0.1, 0.4], 0), P("gr", 0.5, [0.1, 0.2]), P("L", [3, 0.2], 1), P("blk", [2, 0.1], 1))

DIAG = T(P("L", 4, 1.2), 0, 0, P("gr", 3, 1.5), P("blk", 2, 1))

# name: (inner layers, those of the reciprocal problem, "lossless" | "passive" | None)
STACKS = {
    "L": ([[0.3, P("L", 4, 1)]], None, "lossless"),
    "two": ([[0.3, P("L", 4, 1)], [0.2, 2.1], [0.25, P("gr", 3, 1.5)]], None, "lossless"),
    "thin": ([[0.02, P("gr", 9, 2)], [0.0, P("L", 3, 1)]], None, "lossless"),
    "high": ([[0.4, P("blk", 12.0, 1)], [0.1, 12]], None, "lossless"),
    "metal": ([[0.1, P("L", [-8, 0.0], 1)]], None, "lossless"),
    "lossy": ([[0.3, P("L", [4, 0.4], 1)], [0.2, {"c": [2, 0.1]}]], None, "passive"),
    "silver": ([[0.2, P("gr", [-8, 0.6], 1.5)], [0.05, {"c": [-3.0, 0.2]}], [0.1, P("L", 3, 1)]], None, "passive"),
    "uni": ([[0.3, 4], [0.2, {"c": [-2.0, 0.0]}]], None, "lossless"),
    "none": ([], None, "lossless"),
    "herm": ([[0.3, HERM], [0.1, 2]], [[0.3, HERM_T], [0.1, 2]], "lossless"),
    "sym": ([[0.3, SYM], [0.2, P("L", 3, 1)]], None, "passive"),
    "gen": ([[0.3, GEN], [0.1, 2]], [[0.3, GEN_T], [0.1, 2]], None),
    "diag": ([[0.3, DIAG], [0.1, 2]], None, "lossless"),
}
OFFDIAG = ("herm", "sym", "gen")
EXT = [(1, 1), (1, 2.25), (2.25, 1), (1.3, 3.1), (4, 4)]
CONF = [
    dict(lat="sq", disc=12, nh=9),
    dict(lat="obl", disc=[14, 12], nh=13),
    dict(lat="hex", disc=12, nh=7),
    dict(lat="rect", disc=[12, 14], nh=9, trunc="parallelogrammic"),
    dict(lat="tall", disc=14, nh=11),
    dict(lat="1d", disc=20, nh=9),
    dict(lat="1d", disc=17, nh=7, form="tangent"),
    dict(lat="sq", disc=8, nh=1),
    dict(lat="hex", disc=16, nh=19),
    dict(lat="obl", disc=16, nh=25, trunc="parallelogrammic"),
    dict(lat="1d", disc=40, nh=17, form="tangent"),
    dict(lat="sq", disc=13, nh=21),
    dict(lat="rect", disc=15, nh=17),
]
DIRS = [[0, 0], [23, 0], [37, 41], [-61, 110], [8, 270], [48, 20], [75, 200], [15, 90], [33, 321]]
WL = [1.13, 0.61, 2.3]


def cases(tier):
    nc, nd, nw = (8, 5, 2) if tier == "quick" else (13, 9, 3)
    out = []
    for c, s, d, w in itertools.product(range(nc), STACKS, DIRS[:nd], WL[:nw]):
        if not (s in OFFDIAG and CONF[c].get("form") == "tangent"):
            out.append([c, s, d, w])
    return out


def smatrix(c, inner, ext, d, w, parts=True):
    sc = dict(CONF[c])
    sc.update(wl=w, ang=[d[0], d[1], 35], stack=[[0.0, ext[0]]] + inner + [[0.0, ext[1]]])
    sim = simulation(sc)
    S = tonp(sim.get_S_matrix())
    H = harm(sim)
    return sim, np.block([[S[0, 0], S[0, 1]], [S[1, 0], S[1, 1]]]), H


def bases(c, H, eps, ext0, d, w):
    """Normal waves of unit power in a medium: columns of tangential H, and whether they propagate."""
    bv = LATS[CONF[c]["lat"]]
    if np.ndim(bv) == 0:
        bv = ((bv, 0.0), (0.0, 1.0))
    K = 2 * np.pi * np.linalg.inv(np.array(bv)).T
    k0 = 2 * np.pi / w
    th, ph = np.radians(d)
    k = k0 * np.sqrt(ext0) * np.sin(th) * np.array([np.cos(ph), np.sin(ph)]) + np.array(H) @ K
    n = len(H)
    D = np.zeros((2 * n, 2 * n), complex)
    kt = np.hypot(*k.T)
    kz = sqrtp(eps * k0**2 - kt**2)
    for m in range(n):
        u = k[m] / kt[m] if kt[m] > 1e-9 else np.array([1.0, 0.0])
        v = np.array([-u[1], u[0]])
        D[[m, n + m], m] = np.sqrt(kz[m] / k0) * u
        D[[m, n + m], n + m] = np.sqrt(eps * k0 / kz[m]) * v
    p = np.abs(kz.imag) < 1e-9
    return D, np.concatenate([p, p])


def physical(c, S, H, ext, d, w):
    """In the basis of waves of unit power: inputs (top down, bottom up), outputs (bottom down, top up)."""
    D0, p0 = bases(c, H, ext[0], ext[0], d, w)
    DN, pN = bases(c, H, ext[1], ext[0], d, w)
    Z = np.zeros_like(D0)
    Di = np.block([[D0, Z], [Z, DN]])
    Do = np.block([[DN, Z], [Z, D0]])
    return np.linalg.solve(Do, S @ Di), np.concatenate([p0, pN]), np.concatenate([pN, p0])


def run(case, rec):
    c, s, d, w = case
    inner, back, kind = STACKS[s]
    for ext in EXT:
        if CONF[c]["nh"] == 1 and any(not isinstance(e, (int, float, dict)) or isinstance(e, dict) and "tensor" in e for _, e in inner):
            continue
        tag = f"{CONF[c]} {s} {ext} {d} {w}"
        sim, S, H = smatrix(c, inner, ext, d, w)
        F, pi, po = physical(c, S, H, ext, d, w)
        rec.trace()
        rec.state(case, ext)
        rec.outcome(int(pi.sum()), int(po.sum()))
        A = F[po][:, pi]
        G = np.eye(A.shape[1]) - A.conj().T @ A
        if kind == "lossless":
            rec.close(G, np.zeros_like(G), f"not unitary: {tag}", tol=1e-8)
            rec.step(G.size)
        elif kind == "passive":
            ev = np.linalg.eigvalsh((G + G.conj().T) / 2)
            rec.check(ev.min() > -1e-8, f"gain of {-ev.min():.3g}: {tag}")
            rec.check(ev.max() > 1e-4, f"no absorption: {tag}")
            rec.step(len(ev))
        # the opposite direction
        sim2, S2, H2 = smatrix(c, back or inner, ext, [d[0], d[1] + 180.0], w)
        rec.check(set(H2) == {(-a, -b) for a, b in H}, f"harmonics of the opposite direction: {tag}")
        F2 = physical(c, S2, H2, ext, [d[0], d[1] + 180.0], w)[0]
        n = len(H)
        q = [H2.index((-a, -b)) for a, b in H]
        q = q + [n + x for x in q]
        q = q + [2 * n + x for x in q]
        F2 = F2[q][:, q]
        # outputs in the order of the inputs
        o = np.r_[2 * n: 4 * n, 0: 2 * n]
        # u and v are reversed in the opposite direction, but for waves along z
        sg = np.ones(4 * n)
        for m in range(n):
            th, ph = np.radians(d)
            if abs(np.sin(th)) < 1e-12 and H[m] == (0, 0):
                sg[[m, n + m, 2 * n + m, 3 * n + m]] = -1
        F2 = sg[o][:, None] * F2 * sg[None, :]
        M, M2 = F[o], F2[o]
        rec.close(M2.T, M, f"not reciprocal: {tag}", tol=1e-8)
        rec.step(M.size)
        rec.count("channel_pairs", M.size)
