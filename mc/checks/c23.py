"""C23: the stress tensor integral is the momentum flux of the fields."""

import itertools

import numpy as np

from ..core import tonp
from ..lib import LATS, D2R, cx, fields, harm, simulation
from .c09 import D1

ID = "C23"
CONF = [
    dict(lat="sq", nh=9),
    dict(lat="rect", nh=13, disc=[14, 13]),
    dict(lat="obl", nh=9),
    dict(lat="hex", nh=7),
    dict(lat="1d", nh=7, disc=16),
    dict(lat="1d", nh=9, disc=20, form="tangent"),
    dict(lat="rect", nh=9, form="tangent", tf=1),
    dict(lat="obl", nh=9, form="jones", tf=1),
    dict(lat="sq", nh=9, form="pol", tf=1),
]
STACKS = {
    "none": [],
    "uni": [[0.3, 4.0], [0.2, 2.0]],
    "pat": [[0.31, ["L", 4, 1]]],
    "two": [[0.2, ["blk", 5, 2]], [0.15, 3.0], [0.3, ["gr", 4, 1.5]]],
    "lossy": [[0.3, ["L", [4, 0.4], 1]], [0.2, {"c": [3, 0.2]}]],
    "metal": [[0.12, ["L", [-7, 0.6], 1.5]]],
    "aniso": [[0.25, {"tensor": [[["L", 4, 1], ["L", 0.7, 0], 0], [["L", 0.7, 0], ["L", 3, 1], 0], [0, 0, ["L", 2, 1]]]}]],
}
LOSSLESS = ("none", "uni", "pat", "two", "aniso")
EXT = [[1.0, 1.0], [1.0, 2.25], [2.0, 1.2]]
EXC = [[0.83, [0, 0, 30]], [0.83, [17, 35, 0]], [1.27, [38, 200, 70]], [0.61, [48, 70, 90]]]
BOUND = {
    "quick": "9 lattice/formulation settings x 7 stacks x 3 exterior pairs x 4 excitations; every layer at 4 depths, named in 3 ways",
    "thorough": "the same with 6 more excitations",
}
RULE = (
    "state: (structure, layer, depth); transition: one component compared with the quadratic form of the fields (displacement from the curl of H), "
    "with the momentum carried by the diffraction orders (exterior layers), or with its value at another depth (conservation); trace: one simulation"
)


def cases(tier):
    exc = EXC + ([[0.7, [5, -10, 10]], [1.9, [71, 110, 25]], [0.55, [30, 0, 45]], [0.9, [62, 90, 0]], [2.3, [0, 0, 90]], [1.1, [12, 300, 120]]] if tier == "thorough" else [])
    out = []
    for c, s, e, x in itertools.product(range(len(CONF)), STACKS, range(len(EXT)), exc):
        if s == "aniso" and CONF[c].get("form"):
            continue
        out.append([c, s, e, x])
    return out


def run(case, rec):
    ci, sname, ei, (wl, ang) = case
    C = CONF[ci]
    st = [[0.0, EXT[ei][0]]] + STACKS[sname] + [[0.0, EXT[ei][1]]]
    sim = simulation(dict(C, wl=wl, ang=ang, stack=st))
    if C.get("tf"):
        N = sim.lattice.discretization
        x, y = np.meshgrid(np.arange(N[0]) / N[0], np.arange(N[1]) / N[1], indexing="ij")
        for l in sim.layers:
            l.tangent_field = [np.cos(1 + np.sin(2 * np.pi * x)), np.sin(1 + np.sin(2 * np.pi * x) + 0 * y)]
    form = C.get("form", "original")
    n = len(st)
    tag = f"{C['lat']} {form} {sname} ext={EXT[ei]} wl={wl} angles={ang}"
    R, T = [tonp(v) for v in sim.diffraction_efficiencies(orders=True)]
    rec.trace()
    k0 = 2 * np.pi / wl
    H = np.array(harm(sim))
    bv = LATS[C["lat"]]
    bv = np.array(((bv, 0), (0, 1.0)) if np.ndim(bv) == 0 else bv, float)
    K = 2 * np.pi * np.linalg.inv(bv).T
    th, ph = ang[0] * D2R, ang[1] * D2R
    kin = k0 * np.sqrt(EXT[ei][0]) * np.sin(th) * np.array([np.cos(ph), np.sin(ph)])
    kx, ky = (kin[:, None] + (H @ K).T)
    get = lambda i, z: np.array([float(v) for v in sim.get_z_stress_tensor_integral(i, z=z)])  # noqa: E731

    def form_of_fields(i, z):
        f = lambda zz: tonp(sim.get_field_fourier(i, z=[z + v for v in zz]))  # noqa: E731
        E, Hf = f([0.0])[0]
        dH = D1(f)[1]
        # i k x H = -i k0 D
        Dx = (1j * ky * Hf[2] - dH[1]) / (-1j * k0)
        Dy = (dH[0] - 1j * kx * Hf[2]) / (-1j * k0)
        Dz = (kx * Hf[1] - ky * Hf[0]) / (-k0)
        q = lambda a, b: np.sum(a * np.conj(b)).real  # noqa: E731
        return np.array(
            [
                q(E[0], Dz) + q(Hf[0], Hf[2]),
                q(E[1], Dz) + q(Hf[1], Hf[2]),
                0.5 * (q(E[2], Dz) + q(Hf[2], Hf[2]) - q(E[0], Dx) - q(E[1], Dy) - q(Hf[0], Hf[0]) - q(Hf[1], Hf[1])),
            ]
        ), max(1.0, np.abs(E).max() ** 2, np.abs(Hf).max() ** 2)

    labels = [l.name for l in sim.layers]
    first = {}
    for i in range(n):
        d = st[i][0] or 0.2
        e = st[i][1]
        for z in (0.0, 0.03, 0.5 * d, 0.9 * d):
            if i == 0 and z > 0:
                continue  # evanescent reflected orders grow beyond the interface
            v = get(i, z)
            t = f"{tag}: layer {i} z={z:.3g}"
            ref, scale = form_of_fields(i, z)
            if scale > 1e6:
                rec.skip("fields grow")
                continue
            for c in range(3):
                rec.close(v[c], ref[c], f"{t}: component {'xyz'[c]} and the fields", tol=2e-6, scale=scale * (n + 5))
            rec.step(3)
            rec.state(case, i, z)
            if z == 0.5 * d:
                rec.close(get(labels[i], z), v, f"{t}: by name", tol=0)
                rec.close(get(sim.layers[i], z), v, f"{t}: by layer", tol=0)
                rec.close(get(i - n, z), v, f"{t}: by negative index", tol=0)
            # conservation along z
            real = sname in LOSSLESS or isinstance(e, (int, float))
            ok = real and (form == "original" or C["lat"] == "1d")
            if i in first and ok:
                uni = not isinstance(e, (list, dict))
                for c in range(3):
                    if c == 2 or uni:
                        rec.close(v[c], first[i][c], f"{t}: component {'xyz'[c]} is constant in the layer", tol=1e-7, scale=scale)
                rec.step()
            first.setdefault(i, v)
        if i == n - 1 or i == 0:
            # momentum of the orders
            eps = cx(EXT[ei][0 if i == 0 else 1])
            kz = np.sqrt(np.maximum(eps * k0**2 - kx**2 - ky**2, 0))
            inc = np.cos(th) / np.sqrt(EXT[ei][0])
            P = (R if i == 0 else T) * inc
            mom = np.array([(P * kx).sum(), (P * ky).sum(), (P * kz).sum()]) / k0
            if i == 0:
                kz0 = np.sqrt(EXT[ei][0]) * k0 * np.cos(th)
                m0 = inc * np.array([kin[0], kin[1], kz0]) / k0
                ref = np.array([-m0[0] + mom[0], -m0[1] + mom[1], -m0[2] - mom[2]])
            else:
                ref = -mom
            rec.close(get(i, 0.0), ref, f"{tag}: layer {i}: momentum of the orders", tol=1e-7)
            rec.step()
    rec.outcome(np.round(get(0, 0.0), 6).tolist())
