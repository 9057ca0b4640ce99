"""C04: energy balance and passivity."""

import itertools

import numpy as np

from ..lib import fields, flux_z, harm, nn, simulation, _np, epsilon

ID = "C04"
EXC = [[1.27, [0, 0, 0]], [1.27, [0, 0, 90]], [0.83, [17, 0, 0]], [0.83, [17, 35, 40]], [0.61, [48, 70, 90]], [1.9, [71, 110, 25]]]
LOSSLESS = [[4.0, 1.0], [12.0, 2.25], [1.0, 3.4], [-6.0, 1.3]]
LOSSY = [[{"c": [4.0, 0.5]}, 1.0], [{"c": [-9.0, 1.2]}, 2.25], [1.0, {"c": [3.0, 0.1]}]]
OUT = [[1.0, 1.0], [1.0, 2.25], [2.1, 1.3], [1.0, {"c": [3.0, 0.4]}], [1.44, {"c": [-7.0, 1.0]}]]
BOUND = {
    "quick": "every combination of 6 lattices (2D and 1D, 'original', 1D also 'tangent'), 2 motifs, 7 material pairs, "
    "6 excitations, 5 exterior pairs, and 2 stacks (1 or 3 inner layers)",
    "thorough": "the same with 4 motifs, 3 truncation orders and 4 stacks",
}
RULE = (
    "state: one structure and excitation; transition: one balance law evaluated (whole stack, each layer, each order); "
    "trace: one real simulation. Lossless: R+T=1; lossy: 1-R-T equals the absorption integrated from the fields over "
    "each layer; every order non-negative, evanescent orders zero"
)
ASSUMPTIONS = ["real permittivity of the incidence medium", "no order exactly at grazing"]


def stacks(m, pair, tier):
    e = lambda v: [v["c"][0], v["c"][1]] if isinstance(v, dict) else v
    g = [0.31, [m, e(pair[0]), e(pair[1])]]
    g2 = [0.17, ["gr" if m != "gr" else "blk", e(pair[0]), e(pair[1])]]
    out = [[g], [g, [0.23, 1.9], g2]]
    if tier == "thorough":
        out += [[g2, [0.0, 2.0], g, [0.4, {"c": [1.8, 0.05]}]], [[0.11, {"c": [2.5, 0.3]}], g]]
    return out


def cases(tier):
    out = []
    confs = [("1d", "original", 24, 9), ("1d", "tangent", 24, 11), ("sq", "original", 12, 9), ("rect", "original", [12, 14], 11),
             ("obl", "original", [14, 12], 13), ("hex", "original", 12, 13)]
    motifs = ["L", "gr"] if tier == "quick" else ["L", "gr", "blk", "sym"]
    for (lat, form, disc, nh), m, pair, ext in itertools.product(confs, motifs, LOSSLESS + LOSSY, OUT):
        nhs = [nh] if tier == "quick" else [nh, 5, 1]
        for n in nhs:
            out.append([lat, form, disc, n, m, pair, ext, tier])
    return out


GX, GW = np.polynomial.legendre.leggauss(20)


def toeplitz(f, H):
    F = np.fft.fft2(f) / f.size
    H = np.array(H)
    d = H[:, None, :] - H[None, :, :]
    return F[d[..., 0] % f.shape[0], d[..., 1] % f.shape[1]]


def absorption(sim, i, spec, d, form):
    disc = sim.lattice.discretization
    e = epsilon(spec, disc)
    H = harm(sim)
    if np.ndim(e) == 0:
        e = np.full(disc, complex(e))
    T = toeplitz(e, H)
    anti = (T - T.conj().T) / 2j
    if form == "tangent":
        Ti = np.linalg.inv(toeplitz(1 / e, H))
        antix = (Ti - Ti.conj().T) / 2j
    else:
        antix = anti
    om = float(_np(sim.omega))
    P = 0.0
    z = [float(v) for v in 0.5 * d * (GX + 1)]
    F = _np(sim.get_field_fourier(i, z=z))
    for k in range(len(z)):
        E = F[k, 0]
        P += 0.5 * d * GW[k] * om * sum(
            float(np.real(np.vdot(E[c], (antix if c == 0 else anti) @ E[c]))) for c in range(3)
        )
    return P


def lossless(x):
    if isinstance(x, dict):
        return x["c"][1] == 0
    if isinstance(x, list):
        return all(lossless(v) for v in x[1:]) if isinstance(x[0], str) else x[1] == 0
    return True


def run(case, rec):
    lat, form, disc, nh, m, pair, ext, tier = case
    for inner in stacks(m, pair, tier):
        for wl, ang in EXC:
            st = [[0, ext[0]]] + inner + [[0, ext[1]]]
            sc = dict(lat=lat, disc=disc, nh=nh, form=form, wl=wl, ang=ang, stack=st)
            tag = f"{lat} {form} {m} {pair} exterior {ext} wl={wl} angles={ang} layers={len(inner)}"
            sim = simulation(sc)
            rec.state(lat, form, nh, m, pair, ext, len(inner), wl, ang)
            rec.trace()
            R, T = sim.diffraction_efficiencies()
            R, T = float(_np(R)), float(_np(T))
            Ro, To = [_np(v) for v in sim.diffraction_efficiencies(orders=True)]
            rec.step(3)
            rec.check(np.all(Ro >= -1e-9) and np.all(To >= -1e-9), lambda: f"{tag}: negative efficiency {Ro.min()} {To.min()}")
            rec.check(R <= 1 + 1e-8 and np.isfinite(R) and np.isfinite(T), lambda: f"{tag}: R={R} T={T}")
            inc = float(_np(sim.incident_flux))
            k2 = np.real(_np(sim.kx)) ** 2 + np.real(_np(sim.ky)) ** 2
            om = float(_np(sim.omega))
            rec.close(Ro[k2 > ext[0] * om**2 * 1.0001], 0 * Ro[k2 > ext[0] * om**2 * 1.0001], f"{tag}: evanescent reflected orders")
            if not isinstance(ext[1], dict):
                w = k2 > ext[1] * om**2 * 1.0001
                rec.close(To[w], 0 * To[w], f"{tag}: evanescent transmitted orders")
            A = 0.0
            for i, (d, e) in enumerate(inner, 1):
                if lossless(e):
                    continue
                a = absorption(sim, i, e, d, form) / inc
                f0 = flux_z(*fields(sim, i, 0)) / inc
                f1 = flux_z(*fields(sim, i, d)) / inc
                rec.step()
                rec.close(f0 - f1, a, f"{tag}: power lost in layer {i} and absorption from the fields", tol=1e-6)
                rec.check(a > 0, f"{tag}: layer {i} absorbs {a}")
                A += a
            rec.close(R + T + A, 1.0, f"{tag}: R+T+A", tol=1e-6 if A else 1e-8)
            rec.outcome(round(R, 6), round(T, 6))
