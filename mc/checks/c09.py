"""C09: the fields are a solution of Maxwell's equations and carry the reported power."""

import itertools

import numpy as np

from ..lib import epsilon, fields, flux_z, harm, nn, plane_wave, simulation, _np
from ..core import tonp
from .c04 import toeplitz

ID = "C09"
CONF = [
    dict(lat="sq", disc=12, nh=9),
    dict(lat="obl", disc=[14, 12], nh=13),
    dict(lat="rect", disc=[10, 14], nh=9, form="tangent", tf="fft"),
    dict(lat="sq", disc=12, nh=9, form="jones", tf="fft"),
    dict(lat="obl", disc=12, nh=9, form="pol", tf="opt"),
    dict(lat="1d", disc=20, nh=9),
    dict(lat="1d", disc=20, nh=9, form="tangent"),
    dict(lat="sq", disc=12, nh=1, uni=1),
]
STACKS = {
    "one": [[0.31, ["L", 4, 1]]],
    "two": [[0.31, ["L", [4, 0.4], 1]], [0.2, {"c": [1.9, 0.1]}], [0.15, ["gr", 3, 1.4]]],
    "metal": [[0.12, ["L", [-7, 0.6], 1.5]], [0.0, 3.0], [0.27, ["gr", 3, 1.2]], [0.05, {"c": [-4, 0.2]}]],
    "deep": [[1.3, ["L", 6, 1]], [0.9, 2.0]],
    "aniso": [[0.25, {"tensor": [[["L", 4, 1], ["L", 0.7, 0], 0], [["L", 0.7, 0], ["L", 3, 1], 0], [0, 0, ["L", 2, 1]]]}]],
}
UNI = {
    "one": [[0.31, 4]],
    "two": [[0.31, {"c": [4, 0.4]}], [0.2, {"c": [1.9, 0.1]}], [0.15, 3]],
    "metal": [[0.12, {"c": [-7, 0.6]}], [0.0, 3.0], [0.27, 1.2]],
    "deep": [[1.3, 6], [0.9, 2.0]],
}
EXT = [[1.0, 1.0], [1.3, {"c": [2.25, 0.2]}], [2.0, 1.2]]
EXC = [[0.83, [0, 0, 30]], [0.83, [17, 35, 0]], [1.27, [38, 200, 70]]]
BOUND = {
    "quick": "8 lattice/formulation settings, 5 stacks, 3 exterior pairs, 3 excitations; every interface, and 3 depths in every layer",
    "thorough": "the same with 6 excitations, 2 exterior depths and 5 depths",
}
RULE = (
    "state: (structure, layer or interface, depth); transition: one law evaluated: continuity of Et, Ht, Hz, Bn and of the "
    "power flux, curl E and curl H in every layer by high order differences of returned fields, divergence of H, flux in the first and last layer "
    "equal to 1-R and T; trace: one real simulation"
)


def cases(tier):
    out = []
    exc = EXC if tier == "quick" else EXC + [[0.61, [48, 70, 90]], [1.9, [71, 110, 25]], [0.7, [5, -10, 10]]]
    for c, s, e, x in itertools.product(range(len(CONF)), STACKS, range(len(EXT)), exc):
        if s == "aniso" and CONF[c].get("form", "original") != "original":
            continue
        if CONF[c].get("uni") and s not in UNI:
            continue
        for ed in ([0.0] if tier == "quick" else [0.0, 0.2]):
            out.append([c, s, e, x, ed])
    return out


def D1(f, h=2e-3):
    """Derivative by 8th order central differences; f(z list) -> array (nz, ...)."""
    c = [4 / 5, -1 / 5, 4 / 105, -1 / 280]
    z = [s * (k + 1) * h for k in range(4) for s in (1, -1)]
    F = f(z)
    return sum(c[k] * (F[2 * k] - F[2 * k + 1]) for k in range(4)) / h


def run(case, rec):
    ci, sname, ei, (wl, ang), ed = case
    C = CONF[ci]
    inner = (UNI if C.get("uni") else STACKS)[sname]
    st = [[ed, EXT[ei][0]]] + inner + [[ed, EXT[ei][1]]]
    sc = dict(C, wl=wl, ang=ang, stack=st)
    sim = simulation(sc)
    for l in sim.layers:
        if C.get("tf"):
            l.tangent_field_type = C["tf"]
    form = C.get("form", "original")
    tag = f"{C['lat']} {form} {sname} ext={EXT[ei]} wl={wl} angles={ang}"
    n = len(st)
    kx, ky, om = _np(sim.kx), _np(sim.ky), float(_np(sim.omega))
    inc = float(_np(sim.incident_flux))
    H = harm(sim)
    R, T = [float(_np(v)) for v in sim.diffraction_efficiencies()]
    rec.trace()
    scale = 1.0
    # wavevectors of the harmonics
    k0 = 2 * np.pi / wl
    ns = np.sqrt(EXT[ei][0])
    th, ph = np.radians(ang[0]), np.radians(ang[1])
    bv = np.array(((1.0, 0), (0, 1.0)) if C["lat"] == "1d" else __import__("mc.lib", fromlist=["LATS"]).LATS[C["lat"]])
    K = 2 * np.pi * np.linalg.inv(bv).T
    hx = np.array(H)
    kx_ref = k0 * ns * np.sin(th) * np.cos(ph) + hx[:, 0] * K[0, 0] + hx[:, 1] * K[1, 0]
    ky_ref = k0 * ns * np.sin(th) * np.sin(ph) + hx[:, 0] * K[0, 1] + hx[:, 1] * K[1, 1]
    rec.close(kx, kx_ref, f"{tag}: kx of the harmonics", tol=1e-9)
    rec.close(ky, ky_ref, f"{tag}: ky of the harmonics", tol=1e-9)
    # interfaces
    for i in range(n - 1):
        d = st[i][0]
        a, b = fields(sim, i, d), fields(sim, i + 1, 0)
        t = f"{tag}: interface {i}"
        for q, nm in ((0, "E"), (1, "H")):
            for c in (0, 1):
                rec.close(a[q][c], b[q][c], f"{t} continuity of {nm}{'xy'[c]}")
        rec.close(a[1][2], b[1][2], f"{t} continuity of Hz")
        # normal displacement: toeplitz(eps_zz) Ez
        dz = []
        for j, f in ((i, a), (i + 1, b)):
            e = epsilon(st[j][1], sim.lattice.discretization)
            if np.ndim(e) == 4:
                e = e[2, 2]
            dz.append(toeplitz(np.array(e), H) @ f[0][2] if np.ndim(e) else e * f[0][2])
        rec.close(dz[0], dz[1], f"{t} continuity of Dz")
        rec.close(flux_z(*a), flux_z(*b), f"{t} continuity of the flux")
        rec.step(7)
        rec.state(case, "if", i)
    rec.close(flux_z(*fields(sim, 0, 0.0)) / inc, 1 - R, f"{tag}: flux in the incidence medium and 1-R", tol=1e-7)
    rec.close(flux_z(*fields(sim, n - 1, 0.0)) / inc, T, f"{tag}: flux in the substrate and T", tol=1e-7)
    # laws inside the layers
    for i in range(n):
        d, es = st[i]
        e = epsilon(es, sim.lattice.discretization)
        if np.ndim(e) == 0:
            Tz = lambda v, e=e: e * v
        elif np.ndim(e) == 4:
            TZ = toeplitz(e[2, 2], H)
            Tz = lambda v, TZ=TZ: TZ @ v
        else:
            TZ = toeplitz(e, H)
            Tz = lambda v, TZ=TZ: TZ @ v
        # exponents in the exterior layers or thick layers: keep away from growing evanescent waves
        dd = d or 0.2
        for z in (0.02, 0.5 * dd):
            if i == 0:
                z = -z if False else z
            f = lambda zz: _np(sim.get_field_fourier(i, z=[z + v for v in zz]))
            F = f([0.0])[0]
            E, Hf = F
            m = max(1.0, np.abs(F).max())
            if m > 1e4:
                rec.skip("fields of the incidence medium grow")
                continue
            dF = D1(f)
            dE, dH = dF
            t = f"{tag}: layer {i} z={z}"
            tol = 2e-6
            # the sign of the time convention is that of the incident wave exp(+i kz z)
            rec.close(1j * ky * E[2] - dE[1], 1j * om * Hf[0] * 1, f"{t} curl E x", tol=tol, scale=m * om)
            rec.close(dE[0] - 1j * kx * E[2], 1j * om * Hf[1], f"{t} curl E y", tol=tol, scale=m * om)
            rec.close(kx * E[1] - ky * E[0], om * Hf[2], f"{t} curl E z", tol=tol, scale=m * om)
            rec.close(kx * Hf[1] - ky * Hf[0], -om * Tz(E[2]), f"{t} curl H z", tol=tol, scale=m * om)
            div = 1j * kx * Hf[0] + 1j * ky * Hf[1] + dH[2]
            rec.close(div, 0 * div, f"{t} div H", tol=tol, scale=m * om)
            rec.step(5)
            # in-plane displacement
            if np.ndim(e) == 0:
                Dx, Dy = e * E[0], e * E[1]
            elif np.ndim(e) == 4:
                Dx = toeplitz(e[0, 0], H) @ E[0] + toeplitz(e[0, 1], H) @ E[1]
                Dy = toeplitz(e[1, 0], H) @ E[0] + toeplitz(e[1, 1], H) @ E[1]
            elif form == "original":
                Dx, Dy = TZ @ E[0], TZ @ E[1]
            elif C["lat"] == "1d":
                Dx, Dy = np.linalg.solve(toeplitz(1 / e, H), E[0]), TZ @ E[1]
            else:
                Dx = None
            if Dx is not None:
                rec.close(1j * ky * Hf[2] - dH[1], -1j * om * Dx, f"{t} curl H x", tol=tol, scale=m * om)
                rec.close(dH[0] - 1j * kx * Hf[2], -1j * om * Dy, f"{t} curl H y", tol=tol, scale=m * om)
                rec.step(2)
            rec.state(case, "layer", i, z)
    rec.outcome(round(R, 6), round(T, 6))
