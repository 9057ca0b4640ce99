"""C26: the excitation is the plane wave asked for, and the response is linear in it."""

import itertools

import numpy as np

from ..core import tonp
from ..lib import D2R, fields, harm, nn, simulation

ID = "C26"
BOUND = {
    "quick": "plane waves: 4 backends x 2 precisions x 5 wavelengths x 11 polar x 9 azimuthal x 9 polarisation angles (scalars, lists, arrays); linearity: 8 lattice/formulation "
    "settings x 4 stacks x 3 incidence media x 7 directions x 6 polarisations, every layer at 2 depths",
    "thorough": "5 backends; 13 directions and 12 polarisations",
}
RULE = (
    "state: (direction, polarisation) of the excitation; transition: one invariant of the wave, or one response compared with the "
    "combination of the responses to the two basic polarisations; trace: one plane wave or simulation"
)
TH = [0, 5, 17, 30, 45, 60, 80, 89, -20, 120, 200]
PH = [0, 13, 45, 90, 135, 180, 260, -35, 400]
PS = [0, 20, 45, 90, 135, 180, 270, -60, 365]
CONF = [
    dict(lat="sq", nh=9),
    dict(lat="obl", nh=7),
    dict(lat="hex", nh=7, form="tangent", tf=1),
    dict(lat="rect", nh=9, form="jones", tf=1),
    dict(lat="tall", nh=9, form="pol", tf=1, disc=14),
    dict(lat="1d", nh=7, disc=16),
    dict(lat="1d", nh=7, disc=16, form="tangent"),
    dict(lat="rect", nh=9, trunc="parallelogrammic"),
]
STACKS = {
    "uni": [[0.3, {"c": [4, 0.3]}]],
    "pat": [[0.31, ["L", [4, 0.2], 1]], [0.2, 2.0]],
    "gr": [[0.2, ["gr", 5, 2]], [0.1, ["blk", [-5, 0.5], 1.2]]],
    "none": [],
}


def cases(tier):
    out = []
    for b in ["numpy", "torch", "jax", "autograd"] + (["scipy"] if tier == "thorough" else []):
        for p in (False, True):
            for w in (1, 0.5, 1.7, 500.0, 5e-7):
                out.append(["wave", b, p, w])
    dirs = [[0, 0], [20, 0], [33, 40], [60, 250], [-25, 10], [5, 90], [70, -60]]
    psi = [30, 45, 60, 120, 200, -10]
    if tier == "thorough":
        dirs += [[10, 180], [48, 300], [15, 15], [80, 100], [-50, 77], [0, 35]]
        psi += [10, 75, 100, 150, 300, 359]
    for c, s, e, d in itertools.product(range(len(CONF)), STACKS, (1.0, 2.25, 1.3), dirs):
        out.append(["linear", c, s, e, d, psi])
    return out


def run(case, rec):
    n = nn()
    if case[0] == "wave":
        _, b, single, wl = case
        n.set_backend(b)
        n = nn()
        n.use_32_bit(single)
        n = nn()
        tol = 1e-11 if not single else 5e-6
        try:
            k0 = 2 * np.pi / wl
            for th, ph, ps in itertools.product(TH, PH, PS) if b != "jax" else itertools.product(TH[::2], PH[::3], PS[::2]):
                kind = (th + ph + ps) % 3
                ang = [(th, ph, ps), [float(th), float(ph), float(ps)], np.array([th, ph, ps], float)][kind]
                w = n.PlaneWave(wavelength=wl, angles=ang)
                tag = f"{b}, {'single' if single else 'double'} precision, wavelength {wl}, angles {(th, ph, ps)}: "
                k = tonp(w.wavevector)
                a = tonp(w.amplitude)
                t, p, s = th * D2R, ph * D2R, ps * D2R
                u = np.array([np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)])
                rec.close(k / k0, u, tag + "direction", tol=tol)
                ep = np.array([np.cos(t) * np.cos(p), np.cos(t) * np.sin(p), -np.sin(t)])
                es = np.array([-np.sin(p), np.cos(p), 0.0])
                rec.close(a, np.cos(s) * ep + np.sin(s) * es, tag + "polarisation", tol=tol)
                rec.close(float(tonp(w.wavelength)), wl, tag + "wavelength", tol=tol, scale=wl)
                rec.close(float(tonp(w.frequency_scaled)) * wl, 1.0, tag + "frequency", tol=tol)
                rec.close(float(tonp(w.wavenumber)) / k0, 1.0, tag + "wavenumber", tol=tol)
                rec.close(tonp(w.angles_deg), np.array([th, ph, ps], float), tag + "angles", tol=tol, scale=360)
                rec.close(tonp(w.angles), np.array([t, p, s]), tag + "angles in radians", tol=tol, scale=7)
                rec.close(np.array([float(tonp(v)) for v in (w.theta, w.phi, w.psi)]), np.array([t, p, s]), tag + "angles in radians", tol=tol, scale=7)
                want = {"float32", "float64"} - ({"float64"} if single else {"float32"})
                rec.check(str(k.dtype) in want, tag + f"type {k.dtype}")
                rec.trace()
                rec.step(8)
                rec.state(wl, th, ph, ps)
            rec.outcome(case)
        finally:
            n.use_32_bit(False)
            n = nn()
            n.set_backend("numpy")
        return
    n.set_backend("numpy")
    _, ci, sname, eps1, (th, ph), psis = case
    C = CONF[ci]
    st = [[0.0, eps1]] + STACKS[sname] + [[0.0, 1.5]]
    N = len(st)

    def response(ps, wl=1.1):
        sim = simulation(dict(C, wl=wl, ang=(th, ph, ps), stack=st))
        if C.get("tf"):
            x = np.arange(sim.lattice.discretization[0]) / sim.lattice.discretization[0]
            f = (1 + np.sin(2 * np.pi * x))[:, None] * np.ones(sim.lattice.discretization)
            for l in sim.layers:
                l.tangent_field = [np.cos(f), np.sin(f)]
        F = [np.array(fields(sim, i, z)) for i in range(N) for z in ((0.0, 0.1) if i else (0.0,))]
        r, t = [tonp(v) for v in sim.diffraction_efficiencies(orders=True, complex=True)]
        R, T = [tonp(v) for v in sim.diffraction_efficiencies(orders=True)]
        return dict(F=F, r=r, t=t, R=R, T=T, H=harm(sim))

    P, S = response(0), response(90)
    rec.trace(2)
    tag = f"{C['lat']} {C.get('form', 'original')} {sname} from {eps1}, direction {(th, ph)}"
    z0 = P["H"].index((0, 0))
    sc = [max(1.0, np.abs(f).max()) for f in P["F"]]
    for ps in psis:
        A = response(ps)
        c, s = np.cos(ps * D2R), np.sin(ps * D2R)
        t = f"{tag}, polarisation {ps}: "
        for i, (f, p, q) in enumerate(zip(A["F"], P["F"], S["F"])):
            rec.close(f, c * p + s * q, t + f"fields {i}", tol=1e-9, scale=sc[i])
        for k in "rt":
            rec.close(A[k], c * P[k] + s * S[k], t + f"complex amplitudes {k}", tol=1e-9)
        B = response(ps + 90)
        for k in "RT":
            rec.close(A[k] + B[k], P[k] + S[k], t + f"sum over orthogonal polarisations of {k}", tol=1e-9)
            # quadratic form: value at psi from those at 0, 90 and 45
        rec.close(response(ps + 180)["R"], A["R"], t + "opposite polarisation", tol=1e-9)
        rec.trace(3)
        rec.step(len(A["F"]) + 5)
        rec.state(case, ps)
    # the incident part of the field at the first interface is the wave asked for
    from ..core import tonp as _t

    for ps, X in ((0, P), (90, S)):
        amp = _t(n.PlaneWave(wavelength=1.1, angles=(th, ph, ps)).amplitude) / np.sqrt(eps1)
        E, Hf = X["F"][0]
        k = np.sqrt(eps1) * np.array([np.sin(th * D2R) * np.cos(ph * D2R), np.sin(th * D2R) * np.sin(ph * D2R), np.cos(th * D2R)])
        ei, hi = amp, np.cross(k, amp)
        er, hr = E[:, z0] - ei, Hf[:, z0] - hi
        kr = k * np.array([1, 1, -1])
        rec.close(hr, np.cross(kr, er), f"{tag}, polarisation {ps}: what is not the incident wave goes backwards", tol=1e-9)
        rec.close(np.dot(kr, er), 0.0, f"{tag}, polarisation {ps}: reflected wave transverse", tol=1e-9)
        rec.step(2)
    rec.outcome(np.round(P["R"].sum(), 6), np.round(S["R"].sum(), 6))
