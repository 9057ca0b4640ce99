"""C05: stacks of uniform layers give the exact Fresnel / transfer matrix solution."""

import itertools

import numpy as np

from ..lib import D2R, cx, fields, harm, lattice, nn, plane_wave, sqrtp, tmm, _np, layers

ID = "C05"
SUP = [1.0, 2.25]
MID = [4.0, {"c": [-9.0, 1.0]}, {"c": [2.0, 0.5]}, 0.5, 1.0, {"c": [3.0, 2e-3]}, {"c": [-4.0, 0.0]}]
SUB = [1.0, 3.0, {"c": [-5.0, 0.3]}, {"c": [2.0, 1e-3]}]
NEG0 = [{"c": [1.0, -0.0]}, {"c": [-2.0, -0.0]}, {"c": [3.0, -0.0]}]
ANG = [[0, 0, 0], [0, 33, 40], [28, 0, 0], [28, 0, 90], [28, 90, 0], [41, 25, 33], [41, 205, -70], [79, 130, 90], [66, 300, 10]]
BOUND = {
    "quick": "every stack of 0, 1 or 2 inner layers from 7 materials (4 thicknesses from 6e-5 to 3), 2 incidence media, 4 substrates, "
    "9 incidence and polarisation angles, 2 wavelengths, as scalars (also with imaginary parts that are negative zeros); one inner layer also as constant patterns with 1D/2D lattices",
    "thorough": "also every stack of 3 inner layers",
}
RULE = (
    "state: a stack and excitation; transition: one comparison with the independent transfer matrix model; "
    "trace: one real simulation"
)
ASSUMPTIONS = ["not exactly at a critical or grazing angle"]


def cases(tier):
    out = []
    for sup, sub in itertools.product(SUP, SUB):
        out.append([sup, [], sub, "sq", "uni"])
        for m in MID:
            out.append([sup, [m], sub, "sq", "uni"])
            for lat in ("1d", "rect"):
                out.append([sup, [m], sub, lat, "pat"])
        for m in itertools.product(MID, repeat=2):
            out.append([sup, list(m), sub, "obl", "uni"])
        if tier == "thorough":
            for m in itertools.product(MID, repeat=3):
                out.append([sup, list(m), sub, "1d", "uni"])
    # real materials whose imaginary part is a negative zero
    for sup, m, sub in itertools.product([1.0, NEG0[0]], [None, 4.0] + NEG0[1:], NEG0):
        out.append([sup, [] if m is None else [m], sub, "sq", "uni"])
        if m is not None:
            out.append([sup, [m], sub, "1d", "pat"])
    return out


def val(e):
    return complex(*e["c"]) if isinstance(e, dict) else complex(e)


def amplitudes(sim, ang, wl, eps, d, ref, rec, tag):
    """Fields in the exterior and inner layers against the transfer matrix model."""
    z = harm(sim).index((0, 0))
    E, H = fields(sim, 0, 0)
    th, ph, ps = [a * D2R for a in ang]
    inc = np.array([
        np.cos(ps) * np.cos(th) * np.cos(ph) - np.sin(ps) * np.sin(ph),
        np.cos(ps) * np.cos(th) * np.sin(ph) + np.sin(ps) * np.cos(ph),
        -np.cos(ps) * np.sin(th),
    ])
    # the incident magnetic field has unit amplitude: the electric field is 1/n
    n = np.sqrt(eps[0])
    rec.close(n * E[:, z] - inc, ref["Er"], f"{tag}: reflected field", tol=1e-8)
    E, H = fields(sim, len(eps) - 1, 0)
    rec.close(n * E[:, z], ref["Et"], f"{tag}: transmitted field", tol=1e-8)
    rec.step(2)


def run(case, rec):
    sup, mid, sub, latname, mode = case
    lat = lattice(latname, 8 if latname != "1d" else 12)
    for dd, ang, wl in itertools.product((0.13, 0.4, 6e-5, 3.0), ANG, (1.1, 0.57)):
        if not mid and dd != 0.13:
            continue
        d = [0] + [dd * (1 + 0.3 * i) for i in range(len(mid))] + [0]
        eps = [val(e) for e in [sup] + mid + [sub]]
        if mode == "uni":
            st = [[x, e] for x, e in zip(d, [sup] + mid + [sub])]
            nh = 1
        else:
            c = lambda e: [e["c"][0], e["c"][1]] if isinstance(e, dict) else e
            st = [[0, sup]] + [[x, ["one", c(e), c(e)]] for x, e in zip(d[1:], mid)] + [[0, sub]]
            nh = 5
        ref = tmm(eps, d, wl, ang)
        pw = plane_wave(wl, ang)
        sim = nn().Simulation(layers(lat, st), pw, nh=nh)
        tag = f"{latname} {mode} eps={eps} d={d} wl={wl} angles={ang}"
        R, T = sim.diffraction_efficiencies()
        rec.close(_np(R), ref["R"], f"{tag}: R", tol=1e-8)
        rec.close(_np(T), ref["T"], f"{tag}: T", tol=1e-8)
        rc, tc = sim.diffraction_efficiencies(complex=True, orders=True)
        rec.close((abs(_np(rc)) ** 2).sum(), ref["R"], f"{tag}: |r|^2", tol=1e-8)
        rec.close((abs(_np(tc)) ** 2).sum(), ref["T"], f"{tag}: |t|^2", tol=1e-8)
        iz = harm(sim).index((0, 0))
        g = [np.real(q) if abs(np.real(q)) > 1e-9 else 0 for q in (ref["kz"][0], ref["kz"][-1])]
        rec.close(_np(rc)[:, iz], ref["Er"], f"{tag}: complex r", tol=1e-8)
        nt = np.sqrt(np.real(eps[0]) * np.real(ref["kz"][-1] / ref["kz"][0]))
        amp = ref["Et"] / np.sqrt(eps[0]) * nt
        rec.close(_np(tc)[:, iz], amp, f"{tag}: complex t", tol=1e-8 if abs(nt) > 1e-6 else 1e-7)  # square root of a rounding error
        amplitudes(sim, ang, wl, eps, d, ref, rec, tag)
        rec.step(4)
        rec.trace()
        rec.state(case, dd, ang, wl)
        rec.outcome(round(float(ref["R"]), 7), round(float(ref["T"]), 7))
