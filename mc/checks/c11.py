"""C11: diffraction efficiencies are consistent with each other and with the fields."""

import itertools

import numpy as np

from ..lib import fields, flux_z, harm, nn, plane_wave, simulation, _np
from ..core import tonp

ID = "C11"
CONF = [("sq", 12, 9, "original"), ("obl", [14, 12], 13, "original"), ("1d", 24, 9, "tangent"), ("rect", [10, 12], 7, "tangent"), ("sq", 12, 1, "original")]
STACKS = {
    "one": [[0.31, ["L", 4, 1]]],
    "two": [[0.31, ["L", [4, 0.4], 1]], [0.2, 1.9]],
    "none": [],
    "uni": [[0.3, 3.1]],
}
EXT = [[1.0, 1.0], [1.0, 2.25], [1.7, {"c": [2.0, 0.5]}], [1.3, {"c": [-6.0, 0.5]}]]
EXC = [[0.83, [0, 0, 0]], [0.83, [17, 35, 40]], [0.61, [38, 200, 90]], [1.6, [38, -20, 0]]]
MEDIA = [1.0, 3.1, 0.2, {"c": [2.0, 0.5]}, {"c": [-6.0, 0.5]}, {"c": [-3.0, 0.0]}]
LABELS = [None, "reversed", "odd", "same-letter"]
BOUND = (
    "5 lattice/formulation settings, 4 stacks, 4 exterior pairs, 4 excitations, 4 ways of naming the layers; all 8 "
    "combinations of orders, complex and return_dict, in both orders of calling; fluxes of every pair of waves (order, polarization, 6 amplitudes) in 6 media"
)
RULE = (
    "state: (structure, naming, argument combination); transition: one relation checked (total is the sum over orders; "
    "squared complex amplitudes are the efficiencies; dictionaries hold exactly the orders; efficiencies are the power fluxes of the "
    "fields order by order); trace: one real simulation"
)
ASSUMPTIONS = ["real permittivity of the incidence medium"]


def cases(tier):
    out = [["flux", e, x] for e, x in itertools.product(MEDIA, EXC)]
    return out + [[*c, s, e, x, l] for c, s, e, x, l in itertools.product(CONF, STACKS, EXT, EXC, LABELS)]


def flux(case, rec):
    """Fluxes for any amplitudes of the waves in a uniform medium: their sum is that of the fields."""
    _, eps, (wl, ang) = case
    st = [[0, 1.0], [0.2, ["L", 4, 1]], [0.3, eps], [0, 2.0]]
    sim = simulation(dict(lat="obl", disc=12, nh=9, wl=wl, ang=ang, stack=st))
    sim.solve()
    lay = sim.layers[2]
    a = nn().backend.array
    nh, k0 = sim.nh, 2 * np.pi / wl
    kx, ky = _np(sim.kx).real, _np(sim.ky).real
    e = complex(*eps["c"]) if isinstance(eps, dict) else complex(eps)
    q = np.sqrt(e * k0**2 - kx**2 - ky**2 + 0j)
    q = np.where(q.imag < 0, -q, q)
    for m, (p, s) in itertools.product(range(nh), itertools.product(range(2), repeat=2)):
        for va, vb in ((1, 0), (0, 1), (1, 1), (0.5 - 0.2j, -0.3 + 0.8j), (1j, 1), (1, -0.7)):
            A, B = np.zeros(2 * nh, complex), np.zeros(2 * nh, complex)
            A[m + p * nh], B[m + s * nh] = va, vb
            f, b = [tonp(v) for v in sim.get_z_poynting_flux(lay, a(A), a(B))]
            want = np.zeros(nh)
            tot = []
            for F, sg in ((A, 1), (B, -1)):
                hx, hy = F[m], F[m + nh]
                hz = -(kx[m] * hx + ky[m] * hy) / (sg * q[m])
                k = np.array([kx[m], ky[m], sg * q[m]])
                tot.append((-np.cross(k, [hx, hy, hz]) / (e * k0), [hx, hy, hz]))
            E, H = tot[0][0] + tot[1][0], np.add(tot[0][1], tot[1][1])
            want[m] = np.real(E[0] * np.conj(H[1]) - E[1] * np.conj(H[0]))
            t = f"flux of waves {m}, {p}, {s} of amplitudes {va}, {vb} in {eps}, wl={wl}, {ang}: "
            rec.close(f + b, want, t + "sum", tol=1e-9)
            for v, g, F, nm in ((va, f, tot[0], "forward"), (vb, b, tot[1], "backward")):
                if v == 0:
                    rec.close(g, np.zeros(nh), t + nm, tol=1e-12)
                elif 0 in (va, vb) or q[m].imag == 0:
                    w = np.zeros(nh)
                    w[m] = np.real(F[0][0] * np.conj(F[1][1]) - F[0][1] * np.conj(F[1][0]))
                    rec.close(g, w, t + nm, tol=1e-9)
            rec.step(3)
            rec.state(case, m, p, s, va, vb)
    rec.trace()
    rec.outcome(case)


def run(case, rec):
    if case[0] == "flux":
        return flux(case, rec)
    lat, disc, nh, form, sname, ext, (wl, ang), lab = case
    st = [[0, ext[0]]] + STACKS[sname] + [[0, ext[1]]]
    n = len(st)
    labels = None
    if lab == "reversed":
        labels = ["Substrate"] + [f"x{i}" for i in range(n - 2)] + ["Superstrate"]
    elif lab == "odd":
        labels = ["air"] + [str(i) for i in range(n - 2)] + [""]
    elif lab == "same-letter":
        labels = ["a" * (i + 1) for i in range(n)]
    sc = dict(lat=lat, disc=disc, nh=nh, form=form, wl=wl, ang=ang, stack=st, labels=labels)
    sim = simulation(sc)
    for l in sim.layers:
        l.tangent_field_type = "fft"
    tag = f"{lat} {form} {sname} {ext} wl={wl} angles={ang} names={labels}"
    rec.trace()
    H = harm(sim)
    rec.check(len(set(H)) == len(H) == sim.nh, f"{tag}: {sim.nh} harmonics, {len(set(H))} distinct")
    combos = list(itertools.product((False, True), repeat=3))
    res = {}
    for o, c, d in combos + combos[::-1]:
        r = sim.diffraction_efficiencies(orders=o, complex=c, return_dict=d)
        rec.check(len(r) == 2, f"{tag}: returns {len(r)} values")
        if (o, c, d) in res:
            for a, b in zip(r, res[o, c, d]):
                if isinstance(a, dict):
                    a, b = [v for k in sorted(a) for v in a[k].values()], [v for k in sorted(b) for v in b[k].values()]
                rec.close(a, b, f"{tag}: second call orders={o} complex={c} dict={d}", tol=1e-12)
        res[o, c, d] = r
        rec.step()
        rec.state(case, o, c, d)
    k0 = 2 * np.pi / wl
    ki = k0 * np.sqrt(ext[0]) * np.cos(np.radians(ang[0]))
    for s, name in ((0, "R"), (1, "T")):
        tot, per = tonp(res[False, False, False][s]), tonp(res[True, False, False][s])
        cper, ctot = tonp(res[True, True, False][s]), tonp(res[False, True, False][s])
        rec.check(per.shape == (len(H),), f"{tag}: {name} per order has shape {per.shape}")
        rec.check(cper.shape == (3, len(H)), f"{tag}: complex {name} per order has shape {cper.shape}")
        rec.close(per.sum(), tot, f"{tag}: {name} is the sum of the orders", tol=1e-9)
        rec.close(cper.sum(1), ctot, f"{tag}: complex {name} is the sum of the orders", tol=1e-9)
        rec.close((abs(cper) ** 2).sum(0), per, f"{tag}: |amplitude|^2 and {name} per order", tol=1e-8)
        for c in (False, True):
            D = res[True, c, True][s]
            keys = {(a, b) for a in D for b in D[a]}
            rec.check(keys == set(H), lambda: f"{tag}: dictionary of {name} has orders {sorted(keys ^ set(H))[:5]} too many or missing")
            A = cper if c else per
            for m, h in enumerate(H):
                if h in keys:
                    rec.close(D[h[0]][h[1]], A[..., m], f"{tag}: {name}[{h}] in the dictionary (complex={c})", tol=1e-12)
            rec.close(tonp(res[False, c, True][s]), tonp(res[False, c, False][s]), f"{tag}: return_dict without orders", tol=1e-12)
        for m, h in enumerate(H):
            rec.close(sim.get_order(res[True, False, False][s], h), per[m], f"{tag}: get_order {h} of {name}", tol=1e-12)
            rec.check(sim.get_order_index(h) == m, f"{tag}: index of order {h}")
            if lat == "1d":
                rec.close(sim.get_order(res[True, False, False][s], h[0]), per[m], f"{tag}: get_order {h[0]} of {name}", tol=1e-12)
        rec.step(5)
    # efficiencies are the power flux of each order of the fields
    inc = float(_np(sim.incident_flux))
    rec.close(inc, np.cos(np.radians(ang[0])) / np.sqrt(ext[0]), f"{tag}: incident flux", tol=1e-10)
    E, Hf = fields(sim, n - 1, 0)
    t = np.real(E[0] * np.conj(Hf[1]) - E[1] * np.conj(Hf[0])) / inc
    rec.close(tonp(res[True, False, False][1]), t, f"{tag}: T per order and flux of the fields")
    E, Hf = fields(sim, 0, 0)
    iz = H.index((0, 0))
    inc_e = tonp(sim.excitation.amplitude) / np.sqrt(ext[0])
    # the incident wave alone: H = k x E / omega
    kin = np.array([*_np([sim.kx[iz], sim.ky[iz]]).real, ki])
    inc_h = np.cross(kin, inc_e) / k0
    Er, Hr = E.copy(), Hf.copy()
    Er[:, iz] -= inc_e
    Hr[:, iz] -= inc_h
    r = -np.real(Er[0] * np.conj(Hr[1]) - Er[1] * np.conj(Hr[0])) / inc
    rec.close(tonp(res[True, False, False][0]), r, f"{tag}: R per order and flux of the reflected fields")
    # transversality and dispersion of the outgoing waves
    kx, ky = _np(sim.kx).real, _np(sim.ky).real
    e_in, e_out = ext[0], complex(*ext[1]["c"]) if isinstance(ext[1], dict) else ext[1]
    for (F, e, sg, nm) in ((Er, e_in, -1, "reflected"), (E_last(sim, n), e_out, 1, "transmitted")):
        q = np.sqrt(e * k0**2 - kx**2 - ky**2 + 0j)
        q = np.where(q.imag < 0, -q, q)
        rec.close(kx * F[0] + ky * F[1] + sg * q * F[2], 0 * q, f"{tag}: {nm} waves are transverse", tol=1e-8, scale=max(1, abs(F).max()) * k0)
    rec.step(4)
    for bad in ((99, 0), (0, 99)):
        try:
            sim.get_order(res[True, False, False][0], bad)
            rec.check(False, f"{tag}: order {bad} accepted")
        except (KeyError, ValueError, IndexError):
            rec.check(True, "")
    if lat != "1d":
        try:
            sim.get_order(res[True, False, False][0], 0)
            rec.check(False, f"{tag}: scalar order accepted by a bi-periodic grating")
        except ValueError:
            rec.check(True, "")
    rec.outcome(tuple(np.round(tonp(res[False, False, False]), 6)))


def E_last(sim, n):
    return fields(sim, n - 1, 0)[0]
