"""C08: reciprocity of every pair of propagating channels."""

import itertools
import math

import numpy as np

from ..lib import LATS, harm, lattice, layers, nn, plane_wave, _np
from ..core import tonp

ID = "C08"
CONF = [("sq", [12, 12], 9, "original"), ("obl", [14, 12], 13, "original"), ("rect", [10, 12], 11, "original"),
        ("1d", 24, 9, "original"), ("1d", 24, 11, "tangent")]
STACKS = {
    "one": [[0.31, ["L", 4, 1]]],
    "lossy": [[0.31, ["L", [4, 0.4], 1]], [0.2, 1.9]],
    "metal": [[0.2, ["L", [-7, 0.6], 1.5]], [0.27, ["gr", 3, 1.2]]],
    "three": [[0.31, ["L", 6, 1]], [0.2, {"c": [1.9, 0.1]}], [0.23, ["gr", [2.5, 0.2], 1.4]]],
}
EXT = [[1.0, 1.0], [1.0, 2.25], [2.4, 1.3]]
EXC = [[0.83, 17, 35], [0.61, 38, 70], [1.27, 55, 200], [0.5, 5, 10]]
BOUND = {
    "quick": "5 lattice/formulation pairs, 4 stacks (lossless, lossy, metallic, three layers), 3 exterior pairs, 4 incidence "
    "directions; for each, every propagating reflected and transmitted order is reversed, both polarisations",
    "thorough": "the same with 3 truncation orders and 8 directions",
}
RULE = (
    "state: (structure, incidence, outgoing channel); transition: one pair of reciprocal channels compared; trace: one real "
    "simulation. The polarisation-resolved powers summed over input and output polarisations are equal when source and "
    "detector are exchanged (the reversed problem uses the harmonics seen from the reversed order)"
)
ASSUMPTIONS = ["reciprocal media (symmetric permittivity)", "real exterior permittivities"]


def cases(tier):
    out = []
    exc = EXC if tier == "quick" else EXC + [[0.83, 62, 130], [0.95, 30, 300], [0.7, 20, 181], [1.7, 10, 77]]
    for c, s, e, x in itertools.product(CONF, STACKS, EXT, exc):
        for nh in ([c[2]] if tier == "quick" else [c[2], 5, 21 if c[0] != "1d" else 15]):
            out.append([c[0], c[1] if nh <= c[2] else (24 if c[0] != "1d" else 40), nh, c[3], s, e, x])
    return out


def power(lat, inner, ext, form, wl, ang, flip):
    """{order: total power over input and output polarisations}, reflected and transmitted."""
    st = [[0, ext[0]]] + inner + [[0, ext[1]]]
    if flip:
        st = st[::-1]
    R = T = 0
    for psi in (0, 90):
        sim = nn().Simulation(layers(lat, st), plane_wave(wl, (ang[0], ang[1], psi)), nh=5, formulation=form)
        r, t = sim.diffraction_efficiencies(orders=True)
        R = R + tonp(r)
        T = T + tonp(t)
    return harm(sim), R, T


def run(case, rec):
    latname, disc, nh, form, sname, ext, (wl, th, ph) = case
    inner = STACKS[sname]
    h0, _ = lattice(latname, disc).get_harmonics(nh, sort=True)
    H = [tuple(int(v) for v in x) for x in _np(h0).T]
    L = lambda hs: lattice(latname, disc, harm=np.array(hs).T)
    hs, R, T = power(L(H), inner, ext, form, wl, (th, ph), False)
    rec.trace(2)
    bv = LATS[latname] if latname != "1d" else ((1.0, 0.0), (0.0, 1.0))
    K = 2 * math.pi * np.linalg.inv(np.array(bv)).T
    k0 = 2 * math.pi / wl
    kin = k0 * math.sqrt(ext[0]) * math.sin(math.radians(th)) * np.array([math.cos(math.radians(ph)), math.sin(math.radians(ph))])
    tag = f"{latname} {form} {sname} {ext} wl={wl} theta={th} phi={ph}"
    done = 0
    for (h, r, t) in zip(hs, R, T):
        km = kin + h[0] * K[0] + h[1] * K[1]
        for side, eps, p in (("R", ext[0], r), ("T", ext[1], t)):
            s = np.hypot(*km) / (k0 * math.sqrt(eps))
            if s > 0.985:
                continue
            th2 = math.degrees(math.asin(s))
            ph2 = math.degrees(math.atan2(-km[1], -km[0]))
            # k' = -km; orders g' = h - g of the reversed problem see -(kin + g)
            H2 = [(h[0] - g[0], h[1] - g[1]) for g in hs]
            if max(abs(v) for g in H2 for v in g) * 2 >= min(x for x in lattice(latname, disc).discretization if x > 1):
                rec.skip("reversed harmonics exceed the grid")
                continue
            hs2, R2, T2 = power(L(H2), inner, ext, form, wl, (th2, ph2), side == "T")
            rec.trace(2)
            back = dict(zip(hs2, R2 if side == "R" else T2))[h]
            rec.close(back, p, f"{tag}: {side} into order {h} and its reverse", tol=1e-8)
            rec.state(case, h, side)
            rec.step()
            rec.outcome(round(float(p), 6))
            done += 1
    rec.check(done > 0, f"{tag}: no propagating order")
