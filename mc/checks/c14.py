"""C14: efficiencies and fields are those of an independent solution of the modal equations, in every formulation."""

import itertools

import numpy as np

from ..lib import LATS, epsilon, fields, harm, lattice, nn, plane_wave, _np
from ..core import tonp
from .. import rcwa

ID = "C14"
EXC = [[1.27, [0, 0, 90]], [0.83, [17, 35, 40]], [0.61, [48, -70, 90]], [1.9, [-71, 110, 25]], [0.7, [30, 180, 0]]]
CONF = {
    "sq": dict(lat="sq", disc=[12, 12], nh=9),
    "rect": dict(lat="rect", disc=[10, 14], nh=7),
    "obl": dict(lat="obl", disc=[14, 12], nh=13),
    "hex": dict(lat="hex", disc=[12, 12], nh=7),
    "tall": dict(lat="tall", disc=[8, 20], nh=9),
    "par": dict(lat="obl", disc=[9, 11], nh=9, trunc="parallelogrammic"),
    "har": dict(lat="rect", disc=[12, 10], nh=4, harm=[[1, 0, 0, -2, 1], [0, 0, -1, 1, 2]]),
    "1d": dict(lat="1d", disc=[20, 1], nh=9),
    "1dh": dict(lat="1d", disc=[17, 1], nh=5, harm=[[0, 1, -3, 2, -1], [0, 0, 0, 0, 0]]),
}
T1 = {"tensor": [[["L", 4, 1], ["L", 0.7, 0], 0], [["L", 0.4, 0], ["L", 3, 1], 0], [0, 0, ["gr", 2, 1]]]}
T2 = {"tensor": [[["blk", [4, 0.3], 1.5], 0, 0], [0, ["blk", 2, 1.5], 0], [0, 0, ["blk", 3, 1.5]]]}
STACKS = {
    "one": [[0, 1], [0.31, ["L", 4, 1]], [0, 2.25]],
    "two": [[0.1, 1.44], [0.31, ["L", [4, 0.4], 1]], [0.2, 2.1], [0.1, ["gr", [3, 0.3], 1.2]], [0.05, 2.0]],
    "metal": [[0, 1], [0.1, ["blk", [-6, 0.5], 1]], [0.0, 3.0], [0.12, ["L", 1, 3]], [0.2, {"c": [2, 0.4]}]],
    "ani": [[0.2, 1], [0.21, T1], [0.1, 1.7], [0.1, T2], [0, {"c": [-5, 0.7]}]],
    "same": [[0, 2.0], [0.15, ["L", 4, 1]], [0.12, ["L", 4, 1]], [0.1, ["one", 3, 1]], [0, 1.0]],
}
FORMS = ["original", "tangent", "pol", "jones"]
FIELDS = ["x", "swirl", "var", "cplx"]
BOUND = {
    "quick": "9 lattice and truncation settings x 5 stacks (isotropic, lossy, metallic, anisotropic, repeated, zero thickness) x "
    "5 excitations x {original, and {tangent, pol, jones} x 4 tangent fields (constant, rotating, of variable length, "
    "complex)} (2D); 1D: original and tangent",
    "thorough": "the same with 8 more excitations and three layers of each kind of stack in both orders",
}
RULE = (
    "state: (lattice, stack, excitation, formulation, tangent field); transition: one efficiency or field coefficient "
    "vector compared with the independent solution (matrix exponentials of the first order system); trace: one simulation"
)
ASSUMPTIONS = [
    "the independent solver implements the formulations as defined: Laurent's rule along the tangent field, the inverse rule across it",
    "no order exactly at grazing",
]


def tangent(kind, disc):
    x, y = np.meshgrid(np.arange(disc[0]) / disc[0], np.arange(disc[1]) / disc[1], indexing="ij")
    if kind == "x":
        return np.array([np.ones(disc), 0 * x], complex)
    a = 2 * np.pi * x + 0.7 * np.sin(2 * np.pi * y) + 0.3
    t = np.array([np.cos(a), np.sin(a)], complex)
    if kind == "swirl":
        return t
    if kind == "var":
        return t * (0.55 + 0.4 * np.cos(2 * np.pi * (x + y)))
    return t * np.exp(1j * (0.4 + 2 * np.pi * y))


def jones(t):
    m = np.sqrt(abs(t[0]) ** 2 + abs(t[1]) ** 2)
    th = np.arctan2(t[1].real, t[0].real)
    phi = np.pi / 8 * (1 + np.cos(np.pi * m))
    return np.exp(-1j * th) / m * (t * np.cos(phi) - 1j * np.array([-t[1], t[0]]) * np.sin(phi))


def cases(tier):
    exc = EXC + ([[0.95, [5, 5, 5]], [1.5, [80, 10, 0]], [0.77, [-33, 220, 110]], [2.9, [61, 0, 90]], [1.13, [45, 45, 45]], [0.66, [20, 300, 10]], [3.5, [0, 70, 0]], [0.9, [10, 100, 130]]] if tier == "thorough" else [])
    stacks = dict(STACKS)
    if tier == "thorough":
        for k, v in STACKS.items():
            stacks[k + "-rev"] = [v[-1]] + v[1:-1][::-1] + [v[0]]
            stacks[k + "-twice"] = v[:-1] + v[1:]
    out = []
    for c, s in itertools.product(CONF, stacks):
        st = stacks[s]
        if isinstance(st[0][1], dict):
            st = [[st[0][0], 1.2]] + st[1:]
        for e in exc:
            out.append([c, s, st, e, "original", None])
            if c.startswith("1d"):
                out.append([c, s, st, e, "tangent", None])
            for f, t in itertools.product(FORMS[1:], FIELDS):
                if c.startswith("1d"):
                    continue
                if f == "jones" and t == "cplx":
                    continue
                out.append([c, s, st, e, f, t])
    return out


def run(case, rec):
    c, sname, st, (wl, ang), form, tk = case
    n = nn()
    a = n.backend.array
    C = CONF[c]
    disc = tuple(C["disc"])
    lat = lattice(C["lat"], disc, C.get("trunc", "circular"), C.get("harm"))
    eps = [epsilon(e, disc) for _, e in st]
    tf = tangent(tk, disc) if tk else None
    if form == "jones":
        tf = tf.real
    ls = []
    for i, ((d, _), e) in enumerate(zip(st, eps)):
        kw = {}
        if np.ndim(e):
            e = a(e)
            if tf is not None:
                kw["tangent_field"] = a(tf)
        ls.append(lat.Layer(f"l{i}", thickness=d, epsilon=e, **kw))
    sim = n.Simulation(ls, plane_wave(wl, ang), nh=C["nh"], formulation=form)
    H = harm(sim)
    if form == "original":
        ref_t = None
    elif tf is None:
        ref_t = np.array([np.zeros(disc), np.ones(disc)], complex)
    elif form == "jones":
        ref_t = jones(tf)
    else:
        ref_t = tf
    r = rcwa.solve(LATS[C["lat"]], H, list(zip([d for d, _ in st], eps)), wl, ang, [ref_t] * len(st))
    kp = np.sqrt(r["kx"] ** 2 + r["ky"] ** 2) * wl / (2 * np.pi)
    if min(np.min(abs(kp - np.sqrt(complex(e)))) for e in eps if np.ndim(e) == 0) < 1e-6:
        rec.skip("order at grazing")
        return
    tag = f"{c} {sname} wl={wl} angles={ang} {form}{'/' + tk if tk else ''}: "
    R, T = sim.diffraction_efficiencies(orders=True)
    rec.close(R, r["R"], tag + f"reflection efficiencies of the orders {H}", tol=1e-7)
    rec.close(T, r["T"], tag + f"transmission efficiencies of the orders {H}", tol=1e-7)
    Rt, Tt = sim.diffraction_efficiencies()
    rec.close(Rt, r["R"].sum(), tag + "total reflection", tol=1e-7)
    rec.close(Tt, r["T"].sum(), tag + "total transmission", tol=1e-7)
    for i in range(len(st)):
        for f in (0.0, 0.37):
            z = f * st[i][0]
            E, G = fields(sim, i, z)
            E2, G2 = r["field"](i, z)
            rec.close(E, E2, tag + f"E in layer {i} at depth {z}", tol=1e-6)
            rec.close(G, G2, tag + f"H in layer {i} at depth {z}", tol=1e-6)
            rec.step(2)
            if f == 0 and st[i][0] == 0:
                break
    rec.step(4)
    rec.trace()
    rec.state(case)
    rec.outcome(tuple(np.round(r["R"], 9)))
