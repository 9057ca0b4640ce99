"""C17: every backend and precision computes the same numbers."""

import itertools

import numpy as np

from ..lib import LATS, harm, lattice, nn, simulation, _np
from ..core import tonp

ID = "C17"
BACKENDS = ["scipy", "autograd", "torch", "jax"]
T1 = {"tensor": [[["L", 4, 1], ["L", 0.7, 0], 0], [["L", 0.4, 0], ["L", 3, 1], 0], [0, 0, ["gr", 2, 1]]]}
STACKS = {
    "uni": [[0.1, 1], [0.31, 4.0], [0.2, {"c": [2.1, 0.3]}], [0, 2.25]],
    "one": [[0, 1.44], [0.31, ["L", 4, 1]], [0, 2.25]],
    "two": [[0.1, 1], [0.31, ["L", [4, 0.4], 1]], [0.2, 2.1], [0.1, ["gr", [-3, 0.3], 1.2]], [0.05, {"c": [2.0, 0.2]}]],
    "weak": [[0, 1], [0.3, ["L", [4, 0.003], 1]], [0.2, ["gr", [2.01, 1e-4], [2.0, -1e-4]]], [0, 2]],
    "ani": [[0.2, 1], [0.21, T1], [0.1, 1.7], [0, 2]],
}
CONF = {
    "sq": dict(lat="sq", disc=12, nh=9),
    "obl": dict(lat="obl", disc=[14, 12], nh=13),
    "par": dict(lat="rect", disc=[12, 10], nh=9, trunc="parallelogrammic"),
    "har": dict(lat="hex", disc=12, nh=4, harm=[[1, 0, 0, -2, 1], [0, 0, -1, 1, 2]]),
    "1d": dict(lat="1d", disc=20, nh=9),
}
EXC = [[1.27, [0, 0, 90]], [0.83, [17, 35, 40]], [0.61, [-48, 70, 20]]]
BOUND = {
    "quick": "4 backends besides numpy x 2 precisions (and numpy in single precision) x 5 lattice and truncation settings x 5 stacks x 3 excitations x "
    "{original, tangent, jones, pol} (jax, compiled for every shape: one lattice setting per stack, double precision)",
    "thorough": "the same with every setting for jax in both precisions",
}
RULE = (
    "state: (backend, precision, scenario); transition: one quantity (efficiencies, amplitudes, fields, stress, scattering "
    "matrix, permittivity, masks, truncation, filters, density maps) compared with numpy in double precision; trace: one scenario executed by "
    "the backend"
)
ASSUMPTIONS = ["single precision is compared with a tolerance of 2e-3, without metals nor eigenvectors of degenerate modes"]


def cases(tier):
    out = []
    for b, p in itertools.product(["numpy"] + BACKENDS, (64, 32)):
        if (b, p) == ("numpy", 64):
            continue
        if b != "jax" or p == 64 or tier == "thorough":
            out.append([b, p, "tools"])
        for i, (c, s) in enumerate(itertools.product(CONF, STACKS)):
            if b == "jax" and tier == "quick" and (p == 32 or (c, s) not in (("sq", "one"), ("1d", "two"), ("obl", "ani"), ("par", "uni"))):
                continue
            for f in ("original", "tangent", "jones", "pol"):
                if c == "1d" and f in ("jones", "pol"):
                    continue
                if s == "uni" and f != "original":
                    continue
                if b == "jax" and tier == "quick" and f not in ("original", "tangent"):
                    continue
                for e in EXC[: 1 if b == "jax" and tier == "quick" else 3]:
                    out.append([b, p, c, s, f, e])
    return out


def scenario(c, s, f, e):
    sc = dict(CONF[c])
    sc.update(stack=STACKS[s], wl=e[0], ang=e[1], form=f)
    return sc


def physics(sc):
    sim = simulation(sc)
    o = {}
    H = harm(sim)
    q = sorted(range(len(H)), key=lambda k: H[k])  # ties of the truncation come in any order
    o["harmonics"] = np.array(H)[q]
    o["R"], o["T"] = [tonp(v) for v in sim.diffraction_efficiencies()]
    o["Ri"], o["Ti"] = [tonp(v)[q] for v in sim.diffraction_efficiencies(orders=True)]
    o["rc"], o["tc"] = [tonp(v)[:, q] for v in sim.diffraction_efficiencies(orders=True, complex=True)]
    o["order"] = tonp(sim.get_order(sim.diffraction_efficiencies(orders=True)[0], H[q[0]]))
    n = len(sc["stack"])
    for i in range(n):
        o[f"field{i}"] = tonp(sim.get_field_fourier(i, z=[0.0, 0.04]))[..., q]
        o[f"eps{i}"] = tonp(sim.get_epsilon(i))
        o[f"stress{i}"] = np.array([tonp(v) for v in sim.get_z_stress_tensor_integral(i, z=0.02)])
    g = sim.get_field_grid(1, z=0.05)
    o["E"], o["H"] = tonp(g[0]), tonp(g[1])
    o["Ex"] = tonp(sim.get_Efield_grid(1, z=[0.05, 0.1], component="x"))
    return o, sim


def tools(n):
    """Public helpers outside simulations."""
    a = n.backend.array
    o = {}
    from nannos import optimize
    from nannos.utils import apply_filter

    F = n.get_types()[0]
    for l in LATS:
        lat = lattice(l, (12, 15))
        o[l, "matrix"], o[l, "reciprocal"], o[l, "grid"] = lat.matrix, lat.reciprocal, lat.grid
        o[l, "area"] = lat.area
        o[l, "ones"], o[l, "zeros"], o[l, "constant"] = lat.ones(), lat.zeros(), lat.constant(2 - 1j)
        o[l, "stripe"] = lat.stripe(0.33, 0.2)
        for nh in (1, 2, 5, 12, 27, 50):
            o[l, "harmonics", nh] = np.array(sorted(map(tuple, tonp(lat.get_harmonics(nh)[0]).T.astype(int).tolist())))
        if l == "1d":
            continue
        lp = lattice(l, (12, 15), "parallelogrammic")
        for nh in (1, 9, 20, 30):
            o[l, "par", nh] = np.array(sorted(map(tuple, tonp(lp.get_harmonics(nh)[0]).T.astype(int).tolist())))
        o[l, "circle"] = lat.circle((0.51, 0.42), 0.273)
        o[l, "ellipse"] = lat.ellipse((0.51, 0.42), (0.273, 0.4), rotate=31)
        o[l, "square"] = lat.square((0.51, 0.42), 0.373, rotate=31)
        o[l, "rectangle"] = lat.rectangle((0.51, 0.42), (0.3, 0.5), rotate=11)
        o[l, "polygon"] = lat.polygon([(0.1, 0.1), (0.8, 0.3), (0.3, 0.4)])
    for wl, ang in ((1.3, (20, 30, 40)), (0.7, (0, 0, 90)), (2.0, (-60, 100, 10))):
        pw = n.PlaneWave(wavelength=wl, angles=ang)
        o["pw", wl] = [pw.wavevector[i] for i in range(3)] + [pw.amplitude[i] for i in range(3)] + [pw.a0[i] for i in range(2)] + [pw.wavenumber]
    x = np.linspace(0, 1, 7 * 9).reshape(7, 9) ** 1.3
    xx = a(x, dtype=F)
    for be in (1, 4, 64):
        o["project", be] = optimize.project(xx, be, 0.4)
        for nt in (2, 3):
            o["mproject", be, nt] = optimize.multi_project(xx, be, nt)
    for p in (1, 3):
        o["simp", p] = optimize.simp(xx, 1.5, 4.0, p)
        for ep in ([1.0, 2.0], [1.0, 3.0, 2.0], [1.0, 4.0, 2.0, 3.5]):
            o["msimp", p, len(ep)] = optimize.multi_simp(xx, ep, p)
    for r in (0, 1, 2.5, (1, 3)):
        o["filter", str(r)] = apply_filter(a(x, dtype=F), r)
    return {k: np.array([tonp(t) for t in v]) if isinstance(v, list) else tonp(v) for k, v in o.items()}


_ref = {}


def run(case, rec):
    b, p = case[:2]
    n = nn()
    key = repr(case[2:])
    if key not in _ref:
        _ref[key] = tools(n) if case[2] == "tools" else physics(scenario(*case[2:]))[0]
    ref = _ref[key]
    n.set_backend(b)
    n.use_32_bit(p == 32)
    try:
        got = tools(n) if case[2] == "tools" else physics(scenario(*case[2:]))[0]
    finally:
        n.use_32_bit(False)
        n.set_backend("numpy")
    rec.trace()
    rec.state(case)
    tag = f"{b}, {p} bits, {case[2:]}: "
    rec.check(set(got) == set(ref), tag + f"quantities {set(got) ^ set(ref)}")
    for k in ref:
        r, g = ref[k], got[k]
        tol = 1e-8 if p == 64 else 2e-3
        if r.dtype == bool:
            if p == 32:
                rec.check(np.mean(r != g) < 0.02, tag + f"{k} differs at {np.mean(r != g):.2%} of the points")
            else:
                rec.check(g.shape == r.shape and g.dtype == bool and np.array_equal(r, g), tag + f"{k} differs")
        else:
            rec.close(g, r, tag + str(k), tol=tol)
        rec.step()
    rec.outcome(key, len(ref))
