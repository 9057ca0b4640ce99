"""C18: gradients are the derivatives of what is computed."""

import itertools

import numpy as np

from ..lib import LATS, indicator, lattice, nn
from ..core import tonp

ID = "C18"
PAR = {"wl": 1.13, "theta": 20.0, "phi": 35.0, "psi": 40.0, "d": 0.31, "eps": 3.7, "epsin": 1.3, "epsout": 2.2, "epsimag": 0.2, "period": 1.0}
OBJ = ["R", "T", "R0", "T0", "Tm", "mix"]
OBJ_TORCH = ["rc", "field", "stress"]
BOUND = {
    "quick": "2 backends x {2D original (2 lattices), 1D original, 1D tangent, 2D tangent with a given field (torch)} x 9 parameters (wavelength, 3 angles, "
    "thickness, real and imaginary permittivity of the pattern, exterior permittivities) x 6 objectives (totals, orders, a combination), and with torch 3 "
    "field objectives (complex amplitude, near field, stress); density maps: every pixel of the design through filter, projection (3 levels), 2 and 3 materials",
    "thorough": "the same with 3 thicker or lossy variants of the structure",
}
RULE = (
    "state: (backend, structure, parameter, objective); transition: one partial derivative compared with the fourth order "
    "central difference of the numpy backend; trace: one gradient evaluated"
)
ASSUMPTIONS = ["no degenerate modes in patterned layers (their eigenvectors are not differentiable)", "autograd: the imaginary part that the array conversion adds to the gradient of a real permittivity is ignored"]
CONF = {
    "obl": ("obl", 12, 7, "original"),
    "rect": ("rect", [10, 14], 9, "original"),
    "1d": ("1d", 16, 7, "original"),
    "1dt": ("1d", 16, 7, "tangent"),
    "tan": ("obl", 12, 7, "tangent"),
}


def cases(tier):
    out = []
    for v in range(4 if tier == "thorough" else 1):
        for b, c, p in itertools.product(("autograd", "torch"), CONF, PAR):
            if p == "period":
                continue
            if c == "tan" and b == "autograd":
                continue
            for o in OBJ + (OBJ_TORCH if b == "torch" else []):
                out.append(["par", b, c, p, o, v])
        for b, c in itertools.product(("autograd", "torch"), ("obl", "1d", "1dt")):
            for m in ("raw", "filter", "project", "simp", "multi", "all"):
                out.append(["map", b, c, m, v])
    return out


def objective(n, c, vals, o, v, design=None):
    bk = n.backend
    l, disc, nh, form = CONF[c]
    lat = lattice(l, disc)
    D = lat.discretization
    ang = [vals["theta"], vals["phi"], vals["psi"]]
    if n.BACKEND == "torch":
        ang = bk.stack([bk.array(float(a)) if not isinstance(a, bk.Tensor) else a for a in ang])
    f = bk.array(indicator("L", D))
    if design is not None:
        e = design
    else:
        e = 1.2 + (vals["eps"] - 1.2 + 1j * vals["epsimag"] * [1, 1, 0, 3][v]) * f
    d = vals["d"] * [1, 2.2, 1, 0.7][v]
    t = np.array([np.cos(0.4 + 6 * indicator("gr", D)), np.sin(0.4 + 6 * indicator("gr", D))])
    ls = [
        lat.Layer("Superstrate", epsilon=vals["epsin"]),
        lat.Layer("a", thickness=d, epsilon=e, **({"tangent_field": bk.array(t)} if c == "tan" else {})),
        lat.Layer("b", thickness=0.2, epsilon=1.8),
        lat.Layer("Substrate", epsilon=vals["epsout"]),
    ]
    s = n.Simulation(ls, n.PlaneWave(wavelength=vals["wl"] * [1, 1, 0.8, 1.3][v], angles=ang), nh=nh, formulation=form)
    if o == "rc":
        a, b = s.diffraction_efficiencies(orders=True, complex=True)
        k = s.get_order_index((0, 0))
        return bk.real(a[0, k]) + 0.3 * bk.imag(b[1, k]) + bk.abs(a[2, k]) ** 2
    if o == "field":
        E, H = s.get_field_grid(1, z=0.07)
        return bk.real(E[0, 3, 0, 0]) + bk.imag(H[1, 2, 0, 0]) + bk.abs(E[2, 1, 0, 0]) ** 2
    if o == "stress":
        t = s.get_z_stress_tensor_integral(2, z=0.05)
        return t[0] + 2 * t[1] + 3 * t[2]
    R, T = s.diffraction_efficiencies(orders=True)
    k = s.get_order_index((0, 0))
    m = s.get_order_index((-1, 0))
    return {"R": bk.sum(R), "T": bk.sum(T), "R0": R[k], "T0": T[k], "Tm": T[m], "mix": bk.sum(R**2) - R[k] * T[m] + 0.5 * T[k]}[o]


def fd(f, x, h):
    return (8 * (f(x + h) - f(x - h)) - (f(x + 2 * h) - f(x - 2 * h))) / (12 * h)


def run(case, rec):
    n = nn()
    if case[0] == "map":
        return run_map(case, rec)
    _, b, c, p, o, v = case
    f = lambda n_, x: objective(n_, c, dict(PAR, **{p: x}), o, v)
    h = 2e-3 if p in ("theta", "phi", "psi") else 4e-5
    ref = fd(lambda x: float(f(n, x)), PAR[p], h)
    n.set_backend(b)
    try:
        x = n.backend.array(PAR[p], dtype=n.backend.float64)
        val = float(tonp(f(n, x)))
        g = tonp(n.grad(lambda x: f(n, x))(x))
    finally:
        n.set_backend("numpy")
    rec.close(val, float(f(n, PAR[p])), f"{b} {c}: value of {o}", tol=1e-9)
    rec.close(np.real(g).reshape(()), np.array(ref), f"{b} {c} variant {v}: derivative of {o} with respect to {p}", tol=2e-7)
    rec.step()
    rec.trace()
    rec.state(case)
    rec.outcome(round(ref, 6))


def run_map(case, rec):
    from ..core import tonp

    _, b, c, m, v = case
    n = nn()
    D = lattice(CONF[c][0], CONF[c][1]).discretization
    x0 = 0.3 + 0.45 * indicator("gr", D) + 0.02 * np.cos(np.arange(np.prod(D)).reshape(D) ** 1.7)
    shape = D

    def f(n_, x, o="T"):
        import importlib

        opt = importlib.import_module("nannos.optimize")
        uf = importlib.import_module("nannos.utils").apply_filter
        x = n_.backend.reshape(x, shape)
        if m in ("filter", "all") and D[1] > 1:
            x = uf(x, 1.7)
        if m in ("project", "all"):
            x = opt.project(x, 3.0, 0.45)
        if m == "multi":
            x = opt.multi_project(x, 4.0, 3)
            e = opt.multi_simp(x, [1.2, 3.5, 2.2], 2)
        elif m in ("simp", "all"):
            e = opt.simp(x, 1.2, 3.7, 3)
        else:
            e = 1.2 + 2.5 * x
        e = e * (1 + 0j)
        return objective(n_, c, PAR, o, v, design=e)

    n.set_backend(b)
    try:
        x = n.backend.array(x0.ravel(), dtype=n.backend.float64)
        g = tonp(n.grad(lambda x: f(n, x, "mix"))(x))
    finally:
        n.set_backend("numpy")
    rec.check(g.shape == (x0.size,), f"{b} {c} {m}: gradient of shape {g.shape}")
    ref = np.zeros(x0.size)
    for i in range(x0.size):
        def one(t):
            y = x0.ravel().copy()
            y[i] = t
            return float(np.real(f(n, y, "mix")))

        ref[i] = fd(one, x0.ravel()[i], 2e-3)
        rec.step()
    rec.close(np.real(g), ref, f"{b} {c} variant {v}: gradient through {m}", tol=2e-8)
    rec.check(np.max(abs(ref)) > 1e-5, "no sensitivity")
    rec.trace()
    rec.state(case)
    rec.outcome(case[2:4], tuple(np.round(ref, 6)))
