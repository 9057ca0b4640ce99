"""C10: real space fields, permittivity maps and Fourier transforms are the Fourier series of one another."""

import itertools

import numpy as np

from ..lib import epsilon, harm, lattice, layers, nn, simulation, _np
from ..core import tonp

ID = "C10"
CONF = {
    "sq": dict(lat="sq", disc=12, nh=9, wl=0.83, ang=[17, 35, 40], stack=[[0.1, 1], [0.31, ["L", 4, 1]], [0.2, 2.1], [0, 1.3]]),
    "obl": dict(lat="obl", disc=[14, 9], nh=7, wl=0.83, ang=[17, 35, 40], stack=[[0, 1], [0.31, ["gr", [4, 0.3], 1]], [0.2, ["blk", 3, 1.2]], [0, 1.3]]),
    "1d": dict(lat="1d", disc=20, nh=9, wl=0.83, ang=[17, 35, 40], form="tangent", stack=[[0, 1], [0.31, ["L", 4, 1]], [0.2, 2.1], [0, 1.3]]),
    "uni": dict(lat="rect", disc=[10, 8], nh=1, wl=0.83, ang=[17, 35, 40], stack=[[0, 1], [0.31, 4], [0.2, 2.1], [0, 1.3]]),
    "ani": dict(lat="rect", disc=[8, 10], nh=5, wl=0.83, ang=[17, 35, 40],
                stack=[[0, 1], [0.31, {"tensor": [[["L", 4, 1], ["L", 0.7, 0], 0], [["L", 0.7, 0], ["L", 3, 1], 0], [0, 0, ["gr", 2, 1]]]}], [0.2, 2.1], [0, 1.3]]),
}
BOUND = (
    "5 structures x every layer x 4 ways to name a layer x {E, H, all} x {x, y, z, all} x 5 grid shapes (default, smaller and "
    "larger, odd/even, 1 point high) x 3 depth arguments; permittivity maps of every layer; Fourier transform pairs on "
    "7 shapes and 3 axis choices for 5 backends"
)
RULE = (
    "state: (structure, layer, selection); transition: one array compared, point by point, with the explicit Fourier sum of "
    "the coefficients; trace: one real call"
)


def cases(tier):
    out = []
    for c in CONF:
        for i in range(4):
            for how in ("index", "negative", "name", "object"):
                out.append(["grid", c, i, how])
            out.append(["eps", c, i])
        out.append(["bad", c])
    for b in ("numpy", "scipy", "autograd", "torch", "jax"):
        out.append(["fft", b])
    return out


def series(F, H, shape):
    """F (..., nh) -> (shape, ...) values on the grid."""
    Nx, Ny = shape
    H = np.array(H)
    ex = np.exp(2j * np.pi * np.outer(np.arange(Nx) / Nx, H[:, 0]))
    ey = np.exp(2j * np.pi * np.outer(np.arange(Ny) / Ny, H[:, 1]))
    return np.einsum("xn,yn,...n->xy...", ex, ey, F)


def run(case, rec):
    if case[0] == "fft":
        return run_fft(case[1], rec)
    cname = case[1]
    C = CONF[cname]
    sim = simulation(C)
    H = harm(sim)
    if case[0] == "bad":
        for kw in (dict(field="B"), dict(component="w"), dict(field="x"), dict(component="E"), dict(field=None)):
            try:
                sim.get_field_grid(1, **kw)
                rec.check(False, f"{cname}: get_field_grid accepts {kw}")
            except ValueError:
                rec.check(True, "")
            rec.step()
        for bad in (len(C["stack"]), -len(C["stack"]) - 1, "nothere", 1.5, None):
            try:
                sim.get_field_fourier(bad)
                rec.check(False, f"{cname}: layer {bad!r} accepted")
            except (ValueError, IndexError, KeyError, TypeError):
                rec.check(True, "")
            rec.step()
        rec.trace()
        rec.state(case)
        return
    i = case[2]
    lay = sim.layers[i]
    if case[0] == "eps":
        spec = C["stack"][i][1]
        e = epsilon(spec, sim.lattice.discretization)
        got = tonp(sim.get_epsilon(i))
        if np.ndim(e) == 0:
            rec.close(got, np.array(complex(e)), f"{cname}: permittivity of uniform layer {i}", tol=1e-12)
        else:
            if np.ndim(e) == 4:
                e = e[2, 2]
            F = np.fft.fft2(e) / e.size
            f = np.array([F[h[0] % e.shape[0], h[1] % e.shape[1]] for h in H])
            rec.close(got, series(f, H, e.shape), f"{cname}: permittivity map of layer {i}", tol=1e-9)
        rec.step()
        rec.trace()
        rec.state(case)
        return
    how = case[3]
    n = len(sim.layers)
    key = {"index": i, "negative": i - n, "name": lay.name, "object": lay}[how]
    one = C["lat"] == "1d"
    shapes = [None, (4, 5), (17, 6), (31, 1), (32, 32)] if not one else [None, (12, 1), (17, 1), (31, 1), (64, 1)]
    maxh = max(abs(v) for h in H for v in h)
    zs = [0.07, [0.02, 0.11, 0.05], np.array([0.13])]
    for shape in shapes:
        S = shape or sim.lattice.discretization
        if shape is None and np.ndim(epsilon(C["stack"][i][1], sim.lattice.discretization)) >= 2:
            S = sim.lattice.discretization
        if S[0] <= 2 * max(abs(h[0]) for h in H) or S[1] <= 2 * max(abs(h[1]) for h in H):
            # aliased harmonics would collide on the grid
            if S != (31, 1) or any(h[1] for h in H):
                rec.skip("grid too coarse for the harmonics")
                continue
        for z in zs:
            F = tonp(sim.get_field_fourier(i, z=z))
            nz = len(z) if hasattr(z, "__len__") else 1
            if not rec.check(F.shape == (nz, 2, 3, len(H)), f"{cname}: shape {F.shape} of the coefficients"):
                return
            for k in range(nz):
                zk = float(z[k]) if hasattr(z, "__len__") else z
                rec.close(F[k], tonp(sim.get_field_fourier(i, z=zk))[0], f"{cname}: layer {i}, depth {zk} alone and in a list", tol=1e-10)
            ref = series(F, H, S)  # x y z q c
            ref = np.moveaxis(ref, (3, 4), (0, 1))  # q c x y z
            for field, comp in itertools.product(("all", "E", "H"), ("all", "x", "y", "z")):
                got = sim.get_field_grid(key, z=z, shape=shape, field=field, component=comp)
                tag = f"{cname}: layer {key} field={field} component={comp} shape={shape} z={z}"
                sel = slice(None) if comp == "all" else "xyz".index(comp)
                if field == "all":
                    rec.check(len(got) == 2, f"{tag}: {len(got)} fields")
                    rec.close(got[0], ref[0, sel], tag + " E", tol=1e-9)
                    rec.close(got[1], ref[1, sel], tag + " H", tol=1e-9)
                else:
                    q = "EH".index(field)
                    rec.close(got, ref[q, sel], tag, tol=1e-9)
                    f2 = sim.get_Efield_grid if field == "E" else sim.get_Hfield_grid
                    rec.close(f2(key, z=z, shape=shape, component=comp), ref[q, sel], tag + " (shortcut)", tol=1e-9)
                rec.step()
                rec.trace()
                rec.state(cname, i, how, shape, str(z), field, comp)
            rec.outcome(cname, i, S, nz)
    rec.close(tonp(sim.get_Efield_grid(key)), tonp(sim.get_field_grid(i, 0, field="E")), f"{cname}: default arguments", tol=1e-12)


def run_fft(b, rec):
    n = nn()
    n.set_backend(b)
    try:
        from nannos.formulations.fft import fourier_transform, inverse_fourier_transform

        for shape in ((4, 4), (5, 8), (8, 5), (7, 1), (3, 6, 5), (2, 3, 4, 5), (6, 4, 2)):
            x = np.arange(np.prod(shape)).reshape(shape)
            u = np.cos(x**1.5) + 1j * np.sin(3.0 * x)
            for axes in ((-2, -1), (0, 1), (1, 0)):
                nx, ny = shape[axes[0]], shape[axes[1]]
                a = n.backend.array(u)
                rec.close(tonp(fourier_transform(a, axes=axes)), np.fft.fft2(u, axes=axes) / (nx * ny), f"{b}: transform {shape} {axes}", tol=1e-10)
                rec.close(tonp(inverse_fourier_transform(a, axes=axes)), np.fft.ifft2(u, axes=axes) * (nx * ny), f"{b}: inverse {shape} {axes}", tol=1e-9)
                rec.close(tonp(inverse_fourier_transform(fourier_transform(a, axes=axes), axes=axes)), u, f"{b}: round trip {shape} {axes}", tol=1e-10)
                rec.step(3)
                rec.trace()
                rec.state("fft", b, shape, axes)
    finally:
        n.set_backend("numpy")
