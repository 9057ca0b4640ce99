"""Scenarios and reference models shared by the checks (plain numpy)."""

import math

import numpy as np

LATS = {
    "sq": ((1.0, 0.0), (0.0, 1.0)),
    "rect": ((1.0, 0.0), (0.0, 0.7)),
    "obl": ((1.0, 0.1), (0.3, 1.2)),
    "hex": ((1.0, 0.0), (0.5, math.sqrt(3) / 2)),
    "tall": ((0.6, 0.0), (0.0, 1.7)),
    "1d": 1.0,
}

D2R = np.pi / 180


def nn():
    import nannos

    return nannos


def cx(v):
    """JSON scalar or [re, im] -> python number."""
    if isinstance(v, (list, tuple)):
        return complex(v[0], v[1])
    return v


def lattice(name, disc=12, trunc="circular", harm=None, scale=1.0):
    n = nn()
    bv = LATS[name] if isinstance(name, str) else name
    if np.ndim(bv) == 0:
        bv = float(bv) * scale
    else:
        bv = tuple(tuple(float(c) * scale for c in v) for v in bv)
    if isinstance(disc, (list, tuple)):
        disc = tuple(disc)
    if harm is not None:
        harm = n.backend.array(np.array(harm))
    return n.Lattice(bv, discretization=disc, truncation=trunc, harmonics_array=harm)


def cells(disc):
    Nx, Ny = disc
    return np.meshgrid(np.arange(Nx) / Nx, np.arange(Ny) / Ny, indexing="ij")


def indicator(name, disc):
    """Asymmetric reference motifs sampled on the cell, values in [0, 1]."""
    x, y = cells(disc)
    two = disc[1] > 1
    if name == "blk":  # rectangle away from the centre
        m = (x >= 0.12) & (x < 0.52)
        if two:
            m &= (y >= 0.2) & (y < 0.78)
        return m.astype(float)
    if name == "L":  # no symmetry at all
        if two:
            m = ((x >= 0.1) & (x < 0.35) & (y >= 0.1) & (y < 0.9)) | (
                (x >= 0.1) & (x < 0.72) & (y >= 0.1) & (y < 0.4)
            )
            return m.astype(float)
        return np.where((x >= 0.1) & (x < 0.4), 1.0, np.where((x >= 0.6) & (x < 0.7), 0.45, 0.0))
    if name == "sx":
        return ((x >= 0.15) & (x < 0.55)).astype(float)
    if name == "sy":
        return ((y >= 0.15) & (y < 0.6)).astype(float)
    if name == "gr":  # smooth
        t = 2 * np.pi
        f = 0.5 + 0.2 * np.cos(t * x + 0.4) + 0.11 * np.sin(2 * t * x)
        if two:
            f = f + 0.13 * np.sin(t * y) + 0.1 * np.cos(t * (x - 2 * y) + 1.0)
        return f
    if name == "one":
        return np.ones(disc)
    if name == "sym":  # centred, mirror symmetric
        m = (np.abs(x - 0.5) < 0.26)
        if two:
            m &= np.abs(y - 0.5) < 0.18
        return m.astype(float)
    raise ValueError(name)


def pattern(spec, disc):
    """spec: [motif, eps_in, eps_out] -> complex array on the grid."""
    m, e1, e0 = spec
    f = indicator(m, disc)
    return (cx(e0) + (cx(e1) - cx(e0)) * f).astype(complex)


def epsilon(spec, disc):
    """number, [re, im] given as {"c": [re, im]}, or a pattern [motif, in, out]."""
    if isinstance(spec, dict):
        if "c" in spec:
            return complex(*spec["c"])
        if "roll" in spec:
            return np.roll(epsilon(spec["of"], disc), tuple(spec["roll"]), axis=(0, 1))
        if "iso" in spec:
            p = epsilon(spec["iso"], disc) * np.ones(disc)
            z = np.zeros(disc)
            return np.array([[p, z, z], [z, p, z], [z, z, p]], complex)
        if "tensor" in spec:  # 3x3 nested list of specs
            return np.array(
                [[epsilon(s, disc) * np.ones(disc, complex) for s in row] for row in spec["tensor"]]
            )
    if isinstance(spec, (list, tuple)) and len(spec) == 3 and isinstance(spec[0], str):
        return pattern(spec, disc)
    return complex(spec) if isinstance(spec, complex) else spec


def plane_wave(wl=1.3, ang=(0, 0, 0)):
    return nn().PlaneWave(wavelength=wl, angles=tuple(ang))


def names(n):
    return ["Superstrate"] + [f"L{i}" for i in range(1, n - 1)] + ["Substrate"]


def layers(lat, stack, labels=None):
    """stack: list of [thickness, eps spec]"""
    labels = labels or names(len(stack))
    a = nn().backend.array
    out = []
    for lab, (d, e) in zip(labels, stack):
        v = epsilon(e, lat.discretization)
        if isinstance(v, np.ndarray):
            v = a(v)
        out.append(lat.Layer(lab, thickness=d, epsilon=v))
    return out


def simulation(sc, lat=None, pw=None, labels=None):
    """Build a simulation from a scenario dictionary."""
    lat = lat or lattice(sc.get("lat", "sq"), sc.get("disc", 12), sc.get("trunc", "circular"), sc.get("harm"))
    pw = pw or plane_wave(sc.get("wl", 1.3), sc.get("ang", (0, 0, 0)))
    return nn().Simulation(
        layers(lat, sc["stack"], labels or sc.get("labels")),
        pw,
        nh=sc.get("nh", 9),
        formulation=sc.get("form", "original"),
    )


def harm(sim):
    return [(int(i), int(j)) for i, j in np.asarray(_np(sim.harmonics)).T]


def _np(a):
    from .core import tonp

    return tonp(a)


def fields(sim, layer, z=0):
    """(E, H) Fourier coefficients, arrays (3, nh), keyed in the order of sim.harmonics."""
    f = _np(sim.get_field_fourier(layer, z=z))
    return f[0, 0], f[0, 1]


def by_order(sim, values):
    return dict(zip(harm(sim), _np(values)))


# ---------------------------------------------------------------- reference models


def kt(k0, nsup, th, ph):
    """In-plane wavevector of the incident wave, angles in degrees."""
    k = k0 * nsup * np.sin(th * D2R)
    return k * np.cos(ph * D2R), k * np.sin(ph * D2R)


def sqrtp(z):
    """Square root with Im >= 0, and Re > 0 for real positive arguments."""
    s = np.sqrt(np.asarray(z, complex))
    return np.where(s.imag < 0, -s, s)


def tmm(eps, d, wl, ang):
    """Transfer matrix solution of a uniform stack.

    Returns dict with R, T (efficiencies), and the vector amplitudes of the
    tangential and normal electric field of the reflected wave at the first
    interface and of the transmitted wave at the last one, for an incident
    electric field of unit amplitude at the first interface.
    """
    th, ph, psi = [x * D2R for x in ang]
    k0 = 2 * np.pi / wl
    eps = [complex(e) for e in eps]
    n0 = np.sqrt(eps[0])
    kp = k0 * n0 * np.sin(th)
    kz = sqrtp(np.array([e * k0**2 - kp**2 for e in eps]))
    res = {}
    c = {"p": np.cos(psi), "s": np.sin(psi)}
    R = T = 0.0
    # unit vectors
    u = np.array([np.cos(ph), np.sin(ph)])  # along k parallel
    v = np.array([-np.sin(ph), np.cos(ph)])
    Et_r = np.zeros(3, complex)
    Et_t = np.zeros(3, complex)
    for pol in "ps":
        # tangential E (F) and tangential H (G = Y F) with Y = kz/k0 (s), eps k0/kz (p)
        Y = kz / k0 if pol == "s" else np.array([e * k0 / q for e, q in zip(eps, kz)])
        M = np.eye(2, dtype=complex)
        for j in range(1, len(eps) - 1):
            x = kz[j] * d[j]
            M = M @ np.array([[np.cos(x), -1j * np.sin(x) / Y[j]], [-1j * Y[j] * np.sin(x), np.cos(x)]])
        B, C = M @ np.array([1, Y[-1]])
        r = (Y[0] * B - C) / (Y[0] * B + C)
        t = 2 * Y[0] / (Y[0] * B + C)
        R += abs(c[pol] * r) ** 2
        T += abs(c[pol] * t) ** 2 * Y[-1].real / Y[0].real
        # incident tangential amplitude
        if pol == "s":
            Et_r += np.append(c["s"] * r * v, 0)
            Et_t += np.append(c["s"] * t * v, 0)
        else:
            a = c["p"] * np.cos(th)
            Et_r += np.append(a * r * u, a * r * kp / kz[0])
            Et_t += np.append(a * t * u, -a * t * kp / kz[-1])
    res.update(R=R, T=T, Er=Et_r, Et=Et_t, kz=kz, kp=kp)
    return res


def flux_z(E, H):
    """Time averaged z Poynting flux from Fourier coefficients (3, nh)."""
    return float(np.sum(np.real(E[0] * np.conj(H[1]) - E[1] * np.conj(H[0]))))


def circular_reference(bv, nh):
    """Orders of the largest complete set of shells of |G| with at most nh orders."""
    B = np.array(bv, float)
    K = 2 * np.pi * np.linalg.inv(B).T  # rows: reciprocal vectors
    n = 30
    i, j = np.meshgrid(np.arange(-n, n + 1), np.arange(-n, n + 1), indexing="ij")
    g = i[..., None] * K[0] + j[..., None] * K[1]
    l2 = (g**2).sum(-1).ravel()
    o = np.argsort(l2, kind="stable")
    l2, i, j = l2[o], i.ravel()[o], j.ravel()[o]
    tol = 1e-8 * l2[l2 > 0].min()
    k = nh
    while k > 1 and abs(l2[k] - l2[k - 1]) <= tol:
        k -= 1
    return {(int(a), int(b)) for a, b in zip(i[:k], j[:k])}, l2


def stop_workers():
    """End the worker processes that joblib keeps for later."""
    try:
        from joblib.externals.loky import get_reusable_executor

        get_reusable_executor().shutdown(wait=True, kill_workers=True)
    except Exception:
        pass
