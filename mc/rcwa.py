"""Independent solution of the truncated Fourier modal equations (plain numpy).

Integrates the 4 n coupled first order equations of the tangential field with
matrix exponentials and matches the plane waves of the exterior media: no
eigenmodes of patterned layers, no scattering matrices.
"""

import numpy as np
from scipy.linalg import expm

from .lib import D2R, sqrtp


def toep(f, H):
    """[[f]]_{mn} = f_{m-n} with m, n in the list of orders H."""
    Nx, Ny = f.shape
    F = np.fft.fft2(f) / (Nx * Ny)
    H = np.asarray(H)
    d = H[:, None, :] - H[None, :, :]
    return F[d[..., 0] % Nx, d[..., 1] % Ny]


def in_plane(eps, H, tangent):
    """2 x 2 block matrix of [Dx, Dy] = M [Ex, Ey], and [[eps_zz]].

    tangent: None (Laurent rule), or a unit field t on the grid: the inverse
    rule for the component along the normal, Laurent's for the other.
    """
    n = len(H)
    e = np.asarray(eps, complex)
    I = np.eye(n)
    Z = np.zeros((n, n))
    if e.ndim == 0:
        return np.block([[e * I, Z], [Z, e * I]]), e * I
    if e.ndim == 4:
        B = np.block([[toep(e[i, j], H) for j in range(2)] for i in range(2)])
        zz = toep(e[2, 2], H)
        det = e[0, 0] * e[1, 1] - e[0, 1] * e[1, 0]
        inv = np.array([[e[1, 1], -e[0, 1]], [-e[1, 0], e[0, 0]]]) / det
        Bi = np.linalg.inv(np.block([[toep(inv[i, j], H) for j in range(2)] for i in range(2)]))
    else:
        t = toep(e, H)
        B = np.block([[t, Z], [Z, t]])
        zz = t
        i = np.linalg.inv(toep(1 / e, H))
        Bi = np.block([[i, Z], [Z, i]])
    if tangent is None:
        return B, zz
    tx, ty = tangent
    nn = abs(tx) ** 2 + abs(ty) ** 2
    # normal direction (-conj(ty), conj(tx)), projector on it
    nx, ny = -np.conj(ty), np.conj(tx)
    P = np.block([[toep(nx * np.conj(nx) / nn, H), toep(nx * np.conj(ny) / nn, H)],
                  [toep(ny * np.conj(nx) / nn, H), toep(ny * np.conj(ny) / nn, H)]])
    return B - (B - Bi) @ P, zz


def solve(bv, H, stack, wl, ang, tangents=None):
    """stack: [(thickness, eps)], first and last uniform.

    Returns dict: R, T (per order, in the order of H) and field(i, z) -> (E, H)
    arrays (3, n) in layer i at depth z.
    """
    th, ph, psi = [a * D2R for a in ang]
    k0 = 2 * np.pi / wl
    H = np.asarray(H)
    n = len(H)
    if np.ndim(bv) == 0:
        bv = ((bv, 0.0), (0.0, 1.0))
    K = 2 * np.pi * np.linalg.inv(np.array(bv, float)).T
    e0, eN = complex(stack[0][1]), complex(stack[-1][1])
    n0 = np.sqrt(e0)
    kin = k0 * n0 * np.sin(th)
    kx = kin * np.cos(ph) + H[:, 0] * K[0, 0] + H[:, 1] * K[1, 0]
    ky = kin * np.sin(ph) + H[:, 0] * K[0, 1] + H[:, 1] * K[1, 1]
    z0 = int(np.where((H == 0).all(1))[0][0])
    tangents = tangents or [None] * len(stack)

    def system(eps, t):
        M, zz = in_plane(eps, H, t)
        X, Y = np.diag(kx), np.diag(ky)
        O = np.zeros((n, n))
        ze = np.linalg.inv(zz)
        # Ez = ez @ [Hx, Hy], Hz = hz @ [Ex, Ey]
        ez = np.hstack([ze @ Y, -ze @ X]) / k0
        hz = np.hstack([-Y, X]) / k0
        I = np.eye(n)
        EH = np.vstack([1j * X @ ez + np.hstack([O, 1j * k0 * I]), 1j * Y @ ez + np.hstack([-1j * k0 * I, O])])
        HE = np.vstack([1j * X @ hz - 1j * k0 * M[n:], 1j * Y @ hz + 1j * k0 * M[:n]])
        A = np.block([[np.zeros((2 * n, 2 * n)), EH], [HE, np.zeros((2 * n, 2 * n))]])
        return A, ez, hz

    def modes(eps):
        """Plane waves going down, as columns of [E; H]."""
        kz = sqrtp(eps * k0**2 - kx**2 - ky**2)
        I = np.eye(2 * n)
        Y = np.zeros((2 * n, 2 * n), complex)
        # H = k x E / k0 with Ez = -(kx Ex + ky Ey)/kz
        for m in range(n):
            x, y, z = kx[m], ky[m], kz[m]
            Y[m, m] = -y * x / z
            Y[m, n + m] = -y * y / z - z
            Y[n + m, m] = z + x * x / z
            Y[n + m, n + m] = x * y / z
        return kz, I, Y / k0

    kz0, I, Y0 = modes(e0)
    kzN, _, YN = modes(eN)
    # incident wave, unit amplitude of H
    c, s = np.cos(psi), np.sin(psi)
    inc = np.zeros(2 * n, complex)
    inc[z0] = (c * np.cos(th) * np.cos(ph) - s * np.sin(ph)) / n0
    inc[n + z0] = (c * np.cos(th) * np.sin(ph) + s * np.cos(ph)) / n0
    # phase origin: the top of the first layer
    inc = inc * np.exp(1j * kz0[z0] * stack[0][0])
    sys = [system(complex(e) if np.ndim(e) == 0 else e, t) for (d, e), t in zip(stack, tangents)]
    props = [expm(A * d) for (A, _, _), (d, _) in zip(sys[1:-1], stack[1:-1])]
    W = np.eye(4 * n)
    for p in props:
        W = p @ W
    # W [inc + r; Y0 inc - Y0 r] = [t; YN t]
    L = np.hstack([W @ np.vstack([I, -Y0]), -np.vstack([I, YN])])
    x = np.linalg.solve(L, -W @ np.concatenate([inc, Y0 @ inc]))
    r, t = x[: 2 * n], x[2 * n:]
    top = [np.concatenate([inc + r, Y0 @ (inc - r)])]
    for p in props:
        top.append(p @ top[-1])

    def flux(E, G):
        return np.real(E[:n] * np.conj(G[n:]) - E[n:] * np.conj(G[:n]))

    P0 = flux(inc, Y0 @ inc).sum()
    out = {"r": r, "t": t, "R": flux(r, Y0 @ r) / P0, "T": flux(t, YN @ t) / P0, "kx": kx, "ky": ky}

    def field(i, z=0.0):
        N = len(stack)
        if i == 0:
            d = stack[0][0]  # depth measured from the top of the layer
            s_ = z - d
            k = np.concatenate([kz0, kz0])
            a, b = inc * np.exp(1j * k * s_), r * np.exp(-1j * k * s_)
            F = np.concatenate([a + b, Y0 @ (a - b)])
        elif i == N - 1:
            k = np.concatenate([kzN, kzN])
            a = t * np.exp(1j * k * z)
            F = np.concatenate([a, YN @ a])
        else:
            F = expm(sys[i][0] * z) @ top[i - 1]
        E, G = F[: 2 * n], F[2 * n:]
        return np.array([E[:n], E[n:], sys[i][1] @ G]), np.array([G[:n], G[n:], sys[i][2] @ E])

    out["field"] = field
    return out
