"""C22: filters, projections and interpolations map densities to admissible materials."""

import itertools

import numpy as np

from ..core import tonp
from ..lib import nn

ID = "C22"
BOUND = {
    "quick": "filter: 9 grid shapes (1 to 9 points, odd, even, non square) x 8 radii (none, equal, different, none along one axis, list) x every single pixel, every pair of binary "
    "rows, constants and ramps, with and without lattice vectors; projection: 8 levels x 7 thresholds x 41 values; multiple projections: 2 to 5 "
    "levels x 8 slopes; interpolation: 2 to 5 materials x 4 powers x 3 material sets; 3 backends",
    "thorough": "5 backends and 16 grid shapes",
}
RULE = (
    "state: (map, parameters); transition: one value of the map compared with the defining formula or law (periodic Gaussian average, mean kept, range "
    "kept, translations, mirrors; end points, monotony, fixed points, limits); trace: one call"
)


SH = [(1, 1), (4, 1), (5, 1), (4, 4), (5, 5), (6, 5), (3, 8), (7, 2), (9, 9), (1, 6), (8, 8), (2, 2), (12, 7), (16, 1), (13, 4), (10, 11)]
RAD = [0, 1, 0.5, 2.5, (1, 2), (0, 1.5), (2, 0), (3, 0.7)]


def cases(tier):
    be = ["numpy", "torch", "autograd"] + (["scipy", "jax"] if tier == "thorough" else [])
    out = []
    for b in be:
        for s in SH[: 16 if tier == "thorough" else 10]:
            out.append(["filter", b, s])
        out += [["project", b], ["multi_project", b], ["simp", b], ["multi_simp", b]]
    return out


def gauss(x, r, period):
    """Periodic average with weights exp(-d^2/r^2), d the distance to the nearest image."""
    out = x
    for ax in (0, 1):
        if r[ax] == 0:
            continue
        N = x.shape[ax]
        i = np.arange(N)
        d = np.abs(i[:, None] - i[None, :])
        d = np.minimum(d, N - d) * period[ax] / N
        W = np.exp(-(d**2) / r[ax] ** 2)
        W = W / W.sum(1)[:, None]
        out = np.moveaxis(np.tensordot(W, out, axes=(1, ax)), 0, ax)
    return out


def run(case, rec):
    n = nn()
    n.set_backend(case[1])
    n = nn()
    import importlib

    uf = importlib.import_module("nannos.utils").apply_filter
    op = n.optimize
    F = n.get_types()[0]
    a = lambda v: n.backend.array(np.array(v, float, order="C"), dtype=F)  # noqa: E731
    b = case[1]
    if case[0] == "filter":
        sh = tuple(case[2])
        N = sh[0] * sh[1]
        imgs = [np.ones(sh), np.arange(N).reshape(sh) / N, np.zeros(sh)]
        for k in range(N):
            e = np.zeros(N)
            e[k] = 1
            imgs.append(e.reshape(sh))
        for bits in itertools.product((0, 1), repeat=min(sh[0], 4)):
            r = np.zeros(sh)
            r[: len(bits)] = np.array(bits)[:, None]
            imgs.append(r)
        for r0, vec in itertools.product(RAD, (None, ((2.0, 0.0), (0.0, 3.0)))):
            r = (r0, r0) if np.ndim(r0) == 0 else tuple(r0)
            per = sh if vec is None else (2.0, 3.0)
            outs = []
            for k, x in enumerate(imgs):
                y = tonp(uf(a(x), r0) if vec is None else uf(a(x), r0, vec))
                tag = f"{b}: filter of image {k} of shape {sh}, radius {r0}, vectors {vec}: "
                rec.close(y, gauss(x, r, per), tag + "Gaussian average", tol=1e-10)
                rec.close(y.mean(), x.mean(), tag + "mean", tol=1e-11)
                rec.check(y.min() >= x.min() - 1e-11 and y.max() <= x.max() + 1e-11, tag + "out of the range of the image")
                rec.trace()
                rec.step(N)
                outs.append(y)
            # symmetries on the last images
            for k in (1, 3, len(imgs) - 1):
                x = imgs[k]
                call = lambda v: tonp(uf(a(v), r0) if vec is None else uf(a(v), r0, vec))  # noqa: E731
                tag = f"{b}: filter of image {k} of shape {sh}, radius {r0}: "
                for s in itertools.product(range(sh[0]), range(sh[1])):
                    rec.close(call(np.roll(x, s, (0, 1))), np.roll(outs[k], s, (0, 1)), tag + f"translation {s}", tol=1e-11)
                for ax in (0, 1):
                    rec.close(call(np.flip(x, ax)), np.flip(outs[k], ax), tag + f"mirror {ax}", tol=1e-11)
                rec.close(call(2 * x - imgs[0]), 2 * outs[k] - outs[0], tag + "linearity", tol=1e-11)
            rec.state(sh, r0, vec)
            rec.outcome(np.round(outs[1], 6).tobytes())
    elif case[0] == "project":
        x = np.linspace(0, 1, 41)
        last = {}
        for beta, th in itertools.product((0.01, 0.5, 1, 2, 8, 32, 128, 256, 2000), (0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9)):
            y = tonp(op.project(a(x), beta, th))
            tag = f"{b}: projection of slope {beta}, threshold {th}: "
            ref = (np.tanh(beta * th) + np.tanh(beta * (x - th))) / (np.tanh(beta * th) + np.tanh(beta * (1 - th)))
            rec.close(y, ref, tag + "formula", tol=1e-10)
            rec.close(y[[0, -1]], [0, 1], tag + "end points", tol=1e-10)
            rec.check(np.all(np.diff(y) >= -1e-12), tag + "not increasing")
            rec.check(y.min() >= -1e-12 and y.max() <= 1 + 1e-12, tag + "out of [0, 1]")
            rec.close(tonp(op.project(a(1 - x), beta, 1 - th)), 1 - y, tag + "complement", tol=1e-10)
            if beta == 0.01:
                rec.close(y, x, tag + "identity for a vanishing slope", tol=1e-3)
            if beta == 256:
                far = np.abs(x - th) > 0.05
                rec.close(y[far], (x > th)[far] * 1.0, tag + "step for a large slope", tol=1e-8)
            if beta == 1 and th == 0.5:
                rec.close(tonp(op.project(a(x))), y, tag + "default arguments", tol=1e-12)
            g = tonp(op.project(a(x.reshape(41, 1) * np.ones((1, 3))), beta, th))
            rec.close(g, y[:, None] * np.ones((1, 3)), tag + "elementwise", tol=1e-12)
            rec.trace(2)
            rec.step(41)
            rec.state(beta, th)
            rec.outcome(np.round(y, 5).tobytes())
        last.clear()
    elif case[0] == "multi_project":
        x = np.linspace(0, 1, 61)
        for N, beta in itertools.product((2, 3, 4, 5), (0.5, 1, 2, 8, 32, 128, 256, 400)):
            y = tonp(op.multi_project(a(x), beta, N))
            tag = f"{b}: projection on {N} levels of slope {beta}: "
            ref = sum(tonp(op.project(a(x), beta, k / N)) for k in range(1, N)) / (N - 1)
            rec.close(y, ref, tag + "average of the projections", tol=1e-10)
            rec.close(y[[0, -1]], [0, 1], tag + "end points", tol=1e-10)
            rec.check(np.all(np.diff(y) >= -1e-12), tag + "not increasing")
            rec.close(y + y[::-1], np.ones(61), tag + "complement", tol=1e-10)
            if beta == 400:
                dist = np.min([np.abs(x - k / N) for k in range(1, N)], axis=0)
                far = dist > 0.04
                rec.close((y * (N - 1))[far], np.floor(x * N).clip(0, N - 1)[far], tag + "levels for a large slope", tol=1e-8)
            rec.trace()
            rec.step(61)
            rec.state(N, beta)
            rec.outcome(np.round(y, 5).tobytes())
    elif case[0] == "simp":
        x = np.linspace(0, 1, 21)
        for (e0, e1), p in itertools.product(((1.0, 4.0), (6.0, 2.0), (1.0, 9 + 2j), (-20 + 1j, 1.0)), (1, 2, 3, 0.5)):
            y = tonp(op.simp(a(x), e0, e1, p))
            tag = f"{b}: interpolation from {e0} to {e1}, power {p}: "
            rec.close(y, e0 + (e1 - e0) * x**p, tag + "formula", tol=1e-11)
            rec.close(y[[0, -1]], np.array([e0, e1]), tag + "end points", tol=1e-12)
            if p == 1:
                rec.close(tonp(op.simp(a(x), e0, e1)), y, tag + "default power", tol=1e-12)
            rec.trace()
            rec.step(21)
            rec.state(str(e0), str(e1), p)
            rec.outcome(np.round(y, 6).tobytes())
    else:
        sets = [[1.0, 4.0, 9.0, 2.0, 6.0], [3.0, 1.0, 12.0, 5.0, 2.0], [1.0, 2 + 0.5j, -3 + 1j, 4.0, 7 + 0.1j]]
        for eps, m, p in itertools.product(sets, (2, 3, 4, 5), (1, 2, 3, 0.5)):
            e = eps[:m]
            pts = np.linspace(0, 1, m)
            tag = f"{b}: interpolation of {e}, power {p}: "
            y = tonp(op.multi_simp(a(pts), e, p))
            rec.close(y, np.array(e) + 0j * y, tag + "materials at the design levels", tol=1e-7)
            # between: the polynomial of degree m - 1 in x**p
            x = np.linspace(0, 1, 17)
            V = np.array([[t ** (k * p) for k in range(m)] for t in pts])
            c = np.linalg.solve(V, np.array(e, complex))
            ref = sum(ck * x ** (k * p) for k, ck in enumerate(c))
            z = tonp(op.multi_simp(a(x), e, p))
            rec.close(z, ref if np.iscomplexobj(z) else ref.real, tag + "interpolation", tol=1e-7)
            if m == 2:
                rec.close(z, tonp(op.simp(a(x), e[0], e[1], p)) + 0j * z, tag + "two materials", tol=1e-10)
            rec.trace(2)
            rec.step(17 + m)
            rec.state(str(e), p)
            rec.outcome(np.round(z, 5).tobytes())
