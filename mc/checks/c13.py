"""C13: masks of shapes hold exactly the grid points inside the shape."""

import itertools
import math

import numpy as np

from ..lib import LATS, nn, _np

ID = "C13"
# lattices with vectors in the other order (negative determinant) or that point to the other side
LATS = {**LATS, "left": ((0.2, 1.1), (1.0, -0.1)), "back": ((-1.0, 0.3), (0.2, -0.8)), "swap": ((0.0, 0.8), (1.3, 0.0)), "sharp": ((1.0, 0.0), (0.9, 0.25))}
LATS2 = list(x for x in LATS if x != "1d")
DISCS = [(11, 11), (16, 9), (8, 21), (2, 5), (1, 7), (7, 1), (33, 32)]
BOUND = {
    "quick": "9 lattices (also left handed, with negative vectors, with sharp angles; and 3 periods of 1D gratings) x 7 discretizations (from 1 to 33 points, non square) x shapes "
    "{polygon, circle, ellipse, square, rectangle, stripe, geometry} x 5 centres (inside, at an edge, outside) x 4 sizes "
    "(below the grid step, ordinary, larger than the cell) x 5 rotations; unions, holes, differences and disjoint parts",
    "thorough": "the same with 14 discretizations (up to 130 points)",
}
RULE = (
    "state: (lattice, discretization, shape); transition: one grid point compared with the analytic inside test at its "
    "position; trace: one mask built by the real code"
)
ASSUMPTIONS = [
    "points closer to the outline than 1e-9 (straight edges) or 0.2 per cent of the radius (circles and ellipses are "
    "polygons with 64 sides) are not compared",
]
CENTRES = [(0.5, 0.5), (0.31, 0.64), (0.0, 0.45), (1.0, 1.0), (-0.4, 1.3)]  # in units of the basis
SIZES = [0.02, 0.23, 0.6, 4.0]
ROTS = [0, 30, 90, -17, 200]


def cases(tier):
    out = []
    discs = DISCS + ([(4, 4), (3, 40), (64, 65), (130, 7), (5, 128), (1, 1), (100, 100)] if tier == "thorough" else [])
    for l, d in itertools.product(LATS2, discs):
        for kind in ("polygon", "circle", "ellipse", "square", "rectangle", "stripe", "geom", "cell"):
            out.append([kind, l, list(d)])
    for p in (1.0, 0.37, 5.5):
        for d in discs:
            out.append(["1d", p, list(d)])
    return out


def grid_points(bv, disc):
    """Positions of the grid points (both ends of the cell are on the grid)."""
    u = np.linspace(0, 1, disc[0])
    v = np.linspace(0, 1, disc[1])
    U, V = np.meshgrid(u, v, indexing="ij")
    b = np.array(bv, float)
    return U[..., None] * b[0] + V[..., None] * b[1]


def seg_dist(P, a, b):
    a, b = np.array(a, float), np.array(b, float)
    t = np.clip(((P - a) @ (b - a)) / max(1e-30, (b - a) @ (b - a)), 0, 1)
    return np.linalg.norm(P - a - t[..., None] * (b - a), axis=-1)


def poly(P, V):
    """(inside, distance to the outline), even odd rule."""
    inside = np.zeros(P.shape[:2], bool)
    dist = np.full(P.shape[:2], np.inf)
    n = len(V)
    x, y = P[..., 0], P[..., 1]
    for i in range(n):
        (x0, y0), (x1, y1) = V[i], V[(i + 1) % n]
        dist = np.minimum(dist, seg_dist(P, V[i], V[(i + 1) % n]))
        if y0 != y1:
            c = (y0 > y) != (y1 > y)
            xi = x0 + (y - y0) * (x1 - x0) / (y1 - y0)
            inside ^= c & (x < xi)
    return inside, dist


def rotated(P, c, deg):
    a = math.radians(deg)
    d = P - np.array(c)
    return np.stack([d[..., 0] * math.cos(a) + d[..., 1] * math.sin(a), -d[..., 0] * math.sin(a) + d[..., 1] * math.cos(a)], -1)


def box(P, c, w, deg):
    q = rotated(P, c, deg)
    V = [(-w[0] / 2, -w[1] / 2), (w[0] / 2, -w[1] / 2), (w[0] / 2, w[1] / 2), (-w[0] / 2, w[1] / 2)]
    return poly(q, V)


def ell(P, c, r, deg=0):
    """Inside test with a margin for the polygon approximation, expressed as a distance that is 0 when ambiguous."""
    q = rotated(P, c, deg) / np.array(r)
    rho = np.linalg.norm(q, axis=-1)
    clear = (rho > 1 + 1e-9) | (rho < 1 - 2e-3)
    return rho < 1, np.where(clear, 1.0, 0.0)


POLYS = {
    "concave": [(0.12, 0.1), (0.85, 0.22), (0.4, 0.43), (0.9, 0.8), (0.2, 0.9)],
    "clockwise": [(0.2, 0.9), (0.9, 0.8), (0.4, 0.43), (0.85, 0.22), (0.12, 0.1)],
    "tri": [(-0.5, 0.1), (1.4, 0.33), (0.3, 1.7)],
    "thin": [(0.1, 0.5), (0.9, 0.52), (0.9, 0.53)],
    "comb": [(0.05, 0.05), (0.95, 0.05), (0.95, 0.95), (0.75, 0.95), (0.75, 0.3), (0.6, 0.3), (0.6, 0.95), (0.4, 0.95), (0.4, 0.3), (0.25, 0.3), (0.25, 0.95), (0.05, 0.95)],
    "cover": [(-3, -3), (4, -3), (4, 4), (-3, 4)],
    "off": [(2.1, 2.1), (2.5, 2.1), (2.3, 2.6)],
}


def compare(rec, case, tag, got, want, dist, disc, one=False):
    got = _np(got)
    if not rec.check(got.shape == tuple(disc), f"{tag}: mask of shape {got.shape} on a grid of {tuple(disc)}"):
        return
    rec.check(got.dtype == bool, f"{tag}: mask of type {got.dtype}")
    clear = dist > 1e-9
    bad = clear & (got.astype(bool) != want)
    i = tuple(int(k) for k in np.argwhere(bad)[0]) if bad.any() else None
    rec.check(not bad.any(), f"{tag}: {bad.sum()} wrong points, the first is {i} ({'inside' if i and want[i] else 'outside'} the shape)")
    rec.step(int(clear.sum()))
    rec.trace()
    rec.state(case, tag)
    rec.outcome(case, int(want.sum()))


def full(rec, lat, case, tag, disc):
    """Patterns that hold one value."""
    for name, got, v in (
        ("ones", lat.ones(), 1),
        ("zeros", lat.zeros(), 0),
        ("constant", lat.constant(2.5), 2.5),
        ("complex constant", lat.constant(-3 + 0.5j), -3 + 0.5j),
    ):
        got = _np(got)
        rec.check(got.shape == tuple(disc), f"{tag}{name} of shape {got.shape}")
        rec.close(got, np.full(tuple(disc), v), tag + name, tol=1e-15)
        rec.step(got.size)


def run(case, rec):
    kind, l, disc = case
    n = nn()
    if kind == "1d":
        lat = n.Lattice(l, discretization=tuple(disc))
        x = np.linspace(0, 1, disc[0])[:, None] * l
        rec.check(tuple(lat.discretization) == (disc[0], 1), f"1D: discretization {lat.discretization}")
        rec.close(float(lat.area), l, f"1D period {l}: area", tol=1e-12)
        full(rec, lat, case, f"1D period {l}: ", (disc[0], 1))
        for c, w in itertools.product((0.5, 0.31, 0.0, 1.1), (0.013, 0.4, 3.0)):
            compare(rec, case, f"1D period {l}, {disc}: stripe {c} {w}", lat.stripe(c * l, w * l), abs(x - c * l) <= w * l / 2, abs(abs(x - c * l) - w * l / 2), (disc[0], 1))
        for f, args in (("circle", ((0.5, 0.5), 0.2)), ("ellipse", ((0.5, 0.5), (0.2, 0.3))), ("square", ((0.5, 0.5), 0.2)), ("rectangle", ((0.5, 0.5), (0.2, 0.1))), ("polygon", (POLYS["tri"],))):
            try:
                getattr(lat, f)(*args)
                rec.check(False, f"1D: {f} is accepted")
            except ValueError:
                rec.check(True, "")
            rec.trace()
        return
    bv = LATS[l]
    b = np.array(bv)
    lat = n.Lattice(bv, discretization=tuple(disc))
    P = grid_points(bv, disc)
    rec.close(_np(lat.grid), np.moveaxis(P, -1, 0), f"{l} {disc}: grid positions", tol=1e-12)
    s0 = math.sqrt(abs(np.linalg.det(b)))

    def pos(c):
        return tuple(float(v) for v in c[0] * b[0] + c[1] * b[1])

    tag0 = f"{l} {disc}: "
    if kind == "cell":
        K = _np(lat.reciprocal)
        rec.close(_np(lat.matrix), b.T, tag0 + "matrix", tol=1e-12)
        rec.close(float(lat.area), abs(b[0][0] * b[1][1] - b[0][1] * b[1][0]), tag0 + "area", tol=1e-12)
        rec.close(_np(lat.matrix).T @ K, 2 * np.pi * np.eye(2), tag0 + "reciprocal vectors are dual to the vectors", tol=1e-12)
        full(rec, lat, case, tag0, disc)
        u = _np(lat.unit_grid)
        rec.close(u, np.stack(np.meshgrid(np.linspace(0, 1, disc[0]), np.linspace(0, 1, disc[1]), indexing="ij")), tag0 + "unit grid", tol=1e-12)
        rec.state(case)
        rec.trace()
    elif kind == "polygon":
        for name, V in POLYS.items():
            W = [pos(c) for c in V]
            compare(rec, case, tag0 + f"polygon {name}", lat.polygon(W), *poly(P, W), disc)
    elif kind == "stripe":
        for c, w in itertools.product(CENTRES, SIZES):
            x0, w = pos(c)[0], w * s0
            compare(rec, case, tag0 + f"stripe {x0} {w}", lat.stripe(x0, w), abs(P[..., 0] - x0) <= w / 2, abs(abs(P[..., 0] - x0) - w / 2), disc)
    elif kind == "geom":
        import shapely.geometry as sg
        from shapely.ops import unary_union

        A = sg.Polygon([pos(c) for c in POLYS["concave"]])
        a = poly(P, [pos(c) for c in POLYS["concave"]])
        c1, r1 = pos((0.62, 0.58)), 0.31 * s0
        C = sg.Point(*c1).buffer(r1)
        c = ell(P, c1, (r1, r1))
        D = sg.Polygon([pos(v) for v in POLYS["tri"]])
        d = poly(P, [pos(v) for v in POLYS["tri"]])
        O = sg.Polygon([pos(v) for v in POLYS["off"]])
        small = [pos(v) for v in [(0.05, 0.05), (0.2, 0.05), (0.2, 0.25), (0.05, 0.25)]]
        S = sg.Polygon(small)
        s = poly(P, small)
        m = np.minimum
        for name, g, w, dd in (
            ("union", unary_union([A, C]), a[0] | c[0], m(a[1], c[1])),
            ("intersection", A.intersection(C), a[0] & c[0], m(a[1], c[1])),
            ("difference", D.difference(C), d[0] & ~c[0], m(d[1], c[1])),
            ("hole", sg.box(-9, -9, 9, 9).difference(C), ~c[0], c[1]),
            ("two parts", unary_union([S, C]), s[0] | c[0], m(s[1], c[1])),
            ("empty", A.intersection(O), np.zeros(tuple(disc), bool), np.ones(tuple(disc))),
            ("everything", sg.box(-9, -9, 9, 9), np.ones(tuple(disc), bool), np.ones(tuple(disc))),
        ):
            compare(rec, case, tag0 + f"geometry {name}", lat.geometry_mask(g), w, dd, disc)
    else:
        for ce, sz in itertools.product(CENTRES, SIZES):
            ctr, s = pos(ce), sz * s0
            if kind == "circle":
                compare(rec, case, tag0 + f"circle {ce} {sz}", lat.circle(ctr, s), *ell(P, ctr, (s, s)), disc)
                continue
            for rot in ROTS:
                kw = {} if rot == 0 else {"rotate": rot}
                if kind == "ellipse":
                    r = (s, 0.45 * s)
                    compare(rec, case, tag0 + f"ellipse {ce} {sz} {rot}", lat.ellipse(ctr, r, **kw), *ell(P, ctr, r, rot), disc)
                elif kind == "square":
                    compare(rec, case, tag0 + f"square {ce} {sz} {rot}", lat.square(ctr, s, **kw), *box(P, ctr, (s, s), rot), disc)
                else:
                    w = (s, 0.37 * s)
                    compare(rec, case, tag0 + f"rectangle {ce} {sz} {rot}", lat.rectangle(ctr, w, **kw), *box(P, ctr, w, rot), disc)
