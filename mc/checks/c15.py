"""C15: the formulation and the tangent field change the convergence, not the structure."""

import itertools
import math

import numpy as np

from ..lib import LATS, epsilon, fields, harm, nn, pattern, plane_wave, _np
from ..core import tonp

ID = "C15"
FORMS = ["original", "tangent", "pol", "jones"]
AUTO = ["fft", "opt"]
EXC = [[0.83, [17, 35, 40]], [1.27, [0, 0, 90]], [0.61, [-48, 70, 20]]]
BOUND = {
    "quick": "every formulation x tangent field kind (fft, opt, given) x lattice (6) x 3 excitations, for: constant patterns (4 "
    "materials, scalar and tensor), stripes along either axis (3 materials, 5 lattices rotated and not), a scene rotated (4 "
    "angles), scaled (3 factors) or with its axes exchanged, tangent fields multiplied by 5 factors, weak contrasts (3 steps)",
    "thorough": "the same with 3 discretizations and 2 truncation orders",
}
RULE = (
    "state: a structure with a formulation; transition: one rewriting that keeps the structure (uniform pattern, 2D "
    "description of stripes, rotation, scaling, exchange of axes, factor of the field); trace: one real simulation"
)
MATS = [[4.0, 1.0], [[3.0, 0.4], 1.2], [[-6.0, 0.5], 1.0]]


def cases(tier):
    out = []
    v = [0, 1, 2] if tier == "thorough" else [0]
    for k, l in itertools.product(v, ["sq", "rect", "obl", "hex", "tall", "1d"]):
        for form in FORMS:
            if l == "1d" and form in ("pol", "jones"):
                continue
            for tt in AUTO + ["given"]:
                out.append(["const", l, form, tt, k])
    for k, l, axis, mat, form, tt in itertools.product(v, ["sq", "rect", "rot", "rotrect", "obl"], (0, 1), range(len(MATS)), FORMS, AUTO + ["given"]):
        if form in ("original", "jones") and tt != "given":
            continue  # elliptic Jones vectors away from the interfaces
        out.append(["stripe", l, axis, mat, form, tt, k])
    for k, l, form, tt in itertools.product(v, ["sq", "rect", "obl", "hex", "tall"], FORMS, AUTO + ["given"]):
        if form == "original" and tt != "given":
            continue
        out.append(["moves", l, form, tt, k])
        out.append(["weak", l, form, tt, k])
    for k, l, tt in itertools.product(v, ["sq", "rect", "obl", "hex", "tall"], AUTO):
        out.append(["field", l, tt, k])
    return out


def swirl(disc, vectors=None):
    x, y = np.meshgrid(np.arange(disc[0]) / disc[0], np.arange(disc[1]) / disc[1], indexing="ij")
    q = 2 * np.pi * x + 0.7 * np.sin(2 * np.pi * y) + 0.3
    return np.array([np.cos(q), np.sin(q)])


def sim(bv, disc, eps, wl, ang, form, tt, tf=None, nh=9, d=0.3, ext=(1.0, 2.0), H=None):
    n = nn()
    a = n.backend.array
    lat = n.Lattice(bv, discretization=tuple(disc), harmonics_array=H)
    kw = {"tangent_field": a(tf)} if tt == "given" else {"tangent_field_type": tt}
    lay = lat.Layer("g", thickness=d, epsilon=a(eps), **kw)
    return n.Simulation([lat.Layer("i", epsilon=ext[0]), lay, lat.Layer("o", epsilon=ext[1])], plane_wave(wl, ang), nh=nh, formulation=form)


def obs(s, perm=None, scale=1.0):
    R, T = [tonp(v) for v in s.diffraction_efficiencies(orders=True)]
    E, G = fields(s, 1, 0.1 * scale)
    cols = np.array([R, T, abs(E[0]) ** 2 + abs(E[1]) ** 2, abs(E[2]) ** 2, abs(G[0]) ** 2 + abs(G[1]) ** 2])
    return {(h if perm is None else perm(h)): cols[:, k] for k, h in enumerate(harm(s))}


def same(rec, a, b, msg, tol=1e-8):
    if not rec.check(set(a) == set(b), msg + f": orders {sorted(set(a) ^ set(b))} differ"):
        return
    k = sorted(b)
    rec.close(np.array([a[i] for i in k]), np.array([b[i] for i in k]), msg + f" (rows {k}; R, T, |Et|2, |Ez|2, |Ht|2)", tol=tol)
    rec.step()
    rec.trace()


def rot(bv, deg):
    q = math.radians(deg)
    R = np.array([[math.cos(q), -math.sin(q)], [math.sin(q), math.cos(q)]])
    return tuple(tuple(float(c) for c in R @ np.array(v)) for v in bv), R


def run(case, rec):
    k = case[-1]
    nh = [9, 7, 13][k]
    rec.state(case)
    if case[0] == "const":
        return run_const(case, rec, nh)
    if case[0] == "stripe":
        return run_stripe(case, rec, nh)
    if case[0] == "field":
        return run_field(case, rec)
    l, form, tt = case[1:4]
    bv = LATS[l]
    disc = [(12, 14), (15, 11), (20, 16)][k]
    tf = swirl(disc)
    if case[0] == "weak":
        # difference with the Laurent rule is of second order in the contrast
        f = (pattern(["L", 1, 0], disc)).real
        res = []
        for wl, ang in EXC:
            dif = []
            for c in (0.04, 0.02, 0.01):
                e = 2.0 * np.exp(c * f) + 0j
                a = obs(sim(bv, disc, e, wl, ang, form, tt, tf, nh))
                b = obs(sim(bv, disc, e, wl, ang, "original", "given", tf, nh))
                dif.append(max(np.max(abs(a[h][:2] - b[h][:2])) for h in b))
                rec.trace(2)
            rec.step(3)
            tag = f"{l} {form}/{tt} {wl} {ang}: "
            rec.check(dif[0] <= 2e-3, tag + f"differs by {dif[0]:.3g} from 'original' at a contrast of 4 per cent")
            for i in range(2):
                rec.check(dif[i + 1] <= dif[i] / 2.8 + 1e-13, tag + f"the difference with 'original' decreases from {dif[i]:.3g} to {dif[i + 1]:.3g} when the contrast is halved")
            res.append(dif[0])
        rec.outcome("weak", tuple(round(math.log10(x + 1e-16), 1) for x in res))
        return
    mat = [4.0, [3.0, 0.4], [-6.0, 0.5]]
    for (wl, ang), m in zip(EXC, mat):
        e = pattern(["L", m, 1.2], disc)
        tag = f"{l} {form}/{tt} {wl} {ang}: "
        ref = obs(sim(bv, disc, e, wl, ang, form, tt, tf, nh))
        rec.outcome(tag, tuple(np.round([ref[h][0] for h in sorted(ref)], 6)))
        for deg in (30, 90, 137, -61):
            bw, R = rot(bv, deg)
            tr = np.einsum("ij,jxy->ixy", R, tf)
            same(rec, obs(sim(bw, disc, e, wl, [ang[0], ang[1] + deg, ang[2]], form, tt, tr, nh)), ref, tag + f"rotated by {deg}")
        for s in (0.1, 1.7, 1000.0):
            bw = tuple(tuple(c * s for c in v) for v in bv)
            same(rec, obs(sim(bw, disc, e, wl * s, ang, form, tt, tf, nh, d=0.3 * s), scale=s), ref, tag + f"scaled by {s}")
        same(rec, obs(sim((bv[1], bv[0]), disc[::-1], e.T.copy(), wl, ang, form, tt, np.swapaxes(tf, 1, 2).copy(), nh), perm=lambda h: (h[1], h[0])), ref, tag + "axes exchanged")
        same(rec, obs(sim(bv, disc, e * 1.44, wl * 1.2, ang, form, tt, tf, nh, ext=(1.44, 2.88))), {h: v * np.array([1, 1, 1 / 1.44, 1 / 1.44, 1]) for h, v in ref.items()}, tag + "permittivities scaled")
        if tt == "given" and form in ("tangent", "pol"):
            for f in (-1.0, 2.5, 1e-3, 1j, np.exp(0.7j) * 3):
                same(rec, obs(sim(bv, disc, e, wl, ang, form, tt, tf * f, nh)), ref, tag + f"tangent field times {f}")
            ph = np.exp(2j * np.pi * np.arange(disc[0]) / disc[0])[:, None] * (1.5 + np.cos(np.arange(disc[1])))
            same(rec, obs(sim(bv, disc, e, wl, ang, form, tt, tf * ph, nh)), ref, tag + "tangent field times a function")
        if tt == "given" and form == "jones":
            same(rec, obs(sim(bv, disc, e, wl, ang, form, tt, -tf, nh)), ref, tag + "opposite tangent field")
            # a field of unit length: linear polarization along t
            same(rec, obs(sim(bv, disc, e, wl, ang, "tangent", tt, tf, nh)), ref, tag + "tangent with the same unit field")


def run_const(case, rec, nh):
    l, form, tt = case[1:4]
    bv = LATS[l]
    disc = (20, 1) if l == "1d" else (12, 10)
    for m in (4.0, 1.0, 3 + 0.4j, -5 + 0.2j):
        for wl, ang in EXC:
            tag = f"{l} {form}/{tt} {wl} {ang} constant {m}: "
            n = nn()
            lat = n.Lattice(bv, discretization=disc)
            ref = obs(n.Simulation([lat.Layer("i", epsilon=1), lat.Layer("g", thickness=0.3, epsilon=m), lat.Layer("o", epsilon=2.0)], plane_wave(wl, ang), nh=nh))
            for kind in ("scalar", "tensor"):
                e = np.full(disc, m, complex)
                if kind == "tensor":
                    z = np.zeros(disc)
                    e = np.array([[e, z, z], [z, e, z], [z, z, e]])
                got = obs(sim(bv, disc, e, wl, ang, form, tt, swirl(disc), nh))
                same(rec, got, {h: ref.get(h, np.zeros(5)) for h in got}, tag + kind)
            rec.outcome(tag, tuple(np.round([ref[h][0] for h in sorted(ref)], 6)))


def run_stripe(case, rec, nh):
    l, axis, im, form, tt = case[1:6]
    m = MATS[im]
    p, q, N = 1.0, 0.7, 24
    bv = {"sq": ((p, 0), (0, p)), "rect": ((p, 0), (0, q)), "rot": ((p, 0), (0, p)), "rotrect": ((p, 0), (0, q)), "obl": ((p, 0), (0.35, q))}[l]
    n = nn()
    prof = pattern(["L", m[0], m[1]], (N, 1))
    nx = 9
    other = 12
    disc = (N, other)
    H = np.array([(i, 0) for i in range(-(nx // 2), nx // 2 + 1)]).T
    t = np.zeros((2,) + disc)
    deg = {"rot": 33.0, "rotrect": -71.0}.get(l, 0.0)
    if l == "obl":
        # stripes parallel to the second vector; their normal is the first reciprocal vector
        v = np.array(bv[1]) / np.hypot(*bv[1])
        t += v[:, None, None]
        period = p * v[1]  # distance between stripes
        phi0 = math.degrees(math.atan2(-v[0], v[1]))
    else:
        t[1] = 1
        period, phi0 = p, 0.0
    e = np.repeat(prof, other, axis=1)
    if axis:
        e = e.T.copy()
        t = np.swapaxes(t, 1, 2).copy()
        bv = (bv[1], bv[0])
        disc = disc[::-1]
        H = H[::-1].copy()
    if deg:
        bv, R = rot(bv, deg)
        t = np.einsum("ij,jxy->ixy", R, t)
    f1 = "original" if form == "original" else "tangent"
    for wl, ang in EXC:
        tag = f"stripes on {l}, axis {axis}, {m}, {form}/{tt} {wl} {ang}: "
        lat = n.Lattice(period, discretization=N)
        s1 = n.Simulation([lat.Layer("i", epsilon=1), lat.Layer("g", thickness=0.3, epsilon=n.backend.array(prof)), lat.Layer("o", epsilon=2.0)], plane_wave(wl, ang), nh=nx, formulation=f1)
        ref = obs(s1)
        s2 = sim(bv, disc, e, wl, [ang[0], ang[1] + deg + phi0, ang[2]], form, tt, t, nh, H=n.backend.array(H))
        got = obs(s2, perm=lambda h: (h[axis], 0))
        same(rec, got, ref, tag + "compared with the 1D grating", tol=1e-7)
        rec.outcome(tag, tuple(np.round([ref[h][0] for h in sorted(ref)], 6)))


def run_field(case, rec):
    """Automatic fields are tangent to straight interfaces and of unit length when asked to be."""
    l, tt, k = case[1:]
    n = nn()
    bv = LATS[l]
    for disc in ((24, 20), (16, 33), (70, 66)):
        for axis in (0, 1):
            x = np.arange(disc[axis]) / disc[axis]
            prof = np.where((x > 0.2) & (x < 0.6), 4.0, 1.0) + 0j
            e = np.repeat(prof[:, None], disc[1], 1) if axis == 0 else np.repeat(prof[None, :], disc[0], 0)
            lat = n.Lattice(bv, discretization=disc)
            lay = lat.Layer("g", thickness=0.1, epsilon=n.backend.array(e), tangent_field_type=tt)
            h, _ = lat.get_harmonics(9, sort=True)
            v = np.array(bv[1 - axis], float)
            v = v / np.linalg.norm(v)
            for norm in (True, False):
                t = np.array([tonp(c) for c in lay.get_tangent_field(h, normalize=norm)])
                tag = f"{l} {disc} stripes along axis {1 - axis}, {tt}, normalize={norm}: "
                if not rec.check(t.shape == (2,) + disc, tag + f"shape {t.shape}"):
                    continue
                m = np.linalg.norm(t, axis=0)
                cross = abs(t[0] * v[1] - t[1] * v[0])
                rec.check(np.all(cross <= 1e-7 * np.maximum(m.max(), 1) + 1e-9) if not norm else np.all(cross[m > 0] <= 1e-5) or tangent_ok(t, v), tag + f"not along the interfaces (largest normal component {cross.max():.3g})")
                if norm:
                    rec.check(np.all(abs(m - 1) < 1e-5), tag + f"length between {m.min()} and {m.max()}")
                else:
                    rec.check(abs(m.max() - 1) < 1e-5, tag + f"largest length {m.max()}")
                rec.step()
                rec.trace()
        # the kind of field asked for, whatever that of the layer
        e = pattern(["L", 4.0, 1.2], disc)
        lat = n.Lattice(bv, discretization=disc)
        h, _ = lat.get_harmonics(9, sort=True)
        ls = {q: lat.Layer("g", thickness=0.1, epsilon=n.backend.array(e), tangent_field_type=q) for q in AUTO}
        ls["copy"] = ls["fft"].copy()
        ls["copy"].tangent_field_type = "opt"
        for norm in (True, False):
            want = np.array([tonp(c) for c in ls[tt].get_tangent_field(h, normalize=norm)])
            for q, lay in ls.items():
                got = np.array([tonp(c) for c in lay.get_tangent_field(h, normalize=norm, type=tt)])
                rec.close(got, want, f"{l} {disc}, normalize={norm}: field of type {tt} of a layer of type {lay.tangent_field_type} ({q})", tol=1e-9)
                rec.step()
        given = lat.Layer("g", thickness=0.1, epsilon=n.backend.array(e), tangent_field=swirl(disc), tangent_field_type=tt)
        rec.close(np.array([tonp(c) for c in given.get_tangent_field(h)]), swirl(disc), f"{l} {disc}: given field", tol=1e-12)
        try:
            ls[tt].get_tangent_field(h, type="normal")
            rec.fail(f"{l} {disc}: unknown type of tangent field accepted")
        except ValueError:
            rec.step()


def tangent_ok(t, v):
    # where the field vanishes the unit field is (1, 0) by convention
    cross = abs(t[0] * v[1] - t[1] * v[0])
    bad = cross > 1e-5
    return bool(np.all((abs(t[0][bad] - 1) < 1e-9) & (abs(t[1][bad]) < 1e-9)) and bad.mean() < 0.3)
