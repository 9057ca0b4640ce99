"""C27: results stay finite and physical for layers of any thickness and for many harmonics."""

import itertools

import numpy as np

from ..core import tonp
from ..lib import epsilon, fields, flux_z, nn, simulation

ID = "C27"
CONF = [
    dict(lat="sq", nh=9),
    dict(lat="sq", nh=49, disc=24),
    dict(lat="hex", nh=19, disc=18),
    dict(lat="1d", nh=5, disc=16),
    dict(lat="1d", nh=41, disc=64),
    dict(lat="1d", nh=41, disc=64, form="tangent"),
    dict(lat="obl", nh=25, disc=20, trunc="parallelogrammic"),
    dict(lat="sq", nh=21, disc=20, form="pol", tf=1),
    dict(lat="sq", nh=21, disc=20, form="tangent", tf=1),
]
LOSSLESS = {"pat": ["L", 4, 1], "hole": ["blk", 1, 6], "smooth": ["gr", 3, 2], "uni": 3.0}
LOSSY = {"lossy": ["L", [4, 0.5], [1.5, 0.1]], "metal": ["blk", [-8, 1], [-2, 0.4]], "luni": {"c": [3, 0.4]}}
THICK = [0.0, 1e-9, 1e-3, 0.1, 1.0, 7.3, 100.0, 1000.0, 1e4, 1e6]
BOUND = {
    "quick": "9 lattice/formulation settings (up to 49 harmonics) x 7 layers x 10 thicknesses (0 to a million wavelengths) x 2 exterior pairs (total internal reflection) x 2 excitations; "
    "alone, twice, and between two others; fields at 5 depths",
    "thorough": "the same with 3 more excitations and 81 harmonics",
}
RULE = (
    "state: (layer, thickness); transition: one law (finite values, energy, thick absorbing layer is a half space, thin layer is absent, "
    "fields bounded and continuous); trace: one simulation"
)
EXC = [[0.83, [0, 0, 30]], [1.05, [50, 35, 70]]]
EXT = [[1.0, 2.25], [4.0, 1.0]]


def cases(tier):
    exc = EXC + ([[0.6, [20, 0, 0]], [2.7, [70, 120, 45]], [0.4, [10, 10, 90]]] if tier == "thorough" else [])
    out = []
    for c, m, e, x in itertools.product(range(len(CONF)), list(LOSSLESS) + list(LOSSY), range(2), exc):
        out.append([c, m, e, x])
    if tier == "thorough":
        out += [[dict(lat="sq", nh=81, disc=32), m, e, x] for m in list(LOSSLESS) + list(LOSSY) for e in range(2) for x in exc]
    return out


def run(case, rec):
    c, m, ei, (wl, ang) = case
    C = CONF[c] if isinstance(c, int) else c
    e = {**LOSSLESS, **LOSSY}[m]
    form = C.get("form", "original")
    exact = form == "original" or C["lat"] == "1d"
    e1, e2 = EXT[ei]

    def sim(stack):
        s = simulation(dict(C, wl=wl, ang=ang, stack=[[0.0, e1]] + stack + [[0.0, e2]]))
        if C.get("tf"):
            x = np.arange(s.lattice.discretization[0]) / s.lattice.discretization[0]
            f = (1 + 0.5 * np.sin(2 * np.pi * x))[:, None] * np.ones(s.lattice.discretization)
            for l in s.layers:
                l.tangent_field = [np.cos(f), np.sin(f)]
        rec.trace()
        return s

    tag = f"{C['lat']} nh={C['nh']} {form} {m} ext={EXT[ei]} wl={wl} angles={ang}"
    last = None
    for d in THICK:
        for where in ("alone", "twice", "between"):
            if where != "alone" and (d in (1e-9, 7.3, 1e4) or C["nh"] > 25):
                continue
            st = {"alone": [[d, e]], "twice": [[d, e], [0.2, 2.0], [d, e]], "between": [[0.3, 2.5], [d, e], [0.4, 1.3]]}[where]
            t = f"{tag} {where} thickness {d}"
            s = sim(st)
            R, T = [tonp(v) for v in s.diffraction_efficiencies(orders=True)]
            ok = rec.check(np.all(np.isfinite(R)) and np.all(np.isfinite(T)), f"{t}: efficiencies not finite")
            if not ok:
                continue
            if exact:
                rec.check(R.min() > -1e-8 and T.min() > -1e-8, f"{t}: negative efficiencies {R.min()}, {T.min()}")
            if m in LOSSLESS and exact:
                rec.close(R.sum() + T.sum(), 1.0, f"{t}: R + T", tol=1e-7 if d < 1e3 else 1e-5)
            elif exact:
                rec.check(R.sum() + T.sum() < 1 + 1e-8, f"{t}: R + T = {R.sum() + T.sum()}")
            # fields
            i = len(st) // 2 + 1 if where == "between" else 1
            if where == "between":
                i = 2
            F = []
            for k in (0, 0.25, 0.5, 0.9, 1):
                E, H = fields(s, i, d * k)
                fin = np.all(np.isfinite(E)) and np.all(np.isfinite(H))
                rec.check(fin, f"{t}: fields not finite at {k} of the thickness")
                F.append((E, H))
            prev = fields(s, i - 1, st[i - 2][0] if i > 1 else 0.0)
            nxt = fields(s, i + 1, 0.0)
            for (a, b, w) in ((prev, F[0], "first"), (F[-1], nxt, "last")):
                sc = max(1.0, np.abs(a).max(), np.abs(b).max())
                for q in (0, 1):
                    rec.close(b[q][:2], a[q][:2], f"{t}: continuity at its {w} interface", tol=1e-6, scale=sc)
            if m in LOSSY and exact:
                fl = [flux_z(*f) for f in F]
                rec.check(all(a >= b - 1e-7 for a, b in zip(fl, fl[1:])), f"{t}: power grows along an absorbing layer {fl}")
            rec.step(12)
            rec.state(case, where, d)
            if where == "alone":
                if d == 0.0:
                    R0 = R
                    T0 = T
                    s0 = simulation(dict(C, wl=wl, ang=ang, stack=[[0.0, e1], [0.0, np.float64(2.0)], [0.0, e2]]))
                    del s0
                    direct = simulation(dict(C, wl=wl, ang=ang, stack=[[0.0, e1], [0.0, ["one", e2, e2]], [0.0, e2]]))
                    Rd, Td = [tonp(v) for v in direct.diffraction_efficiencies(orders=True)]
                    if Rd.shape == R.shape:
                        rec.close(R, Rd, f"{t}: absent layer", tol=1e-7)
                        rec.close(T, Td, f"{t}: absent layer", tol=1e-7)
                if d == 1e-9:
                    rec.close(R, R0, f"{t}: vanishing thickness", tol=1e-6)
                    rec.close(T, T0, f"{t}: vanishing thickness", tol=1e-6)
                if m in LOSSY and d >= 100:
                    rec.check(np.abs(T).max() < 1e-8, f"{t}: transmission {np.abs(T).max()}")
                    if last is not None:
                        rec.close(R, last, f"{t}: half space", tol=1e-8)
                    last = R
    rec.outcome(np.round(R.sum(), 6))
