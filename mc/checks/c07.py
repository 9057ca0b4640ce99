"""C07: equivalent descriptions of the same structure give the same physics."""

import math

import numpy as np

from ..lib import LATS, epsilon, fields, harm, nn, plane_wave, _np
from ..core import tonp

ID = "C07"
BASES = {
    "sq": dict(bv=LATS["sq"], disc=(8, 8), nh=9, wl=1.1, ang=(20, 30, 40), eps=[["L", 4, 1], 2.1, ["gr", [3, 0.2], 1.5]], d=[0.3, 0.2, 0.25], ext=(1.0, 2.0)),
    "obl": dict(bv=LATS["obl"], disc=(14, 14), nh=13, wl=0.83, ang=(35, 80, 90), eps=[["L", [4, 0.3], 1], ["blk", 3, 1.5]], d=[0.3, 0.35], ext=(1.3, 2.0)),
    "rect": dict(bv=LATS["rect"], disc=(8, 12), nh=7, wl=0.9, ang=(0, 0, 25), eps=[["L", [-5, 0.3], 1]], d=[0.3], ext=(1.0, [2.0, 0.2])),
    "1d": dict(bv=1.0, disc=(16, 1), nh=7, wl=0.83, ang=(25, 15, 30), eps=[["L", [4, 0.2], 1], 1.9], d=[0.3, 0.2], ext=(1.2, 2.0)),
    "1dt": dict(bv=1.0, disc=(16, 1), nh=7, wl=0.83, ang=(25, 15, 30), eps=[["L", [4, 0.2], 1], 1.9], d=[0.3, 0.2], ext=(1.2, 2.0), form="tangent"),
    "hex": dict(bv=LATS["hex"], disc=(14, 14), nh=13, wl=0.83, ang=(15, 5, 60), eps=[["gr", 3, 1]], d=[0.4], ext=(1.0, 1.0)),
    "par": dict(bv=LATS["sq"], disc=(10, 8), nh=9, wl=1.1, ang=(20, 30, 40), eps=[["L", 4, 1]], d=[0.3], ext=(1.0, 2.0), trunc="parallelogrammic"),
}
MOVES2 = ["roll10", "roll03", "scale", "rot", "swap", "negx", "negy", "shear", "mirror", "epsscale", "angles", "perm", "super", "theta", "nhplus"]
MOVES1 = ["roll10", "scale", "mirror", "epsscale", "angles", "perm", "super", "theta", "to2d", "negk"]
BOUND = {
    "quick": "7 base structures; every sequence of up to 2 moves out of 15 (2D) or 10 (1D)",
    "thorough": "every sequence of up to 3 moves",
}
RULE = (
    "state: a description (basis, pattern arrays, harmonics, angles, lengths); transition: one move of a symmetry "
    "(translation, rotation, mirror, change of basis, scaling, supercell, reordering, angle aliasing, 1D as 2D); trace: one "
    "real simulation of the description, compared order by order with the base (efficiencies, and rotation "
    "invariants of the fields in an inner layer)"
)
ASSUMPTIONS = ["'original' formulation in 2D: the automatic tangent fields are not translation invariant"]


def base(b):
    D = dict(BASES[b])
    disc = D["disc"]
    c = lambda e: complex(*e) if isinstance(e, (list, tuple)) and not isinstance(e[0], str) else e
    D["one"] = np.ndim(D["bv"]) == 0
    D["eps"] = [epsilon(e, disc) if isinstance(e, list) else c(e) for e in D["eps"]]
    D["ext"] = [c(e) for e in D["ext"]]
    D["form"] = D.get("form", "original")
    D["trunc"] = D.get("trunc", "circular")
    D["H"] = None
    # base order of each order (h1, h2) of the description: integer matrix
    D["M"] = np.eye(2, dtype=int)
    D["sup"] = 1
    D["efac"] = 1.0
    D["tf"] = None
    return D


def orders(D):
    """Harmonics of the description, explicit."""
    if D["H"] is None:
        lat = nn().Lattice(D["bv"], discretization=D["disc"], truncation=D["trunc"])
        h, _ = lat.get_harmonics(D["nh"], sort=True)
        D["H"] = np.asarray(_np(h)).astype(int)
    return D["H"]


def remap(D, M):
    """h_new = M h_old"""
    D["M"] = D["M"] @ np.round(np.linalg.inv(M)).astype(int)
    if D["H"] is not None:
        D["H"] = M @ D["H"]


def arrays(D, f):
    D["eps"] = [f(e) if np.ndim(e) else e for e in D["eps"]]


def move(D, m):
    D = dict(D)
    two = not D["one"]
    bv = D["bv"]
    th, ph, ps = D["ang"]
    if m.startswith("roll"):
        s = (int(m[4]), int(m[5]))
        arrays(D, lambda e: np.roll(e, s, axis=(0, 1)))
    elif m == "scale":
        s = 1.7
        D["bv"] = bv * s if not two else tuple(tuple(c * s for c in v) for v in bv)
        D["wl"] *= s
        D["d"] = [d * s for d in D["d"]]
    elif m == "epsscale":
        s = 1.44
        D["eps"] = [e * s for e in D["eps"]]
        D["ext"] = [e * s for e in D["ext"]]
        D["wl"] *= math.sqrt(s)
        D["efac"] *= 1 / math.sqrt(s)
    elif m == "rot":
        a = 0.4
        R = np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])
        D["bv"] = tuple(tuple(float(c) for c in R @ np.array(v)) for v in bv)
        D["ang"] = (th, ph + math.degrees(a), ps)
    elif m == "swap":
        D["bv"] = (bv[1], bv[0])
        D["disc"] = D["disc"][::-1]
        arrays(D, lambda e: e.T.copy())
        remap(D, np.array([[0, 1], [1, 0]]))
    elif m in ("negx", "negy"):
        k = 0 if m == "negx" else 1
        D["bv"] = tuple(tuple(-c for c in v) if i == k else tuple(v) for i, v in enumerate(bv))
        arrays(D, lambda e: np.roll(np.flip(e, k), 1, axis=k))
        M = np.eye(2, dtype=int)
        M[k, k] = -1
        remap(D, M)
    elif m == "shear":
        # r = u a1 + v a2 = (u - v) a1 + v (a1 + a2)
        if D["disc"][0] != D["disc"][1] or D["trunc"] != "circular":
            return None
        D["bv"] = (bv[0], tuple(x + y for x, y in zip(*bv)))
        N = D["disc"][0]
        I, J = np.meshgrid(np.arange(N), np.arange(N), indexing="ij")
        arrays(D, lambda e: e[(I + J) % N, J])
        remap(D, np.array([[1, 0], [1, 1]]))
    elif m == "mirror":  # x -> -x of the whole scene
        D["ang"] = (th, 180 - ph, -ps)
        if two:
            D["bv"] = tuple((-v[0], v[1]) for v in bv)
        else:
            arrays(D, lambda e: np.roll(np.flip(e, 0), 1, axis=0))
            remap(D, np.array([[-1, 0], [0, 1]]))
    elif m == "negk":  # rotation by 180 degrees of the whole scene
        D["ang"] = (th, ph + 180, ps)
        arrays(D, lambda e: np.roll(np.flip(e, 0), 1, axis=0))
        remap(D, np.array([[-1, 0], [0, 1]]))
    elif m == "angles":
        D["ang"] = (th, ph - 360, ps + 180)
    elif m == "theta":
        D["ang"] = (-th, ph + 180, ps + 180)
    elif m == "perm":
        H = orders(D)
        n = H.shape[1]
        D["H"] = H[:, [(5 * i + 3) % n if math.gcd(5, n) == 1 else n - 1 - i for i in range(n)]]
    elif m == "super":
        H = orders(D)
        if D["sup"] > 1 or D["tf"] is not None:
            return None
        D["sup"] = 2
        M = np.array([[2, 0], [0, 1]])
        D["bv"] = bv * 2 if not two else (tuple(2 * c for c in bv[0]), tuple(bv[1]))
        D["disc"] = (2 * D["disc"][0], D["disc"][1])
        if D["disc"][0] > 60:
            return None
        arrays(D, lambda e: np.concatenate([e, e], 0))
        D["H"] = M @ H
        D["M"] = D["M"].astype(float) @ np.linalg.inv(M)
    elif m == "to2d":
        if D["sup"] > 1:
            return None
        H = orders(D)
        p = float(bv)
        D["one"] = False
        D["bv"] = ((p, 0.0), (0.0, 0.6 * p))
        N = D["disc"][0]
        D["disc"] = (N, N)
        arrays(D, lambda e: np.repeat(e, N, axis=1))
        if D["form"] == "tangent":
            D["tf"] = 1
    elif m == "nhplus":
        # as many harmonics as the truncation kept, or a few more than that: same set
        if D["H"] is not None:
            return None
        n = orders(dict(D)).shape[1]
        D["nh"] = n
    return D


def simulate(D):
    n = nn()
    a = n.backend.array
    H = None if D["H"] is None else a(np.ascontiguousarray(D["H"]).astype(int))
    lat = n.Lattice(D["bv"], discretization=D["disc"], truncation=D["trunc"], harmonics_array=H)
    ls = [lat.Layer("in", epsilon=D["ext"][0])]
    for i, (d, e) in enumerate(zip(D["d"], D["eps"])):
        tf = None
        if D["tf"] and np.ndim(e):
            tf = a(np.array([np.zeros(D["disc"]), np.ones(D["disc"])], complex))
        ls.append(lat.Layer(f"l{i}", thickness=d, epsilon=a(np.array(e, complex)), tangent_field=tf))
    ls.append(lat.Layer("out", epsilon=D["ext"][1]))
    return n.Simulation(ls, plane_wave(D["wl"], D["ang"]), nh=D["nh"], formulation=D["form"])


def observe(D):
    sim = simulate(D)
    H = harm(sim)
    M = D["M"]
    lab = [tuple(int(round(x)) for x in M @ np.array(h)) for h in H]
    R, T = [tonp(v) for v in sim.diffraction_efficiencies(orders=True)]
    obs = {}
    cols = [R, T]
    for i in (1, 0, len(sim.layers) - 1):
        E, Hf = fields(sim, i, 0.3 * D["d"][0] if i == 1 else 0)
        E = E / D["efac"]
        cols += [abs(E[0]) ** 2 + abs(E[1]) ** 2, abs(E[2]) ** 2, abs(Hf[0]) ** 2 + abs(Hf[1]) ** 2, abs(Hf[2]) ** 2]
    cols = np.array(cols)
    for k, l in enumerate(lab):
        obs[l] = cols[:, k]
    return obs


_ref = {}


def cases(tier):
    out = []
    for b in BASES:
        ms = MOVES1 if b.startswith("1d") else MOVES2
        for x in ms:
            out.append([b, [x]])
        for x in ms:
            for y in ms:
                out.append([b, [x, y]])
        if tier == "thorough":
            out += [[b, [x, y, z]] for x in ms for y in ms for z in ms]
    return out


def run(case, rec):
    b, seq = case
    D = base(b)
    if b not in _ref:
        _ref[b] = observe(base(b))
    ref = _ref[b]
    for m in seq:
        if m not in (MOVES1 if D["one"] else MOVES2) and m not in ("angles", "theta"):
            rec.skip("move not enabled")
            return
        D = move(D, m)
        if D is None:
            rec.skip("move not enabled")
            return
        rec.step()
    obs = observe(D)
    rec.trace()
    rec.state(b, repr(sorted((k, tonp(v).tolist() if not isinstance(v, (str, type(None))) else v) for k, v in D.items() if k not in ("eps",))), [tonp(e).tolist() for e in D["eps"]])
    rec.outcome(b, tuple(sorted(obs)))
    if not rec.check(set(obs) == set(ref), f"{b} after {seq}: orders {sorted(set(obs) ^ set(ref))[:6]} differ"):
        return
    keys = sorted(ref)
    rec.close(np.array([obs[k] for k in keys]), np.array([ref[k] for k in keys]),
              f"{b} after {seq} (rows {keys}, columns R, T, |Et|2, |Ez|2, |Ht|2, |Hz|2 of layers 1, first, last)", tol=1e-7)
