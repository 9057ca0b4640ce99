"""C06: scattering matrices compose; equivalent stacks answer the same."""

import itertools

import numpy as np

from ..lib import fields, harm, nn, simulation, _np
from ..core import tonp

ID = "C06"
BASES = {
    "a": dict(lat="sq", disc=10, nh=5, wl=1.1, ang=[20, 30, 40], stack=[[0, 1], [0.3, ["L", 4, 1]], [0.2, 2.1], [0.25, ["gr", 3, 1.5]], [0, 2]]),
    "b": dict(lat="obl", disc=[12, 10], nh=7, wl=0.83, ang=[35, 80, 90],
              stack=[[0, 1.3], [0.3, ["L", [4, 0.3], 1]], [0.35, ["blk", [-6, 0.4], 1.5]], [0, [2, 0.1]]]),
    "c": dict(lat="1d", disc=20, nh=9, wl=0.83, ang=[35, 15, 10], form="tangent",
              stack=[[0, 1], [0.3, ["L", 6, 1]], [0.1, 2.1], [0, 2]]),
    "d": dict(lat="rect", disc=10, nh=7, wl=1.1, ang=[20, 30, 40], form="tangent", fft=1,
              stack=[[0, 1], [0.3, ["L", 4, 1]], [0.2, 2.1], [0, 2]]),
    "e": dict(lat="sq", disc=10, nh=7, wl=1.1, ang=[0, 0, 40], form="pol", fft=1, stack=[[0, 1], [0.3, ["L", 4, 1]], [0.15, ["L", 4, 1]], [0, 2]]),
    "f": dict(lat="sq", disc=10, nh=1, wl=1.1, ang=[50, 10, 25], stack=[[0, 1.5], [0.3, 4], [0.2, [2, 1]], [0, 2]]),
    "g": dict(lat="sq", disc=10, nh=5, wl=1.1, ang=[50, 10, 25], stack=[[0, 1.5], [0, 2]]),
}
for _b in BASES.values():  # complex scalars as {"c": ...}
    _b["stack"] = [[d, {"c": e} if isinstance(e, list) and not isinstance(e[0], str) else e] for d, e in _b["stack"]]
BOUND = {
    "quick": "7 base stacks (all formulations, 1D and 2D); breadth-first over the rewriting moves (cut any inner layer at "
    "1/4 or 1/2, insert a layer of zero thickness of 3 kinds at any interface, change the depth of the incidence or exit "
    "layer) to depth 2; on every stack all pairs of indices i<=k<=j for the composition law, and the reversed stack",
    "thorough": "depth 3",
}
RULE = (
    "state: a stack description; transition: one rewriting move; trace: one real simulation per state, compared with the "
    "base stack (total S-matrix, efficiencies per order, fields at the same physical depths) and checked for the "
    "composition law of its partial S-matrices"
)


def moves(stack, depth):
    """Equivalent stacks; keeps, per layer, the physical z of its start."""
    n = len(stack)
    out = []
    for i in range(1, n - 1):
        d, e = stack[i]
        if d:
            for f in (0.25, 0.5):
                out.append(stack[:i] + [[d * f, e], [d * (1 - f), e]] + stack[i + 1:])
    for i in range(1, n):
        for e in (3.7, ["blk", 2.7, 1.1], {"c": [-4.0, 0.5]}):
            out.append(stack[:i] + [[0.0, e]] + stack[i:])
    return out


def closure(stack, depth):
    seen = {repr(stack): 0}
    level = [stack]
    out = [(0, stack)]
    for k in range(depth):
        nxt = []
        for s in level:
            for t in moves(s, depth):
                if repr(t) not in seen:
                    seen[repr(t)] = k + 1
                    nxt.append(t)
                    out.append((k + 1, t))
        level = nxt
    return out


def cases(tier):
    out = []
    for b in BASES:
        for k, st in closure(BASES[b]["stack"], 2 if tier == "quick" else 3):
            out.append([b, st, k])
    return out


def build(b, stack, ang=None):
    sc = dict(BASES[b])
    sc["stack"] = stack
    if b in "fg":
        # a uniform stack gets one harmonic: inserted patterned layers would change that
        sc["harm"] = [[0], [0]] if b == "f" else None
        if b == "g":
            sc["harm"] = [[0, 1, -1, 0, 0], [0, 0, 0, 1, -1]]
    from ..lib import lattice, layers, plane_wave

    lat = lattice(sc["lat"], sc["disc"], harm=sc.get("harm"))
    ls = layers(lat, stack)
    if sc.get("fft"):
        for l in ls:
            l.tangent_field_type = "fft"
    return nn().Simulation(ls, plane_wave(sc["wl"], ang or sc["ang"]), nh=sc["nh"], formulation=sc.get("form", "original"))


def star(S, P):
    S = [[tonp(x) for x in r] for r in S]
    P = [[tonp(x) for x in r] for r in P]
    I = np.eye(S[0][0].shape[0])
    Q = np.linalg.inv(I - S[0][1] @ P[1][0])
    return [
        [P[0][0] @ Q @ S[0][0], P[0][1] + P[0][0] @ Q @ S[0][1] @ P[1][1]],
        [S[1][0] + S[1][1] @ P[1][0] @ Q @ S[0][0], S[1][1] @ (I + P[1][0] @ Q @ S[0][1]) @ P[1][1]],
    ]


def probes(sim, stack, total):
    """(E, H) at fixed physical depths."""
    out = []
    for z in (0.03, 0.11, 0.29, 0.41):
        if z >= total:
            continue
        z0 = 0.0
        for i, (d, e) in enumerate(stack[1:-1], 1):
            if d and z0 <= z < z0 + d:
                F = fields(sim, i, z - z0)
                out.append(np.array(F))
                break
            z0 += d
    return np.array(out)


_ref = {}


def reference(b):
    if b not in _ref:
        st = BASES[b]["stack"]
        sim = build(b, st)
        total = sum(d for d, _ in st[1:-1])
        _ref[b] = (
            tonp(sim.get_S_matrix()),
            [tonp(v) for v in sim.diffraction_efficiencies(orders=True)],
            probes(sim, st, total),
            total,
        )
    return _ref[b]


def run(case, rec):
    b, stack, k = case
    S0, eff0, F0, total = reference(b)
    tag = f"{b}: {[d for d, _ in stack]} {[e for _, e in stack]}"
    sim = build(b, stack)
    n = len(stack) - 1
    full = sim.get_S_matrix()
    rec.close(full, S0, f"S-matrix of the equivalent stack {tag}")
    for v, w, x in zip(sim.diffraction_efficiencies(orders=True), eff0, "RT"):
        rec.close(v, w, f"{x} of the equivalent stack {tag}")
    P = probes(sim, stack, total)
    if len(F0):
        rec.close(P, F0, f"fields in the equivalent stack {tag}")
    rec.state(b, stack)
    rec.trace()
    rec.step(3)
    rec.outcome(b, len(stack))
    # composition
    sub = {}
    other = build(b, stack)

    def S(i, j):
        if (i, j) not in sub:
            sub[i, j] = other.get_S_matrix(indices=(i, j))
        return sub[i, j]

    pairs = [(i, j, m) for i in range(n + 1) for j in range(i, n + 1) for m in range(i, j + 1)]
    if k == 2 and b not in ("a", "c"):
        pairs = [p for p in pairs if p[0] == 0 and p[1] == n]
    for i, j, m in pairs:
        if (i, j) == (0, n):
            rec.close(S(0, n), full, f"S(0,{n}) and total S {tag}")
        if i == j:
            D = full[0][0].shape[0]
            rec.close(S(i, i), np.array([[np.eye(D), np.zeros((D, D))], [np.zeros((D, D)), np.eye(D)]]), f"S({i},{i}) {tag}")
            continue
        rec.close(star(S(i, m), S(m, j)), S(i, j), f"S({i},{m})*S({m},{j}) is not S({i},{j}) {tag}", tol=1e-6)
        rec.step()
    # the stack upside down, with the same in-plane wavevectors
    sup, su = stack[0][1], stack[-1][1]
    if not isinstance(su, dict):
        th, ph, ps = BASES[b]["ang"]
        x = np.sin(th * np.pi / 180) * np.sqrt(sup / su)
        if abs(x) < 1:
            R = build(b, stack[::-1], (float(np.degrees(np.arcsin(x))), ph, ps)).get_S_matrix()
            rec.close([[tonp(R[1][1]), tonp(R[1][0])], [tonp(R[0][1]), tonp(R[0][0])]], full, f"reversed stack {tag}")
            rec.count("reversed_stacks")
            rec.step()
    # depth of the exterior layers: phases only
    if k <= 1 and not isinstance(stack[-1][1], dict):
        st = [[0.17, stack[0][1]]] + stack[1:-1] + [[0.4, stack[-1][1]]]
        s2 = build(b, st)
        for v, w, x in zip(s2.diffraction_efficiencies(), sim.diffraction_efficiencies(), "RT"):
            rec.close(v, w, f"{x} with exterior layers of finite depth {tag}")
        # the reference planes of the S-matrix move with the depths
        q0, qN = (tonp(s2.layers[i].eigenvalues) for i in (0, -1))
        f, g = np.exp(1j * q0 * 0.17), np.exp(1j * qN * 0.4)
        F = [[tonp(x) for x in r] for r in full]
        if stack[0][0] == 0 and stack[-1][0] == 0:
            want = [[F[0][0] * f, F[0][1] * g], [F[1][0] * f, F[1][1] * g]]
            rec.close(s2.get_S_matrix(), want, f"S-matrix with exterior layers of finite depth {tag}")
        rec.step()
    # one layer without thickness is a layer of zero thickness
    if k == 0:
        st = [[None, stack[0][1]]] + stack[1:-1] + [[None, stack[-1][1]]]
        s3 = build(b, st)
        rec.close(s3.get_S_matrix(), full, f"exterior layers without thickness {tag}")
        rec.close(fields(s3, 0, 0), fields(sim, 0, 0), f"fields with exterior layers without thickness {tag}")
        rec.step()
