"""C03: a layer copy behaves as an independent layer with the same parameters."""

import itertools

import numpy as np

from ..lib import epsilon, lattice, nn, plane_wave
from .c01 import flat

ID = "C03"
BOUND = {
    "quick": "every sequence of up to 4 operations (copy of the original, copy of the copy, assign material or "
    "thickness to original or copy, simulate one of 6 stacks, simulate again after a reset), then all 6 stacks, "
    "for 7 kinds of layers (2 of them with tangent fields assigned instead of thicknesses); every stack of 3 of 2 layers and their copies that are given no name",
    "thorough": "up to 5 operations",
}
RULE = (
    "state: parameters of every layer in the reference model (a dictionary); transition: one operation on the real "
    "layers; trace: one operation sequence; efficiencies per order, fields and stress are compared with a simulation "
    "of freshly created layers with the parameters of the model"
)
OPS = ["cp", "cp2", "eo", "ec", "to", "tc", "sim0", "sim1", "sim2", "again"]


def ops(kind):
    """Layers with tangent fields: these are changed instead of the thickness."""
    f = {"to": "fo", "tc": "fc"} if "F" in KINDS[kind] else {}
    return [f.get(o, o) for o in OPS]


STACKS = [["o", "c"], ["c", "o"], ["c"], ["o", "s", "c"], ["d", "o", "c"], ["c", "s", "d"], ["o"]]
KINDS = {
    "2d": dict(lat="sq", disc=10, E=[["L", 4, 1], ["blk", 2.5, 1.3]], form="original"),
    "uniform": dict(lat="sq", disc=10, E=[3.0, 1.7], form="original"),
    "mixed": dict(lat="rect", disc=10, E=[["L", 4, 1], 2.3], form="original"),
    "aniso": dict(lat="obl", disc=10, E=[
        {"tensor": [[["L", 4, 1], ["L", 0.5, 0], 0], [["L", 0.3, 0], ["L", 3, 1], 0], [0, 0, ["gr", 2, 1.2]]]},
        ["blk", 2.5, 1.3]], form="original"),
    "field": dict(lat="rect", disc=8, E=[["L", 4, 1], ["blk", 2.5, 1.3]], form="tangent", F=["A", "B"]),
    "type": dict(lat="rect", disc=8, E=[["L", 4, 1], ["blk", 2.5, 1.3]], form="jones", F=["opt", "fft"]),
    "1d": dict(lat="1d", disc=12, E=[["L", 4, 1], ["sx", 2.5, 1.3]], form="tangent"),
}
T = [0.3, 0.21]


class World:
    def __init__(self, kind, model=None):
        self.k = KINDS[kind]
        self.lat = lattice(self.k["lat"], self.k["disc"])
        self.layers = {}
        self.model = {}
        self.sim = None
        if model is None:
            self.new("o", (0, 0, 0))
            self.new("s", ("gap",))

    def eps(self, i):
        v = epsilon(self.k["E"][i], self.lat.discretization)
        return nn().backend.array(v, dtype=complex)

    def tangent(self, i):
        f = self.k.get("F", [None, None])[i]
        if f not in ("A", "B"):
            return dict(tangent_field_type=f) if f else {}
        nx, ny = self.lat.discretization
        x, y = np.meshgrid(np.arange(nx) / nx, np.arange(ny) / ny, indexing="ij")
        t = [1.0 + 0.3 * np.cos(6.283 * x), 0.5 * np.sin(6.283 * y)]
        return dict(tangent_field=t if f == "A" else t[::-1])

    def new(self, name, par):
        if par == ("gap",):
            self.layers[name] = self.lat.Layer(name, thickness=0.1, epsilon=1.4)
        else:
            self.layers[name] = self.lat.Layer(name, thickness=T[par[0]], epsilon=self.eps(par[1]), **self.tangent(par[2]))
        self.model[name] = par

    def simulate(self, names):
        st = [self.lat.Layer("Superstrate", epsilon=1)] + [self.layers[n] for n in names]
        st += [self.lat.Layer("Substrate", epsilon=2)]
        self.sim = nn().Simulation(st, plane_wave(1.1, (20, 30, 40)), nh=5, formulation=self.k["form"])
        self.names = names
        self.flat0 = self.all_uniform()
        return self.sim

    def all_uniform(self):
        """A stack of uniform layers only gets a single harmonic, decided at creation."""
        return all(
            self.model[n] == ("gap",) or not isinstance(self.k["E"][self.model[n][1]], list) for n in self.names
        )

    def comparable(self):
        return self.all_uniform() == self.flat0


def observe(sim):
    n = len(sim.layers)
    out = list(sim.diffraction_efficiencies(orders=True))
    for i in range(1, n - 1):
        out.append(sim.get_field_fourier(i, z=0.07))
        out.append(sim.get_z_stress_tensor_integral(i, z=0.05))
    return flat(out)


_ref = {}


def reference(kind, model, names):
    key = (kind, tuple((n, model[n]) for n in names))
    if key not in _ref:
        w = World(kind, model={})
        for n in names:
            w.new(n, model[n])
        _ref[key] = observe(w.simulate(names))
    return _ref[key]


def available(w, names):
    return all(n in w.layers for n in names)


def step(w, op):
    """Apply one operation; False if it is not enabled."""
    if op in ("cp", "cp2"):
        src, dst = ("o", "c") if op == "cp" else ("c", "d")
        if src not in w.layers or dst in w.layers:
            return False
        w.layers[dst] = w.layers[src].copy(name=dst)
        w.model[dst] = w.model[src]
    elif op in ("eo", "ec", "to", "tc", "fo", "fc"):
        n = op[1]
        if n not in w.layers:
            return False
        t, e, f = w.model[n]
        if op[0] == "e":
            w.model[n] = (t, 1 - e, f)
            w.layers[n].epsilon = w.eps(1 - e)
        elif op[0] == "f":
            w.model[n] = (t, e, 1 - f)
            for k, v in w.tangent(1 - f).items():
                setattr(w.layers[n], k, v)
        else:
            w.model[n] = (1 - t, e, f)
            w.layers[n].thickness = T[1 - t]
        if w.sim is not None:
            w.sim.reset("all")
    elif op.startswith("sim"):
        names = STACKS[int(op[3:])]
        if not available(w, names):
            return False
        w.simulate(names)
        return "observe"
    elif op == "again":
        if w.sim is None:
            return False
        w.sim.reset("all")
        return "observe"
    return True


def cases(tier):
    d = 4 if tier == "quick" else 5
    out = []
    for kind in KINDS:
        for n in range(1, 3):
            for p in itertools.product(ops(kind), repeat=n):
                out.append([kind, list(p), 0])
        for p in itertools.product(ops(kind), repeat=2):
            if p[0] not in ("cp2", "ec", "tc", "fc", "again", "sim0", "sim1", "sim2"):
                out.append([kind, list(p), d - 2 - (kind == "type" and tier == "quick")])
        out.append([kind, "names", 0])
    return out


def default_names(kind, rec):
    """Copies that are given no name: copies of different layers differ in name from each other and from the originals."""
    for names in itertools.product(("o", "s", "o copy", "s copy"), repeat=3):
        if len(set(names)) < 3:
            continue
        w = World(kind)
        for n in ("o", "s"):
            w.layers[n + " copy"] = w.layers[n].copy()
            w.model[n + " copy"] = w.model[n]
        rec.check(len({l.name for l in w.layers.values()}) == len(w.layers), f"{kind}: names {[l.name for l in w.layers.values()]}")
        try:
            w.simulate(list(names))
        except ValueError as e:
            rec.fail(f"{kind}: stack {names} of layers named {[w.layers[n].name for n in names]}: {e}")
            continue
        if w.comparable():
            rec.close(observe(w.sim), reference(kind, w.model, list(names)), f"{kind}: stack {names} of copies without a name", tol=1e-8)
        rec.step()
        rec.trace()
        rec.state(kind, "names", names)


def run(case, rec):
    kind, prefix, more = case
    if prefix == "names":
        return default_names(kind, rec)
    for rest in itertools.product(ops(kind), repeat=more):
        seq = prefix + list(rest)
        if more and rest[-1] == "again":
            continue
        w = World(kind)
        ok = True
        for n, op in enumerate(seq):
            r = step(w, op)
            if r is False:
                ok = False
                break
            rec.step()
            rec.state(kind, tuple(sorted(w.model.items())), w.sim is not None and tuple(w.names))
            if r == "observe" and w.comparable():
                rec.close(observe(w.sim), reference(kind, w.model, w.names),
                          f"{kind}: stack {w.names} after {seq[: n + 1]}", tol=1e-8)
        if not ok:
            continue
        if w.sim is not None and w.comparable():
            rec.close(observe(w.sim), reference(kind, w.model, w.names), f"{kind}: stack {w.names} after {seq}", tol=1e-8)
        for names in STACKS:
            if available(w, names):
                w.simulate(names)
                rec.close(observe(w.sim), reference(kind, w.model, names), f"{kind}: stack {names} after {seq}", tol=1e-8)
                rec.step()
        rec.trace()
        rec.outcome(kind, tuple(sorted(w.model.items())))
