"""C25: invalid requests are refused, valid ones accepted, and a refusal leaves no trace."""

import itertools

import numpy as np

from ..core import tonp
from ..lib import harm, indicator, nn

ID = "C25"
BOUND = {
    "quick": "3 backends x 3 lattices x: 48 invalid requests (layers, lattices, simulations, queries, configuration, plots), each tried in 3 states of a simulation (new, "
    "solved, with fields asked for) and followed by valid queries; formulations: 6 names x 3 lattices; resolution: every discretization from 1 to 24 in each direction x every nh from 1 to 40 and 5 user sets of "
    "harmonics; names of layers: every stack of 3 layers with names from 3 and two lattices",
    "thorough": "5 backends; discretizations to 40, nh to 90",
}
RULE = (
    "state: (simulation state, request); transition: one request, accepted or refused with an error as specified; trace: one sequence "
    "state - invalid request - valid queries, whose answers are those of a fresh simulation"
)


def cases(tier):
    be = ["numpy", "torch", "jax"] + (["scipy", "autograd"] if tier == "thorough" else [])
    out = []
    for b in be:
        for lat in ("sq", "obl", "1d"):
            for state in ("new", "solved", "fields"):
                if b == "jax" and (state != "solved" or lat == "obl") and tier == "quick":
                    continue
                out.append(["bad", b, lat, state])
    m, h = (24, 40) if tier == "quick" else (40, 90)
    for lat in ("sq", "rect", "obl", "hex"):
        for tr in ("circular", "parallelogrammic"):
            for nh in range(1, h + 1):
                out.append(["resolution", lat, tr, nh, m])
    for nh in range(1, h + 1):
        out.append(["resolution", "1d", "circular", nh, m])
    for k in range(5):
        out.append(["resolution", "sq", "user", k, m])
    out.append(["names"])
    out.append(["formulations"])
    return out


BV = {"sq": ((1.0, 0.0), (0.0, 1.0)), "rect": ((1.0, 0.0), (0.0, 0.6)), "obl": ((1.0, 0.1), (0.3, 1.2)), "hex": ((1.0, 0.0), (0.5, 3**0.5 / 2)), "1d": 1.0}
ERR = (ValueError, TypeError, AssertionError, NotImplementedError, KeyError, IndexError)


def refused(rec, f, what, kinds=ERR):
    try:
        out = f()
    except kinds:
        rec.check(True, "")
    except Exception as e:
        rec.check(False, f"{what}: raises {type(e).__name__}: {e}")
    else:
        rec.check(False, f"{what}: accepted, returns {type(out).__name__}")
    rec.step()
    rec.state(what)


def run(case, rec):
    n = nn()
    n.set_backend("numpy" if case[0] != "bad" else case[1])
    n = nn()
    if case[0] == "bad":
        _, b, lname, state = case
        n = nn()
        one = lname == "1d"

        def make(**kw):
            lat = n.Lattice(BV[lname], discretization=10)
            e = np.where(indicator("L", lat.discretization) > 0.5, 4.0, 1.0).astype(complex)
            G = lat.Layer("G", thickness=0.3, epsilon=n.backend.array(e))
            return n.Simulation([lat.Layer("a"), G, lat.Layer("b", epsilon=2.0)], n.PlaneWave(wavelength=1.2, angles=(10, 20, 30)), nh=5)

        def answers(s):
            R, T = s.diffraction_efficiencies(orders=True)
            D = [(i, j, complex(v)) for d in s.diffraction_efficiencies(orders=True, return_dict=True) for i in d for j, v in [(None, len(d[i]))] + list(d[i].items())]
            D = np.array(sorted([(i, 99 if j is None else j, v) for i, j, v in D], key=lambda x: (x[0], x[1], x[2].real)))
            return [tonp(R), tonp(T), tonp(s.get_field_fourier("G", z=0.1)), tonp(s.get_epsilon("G")), np.array([float(v) for v in s.get_z_stress_tensor_integral("G")]), D]

        ref = answers(make())
        lat = n.Lattice(BV[lname], discretization=10)
        lat2 = n.Lattice(BV[lname], discretization=10)
        pw = n.PlaneWave(wavelength=1.2)
        A = n.backend.array
        ok3 = [lat.Layer("a"), lat.Layer("x", thickness=1, epsilon=3.0), lat.Layer("b")]
        V = ValueError
        bad = {
            "negative thickness": (lambda s: lat.Layer("x", thickness=-0.1), V),
            "slightly negative thickness": (lambda s: lat.Layer("x", thickness=-1e-12), V),
            "permeability 2": (lambda s: lat.Layer("x", mu=2.0), NotImplementedError),
            "unknown truncation": (lambda s: n.Lattice(BV[lname], truncation="square"), V),
            "capitalised truncation": (lambda s: n.Lattice(BV[lname], truncation="Circular"), V),
            "same names": (lambda s: n.Simulation([lat.Layer("a"), lat.Layer("a")], pw, nh=1), V),
            "same names apart": (lambda s: n.Simulation([lat.Layer("a"), lat.Layer("b"), lat.Layer("a")], pw, nh=1), V),
            "other lattice": (lambda s: n.Simulation([lat.Layer("a"), lat2.Layer("b")], pw, nh=1), (V, AssertionError)),
            "unknown formulation": (lambda s: n.Simulation(ok3, pw, nh=1, formulation="normal"), V),
            "capitalised formulation": (lambda s: n.Simulation(ok3, pw, nh=1, formulation="Tangent"), V),
            "unknown name": (lambda s: s.get_layer("z"), V),
            "unknown name in fields": (lambda s: s.get_field_fourier("z"), V),
            "unknown name in grids": (lambda s: s.get_field_grid("z"), V),
            "unknown name in maps": (lambda s: s.get_epsilon("z"), V),
            "unknown name in stress": (lambda s: s.get_z_stress_tensor_integral("z"), V),
            "layer from elsewhere": (lambda s: s.get_layer(lat.Layer("other")), V),
            "index too large": (lambda s: s.get_layer(3), IndexError),
            "index too small": (lambda s: s.get_layer(-4), IndexError),
            "fields of index too large": (lambda s: s.get_field_fourier(3), IndexError),
            "float index": (lambda s: s.get_layer(1.0), V),
            "no index": (lambda s: s.get_layer(None), V),
            "list as index": (lambda s: s.get_layer([1]), V),
            "unknown component": (lambda s: s.get_field_grid("G", component="w"), V),
            "unknown component of E": (lambda s: s.get_Efield_grid("G", component="X"), V),
            "unknown component of H": (lambda s: s.get_Hfield_grid("G", component="xy"), V),
            "unknown field": (lambda s: s.get_field_grid("G", field="D"), V),
            "order not in the basis": (lambda s: s.get_order_index((40, 0)), (KeyError, IndexError, V)),
            "second index not in the basis": (lambda s: s.get_order_index((0, 40)), (KeyError, IndexError, V)),
            "order with three indices": (lambda s: s.get_order_index((0, 0, 0)), V),
            "order with one index": (lambda s: s.get_order_index((0,)), V),
            "empty order": (lambda s: s.get_order(s.a0, ()), V),
            "order as a float": (lambda s: s.get_order_index(0.0), V),
            "S-matrix upwards": (lambda s: s.get_S_matrix((2, 0)), V),
            "S-matrix upwards with a negative index": (lambda s: s.get_S_matrix(indices=(-1, 0)), V),
            "S-matrix beyond the last layer": (lambda s: s.get_S_matrix((0, 3)), (V, IndexError)),
            "S-matrix beyond the first layer": (lambda s: s.get_S_matrix((-4, 2)), (V, IndexError)),
            "number of harmonics not integer": (lambda s: lat.get_harmonics(7.5), V),
            "unknown backend": (lambda s: n.set_backend("cupy"), V),
            "empty backend": (lambda s: n.set_backend(""), V),
            "capitalised backend": (lambda s: n.set_backend("NumPy"), V),
            "unknown log level": (lambda s: n.set_log_level("LOUD"), (KeyError, V)),
            "lower case log level": (lambda s: n.set_log_level("debug"), (KeyError, V)),
            "harmonics without the zeroth order": (
                lambda s: n.Simulation(_with(n, lname, [[1, -1, 2], [0, 0, 0]]), pw, nh=3), V),
        }
        if one:
            for f in ("jones", "pol"):
                bad[f"{f} for a grating"] = (lambda s, f=f: n.Simulation(ok3, pw, nh=3, formulation=f), V)
            bad["circle on a grating"] = (lambda s: lat.circle((0.5, 0.5), 0.2), V)
            bad["square on a grating"] = (lambda s: lat.square((0.5, 0.5), 0.2), V)
            bad["rectangle on a grating"] = (lambda s: lat.rectangle((0.5, 0.5), (0.2, 0.1)), V)
            bad["ellipse on a grating"] = (lambda s: lat.ellipse((0.5, 0.5), (0.2, 0.1)), V)
            bad["polygon on a grating"] = (lambda s: lat.polygon([(0, 0), (1, 0), (0, 1)]), V)
        else:
            bad["single index of a bi-periodic order"] = (lambda s: s.get_order_index(1), V)

        for what, (f, kinds) in bad.items():
            s = make()
            if state != "new":
                s.solve() if state == "solved" else answers(s)
            t = f"{b}, {lname}, {state}: {what}"
            refused(rec, lambda: f(s), t, kinds)
            if state == "fields" or what.startswith(("unknown", "index", "order", "float", "S-matrix")):
                for x, y, q in zip(answers(s), ref, ("R", "T", "fields", "map", "stress", "orders in dictionaries")):
                    rec.close(x, y, f"{t}: {q} after the refusal", tol=1e-12)
                rec.check(n.get_backend() == b, f"{t}: backend is {n.get_backend()} after the refusal")
            rec.trace()
        # the closest valid requests
        s = make()
        for what, f in {
            "zero thickness": lambda: lat.Layer("x", thickness=0),
            "no thickness": lambda: lat.Layer("x", thickness=None),
            "last index": lambda: s.get_field_fourier(2),
            "last negative index": lambda: s.get_field_fourier(-3),
            "layer": lambda: s.get_field_fourier(s.layers[1]),
            "S-matrix of one layer": lambda: s.get_S_matrix((1, 1)),
            "order as a list": lambda: s.get_order_index([0, 0]),
            "integer as a float": lambda: lat.get_harmonics(7.0),
        }.items():
            try:
                f()
                rec.check(True, "")
            except Exception as e:
                rec.check(False, f"{b}, {lname}: {what}: refused with {type(e).__name__}: {e}")
            rec.step()
        rec.outcome(b, lname)
    elif case[0] == "resolution":
        _, lname, tr, nh, m = case
        H = None
        if tr == "user":
            H = [[[0], [0]], [[0, 3, -2], [0, 1, 0]], [[0, -5], [0, 0]], [[0, 0], [0, -4]], [[0, 1, -1, 2], [0, 7, 1, 0]]][nh]
        for a in range(1, m + 1):
            for c in {1, 2, 3, 5, a - 1, a, a + 1, m} if lname != "1d" else {1}:
                if c < 1 or (c > m) or (a, c) == (3, 3):  # an array of shape (3, 3) is a tensor
                    continue
                lat = n.Lattice(BV[lname], discretization=(a, c), truncation=tr if H is None else "circular", harmonics_array=None if H is None else np.array(H))
                e = np.full(lat.discretization, 2.0 + 0j)
                top = np.abs(np.array(H if H is not None else tonp(lat.get_harmonics(2 if nh == 1 else nh)[0]))).max()
                fine = a > 2 * top and (c > 2 * top or lname == "1d")
                tag = f"{lname}, {tr}, nh={nh}, discretization {(a, c)}: "
                try:
                    s = n.Simulation([lat.Layer("a"), lat.Layer("g", thickness=1, epsilon=e), lat.Layer("b")], n.PlaneWave(), nh=nh)
                    rec.check(fine, tag + f"accepted with harmonics up to {top}")
                    if fine:
                        rec.check(s.nh == len(harm(s)), tag + "number of harmonics")
                except ValueError as err:
                    rec.check(not fine, tag + f"refused with harmonics up to {top}: {err}")
                rec.step()
                rec.state(lname, tr, nh, a, c)
        rec.trace()
        rec.outcome(fine)
    elif case[0] == "names":
        la, lb = (n.Lattice(BV["sq"], discretization=6) for _ in range(2))
        for names in itertools.product("abc", repeat=3):
            for lats in itertools.product((0, 1), repeat=3):
                L = [(la, lb)[k].Layer(x) for x, k in zip(names, lats)]
                good = len(set(names)) == 3 and len(set(lats)) == 1
                try:
                    n.Simulation(L, n.PlaneWave(), nh=1)
                    rec.check(good, f"layers {names} on lattices {lats}: accepted")
                except (ValueError, AssertionError) as e:
                    rec.check(not good, f"layers {names} on lattices {lats}: refused: {e}")
                rec.step()
                rec.state(names, lats)
        rec.trace()
        rec.outcome(0)
    else:
        for lname, f in itertools.product(BV, ("original", "tangent", "jones", "pol", "Original", "fft", "", None)):
            lat = n.Lattice(BV[lname], discretization=8)
            good = f in ("original", "tangent") or (f in ("jones", "pol") and lname != "1d")
            try:
                n.Simulation([lat.Layer("a"), lat.Layer("b")], n.PlaneWave(), nh=3, formulation=f)
                rec.check(good, f"{lname}: formulation {f} accepted")
            except ValueError as e:
                rec.check(not good, f"{lname}: formulation {f} refused: {e}")
            rec.step()
            rec.state(lname, f)
        rec.trace()
        rec.outcome(1)


def _with(n, lname, H):
    lat = n.Lattice(BV[lname], discretization=10, harmonics_array=n.backend.array(np.array(H)))
    e = n.backend.array(np.full(lat.discretization, 2.0 + 0j))
    return [lat.Layer("a"), lat.Layer("g", thickness=1, epsilon=e), lat.Layer("b")]
