"""C31: an interrupted computation leaves simulations that answer as new ones."""

import contextlib
import copy
import hashlib
import io
import itertools
import os
import sys

import numpy as np

from ..core import tonp
from ..lib import indicator, nn

ID = "C31"
BOUND = {
    "quick": "5 structures (2D, 1D, copies, tangent fields, anisotropic) held by two simulations that share layers x 4 states (new, solved by the first, by the second, by "
    "the first then the second) x 9 operations interrupted at every line of the package that they execute, by KeyboardInterrupt or by MemoryError; then both orders of "
    "queries of the two simulations",
    "thorough": "the same interrupted at every bytecode instruction; two interruptions in a row; 3 backends",
}
RULE = (
    "state: everything held by the simulations and layers (arrays by value, tokens by identity); transition: one operation, interrupted at one point; trace: one history, "
    "after which every answer of both simulations, asked for in both orders, is that of new simulations"
)
ASSUMPTIONS = [
    "interruptions inside numpy, scipy and other libraries are those at the line of the package that called them",
    "the configuration of the package is not changed during the operation",
]
STRUCTS = ["2d", "1d", "copy", "field", "aniso"]
PRE = [(), ("A",), ("B",), ("A", "B")]
OPS = ["solve", "eff", "orders", "S part", "fourier", "grid", "stress", "reset", "build"]
PACKAGE = None


class World:
    """Two simulations of other waves and stacks, with the layers of one lattice."""

    def __init__(self, kind):
        n = nn()
        self.kind = kind
        d = 7
        self.lat = lat = n.Lattice(1.0 if kind == "1d" else ((1.0, 0.0), (0.2, 0.8)), discretization=d)
        f = indicator("L", lat.discretization) > 0.5
        e = np.where(f, 4.0, 1.2)
        kw = {}
        if kind == "aniso":
            z = np.zeros_like(e)
            e = np.array([[e, 0.3 + z, z], [0.3 + z, e + 1, z], [z, z, e + 0.5]])
        if kind in ("field", "copy"):
            kw = dict(tangent_field_type="fft")
        self.G = lat.Layer("G", 0.3, n.backend.array(e + 0j), **kw)
        self.u = lat.Layer("u", 0.2, 2.0)
        self.a = lat.Layer("a")
        self.b = lat.Layer("b", epsilon=1.5)
        self.C = self.G.copy("C") if kind == "copy" else None
        self.sims = {w: self.make(w) for w in "AB"}

    def make(self, w):
        n = nn()
        L = [self.a, self.G, self.u]
        if self.C is not None:
            L.append(self.C)
        if w == "B":
            L = [self.a, *L[1:][::-1]]
        return n.Simulation(
            [*L, self.b],
            n.PlaneWave(1.2 if w == "A" else 0.9, (15, 30, 50) if w == "A" else (5, 70, 20)),
            nh=3,
            formulation="original" if self.kind in ("aniso", "2d") else "tangent",
        )

    def do(self, op):
        s = self.sims["A"]
        if op == "build":
            self.sims["A"] = self.make("A")
        elif op == "solve":
            s.solve()
        elif op == "reset":
            s.reset()
        elif op == "eff":
            s.diffraction_efficiencies()
        elif op == "orders":
            s.diffraction_efficiencies(orders=True, complex=True)
        elif op == "S part":
            s.get_S_matrix((0, 1))
        elif op == "fourier":
            s.get_field_fourier("G", 0.1)
        elif op == "grid":
            s.get_field_grid("u", 0.1, shape=(7, 7 if self.kind != "1d" else 1))
        elif op == "stress":
            s.get_z_stress_tensor_integral("G", 0.1)

    def ask(self, w):
        s = self.sims[w]
        R, T = s.diffraction_efficiencies(orders=True)
        o = [R, T, s.get_field_fourier("G", 0.11), *s.get_z_stress_tensor_integral("G", 0.05)]
        S = s.get_S_matrix((1, 2))
        return [tonp(x) for x in o] + [tonp(S[0][0]), tonp(S[1][0])]


NAMES = ["R", "T", "fields", "stress x", "stress y", "stress z", "S11 of a part", "S21 of a part"]
_ref = {}


def reference(kind, b):
    if (kind, b) not in _ref:
        _ref[kind, b] = {w: World(kind).ask(w) for w in "AB"}
    return _ref[kind, b]


def digest(*roots):
    """The state reachable from objects of the package, up to the identity of the objects it is made of."""
    h = hashlib.blake2b(digest_size=12)
    seen = {}
    keep = []

    def visit(x):
        if isinstance(x, (str, int, float, complex, bool, type(None))):
            h.update(str(x).encode())
            return
        if id(x) in seen:
            h.update(b"@%d" % seen[id(x)])
            return
        seen[id(x)] = len(seen)
        keep.append(x)
        h.update(type(x).__name__.encode())
        if isinstance(x, dict):
            for k in sorted(x, key=str):
                h.update(str(k).encode() + b":")
                visit(x[k])
        elif isinstance(x, (list, tuple)):
            h.update(b"[%d" % len(x))
            for y in x:
                visit(y)
        elif type(x).__module__.startswith("nannos"):
            visit(x.__dict__)
        elif type(x) is not object:
            a = np.asarray(tonp(x))
            h.update(a.dtype.str.encode() + b"%d,%d" % (a.ndim, a.shape[0] if a.ndim else 0))
            h.update(a.tobytes() if a.dtype != object else repr(a).encode())

    for r in roots:
        visit(r)
    return h.digest()


_judged = {}


def interrupted(f, k, exc, fine=False):
    """Run f, and raise exc at the k-th point of the package that is executed. False if f ends before."""
    global PACKAGE
    PACKAGE = PACKAGE or os.path.dirname(os.path.abspath(nn().__file__)) + os.sep
    count = [0]
    done = []

    def local(frame, event, arg):
        if event == ("opcode" if fine else "line"):
            count[0] += 1
            if count[0] == k:
                done.append((os.path.basename(frame.f_code.co_filename), frame.f_lineno))
                raise exc("injected")
        return local

    def enter(frame, event, arg):
        if not frame.f_code.co_filename.startswith(PACKAGE):
            return None
        frame.f_trace_opcodes = fine
        return local

    caught = False
    old = sys.gettrace()
    sys.settrace(enter)
    try:
        f()
    except exc as e:
        caught = "injected" in str(e)
        if not caught:
            raise
    finally:
        sys.settrace(old)
    return (done[0], caught) if done else None


def cases(tier):
    out = [["optimizer", m, stop, exc, tier == "thorough"] for m in ("scipy", "nlopt") for stop in (None, 0.01) for exc in ("KeyboardInterrupt", "MemoryError")]
    for be in ["numpy"] + (["torch", "autograd"] if tier == "thorough" else []):
        for kind, pre, op in itertools.product(STRUCTS, range(len(PRE)), OPS):
            for exc in ("KeyboardInterrupt", "MemoryError"):
                out.append([be, kind, pre, op, exc, tier == "thorough"])
    return out


def run_optimizer(case, rec):
    """An optimization interrupted at any point, then started again with the same optimizer."""
    _, method, stop, name, fine = case
    n = nn()
    exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[name]
    n.set_backend("autograd")
    try:
        bk = n.backend
        target = np.array([0.2, 0.7, 0.4])

        def f(x, p):
            return bk.sum(bk.abs(x - target) ** 2 * np.array([1.0, 2.0, 0.5])) + 0.01 / p

        def new(out=None):
            x0 = np.array([0.9, 0.1, 0.5])
            cb = None if out is None else lambda x, y, *a: out.append((tuple(float(v) for v in x), float(y), a))
            return n.optimize.TopologyOptimizer(f, x0, method=method, threshold=(0, 2), maxiter=6, args=(1,), stopval=stop, callback=cb)

        with contextlib.redirect_stdout(io.StringIO()):
            ref = new().minimize()
            first = []
            new(first).minimize()
            k = 0
            while True:
                k += 1
                seen = []
                o = new(seen)
                r = interrupted(o.minimize, k, exc, fine)
                if r is None:
                    break
                where, caught = r
                tag = f"{method}, stop value {stop}: interrupted by {name} at {where[0]}:{where[1]} (point {k})"
                rec.check(caught, f"{tag}: the interruption is swallowed")
                rec.check(seen == first[: len(seen)], f"{tag}: evaluations before it")
                del seen[:]
                x, y = o.minimize()
                rec.close(x, ref[0], f"{tag}: design of the next run", tol=1e-12)
                rec.close(float(y), float(ref[1]), f"{tag}: value of the next run", tol=1e-12)
                rec.check(seen == first, f"{tag}: {len(seen)} evaluations in the next run instead of {len(first)}")
                rec.step()
                rec.trace()
                rec.state(case[:3], len(seen), where)
        rec.outcome(case, k)
    finally:
        n.set_backend("numpy")


def run(case, rec):
    if case[0] == "optimizer":
        return run_optimizer(case, rec)
    be, kind, pre, op, name, fine = case
    n = nn()
    exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[name]
    if be != n.get_backend():
        n.set_backend(be)
    try:
        ref = reference(kind, be)
        k = 0
        before = World(kind)
        for x in PRE[pre]:
            before.ask(x)
        while True:
            k += 1
            w = copy.deepcopy(before)
            r = interrupted(lambda: w.do(op), k, exc, fine)
            if r is None:
                break
            where, caught = r
            tag = f"{be} {kind}: after queries of {list(PRE[pre])}, {op} interrupted by {name} at {where[0]}:{where[1]} (point {k})"
            if name == "KeyboardInterrupt":
                rec.check(caught, f"{tag}: the interruption is swallowed")
            d = digest(w.sims, w.lat, w.G, w.u, w.a, w.b, w.C)
            for order in ("AB", "BA"):
                # a state reached before answers as it did
                key = be, kind, order, d
                if key not in _judged:
                    _judged[key] = bad = []
                    v = copy.deepcopy(w)
                    for s in order:
                        for g, y, what in zip(v.ask(s), ref[s], NAMES):
                            e = np.max(abs(np.asarray(g) - y)) if np.shape(g) == np.shape(y) else np.inf
                            if not e <= 1e-8 * max(1, np.max(abs(y))):
                                bad.append(f"{what} of simulation {s} is wrong by {e:.3g}, asked in the order {order}")
                    rec.state(key)
                bad = _judged[key]
                rec.check(not bad, f"{tag}: {bad[:1]}")
            rec.step()
            rec.trace()
        rec.outcome(be, kind, pre, op, k)
    finally:
        if be != "numpy":
            n.set_backend("numpy")
