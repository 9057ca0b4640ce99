"""C20: parallel loops keep the order, and simulations in threads do not interfere."""

import glob
import itertools
import os
import shutil
import sys
import tempfile
import threading

import numpy as np

from ..core import REPO, tonp
from ..lib import cx, indicator, nn, stop_workers

ID = "C20"
BOUND = {
    "quick": "parallel loops: 0 to 5 items x 1 to 4 jobs x {default, threads, processes} x 4 kinds of inputs, with extra arguments; every order of "
    "completion of 2, 3 and 4 concurrent tasks; an exception in every task. Threads: 2 simulations (5 pairs), every schedule with one preemption at "
    "any line executed inside nannos (1 pair) or any function call (4 pairs), and two preemptions at every 4th and every 24th function call (1 pair)",
    "thorough": "one preemption at any line of every pair, two preemptions at every and every 2nd function call of every pair; three concurrent simulations, each preempted once",
}
RULE = (
    "state: position (events executed) of every thread; transition: one event (line or call inside nannos) of one thread under the "
    "controlled scheduler; trace: one complete schedule of the real code, whose results are compared with those of each simulation alone"
)
ASSUMPTIONS = ["preemptions inside compiled code (numpy, joblib) are not explored", "threads do not share layers"]

SRC = os.path.join(os.path.realpath(REPO), "nannos") + os.sep


def pairs():
    a = dict(lat=((1.0, 0.0), (0.0, 1.0)), wl=1.3, ang=(20, 30, 40), nh=5, form="original", eps=4.0)
    return [
        [a, dict(a, wl=0.9, ang=(0, 0, 0))],
        [a, dict(a, nh=1, eps=2.0)],
        [dict(a, lat=1.0, nh=3), dict(a, lat=1.0, nh=5, form="tangent", wl=1.7)],
        [dict(a, form="jones", tf=True), dict(a, form="pol", tf=True, eps=[3, 1])],
        [dict(a, shared=True), dict(a, shared=True, wl=1.1, eps=6.0)],
    ]


def cases(tier):
    out = []
    for n, jobs, prefer, kind in itertools.product(range(6), (1, 2, 3, 4), (None, "threads"), ("list", "array", "tuple", "range")):
        out.append(["loop", n, jobs, prefer, kind])
    out += [["loop", n, jobs, "processes", "list"] for n in (0, 1, 3, 5) for jobs in (2, 3)]
    out += [["loop", n, jobs, prefer, kind] for n, jobs, prefer, kind in itertools.product((0, 2, 5), (1, 3), (None, "threads"), ("repeated", "generator"))]
    for n in (2, 3, 4):
        for perm in itertools.permutations(range(n)):
            out.append(["perm", list(perm)])
    for n, jobs, prefer in itertools.product((1, 3), (1, 2), (None, "threads")):
        for bad in range(n):
            out.append(["raise", n, jobs, prefer, bad])
    PARTS = 16
    for p in range(5):
        for first in (0, 1):
            for k in range(PARTS):
                out.append(["pre1", p, first, k, PARTS, "lines" if tier == "thorough" or p == 4 else "calls"])
    two = range(5) if tier == "thorough" else [0]
    for p in two:
        for first in (0, 1):
            for k in range(32):
                out.append(["pre2", p, first, k, 32, [1, 2] if tier == "thorough" else [4, 24]])
    if tier == "thorough":
        for perm in itertools.permutations(range(3)):
            for k in range(16):
                out.append(["three", list(perm), k, 16])
    return out


class Sched:
    """Runs threads one at a time; `plan` says which thread runs for how many events."""

    def __init__(self, n, plan, level):
        self.n, self.plan, self.level = n, list(plan), level
        self.cv = threading.Condition()
        self.done = [False] * n
        self.pos = [0] * n
        self.left = 0
        self.turn = None
        self.events = 0
        self.switch_points = []

    def next(self):
        """Choose who runs now; called with the lock held."""
        while self.plan:
            t, k = self.plan[0]
            if self.done[t]:
                self.plan.pop(0)
                continue
            self.plan.pop(0)
            self.turn, self.left = t, k
            return
        rest = [t for t in range(self.n) if not self.done[t]]
        self.turn, self.left = (rest[0] if rest else None), None

    def event(self, t):
        self.pos[t] += 1
        self.events += 1
        if self.left is None:
            return
        self.left -= 1
        if self.left <= 0:
            with self.cv:
                self.switch_points.append(tuple(self.pos))
                self.next()
                if self.turn != t:
                    self.cv.notify_all()
                    while self.turn != t:
                        self.cv.wait()

    def tracer(self, t):
        lines = self.level == "lines"

        def local(frame, ev, arg):
            if ev == "line" and lines:
                self.event(t)
            return local

        known = {}

        def glob(frame, ev, arg):
            f = frame.f_code.co_filename
            k = known.get(f)
            if k is None:
                k = known[f] = os.path.realpath(f).startswith(SRC)
            if not k:
                return None
            self.event(t)
            return local if lines else None

        return glob

    def run(self, bodies):
        res = [None] * self.n
        err = [None] * self.n

        def main(t):
            with self.cv:
                while self.turn != t:
                    self.cv.wait()
            sys.settrace(self.tracer(t))
            try:
                res[t] = bodies[t]()
            except BaseException as e:
                err[t] = e
            finally:
                sys.settrace(None)
                with self.cv:
                    self.done[t] = True
                    self.next()
                    self.cv.notify_all()

        th = [threading.Thread(target=main, args=(t,)) for t in range(self.n)]
        for x in th:
            x.start()
        with self.cv:
            self.next()
            self.cv.notify_all()
        for x in th:
            x.join()
        return res, err


def body(sc, env):
    n = nn()

    def go():
        if sc.get("shared"):
            if "lat" not in env:
                env["lat"] = n.Lattice(sc["lat"], discretization=8)
            lat = env["lat"]
        else:
            lat = n.Lattice(sc["lat"], discretization=8)
        pw = n.PlaneWave(wavelength=sc["wl"], angles=tuple(sc["ang"]))
        e = np.where(indicator("L", lat.discretization) > 0.5, cx(sc["eps"]), 1.0).astype(complex)
        lay = lat.Layer("G", thickness=0.4, epsilon=e)
        if sc.get("tf"):
            lay.tangent_field = [np.ones(lat.discretization) * c for c in (0.6, 0.8)]
        sim = n.Simulation([lat.Layer("a"), lay, lay.copy("c"), lat.Layer("b", epsilon=2.0)], pw, nh=sc["nh"], formulation=sc["form"])
        R, T = sim.diffraction_efficiencies(orders=True)
        F = sim.get_field_fourier("G", z=0.1)
        E = sim.get_Efield_grid("c", z=[0.05], shape=(8, lat.discretization[1]), component="z")
        return [tonp(R), tonp(T), tonp(F), tonp(E), [float(x) for x in sim.get_z_stress_tensor_integral("G")], tonp(sim.harmonics)]

    return go


def explore(rec, scs, plan, level, ref, tag):
    env = {}
    if any(s.get("shared") for s in scs):
        env["lat"] = nn().Lattice(scs[0]["lat"], discretization=8)
    s = Sched(len(scs), plan, level)
    res, err = s.run([body(sc, env) for sc in scs])
    rec.trace()
    rec.step(s.events)
    for p in s.switch_points:
        rec.state(tag, p)
    for t, (r, e) in enumerate(zip(res, err)):
        if e is not None:
            rec.check(False, f"{tag}, schedule {plan}: thread {t} raises {type(e).__name__}: {e}")
            continue
        for a, b, what in zip(r, ref[t], ("R", "T", "fields", "field grid", "stress", "harmonics")):
            rec.close(a, b, f"{tag}, schedule {plan}: {what} of simulation {t}", tol=1e-12)
    rec.outcome(tag, s.pos)
    return s.pos


def alone(scs, level):
    ref, num = [], []
    for sc in scs:
        env = {}
        ref.append(body(sc, env)())
        s = Sched(1, [(0, 10**9)], level)
        res, err = s.run([body(sc, {"lat": nn().Lattice(sc["lat"], discretization=8)})])
        if err[0] is not None:
            raise err[0]
        num.append(s.pos[0])
    return ref, num


def run(case, rec):
    n = nn()
    if case[0] == "loop":
        _, m, jobs, prefer, kind = case
        items = [x // 2 for x in range(m)] if kind == "repeated" else list(range(m))
        make = {"list": list, "array": np.array, "tuple": tuple, "range": lambda v: range(m), "repeated": list, "generator": iter}[kind]
        d = tempfile.mkdtemp(prefix="c20")
        try:

            def f(x, y, z=0, *rest, w=None, **kw):
                fd, _ = tempfile.mkstemp(prefix=f"{int(x)}_", dir=d)
                os.close(fd)
                return (int(x), y, z, 3 * x + 1, rest, w, sorted(kw.items()))

            g = n.parloop(n_jobs=jobs, prefer=prefer)(f)
            tag = f"{m} items, {jobs} jobs, {prefer}, {kind}: "
            calls = (((5,), {}), ((5,), {"z": 7}), ((), {"y": 1, "z": 2}), ((1, 2, 3, 4), {"w": 5}), ((1,), {"w": [6], "x2": 8, "z": None}))
            for args, kw in calls:
                out = g(make(items), *args, **kw)
                exp = [f(x, *args, **kw) for x in items]
                rec.check(list(out) == exp, f"{tag}{out} instead of {exp}")
                rec.step(m)
                rec.trace()
            files = sorted(int(os.path.basename(p).split("_")[0]) for p in glob.glob(os.path.join(d, "*")))
            rec.check(files == sorted(items * 2 * len(calls)), f"{tag}evaluations {files}")
            rec.check(g.__name__ == "f", f"{tag}name of the decorated function")
            rec.state(*case)
            rec.outcome(m, kind)
        finally:
            stop_workers()
            for p in glob.glob(os.path.join(d, "*")):
                os.unlink(p)
            os.rmdir(d)
    elif case[0] == "perm":
        perm = case[1]
        m = len(perm)
        ev = [threading.Event() for _ in range(m)]
        order = []

        def f(i):
            # task i ends when the ones before it in the permutation have ended
            k = perm.index(i)
            if k > 0:
                ev[perm[k - 1]].wait(60)
            order.append(i)
            ev[i].set()
            return ("r", i)

        out = n.parloop(n_jobs=m, prefer="threads")(f)(list(range(m)))
        rec.check(order == perm, f"order of completion {order}, {perm} was imposed")
        rec.check(list(out) == [("r", i) for i in range(m)], f"completion in the order {perm}: results {out}")
        rec.trace()
        rec.step(m)
        rec.state(*perm)
        rec.outcome(m)
    elif case[0] == "raise":
        _, m, jobs, prefer, bad = case

        def f(x):
            if x == bad:
                raise KeyError("task failed")
            return x

        try:
            out = n.parloop(n_jobs=jobs, prefer=prefer)(f)(list(range(m)))
            rec.check(False, f"exception in task {bad} of {m} ({jobs} jobs, {prefer}) is lost: {out}")
        except KeyError:
            rec.check(True, "")
        stop_workers()
        rec.trace()
        rec.step(m)
        rec.state(*case)
    elif case[0] == "pre1":
        _, p, first, k, parts, level = case
        scs = pairs()[p]
        ref, num = alone(scs, level)
        other = 1 - first
        for j in range(1 + k, num[first] + 1, parts):
            explore(rec, scs, [(first, j), (other, 10**9)], level, ref, f"pair {p}")
    elif case[0] == "pre2":
        _, p, first, k, parts, (sj, sl) = case
        scs = pairs()[p]
        ref, num = alone(scs, "calls")
        other = 1 - first
        for j in range(1 + k * sj, num[first] + 1, parts * sj):
            for l in range(1 + (j // sj) % sl, num[other] + 1, sl):
                explore(rec, scs, [(first, j), (other, l), (first, 10**9)], "calls", ref, f"pair {p}")
    else:
        _, perm, k, parts = case
        scs = [pairs()[0][0], pairs()[0][1], pairs()[3][0]]
        ref, num = alone(scs, "calls")
        a, b, c = perm
        for j in range(1 + k, num[a] + 1, parts):
            for l in range(1, num[b] + 1, 7):
                explore(rec, scs, [(a, j), (b, l), (c, 10**9), (a, 10**9)], "calls", ref, "three")
