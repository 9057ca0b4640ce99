"""C19: adaptive sampling is a faithful, terminating and bounded refinement."""

import itertools

import numpy as np

from ..lib import nn, stop_workers
from ..core import tonp

ID = "C19"
VAL = [0.0, 0.3, 1.0, -0.7]
BOUND = {
    "quick": "environment = the sampled function: every assignment of 4 values to the 5 initial points (1024 functions) x 3 settings, "
    "continued by 3 laws (linear interpolation, adversarial sign flips, discontinuity at the middle of every new interval); all "
    "orders and repetitions of 4 initial points (with duplicates); 5 kinds of results (float, 0-d array, list, tuple, array with several outputs, "
    "arrays of arrays); 1 and 2 jobs; 6 analytic functions x 35 settings (each subset left to the documented defaults)",
    "thorough": "6 initial points (4096 functions) x 6 settings",
}
RULE = (
    "state: the set of sampled points; transition: one evaluation of the function by the sampler, the environment choosing the answer; trace: one "
    "complete run. Checked on every run: termination, sorted distinct points, initial points kept, each point evaluated once, values paired "
    "with their points, new points at the middle of the interval of two neighbours, no interval below half the least spacing, and the "
    "refinement criterion, round by round: every triple that bends gets a point, every new point has a reason, none is left at the end"
)
CAP = 6000


def cases(tier):
    n = 6 if tier == "thorough" else 5
    sets = [dict(), dict(max_bend=20, max_x_rel=0.05), dict(max_x_rel=0.02, max_df=0.3)]
    if tier == "thorough":
        sets += [dict(max_bend=3, max_x_rel=0.03, max_df=0.01), dict(max_bend=60), dict(max_bend=10, max_x_rel=0.2, max_df=0.001)]
    sets = [dict(dict(max_x_rel=0.01), **s) for s in sets]
    out = []
    for law in ("linear", "flip", "jump"):
        for s in sets:
            for first in itertools.product(VAL, repeat=2):
                out.append(["env", law, s, list(first), n])
    out.append(["orders"])
    for kind in ("float", "0d", "list", "tuple", "array", "nested", "int"):
        out.append(["kind", kind])
    for f in ("lorentz", "step", "sin", "abs", "sqrt", "const"):
        for mb, mx, md in itertools.product((3, 10, 40), (1e-3, 1e-2, 0.1), (0.01, 0.05, 0.3)):
            out.append(["fun", f, dict(max_bend=mb, max_x_rel=mx, max_df=md)])
        # settings left to their defaults
        for k in itertools.product((0, 1), repeat=3):
            out.append(["fun", f, {n: v for n, v, q in zip(("max_bend", "max_x_rel", "max_df"), (4, 0.004, 0.02), k) if q}])
    out += [["jobs", k] for k in (1, 2, 3)]
    return out


class TooMany(Exception):
    pass


def watch(f):
    log = []

    def g(x):
        x = float(x)
        log.append(x)
        if len(log) > CAP:
            raise TooMany()
        return f(x)

    return g, log


FUN = {
    "lorentz": lambda x: 0.01 / ((x - 0.3) ** 2 + 0.0004),
    "step": lambda x: 1.0 if x > 0.37 else 0.0,
    "sin": lambda x: float(np.sin(7 * x)),
    "abs": lambda x: abs(x - 0.51),
    "sqrt": lambda x: float(np.sqrt(abs(x))),
    "const": lambda x: 2.5,
}


def triples(x, y, max_bend, max_x_rel, max_df):
    """The documented criterion on every triple of neighbours: (index, verdict), verdict None when within rounding of a threshold."""
    th = max_bend * np.pi / 180
    mdx = max_x_rel * (x[-1] - x[0])
    mdy = max_df * (max(y) - min(y))
    e = 1e-9

    def below(v, t):
        return None if abs(v - t) <= e * (abs(t) + 1e-300) else bool(v < t)

    def both(p, q):
        return False if p is False or q is False else None if p is None or q is None else True

    def neg(p):
        return None if p is None else not p

    for i in range(len(x) - 2):
        (xp, x0, xn), (yp, y0, yn) = x[i: i + 3], y[i: i + 3]
        small_x = both(below(xn - x0, mdx), below(x0 - xp, mdx))
        small_y = both(below(abs(y0 - yp), mdy), below(abs(yn - y0), mdy))
        r = max(yp, y0, yn) - min(yp, y0, yn)
        a, b = (x0 - xp) / (xn - xp), (xn - x0) / (xn - xp)
        if r == 0:
            bend = neg(both(neg(below(3 * a, b)), neg(below(3 * b, a))))
        else:
            u, v = np.array([a, (y0 - yp) / r]), np.array([b, (yn - y0) / r])
            c = u @ v / np.sqrt((u @ u) * (v @ v))
            turn = None if abs(c - np.cos(th)) < e else bool(c < np.cos(th))
            bend = neg(both(neg(turn), both(neg(below(3 * a, b)), neg(below(3 * b, a)))))
        yield i, both(bend, both(neg(small_x), neg(small_y)))


def needs_refinement(x, y, *args):
    return [i for i, v in triples(x, y, *args) if v]


def follow(rec, tag, init, log, ev, s):
    """Replay the run round by round: each new point has a reason, each reason gets a point.

    Where one round ends and the next begins is not observed: every way to cut the run is explored.
    """
    args = s.get("max_bend", 10), s.get("max_x_rel", 1e-3), s.get("max_df", 0.05)
    val = {v: float(np.ravel(ev(v))[0]) for v in set(log)}
    rest = [v for v in log if v not in set(init)]
    budget, best = [4000], [(-1, "")]

    def note(pos, msg):
        if pos > best[0][0]:
            best[0] = pos, msg

    def same(v, m):
        return abs(v - m) <= 1e-12 * (abs(v) + 1)

    def search(known, pos, rounds):
        budget[0] -= 1
        if budget[0] < 0:
            return True
        may, must = [], []
        for i, verdict in triples(known, [val[v] for v in known], *args):
            if verdict is False:
                continue
            xp, x0, xn = known[i: i + 3]
            l, r = x0 - xp, xn - x0
            c = []
            if l > r * (1 - 1e-9):
                c.append(0.5 * (xp + x0))
            if r > l * (1 - 1e-9):
                c.append(0.5 * (x0 + xn))
            may += c
            if verdict:
                must.append((known[i: i + 3], c))
        end = pos
        while end < len(rest) and any(same(rest[end], m) for m in may):
            end += 1
        for stop in range(end, pos - 1, -1):
            batch = rest[pos:stop]
            miss = next((t for t, c in must if not any(same(v, m) for v in batch for m in c)), None)
            if miss is not None:
                note(stop, f"round {rounds}: points {miss} bend, no point is added between them")
                return False
            if not batch:
                if pos == len(rest):
                    rec.step(rounds)
                    return True
                note(pos, f"round {rounds}: {rest[pos]} is added where the criterion asks for no point")
                return False
            if search(sorted(known + batch), stop, rounds + 1):
                return True
        return False

    rec.check(search(sorted(init), 0, 0), lambda: tag + best[0][1])


def check_run(rec, tag, x0, log, X, Y, ev, s):
    X = tonp(X).astype(float)
    init = sorted(set(float(v) for v in x0))
    rec.check(X.ndim == 1 and len(X) == len(Y), tag + f"{X.shape} points and {len(Y)} values")
    rec.check(np.all(np.diff(X) > 0), tag + "points not sorted or repeated")
    rec.check(set(init) <= set(X.tolist()), tag + "an initial point is missing")
    rec.check(len(log) == len(set(log)), tag + f"points evaluated twice: {sorted(v for v in set(log) if log.count(v) > 1)[:5]}" if len(log) < 500 else tag + "points evaluated twice")
    rec.check(set(log) == set(X.tolist()), tag + "evaluated and returned points differ")
    rec.check(X[0] == init[0] and X[-1] == init[-1], tag + "points outside the interval")
    ok = all(np.array_equal(np.asarray(ev(x)), np.asarray(y)) for x, y in zip(X.tolist(), Y))
    rec.check(ok, tag + "values not paired with their points")
    # every new point is the middle of two points known before it
    known = list(init)
    lim = 0.5 * s.get("max_x_rel", 1e-3) * (init[-1] - init[0]) * (1 - 1e-9)
    pend = [v for v in log if v not in set(init)]
    import bisect

    mid_bad = small = None
    # evaluation may be in batches: a new point is judged with the points of its batch removed
    allp = sorted(set(log))
    for v in pend:
        i = bisect.bisect_left(known, v)
        lo, hi = known[i - 1], known[i]
        bisect.insort(known, v)
        if not (lo < v < hi):
            mid_bad = v
    d = np.diff(allp)
    new = set(pend)
    for a, b, w in zip(allp, allp[1:], d):
        if (a in new or b in new) and w < lim:
            small = (a, b)
    rec.check(mid_bad is None, tag + f"point {mid_bad} outside of the initial intervals")
    rec.check(small is None, tag + f"points {small} closer than half the least spacing")
    # dyadic positions inside the initial intervals
    bad = None
    for v in new:
        i = bisect.bisect_left(init, v)
        t = (v - init[i - 1]) / (init[i] - init[i - 1])
        k = t * 2**16
        if abs(k - round(k)) > 1e-4:
            bad = v
    rec.check(bad is None, tag + f"{bad} is not obtained by halving intervals")
    mon = [float(np.ravel(y)[0]) for y in Y]
    left = needs_refinement(X.tolist(), mon, s.get("max_bend", 10), s.get("max_x_rel", 1e-3), s.get("max_df", 0.05))
    # a triple may remain when both of its intervals are below the spacing only
    rec.check(not left, tag + f"triple {left[:3]} of {len(X)} points should have been refined")
    if len(X) < 400:
        follow(rec, tag, init, log, ev, s)
    rec.trace()
    rec.step(len(log))
    rec.state(tag, tuple(X.tolist()[:40]), len(X))
    rec.outcome(len(X))


def sample(n, f, x, s, rec, tag, **kw):
    g, log = watch(f)
    try:
        X, Y = n.adaptive_sampler(g, x, **s, **kw)
    except TooMany:
        rec.check(False, tag + f"more than {CAP} evaluations")
        return None
    return X, Y, log


def run(case, rec):
    n = nn()
    if case[0] == "env":
        _, law, s, first, m = case
        x = np.linspace(-1.0, 2.0, m) + np.array([0, 0.21, -0.1, 0.3, 0, 0][:m]) * 0.5
        x[-1] = 2.0
        for rest in itertools.product(VAL, repeat=m - 2):
            y0 = list(first) + list(rest)
            base = {}

            def f(v):
                if v in base:
                    return base[v]
                k = [float(t) for t in x]
                if v in k:
                    r = y0[k.index(v)]
                else:
                    r = float(np.interp(v, x, y0))
                    if law == "flip":
                        r += 0.5 * (-1) ** len(base)
                    elif law == "jump":
                        i = int(np.searchsorted(x, v))
                        r = y0[i] if v > 0.5 * (x[i - 1] + x[i]) else y0[i - 1]
                base[v] = r
                return r

            tag = f"values {y0}, {law}, {s}: "
            r = sample(n, f, x, s, rec, tag)
            if r is None:
                continue
            X, Y, log = r
            check_run(rec, tag, x, log, X, Y, f, s)
    elif case[0] == "orders":
        f = FUN["lorentz"]
        s = dict(max_x_rel=0.05)
        ref = None
        for order in itertools.product([0.0, 0.25, 0.5, 1.0], repeat=5):
            if set(order) != {0.0, 0.25, 0.5, 1.0}:
                continue
            for conv in (list, np.array):
                r = sample(n, f, conv(order), s, rec, f"initial points {order}: ")
                if r is None:
                    continue
                X, Y, log = r
                check_run(rec, f"initial points {order}: ", order, log, X, Y, f, s)
                if ref is None:
                    ref = X, Y
                rec.close(X, ref[0], f"initial points {order}: result depends on their order", tol=0)
                rec.close(Y, ref[1], f"initial points {order}: result depends on their order", tol=0)
    elif case[0] == "kind":
        base = FUN["lorentz"]
        s = dict(max_x_rel=0.01)
        conv = {
            "float": lambda v: base(v),
            "0d": lambda v: np.array(base(v)),
            "list": lambda v: [base(v), v, -v],
            "tuple": lambda v: (base(v), 2 * v),
            "array": lambda v: np.array([base(v), v**2, 1.0, v]),
            "nested": lambda v: np.array([base(v)]),
            "int": lambda v: int(10 * base(v)),
        }[case[1]]
        x = np.linspace(0, 1, 9)
        tag = f"results of kind {case[1]}: "
        r = sample(n, conv, x, s, rec, tag)
        if r:
            X, Y, log = r
            check_run(rec, tag, x, log, X, Y, conv, s)
            if case[1] != "int":
                ref = sample(n, base, x, s, rec, tag)
                rec.close(X, ref[0], tag + "points differ from those of the first output alone", tol=0)
    elif case[0] == "fun":
        _, name, s = case
        for x in (np.linspace(0, 1, 11), np.linspace(-2, 3, 4), np.array([0.0, 0.02, 0.7, 0.71, 1.0]), np.array([0.0, 1.0]), np.linspace(5e-7, 9e-7, 7) * 1e6):
            tag = f"{name}, {s}, from {x.tolist()}: "
            r = sample(n, FUN[name], x, s, rec, tag)
            if r:
                X, Y, log = r
                check_run(rec, tag, x, log, X, Y, FUN[name], s)
    else:
        # several processes: the calls are not seen from here
        x = np.linspace(0, 1, 6)
        s = dict(max_x_rel=0.05)
        X, Y = n.adaptive_sampler(FUN["lorentz"], x, n_jobs=case[1], **s)
        stop_workers()
        R = sample(n, FUN["lorentz"], x, s, rec, "")
        rec.close(X, R[0], f"{case[1]} jobs: points", tol=0)
        rec.close(Y, R[1], f"{case[1]} jobs: values", tol=0)
        rec.trace()
        rec.step(len(X))
