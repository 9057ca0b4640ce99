"""C21: the topology optimizer returns an admissible design with its own value, through every stage."""

import itertools

import numpy as np

from ..core import tonp
from ..lib import nn

ID = "C21"
BOUND = {
    "quick": "2 backends x {scipy, nlopt} x 7 objectives (interior and corner minima, linear, flat, multimodal, depending on the projection level, through density filter and "
    "projection) x 4 initial designs x 5 ranges of levels x 5 iteration limits (one of them none, scipy) x 5 stop values, with and without extra arguments and options",
    "thorough": "8 initial designs and 3 backends",
}
RULE = (
    "state: (stage, design evaluated); transition: one evaluation of the objective asked for by the optimizer; trace: one optimization. Monitored "
    "on every evaluation: bounds, projection level and extra arguments, callback called once with the design and the value; at the end: admissible "
    "design, value of that design, no worse than the start of its stage, stop value obeyed, stages in sequence and chained, optimum of convex objectives"
)


def cases(tier):
    x0 = [[0.5, 0.5, 0.5], [0.0, 1.0, 0.2], [1.0, 1.0, 1.0], [0.1]]
    if tier == "thorough":
        x0 += [[0.0, 0.0], [0.9, 0.2, 0.4, 0.6], [0.3, 0.3], [1.0, 0.0]]
    out = []
    be = ["autograd", "torch"] + (["jax"] if tier == "thorough" else [])
    for b, m, o in itertools.product(be, ("scipy", "nlopt"), OBJ):
        for x in x0:
            out.append([b, m, o, x])
    return out


def make(o, n):
    """objective(x, level, a, b) built from nannos operations, with its convex minimum if there is one"""
    bk = n.backend
    w = np.array([1.0, 2.0, 0.5, 1.5])
    c = np.array([0.3, 0.8, 0.55, 0.1])
    far = np.array([-0.5, 1.7, 0.4, 2.0])

    def arr(v, x):
        return bk.array(v[: len(x)])

    if o == "interior":
        return (lambda x, l, a=1.0, c2=0.0: c2 + a * bk.sum(arr(w, x) * (x - arr(c, x)) ** 2)), lambda k: c[:k]
    if o == "corner":
        return (lambda x, l, a=1.0, c2=0.0: c2 + a * bk.sum(arr(w, x) * (x - arr(far, x)) ** 2)), lambda k: np.clip(far[:k], 0, 1)
    if o == "linear":
        s = np.array([1.0, -2.0, 0.5, -1.0])
        return (lambda x, l, a=1.0, c2=0.0: c2 + a * bk.sum(arr(s, x) * x)), lambda k: (s[:k] < 0) * 1.0
    if o == "flat":
        return (lambda x, l, a=1.0, c2=0.0: 0 * bk.sum(x) + 0.25 * a + c2), None
    if o == "waves":
        return (lambda x, l, a=1.0, c2=0.0: c2 + a * bk.sum(bk.sin(7 * x) + 0.3 * bk.cos(13 * x))), None
    if o == "level":
        # the minimum moves with the level
        return (lambda x, l, a=1.0, c2=0.0: c2 + a * bk.sum((x - 1.0 / l) ** 2) + 0.01 * l), None
    if o == "density":

        def f(x, l, a=1.0, c2=0.0):
            y = n.optimize.project(x, l)
            e = n.optimize.simp(y, 1.0, 4.0, p=2)
            return a * bk.sum((e - 2.2) ** 2) + c2

        return f, None
    raise ValueError(o)


OBJ = ["interior", "corner", "linear", "flat", "waves", "level", "density"]


def run(case, rec):
    n = nn()
    backend, method, o, x0 = case
    n.set_backend(backend)
    n = nn()
    import nannos.optimize  # noqa: F401

    bk = n.backend
    fun, best = make(o, n)
    x0 = np.array(x0)
    k = len(x0)
    ranges = [(0, 1), (0, 3), (2, 4), (5, 6), (7, 10)]
    shared, xin = {}, bk.array(x0)
    for threshold, maxiter, stop, extra in itertools.product(ranges, (1, 2, 5, 40, None), (None, "low", "mid", "high", "between"), (None, "arg", "two", "callback-off")):
        if method == "nlopt" and maxiter is None:
            continue  # it has no other criterion by default
        if threshold[0] == 7 and maxiter not in (2, 5):
            continue
        if extra and (stop in ("low", "between") or maxiter in (1, 40, None)):
            continue
        args = None if extra is None else (99, 2.0, 0.5) if extra == "two" else (99, 2.0)
        scale = () if extra is None else args[1:]
        v0 = float(tonp(fun(bk.array(x0), 2 ** threshold[0], *scale)))
        stopval = {None: None, "low": -1e6, "mid": v0 - 0.05, "high": v0 + 1.0, "between": v0 - 1e-3}[stop]
        log, calls = [], []

        def f(x, *a):
            y = fun(x, *a)
            xs = tonp(x.detach() if hasattr(x, "detach") else x)
            try:
                v = float(y)
            except Exception:
                v = None  # called by the differentiation
            if v is not None and xs.dtype != object:
                log.append((np.array(xs, float), a, v))
            return y

        def cb(x, y, *a):
            calls.append((np.array(tonp(x.detach() if hasattr(x, "detach") else x), float), float(y), a))

        # the same options and initial design serve all the optimizations
        options = shared if extra is None else None
        opt = n.optimize.TopologyOptimizer(
            f, xin, method=method, threshold=threshold, maxiter=maxiter, stopval=stopval, args=args,
            callback=None if extra == "callback-off" else cb, options=options,
        )
        tag = f"{backend}, {method}, {o}, from {x0.tolist()}, levels {threshold}, {maxiter} iterations, stop value {stop}, extra {extra}: "
        import contextlib
        import io

        with contextlib.redirect_stdout(io.StringIO()):
            x, y = opt.minimize()
        x, y = np.array(tonp(x), float), float(y)
        rec.check(shared == {} and np.array_equal(tonp(xin), x0), tag + f"options {shared} or initial design {tonp(xin).tolist()} modified")
        rec.trace()
        levels = [2**i for i in range(*threshold)]
        rec.check(x.shape == (k,) and np.all(x >= 0) and np.all(x <= 1), tag + f"design {x.tolist()}")
        rec.close(y, float(tonp(fun(bk.array(x), levels[-1], *scale))), tag + "value of the returned design", tol=1e-9)
        # evaluations
        rec.check(all(np.all(v[0] >= -1e-12) and np.all(v[0] <= 1 + 1e-12) for v in log), tag + "evaluation out of bounds")
        want_extra = scale
        seen = [v[1][0] for v in log]
        rec.check(all(v[1][1:] == want_extra for v in log), tag + f"arguments {log[0][1] if log else None}")
        uniq = [s for i, s in enumerate(seen) if i == 0 or s != seen[i - 1]]
        rec.check(uniq == levels, tag + f"projection levels {uniq}, {levels} expected")
        if extra != "callback-off":
            rec.check(len(calls) > 0, tag + "callback not called")
            ok = all(abs(v - float(tonp(fun(bk.array(xx), *a)))) <= 1e-9 * max(1, abs(v)) for xx, v, a in calls)
            rec.check(ok, tag + "callback called with a value that is not the one of its design")
            rec.check([a[0] for _, _, a in calls] == sorted(a[0] for _, _, a in calls), tag + "levels of the callbacks")
            rec.check(set(a[0] for _, _, a in calls) == set(levels), tag + "levels of the callbacks")
            per = [[c for c in calls if c[2][0] == l] for l in levels]
            start = x0
            for i, (l, s) in enumerate(zip(levels, per)):
                if not s:
                    break
                rec.close(s[0][0], start, tag + f"start of stage {i}", tol=1e-7)
                vals = [c[1] for c in s]
                # the stop value ends the stage
                if stopval is not None:
                    hit = [j for j, v in enumerate(vals) if v < stopval - 1e-12]
                    rec.check(not hit or hit[0] == len(vals) - 1, tag + f"stage {i}: {len(vals) - 1 - hit[0] if hit else 0} evaluations after the stop value")
                    if hit:
                        start = s[-1][0]
                        if i == len(levels) - 1:
                            rec.check(y < stopval and np.allclose(x, start), tag + f"value {y} at {x.tolist()}, the stop value {stopval} was reached at {start.tolist()}")
                        for c in s:
                            rec.state(tag, c[0].tolist())
                        rec.step(len(s))
                        continue
                if method == "nlopt" and maxiter is not None:
                    rec.check(len(vals) <= maxiter, tag + f"stage {i}: {len(vals)} evaluations for a limit of {maxiter}")
                # the result of the stage is the best evaluation
                j = int(np.argmin(vals))
                if i == len(levels) - 1:
                    rec.check(y <= vals[0] + 1e-12, tag + f"value {y} worse than the start {vals[0]}")
                    rec.check(any(np.allclose(c[0], x, atol=1e-12) for c in s), tag + "design never evaluated")
                    if method == "nlopt":
                        rec.close(y, vals[j], tag + "best value", tol=1e-12)
                else:
                    nxt = per[i + 1][0] if per[i + 1] else None
                    if nxt is not None:
                        start = nxt[0]
                        rec.check(any(np.allclose(c[0], start, atol=1e-12) for c in s), tag + f"stage {i + 1} starts from a design never evaluated")
                        v = [c[1] for c in s if np.allclose(c[0], start, atol=1e-12)]
                        if v:
                            rec.check(min(v) <= vals[0] + 1e-12, tag + f"stage {i + 1} starts from a design worse than the start of stage {i}")
                for c in s:
                    rec.state(tag, c[0].tolist())
                rec.step(len(s))
        if best is not None and maxiter in (40, None) and stopval is None:
            rec.close(x, best(k), tag + "minimum", tol=2e-3)
        rec.outcome(o, np.round(x, 3).tolist())
