"""Bounded exhaustive exploration of the real code: engine shared by the checks.

A check module (mc/checks/cNN.py) defines

    ID        the property
    BOUND     text: alphabet and bound that `cases` enumerates completely
    RULE      text: what one state / transition / trace is
    cases(tier) -> list of JSON-able case descriptors, simplest first, no randomness
    run(case, rec)  executes the case on nannos and reports to `rec`

Cases are executed in forked workers (one per core) of a process that has
imported nannos from /repo.  Every case is executed; the verdict is about the
whole enumerated space.
"""

import hashlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
# for experiments: another place for evidence and replay files, and end at the first violation
OUT = os.environ.get("MC_OUT", VERIF)
ENOUGH = 1 if os.environ.get("MC_FIRST") else 200
TOL = 1e-7


def load_nannos():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import nannos

    here = os.path.realpath(nannos.__file__)
    if not here.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"nannos imported from {here}, not from {REPO}")
    return nannos


def digest(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


def tonp(a):
    import numpy as np

    if hasattr(a, "detach"):
        a = a.detach().cpu().numpy()
    if isinstance(a, (list, tuple)):
        return np.array([tonp(_) for _ in a])
    return np.asarray(a)


class Violation(Exception):
    pass


class Rec:
    """What one case reports."""

    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.compared = 0
        self.fails = []
        self.skipped = {}
        self.extra = {}
        self.worst = 0.0

    def state(self, *key):
        self.states.add(digest(key))

    def outcome(self, *key):
        self.outcomes.add(digest(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def skip(self, why):
        self.skipped[why] = self.skipped.get(why, 0) + 1

    def fail(self, msg):
        if len(self.fails) < 5:
            self.fails.append(str(msg)[:2000])

    def check(self, ok, msg):
        self.compared += 1
        if not bool(ok):
            self.fail(msg() if callable(msg) else msg)
            return False
        return True

    def close(self, a, b, msg, tol=TOL, scale=None):
        """a ~ b within tol * max(1, |b|)."""
        import numpy as np

        self.compared += 1
        try:
            a, b = tonp(a), tonp(b)
        except Exception as e:
            self.fail(f"{msg}: not comparable ({e})")
            return False
        if a.shape != b.shape:
            self.fail(f"{msg}: shapes {a.shape} and {b.shape} differ")
            return False
        if a.size == 0:
            return True
        if scale is None:
            with np.errstate(all="ignore"):
                scale = np.max(np.abs(b))
            scale = max(1.0, float(scale)) if np.isfinite(scale) else 1.0
        with np.errstate(all="ignore"):
            err = np.max(np.abs(a - b)) / scale
        if np.isfinite(err):
            self.worst = max(self.worst, float(err))
        if not (err <= tol):
            if a.size == 1:
                m = f"{msg}: {a.item()} is not {b.item()} (error {err:.3g})"
            else:
                i = np.unravel_index(np.argmax(np.nan_to_num(np.abs(a - b), nan=np.inf)), a.shape)
                m = f"{msg}: {a[i]} is not {b[i]} at {tuple(int(_) for _ in i)} (error {err:.3g})"
            self.fail(m)
            return False
        return True


def _exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[::-1][:4])
    return f"{type(e).__name__}: {e} [{where}]"


def run_case(mod, case):
    rec = Rec()
    t = time.time()
    try:
        mod.run(case, rec)
    except Violation as e:
        rec.fail(str(e))
    except Exception as e:
        if os.environ.get("MC_DEBUG"):
            traceback.print_exc()
        rec.fail("exception where a result was expected: " + _exc(e))
    d = rec.__dict__
    d["t"] = time.time() - t
    return d


def _follow_parent():
    """End this process when its parent ends."""
    try:
        import ctypes

        ctypes.CDLL(None).prctl(1, 9)
    except Exception:
        pass


def _worker(mod, cases, jobs, k, start, q, deadline, stop, now):
    """Run the cases k, k + jobs, ... from index start; `now` tells the case and when it began."""
    _follow_parent()
    try:
        for i in range(start, len(cases), jobs):
            if stop.value or time.time() > deadline:
                break
            now[2 * k + 1] = time.time()
            now[2 * k] = i
            r = run_case(mod, cases[i])
            now[2 * k] = -1
            q.put((i, r))
        q.put((None, k))
    except BaseException:
        traceback.print_exc()
        q.put(("err", k))
    q.close()
    q.join_thread()
    os._exit(0)


def _lost(why):
    d = Rec().__dict__
    d["compared"] = 1
    d["fails"] = [why]
    d["t"] = 0
    return d


def _isolated(mod, case):
    """Run a case in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _follow_parent()
        try:
            data = json.dumps(_pack(run_case(mod, case))).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            traceback.print_exc()
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return _lost("the process running the case died")
    return _unpack(json.loads(data))


def _pack(d):
    return {k: sorted(v) if isinstance(v, set) else v for k, v in d.items()}


def _unpack(d):
    d["states"], d["outcomes"] = set(d["states"]), set(d["outcomes"])
    return d


class _Iso:
    def __init__(self, mod):
        self.mod = mod

    def run(self, case, rec):
        rec.__dict__.update(_isolated(self.mod, case))


def findings(pid):
    """Known findings of a property: {key: text}; the key starts a matching violation."""
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                head, _, text = line[len("finding: "):].partition(" ")
                if head == f"property={pid}":
                    key, _, what = text.partition(" :: ")
                    out.append((key.strip(), what.strip()))
    return out


def main(argv=None):
    import argparse
    import importlib

    p = argparse.ArgumentParser()
    p.add_argument("id")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    p.add_argument("--replay")
    p.add_argument("--jobs", type=int, default=0)
    p.add_argument("--list", action="store_true")
    p.add_argument("--limit", type=float, default=0)
    a = p.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    load_nannos()
    mod = importlib.import_module("mc.checks." + a.id.lower())
    if getattr(mod, "ISOLATE", False):
        runner = _Iso(mod)
    else:
        runner = mod

    if a.replay:
        d = json.load(open(a.replay))
        r = run_case(runner, d["case"])
        print("case:", json.dumps(d["case"]))
        for f in r["fails"]:
            print("  ", f)
        print("REPRODUCED" if r["fails"] else "not reproduced")
        return 1 if r["fails"] else 0

    cases = json.loads(json.dumps(mod.cases(tier)))
    if a.list:
        for c in cases:
            print(json.dumps(c))
        return 0
    jobs = a.jobs or min(8, len(os.sched_getaffinity(0)), max(1, len(cases)))
    limit = a.limit or (780.0 if tier == "quick" else 4 * 3600.0)
    deadline = t0 + limit
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    stop = ctx.Value("b", 0)
    sys.stdout.flush()
    now = ctx.RawArray("d", [-1.0] * (2 * jobs))

    def launch(k, start):
        pr = ctx.Process(target=_worker, args=(runner, cases, jobs, k, start, q, deadline, stop, now))
        pr.start()
        return pr

    procs = [launch(k, k) for k in range(jobs)]
    # a case that takes longer does not end
    patience = getattr(mod, "PATIENCE", 300.0) * (1 if tier == "quick" else 20)
    tot = Rec()
    done, bad, crashed = 0, [], False
    live = set(range(jobs))
    slow = (0, None)
    import queue as _q

    idle = {}
    while live:
        try:
            i, r = q.get(timeout=1)
        except _q.Empty:
            i = "idle"
        for k in sorted(live):
            if procs[k].is_alive():
                idle[k] = 0
                if now[2 * k] >= 0 and time.time() - now[2 * k + 1] > patience:
                    procs[k].kill()
                continue
            idle[k] = idle.get(k, 0) + (i == "idle")
            if idle[k] > 3:
                # the process ended, or was ended, in the middle of a case
                j, idle[k] = int(now[2 * k]), 0
                if j < 0:
                    crashed = True
                    live.discard(k)
                    continue
                slowly = time.time() - now[2 * k + 1] > patience
                bad.append((j, [f"the case does not end within {patience:.0f} s" if slowly else "the process running the case died"]))
                done += 1
                now[2 * k] = -1
                if len(bad) >= min(8, ENOUGH):
                    stop.value = 1
                    live.discard(k)
                else:
                    procs[k] = launch(k, j + jobs)
        if i == "idle":
            continue
        if i is None:
            live.discard(r)
            continue
        if i == "err":
            live.discard(r)
            crashed = True
            continue
        done += 1
        tot.states |= r["states"]
        tot.outcomes |= r["outcomes"]
        tot.transitions += r["transitions"]
        tot.traces += r["traces"]
        tot.compared += r["compared"]
        tot.worst = max(tot.worst, r["worst"])
        for k, v in r["skipped"].items():
            tot.skipped[k] = tot.skipped.get(k, 0) + v
        for k, v in r["extra"].items():
            tot.extra[k] = tot.extra.get(k, 0) + v
        if r["t"] > slow[0]:
            slow = (r["t"], i)
        if r["fails"]:
            bad.append((i, r["fails"]))
            if len(bad) >= ENOUGH:
                stop.value = 1
                if ENOUGH == 1:
                    break
    for pr in procs:
        pr.join(5 if ENOUGH > 1 else 0)
        if pr.is_alive():
            pr.kill()

    known = findings(a.id)
    hit, new = {}, []
    for i, fails in sorted(bad):
        rest = []
        for f in fails:
            for key, what in known:
                if f.startswith(key):
                    hit[key] = what
                    break
            else:
                rest.append(f)
        if rest:
            new.append((i, rest))
    for key, what in hit.items():
        print(f"KNOWN-FINDING: property={a.id} {key} {what}")

    wall = time.time() - t0
    step = max(1, len(cases) // 6)
    cov = {
        "states": len(tot.states),
        "transitions": tot.transitions,
        "traces_validated_against_impl": tot.traces,
        "comparisons": tot.compared,
        "distinct_outcomes": len(tot.outcomes),
        "cases": len(cases),
        "cases_executed": done,
        "exhaustive": done == len(cases),
        "bound": mod.BOUND[tier] if isinstance(mod.BOUND, dict) else mod.BOUND,
        "rule": mod.RULE,
        "worst_deviation_within_tolerance": tot.worst if not new else None,
        "skipped": tot.skipped,
        "samples": cases[::step][:8],
    }
    cov.update(tot.extra)
    if done < len(cases):
        cov["cap"] = f"stopped after {done} of {len(cases)} cases"
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    ev = {
        "property": a.id,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 3),
        "violations": len(new),
    }
    path = os.path.join(OUT, "evidence", f"{a.id}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)

    if new:
        rdir = os.path.join(OUT, "replay")
        os.makedirs(rdir, exist_ok=True)
        i, fails = new[0]
        rp = os.path.join(rdir, f"{a.id}.json")
        with open(rp, "w") as f:
            json.dump(
                {"property": a.id, "tier": tier, "index": i, "case": cases[i], "failures": fails,
                 "replay": f"/verif/run.sh {a.id} --replay {rp}"}, f, indent=1)
            f.write("\n")
        for i, fails in new[:3]:
            print(f"case {i}: {json.dumps(cases[i])[:600]}")
            for m in fails[:3]:
                print("   ", m)
        print(f"{len(new)} of {done} cases violate {a.id}")
        print(f"VIOLATION property={a.id} replay={rp}")
        sys.stdout.flush()
        return 1
    print(
        f"{a.id} {tier}: {done}/{len(cases)} cases, {len(tot.states)} states, {tot.transitions} transitions, "
        f"{tot.traces} executions, {tot.compared} comparisons, {len(tot.outcomes)} outcomes, "
        f"worst {tot.worst:.2g}, {wall:.1f}s (slowest case {slow[1]}: {slow[0]:.1f}s)"
    )
    if crashed:
        print("a worker crashed", file=sys.stderr)
        return 2
    if not tot.compared and not bad:
        print("vacuous run", file=sys.stderr)
        return 2
    return 0
