"""C10 transitions."""
import math
import numpy as np
from ..core import Sub, need
from .. import ref, gen, prob, qref
from ..lib import direction

RULE = "non-trivial: at least one step compared with the reference integrator in which an acceleration acts"
ASSUMPTIONS = ["the five slow rates are held over a step, as the library documents ('control fixed in RTN for step'); the anomaly is integrated",
               "recorded angles are compared where the descent direction is well conditioned and Q smooth",
               "steps starting from states outside the domain of the element set are not judged"]


def _check(c, rec):
    r = prob.run(c)
    r.labels(rec)
    judge(c, r, rec)


def judge(c, r, rec, perturbation=None):
    """perturbation(k): acceleration acting during step k and its uncertainty, or None where it is not judged"""
    for k in range(r.n):
        al, be, th = r.controls[k]
        need(th in (0, 1), lambda: f"step {k}: throttle {th}")
        if not r.ok(k): continue
        s = r.start(k); dt = r.dt(k)
        pb, ptol = (r.ptrb(k), 0.0) if perturbation is None else perturbation(k) or (None, None)
        if pb is None: rec.label("not judged"); continue
        acc = r.accel(k) * direction(al, be) if th == 1 else np.zeros(3)
        if not np.all(np.isfinite(acc)) or not np.all(np.isfinite(pb)):
            need(th == 0 or not np.all(np.isfinite(pb)), lambda: f"step {k}: thrusts along undefined angles")
            continue
        want = ref.frozen_step(c["kind"], c["integrator"], s, dt, acc, pb, c["mu"])
        if not np.all(np.isfinite(want)): rec.label("not judged"); continue
        got = r.states[k + 1]
        e = s[1] if c["kind"] == "keplerian" else math.hypot(s[1], s[2])
        # Keplerian anomaly rates are singular where a step leads through a circular orbit
        emin = (0.0 if s[1] * want[1] <= 0 else min(abs(s[1]), abs(want[1]))) if c["kind"] == "keplerian" else e
        G = np.abs(ref.gauss5(c["kind"], s, c["mu"])) @ np.abs(acc + pb) * abs(dt)
        slow = 1e-10 * G + np.abs(ref.gauss5(c["kind"], s, c["mu"])) @ np.full(3, ptol) * abs(dt) + 1e-14 * (np.abs(s[:5]) + np.abs(want[:5]))
        n = math.sqrt(c["mu"] / s[0] ** 3) * abs(dt)
        fast = 1e-11 * abs(want[5] - s[5]) / (1 - e) ** 2 + 1e-13 * (1 + abs(s[5])) + (2 * ptol + 1e-10 * np.linalg.norm(acc + pb)) * abs(dt) / emin * math.sqrt(s[0] / c["mu"]) if emin else math.inf
        if not r.ok(k + 1): fast *= 1e3         # a step so long that it leaves the ellipses amplifies rounding
        tol = np.append(slow, fast)
        need(np.all(np.abs(got - want) <= tol), lambda: f"step {k} ({c['integrator']}, dt {dt!r}, throttle {th}): {s.tolist()} -> {got.tolist()}, want {want.tolist()} (difference {(got - want).tolist()}, tolerance {tol.tolist()})")
        if th == 0 and not np.any(pb):
            need(np.all(np.abs(got[:5] - s[:5]) <= 1e-14 * np.abs(s[:5])), lambda: f"step {k}: coasting changes {s[:5].tolist()} to {got[:5].tolist()}")
            rec.label("pure coast")
        rec.nontrivial(np.any(acc + pb))
        if np.any(pb): rec.label("perturbed step")
        if th == 1 or not np.isnan(r.bounds[k, 0]):
            a = qref.at(r.point(k))
            if a["good"]:
                rec.label("angles compared")
                t = direction(al, be); w = -a["D"] / a["nD"]
                need(np.linalg.norm(t - w) <= 1e-8 + 10 * a["loss"] / a["nD"], lambda: f"step {k}: recorded angles point along {t.tolist()}, the feedback law along {w.tolist()}")


SUBS = [Sub("transitions", prob.cases(ptrb="some", maxsteps=15), _check, 1500, 30000, warm=4), Sub("long", prob.cases(ptrb="some", maxsteps=160, near=False, **prob.LONG), _check, 32, 800)]
