"""C22 canonical units."""
import math
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, need
from .. import ref, gen, prob, qref

RULE = "non-trivial: at least three steps compared, units of length, time and mass all changed"
ASSUMPTIONS = ["units are changed by powers of two (lengths by powers of four), so that restating the problem is exact and both solves make the same comparisons",
               "comparison stops where the orbit is no longer elliptic or the feedback direction is ill-conditioned"]


@st.composite
def _case(draw, **kw):
    c = draw(prob.cases(**dict(dict(maxsteps=20, units=False), **kw)))
    if c["grid"] is not None: c["grid"] = max(c["grid"], 4)       # with a single point the relative efficiency is 0/0
    k = lambda a, b: draw(st.integers(a, b).filter(lambda x: x != 0)) if draw(st.integers(0, 4)) else 0
    w = draw(st.sampled_from([1, 1, 3]))            # also units far from canonical ones
    return dict(c=c, u=[4.0 ** k(-5 * w, 5 * w), 2.0 ** k(-12 * w, 12 * w), 2.0 ** k(-2, 10 * w), 2.0 ** (k(-6, 6) if c["battery"] else 0)])


def _check(case, rec):
    L, T, M, B = case["u"]
    c = case["c"]; d = prob.scale(c, L, T, M, B)
    r, s = prob.run(c), prob.run(d)
    r.labels(rec)
    U = np.array([L, 1, 1, 1, 1, 1])
    cmp = 0; whole = True
    for k in range(min(r.n, s.n)):
        if not r.ok(k) or not qref.at(r.point(k))["good"]: whole = False; break
        tag = f"step {k} in units {case['u']}"

        def same(name, a, b, tol=1e-7, scale=0.0):
            a, b = np.asarray(a, float), np.asarray(b, float)
            need(bool(np.all((np.abs(a - b) <= tol * (np.maximum(np.abs(a), np.abs(b)) + scale)) | (np.isnan(a) & np.isnan(b)) | (a == b))),
                 lambda: f"{tag}: {name} {a.tolist()} in canonical units, {b.tolist()} after restating the problem")
        same("thresholds", r.bounds[k], s.bounds[k], scale=1)
        same("efficiencies", r.etas[k], s.etas[k], scale=1)
        need(r.controls[k, 2] == s.controls[k, 2], lambda: f"{tag}: throttle {r.controls[k, 2]} becomes {s.controls[k, 2]}")
        al, be = (r.controls[k, :2], s.controls[k, :2])
        for j, n in enumerate(("alpha", "beta")):
            need(abs(ref.wrap_pi(al[j] - be[j])) <= 1e-7, lambda: f"{tag}: {n} {al[j]!r} becomes {be[j]!r}")
        same("Q", r.Qs[k], s.Qs[k] / T ** 2); same("rate of Q", r.dQdts[k], s.dQdts[k] / T)
        same("time", r.times[k + 1], s.times[k + 1] / T); same("mass", r.masses[k + 1], s.masses[k + 1] / M)
        same("battery", r.battery[k + 1] / 1.0, s.battery[k + 1] / (B if c["battery"] else 1.0), scale=1)
        same("state", r.states[k + 1], s.states[k + 1] / U, scale=1 + abs(c["oe0"][0]))
        cmp += 1
    if whole:
        need(r.n == s.n, lambda: f"{r.n} steps in canonical units, {s.n} in units {case['u']} (exit codes {r.exitcode}, {s.exitcode})")
        need(r.exitcode == s.exitcode, lambda: f"exit code {r.exitcode} in canonical units, {s.exitcode} in units {case['u']}")
        need(bool(r.converge) == bool(s.converge), "converged flag depends on the units")
        rec.label("compared to the end")
    rec.nontrivial(cmp >= 3 and L != 1 and T != 1 and M != 1)


SUBS = [Sub("units", _case(), _check, 700, 15000, warm=4), Sub("efficiency", _case(eta=True, duty=True, battery=False), _check, 300, 6000),
        Sub("long", _case(near=False, **dict(prob.LONG, maxsteps=160)), _check, 24, 600)]
