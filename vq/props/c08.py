"""C08 coasting by efficiency."""
import math
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, need
from .. import ref, gen, prob, qref

RULE = "non-trivial: a solve with a positive threshold in which the thruster is both on and off, or a threshold function is used"
ASSUMPTIONS = ["steps where rounding could decide the comparison are not judged (counted as 'tie')",
               "a step counts as one where thrusting is allowed when thresholds were recorded for it"]


@st.composite
def _case(draw, maxsteps=20, **kw):
    c = draw(prob.cases(eta=True, near=False, deplete=False, maxsteps=maxsteps, **kw))
    if c["step"] < 0 and c["battery"]: c["battery"] = None
    return c


def _thr(spec, c, r, k):
    return prob.eta_value(spec, c["units"], r.times[k], r.start(k), r.masses[k], r.battery[k]) if isinstance(spec, list) else spec


def _check(c, rec):
    r = prob.run(c)
    r.labels(rec)
    N = 5 if c["grid"] is None else c["grid"]
    on = off = 0
    for k in range(r.n):
        th = r.controls[k, 2]
        if np.any(np.isnan(r.bounds[k])):
            need(th == 0, lambda: f"step {k}: thrust although no threshold was evaluated")
            continue
        want = [_thr(c["eta_a"], c, r, k), _thr(c["eta_r"], c, r, k)]
        for j, nm in enumerate(("absolute", "relative")):
            need(abs(r.bounds[k, j] - want[j]) <= 1e-9, lambda: f"step {k}: {nm} threshold recorded {r.bounds[k, j]!r}, the one given is {want[j]!r}")
        if max(want) <= 1e-12:
            if max(want) <= 0 or abs(max(want)) > 0 or True:
                if max(want) <= -1e-12 or not (isinstance(c["eta_a"], list) or isinstance(c["eta_r"], list)):
                    need(th == 1, lambda: f"step {k}: coasting although both thresholds are {want}")
            continue
        if not r.ok(k): continue
        pt = r.point(k)
        q = qref.rates_around(pt, N) if qref.at(pt)["good"] else None
        if q is None: rec.label("not judged"); continue
        grid, cur, loss = q
        hi, lo = float(grid.max()), float(grid.min())
        if loss > 1e-4 * hi: rec.label("not judged"); continue
        va, ta = cur / hi, 1e-9 + 20 * loss / hi
        need(abs(r.etas[k, 0] - va) <= ta, lambda: f"step {k}: absolute efficiency recorded {r.etas[k, 0]!r}, current over best rate is {va!r}")
        rel = hi - lo > 1e-3 * loss + 1e-9 * hi and N > 1
        if rel:
            vr, tr = (cur - lo) / (hi - lo), 1e-9 + 20 * loss / (hi - lo)
            if tr > 1e-3: rec.label("not judged"); continue
            need(abs(r.etas[k, 1] - vr) <= tr, lambda: f"step {k}: relative efficiency recorded {r.etas[k, 1]!r}, want {vr!r}")
        else:
            rec.label("one-point grid"); vr, tr = (math.nan, 0.0) if hi == lo else (0.5, 1.0)
            if N > 1: continue
        if abs(va - want[0]) <= ta or (rel and abs(vr - want[1]) <= tr): rec.label("tie"); continue
        if not rel and N == 1:
            # nothing to compare with: only the absolute threshold can decide
            coast = va < want[0]
        else:
            coast = va < want[0] or vr < want[1]
        if coast: off += 1
        else: on += 1
        need(th == (0 if coast else 1), lambda: f"step {k}: throttle {th}, efficiencies {va:.6g} and {vr:.6g} with thresholds {want}")
    for f in (r.ea, r.er):
        if isinstance(f, prob.Eta):
            rec.label("function called")
            for (t, oe, m, b) in f.calls:
                ks = np.flatnonzero(np.abs(r.times - t) <= 1e-12 * (1 + abs(t)))
                good = any(abs(r.masses[k] - m) <= 1e-12 * m and abs(r.battery[k] - b) <= 1e-12 * (1 + abs(b)) and
                           np.allclose(r.start(k), oe, rtol=1e-12, atol=1e-13, equal_nan=True) for k in ks)
                need(good, lambda: f"threshold function called with t={t}, oe={oe.tolist()}, mass={m}, battery={b}, which is no step of the solve")
    if on: rec.label("on by efficiency")
    if off: rec.label("off by efficiency")
    rec.nontrivial((on and off) or isinstance(c["eta_a"], list) or isinstance(c["eta_r"], list))


SUBS = [Sub("efficiency", _case(), _check, 1200, 25000, warm=4), Sub("long", _case(160, **prob.LONG), _check, 40, 1000)]
