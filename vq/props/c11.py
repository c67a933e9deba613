"""C11 mass."""
import math
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, need
from .. import ref, gen, prob

RULE = "non-trivial: mass is spent in at least one step, or it is depleted"
ASSUMPTIONS = []


def judge(c, r, rec):
    for k in range(r.n):
        if not math.isfinite(r.dt(k)):
            rec.label("left the elliptic domain"); break       # an angle step without a duration
        th = r.controls[k, 2]
        want = r.masses[k] - (c["mdot"] * r.dt(k) if th == 1 else 0.0)
        tol = 1e-12 * (abs(r.masses[k]) + abs(want)) if th == 1 else 0.0
        # the step may be recorded only through times, whose difference is rounded
        tol += c["mdot"] * 1e-15 * abs(r.times[k + 1]) * 4 if th == 1 else 0.0
        need(abs(r.masses[k + 1] - want) <= tol, lambda: f"step {k} (throttle {th}, dt {r.dt(k)!r}): mass {r.masses[k]!r} -> {r.masses[k + 1]!r}, want {want!r}")
        if k + 1 < r.n:
            need(r.masses[k + 1] > c["mass_min"], lambda: f"continues after step {k} left mass {r.masses[k + 1]!r}, minimum {c['mass_min']!r}")
    if r.n and r.masses[-1] <= c["mass_min"]:
        rec.label("depleted")
        if r.masses[0] <= c["mass_min"]: rec.label("depleted from the start", "coasting" if r.controls[-1, 2] == 0 else "thrusting")
        need(r.exitcode in (-1, 1, 2), lambda: f"mass {r.masses[-1]!r} is at or below the minimum {c['mass_min']!r}, exit code {r.exitcode}")
        if r.exitcode in (1, 2):
            rec.label("depleted and converged")
    if r.exitcode == -1:
        need(r.n and r.masses[-1] <= c["mass_min"], lambda: f"exit code -1 with mass {r.masses[-1]!r} above the minimum {c['mass_min']!r}")
        need(r.converge is False or r.converge == False, "converged flag set on mass depletion")


def _check(c, rec):
    r = prob.run(c)
    r.labels(rec)
    judge(c, r, rec)
    rec.nontrivial(r.n and r.masses[-1] != r.masses[0])


@st.composite
def _case(draw, **kw):
    """also spacecraft that start at or below the minimum"""
    c = draw(prob.cases(**kw))
    if draw(st.integers(0, 7)) == 0: c["mass_min"] = c["mass0"] * draw(st.sampled_from([1.0, 1.0, 1.5]))
    return c


@st.composite
def _edge(draw):
    """minimum reached exactly, by dyadic flow"""
    c = draw(prob.cases(deplete=False, units=False, sundman=False, backward=False, battery=False, eta=False, near=False, duty=False, ptrb=False, maxsteps=12))
    c["mass0"], c["step"], c["dt0"] = 1.0, 0.25, 0.25
    c["tmax"] = 1e-3
    n = draw(st.integers(1, 8))
    c["mdot"] = 0.125; c["mass_min"] = 1.0 - n * 0.03125 - draw(st.sampled_from([0.0, 0.0, 1 / 64]))
    c["tf"] = 0.25 * draw(st.integers(1, 14))
    return c


def _exact(c, rec):
    r = prob.run(c)
    r.labels(rec)
    judge(c, r, rec)
    rec.nontrivial(r.n and r.masses[-1] == c["mass_min"])


SUBS = [Sub("mass", _case(deplete="some", battery="some", maxsteps=30), _check, 1500, 30000, warm=4), Sub("long", prob.cases(deplete="some", battery="some", maxsteps=400, **prob.LONG), _check, 40, 1000), Sub("exact_minimum", _edge(), _exact, 250, 3000)]
