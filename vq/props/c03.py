"""C03 eccentric anomaly and angle steps."""
import math
import numpy as np
from hypothesis import strategies as st
import pyqlaw
from ..core import Sub, api, arr, need
from .. import ref, gen, prob
from ..lib import both

RULE = "non-trivial: eccentricity above 1e-3; for steps, at least three recorded ones"
ASSUMPTIONS = ["eccentricity at most 0.9999 (0.97 in recorded steps)", "during a recorded step the osculating orbit is the recorded (Keplerian: bounded) state the step starts from",
               "steps that the battery shortens are C09's and C14's"]
PI = math.pi


@st.composite
def _ta_case(draw):
    return dict(e=draw(st.one_of(gen.ECC, gen.uni(0, 0.97), gen.logu(1e-4, 0.1).map(lambda x: 1 - x))), ta=draw(gen.angle(-10, 10)), interpreted=draw(st.booleans()))


def _conic(name, E, ta, e):
    need(math.isfinite(E), lambda: f"{name} returned {E}")
    d = 1 + e * math.cos(ta)
    ce, se = (e + math.cos(ta)) / d, math.sqrt(1 - e * e) * math.sin(ta) / d
    tol = 1e-12 / (1 - e) * (1 + abs(ta))
    need(abs(math.cos(E) - ce) <= tol and abs(math.sin(E) - se) <= tol,
         lambda: f"{name}: eccentric anomaly {E!r} does not belong to true anomaly {ta!r}, e = {e!r}: want {math.atan2(se, ce)!r}")


def _ta(c, rec):
    E = float(arr("ta2ea", api("ta2ea", both(pyqlaw.ta2ea, c["interpreted"]), c["ta"], c["e"]), ()))
    rec.nontrivial(c["e"] > 1e-3)
    _conic("ta2ea", E, c["ta"], c["e"])


@st.composite
def _mee_case(draw):
    e = draw(st.one_of(gen.ECC, gen.uni(0, 0.97), gen.logu(1e-4, 0.1).map(lambda x: 1 - x))); lp = draw(gen.angle())
    return dict(size=draw(gen.logu(0.1, 1e4)), f=draw(st.sampled_from([None, None, 0.0])), e=e, lp=lp, h=draw(gen.uni(-2, 2)), k=draw(gen.uni(-2, 2)),
                L=draw(gen.angle(-10, 10)), interpreted=draw(st.booleans()))


def _mee(c, rec):
    e = c["e"]
    f, g = e * math.cos(c["lp"]), e * math.sin(c["lp"])
    if c["f"] is not None:                                   # apse line exactly along an axis
        f, g = 0.0, math.copysign(e, g)
    e = math.hypot(f, g)
    rec.nontrivial(e > 1e-3)
    rec.label("f<0" if f < 0 else "f=0" if f == 0 else "f>0")
    oe = np.array([c["size"], f, g, c["h"], c["k"], c["L"]])
    E = float(arr("mee2ea", api("mee2ea", both(pyqlaw.mee2ea, c["interpreted"]), oe), ()))
    if e < 1e-100:                                               # no apse line to measure from
        need(math.isfinite(E), lambda: f"mee2ea returned {E}")
    else:
        _conic("mee2ea", E, c["L"] - math.atan2(g, f), e)


def _steps(c, rec):
    r = prob.run(c)
    n = len(r.times) - 1
    rec.nontrivial(n >= 3)
    rec.label(c["kind"], "backward" if c["step"] < 0 else "forward", "mu=1" if c["mu"] == 1.0 else "mu!=1")
    for k in range(n):
        if not r.ok(k): continue
        s = r.start(k)
        e = s[1] if c["kind"] == "keplerian" else math.hypot(s[1], s[2])
        ta = s[5] if c["kind"] == "keplerian" else s[5] - math.atan2(s[2], s[1])
        E0 = ref.ta2ea(ta, e); E1 = E0 + c["step"]
        dt = ((E1 - E0) - e * (math.sin(E1) - math.sin(E0))) * math.sqrt(s[0] ** 3 / c["mu"])
        got = r.times[k + 1] - r.times[k]
        tol = 1e-9 * abs(dt) + 1e-13 * abs(r.times[k + 1]) + 1e-12 * math.sqrt(s[0] ** 3 / c["mu"]) / (1 - e)
        need(abs(got - dt) <= tol, lambda: f"step {k} lasts {got!r}; the eccentric anomaly advances by {c['step']} in {dt!r}")


SUBS = [Sub("ta2ea", _ta_case(), _ta, 3000, 60000), Sub("mee2ea", _mee_case(), _mee, 3000, 60000),
        Sub("sundman_steps", prob.cases(sundman=True, maxsteps=25, battery=False), _steps, 500, 10000),
        Sub("long", prob.cases(sundman=True, maxsteps=200, battery=False, near=False, deplete=False, **prob.LONG), _steps, 24, 600)]
