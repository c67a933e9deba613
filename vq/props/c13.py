"""C13 duty cycle."""
import math
from hypothesis import strategies as st
from ..core import Sub
from .. import gen, prob, avail

RULE = "non-trivial: at least two OFF steps, and thrust resumes at least once"
ASSUMPTIONS = ["elapsed times within rounding of a phase's duration may count either way, unless all times are exact binary fractions",
               "an empty battery starts an OFF phase; combinations with a battery are judged together with C14's model"]


@st.composite
def _case(draw, maxsteps):
    c = draw(prob.cases(duty=True, battery=False, near=False, deplete=False, maxsteps=maxsteps, accel=(1e-4, 5e-3), backward=draw(st.integers(0, 2)) == 0))
    return c


@st.composite
def _exact(draw):
    """binary times: elapsed time can equal a phase's duration exactly"""
    c = draw(prob.cases(duty=False, battery=False, near=False, deplete=False, units=False, sundman=False, ptrb=False, clamp=False, maxsteps=30, accel=(1e-4, 5e-3), backward=draw(st.booleans())))
    s = draw(st.sampled_from([0.125, 0.25, 0.0625])); n = draw(st.integers(6, 40))
    c["step"] = math.copysign(s, c["step"]); c["dt0"] = s; c["tf"] = s * (n - 0.5)
    m = st.one_of(st.integers(0, 6).map(float), st.integers(0, 12).map(lambda k: k / 2))
    c["duty"] = [draw(m) * s, draw(m) * s]
    return c


def _check(c, rec):
    r = prob.run(c)
    seen = avail.judge(c, r, rec)
    rec.label(c["kind"], "sundman" if c["sundman"] else "time step", "backward" if c["step"] < 0 else "forward", c["integrator"])
    rec.nontrivial(seen["off"] >= 2 and seen["refill"])


def _long(c, rec):
    _check(c, rec)


SUBS = [Sub("phases", _case(50), _check, 500, 10000, warm=4), Sub("exact", _exact(), _check, 500, 10000),
        Sub("with_battery", prob.cases(duty=True, battery=True, backward=False, near=False, deplete=False, maxsteps=50, accel=(1e-4, 5e-3)), _check, 300, 5000),
        Sub("long", _case(300), _long, 40, 1500)]
