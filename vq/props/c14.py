"""C14 battery."""
from hypothesis import strategies as st
from ..core import Sub
from .. import gen, prob, avail

RULE = "non-trivial: the level reaches the minimum, or a step is shortened, and thrust resumes after recharging"
ASSUMPTIONS = ["in backward propagation elapsed time is negative, so that the level rises over powered steps, as the mass does", "levels within rounding of a bound may count either way"]


def _check(c, rec):
    r = prob.run(c)
    seen = avail.judge(c, r, rec)
    rec.label(c["kind"], "sundman" if c["sundman"] else "time step", c["integrator"], "full recharge" if c["battery"]["full"] else "partial recharge")
    rec.nontrivial((seen["empty"] or seen["short"]) and seen["refill"])


def _backward(c, rec):
    """the same ledger with elapsed time running backward: the level before a powered step was higher"""
    r = prob.run(c)
    seen = avail.judge(c, r, rec)
    b = r.battery
    if any(b[k + 1] > b[k] for k in range(r.n)): rec.label("rises")
    if any(b[k + 1] < b[k] for k in range(r.n)): rec.label("falls")
    if seen["empty"]: rec.label("reaches the minimum")
    rec.nontrivial(seen["on"] and seen["off"])


_kw = dict(battery=True, backward=False, near=False, deplete=False, accel=(1e-4, 5e-3))
SUBS = [Sub("battery", prob.cases(duty=False, maxsteps=40, **_kw), _check, 800, 15000, warm=4),
        Sub("with_duty", prob.cases(duty=True, maxsteps=50, **_kw), _check, 400, 8000),
        Sub("backward", prob.cases(duty=True, maxsteps=40, **dict(_kw, battery="both", backward=True)), _backward, 200, 4000),
        Sub("long", prob.cases(maxsteps=250, **_kw), _check, 40, 1500)]
