"""C23 recorded Q and rate."""
import math
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, need
from .. import ref, gen, prob, qref

RULE = "non-trivial: Q compared at two or more steps with changing elements; for descent, a step whose first-order prediction is valid"
ASSUMPTIONS = ["steps where the direction is ill-conditioned or Q not smooth are compared in Q only"]


def _records(c, rec):
    r = prob.run(c)
    r.labels(rec)
    m = 0
    for k in range(r.n):
        if not r.ok(k): continue
        pt = r.point(k)
        from .c06 import bounded
        if not bounded(pt): rec.label("penalty out of range"); continue
        q = float(ref.Q(pt["kind"], np.array(pt["oe"][:5]), pt["oeT"], pt["f"], pt["mu"], pt["hp"], pt["woe"]))
        t = qref.q_tol(pt, q)
        need(abs(r.Qs[k] - q) <= t, lambda: f"step {k}: recorded Q {r.Qs[k]!r}, Q at its start state {q!r} (tolerance {t:.3g})")
        m += 1
        a = qref.at(pt)
        if a["good"]:
            rate = pt["f"] * a["nD"]
            need(abs(r.dQdts[k] - rate) <= (1e-8 + 10 * a["loss"] / a["nD"]) * abs(rate), lambda: f"step {k}: recorded rate {r.dQdts[k]!r}, steepest descent {rate!r}")
            rec.label("rate compared")
        if k + 1 < r.n and r.controls[k, 2] == 0 and c["ptrb"] is None and r.ok(k + 1) and np.array_equal(r.start(k + 1)[:5], r.states[k + 1][:5]):
            x = r.Qs[k] * r.accel(k) ** 2; y = r.Qs[k + 1] * r.accel(k + 1) ** 2
            need(abs(x - y) <= 1e-12 * abs(x) + 2 * t * r.accel(k) ** 2, lambda: f"coasting step {k} changes Q from {r.Qs[k]!r} to {r.Qs[k + 1]!r}")
            rec.label("coast")
    rec.nontrivial(m >= 2 and np.ptp(r.states[:, 0]) > 0)


@st.composite
def _short(draw):
    c = draw(prob.cases(near=False, maxsteps=2, sundman=False, backward=False, duty=False, battery=False, eta=False, ptrb=False, deplete=False, clamp=False, accel=(1e-5, 1e-3)))
    u = c["units"]
    h = draw(gen.logu(1e-5, 1e-2)) * u[1]
    c["step"] = c["dt0"] = h; c["tf"] = 0.5 * h; c["mdot"] = draw(gen.uni(0.0, 0.1)) * c["mass0"] / u[1]
    return c


def _descent(c, rec):
    r = prob.run(c)
    rec.label(c["kind"], c["integrator"])
    if r.n != 1 or not r.ok(0) or not r.ok(1): rec.label("not judged"); return
    pt = r.point(0); a = qref.at(pt)
    if not a["good"]: rec.label("not judged"); return
    p2 = dict(pt, oe=r.states[1].tolist())                # same acceleration, new state
    if c["kind"] == "keplerian" and not np.array_equal(r.states[0][:5], r.start(0)[:5]): rec.label("clamped"); return
    dQ = float(ref.Q(pt["kind"], r.states[1][:5], pt["oeT"], pt["f"], pt["mu"], pt["hp"], pt["woe"])) - a["q"]
    pred = -abs(r.dQdts[0]) * abs(r.dt(0))
    # second-order size by an independent small step along the reference direction
    s = np.array(pt["oe"][:5]); d5 = a["G"] @ (-a["D"] / a["nD"]) * pt["f"] * r.dt(0)
    q2 = float(ref.Q(pt["kind"], s + d5, pt["oeT"], pt["f"], pt["mu"], pt["hp"], pt["woe"])) - a["q"]
    noise = 20 * qref.q_tol(pt, a["q"])
    if abs(q2 - pred) > 0.05 * abs(pred) or noise > 0.01 * abs(pred): rec.label("not first order or rounding"); return
    need(r.controls[0, 2] == 1, "no thrust although nothing limits it")
    need(dQ < 0 and abs(dQ - pred) <= 0.1 * abs(pred), lambda: f"Q changes by {dQ!r} over a thrusting step, recorded rate times step is {pred!r}")
    rec.nontrivial()


SUBS = [Sub("records", prob.cases(maxsteps=15), _records, 1200, 25000, warm=4), Sub("long", prob.cases(maxsteps=200, near=False, **prob.LONG), _records, 32, 800), Sub("descent", _short(), _descent, 1000, 20000)]
