"""C09 records and time."""
import math
import numpy as np
from ..core import Sub, need
from .. import ref, gen, prob

RULE = "non-trivial: at least two steps recorded"
ASSUMPTIONS = ["the length of an angle step is judged by C03; here it only has to be the Keplerian time of the angle",
               "which steps the battery may shorten is judged by C14"]


def nominal(c, r, k):
    if not c["sundman"]: return c["step"]
    s = r.start(k)
    e = s[1] if c["kind"] == "keplerian" else math.hypot(s[1], s[2])
    ta = s[5] if c["kind"] == "keplerian" else s[5] - math.atan2(s[2], s[1])
    E0 = ref.ta2ea(ta, e); E1 = E0 + c["step"]
    return (c["step"] - e * (math.sin(E1) - math.sin(E0))) * math.sqrt(s[0] ** 3 / c["mu"])


def _check(c, rec):
    r = prob.run(c)
    r.labels(rec)
    rec.nontrivial(r.n >= 2)
    need(r.times[0] == 0, lambda: f"time starts at {r.times[0]}")
    need(np.array_equal(r.states[0], np.array(c["oe0"])), lambda: f"first state {r.states[0].tolist()}, problem has {c['oe0']}")
    need(r.masses[0] == c["mass0"], lambda: f"first mass {r.masses[0]}, problem has {c['mass0']}")
    need(r.battery[0] == (c["battery"]["initial"] if c["battery"] else 1.0), lambda: f"first battery level {r.battery[0]}")
    sg = math.copysign(1, c["step"]); tf = abs(c["tf"])
    short = 0; inside = True
    for k in range(r.n):
        dt = r.dt(k)
        if not r.ok(k): inside = False          # driven off the ellipses: what follows has no Keplerian time
        if c["sundman"] and not inside: continue
        need(abs(r.times[k]) < tf, lambda: f"step {k} starts at {r.times[k]!r}, allotted time is {tf!r}")
        need(dt * sg > 0, lambda: f"time goes from {r.times[k]!r} to {r.times[k + 1]!r} with step {c['step']}")
        if not np.all(np.isfinite(r.start(k))): continue
        d = nominal(c, r, k)
        tol = 1e-9 * abs(d) + 1e-12 * abs(r.times[k + 1])
        if abs(dt - d) <= tol: continue
        b = c["battery"]
        need(b is not None and b["rates"][1] > 0, lambda: f"step {k} lasts {dt!r}, configured {d!r}")
        left = (r.battery[k] - b["cap"][0]) / b["rates"][1]
        need(left < d and abs(dt - left) <= 1e-9 * abs(d) + 1e-12 * abs(r.times[k + 1]), lambda: f"step {k} lasts {dt!r}, configured {d!r}, battery is empty after {left!r}")
        short += 1
    if short: rec.label("shortened by battery")
    if r.exitcode == -2 and (inside or not c["sundman"]):
        need(abs(r.times[-1]) >= tf, lambda: f"stopped at {r.times[-1]!r} without any stopping condition, allotted time is {tf!r}")
    if r.exitcode not in (1, 2, -1, -3):
        need(r.exitcode == -2, lambda: f"exit code {r.exitcode}")


SUBS = [Sub("records", prob.cases(battery="some", maxsteps=40), _check, 1500, 30000, warm=4), Sub("long", prob.cases(battery="some", maxsteps=400, **prob.LONG), _check, 40, 1000),
        Sub("very_long", prob.cases(battery="some", minsteps=4000, maxsteps=9000, accel=(1e-8, 1e-5), near=False, deplete=False, ptrb=False, clamp=False), _check, 4, 100)]
