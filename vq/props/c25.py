"""C25 convergence of feasible transfers."""
import math
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, need
from .. import ref, gen, prob

RULE = "non-trivial: the transfer takes at least 30 steps and moves node and apse line"
ASSUMPTIONS = ["the family was calibrated: of 12,000 transfers drawn from it all arrive within a quarter of the allotted time",
               "default hyper-parameters; acceleration times step is at most a fifth of the tolerance, so that the end game is not limited by the step",
               "Keplerian node and periapsis start above 0.3 rad (they may pass a full turn), inside the library's default element bounds"]
PI = math.pi


@st.composite
def _case(draw):
    kind = draw(st.sampled_from(["keplerian", "mee_with_a"]))
    a, e = draw(gen.uni(0.8, 1.5)), draw(gen.uni(0.15, 0.4))
    if kind == "keplerian": i, O, w = draw(gen.uni(0.15, 1.2)), draw(gen.uni(0.6, 9.0)), draw(gen.uni(0.6, 9.0))
    else: i, O, w = draw(st.one_of(gen.uni(0.0, 1.2), st.just(0.0))), draw(gen.uni(-4, 7)), draw(gen.uni(-4, 7))
    k0 = [a, e, i, O, w, draw(gen.uni(-4, 7))]
    aT = a if draw(st.integers(0, 2)) == 0 else a * draw(gen.uni(0.85, 1.2))
    kT = [aT, min(0.5, max(0.12, e + draw(gen.uni(-0.15, 0.15)))), min(1.4, max(0.1, i + draw(gen.uni(-0.25, 0.25)))), O + draw(gen.uni(-0.3, 0.3)), w + draw(gen.uni(-0.3, 0.3))]
    sun, back = draw(st.booleans()), draw(st.integers(0, 4)) < 2
    acc = draw(gen.logu(4e-3, 1e-2))
    step = draw(gen.uni(0.05, 0.2))
    if not sun: step *= a ** 1.5
    if kind == "keplerian":
        oe0, oeT = k0, list(kT)
        if draw(st.integers(0, 2)) == 0: oeT[3] += 2 * PI * draw(st.sampled_from([-1, 1]))
        if draw(st.integers(0, 2)) == 0: oeT[4] += 2 * PI * draw(st.sampled_from([-1, 1]))
    else:
        oe0, oeT = ref.kep2meea(k0).tolist(), ref.kep2meea(kT + [0.0])[:5].tolist()
    c = dict(kind=kind, integrator=draw(st.sampled_from(["rk4", "rkf45"])), sundman=sun, step=-step if back else step, mu=1.0, oe0=oe0, oeT=oeT, mass0=1.0, tmax=acc,
             mdot=0.0 if back else acc * draw(st.sampled_from([0.0, 0.1])), tf=4 / acc, mass_min=0.1, units=[1.0] * 3, dt0=step, woe=None, hp=dict(prob.HP0),
             tol=[1e-2, 1e-2, 1e-2, 2e-2, 2e-2] if kind == "keplerian" else [1e-2] * 5, relaxed=[1.0, 10 ** 9], nan_thr=None, grid=None, duty=None, battery=None,
             eta_a=0.0, eta_r=draw(st.sampled_from([0.0, 0.0, 0.15])), ptrb=None, bounds=None, sixT=draw(st.booleans()))
    if draw(st.integers(0, 2)) == 0: c = prob.scale(c, draw(gen.logu(0.1, 1e3)), draw(gen.logu(1e-2, 1e3)), draw(gen.logu(0.2, 1e3)))
    return c


def _check(c, rec):
    r = prob.run(c)
    L = c["units"][0]
    need(r.exitcode == 1 and r.converge == True, lambda: f"not reached: exit code {r.exitcode}, converged {r.converge} after {r.n} steps, {r.times[-1]!r} of {c['tf']!r}; "
                                                         f"final state {r.states[-1].tolist()}, target {c['oeT']}, tolerance {r.tol.tolist()}, mass {r.masses[-1]!r}")
    x = ref.oe2cart(c["kind"], r.states[-1], c["mu"])
    y = ref.oe2cart(c["kind"], np.append(c["oeT"][:5], 0.0), c["mu"])
    # the same ellipse: energy, plane and apse line
    t = 0.12
    hx, hy = ref.hvec(x), ref.hvec(y)
    need(np.linalg.norm(hx - hy) <= t * np.linalg.norm(hy), lambda: f"angular momentum {hx.tolist()} of the reached orbit, {hy.tolist()} of the target")
    ex, ey = ref.evec(x, c["mu"]), ref.evec(y, c["mu"])
    need(np.linalg.norm(ex - ey) <= t, lambda: f"eccentricity vector {ex.tolist()} of the reached orbit, {ey.tolist()} of the target")
    Ex, Ey = ref.energy(x, c["mu"]), ref.energy(y, c["mu"])
    need(abs(Ex - Ey) <= 0.03 * abs(Ey), lambda: f"energy {Ex} of the reached orbit, {Ey} of the target")
    r.labels(rec)
    rec.nontrivial(r.n >= 30)


SUBS = [Sub("transfers", _case(), _check, 320, 6000, warm=3)]
