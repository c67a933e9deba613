"""C04 equations of motion against Newton's law."""
import math
import numpy as np
from hypothesis import strategies as st
import pyqlaw
import pyqlaw._eom as _eom
from ..core import Sub, api, arr, need
from .. import ref, gen
from ..lib import both, symbolic, law_args

RULE = "non-trivial: at least one non-zero acceleration and eccentricity above 1e-3"
ASSUMPTIONS = ["the slow rows of the two element sets used by the control law come from its own matrix, as in propagation",
               "Keplerian: eccentricity at least 1e-3, inclination at least 1e-3 from 0 and pi"]
PI = math.pi


@st.composite
def _case(draw):
    kind = draw(st.sampled_from(["keplerian", "mee_with_a", "mee_with_a", "mee"]))
    mu = draw(gen.mus)
    a = draw(gen.logu(0.1, 1e3))
    kep = kind == "keplerian"
    e = draw(st.one_of(gen.uni(1e-3, 0.9), st.sampled_from([0.01, 0.5]))) if kep else draw(gen.ECC)
    if kep:
        oe = [a, e, draw(gen.uni(1e-3, PI - 1e-3)), draw(gen.angle()), draw(gen.angle()), draw(gen.angle())]
    else:
        lp = draw(gen.angle())
        f, g = e * math.cos(lp), e * math.sin(lp)
        ax = draw(st.integers(0, 5))
        if ax == 0: f, g = 0.0, math.copysign(e, g)
        if ax == 1: f, g = math.copysign(e, f), 0.0
        h, k = draw(st.one_of(gen.uni(-2, 2), st.just(0.0))), draw(st.one_of(gen.uni(-2, 2), st.just(0.0)))
        oe = [a, f, g, h, k, draw(gen.angle(-10, 10))]
    g0 = mu / a ** 2
    sc = draw(gen.logu(1e-6, 1.0)) * g0
    return dict(kind=kind, oe=oe, mu=mu, u=[x * sc for x in draw(gen.vec3())], p=[x * sc for x in draw(gen.vec3())],
                accel=draw(gen.signed(gen.logu(1e-5, 0.1))) * g0, interpreted=draw(st.booleans()), t=draw(gen.uni(-10, 10)))


def _eom_case(c, rec):
    kind, oe, mu = c["kind"], np.array(c["oe"]), c["mu"]
    u, p = np.array(c["u"]), np.array(c["p"])
    e = oe[1] if kind == "keplerian" else math.hypot(oe[1], oe[2])
    rec.label(kind)
    if kind != "keplerian":
        rec.label("f<0" if oe[1] < 0 else "f=0" if oe[1] == 0 else "f>0")
    rec.nontrivial(e > 1e-3 and (np.any(u != 0) or np.any(p != 0)))
    if kind == "mee":
        f = getattr(_eom, "eom_mee_gauss", None)
        if f is None:
            rec.label("eom_mee_gauss is gone"); return
        z = np.zeros(5); par = (mu, u, z, z, z, p)
        y = ref.meea2mee(oe); cart = lambda q: ref.mee2cart(q, mu)
    else:
        f = pyqlaw.eom_kep_gauss if kind == "keplerian" else pyqlaw.eom_mee_with_a_gauss
        hp = dict(rpmin=0.1 * oe[0], m=3.0, n=4.0, r=2.0, b=0.01, k=1.0, wp=1.0)
        oeT = oe[:5] * 1.1 + 0.01
        psi = arr("psi", api("psi", symbolic(kind)[1], *law_args(kind, oe, oeT, c["accel"], mu, hp, np.ones(5))), (3, 5))
        if e > 1e-6:
            psi2 = arr("psi", api("control law", symbolic(kind)[0], *law_args(kind, oe, oeT, c["accel"], mu, hp, np.ones(5)))[1], (3, 5))
            need(np.all(np.abs(psi - psi2) <= 1e-10 * np.abs(psi).max(axis=1)[:, None]), "the control law and the stand-alone evaluator give different Gauss matrices")
        par = (mu, u, psi[0].copy(), psi[1].copy(), psi[2].copy(), p)
        y = oe; cart = lambda q: ref.oe2cart(kind, q, mu)
    d = arr("rates", api("equations of motion", both(f, c["interpreted"]), c["t"], y.copy(), par), (6,))
    need(bool(np.all(np.isfinite(d))), lambda: f"element rates at {y.tolist()} are {d.tolist()}")
    x = cart(y)
    J = ref.jac_cs(cart, y)
    got = J @ d
    grav = -mu * x[:3] / np.linalg.norm(x[:3]) ** 3
    want = np.concatenate((x[3:], grav + ref.rtn(x).T @ (u + p)))
    cond = np.abs(J) @ np.abs(d)
    for s, nm in ((slice(0, 3), "velocity"), (slice(3, 6), "acceleration")):
        tol = 1e-11 * (np.linalg.norm(cond[s]) + np.linalg.norm(want[s]))
        err = np.linalg.norm(got[s] - want[s])
        need(err <= tol, lambda: f"{kind} rates {d.tolist()} at {y.tolist()} mean {nm} {got[s].tolist()}, Newton gives {want[s].tolist()} (error {err:.3g} > {tol:.3g})")
    # the perturbing part on its own, where two-body terms would hide it
    acc = u + p
    an = np.linalg.norm(acc)
    if an > 0:
        x0 = np.zeros(6)
        ff = lambda uu, pp: arr("rates", api("equations of motion", both(f, c["interpreted"]), c["t"], y.copy(), (mu, uu, *par[2:5], pp)), (6,))
        d0 = ff(np.zeros(3), np.zeros(3))
        z = J @ (d - d0)
        want = np.concatenate((np.zeros(3), ref.rtn(x).T @ acc))
        c1 = np.abs(J) @ (np.abs(d - d0) + 1e-4 * np.abs(d0) * (np.abs(d0) > 0) * 1e-10)
        tol = 1e-10 * np.linalg.norm(c1[3:]) + 1e-14 * np.linalg.norm(np.abs(J[3:]) @ np.abs(d0)) * 10
        err = np.linalg.norm(z[3:] - want[3:])
        need(err <= tol, lambda: f"{kind}: acceleration {acc.tolist()} in RTN changes the motion by {z[3:].tolist()}, want {want[3:].tolist()} (error {err:.3g} > {tol:.3g})")
        # position must not jump
        r = np.linalg.norm(z[:3]); tolr = 1e-10 * np.linalg.norm(c1[:3]) + 1e-13 * np.linalg.norm(np.abs(J[:3]) @ np.abs(d0))
        need(r <= tolr, lambda: f"{kind}: an acceleration changes the velocity-position relation by {r:.3g}")


SUBS = [Sub("newton", _case(), _eom_case, 6000, 120000, warm=20)]
