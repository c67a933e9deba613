"""C01 Keplerian <-> Cartesian."""
import math
import numpy as np
from hypothesis import strategies as st
import pyqlaw
from ..core import Sub, api, arr, need, Violation
from .. import ref, gen
from ..lib import both

RULE = ("non-trivial: eccentricity above 1e-6 and at least one of: hyperbola, retrograde, (near-)equatorial, apse line on "
        "the line of nodes, mu != 1, or three generic angles")
ASSUMPTIONS = ["orbits with eccentricity below 1e-6 are not required to round-trip through an apse line",
               "tolerances grow with the conditioning of the element set (1/e, 1/(1-e))"]
PI = math.pi
EPS = 2.3e-16

_ECC = st.one_of(gen.uni(1e-3, 0.95), gen.uni(1e-3, 0.3), gen.logu(1e-6, 1e-2), st.sampled_from([0.01, 0.1, 0.5]))
_INC = st.one_of(gen.uni(0.0, PI), gen.uni(0.0, PI), st.sampled_from([0.0, PI, PI / 2, 1e-9, 1e-13, PI - 1e-9, 1e-4]),
                 gen.logu(1e-14, 1e-2))


@st.composite
def _kep(draw, emin0=False):
    mu = draw(gen.mus)
    size = draw(st.one_of(gen.uni(0.2, 10.0), gen.logu(1e-3, 1e6)))
    hyp = draw(st.integers(0, 4)) == 0
    if hyp:
        e = draw(gen.uni(1.02, 5.0)); a = -size
        lim = math.acos(-1 / e) * 0.9
        ta = draw(st.one_of(gen.uni(-lim, lim), st.just(0.0)))
    else:
        e = draw(st.one_of(_ECC, st.just(0.0)) if emin0 else _ECC); a = size
        ta = draw(gen.angle())
    return dict(kep=[a, e, draw(_INC), draw(gen.angle()), draw(gen.angle()), ta], mu=mu, interpreted=draw(st.booleans()))


def _classify(c, rec):
    a, e, i, O, w, ta = c["kep"]
    n = 0
    if e > 1: rec.label("hyperbola"); n += 1
    if i > PI / 2: rec.label("retrograde"); n += 1
    if math.sin(i) < 1e-6: rec.label("equatorial"); n += 1
    if abs(math.sin(w)) < 1e-6: rec.label("apse on nodes"); n += 1
    if c["mu"] != 1.0: rec.label("mu != 1"); n += 1
    rec.nontrivial(e > 1e-6 and (n or len({O, w, ta} - {0.0}) == 3))


def _state_tol(e):
    return 400 * EPS * (1 + 1 / abs(1 - e) + (1 + e) / abs(1 - e)) * (1 + e)


def _fwd(c, rec):
    kep, mu = np.array(c["kep"]), c["mu"]
    _classify(c, rec)
    x = arr("kep2sv", api("kep2sv", both(pyqlaw.kep2sv, c["interpreted"]), kep.copy(), mu), (6,))
    want = ref.kep2cart(kep, mu)
    tol = 20 * _state_tol(kep[1])
    for s, nm in ((slice(0, 3), "position"), (slice(3, 6), "velocity")):
        err = np.linalg.norm(x[s] - want[s]) / np.linalg.norm(want[s])
        need(err <= tol, lambda: f"kep2sv {nm} {x[s].tolist()} is not the orbit's {want[s].tolist()} (rel {err:.3g} > {tol:.3g})")


def _ang(d):
    return abs((d + PI) % (2 * PI) - PI)


def _extract(c, rec):
    kep, mu = np.array(c["kep"]), c["mu"]
    a, e, i, O, w, ta = kep
    _classify(c, rec)
    x = ref.kep2cart(kep, mu)
    J = lambda n: both(getattr(pyqlaw, n), c["interpreted"])
    call = lambda n, *args: api(n, J(n), *args)
    base = 50 * _state_tol(e) * (1 + e)
    e1 = abs(1 - e)
    tole = base * 5                                      # of the eccentricity vector
    tolw = tole / min(e, 1.0) + base
    S = math.sin(i)
    tolO = min(10.0, base / max(S, 1e-300))
    A = float(arr("get_semiMajorAxis", call("get_semiMajorAxis", x.copy(), mu), ()))
    need(abs(A - a) <= abs(a) * tole / e1 * 4, lambda: f"get_semiMajorAxis {A!r}, orbit has {a!r}")
    E = arr("get_eccentricity", call("get_eccentricity", x.copy(), mu), (3,))
    Ew = ref.evec(x, mu)
    Et = e * ref.kep2cart(np.array([a, e, i, O, w, 0.0]), mu)[:3] / (a * (1 - e))
    need(np.linalg.norm(E - Ew) <= tole and np.linalg.norm(E - Et) <= 4 * tole,
         lambda: f"get_eccentricity {E.tolist()}, orbit has {Et.tolist()}")
    I = float(arr("get_inclination", call("get_inclination", x.copy()), ()))
    need(abs(I - i) <= 3e-8 + base and -1e-9 <= I <= PI + 1e-9, lambda: f"get_inclination {I!r}, orbit has {i!r}")
    if 1e-3 < i < PI - 1e-3:
        need(abs(I - i) <= 100 * base / S, lambda: f"get_inclination {I!r}, orbit has {i!r}")
    RA = float(arr("get_raan", call("get_raan", x.copy()), ()))
    need(math.isfinite(RA), lambda: f"get_raan returned {RA}")
    W = float(arr("get_omega", call("get_omega", x.copy(), mu), ()))
    need(math.isfinite(W), lambda: f"get_omega returned {W}")
    if S > 1e-6:
        need(_ang(RA - O) <= tolO, lambda: f"get_raan {RA!r}, orbit has {O!r}")
        # near the ends of arccos' range half of the digits are a legitimate loss
        need(_ang(W - w) <= tolO + tolw * 20 + min(1e-6, (tolO + tolw) * 1e9), lambda: f"get_omega {W!r}, orbit has {w!r}")
    TA = float(arr("get_trueanom", call("get_trueanom", x.copy(), mu), ()))
    need(_ang(TA - ta) <= 10 * tolw, lambda: f"get_trueanom {TA!r}, orbit has {ta!r}")
    P = float(arr("get_period", call("get_period", x.copy(), mu), ()))
    if e > 1:
        need(P == -1, lambda: f"get_period of a hyperbola is {P!r}, documented -1")
    else:
        Pw = 2 * PI * math.sqrt(a ** 3 / mu)
        need(abs(P - Pw) <= Pw * tole / e1 * 8, lambda: f"get_period {P!r}, orbit has {Pw!r}")


def _round(c, rec):
    kep, mu = np.array(c["kep"]), c["mu"]
    e = kep[1]
    _classify(c, rec)
    x = ref.kep2cart(kep, mu)
    k = arr("sv2kep", api("sv2kep", both(pyqlaw.sv2kep, c["interpreted"]), x.copy(), mu), (6,))
    need(bool(np.all(np.isfinite(k))), lambda: f"sv2kep of an {'hyperbola' if e > 1 else 'ellipse'} is {k.tolist()}")
    y = ref.kep2cart(k, mu)
    need(bool(np.all(np.isfinite(y))), lambda: f"sv2kep result {k.tolist()} is not an orbit")
    base = 50 * _state_tol(e) * (1 + e)
    # elements -> state: a error amplified near periapsis, angle errors by the flight path, plus half-precision arccos
    w = kep[4]
    tol = 40 * base * (1 + 1 / abs(1 - e)) ** 2 * (1 + 1 / e) + 1e-7 * (1 + 1 / abs(1 - e))
    for s, nm in ((slice(0, 3), "position"), (slice(3, 6), "velocity")):
        err = np.linalg.norm(y[s] - x[s]) / np.linalg.norm(x[s])
        need(err <= tol, lambda: f"sv2kep gives {k.tolist()}, whose {nm} is off by {err:.3g} (tolerance {tol:.3g})")


@st.composite
def _curve_case(draw):
    c = draw(_kep(emin0=True).filter(lambda c: c["kep"][0] > 0))
    c["steps"] = draw(st.sampled_from([None, 2, 3, 5, 17, 100, 200]))
    return c


def _curve(c, rec):
    kep, mu, n = np.array(c["kep"]), c["mu"], c["steps"]
    a, e = kep[0], kep[1]
    _classify(c, rec)
    if e == 0.0: rec.label("circular")
    args = (kep.copy(), mu) if n is None else (kep.copy(), mu, n)
    X = arr("get_orbit_coordinates", api("get_orbit_coordinates", both(pyqlaw.get_orbit_coordinates, c["interpreted"]), *args),
            (6, 200 if n is None else n))
    x0 = ref.kep2cart(np.array([*kep[:5], 0.0]), mu)
    H, E, en = ref.hvec(x0), ref.evec(x0, mu), ref.energy(x0, mu)
    tol = 100 * _state_tol(e) * (1 + 1 / (1 - e))
    u0 = x0[:3] / np.linalg.norm(x0[:3]); v0 = x0[3:] / np.linalg.norm(x0[3:])
    tas = []
    for j in range(X.shape[1]):
        x = X[:, j]
        need(np.linalg.norm(ref.hvec(x) - H) <= tol * np.linalg.norm(H) and np.linalg.norm(ref.evec(x, mu) - E) <= 10 * tol
             and abs(ref.energy(x, mu) - en) <= 10 * tol * abs(en),
             lambda: f"point {j} {x.tolist()} is not on the orbit {kep.tolist()}")
        tas.append(math.atan2(x[:3] @ v0, x[:3] @ u0) % (2 * PI))
    tas = np.sort(tas)
    if len(tas) >= 3:
        gaps = np.diff(np.concatenate((tas, [tas[0] + 2 * PI])))
        need(gaps.max() <= 2 * PI / (X.shape[1] - 1) * 1.001 + 1e-6, lambda: f"the curve leaves a gap of {gaps.max():.3g} rad")


SUBS = [Sub("kep2sv", _kep(emin0=True), _fwd, 3000, 60000), Sub("extractors", _kep(), _extract, 3000, 60000),
        Sub("roundtrip", _kep(), _round, 4000, 80000), Sub("orbit_curve", _curve_case(), _curve, 500, 8000)]
