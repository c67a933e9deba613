"""C02 equinoctial conversions."""
import math
import numpy as np
from hypothesis import strategies as st
import pyqlaw
import pyqlaw._elements as _el
from ..core import Sub, api, arr, need, close
from .. import ref, gen
from ..lib import both

RULE = "non-trivial: a chain of at least two conversions, or a singular orbit (circular or equatorial), or inclination above pi/2"
ASSUMPTIONS = ["inclination at most pi - 0.02 (the element set is singular at pi)",
               "a leg through Cartesian coordinates is taken only with eccentricity above 1e-3"]
PI = math.pi


@st.composite
def kepler(draw):
    mu = draw(gen.mus)
    a = draw(st.one_of(gen.uni(0.2, 10.0), gen.logu(1e-3, 1e6)))
    e = draw(gen.ECC)
    i = draw(st.one_of(gen.uni(0, 3.12), gen.uni(0, 1.0), st.sampled_from([0.0, 1e-9, PI / 2, 1e-4, 3.12])))
    kep = [a, e, i, draw(gen.angle()), draw(gen.angle()), draw(gen.angle())]
    return dict(kep=kep, mu=mu, interpreted=draw(st.booleans()))


@st.composite
def _chain_case(draw):
    c = draw(kepler())
    c["chain"] = draw(st.lists(st.integers(0, 5), min_size=1, max_size=7))
    return c


def _fn(name):
    return getattr(pyqlaw, name, None) or getattr(_el, name, None)


_EDGES = {"kep": [("kep2mee", "mee"), ("kep2mee_with_a", "meea"), ("kep2sv", "sv")],
          "mee": [("mee2kep", "kep"), ("mee2mee_with_a", "meea")],
          "meea": [("mee_with_a2kep", "kep"), ("mee_with_a2mee", "mee"), ("mee_with_a2sv", "sv")],
          "sv": [("sv2kep", "kep")]}
_CART = {"kep": ref.kep2cart, "mee": ref.mee2cart, "meea": ref.meea2cart, "sv": lambda x, mu: x}


def _tol(kep):
    e, i = kep[1], kep[2]
    return 2e-13 * (1 + math.tan(i / 2) ** 2) / (1 - e) ** 2


def _label(kep, rec):
    if kep[1] == 0: rec.label("circular")
    if kep[2] < 1e-8: rec.label("equatorial")
    if kep[2] > PI / 2: rec.label("retrograde")
    return kep[1] == 0 or kep[2] < 1e-8 or kep[2] > PI / 2


def _chain(c, rec):
    kep, mu = np.array(c["kep"]), c["mu"]
    x0 = ref.kep2cart(kep, mu)
    e = kep[1]
    tol = _tol(kep)
    kind, y, path, extra = "kep", kep, [], 0.0
    for o in c["chain"]:
        edges = [d for d in _EDGES[kind] if _fn(d[0]) is not None]
        if e < 1e-3:
            edges = [d for d in edges if d[1] != "sv"] or edges
        if kind == "sv" and e < 1e-3:
            break
        name, nxt = edges[o % len(edges)]
        f = both(_fn(name), c["interpreted"])
        args = (y.copy(), mu) if name.endswith("sv") or name.startswith("sv") else (y.copy(),)
        y = arr(name, api(name, f, *args), (6,))
        if name == "sv2kep":
            extra += 1e-7 / (1 - e) ** 2 + 1e-12 / (e * (1 - e) ** 3)
        kind = nxt; path.append(name)
        need(bool(np.all(np.isfinite(y))), lambda: f"{' -> '.join(path)} of {kep.tolist()} is {y.tolist()}")
        x = _CART[kind](y, mu)
        t = tol * (len(path) + 4) + extra
        for s, nm in ((slice(0, 3), "position"), (slice(3, 6), "velocity")):
            err = np.linalg.norm(x[s] - x0[s]) / np.linalg.norm(x0[s])
            need(err <= t, lambda: f"{' -> '.join(path)} of {kep.tolist()} changes the {nm} by {err:.3g} (tolerance {t:.3g}): {y.tolist()}")
        rec.label(name)
    s = _label(kep, rec)
    rec.nontrivial(s or len(path) >= 2)


def _ang(d):
    return abs((d + PI) % (2 * PI) - PI)


def _formula(c, rec):
    """each element is the documented function of the Keplerian elements, and back"""
    kep, mu = np.array(c["kep"]), c["mu"]
    a, e, i, O, w, ta = kep
    s = _label(kep, rec)
    rec.nontrivial(s or c["mu"] != 1.0 or e > 0)
    tol = 1e-12 * (1 + abs(O) + abs(w) + abs(ta))
    J = lambda n: both(_fn(n), c["interpreted"])
    for name, want in (("kep2mee", ref.kep2mee(kep)), ("kep2mee_with_a", ref.kep2meea(kep))):
        y = arr(name, api(name, J(name), kep.copy()), (6,))
        need(_ang(y[5] - want[5]) <= tol, lambda: f"{name}: true longitude {y[5]!r}, want {want[5]!r}")
        close(name, y[:5], want[:5], rtol=tol * 10, atol=tol * max(1.0, math.tan(i / 2)))
    m = ref.kep2mee(kep); ma = ref.kep2meea(kep)
    close("mee2mee_with_a", arr("mee2mee_with_a", api("mee2mee_with_a", J("mee2mee_with_a"), m.copy()), (6,)), ma, rtol=1e-12 / (1 - e))
    if _fn("mee_with_a2mee") is not None:
        close("mee_with_a2mee", arr("mee_with_a2mee", api("mee_with_a2mee", J("mee_with_a2mee"), ma.copy()), (6,)), m, rtol=1e-12 / (1 - e))
    for name, src in (("mee2kep", m), ("mee_with_a2kep", ma)):
        k = arr(name, api(name, J(name), src.copy()), (6,))
        need(bool(np.all(np.isfinite(k))), lambda: f"{name} returned {k.tolist()}")
        need(abs(k[0] - a) <= 1e-11 * a / (1 - e), lambda: f"{name}: semi-major axis {k[0]!r}, want {a!r}")
        need(abs(k[1] - e) <= 1e-12, lambda: f"{name}: eccentricity {k[1]!r}, want {e!r}")
        need(abs(k[2] - i) <= 1e-11, lambda: f"{name}: inclination {k[2]!r}, want {i!r}")
        if i > 1e-8:
            need(_ang(k[3] - O) <= tol * 10 , lambda: f"{name}: RAAN {k[3]!r}, want {O!r}")
            if e > 1e-8:
                need(_ang(k[4] - w) <= tol * 100 / min(1.0, e), lambda: f"{name}: argument of periapsis {k[4]!r}, want {w!r}")
        if e > 1e-8:
            need(_ang(k[5] - ta) <= tol * 100 / min(1.0, e), lambda: f"{name}: true anomaly {k[5]!r}, want {ta!r}")


SUBS = [Sub("chains", _chain_case(), _chain, 5000, 100000), Sub("formulas", kepler(), _formula, 3000, 60000)]
