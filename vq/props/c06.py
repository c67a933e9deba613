"""C06 Q and its gradient."""
import math
import numpy as np
from hypothesis import strategies as st
import pyqlaw
from ..core import Sub, api, arr, need
from .. import ref, gen
from ..lib import symbolic, law_args, control_angles

RULE = "non-trivial: Q above zero and at least two weighted elements away from their targets"
ASSUMPTIONS = ["gradients are compared where Q is smooth: Keplerian sine and cosine of the argument of periapsis, cosine of "
               "inclination, at least 1e-5 from zero and angle errors at least 1e-5 from pi",
               "eccentricity at least 1e-4 (at zero the equinoctial Q has a kink)"]
PI = math.pi


@st.composite
def points(draw, edge=True):
    kind = draw(st.sampled_from(["keplerian", "mee_with_a"]))
    mu = draw(gen.mus)
    LU = draw(st.one_of(st.just(1.0), gen.logu(1e-2, 1e4)))
    a, aT = LU * draw(gen.uni(0.3, 4.0)), LU * draw(gen.uni(0.3, 4.0))
    ecc = st.one_of(gen.uni(1e-3, 0.9), gen.uni(0.01, 0.5), gen.logu(1e-4, 1e-2))
    e, eT = draw(ecc), draw(st.one_of(ecc, st.just(0.0)))
    kep0 = [a, e, draw(gen.uni(1e-2, PI - 0.05)), draw(gen.angle(special=[0.3, 2.0, -1.0])), draw(gen.angle(special=[0.3, 2.0, -1.0])), draw(gen.angle())]
    kepT = [aT, eT, draw(st.one_of(gen.uni(1e-2, PI - 0.05), st.just(0.0))), draw(gen.angle()), draw(gen.angle())]
    if edge:
        m = draw(st.lists(st.booleans(), min_size=5, max_size=5)) if draw(st.integers(0, 2)) == 0 else [False] * 5
        for j in range(5):
            if m[j]: kepT[j] = kep0[j]
    if kind == "keplerian":
        oe, oeT = kep0, kepT
    else:
        oe = ref.kep2meea(kep0).tolist(); oeT = ref.kep2meea(kepT + [0.0])[:5].tolist()
        if edge:
            for j in range(5):
                if m[j]: oeT[j] = oe[j]
    hp = dict(draw(gen.hyper())); hp["rpmin"] *= LU
    return dict(kind=kind, oe=oe, oeT=oeT, mu=mu, f=draw(gen.signed(gen.logu(1e-6, 1.0))) * mu / LU ** 2, hp=hp, woe=draw(gen.weights()))


def smooth(c):
    oe, oeT = c["oe"], c["oeT"]
    if c["kind"] == "keplerian":
        w, i = oe[4], oe[2]
        if min(abs(math.sin(w)), abs(math.cos(w)), abs(math.cos(i))) < 1e-5:
            return False
        for j in (3, 4):
            if PI - abs(ref.wrap_pi(oe[j] - oeT[j])) < 1e-5:
                return False
    return True


def ecc(c):
    return c["oe"][1] if c["kind"] == "keplerian" else math.hypot(c["oe"][1], c["oe"][2])


def bounded(c):
    """no astronomically large penalty"""
    hp = c["hp"]; a = c["oe"][0]
    return abs(hp["k"] * (1 - a * (1 - ecc(c)) / hp["rpmin"])) < 200


def rate_loss(c):
    """relative loss in the maximal rates of the Keplerian periapsis: cancellation of 1/e terms"""
    e = ecc(c)
    return 1e-15 * (1 + 1 / e) / (1 - e)


def _label(c, rec):
    k = sum(1 for j in range(5) if c["woe"][j] != 0 and c["oe"][j] != c["oeT"][j])
    rec.label(c["kind"], "f<0" if c["f"] < 0 else "f>0", "small e" if ecc(c) < 0.01 else "e", *(["a = aT"] if c["oe"][0] == c["oeT"][0] else []),
              *(["zero weight"] if 0.0 in c["woe"] else []), *(["at target node/periapsis/f-k"] if any(c["oe"][j] == c["oeT"][j] for j in range(1, 5)) else []))
    rec.nontrivial(k >= 2)


def _law(c):
    out = api("control law", symbolic(c["kind"])[0], *law_args(c["kind"], c["oe"], c["oeT"], c["f"], c["mu"], c["hp"], c["woe"]))
    need(len(out) == 4, "the control law returns direction, matrix, Q, gradient")
    return float(arr("Q", out[2], ())), arr("gradient", out[3], (5,))


def _q(c, rec):
    _label(c, rec)
    if not bounded(c): rec.label("penalty out of range"); return
    q, _ = _law(c)
    q2 = control_angles(c["kind"], c["oe"], c["oeT"], c["f"], c["mu"], c["hp"], c["woe"])[4]
    want = float(ref.Q(c["kind"], np.array(c["oe"][:5]), c["oeT"], c["f"], c["mu"], c["hp"], c["woe"]))
    tol = 1e-10 + 1e3 * rate_loss(c)
    ang = 0.0                                     # rounding of an angle difference near zero
    if c["kind"] == "keplerian":
        R = ref.max_rates(c["kind"], np.array(c["oe"][:5]), c["f"], c["mu"], c["hp"]["b"])
        P = 1 + c["hp"]["wp"] * math.exp(c["hp"]["k"] * (1 - c["oe"][0] * (1 - ecc(c)) / c["hp"]["rpmin"]))
        for j in (3, 4):
            ang += P * c["woe"][j] * (abs(ref.wrap_pi(c["oe"][j] - c["oeT"][j])) + 1e-14) * 1e-14 / R[j] ** 2
    for nm, v in (("control law", q), ("lyapunov_control_angles", q2)):
        need(math.isfinite(v) and v >= 0, lambda: f"{nm}: Q = {v!r}")
        need(abs(v - want) <= tol * abs(want) + ang + 1e-290, lambda: f"{nm}: Q = {v!r}, documented formula {want!r}")


def _grad(c, rec):
    _label(c, rec)
    if not bounded(c) or not smooth(c): rec.label("not smooth here"); return
    kind, oe5 = c["kind"], np.array(c["oe"][:5])
    q, g = _law(c)
    g2 = arr("dqdoe evaluator", api("dqdoe evaluator", symbolic(kind)[2], *law_args(kind, c["oe"], c["oeT"], c["f"], c["mu"], c["hp"], c["woe"])), (5,))
    want = ref.gradQ(kind, oe5, c["oeT"], c["f"], c["mu"], c["hp"], c["woe"])
    for nm, v in (("gradient returned with the control law", g), ("stand-alone gradient", g2)):
        need(bool(np.all(np.isfinite(v))), lambda: f"{nm} at {c['oe']} is {v.tolist()}")
    if not np.all(np.isfinite(want)): rec.label("reference not finite"); return
    tol = grad_tol(c, want)
    for nm, v in (("gradient returned with the control law", g), ("stand-alone gradient", g2)):
        need(np.all(np.abs(v - want) <= tol), lambda: f"{nm} {v.tolist()}, derivative of the documented Q {want.tolist()} (tolerance {tol.tolist()})")


def grad_tol(c, want):
    """rounding of each component: relative part, terms that cancel, and cancellation of 1/e in the Keplerian periapsis rate"""
    kind, oe5, hp = c["kind"], np.array(c["oe"][:5]), c["hp"]
    e = ecc(c)
    # size of Q if each error were at least its rounding level: bounds what cancelled terms can leave
    big = 0.0
    R = ref.max_rates(kind, oe5, c["f"], c["mu"], hp["b"])
    P = 1 + hp["wp"] * math.exp(hp["k"] * (1 - oe5[0] * (1 - e) / hp["rpmin"]))
    scale = np.array([oe5[0], 1, 1, 1, 1.0])
    parts = np.zeros(5)
    for j in range(5):
        d = abs(oe5[j] - c["oeT"][j])
        if kind == "keplerian" and j > 2: d = abs(ref.wrap_pi(oe5[j] - c["oeT"][j]))
        S = (1 + (d / (hp["m"] * c["oeT"][0])) ** hp["n"]) ** (1 / hp["r"]) if j == 0 else 1.0
        d = d + 1e-13 * (abs(oe5[j]) + abs(c["oeT"][j]))
        t = P * S * c["woe"][j] * (d / R[j]) ** 2
        big += t
        parts[j] = 2 * t / d if d > 0 else 0.0
    stiff = (1 + abs(hp["k"]) * oe5[0] / hp["rpmin"]) / (1 - e)
    if kind == "keplerian":
        w, i = oe5[4], oe5[2]
        near = 1 / math.sin(i) + 1 / (math.sqrt(1 - e * e * math.cos(w) ** 2) - e * abs(math.sin(w))) + 1 / (math.sqrt(1 - e * e * math.sin(w) ** 2) - e * abs(math.cos(w)))
    else:
        f, g = oe5[1], oe5[2]
        near = 1 + 1 / (math.sqrt(1 - g * g) + f) + 1 / (math.sqrt(1 - f * f) + g) + 1 / e
    rel = 1e-11 + (3e-14 / e ** 2 if kind == "keplerian" else 0.0)
    return (rel * (np.abs(want) + parts) + (1e-12 * stiff * near + (1e-14 / e ** 2) * stiff) * big / scale) + 1e-290


@st.composite
def _at_target(draw):
    c = draw(points(edge=False))
    c["oeT"] = list(c["oe"][:5])
    c["turns"] = draw(st.lists(st.integers(-2, 2), min_size=2, max_size=2))
    if c["kind"] == "keplerian":
        for j, t in zip((3, 4), c["turns"]): c["oeT"][j] += 2 * PI * t
    return c


def _zero(c, rec):
    rec.label(c["kind"]); rec.nontrivial()
    if not bounded(c): rec.label("penalty out of range"); return
    q, g = _law(c)
    d = dict(c); d["oeT"] = [t + s for t, s in zip(c["oeT"], [0.1 * c["oeT"][0], 0.1, 0.1, 0.1, 0.1])]
    d["woe"] = [1.0] * 5
    unit = float(ref.Q(c["kind"], np.array(c["oe"][:5]), d["oeT"], c["f"], c["mu"], c["hp"], d["woe"]))
    need(0 <= q <= 1e-22 * unit * 10, lambda: f"Q at the target is {q!r}")
    if c["kind"] == "mee_with_a" or smooth(c):
        need(bool(np.all(np.isfinite(g))), lambda: f"gradient at the target is {g.tolist()}")


def _weights(c, rec):
    """a zero weight makes the target value irrelevant"""
    _label(c, rec)
    if not bounded(c) or 0.0 not in c["woe"]: rec.label("no zero weight"); return
    q, g = _law(c)
    d = dict(c); d["oeT"] = list(c["oeT"])
    js = [j for j in range(1, 5) if c["woe"][j] == 0.0] + ([0] if c["woe"][0] == 0.0 else [])
    for j in js:
        d["oeT"][j] = c["oeT"][j] * 1.25 + (0.1 if j else 0.0)
    q2, g2 = _law(d)
    need(abs(q - q2) <= 1e-12 * abs(q), lambda: f"Q depends on the target of elements {js} of zero weight: {q!r} and {q2!r}")
    need(np.all(np.abs(g - g2) <= 1e-9 * np.abs(g) + 1e-9 * abs(q) / np.array([c["oe"][0], 1, 1, 1, 1])) or not smooth(c),
         lambda: f"the gradient depends on the target of elements {js} of zero weight: {g.tolist()} and {g2.tolist()}")


SUBS = [Sub("value", points(), _q, 5000, 100000), Sub("gradient", points(), _grad, 6000, 120000),
        Sub("zero_at_target", _at_target(), _zero, 1500, 20000), Sub("zero_weight", points(), _weights, 1500, 20000)]
