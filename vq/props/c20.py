"""C20 Cartesian history."""
import contextlib, io, math
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import interp1d
from ..core import Sub, need, api, arr
from .. import ref, gen, prob

RULE = "non-trivial: at least four records"
ASSUMPTIONS = ["columns whose elements are not an elliptic orbit are not judged", "the interpolation schemes are SciPy's"]
KINDS = ["quadratic", "linear", "cubic", "nearest", "previous", "next", "slinear", "zero"]
LEAST = dict(quadratic=3, linear=2, cubic=4, nearest=1, previous=1, next=1, slinear=2, zero=1)


def cart(kind, s, mu):
    """Cartesian state and tolerance, or None outside the domain"""
    if not np.all(np.isfinite(s)): return None
    e = s[1] if kind == "keplerian" else math.hypot(s[1], s[2])
    if not (0 < e < 0.97 and s[0] > 0): return None
    x = ref.oe2cart(kind, s, mu)
    rel = 1e-12 * (1 + abs(s[5]) + (abs(s[3]) + abs(s[4]) if kind == "keplerian" else 0)) / (1 - e) ** 2
    return x, np.array([rel * np.linalg.norm(x[:3])] * 3 + [rel * np.linalg.norm(x[3:])] * 3)


@st.composite
def _case(draw, maxsteps=16, **kw):
    return dict(c=draw(prob.cases(maxsteps=maxsteps, **kw, near=False, deplete=False, duty="some", battery="some")), kind=draw(st.sampled_from(KINDS[:3] + KINDS)),
                steps=draw(st.one_of(st.integers(1, 25), st.none())), get=draw(st.booleans()), at=draw(st.lists(gen.uni(0, 1), min_size=1, max_size=4)), default=draw(st.booleans()))


def _check(case, rec):
    c = case["c"]
    r = prob.run(c); p = r.p
    n = r.n + 1
    r.labels(rec)
    rec.nontrivial(n >= 4)

    def compare(what, X, states, extra=0.0):
        for k in range(states.shape[1]):
            w = cart(c["kind"], states[:, k], c["mu"])
            if w is None: continue
            need(np.all(np.abs(X[:, k] - w[0]) <= w[1] * (1 + extra)), lambda: f"{what}, column {k}: {X[:, k].tolist()}, elements {states[:, k].tolist()} are {w[0].tolist()}")

    out = api("get_cartesian_history", p.get_cartesian_history, **({} if case["default"] else dict(interpolate=False)))
    compare("history", arr("Cartesian history", out, (6, n)), r.states.T)
    if case["get"]:
        out = api("get_cartesian_history", p.get_cartesian_history, interpolate=False, get_t_evals=True)
        need(isinstance(out, tuple) and len(out) == 2, "with times requested, (history, times) are expected")
        compare("history", arr("Cartesian history", out[0], (6, n)), r.states.T)
    kind = case["kind"]
    if n <= LEAST[kind] or not np.all(np.isfinite(r.states)): return
    rec.label(kind)
    # interpolating functions
    fs = api("interpolate_states", p.interpolate_states, **({} if kind == "quadratic" and case["default"] else dict(kind=kind)))
    need(len(fs) == 6, "six interpolating functions are expected")
    ts = [r.times[0] + x * (r.times[-1] - r.times[0]) for x in case["at"]]
    span = np.max(np.abs(r.states), axis=0)
    for j in range(6):
        F = interp1d(r.times, r.states[:, j], kind=kind)
        for t in ts:
            got = float(arr("interpolated element", api("interpolating function", fs[j], t), ()))
            need(abs(got - F(t)) <= 1e-9 * span[j], lambda: f"element {j} at t = {t!r} is {got!r}, {kind} interpolation of the records is {float(F(t))!r}")
        for k in range(n):
            got = float(fs[j](r.times[k]))
            need(abs(got - r.states[k, j]) <= 1e-9 * span[j], lambda: f"element {j} at recorded time {r.times[k]!r} is {got!r}, recorded {r.states[k, j]!r} ({kind})")
    steps = case["steps"]
    if steps is None and not 5 <= abs(r.times[-1]) / 0.01 <= (800 if r.n < 90 else 2e4): steps = 7
    kw = dict(interpolate=True, get_t_evals=True)
    if steps is not None: kw["steps"] = steps
    if kind != "quadratic" or not case["default"]: kw["kind"] = kind
    with contextlib.redirect_stdout(io.StringIO()):
        out = api("get_cartesian_history", p.get_cartesian_history, **kw)
        only = api("get_cartesian_history", p.get_cartesian_history, **dict(kw, get_t_evals=False))
    need(isinstance(out, tuple) and len(out) == 2, "with times requested, (history, times) are expected")
    te = np.array(out[1], float)
    m = len(te)
    if steps is not None: need(m == steps, lambda: f"{m} evaluation times, {steps} requested")
    else: rec.label("default steps")
    X = arr("Cartesian history", out[0], (6, m))
    need(np.array_equal(arr("Cartesian history", only, (6, m)), X, equal_nan=True), "the history differs when times are requested")
    T = r.times[-1] - r.times[0]
    want = np.array([r.times[0] + T * k / max(1, m - 1) for k in range(m)])
    need(np.all(np.abs(te - want) <= 1e-12 * abs(T)), lambda: f"evaluation times {te.tolist()} do not span {r.times[0]} to {r.times[-1]} uniformly")
    if kind in ("nearest", "previous", "next", "zero"):
        # the scheme jumps: skip times within rounding of a jump
        jumps = r.times if kind != "nearest" else 0.5 * (r.times[1:] + r.times[:-1])
        use = np.array([np.min(np.abs(t - jumps)) > 1e-9 * abs(T) for t in te])
    else: use = np.ones(m, bool)
    E = np.array([interp1d(r.times, r.states[:, j], kind=kind)(te) for j in range(6)])
    E[:, ~use] = np.nan
    # splines amplify the rounding of the records
    compare(f"{kind} interpolation", X, E, extra=1e3)
    rec.label("interpolated")


@st.composite
def _many_case(draw):
    return dict(draw(_case()), steps=draw(st.one_of(st.integers(500, 2000), st.integers(8000, 10000))))


SUBS = [Sub("many_steps", _many_case(), _check, 12, 200), Sub("history", _case(), _check, 800, 15000, warm=4), Sub("long", _case(300, **prob.LONG), _check, 24, 500)]
