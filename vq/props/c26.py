"""C26 validation."""
import contextlib, copy, io, math
import numpy as np
from hypothesis import strategies as st
import pyqlaw
from ..core import Sub, need, api, StepLimit
from .. import gen, prob
from .c15 import records, same

RULE = "non-trivial: at least one setting is refused (construction), or refused between accepted ones that are then solved with (histories)"
ASSUMPTIONS = ["any exception counts as a refusal", "switching the element set of an existing object to the other valid one is outside the documented use and is not generated"]

BAD = dict(mu=[0.0, -1.0, -1e-12, math.nan, -math.inf], elements_type=["mee", "Keplerian", "", None, "MEE_with_a", "kep", 3], integrator=["rk5", "RK4", "", None, "rk45", "euler", 4],
           tol_oe=[[1e-3] * 4, [1e-3] * 6, [], [1e-3]], relaxed_tol_factor=[0.5, 0.999999, 0.0, -10.0, math.nan])
BADP = dict(oe0=[5, 7, 0, 4], mass_min=[0.0099999, 0.0, -1.0, 1e-3], woe=[[1.0] * 4, [1.0] * 6, [1.0], []])
BADETA = [1, 0, "0.1", None, [0.1], True, (0.1,), {"eta": 0.1}]
DEFAULTS = dict(mu=1.0, rpmin=0.1, k_petro=1.0, m_petro=3.0, n_petro=4.0, r_petro=2.0, b_petro=0.01, wp=1.0, elements_type="mee_with_a", integrator="rk4", verbosity=1, anomaly_grid_size=5,
                nan_angles_threshold=10, print_frequency=200, use_sundman=False, perturbations=None, exit_at_relaxed=100)
PDEFAULTS = dict(tf_max=100000.0, t_step=0.1, mass_min=0.1, duty_cycle=(1e16, 0.0), battery_initial=1.0, battery_capacity=(0.2, 1.0), battery_charge_discharge_rate=(0.0, 0.0), require_full_recharge=False)


def refused(what, fn, *a, **k):
    try:
        with contextlib.redirect_stdout(io.StringIO()): fn(*a, **k)
    except StepLimit: raise
    except Exception: return
    need(False, f"{what} is accepted")


def stored(p, want, what):
    for k, v in want.items():
        if not hasattr(p, k): continue
        got = getattr(p, k)
        ok = np.array_equal(np.asarray(got), np.asarray(v)) if isinstance(v, (list, tuple, np.ndarray)) else (got is v or got == v)
        need(ok, lambda: f"{what}: {k} is {got!r}, want {v!r}")


@st.composite
def _con_case(draw):
    good = {}
    opt = dict(mu=gen.logu(1e-3, 1e6), rpmin=gen.uni(0.01, 1), k_petro=gen.uni(0, 5), m_petro=gen.uni(0.5, 5), n_petro=gen.uni(2, 6), r_petro=gen.uni(1, 4), b_petro=gen.uni(0, 1), wp=gen.uni(0, 3),
               elements_type=st.sampled_from(["keplerian", "mee_with_a"]), integrator=st.sampled_from(["rk4", "rkf45"]), verbosity=st.integers(0, 2), anomaly_grid_size=st.integers(1, 100),
               tol_oe=st.lists(gen.logu(1e-8, 1), min_size=5, max_size=5), nan_angles_threshold=st.integers(0, 50), print_frequency=st.integers(1, 500), use_sundman=st.booleans(),
               relaxed_tol_factor=st.one_of(st.just(1.0), st.just(1), gen.uni(1, 100)), exit_at_relaxed=st.integers(1, 1000), oe_min=st.just([0.01, 1e-3, 1e-3, 1e-3, 1e-3, 0.0]),
               oe_max=st.just([50.0, 0.9, 3.0, 9.0, 9.0, 1e9]))
    for k, s in opt.items():
        if draw(st.integers(0, 2)) == 0: good[k] = draw(s)
    bad = {}
    if draw(st.booleans()):
        for k in draw(st.lists(st.sampled_from(sorted(BAD)), min_size=1, max_size=2, unique=True)): bad[k] = draw(st.sampled_from(BAD[k]))
    return dict(good=good, bad=bad, astuple=draw(st.booleans()))


def _con(case, rec):
    good, bad = case["good"], case["bad"]
    arr = tuple if case["astuple"] else np.array
    fix = lambda d: {k: (arr(v) if isinstance(v, list) else v) for k, v in d.items()}
    if bad:
        refused(f"QLaw({dict(good, **bad)})", pyqlaw.QLaw, **fix(dict(good, **bad)))
        rec.label(*("bad " + k for k in bad))
        rec.nontrivial()
    p = api("QLaw()", pyqlaw.QLaw, **fix(good))
    stored(p, {k: good.get(k, v) for k, v in DEFAULTS.items()}, f"QLaw({good})")
    tol = np.array(good.get("tol_oe", [1e-3] * 5)); fac = good.get("relaxed_tol_factor", 10)
    stored(p, dict(tol_oe=tol), f"QLaw({good})")
    if hasattr(p, "tol_oe_relaxed"):
        need(np.allclose(p.tol_oe_relaxed, fac * tol, rtol=1e-14, atol=0), lambda: f"QLaw({good}): relaxed tolerance {p.tol_oe_relaxed}, want {fac * tol}")
    for k in ("oe_min", "oe_max"):
        if k in good: stored(p, {k: good[k]}, f"QLaw({good})")
    kep = good.get("elements_type", "mee_with_a") == "keplerian"
    if kep and hasattr(p, "oe_min") and hasattr(p, "oe_max"):
        if "oe_min" not in good: need(np.array_equal(p.oe_min[:5], [0.05, 1e-4, 1e-4, 1e-4, 1e-4]), lambda: f"default lower bounds {p.oe_min}")
        if "oe_max" not in good: need(np.array_equal(p.oe_max[:5], [1e2, 0.95, math.pi, math.inf, math.inf]), lambda: f"default upper bounds {p.oe_max}")
    need(p.exitcode == 0 and not p.converge, lambda: f"a new object has exit code {p.exitcode}, converged {p.converge}")
    refused("solving before a problem is set", p.solve)
    refused("solving before a problem is set", p.solve, eta_a=0.1, eta_r=0.1)


@st.composite
def _hist_case(draw):
    c = draw(prob.cases(maxsteps=6, near="some", clamp=True, ptrb=False, units=True))
    if isinstance(c["eta_a"], list): c["eta_a"] = 0.2
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.sampled_from(["bad mu", "bad elements", "bad integrator", "bad oe0", "bad mass_min", "bad woe", "bad eta_a", "bad eta_r", "mu", "integrator", "solve", "edge mass", "defaults", "same elements"]))
        x = {"bad mu": BAD["mu"], "bad elements": BAD["elements_type"], "bad integrator": BAD["integrator"], "bad oe0": BADP["oe0"], "bad mass_min": BADP["mass_min"], "bad woe": BADP["woe"],
             "bad eta_a": BADETA, "bad eta_r": BADETA, "mu": [1.0, 1.25, 0.8], "integrator": ["rk4", "rkf45"]}.get(k, [0])
        ops.append([k, draw(st.sampled_from(x)), draw(st.booleans())])
    return dict(c=c, ops=ops, first=draw(st.booleans()))


def _hist(case, rec):
    c = copy.deepcopy(case["c"])
    sink = io.StringIO()
    with contextlib.redirect_stdout(sink):
        p, stub = prob.make(c)
        isset = False; n_bad = 0; solved = None
        pa, pk = prob.problem_args(c)
        if case["first"]:
            api("set_problem", p.set_problem, *pa, **pk); isset = True
        for k, x, pos in case["ops"]:
            # everything about the refused problem differs from the one in place
            other = (pa[0] * 1.01, pa[1] * 1.01, pa[2] * 3, pa[3] * 2, pa[4] + 0.1)
            okw = dict(tf_max=c["tf"] * 2, t_step=c["step"] / 2, mass_min=0.5 * c["mass_min"] + 0.01, woe=[2.0] * 5, duty_cycle=(c["dt0"], c["dt0"]), battery_initial=0.4, battery_capacity=(0.1, 0.9),
                       battery_charge_discharge_rate=(0.01, 0.02), require_full_recharge=True)
            if k.startswith("bad"): n_bad += 1
            if k == "bad mu": refused(f"mu = {x}", setattr, p, "mu", x)
            elif k == "bad elements": refused(f"elements_type = {x!r}", setattr, p, "elements_type", x)
            elif k == "bad integrator": refused(f"integrator = {x!r}", setattr, p, "integrator", x)
            elif k == "bad oe0": refused(f"an initial state of {x} elements", p.set_problem, np.ones(x) * 0.5, *other[1:], **okw)
            elif k == "bad mass_min": refused(f"minimum mass {x}", p.set_problem, *other, **dict(okw, mass_min=x))
            elif k == "bad woe": refused(f"weights {x}", p.set_problem, *other, **dict(okw, woe=np.array(x) if pos else x))
            elif k in ("bad eta_a", "bad eta_r"): refused(f"{k[4:]} = {x!r}", p.solve, **{k[4:]: x, ("eta_r" if k[-1] == "a" else "eta_a"): 0.1})
            elif k == "mu": c["mu"] *= x; p.mu = c["mu"]
            elif k == "integrator": p.integrator = x; c["integrator"] = x
            elif k == "same elements": p.elements_type = c["kind"]
            elif k == "edge mass":
                c["mass_min"] = 0.01; pa, pk = prob.problem_args(c)
                api("set_problem", p.set_problem, *pa, **pk); isset = True
            elif k == "defaults":
                q, _ = prob.make(c)
                api("set_problem", q.set_problem, *pa)
                stored(q, PDEFAULTS, "set_problem with defaults"); stored(q, dict(woe=[1.0] * 5, oe0=pa[0], mass0=pa[2], tmax=pa[3], mdot=pa[4], oeT=pa[1][:5]), "set_problem with defaults")
            elif k == "solve":
                if isset:
                    prob.solve(p, c)
                    q, _ = prob.make(c); api("set_problem", q.set_problem, *pa, **pk); prob.solve(q, c)
                    diff = same(records(p), records(q))
                    need(diff is None, lambda: f"after {case['ops']} the solve differs from that of a new object with the accepted settings in {diff}")
                    rec.label("solved after refusals" if n_bad else "solved"); rec.nontrivial(n_bad)
                else: refused("solving before a problem is set", p.solve, eta_a=0.1)
            need(p.mu == c["mu"] and p.integrator == c["integrator"] and p.elements_type == c["kind"], lambda: f"after {k} {x!r}: mu {p.mu}, integrator {p.integrator}, elements {p.elements_type}; accepted were {c['mu']}, {c['integrator']}, {c['kind']}")
            rec.label(k)
        if not isset:
            api("set_problem", p.set_problem, *pa, **pk)
        stored(p, dict(oe0=pa[0], oeT=pa[1][:5], mass0=pa[2], tmax=pa[3], mdot=pa[4], **{k: v for k, v in pk.items()}), "set_problem")
        prob.solve(p, c)
        q, _ = prob.make(c); api("set_problem", q.set_problem, *pa, **pk); prob.solve(q, c)
        diff = same(records(p), records(q))
        need(diff is None, lambda: f"after {case['ops']} the solve differs from that of a new object with the accepted settings in {diff}")
        rec.nontrivial(n_bad)


@st.composite
def _eta_case(draw):
    return dict(c=draw(prob.cases(maxsteps=6, near=False, ptrb=False, eta=False)), a=draw(gen.uni(0, 1)), r=draw(gen.uni(0, 1)), how=draw(st.sampled_from(["float64", "function", "lambda", "default", "bound"])))


def _eta(case, rec):
    """accepted kinds of thresholds mean the same"""
    c = case["c"]; a, r_ = case["a"], case["r"]
    if case["how"] == "default": a = r_ = 0.0
    p, _ = prob.make(c); A, K = prob.problem_args(c)
    api("set_problem", p.set_problem, *A, **K)
    api("solve", p.solve, eta_a=a, eta_r=r_)
    base = records(p)
    if case["how"] == "float64": kw = dict(eta_a=np.float64(a), eta_r=np.float64(r_))
    elif case["how"] == "default": kw = {}
    elif case["how"] == "bound":
        class H:
            def f(self, t, oe, mass, battery): return a
            def __call__(self, t, oe, mass, battery): return r_
        h = H(); kw = dict(eta_a=h.f, eta_r=h)
    else:
        def f(t, oe, mass, battery): return a
        kw = dict(eta_a=f, eta_r=(lambda t, oe, mass, battery: r_) if case["how"] == "lambda" else r_)
    q, _ = prob.make(c)
    api("set_problem", q.set_problem, *A, **K)
    api(f"solve({case['how']} thresholds)", q.solve, **kw)
    diff = same(base, records(q))
    need(diff is None, lambda: f"thresholds {a}, {r_} given as {case['how']} differ from floats in {diff}")
    rec.label(case["how"]); rec.nontrivial(a > 0 or r_ > 0)


@st.composite
def _types_case(draw):
    c = draw(prob.cases(maxsteps=5, near=False, ptrb="some", clamp="some", units=False))
    f32 = lambda v: float(np.float32(v))
    whole = draw(st.integers(0, 2)) == 0
    if whole and c["kind"] == "keplerian":
        i = lambda a, b: float(draw(st.integers(a, b)))
        c["oe0"] = [i(1, 4), 0.0, i(1, 2), i(1, 5), i(1, 5), i(-3, 6)]
        c["bounds"] = None if draw(st.booleans()) else [[0.05, 0.0625, 0.125, 0.0, 0.0, 0.0], [50.0, 0.875, 3.0, 9.0, 9.0, 9.0]]
        if c["bounds"] is None: c["eta_a"] = c["eta_r"] = 0.0
    c["oe0"] = [f32(x) for x in c["oe0"]]; c["oeT"] = [f32(x) for x in c["oeT"]]
    if draw(st.booleans()):
        c["woe"] = [float(draw(st.integers(0, 4))) for _ in range(5)]
        if not any(c["woe"]): c["woe"] = [1.0] * 5
    scal = whole and not c["sundman"] and c["step"] > 0
    if scal:
        k = draw(st.integers(1, 3))
        c.update(mu=float(draw(st.integers(1, 3))), mass0=float(draw(st.integers(1, 3))), mdot=0.0, step=1.0, dt0=1.0, tf=float(k), duty=[1.0, 1.0] if c["duty"] else None)
        if c["battery"]: c["battery"] = dict(initial=1.0, cap=[0.0, 2.0], rates=[1.0, float(draw(st.integers(0, 1)))], full=c["battery"]["full"])
    return dict(c=c, whole=whole, scal=scal, how=[draw(st.sampled_from(["list", "tuple", "float32", "strided", "readonly", "integer", "column"])) for _ in range(6)])


def _as(how, x):
    x = [float(v) for v in x]
    if how == "list": return list(x)
    if how == "tuple": return tuple(x)
    if how == "float32" and all(float(np.float32(v)) == v for v in x): return np.array(x, dtype=np.float32)
    if how == "strided": return np.repeat(np.array(x), 3)[::3]
    if how == "column": return np.stack([np.array(x), np.array(x) + 1], axis=1)[:, 0]
    if how == "readonly":
        y = np.array(x); y.flags.writeable = False; return y
    if how == "integer" and all(v == int(v) for v in x): return np.array([int(v) for v in x])
    return np.array(x)


def _types(case, rec):
    """the same numbers in another container or numeric type are the same problem"""
    c = case["c"]; h = case["how"]; wide = lambda x: "strided" if x == "float32" else x
    I = (lambda v: int(v) if float(v) == int(v) else v) if case["scal"] else (lambda v: v)
    res = []
    for alt in (False, True):
        over = {}
        if alt:
            if c["tol"] is not None: over["tol_oe"] = _as(wide(h[2]), c["tol"])
            if c["bounds"] is not None: over["oe_min"], over["oe_max"] = _as(wide(h[3]), c["bounds"][0]), _as(wide(h[3]), c["bounds"][1])
            over["mu"] = I(c["mu"])
        p, _ = prob.make(c, **over)
        (oe0, oeT, m0, tmax, mdot), k = prob.problem_args(c)
        if alt:
            oe0, oeT, m0, mdot = _as(h[0], oe0), _as(h[1], oeT), I(m0), I(mdot)
            k["tf_max"], k["t_step"] = I(k["tf_max"]), I(k["t_step"])
            if c["woe"] is not None: k["woe"] = _as(wide(h[4]), c["woe"])
            for x in ("duty_cycle", "battery_capacity", "battery_charge_discharge_rate"):
                if x in k: k[x] = [I(v) for v in k[x]] if h[5] == "list" else tuple(I(v) for v in k[x])
            if "battery_initial" in k: k["battery_initial"] = I(k["battery_initial"])
        with contextlib.redirect_stdout(io.StringIO()):
            api("set_problem", p.set_problem, oe0, oeT, m0, tmax, mdot, **k)
            prob.solve(p, c)
        res.append(records(p))
    diff = same(*res)
    rec.label(*h[:2], *(["integer scalars"] if case["scal"] else []), c["kind"])
    need(diff is None, lambda: f"initial elements given as {h[0]}, target as {h[1]}, others as {h[2:]}{', integer scalars' if case['scal'] else ''}: the solve differs from that of float arrays in {diff}")
    rec.nontrivial(len(res[0]["times"]) > 1)


SUBS = [Sub("construction", _con_case(), _con, 1500, 20000), Sub("histories", _hist_case(), _hist, 500, 8000, warm=3), Sub("thresholds", _eta_case(), _eta, 200, 3000), Sub("input_types", _types_case(), _types, 300, 5000, warm=6)]
