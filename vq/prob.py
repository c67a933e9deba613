"""Transfer problems: generator, builder and recorded result.

A case is a JSON object. It is generated in canonical units and then restated in other units by scale(); every
solve-based property uses the same family with different emphasis."""
import copy, math, signal
import numpy as np
from hypothesis import strategies as st
from .core import api, arr, need, Violation, StepLimit, Skip
from . import ref, gen
from . import lib
import pyqlaw

PI = math.pi
HP0 = dict(rpmin=0.1, m=3.0, n=4.0, r=2.0, b=0.01, k=1.0, wp=1.0)


# ------------------------------------------------------------------ functions supplied by the user of the library
def eta_value(spec, units, t, oe, mass, battery):
    """spec: [c0, ct, wt, coe, cm, cb]: smooth in every argument"""
    L, T, M = units[:3]
    B = units[3] if len(units) > 3 else 1.0
    c0, ct, wt, co, cm, cb = spec
    v = c0 + ct * math.sin(wt * t / T) + co * (oe[0] / L - 1) + cm * (mass / M - 1) + cb * (battery / B - 0.5)
    return float(min(max(v, -0.1), 0.97))


def ptrb_value(spec, units, t, oe):
    L, T = units[:2]
    A = L / T ** 2
    ph = spec["w"] * t / T
    return A * np.array([spec["c"][0] + spec["s"][0] * math.sin(ph) + 1e-4 * spec["o"] * math.cos(oe[5]),
                         spec["c"][1] + spec["s"][1] * math.cos(ph) + 1e-4 * spec["o"] * (oe[0] / L - 1),
                         spec["c"][2] + spec["s"][2] * math.sin(ph + 1) + 1e-4 * spec["o"] * oe[2]])


class Perturbation:
    def __init__(self, spec, units, limit, floor=0.0):
        self.spec, self.units, self.calls, self.limit, self.floor = spec, units, [], limit, floor

    def get_perturbations_RTN(self, t, oe, elements_type):
        if len(self.calls) > self.limit:
            if not oe[0] > self.floor: raise Skip("orbit shrinks")
            raise StepLimit(f"more than {self.limit} steps")
        self.calls.append((float(t), np.array(oe, float), elements_type))
        if self.spec.get("nan_from") is not None and len(self.calls) > self.spec["nan_from"]:
            return np.array([np.nan, np.nan, np.nan])
        return ptrb_value(self.spec, self.units, t, oe)


# ------------------------------------------------------------------ generator
_eta = st.one_of(gen.uni(0.05, 0.95), gen.uni(0.05, 0.95), st.just(0.0), gen.uni(-0.5, 0.0))


@st.composite
def eta_spec(draw):
    k = draw(st.integers(0, 3))
    if k == 0: return 0.0
    if k < 3: return draw(_eta)
    return [draw(gen.uni(-0.3, 0.8)), draw(gen.uni(-0.5, 0.5)), draw(gen.uni(0.1, 3.0)), draw(gen.uni(-1, 1)), draw(gen.uni(-1, 1)),
            draw(gen.uni(-1, 1))]


@st.composite
def cases(draw, kinds=("keplerian", "mee_with_a"), integrator=None, sundman=None, backward=None, maxsteps=30, duty="some", battery="some",
          eta="some", ptrb="some", near="some", deplete="some", nan=False, clamp="some", units=True, woe=True, hyper=True, dyadic="some",
          accel=(1e-4, 3e-2), emin=1e-3, minsteps=1):
    """one solve, in canonical units, then restated in drawn units"""
    yes = lambda flag, p=4: draw(st.integers(0, p - 1)) == 0 if flag == "some" else bool(flag)
    kind = draw(st.sampled_from(list(kinds)))
    sun = draw(st.booleans()) if sundman is None else sundman
    back = yes("some", 5) if backward is None else backward
    nstep = draw(st.integers(minsteps, maxsteps))
    e = draw(st.one_of(gen.uni(0.01, 0.6), gen.uni(0.01, 0.6), gen.uni(max(emin, 1e-3), 0.1), gen.uni(0.6, 0.85), st.sampled_from([0.05, 0.3])))
    if kind == "keplerian":
        kep0 = [draw(gen.uni(0.5, 3.0)), e, draw(gen.uni(0.05, 2.9)), draw(gen.uni(0.3, 6.0)), draw(gen.uni(0.3, 6.0)), draw(gen.angle(-4, 7))]
    else:
        kep0 = [draw(gen.uni(0.5, 3.0)), e, draw(st.one_of(gen.uni(0.0, 2.5), st.just(0.0))), draw(gen.angle()), draw(gen.angle()), draw(gen.angle(-4, 7))]
    tol = [draw(gen.logu(1e-4, 3e-2)) for _ in range(5)] if draw(st.booleans()) else None
    isnear = yes(near, 3)
    tl = tol or [1e-3] * 5
    if isnear:
        # within a few tolerances, so that short solves finish
        d = [draw(gen.uni(-4, 4)) * x for x in tl]
        kT = [max(0.3, kep0[0] + d[0]), min(0.8, max(2e-3, kep0[1] + d[1])), min(3.0, max(0.02, kep0[2] + d[2])), kep0[3] + d[3], kep0[4] + d[4]]
    else:
        kT = [draw(gen.uni(0.5, 3.0)), draw(st.one_of(gen.uni(0.0, 0.6), st.just(0.1))), draw(gen.uni(0.02, 2.5)), draw(gen.uni(0.0, 6.0)), draw(gen.uni(0.0, 6.0))]
        if draw(st.integers(0, 3)) == 0: kT[0] = kep0[0]
    if kind == "keplerian":
        oe0, oeT = list(kep0), list(kT)
        if draw(st.integers(0, 3)) == 0: oeT[3] += 2 * PI * draw(st.sampled_from([-1, 1]))
    else:
        oe0, oeT = ref.kep2meea(kep0).tolist(), ref.kep2meea(kT + [0.0])[:5].tolist()
    P = 2 * PI * kep0[0] ** 1.5
    if sun:
        step = draw(gen.uni(0.05, 0.7))
        tf = nstep * step / (2 * PI) * P * draw(gen.uni(0.6, 1.0))
        dt = step / (2 * PI) * P
    else:
        step = dt = draw(st.sampled_from([0.125, 0.25, 0.5])) if yes(dyadic) else draw(gen.uni(0.02, 0.6)) * min(1.0, P / 6)
        tf = dt * (nstep - draw(st.one_of(st.just(0.5), gen.uni(0.0, 0.99), st.just(0.0))))
        tf = max(tf, 0.1 * dt)
    acc = draw(gen.logu(*accel))
    mass0 = draw(st.sampled_from([1.0, 1.0, 2.0, 0.7]))
    mass_min = draw(gen.uni(0.1, 0.6)) * mass0
    if yes(deplete, 5) and not back:
        mdot = (mass0 - mass_min) / (dt * nstep) * draw(gen.uni(1.0, 8.0))
    else:
        mdot = draw(st.one_of(st.just(0.0), gen.logu(1e-5, 1e-2), st.just(mass0 * 0.3 / (dt * nstep)), gen.uni(0.0, 0.4).map(lambda x: x * mass0 / (dt * nstep))))
    c = dict(kind=kind, integrator=integrator or draw(st.sampled_from(["rk4", "rk4", "rkf45"])), sundman=sun, step=-step if back else step, mu=1.0,
             oe0=oe0, oeT=oeT, mass0=mass0, tmax=acc * mass0, mdot=mdot, tf=tf, mass_min=mass_min, units=[1.0, 1.0, 1.0], dt0=dt,
             woe=draw(gen.weights()) if woe and draw(st.integers(0, 2)) == 0 else None,
             hp=draw(gen.hyper()) if hyper and draw(st.integers(0, 2)) == 0 else dict(HP0), tol=tol,
             relaxed=[draw(gen.uni(1.0, 6.0)), draw(st.integers(1, 6))] if draw(st.integers(0, 1)) == 0 else None,
             nan_thr=draw(st.one_of(st.none(), st.integers(0, 4))), grid=draw(st.one_of(st.none(), st.integers(1, 24))),
             duty=None, battery=None, eta_a=0.0, eta_r=0.0, ptrb=None, bounds=None, sixT=draw(st.booleans()))
    if back and draw(st.integers(0, 3)) == 0: c["tf"] = -c["tf"]
    if yes(eta, 2):
        c["eta_a"], c["eta_r"] = draw(eta_spec()), draw(eta_spec())
    if yes(duty):
        mult = st.one_of(st.sampled_from([1.0, 2.0, 0.5, 3.0]), gen.uni(0.1, 6.0))
        c["duty"] = [draw(mult) * dt, draw(st.one_of(mult, st.just(0.0))) * dt]
    if yes(battery) and (not back or battery == "both"):
        lo = draw(st.sampled_from([0.0, 0.2, 0.25])); hi = lo + draw(st.sampled_from([0.5, 0.8, 1.0, 3.0]))
        n1, n2 = draw(gen.uni(0.3, 8.0)), draw(gen.uni(0.3, 8.0))
        lev = draw(st.one_of(st.just(1.0), st.just(0.0), gen.uni(0, 1).map(lambda x: x if x > 1e-6 else 0.0)))      # not within rounding of empty
        c["battery"] = dict(initial=lo + lev * (hi - lo), cap=[lo, hi], rates=[(hi - lo) / (n1 * dt), (hi - lo) / (n2 * dt)], full=draw(st.booleans()))
        if draw(st.integers(0, 7)) == 0: c["battery"]["rates"][draw(st.integers(0, 1))] = 0.0
    if yes(ptrb) or nan:
        v = st.lists(gen.uni(-1e-3, 1e-3), min_size=3, max_size=3)
        c["ptrb"] = dict(c=draw(v), s=draw(v), w=draw(gen.uni(0.2, 3.0)), o=draw(gen.uni(-3, 3)),
                         nan_from=draw(st.integers(0, max(1, nstep - 1))) if nan else None)
    if kind == "keplerian" and yes(clamp, 4):
        o = oe0
        w = lambda: draw(gen.uni(-0.002, 0.05))
        c["bounds"] = [[o[0] - w(), max(5e-3, o[1] - w()), max(5e-3, o[2] - w()), o[3] - w(), o[4] - w(), 1e-8],
                       [o[0] + w() + .003, min(0.9, o[1] + w() + .003 + 5e-3), min(3.1, o[2] + w() + .003 + 5e-3), o[3] + w() + .003, o[4] + w() + .003, 1e9]]
    if units and draw(st.integers(0, 2)) == 0:
        c = scale(c, draw(gen.logu(1e-2, 1e4)), draw(gen.logu(1e-2, 1e4)), draw(gen.logu(0.2, 1e3)))
    return c


def scale(c, L, T, M, B=1.0):
    """the same problem in units L, T, M times smaller"""
    c = copy.deepcopy(c)
    c["mu"] *= L ** 3 / T ** 2
    c["oe0"][0] *= L; c["oeT"][0] *= L
    if not c["sundman"]: c["step"] *= T
    c["tf"] *= T; c["dt0"] *= T
    c["mass0"] *= M; c["mass_min"] *= M; c["mdot"] *= M / T; c["tmax"] *= M * L / T ** 2
    c["hp"]["rpmin"] *= L
    if c["tol"] is None and L != 1.0: c["tol"] = [1e-3] * 5
    if c["tol"]: c["tol"] = [c["tol"][0] * L] + c["tol"][1:]
    if c["duty"]: c["duty"] = [x * T for x in c["duty"]]
    if c["battery"]:
        b = c["battery"]
        b["rates"] = [x * B / T for x in b["rates"]]; b["cap"] = [x * B for x in b["cap"]]; b["initial"] *= B
    if c["kind"] == "keplerian":
        if c["bounds"] is None and L != 1.0:
            c["bounds"] = [[0.05, 1e-4, 1e-4, 1e-4, 1e-4, 1e-8], [1e2, 0.95, PI, 1e300, 1e300, 1e300]]
        if c["bounds"]:
            for b in c["bounds"]: b[0] *= L
    u = c["units"]
    c["units"] = [u[0] * L, u[1] * T, u[2] * M, (u[3] if len(u) > 3 else 1.0) * B]
    return c


LONG = dict(minsteps=100, accel=(1e-5, 1e-3))          # many steps that stay on moderate orbits


# ------------------------------------------------------------------ builder
def make(c, verbosity=0, print_frequency=200, perturbation=True, **over):
    kw = dict(mu=c["mu"], rpmin=c["hp"]["rpmin"], k_petro=c["hp"]["k"], m_petro=c["hp"]["m"], n_petro=c["hp"]["n"], r_petro=c["hp"]["r"],
              b_petro=c["hp"]["b"], wp=c["hp"]["wp"], elements_type=c["kind"], integrator=c["integrator"], verbosity=verbosity,
              print_frequency=print_frequency, use_sundman=c["sundman"])
    if c["grid"] is not None: kw["anomaly_grid_size"] = c["grid"]
    if c["tol"] is not None: kw["tol_oe"] = np.array(c["tol"])
    if c["bounds"] is not None: kw["oe_min"], kw["oe_max"] = np.array(c["bounds"][0]), np.array(c["bounds"][1])
    if c["nan_thr"] is not None: kw["nan_angles_threshold"] = c["nan_thr"]
    if c["relaxed"] is not None: kw["relaxed_tol_factor"], kw["exit_at_relaxed"] = c["relaxed"]
    stub = None
    if c["ptrb"] is not None and perturbation:
        stub = Perturbation(c["ptrb"], c["units"], limit(c), floor(c)); kw["perturbations"] = stub
    kw.update(over)
    p = api("QLaw()", pyqlaw.QLaw, **kw)
    return p, stub


def problem_args(c):
    kw = dict(tf_max=c["tf"], t_step=c["step"], mass_min=c["mass_min"])
    if c["woe"] is not None: kw["woe"] = list(c["woe"])
    if c["duty"] is not None: kw["duty_cycle"] = tuple(c["duty"])
    if c["battery"] is not None:
        b = c["battery"]
        kw.update(battery_initial=b["initial"], battery_capacity=tuple(b["cap"]), battery_charge_discharge_rate=tuple(b["rates"]), require_full_recharge=b["full"])
    oeT = np.array(c["oeT"] + [0.3] if c["sixT"] else c["oeT"], float)
    return (np.array(c["oe0"], float), oeT, c["mass0"], c["tmax"], c["mdot"]), kw


class Eta:
    def __init__(self, spec, units):
        self.spec, self.units, self.calls = spec, units, []

    def __call__(self, t, oe, mass, battery):
        self.calls.append((float(t), np.array(oe, float), float(mass), float(battery)))
        return eta_value(self.spec, self.units, t, oe, mass, battery)


def eta_arg(spec, units):
    return Eta(spec, units) if isinstance(spec, list) else float(spec)


def limit(c):
    """far beyond the number of steps any correct solve can take"""
    n = abs(c["tf"]) / c["dt0"]
    b = c["battery"]
    return int(20 * n + 400)


def floor(c):
    """below this semi-major axis, angle steps are so short that the number of steps says nothing"""
    return 0.7 * c["oe0"][0] if c["sundman"] else -math.inf


def solve(p, c, guard=True):
    lim = limit(c)
    count = [0]
    if guard:
        for name in ("check_convergence", "lyap_fun"):
            f = getattr(p, name, None)
            if callable(f) and not isinstance(f, _Guard):
                setattr(p, name, _Guard(f, lim, floor(c)))
    for name in ("check_convergence", "lyap_fun"):
        f = getattr(p, name, None)
        if isinstance(f, _Guard): f.n, f.limit, f.floor = 0, 3 * lim, floor(c)
    ea, er = eta_arg(c["eta_a"], c["units"]), eta_arg(c["eta_r"], c["units"])
    api("solve", p.solve, eta_a=ea, eta_r=er)
    return ea, er


class _Guard:
    def __init__(self, f, limit, floor):
        self.f, self.limit, self.n, self.floor = f, limit, 0, floor

    def __call__(self, *a, **k):
        self.n += 1
        if self.n > self.limit:
            if any(np.size(x) == 6 and not np.asarray(x, float)[0] > self.floor for x in a): raise Skip("orbit shrinks")
            raise StepLimit(f"more than {self.limit} evaluations for a solve of about {self.limit // 60} steps")
        return self.f(*a, **k)


def run(c, **over):
    p, stub = make(c, **over)
    a, k = problem_args(c)
    api("set_problem", p.set_problem, *a, **k)
    ea, er = solve(p, c)
    return Result(p, c, stub, ea, er)


class Result:
    """records of one solve as arrays, checked for shape only"""

    def __init__(self, p, c, stub=None, ea=None, er=None):
        self.p, self.c, self.stub, self.ea, self.er = p, c, stub, ea, er
        n = len(p.controls)
        self.n = n
        self.times = arr("times", p.times, (n + 1,))
        self.states = arr("states", np.array([np.asarray(s, float) for s in p.states]), (n + 1, 6))
        self.masses = arr("masses", p.masses, (n + 1,))
        self.battery = arr("battery", p.battery, (n + 1,))
        self.controls = arr("controls", p.controls, (n, 3)) if n else np.zeros((0, 3))
        self.etas = arr("etas", p.etas, (n, 2)) if n else np.zeros((0, 2))
        self.bounds = arr("etas_bounds", p.etas_bounds, (n, 2)) if n else np.zeros((0, 2))
        self.Qs = arr("Qs", p.Qs, (n,)) if n else np.zeros(0)
        self.dQdts = arr("dQdts", p.dQdts, (n,)) if n else np.zeros(0)
        self.exitcode, self.converge = p.exitcode, p.converge
        if c["kind"] == "keplerian":
            b = c["bounds"] or [[0.05, 1e-4, 1e-4, 1e-4, 1e-4], [1e2, 0.95, PI, math.inf, math.inf]]
            self.lo, self.hi = np.array(b[0][:5]), np.array(b[1][:5])
        self.woe = np.array(c["woe"]) if c["woe"] is not None else np.ones(5)
        self.tol = np.array(c["tol"]) if c["tol"] is not None else np.full(5, 1e-3)
        self.relaxed = c["relaxed"] or [10, 100]
        self.nan_thr = 10 if c["nan_thr"] is None else c["nan_thr"]

    def start(self, k):
        """the state step k starts from"""
        s = self.states[k].copy()
        if self.c["kind"] == "keplerian":
            s[:5] = np.minimum(np.maximum(s[:5], self.lo), self.hi)
        return s

    def dt(self, k):
        return self.times[k + 1] - self.times[k]

    def accel(self, k):
        return math.copysign(1.0, self.c["step"]) * self.c["tmax"] / self.masses[k]

    def point(self, k):
        """argument of the control law at step k"""
        c = self.c
        return dict(kind=c["kind"], oe=self.start(k).tolist(), oeT=list(c["oeT"][:5]), mu=c["mu"], f=self.accel(k), hp=c["hp"], woe=self.woe.tolist())

    def point_at_end(self):
        return self.point(self.n)

    def ok(self, k):
        """state k is an elliptic orbit on which the law is defined"""
        s = self.start(k)
        if not np.all(np.isfinite(s)): return False
        e = s[1] if self.c["kind"] == "keplerian" else math.hypot(s[1], s[2])
        if not (1e-4 < e < 0.97 and s[0] > 0): return False
        if self.c["kind"] == "keplerian" and not 1e-4 <= s[2] <= PI - 1e-4: return False
        return True

    def ptrb(self, k):
        c = self.c
        if c["ptrb"] is None: return np.zeros(3)
        if c["ptrb"].get("nan_from") is not None and k >= c["ptrb"]["nan_from"]: return np.full(3, np.nan)
        return ptrb_value(c["ptrb"], c["units"], self.times[k], self.start(k))

    def labels(self, rec):
        c = self.c
        rec.label(c["kind"], c["integrator"], "sundman" if c["sundman"] else "time step", "backward" if c["step"] < 0 else "forward",
                  f"exit {self.exitcode}", *(["mu != 1"] if c["mu"] != 1.0 else []), *(["duty"] if c["duty"] else []),
                  *(["battery"] if c["battery"] else []), *(["perturbed"] if c["ptrb"] else []),
                  *(["eta"] if c["eta_a"] != 0.0 or c["eta_r"] != 0.0 else []), *(["eta function"] if isinstance(c["eta_a"], list) or isinstance(c["eta_r"], list) else []))
        if self.n and np.any(self.controls[:, 2] == 1): rec.label("thrusts")
        if self.n and np.any(self.controls[:, 2] == 0): rec.label("coasts")
