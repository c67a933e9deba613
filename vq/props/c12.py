"""C12 verdicts."""
import copy, math
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, need, api
from .. import ref, gen, prob, qref

RULE = ("non-trivial: the solve ended for another reason than its time (verdict, reuse), two endings fall into the same step (coincide), or at least one undefined direction was met "
        "(undefined)")
ASSUMPTIONS = ["an element within 1e-9 of the edge of its tolerance may count either way",
               "undefined directions are generated as circular equinoctial orbits (no gradient), perturbations that become undefined, directions made undefined on a part of the orbit (fault injection into the law the object holds), and "
               "Keplerian starts with the apse line on the node (a kink of Q), where either outcome is accepted"]


def within(c, r, oe, tol):
    """True, False or None where rounding decides"""
    worst = True
    for j in range(5):
        if r.woe[j] == 0: continue
        if not math.isfinite(oe[j]): return False
        d = abs(oe[j] - c["oeT"][j])
        if c["kind"] == "keplerian" and j > 2: d = abs(ref.wrap_pi(oe[j] - c["oeT"][j]))
        band = 1e-9 * tol[j] + 1e-12 * (1 + abs(oe[j]) + abs(c["oeT"][j])) * (1 if j else 0) + (4e-16 * abs(c["oeT"][0]) if j == 0 else 0)
        if d > tol[j] + band: return False
        if d > tol[j] - band: worst = None
    return worst


def judge(c, r, rec, injected=lambda s: False):
    """injected(state): True, False or None (may be) where the harness made the direction undefined"""
    lo = hi = 0
    tf = abs(c["tf"])
    tolR = r.relaxed[0] * r.tol
    allowed = None
    for k in range(1, r.n + 1):
        last = k == r.n
        a = within(c, r, r.states[k], r.tol); b = within(c, r, r.states[k], tolR)
        if a is not True:
            lo += b is True; hi += b is not False
        mass = r.masses[k] <= c["mass_min"]
        if not last:
            need(a is not True, lambda: f"solve continues after state {k} of {r.n}, which is within tolerance: {r.states[k].tolist()}, target {c['oeT']}")
            need(lo < r.relaxed[1] or not b, lambda: f"solve continues after the relaxed tolerance was met {lo} times, configured {r.relaxed[1]}")
            need(not mass, lambda: f"solve continues with mass {r.masses[k]!r}, minimum {c['mass_min']!r}")
            continue
        allowed = set()
        if a is not False: allowed.add(1)
        if a is not True:
            if b is not False and hi >= r.relaxed[1]: allowed.add(2)
            if not (b is True and lo >= r.relaxed[1]):
                if mass: allowed.add(-1)
                elif not abs(r.times[-1]) < tf: allowed.add(-2)
                else: allowed.add(-3)
    if r.n == 0: allowed = {-3}
    need(r.exitcode in allowed, lambda: f"exit code {r.exitcode}, the records allow {sorted(allowed)}: final state {r.states[-1].tolist()}, target {c['oeT']}, tolerance {r.tol.tolist()} "
                                        f"(weights {r.woe.tolist()}), relaxed count {lo}..{hi} of {r.relaxed}, mass {r.masses[-1]!r} (min {c['mass_min']!r}), time {r.times[-1]!r} of {tf!r}, {r.n} steps")
    need(r.converge in (True, False) and bool(r.converge) == (r.exitcode in (1, 2)), lambda: f"converged flag {r.converge} with exit code {r.exitcode}")
    rec.label(f"exit {r.exitcode}")
    # undefined directions
    if c["duty"] is None and c["battery"] is None:
        ign = [k for k in range(r.n) if math.isnan(r.bounds[k, 0])]
        for k in ign:
            need(r.controls[k, 2] == 0, lambda: f"step {k} has no direction but throttle {r.controls[k, 2]}")
            if r.ok(k) and injected(r.start(k)) is False:
                need(not qref.at(r.point(k))["good"], lambda: f"step {k}: direction taken as undefined at {r.point(k)}")
        for k in range(r.n):
            if injected(r.start(k)):
                need(k in ign, lambda: f"step {k}, whose direction is undefined, is not treated so: controls {r.controls[k].tolist()}, thresholds {r.bounds[k].tolist()}")
            if not np.all(np.isfinite(r.states[k])):
                need(k in ign, lambda: f"step {k} starts from {r.states[k].tolist()} and is not treated as undefined")
        need(len(ign) <= r.nan_thr, lambda: f"{len(ign)} undefined directions were ignored, threshold {r.nan_thr}")
        if r.exitcode == -3:
            need(len(ign) == r.nan_thr, lambda: f"stopped for undefined directions after {len(ign)} ignored ones, threshold {r.nan_thr}")
            if r.ok(r.n) and injected(r.start(r.n)) is False: need(not qref.at(r.point_at_end())["good"], lambda: f"stopped for an undefined direction at {r.point_at_end()}")
        if ign: rec.label("ignored undefined directions")
        return len(ign)
    return 0


def _verdict(c, rec):
    r = prob.run(c)
    judge(c, r, rec)
    rec.label(c["kind"], "backward" if c["step"] < 0 else "forward")
    if r.n > 1: rec.label("several steps")
    rec.nontrivial(r.exitcode != -2)


@st.composite
def _undefined_case(draw):
    """no direction at a circular start, or from some step on"""
    how = draw(st.sampled_from(["stub", "circular mee", "circular mee", "kep on node", "circular mee perturbed"]))
    base = dict(duty=False, battery=False, backward=None, sundman=None, near=False, deplete=False, clamp=False, units=False, maxsteps=14)
    if how == "stub":
        c = draw(prob.cases(kinds=("mee_with_a",), nan=True, **base))
    elif how == "kep on node":
        c = draw(prob.cases(kinds=("keplerian",), ptrb=False, **base))
        c["oe0"][4] = 0.0
        c["bounds"] = [[0.05, 1e-4, 1e-4, 1e-4, 0.0, 1e-8], [1e2, 0.95, math.pi, 1e300, 1e300, 1e300]]
    else:
        c = draw(prob.cases(kinds=("mee_with_a",), ptrb=how.endswith("perturbed"), **base))
        c["oe0"][1] = c["oe0"][2] = 0.0
    c["nan_thr"] = draw(st.integers(0, 8))
    return c


def _undefined(c, rec):
    r = prob.run(c)
    n = judge(c, r, rec)
    rec.label(c["kind"], f"threshold {c['nan_thr']}")
    rec.nontrivial(n > 0 or r.exitcode == -3)
    if c["ptrb"] is None and c["kind"] == "mee_with_a" and r.states[0][1] == 0 and r.states[0][2] == 0 and n:
        for k in range(r.n):        # ignored steps are coasted ones
            need(np.all(np.abs(r.states[k + 1][:5] - r.states[0][:5]) <= 1e-14 * np.abs(r.states[0][:5])) and r.masses[k + 1] == r.masses[0], lambda: f"ignored step {k} changes {r.states[k].tolist()} to {r.states[k + 1].tolist()}")


@st.composite
def _gap_case(draw):
    """directions that are undefined on a part of the orbit only, so that they come and go"""
    c = draw(prob.cases(duty=False, battery=False, near=draw(st.integers(0, 3)) == 0, deplete="some", maxsteps=60, minsteps=8, accel=(1e-5, 3e-3)))
    c["nan_thr"] = draw(st.integers(0, 12))
    return dict(c=c, phase=draw(gen.angle()), level=draw(gen.uni(-0.5, 0.98)), n=draw(st.integers(1, 3)))


class _Gap:
    def __init__(self, f, where): self.f, self.where, self.hits = f, where, 0

    def __call__(self, *a, **k):
        out = self.f(*a, **k)
        oe = k["oe"] if "oe" in k else a[2]
        if self.where(oe) is not False and self.where(oe, 0.0):
            self.hits += 1
            return (np.full(3, np.nan), *out[1:])
        return out


def _gaps(case, rec):
    c = case["c"]
    def where(s, band=1e-9):
        x = math.cos(case["n"] * s[5] - case["phase"]) - case["level"]
        return None if abs(x) < band else x > 0
    p, stub = prob.make(c)
    if not callable(getattr(p, "lyap_fun", None)): rec.label("no seam to inject at"); rec.nontrivial(); return
    p.lyap_fun = g = _Gap(p.lyap_fun, where)
    a, k = prob.problem_args(c)
    api("set_problem", p.set_problem, *a, **k)
    prob.solve(p, c)
    r = prob.Result(p, c, stub)
    if not g.hits and any(where(r.start(k)) for k in range(r.n)): rec.label("no seam to inject at"); rec.nontrivial(); return
    n = judge(c, r, rec, where)
    for k in range(r.n):
        if where(r.start(k)): need(r.masses[k + 1] == r.masses[k], lambda: f"step {k} has no direction but spends mass")
    flips = sum(bool(where(r.start(k))) != bool(where(r.start(k + 1))) for k in range(r.n))
    rec.label("comes and goes" if flips > 2 else "few changes")
    rec.nontrivial(n > 0 and flips > 2)


@st.composite
def _reuse_case(draw):
    c = draw(prob.cases(duty=False, battery=False, near=True, maxsteps=12, units=False))
    seq = []
    for _ in range(draw(st.integers(2, 4))):
        seq.append(dict(what=draw(st.sampled_from(["same", "target here", "far", "deplete", "no time", "circular"])), w=draw(gen.weights())))
    return dict(c=c, seq=seq)


def variant(c, s):
    d = copy.deepcopy(c); d["woe"] = s["w"]
    w = s["what"]
    if w == "same": d["woe"] = c["woe"]
    if w == "target here": d["oeT"] = list(c["oe0"][:5])
    if w == "far": d["oeT"] = [c["oeT"][0] * 1.7, *c["oeT"][1:5]]
    if w == "deplete": d["mdot"] = 2.5 * (c["mass0"] - c["mass_min"]) / c["dt0"] / 3
    if w == "no time": d["tf"] = c["dt0"] * 0.5
    if w == "circular" and c["kind"] == "mee_with_a": d["oe0"] = [c["oe0"][0], 0.0, 0.0, *c["oe0"][3:]]
    return d


def _reuse(c, rec):
    p, stub = prob.make(c["c"])
    codes = []
    for s in c["seq"]:
        d = variant(c["c"], s)
        if stub is not None: stub.calls.clear()
        a, k = prob.problem_args(d)
        api("set_problem", p.set_problem, *a, **k)
        prob.solve(p, d)
        r = prob.Result(p, d, stub)
        judge(d, r, rec)
        codes.append(r.exitcode)
    rec.nontrivial(len(set(codes)) > 1)


@st.composite
def _relaxed_case(draw):
    """start within the relaxed tolerance and stay there for long; documented default of 100 times included"""
    c = draw(prob.cases(near=False, deplete=False, clamp=False, units=False, duty="some", battery=False, maxsteps=170, minsteps=90, accel=(1e-6, 1e-4)))
    t = draw(gen.logu(1e-4, 1e-2))
    c["tol"] = [t] * 5
    c["oeT"] = [x + draw(gen.uni(1.5, 8.0)) * draw(st.sampled_from([-1.0, 1.0])) * t for x in c["oe0"][:5]]
    if c["kind"] == "keplerian": c["oeT"][1] = max(c["oeT"][1], 1e-3); c["oeT"][2] = max(c["oeT"][2], 1e-3)
    c["relaxed"] = draw(st.one_of(st.none(), st.tuples(gen.uni(8.0, 12.0), st.integers(20, 140)).map(list)))
    c["woe"] = None
    return c


@st.composite
def _coincide_case(draw):
    """endings that fall into the same step: a first solve tells where the trajectory is, then tolerances, minimum mass and time are put there"""
    c = draw(prob.cases(near=False, deplete=False, duty="some", battery="some", nan=False, maxsteps=20, minsteps=3, accel=(1e-3, 3e-2)))
    if not c["mdot"]: c["mdot"] = 0.2 * c["mass0"] / c["dt0"] / 20
    ev = draw(st.sampled_from([("arrive", "mass"), ("arrive", "time"), ("arrive", "mass", "time"), ("relaxed", "mass"), ("relaxed", "time"), ("mass", "time"), ("relaxed", "arrive"), ("relaxed", "mass", "time")]))
    return dict(c=c, events=list(ev), where=draw(gen.uni(0, 1)), factor=draw(st.sampled_from([1.5, 4.0, 10.0])), count=draw(st.integers(1, 3)), edge=draw(st.sampled_from([0.0, 1e-9, 1e-6])))


def _coincide(case, rec):
    c = copy.deepcopy(case["c"]); c["mass_min"] = max(0.011, 0.02 * c["mass0"]); c["tol"] = [1e-13 * (abs(c["oeT"][0]) if j == 0 else 1) for j in range(5)]; c["relaxed"] = None
    r = prob.run(c)
    ev = case["events"]
    ks = [k for k in range(1, r.n + 1) if np.all(np.isfinite(r.states[k])) and (k > 1 or "relaxed" not in ev) and ("mass" not in ev or 0.0101 < r.masses[k] < r.masses[k - 1])]
    if not ks: rec.label("no such step"); return
    k = ks[min(len(ks) - 1, int(case["where"] * len(ks)))]
    d = np.abs(r.states[k][:5] - np.array(c["oeT"]))
    if c["kind"] == "keplerian": d[3:] = [abs(ref.wrap_pi(float(x))) for x in r.states[k][3:5] - np.array(c["oeT"][3:])]
    d = np.maximum(d * (1 + 1e-6), [1e-9 * abs(c["oeT"][0]), 1e-9, 1e-9, 1e-9, 1e-9])
    if "relaxed" in ev and "arrive" not in ev: c["tol"] = (d / case["factor"]).tolist(); c["relaxed"] = [case["factor"], 1]
    elif "arrive" in ev: c["tol"] = d.tolist(); c["relaxed"] = [case["factor"], case["count"] if "relaxed" in ev else 10 ** 6]
    if "mass" in ev: c["mass_min"] = float(r.masses[k]) * (1 + case["edge"])
    if "time" in ev: c["tf"] = math.copysign(abs(float(r.times[k])) * (1 - case["edge"]), c["tf"])
    q = prob.run(c)
    judge(c, q, rec)
    rec.label(" and ".join(ev), c["kind"])
    rec.nontrivial(q.n == k)


SUBS = [Sub("verdict", prob.cases(near="some", maxsteps=25), _verdict, 1200, 25000, warm=4),
        Sub("undefined", _undefined_case(), _undefined, 500, 8000),
        Sub("gaps", _gap_case(), _gaps, 400, 8000),
        Sub("coincide", _coincide_case(), _coincide, 400, 8000),
        Sub("reuse", _reuse_case(), _reuse, 400, 8000),
        Sub("relaxed", _relaxed_case(), _verdict, 80, 2000)]
