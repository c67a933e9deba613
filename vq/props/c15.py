"""C15 repeatability and isolation."""
import contextlib, copy, io, math, os
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, need, api, Violation
from .. import gen, prob
from .c12 import variant

RULE = "non-trivial: an object solves at least twice, after another problem or object was worked on"
ASSUMPTIONS = ["the initial state is given as an array", "efficiency functions and perturbation models supplied are pure"]
RECORDS = ("times", "states", "masses", "controls", "etas", "etas_bounds", "Qs", "dQdts", "battery")
WHAT = ["same", "target here", "far", "deplete", "no time", "circular", "plain", "no eta", "other duty", "other battery"]


@st.composite
def _case(draw, nops):
    objs = []
    for _ in range(draw(st.integers(1, 3))):
        objs.append(draw(prob.cases(duty="some", battery="some", clamp=True, maxsteps=8, near="some", nan=False)))
    n = len(objs)
    ops = []
    for _ in range(draw(st.integers(3, nops))):
        o = draw(st.integers(0, n - 1))
        k = draw(st.sampled_from(["new", "new", "solve", "solve", "solve", "export", "cart", "interp", "pretty", "convert", "share", "resolve eta", "abort", "abort"]))
        ops.append([k, o, dict(what=draw(st.sampled_from(WHAT)), w=draw(gen.weights()), at=draw(st.integers(0, 6)))])
    return dict(objs=objs, ops=ops, verb=[[draw(st.sampled_from([0, 0, 1, 2])), draw(st.sampled_from([1, 2, 200]))] for _ in range(n)])


def problem(c, s):
    w = s["what"]
    d = variant(c, s)
    if w == "plain": d["duty"] = d["battery"] = d["woe"] = None
    if w == "no eta": d["eta_a"] = d["eta_r"] = 0.0
    if w == "other duty": d["duty"] = [1.5 * c["dt0"], c["dt0"]]
    if w == "other battery" and c["step"] > 0: d["battery"] = dict(initial=0.6, cap=[0.25, 1.25], rates=[0.3 / c["dt0"], 0.2 / c["dt0"]], full=True)
    return d


def records(p):
    out = {}
    for k in RECORDS:
        v = getattr(p, k)
        out[k] = [np.array(x, dtype=float).copy() for x in v]
    out["exitcode"], out["converge"] = p.exitcode, bool(p.converge)
    return out


def same(a, b):
    """name of the first record that differs, or None"""
    for k in a:
        if k in RECORDS:
            if len(a[k]) != len(b[k]): return f"{k} (lengths {len(a[k])}, {len(b[k])})"
            for i, (x, y) in enumerate(zip(a[k], b[k])):
                if x.shape != y.shape or not np.array_equal(x, y, equal_nan=True): return f"{k}[{i}]: {x.tolist()} and {y.tolist()}"
        elif a[k] != b[k]: return f"{k}: {a[k]} and {b[k]}"
    return None


class Inputs:
    """what the caller passed in, with its value at that time"""

    def __init__(self): self.items = []

    def own(self, name, x):
        self.items.append((name, x, copy.deepcopy(x)))
        return x

    def check(self, after):
        for name, x, was in self.items:
            ok = np.array_equal(np.asarray(x, float), np.asarray(was, float), equal_nan=True) and type(x) is type(was)
            need(ok, lambda: f"{after} changed the caller's {name} from {np.asarray(was).tolist()} to {np.asarray(x).tolist()}")


def build(c, inputs=None, name="", **kw):
    own = (lambda n, x: inputs.own(f"{name}.{n}", x)) if inputs else (lambda n, x: x)
    over = {}
    if c["tol"] is not None: over["tol_oe"] = own("tol_oe", np.array(c["tol"]))
    if c["bounds"] is not None: over["oe_min"], over["oe_max"] = own("oe_min", np.array(c["bounds"][0])), own("oe_max", np.array(c["bounds"][1]))
    return prob.make(c, **over, **kw)


def set_problem(p, d, inputs=None, name="", shared=None):
    own = (lambda n, x: inputs.own(f"{name}.{n}", x)) if inputs else (lambda n, x: x)
    (oe0, oeT, m0, tm, md), kw = prob.problem_args(d)
    if shared is not None: oe0 = shared
    oe0, oeT = own("oe0", oe0), own("oeT", oeT)
    for k in ("woe", "duty_cycle", "battery_capacity", "battery_charge_discharge_rate"):
        if k in kw: own(k, kw[k])
    api("set_problem", p.set_problem, oe0, oeT, m0, tm, md, **kw)
    return oe0


class _Interrupt(Exception): pass


class _Failing(prob.Eta):
    def __init__(self, spec, units, at):
        super().__init__(spec, units); self.at = at

    def __call__(self, *a):
        if len(self.calls) >= self.at: raise _Interrupt()
        return super().__call__(*a)


def _check(case, rec):
    inputs = Inputs()
    known = {}
    with contextlib.redirect_stdout(io.StringIO()):
        def fresh(i, d, key):
            if key not in known:
                q, _ = build(case["objs"][i])
                set_problem(q, d)
                prob.solve(q, d)
                known[key] = records(q)
            return known[key]

        objs = []
        held = []                       # [object, list objects held, their values]
        for i, c in enumerate(case["objs"]):
            p, stub = build(c, inputs, f"object {i}", verbosity=case["verb"][i][0], print_frequency=case["verb"][i][1])
            d = problem(c, dict(what="same", w=None))
            objs.append(dict(p=p, d=d, key=(i, "same", ""), oe0=set_problem(p, d, inputs, f"object {i}"), solved=0, stub=stub))
        total = 0
        for n, (k, i, s) in enumerate(case["ops"]):
            o = objs[i]; p = o["p"]; c = case["objs"][i]
            name = f"operation {n} ({k} on object {i})"
            if k in ("new", "share"):
                d = problem(c, s); shared = None
                if k == "share":        # the same array as another problem's initial state
                    other = [x for x in objs if x is not o and all(case["objs"][objs.index(x)][u] == c[u] for u in ("kind", "units"))]
                    if other:
                        shared = other[0]["oe0"]; d = dict(d, oe0=[float(x) for x in shared])
                        rec.label("shared initial state")
                o["d"], o["key"] = d, (i, repr(sorted(d.items(), key=str)), "")
                o["oe0"] = set_problem(p, d, inputs, f"object {i}", shared)
                need(p.ready, "set_problem leaves the problem not ready")
            elif k in ("solve", "resolve eta"):
                d = dict(o["d"])
                if k == "resolve eta": d["eta_a"], d["eta_r"] = 0.4, 0.1
                if o["stub"] is not None: o["stub"].calls.clear()
                for x in RECORDS:
                    v = getattr(p, x, None)
                    if o["solved"]: held.append((f"{x} of an earlier solve of object {i}", v, [np.array(y, float).copy() for y in v]))
                prob.solve(p, d)
                o["solved"] += 1; total += 1
                got = records(p)
                want = fresh(i, d, (i, repr(sorted(d.items(), key=str))))
                diff = same(got, want)
                need(diff is None, lambda: f"{name}, solve {o['solved']}: differs from the same problem solved elsewhere in {diff}")
                o["got"] = got
            elif k == "abort":          # the user's threshold function fails in the middle of a solve
                d = dict(o["d"], eta_a=[0.3, 0.2, 1.0, 0.0, 0.0, 0.0], eta_r=0.0)
                if o["stub"] is not None: o["stub"].calls.clear()
                f = _Failing(d["eta_a"], d["units"], s["at"])
                old = records(p) if hasattr(p, "times") else None
                try:
                    p.solve(eta_a=f, eta_r=0.0)
                    stopped = False
                except _Interrupt:
                    stopped = True
                except Exception as e:
                    raise Violation(f"{name}: the threshold function's own error became {type(e).__name__}: {str(e)[:200]}")
                if stopped and (not hasattr(p, "times") if old is None else same(records(p), old) is None):      # nothing is published before the end
                    inputs.check(name); continue
                got = records(p)
                want = fresh(i, d, (i, repr(sorted(d.items(), key=str))))
                if stopped:
                    rec.label("interrupted")
                    m = len(got["controls"])
                    want = {x: want[x][:m + (x in ("times", "states", "masses", "battery"))] for x in RECORDS}
                    diff = same({x: got[x] for x in RECORDS}, want)
                else: diff = same(got, want)
                need(diff is None, lambda: f"{name}, {'interrupted' if stopped else 'completed'} solve: steps differ from those of the same problem solved elsewhere in {diff}")
                o["solved"] += 1; o["got"] = got
            elif o["solved"]:
                if k == "export": api("save_to_dict", p.save_to_dict, None, save_control_angles=bool(n % 2))
                elif k == "cart": api("get_cartesian_history", p.get_cartesian_history)
                elif k == "interp" and len(p.times) > 3: api("get_cartesian_history", p.get_cartesian_history, interpolate=True, steps=5)
                elif k == "pretty":
                    for f in (p.pretty, p.pretty_results, p.pretty_settings): api("pretty", f)
                elif k == "convert": api("evaluate_osculating_qdot", p.evaluate_osculating_qdot, np.array(p.states[-1]), 1e-3)
            inputs.check(name)
            for j, x in enumerate(objs):
                if x["solved"]:
                    diff = same(records(x["p"]), x["got"])
                    need(diff is None, lambda: f"{name} changed the records of object {j}: {diff}")
            for hn, v, was in held:
                need(len(v) == len(was) and all(np.array_equal(np.array(a, float), b, equal_nan=True) for a, b in zip(v, was)), lambda: f"{name} changed {hn}")
    rec.label(*{c["kind"] for c in case["objs"]}, *{k for k, *_ in case["ops"]})
    rec.nontrivial(total >= 2 and (len(objs) > 1 or len(known) > 1) and max(o["solved"] for o in objs) >= 2)


def _verbosity(c, rec):
    base = None
    for v, f in ((0, 200), (1, 1), (2, 1), (2, 3)):
        with contextlib.redirect_stdout(io.StringIO()):
            r = prob.run(c, verbosity=v, print_frequency=f)
        got = records(r.p)
        if base is None: base = got
        diff = same(base, got)
        need(diff is None, lambda: f"verbosity {v}, print frequency {f}: differs from verbosity 0 in {diff}")
    rec.nontrivial(r.n >= 2)
    r.labels(rec)


@st.composite
def _nested_case(draw):
    a = draw(prob.cases(maxsteps=8, minsteps=3, near=False)); b = draw(prob.cases(maxsteps=8))
    if draw(st.booleans()): b = problem(a, dict(what=draw(st.sampled_from(WHAT)), w=draw(gen.weights())))
    a["eta_a"] = draw(prob.eta_spec().filter(lambda x: isinstance(x, list)))
    return dict(a=a, b=b, at=draw(st.integers(0, 5)), what=draw(st.sampled_from(["solve", "solve", "set_problem", "export"])))


class _Busy(prob.Eta):
    """a threshold function that works on another problem object"""

    def __init__(self, spec, units, at, job):
        super().__init__(spec, units); self.at, self.job = at, job

    def __call__(self, *a):
        if len(self.calls) == self.at: self.job()
        return super().__call__(*a)


def _nested(case, rec):
    """two objects at work at the same time, at a generated point"""
    A, B = case["a"], case["b"]
    want = records(prob.run(A).p), records(prob.run(B).p)
    p, _ = prob.make(A); q, _ = prob.make(B)
    for o, c in ((p, A), (q, B)):
        a, k = prob.problem_args(c); api("set_problem", o.set_problem, *a, **k)
    done = []
    def job():
        if case["what"] == "set_problem":
            a, k = prob.problem_args(B); api("set_problem", q.set_problem, *a, **k)
        prob.solve(q, B)
        if case["what"] == "export": api("save_to_dict", q.save_to_dict, None)
        done.append(1)
    ea = _Busy(A["eta_a"], A["units"], case["at"], job)
    api("solve", p.solve, eta_a=ea, eta_r=prob.eta_arg(A["eta_r"], A["units"]))
    diff = same(records(p), want[0])
    need(diff is None, lambda: f"solving another object in between changes this solve in {diff}")
    if done:
        diff = same(records(q), want[1])
        need(diff is None, lambda: f"a solve started during another one differs in {diff}")
    rec.nontrivial(bool(done) and len(p.controls) > case["at"])
    rec.label("interleaved" if done else "not reached", A["kind"], B["kind"])


def _own_arrays(case, rec):
    """the caller uses its arrays for something else once the problem is set"""
    c = case["c"]
    if c["woe"] is None: c = dict(c, woe=[1.0, 1.0, 0.5, 1.0, 2.0])
    if c["tol"] is None: c = dict(c, tol=[1e-3 * c["units"][0], 1e-3, 1e-3, 1e-3, 1e-3])
    want = records(prob.run(c).p)
    tol = np.array(c["tol"]); arrays = [tol]
    over = dict(tol_oe=tol)
    if c["bounds"] is not None:
        over["oe_min"], over["oe_max"] = np.array(c["bounds"][0]), np.array(c["bounds"][1])
        arrays += [over["oe_min"], over["oe_max"]]
    p, _ = prob.make(c, **over)
    (oe0, oeT, m0, tm, md), kw = prob.problem_args(c)
    kw["woe"] = np.array(c["woe"])
    arrays += [oe0, oeT, kw["woe"]]
    if case["early"]:
        for x in arrays[:-3]: x[:] = case["junk"]
    api("set_problem", p.set_problem, oe0, oeT, m0, tm, md, **kw)
    for x in arrays: x[:] = case["junk"]
    prob.solve(p, c)
    diff = same(records(p), want)
    need(diff is None, lambda: f"overwriting the arrays passed in, before solving, changes {diff}")
    for x in arrays: x[:] = -case["junk"]
    diff = same(records(p), want)
    need(diff is None, lambda: f"overwriting the arrays passed in, after solving, changes {diff}")
    rec.nontrivial(len(p.controls) >= 2)
    rec.label(c["kind"], "bounds" if c["bounds"] else "no bounds")


_own_case = st.builds(lambda c, early, junk: dict(c=c, early=early, junk=junk), prob.cases(maxsteps=8, clamp=True), st.booleans(), st.sampled_from([0.0, 0.3, 7.0]))

SUBS = [Sub("own_arrays", _own_case, _own_arrays, 100, 2000), Sub("nested", _nested_case(), _nested, 150, 3000),
        Sub("histories", _case(10), _check, 350, 6000, warm=4), Sub("verbosity", prob.cases(maxsteps=8), _verbosity, 150, 2000),
        Sub("verbosity_long", prob.cases(maxsteps=70, minsteps=20, near=False, accel=(1e-5, 1e-3)), _verbosity, 16, 300)]
