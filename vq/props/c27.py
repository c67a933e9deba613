"""C27 printed summaries and progress."""
import contextlib, io, math, re
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, need, api
from .. import gen, prob

RULE = "non-trivial: at least one element differs visibly from its target and a solve recorded a step (summaries), or at least two progress rows are due (progress)"
ASSUMPTIONS = ["numbers are printed with at least three significant digits (weights: two decimals); wording and layout beyond one line per element or row are free",
               "the last recorded step may or may not have its row"]
NUM = re.compile(r"(?<![\w.])[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)(?![\w])")


def nums(line):
    return [float(x) for x in NUM.findall(line)]


def out(fn, *a, **k):
    s = io.StringIO()
    with contextlib.redirect_stdout(s): api(getattr(fn, "__name__", "call"), fn, *a, **k)
    return s.getvalue().splitlines()


def about(got, want, dec=None):
    if not math.isfinite(want): return got == want or (math.isnan(got) and math.isnan(want))
    if dec is not None: return abs(got - want) <= 0.51 * 10 ** -dec
    return abs(got - want) <= 6e-4 * abs(want) + 1e-300


def element_line(lines, name, what):
    ls = [l for l in lines if re.match(rf"\s*{re.escape(name)}\s*[:=|]", l)]
    need(len(ls) == 1, lambda: f"{what}: {len(ls)} lines for element {name!r} in {lines}")
    return nums(ls[0].split(name, 1)[1])


NAMES = dict(keplerian=["a", "e", "i", "raan", "omega"], mee_with_a=["a", "f", "g", "h", "k"])


def value(lines, key, what):
    ls = [l for l in lines if key(l.lower())]
    need(len(ls) >= 1, lambda: f"{what}: no such line in {lines}")
    return ls[0].split(":", 1)[1].strip()


def _summaries(case, rec):
    c = case["c"]
    p, _ = prob.make(c)
    a, k = prob.problem_args(c)
    api("set_problem", p.set_problem, *a, **k)
    names = NAMES[c["kind"]]
    need(list(p.element_names[:5]) == names, lambda: f"element names {p.element_names} of {c['kind']}")
    woe = c["woe"] or [1.0] * 5

    def problem(when):
        lines = out(p.pretty)
        for j in range(5):
            v = element_line(lines, names[j], f"pretty() {when}")
            want = [c["oe0"][j], c["oeT"][j], woe[j]]
            need(len(v) == 3 and about(v[0], want[0]) and about(v[1], want[1]) and about(v[2], want[2], 2),
                 lambda: f"pretty() {when} shows {v} for {names[j]}; initial value, target, weight are {want}")
    problem("before solving")

    def settings(when):
        lines = out(p.pretty_settings)
        txt = "\n".join(lines)
        need(c["kind"] in txt and c["integrator"] in txt and all(re.search(rf"\b{n}\b", txt) for n in names), lambda: f"pretty_settings() {when}: {txt!r}")
        tol = np.array(c["tol"] or [1e-3] * 5); fac, cnt = c["relaxed"] or (10, 100)
        i = next((i for i, l in enumerate(lines) if l.lower().startswith("tolerance")), None)
        j = next((i for i, l in enumerate(lines) if l.lower().startswith("relaxed")), None)
        m = next((i for i, l in enumerate(lines) if l.lower().startswith("exit at")), None)
        need(None not in (i, j, m), lambda: f"pretty_settings() {when}: {txt!r}")
        got = [nums(" ".join(lines[x:y]).split(":", 1)[1].replace("[", " ").replace("]", " ")) for x, y in ((i, j), (j, m))]
        for g, w in zip(got, (tol, fac * tol)):
            need(len(g) == 5 and all(abs(x - y) <= 6e-4 * abs(y) + 6e-9 * max(w) for x, y in zip(g, w)), lambda: f"pretty_settings() {when} shows {g}; tolerances are {w.tolist()}")
        need(nums(lines[m].split(":", 1)[1]) == [float(cnt)], lambda: f"pretty_settings() {when}: {lines[m]!r}, count is {cnt}")
    settings("before solving")
    prob.solve(p, c)
    r = prob.Result(p, c)
    r.labels(rec)
    if case["order"]: problem("after solving")
    settings("after solving")
    lines = out(p.pretty_results)
    for j in range(5):
        v = element_line(lines, names[j], "pretty_results()")
        x = float(r.states[-1][j]); d = abs(x - c["oeT"][j])
        need(len(v) == 2 and about(v[0], x) and (about(v[1], d) or abs(v[1] - d) <= 1e-15 * abs(x)), lambda: f"pretty_results() shows {v} for {names[j]}; final value and error are {[x, d]}")
    need(int(value(lines, lambda l: l.startswith("exit code"), "exit code")) == p.exitcode, lambda: f"pretty_results() {lines[0]!r}, exit code is {p.exitcode}")
    need(value(lines, lambda l: l.startswith("converge"), "convergence") == str(bool(p.converge)), lambda: f"pretty_results() {lines[1]!r}, converged is {p.converge}")
    t = nums(value(lines, lambda l: "time" in l, "transfer time")); m = nums(value(lines, lambda l: "mass" in l, "final mass"))
    need(len(t) == 1 and about(t[0], r.times[-1]), lambda: f"pretty_results() shows transfer time {t}, last recorded time is {r.times[-1]}")
    need(len(m) == 1 and about(m[0], r.masses[-1]), lambda: f"pretty_results() shows final mass {m}, last recorded mass is {r.masses[-1]}")
    rec.nontrivial(r.n >= 1 and any(abs(c["oe0"][j] - c["oeT"][j]) > 1e-3 * abs(c["oe0"][j]) for j in range(5)))


def _progress(case, rec):
    c = case["c"]
    p, _ = prob.make(c, verbosity=case["verb"], print_frequency=case["freq"])
    a, k = prob.problem_args(c)
    api("set_problem", p.set_problem, *a, **k)
    lines = out(prob.solve, p, c)
    r = prob.Result(p, c)
    if case["verb"] == 0:
        need(not any(l.strip() for l in lines), lambda: f"solving with verbosity 0 prints {lines[:3]}")
        rec.label("silent"); return
    rows = [(l, l.split("|")) for l in lines if l.count("|") >= 7 and nums(l)]
    if case["verb"] == 1:
        need(not rows, lambda: f"solving with verbosity 1 prints rows {rows[:2]}")
    else:
        got = {}
        for l, f in rows:
            f = [x.strip() for x in f]
            v = [float(x) for x in f[:8]]
            need(v[0] == int(v[0]) and int(v[0]) not in got, lambda: f"progress row {l!r}: step numbers must be distinct integers; earlier {sorted(got)}")
            got[int(v[0])] = v
        need(list(got) == sorted(got), lambda: f"progress rows out of order: {list(got)}")
        due = [i for i in range(r.n) if i % case["freq"] == 0]
        need(set(got) <= set(due) and set(x for x in due if x < r.n - 1) <= set(got),
             lambda: f"progress rows for steps {sorted(got)}; {r.n} steps, print frequency {case['freq']}")
        for i, v in got.items():
            s = r.states[i + 1]
            want = [r.times[i + 1]] + [s[j] - c["oeT"][j] for j in range(5)] + [s[5]]
            need(all(about(x, w) or abs(x - w) <= 1e-15 * max(1.0, abs(s[0])) for x, w in zip(v[1:], want)), lambda: f"progress row of step {i} shows {v[1:]}; time, deviations and anomaly are {want}")
        rec.nontrivial(len(due) >= 2)
    txt = " ".join(l for l in lines if "|" not in l).lower()
    word = {1: "reached", 2: "reached", -1: "mass", -2: "could not", -3: "nan"}[p.exitcode]
    need(word in txt, lambda: f"exit code {p.exitcode}, message printed {txt!r}")
    need(p.exitcode > 0 or "success" not in txt, lambda: f"exit code {p.exitcode}, message printed {txt!r}")
    rec.label(f"verbosity {case['verb']}", f"exit {p.exitcode}")


@st.composite
def _sum_case(draw):
    return dict(c=draw(prob.cases(maxsteps=5, units=True)), order=draw(st.booleans()))


@st.composite
def _prog_case(draw):
    return dict(c=draw(prob.cases(maxsteps=30, units=True, nan=draw(st.integers(0, 5)) == 0)), verb=draw(st.sampled_from([0, 1, 2, 2, 2, 3])), freq=draw(st.integers(1, 9)))


SUBS = [Sub("summaries", _sum_case(), _summaries, 500, 10000), Sub("progress", _prog_case(), _progress, 400, 8000)]
