"""C16 convergence tests and safety clamp."""
import math
import numpy as np
from hypothesis import strategies as st
import pyqlaw
from ..core import Sub, need, api, arr
from .. import ref, gen, prob
from ..lib import both

RULE = "non-trivial: convergence: some weighted element lies within a factor two of its tolerance; clamp: some element is changed; starts: some recorded element is outside its bounds"
ASSUMPTIONS = ["angle differences within 1e-7 + 1e-9 (relative) of a tolerance may count either way; other differences are generated as exact binary fractions or judged outside a 1e-12 band",
               "weights are non-negative; tolerances of angles are at least 1e-6"]
PI = math.pi
DY = st.integers(-64, 64).map(lambda k: k / 64)


@st.composite
def _conv_case(draw):
    kind = draw(st.sampled_from(["keplerian", "mee_with_a"]))
    exact = draw(st.booleans())
    ang = (3, 4) if kind == "keplerian" else ()
    tol, oe, oeT = [], [], []
    for j in range(5):
        if exact: t = draw(st.sampled_from([0.25, 0.5, 0.125, 1 / 1024, 1.0])); T = draw(DY) + 2.0
        else: t = draw(gen.logu(1e-6, 1.0)); T = draw(gen.uni(-3, 7))
        x = draw(st.one_of(st.sampled_from([0.0, 1.0, -1.0, 1.0, -1.0, 0.5, 1 + 2 ** -10, 1 - 2 ** -10, -1 - 2 ** -10, 2.0]), gen.uni(-2, 2), gen.uni(-1, 1), gen.uni(-1, 1)))
        v = T + x * t
        if j in ang and draw(st.booleans()): v += 2 * PI * draw(st.integers(-3, 3))
        if j in ang and draw(st.integers(0, 9)) == 0: v = T + PI + draw(gen.uni(-0.1, 0.1))
        tol.append(t); oe.append(v); oeT.append(T)
    woe = draw(gen.weights())
    if draw(st.integers(0, 2)) == 0: woe = [w * draw(st.sampled_from([1.0, 1e-5, 1e-9, 1e-30, 1e-200, 1e6])) for w in woe]       # any weight but zero counts
    oe.append(draw(gen.angle(-10, 10)))
    if draw(st.integers(0, 5)) == 0: oe[draw(st.integers(0, 4))] = draw(st.sampled_from([math.nan, math.inf, -math.inf]))
    if draw(st.integers(0, 15)) == 0: oeT[draw(st.integers(0, 4))] = math.nan
    return dict(kind=kind, tol=tol, oe=oe, oeT=oeT, woe=woe, interpreted=draw(st.booleans()), six=draw(st.booleans()))


def _conv(c, rec):
    f = pyqlaw.check_convergence_keplerian if c["kind"] == "keplerian" else pyqlaw.check_convergence_mee
    oe, oeT = np.array(c["oe"]), np.array(c["oeT"] + [0.1] if c["six"] else c["oeT"])
    a = (oe, oeT, np.array(c["woe"]), np.array(c["tol"]))
    snap = [x.copy() for x in a]
    got = api("check_convergence", both(f, c["interpreted"]), *a)
    need(all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, snap)), "check_convergence changed its arguments")
    need(got in (True, False), lambda: f"check_convergence returned {got!r}")
    want = True
    for j in range(5):
        if c["woe"][j] == 0: continue
        d = abs(oe[j] - oeT[j]); t = c["tol"][j]
        if not math.isfinite(d): want = False; break
        if c["kind"] == "keplerian" and j > 2:
            d = abs(ref.wrap_pi(d)); band = 1e-7 * (t < 1e-3) * 1e-3 + 1e-9 * t + 1e-12 + 4e-15 / max(t, 1e-7)
            band += 1e-7 * (abs(d - PI) < 1e-6)
        else: band = 0.0 if _exact(oe[j], oeT[j], t) else 1e-12
        if 0.5 * t < d < 2 * t: rec.nontrivial()
        if d > t + band: want = False; break
        if d > t - band and band: want = None
    rec.label(f"converged {want}", c["kind"])
    if want is None: return
    need(bool(got) == want, lambda: f"check_convergence({c['kind']}) = {got} at {oe.tolist()}, target {oeT.tolist()}, weights {c['woe']}, tolerance {c['tol']}; want {want}")


def _exact(x, T, t):
    return all(abs(v) < 2 ** 20 and v * 2 ** 22 == math.floor(v * 2 ** 22) for v in (x, T, t))


@st.composite
def _clamp_case(draw):
    lo, hi, oe = [], [], []
    for j in range(6):
        a = draw(st.one_of(gen.uni(-5, 5), gen.uni(-5, 5), st.just(-math.inf))); b = draw(st.one_of(gen.uni(-5, 5), gen.uni(-5, 5), st.just(math.inf)))
        if b < a: a, b = b, a
        v = draw(st.one_of(gen.uni(-8, 8), st.just(a), st.just(b), gen.uni(-8, 8)))
        if not math.isfinite(v): v = 0.5
        lo.append(a); hi.append(b); oe.append(v)
    how = draw(st.sampled_from(["float", "float", "float", "float32", "integer", "strided"]))
    if how == "float32": oe = [float(np.float32(v)) for v in oe]
    if how == "integer": oe = [float(round(v)) for v in oe]
    return dict(lo=lo, hi=hi, oe=oe, how=how, five=draw(st.booleans()), interpreted=draw(st.booleans()))


def _clamp(c, rec):
    lo, hi, oe = (np.array(c[k]) for k in ("lo", "hi", "oe"))
    if c["five"]: lo, hi = lo[:5], hi[:5]
    f = both(pyqlaw.elements_safety, c["interpreted"])
    snap = oe.copy()
    h = c["how"]; rec.label(h)
    oe = oe.astype(np.float32) if h == "float32" else oe.astype(int) if h == "integer" else np.repeat(oe, 2)[::2] if h == "strided" else oe
    got = arr("elements_safety", api("elements_safety", f, oe, lo, hi), (6,))
    want = snap.copy(); want[:5] = np.minimum(np.maximum(snap[:5], lo[:5]), hi[:5]); want[5] = snap[5]
    need(np.array_equal(oe, snap), lambda: f"elements_safety changed its argument from {snap.tolist()} to {oe.tolist()}")
    need(np.array_equal(got, want), lambda: f"elements_safety({snap.tolist()}, {lo.tolist()}, {hi.tolist()}) = {got.tolist()}, want {want.tolist()}")
    again = arr("elements_safety", api("elements_safety", f, got.copy(), lo, hi), (6,))
    need(np.array_equal(again, got), "elements_safety is not idempotent")
    rec.nontrivial(not np.array_equal(want, snap))


def _starts(c, rec):
    """what the efficiency functions and the perturbation model are shown is the bounded state"""
    r = prob.run(c)
    r.labels(rec)
    lo, hi = r.lo, r.hi
    calls = []
    shown = [("perturbation model", t, oe) for t, oe, _ in r.stub.calls] if r.stub else []
    for e in (r.ea, r.er):
        if isinstance(e, prob.Eta): shown += [("efficiency function", t, oe) for t, oe, _, _ in e.calls]
    for who, t, oe in shown:
        ks = np.flatnonzero(r.times == t)
        if len(ks): calls.append((who, int(ks[0]), oe))
    for who, k, oe in calls:
        if k > r.n or not np.all(np.isfinite(r.states[k])): continue
        need(np.all(oe[:5] >= lo) and np.all(oe[:5] <= hi), lambda: f"{who} at step {k} is given {oe.tolist()}, bounds {lo.tolist()} to {hi.tolist()}")
        need(np.array_equal(oe, r.start(k)), lambda: f"{who} at step {k} is given {oe.tolist()}; recorded state within bounds is {r.start(k).tolist()}")
    out = [k for k in range(r.n) if np.any(r.states[k][:5] < lo) or np.any(r.states[k][:5] > hi)]
    if out: rec.label("left the bounds")
    # a step out of bounds starts from the bounds: unperturbed coasts keep the bounded elements
    for k in out:
        if r.ok(k) and r.controls[k, 2] == 0 and c["ptrb"] is None:
            need(np.allclose(r.states[k + 1][:5], r.start(k)[:5], rtol=1e-14, atol=0), lambda: f"coast step {k} from {r.states[k].tolist()} (bounds {lo.tolist()} to {hi.tolist()}) ends at {r.states[k + 1].tolist()}")
    rec.nontrivial(bool(out))


_kw = dict(kinds=("keplerian",), clamp=True, eta=True, maxsteps=20, near=False, accel=(1e-3, 5e-2))
SUBS = [Sub("convergence", _conv_case(), _conv, 6000, 100000), Sub("clamp", _clamp_case(), _clamp, 4000, 60000),
        Sub("starts", prob.cases(ptrb="some", **_kw), _starts, 400, 8000)]
