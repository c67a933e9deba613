"""C05 single integrator steps."""
import math
import numpy as np
from numba import njit
from hypothesis import strategies as st
import pyqlaw
from ..core import Sub, api, arr, need
from .. import ref, gen
from ..lib import both

RULE = "non-trivial: non-zero step and a right-hand side that depends on state or time"
ASSUMPTIONS = ["h_next is compared with the formula only where the embedded difference is resolved above rounding",
               "the returned state of the Fehlberg step is its fourth-order solution, as the docstring and the code say"]


def _lin(t, y, p):
    return np.array([p[0] * y[0] + p[1] * y[1] + p[2] * t, p[3] * y[0] + p[4] * y[1] + p[5], p[6] * y[2] + p[7] * t * t])


def _trig(t, y, p):
    return np.array([math.sin(p[0] * y[1] + p[1] * t), p[2] * y[0] * y[2] + p[3], math.cos(p[4] * t + p[5]) + p[6] * y[2] + p[7] * y[1]])


def _poly(t, y, p):
    return np.array([p[0] + p[1] * t + p[2] * t ** 2 + p[3] * t ** 3, p[4] * t ** 4 + p[5], p[6] * t ** 5 + p[7] * t])


def _nonlin(t, y, p):
    return np.array([p[0] * y[0] * (1 - y[0]), p[1] * y[1] * y[0] + p[2] * math.exp(-t * t) + p[3], p[4] * math.exp(-y[2] * y[2]) + p[5] + p[6] * t + p[7] * y[0]])


PY = dict(lin=_lin, trig=_trig, poly=_poly, nonlin=_nonlin)
JIT = {k: njit(v) for k, v in PY.items()}

_coef = st.one_of(gen.uni(-2, 2), st.just(0.0), gen.uni(-2, 2))


@st.composite
def _case(draw):
    return dict(rhs=draw(st.sampled_from(sorted(PY))), p=draw(st.lists(_coef, min_size=8, max_size=8)),
                t=draw(st.one_of(st.just(0.0), gen.uni(-5, 5), gen.uni(-5, 5))), y=draw(st.lists(gen.uni(-3, 3), min_size=3, max_size=3)),
                h=draw(st.one_of(gen.signed(gen.uni(0.01, 1.5)), gen.signed(gen.logu(1e-6, 1.0)))),
                tol=draw(st.one_of(st.none(), gen.logu(1e-12, 1e-2))),
                interpreted=draw(st.integers(0, 2)) == 0, param=draw(st.sampled_from(["array", "tuple"])))


def _args(c):
    p = np.array(c["p"]) if c["param"] == "array" else tuple(c["p"])
    y = np.array(c["y"])
    f = lambda t, z: PY[c["rhs"]](t, z, c["p"])
    rhs = PY[c["rhs"]] if c["interpreted"] else JIT[c["rhs"]]
    return p, y, f, rhs


def _lab(c, rec):
    rec.label(c["rhs"], "h<0" if c["h"] < 0 else "h>0", "interpreted" if c["interpreted"] else "jit")
    rec.nontrivial(c["h"] != 0 and any(x != 0 for x in c["p"]))


def _rk4(c, rec):
    p, y, f, rhs = _args(c)
    _lab(c, rec)
    y0 = y.copy()
    got = arr("rk4", api("rk4", both(pyqlaw.rk4, c["interpreted"]), rhs, c["t"], c["h"], y, p), (3,))
    need(np.array_equal(y, y0), "rk4 changed its state argument")
    want = ref.rk4_step(f, c["t"], c["h"], y0)
    scale = np.abs(y0) + np.abs(want) + abs(c["h"]) * (np.abs(f(c["t"], y0)) + 1) * (1 + np.max(np.abs(want)))
    need(np.all(np.abs(got - want) <= 1e-12 * scale), lambda: f"rk4 gives {got.tolist()}, the classical formula {want.tolist()}")


def _rkf(c, rec):
    p, y, f, rhs = _args(c)
    _lab(c, rec)
    y0 = y.copy()
    extra = () if c["tol"] is None else (c["tol"],)
    out = api("rkf45", both(pyqlaw.rkf45, c["interpreted"]), rhs, c["t"], c["h"], y, p, *extra)
    need(isinstance(out, tuple) and len(out) == 2, "rkf45 must return the state and the next step")
    got, hn = arr("rkf45 state", out[0], (3,)), float(arr("rkf45 step", out[1], ()))
    need(np.array_equal(y, y0), "rkf45 changed its state argument")
    w4, w5 = ref.fehlberg_step(f, c["t"], c["h"], y0)
    scale = np.abs(y0) + np.abs(w4) + 10 * abs(c["h"]) * (np.abs(f(c["t"], y0)) + 1) * (1 + np.max(np.abs(w4)))
    need(np.all(np.abs(got - w4) <= 1e-12 * scale), lambda: f"rkf45 gives {got.tolist()}, Fehlberg's fourth-order formula {w4.tolist()}")
    err = float(np.linalg.norm(w5 - w4)); floor = 3e-15 * float(np.linalg.norm(scale))
    tol = 1e-6 if c["tol"] is None else c["tol"]
    need(not math.isnan(hn) and hn * c["h"] > 0, lambda: f"rkf45 suggests the step {hn} after {c['h']}")
    if err > 1e3 * floor:
        rec.label("resolved error")
        want = c["h"] * 0.84 * (tol / err) ** 0.25
        need(abs(hn - want) <= abs(want) * (1e-9 + 2 * floor / err), lambda: f"rkf45 suggests {hn!r}, formula {want!r} (difference {err:.3g}, tol {tol})")
    else:
        rec.label("unresolved error")
        low = abs(c["h"]) * 0.84 * (tol / (err + 100 * floor + 1e-290)) ** 0.25
        need(abs(hn) >= low * 0.999, lambda: f"rkf45 suggests {hn!r} although the two solutions agree to {err:.3g}")


@st.composite
def _zero(draw):
    return dict(c=draw(st.lists(st.one_of(st.just(0.0), gen.uni(-2, 2)), min_size=3, max_size=3)), t=draw(gen.uni(-5, 5)),
                y=draw(st.lists(gen.uni(-3, 3), min_size=3, max_size=3)), h=draw(gen.signed(gen.logu(1e-6, 1.5))),
                tol=draw(gen.logu(1e-12, 1e-2)), interpreted=draw(st.booleans()))


def _const(t, y, p):
    return np.array([p[0], p[1], p[2]])


_constj = njit(_const)


def _still(c, rec):
    rhs = _const if c["interpreted"] else _constj
    p = np.array(c["c"]); y = np.array(c["y"])
    rec.nontrivial(); rec.label("zero rate" if not any(c["c"]) else "constant rate")
    want = y + c["h"] * p
    a = arr("rk4", api("rk4", both(pyqlaw.rk4, c["interpreted"]), rhs, c["t"], c["h"], y.copy(), p), (3,))
    b, hn = api("rkf45", both(pyqlaw.rkf45, c["interpreted"]), rhs, c["t"], c["h"], y.copy(), p, c["tol"])
    for nm, g in (("rk4", a), ("rkf45", arr("rkf45", b, (3,)))):
        need(np.all(np.abs(g - want) <= 1e-13 * (1 + np.abs(y) + np.abs(want) + 30 * abs(c["h"]))), lambda: f"{nm} of a constant rate gives {g.tolist()}, want {want.tolist()}")
    need(not math.isnan(hn) and hn * c["h"] > 0 and abs(hn) >= abs(c["h"]) * min(1.0, 0.84 * (c["tol"] / 1e-13) ** 0.25),
         lambda: f"rkf45 suggests {hn!r} after an exact step of {c['h']}")


SUBS = [Sub("rk4", _case(), _rk4, 3000, 60000, warm=12), Sub("rkf45", _case(), _rkf, 3000, 60000, warm=12),
        Sub("constant_rate", _zero(), _still, 1500, 20000)]
