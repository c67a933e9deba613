"""C07 steepest descent."""
import math
import numpy as np
from hypothesis import strategies as st
import pyqlaw
from ..core import Sub, api, arr, need
from .. import ref, gen
from ..lib import symbolic, law_args, control_angles, direction, both
from . import c06

RULE = "non-trivial: the descent direction is well defined and has all three components"
ASSUMPTIONS = ["direction and rate are compared where Q is smooth and the gradient does not cancel below 1e-4 of its terms"]


def _reference(c):
    kind, oe = c["kind"], np.array(c["oe"])
    g = ref.gradQ(kind, oe[:5], c["oeT"], c["f"], c["mu"], c["hp"], c["woe"])
    G = ref.gauss5(kind, oe, c["mu"])
    D = G.T @ g
    terms = np.linalg.norm(np.abs(G).T @ (np.abs(g)))
    loss = np.linalg.norm(np.abs(G).T @ c06.grad_tol(c, g)) + 1e-12 * terms
    return g, G, D, loss


def _steep(c, rec):
    c06._label(c, rec); rec.interesting = False
    if not c06.bounded(c) or not c06.smooth(c): rec.label("not smooth here"); return
    g, G, D, loss = _reference(c)
    nD = np.linalg.norm(D)
    if not np.all(np.isfinite(D)) or nD == 0 or loss > 1e-4 * nD:
        rec.label("ill-conditioned or at target"); return
    rec.nontrivial(np.all(np.abs(D) > 1e-9 * nD))
    alpha, beta, u, psi, q, dqdt, raw = control_angles(c["kind"], c["oe"], c["oeT"], c["f"], c["mu"], c["hp"], c["woe"])
    need(math.isfinite(alpha) and math.isfinite(beta) and bool(np.all(np.isfinite(u))), lambda: f"thrust angles {alpha}, {beta}, vector {u.tolist()}")
    t = direction(alpha, beta)
    want = -D / nD
    tol = 10 * loss / nD + 1e-9
    need(np.linalg.norm(t - want) <= tol, lambda: f"thrust along {t.tolist()}, steepest descent is {want.tolist()} (off by {np.linalg.norm(t - want):.3g} > {tol:.3g})")
    need(abs(np.linalg.norm(u) - 1) <= 1e-12 and np.linalg.norm(u + t) <= 1e-9, lambda: f"unit vector {u.tolist()} does not belong to the angles {alpha}, {beta}")
    # no probed direction beats it (independent of the closed form)
    for d in (*np.eye(3), *-np.eye(3), np.array(c["probe"])):
        need(float(D @ t) <= float(D @ d) + 3 * tol * nD, lambda: f"direction {d.tolist()} lowers Q faster than {t.tolist()}")
    rate = c["f"] * nD
    need(abs(dqdt - rate) <= (tol + 1e-9) * abs(rate), lambda: f"reported rate {dqdt!r}, steepest descent {rate!r}")
    ev = symbolic(c["kind"]); args = law_args(c["kind"], c["oe"], c["oeT"], c["f"], c["mu"], c["hp"], c["woe"])
    r2 = float(arr("rate evaluator", api("rate evaluator", ev[3], *args), ()))
    need(abs(r2 - rate) <= (tol + 1e-9) * abs(rate), lambda: f"stand-alone rate {r2!r}, steepest descent {rate!r}")
    P = arr("matrix evaluator", api("matrix evaluator", ev[1], *args), (3, 5))
    # compare by action: entries of different size live in one column
    sc = np.abs(G).max(axis=1)
    need(np.all(np.abs(P.T - G) <= 1e-9 * sc[:, None] + 1e-12 * np.abs(G)), lambda: f"Gauss matrix {P.T.tolist()}, want {G.tolist()}")
    need(np.all(np.abs(psi.T - G) <= 1e-9 * sc[:, None] + 1e-12 * np.abs(G)), lambda: f"Gauss matrix of the control law {psi.T.tolist()}, want {G.tolist()}")


@st.composite
def _steep_case(draw):
    c = draw(c06.points()); c["probe"] = draw(gen.unit_dir())
    return c


def _nocse(c, rec):
    """with and without common-subexpression elimination"""
    c06._label(c, rec)
    if not c06.bounded(c) or not c06.smooth(c): rec.label("not smooth here"); return
    args = law_args(c["kind"], c["oe"], c["oeT"], c["f"], c["mu"], c["hp"], c["woe"])
    A, B = symbolic(c["kind"]), symbolic(c["kind"], cse=False)
    g, G, D, loss = _reference(c)
    if not np.all(np.isfinite(D)): return
    tol = c06.grad_tol(c, g)
    a, b = (api("control law", s[0], *args) for s in (A, B))
    ga, gb = arr("gradient", a[3], (5,)), arr("gradient", b[3], (5,))
    need(np.all(np.abs(ga - gb) <= 2 * tol), lambda: f"gradient with cse {ga.tolist()}, without {gb.tolist()}")
    qa, qb = float(arr("Q", a[2], ())), float(arr("Q", b[2], ()))
    need(abs(qa - qb) <= (1e-10 + 1e3 * c06.rate_loss(c)) * abs(qa) + 1e-25 * np.linalg.norm(tol), lambda: f"Q with cse {qa!r}, without {qb!r}")
    pa, pb = arr("psi", a[1], (3, 5)), arr("psi", b[1], (3, 5))
    need(np.all(np.abs(pa - pb) <= 1e-9 * np.abs(G).max(axis=1)[None, :]), "the Gauss matrix depends on cse")
    for k, shape in ((1, (3, 5)), (2, (5,)), (3, ())):
        x, y = (arr("evaluator", api("evaluator", s[k], *args), shape) for s in (A, B))
        if k == 3:
            t = (10 * loss / max(np.linalg.norm(D), 1e-300) + 1e-9) * abs(x)
            if not loss < 1e-4 * np.linalg.norm(D): continue
        else:
            t = 2 * tol if k == 2 else 1e-9 * np.abs(G).max(axis=1)[None, :]
        need(np.all(np.abs(x - y) <= t), lambda: f"evaluator {k} with cse {x.tolist()}, without {y.tolist()}")


@st.composite
def _vec_case(draw):
    v = draw(st.one_of(gen.vec3(), gen.unit_dir(), st.sampled_from([[0.0, 0.0, 1.0], [0.0, 0.0, -1.0], [0.0, 1.0, 0.0], [-1.0, 0.0, 0.0], [1e-12, 0.0, 1.0]])))
    return dict(v=v, scale=draw(gen.logu(1e-80, 1e80)), interpreted=draw(st.booleans()))


def _vec(c, rec):
    v = np.array(c["v"]) * c["scale"]
    n = np.linalg.norm(np.array(c["v"]))
    if n < 1e-6: rec.label("zero vector"); return
    rec.label("purely normal" if v[0] == 0 == v[1] else "general"); rec.nontrivial()
    out = api("_u_to_thrust_angles", both(pyqlaw._u_to_thrust_angles, c["interpreted"]), v.copy())
    need(len(out) == 3, "_u_to_thrust_angles returns u, alpha, beta")
    u, al, be = arr("u", out[0], (3,)), float(arr("alpha", out[1], ())), float(arr("beta", out[2], ()))
    w = np.array(c["v"]) / n
    need(np.abs(u - w).max() <= 1e-12, lambda: f"unit vector {u.tolist()} of {v.tolist()}")
    need(np.abs(direction(al, be) + w).max() <= 1e-12 and abs(be) <= math.pi / 2 + 1e-12, lambda: f"angles {al}, {be} point along {direction(al, be).tolist()}, descent is {(-w).tolist()}")


SUBS = [Sub("steepest", _steep_case(), _steep, 6000, 120000), Sub("cse_off", c06.points(), _nocse, 300, 6000, warm=2),
        Sub("thrust_angles", _vec_case(), _vec, 2000, 40000)]
