"""Reference direction and rate at one point, with an estimate of what rounding may do to them."""
import math
import numpy as np
from . import ref
from .props import c06


def at(pt):
    """dict(smooth, g, G, D, loss, nD, q) or smooth False where Q has a kink or is out of range"""
    oe = np.array(pt["oe"])
    if not np.all(np.isfinite(oe)): return dict(good=False)
    e = c06.ecc(pt)
    if not (1e-4 < e < 0.97) or oe[0] <= 0: return dict(good=False)
    if pt["kind"] == "keplerian" and not 1e-4 <= oe[2] <= math.pi - 1e-4: return dict(good=False)
    if not c06.bounded(pt) or not c06.smooth(pt): return dict(good=False)
    g = ref.gradQ(pt["kind"], oe[:5], pt["oeT"], pt["f"], pt["mu"], pt["hp"], pt["woe"])
    G = ref.gauss5(pt["kind"], oe, pt["mu"])
    D = G.T @ g
    gt = c06.grad_tol(pt, g)
    aG = np.abs(G).T
    loss = float(np.linalg.norm(aG @ gt) + 1e-12 * np.linalg.norm(aG @ np.abs(g)))
    nD = float(np.linalg.norm(D))
    good = bool(np.all(np.isfinite(D))) and nD > 0 and loss < 1e-4 * nD
    q = float(ref.Q(pt["kind"], oe[:5], pt["oeT"], pt["f"], pt["mu"], pt["hp"], pt["woe"]))
    return dict(good=good, g=g, G=G, D=D, loss=loss, nD=nD, q=q, gtol=gt)


def q_tol(pt, q):
    """absolute rounding tolerance of Q"""
    e = c06.ecc(pt); oe = np.array(pt["oe"]); hp = pt["hp"]
    R = ref.max_rates(pt["kind"], oe[:5], pt["f"], pt["mu"], hp["b"])
    P = 1 + hp["wp"] * math.exp(hp["k"] * (1 - oe[0] * (1 - e) / hp["rpmin"]))
    t = (1e-10 + 1e3 * c06.rate_loss(pt)) * abs(q)
    for j in range(5):
        d = abs(oe[j] - pt["oeT"][j])
        if pt["kind"] == "keplerian" and j > 2: d = abs(ref.wrap_pi(oe[j] - pt["oeT"][j]))
        eps = 1e-14 * (1 + abs(oe[j]) + abs(pt["oeT"][j])) if j else 1e-14 * (oe[0] + abs(pt["oeT"][0]))
        t += P * 4 * pt["woe"][j] * (d + eps) * eps / R[j] ** 2
    return t


def rates_around(pt, N):
    """descent rates |f|*|D| over the anomaly grid: the gradient of Q does not depend on the anomaly"""
    a = at(pt)
    if not np.all(np.isfinite(a.get("D", np.array([np.nan])))): return None
    out = []
    worst = 0.0
    for L in np.linspace(pt["oe"][5], pt["oe"][5] + 2 * math.pi, N + 1)[1:]:
        G = ref.gauss5(pt["kind"], np.array([*pt["oe"][:5], L]), pt["mu"])
        out.append(abs(pt["f"]) * np.linalg.norm(G.T @ a["g"]))
        worst = max(worst, abs(pt["f"]) * float(np.linalg.norm(np.abs(G).T @ a["gtol"]) + 1e-12 * np.linalg.norm(np.abs(G).T @ np.abs(a["g"]))))
    return np.array(out), abs(pt["f"]) * a["nD"], worst
