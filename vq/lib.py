"""Access to the code under test that several properties share."""
import copy, math
import numpy as np
from .core import api, arr, need, Violation, StepLimit
from . import ref
import pyqlaw
import pyqlaw._qlaw as _qm

# Building the symbolic control law takes seconds and is a pure function of its arguments: memoise it where QLaw
# looks it up, so that thousands of problem objects can go through the real constructor. Without the attribute
# (renamed, say) construction is just slower.
_cache = {}


def _memo(mod, name):
    orig = getattr(mod, name, None)
    if orig is None:
        return

    def wrapper(*a, **k):
        key = (name, a, tuple(sorted(k.items())))
        if key not in _cache:
            _cache[key] = orig(*a, **k)
        return _cache[key]
    setattr(mod, name, wrapper)


_memo(_qm, "symbolic_qlaw_keplerian")
_memo(_qm, "symbolic_qlaw_mee_with_a")


def symbolic(kind, **k):
    """(control, psi, dqdoe, dqdt) functions of one element set"""
    key = ("pub", kind, tuple(sorted(k.items())))
    if key not in _cache:
        if not k and _qm.__dict__.get("symbolic_qlaw_keplerian") is not None:
            f = _qm.symbolic_qlaw_keplerian if kind == "keplerian" else _qm.symbolic_qlaw_mee_with_a
        else:
            f = pyqlaw.symbolic_qlaw_keplerian if kind == "keplerian" else pyqlaw.symbolic_qlaw_mee_with_a
        _cache[key] = f(**k)
    return _cache[key]


def law_args(kind, oe, oeT, f, mu, hp, woe):
    return (mu, f, np.array(oe, float), np.array(oeT, float), hp["rpmin"], hp["m"], hp["n"], hp["r"], hp["b"], hp["k"],
            hp["wp"], np.array(woe, float))


def control_angles(kind, oe, oeT, f, mu, hp, woe):
    fun = symbolic(kind)[0]
    out = api("lyapunov_control_angles", pyqlaw.lyapunov_control_angles, fun, *law_args(kind, oe, oeT, f, mu, hp, woe))
    need(len(out) == 6, "lyapunov_control_angles must return alpha, beta, u, psi, q, dqdt")
    alpha, beta, u, psi, q, dqdt = out
    return (float(arr("alpha", alpha, ())), float(arr("beta", beta, ())), arr("u", u, (3,)), arr("psi", psi, (3, 5)),
            float(arr("q", q, ())), float(arr("dqdt", dqdt, ())), psi)


def direction(alpha, beta):
    return np.array([math.cos(beta) * math.sin(alpha), math.cos(beta) * math.cos(alpha), math.sin(beta)])


def both(fn, interpreted):
    """the jitted function, or its Python original when asked for and available"""
    return getattr(fn, "py_func", fn) if interpreted else fn
