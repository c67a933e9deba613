"""C17 perturbing accelerations."""
import math
import numpy as np
from hypothesis import strategies as st
import pyqlaw
import pyqlaw._perturbations as _pt
from ..core import Sub, api, arr, need
from .. import ref, gen
from ..lib import both

RULE = "non-trivial: all vectors have at least two non-zero components, distance not one length unit"
ASSUMPTIONS = ["spacecraft and third body are at least 1e-3 of their distance apart"]
_comp = st.one_of(gen.uni(-1, 1), gen.uni(-1, 1), st.just(0.0))
_dirv = st.lists(_comp, min_size=3, max_size=3).filter(lambda v: sum(x * x for x in v) > 0.01)


def _vec(draw, lo, hi):
    d = np.array(draw(_dirv)); d = d / np.linalg.norm(d)
    return (d * draw(gen.logu(lo, hi))).tolist()


@st.composite
def _third(draw):
    r = _vec(draw, 0.01, 100.0)
    ratio = draw(st.one_of(gen.logu(1.1, 1e6), gen.logu(0.05, 0.9), gen.uni(0.5, 2.0)))
    s = (np.array(_vec(draw, 1.0, 1.0000001)) * ratio * np.linalg.norm(r)).tolist()
    return dict(r=r, s=s, mu=draw(gen.logu(1e-9, 1e6)), interpreted=draw(st.booleans()))


def _f_third(c, rec):
    r, s = np.array(c["r"]), np.array(c["s"])
    d = np.linalg.norm(r - s)
    if d < 1e-3 * max(np.linalg.norm(r), np.linalg.norm(s)):
        rec.label("too close"); return
    rec.nontrivial(np.count_nonzero(r) >= 2 and np.count_nonzero(s) >= 2)
    got = arr("third body", api("perturbation_third_body_battin", both(pyqlaw.perturbation_third_body_battin, c["interpreted"]), r, s, c["mu"]), (3,))
    L = np.longdouble
    R, S = r.astype(L), s.astype(L)
    D = R - S
    want = -L(c["mu"]) * (D / np.sqrt(D @ D) ** 3 + S / np.sqrt(S @ S) ** 3)
    nr = np.linalg.norm(r); ns = np.linalg.norm(s)
    scale = max(c["mu"] * min(nr, ns) / d ** 3, float(np.sqrt(want @ want)))
    tol = 1e-9 * scale + 1e-17 * c["mu"] / ns ** 2
    rec.label("far" if ns > 100 * nr else "inside" if ns < nr else "near")
    need(np.linalg.norm(got - want.astype(float)) <= tol, lambda: f"third-body acceleration {got.tolist()}, point masses give {want.astype(float).tolist()}")


@st.composite
def _j2(draw):
    return dict(r=_vec(draw, 0.05, 100.0), rot=[draw(gen.angle()) for _ in range(3)], mu=draw(gen.mus), J2=draw(gen.signed(gen.logu(1e-5, 1e-1))),
                Re=draw(gen.logu(1e-3, 10.0)), interpreted=draw(st.booleans()))


def _rot(a):
    c, s = np.cos, np.sin
    z = lambda t: np.array([[c(t), s(t), 0], [-s(t), c(t), 0], [0, 0, 1.0]])
    x = lambda t: np.array([[1.0, 0, 0], [0, c(t), s(t)], [0, -s(t), c(t)]])
    return z(a[2]) @ x(a[1]) @ z(a[0])


def _f_j2(c, rec):
    r, T = np.array(c["r"]), np.ascontiguousarray(_rot(c["rot"]))
    rec.nontrivial(np.count_nonzero(r) >= 2 and abs(np.linalg.norm(r) - 1) > 1e-3)
    got = arr("J2", api("perturbation_J2", both(pyqlaw.perturbation_J2, c["interpreted"]), r.copy(), T.copy(), c["mu"], c["J2"], c["Re"]), (3,))
    pole = T[2]

    def pot(x):
        z = x @ pole; n2 = x @ x
        return np.array([-c["mu"] * c["J2"] * c["Re"] ** 2 / 2 * (3 * z * z - n2) / n2 ** 2.5])
    want = ref.jac_cs(pot, r)[0]
    scale = 3 * c["mu"] * abs(c["J2"]) * c["Re"] ** 2 / np.linalg.norm(r) ** 4
    need(np.linalg.norm(got - want) <= 1e-11 * scale, lambda: f"J2 acceleration {got.tolist()}, gradient of the potential {want.tolist()}")


@st.composite
def _srp(draw):
    return dict(r=_vec(draw, 1e-3, 1e6), AU=draw(gen.logu(1e-2, 1e6)), k=draw(gen.logu(1e-12, 1.0)))


def _f_srp(c, rec):
    r = np.array(c["r"])
    rec.nontrivial(np.count_nonzero(r) >= 2)
    got = arr("SRP", api("perturbation_SRP", _pt.perturbation_SRP, r, c["AU"], c["k"]), (3,))
    n = np.linalg.norm(r)
    want = c["k"] * (c["AU"] / n) ** 2 * (r / n)
    need(np.linalg.norm(got - want) <= 1e-12 * np.linalg.norm(want), lambda: f"SRP acceleration {got.tolist()}, want {want.tolist()}")


@st.composite
def _rtn(draw):
    return dict(r=_vec(draw, 1e-3, 1e5), v=_vec(draw, 1e-3, 1e3), interpreted=draw(st.booleans()))


def _f_rtn(c, rec):
    r, v = np.array(c["r"]), np.array(c["v"])
    sn = np.linalg.norm(np.cross(r, v)) / np.linalg.norm(r) / np.linalg.norm(v)
    if sn < 1e-4:
        rec.label("nearly parallel"); return
    rec.nontrivial(np.count_nonzero(r) >= 2 and np.count_nonzero(v) >= 2)
    M = arr("pxformECI2RTN", api("pxformECI2RTN", both(pyqlaw.pxformECI2RTN, c["interpreted"]), r.copy(), v.copy()), (3, 3))
    tol = 1e-13 / sn
    need(np.abs(M @ M.T - np.eye(3)).max() <= tol and abs(np.linalg.det(M) - 1) <= tol, lambda: f"RTN matrix is not a proper rotation: {M.tolist()}")
    W = ref.rtn(np.concatenate((r, v)))
    need(np.abs(M - W).max() <= tol, lambda: f"RTN rows {M.tolist()}, want R, T, N {W.tolist()}")


SUBS = [Sub("third_body", _third(), _f_third, 4000, 80000), Sub("j2", _j2(), _f_j2, 3000, 60000),
        Sub("srp", _srp(), _f_srp, 1000, 10000), Sub("rtn_matrix", _rtn(), _f_rtn, 2000, 30000)]
