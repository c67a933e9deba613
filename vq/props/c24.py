"""C24 rotations, wrapping and drawing geometry."""
import math
import numpy as np
from hypothesis import strategies as st
import pyqlaw
import pyqlaw._transformations as _tr
import pyqlaw._plot_helper as _ph
from ..core import Sub, api, arr, need
from .. import gen
from ..lib import both

RULE = "non-trivial: angle not a multiple of pi/2, or a centre away from the origin, or data not symmetric about zero"
ASSUMPTIONS = ["the wireframe drawn is read back from matplotlib's 3D line collection"]
PI = math.pi
_AX = {1: np.array([1.0, 0, 0]), 2: np.array([0, 1.0, 0]), 3: np.array([0, 0, 1.0])}
_ang = st.one_of(gen.angle(-10, 10), gen.uni(-1000, 1000))


def _rot_case():
    return st.fixed_dictionaries(dict(axis=st.sampled_from([1, 2, 3]), a=_ang, b=_ang, interpreted=st.booleans(),
                                      v=gen.vec3(3.0)))


def _rot(c, rec):
    f = both(getattr(_tr, f"rotmat{c['axis']}"), c["interpreted"])
    A, B, AB = (arr("rotmat", api(f"rotmat{c['axis']}", f, t), (3, 3)) for t in (c["a"], c["b"], c["a"] + c["b"]))
    rec.nontrivial(abs(math.sin(2 * c["a"])) > 1e-9)
    t = 1e-12 + 1e-15 * (abs(c["a"]) + abs(c["b"]))
    need(np.abs(A @ A.T - np.eye(3)).max() <= t and abs(np.linalg.det(A) - 1) <= t, lambda: f"rotmat{c['axis']}({c['a']}) is not a rotation")
    k = _AX[c["axis"]]
    need(np.abs(A @ k - k).max() <= t, "the axis is not fixed")
    need(np.abs(A @ B - AB).max() <= 10 * t, lambda: f"rotations by {c['a']} and {c['b']} do not compose to their sum")
    v = np.array(c["v"]); th = -c["a"]           # frame rotation: coordinates turn the other way
    want = v * math.cos(th) + np.cross(k, v) * math.sin(th) + k * (k @ v) * (1 - math.cos(th))
    need(np.abs(A @ v - want).max() <= 10 * t, lambda: f"rotmat{c['axis']}({c['a']}) maps {v.tolist()} to {(A @ v).tolist()}, want {want.tolist()}")


def _wrap_case():
    return st.one_of(st.fixed_dictionaries(dict(x=_ang)), st.fixed_dictionaries(dict(x=st.lists(_ang, min_size=1, max_size=6))))


def _wrap(c, rec):
    x = np.array(c["x"]) if isinstance(c["x"], list) else c["x"]
    y = arr("wrap", api("wrap", _tr.wrap, x), np.shape(x))
    xs = np.asarray(x, float)
    rec.nontrivial(np.any(np.abs(xs) > PI)); rec.label("array" if xs.ndim else "scalar")
    t = 1e-12 + 1e-15 * np.abs(xs)
    need(np.all(np.abs(y) <= PI + t), lambda: f"wrap({xs.tolist()}) = {y.tolist()} is not within [-pi, pi]")
    n = (y - xs) / (2 * PI)
    need(np.all(np.abs(n - np.round(n)) <= t), lambda: f"wrap({xs.tolist()}) = {y.tolist()} is not congruent")


_rad = gen.logu(1e-2, 1e3)
_cen = st.one_of(st.none(), gen.vec3(10.0), gen.vec3(1.0))


def _surf_case():
    return st.fixed_dictionaries(dict(kind=st.sampled_from(["sphere", "ellipsoid", "ellipsoid"]), r=st.lists(_rad, min_size=3, max_size=3),
                                      center=_cen, n=st.one_of(st.none(), st.integers(5, 70)), probe=gen.unit_dir(),
                                      draw=st.integers(0, 9)))


def _surf(c, rec):
    cen = np.zeros(3) if c["center"] is None else np.array(c["center"])
    kw = {} if c["center"] is None else dict(center=list(c["center"]))
    rec.label(c["kind"]); rec.nontrivial(np.any(cen != 0) or len(set(c["r"])) == 3)
    if c["kind"] == "sphere":
        R = np.array([c["r"][0]] * 3)
        X = api("get_sphere_coordinates", pyqlaw.get_sphere_coordinates, c["r"][0], **kw); gap = 0.5 * math.hypot(2 * PI / 19, PI / 9)
    else:
        R = np.array(c["r"])
        if c["n"] is not None: kw["n"] = c["n"]
        n = c["n"] or 60
        X = api("get_ellipsoid_coordinates", pyqlaw.get_ellipsoid_coordinates, *c["r"], **kw); gap = 0.5 * math.hypot(2 * PI / (n - 1), PI / (n - 1))
    P = _onsurf(c["kind"], X, cen, R)
    probe = np.array(c["probe"])
    for q in (probe, -probe, *np.eye(3), *-np.eye(3)):
        d = math.acos(min(1.0, float((P @ q).max())))
        need(d <= gap * 1.05 + 1e-6, lambda: f"{c['kind']} mesh leaves the direction {q.tolist()} uncovered by {d:.3g} rad")
    if c["draw"] == 0:
        rec.label("drawn")
        import matplotlib.pyplot as plt
        fig = plt.figure()
        try:
            ax = fig.add_subplot(projection="3d")
            if c["kind"] == "sphere":
                api("plot_sphere_wireframe", pyqlaw.plot_sphere_wireframe, ax, c["r"][0], **kw)
            else:
                api("plot_ellipsoid_wireframe", pyqlaw.plot_ellipsoid_wireframe, ax, *c["r"], **kw)
            need(len(ax.collections) == 1, "the wireframe is one collection")
            segs = np.concatenate([np.asarray(s) for s in ax.collections[0]._segments3d])
            _onsurf("drawn " + c["kind"], segs.T, cen, R)
        finally:
            plt.close(fig)


def _onsurf(nm, X, cen, R):
    P = np.stack([np.asarray(x, float).ravel() for x in X]).T
    P = (P - cen) / R
    t = 1e-9 + 1e-14 * np.abs(cen).max() / R.min()
    n = np.linalg.norm(P, axis=1)
    need(np.all(np.abs(n - 1) <= t), lambda: f"{nm} mesh is off the surface: radius ratio {n.min()} to {n.max()}")
    return P / n[:, None]


_lims = st.lists(gen.uni(-50, 50), min_size=2, max_size=4)


def _axis_case():
    return st.fixed_dictionaries(dict(x=_lims, y=_lims, z=_lims, scale=st.one_of(st.none(), gen.uni(1.0, 3.0)), dim3=st.booleans())).filter(
        lambda c: max(max(c[k]) - min(c[k]) for k in ("x", "y", "z")) > 1e-3)


def _axis(c, rec):
    import matplotlib.pyplot as plt
    fig = plt.figure()
    try:
        ax = fig.add_subplot(projection="3d") if c["dim3"] else fig.add_subplot()
        kw = {} if c["scale"] is None else dict(scale=c["scale"])
        if not c["dim3"]: kw["dim3"] = False
        api("set_equal_axis", pyqlaw.set_equal_axis, ax, c["x"], c["y"], c["z"], **kw)
        L = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if c["dim3"] else [])
        rec.label("3d" if c["dim3"] else "2d")
        rec.nontrivial(max(c["x"]) + min(c["x"]) != 0)
        box = getattr(ax, "_box_aspect", None) if c["dim3"] else None
        if box is not None:
            need(max(box) - min(box) <= 1e-9 * max(box), lambda: f"axes of equal range are drawn with lengths {list(box)}")
        big = max(max(c[k]) - min(c[k]) for k in ("x", "y", "z"))
        for (lo, hi), k in zip(L, "xyz"):
            t = 1e-9 * (big + max(abs(v) for v in c[k]))
            need(abs((hi - lo) - big * (c["scale"] or 1.0)) <= t, lambda: f"{k} axis spans {lo}..{hi}, the widest data {big} times {c['scale']}")
            need(abs((hi + lo) - (max(c[k]) + min(c[k]))) <= 2 * t, lambda: f"{k} axis {lo}..{hi} is not centred on the data {c[k]}")
            need(lo <= min(c[k]) + t and hi >= max(c[k]) - t, lambda: f"{k} axis {lo}..{hi} cuts the data {c[k]}")
    finally:
        plt.close(fig)


SUBS = [Sub("rotations", _rot_case(), _rot, 3000, 60000), Sub("wrap", _wrap_case(), _wrap, 2000, 40000),
        Sub("surfaces", _surf_case(), _surf, 500, 8000), Sub("equal_axis", _axis_case(), _axis, 150, 2000)]
