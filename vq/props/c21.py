"""C21 plots."""
import contextlib, io, math
import numpy as np
from hypothesis import strategies as st
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from ..core import Sub, need, api, arr
from .. import ref, gen, prob
from .c15 import records, same

RULE = "non-trivial: at least three records, times or values rescaled or converted by the options"
ASSUMPTIONS = ["lines are recognised by their data, not by colour, style or order", "drawn node and periapsis angles may be any congruent ones, and are judged where the orbit is neither circular nor equatorial",
               "a rate drawn on a logarithmic axis may be drawn as its magnitude"]
DEG = 180 / math.pi


def lines(ax):
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.get_lines()]


def eq(a, b, tol, period=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape: return False
    d = a - b
    if period:
        with np.errstate(all="ignore"): d = d - period * np.round(d / period)
    same_ = (a == b) | (np.isnan(a) & np.isnan(b))
    return bool(np.all(same_ | (np.abs(d) <= tol)))


def has(what, ax, x, y, period=None, tol=None, within=None, use=None, other=()):
    """some line of the axes shows y against x; its label names none of the other quantities of the plot"""
    x, y = np.asarray(x, float), np.asarray(y, float)
    fin = y[np.isfinite(y)]
    t = tol if tol is not None else 1e-11 * (np.max(np.abs(fin)) if len(fin) else 1.0) + 1e-300
    tx = 1e-12 * (np.max(np.abs(x)) if len(x) else 0) + 1e-300
    for (lx, ly), name in zip(lines(ax), [str(l.get_label()) for l in ax.get_lines()]):
        if lx.shape != x.shape or not eq(lx, x, tx): continue
        if within is not None and np.any((ly[np.isfinite(ly)] > within[1]) | (ly[np.isfinite(ly)] < within[0])): continue
        if (eq(ly, y, t, period) if use is None else eq(ly[use], y[use], t, period)) and not any(o in name.lower() for o in other): return
    cand = [l for l in lines(ax) if l[0].shape == x.shape]
    need(False, lambda: f"no line shows {what}: want {y.tolist()[:12]} at {x.tolist()[:12]}; " + (f"drawn {cand[0][1].tolist()[:12]} at {cand[0][0].tolist()[:12]}" if cand else "no line of that length"))


def level(what, ax, v, period=None, tol=1e-9):
    """some horizontal line across the axes at v"""
    for lx, ly in lines(ax):
        if len(ly) == 2 and ly[0] == ly[1] and lx[0] != lx[1]:
            d = ly[0] - v
            if period: d -= period * round(d / period)
            if abs(d) <= tol * (1 + abs(v)): return
    need(False, lambda: f"no line marks {what} at {v!r}; levels drawn: {[l[1].tolist() for l in lines(ax) if len(l[1]) == 2]}")


def band(what, ax, x, lo, hi):
    for pc in ax.collections:
        for path in pc.get_paths():
            v = path.vertices
            v = v[np.all(np.isfinite(v), axis=1)]
            if not len(v): continue
            t = 1e-11 * (abs(lo) + abs(hi) + 1e-30)
            onl, onh = np.abs(v[:, 1] - lo) <= t, np.abs(v[:, 1] - hi) <= t
            tx = 1e-11 * (np.max(np.abs(x)) + 1e-300)
            if np.all(onl | onh) and onl.any() and onh.any() and abs(v[:, 0].min() - min(x)) <= tx and abs(v[:, 0].max() - max(x)) <= tx: return
    need(False, lambda: f"no band shows {what} between {lo!r} and {hi!r} over the recorded times")


def tokep(s):
    """Keplerian elements, in degrees, of an equinoctial state"""
    a, f, g, h, k, L = s
    e = math.hypot(f, g); O = math.atan2(k, h); w = math.atan2(g, f) - O
    return np.array([a, e, 2 * math.atan(math.hypot(h, k)) * DEG, O * DEG, w * DEG, (L - math.atan2(g, f)) * DEG])


@st.composite
def _case(draw):
    c = draw(prob.cases(maxsteps=12, near=False, deplete=False, duty="some", battery="some", units=True, ptrb="some"))
    tu = draw(st.one_of(st.none(), gen.logu(1e-3, 1e4)))
    return dict(c=c, tu=tu, bu=draw(st.one_of(st.none(), gen.logu(1e-3, 1e4))), kep=draw(st.booleans()), mass=draw(st.booleans()), peri=draw(st.booleans()), anom=draw(st.booleans()),
                which=draw(st.sampled_from(["elements", "elements", "elements", "battery", "controls", "controls", "efficiency", "Q"])))


def _check(case, rec):
    c = case["c"]
    if case["which"] == "battery" and c["battery"] is None and c["step"] > 0:
        c["battery"] = dict(initial=0.7, cap=[0.25, 1.5], rates=[0.2 / c["dt0"], 0.3 / c["dt0"]], full=False)
    if case["which"] == "efficiency": c["eta_a"] = 0.2
    r = prob.run(c)
    if r.n == 0 or not np.all(np.isfinite(r.times)): return
    p, w = r.p, case["which"]
    before = records(p)
    TU = case["tu"] if case["tu"] is not None else 1.0
    kw = {} if case["tu"] is None else dict(TU=TU, time_unit_name="fortnights")
    t = r.times * TU
    rec.label(w, c["kind"])
    rec.nontrivial(r.n >= 2 and (TU != 1 or case["kep"]))
    fin = np.all(np.isfinite(r.states))
    try:
        if w == "elements":
            tk = case["kep"]; mee = c["kind"] == "mee_with_a"
            out = api("plot_elements_history", p.plot_elements_history, to_keplerian=tk, plot_mass=case["mass"], plot_periapsis=case["peri"], **kw)
            ax = out[0].axes
            need(len(ax) == 6, lambda: f"{len(ax)} axes instead of six")
            oeT = np.array(c["oeT"][:5])
            if tk and mee:
                rec.label("converted")
                K = np.array([tokep(s) for s in r.states]); T = tokep(np.append(oeT, 0.0))
                e = K[:, 1]; si = np.hypot(r.states[:, 3], r.states[:, 4])
                use = (e > 1e-5) & (e < 1) & (si > 1e-5) & np.all(np.isfinite(r.states), axis=1)
                for j in range(5):
                    per = 360.0 if j > 2 else None
                    has(f"element {j}", ax[j], t, K[:, j], per, tol=1e-9 * (1 if j < 2 else 360) + (1e-11 * np.nanmax(np.abs(K[:, j]))), use=use if j > 1 else None)
                    if j < 3 or (T[1] > 1e-5 and np.hypot(oeT[3], oeT[4]) > 1e-5): level(f"target {j}", ax[j], T[j], per, tol=1e-9)
                an = K[:, 5]; peri = K[:, 0] * (1 - K[:, 1])
            else:
                use = None
                for j in range(5):
                    y = r.states[:, j]
                    try:
                        has(f"element {j}", ax[j], t, y)
                        band(f"the tolerance of element {j}", ax[j], t, oeT[j] - r.tol[j], oeT[j] + r.tol[j])
                    except Exception:
                        if not (tk and j > 1): raise       # Keplerian elements may be shown in degrees when asked for
                        has(f"element {j}", ax[j], t, y * DEG, 360.0, tol=1e-7)
                an = r.states[:, 5] * DEG
                peri = r.states[:, 0] * (1 - (np.hypot(r.states[:, 1], r.states[:, 2]) if mee else r.states[:, 1]))
            if case["peri"]: has("the periapsis radius", ax[0], t, peri, tol=1e-11 * np.nanmax(np.abs(r.states[:, 0])))
            if case["mass"]: has("the mass", ax[5], t, r.masses)
            else: has("the anomaly", ax[5], t, an, 360.0, tol=1e-9 * (1 + np.nanmax(np.abs(an))), use=use, within=(-1e-9, 360 + 1e-9))
            names = ["a", "e", "i", "raan", "om", "ta"] if tk else list(p.element_names)
            for j in range(5):
                y = ax[j].get_ylabel()
                need(y not in names or y == names[j], lambda: f"element {names[j]} is drawn on an axis labelled {y!r}")
            for a in ax:
                if case["tu"] is not None: need("fortnights" in a.get_xlabel(), lambda: f"time axis is labelled {a.get_xlabel()!r}")
        elif w == "battery":
            BU = case["bu"] if case["bu"] is not None else 1.0
            if case["bu"] is not None: kw.update(BU=BU, battery_unit_name="joule")
            out = api("plot_battery_history", p.plot_battery_history, **kw)
            ax = out[0].axes[0]
            has("the battery", ax, t, r.battery * BU)
            lo, hi = c["battery"]["cap"] if c["battery"] else (0.2, 1.0)
            level("the minimum", ax, lo * BU, tol=1e-12); level("the maximum", ax, hi * BU, tol=1e-12)
            if case["tu"] is not None: need("fortnights" in ax.get_xlabel(), lambda: f"time axis is labelled {ax.get_xlabel()!r}")
            if case["bu"] is not None: need("joule" in ax.get_ylabel(), lambda: f"battery axis is labelled {ax.get_ylabel()!r}")
        elif w == "controls":
            out = api("plot_controls", p.plot_controls, show_anomaly=case["anom"], **kw)
            ax = out[0].axes[0]
            for j, n in enumerate(("alpha", "beta")): has(n, ax, t[:-1], r.controls[:, j] * DEG, other=[("beta", "alpha")[j], "throttle"])
            has("the throttle", ax, t[:-1], r.controls[:, 2] * 100, other=["alpha", "beta"])
            if case["anom"]: has("the anomaly", ax, t, r.states[:, 5] * DEG, 360.0, tol=1e-10 * (360 + np.nanmax(np.abs(r.states[:, 5])) * DEG) if fin else 1e-6, within=(-180 - 1e-9, 180 + 1e-9))
            else: need(all(l[0].shape != t.shape for l in lines(ax)), "the anomaly is drawn although it was not asked for")
            if case["tu"] is not None: need("fortnights" in ax.get_xlabel(), lambda: f"time axis is labelled {ax.get_xlabel()!r}")
        elif w == "efficiency":
            out = api("plot_efficiency", p.plot_efficiency, **kw)
            ax = out[0].axes
            need(len(ax) == 2, lambda: f"{len(ax)} axes instead of two")
            for j in range(2):
                other = [("eta_r", "eta_a")[j], ("relative", "absolute")[j]]
                has(f"efficiency {j}", ax[j], t[:-1], r.etas[:, j], other=other + ["min", "threshold"]); has(f"threshold {j}", ax[j], t[:-1], r.bounds[:, j], other=other)
                need(other[1] not in ax[j].get_ylabel().lower(), lambda: f"{('absolute', 'relative')[j]} efficiencies are drawn on an axis labelled {ax[j].get_ylabel()!r}")
        else:
            out = api("plot_Q", p.plot_Q, **kw)
            ax = out[0].axes[0]
            has("Q", ax, t[:-1], r.Qs)
            try: has("the rate", ax, t[:-1], r.dQdts)
            except Exception: has("the rate", ax, t[:-1], np.abs(r.dQdts))
        with contextlib.redirect_stderr(io.StringIO()):
            api(f"drawing the {w} plot", out[0].canvas.draw) if case["tu"] is None and w == "Q" else None
    finally:
        plt.close("all")
    diff = same(before, records(p))
    need(diff is None, lambda: f"plotting changed {diff}")


def _poly_dist(P, C):
    """distance of points P (m,d) from the closed polyline C (n,d)"""
    A, B = C, np.roll(C, -1, axis=0)
    D = B - A; L2 = np.maximum(np.sum(D * D, axis=1), 1e-300)
    out = []
    for x in P:
        u = np.clip(np.sum((x - A) * D, axis=1) / L2, 0, 1)
        out.append(np.min(np.linalg.norm(A + u[:, None] * D - x, axis=1)))
    return np.array(out)


@st.composite
def _traj_case(draw):
    c = draw(prob.cases(maxsteps=14, near=False, deplete=False, ptrb="some"))
    return dict(c=c, three=draw(st.booleans()), interp=draw(st.booleans()), steps=draw(st.integers(2, 40)), sphere=draw(st.sampled_from([None, 0.2, 1.0])), scale=draw(st.one_of(st.none(), gen.uni(1.0, 2.0))))


def _traj(case, rec):
    c = case["c"]
    r = prob.run(c)
    p = r.p
    if r.n < 3 or not all(r.ok(k) for k in range(r.n + 1)): rec.label("too short"); return
    before = records(p)
    dim = 3 if case["three"] else 2
    kw = dict(interpolate=case["interp"], steps=case["steps"])
    if dim == 3:
        if case["sphere"] is None: kw["plot_sphere"] = False
        else: kw["sphere_radius"] = case["sphere"]
        if case["scale"] is not None: kw["scale"] = case["scale"]
    with contextlib.redirect_stdout(io.StringIO()):
        want = np.asarray(api("get_cartesian_history", p.get_cartesian_history, case["interp"], case["steps"]), float)
    if not np.all(np.isfinite(want)): rec.label("interpolated through no orbit"); return
    try:
        out = api("plot_trajectory", p.plot_trajectory_3d if dim == 3 else p.plot_trajectory_2d, **kw)
        ax = out[0].axes[0]
        L = [np.array(l.get_data_3d() if dim == 3 else l.get_data(), float) for l in ax.get_lines()]
        W = want[:dim]
        tol = 1e-12 * np.max(np.abs(want[:3]))
        need(any(l.shape == W.shape and np.all(np.abs(l - W) <= tol) for l in L), "no line shows the Cartesian history")
        orbits = [(n, kep) for n, kep in (("initial", c["oe0"]), ("target", c["oeT"][:5] + [0.0]))]
        used = set()
        nu = np.linspace(0, 2 * math.pi, 3001)[:-1]
        for name, oe in orbits:
            oe = np.array(oe, float)
            e = oe[1] if c["kind"] == "keplerian" else math.hypot(oe[1], oe[2])
            if e < 1e-6 or e > 0.9: continue
            C = np.array([ref.oe2cart(c["kind"], np.append(oe[:5], x), c["mu"])[:dim] for x in nu])
            size = oe[0]
            found = False
            for n, l in enumerate(L):
                if n in used or l.shape[1] < 50: continue
                P = l.T
                if np.max(_poly_dist(P, C)) < 1e-5 * size / (1 - e) and np.max(_poly_dist(C[::100], P)) < 5e-3 * size / (1 - e):
                    found = True; break
            need(found, f"no line shows the {name} orbit {oe.tolist()}")
        # first and last points
        S = []
        for col in ax.collections:
            o = getattr(col, "_offsets3d", None)
            if dim == 3 and o is not None: S += np.array([np.ma.getdata(np.asarray(x, float)) for x in o]).T.tolist()
            if dim == 2 and hasattr(col, "get_offsets"): S += np.asarray(col.get_offsets(), float).tolist()
        S = np.array(S) if S else np.zeros((0, dim))
        for n, k in (("first", 0), ("last", -1)):
            need(len(S) and np.min(np.linalg.norm(S - W[:, k], axis=1)) <= 10 * tol, f"the {n} point {W[:, k].tolist()} is not marked: {S.tolist()}")
        if dim == 3 and case["sphere"] is not None:
            lim = np.array([ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()])
            span = lim[:, 1] - lim[:, 0]
            need(np.all(np.abs(span - span[0]) <= 1e-9 * span[0]), lambda: f"the axes have different ranges {span.tolist()}")
            mn, mx = W.min(axis=1), W.max(axis=1)
            need(np.all(lim[:, 0] <= mn + 10 * tol) and np.all(lim[:, 1] >= mx - 10 * tol), lambda: f"limits {lim.tolist()} do not contain the trajectory {mn.tolist()} to {mx.tolist()}")
            segs = [np.concatenate([np.asarray(g, float) for g in col._segments3d]) for col in ax.collections if len(getattr(col, "_segments3d", ()))]
            need(not segs or any(np.all(np.abs(np.linalg.norm(g, axis=1) - case["sphere"]) <= 1e-9 * case["sphere"]) for g in segs), lambda: f"the sphere drawn does not have radius {case['sphere']}")
            rec.label("sphere")
        rec.label(f"{dim}d", c["kind"], "interpolated" if case["interp"] else "recorded")
        rec.nontrivial()
    finally:
        plt.close("all")
    diff = same(before, records(p))
    need(diff is None, lambda: f"plotting changed {diff}")


SUBS = [Sub("histories", _case(), _check, 500, 8000, warm=4), Sub("trajectories", _traj_case(), _traj, 200, 3000)]
