"""C18 SPICE perturbation model, against generated ephemerides."""
import math, os, tempfile
import numpy as np
from hypothesis import strategies as st
import pyqlaw
import spiceypy as spice
from ..core import Sub, api, arr, need, Violation
from .. import ref, gen, prob
from . import c10

RULE = "non-trivial: at least two terms enabled, epoch not the reference epoch"
ASSUMPTIONS = ["ephemerides are bodies in straight uniform motion, written as SPK files; body-fixed frames come from generated pole and prime-meridian constants",
               "no aberration correction is applied to body positions", "gravitational parameters passed explicitly are in canonical units, those read from the kernel pool in km^3/s^2"]
AU = 149597870.7
BODIES = ["399", "10", "301", "499", "599"]
FRAMES = {"399": "IAU_EARTH", "499": "IAU_MARS", "301": "IAU_MOON"}
NAMES = {"399": "EARTH", "10": "SUN", "301": "MOON", "499": "MARS", "599": "JUPITER"}


@st.composite
def _case(draw):
    obs = draw(st.sampled_from(["399", "399", "399", "499", "301"]))
    far = lambda d: st.lists(gen.uni(-1, 1), min_size=3, max_size=3).filter(lambda v: sum(x * x for x in v) > 0.2).map(lambda v: [x * d for x in v])
    eph = {}
    for b in BODIES:
        d = draw(gen.logu(2e5, 8e8)) if b != obs else 1.5e8
        # relative to the barycentre, or (others only) relative to the observer
        eph[b] = dict(center="0" if b == obs else draw(st.sampled_from(["0", obs])), pos=draw(far(d)), vel=[x for x in draw(far(draw(st.sampled_from([1.0, 30.0]))))])
    pck = {b: [draw(gen.uni(0, 360)), draw(gen.uni(-2, 2)), draw(gen.uni(-90, 90)), draw(gen.uni(-2, 2)), draw(gen.uni(0, 360)), draw(gen.uni(-400, 400))] for b in FRAMES}
    nobj = draw(st.integers(1, 2))
    objs = []
    for _ in range(nobj):
        LU = draw(gen.logu(1e3, 1e5)); TU = draw(gen.logu(50.0, 1e5))
        others = [b for b in BODIES if b != obs]
        tb = draw(st.one_of(st.none(), st.just("default") if obs == "399" else st.none(), st.lists(st.sampled_from(others), max_size=3, unique=True), st.lists(st.sampled_from(others), min_size=1, max_size=3, unique=True)))
        o = dict(LU=LU, TU=TU, et=draw(st.one_of(gen.uni(-8e8, 8e8), st.just(0.0))), frame=draw(st.sampled_from(["J2000", "ECLIPJ2000"])), tb=tb, gms=None, names=draw(st.booleans()),
                 J2=draw(st.one_of(st.none(), gen.signed(gen.logu(1e-4, 1e-1)))), Re=draw(st.one_of(st.none(), gen.logu(1000, 7e4))),
                 P=draw(st.one_of(st.none(), gen.logu(1e-7, 1e-3))), Cr=draw(st.one_of(st.none(), gen.uni(0.5, 2))), Am=draw(st.one_of(st.none(), gen.logu(1e-3, 10))),
                 useJ2=draw(st.sampled_from([True, True, False])), useSRP=draw(st.sampled_from([True, True, False])), omit=draw(st.booleans()), itrf=draw(st.booleans()) and obs == "399")
        if isinstance(tb, list) and draw(st.booleans()): o["gms"] = [draw(gen.logu(1e-6, 1e2)) for _ in tb]
        objs.append(o)
    gm = {b: draw(gen.logu(1e2, 1e11)) for b in BODIES}
    LU, TU = objs[0]["LU"], objs[0]["TU"]
    gm[obs] = draw(st.one_of(st.just(1.0), gen.logu(0.1, 10))) * LU ** 3 / TU ** 2
    q = []
    for _ in range(draw(st.integers(1, 4))):
        kep = [draw(gen.uni(0.5, 5.0)), draw(gen.uni(0.0, 0.8)), draw(gen.uni(0.05, 3.0)), draw(gen.angle()), draw(gen.angle()), draw(gen.angle())]
        q.append([draw(st.integers(0, nobj - 1)), draw(st.one_of(gen.uni(-100, 100), st.just(0.0))), draw(st.sampled_from(["keplerian", "mee_with_a"])), kep])
    return dict(obs=obs, eph=eph, pck=pck, objs=objs, gm=gm, queries=q, bad=draw(st.sampled_from(["mee", "MEE_with_a", "", "cartesian", "Keplerian"])))


def _load(c):
    spice.kclear()
    d = os.path.join(os.environ.get("VQ_TMP") or tempfile.gettempdir(), f"spk{os.getpid()}.bsp")
    if os.path.exists(d): os.remove(d)
    h = spice.spkopn(d, "generated", 0)
    t0, t1 = -9.5e8, 9.5e8
    for b, e in c["eph"].items():
        states = np.array([e["pos"] + e["vel"]] * 2)
        for k, t in enumerate((t0, t1)): states[k, :3] += np.array(e["vel"]) * t
        spice.spkw09(h, int(b), int(e["center"]), "J2000", t0, t1, "generated", 1, 2, states.tolist(), [t0, t1])
    spice.spkcls(h)
    spice.furnsh(d)
    if any(o["itrf"] for o in c["objs"]):          # orientation of ITRF93, the default body-fixed frame
        f = d + ".bpc"
        if os.path.exists(f): os.remove(f)
        v = [math.radians(x) for x in c["pck"]["399"]]
        h = spice.pckopn(f, "generated", 0)
        ang = [(math.pi / 2 + v[0], v[1] / 86400 / 36525), (math.pi / 2 - v[2], -v[3] / 86400 / 36525), (v[4], v[5] / 86400)]
        spice.pckw02(h, 3000, "J2000", t0, t1, "generated", t1 - t0, 1, 1, [x for a0, a1 in ang for x in (a0, a1 * t1)], t0)
        spice.pckcls(h)
        spice.furnsh(f)
    for b, g in c["gm"].items(): spice.pdpool(f"BODY{b}_GM", [g])
    for b, v in c["pck"].items():
        spice.pdpool(f"BODY{b}_POLE_RA", [v[0], v[1], 0.0]); spice.pdpool(f"BODY{b}_POLE_DEC", [v[2], v[3], 0.0]); spice.pdpool(f"BODY{b}_PM", [v[4], v[5], 0.0])
    return d


def _rx(a): c, s = math.cos(a), math.sin(a); return np.array([[1, 0, 0], [0, c, s], [0, -s, c]])
def _rz(a): c, s = math.cos(a), math.sin(a); return np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])


ECL = _rx(math.radians(84381.448 / 3600))


def _pos(c, b, et):
    e = c["eph"][b]
    x = np.array(e["pos"]) + np.array(e["vel"]) * et
    return x if e["center"] == "0" else x + _pos(c, e["center"], et)


def _want(c, o, t, rv, terms):
    obs = c["obs"]; LU, TU = o["LU"], o["TU"]
    GM = LU ** 3 / TU ** 2
    mu = c["gm"][obs] / GM
    et = o["et"] + t * TU
    F = np.eye(3) if o["frame"] == "J2000" else ECL
    r = rv[:3]
    rel = lambda b: F @ (_pos(c, b, et) - _pos(c, obs, et)) / LU
    tb = ["301", "10"] if o["tb"] == "default" else (o["tb"] or [])
    gms = o["gms"] or [c["gm"][b] / GM for b in tb]
    parts = []
    for b, m in zip(tb, gms):
        s = rel(b).astype(np.longdouble); R = r.astype(np.longdouble); D = R - s
        w = (-np.longdouble(m) * (D / np.sqrt(D @ D) ** 3 + s / np.sqrt(s @ s) ** 3)).astype(float)
        parts.append(w); terms.append(("third", 1e-8 * max(np.linalg.norm(w), m * np.linalg.norm(r) / float(np.sqrt(D @ D)) ** 3) + 1e-17 * m / float(s @ s)))
        if float(np.sqrt(D @ D)) < 1e-2 * np.linalg.norm(r): return None
    if o["useJ2"]:
        v = c["pck"][obs]; T = et / 86400 / 36525; dd = et / 86400
        ra, de, w = (math.radians(x) for x in (v[0] + v[1] * T, v[2] + v[3] * T, math.fmod(v[4] + v[5] * dd, 360)))
        M = _rz(w) @ _rx(math.pi / 2 - de) @ _rz(math.pi / 2 + ra) @ F.T
        pole = M[2]; J2 = 0.00108263 if o["J2"] is None else o["J2"]; Re = (6378.0 if o["Re"] is None else o["Re"]) / LU
        n = np.linalg.norm(r); z = r @ pole / n
        w = -1.5 * mu * J2 * Re ** 2 / n ** 5 * ((1 - 5 * z * z) * r + 2 * z * n * pole)
        parts.append(w); terms.append(("J2", 1e-8 * abs(mu * J2) * Re ** 2 / n ** 4))
    if o["useSRP"]:
        k = (4.56e-6 if o["P"] is None else o["P"]) * (1.2 if o["Cr"] is None else o["Cr"]) * (0.01 if o["Am"] is None else o["Am"]) / 1000 / LU * TU ** 2
        d = r - rel("10")
        w = k * (AU / LU) ** 2 * d / np.linalg.norm(d) ** 3
        parts.append(w); terms.append(("SRP", 1e-8 * np.linalg.norm(w)))
        if np.linalg.norm(d) < 1e-2 * np.linalg.norm(r): return None
    return ref.rtn(rv) @ sum(parts, np.zeros(3))


def _make(c, o):
    obs = c["obs"]
    kw = dict(obs_id=NAMES[obs] if o["names"] else obs, frame_qlaw=o["frame"], use_J2=o["useJ2"], use_SRP=o["useSRP"], frame_PA=FRAMES[obs])
    if o["tb"] != "default": kw["third_bodies_names"] = None if o["tb"] is None else [NAMES[b] if o["names"] else b for b in o["tb"]]
    if o["gms"] is not None: kw["third_bodies_gms"] = list(o["gms"])
    for k, n in (("J2", "J2"), ("Re", "Re_km"), ("P", "P_SRP_SI"), ("Cr", "Cr_SRP"), ("Am", "Am_SI")):
        if o[k] is not None: kw[n] = o[k]
    if o["itrf"]: kw.pop("frame_PA")
    if o["omit"]:
        for f in ("use_J2", "use_SRP"):
            if kw[f]: kw.pop(f)
    if o["frame"] == "J2000" and o["names"]: kw.pop("frame_qlaw")
    if obs == "399" and not o["names"]: kw.pop("obs_id")
    return api("SpicePerturbations", pyqlaw.SpicePerturbations, o["et"], o["LU"], o["TU"], **kw)


def _check(c, rec):
    path = _load(c)
    try:
        objs = []
        for o in c["objs"]:
            objs.append(_make(c, o))
        for i, t, kind, kep in c["queries"]:
            o = c["objs"][i]
            terms = []
            want = _want(c, o, t, ref.kep2cart(np.array(kep), c["gm"][c["obs"]] * o["TU"] ** 2 / o["LU"] ** 3), terms)
            if want is None: rec.label("too close"); continue
            oe = np.array(kep) if kind == "keplerian" else ref.kep2meea(kep)
            snap = oe.copy()
            got = arr("perturbation", api("get_perturbations_RTN", objs[i].get_perturbations_RTN, t, oe, kind), (3,))
            need(np.array_equal(oe, snap), "get_perturbations_RTN changed the elements")
            tol = sum(x[1] for x in terms) + 1e-300
            need(np.linalg.norm(got - want) <= tol, lambda: f"query at t={t} of {kind} {oe.tolist()}: {got.tolist()}, want {want.tolist()} (difference {np.linalg.norm(got - want):.3e}, tolerance {tol:.3e}; terms {[x[0] for x in terms]})")
            rec.label(kind, o["frame"], *{x[0] for x in terms}, f"{len(terms)} terms", "ITRF93" if o["itrf"] else "IAU frame", "bodies none" if o["tb"] is None else "bodies default" if o["tb"] == "default" else "bodies given")
            rec.nontrivial(len(terms) >= 2 and t != 0)
        try:
            objs[0].get_perturbations_RTN(0.5, np.array([1.0, 0.1, 0.2, 0.3, 0.4, 0.5]), c["bad"])
        except Exception as e:
            need(isinstance(e, ValueError), lambda: f"element set {c['bad']!r} raises {type(e).__name__} instead of ValueError")
        else:
            need(False, f"element set {c['bad']!r} is accepted")
    finally:
        _unload(path)


def _unload(path):
    spice.kclear()
    for f in (path, path + ".bpc"):
        if os.path.exists(f): os.remove(f)


@st.composite
def _solve_case(draw):
    c = draw(_case())
    c["objs"] = c["objs"][:1]; c["queries"] = []; o = c["objs"][0]
    o["LU"] = min(o["LU"], 1e4)
    GM = o["LU"] ** 3 / o["TU"] ** 2
    c["gm"][c["obs"]] = GM
    # third bodies and radiation pressure of moderate size, so that the orbit survives a few steps
    for b in BODIES:
        if b != c["obs"]:
            d = math.dist(_pos(c, b, o["et"]), _pos(c, c["obs"], o["et"])) / o["LU"]
            c["gm"][b] = GM * draw(gen.logu(1e-6, 1e-2)) * max(d, 1.0) ** 3
    o["gms"] = None
    t = draw(prob.cases(ptrb=False, units=False, near=False, deplete=False, maxsteps=10, minsteps=2))
    o["Re"] = o["LU"] * draw(gen.uni(0.05, 0.5))
    d = math.dist(c["eph"]["10"]["pos"], [0, 0, 0] if c["eph"]["10"]["center"] == c["obs"] else c["eph"][c["obs"]]["pos"])
    o["P"] = draw(gen.logu(1e-6, 1e-2)) / ((o["Cr"] or 1.2) * (o["Am"] or 0.01) / 1000 / o["LU"] * o["TU"] ** 2 * (AU / d) ** 2)
    return dict(spice=c, transfer=t)


def _solves(case, rec):
    """the model in use: every recorded step carries the perturbation of its own time and state"""
    c, t = case["spice"], case["transfer"]
    path = _load(c)
    try:
        o = c["objs"][0]
        p, _ = prob.make(t, perturbations=_make(c, o))
        a, k = prob.problem_args(t)
        api("set_problem", p.set_problem, *a, **k)
        try:
            ea, er = prob.solve(p, t)
        except Violation as e:
            # a body met on the way can throw the orbit anywhere
            if "did not stop" in str(e) and not all(prob.Result(p, t).ok(k) for k in range(len(p.controls))): rec.label("scattered"); return
            raise
        r = prob.Result(p, t, None, ea, er)
        def acting(k):
            terms = []
            w = _want(c, o, r.times[k], ref.oe2cart(t["kind"], r.start(k), t["mu"]), terms)
            if w is None: return None
            s = r.start(k); e = s[1] if t["kind"] == "keplerian" else math.hypot(s[1], s[2])
            if np.linalg.norm(w) * max(abs(r.dt(k)), 1) * math.sqrt(s[0] / t["mu"]) > 0.2 * e: return None      # not a perturbation
            rec.label(*{x[0] for x in terms})
            return w, sum(x[1] for x in terms)
        r.labels(rec)
        c10.judge(t, r, rec, acting)
        rec.interesting = rec.interesting and r.n >= 2 and bool(o["useJ2"] or o["useSRP"] or o["tb"])
    finally:
        _unload(path)


SUBS = [Sub("solves", _solve_case(), _solves, 240, 5000), Sub("model", _case(), _check, 1500, 30000)]
