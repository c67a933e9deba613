"""C19 export."""
import copy, json, math, os, tempfile
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, need, api, arr
from .. import ref, gen, prob
from ..lib import direction
from .c15 import records, same

RULE = "non-trivial: at least two control rows, one of them thrusting"
ASSUMPTIONS = ["recorded states that are not elliptic orbits have no equinoctial counterpart to compare with"]


@st.composite
def _case(draw, maxsteps=14, **kw):
    c = draw(prob.cases(maxsteps=maxsteps, **kw, near="some", units=True))
    cu = draw(st.one_of(st.none(), st.just({}), st.just(dict(LU=6378.0, TU=806.8, names=["a", "b"])), st.just("numpy")))
    ops = [[draw(st.booleans()), draw(st.booleans()), cu if draw(st.booleans()) else None] for _ in range(draw(st.integers(1, 3)))]
    return dict(c=c, ops=ops, mass=draw(st.sampled_from(["float", "float", "float", "float64", "float32", "int", "int64", "int32"])))


def _cu(x):
    if x == "numpy": return dict(LU=np.float64(1.5), n=np.int64(3), v=np.array([1.0, 2.5]))
    return copy.deepcopy(x)


def _plain(x):
    if isinstance(x, dict): return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, np.ndarray): return _plain(x.tolist())
    if isinstance(x, (list, tuple)): return [_plain(v) for v in x]
    if isinstance(x, np.generic): return x.item()
    return x


def _eq(a, b):
    if isinstance(a, dict): return isinstance(b, dict) and set(a) == set(b) and all(_eq(a[k], b[k]) for k in a)
    if isinstance(a, list): return isinstance(b, list) and len(a) == len(b) and all(_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)): return a == b or (a != a and b != b)
    return a == b


def _rows(r, d, angles):
    n = r.n; c = r.c
    for k in ("t0", "tf", "times", "canonical_units", "states", "controls"):
        need(k in d, lambda: f"the export has no {k!r}: {sorted(d)}")
    need(d["t0"] == 0, lambda: f"t0 = {d['t0']}")
    need(np.array_equal(arr("tf", d["tf"], ()), r.times[-1], equal_nan=True), lambda: f"tf = {d['tf']}, last recorded time {r.times[-1]}")
    need(np.array_equal(arr("times", d["times"], (n + 1,)), r.times, equal_nan=True), "exported times differ from the recorded ones")
    S = arr("states", d["states"], (n + 1, 7))
    C = arr("controls", d["controls"], (n + 1, 3 if angles else 4))
    for k in range(n + 1):
        need(np.array_equal(S[k, 6], r.masses[k], equal_nan=True), lambda: f"row {k}: mass {S[k, 6]!r}, recorded {r.masses[k]!r}")
        s = r.states[k]
        e = s[1] if c["kind"] == "keplerian" else math.hypot(s[1], s[2])
        if np.all(np.isfinite(s)) and s[0] > 0 and 0 <= e < 0.97 and (c["kind"] != "keplerian" or abs(s[2]) < 3.1):
            want = ref.kep2mee(s) if c["kind"] == "keplerian" else ref.meea2mee(s)
            t = 1e-12 * np.array([want[0] / (1 - e), 1, 1, 1 + abs(want[3]) ** 2, 1 + abs(want[4]) ** 2, 0])
            dL = abs(ref.wrap_pi(S[k, 5] - want[5]))
            need(np.all(np.abs(S[k, :5] - want[:5]) <= t[:5]) and dL <= 1e-12 * (1 + abs(want[5])), lambda: f"row {k}: exported elements {S[k, :6].tolist()}, recorded state {s.tolist()} is {want.tolist()}")
    need(C[n, -1] == 0, lambda: f"closing row {C[n].tolist()} has throttle {C[n, -1]}")
    need(np.all(np.isfinite(C[n])) and (angles or abs(np.linalg.norm(C[n, :3]) - 1) < 1e-12), lambda: f"closing row {C[n].tolist()} has no direction")
    for k in range(n):
        al, be, th = r.controls[k]
        if angles:
            need(np.array_equal(C[k], r.controls[k], equal_nan=True), lambda: f"row {k}: exported {C[k].tolist()}, recorded {r.controls[k].tolist()}")
        else:
            need(C[k, 3] == th, lambda: f"row {k}: throttle {C[k, 3]}, recorded {th}")
            need(np.all(np.abs(C[k, :3] - direction(al, be)) <= 1e-14), lambda: f"row {k}: direction {C[k, :3].tolist()}, recorded angles {al!r}, {be!r} point along {direction(al, be).tolist()}")


def _check(case, rec):
    c = dict(case["c"]); t = case["mass"]
    if t != "float":                # whatever number the initial mass is given as
        c["mass0"] = (int if t == "int" else getattr(np, t))(math.ceil(c["mass0"]) if "int" in t else c["mass0"])
        rec.label("mass " + t)
    r = prob.run(c)
    before = records(r.p)
    first = {}
    d0 = os.environ.get("VQ_TMP") or tempfile.gettempdir()
    path = os.path.join(d0, f"export{os.getpid()}.json")
    for n, (tofile, angles, cu) in enumerate(case["ops"]):
        units = _cu(cu); snap = copy.deepcopy(units)
        kw = {}
        if units is not None: kw["canonical_units"] = units
        if angles or n % 2: kw["save_control_angles"] = angles
        try:
            d = api("save_to_dict", r.p.save_to_dict, path if tofile else None, **kw)
            need(isinstance(d, dict), lambda: f"save_to_dict returned {type(d).__name__}")
            _rows(r, d, angles)
            need(_eq(_plain(d["canonical_units"]), _plain(snap)), lambda: f"exported units {d['canonical_units']}, given {snap}")
            need(_eq(_plain(units), _plain(snap)), "exporting changed the units passed in")
            if tofile:
                try:
                    with open(path) as f: j = json.load(f)
                except Exception as e:
                    need(False, f"the file written cannot be read as JSON: {e}")
                need(_eq(_plain(d), j), "the file holds other data than the returned dictionary")
        finally:
            if os.path.exists(path): os.remove(path)
        key = (angles, repr(cu)); p = _plain(d)
        if key in first: need(_eq(first[key], p), "exporting again gives different data")
        first[key] = p
        diff = same(before, records(r.p))
        need(diff is None, lambda: f"exporting changed {diff}")
        # the caller may do as it likes with what it got
        for v in (d["times"], d["states"], d["controls"]):
            if isinstance(v, np.ndarray): v[...] = 7.0
        for row in d["states"]:
            if isinstance(row, list): row[0] = 7.0
        diff = same(before, records(r.p))
        need(diff is None, lambda: f"changing the exported rows changes {diff}")
        rec.label("file" if tofile else "no file", "angles" if angles else "vectors", "units" if cu is not None else "no units")
    r.labels(rec)
    rec.nontrivial(r.n >= 2 and np.any(r.controls[:, 2] == 1))


SUBS = [Sub("export", _case(), _check, 1000, 15000, warm=4), Sub("long", _case(300, **prob.LONG), _check, 24, 500)]
