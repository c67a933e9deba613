"""Reference model of thruster availability: duty-cycle phases and battery, run beside the records.

The model is set-valued: where a comparison is decided by rounding both outcomes are kept, and every observation
(throttle, thresholds recorded, step length, next level) discards the members that contradict it."""
import math
import numpy as np
from .core import need
from . import qref
from .props.c09 import nominal


def _dyadic(x):
    return math.isfinite(x) and abs(x) < 2 ** 20 and x * 2 ** 20 == math.floor(x * 2 ** 20)


def _gt(a, b, band):
    """set of outcomes of a > b"""
    if abs(a - b) <= band: return (True, False)
    return (a > b,)


def judge(c, r, rec):
    ON, OFF = c["duty"] or (math.inf, 0.0)
    bat = c["battery"]
    lo, hi = bat["cap"] if bat else (0.2, 1.0)
    rc, rd = bat["rates"] if bat else (0.0, 0.0)
    full = bat["full"] if bat else False
    rng = hi - lo
    exact = _dyadic(ON if c["duty"] else 0.0) and _dyadic(OFF) and all(_dyadic(t) for t in r.times)
    if c["duty"] and exact: rec.label("exact times")
    front = {(True, 0.0, 0.0, False)}
    seen = dict(off=0, on=0, empty=0, refill=0, short=0)
    prev_on = None
    for k in range(r.n):
        t, b = float(r.times[k]), float(r.battery[k])
        dt = float(r.dt(k))
        if not r.ok(k) and c["sundman"] and (bat or not math.isfinite(dt)): break
        d = nominal(c, r, k) if bat else dt
        thr = r.controls[k, 2]
        nan = math.isnan(r.bounds[k, 0])
        defined = r.ok(k) and qref.at(r.point(k))["good"]
        band = 0.0 if exact else 1e-9 * (abs(d) + abs(t))
        # 1, 2: phases
        nxt = set()
        for on, ton, toff, ch in front:
            for x in (_gt(abs(t - ton), ON, band) if on else (False,)):
                on1, toff1 = (False, t) if x else (on, toff)
                for y in (_gt(abs(t - toff1), OFF, band if toff1 != t else 0.0) if not on1 else (False,)):
                    nxt.add((True, t, toff1, ch) if y else (on1, ton, toff1, ch))
        # 3, 4, 5: battery
        cand = []
        tolb = 1e-11 * rng
        for on, ton, toff, ch in nxt:
            empties = (True,) if b <= lo else _gt(lo + 1e-12, b, 1e-9 * rng)
            for em in empties:
                if em:
                    cand.append((False, ton, t, True, d, True)); continue
                # while a required recharge goes on, the level does not limit the step
                cut = (False,)
                if on and (not ch or not full) and rd > 0:
                    cut = _gt(lo, b - rd * d, 1e-12 * rng + 1e-9 * rd * abs(d))
                for s in cut:
                    for part in (_gt(hi, b, tolb) if full and ch and b < hi else (False,)):
                        cand.append((False if part else on, ton, toff, ch, (b - lo) / rd if s else d, False))
        keep = set()
        bn = float(r.battery[k + 1])
        why = []
        for on, ton, toff, ch, step, em in cand:
            if thr == 1 and not on: why.append("thrusts while unavailable"); continue
            if not nan and not on: why.append("thresholds evaluated while unavailable"); continue
            if nan and on and defined: why.append("idle while available"); continue
            tt = 1e-9 * abs(d) + 1e-12 * abs(r.times[k + 1])
            if not abs(dt - step) <= tt: why.append(f"lasts {dt!r}, want {step!r}"); continue
            want = min(max(b - rd * dt if on else b + rc * dt, lo), hi)
            tolv = 1e-12 * (abs(lo) + abs(hi)) + max(rd, rc) * (1e-12 * abs(dt) + 4e-16 * abs(r.times[k + 1]))
            if not abs(bn - want) <= tolv: why.append(f"level {b!r} becomes {bn!r}, want {want!r} ({'available' if on else 'idle'})"); continue
            chs = (ch,)
            if not on and ch:
                chs = (False,) if bn >= hi else (True,) if hi - bn > tolb else (True, False)
            for x in chs: keep.add((on, ton, toff, x))
        need(keep, lambda: f"step {k} at t = {t!r}, level {b!r} (throttle {thr}, dt {dt!r}, recorded thresholds {r.bounds[k].tolist()}, next level {bn!r}) contradicts "
                           f"duty cycle {c['duty']} / battery {bat}: {sorted(set(why))}; model before the step (on, last on, last off, charging): {sorted(front)[:4]}; times {r.times[:k + 1].tolist()[-12:]}")
        front = keep
        on = all(x[0] for x in keep)
        if not any(x[0] for x in keep):
            need(thr == 0 and r.masses[k + 1] == r.masses[k], lambda: f"step {k}: thruster unavailable, throttle {thr}, mass {r.masses[k]!r} -> {r.masses[k + 1]!r}")
        if on and defined and all(isinstance(e, float) and e <= 0 for e in (c["eta_a"], c["eta_r"])):
            need(thr == 1, lambda: f"step {k} at t = {t!r}: available, direction defined, no thresholds, yet throttle {thr}")
        need(lo <= bn <= hi or not bat, lambda: f"battery level {bn!r} outside [{lo}, {hi}]")
        seen["on" if on else "off"] += 1
        if prev_on is False and on: seen["refill"] += 1
        prev_on = on
        if b <= lo + 1e-12: seen["empty"] += 1
        if d - dt > 1e-6 * abs(d): seen["short"] += 1
    for k, v in seen.items():
        if v: rec.label(k)
    return seen
