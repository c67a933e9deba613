"""Independent reference astrodynamics. Nothing here imports pyqlaw.
Functions marked (cx) accept complex arguments, for complex-step differentiation."""
import math
import numpy as np

TWO_PI = 2 * math.pi


# ------------------------------------------------------------------ element sets -> Cartesian
def kep2cart(kep, mu):                                   # (cx)
    a, e, i, O, w, ta = kep
    p = a * (1 - e * e)
    r = p / (1 + e * np.cos(ta))
    cO, sO, cw, sw, ci, si = np.cos(O), np.sin(O), np.cos(w), np.sin(w), np.cos(i), np.sin(i)
    P = np.array([cO * cw - sO * sw * ci, sO * cw + cO * sw * ci, sw * si])
    Qv = np.array([-cO * sw - sO * cw * ci, -sO * sw + cO * cw * ci, cw * si])
    q = np.sqrt(mu / p)
    R = r * (np.cos(ta) * P + np.sin(ta) * Qv)
    V = q * (-np.sin(ta) * P + (e + np.cos(ta)) * Qv)
    return np.concatenate((R, V))


def mee2cart(mee, mu):                                   # (cx)
    p, f, g, h, k, L = mee
    s2 = 1 + h * h + k * k
    F = np.array([1 - k * k + h * h, 2 * h * k, -2 * k]) / s2
    G = np.array([2 * h * k, 1 + k * k - h * h, 2 * h]) / s2
    w = 1 + f * np.cos(L) + g * np.sin(L)
    R = p / w * (np.cos(L) * F + np.sin(L) * G)
    V = np.sqrt(mu / p) * (-(g + np.sin(L)) * F + (f + np.cos(L)) * G)
    return np.concatenate((R, V))


def meea2cart(m, mu):                                    # (cx)
    a, f, g, h, k, L = m
    return mee2cart(np.array([a * (1 - f * f - g * g), f, g, h, k, L]), mu)


def kep2mee(kep):
    a, e, i, O, w, ta = kep
    t = math.tan(i / 2)
    return np.array([a * (1 - e * e), e * math.cos(O + w), e * math.sin(O + w), t * math.cos(O), t * math.sin(O), O + w + ta])


def kep2meea(kep):
    m = kep2mee(kep); m[0] = kep[0]
    return m


def meea2mee(m):
    a, f, g, h, k, L = m
    return np.array([a * (1 - f * f - g * g), f, g, h, k, L])


def oe2cart(kind, oe, mu):
    return kep2cart(oe, mu) if kind == "keplerian" else meea2cart(oe, mu)


# ------------------------------------------------------------------ Cartesian invariants
def hvec(x):
    return np.cross(x[:3], x[3:])


def evec(x, mu):
    return np.cross(x[3:], hvec(x)) / mu - x[:3] / np.linalg.norm(x[:3])


def energy(x, mu):
    return 0.5 * np.dot(x[3:], x[3:]) - mu / np.linalg.norm(x[:3])


def rtn(x):
    """rows R, T, N"""
    R = x[:3] / np.linalg.norm(x[:3])
    N = hvec(x); N = N / np.linalg.norm(N)
    T = np.cross(N, R)
    return np.array([R, T, N])


def jac_cs(fun, y):
    """Jacobian of an analytic real map by complex steps"""
    y = np.asarray(y, float)
    cols = []
    for j in range(len(y)):
        z = y.astype(complex); h = 1e-30
        z[j] += 1j * h
        cols.append(np.imag(fun(z)) / h)
    return np.array(cols).T


# ------------------------------------------------------------------ Gauss matrix (5 slow rows x 3, RTN), classical form
def gauss5(kind, oe, mu):
    if kind == "keplerian":
        a, e, i, O, w, ta = oe
        p = a * (1 - e * e); h = math.sqrt(mu * p); r = p / (1 + e * math.cos(ta))
        c, s = math.cos(ta), math.sin(ta)
        u = w + ta
        return np.array([
            [2 * a * a / h * e * s, 2 * a * a / h * (1 + e * c), 0],
            [p * s / h, ((p + r) * c + r * e) / h, 0],
            [0, 0, r * math.cos(u) / h],
            [0, 0, r * math.sin(u) / (h * math.sin(i))],
            [-p * c / (e * h), (p + r) * s / (e * h), -r * math.sin(u) * math.cos(i) / (h * math.sin(i))]])
    a, f, g, h, k, L = oe
    p = a * (1 - f * f - g * g); q = math.sqrt(p / mu)
    c, s = math.cos(L), math.sin(L)
    w = 1 + f * c + g * s
    z = h * s - k * c; s2 = 1 + h * h + k * k
    H = math.sqrt(mu * p)
    return np.array([
        [2 * a * a / H * (f * s - g * c), 2 * a * a / H * w, 0],
        [q * s, q / w * ((w + 1) * c + f), -q * g / w * z],
        [-q * c, q / w * ((w + 1) * s + g), q * f / w * z],
        [0, 0, q * s2 / (2 * w) * c],
        [0, 0, q * s2 / (2 * w) * s]])


def fast_rate(kind, oe, acc, mu):
    """rate of the sixth element"""
    if kind == "keplerian":
        a, e, i, O, w, ta = oe
        p = a * (1 - e * e); h = np.sqrt(mu * p); r = p / (1 + e * math.cos(ta))
        return h / r ** 2 + (p * math.cos(ta) * acc[0] - (p + r) * math.sin(ta) * acc[1]) / (e * h)
    a, f, g, h, k, L = oe
    p = a * (1 - f * f - g * g); w = 1 + f * math.cos(L) + g * math.sin(L)
    return np.sqrt(mu * p) * (w / p) ** 2 + np.sqrt(p / mu) / w * (h * math.sin(L) - k * math.cos(L)) * acc[2]


# ------------------------------------------------------------------ the documented Q
def wrap_pi(d):
    """congruent in [-pi, pi]; keeps complex part"""
    return d - TWO_PI * round(float(np.real(d)) / TWO_PI)


def _absx(x):
    return x if np.real(x) >= 0 else -x


def max_rates(kind, oe5, f, mu, b=0.01):                 # (cx)
    if kind == "keplerian":
        a, e, i, O, w = oe5
        p = a * (1 - e * e); h = np.sqrt(mu * p)
        sw, cw, si, ci = np.sin(w), np.cos(w), np.sin(i), np.cos(i)
        adot = 2 * f * np.sqrt(a ** 3 * (1 + e) / (mu * (1 - e)))
        edot = 2 * p * f / h
        idot = p * f / (h * (np.sqrt(1 - e * e * sw * sw) - e * _absx(cw)))
        Odot = p * f / (h * si * (np.sqrt(1 - e * e * cw * cw) - e * _absx(sw)))
        A = (1 - e * e) / (2 * e ** 3)
        t1 = (A + np.sqrt(A * A + 1.0 / 27)) ** (1.0 / 3)
        ct = t1 - 1 / (3 * t1) - 1 / e
        r = p / (1 + e * ct)
        wi = f / (e * h) * np.sqrt(p * p * ct * ct + (p + r) ** 2 * (1 - ct * ct))
        wdot = (wi + b * Odot * _absx(ci)) / (1 + b)
        return [adot, edot, idot, Odot, wdot]
    a, ff, g, h, k = oe5
    e = np.sqrt(ff * ff + g * g)
    p = a * (1 - ff * ff - g * g); q = np.sqrt(p / mu); s2 = 1 + h * h + k * k
    return [2 * f * a * np.sqrt(a / mu) * np.sqrt((1 + e) / (1 - e)), 2 * f * q, 2 * f * q,
            0.5 * f * q * s2 / (np.sqrt(1 - g * g) + ff), 0.5 * f * q * s2 / (np.sqrt(1 - ff * ff) + g)]


def Q(kind, oe5, oeT, f, mu, hp, woe):                    # (cx) in oe5
    """hp: dict rpmin,m,n,r,b,k,wp"""
    a = oe5[0]
    e = oe5[1] if kind == "keplerian" else np.sqrt(oe5[1] ** 2 + oe5[2] ** 2)
    rates = max_rates(kind, oe5, f, mu, hp["b"])
    d = [oe5[j] - oeT[j] for j in range(5)]
    if kind == "keplerian":
        d[3] = wrap_pi(d[3]); d[4] = wrap_pi(d[4])
    P = np.exp(hp["k"] * (1 - a * (1 - e) / hp["rpmin"]))
    x = _absx((a - oeT[0]) / (hp["m"] * oeT[0]))
    S = (1 + (x ** hp["n"] if np.real(x) != 0 else 0.0 * x)) ** (1.0 / hp["r"])
    tot = 0.0
    for j in range(5):
        tot = tot + woe[j] * (S if j == 0 else 1.0) * (d[j] / rates[j]) ** 2
    return (1 + hp["wp"] * P) * tot


def gradQ(kind, oe5, oeT, f, mu, hp, woe):
    fun = lambda z: np.array([Q(kind, z, oeT, f, mu, hp, woe)])
    return jac_cs(fun, np.asarray(oe5, float))[0]


# ------------------------------------------------------------------ anomalies
def ta2ea(ta, e):
    """continuous in ta: same revolution"""
    k = math.floor((ta + math.pi) / TWO_PI)
    t = ta - TWO_PI * k
    return TWO_PI * k + math.atan2(math.sqrt(1 - e * e) * math.sin(t), e + math.cos(t))


# ------------------------------------------------------------------ integrators
def rk4_step(f, t, h, y):
    k1 = f(t, y); k2 = f(t + h / 2, y + h / 2 * k1); k3 = f(t + h / 2, y + h / 2 * k2); k4 = f(t + h, y + h * k3)
    return y + h * (k1 / 6 + k2 / 3 + k3 / 3 + k4 / 6)


_FC = [0.0, 1 / 4, 3 / 8, 12 / 13, 1.0, 1 / 2]
_FA = [[], [1 / 4], [3 / 32, 9 / 32], [1932 / 2197, -7200 / 2197, 7296 / 2197],
       [439 / 216, -8.0, 3680 / 513, -845 / 4104], [-8 / 27, 2.0, -3544 / 2565, 1859 / 4104, -11 / 40]]
_FB4 = [25 / 216, 0, 1408 / 2565, 2197 / 4104, -1 / 5, 0]
_FB5 = [16 / 135, 0, 6656 / 12825, 28561 / 56430, -9 / 50, 2 / 55]


def fehlberg_step(f, t, h, y):
    k = []
    for c, row in zip(_FC, _FA):
        k.append(f(t + c * h, y + h * sum((a * kk for a, kk in zip(row, k)), 0 * y)))
    return (y + h * sum(b * kk for b, kk in zip(_FB4, k)), y + h * sum(b * kk for b, kk in zip(_FB5, k)))


def frozen_step(kind, integrator, oe, dt, acc_ctrl, acc_ptrb, mu):
    """One step with the five slow rates frozen at the start state (control law matrix held over the step)."""
    acc = np.asarray(acc_ctrl, float) + np.asarray(acc_ptrb, float)
    slow = gauss5(kind, oe, mu) @ acc

    def f(t, y):
        return np.concatenate((slow, [fast_rate(kind, y, acc, mu)]))
    oe = np.asarray(oe, float)
    if integrator == "rk4":
        return rk4_step(f, 0.0, dt, oe)
    return fehlberg_step(f, 0.0, dt, oe)[0]
