"""Generators. All cases are JSON values; every random choice is Hypothesis's."""
import math
from hypothesis import strategies as st

PI = math.pi
SPECIAL = [0.0, PI / 2, PI, -PI / 2, -PI, 3 * PI / 2, 2 * PI, PI / 4, PI / 3, -PI / 6, 1e-3, -1e-3, 1e-9]


def uni(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False)


def logu(lo, hi):
    a, b = math.log10(lo), math.log10(hi)
    return uni(a, b).map(lambda x: min(max(10.0 ** x, lo), hi))


def angle(lo=-7.0, hi=7.0, special=SPECIAL):
    sp = [s for s in special if lo <= s <= hi]
    if not sp:
        return uni(lo, hi)
    return st.one_of(uni(lo, hi), uni(lo, hi), uni(lo, hi), st.sampled_from(sp))


def signed(mag):
    return st.tuples(mag, st.sampled_from([1.0, -1.0])).map(lambda t: t[0] * t[1])


def vec3(scale=1.0):
    c = st.one_of(uni(-1, 1), st.just(0.0), uni(-1, 1)).map(lambda x: x * scale)
    return st.lists(c, min_size=3, max_size=3)


def unit_dir():
    """direction by angles; includes the axes"""
    return st.tuples(angle(-PI, PI), angle(-PI / 2, PI / 2)).map(
        lambda t: [math.cos(t[1]) * math.sin(t[0]), math.cos(t[1]) * math.cos(t[0]), math.sin(t[1])])


ECC = st.one_of(uni(0.0, 0.95), uni(0.0, 0.2), st.sampled_from([0.0, 1e-4, 1e-3, 0.01, 0.1, 0.5]))
mus = st.one_of(st.just(1.0), logu(1e-3, 1e6))

WEIGHT = st.one_of(st.just(1.0), st.just(0.0), uni(0.01, 10.0))


def weights():
    return st.lists(WEIGHT, min_size=5, max_size=5).filter(lambda w: any(x > 0 for x in w))


def hyper(lu=1.0):
    """hyper-parameters of Q; keys as in ref.Q"""
    return st.one_of(
        st.just(dict(rpmin=0.1, m=3.0, n=4.0, r=2.0, b=0.01, k=1.0, wp=1.0)),
        st.fixed_dictionaries(dict(rpmin=uni(0.05, 0.9), m=uni(0.5, 6.0),
                                   n=st.one_of(st.sampled_from([2.0, 3.0, 4.0, 6.0]), uni(2.0, 6.0)), r=uni(0.7, 4.0),
                                   b=st.one_of(st.just(0.0), uni(0.001, 1.0)), k=st.one_of(st.just(0.0), uni(0.1, 3.0)),
                                   wp=st.one_of(st.just(0.0), uni(0.1, 5.0)))))
