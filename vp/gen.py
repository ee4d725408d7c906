"""Shared strategies."""
import math
import struct

from hypothesis import strategies as st

# doubles that matter: any finite value, special magnitudes, exact small integers
finite = st.one_of(
    st.floats(allow_nan=False, allow_infinity=False),
    st.floats(-10, 10, allow_nan=False),
    st.sampled_from([0.0, -0.0, 1.0, -1.0, 5e-324, 1.7976931348623157e308, -1.7976931348623157e308,
                     2.2250738585072014e-308, 1e-15, 1 / 3, 1e22, 123456789.123456789]),
)
any_double = st.one_of(finite, st.sampled_from([math.inf, -math.inf, math.nan]))
int32 = st.one_of(st.integers(-2**31, 2**31 - 1), st.integers(-5, 5),
                  st.sampled_from([2**31 - 1, -2**31, 2**16, 255, 256, -1, 0]))
ident = st.text("abcdefghijklmnopqrstuvwxyzABCXYZ_0123456789", min_size=1, max_size=12).filter(
    lambda s: s[0].isalpha())


def bits(x):
    return struct.pack("<d", x)


def same(a, b):
    """Bit-equal doubles; every NaN equals every NaN."""
    a, b = float(a), float(b)
    return (math.isnan(a) and math.isnan(b)) or bits(a) == bits(b)


def same_list(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def pattern(seed, n):
    """n distinct well-spread doubles, a pure function of (seed, n): for arrays too big to draw one by one."""
    return [math.sin(1.0 + 0.7371 * seed + 12.9898 * i) * 10.0 ** ((seed * 7 + i) % 5 - 2) for i in range(n)]


@st.composite
def doubles(draw, n, element=any_double):
    if n <= 12:
        return draw(st.lists(element, min_size=n, max_size=n))
    return pattern(draw(st.integers(0, 10**6)), n)
