"""The mathematics the properties refer to, in fixed point with F fraction bits, independent of the code."""
import functools
from fractions import Fraction
import mpmath
from engine import F, ONE, fx

mpmath.mp.prec = F + 60


def mpfx(x):
    return int(mpmath.floor(mpmath.ldexp(x, F)))


@functools.lru_cache(None)
def unit_circle(n):
    """cos and sin of 2 pi j/n"""
    c, s = [], []
    for j in range(n):
        c.append(mpfx(mpmath.cospi(mpmath.mpf(2 * j) / n)))
        s.append(mpfx(mpmath.sinpi(mpmath.mpf(2 * j) / n)))
    return c, s


def mul(a, b):
    return (a * b) >> F


def points(n):
    """Chebyshev-Gauss-Lobatto points, ascending: -cos(pi k/(n-1))"""
    c, _ = unit_circle(2 * (n - 1))
    return [-c[k] for k in range(n)]


@functools.lru_cache(64)
def cheb_fwd(n):
    """coefficients of the interpolating polynomial from values at the points"""
    N = n - 1
    c, _ = unit_circle(2 * N)
    rows = []
    for k in range(n):
        r = []
        for j in range(n):  # point j is cos(pi (N-j)/N)
            v = c[(k * (N - j)) % (2 * N)] * 2 // N
            if j in (0, N):
                v //= 2
            if k in (0, N):
                v //= 2
            r.append(v)
        rows.append(r)
    return rows


@functools.lru_cache(64)
def cheb_bwd(n):
    N = n - 1
    c, _ = unit_circle(2 * N)
    return [[c[(k * (N - j)) % (2 * N)] for k in range(n)] for j in range(n)]


@functools.lru_cache(64)
def cheb_dmat(n, d):
    """integer matrix (column major: list of columns, plain integers) of the d-th derivative of Chebyshev series"""
    cols = []
    for k in range(n):
        v = [0] * n
        v[k] = 1
        for _ in range(d):
            w = [0] * (n + 2)
            for i in range(n - 1, 0, -1):
                w[i - 1] = w[i + 1] + 2 * i * v[i]
            assert w[0] % 2 == 0
            w[0] //= 2
            v = w[:n]
        cols.append(v)
    return cols


def fourier_k(kind, n):
    """signed wavenumbers in coefficient order"""
    if kind == "r2c":
        return list(range(n // 2 + 1))
    return list(range((n - 1) // 2 + 1)) + list(range(-(n // 2), 0))


def ipow(d):
    """i**d as (re, im)"""
    return [(1, 0), (0, 1), (-1, 0), (0, -1)][d % 4]


def bc_rows(kind, n):
    """functionals of Chebyshev coefficients that vanish on the base: list of (name, integer row)"""
    L = lambda f: [f(k) for k in range(n)]
    sg = lambda k: -1 if k % 2 else 1
    val = {"value at +1": L(lambda k: 1), "value at -1": L(sg)}
    slope = {"slope at +1": L(lambda k: k * k), "slope at -1": L(lambda k: -sg(k) * k * k)}
    curv = {"second derivative at +1": L(lambda k: k * k * (k * k - 1) // 3),
            "second derivative at -1": L(lambda k: sg(k) * (k * k * (k * k - 1) // 3))}
    return {"cheb": {}, "dir": val, "neu": slope,
            "dn": {"value at -1": val["value at -1"], "slope at +1": slope["slope at +1"]},
            "ba": {**val, **slope}, "bb": {**val, **curv}}[kind]


MIN = {"cheb": 2, "dir": 5, "neu": 5, "dn": 6, "ba": 10, "bb": 10, "r2c": 1, "c2c": 1}
CODIM = {"cheb": 0, "dir": 2, "neu": 2, "dn": 2, "ba": 4, "bb": 4, "r2c": 0, "c2c": 0}
KINDNAME = {"cheb": "Chebyshev", "dir": "ChebDirichlet", "neu": "ChebNeumann", "dn": "ChebDirichletNeumann",
            "ba": "ChebBiHarmonicA", "bb": "ChebBiHarmonicB", "r2c": "FourierR2c", "c2c": "FourierC2c"}


def len_spec(kind, n):
    return n // 2 + 1 if kind == "r2c" else n - CODIM[kind]


def len_orth(kind, n):
    return n // 2 + 1 if kind == "r2c" else n
