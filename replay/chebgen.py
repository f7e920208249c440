"""Random Chebyshev functions and reference values."""
import numpy as np
from numpy.polynomial import chebyshev as NC
from common import *


def mat(rng, n=None, m=None, kind=None, nmax=40):
    """random coefficient matrix: flat, decaying, sparse, with integer entries"""
    n = int(rng.choice([1, 2, 3, 4, 5, 8, 9, 16, 17, 18, 19, 33, rng.randint(1, nmax + 1)])) if n is None else n
    m = int(rng.choice([1, 1, 2, 3, 4])) if m is None else m
    kind = rng.choice(['flat', 'decay', 'fast', 'sparse', 'int', 'zerotail']) if kind is None else kind
    c = rng.uniform(-1, 1, (n, m))
    if kind == 'decay':
        c = c / (1.0 + np.arange(n)[:, None]) ** 2
    elif kind == 'fast':
        c = c * 10.0 ** (-np.arange(n)[:, None] * rng.uniform(0.3, 1.5))
    elif kind == 'sparse':
        c = c * (rng.uniform(size=(n, m)) < 0.3)
        c[0, :] += 1
    elif kind == 'int':
        c = np.round(5 * c)
        c[0, :] += 1
    elif kind == 'zerotail':
        c[n // 2 + 1:] = 0
    if rng.randint(6) == 0:
        c = c * 10.0 ** rng.randint(0, 4)
    return np.asfortranarray(c.astype(float))


def tech(c, **kw):
    chebtech = need('funpy.cheb', 'chebtech')
    kw.setdefault('simplify', False)
    return chebtech(coeffs=np.asfortranarray(np.array(c, dtype=float)), **kw)


def val(c, x):
    """reference values, shape (len(x), m)"""
    x = np.atleast_1d(np.asarray(x, dtype=float))
    c = np.asarray(c, dtype=float)
    return NC.chebval(x, c).T.reshape(x.size, c.shape[1]) if c.ndim == 2 else NC.chebval(x, c).reshape(-1, 1)


def at(f, x):
    """values of a function object, shape (len(x), m)"""
    x = np.atleast_1d(np.asarray(x, dtype=float))
    return np.asarray(f(x)).reshape(x.size, f.shape[1])


def pts(rng, k=None):
    k = int(rng.choice([1, 2, 3, 7, 23])) if k is None else k
    x = rng.uniform(-1, 1, k)
    for s in (-1.0, 1.0, 0.0):
        if rng.randint(2):
            x[rng.randint(k)] = s
    return x


def bound(c):
    return max(1.0, float(np.max(np.sum(np.abs(np.atleast_2d(c)), axis=0)))) if np.size(c) else 1.0


def grid(n):
    return np.array([0.0]) if n == 1 else np.sin(np.pi * np.arange(-n + 1, n, 2) / (2.0 * (n - 1)))


def dercoef(c, k=1):
    c = np.asarray(c, dtype=float)
    if k >= c.shape[0]:
        return np.zeros((1, c.shape[1]))
    return NC.chebder(c, k, axis=0)


def sameval(f, c, what, tol=1e-11):
    """f is still the function with coefficients c"""
    x = np.linspace(-1, 1, 2 * max(f.shape[0], c.shape[0]) + 3)
    close(at(f, x), val(c, x), tol, what, scale=bound(c))
