"""Random Fourier functions and reference values."""
import numpy as np
from common import *


def modes(n):
    return np.arange(-(n // 2), (n + 1) // 2) if n % 2 == 0 else np.arange(-(n - 1) // 2, (n - 1) // 2 + 1)


def coef(rng, n=None, m=None, real=None, nmax=24, decay=True):
    """coefficients, modes -(n//2).. ; real: of a real function (highest even mode real)"""
    n = int(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 16, 17, rng.randint(1, nmax + 1)])) if n is None else n
    m = int(rng.choice([1, 1, 2, 3])) if m is None else m
    real = bool(rng.randint(2)) if real is None else real
    c = rng.uniform(-1, 1, (n, m)) + 1j * rng.uniform(-1, 1, (n, m))
    k = modes(n)
    if decay:
        c = c / (1.0 + np.abs(k)[:, None]) ** 2
    if real:
        for i, q in enumerate(k):
            j = np.where(k == -q)[0]
            if q == 0 or j.size == 0:
                c[i] = c[i].real
            elif q > 0:
                c[i] = np.conj(c[j[0]])
    else:
        c = c + 0.0
    return np.asfortranarray(c), real


def tval(c, x):
    """values, shape (len(x), m): the highest mode of an even number of coefficients is a cosine"""
    x = np.atleast_1d(np.asarray(x, dtype=float))
    n = c.shape[0]
    E = np.exp(1j * np.pi * np.outer(x, modes(n)))
    if n % 2 == 0:
        E[:, 0] = np.cos(np.pi * (n // 2) * x)
    return E @ c


def tech(c, **kw):
    trigtech = need('funpy.trig', 'trigtech')
    return trigtech(coeffs=np.array(c, dtype=complex, order='F'), **kw)


def at(f, x):
    x = np.atleast_1d(np.asarray(x, dtype=float))
    return np.asarray(f(x)).reshape(x.size, f.shape[1])


def tgrid(n):
    return -1 + 2.0 * np.arange(n) / n


def pts(rng, k=None):
    k = int(rng.choice([1, 2, 3, 9])) if k is None else k
    x = rng.uniform(-1, 1, k)
    for s in (-1.0, 1.0, 0.0):
        if rng.randint(2):
            x[rng.randint(k)] = s
    return x


def bound(c):
    return max(1.0, float(np.max(np.sum(np.abs(c), axis=0)))) if np.size(c) else 1.0


def snapshot(f):
    return (f.coeffs.copy(), f.values.copy(), np.array(f.isReal, copy=True))


def unchanged(f, s, what):
    same(f.coeffs, s[0], what + ': coefficients')
    same(f.values, s[1], what + ': values')
    same(f.isReal, s[2], what + ': real flag')


def consistent(f, what, tol=1e-11):
    """values and coefficients kept by f describe the same function"""
    n = f.shape[0]
    check(f.values.shape == f.coeffs.shape, '%s: %s values, %s coefficients' % (what, f.values.shape, f.coeffs.shape))
    close(f.values, tval(f.coeffs, tgrid(n)), tol, what + ': values against coefficients', scale=bound(f.coeffs))


def sharp(c):
    """largest coefficient of the series, for tolerances"""
    return float(np.max(np.abs(c))) if c.size else 1.0


def extended(c, N):
    """coefficients of the same function with N >= n modes (n even: the cosine is split)"""
    n = c.shape[0]
    k, K = modes(n), modes(N)
    out = np.zeros((N, c.shape[1]), dtype=complex)
    for i, q in enumerate(k):
        if n % 2 == 0 and i == 0 and N > n:
            for s in (q, -q):
                j = np.where(K == s)[0]
                if j.size:
                    out[j[0]] += 0.5 * c[i]
        else:
            j = np.where(K == q)[0]
            if j.size:
                out[j[0]] += c[i]
    return out
