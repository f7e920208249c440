"""Grids and quadrature weights"""
from chebgen import *


def intervals(rng):
    a = float(rng.choice([-1.0, 0.0, -3.5, 10.0, rng.uniform(-5, 5)]))
    return [a, a + float(rng.choice([1.0, 2.0, 0.01, 7.0, rng.uniform(0.1, 9)]))] if rng.randint(3) else [-1.0, 1.0]


def sizes(rng, i):
    return i + 1 if i < 30 else int(rng.randint(1, 5)) if i % 3 == 0 else int(rng.randint(1, 300))


def moments(x, w, a, b, what, deg, scale=1.0):
    y = 2 * (x - a) / (b - a) - 1
    for k in list(range(min(deg, 12))) + ([deg - 1, deg - 2] if deg > 12 else []):
        ex = 0.0 if k % 2 else 2.0 / (1 - k * k) * (b - a) / 2
        got = float(np.sum(w * np.cos(k * np.arccos(np.clip(y, -1, 1)))))
        # arccos is ill conditioned near the ends only in the argument, not in the cosine of it
        close(got, ex, 1e-11 * max(1.0, k), '%s: integral of T_%d' % (what, k), scale=(b - a))


@case('C19', quick=150, contracts=('chebpts_type2_compute', 'quadwts', 'scaleNodes', 'scaleWeights'))
def second_kind(rng, i):
    chebpts = need('funpy.cheb.pts', 'chebpts')
    n = sizes(rng, i)
    iv = intervals(rng)
    a, b = iv
    kw = {} if (a, b) == (-1.0, 1.0) and rng.randint(2) else dict(interval=np.array(iv) if rng.randint(2) else iv)
    x, w, v, t = chebpts(n, **kw)
    check(x.shape == w.shape == v.shape == (n,) and t.shape == (n,), 'lengths %s %s %s %s for %d points' % (x.shape, w.shape, v.shape, t.shape, n))
    L = b - a
    s = max(abs(a), abs(b))
    close(np.sort(x)[::-1] * 0 + (x + x[::-1]), np.full(n, a + b), 1e-13, 'symmetry of the points', scale=s)
    check(np.all(np.diff(x) > 0), 'points increase')
    if n > 1:
        close(x[[0, -1]], [a, b], 4e-15, 'endpoints', scale=s)
    close(x, (a + b) / 2 + L / 2 * grid(n), 1e-13, 'points', scale=s)
    check(np.all(w > 0), 'weights are positive: %s' % brief(w))
    close(w, w[::-1], 1e-14, 'weights are symmetric', scale=L)
    close(np.sum(w), L, 1e-13, 'sum of the weights', scale=L)
    moments(x, w, a, b, '%d points' % n, n)
    close(np.cos(t), grid(n), 1e-13, 'angles')
    # barycentric weights
    bm, = (need('funpy.cheb.pts', 'barymat'),)
    k = int(rng.randint(1, 8))
    y = np.concatenate((a + L * rng.uniform(0, 1, k), x[rng.randint(0, n, 2)], [a, b]))
    P = np.asarray(bm(y, x, v))
    c = mat(rng, n=n, m=1, kind='flat')
    f = lambda z: val(c, np.clip(2 * (z - a) / L - 1, -1, 1))[:, 0]
    g = val(c, grid(n))[:, 0]
    close(P @ g, f(y), 1e-9 if L > 0.05 else 1e-7, 'barycentric interpolation', scale=bound(c) * (1 + s / L))


@case('C19', quick=60, contracts=('bary_weights', 'quadwts', 'chebpts_type2_compute'))
def separately(rng, i):
    P = need('funpy.cheb', 'pts')
    n = sizes(rng, i)
    a = P.chebpts_type2_compute(n)
    w, v = P.quadwts(n), P.bary_weights(n)
    for nm, fn, first in (('points', P.chebpts_type2_compute, a), ('weights', P.quadwts, w), ('barycentric weights', P.bary_weights, v)):
        f0 = frozen(first)
        first = np.asarray(first)
        second = fn(n)
        same(second, f0, nm + ' at the second call')
        if isinstance(second, np.ndarray) and second.size:
            second[...] = 55.0
            same(first, f0, nm + ' handed out earlier')
            same(fn(n), f0, nm + ' after a caller changed its own')
        for q in range(n + 1, n + 30, 7):
            fn(q)
        same(fn(n), f0, nm + ' after other sizes')
    z, _, _, _ = P.chebpts(n)
    z0 = frozen(z)
    P.chebpts(n)[0][...] = 9.0
    same(P.chebpts(n)[0], z0, 'points after a caller changed its own')
    same(z, z0, 'points handed out earlier')
    sgn = np.array(v) * (-1.0) ** np.arange(n)
    check(n == 1 or np.all(sgn > 0) or np.all(sgn < 0), 'barycentric weights alternate')
    if n > 2:
        close(np.abs(v), np.r_[0.5, np.ones(n - 2), 0.5], 0, 'barycentric weights')


@case('C19', quick=60, contracts=('scaleNodes', 'scaleWeights'))
def scaling(rng, i):
    P = need('funpy.cheb', 'pts')
    iv = intervals(rng)
    x, w = rng.uniform(-1, 1, 6), rng.uniform(0, 1, 6)
    x0, w0 = x.copy(), w.copy()
    close(P.scaleNodes(x, iv), (iv[0] + iv[1]) / 2 + (iv[1] - iv[0]) / 2 * x0, 1e-14, 'scaled nodes', scale=max(np.abs(iv)))
    close(P.scaleWeights(w, iv), (iv[1] - iv[0]) / 2 * w0, 1e-14, 'scaled weights', scale=iv[1] - iv[0])
    same(x, x0, 'nodes given')
    same(w, w0, 'weights given')


@case('C19', quick=60, contracts=('chebpts_type1',))
def first_kind(rng, i):
    chebpts = need('funpy.cheb.pts', 'chebpts')
    n = sizes(rng, i)
    iv = intervals(rng)
    a, b = iv
    x, w, v, t = chebpts(n, interval=iv, type=1)
    L = b - a
    s = max(abs(a), abs(b))
    close(x, (a + b) / 2 + L / 2 * np.sin(np.pi * np.arange(-n + 1, n, 2) / (2.0 * n)), 1e-13, 'points of the first kind', scale=s)
    check(np.all(w > 0), 'weights are positive')
    close(w, w[::-1], 1e-14, 'weights are symmetric', scale=L)
    close(np.sum(w), L, 1e-13, 'sum of the weights', scale=L)
    moments(x, w, a, b, '%d points of the first kind' % n, n)
    close((a + b) / 2 + L / 2 * np.cos(t), x, 1e-13, 'angles', scale=s)
    bm = need('funpy.cheb.pts', 'barymat')
    y = a + L * rng.uniform(0, 1, 4)
    c = mat(rng, n=n, m=1, kind='flat')
    f = lambda z: val(c, np.clip(2 * (z - a) / L - 1, -1, 1))[:, 0]
    close(np.asarray(bm(y, x, v)) @ f(x), f(y), 1e-9 if L > 0.05 else 1e-7, 'barycentric interpolation', scale=bound(c) * (1 + s / L))


@case('C19', quick=60, contracts=('trigpts', 'trig quadwts'))
def fourier(rng, i):
    trigpts, quadwts = need('funpy.trig.trigpts', 'trigpts', 'quadwts')
    n = sizes(rng, i)
    x, w = trigpts(n)
    x0, w0 = frozen(x), frozen(w)
    check(x.shape == (n,) and w.shape == (n,), 'lengths')
    close(x, -1 + 2.0 * np.arange(n) / n, 1e-15, 'equispaced')
    close(np.sum(w), 2.0, 1e-13, 'sum of the weights')
    check(np.all(w > 0) and np.all(w == w[0]), 'equal weights')
    close(quadwts(n), w, 0, 'weights')
    for k in range(1, min(n, 9)):
        close(np.sum(w * np.exp(1j * np.pi * k * x)), 0, 1e-12, 'mode %d' % k)
    y, u = trigpts(n)
    y[...] = 3.0
    u[...] = 4.0
    same(x, x0, 'points handed out earlier')
    same(w, w0, 'weights handed out earlier')
    same(trigpts(n)[0], x0, 'points at a later call')


@case('C19', quick=40, contracts=('diffmat',))
def derivative(rng, i):
    diffmat = need('funpy.cheb.diff', 'diffmat')
    n = int(rng.randint(2, 14))
    k = int(rng.randint(0, 5))
    x = grid(n)
    x0 = x.copy()
    c = mat(rng, n=n, m=1, kind='flat')
    D = np.asarray(diffmat(x, k))
    same(x, x0, 'points given')
    d = dercoef(c, k)
    close(D @ val(c, x)[:, 0], val(d, x)[:, 0], 1e-10, 'derivative of order %d at %d points' % (k, n), scale=max(1.0, float(n) ** (2 * k)) * bound(c))


@case('C19', quick=40, contracts=('chebtech.x', 'trigtech.x'))
def gridof(rng, i):
    Fun = need('funpy.fun', 'Fun')
    iv = intervals(rng)
    c = mat(rng)
    f = Fun(coeffs=c, simplify=False, domain=np.array(iv))
    x = np.asarray(f.x)
    x0 = frozen(x)
    close(x.flatten(), (iv[0] + iv[1]) / 2 + (iv[1] - iv[0]) / 2 * grid(c.shape[0]), 1e-13, 'grid of the function', scale=max(np.abs(iv)))
    x[...] = 5.0
    same(f.x, x0, 'grid after a caller changed its own')
    close(at(f, np.clip(x0.flatten(), iv[0], iv[1])), f.values, 1e-9, 'values at the grid', scale=bound(c))
